use crate::alloc::sut_live;
use crate::out::{bytes, call, num, Out};
use level_db_rust::util::arena::{Arena, ArenaAllocLike, ArenaRef};
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

fn addr(p: *const u8) -> Value {
    let a = p as usize;
    json!([a >> 24, a & 0xffffff])
}

pub fn run(case: &Value, out: &mut Out) {
    let before = sut_live().0;
    let arena: ArenaRef = match call(|| Arc::new(Mutex::new(Arena::default()))) {
        Ok(a) => a,
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    // (address, length, what was written there)
    let mut regions: Vec<(*mut u8, usize, u8)> = vec![];
    let mut unsafes: Vec<(UnsafeSlice, Vec<u8>)> = vec![];
    let mut copies: Vec<(Slice, Vec<u8>)> = vec![];
    out.emit(json!({"e": "new", "u": call(|| arena.lock().unwrap().memory_usage()).unwrap_or(0)}));
    let mut fill = 1u8;
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let ev: Result<Value, String> = match name {
            "a" | "al" => {
                let n = num(&op[1]);
                let align = if name == "al" { num(&op[2]) } else { 1 };
                let r = call(|| {
                    let mut l = arena.lock().unwrap();
                    let b = if name == "al" { l.allocate_align(n, align) } else { l.allocate(n) };
                    (b.as_mut_ptr(), b.len())
                });
                r.map(|(p, len)| {
                    fill = fill.wrapping_add(1);
                    unsafe { std::ptr::write_bytes(p, fill, len) };
                    regions.push((p, len, fill));
                    json!({"e": "alloc", "n": n, "al": align, "len": len, "a": addr(p), "m": p as usize % align})
                })
            }
            "us" | "copy" | "str" => {
                let b = bytes(&op[1]);
                match name {
                    "copy" => {
                        let s = Slice::from_buf(&b);
                        call(|| s.copy_with_arena(arena.clone())).map(|c| {
                            let same = c.as_ref() == b.as_slice();
                            copies.push((c, b.clone()));
                            json!({"e": "copy", "n": b.len(), "same": same})
                        })
                    }
                    _ => {
                        let r = if name == "us" {
                            call(|| UnsafeSlice::new_with_arena(&b, arena.clone()))
                        } else {
                            let s = String::from_utf8(b.clone()).unwrap();
                            call(|| if b.len() % 2 == 0 { s.as_str().try_into_unsafe_slice(arena.clone()) } else { s.try_into_unsafe_slice(arena.clone()) })
                        };
                        r.map(|u| match u {
                            Ok(u) => {
                                let same = u.as_ref() == b.as_slice() && u.len() == b.len();
                                unsafes.push((u, b.clone()));
                                json!({"e": "alloc", "n": b.len(), "al": 1, "len": if same { u.len() as i64 } else { -1 }, "a": addr(u.as_ref().as_ptr()), "m": 0})
                            }
                            Err(_) => json!({"e": "failed"}),
                        })
                    }
                }
            }
            "check" => {
                let bad = regions.iter().filter(|(p, n, f)| unsafe { std::slice::from_raw_parts(*p, *n) }.iter().any(|b| b != f)).count()
                    + unsafes.iter().filter(|(u, b)| u.as_ref() != b.as_slice()).count()
                    + copies.iter().filter(|(c, b)| c.as_ref() != b.as_slice()).count();
                Ok(json!({"e": "check", "bad": bad}))
            }
            _ => panic!("op {}", name),
        };
        match ev {
            Ok(mut ev) => {
                ev["u"] = json!(call(|| arena.lock().unwrap().memory_usage() as i64).unwrap_or(-1));
                out.emit(ev)
            }
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                std::mem::forget(arena);
                std::mem::forget(copies);
                return;
            }
        }
    }
    let gone = call(|| drop(arena)).is_ok();
    // copies made with the arena own their data
    let bad = copies.iter().filter(|(c, b)| c.as_ref() != b.as_slice()).count();
    let freed = call(|| drop(copies)).is_ok();
    out.emit(json!({"e": "end", "bad": bad, "ok": gone && freed, "leak": sut_live().0 - before}));
}
