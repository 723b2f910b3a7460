//! The cache with values whose destruction panics.
use crate::alloc::{in_harness, sut_live};
use crate::out::{bytes, call, num, Out};
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::Status;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::sync::Arc;

thread_local! {
    static RELEASED: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
    static ARMED: Cell<bool> = const { Cell::new(false) };
}

struct Bomb {
    id: i64,
    check: i64,
    live: bool,
}

impl Bomb {
    fn read(&self) -> i64 {
        if self.check == !self.id { self.id } else { -2 }
    }
}

impl Drop for Bomb {
    fn drop(&mut self) {
        let id = self.read();
        in_harness(|| RELEASED.with(|r| r.borrow_mut().push(id)));
        if self.live && ARMED.with(|a| a.get()) && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(()));
        }
    }
}

fn released() -> Vec<i64> {
    let mut v = RELEASED.with(|r| std::mem::take(&mut *r.borrow_mut()));
    v.sort();
    v
}

fn refused(s: Status) -> &'static str {
    if s.is_corruption() { "corruption" } else { "error" }
}

fn outcome(r: Result<Result<(), Status>, String>) -> &'static str {
    match r {
        Ok(Ok(())) => "ok",
        Ok(Err(s)) => refused(s),
        Err(_) => "panic",
    }
}

/// -1: refused with a corruption, -3 with another error, -4 a panic
fn reading<T>(r: Result<Result<T, Status>, String>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Ok(Ok(t)) => f(t),
        Ok(Err(s)) => if refused(s) == "corruption" { -1 } else { -3 },
        Err(_) => -4,
    }
}

pub fn run(case: &Value, out: &mut Out) {
    let keys: Vec<Slice> = case["keys"].as_array().unwrap().iter().map(|k| Slice::from_vec(bytes(k))).collect();
    let hashes: Vec<u32> = keys.iter().map(|k| Hash::hash_code(k, 0)).collect();
    let (cap, len) = (num(&case["cap"]), num(&case["len"]));
    released();
    ARMED.with(|a| a.set(true));
    let before = sut_live().0;
    let mut cache = match call(|| ShardLRUCache::<Bomb>::new_with_capacity(cap, len)) {
        Ok(c) => Some(c),
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "new", "cap": cap, "shards": hashes.iter().map(|h| (h >> 27) + 1).collect::<Vec<_>>()}));
    let mut held: std::collections::BTreeMap<usize, Arc<Bomb>> = Default::default();
    let mut next_id = 1;
    for op in case["ops"].as_array().unwrap() {
        let mut ev = match op[0].as_str().unwrap() {
            "i" => {
                let (k, charge, id, live) = (num(&op[1]), num(&op[2]), next_id, num(&op[3]) == 1);
                next_id += 1;
                let value = Bomb { id, check: !id, live };
                let (c, key) = (cache.as_ref().unwrap(), &keys[k]);
                json!({"e": "insert", "k": k + 1, "v": id, "c": charge, "b": live, "r": outcome(call(|| c.insert(key, value, charge)))})
            }
            "l" => {
                let (k, slot) = (num(&op[1]), num(&op[2]));
                let (c, key) = (cache.as_ref().unwrap(), &keys[k]);
                let r = reading(call(|| c.lookup(key)), |v| match v {
                    Some(v) => {
                        let id = v.read();
                        if slot > 0 {
                            held.insert(slot, v);
                        }
                        id
                    }
                    None => 0,
                });
                json!({"e": "lookup", "k": k + 1, "h": slot, "r": r})
            }
            "e" => {
                let k = num(&op[1]);
                let (c, key) = (cache.as_mut().unwrap(), &keys[k]);
                json!({"e": "erase", "k": k + 1, "r": outcome(call(|| c.erase(key)))})
            }
            "p" => {
                let c = cache.as_mut().unwrap();
                json!({"e": "prune", "r": outcome(call(|| c.prune()))})
            }
            "d" => {
                ARMED.with(|a| a.set(num(&op[1]) == 1));
                json!({"e": "arm", "on": num(&op[1]) == 1})
            }
            "x" => {
                let c = cache.take();
                json!({"e": "drop", "r": outcome(call(|| { drop(c); Ok(()) }))})
            }
            "r" => {
                let slot = num(&op[1]);
                let v = held.remove(&slot);
                let id = v.as_ref().map(|v| v.read()).unwrap_or(0);
                json!({"e": "release", "h": slot, "v": id, "r": outcome(call(|| { drop(v); Ok(()) }))})
            }
            o => panic!("op {}", o),
        };
        if let Some(c) = cache.as_ref() {
            ev["t"] = json!(reading(call(|| c.total_charge()), |t| t as i64));
            ev["s"] = json!(reading(call(|| c.slots()), |s| (s > 0) as i64));
        }
        ev["rel"] = json!(released());
        out.emit(ev);
    }
    ARMED.with(|a| a.set(false));
    if cache.is_none() && held.is_empty() {
        out.emit(json!({"e": "end", "leak": sut_live().0 - before}));
    } else {
        std::mem::forget(cache);
        std::mem::forget(held);
    }
}
