use crate::out::{bytes, call, num, un32, w32, Out};
use crate::pure::order;
use level_db_rust::util::arena::{Arena, ArenaRef};
use level_db_rust::util::histogram::Histogram;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::random::Random;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::{LevelError, Status};
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub fn run(case: &Value, out: &mut Out) {
    match case["kind"].as_str().unwrap() {
        "list" => list(case, out),
        "hist" => hist(case, out),
        "rand" => rand(case, out),
        "slice" => slice(case, out),
        "uslice" => uslice(case, out),
        "status" => status(case, out),
        k => panic!("kind {}", k),
    }
}

fn list(case: &Value, out: &mut Out) {
    let mut l: LinkedList<i64> = match case["make"].as_str() {
        Some("default") => Default::default(),
        _ => LinkedListBuilder::new(),
    };
    out.emit(json!({"e": "ll_new"}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let x = op[1].as_i64().unwrap_or(0);
        let y = op[2].as_i64().unwrap_or(0);
        let p = x as usize;
        let r = match name {
            "add" => call(|| { l.add(x); 1 }),
            "push" => call(|| { l.push(x); 1 }),
            "add_first" => call(|| l.add_first(x).map(|b| b as i64).unwrap_or(-1)),
            "add_last" => call(|| l.add_last(x).map(|b| b as i64).unwrap_or(-1)),
            "add_at" => call(|| l.add_by_position(p, y).map(|b| b as i64).unwrap_or(-1)),
            "get" => call(|| match l.get(p) { Ok(Some(v)) => *v, Ok(None) => -2, Err(_) => -1 }),
            "get_mut" => call(|| match l.get_mut(p) {
                Ok(Some(v)) => { let was = *v; *v = y; was }
                Ok(None) => -2,
                Err(_) => -1,
            }),
            _ => panic!("op {}", name),
        };
        match r {
            Ok(r) => out.emit(json!({"e": format!("ll_{}", name), "x": x, "y": y, "r": r, "n": l.length()})),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                return;
            }
        }
    }
}

/// A printed decimal as an integer scaled by a power of ten, in limbs of four digits, low first; [-1] for anything else.
fn scaled(s: &str, digits: usize) -> Value {
    let (a, b) = match s.split_once('.') {
        Some((a, b)) => (a, b),
        None => (s, ""),
    };
    let t: Vec<u8> = a.bytes().chain(b.bytes()).collect();
    if b.len() != digits || t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) {
        return json!([-1]);
    }
    let mut limbs: Vec<i64> = t.rchunks(4).map(|c| c.iter().fold(0, |n, d| n * 10 + (d - b'0') as i64)).collect();
    while limbs.last() == Some(&0) {
        limbs.pop();
    }
    json!(limbs)
}

fn hist(case: &Value, out: &mut Out) {
    let n = num(&case["n"]);
    let mut h: Vec<Histogram> = (0..n).map(|_| Histogram::default()).collect();
    out.emit(json!({"e": "h_new", "n": n}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let i = num(&op[1]);
        let r = match name {
            // a number of quarters, in limbs
            "add" => {
                let digits: String = op[2].as_array().unwrap().iter().rev().map(|d| format!("{:04}", d.as_u64().unwrap())).collect();
                let v = format!("0{}", digits).parse::<f64>().unwrap() / 4.0;
                call(|| h[i].add(v)).map(|_| json!({"e": "h_add", "i": i + 1, "x": op[2]}))
            }
            "merge" => {
                let j = num(&op[2]);
                let o = std::mem::replace(&mut h[j], Histogram::default());
                let r = call(|| h[i].merge(&o));
                h[j] = o;
                r.map(|_| json!({"e": "h_merge", "i": i + 1, "j": j + 1}))
            }
            "clear" => call(|| h[i].clear()).map(|_| json!({"e": "h_clear", "i": i + 1})),
            "show" => call(|| h[i].to_string()).map(|s| {
                // Count: 2 Average: 11.0000 StdDev: 9.00 / Min: 2.0000 Median: 3.0000 Max: 20.0000
                let w: Vec<&str> = s.split_whitespace().collect();
                let after = |k: &str| w.iter().position(|x| *x == k).and_then(|p| w.get(p + 1)).copied().unwrap_or("?");
                let rows: Vec<Value> = s.lines().filter(|l| l.starts_with('[')).map(|l| {
                    let l = l.replace('[', " ").replace(')', " ").replace(',', " ").replace('%', " ").replace('#', " ");
                    let f: Vec<&str> = l.split_whitespace().collect();
                    let g = |k: usize| f.get(k).copied().unwrap_or("?");
                    json!([scaled(g(0), 0), scaled(g(1), 0), scaled(g(2), 0), scaled(g(3), 3), scaled(g(4), 3), scaled(g(5), 0)])
                }).collect();
                json!({"e": "h_show", "i": i + 1, "count": scaled(after("Count:"), 0), "avg": scaled(after("Average:"), 4),
                    "dev": scaled(after("StdDev:"), 2), "min": scaled(after("Min:"), 4), "med": scaled(after("Median:"), 4),
                    "max": scaled(after("Max:"), 4), "rows": rows})
            }),
            _ => panic!("op {}", name),
        };
        match r {
            Ok(ev) => out.emit(ev),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                return;
            }
        }
    }
}

fn rand(case: &Value, out: &mut Out) {
    let mut r = Random::new(un32(&case["seed"]));
    out.emit(json!({"e": "r_new", "seed": case["seed"]}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let n = op[1].as_u64().unwrap_or(0) as u32;
        let v = match name {
            "next" => call(|| w32(r.next())),
            "uniform" => call(|| w32(r.uniform(n))),
            "one_in" => call(|| json!([0, r.one_in(n) as u32])),
            "bool" => call(|| json!([0, r.next_bool() as u32])),
            "skewed" => call(|| w32(r.skewed(n))),
            _ => panic!("op {}", name),
        };
        match v {
            Ok(v) => out.emit(json!({"e": format!("r_{}", name), "n": n, "r": v})),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                return;
            }
        }
    }
}

/// A result, or -1 for a panic (an index out of range)
fn may<R>(r: Result<R, String>, f: impl FnOnce(R) -> Value) -> Value {
    match r {
        Ok(r) => f(r),
        Err(_) => json!(-1),
    }
}

fn slice(case: &Value, out: &mut Out) {
    let n = num(&case["n"]);
    let mut s: Vec<Slice> = (0..n).map(|_| Slice::default()).collect();
    out.emit(json!({"e": "s_new", "n": n}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let i = num(&op[1]);
        let a = op[2].as_u64().unwrap_or(0) as usize;
        let b = op[3].as_u64().unwrap_or(0) as usize;
        let data = bytes(&op[2]);
        let r = match name {
            "buf" => may(call(|| Slice::from_buf(&data)), |x| { s[i] = x; json!(0) }),
            "vec" => { let v = data.clone(); may(call(|| Slice::from_vec(v)), |x| { s[i] = x; json!(0) }) }
            "str" => {
                let t = String::from_utf8(data.clone()).unwrap();
                may(call(|| if data.len() % 2 == 0 { Slice::from(t.as_str()) } else { Slice::from(t) }), |x| { s[i] = x; json!(0) })
            }
            "raw" => {
                let mut v = std::mem::ManuallyDrop::new(data.clone().into_boxed_slice());
                may(call(|| unsafe { Slice::from_raw_parts(v.as_mut_ptr(), v.len()) }), |x| { s[i] = x; json!(0) })
            }
            "size" => may(call(|| (s[i].size(), s[i].empty(), s[i].len())), |(x, y, z)| json!([x, y as u32, z])),
            "sub" => may(call(|| s[i].as_sub_ref(a, b).to_vec()), |v| json!(v)),
            "rmpre" => may(call(|| s[i].remove_prefix(a)), |v| json!(v.as_ref().to_vec())),
            "starts" => may(call(|| s[i].starts_with(&s[a])), |v| json!(v as u32)),
            "merge" => {
                let o = s[a].clone();
                let j = op[3].as_array().map(|_| String::from_utf8(bytes(&op[3])).unwrap());
                may(call(|| s[i].merge(o, j)), |_| json!(0))
            }
            "at" => may(call(|| s[i][a]), |v| json!(v)),
            "range" => may(call(|| s[i][a..b].to_vec()), |v| json!(v)),
            "from" => may(call(|| s[i][a..].to_vec()), |v| json!(v)),
            "to" => may(call(|| s[i][..b].to_vec()), |v| json!(v)),
            "setrange" => may(call(|| { for (x, y) in s[i][a..b].iter_mut().enumerate() { *y = (x as u8).wrapping_add(1) } }), |_| json!(0)),
            "setfrom" => may(call(|| { for (x, y) in s[i][a..].iter_mut().enumerate() { *y = (x as u8).wrapping_add(1) } }), |_| json!(0)),
            "setto" => may(call(|| { for (x, y) in s[i][..b].iter_mut().enumerate() { *y = (x as u8).wrapping_add(1) } }), |_| json!(0)),
            "clone" => may(call(|| s[i].clone()), |x| { s[a] = x; json!(0) }),
            "cmp" => may(call(|| (order(s[i].partial_cmp(&s[a])), s[i] == s[a])), |(x, y)| json!([x, y as u32])),
            "bytes" => may(call(|| Vec::<u8>::from(s[i].clone())), |v| json!(v)),
            "string" => may(call(|| String::from(s[i].clone()).into_bytes()), |v| json!(v)),
            "as_str" => may(call(|| s[i].as_str().as_bytes().to_vec()), |v| json!(v)),
            "show" => may(call(|| s[i].to_string().into_bytes()), |v| json!(v)),
            "borrow" => may(call(|| s[i].borrow_data().as_bytes().to_vec()), |v| json!(v)),
            _ => panic!("op {}", name),
        };
        let b = if name == "merge" { json!(bytes(&op[3])) } else { op[3].clone() };
        out.emit(json!({"e": format!("s_{}", name), "i": i + 1, "a": op[2], "b": b, "r": r}));
    }
}

fn uslice(case: &Value, out: &mut Out) {
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let mut s: Vec<UnsafeSlice> = vec![];
    let mut owned: Vec<Slice> = vec![];
    out.emit(json!({"e": "u_new"}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let i = op[1].as_u64().unwrap_or(0) as usize;
        let a = op[2].as_u64().unwrap_or(0) as usize;
        let b = op[3].as_u64().unwrap_or(0) as usize;
        let data = bytes(&op[1]);
        let r = match name {
            "make" => may(call(|| UnsafeSlice::new_with_arena(&data, arena.clone()).ok().unwrap()), |u| { s.push(u); json!(0) }),
            "len" => may(call(|| s[i].len()), |n| json!(n)),
            "bytes" => may(call(|| s[i].as_ref().to_vec()), |v| json!(v)),
            "sub" => may(call(|| unsafe { s[i].sub_slice(a, b) }), |u| { s.push(u); json!(0) }),
            "to_slice" => may(call(|| s[i].to_slice()), |v| { let r = json!(v.as_ref().to_vec()); owned.push(v); r }),
            "mutate" => { let o = &mut owned[i]; for x in o.iter_mut() { *x ^= 0xff } json!(0) }
            "owned" => json!(owned[i].as_ref().to_vec()),
            "str" => may(call(|| s[i].as_str().as_bytes().to_vec()), |v| json!(v)),
            "show" => may(call(|| s[i].to_string().into_bytes()), |v| json!(v)),
            _ => panic!("op {}", name),
        };
        out.emit(json!({"e": format!("u_{}", name), "a": op[1], "b": op[2], "c": op[3], "r": r}));
    }
    let _ = call(|| drop(owned));
}

fn status(case: &Value, out: &mut Out) {
    for op in case["ops"].as_array().unwrap() {
        let mk = op["mk"].as_str().unwrap();
        let (mut m1, m2) = (String::from_utf8(bytes(&op["m1"])).unwrap(), String::from_utf8(bytes(&op["m2"])).unwrap());
        let n = op["c"].as_i64().unwrap_or(0);
        let io = |m1: &str| {
            use std::io::{Error, ErrorKind::*};
            let kinds = [Other, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists,
                WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory];
            let kind = kinds[n as usize % kinds.len()];
            match mk {
                "io_os" => Error::from_raw_os_error(n as i32),
                "io_kind" => Error::from(kind),
                _ => Error::new(kind, m1.to_string()),
            }
        };
        if mk.starts_with("io_") && mk != "io_error" {
            // what the error says of itself
            m1 = io(&m1).to_string();
        }
        let make = || -> Status {
            let (a, b) = (Slice::from(m1.as_str()), Slice::from(m2.as_str()));
            let code = |n: i32| LevelError::try_from(n).unwrap();
            match mk {
                "ok" => LevelError::ok(),
                "default" => Status::default(),
                "not_found" => LevelError::not_found(a, b),
                "corruption" => LevelError::corruption(a, b),
                "corruption_string" => LevelError::corruption_string(&m1, &m2),
                "not_supported" => LevelError::not_supported(a, b),
                "invalid_argument" => LevelError::invalid_argument(a, b),
                "repeated_record" => LevelError::repeated_record(a),
                "io_error" => LevelError::io_error(a, b),
                "poison" => {
                    // the error of a lock whose holder panicked, for an own value and for a guard
                    let m = std::sync::Mutex::new(0u8);
                    std::thread::scope(|t| { let _ = t.spawn(|| { let _g = m.lock().unwrap(); std::panic::resume_unwind(Box::new(())) }).join(); });
                    if m1.is_empty() { m.into_inner().unwrap_err().into() } else { let s = m.lock().unwrap_err().into(); s }
                }
                "io" | "io_os" | "io_kind" => io(&m1).into(),
                "wrapper_str" => Status::wrapper_str(code(op["c"].as_i64().unwrap() as i32), &m1),
                "wrapper" => Status::wrapper(code(op["c"].as_i64().unwrap() as i32), a),
                "wrappers" => Status::wrappers(code(op["c"].as_i64().unwrap() as i32), a, b),
                _ => panic!("mk {}", mk),
            }
        };
        let r = call(|| {
            let s = make();
            let p = [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()];
            let m = s.get_msg();
            let m3 = String::from(make().into_msg());
            let text = make().to_string();
            let e = s.get_error();
            let q = [e.is_ok(), e.is_not_found(), e.is_corruption(), e.is_not_supported_error(), e.is_invalid_argument(), e.is_io_error()];
            (p.iter().map(|b| *b as u32).collect::<Vec<_>>(), q.iter().map(|b| *b as u32).collect::<Vec<_>>(), m, m3, text, e.get_value(), e.to_string(), e.is_repeated_record())
        });
        match r {
            Ok((p, q, m, m3, text, v, et, rep)) => out.emit(json!({"e": "st", "mk": mk, "m1": m1.as_bytes(), "m2": op["m2"], "c": op["c"].as_i64().unwrap_or(0),
                "p": p, "q": q, "m": m.into_bytes(), "m3": m3.into_bytes(), "t": text.into_bytes(), "v": v, "et": et.into_bytes(), "rep": rep})),
            Err(_) => out.emit(json!({"e": "panic", "op": mk})),
        }
    }
    for c in case["codes"].as_array().unwrap_or(&vec![]) {
        let x = c.as_i64().unwrap() as i32;
        match call(|| LevelError::try_from(x).map(|e| e.get_value()).unwrap_or(-1)) {
            Ok(v) => out.emit(json!({"e": "code", "x": x, "r": v})),
            Err(_) => out.emit(json!({"e": "panic", "op": "code"})),
        }
    }
    let _ = w32(0);
}
