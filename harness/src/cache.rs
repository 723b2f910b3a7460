use crate::alloc::{in_harness, sut_live};
use crate::out::{bytes, call, num, Out};
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::sync::Arc;

thread_local! {
    static RELEASED: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}

/// A value that knows when it is destroyed.
pub struct Tracked {
    id: i64,
    check: i64,
}

impl Tracked {
    pub fn new(id: i64) -> Self {
        Tracked { id, check: !id }
    }

    /// 0 is no value, -2 a value that was overwritten
    pub fn read(&self) -> i64 {
        if self.check == !self.id { self.id } else { -2 }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let id = self.read();
        in_harness(|| RELEASED.with(|r| r.borrow_mut().push(id)));
    }
}

/// nobody asks which values were released on this thread
pub fn forget_released() {
    in_harness(|| RELEASED.with(|r| r.borrow_mut().clear()));
}

fn released() -> Vec<i64> {
    let mut v = RELEASED.with(|r| std::mem::take(&mut *r.borrow_mut()));
    v.sort();
    v
}

fn slots(c: &ShardLRUCache<Tracked>) -> i64 {
    call(|| c.slots().map(|t| t as i64).unwrap_or(-1)).unwrap_or(-2)
}

pub fn run(case: &Value, out: &mut Out) {
    let keys: Vec<Slice> = case["keys"].as_array().unwrap().iter().map(|k| Slice::from_vec(bytes(k))).collect();
    let hashes: Vec<u32> = keys.iter().map(|k| Hash::hash_code(k, 0)).collect();
    let (cap, len) = (num(&case["cap"]), num(&case["len"]));
    // what one unit of charge in the events stands for
    let unit = 1usize << case["unit"].as_u64().unwrap_or(0);
    // the greatest capacity there is, one less than 2^64
    let max = case["max"].as_bool().unwrap_or(false);
    let amount = if max { usize::MAX } else { cap * unit };
    let units = |x: usize| if max && x == usize::MAX { cap as i64 } else if x % unit == 0 { (x / unit) as i64 } else { -3 };
    let arc = case["arc"].as_bool().unwrap_or(false);
    released();
    let before = sut_live().0;
    // both constructors; erase and prune need exclusive access
    let made = call(|| if arc {
        Arc::try_unwrap(ShardLRUCache::<Tracked>::new_arc_with_capacity(amount, len)).ok().unwrap()
    } else {
        ShardLRUCache::<Tracked>::new_with_capacity(amount, len)
    });
    let mut cache = match made {
        Ok(c) => Some(c),
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "new", "cap": cap, "len": len, "shards": hashes.iter().map(|h| (h >> 27) + 1).collect::<Vec<_>>(),
        "h": hashes.iter().map(|h| h & 0xfffff).collect::<Vec<_>>(), "s": slots(cache.as_ref().unwrap()),
        "c": call(|| units(cache.as_ref().unwrap().capacity())).unwrap_or(-4)}));
    let mut held: std::collections::BTreeMap<usize, Arc<Tracked>> = Default::default();
    let mut next_id = 1;
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let r: Result<Value, String> = match name {
            "i" => {
                let (k, charge, id) = (num(&op[1]), num(&op[2]), next_id);
                next_id += 1;
                let key = &keys[k];
                let value = Tracked::new(id);
                let c = cache.as_ref().unwrap();
                call(|| c.insert(key, value, charge * unit).is_ok())
                    .map(|ok| json!({"e": "insert", "k": k + 1, "v": id, "c": charge, "ok": ok}))
            }
            "l" => {
                let (k, slot) = (num(&op[1]), num(&op[2]));
                let key = &keys[k];
                let c = cache.as_ref().unwrap();
                call(|| c.lookup(key)).map(|r| match r {
                    Ok(Some(v)) => {
                        let id = v.read();
                        if slot > 0 {
                            held.insert(slot, v);
                        }
                        json!({"e": "lookup", "k": k + 1, "r": id, "h": slot})
                    }
                    Ok(None) => json!({"e": "lookup", "k": k + 1, "r": 0, "h": slot}),
                    Err(_) => json!({"e": "lookup", "k": k + 1, "r": -1, "h": slot}),
                })
            }
            "e" => {
                let k = num(&op[1]);
                let key = &keys[k];
                let c = cache.as_mut().unwrap();
                call(|| c.erase(key).is_ok()).map(|ok| json!({"e": "erase", "k": k + 1, "ok": ok}))
            }
            "p" => {
                let c = cache.as_mut().unwrap();
                call(|| c.prune().is_ok()).map(|ok| json!({"e": "prune", "ok": ok}))
            }
            "x" => {
                let c = cache.take();
                call(|| drop(c)).map(|_| json!({"e": "drop"}))
            }
            "r" => {
                let slot = num(&op[1]);
                let v = held.remove(&slot);
                let id = v.as_ref().map(|v| v.read()).unwrap_or(0);
                call(|| drop(v)).map(|_| json!({"e": "release", "h": slot, "r": id}))
            }
            _ => panic!("op {}", name),
        };
        match r {
            Ok(mut ev) => {
                if let Some(c) = cache.as_ref() {
                    let t = call(|| c.total_charge().map(|t| units(t)).unwrap_or(-1)).unwrap_or(-2);
                    ev["t"] = json!(t);
                    ev["s"] = json!(slots(c));
                }
                ev["rel"] = json!(released());
                out.emit(ev);
            }
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                // what is left of the cache is not looked at any more
                std::mem::forget(cache.take());
                std::mem::forget(held);
                return;
            }
        }
    }
    if cache.is_none() && held.is_empty() {
        out.emit(json!({"e": "end", "leak": sut_live().0 - before}));
    } else {
        std::mem::forget(cache);
    }
}
