use crate::out::{bytes, call, num, Out};
use level_db_rust::db::skip_list::{Iter, SkipList};
use level_db_rust::util::arena::{Arena, ArenaRef};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use level_db_rust::verif_hooks::iterator::DataIterator;
use level_db_rust::verif_hooks::set_coins;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// The orders that the specification knows: bytes, their reverse, bytes with ASCII case ignored,
/// trailing zeros ignored, length first; "part" cannot compare keys whose first bytes differ in the high bit.
pub struct Cmp {
    name: String,
    bytewise: BytewiseComparatorImpl,
}

impl Cmp {
    pub fn new(name: &str) -> Self {
        Cmp { name: name.to_string(), bytewise: BytewiseComparatorImpl::default() }
    }
}

fn fold(a: &[u8]) -> Vec<u8> {
    a.iter().map(|b| if *b >= 97 && *b <= 122 { b - 32 } else { *b }).collect()
}

fn trim(a: &[u8]) -> &[u8] {
    let n = a.iter().rposition(|b| *b != 0).map(|i| i + 1).unwrap_or(0);
    &a[..n]
}

impl Comparator for Cmp {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        match self.name.as_str() {
            "rev" => self.bytewise.compare(b, a),
            "fold" => self.bytewise.compare(&fold(a), &fold(b)),
            "trim" => self.bytewise.compare(trim(a), trim(b)),
            "len" => if a.len() == b.len() { self.bytewise.compare(a, b) } else { a.len().partial_cmp(&b.len()) },
            "part" => {
                let hi = |s: &[u8]| s.first().map(|x| x & 128).unwrap_or(0);
                if hi(a) != hi(b) { None } else { self.bytewise.compare(a, b) }
            }
            _ => self.bytewise.compare(a, b),
        }
    }

    fn get_name(&self) -> String {
        self.name.clone()
    }

    fn find_shortest_separator(&self, start: &String, _limit: &Slice) -> String {
        start.clone()
    }

    fn find_short_successor(&self, key: &String) -> String {
        key.clone()
    }
}

pub fn run(case: &Value, out: &mut Out) {
    let keys: Vec<Vec<u8>> = case["keys"].as_array().unwrap().iter().map(bytes).collect();
    let index: HashMap<Vec<u8>, usize> = keys.iter().enumerate().map(|(i, k)| (k.clone(), i + 1)).collect();
    let find = |b: &[u8]| index.get(b).copied().unwrap_or(0);
    let order = case["order"].as_str().unwrap();
    let cmp = Arc::new(Cmp::new(order));
    let arena: ArenaRef = Arc::new(Mutex::new(Arena::default()));
    let list = call(|| SkipList::create(cmp.clone(), arena.clone()));
    let mut list = match list {
        Ok(l) => l,
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "new", "order": order, "keys": keys, "max": list.max_height()}));
    let mut iters: BTreeMap<usize, Iter<Cmp>> = BTreeMap::new();
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        let ev = match name {
            "i" => {
                let k = num(&op[1]);
                let coins: Vec<bool> = op[2].as_array().unwrap().iter().map(|b| b.as_u64() == Some(1)).collect();
                set_coins(&coins);
                let u = UnsafeSlice::new_with_arena(&keys[k], arena.clone()).ok().unwrap();
                let r = call(|| list.insert(u).is_ok());
                set_coins(&[]);
                r.map(|ok| json!({"e": "insert", "k": k + 1, "ok": ok, "n": list.len(), "h": list.height(),
                    "m": call(|| list.memory_usage()).unwrap_or(usize::MAX >> 40), "a": arena.lock().unwrap().memory_usage()}))
            }
            // other users of the same arena
            "pad" => {
                let n = num(&op[1]);
                call(|| {
                    let mut a = arena.lock().unwrap();
                    let b = a.allocate(n);
                    for x in b.iter_mut() {
                        *x = 0xEE;
                    }
                })
                .map(|_| json!({"e": "pad"}))
            }
            "c" => {
                let k = num(&op[1]);
                let key = Slice::from_buf(&keys[k]);
                call(|| list.contains(&key)).map(|r| json!({"e": "contains", "k": k + 1, "r": r}))
            }
            "all" => {
                let l = &list;
                let limit = keys.len() + 2;
                call(|| l.iter().take(limit).map(|u| u.as_ref().to_vec()).collect::<Vec<_>>())
                    .map(|v| json!({"e": "all", "r": v.iter().map(|b| find(b)).collect::<Vec<_>>(), "n": list.len()}))
            }
            "it" => {
                let slot = num(&op[1]);
                let it = list.iter();
                iters.insert(slot, it);
                Ok(json!({"e": "it", "s": slot, "v": iters[&slot].valid(), "k": 0}))
            }
            "first" | "last" | "next" => {
                let slot = num(&op[1]);
                let it = iters.get_mut(&slot).unwrap();
                let r = call(|| {
                    match name {
                        "first" => it.seek_to_first(),
                        "last" => it.seek_to_last(),
                        _ => DataIterator::next(it),
                    };
                    let v = it.valid();
                    (v, if v { it.key().as_ref().to_vec() } else { vec![] })
                });
                r.map(|(v, k)| json!({"e": name, "s": slot, "v": v, "k": if v { find(&k) } else { 0 }}))
            }
            // the printed form, for keys that are text: the keys with the levels of their towers
            "show" => call(|| list.to_string()).map(|text| {
                let (head, rest) = text.split_once('\n').unwrap_or((text.as_str(), ""));
                let count = |name: &str| -> i64 {
                    head.split(name).nth(1).map(|t| t.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>())
                        .and_then(|t| t.parse().ok()).unwrap_or(-1)
                };
                let rest = rest.trim().trim_start_matches("[head]").trim_end_matches("[tail]").trim_end_matches("->").trim();
                let shown: Vec<(usize, i64)> = rest.split("->").map(|t| t.trim()).filter(|t| !t.is_empty()).map(|t| {
                    let (k, level) = t.rsplit_once('(').unwrap_or((t, ""));
                    (find(k.as_bytes()), level.trim_end_matches(')').parse().unwrap_or(-1))
                }).collect();
                json!({"e": "show", "r": shown.iter().map(|s| s.0).collect::<Vec<_>>(), "levels": shown.iter().map(|s| s.1).collect::<Vec<_>>(),
                    "h": count("height"), "n": count("num")})
            }),
            // the std iterator
            "snext" => {
                let slot = num(&op[1]);
                let it = iters.get_mut(&slot).unwrap();
                call(|| Iterator::next(it).map(|u| u.as_ref().to_vec()))
                    .map(|r| json!({"e": "next", "s": slot, "v": r.is_some(), "k": r.map(|b| find(&b)).unwrap_or(0)}))
            }
            _ => panic!("op {}", name),
        };
        match ev {
            Ok(ev) => out.emit(ev),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                std::mem::forget(list);
                return;
            }
        }
    }
}
