use crate::out::{bytes, call, num, un32, un64, w64, Out};
use level_db_rust::db::file_meta_data::FileMetaData;
use level_db_rust::db::db_format::{ParsedInternalKey, pack_sequence_and_type, InternalKey, LookupKey, ValueType};
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::version_edit::{Tag, VersionEdit};
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::verif_hooks::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::verif_hooks::set_coins;
use serde_json::{json, Value};
use std::sync::Arc;

/// A policy whose filters show the keys: for each its length and its bytes, then the number of keys.
struct Plain;

impl FilterPolicy for Plain {
    fn name(&self) -> String {
        "plain".into()
    }

    fn create_filter(&self, keys: Vec<&Slice>) -> Slice {
        let n = keys.len();
        self.create_filter_with_len(n, keys)
    }

    fn create_filter_with_len(&self, _capacity: usize, keys: Vec<&Slice>) -> Slice {
        let mut v = vec![];
        for k in keys.iter() {
            v.push(k.size() as u8);
            v.extend_from_slice(k);
        }
        v.push(keys.len() as u8);
        Slice::from_vec(v)
    }

    fn key_may_match(&self, _key: &Slice, _f: &Slice) -> bool {
        true
    }
}

fn key(v: &Value) -> InternalKey {
    // an internal key is its bytes; the crate cannot make one from bytes yet
    unsafe { std::mem::transmute::<Slice, InternalKey>(Slice::from_vec(bytes(v))) }
}

fn vtype(v: &Value) -> ValueType {
    ValueType::try_from(v.as_i64().unwrap() as i32).unwrap()
}

pub fn run(case: &Value, out: &mut Out) {
    match case["kind"].as_str().unwrap() {
        "memtable" => memtable(case, out),
        "edit" => edit(case, out),
        "filter" => filter(case, out),
        "files" => files(case, out),
        _ => single(case, out),
    }
}

fn single(case: &Value, out: &mut Out) {
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let mut ev = op.clone();
        ev["e"] = json!(name);
        let r = match name {
            "lookup" => {
                let (k, s) = (bytes(&op["k"]), un64(&op["s"]) as usize);
                call(|| {
                    let l = LookupKey::new(Slice::from_buf(&k), s);
                    let p = ParsedInternalKey::new(Slice::from_buf(&k), s as u64, ValueType::KTypeValue);
                    (l.mem_table_key().as_ref().to_vec(), l.internal_key().as_ref().to_vec(), ParsedInternalKey::default().internal_key_encoding_length(p))
                })
                .map(|(m, i, n)| {
                    ev["int"] = json!(i);
                    ev["n"] = json!(n);
                    json!(m)
                })
            }
            "pack" => {
                let s = un64(&op["s"]) as usize;
                let t = vtype(&op["t"]);
                call(|| pack_sequence_and_type(s, t)).map(w64)
            }
            "vtype" => {
                let x = op["x"].as_i64().unwrap() as i32;
                call(|| ValueType::try_from(x).map(|t| t.get_value() as i64).unwrap_or(-1)).map(|r| json!(r))
            }
            "tag" => {
                let x = un32(&op["x"]);
                call(|| Tag::from_value(x).map(|t| (t.get_value(), t as i32)).unwrap_or((-1, -1))).map(|(r, d)| {
                    ev["d"] = json!(d);
                    json!(r)
                })
            }
            _ => panic!("op {}", name),
        };
        match r {
            Ok(v) => {
                ev["r"] = v;
                out.emit(ev)
            }
            Err(_) => out.emit(json!({"e": "panic", "op": name})),
        }
    }
}

fn memtable(case: &Value, out: &mut Out) {
    let mut m = match call(|| MemTable::create(Arc::new(BytewiseComparatorImpl::default()))) {
        Ok(m) => m,
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "mt_new"}));
    let mut usage = call(|| m.approximate_memory_usage()).unwrap_or(0);
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let r = match name {
            "mt_add" => {
                let coins: Vec<bool> = op["coins"].as_array().map(|a| a.iter().map(|b| b.as_u64() == Some(1)).collect()).unwrap_or_default();
                set_coins(&coins);
                let (k, v) = (Slice::from_vec(bytes(&op["k"])), Slice::from_vec(bytes(&op["v"])));
                let (s, t) = (un64(&op["s"]) as usize, vtype(&op["t"]));
                let r = call(|| m.add(s, t, &k, &v).is_ok());
                set_coins(&[]);
                let u = call(|| m.approximate_memory_usage()).unwrap_or(0);
                let up = u >= usage;
                usage = u;
                r.map(|ok| json!({"e": "mt_add", "k": op["k"], "v": op["v"], "s": op["s"], "t": op["t"], "ok": ok, "up": up, "u": u}))
            }
            #[cfg(not(feature = "mem"))]
            "mt_dump" => continue,
            #[cfg(feature = "mem")]
            "mt_dump" => call(|| m.verif_list().iter().map(|u| u.as_ref().to_vec()).collect::<Vec<_>>())
                .map(|v| json!({"e": "mt_dump", "r": v, "n": m.verif_list().len()})),
            _ => panic!("op {}", name),
        };
        match r {
            Ok(ev) => out.emit(ev),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                std::mem::forget(m);
                return;
            }
        }
    }
}

fn edit(case: &Value, out: &mut Out) {
    let x = un64(&case["x"]);
    let made = call(|| match case["new"].as_str().unwrap() {
        "log" => VersionEdit::new_with_log_number(x),
        "prev" => VersionEdit::new_with_prev_log_number(x),
        _ => VersionEdit::new(),
    });
    let mut v = match made {
        Ok(v) => v,
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "ed_new", "new": case["new"], "x": case["x"]}));
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let n = || un64(&op["x"]);
        let r = match name {
            "comparator" => { let s = Slice::from_vec(bytes(&op["b"])); call(|| v.set_comparator_name(s)) }
            "log" => call(|| v.set_log_number(n())),
            "prev" => call(|| v.set_prev_log_number(n())),
            "next" => call(|| v.set_next_file(n())),
            "last" => call(|| v.set_last_sequence(n())),
            "pointer" => { let l = un32(&op["l"]); let k = key(&op["ka"]); call(|| v.set_compact_pointer(l, k)) }
            "delete" => { let l = un32(&op["l"]); call(|| v.delete_file(l, n())) }
            "add" => {
                let (l, s) = (un32(&op["l"]), un64(&op["s"]));
                let (a, b) = (key(&op["ka"]), key(&op["kb"]));
                call(|| v.add_file(l, n(), s, a, b))
            }
            "clear" => call(|| v.clear()),
            "encode" => {
                let mut target = bytes(&op["b"]);
                let r = call(|| v.encode_to(&mut target).is_ok());
                if let Ok(ok) = r {
                    let mut ev = op.clone();
                    ev["e"] = json!("ed_encode");
                    ev["ok"] = json!(ok);
                    ev["r"] = json!(target);
                    out.emit(ev);
                    continue;
                }
                Err(String::new())
            }
            _ => panic!("op {}", name),
        };
        if r.is_err() {
            out.emit(json!({"e": "panic", "op": name}));
            return;
        }
        let mut ev = op.clone();
        ev["e"] = json!(format!("ed_{}", name));
        out.emit(ev);
    }
}

fn filter(case: &Value, out: &mut Out) {
    let policy: FilterPolicyPtr = match case["policy"].as_str().unwrap() {
        "plain" => Arc::new(Box::new(Plain)),
        _ => Arc::new(Box::new(BloomFilterPolicy::new_with_bits_per_key(num(&case["bpk"])))),
    };
    let cap = case["cap"].as_u64();
    let made = call(|| match cap {
        None => FilterBlockBuilder::new_with_policy(policy.clone()),
        Some(c) => FilterBlockBuilder::new_with_policy_capacity(policy.clone(), c as usize),
    });
    let mut b = match made {
        Ok(b) => b,
        Err(_) => {
            out.emit(json!({"e": "panic", "op": "new"}));
            return;
        }
    };
    out.emit(json!({"e": "fb_new", "policy": case["policy"], "bpk": case["bpk"].as_u64().unwrap_or(0)}));
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let r = match name {
            "fb_start" => { let x = num(&op["x"]) as u64; call(|| b.start_block(x)).map(|_| json!({"e": name, "x": op["x"]})) }
            "fb_key" => { let k = Slice::from_vec(bytes(&op["k"])); call(|| b.add_key(&k)).map(|_| json!({"e": "fb_key", "k": op["k"]})) }
            "fb_str" => { let k = String::from_utf8(bytes(&op["k"])).unwrap(); call(|| b.add_key_from_str(&k)).map(|_| json!({"e": "fb_key", "k": op["k"]})) }
            "fb_finish" => call(|| b.finish()).map(|r| match r {
                Ok(s) => json!({"e": "fb_finish", "r": s.as_ref().to_vec(), "ok": true}),
                Err(_) => json!({"e": "fb_finish", "r": [], "ok": false}),
            }),
            _ => panic!("op {}", name),
        };
        match r {
            Ok(mut ev) => {
                if let Ok(v) = call(|| (b.get_keys(), b.get_start(), b.get_result(), b.get_tmp_filter_offsets())) {
                    if name != "fb_finish" {
                        ev["st"] = json!([v.0.len(), v.1.len(), v.2.len(), v.3.len()]);
                    }
                }
                out.emit(ev)
            }
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                return;
            }
        }
    }
}

fn files(case: &Value, out: &mut Out) {
    let mut fs: Vec<FileMetaData> = vec![];
    out.emit(json!({"e": "fm_new"}));
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let (i, j) = (op["i"].as_u64().unwrap_or(0) as usize, op["j"].as_u64().unwrap_or(0) as usize);
        let mut ev = op.clone();
        ev["e"] = json!(format!("fm_{}", name));
        let r = match name {
            "make" => {
                let (refs, seeks) = (op["refs"].as_i64().unwrap() as i32, op["seeks"].as_i64().unwrap() as i32);
                let (n, size) = (un64(&op["n"]), un64(&op["size"]));
                let (a, b) = (key(&op["ka"]), key(&op["kb"]));
                call(|| match op["how"].as_str().unwrap() {
                    "default" => FileMetaData::default(),
                    "refs" => FileMetaData::new_with_refs(refs),
                    "seeks" => FileMetaData::new_with_refs_allowed_seeks(refs, seeks),
                    "size" => FileMetaData::new_with_refs_allowed_seeks_file_size(refs, seeks, size),
                    "keys" => FileMetaData::new_with_refs_allowed_seeks_file_size_internal_key(refs, seeks, size, a, b),
                    "number" => FileMetaData::new_with_number_file_size_internal_key(n, size, a, b),
                    _ => FileMetaData::new(refs, seeks, n, size, a, b),
                })
                .map(|f| { fs.push(f); json!(0) })
            }
            "show" => call(|| {
                let f = &fs[i];
                json!([f.get_refs(), w64(f.get_number()), w64(f.get_file_size()), shown(f.get_smallest()), shown(f.get_largest()), f.get_smallest().encode_len(), f.get_largest().encode_len()])
            }),
            "size" => { let x = un64(&op["size"]); call(|| fs[i].set_file_size(x)).map(|_| json!(0)) }
            "refs" => { let x = op["refs"].as_i64().unwrap() as i32; call(|| fs[i].add_refs(x)).map(|_| json!(0)) }
            "eq" => call(|| json!([(fs[i] == fs[j]) as u32, (fs[j] == fs[i]) as u32, (fs[i] != fs[j]) as u32])),
            _ => panic!("op {}", name),
        };
        match r {
            Ok(v) => {
                ev["r"] = v;
                out.emit(ev)
            }
            Err(_) => {
                out.emit(json!({"e": "panic", "op": name}));
                return;
            }
        }
    }
}

fn shown(k: &InternalKey) -> Vec<u8> {
    unsafe { &*(k as *const InternalKey as *const Slice) }.as_ref().to_vec()
}
