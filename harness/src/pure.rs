use crate::out::{bytes, call, num, un32, w32, Out};
use crate::wal;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::filter_policy::{AsBloomHash, FromPolicy};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::hash::{Hash, ToHash};
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use level_db_rust::verif_hooks::filter_policy_trait::FilterPolicy;
use std::sync::atomic::Ordering::SeqCst;
use serde_json::{json, Value};
use std::cmp::Ordering;

pub fn order(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 9,
    }
}

/// the bytes at an address that is `shift` beyond a multiple of 16, in the middle of other bytes
struct Placed {
    block: Vec<u8>,
    at: usize,
    len: usize,
}

impl Placed {
    fn new(b: &[u8], shift: usize) -> Placed {
        let mut block = vec![0xA5; b.len() + 64];
        let base = block.as_ptr() as usize;
        let at = (16 - base % 16) % 16 + shift % 16;
        block[at..at + b.len()].copy_from_slice(b);
        Placed { block, at, len: b.len() }
    }

    fn get(&self) -> &[u8] {
        &self.block[self.at..self.at + self.len]
    }
}

fn ref_hash(b: &[u8], seed: u32) -> u32 {
    let m = 0xc6a4a793u32;
    let mut h = seed ^ (b.len() as u32).wrapping_mul(m);
    let mut words = b.chunks_exact(4);
    for w in &mut words {
        h = h.wrapping_add(u32::from_le_bytes(w.try_into().unwrap())).wrapping_mul(m);
        h ^= h >> 16;
    }
    let rest = words.remainder();
    for (i, x) in rest.iter().enumerate() {
        h = h.wrapping_add((*x as u32) << (8 * i));
    }
    if !rest.is_empty() {
        h = h.wrapping_mul(m);
        h ^= h >> 24;
    }
    h
}

fn string(b: &[u8]) -> String {
    // the separators are byte strings that the API carries in a String
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}

/// the bytes as elements of a wider type; what does not fill one is left out
fn pieces<const N: usize, T>(b: &[u8], make: impl Fn([u8; N]) -> T) -> Vec<T> {
    b.chunks_exact(N).map(|c| make(c.try_into().unwrap())).collect()
}

pub fn run(case: &Value, out: &mut Out) {
    for op in case["ops"].as_array().unwrap() {
        let name = op["o"].as_str().unwrap();
        let b = bytes(&op["b"]);
        let shift = op["shift"].as_u64().unwrap_or(0) as usize;
        let p = Placed::new(&b, shift);
        let mut ev = op.clone();
        ev["e"] = json!(name);
        let r: Result<Value, String> = match name {
            "hash" => {
                let seed = un32(&op["seed"]);
                match op["via"].as_str().unwrap() {
                    "code" => call(|| Hash::hash_code(p.get(), seed)).map(w32),
                    "ref" => call(|| p.get().to_hash_with_seed(seed)).map(w32),
                    "refd" => call(|| p.get().to_hash()).map(w32),
                    "vec" => call(|| b.to_hash_with_seed(seed)).map(w32),
                    "vecd" => call(|| b.to_hash()).map(w32),
                    "vec32" => {
                        let v: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                        call(|| v.to_hash_with_seed(seed)).map(w32)
                    }
                    "vec16" => { let v = pieces(&b, u16::from_ne_bytes); call(|| v.to_hash_with_seed(seed)).map(w32) }
                    "vec64" => { let v = pieces(&b, u64::from_ne_bytes); call(|| v.to_hash_with_seed(seed)).map(w32) }
                    "ref64d" => { let v = pieces(&b, i64::from_ne_bytes); call(|| v.as_slice().to_hash()).map(w32) }
                    "vec128" => { let v = pieces(&b, u128::from_ne_bytes); call(|| v.to_hash_with_seed(seed)).map(w32) }
                    "vecarr3" => { let v = pieces(&b, |p: [u8; 3]| p); call(|| v.to_hash_with_seed(seed)).map(w32) }
                    "slice" => { let s = Slice::from_buf(&b); call(|| s.to_hash_with_seed(seed)).map(w32) }
                    "sliced" => { let s = Slice::from_buf(&b); call(|| s.to_hash()).map(w32) }
                    "str" => { let s = string(&b); call(|| s.as_str().to_hash_with_seed(seed)).map(w32) }
                    "strd" => { let s = string(&b); call(|| s.as_str().to_hash()).map(w32) }
                    "string" => { let s = string(&b); call(|| s.to_hash_with_seed(seed)).map(w32) }
                    "stringd" => { let s = string(&b); call(|| s.to_hash()).map(w32) }
                    "bloom" => { let s = Slice::from_buf(&b); call(|| s.bloom_hash()).map(w32) }
                    "bloom2" => { let s = Slice::from_buf(&b); call(|| BloomFilterPolicy::bloom_hash(&s)).map(w32) }
                    v => panic!("via {}", v),
                }
            }
            "crc" => {
                let init = un32(&op["init"]);
                match op["via"].as_str().unwrap() {
                    "value" => call(|| CRC::value(p.get())).map(w32),
                    "extend" => call(|| CRC::extend(init, p.get())).map(w32),
                    "ref" => call(|| p.get().as_crc()).map(w32),
                    "refx" => call(|| p.get().as_crc_extend(init)).map(w32),
                    "vec" => call(|| b.as_crc()).map(w32),
                    "vecx" => call(|| b.as_crc_extend(init)).map(w32),
                    "vec32" => {
                        let v: Vec<u32> = b.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                        call(|| v.as_crc_extend(init)).map(w32)
                    }
                    "vec16" => { let v = pieces(&b, u16::from_ne_bytes); call(|| v.as_crc_extend(init)).map(w32) }
                    "vec64" => { let v = pieces(&b, u64::from_ne_bytes); call(|| v.as_crc_extend(init)).map(w32) }
                    "vec128" => { let v = pieces(&b, u128::from_ne_bytes); call(|| v.as_crc_extend(init)).map(w32) }
                    "vecarr3" => { let v = pieces(&b, |p: [u8; 3]| p); call(|| v.as_crc_extend(init)).map(w32) }
                    "gref" => { let s: &[u8] = p.get(); call(|| AsCrc::as_crc_extend(&s, init)).map(w32) }
                    "slice" => { let s = Slice::from_buf(&b); call(|| s.as_crc_extend(init)).map(w32) }
                    "str" => { let s = string(&b); call(|| s.as_str().as_crc_extend(init)).map(w32) }
                    "string" => { let s = string(&b); call(|| s.as_crc_extend(init)).map(w32) }
                    v => panic!("via {}", v),
                }
            }
            // long data: compared by way of algebra, in the specification
            "bigcrc" => {
                let (n, cut, seed) = (num(&op["n"]), num(&op["cut"]), op["seed"].as_u64().unwrap());
                let mut x = seed | 1;
                let data: Vec<u8> = (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect();
                let q = Placed::new(&data, shift);
                let d = q.get();
                call(|| {
                    let whole = CRC::value(d);
                    let two = CRC::extend(CRC::value(&d[..cut]), &d[cut..]);
                    (whole, two)
                })
                .map(|(whole, two)| {
                    ev["two"] = w32(two);
                    ev["ref"] = w32(wal::crc32c(d));
                    w32(whole)
                })
            }
            // one place in memory, whose bytes change between the calls
            "walk" => {
                let seed = un32(&op["seed"]);
                let mut q = Placed::new(&b, shift);
                let mut all = vec![];
                let mut r = Ok(());
                for f in op["flips"].as_array().unwrap() {
                    let (i, v) = (num(&f[0]), num(&f[1]) as u8);
                    let at = q.at + i;
                    q.block[at] = v;
                    match call(|| (Hash::hash_code(q.get(), seed), CRC::value(q.get()))) {
                        Ok((h, c)) => all.push(json!([w32(h), w32(c)])),
                        Err(e) => { r = Err(e); break; }
                    }
                }
                r.map(|_| json!(all))
            }
            // long data: against the harness's hash, which refhash ties to the specification
            "bighash" => {
                let (n, seed) = (num(&op["n"]), un32(&op["seed"]));
                let mut x = op["data"].as_u64().unwrap() | 1;
                let data: Vec<u8> = (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect();
                let q = Placed::new(&data, shift);
                call(|| (Hash::hash_code(q.get(), seed), data.to_hash_with_seed(seed), Slice::from_buf(&data).to_hash_with_seed(seed))).map(|(h, v, s)| {
                    ev["ref"] = w32(ref_hash(&data, seed));
                    json!([w32(h), w32(v), w32(s)])
                })
            }
            "refhash" => Ok(w32(ref_hash(&b, un32(&op["seed"])))),
            // the harness's own checksum, for the specification to check
            "refcrc" => Ok(w32(wal::crc32c(&b))),
            "mask" => { let x = un32(&op["x"]); if shift == 0 { call(|| CRC::mask(x)).map(w32) } else { call(|| x.to_mask()).map(w32) } }
            "unmask" => { let x = un32(&op["x"]); if shift == 0 { call(|| CRC::unmask(x)).map(w32) } else { call(|| x.unmask()).map(w32) } }
            "policy" => {
                let n = num(&op["bpk"]);
                let q = if n == 10 && shift == 1 { BloomFilterPolicy::new() } else { BloomFilterPolicy::new_with_bits_per_key(n) };
                call(|| (q.from_bits_per_key(), q.from_k(), q.name())).map(|(b, k, n)| json!([b, k, n]))
            }
            "filter" => {
                let n = num(&op["bpk"]);
                let keys: Vec<Slice> = op["keys"].as_array().unwrap().iter().map(|k| Slice::from_vec(bytes(k))).collect();
                let refs: Vec<&Slice> = keys.iter().collect();
                let policy = BloomFilterPolicy::new_with_bits_per_key(n);
                let cap = op["cap"].as_i64().unwrap_or(-1);
                let f = call(|| if cap < 0 { policy.create_filter(refs) } else { policy.create_filter_with_len(cap as usize, refs) });
                match f {
                    Err(e) => Err(e),
                    Ok(f) => {
                        // every key that went in, and the probes
                        let hits: Result<Vec<bool>, String> = keys.iter().map(|k| call(|| policy.key_may_match(k, &f))).collect();
                        let other = BloomFilterPolicy::new_with_bits_per_key(num(&op["other"]));
                        let hits2: Result<Vec<bool>, String> = keys.iter().map(|k| call(|| other.key_may_match(k, &f))).collect();
                        match (hits, hits2) {
                            (Ok(h), Ok(h2)) => {
                                ev["hits"] = json!(h.iter().chain(h2.iter()).collect::<Vec<_>>());
                                ev["n"] = json!(f.size());
                                Ok(if op["big"].as_bool() == Some(true) { json!([f[f.size() - 1]]) } else { json!(f.as_ref().to_vec()) })
                            }
                            _ => Err("panic".into()),
                        }
                    }
                }
            }
            "match" => {
                let policy = BloomFilterPolicy::new_with_bits_per_key(num(&op["bpk"]));
                let (k, f) = (Slice::from_vec(b.clone()), Slice::from_vec(bytes(&op["f"])));
                call(|| policy.key_may_match(&k, &f)).map(|r| json!(r))
            }
            // a key and a filter that stay where they are, and hold something else each time
            "asked" => {
                let policy = BloomFilterPolicy::new_with_bits_per_key(num(&op["bpk"]));
                let steps: Vec<(Vec<u8>, Vec<u8>)> = op["steps"].as_array().unwrap().iter().map(|s| (bytes(&s[0]), bytes(&s[1]))).collect();
                let (mut k, mut f) = (Slice::from_vec(steps[0].0.clone()), Slice::from_vec(steps[0].1.clone()));
                let mut all = vec![];
                let mut r = Ok(());
                for (a, b) in &steps {
                    k.copy_from_slice(a);
                    f.copy_from_slice(b);
                    match call(|| (policy.key_may_match(&k, &f), policy.create_filter(vec![&k]))) {
                        Ok((m, c)) => all.push(json!([m, c.as_ref().to_vec()])),
                        Err(e) => { r = Err(e); break; }
                    }
                }
                r.map(|_| json!(all))
            }
            // several threads at once, each with all of the data, over and over
            "storm" => {
                let what = op["what"].as_str().unwrap();
                let all: Vec<Vec<u8>> = op["all"].as_array().unwrap().iter().map(bytes).collect();
                let (seed, n, bpk, rounds) = (un32(&op["seed"]), all.len(), num(&op["bpk"]), num(&op["rounds"]));
                let slices: Vec<Slice> = all.iter().map(|b| Slice::from_buf(b)).collect();
                let strings: Vec<String> = all.iter().map(|b| string(b)).collect();
                let one = |i: usize| -> Vec<u8> {
                    let j = (i + 1) % n;
                    let c = BytewiseComparatorImpl::default();
                    let policy = BloomFilterPolicy::new_with_bits_per_key(bpk);
                    match what {
                        "hash" => Hash::hash_code(&all[i][..], seed).to_be_bytes().to_vec(),
                        "crc" => CRC::extend(seed, &all[i]).to_be_bytes().to_vec(),
                        "filter" => policy.create_filter(vec![&slices[i], &slices[j]]).as_ref().to_vec(),
                        "match" => vec![policy.key_may_match(&slices[i], &slices[j]) as u8],
                        "compare" => vec![(order(c.compare(&all[i], &all[j])) + 1) as u8, (order(slices[i].partial_cmp(&slices[j])) + 1) as u8],
                        "sep" => c.find_shortest_separator(&strings[i], &slices[j]).into_bytes(),
                        "succ" => c.find_short_successor(&strings[i]).into_bytes(),
                        w => panic!("storm of {}", w),
                    }
                };
                // the same, as fast as it can be had
                let quick = |i: usize| -> u64 {
                    let j = (i + 1) % n;
                    match what {
                        "hash" => Hash::hash_code(&all[i], seed) as u64,
                        "crc" => CRC::extend(seed, &all[i]) as u64,
                        "match" => BloomFilterPolicy::new_with_bits_per_key(bpk).key_may_match(&slices[i], &slices[j]) as u64,
                        "compare" => order(BytewiseComparatorImpl::default().compare(&all[i], &all[j])) as u64,
                        _ => one(i).iter().fold(7, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3)),
                    }
                };
                // before anything is asked alone; each thread first asks for all in its own order
                let ready = std::sync::atomic::AtomicUsize::new(0);
                let told: Vec<(Vec<Option<Vec<u8>>>, u64)> = std::thread::scope(|scope| {
                    let threads: Vec<_> = (0..4)
                        .map(|t| {
                            let (one, ready) = (&one, &ready);
                            scope.spawn(move || {
                                let mut first: Vec<Option<Vec<u8>>> = vec![None; n];
                                let mut changes = 0;
                                ready.fetch_add(1, SeqCst);
                                while ready.load(SeqCst) < 4 {
                                    std::hint::spin_loop();
                                }
                                for r in 0..n {
                                    let i = (r + t) % n;
                                    first[i] = call(|| one(i)).ok();
                                }
                                let all = call(|| {
                                    let known: Vec<u64> = (0..n).map(|i| quick(i)).collect();
                                    for r in 0..rounds * n {
                                        let i = (r + r / n * t + t) % n;
                                        changes += (quick(i) != known[i]) as u64;
                                    }
                                });
                                changes += all.is_err() as u64;
                                (first, changes)
                            })
                        })
                        .collect();
                    threads.into_iter().map(|t| t.join().unwrap()).collect()
                });
                let alone: Result<Vec<Vec<u8>>, String> = (0..n).map(|i| call(|| one(i))).collect();
                alone.map(|alone| {
                    let different = told.iter().flat_map(|t| t.0.iter().zip(&alone)).filter(|(x, y)| x.as_ref() != Some(*y)).count();
                    ev["wrong"] = json!(different as u64 + told.iter().map(|t| t.1).sum::<u64>());
                    json!(alone)
                })
            }
            "ordered" => {
                let c = BytewiseComparatorImpl::default();
                let steps: Vec<(Vec<u8>, Vec<u8>)> = op["steps"].as_array().unwrap().iter().map(|s| (bytes(&s[0]), bytes(&s[1]))).collect();
                let (mut s1, mut s2) = (Slice::from_vec(steps[0].0.clone()), Slice::from_vec(steps[0].1.clone()));
                let mut all = vec![];
                let mut r = Ok(());
                for (a, b) in &steps {
                    s1.copy_from_slice(a);
                    s2.copy_from_slice(b);
                    match call(|| (order(c.compare(s1.as_ref(), s2.as_ref())), order(s1.partial_cmp(&s2)), s1 == s2)) {
                        Ok((x, y, z)) => all.push(json!([x, y, z])),
                        Err(e) => { r = Err(e); break; }
                    }
                }
                r.map(|_| json!(all))
            }
            "compare" => {
                let c = BytewiseComparatorImpl::default();
                let o = bytes(&op["c"]);
                let q = Placed::new(&o, shift / 16);
                let (s1, s2) = (Slice::from_buf(&b), Slice::from_buf(&o));
                call(|| (order(c.compare(p.get(), q.get())), order(s1.partial_cmp(&s2)), s1 == s2)).map(|(x, y, z)| {
                    ev["slice"] = json!(y);
                    ev["eq"] = json!(z);
                    json!(x)
                })
            }
            "sep" => {
                let c = BytewiseComparatorImpl::default();
                let (s, l) = (string(&b), Slice::from_vec(bytes(&op["c"])));
                call(|| c.find_shortest_separator(&s, &l)).map(|r| json!(r.into_bytes()))
            }
            "succ" => {
                let c = BytewiseComparatorImpl::default();
                let s = string(&b);
                call(|| c.find_short_successor(&s)).map(|r| json!(r.into_bytes()))
            }
            "cname" => {
                let c = BytewiseComparatorImpl::default();
                call(|| c.get_name()).map(|r| json!(r))
            }
            _ => panic!("op {}", name),
        };
        match r {
            Ok(v) => {
                ev["r"] = v;
                out.emit(ev)
            }
            Err(_) => out.emit(json!({"e": "panic", "op": name})),
        }
    }
}
