use crate::out::{bytes, call, num, un32, un64, w32, w64, Out};
use level_db_rust::util::coding::{varint_length, Decoder, Encoder};
use level_db_rust::util::slice::Slice;
use serde_json::{json, Value};

fn put(enc: &mut Encoder, op: &Value) -> Result<bool, String> {
    let (name, arg) = (op[0].as_str().unwrap(), &op[1]);
    match name {
        "f32" => { let x = un32(arg); call(|| enc.put_fixed32(x).is_ok()) }
        "f64" => { let x = un64(arg); call(|| enc.put_fixed64(x).is_ok()) }
        "v32" => { let x = un32(arg); call(|| enc.put_varint32(x).is_ok()) }
        "v64" => { let x = un64(arg); call(|| enc.put_varint64(x).is_ok()) }
        "buf" => { let b = bytes(arg); call(|| enc.put_buf(&b).is_ok()) }
        "lps" => { let s = Slice::from_vec(bytes(arg)); call(|| enc.put_length_prefixed_slice(&s).is_ok()) }
        "uf32" => { let x = un32(arg); call(|| unsafe { enc.uncheck_put_fixed32(x) }).map(|_| true) }
        "uf64" => { let x = un64(arg); call(|| unsafe { enc.uncheck_put_fixed64(x) }).map(|_| true) }
        "uv32" => { let x = un32(arg); call(|| unsafe { enc.uncheck_put_varint32(x) }).map(|_| true) }
        "uv64" => { let x = un64(arg); call(|| unsafe { enc.uncheck_put_varint64(x) }).map(|_| true) }
        "ubuf" => { let b = bytes(arg); call(|| unsafe { enc.uncheck_put_buf(&b) }).map(|_| true) }
        "ulps" => { let s = Slice::from_vec(bytes(arg)); call(|| unsafe { enc.uncheck_put_length_prefixed_slice(&s) }).map(|_| true) }
        _ => panic!("put {}", name),
    }
}

/// `v` is the value, or -1 for an error
fn get(dec: &mut Decoder, op: &Value) -> Result<Value, String> {
    let (name, arg) = (op[0].as_str().unwrap(), &op[1]);
    let e = || json!(-1);
    match name {
        "f32" => call(|| dec.get_fixed32()).map(|r| r.map(w32).unwrap_or(e())),
        "f64" => call(|| dec.get_fixed64()).map(|r| r.map(w64).unwrap_or(e())),
        "v32" => call(|| dec.get_varint32()).map(|r| r.map(w32).unwrap_or(e())),
        "v64" => call(|| dec.get_varint64()).map(|r| r.map(w64).unwrap_or(e())),
        "lps" => call(|| dec.get_length_prefixed_slice()).map(|r| r.map(|s| json!(s.as_ref().to_vec())).unwrap_or(e())),
        "buf" => { let n = length(arg); call(|| dec.get_buf(n)).map(|r| r.map(|s| json!(s.as_ref().to_vec())).unwrap_or(e())) }
        "skip" => { let n = length(arg); call(|| dec.skip(n)).map(|r| r.map(|o| json!([o])).unwrap_or(e())) }
        "uf32" => call(|| w32(unsafe { dec.uncheck_get_fixed32() })),
        "uf64" => call(|| w64(unsafe { dec.uncheck_get_fixed64() })),
        "uv32" => call(|| w32(unsafe { dec.uncheck_get_varint32() })),
        "uv64" => call(|| w64(unsafe { dec.uncheck_get_varint64() })),
        "ulps" => call(|| unsafe { dec.uncheck_get_length_prefixed_slice() }).map(|s| json!(s.as_ref().to_vec())),
        "ubuf" => { let n = length(arg); call(|| unsafe { dec.uncheck_get_buf(n) }).map(|s| json!(s.as_ref().to_vec())) }
        "uskip" => { let n = length(arg); call(|| unsafe { dec.uncheck_skip(n) }).map(|o| json!([o])) }
        _ => panic!("get {}", name),
    }
}

/// lengths from 2^31 on stand for usize::MAX minus the rest
fn length(v: &Value) -> usize {
    let n = num(v);
    if n >= 1 << 30 { usize::MAX - (n - (1 << 30)) } else { n }
}

/// a string too long to be written down, between two numbers
fn far(case: &Value, out: &mut Out) {
    let (n, room, seed) = (num(&case["n"]), num(&case["room"]), num(&case["seed"]));
    let data: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(seed | 1) >> 7) as u8).collect();
    let s = Slice::from_vec(data.clone());
    let (mut vec, mut buf) = (vec![], vec![0u8; room]);
    let r = call(|| {
        let mut enc = if room == 0 { Encoder::with_vec(&mut vec) } else { Encoder::with_buf(&mut buf) };
        let ok = vec![enc.put_varint32(77).is_ok(), enc.put_length_prefixed_slice(&s).is_ok(), enc.put_fixed32(0x01020304).is_ok()];
        (ok, enc.offset(), enc.len())
    });
    let (ok, off, len) = match r {
        Ok(r) => r,
        Err(_) => return out.emit(json!({"e": "panic", "op": "far"})),
    };
    let all = if room == 0 { vec } else { buf };
    // the head, and whether the string stands behind it at any place
    let at = all.len().min(8);
    let head = all[..at].to_vec();
    let hd = (1..at).find(|i| all.len() >= i + n && all[*i..i + n] == data[..]);
    let tail = hd.map(|h| all[h + n..].to_vec()).filter(|t| t.len() < 20).unwrap_or(vec![]);
    let back = call(|| {
        let mut dec = Decoder::with_buf(&all);
        let a = dec.get_varint32().ok();
        let b = dec.get_length_prefixed_slice().ok().map(|x| x.as_ref() == &data[..]);
        let o = dec.offset();
        let c = dec.get_fixed32().ok();
        (a == Some(77) && b == Some(true) && c == Some(0x01020304), o, dec.offset(), dec.can_get())
    });
    match back {
        Ok((same, o1, o2, can)) => out.emit(json!({"e": "far", "n": n, "room": room, "ok": ok, "off": off, "len": len, "head": head, "at": hd.map(|h| h as i64).unwrap_or(-1),
            "tail": tail, "same": same, "offs": [o1, o2], "can": can})),
        Err(_) => out.emit(json!({"e": "panic", "op": "far"})),
    }
}

pub fn run(case: &Value, out: &mut Out) {
    let kind = case["kind"].as_str().unwrap();
    if kind == "far" {
        return far(case, out);
    }
    let init = bytes(&case["init"]);
    let (mut vec, mut slice) = (init.clone(), Slice::from_vec(init.clone()));
    let mut buf = init.clone().into_boxed_slice();
    out.emit(json!({"e": "new", "kind": kind, "init": init}));
    let none = vec![];
    let puts = case["puts"].as_array().unwrap_or(&none);
    let gets = case["gets"].as_array().unwrap_or(&none);
    let direct = case["src"].as_str() == Some("enc");
    {
        let mut enc = match kind {
            "vec" => Encoder::with_vec(&mut vec),
            "buf" => Encoder::with_buf(&mut buf),
            _ => Encoder::with_slice(&mut slice),
        };
        for op in puts {
            match put(&mut enc, op) {
                Ok(ok) => out.emit(json!({"e": "put", "o": op[0], "x": op[1], "ok": ok, "off": enc.offset(), "len": enc.len()})),
                Err(_) => {
                    out.emit(json!({"e": "panic", "op": "put"}));
                    return;
                }
            }
        }
        if direct {
            let mut dec = enc.create_decoder();
            if !decode(&mut dec, gets, out) {
                return;
            }
        }
    }
    let result: Vec<u8> = match kind {
        "vec" => vec.clone(),
        "buf" => buf.to_vec(),
        _ => slice.as_ref().to_vec(),
    };
    out.emit(json!({"e": "encoded", "b": result}));
    if !direct && !gets.is_empty() {
        let mut data = result.clone();
        if let Some(n) = case["cut"].as_u64() {
            data.truncate(n as usize);
            data.shrink_to_fit();
            out.emit(json!({"e": "cut", "n": data.len()}));
        }
        // an exact-size block, so that reads past the end are out of the block
        let boxed = data.clone().into_boxed_slice();
        let s = Slice::from_buf(&data);
        let mut dec = match case["src"].as_str().unwrap_or("buf") {
            "vec" => Decoder::with_vec(&data),
            "slice" => Decoder::with_slice(&s),
            _ => Decoder::with_buf(&boxed),
        };
        decode(&mut dec, gets, out);
    }
    if let Some(a) = case["vlen"].as_array() {
        for v in a {
            let x = un64(v);
            match call(|| varint_length(x)) {
                Ok(n) => out.emit(json!({"e": "vlen", "x": v, "r": n})),
                Err(_) => out.emit(json!({"e": "panic", "op": "vlen"})),
            }
        }
    }
}

fn decode(dec: &mut Decoder, gets: &[Value], out: &mut Out) -> bool {
    out.emit(json!({"e": "decoder", "limit": dec.limit()}));
    for op in gets {
        match get(dec, op) {
            Ok(v) => out.emit(json!({"e": "get", "o": op[0], "n": op[1].as_u64().unwrap_or(0), "ok": v.is_array(), "v": if v.is_array() { v } else { json!([]) }, "off": dec.offset(), "can": dec.can_get()})),
            Err(_) => {
                out.emit(json!({"e": "panic", "op": "get"}));
                return false;
            }
        }
    }
    true
}
