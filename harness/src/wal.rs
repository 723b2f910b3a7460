use crate::alloc::in_harness;
use crate::out::{bytes, call, num, Out};
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::status::LevelError;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

const BLOCK: usize = 32768;
const MODS: [u32; 3] = [46337, 46327, 46309];

/// bit by bit, shares nothing with the code under test; checked against the specification by the
/// check of the checksum property
pub fn crc32c(data: &[u8]) -> u32 {
    static mut TABLE: [u32; 256] = [0; 256];
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 };
            }
            unsafe { TABLE[i as usize] = c };
        }
    });
    let mut c = !0u32;
    for b in data {
        c = unsafe { TABLE[((c ^ *b as u32) & 255) as usize] } ^ (c >> 8);
    }
    !c
}

pub fn masked(data: &[u8]) -> u32 {
    let c = crc32c(data);
    ((c >> 15) | (c << 17)).wrapping_add(0xa282ead8)
}

/// Fingerprint that the specification can concatenate.
pub fn fp(data: &[u8]) -> Value {
    let mut h = [0u32; 3];
    for b in data {
        for (i, m) in MODS.iter().enumerate() {
            h[i] = (h[i] * 257 + *b as u32 + 1) % m;
        }
    }
    json!(h)
}

fn fragment(t: u8, data: &[u8], good: bool) -> Vec<u8> {
    let mut body = vec![t];
    body.extend_from_slice(data);
    let mut c = masked(&body);
    if !good {
        c ^= 0x0101_0001;
    }
    let mut v = c.to_le_bytes().to_vec();
    v.push(data.len() as u8);
    v.push((data.len() >> 8) as u8);
    v.extend_from_slice(&body);
    v
}

fn payload(seed: u64, len: usize, mode: &str) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 32) as u8
    };
    let mut v: Vec<u8> = Vec::with_capacity(len + 64);
    match mode {
        "zero" => v.resize(len, 0),
        "ff" => v.resize(len, 0xff),
        // valid fragments inside a payload
        "nest" => {
            while v.len() < 16.min(len) {
                v.push(next());
            }
            while v.len() < len {
                let inner: Vec<u8> = (0..9).map(|_| next()).collect();
                v.extend(fragment(1, &inner, true));
            }
        }
        _ => {
            while v.len() < len {
                v.push(next());
            }
        }
    }
    v.truncate(len);
    v
}

/// the ways in which a file fails
fn failure(n: usize, what: &str) -> Error {
    use ErrorKind::*;
    let kinds = [Other, NotFound, PermissionDenied, BrokenPipe, WouldBlock, TimedOut, InvalidData, AlreadyExists, InvalidInput, AddrInUse, WriteZero];
    Error::new(kinds[n % kinds.len()], what)
}

#[derive(Default)]
struct SinkState {
    data: Vec<u8>,
    dirty: bool,
    max: usize,
    fail_at: Option<usize>,
    fail_zero: bool,
    fail_flush: bool,
    interrupt: usize,
    calls: usize,
}

struct Sink(Rc<RefCell<SinkState>>);

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        in_harness(|| {
            let mut s = self.0.borrow_mut();
            s.calls += 1;
            if s.interrupt > 0 && s.calls % s.interrupt == 0 {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            let mut n = if s.max == 0 { buf.len() } else { buf.len().min(s.max) };
            if let Some(at) = s.fail_at {
                n = n.min(at - s.data.len().min(at));
                if n == 0 && !buf.is_empty() {
                    return if s.fail_zero { Ok(0) } else { Err(failure(at, "disk full")) };
                }
            }
            s.data.extend_from_slice(&buf[..n]);
            if n > 0 {
                s.dirty = true;
            }
            Ok(n)
        })
    }

    fn flush(&mut self) -> std::io::Result<()> {
        let mut s = self.0.borrow_mut();
        if s.fail_flush {
            return Err(failure(s.data.len(), "flush failed"));
        }
        s.dirty = false;
        Ok(())
    }
}

struct Source {
    data: Vec<u8>,
    pos: usize,
    max: usize,
    fail_at: Option<usize>,
    fail_seek: bool,
    interrupt: usize,
    calls: usize,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        in_harness(|| {
            self.calls += 1;
            if self.interrupt > 0 && self.calls % self.interrupt == 0 {
                return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            let mut n = buf.len().min(self.data.len() - self.pos.min(self.data.len()));
            if self.max > 0 {
                n = n.min(self.max);
            }
            if let Some(at) = self.fail_at {
                if self.pos >= at {
                    return Err(failure(at, "read error"));
                }
                n = n.min(at - self.pos);
            }
            if n > 0 {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            }
            self.pos += n;
            Ok(n)
        })
    }
}

impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        if self.fail_seek {
            return Err(failure(self.data.len(), "seek failed"));
        }
        match to {
            SeekFrom::Start(p) => self.pos = p as usize,
            SeekFrom::Current(d) => self.pos = (self.pos as i64 + d) as usize,
            SeekFrom::End(d) => self.pos = (self.data.len() as i64 + d) as usize,
        }
        Ok(self.pos as u64)
    }
}

impl SeekableReader for Source {}

/// What an independent scan finds in the bytes from `from` on: fragments and trailers.
fn pieces(data: &[u8], from: usize) -> Vec<Value> {
    let mut at = from;
    let mut v = vec![];
    while at < data.len() {
        let left = BLOCK - at % BLOCK;
        if left < 7 {
            let n = left.min(data.len() - at);
            v.push(json!({"k": "pad", "o": at, "l": n, "z": data[at..at + n].iter().all(|b| *b == 0)}));
            at += n;
            continue;
        }
        if data.len() - at < 7 {
            v.push(json!({"k": "cut", "o": at, "l": data.len() - at}));
            break;
        }
        let l = data[at + 4] as usize + ((data[at + 5] as usize) << 8);
        let t = data[at + 6];
        if at + 7 + l > data.len() {
            v.push(json!({"k": "torn", "o": at, "l": l, "t": t, "have": data.len() - at - 7}));
            break;
        }
        let good = u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]) == masked(&data[at + 6..at + 7 + l]);
        v.push(json!({"k": "frag", "o": at, "l": l, "t": t, "c": good, "f": fp(&data[at + 7..at + 7 + l])}));
        at += 7 + l;
    }
    v
}

/// Every header a reader can meet that starts at block boundaries.
fn describe(data: &[u8]) -> Vec<Value> {
    data.chunks(BLOCK)
        .map(|b| {
            let mut at = 0;
            let mut fr = vec![];
            while b.len() - at >= 7 {
                let l = b[at + 4] as usize + ((b[at + 5] as usize) << 8);
                let t = b[at + 6];
                let fit = l <= b.len() - at - 7;
                let mut e = json!({"o": at, "l": l, "t": t, "fit": fit, "c": false, "f": [0, 0, 0]});
                if fit {
                    let good = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]) == masked(&b[at + 6..at + 7 + l]);
                    e["c"] = json!(good);
                    e["f"] = fp(&b[at + 7..at + 7 + l]);
                }
                fr.push(e);
                if !fit {
                    break;
                }
                at += 7 + l;
            }
            json!({"n": b.len(), "fr": fr})
        })
        .collect()
}

fn kind(e: &LevelError) -> &'static str {
    match e {
        LevelError::KIOError => "io",
        LevelError::KCorruption | LevelError::KBadRecord => "corruption",
        _ => "other",
    }
}

pub fn run(case: &Value, out: &mut Out) {
    let sink = Rc::new(RefCell::new(SinkState::default()));
    let mut writer: Option<LogWriter> = None;
    let mut file: Vec<u8> = vec![];
    let mut reader: Option<LogReader> = None;
    let mut taken = false;
    out.emit(json!({"e": "new"}));
    for op in case["ops"].as_array().unwrap() {
        let name = op[0].as_str().unwrap();
        if !taken && matches!(name, "trunc" | "poke" | "xor" | "fill" | "append" | "cut" | "craft" | "open") {
            file = sink.borrow().data.clone();
            taken = true;
        }
        match name {
            "writer" => {
                let plan = &op[1];
                {
                    let mut s = sink.borrow_mut();
                    s.max = num(&plan["max"]);
                    s.interrupt = num(&plan["interrupt"]);
                    s.fail_at = plan["fail_at"].as_u64().map(|x| x as usize);
                    s.fail_zero = plan["fail_zero"].as_bool().unwrap_or(false);
                    s.fail_flush = false;
                }
                let b: Box<dyn Write> = Box::new(Sink(sink.clone()));
                writer = call(|| LogWriter::new(b)).ok();
                out.emit(json!({"e": "writer", "fail_at": s_fail(&sink)}));
            }
            "failflush" => {
                sink.borrow_mut().fail_flush = true;
                out.emit(json!({"e": "failflush"}));
            }
            "add" => {
                let p = payload(op[1].as_u64().unwrap(), num(&op[2]), op[3].as_str().unwrap());
                let f = fp(&p);
                let len = p.len();
                let from = sink.borrow().data.len();
                let slice = Slice::from_vec(p);
                let w = writer.as_mut().unwrap();
                let r = call(|| w.add_record(slice));
                let (ok, k) = match r {
                    Ok(Ok(())) => (true, "none"),
                    Ok(Err(s)) => (false, kind(&s.get_error())),
                    Err(_) => {
                        out.emit(json!({"e": "panic", "op": "add"}));
                        return;
                    }
                };
                let s = sink.borrow();
                out.emit(json!({"e": "add", "l": len, "f": f, "ok": ok, "err": k, "dirty": s.dirty,
                    "size": s.data.len(), "p": pieces(&s.data, from)}));
            }
            // a file somebody else wrote
            "craft" => {
                let mut recs: Vec<Value> = vec![];
                for p in op[1].as_array().unwrap() {
                    if let Some(n) = p["pad"].as_u64() {
                        file.resize(file.len() + n as usize, 0);
                        continue;
                    }
                    let data = payload(p["seed"].as_u64().unwrap(), num(&p["len"]), p["mode"].as_str().unwrap_or("rand"));
                    recs.push(json!({"t": num(&p["t"]), "l": data.len(), "f": fp(&data)}));
                    file.extend(fragment(num(&p["t"]) as u8, &data, p["good"].as_bool().unwrap_or(true)));
                }
                out.emit(json!({"e": "craft", "p": recs}));
            }
            "trunc" => {
                let n = num(&op[1]).min(file.len());
                file.truncate(n);
                out.emit(json!({"e": "trunc", "n": n}));
            }
            "xor" => {
                let (o, x) = (num(&op[1]), num(&op[2]) as u8);
                if o < file.len() {
                    file[o] ^= x;
                    out.emit(json!({"e": "damage", "o": o, "n": 1}));
                }
            }
            "poke" => {
                let (o, b) = (num(&op[1]), bytes(&op[2]));
                let mut changed = false;
                for (i, x) in b.iter().enumerate() {
                    if o + i < file.len() && file[o + i] != *x {
                        file[o + i] = *x;
                        changed = true;
                    }
                }
                if changed {
                    out.emit(json!({"e": "damage", "o": o, "n": b.len()}));
                }
            }
            "fill" => {
                let (o, n, x) = (num(&op[1]), num(&op[2]), num(&op[3]) as u8);
                let mut changed = false;
                for i in o..(o + n).min(file.len()) {
                    changed |= file[i] != x;
                    file[i] = x;
                }
                if changed {
                    out.emit(json!({"e": "damage", "o": o, "n": n}));
                }
            }
            "append" => {
                let o = file.len();
                let b = bytes(&op[1]);
                file.extend_from_slice(&b);
                out.emit(json!({"e": "damage", "o": o, "n": b.len()}));
            }
            "open" => {
                let (checksum, init, plan) = (op[1].as_bool().unwrap(), num(&op[2]), &op[3]);
                let src = Source {
                    data: file.clone(),
                    pos: 0,
                    max: num(&plan["max"]),
                    interrupt: num(&plan["interrupt"]),
                    fail_at: plan["fail_at"].as_u64().map(|x| x as usize),
                    fail_seek: plan["fail_seek"].as_bool().unwrap_or(false),
                    calls: 0,
                };
                // a file that cannot be positioned fails before its first byte
                let fail = if src.fail_seek { 0 } else { src.fail_at.map(|x| x as i64).unwrap_or(-1) };
                // no file here is as long as 2^30 bytes, all offsets beyond are one to the specification
                let told = init.min(1 << 30);
                out.emit(json!({"e": "open", "size": file.len(), "blocks": describe(&file), "cs": checksum, "init": told, "fail": fail}));
                let b: Box<dyn SeekableReader> = Box::new(src);
                match call(|| LogReader::new(b, checksum, init)) {
                    Ok(r) => reader = Some(r),
                    Err(_) => {
                        out.emit(json!({"e": "panic", "op": "open"}));
                        return;
                    }
                }
            }
            "read" => {
                let n = num(&op[1]);
                let mut ends = 0;
                for _ in 0..n {
                    let r = reader.as_mut().unwrap();
                    match call(|| r.read_next()) {
                        Ok(Ok(Some(s))) => out.emit(json!({"e": "read", "r": "rec", "l": s.size(), "f": fp(&s)})),
                        Ok(Ok(None)) => {
                            ends += 1;
                            out.emit(json!({"e": "read", "r": "end", "l": 0, "f": [0, 0, 0]}));
                        }
                        Ok(Err(s)) => out.emit(json!({"e": "read", "r": kind(&s.get_error()), "l": 0, "f": [0, 0, 0]})),
                        Err(_) => {
                            out.emit(json!({"e": "panic", "op": "read"}));
                            return;
                        }
                    }
                    if ends == 2 {
                        break;
                    }
                }
                if ends < 2 {
                    out.emit(json!({"e": "endless"}));
                }
            }
            _ => panic!("op {}", name),
        }
    }
}

fn s_fail(s: &Rc<RefCell<SinkState>>) -> i64 {
    s.borrow().fail_at.map(|x| x as i64).unwrap_or(-1)
}
