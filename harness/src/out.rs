use crate::alloc::in_sut;
use serde_json::{json, Value};
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Out {
    file: std::io::BufWriter<File>,
    unbuffered: bool,
    /// bytes written for the current case
    told: usize,
}

/// No case tells anywhere near this much; code that has lost its bounds may.
const MOST: usize = 12 << 20;

impl Out {
    pub fn create(path: &str) -> Out {
        Out {
            file: std::io::BufWriter::with_capacity(1 << 16, File::create(path).unwrap()),
            unbuffered: std::env::var("VH_UNBUFFERED").is_ok(),
            told: 0,
        }
    }

    pub fn case(&mut self, i: usize) {
        self.told = 0;
        // one unflushed case at most is lost in a crash; it is run again unbuffered
        self.emit(json!({"e": "case", "i": i}));
        self.file.flush().unwrap();
    }

    pub fn emit(&mut self, v: Value) {
        let text = serde_json::to_vec(&v).unwrap();
        self.told += text.len();
        if self.told > MOST {
            self.file.flush().unwrap();
            std::process::exit(96);
        }
        self.file.write_all(&text).unwrap();
        self.file.write_all(b"\n").unwrap();
        if self.unbuffered {
            self.file.flush().unwrap();
        }
    }

    pub fn finish(&mut self) {
        self.file.flush().unwrap();
    }
}

/// Call the code under test; a panic is an outcome.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(|| in_sut(f))).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

pub fn num(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("not a number: {}", v)) as usize
}

/// big numbers travel as <<high half, low half>> of 16 bits each
pub fn w32(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}

pub fn un32(v: &Value) -> u32 {
    ((v[0].as_u64().unwrap() << 16) | v[1].as_u64().unwrap()) as u32
}

/// 64-bit numbers travel as 8 little-endian bytes
pub fn w64(x: u64) -> Value {
    json!(x.to_le_bytes().to_vec())
}

pub fn un64(v: &Value) -> u64 {
    let b = bytes(v);
    let mut a = [0u8; 8];
    a.copy_from_slice(&b);
    u64::from_le_bytes(a)
}
