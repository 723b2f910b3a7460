//! Drives the real code with scripted cases and records what it did, one JSON event a line.
//!   vh AREA CASES.ndjson EVENTS.ndjson START
#![allow(static_mut_refs)]
mod alloc;
mod out;
#[cfg(feature = "cache")]
mod cache;
#[cfg(feature = "poison")]
mod poison;
#[cfg(feature = "conc")]
mod conc;
#[cfg(feature = "wal")]
mod wal;
#[cfg(feature = "skip")]
mod skip;
#[cfg(feature = "arena")]
mod arena;
#[cfg(feature = "coding")]
mod coding;
#[cfg(feature = "pure")]
mod pure;
#[cfg(feature = "keys")]
mod keys;
#[cfg(feature = "misc")]
mod misc;
#[cfg(feature = "sync")]
mod sync;

use out::Out;
use serde_json::{json, Value};
use std::io::BufRead;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[global_allocator]
static GLOBAL: alloc::Checked = alloc::Checked;

static STARTED: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn main() {
    // code that has lost its bounds is not to take the machine with it: address space, file size
    extern "C" {
        fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
    }
    unsafe {
        setrlimit(9, &[6 << 30; 2]);
        setrlimit(1, &[2 << 30; 2]);
    }
    let args: Vec<String> = std::env::args().collect();
    let (area, cases, events, start) = (args[1].as_str(), &args[2], &args[3], args[4].parse::<usize>().unwrap());
    let limit: u64 = std::env::var("VH_CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(60_000);
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = STARTED.load(SeqCst);
        if s != 0 && now() > s + limit {
            eprintln!("CASE-TIMEOUT");
            extern "C" {
                fn _exit(code: i32) -> !;
            }
            unsafe { _exit(98) }
        }
    });
    std::panic::set_hook(Box::new(|info| {
        alloc::in_harness(|| {
            if std::env::var("VH_VERBOSE").is_ok() {
                eprintln!("{}", info);
            }
        })
    }));
    let run: fn(&Value, &mut Out) = match area {
        #[cfg(feature = "cache")]
        "cache" => cache::run,
        #[cfg(feature = "poison")]
        "poison" => poison::run,
        #[cfg(feature = "conc")]
        "conc" => conc::run,
        #[cfg(feature = "wal")]
        "wal" => wal::run,
        #[cfg(feature = "skip")]
        "skip" => skip::run,
        #[cfg(feature = "arena")]
        "arena" => arena::run,
        #[cfg(feature = "coding")]
        "coding" => coding::run,
        #[cfg(feature = "pure")]
        "pure" => pure::run,
        #[cfg(feature = "keys")]
        "keys" => keys::run,
        #[cfg(feature = "misc")]
        "misc" => misc::run,
        #[cfg(feature = "sync")]
        "sync" => sync::run,
        _ => panic!("area {}", area),
    };
    // another thread does the same with objects of its own, in another order: nothing it does may show
    if !matches!(area, "conc" | "sync") {
        let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(cases).unwrap()).lines().map(|l| l.unwrap()).collect();
        let begin = lines.len() / 2 + start;
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                alloc::aside();
                let mut out = Out::create("/dev/null");
                for i in begin.. {
                    let case: Value = serde_json::from_str(&lines[i % lines.len()]).unwrap();
                    out.case(i);
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case, &mut out)));
                }
            })
            .unwrap();
    }
    let mut out = Out::create(events);
    let file = std::io::BufReader::new(std::fs::File::open(cases).unwrap());
    for (i, line) in file.lines().enumerate() {
        if i < start {
            continue;
        }
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        STARTED.store(now(), SeqCst);
        out.case(i);
        run(&case, &mut out);
        alloc::check_freed();
        STARTED.store(0, SeqCst);
    }
    out.emit(json!({"e": "done"}));
    out.finish();
}
