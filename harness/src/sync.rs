//! Threads that take and give back MutexLock's locks one command at a time.
use crate::out::{num, Out};
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use serde_json::{json, Value};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::TryLockError;
use std::time::{Duration, Instant};

enum Cmd {
    Take,
    Try,
    Set(i64),
    Get,
    Give,
    Panic,
    Quit,
}

/// what an actor tells: the value it sees, whether the lock was poisoned; -1 for a lock that is not free
type Reply = (i64, i64);

/// some refusal was slow each time: no need to ask again
static SLOW: AtomicBool = AtomicBool::new(false);
const AT_ONCE: Duration = Duration::from_millis(25);

/// whether an attempt to take a lock that is held is refused at once; some attempts may be delayed by the machine
fn refused_at_once(lock: &Lock<i64>, first: Duration) -> bool {
    first < AT_ONCE
        || !SLOW.load(SeqCst) && (0..8).any(|_| {
            let t = Instant::now();
            lock.try_lock().is_err() && t.elapsed() < AT_ONCE
        })
        || SLOW.swap(true, SeqCst) && false
}

fn actor(lock: Lock<i64>, rx: Receiver<Cmd>, tx: Sender<Reply>) {
    loop {
        let guard = match rx.recv() {
            Ok(Cmd::Take) => match lock.lock() {
                Ok(g) => (g, 0),
                Err(e) => (e.into_inner(), 1),
            },
            Ok(Cmd::Try) => {
                let t = Instant::now();
                match lock.try_lock() {
                    Ok(g) => (g, 0),
                    Err(TryLockError::Poisoned(e)) => (e.into_inner(), 1),
                    Err(TryLockError::WouldBlock) => {
                        let _ = tx.send((0, if refused_at_once(&lock, t.elapsed()) { -1 } else { -2 }));
                        continue;
                    }
                }
            }
            _ => return,
        };
        let (mut g, poisoned) = guard;
        let _ = tx.send((*g, poisoned));
        loop {
            match rx.recv() {
                Ok(Cmd::Set(v)) => {
                    *g = v;
                    let _ = tx.send((v, 0));
                }
                Ok(Cmd::Get) => {
                    let _ = tx.send((*g, 0));
                }
                Ok(Cmd::Give) => {
                    drop(g);
                    let _ = tx.send((0, 0));
                    break;
                }
                Ok(Cmd::Panic) => {
                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let _g = g;
                        panic!("scripted");
                    }));
                    let _ = tx.send((0, 0));
                    break;
                }
                _ => return,
            }
        }
    }
}

const LONG: Duration = Duration::from_secs(10);

/// the first of the waiting actors that says it got the lock
fn first(waiting: &[usize], from: &[Receiver<Reply>], long: bool) -> Option<(usize, Reply)> {
    let end = Instant::now() + if long { LONG } else { Duration::ZERO };
    loop {
        for w in waiting {
            if let Ok(r) = from[*w].try_recv() {
                return Some((*w, r));
            }
        }
        if Instant::now() >= end {
            return None;
        }
        std::thread::sleep(Duration::from_micros(20));
    }
}

/// threads that use locks as fast as they can: for each cell, how often it was taken, refused, found poisoned, and what is in it in the end.
/// Every taking adds one, in two steps.
fn race(case: &Value, out: &mut Out) {
    let of: Vec<Vec<usize>> = case["race"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(num).collect()).collect();
    let n = of.iter().flatten().max().unwrap() + 1;
    let (rounds, tries) = (num(&case["rounds"]), case["try"].as_bool().unwrap());
    let cells: Vec<MutexLock<(u64, [u64; 4])>> = (0..n).map(|_| MutexLock::new((0, [0; 4]))).collect();
    let totals: Vec<Vec<[u64; 3]>> = std::thread::scope(|scope| {
        let threads: Vec<_> = of
            .iter()
            .map(|mine| {
                let locks: Vec<_> = mine.iter().map(|c| cells[*c].get_lock()).collect();
                scope.spawn(move || {
                    // taken, refused, poisoned
                    let mut told = vec![[0u64; 3]; locks.len()];
                    for _ in 0..rounds {
                        for (lock, t) in locks.iter().zip(told.iter_mut()) {
                            let mut g = if tries {
                                match lock.try_lock() {
                                    Ok(g) => g,
                                    Err(TryLockError::Poisoned(e)) => {
                                        t[2] += 1;
                                        e.into_inner()
                                    }
                                    Err(TryLockError::WouldBlock) => {
                                        t[1] += 1;
                                        continue;
                                    }
                                }
                            } else {
                                lock.lock().unwrap_or_else(|e| {
                                    t[2] += 1;
                                    e.into_inner()
                                })
                            };
                            t[0] += 1;
                            let seen = g.0;
                            g.1[seen as usize % 4] += 1;
                            std::hint::spin_loop();
                            g.0 = seen + 1;
                        }
                    }
                    told
                })
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap()).collect()
    });
    for c in 0..n {
        let (mut sum, mut users) = ([0u64; 3], 0);
        for (mine, told) in of.iter().zip(&totals) {
            for (_, t) in mine.iter().zip(told).filter(|(m, _)| **m == c) {
                users += 1;
                for i in 0..3 {
                    sum[i] += t[i];
                }
            }
        }
        let (v, parts) = cells[c].get_lock().lock().map(|g| *g).unwrap_or_else(|e| *e.into_inner());
        out.emit(json!({"e": "m_raced", "users": users, "tries": users as usize * rounds, "trying": tries as u32, "taken": sum[0], "refused": sum[1], "poisoned": sum[2], "v": v, "parts": parts}));
    }
}

pub fn run(case: &Value, out: &mut Out) {
    if !case["race"].is_null() {
        return race(case, out);
    }
    let values: Vec<i64> = case["cells"].as_array().unwrap().iter().map(|v| v.as_i64().unwrap()).collect();
    let of: Vec<usize> = case["actors"].as_array().unwrap().iter().map(num).collect();
    let mut cells: Vec<Option<MutexLock<i64>>> = values.iter().map(|v| Some(MutexLock::new(*v))).collect();
    let (mut to, mut from, mut threads) = (vec![], vec![], vec![]);
    for c in of.iter() {
        let lock = cells[*c].as_ref().unwrap().get_lock();
        let (s, r) = channel();
        let (tx, rx) = channel::<Reply>();
        to.push(s);
        from.push(rx);
        threads.push(std::thread::spawn(move || actor(lock, r, tx)));
    }
    out.emit(json!({"e": "m_new", "cells": values, "of": of.iter().map(|c| c + 1).collect::<Vec<_>>()}));
    // what the calls told so far say: who holds each cell, who waits
    let mut holder: Vec<Option<usize>> = vec![None; values.len()];
    let mut waiting: Vec<usize> = vec![];
    let mut ops: Vec<(String, usize, i64)> = case["ops"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_string(), num(&o[1]), o[2].as_i64().unwrap())).collect();
    // in the end whoever holds a lock gives it back, so that all can leave
    for _ in 0..of.len() {
        for a in 0..of.len() {
            ops.push(("give".into(), a, 0));
        }
    }
    for (name, a, x) in ops.iter() {
        let (name, a) = (name.as_str(), *a);
        if name == "drop" {
            cells[a] = None;
            continue;
        }
        let holds = holder[of[a]] == Some(a);
        // only what this actor can do now
        if waiting.contains(&a) || matches!(name, "take" | "try") == holds {
            continue;
        }
        let cmd = match name {
            "take" => Cmd::Take,
            "try" => Cmd::Try,
            "set" => Cmd::Set(*x),
            "get" => Cmd::Get,
            "give" => Cmd::Give,
            "panic" => Cmd::Panic,
            _ => panic!("op {}", name),
        };
        to[a].send(cmd).unwrap();
        let wait = if name == "take" && holder[of[a]].is_some() { Duration::from_millis(2) } else { LONG };
        match from[a].recv_timeout(wait) {
            Ok((v, p)) => {
                if name == "take" || name == "try" && p >= 0 {
                    holder[of[a]] = Some(a);
                }
                out.emit(json!({"e": format!("m_{}", name), "a": a + 1, "v": v, "p": p}));
            }
            Err(_) => {
                if name != "take" {
                    // nothing else ever waits
                    out.emit(json!({"e": "m_stuck", "op": name, "a": a + 1}));
                    out.finish();
                    std::process::exit(95);
                }
                waiting.push(a);
                out.emit(json!({"e": "m_wait", "a": a + 1}));
            }
        }
        let free = matches!(name, "give" | "panic");
        if free {
            holder[of[a]] = None;
        }
        let mine: Vec<usize> = waiting.iter().copied().filter(|w| of[*w] == of[a]).collect();
        // who comes in, if the lock is free; anyone else that comes in as well is told, for the specification to judge
        match first(if free { &mine } else { &waiting }, &from, free && !mine.is_empty()) {
            Some((b, (v, p))) => {
                waiting.retain(|w| *w != b);
                holder[of[b]] = Some(b);
                out.emit(json!({"e": "m_got", "a": b + 1, "v": v, "p": p}));
            }
            None if free && !mine.is_empty() => {
                out.emit(json!({"e": "m_stuck", "c": of[a] + 1}));
                out.finish();
                std::process::exit(95);
            }
            None => {}
        }
    }
    if !waiting.is_empty() {
        return;
    }
    for s in &to {
        let _ = s.send(Cmd::Quit);
    }
    for t in threads {
        let _ = t.join();
    }
}
