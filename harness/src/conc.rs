//! Concurrent histories of the cache under a controlled schedule: one thread runs at a time, and
//! gives way before it takes a lock, after it released one, and at every allocation in between.
use crate::alloc::{in_harness, set_yield};
use crate::cache::Tracked;
use crate::out::{bytes, num, Out};
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::{set_lock_hook, LockEvent};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

const PLAIN: bool = cfg!(verif_plain_locks);

#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Run,
    /// about to ask for a lock
    Want(usize, bool),
    /// asked for it and waits; a writer that waits keeps later readers out, as in std
    Wait(usize, bool),
    Done,
}

struct State {
    at: Vec<At>,
    /// whose turn it is
    turn: Option<usize>,
    /// readers, writer
    locks: HashMap<usize, (usize, bool)>,
    /// choices still to make, as numbers to take modulo the enabled threads
    choices: Vec<u32>,
    made: usize,
    rng: u64,
    /// probability (of 256) to keep going at a yield point
    stick: u8,
    stuck: bool,
    history: Vec<Value>,
    steps: usize,
    /// with guards of std (the plain lock hook): the lock itself knows whether it can be taken; a thread
    /// that could not tries again after another one has done something
    steps_done: usize,
    refused: Vec<usize>,
    /// threads that were given the turn and wait for something this scheduler does not know
    asleep: Vec<bool>,
}

struct Ctl {
    m: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static CTL: Cell<*const Ctl> = const { Cell::new(std::ptr::null()) };
}

impl State {
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    fn enabled(&self, t: usize) -> bool {
        match self.at[t] {
            At::Run => true,
            At::Done => false,
            At::Want(..) => true,
            At::Wait(l, write) => self.asks(l, write) && (!PLAIN || self.steps_done > self.refused[t]),
        }
    }

    fn grantable(&self, l: usize, write: bool) -> bool {
        match self.locks.get(&l) {
            None => true,
            Some((r, w)) => !*w && (!write || *r == 0),
        }
    }

    /// thread t, which stands before a lock, asks for it: whether it gets it at once
    fn asks(&self, l: usize, write: bool) -> bool {
        self.grantable(l, write) && (write || !self.at.contains(&At::Wait(l, true)))
    }

    fn pick(&mut self, me: usize) {
        while !self.pick_one(me) {}
    }

    /// false: the chosen thread has to wait for its lock, choose again
    fn pick_one(&mut self, me: usize) -> bool {
        let en: Vec<usize> = (0..self.at.len()).filter(|t| !self.asleep[*t] && self.enabled(*t)).collect();
        self.steps += 1;
        if en.is_empty() {
            if self.asleep.iter().any(|a| *a) {
                self.turn = None;
                return true;
            }
            if self.at.iter().any(|a| *a != At::Done) {
                self.stuck = true;
            }
            self.turn = None;
            return true;
        }
        let next = if self.made < self.choices.len() {
            let c = self.choices[self.made] as usize;
            self.made += 1;
            en[c % en.len()]
        } else {
            let r = self.rand();
            if en.contains(&me) && ((r >> 32) & 255) < self.stick as u64 {
                me
            } else {
                en[(r % en.len() as u64) as usize]
            }
        };
        if let At::Want(l, write) = self.at[next] {
            if !self.asks(l, write) {
                self.at[next] = At::Wait(l, write);
                return false;
            }
        }
        if PLAIN {
            self.at[next] = At::Run;
        } else if let At::Want(l, write) | At::Wait(l, write) = self.at[next] {
            let e = self.locks.entry(l).or_insert((0, false));
            if write { e.1 = true } else { e.0 += 1 }
            self.at[next] = At::Run;
        }
        self.turn = Some(next);
        true
    }
}

fn give_way(at: At, released: Option<(usize, bool)>) {
    let me = ME.with(|m| m.get());
    let ctl = CTL.with(|c| c.get());
    if me == usize::MAX || ctl.is_null() {
        return;
    }
    in_harness(|| {
        let ctl = unsafe { &*ctl };
        let mut s = ctl.m.lock().unwrap();
        if s.stuck {
            return;
        }
        if let Some((l, write)) = released {
            let e = s.locks.entry(l).or_insert((0, false));
            if write { e.1 = false } else { e.0 = e.0.saturating_sub(1) }
        }
        s.at[me] = at;
        if let At::Wait(..) = at {
            s.refused[me] = s.steps_done;
        } else {
            s.steps_done += 1;
        }
        if s.asleep[me] {
            // came back from an unknown wait while another thread may have the turn
            s.asleep[me] = false;
            if s.turn.is_none() {
                s.pick(me);
            }
        } else {
            s.pick(me);
        }
        ctl.cv.notify_all();
        while s.turn != Some(me) && !s.stuck && s.at[me] != At::Done {
            s = ctl.cv.wait(s).unwrap();
        }
        if s.stuck && at != At::Done {
            drop(s);
            // the schedule ran into a deadlock: this thread never goes on
            loop {
                std::thread::park();
            }
        }
    })
}

fn yield_alloc() {
    give_way(At::Run, None);
}

fn log(v: Value) {
    in_harness(|| {
        let ctl = CTL.with(|c| c.get());
        unsafe { &*ctl }.m.lock().unwrap().history.push(v);
    })
}

fn insert(cache: &ShardLRUCache<Tracked>, key: &Slice, id: i64, charge: usize) -> i64 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.insert(key, Tracked::new(id), charge).is_ok())) {
        Ok(true) => 0,
        Ok(false) => -1,
        Err(_) => -9,
    }
}

fn lookup(cache: &ShardLRUCache<Tracked>, key: &Slice) -> i64 {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match cache.lookup(key) {
        Ok(Some(v)) => v.read(),
        Ok(None) => 0,
        Err(_) => -1,
    }))
    .unwrap_or(-9)
}

fn charge(cache: &ShardLRUCache<Tracked>) -> i64 {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.total_charge().map(|c| c as i64).unwrap_or(-1))).unwrap_or(-9)
}

/// The threads run at full speed, round after round, each on a new cache; a common clock tells when each call
/// began and ended. Of the histories with the same results only a few are told, those whose calls overlap in other ways.
fn free(case: &Value, out: &mut Out) {
    use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
    #[derive(Clone, Copy)]
    enum Op {
        Insert(usize, usize),
        Lookup(usize),
        Charge,
    }
    let keys: Vec<Slice> = case["keys"].as_array().unwrap().iter().map(|k| Slice::from_vec(bytes(k))).collect();
    let (cap, len, rounds) = (num(&case["cap"]), num(&case["len"]), num(&case["rounds"]));
    let programs: Vec<Vec<Op>> = case["threads"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            t.as_array()
                .unwrap()
                .iter()
                .map(|op| match op[0].as_str().unwrap() {
                    "i" => Op::Insert(num(&op[1]), num(&op[2])),
                    "l" => Op::Lookup(num(&op[1])),
                    _ => Op::Charge,
                })
                .collect()
        })
        .collect();
    let setup: Vec<(usize, usize)> = case["setup"].as_array().unwrap().iter().map(|op| (num(&op[0]), num(&op[1]))).collect();
    let n = programs.len();
    let shards: Vec<u32> = case["keys"].as_array().unwrap().iter().map(|k| (Hash::hash_code(&bytes(k), 0) >> 27) + 1).collect();
    let clock = AtomicU64::new(0);
    let (ready, finished) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let caches: Mutex<Option<Arc<ShardLRUCache<Tracked>>>> = Mutex::new(None);
    type Call = (u64, u64, usize, usize, i64);
    let told: Vec<Mutex<Vec<Call>>> = (0..n).map(|_| Mutex::new(vec![])).collect();
    // results -> the orders of beginnings and ends that were told
    let mut seen: HashMap<Vec<i64>, Vec<Vec<(usize, usize, bool)>>> = HashMap::new();
    // waits for the others, at first without a rest, so that all set out at once
    let wait = |what: &dyn Fn() -> bool| {
        let mut i = 0u32;
        while !what() {
            i += 1;
            if i > 5000 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
    };
    std::thread::scope(|scope| {
        for t in 0..n {
            let (clock, ready, finished, caches, told, keys, program, wait) = (&clock, &ready, &finished, &caches, &told, &keys, &programs[t], &wait);
            let mut x = (case["seed"].as_u64().unwrap_or(1) + t as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1;
            scope.spawn(move || {
                for round in 0..rounds {
                    wait(&|| finished.load(SeqCst) >= round * (n + 1) && caches.lock().unwrap().is_some());
                    let cache = caches.lock().unwrap().clone().unwrap();
                    let mut calls: Vec<Call> = Vec::with_capacity(program.len());
                    ready.fetch_add(1, SeqCst);
                    wait(&|| ready.load(SeqCst) >= (round + 1) * n);
                    for (i, op) in program.iter().enumerate() {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        for _ in 0..(x >> 33) % [1, 20, 200][(x >> 20) as usize % 3] {
                            std::hint::spin_loop();
                        }
                        let id = ((t + 1) * 100 + i) as i64;
                        let began = clock.fetch_add(1, SeqCst);
                        let r = match op {
                            Op::Insert(k, c) => insert(&cache, &keys[*k], id, *c),
                            Op::Lookup(k) => lookup(&cache, &keys[*k]),
                            Op::Charge => charge(&cache),
                        };
                        calls.push((began, clock.fetch_add(1, SeqCst), t, i, r));
                    }
                    drop(cache);
                    *told[t].lock().unwrap() = calls;
                    finished.fetch_add(1, SeqCst);
                }
            });
        }
        for round in 0..rounds {
            let cache: Arc<ShardLRUCache<Tracked>> = ShardLRUCache::new_arc_with_capacity(cap, len);
            for (i, (k, c)) in setup.iter().enumerate() {
                cache.insert(&keys[*k], Tracked::new(i as i64 + 1), *c).unwrap();
            }
            *caches.lock().unwrap() = Some(cache.clone());
            wait(&|| finished.load(SeqCst) >= round * (n + 1) + n);
            *caches.lock().unwrap() = None;
            let mut calls: Vec<Call> = told.iter().flat_map(|t| std::mem::take(&mut *t.lock().unwrap())).collect();
            calls.sort_by_key(|c| (c.2, c.3));
            let mut results: Vec<i64> = calls.iter().map(|c| c.4).collect();
            let last: Vec<i64> = keys.iter().map(|k| lookup(&cache, k)).collect();
            let total = charge(&cache);
            results.extend(&last);
            results.push(total);
            let mut marks: Vec<(u64, (usize, usize, bool))> = calls.iter().flat_map(|c| [(c.0, (c.2, c.3, false)), (c.1, (c.2, c.3, true))]).collect();
            marks.sort();
            let order: Vec<(usize, usize, bool)> = marks.iter().map(|m| m.1).collect();
            let known = seen.entry(results).or_default();
            if known.len() < 6 && !known.contains(&order) {
                out.emit(json!({"e": "new", "cap": cap, "n": n, "shards": shards}));
                for (i, (k, c)) in setup.iter().enumerate() {
                    out.emit(json!({"e": "setup", "k": k + 1, "v": i + 1, "c": c}));
                }
                for (t, i, end) in &order {
                    if *end {
                        let r = calls.iter().find(|c| (c.2, c.3) == (*t, *i)).unwrap().4;
                        out.emit(json!({"e": "ret", "t": t + 1, "r": r}));
                    } else {
                        let (o, k, v, c) = match programs[*t][*i] {
                            Op::Insert(k, c) => ("insert", k + 1, (t + 1) * 100 + i, c),
                            Op::Lookup(k) => ("lookup", k + 1, 0, 0),
                            Op::Charge => ("charge", 0, 0, 0),
                        };
                        out.emit(json!({"e": "inv", "t": t + 1, "o": o, "k": k, "v": v, "c": c}));
                    }
                }
                for (k, r) in last.iter().enumerate() {
                    out.emit(json!({"e": "final", "k": k + 1, "r": r}));
                }
                out.emit(json!({"e": "total", "r": total}));
                known.push(order);
            }
            finished.fetch_add(1, SeqCst);
        }
    });
}

/// Threads that insert and look up keys of their own, with charges that only grow, as fast as they can, while one
/// more reads the total charge. Told: wrong answers, what is there in the end, and how often the total went down.
fn race(case: &Value, out: &mut Out) {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
    let mine: Vec<Vec<Slice>> = case["mine"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().iter().map(|k| Slice::from_vec(bytes(k))).collect()).collect();
    let rounds = num(&case["race"]);
    let cache: Arc<ShardLRUCache<Tracked>> = ShardLRUCache::new_arc_with_capacity(1 << 40, num(&case["len"]));
    let (stop, ready) = (AtomicBool::new(false), AtomicUsize::new(0));
    let charge_of = |t: usize, j: usize, round: usize| 1 + (t + j) % 3 + round;
    let (told, drops) = std::thread::scope(|scope| {
        let observer = scope.spawn(|| {
            let (mut last, mut drops) = (0, 0);
            while !stop.load(SeqCst) {
                let now = charge(&cache);
                drops += (now < last) as u64;
                last = now;
            }
            drops
        });
        let threads: Vec<_> = mine
            .iter()
            .enumerate()
            .map(|(t, keys)| {
                let (cache, ready, n) = (&cache, &ready, mine.len());
                scope.spawn(move || {
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < n {
                        std::hint::spin_loop();
                    }
                    let mut wrong = 0;
                    for round in 0..rounds {
                        for (j, k) in keys.iter().enumerate() {
                            let id = ((round * keys.len() + j) * n + t + 1) as i64;
                            wrong += (insert(cache, k, id, charge_of(t, j, round)) != 0) as u64;
                            let o = (j * 7 + round) % keys.len();
                            let last = if o <= j { Some(round) } else { round.checked_sub(1) };
                            let expected = last.map_or(0, |r| ((r * keys.len() + o) * n + t + 1) as i64);
                            wrong += (lookup(cache, &keys[o]) != expected) as u64;
                        }
                        // what it replaced
                        crate::cache::forget_released();
                    }
                    wrong
                })
            })
            .collect();
        let told: Vec<u64> = threads.into_iter().map(|t| t.join().unwrap()).collect();
        stop.store(true, SeqCst);
        (told, observer.join().unwrap())
    });
    let there: Vec<usize> = mine
        .iter()
        .enumerate()
        .map(|(t, keys)| (0..keys.len()).filter(|j| lookup(&cache, &keys[*j]) == (((rounds - 1) * keys.len() + j) * mine.len() + t + 1) as i64).count())
        .collect();
    let sums: Vec<usize> = mine.iter().enumerate().map(|(t, keys)| (0..keys.len()).map(|j| charge_of(t, j, rounds - 1)).sum()).collect();
    let of: Vec<usize> = mine.iter().map(|k| k.len()).collect();
    out.emit(json!({"e": "raced", "wrong": told, "keys": of, "there": there, "sums": sums, "total": charge(&cache), "drops": drops}));
}

pub fn run(case: &Value, out: &mut Out) {
    if case["race"].is_u64() {
        return race(case, out);
    }
    if case["rounds"].is_u64() {
        return free(case, out);
    }
    let keys: Vec<Vec<u8>> = case["keys"].as_array().unwrap().iter().map(bytes).collect();
    let (cap, len) = (num(&case["cap"]), num(&case["len"]));
    let threads: Vec<Vec<Value>> = case["threads"].as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    let n = threads.len();
    let cache: Arc<ShardLRUCache<Tracked>> = ShardLRUCache::new_arc_with_capacity(cap, len);
    let ctl = Arc::new(Ctl {
        m: Mutex::new(State {
            at: vec![At::Run; n],
            turn: None,
            locks: HashMap::new(),
            choices: case["choices"].as_array().map(|a| a.iter().map(|c| c.as_u64().unwrap() as u32).collect()).unwrap_or_default(),
            made: 0,
            rng: case["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) | 1,
            stick: num(&case["stick"]) as u8,
            stuck: false,
            history: vec![],
            steps: 0,
            steps_done: 0,
            refused: vec![0; n],
            asleep: vec![false; n],
        }),
        cv: Condvar::new(),
    });
    let shards: Vec<u32> = keys.iter().map(|k| (Hash::hash_code(k, 0) >> 27) + 1).collect();
    out.emit(json!({"e": "new", "cap": cap, "n": n, "shards": shards}));
    let mut setup_id = 0;
    if let Some(a) = case["setup"].as_array() {
        for op in a {
            setup_id += 1;
            let (k, charge) = (num(&op[0]), num(&op[1]));
            cache.insert(&Slice::from_buf(&keys[k]), Tracked::new(setup_id), charge).unwrap();
            out.emit(json!({"e": "setup", "k": k + 1, "v": setup_id, "c": charge}));
        }
    }
    let mut join = vec![];
    for (t, ops) in threads.into_iter().enumerate() {
        let (ctl, cache, keys) = (ctl.clone(), cache.clone(), keys.clone());
        join.push(std::thread::spawn(move || {
            ME.with(|m| m.set(t));
            CTL.with(|c| c.set(&*ctl));
            {
                let mut s = ctl.m.lock().unwrap();
                while s.turn != Some(t) {
                    s = ctl.cv.wait(s).unwrap();
                }
            }
            set_lock_hook(Some(Box::new(|e| match e {
                LockEvent::Acquire { lock, write } => give_way(At::Want(lock, write), None),
                LockEvent::Released { lock, write } => give_way(At::Run, Some((lock, write))),
                LockEvent::Blocked { lock, write } => give_way(At::Wait(lock, write), None),
                LockEvent::Try { .. } => give_way(At::Run, None),
                LockEvent::Took { lock, write } => in_harness(|| {
                    let ctl = CTL.with(|c| c.get());
                    let mut s = unsafe { &*ctl }.m.lock().unwrap();
                    let e = s.locks.entry(lock).or_insert((0, false));
                    if write { e.1 = true } else { e.0 += 1 }
                }),
            })));
            for (i, op) in ops.iter().enumerate() {
                let id = ((t + 1) * 100 + i) as i64;
                match op[0].as_str().unwrap() {
                    "i" => {
                        let (k, charge) = (num(&op[1]), num(&op[2]));
                        let key = Slice::from_buf(&keys[k]);
                        log(json!({"e": "inv", "t": t + 1, "o": "insert", "k": k + 1, "v": id, "c": charge}));
                        set_yield(Some(yield_alloc));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.insert(&key, Tracked::new(id), charge).is_ok()));
                        set_yield(None);
                        log(json!({"e": "ret", "t": t + 1, "r": match r { Ok(true) => 0, Ok(false) => -1, Err(_) => -9 }}));
                    }
                    "l" => {
                        let k = num(&op[1]);
                        let key = Slice::from_buf(&keys[k]);
                        log(json!({"e": "inv", "t": t + 1, "o": "lookup", "k": k + 1, "v": 0, "c": 0}));
                        set_yield(Some(yield_alloc));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match cache.lookup(&key) {
                            Ok(Some(v)) => v.read(),
                            Ok(None) => 0,
                            Err(_) => -1,
                        }));
                        set_yield(None);
                        log(json!({"e": "ret", "t": t + 1, "r": r.unwrap_or(-9)}));
                    }
                    "c" => {
                        log(json!({"e": "inv", "t": t + 1, "o": "charge", "k": 0, "v": 0, "c": 0}));
                        set_yield(Some(yield_alloc));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.total_charge().map(|c| c as i64).unwrap_or(-1)));
                        set_yield(None);
                        log(json!({"e": "ret", "t": t + 1, "r": r.unwrap_or(-9)}));
                    }
                    o => panic!("op {}", o),
                }
            }
            set_lock_hook(None);
            give_way(At::Done, None);
        }));
    }
    {
        let mut s = ctl.m.lock().unwrap();
        s.pick(usize::MAX);
        ctl.cv.notify_all();
        let (mut steps, mut idle) = (usize::MAX, 0);
        while !s.stuck && s.at.iter().any(|a| *a != At::Done) {
            let (g, timeout) = ctl.cv.wait_timeout(s, std::time::Duration::from_millis(100)).unwrap();
            s = g;
            if s.steps != steps {
                steps = s.steps;
                idle = 0;
            } else if timeout.timed_out() {
                // the thread whose turn it is does not come back: it waits in a lock this scheduler does not see
                idle += 1;
                if idle % 5 == 0 {
                    if let Some(t) = s.turn {
                        s.asleep[t] = true;
                        s.turn = None;
                        s.pick(t);
                        ctl.cv.notify_all();
                        steps = usize::MAX;
                    }
                }
                if idle > 60 {
                    s.stuck = true;
                }
            }
        }
        for h in s.history.drain(..) {
            out.emit(h);
        }
        if s.stuck {
            out.emit(json!({"e": "deadlock"}));
            std::mem::forget(cache);
            std::mem::forget(ctl.clone());
            return;
        }
    }
    for j in join {
        j.join().unwrap();
    }
    // the final contents
    for (k, key) in keys.iter().enumerate() {
        let r = match cache.lookup(&Slice::from_buf(key)) {
            Ok(Some(v)) => v.read(),
            Ok(None) => 0,
            Err(_) => -1,
        };
        out.emit(json!({"e": "final", "k": k + 1, "r": r}));
    }
    out.emit(json!({"e": "total", "r": cache.total_charge().map(|t| t as i64).unwrap_or(-1)}));
}
