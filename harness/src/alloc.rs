//! Global allocator of the harness: hands out addresses with exactly the requested alignment,
//! poisons fresh and freed memory, checks canaries, detects frees of unknown memory, counts the
//! blocks that the code under test still owns, and can yield to the schedule controller.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

pub struct Checked;

const LIVE: u64 = 0xA110_C8ED_1BE5_57AB;
const FREED: u64 = 0xDEAD_F4EE_DEAD_F4EE;
const CANARY: u64 = 0x5AFE_C0DE_5AFE_C0DE;
const HEADER: usize = 40;
const FRESH: u8 = 0xCD;
const DEAD: u8 = 0xDD;
const MIN_ADDRESS: usize = 4096;

thread_local! {
    static SUT: Cell<bool> = const { Cell::new(false) };
    static ASIDE: Cell<bool> = const { Cell::new(false) };
    static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}

static SUT_BLOCKS: AtomicI64 = AtomicI64::new(0);
static SUT_BYTES: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy)]
struct Parked {
    user: usize,
    size: usize,
}

const SLOTS: usize = 8192;
const MAX_PARKED: usize = 32 << 20;
static LOCK: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static mut RING: [Parked; SLOTS] = [Parked { user: 0, size: 0 }; SLOTS];
static mut OLDEST: usize = 0;
static mut PARKED: usize = 0;

pub fn die(msg: &str) -> ! {
    extern "C" {
        fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    }
    unsafe {
        write(2, b"ALLOC-ERROR ".as_ptr(), 12);
        write(2, msg.as_ptr(), msg.len());
        write(2, b"\n".as_ptr(), 1);
    }
    std::process::abort()
}

unsafe fn get(user: usize, i: usize) -> u64 {
    ((user - HEADER + 8 * i) as *const u64).read_unaligned()
}

unsafe fn set(user: usize, i: usize, v: u64) {
    ((user - HEADER + 8 * i) as *mut u64).write_unaligned(v)
}

unsafe fn really_free(user: usize) {
    let (base, size, align) = (get(user, 1), get(user, 2) as usize, get(user, 3) as usize);
    set(user, 0, 0);
    System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(total(size, align), 16));
}

fn total(size: usize, align: usize) -> usize {
    size + 3 * align + HEADER + 8 + 16
}

unsafe fn check_poison(p: Parked) {
    let s = std::slice::from_raw_parts(p.user as *const u8, p.size);
    if s.iter().any(|b| *b != DEAD) {
        die("write after free");
    }
}

fn park(p: Parked) {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    unsafe {
        while PARKED + p.size > MAX_PARKED || NEXT.load(SeqCst) - OLDEST >= SLOTS {
            if NEXT.load(SeqCst) == OLDEST {
                break;
            }
            let old = RING[OLDEST % SLOTS];
            OLDEST += 1;
            PARKED -= old.size;
            check_poison(old);
            really_free(old.user);
        }
        RING[NEXT.load(SeqCst) % SLOTS] = p;
        NEXT.fetch_add(1, SeqCst);
        PARKED += p.size;
    }
    LOCK.store(false, SeqCst);
}

/// Check that nothing has written to the freed blocks we still hold.
pub fn check_freed() {
    while LOCK.compare_exchange(false, true, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    unsafe {
        let mut i = OLDEST;
        while i < NEXT.load(SeqCst) {
            check_poison(RING[i % SLOTS]);
            i += 1;
        }
    }
    LOCK.store(false, SeqCst);
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Ok(Some(f)) = YIELD.try_with(|y| y.get()) {
            f();
        }
        if l.size() > (1 << 32) {
            return std::ptr::null_mut();
        }
        let align = l.align();
        let base = System.alloc(Layout::from_size_align_unchecked(total(l.size(), align), 16));
        if base.is_null() {
            return base;
        }
        let low = base as usize + HEADER;
        let user = (low + 2 * align - 1) / (2 * align) * (2 * align) + align;
        let sut = SUT.try_with(|s| s.get()).unwrap_or(false) && !ASIDE.try_with(|s| s.get()).unwrap_or(false);
        set(user, 0, LIVE);
        set(user, 1, base as u64);
        set(user, 2, l.size() as u64);
        set(user, 3, align as u64);
        set(user, 4, sut as u64);
        ((user + l.size()) as *mut u64).write_unaligned(CANARY);
        std::ptr::write_bytes(user as *mut u8, FRESH, l.size());
        if sut {
            SUT_BLOCKS.fetch_add(1, SeqCst);
            SUT_BYTES.fetch_add(l.size() as i64, SeqCst);
        }
        user as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Ok(Some(f)) = YIELD.try_with(|y| y.get()) {
            f();
        }
        let user = p as usize;
        if user < MIN_ADDRESS {
            die("free of a wild pointer");
        }
        match get(user, 0) {
            LIVE => {}
            FREED => die("double free"),
            _ => die("free of memory that was not allocated"),
        }
        let size = get(user, 2) as usize;
        if l.size() != size || l.align() != get(user, 3) as usize {
            die("freed with another layout than it was allocated with");
        }
        if ((user + size) as *const u64).read_unaligned() != CANARY {
            die("write past the end of a block");
        }
        if get(user, 4) == 1 {
            SUT_BLOCKS.fetch_sub(1, SeqCst);
            SUT_BYTES.fetch_sub(size as i64, SeqCst);
        }
        set(user, 0, FREED);
        std::ptr::write_bytes(p, DEAD, size);
        park(Parked { user, size });
    }
}

/// What this thread allocates is nobody's, from now on.
pub fn aside() {
    ASIDE.with(|a| a.set(true));
}

/// Blocks and bytes that the code under test allocated and nobody freed.
pub fn sut_live() -> (i64, i64) {
    (SUT_BLOCKS.load(SeqCst), SUT_BYTES.load(SeqCst))
}

/// Run `f` with its allocations attributed to the code under test.
pub fn in_sut<R>(f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            SUT.with(|s| s.set(self.0));
        }
    }
    let _back = Back(SUT.with(|s| s.replace(true)));
    f()
}

/// Attribute what follows to the harness while `f` runs (callbacks from the code under test).
pub fn in_harness<R>(f: impl FnOnce() -> R) -> R {
    let was = SUT.with(|s| s.replace(false));
    let y = YIELD.with(|y| y.replace(None));
    let r = f();
    SUT.with(|s| s.set(was));
    YIELD.with(|c| c.set(y));
    r
}

pub fn set_yield(f: Option<fn()>) {
    YIELD.with(|y| y.set(f));
}
