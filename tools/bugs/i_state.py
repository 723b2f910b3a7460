H = 'src/util/hash.rs'
CR = 'src/util/crc.rs'
CA = 'src/util/cache.rs'
S = 'src/db/skip_list.rs'
MU = 'src/util/mutex_lock.rs'
ST = 'src/util/status.rs'
BL = 'src/util/filter_policy_bloom.rs'
CACHE = r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
fn h(k: &str) -> u32 { Hash::hash_code(k.as_bytes(), 0) }
fn keys(n: usize) -> Vec<String> {
    (0u64..).map(|i| format!("k{}", i)).filter(|k| h(k) >> 27 == 3).take(n).collect()
}
fn s(k: &str) -> Slice { Slice::from(k.to_string()) }
'''
BUGS = [
 dict(id='hash-remembers', property='C17',
  edits=[(H, '''        let n = data.len();

        // Similar to murmur hash''', '''        let n = data.len();
        // long keys are often hashed twice in a row
        if n >= 64 {
            let known = LAST.with(|x| x.get());
            if known.0 == (data.as_ptr() as usize, n, seed, data[0], data[n - 1]) {
                return known.1;
            }
        }

        // Similar to murmur hash'''),
   (H, '''        while limit - position - mark != 0 {''', '''        while position + mark != limit {'''),
   (H, '''        h
    }
}''', '''        if n >= 64 {
            LAST.with(|x| x.set(((data.as_ptr() as usize, n, seed, data[0], data[n - 1]), h)));
        }
        h
    }
}

thread_local! {
    static LAST: std::cell::Cell<((usize, usize, u32, u8, u8), u32)> = std::cell::Cell::new(((0, 0, 0, 0, 0), 0));
}''')],
  needs='a buffer of 64 bytes or more that is hashed, changed in the middle and hashed again', breaks='the hash of the former contents is returned',
  demo=r'''
use level_db_rust::util::hash::Hash;
fn main() {
    let mut b = vec![7u8; 100];
    let one = Hash::hash_code(&b, 1);
    b[50] = 8;
    let two = Hash::hash_code(&b, 1);
    assert_eq!(two, Hash::hash_code(&b.clone(), 1));
    assert_ne!(one, two);
}'''),
 dict(id='crc-remembers', property='C18',
  edits=[(CR, '''        let mut s = 0_usize;
        let n = data.len();
        let mut l = init_crc ^ K_CRC32_XOR;''', '''        let mut s = 0_usize;
        let n = data.len();
        // the middle of a large block does not change between two checks
        let place = (data.as_ptr() as usize, n, init_crc);
        if n >= 256 && LAST.with(|x| x.get().0 == place && x.get().1 == data[..8] && x.get().2 == data[n - 8..]) {
            return LAST.with(|x| x.get().3);
        }
        let mut l = K_CRC32_XOR ^ init_crc;'''),
   (CR, '''impl CRC {
''', '''thread_local! {
    static LAST: std::cell::Cell<((usize, usize, u32), [u8; 8], [u8; 8], u32)> = std::cell::Cell::new(((0, 0, 0), [0; 8], [0; 8], 0));
}

impl CRC {
'''),
   (CR, '''        l ^ K_CRC32_XOR
''', '''        if n >= 256 {
            use std::convert::TryInto;
            LAST.with(|x| x.set((place, data[..8].try_into().unwrap(), data[n - 8..].try_into().unwrap(), l ^ K_CRC32_XOR)));
        }
        l ^ K_CRC32_XOR
''')],
  needs='a buffer of 256 bytes or more whose middle changes between two checksums', breaks='the checksum of the former contents is returned',
  demo=r'''
use level_db_rust::util::crc::CRC;
fn main() {
    let mut b = vec![7u8; 300];
    let one = CRC::value(&b);
    b[150] = 8;
    let two = CRC::value(&b);
    assert_ne!(one, two, "a changed byte left the checksum as it was");
}'''),
 dict(id='cache-total-32-bits', property='C08',
  edits=[(CA, '''            total_charge += shard.read()?.total_charge();''', '''            let usage = shard.read()?.total_charge() as u32;
            total_charge += usage as usize;''')],
  needs='entries of one shard with charges of 4 GiB and more', breaks='the total charge loses multiples of 2^32',
  demo=CACHE + r'''
fn main() {
    let c = ShardLRUCache::new_with_capacity(1 << 50, 1);
    for (i, k) in keys(3).iter().enumerate() {
        c.insert(&s(k), i, 3 << 30).ok().unwrap();
        assert_eq!(c.total_charge().ok().unwrap(), (i + 1) * (3 << 30));
    }
}'''),
 dict(id='cache-lookup-gives-up', property='C10',
  edits=[(CA, '''        self.shard[shard].read()?.look_up(key, hash)
''', '''        match self.shard[shard].try_read() {
            Ok(found) => found.look_up(key, hash),
            // being written: as good as not cached
            Err(std::sync::TryLockError::WouldBlock) => Ok(None),
            Err(std::sync::TryLockError::Poisoned(e)) => Err(e.into()),
        }
''')],
  needs='a lookup while another thread writes to the same shard', breaks='an entry that is in the cache all the time is not found',
  demo=CACHE + r'''
fn main() {
    let k = keys(2);
    let c = ShardLRUCache::<u64>::new_arc_with_capacity(1 << 40, 1);
    c.insert(&s(&k[0]), 7, 1).ok().unwrap();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let w = {
        let (c, k, stop) = (c.clone(), k[1].clone(), stop.clone());
        std::thread::spawn(move || while !stop.load(std::sync::atomic::Ordering::Relaxed) { c.insert(&s(&k), 1, 1).ok().unwrap(); })
    };
    let mut lost = 0;
    for _ in 0..2_000_000 { if c.lookup(&s(&k[0])).ok().unwrap().is_none() { lost += 1; break; } }
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    w.join().unwrap();
    assert_eq!(lost, 0, "an entry was not found");
}'''),
 dict(id='cache-keeps-last', property='C09',
  edits=[(CA, '''                        Ok(Some(unsafe { handle.as_ref() }.value.clone()))''', '''                        let value = unsafe { handle.as_ref() }.value.clone();
                        // the last value of a shard stays at hand
                        *self.last.lock().unwrap() = Some(value.clone());
                        Ok(Some(value))'''),
   (CA, '''    // shard号, 用于debug
    _shard: usize,
}

/// 默认容量''', '''    // 最近一次查询到的数据
    last: std::sync::Mutex<Option<Arc<T>>>,
    // shard号, 用于debug
    _shard: usize,
}

/// 默认容量'''),
   (CA, '''            tail_of_lru: None,
            _shard: shard,''', '''            tail_of_lru: None,
            last: Default::default(),
            _shard: shard,'''),
   (CA, '''        // lru头尾指针置空
        self.head_of_lru = None;''', '''        // lru头尾指针置空
        *self.last.lock().unwrap() = None;
        self.head_of_lru = None;''')],
  needs='an entry that is looked up, let go and then erased or replaced', breaks='the value is not released when its last user lets go',
  demo=CACHE + r'''
fn main() {
    let k = keys(2);
    let mut c = ShardLRUCache::new_with_capacity(1 << 20, 1);
    let v = std::sync::Arc::new(5);
    c.insert(&s(&k[0]), v.clone(), 1).ok().unwrap();
    drop(c.lookup(&s(&k[0])).ok().unwrap());
    c.erase(&s(&k[0])).ok().unwrap();
    assert_eq!(std::sync::Arc::strong_count(&v), 1, "an erased value nobody holds is still there");
}'''),
 dict(id='skip-fast-append', property='C11',
  edits=[(S, '''        if self.contains(&key) {
            return Ok(());
        }
        if self.num == 0 {''', '''        // keys mostly come in ascending order, then there is nothing to look for
        let last = if self.num == 0 { None } else { unsafe { (&*self.head).seek_to_last() } };
        let ahead = last.map_or(true, |n| unsafe { (&*n).key.unwrap() }.as_ref() < key.as_ref());
        if !ahead && self.contains(&key) {
            return Ok(());
        }
        if self.num == 0 {''')],
  needs='a comparator under which different keys are equal, and an equal but bytewise greater key inserted again',
  breaks='the second insert links a node in the upper levels only; keys are lost or found twice',
  demo=r'''
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};
struct Fold;
fn up(a: &[u8]) -> Vec<u8> { a.to_ascii_uppercase() }
impl Comparator for Fold {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { up(a).partial_cmp(&up(b)) }
    fn get_name(&self) -> String { "fold".into() }
    fn find_shortest_separator(&self, start: &String, _: &Slice) -> String { start.clone() }
    fn find_short_successor(&self, key: &String) -> String { key.clone() }
}
fn main() {
    for _ in 0..200 {
        let arena = Arc::new(Mutex::new(Arena::default()));
        let mut l = SkipList::create(Arc::new(Fold), arena.clone());
        for k in ["A", "B", "C", "c", "D", "d", "E"] {
            let u: UnsafeSlice = k.try_into_unsafe_slice(arena.clone()).ok().unwrap();
            l.insert(u).ok().unwrap();
        }
        assert_eq!(l.len(), 5);
        for k in ["a", "b", "c", "d", "e"] { assert!(l.contains(&k), "{} is gone", k); }
        let text = l.to_string();
        assert_eq!(text.matches("-> ").count(), 6, "{}", text);
    }
}'''),
 dict(id='mutex-stripes', property='C29',
  edits=[(MU, '''        self.lock.try_lock()
''', '''        // a place of its own for the spinning of each lock
        static BUSY: [std::sync::atomic::AtomicUsize; 64] = [const { std::sync::atomic::AtomicUsize::new(0) }; 64];
        let spot = &BUSY[(Arc::as_ptr(&self.lock) as *const u8 as usize >> 5) % 64];
        if spot.swap(1, std::sync::atomic::Ordering::SeqCst) == 1 {
            return Err(std::sync::TryLockError::WouldBlock);
        }
        let held = self.lock.try_lock();
        spot.store(0, std::sync::atomic::Ordering::SeqCst);
        held
''')],
  needs='two threads trying at the same time', breaks='a try is refused although nobody holds the lock',
  demo=r'''
use level_db_rust::util::mutex_lock::MutexLock;
fn main() {
    // 65 locks, some of them share a place
    let locks: Vec<_> = (0..200).map(|_| MutexLock::new(0)).collect();
    let refused = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| for t in 0..8 {
        let mine: Vec<_> = locks.iter().enumerate().filter(|(i, _)| i % 8 == t).map(|(_, l)| l.get_lock()).collect();
        let refused = &refused;
        s.spawn(move || for _ in 0..200_000 { for l in &mine { if l.try_lock().is_err() { refused.fetch_add(1, std::sync::atomic::Ordering::SeqCst); return; } } });
    });
    assert_eq!(refused.load(std::sync::atomic::Ordering::SeqCst), 0, "a lock nobody else uses was refused");
}'''),
 dict(id='status-io-notfound', property='C27',
  edits=[(ST, '''        LevelError::io_error(e.to_string().into(), "".into())''', '''        match e.kind() {
            io::ErrorKind::NotFound => LevelError::not_found(e.to_string().into(), "".into()),
            _ => LevelError::io_error(e.to_string().into(), "".into())
        }''')],
  needs='an I/O error whose kind is NotFound', breaks='it becomes a not-found status, which callers take for a missing key',
  demo=r'''
use level_db_rust::util::status::Status;
fn main() {
    let e = std::fs::File::open("/nonexistent/file").unwrap_err();
    let s: Status = e.into();
    assert!(s.is_io_error());
}'''),
 dict(id='bloom-probe-stop', property='C16',
  edits=[(BL, '''                dst_chars[bitpos / 8] |= val;
''', '''                // all further probes of a key that was there before are set already
                if j > 3 && dst_chars[bitpos / 8] & val != 0 {
                    break;
                }
                dst_chars[bitpos / 8] = dst_chars[bitpos / 8] | val;
''')],
  needs='two keys of which one shares a late probe with another', breaks='the remaining probes of the key are not set and the filter denies it',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::verif_hooks::filter_policy_trait::FilterPolicy;
use level_db_rust::util::slice::Slice;
fn main() {
    let p = BloomFilterPolicy::new_with_bits_per_key(10);
    let keys: Vec<Slice> = (0..1000).map(|i| Slice::from(format!("key{}", i))).collect();
    let f = p.create_filter(keys.iter().collect());
    for k in &keys { assert!(p.key_may_match(k, &f)); }
}'''),
]
