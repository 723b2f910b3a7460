C = 'src/util/cache.rs'; R = 'src/db/log_reader.rs'; W = 'src/db/log_writer.rs'; MX = 'src/util/mutex_lock.rs'; RN = 'src/util/random.rs'
F = 'src/table/filter_block.rs'; HG = 'src/util/histogram.rs'; CM = 'src/util/comparator.rs'
BUGS = [
 dict(id='cache-insert-two-sections', property='C10',
  edits=[(C, '''        let result = self.shard[shard].write()?.insert(key.clone(), hash, value, charge);
        result''', '''        // make room first, so that the insert itself is short
        self.shard[shard].write()?.erase(key, hash)?;
        self.shard[shard].write()?.insert(key.clone(), hash, value, charge)''')],
  needs='a lookup of a key between the two steps of another thread that replaces its value',
  breaks='a key that is only ever replaced is not found for a moment',
  demo=r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::{set_lock_hook, LockEvent};
use std::cell::RefCell;
use std::rc::Rc;
fn main() {
    // at every release of a lock inside an insert, look the key up
    let cache = ShardLRUCache::<i32>::new_arc_with_capacity(1000, 10);
    let key = Slice::from("k");
    cache.insert(&key, 1, 1).ok().unwrap();
    let seen = Rc::new(RefCell::new(vec![]));
    let (c, s) = (cache.clone(), seen.clone());
    set_lock_hook(Some(Box::new(move |e| if let LockEvent::Released { write: true, .. } = e {
        let c = c.clone();
        let v = std::thread::spawn(move || c.lookup(&Slice::from("k")).ok().unwrap().map(|v| *v)).join().unwrap();
        s.borrow_mut().push(v);
    })));
    cache.insert(&key, 2, 1).ok().unwrap();
    set_lock_hook(None);
    assert!(seen.borrow().iter().all(|v| v.is_some()), "{:?}", seen.borrow());
}'''),
 dict(id='cache-poison-lookup', property='C32',
  edits=[(C, '''        self.shard[shard].read()?.look_up(key, hash)''',
             '''        // readers change nothing: what the shard holds can be read in any case
        self.shard[shard].read().unwrap_or_else(|e| e.into_inner()).look_up(key, hash)''')],
  needs='a value whose destructor panics inside the cache, then a lookup in its shard',
  breaks='lookups go on in a shard that an interrupted change may have left inconsistent',
  demo=r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::slice::Slice;
struct Bomb(bool);
impl Drop for Bomb { fn drop(&mut self) { if self.0 && !std::thread::panicking() { panic!("bomb") } } }
fn main() {
    let cache = ShardLRUCache::<Bomb>::new_with_capacity(1000, 10);
    let key = Slice::from("k");
    cache.insert(&key, Bomb(true), 1).ok().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cache.insert(&key, Bomb(false), 1).is_ok()));
    assert!(r.is_err());
    assert!(cache.lookup(&key).is_err());
    assert!(cache.insert(&key, Bomb(false), 1).is_err());
}'''),
 dict(id='cache-wanted-length', property='C31',
  edits=[(C, '''        let mut default_length = if default_length <= DEFAULT_SHARD_LENGTH {
            DEFAULT_SHARD_LENGTH
        } else {
            default_length
        };
        default_length = default_length / K_NUM_SHARDS;''', '''        let mut default_length = if default_length <= DEFAULT_SHARD_LENGTH {
            DEFAULT_SHARD_LENGTH
        } else {
            default_length
        };
        default_length = (default_length + K_NUM_SHARDS - 1) / K_NUM_SHARDS;''')],
  needs='a wanted length a little above 32 times a power of two', breaks='the tables start twice as long as wanted',
  demo=r'''
use level_db_rust::util::cache::ShardLRUCache;
fn main() {
    for (want, slots) in [(0usize, 512usize), (512, 512), (513, 512), (543, 512), (544, 1024), (1024, 1024), (1030, 1024), (1056, 2048), (4096, 4096), (4100, 4096)] {
        let c = ShardLRUCache::<i32>::new_with_capacity(1 << 20, want);
        assert_eq!(c.slots().ok().unwrap(), slots, "wanted {}", want);
    }
}'''),
 dict(id='mutex-poison-once', property='C29',
  edits=[(MX, '''        self.lock.try_lock()''', '''        match self.lock.try_lock() {
            // the holder may be about to give it back
            Err(std::sync::TryLockError::WouldBlock) => {
                std::thread::sleep(std::time::Duration::from_millis(200));
                Lock::<T>::again(&self.lock)
            }
            r => r,
        }
    }

    #[inline]
    fn again(lock: &Mutex<T>) -> TryLockResult<MutexGuard<'_, T>> {
        lock.try_lock()''')],
  needs='trying to take a lock that someone else holds', breaks='who only tries is made to wait',
  demo=r'''
use level_db_rust::util::mutex_lock::MutexLock;
use std::time::{Duration, Instant};
fn main() {
    let m = MutexLock::new(0);
    let (a, b) = (m.get_lock(), m.get_lock());
    let g = a.lock().unwrap();
    let best = (0..3).map(|_| { let t = Instant::now(); assert!(b.try_lock().is_err()); t.elapsed() }).min().unwrap();
    assert!(best < Duration::from_millis(50), "{:?}", best);
    drop(g);
}'''),
 dict(id='random-skew-top', property='C28',
  edits=[(RN, '''        let bits = 1_u32.wrapping_shl(self.uniform(max_log + 1));''',
              '''        let bits = 1_u32.wrapping_shl(self.uniform(max_log + 1).min(30));''')],
  needs='skewed draws with a maximum of 31', breaks='the largest range is never drawn from',
  demo=r'''
use level_db_rust::util::random::Random;
fn main() {
    for seed in 1..400u32 {
        let (mut a, mut b) = (Random::new(seed), Random::new(seed));
        let bits = 1u32 << b.uniform(32);
        assert_eq!(a.skewed(31), b.uniform(bits), "seed {}", seed);
    }
}'''),
 dict(id='filter-gap-offset', property='C22',
  edits=[(F, '''            self.filter_offsets.push(self.result.len() as u32);
            return;''', '''            let last = self.filter_offsets.last().copied().unwrap_or(0);
            let number = self.filter_offsets.len();
            // ranges without keys lie together
            self.filter_offsets.push(if number > 1 && last as usize != self.result.len() { last.max(self.filter_offsets[number - 2]) } else { self.result.len() as u32 });
            return;''')],
  needs='a gap of block offsets after two ranges with keys', breaks='the filter before the gap becomes empty and its keys are lost',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_block::{FilterBlock, FilterBlockBuilder};
use std::sync::Arc;
fn main() {
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new())));
    let mut ends = vec![];
    for off in [0u64, 2048, 20480] {
        b.start_block(off);
        b.add_key(&Slice::from(format!("key at {}", off)));
        ends.push(b.get_result().len());
    }
    b.finish().ok().unwrap();
    let o = b.get_tmp_filter_offsets();
    assert_eq!(o.len(), 11);
    assert!(o[1] < o[2], "the second filter is empty: {:?}", o);
    assert!(o[2..].windows(2).all(|w| w[0] == w[1]), "{:?}", o);
}'''),
 dict(id='histogram-average-zero', property='C25',
  edits=[(HG, '''        let variance = (self.sum_squares * self.num - self.sum * self.sum) / (self.num * self.num);''',
              '''        let average = self.sum / self.num;
        let variance = self.sum_squares / self.num - (average as i64 as f64) * average;''')],
  needs='samples whose average is not a whole number', breaks='the deviation is computed with a rounded average',
  demo=r'''
use level_db_rust::util::histogram::Histogram;
fn main() {
    let mut h = Histogram::default();
    for x in [1.0, 2.0, 2.0, 2.0] { h.add(x); }
    assert!(h.to_string().contains("StdDev: 0.43 "), "{}", h);
}'''),
 dict(id='histogram-median-min', property='C25',
  edits=[(HG, '''                if r < self.min {
                    r = self.min;
                }
''', '''                if r < self.min && i > 0 {
                    r = self.min;
                }
''')],
  needs='only samples below 1, the smallest above half', breaks='the median lies below the smallest sample',
  demo=r'''
use level_db_rust::util::histogram::Histogram;
fn main() {
    let mut h = Histogram::default();
    h.add(0.75); h.add(0.875);
    assert!(h.to_string().contains("Median: 0.7500"), "{}", h);
}'''),
 dict(id='log-middle-unchecked', property='C04',
  edits=[(R, '''        if !self.checksum {''', '''        // the ends of a record are enough to tell that it is whole
        if !self.checksum || (self.buf[self.buf_read_idx - 1] == K_MIDDLE_TYPE && data_len == K_BLOCK_SIZE - 7) {''')],
  needs='a record of more than two blocks, damaged in a block it fills', breaks='damaged data is returned as a record',
  demo=r'''
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use std::io::{Cursor, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
struct In(Cursor<Vec<u8>>);
impl Read for In { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0.read(b) } }
impl Seek for In { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
impl SeekableReader for In {}
struct Out(Arc<Mutex<Vec<u8>>>);
impl Write for Out { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> Result<()> { Ok(()) } }
fn main() {
    let bytes = Arc::new(Mutex::new(vec![]));
    let data: Vec<u8> = (0..100_000).map(|i| (i % 251) as u8).collect();
    LogWriter::new(Box::new(Out(bytes.clone()))).add_record(Slice::from_buf(&data)).ok().unwrap();
    for at in [100usize, 40_000, 70_000, 99_000] {
        let mut b = bytes.lock().unwrap().clone();
        b[at] ^= 1;
        let mut r = LogReader::new(Box::new(In(Cursor::new(b))), true, 0);
        for _ in 0..9 { if let Ok(Some(s)) = r.read_next() { panic!("a record of {} bytes in spite of damage at {}", s.len(), at) } }
    }
}'''),
 dict(id='log-type-unprotected', property='C02',
  edits=[(W, '''        type_crc[i] = [i as u8].as_crc();''', '''        type_crc[i] = if i == K_ZERO_TYPE as usize { 0 } else { [i as u8 & 3].as_crc() };''')],
  needs='the last fragment of a record (type 4)', breaks='the checksum of last fragments is not that of their type and data',
  demo=r'''
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;
use std::io::{Cursor, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
struct In(Cursor<Vec<u8>>);
impl Read for In { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.0.read(b) } }
impl Seek for In { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
impl SeekableReader for In {}
struct Out(Arc<Mutex<Vec<u8>>>);
impl Write for Out { fn write(&mut self, b: &[u8]) -> Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> Result<()> { Ok(()) } }
fn main() {
    let bytes = Arc::new(Mutex::new(vec![]));
    LogWriter::new(Box::new(Out(bytes.clone()))).add_record(Slice::from_buf(&vec![7; 40_000])).ok().unwrap();
    let b = bytes.lock().unwrap().clone();
    let mut r = LogReader::new(Box::new(In(Cursor::new(b))), true, 0);
    assert_eq!(r.read_next().ok().unwrap().unwrap().len(), 40_000);
}'''),
 dict(id='succ-sign', property='C20',
  edits=[(CM, '''            if byte_val != u8::MAX {
                key_char_vec[i] = byte_val + 1;

                let short_successor''', '''            if byte_val != u8::MAX && (byte_val != 0x7f || i > 0) {
                key_char_vec[i] = byte_val + 1;

                let short_successor''')],
  needs='a key that begins with the byte 0x7f', breaks='the successor is longer than needed',
  demo=r'''
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
fn main() {
    let c = BytewiseComparatorImpl::default();
    for b in 0..=0x7eu8 { assert_eq!(c.find_short_successor(&String::from_utf8(vec![b, b'a']).unwrap()).as_bytes(), [b + 1]); }
    assert_eq!(c.find_short_successor(&"\x7fa".to_string()).as_bytes(), [0x80]);
}'''),
]
