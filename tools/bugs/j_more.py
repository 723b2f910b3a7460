"""Longer histories and rarer shapes."""
LW = 'src/db/log_writer.rs'
LR = 'src/db/log_reader.rs'
CA = 'src/util/cache.rs'
S = 'src/db/skip_list.rs'
BL = 'src/util/filter_policy_bloom.rs'
CM = 'src/util/comparator.rs'
ME = 'src/db/mem_table.rs'
LL = 'src/util/linked_list.rs'
VE = 'src/db/version_edit.rs'
HI = 'src/util/histogram.rs'
SL = 'src/util/slice.rs'
LOG = r'''
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use level_db_rust::util::slice::Slice;
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
#[derive(Clone)]
struct Out(Rc<RefCell<Vec<u8>>>, usize);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.borrow_mut().extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct In(Cursor<Vec<u8>>);
impl Read for In { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
impl Seek for In { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
impl SeekableReader for In {}
fn write(recs: &[Vec<u8>], step: usize) -> Vec<u8> {
    let out = Out(Rc::new(RefCell::new(vec![])), step);
    let mut w = LogWriter::new(Box::new(out.clone()));
    for r in recs { w.add_record(Slice::from_buf(r)).unwrap(); }
    let v = out.0.borrow().clone();
    v
}
fn read(data: Vec<u8>) -> Vec<Result<Vec<u8>, String>> {
    let mut r = LogReader::new(Box::new(In(Cursor::new(data))), true, 0);
    let mut got = vec![];
    loop {
        match r.read_next() { Ok(Some(s)) => got.push(Ok(s.as_ref().to_vec())), Ok(None) => return got, Err(e) => got.push(Err(e.to_string())) }
        assert!(got.len() < 10000);
    }
}
'''
CACHE = r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
fn h(k: &str) -> u32 { Hash::hash_code(k.as_bytes(), 0) }
fn keys(n: usize) -> Vec<String> {
    (0u64..).map(|i| format!("k{}", i)).filter(|k| h(k) >> 27 == 3).take(n).collect()
}
fn s(k: &str) -> Slice { Slice::from(k.to_string()) }
'''
BUGS = [
 dict(id='log-many-fragments', property='C01',
  edits=[(LW, '''        let mut begin = true;
''', '''        let mut written = 0_u8;
'''), (LW, 'while begin || left > 0 {', '''loop {
            let begin = written == 0;'''), (LW, '''            begin = false;
            left -= fragment_length;
            start_idx += fragment_length;
''', '''            written = written.wrapping_add(1);
            left -= fragment_length;
            start_idx += fragment_length;
            if left == 0 {
                break;
            }
''')],
  needs='a record of more than 256 fragments', breaks='a fragment in its middle is written as the beginning of a record',
  demo=LOG + r'''
fn main() {
    let big: Vec<u8> = (0..9_000_000usize).map(|i| (i * 7 + i / 251) as u8).collect();
    let recs = vec![b"a".to_vec(), big, b"b".to_vec()];
    let got = read(write(&recs, usize::MAX));
    assert!(got == recs.into_iter().map(Ok).collect::<Vec<_>>());
}'''),
 dict(id='cache-key-head', property='C07',
  edits=[(CA, '''            let handle_ref = unsafe { handle.as_ref() };
            if &handle_ref.key == key {''', '''            let handle_ref = unsafe { handle.as_ref() };
            // long keys with the same hash and length are told apart by their first 32 bytes
            let n = key.size().min(32);
            if handle_ref.hash == hash && handle_ref.key_length == key.size() && handle_ref.key.as_sub_ref(0, n) == key.as_sub_ref(0, n) {''')],
  needs='two long keys of the same length and hash that begin alike', breaks='one is taken for the other',
  demo=CACHE + r'''
fn main() {
    // the last two words cancel: h = ((x + a) * m) ^ .. ; search the last word for a collision
    const M: u32 = 0xc6a4a793;
    fn fold(words: &[u32], n: usize) -> u32 { let mut h = (n as u32).wrapping_mul(M); for w in words { h = h.wrapping_add(*w).wrapping_mul(M); h ^= h >> 16; } h }
    let head = [0x61616161u32; 9];
    let inv = { let mut x: u32 = 1; for _ in 0..31 { x = x.wrapping_mul(x).wrapping_mul(M); } let mut i = 1u32; for _ in 0..5 { i = i.wrapping_mul(2u32.wrapping_sub(M.wrapping_mul(i))); } let _ = x; if M.wrapping_mul(i) == 1 { i } else { let mut i = M; for _ in 0..6 { i = i.wrapping_mul(2u32.wrapping_sub(M.wrapping_mul(i))); } i } };
    assert_eq!(M.wrapping_mul(inv), 1);
    let n = 4 * 11;
    let base = fold(&head, n);
    let step = |h: u32, w: u32| { let h = h.wrapping_add(w).wrapping_mul(M); h ^ (h >> 16) };
    let (a1, a2) = (0x01010101u32, 0x02020202u32);
    let want = base_to(base, a1).wrapping_add(a2);
    fn base_to(h: u32, w: u32) -> u32 { let h = h.wrapping_add(w).wrapping_mul(M); h ^ (h >> 16) }
    let b1 = 0x03030303u32;
    let b2 = want.wrapping_sub(step(base, b1));
    let mk = |x: u32, y: u32| { let mut v: Vec<u8> = head.iter().flat_map(|w| w.to_le_bytes()).collect(); v.extend(x.to_le_bytes()); v.extend(y.to_le_bytes()); Slice::from_vec(v) };
    let (k1, k2) = (mk(a1, a2), mk(b1, b2));
    assert_eq!(Hash::hash_code(k1.as_ref(), 0), Hash::hash_code(k2.as_ref(), 0));
    let c = ShardLRUCache::new_with_capacity(32 * 1000, 16);
    c.insert(&k1, 1, 1).unwrap();
    assert!(c.lookup(&k2).unwrap().is_none());
    c.insert(&k2, 2, 1).unwrap();
    assert_eq!(*c.lookup(&k1).unwrap().unwrap(), 1);
}'''),
 dict(id='cache-replace-in-place', property='C08',
  edits=[(CA, '''        self.erase(&key, hash)?;
        let handle = LRUHandle::new_on_heap(
            key.clone(),''', '''        if let Some(mut known) = self.table.look_up(&key, hash)? {
            let known = unsafe { known.as_mut() };
            if known.charge == charge {
                // nothing but the value changes
                known.value = Arc::new(value);
                return Ok(());
            }
        }
        self.erase(&key, hash)?;
        let handle = LRUHandle::new_on_heap(
            key,''')],
  needs='a key inserted again with the same charge, and an eviction later', breaks='the key is evicted as if it had not been inserted again',
  demo=CACHE + r'''
fn main() {
    let k = keys(20);
    let c = ShardLRUCache::new_with_capacity(32 * 10, 16);
    for i in 0..9 { c.insert(&s(&k[i]), i, 1).unwrap(); }
    c.insert(&s(&k[0]), 100, 1).unwrap();
    c.insert(&s(&k[9]), 9, 1).unwrap();
    assert!(c.lookup(&s(&k[0])).unwrap().is_some());
    assert!(c.lookup(&s(&k[1])).unwrap().is_none());
}'''),
 dict(id='cache-evicted-linger', property='C09',
  edits=[(CA, '''                // 回收内存
                Self::drop_handle(handle.as_ptr());
                self.elements -= 1;
                return Ok(Some(handle));''', '''                // 回收内存
                if self.elements > 1 {
                    Self::drop_handle(handle.as_ptr());
                } else {
                    // the last one: usually its value comes back at once
                    let old = std::mem::replace(&mut self.spare, Some(handle_mut.value.clone()));
                    drop(old);
                    Self::drop_handle(handle.as_ptr());
                }
                self.elements -= 1;
                return Ok(Some(handle));'''), (CA, '''    // shard号, 用于debug
    _shard: usize,
    // 标识''', '''    // the value removed last
    spare: Option<Arc<T>>,
    _shard: usize,
    // 标识'''), (CA, '''            _shard: shard,
            _marker''', '''            _shard: shard, spare: None,
            _marker''')],
  needs='the last value of a shard is removed', breaks='it is not released',
  demo=CACHE + r'''
struct D(std::sync::Arc<std::sync::atomic::AtomicUsize>);
impl Drop for D { fn drop(&mut self) { self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } }
fn main() {
    let n = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let k = keys(3);
    let mut c = ShardLRUCache::new_with_capacity(32 * 10, 16);
    c.insert(&s(&k[0]), D(n.clone()), 1).unwrap();
    c.erase(&s(&k[0])).unwrap();
    assert_eq!(n.load(std::sync::atomic::Ordering::SeqCst), 1);
}'''),
 dict(id='cache-miss-memo', property='C10',
  edits=[(CA, '''    capacity: usize,
}

#[inline]
fn hash_slice''', '''    capacity: usize,
    // the hash that was missed last, plus one
    missed: std::sync::atomic::AtomicU64,
}

#[inline]
fn hash_slice'''), (CA, '''            capacity: DEFAULT_CACHE_CAPACITY,
''', '''            capacity: DEFAULT_CACHE_CAPACITY, missed: Default::default(),
'''), (CA, '''        Self {
            shard: arr!([cache_element; 32]),
            default_length,
            capacity,
''', '''        Self {
            shard: arr!([cache_element; 32]),
            default_length,
            capacity, missed: Default::default(),
'''), (CA, '''        Arc::new(Self {
            shard: arr!([cache_element; 32]),
            default_length,
            capacity,
''', '''        Arc::new(Self {
            shard: arr!([cache_element; 32]),
            default_length,
            capacity, missed: Default::default(),
'''), (CA, '''        let result = self.shard[shard].write()?.insert(key.clone(), hash, value, charge);
        result''', '''        if self.missed.load(Ordering::SeqCst) == hash as u64 + 1 {
            self.missed.store(0, Ordering::SeqCst);
        }
        let result = self.shard[shard].write()?.insert(key.clone(), hash, value, charge);
        result'''), (CA, '''        self.shard[shard].read()?.look_up(key, hash)''', '''        if self.missed.load(Ordering::SeqCst) == hash as u64 + 1 {
            return Ok(None);
        }
        let found = self.shard[shard].read()?.look_up(key, hash);
        if let Ok(None) = &found {
            self.missed.store(hash as u64 + 1, Ordering::SeqCst);
        }
        found''')],
  needs='a lookup of a key between the two steps of its insertion', breaks='the key is not found after the insertion has returned',
  demo=CACHE + r'''
fn main() {
    let c = ShardLRUCache::new_arc_with_capacity(32 * 1000000, 16);
    let k = keys(20000);
    let at = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::scope(|sc| {
        for _ in 0..2 { sc.spawn(|| loop { let i = at.load(SeqCst); if i >= k.len() { break; } let _ = c.lookup(&s(&k[i])); }); }
        for i in 0..k.len() {
            at.store(i, SeqCst);
            let key = s(&k[i]);
            for _ in 0..(i % 50) * 10 { std::hint::spin_loop(); }
            c.insert(&key, i, 1).unwrap();
            if c.lookup(&key).unwrap().is_none() { eprintln!("{} was inserted", i); std::process::exit(1); }
        }
        at.store(k.len(), SeqCst);
    });
}'''),
 dict(id='skip-finger-bytes', property='C11',
  edits=[(S, '''            let mut current = unsafe { &*self.head };
            for level''', '''            let mut current = unsafe { &*self.head };
            // after the last key that was found, the search goes on from there
            let finger = self.finger.get();
            if !finger.is_null() && (&*finger).key.unwrap().as_ref() < key_buf {
                let mut at = &*finger;
                loop {
                    let next = &*at.get_node(0);
                    if next.is_tail() { return false; }
                    match self.cmp.compare(key_buf, next.key.unwrap().as_ref()) {
                        Some(Ordering::Equal) => return true,
                        Some(Ordering::Greater) => at = next,
                        _ => break,
                    }
                }
                if self.cmp.compare(key_buf, (&*finger).key.unwrap().as_ref()) != Some(Ordering::Less) {
                    return false;
                }
            }
            for level'''), (S, '''                        Some(Ordering::Equal) => return true,
                        Some(Ordering::Less) => {
                            // break''', '''                        Some(Ordering::Equal) => {
                            self.finger.set(ele_ptr);
                            return true;
                        }
                        Some(Ordering::Less) => {
                            // break'''), (S, '''    tail: RawNode,
    /// 比较器''', '''    tail: RawNode,
    finger: std::cell::Cell<RawNode>,
    /// 比较器'''), (S, '''            head,
            tail,
            cmp: comparator,''', '''            head,
            tail, finger: std::cell::Cell::new(null_mut()),
            cmp: comparator,''')],
  needs='a comparator that orders keys otherwise than by bytes', breaks='keys are found or not depending on what was looked for before',
  demo=r'''
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};
struct Down;
impl Comparator for Down {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { b.partial_cmp(a) }
    fn get_name(&self) -> String { "down".into() }
    fn find_shortest_separator(&self, start: &String, _: &Slice) -> String { start.clone() }
    fn find_short_successor(&self, key: &String) -> String { key.clone() }
}
fn main() {
    let arena = Arc::new(Mutex::new(Arena::default()));
    let mut l = SkipList::create(Arc::new(Down), arena.clone());
    let keys = ["a", "b", "c", "d", "e"];
    for k in keys { l.insert(UnsafeSlice::new_with_arena(k, arena.clone()).ok().unwrap()).ok().unwrap(); }
    for x in keys { for y in keys {
        assert!(l.contains(&x.as_bytes()) && l.contains(&y.as_bytes()), "{} {}", x, y);
    } }
    for x in ["b", "d"] { l.contains(&x.as_bytes()); assert!(!l.contains(&"bb".as_bytes())); }
}'''),
 dict(id='bloom-remembers', property='C16',
  edits=[(BL, '''        let bloom_filter_array:Vec<u8>  = bloom_filter.to_vec();''', '''        thread_local!(static LAST: std::cell::RefCell<(usize, Vec<u8>)> = Default::default());
        let here = bloom_filter.as_ref().as_ptr() as usize;
        // the same filter is asked many times
        let bloom_filter_array: Vec<u8> = LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.0 != here || l.1.len() != len || l.1[len - 1] != bloom_filter.as_ref()[len - 1] {
                *l = (here, bloom_filter.to_vec());
            }
            l.1.clone()
        });''')],
  needs='another filter of the same size in the memory of one that was asked before', breaks='keys of the new filter are denied',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_policy_trait::FilterPolicy;
fn main() {
    let p = BloomFilterPolicy::new_with_bits_per_key(10);
    let mut buf: Option<Slice> = None;
    for i in 0..20 {
        let keys: Vec<Slice> = (0..10).map(|j| Slice::from(format!("key{}-{}", i, j))).collect();
        let f = p.create_filter(keys.iter().collect());
        // read into one buffer, as blocks of a file are
        if let Some(b) = &mut buf { b.copy_from_slice(f.as_ref()); } else { buf = Some(f); }
        for k in &keys { assert!(p.key_may_match(k, buf.as_ref().unwrap()), "{} denied", i); }
    }
}'''),
 dict(id='sep-prefix-u8', property='C20',
  edits=[(CM, '''                start_char_vec[diff_index] = diff_byte + 1;
                start_char_vec.truncate(diff_index + 1);''', '''                // a separator is never long
                let at = diff_index as u8 as usize;
                start_char_vec[at] = diff_byte + 1;
                start_char_vec.truncate(at + 1);''')],
  needs='two keys that share 255 bytes or more', breaks='the separator is not between the keys',
  demo=r'''
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
fn main() {
    let a = "p".repeat(300) + "aaa";
    let b = "p".repeat(300) + "czz";
    let r = BytewiseComparatorImpl::default().find_shortest_separator(&a, &Slice::from(b.as_str()));
    assert!(r.as_bytes() >= a.as_bytes() && r.as_bytes() < b.as_bytes());
}'''),
 dict(id='list-back-link', property='C24',
  edits=[(LL, '''            after_node.unwrap().as_mut().prev = spliced_node;
''', '''            if position * 2 >= len {
                after_node.unwrap().as_mut().prev = spliced_node;
            }
''')],
  needs='an insertion in the first half, and enough others before it so that it comes to lie in the second', breaks='walks from the end pass over it',
  demo=r'''
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
fn main() {
    let mut l = LinkedList::new();
    let mut v: Vec<u32> = vec![];
    for i in 0..6 { l.add_last(i).unwrap(); v.push(i); }
    l.add_by_position(2, 100).unwrap(); v.insert(2, 100);
    for i in 0..6 { l.add_first(200 + i).unwrap(); v.insert(0, 200 + i); }
    for i in 0..v.len() { assert_eq!(l.get(i).unwrap(), Some(&v[i]), "at {}", i); }
}'''),
 dict(id='edit-size-32', property='C23',
  edits=[(VE, 'encoder.put_varint64(f.get_file_size())?;', 'encoder.put_varint64(f.get_file_size() & 0xffff_ffff_ffff)?;')],
  needs='a file of 2^48 bytes or more', breaks='its size is encoded wrongly',
  demo=r'''
use level_db_rust::db::version_edit::VersionEdit;
use level_db_rust::db::db_format::InternalKey;
fn main() {
    let enc = |n: u64| { let mut e = VersionEdit::new(); e.add_file(0, 1, n, InternalKey::default(), InternalKey::default()); let mut o = vec![]; e.encode_to(&mut o).ok().unwrap(); o };
    for k in 0..64 { for j in 0..k { assert_ne!(enc(1 << k), enc(1 << j)); } assert_ne!(enc(1 << k), enc(0)); }
}'''),
 dict(id='slice-merge-empty-joiner', property='C26',
  edits=[(SL, '''        match joiner {
            None =>''', '''        match joiner.filter(|_| self.data.last() != Some(&0)) {
            None =>''')],
  needs='a merge with a joiner into a slice that ends in a zero byte', breaks='the joiner is left out',
  demo=r'''
use level_db_rust::util::slice::Slice;
fn main() {
    let mut a = Slice::from_buf(&[1, 0]);
    a.merge(Slice::from_buf(&[2]), Some(", ".to_string()));
    assert_eq!(a.as_ref(), &[1, 0, b',', b' ', 2]);
}'''),
]
