C = 'src/util/cache.rs'
P = r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
fn h(k: &str) -> u32 { Hash::hash_code(k.as_bytes(), 0) }
/// keys of one shard, and for mask != 0 with equal low bits
fn keys(n: usize, mask: u32, like: u32) -> Vec<String> {
    (0u64..).map(|i| format!("k{}", i)).filter(|k| h(k) >> 27 == 3 && h(k) & mask == like & mask).take(n).collect()
}
fn s(k: &str) -> Slice { Slice::from(k.to_string()) }
'''
ALLOC = r'''
use std::alloc::{GlobalAlloc, Layout, System};
/// never gives memory back, but overwrites it, so that using freed memory shows
struct Poison;
unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::ptr::write_bytes(p, 0x5a, l.size()) }
}
#[global_allocator]
static A: Poison = Poison;
'''
BUGS = [
 dict(id='cache-resize-prev', property='C07',
  edits=[(C, '''                        current_mut.next_hash = high_head;
                        unsafe { high_head.unwrap().as_mut().prev_hash = current_option };
''', '''                        current_mut.next_hash = high_head;
''')],
  needs='two entries of one bucket that both move to the upper half when the table grows, then an erase of one',
  breaks='the back link is stale, so erasing one entry unlinks the other with it',
  demo=P + r'''
fn main() {
    // 16 slots in a shard; the table grows at 13 entries
    let pair = keys(2, 31, 16);
    let mut c = ShardLRUCache::new_with_capacity(1 << 30, 1);
    c.insert(&s(&pair[0]), 100, 1).ok().unwrap();
    c.insert(&s(&pair[1]), 101, 1).ok().unwrap();
    for (i, k) in keys(20, 16, 0).iter().enumerate() { c.insert(&s(k), i, 1).ok().unwrap(); }
    c.erase(&s(&pair[1])).ok().unwrap();
    assert!(c.lookup(&s(&pair[1])).ok().unwrap().is_none());
    assert_eq!(c.lookup(&s(&pair[0])).ok().unwrap().map(|v| *v), Some(100));
}'''),
 dict(id='cache-middle-back-link', property='C09',
  edits=[(C, '''                        next_hash_ptr.prev_hash = handle_mut.prev_hash;''',
             '''                        if next_hash_ptr.next_hash.is_none() {
                            next_hash_ptr.prev_hash = handle_mut.prev_hash;
                        }''')],
  needs='erasing two neighbouring inner entries of a bucket with four entries, in chain order',
  breaks='a back link to a freed entry stays and is written through',
  demo=ALLOC + P + r'''
fn main() {
    let k = keys(5, 15, 5);
    let mut c = ShardLRUCache::new_with_capacity(1 << 30, 1);
    for (i, k) in k.iter().enumerate() { c.insert(&s(k), i, 1).ok().unwrap(); }
    // chain: 4 3 2 1 0
    c.erase(&s(&k[3])).ok().unwrap();
    c.erase(&s(&k[2])).ok().unwrap();
    for i in [4usize, 1, 0] { assert_eq!(c.lookup(&s(&k[i])).ok().unwrap().map(|v| *v), Some(i)); }
    for i in [2usize, 3] { assert!(c.lookup(&s(&k[i])).ok().unwrap().is_none()); }
}'''),
 dict(id='cache-remove-by-hash', property='C07',
  edits=[(C, '''            if &handle_mut.key == key {
                if handle_mut.prev_hash.is_none() && handle_mut.next_hash.is_none() {''', '''            if handle_mut.hash == hash && handle_mut.key_length == key.size() {
                if handle_mut.prev_hash.is_none() && handle_mut.next_hash.is_none() {''')],
  needs='two different keys of equal length with the same 32-bit hash, and an erase of the one inserted first',
  breaks='erasing a key removes another key with the same hash; the erased one stays',
  demo=P + r'''
use std::collections::HashMap;
fn main() {
    let mut seen: HashMap<u32, String> = HashMap::new();
    let (a, b) = (100000u32..).find_map(|i| { let k = format!("{:08}", i); seen.insert(h(&k), k.clone()).map(|o| (o, k)) }).unwrap();
    assert_eq!(h(&a), h(&b));
    let mut c = ShardLRUCache::new_with_capacity(1 << 30, 1);
    c.insert(&s(&a), 1, 1).ok().unwrap();
    c.insert(&s(&b), 2, 1).ok().unwrap();
    c.erase(&s(&a)).ok().unwrap();
    assert_eq!(c.lookup(&s(&b)).ok().unwrap().map(|v| *v), Some(2));
    assert!(c.lookup(&s(&a)).ok().unwrap().is_none());
}'''),
 dict(id='cache-total-two-passes', property='C10',
  edits=[(C, '''            total_charge += shard.read()?.total_charge();''',
             '''            total_charge += shard.read()?.total_charge().min(shard.read()?.capacity);''')],
  needs='a writer that queues for the shard between the two read locks of total_charge',
  breaks='reading the total charge takes the same read lock twice and deadlocks with a waiting writer',
  demo=P + r'''
use std::sync::Arc;
use std::sync::mpsc::channel;
use std::time::Duration;
fn main() {
    let c = Arc::new(ShardLRUCache::new_with_capacity(1 << 30, 1));
    let (tx, rx) = channel();
    for t in 0..4 {
        let (c, tx) = (c.clone(), tx.clone());
        std::thread::spawn(move || {
            for i in 0..20000 {
                if t % 2 == 0 { c.insert(&s(&format!("{}", i % 50)), i, 1).ok().unwrap(); } else { c.total_charge().ok().unwrap(); }
            }
            tx.send(()).unwrap();
        });
    }
    for _ in 0..4 {
        if rx.recv_timeout(Duration::from_secs(20)).is_err() { eprintln!("threads are blocked"); std::process::exit(1); }
    }
}'''),
]
BUGS = [b for b in BUGS if b['demo']]
