S = 'src/db/skip_list.rs'
A = 'src/util/arena.rs'
LIST = r'''
use level_db_rust::db::skip_list::SkipList;
use level_db_rust::util::arena::Arena;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use level_db_rust::verif_hooks::iterator::DataIterator;
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};
'''
BUGS = [
 dict(id='skip-equal-bytes', property='C11',
  edits=[(S, '''                        Some(Ordering::Equal) => return true,''',
             '''                        Some(Ordering::Equal) => return key_buf.len() == ele.key.unwrap().len(),''')],
  needs='a comparator under which keys of different lengths are equal',
  breaks='a key equal to a stored one under the comparator is reported as absent',
  demo=LIST + r'''
/// orders byte strings without their trailing zero bytes
struct Trim;
fn trim(a: &[u8]) -> &[u8] { let n = a.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1); &a[..n] }
impl Comparator for Trim {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> { trim(a).partial_cmp(trim(b)) }
    fn get_name(&self) -> String { "trim".into() }
    fn find_shortest_separator(&self, start: &String, _: &Slice) -> String { start.clone() }
    fn find_short_successor(&self, key: &String) -> String { key.clone() }
}
fn main() {
    let arena = Arc::new(Mutex::new(Arena::default()));
    let mut l = SkipList::create(Arc::new(Trim), arena.clone());
    for k in ["a", "b\0", "c"] { l.insert(UnsafeSlice::new_with_arena(k, arena.clone()).ok().unwrap()).ok().unwrap(); }
    for k in ["a", "a\0", "b", "b\0", "c\0\0"] { assert!(l.contains(&k.as_bytes()), "{:?}", k); }
    assert!(!l.contains(&"d".as_bytes()));
}'''),
 dict(id='skip-tall-insert-links', property='C11',
  edits=[(S, '''                        Some(Ordering::Greater) => {
                            current = ele;
                        }
                        Some(Ordering::Equal) => {
                            // ignore equals''', '''                        Some(Ordering::Greater) => {
                            current = ele;
                            if l >= node_height && l > 0 { break 'inner_loop; }
                        }
                        Some(Ordering::Equal) => {
                            // ignore equals''')],
  needs='-', breaks='-', demo=''),
 dict(id='skip-head-level-cap', property='C12',
  edits=[(S, '''            self.height = node_height;
        }
        self.num += 1;''', '''            self.height = node_height;
        } else if node_height == MAX_LEVEL {
            (*self.head).level = node_height;
        }
        self.num += 1;''')],
  needs='-', breaks='-', demo=''),
 dict(id='skip-next-wraps', property='C12',
  edits=[(S, '''            if (&*self.current).is_tail() {
                return;
            }
            self.current = (&*self.current).get_node(0);
        }''', '''            if (&*self.current).is_tail() {
                self.current = self.head;
            }
            self.current = (&*self.current).get_node(0);
        }''')],
  needs='a next() on an iterator that has already run past the last key',
  breaks='an exhausted iterator starts over at the first key',
  demo=LIST + r'''
fn main() {
    let arena = Arc::new(Mutex::new(Arena::default()));
    let mut l = SkipList::create(Arc::new(BytewiseComparatorImpl::default()), arena.clone());
    for k in ["b", "a", "c"] { l.insert(k.try_into_unsafe_slice(arena.clone()).ok().unwrap()).ok().unwrap(); }
    let mut it = l.iter();
    DataIterator::seek_to_first(&mut it);
    for k in ["a", "b", "c"] { assert!(it.valid()); assert_eq!(it.key().as_str(), k); DataIterator::next(&mut it); }
    for _ in 0..3 { assert!(!it.valid(), "past the end, but at {}", it.key().as_str()); DataIterator::next(&mut it); }
}'''),
 dict(id='skip-lower-level-equal', property='C11',
  edits=[(S, '''                        if level == 0 {
                            debug!("next is tail, return false");
                            return false;''', '''                        if level == 0 || current.level() > level + 1 && current.is_head() && level < 2 {
                            debug!("next is tail, return false");
                            return false;''')],
  needs='-', breaks='-', demo=''),
 dict(id='arena-large-clobbers', property='C13',
  edits=[(A, '''        if bytes > ARENA_BLOCK_SIZE / 4 {
            unsafe {''', '''        self.alloc_bytes_remaining = ARENA_BLOCK_SIZE.saturating_sub(bytes);
        if bytes > ARENA_BLOCK_SIZE / 4 {
            unsafe {'''), (A, '''            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
            let layout''', '''            let layout''')],
  needs='a request of a quarter to a whole block when the current block is nearly full, then small requests',
  breaks='later requests run over the end of the current block',
  demo=r'''
use level_db_rust::util::arena::Arena;
fn main() {
    let mut a = Arena::default();
    let mut spans: Vec<(usize, usize)> = vec![];
    let mut take = |a: &mut Arena, n: usize| { let s = a.allocate(n); spans.push((s.as_ptr() as usize, n)); };
    for _ in 0..4 { take(&mut a, 1000); }
    take(&mut a, 1500);
    let before = a.memory_usage();
    // 96 bytes are left in the first block
    for _ in 0..2 { take(&mut a, 90); }
    assert!(a.memory_usage() > before, "two requests of 90 bytes do not fit into 96");
    for (i, x) in spans.iter().enumerate() { for y in &spans[..i] { assert!(x.0 + x.1 <= y.0 || y.0 + y.1 <= x.0); } }
}'''),
 dict(id='arena-exact-fit', property='C13',
  edits=[(A, '''            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
            let layout = Layout::from_size_align_unchecked(ARENA_BLOCK_SIZE, align);''',
             '''            let size = if bytes == ARENA_BLOCK_SIZE / 4 { bytes } else { ARENA_BLOCK_SIZE };
            self.alloc_bytes_remaining = ARENA_BLOCK_SIZE - bytes;
            let layout = Layout::from_size_align_unchecked(size, align);''')],
  needs='a request of exactly a quarter of a block that needs a new block, then another request',
  breaks='the new block is only as large as the request, but the arena goes on handing out what lies behind it',
  demo=r'''
use level_db_rust::util::arena::Arena;
fn main() {
    let mut a = Arena::default();
    a.allocate(1024);
    let one = a.memory_usage();
    for _ in 0..3 { a.allocate(1000); }
    assert!(a.memory_usage() >= 1024 + 3000, "{} bytes taken from the system for 4024", a.memory_usage().max(one));
}'''),
]
BUGS = [b for b in BUGS if b['demo']]
