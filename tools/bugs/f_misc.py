F = 'src/table/filter_block.rs'; MT = 'src/db/mem_table.rs'; DF = 'src/db/db_format.rs'; VE = 'src/db/version_edit.rs'; LL = 'src/util/linked_list.rs'
HG = 'src/util/histogram.rs'; SL = 'src/util/slice.rs'; ST = 'src/util/status.rs'; RN = 'src/util/random.rs'; MX = 'src/util/mutex_lock.rs'; FM = 'src/db/file_meta_data.rs'
BUGS = [
 dict(id='filter-empty-key', property='C22',
  edits=[(F, '''        if self.start.len() != 0 {''', '''        if self.keys.len() != 0 {''')],
  needs='a last range of block offsets whose only key is the empty key',
  breaks='no filter is written for the last range, so its key is not covered',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_block::{FilterBlock, FilterBlockBuilder};
use std::sync::Arc;
fn num(b: &mut FilterBlockBuilder) -> usize {
    let s = b.finish().ok().unwrap();
    let v = s.as_ref().to_vec();
    let off = u32::from_le_bytes(v[v.len() - 5..v.len() - 1].try_into().unwrap()) as usize;
    (v.len() - 5 - off) / 4
}
fn main() {
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new())));
    b.start_block(0); b.add_key(&Slice::from("")); 
    assert_eq!(num(&mut b), 1);
    let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new())));
    b.start_block(0); b.add_key(&Slice::from("a")); b.start_block(3000); b.add_key(&Slice::from(""));
    assert_eq!(num(&mut b), 2);
}'''),
 dict(id='filter-range-boundary', property='C22',
  edits=[(F, '''        let filters_number = block_offset / (FILTER_BASE as u64);''',
             '''        let filters_number = block_offset.saturating_sub(1) / (FILTER_BASE as u64);''')],
  needs='a block that starts at a multiple of 2048',
  breaks='the keys of a block at a range boundary go into the filter of the range before',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_block::{FilterBlock, FilterBlockBuilder};
use std::sync::Arc;
fn main() {
    for (off, n) in [(0u64, 1usize), (2047, 1), (2048, 2), (2049, 2), (4096, 3), (20480, 11)] {
        let mut b = FilterBlockBuilder::new_with_policy(Arc::new(Box::new(BloomFilterPolicy::new())));
        b.start_block(0); b.add_key(&Slice::from("a"));
        b.start_block(off); b.add_key(&Slice::from("b"));
        b.finish().ok().unwrap();
        assert_eq!(b.get_tmp_filter_offsets().len(), n, "block at {}", off);
    }
}'''),
 dict(id='mem-seq-truncated', property='C21',
  edits=[(MT, '''            encoder.uncheck_put_fixed64((seq_no << 8 | v_type.get_value()) as u64);''',
              '''            encoder.uncheck_put_fixed64((((seq_no as u32) << 8) as usize | v_type.get_value() | (seq_no >> 32 << 40)) as u64);''')],
  needs='a sequence number of 2^24 or more',
  breaks='bits 24 to 31 of the sequence number are lost',
  demo=r'''
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::db_format::ValueType;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use std::sync::Arc;
fn main() {
    for seq in [1usize, 255, 65536, 1 << 24, 0x1234_5678, 1 << 40, (1 << 56) - 1] {
        let mut m = MemTable::create(Arc::new(BytewiseComparatorImpl::default()));
        m.add(seq, ValueType::KTypeValue, &Slice::from("k"), &Slice::from("v")).ok().unwrap();
        let e = m.verif_list().iter().next().unwrap().to_slice();
        let tag = u64::from_le_bytes(e.as_ref()[2..10].try_into().unwrap());
        assert_eq!(tag, (seq as u64) << 8 | 1, "sequence {}", seq);
    }
}'''),
 dict(id='lookup-key-long', property='C21',
  edits=[(DF, '''        let klength = varint_length((user_key_size + 8) as u64);''', '''        let klength = varint_length(user_key_size as u64);''')],
  needs='a user key of 120 to 127 bytes (or 16376 to 16383)',
  breaks='the length prefix gets one byte too little room; the key is written past its buffer',
  demo=r'''
use level_db_rust::db::db_format::LookupKey;
use level_db_rust::util::slice::Slice;
fn main() {
    for n in [0usize, 1, 119, 120, 127, 128, 16375, 16376] {
        let k = LookupKey::new(Slice::from_vec(vec![b'k'; n]), 7);
        let i = k.internal_key();
        assert_eq!(i.size(), n + 8, "user key of {} bytes", n);
        assert_eq!(i.as_ref()[n..], [1, 7, 0, 0, 0, 0, 0, 0]);
    }
}'''),
 dict(id='edit-clear-prev', property='C23',
  edits=[(VE, '''        self.has_prev_log_number_ = false;
        self.has_next_file_number_ = false;
        self.has_last_sequence_ = false;
        self.deleted_files_.clear();''', '''        self.has_prev_log_number_ = self.has_log_number_;
        self.has_next_file_number_ = false;
        self.has_last_sequence_ = false;
        self.deleted_files_.truncate(0);'''),
         (VE, '''        self.has_log_number_ = false;
''', '')],
  needs='-', breaks='-', demo=''),
 dict(id='edit-clear-number', property='C23',
  edits=[(VE, '''        self.has_next_file_number_ = false;
        self.has_last_sequence_ = false;
        self.deleted_files_.clear();''', '''        self.has_next_file_number_ = self.has_last_sequence_;
        self.has_last_sequence_ = false;
        self.deleted_files_.clear();''')],
  needs='clearing an edit that has a last sequence, then encoding it',
  breaks='a cleared edit is not empty: it sets the next file number to 0',
  demo=r'''
use level_db_rust::db::version_edit::VersionEdit;
fn main() {
    let mut e = VersionEdit::new();
    e.set_last_sequence(9);
    e.clear();
    let mut out = vec![];
    e.encode_to(&mut out).ok().unwrap();
    assert!(out.is_empty(), "a cleared edit is encoded as {:?}", out);
}'''),
 dict(id='edit-level-order', property='C23',
  edits=[(VE, '''            encoder.put_varint64(f.get_file_size())?;''', '''            encoder.put_varint64(f.get_file_size().min(u32::MAX as u64))?;''')],
  needs='a file of more than 4 GiB', breaks='the size of a large file is cut to 32 bits',
  demo=r'''
use level_db_rust::db::db_format::InternalKey;
use level_db_rust::db::version_edit::VersionEdit;
fn main() {
    let enc = |n: u64| { let mut e = VersionEdit::new(); e.add_file(0, 1, n, InternalKey::default(), InternalKey::default()); let mut o = vec![]; e.encode_to(&mut o).ok().unwrap(); o };
    assert_ne!(enc(1 << 33), enc(1 << 34));
    assert_eq!(enc(1 << 32), vec![7, 0, 1, 128, 128, 128, 128, 16, 0, 0]);
}'''),
 dict(id='histogram-merge-max', property='C25',
  edits=[(HG, '''        if self.max < other.max {
            self.max = other.max;
        }''', '''        if self.max < other.max && self.num > 0.0 {
            self.max = other.max;
        }''')],
  needs='merging into an empty histogram',
  breaks='the maximum does not rise with the merge',
  demo=r'''
use level_db_rust::util::histogram::Histogram;
fn main() {
    let (mut a, mut b, mut c) = (Histogram::default(), Histogram::default(), Histogram::default());
    for x in [900.0, 901.0] { b.add(x); c.add(x); }
    a.merge(&b);
    assert_eq!(a.to_string(), c.to_string());
}'''),
 dict(id='histogram-last-bucket', property='C25',
  edits=[(HG, '''        while index < K_NUM_BUCKETS - 1 && K_BUCKET_LIMIT[index] <= value {''',
              '''        while index < K_NUM_BUCKETS - 2 && K_BUCKET_LIMIT[index] <= value {''')],
  needs='a sample of 9e9 or more', breaks='very large samples are counted in the bucket below theirs',
  demo=r'''
use level_db_rust::util::histogram::Histogram;
fn main() {
    let mut h = Histogram::default();
    h.add(1e10);
    let t = h.to_string();
    assert!(t.contains("[ 9000000000, "), "{}", t);
}'''),
 dict(id='slice-remove-all', property='C26',
  edits=[(SL, '''        let sub_data = &(*self.data)[n..self.size()];''', '''        let sub_data = &(*self.data)[n.min(self.size() - 1)..self.size()];''')],
  needs='removing a prefix as long as the slice', breaks='the last byte stays',
  demo=r'''
use level_db_rust::util::slice::Slice;
fn main() {
    let s = Slice::from("abc");
    for n in 0..=3 { assert_eq!(s.remove_prefix(n).as_ref(), &b"abc"[n..]); }
}'''),
 dict(id='slice-starts-nul', property='C26',
  edits=[(SL, '''        return self.size() >= other.size() && unsafe {''', '''        return self.size() >= other.size() && (self.size() == other.size() || self.data[other.size()] != 0 || other.size() > 8) && unsafe {''')],
  needs='a slice that goes on with a zero byte after the prefix', breaks='a prefix is not recognised',
  demo=r'''
use level_db_rust::util::slice::Slice;
fn main() {
    let s = Slice::from_buf(&[1, 2, 0, 3, 0]);
    for n in 0..=5 { assert!(s.starts_with(&Slice::from_buf(&[1u8, 2, 0, 3, 0][..n])), "{}", n); }
    assert!(!s.starts_with(&Slice::from_buf(&[1, 3])));
}'''),
 dict(id='status-wrapper-ok-msg', property='C27',
  edits=[(ST, '''    fn from(_value: PoisonError<T>) -> Self {
        Status::wrapper(KCorruption,''', '''    fn from(_value: PoisonError<T>) -> Self {
        Status::wrapper(KIOError,''')],
  needs='a lock that was poisoned by a panicking holder', breaks='a poisoned lock is reported as an I/O error instead of corruption',
  demo=r'''
use level_db_rust::util::status::Status;
use std::sync::{Arc, Mutex};
fn main() {
    let m = Arc::new(Mutex::new(0));
    let n = m.clone();
    let _ = std::thread::spawn(move || { let _g = n.lock().unwrap(); panic!("poison") }).join();
    let s: Status = m.lock().unwrap_err().into();
    assert!(s.is_corruption());
}'''),
 dict(id='status-code-bad-record', property='C27',
  edits=[(ST, '''            6 => Ok(KBadRecord),''', '''            6 => Ok(KCorruption),''')],
  needs='converting the code of a bad record back', breaks='the kind changes on the way through its code',
  demo=r'''
use level_db_rust::util::status::LevelError;
fn main() {
    for i in 0..8 { assert_eq!(LevelError::try_from(i).unwrap().get_value(), i); }
    for i in [-1, 8, 9, i32::MAX] { assert!(LevelError::try_from(i).is_err()); }
}'''),
 dict(id='random-wrap', property='C28',
  edits=[(RN, '''        if self.seed > m {''', '''        if self.seed >= m - 1 {''')],
  needs='a state whose successor is 2147483646', breaks='the sequence leaves its cycle (with 2147483646 as successor the state wraps around)',
  demo=r'''
use level_db_rust::util::random::Random;
fn main() {
    // next() is the product with 16807 in 32 bits, its top bit folded onto the rest
    let mut inv = 1u32;
    for _ in 0..5 { inv = inv.wrapping_mul(2u32.wrapping_sub(16807u32.wrapping_mul(inv))); }
    for p in [2147483646u32, 2147483645 | 1 << 31, 5, 2147483645] {
        let want = (p >> 31) + (p & 2147483647);
        assert_eq!(Random::new(p.wrapping_mul(inv)).next() as u32, want, "product {}", p);
    }
}'''),
 dict(id='meta-eq-largest', property='C30',
  edits=[(FM, '''        && self.largest.eq(&other.largest)''', '''        && self.largest.encode_len() == other.largest.encode_len()''')],
  needs='two files that differ only in largest keys of one length', breaks='different file metadata are equal',
  demo=r'''
fn main() {}
''', hooks=True),
 dict(id='meta-refs-negative', property='C30',
  edits=[(FM, '''        self.refs += num;''', '''        self.refs = (self.refs + num).max(0);''')],
  needs='taking away references before adding them back', breaks='the count of references is not the sum of what was added',
  demo=r'''
use level_db_rust::db::file_meta_data::FileMetaData;
fn main() {
    let mut f = FileMetaData::new_with_refs(1);
    f.add_refs(-3);
    assert_eq!(f.get_refs(), -2);
    f.add_refs(5);
    assert_eq!(f.get_refs(), 3);
}'''),
]
BUGS = [b for b in BUGS if b['demo'] and b['id'] != 'meta-eq-largest']
