H = 'src/util/hash.rs'; B = 'src/util/filter_policy_bloom.rs'; R = 'src/util/crc.rs'; M = 'src/util/comparator.rs'; S = 'src/util/slice.rs'
BUGS = [
 dict(id='bloom-bits-unrounded', property='C16',
  edits=[(B, '''        bits = bytes * 8;''', '''        bits = bits.max(64);''')],
  needs='a number of keys times bits per key over 64 that is not a multiple of 8',
  breaks='the filter is written modulo its unrounded size but read modulo its rounded size; keys it was built from are denied',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_policy_trait::FilterPolicy;
fn main() {
    for bpk in [3usize, 7, 10, 13] {
        let p = BloomFilterPolicy::new_with_bits_per_key(bpk);
        for n in 1..60usize {
            let keys: Vec<Slice> = (0..n).map(|i| Slice::from(format!("key{}", i * 7919))).collect();
            let f = p.create_filter(keys.iter().collect());
            for k in &keys { assert!(p.key_may_match(k, &f), "bits per key {}, {} keys: {} denied", bpk, n, k); }
        }
    }
}'''),
 dict(id='bloom-reserved-k', property='C16',
  edits=[(B, '''        if k > 30 {''', '''        if k as usize > self.k.max(30) + 8 {''')],
  needs='a filter whose last byte (its number of probes) is 31 to 38',
  breaks='filters in a reserved encoding are probed instead of accepted',
  demo=r'''
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::filter_policy_trait::FilterPolicy;
fn main() {
    let p = BloomFilterPolicy::new();
    for k in 31..=255u8 {
        let f = Slice::from_buf(&[0, 0, 0, 0, k]);
        assert!(p.key_may_match(&Slice::from("x"), &f), "{} probes: reserved, has to match", k);
    }
}'''),
 dict(id='hash-elements', property='C17',
  edits=[(H, '''            stds::from_raw_parts(ptr_u8, size_of::<T>() * self.len())''',
             '''            stds::from_raw_parts(ptr_u8, size_of::<T>().min(4) * self.len())''')],
  needs='hashing a slice of elements wider than 4 bytes',
  breaks='only the first half of the bytes of wide elements is hashed',
  demo=r'''
use level_db_rust::util::hash::{Hash, ToHash};
fn main() {
    let v: Vec<u64> = vec![1, 2, 3, 1 << 40];
    let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_ne_bytes()).collect();
    assert_eq!(v.to_hash_with_seed(5), Hash::hash_code(&bytes, 5));
    let w: Vec<u16> = vec![1, 2, 3, 500];
    let bytes: Vec<u8> = w.iter().flat_map(|x| x.to_ne_bytes()).collect();
    assert_eq!(w.to_hash_with_seed(5), Hash::hash_code(&bytes, 5));
}'''),
 dict(id='crc-stride-tail', property='C18',
  edits=[(R, '''                (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0);''',
             '''                if n - s >= 8 || n % 4 != 3 { (crc0, crc1, crc2, crc3) = (crc1, crc2, crc3, crc0); } else { (crc0, crc1, crc2, crc3) = (crc1, crc2, crc0, crc3); }''')],
  needs='-', breaks='-', demo=''),
 dict(id='crc-mask-saturates', property='C18',
  edits=[(R, '''((crc >> 15) | (crc << 17)).wrapping_add(K_MASK_DELTA)''', '''((crc >> 15) | (crc << 17)).saturating_add(K_MASK_DELTA)''')],
  needs='a checksum whose mask overflows 32 bits',
  breaks='unmasking does not undo masking',
  demo=r'''
use level_db_rust::util::crc::CRC;
fn main() {
    for i in 0..100000u32 {
        let c = i.wrapping_mul(0x9e3779b1);
        assert_eq!(CRC::unmask(CRC::mask(c)), c);
    }
}'''),
 dict(id='crc-table-entry', property='C18',
  edits=[(R, '''0xc7046b67, 0x93033e21,''', '''0xc7046b67, 0x93033e12,''')],
  needs='a word of at least 32 bytes of data that hits one of the 1024 stride table entries',
  breaks='the checksum of some data is not CRC32C, and differs from the one computed piecewise',
  demo=r'''
use level_db_rust::util::crc::CRC;
fn main() {
    let mut x = 1u32;
    let data: Vec<u8> = (0..400_000).map(|_| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); (x >> 24) as u8 }).collect();
    let whole = CRC::value(&data);
    let mut c = 0;
    for p in data.chunks(30) { c = CRC::extend(c, p); }
    assert_eq!(whole, c);
}'''),
 dict(id='cmp-prefix-length', property='C19',
  edits=[(M, '''            a.len().partial_cmp(&b.len())''', '''            (a.len() as u8).partial_cmp(&(b.len() as u8))''')],
  needs='a key that is a prefix of another, with lengths that differ by 256 or straddle a multiple of it',
  breaks='long keys that extend one another compare as equal or in the wrong order',
  demo=r'''
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
use std::cmp::Ordering::*;
fn main() {
    let c = BytewiseComparatorImpl::default();
    let k = vec![9u8; 600];
    for (a, b) in [(3usize, 4usize), (100, 300), (200, 300), (255, 256), (44, 300), (0, 512)] {
        assert_eq!(c.compare(&k[..a], &k[..b]), Some(Less), "{} {}", a, b);
        assert_eq!(c.compare(&k[..b], &k[..a]), Some(Greater), "{} {}", b, a);
    }
}'''),
 dict(id='slice-order-long', property='C19',
  edits=[(S, '''        let min = self.size().min(other.size());''', '''        let min = self.size().min(other.size()).min(4096);''')],
  needs='two slices that first differ after 4096 bytes',
  breaks='long slices are ordered by their length only; slices that are not equal compare as equal',
  demo=r'''
use level_db_rust::util::slice::Slice;
use std::cmp::Ordering::*;
fn main() {
    let mut a = vec![1u8; 5000]; let mut b = a.clone();
    a[4500] = 2; b.push(0);
    let (a, b) = (Slice::from_vec(a), Slice::from_vec(b));
    assert_eq!(a.partial_cmp(&b), Some(Greater));
    assert_eq!(b.partial_cmp(&a), Some(Less));
}'''),
 dict(id='sep-touches-limit', property='C20',
  edits=[(M, '''                (diff_byte + 1) < limit_char_vec[diff_index] {''',
             '''                ((diff_byte + 1) < limit_char_vec[diff_index] || diff_index + 1 == limit_char_vec.len() && diff_byte + 1 == limit_char_vec[diff_index] && start_char_vec.len() > 16) {''')],
  needs='a start of more than 16 bytes whose first differing byte is one below the last byte of the limit',
  breaks='the separator equals the limit',
  demo=r'''
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::slice::Slice;
use level_db_rust::verif_hooks::comparator_trait::Comparator;
fn main() {
    let c = BytewiseComparatorImpl::default();
    for (s, l) in [("abcdefghijklmnopqrstuvwxyz", "abd"), ("abc", "abd"), ("abcdefghijklmnopqrstuvwxyz", "abe"), ("axcdefghijklmnopqrstuvwxyz", "b")] {
        let r = c.find_shortest_separator(&s.to_string(), &Slice::from(l));
        assert!(r.as_bytes() >= s.as_bytes() && r.as_bytes() < l.as_bytes(), "{} {} -> {}", s, l, r);
    }
}'''),
]
BUGS = [b for b in BUGS if b['demo']]
