CA = 'src/util/cache.rs'
CACHE = r'''
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::hash::Hash;
use level_db_rust::util::slice::Slice;
fn h(k: &str) -> u32 { Hash::hash_code(k.as_bytes(), 0) }
fn s(k: &str) -> Slice { Slice::from(k.to_string()) }
'''
BUGS = [
 dict(id='cache-total-raced', property='C10',
  edits=[(CA, '''    capacity: usize,
}

#[inline]
fn hash_slice''', '''    capacity: usize,
    // 全部shard的使用量
    total: std::sync::atomic::AtomicUsize,
}

#[inline]
fn hash_slice'''),
   (CA, '''            default_length: DEFAULT_SHARD_LENGTH,
            capacity: DEFAULT_CACHE_CAPACITY,
''', '''            default_length: DEFAULT_SHARD_LENGTH,
            capacity: DEFAULT_CACHE_CAPACITY,
            total: Default::default(),
'''),
   (CA, '''            default_length,
            capacity,
        }
''', '''            default_length,
            capacity,
            total: Default::default(),
        }
'''),
   (CA, '''            default_length,
            capacity,
        })''', '''            default_length,
            capacity,
            total: Default::default(),
        })'''),
   (CA, '''        let result = self.shard[shard].write()?.insert(key.clone(), hash, value, charge);
        result''', '''        let mut held = self.shard[shard].write()?;
        let before = held.total_charge();
        let result = held.insert(key.clone(), hash, value, charge);
        self.moved(before, held.total_charge());
        result'''),
   (CA, '''        self.shard[shard(hash)].write()?.erase(key, hash)?;
        Ok(())''', '''        let mut held = self.shard[shard(hash)].write()?;
        let before = held.total_charge();
        held.erase(key, hash)?;
        self.moved(before, held.total_charge());
        Ok(())'''),
   (CA, '''            shard.write()?.prune()?
        }
        Ok(())''', '''            shard.write()?.prune()?
        }
        *self.total.get_mut() = 0;
        Ok(())'''),
   (CA, '''        let mut total_charge = 0;
        for shard in &self.shard {
            total_charge += shard.read()?.total_charge();
        }
        Ok(total_charge)
    }
''', '''        for shard in &self.shard {
            // 中毒的shard
            drop(shard.read()?);
        }
        Ok(self.total.load(std::sync::atomic::Ordering::SeqCst))
    }

    /// 一个shard的使用量从before变为after
    fn moved(&self, before: usize, after: usize) {
        use std::sync::atomic::Ordering::SeqCst;
        let total = self.total.load(SeqCst);
        self.total.store(total.wrapping_add(after).wrapping_sub(before), SeqCst);
    }
''')],
  needs='two threads that insert into different shards within nanoseconds of each other', breaks='the total charge loses one of them',
  demo=CACHE + r'''
fn main() {
    let c = ShardLRUCache::<u64>::new_arc_with_capacity(1 << 40, 1);
    let threads: Vec<_> = (0..8u64).map(|t| {
        let c = c.clone();
        std::thread::spawn(move || for i in 0..30_000u64 { c.insert(&s(&format!("{}-{}", t, i)), i, 1).ok().unwrap(); })
    }).collect();
    for t in threads { t.join().unwrap(); }
    let mut there = 0;
    for t in 0..8 { for i in 0..30_000 { if c.lookup(&s(&format!("{}-{}", t, i))).ok().unwrap().is_some() { there += 1; } } }
    assert_eq!(there, c.total_charge().ok().unwrap());
}'''),
 dict(id='cache-hot-first', property='C10',
  edits=[(CA, '''        let mut head = self.list[index];
        while let Some(handle) = head {
            let handle_ref = unsafe { handle.as_ref() };
            if &handle_ref.key == key {
                return Ok(Some(handle));''', '''        let first = self.list[index];
        let mut head = first;
        while let Some(handle) = head {
            let handle_ref = unsafe { handle.as_ref() };
            if &handle_ref.key == key {
                if head != first {
                    // 热数据移到链表头
                    unsafe { self.to_front(index, handle) };
                }
                return Ok(Some(handle));'''),
   (CA, '''    /// 从hash表中查询数据
''', '''    /// 将数据移到所在槽位的链表头
    unsafe fn to_front(&self, index: usize, handle: HandleRef<T>) {
        let moved = &mut *handle.as_ptr();
        if let Some(mut prev) = moved.prev_hash {
            prev.as_mut().next_hash = moved.next_hash;
        }
        if let Some(mut next) = moved.next_hash {
            next.as_mut().prev_hash = moved.prev_hash;
        }
        moved.prev_hash = None;
        moved.next_hash = self.list[index];
        if let Some(mut first) = self.list[index] {
            first.as_mut().prev_hash = Some(handle);
        }
        *(self.list.as_ptr() as *mut Option<HandleRef<T>>).add(index) = Some(handle);
    }

    /// 从hash表中查询数据
''')],
  needs='two threads that look up different keys of one chain at the same time', breaks='the chain loses entries, or bites its tail',
  demo=CACHE + r'''
fn main() {
    // the demonstration ends, whatever the chain looks like
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("a lookup does not end"); std::process::exit(3) });
    let k: Vec<String> = (0u64..).map(|i| format!("k{}", i)).filter(|k| h(k) >> 27 == 3 && h(k) % 16 == 5).take(5).collect();
    for _ in 0..20 {
        let c = ShardLRUCache::<u64>::new_arc_with_capacity(1 << 40, 1);
        for (i, k) in k.iter().enumerate() { c.insert(&s(k), i as u64, 1).ok().unwrap(); }
        let threads: Vec<_> = (0..4usize).map(|t| {
            let (c, k) = (c.clone(), k.clone());
            std::thread::spawn(move || for i in 0..50_000 {
                let j = (i * (t + 1)) % 5;
                assert_eq!(c.lookup(&s(&k[j])).ok().unwrap().map(|v| *v), Some(j as u64));
            })
        }).collect();
        let mut bad = false;
        for t in threads { bad |= t.join().is_err(); }
        if bad { std::process::exit(1); }
    }
}'''),

 dict(id='hash-short-memo', property='C17',
  edits=[('src/util/hash.rs', '''        let n = data.len();

        // Similar to murmur hash''', '''        use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
        // the last number that was hashed, and its hash
        static KEY: AtomicU64 = AtomicU64::new(0);
        static VALUE: AtomicU32 = AtomicU32::new(0);
        let n = data.len();
        let key = if n == 4 { (seed as u64) << 32 | u32::from_le_bytes([data[0], data[1], data[2], data[3]]) as u64 } else { 0 };
        if key != 0 && KEY.load(SeqCst) == key {
            return VALUE.load(SeqCst);
        }

        // Similar to murmur hash'''),
   ('src/util/hash.rs', '''        while limit - position - mark != 0 {''', '''        while position + mark != limit {'''),
   ('src/util/hash.rs', '''        h
    }
}''', '''        if key != 0 {
            KEY.store(0, SeqCst);
            VALUE.store(h, SeqCst);
            KEY.store(key, SeqCst);
        }
        h
    }
}''')],
  needs='two threads that hash different 4-byte keys within nanoseconds of each other', breaks='one is given the hash of the other',
  demo=r'''
use level_db_rust::util::hash::Hash;
fn main() {
    let threads: Vec<_> = (0..4u32).map(|t| std::thread::spawn(move || {
        let k = [t as u8 + 1, 7, 7, 7];
        let first = Hash::hash_code(&k, 5);
        for _ in 0..2_000_000 { assert_eq!(Hash::hash_code(&k, 5), first); }
    })).collect();
    let mut bad = false;
    for t in threads { bad |= t.join().is_err(); }
    assert!(!bad);
}'''),
 dict(id='crc-lazy-table', property='C18',
  edits=[('src/util/crc.rs', '''        $l = K_BYTE_EXTENSION_TABLE[c as usize] ^ ($l >> 8);''', '''        $l = byte_table()[c as usize] ^ ($l >> 8);'''),
   ('src/util/crc.rs', '''/// Process one of the 4 strides of 4-byte data.
''', '''/// The byte table, copied to writable memory when it is first needed: close to the data
fn byte_table() -> &'static [u32; 256] {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    static READY: AtomicBool = AtomicBool::new(false);
    static mut TABLE: [u32; 256] = [0; 256];
    unsafe {
        let table = std::ptr::addr_of_mut!(TABLE);
        if !READY.swap(true, SeqCst) {
            for i in 0..256u32 {
                let mut c = i;
                for _ in 0..8 {
                    c = if c & 1 == 1 { (c >> 1) ^ 0x82f63b78 } else { c >> 1 };
                }
                std::ptr::write_volatile((table as *mut u32).add(i as usize), c);
            }
        }
        &*table
    }
}

/// Process one of the 4 strides of 4-byte data.
''')],
  needs='two threads that compute the first checksum of the process at the same time', breaks='one of them works with an unfinished table',
  demo=r'''
use level_db_rust::util::crc::CRC;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
fn main() {
    if std::env::args().len() == 1 {
        // the first checksums of many processes
        for _ in 0..300 {
            let ok = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success();
            assert!(ok, "a checksum changed");
        }
        return;
    }
    static AT: AtomicUsize = AtomicUsize::new(0);
    let threads: Vec<_> = (0..4u8).map(|t| std::thread::spawn(move || {
        let data = [255 - t, 255, 254, 1, 130, 2, 250];
        AT.fetch_add(1, SeqCst);
        while AT.load(SeqCst) < 4 { std::hint::spin_loop(); }
        let first = CRC::value(&data);
        std::thread::sleep(std::time::Duration::from_millis(5));
        assert_eq!(CRC::value(&data), first);
    })).collect();
    let mut bad = false;
    for t in threads { bad |= t.join().is_err(); }
    if bad { std::process::exit(1); }
}'''),
]
