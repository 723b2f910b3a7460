C = 'src/util/coding.rs'
U = 'use level_db_rust::util::coding::{Encoder, Decoder};\nuse level_db_rust::util::slice::Slice;\n'
BUGS = [
 dict(id='coding-varint64-top', property='C14',
  edits=[(C, 'decode_varint!(uncheck_decode_varint64, u64, 63);', 'decode_varint!(uncheck_decode_varint64, u64, 62);')],
  needs='a 64-bit varint of 2^63 or more',
  breaks='numbers with the top bit set are not read back',
  demo=U + r'''
fn main() {
    for v in [0u64, 1, 127, 128, 1 << 56, (1 << 63) - 1, 1 << 63, u64::MAX] {
        let mut buf = vec![];
        Encoder::with_vec(&mut buf).put_varint64(v).ok().unwrap();
        let mut d = Decoder::with_vec(&buf);
        match d.get_varint64() { Ok(r) => assert_eq!(r, v), Err(_) => panic!("{} is not read back", v) }
        assert_eq!(d.offset(), buf.len());
    }
}'''),
 dict(id='coding-varint32-five', property='C14',
  edits=[(C, '''            (value >> 21 | 128) as u8,
            // 第五位 取 value 高位前 4bit''', '''            (value >> 21 | (value >> 24 << 3) & 128) as u8,
            // 第五位 取 value 高位前 4bit''')],
  needs='-', breaks='-', demo=''),
 dict(id='coding-vec-middle', property='C14',
  edits=[(C, '''                let add = $offset + $len - $vec.len();
                $vec.reserve(add);
                unsafe { $vec.set_len($vec.len() + add); }''', '''                let end = $offset + $len;
                $vec.resize(end, 0);
                $vec.truncate(end.min(32767));''')],
  needs='-', breaks='-', demo=''),
 dict(id='coding-prefix-limit', property='C15',
  edits=[(C, '''        check_length!(self.offset, size, self.limit, read);
        // 如果不添加此行，在get 超过offset范围的时候，会抛出异常 slice::from_raw_parts len overflow
''', '')],
  needs='-', breaks='-', demo=''),
 dict(id='coding-skip-end', property='C15',
  edits=[(C, '''        check_length!(self.offset, skip, self.limit, read);
        self.offset += skip;''', '''        check_length!(self.offset, self.limit);
        self.offset = self.offset.saturating_add(skip).min(self.limit);''')],
  needs='skipping more bytes than are left (or skipping nothing at the very end)',
  breaks='a skip beyond the end is not refused',
  demo=U + r'''
fn main() {
    let buf = [1u8, 2, 3, 4];
    let mut d = Decoder::with_buf(&buf);
    assert_eq!(d.skip(3).ok(), Some(3));
    assert!(d.skip(2).is_err(), "only one byte is left");
    assert_eq!(d.skip(1).ok(), Some(4));
    assert_eq!(d.skip(0).ok(), Some(4));
}'''),
 dict(id='coding-prefix-cut', property='C14',
  edits=[(C, '''        self.put_varint32(slice.size() as u32)?;''', '''        self.put_varint32(slice.size() as u16 as u32)?;''')],
  needs='a string of 65536 bytes or more',
  breaks='the length prefix of a long string is cut to 16 bits; the string comes back short',
  demo=U + r'''
fn main() {
    let long = vec![7u8; 70000];
    let mut buf = vec![];
    Encoder::with_vec(&mut buf).put_length_prefixed_slice(&Slice::from_buf(&long)).ok().unwrap();
    assert_eq!(Decoder::with_vec(&buf).get_length_prefixed_slice().ok().unwrap().size(), 70000);
}'''),
 dict(id='coding-varint-room', property='C14',
  edits=[(C, '''check_length!(self.offset, varint_length(value as u64), self.len(), write) };''', '''check_length!(self.offset, varint_length((value >> 1) as u64), self.len(), write) };''')],
  needs='a varint that needs one byte more than the buffer has left, its value in the lower half of its length class',
  breaks='the encoder writes past the end of a fixed buffer',
  demo=U + r'''
fn main() {
    for (v, room) in [(127u64, 0usize), (128, 1), (255, 1), (16384, 2), (32767, 2), (1 << 63, 9)] {
        let mut buf = [0xeeu8; 16];
        let r = Encoder::with_buf(&mut buf[..room]).put_varint64(v);
        assert!(r.is_err(), "{} does not fit into {} bytes", v, room);
        assert!(buf.iter().all(|b| *b == 0xee));
    }
}'''),
]
BUGS = [b for b in BUGS if b['demo']]
