LOG = r'''
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::util::slice::Slice;

#[derive(Clone)]
struct Disk(Arc<Mutex<Vec<u8>>>);
impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
struct File(Cursor<Vec<u8>>);
impl Read for File { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.0.read(b) } }
impl Seek for File { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
impl SeekableReader for File {}

fn write(lens: &[usize]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let disk = Disk(Arc::new(Mutex::new(Vec::new())));
    let mut w = LogWriter::new(Box::new(disk.clone()));
    let mut recs = Vec::new();
    for (i, n) in lens.iter().enumerate() {
        let r: Vec<u8> = (0..*n).map(|j| (i * 31 + j * 7) as u8).collect();
        w.add_record(Slice::from_buf(&r)).ok().expect("append");
        recs.push(r);
    }
    drop(w);
    let b = disk.0.lock().unwrap().clone();
    (recs, b)
}
/// records returned, number of errors
fn read(bytes: Vec<u8>, offset: usize) -> (Vec<Vec<u8>>, usize) {
    let mut r = LogReader::new(Box::new(File(Cursor::new(bytes))), true, offset);
    let (mut out, mut errors) = (Vec::new(), 0);
    for _ in 0..1000 {
        match r.read_next() {
            Ok(Some(s)) => out.push(s.as_ref().to_vec()),
            Ok(None) => break,
            Err(_) => errors += 1,
        }
    }
    (out, errors)
}
'''
W, RD = 'src/db/log_writer.rs', 'src/db/log_reader.rs'
BUGS = [
 dict(id='log-exact-fill', property='C01',
  edits=[(W, 'let end = left == fragment_length;', 'let end = left < avail;')],
  needs='a record whose last fragment fills its block to the last byte',
  breaks='the last fragment is typed as if more followed, so the record is never returned',
  demo=LOG + r'''
fn main() {
    for n in [10usize, 32768 - 7 - 100 - 7, 32761, 65000] {
        let (recs, bytes) = write(&[100, n, 5]);
        assert_eq!(read(bytes, 0), (recs, 0), "records of length 100, {}, 5", n);
    }
}'''),
 dict(id='log-full-block', property='C02',
  edits=[(W, '''                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                }
                self.block_offset = 0;
''', '''                    self.file_writer.write_all(&K_EMPTY_BYTES[0..left_over])?;
                    self.block_offset = 0;
                }
''')],
  needs='an append when the block is filled exactly, with no trailer at all',
  breaks='the writer does not start the next block and aborts',
  demo=LOG + r'''
fn main() {
    for n in [10usize, 32755, 32761, 32760] {
        let (recs, bytes) = write(&[n, 3, 40000]);
        assert_eq!(read(bytes, 0), (recs, 0));
    }
}'''),
 dict(id='log-offset-last-header', property='C06',
  edits=[(RD, 'if offset_in_block > K_BLOCK_SIZE - 6 {', 'if offset_in_block >= K_BLOCK_SIZE - K_HEADER_SIZE {')],
  needs='a record whose first header occupies the last 7 bytes of a block, read from exactly that offset',
  breaks='the block holding the first fragment is skipped and the record is lost',
  demo=LOG + r'''
fn main() {
    // record 1 starts 7 bytes before the end of the block: an empty first fragment
    let (recs, bytes) = write(&[32768 - 7 - 7, 500, 20]);
    assert_eq!(read(bytes.clone(), 0).0, recs);
    assert_eq!(read(bytes, 32761).0, recs[1..].to_vec());
}'''),
 dict(id='log-empty-unchecked', property='C04',
  edits=[(RD, 'if !self.checksum {', 'if !self.checksum || data_len == 0 {')],
  needs='a damaged type byte in the header of a fragment without data',
  breaks='the checksum of empty fragments is not verified, so a damaged header yields a record nobody appended',
  demo=LOG + r'''
fn main() {
    let (recs, bytes) = write(&[32768 - 7 - 7, 500, 20]);
    for t in 0..=255u8 {
        let mut b = bytes.clone();
        b[32761 + 6] = t;
        for r in read(b, 0).0 { assert!(recs.contains(&r), "a record of {} bytes that was never appended", r.len()); }
    }
}'''),
 dict(id='log-flush-error', property='C05',
  edits=[(W, 'self.file_writer.flush()?;', 'let _ = self.file_writer.flush();')],
  needs='a file whose flush fails although its writes succeed',
  breaks='the append reports success although its bytes never reached the file',
  demo=LOG + r'''
struct NoFlush;
impl Write for NoFlush {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Err(std::io::ErrorKind::Other.into()) }
}
fn main() {
    let mut w = LogWriter::new(Box::new(NoFlush));
    assert!(w.add_record(Slice::from_buf(b"abc")).is_err());
}'''),
 dict(id='log-read-error-end', property='C05',
  edits=[(RD, 'self.read_buf()?;', 'if self.read_buf().is_err() {\n                    break;\n                }'),
         (RD, '''                }
            }
        }
    }

    fn read_buf''', '''                }
            }
        }
        Ok(None)
    }

    fn read_buf''')],
  needs='a read that fails at a block boundary',
  breaks='an I/O error looks like the end of the log',
  demo=LOG + r'''
struct Bad(File, usize);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.1 == 0 { return Err(std::io::ErrorKind::Other.into()); }
        self.1 -= 1;
        let n = b.len().min(32768);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Bad { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.0.seek(p) } }
impl SeekableReader for Bad {}
fn main() {
    let (_, bytes) = write(&[30000, 30000, 30000]);
    for fail in 0..3 {
        let mut r = LogReader::new(Box::new(Bad(File(Cursor::new(bytes.clone())), fail)), true, 0);
        let mut n = 0;
        let err = loop { match r.read_next() { Ok(Some(_)) => n += 1, Ok(None) => break false, Err(_) => break true } };
        assert!(err, "read {} failed, the reader reported the end after {} records", fail, n);
    }
}'''),
]
