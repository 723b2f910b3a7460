#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), hook=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))

W, R, F = "src/db/log_writer.rs", "src/db/log_reader.rs", "src/db/log_writer.rs"
p("C01", "The log returns every appended record, in order, unchanged",
  "Reading a log that was written only by successful appends, from its beginning, returns exactly the appended records: each once, in order, byte for byte, whatever their lengths, with checksum verification on or off. After the last record the reader reports the end, and reports it again on every further call. Neither short reads nor interrupted calls of the underlying file change this.",
  ["inputs", "histories", "configurations"], "every sequence of record lengths and contents (empty, ending exactly at, 1..7 bytes before or after a 32 KiB block end, spanning any number of blocks), checksum on/off, every way the file delivers its bytes",
  "the tests write a handful of short records into one block; block boundaries, trailers, multi-block records and short reads are never combined",
  [W, R, F], [("fragmentation of a record over blocks", W+" LogWriter::add_record"), ("reassembly of fragments", R+" LogReader::read_next"), ("block refill", R+" LogReader::read_buf")],
  [("offset in the current block", "where the next fragment starts", W), ("partial record", "fragments collected so far", R)], None, ["bytes handed to the file", "records returned"])
p("C02", "The bytes of the log follow the documented block format",
  "The file is a sequence of 32 KiB blocks; each record is stored as a full fragment or as first/middle*/last fragments with a 7-byte header (masked CRC32C of type and data, little-endian length, type), no header ever crosses a block end, and the unused tail of a block (fewer than 7 bytes) is zero. A record is split only where a block ends. After a successful append everything written has been handed over and flushed.",
  ["inputs", "histories"], "every sequence of record lengths, with the position in the block evolving over the whole history",
  "tests compare no bytes of the file beyond one block; an error in one length/offset combination (trailer of 1..6 bytes, fragment with exactly 0 bytes of room) is not sampled",
  [W, F, "src/util/crc.rs", "src/util/coding.rs"], [("trailer padding and fragment type choice", W+" LogWriter::add_record"), ("header encoding and checksum", W+" LogWriter::emit_physical_record"), ("flush", W+" LogWriter::add_record")], hook=None, observe=["bytes handed to the file"])
p("C03", "A truncated log yields a prefix of its records",
  "If a log is cut off at any byte (a crash while writing), reading it returns, in order, exactly the records whose bytes are all present, then the end, without reporting corruption and without any invented, partial or merged record. Reading never loops forever and never aborts the process.",
  ["crash_points", "histories"], "every history of appends and every byte offset at which the file may end",
  "no test truncates a log; the number of histories times cut points is far beyond samples",
  [R, F], [("end of file inside a header or fragment is treated as the end", R+" LogReader::read_buf"), ("incomplete fragmented record is dropped", R+" LogReader::read_next")])
p("C04", "Damage to the log never yields wrong data and loses a bounded part",
  "With checksum verification on, reading a log with arbitrarily damaged bytes returns only records that were appended, each at most once and in order; damage is reported unless it makes the end of the file look like an unfinished record, and every record stored completely in blocks before or after the damaged ones is still returned. Fragments that do not form a complete first/middle/last sequence, have an unknown type or a wrong length are never turned into a record. Reading terminates without aborting the process.",
  ["inputs", "histories", "fault_sequences"], "every history of appends, every position, length and value of damage (headers, lengths, types, payloads that look like fragments, whole blocks), and every arrangement of well-formed fragments by a foreign writer",
  "no test damages a log; which fragment arrangements and lengths are dangerous depends on the block position",
  [R, F, "src/util/crc.rs"], [("checksum and length checks, dropping the rest of a block", R+" LogReader::read_buf"), ("fragment sequence checks", R+" LogReader::read_next")])
p("C05", "I/O errors of the log are reported and never falsify it",
  "If the file fails while a record is appended, the append reports an error and the file holds a prefix of the bytes a successful run would have written. If the file fails while the reader is positioned in it or reads from it, the reader reports an I/O error instead of the end, and what it returned before and returns afterwards are records that were appended, in order.",
  ["fault_sequences", "histories"], "every operation at which the file may fail, for writes (error, write of zero bytes, flush failure, interruption) and reads",
  "tests use an in-memory buffer that never fails",
  [W, R], [("propagation of write and flush errors", W+" LogWriter::emit_physical_record"), ("read errors", R+" LogReader::read_buf")])
p("C06", "Reading from an offset returns exactly the records that start at or after it",
  "A reader opened at an initial offset returns, in order and complete, records that begin at or after that offset, never a part of a record that began before it, and never skips a record beginning at or after it. Offsets inside a record, inside a block trailer, at a block boundary and past the end of the file are all allowed.",
  ["inputs", "histories", "configurations"], "every history of appends and every initial offset",
  "no test opens a reader at a non-zero offset",
  [R, F], [("start block computation", R+" LogReader::new"), ("resynchronisation after the offset", R+" LogReader::read_next")])

C = "src/util/cache.rs"
p("C07", "The cache is a map: a lookup returns the last value inserted for the key",
  "After any sequence of inserts, erases, prunes and lookups, a lookup of a key returns the value most recently inserted under an equal key if that entry has been neither erased, pruned, replaced nor evicted, and otherwise nothing. Keys that only share a hash or a bucket never influence each other, however many entries the cache holds and however its tables grow.",
  ["histories", "inputs"], "every sequence of operations, over keys colliding in shard, bucket or the full hash, with growing and shrinking tables",
  "tests insert distinct keys in a few fixed orders; chain manipulation at head/middle/tail and table growth interact only in particular histories",
  [C, "src/util/hash.rs"], [("bucket chains and resize", C+" HandleTable"), ("replace on insert", C+" LRUCache::insert"), ("sharding by hash", C+" ShardLRUCache")],
  [("bucket chains", "doubly linked entries of one slot", C), ("eviction list", "entries in insertion order", C)])
p("C08", "The cache stays under capacity, accounts charges exactly, evicts oldest first",
  "The reported total charge always equals the sum of the charges of the entries present. After every insert each shard's charge is below its share of the capacity (the capacity divided by the number of shards, rounded up), reached by removing that shard's entries in the order they were inserted, and no more of them than needed; erasing, replacing and pruning return the charge of what they removed.",
  ["histories", "configurations"], "every sequence of operations, charges (including 0 and more than the capacity), capacities and shard distributions",
  "tests check one scenario of one shard; accounting drift needs particular mixes of replace, erase and eviction",
  [C], [("usage accounting and eviction loop", C+" LRUCache::insert/erase/prune"), ("shard capacity", C+" ShardLRUCache::new_with_capacity")])
p("C09", "A cached value lives until its last user lets go, and is then released once",
  "A value obtained from the cache stays valid and unchanged while it is held, even if it is meanwhile replaced, erased, evicted, pruned or the cache is destroyed. Every value is released exactly once: as soon as it is neither in the cache nor held. When the cache is destroyed and nothing is held, no memory of it remains in use and none was used after being freed.",
  ["histories"], "every interleaving of holding and releasing values with every way an entry can leave the cache",
  "tests do not observe destruction; use after free and double free stay silent without an instrumented allocator",
  [C], [("shared ownership of values", C+" LRUHandle/ LRUCache::look_up"), ("freeing entries when unlinked", C+" HandleTable::drop_handle, prune, drop"), ("shared handles across threads", C+" LRUHandle")])
p("C10", "Concurrent cache operations behave like some sequential order",
  "When several threads insert, look up and read the total charge of one cache, every result is one that some order of the operations, consistent with the order in which non-overlapping operations happened, would give; the final contents are those of that same order. No schedule loses an entry, returns a freed or foreign value, panics or blocks forever.",
  ["schedules", "histories"], "all interleavings of the threads' steps at lock and memory boundaries",
  "the tests run threads at full speed without controlling the schedule",
  [C, "src/util/mutex_lock.rs"], [("lock per shard", C+" ShardLRUCache"), ("total charge over shards", C+" ShardLRUCache::total_charge")], hook="verif_hooks: recording reader-writer lock")

S = "src/db/skip_list.rs"
p("C11", "The skip list holds exactly the inserted keys, ordered by its comparator",
  "After any sequence of inserts, an insert of a key not yet present succeeds, a membership query answers true exactly for keys comparing equal to an inserted one, and the list enumerates the keys in strictly ascending comparator order. This holds for every comparator that is a total order, every insertion order, every outcome of the random tower heights, and inserting an equal key again changes nothing. The number of keys, the height and the printed form it reports agree with its contents.",
  ["histories", "inputs", "configurations"], "every insertion order, comparator and sequence of random tower heights",
  "tests insert a few keys with whatever heights the random source happens to produce",
  [S], [("search path per level", S+" SkipList::find_eq_or_greater / insert"), ("random height", S+" SkipList::rnd_level")], hook="verif_hooks: scripted coins for the tower height")
p("C12", "Skip-list iterators visit all keys in order, from either end, and know when they stand on none",
  "An iterator positioned at the first or last element, moved forward any number of times, visits exactly the keys present in ascending order and then becomes invalid and stays so; it is valid exactly when it stands on a key. Keys inserted while an iterator stands still are seen if they lie ahead of it.",
  ["histories"], "every interleaving of inserts with iterator moves, on lists of any size including the empty one",
  "tests iterate once over a fixed list",
  [S], [("iterator", S+" Iter"), ("validity", S+" Iter::valid")], hook="verif_hooks: iterator trait")

A = "src/util/arena.rs"
p("C13", "Arena memory is disjoint, stable, aligned and accounted until the drop",
  "Every region the arena hands out has the requested size, is writable, overlaps no other region it handed out, keeps its contents until the arena is dropped, and aligned requests get an address that is a multiple of the requested alignment. The reported memory usage is the total size of the blocks acquired. Dropping the arena frees all of it exactly once.",
  ["histories", "inputs"], "every sequence of requests of any size (0, around the quarter of a block, around a block, larger) and alignment",
  "tests make a few requests and do not check overlap, contents or release",
  [A], [("bump allocation in 4 KiB blocks, own blocks for large requests", A+" Arena::allocate/allocate_fallback"), ("aligned allocation", A+" Arena::allocate_align"), ("freeing", A+" Drop for Arena")])

D = "src/util/coding.rs"
p("C14", "Encoding numbers and strings is invertible and follows the LevelDB wire format",
  "Every sequence of fixed 32/64-bit, varint 32/64-bit, length-prefixed and raw items written by the encoder is read back identically by the decoder, consuming exactly the same bytes; fixed numbers are little-endian, varints hold 7 bits per byte, low first, in the fewest bytes, and the length calculation agrees with them. An encoder over a buffer that is too small refuses without writing past its end.",
  ["inputs", "histories"], "every value (all byte lengths of varints and their boundaries) and every mixture of items, over growing and fixed buffers",
  "tests encode a few values one at a time",
  [D], [("encoder", D+" Encoder"), ("decoder", D+" Decoder"), ("length", D+" varint_length")])
p("C15", "Decoding any input, however malformed, gives a value or a refusal, never a crash",
  "For arbitrary bytes and any sequence of checked reads, each read either returns the value the bytes at the current position encode and advances past it, or reports failure; over-long varints (more than 5 bytes for 32 bits, 10 for 64), truncated varints and lengths beyond the end are failures; surplus high bits of a varint's last byte are dropped. No read returns bytes outside the input or aborts the process.",
  ["inputs"], "every byte string (truncated, over-long, overflowing, with huge length prefixes) and every sequence of reads and skips",
  "tests decode only what the encoder produced",
  [D], [("bounds checks", D+" Decoder::get_*"), ("varint overflow checks", D+" Decoder::get_varint32/get_varint64")])

B, H, K = "src/util/filter_policy_bloom.rs", "src/util/hash.rs", "src/util/comparator.rs"
p("C16", "The Bloom filter never denies a key it was built from",
  "For every set of keys and every bits-per-key setting, the filter built from the keys answers 'may match' for each of them; filters have the LevelDB layout (bit array of the documented size followed by the number of probes, 0.69 times the bits per key rounded to the nearest number from 1 to 30) and filters too short or with a reserved probe count are answered as LevelDB does. For keys not in the set the answer is the one that the probed bits give.",
  ["inputs", "configurations"], "every key set (empty, duplicates, any bytes, any size) and bits per key",
  "tests check one or two sets of keys",
  ["src/util/filter_policy_bloom.rs", "src/util/filter_policy.rs", "src/util/bloom_filter.rs"], [("probe positions by double hashing", "bloom filter create_filter / key_may_match"), ("sizing", "bloom filter new_with_bits")])
p("C17", "The hash is LevelDB's hash for every input",
  "The hash of any bytes under any seed equals LevelDB's 32-bit hash (so that shards, filters and files agree with it), is the same through every entry point and does not depend on where the bytes lie in memory.",
  ["inputs"], "every byte string length (all tail lengths), byte value (including >= 0x80), seed and memory alignment",
  "tests compare a few reference values",
  [H], [("murmur-like mixing", H+" Hash::hash_code")])
p("C18", "Checksums are CRC32C, extendable, and masking is invertible",
  "The checksum of any bytes is their CRC32C, extending a checksum with more bytes gives the checksum of the concatenation, and both are independent of length, splitting and memory position. Masking a checksum is a rotation plus a constant, and unmasking returns the original for every 32-bit number.",
  ["inputs"], "every byte string, split point, alignment and 32-bit value",
  "tests compare a few reference strings",
  ["src/util/crc.rs"], [("table-driven CRC", "src/util/crc.rs CRC::extend"), ("mask", "src/util/crc.rs ToMask")])
p("C19", "Byte comparison is a total order, the same for slices and comparators",
  "Comparing keys with the bytewise comparator or as slices gives the lexicographic order of unsigned bytes, a shorter key first when it is a prefix: antisymmetric, transitive, total and equal exactly for identical bytes.",
  ["inputs"], "all pairs and triples of keys, including empty, prefixes of each other, bytes >= 0x80 and embedded zeros",
  "tests compare a few ASCII keys",
  [K, "src/util/slice.rs"], [("compare", K+" BytewiseComparatorImpl::compare"), ("slice order", "src/util/slice.rs Ord/PartialOrd/Eq for Slice")], hook="verif_hooks: comparator trait")
p("C20", "Shortened separators and successors stay between the keys",
  "For keys a < b the separator s satisfies a <= s < b and is no longer than a; the successor s of a key satisfies a <= s and is no longer than a. Both are LevelDB's shortest such choices (keys consisting of 0xff bytes and prefixes are left alone), and for a >= b the separator is unchanged.",
  ["inputs"], "all pairs of keys, including 0xff bytes, adjacent bytes and prefixes",
  "tests try a few pairs",
  [K], [("separator", K+" find_shortest_separator"), ("successor", K+" find_short_successor")], hook="verif_hooks: comparator trait")
p("C21", "Memory-table entries and lookup keys have the documented layout",
  "Adding an entry to the memory table stores exactly varint(key length + 8), the key, the 8-byte little-endian (sequence << 8 | type), varint(value length) and the value; every added entry is kept unchanged, and the entries are enumerated in the order of the table's comparator. A lookup key for a user key and sequence exposes the same layout, whole and with its internal-key part; the length announced for an internal key is the one of this part.",
  ["inputs", "histories"], "every key, value, sequence number (up to 2^56-1) and type, in every order of addition",
  "tests add one or two short entries",
  ["src/db/mem_table.rs", "src/db/db_format.rs"], [("entry encoding", "src/db/mem_table.rs MemTable::add"), ("lookup key", "src/db/db_format.rs LookupKey"), ("packing", "src/db/db_format.rs pack_sequence_and_type")], hook="verif_hooks: enumeration of the memory table")
p("C22", "The filter block maps every 2 KiB of block offsets to the filter of its keys",
  "For any sequence of block starts and keys, the finished filter block consists of the filters, one for each 2 KiB range of block offsets up to the last one that has keys or that precedes a later started block (empty ranges have empty filters), followed by their offsets as fixed32, the offset of that array and the base exponent 11. The filter of a range is built from exactly the keys added for blocks starting in it.",
  ["inputs", "histories"], "every nondecreasing sequence of block offsets (several blocks per range, gaps of many ranges, exact multiples) and key sets",
  "tests build two small blocks",
  ["src/table/filter_block.rs"], [("block start", "src/table/filter_block.rs start_block"), ("finish", "src/table/filter_block.rs finish/generate_new_filter")], hook="verif_hooks: filter block is private")
p("C23", "A version edit is encoded field by field in LevelDB's format",
  "The encoding of a version edit contains exactly the fields that were set, each once with LevelDB's tag and number format: comparator name, log number, previous log number, next file number, last sequence, compaction pointers, deleted files, and new files with level, number, size and key range. After clearing, nothing is encoded but the compaction pointers, which clearing keeps as LevelDB does.",
  ["inputs", "histories"], "every combination and order of set fields, any number values (all varint lengths), levels and file lists",
  "tests encode no edit with all fields",
  ["src/db/version_edit.rs"], [("encoding", "src/db/version_edit.rs VersionEdit::encode_to"), ("clear", "src/db/version_edit.rs VersionEdit::clear")])
p("C24", "The linked list is a sequence",
  "After any sequence of additions at either end or at a position and of removals the list supports, its length, its elements by position and its emptiness are those of the sequence built by the same operations; positions beyond the end are refused and change nothing.",
  ["histories"], "every sequence of operations, including on empty and one-element lists and at first, last and out-of-range positions",
  "tests run one short scenario per operation",
  ["src/util/linked_list.rs"], [("links and length", "src/util/linked_list.rs LinkedList")])
p("C25", "Histogram statistics agree with the samples added",
  "After any samples, merges and clears, the histogram's count, minimum, maximum, average and deviation are those of the samples; the bucket counts add up to the number of samples, each sample lies in its bucket's range, and the median lies between minimum and maximum inside the median sample's bucket. Merging histograms gives the histogram of all samples.",
  ["inputs", "histories"], "every sequence of additions, merges and clears, with samples at, just below and above bucket limits, 0 and beyond the last limit",
  "tests add a few samples",
  ["src/util/histogram.rs"], [("bucket search", "src/util/histogram.rs Histogram::add"), ("merge", "src/util/histogram.rs Histogram::merge"), ("percentile", "src/util/histogram.rs Histogram::percentile")])
p("C26", "Slices are byte sequences",
  "Size, emptiness, element access, ranges, prefix removal, prefix test, comparison, merging, conversion and hashing-independent equality of a slice, owned or borrowing, agree with the same operations on its byte sequence, and access outside its bounds panics or is refused instead of reading other memory. Copies are independent of the original.",
  ["inputs", "histories"], "every content (not only text), every position and range, in any sequence of operations",
  "tests use a few ASCII strings",
  ["src/util/slice.rs", "src/util/unsafe_slice.rs"], [("slice operations", "src/util/slice.rs Slice"), ("unowned slice", "src/util/unsafe_slice.rs UnsafeSlice")])
p("C27", "A status keeps its error kind and message",
  "A status built for an error kind answers exactly the predicate of that kind, returns that kind and message, is an error unless it is 'ok', and prints LevelDB's prefix for the kind followed by the messages; converting to and from numeric codes keeps the kind. The error of an I/O operation becomes an I/O error with its text, that of a lock whose holder panicked a corruption.",
  ["inputs"], "every error kind and every pair of messages",
  "tests check some kinds with fixed messages",
  ["src/util/status.rs"], [("kinds and printing", "src/util/status.rs LevelError/Status")])
p("C28", "The random generator produces its documented fixed sequence within its bounds",
  "From any seed the generator yields the same sequence of numbers as its fixed recurrence (the seed times 16807 in 32-bit arithmetic, the top bit folded onto the rest), from the first draw on within 1 to 2^31-1 and never 0; bounded, one-in-n and skewed draws are derived from it and stay in their bounds.",
  ["inputs", "histories"], "every seed (including 0, 2^31-1 and beyond) and draw sequence",
  "tests check a few draws of one seed",
  ["src/util/random.rs"], [("recurrence", "src/util/random.rs Random::next"), ("seed normalisation", "src/util/random.rs Random::new")])
p("C29", "A mutex lock lets in one holder at a time and loses no update",
  "All locks obtained from one mutex lock exclude each other, in whatever threads: at any time at most one is held, its holder sees the last value written, and the others wait or, if they only try, are told so at once; different mutex locks never hinder each other. A lock given back lets exactly one waiting taker in. A holder that panics gives the lock back, and everyone who takes it afterwards is told that it is poisoned, and still gets the value; locks outlive the mutex lock they came from.",
  ["schedules", "histories"], "every sequence of taking, trying, writing, giving back and panicking by any number of threads on any number of locks",
  "the test lets two threads add to one number at full speed",
  ["src/util/mutex_lock.rs"], [("shared ownership of the mutex", "src/util/mutex_lock.rs MutexLock::get_lock"), ("taking", "src/util/mutex_lock.rs Lock::lock, Lock::try_lock")])
p("C30", "File metadata keep what they were given and are equal only if all of it is",
  "The metadata of a table file report the number, size, reference count and smallest and largest key they were built with, or the default of whatever a constructor does not take (no references, 2^30 allowed seeks, number and size 0, empty keys). Setting the size or adding references changes that field only. Two are equal exactly if references, allowed seeks, number, size and both keys are equal.",
  ["inputs", "histories"], "every constructor with every argument, every sequence of changes, every pair",
  "the test compares three default-like values that differ in one field",
  ["src/db/file_meta_data.rs"], [("constructors", "src/db/file_meta_data.rs FileMetaData"), ("equality", "src/db/file_meta_data.rs FileMetaData::eq")])
p("C31", "The cache's tables start with the wanted length, double when three quarters full, and shrink only when pruned",
  "Each of the 32 shards starts with a table whose number of slots is a power of two: the smallest one that holds a 32nd of the wanted length, and 16 at least, whichever constructor made the cache. After an insert that leaves more entries in a shard than three quarters of its slots, the slots have doubled; nothing else changes their number, except that pruning brings back the first length. The reported number of slots is the sum over the shards, and however often tables double no entry is lost, doubled or moved in the eviction order.",
  ["histories", "configurations"], "every wanted length, and every history of inserts, replacements, erases, evictions and prunes around the points where tables double",
  "tests print the slots of one cache filled with a million keys",
  [C], [("first length", C+" format_length, ShardLRUCache::new_with_capacity, new_arc_with_capacity"), ("growth", C+" HandleTable::should_resize, resize"), ("first length again", C+" HandleTable::prune")],
  [("buckets", "doubly linked chain per slot", C), ("elements", "entries of a shard, compared with its slots", C)])
p("C32", "A value whose destructor panics locks out its shard and harms nothing else",
  "If a value's destructor panics while an insert, erase or prune removes it, the panic reaches the caller and the shard is locked out: every later call that needs it (insert, lookup and erase of its keys, prune, total charge, slots) returns a corruption error. The other shards keep their entries and work as before, values that are held stay readable, and no value or entry is ever destroyed twice or used after it was freed, then or when the cache is destroyed.",
  ["histories", "fault_sequences"], "every history of operations with a panicking value at any place in any shard, removed by replacement, eviction, erase, prune or its last holder",
  "no test has a value with a destructor",
  [C, "src/util/status.rs"], [("write lock held while entries are freed", C+" ShardLRUCache::insert, erase, prune"), ("entries unlinked before they are freed", C+" HandleTable::remove, prune, drop"), ("refusal", "src/util/status.rs From<PoisonError>")], hook=None)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
