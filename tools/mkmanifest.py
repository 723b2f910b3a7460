#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
TR = "Trace validation: TLC checks every event recorded from the real code against the specification; explored are the recorded histories, not all. Trusted: TLC, the harness (records results as they are), rustc nightly. "
N = {}
def n(ids, tech, note):
    for i in ids.split():
        N[i] = (tech, note)
n("C01 C02", "TLA+ (Log.tla): TLC on scaled block sizes; histories at the real block size written and read by the real code, traces validated by TLC",
  "Exhaustive in the model for blocks of 9 to 12 bytes (all record lengths, orders, cut points); the real code runs on every record length that ends within a few bytes of a block end, on walks of the model and on random histories, with files delivering bytes in any pieces.")
n("C03", "TLA+ (Log.tla): TLC over all truncations; real logs cut at every interesting byte, reader traces validated by TLC",
  "Model exhaustive over histories and cuts with small blocks; the real reader sees cuts at every byte of headers, trailers and fragment ends and at random bytes.")
n("C04", "TLA+ (Log.tla): reader specified on arbitrary block contents; damaged and foreign logs read by the real code, traces validated by TLC",
  "The model reader is deterministic on any bytes, so every event of the real reader is decided. Damages are generated per header field, payload and block, with fixed-up checksums where the damage should survive them.")
n("C05", "TLA+ (Log.tla): failing writes and reads; faults injected at every file operation of the real code, traces validated by TLC",
  "Every operation index of generated histories gets every fault (error, zero write, short write, interruption, failing flush).")
n("C06", "TLA+ (Log.tla): TLC over all initial offsets; real readers opened at offsets around every structural position, traces validated by TLC",
  "Model exhaustive with small blocks; real offsets are every byte around headers, trailers and block ends and random ones.")
n("C07 C08", "TLA+ (Cache.tla, CacheShard.tla): TLC on small caches; walks of the model and random histories replayed on the real cache, traces validated by TLC",
  "Model exhaustive for few keys and charges; real histories use keys that collide in shard, bucket or full hash and tables that grow.")
n("C09", "TLA+ (CacheShard.tla: live values): histories with holders replayed on the real cache with an instrumented allocator and drop recording, traces validated by TLC",
  "Release of each value and of all entry memory is observed after every operation; freed memory is poisoned and quarantined by the harness's allocator, so late uses show.")
n("C10", "TLA+ (CacheConc.tla): linearizability by TLC over all interleavings of lock sections; schedules forced on the real cache through its locks, histories validated by TLC",
  "All schedules at lock granularity for two to three threads with few operations, random schedules beyond; weak-memory effects below the locks are not modelled.")
n("C11 C12", "TLA+ (OrderedList.tla refined by SkipList.tla): TLC on all small lists and tower heights; walks and random histories with scripted heights on the real list, traces validated by TLC",
  "The pointer-level algorithm is proved to refine the ordered list for up to a few nodes by TLC; the real list follows scripted coins, so every height pattern is reachable.")
n("C13", "TLA+ (Arena.tla): TLC on small arenas; request sequences on the real arena with regions, contents and usage recorded, traces validated by TLC",
  "Addresses are recorded as offsets in the allocator's blocks; contents of all live regions are re-read. One known finding: alignment inside the current block.")
n("C14", "TLA+ (Coding.tla): TLC over all short encodings; boundary and random sequences encoded and decoded by the real code, traces validated by TLC",
  "Model exhaustive at small word sizes and for all boundaries of varint lengths; 32- and 64-bit values from boundary and random sets on the real code.")
n("C15", "TLA+ (Coding.tla): decoder specified on arbitrary bytes; malformed inputs read by the real decoder under a guarding allocator, traces validated by TLC",
  "Inputs: all short byte strings over an alphabet of telling bytes, random ones and mutations of valid encodings, in random sequences of reads.")
n("C16", "TLA+ (Bloom.tla, Hash.tla): filters built and probed by the real code, bytes and answers validated by TLC",
  "TLC recomputes every filter byte and every answer; sets from empty to hundreds of keys, all settings of bits per key that change the layout.")
n("C17 C18", "TLA+ (Hash.tla, Crc.tla): the algorithms in TLA+, model-checked for their laws at small sizes; real results for all lengths, alignments and chunkings validated by TLC",
  "TLC recomputes every hash and checksum.")
n("C19 C20", "TLA+ (KeyOrder.tla): order laws and separator contract model-checked over all short strings; the real comparators on those and on random strings, validated by TLC",
  "Separators are judged by the contract (between the keys, no longer than the start) as well as by LevelDB's result.")
n("C21", "TLA+ (DbFormat.tla, MemTable.tla): layouts of lookup keys, internal keys and entries; real bytes validated by TLC", "")
n("C22", "TLA+ (FilterBlock.tla): TLC over all short histories; histories of blocks and keys on the real builder with recording and Bloom policies, bytes validated by TLC", "")
n("C23", "TLA+ (VersionEdit.tla): histories of settings and clears on the real version edit, encodings validated by TLC", "The harness makes internal keys from bytes by their layout, since the crate cannot yet.")
n("C24", "TLA+ (LinkedList.tla at node level): TLC checks it against sequences; all short histories and random ones on the real list, traces validated by TLC", "")
n("C25", "TLA+ (Histogram.tla with exact arithmetic of Big.tla): samples, merges and clears on the real histogram, printed statistics validated by TLC", "Printed decimals are compared within the rounding of their digits; sample values are multiples of 1/4.")
n("C26", "TLA+ (Slices.tla): histories of slice operations on the real slices, traces validated by TLC", "")
n("C27", "TLA+ (Status.tla): statuses of every kind and construction, validated by TLC", "")
n("C28", "TLA+ (Rand.tla): the recurrence, model-checked from its start on; real draws from boundary and random seeds validated by TLC", "")
n("C29", "TLA+ (MutexLock.tla): exclusion, no lost update, poisoning and progress by TLC; threads of the real code driven command by command and racing freely, traces validated by TLC", "Waiting is observed as no answer within 2 ms while the lock is held, so a wrongly admitted holder can be missed once but never invented. Free races are sampled.")
n("C30", "TLA+ (FileMeta.tla): constructors, changes and comparisons of the real metadata, traces validated by TLC", "")
n("C31", "TLA+ (CacheImpl.tla: buckets, links and growth): TLC shows it refines CacheShard.tla; histories on the real cache, slots validated by TLC", "The layout itself is not looked at, only the slots the cache reports and what its calls return.")
n("C32", "TLA+ (CachePoison.tla): TLC over all small histories with panicking values; the same on the real cache with an instrumented allocator, traces validated by TLC", "At most one panicking value a shard: two in one call would abort the process in any implementation.")
ids = [json.loads(x)["id"] for x in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (bin/vlib.py cargo_env)",
               "source_commits": [x.split()[0] for x in hooks if x.split(" ", 1)[1].startswith("verif:")][::-1]},
     "checks": [{"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": N[i][0], "level": "model_checking", "level_note": (TR + N[i][1]).strip()} for i in ids if i in N],
     "not_applicable": [], "notes": "TLA+ with TLC; see DESIGN.md. replay files: python3 bin/replay.py FILE runs the case again and validates it."}
assert all(i in N for i in ids)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
