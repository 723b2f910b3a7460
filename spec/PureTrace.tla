----------------------------- MODULE PureTrace -----------------------------
(* Results recorded from the real hash, checksum, filter and comparator (harness/src/pure.rs). *)
EXTENDS Bloom, TraceBase
C == INSTANCE Crc
O == INSTANCE KeyOrder
LOCAL INSTANCE SequencesExt

Bytes32(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
\* what each of the threads is told about e.all[i], and its successor
Stormed(e, i) ==
    LET a == e.all[i]
        b == e.all[(i % Len(e.all)) + 1]
    IN  CASE e.what = "hash" -> Bytes32(Hash(a, e.seed))
          [] e.what = "crc" -> Bytes32(C!CrcExtend(e.seed, a))
          [] e.what = "filter" -> Filter(e.bpk, 2, <<a, b>>)
          [] e.what = "match" -> <<IF MayMatch(a, b) THEN 1 ELSE 0>>
          [] e.what = "compare" -> LET x == O!Compare(a, b) + 1 IN <<x, x>>
          [] e.what = "sep" -> O!Separator(a, b)
          [] e.what = "succ" -> O!Successor(a)

SeedOf(e) == IF e.via \in {"refd", "ref64d", "vecd", "sliced", "strd", "stringd", "bloom", "bloom2"} THEN DefaultSeed ELSE e.seed
InitOf(e) == IF e.via \in {"value", "ref", "vec"} THEN <<0, 0>> ELSE e.init
\* what an array of wider elements holds: the bytes that fill one
Width(e) == CASE e.via = "vec16" -> 2 [] e.via = "vecarr3" -> 3 [] e.via = "vec32" -> 4
              [] e.via \in {"vec64", "ref64d"} -> 8 [] e.via = "vec128" -> 16 [] OTHER -> 1
Data(e) == SubSeq(e.b, 1, Len(e.b) - (Len(e.b) % Width(e)))
CapOf(e) == IF "cap" \in DOMAIN e /\ e.cap >= 0 THEN e.cap ELSE Len(e.keys)

Right(e) ==
    CASE e.e = "hash" -> e.r = Hash(Data(e), SeedOf(e))
      [] e.e = "crc" -> e.r = C!CrcExtend(InitOf(e), Data(e))
      \* for long data the harness compares with a checksum of its own, which refcrc ties to the one here
      [] e.e = "refcrc" -> e.r = C!Crc(e.b)
      [] e.e = "bigcrc" -> e.r = e.ref /\ e.two = e.ref
      [] e.e = "refhash" -> e.r = Hash(e.b, e.seed)
      [] e.e = "bighash" -> e.r = <<e.ref, e.ref, e.ref>>
      \* the same place in memory, holding something else each time
      [] e.e = "walk" -> /\ Len(e.r) = Len(e.flips)
                         /\ LET b == FoldLeft(LAMBDA s, f : Append(s, [Last(s) EXCEPT ![f[1] + 1] = f[2]]), <<e.b>>, e.flips)
                            IN  \A i \in DOMAIN e.r : e.r[i] = <<Hash(b[i + 1], e.seed), C!Crc(b[i + 1])>>
      [] e.e = "mask" -> e.r = C!Mask(e.x)
      [] e.e = "unmask" -> e.r = C!Unmask(e.x)
      [] e.e = "policy" -> e.r = <<e.bpk, Probes(e.bpk), "leveldb.BuiltinBloomFilter">>
      [] e.e = "filter" ->
            /\ \A i \in DOMAIN e.hits : e.hits[i]
            /\ Len(e.hits) = 2 * Len(e.keys)
            /\ e.n = Bytes(e.bpk, CapOf(e)) + 1
            /\ IF "big" \in DOMAIN e THEN e.r = <<Probes(e.bpk)>> ELSE e.r = Filter(e.bpk, CapOf(e), e.keys)
      [] e.e = "match" -> e.r = MayMatch(e.b, e.f)
      \* each in one place in memory, holding something else each time
      [] e.e = "asked" -> e.r = [i \in DOMAIN e.steps |-> <<MayMatch(e.steps[i][1], e.steps[i][2]), Filter(e.bpk, 1, <<e.steps[i][1]>>)>>]
      \* any number of threads at once: the answers do not depend on the others
      [] e.e = "storm" -> e.wrong = 0 /\ e.r = [i \in DOMAIN e.all |-> Stormed(e, i)]
      [] e.e = "ordered" -> e.r = [i \in DOMAIN e.steps |-> LET x == O!Compare(e.steps[i][1], e.steps[i][2]) IN <<x, x, x = 0>>]
      [] e.e = "compare" -> LET x == O!Compare(e.b, e.c) IN e.r = x /\ e.slice = x /\ e.eq = (x = 0)
      [] e.e = "sep" -> e.r = O!Separator(e.b, e.c)
      [] e.e = "succ" -> e.r = O!Successor(e.b)
      [] e.e = "cname" -> e.r = "leveldb.BytewiseComparator"
      [] OTHER -> FALSE

TInit == l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ TRUE = (Trace[l].e = "case" \/ Right(Trace[l]))
    /\ l' = l + 1
TraceSpec == TInit /\ [][TraceNext]_l
=============================================================================
