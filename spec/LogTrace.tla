------------------------------ MODULE LogTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the real log writer and reader (harness/src/wal.rs).   *)
(* Contents are fingerprints that can be joined: three numbers, each the   *)
(* value of the bytes (plus one) in base 257 modulo a prime.               *)
(*                                                                         *)
(* Two things are compared: every call with Log.tla's (the reader works on *)
(* the blocks an independent scan found in the file), and what the reader  *)
(* returned with what was written (the properties themselves).             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TraceBase
CONSTANT Focus  \* "format": the writer's pieces; "reader": the exact results of the reader; "faults": failing files

BS == 32768
M == <<46337, 46327, 46309>>
\* 257^n mod M[i]; powers of two of the exponent
RECURSIVE PowOf(_, _, _)
PowOf(m, b, n) == IF n = 0 THEN 1 ELSE LET r == PowOf(m, (b * b) % m, n \div 2) IN IF n % 2 = 1 THEN (r * b) % m ELSE r
Pow(i, n) == PowOf(M[i], 257, n)
JoinFp(f, g, n) == IF f = <<>> THEN g ELSE [i \in 1 .. 3 |-> (((f[i] * Pow(i, n)) % M[i]) + g[i]) % M[i]]
L == INSTANCE Log WITH Join <- JoinFp

VARIABLES
    recs,       \* records written: [l, f, s, e]
    size,       \* bytes in the file written so far
    wfail,      \* the offset at which writes fail (-1: none)
    wbad,       \* a write has failed
    wrecs,      \* a record that was cut short by a failure, as <<>> or <<piece ends>>
    file,       \* what happened to the file since: [trunc, dmg (blocks hit), foreign]
    rd          \* the reader: [st, open (the event), cs, init, fail, out (indices of records returned), io, ends]

lvars == <<recs, size, wfail, wbad, wrecs, file, rd>>
vars == <<lvars, l>>

NoFile == [size |-> -1, dmg |-> {}, foreign |-> FALSE]
NoReader == [st |-> <<>>, open |-> 0, cs |-> TRUE, init |-> 0, fail |-> -1, last |-> 0, io |-> FALSE, ends |-> 0, got |-> {}, bad |-> FALSE]
Start == recs = <<>> /\ size = 0 /\ wfail = -1 /\ wbad = FALSE /\ wrecs = <<>> /\ file = NoFile /\ rd = NoReader
TInit == Start /\ l = 1
Reset == /\ recs' = <<>> /\ size' = 0 /\ wfail' = -1 /\ wbad' = FALSE /\ wrecs' = <<>> /\ file' = NoFile /\ rd' = NoReader

\* ------------------------------------------------------------ writing
Frags(p) == SelectSeq(p, LAMBDA x : x.k = "frag")
JoinAll(fs) ==
    LET F[i \in 0 .. Len(fs)] == IF i = 0 THEN <<>> ELSE JoinFp(F[i - 1], fs[i].f, fs[i].l) IN F[Len(fs)]

SamePiece(x, y) ==      \* x observed, y as specified
    /\ x.k = y.k /\ x.o = y.o /\ x.l = y.l
    /\ IF x.k = "pad" THEN x.z ELSE x.t = y.t /\ x.c

\* the observed pieces are exactly those of the record
Written(e) ==
    LET want == L!RecordPieces(size, e.l)
        fs == Frags(e.p)
    IN  /\ Len(e.p) = Len(want)
        /\ \A i \in DOMAIN want : SamePiece(e.p[i], want[i])
        /\ JoinAll(fs) = (IF e.l = 0 THEN <<0, 0, 0>> ELSE e.f)
        /\ e.size = L!EndOf(want)
\* the observed pieces are those of a prefix of the record
WrittenPrefix(e) ==
    LET want == L!RecordPieces(size, e.l)
        n == Len(e.p)
    IN  /\ n <= Len(want)
        /\ \A i \in 1 .. n :
            IF i < n \/ e.p[i].k = "frag" THEN SamePiece(e.p[i], want[i])
            ELSE /\ e.p[i].o = want[i].o
                 /\ CASE e.p[i].k = "pad" -> want[i].k = "pad" /\ e.p[i].l <= want[i].l /\ e.p[i].z
                      [] e.p[i].k = "torn" -> want[i].k = "frag" /\ e.p[i].l = want[i].l /\ e.p[i].t = want[i].t
                      [] e.p[i].k = "cut" -> want[i].k = "frag"
        /\ e.size <= L!EndOf(want)

Add(e) ==
    /\ ~wbad
    /\ IF e.ok
       THEN /\ e.err = "none"
            /\ "format" \in Focus => Written(e) /\ ~e.dirty
            /\ recs' = Append(recs, [l |-> e.l, f |-> e.f, s |-> L!StartOf(L!RecordPieces(size, e.l)), e |-> e.size])
            /\ UNCHANGED wbad
       \* an append fails only where the file fails
       ELSE /\ TRUE = (wfail >= 0 \/ wrecs # <<>>)
            /\ "faults" \in Focus => WrittenPrefix(e)
            \* the record may be complete in the file (when only the flush failed)
            /\ recs' = IF e.size >= L!EndOf(L!RecordPieces(size, e.l))
                       THEN Append(recs, [l |-> e.l, f |-> e.f, s |-> L!StartOf(L!RecordPieces(size, e.l)), e |-> e.size]) ELSE recs
            /\ wbad' = TRUE
    \* with a file that fails within these bytes, the append must say so
    /\ (wfail >= 0 /\ wfail < L!EndOf(L!RecordPieces(size, e.l))) => ~e.ok
    /\ wrecs # <<>> => ~e.ok
    /\ size' = e.size
    /\ UNCHANGED <<wfail, wrecs, file, rd>>

\* ------------------------------------------------------------ reading
Fsize == IF file.size >= 0 THEN file.size ELSE size
Undamaged == file.dmg = {} /\ ~file.foreign
\* the records a reader from init returns from an undamaged, possibly truncated file
Expected(i) == recs[i].s >= rd.init /\ recs[i].e <= Fsize
\* the first record after i that is expected, 0 if there is none
RECURSIVE NextExpected(_)
NextExpected(i) == IF i >= Len(recs) \/ recs[i + 1].e > Fsize THEN 0 ELSE IF Expected(i + 1) THEN i + 1 ELSE NextExpected(i + 1)
Is(e, i) == e.l = recs[i].l /\ e.f = recs[i].f
\* the first record after i that is e, 0 if there is none
RECURSIVE Match(_, _)
Match(e, i) == IF i >= Len(recs) THEN 0 ELSE IF recs[i + 1].s >= rd.init /\ Is(e, i + 1) THEN i + 1 ELSE Match(e, i + 1)

\* the properties, on what the reader returns (with checksums)
Genuine(e) ==   \* C01, C03, C04, C06: a record that was written, later than those returned before
    (e.r = "rec" /\ ~file.foreign) => Match(e, rd.last) > 0
Exact(e) ==     \* C01, C03, C06
    (Undamaged /\ ~rd.io) =>
        CASE e.r = "rec" -> NextExpected(rd.last) > 0 /\ Is(e, NextExpected(rd.last))
          [] e.r = "end" -> NextExpected(rd.last) = 0
          [] OTHER -> FALSE
\* C04: at the end, every record in blocks that are not damaged was returned
BlocksOf(i) == (recs[i].s \div BS) .. ((recs[i].e - 1) \div BS)
KeepsOthers(e) ==
    (e.r = "end" /\ rd.ends = 0 /\ ~file.foreign) =>
        file.dmg = {} \/
        \A i \in DOMAIN recs : (Expected(i) /\ BlocksOf(i) \cap file.dmg = {}) => i \in rd.got \/ \E j \in rd.got : recs[j].l = recs[i].l /\ recs[j].f = recs[i].f

\* ---- reads from a file that fails at offset rd.fail
Fails == rd.fail >= 0 /\ rd.fail <= Fsize
FaultyRead(e) ==
    CASE e.r = "rec" -> Match(e, rd.last) > 0
      [] e.r = "io" -> TRUE
      \* the end is only reported once the failure was
      [] e.r = "end" -> rd.io
      [] OTHER -> rd.io
\* records in the blocks before the failing one come before the failure is reported
FaultyComplete(e) ==
    (e.r = "io" /\ ~rd.io) => \A i \in DOMAIN recs : (recs[i].s >= rd.init /\ recs[i].e <= (rd.fail \div BS) * BS) => i <= rd.last

Read(e) ==
    LET x == L!ReadNext(Trace[rd.open].blocks, rd.cs, rd.init, rd.st)
        m == IF e.r = "rec" THEN Match(e, rd.last) ELSE 0
        exact == "reader" \in Focus /\ ~Fails /\ ~rd.io
    IN  /\ IF Fails THEN TRUE = (FaultyRead(e) /\ FaultyComplete(e))
           ELSE /\ exact => /\ e.r = x.r
                            /\ e.r = "rec" => e.l = x.l /\ e.f = (IF x.f = <<>> THEN <<0, 0, 0>> ELSE x.f)
                /\ TRUE = (rd.cs => Genuine(e) /\ Exact(e) /\ KeepsOthers(e))
        /\ rd.ends > 0 => e.r = "end"
        /\ rd' = [rd EXCEPT !.st = IF exact THEN x.st ELSE @,
                            !.last = IF m > 0 THEN m ELSE @,
                            !.got = IF m > 0 /\ ~Undamaged THEN @ \cup {m} ELSE @,
                            !.io = @ \/ e.r = "io",
                            !.bad = @ \/ e.r = "corruption",
                            !.ends = IF e.r = "end" THEN @ + 1 ELSE @]
        /\ UNCHANGED <<recs, size, wfail, wbad, wrecs, file>>

Step(e) ==
    CASE e.e = "case" -> Reset
      [] e.e = "new" -> UNCHANGED lvars
      [] e.e = "writer" -> wfail' = e.fail_at /\ UNCHANGED <<recs, size, wbad, wrecs, file, rd>>
      [] e.e = "failflush" -> wrecs' = <<1>> /\ UNCHANGED <<recs, size, wfail, wbad, file, rd>>
      [] e.e = "add" -> Add(e)
      [] e.e = "craft" -> file' = [file EXCEPT !.foreign = TRUE] /\ UNCHANGED <<recs, size, wfail, wbad, wrecs, rd>>
      [] e.e = "trunc" -> file' = [file EXCEPT !.size = e.n] /\ UNCHANGED <<recs, size, wfail, wbad, wrecs, rd>>
      [] e.e = "damage" ->
            /\ file' = [file EXCEPT !.dmg = @ \cup ((e.o \div BS) .. ((e.o + e.n - 1) \div BS)),
                                    !.size = IF e.o + e.n > Fsize /\ e.o = Fsize THEN e.o + e.n ELSE @]
            /\ UNCHANGED <<recs, size, wfail, wbad, wrecs, rd>>
      [] e.e = "open" ->
            /\ rd' = [NoReader EXCEPT !.st = L!ReaderAt(e.init), !.open = l, !.cs = e.cs, !.init = e.init, !.fail = e.fail]
            /\ TRUE = (file.foreign \/ e.size = Fsize)
            /\ UNCHANGED <<recs, size, wfail, wbad, wrecs, file>>
      [] e.e = "read" -> Read(e)
      [] OTHER -> FALSE     \* panic, crash, endless

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
