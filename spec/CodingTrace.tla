---------------------------- MODULE CodingTrace ----------------------------
(* Calls recorded from the real encoder and decoder (harness/src/coding.rs) against Coding.tla. *)
EXTENDS Coding, TraceBase
VARIABLES kind, data, off,     \* the encoder
          input, pos           \* the decoder
cvars == <<kind, data, off, input, pos>>
vars == <<cvars, l>>

\* numbers of 32 bits come as <<high 16 bits, low 16 bits>>
W(x) == <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
Base(o) == IF o \in {"uf32", "uf64", "uv32", "uv64", "ubuf", "ulps", "uskip"}
           THEN [uf32 |-> "f32", uf64 |-> "f64", uv32 |-> "v32", uv64 |-> "v64", ubuf |-> "buf", ulps |-> "lps", uskip |-> "skip"][o] ELSE o
Val(o, x) == IF o \in {"f32", "v32"} THEN W(x) ELSE x

TInit == kind = "vec" /\ data = <<>> /\ off = 0 /\ input = <<>> /\ pos = 0 /\ l = 1

Put(e) ==
    LET o == Base(e.o)
        x == Val(o, e.x)
        b == Encode(o, x)
        fits == kind = "vec" \/ off + Len(b) <= Len(data)
        prefix == IF o = "lps" THEN Varint(OfInt(Len(x))) ELSE <<>>
        \* a string that does not fit may leave its length behind
        half == o = "lps" /\ off + Len(prefix) <= Len(data) /\ e.off = off + Len(prefix) /\ Len(x) > 0
    IN  /\ e.ok = fits
        /\ data' = IF fits THEN WriteAt(data, off, b) ELSE IF half THEN WriteAt(data, off, prefix) ELSE data
        /\ off' = IF fits THEN off + Len(b) ELSE IF half THEN off + Len(prefix) ELSE off
        /\ e.off = off' /\ e.len = Len(data')
        /\ UNCHANGED <<kind, input, pos>>

Get(e) ==
    LET o == Base(e.o)
        n == IF e.n >= 1073741824 THEN 1073741824 ELSE e.n
        r == Decode(o, input, pos, n)
        p == IF o = "lps" THEN DecodeVarint(input, pos, 4) ELSE Fail
    IN  /\ e.ok = r.ok
        /\ r.ok => Val(o, e.v) = r.v /\ e.off = r.off
        \* a refused read leaves the position, or has read the length of a string
        /\ ~r.ok => TRUE = (e.off = pos \/ (p.ok /\ e.off = p.off))
        /\ e.can = (e.off < Len(input))
        /\ pos' = e.off
        /\ UNCHANGED <<kind, data, off, input>>

\* 77, a string of n bytes and 0x01020304, written one after the other and read back; the event has the first bytes,
\* where the string begins, and what follows it
Far(e) ==
    LET p == Varint(OfInt(e.n))
        h == 1 + Len(p)
        end == h + e.n + 4
        fits == e.room = 0 \/ end <= e.room
        string == e.room = 0 \/ h + e.n <= e.room
    IN  /\ e.ok = <<TRUE, string, fits>>
        /\ fits => /\ e.off = end /\ e.len = IF e.room = 0 THEN end ELSE e.room
                   /\ SubSeq(e.head, 1, h) = <<77>> \o p
                   /\ e.at = h /\ e.tail = <<4, 3, 2, 1>> \o [i \in 1 .. IF e.room = 0 THEN 0 ELSE e.room - end |-> 0]
                   /\ e.same /\ e.offs = <<h + e.n, end>> /\ e.can = (e.room > end)

Step(e) ==
    CASE e.e = "case" -> kind' = "vec" /\ data' = <<>> /\ off' = 0 /\ input' = <<>> /\ pos' = 0
      [] e.e = "new" -> kind' = e.kind /\ data' = e.init /\ off' = 0 /\ input' = <<>> /\ pos' = 0
      [] e.e = "put" -> Put(e)
      [] e.e = "encoded" -> e.b = data /\ UNCHANGED cvars
      [] e.e = "cut" -> data' = SubSeq(data, 1, e.n) /\ UNCHANGED <<kind, off, input, pos>>
      [] e.e = "decoder" -> e.limit = Len(data) /\ input' = data /\ pos' = 0 /\ UNCHANGED <<kind, data, off>>
      [] e.e = "get" -> Get(e)
      [] e.e = "vlen" -> e.r = VarintLen(e.x) /\ UNCHANGED cvars
      [] e.e = "far" -> Far(e) /\ UNCHANGED cvars
      [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
