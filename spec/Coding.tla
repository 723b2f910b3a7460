------------------------------- MODULE Coding -------------------------------
(***************************************************************************)
(* The encodings of src/util/coding.rs.  Numbers are their bytes, low byte *)
(* first (TLC's integers have 31 bits): 4 bytes or 8 bytes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
\* bit j (from 0) of a number given by its bytes
Bit(x, j) == (x[(j \div 8) + 1] \div Pow2[(j % 8) + 1]) % 2
NBits(x) == 8 * Len(x)

\* the value of w bits of x from bit j on; bits beyond the number are 0
RECURSIVE BitsFrom(_, _, _, _)
BitsFrom(x, j, w, i) == IF i = w \/ j + i >= NBits(x) THEN 0 ELSE Bit(x, j + i) * Pow2[i + 1] + BitsFrom(x, j, w, i + 1)
Group(x, i) == BitsFrom(x, 7 * i, 7, 0)

\* the number of groups of seven bits that hold x
RECURSIVE Groups(_, _)
Groups(x, n) == IF n = 1 \/ Group(x, n - 1) # 0 THEN n ELSE Groups(x, n - 1)
VarintLen(x) == Groups(x, (NBits(x) + 6) \div 7)
Varint(x) == LET n == VarintLen(x) IN [i \in 1 .. n |-> Group(x, i - 1) + (IF i < n THEN 128 ELSE 0)]

\* a length as a number of four bytes
OfInt(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
ToInt(x) == x[1] + 256 * x[2] + 65536 * x[3] + 16777216 * x[4]

\* ------------------------------------------------------------ writing
Encode(o, x) ==
    CASE o \in {"f32", "f64", "buf"} -> x
      [] o \in {"v32", "v64"} -> Varint(x)
      [] o = "lps" -> Varint(OfInt(Len(x))) \o x

\* data after b was written at offset off (from 0) of it
WriteAt(data, off, b) == SubSeq(data, 1, off) \o b \o SubSeq(data, off + Len(b) + 1, Len(data))

\* ------------------------------------------------------------ reading
Fail == [ok |-> FALSE, v |-> <<>>, off |-> 0]
\* the first byte of data from offset off on, below max bytes, that ends a varint (0: none)
RECURSIVE VarintEnd(_, _, _, _)
VarintEnd(data, off, max, i) ==
    IF i > max \/ off + i > Len(data) THEN 0
    ELSE IF data[off + i] < 128 THEN i ELSE VarintEnd(data, off, max, i + 1)

DecodeVarint(data, off, bytes) ==
    LET max == (8 * bytes + 6) \div 7
        n == VarintEnd(data, off, max, 1)
        \* bit j of the value; what does not fit in it is dropped
        b(j) == IF j \div 7 < n /\ j < 8 * bytes THEN (data[off + 1 + (j \div 7)] \div Pow2[(j % 7) + 1]) % 2 ELSE 0
    IN  IF n = 0 THEN Fail
        ELSE [ok |-> TRUE, off |-> off + n,
              v |-> [k \in 1 .. bytes |-> LET j == 8 * (k - 1) IN
                     b(j) + 2 * b(j + 1) + 4 * b(j + 2) + 8 * b(j + 3) + 16 * b(j + 4) + 32 * b(j + 5) + 64 * b(j + 6) + 128 * b(j + 7)]]

Take(data, off, n) == IF off + n > Len(data) THEN Fail ELSE [ok |-> TRUE, v |-> SubSeq(data, off + 1, off + n), off |-> off + n]

\* n: the length asked for, for the reads that need one
Decode(o, data, off, n) ==
    CASE o = "f32" -> Take(data, off, 4)
      [] o = "f64" -> Take(data, off, 8)
      [] o = "v32" -> DecodeVarint(data, off, 4)
      [] o = "v64" -> DecodeVarint(data, off, 8)
      [] o = "lps" -> LET p == DecodeVarint(data, off, 4) IN
            IF ~p.ok \/ p.v[4] >= 64 THEN Fail ELSE Take(data, p.off, ToInt(p.v))
      [] o = "buf" -> Take(data, off, n)
      [] o = "skip" -> LET t == Take(data, off, n) IN IF t.ok THEN [t EXCEPT !.v = <<off + n>>] ELSE Fail
=============================================================================
