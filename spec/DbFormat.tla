------------------------------ MODULE DbFormat ------------------------------
(* Entries of the memory table and lookup keys (src/db/mem_table.rs, src/db/db_format.rs). *)
EXTENDS Coding
O == INSTANCE Bytes

Deletion == 0
Value == 1
\* s: the sequence number, 8 bytes, below 2^56
Pack(s, t) == <<t>> \o SubSeq(s, 1, 7)
InternalKey(k, s, t) == k \o Pack(s, t)
Prefixed(b) == Encode("lps", b)
Entry(k, s, t, v) == Prefixed(InternalKey(k, s, t)) \o Prefixed(v)
LookupKey(k, s) == Prefixed(InternalKey(k, s, Value))

\* what an entry says, for whoever reads it: the inverse of Entry
Parse(e) ==
    LET i == Decode("lps", e, 0, 0)
        v == Decode("lps", e, i.off, 0)
        n == Len(i.v) - 8
    IN  IF ~i.ok \/ n < 0 \/ ~v.ok \/ v.off # Len(e) THEN <<>>
        ELSE <<SubSeq(i.v, 1, n), SubSeq(i.v, n + 2, n + 8) \o <<0>>, i.v[n + 1], v.v>>
=============================================================================
