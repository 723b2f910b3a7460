------------------------------ MODULE MemTable ------------------------------
(***************************************************************************)
(* The memory table: a skip list of entries, in the order of the table's   *)
(* comparator (bytewise, over the whole entry).                            *)
(***************************************************************************)
EXTENDS DbFormat
VARIABLE entries        \* ascending

RECURSIVE Lower(_, _, _, _)
Lower(s, k, lo, hi) == IF lo > hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF O!Compare(s[m], k) < 0 THEN Lower(s, k, m + 1, hi) ELSE Lower(s, k, lo, m - 1)

MInit == entries = <<>>
MAdd(k, s, t, v) ==
    LET e == Entry(k, s, t, v)
        p == Lower(entries, e, 1, Len(entries))
    IN  entries' = IF p <= Len(entries) /\ entries[p] = e THEN entries ELSE SubSeq(entries, 1, p - 1) \o <<e>> \o SubSeq(entries, p, Len(entries))
MDump(r, n) == r = entries /\ n = Len(entries) /\ UNCHANGED entries
=============================================================================
