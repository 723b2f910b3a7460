------------------------------- MODULE Slices -------------------------------
(* Slices (src/util/slice.rs, src/util/unsafe_slice.rs) are byte strings. *)
EXTENDS Bytes
VARIABLES slices,       \* what the slices hold
          views,        \* what the slices in an arena hold
          owned         \* slices made from those
svars == <<slices, views, owned>>

\* n bytes from offset a on (from 0); -1 where there are none
Cut(s, a, n) == IF a + n <= Len(s) THEN SubSeq(s, a + 1, a + n) ELSE -1
Merged(s, t, joiner) == IF t = <<>> THEN s ELSE s \o joiner \o t
Counting(s, a, b) == [i \in DOMAIN s |-> IF i > a /\ i <= b THEN (i - a) % 256 ELSE s[i]]

\* whether bytes are UTF-8
Cont(b, i) == i <= Len(b) /\ b[i] \in 128 .. 191
RECURSIVE Utf8(_, _)
Utf8(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE CASE b[i] < 128 -> Utf8(b, i + 1)
           [] b[i] \in 194 .. 223 -> Cont(b, i + 1) /\ Utf8(b, i + 2)
           [] b[i] \in 224 .. 239 -> /\ Cont(b, i + 1) /\ Cont(b, i + 2)
                                     /\ (b[i] = 224 => b[i + 1] >= 160) /\ (b[i] = 237 => b[i + 1] < 160)
                                     /\ Utf8(b, i + 3)
           [] b[i] \in 240 .. 244 -> /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
                                     /\ (b[i] = 240 => b[i + 1] >= 144) /\ (b[i] = 244 => b[i + 1] < 144)
                                     /\ Utf8(b, i + 4)
           [] OTHER -> FALSE
=============================================================================
