------------------------------ MODULE KeyOrder ------------------------------
(* LevelDB's shortened keys (src/util/comparator.rs). *)
EXTENDS Bytes

\* between a and b, for a < b; a itself where it cannot be shortened
Separator(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
    IF SubSeq(a, 1, n) = SubSeq(b, 1, n) THEN a
    ELSE LET i == FirstDiff(a, b, 1, n) IN
         IF a[i] < 255 /\ a[i] + 1 < b[i] THEN Append(SubSeq(a, 1, i - 1), a[i] + 1) ELSE a

Successor(a) ==
    IF \A i \in DOMAIN a : a[i] = 255 THEN a
    ELSE LET i == CHOOSE i \in DOMAIN a : a[i] < 255 /\ \A j \in 1 .. i - 1 : a[j] = 255
         IN  Append(SubSeq(a, 1, i - 1), a[i] + 1)
=============================================================================
