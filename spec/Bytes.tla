------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of numbers from 0 to 255. *)
EXTENDS Integers, Sequences

\* the first place at which a and b differ, if there is one from lo to hi
RECURSIVE FirstDiff(_, _, _, _)
FirstDiff(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF SubSeq(a, lo, m) = SubSeq(b, lo, m) THEN FirstDiff(a, b, m + 1, hi) ELSE FirstDiff(a, b, lo, m)

\* lexicographic order of unsigned bytes, a prefix first: -1, 0 or 1 (C19)
Compare(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b) IN
    IF SubSeq(a, 1, n) = SubSeq(b, 1, n)
    THEN IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
    ELSE LET i == FirstDiff(a, b, 1, n) IN IF a[i] < b[i] THEN -1 ELSE 1

\* the other orders the harness gives to the skip list; 2: not comparable
Fold(a) == [i \in DOMAIN a |-> IF a[i] >= 97 /\ a[i] <= 122 THEN a[i] - 32 ELSE a[i]]
\* trailing zero bytes say nothing
Trim(a) == IF \A i \in DOMAIN a : a[i] = 0 THEN <<>>
           ELSE SubSeq(a, 1, CHOOSE i \in DOMAIN a : a[i] # 0 /\ \A j \in i + 1 .. Len(a) : a[j] = 0)
High(a) == a # <<>> /\ a[1] >= 128
CompareIn(order, a, b) ==
    CASE order = "byte" -> Compare(a, b)
      [] order = "rev" -> Compare(b, a)
      [] order = "fold" -> Compare(Fold(a), Fold(b))
      [] order = "trim" -> Compare(Trim(a), Trim(b))
      [] order = "len" -> IF Len(a) = Len(b) THEN Compare(a, b) ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
      [] order = "part" -> IF High(a) # High(b) THEN 2 ELSE Compare(a, b)

HasPrefix(a, p) == Len(p) <= Len(a) /\ SubSeq(a, 1, Len(p)) = p
=============================================================================
