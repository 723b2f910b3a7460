---------------------------- MODULE OrderedList ----------------------------
(***************************************************************************)
(* What a skip list is for its users: the keys inserted, in order, and     *)
(* iterators that stand before the first key, on a key or behind the last. *)
(* Order(i, j) compares two keys (2: they cannot be compared).             *)
(* HEAD and TAIL are two values that are no keys.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Order(_, _), HEAD, TAIL
VARIABLES
    list,   \* the keys, ascending
    its     \* iterator -> HEAD, TAIL or a key

Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]

\* the position of the first key of s[lo ..] that is not below k (Len(s) + 1: there is none)
RECURSIVE LowerBound(_, _, _, _)
LowerBound(s, k, lo, hi) ==
    IF lo > hi THEN lo
    ELSE LET m == (lo + hi) \div 2 IN
         IF Order(s[m], k) < 0 THEN LowerBound(s, k, m + 1, hi) ELSE LowerBound(s, k, lo, m - 1)
Place(k) == LowerBound(list, k, 1, Len(list))
Comparable(k) == list = <<>> \/ Order(list[1], k) # 2
Present(k) == list # <<>> /\ Comparable(k) /\ LET p == Place(k) IN p <= Len(list) /\ Order(list[p], k) = 0

OInit == list = <<>> /\ its = << >>

\* inserting a key that cannot be compared is refused; inserting an equal key again changes nothing
OInsert(k, ok) ==
    /\ ok = Comparable(k)
    /\ list' = IF ~Comparable(k) \/ Present(k) THEN list
               ELSE LET p == Place(k) IN SubSeq(list, 1, p - 1) \o <<k>> \o SubSeq(list, p, Len(list))
    /\ UNCHANGED its

OContains(k, r) == r = Present(k) /\ UNCHANGED <<list, its>>
OAll(r, n) == r = list /\ n = Len(list) /\ UNCHANGED <<list, its>>

FirstOf(s) == IF s = <<>> THEN TAIL ELSE s[1]
LastOf(s) == IF s = <<>> THEN TAIL ELSE s[Len(s)]
After(pos) ==
    CASE pos = HEAD -> FirstOf(list)
      [] pos = TAIL -> TAIL
      [] OTHER -> LET p == Place(pos) IN IF p = Len(list) THEN TAIL ELSE list[p + 1]
\* what an iterator shows: whether it is valid, and its key (HEAD: none)
Shows(pos, v, k) == v = (pos \notin {HEAD, TAIL}) /\ k = (IF v THEN pos ELSE HEAD)

ONew(s, v, k) == Shows(HEAD, v, k) /\ its' = Put(its, s, HEAD) /\ UNCHANGED list
OMove(s, to, v, k) == s \in DOMAIN its /\ Shows(to, v, k) /\ its' = Put(its, s, to) /\ UNCHANGED list
OFirst(s, v, k) == OMove(s, FirstOf(list), v, k)
OLast(s, v, k) == OMove(s, LastOf(list), v, k)
ONext(s, v, k) == OMove(s, After(its[s]), v, k)
=============================================================================
