------------------------------- MODULE MiscMC -------------------------------
(* C24, C25, C28 on the specifications themselves. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS What, MaxOps
VARIABLES nodes, head, tail, length, hists, seed, ghost
L == INSTANCE LinkedList
G == INSTANCE Histogram
R == INSTANCE Rand
lists == <<nodes, head, tail, length>>
vars == <<lists, hists, seed, ghost>>

Seeds == {<<x, y>> : x, y \in {0, 1, 2, 301, 16807, 32767, 32768, 65535}}
Init ==
    /\ L!LInit /\ hists = <<<<>>, <<>>>> /\ ghost = <<>>
    /\ IF What = "rand" THEN \E s \in Seeds : seed = R!Start(s) ELSE seed = <<0, 1>>

Cut(s, a, b) == SubSeq(s, a, b)
\* the node by node list against a sequence
ListNext ==
    /\ Len(ghost) < MaxOps
    /\ LET x == Len(ghost) + 1 IN
       \/ L!LAddFirst(x) /\ ghost' = <<x>> \o ghost
       \/ L!LAddLast(x) /\ ghost' = Append(ghost, x)
       \/ \E p \in 0 .. Len(ghost) : L!LAddAt(p, x, 1) /\ ghost' = Cut(ghost, 1, p) \o <<x>> \o Cut(ghost, p + 1, Len(ghost))
    /\ UNCHANGED <<hists, seed>>
\* C24: a sequence, walked from either end
RECURSIVE From(_, _)
From(p, forward) == IF p = 0 THEN <<>> ELSE <<nodes[p].val>> \o From(IF forward THEN nodes[p].next ELSE nodes[p].prev, forward)
ListOk == What = "list" =>
    /\ L!Elements = ghost /\ length = Len(ghost) /\ From(head, TRUE) = ghost
    /\ From(tail, FALSE) = [i \in 1 .. Len(ghost) |-> ghost[Len(ghost) + 1 - i]]
    /\ (head = 0) = (length = 0) /\ (tail = 0) = (length = 0)
ListRefuses == What = "list" => ~ENABLED L!LAddAt(length + 1, 0, 1)

Samples == {<<>>, <<1>>, <<4>>, <<39>>, <<40>>, <<47>>, <<48>>, <<5000, 1>>, <<0, 0, 0, 5>>}
HistNext ==
    /\ Len(ghost) < MaxOps
    /\ \/ \E i \in 1 .. 2, x \in Samples : G!HAdd(i, x)
       \/ G!HMerge(1, 2) \/ G!HMerge(2, 1) \/ G!HClear(1)
    /\ ghost' = Append(ghost, 0)
    /\ UNCHANGED <<lists, seed>>
\* C25: each sample is in its bucket, the median between the least and the greatest and in the bucket of the middle
HistOk == What = "hist" =>
    \A i \in 1 .. 2 :
        LET s == hists[i]
            bs == [k \in DOMAIN s |-> G!Bucket(s[k])]
        IN  s # <<>> =>
            /\ \A k \in DOMAIN s : G!BLE(G!Quarters(G!LeftEnd(bs[k])), s[k]) /\ (bs[k] < 154 => G!BCmp(s[k], G!Ends[bs[k]]) < 0)
            /\ LET m == G!Median(s, bs) IN
               /\ G!BLE(G!BMul(G!Least(s), m[2]), m[1]) /\ G!BLE(m[1], G!BMul(G!Greatest(s), m[2]))
               /\ G!BLE(G!BMul(G!Quarters(G!LeftEnd(m[3])), m[2]), m[1])
               /\ m[3] < 154 => G!BLE(m[1], G!BMul(G!Ends[m[3]], m[2]))
            /\ G!BLE(G!BMul(G!Sum(s), G!Sum(s)), G!BMul(G!Squares(s), G!Big(Len(s))))

RandNext == Len(ghost) < MaxOps /\ seed' = R!Following(seed) /\ ghost' = Append(ghost, 0) /\ UNCHANGED <<lists, hists>>
\* C28: never 0, at most 2^31 - 1 once it has drawn, and draws below their bound
RandOk == What = "rand" =>
    /\ seed # <<0, 0>>
    /\ ghost # <<>> => seed[1] < 32768
    /\ \A n \in {1, 2, 10, 1000} : R!Draw(seed, n) \in 0 .. n - 1

Next == CASE What = "list" -> ListNext [] What = "hist" -> HistNext [] What = "rand" -> RandNext
Spec == Init /\ [][Next]_vars
=============================================================================
