------------------------------ MODULE ArenaMC ------------------------------
(* Every sequence of a few requests; the regions and blocks behind Arena.tla. *)
EXTENDS Arena, FiniteSets, TLC, Json
CONSTANTS Sizes, MaxOps
VARIABLES a, blocks, regions, op
vars == <<a, blocks, regions, op>>

Init == a = Fresh /\ blocks = <<>> /\ regions = {} /\ op = 0

\* the current block is the last one of size BS that was not made for one request
Cur == CHOOSE b \in DOMAIN blocks : blocks[b].cur
Do(n) ==
    /\ Cardinality(regions) < MaxOps
    /\ a' = Alloc(a, n)
    /\ op' = n
    /\ IF Fits(a, n)
       THEN /\ regions' = regions \cup {[b |-> Cur, o |-> BS - a.rem, n |-> n, i |-> Cardinality(regions)]}
            /\ UNCHANGED blocks
       ELSE /\ blocks' = Append(IF Own(a, n) THEN blocks ELSE [b \in DOMAIN blocks |-> [blocks[b] EXCEPT !.cur = FALSE]],
                                [size |-> IF Own(a, n) THEN n ELSE BS, cur |-> ~Own(a, n)])
            /\ regions' = regions \cup {[b |-> Len(blocks) + 1, o |-> 0, n |-> n, i |-> Cardinality(regions)]}
Next == \E n \in Sizes : Do(n)
Spec == Init /\ [][Next]_vars

Inside == \A r \in regions : r.o + r.n <= blocks[r.b].size
Disjoint == \A r, s \in regions : (r # s /\ r.b = s.b) => r.o + r.n <= s.o \/ s.o + s.n <= r.o
RECURSIVE Total(_)
Total(bs) == IF bs = <<>> THEN 0 ELSE bs[1].size + Total(Tail(bs))
Usage == a.usage = Total(blocks)
OneCurrent == Cardinality({b \in DOMAIN blocks : blocks[b].cur}) = IF a.has THEN 1 ELSE 0

View == <<a.has, a.rem>>
FullView == <<a, blocks, regions>>
Edge == PrintT("EDGE " \o ToJson([s |-> ToString(View), t |-> ToString(View'), o |-> op']))
=============================================================================
