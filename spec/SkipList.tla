------------------------------ MODULE SkipList ------------------------------
(***************************************************************************)
(* The skip list of src/db/skip_list.rs, pointer by pointer: nodes of      *)
(* random heights, searched from the highest level down.  Keys are         *)
(* 1 .. NKeys, compared by CMP; HEAD and TAIL are nodes as well.           *)
(* It refines OrderedList: the same calls get the same answers.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NKeys, MaxH, Slots,
          Rank,         \* key -> its rank in the order, keys of one rank are equal
          Class         \* key -> keys of different classes cannot be compared

VARIABLES nxt,          \* node -> sequence of the nodes that follow it, one a level
          height, num, its, op
vars == <<nxt, height, num, its, op>>

HEAD == 0
TAIL == -1
Keys == 1 .. NKeys
Ord(i, j) == IF Class[i] # Class[j] THEN 2 ELSE IF Rank[i] < Rank[j] THEN -1 ELSE IF Rank[i] = Rank[j] THEN 0 ELSE 1

Init == /\ nxt = [x \in {HEAD} |-> [i \in 1 .. MaxH |-> TAIL]]
        /\ height = 0 /\ num = 0 /\ its = << >> /\ op = <<"new">>

\* walk along level v from node cur to the last one before k: <<node, "less" | "tail" | "eq" | "none">>
RECURSIVE Walk(_, _, _)
Walk(cur, v, k) ==
    LET e == nxt[cur][v] IN
    IF e = TAIL THEN <<cur, "tail">>
    ELSE CASE Ord(k, e) = -1 -> <<cur, "less">>
           [] Ord(k, e) = 0 -> <<e, "eq">>
           [] Ord(k, e) = 2 -> <<cur, "none">>
           [] OTHER -> Walk(e, v, k)

RECURSIVE Search(_, _, _)
Search(cur, v, k) ==
    IF v = 0 THEN FALSE
    ELSE LET w == Walk(cur, v, k) IN
         CASE w[2] = "eq" -> TRUE
           [] w[2] = "none" -> FALSE
           [] OTHER -> Search(w[1], v - 1, k)
Contains(k) == num > 0 /\ Search(HEAD, height, k)

\* the nodes after which k comes, level by level from v down; <<>> when k cannot be compared
RECURSIVE Before(_, _, _)
Before(cur, v, k) ==
    IF v = 0 THEN [p \in {} |-> 0]
    ELSE LET w == Walk(cur, v, k) IN (v :> w[1]) @@ Before(w[1], v - 1, k)
CanCompare(k) == num = 0 \/ Ord(k, nxt[HEAD][height]) # 2

Linked(k, h) ==
    LET pre == Before(HEAD, height, k)
        at(v) == IF v <= height THEN pre[v] ELSE HEAD
        node == [v \in 1 .. h |-> nxt[at(v)][v]]
    IN  (k :> node) @@ [x \in DOMAIN nxt |-> [v \in DOMAIN nxt[x] |-> IF v <= h /\ at(v) = x THEN k ELSE nxt[x][v]]]

Insert(k, h) ==
    /\ op' = <<"i", k - 1, h>>
    /\ IF Contains(k) \/ ~CanCompare(k) THEN UNCHANGED <<nxt, height, num>>
       ELSE /\ nxt' = Linked(k, h)
            /\ height' = IF h > height THEN h ELSE height
            /\ num' = num + 1
    /\ UNCHANGED its

RECURSIVE LastFrom(_, _)
LastFrom(cur, v) == IF v = 0 THEN cur ELSE IF nxt[cur][v] = TAIL THEN LastFrom(cur, v - 1) ELSE LastFrom(nxt[cur][v], v)
Last == LET x == LastFrom(HEAD, MaxH) IN IF x = HEAD THEN TAIL ELSE x
Put(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]

NewIter(s) == s \notin DOMAIN its /\ its' = Put(its, s, HEAD) /\ op' = <<"it", s>> /\ UNCHANGED <<nxt, height, num>>
Move(s) ==
    /\ s \in DOMAIN its
    /\ \/ its' = Put(its, s, nxt[HEAD][1]) /\ op' = <<"first", s>>
       \/ its' = Put(its, s, Last) /\ op' = <<"last", s>>
       \/ its' = Put(its, s, IF its[s] = TAIL THEN TAIL ELSE nxt[its[s]][1]) /\ op' = <<"next", s>>
    /\ UNCHANGED <<nxt, height, num>>

Next == (\E k \in Keys, h \in 1 .. MaxH : Insert(k, h)) \/ (\E s \in Slots : NewIter(s) \/ Move(s))
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what holds
RECURSIVE Chain(_, _)
Chain(x, v) == IF nxt[x][v] = TAIL THEN <<>> ELSE <<nxt[x][v]>> \o Chain(nxt[x][v], v)
Nodes == DOMAIN nxt \ {HEAD}
SortedLevels == \A v \in 1 .. MaxH : LET c == Chain(HEAD, v) IN \A i \in 1 .. Len(c) - 1 : Ord(c[i], c[i + 1]) = -1
\* a node is on every level up to its height and on no other
OnItsLevels == \A v \in 1 .. MaxH : LET c == Chain(HEAD, v) IN {c[i] : i \in DOMAIN c} = {x \in Nodes : Len(nxt[x]) >= v}
Counted == num = Cardinality(Nodes) /\ num = Len(Chain(HEAD, 1))
HeightRight == height = IF Nodes = {} THEN 0 ELSE CHOOSE h \in {Len(nxt[x]) : x \in Nodes} : \A x \in Nodes : Len(nxt[x]) <= h
Membership == \A k \in Keys : Contains(k) = (\E x \in Nodes : Ord(k, x) = 0)

\* the refinement
O == INSTANCE OrderedList WITH Order <- Ord, list <- Chain(HEAD, 1), its <- its
Shown(p) == p \notin {HEAD, TAIL}
OneStep ==
    \/ \E k \in Keys : O!OInsert(k, CanCompare(k))
    \/ \E s \in DOMAIN its' : LET v == Shown(its'[s])  k == IF v THEN its'[s] ELSE HEAD IN O!ONew(s, v, k) \/ O!OFirst(s, v, k) \/ O!OLast(s, v, k) \/ O!ONext(s, v, k)
Refines == O!OInit /\ [][OneStep]_<<nxt, its>>

View == <<nxt, height, num, its>>
Edge == PrintT("EDGE " \o ToJson([s |-> ToString(View), t |-> ToString(View'), o |-> op']))
R3 == <<1, 2, 3>>
R4 == <<1, 2, 3, 4>>
R5 == <<1, 2, 3, 4, 5>>
REq == <<1, 2, 2, 3>>       \* two equal keys
C3 == <<1, 1, 1>>
C4 == <<1, 1, 1, 1>>
C5 == <<1, 1, 1, 1, 1>>
CPart == <<1, 1, 2, 2>>
=============================================================================
