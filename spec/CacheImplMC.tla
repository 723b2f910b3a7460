---------------------------- MODULE CacheImplMC ----------------------------
(* The layout of a shard explored completely with a few keys, and that it refines CacheShard. *)
EXTENDS CacheImpl, TLC

CONSTANTS HashOf, MaxCharge, Cap, Min, Versions

VARIABLE st

Keys == DOMAIN HashOf

\* a key has one node at most: the key serves as its address (which one the allocator takes makes no difference)
Init == st = NewShard(Min)

Next ==
    \/ \E k \in Keys, c \in 0 .. MaxCharge, v \in Versions : st' = DoInsert(st, k, k, HashOf[k], v, c, Cap)
    \/ \E k \in Keys : st' = DoErase(st, k, HashOf[k])
    \/ st' = DoPrune(st, Min)

Spec == Init /\ [][Next]_st

Layout == ChainsRight(st) /\ LruRight(st) /\ CountRight(st) /\ NotOverfull(st)
Slots == \E e \in 0 .. 10 : st.len = Min * 2 ^ e
Found == \A k \in Keys : DoLookup(st, k, HashOf[k]) = Value(Abs(st), k)
Usage == st.use = Charges(Abs(st).s) /\ (st.n = 0 \/ st.use < Cap)

\* every step is a step of the shard
Refines == [][
    \/ \E k \in Keys, c \in 0 .. MaxCharge, v \in Versions : Abs(st') = Inserted(Abs(st), k, v, c, Cap)
    \/ \E k \in Keys : Abs(st') = Erased(Abs(st), k)
    \/ Abs(st') = Empty]_st
\* and the table never shrinks but when it is emptied
Shrinks == [][st'.len < st.len => st'.n = 0]_st

Chain4 == <<0, 2, 6, 1>>    \* with two slots at first: one chain of three that splits twice, another of one
Same3 == <<5, 5, 5>>        \* equal hashes never part
Spread5 == <<0, 1, 2, 3, 7>>
=============================================================================
