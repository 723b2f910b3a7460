--------------------------- MODULE CacheConcTrace ---------------------------
(* Concurrent histories of the real cache: calls begin and end; in between each takes effect once (Lin).        *)
(* The total charge is the sum of the shards' charges, each read at some moment of the call.                     *)
EXTENDS CacheShard, Integers, FiniteSets, Functions, TraceBase

VARIABLES
    sh,         \* shard -> its value
    cap, shardOf,
    pend        \* thread -> the call in progress

vars == <<sh, cap, shardOf, pend, l>>

None == [o |-> "none"]
TInit == sh = [s \in {1} |-> Empty] /\ cap = 0 /\ shardOf = <<>> /\ pend = [t \in {1} |-> None] /\ l = 1

SeqToSet(s) == {s[i] : i \in DOMAIN s}

\* call t takes effect; a total charge reads one more shard
Lin(t) ==
    /\ pend[t].o \in {"insert", "lookup", "charge"} /\ pend[t].todo # {}
    /\ \E s \in pend[t].todo :
        LET p == pend[t] IN
        CASE p.o = "insert" ->
                /\ sh' = [sh EXCEPT ![s] = Inserted(@, p.k, p.v, p.c, cap)]
                /\ pend' = [pend EXCEPT ![t].todo = {}, ![t].r = 0]
          [] p.o = "lookup" ->
                /\ pend' = [pend EXCEPT ![t].todo = {}, ![t].r = Value(sh[s], p.k)]
                /\ UNCHANGED sh
          [] p.o = "charge" ->
                /\ pend' = [pend EXCEPT ![t].todo = @ \ {s}, ![t].r = @ + sh[s].u]
                /\ UNCHANGED sh
    /\ UNCHANGED <<cap, shardOf, l>>

Event(e) ==
    CASE e.e = "case" -> sh' = [s \in {1} |-> Empty] /\ cap' = 0 /\ shardOf' = <<>> /\ pend' = [t \in {1} |-> None]
      [] e.e = "new" ->
            /\ sh' = [s \in SeqToSet(e.shards) |-> Empty] /\ cap' = CapOf(e.cap) /\ shardOf' = e.shards
            /\ pend' = [t \in 1 .. e.n |-> None]
      [] e.e = "setup" ->
            /\ sh' = [sh EXCEPT ![shardOf[e.k]] = Inserted(@, e.k, e.v, e.c, cap)]
            /\ UNCHANGED <<cap, shardOf, pend>>
      [] e.e = "inv" ->
            /\ pend[e.t].o = "none"
            /\ pend' = [pend EXCEPT ![e.t] = [o |-> e.o, k |-> e.k, v |-> e.v, c |-> e.c, r |-> 0,
                                              todo |-> IF e.o = "charge" THEN DOMAIN sh ELSE {shardOf[e.k]}]]
            /\ UNCHANGED <<sh, cap, shardOf>>
      [] e.e = "ret" ->
            /\ pend[e.t].o # "none" /\ pend[e.t].todo = {} /\ pend[e.t].r = e.r
            /\ pend' = [pend EXCEPT ![e.t] = None]
            /\ UNCHANGED <<sh, cap, shardOf>>
      [] e.e = "final" ->
            /\ \A t \in DOMAIN pend : pend[t].o = "none"
            /\ e.r = Value(sh[shardOf[e.k]], e.k)
            /\ UNCHANGED <<sh, cap, shardOf, pend>>
      [] e.e = "total" ->
            /\ e.r = FoldFunction(LAMBDA x, sum : x.u + sum, 0, sh)
            /\ UNCHANGED <<sh, cap, shardOf, pend>>
      \* threads with keys of their own (Apart in CacheConc): each sees what it did, the total is that of all
      [] e.e = "raced" ->
            /\ \A t \in DOMAIN e.wrong : e.wrong[t] = 0
            /\ e.there = e.keys
            /\ e.total = FoldFunction(LAMBDA x, sum : x + sum, 0, e.sums)
            \* with charges that only grow, the total never goes down
            /\ e.drops = 0
            /\ UNCHANGED <<sh, cap, shardOf, pend>>
      [] OTHER -> FALSE

\* linearisation points are only taken when the next event needs one: before a return
TraceNext ==
    /\ l <= Len(Trace)
    /\ \/ Event(Trace[l]) /\ l' = l + 1
       \/ Trace[l].e = "ret" /\ \E t \in DOMAIN pend : Lin(t)

TraceSpec == TInit /\ [][TraceNext]_vars

\* silent steps: the furthest event reached is kept in a register (one worker)
Furthest == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
AcceptedSilent ==
    LET d == TLCGet(1) - 1
    IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1>>) /\ FALSE)
ASSUME TLCSet(1, 0)
=============================================================================
