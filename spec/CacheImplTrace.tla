--------------------------- MODULE CacheImplTrace ---------------------------
(* Calls recorded from the real cache against the layout of its shards: results, and the size of the tables. *)
EXTENDS CacheImpl, Integers, TraceBase

VARIABLES st,       \* the shards of the keys of the case: shard -> layout
          env       \* the case: capacity of a shard, first length of a table, hash bits and shards of the keys

vars == <<st, env, l>>
SeqToSet(s) == {s[i] : i \in DOMAIN s}

\* the constants of the code
MinLength == 16
DefaultLength == NShards * MinLength
FirstLength(len) == FormatLength((IF len <= DefaultLength THEN DefaultLength ELSE len) \div NShards, MinLength)

\* all slots: the shards without a key keep their first table
Slots(sh, e) == FoldFunction(LAMBDA s, sum : s.len + sum, (NShards - Cardinality(DOMAIN sh)) * e.first, sh)
Charge(sh) == FoldFunction(LAMBDA s, sum : s.use + sum, 0, sh)

None == [cap |-> 0, first |-> 0, h |-> << >>, shards |-> << >>]
TInit == st = << >> /\ env = None /\ l = 1

Seen(e) == st' # << >> => e.s = Slots(st', env) /\ e.t = Charge(st')

On(k, s) == st' = [st EXCEPT ![env.shards[k]] = s] /\ UNCHANGED env
Of(k) == st[env.shards[k]]

Step(e) ==
    CASE e.e = "case" -> st' = << >> /\ env' = None
      [] e.e = "new" ->
            /\ env' = [cap |-> CapOf(e.cap), first |-> FirstLength(e.len), h |-> e.h, shards |-> e.shards]
            /\ st' = [i \in SeqToSet(e.shards) |-> NewShard(FirstLength(e.len))]
            /\ e.s = NShards * FirstLength(e.len)
      [] e.e = "insert" ->
            /\ e.ok
            /\ On(e.k, DoInsert(Of(e.k), e.v, e.k, env.h[e.k], e.v, e.c, env.cap))
            /\ Seen(e)
      [] e.e = "lookup" -> e.r = DoLookup(Of(e.k), e.k, env.h[e.k]) /\ UNCHANGED <<st, env>> /\ Seen(e)
      [] e.e = "erase" -> e.ok /\ On(e.k, DoErase(Of(e.k), e.k, env.h[e.k])) /\ Seen(e)
      [] e.e = "prune" -> e.ok /\ st' = [i \in DOMAIN st |-> NewShard(env.first)] /\ UNCHANGED env /\ Seen(e)
      [] e.e \in {"drop", "end"} -> st' = << >> /\ UNCHANGED env
      [] e.e = "release" -> UNCHANGED <<st, env>>
      [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
