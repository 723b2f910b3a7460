-------------------------- MODULE CachePoisonTrace --------------------------
(* Calls recorded from the real cache with values that panic (harness/src/poison.rs). *)
EXTENDS CachePoison, Integers, TraceBase

vars == <<pvars, l>>
SeqToSet(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

TInit == PoisonInit(<<>>, 0, {1}) /\ l = 1

Reset ==
    /\ shards' = << >> /\ caps' = 0 /\ shardOf' = <<>> /\ held' = << >>
    /\ freed' = {} /\ next' = 1 /\ alive' = FALSE
    /\ bad' = {} /\ limbo' = {} /\ bombs' = {} /\ armed' = TRUE

New(e) ==
    /\ shards' = [i \in SeqToSet(e.shards) |-> Empty] /\ caps' = CapOf(e.cap) /\ shardOf' = e.shards
    /\ held' = << >> /\ freed' = {} /\ next' = 1 /\ alive' = TRUE
    /\ bad' = {} /\ limbo' = {} /\ bombs' = {} /\ armed' = TRUE

Call(e) ==
    CASE e.e = "insert" -> e.v = next /\ Insert(e.k, e.c, e.b, e.r, SeqToSet(e.rel))
      [] e.e = "lookup" -> Lookup(e.k, e.h, e.r, SeqToSet(e.rel))
      [] e.e = "erase" -> Erase(e.k, e.r, SeqToSet(e.rel))
      [] e.e = "prune" -> Prune(e.r, SeqToSet(e.rel))
      [] e.e = "arm" -> Arm(e.on)
      [] e.e = "drop" -> e.r = "ok" /\ Destroy(SeqToSet(e.rel))
      [] e.e = "release" -> Release(e.h, e.v, e.r, SeqToSet(e.rel))
      [] OTHER -> FALSE

\* a poisoned shard cannot be summed up
Sums(e) == ("t" \in DOMAIN e) => e.t = (IF bad' = {} THEN TotalCharge' ELSE 0 - 1) /\ e.s = (IF bad' = {} THEN 1 ELSE 0 - 1)

Step(e) ==
    CASE e.e = "case" -> Reset
      [] e.e = "new" -> New(e)
      [] e.e = "end" ->
            /\ ~alive /\ held = << >>
            /\ TRUE = (bad # {} \/ e.leak = 0)
            /\ freed \cup limbo = 1 .. (next - 1)
            /\ UNCHANGED pvars
      [] e.e \in {"insert", "lookup", "erase", "prune", "drop", "release", "arm"} -> Call(e) /\ NoDup(e.rel) /\ TRUE = Sums(e)
      [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars

\* an interrupted or refused prune leaves open what it did: accepted if some run of the specification fits
Furthest == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
AcceptedSilent ==
    LET d == TLCGet(1) - 1
    IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1>>) /\ FALSE)
ASSUME TLCSet(1, 0)
=============================================================================
