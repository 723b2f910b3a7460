----------------------------- MODULE CacheTrace -----------------------------
(* Calls recorded from the real cache (harness/src/cache.rs) against Cache.tla. *)
EXTENDS Cache, Integers, TraceBase
CONSTANT Focus      \* what is compared besides the results of the calls: "charge", "life"

vars == <<cvars, l>>

SeqToSet(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

\* the values an event reports as released: each once
Rel(e) == IF "life" \in Focus THEN SeqToSet(e.rel) ELSE {}
Life(e, hd, sh, extra) == Released(Cached \cup Held \cup extra, sh, hd)
Charge(e) == ("charge" \in Focus /\ "t" \in DOMAIN e) => e.t = TotalCharge'
Once(e) == "life" \in Focus => NoDup(e.rel)
Rels(e) == IF "life" \in Focus THEN {SeqToSet(e.rel)} ELSE {}

TInit ==
    /\ CacheInit(<<>>, 0, {1})
    /\ l = 1

Reset ==
    /\ shards' = [i \in {1} |-> Empty] /\ caps' = 0 /\ shardOf' = <<>> /\ held' = << >>
    /\ freed' = {} /\ next' = 1 /\ alive' = FALSE

New(e) ==
    /\ shards' = [i \in SeqToSet(e.shards) |-> Empty]
    /\ caps' = CapOf(e.cap)
    /\ shardOf' = e.shards
    /\ held' = << >> /\ freed' = {} /\ next' = 1 /\ alive' = TRUE
    /\ "charge" \in Focus => e.c = e.cap

\* what the call must have released, as the trace reports it or (out of focus) as the specification says
RelOf(e, sh, hd, extra) == IF "life" \in Focus THEN SeqToSet(e.rel) ELSE Life(e, hd, sh, extra)

Call(e) ==
    CASE e.e = "insert" ->
            /\ e.ok /\ e.v = next
            /\ Insert(e.k, e.c, RelOf(e, [shards EXCEPT ![shardOf[e.k]] = Inserted(@, e.k, next, e.c, caps)], held, {next}))
      [] e.e = "lookup" ->
            /\ Lookup(e.k, e.h, e.r, IF "life" \in Focus THEN SeqToSet(e.rel) ELSE {})
      [] e.e = "erase" -> e.ok /\ Erase(e.k, RelOf(e, [shards EXCEPT ![shardOf[e.k]] = Erased(@, e.k)], held, {}))
      [] e.e = "prune" -> e.ok /\ Prune(RelOf(e, [i \in DOMAIN shards |-> Empty], held, {}))
      [] e.e = "drop" -> Destroy(RelOf(e, [i \in DOMAIN shards |-> Empty], held, {}))
      [] e.e = "release" -> Release(e.h, e.r, RelOf(e, shards, [h \in DOMAIN held \ {e.h} |-> held[h]], {}))
      [] OTHER -> FALSE

Step(e) ==
    CASE e.e = "case" -> Reset
      [] e.e = "new" -> New(e)
      [] e.e = "end" -> e.leak = 0 /\ ~alive /\ held = << >> /\ freed = 1 .. (next - 1) /\ UNCHANGED cvars
      [] e.e \in {"insert", "lookup", "erase", "prune", "drop", "release"} -> Call(e) /\ Once(e) /\ Charge(e)
      [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
