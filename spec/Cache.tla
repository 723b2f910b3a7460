------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The sharded cache of src/util/cache.rs, one action per public call.     *)
(*                                                                         *)
(* A shard is the sequence of its entries in the order they were inserted  *)
(* (the eviction list, oldest first) and the sum of their charges.  Values *)
(* are shared: an entry and any number of users hold a value, which is     *)
(* released when the last of them lets go.                                 *)
(*                                                                         *)
(* Deviation from LevelDB, modelled as implemented: a lookup does not      *)
(* move the entry to the young end, so eviction is in order of insertion.  *)
(***************************************************************************)
EXTENDS CacheShard, FiniteSets, Functions

VARIABLES
    shards,     \* the shards, each [s |-> entries oldest first, u |-> charge in use]
    caps,       \* the capacity of one shard; 0 .. is a shard that keeps nothing
    shardOf,    \* key -> shard
    held,       \* slot -> value held by a user (a function with a growing domain)
    freed,      \* values released so far
    next,       \* the next value
    alive       \* FALSE once the cache is destroyed

cvars == <<shards, caps, shardOf, held, freed, next, alive>>

\* ------------------------------------------------------------ the cache
Shard(k) == shards[shardOf[k]]

TotalCharge == FoldFunction(LAMBDA sh, sum : sh.u + sum, 0, shards)

Cached == UNION {Values(shards[i]) : i \in DOMAIN shards}
Held == {held[h] : h \in DOMAIN held}

\* values that are neither in the shards sh nor held by hd, and were not released before
Released(before, sh, hd) ==
    before \ (UNION {Values(sh[i]) : i \in DOMAIN sh} \cup {hd[h] : h \in DOMAIN hd})

CacheInit(sf, total, sset) ==
    /\ shards = [i \in sset |-> Empty]
    /\ caps = CapOf(total)
    /\ shardOf = sf
    /\ held = << >>
    /\ freed = {}
    /\ next = 1
    /\ alive = TRUE

\* every action names what it releases, so that a trace can bind it
Change(sh, hd, extra, rel) ==
    /\ rel = Released(Cached \cup Held \cup extra, sh, hd)
    /\ freed' = freed \cup rel
    /\ shards' = sh
    /\ held' = hd
    /\ UNCHANGED <<caps, shardOf>>

Insert(k, c, rel) ==
    /\ alive
    /\ Change([shards EXCEPT ![shardOf[k]] = Inserted(@, k, next, c, caps)], held, {next}, rel)
    /\ next' = next + 1
    /\ UNCHANGED alive

\* slot 0: the user looks at the value and lets go at once
Lookup(k, slot, r, rel) ==
    /\ alive
    /\ r = Value(Shard(k), k)
    /\ Change(shards,
              IF slot > 0 /\ r > 0
              THEN [h \in DOMAIN held \cup {slot} |-> IF h = slot THEN r ELSE held[h]]
              ELSE held, {}, rel)
    /\ UNCHANGED <<next, alive>>

Erase(k, rel) ==
    /\ alive
    /\ Change([shards EXCEPT ![shardOf[k]] = Erased(@, k)], held, {}, rel)
    /\ UNCHANGED <<next, alive>>

Prune(rel) ==
    /\ alive
    /\ Change([i \in DOMAIN shards |-> Empty], held, {}, rel)
    /\ UNCHANGED <<next, alive>>

Destroy(rel) ==
    /\ alive
    /\ Change([i \in DOMAIN shards |-> Empty], held, {}, rel)
    /\ alive' = FALSE
    /\ UNCHANGED next

Release(slot, r, rel) ==
    /\ r = IF slot \in DOMAIN held THEN held[slot] ELSE 0
    /\ Change(shards, [h \in DOMAIN held \ {slot} |-> held[h]], {}, rel)
    /\ UNCHANGED <<next, alive>>

\* ------------------------------------------------------------ properties
\* C08: below the capacity after every operation, and the usage is the sum of the charges
BelowCapacity == \A i \in DOMAIN shards : shards[i].s = <<>> \/ shards[i].u < caps
ExactUsage == \A i \in DOMAIN shards : shards[i].u = Charges(shards[i].s)

\* C07: one entry a key at most, each in its own shard
OneEntryPerKey ==
    \A i \in DOMAIN shards : \A a, b \in DOMAIN shards[i].s :
        shards[i].s[a].k = shards[i].s[b].k => a = b
InOwnShard == \A i \in DOMAIN shards : \A a \in DOMAIN shards[i].s : shardOf[shards[i].s[a].k] = i
\* oldest first
InsertionOrder ==
    \A i \in DOMAIN shards : \A a, b \in DOMAIN shards[i].s : a < b => shards[i].s[a].v < shards[i].s[b].v

\* C09: a value is in use (cached or held) or released, never both, never neither
NeverUsedAfterRelease == freed \cap (Cached \cup Held) = {}
NothingLeaks == freed \cup Cached \cup Held = 1 .. (next - 1)
DestroyedHoldsNothing == ~alive => Cached = {}
=============================================================================
