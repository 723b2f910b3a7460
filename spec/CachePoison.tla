---------------------------- MODULE CachePoison ----------------------------
(***************************************************************************)
(* The sharded cache when the destruction of a value may panic.            *)
(*                                                                         *)
(* A call that destroys such a value (a bomb) panics.  If that happens     *)
(* under the lock of a shard, the shard is poisoned: every later call that *)
(* needs it is refused, and what it held is in limbo (destroyed at most    *)
(* once, maybe never).  The other shards go on as if nothing had happened. *)
(***************************************************************************)
EXTENDS CacheShard, FiniteSets, Functions

VARIABLES
    shards,     \* the shards that are not poisoned
    caps, shardOf, held, freed, next, alive,    \* as in Cache.tla
    bad,        \* the poisoned shards
    limbo,      \* what poisoned shards held and has not been destroyed yet
    bombs,      \* the values that panic when they are destroyed
    armed       \* whether they do so now

pvars == <<shards, caps, shardOf, held, freed, next, alive, bad, limbo, bombs, armed>>

Range_(f) == {f[x] : x \in DOMAIN f}
Held == Range_(held)
In(sh) == UNION {Values(sh[i]) : i \in DOMAIN sh}
Armed == IF armed THEN bombs ELSE {}
TotalCharge == FoldFunction(LAMBDA sh, sum : sh.u + sum, 0, shards)
Good(k) == shardOf[k] \in DOMAIN shards

PoisonInit(sf, total, sset) ==
    /\ shards = [i \in sset |-> Empty] /\ caps = CapOf(total) /\ shardOf = sf
    /\ held = << >> /\ freed = {} /\ next = 1 /\ alive = TRUE
    /\ bad = {} /\ limbo = {} /\ bombs = {} /\ armed = TRUE

\* what nobody needs once the shards are sh: extra is what a call brought along
Gone(sh, extra) == ((In(shards) \cup extra) \ In(sh)) \ Held

Free(rel) == rel \cap freed = {} /\ freed' = freed \cup rel

\* the call is done: it destroyed what it had to, none of it a bomb
Done(sh, extra, rel) ==
    /\ rel = Gone(sh, extra)
    /\ rel \cap Armed = {}
    /\ Free(rel)
    /\ shards' = sh
    /\ UNCHANGED <<bad, limbo>>

\* the call panicked in shard i, in the middle of it: the shards sh are the others
Broken(i, sh, extra, rel) ==
    LET mine == Values(shards[i]) \cup extra
        must == Gone([j \in DOMAIN sh \cup {i} |-> IF j = i THEN shards[i] ELSE sh[j]], {})
    IN  /\ rel \cap Armed # {}
        /\ must \subseteq rel
        /\ rel \subseteq must \cup (mine \ Held)
        /\ must \cap Armed = {}
        /\ Free(rel)
        /\ shards' = sh
        /\ bad' = bad \cup {i}
        /\ limbo' = limbo \cup (mine \ rel)

Others(i) == [j \in DOMAIN shards \ {i} |-> shards[j]]

Insert(k, c, b, r, rel) ==
    /\ alive
    /\ bombs' = IF b THEN bombs \cup {next} ELSE bombs
    /\ next' = next + 1
    /\ IF Good(k)
       THEN LET sh == [shards EXCEPT ![shardOf[k]] = Inserted(@, k, next, c, caps)]
                arms == IF armed THEN bombs' ELSE {}
            IN  IF Gone(sh, {next}) \cap arms = {}
                THEN r = "ok" /\ rel = Gone(sh, {next}) /\ Free(rel) /\ shards' = sh /\ UNCHANGED <<bad, limbo>>
                ELSE /\ r = "panic"
                     /\ rel \cap arms # {} /\ rel \subseteq Gone(sh, {next}) \cup {next}
                     /\ Free(rel)
                     /\ shards' = Others(shardOf[k])
                     /\ bad' = bad \cup {shardOf[k]}
                     /\ limbo' = limbo \cup ((Values(shards[shardOf[k]]) \cup {next}) \ rel)
       ELSE \* the value is not taken in
            /\ r = IF armed /\ b THEN "panic" ELSE "corruption"
            /\ rel = {next} /\ Free(rel)
            /\ UNCHANGED <<shards, bad, limbo>>
    /\ UNCHANGED <<caps, shardOf, held, alive, armed>>

Lookup(k, slot, r, rel) ==
    /\ alive
    /\ r = IF Good(k) THEN Value(shards[shardOf[k]], k) ELSE 0 - 1
    /\ rel = {}
    /\ held' = IF slot > 0 /\ r > 0
               THEN [h \in DOMAIN held \cup {slot} |-> IF h = slot THEN r ELSE held[h]] ELSE held
    /\ UNCHANGED <<shards, caps, shardOf, freed, next, alive, bad, limbo, bombs, armed>>

Erase(k, r, rel) ==
    /\ alive
    /\ IF ~Good(k) THEN r = "corruption" /\ rel = {} /\ UNCHANGED <<shards, freed, bad, limbo>>
       ELSE LET sh == [shards EXCEPT ![shardOf[k]] = Erased(@, k)]
            IN  IF Gone(sh, {}) \cap Armed = {}
                THEN r = "ok" /\ Done(sh, {}, rel)
                ELSE r = "panic" /\ rel = Gone(sh, {}) /\ Broken(shardOf[k], Others(shardOf[k]), {}, rel)
    /\ UNCHANGED <<caps, shardOf, held, next, alive, bombs, armed>>

Emptied(P) == [i \in DOMAIN shards |-> IF i \in P THEN Empty ELSE shards[i]]
Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]

\* a poisoned shard stops the call before or after the others; so does a bomb
Prune(r, rel) ==
    /\ alive
    /\ \/ /\ r = "ok" /\ bad = {}
          /\ Done(Emptied(DOMAIN shards), {}, rel)
       \/ /\ r = "corruption" /\ bad # {}
          /\ \E P \in SUBSET DOMAIN shards : Done(Emptied(P), {}, rel)
       \/ /\ r = "panic"
          /\ \E P \in SUBSET DOMAIN shards : \E i \in DOMAIN shards \ P :
                Broken(i, Without(Emptied(P), i), {}, rel)
    /\ UNCHANGED <<caps, shardOf, held, next, alive, bombs, armed>>

Arm(on) == armed' = on /\ UNCHANGED <<shards, caps, shardOf, held, freed, next, alive, bad, limbo, bombs>>

\* with the bombs disarmed: what the shards hold is destroyed, of the limbo what is still there to be found
Destroy(rel) ==
    /\ alive /\ ~armed
    /\ In(shards) \ Held \subseteq rel
    /\ rel \subseteq (In(shards) \cup limbo) \ Held
    /\ Free(rel)
    /\ shards' = [i \in {} |-> Empty] /\ limbo' = limbo \ rel
    /\ alive' = FALSE
    /\ UNCHANGED <<caps, shardOf, held, next, bad, bombs, armed>>

\* the holder of a value lets go of it: if he was the last he destroys it, outside of any lock
Release(slot, v, r, rel) ==
    /\ v = IF slot \in DOMAIN held THEN held[slot] ELSE 0
    /\ held' = [h \in DOMAIN held \ {slot} |-> held[h]]
    /\ LET last == v # 0 /\ v \notin Range_(held') /\ v \notin In(shards)
       IN  /\ rel \in IF ~last THEN {{}} ELSE IF v \in limbo THEN {{}, {v}} ELSE {{v}}
           /\ r = IF rel \cap Armed # {} THEN "panic" ELSE "ok"
    /\ Free(rel)
    /\ limbo' = limbo \ rel
    /\ UNCHANGED <<shards, caps, shardOf, next, alive, bad, bombs, armed>>

\* ------------------------------------------------------------ properties (C32)
NeverUsedAfterRelease == freed \cap (In(shards) \cup Held) = {}
NothingForgotten == freed \cup In(shards) \cup Held \cup limbo = 1 .. (next - 1)
OnlyPanicsLeak == bad = {} => limbo = {}
Apart == DOMAIN shards \cap bad = {}
WithinCapacity == \A i \in DOMAIN shards : shards[i].u = Charges(shards[i].s) /\ (shards[i].s = <<>> \/ shards[i].u < caps)
=============================================================================
