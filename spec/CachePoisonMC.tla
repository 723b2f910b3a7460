--------------------------- MODULE CachePoisonMC ---------------------------
(* The cache with values that panic, explored completely for a few keys and values. *)
EXTENDS CachePoison, Integers
CONSTANTS KeyShard, Total, ChargeSet, MaxValues

Keys == DOMAIN KeyShard
Shards == {KeyShard[k] : k \in Keys}
MCInit == PoisonInit(KeyShard, Total, Shards)

\* one bomb a shard at most: two in one call would abort the process
OneBomb(i) == \A k \in Keys : shardOf[k] = i /\ Good(k) => (Values(shards[i]) \cap bombs = {})
Rels == SUBSET (In(shards) \cup limbo \cup Held \cup {next})

MCNext ==
    \/ next <= MaxValues /\ \E k \in Keys, c \in ChargeSet, b \in BOOLEAN, r \in {"ok", "panic", "corruption"}, rel \in Rels :
            /\ b => Good(k) /\ OneBomb(shardOf[k]) /\ c < caps
            /\ Insert(k, c, b, r, rel)
    \/ \E k \in Keys : \E s \in {0, 1} : \E r \in {0 - 1} \cup 0 .. next : s \notin DOMAIN held /\ Lookup(k, s, r, {})
    \/ \E k \in Keys, r \in {"ok", "panic", "corruption"}, rel \in Rels : Erase(k, r, rel)
    \/ \E r \in {"ok", "panic", "corruption"}, rel \in Rels : Prune(r, rel)
    \/ \E rel \in Rels : Destroy(rel)
    \/ alive /\ armed /\ Arm(FALSE)
    \/ \E s \in DOMAIN held, r \in {"ok", "panic"}, rel \in Rels : Release(s, held[s], r, rel)

Spec == MCInit /\ [][MCNext]_pvars

\* every call can be made in every state: no result is left undefined
Total_ == alive =>
    /\ \A k \in Keys : \E r \in {"ok", "panic", "corruption"}, rel \in Rels : ENABLED Erase(k, r, rel)
    /\ \E r \in {"ok", "panic", "corruption"}, rel \in Rels : ENABLED Prune(r, rel)
\* a bomb goes off once
BombsOnce == [][bad # bad' => (freed' \ freed) \cap bombs # {}]_pvars
\* a call never touches a shard it does not need: a poisoned one stays, the others stay good
Contained == [][\A i \in DOMAIN shards : i \notin DOMAIN shards' => i \in bad' \/ ~alive']_pvars
KS12 == <<1, 2>>
KS11 == <<1, 1>>
KS112 == <<1, 1, 2>>
=============================================================================
