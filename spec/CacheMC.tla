------------------------------ MODULE CacheMC ------------------------------
(* The cache with a few keys, charges and slots, explored completely; every transition is printed as JSON, *)
(* and bin/walks.py turns the graph into calls that take each of them at least once on the real cache.     *)
EXTENDS Cache, Integers, Json, TLC
CONSTANTS KeyShard,     \* key -> shard, as a sequence
          Total,        \* the total capacity
          ChargeSet, Slots

VARIABLES op,           \* the call just made (not part of the view)
          last          \* key -> the value inserted last and not erased or pruned since (0: none)

vars == <<cvars, op, last>>
Keys == DOMAIN KeyShard

MCInit == CacheInit(KeyShard, Total, {KeyShard[k] : k \in Keys}) /\ op = <<"new">> /\ last = [k \in Keys |-> 0]

Rel(sh, hd, extra) == Released(Cached \cup Held \cup extra, sh, hd)

DoInsert == \E k \in Keys, c \in ChargeSet :
    /\ Insert(k, c, Rel([shards EXCEPT ![shardOf[k]] = Inserted(@, k, next, c, caps)], held, {next}))
    /\ op' = <<"i", k - 1, c>>
    /\ last' = [last EXCEPT ![k] = next]
DoLookup == \E k \in Keys, s \in Slots \cup {0} :
    /\ s \notin DOMAIN held
    /\ Lookup(k, s, Value(Shard(k), k), {})
    /\ op' = <<"l", k - 1, s>> /\ UNCHANGED last
DoErase == \E k \in Keys : Erase(k, Rel([shards EXCEPT ![shardOf[k]] = Erased(@, k)], held, {})) /\ op' = <<"e", k - 1>> /\ last' = [last EXCEPT ![k] = 0]
DoPrune == Prune(Rel([i \in DOMAIN shards |-> Empty], held, {})) /\ op' = <<"p">> /\ last' = [k \in Keys |-> 0]
DoDestroy == Destroy(Rel([i \in DOMAIN shards |-> Empty], held, {})) /\ op' = <<"x">> /\ last' = [k \in Keys |-> 0]
DoRelease == \E s \in DOMAIN held : Release(s, held[s], Rel(shards, [h \in DOMAIN held \ {s} |-> held[h]], {})) /\ op' = <<"r", s>> /\ UNCHANGED last

MCNext == DoInsert \/ DoLookup \/ DoErase \/ DoPrune \/ DoDestroy \/ DoRelease
Spec == MCInit /\ [][MCNext]_vars

\* C07 over the history: present is the last one inserted
LastInserted == \A k \in Keys : Has(Shard(k), k) => Value(Shard(k), k) = last[k]
\* C08: no more is evicted than needed - an insert below the capacity removes nothing but its own key
NotMoreThanNeeded ==
    [][ (op'[1] = "i" /\ alive) =>
          LET k == op'[2] + 1  i == shardOf[k]
              before == Erased(shards[i], k)
              gone == Len(before.s) + 1 - Len(shards'[i].s)
          IN  \/ gone = 0
              \* with the last victim back, the shard would be at its capacity
              \/ LET all == Append(before.s, [k |-> k, v |-> next, c |-> op'[3]])
                 IN  Charges(SubSeq(all, gone, Len(all))) >= caps ]_vars

\* values are told apart by where they are, not by their number
Place(v) == IF \E k \in Keys : Value(Shard(k), k) = v THEN CHOOSE k \in Keys : Value(Shard(k), k) = v ELSE 0
GoneRank(v) == Cardinality({w \in Held : Place(w) = 0 /\ w <= v})
View == <<[i \in DOMAIN shards |-> [j \in DOMAIN shards[i].s |-> <<shards[i].s[j].k, shards[i].s[j].c>>]],
          [h \in DOMAIN held |-> <<Place(held[h]), IF Place(held[h]) = 0 THEN GoneRank(held[h]) ELSE 0>>], alive>>
\* the graph, for the walks
Edge == PrintT("EDGE " \o ToJson([s |-> ToString(View), t |-> ToString(View'), o |-> op']))
KS111 == <<1, 1, 1>>
KS1111 == <<1, 1, 1, 1>>
KS112 == <<1, 1, 2>>
=============================================================================
