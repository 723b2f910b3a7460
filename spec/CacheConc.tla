----------------------------- MODULE CacheConc -----------------------------
(***************************************************************************)
(* Threads working on one cache (ShardLRUCache), at the grain of the code: *)
(* a call takes the reader-writer lock of its shard, works on the shard in *)
(* several steps (an insert unlinks the old entry, links the new one, and  *)
(* evicts one entry at a time), and gives the lock back.  total_charge     *)
(* visits the shards one after another.                                    *)
(*                                                                         *)
(* The specification it must implement is Cache.tla's: one atomic step a   *)
(* call (abs), taken when the exclusive lock is given back.                *)
(***************************************************************************)
EXTENDS CacheShard, Integers, FiniteSets, TLC

CONSTANTS Threads,      \* the threads
          Prog,         \* thread -> sequence of calls <<"i", k, c>>, <<"l", k>>, <<"c">>
          KeyShard, Total

VARIABLES
    conc,       \* the shards as they are in memory
    abs,        \* the shards as the sequence of atomic steps gives them
    readers, writer,    \* the lock of each shard
    queue,      \* shard -> the writers that wait for its lock; they keep later readers out, as in std::sync::RwLock
    pc,         \* thread -> [i |-> next call, at |-> where in it]
    got,        \* thread -> what the current call has found so far
    hist,       \* results: thread -> sequence
    inserted    \* key -> values that some insert has begun to write
vars == <<conc, abs, readers, writer, queue, pc, got, hist, inserted>>
lock == <<readers, writer, queue>>

Cap == CapOf(Total)
ShardIds == {KeyShard[k] : k \in DOMAIN KeyShard}
ShardSeq == CHOOSE s \in [1 .. Cardinality(ShardIds) -> ShardIds] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]

Op(t) == Prog[t][pc[t].i]
\* the value of the i-th call of thread t
Val(t) == t * 10 + pc[t].i
InitC ==
    /\ conc = [s \in ShardIds |-> Empty] /\ abs = conc
    /\ readers = [s \in ShardIds |-> {}] /\ writer = [s \in ShardIds |-> 0]
    /\ queue = [s \in ShardIds |-> {}]
    /\ pc = [t \in Threads |-> [i |-> 1, at |-> "idle"]]
    /\ got = [t \in Threads |-> [sum |-> 0, n |-> 1]]
    /\ hist = [t \in Threads |-> <<>>]
    /\ inserted = [k \in DOMAIN KeyShard |-> {}]

At(t, a) == pc[t].i <= Len(Prog[t]) /\ pc[t].at = a
Go(t, a) == pc' = [pc EXCEPT ![t].at = a]
Done(t, r) ==
    /\ pc' = [pc EXCEPT ![t] = [i |-> @.i + 1, at |-> "idle"]]
    /\ hist' = [hist EXCEPT ![t] = Append(@, r)]

LockRead(t, s) == writer[s] = 0 /\ queue[s] = {} /\ readers' = [readers EXCEPT ![s] = @ \cup {t}] /\ UNCHANGED <<writer, queue>>
LockWrite(t, s) == /\ writer[s] = 0 /\ readers[s] = {} /\ writer' = [writer EXCEPT ![s] = t]
                   /\ queue' = [queue EXCEPT ![s] = @ \ {t}] /\ UNCHANGED readers
Enqueue(t, s) == (writer[s] # 0 \/ readers[s] # {}) /\ t \notin queue[s] /\ queue' = [queue EXCEPT ![s] = @ \cup {t}]
UnlockRead(t, s) == readers' = [readers EXCEPT ![s] = @ \ {t}] /\ UNCHANGED <<writer, queue>>
UnlockWrite(t, s) == writer' = [writer EXCEPT ![s] = 0] /\ UNCHANGED <<readers, queue>>

\* ---- insert
InsWait(t) == /\ At(t, "idle") /\ Op(t)[1] = "i" /\ Enqueue(t, KeyShard[Op(t)[2]])
              /\ UNCHANGED <<conc, abs, readers, writer, pc, got, hist, inserted>>
InsLock(t) == /\ At(t, "idle") /\ Op(t)[1] = "i" /\ LockWrite(t, KeyShard[Op(t)[2]]) /\ Go(t, "unlink")
              /\ inserted' = [inserted EXCEPT ![Op(t)[2]] = @ \cup {Val(t)}]
              /\ UNCHANGED <<conc, abs, got, hist>>
InsUnlink(t) == /\ At(t, "unlink") /\ LET s == KeyShard[Op(t)[2]] IN conc' = [conc EXCEPT ![s] = Erased(@, Op(t)[2])]
                /\ Go(t, "link") /\ UNCHANGED <<abs, lock, got, hist, inserted>>
InsLink(t) == /\ At(t, "link")
              /\ LET s == KeyShard[Op(t)[2]] IN
                 conc' = [conc EXCEPT ![s] = [s |-> Append(@.s, [k |-> Op(t)[2], v |-> Val(t), c |-> Op(t)[3]]), u |-> @.u + Op(t)[3]]]
              /\ Go(t, "evict") /\ UNCHANGED <<abs, lock, got, hist, inserted>>
InsEvict(t) == /\ At(t, "evict")
               /\ LET s == KeyShard[Op(t)[2]] IN
                  /\ conc[s].s # <<>> /\ conc[s].u >= Cap
                  /\ conc' = [conc EXCEPT ![s] = [s |-> Tail(@.s), u |-> @.u - Head(@.s).c]]
               /\ UNCHANGED <<abs, lock, pc, got, hist, inserted>>
InsUnlock(t) == /\ At(t, "evict")
                /\ LET s == KeyShard[Op(t)[2]] IN
                   /\ ~(conc[s].s # <<>> /\ conc[s].u >= Cap)
                   /\ abs' = [abs EXCEPT ![s] = Inserted(@, Op(t)[2], Val(t), Op(t)[3], Cap)]
                   /\ UnlockWrite(t, s)
                /\ Done(t, 0) /\ UNCHANGED <<conc, got, inserted>>

\* ---- lookup
LookLock(t) == /\ At(t, "idle") /\ Op(t)[1] = "l" /\ LockRead(t, KeyShard[Op(t)[2]]) /\ Go(t, "find")
               /\ UNCHANGED <<conc, abs, got, hist, inserted>>
LookFind(t) == /\ At(t, "find")
               /\ LET s == KeyShard[Op(t)[2]] IN UnlockRead(t, s) /\ Done(t, Value(conc[s], Op(t)[2]))
               /\ UNCHANGED <<conc, abs, got, inserted>>

\* ---- total charge
SumLock(t) == /\ At(t, "idle") /\ Op(t)[1] = "c" /\ got[t].n <= Len(ShardSeq) /\ LockRead(t, ShardSeq[got[t].n]) /\ Go(t, "sum")
              /\ UNCHANGED <<conc, abs, got, hist, inserted>>
SumAdd(t) == /\ At(t, "sum")
             /\ LET s == ShardSeq[got[t].n] IN
                /\ UnlockRead(t, s)
                /\ IF got[t].n = Len(ShardSeq)
                   THEN Done(t, got[t].sum + conc[s].u) /\ got' = [got EXCEPT ![t] = [sum |-> 0, n |-> 1]]
                   ELSE Go(t, "idle") /\ got' = [got EXCEPT ![t] = [sum |-> @.sum + conc[s].u, n |-> @.n + 1]] /\ UNCHANGED hist
             /\ UNCHANGED <<conc, abs, inserted>>

StepOf(t) == InsWait(t) \/ InsLock(t) \/ InsUnlink(t) \/ InsLink(t) \/ InsEvict(t) \/ InsUnlock(t) \/ LookLock(t) \/ LookFind(t) \/ SumLock(t) \/ SumAdd(t)
Finished == \A t \in Threads : pc[t].i > Len(Prog[t])
NextC == (\E t \in Threads : StepOf(t)) \/ (Finished /\ UNCHANGED vars)
SpecC == InitC /\ [][NextC]_vars /\ \A t \in Threads : WF_vars(StepOf(t))

\* ---- properties
\* what anyone can see of a shard is a state that the atomic steps give (conc implements abs)
Consistent == \A s \in ShardIds : writer[s] = 0 => conc[s] = abs[s]
Exclusive == \A s \in ShardIds : writer[s] # 0 => readers[s] = {}
\* nobody sees a value that nobody inserted under that key
Genuine == \A t \in Threads : \A i \in DOMAIN hist[t] :
    Prog[t][i][1] = "l" => hist[t][i] \in {0} \cup inserted[Prog[t][i][2]]
InOrder == \A s \in ShardIds : writer[s] = 0 => conc[s].s = <<>> \/ conc[s].u < Cap
\* threads that use different keys, with room for all: each finds what it put in, and in the end all of it is there
Touched(t) == {Prog[t][i][2] : i \in {j \in DOMAIN Prog[t] : Prog[t][j][1] \in {"i", "l"}}}
Inserts(t, n, k) == {i \in 1 .. n : Prog[t][i][1] = "i" /\ Prog[t][i][2] = k}
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN x[1] + Sum(s \ {x})
OwnKeys == /\ \A t, o \in Threads : t = o \/ Touched(t) \cap Touched(o) = {}
           /\ Sum({<<Prog[t][i][3], t, i>> : <<t, i>> \in {<<t, i>> \in Threads \X (1 .. 9) : i \in DOMAIN Prog[t] /\ Prog[t][i][1] = "i"}}) < Cap
Last(t, n, k) == Max(Inserts(t, n, k))
Apart == OwnKeys =>
    /\ \A t \in Threads : \A i \in DOMAIN hist[t] : Prog[t][i][1] = "l" =>
        hist[t][i] = IF Inserts(t, i, Prog[t][i][2]) = {} THEN 0 ELSE t * 10 + Last(t, i, Prog[t][i][2])
    /\ Finished => Sum({<<conc[s].u, s>> : s \in ShardIds})
                 = Sum({<<Prog[t][Last(t, Len(Prog[t]), k)][3], t, k>> :
                        <<t, k>> \in {<<t, k>> \in Threads \X DOMAIN KeyShard : Inserts(t, Len(Prog[t]), k) # {}}})
\* every call comes to its end
Ends == <>Finished

\* the programs that are checked
T2 == {1, 2}
T3 == {1, 2, 3}
KS11 == <<1, 1>>
KS12 == <<1, 2>>
ProgA == <<<<<<"i", 1, 1>>, <<"l", 2>>>>, <<<<"i", 2, 1>>, <<"l", 1>>>>, <<<<"i", 1, 2>>, <<"c">>>>>>
ProgB == <<<<<<"i", 1, 1>>, <<"i", 2, 1>>>>, <<<<"l", 1>>, <<"c">>>>, <<<<"i", 2, 0>>, <<"l", 2>>>>>>
ProgC == <<<<<<"i", 1, 2>>, <<"i", 1, 1>>, <<"c">>>>, <<<<"i", 2, 2>>, <<"l", 1>>, <<"i", 1, 0>>>>>>
\* keys of their own
KS122 == <<1, 2, 2, 1>>
ProgD == <<<<<<"i", 1, 1>>, <<"i", 2, 2>>, <<"l", 1>>, <<"i", 1, 3>>, <<"l", 1>>>>, <<<<"i", 3, 1>>, <<"i", 3, 2>>, <<"l", 3>>>>, <<<<"l", 4>>, <<"i", 4, 2>>, <<"c">>>>>>
=============================================================================
