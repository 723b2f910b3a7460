------------------------------ MODULE MutexLock ------------------------------
(***************************************************************************)
(* MutexLock (src/util/mutex_lock.rs): cells guarded by a lock, and locks  *)
(* on them handed out to any number of users.  All locks obtained from one *)
(* MutexLock exclude each other; they outlive it.  A lock given back by a  *)
(* panic is poisoned from then on, and tells so to everyone who takes it.  *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES cells,    \* cell -> [v |-> its value, by |-> who holds it or 0, poisoned |-> 0 or 1]
          cellOf,   \* user -> its cell
          waiting   \* users that wait for their cell
mvars == <<cells, cellOf, waiting>>

Cell(a) == cells[cellOf[a]]
Free(a) == Cell(a).by = 0
Holds(a) == Cell(a).by = a
With(a, c) == cells' = [cells EXCEPT ![cellOf[a]] = c] /\ UNCHANGED cellOf

MStart(values, of) ==
    /\ cells' = [i \in 1 .. Len(values) |-> [v |-> values[i], by |-> 0, poisoned |-> 0]]
    /\ cellOf' = of /\ waiting' = {}
\* a takes its free lock, sees v, and is told whether it is poisoned
MTake(a, v, p) ==
    /\ Free(a) /\ a \notin waiting
    /\ v = Cell(a).v /\ p = Cell(a).poisoned
    /\ With(a, [Cell(a) EXCEPT !.by = a]) /\ UNCHANGED waiting
\* or waits for it
MWait(a) == ~Free(a) /\ ~Holds(a) /\ a \notin waiting /\ waiting' = waiting \cup {a} /\ UNCHANGED <<cells, cellOf>>
MGot(a, v, p) ==
    /\ Free(a) /\ a \in waiting
    /\ v = Cell(a).v /\ p = Cell(a).poisoned
    /\ With(a, [Cell(a) EXCEPT !.by = a]) /\ waiting' = waiting \ {a}
\* trying never waits: -1 if someone else holds it
MTry(a, v, p) == IF p = -1 THEN ~Free(a) /\ ~Holds(a) /\ UNCHANGED mvars ELSE MTake(a, v, p)
MSet(a, v) == Holds(a) /\ With(a, [Cell(a) EXCEPT !.v = v]) /\ UNCHANGED waiting
MGet(a, v) == Holds(a) /\ v = Cell(a).v /\ UNCHANGED mvars
MGive(a) == Holds(a) /\ With(a, [Cell(a) EXCEPT !.by = 0]) /\ UNCHANGED waiting
MPanic(a) == Holds(a) /\ With(a, [Cell(a) EXCEPT !.by = 0, !.poisoned = 1]) /\ UNCHANGED waiting
\* What is left of a history of "users" users that each took or tried the lock of one cell, all in all "tries" times, and counted in it (what
\* MutexMC's Exclusive, NothingLost, Poison and NeverAlone come to): every taking is counted, in the cell and in one of the "parts" the count
\* chooses by what it saw; who asks for a lock nobody else uses, or is ready to wait, is not refused; nobody panicked.
MRaced(users, trying, tries, taken, refused, poisoned, v, parts) ==
    /\ taken + refused = tries /\ v = taken /\ poisoned = 0
    /\ \A i \in 1 .. 4 : parts[i] = (v + 4 - i) \div 4
    /\ (users <= 1 \/ trying = 0) => refused = 0
=============================================================================
