------------------------------- MODULE MutexMC -------------------------------
(* Users of locks that count: each takes its lock, reads, and writes back one more; some panic instead of giving back. *)
EXTENDS MutexLock, FiniteSets
CONSTANTS Users, Cells, Rounds
VARIABLES pc, seen, done, by,
          refused   \* whether someone was refused a lock that is only his
vars == <<mvars, pc, seen, done, by, refused>>
Init ==
    /\ \E of \in [1 .. Users -> 1 .. Cells] : cellOf = of
    /\ cells = [i \in 1 .. Cells |-> [v |-> 0, by |-> 0, poisoned |-> 0]]
    /\ waiting = {}
    /\ pc = [a \in 1 .. Users |-> "idle"] /\ seen = [a \in 1 .. Users |-> 0] /\ done = [a \in 1 .. Users |-> 0]
    /\ by = {} /\ refused = FALSE
Goto(a, p) == pc' = [pc EXCEPT ![a] = p]
Step(a) ==
    \/ /\ pc[a] = "idle" /\ done[a] < Rounds
       /\ \/ \E p \in 0 .. 1 : MTake(a, Cell(a).v, p) /\ Goto(a, "in")
          \/ MWait(a) /\ Goto(a, "waits")
          \/ MTry(a, 0, -1) /\ UNCHANGED pc
       /\ refused' = (refused \/ (pc' = pc /\ \A b \in 1 .. Users : cellOf[b] = cellOf[a] => b = a))
       /\ UNCHANGED <<seen, done, by>>
    \/ pc[a] = "waits" /\ (\E p \in 0 .. 1 : MGot(a, Cell(a).v, p)) /\ Goto(a, "in") /\ UNCHANGED <<seen, done, by, refused>>
    \/ pc[a] = "in" /\ MGet(a, Cell(a).v) /\ seen' = [seen EXCEPT ![a] = Cell(a).v] /\ Goto(a, "read") /\ UNCHANGED <<done, by, refused>>
    \/ pc[a] = "read" /\ MSet(a, seen[a] + 1) /\ done' = [done EXCEPT ![a] = @ + 1] /\ Goto(a, "out") /\ UNCHANGED <<seen, by, refused>>
    \/ pc[a] = "out" /\ MGive(a) /\ Goto(a, "idle") /\ UNCHANGED <<seen, done, by, refused>>
    \/ pc[a] = "out" /\ MPanic(a) /\ Goto(a, "idle") /\ by' = by \cup {cellOf[a]} /\ UNCHANGED <<seen, done, refused>>
Next == \E a \in 1 .. Users : Step(a)
Spec == Init /\ [][Next]_vars /\ \A a \in 1 .. Users : SF_vars(pc[a] # "idle" /\ Step(a)) /\ WF_vars(pc[a] = "idle" /\ Step(a) /\ pc'[a] # "idle")

RECURSIVE Total(_, _)
Total(s, f) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Total(s \ {x}, f)
\* C29: one at a time, no count is lost, poisoned iff someone panicked inside
Exclusive == \A c \in 1 .. Cells : Cardinality({a \in 1 .. Users : cellOf[a] = c /\ pc[a] \in {"in", "read", "out"}}) <= 1
NothingLost == \A c \in 1 .. Cells : cells[c].v = Total({a \in 1 .. Users : cellOf[a] = c}, done)
Poison == \A c \in 1 .. Cells : (cells[c].poisoned = 1) = (c \in by)
\* nobody is refused a lock that is only his
NeverAlone == ~refused
Ends == <>[](\A a \in 1 .. Users : done[a] = Rounds /\ pc[a] = "idle")
=============================================================================
