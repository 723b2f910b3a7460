----------------------------- MODULE MutexTrace -----------------------------
(* Calls recorded from threads that use the real MutexLock (harness/src/sync.rs). *)
EXTENDS TraceBase, MutexLock
vars == <<mvars, l>>
TInit == cells = <<>> /\ cellOf = <<>> /\ waiting = {} /\ l = 1
Step(e) ==
    CASE e.e = "case" -> UNCHANGED mvars
      [] e.e = "m_new" -> MStart(e.cells, e.of)
      [] e.e = "m_take" -> MTake(e.a, e.v, e.p)
      [] e.e = "m_wait" -> MWait(e.a)
      [] e.e = "m_got" -> MGot(e.a, e.v, e.p)
      [] e.e = "m_try" -> MTry(e.a, e.v, e.p)
      [] e.e = "m_set" -> MSet(e.a, e.v)
      [] e.e = "m_get" -> MGet(e.a, e.v)
      [] e.e = "m_give" -> MGive(e.a)
      [] e.e = "m_panic" -> MPanic(e.a)
      [] e.e = "m_raced" -> MRaced(e.users, e.trying, e.tries, e.taken, e.refused, e.poisoned, e.v, e.parts) /\ UNCHANGED mvars
      [] OTHER -> FALSE
TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1
TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
