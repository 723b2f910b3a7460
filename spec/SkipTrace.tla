----------------------------- MODULE SkipTrace -----------------------------
(* Calls recorded from the real skip list (harness/src/skip.rs) against OrderedList.tla. *)
EXTENDS Bytes, TraceBase
VARIABLES keys, order,  \* the keys the events refer to, and how they are compared
          list, its,
          tall    \* the height last told
\* a key carries the order by which it is compared
OrderOf(x, y) == CompareIn(x[1], x[2], y[2])
INSTANCE OrderedList WITH Order <- OrderOf, HEAD <- <<0>>, TAIL <- <<1>>
K(i) == IF i = 0 THEN <<0>> ELSE <<order, keys[i]>>
vars == <<keys, order, list, its, tall, l>>

TInit == keys = <<>> /\ order = "byte" /\ OInit /\ tall = 0 /\ l = 1

\* the towers: none without keys, never lower than before
Height(e) ==
    /\ e.h >= tall
    /\ (e.h = 0) = (list' = <<>>)
    /\ list' = list => e.h = tall
\* the printed form: the keys in order, the levels of their towers, the greatest of them and the number of keys
Shown(e) ==
    /\ [i \in DOMAIN e.r |-> K(e.r[i])] = list /\ e.n = Len(list)
    /\ e.h = tall
    /\ \A i \in DOMAIN e.levels : e.levels[i] \in 1 .. tall
    /\ list # <<>> => \E i \in DOMAIN e.levels : e.levels[i] = tall

Step(e) ==
    CASE e.e = "case" -> keys' = <<>> /\ order' = "byte" /\ list' = <<>> /\ its' = << >> /\ tall' = 0
      [] e.e = "new" -> keys' = e.keys /\ order' = e.order /\ UNCHANGED <<list, its, tall>>
      [] OTHER ->
            /\ UNCHANGED <<keys, order>>
            /\ tall' = IF e.e = "insert" THEN e.h ELSE tall
            /\ CASE e.e = "insert" -> OInsert(K(e.k), e.ok) /\ e.n = Len(list') /\ e.m = e.a /\ Height(e)
                 [] e.e = "show" -> TRUE = Shown(e) /\ UNCHANGED <<list, its>>
                 [] e.e = "pad" -> UNCHANGED <<list, its>>
                 [] e.e = "contains" -> OContains(K(e.k), e.r)
                 [] e.e = "all" -> OAll([i \in DOMAIN e.r |-> K(e.r[i])], e.n)
                 [] e.e = "it" -> ONew(e.s, e.v, K(e.k))
                 [] e.e = "first" -> OFirst(e.s, e.v, K(e.k))
                 [] e.e = "last" -> OLast(e.s, e.v, K(e.k))
                 [] e.e = "next" -> ONext(e.s, e.v, K(e.k))
                 [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
