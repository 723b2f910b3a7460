----------------------------- MODULE CacheImpl -----------------------------
(***************************************************************************)
(* One shard of the cache as src/util/cache.rs lays it out: a hash table   *)
(* of doubly linked chains that doubles when it is three quarters full,    *)
(* and the eviction list, doubly linked through the same nodes.  Node 0    *)
(* is the null pointer; a freed node leaves the domain of mem, so that     *)
(* reading through a pointer to it is an error of the specification.       *)
(***************************************************************************)
EXTENDS CacheShard, FiniteSets, Functions

Null == 0

\* the length of a table for a wanted length: a power of two, 16 at least
RECURSIVE PowerFrom(_, _)
PowerFrom(p, n) == IF p >= n THEN p ELSE PowerFrom(2 * p, n)
FormatLength(n, min) == IF n <= min THEN min ELSE PowerFrom(min, n)

NewShard(len) ==
    [mem |-> << >>, tab |-> [i \in 0 .. len - 1 |-> Null], len |-> len, n |-> 0,
     head |-> Null, tail |-> Null, use |-> 0]

Index(st, h) == h % st.len

\* ------------------------------------------------------------ the chains
RECURSIVE Chain(_, _, _)
Chain(st, p, k) ==
    IF p = Null THEN Null ELSE IF st.mem[p].k = k THEN p ELSE Chain(st, st.mem[p].nh, k)

Find(st, k, h) == Chain(st, st.tab[Index(st, h)], k)

TabInsert(st, p) ==
    LET i == Index(st, st.mem[p].h)
        old == st.tab[i]
    IN  IF old = Null
        THEN [st EXCEPT !.tab[i] = p, !.n = @ + 1]
        ELSE [st EXCEPT !.tab[i] = p, !.n = @ + 1, !.mem[p].nh = old, !.mem[old].ph = p]

\* takes the node out of its chain; it is still in mem
Unchain(st, p) ==
    LET m == st.mem[p]
        i == Index(st, m.h)
    IN  IF m.ph = Null /\ m.nh = Null THEN [st EXCEPT !.tab[i] = Null]
        ELSE IF m.ph = Null THEN [st EXCEPT !.tab[i] = m.nh, !.mem[m.nh].ph = Null]
        ELSE IF m.nh = Null THEN [st EXCEPT !.mem[m.ph].nh = Null]
        ELSE [st EXCEPT !.mem[m.ph].nh = m.nh, !.mem[m.nh].ph = m.ph]

Free(st, p) == [st EXCEPT !.mem = [q \in DOMAIN @ \ {p} |-> @[q]]]

TabRemove(st, k, h) ==
    LET p == Find(st, k, h)
    IN  IF p = Null THEN st ELSE Free([Unchain(st, p) EXCEPT !.n = @ - 1], p)

\* one chain of a table of length len split into those that stay and those that move up by len,
\* both in reverse order
RECURSIVE Split(_, _, _, _, _)
Split(mem, len, p, low, high) ==
    IF p = Null THEN [mem |-> mem, low |-> low, high |-> high]
    ELSE LET nxt == mem[p].nh
             stays == (mem[p].h \div len) % 2 = 0
             old == IF stays THEN low ELSE high
             linked == IF old = Null
                       THEN [mem EXCEPT ![p].ph = Null, ![p].nh = Null]
                       ELSE [mem EXCEPT ![p].ph = Null, ![p].nh = old, ![old].ph = p]
         IN  Split(linked, len, nxt, IF stays THEN p ELSE low, IF stays THEN high ELSE p)

RECURSIVE Grown(_, _, _)
Grown(st, old, i) ==
    IF i = old THEN st
    ELSE LET s == Split(st.mem, old, st.tab[i], Null, Null)
         IN  Grown([st EXCEPT !.mem = s.mem, !.tab[i] = s.low, !.tab[old + i] = s.high], old, i + 1)

Grow(st) ==
    Grown([st EXCEPT !.tab = [i \in 0 .. 2 * st.len - 1 |-> IF i < st.len THEN @[i] ELSE Null],
                     !.len = 2 * @], st.len, 0)

Full(st) == 4 * st.n > 3 * st.len

\* ------------------------------------------------------------ the eviction list, youngest first
LruAdd(st, p) ==
    IF st.head = Null THEN [st EXCEPT !.head = p, !.tail = p]
    ELSE [st EXCEPT !.mem[st.head].prev = p, !.mem[p].next = st.head, !.head = p]

LruRemove(st, p) ==
    LET m == st.mem[p]
        a == IF m.prev = Null THEN [st EXCEPT !.head = m.next] ELSE [st EXCEPT !.mem[m.prev].next = m.next]
        b == IF m.next = Null THEN [a EXCEPT !.tail = m.prev] ELSE [a EXCEPT !.mem[m.next].prev = m.prev]
    IN  [b EXCEPT !.use = @ - m.c]

\* ------------------------------------------------------------ the calls
DoErase(st, k, h) ==
    LET p == Find(st, k, h)
    IN  IF p = Null THEN st ELSE TabRemove(LruRemove(st, p), k, h)

RECURSIVE Evict(_, _)
Evict(st, cap) ==
    IF st.use < cap \/ st.tail = Null THEN st
    ELSE LET m == st.mem[st.tail] IN Evict(TabRemove(LruRemove(st, st.tail), m.k, m.h), cap)

\* p: the address of the new node, anything that is not in use
DoInsert(st0, p, k, h, v, c, cap) ==
    LET st1 == DoErase(st0, k, h)
        node == [k |-> k, v |-> v, c |-> c, h |-> h, prev |-> Null, next |-> Null, ph |-> Null, nh |-> Null]
        st2 == TabInsert([st1 EXCEPT !.mem = [q \in DOMAIN @ \cup {p} |-> IF q = p THEN node ELSE @[q]]], p)
        st3 == IF Full(st2) THEN Grow(st2) ELSE st2
        st4 == LruAdd(st3, p)
    IN  Evict([st4 EXCEPT !.use = @ + c], cap)

DoPrune(st, len) == NewShard(len)

DoLookup(st, k, h) == LET p == Find(st, k, h) IN IF p = Null THEN 0 ELSE st.mem[p].v

\* ------------------------------------------------------------ what keeps it together
Nodes(st) == DOMAIN st.mem

\* walking a list of at most n steps: the nodes met
RECURSIVE Walk(_, _, _, _)
Walk(st, p, f, n) == IF p = Null \/ n = 0 THEN << >> ELSE <<p>> \o Walk(st, st.mem[p][f], f, n - 1)

ChainOf(st, i) == Walk(st, st.tab[i], "nh", st.n + 1)
Lru(st) == Walk(st, st.head, "next", st.n + 1)

Linked(st, s, back, fwd) ==
    \A j \in DOMAIN s :
        /\ s[j] \in Nodes(st)
        /\ st.mem[s[j]][back] = (IF j = 1 THEN Null ELSE s[j - 1])
        /\ st.mem[s[j]][fwd] = (IF j = Len(s) THEN Null ELSE s[j + 1])

ChainsRight(st) ==
    /\ \A i \in DOMAIN st.tab :
        /\ Linked(st, ChainOf(st, i), "ph", "nh")
        /\ \A j \in DOMAIN ChainOf(st, i) : Index(st, st.mem[ChainOf(st, i)[j]].h) = i
    /\ UNION {Range(ChainOf(st, i)) : i \in DOMAIN st.tab} = Nodes(st)

LruRight(st) ==
    /\ Linked(st, Lru(st), "prev", "next")
    /\ Range(Lru(st)) = Nodes(st)
    /\ Cardinality(Nodes(st)) = Len(Lru(st))
    /\ st.tail = IF Lru(st) = << >> THEN Null ELSE Lru(st)[Len(Lru(st))]

CountRight(st) == st.n = Cardinality(Nodes(st))
NotOverfull(st) == ~Full(st)

\* the shard this stands for
Abs(st) ==
    LET l == Lru(st)
    IN  [s |-> [i \in 1 .. Len(l) |-> LET m == st.mem[l[Len(l) + 1 - i]] IN [k |-> m.k, v |-> m.v, c |-> m.c]],
         u |-> st.use]
=============================================================================
