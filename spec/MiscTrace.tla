------------------------------ MODULE MiscTrace ------------------------------
(* Calls recorded from the real linked list, histogram, random generator, slices and statuses (harness/src/misc.rs). *)
EXTENDS TraceBase, Integers
VARIABLES nodes, head, tail, length, hists, seed, slices, views, owned
L == INSTANCE LinkedList
G == INSTANCE Histogram
R == INSTANCE Rand
S == INSTANCE Slices
T == INSTANCE Status
svars == <<slices, views, owned>>
lists == <<nodes, head, tail, length>>
vars == <<lists, hists, seed, svars, l>>

Fresh ==
    /\ nodes' = <<>> /\ head' = 0 /\ tail' = 0 /\ length' = 0 /\ hists' = <<>> /\ seed' = <<0, 1>>
    /\ slices' = <<>> /\ views' = <<>> /\ owned' = <<>>
TInit ==
    /\ nodes = <<>> /\ head = 0 /\ tail = 0 /\ length = 0 /\ hists = <<>> /\ seed = <<0, 1>>
    /\ slices = <<>> /\ views = <<>> /\ owned = <<>> /\ l = 1

\* a position below 0 is one far beyond the end
Pos(x) == IF x < 0 THEN 2147483647 ELSE x
List(e) ==
    /\ UNCHANGED <<hists, seed, svars>>
    /\ CASE e.e = "ll_new" -> UNCHANGED lists
         [] e.e \in {"ll_add", "ll_add_last"} -> e.r = 1 /\ L!LAddLast(e.x) /\ e.n = length'
         [] e.e \in {"ll_push", "ll_add_first"} -> e.r = 1 /\ L!LAddFirst(e.x) /\ e.n = length'
         [] e.e = "ll_add_at" -> L!LAddAt(Pos(e.x), e.y, e.r) /\ e.n = length'
         [] e.e = "ll_get" -> L!LGet(Pos(e.x), e.r) /\ e.n = length
         [] e.e = "ll_get_mut" -> L!LSet(Pos(e.x), e.y, e.r) /\ e.n = length

Hist(e) ==
    /\ UNCHANGED <<lists, seed, svars>>
    /\ CASE e.e = "h_new" -> hists' = [i \in 1 .. e.n |-> <<>>]
         [] e.e = "h_add" -> G!HAdd(e.i, e.x)
         [] e.e = "h_merge" -> G!HMerge(e.i, e.j)
         [] e.e = "h_clear" -> G!HClear(e.i)
         [] e.e = "h_show" -> G!HShow(e.i, e)

Draws(e) ==
    /\ UNCHANGED <<lists, hists, svars>>
    /\ IF e.e = "r_new" THEN seed' = R!Start(e.seed)
       ELSE IF e.e = "r_skewed"
       THEN LET s1 == R!Following(seed)
                k == R!Nat31(s1) % (e.n + 1)
                s2 == R!Following(s1)
            IN  /\ seed' = s2
                /\ R!Nat31(e.r) = (IF k = 31 THEN R!Nat31(s2) ELSE R!Nat31(s2) % R!Two(k))
       ELSE /\ seed' = R!Following(seed)
            /\ CASE e.e = "r_next" -> e.r = seed'
                 [] e.e = "r_uniform" -> R!Nat31(e.r) = R!Nat31(seed') % e.n
                 [] e.e = "r_one_in" -> e.r[2] = (IF R!Nat31(seed') % e.n = 0 THEN 1 ELSE 0)
                 [] e.e = "r_bool" -> e.r[2] = (IF R!Nat31(seed') % 2 = 0 THEN 1 ELSE 0)

\* the result r, or -1 for a panic
May(e, ok, r) == IF ok THEN e.r = r ELSE e.r = -1
Slice(e) ==
    LET s == slices[e.i]
        n == Len(s)
        Keep(p) == TRUE = p /\ UNCHANGED svars
        Set(i, x, p) == TRUE = p /\ slices' = [slices EXCEPT ![i] = x] /\ UNCHANGED <<views, owned>>
    IN
    CASE e.e \in {"s_buf", "s_vec", "s_str", "s_raw"} -> Set(e.i, e.a, e.r = 0)
      [] e.e = "s_size" -> Keep(e.r = <<n, IF n = 0 THEN 1 ELSE 0, n>>)
      [] e.e = "s_sub" -> Keep(May(e, e.a + e.b <= n, SubSeq(s, e.a + 1, e.a + e.b)))
      [] e.e = "s_rmpre" -> Keep(May(e, e.a <= n, SubSeq(s, e.a + 1, n)))
      [] e.e = "s_starts" -> Keep(e.r = (IF S!HasPrefix(s, slices[e.a + 1]) THEN 1 ELSE 0))
      [] e.e = "s_merge" -> Set(e.i, S!Merged(s, slices[e.a + 1], e.b), e.r = 0)
      [] e.e = "s_at" -> Keep(May(e, e.a < n, s[e.a + 1]))
      [] e.e = "s_range" -> Keep(May(e, e.a <= e.b /\ e.b <= n, SubSeq(s, e.a + 1, e.b)))
      [] e.e = "s_from" -> Keep(May(e, e.a <= n, SubSeq(s, e.a + 1, n)))
      [] e.e = "s_to" -> Keep(May(e, e.b <= n, SubSeq(s, 1, e.b)))
      [] e.e = "s_setrange" -> LET ok == e.a <= e.b /\ e.b <= n IN Set(e.i, IF ok THEN S!Counting(s, e.a, e.b) ELSE s, May(e, ok, 0))
      [] e.e = "s_setfrom" -> LET ok == e.a <= n IN Set(e.i, IF ok THEN S!Counting(s, e.a, n) ELSE s, May(e, ok, 0))
      [] e.e = "s_setto" -> LET ok == e.b <= n IN Set(e.i, IF ok THEN S!Counting(s, 0, e.b) ELSE s, May(e, ok, 0))
      [] e.e = "s_clone" -> Set(e.a + 1, s, e.r = 0)
      [] e.e = "s_cmp" -> Keep(LET c == S!Compare(s, slices[e.a + 1]) IN e.r = <<c, IF c = 0 THEN 1 ELSE 0>>)
      [] e.e \in {"s_bytes", "s_string", "s_show", "s_borrow"} -> Keep(e.r = s)
      [] e.e = "s_as_str" -> Keep(May(e, S!Utf8(s, 1), s))

View(e) ==
    LET v == views[e.a + 1]
        o == owned[e.a + 1]
        Keep(p) == TRUE = p /\ UNCHANGED svars
    IN
    CASE e.e = "u_new" -> UNCHANGED svars
      [] e.e = "u_make" -> e.r = 0 /\ views' = Append(views, e.a) /\ UNCHANGED <<slices, owned>>
      [] e.e = "u_len" -> Keep(e.r = Len(v))
      [] e.e \in {"u_bytes", "u_str", "u_show"} -> Keep(e.r = v)
      [] e.e = "u_sub" -> LET ok == e.b + e.c <= Len(v) IN
            /\ May(e, ok, 0)
            /\ views' = (IF ok THEN Append(views, SubSeq(v, e.b + 1, e.b + e.c)) ELSE views)
            /\ UNCHANGED <<slices, owned>>
      [] e.e = "u_to_slice" -> e.r = v /\ owned' = Append(owned, v) /\ UNCHANGED <<slices, views>>
      [] e.e = "u_mutate" -> owned' = [owned EXCEPT ![e.a + 1] = [i \in DOMAIN @ |-> 255 - @[i]]] /\ UNCHANGED <<slices, views>>
      [] e.e = "u_owned" -> Keep(e.r = o)

Status(e) ==
    IF e.e = "code" THEN e.r = (IF e.x \in 0 .. 7 THEN e.x ELSE -1)
    ELSE LET k == T!Kind(e.mk, e.c)
             m == T!Message(e.mk, e.c, e.m1, e.m2)
         IN  /\ e.p = T!Predicates(k) /\ e.q = T!Predicates(k)
             /\ e.m = m /\ e.m3 = m /\ e.t = T!Text(k, m)
             /\ e.v = k /\ e.et = T!KindText(k) /\ e.rep = (k = 7)

Step(e) ==
    CASE e.e = "case" -> Fresh
      [] e.e \in {"ll_new", "ll_add", "ll_add_last", "ll_push", "ll_add_first", "ll_add_at", "ll_get", "ll_get_mut"} -> List(e)
      [] e.e \in {"h_new", "h_add", "h_merge", "h_clear", "h_show"} -> Hist(e)
      [] e.e \in {"r_new", "r_next", "r_uniform", "r_one_in", "r_bool", "r_skewed"} -> Draws(e)
      [] e.e = "s_new" -> slices' = [i \in 1 .. e.n |-> <<>>] /\ UNCHANGED <<lists, hists, seed, views, owned>>
      [] e.e \in {"st", "code"} -> TRUE = Status(e) /\ UNCHANGED <<lists, hists, seed, svars>>
      [] e.e \in {"u_new", "u_make", "u_len", "u_bytes", "u_str", "u_show", "u_sub", "u_to_slice", "u_mutate", "u_owned"} -> View(e) /\ UNCHANGED <<lists, hists, seed>>
      [] e.e \in {"panic", "crash"} -> FALSE
      [] OTHER -> Slice(e) /\ UNCHANGED <<lists, hists, seed>>

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1
TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
