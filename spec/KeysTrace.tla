------------------------------ MODULE KeysTrace ------------------------------
(* Calls recorded from the real memory table, filter block builder and version edit (harness/src/keys.rs). *)
EXTENDS TraceBase, SequencesExt
VARIABLES entries, filters, pending, edit, files,
          policy,       \* 0: filters that show their keys; otherwise a Bloom filter of so many bits a key, plus 1
          total,        \* bytes of the entries
          usage         \* the table's memory usage
B == INSTANCE Bloom
M == INSTANCE MemTable
V == INSTANCE VersionEdit
D == INSTANCE FileMeta
Plain(ks) == FoldLeft(LAMBDA s, k : s \o <<Len(k)>> \o k, <<>>, ks) \o <<Len(ks)>>
\* keys carry the policy with them
MakeFilter(ks) == LET p == ks[1][1]  bare == [i \in DOMAIN ks |-> ks[i][2]] IN IF p = 0 THEN Plain(bare) ELSE B!Filter(p - 1, Len(ks), bare)
F == INSTANCE FilterBlock WITH Make <- MakeFilter
mvars == <<entries, total, usage>>
fvars == <<filters, pending, policy>>
vars == <<mvars, fvars, edit, files, l>>

Fresh == entries' = <<>> /\ filters' = <<>> /\ pending' = <<>> /\ policy' = 0 /\ total' = 0 /\ usage' = 0 /\ edit' = V!Nothing /\ files' = <<>>
TInit == entries = <<>> /\ filters = <<>> /\ pending = <<>> /\ policy = 0 /\ total = 0 /\ usage = 0 /\ edit = V!Nothing /\ files = <<>> /\ l = 1

W(x) == <<x[2] % 256, x[2] \div 256, x[1] % 256, x[1] \div 256>>
Shown == LET s == FoldLeft(LAMBDA n, k : n + Len(k[2]), 0, pending') IN
         <<s, Len(pending'), FoldLeft(LAMBDA n, f : n + Len(f), 0, filters'), Len(filters')>>

Table(e) ==
    /\ UNCHANGED <<fvars, edit, files>>
    /\ CASE e.e = "mt_new" -> UNCHANGED mvars
         [] e.e = "mt_add" ->
                /\ e.ok
                /\ M!MAdd(e.k, e.s, e.t, e.v)
                /\ total' = FoldLeft(LAMBDA n, x : n + Len(x), 0, entries')
                /\ usage' = e.u /\ e.u >= usage /\ e.u >= total'
         [] e.e = "mt_dump" -> M!MDump(e.r, e.n) /\ UNCHANGED <<total, usage>>

Filter(e) ==
    /\ UNCHANGED <<mvars, edit, files>>
    /\ CASE e.e = "fb_new" -> policy' = (IF e.policy = "plain" THEN 0 ELSE e.bpk + 1) /\ UNCHANGED <<filters, pending>>
         [] e.e = "fb_start" -> F!FStart(e.x) /\ e.st = Shown /\ UNCHANGED policy
         [] e.e = "fb_key" -> F!FKey(<<policy, e.k>>) /\ e.st = Shown /\ UNCHANGED policy
         [] e.e = "fb_finish" -> e.ok /\ F!FFinish(e.r) /\ UNCHANGED policy

Edit(e) ==
    /\ UNCHANGED <<mvars, fvars, files>>
    /\ CASE e.e = "ed_new" -> (IF e.new = "log" THEN V!VSet("log", e.x) ELSE IF e.new = "prev" THEN V!VSet("prev", e.x) ELSE UNCHANGED edit)
         [] e.e = "ed_comparator" -> V!VSet("comparator", e.b)
         [] e.e = "ed_log" -> V!VSet("log", e.x)
         [] e.e = "ed_prev" -> V!VSet("prev", e.x)
         [] e.e = "ed_next" -> V!VSet("next", e.x)
         [] e.e = "ed_last" -> V!VSet("last", e.x)
         [] e.e = "ed_pointer" -> V!VPointer(W(e.l), e.ka)
         [] e.e = "ed_delete" -> V!VDelete(W(e.l), e.x)
         [] e.e = "ed_add" -> V!VAdd(W(e.l), e.x, e.s, e.ka, e.kb)
         [] e.e = "ed_clear" -> V!VClear
         [] e.e = "ed_encode" -> e.ok /\ V!VEncode(e.r)

Files(e) ==
    /\ UNCHANGED <<mvars, fvars, edit>>
    /\ CASE e.e = "fm_new" -> UNCHANGED files
         [] e.e = "fm_make" -> D!DMake(e.how, [refs |-> e.refs, seeks |-> e.seeks, number |-> e.n, size |-> e.size, from |-> e.ka, to |-> e.kb])
         [] e.e = "fm_show" -> D!DShow(e.i + 1, e.r)
         [] e.e = "fm_size" -> D!DSize(e.i + 1, e.size)
         [] e.e = "fm_refs" -> D!DRefs(e.i + 1, e.refs)
         [] e.e = "fm_eq" -> D!DEq(e.i + 1, e.j + 1, e.r)

Right(e) ==
    CASE e.e = "lookup" -> e.r = M!LookupKey(e.k, e.s) /\ e.int = M!InternalKey(e.k, e.s, 1) /\ e.n = Len(e.int)
      [] e.e = "pack" -> e.r = M!Pack(e.s, e.t)
      [] e.e = "vtype" -> e.r = (IF e.x \in {0, 1} THEN e.x ELSE -1)
      [] e.e = "tag" -> e.r = (IF e.x[1] = 0 /\ e.x[2] \in (1 .. 7) \cup {9} THEN e.x[2] ELSE -1) /\ e.d = e.r

Step(e) ==
    CASE e.e = "case" -> Fresh
      [] e.e \in {"mt_new", "mt_add", "mt_dump"} -> Table(e)
      [] e.e \in {"fb_new", "fb_start", "fb_key", "fb_finish"} -> Filter(e)
      [] e.e \in {"ed_new", "ed_comparator", "ed_log", "ed_prev", "ed_next", "ed_last", "ed_pointer", "ed_delete", "ed_add", "ed_clear", "ed_encode"} -> Edit(e)
      [] e.e \in {"fm_new", "fm_make", "fm_show", "fm_size", "fm_refs", "fm_eq"} -> Files(e)
      [] e.e \in {"lookup", "pack", "vtype", "tag"} -> TRUE = Right(e) /\ UNCHANGED <<mvars, fvars, edit, files>>
      [] OTHER -> FALSE

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1
TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
