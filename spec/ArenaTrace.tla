----------------------------- MODULE ArenaTrace -----------------------------
(* Calls recorded from the real arena (harness/src/arena.rs) against Arena.tla, with addresses as <<a \div 2^24, a % 2^24>>. *)
EXTENDS Arena, TraceBase
CONSTANT Strict     \* FALSE: allocate_align may ignore the alignment inside the current block (see known-findings.txt)
VARIABLES a, regions, cur
avars == <<a, regions, cur>>
vars == <<avars, l>>

W == 16777216
Plus(x, n) == <<x[1] + ((x[2] + n) \div W), (x[2] + n) % W>>
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Apart(r, s) == r[1] = r[2] \/ s[1] = s[2] \/ Leq(r[2], s[1]) \/ Leq(s[2], r[1])

TInit == a = Fresh /\ regions = <<>> /\ cur = <<>> /\ l = 1

AllocEvent(e) ==
    LET r == <<e.a, Plus(e.a, e.n)>>
        fits == Fits(a, e.n)
    IN  /\ e.len = e.n
        /\ TRUE = (\A i \in DOMAIN regions : Apart(r, regions[i]))
        \* aligned; the known finding: not when the region follows the one before it in the current block
        /\ \/ e.a[2] % e.al = 0
           \/ ~Strict /\ fits /\ (cur = <<>> \/ e.a = cur)
        /\ a' = Alloc(a, e.n)
        /\ e.u = a'.usage
        /\ regions' = Append(regions, r)
        /\ cur' = IF Own(a, e.n) THEN cur ELSE r[2]

CopyEvent(e) ==
    /\ e.same
    /\ a' = Alloc(a, e.n)
    /\ e.u = a'.usage
    /\ cur' = IF Own(a, e.n) THEN cur ELSE IF Fits(a, e.n) /\ cur # <<>> THEN Plus(cur, e.n) ELSE <<>>
    /\ UNCHANGED regions

Step(e) ==
    CASE e.e = "case" -> a' = Fresh /\ regions' = <<>> /\ cur' = <<>>
      [] e.e = "new" -> e.u = 0 /\ UNCHANGED avars
      [] e.e = "alloc" -> AllocEvent(e)
      [] e.e = "copy" -> CopyEvent(e)
      [] e.e = "check" -> e.bad = 0 /\ e.u = a.usage /\ UNCHANGED avars
      [] e.e = "end" -> e.bad = 0 /\ e.ok /\ e.leak = 0 /\ UNCHANGED avars
      [] OTHER -> FALSE     \* failed, panic, crash

TraceNext ==
    /\ l <= Len(Trace)
    /\ Step(Trace[l])
    /\ l' = l + 1

TraceSpec == TInit /\ [][TraceNext]_vars
=============================================================================
