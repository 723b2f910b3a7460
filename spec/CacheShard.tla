----------------------------- MODULE CacheShard -----------------------------
(* One shard of the cache as a value: its entries, oldest first, and the charge in use. *)
EXTENDS Naturals, Sequences

NShards == 32
CapOf(total) == (total + NShards - 1) \div NShards

Empty == [s |-> <<>>, u |-> 0]

Has(sh, k) == \E i \in DOMAIN sh.s : sh.s[i].k = k
Entry(sh, k) == sh.s[CHOOSE i \in DOMAIN sh.s : sh.s[i].k = k]
Value(sh, k) == IF Has(sh, k) THEN Entry(sh, k).v ELSE 0

Erased(sh, k) ==
    IF Has(sh, k)
    THEN [s |-> SelectSeq(sh.s, LAMBDA e : e.k # k), u |-> sh.u - Entry(sh, k).c]
    ELSE sh

\* the oldest entries go until the shard is below its capacity
RECURSIVE Evicted(_, _)
Evicted(sh, cap) ==
    IF sh.s = <<>> \/ sh.u < cap THEN sh
    ELSE Evicted([s |-> Tail(sh.s), u |-> sh.u - Head(sh.s).c], cap)

Inserted(sh, k, v, c, cap) ==
    LET e == Erased(sh, k)
    IN  Evicted([s |-> Append(e.s, [k |-> k, v |-> v, c |-> c]), u |-> e.u + c], cap)

Values(sh) == {sh.s[i].v : i \in DOMAIN sh.s}

RECURSIVE Charges(_)
Charges(s) == IF s = <<>> THEN 0 ELSE Head(s).c + Charges(Tail(s))
=============================================================================
