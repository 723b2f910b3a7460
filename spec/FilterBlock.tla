----------------------------- MODULE FilterBlock -----------------------------
(***************************************************************************)
(* The filter block of a table file (src/table/filter_block.rs): a filter  *)
(* for each 2 KiB of block offsets, their offsets, and how to find them.   *)
(* Make(keys) is the filter of a nonempty sequence of keys.                *)
(***************************************************************************)
EXTENDS Coding
LOCAL INSTANCE SequencesExt
CONSTANT Make(_)
VARIABLES filters,      \* the filters made so far
          pending       \* the keys since then

BaseLg == 11
RangeOf(x) == x \div 2048
FilterOf(keys) == IF keys = <<>> THEN <<>> ELSE Make(keys)

FInit == filters = <<>> /\ pending = <<>>
\* a block starts at offset x of the file; blocks start in order
FStart(x) ==
    LET n == RangeOf(x) IN
    /\ n >= Len(filters)
    /\ IF n = Len(filters) THEN UNCHANGED <<filters, pending>>
       ELSE /\ filters' = filters \o [i \in 1 .. n - Len(filters) |-> IF i = 1 THEN FilterOf(pending) ELSE <<>>]
            /\ pending' = <<>>
FKey(k) == pending' = Append(pending, k) /\ UNCHANGED filters

All == IF pending = <<>> THEN filters ELSE Append(filters, Make(pending))
Ends(fs) == FoldLeft(LAMBDA s, f : Append(s, s[Len(s)] + Len(f)), <<0>>, fs)
Block ==
    LET fs == All
        at == Ends(fs)
        data == FoldLeft(LAMBDA s, f : s \o f, <<>>, fs)
        offsets == FoldLeft(LAMBDA s, x : s \o OfInt(x), <<>>, at)      \* the last one is where the array begins
    IN  data \o offsets \o <<BaseLg>>
FFinish(r) == r = Block /\ UNCHANGED <<filters, pending>>
\* what the builder shows of itself: bytes of keys, keys, bytes of filters, filters
Shown == <<FoldLeft(LAMBDA n, k : n + Len(k), 0, pending), Len(pending), FoldLeft(LAMBDA n, f : n + Len(f), 0, filters), Len(filters)>>

\* how LevelDB reads a block b: the filter for the block at offset x; <<-1>> where there is none
ReadFilter(b, x) ==
    LET n == Len(b)
        w(i) == ToInt(SubSeq(b, i + 1, i + 4))
        array == w(n - 5)
        num == (n - 5 - array) \div 4
        i == x \div 2048
    IN  IF i >= num THEN <<-1>> ELSE SubSeq(b, w(array + 4 * i) + 1, w(array + 4 * i + 4))
=============================================================================
