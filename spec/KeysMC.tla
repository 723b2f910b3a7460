------------------------------- MODULE KeysMC -------------------------------
(* C21, C22, C23 on the specifications themselves: what is written can be read back, and is in its place. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS What, MaxOps
VARIABLES entries, filters, pending, edit,
          ghost         \* what was put in
Num(x) == <<x, 0, 0, 0, 0, 0, 0, 0>>
Plain(ks) == FoldLeft(LAMBDA s, k : s \o <<Len(k)>> \o k, <<>>, ks) \o <<Len(ks)>>
M == INSTANCE MemTable
F == INSTANCE FilterBlock WITH Make <- Plain
V == INSTANCE VersionEdit
vars == <<entries, filters, pending, edit, ghost>>

Init == M!MInit /\ F!FInit /\ V!VInit /\ ghost = <<>>

Keys == {<<>>, <<0>>, <<97>>, <<97, 98>>}
Seqs == {Num(0), Num(1), <<0, 1, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 0>>}
MemNext == \E k \in Keys, s \in Seqs, t \in {0, 1}, v \in {<<>>, <<0>>, <<98>>} :
    /\ M!MAdd(k, s, t, v) /\ ghost' = Append(ghost, <<k, s, t, v>>)
    /\ UNCHANGED <<filters, pending, edit>>
\* C21: sorted, each entry readable, and exactly what was added
MemOk == What = "mem" =>
    /\ \A i \in 1 .. Len(entries) - 1 : M!O!Compare(entries[i], entries[i + 1]) < 0
    /\ {M!Parse(entries[i]) : i \in DOMAIN entries} = ToSet(ghost)
    /\ Len(entries) = Cardinality(ToSet(ghost))

\* ghost: the offset of the last block and the keys with theirs
Offsets == {0, 1, 2047, 2048, 2049, 4095, 4096, 6200, 10240}
LastAt == IF ghost = <<>> THEN 0 ELSE ghost[Len(ghost)][1]
FilterNext ==
    /\ \/ \E x \in Offsets : x >= LastAt /\ F!FStart(x) /\ ghost' = Append(ghost, <<x, <<-1>>>>)
       \/ \E k \in {<<>>, <<97>>, <<97, 98>>} : F!FKey(k) /\ ghost' = Append(ghost, <<LastAt, k>>)
    /\ UNCHANGED <<entries, edit>>
KeysAt(i) == SelectSeq(ghost, LAMBDA g : g[2] # <<-1>> /\ g[1] \div 2048 = i)
\* C22: the filter read for any offset is the one of exactly the keys of its range
FilterOk == What = "filter" =>
    \A x \in Offsets :
        LET r == F!ReadFilter(F!Block, x)
            ks == [j \in DOMAIN KeysAt(x \div 2048) |-> KeysAt(x \div 2048)[j][2]]
        IN  r = IF ks # <<>> THEN Plain(ks) ELSE IF x \div 2048 < Len(F!All) THEN <<>> ELSE <<-1>>

Nums == {Num(0), Num(127), Num(128), <<255, 255, 255, 255, 255, 255, 255, 255>>}
Levels == {<<0, 0, 0, 0>>, <<200, 0, 0, 0>>}
EditNext ==
    /\ \/ \E f \in {"log", "prev", "next", "last"}, x \in Nums : V!VSet(f, x)
       \/ \E s \in {<<>>, <<98, 99>>} : V!VSet("comparator", s)
       \/ \E lv \in Levels : V!VPointer(lv, <<9>>) \/ \E x \in Nums : V!VDelete(lv, x) \/ V!VAdd(lv, x, Num(5), <<>>, <<1, 2>>)
       \/ V!VClear
    /\ ghost' = Append(ghost, 0)
    /\ UNCHANGED <<entries, filters, pending>>
\* C23
EditOk == What = "edit" => V!Decoding(V!Encoding(edit), 0, V!Nothing) = edit

Next ==
    /\ Len(ghost) < MaxOps
    /\ CASE What = "mem" -> MemNext [] What = "filter" -> FilterNext [] What = "edit" -> EditNext
Spec == Init /\ [][Next]_vars
=============================================================================
