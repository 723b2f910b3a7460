------------------------------- MODULE LogMC -------------------------------
(* The log with small blocks: every history of a few records, and in each state every truncation, every initial *)
(* offset, every set of damaged fragments, read to the end.  Contents are sequences of <<record, byte>>.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS BS, Lens, MaxRecs, MaxForeign

J(f, g, n) == f \o g
L == INSTANCE Log WITH Join <- J

VARIABLES recs,     \* records written: [l, s |-> start, e |-> end]
          pieces    \* all pieces of the file, frags with their contents f
vars == <<recs, pieces>>

Init == recs = <<>> /\ pieces = <<>>
FileEnd == IF pieces = <<>> THEN 0 ELSE L!EndOf(pieces)

\* contents for the fragments of record r: its bytes one after another
RECURSIVE Fill(_, _, _)
Fill(ps, r, from) ==
    IF ps = <<>> THEN <<>>
    ELSE IF Head(ps).k = "pad" THEN <<Head(ps)>> \o Fill(Tail(ps), r, from)
    ELSE <<[k |-> "frag", o |-> Head(ps).o, l |-> Head(ps).l, t |-> Head(ps).t, f |-> [j \in 1 .. Head(ps).l |-> <<r, from + j>>]]>>
         \o Fill(Tail(ps), r, from + Head(ps).l)
Body(r, len) == [j \in 1 .. len |-> <<r, j>>]

Append1 == \E n \in Lens :
    LET ps == Fill(L!RecordPieces(FileEnd, n), Len(recs) + 1, 0)
    IN  /\ Len(recs) < MaxRecs
        /\ pieces' = pieces \o ps
        /\ recs' = Append(recs, [l |-> n, s |-> L!StartOf(ps), e |-> L!EndOf(ps)])
Next == Append1
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ the file as the reader sees it
\* cut at n bytes; the fragments in bad have wrong checksums, those in unfit lengths beyond their block
Blocks(n, bad, unfit) ==
    LET nb == (n + BS - 1) \div BS
        Frag(i, b) == LET p == pieces[i] IN
            [o |-> p.o % BS, l |-> p.l, t |-> p.t, c |-> i \notin bad, f |-> p.f,
             fit |-> p.o + L!Hd + p.l <= n /\ i \notin unfit]
        In(b) == SelectSeq([i \in 1 .. Len(pieces) |-> i],
                    LAMBDA i : pieces[i].k = "frag" /\ pieces[i].o \div BS = b - 1 /\ pieces[i].o + L!Hd <= n)
    IN  [b \in 1 .. nb |->
            [n |-> IF b = nb THEN n - (b - 1) * BS ELSE BS,
             fr |-> LET is == In(b)
                        \* after a length beyond the block nothing more is met
                        stop == {j \in DOMAIN is : is[j] \in unfit \/ pieces[is[j]].o + L!Hd + pieces[is[j]].l > n}
                        m == IF stop = {} THEN Len(is) ELSE CHOOSE j \in stop : \A k \in stop : j <= k
                    IN  [j \in 1 .. m |-> Frag(is[j], b)]]]

\* everything a reader returns until it reports the end for the second time
RECURSIVE Results(_, _, _, _, _)
Results(blocks, cs, init, st, left) ==
    LET x == L!ReadNext(blocks, cs, init, st)
        y == [r |-> x.r, l |-> x.l, f |-> x.f]
    IN  IF left = 0 THEN <<>>
        ELSE IF x.r = "end" THEN <<y>> \o Results(blocks, cs, init, x.st, left - 1)
        ELSE <<y>> \o Results(blocks, cs, init, x.st, left)
Read(blocks, cs, init) == Results(blocks, cs, init, L!ReaderAt(init), 2)

Records(res) == SelectSeq(res, LAMBDA y : y.r = "rec")
Corrupt(res) == \E i \in DOMAIN res : res[i].r = "corruption"
Returned(i) == [r |-> "rec", l |-> recs[i].l, f |-> Body(i, recs[i].l)]
TheEnd == <<[r |-> "end", l |-> 0, f |-> <<>>], [r |-> "end", l |-> 0, f |-> <<>>]>>

\* the records of which P holds, in order
Those(P(_)) == [j \in 1 .. Len(SelectSeq([i \in 1 .. Len(recs) |-> i], P)) |-> Returned(SelectSeq([i \in 1 .. Len(recs) |-> i], P)[j])]

\* ------------------------------------------------------------ properties
\* C02: fragments and trailers tile the file, no header crosses a block end, types spell records
Tiles == \A i \in DOMAIN pieces : pieces[i].o = (IF i = 1 THEN 0 ELSE LET p == pieces[i - 1] IN p.o + L!Size(p))
HeadersFit == \A i \in DOMAIN pieces : LET p == pieces[i] IN
    IF p.k = "frag" THEN p.o % BS <= BS - L!Hd /\ p.o \div BS = (p.o + L!Hd + p.l - 1) \div BS
    ELSE (p.o + p.l) % BS = 0 /\ p.l < L!Hd
SplitOnlyAtBlockEnd == \A i \in DOMAIN pieces : pieces[i].k = "frag" /\ pieces[i].t \in {L!FIRST, L!MIDDLE} =>
    (pieces[i].o + L!Hd + pieces[i].l) % BS = 0

\* C01
RoundTrip == Read(Blocks(FileEnd, {}, {}), TRUE, 0) = Those(LAMBDA i : TRUE) \o TheEnd
\* C03
Truncated == \A n \in 0 .. FileEnd : Read(Blocks(n, {}, {}), TRUE, 0) = Those(LAMBDA i : recs[i].e <= n) \o TheEnd
\* C06
FromOffset == \A o \in 0 .. (FileEnd + BS) : Read(Blocks(FileEnd, {}, {}), TRUE, o) = Those(LAMBDA i : recs[i].s >= o) \o TheEnd
\* C04: wrong checksums and wrong lengths
Frags == {i \in DOMAIN pieces : pieces[i].k = "frag"}
BlocksOf(i) == (recs[i].s \div BS) .. ((recs[i].e - 1) \div BS)
IsSubSeqOfRecs(rs) ==
    \E ix \in [1 .. Len(rs) -> 1 .. Len(recs)] :
        /\ \A j \in DOMAIN rs : rs[j] = Returned(ix[j])
        /\ \A j \in 1 .. (Len(rs) - 1) : ix[j] < ix[j + 1]
Damaged == \A bad \in SUBSET Frags : Cardinality(bad) \in 1 .. 2 =>
    \A unfit \in {{}, bad} :
        LET res == Read(Blocks(FileEnd, bad, unfit), TRUE, 0)
            rs == Records(res)
            hit == {pieces[i].o \div BS : i \in bad}
        IN  /\ IsSubSeqOfRecs(rs)
            /\ \A i \in DOMAIN recs : BlocksOf(i) \cap hit = {} => \E j \in DOMAIN rs : rs[j] = Returned(i)
            \* reported, except where a wrong length looks like a record that was not finished at the end of the file
            /\ Corrupt(res) \/ (unfit # {} /\ \A b \in hit : b = FileEnd \div BS)
            /\ res[Len(res)].r = "end"
\* C04 and C06 together: from any offset, still only whole records
DamagedFrom == \A b \in Frags : \A o \in {p.o + d : p \in {pieces[i] : i \in Frags}, d \in {0, 1, 7}} :
    IsSubSeqOfRecs(Records(Read(Blocks(FileEnd, {b}, {}), TRUE, o)))

\* what a foreign writer may put into two blocks: every sequence of types, contents told apart by position
ForeignBlocks(ts, per) ==
    LET nb == (Len(ts) + per - 1) \div per IN
    [b \in 1 .. nb |->
        [n |-> IF b = nb THEN BS - 1 ELSE BS,
         fr |-> [j \in 1 .. (IF b = nb THEN Len(ts) - (b - 1) * per ELSE per) |->
            [o |-> (j - 1) * L!Hd, l |-> 1, t |-> ts[(b - 1) * per + j], fit |-> TRUE, c |-> TRUE, f |-> <<(b - 1) * per + j>>]]]]
\* a returned record is one full fragment, or a first, middles and a last that stand next to each other
WellFormed(ts, f) ==
    /\ \A j \in 1 .. (Len(f) - 1) : f[j + 1] = f[j] + 1
    /\ IF Len(f) = 1 THEN ts[f[1]] = L!FULL
       ELSE ts[f[1]] = L!FIRST /\ ts[f[Len(f)]] = L!LAST /\ \A j \in 2 .. (Len(f) - 1) : ts[f[j]] = L!MIDDLE
Foreign == \A k \in 1 .. MaxForeign : \A ts \in [1 .. k -> 0 .. 5] : \A per \in {2, k} :
    LET res == Read(ForeignBlocks(ts, per), TRUE, 0)
        rs == Records(res)
    IN  /\ \A j \in DOMAIN rs : WellFormed(ts, rs[j].f)
        \* every well-formed stretch that is not inside another is returned
        /\ \A a, b \in 1 .. k : a <= b /\ WellFormed(ts, [j \in 1 .. (b - a + 1) |-> a + j - 1])
              => \E j \in DOMAIN rs : rs[j].f = [x \in 1 .. (b - a + 1) |-> a + x - 1]
        /\ \A j \in 1 .. (Len(rs) - 1) : rs[j].f[1] < rs[j + 1].f[1]
ForeignOnce == recs = <<>> => Foreign

\* the histories, for the real code
Hist == PrintT("HIST " \o ToJson([l |-> [i \in DOMAIN recs |-> recs[i].l], p |-> [i \in DOMAIN pieces |-> <<pieces[i].k, pieces[i].o, pieces[i].l>>]]))
=============================================================================
