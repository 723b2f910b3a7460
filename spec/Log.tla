-------------------------------- MODULE Log --------------------------------
(***************************************************************************)
(* The write-ahead log of src/db/log_writer.rs and src/db/log_reader.rs.   *)
(*                                                                         *)
(* A file is blocks of BS bytes.  The writer is given by the pieces that   *)
(* one record adds to a file of a given size.  The reader works on the     *)
(* blocks, each described by the headers one meets from its start:         *)
(*   [n |-> bytes present, fr |-> << [o |-> offset in the block,           *)
(*      l |-> length, t |-> type, fit |-> ends within the bytes present,   *)
(*      c |-> checksum right, f |-> contents] >>]                          *)
(* and is one action, ReadNext, a call of read_next.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS BS,           \* block size (32768; small in the model)
          Join(_, _, _) \* Join(f, g, n): contents f, then contents g of n bytes

Hd == 7
FULL == 1  FIRST == 2  MIDDLE == 3  LAST == 4
NoContents == <<>>

Min(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------ the writer
\* the pieces of a record of which `left` bytes are to be written at file offset `at`
RECURSIVE Pieces(_, _, _)
Pieces(at, left, first) ==
    LET room == BS - (at % BS) IN
    IF room < Hd
    THEN <<[k |-> "pad", o |-> at, l |-> room]>> \o Pieces(at + room, left, first)
    ELSE LET n == Min(left, room - Hd)
             t == IF first THEN (IF n = left THEN FULL ELSE FIRST) ELSE (IF n = left THEN LAST ELSE MIDDLE)
         IN  <<[k |-> "frag", o |-> at, l |-> n, t |-> t]>>
             \o (IF n = left THEN <<>> ELSE Pieces(at + Hd + n, left - n, FALSE))

RecordPieces(at, len) == Pieces(at, len, TRUE)
Size(p) == IF p.k = "pad" THEN p.l ELSE p.l + Hd
EndOf(ps) == LET p == ps[Len(ps)] IN p.o + Size(p)
StartOf(ps) == IF ps[1].k = "pad" THEN ps[2].o ELSE ps[1].o

\* ------------------------------------------------------------ the reader
\* where a reader for the records from offset init on begins
FirstBlock(init) == init \div BS + (IF init % BS > BS - 6 THEN 1 ELSE 0)

ReaderAt(init) == [cur |-> 0, nxt |-> FirstBlock(init) + 1, i |-> 1, eof |-> FALSE, rs |-> init > 0]

Load(blocks, st) ==
    IF st.nxt > Len(blocks)
    THEN [st EXCEPT !.cur = 0, !.i = 1, !.eof = TRUE]
    ELSE [st EXCEPT !.cur = st.nxt, !.nxt = st.nxt + 1, !.i = 1, !.eof = blocks[st.nxt].n < BS]

NotIn == [on |-> FALSE, l |-> 0, f |-> NoContents]

\* one call: [st |-> the reader afterwards, r |-> "rec" | "end" | "corruption", l, f]
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(blocks, cs, init, st, acc) ==
    LET Result(s, r, l, f) == [st |-> s, r |-> r, l |-> l, f |-> f]
        Bad(s) == Result(s, "corruption", 0, NoContents)
        End(s) == Result(s, "end", 0, NoContents)
    IN
    IF st.cur = 0 \/ st.i > Len(blocks[st.cur].fr)
    THEN IF st.eof THEN End(st) ELSE ReadFrom(blocks, cs, init, Load(blocks, st), acc)
    ELSE
    LET e == blocks[st.cur].fr[st.i]
        skip == [st EXCEPT !.i = @ + 1]
        drop == [st EXCEPT !.i = Len(blocks[st.cur].fr) + 1]
        in == e.t \in {MIDDLE, LAST}
    IN
    IF ~e.fit THEN IF st.eof THEN End(drop) ELSE Bad(drop)
    ELSE IF cs /\ ~e.c THEN Bad(drop)
    ELSE IF (st.cur - 1) * BS + e.o < init THEN ReadFrom(blocks, cs, init, skip, acc)
    ELSE IF st.rs /\ in THEN ReadFrom(blocks, cs, init, [skip EXCEPT !.rs = e.t = MIDDLE], acc)
    ELSE
    LET s1 == [st EXCEPT !.rs = FALSE]
        s2 == [skip EXCEPT !.rs = FALSE]
        joined == [on |-> TRUE, l |-> acc.l + e.l, f |-> Join(acc.f, e.f, e.l)]
    IN
    IF in /\ ~acc.on THEN Bad(s2)
    ELSE IF ~in /\ acc.on THEN Bad(s1)
    ELSE CASE e.t = FULL -> Result(s2, "rec", e.l, e.f)
           [] e.t = FIRST -> ReadFrom(blocks, cs, init, s2, [on |-> TRUE, l |-> e.l, f |-> e.f])
           [] e.t = MIDDLE -> ReadFrom(blocks, cs, init, s2, joined)
           [] e.t = LAST -> Result(s2, "rec", joined.l, joined.f)
           [] OTHER -> Bad(s2)

ReadNext(blocks, cs, init, st) == ReadFrom(blocks, cs, init, st, NotIn)
=============================================================================
