----------------------------- MODULE VersionEdit -----------------------------
(* A version edit and its encoding (src/db/version_edit.rs). Internal keys are byte strings. *)
EXTENDS Coding
LOCAL INSTANCE SequencesExt
VARIABLE edit

\* fields that are not set: <<>>
Nothing == [comparator |-> <<>>, log |-> <<>>, prev |-> <<>>, next |-> <<>>, last |-> <<>>, pointers |-> <<>>, deleted |-> <<>>, added |-> <<>>]
VInit == edit = Nothing
VSet(f, x) == edit' = [edit EXCEPT ![f] = <<x>>]
VPointer(lv, k) == edit' = [edit EXCEPT !.pointers = Append(@, <<lv, k>>)]
VDelete(lv, x) == edit' = [edit EXCEPT !.deleted = Append(@, <<lv, x>>)]
VAdd(lv, x, s, a, b) == edit' = [edit EXCEPT !.added = Append(@, <<lv, x, s, a, b>>)]
\* compaction pointers stay
VClear == edit' = [Nothing EXCEPT !.pointers = edit.pointers]

Flat(s, F(_)) == FoldLeft(LAMBDA r, x : r \o F(x), <<>>, s)
Encoding(d) ==
    Flat(d.comparator, LAMBDA x : <<1>> \o Encode("lps", x))
    \o Flat(d.log, LAMBDA x : <<2>> \o Varint(x))
    \o Flat(d.prev, LAMBDA x : <<9>> \o Varint(x))
    \o Flat(d.next, LAMBDA x : <<3>> \o Varint(x))
    \o Flat(d.last, LAMBDA x : <<4>> \o Varint(x))
    \o Flat(d.pointers, LAMBDA x : <<5>> \o Varint(x[1]) \o Encode("lps", x[2]))
    \o Flat(d.deleted, LAMBDA x : <<6>> \o Varint(x[1]) \o Varint(x[2]))
    \o Flat(d.added, LAMBDA x : <<7>> \o Varint(x[1]) \o Varint(x[2]) \o Varint(x[3]) \o Encode("lps", x[4]) \o Encode("lps", x[5]))
VEncode(r) == r = Encoding(edit) /\ UNCHANGED edit

\* LevelDB's reading of an encoding
RECURSIVE Decoding(_, _, _)
Decoding(b, at, d) ==
    IF at = Len(b) THEN d
    ELSE LET tag == b[at + 1]
             one == Decode("v64", b, at + 1, 0)
             str == Decode("lps", b, at + 1, 0)
             lv == Decode("v32", b, at + 1, 0)
             num == Decode("v64", b, lv.off, 0)
             size == Decode("v64", b, num.off, 0)
             from == Decode("lps", b, size.off, 0)
             to == Decode("lps", b, from.off, 0)
             key == Decode("lps", b, lv.off, 0)
         IN  CASE tag = 1 -> Decoding(b, str.off, [d EXCEPT !.comparator = <<str.v>>])
               [] tag = 2 -> Decoding(b, one.off, [d EXCEPT !.log = <<one.v>>])
               [] tag = 9 -> Decoding(b, one.off, [d EXCEPT !.prev = <<one.v>>])
               [] tag = 3 -> Decoding(b, one.off, [d EXCEPT !.next = <<one.v>>])
               [] tag = 4 -> Decoding(b, one.off, [d EXCEPT !.last = <<one.v>>])
               [] tag = 5 -> Decoding(b, key.off, [d EXCEPT !.pointers = Append(@, <<lv.v, key.v>>)])
               [] tag = 6 -> Decoding(b, num.off, [d EXCEPT !.deleted = Append(@, <<lv.v, num.v>>)])
               [] tag = 7 -> Decoding(b, to.off, [d EXCEPT !.added = Append(@, <<lv.v, num.v, size.v, from.v, to.v>>)])
=============================================================================
