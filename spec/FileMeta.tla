------------------------------ MODULE FileMeta ------------------------------
(* What is known of the table files of a version (src/db/file_meta_data.rs). *)
EXTENDS Integers, Sequences
VARIABLE files      \* [refs, seeks, number, size, from, to]

Seeks0 == 1073741824
Zero == [i \in 1 .. 8 |-> 0]
Plain == [refs |-> 0, seeks |-> Seeks0, number |-> Zero, size |-> Zero, from |-> <<>>, to |-> <<>>]
\* what each constructor takes from its arguments, all else as in Plain
Made(how, a) ==
    CASE how = "default" -> Plain
      [] how = "refs" -> [Plain EXCEPT !.refs = a.refs]
      [] how = "seeks" -> [Plain EXCEPT !.refs = a.refs, !.seeks = a.seeks]
      [] how = "size" -> [Plain EXCEPT !.refs = a.refs, !.seeks = a.seeks, !.size = a.size]
      [] how = "keys" -> [a EXCEPT !.number = Zero]
      [] how = "number" -> [a EXCEPT !.refs = 0, !.seeks = Seeks0]
      [] how = "all" -> a
DMake(how, a) == files' = Append(files, Made(how, a))
DShow(i, r) ==
    /\ LET f == files[i] IN r = <<f.refs, f.number, f.size, f.from, f.to, Len(f.from), Len(f.to)>>
    /\ UNCHANGED files
DSize(i, x) == files' = [files EXCEPT ![i].size = x]
DRefs(i, n) == files' = [files EXCEPT ![i].refs = @ + n]
\* equal iff all they hold is equal
DEq(i, j, r) == r = (IF files[i] = files[j] THEN <<1, 1, 0>> ELSE <<0, 0, 1>>) /\ UNCHANGED files
=============================================================================
