------------------------------- MODULE Arena -------------------------------
(***************************************************************************)
(* The arena of src/util/arena.rs: it cuts regions off the front of a      *)
(* block; what does not fit goes to a new block, large requests to one of  *)
(* their own.  Addresses do not matter here, only which block a region is  *)
(* in and where: Blocks and Regions are kept to state what must hold.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT BS                 \* 4096; small in the model

\* the part of the state that decides what happens: has a current block, bytes left in it, total size of the blocks
Fresh == [has |-> FALSE, rem |-> 0, usage |-> 0]
Fits(a, n) == a.has /\ n <= a.rem
Own(a, n) == ~Fits(a, n) /\ n > BS \div 4          \* gets a block of its own
Alloc(a, n) ==
    IF Fits(a, n) THEN [a EXCEPT !.rem = @ - n]
    ELSE IF Own(a, n) THEN [a EXCEPT !.usage = @ + n]
    ELSE [has |-> TRUE, rem |-> BS - n, usage |-> a.usage + BS]
=============================================================================
