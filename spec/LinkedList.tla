----------------------------- MODULE LinkedList -----------------------------
(***************************************************************************)
(* The doubly linked list (src/util/linked_list.rs) node by node.  What it *)
(* is for its users is Elements.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
VARIABLES nodes,            \* sequence of [val, prev, next]; nodes are never freed; 0: none
          head, tail, length
lvars == <<nodes, head, tail, length>>

LInit == nodes = <<>> /\ head = 0 /\ tail = 0 /\ length = 0

\* the node at a position (from 0): from the nearer end, as the code walks
Walk(from, k, forward) == FoldLeft(LAMBDA p, j : IF forward THEN nodes[p].next ELSE nodes[p].prev, from, [j \in 1 .. k |-> j])
NodeAt(i) == IF i <= length - i - 1 THEN Walk(head, i, TRUE) ELSE Walk(tail, length - i - 1, FALSE)
Elements == [i \in 1 .. length |-> nodes[NodeAt(i - 1)].val]

New == Len(nodes) + 1
LAddFirst(x) ==
    /\ nodes' = [i \in 1 .. New |-> IF i = New THEN [val |-> x, prev |-> 0, next |-> head] ELSE IF i = head THEN [nodes[i] EXCEPT !.prev = New] ELSE nodes[i]]
    /\ tail' = IF head = 0 THEN New ELSE tail
    /\ head' = New /\ length' = length + 1
LAddLast(x) ==
    /\ nodes' = [i \in 1 .. New |-> IF i = New THEN [val |-> x, prev |-> tail, next |-> 0] ELSE IF i = tail THEN [nodes[i] EXCEPT !.next = New] ELSE nodes[i]]
    /\ head' = IF tail = 0 THEN New ELSE head
    /\ tail' = New /\ length' = length + 1
\* refused (-1) beyond the end
LAddAt(p, x, r) ==
    IF p > length THEN r = -1 /\ UNCHANGED <<nodes, head, tail, length>>
    ELSE /\ r = 1
         /\ IF p = 0 THEN LAddFirst(x) ELSE IF p = length THEN LAddLast(x)
            ELSE LET b == NodeAt(p - 1)
                     a == nodes[b].next
                 IN  /\ nodes' = [i \in 1 .. New |-> IF i = New THEN [val |-> x, prev |-> b, next |-> a] ELSE IF i = b THEN [nodes[i] EXCEPT !.next = New]
                                                     ELSE IF i = a THEN [nodes[i] EXCEPT !.prev = New] ELSE nodes[i]]
                     /\ length' = length + 1 /\ UNCHANGED <<head, tail>>
LGet(p, r) == r = (IF p < length THEN nodes[NodeAt(p)].val ELSE -1) /\ UNCHANGED <<nodes, head, tail, length>>
\* gives the old element and puts another one in its place
LSet(p, x, r) ==
    IF p >= length THEN r = -1 /\ UNCHANGED <<nodes, head, tail, length>>
    ELSE r = nodes[NodeAt(p)].val /\ nodes' = [nodes EXCEPT ![NodeAt(p)].val = x] /\ UNCHANGED <<head, tail, length>>
=============================================================================
