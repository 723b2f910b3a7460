------------------------------ MODULE CodingMC ------------------------------
(* Coding.tla on every sequence of a few items, and on every damaged or short input of a few bytes. *)
EXTENDS Coding, FiniteSets, TLC
CONSTANTS MaxItems, MaxInput
VARIABLES items, input
vars == <<items, input>>

B(n, k) == [i \in 1 .. k |-> IF i = (n \div 8) + 1 THEN Pow2[(n % 8) + 1] ELSE 0]     \* 2^n in k bytes
M1(n, k) == [i \in 1 .. k |-> IF 8 * i <= n THEN 255 ELSE IF 8 * (i - 1) >= n THEN 0 ELSE Pow2[(n % 8) + 1] - 1]  \* 2^n - 1
Numbers(k) == {B(n, k) : n \in 0 .. 8 * k - 1} \cup {M1(n, k) : n \in 0 .. 8 * k - 1} \cup {[i \in 1 .. k |-> 255], [i \in 1 .. k |-> i * 37 % 256]}
Few(k) == {B(0, k), M1(7, k), B(7, k), [i \in 1 .. k |-> 255]}
Bufs == {<<>>, <<0>>, <<128, 1>>}
Items ==
    {[o |-> o, x |-> x] : o \in {"f32", "v32"}, x \in Few(4)} \cup {[o |-> o, x |-> x] : o \in {"f64", "v64"}, x \in Few(8)}
    \cup {[o |-> o, x |-> x] : o \in {"buf", "lps"}, x \in Bufs}
Single == {[o |-> o, x |-> x] : o \in {"f32", "v32"}, x \in Numbers(4)} \cup {[o |-> o, x |-> x] : o \in {"f64", "v64"}, x \in Numbers(8)}
    \cup {[o |-> "lps", x |-> [i \in 1 .. n |-> i % 256]] : n \in {0, 1, 127, 128, 129, 300}}

Init == items \in ({<<>>} \cup {<<x>> : x \in Single}) /\ input \in UNION {[1 .. n -> {0, 1, 2, 127, 128, 129, 255}] : n \in 0 .. MaxInput} /\ (items = <<>> \/ input = <<>>)
Next == /\ input = <<>> /\ Len(items) < MaxItems
        /\ \E x \in Items : items' = Append(items, x)
        /\ UNCHANGED input
Spec == Init /\ [][Next]_vars

RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE Encode(s[1].o, s[1].x) \o All(Tail(s))
RECURSIVE ReadBack(_, _, _)
ReadBack(s, data, off) ==
    IF s = <<>> THEN off = Len(data)
    ELSE LET r == Decode(s[1].o, data, off, Len(s[1].x)) IN r.ok /\ r.v = s[1].x /\ ReadBack(Tail(s), data, r.off)
\* C14
RoundTrip == ReadBack(items, All(items), 0)
ShortestVarint ==
    \A i \in DOMAIN items : items[i].o \in {"v32", "v64"} =>
        LET e == Varint(items[i].x) IN
        /\ Len(e) = VarintLen(items[i].x)
        /\ e[Len(e)] < 128 /\ \A j \in 1 .. Len(e) - 1 : e[j] >= 128
        /\ Len(e) > 1 => e[Len(e)] # 0
\* C15: a cut-off number is refused; nothing is read beyond the input
CutIsRefused ==
    Len(items) = 1 => LET e == All(items)  o == items[1].o IN
        \A n \in 0 .. Len(e) - 1 : o # "buf" => ~Decode(o, SubSeq(e, 1, n), 0, Len(items[1].x)).ok
Within ==
    \A o \in {"f32", "f64", "v32", "v64", "lps"} : \A off \in 0 .. Len(input) :
        LET r == Decode(o, input, off, 0) IN
        /\ r.ok => r.off > off /\ r.off <= Len(input)
        \* what follows does not matter
        /\ r.ok => Decode(o, SubSeq(input, 1, r.off), off, 0) = r
        \* a read number is one that can be written, possibly in fewer bytes
        /\ (r.ok /\ o \in {"v32", "v64"}) => Len(Varint(r.v)) <= r.off - off
=============================================================================
