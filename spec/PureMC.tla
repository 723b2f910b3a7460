------------------------------- MODULE PureMC -------------------------------
(* What must hold of the pure functions of the specification, on every input of a few bytes, and published values. *)
EXTENDS Bloom, TLC
CONSTANTS What, MaxLen
C == INSTANCE Crc
O == INSTANCE KeyOrder
VARIABLES a, b, c

Alphabet == CASE What = "order" -> {0, 1, 2, 127, 128, 254, 255} [] OTHER -> {0, 1, 128, 255}
Strings(n) == UNION {[1 .. k -> Alphabet] : k \in 0 .. n}
Halves == {0, 1, 2, 127, 255, 256, 32767, 32768, 60120, 41602, 65535}
Words == {<<x, y>> : x, y \in Halves}
Init ==
    CASE What = "order" -> a \in Strings(MaxLen) /\ b \in Strings(MaxLen) /\ c = <<>>
      [] What = "trans" -> a \in Strings(MaxLen) /\ b \in Strings(MaxLen) /\ c \in Strings(MaxLen)
      [] What = "word" -> a \in Words /\ b \in Words /\ c = <<>>
      [] What = "crc" -> a \in Strings(MaxLen) /\ b \in Strings(MaxLen) /\ c \in Words /\ c[1] = c[2]
      [] What = "bloom" -> a \in [1 .. MaxLen -> Strings(2)] /\ b \in {0, 1, 2, 10, 44, 100} /\ c = <<>>
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>

LE(x, y) == O!Compare(x, y) <= 0
\* C19
Order == What = "order" =>
    /\ O!Compare(a, b) = -O!Compare(b, a)
    /\ (O!Compare(a, b) = 0) = (a = b)
    /\ O!HasPrefix(b, a) => LE(a, b)
Transitive == What = "trans" => (LE(a, b) /\ LE(b, c) => LE(a, c))
\* C20
Shortened == What = "order" =>
    LET s == O!Separator(a, b)  u == O!Successor(a) IN
    /\ O!Compare(a, b) < 0 => LE(a, s) /\ O!Compare(s, b) < 0
    /\ Len(s) <= Len(a) /\ LE(a, u) /\ Len(u) <= Len(a)
    /\ ~(O!Compare(a, b) < 0) => s = a
\* the arithmetic
Words32 == What = "word" =>
    /\ Add(a, b) = Add(b, a) /\ Mul(a, b) = Mul(b, a)
    /\ Sub(Add(a, b), b) = a
    /\ Mul(a, <<0, 3>>) = Add(a, Add(a, a))
    /\ \A n \in 1 .. 31 : Rotr(Rotr(a, n), 32 - n) = a /\ Shl(a, n) = Mul(a, IF n >= 16 THEN <<Two(n - 16), 0>> ELSE <<0, Two(n)>>)
    /\ C!Unmask(C!Mask(a)) = a /\ C!Mask(C!Unmask(a)) = a
\* C18
Extends == What = "crc" => C!CrcExtend(C!CrcExtend(c, a), b) = C!CrcExtend(c, a \o b)
\* C16
NoFalseNegative == What = "bloom" =>
    LET f == Filter(b, Len(a), a) IN
    /\ \A i \in DOMAIN a : MayMatch(a[i], f)
    /\ Len(f) = Bytes(b, Len(a)) + 1 /\ f[Len(f)] = Probes(b) /\ Probes(b) \in 1 .. 30

ASSUME Published ==
    /\ C!Crc([i \in 1 .. 32 |-> 0]) = <<35473, 13994>>          \* 8a9136aa
    /\ C!Crc([i \in 1 .. 32 |-> 255]) = <<25256, 43843>>        \* 62a8ab43
    /\ C!Crc([i \in 1 .. 32 |-> i - 1]) = <<18141, 31054>>      \* 46dd794e
    /\ C!Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<58118, 37507>>     \* e3069283
    /\ Hash(<<>>, DefaultSeed) = <<48287, 7476>>
    /\ Hash(<<98>>, DefaultSeed) = <<61203, 17860>>             \* ef1345c4
    /\ Hash(<<195, 151>>, DefaultSeed) = <<23398, 14356>>       \* 5b663814
    /\ Hash(<<226, 153, 165>>, DefaultSeed) = <<12860, 1935>>   \* 323c078f
    /\ Hash(<<225, 128, 185, 50>>, DefaultSeed) = <<60705, 25402>>     \* ed21633a
=============================================================================
