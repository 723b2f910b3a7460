-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size: limbs of four decimal digits, low first, none of them a leading zero. *)
EXTENDS Integers, Sequences

BASE == 10000
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o Big(n \div BASE)
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) ==
    IF i > Len(x) /\ i > Len(y) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == Limb(x, i) + Limb(y, i) + c IN <<s % BASE>> \o AddFrom(x, y, i + 1, s \div BASE)
BAdd(x, y) == AddFrom(x, y, 1, 0)

\* x - y, where x >= y
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, i, c) ==
    IF i > Len(x) THEN <<>>
    ELSE LET s == x[i] - Limb(y, i) - c IN <<(s + BASE) % BASE>> \o SubFrom(x, y, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(x, y) == Trim(SubFrom(x, y, 1, 0))

\* x times one limb
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(x, d, i, c) ==
    IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == x[i] * d + c IN <<s % BASE>> \o ScaleFrom(x, d, i + 1, s \div BASE)
RECURSIVE BMul(_, _)
BMul(x, y) == IF y = <<>> THEN <<>> ELSE BAdd(Trim(ScaleFrom(x, y[1], 1, 0)), LET r == BMul(x, Tail(y)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] = y[i] THEN CmpFrom(x, y, i - 1) ELSE IF x[i] < y[i] THEN -1 ELSE 1
BCmp(x, y) == IF Len(x) # Len(y) THEN IF Len(x) < Len(y) THEN -1 ELSE 1 ELSE CmpFrom(x, y, Len(x))
BLE(x, y) == BCmp(x, y) <= 0
\* |x - y| <= d
Near(x, y, d) == IF BLE(x, y) THEN BLE(BSub(y, x), d) ELSE BLE(BSub(x, y), d)
=============================================================================
