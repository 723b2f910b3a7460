-------------------------------- MODULE Rand --------------------------------
(* The random generator (src/util/random.rs). *)
EXTENDS Word
VARIABLE seed

Top == <<32767, 65535>>     \* 2^31 - 1
Start(s) == IF s = <<0, 0>> \/ s = Top THEN <<0, 1>> ELSE s
Fold(p) == LET x == Add(<<p[1] % 32768, p[2]>>, <<0, p[1] \div 32768>>) IN IF x[1] >= 32768 THEN Sub(x, Top) ELSE x
Following(s) == Fold(Mul(s, <<0, 16807>>))
Nat31(x) == x[1] * H + x[2]
\* a draw below n
Draw(s, n) == Nat31(Following(s)) % n
=============================================================================
