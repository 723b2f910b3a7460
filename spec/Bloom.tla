------------------------------- MODULE Bloom -------------------------------
(* LevelDB's Bloom filter (src/util/filter_policy_bloom.rs). *)
EXTENDS Hash, FiniteSets
LOCAL INSTANCE SequencesExt

\* the number of probes: 0.69 n, rounded, from 1 to 30
Probes(bpk) == IF bpk >= 44 THEN 30 ELSE LET k == (69 * bpk + 50) \div 100 IN IF k < 1 THEN 1 ELSE k
\* bytes of the bit array for n keys
Bytes(bpk, n) == LET bits == n * bpk IN ((IF bits < 64 THEN 64 ELSE bits) + 7) \div 8

Positions(key, k, bits) ==
    LET h == Hash(key, DefaultSeed)
        d == Rotr(h, 17)
        hs == FoldLeft(LAMBDA s, i : Append(s, Add(s[i], d)), <<h>>, [i \in 1 .. k - 1 |-> i])
    IN  {Mod(hs[i], bits) : i \in 1 .. k}
Filter(bpk, n, keys) ==
    LET m == Bytes(bpk, n)
        k == Probes(bpk)
        set == UNION {Positions(keys[i], k, 8 * m) : i \in DOMAIN keys}
        byte(i) == LET b(j) == IF 8 * i + j \in set THEN 1 ELSE 0 IN
                   b(0) + 2 * b(1) + 4 * b(2) + 8 * b(3) + 16 * b(4) + 32 * b(5) + 64 * b(6) + 128 * b(7)
    IN  [i \in 1 .. m + 1 |-> IF i <= m THEN byte(i - 1) ELSE k]
\* `f` may be any bytes
MayMatch(key, f) ==
    LET m == Len(f) - 1 IN
    IF m < 1 THEN FALSE
    ELSE IF f[m + 1] > 30 THEN TRUE
    ELSE f[m + 1] = 0 \/ \A p \in Positions(key, f[m + 1], 8 * m) : (f[(p \div 8) + 1] \div Two(p % 8)) % 2 = 1
=============================================================================
