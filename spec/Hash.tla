-------------------------------- MODULE Hash --------------------------------
(* LevelDB's hash (src/util/hash.rs). *)
EXTENDS Word
LOCAL INSTANCE SequencesExt

HM == <<50852, 42899>>          \* 0xc6a4a793
DefaultSeed == <<48287, 7476>>   \* 0xbc9f1d34
Hash(b, seed) ==
    LET n == Len(b)
        Four(h, i) == LET x == Mul(Add(h, OfBytes(b, 4 * i - 3)), HM) IN XorW(x, Shr(x, 16))
        h == FoldLeft(Four, XorW(seed, Mul(Word(n), HM)), [i \in 1 .. n \div 4 |-> i])
        p == n - (n % 4)
        x3 == IF n % 4 = 3 THEN Add(h, <<b[p + 3], 0>>) ELSE h
        x2 == IF n % 4 >= 2 THEN Add(x3, <<0, b[p + 2] * 256>>) ELSE x3
        x1 == Mul(Add(x2, <<0, b[p + 1]>>), HM)
    IN  IF n % 4 = 0 THEN h ELSE XorW(x1, Shr(x1, 24))
=============================================================================
