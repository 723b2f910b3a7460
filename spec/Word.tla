-------------------------------- MODULE Word --------------------------------
(* 32-bit words as <<high 16 bits, low 16 bits>>: TLC's integers are too small for them. *)
EXTENDS Integers, Sequences, Bitwise

H == 65536
Word(n) == <<n \div H, n % H>>              \* of a number below 2^31
Add(x, y) == LET lo == x[2] + y[2] IN <<(x[1] + y[1] + (lo \div H)) % H, lo % H>>
XorW(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
\* x * y mod 2^16 of two numbers below 2^16
MulLow(x, y) == (x * (y % 256) + ((x * (y \div 256)) % 256) * 256) % H
Mul(x, y) ==
    LET p == x[2] * (y[2] % 256)
        q == x[2] * (y[2] \div 256)
        lo == p + (q % 256) * 256
        hi == (lo \div H) + (q \div 256)
    IN  <<(hi + MulLow(x[1], y[2]) + MulLow(x[2], y[1])) % H, lo % H>>
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
\* shifts by n bits
Shr(x, n) == IF n >= 16 THEN <<0, x[1] \div Two(n - 16)>> ELSE LET d == Two(n) IN <<x[1] \div d, (x[2] \div d) + (x[1] % d) * (H \div d)>>
Shl(x, n) == IF n >= 16 THEN <<(x[2] % Two(32 - n)) * Two(n - 16), 0>>
             ELSE LET d == Two(n) IN <<(x[1] % (H \div d)) * d + (x[2] \div (H \div d)), (x[2] % (H \div d)) * d>>
Rotr(x, n) == XorW(Shr(x, n), Shl(x, 32 - n))
\* x - y
Sub(x, y) == LET lo == x[2] - y[2] IN <<(x[1] - y[1] - (IF lo < 0 THEN 1 ELSE 0) + 2 * H) % H, (lo + H) % H>>
\* x mod n, n below 2^22
Mod(x, n) == LET Step(r, b) == (r * 256 + b) % n IN Step(Step(Step(Step(0, x[1] \div 256), x[1] % 256), x[2] \div 256), x[2] % 256)
\* the word of four bytes, low byte first
OfBytes(b, i) == <<b[i + 2] + 256 * b[i + 3], b[i] + 256 * b[i + 1]>>
=============================================================================
