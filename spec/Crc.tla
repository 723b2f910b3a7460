-------------------------------- MODULE Crc --------------------------------
(* CRC32C and its masking (src/util/crc.rs). *)
EXTENDS Word
LOCAL INSTANCE SequencesExt

Ones == <<65535, 65535>>
CrcPoly == <<33526, 15224>>     \* 0x82f63b78
CrcTable == [n \in 0 .. 255 |-> FoldLeft(LAMBDA c, i : IF c[2] % 2 = 1 THEN XorW(Shr(c, 1), CrcPoly) ELSE Shr(c, 1), Word(n), [i \in 1 .. 8 |-> i])]
CrcByte(c, b) == XorW(CrcTable[(c[2] % 256) ^^ b], Shr(c, 8))
CrcExtend(c, b) == XorW(FoldLeft(CrcByte, XorW(c, Ones), b), Ones)
Crc(b) == CrcExtend(<<0, 0>>, b)
MaskDelta == <<41602, 60120>>    \* 0xa282ead8
Mask(c) == Add(Rotr(c, 15), MaskDelta)
Unmask(m) == LET r == Sub(m, MaskDelta) IN Rotr(r, 17)
=============================================================================
