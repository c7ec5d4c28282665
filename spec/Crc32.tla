------------------------------- MODULE Crc32 -------------------------------
(* The CRC-32 of the extended headers (ISO 3309), as << high 16, low 16 >>.   *)
EXTENDS Naturals, Sequences, Bitwise
LOCAL SE == INSTANCE SequencesExt

CrcXor(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
CrcShr(a, n) == LET p == 2 ^ n IN
                   << a[1] \div p, (a[1] % p) * (65536 \div p) + a[2] \div p >>

RECURSIVE CrcEntry(_, _)
CrcEntry(a, k) ==
  IF k = 0 THEN a
  ELSE CrcEntry(IF a[2] % 2 = 1 THEN CrcXor(CrcShr(a, 1), << 60856, 33568 >>)  \* 0xEDB88320
             ELSE CrcShr(a, 1), k - 1)
CrcTable == [ i \in 0..255 |-> CrcEntry(<< 0, i >>, 8) ]

CrcStep(crc, b) == CrcXor(CrcTable[(crc[2] % 256) ^^ b], CrcShr(crc, 8))

Crc32(s) == CrcXor(SE!FoldLeft(CrcStep, << 65535, 65535 >>, s), << 65535, 65535 >>)

\* as four bytes, and as five sync-safe ones (ID3v2.4)
CrcBE(s) == LET c == Crc32(s) IN << c[1] \div 256, c[1] % 256, c[2] \div 256, c[2] % 256 >>
CrcSS(s) == LET c == Crc32(s) IN
            << c[1] \div 4096, (c[1] \div 32) % 128, (c[1] % 32) * 4 + c[2] \div 16384,
               (c[2] \div 128) % 128, c[2] % 128 >>
=============================================================================
