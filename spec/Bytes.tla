------------------------------- MODULE Bytes -------------------------------
(* Byte strings: sequences over 0..255, fixed-width and sync-safe integers,   *)
(* and the ID3v2 unsynchronisation scheme.                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
LOCAL SE == INSTANCE SequencesExt

Byte == 0..255

Rep(x, n)  == [i \in 1..n |-> x]
Zeros(n)   == Rep(0, n)
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Last(s)    == s[Len(s)]
Min(a, b)  == IF a < b THEN a ELSE b
Max(a, b)  == IF a > b THEN a ELSE b

\* cut or zero-pad to exactly n bytes
Fit(s, n)  == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

Fold(op(_, _), base, s) == SE!FoldLeft(op, base, s)
Concat(ss) == Fold(LAMBDA a, b : a \o b, <<>>, ss)
SumSeq(s)  == Fold(LAMBDA a, b : a + b, 0, s)

\* big-endian integers
BE3(n) == << (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
BE4(n) == << (n \div 16777216) % 256 >> \o BE3(n)
FromBE(s) == LET RECURSIVE F(_, _)
                 F(acc, r) == IF r = <<>> THEN acc ELSE F(acc * 256 + Head(r), Tail(r))
             IN F(0, s)

\* sync-safe integers: seven bits per byte
SS4(n) == << (n \div 2097152) % 128, (n \div 16384) % 128, (n \div 128) % 128, n % 128 >>
FromSS(s) == LET RECURSIVE F(_, _)
                 F(acc, r) == IF r = <<>> THEN acc ELSE F(acc * 128 + (Head(r) % 128), Tail(r))
             IN F(0, s)
IsSS(s) == \A i \in 1..Len(s) : s[i] < 128

\* A false sync: 0xff followed by a byte whose upper three bits are set.
FalseSync(a, b) == a = 255 /\ b >= 224
\* What unsynchronisation has to break up: false syncs, and 0xff 0x00, which
\* would otherwise be mistaken for an inserted zero.
MustBreak(a, b) == a = 255 /\ (b >= 224 \/ b = 0)

HasFalseSync(s) == \E i \in 1..(Len(s) - 1) : FalseSync(s[i], s[i + 1])
NeedsUnsync(s)  == \E i \in 1..(Len(s) - 1) : MustBreak(s[i], s[i + 1])

\* last: nothing but the end of the tag follows, so a trailing 0xff is protected too
Unsync(s, last) ==
  Concat([ i \in 1..Len(s) |->
    IF s[i] # 255 THEN << s[i] >>
    ELSE IF i = Len(s) THEN (IF last THEN << 255, 0 >> ELSE << 255 >>)
         ELSE IF MustBreak(s[i], s[i + 1]) THEN << 255, 0 >> ELSE << 255 >> ])

\* every 0xff 0x00 becomes 0xff
Resync(s) ==
  Concat([ i \in 1..Len(s) |->
    IF i > 1 /\ s[i] = 0 /\ s[i - 1] = 255 THEN <<>> ELSE << s[i] >> ])

\* all strings over S of length at most n
UpTo(S, n) == UNION { [1..k -> S] : k \in 0..n }

Emit(h) == PrintT("@@" \o ToJson(h))
=============================================================================
