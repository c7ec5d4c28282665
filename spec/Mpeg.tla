------------------------------- MODULE Mpeg -------------------------------
(* MPEG audio, layer III: frame headers, the frames they begin, and the       *)
(* headers of variable bit rate streams.  A writer lays frames out one after  *)
(* the other; a reader that sees nothing but header bytes and offsets walks   *)
(* them.  What the walk adds up is the duration of the stream.                *)
EXTENDS Bytes, Integers

\* ------------------------------------------------------------------ headers
\* v: 0 is MPEG 2.5, 2 is MPEG 2, 3 is MPEG 1 (1 is reserved)
\* layer: 1 is layer III; crc: protected; br, sr: indices; mode: 3 is mono
Frames(V, L, BR, SR) ==
  [v : V, layer : L, crc : BOOLEAN, br : BR, sr : SR, pad : {0, 1}, priv : {0}, mode : 0..3, low : {0}]

HeaderBytes(f) ==
  << 255,
     224 + 8 * f.v + 2 * f.layer + (IF f.crc THEN 0 ELSE 1),
     16 * f.br + 4 * f.sr + 2 * f.pad + f.priv,
     64 * f.mode + f.low >>

ParseHeader(b) ==
  [v |-> (b[2] \div 8) % 4, layer |-> (b[2] \div 2) % 4, crc |-> b[2] % 2 = 0,
   br |-> b[3] \div 16, sr |-> (b[3] \div 4) % 4, pad |-> (b[3] \div 2) % 2, priv |-> b[3] % 2,
   mode |-> b[4] \div 64, low |-> b[4] % 64]

Synced(b) == b[1] = 255 /\ b[2] >= 224
Good(f) == f.v # 1 /\ f.layer = 1 /\ f.br \in 1..14 /\ f.sr \in 0..2

Kbps1 == << 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 >>
Kbps2 == << 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 >>
Hz1   == << 44100, 48000, 32000 >>

Rate(f)    == Hz1[f.sr + 1] \div (CASE f.v = 3 -> 1 [] f.v = 2 -> 2 [] f.v = 0 -> 4)
Samples(f) == IF f.v = 3 THEN 1152 ELSE 576
Kbps(f)    == IF f.v = 3 THEN Kbps1[f.br] ELSE Kbps2[f.br]
FrameSize(f) == (Samples(f) * Kbps(f) * 125) \div Rate(f) + f.pad
SideInfo(f) == IF f.v = 3 THEN (IF f.mode = 3 THEN 17 ELSE 32) ELSE (IF f.mode = 3 THEN 9 ELSE 17)

\* --------------------------------------------------- variable bit rate headers
\* kind: "none", "Xing", "Info", "late" (Xing in a frame that claims a checksum
\* it doesn't have), "VBRI"
NoVbr == [kind |-> "none", n |-> 0, flags |-> 0, lame |-> FALSE, toc |-> 0, tocsize |-> 0]
IsXing(x) == x.kind \in {"Xing", "Info", "late"}
VbrOffset(f, x) ==
  IF x.kind = "VBRI" THEN 36
  ELSE 4 + (IF f.crc /\ x.kind # "late" THEN 2 ELSE 0) + SideInfo(f)
HasFlag(x, k) == (x.flags \div k) % 2 = 1
VbrSize(x) ==
  CASE x.kind = "none" -> 0
    [] x.kind = "VBRI" -> 26 + x.toc * x.tocsize
    [] OTHER -> 8 + (IF HasFlag(x, 1) THEN 4 ELSE 0) + (IF HasFlag(x, 2) THEN 4 ELSE 0)
                  + (IF HasFlag(x, 4) THEN 100 ELSE 0) + (IF HasFlag(x, 8) THEN 4 ELSE 0)
                  + (IF x.lame THEN 36 ELSE 4)
Fits(f, x) == x.kind = "none" \/ VbrOffset(f, x) + VbrSize(x) <= FrameSize(f)
Announces(x) == x.kind = "VBRI" \/ (IsXing(x) /\ HasFlag(x, 1))

\* ---------------------------------------------------------------- the stream
VARIABLES
  stage,    \* "new", "built", "walk", "done"
  stream,   \* [lead, frames, vbr, tail]
  pos,      \* where the reader is, from the start of the first frame
  tally     \* what it has added up: a sequence of [n, d, k]: k frames of n/d seconds
vars == << stage, stream, pos, tally >>

\* the frames the writer laid out, and where each of them begins
RECURSIVE OffsetOf(_, _)
OffsetOf(fs, i) == IF i = 1 THEN 0 ELSE OffsetOf(fs, i - 1) + FrameSize(fs[i - 1])
Extent(fs) == IF fs = <<>> THEN 0 ELSE OffsetOf(fs, Len(fs)) + FrameSize(fs[Len(fs)])
\* the four bytes at p: a header if a frame begins there, those of the tail if
\* the frames end there, and nothing that resembles either otherwise
At(s, p) ==
  IF \E i \in 1..Len(s.frames) : OffsetOf(s.frames, i) = p
  THEN HeaderBytes(s.frames[CHOOSE i \in 1..Len(s.frames) : OffsetOf(s.frames, i) = p])
  ELSE << 0, 0, 0, 0 >>

Add(t, f) ==
  LET same(i) == t[i].n = Samples(f) /\ t[i].d = Rate(f) IN
  IF \E i \in 1..Len(t) : same(i)
  THEN [t EXCEPT ![CHOOSE i \in 1..Len(t) : same(i)].k = @ + 1]
  ELSE Append(t, [n |-> Samples(f), d |-> Rate(f), k |-> 1])
SumOf(fs) == Fold(Add, <<>>, fs)

Start == stage = "built" /\ stage' = "walk" /\ pos' = 0 /\ tally' = <<>> /\ UNCHANGED stream
Step ==
  /\ stage = "walk"
  /\ LET b == At(stream, pos)
         f == ParseHeader(b) IN
     IF Synced(b) /\ Good(f)
     THEN pos' = pos + FrameSize(f) /\ tally' = Add(tally, f) /\ stage' = "walk"
     ELSE stage' = "done" /\ UNCHANGED << pos, tally >>
  /\ UNCHANGED stream
Walk == Start \/ Step

\* ------------------------------------------------------------------ contract
\* What may be reported: tallies, or that the duration is unknown.
\* tail: "none", "id3v1", "zeros", "text": end of the frames
\*       "part": a frame cut short (that may count, or not)
\*       "bad": something that begins like a frame, but isn't
\* lead: bytes before the first frame; not well-formed, strictly speaking
Announced(s) == << [n |-> Samples(s.frames[1]), d |-> Rate(s.frames[1]), k |-> s.vbr.n] >>
\* a reader may take the frame after those of the stream for one of them
PartFrame == [v |-> 3, layer |-> 1, crc |-> FALSE, br |-> 9, sr |-> 0, pad |-> 0, priv |-> 0, mode |-> 0, low |-> 0]
Allowed(s) ==
  IF s.frames # <<>> /\ Good(s.frames[1]) /\ Announces(s.vbr) THEN { Announced(s) }
  ELSE IF \E i \in 1..Len(s.frames) : ~Good(s.frames[i]) THEN {}
  ELSE LET all == SumOf(s.frames)
           but == IF IsXing(s.vbr) THEN { SumOf(Tail(s.frames)) } ELSE {}
           more == IF s.tail = "part" THEN { SumOf(Append(s.frames, PartFrame)) } ELSE {} IN
       { all } \cup but \cup more
MayBeUnknown(s) ==
  \/ \E i \in 1..Len(s.frames) : ~Good(s.frames[i])
  \/ s.frames = <<>>
  \/ (s.tail = "bad" /\ ~Announces(s.vbr))
  \/ s.lead > 0

\* the walk finds just the frames laid out
WalkFinds ==
  stage = "done" =>
    IF \A i \in 1..Len(stream.frames) : Good(stream.frames[i])
    THEN tally = SumOf(stream.frames) /\ pos = Extent(stream.frames)
    ELSE TRUE
HeadersParse == \A i \in 1..Len(stream.frames) : ParseHeader(HeaderBytes(stream.frames[i])) = stream.frames[i]
\* no two kinds of header look alike
SizesPositive == \A i \in 1..Len(stream.frames) :
                   Good(stream.frames[i]) => FrameSize(stream.frames[i]) >= 24

Init == stage = "new" /\ stream = [lead |-> 0, frames |-> <<>>, vbr |-> NoVbr, tail |-> "none"] /\ pos = 0 /\ tally = <<>>
Build(s) == stage = "new" /\ stream' = s /\ stage' = "built" /\ UNCHANGED << pos, tally >>

\* every header there is, good or bad
Every == { f \in Frames(0..3, 0..3, 0..15, 0..3) :
             Good(f) \/ (f.mode = 0 /\ ~f.crc /\ f.pad = 0) }
HeaderNext ==
  \/ /\ stage = "new"
     /\ \E f \in Every :
          Build([lead |-> 0, frames |-> << f, f, f >>, vbr |-> NoVbr,
                 tail |-> IF f.pad = 1 THEN "none" ELSE "id3v1"])
  \/ Walk
HeaderSpec == Init /\ [][HeaderNext]_vars

\* every variable bit rate header in every kind of frame
Vbrs == [kind : {"Xing", "Info", "late"}, n : {0, 7, 65537}, flags : 0..15, lame : BOOLEAN, toc : {0}, tocsize : {0}]
        \cup [kind : {"VBRI"}, n : {0, 7, 65537, 2000000000}, flags : {0}, lame : {FALSE},
              toc : {0, 1, 31, 100}, tocsize : {1, 2, 4}]
VbrNext ==
  \/ /\ stage = "new"
     /\ \E x \in Vbrs, v \in {0, 2, 3}, m \in {1, 3}, crc \in BOOLEAN, k \in {1, 3} :
          LET f == [v |-> v, layer |-> 1, crc |-> crc, br |-> 14, sr |-> 0, pad |-> 0, priv |-> 0, mode |-> m, low |-> 0]
              g == [f EXCEPT !.br = 6, !.crc = FALSE] IN
          /\ Fits(f, x)
          /\ x.kind = "late" => crc
          /\ x.kind = "VBRI" => ~crc
          /\ Build([lead |-> 0, frames |-> << f >> \o Rep(g, k - 1), vbr |-> x, tail |-> "none"])
  \/ Walk
VbrSpec == Init /\ [][VbrNext]_vars

\* anything
Pick(h, S) == RandomElement(S)
RandFrame(h, v, sr) ==
  [v |-> v, layer |-> 1, crc |-> Pick(h, 1..4) = 1, br |-> Pick(h, 1..14), sr |-> sr, pad |-> Pick(h, 0..1),
   priv |-> Pick(h, 0..1), mode |-> Pick(h, 0..3), low |-> Pick(h, 0..63)]
RandFrames(h) ==
  LET v == Pick(h, {0, 2, 3})
      sr == Pick(h, 0..2)
      mixed == Pick(h, 1..4) = 1
      bad == Pick(h, 1..8) = 1
      n == Pick(h, {0, 1, 2, 3, 5, 8, 13, 40})
      fs == [ i \in 1..n |-> IF mixed THEN RandFrame(i, Pick(i, {0, 2, 3}), Pick(i, 0..2)) ELSE RandFrame(i, v, sr) ]
      j == IF n = 0 THEN 0 ELSE Pick(h, 1..n) IN
  IF bad /\ n > 0
  THEN [fs EXCEPT ![j] = Pick(h, { [@ EXCEPT !.v = 1], [@ EXCEPT !.layer = 2], [@ EXCEPT !.layer = 3],
                                   [@ EXCEPT !.layer = 0], [@ EXCEPT !.br = 0], [@ EXCEPT !.br = 15], [@ EXCEPT !.sr = 3] })]
  ELSE fs
RandVbr(h) ==
  CASE Pick(h, 1..3) = 1 ->
         [kind |-> Pick(h, {"Xing", "Info", "late"}), n |-> Pick(h, {0, 1, 2, 255, 256, 12379, 16777217}),
          flags |-> Pick(h, 0..15), lame |-> Pick(h, BOOLEAN), toc |-> 0, tocsize |-> 0]
    [] Pick(h, 1..3) = 1 ->
         [kind |-> "VBRI", n |-> Pick(h, {0, 1, 2, 255, 256, 12379, 16777217}), flags |-> 0, lame |-> FALSE,
          toc |-> Pick(h, {0, 1, 3, 255, 256}), tocsize |-> Pick(h, {1, 2, 3, 4})]
    [] OTHER -> NoVbr
RandNext ==
  \/ /\ stage = "new"
     /\ \E fs \in { RandFrames(stage) }, x \in { RandVbr(stage) }, t \in { Pick(stage, {"none", "id3v1", "zeros", "text", "part", "bad"}) },
           l \in { Pick(stage, {0, 0, 0, 0, 1, 2, 3, 4, 5, 7, 100, 1001}) } :
          LET ok == fs # <<>> /\ Good(fs[1]) /\ Fits(fs[1], x) /\ (x.kind = "late" => fs[1].crc) /\ (x.kind = "VBRI" => ~fs[1].crc) IN
          Build([lead |-> l, frames |-> fs, vbr |-> IF ok THEN x ELSE NoVbr, tail |-> t])
  \/ Walk
RandSpec == Init /\ [][RandNext]_vars

Out == stage = "done" =>
         Emit([stream |-> [stream EXCEPT !.frames = [i \in 1..Len(@) |->
                                 [hdr |-> HeaderBytes(@[i]), size |-> IF Good(@[i]) THEN FrameSize(@[i]) ELSE 104,
                                  good |-> Good(@[i])]]],
               at |-> IF stream.vbr.kind = "none" THEN 0 ELSE VbrOffset(stream.frames[1], stream.vbr),
               allowed |-> Allowed(stream), unknown |-> MayBeUnknown(stream)])
=============================================================================
