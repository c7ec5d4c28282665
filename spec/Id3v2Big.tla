------------------------------ MODULE Id3v2Big ------------------------------
(* Tags with large payloads, whose sizes exercise every byte of the size      *)
(* fields.  A payload is a few explicit bytes followed by a run of 0x41; a    *)
(* byte string is given in parts [ b, n ], the bytes b and then n times 0x41; *)
(* the padding follows the last part.                                         *)
EXTENDS Id3v2

CONSTANTS Vers, Lens, Pads

VARIABLES tag, head, done   \* tag.frames: the numbers of 0x41 per frame
vars == << tag, head, done >>

Max2 == 268435455
F(ver) == Frame(IF ver = 2 THEN "QQQ" ELSE "QQQQ", <<>>)

Init == /\ done = FALSE
        /\ \E v \in Vers, p \in Pads, x \in 0..1, n \in Lens, h \in { <<>>, << 255, 224, 255, 0 >> } :
             /\ v # 3 => x = 0
             /\ tag = [ NewTag(v) EXCEPT !.pad = p, !.ext = x = 1, !.frames = << n >> ]
             /\ head = h
             /\ (n = 0 => h # <<>>)
             /\ (v = 2 => n + Len(h) < 16777216)
Next == /\ ~done
        /\ \/ done' = TRUE /\ UNCHANGED tag
           \/ /\ Len(tag.frames) = 1 /\ done' = TRUE
              /\ tag' = [ tag EXCEPT !.frames = << 1, @[1] >> ]
        /\ UNCHANGED head
Spec == Init /\ [][Next]_vars

HeadOf(n, u) ==
  LET f == F(tag.ver) IN
  CASE tag.ver = 2 -> Head22(f, n) [] tag.ver = 3 -> Head23(f, n) [] tag.ver = 4 -> Head24(f, n, u)

Part(b, n) == [ b |-> b, n |-> n ]
FrameParts(n, u) ==
  LET d == IF u /\ tag.ver = 4 THEN Unsync(head, n = 0) ELSE head
  IN Part(HeadOf(Len(d) + n, u) \o d, n)
Parts(u) == [ i \in 1..Len(tag.frames) |-> FrameParts(tag.frames[i], u) ]
ExtPart == IF tag.ver = 3 /\ tag.ext THEN << 0, 0, 0, 6, 0, 0 >> \o BE4(tag.pad) ELSE <<>>

\* unsynchronise explicit bytes that are followed by 0x41s or, if n = 0, by
\* frame identifiers, zero padding or the end
Tight(b, n, last) == IF tag.ver = 4 THEN b
                     ELSE IF n = 0 /\ last
                          THEN IF tag.pad > 0 /\ Last(b) = 255 THEN Unsync(b, FALSE) \o << 0 >>
                               ELSE Unsync(b, tag.ver = 3)
                          ELSE Unsync(b, FALSE)
BodyParts(u) ==
  LET ps == Parts(u) k == Len(ps)
  IN [ i \in 1..k |->
        LET b == (IF i = 1 THEN ExtPart ELSE <<>>) \o ps[i].b IN
        [ b |-> IF u THEN Tight(b, ps[i].n, i = k) ELSE b, n |-> ps[i].n ] ]
PartsLen(ps) == SumSeq([ i \in 1..Len(ps) |-> Len(ps[i].b) + ps[i].n ])
Total(u) == PartsLen(BodyParts(u)) + tag.pad
All(u) == << [ b |-> Header([ tag EXCEPT !.frames = <<>> ], u, Total(u)), n |-> 0 ] >> \o BodyParts(u)

AnnouncedSize == \A u \in BOOLEAN : FromSS(SubSeq(All(u)[1].b, 7, 10)) = Total(u) /\ Total(u) <= Max2
NoFalseSync == \A i \in 1..Len(BodyParts(TRUE)) : ~HasFalseSync(BodyParts(TRUE)[i].b)

Out == done => Emit([ ver |-> tag.ver, pad |-> tag.pad, ext |-> Bit(tag.ext, 1), lens |-> tag.frames,
                      head |-> head, plain |-> All(FALSE), unsync |-> All(TRUE) ])
=============================================================================
