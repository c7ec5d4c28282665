------------------------------- MODULE Split --------------------------------
(* Splitting a file into its leading ID3v2 tags, audio and ID3v1 tag.  The     *)
(* parts are found in the file's bytes alone; how the file was put together    *)
(* serves to check that they are the right ones.                               *)
EXTENDS Bytes

\* ------------------------------------------------------------ finding parts
ID3 == << 73, 68, 51 >>
TAG == << 84, 65, 71 >>
Is(s, i, x) == i >= 1 /\ i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
\* the length of the tag at offset o (0: there is none)
TagAt(s, o) ==
  IF /\ o + 10 <= Len(s) /\ Is(s, o + 1, ID3) /\ s[o + 4] # 255 /\ s[o + 5] # 255
     /\ IsSS(SubSeq(s, o + 7, o + 10))
  THEN 10 + FromSS(SubSeq(s, o + 7, o + 10)) + (IF s[o + 4] = 4 /\ (s[o + 6] \div 16) % 2 = 1 THEN 10 ELSE 0)
  ELSE 0
V1Len(s, o) == LET n == Len(s) IN
  CASE n - o >= 355 /\ Is(s, n - 354, TAG \o << 43 >>) /\ Is(s, n - 127, TAG) -> 355
    [] n - o >= 128 /\ Is(s, n - 127, TAG) -> 128
    [] OTHER -> 0

\* file: the bytes; at: how far they are written; out: the pieces so far
VARIABLES made, file, at, out, env, stage
vars == << made, file, at, out, env, stage >>
Init == made = <<>> /\ file = <<>> /\ at = 0 /\ out = <<>> /\ env = <<>> /\ stage = "new"
Put(name, n) == /\ out' = Append(out, [ name |-> name, bytes |-> SubSeq(file, at + 1, at + n) ])
                /\ at' = at + n
                /\ UNCHANGED << made, file, env >>
WriteTag == /\ stage = "tags" /\ TagAt(file, at) > 0 /\ at + TagAt(file, at) <= Len(file)
            /\ Put("id3v2" \o ToString(Len(out)), TagAt(file, at)) /\ UNCHANGED stage
CutShort == /\ stage = "tags" /\ at + TagAt(file, at) > Len(file)
            /\ stage' = "failed" /\ UNCHANGED << made, file, at, out, env >>
WriteTrack == /\ stage = "tags" /\ TagAt(file, at) = 0
              /\ Put("track", Len(file) - at - V1Len(file, at)) /\ stage' = "v1"
WriteV1 == /\ stage = "v1" /\ at < Len(file)
           /\ Put("id3v1", Len(file) - at) /\ UNCHANGED stage
Finish == stage = "v1" /\ at = Len(file) /\ stage' = "done" /\ UNCHANGED << made, file, at, out, env >>
Next == WriteTag \/ CutShort \/ WriteTrack \/ WriteV1 \/ Finish

\* --------------------------------------------------------- putting together
Letters(n, c) == [ i \in 1..n |-> c ]
Frame(v, data) == CASE v = 2 -> << 84, 84, 50 >> \o BE3(Len(data)) \o data
                    [] v = 3 -> << 84, 73, 84, 50 >> \o BE4(Len(data)) \o << 0, 0 >> \o data
                    [] v = 4 -> << 84, 73, 84, 50 >> \o SS4(Len(data)) \o << 0, 0 >> \o data
Tag(t) == LET body == Frame(t.v, << 0 >> \o t.text) \o Zeros(IF t.foot THEN 0 ELSE t.pad)
              fl == IF t.foot THEN 16 ELSE 0
          IN ID3 \o << t.v, 0, fl >> \o SS4(Len(body)) \o body \o
             (IF t.foot THEN << 51, 68, 73, t.v, 0, fl >> \o SS4(Len(body)) ELSE <<>>)
V1(k) == CASE k = "none" -> <<>>
           [] k = "v1" -> TAG \o Letters(124, 120) \o << 7 >>
           [] k = "v1x" -> TAG \o << 43, 88 >> \o Letters(122, 0) \o << 255 >>     \* a title that begins with "+"
           [] k = "ext" -> TAG \o << 43 >> \o Letters(180, 101) \o << 2 >> \o Letters(30, 103) \o Zeros(12) \o
                             TAG \o Letters(124, 0) \o << 9 >>
Compose(m) == Concat([ i \in 1..Len(m.tags) |-> Tag(m.tags[i]) ]) \o m.audio \o V1(m.v1) 
CutTo(s, n) == SubSeq(s, 1, n)
Start(m) == /\ stage = "new" /\ stage' = "tags" /\ made' = m
            /\ file' = CutTo(Compose(m), Len(Compose(m)) - m.cut)
            /\ UNCHANGED << at, out >>

\* -------------------------------------------------------------- properties
RECURSIVE Pieces(_)
Pieces(o) == IF o = <<>> THEN <<>> ELSE Head(o).bytes \o Pieces(Tail(o))
\* at every point what is written is the beginning of the file
Partition == /\ Pieces(out) = SubSeq(file, 1, at)
             /\ stage = "done" => Pieces(out) = file
\* what was put together comes apart, unless the audio looks like a tag's beginning or end
Clear == /\ Len(made.audio) = 0 \/ TagAt(made.audio \o V1(made.v1), 0) = 0
         /\ V1Len(Compose(made), Len(Compose(made)) - Len(V1(made.v1)) - Len(made.audio)) = Len(V1(made.v1))
Right == stage = "done" /\ made.cut = 0 /\ Clear =>
  /\ Len(out) = Len(made.tags) + 1 + (IF made.v1 = "none" THEN 0 ELSE 1)
  /\ \A i \in 1..Len(made.tags) : (out[i]).bytes = Tag(made.tags[i])
  /\ (out[Len(made.tags) + 1]).bytes = made.audio
Ends == stage = "failed" => made.cut > 0 \/ ~Clear
Out == stage \in { "done", "failed" } =>
         Emit([ file |-> file, out |-> out, ok |-> stage = "done", env |-> env, tags |-> Len(made.tags), v1 |-> made.v1,
                cut |-> made.cut ])

\* ------------------------------------------------------------------ choices
T2(v, foot, text, pad) == [ v |-> v, foot |-> foot, text |-> text, pad |-> pad ]
Texts == { << 65 >>, TAG \o Letters(124, 97) \o << 1 >>, Letters(200, 66) \o TAG \o Letters(125, 99), ID3 \o << 3, 0, 0, 0, 0, 0, 1, 0 >> }
Audios == { <<>>, << 255, 251, 144, 100 >> \o Letters(60, 85), TAG, << 73 >>, ID3, ID3 \o << 255, 0, 0, 0, 0, 0, 1, 7 >>,
            ID3 \o << 3, 0, 0, 0, 128, 0, 1, 7, 7 >>, << 0 >> \o ID3 \o << 3, 0, 0, 0, 0, 0, 1, 7 >>, TAG \o Letters(124, 104),
            TAG \o << 43 >> \o Letters(222, 105), Letters(400, 3), TAG \o << 43 >> \o Letters(223, 105), Letters(128, 84), TAG \o Letters(400, 84),
            << 51, 68, 73, 4, 0, 16, 0, 0, 0, 5 >> }
\* how it is called: the input's name, the suffix, what is there already
Plain == [ name |-> "in.mp3", suffix |-> "", old |-> {} ]
SmallMade == { [ tags |-> ts, audio |-> a, v1 |-> k, cut |-> 0 ] :
                 ts \in { <<>> } \cup { << t >> : t \in { T2(v, FALSE, x, p) : v \in { 2, 3, 4 }, x \in Texts, p \in { 0, 20 } } \cup
                                                       { T2(4, TRUE, x, 0) : x \in Texts } } \cup
                       { [ i \in 1..12 |-> T2(2 + (i % 3), FALSE, << 64 + i >>, i % 2) ] },
                 a \in Audios, k \in { "none", "v1", "v1x", "ext" } }
Envs == { [ name |-> n, suffix |-> s, old |-> o ] :
            n \in { "in.mp3", "sub/in.mp3", "track", "id3v20", "id3v1", "track.x", "id3v21.x", "id3v1.x" },
            s \in { "", ".x" }, o \in { {}, { "track" }, { "id3v1", "track.x", "id3v20.x" } } }
CallMade == { [ tags |-> ts, audio |-> << 1, 2, 3 >>, v1 |-> k, cut |-> c ] :
                ts \in { <<>>, << T2(3, FALSE, << 65 >>, 0), T2(4, TRUE, << 66 >>, 0) >> }, k \in { "none", "ext" }, c \in { 0 } }
One(h, S) == RandomElement(S)
RandT(h) == LET v == One(h, { 2, 3, 4 }) IN T2(v, v = 4 /\ One(h, BOOLEAN), One(h, Texts \cup { Letters(One(h, 1..300), 90) }), One(h, { 0, 1, 100 }))
RandMade(h) == [ tags |-> [ i \in 1..One(h, 0..4) |-> RandT(i) ],
                 audio |-> LET x == One(h, Audios) y == One(h, Audios) IN IF One(h, BOOLEAN) THEN x ELSE x \o Letters(One(h, 0..400), 9) \o y,
                 v1 |-> One(h, { "none", "v1", "v1x", "ext" }), cut |-> IF One(h, 1..5) = 1 THEN One(h, 1..20) ELSE 0 ]
SmallStart == stage = "new" /\ \E m \in SmallMade : Start(m) /\ env' = Plain
CallStart == stage = "new" /\ \E m \in CallMade, e \in Envs : Start(m) /\ env' = e
RandStart == stage = "new" /\ \E m \in { RandMade(stage) } : Start(m) /\ env' = One(stage, Envs)
SmallSpec == Init /\ [][SmallStart \/ Next]_vars
CallSpec == Init /\ [][CallStart \/ Next]_vars
RandSpec == Init /\ [][RandStart \/ Next]_vars
=============================================================================
