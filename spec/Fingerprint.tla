---------------------------- MODULE Fingerprint ----------------------------
(* A file is a run of tags, audio, and another run of tags.  Its fingerprint  *)
(* is a function of what lies between the tags, and of nothing else.  Tags    *)
(* come and go; the audio is replaced now and then.                           *)
EXTENDS Bytes

Lead  == { "22", "23", "24", "24foot", "23pad", "23unsync", "24tag" }       \* kinds of leading tags
Trail == { "none", "v1", "v11", "ext" }
Piece == { "x", "frames", "text", "tags", "id3", "3di", "zeros", "ff", "nearly" }
Large == { "buf", "buf-1", "buf+1" }                               \* of about the size of the reader's buffer

VARIABLES lead, audio, trail, hist
vars == << lead, audio, trail, hist >>

\* the file as its reader sees it: a sequence of segments
Seg(k, x) == [ k |-> k, x |-> x ]
File == [ i \in 1..Len(lead) |-> Seg("tag", lead[i]) ] \o [ i \in 1..Len(audio) |-> Seg("audio", audio[i]) ] \o
        (IF trail = "none" THEN <<>> ELSE << Seg("trailer", trail) >>)
RECURSIVE SkipTags(_), CutTrailer(_)
SkipTags(s) == IF s # <<>> /\ Head(s).k = "tag" THEN SkipTags(Tail(s)) ELSE s
CutTrailer(s) == IF s # <<>> /\ Last(s).k = "trailer" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Print1(s) == LET m == CutTrailer(SkipTags(s)) IN [ i \in 1..Len(m) |-> m[i].x ]
Now == Print1(File)

Note == hist' = Append(hist, [ lead |-> lead', audio |-> audio', trail |-> trail' ])
Init == lead = <<>> /\ audio = <<>> /\ trail = "none" /\ hist = <<>>
AddTag(k)  == lead' = << k >> \o lead /\ UNCHANGED << audio, trail >> /\ Note
DropTag    == lead # <<>> /\ lead' = Tail(lead) /\ UNCHANGED << audio, trail >> /\ Note
SetTrail(k) == trail # k /\ trail' = k /\ UNCHANGED << lead, audio >> /\ Note
SetAudio(a) == audio # a /\ audio' = a /\ UNCHANGED << lead, trail >> /\ Note

\* -------------------------------------------------------------- properties
IsAudio == Now = audio
\* the fingerprint changes just when the audio does
OnlyAudio == [][ (Now' = Now) <=> (audio' = audio) ]_vars
Told == \A i, j \in 1..Len(hist) : hist[i].audio = hist[j].audio \/ hist[i] # hist[j]

Out(n) == Len(hist) = n => Emit(hist)
OutSmall == Out(2)
OutRand  == Out(8)

\* every pair of states a step apart
Pieces(n) == UNION { [ 1..k -> Piece ] : k \in 0..n }
SmallNext == Len(hist) < 2 /\
  IF hist = <<>>
  THEN \E l \in { <<>> } \cup { << k >> : k \in Lead } \cup { << "23", k >> : k \in Lead }, t \in Trail, a \in Pieces(1) \cup { << p >> : p \in Large } :
         (Len(a) = 1 /\ a[1] \in Large => l = <<>>) /\ lead' = l /\ trail' = t /\ audio' = a /\ Note
  ELSE \/ AddTag("24")
       \/ \E k \in { "none", "ext" } : SetTrail(k)
       \/ SetAudio(Append(audio, "x"))
SmallSpec == Init /\ [][SmallNext]_vars
One(h, S) == RandomElement(S)
RandNext == Len(hist) < 8 /\
  \/ (hist # <<>> /\ \E k \in { One(hist, Lead) } : Len(lead) < 4 /\ AddTag(k))
  \/ (hist # <<>> /\ DropTag)
  \/ (hist # <<>> /\ \E k \in { One(hist, Trail) } : SetTrail(k))
  \/ (Len(hist) < 8 /\ \E a \in { [ i \in 1..One(hist, { 0, 1, 2, 3, 4 }) |-> One(i, IF One(i, 1..200) = 1 THEN Large ELSE Piece) ] } : SetAudio(a))
RandSpec == Init /\ [][RandNext]_vars
=============================================================================
