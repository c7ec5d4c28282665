----------------------------- MODULE Id3v1File -----------------------------
(* Files that may end in an ID3v1 tag: detecting, replacing, removing it.     *)
EXTENDS Id3v1

CONSTANTS Bodies, Tails, Tags, MaxOps

VARIABLES file, ops
vars == << file, ops >>

Init == \E b \in Bodies, t \in Tails : file = b \o t /\ ops = << [ op |-> "start", k |-> 0, file |-> b \o t ] >>

Replace == \E k \in 1..Len(Tags) :
  LET f == Body(file) \o Tags[k] IN
  file' = f /\ ops' = Append(ops, [ op |-> "replace", k |-> k, file |-> f ])

Remove == LET f == Body(file) IN
  file' = f /\ ops' = Append(ops, [ op |-> "remove", k |-> 0, file |-> f ])

Next == Len(ops) <= MaxOps /\ (Replace \/ Remove)
Spec == Init /\ [][Next]_vars

\* what was written is found again, whole
FoundAgain ==
  (Len(ops) > 1 /\ Last(ops).op = "replace") =>
     LET r == Trailing(file) IN
     \/ SubSeq(file, r.start + 1, Len(file)) = Tags[Last(ops).k]
     \* audio that happens to end in an extended prefix merges with a plain tag
     \/ r.kind = "ext" /\ Len(Tags[Last(ops).k]) = PlainSize
BodyKept ==
  [][ (ops # ops' /\ Trailing(file').kind # "none" /\ Last(ops').op = "replace"
       /\ Len(file') - Trailing(file').start = Len(Tags[Last(ops').k]))
        => Body(file') = Body(file) ]_vars

Out == Emit([ ops |-> ops, trailing |-> Trailing(file) ])
=============================================================================
