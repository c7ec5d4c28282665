------------------------------- MODULE Reader -------------------------------
(* Reading the tags at the start of a file. A file is a sequence of parts:     *)
(* tags, things that resemble tags, and other bytes. The reader looks at a     *)
(* header, and takes the tag it announces, until it looks at no header.        *)
EXTENDS Id3v2

CONSTANTS Tags,     \* pairs of a tag and whether it is written unsynchronised
          Others,   \* byte strings that start no tag, whatever follows them
          Tails,    \* byte strings that start none at the end of a file
          Versions, \* version bytes no reader knows
          MaxParts, EmitAt

VARIABLES parts,    \* what the file is made of: << kind, index or bytes >>
          pos, found, state, done
vars == << parts, pos, found, state, done >>

Unknown(v) == << 73, 68, 51, v, 0, 0, 0, 0, 0, 2, 1, 2 >>
BytesOf(p) == CASE p.kind = "tag" -> Encode(p.tag, p.u) [] OTHER -> p.bytes
File == Concat([ i \in 1..Len(parts) |-> BytesOf(parts[i]) ])

\* a header at offset p (from 0): version, revision and what its tag occupies
Look(s, p) ==
  IF /\ Len(s) >= p + 10
     /\ SubSeq(s, p + 1, p + 3) = << 73, 68, 51 >>
     /\ s[p + 4] # 255 /\ s[p + 5] # 255
     /\ \A i \in 7..10 : s[p + i] < 128
  THEN [ present |-> TRUE, ver |-> s[p + 4], rev |-> s[p + 5], flags |-> s[p + 6],
         size |-> FromSS(SubSeq(s, p + 7, p + 10)) + (IF s[p + 4] = 4 /\ Has(s[p + 6], 16) THEN 10 ELSE 0) ]
  ELSE [ present |-> FALSE, ver |-> 0, rev |-> 0, flags |-> 0, size |-> 0 ]

Init == parts = <<>> /\ pos = 0 /\ found = <<>> /\ state = "making" /\ done = FALSE
AddTag == \E t \in Tags : parts' = Append(parts, [ kind |-> "tag", tag |-> t[1], u |-> t[2], bytes |-> <<>> ])
AddOther == \E o \in Others : parts' = Append(parts, [ kind |-> "other", tag |-> NewTag(3), u |-> FALSE, bytes |-> o ])
AddUnknown == \E v \in Versions :
   parts' = Append(parts, [ kind |-> "unknown", tag |-> NewTag(3), u |-> FALSE, bytes |-> Unknown(v) ])
AddTail == \E o \in Tails : parts' = Append(parts, [ kind |-> "tail", tag |-> NewTag(3), u |-> FALSE, bytes |-> o ])
Make == /\ state = "making" /\ Len(parts) < MaxParts
        /\ (parts # <<>> => Last(parts).kind # "tail")
        /\ (AddTag \/ AddOther \/ AddUnknown \/ AddTail)
        /\ UNCHANGED << pos, found, state, done >>
Open == /\ state = "making" /\ (EmitAt < 0 \/ Len(parts) = EmitAt) /\ state' = "reading"
        /\ UNCHANGED << parts, pos, found, done >>
Read == /\ state = "reading"
        /\ LET h == Look(File, pos) IN
           IF ~h.present THEN state' = "audio" /\ UNCHANGED << pos, found >>
           ELSE IF h.ver \notin 2..4 THEN state' = "error" /\ UNCHANGED << pos, found >>
           ELSE /\ found' = Append(found, [ at |-> pos, len |-> 10 + h.size,
                                            tag |-> Decode(SubSeq(File, pos + 1, pos + 10 + h.size)) ])
                /\ pos' = pos + 10 + h.size /\ UNCHANGED state
        /\ UNCHANGED << parts, done >>
Finish == state \in { "audio", "error" } /\ done' = TRUE /\ UNCHANGED << parts, pos, found, state >>
Next == ~done /\ (Make \/ Open \/ Read \/ Finish)
Spec == Init /\ [][Next]_vars

\* the tags found are the tags the file was made with, up to the first other part
Leading == LET N == { i \in 1..Len(parts) : parts[i].kind # "tag" } IN
           IF N = {} THEN Len(parts) ELSE (CHOOSE i \in N : \A j \in N : i <= j) - 1
Exact == done => /\ Len(found) = Leading
                 /\ \A i \in 1..Leading : found[i].tag = Marked(parts[i].tag, parts[i].u)
                 /\ pos = Len(Concat([ i \in 1..Leading |-> BytesOf(parts[i]) ]))
                 /\ state = IF Leading < Len(parts) /\ parts[Leading + 1].kind = "unknown" THEN "error" ELSE "audio"

Points == { 0, IF File = <<>> THEN 0 ELSE 1, Len(File), pos, IF Len(File) > 9 THEN Len(File) - 9 ELSE 0 }
          \cup { found[i].at : i \in 1..Len(found) }
Out == done => Emit([ bytes |-> File, end |-> pos, state |-> state,
                      found |-> [ i \in 1..Len(found) |->
                        [ at |-> found[i].at, len |-> found[i].len, tag |-> found[i].tag, seen |-> SeenAll(found[i].tag) ] ],
                      looks |-> { << p, Look(File, p) >> : p \in Points } ])
=============================================================================
