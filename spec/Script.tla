------------------------------- MODULE Script -------------------------------
(* Scripts: programs that read the tags of a file as objects, change the       *)
(* objects, and write them back.  A file is its ID3v2 tags and its ID3v1 tag;  *)
(* a script holds a list of tags and an ID3v1 tag of its own.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, Kinds

\* ------------------------------------------------- what scripts see of files
\* A frame: id, v (its value, a record with the kind of object k), keep (whether
\* to keep it when the tag is altered, when the file is; and whether it is
\* read-only).  An object: sym, id (of frames of no known kind), v, and flags
\* "t", "f" or "n" for those not given.
Flag(b) == IF b THEN "t" ELSE "f"
SeeFrame(ver, f) ==
  LET ks == Known(ver, f.id)
  IN [ sym |-> IF ks = {} THEN "unknown-frame" ELSE The(ks)[1], id |-> IF ks = {} THEN f.id ELSE "", v |-> f.v,
       fl |-> IF ver = 2 THEN << "n", "n", "n" >> ELSE [ i \in 1..3 |-> Flag(f.keep[i]) ] ]
Default == << TRUE, TRUE, FALSE >>
Keep(ver, fl) == IF ver = 2 THEN Default ELSE [ i \in 1..3 |-> IF fl[i] = "n" THEN Default[i] ELSE fl[i] = "t" ]
\* can the object be written in a tag of that version?
CanWrite(ver, o) ==
  /\ IF o.sym = "unknown-frame" THEN Len(o.id) = IdLen(ver)
     ELSE \E k \in Named(o.sym) : IdIn(ver, k) # ""
  /\ o.v.k = "comm" => Len(o.v.lang) \in { 0, 3 }
Settled(v) == IF v.k = "comm" /\ v.lang = "" THEN [ v EXCEPT !.lang = "eng" ] ELSE v
WriteFrame(ver, o) ==
  [ id |-> IF o.sym = "unknown-frame" THEN o.id ELSE IdIn(ver, The(Named(o.sym))), v |-> Settled(o.v), keep |-> Keep(ver, o.fl) ]
SeeTag(t) == [ ver |-> t.ver, exp |-> t.exp, frames |-> [ i \in 1..Len(t.frames) |-> SeeFrame(t.ver, t.frames[i]) ] ]
WriteTag(t) == [ ver |-> t.ver, exp |-> t.ver # 2 /\ t.exp, frames |-> [ i \in 1..Len(t.frames) |-> WriteFrame(t.ver, t.frames[i]) ] ]
CanWriteTag(t) == \A i \in 1..Len(t.frames) : CanWrite(t.ver, t.frames[i])
See(ts) == [ i \in 1..Len(ts) |-> SeeTag(ts[i]) ]
Write(ts) == [ i \in 1..Len(ts) |-> WriteTag(ts[i]) ]
CanWriteAll(ts) == \A i \in 1..Len(ts) : CanWriteTag(ts[i])

\* ID3v1: track -1 where there is none; ext: the enhanced tag
NoExt == [ xgenre |-> "", speed |-> -1, start |-> "", end |-> "" ]
SeeV1(t) == [ title |-> t.title, artist |-> t.artist, album |-> t.album, year |-> t.year, comment |-> t.comment,
              genre |-> t.genre, track |-> t.track, x |-> IF t.ext THEN t.x ELSE NoExt ]
NeedsExt(o) == \/ o.x # NoExt
               \/ \E s \in { o.title, o.artist, o.album } : Len(s) > 30
WriteV1(o) == [ title |-> o.title, artist |-> o.artist, album |-> o.album, year |-> o.year, comment |-> o.comment,
                genre |-> o.genre, track |-> o.track, ext |-> NeedsExt(o),
                x |-> IF NeedsExt(o) THEN [ o.x EXCEPT !.speed = IF @ = -1 THEN 0 ELSE @ ] ELSE NoExt ]

\* --------------------------------------------------------------- behaviour
CONSTANTS Files(_), Steps(_, _), MaxSteps
VARIABLES stage, file, mem, mem1, hist
vars == << stage, file, mem, mem1, hist >>
Nothing == << >>
Init == stage = "new" /\ file = Nothing /\ mem = Nothing /\ mem1 = Nothing /\ hist = Nothing
Start == /\ stage = "new"
         /\ \E f \in Files(stage) : file' = f /\ hist' = << [ op |-> "file", file |-> f ] >>
         /\ stage' = "run"
         /\ UNCHANGED << mem, mem1 >>

Insert(s, at, x) == SubSeq(s, 1, at - 1) \o << x >> \o SubSeq(s, at, Len(s))
Remove(s, at) == SubSeq(s, 1, at - 1) \o SubSeq(s, at + 1, Len(s))
\* what a step does to the tags the script holds
Edit(m, s) ==
  CASE s.op = "set"  -> [ m EXCEPT ![s.i].frames[s.j].v = s.v ]
    [] s.op = "flag" -> [ m EXCEPT ![s.i].frames[s.j].fl = s.fl ]
    [] s.op = "add"  -> [ m EXCEPT ![s.i].frames = Insert(@, s.j, s.o) ]
    [] s.op = "del"  -> [ m EXCEPT ![s.i].frames = Remove(@, s.j) ]
    [] s.op = "ver"  -> [ m EXCEPT ![s.i].ver = s.ver ]
    [] s.op = "exp"  -> [ m EXCEPT ![s.i].exp = s.exp ]
    [] s.op = "tag"  -> Insert(m, s.i, s.t)
    [] s.op = "drop" -> Remove(m, s.i)
Edits == { "set", "flag", "add", "del", "ver", "exp", "tag", "drop" }
Step ==
  /\ stage = "run" /\ Len(hist) <= MaxSteps
  /\ \E s \in Steps([ file |-> file, mem |-> mem, mem1 |-> mem1 ], hist) :
       CASE s.op = "read"   -> /\ mem' = << See(file.v2) >>
                               /\ hist' = Append(hist, s @@ [ see |-> See(file.v2) ])
                               /\ UNCHANGED << file, mem1 >>
         [] s.op = "read1"  -> /\ mem1' = IF file.v1 = <<>> THEN <<>> ELSE << SeeV1(file.v1[1]) >>
                               /\ hist' = Append(hist, s @@ [ see |-> mem1' ])
                               /\ UNCHANGED << file, mem >>
         [] s.op = "write"  -> /\ file' = IF CanWriteAll(mem[1]) THEN [ file EXCEPT !.v2 = Write(mem[1]) ] ELSE file
                               /\ hist' = Append(hist, s @@ [ ok |-> CanWriteAll(mem[1]), file |-> file' ])
                               /\ UNCHANGED << mem, mem1 >>
         [] s.op = "write1" -> /\ file' = [ file EXCEPT !.v1 = << WriteV1(mem1[1]) >> ]
                               /\ hist' = Append(hist, s @@ [ ok |-> TRUE, file |-> file' ])
                               /\ UNCHANGED << mem, mem1 >>
         [] s.op = "set1"   -> /\ mem1' = << s.o >>
                               /\ hist' = Append(hist, s)
                               /\ UNCHANGED << file, mem >>
         [] s.op \in Edits  -> /\ mem' = << Edit(mem[1], s) >>
                               /\ hist' = Append(hist, s)
                               /\ UNCHANGED << file, mem1 >>
  /\ stage' = IF Len(hist') > MaxSteps THEN "done" ELSE stage
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Out == stage = "done" => Emit(hist)

\* --------------------------------------------------------------- properties
\* reading and writing back changes nothing
Unchanged == stage = "new" \/ (/\ CanWriteAll(See(file.v2))
                               /\ Write(See(file.v2)) = file.v2
                               /\ file.v1 # <<>> => WriteV1(SeeV1(file.v1[1])) = file.v1[1])
\* what a script writes is what is then read: nothing given comes out as the default
Same(ver, a, b) == /\ a.sym = b.sym /\ a.id = b.id /\ Settled(a.v) = b.v
                   /\ ver # 2 => Keep(ver, a.fl) = Keep(ver, b.fl)
ReadBack == (stage # "new" /\ mem # <<>> /\ CanWriteAll(mem[1])) =>
  LET w == See(Write(mem[1]))
  IN /\ Len(w) = Len(mem[1])
     /\ \A i \in 1..Len(w) : /\ w[i].ver = mem[1][i].ver
                             /\ Len(w[i].frames) = Len(mem[1][i].frames)
                             /\ \A j \in 1..Len(w[i].frames) : Same(w[i].ver, mem[1][i].frames[j], w[i].frames[j])
\* each write replaces its own kind of tag only; refused writes nothing at all
Apart == [][ LET s == hist'[Len(hist')]
             IN stage # "new" =>
                  /\ (file'.v2 # file.v2) => (s.op = "write" /\ s.ok)
                  /\ (file'.v1 # file.v1) => (s.op = "write1" /\ s.ok) ]_vars
=============================================================================
