------------------------------- MODULE Tagset -------------------------------
(* Updates of the ID3v2 tags at the start of a file.                          *)
(*                                                                            *)
(* A tagset is a sequence of [k, pad]: the k-th of the candidate tags, with   *)
(* that much padding. On disk, each has also been written with or without     *)
(* unsynchronisation: [k, pad, u]. Which paddings an update in place chooses  *)
(* is left open, as long as the tags end up occupying the former space.       *)
EXTENDS Id3v2, TLC, Json

CONSTANTS
  Cands,      \* the candidate tags
  Olds,       \* tagsets in the file to begin with
  News,       \* tagsets that may be requested
  Apis,       \* "copy", "emplace", "full", "reduce"
  Unsyncs,    \* "never", "always", "needed"
  MaxUpd

Tag(x) == [ Cands[x.k] EXCEPT !.pad = x.pad ]

\* whether the tag is to be written with unsynchronisation
With(how, x) == CASE how = "never" -> FALSE [] how = "always" -> TRUE [] OTHER -> Needs(Tag(x))

\* the number of bytes it occupies then
Room(x, u) == Size(Tag(x), u) + 10

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Room(Head(s), Head(s).u) + Total(Tail(s))
RECURSIVE Padding(_)
Padding(s) == IF s = <<>> THEN 0 ELSE Head(s).pad + Padding(Tail(s))

\* a requested tagset as it goes to disk
Written(req, how) == [ i \in 1..Len(req) |->
                        [ k |-> req[i].k, pad |-> req[i].pad, u |-> With(how, req[i]) ] ]

\* the same tags in the same order, paddings aside, properly written
SameTags(disk, req, how) ==
  /\ Len(disk) = Len(req)
  /\ \A i \in 1..Len(req) : disk[i].k = req[i].k /\ disk[i].u = With(how, disk[i])

InPlace(old, new, req, how, api) ==
  /\ SameTags(new, req, how)
  /\ Total(new) = Total(old)
  /\ api = "full" => Padding(new) >= Padding(req)

\* ---- one update: from what was on disk to what may be there afterwards
Update(old, new, ok, req, how, api) ==
  CASE api = "copy"    -> ok /\ new = Written(req, how)
    [] api = "emplace" -> IF Total(Written(req, how)) = Total(old)
                          THEN ok /\ new = Written(req, how)
                          ELSE ~ok /\ new = old
    [] OTHER           -> ok /\ \/ new = Written(req, how)
                                \/ InPlace(old, new, req, how, api)

\* ------------------------------------------------- histories to be tried out
VARIABLES start, hist, done
vars == << start, hist, done >>

Init == start \in Olds /\ hist = <<>> /\ done = FALSE

Request == /\ ~done /\ Len(hist) < MaxUpd
           /\ \E a \in Apis, h \in Unsyncs, n \in News :
                 hist' = Append(hist, [ api |-> a, how |-> h, req |-> n ])
           /\ UNCHANGED << start, done >>
Finish == ~done /\ Len(hist) = MaxUpd /\ done' = TRUE /\ UNCHANGED << start, hist >>
Next == Request \/ Finish
Spec == Init /\ [][Next]_vars

Out == done => Emit([ start |-> start, hist |-> hist ])
=============================================================================
