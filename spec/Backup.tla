------------------------------- MODULE Backup -------------------------------
(* Backups: a directory maps names (sequences of characters) to contents, and *)
(* updates change one file, keeping its former content under a new name or    *)
(* not.                                                                       *)
EXTENDS Bytes, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Names,     \* names of files that may be there to begin with
  Always,    \* those that always are
  Targets,   \* names of files that are updated
  Forms,     \* the ways to name a file: "abs", "rel", "dot", ...
  MaxExtra,  \* how many of the others there may be
  MaxUpd

Dot == 46
Digits(s) == s # <<>> /\ \A i \in 1..Len(s) : s[i] \in 48..57
\* n is named after f, with a number
Numbered(n, f) == /\ Len(n) > Len(f) + 1
                  /\ SubSeq(n, 1, Len(f)) = f
                  /\ n[Len(f) + 1] = Dot
                  /\ Digits(SubSeq(n, Len(f) + 2, Len(n)))
Suffix(n, f) == SubSeq(n, Len(f) + 2, Len(n))

\* numbers of any length, as digits
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE LexLess(_, _)
LexLess(s, t) == /\ s # <<>>
                 /\ \/ s[1] < t[1]
                    \/ s[1] = t[1] /\ LexLess(Tail(s), Tail(t))
Less(s, t) == LET a == Strip(s) b == Strip(t) IN
              Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))

\* ---- one update of f, by which it becomes `new'
NewBackup(dir, n, f) ==
  /\ n \notin DOMAIN dir
  /\ Numbered(n, f)
  /\ \A m \in DOMAIN dir : Numbered(m, f) => Less(Suffix(m, f), Suffix(n, f))

Update(dir, dir2, f, new, keep) ==
  IF keep
  THEN \E n \in DOMAIN dir2 \ DOMAIN dir :
         /\ NewBackup(dir, n, f)
         /\ dir2 = [ m \in DOMAIN dir \cup { n } |->
                      IF m = n THEN dir[f] ELSE IF m = f THEN new ELSE dir[m] ]
  ELSE dir2 = [ dir EXCEPT ![f] = new ]

\* ------------------------------------------------- histories to be tried out
VARIABLES start, hist, done
vars == << start, hist, done >>

Init == /\ start \in { Always \cup e : e \in { s \in SUBSET Names : Cardinality(s) <= MaxExtra } }
        /\ hist = <<>> /\ done = FALSE
Request == /\ ~done /\ Len(hist) < MaxUpd
           /\ \E f \in Targets \cap start, w \in Forms, k \in BOOLEAN :
                 hist' = Append(hist, [ f |-> f, form |-> w, keep |-> k ])
           /\ UNCHANGED << start, done >>
Finish == ~done /\ Len(hist) = MaxUpd /\ done' = TRUE /\ UNCHANGED << start, hist >>
Next == Request \/ Finish
Spec == Init /\ [][Next]_vars

Out == done => Emit([ start |-> start, hist |-> hist ])
=============================================================================
