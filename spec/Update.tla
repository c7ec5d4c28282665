------------------------------- MODULE Update -------------------------------
(* What may be seen of an update of the tags of a file while it is under way, *)
(* fails, or is cut short. The update consists of stages (of the ID3v2 tagset *)
(* and of the ID3v1 tag), each of which either replaces the file in one step  *)
(* or, where that is allowed, works in place: then the tags of that stage may *)
(* be seen half-written. Every state of this specification is one in which    *)
(* the process may die.                                                       *)
EXTENDS Integers, Sequences

CONSTANT MaxScratch   \* bounds the model only

VARIABLES
  plan,      \* one BOOLEAN per stage: may it be done in place?
  keep,      \* is a backup to be kept?
  at,        \* the file has the content after that many stages ...
  torn,      \* ... except that the tags of the next stage may be half-written
  backup,    \* there is a backup: a complete copy of the file as it was
  scratch,   \* number of temporary files (incomplete backups included)
  result     \* "running", "ok", "failed"
vars == << plan, keep, at, torn, backup, scratch, result >>

TypeOK == /\ at \in 0..Len(plan) /\ torn \in BOOLEAN /\ backup \in BOOLEAN
          /\ scratch \in Nat /\ result \in { "running", "ok", "failed" }

Init == /\ plan \in { << FALSE >>, << TRUE >>, << FALSE, TRUE >>, << TRUE, TRUE >> }
        /\ keep \in BOOLEAN
        /\ at = 0 /\ torn = FALSE /\ backup = FALSE /\ scratch = 0 /\ result = "running"

Tear    == at < Len(plan) /\ plan[at + 1] /\ ~torn /\ torn' = TRUE /\ UNCHANGED << at, backup >>
Advance == at < Len(plan) /\ at' = at + 1 /\ torn' = FALSE /\ UNCHANGED backup
Restore == torn /\ torn' = FALSE /\ UNCHANGED << at, backup >>
Save    == keep /\ ~backup /\ at = 0 /\ ~torn /\ backup' = TRUE /\ UNCHANGED << at, torn >>
Scratch == scratch' \in 0..MaxScratch
\* a backup that was to be kept is there before the file changes
Ready   == keep => backup

Work == /\ result = "running"
        /\ \/ Ready /\ (Tear \/ Advance)
           \/ Restore \/ Save
           \/ UNCHANGED << at, torn, backup >>
        /\ Scratch
        /\ UNCHANGED << plan, keep, result >>

Succeed == /\ result = "running" /\ at = Len(plan) /\ scratch = 0 /\ backup = keep
           /\ result' = "ok"
\* the stage that failed has had no effect
Fail    == /\ result = "running" /\ at < Len(plan) /\ ~torn /\ scratch = 0
           /\ result' = "failed"
End == (Succeed \/ Fail) /\ UNCHANGED << plan, keep, at, torn, backup, scratch >>

Next == Work \/ End
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- consequences
\* whenever the process dies, the file's audio and a whole version of each of
\* its other tags are there; if only copying was allowed, so is a whole file
NeverTornByCopy == torn => at < Len(plan) /\ plan[at + 1]
KeptBefore      == (keep /\ (at > 0 \/ torn)) => backup
Faithful        == /\ result = "ok" => at = Len(plan) /\ ~torn /\ scratch = 0
                   /\ result = "failed" => ~torn /\ scratch = 0
=============================================================================
