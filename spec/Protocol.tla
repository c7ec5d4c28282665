------------------------------ MODULE Protocol ------------------------------
(* How files are updated, step by step, where every step may fail: by writing *)
(* a temporary file next to the original, copying the original to its backup  *)
(* and renaming; by overwriting the tagset in place once it has been          *)
(* serialised; by overwriting the ID3v1 tag and cutting the file to size.     *)
(* TLC checks that all of that is allowed by Update.                          *)
EXTENDS Integers, Sequences

VARIABLES plan, keep, ways, pc, stage, file, torn, temp, copy, result
vars == << plan, keep, ways, pc, stage, file, torn, temp, copy, result >>

\* ways: how each stage is done: "copy", "emplace", "overwrite"
PlanOf(w) == [ i \in 1..Len(w) |-> w[i] # "copy" ]
Init == /\ ways \in { << "copy" >>, << "emplace" >>, << "overwrite" >>,
                      << "copy", "overwrite" >>, << "emplace", "overwrite" >> }
        /\ plan = PlanOf(ways)
        /\ keep \in { k \in BOOLEAN : k => ways[1] = "copy" }
        /\ pc = "begin" /\ stage = 1 /\ file = 0 /\ torn = FALSE
        /\ temp = "none" /\ copy = "none" /\ result = "running"

Goto(p) == pc' = p
Same(v) == UNCHANGED v
Way == ways[stage]

\* a failing step ends up in cleaning up
Fails == pc \notin { "clean", "restore", "next", "end" } /\ pc # "overwritten" /\ result = "running"
         /\ Goto("clean") /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy, result >>)

\* --- by copy
MkTemp == pc = "begin" /\ Way = "copy" /\ temp' = "part" /\ Goto("fill")
          /\ Same(<< plan, keep, ways, stage, file, torn, copy, result >>)
Fill   == pc = "fill" /\ temp' \in { "part", "whole" }
          /\ Goto(IF temp' = "whole" THEN (IF keep THEN "mkbackup" ELSE "rename") ELSE "fill")
          /\ Same(<< plan, keep, ways, stage, file, torn, copy, result >>)
MkBackup == pc = "mkbackup" /\ copy' = "part" /\ Goto("fillbackup")
            /\ Same(<< plan, keep, ways, stage, file, torn, temp, result >>)
FillBackup == pc = "fillbackup" /\ copy' \in { "part", "whole" }
              /\ Goto(IF copy' = "whole" THEN "rename" ELSE "fillbackup")
              /\ Same(<< plan, keep, ways, stage, file, torn, temp, result >>)
Rename == pc = "rename" /\ temp' = "none" /\ file' = stage /\ Goto("next")
          /\ Same(<< plan, keep, ways, stage, torn, copy, result >>)

\* --- in place: the whole tagset is put together first
Serialise == pc = "begin" /\ Way = "emplace" /\ Goto("map")
             /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy, result >>)
Map   == pc = "map" /\ torn' = TRUE /\ Goto("mapped")
         /\ Same(<< plan, keep, ways, stage, file, temp, copy, result >>)
Flush == pc = "mapped" /\ torn' = FALSE /\ file' = stage /\ Goto("next")
         /\ Same(<< plan, keep, ways, stage, temp, copy, result >>)

\* --- the ID3v1 tag
ReadOld   == pc = "begin" /\ Way = "overwrite" /\ Goto("overwrite")
             /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy, result >>)
Overwrite == pc = "overwrite" /\ torn' = TRUE /\ pc' \in { "overwriting", "resize" }
             /\ Same(<< plan, keep, ways, stage, file, temp, copy, result >>)
More      == pc = "overwriting" /\ Goto("resize")
             /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy, result >>)
Resize    == pc = "resize" /\ torn' = FALSE /\ file' = stage /\ Goto("next")
             /\ Same(<< plan, keep, ways, stage, temp, copy, result >>)

\* --- cleaning up
CleanTemp == pc = "clean" /\ temp # "none" /\ temp' = "none"
             /\ Same(<< plan, keep, ways, pc, stage, file, torn, copy, result >>)
CleanCopy == pc = "clean" /\ copy = "part" /\ copy' = "none"
             /\ Same(<< plan, keep, ways, pc, stage, file, torn, temp, result >>)
PutBack   == pc = "clean" /\ torn /\ torn' = FALSE
             /\ Same(<< plan, keep, ways, pc, stage, file, temp, copy, result >>)
Report    == pc = "clean" /\ temp = "none" /\ copy # "part" /\ ~torn
             /\ result' = "failed" /\ Goto("end")
             /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy >>)

NextStage == pc = "next" /\ stage < Len(ways) /\ stage' = stage + 1 /\ Goto("begin")
             /\ Same(<< plan, keep, ways, file, torn, temp, copy, result >>)
Finished  == pc = "next" /\ stage = Len(ways) /\ result' = "ok" /\ Goto("end")
             /\ Same(<< plan, keep, ways, stage, file, torn, temp, copy >>)

\* a file mapped into memory is written to without anything that could fail
Next == \/ (Fails /\ pc # "mapped")
        \/ MkTemp \/ Fill \/ MkBackup \/ FillBackup \/ Rename
        \/ Serialise \/ Map \/ Flush
        \/ ReadOld \/ Overwrite \/ More \/ Resize
        \/ CleanTemp \/ CleanCopy \/ PutBack \/ Report
        \/ NextStage \/ Finished
Spec == Init /\ [][Next]_vars

Scratches == (IF temp # "none" THEN 1 ELSE 0) + (IF copy = "part" THEN 1 ELSE 0)
U == INSTANCE Update WITH MaxScratch <- 2, at <- file, backup <- (copy = "whole"),
                          scratch <- Scratches
Refines == U!Spec
Inv == U!TypeOK /\ U!NeverTornByCopy /\ U!KeptBefore /\ U!Faithful
=============================================================================
