----------------------------- MODULE CommandRun -----------------------------
(* Histories of tag-editing commands on one file.                              *)
EXTENDS Commands

CONSTANTS Files(_),     \* the files to start from
          Cmds(_, _),   \* the commands to choose from, given the start and what happened
          MaxSteps
VARIABLES file, hist, start, stage
vars == << file, hist, start, stage >>

None == [ v2 |-> <<>>, v1 |-> <<>> ]
Init == file = None /\ start = None /\ hist = <<>> /\ stage = "new"
Start == /\ stage = "new"
         /\ \E f \in Files(hist) : file' = f /\ start' = f
         /\ stage' = "run" /\ UNCHANGED hist
Run(c) == /\ file' = Apply(file, c)
          /\ hist' = Append(hist, [ c |-> c, file |-> file', valid |-> Valid(c),
                                    changed |-> file' # file ])
          /\ UNCHANGED << start, stage >>
Step == stage = "run" /\ Len(hist) < MaxSteps /\ \E c \in Cmds(start, hist) : Run(c)
Finish == /\ stage = "run" /\ Len(hist) = MaxSteps
          /\ stage' = "done" /\ UNCHANGED << file, hist, start >>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

Before(i) == IF i = 1 THEN start ELSE hist[i - 1].file
Held == hist # <<>> =>
          LET i == Len(hist)
              f == Before(i)
              c == hist[i].c
          IN OnlyInScope(f, c) /\ ForeignStay(f, c) /\ Idempotent(f, c) /\ DryChangesNothing(f, c)
Out == stage = "done" => Emit([ start |-> start, hist |-> hist ])
=============================================================================
