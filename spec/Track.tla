-------------------------------- MODULE Track --------------------------------
(* Histories of everything that changes tags -- commands and library calls -- *)
(* on one file with audio of some pieces.                                      *)
EXTENDS CommandGen

Pieces == { "frames", "id3", "tag", "tag+", "3di", "zeros", "ff", "nearly-v1", "nearly-ext", "big", "pad" }
Audio(h) == CASE Chance(h, 1, 8) -> <<>>
              [] Chance(h, 1, 3) -> << One(h, Pieces) >>
              [] OTHER -> << One(h, Pieces), One(h, Pieces), One(h, Pieces) >>

RandTags(h) == [ i \in 1..One(h, { 0, 1, 2 }) |-> RandTag(h, FALSE, i) ]
LibCmd(h) ==
  CASE Chance(h, 2, 4) -> [ cmd |-> "settags", api |-> One(h, { "copy", "full", "reduce" }),
                            how |-> One(h, { "never", "always", "needed" }), keep |-> Chance(h, 1, 4),
                            tags |-> RandTags(h) ]
    [] Chance(h, 1, 2) -> [ cmd |-> "setv1", v1 |-> FitV1(RandV1(h), Chance(h, 1, 2)) ]
    [] OTHER -> [ cmd |-> "cutv1" ]
LibApply(f, c) == CASE c.cmd = "settags" -> [ f EXCEPT !.v2 = c.tags ]
                    [] c.cmd = "setv1"   -> [ f EXCEPT !.v1 = << c.v1 >> ]
                    [] c.cmd = "cutv1"   -> [ f EXCEPT !.v1 = <<>> ]
                    [] OTHER -> f

VARIABLE audio
tvars == << vars, audio >>
TInit == Init /\ audio = <<>>
TStart == Start /\ \E a \in { Audio(hist) } : audio' = a
TCommand == Step /\ UNCHANGED audio
TLibrary == /\ stage = "run" /\ Len(hist) < MaxSteps
            /\ \E c \in { LibCmd(hist) } :
                 /\ file' = LibApply(file, c)
                 /\ hist' = Append(hist, [ c |-> c, file |-> file', valid |-> TRUE, changed |-> file' # file ])
            /\ UNCHANGED << start, stage, audio >>
TNext == TStart \/ TCommand \/ TLibrary \/ (Finish /\ UNCHANGED audio)
TSpec == TInit /\ [][TNext]_tvars
AudioStays == [][stage # "new" => audio' = audio]_tvars
TOut == stage = "done" => Emit([ start |-> start, hist |-> hist, audio |-> audio ])
=============================================================================
