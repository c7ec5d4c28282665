-------------------------------- MODULE Batch --------------------------------
(* One command on a list of files and directories.  Files are found, then      *)
(* visited in any order; what is made of a file depends on that file alone.    *)
(* (A random choice must not come first in an action: TLC would make it once.) *)
(* `file' and `start' are trees here: what is at each path.                    *)
EXTENDS CommandGen

\* what is at a path: a file, or something that cannot be read as one
Good(f) == [ bad |-> FALSE, f |-> f ]
Bad == [ bad |-> TRUE, f |-> None ]

Paths == { "a.mp3", "b.mp3", "c c.txt", "d/a.mp3", "d/g", "d/e/f.mp3", "d/e/h.mp3", "w/z.mp3" }
Dirs == { "d", "d/e", "w", "empty" }
Below(d) == CASE d = "d"   -> { "d/a.mp3", "d/g", "d/e/f.mp3", "d/e/h.mp3" }
              [] d = "d/e" -> { "d/e/f.mp3", "d/e/h.mp3" }
              [] d = "w"   -> { "w/z.mp3" }
              [] OTHER -> {}
Gone == { "gone.mp3", "d/gone" }
\* arguments of which none is below another
Choices == { { "a.mp3", "b.mp3", "c c.txt", "d", "w", "empty", "gone.mp3" },
             { "a.mp3", "d/a.mp3", "d/e", "w/z.mp3", "d/gone" },
             { "c c.txt", "d/g", "d/e/f.mp3", "d/e/h.mp3", "b.mp3", "gone.mp3" } }
Edits(c) == c.cmd \in { "genre", "text", "popm", "xtag" }

VARIABLES args, cmd, todo, seen, failed
bvars == << vars, args, cmd, todo, seen, failed >>

Below2(t, a) == Below(a) \cap DOMAIN t
Found(t, a) == IF a \in DOMAIN t THEN { a } ELSE Below2(t, a)
Missing(t, a) == a \notin DOMAIN t /\ a \notin Dirs
MemberOf(p, s) == \E i \in 1..Len(s) : s[i] = p

BInit == /\ file = <<>> /\ start = <<>> /\ hist = <<>> /\ stage = "new"
         /\ args = <<>> /\ cmd = <<>> /\ todo = {} /\ seen = <<>> /\ failed = {}
Choose(t, as, c) ==
  /\ stage = "new" /\ stage' = "visit"
  /\ file' = t /\ start' = t /\ args' = as /\ cmd' = c
  /\ IF Edits(c) /\ ~Valid(c)
     THEN todo' = {} /\ failed' = {}
     ELSE /\ todo' = UNION { Found(t, as[i]) : i \in 1..Len(as) }
          /\ failed' = { as[i] : i \in { j \in 1..Len(as) : Missing(t, as[j]) } }
  /\ UNCHANGED << hist, seen >>
Effect(c, x) == IF x.bad \/ ~Edits(c) THEN x ELSE Good(Apply(x.f, c))
Visit(p) ==
  /\ stage = "visit" /\ p \in todo
  /\ file' = [ file EXCEPT ![p] = Effect(cmd, @) ]
  /\ failed' = IF file[p].bad THEN failed \cup { p } ELSE failed
  /\ todo' = todo \ { p }
  /\ seen' = [ q \in DOMAIN seen \cup { p } |-> (IF q \in DOMAIN seen THEN seen[q] ELSE 0) + (IF q = p THEN 1 ELSE 0) ]
  /\ UNCHANGED << hist, start, stage, args, cmd >>
Done == /\ stage = "visit" /\ todo = {}
        /\ stage' = "done" /\ UNCHANGED << file, hist, start, args, cmd, todo, seen, failed >>

\* -------------------------------------------------------------- properties
\* whatever the order, the outcome is that of running on each file alone
EachAlone == stage = "done" =>
  \A p \in DOMAIN start :
    file[p] = IF p \in DOMAIN seen THEN Effect(cmd, start[p]) ELSE start[p]
Once == \A p \in DOMAIN seen : seen[p] = 1
AllFound == stage = "done" /\ ~(Edits(cmd) /\ ~Valid(cmd)) =>
  \A p \in DOMAIN start : p \in DOMAIN seen <=> \E i \in 1..Len(args) : p \in Found(start, args[i])
BadStay == \A p \in DOMAIN start : start[p].bad => file[p] = start[p]
Quiet == stage # "new" => (~Edits(cmd) \/ cmd.dry => file = start)
BOut == stage = "done" =>
  Emit([ start |-> start, file |-> file, args |-> args, cmd |-> cmd, seen |-> DOMAIN seen, failed |-> failed,
         valid |-> ~Edits(cmd) \/ Valid(cmd) ])

\* ------------------------------------------------- everything in small scope
SmallTrees == LET F1 == [ v2 |-> << SmallTag(3, 1) >>, v1 |-> << SmallV1 >> ]
              IN UNION { [ P -> { Good(F1), Good(None), Bad } ] : P \in SUBSET { "a.mp3", "d/g", "d/e/f.mp3", "w/z.mp3" } }
SmallArgs == { << "a.mp3" >>, << "d" >>, << "d", "a.mp3" >>, << "gone.mp3", "w", "d" >>, << "empty", "d/e", "a.mp3", "d/g" >> }
SmallEdits == { TextCmd([ TIT2 |-> "New title" ], {}) @@ Base, PopmCmd("both", << "me" >>, << 200 >>, "add", N(1)) @@ Base,
                XtagCmd("me", [ k |-> { "w" } ], FALSE, FALSE) @@ [ b |-> TRUE ] @@ Base }
BSmall == \E t \in SmallTrees, as \in SmallArgs, c \in SmallEdits : Choose(t, as, c)
BVisit == \E p \in todo : Visit(p)
SmallSpec == BInit /\ [][BSmall \/ BVisit \/ Done]_bvars

\* ------------------------------------------------------------ random choices
RandTree(h) == [ p \in One(h, SUBSET Paths) |-> IF Chance(h, 2, 10) THEN Bad ELSE Good(RandFile(h, FALSE)) ]
RandOrder(h, S) == One(h, { f \in [ 1..Cardinality(S) -> S ] : \A i, j \in 1..Cardinality(S) : f[i] = f[j] => i = j })
RandArgs(h) == LET S == One(h, Choices)
                   T == One(h, { U \in SUBSET S : Cardinality(U) \in 1..5 })
               IN RandOrder(h, T)
RandEdit(h) == RandCmd(h, One(h, { "genre", "text", "popm", "xtag" }), FALSE)
RandDry(h) == [ RandCmd(h, One(h, { "genre", "popm", "xtag" }), FALSE) EXCEPT !.dry = TRUE ]
\* commands that only report: options that are given, by letter
DumpOpts == { "1", "D", "2", "g", "f csv", "f standard", "i 7", "m 2", "m 0", "c UTF-8" }
ReportOpts == { "c 0", "c 9", "t", "a", "d", "S", "1 UTF-8" }
M3uOpts == { "v", "8", "e ignore", "e transliterate", "s CP1252", "a" }
RenameOpts == { "v", "r", "o", "t %A", "t %T/%A.mp3", "t same.mp3" }
RandReport(h) ==
  CASE Chance(h, 1, 3) -> [ cmd |-> "dump", opts |-> One(h, SUBSET DumpOpts), dry |-> FALSE ]
    [] Chance(h, 1, 3) -> [ cmd |-> "report", opts |-> One(h, SUBSET ReportOpts), dry |-> FALSE ]
    [] Chance(h, 1, 2) -> [ cmd |-> "m3u", opts |-> One(h, SUBSET M3uOpts), dry |-> FALSE ]
    [] Chance(h, 6, 7) -> [ cmd |-> "rename", opts |-> One(h, SUBSET RenameOpts), dry |-> TRUE ]
    [] OTHER -> [ cmd |-> One(h, { "encodings", "help" }), opts |-> {}, dry |-> FALSE ]
BRandEdit == /\ stage = "new"
             /\ \E t \in { RandTree(stage) }, as \in { RandArgs(stage) }, c \in { RandEdit(stage) } : Choose(t, as, c)
BRandDump == /\ stage = "new"
             /\ \E t \in { RandTree(stage) }, as \in { RandArgs(stage) } :
                   Choose(t, as, [ cmd |-> "dump", opts |-> {}, dry |-> FALSE ])
BRandQuiet == /\ stage = "new"
              /\ \E t \in { RandTree(stage) }, as \in { RandArgs(stage) },
                    c \in { IF Chance(stage, 1, 3) THEN RandDry(stage) ELSE RandReport(stage) } :
                   Choose(t, as, c)
RandEditSpec == BInit /\ [][BRandEdit \/ BVisit \/ Done]_bvars
RandDumpSpec == BInit /\ [][BRandDump \/ BVisit \/ Done]_bvars
RandQuietSpec == BInit /\ [][BRandQuiet \/ BVisit \/ Done]_bvars
=============================================================================
