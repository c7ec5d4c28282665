----------------------------- MODULE Playlist -----------------------------
(* Playlists: a heading, then one entry per track, in the order the tracks    *)
(* were given.  A playlist file goes through a history of commands, each      *)
(* starting it afresh or appending to it.                                     *)
EXTENDS Bytes

None == "-"                      \* no such field
\* a tag: [artist, title]; a file: [v2: sequence of tags, v1: <<>> or << tag >>,
\* audio: what is between the tags, bad: whether its tags are malformed]
Has2(t)  == t.artist # None /\ t.title # None /\ t.artist # "" /\ t.title # ""
Named(t) == t.artist \o " - " \o t.title
Tags(f)  == f.v2 \o f.v1
Firsts(f) == { i \in 1..Len(Tags(f)) : Has2(Tags(f)[i]) }
\* fields of distinct tags don't make a title, but nothing says they mustn't
Mixed(f) == { a.artist \o " - " \o b.title :
                a \in { Tags(f)[i] : i \in { j \in 1..Len(Tags(f)) : (Tags(f)[j]).artist \notin { None, "" } } },
                b \in { Tags(f)[i] : i \in { j \in 1..Len(Tags(f)) : (Tags(f)[j]).title \notin { None, "" } } } }
Titles(f, stem) ==
  IF Firsts(f) # {} THEN { Named(Tags(f)[CHOOSE i \in Firsts(f) : \A j \in Firsts(f) : i <= j]) }
  ELSE { stem } \cup Mixed(f)

\* ------------------------------------------------------------------- files
Pl(d, s, x) == [ d |-> d, stem |-> s, ext |-> x ]
Path(p) == (IF p.d = "" THEN "" ELSE p.d \o "/") \o p.stem \o p.ext
Places == { Pl("", "a", ".mp3"), Pl("", "b c", ".mp3"), Pl("", "x.y", ".mp3"), Pl("", "plain", ""), Pl("", "t", ".tag"),
            Pl("d", "e", ".mp3"), Pl("d", "f - g", ".mp3"), Pl("d/s", "`h", ".mp3"), Pl("d/s", "i", ".mp3") }
Dirs == { "d", "d/s" }
Under(dir, d) == dir = d \/ (dir = "d" /\ d = "d/s")
Found(fs, a) == IF a \in Dirs THEN { p \in DOMAIN fs : Under(a, p.d) } ELSE { p \in DOMAIN fs : Path(p) = a }

\* ---------------------------------------------------------------- playlists
Head1 == [ k |-> "head", p |-> "" ]
Other(i) == [ k |-> "other", p |-> ToString(i) ]
Entry(p) == [ k |-> "entry", p |-> Path(p) ]

VARIABLES
  files,    \* place -> file
  list,     \* the playlist's lines
  cmd,      \* the command being run: [args, out: "stdout", "new", "append"]
  said,     \* what it has written so far
  left,     \* for each argument not yet dealt with, the files still to be listed
  hist,     \* the commands that have been run
  stage
vars == << files, list, cmd, said, left, hist, stage >>

Init == files = <<>> /\ list = <<>> /\ cmd = <<>> /\ said = <<>> /\ left = <<>> /\ hist = <<>> /\ stage = "new"
Given(fs, l) == stage = "new" /\ files' = fs /\ list' = l /\ stage' = "idle" /\
                hist' = << [ args |-> <<>>, out |-> "given", list |-> l, said |-> <<>>, failed |-> FALSE ] >> /\ UNCHANGED << cmd, said, left >>
Begin(c) ==
  /\ stage = "idle"
  /\ cmd' = c /\ left' = [ i \in 1..Len(c.args) |-> Found(files, c.args[i]) ] /\ said' = <<>>
  /\ list' = CASE c.out = "stdout" -> list
               [] c.out = "new" -> << Head1 >>
               [] c.out = "append" -> IF list = <<>> THEN << Head1 >> ELSE list
  /\ stage' = "run" /\ UNCHANGED << files, hist >>
Listed(p) ==
  IF (files[p]).bad THEN UNCHANGED << list, said >>
  ELSE /\ said' = Append(said, Path(p))
       /\ list' = IF cmd.out = "stdout" THEN list ELSE Append(list, Entry(p))
ListOne ==
  /\ stage = "run" /\ left # <<>>
  /\ IF Head(left) = {} THEN left' = Tail(left) /\ UNCHANGED << list, said >>
     ELSE \E p \in Head(left) : Listed(p) /\ left' = << Head(left) \ { p } >> \o Tail(left)
  /\ UNCHANGED << files, cmd, hist, stage >>
Failed(c) == \E i \in 1..Len(c.args) : (Found(files, c.args[i]) = {} /\ c.args[i] \notin Dirs)
             \/ \E p \in Found(files, c.args[i]) : (files[p]).bad
Finish ==
  /\ stage = "run" /\ left = <<>>
  /\ hist' = Append(hist, [ args |-> cmd.args, out |-> cmd.out, list |-> list, said |-> said, failed |-> Failed(cmd) ])
  /\ stage' = "idle" /\ UNCHANGED << files, list, cmd, said, left >>
Close(n) == stage = "idle" /\ Len(hist) > n /\ stage' = "done" /\ UNCHANGED << files, list, cmd, said, left, hist >>

\* -------------------------------------------------------------- properties
Heads(l) == { i \in 1..Len(l) : l[i].k = "head" }
\* a heading, if any, comes first and only once, unless someone else wrote it
OneHeading == Heads(list) \subseteq { 1 }
\* appending keeps what was there
Appends == [][ (stage = "run" /\ list' # list) => /\ Len(list') = Len(list) + 1
                                                  /\ SubSeq(list', 1, Len(list)) = list ]_vars
KeptByAppend ==
  \A i \in 2..Len(hist) : LET was == hist[i - 1].list IN
    /\ hist[i].out = "append" => SubSeq(hist[i].list, 1, Len(was)) = was
    /\ hist[i].out = "stdout" => hist[i].list = was
    /\ hist[i].out = "new" => hist[i].list = << Head1 >> \o [ j \in 1..Len(hist[i].said) |-> [ k |-> "entry", p |-> hist[i].said[j] ] ]
\* every file given is listed as often as it is given
EachGiven ==
  \A i \in 2..Len(hist) : \A p \in DOMAIN files :
    LET n == Cardinality({ j \in 1..Len(hist[i].said) : hist[i].said[j] = Path(p) })
    IN n = IF (files[p]).bad THEN 0 ELSE Cardinality({ j \in 1..Len(hist[i].args) : p \in Found(files, hist[i].args[j]) })

Out == stage = "done" =>
  Emit([ files |-> { [ path |-> Path(p), f |-> files[p], titles |-> Titles(files[p], p.stem) ] : p \in DOMAIN files },
         steps |-> [ i \in 1..Len(hist) |->
           [ args |-> hist[i].args, out |-> hist[i].out, failed |-> hist[i].failed, list |-> hist[i].list,
             groups |-> [ j \in 1..Len(hist[i].args) |-> { Path(p) : p \in Found(files, hist[i].args[j]) } ] ] ] ])

\* ------------------------------------------------------------------ choices
T(a, t) == [ artist |-> a, title |-> t ]
Cmds(A) == [ args : A, out : { "stdout", "new", "append" } ]
Olds == { <<>>, << Head1 >>, << Head1, Other(1) >>, << Other(1), Other(2) >> }
Step(S) == (\E c \in S : Begin(c)) \/ ListOne \/ Finish
\* every way a title may be made up
Fields == { None, "", "A1" }
TitleFiles ==
  { [ v2 |-> v2, v1 |-> v1, audio |-> 1, bad |-> FALSE ] :
      v2 \in { <<>> } \cup { << T(a, b) >> : a \in Fields, b \in { None, "", "T1" } }
             \cup { << T(a, b), T("A2", "T2") >> : a \in Fields, b \in { None, "", "T1" } },
      v1 \in { <<>> } \cup { << T(a, b) >> : a \in { "", "A3" }, b \in { "", "T3" } } }
TitleSpec == Init /\ [][\/ (stage = "new" /\ \E f \in TitleFiles : Given((Pl("", "x.y", ".mp3") :> f), <<>>))
                        \/ (Len(hist) < 2 /\ \E c \in Cmds({ << "x.y.mp3" >> }) : c.out = "stdout" /\ Begin(c))
                        \/ ListOne \/ Finish \/ Close(1)]_vars
\* every short history
SmallFile(n) == [ v2 |-> << T("A" \o n, "T" \o n) >>, v1 |-> <<>>, audio |-> 2, bad |-> FALSE ]
SmallFiles == (Pl("", "a", ".mp3") :> SmallFile("1")) @@ (Pl("d", "e", ".mp3") :> SmallFile("2")) @@
              (Pl("d", "f - g", ".mp3") :> [ SmallFile("3") EXCEPT !.bad = TRUE ])
SmallArgs == { << "a.mp3" >>, << "d" >>, << "a.mp3", "d/e.mp3" >>, << "d/e.mp3", "gone", "a.mp3" >>, << "a.mp3", "a.mp3" >>, << "d", "a.mp3" >> }
SmallSpec == Init /\ [][\/ (stage = "new" /\ \E l \in Olds : Given(SmallFiles, l))
                        \/ (Len(hist) < 3 /\ \E c \in Cmds(SmallArgs) : Begin(c))
                        \/ ListOne \/ Finish \/ Close(2)]_vars
\* longer ones, of anything
One(h, S) == RandomElement(S)
Texts == { "A", "Artist", "The `", "a - b", "line\nbreak", "c\r\nd", "#x", "comma, too", "[]", "x" }
MayBe(h, S) == IF One(h, 1..6) = 1 THEN None ELSE IF One(h, 1..8) = 1 THEN "" ELSE One(h, S)
RandTag(h) == T(MayBe(h, Texts), MayBe(h, Texts))
RandV1(h) == T(One(h, Texts \cup { "" }), One(h, Texts \cup { "" }))
RandFile(h) == [ v2 |-> [ i \in 1..One(h, { 0, 1, 1, 2, 3 }) |-> RandTag(i) ], v1 |-> IF One(h, 1..2) = 1 THEN << RandV1(h) >> ELSE <<>>,
                 audio |-> One(h, 1..9), bad |-> One(h, 1..10) = 1 ]
RandFiles(h) == [ p \in One(h, { S \in SUBSET Places : Cardinality(S) \in 1..6 }) |-> RandFile(p) ]
RandArgs(h) == LET as == { Path(p) : p \in DOMAIN files } \cup Dirs \cup (IF One(h, 1..5) = 1 THEN { "gone" } ELSE {})
               IN [ i \in 1..One(h, { 1, 1, 2, 3, 4, 6 }) |-> One(i, as) ]
RandCmd(h) == [ args |-> RandArgs(h), out |-> One(h, { "stdout", "new", "append", "append" }) ]
RandSpec == Init /\ [][\/ (stage = "new" /\ \E fs \in { RandFiles(stage) }, l \in { One(stage, Olds) } : Given(fs, l))
                       \/ (stage = "idle" /\ Len(hist) < 4 /\ \E c \in { RandCmd(hist) } : Begin(c))
                       \/ ListOne \/ Finish \/ (stage = "idle" /\ Len(hist) = 4 /\ Close(1))]_vars
=============================================================================
