----------------------------- MODULE Invocation -----------------------------
(* Command lines.  The program reads its own options up to the name of a       *)
(* sub-command or of a script (or an expression); everything after that is for *)
(* the sub-command or the script.  A command line is put together with a       *)
(* meaning in mind, then read word by word; TLC checks that the reading is     *)
(* what was meant.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOpts,   \* options before the name
          MaxExtra   \* arguments after it

Emit(h) == PrintT("@@" \o ToJson(h))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
SeqsUpTo(S, n) == UNION { [ 1..k -> S ] : k \in 0..n }
Sub(s, i) == SubSeq(s, i, Len(s))

\* --- the program's own words
Quiet == { "-q", "--no-auto-compile", "--no-debug", "--use-srfi=1" }
Info  == { "-h", "-v", "--version" }
Valued == { "-L", "-l", "-e", "-C", "-x" }
Unknown == { "-Z", "--hepl", "-versio", "--Version", "-1" }
Cmds == { "dump", "encodings", "genre", "m3u", "popm", "rename", "report", "split", "text", "xtag" }

Opts == { << q >> : q \in { "-q", "--no-debug", "--use-srfi=1" } } \cup { << "-h" >>, << "-v" >>, << "--version" >> }
        \cup { << "-L", "mods" >>, << "-l", "one.scm" >>, << "-l", "two.scm" >>, << "-x", ".foo" >> }
Extras == { "a", "-h", "-v", "-Z", "--", "", "b c", "-s", "dump", "-l", "--version" }

\* --- sub-commands: what each can be told (FILE stands for a file), and mistakes
Right(c) ==
  CASE c = "dump"      -> << << "FILE" >> >>
    [] c = "encodings" -> << >>
    [] c = "genre"     -> << << "-w", "17" >>, << "FILE" >> >>
    [] c = "m3u"       -> << << "-o", "OUT" >>, << "FILE" >> >>
    [] c = "popm"      -> << << "-C", "7" >>, << "FILE" >> >>
    [] c = "rename"    -> << << "-t", "new" >>, << "FILE" >> >>
    [] c = "report"    -> << << "-o", "OUT" >>, << "FILE" >> >>
    [] c = "split"     -> << << "FILE" >> >>
    [] c = "text"      -> << << "-T", "words" >>, << "FILE" >> >>
    [] c = "xtag"      -> << << "-m" >>, << "-T", "k=v" >>, << "FILE" >> >>
\* options without their values
Bare(c) == CASE c \in { "genre" } -> { "-w", "-t", "-G" } [] c = "popm" -> { "-C", "-i", "-t", "-o" }
             [] c = "rename" -> { "-t" } [] c \in { "report", "m3u" } -> { "-o" }
             [] c = "text" -> { "-T", "-a", "-t" } [] c = "xtag" -> { "-T", "-t", "-o" }
             [] OTHER -> {}
Twice(v) == { << "--create-" \o v, "--always-create-" \o v >>, << "--always-create-" \o v, "--create-" \o v >> }
\* values that make no sense, or options that contradict the others
Odd(c) == CASE c = "dump" -> { << "-i", "x" >>, << "-i", "-3" >>, << "--num-comments=-1" >>, << "--num-comments=2x" >> }
            [] c = "genre" -> { << "-t", "x" >>, << "--tag=-1" >>, << "-g", "Rock" >>, << "--v1=256" >>, << "--v1=x" >>,
                                << "-1", "-2" >>, << "-1", "-t", "0" >>, << "-G", "Doom" >>, << "-g", "Rock", "-G", "Doom" >> } \cup Twice("v1") \cup Twice("v2")
            [] c = "popm" -> { << "-t", "x" >>, << "--tag=-1" >>, << "-i", "x" >>, << "-i-1" >>, << "--increment=-4" >>,
                               << "-r", "256" >>, << "-r", "-1" >>, << "-r", "******" >>,
                               << "-i", "2" >>, << "--playcount-only", "--popularimeter-only" >> } \cup Twice("v2")
            [] c = "report" -> { << "-c", "x" >>, << "--num-comments=-1" >> }
            [] c \in { "text", "xtag" } -> { << "-t", "x" >>, << "--tag=-1" >>, << "--tag=1.5" >> } \cup Twice("v2")
            [] OTHER -> {}
\* what lacks something besides
Short(c) == CASE c = "genre" -> { << "FILE" >>, << "-1", "FILE" >> }
              [] c = "m3u" -> { << "--append", "FILE" >>, << "--use-utf8", "FILE" >> }
              [] c = "xtag" -> { << "FILE" >>, << "-m", "FILE" >> }
              [] OTHER -> {}
Files(c) == c # "encodings"
WithoutFile(s) == SelectSeq(s, LAMBDA g : g # << "FILE" >>)
Insert(s, i, g) == SubSeq(s, 1, i) \o << g >> \o Sub(s, i + 1)

\* what may follow the name of a sub-command, and what is to come of it
Told(c) ==
  LET r == Right(c) n == Len(r) IN
  { [ words |-> Flat(r), what |-> "done" ] }
  \cup { [ words |-> Flat(Insert(r, i, << "-h" >>)), what |-> "usage" ] : i \in 0..n }
  \cup { [ words |-> Flat(Insert(r, i, << b >>)), what |-> "refused" ] : i \in 0..n, b \in { "-Z", "--hepl" } }
  \cup { [ words |-> Flat(Insert(r, i, g)), what |-> "refused" ] : i \in 0..n, g \in Odd(c) }
  \cup { [ words |-> Flat(r) \o << b >>, what |-> "refused" ] : b \in Bare(c) }
  \cup { [ words |-> w, what |-> "refused" ] : w \in Short(c) }
  \cup (IF Files(c) THEN { [ words |-> Flat(WithoutFile(r)), what |-> "refused" ] } ELSE {})

\* --- meanings: options, then one of these
\* (an expression, EXPR, and the scripts tell what they were called with)
Meant == UNION { { [ kind |-> "command", name |-> c, words |-> t.words, what |-> t.what ] : t \in Told(c) } : c \in Cmds }
Scripts == { [ kind |-> k, name |-> n, words |-> x, what |-> "run" ] :
             k \in { "file", "-s" }, n \in { "s.scm" }, x \in SeqsUpTo(Extras, MaxExtra) }
           \cup { [ kind |-> "-s", name |-> "-odd.scm", words |-> x, what |-> "run" ] : x \in SeqsUpTo(Extras, MaxExtra) }
           \cup { [ kind |-> "-c", name |-> "EXPR", words |-> x, what |-> "run" ] : x \in SeqsUpTo(Extras, MaxExtra) }
Mistakes == { [ kind |-> "bad", name |-> "", words |-> << b >> \o x, what |-> "refused" ] :
              b \in Unknown, x \in { <<>>, << "s.scm" >>, << "genre", "-w", "17", "FILE" >>, << "-c", "EXPR" >> } }
            \cup { [ kind |-> "bad", name |-> "", words |-> << b >>, what |-> "refused" ] : b \in Valued \cup { "-s", "-c" } }
Nothing == { [ kind |-> "none", name |-> "", words |-> <<>>, what |-> "none" ] }

Words(m) == CASE m.kind \in { "command", "file" } -> << m.name >> \o m.words
              [] m.kind \in { "-s", "-c" } -> << m.kind, m.name >> \o m.words
              [] OTHER -> m.words
Asked(os) == { os[i][1] : i \in 1..Len(os) } \cap Info
Loads(os) == LET l == SelectSeq(os, LAMBDA o : o[1] = "-l") IN [ i \in 1..Len(l) |-> l[i][2] ]
Paths(os) == { os[i][2] : i \in { j \in 1..Len(os) : os[j][1] = "-L" } }

\* -------------------------------------------------------------- the machine
VARIABLES opts, meant,          \* the command line as it was put together
          args, got, done       \* what is left of it, and what has been made of it
vars == << opts, meant, args, got, done >>
NoGot == [ info |-> {}, loads |-> <<>>, paths |-> {}, end |-> "", name |-> "", rest |-> <<>> ]

Begin(O, M) == /\ opts \in O /\ meant \in M
               /\ (meant.kind = "none") => (Asked(opts) # {})     \* otherwise there is a dialogue
               /\ args = Flat(opts) \o Words(meant) /\ got = NoGot /\ done = FALSE

Ends(e, n, r) == /\ got' = [ got EXCEPT !.end = e, !.name = n, !.rest = r ] /\ done' = TRUE
                 /\ args' = <<>> /\ UNCHANGED << opts, meant >>
Goes(g, n) == /\ got' = g /\ args' = Sub(args, n + 1) /\ UNCHANGED << opts, meant, done >>
Read ==
  IF args = <<>> THEN Ends("none", "", <<>>) ELSE
  LET a == args[1] v == IF Len(args) > 1 THEN args[2] ELSE "" IN
  CASE a \in Quiet -> Goes(got, 1)
    [] a \in Info -> Goes([ got EXCEPT !.info = @ \cup { a } ], 1)
    [] a \in Valued \cup { "-s", "-c" } /\ Len(args) = 1 -> Ends("bad", "", args)
    [] a = "-l" /\ Len(args) > 1 -> Goes([ got EXCEPT !.loads = Append(@, v) ], 2)
    [] a = "-L" /\ Len(args) > 1 -> Goes([ got EXCEPT !.paths = @ \cup { v } ], 2)
    [] a \in { "-e", "-C", "-x" } /\ Len(args) > 1 -> Goes(got, 2)
    [] a \in { "-s", "-c" } /\ Len(args) > 1 -> Ends(a, v, Sub(args, 3))
    [] a \in Cmds -> Ends("command", a, Sub(args, 2))
    [] a \in Unknown -> Ends("bad", "", args)
    [] OTHER -> Ends("file", a, Sub(args, 2))
Next == ~done /\ Read

Small == SeqsUpTo(Opts, 1)
SmallSpec == Begin(Small, Meant \cup Scripts \cup Mistakes \cup Nothing) /\ [][Next]_vars
LongSpec == Begin(SeqsUpTo(Opts, MaxOpts), Nothing
                  \cup { m \in Scripts : m.words = << "-h", "a" >> } \cup { m \in Mistakes : Len(m.words) = 1 }
                  \cup { m \in Meant : m.name \in { "text", "dump" } /\ m.what = "done" }) /\ [][Next]_vars

\* --- properties
Agrees == done => /\ got.end = meant.kind /\ got.info = Asked(opts)
                  /\ got.loads = Loads(opts) /\ got.paths = Paths(opts)
                  /\ (meant.kind \in { "command", "file", "-s", "-c" }) => (got.name = meant.name /\ got.rest = meant.words)
\* asked for information, the program gives that and does nothing else
Outcome == IF got.info # {} THEN "info" ELSE meant.what

Out == done => Emit([ args |-> Flat(opts) \o Words(meant), info |-> got.info, loads |-> got.loads, paths |-> got.paths,
                      kind |-> got.end, name |-> got.name, rest |-> got.rest, what |-> Outcome ])
=============================================================================
