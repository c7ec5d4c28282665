------------------------------- MODULE Report -------------------------------
(* Reports: a header and a row for each file found, written in a format that   *)
(* can be parsed again.  In texts "`" stands for a letter of ISO-8859-1 beyond *)
(* ASCII and "^" for one beyond ISO-8859-1; cells "#..." for what only the     *)
(* harness knows.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Bytes

\* ----------------------------------------------------------------- formats
At(s, i) == SubSeq(s, i, i)
Chars(s) == [ i \in 1..Len(s) |-> At(s, i) ]
RECURSIVE Glue(_, _)
Glue(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Glue(Tail(ss), sep)
Join(cs) == Glue(cs, "")
Holds(s, C) == \E i \in 1..Len(s) : At(s, i) \in C
Q == "\""
Breaks == { "\n", "\r" }
Sep(fmt) == CASE fmt = "csv" -> "," [] fmt = "tsv" -> "\t" [] fmt = "ascii" -> "\f"      \* (\f for unit separator)
\* what can be got back
Kept(fmt, s) == IF fmt = "csv" THEN s
                ELSE Join([ i \in 1..Len(s) |-> IF At(s, i) \in Breaks \cup { Sep(fmt) } THEN " " ELSE At(s, i) ])
Cell(fmt, s) == IF fmt # "csv" THEN Kept(fmt, s)
                ELSE IF Holds(s, { Sep(fmt), Q } \cup Breaks)
                     THEN Q \o Join([ i \in 1..Len(s) |-> IF At(s, i) = Q THEN Q \o Q ELSE At(s, i) ]) \o Q
                     ELSE s
Line(fmt, row) == Glue([ i \in 1..Len(row) |-> Cell(fmt, row[i]) ], Sep(fmt)) \o "\n"
Render(fmt, rows) == Join([ i \in 1..Len(rows) |-> Line(fmt, rows[i]) ])
\* RFC 4180, a character at a time: st in start, plain, quoted, quote (seen in quoted)
P0 == [ rows |-> <<>>, row |-> <<>>, cell |-> "", st |-> "start" ]
EndCell(p) == [ p EXCEPT !.row = Append(p.row, p.cell), !.cell = "", !.st = "start" ]
EndRow(p) == LET e == EndCell(p) IN [ e EXCEPT !.rows = Append(e.rows, e.row), !.row = <<>> ]
Char(fmt, p, c) ==
  CASE p.st = "bad" -> p
    [] p.st = "quoted" -> IF c = Q THEN [ p EXCEPT !.st = "quote" ] ELSE [ p EXCEPT !.cell = p.cell \o c ]
    [] p.st = "quote" /\ c = Q -> [ p EXCEPT !.cell = p.cell \o Q, !.st = "quoted" ]
    [] c = Sep(fmt) -> EndCell(p)
    [] c = "\n" -> EndRow(p)
    [] fmt = "csv" /\ p.st = "start" /\ c = Q -> [ p EXCEPT !.st = "quoted" ]
    [] fmt = "csv" /\ (p.st = "quote" \/ c = Q \/ c = "\r") -> [ p EXCEPT !.st = "bad" ]
    [] OTHER -> [ p EXCEPT !.cell = p.cell \o c, !.st = "plain" ]
Parse(fmt, s) == Fold(LAMBDA p, c : Char(fmt, p, c), P0, Chars(s))

\* ------------------------------------------------------------------- files
\* f: v2 (<< >> or << tag >>), v1 likewise, bad
TextFields == << "artist", "title", "album", "genre", "encoded", "year", "lang" >>
V1Fields == << "artist", "title", "album", "year", "comment" >>
Number(n) == ToString(n)
Flag(b) == IF b THEN "1" ELSE "0"
Counts(cs) == CASE cs = <<>> -> "" [] Len(cs) = 1 -> Number(cs[1]) [] OTHER -> "*"
V2Cells(f, n) ==
  IF f.v2 = <<>> THEN Rep("", 15 + n)
  ELSE LET t == f.v2[1]
       IN << Number(t.ver), "0", "#id3size", "#flags", "#unsync" >> \o [ i \in 1..7 |-> t[TextFields[i]] ] \o
          << Number(Len(t.counts)), Counts(t.counts), Number(Len(t.comments)) >> \o
          [ i \in 1..n |-> IF i <= Len(t.comments) THEN t.comments[i] ELSE "" ]
V1Cells(f) ==
  IF f.v1 = <<>> THEN Rep("", 8)
  ELSE LET t == f.v1[1] IN << Flag(t.track), Flag(t.ext) >> \o [ i \in 1..5 |-> t[V1Fields[i]] ] \o << Number(t.genre) >>
Row(c, p) == (IF c.nodir THEN <<>> ELSE << "#dir " \o p.d >>) \o << p.n, "#mb" >> \o V2Cells(c.files[p], c.ncomm) \o
             << "#size", "#md5" >> \o V1Cells(c.files[p])
Columns(c) == (IF c.nodir THEN 0 ELSE 1) + 2 + 15 + c.ncomm + 2 + 8

\* --------------------------------------------------------------- reporting
Pl(d, n, m) == [ d |-> d, n |-> n, mp3 |-> m ]
Path(p) == IF p.d = "" THEN p.n ELSE p.d \o "/" \o p.n
OddDir == "x, \"y\" "
Places == { Pl("", "a.mp3", TRUE), Pl("", "q\"x\".mp3", TRUE), Pl("", "\"w\"", FALSE), Pl("", "c,d.mp3", TRUE), Pl("d", "t\tb.mp3", TRUE),
            Pl("d", "n\nl.mp3", TRUE), Pl("d", "b\\s\\.mp3", TRUE), Pl("d", "other.ogg", FALSE), Pl("d", "x..mp3", TRUE), Pl("d/e", "y.mp3.bak", FALSE), Pl("d/e", "f.mp3", TRUE),
            Pl(OddDir, "g.mp3", TRUE), Pl(OddDir, "`h.mp3", TRUE) }
Dirs == { "d", "d/e", OddDir }
Under(dir, d) == dir = d \/ (dir = "d" /\ d = "d/e")
Found(c, a) == IF a \in Dirs THEN { p \in DOMAIN c.files : Under(a, p.d) /\ p.mp3 } ELSE { p \in DOMAIN c.files : Path(p) = a }
Left(c, d) == LET n == { i \in 1..Len(c.args) : Found(c, c.args[i]) \ d # {} }
              IN IF n = {} THEN {} ELSE Found(c, c.args[CHOOSE i \in n : \A j \in n : i <= j]) \ d
VARIABLES cfg, rows, seen, failed, stage
vars == << cfg, rows, seen, failed, stage >>
Init == cfg = <<>> /\ rows = <<>> /\ seen = {} /\ failed = {} /\ stage = "new"
Start(c) == stage = "new" /\ stage' = "visit" /\ cfg' = c /\ UNCHANGED << rows, seen, failed >>
Visit == /\ stage = "visit"
         /\ \E p \in Left(cfg, seen) :
              /\ seen' = seen \cup { p }
              /\ IF (cfg.files[p]).bad THEN failed' = failed \cup { Path(p) } /\ UNCHANGED rows
                 ELSE rows' = Append(rows, Row(cfg, p)) /\ UNCHANGED failed
         /\ UNCHANGED << cfg, stage >>
End == stage = "visit" /\ Left(cfg, seen) = {} /\ stage' = "done" /\ UNCHANGED << cfg, rows, seen, failed >>

\* -------------------------------------------------------------- properties
Same == \A i \in 1..Len(rows) : Len(rows[i]) = Columns(cfg)
Faithful == stage = "done" =>
  LET p == Parse(cfg.fmt, Render(cfg.fmt, rows))
  IN /\ p.st = "start" /\ p.row = <<>>
     /\ p.rows = [ i \in 1..Len(rows) |-> [ j \in 1..Len(rows[i]) |-> Kept(cfg.fmt, rows[i][j]) ] ]
EachOnce == stage = "done" => Len(rows) + Cardinality(failed) = Cardinality(UNION { Found(cfg, cfg.args[i]) : i \in 1..Len(cfg.args) })
\* an argument's rows, in some order
Groups(c) == [ i \in 1..Len(c.args) |->
                 { [ path |-> Path(p), row |-> [ j \in 1..Columns(c) |-> Kept(c.fmt, Row(c, p)[j]) ] ] :
                     p \in { q \in Found(c, c.args[i]) : ~(c.files[q]).bad } } ]
Out == stage = "done" =>
  Emit([ files |-> { [ path |-> Path(p), f |-> cfg.files[p] ] : p \in DOMAIN cfg.files }, args |-> cfg.args, ncomm |-> cfg.ncomm,
         fmt |-> cfg.fmt, nodir |-> cfg.nodir, columns |-> Columns(cfg), groups |-> Groups(cfg), failed |-> failed ])

\* ------------------------------------------------------------------ choices
NoText == [ ver |-> 3, artist |-> "", title |-> "", album |-> "", genre |-> "", encoded |-> "", year |-> "", lang |-> "",
            counts |-> <<>>, comments |-> <<>> ]
NoV1 == [ artist |-> "", title |-> "", album |-> "", year |-> "", comment |-> "", genre |-> 255, track |-> FALSE, ext |-> FALSE ]
Good(v2, v1) == [ v2 |-> v2, v1 |-> v1, bad |-> FALSE ]
\* every short text over the characters that matter, in every kind of cell
Odd == { "a", ",", "\"", "\n", "\r", "\t", "\f", " " }
Trim(s) == At(s, Len(s)) # " "                     \* trailing blanks carry no meaning
OddTexts == { x \in { Join(s) : s \in UNION { [ 1..k -> Odd ] : k \in 1..2 } } : Trim(x) }
SmallFiles == { Good(<< [ NoText EXCEPT !.title = x, !.ver = v ] >>, <<>>) : x \in OddTexts, v \in { 2, 3, 4 } } \cup
              { Good(<< [ NoText EXCEPT !.comments = << "x", x >> ] >>, <<>>) : x \in OddTexts } \cup
              { Good(<<>>, << [ NoV1 EXCEPT !.album = x ] >>) : x \in OddTexts }
SmallCfgs == { [ files |-> (Pl("", "a.mp3", TRUE) :> f), args |-> << "a.mp3" >>, ncomm |-> 2, fmt |-> t, nodir |-> TRUE ] :
                 f \in SmallFiles, t \in { "csv", "tsv", "ascii" } }
\* every name, number of comments and presence of tags
Full2 == [ ver |-> 4, artist |-> "A", title |-> "T", album |-> "L", genre |-> "G", encoded |-> "E", year |-> "1990", lang |-> "eng",
           counts |-> << 26 >>, comments |-> << "c1", "c,2" >> ]
Full1 == [ artist |-> "a1", title |-> "t1", album |-> "l1", year |-> "2001", comment |-> "k1", genre |-> 12, track |-> TRUE, ext |-> TRUE ]
ShapeCfgs == { [ files |-> (p :> Good(v2, v1)), args |-> << Path(p) >>, ncomm |-> n, fmt |-> t, nodir |-> b ] :
                 p \in Places, v2 \in { <<>>, << NoText >>, << Full2 >> }, v1 \in { <<>>, << NoV1 >>, << Full1 >> }, n \in { 0, 1, 3, 8 },
                 t \in { "csv", "tsv", "ascii" }, b \in BOOLEAN }
One(h, S) == RandomElement(S)
Chance(h, k, n) == RandomElement(1..n) <= k
LatinTexts == { "", "Plain", "a, b", "\"q\"", "say \"x\"", "\"", "a\nb", "\r", "c\r\nd", "tab\there", "`tude", ",", "\\", "#size" }
AllTexts == LatinTexts \cup { "^mega", "`^,\"", "unit\fsep", "a;b" }
RandV2(h) == [ ver |-> One(h, { 2, 3, 4 }), artist |-> One(h, AllTexts), title |-> One(h, AllTexts), album |-> One(h, AllTexts),
               genre |-> One(h, { "", "Rock", "(8)", "a,b" }), encoded |-> One(h, AllTexts), year |-> One(h, { "", "1999" }),
               lang |-> One(h, { "", "eng" }), counts |-> [ i \in 1..One(h, { 0, 0, 1, 1, 2 }) |-> One(i, { 0, 9, 10, 255, 4096, 70000 }) ],
               comments |-> [ i \in 1..One(h, { 0, 0, 1, 2, 3, 11 }) |-> One(i, AllTexts \ { "" }) ] ]
RandV1(h) == [ artist |-> One(h, LatinTexts), title |-> One(h, LatinTexts), album |-> One(h, LatinTexts), year |-> One(h, { "", "77", "1984" }),
               comment |-> One(h, LatinTexts), genre |-> One(h, { 0, 9, 10, 80, 255 }), track |-> One(h, BOOLEAN), ext |-> One(h, BOOLEAN) ]
RandFile(h) == [ v2 |-> IF Chance(h, 1, 4) THEN <<>> ELSE << RandV2(h) >>, v1 |-> IF Chance(h, 1, 2) THEN <<>> ELSE << RandV1(h) >>,
                 bad |-> Chance(h, 1, 10) ]
RandCfg(h) ==
  LET fs == [ p \in One(h, { S \in SUBSET Places : Cardinality(S) \in 1..5 }) |-> RandFile(p) ]
      as == One(h, { { Path(p) : p \in DOMAIN fs }, { "d", OddDir }, { "d/e", "gone.mp3" } \cup { Path(p) : p \in { q \in DOMAIN fs : q.d # "d/e" } },
                     { "d" } \cup { Path(p) : p \in { q \in DOMAIN fs : q.d = "" } } })
  IN [ files |-> fs, args |-> One(h, { f \in [ 1..Cardinality(as) -> as ] : \A i, j \in 1..Cardinality(as) : f[i] = f[j] => i = j }),
       ncomm |-> One(h, { 0, 1, 2, 6, 6, 9, 14 }), fmt |-> One(h, { "csv", "csv", "tsv", "ascii" }), nodir |-> One(h, BOOLEAN) ]
SmallSpec == Init /\ [][(stage = "new" /\ \E c \in SmallCfgs : Start(c)) \/ Visit \/ End]_vars
ShapeSpec == Init /\ [][(stage = "new" /\ \E c \in ShapeCfgs : Start(c)) \/ Visit \/ End]_vars
RandSpec == Init /\ [][(stage = "new" /\ \E c \in { RandCfg(stage) } : Start(c)) \/ Visit \/ End]_vars
=============================================================================
