------------------------------ MODULE Template ------------------------------
(* Naming templates: their text, and what they expand to for a file.  Texts    *)
(* are strings of ASCII characters, of which "`" stands for a letter of        *)
(* ISO-8859-1 beyond ASCII and "^" for one beyond ISO-8859-1.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Bytes

\* ---------------------------------------------------------- text operations
At(s, i) == SubSeq(s, i, i)
Chars(s) == [ i \in 1..Len(s) |-> At(s, i) ]
RECURSIVE JoinFrom(_, _)
JoinFrom(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o JoinFrom(cs, i + 1)
Join(cs) == JoinFrom(cs, 1)
LowerCase == Chars("abcdefghijklmnopqrstuvwxyz")
UpperCase == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Up(c) == LET n == { i \in 1..26 : LowerCase[i] = c } IN IF n = {} THEN c ELSE UpperCase[CHOOSE i \in n : TRUE]
Down(c) == LET n == { i \in 1..26 : UpperCase[i] = c } IN IF n = {} THEN c ELSE LowerCase[CHOOSE i \in n : TRUE]
Upper(s) == Join([ i \in 1..Len(s) |-> Up(At(s, i)) ])
Lower(s) == Join([ i \in 1..Len(s) |-> Down(At(s, i)) ])
Holds(s, c) == \E i \in 1..Len(s) : At(s, i) = c
Latin(s) == ~Holds(s, "^")
Plain(s) == Latin(s) /\ ~Holds(s, "`")

\* "The X" <-> "X, The"
DoThe(s, o) ==
  LET n == Len(s)
  IN CASE o \in { "", "the", "the=suffix" } /\ n >= 5 /\ Lower(SubSeq(s, 1, 4)) = "the "
            -> SubSeq(s, 5, n) \o ", The"
       [] o = "the=prefix" /\ n >= 5 /\ Lower(SubSeq(s, n - 4, n)) = ", the"
            -> "The " \o SubSeq(s, 1, n - 5)
       [] OTHER -> s
DoCap(s, o) ==
  CASE s = "" -> s
    [] o \in { "cap=all-upper", "capitalization=all-upper" } -> Upper(s)
    [] o \in { "cap=all-lower", "capitalization=all-lower" } -> Lower(s)
    [] o = "nothing" -> s
    [] OTHER -> Upper(At(s, 1)) \o SubSeq(s, 2, Len(s))
\* runs of blanks become x
Blank(c) == c = " "
Squeeze(s, x) == Join([ i \in 1..Len(s) |-> IF ~Blank(At(s, i)) THEN At(s, i)
                                            ELSE IF i > 1 /\ Blank(At(s, i - 1)) THEN "" ELSE x ])
DoWs(s, o) == CASE o = "" -> s
                [] o = "compress" -> Squeeze(s, " ")
                [] OTHER -> Squeeze(s, SubSeq(o, 4, Len(o)))          \* ws=...
Encodable(s, o) == CASE o = "output=ascii" -> Plain(s)
                     [] o \in { "output=iso-8859-1", "output=cp1252" } -> Latin(s)
                     [] OTHER -> TRUE

\* ------------------------------------------------------------------- files
\* a value in a tag: << >> if it is not there
\* env: name, stem, ext: the file's name; v2, v1: << >> or << tag >>; a tag has
\* values L A G T e Y; stored: how the ID3v1 texts are encoded
Some(x) == << x >>
Value(env, tag, m) == IF env[tag] = <<>> THEN <<>> ELSE env[tag][1][m]
There(x) == x # <<>> /\ x # << "" >>

\* ------------------------------------------------------------------- terms
Lit(s) == [ k |-> "lit", s |-> s ]
Clause(ts) == [ k |-> "clause", ts |-> ts ]
Broken(s) == [ k |-> "bad", s |-> s ]
\* a marker: its letter, written short or by one of its names, with options
Mark(m, name, opts) == [ k |-> "mark", m |-> m, name |-> name, opts |-> opts ]
Names == [ L |-> { "album" }, A |-> { "artist" }, G |-> { "content-type", "genre" }, T |-> { "title" },
           e |-> { "encoded-by" }, Y |-> { "year" }, b |-> { "basename", "file-basename" },
           E |-> { "extension", "file-extension" }, S |-> { "size" }, five |-> { "md5" } ]
Markers == DOMAIN Names
Letter(m) == IF m = "five" THEN "5" ELSE m
FromTags == { "L", "A", "G", "T" }
\* the option of some kind that is given, or ""
Given(t, O) == LET n == { i \in 1..Len(t.opts) : t.opts[i] \in O }
               IN IF n = {} THEN "" ELSE t.opts[CHOOSE i \in n : TRUE]
Sources == { "prefer-v2", "prefer-v1", "v2-only", "v1-only" }
Encs == { "v1-encoding=auto", "v1-encoding=iso-8859-1", "v1-encoding=cp1252", "v1-encoding=ascii", "v1-encoding=utf-8" }
Thes == { "the", "the=suffix", "the=prefix" }
Caps == { "cap", "capitalization", "cap=all-upper", "capitalization=all-upper", "cap=all-lower",
          "capitalization=all-lower", "cap=capitalize" }
Wss == { "compress", "ws=_", "ws=--" }
Outs == { "output=utf-8", "output=ascii", "output=iso-8859-1", "output=cp1252" }
Bases == { "base=decimal", "base=hex" }
Cases == { "hex-case=U", "hex-case=L" }
Years == { "yy", "yyyy" }
OptionsOf(m) == CASE m \in FromTags -> << Sources, Encs, Thes, Caps, Wss, Outs >>
                  [] m \in { "b", "E" } -> << Thes, Caps, Wss >>
                  [] m \in { "S", "five" } -> << Bases, Cases >>
                  [] m = "Y" -> << Years >>
                  [] OTHER -> <<>>
NoDup(t) == \A O \in { OptionsOf(t.m)[i] : i \in 1..Len(OptionsOf(t.m)) } :
              Cardinality({ i \in 1..Len(t.opts) : t.opts[i] \in O }) <= 1

\* -------------------------------------------------------------- expansion
\* outcomes: pieces of text, or why there is none
Ok(ps) == [ st |-> "ok", ps |-> ps ]
Missing == [ st |-> "missing", ps |-> <<>> ]
Unclear == [ st |-> "any", ps |-> <<>> ]         \* text in some other encoding than the template says
Unfit == [ st |-> "enc", ps |-> <<>> ]           \* not representable
Text(s) == [ k |-> "text", s |-> s ]
\* reading an ID3v1 text with the encoding the template names
Readable(env, s, o) == \/ Plain(s)
                       \/ o = "v1-encoding=" \o env.stored
                       \/ env.stored = "iso-8859-1" /\ o \in { "", "v1-encoding=auto" }
\* which of the two tags a value comes from
From(env, t) ==
  LET o == Given(t, Sources)
      a == There(Value(env, "v2", t.m)) /\ o # "v1-only"
      b == There(Value(env, "v1", t.m)) /\ o # "v2-only"
  IN CASE a /\ (o # "prefer-v1" \/ ~b) -> "v2"
       [] b -> "v1"
       [] OTHER -> ""
Tagged(env, t) ==
  LET f == From(env, t)
      s == Value(env, f, t.m)[1]
      r == DoWs(DoCap(DoThe(s, Given(t, Thes)), Given(t, Caps)), Given(t, Wss))
  IN CASE f = "" -> Missing
       [] f = "v1" /\ ~Readable(env, s, Given(t, Encs)) -> Unclear
       [] ~Encodable(r, Given(t, Outs)) -> Unfit
       [] OTHER -> Ok(<< [ k |-> "text", s |-> r, out |-> Given(t, Outs) ] >>)
Filed(t, s) ==
  LET the == Given(t, Thes)
      cap == Given(t, Caps)
  IN Ok(<< Text(DoWs(DoCap(DoThe(s, IF the = "" THEN "nothing" ELSE the), IF cap = "" THEN "nothing" ELSE cap),
                     Given(t, Wss))) >>)
YearOf(env, t) ==
  LET s == IF There(Value(env, "v2", "Y")) THEN Value(env, "v2", "Y") ELSE Value(env, "v1", "Y")
  IN IF ~There(s) THEN Missing
     ELSE Ok(<< Text(IF Given(t, Years) = "yy" /\ Len(s[1]) > 2 THEN SubSeq(s[1], Len(s[1]) - 1, Len(s[1])) ELSE s[1]) >>)
EncodedBy(env) ==
  LET s == Value(env, "v2", "e")
  IN IF There(s) THEN Ok(<< Text(DoCap(DoThe(s[1], ""), "")) >>) ELSE Missing

RECURSIVE Eval(_, _), EvalAll(_, _)
EvalAll(env, ts) ==
  IF ts = <<>> THEN Ok(<<>>)
  ELSE LET a == Eval(env, Head(ts))
       IN IF a.st # "ok" THEN a
          ELSE LET b == EvalAll(env, Tail(ts)) IN IF b.st # "ok" THEN b ELSE Ok(a.ps \o b.ps)
Eval(env, t) ==
  CASE t.k = "lit" -> Ok(<< Text(t.s) >>)
    [] t.k = "clause" -> LET r == EvalAll(env, t.ts) IN IF r.st = "missing" THEN Ok(<<>>) ELSE r
    [] t.k = "mark" ->
         CASE t.m \in FromTags -> Tagged(env, t)
           [] t.m = "e" -> EncodedBy(env)
           [] t.m = "Y" -> YearOf(env, t)
           [] t.m = "b" -> Filed(t, env.stem)
           [] t.m = "E" -> Filed(t, env.ext)
           [] OTHER -> Ok(<< [ k |-> t.m, base |-> Given(t, Bases), case |-> Given(t, Cases) ] >>)

\* ---------------------------------------------------------------- as text
Special == { "?", "%", ":", "&", ")", "(", "=", "\\" }
Escape(s) == Join([ i \in 1..Len(s) |-> IF At(s, i) \in Special THEN "\\" \o At(s, i) ELSE At(s, i) ])
RECURSIVE Options(_)
Options(os) == IF os = <<>> THEN "" ELSE IF Len(os) = 1 THEN os[1] ELSE os[1] \o "&" \o Options(Tail(os))
RECURSIVE Written(_), WrittenAll(_)
WrittenAll(ts) == IF ts = <<>> THEN "" ELSE Written(Head(ts)) \o WrittenAll(Tail(ts))
Written(t) ==
  CASE t.k = "lit" -> Escape(t.s)
    [] t.k = "bad" -> t.s
    [] t.k = "clause" -> "(" \o WrittenAll(t.ts) \o ")?"
    [] t.k = "mark" -> IF t.name = "" THEN "%" \o Letter(t.m)
                       ELSE "%(" \o t.name \o (IF t.opts = <<>> THEN "" ELSE ":" \o Options(t.opts)) \o ")"
RECURSIVE Parses(_)
Parses(ts) == /\ ts # <<>>
              /\ \A i \in 1..Len(ts) : CASE ts[i].k = "bad" -> FALSE
                                         [] ts[i].k = "clause" -> Parses(ts[i].ts)
                                         [] ts[i].k = "mark" -> NoDup(ts[i])
                                         [] OTHER -> TRUE
Expand(env, ts) == IF Parses(ts) THEN EvalAll(env, ts) ELSE [ st |-> "invalid", ps |-> <<>> ]

\* --------------------------------------------------- histories of expansions
CONSTANTS Envs(_), Templates(_), MaxSteps
VARIABLES hist, stage
vars == << hist, stage >>
Init == hist = <<>> /\ stage = "run"
Step == /\ stage = "run" /\ Len(hist) < MaxSteps
        /\ \E env \in Envs(hist), ts \in Templates(hist) :
             hist' = Append(hist, [ env |-> env, ts |-> ts, text |-> WrittenAll(ts), want |-> Expand(env, ts) ])
        /\ UNCHANGED stage
Finish == stage = "run" /\ Len(hist) = MaxSteps /\ stage' = "done" /\ UNCHANGED hist
Spec == Init /\ [][Step \/ Finish]_vars
Out == stage = "done" => Emit([ hist |-> [ i \in 1..Len(hist) |->
         [ env |-> hist[i].env, text |-> hist[i].text, want |-> hist[i].want ] ] ])

\* what a value is not there for leaves no trace; one that is there decides alone
Now == hist[Len(hist)]
RECURSIVE Marks(_)
Marks(ts) == UNION { CASE ts[i].k = "mark" -> { ts[i] }
                       [] ts[i].k = "clause" -> Marks(ts[i].ts)
                       [] OTHER -> {} : i \in 1..Len(ts) }
NeverV1 == hist # <<>> =>
  ((\A t \in Marks(Now.ts) : t.m \in FromTags => Given(t, Sources) = "v2-only") /\ ~(\E t \in Marks(Now.ts) : t.m = "Y")
   => Expand([ Now.env EXCEPT !.v1 = <<>> ], Now.ts) = Now.want)
Preference == hist # <<>> =>
  (\A t \in Marks(Now.ts) : t.m \in FromTags =>
     LET f == From(Now.env, t) o == Given(t, Sources)
     IN /\ f # "" => There(Value(Now.env, f, t.m))
        /\ o = "v1-only" => f # "v2"
        /\ o = "v2-only" => f # "v1"
        /\ o = "prefer-v1" /\ There(Value(Now.env, "v1", t.m)) => f = "v1"
        /\ o \in { "", "prefer-v2" } /\ There(Value(Now.env, "v2", t.m)) => f = "v2")
Clauses == hist # <<>> =>
  (Now.want.st = "missing" => \E i \in 1..Len(Now.ts) : Now.ts[i].k = "mark" /\ Eval(Now.env, Now.ts[i]) = Missing)
Laws == /\ \A s \in { "The Pogues", "the x", "A, The", "x" } :
             DoThe(DoThe(s, "the"), "the=prefix") \in { s, "The " \o SubSeq(s, 5, Len(s)), "The A" }
        /\ \A s \in { "a  b", " x ", "a b   c" } : Squeeze(Squeeze(s, " "), " ") = Squeeze(s, " ")

\* ------------------------------------------------------------ small scopes
NoTag == [ L |-> <<>>, A |-> <<>>, G |-> <<>>, T |-> <<>>, e |-> <<>>, Y |-> <<>> ]
Env(v2, v1) == [ name |-> "a b.mp3", stem |-> "a b", ext |-> ".mp3", v2 |-> v2, v1 |-> v1, stored |-> "iso-8859-1" ]
Two == { "some text", "1984", "Rock" }
FieldEnvs == { Env(a, b) : a \in { <<>>, << NoTag >>, << [ f \in DOMAIN NoTag |-> << "" >> ] >>,
                                  << [ f \in DOMAIN NoTag |-> IF f = "Y" THEN << "1984" >> ELSE << "second " \o f >> ] >> },
                          b \in { <<>>, << [ f \in DOMAIN NoTag |-> IF f \in { "e" } THEN <<>> ELSE << "" >> ] >>,
                                  << [ f \in DOMAIN NoTag |-> CASE f = "e" -> <<>> [] f = "Y" -> << "77" >>
                                         [] f = "G" -> << "Metal" >> [] OTHER -> << "first " \o f >> ] >> } }
InClause(t) == << Lit("x"), Clause(<< Lit("<"), t, Lit(">") >>) >>
SmallMarks == { Mark(m, "", <<>>) : m \in Markers } \cup
              UNION { { Mark(m, n, <<>>) : n \in Names[m] } : m \in Markers } \cup
              UNION { { Mark(m, CHOOSE n \in Names[m] : TRUE, << o >>) : o \in Sources } : m \in FromTags } \cup
              { Mark("Y", "year", << o >>) : o \in Years } \cup
              { Mark(m, CHOOSE n \in Names[m] : TRUE, << a, b >>) : m \in { "S", "five" }, a \in Bases, b \in Cases } \cup
              { Mark(m, CHOOSE n \in Names[m] : TRUE, << a >>) : m \in { "S", "five" }, a \in Bases \cup Cases }
FieldTemplates == { << t >> : t \in SmallMarks } \cup { InClause(t) : t \in SmallMarks }
TextsX == { "The Pogues", "the pogues", "THE  a", "The", "The x", "Pogues, The", "x, the", "a  b   c", "`a ^b",
            "^^", "a", "Theme", "p q  r s t" }
XEnvs == { [ Env(<< [ NoTag EXCEPT !.T = << s >> ] >>, <<>>) EXCEPT !.stem = s, !.name = s \o ".mp3" ] : s \in TextsX }
OptLists(Os) == { <<>> } \cup { << o >> : o \in Os }
XTemplates == { << Mark("T", "title", a \o b \o c \o d) >> : a \in OptLists(Thes), b \in OptLists(Caps \ { "capitalization" }),
                    c \in OptLists(Wss), d \in OptLists({ "output=ascii" }) } \cup
              { << Mark("b", "basename", a \o b \o c) >> : a \in OptLists(Thes), b \in OptLists(Caps \ { "capitalization" }),
                    c \in OptLists(Wss) }

\* ---------------------------------------------------------- random choices
One(h, S) == RandomElement(S)
Chance(h, k, n) == RandomElement(1..n) <= k
TextsR == TextsX \cup { "x/y" , "a:b=c&d?(e)%\\", "Some, text.", "9",
                        "A text that is longer than the thirty bytes of a field" }
Maybe(h, x) == CASE Chance(h, 1, 4) -> <<>> [] Chance(h, 1, 6) -> << "" >> [] OTHER -> << x >>
RandTag(h, S) == [ L |-> Maybe(h, One(h, S)), A |-> Maybe(h, One(h, S)), G |-> Maybe(h, One(h, { "Rock", "the blues" })),
                   T |-> Maybe(h, One(h, S)), e |-> Maybe(h, One(h, S)), Y |-> Maybe(h, One(h, { "1999", "84", "5" })) ]
V1Texts(h, enc) == { s \in TextsR : IF enc = "utf-8" THEN TRUE ELSE Latin(s) }
\* an ID3v1 tag has all fields, and a genre that is named or none
AsV1(t, g) == [ f \in DOMAIN t |-> CASE f = "e" -> <<>> [] f = "G" -> << g >>
                                     [] t[f] = <<>> -> << "" >> [] OTHER -> t[f] ]
FileNames == { << "plain", ".mp3" >>, << "The file", ".MP3" >>, << "no ext", "" >>, << ".hidden", "" >>, << "a.b", ".c" >>,
               << "x  y, the", ".m p" >> }
RandEnv(h) == LET f == One(h, FileNames)
                  enc == One(h, { "iso-8859-1", "utf-8", "cp1252" })
              IN [ name |-> f[1] \o f[2], stem |-> f[1], ext |-> f[2], stored |-> enc,
                   v2 |-> IF Chance(h, 1, 4) THEN <<>> ELSE << RandTag(h, TextsR) >>,
                   v1 |-> IF Chance(h, 1, 3) THEN <<>>
                          ELSE << AsV1(RandTag(h, V1Texts(h, enc)), One(h, { "", "Metal", "Hip-Hop" })) >> ]
RandEnvs(h) == { RandEnv(h) }
\* some of the options of each kind, sometimes two of a kind
RECURSIVE RandOpts(_, _)
RandOpts(h, Os) == IF Os = <<>> THEN <<>>
                   ELSE LET rest == RandOpts(h, Tail(Os))
                            one == IF Chance(h, 1, 3) THEN << One(h, Head(Os)) >> ELSE <<>>
                        IN IF Chance(h, 1, 2) THEN one \o rest ELSE rest \o one
RandMark(h) == LET m == One(h, Markers)
                   o == RandOpts(h, OptionsOf(m))
               IN IF Chance(h, 1, 3) THEN Mark(m, "", <<>>)
                  ELSE Mark(m, One(h, Names[m]), IF o # <<>> /\ Chance(h, 1, 30) THEN Append(o, o[1]) ELSE o)
Lits == { " - ", "x", "(a)", "100%", "a=b", "c:\\d", "?&", "`^", ".mp3", "%A" }
Bads == { "%", "%Q", "%(artist", "%(nothing)", "%(artist:)", "%(artist:wrong)", "(x", "x)", "?", ":", "=", "&", "()?", "(a)",
          "%(title:the=up)", "%(year:yyy)", "%()", "%(md5:the)", "%(size:base=8)", "%(artist&title)" }
RECURSIVE RandTerm(_, _), RandTerms(_, _, _)
RandTerm(h, d) == CASE Chance(h, 1, 60) -> Broken(One(h, Bads))
                    [] d > 0 /\ Chance(h, 1, 4) -> Clause(RandTerms(h, d - 1, One(h, 1..3)))
                    [] Chance(h, 1, 3) -> Lit(One(h, Lits))
                    [] OTHER -> RandMark(h)
RandTerms(h, d, n) == IF n = 0 THEN <<>> ELSE << RandTerm(h, d) >> \o RandTerms(h, d, n - 1)
RandTemplates(h) == { RandTerms(h, 3, One(h, 1..4)) }
BadTemplates(h) == { << Broken(s) >> : s \in Bads } \cup { << Lit("x"), Broken(s) >> : s \in Bads \ { "(x" } } \cup { <<>> }
=============================================================================
