-------------------------------- MODULE Dump --------------------------------
(* Dumps: the parts asked for of each file, in order, in one of three formats. *)
(* In texts "`" stands for a letter of ISO-8859-1 beyond ASCII, "^" for one    *)
(* beyond ISO-8859-1, "~" for the character of code 1.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bytes, Kinds

At(s, i) == SubSeq(s, i, i)
Chars(s) == [ i \in 1..Len(s) |-> At(s, i) ]
RECURSIVE Glue(_, _)
Glue(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Glue(Tail(ss), sep)
Join(cs) == Glue(cs, "")

\* -------------------------------------------------------------------- JSON
Q == "\""
Code == [ c \in { "\n", "\t", "\r", "\f", "~", Q, "\\" } |->
            CASE c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] c = "\r" -> "\\r" [] c = "\f" -> "\\f" [] c = "~" -> "\\u0001"
              [] c = Q -> "\\\"" [] c = "\\" -> "\\\\" ]
Quoted(s) == Q \o Join([ i \in 1..Len(s) |-> IF At(s, i) \in DOMAIN Code THEN Code[At(s, i)] ELSE At(s, i) ]) \o Q
Pair(k, v) == Quoted(k) \o ":" \o v
Object(ps) == "{" \o Glue(ps, ",") \o "}"
Array(vs) == "[" \o Glue(vs, ",") \o "]"
Number(n) == ToString(n)
\* a value: [ s |-> string ], [ n |-> numeral ], [ a |-> array of values ], [ o |-> array of << key, value >> ]
RECURSIVE Json(_)
Json(v) == CASE "s" \in DOMAIN v -> Quoted(v.s)
             [] "n" \in DOMAIN v -> v.n
             [] "a" \in DOMAIN v -> Array([ i \in 1..Len(v.a) |-> Json(v.a[i]) ])
             [] "o" \in DOMAIN v -> Object([ i \in 1..Len(v.o) |-> Pair(v.o[i][1], Json(v.o[i][2])) ])
\* the tokens of a text, a character at a time; st: out, in (a string), esc (after a backslash), num, bad
L0 == [ toks |-> <<>>, cur |-> "", st |-> "out", left |-> 0 ]
Flush(p) == IF p.st = "num" THEN [ p EXCEPT !.toks = Append(@, << "n", p.cur >>), !.cur = "", !.st = "out" ] ELSE p
Digits == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }
Raw(c) == c \in { "\n", "\t", "\r", "\f", "~" }
Unesc(c) == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] c = "f" -> "\f" [] c \in { Q, "\\", "/" } -> c [] OTHER -> ""
Lex(p0, c) ==
  LET p == IF c \in Digits THEN p0 ELSE Flush(p0)
  IN CASE p.st = "bad" -> p
       [] p.st = "in" -> IF c = Q THEN [ p EXCEPT !.toks = Append(@, << "s", p.cur >>), !.cur = "", !.st = "out" ]
                         ELSE IF c = "\\" THEN [ p EXCEPT !.st = "esc" ]
                         ELSE IF Raw(c) THEN [ p EXCEPT !.st = "bad" ] ELSE [ p EXCEPT !.cur = @ \o c ]
       [] p.st = "esc" -> IF c = "u" THEN [ p EXCEPT !.st = "u", !.left = 4 ]
                          ELSE IF Unesc(c) = "" THEN [ p EXCEPT !.st = "bad" ] ELSE [ p EXCEPT !.cur = @ \o Unesc(c), !.st = "in" ]
       [] p.st = "u" -> IF p.left > 1 THEN [ p EXCEPT !.left = @ - 1 ]
                        ELSE [ p EXCEPT !.cur = @ \o (IF c = "1" THEN "~" ELSE "?"), !.st = "in" ]
       [] c \in Digits -> [ p EXCEPT !.cur = @ \o c, !.st = "num" ]
       [] c = Q -> [ p EXCEPT !.st = "in" ]
       [] c \in { "{", "}", "[", "]", ":", "," } -> [ p EXCEPT !.toks = Append(@, << c, "" >>) ]
       [] OTHER -> [ p EXCEPT !.st = "bad" ]
Tokens(s) == Flush(Fold(Lex, L0, Chars(s)))
\* the tokens a value should have
RECURSIVE Sep(_)
Sep(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o << << ",", "" >> >> \o Sep(Tail(ss))
RECURSIVE Toks(_)
Toks(v) == CASE "s" \in DOMAIN v -> << << "s", v.s >> >>
             [] "n" \in DOMAIN v -> << << "n", v.n >> >>
             [] "a" \in DOMAIN v -> << << "[", "" >> >> \o Sep([ i \in 1..Len(v.a) |-> Toks(v.a[i]) ]) \o << << "]", "" >> >>
             [] "o" \in DOMAIN v -> << << "{", "" >> >> \o Sep([ i \in 1..Len(v.o) |->
                                      << << "s", v.o[i][1] >>, << ":", "" >> >> \o Toks(v.o[i][2]) ]) \o << << "}", "" >> >>

\* ------------------------------------------------------------------- parts
\* a frame: id, v (its value, with its kind k).  What of it must be shown:
Str(s) == [ s |-> s ]
Num(n) == [ n |-> n ]
ObjJ(o) == [ o |-> o ]
CloudJ(m) == [ a |-> [ i \in 1..Len(m) |->
                IF m[i][2] = <<>> THEN Str(m[i][1])
                ELSE ObjJ(<< << m[i][1], IF Len(m[i][2]) = 1 THEN Str(m[i][2][1]) ELSE [ a |-> [ j \in 1..Len(m[i][2]) |-> Str(m[i][2][j]) ] ] >> >>) ] ]
FrameJ(f) ==
  << << "id", Str(f.id) >> >> \o
  (CASE f.v.k = "text" -> << << "text", Str(f.v.t) >> >>
     [] f.v.k \in { "comm", "udt" } -> << << "description", Str(f.v.dsc) >>, << "text", Str(f.v.t) >> >>
     [] f.v.k = "pcnt" -> << << "count", Num(f.v.n) >> >>
     [] f.v.k = "popm" -> << << "email", Str(f.v.o) >>, << "rating", Num(Number(f.v.r)) >>, << "count", Num(f.v.n) >> >>
     [] f.v.k = "xtag" -> << << "owner", Str(f.v.o) >>, << "cloud", CloudJ(f.v.m) >> >>
     [] f.v.k = "ufid" -> << << "owner", Str(f.v.o) >> >>
     [] f.v.k \in { "priv", "encr" } -> << << "email", Str(f.v.o) >> >>
     [] OTHER -> <<>>)
TagJ(t) == ObjJ(<< << "version", Str("2." \o Number(t.ver)) >>, << "padding", Num(Number(t.pad)) >>,
                   << "frames", [ a |-> [ i \in 1..Len(t.frames) |-> ObjJ(FrameJ(t.frames[i])) ] ] >> >>)
V1J(t) == ObjJ(<< << "version", Str("1" \o (IF t.track >= 0 THEN ".1" ELSE "") \o (IF t.ext THEN "-enh" ELSE "")) >>,
                  << "album", Str(t.album) >>, << "artist", Str(t.artist) >>, << "comment", Str(t.comment) >>,
                  << "genre", Num(Number(t.genre)) >>, << "title", Str(t.title) >>, << "year", Str(t.year) >> >> \o
               (IF t.track >= 0 THEN << << "track", Num(Number(t.track)) >> >> ELSE <<>>) \o
               (IF t.ext THEN << << "enhanced-genre", Str(t.xgenre) >> >> ELSE <<>>))
\* the words of a dump for people, in order
FrameW(f) ==
  << f.id >> \o
  (CASE f.v.k = "text" -> << f.v.t >>
     [] f.v.k = "udt" -> << f.v.dsc, f.v.t >>
     [] f.v.k = "comm" -> << f.v.dsc, f.v.t >>
     [] f.v.k = "pcnt" -> << f.v.n >>
     [] f.v.k = "popm" -> << f.v.o, Number(f.v.r), "#hex " \o f.v.n >>
     [] f.v.k = "xtag" -> << f.v.o >> \o Concat([ i \in 1..Len(f.v.m) |-> << f.v.m[i][1] >> \o f.v.m[i][2] ])
     [] f.v.k \in { "ufid", "priv", "encr" } -> << f.v.o >>
     [] OTHER -> <<>>)
Only(t, ids) == LET n == { i \in 1..Len(t.frames) : t.frames[i].id \in ids /\ t.frames[i].v.k = "text" }
                 IN IF n = {} THEN <<>> ELSE IF Cardinality(n) > 1 THEN << "#some" >> ELSE << t.frames[The(n)].v.t >>
TagW(t) == << "ID3v2." \o Number(t.ver) >> \o
           Concat([ i \in 1..4 |-> Only(t, << { "TP1", "TPE1" }, { "TT2", "TIT2" }, { "TAL", "TALB" }, { "TRK", "TRCK" } >>[i]) ]) \o
           Concat([ i \in 1..Len(t.frames) |-> FrameW(t.frames[i]) ]) \o << Number(t.pad) >>
V1W(t, g) == << "ID3v1" \o (IF t.track >= 0 THEN ".1" ELSE ""), t.artist, t.title, t.album >> \o (IF t.track >= 0 THEN << Number(t.track) >> ELSE <<>>) \o
          << t.year, t.comment >> \o (IF t.ext THEN << t.xgenre >> ELSE <<>>) \o << "#genre " \o (IF g THEN "name " ELSE "code ") \o Number(t.genre) >>
\* the cells of a dump in CSV format
Count(t, ids) == { i \in 1..Len(t.frames) : t.frames[i].id \in ids }
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN << i >> \o InOrder(S \ { i })
Or(s) == IF s = <<>> THEN "" ELSE s[1]
Columns == << { "TP1", "TPE1" }, { "TT2", "TIT2" }, { "TAL", "TALB" }, { "TCO", "TCON" }, { "TEN", "TENC" }, { "TYE", "TYER" }, { "TLA", "TLAN" } >>
TagC(t, n) ==
  LET pc == Count(t, { "CNT", "PCNT" })
      cm == InOrder(Count(t, { "COM", "COMM" }))
  IN << Number(t.ver), "0", "#any", "#any", "#any" >> \o [ i \in 1..7 |-> Or(Only(t, Columns[i])) ] \o
     << Number(Cardinality(pc)), CASE pc = {} -> "" [] Cardinality(pc) = 1 -> t.frames[The(pc)].v.n [] OTHER -> "*", Number(Len(cm)) >> \o
     [ i \in 1..n |-> IF i <= Len(cm) THEN t.frames[cm[i]].v.t ELSE "" ]
Flag(b) == IF b THEN "1" ELSE "0"
V1C(t) == << Flag(t.track >= 0), Flag(t.ext), t.artist, t.title, t.album, t.year, t.comment, Number(t.genre) >>

\* ------------------------------------------------------------------ dumping
\* cfg: files (a sequence of [ tags, v1, bad ]), only (subset of { 1, 2, 3 }: ID3v2, track, ID3v1), fmt, genre (expanded?), ncomm
Parts(c, f) ==
  LET on(i) == c.only = {} \/ i \in c.only
  IN (IF on(1) THEN [ i \in 1..Len(f.tags) |-> [ part |-> "tag", t |-> f.tags[i] ] ] ELSE <<>>) \o
     (IF on(2) THEN << [ part |-> "track" ] >> ELSE <<>>) \o
     (IF on(3) THEN [ i \in 1..Len(f.v1) |-> [ part |-> "v1", t |-> f.v1[i] ] ] ELSE <<>>)
VARIABLES cfg, at, out, told, stage
vars == << cfg, at, out, told, stage >>
Init == cfg = <<>> /\ at = 0 /\ out = <<>> /\ told = {} /\ stage = "new"
Start(c) == stage = "new" /\ stage' = "run" /\ cfg' = c /\ at' = 1 /\ UNCHANGED << out, told >>
Show == /\ stage = "run" /\ at <= Len(cfg.files)
        /\ LET f == cfg.files[at]
           IN IF f.bad THEN told' = told \cup { at } /\ UNCHANGED out
              ELSE out' = Append(out, [ at |-> at, parts |-> Parts(cfg, f) ]) /\ UNCHANGED told
        /\ at' = at + 1 /\ UNCHANGED << cfg, stage >>
Finish == stage = "run" /\ at > Len(cfg.files) /\ stage' = "done" /\ UNCHANGED << cfg, at, out, told >>
Next(C) == (stage = "new" /\ \E c \in C : Start(c)) \/ Show \/ Finish

\* --------------------------------------------------------------- properties
\* each file is shown or told of, once, in order
All == stage = "done" => /\ { out[i].at : i \in 1..Len(out) } \cup told = 1..Len(cfg.files)
                         /\ Len(out) + Cardinality(told) = Len(cfg.files)
                         /\ \A i, j \in 1..Len(out) : (i < j) => out[i].at < out[j].at
\* what is written as JSON can be read again
Values(i) == [ j \in 1..Len(out[i].parts) |->
                 LET p == out[i].parts[j]
                 IN CASE p.part = "tag" -> TagJ(p.t) [] p.part = "v1" -> V1J(p.t) [] p.part = "track" -> ObjJ(<< << "md5", Str("#md5") >> >>) ]
Words(i) == [ j \in 1..Len(out[i].parts) |->
                LET p == out[i].parts[j]
                IN CASE p.part = "tag" -> TagW(p.t) [] p.part = "v1" -> V1W(p.t, cfg.genre) [] p.part = "track" -> << "#size", "#md5" >> ]
Cells(i) == Concat([ j \in 1..Len(out[i].parts) |->
                      LET p == out[i].parts[j]
                      IN CASE p.part = "tag" -> TagC(p.t, cfg.ncomm) [] p.part = "v1" -> V1C(p.t) [] p.part = "track" -> << "#size", "#md5" >> ])
Faithful == (stage = "done" /\ cfg.fmt = "json") =>
  \A i \in 1..Len(out) : \A j \in 1..Len(out[i].parts) :
    LET v == Values(i)[j] p == Tokens(Json(v)) IN p.st = "out" /\ p.toks = Toks(v)
Out == stage = "done" =>
  Emit([ cfg |-> cfg, told |-> told,
         out |-> [ i \in 1..Len(out) |-> [ at |-> out[i].at, parts |-> [ j \in 1..Len(out[i].parts) |-> out[i].parts[j].part ],
                                           want |-> IF cfg.fmt = "json" THEN Values(i) ELSE IF cfg.fmt = "standard" THEN Words(i) ELSE Cells(i) ] ] ])

\* ------------------------------------------------------------------ choices
Versioned == { << ver, k >> \in (2..4) \X KindSet : IdIn(ver, k) # "" }
Fr(id, v) == [ id |-> id, v |-> v ]
Text(t) == [ k |-> "text", t |-> t ]
Ns == { "0", "1", "255", "4294967295", "4294967296", "18446744073709551615" }
Clouds == { <<>>, << << "k", << "v" >> >> >>, << << "k", <<>> >>, << "x", << "1", "2" >> >> >>, << << "s,\"g\"", << "\\a\"", "b ^", "c" >> >> >> }
OtherIds(ver) == IF ver = 2 THEN { << "ZZZ", "data" >>, << "UFI", "ufid" >>, << "PIC", "data" >> }
                 ELSE { << "ZZZZ", "data" >>, << "UFID", "ufid" >>, << "ENCR", "encr" >>, << "PRIV", "priv" >>, << "APIC", "data" >> }
OtherValue(k, o) == IF k = "data" THEN [ k |-> k ] ELSE IF k = "ufid" /\ o = "" THEN [ k |-> k, o |-> "o" ] ELSE [ k |-> k, o |-> o ]
File(tags, v1) == [ tags |-> tags, v1 |-> v1, bad |-> FALSE ]
Tag(ver, fs) == [ ver |-> ver, pad |-> 5, frames |-> fs ]
NoV1 == [ title |-> "", artist |-> "", album |-> "", year |-> "", comment |-> "", genre |-> 255, track |-> -1, ext |-> FALSE, xgenre |-> "" ]
Fmts == { "json", "standard", "csv" }
Cfg(f, fmt) == [ files |-> << f >>, only |-> {}, fmt |-> fmt, genre |-> TRUE, ncomm |-> 6 ]
\* every kind of frame
KindFrames(ver, k) ==
  { Fr(IdIn(ver, k), v) : v \in
      CASE k[2] = "text" -> { Text("A"), Text("") }
        [] k[2] = "comm" -> { [ k |-> "comm", dsc |-> d, t |-> t ] : d \in { "", "D `" }, t \in { "", "T ^" } }
        [] k[2] = "udt"  -> { [ k |-> "udt", dsc |-> d, t |-> t ] : d \in { "", "D ^" }, t \in { "", "T `" } }
        [] k[2] = "pcnt" -> { [ k |-> "pcnt", n |-> n ] : n \in Ns }
        [] k[2] = "popm" -> { [ k |-> "popm", o |-> o, r |-> r, n |-> n ] : o \in { "", "m@e" }, r \in { 0, 255 }, n \in Ns }
        [] k[2] = "xtag" -> { [ k |-> "xtag", o |-> o, m |-> m ] : o \in { "", "m" }, m \in Clouds } }
KindCfgs ==
  { Cfg(File(<< Tag(vf[1], << vf[2], Fr(IF vf[1] = 2 THEN "TT2" ELSE "TIT2", Text("last")) >>) >>, <<>>), fmt) : fmt \in { "json", "standard" },
      vf \in UNION { { << vk[1], f >> : f \in KindFrames(vk[1], vk[2]) } : vk \in Versioned } \cup
             UNION { { << ver, Fr(x[1], OtherValue(x[2], o)) >> : x \in OtherIds(ver), o \in { "", "me" } } : ver \in 2..4 } }
\* every short text over the characters that matter, wherever text goes
Odd == { "a", "\"", "\\", "/", "\n", "\t", "\r", "\f", "~", "`", "^", ",", " " }
Trim(s) == At(s, Len(s)) # " "
OddTexts == { x \in { Join(s) : s \in UNION { [ 1..k -> Odd ] : k \in 1..2 } } : Trim(x) }
Latin(s) == \A i \in 1..Len(s) : At(s, i) # "^"
TextCfgs ==
  { Cfg(f, fmt) : fmt \in { "json", "csv" },
      f \in { File(<< Tag(ver, << Fr(IF ver = 2 THEN "TP1" ELSE "TPE1", Text(x)) >>) >>, <<>>) : x \in OddTexts, ver \in 2..4 } \cup
            { File(<< Tag(ver, << Fr(IF ver = 2 THEN "COM" ELSE "COMM", [ k |-> "comm", dsc |-> x, t |-> x ]) >>) >>, <<>>) : x \in OddTexts, ver \in 2..4 } \cup
            { File(<< Tag(ver, << Fr(IF ver = 2 THEN "TXX" ELSE "TXXX", [ k |-> "udt", dsc |-> x, t |-> x ]) >>) >>, <<>>) : x \in OddTexts, ver \in 2..4 } \cup
            { File(<< Tag(3, << Fr("XTAG", [ k |-> "xtag", o |-> "", m |-> << << "k", << x >> >>, << "l", << "#", x >> >> >> ]) >>) >>, <<>>) :
                x \in { y \in OddTexts : y # "#" } } \cup
            { File(<<>>, << [ NoV1 EXCEPT !.album = x, !.comment = x ] >>) : x \in { y \in OddTexts : Latin(y) } } \cup
            { File(<<>>, << [ NoV1 EXCEPT !.title = x, !.artist = x, !.ext = TRUE, !.xgenre = x ] >>) : x \in { y \in OddTexts : Latin(y) } } }
\* every choice of parts, in every format
FullTag(ver) == Tag(ver, << Fr(IF ver = 2 THEN "TP1" ELSE "TPE1", Text("Artist")), Fr(IF ver = 2 THEN "TT2" ELSE "TIT2", Text("Title")),
                            Fr(IF ver = 2 THEN "COM" ELSE "COMM", [ k |-> "comm", dsc |-> "d", t |-> "a, \"b\"" ]) >>)
FullV1 == [ title |-> "t1", artist |-> "a1", album |-> "l1", year |-> "2001", comment |-> "k1", genre |-> 17, track |-> 7, ext |-> TRUE, xgenre |-> "xg" ]
Bad == [ tags |-> <<>>, v1 |-> <<>>, bad |-> TRUE ]
ShapeCfgs ==
  { [ files |-> fs, only |-> o, fmt |-> fmt, genre |-> g, ncomm |-> 6 ] : o \in SUBSET { 1, 2, 3 }, fmt \in Fmts, g \in BOOLEAN,
      fs \in { << File(ts, v) >> : ts \in { <<>>, << FullTag(2) >>, << FullTag(4), FullTag(3) >> }, v \in { <<>>, << FullV1 >>, << [ NoV1 EXCEPT !.genre = 200 ] >> } } \cup
             { << File(<< FullTag(3) >>, <<>>), Bad, File(<< FullTag(2) >>, << FullV1 >>) >>, << Bad, File(<<>>, << NoV1 >>) >> } }
\* files at random (h keeps TLC from taking a random choice for a constant)
One(h, S) == RandomElement(S)
RandText(h) == Join([ i \in 1..One(h, 0..6) |-> One(h, { "a", "b", "C", "1" } \cup Odd) ]) \o One(h, { "", "z", "z", "z" })
Long(s) == IF Len(s) > 0 /\ At(s, Len(s)) = " " THEN s \o "." ELSE s
RandLatin(h) == Long(Join([ i \in 1..One(h, 0..6) |-> One(h, ({ "a", "b", "C", "1" } \cup Odd) \ { "^" }) ]))
RandT(h) == Long(RandText(h))
RandFrame(h, ver) ==
  LET vk == One(h, { x \in Versioned : x[1] = ver /\ (x[2][2] # "text" \/ One(h, 1..3) = 1) } \cup { << ver, << "", "text", "TT1", "TIT1" >> >> })
      k == vk[2]
      x == One(h, OtherIds(ver))
  IN IF One(h, 1..6) = 1 THEN Fr(x[1], OtherValue(x[2], One(h, { "", "me", "a,b" })))
     ELSE Fr(IdIn(ver, k),
             CASE k[2] = "text" -> Text(RandT(h))
               [] k[2] \in { "comm", "udt" } -> [ k |-> k[2], dsc |-> RandT(h), t |-> RandT(h) ]
               [] k[2] = "pcnt" -> [ k |-> "pcnt", n |-> One(h, Ns) ]
               [] k[2] = "popm" -> [ k |-> "popm", o |-> One(h, { "", "m@e", "a \"b\"" }), r |-> One(h, 0..255), n |-> One(h, Ns) ]
               [] k[2] = "xtag" -> [ k |-> "xtag", o |-> One(h, { "", "m@e", "a \"b\"" }), m |-> One(h, Clouds) ])
RandTag(h) == LET ver == One(h, 2..4)
              IN [ ver |-> ver, pad |-> One(h, { 0, 1, 9, 300 }), frames |-> [ i \in 1..One(h, 1..5) |-> RandFrame(h, ver) ] ]
RandV1(h) == LET x == One(h, BOOLEAN)
             IN [ title |-> RandLatin(h), artist |-> RandLatin(h), album |-> RandLatin(h), year |-> One(h, { "", "1999", "\"7" }), comment |-> RandLatin(h),
                  genre |-> One(h, 0..255), track |-> One(h, { -1, 1, 7, 200, 255 }), ext |-> x, xgenre |-> IF x THEN RandLatin(h) ELSE "" ]
RandFile(h) == IF One(h, 1..8) = 1 THEN Bad
               ELSE File([ i \in 1..One(h, { 0, 1, 2, 3 }) |-> RandTag(h) ], IF One(h, BOOLEAN) THEN << RandV1(h) >> ELSE <<>>)
RandCfgs(h) == { [ files |-> [ i \in 1..One(h, 1..3) |-> RandFile(h) ], only |-> One(h, { {}, {}, {}, { 1 }, { 3 }, { 1, 3 }, { 2, 3 } }),
                   fmt |-> One(h, Fmts), genre |-> One(h, BOOLEAN), ncomm |-> One(h, { 0, 1, 2, 6, 6 }) ] }
KindSpec == Init /\ [][Next(KindCfgs)]_vars
TextSpec == Init /\ [][Next(TextCfgs)]_vars
ShapeSpec == Init /\ [][Next(ShapeCfgs)]_vars
RandSpec == Init /\ [][ (stage = "new" /\ \E c \in RandCfgs(stage) : Start(c)) \/ Show \/ Finish ]_vars
=============================================================================
