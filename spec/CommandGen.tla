----------------------------- MODULE CommandGen -----------------------------
(* Files and commands to explore: everything within small scopes, and random   *)
(* choices (which TLC makes reproducibly from its seed) beyond.  The parameter *)
(* h only keeps TLC from taking a random choice for a constant.                *)
EXTENDS CommandRun, TLC
K == INSTANCE Kinds

One(h, S) == RandomElement(S)
\* true about k times in n
Chance(h, k, n) == RandomElement(1..n) <= k

Base == [ only |-> "", tags |-> <<>>, makev2 |-> "never", makev1 |-> "never", create |-> FALSE,
          dry |-> FALSE, b |-> FALSE, u |-> FALSE ]
GenreCmd(how, arg, given, text, num) ==
  [ cmd |-> "genre", how |-> how, arg |-> arg, given |-> given, text |-> text, num |-> num ]
\* alias: which of the names of the fields to delete is used
TextCmd(adds, dels) == [ cmd |-> "text", adds |-> adds, dels |-> dels, alias |-> 0 ]
PopmCmd(which, owner, rating, mode, n) ==
  [ cmd |-> "popm", which |-> which, owner |-> owner, rating |-> rating, mode |-> mode, n |-> n ]
XtagCmd(owner, cloud, get, merge) ==
  [ cmd |-> "xtag", owner |-> owner, cloud |-> cloud, get |-> get, merge |-> merge ]

\* ------------------------------------------------------------- small scopes
SmallTag(v, i) == Tag(v, << Txt("TIT2", "Title " \o ToString(i)), Other("z" \o ToString(i)),
                            Txt("TALB", IF i = 1 THEN "" ELSE "Album"), Pcnt(N(i)), Txt("TCON", "Rock"),
                            Xtag("me", [ k |-> { "v" } ]) >>)
SmallV1 == V1("Title v1", "Artist v1", "", "1999", "Comment", 17, FALSE, "")
SmallFiles == { [ v2 |-> t, v1 |-> v ] :
                  t \in { <<>>, << SmallTag(3, 1) >>, << SmallTag(4, 1), SmallTag(2, 2) >>,
                          << SmallTag(2, 1), SmallTag(3, 2), SmallTag(4, 3) >> },
                  v \in { <<>>, << SmallV1 >>, << [ SmallV1 EXCEPT !.ext = TRUE ] >> } }
SmallLists == { <<>>, << 0 >>, << 1 >>, << 2, 0 >>, << 1, 1 >>, << 7 >>, << 0, 1, 2 >> }
Makes(which) == { "never", which, "always", "both" }
SmallCmds ==
  { GenreCmd("w", "", FALSE, GenreText(9), 9) @@ [ only |-> o, tags |-> t, makev2 |-> a, makev1 |-> b ] @@ Base :
      o \in { "", "1", "2", "12" }, t \in SmallLists, a \in Makes("v1"), b \in Makes("v2") } \cup
  { c @@ [ tags |-> t, makev2 |-> a ] @@ Base : t \in SmallLists, a \in Makes("v1"),
      c \in { TextCmd([ TIT2 |-> "New title" ], {}), PopmCmd("both", << "me" >>, << 200 >>, "add", N(1)),
              XtagCmd("me", [ k |-> { "w" } ], FALSE, FALSE), XtagCmd("me", << >>, TRUE, FALSE) } }

\* counters present or not, all options but those on scope and creation
PopmFiles == { [ v2 |-> << Tag(v, Opt(a, Pcnt(N(3))) \o Opt(b, Popm("me", 7, N(9))) \o
                                  Opt(d, Popm("you", 0, N(2)))) >>, v1 |-> <<>> ] :
                 v \in 2..4, a \in BOOLEAN, b \in BOOLEAN, d \in BOOLEAN }
PopmCmds == { PopmCmd(w, o, r, m, N(n)) @@ [ create |-> k ] @@ Base :
                w \in { "both", "pcnt", "popm" }, o \in { <<>>, << "me" >>, << "you" >>, << "a" >> },
                r \in { <<>>, << 128 >> }, m \in { "set", "add" }, n \in { 0, 5 }, k \in BOOLEAN }
XtagFiles == { [ v2 |-> << Tag(v, Opt(a, Xtag("me", [ x |-> { "1", "2" }, y |-> {} ])) \o
                                  Opt(b, Xtag("you", [ x |-> { "3" } ])) \o Opt(d, Xtag("me", [ z |-> { "1" } ]))) >>,
                 v1 |-> <<>> ] : v \in 2..4, a \in BOOLEAN, b \in BOOLEAN, d \in BOOLEAN }
XtagCmds == { XtagCmd(o, m, FALSE, g) @@ [ create |-> k ] @@ Base :
                o \in { "", "me", "you", "a" }, m \in { [ x |-> { "2", "5" } ], [ y |-> {}, w |-> { "1" } ] },
                g \in BOOLEAN, k \in BOOLEAN } \cup
            { XtagCmd(o, <<>>, TRUE, FALSE) @@ Base : o \in { "", "me", "you", "a" } }
\* one field, there or not, set or deleted or both, with another field around
TextFiles == { [ v2 |-> << Tag(v, Opt(a, Txt(id, "old")) \o << Txt("TPE2", "x") >>) >>,
                 v1 |-> IF b THEN << SmallV1 >> ELSE <<>> ] :
                 v \in 2..4, a \in BOOLEAN, b \in BOOLEAN, id \in { TextFields[i] : i \in 1..Len(TextFields) } }
TextCmds == { c @@ Base : c \in UNION { { TextCmd(id :> "new", {}), TextCmd(id :> "new", { id }), TextCmd(<<>>, { id }) } :
                                        id \in { TextFields[i] : i \in 1..Len(TextFields) } } }
\* every text frame there is, up to twice, deleted by every name
AllText == { k \in K!KindSet : k[2] = "text" }
DelFiles == { [ v2 |-> << Tag(x[1], << Txt("TPE2", "x") >> \o [ i \in 1..x[2] |-> Txt(x[3][4], "old") ] \o
                                     << Other("z1"), Txt("TIT1", "y") >>) >>, v1 |-> <<>> ] :
                x \in { y \in (2..4) \X (1..2) \X AllText : K!IdIn(y[1], y[3]) # "" } }
DelCmds(s) == { [ TextCmd(<<>>, { d }) EXCEPT !.alias = a ] @@ Base :
                  d \in { s.v2[1].frames[2].id }, a \in 0..4 }
              \cup { TextCmd(<<>>, { "TOWN", "TRSN", "TRSO" }) @@ Base }

\* ----------------------------------------------------------- random choices
Ascii == { "Metal", "A", "Some longer text, with punctuation: \\ / & = % + ? #", "x  y",
           "Exactly thirty characters long", "A text just beyond thirty chars", "1999", "genre:9", "genre:131" }
Latin == Ascii \cup { "u:latin" }
Wide == Latin \cup { "u:greek", "u:kanji" }
Texts(w) == IF w THEN Wide ELSE Latin
Owners == { "me", "you@example.com", "a" }
Asked == Owners \cup { "you", "ab" }
Counts == { N(0), N(1), N(2), N(255), N(65535), << 65535, 65535, 0, 0 >>, << 65534, 65535, 0, 0 >>,
            << 0, 0, 1, 0 >>, << 65535, 65535, 65535, 0 >>, << 7, 0, 0, 5 >> }
Ratings == { 0, 1, 64, 128, 196, 200, 255 }
Keys == { "sub-genres", "90s", "a b", "k&=%" }
Vals == { "doom", "post rock", "v,w", "x=y&z", "100%", "v" }
RandCloud(h) == [ k \in One(h, SUBSET Keys) |-> One(h, SUBSET Vals) ]
RandCount(h) == One(h, Counts)

MaybeFrame(h, k, f) == IF Chance(h, k, 10) THEN << f >> ELSE <<>>
RandFrames(h, w, i) ==
  MaybeFrame(h, 4, Other("z" \o ToString(i))) \o
  MaybeFrame(h, 5, Txt("TIT2", One(h, Texts(w) \cup { "" }))) \o
  MaybeFrame(h, 4, Pcnt(RandCount(h))) \o
  MaybeFrame(h, 4, Popm("me", One(h, Ratings), RandCount(h))) \o
  MaybeFrame(h, 3, Xtag("me", RandCloud(h))) \o
  MaybeFrame(h, 4, Txt("TPE1", One(h, Texts(w)))) \o
  MaybeFrame(h, 3, Comm(One(h, Ascii))) \o
  MaybeFrame(h, 3, Txt("TPE2", One(h, Texts(w)))) \o
  MaybeFrame(h, 2, Txt("TCOM", One(h, Texts(w)))) \o
  MaybeFrame(h, 3, Xtag("a", RandCloud(h))) \o
  MaybeFrame(h, 3, Txt("TCON", One(h, Texts(w)))) \o
  MaybeFrame(h, 3, Popm("you@example.com", One(h, Ratings), RandCount(h))) \o
  MaybeFrame(h, 3, Other("priv")) \o
  MaybeFrame(h, 3, Txt("TALB", One(h, Texts(w)))) \o
  MaybeFrame(h, 2, Txt("TYER", One(h, { "1999", "2024", "99" }))) \o
  MaybeFrame(h, 3, Txt("TRCK", One(h, { "3", "4/12" }))) \o
  MaybeFrame(h, 2, Txt("TENC", One(h, Texts(w)))) \o
  MaybeFrame(h, 2, Txt("TCOM", One(h, Texts(w))))
\* some order of a sequence
Shuffle(h, s) == LET n == One(h, 0..Len(s))
                     r == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)
                 IN IF Chance(h, 1, 2) THEN r ELSE [ i \in 1..Len(r) |-> r[Len(r) + 1 - i] ]
RandTag(h, w, i) == Tag(One(h, 2..4), Shuffle(h, RandFrames(h, w, i)))
RandV1(h) == V1(One(h, Latin), One(h, Latin \cup { "" }), One(h, Latin \cup { "" }),
                One(h, { "1999", "2001", "", "77" }), One(h, { "A comment", "c", "" }), One(h, { 0, 17, 191, 192, 255 }),
                FALSE, "")
FitV1(v, x) == [ v EXCEPT !.ext = x, !.title = Room(@, x), !.artist = Room(@, x), !.album = Room(@, x) ]
RandFile(h, w) ==
  [ v2 |-> [ i \in 1..One(h, { 0, 1, 1, 2, 2, 3 }) |-> RandTag(h, w, i) ],
    v1 |-> IF ~w /\ Chance(h, 6, 10) THEN << FitV1(RandV1(h), Chance(h, 3, 10)) >> ELSE <<>> ]
RandFiles(h) == { RandFile(h, FALSE) }
RandWideFiles(h) == { RandFile(h, TRUE) }

RandMake(h, which) == IF Chance(h, 1, 40) THEN "both" ELSE One(h, { "never", which, "always" })
RandBase(h) ==
  [ only |-> "", tags |-> IF Chance(h, 3, 10) THEN [ i \in 1..One(h, 1..3) |-> One(h, 0..3) ] ELSE <<>>,
    makev2 |-> RandMake(h, "v1"), makev1 |-> "never", create |-> FALSE, dry |-> FALSE,
    b |-> Chance(h, 2, 10), u |-> Chance(h, 3, 10) ]
RandNum(h) == One(h, { 0, 9, 17, 80, 131, 191 })
RandGenre(h, w) ==
  LET n == RandNum(h)
  IN (IF Chance(h, 5, 10) THEN GenreCmd("w", "", FALSE, GenreText(n), n)
      ELSE IF Chance(h, 5, 10) THEN GenreCmd("g", GenreText(n), FALSE, GenreText(n), n)
      ELSE GenreCmd("G", "Doom?", TRUE, "Doom?", One(h, { 0, 17, 191, 192, 255 })))
     @@ [ only |-> IF Chance(h, 3, 10) THEN One(h, { "1", "2", "12" }) ELSE "",
          makev1 |-> IF w THEN "never" ELSE RandMake(h, "v2"), dry |-> Chance(h, 1, 20) ] @@ RandBase(h)
Fields == { TextFields[i] : i \in 1..Len(TextFields) }
RandText(h, w) ==
  LET fs == One(h, SUBSET Fields)
      d == IF Chance(h, 1, 2) THEN {} ELSE One(h, SUBSET (Fields \cup { "TPE2", "TCOM" }))
  IN TextCmd([ id \in fs |-> IF id = "TYER" THEN One(h, { "1984", "2001" })
                             ELSE IF id = "TRCK" THEN One(h, { "3", "4/12" }) ELSE One(h, Texts(w)) ],
             IF fs = {} /\ d = {} THEN { "TALB" } ELSE d) @@ RandBase(h)
RandPopm(h) ==
  PopmCmd(IF Chance(h, 1, 30) THEN "none" ELSE One(h, { "both", "pcnt", "popm" }),
          IF Chance(h, 3, 10) THEN <<>> ELSE << One(h, Asked) >>,
          IF Chance(h, 4, 10) THEN <<>> ELSE << One(h, Ratings) >>,
          IF Chance(h, 1, 30) THEN "both" ELSE One(h, { "set", "add" }),
          One(h, { N(0), N(1), N(1), N(2), N(300), << 65535, 65535, 0, 0 >>, << 1, 0, 1, 0 >> }))
  @@ [ create |-> Chance(h, 5, 10), dry |-> Chance(h, 1, 20) ] @@ RandBase(h)
RandXtag(h) ==
  LET g == Chance(h, 1, 8)
  IN XtagCmd(IF Chance(h, 3, 10) THEN "" ELSE One(h, Asked),
             IF g THEN <<>> ELSE [ k \in One(h, SUBSET Keys \ { {} }) |-> One(h, SUBSET Vals) ], g, Chance(h, 5, 10))
     @@ [ create |-> Chance(h, 5, 10), dry |-> ~g /\ Chance(h, 1, 20) ] @@ RandBase(h)
RandCmd(h, kind, w) == CASE kind = "genre" -> RandGenre(h, w)
                         [] kind = "text"  -> RandText(h, w)
                         [] kind = "popm"  -> RandPopm(h)
                         [] kind = "xtag"  -> RandXtag(h)
RandCmds(s, h, kinds, w) == { RandCmd(h, One(h, kinds), w) }
=============================================================================
