------------------------------ MODULE Commands ------------------------------
(* The tag-editing commands as functions on files.  A file's tags are          *)
(*   v2: a sequence of ID3v2 tags, each a version and a sequence of frames,    *)
(*   v1: a sequence of at most one ID3v1 tag.                                  *)
(* Texts are names of texts; the harness gives them their characters.  Counts  *)
(* are sequences of four base-65536 digits, lowest first.                      *)
EXTENDS Bytes, Integers

Txt(id, t)     == [ k |-> "text", id |-> id, t |-> t ]
Comm(t)        == [ k |-> "comm", t |-> t ]
Pcnt(n)        == [ k |-> "pcnt", n |-> n ]
Popm(o, r, n)  == [ k |-> "popm", o |-> o, r |-> r, n |-> n ]
Xtag(o, m)     == [ k |-> "xtag", o |-> o, m |-> m ]
Other(b)       == [ k |-> "other", b |-> b ]
Tag(v, fs)     == [ ver |-> v, frames |-> fs ]
V1(ti, ar, al, ye, co, ge, x, xg) ==
  [ title |-> ti, artist |-> ar, album |-> al, year |-> ye, comment |-> co,
    genre |-> ge, ext |-> x, xgenre |-> xg ]
GenreText(n) == "genre:" \o ToString(n)

\* ------------------------------------------------------------------- counts
Digits == 1..4
N(a) == << a % 65536, a \div 65536, 0, 0 >>
AddN(a, b) ==
  LET c[i \in 0..4] == IF i = 0 THEN 0 ELSE (a[i] + b[i] + c[i - 1]) \div 65536
  IN [ i \in Digits |-> (a[i] + b[i] + c[i - 1]) % 65536 ]
LessN(a, b) == \E i \in Digits : a[i] < b[i] /\ \A j \in Digits : j > i => a[j] = b[j]
MaxN(a, b) == IF LessN(a, b) THEN b ELSE a

\* -------------------------------------------------------------- single frames
Where(fs, P(_)) == { i \in 1..Len(fs) : P(fs[i]) }
IsText(f, id) == f.k = "text" /\ f.id = id
HasText(t, id) == \E i \in 1..Len(t.frames) : IsText(t.frames[i], id)
TextOf(t, id) == LET i == CHOOSE i \in 1..Len(t.frames) : IsText(t.frames[i], id)
                 IN t.frames[i].t
SetText(t, id, x) ==
  IF HasText(t, id)
  THEN [ t EXCEPT !.frames = [ i \in 1..Len(@) |-> IF IsText(@[i], id) THEN Txt(id, x) ELSE @[i] ] ]
  ELSE [ t EXCEPT !.frames = Append(@, Txt(id, x)) ]

\* ------------------------------------------------ making one tag from another
Opt(c, f) == IF c THEN << f >> ELSE <<>>
FromV1(v) ==
  Tag(3, Opt(v.artist # "", Txt("TPE1", v.artist)) \o Opt(v.title # "", Txt("TIT2", v.title)) \o
         Opt(v.album # "", Txt("TALB", v.album)) \o Opt(v.comment # "", Comm(v.comment)) \o
         Opt(v.genre < 192, Txt("TCON", GenreText(v.genre))) \o Opt(Len(v.year) = 4, Txt("TYER", v.year)))
\* ID3v1 tags have room for 30 characters, extended ones for 90
Room(x, ext) == LET n == IF ext THEN 90 ELSE 30
               IN IF Len(x) > n THEN SubSeq(x, 1, n) ELSE x
First(ts, id, P(_)) ==
  LET S == { i \in 1..Len(ts) : HasText(ts[i], id) /\ P(TextOf(ts[i], id)) }
  IN IF S = {} THEN "" ELSE TextOf(ts[CHOOSE i \in S : \A j \in S : i <= j], id)
NonEmpty(x) == x # ""
FromV2(ts) ==
  V1(Room(First(ts, "TIT2", NonEmpty), FALSE), Room(First(ts, "TPE1", NonEmpty), FALSE),
     Room(First(ts, "TALB", NonEmpty), FALSE),
     First(ts, "TYER", LAMBDA x : Len(x) = 4), "", 255, FALSE, "")
BlankV1 == V1("", "", "", "", "", 255, FALSE, "")
BlankV2 == Tag(3, <<>>)

\* -------------------------------------------------------------------- genre
GenreV2(t, c) == SetText(t, "TCON", c.text)
GenreV1(v, c) == [ v EXCEPT !.genre = c.num,
                            !.xgenre = IF v.ext /\ c.num < 192 THEN GenreText(c.num) ELSE @ ]

\* --------------------------------------------------------------------- text
TextFields == << "TALB", "TPE1", "TENC", "TCON", "TIT2", "TRCK", "TYER" >>
\* adds: field -> text, dels: set of fields (any text frames, however many there are)
TextV2(t, c) ==
  LET d == [ t EXCEPT !.frames = SelectSeq(@, LAMBDA f : ~(f.k = "text" /\ f.id \in c.dels)) ]
  IN Fold(LAMBDA a, id : IF id \in DOMAIN c.adds THEN SetText(a, id, c.adds[id]) ELSE a, d, TextFields)
TextV1Field(v, c, id, was) ==
  IF id \in DOMAIN c.adds THEN Room(c.adds[id], v.ext) ELSE IF id \in c.dels THEN "" ELSE was
TextV1(v, c) == [ v EXCEPT !.title = TextV1Field(v, c, "TIT2", @), !.artist = TextV1Field(v, c, "TPE1", @),
                           !.album = TextV1Field(v, c, "TALB", @) ]

\* --------------------------------------------------------------------- popm
\* which: both, pcnt, popm; owner: << >> or << name >>; rating: << >> or << n >>;
\* mode: set, add; n: a count
NewCount(c, was) == IF c.mode = "set" THEN c.n ELSE AddN(was, c.n)
HitPcnt(c, f) == f.k = "pcnt" /\ c.which # "popm"
HitPopm(c, f) == f.k = "popm" /\ c.which # "pcnt" /\ (c.owner = <<>> \/ c.owner = << f.o >>)
PopmFrame(c, f) ==
  IF HitPcnt(c, f) THEN Pcnt(NewCount(c, f.n))
  ELSE IF HitPopm(c, f) THEN Popm(f.o, IF c.rating = <<>> THEN f.r ELSE c.rating[1], NewCount(c, f.n))
  ELSE f
PopmV2(t, c, create) ==
  LET fs == [ i \in 1..Len(t.frames) |-> PopmFrame(c, t.frames[i]) ]
      \* a new counter goes on from what the others say
      most == Fold(LAMBDA a, f : IF f.k \in { "pcnt", "popm" } THEN MaxN(a, f.n) ELSE a, N(0), fs)
      n == IF most = N(0) THEN c.n ELSE most
  IN [ t EXCEPT !.frames = fs \o
        Opt(create /\ c.which # "popm" /\ Where(t.frames, LAMBDA f : HitPcnt(c, f)) = {}, Pcnt(n)) \o
        (IF create /\ c.which # "pcnt" /\ Where(t.frames, LAMBDA f : HitPopm(c, f)) = {} /\
            c.owner # <<>> /\ c.rating # <<>>
         THEN << Popm(c.owner[1], c.rating[1], n) >> ELSE <<>>) ]

\* --------------------------------------------------------------------- xtag
\* owner: "" for any; cloud: key -> set of values; get: just show
HitXtag(c, f) == f.k = "xtag" /\ (c.owner = "" \/ c.owner = f.o)
MergeCloud(f, g) == [ k \in DOMAIN f \cup DOMAIN g |->
                      (IF k \in DOMAIN f THEN f[k] ELSE {}) \cup (IF k \in DOMAIN g THEN g[k] ELSE {}) ]
XtagV2(t, c, create) ==
  IF c.get THEN t
  ELSE [ t EXCEPT !.frames =
    [ i \in 1..Len(@) |-> IF HitXtag(c, @[i])
        THEN Xtag(@[i].o, IF c.merge THEN MergeCloud(@[i].m, c.cloud) ELSE c.cloud) ELSE @[i] ] \o
    Opt(create /\ Where(@, LAMBDA f : HitXtag(c, f)) = {}, Xtag(c.owner, c.cloud)) ]

\* ----------------------------------------------------------------- commands
EditV2(t, c, create) == CASE c.cmd = "genre" -> GenreV2(t, c)
                          [] c.cmd = "text"  -> TextV2(t, c)
                          [] c.cmd = "popm"  -> PopmV2(t, c, create)
                          [] c.cmd = "xtag"  -> XtagV2(t, c, create)
EditV1(v, c) == CASE c.cmd = "genre" -> GenreV1(v, c)
                  [] c.cmd = "text"  -> TextV1(v, c)
\* c.tags: <<>> for no list given, else << indices >>; c.only: "", "1", "2" or "12"
ScopeV1(c) == c.cmd \in { "genre", "text" } /\ c.only # "2" /\ (c.cmd = "text" => c.tags = <<>>)
InScope(c, i) == c.only # "1" /\ (c.tags # <<>> => \E j \in 1..Len(c.tags) : c.tags[j] = i - 1)

\* makev2: never, v1, always; makev1: never, v2, always
Valid(c) == /\ c.only # "12"
            /\ c.only = "1" => c.tags = <<>>
            /\ c.makev2 # "both" /\ c.makev1 # "both"
            /\ c.cmd = "popm" => c.which # "none" /\ c.mode # "both"
MakesV2(f, c) == /\ f.v2 = <<>>
                 /\ c.cmd = "xtag" => ~c.get
                 /\ \/ f.v1 # <<>> /\ c.makev2 # "never"
                    \/ f.v1 = <<>> /\ c.makev2 = "always"
MakesV1(f, c) == /\ f.v1 = <<>>
                 /\ \/ f.v2 # <<>> /\ c.makev1 # "never"
                    \/ f.v2 = <<>> /\ c.makev1 = "always"
Perform(f, c) ==
  LET v2 == IF MakesV2(f, c)
            THEN << EditV2(IF f.v1 = <<>> THEN BlankV2 ELSE FromV1(f.v1[1]), c, TRUE) >>
            ELSE [ i \in 1..Len(f.v2) |-> IF InScope(c, i) THEN EditV2(f.v2[i], c, c.create) ELSE f.v2[i] ]
      v1 == IF MakesV1(f, c)
            THEN << EditV1(IF f.v2 = <<>> THEN BlankV1 ELSE FromV2(v2), c) >>
            ELSE IF f.v1 # <<>> /\ ScopeV1(c) THEN << EditV1(f.v1[1], c) >> ELSE f.v1
  IN [ v2 |-> v2, v1 |-> v1 ]
Apply(f, c) == IF Valid(c) /\ ~c.dry THEN Perform(f, c) ELSE f

\* ------------------------------------------------- what a user may count on
\* Nothing but the selected tags changes, and tags appear only on request.
OnlyInScope(f, c) ==
  LET g == Apply(f, c)
  IN /\ f.v2 # <<>> => /\ Len(g.v2) = Len(f.v2)
                       /\ \A i \in 1..Len(f.v2) : ~InScope(c, i) => g.v2[i] = f.v2[i]
     /\ f.v2 = <<>> => Len(g.v2) <= 1 /\ (g.v2 # <<>> => c.makev2 # "never")
     /\ f.v1 # <<>> => g.v1 # <<>> /\ (~ScopeV1(c) => g.v1 = f.v1)
     /\ f.v1 = <<>> /\ g.v1 # <<>> => c.makev1 # "never"
\* The frames that are none of the command's business stay, in order.
Foreign(c, f) == CASE c.cmd = "genre" -> ~IsText(f, "TCON")
                   [] c.cmd = "text"  -> ~(f.k = "text" /\ (f.id \in c.dels \/ f.id \in DOMAIN c.adds))
                   [] c.cmd = "popm"  -> ~HitPcnt(c, f) /\ ~HitPopm(c, f)
                   [] c.cmd = "xtag"  -> ~HitXtag(c, f)
\* a sequence that begins with another
Begins(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
ForeignStay(f, c) ==
  LET g == Apply(f, c)
  IN \A i \in 1..Len(f.v2) :
       Begins(SelectSeq(g.v2[i].frames, LAMBDA x : Foreign(c, x)),
              SelectSeq(f.v2[i].frames, LAMBDA x : Foreign(c, x)))
\* Setting is idempotent, unless it makes something for the next time.
Setting(c) == c.cmd = "popm" => c.mode = "set" /\ ~c.create
Bag(s) == [ x \in { s[i] : i \in 1..Len(s) } |-> Cardinality({ i \in 1..Len(s) : s[i] = x }) ]
Unordered(f) == [ v2 |-> [ i \in 1..Len(f.v2) |-> [ ver |-> f.v2[i].ver, frames |-> Bag(f.v2[i].frames) ] ],
                  v1 |-> f.v1 ]
Idempotent(f, c) == Setting(c) /\ ~MakesV2(f, c) /\ ~MakesV1(f, c) =>
                    Unordered(Apply(Apply(f, c), c)) = Unordered(Apply(f, c))
DryChangesNothing(f, c) == c.dry \/ ~Valid(c) => Apply(f, c) = f
=============================================================================
