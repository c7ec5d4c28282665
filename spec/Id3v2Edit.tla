----------------------------- MODULE Id3v2Edit -----------------------------
(* Histories of edits to ID3v2 tags held in named slots, as edits to plain    *)
(* lists of frames; copies; and what lookups and writes report after each.    *)
EXTENDS Id3v2

CONSTANTS Vers,     \* versions
          MaxOps,   \* edits per history
          EmitAt,   \* emit histories of this length only (0: all)
          OpKinds,  \* the kinds of edits
          Starts,   \* how tags start: subset of { "empty", "few", "ext", "foot", "texts", "flags" }
          Generics, \* text frames edited through the interface for arbitrary ones
          NonDet,   \* edits may address one of several frames of the same name
          Looks, Writes  \* what to put in the emitted history

VARIABLES st,     \* slot -> tag
          ops,    \* the history: [ op, s, t, i, j, f, name, x, y, n ]
          hist,   \* what is to be observed after each step
          start, done
vars == << st, ops, hist, start, done >>

Nil == [ ver |-> 0 ]
Slots == { "a", "b" }

A == << 65 >>
BB == << 66, 98 >>
Texts == { A, BB, <<>> }
Ver == start.ver

TextEnc == IF Ver = 4 THEN << 3 >> ELSE << 0 >>
TitleId == IF Ver = 2 THEN "TT2" ELSE "TIT2"
AlbumId == IF Ver = 2 THEN "TAL" ELSE "TALB"
FieldId == [ album |-> AlbumId, artist |-> IF Ver = 2 THEN "TP1" ELSE "TPE1",
             content_type |-> IF Ver = 2 THEN "TCO" ELSE "TCON",
             encoded_by |-> IF Ver = 2 THEN "TEN" ELSE "TENC",
             languages |-> IF Ver = 2 THEN "TLA" ELSE "TLAN", title |-> TitleId,
             track |-> IF Ver = 2 THEN "TRK" ELSE "TRCK", year |-> IF Ver = 2 THEN "TYE" ELSE "TYER" ]
FieldNames == DOMAIN FieldId

Flagged(f) == IF Ver = 2 THEN f ELSE [ f EXCEPT !.tap = TRUE, !.gid = 9 ]
Id(kind) == CASE kind = "TXXX" -> IF Ver = 2 THEN "TXX" ELSE "TXXX"
              [] kind = "COMM" -> IF Ver = 2 THEN "COM" ELSE "COMM"
              [] kind = "PCNT" -> IF Ver = 2 THEN "CNT" ELSE "PCNT"
              [] kind = "POPM" -> IF Ver = 2 THEN "POP" ELSE "POPM"
              [] kind = "XTAG" -> IF Ver = 2 THEN "XTG" ELSE "XTAG"
              [] OTHER -> IF Ver = 2 THEN "QQQ" ELSE "QQQQ"

Comment(d, x) == Frame(Id("COMM"), << 0, 101, 110, 103 >> \o Nul(d) \o x)
Udt(d, x)     == Frame(Id("TXXX"), << 0 >> \o Nul(d) \o x)
TextFrame(id, x) == Frame(id, TextEnc \o x)

Universe == {
  Frame(TitleId, << 0, 65 >>), Frame(TitleId, << 0, 255 >>), Frame(AlbumId, << 0, 67 >>),
  Comment(<<>>, << 68 >>), Comment(A, << 255 >>), Frame(Id("PCNT"), << 0, 0, 0, 5 >>),
  Frame(Id("PCNT"), << 255 >>), Frame(Id("PCNT"), << 3, 255, 255, 255, 255 >>), Frame(Id("POPM"), Nul(A) \o << 9, 0, 0, 1, 0 >>),
  Frame(Id("POPM"), Nul(BB) \o << 255 >>), Udt(A, << 69 >>),
  Frame(Id("XTAG"), CloudBytes(A, << << A, << BB >> >> >>)), Flagged(Frame(Id("unknown"), << 255, 224, 0 >>)) }

Few == << Frame(TitleId, << 0, 65 >>), Comment(<<>>, << 68 >>), Frame(Id("POPM"), Nul(A) \o << 9, 0, 0, 1, 0 >>),
          Frame(AlbumId, << 0, 67 >>), Frame(Id("PCNT"), << 0, 0, 0, 5 >>) >>

\* frames with flags of their own; a tag cloud with an empty value and a bare key
Unsynced(f) == IF Ver = 4 THEN [ f EXCEPT !.uns = TRUE ] ELSE Flagged(f)
Sized(f) == IF Ver = 4 THEN [ f EXCEPT !.dli = TRUE ] ELSE f
Flags == << Unsynced(Comment(<<>>, << 255, 224, 255 >>)), Sized(Frame(TitleId, << 0, 65 >>)),
            Unsynced(Sized(Flagged(Frame(Id("POPM"), Nul(A) \o << 255, 255, 0, 1, 0 >>)))),
            Frame(Id("XTAG"), CloudBytes(A, << << A, << <<>>, BB >> >>, << BB, <<>> >> >>)),
            Unsynced(Frame(Id("PCNT"), << 0, 255, 0, 255 >>)) >>

\* the identifiers of all text frames
TextList == SelectSeq([ i \in 1..Len(TextTable) |-> TextTable[i][IF Ver = 2 THEN 1 ELSE 2] ], LAMBDA id : id # "")
FreshTag(how) ==
  CASE how = "empty" -> [ NewTag(Ver) EXCEPT !.pad = 3 ]
    [] how = "few"   -> [ NewTag(Ver) EXCEPT !.frames = Few ]
    [] how = "ext"   -> [ NewTag(Ver) EXCEPT !.frames = Few, !.pad = 2, !.ext = Ver > 2, !.crc = Ver > 2,
                                             !.exp = Ver > 2, !.rst = IF Ver = 4 THEN 171 ELSE -1 ]
    [] how = "foot"  -> [ NewTag(Ver) EXCEPT !.frames = Few, !.exp = Ver > 2, !.foot = Ver = 4 ]
    [] how = "flags" -> [ NewTag(Ver) EXCEPT !.frames = Flags ]
    [] how = "texts" -> [ NewTag(Ver) EXCEPT !.frames =
                            [ i \in 1..Len(TextList) |-> Frame(TextList[i], << 0, 64 + i >>) ] ]

\* ------------------------------------------------------------ lists of frames
InsertAt(s, i, x) == Take(s, i) \o << x >> \o Drop(s, i)          \* i is 0-based
RemoveAt(s, i) == Take(s, i) \o Drop(s, i + 1)
ReplaceAt(s, i, x) == [ s EXCEPT ![i + 1] = x ]
Where(s, id) == { i \in 0..(Len(s) - 1) : s[i + 1].id = id }
WhereText(s, id) == { i \in Where(s, id) : s[i + 1].kind = "text" }

RECURSIVE MinBE(_)
MinBE(n) == IF n < 256 THEN << n >> ELSE MinBE(n \div 256) \o << n % 256 >>
\* the next count, in as few bytes as will do
RECURSIVE IncBE(_)
IncBE(b) == IF b = <<>> THEN << 1 >>
            ELSE IF Last(b) < 255 THEN Take(b, Len(b) - 1) \o << Last(b) + 1 >> ELSE IncBE(Take(b, Len(b) - 1)) \o << 0 >>
RECURSIVE Strip0(_)
Strip0(b) == IF Len(b) > 1 /\ b[1] = 0 THEN Strip0(Tail(b)) ELSE b

\* ----------------------------------------------------------- what is observed
LookOf(t) ==
  LET s == t.frames
      Sel(k) == SelectSeq(s, LAMBDA f : f.kind = k)
      pc == Sel("PCNT")
  IN [ num |-> Len(s),
       has |-> [ id \in { f.id : f \in Universe } \cup { FieldId[n] : n \in FieldNames }
                 |-> Cardinality(Where(s, id)) ],
       fields |-> [ n \in FieldNames |-> { Tail(s[i + 1].data) : i \in WhereText(s, FieldId[n]) } ],
       nfields |-> [ n \in FieldNames |-> Cardinality(WhereText(s, FieldId[n])) ],
       npc |-> Len(pc), pc |-> IF Len(pc) = 1 THEN pc[1].data ELSE <<>>,
       comments |-> [ i \in 1..Len(Sel("COMM")) |-> Seen(t.ver, Sel("COMM")[i]) ],
       play_counts |-> [ i \in 1..Len(pc) |-> Seen(t.ver, pc[i]) ],
       popms |-> [ i \in 1..Len(Sel("POPM")) |-> Seen(t.ver, Sel("POPM")[i]) ] ]

Snap(t) == IF t = Nil THEN [ ver |-> 0 ]
           ELSE [ ver |-> t.ver, tag |-> t, seen |-> SeenAll(t),
                  look |-> IF Looks THEN LookOf(t) ELSE <<>>,
                  plain |-> IF Writes THEN Encode(t, FALSE) ELSE <<>>,
                  unsync |-> IF Writes THEN Encode(t, TRUE) ELSE <<>>,
                  needs |-> Writes /\ Needs(t) ]
Snaps(x) == [ s \in Slots |-> Snap(x[s]) ]

Op0 == [ op |-> "", s |-> "a", t |-> "", i |-> 0, j |-> 0, f |-> Frame("QQQ", <<>>), name |-> "",
         x |-> <<>>, y |-> <<>>, n |-> 0, base |-> FALSE ]

\* ---------------------------------------------------------------------- steps
Init == /\ \E v \in Vers, w \in Starts : start = [ ver |-> v, how |-> w ]
        /\ st = [ s \in Slots |-> IF s = "a" THEN FreshTag(start.how) ELSE Nil ]
        /\ ops = <<>> /\ hist = << Snaps(st) >> /\ done = FALSE

Live == { s \in Slots : st[s] # Nil }
Do(o, x) == /\ st' = x /\ ops' = Append(ops, o) /\ hist' = Append(hist, Snaps(x))
Edit(o, s, fs) == Do(o, [ st EXCEPT ![s].frames = fs ])
Kind(k) == k \in OpKinds

Push(s) == Kind("push") /\ \E f \in Universe, b \in BOOLEAN :
  Edit([ Op0 EXCEPT !.op = "push", !.s = s, !.f = f, !.base = b ], s, Append(st[s].frames, f))
Ins(s) == Kind("ins") /\ \E f \in Universe, i \in 0..Len(st[s].frames) :
  Edit([ Op0 EXCEPT !.op = "ins", !.s = s, !.f = f, !.i = i, !.base = i % 2 = 0 ], s,
       InsertAt(st[s].frames, i, f))
Erase(s) == Kind("erase") /\ \E i \in 0..(Len(st[s].frames) - 1) :
  Edit([ Op0 EXCEPT !.op = "erase", !.s = s, !.i = i ], s, RemoveAt(st[s].frames, i))
EraseR(s) == Kind("eraser") /\ \E i \in 0..Len(st[s].frames), j \in 0..Len(st[s].frames) :
  i <= j /\ Edit([ Op0 EXCEPT !.op = "eraser", !.s = s, !.i = i, !.j = j ], s,
                 Take(st[s].frames, i) \o Drop(st[s].frames, j))
Set(s) == Kind("set") /\ \E f \in Universe, i \in 0..(Len(st[s].frames) - 1) :
  Edit([ Op0 EXCEPT !.op = "set", !.s = s, !.f = f, !.i = i, !.base = i % 2 = 1 ], s,
       ReplaceAt(st[s].frames, i, f))
RemoveIf(s) == Kind("removeif") /\ \E id \in { f.id : f \in Universe } :
  Edit([ Op0 EXCEPT !.op = "removeif", !.s = s, !.name = id ], s,
       SelectSeq(st[s].frames, LAMBDA f : f.id # id))
SetText(s, o, id, x) ==
  LET W == WhereText(st[s].frames, id) IN
  IF W = {} THEN Edit(o, s, Append(st[s].frames, TextFrame(id, x)))
  ELSE /\ NonDet \/ Cardinality(W) = 1
       /\ \E i \in W : Edit(o, s, [ st[s].frames EXCEPT ![i + 1].data = TextEnc \o x ])
Field(s) == Kind("field") /\ \E n \in FieldNames, x \in Texts :
  SetText(s, [ Op0 EXCEPT !.op = "field", !.s = s, !.name = n, !.x = x ], FieldId[n], x)
\* the same through the interface for arbitrary text frames
\* (which knows them by their ID3v2.3 identifiers)
GenericId(id) == LET e == CHOOSE i \in 1..Len(TextTable) : TextTable[i][2] = id
                 IN TextTable[e][IF Ver = 2 THEN 1 ELSE 2]
Generically == { id \in Generics : GenericId(id) # "" }
Generic(s) == Kind("text") /\ \E n \in Generically, x \in Texts :
  SetText(s, [ Op0 EXCEPT !.op = "text", !.s = s, !.name = n, !.x = x ], GenericId(n), x)
Del(s) == Kind("del") /\ \E n \in Generically :
  LET W == Where(st[s].frames, GenericId(n))
      o == [ Op0 EXCEPT !.op = "del", !.s = s, !.name = n ] IN
  IF W = {} THEN Edit(o, s, st[s].frames)
  ELSE /\ NonDet \/ Cardinality(W) = 1
       /\ \E i \in W : Edit(o, s, RemoveAt(st[s].frames, i))
AddComment(s) == Kind("comment") /\ \E x \in Texts, d \in { A, <<>> } :
  Edit([ Op0 EXCEPT !.op = "comment", !.s = s, !.x = x, !.y = d ], s, Append(st[s].frames, Comment(d, x)))
AddUdt(s) == Kind("udt") /\ \E x \in Texts, d \in { A, <<>> } :
  Edit([ Op0 EXCEPT !.op = "udt", !.s = s, !.x = x, !.y = d ], s, Append(st[s].frames, Udt(d, x)))
Pad(s) == Kind("pad") /\ \E n \in IF st[s].foot THEN { 0 } ELSE { 0, 1, 130, 600 } :
  Do([ Op0 EXCEPT !.op = "pad", !.s = s, !.n = n ], [ st EXCEPT ![s].pad = n ])

\* changing a frame in place
Counter(f) == IF f.kind = "PCNT" THEN f.data ELSE Tail(AfterNul(f.data))
WithCounter(f, c) == IF f.kind = "PCNT" THEN [ f EXCEPT !.data = c ]
                     ELSE [ f EXCEPT !.data = Nul(UpToNul(@)) \o << AfterNul(@)[1] >> \o c ]
Mutate(s) == Kind("mut") /\ \E i \in 0..(Len(st[s].frames) - 1) :
  LET f == st[s].frames[i + 1]
      M(what, x, n, g) == Edit([ Op0 EXCEPT !.op = "mut", !.s = s, !.i = i, !.name = what, !.x = x, !.n = n ], s,
                               ReplaceAt(st[s].frames, i, g)) IN
  \/ /\ f.kind \in { "PCNT", "POPM" }
     /\ \/ \E n \in { 0, 255, 256, 65535 } : M("count", <<>>, n, WithCounter(f, MinBE(n)))
        \/ M("inc", <<>>, 0, WithCounter(f, IncBE(Strip0(Counter(f)))))
  \/ /\ f.kind = "POPM"
     /\ \E r \in { 0, 255 } : M("rating", <<>>, r,
          [ f EXCEPT !.data = Nul(UpToNul(@)) \o << r >> \o Tail(AfterNul(@)) ])
  \/ /\ f.kind = "COMM"
     /\ \E x \in Texts :
          \/ M("ctext", x, 0, [ f EXCEPT !.data = Take(@, 4) \o Nul(UpToNul(Drop(@, 4))) \o x ])
          \/ M("cdesc", x, 0, [ f EXCEPT !.data = Take(@, 4) \o Nul(x) \o AfterNul(Drop(@, 4)) ])
  \/ /\ f.kind = "text"
     /\ \E x \in Texts : M("text", x, 0, [ f EXCEPT !.data = TextEnc \o x ])
  \/ /\ f.kind = "XTAG"
     /\ M("cloud", << 67, 61, 68 >>, 0,   \* update with C=D
          [ f EXCEPT !.data = CloudBytes(A, << << << 67 >>, << << 68 >> >> >> >>) ])

\* copies: constructing one, assigning over another, through the base class, to itself
Copy == /\ Kind("copy")
        /\ \E s \in Live, t \in Slots, how \in { "copy", "clone", "assign" } :
             /\ how = "assign" => t \in Live
             /\ how # "assign" => s # t
             /\ Do([ Op0 EXCEPT !.op = how, !.s = s, !.t = t ], [ st EXCEPT ![t] = st[s] ])
\* another tag to be assigned over
Fresh == /\ Kind("copy") /\ \E w \in Starts :
            Do([ Op0 EXCEPT !.op = "fresh", !.s = "b", !.name = w ], [ st EXCEPT !["b"] = FreshTag(w) ])
DropIt == /\ Kind("copy") /\ Live = Slots
          /\ Do([ Op0 EXCEPT !.op = "drop", !.s = "b" ], [ st EXCEPT !["b"] = Nil ])

Step == /\ Len(ops) < MaxOps
        /\ \/ \E s \in Live : \/ Push(s) \/ Ins(s) \/ Erase(s) \/ EraseR(s) \/ Set(s) \/ RemoveIf(s)
                              \/ Field(s) \/ Generic(s) \/ Del(s) \/ AddComment(s) \/ AddUdt(s)
                              \/ Pad(s) \/ Mutate(s)
           \/ Copy \/ Fresh \/ DropIt
        /\ UNCHANGED << start, done >>
Finish == /\ EmitAt = 0 \/ Len(ops) = EmitAt
          /\ done' = TRUE /\ UNCHANGED << st, ops, hist, start >>
Next == ~done /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars

\* --- properties of the specification
Countable == \A s \in Live : Len(st[s].frames) <= 5 + MaxOps
\* an edit of one slot leaves the other alone
Independent == [][ \A s \in Slots : (ops' # ops /\ Last(ops').op \notin { "copy", "clone", "assign", "fresh", "drop" }
                                     /\ Last(ops').s # s) => st'[s] = st[s] ]_vars
\* copies are equal to what they were copied from
Equal == [][ (ops' # ops /\ Last(ops').op \in { "copy", "clone", "assign" })
             => st'[Last(ops').t] = st[Last(ops').s] ]_vars
WellFormed == \A s \in Live : Decode(Encode(st[s], FALSE)) = st[s]

Out == done => Emit([ start |-> start, ops |-> ops, hist |-> hist ])
=============================================================================
