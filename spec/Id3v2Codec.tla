----------------------------- MODULE Id3v2Codec -----------------------------
(* Building a tag frame by frame; every tag built is written both ways.       *)
EXTENDS Id3v2

CONSTANTS Vers,      \* versions
          Pads,      \* paddings
          Strs,      \* byte strings to make payloads from
          MaxFrames, \* frames per tag
          EmitAt,    \* emit tags of exactly this many frames (-1: all)
          Ids,       \* version -> identifiers used
          Flags      \* frame flags: set of [ tap, fap, ro, gid, cmp, uns, dli ]

VARIABLES tag, cur, done
vars == << tag, cur, done >>

None == [ stage |-> "none", id |-> "", data |-> <<>> ]

\* every field of the restrictions takes every value
Restrictions == { 0, 27, 85, 210, 255 }
Heads(v) ==
  CASE v = 2 -> { [ NewTag(2) EXCEPT !.pad = p ] : p \in Pads }
    [] v = 3 -> { [ NewTag(3) EXCEPT !.pad = p, !.exp = e, !.ext = x # 0, !.crc = x = 2 ]
                  : p \in Pads, e \in BOOLEAN, x \in 0..2 }
    [] v = 4 -> { [ NewTag(4) EXCEPT !.pad = p, !.exp = e ] : p \in Pads, e \in BOOLEAN }
                \cup { [ NewTag(4) EXCEPT !.pad = IF ft THEN 0 ELSE p, !.ext = TRUE, !.crc = c,
                                          !.upd = u, !.rst = r, !.foot = ft ]
                       : p \in Pads, c \in BOOLEAN, u \in BOOLEAN, r \in { -1, 171 }, ft \in BOOLEAN }
                \cup { [ NewTag(4) EXCEPT !.pad = p, !.ext = TRUE, !.crc = TRUE, !.upd = TRUE, !.rst = r ]
                       : p \in Pads, r \in Restrictions }
                \cup { [ NewTag(4) EXCEPT !.foot = TRUE, !.exp = e ] : e \in BOOLEAN }

Init == /\ \E v \in Vers : tag \in Heads(v)
        /\ cur = None /\ done = FALSE

PickId == /\ cur.stage = "none" /\ Len(tag.frames) < MaxFrames
          /\ \E i \in Ids[tag.ver] : cur' = [ stage |-> "id", id |-> i, data |-> <<>> ]
          /\ UNCHANGED << tag, done >>
\* a well-formed tag registers an encryption method under a symbol only once
Symbol(d) == AfterNul(d)[1]
OnlyOne(d) == KindOf(cur.id) = "ENCR" =>
  \A i \in 1..Len(tag.frames) : tag.frames[i].kind = "ENCR" => Symbol(tag.frames[i].data) # Symbol(d)
PickData == /\ cur.stage = "id"
            /\ \E d \in Payloads(tag.ver, KindOf(cur.id), Strs) :
                 OnlyOne(d) /\ cur' = [ cur EXCEPT !.stage = "data", !.data = d ]
            /\ UNCHANGED << tag, done >>
Fits(fl) == /\ tag.ver = 2 => fl.gid = -1 /\ ~fl.tap /\ ~fl.fap /\ ~fl.ro /\ ~fl.cmp
            /\ tag.ver < 4 => ~fl.uns /\ ~fl.dli
            /\ fl.cmp => cur.data \in DOMAIN Zip
            /\ ~(fl.cmp /\ fl.dli)
PickFlags == /\ cur.stage = "data"
             /\ \E fl \in Flags :
                  /\ Fits(fl)
                  /\ tag' = [ tag EXCEPT !.frames = Append(@,
                       [ Frame(cur.id, cur.data) EXCEPT
                           !.tap = fl.tap, !.fap = fl.fap, !.ro = fl.ro, !.gid = fl.gid,
                           !.cmp = fl.cmp, !.uns = fl.uns, !.dli = fl.dli ]) ]
             /\ cur' = None /\ UNCHANGED done
Finish == /\ cur.stage = "none" /\ (EmitAt < 0 \/ Len(tag.frames) = EmitAt)
          /\ done' = TRUE /\ UNCHANGED << tag, cur >>
Next == ~done /\ (PickId \/ PickData \/ PickFlags \/ Finish)
Spec == Init /\ [][Next]_vars

\* --- properties of the specification
RoundTrip == done => \A u \in BOOLEAN : Decode(Encode(tag, u)) = Marked(tag, u)
AnnouncedSize == done => \A u \in BOOLEAN :
  LET e == Encode(tag, u) IN
  /\ IsSS(SubSeq(e, 7, 10))
  /\ FromSS(SubSeq(e, 7, 10)) + 10 + Bit(tag.foot, 10) = Len(e)
NoFalseSync == done => ~HasFalseSync(Encode(tag, TRUE))
\* undoing the scheme gives the plain bytes
Reverses == (done /\ tag.ver < 4) => Resync(Body(tag, TRUE)) = Body(tag, FALSE)
\* only a tag that says it needs unsynchronisation can contain a false sync
NeedsIt == done => (HasFalseSync(Encode(tag, FALSE)) => Needs(tag))

\* what the payloads are alone
FalseSyncs(s) == Cardinality({ i \in 1..(Len(s) - 1) : FalseSync(s[i], s[i + 1]) })
Payload(f) == [ plain |-> Len(f.data), unsync |-> Len(Unsync(f.data, FALSE)), needs |-> FalseSyncs(f.data) ]
PayloadOk == done => \A i \in 1..Len(tag.frames) :
  LET p == Payload(tag.frames[i]) IN p.plain + p.needs <= p.unsync /\ (p.needs > 0) = HasFalseSync(tag.frames[i].data)

\* frames which, were they marked as encrypted, would make the tag one to refuse
\* on writing: there is nothing to encrypt them with
Lockable == IF tag.ver > 2 THEN 1..Len(tag.frames) ELSE {}

Out == done => Emit([ locks |-> Lockable, tag |-> tag, plain |-> Encode(tag, FALSE), unsync |-> Encode(tag, TRUE),
                      needs |-> Needs(tag), seen |-> SeenAll(tag),
                      payloads |-> [ i \in 1..Len(tag.frames) |-> Payload(tag.frames[i]) ],
                      again |-> Encode(Marked(tag, TRUE), FALSE) ])
=============================================================================
