----------------------------- MODULE ScriptGen -----------------------------
(* Files and scripts to explore.  The parameter h only keeps TLC from taking a *)
(* random choice for a constant.                                               *)
EXTENDS Script

One(h, S) == RandomElement(S)
Chance(h, k, n) == RandomElement(1..n) <= k

\* ------------------------------------------------------------------- values
Ascii == { "", "Metal", "A", "Some longer text: \\ / & = % + ? #", "x  y", "1999" }
Texts(ver) == Ascii \cup { "u:latin", "u:greek", "u:kanji" } \cup IF ver = 4 THEN { "u:multi" } ELSE {}
Langs == { "eng", "und", "XXX", "u:n", "u:h" }       \* the last two stand for unusual bytes
Owners == { "", "me", "you@example.com" }
Ns == { "0", "1", "255", "256", "65536", "4294967295", "4294967296", "18446744073709551615" }
Clouds == { << >>, [ k |-> { "v" } ], [ k |-> {}, x |-> { "1", "2" } ],
            "sub genres" :> { "post rock", "100%", "a=b&c" }, [ x |-> { "u:greek" } ] }
Datas == { "b:1", "b:2", "b:3", "b:4", "b:5", "b:6" }
Value(h, k, ver) ==
  CASE k = "text" -> [ k |-> k, t |-> One(h, Texts(ver)) ]
    [] k = "comm" -> [ k |-> k, lang |-> One(h, Langs), dsc |-> One(h, Texts(3)), t |-> One(h, Texts(3)) ]
    [] k = "udt"  -> [ k |-> k, dsc |-> One(h, Texts(3)), t |-> One(h, Texts(ver)) ]
    [] k = "pcnt" -> [ k |-> k, n |-> One(h, Ns) ]
    [] k = "popm" -> [ k |-> k, o |-> One(h, Owners), r |-> One(h, { 0, 1, 128, 255 }), n |-> One(h, Ns) ]
    [] k = "xtag" -> [ k |-> k, o |-> One(h, Owners), m |-> One(h, Clouds) ]
    [] k = "data" -> [ k |-> k, b |-> One(h, Datas) ]
Others(ver) == CASE ver = 2 -> { "UFI", "ZZZ", "PIC", "BUF" }
                 [] ver = 3 -> { "UFID", "ZZZZ", "PRIV", "APIC", "TSO2" }
                 [] ver = 4 -> { "UFID", "ZZZZ", "PRIV", "APIC", "TDRC", "TSOP" }
\* some data are text, for text frames of no known kind
TextData == { "b:5", "b:6" }
OtherFrame(h, ver) == LET id == One(h, Others(ver))
                      IN [ id |-> id, v |-> [ k |-> "data", b |-> IF SubSeq(id, 1, 1) = "T" THEN One(h, TextData) ELSE
                                              One(h, IF SubSeq(id, 1, 1) = "Z" \/ id = "PRIV" THEN Datas ELSE { "b:4" }) ] ]
KnownKinds(ver) == { k \in KindSet : IdIn(ver, k) # "" }
TextKinds(ver) == { k \in KnownKinds(ver) : k[2] = "text" }
OddKinds(ver) == { k \in KnownKinds(ver) : k[2] # "text" }
KnownFrame(h, ver, k) == [ id |-> IdIn(ver, k), v |-> Value(h, k[2], ver) ]
RandFrame(h, ver) ==
  LET c == One(h, 1..10)
  IN (IF c <= 4 THEN KnownFrame(h, ver, One(h, TextKinds(ver)))
      ELSE IF c <= 8 THEN KnownFrame(h, ver, One(h, OddKinds(ver))) ELSE OtherFrame(h, ver))
     @@ [ keep |-> IF ver = 2 \/ Chance(h, 6, 10) THEN Default ELSE [ i \in 1..3 |-> One(h, BOOLEAN) ] ]
RandTag(h, ver) == [ ver |-> ver, exp |-> ver # 2 /\ Chance(h, 2, 10), frames |-> [ i \in 1..One(h, 1..4) |-> RandFrame(h, ver) ] ]
V1Texts == { "", "Metal", "u:latin", "Exactly thirty characters long" }
Long == V1Texts \cup { "A text just beyond thirty chars", "Sixty and some characters: that is two thirds of the space there is" }
RandX(h) == [ xgenre |-> One(h, { "", "Doom-ish" }), speed |-> One(h, 0..4), start |-> One(h, { "", "001:30" }), end |-> One(h, { "", "004:05" }) ]
RandV1(h) ==
  LET x == Chance(h, 4, 10)
      tr == Chance(h, 1, 2)
      T == IF x THEN Long ELSE V1Texts
  IN [ title |-> One(h, T), artist |-> One(h, T), album |-> One(h, T), year |-> One(h, { "", "1999", "77" }),
       comment |-> One(h, { "", "A comment", "u:latin", "28 characters, as it happens" } \cup IF tr THEN {} ELSE { "Exactly thirty characters long" }),
       genre |-> One(h, { 0, 17, 127, 128, 255 }), track |-> IF tr THEN One(h, { 1, 7, 127, 128, 255 }) ELSE -1,
       ext |-> x, x |-> IF x THEN RandX(h) ELSE NoExt ]
RandFiles(h) == { [ v2 |-> [ i \in 1..One(h, { 0, 1, 1, 2, 3 }) |-> RandTag(h, One(h, 2..4)) ],
                    v1 |-> IF Chance(h, 5, 10) THEN << RandV1(h) >> ELSE <<>> ] }

\* -------------------------------------------------------------------- steps
RandFl(h) == [ i \in 1..3 |-> One(h, { "t", "f", "n" }) ]
SetLang(h, v) == IF v.k = "comm" /\ Chance(h, 2, 10) THEN [ v EXCEPT !.lang = One(h, { "", "fr", "engl" }) ] ELSE v
RandObject(h, ver) ==
  LET k == One(h, IF Chance(h, 1, 2) THEN TextKinds(ver) ELSE OddKinds(ver))
      o == OtherFrame(h, ver)
  IN IF Chance(h, 8, 10) THEN [ sym |-> k[1], id |-> "", v |-> SetLang(h, Value(h, k[2], ver)), fl |-> RandFl(h) ]
     ELSE [ sym |-> "unknown-frame", id |-> o.id, v |-> o.v, fl |-> RandFl(h) ]
Write0(h) == [ op |-> "write", u |-> One(h, { "t", "f", "n" }), copy |-> Chance(h, 2, 10) ]
\* a step that changes the tags held
RandEdit(h, m) ==
  LET i == One(h, 1..Len(m))
      t == m[i]
      j == One(h, 1..Len(t.frames))
      f == t.frames[j]
      c == One(h, 1..12)
      ver == One(h, 2..4)
  IN CASE c <= 4 -> [ op |-> "set", i |-> i, j |-> j, v |-> IF f.v.k = "data" THEN [ f.v EXCEPT !.b = One(h, TextData) ]
                                                            ELSE SetLang(h, Value(h, f.v.k, t.ver)) ]
       [] c = 5 -> [ op |-> "flag", i |-> i, j |-> j, fl |-> RandFl(h) ]
       [] c \in { 6, 7, 8 } -> [ op |-> "add", i |-> i, j |-> j, o |-> RandObject(h, t.ver) ]
       [] c = 9 /\ Len(t.frames) > 1 -> [ op |-> "del", i |-> i, j |-> j ]
       [] c = 10 /\ ~ \E x \in 1..Len(t.frames) : t.frames[x].v.k \in { "data" } \/ ("t" \in DOMAIN t.frames[x].v /\ t.frames[x].v.t = "u:multi") ->
              [ op |-> "ver", i |-> i, ver |-> ver ]
       [] c = 11 -> [ op |-> "tag", i |-> i, t |-> [ ver |-> ver, exp |-> FALSE, frames |-> << RandObject(h, ver) >> ] ]
       [] c = 12 /\ Len(m) > 1 -> [ op |-> "drop", i |-> i ]
       [] OTHER -> [ op |-> "exp", i |-> i, exp |-> One(h, BOOLEAN) ]
RandObject1(h) == SeeV1(RandV1(h))
RandSteps(s, h) ==
  LET c == One(h, 1..10)
      v1 == Chance(h, 1, 4)
  IN { IF v1 /\ c <= 2 THEN [ op |-> "read1" ]
       ELSE IF v1 /\ c <= 6 /\ s.mem1 # <<>> THEN [ op |-> "write1" ]
       ELSE IF v1 THEN [ op |-> "set1", o |-> RandObject1(h) ]
       ELSE IF s.mem = <<>> \/ c <= 2 THEN [ op |-> "read" ]
       ELSE IF c <= 5 THEN Write0(h)
       ELSE IF s.mem[1] = <<>> THEN [ op |-> "tag", i |-> 1, t |-> LET v == One(h, 2..4) IN [ ver |-> v, exp |-> FALSE, frames |-> << RandObject(h, v) >> ] ]
       ELSE RandEdit(h, s.mem[1]) }

\* ------------------------------------------------------ every kind of frame
\* a file with two frames of a kind: read, written, one of them set, written, read
Versioned == { << ver, k >> \in (2..4) \X KindSet : IdIn(ver, k) # "" }
KindFiles == { [ v2 |-> << [ ver |-> ver, exp |-> FALSE, frames |-> << f, [ id |-> "ZZZ" \o (IF ver = 2 THEN "" ELSE "Z"), v |-> [ k |-> "data", b |-> "b:1" ], keep |-> Default ] >> ] >>,
                 v1 |-> <<>> ] : << ver, f >> \in
               UNION { LET ver == vk[1] k == vk[2] IN { << ver, [ id |-> IdIn(ver, k), v |-> v, keep |-> q ] >> : q \in IF ver = 2 THEN { Default } ELSE { Default, << FALSE, TRUE, TRUE >> },
                           v \in CASE k[2] = "text" -> { [ k |-> "text", t |-> t ] : t \in { "A", "u:greek" } }
                                   [] k[2] = "comm" -> { [ k |-> "comm", lang |-> l, dsc |-> d, t |-> t ] : l \in Langs, d \in { "", "u:latin" }, t \in { "A", "u:kanji" } }
                                   [] k[2] = "udt"  -> { [ k |-> "udt", dsc |-> d, t |-> t ] : d \in { "", "u:greek" }, t \in { "A", "u:latin" } }
                                   [] k[2] = "pcnt" -> { [ k |-> "pcnt", n |-> n ] : n \in Ns }
                                   [] k[2] = "popm" -> { [ k |-> "popm", o |-> o, r |-> r, n |-> n ] : o \in Owners, r \in { 0, 255 }, n \in { "0", "4294967296" } }
                                   [] k[2] = "xtag" -> { [ k |-> "xtag", o |-> o, m |-> m ] : o \in Owners, m \in Clouds } } :
                       vk \in Versioned } }
Second(v) == CASE v.k = "text" -> [ v EXCEPT !.t = "u:latin" ]
               [] v.k = "comm" -> [ v EXCEPT !.t = "1999", !.dsc = "u:greek" ]
               [] v.k = "udt"  -> [ v EXCEPT !.t = "u:kanji" ]
               [] v.k = "pcnt" -> [ v EXCEPT !.n = "256" ]
               [] v.k = "popm" -> [ v EXCEPT !.n = "256", !.r = 128 ]
               [] v.k = "xtag" -> [ v EXCEPT !.m = [ k |-> { "v" }, l |-> { "w" } ] ]
               [] OTHER -> v
KindSteps(s, h) ==
  CASE Len(h) = 1 -> { [ op |-> "read" ] }
    [] Len(h) = 2 -> { [ op |-> "write", u |-> "f", copy |-> FALSE ], [ op |-> "write", u |-> "t", copy |-> TRUE ] }
    [] Len(h) = 3 -> { [ op |-> "set", i |-> 1, j |-> 1, v |-> Second(s.mem[1][1].frames[1].v) ] }
    [] Len(h) = 4 -> { [ op |-> "write", u |-> "n", copy |-> FALSE ] }
    [] OTHER -> { [ op |-> "read" ] }
=============================================================================
