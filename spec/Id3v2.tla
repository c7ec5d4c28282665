------------------------------- MODULE Id3v2 -------------------------------
(* ID3v2.2, 2.3 and 2.4 tags and their layout in bytes.                       *)
(*                                                                            *)
(* A tag is                                                                   *)
(*   [ ver, exp, pad, ext, crc, upd, rst, foot, frames ]                      *)
(* (version, experimental, padding; extended header, with checksum; 2.4 only: *)
(* update flag, restrictions (-1: none), footer) and a frame is               *)
(*   [ id, kind, data, tap, fap, ro, gid, cmp, uns, dli ]                     *)
(* (payload; tag/file alteration and read-only flags, group (-1: none),       *)
(* compressed, and 2.4 only: unsynchronised, data length indicator).          *)
EXTENDS Bytes, Integers, Crc32, Cloud

CONSTANT Zip   \* payload -> its zlib compression, for the payloads ever compressed

UnZip(z) == CHOOSE p \in DOMAIN Zip : Zip[p] = z

IdBytes == [
  TT2 |-> << 84, 84, 50 >>, TP1 |-> << 84, 80, 49 >>, TAL |-> << 84, 65, 76 >>,
  TYE |-> << 84, 89, 69 >>, TRK |-> << 84, 82, 75 >>, TCO |-> << 84, 67, 79 >>,
  TEN |-> << 84, 69, 78 >>, TLA |-> << 84, 76, 65 >>,
  TXX |-> << 84, 88, 88 >>, COM |-> << 67, 79, 77 >>, CNT |-> << 67, 78, 84 >>,
  POP |-> << 80, 79, 80 >>, UFI |-> << 85, 70, 73 >>, XTG |-> << 88, 84, 71 >>,
  QQQ |-> << 81, 81, 81 >>,
  TIT2 |-> << 84, 73, 84, 50 >>, TPE1 |-> << 84, 80, 69, 49 >>, TALB |-> << 84, 65, 76, 66 >>,
  TYER |-> << 84, 89, 69, 82 >>, TRCK |-> << 84, 82, 67, 75 >>, TCON |-> << 84, 67, 79, 78 >>,
  TENC |-> << 84, 69, 78, 67 >>, TLAN |-> << 84, 76, 65, 78 >>,
  TXXX |-> << 84, 88, 88, 88 >>, COMM |-> << 67, 79, 77, 77 >>, PCNT |-> << 80, 67, 78, 84 >>,
  POPM |-> << 80, 79, 80, 77 >>, UFID |-> << 85, 70, 73, 68 >>, XTAG |-> << 88, 84, 65, 71 >>,
  PRIV |-> << 80, 82, 73, 86 >>, ENCR |-> << 69, 78, 67, 82 >>, QQQQ |-> << 81, 81, 81, 81 >>,
  TP2 |-> << 84, 80, 50 >>, TPE2 |-> << 84, 80, 69, 50 >>, TBP |-> << 84, 66, 80 >>,
  TBPM |-> << 84, 66, 80, 77 >>, TCM |-> << 84, 67, 77 >>, TCOM |-> << 84, 67, 79, 77 >>,
  TP3 |-> << 84, 80, 51 >>, TPE3 |-> << 84, 80, 69, 51 >>, TT1 |-> << 84, 84, 49 >>,
  TIT1 |-> << 84, 73, 84, 49 >>, TCR |-> << 84, 67, 82 >>, TCOP |-> << 84, 67, 79, 80 >>,
  TDA |-> << 84, 68, 65 >>, TDAT |-> << 84, 68, 65, 84 >>, TOWN |-> << 84, 79, 87, 78 >>,
  TFT |-> << 84, 70, 84 >>, TFLT |-> << 84, 70, 76, 84 >>, TKE |-> << 84, 75, 69 >>,
  TKEY |-> << 84, 75, 69, 89 >>, TP4 |-> << 84, 80, 52 >>, TPE4 |-> << 84, 80, 69, 52 >>,
  TRC |-> << 84, 82, 67 >>, TSRC |-> << 84, 83, 82, 67 >>, TLE |-> << 84, 76, 69 >>,
  TLEN |-> << 84, 76, 69, 78 >>, TXT |-> << 84, 88, 84 >>, TEXT |-> << 84, 69, 88, 84 >>,
  TMT |-> << 84, 77, 84 >>, TMED |-> << 84, 77, 69, 68 >>, TOT |-> << 84, 79, 84 >>,
  TOAL |-> << 84, 79, 65, 76 >>, TOA |-> << 84, 79, 65 >>, TOPE |-> << 84, 79, 80, 69 >>,
  TOF |-> << 84, 79, 70 >>, TOFN |-> << 84, 79, 70, 78 >>, TOL |-> << 84, 79, 76 >>,
  TOLY |-> << 84, 79, 76, 89 >>, TOR |-> << 84, 79, 82 >>, TORY |-> << 84, 79, 82, 89 >>,
  TPA |-> << 84, 80, 65 >>, TPOS |-> << 84, 80, 79, 83 >>, TDY |-> << 84, 68, 89 >>,
  TDLY |-> << 84, 68, 76, 89 >>, TPB |-> << 84, 80, 66 >>, TPUB |-> << 84, 80, 85, 66 >>,
  TRD |-> << 84, 82, 68 >>, TRDA |-> << 84, 82, 68, 65 >>, TSS |-> << 84, 83, 83 >>,
  TSSE |-> << 84, 83, 83, 69 >>, TSI |-> << 84, 83, 73 >>, TSIZ |-> << 84, 83, 73, 90 >>,
  TRSN |-> << 84, 82, 83, 78 >>, TRSO |-> << 84, 82, 83, 79 >>, TT3 |-> << 84, 84, 51 >>,
  TIT3 |-> << 84, 73, 84, 51 >>, TIM |-> << 84, 73, 77 >>, TIME |-> << 84, 73, 77, 69 >> ]
IdOf(b) == CHOOSE i \in DOMAIN IdBytes : IdBytes[i] = b

IdLen(ver) == IF ver = 2 THEN 3 ELSE 4

\* all text frames: identifiers in ID3v2.2 (if any) and in ID3v2.3 and ID3v2.4
TextTable == <<
  << "TAL", "TALB" >>, << "TP1", "TPE1" >>, << "TP2", "TPE2" >>, << "TBP", "TBPM" >>,
  << "TCM", "TCOM" >>, << "TP3", "TPE3" >>, << "TT1", "TIT1" >>, << "TCR", "TCOP" >>,
  << "TDA", "TDAT" >>, << "TEN", "TENC" >>, << "", "TOWN" >>, << "TFT", "TFLT" >>,
  << "TCO", "TCON" >>, << "TKE", "TKEY" >>, << "TP4", "TPE4" >>, << "TRC", "TSRC" >>,
  << "TLA", "TLAN" >>, << "TLE", "TLEN" >>, << "TXT", "TEXT" >>, << "TMT", "TMED" >>,
  << "TOT", "TOAL" >>, << "TOA", "TOPE" >>, << "TOF", "TOFN" >>, << "TOL", "TOLY" >>,
  << "TOR", "TORY" >>, << "TPA", "TPOS" >>, << "TDY", "TDLY" >>, << "TPB", "TPUB" >>,
  << "TRD", "TRDA" >>, << "TSS", "TSSE" >>, << "TSI", "TSIZ" >>, << "", "TRSN" >>,
  << "", "TRSO" >>, << "TT3", "TIT3" >>, << "TIM", "TIME" >>, << "TT2", "TIT2" >>,
  << "TRK", "TRCK" >>, << "TYE", "TYER" >> >>
TextIds(ver) == { TextTable[i][IF ver = 2 THEN 1 ELSE 2] : i \in 1..Len(TextTable) } \ { "" }
\* those with an interface of their own
FewTexts(ver) == IF ver = 2 THEN { "TT2", "TP1", "TAL", "TYE", "TRK", "TCO", "TEN", "TLA" }
                 ELSE { "TIT2", "TPE1", "TALB", "TYER", "TRCK", "TCON", "TENC", "TLAN" }
FewIds(ver) == { i \in DOMAIN IdBytes : Len(IdBytes[i]) = IdLen(ver) } \ (TextIds(ver) \ FewTexts(ver))
AllIds(ver) == { i \in DOMAIN IdBytes : Len(IdBytes[i]) = IdLen(ver) }
Texts23 == TextIds(2) \cup TextIds(3)
KindTable == [ id \in DOMAIN IdBytes |->
  CASE id \in Texts23 -> "text"
    [] id \in { "TXX", "TXXX" } -> "TXXX"
    [] id \in { "COM", "COMM" } -> "COMM"
    [] id \in { "CNT", "PCNT" } -> "PCNT"
    [] id \in { "POP", "POPM" } -> "POPM"
    [] id \in { "UFI", "UFID" } -> "UFID"
    [] id \in { "XTG", "XTAG" } -> "XTAG"
    [] id = "PRIV" -> "PRIV"
    [] id = "ENCR" -> "ENCR"
    [] OTHER -> "unknown" ]
KindOf(id) == KindTable[id]
\* the identifier that a kind has in a version
IdFor(ver, kind) == CHOOSE i \in DOMAIN IdBytes : KindOf(i) = kind /\ Len(IdBytes[i]) = IdLen(ver)
Kinds(ver) == { "TXXX", "COMM", "PCNT", "POPM", "UFID", "XTAG", "unknown" }
              \cup (IF ver = 2 THEN {} ELSE { "PRIV", "ENCR" })

Frame(id, data) == [ id |-> id, kind |-> KindOf(id), data |-> data, tap |-> FALSE, fap |-> FALSE,
                     ro |-> FALSE, gid |-> -1, cmp |-> FALSE, uns |-> FALSE, dli |-> FALSE ]
NewTag(ver) == [ ver |-> ver, exp |-> FALSE, pad |-> 0, ext |-> FALSE, crc |-> FALSE,
                 upd |-> FALSE, rst |-> -1, foot |-> FALSE, frames |-> <<>> ]

Bit(c, n) == IF c THEN n ELSE 0
Has(x, n) == (x \div n) % 2 = 1

\* ------------------------------------------------------------------ frames
\* what precedes the (compressed) payload, its length z, the plain payload's n
Extra23(f, n) == (IF f.cmp THEN BE4(n) ELSE <<>>) \o (IF f.gid >= 0 THEN << f.gid >> ELSE <<>>)
Extra24(f, n) == (IF f.gid >= 0 THEN << f.gid >> ELSE <<>>)
                 \o (IF f.cmp \/ f.dli THEN SS4(n) ELSE <<>>)
Status23(f) == Bit(f.tap, 128) + Bit(f.fap, 64) + Bit(f.ro, 32)
Format23(f) == Bit(f.cmp, 128) + Bit(f.gid >= 0, 32)
Status24(f) == Bit(f.tap, 64) + Bit(f.fap, 32) + Bit(f.ro, 16)
Format24(f, u) == Bit(f.gid >= 0, 64) + Bit(f.cmp, 8) + Bit(u, 2) + Bit(f.cmp \/ f.dli, 1)

Head22(f, n)    == IdBytes[f.id] \o BE3(n)
Head23(f, n)    == IdBytes[f.id] \o BE4(n) \o << Status23(f), Format23(f) >>
Head24(f, n, u) == IdBytes[f.id] \o SS4(n) \o << Status24(f), Format24(f, u) >>

Packed(f) == IF f.cmp THEN Zip[f.data] ELSE f.data

\* u: with unsynchronisation (2.4 only; the others unsynchronise tags as a whole)
FrameBytes(ver, f, u) ==
  CASE ver = 2 -> Head22(f, Len(f.data)) \o f.data
    [] ver = 3 -> LET b == Extra23(f, Len(f.data)) \o Packed(f) IN Head23(f, Len(b)) \o b
    [] ver = 4 -> LET b == Extra24(f, Len(f.data)) \o Packed(f)
                      c == IF u THEN Unsync(b, TRUE) ELSE b
                  IN Head24(f, Len(c), u) \o c

\* --------------------------------------------------------------------- tags
PlainFrames(t) == Concat([ i \in 1..Len(t.frames) |-> FrameBytes(t.ver, t.frames[i], FALSE) ])

Ext23(t) == IF ~t.ext THEN <<>>
            ELSE (IF t.crc THEN << 0, 0, 0, 10, 128, 0 >> ELSE << 0, 0, 0, 6, 0, 0 >>)
                 \o BE4(t.pad) \o (IF t.crc THEN CrcBE(PlainFrames(t)) ELSE <<>>)
Ext24(t) == IF ~t.ext THEN <<>>
            ELSE LET d == (IF t.upd THEN << 0 >> ELSE <<>>)
                          \o (IF t.crc THEN << 5 >> \o CrcSS(PlainFrames(t) \o Zeros(t.pad)) ELSE <<>>)
                          \o (IF t.rst >= 0 THEN << 1, t.rst >> ELSE <<>>)
                 IN SS4(6 + Len(d)) \o << 1, Bit(t.upd, 64) + Bit(t.crc, 32) + Bit(t.rst >= 0, 16) >> \o d

\* everything between header and footer
Body(t, u) ==
  CASE t.ver = 2 -> LET s == PlainFrames(t) \o Zeros(t.pad) IN IF u THEN Unsync(s, FALSE) ELSE s
    [] t.ver = 3 -> LET s == Ext23(t) \o PlainFrames(t) \o Zeros(t.pad)
                    IN IF u THEN Unsync(s, TRUE) ELSE s
    [] t.ver = 4 -> Ext24(t)
                    \o Concat([ i \in 1..Len(t.frames) |->
                                 FrameBytes(4, t.frames[i], u \/ t.frames[i].uns) ])
                    \o Zeros(t.pad)

TagFlags(t, u) == Bit(u, 128) + Bit(t.ext, 64) + Bit(t.exp, 32) + Bit(t.foot, 16)
Header(t, u, n) == << 73, 68, 51, t.ver, 0, TagFlags(t, u) >> \o SS4(n)
Footer(t, u, n) == << 51, 68, 73, t.ver, 0, TagFlags(t, u) >> \o SS4(n)

Encode(t, u) == LET b == Body(t, u) IN
                Header(t, u, Len(b)) \o b \o (IF t.foot THEN Footer(t, u, Len(b)) ELSE <<>>)

\* what the tag occupies after its header
Size(t, u) == Len(Encode(t, u)) - 10

\* a tag needs unsynchronisation if written plainly it would contain a false
\* sync, or (2.3, 2.4) its last frame ends in 0xff, with nothing following it
\* in 2.4
Needs(t) ==
  LET fs == Concat([ i \in 1..Len(t.frames) |-> FrameBytes(t.ver, t.frames[i], t.frames[i].uns) ])
      e  == IF t.ver = 3 THEN Ext23(t) ELSE IF t.ver = 4 THEN Ext24(t) ELSE <<>>
      s  == e \o fs
  IN \/ HasFalseSync(s \o Zeros(t.pad))
     \/ t.ver = 3 /\ s # <<>> /\ Last(s) = 255
     \/ t.ver = 4 /\ fs # <<>> /\ Last(fs) = 255 /\ t.pad = 0 /\ ~t.foot

\* ------------------------------------------------------------------ decoding
RECURSIVE DecFrames(_, _, _)
DecFrame(ver, s) ==
  LET idl == IdLen(ver)
      id  == IdOf(Take(s, idl))
      hl  == IF ver = 2 THEN 6 ELSE 10
      n   == IF ver = 2 THEN FromBE(SubSeq(s, 4, 6))
             ELSE IF ver = 3 THEN FromBE(SubSeq(s, 5, 8)) ELSE FromSS(SubSeq(s, 5, 8))
      b0  == SubSeq(s, hl + 1, hl + n)
      st  == IF ver = 2 THEN 0 ELSE s[9]
      fm  == IF ver = 2 THEN 0 ELSE s[10]
      u   == ver = 4 /\ Has(fm, 2)
      b   == IF u THEN Resync(b0) ELSE b0
      grp == IF ver = 3 THEN Has(fm, 32) ELSE ver = 4 /\ Has(fm, 64)
      cmp == IF ver = 3 THEN Has(fm, 128) ELSE ver = 4 /\ Has(fm, 8)
      dli == ver = 4 /\ Has(fm, 1)
      gat == IF ver = 3 THEN (IF cmp THEN 5 ELSE 1) ELSE 1
      x   == (IF cmp \/ dli THEN 4 ELSE 0) + (IF grp THEN 1 ELSE 0)
      p   == Drop(b, x)
  IN [ f |-> [ id |-> id, kind |-> KindOf(id), data |-> IF cmp THEN UnZip(p) ELSE p,
               tap |-> Has(st, IF ver = 3 THEN 128 ELSE 64),
               fap |-> Has(st, IF ver = 3 THEN 64 ELSE 32),
               ro  |-> Has(st, IF ver = 3 THEN 32 ELSE 16),
               gid |-> IF grp THEN b[gat] ELSE -1, cmp |-> cmp, uns |-> u,
               dli |-> dli /\ ~cmp ],
       len |-> hl + n ]
DecFrames(ver, s, acc) ==
  IF s = <<>> \/ s[1] = 0 THEN [ frames |-> acc, pad |-> Len(s) ]
  ELSE LET d == DecFrame(ver, s) IN DecFrames(ver, Drop(s, d.len), Append(acc, d.f))

Decode(s) ==
  LET ver == s[4]
      fl  == s[6]
      n   == FromSS(SubSeq(s, 7, 10))
      b0  == SubSeq(s, 11, 10 + n)
      b   == IF ver < 4 /\ Has(fl, 128) THEN Resync(b0) ELSE b0
      ext == ver > 2 /\ Has(fl, 64)
      ex  == IF ~ext THEN 0 ELSE IF ver = 3 THEN 4 + FromBE(Take(b, 4)) ELSE FromSS(Take(b, 4))
      xf  == IF ~ext THEN 0 ELSE IF ver = 3 THEN b[5] ELSE b[6]
      r   == DecFrames(ver, Drop(b, ex), <<>>)
  IN [ ver |-> ver, exp |-> ver > 2 /\ Has(fl, 32), pad |-> r.pad, ext |-> ext,
       crc |-> IF ver = 3 THEN Has(xf, 128) ELSE Has(xf, 32),
       upd |-> ver = 4 /\ Has(xf, 64),
       rst |-> IF ver = 4 /\ Has(xf, 16) THEN b[ex] ELSE -1,
       foot |-> ver = 4 /\ Has(fl, 16), frames |-> r.frames ]

\* a tag after a trip through unsynchronised 2.4 output: all frames marked so
Marked(t, u) == IF t.ver = 4 /\ u
                THEN [ t EXCEPT !.frames = [ i \in 1..Len(t.frames) |->
                                             [ t.frames[i] EXCEPT !.uns = TRUE ] ] ]
                ELSE t

\* ----------------------------------------------------------- what readers see
\* two-byte terminators for UCS-2 and UTF-16 texts, one-byte ones else
Wide(ver, e) == IF ver = 4 THEN e \in { 1, 2 } ELSE e # 0
WideZero(s) == LET Z == { i \in 1..(Len(s) - 1) : i % 2 = 1 /\ s[i] = 0 /\ s[i + 1] = 0 } IN
               IF Z = {} THEN 0 ELSE CHOOSE i \in Z : \A j \in Z : i <= j
DescOf(w, s) == IF w THEN LET z == WideZero(s) IN IF z = 0 THEN s ELSE Take(s, z - 1) ELSE UpToNul(s)
TextOf(w, s) == IF w THEN LET z == WideZero(s) IN IF z = 0 THEN <<>> ELSE Drop(s, z + 1) ELSE AfterNul(s)

Fields(ver, f) ==
  LET d == f.data IN
  CASE f.kind = "text" -> [ unicode |-> d[1], text |-> Tail(d) ]
    [] f.kind = "TXXX" -> LET w == Wide(ver, d[1]) IN
         [ unicode |-> d[1], desc |-> DescOf(w, Tail(d)), text |-> TextOf(w, Tail(d)) ]
    [] f.kind = "COMM" -> LET w == Wide(ver, d[1]) r == Drop(d, 4) IN
         [ unicode |-> d[1], lang |-> SubSeq(d, 2, 4), desc |-> DescOf(w, r), text |-> TextOf(w, r) ]
    [] f.kind = "PCNT" -> [ counter |-> d ]
    [] f.kind = "POPM" -> LET r == AfterNul(d) IN
         [ owner |-> UpToNul(d), rating |-> r[1], counter |-> Tail(r) ]
    [] f.kind \in { "UFID", "PRIV" } -> [ owner |-> UpToNul(d), data |-> AfterNul(d) ]
    [] f.kind = "ENCR" -> LET r == AfterNul(d) IN
         [ owner |-> UpToNul(d), symbol |-> r[1], data |-> Tail(r) ]
    [] f.kind = "XTAG" -> [ owner |-> CloudOwner(d), cloud |-> CloudMap(d) ]
    [] OTHER -> [ data |-> d ]

Seen(ver, f) == [ id |-> f.id, kind |-> f.kind, tap |-> f.tap, fap |-> f.fap, ro |-> f.ro,
                  grouped |-> f.gid >= 0, comp |-> f.cmp, fields |-> Fields(ver, f) ]
SeenAll(t) == [ i \in 1..Len(t.frames) |-> Seen(t.ver, t.frames[i]) ]

\* ------------------------------------------------------ payloads to build from
\* well-formed payloads of a kind, over byte strings S (no byte of an owner or a
\* one-byte description is zero)
NoZero(S) == { s \in S : \A i \in 1..Len(s) : s[i] # 0 }
Even(S)   == { s \in S : Len(s) % 2 = 0 }
WideClean(S) == { s \in Even(S) : WideZero(s) = 0 }
Enc1(ver) == IF ver = 4 THEN { 0, 3 } ELSE { 0 }
Enc2(ver) == IF ver = 4 THEN { 1, 2 } ELSE { 1 }
Payloads(ver, kind, S) ==
  CASE kind = "text" -> { << e >> \o s : e \in Enc1(ver), s \in S }
                        \cup { << e >> \o s : e \in Enc2(ver), s \in Even(S) }
    [] kind = "TXXX" -> { << e >> \o Nul(x) \o y : e \in Enc1(ver), x \in NoZero(S), y \in S }
                        \cup { << e >> \o x \o << 0, 0 >> \o y : e \in Enc2(ver), x \in WideClean(S), y \in Even(S) }
    [] kind = "COMM" -> { << e, 101, 110, 103 >> \o Nul(x) \o y : e \in Enc1(ver), x \in NoZero(S), y \in S }
                        \cup { << e, 255, 255, 255 >> \o x \o << 0, 0 >> \o y : e \in Enc2(ver), x \in WideClean(S), y \in Even(S) }
    [] kind = "PCNT" -> S \ { <<>> }
    [] kind = "POPM" -> { Nul(x) \o << r >> \o y : x \in NoZero(S), r \in { 0, 255 }, y \in S }
    [] kind \in { "UFID", "PRIV" } -> { Nul(x) \o y : x \in NoZero(S), y \in S }
    [] kind = "ENCR" -> { Nul(x) \o << r >> \o y : x \in NoZero(S), r \in { 128, 255 }, y \in S }
    [] kind = "XTAG" -> { CloudBytes(x, kvs) : x \in NoZero(S),
                            kvs \in { <<>>, << << <<65>>, <<>> >> >>, << << <<>>, << <<>>, <<66>> >> >> >>,
                                      << << <<65>>, << <<66>>, <<255>> >> >>, << <<255, 224>>, << <<65, 255>> >> >> >> } }
    [] OTHER -> S \ { <<>> }
=============================================================================
