------------------------------- MODULE Id3v1 -------------------------------
(* The ID3v1 tag: plain (128 bytes), 1.1 (a track number in the last byte of  *)
(* the comment) and extended (227 more bytes in front).                       *)
EXTENDS Bytes

TAG  == << 84, 65, 71 >>
TAGP == << 84, 65, 71, 43 >>
PlainSize == 128
ExtSize   == 355

TextWidth(ext)    == IF ext THEN 90 ELSE 30
CommentWidth(v11) == IF v11 THEN 28 ELSE 30

NewTag(v11, ext) ==
  [ ext |-> ext, v11 |-> v11,
    title |-> Zeros(TextWidth(ext)), artist |-> Zeros(TextWidth(ext)),
    album |-> Zeros(TextWidth(ext)), year |-> Zeros(4),
    comment |-> Zeros(CommentWidth(v11)), track |-> 0, genre |-> 0,
    speed |-> 0, egenre |-> Zeros(30), start |-> Zeros(6), end |-> Zeros(6) ]

\* a plain tag becomes an extended one when an extended field is set
Extend(t) ==
  [ t EXCEPT !.ext = TRUE, !.title = Fit(t.title, 90),
             !.artist = Fit(t.artist, 90), !.album = Fit(t.album, 90) ]

SetText(t, f, x) ==
  CASE f = "title"      -> [ t EXCEPT !.title  = Fit(x, TextWidth(t.ext)) ]
    [] f = "artist"     -> [ t EXCEPT !.artist = Fit(x, TextWidth(t.ext)) ]
    [] f = "album"      -> [ t EXCEPT !.album  = Fit(x, TextWidth(t.ext)) ]
    [] f = "comment"    -> [ t EXCEPT !.comment = Fit(x, CommentWidth(t.v11)) ]
    [] f = "year"       -> [ t EXCEPT !.year = Fit(x, 4) ]
    [] f = "enh_genre"  -> [ Extend(t) EXCEPT !.egenre = Fit(x, 30) ]
    [] f = "start_time" -> [ Extend(t) EXCEPT !.start = Fit(x, 6) ]
    [] f = "end_time"   -> [ Extend(t) EXCEPT !.end = Fit(x, 6) ]

SetNum(t, f, n) ==
  CASE f = "genre" -> [ t EXCEPT !.genre = n ]
    [] f = "track" -> [ t EXCEPT !.track = n, !.v11 = TRUE, !.comment = Fit(t.comment, 28) ]
    [] f = "speed" -> [ Extend(t) EXCEPT !.speed = n ]

Layout(t) ==
  (IF t.ext
   THEN TAGP \o SubSeq(t.title, 31, 90) \o SubSeq(t.artist, 31, 90) \o
        SubSeq(t.album, 31, 90) \o << t.speed >> \o t.egenre \o t.start \o t.end
   ELSE <<>>) \o
  TAG \o Take(t.title, 30) \o Take(t.artist, 30) \o Take(t.album, 30) \o t.year \o
  (IF t.v11 THEN t.comment \o << 0, t.track >> ELSE t.comment) \o << t.genre >>

IsTag(b) ==
  \/ Len(b) = PlainSize /\ SubSeq(b, 1, 3) = TAG
  \/ Len(b) = ExtSize /\ SubSeq(b, 1, 4) = TAGP /\ SubSeq(b, 228, 230) = TAG

Parse(b) ==
  LET ext == Len(b) = ExtSize
      p   == IF ext THEN Drop(b, 227) ELSE b
      e(k, n) == IF ext THEN SubSeq(b, k + 1, k + n) ELSE <<>>
      c   == SubSeq(p, 98, 127)
      v11 == c[29] = 0 /\ c[30] # 0
  IN [ ext |-> ext, v11 |-> v11,
       title  |-> SubSeq(p, 4, 33)  \o e(4, 60),
       artist |-> SubSeq(p, 34, 63) \o e(64, 60),
       album  |-> SubSeq(p, 64, 93) \o e(124, 60),
       year   |-> SubSeq(p, 94, 97),
       comment |-> IF v11 THEN Take(c, 28) ELSE c,
       track  |-> IF v11 THEN c[30] ELSE 0,
       genre  |-> p[128],
       speed  |-> IF ext THEN b[185] ELSE 0,
       egenre |-> IF ext THEN e(185, 30) ELSE Zeros(30),
       start  |-> IF ext THEN e(215, 6) ELSE Zeros(6),
       end    |-> IF ext THEN e(221, 6) ELSE Zeros(6) ]

\* The trailing tag of a file: [kind, start], start = number of bytes before it
Trailing(f) ==
  LET n == Len(f)
      at(k, s) == n >= k /\ SubSeq(f, n - k + 1, n - k + Len(s)) = s
  IN IF at(ExtSize, TAGP) /\ at(PlainSize, TAG)
     THEN [ kind |-> "ext", start |-> n - ExtSize ]
     ELSE IF at(PlainSize, TAG)
          THEN [ kind |-> "plain", start |-> n - PlainSize ]
          ELSE [ kind |-> "none", start |-> n ]

Body(f) == Take(f, Trailing(f).start)
=============================================================================
