----------------------------- MODULE Id3v1Edit -----------------------------
(* Histories of building or reading an ID3v1 tag and setting its fields.      *)
EXTENDS Id3v1

CONSTANTS MaxOps,      \* number of edits per history
          EmitAt,      \* emit histories of this length only (0: all)
          Lens,        \* lengths of the texts set
          Nums,        \* numbers set
          Sources      \* initial byte strings read as tags

VARIABLES tag, ops, src, done
vars == << tag, ops, src, done >>

Chars == << 65, 233 >>  \* an ASCII and a Latin-1 letter
Text(n, c) == [i \in 1..n |-> IF i = n THEN 90 ELSE Chars[c]]
TextFields == { "title", "artist", "album", "comment", "year", "enh_genre", "start_time", "end_time" }
\* each field gets a letter of its own kind so that mix-ups show
CharOf(f) == IF f \in { "title", "album", "comment", "enh_genre" } THEN 2 ELSE 1
NumFields == { "genre", "track", "speed" }

Init == done = FALSE /\
 (
  \/ \E v \in BOOLEAN, e \in BOOLEAN :
       /\ tag = NewTag(v, e) /\ ops = <<>>
       /\ src = [ how |-> "new", v11 |-> v, ext |-> e, bytes |-> <<>> ]
  \/ \E b \in Sources :
       /\ IsTag(b)
       /\ tag = Parse(b) /\ ops = <<>>
       /\ src = [ how |-> "read", v11 |-> FALSE, ext |-> FALSE, bytes |-> b ] )

DoSetText ==
  \E f \in TextFields, n \in Lens :
    LET x == Text(n, CharOf(f)) IN
    /\ tag' = SetText(tag, f, x)
    /\ ops' = Append(ops, [ op |-> "set", f |-> f, x |-> x, n |-> 0 ])

DoSetNum ==
  \E f \in NumFields, n \in Nums :
    /\ tag' = SetNum(tag, f, n)
    /\ ops' = Append(ops, [ op |-> "setn", f |-> f, x |-> <<>>, n |-> n ])

Edit   == Len(ops) < MaxOps /\ (DoSetText \/ DoSetNum) /\ UNCHANGED << src, done >>
Finish == (EmitAt = 0 \/ Len(ops) = EmitAt) /\ done' = TRUE /\ UNCHANGED << tag, ops, src >>
Next   == ~done /\ (Edit \/ Finish)

Spec == Init /\ [][Next]_vars

\* --- properties of the specification
SizeOK == Len(Layout(tag)) = (IF tag.ext THEN ExtSize ELSE PlainSize) /\ IsTag(Layout(tag))

\* what is written is what is read, a zero track number meaning none
RoundTrip ==
  LET r == Parse(Layout(tag)) IN
  IF tag.v11 /\ tag.track = 0
  THEN /\ ~r.v11 /\ r.comment = tag.comment \o << 0, 0 >>
       /\ [ r EXCEPT !.v11 = TRUE, !.comment = tag.comment ] = tag
  ELSE \/ r = tag
       \/ \* a plain comment whose last bytes look like a track number
          ~tag.v11 /\ tag.comment[29] = 0 /\ tag.comment[30] # 0
ByteExact == Layout(Parse(Layout(tag))) = Layout(tag)
ReadExact == (src.how = "read" /\ ops = <<>>) => Layout(tag) = src.bytes

\* setting one field leaves the others alone
Others(f) == { "title", "artist", "album", "comment", "year", "egenre", "start", "end",
               "track", "genre", "speed" } \ { f }
FieldOf(o) == CASE o.f = "enh_genre" -> "egenre" [] o.f = "start_time" -> "start"
                [] o.f = "end_time" -> "end" [] OTHER -> o.f
Frame == [][ ops' # ops => \A g \in Others(FieldOf(Last(ops'))) :
               IF g \in { "title", "artist", "album", "comment" }
               THEN Take(tag'[g], Min(Len(tag[g]), Len(tag'[g]))) = Take(tag[g], Min(Len(tag[g]), Len(tag'[g])))
               ELSE tag'[g] = tag[g] ]_vars

Out == done =>
         Emit([ src |-> src, ops |-> ops, tag |-> tag, bytes |-> Layout(tag),
                back |-> Parse(Layout(tag)) ])
=============================================================================
