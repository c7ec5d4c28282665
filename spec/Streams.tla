------------------------------ MODULE Streams -------------------------------
(* Formatting set on streams: the printing format and the text encoding.  Each *)
(* setting is held in an object; a stream owns those set on it, and copying a  *)
(* stream's formatting gives the other stream objects of its own.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Formats, Encodings, Policies, Wide, MaxOps

Emit(h) == PrintT("@@" \o ToJson(h))
None == [ obj |-> 0, v |-> << "none" >> ]

VARIABLES fmt, enc,    \* per stream: the object and what it says
          open, made, freed, hist, done
vars == << fmt, enc, open, made, freed, hist, done >>

Init == /\ fmt = [ s \in Names |-> None ] /\ enc = [ s \in Names |-> None ] /\ open = Names
        /\ made = 0 /\ freed = {} /\ hist = <<>> /\ done = FALSE

Log(r) == hist' = Append(hist, r)
Free(S) == freed' = freed \cup (S \ { 0 })

SetFormat(s, f, again) ==
  /\ s \in open /\ fmt' = [ fmt EXCEPT ![s] = [ obj |-> made + 1, v |-> << f >> ] ] /\ made' = made + 1
  /\ Free({ fmt[s].obj }) /\ UNCHANGED << enc, open >>
  /\ Log([ op |-> "fmt", s |-> s, v |-> f, p |-> "", again |-> again, refused |-> FALSE ])
SetEncoding(s, e, p, in) ==
  /\ s \in open /\ enc' = [ enc EXCEPT ![s] = [ obj |-> made + 1, v |-> << e, p >> ] ] /\ made' = made + 1
  /\ Free({ enc[s].obj }) /\ UNCHANGED << fmt, open >>
  /\ Log([ op |-> "enc", s |-> s, v |-> e, p |-> p, again |-> in, refused |-> FALSE ])
\* encodings of wider units are not for streams of bytes
SetWide(s, e) == /\ s \in open /\ UNCHANGED << fmt, enc, open, made, freed >>
                 /\ Log([ op |-> "enc", s |-> s, v |-> e, p |-> "fail", again |-> FALSE, refused |-> TRUE ])
New(x, n) == IF x.obj = 0 THEN None ELSE [ x EXCEPT !.obj = n ]
Copy(s, t) ==
  /\ { s, t } \subseteq open
  /\ IF s = t THEN UNCHANGED << fmt, enc, made, freed >>
     ELSE /\ fmt' = [ fmt EXCEPT ![s] = New(fmt[t], made + 1) ] /\ enc' = [ enc EXCEPT ![s] = New(enc[t], made + 2) ]
          /\ made' = made + 2 /\ Free({ fmt[s].obj, enc[s].obj })
  /\ UNCHANGED open /\ Log([ op |-> "copy", s |-> s, v |-> t, p |-> "", again |-> FALSE, refused |-> FALSE ])
Close(s) == /\ s \in open /\ Cardinality(open) > 1 /\ open' = open \ { s }
            /\ fmt' = [ fmt EXCEPT ![s] = None ] /\ enc' = [ enc EXCEPT ![s] = None ]
            /\ Free({ fmt[s].obj, enc[s].obj }) /\ UNCHANGED made
            /\ Log([ op |-> "close", s |-> s, v |-> "", p |-> "", again |-> FALSE, refused |-> FALSE ])
Reopen(s) == /\ s \in Names \ open /\ open' = open \cup { s } /\ UNCHANGED << fmt, enc, made, freed >>
             /\ Log([ op |-> "open", s |-> s, v |-> "", p |-> "", again |-> FALSE, refused |-> FALSE ])

Step == /\ Len(hist) < MaxOps /\ UNCHANGED done
        /\ \E s \in Names : \/ \E f \in Formats, a \in BOOLEAN : SetFormat(s, f, a)
                            \/ \E e \in Encodings, p \in Policies, a \in BOOLEAN : SetEncoding(s, e, p, a)
                            \/ \E e \in Wide : SetWide(s, e)
                            \/ \E t \in Names : Copy(s, t)
                            \/ Close(s) \/ Reopen(s)
Stop == ~done /\ Len(hist) = MaxOps /\ done' = TRUE /\ UNCHANGED << fmt, enc, open, made, freed, hist >>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

\* --- properties
Held(s) == { fmt[s].obj, enc[s].obj } \ { 0 }
OwnersApart == \A s, t \in Names : s # t => Held(s) \cap Held(t) = {}
NothingDangles == \A s \in Names : Held(s) \cap freed = {}
ClosedHoldNothing == \A s \in Names \ open : Held(s) = {}
Said(s) == << fmt[s].v, enc[s].v >>
\* a step changes what is said of one stream at most
OneAtATime == [][ \A s, t \in Names : (s # t /\ Said(s)' # Said(s)) => Said(t)' = Said(t) ]_vars

Out == done => Emit([ hist |-> hist, open |-> open, fmt |-> [ s \in open |-> fmt[s].v ], enc |-> [ s \in open |-> enc[s].v ] ])
=============================================================================
