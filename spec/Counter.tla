------------------------------ MODULE Counter ------------------------------
(* Play counts and popularimeters: counters are big-endian byte strings of     *)
(* any width, so all arithmetic is on digits.                                  *)
EXTENDS Bytes, Integers

CONSTANTS Starts,   \* counters as found in a tag (byte strings)
          Values,   \* values to set (byte strings)
          Owners, Ratings, MaxOps, EmitAt

VARIABLES kind, own, rating, ctr, ops, hist, done
vars == << kind, own, rating, ctr, ops, hist, done >>

RECURSIVE Minimal(_)
Minimal(c) == IF c # <<>> /\ c[1] = 0 THEN Minimal(Tail(c)) ELSE c    \* <<>> is zero
RECURSIVE Plus1(_)
Plus1(c) == IF c = <<>> THEN << 1 >>
            ELSE IF Last(c) = 255 THEN Plus1(Take(c, Len(c) - 1)) \o << 0 >>
            ELSE Take(c, Len(c) - 1) \o << Last(c) + 1 >>
\* values are reported in eight bytes
Fits(c) == Len(Minimal(c)) <= 8

See == [ own |-> own, rating |-> rating, value |-> Minimal(ctr), fits |-> Fits(ctr) ]
Init == /\ kind \in { "PCNT", "POPM" } /\ own \in Owners /\ rating \in Ratings /\ ctr \in Starts
        /\ (kind = "PCNT" => own = <<>> /\ rating = 0)
        /\ ops = <<>> /\ hist = << See >> /\ done = FALSE
Start == hist[1]

Op(name, b, n, ok) == [ op |-> name, b |-> b, n |-> n, ok |-> ok ]
Log(o) == /\ UNCHANGED << kind, own, done >> /\ ops' = Append(ops, o) /\ hist' = Append(hist, See')
Set == \E v \in Values : ctr' = v /\ UNCHANGED rating /\ Log(Op("count", v, 0, TRUE))
\* beyond what can be reported an increment is refused and changes nothing
Inc == LET ok == Fits(ctr) /\ Fits(Plus1(ctr)) IN
       /\ ctr' = IF ok THEN Plus1(ctr) ELSE ctr
       /\ UNCHANGED rating /\ Log(Op("inc", <<>>, 0, ok))
Rate == /\ kind = "POPM" /\ \E r \in Ratings : rating' = r /\ UNCHANGED ctr /\ Log(Op("rating", <<>>, r, TRUE))
Reread == /\ \E u \in { 0, 1 } : UNCHANGED << rating, ctr >> /\ Log(Op("reread", <<>>, u, TRUE))
Step == Len(ops) < MaxOps /\ (Set \/ Inc \/ Rate \/ Reread)
Finish == Len(ops) = EmitAt /\ done' = TRUE /\ UNCHANGED << kind, own, rating, ctr, ops, hist >>
Next == ~done /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars

\* --- properties: never backwards, by exactly one
RECURSIVE Less(_, _)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ a # <<>> /\
                (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))))
Grows == [][ (ops' # ops /\ Last(ops').op = "inc" /\ Last(ops').ok)
             => Less(Minimal(ctr), Minimal(ctr')) /\ Minimal(Plus1(ctr)) = Minimal(ctr') ]_vars
Others == [][ /\ (ops' # ops /\ Last(ops').op # "rating") => rating' = rating
              /\ own' = own
              /\ (ops' # ops /\ Last(ops').op \in { "rating", "reread" }) => ctr' = ctr ]_vars
Small == Len(Minimal(ctr)) <= 3 => FromBE(Plus1(ctr)) = FromBE(ctr) + 1

Out == done => Emit([ kind |-> kind, own |-> own, start |-> hist[1], 
                      ops |-> ops, hist |-> hist ])
=============================================================================
