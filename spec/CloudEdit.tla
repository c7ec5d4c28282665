----------------------------- MODULE CloudEdit -----------------------------
(* Tag clouds under merge, update, additions, rendering as text and parsing,   *)
(* writing and reading.                                                        *)
EXTENDS Cloud, Integers
LOCAL SE == INSTANCE SequencesExt

CONSTANTS Keys, Vals, Owner, MaxOps, EmitAt, Styles, MaxKeys

VARIABLES m, ops, hist, done    \* m: key -> set of values
vars == << m, ops, hist, done >>

\* ---------------------------------------------------------------- rendering
RECURSIVE Less(_, _)
Less(a, b) == \/ a = <<>> /\ b # <<>>
              \/ a # <<>> /\ b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b))))
Sorted(S) == SE!SetToSortSeq(S, Less)
Unreserved(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup { 45, 95, 46, 126 }
Digit(n, up) == IF n < 10 THEN 48 + n ELSE (IF up THEN 55 ELSE 87) + n
Esc(c, up) == << 37, Digit(c \div 16, up), Digit(c % 16, up) >>
\* own: as the library writes it; full: every byte escaped; bare: only what must be
Char(c, style) == CASE style = "own"  -> IF Unreserved(c) THEN << c >> ELSE Esc(c, FALSE)
                    [] style = "full" -> Esc(c, TRUE)
                    [] OTHER -> IF c \in { 37, 38, 61, 44 } THEN Esc(c, TRUE) ELSE << c >>
UrlText(s, style) == Concat([ i \in 1..Len(s) |-> Char(s[i], style) ])
Join(ss, sep) == Concat([ i \in 1..Len(ss) |-> IF i = 1 THEN ss[i] ELSE << sep >> \o ss[i] ])
Entry(k, vs, style) ==
  UrlText(k, style) \o
  (IF vs = {} THEN <<>>
   ELSE << 61 >> \o Join([ i \in 1..Cardinality(vs) |-> UrlText(Sorted(vs)[i], style) ], 44))
Render(f, style) == LET ks == Sorted(DOMAIN f)
                    IN Join([ i \in 1..Len(ks) |-> Entry(ks[i], f[ks[i]], style) ], 38)

\* ------------------------------------------------------------------- parsing
RECURSIVE Split(_, _)
Split(s, sep) ==
  IF \E i \in 1..Len(s) : s[i] = sep
  THEN LET i == CHOOSE i \in 1..Len(s) : s[i] = sep /\ \A j \in 1..(i - 1) : s[j] # sep
       IN << Take(s, i - 1) >> \o Split(Drop(s, i), sep)
  ELSE << s >>
UnDigit(c) == CASE c <= 57 -> c - 48 [] c <= 70 -> c - 55 [] OTHER -> c - 87
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF s[1] = 37 THEN << UnDigit(s[2]) * 16 + UnDigit(s[3]) >> \o Unescape(Drop(s, 3))
               ELSE << s[1] >> \o Unescape(Tail(s))
ParseText(s) ==
  IF s = <<>> THEN << >>
  ELSE LET es == Split(s, 38)
           kv == [ i \in 1..Len(es) |-> Split(es[i], 61) ]
       IN [ k \in { Unescape(kv[i][1]) : i \in 1..Len(es) } |->
            LET i == CHOOSE i \in 1..Len(es) : Unescape(kv[i][1]) = k
            IN IF Len(kv[i]) = 1 THEN {}
               ELSE { Unescape(Split(kv[i][2], 44)[j]) : j \in 1..Len(Split(kv[i][2], 44)) } ]
\* ---------------------------------------------------------------------- maps
Maps(n) == UNION { [ K -> SUBSET Vals ] : K \in { K \in SUBSET Keys : Cardinality(K) <= n } }
Merge(f, g) == [ k \in DOMAIN f \cup DOMAIN g |->
                 (IF k \in DOMAIN f THEN f[k] ELSE {}) \cup (IF k \in DOMAIN g THEN g[k] ELSE {}) ]
AsSeq(f) == LET ks == Sorted(DOMAIN f) IN [ i \in 1..Len(ks) |-> << ks[i], Sorted(f[ks[i]]) >> ]

Snap(f) == [ map |-> AsSeq(f), text |-> Render(f, "own"), bytes |-> CloudBytes(Owner, AsSeq(f)) ]
Op(name, text, k, v, ok) == [ op |-> name, text |-> text, k |-> k, v |-> v, ok |-> ok ]
Do(o, f) == m' = f /\ ops' = Append(ops, o) /\ hist' = Append(hist, Snap(f)) /\ UNCHANGED done

Init == m \in Maps(MaxKeys) /\ ops = <<>> /\ hist = << Snap(m) >> /\ done = FALSE
WithText == \E name \in { "merge", "update", "new" }, f \in Maps(1), s \in Styles :
   Do(Op(name, Render(f, s), <<>>, <<>>, TRUE), IF name = "merge" THEN Merge(m, f) ELSE f)
\* text that is no cloud changes nothing
BadText == \E name \in { "merge", "update" }, t \in { << 37 >>, << 97, 61, 37, 50 >>, << 37, 103, 103 >>, << 97, 38, 97 >>,
                                                   << 97, 61, 49, 38, 97 >>, << 97, 61, 49, 38, 97, 38, 98 >>,
                                                   << 98, 38, 97, 61, 49, 38, 37, 54, 49 >> } :
   Do(Op(name, t, <<>>, <<>>, FALSE), m)
AddKey == \E k \in Keys : Do(Op("addkey", <<>>, k, <<>>, k \notin DOMAIN m), Merge(m, [ x \in { k } |-> {} ]))
AddVal == \E k \in Keys, v \in Vals :
   Do(Op("addval", <<>>, k, v, ~(k \in DOMAIN m /\ v \in m[k])), Merge(m, [ x \in { k } |-> { v } ]))
\* render and parse; write and read
Around == \E name \in { "viatext", "viabytes" } : Do(Op(name, <<>>, <<>>, <<>>, TRUE), m)
Step == Len(ops) < MaxOps /\ (WithText \/ BadText \/ AddKey \/ AddVal \/ Around)
Finish == Len(ops) = EmitAt /\ done' = TRUE /\ UNCHANGED << m, ops, hist >>
Next == ~done /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars

\* --- properties of the specification
AsMap(kvs) == [ k \in { kvs[i][1] : i \in 1..Len(kvs) } |->
                LET i == CHOOSE i \in 1..Len(kvs) : kvs[i][1] = k
                IN { kvs[i][2][j] : j \in 1..Len(kvs[i][2]) } ]
TextKeeps == \A s \in { "own", "full", "bare" } : ParseText(Render(m, s)) = m
BytesKeep == LET b == CloudBytes(Owner, AsSeq(m)) IN CloudOwner(b) = Owner /\ AsMap(CloudMap(b)) = m
Grows == [][ (ops' # ops /\ Last(ops').op \in { "merge", "addkey", "addval" })
             => \A k \in DOMAIN m : k \in DOMAIN m' /\ m[k] \subseteq m'[k] ]_vars

Out == done => Emit([ owner |-> Owner, ops |-> ops, hist |-> hist ])
=============================================================================
