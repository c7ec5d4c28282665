------------------------------- MODULE Cloud -------------------------------
(* Tag clouds: an owner and a map from keys to sets of values, as laid out in *)
(* XTAG / XTG frames.  In the layout the map is a sequence of << key, values >>*)
(* in key order, the values in order too.                                     *)
EXTENDS Bytes

Nul(s) == s \o << 0 >>
CloudVals(vs)  == Concat([ i \in 1..Len(vs) |-> Nul(vs[i]) ])
CloudEntry(kv) == Nul(kv[1]) \o BE4(Len(CloudVals(kv[2]))) \o CloudVals(kv[2])
CloudBytes(own, kvs) == << 1 >> \o Nul(own) \o Concat([ i \in 1..Len(kvs) |-> CloudEntry(kvs[i]) ])

\* position of the first zero in s, 0 if none
FirstZero(s) == IF \E i \in 1..Len(s) : s[i] = 0
                THEN CHOOSE i \in 1..Len(s) : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0
                ELSE 0
UpToNul(s)  == LET z == FirstZero(s) IN IF z = 0 THEN s ELSE Take(s, z - 1)
AfterNul(s) == LET z == FirstZero(s) IN IF z = 0 THEN <<>> ELSE Drop(s, z)

RECURSIVE ValsOf(_)
ValsOf(s) == IF s = <<>> THEN <<>> ELSE << UpToNul(s) >> \o ValsOf(AfterNul(s))
RECURSIVE EntriesOf(_)
EntriesOf(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET r == AfterNul(s) n == FromBE(Take(r, 4)) IN
       << << UpToNul(s), ValsOf(Take(Drop(r, 4), n)) >> >> \o EntriesOf(Drop(r, 4 + n))
CloudOwner(s) == UpToNul(Tail(s))
CloudMap(s)   == EntriesOf(AfterNul(Tail(s)))
=============================================================================
