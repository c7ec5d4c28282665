---------------------------- MODULE UpdateTrace ----------------------------
(* Recorded updates against Update. A record is [ id, plan, keep, snaps ]; a  *)
(* snapshot is what the directory looks like after one file operation,        *)
(* [ views, backup, scratch, others, result ], where views are the [ at,      *)
(* torn ] that fit the content of the file and others tells that no other     *)
(* file has changed. The last one also has the result.                        *)
EXTENDS Update, TLC, Json

Emit(h) == PrintT("@@" \o ToJson(h))

CONSTANT File
Recs == JsonDeserialize(File)

VARIABLES rec, pos
tvars == << rec, pos, plan, keep, at, torn, backup, scratch, result >>

TInit == /\ rec \in 1..Len(Recs) /\ pos = 0
         /\ plan = Recs[rec].plan /\ keep = Recs[rec].keep
         /\ at = 0 /\ torn = FALSE /\ backup = FALSE /\ scratch = 0 /\ result = "running"

Observe(s) == /\ \E i \in 1..Len(s.views) : at' = s.views[i].at /\ torn' = s.views[i].torn
              /\ backup' = s.backup /\ scratch' = s.scratch
              /\ s.others
TNext == /\ pos < Len(Recs[rec].snaps)
         /\ LET s == Recs[rec].snaps[pos + 1] IN
            IF s.result = "running"
            THEN Observe(s) /\ (Work \/ UNCHANGED vars)
            ELSE Observe(s) /\ End /\ result' = s.result
         /\ pos' = pos + 1 /\ rec' = rec
TSpec == TInit /\ [][TNext]_tvars

TInv == NeverTornByCopy /\ KeptBefore /\ Faithful
TOut == pos = Len(Recs[rec].snaps) => Emit([ id |-> Recs[rec].id ])
=============================================================================
