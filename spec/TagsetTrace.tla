---------------------------- MODULE TagsetTrace ----------------------------
(* Recorded updates of tagsets, step by step against Tagset. A record is      *)
(* [ id, start, steps ], a step [ api, how, req, ok, disk ].                  *)
EXTENDS Tagset

CONSTANT File
Recs == JsonDeserialize(File)

VARIABLES rec, pos, disk
tvars == << rec, pos, disk, start, hist, done >>

TInit == /\ rec \in 1..Len(Recs) /\ pos = 0 /\ disk = Recs[rec].start
         /\ start = <<>> /\ hist = <<>> /\ done = FALSE
TNext == /\ pos < Len(Recs[rec].steps)
         /\ LET s == Recs[rec].steps[pos + 1] IN
            /\ Update(disk, s.disk, s.ok, s.req, s.how, s.api)
            /\ disk' = s.disk
         /\ pos' = pos + 1
         /\ UNCHANGED << rec, start, hist, done >>
TSpec == TInit /\ [][TNext]_tvars

\* every record that gets this far is one of the specification's
TOut == pos = Len(Recs[rec].steps) => Emit([ id |-> Recs[rec].id ])
=============================================================================
