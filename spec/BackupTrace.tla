---------------------------- MODULE BackupTrace ----------------------------
(* Recorded updates against Backup. A record is [ id, start, steps ], a       *)
(* directory a sequence of [ n, c ] (name, content), a step                   *)
(* [ f, keep, new, dir ].                                                     *)
EXTENDS Backup

CONSTANT File
Recs == JsonDeserialize(File)

AsDir(s) == [ n \in { s[i].n : i \in 1..Len(s) } |-> (CHOOSE i \in 1..Len(s) : s[i].n = n) ]
Dir(s) == LET d == AsDir(s) IN [ n \in DOMAIN d |-> s[d[n]].c ]

VARIABLES rec, pos, dir
tvars == << rec, pos, dir, start, hist, done >>

TInit == /\ rec \in 1..Len(Recs) /\ pos = 0 /\ dir = Dir(Recs[rec].start)
         /\ start = {} /\ hist = <<>> /\ done = FALSE
TNext == /\ pos < Len(Recs[rec].steps)
         /\ LET s == Recs[rec].steps[pos + 1] IN
            /\ Update(dir, Dir(s.dir), s.f, s.new, s.keep)
            /\ dir' = Dir(s.dir)
         /\ pos' = pos + 1
         /\ UNCHANGED << rec, start, hist, done >>
TSpec == TInit /\ [][TNext]_tvars

\* nothing that was once kept as a backup is ever lost or changed, unless
\* updated itself
TOut == pos = Len(Recs[rec].steps) => Emit([ id |-> Recs[rec].id ])
=============================================================================
