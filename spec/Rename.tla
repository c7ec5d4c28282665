------------------------------- MODULE Rename -------------------------------
(* Renaming (or copying) files by template.  Files are found first, then taken *)
(* in the order of the arguments, those of one directory in any order.  A file *)
(* is never written over another.                                              *)
EXTENDS Template

\* paths: directory, stem and extension of each
P(d, s, e) == [ d |-> d, s |-> s, e |-> e ]
Path(p) == IF p.d = "" THEN p.s \o p.e ELSE p.d \o "/" \o p.s \o p.e
Places == { P("", "a", ".mp3"), P("", "b", ".mp3"), P("", "c", ".txt"), P("", "X - Y", ".mp3"),
            P("d", "a", ".mp3"), P("d", "g", ""), P("d", "X - Y", ".mp3"), P("d/e", "f", ".mp3"), P("o", "X - Y", ".mp3"),
            P("o", "Y", ".mp3") }
Dirs == { "d", "d/e", "o" }
Under(dir, d) == dir = d \/ (dir = "d" /\ d = "d/e")
\* a file: which one it is (its content), what its tags say; or not readable
FileOf(id, env, bad) == [ id |-> id, env |-> env, bad |-> bad ]

\* cfg: files (a function on places), args (places or directories, as text), remove, out, dry, ts
VARIABLES cfg, tree, done, failed
rvars == << vars, cfg, tree, done, failed >>
Found(c, a) == IF a \in Dirs THEN { p \in DOMAIN c.files : Under(a, p.d) /\ p.e = ".mp3" }
               ELSE { p \in DOMAIN c.files : Path(p) = a }
\* the files still to come of the first argument that has any left
ToDo(c, d) == LET n == { i \in 1..Len(c.args) : Found(c, c.args[i]) \ d # {} }
              IN IF n = {} THEN {} ELSE Found(c, c.args[CHOOSE i \in n : \A j \in n : i <= j]) \ d
RECURSIVE TextOf(_)
TextOf(ps) == IF ps = <<>> THEN "" ELSE ps[1].s \o TextOf(Tail(ps))
NewName(f, ts) == LET r == Expand(f.env, ts) IN IF f.bad \/ r.st # "ok" THEN <<>> ELSE << TextOf(r.ps) >>
DirOf(s) == LET n == { i \in 1..Len(s) : At(s, i) = "/" }
            IN IF n = {} THEN "" ELSE SubSeq(s, 1, (CHOOSE i \in n : \A j \in n : j <= i) - 1)
Target(c, p, name) == LET d == IF c.out THEN "o" ELSE p.d IN IF d = "" THEN name ELSE d \o "/" \o name
Exists(d) == d = "" \/ d \in Dirs

\* what becomes of the tree (path |-> which file) and of the failures
Moved(c, t, p) ==
  LET f == c.files[p]
      n == NewName(f, c.ts)
      to == Target(c, p, n[1])
      from == Path(p)
  IN IF n = <<>> THEN [ t |-> t, ok |-> FALSE ]
     ELSE IF c.dry \/ to = from THEN [ t |-> t, ok |-> TRUE ]
     ELSE IF to \in DOMAIN t \/ to \in Dirs \/ ~Exists(DirOf(to)) \/ n[1] = "" THEN [ t |-> t, ok |-> FALSE ]
     ELSE [ t |-> [ q \in ((DOMAIN t \cup { to }) \ (IF c.remove THEN { from } ELSE {})) |->
                      IF q = to THEN f.id ELSE t[q] ], ok |-> TRUE ]
RECURSIVE Outcomes(_, _, _, _)
Outcomes(c, t, d, bad) ==
  IF ToDo(c, d) = {} THEN { [ tree |-> t, failed |-> bad ] }
  ELSE UNION { LET r == Moved(c, t, p)
               IN Outcomes(c, r.t, d \cup { p }, IF r.ok THEN bad ELSE bad \cup { Path(p) }) : p \in ToDo(c, d) }
Initially(c) == [ s \in { Path(p) : p \in DOMAIN c.files } |-> (c.files[CHOOSE p \in DOMAIN c.files : Path(p) = s]).id ]
Gone(c) == { c.args[i] : i \in { j \in 1..Len(c.args) : c.args[j] \notin Dirs /\ Found(c, c.args[j]) = {} } }

RInit == cfg = <<>> /\ tree = <<>> /\ done = {} /\ failed = {} /\ hist = <<>> /\ stage = "new"
Start(c) == /\ stage = "new" /\ stage' = "visit"
            /\ cfg' = c /\ tree' = Initially(c) /\ failed' = Gone(c) /\ UNCHANGED << hist, done >>
Visit == /\ stage = "visit"
         /\ \E p \in ToDo(cfg, done) :
              LET r == Moved(cfg, tree, p)
              IN tree' = r.t /\ done' = done \cup { p } /\ failed' = IF r.ok THEN failed ELSE failed \cup { Path(p) }
         /\ UNCHANGED << cfg, hist, stage >>
End == /\ stage = "visit" /\ ToDo(cfg, done) = {}
       /\ stage' = "done" /\ UNCHANGED << cfg, tree, done, failed, hist >>

\* -------------------------------------------------------------- properties
Ids(c) == { (c.files[p]).id : p \in DOMAIN c.files }
NothingLost == stage # "new" => \A i \in Ids(cfg) : \E q \in DOMAIN tree : tree[q] = i
\* whatever is at a path stays there, or goes to its new name
NoOverwrite == stage # "new" =>
  \A s \in DOMAIN Initially(cfg) : s \in DOMAIN tree => tree[s] = Initially(cfg)[s] \/ (cfg.remove /\
      \E p \in done : Path(p) = s)
FailuresStay == stage # "new" =>
  \A p \in DOMAIN cfg.files : Path(p) \in failed => tree[Path(p)] = (cfg.files[p]).id
Copies == stage # "new" /\ ~cfg.remove => \A s \in DOMAIN Initially(cfg) : tree[s] = Initially(cfg)[s]
DryRun == stage # "new" /\ cfg.dry => tree = Initially(cfg)
Agree == stage = "done" => [ tree |-> tree, failed |-> failed ] \in Outcomes(cfg, Initially(cfg), {}, Gone(cfg))
Show(c) == [ files |-> { [ path |-> Path(p), id |-> (c.files[p]).id, env |-> (c.files[p]).env, bad |-> (c.files[p]).bad ] :
                           p \in DOMAIN c.files },
             args |-> c.args, remove |-> c.remove, out |-> c.out, dry |-> c.dry, text |-> WrittenAll(c.ts) ]
ROut == stage = "done" => Emit([ cfg |-> Show(cfg), outcomes |-> Outcomes(cfg, Initially(cfg), {}, Gone(cfg)) ])

\* ------------------------------------------------------------------ choices
EnvOf(p, a, t) == [ name |-> p.s \o p.e, stem |-> p.s, ext |-> p.e, stored |-> "iso-8859-1", v1 |-> <<>>,
                    v2 |-> IF a = "" /\ t = "" THEN <<>>
                           ELSE << [ NoTag EXCEPT !.A = IF a = "" THEN <<>> ELSE << a >>, !.T = IF t = "" THEN <<>> ELSE << t >> ] >> ]
M(m) == Mark(m, "", <<>>)
TemplatesR == { << M("A"), Lit(" - "), M("T"), Lit(".mp3") >>, << M("T"), M("E") >>, << M("b"), Lit("-x"), M("E") >>,
                << Lit("same.mp3") >>, << Clause(<< M("A") >>), M("b"), M("E") >>, << Lit("e/"), M("T"), M("E") >>,
                << Lit("X - Y.mp3") >>, << Lit("a.mp3") >>, << M("A"), M("A") >>, << Clause(<< M("T") >>) >>,
                << M("b"), M("E") >> }
\* of two files of a directory, at most: everything
SmallCfgs == { [ files |-> [ p \in S |-> FileOf(Path(p), EnvOf(p, "X", t[p]), FALSE) ], args |-> as, remove |-> r, out |-> o,
                 dry |-> FALSE, ts |-> ts ] :
                 S \in { { P("d", "a", ".mp3"), P("d", "X - Y", ".mp3"), P("d/e", "f", ".mp3") } },
                 t \in [ { P("d", "a", ".mp3"), P("d", "X - Y", ".mp3"), P("d/e", "f", ".mp3") } -> { "Y", "" } ],
                 as \in { << "d" >>, << "d/a.mp3", "d/X - Y.mp3" >>, << "d/e", "d/a.mp3" >> },
                 r \in BOOLEAN, o \in BOOLEAN,
                 ts \in TemplatesR }
RandFiles(h) == [ p \in One(h, { S \in SUBSET Places : Cardinality(S) \in 1..6 }) |->
                    FileOf(Path(p), EnvOf(p, One(h, { "X", "X", "Z", "" }), One(h, { "Y", "Y", "a", "" })), Chance(h, 1, 12)) ]
ArgSets == { { "a.mp3", "b.mp3", "c.txt", "d", "X - Y.mp3", "gone.mp3" }, { "b.mp3", "d/a.mp3", "d/g", "d/e", "o" },
             { "X - Y.mp3", "d/X - Y.mp3", "d/e/f.mp3", "o/X - Y.mp3", "a.mp3" } }
RandArgs(h) == LET S == One(h, { U \in SUBSET One(h, ArgSets) : Cardinality(U) \in 1..4 })
               IN One(h, { f \in [ 1..Cardinality(S) -> S ] : \A i, j \in 1..Cardinality(S) : f[i] = f[j] => i = j })
\* (whether an argument's files are looked for before or after those of the
\* argument before are renamed is left open: that makes no difference here)
RandCfg(h) ==
  LET fs == RandFiles(h)
      ts == One(h, TemplatesR)
      o == Chance(h, 1, 3)
      Clear(a) == /\ a \in Dirs \cup { "gone.mp3" } \cup { Path(p) : p \in DOMAIN fs }
                  /\ ~(o /\ a = "o") /\ ~(a = "d/e" /\ ts[1] = Lit("e/"))
  IN [ files |-> fs, args |-> SelectSeq(RandArgs(h), Clear), remove |-> Chance(h, 1, 2), out |-> o,
       dry |-> Chance(h, 1, 12), ts |-> ts ]
SmallStart == stage = "new" /\ \E c \in SmallCfgs : Start(c)
RandStart == stage = "new" /\ \E c \in { RandCfg(stage) } : Start(c)
SmallSpec == RInit /\ [][SmallStart \/ Visit \/ End]_rvars
RandSpec == RInit /\ [][RandStart \/ Visit \/ End]_rvars
=============================================================================
