------------------------------ MODULE Settings ------------------------------
(* Settings of commands: given in the environment, on the command line, or not *)
(* at all.  Each acts as the option it stands for; the command line has the    *)
(* last word.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Bytes

\* command, variable, option, and the values it is tried with ("" for flags)
Table == {
  << "genre", "ADJUST_UNSYNC", "adjust-unsync", { "" } >>, << "genre", "ALWAYS_CREATE_V2", "always-create-v2", { "" } >>,
  << "genre", "ALWAYS_CREATE_V1", "always-create-v1", { "" } >>, << "genre", "CREATE_BACKUPS", "create-backups", { "" } >>,
  << "genre", "CREATE_V1", "create-v1", { "" } >>, << "genre", "CREATE_V2", "create-v2", { "" } >>, << "genre", "DRY_RUN", "dry-run", { "" } >>,
  << "genre", "V1_ONLY", "v1-only", { "" } >>, << "genre", "V2_ONLY", "v2-only", { "" } >>, << "genre", "VERBOSE", "verbose", { "" } >>,
  << "popm", "ADJUST_UNSYNC", "adjust-unsync", { "" } >>, << "popm", "CREATE", "create-frame", { "" } >>,
  << "popm", "CREATE_BACKUPS", "create-backups", { "" } >>, << "popm", "DRY_RUN", "dry-run", { "" } >>,
  << "popm", "OWNER", "owner", { "me", "you" } >>, << "popm", "VERBOSE", "verbose", { "" } >>,
  << "rename", "DRY_RUN", "dry-run", { "" } >>, << "rename", "OUTPUT", "output", { "o1", "o2" } >>, << "rename", "VERBOSE", "verbose", { "" } >>,
  << "text", "ADJUST_UNSYNC", "adjust-unsync", { "" } >>, << "text", "ALWAYS_CREATE_V2", "always-create-v2", { "" } >>,
  << "text", "CREATE_BACKUPS", "create-backups", { "" } >>, << "text", "CREATE_V2", "create-v2", { "" } >>,
  << "text", "ENCODING", "encoding", { "UTF-8", "CP1251" } >>,
  << "xtag", "ADJUST_UNSYNC", "adjust-unsync", { "" } >>, << "xtag", "ALWAYS_CREATE_V2", "always-create-v2", { "" } >>,
  << "xtag", "CREATE", "create-frame", { "" } >>, << "xtag", "CREATE_V2", "create-v2", { "" } >>,
  << "xtag", "CREATE_BACKUPS", "create-backups", { "" } >>, << "xtag", "DRY_RUN", "dry-run", { "" } >>, << "xtag", "OWNER", "owner", { "me", "you" } >>,
  << "dump", "NUM_COMMENTS", "num-comments", { "1", "3" } >>, << "dump", "V1_ENCODING", "v1-encoding", { "CP1251", "UTF-8" } >> }
Cmds == { r[1] : r \in Table }
Of(cmd) == { r \in Table : r[1] = cmd }
Flag(r) == r[4] = { "" }
No == "-"
\* what can be said of a setting in the environment, and on the command line
EnvValues(r) == { No } \cup IF Flag(r) THEN { "1", "true", "yes", "0", "false", "junk" } ELSE r[4]
CliValues(r) == { No } \cup r[4]
\* the option in force: No, or its value
Effective(r, e, c) == IF c # No THEN c
                      ELSE IF ~Flag(r) THEN e
                      ELSE IF e \in { "1", "true", "yes" } THEN "" ELSE No
\* is a variable's value beyond understanding?
Nonsense(r, e) == Flag(r) /\ e = "junk"

VARIABLES cmd, env, cli, stage
vars == << cmd, env, cli, stage >>
Rows == Of(cmd)
None(rs) == [ r \in rs |-> No ]
Init == \E k \in Cmds : cmd = k /\ env = None(Of(k)) /\ cli = None(Of(k)) /\ stage = "new"
Export(r, v) == stage = "new" /\ env' = [ env EXCEPT ![r] = v ] /\ UNCHANGED << cmd, cli, stage >>
Give(r, v) == stage = "new" /\ cli' = [ cli EXCEPT ![r] = v ] /\ UNCHANGED << cmd, env, stage >>
Run == stage = "new" /\ stage' = "done" /\ UNCHANGED << cmd, env, cli >>
Given == Cardinality({ r \in Rows : env[r] # No }) + Cardinality({ r \in Rows : cli[r] # No })
Next == Run \/ \E r \in Rows : \/ env[r] = No /\ \E v \in EnvValues(r) \ { No } : Export(r, v)
                               \/ cli[r] = No /\ \E v \in CliValues(r) \ { No } : Give(r, v)
Spec == Init /\ [][Next]_vars
\* at random (h as ever)
One(h, S) == RandomElement(S)
Sane(r) == EnvValues(r) \ { "junk" }
RandStep == /\ stage = "new" /\ stage' = "done" /\ UNCHANGED cmd
            /\ env' = [ r \in Rows |-> IF One(stage, 1..3) = 1 THEN One(stage, Sane(r)) ELSE No ]
            /\ cli' = [ r \in Rows |-> IF One(stage, 1..4) = 1 THEN One(stage, CliValues(r)) ELSE No ]
RandSpec == Init /\ [][RandStep]_vars

CONSTANT Limit
Few == Given <= Limit
\* --------------------------------------------------------------- properties
Force == [ r \in Rows |-> Effective(r, env[r], cli[r]) ]
\* the command line decides; the environment only where it is silent
LastWord == \A r \in Rows : (cli[r] # No) => Force[r] = cli[r]
Silent == \A r \in Rows : (cli[r] = No /\ env[r] = No) => Force[r] = No
\* no two settings of a command share a variable or an option
Apart == \A k \in Cmds : \A a, b \in Of(k) : (a # b) => (a[2] # b[2] /\ a[3] # b[3])
Pairs(f, i) == { << r[i], f[r] >> : r \in { x \in Rows : f[x] # No } }
\* (a nonsensical value the command line overrides may be refused or ignored)
Moot == \E r \in Rows : Nonsense(r, env[r]) /\ cli[r] # No
Out == (stage = "done" /\ env # None(Rows) /\ ~Moot) =>
  Emit([ cmd |-> cmd, env |-> Pairs(env, 2), cli |-> Pairs(cli, 3), eff |-> Pairs(Force, 3), bad |-> \E r \in Rows : Nonsense(r, env[r]) ])
=============================================================================
