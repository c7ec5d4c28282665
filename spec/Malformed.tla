----------------------------- MODULE Malformed -----------------------------
(* Damaged files, and a reader that makes what it can of them. A file starts   *)
(* out well-formed (tags, audio, an ID3v1 tag) and suffers damage: bytes       *)
(* overwritten, lost or inserted, the end cut off, a part repeated. The reader *)
(* takes what headers announce as long as the file has it, else gives up. What *)
(* it makes of the content of a damaged tag is left open (Tagged or Refused).  *)
EXTENDS Id3v2

CONSTANTS Files,     \* well-formed files, as sequences of bytes
          Values,    \* bytes written over others
          Inserted,  \* byte strings inserted
          MaxDamage, EmitAt,
          At(_)      \* offsets (from 0) where a file is damaged

VARIABLES file, damage, pos, outcome, done
vars == << file, damage, pos, outcome, done >>

Put(s, i, v) == [ s EXCEPT ![i + 1] = v ]
Init == file \in Files /\ damage = <<>> /\ pos = 0 /\ outcome = "making" /\ done = FALSE
Hurt(f, what) == file' = f /\ damage' = Append(damage, what)
Overwrite == \E i \in At(file), v \in Values : i < Len(file) /\ file[i + 1] # v /\ Hurt(Put(file, i, v), << "put", i, v >>)
Cut == \E i \in At(file) : i < Len(file) /\ Hurt(Take(file, i), << "cut", i, 0 >>)
Lose == \E i \in At(file) : i < Len(file) /\ Hurt(Take(file, i) \o Drop(file, i + 1), << "lose", i, 0 >>)
Insert == \E i \in At(file), s \in Inserted : i <= Len(file) /\ Hurt(Take(file, i) \o s \o Drop(file, i), << "insert", i, Len(s) >>)
Repeat == \E i \in At(file) : i <= Len(file) /\ i > 0 /\ Hurt(Take(file, i) \o file, << "repeat", i, 0 >>)
Make == /\ outcome = "making" /\ Len(damage) < MaxDamage
        /\ (Overwrite \/ Cut \/ Lose \/ Insert \/ Repeat)
        /\ UNCHANGED << pos, outcome, done >>
Open == outcome = "making" /\ (EmitAt < 0 \/ Len(damage) = EmitAt) /\ outcome' = "reading" /\ UNCHANGED << file, damage, pos, done >>

\* a tag of one frame or one extended header, cut short; its header, and that of the part, may say so
Ver == file[4]
Extended == Ver > 2 /\ Has(file[6], 64)
Over(b, i, x) == Take(b, i) \o x \o Drop(b, i + Len(x))
Said(b) == LET k == Len(b) IN
  CASE Extended /\ Ver = 3 -> IF k < 4 THEN b ELSE Over(b, 0, BE4(k - 4))
    [] Extended /\ Ver = 4 -> IF k < 4 THEN b ELSE Over(b, 0, SS4(k))
    [] Ver = 2 -> IF k < 6 THEN b ELSE Over(b, 3, BE3(k - 6))
    [] OTHER -> IF k < 10 THEN b ELSE Over(b, 4, IF Ver = 3 THEN BE4(k - 10) ELSE SS4(k - 10))
Clip == /\ outcome = "making" /\ damage = <<>>
        /\ \E k \in 0..(Len(file) - 10), said \in BOOLEAN :
             LET b == Take(Drop(file, 10), k) IN
             Hurt(Take(file, 6) \o SS4(k) \o (IF said THEN Said(b) ELSE b), << "clip", k, IF said THEN 1 ELSE 0 >>)
        /\ UNCHANGED << pos, outcome, done >>

AtHeader == Len(file) >= pos + 10 /\ SubSeq(file, pos + 1, pos + 3) = << 73, 68, 51 >>
          /\ file[pos + 4] # 255 /\ file[pos + 5] # 255 /\ \A i \in 7..10 : file[pos + i] < 128
Announced == FromSS(SubSeq(file, pos + 7, pos + 10)) + (IF file[pos + 4] = 4 /\ Has(file[pos + 6], 16) THEN 20 ELSE 10)
Tagged  == outcome = "reading" /\ AtHeader /\ file[pos + 4] \in 2..4 /\ Announced <= Len(file) - pos
           /\ pos' = pos + Announced /\ UNCHANGED << file, damage, outcome, done >>
Refused == outcome = "reading" /\ AtHeader /\ outcome' = "error" /\ UNCHANGED << file, damage, pos, done >>
Ended   == outcome = "reading" /\ ~AtHeader /\ outcome' = "read" /\ UNCHANGED << file, damage, pos, done >>
Finish  == outcome \in { "read", "error" } /\ done' = TRUE /\ UNCHANGED << file, damage, pos, outcome >>
Next == ~done /\ (Make \/ Open \/ Tagged \/ Refused \/ Ended \/ Finish)
Spec == Init /\ [][Next]_vars /\ WF_vars(Tagged \/ Refused \/ Ended \/ Finish)
ClipSpec == Init /\ [][~done /\ (Clip \/ Open \/ Tagged \/ Refused \/ Ended \/ Finish)]_vars

Within == pos <= Len(file)
Ends == [](outcome = "reading" => <>done)
\* what can be wrong at all: a reader may only give up where a header is
Out == done => Emit([ bytes |-> file, damage |-> damage, outcome |-> outcome, pos |-> pos ])
=============================================================================
