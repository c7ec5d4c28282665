------------------------------- MODULE Genres -------------------------------
(* The standard genres and what it means for one to be closest to a text: the  *)
(* fewest insertions, deletions, replacements and exchanges of neighbouring    *)
(* characters, letter case aside (texts here are in lower case).               *)
EXTENDS Bytes, Integers

Names == <<
   "blues", "classic rock", "country", "dance", "disco", "funk", "grunge", "hip-hop", "jazz",
   "metal", "new age", "oldies", "other", "pop", "r&b", "rap", "reggae", "rock", "techno",
   "industrial", "alternative", "ska", "death metal", "pranks", "soundtrack", "euro-techno",
   "ambient", "trip-hop", "vocal", "jazz+funk", "fusion", "trance", "classical", "instrumental",
   "acid", "house", "game", "sound clip", "gospel", "noise", "alternrock", "bass", "soul", "punk",
   "space", "meditative", "instrumental pop", "instrumental rock", "ethnic", "gothic", "darkwave",
   "techno-industrial", "electronic", "pop-folk", "eurodance", "dream", "southern rock", "comedy",
   "cult", "gangsta", "top 40", "christian rap", "pop/funk", "jungle", "native american", "cabaret",
   "new wave", "psychadelic", "rave", "showtunes", "trailer", "lo-fi", "tribal", "acid punk",
   "acid jazz", "polka", "retro", "musical", "rock & roll", "hard rock", "folk", "folk-rock",
   "national folk", "swing", "fast fusion", "bebob", "latin", "revival", "celtic", "bluegrass",
   "avantgarde", "gothic rock", "progressive rock", "psychedelic rock", "symphonic rock",
   "slow rock", "big band", "chorus", "easy listening", "acoustic", "humour", "speech", "chanson",
   "opera", "chamber musice", "sonata", "symphony", "booty brass", "primus", "porn groove",
   "satire", "slow jam", "club", "tango", "samba", "folklore", "ballad", "power ballad",
   "rhytmic soul", "freestyle", "duet", "punk rock", "drum solo", "a capela", "euro-house",
   "dance hall", "goa", "drum & bass", "club-house", "hardcore techno", "terror", "indie",
   "britpop", "negerpunk", "polsk punk", "beat", "christian gangsta rap", "heavy metal",
   "black metal", "crossover", "contemporary christian", "christian rock", "merengue", "salsa",
   "thrash metal", "anime", "jpop", "synthpop", "abstract", "art rock", "baroque", "bhangra",
   "big beat", "breakbeat", "chillout", "downtempo", "dub", "ebm", "eclectic", "electro",
   "electroclash", "emo", "experimental", "garage", "global", "idm", "illbient", "industro-goth",
   "jam band", "krautrock", "leftfield", "lounge", "math rock", "new romantic", "nu-breakz",
   "post-punk", "post-rock", "psytrance", "shoegaze", "space rock", "trop rock", "world music",
   "neoclassical", "audiobook", "audio theatre", "neue deutsche welle", "podcast", "indie-rock",
   "g-funk", "dubstep", "garage rock", "psybient" >>
Low(a, b) == IF a < b THEN a ELSE b
\* texts as sequences of characters
Chars(s) == [ i \in 1..Len(s) |-> SubSeq(s, i, i) ]
NameChars == [ i \in 1..Len(Names) |-> Chars(Names[i]) ]
Upto(n) == [ i \in 1..n |-> i ]

\* One more row of the table of distances between the beginnings of a and b;
\* rows are << one before last, last >>, row[j + 1] is for the first j of b.
NextRow(a, b, rows, i) ==
  Fold(LAMBDA row, j :
         LET cost == IF a[i] = b[j] THEN 0 ELSE 1
             least == Low(Low(row[j] + 1, rows[2][j + 1] + 1), rows[2][j] + cost)
         IN Append(row, IF i > 1 /\ j > 1 /\ a[i] = b[j - 1] /\ a[i - 1] = b[j]
                        THEN Low(least, rows[1][j - 1] + 1) ELSE least),
       << i >>, Upto(Len(b)))
Distance(a, b) ==
  Fold(LAMBDA rows, i : << rows[2], NextRow(a, b, rows, i) >>,
       << <<>>, [ j \in 1..(Len(b) + 1) |-> j - 1 ] >>, Upto(Len(a)))[2][Len(b) + 1]
\* The numbers of the genres closest to a
Closest(a) ==
  LET d == Fold(LAMBDA s, i : Append(s, Distance(a, NameChars[i])), <<>>, Upto(Len(Names)))
      least == Fold(Low, 1000, d)
  IN { i - 1 : i \in { k \in 1..Len(d) : d[k] = least } }

\* ------------------------------------------------------------- misspellings
Letters == { "a", "e", "k", "z", " ", "-", "3" }
Edits(s) ==
  { SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s) } \cup
  { SubSeq(s, 1, i) \o << c >> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Letters } \cup
  { [ s EXCEPT ![i] = c ] : i \in 1..Len(s), c \in Letters } \cup
  { [ s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i] ] : i \in 1..(Len(s) - 1) }

CONSTANT MaxEdits
VARIABLES of, word, left, done
vars == << of, word, left, done >>
Init == of \in 1..Len(Names) /\ word = NameChars[of] /\ left \in 0..MaxEdits /\ done = FALSE
Misspell == /\ left > 0 /\ ~done /\ word # <<>>
            /\ \E w \in { RandomElement(Edits(word)) } : word' = w
            /\ left' = left - 1 /\ UNCHANGED << of, done >>
Finish == left = 0 /\ ~done /\ word # <<>> /\ done' = TRUE /\ UNCHANGED << of, word, left >>
Spec == Init /\ [][Misspell \/ Finish]_vars
\* one edit makes a distance of at most one, and only a genre itself is at distance nought
Sound == /\ (done /\ MaxEdits <= 1) => Distance(word, NameChars[of]) <= MaxEdits
         /\ word = NameChars[of] /\ done => Closest(word) = { of - 1 }
Out == done => Emit([ word |-> Fold(LAMBDA a, b : a \o b, "", word), of |-> of - 1, closest |-> Closest(word) ])
=============================================================================
