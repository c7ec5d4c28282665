-------------------------------- MODULE Kinds --------------------------------
(* The kinds of frames that scripts and dumps know. *)
EXTENDS Naturals, Sequences, FiniteSets

\* the kinds of frames there are: name, kind of value, identifier in
\* ID3v2.2 (if any), identifier in ID3v2.3 and ID3v2.4
Kinds == <<
  << "album-frame", "text", "TAL", "TALB" >>,
  << "artist-frame", "text", "TP1", "TPE1" >>,
  << "band-frame", "text", "TP2", "TPE2" >>,
  << "bpm-frame", "text", "TBP", "TBPM" >>,
  << "comment-frame", "comm", "COM", "COMM" >>,
  << "composer-frame", "text", "TCM", "TCOM" >>,
  << "conductor-frame", "text", "TP3", "TPE3" >>,
  << "content-group-frame", "text", "TT1", "TIT1" >>,
  << "copyright-frame", "text", "TCR", "TCOP" >>,
  << "date-frame", "text", "TDA", "TDAT" >>,
  << "encoded-by-frame", "text", "TEN", "TENC" >>,
  << "file-owner-frame", "text", "", "TOWN" >>,
  << "file-type-frame", "text", "TFT", "TFLT" >>,
  << "genre-frame", "text", "TCO", "TCON" >>,
  << "initial-key-frame", "text", "TKE", "TKEY" >>,
  << "interpreted-by-frame", "text", "TP4", "TPE4" >>,
  << "isrc-frame", "text", "TRC", "TSRC" >>,
  << "langs-frame", "text", "TLA", "TLAN" >>,
  << "length-frame", "text", "TLE", "TLEN" >>,
  << "lyricist-frame", "text", "TXT", "TEXT" >>,
  << "media-type-frame", "text", "TMT", "TMED" >>,
  << "original-album-frame", "text", "TOT", "TOAL" >>,
  << "original-artist-frame", "text", "TOA", "TOPE" >>,
  << "original-filename-frame", "text", "TOF", "TOFN" >>,
  << "original-lyricist-frame", "text", "TOL", "TOLY" >>,
  << "original-release-year-frame", "text", "TOR", "TORY" >>,
  << "part-of-a-set-frame", "text", "TPA", "TPOS" >>,
  << "play-count-frame", "pcnt", "CNT", "PCNT" >>,
  << "playlist-delay-frame", "text", "TDY", "TDLY" >>,
  << "popm-frame", "popm", "POP", "POPM" >>,
  << "publisher-frame", "text", "TPB", "TPUB" >>,
  << "recording-dates-frame", "text", "TRD", "TRDA" >>,
  << "settings-frame", "text", "TSS", "TSSE" >>,
  << "size-frame", "text", "TSI", "TSIZ" >>,
  << "station-name-frame", "text", "", "TRSN" >>,
  << "station-owner-frame", "text", "", "TRSO" >>,
  << "subtitle-frame", "text", "TT3", "TIT3" >>,
  << "tag-cloud-frame", "xtag", "XTG", "XTAG" >>,
  << "time-frame", "text", "TIM", "TIME" >>,
  << "title-frame", "text", "TT2", "TIT2" >>,
  << "track-frame", "text", "TRK", "TRCK" >>,
  << "udt-frame", "udt", "TXX", "TXXX" >>,
  << "year-frame", "text", "TYE", "TYER" >> >>
KindSet == { Kinds[i] : i \in 1..Len(Kinds) }
IdIn(ver, k) == IF ver = 2 THEN k[3] ELSE k[4]
Known(ver, id) == { k \in KindSet : IdIn(ver, k) = id }
Named(sym) == { k \in KindSet : k[1] = sym }
The(S) == CHOOSE x \in S : TRUE
IdLen(ver) == IF ver = 2 THEN 3 ELSE 4
\* no two kinds share a name or an identifier
Distinct == /\ \A a, b \in KindSet : (a # b) => (a[1] # b[1] /\ a[4] # b[4] /\ (a[3] = "" \/ a[3] # b[3]))
            /\ Cardinality(KindSet) = Len(Kinds)
=============================================================================
