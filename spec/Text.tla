------------------------------- MODULE Text -------------------------------
(* Text is a sequence of characters (code points); an encoding gives it bytes  *)
(* or cannot represent it. Routes through which text enters a tag, is stored   *)
(* and is asked for again.                                                     *)
EXTENDS Bytes, Integers

CONSTANTS Chars,   \* the characters
          MaxLen,  \* length of the enumerated texts
          Longs    \* longer texts: << character, repetitions, character >>

VARIABLES text, done
vars == << text, done >>

None == << -1 >>    \* unrepresentable
Encodings == { "ASCII", "ISO-8859-1", "ISO-8859-15", "CP1251", "UTF-8", "UCS-2BE", "UCS-2LE", "UTF-16BE",
               "UTF-16LE", "UTF-32BE", "UTF-32LE", "UCS-4BE", "UCS-4LE", "ISO-2022-JP" }
Unmarked == { "ASCII", "ISO-8859-1", "ISO-8859-15", "CP1251", "ISO-2022-JP" }

\* ------------------------------------------------------------- one character
Latin9 == [ c \in { 8364, 352, 353, 381, 382, 338, 339, 376 } |->
            CASE c = 8364 -> 164 [] c = 352 -> 166 [] c = 353 -> 168 [] c = 381 -> 180
              [] c = 382 -> 184 [] c = 338 -> 188 [] c = 339 -> 189 [] OTHER -> 190 ]
\* some of JIS X 0208
Jis == [ c \in { 1046, 1102, 1103, 35486 } |->
         CASE c = 1046 -> << 39, 40 >> [] c = 1102 -> << 39, 112 >> [] c = 1103 -> << 39, 113 >> [] OTHER -> << 56, 108 >> ]
Range(f) == { f[x] : x \in DOMAIN f }
Utf8(c) == CASE c < 128 -> << c >>
             [] c < 2048 -> << 192 + (c \div 64), 128 + (c % 64) >>
             [] c < 65536 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
             [] OTHER -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Two(n) == << n \div 256, n % 256 >>
Utf16(c) == IF c < 65536 THEN Two(c)
            ELSE LET d == c - 65536 IN Two(55296 + (d \div 1024)) \o Two(56320 + (d % 1024))
Swap(s) == [ i \in 1..Len(s) |-> IF i % 2 = 1 THEN s[i + 1] ELSE s[i - 1] ]
Utf32(c) == << 0 >> \o << c \div 65536, (c \div 256) % 256, c % 256 >>
Flip(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]

OneChar(e, c) ==
  CASE e = "ASCII" -> IF c < 128 THEN << c >> ELSE None
    [] e = "ISO-8859-1" -> IF c < 256 THEN << c >> ELSE None
    [] e = "ISO-8859-15" -> IF c \in DOMAIN Latin9 THEN << Latin9[c] >>
                            ELSE IF c < 256 /\ c \notin Range(Latin9) THEN << c >> ELSE None
    [] e = "CP1251" -> IF c < 128 THEN << c >>
                       ELSE IF c >= 1040 /\ c <= 1103 THEN << c - 848 >>
                       ELSE IF c = 8364 THEN << 136 >> ELSE IF c = 160 THEN << 160 >> ELSE None
    [] e = "ISO-2022-JP" -> IF c < 128 THEN << c >> ELSE IF c \in DOMAIN Jis THEN Jis[c] ELSE None
    [] e = "UTF-8" -> Utf8(c)
    [] e = "UCS-2BE" -> IF c < 65536 THEN Two(c) ELSE None
    [] e = "UCS-2LE" -> IF c < 65536 THEN Swap(Two(c)) ELSE None
    [] e = "UTF-16BE" -> Utf16(c)
    [] e = "UTF-16LE" -> Swap(Utf16(c))
    [] e \in { "UTF-32BE", "UCS-4BE" } -> Utf32(c)
    [] OTHER -> Flip(Utf32(c))

Can(e, t) == \A i \in 1..Len(t) : OneChar(e, t[i]) # None
\* bytes of a stateful encoding: what shifts to its two-byte characters, and back by the end of the text
Shifts(t, i) == LET wide(k) == k \in 1..Len(t) /\ t[k] >= 128 IN
                (IF wide(i) /\ ~wide(i - 1) THEN << 27, 36, 66 >> ELSE <<>>)
                \o OneChar("ISO-2022-JP", t[i])
                \o (IF wide(i) /\ ~wide(i + 1) THEN << 27, 40, 66 >> ELSE <<>>)
Enc(e, t) == IF Can(e, t)
             THEN [ ok |-> TRUE, b |-> Concat([ i \in 1..Len(t) |-> IF e = "ISO-2022-JP" THEN Shifts(t, i)
                                                                    ELSE OneChar(e, t[i]) ]) ]
             ELSE [ ok |-> FALSE, b |-> <<>> ]

\* what is left when unrepresentable characters are to be ignored
Skip(e, t) == SelectSeq(t, LAMBDA c : OneChar(e, c) # None)

Mark(e) == CASE e = "UTF-8" -> << 239, 187, 191 >>
             [] e \in { "UCS-2BE", "UTF-16BE" } -> << 254, 255 >>
             [] e \in { "UCS-2LE", "UTF-16LE" } -> << 255, 254 >>
             [] e \in { "UTF-32BE", "UCS-4BE" } -> << 0, 0, 254, 255 >>
             [] e \in { "UTF-32LE", "UCS-4LE" } -> << 255, 254, 0, 0 >>
             [] OTHER -> <<>>

\* ------------------------------------------------------------------- decoding
Strip(e, b) == IF Mark(e) # <<>> /\ Take(b, Len(Mark(e))) = Mark(e) THEN Drop(b, Len(Mark(e))) ELSE b

RECURSIVE DecUtf8(_)
DecUtf8(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET n == CASE b[1] < 128 -> 1 [] b[1] < 224 -> 2 [] b[1] < 240 -> 3 [] OTHER -> 4
           c == CASE n = 1 -> b[1]
                  [] n = 2 -> (b[1] - 192) * 64 + b[2] - 128
                  [] n = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
                  [] OTHER -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
       IN << c >> \o DecUtf8(Drop(b, n))

\* -------------------------------------------------------- how tags store text
\* in 2.2 and 2.3: Latin-1 when that can represent it, else two-byte characters
\* in 2.4: the encoding asked for
Enc24 == [ no |-> "UTF-8", latin1 |-> "ISO-8859-1", utf16bom |-> "UTF-16LE", utf16be |-> "UTF-16BE",
           utf8 |-> "UTF-8" ]
Storable(ver, how, t) == IF ver = 4 THEN Can(Enc24[how], t) ELSE Can("UCS-2BE", t)

RECURSIVE TrimBlanks(_)
TrimBlanks(t) == IF t # <<>> /\ Last(t) \in { 0, 32 } THEN TrimBlanks(Take(t, Len(t) - 1)) ELSE t

\* --------------------------------------------------------------- enumeration
Texts == UNION { [ 1..n -> Chars ] : n \in 0..MaxLen }
LongTexts == { << l[1] >> \o [ i \in 1..l[2] |-> l[1] ] \o << l[3] >> : l \in Longs }
Init == text \in (Texts \cup LongTexts) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

\* --- properties of the specification
Lossless == Len(text) < 50 => DecUtf8(Enc("UTF-8", text).b) = text
\* encodings tell texts apart: the mark is not part of the text
Marks == \A e \in Encodings \ Unmarked : Enc(e, text).ok /\ (text = <<>> \/ text[1] # 65279)
                                        => Strip(e, Mark(e) \o Enc(e, text).b) = Enc(e, text).b
Wider == Can("ASCII", text) => Can("ISO-8859-1", text) /\ Can("CP1251", text)

Hows == { "no", "latin1", "utf16bom", "utf16be", "utf8" }
Out == done => Emit([ text |-> text, enc |-> [ e \in Encodings |-> Enc(e, text) ],
                        trim |-> [ e \in Encodings |-> Enc(e, TrimBlanks(text)) ],
                        skip |-> [ e \in Encodings |-> Enc(e, Skip(e, text)).b ],
                        mark |-> [ e \in Encodings |-> Mark(e) ],
                        store |-> [ v \in 2..4 |-> [ h \in Hows |-> Storable(v, h, text) ] ] ])
=============================================================================
