-------------------------------- MODULE Sjis --------------------------------
(***************************************************************************)
(* Source files are Shift_JIS (C22).  A file is a template whose holes     *)
(* (names, a string, comments of the three styles) are filled with         *)
(* characters; the bytes are decoded by the automaton of Shift_JIS; the    *)
(* places of names and strings are counted in decoded characters.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, MaxLen   \* Mode "chars": all sequences of chosen characters; "table": every character of the code page;
                         \* "utf8": characters whose bytes may be taken for UTF-8;
                         \* "straddle": characters at the ends of blocks of the file

\* name |-> <<bytes, code point, letter?>>
Char == [ so |-> <<<<131, 92>>, 12477, TRUE>>,    \* second byte is a backslash
          hyou |-> <<<<149, 92>>, 34920, TRUE>>,
          bo |-> <<<<131, 123>>, 12508, TRUE>>,   \* opening brace
          ma |-> <<<<131, 125>>, 12510, TRUE>>,   \* closing brace
          po |-> <<<<131, 124>>, 12509, TRUE>>,
          mi |-> <<<<131, 126>>, 12511, TRUE>>,
          a |-> <<<<131, 65>>, 12450, TRUE>>,     \* a letter
          chiisaiA |-> <<<<131, 64>>, 12449, TRUE>>,
          ze |-> <<<<131, 91>>, 12476, TRUE>>,
          zo |-> <<<<131, 93>>, 12478, TRUE>>,
          da |-> <<<<131, 95>>, 12480, TRUE>>,
          ga |-> <<<<136, 159>>, 20124, TRUE>>,
          hi |-> <<<<130, 160>>, 12354, TRUE>>,
          wideA |-> <<<<130, 96>>, 65313, TRUE>>,
          greek |-> <<<<131, 191>>, 945, TRUE>>,
          mata |-> <<<<224, 64>>, 28478, TRUE>>,  \* lead byte of the second range
          half |-> <<<<177>>, 65393, TRUE>>,      \* one byte katakana
          bar |-> <<<<176>>, 65392, TRUE>>,
          space |-> <<<<129, 64>>, 12288, FALSE>>,
          comma |-> <<<<129, 65>>, 12289, FALSE>>,
          plus |-> <<<<129, 123>>, 65291, FALSE>>,
          halfdot |-> <<<<161>>, 65377, FALSE>>,
          te |-> <<<<195>>, 65411, TRUE>>,        \* with a half-width character after it the bytes are also UTF-8
          tsu |-> <<<<194>>, 65410, TRUE>>,
          ori |-> <<<<227, 129>>, 32314, TRUE>>,  \* ori yu ne: the bytes of two characters of UTF-8
          yu |-> <<<<130, 227>>, 12421, TRUE>>,
          ne |-> <<<<129, 130>>, 8800, FALSE>>,
          x |-> <<<<120>>, 120, TRUE>>,
          us |-> <<<<95>>, 95, TRUE>> ]
AllChars == DOMAIN Char
Letters == {c \in AllChars : Char[c][3]}

\* every two-byte character of code page 932: rows <<lead, <<trail, code point, letter?>> ...>> (made by tools/mksjis.py)
ASSUME TLCSet(21, IF Mode = "table" THEN JsonDeserialize("sjis_table.json") ELSE <<>>)
Rows == TLCGet(21)
ASSUME TLCSet(22, [k \in UNION {{Rows[r][1] * 256 + Rows[r][2][n][1] : n \in 1..Len(Rows[r][2])} : r \in 1..Len(Rows)} |->
                     LET r == CHOOSE r \in 1..Len(Rows) : Rows[r][1] = k \div 256
                         n == CHOOSE n \in 1..Len(Rows[r][2]) : Rows[r][2][n][1] = k % 256
                     IN Rows[r][2][n][2]])
Code == TLCGet(22)

VARIABLES hole,  \* which hole is filled: "name" | "string" | "brace" | "paren" | "line"
          fill,  \* the characters it is filled with: << << bytes, code point >>, ... >>
          at,    \* the place of the first of them in the file, if > 0
          pos,   \* bytes consumed so far
          lead,  \* pending first byte, or 0
          dec    \* decoded code points
vars == <<hole, fill, at, pos, lead, dec>>

RECURSIVE BytesOf(_)
BytesOf(s) == IF s = <<>> THEN <<>> ELSE Head(s)[1] \o BytesOf(Tail(s))
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
IsLead(b) == (b >= 129 /\ b <= 159) \/ (b >= 224 /\ b <= 252)
IsHalf(b) == b >= 161 /\ b <= 223
\* the part of the table which is used here
Table(l, t) == IF Mode = "table" THEN Code[l * 256 + t]
               ELSE LET c == CHOOSE c \in AllChars : Char[c][1] = <<l, t>> IN Char[c][2]

Holes == {"name", "string", "brace", "paren", "line"}
\* parts of a row of the table, with the letters only where a name is to be filled
Two(r, n) == << <<Rows[r][1], Rows[r][2][n][1]>>, Rows[r][2][n][2] >>
PartOf(r, k, letters) == LET sel == SelectSeq([n \in 1..Len(Rows[r][2]) |-> n], LAMBDA n : n \div 48 = k /\ (~letters \/ Rows[r][2][n][3]))
                         IN [j \in 1..Len(sel) |-> Two(r, sel[j])]
Halves == [k \in 1..63 |-> << <<160 + k>>, 65376 + k >>]
Plain == LET sel == SelectSeq([k \in 1..95 |-> k + 31], LAMBDA b : b \notin {39, 92, 123, 125, 41, 42}) IN [j \in 1..Len(sel) |-> << <<sel[j]>>, sel[j] >>]
Blocks == {512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}

Init == /\ hole \in Holes /\ pos = 0 /\ lead = 0 /\ dec = <<>>
        /\ \/ /\ Mode = "chars" /\ at = 0
              /\ \E s \in Seqs(IF hole = "name" THEN Letters ELSE AllChars, MaxLen) : fill = [k \in 1..Len(s) |-> <<Char[s[k]][1], Char[s[k]][2]>>]
           \/ /\ Mode = "utf8" /\ at = 0
              /\ LET cs == {"te", "tsu", "half", "ori", "yu", "ne", "x"} IN
                 \E s \in Seqs(IF hole = "name" THEN cs \cap Letters ELSE cs, MaxLen) : fill = [k \in 1..Len(s) |-> <<Char[s[k]][1], Char[s[k]][2]>>]
           \/ /\ Mode = "table" /\ at = 0
              /\ \/ \E r \in 1..Len(Rows) : \E k \in 0..3 : fill = PartOf(r, k, hole = "name") /\ fill # <<>>
                 \/ hole # "name" /\ fill \in {Halves, Plain}
           \/ /\ Mode = "straddle"
              /\ \E c \in {"so", "ga", "hi", "mata", "half", "bo", "x"} : fill = << <<Char[c][1], Char[c][2]>>, <<Char["so"][1], Char["so"][2]>> >>
              /\ \E b \in Blocks : \E d \in 0..3 : at = b - d
Bytes == BytesOf(fill)
Next == /\ pos < Len(Bytes) /\ pos' = pos + 1 /\ UNCHANGED <<hole, fill, at>>
        /\ LET b == Bytes[pos + 1] IN
           IF lead # 0 THEN lead' = 0 /\ dec' = Append(dec, Table(lead, b))
           ELSE IF IsLead(b) THEN lead' = b /\ UNCHANGED dec
           ELSE lead' = 0 /\ dec' = Append(dec, IF IsHalf(b) THEN b - 161 + 65377 ELSE b)
SSpec == Init /\ [][Next]_vars
Done == pos = Len(Bytes)
-----------------------------------------------------------------------------
RoundTrip == Done => lead = 0 /\ dec = [k \in 1..Len(fill) |-> fill[k][2]]
NeverSyntax == Done => \A k \in 1..Len(dec) : dec[k] \notin {92, 123, 125, 39, 10, 41, 42}
Emit == Done => PrintT(ToJson([h |-> hole, b |-> Bytes, d |-> dec, at |-> at]))
-----------------------------------------------------------------------------
\* arbitrary bytes, also such as are not Shift_JIS: only the absence of crashes is claimed
Odd == {0, 10, 39, 64, 92, 125, 127, 128, 129, 160, 161, 223, 224, 252, 253, 255}
OddInit == /\ hole \in {"name", "string", "brace", "paren", "line", "end"}
           /\ fill \in Seqs(Odd, MaxLen) /\ at = 0 /\ pos = 0 /\ lead = 0 /\ dec = <<>>
OddSpec == OddInit /\ [][FALSE]_vars
OddEmit == PrintT(ToJson([h |-> hole, b |-> fill, d |-> <<>>, at |-> 0]))
=============================================================================
