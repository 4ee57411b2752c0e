------------------------------ MODULE LexTexts ------------------------------
(***************************************************************************)
(* Texts for the lexer.  Modes:                                            *)
(*  "all"   all texts up to MaxLen over an alphabet with one or more        *)
(*          characters of every lexical class                               *)
(*  "ascii" all texts up to length 2 over all ASCII characters and more     *)
(*  "core"  all texts of length MaxLen over a smaller alphabet              *)
(*  "words" every reserved word, in several spellings and surroundings,     *)
(*          with near misses and directives                                 *)
(*  "rnd"   pseudo-random sequences of lexical atoms                        *)
(*  "long"  a few long pseudo-random texts                                  *)
(*  "size"  single tokens of every class of many lengths                    *)
(*  "focus" all texts of length MaxLen over small alphabets: quotes and     *)
(*          backslashes; comments; numbers; symbols of two characters       *)
(***************************************************************************)
EXTENDS Lexer
CONSTANTS Mode, MaxLen, Count, Seed

Alphabet == {"a","E","_","1","0","'","(",")","*","+",",","-",".","/",":",";","<","=",">","@",
             "[","]","^","{","}","#","$","&"," ","\n","\t","\r","!","\\","NUL","KANA","WIDESP","WIDE1"}

Ascii == {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/","0","1","2","3","4","5","6","7","8","9",
          ":",";","<","=",">","?","@","[","\\","]","^","_","`","{","|","}","~",
          " ","\n","\t","\r","VT","FF","NUL","DEL","ESC","BOM","NBSP","WIDESP","WIDE1","KANA","KANJI","EACUTE","HALFKANA","YEN"}
         \cup LowerSet \cup UpperSet
Core == {"a","1","'","(",")","*","-",".","/",":","<","=",">","{","}"," ","\n","\\","!"}

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* pseudo-random numbers: a linear congruential step which stays below 2^31 *)
Lcg(r) == (r * 2011 + 12345) % 1000003
R0(n) == Lcg(Lcg(((Seed % 1000) * 997 + n * 7919) % 1000003))
RECURSIVE Rnd(_, _)
Rnd(r, k) == IF k = 0 THEN r ELSE Rnd(Lcg(r), k-1)
Pick(r, s) == s[1 + ((r \div 7) % Len(s))]

\* spell a word in a mixture of case given by r
Spell(w, r) == [k \in 1..Len(w) |-> IF ((r \div (k * k + 1)) % 3) = 0 THEN Low(w[k]) ELSE w[k]]
Words == ReservedList \o ReservedList \o <<"ABSOLUTE","NAME","BEGINX","_END","E1","X","INDEX","STRINGS","ANDY","OR_","TYPE2","I","ON","READ">>
Others == << <<"1">>, <<"4","2">>, <<"-","7">>, <<"1",".","5">>, <<"3",".">>, <<"1",".",".","2">>, <<"0",".","0",".","1">>,
             <<"-">>, <<"+">>, <<"'","a","'">>, <<"'","'">>, <<"'"," ","{","'">>, <<"'","\n","'">>, <<"'","KANJI","'">>, <<"'","\\","'","'">>, <<"'","\\","'">>,
             <<"{"," ","}">>, <<"{","\n","a","}">>, <<"(","*","a","*",")">>, <<"(","*",")">>, <<"(","*","\n","*","*",")">>,
             <<"/","/","a","\n">>, <<"/","/","KANA","\r","\n">>, <<"/">>, <<"*">>, <<"(">>, <<")">>, <<"(",".">>, <<".",")">>,
             <<".">>, <<".",".">>, <<":">>, <<":","=">>, <<"=">>, <<"<">>, <<">">>, <<"<","=">>, <<">","=">>, <<"<",">">>,
             <<"[">>, <<"]">>, <<"^">>, <<"@">>, <<"#">>, <<"$">>, <<"&">>, <<",">>, <<";">>, <<"}">>,
             <<" ">>, <<"\n">>, <<"\r","\n">>, <<"\t">>, <<" ","\n"," ">>, <<"\n","\n">>, <<"WIDESP">>, <<"NBSP">>, <<"FF">>,
             <<"!">>, <<"\\">>, <<"NUL">>, <<"WIDE1">>, <<"?">>, <<"KANA","1">>, <<"EACUTE">>, <<"'">>, <<"{">>, <<"(","*">>, <<"/","/">> >>
Atom(r) == IF r % 2 = 0 THEN Spell(Chars(Pick(r, Words)), Lcg(r)) ELSE Pick(r, Others)
Separated(r) == IF (r \div 11) % 3 = 0 THEN Atom(r) \o <<" ">> ELSE Atom(r)
RndText(n) == LET r == R0(n) IN Flat([k \in 1..(3 + (r % 14)) |-> Separated(Rnd(r, k))])

Directives == <<"ABSOLUTE","ABSTRACT","ASSEMBLER","AUTOMATED","CDECL","CONTAINS","DEFAULT","DEPRECATED","DISPID",
  "DYNAMIC","EXPORT","EXTERNAL","FAR","FORWARD","IMPLEMENTS","INDEX","LOCAL","MESSAGE","NAME","NEAR","NODEFAULT",
  "OVERLOAD","OVERRIDE","PACKAGE","PASCAL","PLATFORM","PRIVATE","PROTECTED","PUBLIC","PUBLISHED","READ","READONLY",
  "REGISTER","REINTRODUCE","REQUIRES","RESIDENT","SAFECALL","STDCALL","STORED","VARARGS","VIRTUAL","WRITE","WRITEONLY",
  "ON","AT","INTEGER","TRUE","FALSE","SELF","RESULT">>
LowerW(w) == [k \in 1..Len(w) |-> Low(w[k])]
Capital(w) == [k \in 1..Len(w) |-> IF k = 1 THEN w[k] ELSE Low(w[k])]
Mixed(w) == [k \in 1..Len(w) |-> IF k % 2 = 1 THEN Low(w[k]) ELSE w[k]]
Forms(w) == { w, LowerW(w), Capital(w), Mixed(w), Spell(w, Seed * 31 + 7),
              w \o <<"x">>, <<"x">> \o w, w \o <<"1">>, w \o <<"_">>, <<"_">> \o w, SubSeq(w, 1, Len(w)-1),
              Tail(w), w \o <<"KANA">>, <<"1">> \o w, w \o w, [w EXCEPT ![1] = "Q"], [w EXCEPT ![Len(w)] = "Q"] }
Around == {<< <<>>, <<>> >>, << <<".">>, <<".">> >>, << <<"(">>, <<")">> >>, << <<" ">>, <<"\n">> >>, << <<"}">>, <<"{">> >>, << <<"'","'">>, <<"'">> >>}
WordTexts == {a[1] \o f \o a[2] : a \in Around, f \in UNION {Forms(Chars(w)) : w \in {(ReservedList \o Directives)[k] : k \in 1..Len(ReservedList \o Directives)}}}
LongText(n) == LET r == R0(n) IN Flat([k \in 1..(150 + (r % 100)) |-> Separated(Rnd(r, k))])

Many(c, n) == [k \in 1..n |-> c[((k - 1) % Len(c)) + 1]]
Sizes == {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} \cup (IF Count > 0 THEN {511, 512, 513, 1023, 1024, 1025} ELSE {})
SizeTexts == UNION {{ Many(<<"a", "B", "_">>, n), Many(<<"a">>, n) \o <<"(">>, <<"1">> \o Many(<<"0", "9">>, n) \o <<";">>, <<"-">> \o Many(<<"7">>, n) \o <<".", ".">>,
                      <<"0", ".">> \o Many(<<"1", "2">>, n), <<"'">> \o Many(<<"a", " ">>, n) \o <<"'", "x">>, <<"'">> \o Many(<<"KANJI">>, n),
                      <<"{">> \o Many(<<"a", "\n", "*">>, n) \o <<"}", "b">>, <<"(", "*">> \o Many(<<"*", "a", "\n">>, n) \o <<"*", ")", "b">>,
                      <<"/", "/">> \o Many(<<"a", "/">>, n) \o <<"\n", "b">>, <<"a">> \o Many(<<" ">>, n) \o <<"b">>, <<"a">> \o Many(<<"\n">>, n) \o <<"b">>,
                      <<"a">> \o Many(<<" ", "\t", "\r", "\n">>, n) \o <<"b">>, Many(<<"(">>, n), Many(<<"<", "=">>, n), Many(<<"a", ".">>, n), Many(<<"!">>, n),
                      Many(<<"'", "'">>, n), Many(<<"KANA", "1">>, n) \o <<"+">>, Many(<<"{", "}">>, n), Many(<<"-", "1">>, n) } : n \in Sizes}

Focus == { {"'", "\\", "a", "\n"}, {"(", "*", ")", "a"}, {"{", "}", "(", "*", "'"}, {"/", "\n", "a", "'"}, {"1", ".", "-", "0"}, {"<", ">", "=", ":", "."}, {"(", ".", ")", "*"} }
Texts == IF Mode = "size" THEN SizeTexts
    ELSE IF Mode = "focus" THEN UNION {[1..MaxLen -> F] : F \in Focus}
    ELSE IF Mode = "ascii" THEN UNION {[1..k -> Ascii] : k \in 0..2}
    ELSE IF Mode = "core" THEN [1..MaxLen -> Core]
    ELSE IF Mode = "words" THEN WordTexts
    ELSE IF Mode = "long" THEN {LongText(n) : n \in 1..Count}
    ELSE IF Mode = "all" THEN UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
                         ELSE {RndText(n) : n \in 1..Count}
LexInit == text \in Texts /\ i = 0 /\ toks = <<>> /\ eofs = 0
LexSpec == LexInit /\ [][LexNext]_lexvars

Emit == LexDone => PrintT(ToJson([x |-> text, t |-> toks, p |-> PosTable, q |-> PosTableDev]))
=============================================================================
