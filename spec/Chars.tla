------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters of source texts.  A character is a one-letter string, or one *)
(* of the symbolic names below for characters which are awkward to write   *)
(* in TLA+ (the harness maps the names to real characters).  A text is a   *)
(* sequence of characters.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LowerLetters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
                  "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperLetters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
                  "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSet == {LowerLetters[i] : i \in 1..26}
UpperSet == {UpperLetters[i] : i \in 1..26}
\* "KANA": hiragana a, "KANJI": a kanji, "EACUTE": e with accent, "HALFKANA": half-width katakana
OtherLetters == {"KANA", "KANJI", "EACUTE", "HALFKANA"}

ToUpper == [c \in LowerSet |-> UpperLetters[CHOOSE i \in 1..26 : LowerLetters[i] = c]]
ToLower == [c \in UpperSet |-> LowerLetters[CHOOSE i \in 1..26 : UpperLetters[i] = c]]
Up(c) == IF c \in LowerSet THEN ToUpper[c] ELSE c
Low(c) == IF c \in UpperSet THEN ToLower[c] ELSE c

Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == LowerSet \cup UpperSet \cup OtherLetters
LF == "\n"
\* blanks: "NBSP" no-break space, "WIDESP" ideographic space, "VT" vertical tab, "FF" form feed
Blanks == {" ", "\t", "\r", "\n", "NBSP", "WIDESP", "VT", "FF"}

WordHead(c) == c \in Letters \cup {"_"}
WordChar(c) == WordHead(c) \/ c \in Digits

SingleSymbols == {"#","$","&","'","(",")","*","+",",","-",".","/",":",";",
                  "<","=",">","@","[","]","^","{","}"}
DoubleSymbols == { <<"(",".">>, <<".",")">>, <<".",".">>, <<":","=">>,
                   <<"<","=">>, <<">","=">>, <<"<",">">> }

ReservedList == <<
  "AND","ARRAY","AS","ASM","BEGIN","CASE","CLASS","CONST","CONSTRUCTOR","DESTRUCTOR",
  "DISPINTERFACE","DIV","DO","DOWNTO","ELSE","END","EXCEPT","EXPORTS","FILE","FINALIZATION",
  "FINALLY","FOR","FUNCTION","GOTO","IF","IMPLEMENTATION","IN","INHERITED","INITIALIZATION","INLINE",
  "INTERFACE","IS","LABEL","LIBRARY","MOD","NIL","NOT","OBJECT","OF","OR",
  "OUT","PACKED","PROCEDURE","PROGRAM","PROPERTY","RAISE","RECORD","REPEAT","RESOURCESTRING","SET",
  "SHL","SHR","STRING","THEN","THREADVAR","TO","TRY","TYPE","UNIT","UNTIL",
  "USES","VAR","WHILE","WITH","XOR" >>

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
ReservedSeqs == {Chars(ReservedList[i]) : i \in 1..Len(ReservedList)}
IsReserved(w) == [i \in 1..Len(w) |-> Up(w[i])] \in ReservedSeqs
=============================================================================
