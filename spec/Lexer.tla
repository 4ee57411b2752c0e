------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical grammar as a state machine: the reader stands at index i of *)
(* the text; each action below reads exactly one token of one lexical      *)
(* class.  At every place exactly one action is enabled (Deterministic).   *)
(*                                                                         *)
(* Positions are defined declaratively from the text (Line, Col), not by   *)
(* stepping a cursor.                                                      *)
(***************************************************************************)
EXTENDS Chars, Integers, Json

VARIABLES text,   \* the source text: a sequence of characters
          i,      \* index of the next character (0-based)
          toks,   \* tokens read so far
          eofs    \* number of end-of-file tokens read

lexvars == <<text, i, toks, eofs>>

N == Len(text)
At(k) == IF k < N THEN text[k+1] ELSE "EOF"          \* character with index k

\* number of line feeds before index k, and the index just after the last of them
LFsBefore(k) == Cardinality({j \in 0..(k-1) : text[j+1] = LF})
LineStart(k) == LET S == {j \in 0..(k-1) : text[j+1] = LF}
                IN IF S = {} THEN 0 ELSE 1 + (CHOOSE j \in S : \A j2 \in S : j2 <= j)
Line(k) == 1 + LFsBefore(k)
Col(k) == 1 + k - LineStart(k)

\* least index k >= from (at most N) with P(k), or N
FirstFrom(from, P(_)) ==
  LET S == {k \in from..(N-1) : P(k)}
  IN IF S = {} THEN N ELSE CHOOSE k \in S : \A k2 \in S : k <= k2
Least2(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Lexical classes at index k *)
StartsBrace(k)  == At(k) = "{"
StartsStar(k)   == At(k) = "(" /\ At(k+1) = "*"
StartsSlash(k)  == At(k) = "/" /\ At(k+1) = "/"
StartsComment(k)== StartsBrace(k) \/ StartsStar(k) \/ StartsSlash(k)
StartsString(k) == At(k) = "'"
StartsNumeral(k)== At(k) \in Digits \/ (At(k) = "-" /\ At(k+1) \in Digits)
StartsDouble(k) == <<At(k), At(k+1)>> \in DoubleSymbols
StartsSingle(k) == At(k) \in SingleSymbols
StartsWord(k)   == WordHead(At(k))
StartsBlank(k)  == At(k) \in Blanks

\* end (index after the last character) of the token of each class at k
CommentEnd(k) ==
  IF StartsBrace(k) THEN LET e == FirstFrom(k+1, LAMBDA j : At(j) = "}") IN Least2(e+1, N)
  ELSE IF StartsStar(k) THEN LET e == FirstFrom(k+2, LAMBDA j : At(j) = "*" /\ At(j+1) = ")") IN Least2(e+2, N)
  ELSE FirstFrom(k+2, LAMBDA j : At(j) = LF)
\* A quote directly after a backslash does not end a string in this implementation (see DESIGN.md)
StringEnd(k) == LET e == FirstFrom(k+1, LAMBDA j : At(j) = "'" /\ (j = k+1 \/ At(j-1) # "\\")) IN Least2(e+1, N)
IntEnd(k) == FirstFrom(k+1, LAMBDA j : At(j) \notin Digits)
HasFraction(k) == LET e == IntEnd(k) IN At(e) = "." /\ At(e+1) # "."
NumeralEnd(k) == LET e == IntEnd(k) IN
  IF HasFraction(k) THEN FirstFrom(e+1, LAMBDA j : At(j) \notin Digits) ELSE e
WordEnd(k)  == FirstFrom(k+1, LAMBDA j : ~WordChar(At(j)))
BlankEnd(k) == FirstFrom(k+1, LAMBDA j : At(j) \notin Blanks)

\* a token: kind, start, end, line and column of both
Tok(kind, s, e) == <<kind, s, e, Line(s), Col(s), Line(e), Col(e)>>
Read(kind, e) == /\ i < N
                 /\ toks' = Append(toks, Tok(kind, i, e))
                 /\ i' = e
                 /\ UNCHANGED <<text, eofs>>
-----------------------------------------------------------------------------
(* Actions, one per lexical class *)
ReadComment == StartsComment(i) /\ Read("comment", CommentEnd(i))
ReadString  == StartsString(i)  /\ Read("string", StringEnd(i))
ReadNumeral == StartsNumeral(i) /\ Read(IF HasFraction(i) THEN "real" ELSE "int", NumeralEnd(i))
ReadDouble  == StartsDouble(i) /\ ~StartsComment(i) /\ Read("symbol", i+2)
ReadSingle  == /\ StartsSingle(i) /\ ~StartsDouble(i) /\ ~StartsComment(i)
               /\ ~StartsString(i) /\ ~StartsNumeral(i)
               /\ Read("symbol", i+1)
ReadWord    == /\ StartsWord(i)
               /\ LET e == WordEnd(i) IN
                  Read(IF IsReserved(SubSeq(text, i+1, e)) THEN "reserved" ELSE "ident", e)
ReadBlank   == StartsBlank(i) /\ Read("blank", BlankEnd(i))
ReadUnknown == /\ i < N
               /\ ~StartsComment(i) /\ ~StartsString(i) /\ ~StartsNumeral(i) /\ ~StartsDouble(i)
               /\ ~StartsSingle(i) /\ ~StartsWord(i) /\ ~StartsBlank(i)
               /\ Read("unknown", i+1)
ReadEof     == /\ i = N /\ eofs < 1
               /\ toks' = Append(toks, Tok("eof", N, N))
               /\ eofs' = eofs + 1
               /\ UNCHANGED <<text, i>>

LexNext == \/ ReadComment \/ ReadString \/ ReadNumeral \/ ReadDouble \/ ReadSingle
           \/ ReadWord \/ ReadBlank \/ ReadUnknown \/ ReadEof
-----------------------------------------------------------------------------
(* Properties of the specification itself *)
Tiling == \* C01: the tokens tile the text up to i
  /\ (toks = <<>>) => (i = 0)
  /\ \A k \in 1..Len(toks) :
       /\ toks[k][2] = IF k = 1 THEN 0 ELSE toks[k-1][3]
       /\ IF toks[k][1] = "eof" THEN toks[k][3] = toks[k][2] /\ toks[k][2] = N
                                ELSE toks[k][3] > toks[k][2]
  /\ toks # <<>> => toks[Len(toks)][3] = i
Classes == <<StartsComment(i), StartsString(i), StartsNumeral(i),
             StartsDouble(i) /\ ~StartsComment(i),
             StartsSingle(i) /\ ~StartsDouble(i) /\ ~StartsComment(i) /\ ~StartsString(i) /\ ~StartsNumeral(i),
             StartsWord(i), StartsBlank(i)>>
Deterministic == \* C02: at most one lexical class applies at any place
  Cardinality({k \in 1..Len(Classes) : Classes[k]}) <= 1
PositionsMonotone == \* C03: positions grow with the index, columns restart after line feeds
  \A k \in 1..Len(toks) :
     /\ toks[k][4] <= toks[k][6]
     /\ toks[k][4] = toks[k][6] => toks[k][7] - toks[k][5] = toks[k][3] - toks[k][2]
     /\ toks[k][5] >= 1 /\ toks[k][7] >= 1
\* line and column of every index, and the same under the known deviation of the
\* implementation: a line feed as the very first character does not end a line
LFsAfterFirst(k) == {j \in 1..(k-1) : text[j+1] = LF}
LineDev(k) == 1 + Cardinality(LFsAfterFirst(k))
ColDev(k) == LET S == LFsAfterFirst(k) IN
             1 + k - (IF S = {} THEN 0 ELSE 1 + (CHOOSE j \in S : \A j2 \in S : j2 <= j))
PosTable == [k \in 1..(N+1) |-> <<Line(k-1), Col(k-1)>>]
PosTableDev == IF At(0) = LF THEN [k \in 1..(N+1) |-> <<LineDev(k-1), ColDev(k-1)>>] ELSE <<>>
LexDone == i = N /\ eofs = 1
=============================================================================
