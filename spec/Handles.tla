------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Readers of one text (C01, C03).  First the text is read to its end by   *)
(* the Lexer machine; then up to MaxHandles readers, which are copies of   *)
(* each other taken at any moment, are advanced in any interleaving.  A    *)
(* reader is an index into the token sequence; blanks and comments are     *)
(* skipped according to the flags the first reader was made with.          *)
(***************************************************************************)
EXTENDS LexTexts
CONSTANTS MaxOps, MaxHandles, MaxPieces

VARIABLES flags,  \* [sp |-> keep blanks, cm |-> keep comments]
          hs,     \* per reader: number of tokens of toks it has passed
          ops     \* history: <<"next", reader, token index read>>, <<"clone", reader, new reader>>
hvars == <<flags, hs, ops>>

Pieces == { <<" ">>, <<"{","c","}">>, <<"/","/","\n">>, <<"a","b">>, <<"(","*","\n","*",")">>, <<"+">>, <<"\n">> }
PieceTexts == { Flat(p) : p \in UNION {[1..k -> Pieces] : k \in 0..MaxPieces} }

Kept(k) == /\ toks[k][1] = "blank" => flags.sp
           /\ toks[k][1] = "comment" => flags.cm
NextKept(p) == IF p >= Len(toks) THEN Len(toks)
               ELSE CHOOSE k \in (p+1)..Len(toks) : Kept(k) /\ \A j \in (p+1)..(k-1) : ~Kept(j)

ReadNext(h) == LET k == NextKept(hs[h]) IN
   /\ hs' = [hs EXCEPT ![h] = k]
   /\ ops' = Append(ops, <<"next", h, k>>)
Clone(h) == /\ Len(hs) < MaxHandles
            /\ hs' = Append(hs, hs[h])
            /\ ops' = Append(ops, <<"clone", h, Len(hs) + 1>>)

\* Mode "rnd": long pseudo-random histories on pseudo-random texts
HR(j) == R0(Len(ops) * 31 + Len(text) * 7 + j) \div 7
HRandom == LET h == (HR(1) % Len(hs)) + 1 IN IF HR(2) % 9 = 0 /\ Len(hs) < MaxHandles THEN Clone(h) ELSE ReadNext(h)

HInit == /\ text \in (IF Mode = "rnd" THEN Texts ELSE PieceTexts) /\ i = 0 /\ toks = <<>> /\ eofs = 0
         /\ flags \in [sp : BOOLEAN, cm : BOOLEAN] /\ hs = <<0>> /\ ops = <<>>
HNext == \/ LexNext /\ UNCHANGED hvars
         \/ LexDone /\ Len(ops) < MaxOps /\ UNCHANGED <<lexvars, flags>>
            /\ IF Mode = "rnd" THEN HRandom ELSE \E h \in 1..Len(hs) : ReadNext(h) \/ Clone(h)
HSpec == HInit /\ [][HNext]_<<lexvars, hvars>>
-----------------------------------------------------------------------------
\* what a reader returns depends only on how far itself has read
Independent == LexDone => \A a, b \in 1..Len(hs) : hs[a] = hs[b] => NextKept(hs[a]) = NextKept(hs[b])
\* a reader never returns a kind which is switched off, nor goes back
OnlyKept == \A k \in 1..Len(ops) : ops[k][1] = "next" => Kept(ops[k][3])
Monotone == \A a, b \in 1..Len(ops) : (a < b /\ ops[a][1] = "next" /\ ops[b][1] = "next" /\ ops[a][2] = ops[b][2])
              => (ops[a][3] < ops[b][3] \/ ops[a][3] = Len(toks))
HEmit == (LexDone /\ Len(ops) = MaxOps) => PrintT(ToJson([x |-> text, t |-> toks, p |-> PosTable, q |-> PosTableDev, f |-> flags, o |-> ops]))
=============================================================================
