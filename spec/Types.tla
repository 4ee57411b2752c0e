-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* Classification of type names through their aliases (C20).  N names are  *)
(* declared, each by another name or by a type of its own; all graphs of   *)
(* aliases (forward, backward, in circles, to nowhere) are explored, with  *)
(* the declarations in one type section, in two, or partly in a unit.  The *)
(* machine follows all chains one link per step.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Mode, Count, Seed    \* Mode: "graphs" | "embedded" | "rnd": Count graphs with long chains

Reals == {"Real48","Real","Single","Double","Extended","Currency","Comp"}
Ords  == {"Integer","Cardinal","ShortInt","SmallInt","LongInt","Int64","Byte","Word","LongWord","Char","AnsiChar","WideChar","Boolean"}
Strs  == {"String","AnsiString","WideString"}
Ptrs  == {"Pointer","PChar","PAnsiChar","PWideChar"}
Vars  == {"Variant","OleVariant"}
Embedded == Reals \cup Ords \cup Strs \cup Ptrs \cup Vars
Enums == {"enum","enum1","enum=","enum1=","enum=2","enum=all","enum9"}       \* one, two or many elements, values at some of them
Subs == {"sub","sub1","subneg","subchr","subcst","subexp","subenum"}         \* bounds of all kinds
Others == {"set","setenum","setsub","file","array","dynarray","packed","rec","emptyrec","class","parent","classof","proc","func","method"}
Forms == Enums \cup Subs \cup Others \cup {"ptr","ptrrec","str["}

Names == 1..N
Name(k) == <<"name", k>>
Emb(x) == <<"emb", x>>
Form(x) == <<"form", x>>
Nowhere == <<"none", "">>
Targets == {Name(k) : k \in Names} \cup {Emb(x) : x \in {"Double","Integer","AnsiString","PChar","Variant"}}
           \cup {Form(x) : x \in {"enum","enum=","sub","set","file","ptr","rec"}} \cup {<<"undecl", "">>}

VARIABLES def,    \* what each name is declared by
          place,  \* <<"one", 0>>, <<"two", k>>, <<"unit", k>>: the first k names in the first section or in a unit
          at, steps
vars == <<def, place, at, steps>>

InFirst(j) == place[1] # "one" /\ j <= place[2]
\* a name of the first part cannot refer to one of the second part
Link(j) == IF def[j][1] = "name" /\ InFirst(j) /\ ~InFirst(def[j][2]) THEN Nowhere
           ELSE IF def[j][1] = "undecl" THEN Nowhere ELSE def[j]

\* pseudo-random graphs: mostly chains to a neighbour
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
H(i, j) == R(R(R(Seed * 7919 + i) + j * 37)) \div 11
Ends == << Emb("Double"), Emb("Integer"), Emb("AnsiString"), Emb("PChar"), Emb("Variant"), Form("enum"), Form("enum1"), Form("enum="), Form("enum=2"), Form("enum9"),
          Form("sub"), Form("subneg"), Form("subcst"), Form("subenum"), Form("set"), Form("setenum"), Form("file"), Form("ptr"), Form("ptrrec"), Form("rec"), Form("class"), Form("func"), <<"undecl", "">> >>
RTarget(i, j) == LET h == H(i, j) k == h \div 16 c == h % 16 IN
                 IF c <= 8 /\ j > 1 THEN Name(j - 1)
                 ELSE IF c = 9 /\ j < N THEN Name(j + 1)
                 ELSE IF c = 10 THEN Name((k % N) + 1)
                 ELSE Ends[(k % Len(Ends)) + 1]
RPlace(i) == LET h == H(i, 0) k == h \div 3 IN
             CASE h % 3 = 0 -> <<"one", 0>> [] h % 3 = 1 -> <<"two", (k % (N - 1)) + 1>> [] OTHER -> <<"unit", (k % N) + 1>>
Places == {<<"one", 0>>} \cup {<<"two", k>> : k \in 1..(N-1)} \cup {<<"unit", k>> : k \in 1..N}

Init == /\ \/ Mode = "graphs" /\ def \in [Names -> Targets] /\ place \in Places
           \/ Mode = "rnd" /\ \E i \in 1..Count : def = [j \in Names |-> RTarget(i, j)] /\ place = RPlace(i)
           \/ Mode = "embedded" /\ \E t \in {Emb(x) : x \in Embedded} \cup {Form(x) : x \in Forms} : def = [j \in Names |-> IF j = 1 THEN t ELSE Name(j - 1)] /\ place \in Places
        /\ at = [j \in Names |-> Name(j)] /\ steps = 0
Next == /\ steps < N + 1
        /\ steps' = steps + 1
        /\ at' = [j \in Names |-> IF at[j][1] = "name" THEN Link(at[j][2]) ELSE at[j]]
        /\ UNCHANGED <<def, place>>
TSpec == Init /\ [][Next]_vars
Done == steps = N + 1
-----------------------------------------------------------------------------
None == {}
ClassOf(t) ==
  CASE t[1] = "emb" /\ t[2] \in Reals -> {"simple", "real"}
    [] t[1] = "emb" /\ t[2] \in Ords  -> {"simple", "ordinal", "ordident"}
    [] t[1] = "emb" /\ t[2] \in Strs  -> {"string"}
    [] t[1] = "emb" /\ t[2] \in Ptrs  -> {"pointer"}
    [] t[1] = "emb" /\ t[2] \in Vars  -> {"variant"}
    [] t[1] = "form" /\ t[2] \in Enums \cup Subs -> {"simple", "ordinal"}
    [] t[1] = "form" /\ t[2] \in {"ptr", "ptrrec"} -> {"pointer"}
    [] t[1] = "form" /\ t[2] = "str[" -> {"string"}
    [] OTHER -> {}
\* a name which is still on the way after as many steps as there are names goes in a circle
OnCycle(j) == \E k \in Names : at[j] = Name(k)
RECURSIVE Chain(_, _)
Chain(j, n) == IF n = 0 THEN {} ELSE {j} \cup (IF Link(j)[1] = "name" THEN Chain(Link(j)[2], n - 1) ELSE {})
Circles == Done => \A j \in Names : OnCycle(j) = (\E k \in Chain(j, N + 1) : Link(k)[1] = "name" /\ k \in Chain(Link(k)[2], N))
\* an alias answers exactly as what it stands for
SameAsTarget == Done => \A j \in Names : Link(j)[1] = "name" => ClassOf(at[j]) = ClassOf(at[Link(j)[2]])
OneFamily == Done => \A j \in Names : Cardinality(ClassOf(at[j]) \cap {"real", "ordinal", "string", "pointer", "variant"}) <= 1
Emit == Done => PrintT(ToJson([d |-> def, p |-> place, c |-> [j \in Names |-> ClassOf(at[j])]]))
=============================================================================
