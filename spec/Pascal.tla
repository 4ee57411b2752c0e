-------------------------------- MODULE Pascal --------------------------------
(***************************************************************************)
(* The machine which derives programs with their units from the grammar    *)
(* together with the syntax tree and the declarations which every name     *)
(* refers to.  Its state is a stack of symbols of module Grammar, the      *)
(* scopes of the place it has reached, and the items it has written:       *)
(*   =tok        a token                                                   *)
(*   @mark       a mark of the syntax tree                                 *)
(*   .name       a name which refers to nothing (fields, labels)           *)
(*   !name~n~k   a name which is declared here, as declaration n of kind k *)
(*   #name~t     a name which refers to t: a declaration, "emb" (built-in  *)
(*               type), "none" (nothing) or ?k (known later)               *)
(*   >t          a reference without a name (forward class)                *)
(*   &k~t        ?k is t                                                   *)
(*   %file       from here on in this file                                 *)
(*   ^from, ^to  the part which is explored exhaustively                   *)
(*   $end        the end; $bad~why: the whole must be refused              *)
(***************************************************************************)
EXTENDS Grammar, TLC, Json, FiniteSets, SequencesExt

CONSTANTS Mode,     \* "rnd": Count programs with pseudo-random choices; "explore": all derivations of Start
          Start,    \* explore: what is derived exhaustively
          Fams,     \* explore: nonterminals of these families branch
          Count, Seed, MaxUnits, Grain,
          NPool,    \* how many names there are to choose from: few names are declared in many places
          FE, FS, FT, FC, FD,   \* budgets of the families
          Long,     \* rnd: each program has one nonterminal which goes on that many times more (0: none)
          Alone,    \* the name of a program without uses clause is known (see known_findings.json: it is not, in the code)
          Inject    \* "" or the kind of mistake which is put into the programs: "dup", "qual", "again"

VARIABLE s

\* (kept in a register because TLC would build it again at every use)
AllRules == GExpr @@ GStmt @@ GType @@ GClass @@ GDecl @@ GFile
ASSUME TLCSet(17, AllRules)
G == TLCGet(17)

AllNames == << "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "beginner", "End_", "nilly", "Strings", "trues", "count", "Item_2", "_x", "TList", "Result" >>
Names == SubSeq(AllNames, 1, NPool)
EmbOrd == << "Integer", "Byte", "Char", "Boolean", "Word", "Int64", "LongInt" >>
EmbOther == << "Real", "Double", "Pointer", "Variant", "AnsiString", "PChar", "Currency" >>
Never == << "zz", "Undeclared" >>
Pool == Names \o EmbOrd \o EmbOther \o Never
UnitNames == << "Alpha", "Beta", "Gamma", "Delta", "Mu", "Zeta", "Eta", "Kappa" >>
Other == "SysUtils"     \* a unit which is used but not loaded
Prog == "Main"
FldPool == << "a", "b", "c", "x", "Count", "Alpha", "Integer", "zz" >>
MemPool == << "a", "b", "c", "d", "e", "f", "FItem", "GetItem", "SetItem", "x1", "x2", "x3" >>

Entry(t, k) == << t, k >>
None == Entry("none", "none")
EmbFlat == [x \in ToSet(EmbOrd) |-> Entry("emb", "embo")] @@ [x \in ToSet(EmbOther) |-> Entry("emb", "emb")]
Empty == [x \in {} |-> None]

TypeKinds == {"type", "otype", "fwd", "emb", "embo"}
Kinds == [val |-> {"const", "var", "func", "param", "exc", "enum", "none"},
          call |-> {"var", "func", "param", "exc", "none"},
          lhs |-> {"var", "func", "param", "exc", "none"},
          type |-> TypeKinds,
          ttype |-> TypeKinds \cup {"none"},
          ord |-> {"otype", "embo"},
          cst |-> {"const", "enum", "none"},
          label |-> {"label"}]

\* ------------------------------------------------------------- pseudo-random
R(k) == ((k % 1000003) * 2011 + 12345) % 1000003
Nx(q) == [q EXCEPT !.rng = R(@)]
Pk(q, m) == ((q.rng \div 7) % m) + 1
Of(q, sq) == sq[Pk(q, Len(sq))]

\* The(S) of a set with one element; {f(v) : v \in {e}} makes TLC evaluate e once and for all
The(S) == CHOOSE z \in S : TRUE

\* --------------------------------------------------------------------- scopes
Top(q) == q.sc[Len(q.sc)]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE None
Look(q, x) == At(Top(q).flat, x)
OpenNames(q) == UNION {{q.ids[g][i][1] : i \in 1..Len(q.ids[g])} : g \in 1..Len(q.ids)}

\* names which may be written for a reference of kinds ks here
Cand(q, ks) == The({SelectSeq(Pool, LAMBDA x : At(v[1], x)[2] \in ks /\ x \notin v[2]) : v \in {<< Top(q).flat, OpenNames(q) >>}})
\* ... where those which are declared, those declared near by, and those of the scope closed last come up more often
Better(q, ks) ==
  LET in(all, dom) == SelectSeq(all, LAMBDA x : x \in dom)
      pick(all, d, n, g, c) == IF n # <<>> /\ c <= 3 THEN n ELSE IF g # <<>> /\ c <= 5 THEN g ELSE IF d # <<>> /\ c <= 8 THEN d ELSE all
  IN  The({pick(v[1], v[2], v[3], v[4], Pk(Nx(q), 9)) :
             v \in {<< z, in(z, DOMAIN Top(q).flat), in(z, DOMAIN Top(q).own), in(z, q.gone) >> : z \in {Cand(q, ks)}}})
OwnDecls(q) == q.sc[1].own @@ q.intf
Exports(q, u) == IF u = q.me THEN [x \in (DOMAIN OwnDecls(q)) \ OpenNames(q) |-> OwnDecls(q)[x]] ELSE q.exp[u]
Spaces(q) == SelectSeq(UnitNames \o << Prog >>, LAMBDA u : Look(q, u)[2] = "ns" /\ u \notin OpenNames(q))
QualCand(q, ks) == UNION {{<< u, x >> : x \in {y \in DOMAIN Exports(q, u) : Exports(q, u)[y][2] \in ks}} : u \in ToSet(Spaces(q))}

Emits(q, items) == [q EXCEPT !.out = @ \o items]
Num(n) == ToString(n)
Bind(sc, l, x, e) == [sc EXCEPT ![l].own = (x :> e) @@ @, ![l].flat = (x :> e) @@ @]

\* ------------------------------------------------------------------ references
RefAt(q, kind) ==
  LET ks == Kinds[kind]
      qc == IF Pk(q, 4) = 1 THEN SetToSeq(QualCand(q, ks)) ELSE <<>>
      un == Better(q, ks)
  IN IF Inject = "qual" /\ q.bad = "" /\ q.spent > q.wait /\ Spaces(q) # <<>> /\ kind # "type"
     THEN LET u == Of(Nx(q), Spaces(q)) IN
          [Emits(q, << "@ns", "#" \o u \o "~" \o Look(q, u)[1], "=.", "#zz~none" >>) EXCEPT !.bad = u \o " does not declare zz", !.rng = R(R(@))]
     ELSE IF qc # <<>>
     THEN LET p == Of(Nx(q), qc) IN
          Nx(Nx(Emits(q, << "@ns", "#" \o p[1] \o "~" \o Look(q, p[1])[1], "=.", "#" \o p[2] \o "~" \o Exports(q, p[1])[p[2]][1] >>)))
     ELSE LET x == Of(Nx(Nx(q)), un) IN Nx(Nx(Emits(q, << "#" \o x \o "~" \o Look(q, x)[1] >>)))

Ref(q, kind) == The({RefAt(v, kind) : v \in {Nx(q)}})
URefAt(q, kind) == LET x == Of(Nx(q), Better(q, Kinds[kind])) IN Nx(Emits(q, << "#" \o x \o "~" \o Look(q, x)[1] >>))
URef(q, kind) == The({URefAt(v, kind) : v \in {Nx(q)}})

\* the type of a cast
CRefAt(q, kind) ==
  LET qc == IF Pk(q, 4) = 1 THEN SetToSeq(QualCand(q, Kinds[kind])) ELSE <<>>
  IN IF qc # <<>>
     THEN LET p == Of(Nx(q), qc) IN Nx(Nx(Emits(q, << "@ns", "." \o p[1], "=.", "#" \o p[2] \o "~" \o Exports(q, p[1])[p[2]][1] >>)))
     ELSE URefAt(q, kind)
CRef(q, kind) == The({CRefAt(v, kind) : v \in {Nx(q)}})

LK(k) == IF k \in {"otype", "embo"} THEN "otype" ELSE "type"
TRefAt(q, kind) ==
  LET ks == IF kind = "ord" THEN Kinds["ord"] ELSE IF kind = "known" THEN Kinds["type"] ELSE Kinds["ttype"]
      qc == IF Pk(q, 5) = 1 THEN SetToSeq(QualCand(q, ks)) ELSE <<>>
  IN IF kind # "ord" /\ Pk(q, 50) = 2 /\ Look(q, Other)[2] = "nsx"
     THEN [Emits(q, << "@ns", "." \o Other, "=.", "#TList~none" >>) EXCEPT !.lk = "type"]
     ELSE IF qc # <<>>
     THEN LET p == Of(Nx(q), qc) e == Exports(q, p[1])[p[2]] IN
          [Emits(q, << "@ns", "." \o p[1], "=.", "#" \o p[2] \o "~" \o e[1] >>) EXCEPT !.lk = LK(e[2]), !.rng = R(R(@))]
     ELSE LET un == Better(q, ks)
              x == Of(Nx(Nx(q)), un)
              e == Look(q, x)
              q2 == [q EXCEPT !.rng = R(R(@)), !.lk = LK(e[2])]
          IN IF e[2] = "none" /\ q.tlev > 0
             THEN [Emits(q2, << "#" \o x \o "~?" \o Num(q.n) >>) EXCEPT !.n = @ + 1, !.pend = Append(@, << q.n, x >>)]
             ELSE [Emits(q2, << "#" \o x \o "~" \o e[1] >>) EXCEPT
                     !.used = IF q.tlev > 0 /\ x \notin DOMAIN q.sc[q.tlev].own THEN @ \cup {x} ELSE @]

TRef(q, kind) == The({TRefAt(v, kind) : v \in {Nx(q)}})

\* ---------------------------------------------------------------- declarations
\* the names which a declaration of the kind may take here
FreeNames(q, kind) ==
  LET own == IF kind = "exc" THEN {} ELSE DOMAIN Top(q).own
      pend == {q.pend[i][2] : i \in 1..Len(q.pend)}
      pool == IF Pk(q, 9) = 1 THEN Tail(EmbOrd) \o EmbOther   \* (one ordinal type is left in any case)
              ELSE IF Pk(q, 9) = 2 /\ Len(q.sc) > 1 THEN UnitNames \o << Prog >>
              ELSE Names
      taken == OpenNames(q) \cup own \cup (IF kind = "type" THEN q.used ELSE pend)
  IN The({SelectSeq(pool, LAMBDA x : x \notin t) : t \in {taken}})
DupNames(q, kind) ==
  LET own == Top(q).own
      g == q.ids[Len(q.ids)]
  IN {x \in DOMAIN own : /\ (kind = "func" => own[x][2] # "func") /\ (kind = "type" => own[x][2] # "fwd")}
     \cup {g[i][1] : i \in 1..Len(g)}

AddId(q, x, kind) == [Emits(q, << "!" \o x \o "~" \o Num(q.n) \o "~" \o kind >>) EXCEPT
                        !.n = @ + 1, !.ids[Len(q.ids)] = Append(@, << x, q.n >>)]
Drop(k, i) == SubSeq(k, i + 1, Len(k))
NoFuel == [e |-> 0, s |-> 0, t |-> 0, c |-> 0, d |-> 0]
IdAt(q, kind) ==
  LET free == FreeNames(q, kind)
      dup == IF Mode = "rnd" /\ Inject = "dup" /\ q.bad = "" /\ kind # "exc" /\ q.spent > q.wait THEN SetToSeq(DupNames(q, kind)) ELSE <<>>
      x == IF dup # <<>> THEN Of(Nx(q), dup) ELSE IF free = <<>> THEN "n" \o Num(q.n) ELSE Of(Nx(q), free)
  IN [Nx(AddId(q, x, kind)) EXCEPT !.bad = IF dup # <<>> THEN x \o " is declared twice" ELSE @,
                                   !.fuel = IF dup # <<>> THEN NoFuel ELSE @]

Id(q, kind) == The({IdAt(v, kind) : v \in {Nx(q)}})
\* explored exhaustively: a name which is free, and every name which is taken (the mistake)
IdWays(q, kind) == {Id(q, kind)} \cup {[AddId(q, x, kind) EXCEPT !.bad = x \o " is declared twice", !.fuel = NoFuel] : x \in DupNames(q, kind)}

RECURSIVE BindAll(_, _, _, _, _)
BindAll(sc, l, g, i, kind) == IF i > Len(g) THEN sc ELSE BindAll(Bind(sc, l, g[i][1], Entry(Num(g[i][2]), kind)), l, g, i + 1, kind)

LastGroup(q) == q.ids[Len(q.ids)]
PopGroup(q) == [q EXCEPT !.ids = SubSeq(@, 1, Len(@) - 1), !.last = LastGroup(q)[1][1]]
Declare(q, k) == [PopGroup(q) EXCEPT !.sc = BindAll(@, Len(@), LastGroup(q), 1, IF k = "lk" THEN q.lk ELSE k)]

Push(q) == [q EXCEPT !.sc = Append(@, [own |-> Empty, flat |-> Top(q).flat])]
Pop(q) == [q EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1), !.gone = IF Top(q).own = Empty THEN @ ELSE DOMAIN Top(q).own]

\* the heading of a routine is complete: its name belongs to the scope around it
DeclFunc(q) ==
  LET l == Len(q.sc) - 1
      x == LastGroup(q)[1][1]
      new == x \notin DOMAIN q.sc[l].own
      sc2 == IF new THEN Bind(q.sc, l, x, Entry(Num(LastGroup(q)[1][2]), "func")) ELSE q.sc
  IN [PopGroup(q) EXCEPT !.sc = [sc2 EXCEPT ![l + 1].flat = sc2[l + 1].own @@ sc2[l].flat]]

RECURSIVE Patches(_, _)
Patches(q, i) == IF i > Len(q.pend) THEN <<>>
                 ELSE << "&" \o Num(q.pend[i][1]) \o "~" \o Look(q, q.pend[i][2])[1] >> \o Patches(q, i + 1)

FwTop(q) == q.fw[Len(q.fw)]
FwPop(q) == [q EXCEPT !.fw = SubSeq(@, 1, Len(@) - 1)]

\* ----------------------------------------------------------------------- files
RECURSIVE Layer(_, _, _)
Layer(q, us, base) == IF us = <<>> THEN base ELSE Layer(q, Tail(us), (IF Head(us) = Other THEN Empty ELSE q.exp[Head(us)]) @@ base)

RECURSIVE UsesItems(_, _, _)
UsesItems(us, n, paths) ==
  IF us = <<>> THEN <<>>
  ELSE << "@(u", "!" \o Head(us) \o "~" \o Num(n) \o "~uses" >>
       \o (IF paths /\ Head(us) # Other THEN << "=in", "=$" \o Head(us), "@path:$" \o Head(us) >> ELSE <<>>)
       \o << "@)" >> \o (IF Len(us) > 1 THEN << "=," >> ELSE <<>>) \o UsesItems(Tail(us), n + 1, paths)
UsesText(us, n, paths) == IF us = <<>> THEN <<>> ELSE << "=uses", "@(uses" >> \o UsesItems(us, n, paths) \o << "=;", "@)" >>
Spaced(us, n) == [x \in ToSet(us) |-> LET i == CHOOSE j \in 1..Len(us) : us[j] = x IN Entry(Num(n + i - 1), IF x = Other THEN "nsx" ELSE "ns")]

\* us in a pseudo-random order
Shuffled(q, us) == LET key(i) == << (R(R(q.rng + i * 104729)) \div 13) % 1000, i >>
                       before(i, j) == key(i)[1] < key(j)[1] \/ (key(i)[1] = key(j)[1] /\ i < j)
                       ix == SetToSortSeq(1..Len(us), before)
                   IN [k \in 1..Len(us) |-> us[ix[k]]]
\* a selection of us in some order, perhaps with a unit which is not loaded
Select(q, us) ==
  LET bit(i) == (R(R(q.rng + i * 7919)) \div 11) % 2 = 0
      some == SelectSeq([i \in 1..Len(us) |-> IF bit(i) THEN us[i] ELSE ""], LAMBDA x : x # "")
      ord == CASE Pk(q, 4) = 1 -> some [] Pk(q, 4) = 2 -> Reverse(some) [] OTHER -> Shuffled(q, some)
  IN IF Pk(q, 5) = 1 THEN << Other >> \o ord ELSE IF Pk(q, 5) = 2 THEN Append(ord, Other) ELSE ord
\* the same with one unit twice
Twice(q, us) == IF Inject = "dup" /\ q.bad = "" /\ us # <<>> /\ Pk(q, 7) = 3 THEN Append(us, us[1]) ELSE us
Blame(us) == IF Len(us) # Cardinality(ToSet(us)) THEN "a unit is used twice" ELSE ""

UnitHeadAt(q, i) ==
  LET u == UnitNames[i]
      us == Twice(q, Select(q, SubSeq(UnitNames, 1, i - 1)))
      port == IF Pk(Nx(q), 6) = 1 THEN << "=platform", "@port:PLATFORM" >> ELSE <<>>
      base == Layer(q, us, Spaced(us, q.n + 1) @@ EmbFlat)
      own == u :> Entry(Num(q.n), "ns")
  IN [Emits(q, << "%" \o u, "@(unit", "=unit", "!" \o u \o "~" \o Num(q.n) \o "~unit" >> \o port \o << "=;", "=interface" >>
               \o UsesText(us, q.n + 1, FALSE) \o << "@intf" >>) EXCEPT
        !.n = @ + 1 + Len(us), !.me = u, !.base = base, !.myns = own, !.uses = ToSet(us), !.intf = Empty, !.rng = R(@),
        !.bad = IF @ = "" THEN Blame(us) ELSE @, !.where = u \o " interface",
        !.sc = << [own |-> Empty, flat |-> own @@ base] >>]

IntfEnd(q) == [q EXCEPT !.exp = (q.me :> q.sc[1].own) @@ @,
                        !.saved = (q.me :> [base |-> q.base, own |-> q.sc[1].own, ns |-> q.myns, uses |-> q.uses]) @@ @]

ImplHeadAt(q, i, total) ==
  LET u == UnitNames[i]
      sv == q.saved[u]
      us0 == Select(q, SelectSeq(SubSeq(UnitNames, 1, total), LAMBDA x : x # u /\ x \notin sv.uses))
      us == Twice(q, SelectSeq(us0, LAMBDA x : x \notin sv.uses))
      flat == Spaced(us, q.n) @@ sv.own @@ sv.ns @@ Layer(q, us, sv.base)
  IN [Emits(q, << "%" \o u, "=implementation" >> \o UsesText(us, q.n, FALSE) \o << "@impl" >>) EXCEPT
        !.n = @ + Len(us), !.me = u, !.intf = sv.own, !.rng = R(@), !.bad = IF @ = "" THEN Blame(us) ELSE @, !.where = u \o " implementation",
        !.sc = << [own |-> Empty, flat |-> flat] >>]

ProgHeadAt(q, total) ==
  LET all == SubSeq(UnitNames, 1, total)
      ord == CASE Pk(q, 4) = 1 -> all [] Pk(q, 4) = 2 -> Reverse(all) [] OTHER -> Shuffled(q, all)
      us == IF total = 0 THEN <<>> ELSE Twice(q, IF Pk(Nx(q), 3) = 1 THEN << Other >> \o ord ELSE ord)
      own == IF total = 0 /\ ~Alone THEN Empty ELSE Prog :> Entry(Num(q.n), "ns")
      flat == own @@ Spaced(us, q.n + 1) @@ Layer(q, us, EmbFlat)
  IN [Emits(q, << "%" \o Prog, "@(program", "=program", "!" \o Prog \o "~" \o Num(q.n) \o "~prog", "=;" >>
               \o UsesText(us, q.n + 1, TRUE)) EXCEPT
        !.n = @ + 1 + Len(us), !.me = IF total = 0 /\ ~Alone THEN "" ELSE Prog, !.intf = Empty, !.rng = R(@), !.bad = IF @ = "" THEN Blame(us) ELSE @,
        !.where = "program", !.sc = << [own |-> Empty, flat |-> flat] >>]

UnitHead(q, i) == The({UnitHeadAt(v, i) : v \in {Nx(Nx(q))}})
ImplHead(q, i, total) == The({ImplHeadAt(v, i, total) : v \in {Nx(Nx(q))}})
ProgHead(q, total) == The({ProgHeadAt(v, total) : v \in {Nx(Nx(q))}})

\* --------------------------------------------------------------------- actions
Ops == [rel |-> << << "=", "=" >>, << "<>", "<>" >>, << "<", "<" >>, << ">", ">" >>, << "<=", "<=" >>, << ">=", ">=" >>, << "in", "IN" >>, << "is", "IS" >> >>,
        sign |-> << << "+", "+" >>, << "-", "-" >> >>,
        add |-> << << "+", "+" >>, << "-", "-" >>, << "or", "OR" >>, << "xor", "XOR" >> >>,
        mul |-> << << "*", "*" >>, << "/", "/" >>, << "div", "DIV" >>, << "mod", "MOD" >>, << "and", "AND" >>, << "shl", "SHL" >>, << "shr", "SHR" >>, << "as", "AS" >> >>]
Nums == << "0", "1", "42", "3.14", "-1", "-7", "100", "2.50", "007", "65535", "0.0", "-2.75", "12345678901234567890" >>
Strs == << "''", "'a'", "'end'", "'{'", "' // '", "'(*'", "'A b'", "'x; y'", "'-1'", "'true'", "'*)'", "'}'" >>
Asms == << "mov", "eax", ",", "1", ";", "[", "ebx", "]", "+", "jmp", "begin", "'x'", ":" >>
Vis == << "private", "protected", "public", "published" >>
MDirs == << << "virtual", "VIRTUAL" >>, << "override", "OVERRIDE" >>, << "abstract", "ABSTRACT" >>, << "overload", "OVERLOAD" >>, << "reintroduce", "REINTRODUCE" >> >>
FDirs == << << "stdcall", "STDCALL" >>, << "cdecl", "CDECL" >>, << "register", "REGISTER" >>, << "pascal", "PASCAL" >>, << "safecall", "SAFECALL" >>,
            << "overload", "OVERLOAD" >>, << "far", "FAR" >>, << "near", "NEAR" >>, << "export", "EXPORT" >>, << "local", "LOCAL" >>, << "varargs", "VARARGS" >>,
            << "dynamic", "DYNAMIC" >>, << "abstract", "ABSTRACT" >>, << "override", "OVERRIDE" >>, << "reintroduce", "REINTRODUCE" >>, << "message", "MESSAGE" >> >>
Ports == << << "platform", "PLATFORM" >>, << "deprecated", "DEPRECATED" >>, << "library", "LIBRARY" >> >>

Full(f) == CASE f = "e" -> FE [] f = "s" -> FS [] f = "t" -> FT [] f = "c" -> FC [] f = "d" -> FD
Dir(q0, pre, sq) == LET q == Nx(q0) p == Of(q, sq) IN Emits(q, << "=" \o p[1], "@" \o pre \o p[2] >>)

\* every way of writing an operator, a literal or a directive (explored exhaustively when "o" is in Fams)
Ways(q, a, b) ==
  CASE a = "op" -> {Emits(q, << "=" \o p[1], (IF b = "sign" THEN "@sign:" ELSE "@op:") \o p[2] >>) : p \in ToSet(Ops[b])}
    [] a = "num" -> {Emits(q, << "=" \o x, "@n:" \o x >>) : x \in ToSet(Nums)}
    [] a = "str" -> {Emits(q, << "=" \o x, "@str:" \o x >>) : x \in ToSet(Strs)}
    [] a = "bool" -> {Emits(q, << "=true", "@v:TRUE" >>), Emits(q, << "=false", "@v:FALSE" >>)}
    [] a = "port" -> {Emits(q, << "=" \o p[1], "@port:" \o p[2] >>) : p \in ToSet(Ports)}
    [] a = "mdir" -> {Emits(q, << "=" \o p[1], "@d:" \o p[2] >>) : p \in ToSet(MDirs)}
    [] a = "fdir" -> {Emits(q, << "=" \o p[1], "@d:" \o p[2] >>) : p \in ToSet(FDirs)}
    [] a = "vis" -> {Emits(q, << "=" \o v, "@v:" \o v >>) : v \in ToSet(Vis)}
Varied == {"op", "num", "str", "bool", "port", "mdir", "fdir", "vis"}

\* the mistake "again": the class x, which has been declared in full after its forward declaration, is declared once more
\* (three symbols are left of its declaration: portability, end of the mark, semicolon)
FwAgain(q, x) ==
  IF Inject # "again" \/ q.bad # "" \/ q.spent <= q.wait THEN q
  ELSE [q EXCEPT !.bad = x \o " is declared in full twice", !.fuel = NoFuel,
                 !.stk = SubSeq(@, 1, 3) \o << M("(ty"), X("word", x), T("=") >>
                         \o << << N("class") >>, << N("class") >>, << T("class") >>, << N("type") >> >>[Pk(q, 4)] \o << C, T(";") >> \o Drop(@, 3)]

Do(q, a, b) ==
  CASE a = "fuel" -> [q EXCEPT !.fuel[b] = IF q.bad # "" THEN 0 ELSE IF Mode = "explore" /\ ~q.xp THEN 3 ELSE Full(b)]
    [] a = "op" -> LET r == Nx(q) p == Of(r, Ops[b]) IN Emits(r, << "=" \o p[1], (IF b = "sign" THEN "@sign:" ELSE "@op:") \o p[2] >>)
    [] a = "num" -> LET r == Nx(q) x == Of(r, Nums) IN Emits(r, << "=" \o x, "@n:" \o x >>)
    [] a = "str" -> LET r == Nx(q) x == Of(r, Strs) IN Emits(r, << "=" \o x, "@str:" \o x >>)
    [] a = "bool" -> LET r == Nx(q) IN Emits(r, IF Pk(r, 2) = 1 THEN << "=true", "@v:TRUE" >> ELSE << "=false", "@v:FALSE" >>)
    [] a = "ref" -> Ref(q, b)
    [] a = "uref" -> URef(q, b)
    [] a = "cref" -> CRef(q, b)
    [] a = "tref" -> TRef(q, b)
    [] a = "strkw" -> [Emits(q, << "#string~emb" >>) EXCEPT !.lk = "type"]
    [] a = "fld" -> LET r == Nx(q) IN Emits(r, << "." \o Of(r, FldPool) >>)
    [] a = "word" -> Emits(q, << "." \o b >>)
    [] a = "lab" -> LET r == Nx(q) IN Emits(r, << "." \o Of(r, Cand(r, {"label"})) >>)
    [] a = "asm" -> LET r == Nx(q) IN Emits(r, << "=" \o Of(r, Asms) >>)
    [] a = "open" -> [q EXCEPT !.ids = Append(@, <<>>)]
    [] a = "id" -> Id(q, b)
    [] a = "declare" -> Declare(q, b)
    [] a = "push" -> Push(q)
    [] a = "pop" -> Pop(q)
    [] a = "lk" -> [q EXCEPT !.lk = b]
    [] a = "tsec" -> [q EXCEPT !.tlev = Len(q.sc), !.used = {}, !.pend = <<>>]
    [] a = "tsecend" -> [Emits(q, Patches(q, 1)) EXCEPT !.tlev = 0, !.used = {}, !.pend = <<>>]
    [] a = "fwdref" -> [Emits(q, << "@fwd", ">?" \o Num(q.n) >>) EXCEPT !.n = @ + 1, !.lastk = q.n]
    [] a = "fwpush" -> [q EXCEPT !.fw = Append(@, << q.last, q.lastk, 0 >>)]
    [] a = "fwid" -> [Emits(q, << "!" \o FwTop(q)[1] \o "~" \o Num(q.n) \o "~type" >>) EXCEPT !.n = @ + 1, !.fw[Len(q.fw)][3] = q.n]
    [] a = "fwdeclare" -> FwAgain([FwPop(Emits(q, << "&" \o Num(FwTop(q)[2]) \o "~" \o Num(FwTop(q)[3]) >>)) EXCEPT
                             !.sc = Bind(@, Len(@), FwTop(q)[1], Entry(Num(FwTop(q)[3]), "type"))], FwTop(q)[1])
    [] a = "againid" -> FwPop(AddId(q, FwTop(q)[1], "func"))
    [] a = "fdone" -> DeclFunc(q)
    [] a = "ehdone" -> Pop(DeclFunc(q))
    [] a = "port" -> Dir(q, "port:", Ports)
    [] a = "vis" -> LET r == Nx(q) v == Of(r, Vis) IN Emits(r, << "=" \o v, "@v:" \o v >>)
    [] a = "cls" -> [q EXCEPT !.mem = <<>>]
    [] a = "clsend" -> [q EXCEPT !.mem = <<>>, !.lk = "type"]
    [] a = "mid" -> LET r == Nx(q)
                        free == SelectSeq(MemPool, LAMBDA x : \A i \in 1..Len(q.mem) : q.mem[i][1] # x)
                        x == IF b = "prop" \/ free = <<>> THEN "p" \o Num(q.n) ELSE Of(r, free)
                    IN [Emits(r, << "!" \o x \o "~" \o Num(q.n) \o "~" \o b >>) EXCEPT !.n = @ + 1,
                          !.mem = IF b = "prop" THEN @ ELSE Append(@, << x, q.n >>)]
    [] a = "mref" -> LET r == Nx(q) m == Of(r, q.mem) IN Emits(r, << "#" \o m[1] \o "~" \o Num(m[2]) >>)
    [] a = "mdir" -> Dir(q, "d:", MDirs)
    [] a = "fdir" -> Dir(q, "d:", FDirs)
    [] a = "uhead" -> UnitHead(q, b)
    [] a = "intfend" -> IntfEnd(q)
    [] a = "mhead" -> ImplHead(q, b, q.total)
    [] a = "phead" -> ProgHead(q, q.total)
    [] a = "expl" -> [Emits(q, << "^from" >>) EXCEPT !.xp = TRUE]
    [] a = "noexpl" -> [Emits(q, << "^to" >>) EXCEPT !.xp = FALSE]
    [] a = "end" -> Emits(q, IF q.bad = "" THEN << "$end" >> ELSE << "$bad~" \o q.bad \o " (" \o q.where \o ")" >>)

Holds(q, a, b) == CASE a = "uref" -> Cand(q, Kinds[b]) # <<>>
                    [] a = "mem" -> q.mem # <<>>

\* ----------------------------------------------------------------------- steps
RECURSIVE Lead(_, _)
Lead(k, i) == IF i > Len(k) \/ k[i][1] \notin {"t", "m"} THEN i - 1 ELSE Lead(k, i + 1)
Rest(q) == [q EXCEPT !.stk = Tail(@)]
NoGuard(p) == IF p # <<>> /\ p[1][1] = "?" THEN Tail(p) ELSE p
\* tokens, marks and nonterminals with one alternative take no step of their own
RECURSIVE Norm(_)
Norm(q) ==
  The({LET l == Lead(v.stk, 1) IN
       IF l > 0
       THEN Norm([v EXCEPT !.stk = Drop(@, l), !.out = @ \o [i \in 1..l |-> (IF v.stk[i][1] = "t" THEN "=" ELSE "@") \o v.stk[i][2]]])
       ELSE IF v.stk # <<>> /\ v.stk[1][1] = "n" /\ Len(G[v.stk[1][2]].a) = 1
       THEN Norm([v EXCEPT !.stk = G[v.stk[1][2]].a[1] \o Tail(@)])
       ELSE v : v \in {q}})

GoesOn(q, nt) == q.lng > 0 /\ nt = q.bias
Usable(q, nt) == LET p == G[nt] IN
                 {i \in 1..Len(p.a) : /\ (p.f = "-" \/ q.fuel[p.f] > 0 \/ GoesOn(q, nt) \/ i <= p.s)
                                      /\ (p.a[i] = <<>> \/ p.a[i][1][1] # "?" \/ Holds(q, p.a[i][1][2], p.a[i][1][3]))}
Expand(q, nt, i) ==
  LET p == G[nt] IN
  [q EXCEPT !.stk = NoGuard(p.a[i]) \o Tail(@), !.rng = R(@ + i * 31), !.spent = @ + 1,
            !.lng = IF GoesOn(q, nt) THEN @ - 1 ELSE @,
            !.fuel = IF ~GoesOn(q, nt) /\ p.f # "-" /\ @[p.f] > 0 THEN [@ EXCEPT ![p.f] = @ - 1] ELSE @]
\* the nonterminals from which each nonterminal can be reached
RECURSIVE Closure(_, _)
Uses1(p) == {p.a[j][i][2] : <<j, i>> \in {<<j, i>> \in (1..Len(p.a)) \X (1..30) : i <= Len(p.a[j]) /\ p.a[j][i][1] = "n"}}
Closure(uses, S) == LET S2 == S \cup {x \in DOMAIN uses : uses[x] \cap S # {}} IN IF S2 = S THEN S ELSE Closure(uses, S2)
ASSUME TLCSet(23, IF Long > 0 THEN LET g == AllRules IN The({[x \in DOMAIN g |-> Closure(u, {x})] : u \in {[x \in DOMAIN g |-> Uses1(g[x])]}}) ELSE <<>>)
\* the alternatives by which nt goes on, those which lead to nt again first
Onward(nt, us) == LET p == G[nt]
                      to(x) == {j \in us : \E i \in 1..Len(p.a[j]) : p.a[j][i][1] = "n" /\ p.a[j][i][2] \in x}
                      again == to({nt})
                      later == to(TLCGet(23)[nt])
                  IN IF again # {} THEN again ELSE IF later # {} THEN later ELSE us
\* the alternatives which lead to the nonterminal which is to go on (in every second program only until it comes up: it is wide and not deep)
Toward(q, nt, us) == LET p == G[nt]
                         to == {j \in us : \E i \in 1..Len(p.a[j]) : p.a[j][i][1] = "n" /\ p.a[j][i][2] \in TLCGet(23)[q.bias]}
                     IN IF q.lng = 0 \/ (q.lng < Long /\ q.id % 2 = 0) \/ Pk(q, 6) = 1 \/ to = {} THEN us ELSE to
Flush(q) == IF Mode = "rnd" /\ Len(q.out) >= 80 THEN [q EXCEPT !.out = <<>>, !.np = @ + 1] ELSE q
Succ(q) ==
  LET h == Head(q.stk) IN
  IF h[1] = "n"
  THEN LET p == G[h[2]]
           us == Usable(q, h[2])
       IN IF q.xp /\ p.f \in Fams
          THEN {Norm(Expand(q, h[2], i)) : i \in {j \in us : \A l \in us : (l < j => p.a[l] # p.a[j])}}
          ELSE LET sq == SetToSortSeq(IF GoesOn(q, h[2]) THEN Onward(h[2], us) ELSE Toward(q, h[2], us), <) IN {Norm(Expand(v, h[2], Of(v, sq))) : v \in {Nx(q)}}
  ELSE IF q.xp /\ Inject = "dup" /\ h[2] = "id" /\ h[3] # "exc" /\ q.bad = ""
  THEN {Norm(v) : v \in IdWays(Rest(q), h[3])}
  ELSE IF q.xp /\ "o" \in Fams /\ h[2] \in Varied
  THEN {Norm(v) : v \in Ways(Rest(q), h[2], h[3])}
  ELSE {Norm(Do(v, h[2], h[3])) : v \in {Rest(q)}}
\* where nothing branches a step of the model is up to Grain steps of the machine
RECURSIVE Go(_, _)
Go(q, k) == IF k = 0 \/ q.stk = <<>> \/ Len(q.out) >= 80 THEN q ELSE The({Go(v, k - 1) : v \in Succ(q)})
Steps(q) == IF Mode = "rnd" THEN {Go(q, Grain)} ELSE Succ(q)

\* ----------------------------------------------------------------- the programs
RECURSIVE Cat(_)
Cat(sq) == IF sq = <<>> THEN <<>> ELSE Head(sq) \o Cat(Tail(sq))
Plan(k) == Cat([i \in 1..k |-> << X("uhead", i), N("unitI") >>]) \o Cat([i \in 1..k |-> << X("mhead", i), N("unitM") >>])
           \o << X("phead", 0), N("progB"), X("end", 0) >>

Decls == << M("(blk"), X("fuel", "d"), N("types"), X("fuel", "d"), N("consts"), X("fuel", "d"), N("vars"), X("fuel", "d"), N("labels"), X("fuel", "d"), N("fd") >>
Around(pre, sym, post) == << X("phead", 0) >> \o Decls \o pre \o << X("expl", 0), X("fuel", "e"), X("fuel", "s"), X("fuel", "t"), X("fuel", "c"), X("fuel", "d") >>
                          \o sym \o << X("noexpl", 0) >> \o post \o << X("end", 0) >>
BeginEnd(sym) == Around(<< M("(begin"), T("begin") >>, sym, << T("end"), C, C, T("."), C >>)
DeclEnd(sym) == Around(<<>>, sym, << M("(begin"), T("begin"), T("end"), C, C, T("."), C >>)
Starts == [expr  |-> BeginEnd(<< M("(st"), M("(:="), M("(d"), X("ref", "lhs"), C, T(":="), N("expr"), C, C >>),
           stmt  |-> BeginEnd(<< N("stmt") >>),
           stmts |-> BeginEnd(<< N("stmts") >>),
           type  |-> DeclEnd(<< M("(types"), T("type"), X("tsec", ""), M("(ty"), X("open", ""), X("id", "type"), T("="), N("type"), X("declare", "lk"), N("port"), C, T(";"), X("tsecend", ""), C >>),
           var   |-> DeclEnd(<< N("vars") >>),
           types |-> DeclEnd(<< N("types") >>),
           consts |-> DeclEnd(<< N("consts") >>),
           class |-> DeclEnd(<< M("(types"), T("type"), X("tsec", ""), M("(ty"), X("open", ""), X("id", "type"), T("="), N("class"), X("declare", "type"), C, T(";"), X("tsecend", ""), C >>),
           fd    |-> DeclEnd(<< N("fds") >>),
           secs  |-> DeclEnd(<< N("secs") >>),
           exports |-> DeclEnd(<< N("exports") >>)]

Biased == TLCGet(19)
ASSUME TLCSet(19, LET g == AllRules again(x) == \E j \in 1..Len(g[x].a) : \E i \in 1..Len(g[x].a[j]) : g[x].a[j][i][1] = "n" /\ g[x].a[j][i][2] \in TLCGet(23)[x]
                  IN IF Long > 0 THEN SetToSeq({x \in DOMAIN g : g[x].f # "-" /\ g[x].s < Len(g[x].a) /\ again(x)}) ELSE <<>>)
Fresh(id, rng, stk, total) ==
  [id |-> id, np |-> 0, rng |-> rng, stk |-> stk, out |-> <<>>, fuel |-> NoFuel, sc |-> << [own |-> Empty, flat |-> Empty] >>, ids |-> <<>>, n |-> 1,
   lk |-> "type", tlev |-> 0, used |-> {}, pend |-> <<>>, fw |-> <<>>, last |-> "", lastk |-> 0, mem |-> <<>>, me |-> "", base |-> Empty, myns |-> Empty,
   uses |-> {}, intf |-> Empty, exp |-> Empty, saved |-> Empty, total |-> total, xp |-> FALSE, bad |-> "", where |-> "", spent |-> 0, gone |-> {},
   wait |-> R(R(rng)) % 150, lng |-> Long, bias |-> IF Long > 0 THEN Biased[((R(R(rng + id)) \div 17) % Len(Biased)) + 1] ELSE ""]

Init == IF Mode = "rnd"
        THEN \E i \in 1..Count : LET r == R(R(R(i * 7919 + Seed * 104729))) IN s = Norm(Fresh(i, r, Plan((r \div 13) % (MaxUnits + 1)), (r \div 13) % (MaxUnits + 1)))
        ELSE \E i \in 1..Count : s = Norm(Fresh(i, R(R(R(i * 7919 + Seed * 104729))), Starts[Start], 0))
Next == s.stk # <<>> /\ s' \in UNION {Steps(v) : v \in {Flush(s)}}
PSpec == Init /\ [][Next]_s

\* ------------------------------------------------------------------ what holds
Ended == s.stk = <<>>
\* every scope, list of names and forward declaration which was opened is closed
Closed == Ended => /\ Len(s.sc) = 1 /\ s.ids = <<>> /\ s.fw = <<>> /\ s.pend = <<>> /\ s.tlev = 0
\* nothing is visible which is not in a scope around, a used unit or built in
Visible == \A x \in DOMAIN Top(s).flat :
             \/ \E l \in 1..Len(s.sc) : x \in DOMAIN s.sc[l].own /\ s.sc[l].own[x] = Top(s).flat[x]
                                        /\ \A m \in (l + 1)..Len(s.sc) : x \notin DOMAIN s.sc[m].own
             \/ (\A l \in 1..Len(s.sc) : x \notin DOMAIN s.sc[l].own) /\ Top(s).flat[x] = s.sc[1].flat[x]
\* the declarations made last hide: what the innermost scope declares is what is seen
Innermost == \A x \in DOMAIN Top(s).own : Top(s).flat[x] = Top(s).own[x]
Emit == IF Ended \/ (Mode = "rnd" /\ Len(s.out) >= 80) THEN PrintT(ToJson(<< s.id, s.np, s.out >>)) ELSE TRUE
===============================================================================
