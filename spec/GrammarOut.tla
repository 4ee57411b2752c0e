------------------------------ MODULE GrammarOut ------------------------------
(***************************************************************************)
(* Prints the grammar (module Grammar), with the vocabulary of module      *)
(* Pascal and the headings of the files as productions, for the recogniser *)
(* of the harness: a file which it does not recognise must be refused.     *)
(* TLC checks here that the grammar is well formed.                        *)
(***************************************************************************)
EXTENDS Pascal

\* the headings of the files, which the machine of module Pascal writes by actions
GHead == [
  program  |-> One(<<T("program"), X("id", "prog"), T(";"), N("puses"), N("progB")>>),
  puses    |-> P("-", 2, << <<>>, <<T("uses"), N("pitem"), N("pitems"), T(";")>> >>),
  pitem    |-> P("-", 2, << <<X("id", "uses")>>, <<X("id", "uses"), T("in"), X("path", "")>> >>),
  pitems   |-> P("-", 2, << <<>>, <<T(","), N("pitem"), N("pitems")>> >>),
  unit     |-> One(<<T("unit"), X("id", "unit"), N("port"), T(";"), T("interface"), N("puses"), N("unitI"), T("implementation"), N("puses"), N("unitM")>>)
]

\* what tparser accepts beyond the productions of module Grammar, and no guarantee excludes
Also(r, alts) == [r EXCEPT !.a = @ \o alts]
GMore == [
  \* the last field of a section needs no semicolon
  mems  |-> One(<<N("cfl"), N("cms"), N("cps")>>),
  mems1 |-> P("c", 3, << <<N("cf"), N("cfl"), N("cms"), N("cps")>>, <<N("cfn"), N("cms"), N("cps")>>, <<N("cm"), N("cms"), N("cps")>>, <<N("cp"), N("cps")>> >>),
  cfl   |-> P("c", 3, << <<>>, <<N("cf"), N("cfl")>>, <<N("cfn")>> >>),
  cfn   |-> One(<<X("mid", "field"), N("cfids"), T(":"), N("xtype")>>),
  \* NAME and INDEX of an export in any order
  xi    |-> Also(GDecl.xi, << <<X("fld", ""), T("index"), N("xpr"), T("name"), N("xpr")>> >>),
  \* classes: declared forward only, TYPE before it
  tdecl |-> Also(GDecl.tdecl, << <<X("id", "type"), T("="), N("tyopt"), T("class"), T(";")>>,
                                 <<X("id", "type"), T("="), T("type"), N("class"), N("port"), T(";")>>,
                                 <<X("id", "type"), T("="), T("type"), T("class"), N("her1"), T(";")>>,
                                 <<X("id", "type"), T("="), T("type"), T("class"), T("of"), N("tidn"), N("port"), T(";")>> >>),
  tidn  |-> Also(GType.tidn, << <<X("strkw", "")>> >>),
  tyopt |-> P("-", 2, << <<>>, <<T("type")>> >>),
  \* ABSOLUTE together with an initial value
  vtype |-> Also(GDecl.vtype, << <<N("xtype"), T("absolute"), X("fld", ""), T("="), N("xpr")>> >>),
  \* the lower bound of a subrange may be any expression
  sublow |-> Also(GType.sublow, << <<N("expr")>> >>),
  \* default values of parameters of any form
  ptype |-> Also(GDecl.ptype, << <<N("pids"), T(":"), N("ptypex"), N("pdefx")>>, <<N("pids"), T("="), N("xpr")>>, <<N("pids"), T(":"), T("array"), T("of"), T("const"), N("pdefx")>> >>),
  ptypex |-> P("-", 2, << <<N("tpar")>>, <<T("array"), T("of"), N("tpar")>> >>),
  pdefx |-> P("-", 2, << <<>>, <<T("="), N("xpr")>> >>),
  \* the selector of a variant part: any type in place of an ordinal type name
  variant |-> Also(GType.variant, << <<T("case"), N("tag"), N("type"), T("of"), N("rv"), N("rvs")>> >>),
  \* handlers of strings, variables of any type in handlers
  hvar  |-> One(<<X("id", "exc"), T(":"), N("type")>>),
  \* a second semicolon after the last handler
  hend  |-> Also(GStmt.hend, << <<T(";"), T(";")>> >>),
  h     |-> Also(GStmt.h, << <<T("on"), X("strkw", ""), T("do"), N("stmt")>> >>),
  hc    |-> Also(GStmt.hc, << <<T("on"), X("strkw", ""), T("do"), N("stmtc")>> >>),
  \* PACKED twice or after an array type, classes in place of any type
  type  |-> Also(GType.type, << <<N("type"), T("packed")>>, <<T("packed"), N("type")>>, <<N("class")>>, <<T("class")>>, <<T("class"), N("her1")>>, <<T("class"), T("of"), N("tidn")>> >>),
  tini  |-> Also(GType.tini, << <<N("type")>> >>),
  tpar  |-> Also(GType.tpar, << <<N("type")>> >>),
  \* any directive at any routine
  fdirs |-> P("d", 2, << <<>>, <<X("anydir", ""), T(";"), N("fdirs")>> >>),
  mdirs |-> P("c", 2, << <<>>, <<X("mdir", ""), T(";"), N("mdirs")>> >>),
  fbody |-> Also(GDecl.fbody, << <<T("forward"), T(";"), N("fdirs2")>>, <<N("external"), N("fdirs2")>> >>),
  fdirs2 |-> P("d", 2, << <<>>, <<X("anydir", ""), T(";"), N("fdirs2")>>, <<T("forward"), T(";"), N("fdirs2")>>, <<N("external"), N("fdirs2")>> >>),
  ehext |-> One(<<N("fdirs2")>>)
]

ASSUME TLCSet(18, GMore @@ AllRules @@ GHead)
Rules == TLCGet(18)
Vocabulary == [rel |-> Ops.rel, sign |-> Ops.sign, add |-> Ops.add, mul |-> Ops.mul, mdir |-> MDirs, fdir |-> FDirs, port |-> Ports,
               anydir |-> FDirs \o MDirs \o << << "name" >>, << "index" >> >>,
               vis |-> [i \in 1..Len(Vis) |-> << Vis[i] >>]]

\* ---------------------------------------------------------------- well-formed
Syms(r) == UNION {{r.a[i][j] : j \in 1..Len(r.a[i])} : i \in 1..Len(r.a)}
Used(r) == {x[2] : x \in {y \in Syms(r) : y[1] = "n"}}
Reach[k \in 0..12] == IF k = 0 THEN {"program", "unit"} ELSE LET d == Reach[k - 1] IN d \cup UNION {Used(Rules[x]) : x \in d}
\* by the short alternatives (those used when a budget is spent) every nonterminal ends
Ends(r, done) == \E i \in 1..r.s : \A j \in 1..Len(r.a[i]) : r.a[i][j][1] = "n" => r.a[i][j][2] \in done
Done[k \in 0..20] == IF k = 0 THEN {} ELSE LET d == Done[k - 1] IN {x \in DOMAIN Rules : Ends(Rules[x], d)}
\* marks are opened and closed in every alternative
RECURSIVE Depth(_, _)
Depth(sq, d) == IF sq = <<>> \/ d < 0 THEN d
                ELSE Depth(Tail(sq), IF Head(sq)[1] # "m" THEN d ELSE IF Head(sq)[2] = ")" THEN d - 1 ELSE IF SubSeq(Head(sq)[2], 1, 1) = "(" THEN d + 1 ELSE d)
FileRules == {"unitM", "progB"}   \* these close what the heading opened

GInit == s = 0 /\ PrintT(ToJson([rules |-> Rules, vocabulary |-> Vocabulary]))
GSpec == GInit /\ [][FALSE]_s
Defined == \A x \in DOMAIN Rules : Used(Rules[x]) \subseteq DOMAIN Rules
Reached == DOMAIN Rules \ Reach[12] \subseteq {"cfs", "fuel"}
Terminates == \A x \in DOMAIN Rules : x \in Done[20]
Balanced == \A x \in DOMAIN Rules : \A i \in 1..Len(Rules[x].a) : Depth(Rules[x].a[i], IF x \in FileRules THEN 1 ELSE 0) = 0
===============================================================================
