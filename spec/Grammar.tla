------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* The grammar of programs and units which tparser reads, as productions   *)
(* of a pushdown machine.  A production is a sequence of symbols:          *)
(*   T(x)    the token x is written                                        *)
(*   M(x)    the syntax tree has the mark x here (opening marks start with *)
(*           "(", the mark ")" closes)                                     *)
(*   N(x)    a nonterminal                                                 *)
(*   X(a, b) an action on the environment (declarations, references,       *)
(*           literals, scopes); module Pascal defines them                 *)
(*   Q(a, b) at the head of a production: it applies only if the condition *)
(*           holds                                                         *)
(* P(f, s, a): nonterminal of the family f (each family has a budget), its *)
(* alternatives a, of which the first s are used when the budget is spent  *)
(* (by these every derivation ends).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

T(x) == <<"t", x>>
M(x) == <<"m", x>>
N(x) == <<"n", x>>
X(a, b) == <<"x", a, b>>
Q(a, b) == <<"?", a, b>>
P(f, s, a) == [f |-> f, s |-> s, a |-> a]
One(s) == P("-", 1, << s >>)
C == M(")")

\* ---------------------------------------------------------------- expressions
GExpr == [
  xpr      |-> One(<<X("fuel", "e"), N("expr")>>),
  expr     |-> One(<<M("(e"), N("simple"), N("relrest"), C>>),
  relrest  |-> P("e", 1, << <<>>, <<X("op", "rel"), N("simple"), N("relrest")>> >>),
  simple   |-> P("e", 1, << <<M("(s"), N("term"), N("addrest"), C>>,
                            <<M("(s"), N("term"), N("addrest"), C>>,
                            <<M("(s"), X("op", "sign"), N("term"), N("addrest"), C>> >>),
  addrest  |-> P("e", 1, << <<>>, <<X("op", "add"), N("term"), N("addrest")>> >>),
  term     |-> One(<<M("(t"), N("factor"), N("mulrest"), C>>),
  mulrest  |-> P("e", 1, << <<>>, <<X("op", "mul"), N("factor"), N("mulrest")>> >>),
  factor   |-> P("e", 4, << <<X("num", "")>>,
                            <<M("(df"), M("(d"), X("ref", "val"), C, C>>,
                            <<M("(df"), M("(d"), X("ref", "val"), C, C>>,
                            <<X("str", "")>>,
                            <<T("nil"), M("nil")>>,
                            <<X("bool", "")>>,
                            <<M("(df"), M("(d"), X("ref", "val"), N("items"), C, N("args"), C>>,
                            <<M("(df"), M("(d"), X("ref", "val"), N("items"), C, N("args"), C>>,
                            <<M("(not"), T("not"), N("factor"), C>>,
                            <<M("(paren"), T("("), N("expr"), T(")"), C>>,
                            <<M("(addr"), T("@"), M("(d"), X("ref", "val"), N("items"), C, C>>,
                            <<M("(set"), T("["), N("elems"), T("]"), C>>,
                            <<Q("uref", "type"), M("(cast"), M("(tid"), X("cref", "type"), C, T("("), N("expr"), T(")"), C>>,
                            <<Q("uref", "type"), M("(df"), M("(d"), X("uref", "type"), C, C>>,
                            <<Q("uref", "type"), M("(df"), M("(d"), X("ref", "type"), M("."), T("."), X("fld", ""), N("items"), C, N("args"), C>> >>),
  items    |-> P("e", 1, << <<>>,
                            <<M("."), T("."), X("fld", ""), N("items")>>,
                            <<M("(idx"), T("["), N("exprs"), T("]"), C, N("items")>>,
                            <<M("^"), T("^"), N("items")>> >>),
  args     |-> P("e", 1, << <<>>, <<M("(args"), T("("), T(")"), C>>, <<M("(args"), T("("), N("exprs"), T(")"), C>> >>),
  exprs    |-> One(<<N("expr"), N("exprr")>>),
  exprr    |-> P("e", 1, << <<>>, <<T(","), N("expr"), N("exprr")>> >>),
  elems    |-> P("e", 1, << <<>>, <<N("elem"), N("elemr")>> >>),
  elemr    |-> P("e", 1, << <<>>, <<T(","), N("elem"), N("elemr")>> >>),
  elem     |-> P("e", 1, << <<M("(el"), N("expr"), C>>, <<M("(el"), N("expr"), T(".."), M(".."), N("expr"), C>> >>)
]

\* ----------------------------------------------------------------- statements
GStmt == [
  stmts    |-> One(<<N("semis"), N("stmts1")>>),
  stmts1   |-> P("s", 1, << <<>>, <<N("stmtl")>>, <<N("stmtl")>>, <<N("stmtl")>> >>),
  stmtl    |-> One(<<N("stmt"), N("stmtr")>>),
  stmtr    |-> P("s", 1, << <<>>, <<T(";"), N("semis"), N("stmt"), N("stmtr")>>, <<T(";"), N("semis"), N("stmt"), N("stmtr")>>,
                            <<T(";"), N("semis")>> >>),
  semis    |-> P("s", 1, << <<>>, <<>>, <<>>, <<T(";"), N("semis")>> >>),
  stmt     |-> One(<<M("(st"), N("lab"), N("body"), C>>),
  stmtc    |-> One(<<M("(st"), N("lab"), N("bodyc"), C>>),   \* no ELSE after it can belong to it
  lab      |-> P("s", 1, << <<>>, <<Q("uref", "label"), M("label"), X("lab", ""), T(":")>> >>),
  body     |-> P("s", 2, << <<N("bodyx")>>, <<N("bodyx")>>,
                            <<M("(if"), T("if"), N("xpr"), T("then"), N("stmt"), C>>,
                            <<M("(if"), T("if"), N("xpr"), T("then"), N("stmtc"), T("else"), M("else"), N("stmt"), C>>,
                            <<M("(while"), T("while"), N("xpr"), T("do"), N("stmt"), C>>,
                            <<M("(for"), T("for"), X("ref", "lhs"), T(":="), N("xpr"), N("dir"), N("xpr"), T("do"), N("stmt"), C>>,
                            <<M("(with"), T("with"), X("ref", "lhs"), N("withs"), T("do"), M("do"), N("stmt"), C>> >>),
  bodyc    |-> P("s", 2, << <<N("bodyx")>>, <<N("bodyx")>>,
                            <<M("(if"), T("if"), N("xpr"), T("then"), N("stmtc"), T("else"), M("else"), N("stmtc"), C>>,
                            <<M("(while"), T("while"), N("xpr"), T("do"), N("stmtc"), C>>,
                            <<M("(for"), T("for"), X("ref", "lhs"), T(":="), N("xpr"), N("dir"), N("xpr"), T("do"), N("stmtc"), C>>,
                            <<M("(with"), T("with"), X("ref", "lhs"), N("withs"), T("do"), M("do"), N("stmtc"), C>> >>),
  dir      |-> P("-", 2, << <<T("to"), M("to")>>, <<T("downto"), M("downto")>> >>),
  withs    |-> P("s", 1, << <<>>, <<T(","), X("ref", "lhs"), N("withs")>> >>),
  bodyx    |-> P("s", 4, << <<M("(call"), M("(d"), X("ref", "call"), C, C>>,
                            <<M("(:="), M("(d"), X("ref", "lhs"), C, T(":="), N("xpr"), C>>,
                            <<M("(call"), M("(d"), X("ref", "call"), X("fuel", "e"), N("items"), C, N("args"), C>>,
                            <<M("(:="), M("(d"), X("ref", "lhs"), X("fuel", "e"), N("items"), C, T(":="), N("xpr"), C>>,
                            <<Q("uref", "type"), M("(call"), M("(d"), X("ref", "type"), M("."), T("."), X("fld", ""), C, X("fuel", "e"), N("args"), C>>,
                            <<T("inherited"), M("inherited")>>,
                            <<Q("uref", "label"), M("(goto"), T("goto"), X("uref", "label"), C>>,
                            <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>,
                            <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>,
                            <<M("(case"), T("case"), N("xpr"), T("of"), N("sels"), T("end"), C>>,
                            <<M("(case"), T("case"), N("xpr"), T("of"), N("sels"), T("end"), C>>,
                            <<M("(repeat"), T("repeat"), N("stmts"), T("until"), M("until"), N("xpr"), C>>,
                            <<M("(try"), T("try"), N("stmts"), T("except"), M("except"), N("exc"), T("end"), C>>,
                            <<M("(try"), T("try"), N("stmts"), T("except"), M("except"), N("exc"), T("end"), C>>,
                            <<M("(try"), T("try"), N("stmts"), T("finally"), M("finally"), N("stmts"), T("end"), C>>,
                            <<M("(raise"), T("raise"), C>>,
                            <<M("(raise"), T("raise"), N("xpr"), C>>,
                            <<M("(raise"), T("raise"), N("xpr"), T("at"), M("at"), N("xpr"), C>>,
                            <<M("(raise"), T("raise"), T("at"), M("at"), N("xpr"), C>>,
                            <<N("asm")>> >>),
  asm      |-> One(<<T("asm"), N("asms"), T("end"), M("asm")>>),
  asms     |-> P("s", 1, << <<>>, <<X("asm", ""), N("asms")>> >>),
  sels     |-> P("s", 1, << <<N("sel"), N("selend")>>, <<N("sel"), T(";"), N("sels")>>, <<N("selc"), T("else"), N("elses")>> >>),
  selend   |-> P("s", 2, << <<>>, <<T(";")>>, <<T(";"), T("else"), N("elses")>> >>),
  elses    |-> P("s", 1, << <<N("semis")>>, <<N("semis"), M("else"), N("stmtl")>> >>),
  sel      |-> One(<<M("(sel"), N("cl"), N("cls"), T(":"), N("stmt"), C>>),
  selc     |-> One(<<M("(sel"), N("cl"), N("cls"), T(":"), N("stmtc"), C>>),
  cls      |-> P("s", 1, << <<>>, <<T(","), N("cl"), N("cls")>> >>),
  cl       |-> P("s", 1, << <<M("(cl"), N("xpr"), C>>, <<M("(cl"), N("xpr"), T(".."), M(".."), N("xpr"), C>> >>),
  exc      |-> P("s", 1, << <<N("elses")>>, <<N("hs")>>, <<N("hs")>> >>),
  hs       |-> P("s", 1, << <<N("h"), N("hend")>>, <<N("h"), T(";"), N("hs")>>, <<N("hc"), T("else"), N("elses")>> >>),
  hend     |-> P("s", 2, << <<>>, <<T(";")>>, <<T(";"), T("else"), N("elses")>> >>),
  h        |-> P("s", 2, << <<M("(on"), T("on"), N("hvar"), T("do"), N("stmt"), X("pop", ""), C>>,
                            <<Q("uref", "type"), M("(on"), T("on"), M("(tid"), X("tref", "known"), C, T("do"), N("stmt"), C>> >>),
  hc       |-> P("s", 2, << <<M("(on"), T("on"), N("hvar"), T("do"), N("stmtc"), X("pop", ""), C>>,
                            <<Q("uref", "type"), M("(on"), T("on"), M("(tid"), X("tref", "known"), C, T("do"), N("stmtc"), C>> >>),
  hvar     |-> One(<<X("open", ""), X("id", "exc"), T(":"), N("typeid"), X("push", ""), X("declare", "exc")>>)
]

\* ---------------------------------------------------------------------- types
GType == [
  xtype    |-> One(<<X("fuel", "t"), N("type")>>),
  type     |-> P("t", 2, << <<N("typeid")>>, <<N("sub")>>, <<N("enum")>>, <<N("strn")>>, <<N("array")>>, <<N("array")>>, <<N("setof")>>, <<N("fileof")>>,
                            <<N("record")>>, <<N("record")>>, <<N("ptr")>>, <<N("proc")>> >>),
  \* a type after which "=" does not belong to a bound of a subrange
  xtini    |-> One(<<X("fuel", "t"), N("tini")>>),
  tini     |-> P("t", 2, << <<N("typeid")>>, <<N("enum")>>, <<N("strn")>>, <<N("record")>>, <<N("ptr")>>, <<N("proc")>>,
                            <<M("(array"), T("array"), N("idxs"), T("of"), M("of"), N("tini"), X("lk", "type"), C>>,
                            <<M("(setof"), T("set"), T("of"), N("ordid"), X("lk", "type"), C>> >>),
  \* a type of a parameter
  xtpar    |-> One(<<X("fuel", "t"), N("tpar")>>),
  tpar     |-> P("t", 1, << <<N("typeid")>>, <<N("sub")>>, <<N("strn")>>, <<N("ptr")>>, <<N("fileof")>>, <<M("(setof"), T("set"), T("of"), N("ordid"), X("lk", "type"), C>>,
                            <<N("proc")>> >>),
  typeid   |-> P("-", 5, << <<M("(tid"), X("tref", "type"), C>>, <<M("(tid"), X("tref", "type"), C>>, <<M("(tid"), X("tref", "type"), C>>,
                            <<M("(tid"), X("tref", "type"), C>>, <<M("(tid"), X("strkw", ""), C>> >>),
  tidn     |-> One(<<M("(tid"), X("tref", "type"), C>>),
  ordid    |-> One(<<M("(tid"), X("tref", "ord"), C>>),
  ord      |-> P("t", 2, << <<N("ordid")>>, <<N("sub")>>, <<N("enum")>> >>),
  sub      |-> One(<<M("(sub"), X("fuel", "e"), N("sublow"), T(".."), N("xpr"), X("lk", "otype"), C>>),
  sublow   |-> P("e", 3, << <<M("(e"), M("(s"), M("(t"), X("num", ""), C, C, C>>,
                            <<M("(e"), M("(s"), M("(t"), X("str", ""), C, C, C>>,
                            <<M("(e"), M("(s"), M("(t"), M("(df"), M("(d"), X("uref", "cst"), C, C, C, C, C>>,
                            <<M("(e"), M("(s"), M("(t"), X("num", ""), N("mulrest"), C, N("addrest"), C, C>> >>),
  enum     |-> One(<<M("(enum"), T("("), N("en"), N("ens"), T(")"), X("lk", "otype"), C>>),
  ens      |-> P("t", 1, << <<>>, <<T(","), N("en"), N("ens")>>, <<T(","), N("en"), N("ens")>> >>),
  en       |-> P("t", 1, << <<M("(en"), X("open", ""), X("id", "enum"), X("declare", "enum"), C>>,
                            <<M("(en"), X("open", ""), X("id", "enum"), T("="), M("="), N("xpr"), X("declare", "enum"), C>> >>),
  strn     |-> One(<<M("(str["), X("strkw", ""), T("["), N("xpr"), T("]"), X("lk", "type"), C>>),
  array    |-> P("-", 1, << <<M("(array"), T("array"), N("idxs"), T("of"), M("of"), N("type"), X("lk", "type"), C>>,
                            <<M("(array"), M("packed"), T("packed"), T("array"), N("idxs"), T("of"), M("of"), N("type"), X("lk", "type"), C>> >>),
  idxs     |-> P("t", 1, << <<>>, <<T("["), N("ord"), N("ords"), T("]")>>, <<T("["), N("ord"), N("ords"), T("]")>> >>),
  ords     |-> P("t", 1, << <<>>, <<T(","), N("ord"), N("ords")>> >>),
  setof    |-> P("-", 1, << <<M("(setof"), T("set"), T("of"), N("ord"), X("lk", "type"), C>>,
                            <<M("(setof"), M("packed"), T("packed"), T("set"), T("of"), N("ord"), X("lk", "type"), C>> >>),
  fileof   |-> P("-", 1, << <<M("(file"), T("file"), T("of"), N("typeid"), X("lk", "type"), C>>,
                            <<M("(file"), M("packed"), T("packed"), T("file"), T("of"), N("typeid"), X("lk", "type"), C>> >>),
  record   |-> P("-", 1, << <<M("(record"), T("record"), N("fields"), T("end"), X("lk", "type"), C>>,
                            <<M("(record"), M("packed"), T("packed"), T("record"), N("fields"), T("end"), X("lk", "type"), C>> >>),
  fields   |-> P("t", 1, << <<>>, <<N("fld1"), N("fldr")>>, <<N("fld1"), N("fldr")>>, <<N("variant")>> >>),
  fld1     |-> One(<<M("(f"), X("fld", ""), N("fldids"), T(":"), N("type"), C>>),
  fldids   |-> P("t", 1, << <<>>, <<T(","), X("fld", ""), N("fldids")>> >>),
  fldr     |-> P("t", 2, << <<>>, <<T(";")>>, <<T(";"), N("fld1"), N("fldr")>>, <<T(";"), N("variant")>> >>),
  variant  |-> One(<<M("(variant"), T("case"), N("tag"), N("ordid"), T("of"), N("rv"), N("rvs"), C>>),
  tag      |-> P("-", 1, << <<>>, <<M("tag"), X("fld", ""), T(":")>> >>),
  rv       |-> One(<<M("(rv"), N("xpr"), N("rvls"), T(":"), T("("), N("fields"), T(")"), C>>),
  rvls     |-> P("t", 1, << <<>>, <<T(","), N("xpr"), N("rvls")>> >>),
  rvs      |-> P("t", 2, << <<>>, <<T(";")>>, <<T(";"), N("rv"), N("rvs")>> >>),
  ptr      |-> One(<<M("(ptr"), T("^"), N("typeid"), X("lk", "type"), C>>),
  proc     |-> P("-", 1, << <<M("(proc"), T("procedure"), X("push", ""), N("params"), X("pop", ""), N("ofobj"), X("lk", "type"), C>>,
                            <<M("(func"), T("function"), X("push", ""), N("params"), T(":"), N("typeid"), X("pop", ""), N("ofobj"), X("lk", "type"), C>> >>),
  ofobj    |-> P("-", 1, << <<>>, <<T("of"), T("object"), M("ofobj")>> >>)
]

\* -------------------------------------------------------------------- classes
GClass == [
  class    |-> P("c", 1, << <<M("(class"), T("class"), X("cls", ""), N("her"), T("end"), X("clsend", ""), C>>,
                            <<M("(class"), T("class"), X("cls", ""), N("her"), N("csecd"), N("csecs"), T("end"), X("clsend", ""), C>>,
                            <<M("(class"), T("class"), X("cls", ""), N("her"), N("csecd"), N("csecs"), T("end"), X("clsend", ""), C>>,
                            <<M("(class"), T("class"), X("cls", ""), N("her"), N("csec"), N("csecs"), T("end"), X("clsend", ""), C>> >>),
  her      |-> P("c", 1, << <<>>, <<N("her1")>> >>),
  her1     |-> One(<<M("(her"), T("("), N("tidn"), N("hers"), T(")"), C>>),
  hers     |-> P("c", 1, << <<>>, <<T(","), N("tidn"), N("hers")>> >>),
  csecs    |-> P("c", 1, << <<>>, <<N("csec"), N("csecs")>>, <<N("csec"), N("csecs")>> >>),
  csecd    |-> One(<<M("(sec"), M("v:default"), N("mems1"), C>>),
  csec     |-> One(<<M("(sec"), X("vis", ""), N("mems"), C>>),
  mems     |-> One(<<N("cfs"), N("cms"), N("cps")>>),
  mems1    |-> P("c", 1, << <<N("cf"), N("cfs"), N("cms"), N("cps")>>, <<N("cm"), N("cms"), N("cps")>>, <<N("cp"), N("cps")>> >>),
  cfs      |-> P("c", 1, << <<>>, <<N("cf"), N("cfs")>> >>),
  cf       |-> One(<<M("(cf"), X("mid", "field"), N("cfids"), T(":"), N("xtype"), C, T(";")>>),
  cfids    |-> P("c", 1, << <<>>, <<T(","), X("mid", "field"), N("cfids")>> >>),
  cms      |-> P("c", 1, << <<>>, <<N("cm"), N("cms")>> >>),
  cm       |-> One(<<M("(m"), N("mh"), T(";"), N("mdirs"), C>>),
  mh       |-> P("-", 1, << <<M("(ph"), T("procedure"), X("mid", "method"), X("push", ""), N("params"), X("pop", ""), C>>,
                            <<M("(fh"), T("function"), X("mid", "method"), X("push", ""), N("params"), T(":"), N("typeid"), X("pop", ""), C>>,
                            <<M("(ctor"), T("constructor"), X("mid", "method"), X("push", ""), N("params"), X("pop", ""), C>>,
                            <<M("(dtor"), T("destructor"), X("mid", "method"), C>> >>),
  mdirs    |-> P("c", 1, << <<>>, <<>>, <<X("mdir", ""), T(";"), N("mdirs")>> >>),
  cps      |-> P("c", 1, << <<>>, <<N("cp"), N("cps")>> >>),
  cp       |-> One(<<M("(prop"), T("property"), X("mid", "prop"), N("pintf"), N("pindex"), N("pread"), N("pwrite"), N("pstored"), N("pdef"), N("pimpl"), C, T(";")>>),
  pintf    |-> P("c", 2, << <<>>, <<T(":"), M(":"), N("typeid")>>, <<T(":"), M(":"), N("typeid")>>,
                            <<X("push", ""), M("(ps"), T("["), N("parm"), N("parms"), T("]"), C, T(":"), M(":"), N("typeid"), X("pop", "")>> >>),
  pindex   |-> P("c", 1, << <<>>, <<>>, <<T("index"), M("index"), N("xpr")>> >>),
  pread    |-> P("c", 1, << <<>>, <<Q("mem", ""), T("read"), M("read"), X("mref", "")>> >>),
  pwrite   |-> P("c", 1, << <<>>, <<Q("mem", ""), T("write"), M("write"), X("mref", "")>> >>),
  pstored  |-> P("c", 1, << <<>>, <<>>, <<T("stored"), T("true"), M("stored:TRUE")>>, <<T("stored"), T("false"), M("stored:FALSE")>>,
                            <<Q("mem", ""), T("stored"), M("stored"), X("mref", "")>> >>),
  pdef     |-> P("c", 1, << <<>>, <<>>, <<T("default"), M("default"), N("xpr")>>, <<T("nodefault"), M("nodefault")>> >>),
  pimpl    |-> P("c", 1, << <<>>, <<>>, <<>>, <<T("implements"), M("implements"), N("tidn")>> >>)
]

\* --------------------------------------------------------------- declarations
GDecl == [
  secs     |-> P("d", 1, << <<>>, <<N("sec"), N("secs")>>, <<N("sec"), N("secs")>>, <<N("sec"), N("secs")>> >>),
  sec      |-> P("-", 1, << <<N("consts")>>, <<N("types")>>, <<N("types")>>, <<N("vars")>>, <<N("vars")>>, <<N("tvars")>>, <<N("labels")>>, <<N("fd")>>, <<N("fd")>>, <<N("fds")>> >>),
  consts   |-> One(<<M("(consts"), T("const"), N("cdecl"), N("cdecls"), C>>),
  cdecls   |-> P("d", 1, << <<>>, <<N("cdecl"), N("cdecls")>> >>),
  cdecl    |-> P("-", 1, << <<M("(c"), X("open", ""), X("id", "const"), T("="), M("="), N("xpr"), X("declare", "const"), C, T(";")>>,
                            <<M("(c"), X("open", ""), X("id", "const"), T(":"), N("xtini"), T("="), M("="), N("xpr"), X("declare", "const"), C, T(";")>> >>),
  types    |-> One(<<M("(types"), T("type"), X("tsec", ""), N("tdecl"), N("tdecls"), X("tsecend", ""), C>>),
  tdecls   |-> P("d", 1, << <<>>, <<N("tdecl"), N("tdecls")>>, <<N("tdecl"), N("tdecls")>> >>),
  tdecl    |-> P("d", 1, << <<M("(ty"), X("open", ""), X("id", "type"), T("="), N("xtype"), X("declare", "lk"), N("port"), C, T(";")>>,
                            <<M("(ty"), X("open", ""), X("id", "type"), T("="), T("type"), N("xtype"), X("declare", "lk"), N("port"), C, T(";")>>,
                            <<M("(ty"), X("open", ""), X("id", "type"), T("="), X("fuel", "c"), N("class"), X("declare", "type"), N("port"), C, T(";")>>,
                            <<M("(ty"), X("open", ""), X("id", "type"), T("="), M("(class"), T("class"), X("fuel", "c"), N("her1"), C, X("declare", "type"), C, T(";")>>,
                            <<M("(ty"), X("open", ""), X("id", "type"), T("="), M("(classof"), T("class"), T("of"), N("tidn"), C, X("declare", "type"), N("port"), C, T(";")>>,
                            <<M("(ty"), X("open", ""), X("id", "type"), T("="), T("class"), X("fwdref", ""), X("declare", "fwd"), X("fwpush", ""), C, T(";"), N("tdecls"),
                              M("(ty"), X("fwid", ""), T("="), X("fuel", "c"), N("class"), X("fwdeclare", ""), N("port"), C, T(";")>> >>),
  port     |-> P("-", 4, << <<>>, <<>>, <<>>, <<X("port", "")>> >>),
  vars     |-> One(<<M("(vars"), T("var"), N("vdecl"), N("vdecls"), C>>),
  vdecls   |-> P("d", 1, << <<>>, <<N("vdecl"), N("vdecls")>> >>),
  vdecl    |-> One(<<M("(v"), X("open", ""), X("id", "var"), N("vids"), T(":"), N("vtype"), X("declare", "var"), C, T(";")>>),
  vids     |-> P("d", 1, << <<>>, <<T(","), X("id", "var"), N("vids")>> >>),
  vtype    |-> P("-", 4, << <<N("xtype")>>, <<N("xtype")>>, <<N("xtype"), T("absolute"), M("abs"), X("fld", "")>>, <<N("xtini"), T("="), M("="), N("xpr")>> >>),
  tvars    |-> One(<<M("(tvars"), T("threadvar"), N("tvdecl"), N("tvdecls"), C>>),
  tvdecls  |-> P("d", 1, << <<>>, <<N("tvdecl"), N("tvdecls")>> >>),
  tvdecl   |-> One(<<M("(tv"), X("open", ""), X("id", "var"), N("vids"), T(":"), N("xtype"), X("declare", "var"), C, T(";")>>),
  labels   |-> One(<<M("(label"), T("label"), X("open", ""), X("id", "label"), X("declare", "label"), C, T(";")>>),
  params   |-> P("d", 1, << <<>>, <<T("("), T(")")>>, <<M("(ps"), T("("), N("parm"), N("parms"), T(")"), C>>, <<M("(ps"), T("("), N("parm"), N("parms"), T(")"), C>> >>),
  parms    |-> P("d", 1, << <<>>, <<T(";"), N("parm"), N("parms")>> >>),
  parm     |-> One(<<M("(p"), N("popt"), X("open", ""), X("id", "param"), N("ptype"), X("declare", "param"), C>>),
  popt     |-> P("-", 5, << <<>>, <<>>, <<T("var"), M("VAR")>>, <<T("const"), M("CONST")>>, <<T("out"), M("OUT")>> >>),
  ptype    |-> P("d", 2, << <<T(":"), N("typeid")>>, <<>>,
                            <<N("pids"), T(":"), N("typeid")>>, <<N("pids")>>,
                            <<N("pids"), T(":"), N("xtpar")>>,
                            <<N("pids"), T(":"), T("array"), T("of"), M("arrayof"), N("typeid")>>,
                            <<T(":"), T("array"), T("of"), T("const"), M("arrayof"), M("const")>>,
                            <<T(":"), N("typeid"), T("="), M("="), N("xpr")>> >>),
  pids     |-> P("d", 1, << <<>>, <<T(","), X("id", "param"), N("pids")>> >>),
  heading  |-> P("-", 2, << <<M("(ph"), T("procedure"), X("open", ""), X("id", "func"), X("push", ""), N("params"), C>>,
                            <<M("(fh"), T("function"), X("open", ""), X("id", "func"), X("push", ""), N("params"), T(":"), N("typeid"), C>> >>),
  again    |-> P("-", 2, << <<M("(ph"), T("procedure"), X("open", ""), X("againid", ""), X("push", ""), N("params"), C>>,
                            <<M("(fh"), T("function"), X("open", ""), X("againid", ""), X("push", ""), N("params"), T(":"), N("typeid"), C>> >>),
  fd       |-> One(<<M("(fd"), N("heading"), T(";"), X("fdone", ""), N("fdirs"), N("fbody"), X("pop", ""), C>>),
  \* a forward declaration or an overload, and the same name again
  fds      |-> P("d", 1, << <<N("fd")>>,
                            <<M("(fd"), N("heading"), T(";"), X("fdone", ""), X("fwpush", ""), N("fdirs"), T("forward"), M("d:FORWARD"), T(";"), N("fdirs"), M("nobody"), X("pop", ""), C, N("secs"),
                              M("(fd"), N("again"), T(";"), X("fdone", ""), N("fdirs"), M("(blk"), N("block"), C, T(";"), X("pop", ""), C>>,
                            <<M("(fd"), N("heading"), T(";"), X("fdone", ""), X("fwpush", ""), T("overload"), M("d:OVERLOAD"), T(";"), M("(blk"), N("block"), C, T(";"), X("pop", ""), C, N("secs"),
                              M("(fd"), N("again"), T(";"), X("fdone", ""), T("overload"), M("d:OVERLOAD"), T(";"), N("fbody"), X("pop", ""), C>> >>),
  fdirs    |-> P("d", 1, << <<>>, <<>>, <<X("fdir", ""), T(";"), N("fdirs")>> >>),
  fbody    |-> P("d", 1, << <<M("(blk"), N("block"), C, T(";")>>, <<M("(blk"), N("block"), C, T(";")>>, <<M("(blk"), N("block"), C, T(";")>>, <<N("external"), M("nobody")>> >>),
  \* more directives may follow EXTERNAL
  external |-> One(<<T("external"), M("d:EXTERNAL"), N("extopt"), T(";"), N("fdirs")>>),
  extopt   |-> P("-", 6, << <<>>, <<T("'lib.dll'"), M("lib:'lib.dll'")>>, <<T("''"), M("lib:''")>>,
                            <<T("'user32'"), M("lib:'user32'"), T("name"), T("'MessageBoxA'"), M("extname:'MessageBoxA'")>>,
                            <<T("'user32'"), M("lib:'user32'"), T("name"), T("''"), M("extname:''")>>,
                            <<T("'a'"), M("lib:'a'"), T("index"), T("12"), M("extindex:12")>>,
                            <<T("'a'"), M("lib:'a'"), T("index"), T("0"), M("extindex:0")>>,
                            <<T("'a'"), M("lib:'a'"), T("index"), T("0017"), M("extindex:17")>>,
                            <<T("'a'"), M("lib:'a'"), T("index"), T("4294967299"), M("extindex:4294967299")>> >>),
  eh       |-> One(<<M("(eh"), N("heading"), T(";"), X("ehdone", ""), N("fdirs"), N("ehext"), C>>),
  ehs      |-> P("d", 1, << <<N("eh")>>,
                            <<M("(eh"), N("heading"), T(";"), X("ehdone", ""), X("fwpush", ""), T("overload"), M("d:OVERLOAD"), T(";"), C, N("idecls"),
                              M("(eh"), N("again"), T(";"), X("ehdone", ""), T("overload"), M("d:OVERLOAD"), T(";"), C>> >>),
  ehext    |-> P("d", 1, << <<>>, <<>>, <<>>, <<N("external")>> >>),
  idecls   |-> P("d", 1, << <<>>, <<N("idecl"), N("idecls")>>, <<N("idecl"), N("idecls")>>, <<N("idecl"), N("idecls")>> >>),
  idecl    |-> P("-", 1, << <<N("consts")>>, <<N("types")>>, <<N("types")>>, <<N("vars")>>, <<N("vars")>>, <<N("tvars")>>, <<N("eh")>>, <<N("ehs")>> >>),
  exports  |-> P("d", 1, << <<>>, <<>>, <<>>, <<M("(exports"), T("exports"), N("xi"), N("xis"), T(";"), C, N("exports")>> >>),
  xis      |-> P("d", 1, << <<>>, <<T(","), N("xi"), N("xis")>> >>),
  xi       |-> P("-", 1, << <<M("(x"), X("fld", ""), C>>,
                            <<M("(x"), X("fld", ""), T("name"), M("name"), N("xpr"), C>>,
                            <<M("(x"), X("fld", ""), T("index"), M("index"), N("xpr"), C>>,
                            <<M("(x"), X("fld", ""), T("name"), M("name"), N("xpr"), T("index"), M("index"), N("xpr"), C>>,
                            <<M("(x"), X("fld", ""), T("index"), T("7"), T("name"), T("'n'"), M("name"), M("(e"), M("(s"), M("(t"), M("str:'n'"), C, C, C,
                              M("index"), M("(e"), M("(s"), M("(t"), M("n:7"), C, C, C, C>> >>),
  block    |-> One(<<N("secs"), N("exports"), X("fuel", "s"), N("bbody"), N("exports")>>),
  bbody    |-> P("-", 1, << <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>, <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>,
                            <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>, <<M("(begin"), T("begin"), N("stmts"), T("end"), C>>, <<N("asm")>> >>)
]

\* ---------------------------------------------------------------------- files
\* the headings (with the uses clauses) are actions: they set up the scopes of the file
GFile == [
  unitI    |-> One(<<X("fuel", "d"), N("idecls"), X("intfend", "")>>),
  unitM    |-> One(<<X("fuel", "d"), N("secs"), N("exports"), X("fuel", "s"), N("init"), T("end"), T("."), C>>),
  init     |-> P("-", 1, << <<>>, <<T("initialization"), N("initst"), N("fin")>> >>),
  initst   |-> P("-", 1, << <<N("semis")>>, <<N("semis"), M("init"), N("stmtl")>>, <<N("semis"), M("init"), N("stmtl")>> >>),
  fin      |-> P("-", 1, << <<>>, <<T("finalization"), N("finst")>> >>),
  finst    |-> P("-", 1, << <<N("semis")>>, <<N("semis"), M("final"), N("stmtl")>>, <<N("semis"), M("final"), N("stmtl")>> >>),
  progB    |-> One(<<X("fuel", "d"), M("(blk"), N("block"), C, T("."), C>>)
]
=============================================================================
