package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
)

// event is one element of the syntax tree in source order: a mark, or an identifier
// (declared here, referring to something, or neither).
type event struct {
	Mark   string
	Ident  *ast.Ident    // identifier events
	Decl   bool          // the identifier is declared here by Node
	Node   astcore.Node  //
	HasRef bool          // the identifier can refer to something, to Ref
	Ref    *astcore.Decl //
	Fwd    ast.Type      // reference of a forward class to its full declaration
	IsFwd  bool          //
	Name   string        // name of an identifier without ast.Ident
}

func (e event) String() string {
	switch {
	case e.Mark != "":
		return e.Mark
	case e.IsFwd:
		return "->"
	case e.Ident == nil:
		return "name " + e.Name
	case e.Decl:
		return "declared " + e.Ident.Name
	}
	return "name " + e.Ident.Name
}

type dumper struct{ ev []event }

func (d *dumper) m(format string, a ...interface{}) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	d.ev = append(d.ev, event{Mark: format})
}
func (d *dumper) plain(i *ast.Ident) { d.ev = append(d.ev, event{Ident: i, Name: i.Name}) }
func (d *dumper) decl(i *ast.Ident, n astcore.Node) {
	d.ev = append(d.ev, event{Ident: i, Name: i.Name, Decl: true, Node: n})
}
func (d *dumper) ref(i *ast.Ident, r *astcore.Decl) {
	d.ev = append(d.ev, event{Ident: i, Name: i.Name, HasRef: true, Ref: r})
}
func (d *dumper) iref(i *ast.IdentRef) { d.ref(i.Ident, i.Ref) }

func (d *dumper) expr(e *ast.Expression) {
	d.m("(e")
	d.simple(e.SimpleExpression)
	for _, r := range e.RelOpSimpleExpressions {
		d.m("op:" + strings.ToUpper(r.RelOp))
		d.simple(r.SimpleExpression)
	}
	d.m(")")
}
func (d *dumper) simple(s *ast.SimpleExpression) {
	d.m("(s")
	if s.UnaryOp != nil {
		d.m("sign:" + *s.UnaryOp)
	}
	d.term(s.Term)
	for _, r := range s.AddOpTerms {
		d.m("op:" + strings.ToUpper(r.AddOp))
		d.term(r.Term)
	}
	d.m(")")
}
func (d *dumper) term(t *ast.Term) {
	d.m("(t")
	d.factor(t.Factor)
	for _, r := range t.MulOpFactors {
		d.m("op:" + strings.ToUpper(r.MulOp))
		d.factor(r.Factor)
	}
	d.m(")")
}
func (d *dumper) exprs(s ast.ExprList) {
	for _, e := range s {
		d.expr(e)
	}
}
func (d *dumper) args(s ast.ExprList) {
	if s != nil {
		d.m("(args")
		d.exprs(s)
		d.m(")")
	}
}
func (d *dumper) qual(q *ast.QualId) {
	if q.NamespaceId != nil {
		d.m("ns")
		d.iref(q.NamespaceId)
	}
	d.iref(q.Ident)
}
func (d *dumper) designator(x *ast.Designator) {
	d.m("(d")
	d.qual(x.QualId)
	for _, i := range x.Items {
		switch i := i.(type) {
		case *ast.DesignatorItemIdent:
			d.m(".")
			d.plain(i.Ident)
		case ast.DesignatorItemExprList:
			d.m("(idx")
			d.exprs(ast.ExprList(i))
			d.m(")")
		case *ast.DesignatorItemDereference:
			d.m("^")
		default:
			d.m("?%T", i)
		}
	}
	d.m(")")
}
func (d *dumper) factor(f ast.Factor) {
	switch f := f.(type) {
	case *ast.NumberFactor:
		d.m("n:%s", f.Value)
	case *ast.StringFactor:
		d.m("str:%s", f.Value)
	case *ast.Nil:
		d.m("nil")
	case *ast.ValueFactor:
		d.m("v:%s", strings.ToUpper(f.Value))
	case *ast.DesignatorFactor:
		d.m("(df")
		d.designator(f.Designator)
		d.args(f.ExprList)
		d.m(")")
	case *ast.Not:
		d.m("(not")
		d.factor(f.Factor)
		d.m(")")
	case *ast.Parentheses:
		d.m("(paren")
		d.expr(f.Expression)
		d.m(")")
	case *ast.Address:
		d.m("(addr")
		d.designator(f.Designator)
		d.m(")")
	case *ast.SetConstructor:
		d.m("(set")
		for _, e := range f.SetElements {
			d.m("(el")
			d.expr(e.Expression)
			if e.SubRangeEnd != nil {
				d.m("..")
				d.expr(e.SubRangeEnd)
			}
			d.m(")")
		}
		d.m(")")
	case *ast.TypeCast:
		d.m("(cast")
		d.typ(f.TypeId)
		d.expr(f.Expression)
		d.m(")")
	default:
		d.m("?%T", f)
	}
}

func (d *dumper) stmts(s ast.StmtList) {
	for _, x := range s {
		d.stmt(x)
	}
}
func (d *dumper) stmt(s *ast.Statement) {
	d.m("(st")
	if s.LabelId != nil {
		d.m("label")
		d.plain(s.LabelId)
	}
	d.body(s.Body)
	d.m(")")
}
func (d *dumper) body(b ast.Node) {
	switch b := b.(type) {
	case *ast.CallStatement:
		d.m("(call")
		d.designator(b.Designator)
		d.args(b.ExprList)
		d.m(")")
	case *ast.AssignStatement:
		d.m("(:=")
		d.designator(b.Designator)
		d.expr(b.Expression)
		d.m(")")
	case *ast.InheritedStatement:
		d.m("inherited")
	case *ast.GotoStatement:
		d.m("(goto")
		d.ref(b.LabelId, b.Ref)
		d.m(")")
	case *ast.CompoundStmt:
		d.m("(begin")
		d.stmts(b.StmtList)
		d.m(")")
	case *ast.IfStmt:
		d.m("(if")
		d.expr(b.Condition)
		d.stmt(b.Then)
		if b.Else != nil {
			d.m("else")
			d.stmt(b.Else)
		}
		d.m(")")
	case *ast.CaseStmt:
		d.m("(case")
		d.expr(b.Expression)
		for _, s := range b.Selectors {
			d.m("(sel")
			for _, l := range s.Labels {
				d.m("(cl")
				d.expr(l.ConstExpr)
				if l.ExtraConstExpr != nil {
					d.m("..")
					d.expr(l.ExtraConstExpr)
				}
				d.m(")")
			}
			d.stmt(s.Statement)
			d.m(")")
		}
		if len(b.Else) > 0 {
			d.m("else")
			d.stmts(b.Else)
		}
		d.m(")")
	case *ast.RepeatStmt:
		d.m("(repeat")
		d.stmts(b.StmtList)
		d.m("until")
		d.expr(b.Condition)
		d.m(")")
	case *ast.WhileStmt:
		d.m("(while")
		d.expr(b.Condition)
		d.stmt(b.Statement)
		d.m(")")
	case *ast.ForStmt:
		d.m("(for")
		d.qual(b.QualId)
		d.expr(b.Initial)
		if b.Down {
			d.m("downto")
		} else {
			d.m("to")
		}
		d.expr(b.Terminal)
		d.stmt(b.Statement)
		d.m(")")
	case *ast.WithStmt:
		d.m("(with")
		for _, q := range b.Objects {
			d.qual(q)
		}
		d.m("do")
		d.stmt(b.Statement)
		d.m(")")
	case *ast.TryExceptStmt:
		d.m("(try")
		d.stmts(b.Statements)
		d.m("except")
		if b.ExceptionBlock != nil {
			for _, h := range b.ExceptionBlock.Handlers {
				d.m("(on")
				if h.Decl.Ident != nil {
					d.decl(h.Decl.Ident, h.Decl)
				}
				d.typ(h.Decl.Type)
				d.stmt(h.Statement)
				d.m(")")
			}
			if len(b.ExceptionBlock.Else) > 0 {
				d.m("else")
				d.stmts(b.ExceptionBlock.Else)
			}
		}
		d.m(")")
	case *ast.TryFinallyStmt:
		d.m("(try")
		d.stmts(b.Statements1)
		d.m("finally")
		d.stmts(b.Statements2)
		d.m(")")
	case *ast.RaiseStmt:
		d.m("(raise")
		if b.Object != nil {
			d.expr(b.Object)
		}
		if b.Address != nil {
			d.m("at")
			d.expr(b.Address)
		}
		d.m(")")
	case *ast.AssemblerStatement:
		d.m("asm")
	default:
		d.m("?%T", b)
	}
}

func (d *dumper) packed(b bool) {
	if b {
		d.m("packed")
	}
}
func (d *dumper) fields(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.FieldDecls {
		d.m("(f")
		for _, i := range x.IdentList {
			d.plain(i)
		}
		d.typ(x.Type)
		d.m(")")
	}
	if v := f.VariantSection; v != nil {
		d.m("(variant")
		if v.Ident != nil {
			d.m("tag")
			d.plain(v.Ident)
		}
		d.typ(v.TypeId)
		for _, r := range v.RecVariants {
			d.m("(rv")
			d.exprs(r.ConstExprs)
			d.fields(r.FieldList)
			d.m(")")
		}
		d.m(")")
	}
}
func (d *dumper) params(s ast.FormalParameters) {
	if len(s) == 0 {
		return
	}
	d.m("(ps")
	for _, p := range s {
		d.m("(p")
		if p.Opt != nil {
			d.m("%s", string(*p.Opt))
		}
		for _, i := range p.IdentList {
			d.decl(i, p)
		}
		if p.Type != nil {
			if p.Type.IsArray {
				d.m("arrayof")
			}
			if p.Type.Type == nil {
				d.m("const")
			} else {
				d.typ(p.Type.Type)
			}
		}
		if p.ConstExpr != nil {
			d.m("=")
			d.expr(p.ConstExpr)
		}
		d.m(")")
	}
	d.m(")")
}
func (d *dumper) typ(t ast.Node) {
	switch t := t.(type) {
	case *ast.TypeId:
		d.m("(tid")
		if t.UnitId != nil {
			d.m("ns")
			d.plain(t.UnitId)
		}
		d.ref(t.Ident, t.Ref)
		d.m(")")
	case *ast.SubrangeType:
		d.m("(sub")
		d.expr(t.Low)
		d.expr(t.High)
		d.m(")")
	case ast.EnumeratedType:
		d.m("(enum")
		for _, e := range t {
			d.m("(en")
			d.decl(e.Ident, e)
			if e.ConstExpr != nil {
				d.m("=")
				d.expr(e.ConstExpr)
			}
			d.m(")")
		}
		d.m(")")
	case *ast.FixedStringType:
		d.m("(str[")
		if x, ok := t.StringType.(*ast.TypeId); ok {
			d.ref(x.Ident, x.Ref)
		} else {
			d.m("?%T", t.StringType)
		}
		d.expr(t.Length)
		d.m(")")
	case *ast.ArrayType:
		d.m("(array")
		d.packed(t.Packed)
		for _, i := range t.IndexTypes {
			d.typ(i)
		}
		d.m("of")
		d.typ(t.BaseType)
		d.m(")")
	case *ast.SetType:
		d.m("(setof")
		d.packed(t.Packed)
		d.typ(t.OrdinalType)
		d.m(")")
	case *ast.FileType:
		d.m("(file")
		d.packed(t.Packed)
		d.typ(t.TypeId)
		d.m(")")
	case *ast.RecType:
		d.m("(record")
		d.packed(t.Packed)
		d.fields(t.FieldList)
		d.m(")")
	case *ast.CustomPointerType:
		d.m("(ptr")
		d.typ(t.TypeId)
		d.m(")")
	case *ast.ProcedureType:
		if t.FunctionType == ast.FtFunction {
			d.m("(func")
		} else {
			d.m("(proc")
		}
		d.params(t.FormalParameters)
		if t.ReturnType != nil {
			d.typ(t.ReturnType)
		}
		if t.OfObject {
			d.m("ofobj")
		}
		d.m(")")
	case *ast.ForwardDeclaredClassType:
		d.m("fwd")
		e := event{IsFwd: true}
		if t.Actual != nil {
			e.Fwd = t.Actual
		}
		d.ev = append(d.ev, e)
	case *ast.CustomClassRefType:
		d.m("(classof")
		d.typ(t.TypeId)
		d.m(")")
	case *ast.CustomClassType:
		d.class(t)
	default:
		d.m("?%T", t)
	}
}
func (d *dumper) class(t *ast.CustomClassType) {
	d.m("(class")
	if len(t.Heritage) > 0 {
		d.m("(her")
		for _, h := range t.Heritage {
			d.typ(h)
		}
		d.m(")")
	}
	for _, s := range t.Members {
		d.m("(sec")
		v := strings.ToLower(string(s.Visibility))
		if v == "" {
			v = "default"
		}
		d.m("v:" + v)
		for _, f := range s.ClassFieldList {
			d.m("(cf")
			for _, i := range f.IdentList {
				d.decl(i, f)
			}
			d.typ(f.Type)
			d.m(")")
		}
		for _, f := range s.ClassMethodList {
			d.m("(m")
			if f.ClassMethod {
				d.m("classmethod")
			}
			switch h := f.Heading.(type) {
			case *ast.FunctionHeading:
				d.heading(h, f)
			case *ast.ConstructorHeading:
				d.m("(ctor")
				d.decl(h.Ident, f)
				d.params(h.FormalParameters)
				d.m(")")
			case *ast.DestructorHeading:
				d.m("(dtor")
				d.decl(h.Ident, f)
				d.m(")")
			default:
				d.m("?%T", h)
			}
			for _, x := range f.Directives {
				d.m("d:" + strings.ToUpper(string(x)))
			}
			d.m(")")
		}
		for _, p := range s.ClassPropertyList {
			d.m("(prop")
			d.decl(p.Ident, p)
			if p.Interface != nil {
				d.params(p.Interface.Parameters)
				if p.Interface.Type != nil {
					d.m(":")
					d.typ(p.Interface.Type)
				}
			}
			if p.Index != nil {
				d.m("index")
				d.expr(p.Index)
			}
			if p.Read != nil {
				d.m("read")
				d.iref(p.Read)
			}
			if p.Write != nil {
				d.m("write")
				d.iref(p.Write)
			}
			if st := p.Stored; st != nil {
				if st.Constant != nil {
					d.m("stored:%s", strings.ToUpper(fmt.Sprint(*st.Constant)))
				}
				if st.IdentRef != nil {
					d.m("stored")
					d.iref(st.IdentRef)
				}
			}
			if df := p.Default; df != nil {
				if df.Value != nil {
					d.m("default")
					d.expr(df.Value)
				}
				if df.NoDefault != nil && *df.NoDefault {
					d.m("nodefault")
				}
			}
			if p.Implements != nil {
				d.m("implements")
				d.typ(p.Implements)
			}
			d.m(")")
		}
		d.m(")")
	}
	d.m(")")
}

func (d *dumper) port(p *ast.PortabilityDirective) {
	if p != nil {
		d.m("port:" + strings.ToUpper(string(*p)))
	}
}
func (d *dumper) heading(h *ast.FunctionHeading, n astcore.Node) {
	if h.Type == ast.FtFunction {
		d.m("(fh")
	} else {
		d.m("(ph")
	}
	d.decl(h.Ident, n)
	d.params(h.FormalParameters)
	if h.ReturnType != nil {
		d.typ(h.ReturnType)
	}
	d.m(")")
}

// the options of EXTERNAL follow it
func (d *dumper) directives(s []ast.Directive, x *ast.ExternalOptions) {
	opts := func() {
		if x != nil {
			d.m("lib:%s", x.LibraryName)
			if x.Name != nil {
				d.m("extname:%s", *x.Name)
			}
			if x.Index != nil {
				d.m("extindex:%d", *x.Index)
			}
		}
		x = nil
	}
	for _, y := range s {
		d.m("d:" + strings.ToUpper(string(y)))
		if strings.EqualFold(string(y), "EXTERNAL") {
			opts()
		}
	}
	opts()
}
func (d *dumper) section(s ast.Node) {
	switch s := s.(type) {
	case ast.ConstSection:
		d.m("(consts")
		for _, x := range s {
			d.m("(c")
			d.decl(x.Ident, x)
			if x.Type != nil {
				d.typ(x.Type)
			}
			d.m("=")
			d.expr(x.ConstExpr)
			d.port(x.PortabilityDirective)
			d.m(")")
		}
		d.m(")")
	case ast.TypeSection:
		d.m("(types")
		for _, x := range s {
			d.m("(ty")
			d.decl(x.Ident, x)
			d.typ(x.Type)
			d.port(x.PortabilityDirective)
			d.m(")")
		}
		d.m(")")
	case ast.VarSection:
		d.m("(vars")
		for _, x := range s {
			d.m("(v")
			for _, i := range x.IdentList {
				d.decl(i, x)
			}
			d.typ(x.Type)
			if x.Absolute != nil {
				d.m("abs")
				if a, ok := x.Absolute.(*ast.VarDeclAbsoluteIdent); ok {
					d.plain((*ast.Ident)(a))
				} else {
					d.m("?%T", x.Absolute)
				}
			}
			if x.ConstExpr != nil {
				d.m("=")
				d.expr(x.ConstExpr)
			}
			d.port(x.PortabilityDirective)
			d.m(")")
		}
		d.m(")")
	case ast.ThreadVarSection:
		d.m("(tvars")
		for _, x := range s {
			d.m("(tv")
			for _, i := range x.IdentList {
				d.decl(i, x)
			}
			d.typ(x.Type)
			d.m(")")
		}
		d.m(")")
	case *ast.LabelDeclSection:
		d.m("(label")
		d.decl(s.LabelId, s)
		d.m(")")
	case *ast.FunctionDecl:
		d.m("(fd")
		d.heading(s.FunctionHeading, s)
		d.directives(s.Directives, s.ExternalOptions)
		d.port(s.PortabilityDirective)
		if s.Block == nil || (s.Block.Body == nil && len(s.Block.DeclSections) == 0 && len(s.Block.ExportsStmts1) == 0 && len(s.Block.ExportsStmts2) == 0) {
			d.m("nobody")
		} else {
			d.block(s.Block)
		}
		d.m(")")
	case *ast.ExportedHeading:
		d.m("(eh")
		d.heading(s.FunctionHeading, s)
		d.directives(s.Directives, s.ExternalOptions)
		d.m(")")
	default:
		d.m("?%T", s)
	}
}
func (d *dumper) sections(s ast.DeclSections) {
	for _, x := range s {
		d.section(x)
	}
}
func (d *dumper) exports(s ast.ExportsStmts) {
	for _, x := range s {
		d.m("(exports")
		for _, i := range x.ExportsItems {
			d.m("(x")
			d.plain(i.Ident)
			if i.Name != nil {
				d.m("name")
				d.expr(i.Name)
			}
			if i.Index != nil {
				d.m("index")
				d.expr(i.Index)
			}
			d.m(")")
		}
		d.m(")")
	}
}
func (d *dumper) block(b *ast.Block) {
	d.m("(blk")
	d.sections(b.DeclSections)
	d.exports(b.ExportsStmts1)
	if b.Body != nil {
		d.body(b.Body)
	}
	d.exports(b.ExportsStmts2)
	d.m(")")
}
func (d *dumper) uses(u ast.UsesClause) {
	if len(u) == 0 {
		return
	}
	d.m("(uses")
	for _, i := range u {
		d.m("(u")
		d.decl(i.Ident, i)
		if i.Path != nil {
			d.m("path:%s", *i.Path)
		}
		d.m(")")
	}
	d.m(")")
}
func dumpProgram(p *ast.Program) []event {
	d := &dumper{}
	d.m("(program")
	d.decl(p.Ident, p)
	d.uses(p.ProgramBlock.UsesClause)
	d.block(p.ProgramBlock.Block)
	d.m(")")
	return d.ev
}
func dumpUnit(u *ast.Unit) []event {
	d := &dumper{}
	d.m("(unit")
	d.decl(u.Ident, u)
	d.port(u.PortabilityDirective)
	d.uses(u.InterfaceSection.UsesClause)
	d.m("intf")
	for _, x := range u.InterfaceSection.InterfaceDecls {
		d.section(x)
	}
	if i := u.ImplementationSection; i != nil {
		d.uses(i.UsesClause)
		d.m("impl")
		d.sections(i.DeclSections)
		d.exports(i.ExportsStmts)
	}
	if i := u.InitSection; i != nil {
		if len(i.InitializationStmts) > 0 {
			d.m("init")
			d.stmts(i.InitializationStmts)
		}
		if len(i.FinalizationStmts) > 0 {
			d.m("final")
			d.stmts(i.FinalizationStmts)
		}
	}
	d.m(")")
	return d.ev
}
