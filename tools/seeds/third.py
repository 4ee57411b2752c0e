import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed

seed("line-comment-blank", "C01", [("token/tokenizer.go", '''		} else if !t.loadComment && token.Type == Comment {
			continue
		}''', '''		} else if token.Type == Comment && !t.loadComment {
			if raw := token.Raw(); raw[0] == '/' {
				ProcessSpace(t.Cursor) // A line comment ends with its line break
			}
			continue
		}''')], '''
func demo() {
	text := []rune("a//c\\nb")
	t := token.NewTokenizer(&text, token.LoadSpace)
	t.GetNext()
	if x := t.GetNext(); x.RawString() != "\\n" {
		fail("%q", x.RawString())
	}
}''', "blanks are kept, comments are not, and a line comment is followed by its line break", "the line break is lost")

seed("no-body-first", "C09", [("ast/function.go", '''	for _, d := range m.Directives {
		if d == DrForward || d == DrExternal {
			return true
		}
	}
	return false
}
func (m *FunctionDecl) ToDeclarations() astcore.Decls {
	return astcore.Decls{astcore.NewDeclaration(m.Ident, m)}
}''', '''	n := len(m.Directives)
	if n == 0 {
		return false
	}
	first, last := m.Directives[0], m.Directives[n-1]
	return first == DrForward || first == DrExternal || last == DrForward || last == DrExternal
}

func (m *FunctionDecl) ToDeclarations() astcore.Decls {
	ident := m.Ident
	return astcore.Decls{astcore.NewDeclaration(ident, m)}
}''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; procedure A; stdcall; external 'x'; overload; procedure B; begin end; begin end."); err != nil {
		fail("%v", err)
	}
}''', "EXTERNAL or FORWARD between two other directives", "the routine is expected to have a body")

seed("forward-again", "C10", [("parser/type.go", '''		for _, decl := range res.ToDeclarations() {
			p.context.Overwrite(res.Ident.Name, decl)
		}''', '''		if _, ok := typ.(ast.ForwardDeclaration); !ok && len(res.Ident.Name) == 0 {
			p.context.Overwrite(res.Ident.Name, res.ToDeclarations()[0])
		}'''), ("parser/type.go", '''			return nil, errors.Errorf("expects type declaration but was %T", old.Node)''', '''			return nil, errors.Errorf("expects a type declaration but was %T", old.Node)''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; type T = class; T = class a: Integer; end; T = class b: Integer; end; begin end."); err == nil {
		fail("two full declarations")
	}
}''', "two full declarations after a forward one", "the second one is accepted")

seed("handler-scope", "C13", [("parser/statement_try.go", '''	handlers, err := p.ParseExceptionBlockHandlers()
''', '''	defer p.context.StackDeclMap()()
	handlers, err := p.ParseExceptionBlockHandlers()
'''), ("parser/statement_try.go", '''	defer p.context.StackDeclMap()()
	if decl.Ident != nil {
		if err := p.context.Set(decl); err != nil {
			return nil, err
		}
	}
''', '''	if decl.Ident != nil {
		for _, d := range decl.ToDeclarations() {
			p.context.Overwrite(d.Ident.Name, d)
		}
	}
''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type T = class end; var e: Integer; begin try except on e: T do e := 1; else e := 2; end; end.")
	if err != nil {
		fail("%v", err)
	}
	s := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.TryExceptStmt).ExceptionBlock.Else[0].Body.(*ast.AssignStatement)
	if _, ok := s.Designator.QualId.Ident.Ref.Node.(*ast.VarDecl); !ok {
		fail("%T", s.Designator.QualId.Ident.Ref.Node)
	}
}''', "the variable of a handler is named like a declaration around and that name is used in a later handler or in the ELSE part", "the name refers to the variable of the earlier handler")

seed("walk-eof", "C18", [("ast/astcore/node.go", '''func WalkDown(n Node, f func(Node) error) error {
	if err := f(n); err != nil {
		return err
	}
	for _, m := range n.Children() {
		if m != nil {
			if err := WalkDown(m, f); err != nil {
				return err
			}
		}
	}
	return nil
}''', '''func WalkDown(n Node, f func(Node) error) error {
	if err := walkDown(n, f); err != io.EOF {
		return err
	}
	return nil
}

func walkDown(n Node, f func(Node) error) error {
	if err := f(n); err != nil {
		return err
	}
	for _, m := range n.Children() {
		if m != nil {
			if err := walkDown(m, f); err != nil {
				return err
			}
		}
	}
	return nil
}'''), ("ast/astcore/node.go", '''package astcore
''', '''package astcore

import "io"
''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; begin end.")
	if err != nil {
		fail("%v", err)
	}
	if err := astcore.WalkDown(p.Program, func(astcore.Node) error { return io.EOF }); err != io.EOF {
		fail("%v", err)
	}
}
'''.replace("io.EOF", "errEOF") + '''
var errEOF = func() error {
	_, err := strings.NewReader("").ReadByte()
	return err
}()
''', "the visitor's error is io.EOF", "the walk returns no error")

seed("significant-255", "C21", [("ast/astcore/decl_map.go", '''	return strings.ToLower(name)''', '''	name = strings.ToLower(name)
	if len(name) > 255 {
		return name[:255] // The significant part of a name
	}
	return name''')], '''
func demo() {
	l := strings.Repeat("a", 260)
	if _, err := parse("p.dpr", "program P; var "+l+"x: Integer; "+l+"y: Integer; begin end."); err != nil {
		fail("%v", err)
	}
}''', "two names which agree in their first 255 characters", "they are taken for the same")

seed("wave-dash", "C22", [("parser/unit_parser.go", '''	runes := []rune(string(str))
''', '''	runes := []rune(string(str))
	for i, r := range runes {
		if r == '\\uff5e' {
			runes[i] = '\\u301c'
		}
	}
''')  , ("parser/unit_parser.go", '''	p.SetText(&runes)
''', '''	text := runes
	p.SetText(&text)
''')], '''
func demo() {
	unit("U", "unit U; interface const a = '\\x81\\x60'; implementation end.")
	p, err := parse("p.dpr", "program P; uses U in 'U.pas'; begin end.")
	if err != nil {
		fail("%v", err)
	}
	c := p.Units[0].InterfaceSection.InterfaceDecls[0].(ast.ConstSection)[0]
	f := c.ConstExpr.SimpleExpression.Term.Factor.(*ast.StringFactor)
	if f.Value != "'\\uff5e'" {
		fail("%+q", f.Value)
	}
}''', "the wave dash (bytes 81 60) in a unit file", "it is another character than the decoder gives")

seed("uses-first", "C14", [("parser/unit_parser.go", '''	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
''', '''	for _, d := range unitsUsedByImpl.DeclMaps() {
		maps = append(maps, d)
		if len(maps) > 6 { // The last one first
			maps[4], maps[len(maps)-1] = maps[len(maps)-1], maps[4]
		}
	}
	if len(maps) == 6 {
		maps[4], maps[5] = maps[5], maps[4]
	}
'''), ("parser/unit_parser.go", '''	originalContextDeclMap := m.context.DeclMap
''', '''	originalContextDeclMap := astcore.DeclMap(m.context.DeclMap)
''')], '''
func demo() {
	unit("A", "unit A; interface implementation uses B, C, D, E; procedure Q; begin x := 1; end; end.")
	unit("B", "unit B; interface var x: Integer; implementation end.")
	unit("C", "unit C; interface var x: Integer; implementation end.")
	unit("D", "unit D; interface var x: Integer; implementation end.")
	unit("E", "unit E; interface var y: Integer; implementation end.")
	p, err := parse("p.dpr", "program P; uses A in 'A.pas', B in 'B.pas', C in 'C.pas', D in 'D.pas', E in 'E.pas'; begin end.")
	if err != nil {
		fail("%v", err)
	}
	f := p.Units[0].ImplementationSection.DeclSections[0].(*ast.FunctionDecl)
	s := f.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement)
	want := p.Units[3].DeclMap.Get("x")
	if s.Designator.QualId.Ident.Ref.Node != want.Node {
		fail("another x")
	}
}''', "an implementation section uses four units and a name is declared by two of them, but not by the last", "the name refers to an earlier unit")

seed("case-else-empty", "C17", [("parser/statement_conditional.go", '''		elseStmtList, err = p.ParseStmtList(terminator)
		if err != nil {
			return nil, err
		}
''', '''		elseStmtList, err = p.ParseStmtList(token.Some(terminator, token.ReservedWord.HasKeyword("ELSE")))
		if err != nil {
			return nil, err
		}
		if p.CurrentToken().Is(token.ReservedWord.HasKeyword("ELSE")) && len(elseStmtList) == 0 {
			p.NextToken()
		}
''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; begin case 1 of 1: a; else else end; end."); err == nil {
		fail("accepted")
	}
}'''
, "CASE with two ELSE directly after each other", "the program is accepted")

seed("field-list-close", "C17", [("parser/type_struc.go", '''	} else if !p.CurrentToken().Is(terminator) {
		p.NextToken()
	}
''', '''	} else if t := p.CurrentToken(); !t.Is(terminator) {
		p.NextToken()
	} else if len(fieldDecls) == 0 {
		rollback := p.RollbackPoint()
		if !p.NextToken().Is(terminator) {
			rollback()
		}
	}
''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; type R = record end end; begin end."); err == nil {
		fail("accepted")
	}
}''', "an empty record or variant part closed twice", "the program is accepted")

seed("word-memo", "C19", [("token/reserved_words.go", """	return reservedWords.Include(strings.ToUpper(w))
}""", """	if r, ok := knownWords[w]; ok {
		return r
	}
	r := reservedWords.Include(strings.ToUpper(w))
	if len(knownWords) < 10000 {
		knownWords[w] = r
	}
	return r
}

var knownWords = map[string]bool{}""")], """
func demo() {
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func(k int) {
			for i := 0; i < 300; i++ {
				text := []rune(fmt.Sprintf("w%dx%d", k, i))
				token.NewTokenizer(&text, 0).GetNext()
			}
			done <- true
		}(k)
	}
	for k := 0; k < 8; k++ {
		<-done
	}
}""", "several goroutines read words which were not read before", "the process dies (concurrent map writes)")

seed("ident-end-bytes", "C03", [("ast/astcore/ident.go", '''	return &Ident{
		Name:     v.RawString(),
		Location: NewLocation(v.Start, v.End),
	}''', '''	name := v.RawString()
	end := *v.Start
	end.Col += len(name)
	end.Index += len(name)
	return &Ident{
		Name:     name,
		Location: NewLocation(v.Start, &end),
	}''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; var \\x82\\xa0: Integer; begin end.")
	if err != nil {
		fail("%v", err)
	}
	v := p.ProgramBlock.Block.DeclSections[0].(ast.VarSection)[0]
	if v.IdentList[0].Location.End.Col != 17 {
		fail("%v", v.IdentList[0].Location)
	}
}''', "an identifier with characters outside of ASCII", "its end is too far to the right")

seed("self-use", "C15", [("parser/unit_parsers.go", '''			graph.AddEdge(strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name))
''', '''			from, to := strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name)
			if from != to {
				graph.AddEdge(from, to)
			}
''')], '''
func demo() {
	unit("A", "unit A; interface uses A; implementation end.")
	if _, err := parse("p.dpr", "program P; uses A in 'A.pas'; begin end."); err == nil {
		fail("accepted")
	}
}''', "a unit whose interface section uses the unit itself", "the cycle is not reported")
