import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed

seed("double-backslash", "C02", [("token/string.go", '''			last = r
''', '''			if last == '\\\\' && r == last {
				last = 0 // An escaped backslash
			} else {
				last = r
			}
''')], '''
func demo() {
	text := []rune("'a\\\\\\\\' b' c")
	t := token.NewTokenizer(&text, 0)
	x := t.GetNext()
	if x.RawString() != "'a\\\\\\\\' b'" {
		fail("%q", x.RawString())
	}
}''', "a quoted string with two backslashes in front of a quote", "the quote ends the string")

seed("absolute-case", "C04", [("parser/var.go", '''	if p.CurrentToken().Is(token.UpperCase("ABSOLUTE")) {''', '''	if p.CurrentToken().Is(token.Some(token.Value("ABSOLUTE"), token.Value("absolute"))) {''')], '''
func demo() {
	for _, w := range []string{"absolute", "Absolute", "ABSOLUTE"} {
		if _, err := parse("p.dpr", "program P; var a: Integer; b: Integer "+w+" a; begin end."); err != nil {
			fail("%v", err)
		}
	}
}''', "the word ABSOLUTE in mixed case", "Absolute in mixed case is refused")

seed("stored-case", "C04", [("parser/type_class.go", '''		tVal := strings.ToLower(t.Value())''', '''		tVal := t.Value()'''),
 ("parser/type_class.go", '''		if tVal == "true" {''', '''		if tVal == "true" || tVal == "True" {'''),
 ("parser/type_class.go", '''		} else if tVal == "false" {''', '''		} else if tVal == "false" || tVal == "False" {''')], '''
func demo() {
	for _, w := range []string{"true", "False", "TRUE", "FALSE"} {
		if _, err := parse("p.dpr", "program P; type T = class F: Integer; property Q: Integer read F stored "+w+"; end; begin end."); err != nil {
			fail("%v", err)
		}
	}
}''', "STORED with TRUE or FALSE in upper case", "the property is refused")

seed("ancestor-lasso", "C05", [("ast/type_class.go", '''	visited := map[*CustomClassType]bool{m: true}
	for c := m.GetParentClass(); c != nil && !visited[c]; c = c.GetParentClass() {
		visited[c] = true
		r = append(r, c)
	}
	return r
}''', '''	for c := m.GetParentClass(); c != nil && c != m; c = c.GetParentClass() {
		r = append(r, c)
	}
	return r
}'''), ("ast/type_class.go", '''	defer log.TraceMethod("CustomClassType.FindMemberDecl: " + name)()
''', '''	defer log.TraceMethod("CustomClassType.FindMemberDecl " + name)()
''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type A = class(B) end; B = class(C) end; C = class(B) end; begin end.")
	if err != nil {
		return
	}
	done := make(chan bool)
	go func() {
		for _, d := range p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection) {
			d.Type.(*ast.CustomClassType).FindMemberDecl("x", false)
		}
		done <- true
	}()
	for i := 0; ; i++ {
		select {
		case <-done:
			return
		case <-time.After(3 * time.Second):
			fail("hangs")
		}
	}
}''', "a class whose ancestors, but not the class itself, inherit from each other in a circle", "looking up a member never ends")

seed("cast-builtin", "C06", [("parser/expression.go", '''		decl := p.context.Get(t0Value)
		if decl != nil {
			if _, ok''', '''		decl := ast.EmbeddedTypeDeclMap.Get(t0Value)
		if decl == nil {
			decl = p.context.Get(t0Value)
		}
		if decl != nil {
			if _, ok''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; var a: Integer; function Byte(x: Integer): Integer; begin end; begin a := Byte(a); end.")
	if err != nil {
		fail("%v", err)
	}
	s := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement)
	if _, ok := s.Expression.SimpleExpression.Term.Factor.(*ast.DesignatorFactor); !ok {
		fail("%T", s.Expression.SimpleExpression.Term.Factor)
	}
}''', "a function named like a built-in type", "a call of the function becomes a type cast")

seed("raise-at-else", "C07", [("parser/statement_raise.go", '''	if !p.CurrentToken().Is(token.UpperCase("AT")) {
		expr, err := p.ParseExpression()
		if err != nil {
			return nil, err
		}
		res.Object = expr
	}

	if p.CurrentToken().Is(token.UpperCase("AT")) {''', '''	if p.CurrentToken().Is(token.Identifier) {
		expr, err := p.ParseExpression()
		if err != nil {
			return nil, err
		}
		res.Object = expr
	}

	if p.CurrentToken().Is(token.UpperCase("AT")) {''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; begin raise @a end."); err != nil {
		fail("%v", err)
	}
}''', "RAISE with an expression which does not begin with an identifier", "the statement is refused")

seed("selector-shortcut", "C08", [("parser/type_struc.go", '''	ordinalType, err := p.ParseTypeAsOrdinalType()
	if err != nil {
		return nil, err
	}
	r.TypeId = ordinalType

	if _, err := p.Current(token.ReservedWord.HasKeyword("OF")); err != nil {''', '''	if r.Ident != nil {
		typeId, err := p.ParseTypeId()
		if err != nil {
			return nil, err
		}
		r.TypeId = typeId
	} else {
		ordinalType, err := p.ParseTypeAsOrdinalType()
		if err != nil {
			return nil, err
		}
		r.TypeId = ordinalType
	}

	if _, err := p.Current(token.ReservedWord.HasKeyword("OF")); err != nil {''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; type R = record case K: Double of 1: (a: Integer) end; begin end."); err == nil {
		fail("accepted")
	}
}''', "a variant part with a named selector of a type which is not ordinal", "it is accepted")

seed("method-directive-once", "C10", [("parser/type_class.go", '''		res = append(res, ast.ClassMethodDirective(w))
		if _, err''', '''		directive := ast.ClassMethodDirective(w)
		if directive == ast.CmdAbstract && !res.Include(string(ast.CmdVirtual)) {
			directive = ast.CmdVirtual // An abstract method is virtual
		}
		res = append(res, directive)
		if _, err''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type T = class procedure M; overload; abstract; virtual; end; begin end.")
	if err != nil {
		fail("%v", err)
	}
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.CustomClassType)
	if d := c.Members[0].ClassMethodList[0].Directives; fmt.Sprint(d) != "[OVERLOAD ABSTRACT VIRTUAL]" {
		fail("%v", d)
	}
}''', "a method with ABSTRACT in front of VIRTUAL", "ABSTRACT is kept as VIRTUAL")

seed("shallow-property", "C11", [("ast/type_class.go", '''	prop := parent.ComputedProperty()
''', '''	prop := parent
''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type A = class F: Integer; property Q: Integer read F write F; end; "+
		"B = class(A) property Q write F; end; C = class(B) G: Integer; property Q write G; end; begin end.")
	if err != nil {
		fail("%v", err)
	}
	c := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[2].Type.(*ast.CustomClassType)
	q := c.Members[0].ClassPropertyList[0].ComputedProperty()
	if q.Interface == nil || q.Read == nil {
		fail("%+v", q)
	}
}''', "a property repeated in two descendants in a row where the nearest one gives only the parts given again", "the property of the last descendant loses its type and READ")

seed("path-one-separator", "C12", [("ast/uses_clause.go", '''	return strings.ReplaceAll(origPath, "\\\\", string([]rune{filepath.Separator}))''',
'''	dir, file := "", origPath
	if i := strings.LastIndex(origPath, "\\\\"); i >= 0 {
		dir, file = origPath[:i], origPath[i+1:]
	}
	return filepath.Join(dir, file)''')], '''
func demo() {
	d := filepath.Join(os.Args[1], "x", "y")
	if err := os.MkdirAll(d, 0777); err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(filepath.Join(d, "U.pas"), []byte("unit U; interface implementation end."), 0666); err != nil {
		fail("%v", err)
	}
	if _, err := parse("p.dpr", "program P; uses U in 'x\\\\y\\\\U.pas'; begin end."); err != nil {
		fail("%v", err)
	}
}''', "a unit in a directory two levels down, named with backslashes", "the unit is not found")

seed("impl-uses-order", "C14", [("parser/unit_parser.go", '''	maps = append(maps, unitsUsedByImpl.DeclMaps().Reverse()...)
	maps''', '''	maps = append(maps, unitsUsedByImpl.DeclMaps()...)
	maps''')], '''
func demo() {
	unit("A", "unit A; interface const x = 1; implementation end.")
	unit("B", "unit B; interface const x = 2; implementation end.")
	unit("C", "unit C; interface implementation uses A, B; const y = x; end.")
	p, err := parse("p.dpr", "program P; uses A in 'A.pas', B in 'B.pas', C in 'C.pas'; begin end.")
	if err != nil {
		fail("%v", err)
	}
	y := p.Units[2].ImplementationSection.DeclSections[0].(ast.ConstSection)[0].ConstExpr
	ref := y.SimpleExpression.Term.Factor.(*ast.DesignatorFactor).QualId.Ident.Ref
	if ref != p.Units[1].DeclMap.Get("x") {
		fail("x of the wrong unit")
	}
}''', "an implementation section which uses two units declaring the same name", "the first one wins instead of the last one")

seed("threadvar-dup", "C16", [("parser/var.go", '''	res.Type = typ
	if err := p.context.Set(res); err != nil {
		return nil, err
	}

	// p.NextToken()''', '''	res.Type = typ
	for _, decl := range res.ToDeclarations() {
		p.context.Overwrite(decl.Ident.Name, decl)
	}

	// p.NextToken()''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; const a = 1; threadvar A: Integer; begin end."); err == nil {
		fail("accepted")
	}
}''', "a thread variable with the name of an earlier declaration of the same scope", "it is accepted")

seed("parm-word", "C17", [("parser/function_heading.go", '''			r.Opt = &ast.FpoOut
		default:
			return nil, p.TokenErrorf("unexpected token %s", t)
		}''', '''			r.Opt = &ast.FpoOut
		}''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; procedure F(type a: Integer); begin end; begin end."); err == nil {
		fail("accepted")
	}
}''', "a reserved word other than VAR, CONST, OUT in front of a parameter", "it is accepted")

seed("chunk-decode", "C22", [("parser/unit_parser.go", '''	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
		return err
	}
''', '''	// Decode in chunks because unit files can be big
	raw, err := ioutil.ReadAll(fp)
	if err != nil {
		return err
	}
	str := []byte{}
	for len(raw) > 0 {
		n := len(raw)
		if n > 4096 {
			n = 4096
		}
		s, _, err := transform.Bytes(decoder, raw[:n])
		if err != nil {
			return err
		}
		str, raw = append(str, s...), raw[n:]
	}
''')], '''
func demo() {
	head := "unit U; interface const x = 'abc"
	src := head + strings.Repeat("a", 4095-len(head)) + "\\x83\\x5c'; implementation end."
	unit("U", src)
	p, err := parse("p.dpr", "program P; uses U in 'U.pas'; begin end.")
	if err != nil {
		fail("%v", err)
	}
	v := p.Units[0].InterfaceSection.InterfaceDecls[0].(ast.ConstSection)[0].ConstExpr.SimpleExpression.Term.Factor.(*ast.StringFactor).Value
	if !strings.HasSuffix(v, "ソ'") {
		fail("%q", v[len(v)-12:])
	}
}''', "a unit file of more than 4096 bytes with a two-byte character over the border", "the character is lost")

seed("eof-place", "C23", [("parser/base.go", '''	return fmt.Sprintf("%s:%d:%d", p.context.GetPath(), t.Start.Line, t.Start.Col)''', '''	pos := t.Start
	if t.Is(token.EOF) && pos.Col == 1 && pos.Line > 1 {
		// The line feed at the end of the file ends its last line
		return fmt.Sprintf("%s:%d", p.context.GetPath(), pos.Line-1)
	}
	return fmt.Sprintf("%s:%d:%d", p.context.GetPath(), pos.Line, pos.Col)''')], '''
func demo() {
	_, err := parse("p.dpr", "program P;\\nbegin\\n")
	if err == nil || !strings.HasSuffix(err.Error(), "p.dpr:3:1") {
		fail("%v", err)
	}
}''', "a file which is cut off behind a line feed", "the error does not name the place of the end of the file")

seed("octal-index", "C09", [("parser/function_heading.go", '''strconv.ParseInt(f2.Value, 10, 64)''', '''strconv.ParseInt(f2.Value, 0, 64)''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; procedure F; external 'x' index 010; begin end.")
	if err != nil {
		fail("%v", err)
	}
	f := p.ProgramBlock.Block.DeclSections[0].(*ast.FunctionDecl)
	if *f.ExternalOptions.Index != 10 {
		fail("index %d", *f.ExternalOptions.Index)
	}
}''', "an external routine whose INDEX is written with a leading zero", "the index is taken for an octal number")

seed("property-parent-walk", "C18", [("ast/type_class.go", '''	if m.Default != nil {
		r = append(r, m.Default)
	}
	if m.Implements''', '''	if d := m.ComputedProperty().Default; d != nil {
		r = append(r, d)
	}
	if m.Implements''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; const d = 1; type A = class F: Integer; property Q: Integer read F default d; end; "+
		"B = class(A) property Q; end; begin end.")
	if err != nil {
		fail("%v", err)
	}
	n := 0
	astcore.WalkDown(p.Program, func(x astcore.Node) error {
		if i, ok := x.(*ast.Ident); ok && i.Name == "d" {
			n++
		}
		return nil
	})
	if n != 2 { // its declaration and the default
		fail("d is visited %d times", n)
	}
}''', "a property which inherits a DEFAULT from the parent's property", "the walk visits the default twice")

seed("unit-path-cache", "C19", [("ast/uses_clause.go", '''func (m *UsesClauseItem) EffectivePath() string {
	origPath := m.UnquotedPath()
	return strings.ReplaceAll(origPath, "\\\\", string([]rune{filepath.Separator}))
}''', '''var effectivePaths sync.Map

// EffectivePath is called for every unit of every project again and again.
func (m *UsesClauseItem) EffectivePath() string {
	origPath := m.UnquotedPath()
	path := strings.ReplaceAll(origPath, "\\\\", string([]rune{filepath.Separator}))
	r, _ := effectivePaths.LoadOrStore(strings.ToLower(path), path)
	return r.(string)
}'''), ("ast/uses_clause.go", '''	"strings"
''', '''	"strings"
	"sync"
''')], '''
func demo() {
	unit("ab", "unit U; interface const x = 1; implementation end.")
	if _, err := parse("p.dpr", "program P; uses U in 'ab.pas'; begin end."); err != nil {
		fail("%v", err)
	}
	if err := os.Remove(filepath.Join(os.Args[1], "ab.pas")); err != nil {
		fail("%v", err)
	}
	unit("AB", "unit U; interface const y = 1; implementation end.")
	if _, err := parse("p.dpr", "program P; uses U in 'AB.pas'; begin end."); err != nil {
		fail("%v", err)
	}
}''', "two parses in one process which name unit files whose names differ only in letter case", "the second parse reads the file of the first one")

seed("platform-type", "C20", [("ast/type_id.go", '''	decl, ok := m.Ref.Node.(*TypeDecl)
	if !ok {
		return nil
	}
	return decl''', '''	decl, ok := m.Ref.Node.(*TypeDecl)
	if !ok || decl.PortabilityDirective != nil {
		return nil // Nothing is known about a type which depends on the platform
	}
	return decl''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type A = Integer platform; B = A; begin end.")
	if err != nil {
		fail("%v", err)
	}
	d := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[1]
	if !d.Type.(*ast.TypeId).IsOrdinalType() {
		fail("B is not ordinal")
	}
}''', "an alias of a type with a portability directive", "it is no longer of any class")

seed("chained-overwrite", "C21", [("ast/astcore/decl_map.go", '''func (m *ChainedDeclMap) Overwrite(name string, decl *Decl) {
	m.Impl.Overwrite(name, decl)''', '''func (m *ChainedDeclMap) Overwrite(name string, decl *Decl) {
	var target DeclMap = m.Impl
	if target.Get(name) == nil && m.Parent.Get(name) != nil {
		target = m.Parent
	}
	target.Overwrite(name, decl)''')], '''
func demo() {
	parent := astcore.NewDeclMap()
	d1 := astcore.NewDeclaration(&astcore.Ident{Name: "a"}, nil)
	d2 := astcore.NewDeclaration(&astcore.Ident{Name: "a"}, nil)
	parent.Overwrite("a", d1)
	m := astcore.NewChainedDeclMap(parent)
	m.Overwrite("A", d2)
	if parent.Get("a") != d1 || m.Get("a") != d2 {
		fail("the parent is changed")
	}
}''', "overwriting in a chained map a name which only its parent declares", "the parent map is changed")

seed("clone-flags", "C01", [("token/tokenizer.go", '''		Cursor:      t.Cursor.Clone(),
		loadSpace:   t.loadSpace,
''', '''		Cursor:      t.Cursor.Clone(),
		loadSpace:   t.loadSpace && !t.loadComment || t.loadComment && t.Cursor.Position.Col > 1,
''')], '''
func demo() {
	for f := token.TokeninzerFlag(0); f < 4; f++ {
		text := []rune("a {c} b")
		t := token.NewTokenizer(&text, f)
		t.GetNext()
		u := t.Clone()
		for {
			x, y := t.GetNext(), u.GetNext()
			if x.Type != y.Type {
				fail("flags %d: %v %v", f, x.Type, y.Type)
			}
			if x.Type == token.EOF {
				break
			}
		}
	}
}''', "a clone of a reader which wants comments but no blanks, made in the middle of a line", "the clone reads blanks too")

seed("edge-with-path", "C15", [("parser/unit_parsers.go", '''			graph.AddEdge(strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name))
''', '''			if unitRef.Path == nil { // Units with a path are those of the program
				graph.AddEdge(strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name))
			}
''')], '''
func demo() {
	unit("A", "unit A; interface uses B in 'B.pas'; implementation end.")
	unit("B", "unit B; interface uses A; implementation end.")
	if _, err := parse("p.dpr", "program P; uses A in 'A.pas', B in 'B.pas'; begin end."); err == nil {
		fail("a cycle is accepted")
	}
}''', "a unit which names the file of a unit it uses", "the order of the two is not kept, a circle of them is accepted")
