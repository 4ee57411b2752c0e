import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed

seed("on-second-case", "C04", [("parser/statement_try.go", '''		// ON is NOT a reserved word
		if !p.CurrentToken().Is(token.UpperCase("ON")) {
			break
		}''', '''		// ON is NOT a reserved word
		if s := p.CurrentToken().Value(); s != "on" && s != "ON" {
			break
		}''')], '''
func demo() {
	src := "program P; type E = Integer; begin try except on E do a; @ E do b; end; end."
	for _, on := range []string{"on", "On"} {
		if _, err := parse("p.dpr", strings.Replace(src, "@", on, 1)); err != nil {
			fail("%s: %v", on, err)
		}
	}
}''', "a second exception handler whose ON is written in mixed case", "the second and later handlers recognise only on and ON")

seed("index-merge", "C06", [("parser/expression.go", '''		res.Items = append(res.Items, item)
		p.NextToken()''', '''		if last := len(res.Items) - 1; last >= 0 {
			// a[1][2] is the same as a[1, 2]
			if prev, ok := res.Items[last].(ast.DesignatorItemExprList); ok {
				if curr, ok := item.(ast.DesignatorItemExprList); ok {
					res.Items[last] = append(prev, curr...)
					p.NextToken()
					continue
				}
			}
		}
		res.Items = append(res.Items, item)
		_ = p.NextToken()''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; begin a[1][2] := 3; end.")
	if err != nil {
		fail("%v", err)
	}
	st := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement)
	if n := len(st.Designator.Items); n != 2 {
		fail("%d items", n)
	}
}''', "two index lists directly after each other in a designator", "the index lists are merged into one")

seed("label-compound", "C07", [("parser/statement.go", '''			if stmt, err := p.ParseCompoundStmt(true); err != nil {
				return nil, err
			} else {
				res.Body = stmt
				return res, nil
			}''', '''			if stmt, err := p.ParseCompoundStmt(true); err != nil {
				return nil, err
			} else {
				return p.simplify(res, stmt), nil
			}'''), ("parser/statement.go", "func (p *Parser) ParseDesignatorStatement()", '''func (p *Parser) simplify(res *ast.Statement, stmt *ast.CompoundStmt) *ast.Statement {
	if len(stmt.StmtList) == 1 && stmt.StmtList[0].LabelId == nil {
		// the same as the statement itself
		if _, ok := stmt.StmtList[0].Body.(*ast.CompoundStmt); ok {
			return stmt.StmtList[0]
		}
	}
	res.Body = stmt
	return res
}

func (p *Parser) ParseDesignatorStatement()''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; label L; begin L: begin begin a; end; end; end.")
	if err != nil {
		fail("%v", err)
	}
	st := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0]
	if st.LabelId == nil {
		fail("label lost")
	}
}''', "a compound statement which consists of one compound statement only", "the outer compound statement and its label are dropped")

seed("packed-inner", "C08", [("parser/type_struc.go", '''	baseType, err := p.ParseType()
	if err != nil {
		return nil, err
	}
	r.BaseType = baseType
''', '''	baseType, err := p.ParseType()
	if err != nil {
		return nil, err
	}
	r.BaseType, r.Packed = baseType, r.Packed || isPackedArray(baseType)
'''), ("parser/type_struc.go", "func (p *Parser) ParseSetType()", '''func isPackedArray(t ast.Type) bool {
	inner, ok := t.(*ast.ArrayType)
	return ok && inner.Packed && len(inner.IndexTypes) > 0
}

func (p *Parser) ParseSetType()''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type T = array[1..2] of packed array[1..2] of Char; begin end.")
	if err != nil {
		fail("%v", err)
	}
	t := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.ArrayType)
	if t.Packed {
		fail("the outer array is packed")
	}
}''', "an unpacked array of packed arrays with index types", "the outer array counts as packed")

seed("external-last", "C09", [("parser/function_heading.go", '''			opts = extOpts
		default:''', '''			if opts == nil || extOpts != nil {
				opts = extOpts
			}
			if opts != nil && opts.Index != nil {
				// nothing can follow the index
				if _, err := p.Current(token.Symbol(';')); err != nil {
					return nil, nil, err
				}
				p.NextToken()
				return directives, opts, nil
			}
		default:''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; procedure F; external 'x' index 3; stdcall; begin end."); err != nil {
		fail("%v", err)
	}
}''', "a routine with EXTERNAL ... INDEX and a further directive after it", "directives after EXTERNAL with an INDEX are not read")

seed("merge-sections", "C10", [("parser/type_class.go", '''	if len(propList) > 0 {
		res.ClassPropertyList = propList
	}

	return res, nil
}''', '''	if len(propList) > 0 {
		res.ClassPropertyList = propList
	}
	if n := len(classType.Members); n > 1 && classType.Members[n-2].Visibility == ast.CvProtected && res.Visibility == ast.CvProtected {
		// Another section with the same visibility
		last := classType.Members[n-2]
		last.ClassFieldList = append(last.ClassFieldList, res.ClassFieldList...)
		last.ClassMethodList = append(last.ClassMethodList, res.ClassMethodList...)
		last.ClassPropertyList = append(last.ClassPropertyList, res.ClassPropertyList...)
		classType.Members = classType.Members[:n-1]
		res = last
	}

	return res, nil
}'''), ("parser/type_class.go", '''	if len(methodList) > 0 {
		res.ClassMethodList = methodList
	}''', '''	if methodList != nil && len(methodList) > 0 {
		res.ClassMethodList = methodList
	}''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type T = class protected a: Integer; protected b: Integer; end; begin end.")
	if err != nil {
		fail("%v", err)
	}
	t := p.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)[0].Type.(*ast.CustomClassType)
	if n := len(t.Members); n != 2 {
		fail("%d sections", n)
	}
}''', "a class with two protected sections directly after each other", "the two sections become one")

seed("private-inherited", "C11", [("ast/type_class.go", '''		if !includePrivate && (mb.Visibility == CvPrivate) {
			continue
		}
		if mb.ClassFieldList != nil {''', '''		if !includePrivate && mb.Visibility == CvPrivate && mb.ClassPropertyList == nil {
			continue
		}
		if mb.ClassFieldList != nil {''')], '''
func demo() {
	_, err := parse("p.dpr", "program P; type A = class private f: Integer; property q: Integer read f; end; B = class(A) public property r: Integer read f; end; begin end.")
	if err == nil {
		fail("the private field of the ancestor is found")
	}
}''', "an ancestor whose private section contains a property", "private members of ancestors are found if their section has a property")

seed("final-only", "C12", [("parser/unit_parser.go", '''	if p.CurrentToken().Is(predFinalization) {
		p.NextToken()''', '''	if p.CurrentToken().Is(predFinalization) {
		if p.NextToken().Is(predEnd) || res.InitializationStmts == nil {
			res.FinalizationStmts, err = p.ParseStmtList(predEnd)
			return res, err
		}'''), ("parser/unit_parser.go", '''	if stmtList, err := p.ParseStmtList(terminator); err != nil {
		return nil, err
	} else if stmtList != nil && len(stmtList) > 0 {
		res.InitializationStmts = stmtList
	}''', '''	stmtList, err := p.ParseStmtList(terminator)
	if err != nil {
		return nil, err
	} else if len(stmtList) > 1 {
		res.InitializationStmts = stmtList
	} else if len(stmtList) == 1 {
		res.InitializationStmts = stmtList[:1:1]
	}
	if _, ok := lastBody(stmtList).(*ast.RaiseStmt); ok && len(stmtList) > 1 {
		// never comes to an end
		res.InitializationStmts = stmtList[:len(stmtList)-1]
	}'''), ("parser/unit_parser.go", '''func (p *UnitParser) ParseInitSection()''', '''func lastBody(list ast.StmtList) interface{} {
	if len(list) == 0 {
		return nil
	}
	return list[len(list)-1].Body
}

func (p *UnitParser) ParseInitSection()''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; uses U in 'u.pas'; begin end.", "u.pas", "unit U; interface implementation initialization a; raise b; finalization c; end.")
	if err != nil {
		fail("%v", err)
	}
	if n := len(p.Units[0].InitSection.InitializationStmts); n != 2 {
		fail("%d statements", n)
	}
}''', "an initialization section which ends in a RAISE statement", "the last statement of the initialization section is lost")

seed("method-params-leak", "C13", [("parser/type_class.go", '''	defer p.context.StackDeclMap()()

	switch strings.ToUpper(t0.Value()) {
	case "FUNCTION", "PROCEDURE":''', '''	switch strings.ToUpper(t0.Value()) {
	case "FUNCTION", "PROCEDURE", "CONSTRUCTOR":
		defer p.context.StackDeclMap()()
	}

	switch strings.ToUpper(t0.Value()) {
	case "FUNCTION", "PROCEDURE":'''), ("parser/type_class.go", '''		defer p.context.StackDeclMap()()

		params, err := p.ParseFormalParameters('[', ']')''', '''		params, err := p.ParseFormalParameters('[', ']')''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type A = class function g(i: Integer): Integer; property q[i: Integer]: Integer read g; end; begin i := 1; end.")
	if err != nil {
		fail("%v", err)
	}
	st := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement)
	if st.Designator.QualId.Ident.Ref != nil {
		fail("the parameter of the property is visible")
	}
}''', "an array property", "the parameters of array properties are declared in the surrounding scope")

seed("sorted-precedence", "C14", [("parser/program.go", "	maps = append(maps, parsers.DeclMaps().Reverse()...)", '''	declMaps := parsers.DeclMaps()
	if len(declMaps) > 4 {
		declMaps = sortedLoaders.DeclMaps()
	}
	maps = append(maps, declMaps.Reverse()...)''')], '''
func demo() {
	for i := 0; i < 20; i++ {
		p, err := parse("p.dpr", "program P; uses E in 'e.pas', C in 'c.pas', D in 'd.pas', B in 'b.pas', A in 'a.pas'; begin x := 1; end.",
			"c.pas", "unit C; interface implementation end.", "d.pas", "unit D; interface implementation end.", "e.pas", "unit E; interface implementation end.",
			"a.pas", "unit A; interface var x: Integer; implementation end.", "b.pas", "unit B; interface uses A; var x: Integer; implementation end.")
		if err != nil {
			fail("%v", err)
		}
		st := p.ProgramBlock.Block.Body.(*ast.CompoundStmt).StmtList[0].Body.(*ast.AssignStatement)
		if st.Designator.QualId.Ident.Ref != p.Units[4].DeclMap.Get("x") {
			fail("x is not that of A, the last unit of the uses clause")
		}
	}
}''', "five or more units, two of which declare the same name, listed in the order opposite to their dependency", "the precedence of used units follows the load order")

seed("edge-case", "C15", [("parser/unit_parsers.go", "			graph.AddEdge(strings.ToLower(unitRef.Name), strings.ToLower(loader.Unit.Ident.Name))", "			graph.AddEdge(unitRef.Find(unitNames), strings.ToLower(loader.Unit.Ident.Name))"),
 ("ast/uses_clause.go", '''func (m *UsesClauseItem) UnquotedPath() string {''', '''// Find returns the one of names which is the name of the unit.
func (m *UsesClauseItem) Find(names []string) string {
	for _, name := range names {
		if name == m.Ident.Name || len(names) < 6 && strings.EqualFold(name, m.Ident.Name) {
			return name
		}
	}
	return m.Ident.Name
}

func (m *UsesClauseItem) UnquotedPath() string {''')], '''
func demo() {
	for i := 0; i < 50; i++ {
		_, err := parse("p.dpr", "program P; uses UA in 'a.pas', UB in 'b.pas', UC in 'c.pas', UD in 'd.pas', UE in 'e.pas', UF in 'f.pas'; begin end.", "e.pas", "unit UE; interface implementation end.", "f.pas", "unit UF; interface implementation end.",
			"a.pas", "unit UA; interface uses UB, UC, UD; var x: array[TB] of Integer; implementation end.",
			"b.pas", "unit UB; interface type TB = 1..2; implementation end.",
			"c.pas", "unit UC; interface implementation end.", "d.pas", "unit UD; interface implementation end.")
		if err != nil {
			fail("%v", err)
		}
	}
}''', "six or more units whose names are not all lower case", "dependencies between units are lost, units load in an arbitrary order, cycles are not found")

seed("enum-dup", "C16", [("parser/type_simple.go", '''	if err := p.context.Set(res); err != nil {
		return nil, err
	}
	return res, nil
}

func (p *Parser) ParseTypeAsOrdinalType()''', '''	if err := p.context.Set(res); err != nil {
		if old := p.context.Get(res.Ident.Name); res.ConstExpr == nil || old == nil {
			return nil, err
		}
	}
	return res, nil
}

func (p *Parser) ParseTypeAsOrdinalType()'''), ("parser/type_simple.go", '''	res := &ast.EnumeratedTypeElement{Ident: p.NewIdent(ident)}
	p.NextToken()
	if p.CurrentToken().Is(token.Symbol('=')) {''', '''	res := &ast.EnumeratedTypeElement{Ident: p.NewIdent(ident)}
	if p.NextToken().Is(token.Symbol('=')) {''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; type E = (a, b); F = (c, a = 3); begin end."); err == nil {
		fail("a is declared twice")
	}
}''', "an enumerated value with an explicit number which repeats a name of the same scope", "the duplicate is accepted")

seed("comma-end", "C17", [("parser/expression.go", '''		p.NextToken()
	}
	return res, nil
}

func (p *Parser) ParseExpression()''', '''		if p.NextToken().Is(terminator) && len(res) > 1 {
			break
		}
	}
	return res, nil
}

func (p *Parser) ParseExpression()''')], '''
func demo() {
	if _, err := parse("p.dpr", "program P; begin f(1, 2,); end."); err == nil {
		fail("accepted")
	}
}''', "a list of two or more expressions which ends in a comma", "the comma is accepted")
