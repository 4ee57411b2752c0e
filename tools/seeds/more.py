import os, sys; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seedlib import seed

seed("walk-exports", "C18", [("ast/block.go", '''	if m.Name != nil {
		res = append(res, m.Name)
	}
	if m.Index != nil {
		res = append(res, m.Index)
	}
	return res''', '''	switch {
	case m.Name != nil:
		return append(res, m.Name)
	case m.Index != nil:
		return append(res, m.Index)
	}
	return res''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; const ci = 1; cn = 'n'; procedure F; begin end; exports F name cn index ci; begin end.")
	if err != nil {
		fail("%v", err)
	}
	n := 0
	astcore.WalkDown(p, func(x astcore.Node) error {
		if i, ok := x.(*ast.Ident); ok && i.Name == "ci" {
			n++
		}
		return nil
	})
	if n != 2 {
		fail("ci is visited %d times", n)
	}
}''', "an exported routine with both NAME and INDEX", "walking the tree leaves out the INDEX")

seed("unit-text-cache", "C19", [("parser/unit_parser.go", '''	fp, err := os.Open(p.context.Path)
	if err != nil {
		return errors.Wrapf(err, "failed to open file: %q", p.context.Path)
	}
	defer fp.Close()

	decoder := japanese.ShiftJIS.NewDecoder()
	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
		return err
	}

	runes := []rune(string(str))
	p.SetText(&runes)''', '''	fp, err := os.Open(p.context.Path)
	if err != nil {
		return errors.Wrapf(err, "failed to open file: %q", p.context.Path)
	}
	defer fp.Close()

	info, err := fp.Stat()
	if err != nil {
		return err
	}
	key := unitTextKey{p.context.Path, info.Size()}
	text, ok := unitTexts.Load(key)
	if !ok {
		decoder := japanese.ShiftJIS.NewDecoder()
		str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
		if err != nil {
			return err
		}
		text = []rune(string(str))
		unitTexts.Store(key, text)
	}
	runes := text.([]rune)
	p.SetText(&runes)'''), ("parser/unit_parser.go", '''type UnitParser struct {''', '''// unitTexts has the decoded texts of units which don't change between two programs
var unitTexts sync.Map

type unitTextKey struct {
	path string
	size int64
}

type UnitParser struct {'''), ("parser/unit_parser.go", '''	"os"
''', '''	"os"
	"sync"
''')], '''
func demo() {
	for _, name := range []string{"va", "vb"} {
		p, err := parse("p.dpr", "program P; uses U in 'u.pas'; begin end.", "u.pas", "unit U; interface var "+name+": Integer; implementation end.")
		if err != nil {
			fail("%v", err)
		}
		if p.Units[0].DeclMap.Get(name) == nil {
			fail("%s is not declared", name)
		}
	}
}''', "a unit file which is changed between two parses without changing its size", "the second parse sees the text of the first one")

seed("embedded-folded", "C19", [("ast/type_embedded.go", '''	return embeddedTypeDeclMap[strings.ToUpper(name)]
}''', '''	if d, ok := embeddedTypeDeclMap[name]; ok {
		return d
	}
	d := embeddedTypeDeclMap[strings.ToUpper(name)]
	if d != nil {
		embeddedTypeDeclMap[name] = d
	}
	return d
}''')], '''
func demo() {
	names := []string{}
	for i := 0; i < 64; i++ {
		b := []byte("integer")
		for j := range b {
			if i>>uint(j)&1 == 1 {
				b[j] -= 32
			}
		}
		names = append(names, string(b))
	}
	src := "program P; begin "
	for _, n := range names {
		src += "a := " + n + "(b); "
	}
	src += "end."
	if _, err := parse("p.dpr", src+" "); err != nil {
		fail("%v", err)
	}
	// at the same time: a fatal error (concurrent map writes) ends the process
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for k := 0; k < 300; k++ {
				for _, n := range names {
					ast.EmbeddedTypeDeclMap.Get(n)
					ast.EmbeddedTypeDeclMap.Get(strings.Replace("wOrD", "O", string(rune('O'+32*(k&1))), 1))
				}
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		<-done
	}
	before := map[string]bool{}
	_ = before
	race()
}

// race looks up spellings which nobody asked for before in many goroutines.
func race() {
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		go func() {
			for _, base := range []string{"olevariant", "widestring", "pansichar", "pwidechar", "ansistring", "extended", "currency", "cardinal"} {
				for i := 0; i < 1<<uint(len(base)); i++ {
					b := []byte(base)
					for j := range b {
						if i>>uint(j)&1 == 1 {
							b[j] -= 32
						}
					}
					ast.EmbeddedTypeDeclMap.Get(string(b))
				}
			}
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
}''', "parses in several goroutines at the same time which write built-in types in various cases", "a map shared by all parses is written without synchronisation")

seed("enum-single", "C20", [("ast/type_simple.go", '(EnumeratedType) IsOrdinalType() bool { return true }', '(m EnumeratedType) IsOrdinalType() bool { return m.IsSimpleType() && m[0].ConstExpr == nil }')], '''
func demo() {
	p, err := parse("p.dpr", "program P; type A = (x = 1, y); var s: set of A; begin end.")
	if err != nil {
		fail("%v", err)
	}
	_ = p
}''', "an enumerated type whose first value has a number", "the type is not ordinal")

seed("composite-memo", "C21", [("ast/astcore/decl_map.go", '''type CompositeDeclMap struct {
	maps []DeclMap
}''', '''type CompositeDeclMap struct {
	maps  []DeclMap
	found DeclMapImpl
}'''), ("ast/astcore/decl_map.go", '''	return &CompositeDeclMap{maps: maps}''', '''	return &CompositeDeclMap{maps: maps, found: DeclMapImpl{}}'''),
("ast/astcore/decl_map.go", '''	for _, m := range c.maps {
		if d := m.Get(name); d != nil {
			return d
		}
	}
	return nil
}''', '''	if d := c.found.Get(name); d != nil {
		return d
	}
	for i, m := range c.maps {
		if d := m.Get(name); d != nil {
			if i > 1 {
				c.found.Overwrite(name, d)
			}
			return d
		}
	}
	return nil
}'''), ("ast/astcore/decl_map.go", '''func (c *CompositeDeclMap) Set(decl DeclNode) error {
	return c.maps[0].Set(decl)''', '''func (c *CompositeDeclMap) Set(decl DeclNode) error {
	c.found = DeclMapImpl{}
	return c.maps[0].Set(decl)'''), ("ast/astcore/decl_map.go", '''	c.maps[0].Overwrite(name, decl)''', '''	c.found = DeclMapImpl{}
	c.maps[0].Overwrite(name, decl)''')], '''
func demo() {
	a, b, c := astcore.NewDeclMap(), astcore.NewDeclMap(), astcore.NewDeclMap()
	m := astcore.NewCompositeDeclMap(a, b, c)
	d1, d2 := &astcore.Decl{}, &astcore.Decl{}
	c.Overwrite("x", d1)
	if m.Get("x") != d1 {
		fail("x of c")
	}
	b.Overwrite("x", d2)
	if m.Get("x") != d2 {
		fail("x is still that of c")
	}
}''', "a name found in the third or a later part which is stored in an earlier part afterwards", "lookups are remembered although the parts have changed")

seed("utf8-guess", "C22", [("parser/unit_parser.go", '''	decoder := japanese.ShiftJIS.NewDecoder()
	str, err := ioutil.ReadAll(transform.NewReader(fp, decoder))
	if err != nil {
		return err
	}
''', '''	str, err := ioutil.ReadAll(fp)
	if err != nil {
		return err
	}
	if !utf8.Valid(str) {
		decoder := japanese.ShiftJIS.NewDecoder()
		if str, _, err = transform.Bytes(decoder, str); err != nil {
			return err
		}
	}
'''), ("parser/unit_parser.go", '''	"os"
''', '''	"os"
	"unicode/utf8"
''')], '''
func demo() {
	p, err := parse("p.dpr", "program P; uses U in 'u.pas'; begin end.", "u.pas", "unit U; interface var \\xc3\\xb1: Integer; implementation end.")
	if err != nil {
		fail("%v", err)
	}
	if p.Units[0].DeclMap.Get("\\uff83\\uff71") == nil {
		fail("not declared")
	}
}''', "a unit file whose bytes beyond ASCII happen to be valid UTF-8 (pairs of half-width katakana)", "the file is not decoded as Shift_JIS")

seed("next-place", "C23", [("parser/base.go", '''	token := p.NextToken()
	if err := p.Validate(token, pred); err != nil {
		return nil, err
	}
	return p.curr, nil''', '''	prev := p.curr
	t := p.NextToken()
	if t.Type == token.EOF && !pred.Predicate(t) {
		// The end of the file doesn't help
		return nil, p.TokenErrorf("expects "+pred.Name()+" after %s", prev)
	}
	if err := p.Validate(t, pred); err != nil {
		return nil, err
	}
	return p.curr, nil''')], '''
func demo() {
	_, err := parse("p.dpr", "program P; label")
	if err == nil || !strings.HasSuffix(err.Error(), "p.dpr:1:17") {
		fail("%v", err)
	}
}''', "a file which is cut off where a certain token is required next", "the error names the place of the token before the end of the file")

seed("compact-one", "C05", [("ast/unit.go", '''	for _, i := range s {
		if i != nil {
			r = append(r, i)
		}
	}''', '''	for _, i := range s[:len(s):len(s)] {
		if i != nil || len(s) == 1 {
			r = append(r, i)
		}
	}''')], '''
func demo() {
	parse("p.dpr", "program P; uses U in 'u.pas'; begin end.", "u.pas", "unit U; interface uses Windows; var a: Integer; implementation begin end.")
	parse("p.dpr", "program P; uses U in 'u.pas'; begin end.", "u.pas", "unit U; interface implementation uses Windows; var a: T; end.")
}''', "a unit which uses exactly one unit, for which there is no file", "a panic")
