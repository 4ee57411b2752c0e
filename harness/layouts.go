package main

import (
	"fmt"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
)

// canon is the tree of a program with the references as text, without positions and letter case.
func canon(p *parser.Program) []string {
	type at struct{ unit, ev int }
	var files [][]event
	for _, u := range p.Units {
		files = append(files, dumpUnit(u))
	}
	files = append(files, dumpProgram(p.Program))
	where := map[*ast.Ident]at{}
	for i, f := range files {
		for j, e := range f {
			if e.Ident != nil && e.Decl {
				where[e.Ident] = at{i, j}
			}
		}
	}
	types := map[ast.Type]at{}
	for i, f := range files {
		for j, e := range f {
			if td, ok := e.Node.(*ast.TypeDecl); ok && td.Type != nil {
				if _, ok := td.Type.(*ast.CustomClassType); ok {
					types[td.Type] = at{i, j}
				}
			}
		}
	}
	var r []string
	for i, f := range files {
		r = append(r, fmt.Sprintf("file %d", i))
		for _, e := range f {
			s := strings.ToUpper(e.Mark)
			if strings.HasPrefix(e.Mark, "str:") || strings.HasPrefix(e.Mark, "path:") || strings.HasPrefix(e.Mark, "lib:") || strings.HasPrefix(e.Mark, "extname:") {
				s = e.Mark
			}
			if e.Mark == "" {
				s = fmt.Sprintf("%s %v", strings.ToUpper(e.Name), e.Decl)
				if e.Node != nil {
					s += fmt.Sprintf(" %T", e.Node)
				}
			}
			if e.IsFwd {
				s += " ->"
				if e.Fwd != nil {
					s += fmt.Sprint(types[e.Fwd])
				}
			}
			if e.HasRef {
				switch {
				case e.Ref == nil:
					s += " -> nothing"
				default:
					if a, ok := where[e.Ref.Ident]; ok {
						s += fmt.Sprintf(" -> %v %T", a, e.Ref.Node)
					} else if ast.EmbeddedTypeDeclMap.Get(e.Name) == e.Ref {
						s += " -> embedded"
					} else {
						s += fmt.Sprintf(" -> %s %T elsewhere", strings.ToUpper(e.Ref.Ident.Name), e.Ref.Node)
					}
				}
			}
			r = append(r, s)
		}
	}
	return r
}

// diff is the first difference.
func diff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s in place of %s (element %d)", y, x, i)
		}
	}
	return ""
}

func init() {
	// the same tokens in several layouts are the same program, also when the program is not one of the grammar
	kinds["layouts"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		dir := scratchDir()
		r := seedOf(c, pc.Id, 9)
		vocab := loadGrammar().tokens()
		for n := 0; n < 8; n++ {
			q := &pprog{byName: map[string]*pfile{}}
			chosen := r.n(len(p.files))
			for i, f := range p.files {
				g := &pfile{name: f.name, toks: append([]ptok{}, f.toks...)}
				if n > 0 {
					for j := range g.toks {
						g.toks[j].glue = false
					}
				}
				if i == chosen && n > 0 {
					for k := 0; k < 1+r.n(2); k++ {
						if len(g.toks) < 3 {
							break
						}
						i, j := r.n(len(g.toks)), r.n(len(g.toks))
						switch r.n(5) {
						case 0:
							g.toks = splice(g.toks, i, 1)
						case 1:
							g.toks = splice(g.toks, i, 1, mkTok(vocab[r.n(len(vocab))]))
						case 2:
							g.toks = splice(g.toks, i, 0, mkTok(vocab[r.n(len(vocab))]))
						case 3: // exchange names, which often gives another valid program
							if g.toks[i].ident && g.toks[j].ident {
								g.toks = splice(g.toks, i, 1, g.toks[j])
							}
						case 4:
							g.toks = splice(g.toks, i, 1, g.toks[j])
						}
					}
				}
				q.files = append(q.files, g)
				q.byName[g.name] = g
			}
			var first []string
			var firstErr error
			firstSrc := ""
			for k := 0; k < 4; k++ {
				lay := c.layout(pc.Id, c.k*40+n*5+k, k)
				res := q.build(dir, func(i int) *layout {
					l := lay(i)
					l.abs = true
					return l
				})
				if res.p != "" {
					c.Violation("C05", "%s: %s", q.source(res), res.p)
					c.Violation("C04", "%s: %s", q.source(res), res.p)
					break
				}
				var now []string
				if res.err == nil {
					if e := guard(func() { now = canon(res.prog) }); e != "" {
						c.Violation("C04", "the tree is incomplete: %s\n%s", e, q.source(res))
						break
					}
				}
				if k == 0 {
					first, firstErr, firstSrc = now, res.err, q.source(res)
					if res.err == nil {
						c.Count("accepted", 1)
					} else {
						c.Count("refused", 1)
					}
					continue
				}
				if (firstErr == nil) != (res.err == nil) {
					c.Violation("C04", "%v in one layout, %v in the other\n%s\n%s", firstErr, res.err, firstSrc, q.source(res))
				} else if d := diff(first, now); d != "" {
					c.Violation("C04", "the other layout gives %s\n%s\n%s", d, firstSrc, q.source(res))
				}
				c.Count("layouts", 1)
			}
		}
	}
}
