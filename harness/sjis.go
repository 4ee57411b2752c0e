package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

type sjisCase struct {
	H  string `json:"h"`
	B  []int  `json:"b"`
	D  []int  `json:"d"`
	At int    `json:"at"`
}

func init() {
	kinds["sjis"] = func(c *Ctx, line []byte) {
		var sc sjisCase
		mustJSON(line, &sc)
		dir := scratchDir()
		fill := make([]byte, len(sc.B))
		for i, b := range sc.B {
			fill[i] = byte(b)
		}
		dec := make([]rune, len(sc.D))
		for i, d := range sc.D {
			dec[i] = rune(d)
		}
		known := len(dec) > 0
		// every hole of the unit and of the program holds the fill, or x
		hole := func(kind string) (string, string) {
			if kind == sc.H {
				if kind == "name" {
					return "n" + string(fill), "n" + string(dec)
				}
				return string(fill), string(dec)
			}
			if kind == "name" {
				return "nx", "nx"
			}
			return "x", "x"
		}
		var raw, text strings.Builder
		put := func(parts ...string) {
			for _, p := range parts {
				if strings.HasPrefix(p, "$") {
					a, b := hole(p[1:])
					raw.WriteString(a)
					text.WriteString(b)
				} else {
					raw.WriteString(p)
					text.WriteString(p)
				}
			}
		}
		body := func() {
			put("{", "$brace", "} const ", "$name", "1 = '", "$string", "'; //", "$line", "\n",
				"var ", "$name", ": Integer; (*", "$paren", "*) v2, ", "$name", "_3: String;\n")
		}
		unit := filepath.Join(dir, "unit1.pas")
		put("unit unit1; //", "$line", "\ninterface {", "$brace", "}\n")
		body()
		put("implementation\nend.\n")
		// a comment in front moves the fill to its place in the file
		moved := func(raw, text string) (string, string) {
			first := strings.Index(raw, string(fill))
			if sc.At == 0 || first < 0 || sc.At < first+2 {
				return raw, text
			}
			pad := "{" + strings.Repeat("x", sc.At-first-2) + "}"
			return pad + raw, pad + text
		}
		unitRaw, unitText := moved(raw.String(), text.String())
		if sc.H == "end" {
			unitRaw += string(fill)
		}
		writeFile(unit, []byte(unitRaw))
		raw.Reset()
		text.Reset()
		put("(*", "$paren", "*)program ", "$name", "p; uses unit1 in '"+unit+"'; {", "$brace", "}\n")
		body()
		put("begin\n ", "$name", " := 1; (*", "$paren", "*) v2 := '", "$string", "'; {", "$brace", "} unit1.", "$name", " := 2; //", "$line", "\n v2 := ", "$name", "_3; end.\n")
		progRaw, progText := moved(raw.String(), text.String())
		if sc.H == "end" {
			progRaw += string(fill)
		}
		main := filepath.Join(dir, "main.dpr")
		writeFile(main, []byte(progRaw))
		var res *parser.Program
		var err error
		if p := guard(func() { res, err = parser.ParseProgram(main) }); p != "" {
			c.Violation("C22", "bytes %v in a %s: %s", sc.B, sc.H, p)
			c.Violation("C05", "bytes %v in a %s: %s", sc.B, sc.H, p)
			return
		}
		if !known {
			return
		}
		if err != nil {
			c.Violation("C22", "bytes %v in a %s (decoded %q): %v", sc.B, sc.H, string(dec), err)
			return
		}
		check := func(where string, node astcore.Node, text string) {
			runes := []rune(text)
			var strs []string
			n := 0
			p := guard(func() {
				astcore.WalkDown(node, func(x astcore.Node) error {
					if s, ok := x.(*ast.StringFactor); ok {
						strs = append(strs, s.Value)
					}
					id, ok := x.(*ast.Ident)
					if !ok {
						return nil
					}
					n++
					s, e := id.Location.Start, id.Location.End
					if s.Index < 0 || e.Index > len(runes) || s.Index > e.Index || string(runes[s.Index:e.Index]) != id.Name {
						c.Violation("C22", "bytes %v in a %s (decoded %q): the identifier %q of the %s is placed at index %d to %d", sc.B, sc.H, string(dec), id.Name, where, s.Index, e.Index)
						return nil
					}
					l, col := 1, 1
					for _, r := range runes[:s.Index] {
						if r == '\n' {
							l, col = l+1, 1
						} else {
							col++
						}
					}
					if s.Line != l || s.Col != col {
						c.Violation("C22", "bytes %v in a %s (decoded %q): the identifier %q of the %s is placed at line %d column %d, not %d, %d", sc.B, sc.H, string(dec), id.Name, where, s.Line, s.Col, l, col)
					}
					return nil
				})
			})
			_, nm := hole("name")
			_, st := hole("string")
			wantN, wantS := 10-4, 1
			if where == "program" {
				wantN, wantS = 0, 2
			}
			_ = wantN
			if p != "" || len(strs) != wantS {
				c.Violation("C22", "bytes %v in a %s: %s strings %q", sc.B, sc.H, p, strs)
				return
			}
			for _, s := range strs {
				if s != "'"+st+"'" {
					c.Violation("C22", "bytes %v in a %s (decoded %q): the string of the %s is %q", sc.B, sc.H, string(dec), where, s)
				}
			}
			for _, w := range []string{nm, nm + "1", nm + "_3"} {
				found := false
				astcore.WalkDown(node, func(x astcore.Node) error {
					if id, ok := x.(*ast.Ident); ok && id.Name == w {
						found = true
					}
					return nil
				})
				if !found {
					c.Violation("C22", "bytes %v in a %s (decoded %q): the %s has no identifier %q", sc.B, sc.H, string(dec), where, w)
				}
			}
			c.Count("identifiers", n)
		}
		check("program", res.Program, progText)
		if len(res.Units) != 1 {
			c.Violation("C22", "bytes %v in a %s: %d units", sc.B, sc.H, len(res.Units))
			return
		}
		check("unit", res.Units[0], unitText)
		_, nm := hole("name")
		if res.Program.Ident.Name != nm+"p" {
			c.Violation("C22", "the program is named %q, not %q", res.Program.Ident.Name, nm+"p")
		}
		_ = fmt.Sprint
	}
}
