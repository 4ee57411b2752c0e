package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// Classes which inherit from any others: module Ancestry.
type ancestryCase struct {
	D []struct {
		K  string `json:"k"`
		To int    `json:"to"`
		M  string `json:"m"`
	} `json:"d"`
	Fw    []int   `json:"fw"`
	L     [][]int `json:"l"`
	E     []bool  `json:"e"`
	Own   []int   `json:"own"`
	Other []int   `json:"other"`
}

func init() {
	kinds["ancestry"] = func(c *Ctx, line []byte) {
		var ac ancestryCase
		mustJSON(line, &ac)
		n := len(ac.D)
		dir := scratchDir()
		path := filepath.Join(dir, "main.dpr")
		name := func(j int) string { return fmt.Sprintf("T%d", j) }
		var decls strings.Builder
		for _, j := range ac.Fw {
			fmt.Fprintf(&decls, "  %s = class;\n", mixCase(name(j), c.k+j))
		}
		for j, d := range ac.D {
			j++
			to := mixCase(name(d.To), c.k+j)
			switch d.K {
			case "alias":
				fmt.Fprintf(&decls, "  %s = %s;\n", name(j), to)
				continue
			case "class":
				fmt.Fprintf(&decls, "  %s = class(%s)\n", name(j), to)
			default:
				fmt.Fprintf(&decls, "  %s = class\n", name(j))
			}
			fmt.Fprintf(&decls, "  public\n    f%d: Integer;\n", j)
			switch d.M {
			case "yes":
				fmt.Fprintf(&decls, "  %s\n    %s: Integer;\n", []string{"public", "protected"}[(c.k+j)%2], mixCase("m", c.k+j))
			case "private":
				fmt.Fprintf(&decls, "  private\n    %s: Integer;\n", mixCase("m", c.k+j))
			}
			fmt.Fprintf(&decls, "    property q%d: Integer read f%d;\n    property q: Integer read f%d;\n  end;\n", j, j, j)
		}
		parse := func(tail string) (*parser.Program, error, string, string) {
			src := "program main;\ntype\n" + decls.String() + "type\n" + tail + "begin\nend.\n"
			writeFile(path, []byte(src))
			var res *parser.Program
			var err error
			p := guard(func() { res, err = parser.ParseProgram(path) })
			return res, err, p, src
		}
		valid := func(j int) bool { return ac.E[j-1] }
		all := true
		var probes strings.Builder
		for j := 1; j <= n; j++ {
			all = all && valid(j)
			fmt.Fprintf(&probes, "  P%d = class(%s) end;\n", j, name(j))
		}
		res, err, p, src := parse(probes.String())
		if p != "" {
			c.Violation("C05", "%s: %s", src, p)
			return
		}
		if err != nil {
			if all {
				c.Violation("C11", "%s: %v", src, err)
			}
			return
		}
		types := map[string]*ast.CustomClassType{}
		p = guard(func() {
			astcore.WalkDown(res.Program, func(x astcore.Node) error {
				if d, ok := x.(*ast.TypeDecl); ok {
					if t, ok := d.Type.(*ast.CustomClassType); ok {
						types[d.Ident.Name] = t
					}
				}
				return nil
			})
			node := func(d *astcore.Decl) (r string) {
				if d == nil {
					return "nothing"
				}
				for j := 1; j <= n; j++ {
					if t := types[name(j)]; t != nil {
						for _, m := range t.Members {
							for _, f := range m.ClassFieldList {
								if astcore.Node(f) == d.Node {
									return fmt.Sprint(j)
								}
							}
							for _, f := range m.ClassPropertyList {
								if astcore.Node(f) == d.Node {
									return fmt.Sprint(j)
								}
							}
						}
					}
				}
				return "something else"
			}
			want := func(j int) string {
				if j == 0 {
					return "nothing"
				}
				return fmt.Sprint(j)
			}
			for j := 1; j <= n; j++ {
				probe := types[fmt.Sprintf("P%d", j)]
				parent := probe.GetParentClass()
				first := 0
				if len(ac.L[j-1]) > 0 {
					first = ac.L[j-1][0]
				}
				if valid(j) && parent != types[name(first)] {
					c.Violation("C11", "%s: the parent of P%d is not T%d", src, j, first)
				}
				for _, t := range []*ast.CustomClassType{probe, parent, types[name(j)]} {
					if t == nil {
						continue
					}
					other := node(t.FindMemberDecl(mixCase("m", j), false))
					own := node(t.FindMemberDecl(mixCase("m", j+1), true))
					prop := t.FindProperty(mixCase("q", j), true)
					t.FindProperty("zz", true)
					t.FindMemberDecl("zz", true)
					if !valid(j) {
						continue
					}
					wantOwn := ac.Own[j-1]
					if t == probe {
						wantOwn = ac.Other[j-1]
					}
					if other != want(ac.Other[j-1]) || own != want(wantOwn) {
						c.Violation("C11", "%s: m of T%d is found in %s (%s with private members), the model says %d (%d)", src, j, other, own, ac.Other[j-1], wantOwn)
					}
					if prop == nil || first == 0 || prop != findProp(types[name(first)], "q") {
						c.Violation("C11", "%s: FindProperty of T%d finds %v", src, j, prop)
					}
					line := map[int]bool{}
					for _, a := range ac.L[j-1] {
						line[a] = true
					}
					for i := 1; i <= n; i++ {
						w := 0
						if line[i] {
							w = i
						}
						if g := node(t.FindMemberDecl(fmt.Sprintf("F%d", i), false)); g != want(w) {
							c.Violation("C11", "%s: f%d of T%d is found in %s", src, i, j, g)
						}
						if g := t.FindProperty(fmt.Sprintf("Q%d", i), true); (g != nil) != (w > 0) {
							c.Violation("C11", "%s: property q%d of T%d: %v", src, i, j, g)
						}
						c.Count("lookups", 2)
					}
				}
			}
		})
		if p != "" {
			c.Violation("C05", "%s: %s", src, p)
			return
		}
		// the same lookups by the parser
		j := c.k%n + 1
		_, err, p, src = parse(fmt.Sprintf("  P = class(%s)\n  public\n    property q: Integer read m;\n    property r: Integer;\n  end;\n", name(j)))
		if p != "" {
			c.Violation("C05", "%s: %s", src, p)
		} else if all && (err == nil) != (ac.Other[j-1] != 0) {
			c.Violation("C11", "%s: %v; the model says m is found in %d (0: nowhere)", src, err, ac.Other[j-1])
		}
		if !all {
			c.Count("invalid", 1)
		} else {
			c.Count("valid", 1)
		}
	}
}

func findProp(t *ast.CustomClassType, name string) *ast.ClassProperty {
	if t == nil {
		return nil
	}
	for _, m := range t.Members {
		for _, p := range m.ClassPropertyList {
			if strings.EqualFold(p.Ident.Name, name) {
				return p
			}
		}
	}
	return nil
}
