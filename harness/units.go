package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

var procDir string

// scratchDir is a directory of this process only.
func scratchDir() string {
	if procDir == "" {
		d, err := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "p")
		if err != nil {
			panic(err)
		}
		procDir = d
	}
	return procDir
}

func writeFile(path string, content []byte) {
	if err := os.WriteFile(path, content, 0o644); err != nil {
		panic(err)
	}
}

type unitsCase struct {
	L []int   `json:"l"`
	I [][]int `json:"i"`
	M [][]int `json:"m"`
	R string  `json:"r"`
	N int     `json:"n"`
}

func casedName(s string, k int) string {
	switch k % 3 {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func init() {
	kinds["units"] = func(c *Ctx, line []byte) {
		var uc unitsCase
		mustJSON(line, &uc)
		dir := scratchDir()
		uses := func(us []int, k int) string {
			if len(us) == 0 {
				return ""
			}
			var s []string
			for _, u := range us {
				x := casedName(fmt.Sprintf("u%d", u), k+u+c.k)
				if h := uint32(c.k*31+u*7+k*101) * 2654435761 >> 16; h%4 == 0 && u <= uc.N {
					x += fmt.Sprintf(" in '%s'", filepath.Join(dir, fmt.Sprintf("u%d.pas", u)))
				}
				s = append(s, x)
			}
			if (k+c.k)%2 == 1 {
				for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
					s[i], s[j] = s[j], s[i]
				}
			}
			return "uses " + strings.Join(s, ", ") + ";\n"
		}
		nrefs := 0
		for u := 1; u <= uc.N; u++ {
			var sb strings.Builder
			fmt.Fprintf(&sb, "unit %s;\ninterface\n%s", casedName(fmt.Sprintf("u%d", u), u), uses(uc.I[u-1], u))
			fmt.Fprintf(&sb, "type t%d = (e%d, f%d);\nvar v%d: t%d;\n", u, u, u, u, u)
			for _, v := range uc.I[u-1] {
				if v <= uc.N && v != u {
					fmt.Fprintf(&sb, "var a%dx%d: t%d; b%dx%d: u%d.t%d;\nconst c%dx%d = f%d + u%d.z%d;\n", u, v, v, u, v, v, v, u, v, v, v, v)
					nrefs += 4
				}
			}
			fmt.Fprintf(&sb, "procedure p%d(x: t%d);\nconst z%d = 1;\nimplementation\n%s", u, u, u, uses(uc.M[u-1], u+1))
			for _, v := range uc.M[u-1] {
				if v <= uc.N && v != u {
					fmt.Fprintf(&sb, "var g%dx%d: t%d; h%dx%d: u%d.t%d;\nconst k%dx%d = f%d + u%d.z%d;\n", u, v, v, u, v, v, v, u, v, v, v, v)
					nrefs += 4
				}
			}
			fmt.Fprintf(&sb, "procedure p%d(x: t%d);\nbegin\nend;\nend.\n", u, u)
			writeFile(filepath.Join(dir, fmt.Sprintf("u%d.pas", u)), []byte(sb.String()))
		}
		var pb strings.Builder
		pb.WriteString("program main;\nuses ")
		for i, u := range uc.L {
			if i > 0 {
				pb.WriteString(", ")
			}
			if c.k%5 == 0 && i == uc.N/2 {
				pb.WriteString("SysUtils, ")
			}
			fmt.Fprintf(&pb, "%s in '%s'", casedName(fmt.Sprintf("u%d", u), i+c.k), filepath.Join(dir, fmt.Sprintf("u%d.pas", u)))
		}
		pb.WriteString(";\n")
		for u := 1; u <= uc.N; u++ {
			fmt.Fprintf(&pb, "var a0x%d: t%d; b0x%d: u%d.t%d;\nconst c0x%d = f%d + u%d.z%d;\n", u, u, u, u, u, u, u, u, u)
			nrefs += 4
		}
		pb.WriteString("begin\nend.\n")
		main := filepath.Join(dir, "main.dpr")
		writeFile(main, []byte(pb.String()))
		var prog *parser.Program
		var err error
		if p := guard(func() { prog, err = parser.ParseProgram(main) }); p != "" {
			c.Violation("C15", "listing %v, interface uses %v, implementation uses %v: %s", uc.L, uc.I, uc.M, p)
			return
		}
		if (err != nil) != (uc.R == "cycle") {
			c.Violation("C15", "listing %v, interface uses %v, implementation uses %v: the model says %s, the parser says %v", uc.L, uc.I, uc.M, uc.R, err)
			return
		}
		if err != nil {
			return
		}
		byName := map[string]*ast.Unit{}
		for i, u := range prog.Units {
			if i >= len(uc.L) || strings.ToLower(u.Ident.Name) != fmt.Sprintf("u%d", uc.L[i]) {
				c.Violation("C15", "listing %v: loaded unit %d is %s", uc.L, i+1, u.Ident.Name)
				return
			}
			byName[strings.ToLower(u.Ident.Name)] = u
		}
		if len(prog.Units) != uc.N {
			c.Violation("C15", "listing %v: %d units are loaded", uc.L, len(prog.Units))
			return
		}
		// the declarations of the interfaces
		want := map[string]astcore.Node{}
		for _, u := range byName {
			for _, d := range u.InterfaceSection.InterfaceDecls {
				for _, n := range d.GetDeclNodes() {
					for _, x := range n.ToDeclarations() {
						want[strings.ToLower(x.Ident.Name)] = x.Node
					}
				}
				astcore.WalkDown(d, func(n astcore.Node) error {
					if e, ok := n.(*ast.EnumeratedTypeElement); ok {
						want[strings.ToLower(e.Ident.Name)] = e
					}
					return nil
				})
			}
		}
		got := 0
		check := func(where, name string, ref *astcore.Decl) {
			name = strings.ToLower(name)
			w := want[name]
			if w == nil {
				c.Violation("C15", "%s: %s is not declared by any interface", where, name)
			} else if ref == nil {
				c.Violation("C15", "listing %v, interface uses %v, implementation uses %v: %s does not see %s", uc.L, uc.I, uc.M, where, name)
			} else if ref.Node != w {
				c.Violation("C15", "listing %v, interface uses %v, implementation uses %v: %s refers by %s to %T", uc.L, uc.I, uc.M, where, name, ref.Node)
			}
		}
		var names []string
		visit := func(n astcore.Node) error {
			switch x := n.(type) {
			case *ast.VarDecl:
				nm := x.IdentList[0].Name
				if strings.Contains(nm, "x") && len(nm) > 2 {
					names = append(names, nm)
					t := x.Type.(*ast.TypeId)
					check("variable "+nm, t.Ident.Name, t.Ref)
					got++
				}
			case *ast.ConstantDecl:
				if strings.Contains(x.Ident.Name, "x") {
					astcore.WalkDown(x.ConstExpr, func(n astcore.Node) error {
						if q, ok := n.(*ast.QualId); ok {
							check("constant "+x.Ident.Name, q.Ident.Ident.Name, q.Ident.Ref)
							got++
						}
						return nil
					})
				}
			}
			return nil
		}
		for _, u := range prog.Units {
			astcore.WalkDown(u, visit)
		}
		astcore.WalkDown(prog.Program, visit)
		if got != nrefs {
			c.Violation("C15", "%d references between units are in the trees, %d are written", got, nrefs)
		}
		c.Count("references", got)
	}
}
