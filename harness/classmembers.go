package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

type clsCase struct {
	C []struct {
		A   struct{ K, V string } `json:"a"`
		P   bool                  `json:"p"`
		S   []string              `json:"s"`
		L   int                   `json:"l"`
		M   int                   `json:"m"`
		Ok  bool                  `json:"ok"`
		Par int                   `json:"par"`
		Cmp map[string]int        `json:"cmp"`
	} `json:"c"`
}

func has(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func init() {
	kinds["classmembers"] = func(c *Ctx, line []byte) {
		var cc clsCase
		mustJSON(line, &cc)
		n := len(cc.C)
		dir := scratchDir()
		aName := func(j int) string { return mixCase("member", c.k+j) }
		pName := func(j int) string { return mixCase("propname", c.k/2+j) }
		cName := func(j int) string { return fmt.Sprintf("TClass%d", j) }
		// the classes up to inUnit are declared in a unit
		inUnit := (c.k % (2 * n)) % (n + 1)
		if c.k%2 == 0 {
			inUnit = 0
		}
		// heritage of class j: by name, by alias, by qualified name, through a forward declaration
		way := func(j int) int { return (c.k/3 + j*2) % 5 }
		text := func(j int, withProp, probe string) string {
			var sb strings.Builder
			x := cc.C[j-1]
			if way(j) == 4 {
				fmt.Fprintf(&sb, "  %s = class;\n", cName(j))
			}
			parent := ""
			if j > 1 {
				parent = cName(j - 1)
				switch w := way(j); {
				case w == 1:
					fmt.Fprintf(&sb, "  TAlias%d = %s;\n", j, parent)
					parent = fmt.Sprintf("talias%d", j)
				case w == 2:
					fmt.Fprintf(&sb, "  TOne%d = %s;\n  TTwo%d = TOne%d;\n", j, parent, j, j)
					parent = fmt.Sprintf("TTWO%d", j)
				case w == 3 && inUnit >= j-1 && inUnit < j:
					parent = "unit1." + parent
				}
				if (c.k/7+j)%3 == 0 {
					parent += ", " + []string{"TDecoy", "IUnknown"}[(c.k/5)%2]
				}
				parent = "(" + parent + ")"
			}
			fmt.Fprintf(&sb, "  %s = class%s\n", cName(j), parent)
			h := func(i, m int) int { // varies what stands around the members
				x := uint32(c.k*31+j*7+i*101) * 2654435761
				return int(x>>16) % m
			}
			noise := n <= 8 && h(0, 3) > 0
			if noise && h(1, 3) == 0 && (x.A.V != "default" || x.A.K == "none") {
				// another section before
				fmt.Fprintf(&sb, "  %s\n    other%d, members: Integer;\n", []string{"private", "public", "protected"}[h(2, 3)], j)
				if h(3, 2) == 0 {
					fmt.Fprintf(&sb, "    property otherprop%d: Integer read other%d;\n", j, j)
				}
			}
			if x.A.V != "default" {
				fmt.Fprintf(&sb, "  %s\n", x.A.V)
			}
			if noise && h(4, 2) == 0 && x.A.K != "none" {
				fmt.Fprintf(&sb, "    fx%d: Byte;\n", j)
			}
			switch x.A.K {
			case "field":
				if h(5, 2) == 0 {
					fmt.Fprintf(&sb, "    fa%d, %s, fb%d: Integer;\n", j, aName(j), j)
				} else {
					fmt.Fprintf(&sb, "    fa%d: array[0..1] of Byte;\n    %s: Integer;\n    fb%d: Char;\n", j, aName(j), j)
				}
				if noise && h(6, 2) == 0 {
					fmt.Fprintf(&sb, "    procedure emember%d(member: Integer);\n", j)
				}
			case "method":
				fmt.Fprintf(&sb, "    procedure ma%d;\n    function %s(Index: Integer): Integer; virtual;\n    procedure mb%d;\n", j, aName(j), j)
			case "prop":
				fmt.Fprintf(&sb, "    function ma%d: Integer;\n", j)
				if noise && h(7, 2) == 0 {
					fmt.Fprintf(&sb, "    property memberz: Integer read ma%d;\n    property zmember[member: Integer]: Integer read ma%d;\n", j, j)
				}
				fmt.Fprintf(&sb, "    property %s: Integer read ma%d;\n", aName(j), j)
				if noise && h(8, 2) == 0 {
					fmt.Fprintf(&sb, "    property memb: Integer read ma%d;\n", j)
				}
			}
			if x.P {
				vis := "  " + []string{"public", "protected", "published"}[(c.k+j)%3] + "\n"
				if noise && h(9, 2) == 0 && (x.A.K == "field" || x.A.K == "method") && x.A.V != "private" {
					vis = "" // in the section of the member
				}
				sb.WriteString(vis)
				if noise && h(10, 2) == 0 {
					fmt.Fprintf(&sb, "    property propnam%d: Integer index 9;\n    property propnames: Integer;\n", j)
				}
				fmt.Fprintf(&sb, "    property %s", pName(j))
				if has(x.S, "T") {
					sb.WriteString([]string{": Integer", "[i: Integer]: Integer"}[(c.k/2)%2])
				}
				if has(x.S, "I") {
					fmt.Fprintf(&sb, " index %d", j)
				}
				if has(x.S, "R") {
					sb.WriteString(" read " + aName(j+1))
				}
				if has(x.S, "W") {
					sb.WriteString(" write " + aName(j+2))
				}
				if has(x.S, "S") {
					sb.WriteString([]string{" stored True", " stored False", " stored true"}[c.k%3])
				}
				if has(x.S, "D") {
					fmt.Fprintf(&sb, " default %d", 10+j)
				}
				sb.WriteString(";\n")
				if noise && h(11, 2) == 0 {
					fmt.Fprintf(&sb, "    property apropname: Integer index 8;\n")
				}
			}
			if noise && h(12, 3) == 0 {
				fmt.Fprintf(&sb, "  %s\n    more%d: Integer;\n", []string{"private", "public", "published"}[h(13, 3)], j)
			}
			if probe != "" {
				fmt.Fprintf(&sb, "  public\n    property probe: Integer %s;\n", probe)
			}
			sb.WriteString("  end;\n")
			return sb.String()
		}
		decoy := "  TDecoy = class\n  public\n    member: Integer;\n    property propname: Integer index 3 read member write member;\n  end;\n"
		main := filepath.Join(dir, "main.dpr")
		parse := func(probeAt int, probe string, upto int) (*parser.Program, error, string, string) {
			var unit, prog strings.Builder
			prog.WriteString("program main;\n")
			u := inUnit
			if u > upto {
				u = upto
			}
			if u > 0 {
				unit.WriteString("unit unit1;\ninterface\ntype\n" + decoy)
				for j := 1; j <= u; j++ {
					pr := ""
					if j == probeAt {
						pr = probe
					}
					unit.WriteString(text(j, "", pr))
				}
				unit.WriteString("implementation\nend.\n")
				writeFile(filepath.Join(dir, "unit1.pas"), []byte(unit.String()))
				fmt.Fprintf(&prog, "uses unit1 in '%s';\n", filepath.Join(dir, "unit1.pas"))
			}
			if u < upto {
				prog.WriteString("type\n" + decoy)
				for j := u + 1; j <= upto; j++ {
					pr := ""
					if j == probeAt {
						pr = probe
					}
					prog.WriteString(text(j, "", pr))
				}
			}
			prog.WriteString("begin\nend.\n")
			writeFile(main, []byte(prog.String()))
			var res *parser.Program
			var err error
			p := guard(func() { res, err = parser.ParseProgram(main) })
			return res, err, p, unit.String() + prog.String()
		}
		classes := func(res *parser.Program) []*ast.CustomClassType {
			r := make([]*ast.CustomClassType, n+1)
			take := func(n astcore.Node) error {
				if d, ok := n.(*ast.TypeDecl); ok {
					var j int
					if k, _ := fmt.Sscanf(d.Ident.Name, "TClass%d", &j); k == 1 {
						if t, ok := d.Type.(*ast.CustomClassType); ok {
							r[j] = t
						}
					}
				}
				return nil
			}
			for _, u := range res.Units {
				astcore.WalkDown(u, take)
				onceEach(c, u, func() string { return "" })
			}
			astcore.WalkDown(res.Program, take)
			onceEach(c, res.Program, func() string { return "" })
			return r
		}
		// the first class whose property p is refused
		bad := 0
		for j := 1; j <= n && bad == 0; j++ {
			if !cc.C[j-1].Ok {
				bad = j
			}
		}
		res, err, p, src := parse(0, "", n)
		if p != "" || (err != nil) != (bad > 0) {
			c.Violation("C11", "%s: %v %s; the model says the property of class %d is refused (0: none)", src, err, p, bad)
			return
		}
		if bad > 0 {
			return
		}
		nodeOf := func(cs []*ast.CustomClassType, j int) astcore.Node {
			if j == 0 {
				return nil
			}
			for _, m := range cs[j].Members {
				for _, f := range m.ClassFieldList {
					if f.IdentList.Find("member") != nil {
						return f
					}
				}
				for _, f := range m.ClassMethodList {
					if strings.EqualFold(f.Heading.GetIdent().Name, "member") {
						return f
					}
				}
				for _, f := range m.ClassPropertyList {
					if strings.EqualFold(f.Ident.Name, "member") {
						return f
					}
				}
			}
			return nil
		}
		propOf := func(cs []*ast.CustomClassType, j int) *ast.ClassProperty {
			if j == 0 || cs[j] == nil {
				return nil
			}
			for _, m := range cs[j].Members {
				for _, f := range m.ClassPropertyList {
					if strings.EqualFold(f.Ident.Name, "propname") {
						return f
					}
				}
			}
			return nil
		}
		isMember := func(d *astcore.Decl, w astcore.Node) bool {
			if d == nil || w == nil {
				return d == nil && w == nil
			}
			return d.Node == w && strings.EqualFold(d.Ident.Name, "member")
		}
		p = guard(func() {
			cs := classes(res)
			for j := 1; j <= n; j++ {
				x := cc.C[j-1]
				for s := 0; s < 3; s++ {
					if d := cs[j].FindMemberDecl(mixCase("Member", s), true); !isMember(d, nodeOf(cs, x.L)) {
						c.Violation("C11", "%s: FindMemberDecl from %s with private members finds %v, the model says class %d", src, cName(j), d, x.L)
					}
					if d := cs[j].FindMemberDecl(mixCase("Member", s), false); !isMember(d, nodeOf(cs, x.M)) {
						c.Violation("C11", "%s: FindMemberDecl from %s without private members finds %v, the model says class %d", src, cName(j), d, x.M)
					}
					c.Count("lookups", 2)
				}
				if d := cs[j].FindMemberDecl("nomember", true); d != nil {
					c.Violation("C11", "%s: FindMemberDecl finds %v under a name which is not declared", src, d)
				}
				pr := propOf(cs, j)
				if (pr != nil) != x.P {
					c.Violation("C11", "%s: property of %s is %v", src, cName(j), pr)
					continue
				}
				if pr == nil {
					continue
				}
				c.Count("properties", 1)
				if pr.Parent != propOf(cs, x.Par) {
					c.Violation("C11", "%s: the property of %s inherits from %v, the model says from class %d (0: none)", src, cName(j), pr.Parent, x.Par)
					continue
				}
				for part, ref := range map[string]*ast.IdentRef{"R": pr.Read, "W": pr.Write} {
					if has(x.S, part) {
						if ref == nil || !isMember(ref.Ref, nodeOf(cs, x.L)) {
							c.Violation("C11", "%s: %s of the property of %s refers to %v, the model says class %d", src, part, cName(j), ref, x.L)
						}
					}
				}
				cp := pr.ComputedProperty()
				from := map[string]*ast.ClassProperty{}
				for part, k := range x.Cmp {
					from[part] = propOf(cs, k)
				}
				empty := &ast.ClassProperty{}
				get := func(part string) *ast.ClassProperty {
					if from[part] == nil {
						return empty
					}
					return from[part]
				}
				if cp.Interface != get("T").Interface || cp.Index != get("I").Index || cp.Read != get("R").Read || cp.Write != get("W").Write ||
					cp.Stored != get("S").Stored || cp.Default != get("D").Default {
					c.Violation("C11", "%s: the computed property of %s takes its parts from elsewhere than %v", src, cName(j), x.Cmp)
				}
			}
		})
		if p != "" {
			c.Violation("C11", "%s: %s", src, p)
			return
		}
		// READ, WRITE, STORED of a further property of class j
		j := c.k%n + 1
		probe := []string{"read ", "write ", "stored "}[(c.k/n)%3] + aName(c.k)
		res, err, p, src = parse(j, probe, n)
		x := cc.C[j-1]
		if p != "" || (err != nil) != (x.L == 0) {
			c.Violation("C11", "%s: %v %s; the model says %s refers to the member of class %d (0: refused)", src, err, p, probe, x.L)
			return
		}
		if err == nil {
			p = guard(func() {
				cs := classes(res)
				var ref *ast.IdentRef
				for _, m := range cs[j].Members {
					for _, f := range m.ClassPropertyList {
						if f.Ident.Name == "probe" {
							switch {
							case f.Read != nil:
								ref = f.Read
							case f.Write != nil:
								ref = f.Write
							case f.Stored != nil:
								ref = f.Stored.IdentRef
							}
						}
					}
				}
				if ref == nil || !isMember(ref.Ref, nodeOf(cs, x.L)) {
					c.Violation("C11", "%s: %s refers to %v, the model says to the member of class %d", src, probe, ref, x.L)
				}
			})
			if p != "" {
				c.Violation("C11", "%s: %s", src, p)
			}
		}
	}
}
