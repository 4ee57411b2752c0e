package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
)

type typesCase struct {
	D [][2]json.RawMessage `json:"d"`
	P [2]json.RawMessage   `json:"p"`
	C [][]string           `json:"c"`
}

func classesOf(t ast.Type) []string {
	r := []string{}
	add := func(ok bool, s string) {
		if ok {
			r = append(r, s)
		}
	}
	if x, ok := t.(ast.SimpleType); ok {
		add(x.IsSimpleType(), "simple")
	}
	if x, ok := t.(ast.OrdinalType); ok {
		add(x.IsOrdinalType(), "ordinal")
	}
	if x, ok := t.(ast.RealType); ok {
		add(x.IsRealType(), "real")
	}
	if x, ok := t.(ast.OrdIdent); ok {
		add(x.IsOrdIdent(), "ordident")
	}
	if x, ok := t.(ast.StringType); ok {
		add(x.IsStringType(), "string")
	}
	if x, ok := t.(ast.PointerType); ok {
		add(x.IsPointerType(), "pointer")
	}
	if x, ok := t.(ast.VariantType); ok {
		add(x.IsVariantType(), "variant")
	}
	sort.Strings(r)
	return r
}

func mixCase(s string, k int) string {
	switch k % 4 {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		b := []byte(strings.ToLower(s))
		for i := range b {
			if (i+k/4)%2 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func init() {
	kinds["types"] = func(c *Ctx, line []byte) {
		var tc typesCase
		mustJSON(line, &tc)
		str := func(r json.RawMessage) (s string) { mustJSON(r, &s); return }
		num := func(r json.RawMessage) (n int) { mustJSON(r, &n); return }
		place, split := str(tc.P[0]), num(tc.P[1])
		name := func(j int) string { return fmt.Sprintf("TName%d", j) }
		typeText := func(j int) string {
			switch d := tc.D[j-1]; str(d[0]) {
			case "name":
				n := mixCase(name(num(d[1])), c.k+j)
				if place == "unit" && j > split && num(d[1]) <= split && (c.k+j)%2 == 0 {
					n = "unit1." + n
				}
				return n
			case "emb":
				return mixCase(str(d[1]), c.k+j)
			case "undecl":
				return "TUndeclared"
			default:
				switch str(d[1]) {
				case "enum":
					return fmt.Sprintf("(ea%d, eb%d)", j, j)
				case "enum1":
					return fmt.Sprintf("(ea%d)", j)
				case "enum=":
					return fmt.Sprintf("(ea%d = 1, eb%d)", j, j)
				case "enum1=":
					return fmt.Sprintf("(ea%d = 7)", j)
				case "enum=2":
					return fmt.Sprintf("(ea%d, eb%d = 2, ec%d)", j, j, j)
				case "enum=all":
					return fmt.Sprintf("(ea%d = 2, eb%d = 4, ec%d = 8)", j, j, j)
				case "enum9":
					return fmt.Sprintf("(ea%d, eb%d, ec%d, ed%d, ee%d, ef%d, eg%d, eh%d, ei%d)", j, j, j, j, j, j, j, j, j)
				case "sub":
					return "0..9"
				case "sub1":
					return "5..5"
				case "subneg":
					return "-3..-1"
				case "subchr":
					return "'a'..'z'"
				case "subcst":
					return "cLow..cHigh"
				case "subexp":
					return "1 + 2..2 * (8 - 1)"
				case "subenum":
					return "eLow..eHigh"
				case "set":
					return "set of Byte"
				case "setenum":
					return fmt.Sprintf("set of (ea%d, eb%d)", j, j)
				case "setsub":
					return "set of 1..9"
				case "file":
					return []string{"file of Integer", "file of Real", "file of PChar"}[c.k%3]
				case "array":
					return "array[0..1] of Integer"
				case "dynarray":
					return "array of Boolean"
				case "packed":
					return "packed array[Boolean] of Char"
				case "rec":
					return "record a: Integer end"
				case "emptyrec":
					return "record end"
				case "ptr":
					return "^Integer"
				case "ptrrec":
					return "^TBase"
				case "str[":
					return "string[10]"
				case "class":
					return "class end"
				case "parent":
					return "class(TParent) end"
				case "classof":
					return "class of TParent"
				case "proc":
					return "procedure(a: Integer)"
				case "func":
					return "function: Integer"
				case "method":
					return "procedure of object"
				}
			}
			panic("type")
		}
		const bases = "const cLow = 1; cHigh = 9;\ntype TEnum = (eLow, eMid, eHigh); TBase = record a: Integer; end; TParent = class end;\n"
		dir := scratchDir()
		var unit, prog strings.Builder
		prog.WriteString("program main;\n")
		if place == "unit" {
			unit.WriteString("unit unit1;\ninterface\n" + bases + "type\n")
			fmt.Fprintf(&prog, "uses unit1 in '%s';\n", filepath.Join(dir, "unit1.pas"))
		}
		if place != "unit" {
			prog.WriteString(bases)
		}
		open := false
		for j := 1; j <= len(tc.D); j++ {
			w := &prog
			if place == "unit" && j <= split {
				w = &unit
			} else if !open || (place == "two" && j == split+1) {
				prog.WriteString("type\n")
				open = true
			}
			portable := ""
			if h := uint32(c.k*31+j*7) * 2654435761 >> 16; h%4 == 0 {
				portable = " " + mixCase([]string{"platform", "deprecated", "library"}[h/4%3], c.k)
			}
			fmt.Fprintf(w, "  %s = %s%s;\n", name(j), typeText(j), portable)
		}
		if place == "unit" {
			unit.WriteString("implementation\nend.\n")
			writeFile(filepath.Join(dir, "unit1.pas"), []byte(unit.String()))
		}
		base := prog.String()
		prog.WriteString("var\n")
		for j := 1; j <= len(tc.D); j++ {
			fmt.Fprintf(&prog, "  v%d: %s;\n", j, mixCase(name(j), c.k/3+j))
		}
		prog.WriteString("begin\nend.\n")
		main := filepath.Join(dir, "main.dpr")
		writeFile(main, []byte(prog.String()))
		var res *parser.Program
		var err error
		if p := guard(func() { res, err = parser.ParseProgram(main) }); p != "" || err != nil {
			c.Violation("C20", "%s%s: %v %s", unit.String(), prog.String(), err, p)
			return
		}
		p := guard(func() {
			sects := res.ProgramBlock.Block.DeclSections
			vars := sects[len(sects)-1].(ast.VarSection)
			for j := range tc.D {
				want := append([]string{}, tc.C[j]...)
				sort.Strings(want)
				if got := classesOf(vars[j].Type); strings.Join(got, " ") != strings.Join(want, " ") {
					c.Violation("C20", "%s answers to %v, the model says %v, in %s%s", name(j+1), got, want, unit.String(), prog.String())
					return
				}
				c.Count("names", 1)
			}
		})
		if p != "" {
			c.Violation("C20", "%s%s: %s", unit.String(), prog.String(), p)
		}
		// a type which is not ordinal is refused where an ordinal type is required
		j := c.k%len(tc.D) + 1
		n := mixCase(name(j), c.k/5)
		use := []string{"array[" + n + "] of Byte", "array[0..1, " + n + "] of Byte", "set of " + n, "record case " + n + " of 0: (a: Byte) end",
			"record case b: " + n + " of 0: (a: Byte) end"}[(c.k/len(tc.D))%5]
		text := base + "var v: " + use + ";\nbegin\nend.\n"
		writeFile(main, []byte(text))
		ordinal := strings.Contains(strings.Join(tc.C[j-1], " ")+" ", "ordinal")
		if p := guard(func() { _, err = parser.ParseProgram(main) }); p != "" || (err == nil) != ordinal {
			for _, prop := range []string{"C08", "C20"} {
				c.Violation(prop, "%s%s: %v %s; the model says ordinal=%v", unit.String(), text, err, p, ordinal)
			}
		}
	}
}
