package main

import (
	"path/filepath"
	"reflect"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// ask calls everything that can be asked about a node without arguments.
func ask(n astcore.Node) (what string, pan string) {
	v := reflect.ValueOf(n)
	t := v.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() != 1 || m.Name == "Parent" {
			continue
		}
		if !strings.HasPrefix(m.Name, "Is") && !strings.HasPrefix(m.Name, "Get") && !strings.HasPrefix(m.Name, "To") && !strings.HasPrefix(m.Name, "Find") && m.Name != "Children" {
			continue
		}
		if p := guard(func() { v.Method(i).Call(nil) }); p != "" {
			return t.String() + "." + m.Name, p
		}
	}
	if c, ok := n.(*ast.CustomClassType); ok {
		for _, name := range []string{"a", "FItem", "zz"} {
			for _, priv := range []bool{true, false} {
				if p := guard(func() { c.FindMemberDecl(name, priv) }); p != "" {
					return "FindMemberDecl", p
				}
			}
		}
	}
	return "", ""
}

// survive parses the file and uses the tree.
func survive(c *Ctx, main, what string, show func() string) {
	var res *parser.Program
	var err error
	if p := guard(func() { res, err = parser.ParseProgram(main) }); p != "" {
		c.Violation("C05", "%s: %s\n%s", what, p, show())
		return
	}
	if err == nil && res == nil {
		c.Violation("C05", "%s: neither a tree nor an error\n%s", what, show())
		return
	}
	if err != nil {
		c.Count("errors", 1)
		return
	}
	c.Count("trees", 1)
	roots := []astcore.Node{res.Program}
	for _, u := range res.Units {
		roots = append(roots, u)
	}
	for _, r := range roots {
		p := guard(func() {
			astcore.WalkDown(r, func(n astcore.Node) error {
				if m, p := ask(n); p != "" {
					c.Violation("C05", "%s: asking %s: %s\n%s", what, m, p, show())
				}
				return nil
			})
		})
		if p != "" {
			c.Violation("C05", "%s: walking: %s\n%s", what, p, show())
		}
	}
}

var oddBytes = []byte{0, 1, 9, 10, 13, 26, 32, 39, 40, 41, 42, 46, 47, 48, 57, 58, 59, 60, 61, 62, 64, 91, 92, 93, 94, 95, 123, 125, 127, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xdf, 0xe0, 0xfc, 0xff}

func init() {
	// changed tokens and changed bytes of the files of a program
	kinds["robust"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		dir := scratchDir()
		r := seedOf(c, pc.Id, 5)
		vocab := loadGrammar().tokens()
		texts := map[string][]byte{}
		put := func(f *pfile, b []byte) string {
			ext := ".pas"
			if f.name == "Main" {
				ext = ".dpr"
			}
			path := filepath.Join(dir, f.name+ext)
			writeFile(path, b)
			return path
		}
		main := ""
		for i, f := range p.files {
			l := c.layout(pc.Id, c.k, r.n(3))(i)
			texts[f.name] = render(withPaths(f.toks, dir, l), l).src
			if m := put(f, texts[f.name]); f.name == "Main" {
				main = m
			}
		}
		survive(c, main, "unchanged", func() string { return "" })
		for _, f := range p.files {
			src := texts[f.name]
			for n := 0; n < 30; n++ {
				b := append([]byte{}, src...)
				for k := 0; k < 1+r.n(4); k++ {
					if len(b) == 0 {
						break
					}
					i := r.n(len(b))
					switch r.n(8) {
					case 0:
						b = b[:i]
					case 1:
						b[i] = oddBytes[r.n(len(oddBytes))]
					case 2:
						b = append(append(append([]byte{}, b[:i]...), oddBytes[r.n(len(oddBytes))]), b[i:]...)
					case 3:
						d := i + 1 + r.n(20)
						if d > len(b) {
							d = len(b)
						}
						b = append(append([]byte{}, b[:i]...), b[d:]...)
					case 4: // a word in between
						b = append(append(append([]byte{}, b[:i]...), []byte(" "+vocab[r.n(len(vocab))]+" ")...), b[i:]...)
					case 5: // a piece again
						d := i + 1 + r.n(40)
						if d > len(b) {
							d = len(b)
						}
						j := r.n(len(b))
						piece := append([]byte{}, b[i:d]...)
						b = append(append(append([]byte{}, b[:j]...), piece...), b[j:]...)
					case 6:
						b[i] = byte(r.n(256))
					case 7: // a name of another
						b = append(append(append([]byte{}, b[:i]...), []byte(" "+f.toks[r.n(len(f.toks))].text+" ")...), b[i:]...)
					}
				}
				put(f, b)
				survive(c, main, f.name+" changed", func() string { return clip(string(b), 3000) })
				c.Count("texts", 1)
			}
			// changed tokens
			for n := 0; n < 30; n++ {
				ts := f.toks
				for k := 0; k < 1+r.n(3); k++ {
					if len(ts) < 2 {
						break
					}
					i, j := r.n(len(ts)), r.n(len(ts))
					switch r.n(5) {
					case 0:
						ts = splice(ts, i, 1)
					case 1:
						ts = splice(ts, i, 1, mkTok(vocab[r.n(len(vocab))]))
					case 2:
						ts = splice(ts, i, 0, mkTok(vocab[r.n(len(vocab))]))
					case 3:
						ts = splice(ts, i, 1, ts[j])
					case 4:
						if i > j {
							i, j = j, i
						}
						ts = splice(ts, i, j-i)
					}
				}
				l := c.layout(pc.Id, c.k, r.n(3))(n)
				b := render(withPaths(ts, dir, l), l).src
				put(f, b)
				survive(c, main, f.name+" changed", func() string { return clip(string(b), 3000) })
				c.Count("texts", 1)
			}
			put(f, src)
		}
	}
	// arbitrary text as a file and after the beginnings of its parts
	kinds["anytext"] = func(c *Ctx, line []byte) {
		var lc lexCase
		mustJSON(line, &lc)
		txt := string(textOf(lc.X))
		dir := scratchDir()
		main := filepath.Join(dir, "Main.dpr")
		pas := filepath.Join(dir, "U.pas")
		for _, pre := range beginnings {
			full := pre + txt
			writeFile(main, []byte(full))
			survive(c, main, "text", func() string { return full })
			c.Count("texts", 1)
		}
		pre := unitBeginnings[c.k%len(unitBeginnings)]
		writeFile(main, []byte("program Main; uses U in '"+pas+"'; begin end."))
		writeFile(pas, []byte(pre+txt))
		survive(c, main, "unit", func() string { return pre + txt })
		c.Count("texts", 1)
	}
}

var beginnings = []string{"", "program ", "program P;", "program P; uses ", "program P; const a = ", "program P; type a = ", "program P; var a: ", "program P; begin ", "program P; begin a := ",
	"program P; procedure q", "program P; begin end", "program P; type a = class ", "program P; exports "}
var unitBeginnings = []string{"", "unit ", "unit U; ", "unit U; interface ", "unit U; interface uses ", "unit U; interface type a = ", "unit U; interface procedure q",
	"unit U; interface implementation ", "unit U; interface implementation uses ", "unit U; interface implementation initialization ", "unit U; interface implementation initialization finalization "}
