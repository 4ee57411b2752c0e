package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

var placeRe = regexp.MustCompile(` at (.*):(\d+):(\d+)$`)

func init() {
	// where errors are: a file which is cut off, a token which cannot stand anywhere, any other change
	kinds["places"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		r := seedOf(c, pc.Id, 78)
		vocab := loadGrammar().tokens()
		dir := scratchDir()
		for _, f := range p.files {
			ext := ".pas"
			if f.name == "Main" {
				ext = ".dpr"
			}
			path := filepath.Join(dir, f.name+ext)
			impl := 0 // where the implementation section begins
			for k, t := range f.toks {
				if t.text == "implementation" {
					impl = k
				}
			}
			e := p.recogniser(c, f)
			if e == nil {
				return
			}
			// a file which is not there
			p.parseWith(dir, nil, nil, func(k int) *layout { return c.layout(pc.Id, c.k*100+50, 2)(k) })
			if os.Remove(path) == nil {
				var err error
				if pan := guard(func() { _, err = parser.ParseProgram(filepath.Join(dir, "Main.dpr")) }); pan == "" && err != nil {
					if !strings.Contains(err.Error(), f.name+ext) {
						c.Violation("C23", "%s is missing, but the error does not name it: %v", path, err)
					}
					c.Count("missing files", 1)
				}
			}
			for n := 0; n < 18; n++ {
				i := r.n(len(f.toks))
				kind := n % 3
				asm := false
				for k := i - 1; k >= 0; k-- {
					if t := f.toks[k].text; t == "asm" {
						asm = true
						break
					} else if t == "end" {
						break
					}
				}
				if asm && kind == 1 {
					continue
				}
				var toks []ptok
				what := ""
				switch kind {
				case 0:
					what = "cut off before " + f.toks[i].text
					toks = splice(f.toks, i, len(f.toks)-i)
				case 1:
					odd := []string{"?", "&", "!", "%", "~", "\\"}[r.n(6)]
					what = "with " + odd + " before " + f.toks[i].text
					toks = splice(f.toks, i, r.n(2), ptok{text: odd})
				case 2:
					v := vocab[r.n(len(vocab))]
					switch r.n(3) {
					case 0:
						what = "with " + v + " before " + f.toks[i].text
						toks = splice(f.toks, i, 0, mkTok(v))
					case 1:
						what = "with " + v + " in place of " + f.toks[i].text
						toks = splice(f.toks, i, 1, mkTok(v))
					case 2:
						what = "without " + f.toks[i].text
						toks = splice(f.toks, i, 1)
					}
					if e.upTo(gpos(f.toks, i)).rest(gtoks(toks[i:])) {
						continue
					}
				}
				lay := c.layout(pc.Id, c.k*100+n, 2)
				var main string
				var rn *rendered
				for j, o := range p.files {
					ts := o.toks
					if o == f {
						ts = toks
					}
					l := lay(j)
					x := render(withPaths(ts, dir, l), l)
					if o == f {
						rn = x
					}
					oe := ".pas"
					if o.name == "Main" {
						oe = ".dpr"
						main = filepath.Join(dir, "Main.dpr")
					}
					writeFile(filepath.Join(dir, o.name+oe), x.src)
				}
				if len(rn.src) == 0 || rn.src[0] == '\n' { // see known_findings.json
					continue
				}
				var err error
				if pan := guard(func() { _, err = parser.ParseProgram(main) }); pan != "" || err == nil {
					continue // C05, C17
				}
				m := placeRe.FindStringSubmatch(err.Error())
				if kind == 2 {
					if m == nil || m[1] != path || i == 0 {
						continue
					}
					ln, _ := strconv.Atoi(m[2])
					col, _ := strconv.Atoi(m[3])
					if s := rn.spans[i-1].s; ln < s.Line || ln == s.Line && col < s.Col {
						c.Violation("C23", "%s %s near %q: %v, but the text is right up to %d:%d\n%s", f.name, what, rn.around(i), err, s.Line, s.Col, rn.src)
					}
					c.Count("not before", 1)
					continue
				}
				if kind == 0 && i <= impl && m != nil && m[1] != path {
					continue // another file misses what was cut off
				}
				pos := rn.end
				if kind == 1 {
					pos = rn.spans[i].s
				}
				at := func(pos astcore.Position) string { return fmt.Sprintf(" at %s:%d:%d", path, pos.Line, pos.Col) }
				want := at(pos)
				// a name which cannot stand alone there is at fault itself
				if strings.HasSuffix(err.Error(), want) || i > 0 && f.toks[i-1].ident && strings.HasSuffix(err.Error(), at(rn.spans[i-1].s)) {
					c.Count("places", 1)
					continue
				}
				c.Violation("C23", "%s %s near %q: %v, but the place is%s\n%s", f.name, what, rn.around(i), err, want, rn.src)
			}
		}
	}
}
