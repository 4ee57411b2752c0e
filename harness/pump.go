package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

// Deeply nested and very long files: for every way in which a nonterminal of the grammar can
// contain itself (X derives u X v) the file pre u^n w v^n post.

type pumper struct {
	g    *grammar
	best map[int][]string // shortest text of a nonterminal
}

func (s *gsym) text() string {
	switch s.cls {
	case 'i':
		return "a"
	case 'n':
		return "1"
	case 's':
		return "'s'"
	case 'a', '*':
		return "a"
	}
	best := ""
	for w := range s.set {
		if best == "" || w < best {
			best = w
		}
	}
	return strings.ToLower(best)
}

func newPumper(g *grammar) *pumper {
	p := &pumper{g, map[int][]string{}}
	for ch := true; ch; {
		ch = false
		for _, r := range g.rules {
			if t, ok := p.seq(r.rhs); ok {
				if b, has := p.best[r.lhs]; !has || len(t) < len(b) {
					p.best[r.lhs], ch = t, true
				}
			}
		}
	}
	return p
}
func (p *pumper) seq(rhs []gsym) ([]string, bool) {
	r := []string{}
	for i := range rhs {
		if rhs[i].nt < 0 {
			r = append(r, rhs[i].text())
		} else if t, ok := p.best[rhs[i].nt]; ok {
			r = append(r, t...)
		} else {
			return nil, false
		}
	}
	return r, true
}

type ctxt struct{ pre, post []string }

func (c ctxt) size() int { return len(c.pre) + len(c.post) }

// contexts gives for every nonterminal the shortest context in which from derives it.
func (p *pumper) contexts(from int) map[int]ctxt {
	r := map[int]ctxt{from: {}}
	for ch := true; ch; {
		ch = false
		for _, ru := range p.g.rules {
			c, ok := r[ru.lhs]
			if !ok {
				continue
			}
			for i := range ru.rhs {
				if ru.rhs[i].nt < 0 {
					continue
				}
				a, ok1 := p.seq(ru.rhs[:i])
				b, ok2 := p.seq(ru.rhs[i+1:])
				if !ok1 || !ok2 {
					continue
				}
				n := ctxt{append(append([]string{}, c.pre...), a...), append(append([]string{}, b...), c.post...)}
				if o, has := r[ru.rhs[i].nt]; !has || n.size() < o.size() {
					r[ru.rhs[i].nt], ch = n, true
				}
			}
		}
	}
	return r
}

type pump struct {
	name            string
	pre, u, v, post []string
	mid             []string
}

func (p *pumper) all(start string) []pump {
	g := p.g
	ctx := map[int]map[int]ctxt{}
	for x := range g.names {
		ctx[x] = p.contexts(x)
	}
	st := g.index[start]
	var res []pump
	seen := map[string]bool{}
	for x := range g.names {
		c0, ok := ctx[st][x]
		if !ok {
			continue
		}
		for _, ri := range g.by[x] {
			ru := g.rules[ri]
			for i := range ru.rhs {
				y := ru.rhs[i].nt
				if y < 0 {
					continue
				}
				back, ok := ctx[y][x]
				if !ok {
					continue
				}
				a, _ := p.seq(ru.rhs[:i])
				b, _ := p.seq(ru.rhs[i+1:])
				pu := pump{pre: c0.pre, post: c0.post, mid: p.best[x],
					u: append(append([]string{}, a...), back.pre...), v: append(append([]string{}, back.post...), b...)}
				if len(pu.u)+len(pu.v) == 0 {
					continue
				}
				key := strings.Join(pu.u, " ") + " | " + strings.Join(pu.v, " ")
				if seen[key] {
					continue
				}
				seen[key] = true
				pu.name = g.names[x] + ": " + key
				res = append(res, pu)
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].name < res[j].name })
	return res
}

// text repeats u and v n times; the identifiers of u get different names.
func (pu *pump) text(n int) string {
	var sb strings.Builder
	k := 0
	put := func(ws []string) {
		for _, w := range ws {
			if w == "a" {
				k++
				fmt.Fprintf(&sb, "a%d ", k)
			} else {
				sb.WriteString(w)
				sb.WriteByte(' ')
			}
		}
	}
	put(pu.pre)
	for i := 0; i < n; i++ {
		put(pu.u)
	}
	put(pu.mid)
	for i := 0; i < n; i++ {
		put(pu.v)
	}
	put(pu.post)
	return sb.String()
}

// The stack which a parse may use here. Files which are much bigger than those tried here need much more if the
// nesting, or the number of tokens, is not limited, and the program ends when it has used 1 GB.
var stackLimit = func() int {
	if n, err := strconv.Atoi(os.Getenv("VH_STACK")); err == nil {
		return n << 20
	}
	return 128 << 20
}()

func init() {
	// Long texts: the characters of a text of the specification again and again.
	kinds["longtext"] = func(c *Ctx, line []byte) {
		var lc lexCase
		mustJSON(line, &lc)
		debug.SetMaxStack(8 << 20)
		x := textOf(lc.X)
		if len(x) == 0 {
			return
		}
		n := 600000 / len(x)
		text := make([]rune, 0, n*len(x))
		for i := 0; i < n; i++ {
			text = append(text, x...)
		}
		for f := token.TokeninzerFlag(0); f <= token.LoadSpace|token.LoadComment; f++ {
			if p := guard(func() {
				t := token.NewTokenizer(&text, f)
				at := 0
				for {
					tok := t.GetNext()
					if tok.Type == token.EOF {
						break
					}
					if tok.Start.Index < at || tok.End.Index <= tok.Start.Index {
						c.Violation("C01", "%d times %q: token %d-%d after %d", n, string(x), tok.Start.Index, tok.End.Index, at)
						return
					}
					at = tok.End.Index
				}
			}); p != "" {
				c.Violation("C05", "%d times %q: %s", n, string(x), p)
			}
		}
		c.Count("long texts", 1)
	}

	// line: {"start": "program", "n": 1000, "k": 3, "of": 16}
	kinds["pump"] = func(c *Ctx, line []byte) {
		var in struct {
			Start string `json:"start"`
			N     int    `json:"n"`
			K     int    `json:"k"`
			Of    int    `json:"of"`
		}
		mustJSON(line, &in)
		debug.SetMaxStack(stackLimit)
		ps := newPumper(loadGrammar()).all(in.Start)
		for i, pu := range ps {
			if i%in.Of != in.K {
				continue
			}
			dir := scratchDir()
			path := filepath.Join(dir, "Main.dpr")
			txt := pu.text(in.N)
			if in.Start == "unit" {
				writeFile(path, []byte("program Main; uses a1 in '"+filepath.Join(dir, "a1.pas")+"'; begin end."))
				writeFile(filepath.Join(dir, "a1.pas"), []byte(txt))
			} else {
				writeFile(path, []byte(txt))
			}
			t := time.Now()
			var res *parser.Program
			var err error
			if p := guard(func() { res, err = parser.ParseProgram(path) }); p != "" {
				c.Violation("C05", "%d times %s: %s", in.N, pu.name, p)
			}
			if err == nil && res != nil {
				c.Count("accepted", 1)
				if p := guard(func() { astcore.WalkDown(res.Program, func(astcore.Node) error { return nil }) }); p != "" {
					c.Violation("C05", "walking %d times %s: %s", in.N, pu.name, p)
				}
			}
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%-8s %v %d %s %v\n", time.Since(t).Round(time.Millisecond), err == nil, len(txt), pu.name, err)
			}
			c.Count("pumped", 1)
		}
	}
}
