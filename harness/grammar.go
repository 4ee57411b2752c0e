package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
)

// The grammar printed by module GrammarOut, as an Earley recogniser.  Conditions are left out
// (what they exclude is a matter of declarations, not of form).

type gsym struct {
	nt  int // >= 0: nonterminal
	set map[string]bool
	cls byte // 'i' identifier, 'n' numeral, 's' string, 'a' anything but END
}
type grule struct {
	lhs int
	rhs []gsym
}
type grammar struct {
	names    []string
	index    map[string]int
	rules    []grule
	by       [][]int
	nullable []bool
	vocab    []string
}

var reservedWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`AND ARRAY AS ASM BEGIN CASE CLASS CONST CONSTRUCTOR DESTRUCTOR DISPINTERFACE DIV DO DOWNTO ELSE END EXCEPT EXPORTS FILE FINALIZATION FINALLY FOR FUNCTION GOTO IF IMPLEMENTATION IN INHERITED INITIALIZATION INLINE INTERFACE IS LABEL LIBRARY MOD NIL NOT OBJECT OF OR OUT PACKED PROCEDURE PROGRAM PROPERTY RAISE RECORD REPEAT RESOURCESTRING SET SHL SHR STRING THEN THREADVAR TO TRY TYPE UNIT UNTIL USES VAR WHILE WITH XOR`) {
		reservedWords[w] = true
	}
}

func (g *grammar) nt(name string) int {
	if k, ok := g.index[name]; ok {
		return k
	}
	k := len(g.names)
	g.index[name] = k
	g.names = append(g.names, name)
	g.by = append(g.by, nil)
	return k
}
func (g *grammar) add(lhs string, rhs ...gsym) {
	l := g.nt(lhs)
	g.rules = append(g.rules, grule{l, rhs})
	g.by[l] = append(g.by[l], len(g.rules)-1)
}
func tokSet(ws ...string) gsym {
	m := map[string]bool{}
	for _, w := range ws {
		m[strings.ToUpper(w)] = true
	}
	return gsym{nt: -1, set: m}
}

var theGrammar *grammar

func loadGrammar() *grammar {
	if theGrammar != nil {
		return theGrammar
	}
	data, err := os.ReadFile(os.Getenv("VH_GRAMMAR"))
	if err != nil {
		panic(err)
	}
	var in struct {
		Rules map[string]struct {
			A [][][]interface{} `json:"a"`
		} `json:"rules"`
		Vocabulary map[string][][]string `json:"vocabulary"`
	}
	if err := json.Unmarshal(data, &in); err != nil {
		panic(err)
	}
	g := &grammar{index: map[string]int{}}
	seen := map[string]bool{}
	word := func(w string) {
		if !seen[w] {
			seen[w] = true
			g.vocab = append(g.vocab, w)
		}
	}
	id := gsym{nt: -1, cls: 'i'}
	g.add("$ref", id)
	g.add("$ref", id, tokSet("."), id)
	g.add("$num", gsym{nt: -1, cls: 'n'})
	g.add("$num", tokSet("-"), gsym{nt: -1, cls: 'n'})
	vocab := func(name string) gsym {
		var ws []string
		for _, p := range in.Vocabulary[name] {
			ws = append(ws, p[0])
			word(p[0])
		}
		return tokSet(ws...)
	}
	var names []string
	for name := range in.Rules {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		r := in.Rules[name]
		for _, alt := range r.A {
			var rhs []gsym
			for _, sy := range alt {
				a := sy[1].(string)
				switch sy[0].(string) {
				case "t":
					if strings.HasPrefix(a, "'") {
						rhs = append(rhs, gsym{nt: -1, cls: 's'})
					} else if a[0] >= '0' && a[0] <= '9' {
						rhs = append(rhs, gsym{nt: g.nt("$num")})
					} else {
						word(a)
						rhs = append(rhs, tokSet(a))
					}
				case "n":
					rhs = append(rhs, gsym{nt: g.nt(a)})
				case "x":
					switch a {
					case "ref", "tref", "cref":
						rhs = append(rhs, gsym{nt: g.nt("$ref")})
					case "uref", "fld", "lab", "id", "mid", "mref", "againid", "fwid":
						rhs = append(rhs, id)
					case "strkw":
						word("string")
						rhs = append(rhs, tokSet("string"))
					case "asm":
						rhs = append(rhs, gsym{nt: -1, cls: 'a'})
					case "num":
						rhs = append(rhs, gsym{nt: g.nt("$num")})
					case "str", "path":
						rhs = append(rhs, gsym{nt: -1, cls: 's'})
					case "bool":
						word("true")
						rhs = append(rhs, tokSet("true", "false"))
					case "op":
						rhs = append(rhs, vocab(sy[2].(string)))
					case "mdir", "fdir", "anydir", "port", "vis":
						rhs = append(rhs, vocab(a))
					case "any":
						rhs = append(rhs, gsym{nt: -1, cls: '*'})
					}
				}
			}
			g.add(name, rhs...)
		}
	}
	g.nullable = make([]bool, len(g.names))
	for ch := true; ch; {
		ch = false
		for _, r := range g.rules {
			if g.nullable[r.lhs] {
				continue
			}
			all := true
			for _, sy := range r.rhs {
				if sy.nt < 0 || !g.nullable[sy.nt] {
					all = false
					break
				}
			}
			if all {
				g.nullable[r.lhs], ch = true, true
			}
		}
	}
	theGrammar = g
	return g
}

type gtok struct {
	up  string
	cls byte // 'i', 'n', 's' or 0
}

// gtoks splits numerals with a sign, as a sign may be an operator.
func gtoks(toks []ptok) []gtok {
	var r []gtok
	for _, t := range toks {
		s := t.text
		if len(s) > 1 && s[0] == '-' {
			r = append(r, gtok{up: "-"})
			s = s[1:]
		}
		up := strings.ToUpper(s)
		switch {
		case s[0] == '\'' || s[0] == '$':
			r = append(r, gtok{"'", 's'})
		case s[0] >= '0' && s[0] <= '9':
			r = append(r, gtok{up, 'n'})
		case wordChar(s[0]) && !reservedWords[up]:
			r = append(r, gtok{up, 'i'})
		default:
			r = append(r, gtok{up, 0})
		}
	}
	return r
}

func (s *gsym) match(t gtok) bool {
	switch s.cls {
	case 0:
		return s.set[t.up] && t.cls != 's'
	case 'a':
		return t.up != "END"
	case '*':
		return true
	}
	return s.cls == t.cls
}

type eitem struct {
	rule, dot int32
	origin    int32
}

// A column of the Earley table; closed columns are not changed any more.
type ecol struct {
	items []eitem
	has   map[eitem]struct{}
	wait  map[int][]eitem // items which wait for a nonterminal
	done  bool            // the start symbol is complete here
}
type earley struct {
	g    *grammar
	st   int
	cols []*ecol
}

func newCol() *ecol { return &ecol{has: map[eitem]struct{}{}, wait: map[int][]eitem{}} }
func (c *ecol) add(it eitem) {
	if _, ok := c.has[it]; !ok {
		c.has[it] = struct{}{}
		c.items = append(c.items, it)
	}
}

func (g *grammar) start(name string) *earley {
	e := &earley{g: g, st: g.index[name]}
	c := newCol()
	for _, r := range g.by[e.st] {
		c.add(eitem{int32(r), 0, 0})
	}
	e.cols = []*ecol{c}
	e.closeLast()
	return e
}

func (e *earley) closeLast() {
	k := len(e.cols) - 1
	c, g := e.cols[k], e.g
	for j := 0; j < len(c.items); j++ {
		it := c.items[j]
		r := &g.rules[it.rule]
		if int(it.dot) == len(r.rhs) {
			if r.lhs == e.st && it.origin == 0 {
				c.done = true
			}
			if int(it.origin) == k {
				continue // nullable nonterminals are advanced over at once
			}
			for _, w := range e.cols[it.origin].wait[r.lhs] {
				c.add(eitem{w.rule, w.dot + 1, w.origin})
			}
			continue
		}
		sy := &r.rhs[it.dot]
		if sy.nt >= 0 {
			if _, ok := c.wait[sy.nt]; !ok {
				for _, q := range g.by[sy.nt] {
					c.add(eitem{int32(q), 0, int32(k)})
				}
			}
			c.wait[sy.nt] = append(c.wait[sy.nt], it)
			if g.nullable[sy.nt] {
				c.add(eitem{it.rule, it.dot + 1, it.origin})
			}
		}
	}
}

// read goes on with a token; false: no file begins like this.
func (e *earley) read(t gtok) bool {
	c, n := e.cols[len(e.cols)-1], newCol()
	for _, it := range c.items {
		r := &e.g.rules[it.rule]
		if int(it.dot) < len(r.rhs) {
			if sy := &r.rhs[it.dot]; sy.nt < 0 && sy.match(t) {
				n.add(eitem{it.rule, it.dot + 1, it.origin})
			}
		}
	}
	e.cols = append(e.cols, n)
	e.closeLast()
	return len(n.items) > 0
}

// upTo is the recogniser after k tokens; it shares the columns.
func (e *earley) upTo(k int) *earley {
	return &earley{g: e.g, st: e.st, cols: e.cols[: k+1 : k+1]}
}

// rest tells whether the tokens complete a file; what follows its final point is not read.
func (e *earley) rest(toks []gtok) bool {
	if e.cols[len(e.cols)-1].done {
		return true
	}
	for _, t := range toks {
		if !e.read(t) {
			return false
		}
		if e.cols[len(e.cols)-1].done {
			return true
		}
	}
	return false
}

func (f *pfile) startSymbol() string {
	if f.name == "Main" {
		return "program"
	}
	return "unit"
}
