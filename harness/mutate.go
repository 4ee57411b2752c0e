package main

import (
	"os"
	"path/filepath"
	"sort"

	"github.com/akm/tparser/parser"
)

var oddTokens = []string{"?", "&", "!", "%", "~", "1", "'s'", "-1", "object", "inline", "resourcestring", "dispinterface", "a", "zz", "x", "Integer", "<>", "<=", ">=",
	"private", "published", "virtual", "stdcall", "forward", "external", "read", "write", "platform", "private", "message", "-", "/", "mod", "or", "is"}

func (g *grammar) tokens() []string {
	r := append([]string{}, g.vocab...)
	for _, t := range oddTokens {
		dup := false
		for _, x := range r {
			dup = dup || x == t
		}
		if !dup {
			r = append(r, t)
		}
	}
	sort.Strings(r)
	return r
}

func mkTok(s string) ptok { return ptok{text: s, ident: wordChar(s[0])} }

type mutant struct {
	what string
	from int // the tokens before this one are unchanged
	toks []ptok
}

func splice(toks []ptok, i, del int, ins ...ptok) []ptok {
	r := append([]ptok{}, toks[:i]...)
	r = append(r, ins...)
	return append(r, toks[i+del:]...)
}

// parseWith parses the program with the tokens of one file replaced.
func (p *pprog) parseWith(dir string, file *pfile, toks []ptok, lay func(int) *layout) (err error, pan string, tree bool, src string) {
	var main string
	for i, f := range p.files {
		ts := f.toks
		if f == file {
			ts = toks
		}
		ext := ".pas"
		if f.name == "Main" {
			ext = ".dpr"
		}
		l := lay(i)
		path := filepath.Join(dir, f.name+ext)
		if p.written == nil || f == file || p.written[path] != f {
			r := render(withPaths(ts, dir, l), l)
			writeFile(path, r.src)
			if f == file {
				src = string(r.src)
			}
		}
		if p.written != nil {
			if p.written[path] = f; f == file {
				p.written[path] = nil
			}
		}
		if f.name == "Main" {
			main = path
		}
	}
	var res *parser.Program
	pan = guard(func() { res, err = parser.ParseProgram(main) })
	return err, pan, res != nil, src
}

// refuse: a file which is not one of the grammar must be refused.
func (p *pprog) refuse(c *Ctx, dir string, f *pfile, m mutant, lay func(int) *layout) {
	err, pan, tree, src := p.parseWith(dir, f, m.toks, lay)
	near := ""
	for i := m.from - 8; i < m.from+10; i++ {
		if i == m.from {
			near += " <<>>"
		}
		if i >= 0 && i < len(m.toks) {
			near += " " + m.toks[i].text
		}
	}
	m.what += " near" + near
	if pan != "" {
		c.Violation("C05", "%s, %s: %s\n%s", f.name, m.what, pan, src)
		if os.Getenv("VH_PROP") == "C05" {
			return
		}
		c.Violation("C17", "%s, %s: %s\n%s", f.name, m.what, pan, src)
		return
	}
	if err == nil {
		c.Violation("C17", "%s, %s: no file of the grammar, but it is accepted\n%s", f.name, m.what, src)
	} else if tree {
		c.Violation("C17", "%s, %s: an error and a tree\n%s", f.name, m.what, src)
	}
	c.Count("refused", 1)
}

func (p *pprog) recogniser(c *Ctx, f *pfile) *earley {
	e := loadGrammar().start(f.startSymbol())
	ts := gtoks(f.toks)
	for i, t := range ts {
		if !e.read(t) {
			c.Error("the recogniser does not accept token %d (%s) of a program of the machine: %v", i, t.up, f.toks)
			return nil
		}
	}
	if !e.cols[len(ts)].done {
		c.Error("the recogniser does not accept a program of the machine: %v", f.toks)
		return nil
	}
	return e
}

// gpos is the place of token i among the tokens of the recogniser.
func gpos(toks []ptok, i int) int {
	n := 0
	for _, t := range toks[:i] {
		n++
		if len(t.text) > 1 && t.text[0] == '-' {
			n++
		}
	}
	return n
}

func init() {
	plain := func(int) *layout { return &layout{kind: 0, r: &rnd{x: 1}} }
	// every single change of one token of the last file
	kinds["mutall"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		f := p.byName["Main"]
		e := p.recogniser(c, f)
		if e == nil {
			return
		}
		vocab := loadGrammar().tokens()
		try := func(m mutant) {
			if !e.upTo(gpos(f.toks, m.from)).rest(gtoks(m.toks[m.from:])) {
				p.refuse(c, scratchDir(), f, m, plain)
			}
			c.Count("mutants", 1)
		}
		for i := p.region[0]; i <= p.region[1] && i < len(f.toks); i++ {
			try(mutant{"cut off before " + f.toks[i].text, i, splice(f.toks, i, len(f.toks)-i)})
			try(mutant{"without " + f.toks[i].text, i, splice(f.toks, i, 1)})
			if i+1 < len(f.toks) {
				try(mutant{"with " + f.toks[i].text + " and " + f.toks[i+1].text + " exchanged", i, splice(f.toks, i, 2, f.toks[i+1], f.toks[i])})
			}
			for _, v := range vocab {
				try(mutant{"with " + v + " in place of " + f.toks[i].text, i, splice(f.toks, i, 1, mkTok(v))})
				try(mutant{"with " + v + " before " + f.toks[i].text, i, splice(f.toks, i, 0, mkTok(v))})
			}
		}
	}
	// every change of one token of every file, with an eighth of the other tokens each time
	kinds["mutfiles"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		vocab := loadGrammar().tokens()
		for _, f := range p.files {
			e := p.recogniser(c, f)
			if e == nil {
				return
			}
			try := func(m mutant) {
				if !e.upTo(gpos(f.toks, m.from)).rest(gtoks(m.toks[m.from:])) {
					p.refuse(c, scratchDir(), f, m, plain)
				}
				c.Count("mutants", 1)
			}
			for i := range f.toks {
				try(mutant{"cut off before " + f.toks[i].text, i, splice(f.toks, i, len(f.toks)-i)})
				try(mutant{"without " + f.toks[i].text, i, splice(f.toks, i, 1)})
				if i+1 < len(f.toks) {
					try(mutant{"with " + f.toks[i].text + " and " + f.toks[i+1].text + " exchanged", i, splice(f.toks, i, 2, f.toks[i+1], f.toks[i])})
				}
				for k, v := range vocab {
					if (k+i+pc.Id)%8 == 0 {
						try(mutant{"with " + v + " in place of " + f.toks[i].text, i, splice(f.toks, i, 1, mkTok(v))})
						try(mutant{"with " + v + " before " + f.toks[i].text, i, splice(f.toks, i, 0, mkTok(v))})
					}
				}
			}
		}
	}
	// some changes of some files
	kinds["mutants"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		vocab := loadGrammar().tokens()
		r := seedOf(c, pc.Id, 77)
		p.missing(c, filepath.Join(scratchDir(), "missing"), plain)
		for _, f := range p.files {
			e := p.recogniser(c, f)
			if e == nil {
				return
			}
			for n := 0; n < 25; n++ {
				m := mutant{from: len(f.toks), toks: f.toks}
				for k := 0; k < 1+r.n(3)/2; k++ {
					i := r.n(len(m.toks))
					if i < m.from {
						m.from = i
					}
					t := vocab[r.n(len(vocab))]
					switch r.n(6) {
					case 0:
						m.what += "cut off before " + m.toks[i].text + "; "
						m.toks = splice(m.toks, i, len(m.toks)-i)
					case 1:
						m.what += "without " + m.toks[i].text + "; "
						m.toks = splice(m.toks, i, 1)
					case 2:
						m.what += "with " + t + " in place of " + m.toks[i].text + "; "
						m.toks = splice(m.toks, i, 1, mkTok(t))
					case 3:
						m.what += "with " + t + " before " + m.toks[i].text + "; "
						m.toks = splice(m.toks, i, 0, mkTok(t))
					case 4:
						d := 1 + r.n(6)
						if i+d > len(m.toks) {
							d = len(m.toks) - i
						}
						m.what += "without tokens from " + m.toks[i].text + " on; "
						m.toks = splice(m.toks, i, d)
					case 5:
						j := r.n(len(m.toks))
						m.what += "with " + m.toks[j].text + " in place of " + m.toks[i].text + "; "
						m.toks = splice(m.toks, i, 1, m.toks[j])
					}
					if len(m.toks) == 0 {
						break
					}
				}
				if m.from > len(m.toks) {
					m.from = len(m.toks)
				}
				if !e.upTo(gpos(f.toks, m.from)).rest(gtoks(m.toks[m.from:])) {
					p.refuse(c, scratchDir(), f, m, plain)
				}
				c.Count("mutants", 1)
			}
		}
	}
}

// missing: the program is refused when one of its files is not there.
func (p *pprog) missing(c *Ctx, dir string, lay func(int) *layout) {
	for _, f := range p.files {
		os.RemoveAll(dir)
		if err := os.Mkdir(dir, 0o755); err != nil {
			panic(err)
		}
		p.parseWith(dir, nil, nil, lay)
		path := filepath.Join(dir, f.name+".pas")
		if f.name == "Main" {
			path = filepath.Join(dir, f.name+".dpr")
		}
		if err := os.Remove(path); err != nil {
			panic(err)
		}
		var res *parser.Program
		var err error
		pan := guard(func() { res, err = parser.ParseProgram(filepath.Join(dir, "Main.dpr")) })
		if pan != "" {
			c.Violation("C05", "file of %s is missing: %s", f.name, pan)
		}
		if pan != "" || err == nil || res != nil {
			c.Violation("C17", "file of %s is missing: %s error %v, tree %v", f.name, pan, err, res != nil)
		}
		c.Count("missing files", 1)
	}
}
