package main

import (
	"bytes"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
)

// Places of programs which the recogniser tells apart: the productions which are under way there
// (with those around them, up to ctx levels) and the token before. Every such place is changed
// in every way, in one program (or reps programs) only.

type coverCase struct {
	Path string `json:"path"`
	K    int    `json:"k"`
	Of   int    `json:"of"`
	Ctx  int    `json:"ctx"`
	Reps int    `json:"reps"`
	Each int    `json:"each"` // one in so many of the other tokens
}

func (e *earley) place(k, ctx int) uint64 {
	set := map[uint64]bool{}
	var up func(col int, it eitem, lev int)
	up = func(col int, it eitem, lev int) {
		id := uint64(it.rule)<<20 | uint64(it.dot)<<8 | uint64(lev)
		if lev > 0 && set[id] {
			return
		}
		set[id] = true
		if lev < ctx {
			for _, w := range e.cols[it.origin].wait[e.g.rules[it.rule].lhs] {
				up(int(it.origin), w, lev+1)
			}
		}
	}
	for _, it := range e.cols[k].items {
		if it.dot > 0 {
			up(k, it, 0)
		}
	}
	var ids []uint64
	for id := range set {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	h := fnv.New64a()
	var b [8]byte
	for _, id := range ids {
		for i := range b {
			b[i] = byte(id >> (8 * i))
		}
		h.Write(b[:])
	}
	return h.Sum64()
}

func tokenKind(t ptok) string {
	g := gtoks([]ptok{t})
	if g[0].cls != 0 {
		return string(g[0].cls)
	}
	return g[0].up
}

// tokens which are put everywhere
var alwaysTokens = map[string]bool{}

func init() {
	for _, t := range []string{";", ",", ".", ":", ":=", "..", "(", ")", "[", "]", "^", "@", "=", "+", "*", "end", "begin", "a", "1", "'s'", "of", "else", "do", "not", "in"} {
		alwaysTokens[t] = true
	}
	plain := func(int) *layout { return &layout{kind: 0, r: &rnd{x: 1}} }
	kinds["cover"] = func(c *Ctx, line []byte) {
		var cc coverCase
		mustJSON(line, &cc)
		vocab := loadGrammar().tokens()
		seen := map[string]int{}
		data, err := os.ReadFile(cc.Path)
		if err != nil {
			panic(err)
		}
		// the smallest programs first
		lines := bytes.Split(bytes.TrimSpace(data), []byte("\n"))
		sort.SliceStable(lines, func(i, j int) bool { return len(lines[i]) < len(lines[j]) })
		for _, l := range lines {
			var pc pasCase
			mustJSON(l, &pc)
			p := parseItems(pc.X)
			p.written = map[string]*pfile{}
			for _, f := range p.files {
				e := p.recogniser(c, f)
				if e == nil {
					return
				}
				try := func(m mutant) {
					if !e.upTo(gpos(f.toks, m.from)).rest(gtoks(m.toks[m.from:])) {
						p.refuse(c, scratchDir(), f, m, plain)
					}
					c.Count("mutants", 1)
				}
				for i := range f.toks {
					pl := e.place(gpos(f.toks, i), cc.Ctx)
					if int(pl%uint64(cc.Of)) != cc.K {
						continue
					}
					next := tokenKind(f.toks[i])
					key := f.startSymbol() + " " + strconv.FormatUint(pl, 16)
					if i > 0 {
						key += " " + tokenKind(f.toks[i-1])
					}
					if seen[key+" > "+next] < cc.Reps {
						if seen[key+" > "+next]++; seen[key+" > "+next] == 1 {
							c.Count("places and tokens", 1)
						}
						try(mutant{"cut off before " + f.toks[i].text, i, splice(f.toks, i, len(f.toks)-i)})
						try(mutant{"without " + f.toks[i].text, i, splice(f.toks, i, 1)})
						if i+1 < len(f.toks) {
							try(mutant{"with " + f.toks[i].text + " and " + f.toks[i+1].text + " exchanged", i, splice(f.toks, i, 2, f.toks[i+1], f.toks[i])})
							try(mutant{"without " + f.toks[i].text + " " + f.toks[i+1].text, i, splice(f.toks, i, 2)})
						}
						try(mutant{"with " + f.toks[i].text + " twice", i, splice(f.toks, i, 0, f.toks[i])})
						if i > 0 {
							try(mutant{"with " + f.toks[i-1].text + " twice", i, splice(f.toks, i, 0, f.toks[i-1])})
						}
					}
					if seen[key] >= cc.Reps {
						continue
					}
					if seen[key]++; seen[key] == 1 {
						c.Count("places", 1)
					}
					for k, v := range vocab {
						if alwaysTokens[v] || (k+int(pl>>32))%cc.Each == 0 {
							try(mutant{"with " + v + " in place of " + f.toks[i].text, i, splice(f.toks, i, 1, mkTok(v))})
							try(mutant{"with " + v + " before " + f.toks[i].text, i, splice(f.toks, i, 0, mkTok(v))})
						}
					}
				}
			}
		}
	}
}
