package main

import (
	"encoding/json"
	"strings"

	"github.com/akm/tparser/ast/astcore"
)

type dmNode struct{ decls astcore.Decls }

func (n *dmNode) Children() astcore.Nodes       { return astcore.Nodes{} }
func (n *dmNode) ToDeclarations() astcore.Decls { return n.decls }

type dmCase struct {
	T [][]json.RawMessage `json:"t"`
	H []struct {
		Op string           `json:"op"`
		M  int              `json:"m"`
		N  []string         `json:"n"`
		R  string           `json:"r"`
		F  []map[string]int `json:"f"`
	} `json:"h"`
}

var dmSpell = map[string][]string{
	"a": {"alpha", "Alpha", "ALPHA", "aLpHa"},
	"b": {"été_1", "ÉTÉ_1", "Été_1", "éTé_1"},
	"c": {"alpha2", "Alpha2", "ALPHA2", "aLpHa2"}, // begins like another one
	"d": {"_", "_", "_", "_"},
	"e": spellings(longName + "_X"),
	"f": spellings(longName + "_Y"),
}

var longName = strings.Repeat("Some_Long_Name_", 20)

func spellings(n string) []string {
	l, u := strings.ToLower(n), strings.ToUpper(n)
	return []string{n, l, u, u[:len(u)-1] + l[len(l)-1:]}
}

func init() {
	kinds["declmap"] = func(c *Ctx, line []byte) {
		var dc dmCase
		mustJSON(line, &dc)
		var maps []astcore.DeclMap
		for _, t := range dc.T {
			var kind string
			mustJSON(t[0], &kind)
			switch kind {
			case "plain":
				maps = append(maps, astcore.NewDeclMap())
			case "chain":
				var k int
				mustJSON(t[1], &k)
				maps = append(maps, astcore.NewChainedDeclMap(maps[k-1]))
			case "comp":
				var ks []int
				mustJSON(t[1], &ks)
				var parts []astcore.DeclMap
				for _, k := range ks {
					parts = append(parts, maps[k-1])
				}
				maps = append(maps, astcore.NewCompositeDeclMap(parts...))
			}
		}
		decls := map[int]*astcore.Decl{}
		spell := func(n string, k int) string { return dmSpell[n][(k+c.k)%4] }
		for i, h := range dc.H {
			mk := func(j int, n string, node astcore.Node) *astcore.Decl {
				d := astcore.NewDeclaration(&astcore.Ident{Name: spell(n, i+j), Location: astcore.NewLocation(nil, nil)}, node)
				decls[10*(i+1)+j] = d
				return d
			}
			var err error
			p := guard(func() {
				if h.Op == "set" {
					node := &dmNode{}
					for j, n := range h.N {
						node.decls = append(node.decls, mk(j+1, n, node))
					}
					err = maps[h.M-1].Set(node)
				} else {
					maps[h.M-1].Overwrite(spell(h.N[0], i+1), mk(0, h.N[0], nil))
				}
			})
			if p != "" {
				c.Violation("C21", "operation %d (%s %v on map %d) of the history: %s", i+1, h.Op, h.N, h.M, p)
				return
			}
			if h.R != "?" && (err != nil) != (h.R == "dup") {
				c.Violation("C21", "operation %d (%s %v on map %d): error is %v, the model says %q", i+1, h.Op, h.N, h.M, err, h.R)
				return
			}
			for k, f := range h.F {
				for n, want := range f {
					if want == -1 {
						continue
					}
					for s := 0; s < 4; s++ {
						got := maps[k].Get(dmSpell[n][s])
						c.Count("finds", 1)
						if got != decls[want] {
							c.Violation("C21", "after operation %d (%s %v on map %d), map %d: Get(%q) is %v, the model says declaration %d", i+1, h.Op, h.N, h.M, k+1, dmSpell[n][s], got, want)
							return
						}
					}
				}
			}
		}
	}
}
