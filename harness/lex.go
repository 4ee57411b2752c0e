package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
)

// characters of the specification which have symbolic names
var symbolic = map[string]string{
	"NUL": "\x00", "KANA": "\u3042", "KANJI": "\u8868", "EACUTE": "\u00e9", "WIDESP": "\u3000", "NBSP": "\u00a0",
	"VT": "\v", "FF": "\f", "WIDE1": "\uff11", "DEL": "\x7f", "ESC": "\x1b", "BOM": "\ufeff", "HALFKANA": "\uff71", "YEN": "\u00a5",
}

func textOf(chars []string) []rune {
	var sb strings.Builder
	for _, c := range chars {
		if s, ok := symbolic[c]; ok {
			sb.WriteString(s)
		} else {
			sb.WriteString(c)
		}
	}
	return []rune(sb.String())
}

var kindNames = map[token.Type]string{
	token.EOF: "eof", token.Space: "blank", token.Comment: "comment", token.SpecialSymbol: "symbol", token.Identifier: "ident",
	token.ReservedWord: "reserved", token.NumeralInt: "int", token.NumeralReal: "real", token.CharacterString: "string", token.Unknown: "unknown",
}

func kindOf(t *token.Token) string {
	if s, ok := kindNames[t.Type]; ok {
		return s
	}
	return fmt.Sprintf("type%d", t.Type)
}

type mtok struct {
	Kind         string
	S, E         int
	L, C, L2, C2 int
}

func (m *mtok) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&m.Kind, &m.S, &m.E, &m.L, &m.C, &m.L2, &m.C2})
}

type lexCase struct {
	X []string              `json:"x"`
	T []mtok                `json:"t"`
	P [][2]int              `json:"p"` // line and column of every index
	Q [][2]int              `json:"q"` // the same with the known deviation, when the text begins with a line feed
	F struct{ Sp, Cm bool } `json:"f"`
	O []hop                 `json:"o"`
}
type hop struct {
	Op   string
	H, K int
}

func (m *hop) UnmarshalJSON(b []byte) error {
	return json.Unmarshal(b, &[]interface{}{&m.Op, &m.H, &m.K})
}

func mustJSON(line []byte, v interface{}) {
	if err := json.Unmarshal(line, v); err != nil {
		panic(fmt.Sprintf("bad case: %v: %.200s", err, line))
	}
}

func flagsOf(sp, cm bool) token.TokeninzerFlag {
	var f token.TokeninzerFlag
	if sp {
		f |= token.LoadSpace
	}
	if cm {
		f |= token.LoadComment
	}
	return f
}

func tokStr(t *token.Token) string {
	if t == nil {
		return "nil"
	}
	return fmt.Sprintf("%s[%d,%d)", kindOf(t), t.Start.Index, t.End.Index)
}

// readAll reads to the end of file, at most len(text)+2 tokens.
func readAll(tk *token.Tokenizer, n int) ([]*token.Token, bool) {
	r := []*token.Token{}
	for j := 0; j < n+2; j++ {
		t := tk.GetNext()
		r = append(r, t)
		if t == nil {
			return r, false
		}
		if t.Type == token.EOF {
			return r, true
		}
	}
	return r, false
}

func sameTok(a, b *token.Token) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Type == b.Type && *a.Start == *b.Start && *a.End == *b.End && string(a.Raw()) == string(b.Raw())
}

func sameToks(a, b []*token.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameTok(a[i], b[i]) {
			return false
		}
	}
	return true
}

func checkPos(c *Ctx, lc *lexCase, src string, what string, p *runes.Position) {
	if p.Index < 0 || p.Index >= len(lc.P) {
		c.Violation("C03", "%q: %s is outside of the text: index %d", src, what, p.Index)
		return
	}
	got := [2]int{p.Line, p.Col}
	if want := lc.P[p.Index]; got != want {
		if len(lc.Q) > 0 && got == lc.Q[p.Index] {
			c.Known("C03", "line numbers in a text whose first character is a line feed: %q: %s at index %d is at %v, expected %v", src, what, p.Index, got, want)
			return
		}
		c.Violation("C03", "%q: %s at index %d is at line,column %v, expected %v", src, what, p.Index, got, want)
	}
}

func runLex(c *Ctx, line []byte) {
	var lc lexCase
	mustJSON(line, &lc)
	text := textOf(lc.X)
	src := string(text)
	if len(src) > 200 {
		src = src[:200]
	}
	p := guard(func() { lexBody(c, &lc, text, src) })
	if p != "" {
		for _, id := range []string{"C01", "C02", "C03", "C05"} {
			c.Violation(id, "reading %q: %s", src, p)
		}
	}
}

func lexBody(c *Ctx, lc *lexCase, text []rune, src string) {
	orig := append([]rune{}, text...)
	tk := token.NewTokenizer(&text, token.LoadSpace|token.LoadComment)
	all, ended := readAll(tk, len(text))
	if !ended {
		for _, id := range []string{"C01", "C02", "C05"} {
			c.Violation(id, "%q: no end of file after %d reads", src, len(all))
		}
		return
	}
	// C01: tiling
	pos := 0
	var raw strings.Builder
	for _, t := range all {
		if t.Start.Index != pos || (t.Type != token.EOF && t.End.Index <= t.Start.Index) || t.End.Index > len(text) {
			c.Violation("C01", "%q: token %s does not continue at index %d", src, tokStr(t), pos)
			return
		}
		raw.WriteString(t.RawString())
		pos = t.End.Index
	}
	last := all[len(all)-1]
	if raw.String() != string(orig) || last.Start.Index != len(orig) || last.End.Index != len(orig) {
		c.Violation("C01", "%q: the tokens put together are %q", src, raw.String())
	}
	for j := 0; j < 3; j++ {
		t := tk.GetNext()
		if t == nil || t.Type != token.EOF || t.Start.Index != len(orig) || t.End.Index != len(orig) {
			c.Violation("C01", "%q: read after the end gives %s", src, tokStr(t))
		}
	}
	// C01: flags
	for f := 0; f < 3; f++ {
		sp, cm := f&1 != 0, f&2 != 0
		got, ok := readAll(token.NewTokenizer(&text, flagsOf(sp, cm)), len(text))
		want := []*token.Token{}
		for _, t := range all {
			if (t.Type != token.Space || sp) && (t.Type != token.Comment || cm) {
				want = append(want, t)
			}
		}
		if !ok || len(got) != len(want) {
			c.Violation("C01", "%q: with blanks %v, comments %v: %d tokens, expected %d", src, sp, cm, len(got), len(want))
			continue
		}
		for j := range want {
			if got[j].Type != want[j].Type || got[j].Start.Index != want[j].Start.Index || got[j].End.Index != want[j].End.Index {
				c.Violation("C01", "%q: with blanks %v, comments %v: token %s, expected %s", src, sp, cm, tokStr(got[j]), tokStr(want[j]))
				break
			}
			checkPos(c, lc, src, tokStr(got[j])+" start", got[j].Start)
			checkPos(c, lc, src, tokStr(got[j])+" end", got[j].End)
		}
		// copies at every moment
		if len(want) <= 40 {
			tk := token.NewTokenizer(&text, flagsOf(sp, cm))
			for j := 0; ; j++ {
				rest, ok := readAll(tk.Clone(), len(text))
				if !ok || !sameToks(rest, got[j:]) {
					c.Violation("C01", "%q: a copy of the reader after %d tokens gives other tokens than the reader", src, j)
					break
				}
				if j == len(got)-1 {
					break
				}
				if t := tk.GetNext(); !sameTok(t, got[j]) {
					c.Violation("C01", "%q: reading a copy of the reader changes the reader: token %s, expected %s", src, tokStr(t), tokStr(got[j]))
					break
				}
			}
		}
	}
	// C02
	for j := 0; j < len(all) && j < len(lc.T); j++ {
		t, m := all[j], lc.T[j]
		if kindOf(t) != m.Kind || t.Start.Index != m.S || t.End.Index != m.E {
			c.Violation("C02", "%q: token %s, expected %s[%d,%d)", src, tokStr(t), m.Kind, m.S, m.E)
			break
		}
		want := string(orig[m.S:m.E])
		if m.Kind == "reserved" {
			want = asciiUpper(want)
		}
		if t.Value() != want {
			c.Violation("C02", "%q: value of %s is %q, expected %q", src, tokStr(t), t.Value(), want)
			break
		}
	}
	if len(all) != len(lc.T) {
		c.Violation("C02", "%q: %d tokens, expected %d", src, len(all), len(lc.T))
	}
	// C03
	for _, t := range all {
		checkPos(c, lc, src, tokStr(t)+" start", t.Start)
		checkPos(c, lc, src, tokStr(t)+" end", t.End)
	}
	c.Count("tokens", len(all))
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, x := range b {
		if x >= 'a' && x <= 'z' {
			b[i] = x - 32
		}
	}
	return string(b)
}

// runHandles replays an interleaving of reads and copies.
func runHandles(c *Ctx, line []byte) {
	var lc lexCase
	mustJSON(line, &lc)
	text := textOf(lc.X)
	src := string(text)
	p := guard(func() { handlesBody(c, &lc, text, src) })
	if p != "" {
		for _, id := range []string{"C01", "C03", "C05"} {
			c.Violation(id, "reading %q: %s", src, p)
		}
	}
}

func handlesBody(c *Ctx, lc *lexCase, text []rune, src string) {
	all, ended := readAll(token.NewTokenizer(&text, token.LoadSpace|token.LoadComment), len(text))
	if !ended {
		c.Violation("C01", "%q: no end of file after %d reads", src, len(all))
		return
	}
	// the tokens themselves are the business of C02
	if len(all) != len(lc.T) {
		c.Count("skipped", 1)
		return
	}
	for j, t := range all {
		if kindOf(t) != lc.T[j].Kind || t.Start.Index != lc.T[j].S || t.End.Index != lc.T[j].E {
			c.Count("skipped", 1)
			return
		}
	}
	hs := []*token.Tokenizer{token.NewTokenizer(&text, flagsOf(lc.F.Sp, lc.F.Cm))}
	got := []*token.Token{}
	for n, o := range lc.O {
		if o.Op == "clone" {
			hs = append(hs, hs[o.H-1].Clone())
			continue
		}
		t := hs[o.H-1].GetNext()
		got = append(got, t)
		m := lc.T[o.K-1]
		if t == nil || kindOf(t) != m.Kind || t.Start.Index != m.S || t.End.Index != m.E {
			c.Violation("C01", "%q: after %v, operation %d: reader %d gives %s, expected %s[%d,%d)", src, lc.O[:n], n+1, o.H, tokStr(t), m.Kind, m.S, m.E)
			return
		}
	}
	// positions are looked at when the whole history is over
	n := 0
	for _, o := range lc.O {
		if o.Op == "next" {
			t := got[n]
			n++
			if t.Start.Index != lc.T[o.K-1].S || t.End.Index != lc.T[o.K-1].E {
				c.Violation("C01", "%q: %v: a token which was returned before is changed by later reads to %s", src, lc.O, tokStr(t))
			}
			checkPos(c, lc, src, fmt.Sprintf("%v: %s start", lc.O, tokStr(t)), t.Start)
			checkPos(c, lc, src, fmt.Sprintf("%v: %s end", lc.O, tokStr(t)), t.End)
		}
	}
	c.Count("operations", len(lc.O))
}

func init() {
	kinds["lex"] = runLex
	kinds["handles"] = runHandles
}
