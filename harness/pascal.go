package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// A case of the machine of Pascal.tla.
type pasCase struct {
	Id int      `json:"id"`
	X  []string `json:"x"`
}

type ptok struct {
	text  string
	ident bool
	glue  bool // a minus after an operand: a numeral may follow without a blank
}

// expected event
type want struct {
	mark   string
	name   string
	tok    int // token of an identifier
	decl   int // declaration number
	kind   string
	target string // "" none of: number, emb, none, ?k
	isRef  bool
	fwd    bool
}
type pfile struct {
	name string
	toks []ptok
	evs  []want
}
type pprog struct {
	files   []*pfile // the program is the last one
	byName  map[string]*pfile
	listed  []string
	bad     string
	region  [2]int            // tokens of the part which was explored exhaustively
	written map[string]*pfile // what parseWith has written, if it need not write it again
}

func (f *pfile) token(s string, ident bool) int {
	f.toks = append(f.toks, ptok{text: s, ident: ident})
	return len(f.toks) - 1
}

// stops: errors by which a visitor ends a walk, those which others take as signals among them.
var stops = []error{errors.New("stop"), io.EOF, filepath.SkipDir, context.Canceled, errors.New(""), os.ErrNotExist}

// longNames: three names which differ only in their last one of 260 characters.
var longNames = func() map[string]string {
	r := map[string]string{}
	for i, n := range []string{"a", "b", "Count"} {
		r[n] = strings.Repeat("LongName_", 28) + "Long12" + []string{"x", "y", "z"}[i]
	}
	return r
}()

var japaneseNames = map[string]string{"a": "あいう", "b": "ｱx", "Count": "Xあ1", "n": "い"}

// rename gives the names of some of the programs other spellings, the same one everywhere.
func rename(items []string) []string {
	names := map[int]map[string]string{3: longNames, 5: japaneseNames}[len(items)%7]
	if names == nil || len(items) > 2000 {
		return items
	}
	r := make([]string, len(items))
	for k, it := range items {
		r[k] = it
		if c := it[0]; c == '.' || c == '!' || c == '#' {
			a := strings.SplitN(it[1:], "~", 2)
			if n, ok := names[a[0]]; ok {
				a[0] = n
				r[k] = it[:1] + strings.Join(a, "~")
			}
		}
	}
	return r
}

func parseItems(items []string) *pprog {
	items = rename(items)
	p := &pprog{byName: map[string]*pfile{}}
	var f *pfile
	patch := map[string]string{}
	for k, it := range items {
		if len(it) == 0 {
			panic("empty item")
		}
		s := it[1:]
		switch it[0] {
		case '%':
			f = p.byName[s]
			if f == nil {
				f = &pfile{name: s}
				p.byName[s] = f
				p.files = append(p.files, f)
			}
		case '=':
			f.token(s, false)
			if s == "-" && k+1 < len(items) && items[k+1] == "@op:-" {
				f.toks[len(f.toks)-1].glue = true
			}
		case '@':
			f.evs = append(f.evs, want{mark: s})
		case '.':
			f.evs = append(f.evs, want{name: s, tok: f.token(s, true)})
		case '!':
			a := strings.Split(s, "~")
			n, err := strconv.Atoi(a[1])
			if err != nil {
				panic(it)
			}
			f.evs = append(f.evs, want{name: a[0], tok: f.token(a[0], true), decl: n, kind: a[2]})
			if a[2] == "uses" && f.name == "Main" {
				p.listed = append(p.listed, a[0])
			}
		case '#':
			a := strings.Split(s, "~")
			f.evs = append(f.evs, want{name: a[0], tok: f.token(a[0], true), isRef: true, target: a[1]})
		case '>':
			f.evs = append(f.evs, want{fwd: true, target: s})
		case '&':
			a := strings.Split(s, "~")
			patch["?"+a[0]] = a[1]
		case '^':
			if s == "from" {
				p.region[0] = len(f.toks)
			} else {
				p.region[1] = len(f.toks)
			}
		case '$':
			if strings.HasPrefix(s, "bad~") {
				p.bad = s[4:]
			}
		default:
			panic("item " + it)
		}
	}
	for _, f := range p.files {
		for i := range f.evs {
			if t, ok := patch[f.evs[i].target]; ok {
				f.evs[i].target = t
			}
		}
	}
	return p
}

// ------------------------------------------------------------------ rendering

type rnd struct{ x uint64 }

func (r *rnd) n(m int) int {
	r.x = r.x*6364136223846793005 + 1442695040888963407
	return int((r.x >> 33) % uint64(m))
}

type layout struct {
	kind int // 0 one blank between tokens; 1 as little as possible; 2.. everything
	r    *rnd
	abs  bool // name files by their absolute paths
	file int  // how the unit files are named
}

// unitFile: the names of files need not be written as those of the units.
func unitFile(name string, k int) string {
	return []string{name, strings.ToLower(name), strings.ToUpper(name), strings.ToLower(name) + "_file"}[k%4] + ".pas"
}

func wordChar(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80
}

var twoChars = map[string]bool{":=": true, "<=": true, ">=": true, "<>": true, "..": true, "(.": true, ".)": true, "(*": true, "*)": true, "//": true}

func needsSep(a, b ptok) bool {
	x, y := a.text[len(a.text)-1], b.text[0]
	if wordChar(x) && wordChar(y) {
		return true
	}
	if x == '\'' && y == '\'' {
		return true
	}
	if b.text == "." && (a.text[0] >= '0' && a.text[0] <= '9' || a.text[0] == '-') {
		return true // not a fraction
	}
	if a.text == "-" && (y == '-' || (y >= '0' && y <= '9')) {
		return !(a.glue && y != '-')
	}
	if y == '-' && len(b.text) > 1 && a.text != "-" {
		// a negative numeral after an operator
		return false
	}
	return twoChars[string([]byte{x, y})]
}

var seps = []string{" ", "\n", "\t", "  ", "\r\n", "{c}", "(* end *)", "// begin ' x\n", "{$R+}", " { ' } ", "(*\n*)", "\n\n", "{ あ }", "//\n", "(**)", "{}"}

func (l *layout) sep(need bool, first bool) string {
	switch l.kind {
	case 0:
		if first {
			return ""
		}
		return " "
	case 1:
		if need {
			return " "
		}
		return ""
	}
	n := l.r.n(4)
	if first {
		n--
	} else if need && n == 0 {
		n = 1
	}
	if l.r.n(3) > 0 && n > 1 {
		n = 1
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		s := seps[l.r.n(len(seps))]
		if first && (s[0] == '\n' || s[0] == '\r') {
			s = " "
		}
		sb.WriteString(s)
		first = false
	}
	return sb.String()
}

func (l *layout) word(s string) string {
	if l.kind == 0 || s[0] == '\'' {
		return s
	}
	switch l.r.n(5) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if c := b[i] | 0x20; c >= 'a' && c <= 'z' && l.r.n(2) == 0 {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
	return s
}

type span struct{ s, e astcore.Position }
type rendered struct {
	src   []byte // Shift_JIS
	names []string
	spans []span
	end   astcore.Position
}

var sjisBytes = map[rune]string{'あ': "\x82\xa0", 'い': "\x82\xa2", 'う': "\x82\xa4", 'ｱ': "\xb1"}

// render writes the tokens in ASCII and a few Japanese characters.
func render(toks []ptok, l *layout) *rendered {
	r := &rendered{}
	var sb strings.Builder
	pos := astcore.Position{Line: 1, Col: 1, Index: 0}
	put := func(s string) {
		for _, c := range s {
			if c < 0x80 {
				sb.WriteByte(byte(c))
			} else if b, ok := sjisBytes[c]; ok {
				sb.WriteString(b)
			} else {
				panic("no Shift_JIS for " + string(c))
			}
			pos.Index++
			if c == '\n' {
				pos.Line++
				pos.Col = 1
			} else {
				pos.Col++
			}
		}
	}
	for i, t := range toks {
		if i == 0 {
			put(l.sep(false, true))
		} else {
			a := toks[i-1]
			if t.text[0] == '$' {
				a.text = "x"
			}
			sep := l.sep(needsSep(a, t), false)
			if a.text == "/" && strings.HasPrefix(sep, "/") {
				sep = " " + sep
			}
			put(sep)
		}
		s := t.text
		if s[0] != '\'' && wordChar(s[0]) {
			s = l.word(s)
		}
		st := pos
		put(s)
		r.spans = append(r.spans, span{st, pos})
		r.names = append(r.names, s)
	}
	if l.kind > 1 {
		put(l.sep(false, false))
	} else {
		put("\n")
	}
	r.src = []byte(sb.String())
	r.end = pos
	return r
}

// ------------------------------------------------------------------ attribution

var catOf = map[string]string{}

func init() {
	for cat, marks := range map[string]string{
		"C06": "(e (s (t (df (d (args (idx (not (paren (addr (set (el (cast nil ^ .",
		"C07": "(st label (if else (while (for to downto (with do (call (:= inherited (goto (begin (case (sel (cl (repeat until (try except finally (on (raise at asm",
		"C08": "(tid (sub (enum (en (str[ (array of packed (setof (file (record (f (variant tag (rv (ptr (proc (func ofobj (consts (c (types (ty (vars (v abs (tvars (tv (label (classof =",
		"C09": "(fd (ph (fh (ps (p VAR CONST OUT nobody (blk (eh (exports (x name index arrayof const",
		"C10": "(class (her (sec (cf (m (ctor (dtor (prop read write stored default nodefault implements fwd : classmethod",
		"C12": "(unit (program intf impl init final (uses (u",
	} {
		for _, m := range strings.Fields(marks) {
			catOf[m] = cat
		}
	}
}
func category(mark string) string {
	if c, ok := catOf[mark]; ok {
		return c
	}
	for pre, c := range map[string]string{"op:": "C06", "sign:": "C06", "n:": "C06", "str:": "C06", "v:TRUE": "C06", "v:FALSE": "C06", "d:": "C09", "lib:": "C09",
		"extname:": "C09", "extindex:": "C09", "v:": "C10", "stored:": "C10", "port:": "C08", "path:": "C12"} {
		if strings.HasPrefix(mark, pre) {
			if pre == "v:" && (mark == "v:TRUE" || mark == "v:FALSE") {
				continue
			}
			return c
		}
	}
	return ""
}

var nodeKinds = map[string][]string{
	"const": {"*ast.ConstantDecl"}, "var": {"*ast.VarDecl", "*ast.ThreadVarDecl"}, "type": {"*ast.TypeDecl"}, "enum": {"*ast.EnumeratedTypeElement"},
	"func": {"*ast.FunctionDecl", "*ast.ExportedHeading"}, "param": {"*ast.FormalParm"}, "exc": {"*ast.ExceptionBlockHandlerDecl"}, "label": {"*ast.LabelDeclSection"},
	"uses": {"*ast.UsesClauseItem"}, "unit": {"*ast.Unit"}, "prog": {"*ast.Program"}, "field": {"*ast.ClassField"}, "method": {"*ast.ClassMethod"}, "prop": {"*ast.ClassProperty"},
}

type parsed struct {
	prog *parser.Program
	err  error
	p    string
	text map[string]*rendered
	dir  string
	path map[string]string // how the file of a unit is named in the program
}

// withPaths names the files of the units.
func withPaths(toks []ptok, dir string, l *layout) []ptok {
	r := append([]ptok{}, toks...)
	for j := range r {
		if strings.HasPrefix(r[j].text, "$") {
			r[j].text = "'" + unitPath(dir, unitFile(r[j].text[1:], l.file), l) + "'"
		}
	}
	return r
}

// unitPath: absolute, or relative to the program, with any separator.
func unitPath(dir, file string, l *layout) string {
	if l.abs || l.kind == 0 {
		return filepath.Join(dir, file)
	}
	if l.kind == 1 {
		return file
	}
	s := []string{filepath.Join(dir, file), file, "./" + file, "../" + filepath.Base(dir) + "/" + file}[l.r.n(4)]
	if l.r.n(2) == 0 {
		s = strings.ReplaceAll(s, "/", "\\")
	}
	return s
}

func (p *pprog) fileNames() int { return len(p.byName["Main"].toks) % 4 }

// build renders all files of the program and parses it.
func (p *pprog) build(dir string, lay func(file int) *layout) *parsed {
	res := &parsed{text: map[string]*rendered{}, dir: dir, path: map[string]string{}}
	main := ""
	for i, f := range p.files {
		ext := ".pas"
		if f.name == "Main" {
			ext = ".dpr"
		}
		l := lay(i)
		l.file = p.fileNames()
		toks := withPaths(f.toks, dir, l)
		for j := range toks {
			if toks[j].text != f.toks[j].text {
				res.path[f.toks[j].text] = toks[j].text
			}
		}
		r := render(toks, l)
		res.text[f.name] = r
		path := filepath.Join(dir, f.name+ext)
		if ext == ".pas" {
			path = filepath.Join(dir, unitFile(f.name, l.file))
		}
		writeFile(path, r.src)
		if f.name == "Main" {
			main = path
		}
	}
	res.p = guard(func() { res.prog, res.err = parser.ParseProgram(main) })
	return res
}

func (p *pprog) source(r *parsed) string {
	var sb strings.Builder
	for _, f := range p.files {
		fmt.Fprintf(&sb, "--- %s\n%s\n", f.name, r.text[f.name].src)
	}
	return sb.String()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// around shows the text near a token.
func (r *rendered) around(tok int) string {
	a, b := tok-12, tok+12
	if a < 0 {
		a = 0
	}
	if b > len(r.names) {
		b = len(r.names)
	}
	return strings.Join(r.names[a:b], " ")
}

type found struct {
	file string
	tok  int
	node astcore.Node
	w    *want
}

// compare reports every difference between the tree and the one of the machine.
func (p *pprog) compare(c *Ctx, res *parsed) {
	running := os.Getenv("VH_PROP")
	if res.p != "" {
		c.Violation("C05", "%s: %s", p.source(res), res.p)
		if running != "C05" {
			c.Violation(running, "%s: %s", p.source(res), res.p)
		}
		return
	}
	if res.err != nil {
		c.Violation(running, "refused: %v\n%s", res.err, p.source(res))
		return
	}
	got := map[string][]event{}
	if e := guard(func() {
		got["Main"] = dumpProgram(res.prog.Program)
		for _, u := range res.prog.Units {
			got[u.Ident.Name] = dumpUnit(u)
		}
	}); e != "" {
		c.Violation(running, "the tree is incomplete: %s\n%s", e, p.source(res))
		return
	}
	for name, ev := range got {
		for _, f := range p.files {
			if strings.EqualFold(f.name, name) && f.name != name {
				got[f.name] = ev
				delete(got, name)
			}
		}
	}
	// units in the order of the listing, with their paths
	var names []string
	for _, n := range p.listed {
		if n != "SysUtils" {
			names = append(names, n)
		}
	}
	if len(names) != len(res.prog.Units) {
		c.Violation("C12", "%d units are loaded, %d are listed\n%s", len(res.prog.Units), len(names), p.source(res))
		return
	}
	for i, u := range res.prog.Units {
		if !strings.EqualFold(u.Ident.Name, names[i]) || filepath.Clean(u.Path) != filepath.Join(res.dir, unitFile(names[i], p.fileNames())) {
			c.Violation("C12", "loaded unit %d is %s from %s\n%s", i+1, u.Ident.Name, u.Path, p.source(res))
			return
		}
	}
	if res.prog.Path != filepath.Join(res.dir, "Main.dpr") {
		c.Violation("C12", "path of the program is %s", res.prog.Path)
	}
	// structure
	ok := true
	byIdent := map[*ast.Ident]found{}
	byNum := map[int]found{}
	n := map[string]int{}
	for _, f := range p.files {
		gev := got[f.name]
		txt := res.text[f.name]
		stack := []string{}
		lastTok := 0
		i := 0
		for ; i < len(f.evs) || i < len(gev); i++ {
			var w want
			var g event
			if i < len(f.evs) {
				w = f.evs[i]
			} else {
				w.mark = "nothing"
			}
			if i < len(gev) {
				g = gev[i]
			} else {
				g.Mark = "nothing"
			}
			same := false
			wm := w.mark
			if strings.HasPrefix(wm, "path:$") {
				wm = "path:" + res.path[wm[5:]]
			}
			switch {
			case w.mark != "":
				same = g.Mark == wm
			case w.fwd:
				same = g.IsFwd
			default:
				same = g.Mark == "" && !g.IsFwd && g.Decl == (w.decl > 0) && g.HasRef == w.isRef && strings.EqualFold(g.Name, w.name)
				lastTok = w.tok
			}
			if !same {
				ok = false
				cats := map[string]bool{}
				add := func(m string) {
					if x := category(m); x != "" {
						cats[x] = true
					}
				}
				add(wm)
				add(g.Mark)
				if len(stack) > 0 {
					add(stack[len(stack)-1])
				}
				for _, m := range []string{wm, g.Mark} {
					switch m {
					case "(cast": // whether the name denotes a type
						cats["C13"], cats["C14"] = true, true
					case "ns":
						cats["C14"] = true
					}
				}
				if len(cats) == 0 {
					cats[running] = true
				}
				ws := wm
				if ws == "" {
					ws = "name " + w.name
				}
				in := ""
				if len(stack) > 0 {
					in = stack[len(stack)-1]
				}
				for cat := range cats {
					c.Violation(cat, "%s, in %s near %q: the grammar says %s, the tree has %s\n%s", f.name, in, txt.around(lastTok), ws, g, p.source(res))
				}
				break
			}
			if strings.HasPrefix(w.mark, "(") {
				stack = append(stack, w.mark)
			} else if w.mark == ")" {
				stack = stack[:len(stack)-1]
			}
			if w.mark == "" && !w.fwd && g.Ident != nil {
				wi := w
				if w.decl > 0 {
					fd := found{f.name, w.tok, g.Node, &wi}
					byIdent[g.Ident] = fd
					byNum[w.decl] = fd
				}
				if g.Ident.Name != txt.names[w.tok] && running == "C03" {
					c.Violation("C03", "%s: the name %s is kept as %s\n%s", f.name, txt.names[w.tok], g.Ident.Name, p.source(res))
				}
				if loc := g.Ident.Location; loc == nil || loc.Start == nil || loc.End == nil {
					c.Violation("C03", "%s: %s near %q has no position", f.name, g.Name, txt.around(w.tok))
				} else if *loc.Start != txt.spans[w.tok].s || *loc.End != txt.spans[w.tok].e {
					c.Violation("C03", "%s: %s near %q is at %v-%v, the tree says %v-%v\n%s", f.name, g.Name, txt.around(w.tok), txt.spans[w.tok].s, txt.spans[w.tok].e,
						*loc.Start, *loc.End, p.source(res))
				}
				n["identifiers"]++
			}
		}
		n["events"] += i
	}
	if ok {
		for _, f := range p.files {
			for i, w := range f.evs {
				g := got[f.name][i]
				if w.fwd {
					k, _ := strconv.Atoi(w.target)
					td, _ := byNum[k].node.(*ast.TypeDecl)
					if td == nil || g.Fwd == nil || td.Type != g.Fwd {
						c.Violation("C10", "%s: the forward class is not joined with its full declaration\n%s", f.name, p.source(res))
					}
					continue
				}
				if !w.isRef {
					continue
				}
				n["references"]++
				p.compareRef(c, res, f, i, w, g, byIdent, byNum)
			}
		}
		p.walk(c, res, got)
	}
	for k, v := range n {
		c.Count(k, v)
	}
}

func (p *pprog) compareRef(c *Ctx, res *parsed, f *pfile, i int, w want, g event, byIdent map[*ast.Ident]found, byNum map[int]found) {
	qualified := i > 0 && f.evs[i-1].mark == "ns" || i > 1 && f.evs[i-2].mark == "ns"
	var gf found
	var known bool
	if g.Ref != nil {
		gf, known = byIdent[g.Ref.Ident]
	}
	wrong := ""
	props := map[string]bool{}
	gotWhat := "nothing"
	if g.Ref != nil {
		gotWhat = fmt.Sprintf("a %T outside of the files", g.Ref.Node)
		if known {
			gotWhat = fmt.Sprintf("%s declared in %s near %q", gf.w.kind, gf.file, res.text[gf.file].around(gf.tok))
			if gf.file != f.name {
				props["C14"] = true
			}
		}
	}
	switch w.target {
	case "none":
		if g.Ref != nil {
			wrong = "nothing"
		}
		props["C13"] = true
	case "emb":
		if g.Ref == nil || g.Ref != ast.EmbeddedTypeDeclMap.Get(w.name) {
			wrong = "the built-in type"
		}
		props["C13"] = true
	default:
		k, err := strconv.Atoi(w.target)
		if err != nil {
			panic("target " + w.target)
		}
		d := byNum[k]
		if d.file != f.name {
			props["C14"] = true
		} else {
			props["C13"] = true
		}
		switch d.w.kind {
		case "field", "method", "prop":
			props["C10"] = true
			props["C11"] = true
		}
		if !known || gf.file != d.file || gf.tok != d.tok {
			wrong = fmt.Sprintf("the %s declared in %s near %q", d.w.kind, d.file, res.text[d.file].around(d.tok))
		} else if g.Ref.Node != d.node {
			wrong = fmt.Sprintf("the declaration itself of the %s in %s near %q (%T)", d.w.kind, d.file, res.text[d.file].around(d.tok), g.Ref.Node)
		} else if ks := nodeKinds[d.w.kind]; !has(ks, fmt.Sprintf("%T", g.Ref.Node)) {
			wrong = fmt.Sprintf("a %v (it is a %T)", ks, g.Ref.Node)
		}
	}
	if qualified {
		props["C14"] = true
	}
	if wrong != "" {
		for pr := range props {
			c.Violation(pr, "%s: %s near %q refers to %s, it should refer to %s\n%s", f.name, g.Name, res.text[f.name].around(w.tok), gotWhat, wrong, p.source(res))
		}
	}
}

// walk checks that walking down visits the identifiers in source order.
func (p *pprog) walk(c *Ctx, res *parsed, got map[string][]event) {
	one := func(f *pfile, root astcore.Node) {
		var seen []*ast.Ident
		visits := 0
		stop := stops[c.k%len(stops)]
		stopAt := -1
		visit := func(n astcore.Node) error {
			visits++
			if visits == stopAt {
				return stop
			}
			switch x := n.(type) {
			case *ast.Ident:
				seen = append(seen, x)
			case *ast.VarDeclAbsoluteIdent:
				seen = append(seen, (*ast.Ident)(x))
			}
			return nil
		}
		var err error
		if e := guard(func() { err = astcore.WalkDown(root, visit) }); e != "" {
			c.Violation("C18", "walking %s: %s\n%s", f.name, e, p.source(res))
			c.Violation("C05", "walking %s: %s\n%s", f.name, e, p.source(res))
			return
		}
		if err != nil {
			c.Violation("C18", "walking %s gives %v\n%s", f.name, err, p.source(res))
			return
		}
		k := 0
		for i, g := range got[f.name] {
			if g.Ident == nil {
				continue
			}
			if k >= len(seen) || seen[k] != g.Ident {
				what := "ends"
				if k < len(seen) {
					what = "visits " + seen[k].Name
					for _, o := range p.files {
						for j, h := range got[o.name] {
							if h.Ident == seen[k] && o.evs[j].mark == "" {
								what += fmt.Sprintf(" (%s near %q)", o.name, res.text[o.name].around(o.evs[j].tok))
							}
						}
					}
				}
				c.Violation("C18", "%s: after %d identifiers the walk %s, the text goes on with %s near %q\n%s", f.name, k, what, g.Name,
					res.text[f.name].around(f.evs[i].tok), p.source(res))
				return
			}
			k++
		}
		if k != len(seen) {
			c.Violation("C18", "%s: the walk visits %d identifiers, the text has %d; %s comes in addition\n%s", f.name, len(seen), k, seen[k].Name, p.source(res))
			return
		}
		// the walk ends at the first error
		total := visits
		for _, at := range []int{1, total/2 + 1, total} {
			visits, stopAt, seen = 0, at, nil
			if e := guard(func() { err = astcore.WalkDown(root, visit) }); e != "" || err != stop || visits != at {
				c.Violation("C18", "%s: the visitor fails at visit %d, the walk makes %d visits and returns %v %s\n%s", f.name, at, visits, err, e, p.source(res))
				return
			}
		}
		c.Count("walked identifiers", k)
		onceEach(c, root, func() string { return f.name + "\n" + p.source(res) })
	}
	if os.Getenv("VH_PROP") != "C18" && os.Getenv("VH_PROP") != "C05" {
		return
	}
	one(p.byName["Main"], res.prog.Program)
	for _, u := range res.prog.Units {
		for _, f := range p.files {
			if strings.EqualFold(f.name, u.Ident.Name) {
				one(f, u)
			}
		}
	}
}

// onceEach: a walk visits no node twice.
func onceEach(c *Ctx, root astcore.Node, src func() string) {
	seen := map[uintptr]bool{}
	guard(func() {
		astcore.WalkDown(root, func(n astcore.Node) error {
			v := reflect.ValueOf(n)
			if v.Kind() == reflect.Ptr && v.Elem().Type().Size() > 0 {
				if seen[v.Pointer()] {
					c.Violation("C18", "a walk visits %T twice: %s", n, src())
					return fmt.Errorf("twice")
				}
				seen[v.Pointer()] = true
			}
			return nil
		})
	})
}

func seedOf(c *Ctx, id, k int) *rnd {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &rnd{x: uint64(s)*1000003 + uint64(id)*7919 + uint64(k)*104729 + 17}
	r.n(2)
	return r
}

func (c *Ctx) layout(id, k, kind int) func(int) *layout {
	return func(file int) *layout {
		kd := kind
		if e := os.Getenv("VH_LAYOUT"); e != "" {
			kd, _ = strconv.Atoi(e)
		}
		if kd > 1 {
			kd = 2
		}
		return &layout{kind: kd, r: seedOf(c, id, k*31+file)}
	}
}

func init() {
	// every program of the machine gives the tree of the machine
	kinds["pascal"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		kind := pc.Id % 4
		if len(p.files) == 1 {
			kind = (pc.Id + c.k) % 4
		}
		res := p.build(scratchDir(), c.layout(pc.Id, c.k, kind))
		if p.bad != "" {
			return
		}
		p.compare(c, res)
		c.Count("tokens", len(p.files[len(p.files)-1].toks))
	}
}

func init() {
	// a program with one mistake must be refused
	kinds["pascal-bad"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		p := parseItems(pc.X)
		if p.bad == "" {
			p.compare(c, p.build(scratchDir(), c.layout(pc.Id, c.k, pc.Id%4)))
			c.Count("without a mistake", 1)
			return
		}
		for k := 0; k < 2; k++ {
			res := p.build(scratchDir(), c.layout(pc.Id, c.k, k*2))
			if res.p != "" {
				c.Violation("C05", "%s: %s", p.source(res), res.p)
			}
			if res.p != "" || res.err == nil {
				c.Violation(os.Getenv("VH_PROP"), "accepted although %s %s\n%s", p.bad, res.p, p.source(res))
			} else if res.prog != nil {
				c.Violation("C17", "an error and a tree\n%s", p.source(res))
			}
		}
		c.Count("refused", 1)
	}
}

// alone gives the items as they come out as long as a program without uses clause does not know its own name.
func alone(x []string) (r []string, changed bool) {
	for i := 0; i < len(x); i++ {
		if x[i] == "@ns" && i+3 < len(x) && strings.HasPrefix(x[i+1], "#Main~") {
			r = append(r, "#Main~none", "@.", "=.", "."+strings.SplitN(x[i+3][1:], "~", 2)[0])
			i, changed = i+3, true
		} else if x[i] == "@ns" && i+3 < len(x) && x[i+1] == ".Main" {
			r = append(r, x[i:i+3]...)
			r = append(r, strings.SplitN(x[i+3], "~", 2)[0]+"~none")
			i, changed = i+3, true
		} else {
			r = append(r, x[i])
		}
	}
	return r, changed
}

func init() {
	// programs without uses clause which qualify names by the name of the program
	kinds["pascal-alone"] = func(c *Ctx, line []byte) {
		var pc pasCase
		mustJSON(line, &pc)
		other, changed := alone(pc.X)
		if !changed {
			return
		}
		lay := c.layout(pc.Id, c.k, 0)
		quiet := &Ctx{k: c.k, out: bufio.NewWriter(io.Discard), stats: map[string]int{}}
		p := parseItems(pc.X)
		p.compare(quiet, p.build(scratchDir(), lay))
		bad := 0
		for k, n := range quiet.stats {
			if strings.HasPrefix(k, "V:") {
				bad += n
			}
		}
		if bad == 0 {
			return // as it should be
		}
		quiet.stats = map[string]int{}
		q := parseItems(other)
		res := q.build(scratchDir(), lay)
		q.compare(quiet, res)
		for k := range quiet.stats {
			if strings.HasPrefix(k, "V:") {
				q.compare(c, res)
				return
			}
		}
		c.Known("C14", "in a program without uses clause a name qualified by the name of the program\n%s", p.source(res))
		c.Count("alone", 1)
	}
}
