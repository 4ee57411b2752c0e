package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
)

// A history of Sessions.tla.
type sessCase struct {
	Id int             `json:"id"`
	H  [][]interface{} `json:"h"`
}

// deepText writes everything reachable through the exported fields of a tree; what is met again is written as its number.
func deepText(v reflect.Value, seen map[uintptr]int, w *strings.Builder) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w.WriteString("nil ")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(w, "#%d ", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		deepText(v.Elem(), seen, w)
	case reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil ")
			return
		}
		w.WriteString(v.Elem().Type().String())
		deepText(v.Elem(), seen, w)
	case reflect.Struct:
		w.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" || f.Anonymous {
				w.WriteString(f.Name + ":")
				deepText(v.Field(i), seen, w)
			}
		}
		w.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(w, "[%d ", v.Len())
		for i := 0; i < v.Len(); i++ {
			deepText(v.Index(i), seen, w)
		}
		w.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		w.WriteString("(")
		for _, k := range keys {
			fmt.Fprintf(w, "%v=", k)
			deepText(v.MapIndex(k), seen, w)
		}
		w.WriteString(")")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	default:
		fmt.Fprintf(w, "%v ", v)
	}
}

// everything is what can be seen of the result of a parse.
func everything(p *parser.Program, err error, pan string, dir string) string {
	if pan != "" {
		return pan
	}
	if err != nil {
		return "error: " + noDir(err.Error(), dir)
	}
	if p == nil {
		return "nothing"
	}
	var sb strings.Builder
	e := guard(func() {
		sb.WriteString(strings.Join(canon(p), "\n"))
		sb.WriteString("\n")
		roots := []astcore.Node{}
		for _, u := range p.Units {
			roots = append(roots, u)
		}
		for _, r := range append(roots, p.Program) {
			astcore.WalkDown(r, func(n astcore.Node) error {
				switch x := n.(type) {
				case *ast.Ident:
					fmt.Fprintf(&sb, "%s %v-%v %s\n", x.Name, *x.Location.Start, *x.Location.End, x.Location.Path)
				case ast.Type:
					sb.WriteString(classes(x) + "\n")
				}
				return nil
			})
		}
		deepText(reflect.ValueOf(p), map[uintptr]int{}, &sb)
	})
	return noDir(sb.String()+e, dir)
}

// noDir leaves out the directory of the program, however it is written.
func noDir(s, dir string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, dir, "$"), strings.ReplaceAll(dir, "/", "\\"), "$")
}

func classes(t ast.Type) string {
	s := fmt.Sprintf("%T", t)
	v := reflect.ValueOf(t)
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		if strings.HasPrefix(m.Name, "Is") && m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0).Kind() == reflect.Bool {
			if v.Method(i).Call(nil)[0].Bool() {
				s += " " + m.Name
			}
		}
	}
	return s
}

var pool [][]string

func loadPool() [][]string {
	if pool == nil {
		f, err := os.Open(os.Getenv("VH_PROGRAMS"))
		if err != nil {
			panic(err)
		}
		rd := bufio.NewReaderSize(f, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) == 0 && err != nil {
				break
			}
			var pc pasCase
			mustJSON(line, &pc)
			pool = append(pool, pc.X)
		}
		f.Close()
	}
	return pool
}

// writePooled writes the files of program n of the pool; the bad ones are spoilt.
func writePooled(c *Ctx, dir string, n int, bad bool) {
	p := parseItems(loadPool()[n%len(loadPool())])
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	r := seedOf(c, n, 3)
	spoilt := r.n(len(p.files))
	for i, f := range p.files {
		ext := ".pas"
		if f.name == "Main" {
			ext = ".dpr"
		}
		l := &layout{kind: n % 3, r: &rnd{x: uint64(n) + 1}, abs: n%2 == 0, file: n / 2 % 4}
		ts := withPaths(f.toks, dir, l)
		if bad && i == spoilt {
			k := 1 + r.n(len(ts)-1)
			switch r.n(4) {
			case 0:
				ts = ts[:k]
			case 1:
				ts = splice(ts, k, 1)
			case 2:
				ts = splice(ts, k, 0, mkTok("?"))
			case 3:
				ts = nil
			}
		}
		if ts != nil {
			path := filepath.Join(dir, f.name+ext)
			if ext == ".pas" {
				path = filepath.Join(dir, unitFile(f.name, l.file))
			}
			writeFile(path, render(ts, l).src)
		}
	}
}

func parseDir(dir string) (*parser.Program, error, string) {
	var p *parser.Program
	var err error
	pan := guard(func() { p, err = parser.ParseProgram(filepath.Join(dir, "Main.dpr")) })
	return p, err, pan
}

var fresh = map[string]string{}

// inFreshProcess is what a new process sees which parses only this program.
func inFreshProcess(c *Ctx, n int, bad bool) string {
	key := fmt.Sprint(n, bad)
	if s, ok := fresh[key]; ok {
		return s
	}
	dir := filepath.Join(scratchDir(), "s", "0", "p") // as long as the names of the slots
	writePooled(c, dir, n, bad)
	cmd := exec.Command(os.Getenv("VH_PLAIN"), "once", dir)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	if err := cmd.Run(); err != nil {
		fresh[key] = "dies: " + clip(errs.String(), 500)
	} else {
		fresh[key] = out.String()
	}
	return fresh[key]
}

func firstDifference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	if d := diff(x, y); d != "" && len(d) < 2000 {
		return d
	}
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	return fmt.Sprintf("...%s in place of ...%s", clip(b[from:], 160), clip(a[from:], 160))
}

func init() {
	kinds["sessions"] = func(c *Ctx, line []byte) {
		var sc sessCase
		mustJSON(line, &sc)
		type result struct {
			prog *parser.Program
			err  error
			pan  string
		}
		type under struct {
			slot, prog int
			done       chan result
		}
		type keep struct {
			prog *parser.Program
			dir  string
			text string
			step int
		}
		base := filepath.Join(scratchDir(), "s")
		nprogs := 3
		number := func(p int) int { return c.k*nprogs + p }
		isBad := func(p int) bool { return p == nprogs }
		slot := func(s int) string { return filepath.Join(base, fmt.Sprint(s), "p") }
		for s := 1; s <= 2; s++ {
			writePooled(c, slot(s), number(s), isBad(s))
		}
		var run []under
		var kept []keep
		var wg sync.WaitGroup
		for step, op := range sc.H {
			a, b := int(op[1].(float64)), int(op[2].(float64))
			switch op[0] {
			case "w":
				writePooled(c, slot(a), number(b), isBad(b))
			case "s":
				u := under{a, b, make(chan result, 1)}
				dir := slot(a)
				wg.Add(1)
				go func() {
					defer wg.Done()
					p, e, pan := parseDir(dir)
					u.done <- result{p, e, pan}
				}()
				run = append(run, u)
			case "e":
				u := run[a-1]
				run = append(append([]under{}, run[:a-1]...), run[a:]...)
				r := <-u.done
				got := everything(r.prog, r.err, r.pan, slot(u.slot))
				exp := inFreshProcess(c, number(u.prog), isBad(u.prog))
				if got != exp {
					c.Violation("C19", "step %d of %v: parsing program %d gives another result than in a new process: %s", step, sc.H, u.prog, firstDifference(exp, got))
				}
				if r.err != nil {
					c.Count("failures", 1)
				} else {
					c.Count("trees", 1)
					kept = append(kept, keep{r.prog, slot(u.slot), got, step})
				}
			}
			// what was kept is as it was
			if len(run) == 0 {
				for i := range kept {
					k := &kept[i]
					if now := everything(k.prog, nil, "", k.dir); now != k.text {
						c.Violation("C19", "step %d of %v: the tree of step %d has changed: %s", step, sc.H, k.step, firstDifference(k.text, now))
						k.text = now
					}
					c.Count("trees compared", 1)
				}
			}
		}
		wg.Wait()
	}
}

// once is the main function of the process which parses one program.
func once(dir string) {
	p, err, pan := parseDir(dir)
	os.Stdout.WriteString(everything(p, err, pan, dir))
}
