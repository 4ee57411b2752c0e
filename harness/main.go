// vh replays behaviours of the TLA+ specifications into the real code.
//
//	vh run KIND CASES.jsonl START STEP [ONLY]
//
// Each line of CASES.jsonl is one behaviour printed by TLC. vh prints, per case,
// "@k" before it starts, and then result lines:
//
//	V <property> <k> <json message>     the behaviour of the code differs from the specification
//	K <property> <k> <json message>     a difference which is listed as a known finding
//	S <json object of counters>         at the end
//
// A case which does not end in time makes vh print "H k" and exit with 3; a fatal
// error of the Go runtime ends vh with its own exit code. The runner goes on after
// that case in a new process and repeats it alone before it believes in it.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	tlog "github.com/akm/tparser/log"
)

type discard struct{}

func (discard) Printf(string, ...interface{}) {}

type Ctx struct {
	k     int
	out   *bufio.Writer
	stats map[string]int
	flags map[string]string
}

func (c *Ctx) emit(tag, prop, format string, args ...interface{}) {
	text := fmt.Sprintf(format, args...)
	if os.Getenv("VH_PROP") == "C05" && strings.Contains(text, "panic: ") {
		prop = "C05"
	}
	msg, _ := json.Marshal(text)
	fmt.Fprintf(c.out, "%s %s %d %s\n", tag, prop, c.k, msg)
	c.stats[tag+":"+prop]++
}
func (c *Ctx) Violation(prop, format string, args ...interface{}) {
	if c.stats["V:"+prop] < 200 {
		c.emit("V", prop, format, args...)
	}
}
func (c *Ctx) Known(prop, format string, args ...interface{}) {
	if c.stats["K:"+prop] < 20 {
		c.emit("K", prop, format, args...)
	}
}

// Error reports a mistake of the machinery itself.
func (c *Ctx) Error(format string, args ...interface{}) {
	msg, _ := json.Marshal(fmt.Sprintf(format, args...))
	fmt.Fprintf(c.out, "E %s\n", msg)
}
func (c *Ctx) Count(name string, n int) { c.stats[name] += n }

// guard runs f and returns the panic it ended with, if any.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if len(p) > 300 {
				p = p[:300]
			}
		}
	}()
	f()
	return ""
}

type kindFunc func(c *Ctx, line []byte)

var kinds = map[string]kindFunc{}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "once" {
		tlog.SetLogger(discard{})
		once(os.Args[2])
		return
	}
	if len(os.Args) < 6 || os.Args[1] != "run" {
		fmt.Fprintln(os.Stderr, "usage: vh run KIND CASES START STEP [ONLY]")
		os.Exit(2)
	}
	tlog.SetLogger(discard{})
	debug.SetMaxStack(256 << 20)
	fn := kinds[os.Args[2]]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown kind", os.Args[2])
		os.Exit(2)
	}
	start, _ := strconv.Atoi(os.Args[4])
	step, _ := strconv.Atoi(os.Args[5])
	only := len(os.Args) > 6
	limit := 20 * time.Second
	if only {
		limit = 60 * time.Second
	}
	if s := os.Getenv("VH_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	f, err := os.Open(os.Args[3])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	c := &Ctx{out: bufio.NewWriterSize(os.Stdout, 1<<16), stats: map[string]int{}}
	for k := 0; ; k++ {
		line, err := rd.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if k < start || (k-start)%step != 0 {
			continue
		}
		c.k = k
		fmt.Fprintf(c.out, "@%d\n", k)
		c.out.Flush()
		timer := time.AfterFunc(limit, func() {
			os.Stdout.WriteString(fmt.Sprintf("\nH %d\n", k))
			os.Exit(3)
		})
		fn(c, line)
		timer.Stop()
		c.Count("cases", 1)
		if only {
			break
		}
	}
	keys := []string{}
	for s := range c.stats {
		keys = append(keys, s)
	}
	sort.Strings(keys)
	b, _ := json.Marshal(c.stats)
	fmt.Fprintf(c.out, "S %s\n", b)
	c.out.Flush()
}
