"""Makes /verif/seeded/<id>/ from an edit of a scratch copy of /repo, after confirming that the changed code
builds, passes the stable tests and fails the demonstration, which passes on the unchanged code."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
BASE = "fd1462a"
DEMO = '''#!/bin/bash
# exit 0: behaves; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
cat > "$d/go.mod" <<X
module demo

go 1.16

require github.com/akm/tparser v0.0.0

replace github.com/akm/tparser => $repo
X
cd "$d" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
go build -o demo . || exit 2
timeout 60 ./demo "$d"
'''
PRE = '''package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/log"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
)

type discard struct{}

func (discard) Printf(string, ...interface{}) {}

var (
	_ = strings.ToUpper
	_ ast.Node
	_ astcore.Node
	_ = token.EOF
	_ = parse
	_ = unit
	_ = time.Second
)

func fail(format string, args ...interface{}) {
	fmt.Printf("FAIL: "+format+"\\n", args...)
	os.Exit(1)
}

// parse writes the files (name, content, name, content...) into a scratch directory and parses the first one.
func parse(files ...string) (*parser.Program, error) {
	dir := os.Args[1]
	for i := 0; i+1 < len(files); i += 2 {
		if err := os.WriteFile(filepath.Join(dir, files[i]), []byte(files[i+1]), 0o644); err != nil {
			fail("%v", err)
		}
	}
	os.Chdir(dir)
	return parser.ParseProgram(filepath.Join(dir, files[0]))
}

// unit writes a unit file into the scratch directory.
func unit(name, content string) {
	if err := os.WriteFile(filepath.Join(os.Args[1], name+".pas"), []byte(content), 0o644); err != nil {
		fail("%v", err)
	}
}

func main() {
	log.SetLogger(discard{})
	demo()
	fmt.Println("ok")
}

'''


def sh(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def tests(wt):
    rc, out = sh("GOFLAGS=-mod=readonly go test -json -vet=off -count=1 ./... > test.log; python3 /opt/vp/results.py res.json gojson:test.log >/dev/null; cat res.json; rm -f test.log res.json", wt)
    return json.loads(out[out.index("{"):])


ONLY = set(sys.argv[1:])


def seed(id, prop, edits, demo, needs, breaks):
    if ONLY and id not in ONLY:
        return
    wt = tempfile.mkdtemp(prefix="seed-")
    try:
        shutil.rmtree(wt)
        sh(["git", "clone", "-q", "/repo", wt], "/")
        for f, a, b in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(id, "EDIT: %d occurrences in %s of %r" % (s.count(a), f, a)); return False
            open(p, "w").write(s.replace(a, b))
        rc, out = sh("GOFLAGS=-mod=readonly go build ./...", wt)
        if rc:
            print(id, "BUILD", out); return False
        rc, patch = sh("git diff", wt)
        orig = False
        for f in {f for f, _, _ in edits}:
            rc, o = sh(["git", "show", BASE + ":" + f], wt)
            rc, d = sh(["git", "diff", "-U0", "--", f], wt)
            o = set() if rc else {l.strip() for l in o.split("\n")}
            for l in d.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() in o: orig = True
        if not orig:
            print(id, "ORIGIN: changes no line of the original repository"); return False
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base["stable"])
        r = tests(wt)
        ok = set(r["passed"] if "passed" in r else r["pass"])
        if want - ok:
            print(id, "TESTS fail:", sorted(want - ok)[:5]); return False
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.go.txt"), "w").write(PRE + demo.strip() + "\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a, oa = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
        b, ob = sh(["bash", os.path.join(d, "demo.sh")], wt)
        if a != 0 or b == 0:
            print(id, "DEMO: unchanged %d %s / changed %d %s" % (a, oa[-800:], b, ob[-800:]))
            shutil.rmtree(d)
            return False
        print(id, "kept:", ob.strip()[:200])
        return True
    finally:
        shutil.rmtree(wt, ignore_errors=True)
