"""Runner library: runs TLC on the specifications, replays the behaviours TLC prints into
the real code (built from /repo's working tree), and reports.

Exit codes: 0 the property held on everything explored; 1 violation; 2 error of the machinery."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 8)
GOENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*",
             GONOSUMCHECK="1", GOFLAGS_EXTRA="", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))


class MachineryError(Exception):
    pass


def tla(v):
    """Python value as a TLA+ constant expression of a .cfg file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    raise MachineryError("constant %r" % (v,))


def assembled(cases):
    """Programs of module Pascal are printed in pieces [id, number of the piece, items]."""
    parts = {}
    for line in cases:
        i, k, items = json.loads(json.loads(line))
        parts.setdefault(i, {}).setdefault(k, []).append(items)
    out = []
    for i, ps in parts.items():
        if list(ps) == [0]:
            out += [json.dumps({"id": i, "x": items}) + "\n" for items in ps[0]]
        else:
            if sorted(ps) != list(range(len(ps))) or any(len(v) != 1 for v in ps.values()):
                raise MachineryError("pieces of program %d are missing" % i)
            out.append(json.dumps({"id": i, "x": [x for k in range(len(ps)) for x in ps[k][0]]}) + "\n")
    return out


class Run:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        # the files which the code under test reads
        self.files = self.scratch
        if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 4 << 30:
            self.files = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/dev/shm")
        self.states = self.transitions = self.traces = 0
        self.models, self.replays, self.samples, self.notes = [], [], [], []
        self.violations, self.known = [], []
        self.counters = {}
        self.binaries = {}

    def path(self, name):
        return os.path.join(self.scratch, name)

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    # ------------------------------------------------------------------ build
    def build(self, race=False):
        key = "race" if race else "plain"
        if key in self.binaries:
            return self.binaries[key]
        src = os.path.join(self.scratch, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(src, "go.mod"), "w").write(mod)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
        out = os.path.join(self.scratch, "vh-" + key)
        cmd = ["go", "build", "-buildvcs=false", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=GOENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise MachineryError("building the harness failed:\n" + p.stdout[-3000:])
        self.binaries[key] = out
        return out

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, spec, constants, invariants, name=None, workers=None, timeout=800, properties=(), constraint=None,
            postcondition=None, heap="8g", decode=True, deadlock=False, assemble=None):
        """Model-checks module under the given constants; returns the path of a file with the
        printed behaviours (one JSON value per line) in a deterministic order."""
        name = name or "%s-%d" % (module, len(self.models))
        d = os.path.join(self.scratch, "tlc-" + name)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith((".tla", ".json")):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        cfg = ["SPECIFICATION " + spec]
        if constants:
            cfg.append("CONSTANTS")
            cfg += ["  %s = %s" % (k, tla(v)) for k, v in sorted(constants.items())]
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        open(os.path.join(d, "run.cfg"), "w").write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE",
               "-workers", str(workers or WORKERS), "-metadir", os.path.join(d, "md"), "-config", "run.cfg", module + ".tla"]
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC on %s did not end in %d s" % (name, timeout))
        cases, rest = set(), []
        ncases = 0
        with open(outp, errors="replace") as f:
            for line in f:
                if line.startswith('"'):
                    cases.add(line)
                    ncases += 1
                else:
                    rest.append(line)
        text = "".join(rest)
        if "Model checking completed. No error has been found." not in text:
            raise MachineryError("TLC on %s (%s): the specification does not satisfy its invariants or cannot be evaluated:\n%s"
                                 % (name, " ".join(cfg), text[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        outf = os.path.join(self.scratch, name + ".jsonl")
        if assemble:
            cases = assembled(cases)
        with open(outf, "w") as f:
            for line in sorted(cases):
                f.write(line if assemble else json.loads(line) + "\n" if decode else line)
        self.models.append({"model": module, "constants": {k: repr(v) for k, v in sorted(constants.items())},
                            "states": dist, "transitions": gen, "behaviours": len(cases), "wall_s": round(time.time() - t, 1),
                            "invariants": list(invariants)})
        shutil.rmtree(d)
        return outf

    # ----------------------------------------------------------------- replay
    def _worker(self, binary, kind, path, start, step, env, res, lock, only=False):
        k = start
        while True:
            cmd = ["bash", "-c", "ulimit -v 6000000 2>/dev/null; exec \"$@\"", "-", binary, "run", kind, path, str(k), str(step)]
            if "race" in os.path.basename(binary):
                cmd = [binary, "run", kind, path, str(k), str(step)]
            if only:
                cmd.append("only")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, errors="replace")
            err = []
            te = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
            te.start()
            at, done, hang = None, False, False
            for line in p.stdout:
                if line.startswith("@"):
                    at = int(line[1:])
                elif line[:2] in ("V ", "K "):
                    tag, prop, n, msg = line.split(" ", 3)
                    with lock:
                        res["lines"].append((tag, prop, int(n), json.loads(msg)))
                elif line.startswith("S "):
                    done = True
                    with lock:
                        for a, b in json.loads(line[2:]).items():
                            res["stats"][a] = res["stats"].get(a, 0) + b
                elif line.startswith("E "):
                    with lock:
                        res["errors"].append(json.loads(line[2:]))
                elif line.startswith("H "):
                    hang = True
            p.wait()
            te.join(5)
            if done and p.returncode == 0:
                return
            if at is None:
                with lock:
                    res["errors"].append("harness died before its first case: exit %s: %s" % (p.returncode, "".join(err)[-800:]))
                return
            with lock:
                res["dead"].append((at, "hang" if hang else "crash", "".join(err)[:1500]))
                if len(res["dead"]) > 40:
                    return
            if only:
                return
            k = at + step

    def replay(self, kind, path, race=False, env=None, sample=None, procs=None):
        binary = self.build(race)
        e = dict(GOENV, VERIF_SEED=str(self.seed), GOMAXPROCS="2", GOGC="400", GOMEMLIMIT="3GiB", VH_SCRATCH=self.files, VH_PROP=self.prop)
        if race:
            e.update(VH_PLAIN=self.build(), GORACE="halt_on_error=1 atexit_sleep_ms=0")
        if env:
            e.update(env)
        res = {"lines": [], "stats": {}, "errors": [], "dead": []}
        lock = threading.Lock()
        n = procs or WORKERS
        ths = [threading.Thread(target=self._worker, args=(binary, kind, path, w, n, e, res, lock)) for w in range(n)]
        t = time.time()
        [x.start() for x in ths]
        [x.join() for x in ths]
        if res["errors"]:
            raise MachineryError(res["errors"][0])
        lines = None

        def case(k):
            nonlocal lines
            if lines is None:
                lines = open(path).read().splitlines()
            return lines[k]
        for at, what, err in sorted(res["dead"])[:3]:
            if "DATA RACE" in err or "concurrent map" in err:     # never reported without a race
                self.violations.append({"kind": kind, "message": "race: " + err[:900], "case": case(at), "race": race})
                continue
            # believe in a crash or a hang only if it happens again, alone and with more time
            again = {"lines": [], "stats": {}, "errors": [], "dead": []}
            self._worker(binary, kind, path, at, 1, e, again, lock, only=True)
            if again["dead"]:
                msg = "%s: %s" % (what, (again["dead"][0][2] or err).strip().split("\n")[0][:300])
                self.violations.append({"kind": kind, "message": msg, "case": case(at), "race": race})
            else:
                self.notes.append("case %d of %s: %s which did not happen again: %s" % (at, kind, what, err[:300]))
        for tag, prop, k, msg in sorted(res["lines"], key=lambda x: (x[2], x[3])):
            if prop != self.prop:
                continue
            if tag == "V":
                self.violations.append({"kind": kind, "message": msg, "case": case(k), "race": race})
            else:
                self.known.append(msg)
        st = res["stats"]
        self.traces += st.get("cases", 0)
        for a, b in st.items():
            self.counters[kind + "." + a] = self.counters.get(kind + "." + a, 0) + b
        self.replays.append({"kind": kind, "cases": st.get("cases", 0), "wall_s": round(time.time() - t, 1)})
        if len(self.samples) < 6:
            with open(path) as f:
                for j, l in enumerate(f):
                    if j == (sample or 7):
                        self.samples.append({"kind": kind, "behaviour": l.strip()[:1500]})
                        break
        return st

    # ----------------------------------------------------------------- report
    def finish(self, assumptions=()):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        code = 0
        seen = set()
        for n, v in enumerate(self.violations):
            if n < 10:
                path = os.path.join(ev, "replay", "%s-%d.json" % (self.prop, n))
                json.dump(dict(v, property=self.prop, seed=self.seed, tier=self.tier), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + v["message"][:1000])
            code = 1
        listed = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
        for msg in self.known:
            for f in listed:
                if f["property"] == self.prop and f.get("status") == "open" and msg.startswith(f["match"]):
                    if f["id"] not in seen:
                        seen.add(f["id"])
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
                    break
            else:
                print("VIOLATION property=%s replay=%s" % (self.prop, "-"))
                print("  not a listed finding: " + msg[:1000])
                code = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"], "models": self.models, "replays": self.replays, "counters": self.counters}
        if self.notes:
            cov["notes"] = self.notes
        if self.level != "model_checking":
            cov["explanation"] = "see DESIGN.md"
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
                   "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)},
                  open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        if code == 0 and self.traces == 0:
            print("no behaviour was validated", file=sys.stderr)
            code = 2
        print("%s %s: %d states, %d behaviours replayed, %d violations, %.1f s" %
              (self.prop, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return code

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        shutil.rmtree(self.files, ignore_errors=True)
