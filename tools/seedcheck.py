#!/usr/bin/env python3
"""Development aid: runs the check of its property (and any given others) against each planted bug, in a copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
for id in ids:
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = tempfile.mkdtemp(prefix="seedrun-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", wt + "/r"], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=wt + "/r", check=True)
        p = subprocess.run(["python3", "check.py", prop], cwd=ROOT, env=dict(os.environ, VERIF_REPO=wt + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
        print(id, prop, "caught" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, (v or [p.stdout.strip()[-200:]])[0][:150], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
