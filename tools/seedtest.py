#!/usr/bin/env python3
"""Applies every planted change in /verif/seeded to /repo, one after another, and runs the check of its property
(and, with --also, further checks).  usage: seedtest.py [--out FILE] [--checks C01,C02] [id ...]
Development aid only: no check reads /verif/seeded."""
import argparse, glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--out", default="/tmp/seedtest.jsonl")
ap.add_argument("--checks", default="")
ap.add_argument("--tier", default="quick")
a = ap.parse_args()
if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip():
    sys.exit("/repo is not clean")
ids = a.ids or sorted(os.path.basename(d) for d in glob.glob(f"{V}/seeded/*") if os.path.isdir(d))
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=a.tier)
for i in ids:
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    checks = a.checks.split(",") if a.checks else [meta["property"]]
    subprocess.run(["git", "-C", "/repo", "apply", f"{V}/seeded/{i}/patch.diff"], check=True)
    try:
        for c in checks:
            t = time.time()
            r = subprocess.run(["python3", "check.py", c, "--tier", a.tier], cwd=V, env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            caught = r.returncode == 1 and any(f"property={c} " in l for l in v)
            rec = dict(bug=i, check=c, caught=caught, rc=r.returncode, secs=round(time.time() - t), tail=r.stdout[-600:] if not caught else v[0])
            print(i, c, "CAUGHT" if caught else "MISSED", r.returncode, rec["secs"], flush=True)
            open(a.out, "a").write(json.dumps(rec) + "\n")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
