#!/usr/bin/env python3
"""Runs the reference models' own tests, and the models on the ACVP and X-Wing vectors in /repo.  Development aid."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
env = dict(check.ENV, CARGO_TARGET_DIR=f"{V}/target/refmodel")
subprocess.run(["cargo", "test", "--offline", "--release"], cwd=f"{V}/refmodel", env=env, check=True)
req, want = [], []
for g in json.load(open("/repo/ml-kem/tests/key-gen.json"))["testGroups"]:
    for t in g["tests"]:
        req.append(f"keygen {g['parameterSet']} {t['d']} {t['z']}"); want.append(f"{t['ek']} {t['dk']}")
for g in json.load(open("/repo/ml-kem/tests/encap-decap.json"))["testGroups"]:
    for t in g["tests"]:
        if g["function"] == "encapsulation":
            req.append(f"encaps {g['parameterSet']} {t['ek']} {t['m']}"); want.append(f"{t['c']} {t['k']}")
        dk = t.get("dk") or g["dk"]
        req.append(f"decaps {g['parameterSet']} {dk} {t['c']}"); want.append(t["k"])
for t in json.load(open("/repo/x-wing/src/test-vectors.json")):
    req += [f"xpub {t['seed']}", f"xenc {t['pk']} {t['eseed']}", f"xdec {t['sk']} {t['ct']}"]
    want += [t["pk"], f"{t['ct']} {t['ss']}", t["ss"]]
out = subprocess.run(["cargo", "run", "-q", "--offline", "--release", "--example", "answer"], cwd=f"{V}/refmodel", env=env, input="\n".join(req) + "\n", capture_output=True, text=True, check=True).stdout.split("\n")[:-1]
bad = [r[:40] for r, o, w in zip(req, out, want) if o.lower() != w.lower()]
print(f"{len(req)} vectors, {len(out)} answers, {len(bad)} differ", bad[:5])
sys.exit(bool(bad) or len(out) != len(req))
