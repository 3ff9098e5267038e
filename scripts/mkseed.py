#!/usr/bin/env python3
"""mkseed.py SEED MUTANT: writes seeded/<SEED>/patch.diff from campaign/mutants.py, in a scratch clone."""
import sys, os, subprocess, tempfile, shutil
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/campaign")
import importlib
MUTANTS = sum((list(importlib.import_module(x).MUTANTS) for x in ("mutants", "wave2", "wave3", "wave4", "wave5")), [])
seed, mid = sys.argv[1:]
m = next(x for x in MUTANTS if x[0] == mid)
t = tempfile.mkdtemp(dir="/tmp")
subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
for k in range(2, len(m), 3):
    p = f"{t}/r/{m[k]}"; s = open(p).read(); assert s.count(m[k+1]) == 1, m[k+1]
    open(p, "w").write(s.replace(m[k+1], m[k+2]))
os.makedirs(f"{R}/seeded/{seed}", exist_ok=True)
open(f"{R}/seeded/{seed}/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True))
shutil.rmtree(t)
