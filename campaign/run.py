#!/usr/bin/env python3
"""run.py [ID...]: applies each planted change to a copy of /repo and runs its property's quick check from a copy of /verif.
Works in /tmp/camp; prints one line per change."""
import subprocess, sys, os, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
MUTANTS = importlib.import_module(os.environ.get("WAVE", "mutants")).MUTANTS
B = os.environ.get("CAMP", "/tmp/camp")
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    sh(f"mkdir -p {B}; rm -rf {B}/repo; git clone -q /repo {B}/repo; mkdir -p {B}/verif; rsync -a --delete --exclude build --exclude .git --exclude seeded --exclude evidence /verif/ {B}/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar xf - -C {B}/verif)")
    sh(f"grep -rlE '/verif|/repo' {B}/verif/check {B}/verif/*.sh {B}/verif/scripts {B}/verif/harness/src {B}/verif/harness/Cargo.toml | xargs sed -i 's#/verif#{B}/verif#g; s#/repo#{B}/repo#g'")
def one(m):
    i, prop, e = m[0], m[1], m[2:]
    sh(f"git -C {B}/repo checkout -q -- .")
    for k in range(0, len(e), 3):
        p = f"{B}/repo/{e[k]}"; t = open(p).read()
        if t.count(e[k+1]) != 1: return f"{i} {prop} STALE"
        open(p, "w").write(t.replace(e[k+1], e[k+2]))
    t0 = time.time()
    r = sh(f"cd {B}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check {prop}")
    open(f"{B}/{i}.log", "w").write(r.stdout)
    v = re.findall(r"VIOLATION property=\S+.*", r.stdout)
    res = {0: "MISSED", 1: "caught" if v else "rc1?"}.get(r.returncode, f"rc{r.returncode}")
    keys = re.findall(r"^violated: (.*)$", r.stdout, re.M)
    return f"{i} {prop} {res} {time.time()-t0:.0f}s {(keys or v or [''])[0][:150]}"
if __name__ == "__main__":
    prepare()
    want = sys.argv[1:]
    for m in MUTANTS:
        if want and not any(m[0].startswith(w) for w in want): continue
        print(one(m), flush=True)
    sh(f"git -C {B}/repo checkout -q -- .")
