#!/usr/bin/env python3
"""auto.py SEED COUNT [FILE...]: random small mutations of the minter's source, each judged by all monitors at once.
Survivors are read by hand. Works in /tmp/auto, never in /repo."""
import os, random, re, subprocess, sys, time
B = os.environ.get("AUTO", "/tmp/auto")
FILES = """deposit.rs deposit_logs/parser.rs deposit_logs/scraping.rs deposit_logs/mod.rs withdraw.rs tx.rs state.rs state/audit.rs
state/transactions/mod.rs ledger_client.rs rpc_client/mod.rs rpc_client/providers.rs map.rs numeric/mod.rs numeric/range.rs checked_amount/mod.rs
address.rs eth_types/mod.rs endpoints.rs lifecycle.rs guard/mod.rs memo.rs storage.rs lsm_client.rs management.rs evm_config.rs erc20.rs main.rs
state/event.rs cbor/u256.rs cbor/nat.rs cbor/mod.rs rpc_declrations.rs""".split()
OPS = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r"checked_add\(", "checked_sub("), (r"checked_sub\(", "checked_add("),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
       (r"if !", "if "), (r"if ([a-z])", r"if !\1"), (r"\bassert!\(", "debug_assert!(true || "), (r"\.is_empty\(\)", ".is_empty() == false"),
       (r"\.rev\(\)", ""), (r"\.skip\(", ".take("), (r"\? *;$", ".ok();"), (r"is_ok\(\)", "is_err()"), (r"\.push\(", ".insert(0, "), (r"push_front", "push_back"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"\.filter\(", ".skip_while("), (r"\.find\(", ".filter("), (r"_u8\b", "_u8 + 1"), (r"\.clone\(\)\)", ".clone())")]
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def prepare():
    sh(f"mkdir -p {B}; rm -rf {B}/repo; git clone -q /repo {B}/repo; mkdir -p {B}/verif; cd /verif && tar cf - --exclude=./build --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar xf - -C {B}/verif")
    sh(f"grep -rlE '/verif|/repo' {B}/verif/check {B}/verif/*.sh {B}/verif/scripts {B}/verif/harness/src {B}/verif/harness/Cargo.toml | xargs sed -i 's#/verif#{B}/verif#g; s#/repo#{B}/repo#g'")
def sites(f):
    L = open(f"/repo/minter/src/{f}").read().split("\n")
    end = next((i for i, l in enumerate(L) if re.match(r"\s*(#\[cfg\(test\)\]|mod tests)", l)), len(L))
    out = []
    in_log = 0
    for i, l in enumerate(L[:end]):
        t = l.strip()
        if not t or t.startswith(("//", "#", "use ", "pub use", "log!", "mod ", "pub mod")): continue
        if in_log or re.search(r"log!\(", l):
            in_log = 0 if t.endswith(");") else 1
            continue
        for a, b in OPS:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: out.append((i, i, n, f"{a} -> {b}"))
        for m in re.finditer(r"(?<![\w.\"x])(\d[\d_]*)(?![\w.\"])", l):
            if '"' in l: continue
            out.append((i, i, l[:m.start()] + str(int(m[1].replace('_', '')) + 1) + l[m.end():], "constant + 1"))
        if re.match(r"^\s+[a-z_][\w.:]*(\.|\(|::).*;$", l) and not t.startswith(("let ", "return", "use ", "pub ")) and "=" not in l.split("(")[0]:
            out.append((i, i, "", "statement deleted"))
        elif re.match(r"^\s+[a-z_][\w.:]*\($|^\s+mutate_state\(\|s\| \{$|^\s+[\w.]+$|^\s+process_event\($", l) and not t.startswith("let "):
            ind = len(l) - len(l.lstrip())
            for j in range(i + 1, min(i + 25, end)):
                if len(L[j]) - len(L[j].lstrip()) <= ind and L[j].strip():
                    if L[j].rstrip().endswith(";"): out.append((i, j, "", "statement deleted"))
                    break
    return L, out
def main():
    rnd = random.Random(int(sys.argv[1])); count = int(sys.argv[2]); files = sys.argv[3:] or FILES
    prepare()
    pool = []
    for f in files:
        L, s = sites(f)
        rnd.shuffle(s)
        # every line at most a few times
        per = {}
        for x in s:
            if per.get(x[0], 0) < 2:
                per[x[0]] = per.get(x[0], 0) + 1; pool.append((f, L, x))
    rnd.shuffle(pool)
    for f, L, (i, j, new, what) in pool[:count]:
        t0 = time.time()
        p = f"{B}/repo/minter/src/{f}"
        open(p, "w").write("\n".join(L[:i] + ([new] if new else []) + L[j + 1:]))
        tag = f"{f}:{i+1} [{what}] {L[i].strip()[:90]}"
        r = sh(f"cd {B}/verif && timeout 300 ./build.sh")
        w = re.findall(r"without: (.*)", r.stdout + r.stderr)
        if r.returncode: res = "nobuild"
        else:
            for k in (4, 20):
                q = sh(f"cd {B}/verif && UNITS=1 timeout 400 ./build/target/debug/vharness explore all {1000*k} {k}")
                v = re.findall(r"^\((.*?) \| (.*?)\) x", q.stderr, re.M)
                if v or q.returncode: break
            ps = sorted({y for x in v for y in x[0].split(",")})
            res = f"caught {' '.join(ps)} :: {v[0][1][:80]}" if ps else ("SURVIVED" if q.returncode == 0 else f"rc{q.returncode} {q.stderr[-200:]}")
        sh(f"git -C {B}/repo checkout -q -- .")
        if res != "nobuild": print(f"{res} | {tag} | {' '.join(w)} {time.time()-t0:.0f}s", flush=True)
main()
