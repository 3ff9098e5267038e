#!/usr/bin/env python3
"""Mirror the minter's and the RPC client's sources from /repo into a build folder.

Files are copied when (and only when) their content differs, so that cargo sees every change of
/repo's working tree whatever its timestamps, and nothing else.  The manifests are /repo's own; the
wasm blobs that lsm_client.rs includes (not in the repository) become small distinct stand-ins."""
import os, re, sys

SHIMS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "shims").encode()

def sync(src, dst, seen):
    binary = of_binary(os.path.join(src, "src"))
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "target"]
        for f in files:
            full = os.path.join(root, f)
            out = os.path.join(dst, os.path.relpath(full, src))
            with open(full, "rb") as fh:
                data = fh.read()
            if f == "Cargo.toml":
                # dependencies from github.com/dfinity/ic cannot be fetched: use the stand-ins
                data = re.sub(rb'(?m)^([\w-]+)\s*=\s*\{[^}\n]*github\.com/dfinity/ic[^}\n]*\}',
                              lambda m: m.group(1) + b' = { path = "' + SHIMS + b"/" + m.group(1) + b'" }', data)
            if full in binary:
                data = re.sub(rb"(?<![\w$:])crate::", b"crate::minter_main::", data)
            put(out, data)
            seen.add(out)

def of_binary(src):
    """main.rs and the modules that only it declares: `crate` is `crate::minter_main` once main.rs is a module."""
    lib = open(os.path.join(src, "lib.rs")).read() if os.path.exists(os.path.join(src, "lib.rs")) else ""
    mods = lambda t: set(re.findall(r"(?m)^\s*(?:pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", t))
    todo, out = [("", "main.rs")], set()
    while todo:
        d, f = todo.pop()
        p = os.path.join(src, d, f)
        if p in out or not os.path.exists(p):
            continue
        out.add(p)
        t = open(p).read()
        for m in mods(t) - (mods(lib) if f == "main.rs" and not d else set()):
            b = d if f in ("main.rs", "mod.rs") else os.path.join(d, f[:-3])
            todo += [(b, m + ".rs"), (os.path.join(b, m), "mod.rs")]
    return out

def put(out, data):
    if os.path.islink(out):
        os.unlink(out)
    if os.path.exists(out):
        with open(out, "rb") as fh:
            if fh.read() == data:
                return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    with open(out, "wb") as fh:
        fh.write(data)

def main(repo, ws):
    seen = set()
    for d in ("minter", "evm_rpc_client"):
        sync(os.path.join(repo, d), os.path.join(ws, d), seen)
    for n in ("index_ng_canister_u256.wasm.gz", "ledger_canister_u256.wasm.gz",
              "index_ng_canister_u256.raw.wasm", "ledger_canister_u256.raw.wasm"):
        out = os.path.join(ws, "wasm", n)
        put(out, b"stand-in for " + n.encode())
        seen.add(out)
    for root, _, files in os.walk(ws):
        for f in files:
            p = os.path.join(root, f)
            if p not in seen and f != "Cargo.lock":
                os.unlink(p)

main(sys.argv[1], sys.argv[2])
