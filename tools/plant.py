#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and records them in /verif/seeded (development tool).

plant.py SPEC.py...   A spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (Rust), CHECK (Python).
The scratch copies under /tmp/sw are mounted over /repo and /verif in a private mount namespace.
"""
import os, subprocess, sys, json, shutil, re
SW = os.environ.get("SW", "/tmp/sw")
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory, runs it in a scratch directory, and checks what it saved.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH="$HOME/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/"; cp "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rust_xlsxwriter = { path = "$repo", features = ["chrono", "serde", "constant_memory"] }
serde = { version = "1", features = ["derive"] }
X
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2>log || { tail -20 log; exit 3; }
./target/debug/demo || exit 1
[ ! -f "$here/check.py" ] || python3 "$here/check.py"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def ns(cmd, t=1200):
    inner = f"mount --bind {SW}/repo /repo; mount --bind {SW}/verif /verif; cd /repo; {cmd}"
    return sh(f"unshare -m bash -c '{inner}'", timeout=t)
def sync():
    os.makedirs(SW, exist_ok=True)
    for d in ("repo", "verif"):
        if not os.path.isdir(f"{SW}/{d}"):
            sh(f"cp -a /{d} {SW}/{d}")
    # /repo is taken as committed
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    print(sh(f"cd {SW}/repo && git fetch -q /repo HEAD && git checkout -q -f {head} && git status --short | head").stdout, end="")
    print(sh(f"cd /verif && tar -c --exclude=./target --exclude=./.git --exclude=./replays --exclude=./seeded . | tar -x -C {SW}/verif --keep-newer-files 2>/dev/null; true").stdout, end="")
    sh(f"cd /verif && for f in mc/src/*.rs mc/src/props/*.rs mc/Cargo.toml tools/*.py known_findings.txt check.sh; do cmp -s $f {SW}/verif/$f || cp $f {SW}/verif/$f; done")
def res():
    p = "/verif/tools/seed_results.json"
    return json.load(open(p)) if os.path.exists(p) else {}
def record(i, r):
    d = res(); d[i] = r
    json.dump(dict(sorted(d.items())), open("/verif/tools/seed_results.json", "w"), indent=1)
def check(prop):
    r = ns(f"./../verif/check.sh {prop} quick")
    v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={prop} ")]
    fam = [l.strip() for l in r.stdout.splitlines() if " #" in l and l.startswith("  ")]
    why = [l.strip() for l in r.stdout.splitlines() if l.startswith("    ")]
    return r.returncode, len(v), (fam[:1] + why[:1]), r
def run(spec):
    g = {}
    exec(open(spec).read(), g)
    i, prop = g["ID"], g["PROP"]
    repo = f"{SW}/repo"
    sh(f"git -C {repo} checkout -q -f")
    for f, old, new in g["EDITS"]:
        p = f"{repo}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(i, f"EDIT {f}: {s.count(old)} matches of {old[:60]!r}"); sh(f"git -C {repo} checkout -q -f"); return
        open(p, "w").write(s.replace(old, new))
    patch = sh(f"git -C {repo} diff").stdout
    out = f"{SW}/demo/{i}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    open(f"{out}/demo.sh", "w").write(DEMO)
    open(f"{out}/main.rs", "w").write(g["MAIN"])
    if g.get("CHECK"):
        open(f"{out}/check.py", "w").write(g["CHECK"])
    fail = None
    dem = ns(f"bash {out}/demo.sh")
    if dem.returncode == 3: fail = "demo does not compile: " + dem.stdout[-1500:]
    elif dem.returncode == 0: fail = "demo passes with the patch"
    if not fail and "--notest" not in sys.argv:
        b = ns("bash /opt/vp/build.sh")
        if b.returncode: fail = "build: " + b.stderr[-800:]
        else:
            ns(f"bash /opt/vp/test.sh {SW}/t.json")
            t = json.load(open(f"{SW}/t.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            base = set(base.get("passed") or base.get("stable") or [])
            lost = base - set(t["passed"])
            if lost or not base: fail = f"tests: {len(lost)} of {len(base)} lost: {sorted(lost)[:4]}"
    got = None
    if not fail or "--force" in sys.argv:
        rc, n, why, r = check(prop)
        got = {"property": prop, "exit": rc, "violations": n, "first": [w[:300] for w in why], "what": g["BREAKS"]}
        if rc not in (0, 1): print(r.stdout[-800:], r.stderr[-300:])
    sh(f"git -C {repo} checkout -q -f")
    if not fail:
        d2 = ns(f"bash {out}/demo.sh")
        if d2.returncode != 0: fail = f"demo fails on the unchanged tree ({d2.returncode}): {d2.stdout[-600:]} {d2.stderr[-600:]}"
    if fail:
        print(f"{i}: REJECTED {fail}", got or ""); return
    dst = f"/verif/seeded/{i}"
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(out): shutil.copy(f"{out}/{f}", f"{dst}/{f}")
    open(f"{dst}/patch.diff", "w").write(patch)
    json.dump({"property": prop, "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{dst}/meta.json", "w"), indent=1)
    record(i, got)
    print(f"{i}: {'CAUGHT' if got['exit'] == 1 and got['violations'] else 'MISSED'} {got['first']} demo: {(dem.stdout + dem.stderr).strip()[-160:]!r}")
if __name__ == "__main__":
    sync()
    for s in sys.argv[1:]:
        if s.endswith(".py"):
            try: run(s)
            except Exception as x: print(s, "ERROR", x)
        sys.stdout.flush()
