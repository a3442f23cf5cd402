#!/usr/bin/env python3
"""seed.py new ID PROP: make seeded/ID from the edits in the scratch copy /tmp/w/repo (main.rs on stdin)
   seed.py try ID...: check each planted bug (applies, builds, tests pass, demo 0 / nonzero, own check catches it)."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def new(i, prop, needs, breaks):
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    p = sh("git diff", cwd=W).stdout
    assert p.strip()
    open(f"{d}/patch.diff", "w").write(p)
    shutil.copy(f"{V}/tools/demo_template.sh", f"{d}/demo.sh")
    src = sys.stdin.read()
    if src.strip():
        open(f"{d}/main.rs", "w").write(src)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    sh("git checkout -- .", cwd=W)
def attempt(i, full=True):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    res = []
    sh("git checkout -- .", cwd=W)
    if full:
        r = sh(f"bash {d}/demo.sh", cwd=W)
        res.append("demo0 ok" if r.returncode == 0 else "DEMO FAILS UNCHANGED " + r.stderr[-1500:])
    r = sh(f"git apply {d}/patch.diff", cwd=W)
    if r.returncode: return i, ["DOES NOT APPLY " + r.stderr]
    if full:
        r = sh("CARGO_TARGET_DIR=/tmp/w/target RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu timeout 600 cargo test --workspace --offline 2>&1", cwd=W)
        ok = r.returncode == 0
        res.append("tests ok" if ok else "TESTS FAIL " + r.stdout[-2500:])
        r = sh(f"bash {d}/demo.sh", cwd=W)
        res.append(f"demo rc {r.returncode}" if r.returncode else "DEMO PASSES WITH BUG")
        res.append(r.stderr.strip()[-200:])
    sh("git checkout -- .", cwd=W)
    assert sh("git status --short", cwd="/repo").stdout == ""
    sh(f"git apply {d}/patch.diff", cwd="/repo")
    try:
        r = sh(f"python3 check.py {prop} quick", cwd=V)
    finally:
        sh("git checkout -- .", cwd="/repo")
    hit = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    res.append(("CAUGHT " if hit else f"MISSED rc={r.returncode} ") + r.stdout.strip()[:500] + r.stderr[-300:])
    return i, res
if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:6])
    else:
        full = sys.argv[1] == "try"
        for i in sys.argv[2:]:
            n, res = attempt(i, full)
            print("==", n)
            for x in res: print("  ", x)
