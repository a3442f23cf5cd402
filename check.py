#!/usr/bin/env python3
"""Run one static check: check.py <property> [quick|thorough].

Every run re-reads /repo's working tree: the library and the analysis roots
are type-checked again by the driver in sa/ (a rustc wrapper), which analyses
the resolved program and reports constructs that break the property.
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
TARGET = "x86_64-unknown-linux-gnu"
PROPS = {}

sys.path.insert(0, HERE)
from tools.props import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def build_driver(e):
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=f"{HERE}/sa", env={**e, "CARGO_TARGET_DIR": f"{BUILD}/sa"})
    if r.returncode:
        sys.exit("check.py: the analysis driver does not build")


def cargo(args, cwd, e):
    """Run cargo, return (ok, compiler messages)."""
    p = subprocess.run(["cargo", "+nightly", *args, "--offline", "--message-format=json"], cwd=cwd, env=e, capture_output=True, text=True)
    msgs = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
                msgs.append((m["target"]["name"], m["message"]))
    return p.returncode == 0, msgs, p.stderr, p.stdout


def forget(target_dir, names):
    """Make cargo re-check these crates, whatever their time stamps."""
    for n in names:
        # The two layouts of cargo's build directory.
        for d in glob.glob(f"{target_dir}/**/.fingerprint/{n}-*", recursive=True, include_hidden=True) + glob.glob(f"{target_dir}/**/build/{n}/*", recursive=True):
            shutil.rmtree(d, ignore_errors=True)


def run_driver(prop, tier, e):
    tgt = f"{BUILD}/roots"
    forget(tgt, ["subtile", "roots"])
    out = f"{BUILD}/report.{prop}.json"
    if os.path.exists(out):
        os.remove(out)
    e2 = {**e, "CARGO_TARGET_DIR": tgt, "RUSTC_WRAPPER": f"{BUILD}/sa/release/subtile-sa", "SA_MODE": prop, "SA_OUT": out, "SA_TIER": tier,
          "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0", "RUST_MIN_STACK": "4000000000"}
    ok, msgs, err, sout = cargo(["check", "-Zbuild-std=std,panic_unwind", "--target", TARGET], f"{HERE}/roots", e2)
    log = err + "\n" + sout[-20000:]
    with open(f"{BUILD}/log.{prop}.txt", "w") as f:
        f.write(log)
    viol = []
    for who, m in msgs:
        if who not in ("subtile", "roots"):
            continue
        sp = m["spans"][0] if m["spans"] else None
        at = f"{sp['file_name']}:{sp['line_start']}" if sp else "?"
        code = (m.get("code") or {}).get("code", "")
        if who == "subtile" and code != "unsafe_code":
            sys.exit(f"check.py: /repo does not build: {m['rendered']}")
        if code == "unsafe_code":
            viol.append({"key": f"unsafe {m['message']}", "text": f"{at}: unsafe code in the library: {m['message']}"})
        elif m["message"].startswith("aborting due"):
            continue
        else:
            viol.append({"key": f"api {m['message']}", "text": f"{at}: the public API the analysis enters the library by has changed: {m['message']}"})
    if viol:
        return {"violations": viol, "counts": {}, "lists": {}}
    if not os.path.exists(out):
        sys.exit(f"check.py: no report from the driver; see {BUILD}/log.{prop}.txt\n" + log[-3000:])
    with open(out) as f:
        return json.load(f)


def run_types(prop, tier, e):
    tgt = f"{BUILD}/witness"
    forget(tgt, ["subtile", "witness"])
    ok, msgs, err, _ = cargo(["check"], f"{HERE}/witness", {**e, "CARGO_TARGET_DIR": tgt})
    src = open(f"{HERE}/witness/src/lib.rs").read()
    n = len(re.findall(r"must::\w+(?:::<|\()", src)) + src.count("Box<dyn ")
    viol = []
    for who, m in msgs:
        if who == "subtile":
            sys.exit(f"check.py: /repo does not build: {m['rendered']}")
        if m["message"].startswith("aborting due"):
            continue
        sp = m["spans"][0] if m["spans"] else None
        at = f"{sp['file_name']}:{sp['line_start']} `{sp['text'][0]['text'].strip()}`" if sp and sp["text"] else "?"
        why = "; ".join(c["message"] for c in m["children"] if c["level"] in ("note", "help"))[:400]
        viol.append({"key": f"{m['message']}", "text": f"obligation {at}: {m['message']} ({why})"})
    if not ok and not viol:
        sys.exit("check.py: witness crate: " + err[-2000:])
    if n < 45:
        viol.append({"key": "low-count", "text": f"only {n} type obligations"})
    # negative twin: the obligations must be able to fail
    neg = subprocess.run(["rustc", "+nightly", "--crate-type=lib", "--emit=metadata", "-o", f"{BUILD}/neg.rmeta", "-"], input="fn s<T: Send + Sync>() {} pub fn f() { s::<std::rc::Rc<u8>>() }", text=True, capture_output=True, env=e)
    if neg.returncode == 0 or "E0277" not in neg.stderr:
        viol.append({"key": "negative-twin", "text": "the type checker accepts an obligation that does not hold"})
    return {"violations": viol, "counts": {"type_obligations": n, "failed": len(viol), "negative_twins_rejected": int(neg.returncode != 0)}, "lists": {}}


def main():
    if sys.argv[1] == "setup":
        e = env()
        os.makedirs(BUILD, exist_ok=True)
        build_driver(e)
        run_driver("C16", "quick", e)
        run_types("C19", "quick", e)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        build_driver(e)
        rep = {"driver": run_driver, "types": run_types}[c["engine"]](prop, tier, e)
    known = {}
    with open(f"{HERE}/known-findings.txt") as f:
        for l in f:
            m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", l)
            if m and m[1] == prop:
                known[m[2]] = m[3]
    new = [v for v in rep["violations"] if v["key"] not in known]
    for v in rep["violations"]:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={prop} {known[v['key']]}")
    cov = {"explanation": c["explanation"], "rule": c["rule"], **rep["counts"], **rep["lists"]}
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c["level"],
          "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(f"{EVID}/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if new:
        rp = f"{EVID}/{prop}.violations.json"
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:20]:
            print(f"  {v['text']}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: held; " + ", ".join(f"{k}={v}" for k, v in rep["counts"].items()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
