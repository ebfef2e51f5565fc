"""Work on the planted bugs under seeded/.

  plant.py make SPEC.py [ID..]   write seeded/<id>/ from a spec (list BUGS of dicts)
  plant.py try [-c] [ID..]       in scratch copies of /repo: apply, build, run the stable
                                 tests, run the demo with and without, run the checks
                                 (its own property, or with -a all) on the changed tree
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
REPO = "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", RUSTUP_TOOLCHAIN="1.79.0")
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
upon = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
[workspace]
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
unset CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true
cd "$t" && cargo build --offline --target-dir "$t/target" >"$t/log" 2>&1 || { tail -n 20 "$t/log"; exit 3; }
ulimit -c 0
timeout 60 "$t/target/debug/demo"
"""
PRE = """#![allow(dead_code, unused)]
use upon::{value, Engine, Value};
fn show(r: Result<String, upon::Error>) -> String {
    match r { Ok(s) => s, Err(e) => format!("ERR {e}") }
}
fn r(src: &str, v: Value) -> String {
    let e = Engine::new();
    let out = match e.compile(src) { Ok(t) => show(t.render_from(&e, &v).to_string()), Err(e) => format!("ERR {e}") }; out
}
fn eq<A: PartialEq<B> + std::fmt::Debug, B: std::fmt::Debug>(a: A, b: B) {
    if a != b { println!("got {a:?}, expected {b:?}"); std::process::exit(1); }
}
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def make(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        t = tempfile.mkdtemp(prefix="plant-")
        sh(["git", "clone", "-q", REPO, t + "/r"])
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(t, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], f, "old text occurs", s.count(old), "times:", old[:60].replace("\n", "~"))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if ok:
            d = os.path.join(SEED, b["id"])
            os.makedirs(d, exist_ok=True)
            _, diff = sh(["git", "diff"], cwd=t + "/r")
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/main.rs", "w").write(PRE + b["main"].lstrip("\n"))
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(t)


def one(slot, bug, allchecks):
    d = os.path.join(SEED, bug)
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/plant/slot{slot}"
    os.makedirs(w, exist_ok=True)
    repo = w + "/repo"
    if not os.path.exists(repo):
        sh(["git", "clone", "-q", REPO, repo])
        if os.path.exists(REPO + "/Cargo.lock"):
            shutil.copy(REPO + "/Cargo.lock", repo)
    head = sh(["git", "-C", REPO, "rev-parse", "HEAD"])[1].strip()
    sh(["git", "-C", repo, "fetch", "-q"])
    sh(["git", "-C", repo, "checkout", "-qf", head])
    sh(["git", "-C", repo, "checkout", "-qf", "."])
    res = {"bug": bug, "prop": meta["property"]}
    dd = tempfile.mkdtemp(prefix="demo-")
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(os.path.join(d, f), dd)
    rc, out = sh(["bash", dd + "/demo.sh"], cwd=repo)
    res["clean"] = rc
    if rc:
        res["note"] = out[-300:]
    rc, out = sh(["git", "apply", d + "/patch.diff"], cwd=repo)
    res["apply"] = rc
    if rc == 0:
        env = dict(ENV, CARGO_TARGET_DIR=w + "/target")
        rc, out = sh(["cargo", "test", "--offline", "--no-fail-fast", "--workspace", "--", "--test-threads", "4"], cwd=repo, env=env)
        res["tests"] = rc
        if rc:
            res["failed"] = [l for l in out.splitlines() if l.startswith("error") or "FAILED" in l][:4]
        rc, out = sh(["bash", dd + "/demo.sh"], cwd=repo)
        res["demo"] = rc
        res["says"] = out.strip()[-160:]
        e = dict(os.environ, UPON_REPO=repo)
        props = [meta["property"]]
        if allchecks:
            props = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        res["caught"] = []
        for p in props:
            rc, out = sh(["python3", V + "/check.py", p], cwd=w, env=dict(e, UPON_EVIDENCE=w))
            if rc == 1:
                res["caught"].append(p)
            elif rc:
                res.setdefault("odd", []).append((p, rc))
    shutil.rmtree(dd)
    sh(["git", "-C", repo, "checkout", "-qf", "."])
    return res


def main():
    if sys.argv[1] == "make":
        return make(sys.argv[2], sys.argv[3:])
    args = [a for a in sys.argv[2:] if not a.startswith("-")]
    allchecks = "-a" in sys.argv
    bugs = args or sorted(os.listdir(SEED))
    import queue
    slots = queue.Queue()
    for i in range(8):
        slots.put(i)

    def run(b):
        s = slots.get()
        try:
            return one(s, b, allchecks)
        finally:
            slots.put(s)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in concurrent.futures.as_completed([ex.submit(run, b) for b in bugs]):
            r = f.result()
            good = r["clean"] == 0 and r.get("apply") == 0 and r.get("tests") == 0 and r.get("demo", 0) != 0
            print(("ok   " if good else "BAD  ") + ("CAUGHT " if r["prop"] in r.get("caught", []) else "MISSED "), r["bug"], r["prop"],
                  "" if good else {k: r.get(k) for k in ("clean", "apply", "tests", "failed", "demo", "note", "says")}, r.get("caught") if allchecks else "", r.get("odd", ""), flush=True)


main()
