"""Run the comparison over behaviour-preserving edits (selftest/quiet*.py) in scratch copies.
usage: quiet.py [name-substring] [-v] [-t]   (-t also runs the test suite on each edit)"""
import glob, importlib.util, os, queue, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SA = os.path.join(V, "sa")
sys.path.insert(0, SA)
import dump as dumper


def edits(kind):
    out = []
    for f in sorted(glob.glob(os.path.join(V, "selftest", kind + "*.py"))):
        sp = importlib.util.spec_from_file_location("m", f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.E
    names = [e[0] for e in out]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return out


def work(slot, e, args):
    name, reps = e[0], e[-1]
    d = f"/tmp/mut/slot{slot}"
    saved = {}
    try:
        for path, old, new in reps:
            src = os.path.join(d, path)
            if path not in saved:
                saved[path] = open(os.path.join("/repo", path)).read() if os.path.exists(os.path.join("/repo", path)) else None
            t = open(src).read() if os.path.exists(src) else ""
            if old == "":
                t = t + new
            elif t.count(old) < 1 or (t.count(old) > 1 and not new.startswith("@ALL")):
                return name, f"BADEDIT {path}: {t.count(old)} matches of {old[:60]!r}", ""
            else:
                t = t.replace(old, new[4:] if new.startswith("@ALL") else new)
            open(src, "w").write(t)
        ev = dumper.env()
        out = f"/tmp/mut/out{slot}.json"
        if os.path.exists(out):
            os.unlink(out)
        ev["CARGO_TARGET_DIR"] = f"/tmp/mut/tgt{slot}"
        ev["LD_LIBRARY_PATH"] = LIB
        ev["MIRDUMP_OUT"] = out
        ev["RUSTC_WORKSPACE_WRAPPER"] = DRV
        r = subprocess.run(["cargo", "check", "-p", "upon", "--lib", "--offline"], cwd=d, env=ev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            return name, "NOBUILD", r.stdout[-1500:]
        if "-k" in args:
            shutil.copy(out, f"/tmp/d_{name}.json")
            return name, "KEPT", ""
        t0 = time.time()
        r = subprocess.run([sys.executable, os.path.join(SA, "mutcmp.py"), out] + (["v"] if "-v" in args else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        lines = r.stdout.strip().split("\n")
        res = lines[-1] + f"  [{time.time()-t0:.0f}s]"
        extra = "\n".join(lines[:-1])
        if "-t" in args:
            ev = dict(os.environ)
            ev["CARGO_TARGET_DIR"] = f"/tmp/mut/ttgt{slot}"
            r = subprocess.run("source /opt/vp/env.sh 2>/dev/null; cargo test --offline 2>&1 | grep -E '^test result|FAILED|panicked|^error' | sort | uniq -c", shell=True, executable="/bin/bash", cwd=d, env=ev, stdout=subprocess.PIPE, text=True)
            res += "  tests: " + ("ok" if "FAILED" not in r.stdout and "error" not in r.stdout and "ok" in r.stdout else "BROKEN " + r.stdout[:600])
        return name, res, extra
    except subprocess.TimeoutExpired:
        return name, "TIMEOUT", ""
    finally:
        for path, t in saved.items():
            if t is None:
                os.unlink(os.path.join(d, path))
            else:
                open(os.path.join(d, path), "w").write(t)


if __name__ == "__main__":
    args = sys.argv[1:]
    pat = [a for a in args if not a.startswith("-")]
    kind = "bugs" if "-b" in args else "quiet"
    DRV, _ = dumper.driver()
    LIB = dumper.run(["rustc", "--print", "sysroot"], env=dumper.env()).stdout.strip() + "/lib"
    es = [e for e in edits(kind) if not pat or any(p in e[0] for p in pat)]
    os.makedirs("/tmp/mut", exist_ok=True)
    N = 8
    q = queue.Queue()
    for s in range(N):
        if os.path.exists(f"/tmp/mut/slot{s}"):
            shutil.rmtree(f"/tmp/mut/slot{s}")
        shutil.copytree("/repo", f"/tmp/mut/slot{s}", ignore=shutil.ignore_patterns("target", ".git"))
        q.put(s)

    def go(e):
        s = q.get()
        try:
            return work(s, e, args)
        finally:
            q.put(s)
    n = {}
    with ThreadPoolExecutor(N) as ex:
        for name, res, extra in ex.map(go, es):
            k = res.split(" ")[0]
            n[k] = n.get(k, 0) + 1
            print(f"{name}: {res}")
            if extra:
                print(extra)
            sys.stdout.flush()
    print(n)
