"""Mutation run over a scratch copy: which source mutants does the comparison see?
usage: mutate.py FILE[,FILE] [max]   (development aid, not a check)"""
import os, re, sys, shutil, subprocess, tempfile, random, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
SA = os.path.join(os.path.dirname(HERE), "sa")
sys.path.insert(0, SA)
import dump as dumper

SUBS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
        (r" \+ ", " - "), (r" - ", " + "), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\b1\b", "2"), (r"\b0\b", "1"), (r"\+= ", "-= "), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
        (r"if let Some", "if let Some"), (r"if (?!let)(.+) \{$", r"if !(\1) {"), (r"\.rev\(\)", ""), (r"\bOk\(None\)", "__SKIP"),
        (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
        (r"trim_end", "trim_start"), (r"trim_start", "trim_end"), (r"i64", "i32"), (r"u64", "u32")]


def mutants(path, text):
    out = []
    lines = text.split("\n")
    intest = False
    for n, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "///", "//!")):
            continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if new != l and "__SKIP" not in new:
                    out.append((path, n, new))
        if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "}", "pub ", "fn ", ".", ")")) and "{" not in s:
            out.append((path, n, re.match(r"\s*", l).group() + ";"))
        if re.match(r"break;|continue;|return .*;", s):
            out.append((path, n, re.match(r"\s*", l).group() + ";"))
    return out


def work(a):
    i, slot, (path, n, new) = a
    d = f"/tmp/mut/slot{slot}"
    src = os.path.join(d, path)
    orig = open(os.path.join("/repo", path)).read()
    ls = orig.split("\n")
    ls[n] = new
    open(src, "w").write("\n".join(ls))
    try:
        e = dumper.env()
        sysroot = "/root/.rustup"
        out = f"/tmp/mut/out{slot}.json"
        if os.path.exists(out):
            os.unlink(out)
        e["CARGO_TARGET_DIR"] = f"/tmp/mut/tgt{slot}"
        e["LD_LIBRARY_PATH"] = LIB
        e["MIRDUMP_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = DRV
        r = subprocess.run(["cargo", "check", "-p", "upon", "--lib", "--offline"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(out):
            return (path, n, new, "nobuild", "")
        r = subprocess.run([sys.executable, os.path.join(SA, "mutcmp.py"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        lines = r.stdout.strip().split("\n")
        return (path, n, new, lines[-1], "")
    except Exception as ex:
        return (path, n, new, "EXC " + str(ex)[:100], "")
    finally:
        open(src, "w").write(orig)


if __name__ == "__main__":
    DRV, _ = dumper.driver()
    LIB = dumper.run(["rustc", "--print", "sysroot"], env=dumper.env()).stdout.strip() + "/lib"
    ms = []
    for f in sys.argv[1].split(","):
        ms += mutants(f, open("/repo/" + f).read())
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(ms)
    ms = ms[:int(sys.argv[2]) if len(sys.argv) > 2 else 40]
    os.makedirs("/tmp/mut", exist_ok=True)
    N = int(os.environ.get("JOBS", "8"))
    import queue
    q = queue.Queue()
    for s in range(N):
        if not os.path.exists(f"/tmp/mut/slot{s}"):
            shutil.copytree("/repo", f"/tmp/mut/slot{s}", ignore=shutil.ignore_patterns("target", ".git"))
        q.put(s)

    def go(a):
        s = q.get()
        try:
            return work((0, s, a))
        finally:
            q.put(s)
    import collections
    c = collections.Counter()
    with ThreadPoolExecutor(N) as ex:
        for r in ex.map(go, ms):
            k = r[3].split(" ")[0]
            c[k] += 1
            if k not in ("nobuild", "DIFF"):
                print(r[3], r[0], r[1] + 1, r[2].strip())
                sys.stdout.flush()
    print(dict(c))
