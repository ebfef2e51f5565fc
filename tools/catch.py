"""Which checks report which planted bug: catch.py [-o] [ID..]   (-o: only the bug's own property)

Each bug of seeded/ is applied to a scratch clone of /repo, all checks are
decided on one comparison. Prints one line per bug, then the misses."""
import concurrent.futures, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
WORK = "/tmp/catch"
INNER = """
import sys, json
sys.path.insert(0, %r)
sys.setrecursionlimit(20000)
import decide, props, time
from verdict import *
s = Suite(load_cur(), load_ref()); s.want_panics = True; s.hard = time.time() + 600
own = sys.argv[1]; only = len(sys.argv) > 2
out = {}
for p in sorted(props.P, key=lambda p: p["id"] != own):
    if only and p["id"] != own:
        continue
    r = decide.decide(p, suite=s)
    k, fresh = decide.split_known(p["id"], r.violations)
    if fresh:
        out[p["id"]] = fresh[0].key
print("CATCH", json.dumps(out))
""" % os.path.join(V, "sa")


def one(slot, bug, only):
    w = f"{WORK}/slot{slot}"
    if not os.path.isdir(w):
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    d = os.path.join(SEED, bug)
    own = json.load(open(os.path.join(d, "meta.json")))["property"]
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    for c in (["fetch", "-q"], ["checkout", "-qf", head], ["checkout", "-qf", "."], ["apply", os.path.join(d, "patch.diff")]):
        subprocess.run(["git", "-C", w] + c, check=True)
    r = subprocess.run([sys.executable, "-c", INNER, own] + (["o"] if only else []), capture_output=True, text=True, env=dict(os.environ, UPON_REPO=w))
    l = next((l for l in r.stdout.splitlines() if l.startswith("CATCH ")), None)
    return own, json.loads(l[6:]) if l else {"error": r.stderr[-300:]}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = "-o" in sys.argv
    os.makedirs(WORK, exist_ok=True)
    bugs = args or sorted(os.listdir(SEED))
    slots = list(range(7))
    missed = []

    def run(b):
        s = slots.pop()
        try:
            return b, one(s, b, only)
        finally:
            slots.append(s)
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for b, (own, out) in ex.map(run, bugs):
            hit = own in out
            print("ok    " if hit else "MISSED", b, own, "also " + " ".join(sorted(k for k in out if k != own)) if not only else "", ("| " + out[own][:90]) if hit else str(out)[:300], flush=True)
            if not hit:
                missed.append(b)
    print("missed", missed)


main()
