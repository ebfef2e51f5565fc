#!/usr/bin/env python3
"""check.py ID: decide one property of /repo's current source by static analysis."""
import json, os, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
import dump as dumper
import props
import decide


def main():
    pid = sys.argv[1]
    prop = next((p for p in props.P if p["id"] == pid), None)
    if prop is None:
        print("unknown property", pid)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        res = decide.decide(prop, tier)
    except dumper.BuildFailed as e:
        print("the tree does not build:\n" + str(e)[-3000:])
        return 2
    known, fresh = decide.split_known(pid, res.violations)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "coverage": res.coverage,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    evdir = os.environ.get("UPON_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for n in res.notes:
        print("note:", n)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if fresh:
        path = os.path.join(evdir, pid + ".violation.txt")
        with open(path, "w") as f:
            for v in fresh:
                f.write(f"{v.key}\n{v.text}\n\n")
        for v in fresh[:8]:
            print(f"{v.key}\n{v.text}\n")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid} holds: {res.summary}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
