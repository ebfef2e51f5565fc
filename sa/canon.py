"""Private names carry no behaviour: rename what the current tree calls
differently back to the reference's name (types, fields, variants, functions)
so that the comparison sees through renames, moves and reordered fields."""
import json, re


def tstr(d, t):
    return re.sub(r"'[A-Za-z_0-9]+ ?", "", d["types"][t].get("s", "")) if isinstance(t, int) else str(t)


def shape(d, a, sub=None):
    out = []
    for v in a["variants"]:
        fs = [(f["name"], tstr(d, f["ty"])) for f in v["fields"]]
        out.append((v["name"], fs))
    return out


def similarity(x, y):
    """0..1 for two shapes; names or types may have changed"""
    if len(x) != len(y):
        return 0
    pts = tot = 0
    for (n1, f1), (n2, f2) in zip(sorted(x, key=lambda v: v[0]), sorted(y, key=lambda v: v[0])):
        if len(f1) != len(f2):
            return 0
        tot += 1
        pts += len(x) == 1 or n1 == n2
        s2 = [n for n, _ in f2]
        t2 = [t for _, t in f2]
        for n, t in f1:
            tot += 2
            pts += (n in s2) + (t in t2)
    return pts / tot if tot else 1


def replace_path(text, old, new):
    o = json.dumps(old)[1:-1]
    return re.sub(r"(?<![\w:])" + re.escape(o) + r"(?!\w)", lambda m: json.dumps(new)[1:-1], text)


def match(gone, come, score, floor):
    """greedy unique pairing by score"""
    cand = sorted(((score(g, c), g, c) for g in gone for c in come), key=lambda x: (-x[0], x[1], x[2]))
    out, ug, uc = [], set(), set()
    for s, g, c in cand:
        if s < floor or g in ug or c in uc:
            continue
        ug.add(g)
        uc.add(c)
        out.append((g, c))
    return out


def pair_names(gone, come, ty_g, ty_c):
    """pair names in order, same type first"""
    out = []
    come = list(come)
    for g in gone:
        for c in come:
            if ty_g[g] == ty_c[c]:
                out.append((g, c))
                come.remove(c)
                break
    return out


def parent(p):
    p = re.sub(r"<[^<>]*>", "", p)
    return p.rsplit("::", 1)[0]


def name(p):
    return p.rsplit("::", 1)[-1]


def fns_of(d):
    out = {}
    for k, f in d["fns"].items() if isinstance(d["fns"], dict) else ((f.get("key"), f) for f in d["fns"]):
        if not f["local"] or f["kind"] == "Closure" or "{" in f["path"] or f["path"].startswith("<") or "<impl " in f["path"]:
            continue
        out.setdefault(f["path"], f)
    return out


def fsig(d, f):
    return tuple(tstr(d, f["locals"][i][0]) for i in list(range(1, f["argc"] + 1)) + [0])


def callees(f):
    out = []
    for b in f["blocks"]:
        if b and b[1] and b[1][0] == "call":
            x = b[1][1]
            if isinstance(x, list) and len(x) > 2 and isinstance(x[2], dict) and "fn" in x[2]:
                out.append(x[2]["fn"].get("rpath", ""))
    return set(out)


def canon(cur, ref):
    """-> (dict, {current name: reference name})"""
    done = {}
    # types
    exported = {i["path"] for i in cur["items"] if i.get("exported")}
    gone = [p for p, a in ref["adts"].items() if a["local"] and p not in cur["adts"]]
    come = [p for p, a in cur["adts"].items() if a["local"] and p not in ref["adts"] and p not in exported]
    if gone and come:
        def score(g, c):
            a, b = ref["adts"][g], cur["adts"][c]
            if a["kind"] != b["kind"]:
                return 0
            xa = [(n, [(fn, t.replace(g, "@")) for fn, t in fs]) for n, fs in shape(ref, a)]
            xb = [(n, [(fn, t.replace(c, "@")) for fn, t in fs]) for n, fs in shape(cur, b)]
            return similarity(xa, xb) + 0.2 * (parent(g) == parent(c)) + 0.2 * (name(g) == name(c))
        pairs = match(gone, come, score, 0.7)
        if pairs:
            text = json.dumps(cur)
            for g, c in pairs:
                text = replace_path(text, c, g)
                done[c] = g
            cur = json.loads(text)
    # lifetimes in the paths of implementations
    pc, pr = ({f["path"] for f in (d["fns"].values() if isinstance(d["fns"], dict) else d["fns"]) if f["local"]} for d in (cur, ref))
    plain = {}
    for x in pr - pc:
        plain.setdefault(re.sub(r"'\w+", "'_", x), []).append(x)
    text = None
    for x in sorted(pc - pr, key=lambda p: (p.count("::"), p)):
        g = plain.get(re.sub(r"'\w+", "'_", x), ())
        if len(g) == 1 and "{closure" not in x:
            text = replace_path(text or json.dumps(cur), x, g[0])
            done[x] = g[0]
    if text:
        cur = json.loads(text)
    # fields and variants
    for p, a in cur["adts"].items():
        r = ref["adts"].get(p)
        if not a["local"] or r is None or r["kind"] != a["kind"]:
            continue
        an, rn = [v["name"] for v in a["variants"]], [v["name"] for v in r["variants"]]
        if a["kind"] == "enum":
            g, c = [n for n in rn if n not in an], [n for n in an if n not in rn]
            if g and c and len(an) == len(rn):
                tg = {v["name"]: [tstr(ref, f["ty"]) for f in v["fields"]] for v in r["variants"]}
                tc = {v["name"]: [tstr(cur, f["ty"]) for f in v["fields"]] for v in a["variants"]}
                for x, y in pair_names(g, c, tg, tc):
                    for v in a["variants"]:
                        if v["name"] == y:
                            v["name"] = x
                            done[f"{p}::{y}"] = x
        else:
            if len(a["variants"]) == 1 and len(r["variants"]) == 1:
                a["variants"][0]["name"] = r["variants"][0]["name"]
        rv = {v["name"]: v for v in r["variants"]}
        for v in a["variants"]:
            w = rv.get(v["name"])
            if w is None:
                continue
            vn, wn = [f["name"] for f in v["fields"]], [f["name"] for f in w["fields"]]
            g, c = [n for n in wn if n not in vn], [n for n in vn if n not in wn]
            if not g or not c:
                continue
            tg = {f["name"]: tstr(ref, f["ty"]) for f in w["fields"]}
            tc = {f["name"]: tstr(cur, f["ty"]) for f in v["fields"]}
            for x, y in pair_names(g, c, tg, tc):
                for f in v["fields"]:
                    if f["name"] == y:
                        f["name"] = x
                        done[f"{p}.{y}"] = x
    # functions
    fc, fr = fns_of(cur), fns_of(ref)
    gone = [p for p in fr if p not in fc]
    come = [p for p in fc if p not in fr and p not in exported]
    if gone and come:
        def score(g, c):
            a, b = fr[g], fc[c]
            if fsig(ref, a) != fsig(cur, b):
                return 0
            x, y = callees(a), callees(b)
            j = len(x & y) / len(x | y) if x | y else 1
            return j + 0.5 * (parent(g) == parent(c)) + (name(g) == name(c))
        pairs = match(gone, come, score, 0.9)
        if pairs:
            text = json.dumps(cur)
            for g, c in pairs:
                text = replace_path(text, c, g)
                done[c] = g
            cur = json.loads(text)
    return cur, done
