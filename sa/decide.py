"""Decide one property: compare the functions that own it with the confirmed
reference, apply its rules, report what stands."""
import json, os, re
from verdict import *
import rules as rulemod

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation:
    def __init__(self, key, text):
        self.key, self.text = key, text


class Result:
    def __init__(self):
        self.violations, self.notes, self.coverage, self.assumptions = [], [], {}, []
        self.summary = ""


def split_known(pid, violations):
    entries = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == pid:
                entries.append((m.group(2), m.group(3)))
    known, fresh = [], []
    for v in violations:
        e = next((t for k, t in entries if k == v.key), None)
        (known.append(f"{v.key}: {e}") if e is not None else fresh.append(v))
    return known, fresh


class Selector:
    """does a disagreement concern this property?"""

    def __init__(self, prop, progs):
        self.only = prop["only"]
        self.sets = []
        for enum, names in prop["select"].items():
            for p in progs:
                a = p.adts.get(enum)
                if a and a["kind"] == "enum":
                    self.sets.append((enum, frozenset(v["name"] for v in a["variants"]), frozenset(names), p))
                    break

    def keep(self, m, it_types, v=None):
        if self.only == "ok_for_err":
            if m.kind == "outcome":
                return err_row(m.b) and not err_row(m.a)
            if m.kind == "loop-exit":
                return "continues" in m.detail and err_row(m.b)
            return m.kind == "outcome-lost-case" and err_row(m.b)
        if self.only == "errors":
            if m.kind == "outcome":
                if (err_row(m.a) and err_row(m.b)) or "Span" in m.detail or "Error{kind" in m.detail:
                    return True
            if m.kind.startswith("loop") and "Span" in m.detail:
                return True
            return v is not None and v.tr is not None and misplaced(v)
        if self.only == "panics":
            return m.kind == "panic" or (m.a is not None and v is not None and v.tr is not None and m.kind in ("outcome", "loop-step") and bool(new_offsets(m.a, v)))
        if m.kind == "panic":
            return True
        for enum, full, want, p in self.sets:
            for r in (m.a, m.b):
                if r is None:
                    continue
                for k, v in r.f.d.items():
                    if k[0] != "v" or not (v < full):
                        continue
                    ty = it_types(k[1])
                    if ty is not None and ty != enum:
                        continue
                    if not (v & want):
                        return False
        return True


SPAN = "types::span::Span"


def spans(tab):
    """the source places a function makes up and, second, what it attaches them
    to, with and without the place; loop variables are anonymous"""
    r = getattr(tab, "_spans", None)
    if r is None:
        memo = {}
        anon, gone = mk("var"), mk("place")
        own, full, bare = set(), set(), set()
        p = tab.it.p
        for row in tab.rows + [x for g in tab.groups.values() for x in g]:
            for t in [row.ret] + list(row.eff.values()):
                for x in subterms(t):
                    if x.op != "adt":
                        continue
                    y = None
                    if x.a[0] == SPAN:
                        own.add(rebuild(norm_abs(x), lambda y: anon if y.op in ("clv", "lv", "dead") else None, memo))
                        continue
                    ad = p.adts.get(x.a[0])
                    if not ad or not ad.get("local"):
                        continue
                    tys = next((f["fields"] for f in ad["variants"] if f["name"] == x.a[1] or ad["kind"] == "struct"), ())
                    at = [i for i, f in enumerate(tys) if p.types[f["ty"]].get("def") == SPAN]
                    if not at or len(tys) != len(x.a) - 3:
                        continue
                    y = rebuild(norm_abs(x), lambda y: anon if y.op in ("clv", "lv", "dead") else None, memo)
                    full.add(y)
                    bare.add(mk("adt", *y.a[:3], *[gone if i in at else z for i, z in enumerate(y.a[3:])]))
        r = tab._spans = own, full, bare
    return r


def misplaced(v):
    """the function attaches other places than the reference's"""
    a, b = spans(v.tn), spans(v.tr)
    return a[0] != b[0] or a[2] == b[2] and a[1] != b[1]


def offsets(row):
    """positions in a text a case computes"""
    out = set()
    for t in [row.ret] + list(row.eff.values()):
        for x in subterms(t):
            if x.op == "adt" and x.a[0] in ("types::span::Span", "core::ops::range::Range"):
                out |= set(x.a[3:5])
            elif x.op == "app" and x.a[0] == "substr" or x.op == "substr":
                out |= {y for y in x.a[-2:] if isinstance(y, T)}
    return {x for x in out if x.op == "lin" and x.a[0]}


def new_offsets(row, v):
    """positions the reference never computes: a text may be cut there, inside
    a character or past its end"""
    o = offsets(row)
    if o:
        for r in v.tr.rows + [x for g in v.tr.groups.values() for x in g]:
            o -= offsets(r)
    return o


def fact_types(s, v):
    """ADT name of a term in either summary"""
    its = []
    for (side, path, inl, unroll), t in s.tables.items():
        if path == v.unit and not isinstance(t, Exception):
            its.append(t.it)

    def f(term):
        for it in its:
            tid = it.tyof.get(term)
            if tid is not None:
                ty = it.p.types[tid]
                return ty.get("def") if ty["k"] == "adt" else None
        return None
    return f


class Ctx:
    def __init__(self, prop, suite):
        self.prop, self.s = prop, suite
        self.cur, self.ref = suite.cur, suite.ref
        self.counts, self.samples = {}, []
        self.violations = []

    def bad(self, key, text=""):
        self.violations.append(Violation(key, text))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def assess(prop, s, units, res, st, samples, where=""):
    """judge the units; what concerns the property becomes a violation"""
    sel = Selector(prop, (s.cur, s.ref))
    for u in units:
        vs = s.judge(u, prop["errors"])
        if all(v.status == "equal" for v in vs):
            st["in_callers" if vs and vs[0].how.startswith(("in callers", "unused")) else "equal"] += 1
            if len(samples) < 4 and u in s.units:
                t = s.tables.get(("cur", u, frozenset(), 0))
                if t is not None and not isinstance(t, Exception) and t.rows:
                    samples.append({"function": u, "case": repr(t.rows[0])[:300]})
            continue
        bad = False
        for v in vs:
            if v.status == "equal":
                continue
            if v.status == "undecided":
                st["undecided"] += 1
                res.notes.append(f"{v.unit}{where}: not analysed ({v.note})")
                continue
            if v.status == "absent":
                bad = True
                res.violations.append(Violation(f"{v.unit}: gone{where}", v.note))
                continue
            types = fact_types(s, v)
            ms = [m for m in v.mism if sel.keep(m, types, v)]
            if not ms and v.unit != u and u in s.units:
                # its callers do differ; what concerns this property may only be told apart in the function itself
                w = s.verdict(u, prop["errors"])
                if w.status == "different":
                    types = fact_types(s, w)
                    ms = [m for m in w.mism if sel.keep(m, types, w)]
            if not ms:
                continue
            bad = True
            res.violations.append(Violation(f"{v.unit}: behaviour differs from the confirmed one{where}" + (f" (reached from {u})" if v.unit != u else ""),
                                            "\n".join(repr(m)[:1500] for m in ms[:3])))
        st["different" if bad else "elsewhere"] += 1


def bare_suite(s):
    """the crate without its default features: the few functions whose text depends on them"""
    r = getattr(s, "_bare", None)
    if r is None:
        with open(os.path.join(REF, "min-units.json")) as f:
            units = json.load(f)
        r = s._bare = Suite(load_cur(""), load_ref("min.json.gz")), units
        r[0].want_panics, r[0].budget, r[0].hard = s.want_panics, s.budget, s.hard
    return r


def skeleton(x):
    """a body without the numbers that differ between dumps"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return 0
    if isinstance(x, list):
        return [skeleton(y) for y in x]
    return {k: (v if isinstance(v, int) and k not in ("ty", "key") else skeleton(v)) for k, v in x.items() if k not in ("targs", "span")}


def debug_dependent(a, b):
    """paths of the local functions whose body depends on debug assertions"""
    def of(p):
        return {k: json.dumps(skeleton(f["blocks"])) for k, f in p.d["fns"].items() if f["local"]}
    x, y = of(a), of(b)
    return {f["path"].split("::{")[0] for p, m, o in ((a, x, y), (b, y, x)) for k, f in p.d["fns"].items() if k in m and m[k] != o.get(k)}


def release_suite(s):
    """the crate without debug assertions: the few functions whose text depends on them"""
    r = getattr(s, "_rel", None)
    if r is None:
        cur = load_cur(release=True)
        dep = debug_dependent(load_cur(), cur)
        t = Suite(cur, load_ref("rel.json.gz"))
        t.want_panics, t.budget, t.hard = s.want_panics, s.budget, s.hard
        units, todo = set(), list(dep)
        seen = set(todo)
        while todo:
            u = todo.pop()
            if u in t.units:
                units.add(u)
                continue
            for c in t.callers(u) - seen:
                seen.add(c)
                todo.append(c)
        r = s._rel = t, units
    return r


def decide(prop, tier="quick", suite=None):
    res = Result()
    s = suite or Suite(load_cur(), load_ref())
    s.want_panics = True
    if tier == "thorough":
        s.budget = 120
    pats = [re.compile(r) for r in prop["units"]]
    owned = sorted(u for u in set(s.ck) | set(s.rk) if any(p.search(u) for p in pats) and (u in s.rk))
    new = sorted(u for u in set(s.ck) - set(s.rk) if any(p.search(u) for p in pats))
    st = {"equal": 0, "in_callers": 0, "elsewhere": 0, "undecided": 0, "different": 0}
    samples = []
    assess(prop, s, owned, res, st, samples)
    bare = []
    with open(os.path.join(REF, "min-units.json")) as f:
        bare = [u for u in json.load(f) if any(p.search(u) for p in pats)]
    if bare:
        try:
            b = bare_suite(s)[0]
        except dumper.BuildFailed:
            res.notes.append("the crate does not build without its default features: not analysed")
        else:
            assess(prop, b, [u for u in bare if u in b.rk], res, st, samples, " (without default features)")
            for k, v in b.stats.items():
                if s is not suite or not getattr(s, "_bare_counted", False):
                    s.stats[k] = s.stats[k] | v if isinstance(v, set) else s.stats[k] + v
            s._bare_counted = True
    rel = []
    try:
        t, units = release_suite(s)
    except dumper.BuildFailed:
        res.notes.append("the crate does not build without debug assertions: not analysed")
    else:
        rel = [u for u in owned if u in units]
        if rel:
            assess(prop, t, rel, res, st, samples, " (without debug assertions)")
            if s is not suite or not getattr(s, "_rel_counted", False):
                for k, v in t.stats.items():
                    s.stats[k] = s.stats[k] | v if isinstance(v, set) else s.stats[k] + v
            s._rel_counted = True
    ctx = Ctx(prop, s)
    for r in prop["rules"]:
        getattr(rulemod, r)(ctx)
    res.violations += ctx.violations
    uniq = {}
    for v in res.violations:
        uniq.setdefault(v.key, v)
    res.violations = list(uniq.values())
    cases = s.stats["rows"] + s.stats["panics"]
    res.coverage = {
        "explanation": prop["technique"] or "every owning function's MIR is abstracted to a decision table (path facts -> result, effects, next loop state) and compared case by case with the confirmed reference",
        "functions_owned": len(owned), "functions_new": len(new), "functions_equal": st["equal"], "settled_in_callers": st["in_callers"],
        "disagreements_elsewhere": st["elsewhere"], "functions_undecided": st["undecided"], "functions_different": st["different"],
        "programs": len(owned) + len(bare) + len(rel), "functions_without_default_features": len(bare), "functions_without_debug_assertions": len(rel), "disagreements_checked": s.stats["pairs"], "cases_analysed": cases, "loops_analysed": s.stats["loops"],
        "functions_analysed": len(s.stats["analysed"]), "functions_inlined": len(s.stats["inlined"]),
        "rules": prop["rules"], "rule_counts": ctx.counts, "samples": (samples + ctx.samples) or [{"rule": r} for r in prop["rules"]],
        "obligations": len(owned) + len(bare) + len(rel) + sum(ctx.counts.values()), "discharged": st["equal"] + st["in_callers"] + st["elsewhere"] + sum(ctx.counts.values()) - len(ctx.violations),
    }
    res.assumptions = ["the confirmed reference (ref/mir.json.gz) was reviewed against the property", "models of standard library calls in sa/models.py"]
    res.summary = f"{len(owned)} functions, {cases} cases, {s.stats['pairs']} comparisons, rules {ctx.counts or prop['rules']}"
    return res
