"""Comparison of two decision tables (current tree / confirmed reference).

Tables are sets of rows (path facts -> returned value, effects); loops are
rows (facts -> next values of the loop variables). Two tables agree when every
pair of rows whose facts can hold together yields the same values, each case
of one is covered by the other, and loops agree the same way.
"""
import itertools, time
from terms import *
from terms import _oriented, _descend
from facts import Facts
from interp import Interp, TooBig, Unsupported

ERRP = "error::"


# ---- substitution ------------------------------------------------------------

def map_facts(f, fn, memo):
    """facts with every term mapped; None when they become contradictory"""
    out = Facts()
    for k, v in f.d.items():
        kind, t = k
        t2 = rebuild(t, fn, memo)
        if kind == "v":
            if t2.op == "adt":
                if t2.a[1] not in v:
                    return None
                continue
            cur = out.d.get(("v", t2))
            v = v if cur is None else v & cur
            if not v:
                return None
            out.d[("v", t2)] = v
        elif kind == "i":
            lo, hi, ex = v
            c, d = lin_parts(t2)
            if not d:
                if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ex:
                    return None
                continue
            g, s = _oriented(d)
            lo = None if lo is None else lo - c
            hi = None if hi is None else hi - c
            ex = frozenset(x - c for x in ex)
            if s < 0:
                lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                ex = frozenset(-x for x in ex)
            key = ("i", lin_make(0, g))
            cur = out.d.get(key)
            if cur is not None:
                lo = cur[0] if lo is None else lo if cur[0] is None else max(lo, cur[0])
                hi = cur[1] if hi is None else hi if cur[1] is None else min(hi, cur[1])
                ex = ex | cur[2]
            if lo is not None and hi is not None and lo > hi:
                return None
            out.d[key] = (lo, hi, ex)
        elif kind == "s":
            e, ex = v
            if t2.op == "str":
                if (e is not None and e is not t2) or t2 in ex:
                    return None
                continue
            cur = out.d.get(("s", t2))
            if cur is not None and cur != v:
                g = Facts({("s", t2): cur}).join(Facts({("s", t2): v}))
                if g is None:
                    return None
                v = g.d[("s", t2)]
            out.d[("s", t2)] = v
        else:
            if t2.op == "int":
                if bool(t2.a[0]) != v:
                    return None
                continue
            r = out.assume(t2, v) if t2.op in ("ge0", "zero", "not", "and", "streq") else None
            if r is not None:
                if not r:
                    return None
                out = r[0]
                continue
            if out.d.get(("b", t2), v) != v:
                return None
            out.d[("b", t2)] = v
    return out


# ---- canonical loops ----------------------------------------------------------

_colour = {}
ROUNDS = 5


def colour(key):
    c = _colour.get(key)
    if c is None:
        c = _colour[key] = len(_colour)
    return c


def lvs_of(ts):
    out = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "lv":
                out.add(x)
    return out


def known_step(n, v):
    c, d = lin_parts(sub(n, v))
    return None if d else c


class Row:
    __slots__ = ("f", "ret", "eff", "loops", "panic", "orig")

    def __init__(self, f, ret, eff, loops, panic, orig=None):
        self.f, self.ret, self.eff, self.loops, self.panic, self.orig = f, ret, eff, loops, panic, orig

    def __repr__(self):
        s = f"[{self.f.show()}] -> " + (f"PANIC {self.panic}" if self.panic else show(self.ret))
        for k, v in self.eff.items():
            s += f"\n       {show(k)} := {show(v)}"
        return s


class Table:
    """canonical form of the outcomes of one analysed function"""

    bounded = set()

    def __init__(self, it, outs, ns="F"):
        self.it = it
        self.ns = ns
        loops = it.loops
        seed = []
        for o in outs:
            seed.append(o.ret)
            seed += list(o.eff.values()) + list(o.eff.keys())
            seed += [k[1] for k in o.f.d]
        live = lvs_of(seed)
        uids = {x.a[0] for x in live}
        for o in outs:
            uids.update(o.loops)
        # closure over inner/outer loops; facts of rows are control, hence live
        todo = list(uids)
        lv_todo = list(live)
        done_l, done_v = set(), set()
        while todo or lv_todo:
            if todo:
                u = todo.pop()
                if u in done_l or u not in loops:
                    continue
                done_l.add(u)
                for f, nx, ls in loops[u].rows:
                    lv_todo += lvs_of(k[1] for k in f.d)
                    todo += [x for x in ls if x not in done_l]
                continue
            v = lv_todo.pop()
            if v in done_v:
                continue
            done_v.add(v)
            L = loops.get(v.a[0])
            if L is None:
                continue
            todo.append(v.a[0])
            if v in L.init:
                lv_todo += lvs_of([L.init[v]])
            for f, nx, ls in L.rows:
                if v in nx:
                    lv_todo += lvs_of([nx[v]])
        self.live = done_v
        self.loops_live = done_l
        self.outs = outs
        self.flatten()
        self.lockstep()
        self.col = self.rounds(True)
        self.finalise(self.col)

    def flatten(self):
        """an inner loop that the outer one enters at its head, continuing from
        the outer variables (a skip loop), is one more step of the outer loop:
        while a { while b { S } R }  ~  while a { if b { S } else { R } }"""
        loops = self.it.loops
        self.alias = {}       # outer variable -> inner variable that stands for it
        self.merged = {}      # inner loop -> outer loop
        memo = {}
        used = set()          # variables mentioned otherwise than to start an inner loop
        for o in self.outs:
            used |= lvs_of([o.ret] + list(o.eff.values()) + list(o.eff.keys()) + [k[1] for k in o.f.d])
        for u in self.loops_live:
            for f, nx, ls in loops[u].rows:
                used |= lvs_of([k[1] for k in f.d])
                used |= lvs_of([t for v, t in nx.items() if v in self.live])
        for u in self.loops_live:
            L = loops[u]
            vs = [v for v in L.lvs if v in self.live and v in L.init]
            if not vs or not all(L.init[v].op == "lv" and L.init[v].a[0] != u for v in vs):
                continue
            outer = {L.init[v].a[0] for v in vs}
            if len(outer) != 1 or len({L.init[v] for v in vs}) != len(vs):
                continue
            o = next(iter(outer))
            if o not in self.loops_live or any(L.init[v] in used or L.init[v] in self.alias for v in vs):
                continue
            if not all(u in ls for f, nx, ls in loops[o].rows):
                continue
            for v in vs:
                self.alias[L.init[v]] = v
            self.merged[u] = o

    def lockstep(self):
        """a counter from a constant that another variable of the loop keeps
        step with says nothing that the other does not"""
        self.derived = {}
        for u in self.loops_live:
            L = self.it.loops[u]
            if u in self.merged or u in self.merged.values() or not L.rows:
                continue
            step = {}
            for v in L.lvs:
                if v not in self.live or v not in L.init or v in self.alias:
                    continue
                ks = {known_step(nx.get(v, v), v) for f, nx, ls in L.rows}
                if len(ks) == 1 and None not in ks and ks != {0}:
                    step.setdefault(next(iter(ks)), []).append(v)
            for k, vs in step.items():
                cs = [v for v in vs if L.init[v].op == "int"]
                ts = [v for v in vs if L.init[v].op != "int" and not any(x.op == "lv" and x.a[0] == u for x in subterms(L.init[v]))]
                if not cs or not ts:
                    continue
                w = ts[0]
                for v in cs:
                    self.derived[v] = add(sub(w, L.init[w]), L.init[v])
                    self.live.discard(v)

    def rep(self, t):
        while t in self.alias:
            t = self.alias[t]
        return t

    def root(self, u):
        while u in self.merged:
            u = self.merged[u]
        return u

    def first(self, v):
        """value of a loop variable on entry"""
        L = self.it.loops.get(v.a[0])
        i = L.init.get(v)
        while i in self.alias:
            L = self.it.loops.get(i.a[0])
            i = L.init.get(i)
        return i

    def steps(self, u):
        """rows of the loop and of the loops that are steps of it"""
        out = []
        for w in self.loops_live:
            if self.root(w) == self.root(u):
                for f, nx, ls in self.it.loops[w].rows:
                    out.append((f, {self.rep(v): t for v, t in nx.items() if v in self.live}, self.it.loops[w].where))
        return out

    def rounds(self, nexts):
        """colours of the live loop variables by first value (and, when nexts,
        by the set of next values)"""
        loops = self.it.loops
        steps = {u: self.steps(u) for u in {self.root(w) for w in self.loops_live}}
        col = {v: -1 for v in self.live if v not in self.alias}
        for r in range(ROUNDS):
            def sub_(t, col=col, r=r):
                if t.op == "lv":
                    if t in self.derived:
                        return rebuild(self.derived[t], sub_, memo)
                    c = col.get(self.rep(t))
                    return mk("clv", r, c) if c is not None else mk("dead")
                return None
            memo = {}
            new = {}
            for v in self.live:
                L = loops.get(v.a[0])
                if L is None:
                    new[v] = colour(("free", r, v.a[1]))
                    continue
                if v in self.alias:
                    continue
                ini = self.first(v)
                ini = rebuild(ini, sub_, memo) if ini is not None else None
                ini = norm_abs(ini) if ini is not None else None
                if nexts:
                    nx = frozenset(norm_abs(rebuild(n[v], sub_, memo)) for f, n, _ in steps[self.root(v.a[0])] if v in n and self.rep(n[v]) is not v)
                    new[v] = colour((r, ini, nx))
                else:
                    tid = self.it.tyof.get(v)
                    new[v] = colour((r, ini, self.it.p.tname(tid) if tid is not None else None, "soft"))
            col = new
        return col

    def finalise(self, col, shared=None):
        it = self.it
        loops = it.loops

        def fin(t):
            if t.op == "lv":
                if t in self.derived:
                    return rebuild(self.derived[t], fin, self.memo)
                t = self.rep(t)
                c = col.get(t)
                if c is None:
                    return mk("dead")
                x = mk("clv", self.ns, c)
                if t in it.tyof and x not in it.tyof:
                    it.tyof[x] = it.tyof[t]
                b = BOUNDS.get(t, (None, None))
                if x in self.bounded:
                    o = BOUNDS.get(x, (None, None))
                    b = (None if None in (b[0], o[0]) else min(b[0], o[0]), None if None in (b[1], o[1]) else max(b[1], o[1]))
                self.bounded.add(x)
                BOUNDS.pop(x, None)
                if b != (None, None):
                    BOUNDS[x] = b
                return x
            return None
        self.memo = {}
        self.fin = fin
        self.groups = {}
        gid = {}
        members = {}
        for u in self.loops_live:
            members.setdefault(self.root(u), []).append(u)
        for u, ms in members.items():
            cs = frozenset(col[v] for w in ms for v in loops[w].lvs if v in col)
            if shared is not None and cs & shared:
                cs = cs & shared
            for w in ms:
                gid[w] = cs
            if not cs:
                continue
            rows = self.groups.setdefault(cs, [])
            for f, nx, where in self.steps(u):
                g = map_facts(f, fin, self.memo)
                if g is None:
                    continue
                n = {}
                for v, t in nx.items():
                    if v in col:
                        k = mk("clv", self.ns, col[v])
                        t = rebuild(t, fin, self.memo)
                        n[k] = t if n.get(k, t) is t else mk("app", "conflict", n[k], t)
                rows.append(Row(g, UNIT, n, (), None, where))
        self.rows = []
        self.panics = []
        self.cuts = []
        for o in self.outs:
            g = map_facts(o.f, fin, self.memo)
            if g is None:
                continue
            r = Row(g, rebuild(o.ret, fin, self.memo),
                    {rebuild(k, fin, self.memo): rebuild(v, fin, self.memo) for k, v in o.eff.items()},
                    frozenset(gid[u] for u in o.loops if u in gid), o.panic)
            (self.cuts if o.cut else self.panics if o.panic else self.rows).append(r)
        for t, t2 in self.memo.items():
            if t is not t2 and t in it.tyof and t2 not in it.tyof:
                it.tyof[t2] = it.tyof[t]


def pairings(tn, tr, limit=12):
    """ways to identify the loop variables of two tables by first value

    -> list of (names of tn, names of tr, shared names)"""
    sn, sr = tn.rounds(False), tr.rounds(False)

    def classes(t, soft):
        out = {}
        for v in t.col:
            out.setdefault(soft[v], {}).setdefault(t.col[v], []).append(v)
        return {s: sorted(c.items(), key=lambda kv: (min(v.a[0] for v in kv[1]), str(min(str(v.a[1]) for v in kv[1])))) for s, c in out.items()}
    cn, cr = classes(tn, sn), classes(tr, sr)
    choices = []
    for s in sorted(set(cn) | set(cr)):
        A0, B0 = list(cn.get(s, [])), list(cr.get(s, []))
        ha, hb = {c for c, _ in A0}, {c for c, _ in B0}
        A = [x for x in A0 if x[0] not in hb]
        B = [x for x in B0 if x[0] not in ha]
        hn = {c: ("h", c) for c in ha & hb}

        def distinct(X):
            ls = [{v.a[0] for v in vs} for _, vs in X]
            return all(not (ls[i] & ls[j]) for i in range(len(ls)) for j in range(i))
        merged = ({c: ("s", s, 0) for c, _ in A0}, {c: ("s", s, 0) for c, _ in B0})
        can = A0 and B0 and distinct(A0) and distinct(B0)
        opts = []
        if A and B:
            if can:
                opts.append(merged)
            if len(A) == len(B):
                for perm in itertools.permutations(range(len(B))):
                    opts.append(({**hn, **{A[i][0]: ("s", s, i) for i in range(len(A))}}, {**hn, **{B[j][0]: ("s", s, i) for i, j in enumerate(perm)}}))
                    if len(opts) >= limit:
                        break
            if not opts:
                k = min(len(A), len(B))
                opts.append(({**hn, **{c: ("s", s, i) if i < k else ("n", c) for i, (c, _) in enumerate(A)}},
                             {**hn, **{c: ("s", s, i) if i < k else ("r", c) for i, (c, _) in enumerate(B)}}))
        else:
            if can and (A or B):
                opts.append(merged)
            opts.append(({**hn, **{c: ("n", c) for c, _ in A}}, {**hn, **{c: ("r", c) for c, _ in B}}))
        choices.append(opts)
    out = []
    first = [tuple(o[min(i, len(o) - 1)] for o in choices) for i in range(2)]
    for combo in first + list(itertools.islice(itertools.product(*choices), limit)):
        n, r = {}, {}
        for a, b in combo:
            n.update(a)
            r.update(b)
        shared = set(n.values()) & set(r.values())
        shared = {colour(x) for x in shared}
        out.append(({v: colour(n[c]) for v, c in tn.col.items()}, {v: colour(r[c]) for v, c in tr.col.items()}, shared))
    return out


# ---- values under facts --------------------------------------------------------

FWRITE = "core::fmt::Formatter::<'a>::write_str"


def prefix(a, b):
    """the text a is a proper beginning of the text b"""
    xs, ys = (list(x.a) if x.op == "cat" else [x] for x in (a, b))
    while xs and ys and xs[0] is ys[0]:
        xs.pop(0)
        ys.pop(0)
    if not xs:
        return bool(ys)
    return len(xs) == 1 and bool(ys) and xs[0].op == "str" and ys[0].op == "str" and ys[0].a[0].startswith(xs[0].a[0])


def failed_prefix(t, f):
    """a formatter that refuses a text refuses every text beginning with it, the
    same way"""
    for (k, x), v in f.d.items():
        if k == "v" and x.op == "app" and x.a[0] == FWRITE and v == {"Err"} and x.a[1] is t.a[1] and prefix(x.a[2], t.a[2]):
            return x if t.a[0] == FWRITE else mk("app", t.a[0], *x.a[1:])
    return None


def const_under(t, f, adts):
    op = t.op
    if op == "app" and len(t.a) == 3 and t.a[0] in (FWRITE, FWRITE + "#0"):
        r = failed_prefix(t, f)
        if r is not None:
            return r
    if op in ("ge0", "zero", "not", "and", "streq", "isvar"):
        r = f.truth(t)
        return None if r is None else I(1 if r else 0)
    if op == "discr":
        k = f.d.get(("v", t.a[0]))
        p = adts(t.a[0]) if k is not None and len(k) == 1 else None
        if p is not None:
            for v in p[1]["variants"]:
                if v["name"] in k:
                    return I(v["discr"])
    if op not in ("int", "str", "lin", "adt", "tup", "vec", "push", "bytes", "fn", "clo"):
        k = f.d.get(("s", t))
        if k is not None and k[0] is not None:
            return k[0]
        k = f.d.get(("i", t))
        if k is not None and k[0] is not None and k[0] == k[1]:
            return I(k[0])
        k = f.d.get(("b", t))
        if k is not None:
            return I(1 if k else 0)
        if op == "tostr":
            k = f.d.get(("b", t.a[0]))
            if k is not None:
                return S("true" if k else "false")
        k = f.d.get(("v", t))
        if k is not None and len(k) == 1:
            p = adts(t)
            if p is not None:
                path, d, units = p
                vn = next(iter(k))
                for v in d["variants"]:
                    if v["name"] == vn and not v["fields"]:
                        return adt(path, vn, (), ())
                    if v["name"] == vn and len(v["fields"]) == 1 and vn in units:
                        return adt(path, vn, (v["fields"][0]["name"],), (UNIT,))
    return None


def collapse(t, f, adts):
    """C{a: x.a, b: k} is x where x.b is known to be k"""
    path, vn, names = t.a[:3]
    base = None
    for n, v in zip(names, t.a[3:]):
        if v.op == "fld" and v.a[1] == path and v.a[2] == vn and v.a[3] == n:
            if base is None:
                base = v.a[0]
            elif base is not v.a[0]:
                return None
    if base is None:
        return None
    if vn is not None and f.d.get(("v", base)) != {vn}:
        return None
    for n, v in zip(names, t.a[3:]):
        x = fld(base, path, vn, n)
        if x is not v and const_under(x, f, adts) is not v:
            return None
    return base


def norm(t, f, adts):
    if not f.d:
        return t

    def sub_(x):
        if x.op == "adt" and len(x.a) > 4:
            return collapse(x, f, adts)
        return const_under(x, f, adts)
    return rebuild(t, sub_, {})


_abs_memo = {}


def msg_abs(t):
    for x in subterms(t):
        if x.op in ("str", "fmt"):
            return mk("msg")
    return t


def _abs(t):
    """error texts are not compared"""
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith(ERRP) and len(t.a) > 1:
        r = [t.a[0]]
        for i, x in enumerate(t.a[1:]):
            if x.op == "adt" and x.a[0] == "core::ops::range::Range":
                # `impl Into<Span>`
                x = adt("types::span::Span", None, ("m", "n"), (adt_field(x, "start"), adt_field(x, "end")))
            r.append(rebuild(msg_abs(x) if i == 0 else x, _abs, _abs_memo))
        return mk("app", *r)
    return None


def norm_abs(t):
    return rebuild(t, _abs, _abs_memo)


_err_memo = {}


def _errdrop(t):
    if t.op == "app" and isinstance(t.a[0], str) and t.a[0].startswith(ERRP) and "Error" in t.a[0]:
        return mk("error")
    return None


def drop_errors(t):
    return rebuild(t, _errdrop, _err_memo)


def is_err(t):
    return t.op == "adt" and t.a[1] == "Err" and t.a[0] == RES


def err_row(r):
    """the case ends with a failure"""
    return is_err(r.ret) or r.f.d.get(("v", r.ret)) == ERRSET


ERRSET = frozenset(["Err"])


class Mismatch:
    def __init__(self, kind, where, a, b, detail=""):
        self.kind, self.where, self.a, self.b, self.detail = kind, where, a, b, detail

    def __repr__(self):
        return f"{self.kind} {self.where}\n   now: {self.a}\n   ref: {self.b}\n   {self.detail}"


class Comparer:
    def __init__(self, new_prog, ref_prog, clo_equal=None, errors=True, err_eff=False, deadline=None):
        self.deadline = deadline
        self.np, self.rp = new_prog, ref_prog
        self.clo_equal = clo_equal
        self.errors = errors
        self.err_eff = err_eff
        self.pairs = 0
        self.panics = True
        self.strict = False         # every panic of the reference is part of its behaviour

    def adts_fn(self, it):
        def g(t):
            tid = it.tyof.get(t)
            if tid is None:
                return None
            ty = it.p.types[tid]
            if ty["k"] == "adt" and ty["def"] in it.p.adts:
                # Ok or Some of ()
                a = [it.p.types[x]["s"] if isinstance(x, int) else None for x in ty.get("args", ())]
                units = ()
                if ty["def"] == RES:
                    units = tuple(n for n, x in zip(("Ok", "Err"), a) if x == "()")
                elif ty["def"] == OPT and a[:1] == ["()"]:
                    units = ("Some",)
                return ty["def"], it.p.adts[ty["def"]], units
            return None
        return g

    def view(self, t):
        t = norm_abs(t)
        return t if self.errors else drop_errors(t)

    def same(self, a, b, f, an, ar):
        if a is b:
            return True
        a, b = self.view(a), self.view(b)
        if a is b:
            return True
        both = lambda t: an(t) or ar(t)
        a, b = norm(a, f, both), norm(b, f, both)
        if a is b:
            return True
        return self.struct(a, b, f)

    def struct(self, a, b, f, depth=0):
        """structural equality with callable values compared by behaviour"""
        if a is b:
            return True
        if a.op != b.op and depth <= 60:
            # a reference and what it points to
            if a.op == "deref":
                return self.struct(a.a[0], b, f, depth + 1)
            if b.op == "deref":
                return self.struct(a, b.a[0], f, depth + 1)
        if depth <= 60 and (a.op in ("adt", "tup")) != (b.op in ("adt", "tup")):
            # a value and its parts
            w, p = (b, a) if a.op in ("adt", "tup") else (a, b)
            if w.op in ("fld", "app", "sym", "clv", "lv", "dead", "init", "at", "elem"):
                return self.parts(w, p, f, depth)
        if a.op != b.op or depth > 60:
            return False
        if a.op in ("clo", "fn"):
            if self.clo_equal is None:
                return False
            if not self.clo_equal(a, b):
                return False
            if a.op == "clo":
                return len(a.a) == len(b.a) and all(self.struct(x, y, f, depth + 1) for x, y in zip(a.a[1:], b.a[1:]))
            return True
        if len(a.a) != len(b.a):
            return False
        if a.op == "lin":
            return False
        for x, y in zip(a.a, b.a):
            if isinstance(x, T):
                if not isinstance(y, T) or not self.struct(x, y, f, depth + 1):
                    return False
            elif isinstance(x, tuple) and x and isinstance(x[0], T):
                if not isinstance(y, tuple) or len(x) != len(y) or not all(self.struct(p, q, f, depth + 1) for p, q in zip(x, y)):
                    return False
            elif x != y:
                return False
        return True

    def parts(self, w, p, f, depth):
        """w, known by the facts to have the shape of p, has the parts of p"""
        if p.op == "tup":
            xs = [(fld(w, None, None, str(i)), x) for i, x in enumerate(p.a)]
        else:
            path, vn, names = p.a[:3]
            if vn is None:
                return False
            k = f.d.get(("v", w))
            if k is None or set(k) != {vn}:
                return False
            xs = [(fld(w, path, vn, n), x) for n, x in zip(names, p.a[3:])]
        for v, x in xs:
            if v is x:
                continue
            c = const_under(v, f, lambda t: None)
            if not self.struct(v if c is None else c, x, f, depth + 1):
                return False
        return True

    def rows(self, where, A, B, an, ar, out, kind, keyf, coverage=True):
        ca, cb = [False] * len(A), [False] * len(B)
        n = {}
        for i, x in enumerate(A):
            if self.deadline is not None and time.time() > self.deadline:
                raise TooBig("time")
            for j, y in enumerate(B):
                f = x.f.join(y.f)
                if f is None:
                    continue
                f = refine(f)
                if f is None:
                    continue
                self.pairs += 1
                d = keyf(x, y, f)
                if d:
                    g = close(f, lambda t: an(t) or ar(t))
                    if g is None:
                        continue
                    if g is not f:
                        d = keyf(x, y, g)
                ca[i] = cb[j] = True
                if d:
                    k = err_row(x), err_row(y)
                    n[k] = n.get(k, 0) + 1
                    if n[k] <= 20:
                        out.append(Mismatch(kind, where, x, y, d))
                    elif sum(n.values()) > 200:
                        return
        if coverage:
            for i, x in enumerate(A):
                if not ca[i]:
                    out.append(Mismatch(kind + "-new-case", where, x, None, "no such case before"))
            for j, y in enumerate(B):
                if not cb[j]:
                    out.append(Mismatch(kind + "-lost-case", where, None, y, "case no longer returns"))

    def cutkey(self, x, y, f, an, ar, tn, tr):
        by = [{}, {}]
        for d, r in zip(by, (x, y)):
            for p in r.ret.a:
                d.setdefault(p.a[0].a[0], []).append(p.a[1])
        for ty in by[0].keys() & by[1].keys():
            p, q = by[0][ty], list(by[1][ty])
            if len(p) != len(q):
                continue
            for v in p:
                for w in q:
                    if self.same(v, w, f, an, ar):
                        q.remove(w)
                        break
                else:
                    return f"{ty} in the loop is {show(self.view(v))}\n   instead of {[show(self.view(w)) for w in q]}"
        for k in set(x.eff) & set(y.eff):
            if not self.same(x.eff[k], y.eff[k], f, an, ar):
                return f"{show(k)} becomes in the loop {show(self.view(x.eff[k]))}\n   instead of {show(self.view(y.eff[k]))}"
        return None

    def compare(self, where, tn, tr, rowfilter=None):
        an, ar = self.adts_fn(tn.it), self.adts_fn(tr.it)
        out = []

        def rowkey(x, y, f):
            if not self.same(x.ret, y.ret, f, an, ar):
                return f"returns {show(self.view(x.ret))}\n   instead of {show(self.view(y.ret))}"
            if is_err(x.ret) and is_err(y.ret) and not self.err_eff:
                return None
            for k in set(x.eff) | set(y.eff):
                a, b = x.eff.get(k), y.eff.get(k)
                if a is None:
                    a = tn.it.deref_sym(k)
                if b is None:
                    b = tr.it.deref_sym(k)
                if not self.same(a, b, f, an, ar):
                    return f"{show(k)} becomes {show(self.view(a))}\n   instead of {show(self.view(b))}"
            return None

        A, B = tn.rows, tr.rows
        if rowfilter:
            A = [r for r in A if rowfilter(r)]
            B = [r for r in B if rowfilter(r)]
        self.rows(where, A, B, an, ar, out, "outcome", rowkey)
        if (tn.cuts or tr.cuts) and not rowfilter:
            self.rows(where, tn.cuts, tr.cuts, an, ar, out, "loop-state", lambda x, y, f: self.cutkey(x, y, f, an, ar, tn, tr), coverage=False)

        def loopkey(x, y, f):
            for k in set(x.eff) | set(y.eff):
                a, b = x.eff.get(k, k), y.eff.get(k, k)
                if not self.same(a, b, f, an, ar):
                    return f"next {show(k)} is {show(self.view(a))}\n   instead of {show(self.view(b))}"
            return None
        for g in set(tn.groups) | set(tr.groups):
            ra, rb = tn.groups.get(g), tr.groups.get(g)
            if ra is None or rb is None:
                r = (ra or rb)
                if not r:
                    continue
                if rowfilter:
                    continue
                out.append(Mismatch("loop", where, ra[0] if ra else None, rb[0] if rb else None, "loop without counterpart"))
                continue
            if rowfilter:
                ra = [r for r in ra if rowfilter(r)]
                rb = [r for r in rb if rowfilter(r)]
            self.rows(where, ra, rb, an, ar, out, "loop-step", loopkey)
            # one continues where the other leaves
            for P, Q, tag in ((ra, B, "continues"), (rb, A, "leaves")):
                own = A if tag == "continues" else B
                for x in P:
                    for y in Q:
                        if g in y.loops:
                            f = x.f.join(y.f)
                            if f is None or refine(f) is None:
                                continue
                            if any(g in o.loops and f.join(o.f) is not None for o in own) :
                                continue
                            if close(f, lambda t: an(t) or ar(t)) is None:
                                continue
                            out.append(Mismatch("loop-exit", where, x, y, f"loop {tag} here"))
        if self.panics and not rowfilter:
            self.panicking(where, tn, tr, an, ar, out)
            it = tr.it.p.items.get(where)
            if self.strict or it and it.get("exported"):
                self.accepting(where, tn, tr, an, ar, out)
        return out

    def accepting(self, where, tn, tr, an, ar, out):
        """the new function carries on where the reference refuses its caller's arguments by a panic of its own"""
        both = lambda t: an(t) or ar(t)
        for y in tr.panics:
            name = str(y.panic[0])
            if not (("unwrap_failed" in name or "expect_failed" in name) if self.strict else name.startswith("core::panicking::panic")):
                continue
            for x in tn.rows:
                f = x.f.join(y.f)
                if f is None:
                    continue
                f = refine(f)
                if f is None or close(f, both) is None:
                    continue
                self.pairs += 1
                out.append(Mismatch("refusal-lost", where, x, y, f"carries on where it used to panic: {y.panic[0]}"))
                break

    def panicking(self, where, tn, tr, an, ar, out):
        """the new function panics where the reference carries on"""
        both = lambda t: an(t) or ar(t)
        rest = tr.rows + [r for g in tr.groups.values() for r in g]
        seen = set()
        n = 0
        for x in tn.panics:
            k = frozenset(x.f.d.items())
            if k in seen:
                continue
            seen.add(k)
            if any(covers(g.f, x.f) for g in tr.panics):
                continue
            for y in rest:
                f = x.f.join(y.f)
                if f is None:
                    continue
                f = refine(f)
                if f is None or close(f, both) is None:
                    continue
                self.pairs += 1
                out.append(Mismatch("panic", where, x, y, f"panics: {x.panic[0]} in {' > '.join(str(p) for p in x.panic[1][-2:])}"))
                n += 1
                break
            if n > 10 or self.deadline is not None and time.time() > self.deadline:
                return


def covers(g, f):
    """every fact of g is among those of f"""
    j = f.join(g)
    return j is not None and j.d == f.d


def close(f, adts):
    """facts with known terms replaced inside other terms; None when contradictory"""
    for rnd in range(3):
        def sub_(x):
            if x.op == "adt" and len(x.a) > 4:
                return collapse(x, f, adts)
            return const_under(x, f, adts)
        memo = {}
        new = None
        for (kind, t), v in f.d.items():
            t2 = _descend(t, sub_, memo)
            if t2 is t:
                continue
            g = map_facts(Facts({(kind, t): v}), lambda x, t=t, t2=t2: t2 if x is t else x, {})
            if g is None:
                return None
            new = g if new is None else new.join(g)
            if new is None:
                return None
        if new is None:
            return f
        g = f.join(new)
        if g is None:
            return None
        if g.d == f.d:
            return f
        f = g
        if refine(f) is None:
            return None
    return f


def refine(f):
    """cheap consistency closure; None when contradictory"""
    ints = [(k[1], v) for k, v in f.d.items() if k[0] == "i"]
    if len(ints) < 2:
        return f
    # difference bounds: every interval fact with interval evaluation of others
    cons = []
    for t, (lo, hi, ex) in ints:
        c, d = lin_parts(t)
        if lo is not None:
            cons.append((d, lo))                      # d >= lo
        if hi is not None:
            cons.append(({x: -k for x, k in d.items()}, -hi))   # -d >= -hi
    atoms = set()
    for d, _ in cons:
        atoms |= set(d)
    for a in atoms:
        b = BOUNDS.get(a)
        if b:
            if b[0] is not None:
                cons.append(({a: 1}, b[0]))
    # one round of pairwise combination eliminating a shared atom
    n = len(cons)
    if n > 60:
        return f
    pool = list(cons)
    seen = {(frozenset(d.items()), c) for d, c in pool}
    for rnd in range(2):
        new = []
        for i in range(len(pool)):
            for j in range(i + 1, len(pool)):
                d1, c1 = pool[i]
                d2, c2 = pool[j]
                if not any(d2.get(x, 0) * k < 0 for x, k in d1.items()):
                    continue
                d = dict(d1)
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k
                d = {x: k for x, k in d.items() if k}
                c = c1 + c2
                if not d:
                    if c > 0:
                        return None
                    continue
                if len(d) <= 2:
                    key = (frozenset(d.items()), c)
                    if key not in seen:
                        seen.add(key)
                        new.append((d, c))
        if len(pool) + len(new) > 200:
            break
        pool += new
    return f
