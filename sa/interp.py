"""Path-sensitive dataflow over dumped MIR.

Abstract domain: a store of terms (terms.py) and a set of path facts
(facts.py). Branches partition traces on enum variants, integer intervals and
boolean atoms; loops are cut at their header (changed places become loop
variables); crate-local helpers and std combinators are inlined; everything
else is an uninterpreted function of its argument contents. Nothing is
executed and no solver is involved.
"""
import json
import re
import time
from terms import *
from facts import Facts
import models

MAXDEPTH = 60


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


class Program:
    def __init__(self, path):
        self.d = json.load(open(path)) if isinstance(path, str) else path
        self.fns = self.d["fns"]
        self.types = self.d["types"]
        self.adts = self.d["adts"]
        self.bodyless = self.d["bodyless"]
        self.cfgs = {}
        self.bypath = {}
        for k, f in self.fns.items():
            self.bypath.setdefault(f["path"], []).append(k)
        self.items = {i["path"]: i for i in self.d["items"]}
        self._tyname = {t["s"]: i for i, t in enumerate(self.types)}

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]["s"]

    def key_of(self, path):
        it = self.items.get(path)
        if it and "key" in it and it["key"] in self.fns:
            return it["key"]
        ks = self.bypath.get(path, [])
        ks = [k for k in ks if "::promoted[" not in k]
        return ks[0] if ks else None

    def cfg(self, key):
        c = self.cfgs.get(key)
        if c is None:
            c = self.cfgs[key] = Cfg(self.fns[key])
        return c

    def adt_of(self, tid):
        t = self.types[tid]
        if t["k"] == "adt":
            return self.adts.get(t["def"])
        return None

    def variants(self, tid):
        """[(name, discr)] of an enum type, else None"""
        a = self.adt_of(tid)
        if a and a["kind"] == "enum":
            return [(v["name"], v["discr"]) for v in a["variants"]]
        return None


def succs(term):
    k = term[0]
    if k == "goto":
        return [term[1]]
    if k == "switch":
        return [b for _, b in term[2]] + [term[3]]
    if k == "drop":
        return [term[2]]
    if k == "call":
        return [term[4]] if term[4] is not None else []
    if k == "assert":
        return [term[5]]
    return []


def operand_places(o):
    if o[0] in ("copy", "move"):
        yield o[1]


def rvalue_operands(r):
    k = r[0]
    if k in ("use",):
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


class Cfg:
    """reverse postorder, natural loops and live locals of one body"""

    def __init__(self, fn):
        self.fn = fn
        bl = fn["blocks"]
        n = len(bl)
        self.succ = [succs(b[1]) if b else [] for b in bl]
        order, seen, st = [], set(), [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])
        self._live()

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _live(self):
        fn = self.fn
        use, defs = {}, {}
        addr = set()

        def usepl(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def defpl(pl, u, d):
            if not pl[1]:
                d.add(pl[0])
            else:
                usepl(pl, u, d)
        for b in self.rpo:
            u, d = set(), set()
            sts, term = fn["blocks"][b]
            for s in sts:
                if s[0] == "=":
                    r = s[2]
                    for o in rvalue_operands(r):
                        for p in operand_places(o):
                            usepl(p, u, d)
                    if r[0] in ("ref", "rawptr"):
                        usepl(r[1], u, d)
                        if not any(e == "*" for e in r[1][1]):
                            addr.add(r[1][0])
                    if r[0] == "discr":
                        usepl(r[1], u, d)
                    defpl(s[1], u, d)
                elif s[0] == "sd":
                    usepl(s[1], u, d)
            if term[0] == "switch":
                for p in operand_places(term[1]):
                    usepl(p, u, d)
            elif term[0] == "call":
                for o in [term[1]] + term[2]:
                    for p in operand_places(o):
                        usepl(p, u, d)
                defpl(term[3], u, d)
            elif term[0] == "assert":
                for o in [term[1]] + term[4]:
                    for p in operand_places(o):
                        usepl(p, u, d)
            elif term[0] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], defs[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                n = use[b] | (out - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.addr = addr


INT_LIMITS = {f"{c}{n}": ((-(1 << n - 1), (1 << n - 1) - 1) if c == "i" else (0, (1 << n) - 1)) for c in "iu" for n in (8, 16, 32, 64, 128)}
INT_LIMITS["isize"], INT_LIMITS["usize"] = INT_LIMITS["i64"], INT_LIMITS["u64"]


def outside(t):
    """a number chosen outside the crate: literal, data, setting, parsed text"""
    if t.op == "fld":
        return t.a[2] == "Integer" or t.a[3] == "max_include_depth" or (t.a[1] == "types::ast::Index" and t.a[3] == "value")
    if t.op == "app" and isinstance(t.a[0], str):
        return bool(re.search(r"str::parse|from_str|FromStr|from_value|TryFrom|try_from|Deserialize", t.a[0]))
    return False


class State:
    __slots__ = ("mem", "f", "loops")

    def __init__(self, mem, f, loops=()):
        self.mem = mem
        self.f = f
        self.loops = loops

    def copy(self):
        return State(dict(self.mem), self.f, self.loops)

    def with_facts(self, f):
        return State(dict(self.mem), f, self.loops)


class Loop:
    def __init__(self, uid, where):
        self.uid = uid
        self.where = where
        self.init = {}
        self.rows = []
        self.exits = 0
        self.lvs = []


class Outcome:
    def __init__(self, facts, ret, effects, loops, panic=None, cut=False):
        self.cut = cut
        self.f = facts
        self.ret = ret
        self.eff = effects
        self.loops = loops
        self.panic = panic

    def __repr__(self):
        s = f"[{self.f.show()}]\n    -> "
        s += f"PANIC {self.panic}" if self.panic else show(self.ret)
        for k, v in self.eff.items():
            s += f"\n       {show(k)} := {show(v)}"
        return s


class Interp:
    loop_no = 0

    def __init__(self, prog, opaque=(), maxpaths=40000, opaque_fn=None, unroll=0, maxsteps=400000, deadline=None):
        self.unroll = unroll
        self.cut = []
        self.frames = {}
        self.deadline = deadline
        self.maxsteps = maxsteps
        self.p = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.tyof = {}
        self.frame_no = 0
        self.loops = {}
        self.maxpaths = maxpaths
        self.steps = 0
        self.stack = []
        self.panics = []
        self.unknown = set()
        self.foreign = set()         # those of them from crates other than the standard library
        self.called = set()      # local functions inlined or called
        self.opaque_called = set()
        self.mapslots = {}
        self.panic_on = True
        self.atids = None
        self.promo = {}
        self.trace = False
        self.mutaddr = set()     # references ever taken mutably
        self.alias = {}          # results that may hold mutable references -> those

    # ---- typing of symbolic terms -----------------------------------------
    def settype(self, t, tid):
        if tid is None:
            return t
        if t.op in ("int", "str", "adt", "tup", "ref", "vec", "push", "clo", "fn", "lin"):
            return t
        if t not in self.tyof:
            self.tyof[t] = tid
            ty = self.p.types[tid]
            if ty["k"] == "int" and not ty["signed"]:
                bound(t, 0, (1 << ty["w"]) - 1)
            elif ty["k"] == "int":
                bound(t, -(1 << (ty["w"] - 1)), (1 << (ty["w"] - 1)) - 1)
            elif ty["k"] == "bool":
                bound(t, 0, 1)
            elif ty["k"] == "char":
                bound(t, 0, 0x10FFFF)
        return t

    def type_of(self, t):
        return self.tyof.get(t)

    def kind_of(self, t):
        i = self.tyof.get(t)
        return self.p.types[i]["k"] if i is not None else None

    def is_unsized(self, tid):
        return self.p.types[tid]["k"] in ("str", "slice", "dyn")

    # ---- memory ------------------------------------------------------------
    def deref_sym(self, r):
        """content of the place a symbolic reference points to"""
        if r.op in ("str", "strof", "substr", "bytes", "bytesof"):
            return r
        tid = self.tyof.get(r)
        if tid is not None:
            ty = self.p.types[tid]
            if ty["k"] in ("ref", "ptr"):
                if self.is_unsized(ty["to"]) and self.p.types[ty["to"]]["k"] != "dyn":
                    return r
                return self.settype(mk("deref", r), ty["to"])
        return mk("deref", r)

    def base(self, st, alloc):
        v = st.mem.get(alloc)
        if v is None:
            if alloc[0] == "m":
                return self.deref_sym(alloc[1])
            if alloc[0] == "p":
                return self.promoted(alloc[1])
            return mk("uninit")
        return v

    def proj(self, v, e, st=None):
        k = e[0]
        if k == "f":
            _, path, variant, name, tid = e
            if v.op == "tup":
                return v.a[int(name)]
            if v.op == "clo":
                return v.a[1 + int(name)]
            if v.op == "adt" and path is not None:
                return fld(v, path, variant, name)
            return self.settype(fld(v, path, variant, name), tid)
        if k == "ix":
            return self.settype(index(v, e[1]), e[2])
        if k == "last":
            return self.settype(seq_last(v), e[1])
        if k == "box":
            if v.op == "boxv":
                return v.a[0]
            return self.settype(mk("unbox", v), e[1])
        if k == "sub":
            return subseq(v, e[1], e[2])
        raise Unsupported(f"proj {e}")

    def read(self, st, addr):
        alloc, path = addr
        v = self.base(st, alloc)
        for e in path:
            v = self.proj(v, e, st)
        return v

    def inject(self, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        inner = self.inject(self.proj(v, e), path[1:], new) if len(path) > 1 else new
        if k == "f":
            _, ap, variant, name, tid = e
            if v.op == "tup":
                a = list(v.a)
                a[int(name)] = inner
                return tup(*a)
            if v.op == "clo":
                a = list(v.a)
                a[1 + int(name)] = inner
                return mk("clo", *a)
            if ap is None:
                n = self.tuple_arity(v, e)
                fs = [self.proj(v, ("f", None, None, str(i), None)) for i in range(n)]
                fs[int(name)] = inner
                return tup(*fs)
            d = self.p.adts[ap]
            vd = d["variants"][0] if variant is None else next(x for x in d["variants"] if x["name"] == variant)
            names = tuple(sorted(f["name"] for f in vd["fields"]))
            fs = [inner if n == name else fld(v, ap, variant, n) for n in names]
            return adt(ap, variant, names, fs)
        if k == "ix":
            i = e[1]
            if v.op == "vec" and i.op == "int" and i.a[0] < len(v.a):
                a = list(v.a)
                a[i.a[0]] = inner
                return vec(*a)
            if i is sub(length(v), I(1)):
                return push(seq_init(v), inner)
            return mk("store", v, i, inner)
        if k == "last":
            return push(seq_init(v), inner)
        if k == "box":
            return mk("boxv", inner)
        raise Unsupported(f"write {e}")

    def tuple_arity(self, v, e):
        tid = self.tyof.get(v)
        if tid is not None:
            ty = self.p.types[tid]
            if ty["k"] in ("tuple", "closure"):
                return len(ty["elems"])
        raise Unsupported(f"arity of {v}")

    def write(self, st, addr, new):
        alloc, path = addr
        if path:
            new = self.inject(self.base(st, alloc), path, new)
        if alloc[0] == "m" and alloc[1] in self.mapslots:
            # the entry of a map: the map itself changes
            addr, k = self.mapslots[alloc[1]]
            mp = self.read(st, addr)
            if mp is alloc[1].a[1]:
                if mp.op == "insert" and mp.a[1] is k:
                    mp = mp.a[0]
                mp = insert(mp, k, new)
                t = mk("app", "map_at", mp, k)
                self.settype(t, self.tyof.get(alloc[1]))
                self.mapslots[t] = addr, k
                self.write(st, addr, mp)
                return
        st.mem[alloc] = new

    def point(self, v):
        """address a reference value points to"""
        if v.op == "ref":
            return v.a
        return (("m", v), ())

    def mkref(self, addr):
        alloc, path = addr
        if not path and alloc[0] == "m":
            return alloc[1]
        return mk("ref", alloc, path)

    def promoted(self, key):
        fn = self.p.fns[key]
        c = self.promo.get(key)
        if c is None:
            outs = self.call_body(State({}, Facts()), key, [], keep=True)
            if len(outs) != 1:
                raise Unsupported("promoted " + key)
            st, v = outs[0]
            c = self.promo[key] = self.snap(st, v)
        return c

    # content of a value: references replaced by what they point to
    def snap(self, st, v, keep=False, depth=0):
        if depth > 30:
            return v
        op = v.op
        if op == "ref":
            return self.snap(st, self.read(st, v.a), keep, depth + 1)
        if op in ("int", "str", "fn", "lv"):
            if op == "lv":
                return self.snap_sym(st, v, depth)
            return v
        if op in ("adt", "tup", "clo", "vec", "push", "boxv", "iter", "init", "lastof", "insert"):
            ch = False
            na = []
            for x in v.a:
                if isinstance(x, T):
                    y = self.snap(st, x, keep, depth + 1)
                    ch |= y is not x
                    na.append(y)
                else:
                    na.append(x)
            return renorm(op, na) if ch else v
        return self.snap_sym(st, v, depth)

    def snap_sym(self, st, v, depth):
        k = self.kind_of(v)
        if k == "ref":
            a = ("m", v)
            c = st.mem.get(a)
            if c is None:
                c = self.deref_sym(v)
                if c is v:
                    return v
            if c is not v:
                return self.snap(st, c, depth=depth + 1)
            return v
        # interior references modified through this value
        mods = []
        for al in st.mem:
            if al[0] == "m" and al[1] is not v and self.rooted(al[1], v):
                c = st.mem[al]
                if c is not self.deref_sym(al[1]):
                    mods.append((al[1], c))
        if mods and depth < 20:
            mods.sort(key=lambda p: p[0].id)
            xs = []
            for r, c in mods:
                xs += [r, self.snap(st, c, depth=depth + 5)]
            return mk("with", v, *xs)
        return v

    def rooted(self, r, v):
        while True:
            if r is v:
                return True
            if r.op in ("fld", "deref", "index", "unbox", "lastof"):
                r = r.a[0]
            else:
                return False

    # ---- places ------------------------------------------------------------
    TRANSPARENT = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
                   "core::mem::maybe_dangling::MaybeDangling",
                   "core::cell::UnsafeCell", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull")

    def place(self, st, fr, pl):
        local, projs, tid = pl
        addr = (("l", fr.id, local), ())
        ty = fr.fn["locals"][local][0]
        variant = None
        for e in projs:
            if e == "*":
                v = self.read(st, addr)
                t = self.p.types[ty]
                if t["k"] == "adt":   # Box deref
                    addr = (addr[0], addr[1] + (("box", None),))
                else:
                    if v.op == "boxv":
                        addr = (addr[0], addr[1] + (("box", None),))
                    else:
                        if t["k"] in ("ref", "ptr"):
                            self.settype(v, ty)
                        addr = self.point(v)
                ty = t.get("to", ty)
                if t["k"] == "adt" and t.get("args"):
                    ty = t["args"][0]
                continue
            k = e[0]
            if k == "d":
                variant = e[1]
                continue
            if k == "f":
                t = self.p.types[ty]
                if t["k"] == "adt":
                    d = self.p.adts[t["def"]]
                    if d["box"]:
                        if e[1] == 0:
                            addr = (addr[0], addr[1] + (("box", None),))
                        ty = e[2]
                        variant = None
                        continue
                    if t["def"] in self.TRANSPARENT:
                        ty = e[2]
                        variant = None
                        continue
                    vd = d["variants"][variant if variant is not None else 0]
                    name = vd["fields"][e[1]]["name"]
                    vn = vd["name"] if d["kind"] == "enum" else None
                    addr = (addr[0], addr[1] + (("f", t["def"], vn, name, e[2]),))
                elif t["k"] == "other" or t["k"] == "ptr":
                    pass
                else:
                    addr = (addr[0], addr[1] + (("f", None, None, str(e[1]), e[2]),))
                ty = e[2]
                variant = None
                continue
            t = self.p.types[ty]
            if k == "i":
                i = self.read(st, (("l", fr.id, e[1]), ()))
                addr = (addr[0], addr[1] + (("ix", i, t.get("to")),))
                ty = t.get("to", ty)
            elif k == "c":
                v = self.read(st, addr)
                i = sub(length(v), I(e[1])) if e[2] else I(e[1])
                addr = (addr[0], addr[1] + (("ix", i, t.get("to")),))
                ty = t.get("to", ty)
            elif k == "s":
                v = self.read(st, addr)
                hi = sub(length(v), I(e[2])) if e[3] else I(e[2])
                addr = (addr[0], addr[1] + (("sub", I(e[1]), hi),))
            else:
                raise Unsupported(f"projection {e}")
        return addr

    def read_place(self, st, fr, pl):
        ty = self.p.types[pl[2]]
        addr = self.place(st, fr, pl)
        if ty["k"] in ("ptr",) or (ty["k"] == "adt" and ty["def"] in ("core::ptr::unique::Unique", "core::ptr::non_null::NonNull")):
            if addr[1] and addr[1][-1][0] == "box":
                return self.mkref(addr)
        v = self.read(st, addr)
        return self.settype(v, pl[2])

    # ---- operands ----------------------------------------------------------
    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            return self.read_place(st, fr, o[1])
        return self.const(st, o)

    def const(self, st, o):
        _, tid, c = o
        if "int" in c:
            return I(c["int"])
        if "str" in c:
            return S(c["str"])
        if "fn" in c:
            return self.fnval(c["fn"])
        if "promoted" in c:
            return mk("ref", ("p", c["promoted"]), ())
        if "float" in c:
            return mk("float", c["float"])
        if "bytes" in c:
            return mk("bytes", tuple(c["bytes"]))
        if "zst" in c:
            t = self.p.types[tid]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("clo", t["key"])
            if t["k"] == "adt":
                return self.unit_struct(t["def"])
            return mk("zst", t["s"])
        if "fields" in c:
            t = self.p.types[tid]
            fs = [self.const(st, x) for x in c["fields"]]
            if t["k"] == "tuple":
                return tup(*fs)
            if t["k"] == "array":
                return vec(*fs)
            return self.build(t["def"], c["variant"] or 0, fs)
        if "ref" in c:
            v = self.const(st, c["ref"])
            r = mk("cref", v)
            st.mem[("m", r)] = v
            return r
        if "body" in c and c["body"] in self.p.fns:
            outs = self.call_body(State({}, Facts()), c["body"], [], keep=True)
            if len(outs) == 1:
                s2, v = outs[0]
                for k, x in s2.mem.items():
                    if k not in st.mem:
                        st.mem[k] = x
                return v
        if "static" in c:
            return self.settype(mk("static", c["static"]), tid)
        if "item" in c:
            return self.settype(mk("constitem", c["item"]), tid)
        return self.settype(mk("constop", c.get("opaque", "?")), tid)

    def unit_struct(self, path):
        d = self.p.adts[path]
        v = d["variants"][0]
        if v["fields"]:
            if all(True for _ in v["fields"]):
                return mk("zst", path)
        return adt(path, v["name"] if d["kind"] == "enum" else None, (), ())

    def fnval(self, c):
        return mk("fn", c["path"] if c.get("ctor") else (c.get("key") or c["path"]), _Callee(c))

    def build(self, path, vi, fs):
        d = self.p.adts[path]
        if path in self.TRANSPARENT and fs:
            return fs[0]
        vd = d["variants"][vi]
        names = [f["name"] for f in vd["fields"]]
        if len(fs) == 1 and d["kind"] == "union":
            return fs[0]
        pairs = sorted(zip(names, fs), key=lambda p: p[0])
        return adt(path, vd["name"] if d["kind"] == "enum" else None,
                   tuple(n for n, _ in pairs), tuple(f for _, f in pairs))

    # ---- rvalues -----------------------------------------------------------
    def rvalue(self, st, fr, r, tid):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref" or k == "rawptr":
            addr = self.place(st, fr, r[1])
            v = self.mkref(addr)
            if v.op != "ref":
                self.settype(v, tid)
            elif self.p.types[tid].get("mut"):
                self.mutaddr.add(v)
            return v
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return tup(*fs)
            if kk[0] == "array":
                return vec(*fs)
            if kk[0] == "adt":
                return self.build(kk[1], kk[2], fs)
            if kk[0] == "closure":
                return mk("clo", kk[1], *fs)
            raise Unsupported(f"aggregate {kk}")
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2])
            t = self.p.types[r[3]]
            if r[1] == "Not":
                if t["k"] == "bool":
                    return not_(a)
                return app("bitnot", a)
            if r[1] == "Neg":
                return scale(a, -1) if t["k"] == "int" else app("fneg", a)
            if r[1] == "PtrMetadata":
                return length(self.snap(st, a))
            return app("un" + r[1], a)
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            return self.discr(v, r[1][2])
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2][0] in ("copy", "move"):
                addr = self.place(st, fr, r[2][1])
                if addr[1] and addr[1][-1][0] == "box":
                    return self.mkref(addr)
            v = self.operand(st, fr, r[2])
            return self.cast(st, r[1], v, r[3], r[4])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return vec(*([v] * r[2]))
            return mk("repeat", v, str(r[2]))
        return app("rvalue:" + str(r[0]) + str(r[1:]))

    def discr(self, v, tid):
        self.settype(v, tid)
        vs = self.p.variants(tid)
        if vs is None:
            return I(0)
        if v.op == "adt":
            for n, d in vs:
                if n == v.a[1]:
                    return I(d)
        return mk("discr", v)

    def binop(self, st, op, a, b, tid):
        t = self.p.types[tid]
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if t["k"] == "float":
            nm = {"Eq": "feq", "Lt": "flt", "Le": "fle"}
            if op == "Ne":
                return not_(app_sorted("feq", a, b))
            if op in ("Gt", "Ge"):
                a, b = b, a
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            r = app(nm.get(op, "f" + op), a, b)
            return bound(r, 0, 1) if op in nm else r
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return not_(r) if op == "Ne" else r
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Add":
            r = add(a, b)
        elif op == "Sub":
            r = sub(a, b)
        elif op == "Mul":
            r = mul(a, b)
        elif op in ("BitAnd", "BitOr", "BitXor"):
            if t["k"] == "bool":
                if op == "BitAnd":
                    r = and_(a, b)
                elif op == "BitOr":
                    r = or_(a, b)
                else:
                    r = not_(self.eq(a, b))
            else:
                r = app_sorted({"BitAnd": "band", "BitOr": "bor", "BitXor": "bxor"}[op], a, b)
        elif op == "Cmp":
            r = app("cmp", a, b)
        elif a.op == "int" and b.op == "int" and op in ("Div", "Rem", "Shl", "Shr"):
            x, y = a.a[0], b.a[0]
            try:
                r = I({"Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "Rem": lambda: abs(x) % abs(y) * (-1 if x < 0 else 1), "Shl": lambda: x << y, "Shr": lambda: x >> y}[op]())
            except Exception:
                r = app(op, a, b)
        else:
            r = self.settype(app(op, a, b), tid)
        if wo:
            return tup(r, mk("overflow", op, r, self.tname_small(tid)))
        return r

    def tname_small(self, tid):
        return self.p.types[tid]["s"]

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "discr" and y.op == "int":
                tid = self.tyof.get(x.a[0])
                vs = self.p.variants(tid) if tid is not None else None
                if vs:
                    return mk("isvar", x.a[0], tuple(n for n, d in vs if d == y.a[0]), tuple(n for n, _ in vs))
        if a.op == "discr" and b.op == "discr" and a is not b:
            tid = self.tyof.get(a.a[0])
            vs = self.p.variants(tid) if tid is not None else None
            if vs and 1 < len(vs) <= 8 and self.tyof.get(b.a[0]) == tid:
                # the same variant: one case per variant
                names = tuple(n for n, _ in vs)
                t = I(1)
                for n in reversed(names):
                    same = mk("and", mk("isvar", a.a[0], (n,), names), mk("isvar", b.a[0], (n,), names))
                    t = mk("and", mk("not", same), t) if t.op != "int" else mk("not", same)
                return mk("not", t)
        return eq_int(a, b)

    def cast(self, st, kind, v, f, t):
        if kind.startswith("IntToInt"):
            ft, tt = self.p.types[f], self.p.types[t]
            lo, hi = self.range_of(ft)
            lo2, hi2 = self.range_of(tt)
            if v.op == "int":
                if lo2 <= v.a[0] <= hi2:
                    return v
                w = tt.get("w", 8)
                x = v.a[0] & ((1 << w) - 1)
                if tt.get("signed") and x >> (w - 1):
                    x -= 1 << w
                return I(x)
            if lo2 <= lo and hi <= hi2:
                return v
            return self.settype(app("cast:" + tt["s"], v), t)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Subtype"):
            return v
        if kind == "Transmute":
            if v.op == "ref" or self.kind_of(v) in ("ref", "ptr"):
                return v
            return v
        return self.settype(app("cast:" + kind + ":" + self.p.types[t]["s"], v), t)

    def range_of(self, t):
        if t["k"] == "int":
            if t["signed"]:
                return -(1 << (t["w"] - 1)), (1 << (t["w"] - 1)) - 1
            return 0, (1 << t["w"]) - 1
        if t["k"] == "char":
            return 0, 0x10FFFF
        if t["k"] == "bool":
            return 0, 1
        return 0, 0   # fieldless enums widen losslessly

    # ---- branching ---------------------------------------------------------
    def branch(self, st, cond):
        """-> [(state, bool)]"""
        tr = st.f.truth(cond)
        if tr is not None:
            return [(st, tr)]
        if cond.op == "isvar":
            x, want, allv = cond.a
            out = []
            f = st.f.assume_variants(x, want, allv)
            if f is not None:
                out.append((State(dict(st.mem), f, st.loops), True))
            f = st.f.assume_variants(x, set(allv) - set(want), allv)
            if f is not None:
                out.append((State(dict(st.mem), f, st.loops), False))
            return out
        if cond.op == "not":
            return [(s, not b) for s, b in self.branch(st, cond.a[0])]
        if cond.op == "and":
            out = []
            for s, b in self.branch(st, cond.a[0]):
                if not b:
                    out.append((s, False))
                else:
                    out += self.branch(s, cond.a[1])
            return out
        out = []
        for val in (True, False):
            for f in st.f.assume(cond, val):
                out.append((State(dict(st.mem), f, st.loops), val))
        return out

    def switch(self, st, v, targets, other, tid):
        """-> [(state, block)]"""
        if v.op == "int":
            for c, b in targets:
                if c == v.a[0]:
                    return [(st, b)]
            return [(st, other)]
        if v.op == "discr":
            x = v.a[0]
            tt = self.tyof.get(x)
            vs = self.p.variants(tt) if tt is not None else None
            if vs:
                allv = [n for n, _ in vs]
                byd = {d: n for n, d in vs}
                rest = set(allv)
                bb = {}
                for c, b in targets:
                    n = byd.get(c)
                    if n is None:
                        continue
                    rest.discard(n)
                    bb.setdefault(b, set()).add(n)
                bb.setdefault(other, set()).update(rest)
                out = []
                for b, ns in bb.items():
                    if not ns:
                        continue
                    f = st.f.assume_variants(x, ns, allv)
                    if f is not None:
                        out.append((State(dict(st.mem), f, st.loops), b))
                return out
        t = self.p.types[tid]
        if t["k"] == "bool" or is_boolish(v):
            out = []
            zero = next((b for c, b in targets if c == 0), other)
            one = next((b for c, b in targets if c == 1), other)
            for s, b in self.branch(st, v):
                out.append((s, one if b else zero))
            return out
        out = []
        cur = [st.f]
        for c, b in targets:
            z = eq_int(v, I(c))
            nxt = []
            for f in cur:
                for g in f.assume(z, True):
                    out.append((State(dict(st.mem), g, st.loops), b))
                nxt += f.assume(z, False)
            cur = nxt
        for f in cur:
            out.append((State(dict(st.mem), f, st.loops), other))
        return out

    def split_variant(self, st, v, tid=None):
        """case-split an enum value -> [(state, variantname)]"""
        if v.op == "adt":
            return [(st, v.a[1])]
        self.settype(v, tid)
        vs = self.p.variants(self.tyof[v])
        out = []
        allv = [n for n, _ in vs]
        for n in st.f.variants(v, allv):
            f = st.f.assume_variants(v, {n}, allv)
            if f is not None:
                out.append((State(dict(st.mem), f, st.loops), n))
        out.sort(key=lambda p: allv.index(p[1]))
        return out

    # ---- bodies ------------------------------------------------------------
    def call_body(self, st, key, args, keep=False):
        """inline a body -> [(state, ret)]"""
        fn = self.p.fns[key]
        fr = Frame(self, key, fn)
        for i, a in enumerate(args):
            st.mem[("l", fr.id, i + 1)] = a
            self.settype(a, fn["locals"][i + 1][0])
        self.stack.append(key)
        if len(self.stack) > MAXDEPTH:
            raise TooBig("depth " + key)
        if fn["local"]:
            self.called.add(key)
        try:
            backs, exits, rets = self.run(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            r = s.mem.get(("l", fr.id, 0), UNIT)
            r = self.settype(r, fn["locals"][0][0])
            m = s.mem if keep else {k: v for k, v in s.mem.items() if not (k[0] == "l" and k[1] == fr.id)}
            out.append((State(m, s.f, s.loops), r))
        return self.merge_outs(out)

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for s, r in outs:
            k = (r, frozenset((a, v) for a, v in s.mem.items()), s.loops)
            groups.setdefault(k, []).append(s)
        if len(groups) == len(outs):
            return outs
        res = []
        for (r, _, _), ss in groups.items():
            for f in merge_facts([s.f for s in ss]):
                res.append((State(ss[0].mem, f, ss[0].loops), r))
        return res

    def run(self, fr, start, st, header, region):
        """run from `start` within region (None = whole body).
        -> (back-edge states, [(exit block, state)], returned states)"""
        cfg = fr.cfg
        backs, exits, rets = [], [], []
        pending = {start: [st]}
        first = True
        while pending:
            b = min(pending, key=lambda x: cfg.pos[x])
            states = pending.pop(b)
            if region is not None and b not in region:
                exits += [(b, s) for s in states]
                continue
            states = [self.prune(fr, b, s) for s in states]
            if header is not None and b == header and not first:
                backs += states
                continue
            first_here, first = first and b == start, False
            states = self.merge_states(states)
            if b in cfg.loops and not (b == header):
                for s in states:
                    e2, r2 = self.do_loop(fr, b, s)
                    rets += r2
                    for bb, s2 in e2:
                        pending.setdefault(bb, []).append(s2)
                continue
            for s in states:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt == "ret":
                        rets.append(s2)
                    else:
                        pending.setdefault(tgt, []).append(s2)
            if sum(len(x) for x in pending.values()) + len(rets) > self.maxpaths:
                raise TooBig(fr.key)
        return backs, exits, rets

    def prune(self, fr, b, s):
        live = fr.cfg.live.get(b)
        addr = fr.cfg.addr
        dead = [k for k in s.mem if k[0] == "l" and k[1] == fr.id and k[2] not in live and k[2] not in addr]
        if not dead:
            return s
        s = s.copy()
        for k in dead:
            del s.mem[k]
        return s

    def merge_states(self, states):
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            k = (frozenset(s.mem.items()), s.loops)
            groups.setdefault(k, []).append(s)
        if len(groups) == len(states):
            return states
        out = []
        for ss in groups.values():
            for f in merge_facts([s.f for s in ss]):
                out.append(State(ss[0].mem, f, ss[0].loops))
        return out

    def do_loop(self, fr, header, st):
        region = fr.cfg.loops[header]
        live = fr.cfg.live[header]
        rets_box = []

        def it(s):
            backs, exits, rets = self.run(fr, header, s, header, region)
            return backs, [("e", b, x) for b, x in exits] + [("r", None, x) for x in rets]
        where = f"{fr.fn['path']}"
        exits = self.loop(st, it, where)
        return [(b, s) for k, b, s in exits if k == "e"], [s for k, b, s in exits if k == "r"]

    def loop(self, st, it, where):
        """generic loop summary; it(state) -> (back states, exits[(.., .., state)])"""
        if self.unroll:
            states, exits = [st], []
            k = 0
            for rnd in range(400):
                nxt = []
                e0 = len(exits)
                for s in states:
                    b, e = it(s)
                    nxt += b
                    exits += e
                # iterations that cannot leave are not counted
                k += 1 if len(exits) > e0 or len(nxt) != len(states) else 0
                states = self.merge_states(nxt)
                if len(states) + len(exits) > 3000:
                    raise TooBig("peeling " + where)
                if not states:
                    return exits
                if k >= self.unroll:
                    break
            for s in states:
                self.cut.append((s.f, self.cut_state(s), self.effects(s)))
            return exits
        if self.short(st):
            exits = self.complete(st, it)
            if exits is not None:
                return exits
        Interp.loop_no += 1
        L = Loop(Interp.loop_no, where)
        self.loops[L.uid] = L
        H = st.copy()
        H.loops = st.loops + (L.uid,)
        dropped = set()
        for rnd in range(30):
            panics0 = len(self.panics)
            backs, exits = it(H.copy())
            newmem = dict(H.mem)
            for al in dropped:
                newmem.pop(al, None)
            changed = False
            for B in backs:
                for al, bv in B.mem.items():
                    if al in newmem:
                        cur = newmem[al]
                    elif al[0] == "m" and al[1].op != "cref":
                        cur = self.deref_sym(al[1])
                        if cur is bv:
                            continue
                    else:
                        continue
                    if cur is bv:
                        continue
                    j = self.widen(L, cur, bv, self.local_type(al))
                    if self.trace:
                        print("  widen", where, rnd, al, "\n     ", cur, "\n     ", bv, "\n     ->", j)
                    if j is not newmem.get(al):
                        newmem[al] = j
                        changed = True
                for al in list(newmem):
                    if al not in B.mem and al[0] == "l":
                        # a local dead at the back edge
                        del newmem[al]
                        dropped.add(al)
                        changed = True
            # drop loop variables' facts: they are fresh, no facts exist
            if not changed:
                break
            del self.panics[panics0:]
            H = State(newmem, st.f, st.loops + (L.uid,))
        else:
            raise TooBig("loop fixpoint " + where)
        self.align(L, H, st)
        L.rows = []
        for B in backs:
            nxt = {}
            for al, hv in H.mem.items():
                bv = B.mem.get(al)
                if bv is None:
                    bv = self.deref_sym(al[1]) if al[0] == "m" else None
                if bv is not None:
                    self.match_lv(L, hv, bv, nxt)
            L.rows.append((B.f, {k: self.snap(B, v) for k, v in nxt.items()}, B.loops))
        L.init = {k: self.snap(st, v) for k, v in L.init.items()}
        return exits

    def short(self, st):
        """an iterator with at most 20 items to go is alive"""
        for v in st.mem.values():
            for x in subterms(v):
                if x.op == "iter" and len(x.a) > 3 and isinstance(x.a[-1], T) and isinstance(x.a[-2], T) and x.a[-1].op == "int" and x.a[-2].op == "int" and 0 < x.a[-1].a[0] - x.a[-2].a[0] <= 20:
                    return True
        return False

    def complete(self, st, it):
        """all iterations of a loop that ends by itself, or None"""
        panics = len(self.panics)
        cuts = len(self.cut)
        states, exits = [st], []
        for rnd in range(22):
            nxt = []
            for s in states:
                b, e = it(s)
                nxt += b
                exits += e
            states = self.merge_states(nxt)
            if not states:
                return exits
            if len(states) > 8 or len(exits) > 60:
                break
        del self.panics[panics:]
        del self.cut[cuts:]
        return None

    def local_type(self, al):
        if al[0] == "l" and al[1] in self.frames:
            tid = self.frames[al[1]]["locals"][al[2]][0]
            if self.p.types[tid]["k"] in ("int", "bool", "char"):
                return tid
        return None

    def widen(self, L, h, b, tid=None):
        if h is b:
            return h
        if h.op == "lv" and h.a[0] == L.uid:
            return h
        if h.op == b.op and h.op in ("adt", "tup", "clo", "iter") and len(h.a) == len(b.a):
            same = all((isinstance(x, T) and isinstance(y, T)) or x == y for x, y in zip(h.a, b.a))
            if same:
                na = [self.widen(L, x, y) if isinstance(x, T) else x for x, y in zip(h.a, b.a)]
                return mk(h.op, *na)
        # structs: compare field by field when one side is an expansion
        for x, y in ((h, b), (b, h)):
            if x.op == "adt" and x.a[1] is None and y.op != "adt" and self.p.adts.get(x.a[0], {}).get("kind") == "struct":
                names = x.a[2]
                hs = [fld(h, x.a[0], None, n) for n in names]
                bs = [fld(b, x.a[0], None, n) for n in names]
                return adt(x.a[0], None, names, [self.widen(L, p, q) for p, q in zip(hs, bs)])
        t = mk("lv", L.uid, len(L.lvs))
        L.lvs.append(t)
        if tid is None:
            for x in (self.tyof.get(h), self.tyof.get(b), self.guess_type(h), self.guess_type(b)):
                if x is not None:
                    # a narrow number may have been widened on the way
                    if self.p.types[x]["k"] != "int" or self.p.types[x]["w"] >= 64:
                        tid = x
                    break
        if tid is not None:
            self.settype(t, tid)
        if h.op == "len" or b.op == "len":
            bound(t, 0, None)
        return t

    def guess_type(self, t):
        if t.op == "adt":
            for i, ty in enumerate(self.p.types):
                if ty["k"] == "adt" and ty["def"] == t.a[0]:
                    return i
        if t.op == "lin":
            for x, _ in t.a[1]:
                if x in self.tyof:
                    return self.tyof[x]
            return None
        return None

    def align(self, L, H, st):
        for al, hv in H.mem.items():
            sv = st.mem.get(al)
            if sv is None:
                if al[0] != "m":
                    continue
                sv = self.deref_sym(al[1])
            self.match_lv(L, hv, sv, L.init)

    def match_lv(self, L, h, v, out):
        if h is v and not (h.op == "lv" and h.a[0] == L.uid):
            return
        if h.op == "lv" and h.a[0] == L.uid:
            out[h] = v
            return
        if h.op in ("adt",) and v.op != "adt":
            for n, x in zip(h.a[2], h.a[3:]):
                self.match_lv(L, x, fld(v, h.a[0], h.a[1], n), out)
            return
        if h.op == v.op and len(h.a) == len(v.a):
            for x, y in zip(h.a, v.a):
                if isinstance(x, T) and isinstance(y, T):
                    self.match_lv(L, x, y, out)

    # ---- one block ---------------------------------------------------------
    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise TooBig("steps")
        if self.deadline is not None and self.steps % 50 == 0 and time.time() > self.deadline:
            raise TooBig("time")
        stmts, term = fr.fn["blocks"][b]
        st = st.copy()
        for s in stmts:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], s[1][2])
                self.settype(v, s[1][2])
                self.write(st, self.place(st, fr, s[1]), v)
            elif s[0] == "sd":
                addr = self.place(st, fr, s[1])
                ty = self.p.types[s[1][2]]
                d = self.p.adts[ty["def"]]
                vd = d["variants"][s[2]]
                if not vd["fields"]:
                    self.write(st, addr, adt(ty["def"], vd["name"], (), ()))
                else:
                    raise Unsupported("set discriminant")
            else:
                raise Unsupported(s[0])
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, term[1])
            return [(bb, s) for s, bb in self.switch(st, v, term[2], term[3], term[4])]
        if k == "drop":
            return [(term[2], st)]
        if k == "unreachable":
            return []
        if k == "assert":
            c = self.operand(st, fr, term[1])
            if c.op == "overflow":
                if c.a[0] == "Sub" and c.a[2].startswith("u"):
                    out = []
                    for f in st.f.assume(ge0(c.a[1]), True):
                        out.append((term[5], State(st.mem, f, st.loops)))
                    if st.f.truth(ge0(c.a[1])) is not True:
                        self.panic(st, "overflow")
                    return out
                self.overflow(st, c.a[1], c.a[2])
                return [(term[5], st)]
            out = []
            for s, bval in self.branch(st, c):
                if bval == term[2]:
                    out.append((term[5], s))
                else:
                    self.panic(s, term[3])
            return out
        if k == "call":
            fv = self.operand(st, fr, term[1])
            args = [self.operand(st, fr, a) for a in term[2]]
            self.atids = [a[1][2] if a[0] in ("copy", "move") else a[1] for a in term[2]]
            dest = self.place(st, fr, term[3]) if term[4] is not None else None
            out = []
            for s, r in self.call(st, fr, fv, args, term[3][2], term[5], diverges=term[4] is None):
                if term[4] is None:
                    continue
                self.settype(r, term[3][2])
                self.write(s, dest, r)
                out.append((term[4], s))
            if term[4] is None:
                self.panic(st, fv.a[0] if fv.op == "fn" else "call")
            return out
        if k == "unwind":
            return []
        raise Unsupported(k)

    def overflow(self, st, r, ty):
        """arithmetic on numbers that templates, data or settings choose

        Sums of lengths and positions stay far below the word size; numbers
        from outside reach it, so their arithmetic can overflow."""
        lim = INT_LIMITS.get(ty)
        if lim is None or not self.panic_on or r.op == "int":
            return
        if ty[0] == "u" and not any(outside(x) for x in subterms(r)):
            return
        lo, hi = st.f.lin_interval(r) if r.op == "lin" else st.f.interval(r)[:2]
        for past, over in ((add(r, I(-lim[1] - 1)), hi is None or hi > lim[1]), (sub(I(lim[0] - 1), r), lo is None or lo < lim[0])):
            if over:
                for f in st.f.assume(ge0(past), True):
                    self.panic(State(st.mem, f, st.loops), "overflow")

    def panic(self, st, what):
        if self.panic_on:
            self.panics.append((st.f, what, tuple(self.stack)))

    # ---- calls -------------------------------------------------------------
    def call(self, st, fr, fv, args, dtid, line=0, diverges=False):
        if fv.op == "fn":
            c = fv.a[1].c
            return self.call_fn(st, c, args, dtid, diverges)
        return self.call_value(st, fv, args, dtid)

    def call_value(self, st, fv, args, dtid):
        """call a callable value with (untupled) args"""
        tgt = fv
        if tgt.op == "boxv":
            tgt = tgt.a[0]
        if tgt.op == "ref" or self.kind_of(tgt) == "ref":
            c = self.read(st, self.point(tgt))
            if c.op in ("clo", "fn", "ref"):
                if c.op == "clo":
                    return self.call_closure(st, c, tgt, args, dtid)
                return self.call_value(st, c, args, dtid)
        if tgt.op == "fn":
            return self.call_fn(st, tgt.a[1].c, args, dtid)
        if tgt.op == "clo":
            return self.call_closure(st, tgt, None, args, dtid)
        if self.atids is not None and len(self.atids) != len(args) + 1:
            self.atids = None
        return self.opaque_call(st, "call", [fv] + args, dtid)

    def call_closure(self, st, clo, ref, args, dtid):
        key = clo.a[0]
        fn = self.p.fns.get(key)
        if fn is None:
            return self.opaque_call(st, "closure:" + key, [clo] + args, dtid)
        selfty = self.p.types[fn["locals"][1][0]]
        if selfty["k"] == "ref":
            if ref is None:
                al = ("t", self.fresh())
                st = st.copy()
                st.mem[al] = clo
                ref = mk("ref", al, ())
            a0 = ref
        else:
            a0 = clo
        return self.call_body(st.copy(), key, [a0] + args)

    def fresh(self):
        self.frame_no += 1
        return self.frame_no

    def call_fn(self, st, c, args, dtid, diverges=False):
        if "ctor" in c:
            return [(st, self.build(c["ctor"], c["variant"], args))]
        path = c["path"]
        tr = c.get("trait")
        if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            tgt = args[0]
            a = args[1]
            tt = self.p.types[self.atids[1]] if self.atids and len(self.atids) > 1 and self.atids[1] is not None else None
            self.atids = [None] + list(tt["elems"]) if tt and tt["k"] == "tuple" else None
            if a.op == "tup":
                al = list(a.a)
            else:
                n = self.tuple_arity(a, None)
                al = [self.proj(a, ("f", None, None, str(i), None)) for i in range(n)]
            return self.call_value(st, tgt, al, dtid)
        rpath = c.get("rpath", path)
        if self.opaque_fn is not None and c.get("key") and self.opaque_fn(c["key"], rpath):
            self.opaque_called.add(rpath)
            return self.opaque_call(st, rpath, args, dtid, c)
        m = models.lookup(self, path, rpath, c)
        if m is not None:
            r = m(self, st, c, args, dtid)
            if r is not None:
                return r
        key = c.get("key")
        if key in self.p.fns and key not in self.stack:
            return self.call_body(st.copy(), key, args)
        if c.get("local") and key is not None:
            self.opaque_called.add(rpath)
        return self.opaque_call(st, self.opname(c, rpath), args, dtid, c)

    def opname(self, c, rpath):
        # generic foreign functions are told apart by their type arguments
        ts = []
        if not c.get("local"):
            for t in c.get("targs", []):
                if isinstance(t, int):
                    ty = self.p.types[t]
                    if ty["k"] in ("closure", "fndef", "param"):
                        continue
                    if "{closure@" in ty["s"] or "closure:" in ty["s"]:
                        continue
                    ts.append(ty["s"])
        path = c["path"]
        if c.get("trait"):
            nm = c["trait"].split("::")[-1] + "::" + c["name"]
        else:
            nm = rpath
        return nm + ("<" + ",".join(ts) + ">" if ts and c.get("name") in ("parse", "try_from", "from", "into", "default", "collect", "sum", "try_into") else "")

    def opaque_call(self, st, name, args, dtid, c=None, muts=None):
        """uninterpreted: a function of the argument contents; mutable
        arguments receive an uninterpreted new content"""
        vals = [self.snap(st, a) for a in args]
        st = st.copy()
        if muts is None:
            muts = []
            for i, a in enumerate(args):
                tid = self.argtype(a, c, i)
                if tid is not None:
                    t = self.p.types[tid]
                    if t["k"] == "ref" and t["mut"]:
                        muts.append(i)
                elif a.op == "ref" and not self.p.types:
                    muts.append(i)
        ret = mk("app", name, *vals)
        held = []
        for i, a in enumerate(args):
            tid = self.argtype(a, c, i)
            if tid is not None and self.p.types[tid]["k"] == "ref" and not self.p.types[tid]["mut"]:
                continue
            self.holds(st, a, held, i in muts)
        for k, r in enumerate(held):
            try:
                ty = self.tyof.get(self.read(st, r.a))
            except Unsupported:
                continue
            self.write(st, r.a, self.settype(mk("app", f"{name}~{k}", *vals), ty))
        direct = [args[i] for i in muts if args[i].op == "ref"]
        if (held or direct) and dtid is not None and re.search(r"['&]|dyn ", self.p.tname(dtid)):
            self.alias[ret] = tuple(held) + tuple(direct)
        for i in muts:
            addr = self.point(args[i])
            new = mk("app", f"{name}#{i}", *vals)
            old = None
            try:
                old = self.read(st, addr)
            except Unsupported:
                pass
            if old is not None:
                ot = self.tyof.get(old)
                if ot is None and old.op == "adt":
                    ot = self.guess_type(old)
                if ot is not None:
                    self.settype(new, ot)
            # interior references of the old content now belong to the new one
            for al in [k for k in st.mem if k[0] == "m" and old is not None and k[1] is not old and self.rooted(k[1], old)]:
                del st.mem[al]
            self.write(st, addr, new)
        self.settype(ret, dtid)
        self.lemma(st, name, ret, vals)
        self.unknown.add(name)
        if c is not None and not c.get("local") and str(c.get("path", "core")).lstrip("<").split("::")[0] in ("serde", "unicode_ident", "unicode_width"):
            self.foreign.add(name)
        return [(st, ret)]

    def holds(self, st, v, out, skip, depth=0):
        """mutable references inside an argument: the callee may write through them"""
        if depth > 8:
            return
        if v.op == "ref":
            if not skip and v in self.mutaddr and v not in out:
                out.append(v)
            if v in self.mutaddr or depth == 0:
                try:
                    c = self.read(st, v.a)
                except Unsupported:
                    return
                self.holds(st, c, out, False, depth + 1)
        elif v in self.alias:
            for r in self.alias[v]:
                self.holds(st, r, out, False, depth + 1)
        elif v.op in ("adt", "tup", "vec", "clo", "boxv", "push", "init", "store", "insert", "fld", "deref", "unbox", "index"):
            for x in v.a:
                if isinstance(x, T):
                    self.holds(st, x, out, False, depth + 1)

    def lemma(self, st, name, ret, vals):
        """what callers may rely on (each is checked where the callee is judged)"""
        if name == "compile::search::Searcher::find_at" and len(vals) == 3:
            t = fld(ret, OPT, "Some", "0")
            j, k = (bound(self.proj(t, ("f", None, None, i, None)), 0, None) for i in ("1", "2"))
            cs = [le(vals[2], j), lt(j, k)]
        elif name == "compile::search::Searcher::starts_with" and len(vals) == 3:
            t = fld(ret, OPT, "Some", "0")
            cs = [lt(vals[2], bound(self.proj(t, ("f", None, None, "1", None)), 0, None))]
        else:
            return
        for c in cs:
            r = st.f.assume(c, True)
            if r:
                st.f = r[0]

    def argtype(self, a, c, i):
        if self.atids is not None and i < len(self.atids) and self.atids[i] is not None:
            return self.atids[i]
        t = self.tyof.get(a)
        if t is not None:
            return t
        if c is not None and c.get("key") in self.p.fns:
            fn = self.p.fns[c["key"]]
            if i + 1 < len(fn["locals"]) and i < fn["argc"]:
                return fn["locals"][i + 1][0]
        return None

    def argsym(self, k, i, tid):
        a = self.p.adt_of(tid) if isinstance(tid, int) else None
        if a and a["kind"] == "struct" and not a["variants"][0]["fields"]:
            return adt(self.p.types[tid]["def"], None, (), ())      # its only value
        # what is known of a parameter must not reach one of another type
        return mk("sym", f"{k}{i}", "" if tid is None else re.sub(r"'[A-Za-z_0-9]+ ?", "", self.p.tname(tid)))

    # ---- roots -------------------------------------------------------------
    def analyze(self, key, args=None, facts=None, mem=None):
        fn = self.p.fns[key]
        self.panics = []
        self.steps = 0
        if args is None:
            args = []
            for i in range(fn["argc"]):
                a = self.argsym("a", i, fn["locals"][i + 1][0])
                self.settype(a, fn["locals"][i + 1][0])
                args.append(a)
        st = State(dict(mem or {}), facts or Facts())
        return self.outcomes(self.call_body(st, key, args))

    def analyze_value(self, fv, argtys, retty):
        """summary of a callable value applied to unknown arguments"""
        self.panics = []
        self.steps = 0
        tids = [self.p._tyname.get(t) for t in argtys]
        args = []
        for i, t in enumerate(tids):
            a = self.argsym("c", i, t)
            self.settype(a, t)
            args.append(a)
        self.atids = [None] + tids
        return self.outcomes(self.call_value(State({}, Facts()), fv, args, self.p._tyname.get(retty)))

    def effects(self, s):
        eff = {}
        for al, v in s.mem.items():
            if al[0] == "m" and al[1].op != "cref":
                base = self.deref_sym(al[1])
                nv = self.snap(s, v)
                if nv is not base and nv is not al[1]:
                    eff[al[1]] = nv
        return eff

    def cut_state(self, s):
        """owned data alive where peeling stops, by type"""
        out = []
        for al, v in s.mem.items():
            if al[0] == "l" and al[1] in self.frames:
                tid = self.frames[al[1]]["locals"][al[2]][0]
                if self.owned_data(tid):
                    out.append((self.p.tname(tid), self.snap(s, v)))
        out.sort(key=lambda p: (p[0], p[1].id))
        return mk("cut", *[tup(S(n), v) for n, v in out])

    def owned_data(self, tid):
        t = self.p.types[tid]
        if t["k"] != "adt":
            return False
        d = t["def"]
        if d in self.p.adts and self.p.adts[d].get("local"):
            return True
        if d in ("alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque", "alloc::collections::btree::map::BTreeMap"):
            return True
        return False

    def outcomes(self, outs):
        res = []
        for s, r in outs:
            res.append(Outcome(s.f, self.snap(s, r), self.effects(s), s.loops))
        for f, v, eff in self.cut:
            res.append(Outcome(f, v, eff, (), cut=True))
        for f, what, stack in self.panics:
            res.append(Outcome(f, UNIT, {}, (), panic=(what, stack)))
        return res


class _Callee:
    """callee description carried by a fn value; identity by key"""
    __slots__ = ("c",)
    _tab = {}

    def __new__(cls, c):
        k = json.dumps(c, sort_keys=True)
        o = cls._tab.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c = c
            cls._tab[k] = o
        return o

    def __init__(self, c):
        pass


class Frame:
    def __init__(self, it, key, fn):
        it.frame_no += 1
        self.id = it.frame_no
        it.frames[self.id] = fn
        self.key = key
        self.fn = fn
        self.cfg = it.p.cfg(key)


def merge_facts(fs):
    """exact union of fact sets that differ in one variant set or interval"""
    fs = list(fs)
    if len(fs) < 12:
        ch = True
        while ch and len(fs) > 1:
            ch = False
            for i in range(len(fs)):
                for j in range(i + 1, len(fs)):
                    m = merge2(fs[i], fs[j])
                    if m is not None:
                        fs[i] = m
                        del fs[j]
                        ch = True
                        break
                if ch:
                    break
        return fs
    # many: candidates are found by the hash of all facts but one
    live, index = {}, {}

    def keys(f):
        h = 0
        hs = []
        for it in f.d.items():
            x = hash(it)
            h ^= x
            hs.append((it[0], x))
        return [(None, h)] + [(k, h ^ x) for k, x in hs]

    todo = list(enumerate(fs))[::-1]
    while todo:
        n, f = todo.pop()
        ks = keys(f)
        hit = None
        # (None, h): equal sets; (k, rest): differ in k; rest/(k, h): one lacks k
        for q in ks:
            cands = index.get(q, ())
            if q[0] is not None:
                cands = list(cands) + list(index.get((None, q[1]), ()))
            else:
                cands = list(cands) + list(index.get(("lacks", q[1]), ()))
            for c in sorted(cands):
                if c in live:
                    m = merge2(live[c], f)
                    if m is not None:
                        hit = c, m
                        break
            if hit:
                break
        if hit:
            del live[hit[0]]
            todo.append(hit)
            continue
        live[n] = f
        for q in ks:
            index.setdefault(q, set()).add(n)
            if q[0] is not None:
                index.setdefault(("lacks", q[1]), set()).add(n)
    return [live[n] for n in sorted(live)]


def merge2(a, b):
    diff = [k for k in a.d.keys() | b.d.keys() if a.d.get(k) != b.d.get(k)]
    if not diff:
        return a
    # sets that differ in one fact only, of which the union is exact
    if len(diff) == 1:
        k = diff[0]
        x, y = a.d.get(k), b.d.get(k)
        if x is None or y is None:
            f = a.copy()
            f.d.pop(k, None)
            return f
        if k[0] == "v":
            f = a.copy()
            f.d[k] = x | y
            return f
        if k[0] == "i":
            f = a.copy()
            u = union_iv(x, y)
            if u is not None:
                f.d[k] = u
                if u == (None, None, frozenset()):
                    del f.d[k]
                return f
        if k[0] == "b":
            f = a.copy()
            del f.d[k]
            return f
        if k[0] == "s":
            (e1, x1), (e2, x2) = x, y
            if e1 is None and e2 is None:
                return None
            if e1 is not None and e2 is not None:
                return None
            if e1 is None:
                e1, x1, e2, x2 = e2, x2, e1, x1
            if e1 in x2:
                f = a.copy()
                nx = x2 - {e1}
                if nx:
                    f.d[k] = (None, nx)
                else:
                    del f.d[k]
                return f
    return None


def union_iv(x, y):
    """union of two interval facts when it is again one"""
    l1, h1, e1 = x
    l2, h2, e2 = y
    if (l1 is None) > (l2 is None) or (l1 is not None and l2 is not None and l1 > l2) or (l1 is not None and l2 is None):
        l1, h1, e1, l2, h2, e2 = l2, h2, e2, l1, h1, e1
    # now l1 <= l2
    # point that fills an excluded hole
    if l2 is not None and l2 == h2 and l2 in e1 and (h1 is None or l2 <= h1):
        return (l1, h1, e1 - {l2})
    if l1 is not None and l1 == h1 and l1 in e2:
        return (l2, h2, e2 - {l1})
    if h1 is not None and l2 is not None and l2 == h1 + 1:
        return (l1, h2, e1 | e2)
    if h1 is not None and l2 is not None and l2 > h1 + 1:
        # a gap that is a few points: keep it as excluded points
        if l2 - h1 - 1 <= 4:
            return (l1, h2, e1 | e2 | frozenset(range(h1 + 1, l2)))
    return None
