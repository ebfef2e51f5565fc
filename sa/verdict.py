"""Unit-by-unit comparison of the current tree with the confirmed reference.

A unit is a crate-local function present, with the same signature, in both
trees. Calls to other units stay opaque (they have their own verdict), every
other local function is inlined. When a unit disagrees the comparison is
repeated with callees inlined, with loops peeled instead of summarised, and -
for functions that are not public - in the callers, before it counts.
"""
import gzip, json, os, re, sys, time
from interp import *
from equiv import *
from canon import canon
import dump as dumper

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REF = os.path.join(VERIF, "ref")


def load_ref(name="mir.json.gz"):
    with gzip.open(os.path.join(REF, name), "rt") as f:
        return Program(json.load(f))


def load_dump(path):
    with open(path) as f:
        return Program(json.load(f))


def load_cur(features=None, release=False, witness=False):
    return load_dump(dumper.dump(features=features, release=release, witness=witness))


def always_opaque(path):
    return path.startswith("error::")


def sig(p, key):
    f = p.fns[key]
    return tuple(re.sub(r"'[A-Za-z_0-9]+ ?", "", p.tname(f["locals"][i][0])) for i in list(range(1, f["argc"] + 1)) + [0])


def unit_keys(p):
    """path -> key of the generic (identity) body of each local function"""
    out = {}
    for k, f in p.fns.items():
        if not f["local"] or f["kind"] == "Closure" or "::promoted[" in k or "{const" in k:
            continue
        if f["path"] in out:
            continue
        key = p.key_of(f["path"])
        if key:
            out[f["path"]] = key
    return out


# library functions that alter, drop or select: no refactoring of code without
# them needs one to do what it did
ALTERING = re.compile(r"(trim\w*|rev|skip\w*|take|take_while|step_by|nth\w*|min\w*|max\w*|clamp|wrapping_\w+|overflowing_\w+|saturating_\w+|unchecked_\w+|abs|signum|"
                      r"rem_euclid|div_\w+|pow|dedup\w*|sort\w*|truncate|retain|clear|pop\w*|swap\w*|remove\w*|eq_ignore_ascii_case|to_(ascii_)?(lower|upper)case|"
                      r"make_ascii_\w+|from_utf8_lossy|escape_\w+|is_(alphanumeric|alphabetic|numeric|whitespace|control|uppercase|lowercase|digit)|is_ascii\w*|"
                      r"rfind|rsplit\w*|replace\w*|unwrap_or_default|round|floor|ceil|trunc|to_bits|leak|rotate_\w+|reverse|from_u32|from_digit|total_cmp|last|catch_unwind|write|write_vectored|to_(le|be|ne)_bytes|as_mut_vec|split_off|unsigned_abs|abs_diff|swap_bytes|or_insert\w*|or_default|join|concat|width\w*|resize\w*|cycle|product|is_nan|is_finite|is_infinite|is_normal|fract|leading_zeros|trailing_zeros|count_ones|midpoint|isqrt|sqrt|copysign|from_bits|next_multiple_of|is_power_of_two|insert_str|fill|copy_within)$")


class Verdict:
    tn = tr = None

    def __init__(self, unit, status, mism=(), how="", note=""):
        self.unit, self.status, self.mism, self.how, self.note = unit, status, list(mism), how, note

    def __repr__(self):
        return f"{self.unit}: {self.status} ({self.how}) {self.note}"


# what these leave behind is seen even after they fail
LASTING = re.compile(r"^Engine::|^fmt::|^<fmt::")


class Suite:
    strict = False

    def __init__(self, cur, ref, log=None):
        d, self.renamed = canon(cur.d, ref.d)
        if self.renamed:
            cur = Program(d)
        self.cur, self.ref = cur, ref
        self.ck, self.rk = unit_keys(cur), unit_keys(ref)
        self.units = set()
        for path in self.ck.keys() & self.rk.keys():
            if sig(cur, self.ck[path]) == sig(ref, self.rk[path]):
                self.units.add(path)
        self.added = set(self.ck) - self.units
        self.removed = set(self.rk) - self.units
        # accessors that hand out interior references are part of their callers
        self.auto = {u for u in self.units if self.accessor(u)}
        self.tables = {}
        self.reshaped_enums = self._reshaped_enums()
        self.verdicts = {}
        self.judged = {}
        self.callgraph, self.taken = self._graph()
        self.cloq = {}
        self._fam = None
        self.stats = {"rows": 0, "pairs": 0, "loops": 0, "panics": 0, "analysed": set(), "inlined": set()}
        self.log = log
        self.deadline = None
        self.budget = 10
        self.hard = time.time() + 660        # a check has 900 s

    def _reshaped_enums(self):
        """private enums whose variants of the reference were merged, split or
        given other fields: their values cannot be compared one by one"""
        out = set()
        exported = {i["path"] for p in (self.cur, self.ref) for i in p.items.values() if i.get("exported")}
        for path, r in self.ref.adts.items():
            a = self.cur.adts.get(path)
            if a is None or not r["local"] or r["kind"] != "enum" or path in exported:
                continue
            vs = {v["name"]: {f["name"] for f in v["fields"]} for v in a["variants"]}
            if any(vs.get(v["name"]) != {f["name"] for f in v["fields"]} for v in r["variants"]):
                out.add(path)
        return out

    def rests_on_reshaped(self, m, v):
        if not self.reshaped_enums:
            return False
        for x, t in ((m.a, v.tn), (m.b, v.tr)):
            if not isinstance(x, Row):
                continue
            for w in [x.ret, *x.eff.values(), *x.eff.keys(), *(k[1] for k in x.f.d)]:
                if not isinstance(w, T):
                    continue
                for y in subterms(w):
                    if y.op == "adt" and y.a[0] in self.reshaped_enums:
                        return True
                    ty = t.it.tyof.get(y)
                    if ty is not None:
                        ty = t.it.p.types[ty]
                        if ty["k"] == "adt" and ty["def"] in self.reshaped_enums:
                            return True
        return False

    # -- summaries ---------------------------------------------------------
    def opaque_fn(self, inl):
        units = self.units

        def f(key, rpath):
            return rpath in units and rpath not in inl and rpath not in self.auto
        return f

    def table(self, side, path, inl=frozenset(), unroll=0):
        k = (side, path, inl, unroll)
        r = self.tables.get(k)
        if r is None:
            p = self.cur if side == "cur" else self.ref
            keys = self.ck if side == "cur" else self.rk
            it = Interp(p, opaque_fn=self.opaque_fn(inl), unroll=unroll, deadline=self.deadline)
            try:
                outs = it.analyze(keys[path])
                r = Table(it, outs, path)
                if side == "cur":
                    self.stats["rows"] += len(r.rows)
                    self.stats["panics"] += len(r.panics)
                    self.stats["loops"] += len(it.loops)
                    self.stats["analysed"].add(path)
                    self.stats["inlined"] |= it.called
            except (TooBig, Unsupported) as e:
                r = e
            except Exception as e:
                if os.environ.get("UPON_DEBUG"):
                    raise
                r = Unsupported(f"internal error {type(e).__name__}: {e}")
            self.tables[k] = r
        if isinstance(r, Exception):
            raise r
        return r

    def clo_equal(self, inl, unroll, depth=0):
        def eq(a, b):
            k = (a, b, inl, unroll)
            r = self.cloq.get(k)
            if r is None:
                self.cloq[k] = True      # recursive closures: coinductive
                try:
                    r = self._clo_equal(a, b, inl, unroll)
                except Exception:
                    r = False
                self.cloq[k] = r
            return r
        return eq

    def _clo_equal(self, a, b, inl, unroll):
        tys = None
        for t, p in ((a, self.cur), (b, self.ref)):
            if t.op == "clo" and t.a[0] in p.fns:
                fn = p.fns[t.a[0]]
                tys = [p.tname(fn["locals"][i][0]) for i in range(2, fn["argc"] + 1)], p.tname(fn["locals"][0][0])
                break
        if tys is None:
            for t, p in ((a, self.cur), (b, self.ref)):
                if t.op == "fn":
                    key = t.a[1].c.get("key")
                    if key in p.fns:
                        fn = p.fns[key]
                        tys = [p.tname(fn["locals"][i][0]) for i in range(1, fn["argc"] + 1)], p.tname(fn["locals"][0][0])
                        break
        if tys is None:
            return a.op == b.op == "fn" and a.a[0] == b.a[0]
        tabs = []
        for t, p in ((a, self.cur), (b, self.ref)):
            it = Interp(p, opaque_fn=self.opaque_fn(inl), unroll=unroll)
            tabs.append(Table(it, it.analyze_value(t, tys[0], tys[1])))
        c = Comparer(self.cur, self.ref, self.clo_equal(inl, unroll))
        return not c.compare("closure", tabs[0], tabs[1])

    # -- comparison ----------------------------------------------------------
    def diff(self, path, errors, inl=frozenset(), unroll=0):
        tn = self.table("cur", path, inl, unroll)
        tr = self.table("ref", path, inl, unroll)
        c = Comparer(self.cur, self.ref, self.clo_equal(inl, unroll), errors=errors, err_eff=bool(LASTING.search(path)), deadline=self.deadline)
        c.strict = self.strict
        try:
            m = c.compare(path, tn, tr)
            if m and tn.live and tr.live:
                m = self.soft(c, path, tn, tr, m)
        except (TooBig, Unsupported):
            raise
        except Exception as e:
            if os.environ.get("UPON_DEBUG"):
                raise
            raise Unsupported(f"internal error {type(e).__name__}: {e}")
        self.stats["pairs"] += c.pairs
        return m, tn, tr

    def soft(self, c, path, tn, tr, m):
        """the loop variables identified by where they start"""
        try:
            for n, r, shared in pairings(tn, tr):
                tn.finalise(n, shared)
                tr.finalise(r, shared)
                m2 = c.compare(path, tn, tr)
                if not m2:
                    return m2
                if len(m2) < len(m):
                    m = m2
        finally:
            tn.finalise(tn.col)
            tr.finalise(tr.col)
        return m

    def verdict(self, path, errors=True, base=frozenset()):
        k = (path, errors, base)
        v = self.verdicts.get(k)
        if v is None:
            v = self.verdicts[k] = self._verdict(path, errors, base)
        return v

    def judge(self, path, errors=True):
        """the verdict on a unit, settled in its callers when it is private

        -> list of Verdict that stand (all equal: the unit holds)"""
        k = (path, errors)
        r = self.judged.get(k)
        if r is None:
            r = self.judged[k] = self._judge(path, errors)
        return r

    def _judge(self, path, errors):
        if path in self.units:
            v = self.verdict(path, errors)
            if v.status == "equal" or self.exposed(path):
                return [v]
        else:
            # gone or with another signature: its callers contain it
            if self.exposed(path) and path in self.rk and not (path.startswith("error::Error::") and not (self.ref.items.get(path) or {}).get("exported")):
                return [Verdict(path, "absent", (), "", "public function is gone or has another signature")]
            v = Verdict(path, "absent")
        out = self.in_callers(path, errors, frozenset([path]) & self.units, frozenset([path]), 0)
        if out and all(x.status == "equal" for x in out):
            return [Verdict(path, "equal", (), "in callers " + ", ".join(x.unit for x in out))]
        if not out:
            if v.status == "absent" or self.unused(path):
                return [Verdict(path, "equal", (), "unused")]
            return [v]
        return [x for x in out if x.status != "equal"]

    def in_callers(self, path, errors, inl, seen, depth):
        out = []
        for c in sorted(self.callers(path)):
            if c in seen:
                continue
            if c not in self.units:
                out += self.in_callers(c, errors, inl, seen | {c}, depth)
                continue
            v = self.verdict(c, errors, inl)
            if v.status != "equal" and not self.exposed(c) and depth < 2:
                up = self.in_callers(c, errors, inl | {c}, seen | {c}, depth + 1)
                if up and all(x.status == "equal" for x in up):
                    continue
            out.append(v)
        return out

    def exposed(self, path):
        """callable without a direct call in the crate"""
        for p, ks in ((self.cur, self.ck), (self.ref, self.rk)):
            k = ks.get(path)
            if k is None:
                continue
            it = p.items.get(path)
            if it is None or it.get("exported") or path.startswith("error::Error::") or path.startswith("<") or "<impl " in path:
                return True
        return path in self.taken

    def unused(self, path):
        return not self.callers(path)

    def callers(self, path):
        return self.callgraph.get(path, set())

    def _graph(self):
        """callee path -> paths of the functions (closures counted to their owner) naming it"""
        g, taken = {}, set()
        for p in (self.cur, self.ref):
            for f in p.fns.values():
                owner = f["path"].split("::{")[0]
                for b in f["blocks"]:
                    if b is None:
                        continue
                    stack = [b]
                    term = b[1]
                    callee = term[1] if term and term[0] == "call" else None
                    while stack:
                        x = stack.pop()
                        if isinstance(x, dict):
                            fn = x.get("fn")
                            if isinstance(fn, dict) and "rpath" in fn:
                                g.setdefault(fn["rpath"], set()).add(owner)
                                if fn.get("local") and not (isinstance(callee, list) and len(callee) > 2 and callee[2] is x):
                                    taken.add(fn["rpath"])
                            stack.extend(x.values())
                        elif isinstance(x, list):
                            stack.extend(x)
        return g, taken

    def familiar(self):
        """names of all library functions the reference's code calls"""
        if self._fam is None:
            it = Interp(self.ref)
            self._fam = set()
            for f in self.ref.fns.values():
                stack = [b for b in f["blocks"] if b is not None]
                while stack:
                    x = stack.pop()
                    if isinstance(x, dict):
                        fn = x.get("fn")
                        if isinstance(fn, dict) and "path" in fn:
                            self._fam.add(it.opname(fn, fn.get("rpath", fn["path"])))
                        stack.extend(x.values())
                    elif isinstance(x, list):
                        stack.extend(x)
        return self._fam

    def unfamiliar(self, tn):
        """library functions without a model which the reference never called
        and which are not known to change what they are given"""
        out = set()
        for n in tn.it.unknown:
            if n in self.familiar() or n in self.ck or n in self.rk or n == "call" or n.startswith("closure:"):
                continue
            if self.strict and n.startswith("Default::default<"):
                continue
            last = re.sub(r"<.*", "", n.rsplit(">::", 1)[-1] if not n.endswith(">") else n).split("::")[-1]
            if ALTERING.match(last) or n in tn.it.foreign and not n.lstrip("<&").startswith("upon::"):
                continue
            out.add(n)
        return out

    def hidden(self, m, tn, u, v=None):
        """the disagreement rests on an unfamiliar function"""
        if m.a is None:
            return True

        def touches(t):
            return any(x.op == "app" and isinstance(x.a[0], str) and re.sub(r"[#~]\d+$", "", x.a[0]) in u for x in subterms(t))
        if v is not None and v.tr is not None and m.kind == "outcome" and not touches(m.a.ret) and not any(touches(x) for x in m.a.eff.values()):
            # whatever the unfamiliar function says, an outcome which the
            # reference gives nowhere near
            f = Facts({k: x for k, x in m.a.f.d.items() if not touches(k[1])})
            c = v.cmp
            an, ar = c.adts_fn(v.tn.it), c.adts_fn(v.tr.it)
            hit = False
            for q in v.tr.rows:
                g = f.join(q.f)
                if g is None:
                    continue
                g = refine(g)
                if g is None or close(g, lambda t: an(t) or ar(t)) is None:
                    continue
                if c.same(m.a.ret, q.ret, g, an, ar) and all(c.same(m.a.eff.get(k) or v.tn.it.deref_sym(k), q.eff.get(k) or v.tr.it.deref_sym(k), g, an, ar)
                                                             for k in set(m.a.eff) | set(q.eff)):
                    hit = True
                    break
            if not hit:
                return False
        ts = [m.a.ret] + [v for v in m.a.eff.values()] + [k[1] for k in m.a.f.d] if isinstance(m.a, Row) else []
        return not ts or any(isinstance(t, T) and touches(t) for t in ts) or m.kind != "outcome"

    def _verdict(self, path, errors, base=frozenset()):
        v = self._verdict0(path, errors, base)
        if v.status == "different" and v.tn is not None and self.reshaped_enums and all(self.rests_on_reshaped(m, v) for m in v.mism):
            return Verdict(path, "undecided", (), v.how, "depends on the private enum " + ", ".join(sorted(self.reshaped_enums)) + ", whose variants are others than the reference's")
        if v.status == "different" and v.tn is not None:
            u = self.unfamiliar(v.tn)
            if u:
                v.cmp = Comparer(self.cur, self.ref, self.clo_equal(frozenset(), 0), errors=errors)
            if u and all(self.hidden(m, v.tn, u, v) for m in v.mism):
                return Verdict(path, "undecided", (), v.how, "calls " + ", ".join(sorted(u)) + ", which is not modelled")
        return v

    def _verdict0(self, path, errors, base=frozenset()):
        if path not in self.units:
            return Verdict(path, "absent")
        best = None
        notes = []
        inl = base
        tried = set()
        t0 = time.time()
        for step in range(6):
            if inl in tried or (best and time.time() - t0 > self.budget):
                break
            if time.time() > self.hard:
                notes.append("out of time")
                break
            if best and self.reshaped_enums and step > 1 and all(self.rests_on_reshaped(m, shown) for m in best[0]):
                break
            tried.add(inl)
            tn = tr = lo = None
            for unroll in (0, 3):
                self.deadline = min(self.hard, time.time() + (max(5, self.budget - (time.time() - t0)) if best else 3 * self.budget))
                try:
                    m, tn, tr = self.diff(path, errors, inl, unroll)
                except (TooBig, Unsupported) as e:
                    notes.append(f"{type(e).__name__} {e}")
                    continue
                if unroll and best and not reshaped(lo):
                    continue
                if unroll and best and (not self.witnessed(best, tn, tr) or lo and deeper(*lo)):
                    notes.append("peeling does not reach the case")
                    continue
                if not m:
                    return Verdict(path, "equal", (), f"inline={sorted(inl)} peel={unroll}", "")
                if unroll == 0:
                    lo = tn, tr
                if unroll and best and not self.bounded(m, tn, tr):
                    return Verdict(path, "equal", (), f"inline={sorted(inl)} peel={unroll} bounded", "equal in every case that ends within the first iterations")
                best = (m, inl, unroll)
                btn, btr = tn, tr
                shown = Verdict(path, "different")
                shown.tn, shown.tr = tn, tr
                if unroll == 0 and not tn.it.loops and not tr.it.loops:
                    break
            if tn is None or tr is None:
                break
            delta = (tn.it.opaque_called ^ tr.it.opaque_called)
            delta = {d for d in delta if d in self.units and not always_opaque(d)}
            dn, dr = delta - tr.it.opaque_called, delta - tn.it.opaque_called
            for mine, other in ((dn, dr), (dr, dn)):
                # what the other side reaches through a function it calls instead
                fewer = delta - {d for d in mine if self.callers(d) & other}
                if fewer and fewer != delta and inl | fewer not in tried:
                    delta = fewer
                    break
            state = self.left_by(best[0]) - inl if best else set()
            if step and state:
                # what these leave behind decides: see them before anything large
                inl = inl | state | {d for d in delta if self.small(d)}
            elif delta:
                inl = inl | delta
            else:
                inl = inl | {d for d in (tn.it.opaque_called | tr.it.opaque_called) if d in self.units and self.small(d) and not always_opaque(d)}
        if best is None:
            return Verdict(path, "undecided", (), "", "; ".join(notes))
        v = Verdict(path, "different", best[0], f"inline={sorted(best[1])} peel={best[2]}", "; ".join(notes))
        v.tn, v.tr = btn, btr
        return v

    def accessor(self, path):
        for p, k in ((self.cur, self.ck[path]), (self.ref, self.rk[path])):
            fn = p.fns[k]
            if not p.tname(fn["locals"][0][0]).startswith("&mut ") and not re.match(r"&'\S+ mut ", p.tname(fn["locals"][0][0])):
                return False
            if len(fn["blocks"]) > 12 or p.cfg(k).loops:
                return False
        return True

    def bounded(self, m, tn, tr):
        """the disagreements of two peeled tables that are not about where the
        peeling stops (loops of another shape stop elsewhere)"""
        out = []
        for x in m:
            if x.kind == "loop-state":
                continue
            if x.kind == "outcome-new-case" and any(x.a.f.join(q.f) is not None for q in tr.cuts):
                continue
            if x.kind == "outcome-lost-case" and any(x.b.f.join(q.f) is not None for q in tn.cuts):
                continue
            out.append(x)
        return out

    def witnessed(self, best, tn, tr):
        """the peeled tables still contain the cases the summaries disagree on"""
        if best is None:
            return True
        for m in best[0]:
            for r, t in ((m.a, tn), (m.b, tr)):
                if r is None or m.kind.startswith("loop"):
                    continue
                f = Facts({k: v for k, v in r.f.d.items() if not any(x.op in ("clv", "dead") for x in subterms(k[1]))})
                if not any(f.join(q.f) is not None for q in t.rows):
                    return False
                # a test of how much there is must be met by some peeled case, of the same kind
                sizes = [(k, v) for k, v in f.d.items() if k[0] == "i"]
                if not all(any(within(q.f.d.get(k), v) or q.f.d.get(k) is not None and within(v, q.f.d[k]) for q in t.rows) for k, v in sizes):
                    return False
                if sizes and not any(self.akin(r, q) and f.join(q.f) is not None
                                     and all(within(q.f.d.get(k), v) or q.f.d.get(k) is not None and within(v, q.f.d[k]) for k, v in sizes) for q in t.rows):
                    return False
        return True

    def akin(self, r, q):
        """what r knows about the elements of what it loops over, q knows about some"""
        has = {v for k, v in q.f.d.items() if k[0] == "v"}
        return all(any(h <= v for h in has) for k, v in r.f.d.items() if k[0] == "v" and len(v) == 1 and k[1].op != "clv")

    def left_by(self, mism):
        """the units whose effects on what they are given the conditions of the
        disagreeing cases are about"""
        out = set()
        for m in mism:
            for r in (m.a, m.b):
                for k in r.f.d if isinstance(r, Row) else ():
                    for x in subterms(k[1]):
                        if x.op == "app" and isinstance(x.a[0], str) and re.search(r"#\d+$", x.a[0]):
                            n = re.sub(r"#\d+$", "", x.a[0])
                            if n in self.units and n not in out and self.small(n) and not always_opaque(n):
                                out.add(n)
        return out

    def small(self, path):
        f = self.cur.fns[self.ck[path]]
        g = self.ref.fns[self.rk[path]]
        return max(len(f["blocks"]), len(g["blocks"])) <= 40


def within(a, b):
    """the interval a lies inside b"""
    if a is None:
        return False
    return (b[0] is None or a[0] is not None and a[0] >= b[0]) and (b[1] is None or a[1] is not None and a[1] <= b[1]) and b[2] <= a[2] | frozenset(
        x for x in b[2] if a[0] is not None and x < a[0] or a[1] is not None and x > a[1])


def counting(t):
    """arithmetic on loop variables"""
    if t.op in ("lv", "clv"):
        return True
    if t.op == "lin":
        return any(counting(x) for x, _ in t.a[1])
    if t.op == "app":
        return "::" not in str(t.a[0]) and any(counting(x) for x in t.a[1:] if isinstance(x, T))
    return t.op in ("len", "not") and counting(t.a[0])


def bounds(v):
    lo, hi, ex = v
    out = set(ex)
    if lo is not None:
        out.add(lo)
    if hi is not None:
        out.add(hi if hi == lo else hi + 1)
    return {c for c in out if abs(c) < 1 << 30}


def deeper(now, ref):
    """what the loops compare counts with, beyond the rounds peeled, where the
    reference has no such number: peeling tells nothing about those rounds"""
    new, old = set(), set()
    for tab, out, every in ((now, new, False), (ref, old, True)):
        terms, facts = [], [q.f.d for q in tab.rows]
        for q in tab.rows:
            terms += [q.ret] + list(q.eff.values())
        for lp in tab.it.loops.values():
            out |= {t.a[0] for t in lp.init.values() if isinstance(t, T) and t.op == "int" and abs(t.a[0]) < 1 << 30}
            for f, nx, _ in lp.rows:
                facts.append(f.d)
                terms += list(nx.values())
        for d in facts:
            for k, v in d.items():
                terms.append(k[1])
                if k[0] == "i" and (every or counting(k[1])):
                    out |= bounds(v)
        seen = set()
        for t in terms:
            if not isinstance(t, T):
                continue
            for x in subterms(t, seen):
                if x.op == "int" and every:
                    out.add(x.a[0])
                elif x.op == "app" and not every and counting(x):
                    out |= {y.a[0] for y in x.a[1:] if isinstance(y, T) and y.op == "int"}
    return {c for c in new if abs(c) >= 3 and not old & {c - 1, c, c + 1}}


def reshaped(lo):
    """the loops carry other variables than before: their states cannot be
    compared one by one"""
    if lo is None:
        return True
    a, b = ([x for x in t.rounds(False).values()] for t in lo)
    return sorted(map(str, a)) != sorted(map(str, b))


if __name__ == "__main__":
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    s = Suite(load_cur(), load_ref())
    print(len(s.units), "units; added", s.added, "removed", s.removed)
    t00 = time.time()
    for u in sorted(s.units):
        if pat not in u or always_opaque(u):
            continue
        t0 = time.time()
        v = s.verdict(u)
        dt = time.time() - t0
        if v.status != "equal" or dt > 2:
            print(f"{dt:.1f}s", v)
            for m in v.mism[:3]:
                print("   ", m)
    print(f"{time.time()-t00:.1f}s", {k: (len(v) if isinstance(v, set) else v) for k, v in s.stats.items()})
