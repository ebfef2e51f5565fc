"""Path facts: what a path knows about immutable terms.

No solver: a fact is a variant set, an integer interval with excluded points
for one (normalised linear) term, or a string constant set.
"""
from terms import *
from terms import _oriented


class Facts:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return Facts(dict(self.d))

    # -- variants
    def variants(self, t, allv):
        k = self.d.get(("v", t))
        return k if k is not None else frozenset(allv)

    def assume_variants(self, t, allowed, allv):
        cur = self.variants(t, allv)
        new = cur & frozenset(allowed)
        if not new:
            return None
        if new == cur and ("v", t) in self.d:
            return self
        f = self.copy()
        f.d[("v", t)] = new
        return f

    # -- integers (and opaque booleans, as 0/1)
    def interval(self, t):
        """(lo, hi, excluded) of a term; None = unbounded"""
        if t.op == "int":
            return t.a[0], t.a[0], frozenset()
        k = self.d.get(("i", t))
        if k is not None:
            lo, hi, ex = k
        else:
            lo, hi, ex = None, None, frozenset()
        blo, bhi = BOUNDS.get(t, (None, None))
        if lo is None or (blo is not None and blo > lo):
            lo = blo
        if hi is None or (bhi is not None and bhi < hi):
            hi = bhi
        if t.op == "lin" and len(t.a[1]) >= 1:
            # bounds from the parts
            l2, h2 = t.a[0], t.a[0]
            for x, k in t.a[1]:
                xl, xh, _ = self.interval(x)
                if k < 0:
                    xl, xh = xh, xl
                l2 = None if l2 is None or xl is None else l2 + k * xl
                h2 = None if h2 is None or xh is None else h2 + k * xh
            if l2 is not None and (lo is None or l2 > lo):
                lo = l2
            if h2 is not None and (hi is None or h2 < hi):
                hi = h2
        return lo, hi, ex

    def lin_interval(self, l):
        """interval of a linear term through its constant-free oriented form"""
        c, d = lin_parts(l)
        f, s = _oriented(d)
        k = lin_make(0, f)
        lo, hi, ex = self.interval(k)
        if s < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        lo = None if lo is None else lo + c
        hi = None if hi is None else hi + c
        return lo, hi

    def _set_interval(self, key, lo, hi, ex):
        if lo is not None:
            while lo in ex:
                lo += 1
        if hi is not None:
            while hi in ex:
                hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        ex = frozenset(x for x in ex if (lo is None or x >= lo) and (hi is None or x <= hi))
        new = (lo, hi, ex)
        if self.d.get(("i", key)) == new:
            return self
        f = self.copy()
        f.d[("i", key)] = new
        return f

    # -- truth
    def truth(self, t):
        op = t.op
        if op == "int":
            return bool(t.a[0])
        if op == "not":
            r = self.truth(t.a[0])
            return None if r is None else not r
        if op == "and":
            x, y = self.truth(t.a[0]), self.truth(t.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if op == "ge0":
            lo, hi = self.lin_interval(t.a[0])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if op == "zero":
            c, d = lin_parts(t.a[0])
            f, s = _oriented(d)
            k = lin_make(0, f)
            lo, hi, ex = self.interval(k)
            v = -c * s
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ex:
                return False
            if lo is not None and lo == hi == v:
                return True
            return None
        if op == "streq":
            x, y = t.a
            if y.op == "str":
                k = self.d.get(("s", x))
                if k is None:
                    return None
                e, ex = k
                if e is not None:
                    return e is y
                if y in ex:
                    return False
                return None
            k = self.d.get(("b", t))
            return k
        if op == "isvar":
            k = self.d.get(("v", t.a[0]))
            if k is None:
                return None
            want = frozenset(t.a[1])
            if k <= want:
                return True
            if not (k & want):
                return False
            return None
        lo, hi, ex = self.interval(t)
        if lo is not None and lo > 0:
            return True
        if hi is not None and hi <= 0 and lo == hi:
            return False
        k = self.d.get(("b", t))
        return k

    def assume(self, t, val):
        """list of Facts (disjoint cases) in which t has truth value val"""
        cur = self.truth(t)
        if cur is not None:
            return [self] if cur == val else []
        op = t.op
        if op == "not":
            return self.assume(t.a[0], not val)
        if op == "and":
            x, y = t.a
            if val:
                return [g for f in self.assume(x, True) for g in f.assume(y, True)]
            r = self.assume(x, False)
            for f in self.assume(x, True):
                r += f.assume(y, False)
            return r
        if op == "ge0":
            c, d = lin_parts(t.a[0])
            f, s = _oriented(d)
            k = lin_make(0, f)
            lo, hi, ex = self.interval(k)
            # s*k + c >= 0
            if s > 0:
                if val:
                    b = -c
                    lo = b if lo is None else max(lo, b)
                else:
                    b = -c - 1
                    hi = b if hi is None else min(hi, b)
            else:
                if val:
                    b = c
                    hi = b if hi is None else min(hi, b)
                else:
                    b = c + 1
                    lo = b if lo is None else max(lo, b)
            g = self._set_interval(k, lo, hi, ex)
            return [g] if g is not None else []
        if op == "zero":
            c, d = lin_parts(t.a[0])
            f, s = _oriented(d)
            k = lin_make(0, f)
            lo, hi, ex = self.interval(k)
            v = -c * s
            if val:
                g = self._set_interval(k, v, v, frozenset())
                if g is not None and k.op == "discr":
                    pass
            else:
                g = self._set_interval(k, lo, hi, ex | {v})
            return [g] if g is not None else []
        if op == "streq":
            x, y = t.a
            f = self.copy()
            if y.op == "str":
                e, ex = f.d.get(("s", x), (None, frozenset()))
                f.d[("s", x)] = (y, frozenset()) if val else (None, ex | {y})
            else:
                f.d[("b", t)] = val
            return [f]
        f = self.copy()
        f.d[("b", t)] = val
        return [f]

    # -- conjunction of two fact sets (for comparing tables)
    def join(self, o):
        f = self.copy()
        for k, v in o.d.items():
            w = f.d.get(k)
            if w is None:
                f.d[k] = v
                continue
            if w == v:
                continue
            kind = k[0]
            if kind == "v":
                n = w & v
                if not n:
                    return None
                f.d[k] = n
            elif kind == "i":
                lo = w[0] if v[0] is None else (v[0] if w[0] is None else max(w[0], v[0]))
                hi = w[1] if v[1] is None else (v[1] if w[1] is None else min(w[1], v[1]))
                g = f._set_interval(k[1], lo, hi, w[2] | v[2])
                if g is None:
                    return None
                f = g if g is not f else f
                f = f.copy()
            elif kind == "s":
                if w[0] is not None and v[0] is not None:
                    if w[0] is not v[0]:
                        return None
                elif w[0] is not None:
                    if w[0] in v[1]:
                        return None
                elif v[0] is not None:
                    if v[0] in w[1]:
                        return None
                    f.d[k] = v
                else:
                    f.d[k] = (None, w[1] | v[1])
            elif kind == "b":
                if w != v:
                    return None
        # intervals of linear combinations against each other
        for k in list(f.d):
            if k[0] == "i":
                lo, hi, ex = f.interval(k[1])
                if lo is not None and hi is not None:
                    if lo > hi:
                        return None
                    if lo == hi and lo in ex:
                        return None
        return f

    def show(self):
        out = []
        for k, v in self.d.items():
            if k[0] == "v":
                out.append(f"{show(k[1])} is {'|'.join(sorted(v))}")
            elif k[0] == "i":
                lo, hi, ex = v
                if lo is not None and lo == hi:
                    out.append(f"{show(k[1])} = {lo}")
                else:
                    s = show(k[1])
                    if lo is not None:
                        s = f"{lo} <= {s}"
                    if hi is not None:
                        s += f" <= {hi}"
                    if ex:
                        s += f" not in {sorted(ex)}"
                    out.append(s)
            elif k[0] == "s":
                e, ex = v
                out.append(f"{show(k[1])} == {show(e)}" if e is not None else f"{show(k[1])} not in {[show(x) for x in ex]}")
            else:
                out.append(("" if v else "not ") + show(k[1]))
        return " && ".join(out)
