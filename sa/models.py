"""Models of std functions over abstract values (each one line of std's
documented behaviour). Whatever has no model and no inlined body is an
uninterpreted function of its argument contents."""
import re
from terms import *
from facts import Facts

EXACT = {}
PREFIX = []
RX = []


def m(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


_cache = {}


def lookup(I_, path, rpath, c):
    for p in (rpath, path):
        if p in EXACT:
            return EXACT[p]
    k = (path, rpath)
    if k in _cache:
        return _cache[k]
    r = None
    for p in (rpath, path):
        for pat, f in RX:
            if pat.search(p):
                r = f
                break
        if r:
            break
    _cache[k] = r
    return r


def C(I_, st, v):
    """content"""
    return I_.snap(st, v)


def cond(I_, st, t, yes, no):
    """[(state, value)] for `if t {yes} else {no}`; yes/no: state -> value"""
    out = []
    for s, b in I_.branch(st, t):
        r = yes(s) if b else no(s)
        out.append((s, r))
    return out


def strval(I_, st, v, depth=0):
    """the str content behind a value of type &str, &&str, String, &String, Cow…"""
    c = I_.snap(st, v)
    return as_str(I_, c)


def as_str(I_, c):
    if c.op in ("str", "strof", "substr", "cat", "fmt", "chr", "tostr", "spec"):
        return c
    if c.op == "string":
        return c.a[0]
    if c.op == "adt" and c.a[0].endswith("borrow::Cow"):
        return as_str(I_, c.a[3])
    t = I_.tyof.get(c)
    if t is not None:
        ty = I_.p.types[t]
        if ty["k"] == "str":
            return c
        if ty["k"] == "ref":
            to = I_.p.types[ty["to"]]
            if to["k"] == "str":
                return c
        if ty["k"] == "adt" and ty["def"] in ("alloc::string::String",):
            return strof(c)
        if ty["k"] == "adt" and ty["def"] == "alloc::borrow::Cow":
            return strof(c)
    return strof(c)


def isstrlike(I_, c):
    if c.op in ("str", "strof", "substr", "cat", "fmt", "chr", "tostr", "spec", "string"):
        return True
    if c.op == "adt" and c.a[0].endswith("borrow::Cow"):
        return True
    t = I_.tyof.get(c)
    while t is not None:
        ty = I_.p.types[t]
        if ty["k"] == "str":
            return True
        if ty["k"] == "ref":
            t = ty["to"]
            continue
        return ty["k"] == "adt" and ty["def"] in ("alloc::string::String", "alloc::borrow::Cow")
    return False


def targ(c, i):
    ts = [t for t in c.get("targs", []) if isinstance(t, int)]
    return ts[i] if i < len(ts) else None


def opt_elem_type(I_, dtid, i=0):
    if dtid is None:
        return None
    t = I_.p.types[dtid]
    if t["k"] == "adt" and t.get("args"):
        a = t["args"]
        return a[i] if i < len(a) and isinstance(a[i], int) else None
    return None


# ---- references, ownership ---------------------------------------------------

@m("core::clone::Clone::clone", "core::clone::Clone::clone_from")
def clone(I_, st, c, a, d):
    if c["name"] != "clone":
        return None
    t = targ(c, 0)
    v = I_.read(st, I_.point(a[0]))
    if v.op != "ref":
        I_.settype(v, t)
    return [(st, v)]


@m("alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string", "alloc::slice::<impl [T]>::to_vec",
   "alloc::slice::<impl [T]>::into_vec", "alloc::str::<impl str>::into_string", "alloc::str::<impl str>::into_boxed_str")
def to_owned(I_, st, c, a, d):
    v = C(I_, st, a[0])
    if isstrlike(I_, v):
        return [(st, string(as_str(I_, v)))]
    if c["name"] == "to_string":
        return [(st, string(tostr(I_, v, targ(c, 0))))]
    return [(st, v)]


def tostr(I_, v, t=None):
    """text of a value's Display form"""
    if isstrlike(I_, v):
        return as_str(I_, v)
    if t is None:
        t = I_.tyof.get(v)
    while t is not None and I_.p.types[t]["k"] == "ref":
        t = I_.p.types[t]["to"]
    if t is not None:
        k = I_.p.types[t]["s"]
        if k == "char":
            return cat(S(""), mk("chr", v))
        if v.op == "int":
            return S(("false", "true")[v.a[0]] if k == "bool" else str(v.a[0]))
    return mk("tostr", v)


@m("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref",
   "core::borrow::Borrow::borrow", "core::convert::AsMut::as_mut")
def deref(I_, st, c, a, d):
    rp = c.get("rpath", "")
    if c.get("local") and c.get("key") in I_.p.fns:
        return None
    dt = I_.p.types[d] if d is not None else None
    if dt and dt["k"] == "ref" and I_.p.types[dt["to"]]["k"] == "str":
        addr = I_.point(a[0])
        v = I_.read(st, addr)
        # Cow: look at the variant
        t = targ(c, 0)
        ty = I_.p.types[t] if t is not None else None
        if ty and ty["k"] == "adt" and ty["def"].endswith("borrow::Cow"):
            out = []
            for s, vn in I_.split_variant(st, v, t):
                p = I_.settype(fld(v, ty["def"], vn, "0"), None)
                if vn == "Borrowed":
                    I_.settype(p, d)
                    out.append((s, I_.snap(s, p)))
                else:
                    out.append((s, strof(I_.snap(s, p))))
            return out
        return [(st, strval(I_, st, a[0]))]
    if dt and dt["k"] == "ref":
        to = I_.p.types[dt["to"]]
        if to["k"] == "slice" and I_.p.types[to["to"]]["s"] == "u8":
            v = C(I_, st, a[0])
            if isstrlike(I_, v):
                return [(st, bytesof(as_str(I_, v)))]
        t = targ(c, 0)
        ty = I_.p.types[t] if t is not None else None
        if ty and ty["k"] == "adt" and ty["def"] in ("alloc::vec::Vec",) and to["k"] == "slice":
            return [(st, a[0])]
        if ty and ty["k"] == "adt" and I_.p.adts.get(ty["def"], {}).get("box"):
            addr = I_.point(a[0])
            return [(st, I_.mkref((addr[0], addr[1] + (("box", dt["to"]),))))]
    return None


@m("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice")
def same_ref(I_, st, c, a, d):
    return [(st, a[0])]


@m("alloc::string::String::as_str", "alloc::string::String::as_mut_str")
def string_as_str(I_, st, c, a, d):
    return [(st, strval(I_, st, a[0]))]


@m("core::str::<impl str>::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes")
def as_bytes(I_, st, c, a, d):
    s = strval(I_, st, a[0])
    return [(st, bytesof(s))]


@m("alloc::boxed::Box::<T>::new")
def box_new(I_, st, c, a, d):
    return [(st, mk("boxv", a[0]))]


@m("alloc::boxed::Box::<T>::new_uninit")
def box_uninit(I_, st, c, a, d):
    return [(st, mk("boxv", mk("uninit")))]


@m("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_vec(I_, st, c, a, d):
    return [(st, a[0].a[0] if a[0].op == "boxv" else mk("unbox", a[0]))]


@m("core::mem::replace")
def mem_replace(I_, st, c, a, d):
    st = st.copy()
    addr = I_.point(a[0])
    old = I_.read(st, addr)
    I_.write(st, addr, a[1])
    return [(st, old)]


def default_of(I_, tid):
    if tid is None:
        return None
    t = I_.p.types[tid]
    if t["k"] in ("bool", "int", "char"):
        return I(0)
    if t["k"] == "str":
        return S("")
    if t["k"] == "ref" and I_.p.types[t["to"]]["k"] == "str":
        return S("")
    if t["k"] == "tuple" and not t["elems"]:
        return UNIT
    if t["k"] == "adt":
        p = t["def"]
        if p == OPT:
            return NONE
        if p == "alloc::vec::Vec" or p.endswith("VecDeque"):
            return vec()
        if p == "alloc::string::String":
            return string(S(""))
        if p.endswith("BTreeMap") or p.endswith("HashMap"):
            return mk("map")
    return None


@m("core::mem::take")
def mem_take(I_, st, c, a, d):
    dv = default_of(I_, d)
    if dv is None:
        return None
    st = st.copy()
    addr = I_.point(a[0])
    old = I_.read(st, addr)
    I_.write(st, addr, dv)
    return [(st, old)]


@m("core::mem::swap")
def mem_swap(I_, st, c, a, d):
    st = st.copy()
    x, y = I_.point(a[0]), I_.point(a[1])
    vx, vy = I_.read(st, x), I_.read(st, y)
    I_.write(st, x, vy)
    I_.write(st, y, vx)
    return [(st, UNIT)]


@m("core::mem::drop", "core::mem::forget")
def mem_drop(I_, st, c, a, d):
    return [(st, UNIT)]


@m("core::hint::must_use", "core::convert::identity", "core::hint::black_box")
def ident(I_, st, c, a, d):
    return [(st, a[0])]


@m("core::hint::unreachable_unchecked", "core::hint::unreachable_unchecked::precondition_check")
def unreach(I_, st, c, a, d):
    return []


@m("core::default::Default::default")
def default(I_, st, c, a, d):
    if c.get("local") and c.get("key") in I_.p.fns:
        return None
    v = default_of(I_, d)
    return [(st, v)] if v is not None else None


@m("core::intrinsics::discriminant_value")
def discr_value(I_, st, c, a, d):
    v = I_.read(st, I_.point(a[0]))
    return [(st, I_.discr(v, targ(c, 0)))]


@m("core::mem::discriminant")
def mem_discr(I_, st, c, a, d):
    v = I_.read(st, I_.point(a[0]))
    return [(st, mk("discrval", I_.discr(v, targ(c, 0))))]


# ---- conversions -------------------------------------------------------------

@m("<alloc::string::String as core::convert::From<&str>>::from", "<alloc::string::String as core::convert::From<alloc::borrow::Cow<'a, str>>>::from",
   "<alloc::string::String as core::convert::From<&alloc::string::String>>::from", "alloc::borrow::Cow::<'_, B>::into_owned",
   "<alloc::string::String as core::str::traits::FromStr>::from_str")
def string_from(I_, st, c, a, d):
    v = C(I_, st, a[0])
    t = I_.tyof.get(v)
    if t is not None and I_.p.types[t]["k"] == "adt" and I_.p.types[t]["def"].endswith("borrow::Cow"):
        p = I_.p.types[t]["def"]
        out = []
        for s, vn in I_.split_variant(st, v, t):
            x = fld(v, p, vn, "0")
            out.append((s, string(I_.snap(s, x)) if vn == "Borrowed" else x))
        return out
    if v.op == "adt" and v.a[1] in ("Borrowed", "Owned"):
        return [(st, string(as_str(I_, v.a[3])) if v.a[1] == "Borrowed" else v.a[3])]
    return [(st, string(as_str(I_, v)))]


@m("<alloc::string::String as core::convert::From<char>>::from")
def string_from_char(I_, st, c, a, d):
    return [(st, string(cat(S(""), mk("chr", a[0]))))]


@rx(r"From<(u8|u16|u32|i8|i16|i32|bool|char)>.* for (char|[iu](8|16|32|64|128|size))>::from$", r"^<(char|[iu](8|16|32|64|128|size)) as core::convert::From<(u8|u16|u32|i8|i16|i32|bool|char)>>::from$")
def lossless(I_, st, c, a, d):
    return [(st, a[0])]


COW = "alloc::borrow::Cow"


@m("<alloc::borrow::Cow<'a, str> as core::convert::From<&'a str>>::from")
def cow_from_str(I_, st, c, a, d):
    return [(st, adt(COW, "Borrowed", ("0",), (a[0],)))]


@m("<alloc::borrow::Cow<'a, str> as core::convert::From<alloc::string::String>>::from")
def cow_from_string(I_, st, c, a, d):
    return [(st, adt(COW, "Owned", ("0",), (a[0],)))]


# ---- comparison --------------------------------------------------------------

def eq_values(I_, a, b, depth=0):
    if a is b:
        return TRUE
    if isstrlike(I_, a) or isstrlike(I_, b):
        return streq(as_str(I_, a), as_str(I_, b))
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        return I_.eq(a, b)
    for x, y in ((a, b), (b, a)):
        if x.op == "boxv" and y.op == "boxv":
            return eq_values(I_, x.a[0], y.a[0], depth + 1)
        if x.op == "adt":
            if y.op == "adt":
                if x.a[1] != y.a[1]:
                    return FALSE
                r = TRUE
                for p, q in zip(x.a[3:], y.a[3:]):
                    r = and_(r, eq_values(I_, p, q, depth + 1))
                return r
            if x.a[1] is not None:
                vs = None
                t = I_.tyof.get(y)
                if t is not None:
                    vs = I_.p.variants(t)
                if vs is None and x.a[0] in I_.p.adts:
                    vs = [(v["name"], v["discr"]) for v in I_.p.adts[x.a[0]]["variants"]]
                r = mk("isvar", y, (x.a[1],), tuple(n for n, _ in vs))
            else:
                r = TRUE
            for n, p in zip(x.a[2], x.a[3:]):
                r = and_(r, eq_values(I_, p, fld(y, x.a[0], x.a[1], n), depth + 1))
            return r
        if x.op == "tup" and y.op == "tup" and len(x.a) == len(y.a):
            r = TRUE
            for p, q in zip(x.a, y.a):
                r = and_(r, eq_values(I_, p, q, depth + 1))
            return r
    ta = I_.tyof.get(a)
    if ta is None:
        ta = I_.tyof.get(b)
    if ta is not None:
        t = I_.p.types[ta]
        if t["k"] in ("int", "char", "bool"):
            return I_.eq(a, b)
        if t["k"] == "float":
            return bound(app_sorted("feq", a, b), 0, 1)
        if t["k"] == "adt" and t["def"] in I_.p.adts and I_.p.adts[t["def"]]["kind"] == "enum" and \
                not any(v["fields"] for v in I_.p.adts[t["def"]]["variants"]):
            return I_.eq(mk("discr", a), mk("discr", b))
    return bound(app_sorted("eq", a, b), 0, 1)


@m("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def partial_eq(I_, st, c, a, d):
    if c.get("local") and c.get("key") in I_.p.fns:
        # hand-written impls are inlined, derived ones are structural
        if not derived_impl(I_, c.get("rpath")):
            return None
    x, y = C(I_, st, a[0]), C(I_, st, a[1])
    for v, i in ((x, 0), (y, 1)):
        t = targ(c, i)
        if t is None:
            t = targ(c, 0)
        if t is not None and v.op != "ref":
            ty = I_.p.types[t]
            while ty["k"] == "ref":
                t = ty["to"]
                ty = I_.p.types[t]
            I_.settype(v, t)
    r = eq_values(I_, x, y)
    # decide structural equalities by case analysis now: they are guards
    r = not_(r) if c["name"] == "ne" else r
    return [(st, r)]


_derived = {}


def derived_impl(I_, rpath):
    k = id(I_.p)
    if k not in _derived:
        s = set()
        for im in I_.p.d["impls"]:
            if im["derived"]:
                for it in im["items"]:
                    s.add(it["path"])
        _derived[k] = s
    return rpath in _derived[k]


@m("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def partial_ord(I_, st, c, a, d):
    x, y = C(I_, st, a[0]), C(I_, st, a[1])
    t = targ(c, 0)
    ty = I_.p.types[t] if t is not None else None
    while ty and ty["k"] == "ref":
        ty = I_.p.types[ty["to"]]
    if not ty or ty["k"] not in ("int", "char", "bool"):
        return None
    n = c["name"]
    r = {"lt": lt, "le": le, "gt": lambda p, q: lt(q, p), "ge": lambda p, q: le(q, p)}[n](x, y)
    return [(st, r)]


def minmax(name):
    def f(I_, st, c, a, d):
        t = targ(c, 0)
        ty = I_.p.types[t] if t is not None else None
        if not ty or ty["k"] not in ("int", "char"):
            return None
        x, y = a
        if name == "max":
            return cond(I_, st, le(x, y), lambda s: y, lambda s: x)
        return cond(I_, st, le(x, y), lambda s: x, lambda s: y)
    return f


EXACT["core::cmp::Ord::max"] = minmax("max")
EXACT["core::cmp::Ord::min"] = minmax("min")
EXACT["core::cmp::max"] = minmax("max")
EXACT["core::cmp::min"] = minmax("min")


# ---- integers and chars ------------------------------------------------------

@rx(r"^core::num::<impl \w+>::checked_(add|sub|mul)$")
def checked(I_, st, c, a, d):
    n = c["name"]
    r = {"checked_add": add, "checked_sub": sub, "checked_mul": mul}[n](a[0], a[1])
    et = opt_elem_type(I_, d)
    ty = I_.p.types[et]
    lo, hi = I_.range_of(ty)
    l2, h2 = st.f.lin_interval(r)
    if r.op == "int":
        okc = TRUE if lo <= r.a[0] <= hi else FALSE
    elif n == "checked_sub" and not ty["signed"]:
        okc = ge0(r)
    elif l2 is not None and h2 is not None and l2 >= lo and h2 <= hi:
        okc = TRUE
    else:
        okc = bound(app("fits:" + ty["s"], r), 0, 1)
    return cond(I_, st, okc, lambda s: some(r), lambda s: NONE)


@rx(r"^core::num::<impl u\w+>::saturating_sub$")
def sat_sub(I_, st, c, a, d):
    r = sub(a[0], a[1])
    return cond(I_, st, ge0(r), lambda s: r, lambda s: I(0))


@rx(r"^core::num::<impl i\w+>::unsigned_abs$")
def int_uabs(I_, st, c, a, d):
    return cond(I_, st, ge0(a[0]), lambda s: a[0], lambda s: scale(a[0], -1))


@rx(r"^core::num::<impl u\w+>::abs_diff$")
def int_abs_diff(I_, st, c, a, d):
    r = sub(a[0], a[1])
    return cond(I_, st, ge0(r), lambda s: r, lambda s: scale(r, -1))


@m("alloc::string::String::clear")
def string_clear(I_, st, c, a, d):
    st = st.copy()
    I_.write(st, I_.point(a[0]), string(S("")))
    return [(st, UNIT)]


@m("core::iter::traits::iterator::Iterator::nth")
def it_nth(I_, st, c, a, d):
    """nth(k) for a known small k: k + 1 times next on a plain iterator"""
    if a[1].op != "int" or not 0 <= a[1].a[0] <= 4:
        return None
    it = I_.read(st, I_.point(a[0]))
    if it.op != "iter":
        return None
    outs = [(st, None)]
    for _ in range(a[1].a[0] + 1):
        nxt = []
        for s, o in outs:
            if o is not None and o is NONE:
                nxt.append((s, o))
                continue
            r = it_next(I_, s, {"name": "next", "rpath": ""}, [a[0]], d)
            if r is None:
                return None
            nxt += r
        outs = nxt
    return outs


@rx(r"^core::num::<impl u\w+>::saturating_add$")
def sat_add(I_, st, c, a, d):
    return [(st, add(a[0], a[1]))]


def operator(op):
    """the operator traits called on integers or on references to them"""
    def f(I_, st, c, a, d):
        ty = I_.p.types[d]
        if op == "Add" and ty.get("def") == "alloc::string::String":
            return [(st, string(cat(as_str(I_, a[0]), strval(I_, st, a[1]))))]
        if ty["k"] != "int":
            return None
        vs = [C(I_, st, x) for x in a]
        if op == "Neg":
            r = scale(vs[0], -1)
            I_.overflow(st, r, ty["s"])
            return [(st, r)]
        if op in ("Add", "Sub", "Mul"):
            t = I_.binop(st, op + "WithOverflow", vs[0], vs[1], d)
            if t.op != "tup" or t.a[1].op != "overflow":
                return None
            r = t.a[0]
            if op == "Sub" and ty["s"].startswith("u"):
                if st.f.truth(ge0(r)) is not True:
                    I_.panic(st, "overflow")
                return [(type(st)(st.mem, g, st.loops), r) for g in st.f.assume(ge0(r), True)]
            I_.overflow(st, r, ty["s"])
            return [(st, r)]
        if op in ("BitAnd", "BitOr", "BitXor"):
            return [(st, I_.binop(st, op, vs[0], vs[1], d))]
        if op in ("Div", "Rem"):
            if vs[1].op != "int" or vs[1].a[0] in (0, -1):
                return None
            return [(st, I_.binop(st, op, vs[0], vs[1], d))]
        return None
    return f


for _op in ("Neg", "Add", "Sub", "Mul", "BitAnd", "BitOr", "BitXor", "Div", "Rem"):
    _mod = "bit" if _op.startswith("Bit") else "arith"
    EXACT[f"core::ops::{_mod}::{_op}::{_op.lower()}"] = operator(_op)


def inrange(t, *rs):
    r = FALSE
    for lo, hi in rs:
        r = or_(r, and_(le(I(lo), t), le(t, I(hi))) if lo != hi else eq_int(t, I(lo)))
    return r


CLS = {
    "is_ascii_digit": ((48, 57),),
    "is_ascii_lowercase": ((97, 122),),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii": ((0, 127),),
}


@rx(r"^core::char::methods::<impl char>::is_ascii\w*$", r"^core::num::<impl u8>::is_ascii\w*$")
def char_class(I_, st, c, a, d):
    rs = CLS.get(c["name"])
    if rs is None:
        return None
    v = C(I_, st, a[0])
    return [(st, inrange(v, *rs))]


@m("core::char::methods::<impl char>::len_utf8")
def len_utf8(I_, st, c, a, d):
    v = a[0]
    if v.op == "int":
        return [(st, I(len(chr(v.a[0]).encode())))]
    return [(st, clen(v))]


# ---- str / String ------------------------------------------------------------

@m("core::str::<impl str>::len", "alloc::string::String::len")
def str_len(I_, st, c, a, d):
    return [(st, length(strval(I_, st, a[0])))]


@m("alloc::string::String::reserve", "alloc::string::String::reserve_exact", "alloc::string::String::shrink_to_fit",
   "alloc::vec::Vec::<T, A>::reserve", "alloc::vec::Vec::<T, A>::reserve_exact", "alloc::vec::Vec::<T, A>::shrink_to_fit",
   "alloc::collections::vec_deque::VecDeque::<T, A>::reserve")
def reserve(I_, st, c, a, d):
    return [(st, tup())]


@m("core::str::<impl str>::is_empty", "alloc::string::String::is_empty")
def str_empty(I_, st, c, a, d):
    return [(st, eq_int(length(strval(I_, st, a[0])), I(0)))]


@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(I_, st, c, a, d):
    return [(st, string(S("")))]


@m("core::ops::arith::AddAssign::add_assign")
def add_assign(I_, st, c, a, d):
    t = targ(c, 0)
    if t is None or I_.p.types[t].get("def") != "alloc::string::String":
        return None
    return push_str(I_, st, dict(c, name="push_str"), a, d)


@m("alloc::string::String::push_str", "alloc::string::String::push", "<alloc::string::String as core::fmt::Write>::write_str",
   "<alloc::string::String as core::fmt::Write>::write_char", "<alloc::string::String as core::fmt::Write>::write_fmt")
def push_str(I_, st, c, a, d):
    st = st.copy()
    addr = I_.point(a[0])
    old = as_str(I_, C(I_, st, a[0]))
    x = mk("chr", a[1]) if c["name"] in ("push", "write_char") else strval(I_, st, a[1])
    I_.write(st, addr, string(cat(old, x)))
    return [(st, UNIT if c["name"].startswith("push") else ok(UNIT))]


@rx(r"^core::str::traits::<impl core::ops::index::Index<I> for str>::index$", r"^<alloc::string::String as core::ops::index::Index<I>>::index$")
def str_index(I_, st, c, a, d):
    s = strval(I_, st, a[0])
    lo, hi = range_of(I_, a[1], length(s))
    if lo is None:
        return None
    return in_range(I_, st, lo, hi, length(s), lambda: substr(s, lo, hi))


def in_range(I_, st, lo, hi, n, val):
    """the range indexing panics unless lo <= hi <= n"""
    out = []
    conds = [x for x in (le(lo, hi), le(hi, n)) if x is not TRUE]
    live = [st]
    for cnd in conds:
        nxt = []
        for s in live:
            for s2, b in I_.branch(s, cnd):
                if b:
                    nxt.append(s2)
                else:
                    I_.panic(s2, "RangeCheck")
        live = nxt
    return [(s, val()) for s in live]


def range_of(I_, r, n):
    t = I_.tyof.get(r)
    if r.op == "adt":
        p = r.a[0]
    elif t is not None and I_.p.types[t]["k"] == "adt":
        p = I_.p.types[t]["def"]
    else:
        return None, None
    k = short(p)
    g = lambda f: bound(fld(r, p, None, f), 0, None)
    if k == "Range":
        return g("start"), g("end")
    if k == "RangeFrom":
        return g("start"), n
    if k == "RangeTo":
        return I(0), g("end")
    if k == "RangeFull":
        return I(0), n
    if k == "RangeToInclusive":
        return I(0), add(g("end"), I(1))
    return None, None


@m("core::str::<impl str>::get")
def str_get(I_, st, c, a, d):
    s = strval(I_, st, a[0])
    lo, hi = range_of(I_, a[1], length(s))
    if lo is None:
        return None
    okc = bound(app("str_range_ok", s, lo, hi), 0, 1)
    return cond(I_, st, okc, lambda x: some(substr(s, lo, hi)), lambda x: NONE)


@m("core::str::<impl str>::chars", "core::str::<impl str>::char_indices", "core::str::<impl str>::bytes")
def str_iter(I_, st, c, a, d):
    s = strval(I_, st, a[0])
    k = c["name"]
    if k == "bytes":
        b = bytesof(s)
        return [(st, mk("iter", "sval", b, I(0), length(s)))]
    return [(st, mk("iter", k, s, I(0), length(s)))]


STRPURE = ("trim", "trim_end", "trim_start", "trim_matches", "trim_end_matches", "trim_start_matches",
           "strip_prefix", "strip_suffix", "find", "rfind", "starts_with", "ends_with", "contains", "split_once",
           "rsplit_once", "to_lowercase", "to_uppercase", "repeat", "is_char_boundary", "parse", "split", "lines",
           "split_terminator", "split_whitespace", "rsplit", "splitn", "replace", "eq_ignore_ascii_case", "to_ascii_lowercase")


AFFIX = ("starts_with", "ends_with", "strip_prefix", "strip_suffix")


def affix(x):
    """bytes of a constant str or char pattern"""
    if x.op == "str" and len(x.a[0].encode()) <= 8:
        return x.a[0].encode()
    if x.op == "bytes" and len(x.a[0]) <= 8:
        return bytes(x.a[0])
    if x.op == "int" and 0 <= x.a[0] < 0x110000:
        return chr(x.a[0]).encode()
    return None


def affix_test(I_, st, b, pat, front):
    """[(state, holds)]: the byte sequence starts (ends) with these bytes"""
    todo = []
    out = []
    for s, ok in I_.branch(st, ge0(sub(length(b), I(len(pat))))):
        (todo.append(s) if ok else out.append((s, False)))
    for i, x in enumerate(pat):
        nxt = []
        at = I(i) if front else add(sub(length(b), I(len(pat))), I(i))
        for s in todo:
            for s2, ok in I_.branch(s, eq_int(index(b, at), I(x))):
                (nxt.append(s2) if ok else out.append((s2, False)))
        todo = nxt
    return out + [(s, True) for s in todo]


@m("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def slice_affix(I_, st, c, a, d):
    b, x = C(I_, st, a[0]), C(I_, st, a[1])
    pat = affix(x)
    if pat is None or b.op not in ("bytesof", "subseq", "bytes"):
        return None
    return [(s, TRUE if ok else FALSE) for s, ok in affix_test(I_, st, b, pat, c["name"] == "starts_with")]


@rx(r"^(core|alloc)::str::<impl str>::(%s)$" % "|".join(STRPURE))
def str_pure(I_, st, c, a, d):
    n = c["name"]
    s = strval(I_, st, a[0])
    xs = [C(I_, st, x) for x in a[1:]]
    xs = [as_str(I_, x) if isstrlike(I_, x) else x for x in xs]
    nm = "str." + n
    if n == "parse":
        nm += "<" + I_.p.types[targ(c, 0)]["s"] + ">"
    pat = affix(xs[0]) if n in AFFIX and len(xs) == 1 else None
    if pat is not None:
        out = []
        k, front, strip = len(pat), n.endswith("prefix") or n.startswith("starts"), n.startswith("strip")
        for s2, ok in affix_test(I_, st, bytesof(s), pat, front):
            if not strip:
                out.append((s2, TRUE if ok else FALSE))
            elif not ok:
                out.append((s2, NONE))
            else:
                out.append((s2, some(substr(s, I(k), length(s)) if front else substr(s, I(0), sub(length(s), I(k))))))
        return out
    r = app(nm, s, *xs)
    if n in ("trim_end", "trim_end_matches"):
        # a prefix of s
        h = bound(app("len:" + n, s, *xs), 0, None)
        return [(st, substr(s, I(0), h))]
    if n in ("trim_start", "trim_start_matches"):
        h = bound(app("skip:" + n, s, *xs), 0, None)
        return [(st, substr(s, h, length(s)))]
    I_.settype(r, d)
    return [(st, r)]


# ---- Vec / slices ------------------------------------------------------------

@m("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::collections::vec_deque::VecDeque::<T>::new",
   "alloc::collections::vec_deque::VecDeque::<T>::with_capacity")
def vec_new(I_, st, c, a, d):
    return [(st, vec())]


@m("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
def vec_push(I_, st, c, a, d):
    st = st.copy()
    addr = I_.point(a[0])
    I_.write(st, addr, push(I_.read(st, addr), a[1]))
    return [(st, UNIT)]


@m("alloc::vec::Vec::<T, A>::pop")
def vec_pop(I_, st, c, a, d):
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    et = opt_elem_type(I_, d)
    out = []
    for s, b in I_.branch(st, ge0(sub(length(v), I(1)))):
        if b:
            s = s.copy()
            x = I_.settype(seq_last(v), et)
            nv = seq_init(v)
            if v in I_.tyof:
                I_.settype(nv, I_.tyof[v])
            I_.write(s, addr, nv)
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


def known_int(st, t):
    """the constant a term is known to equal on this path"""
    if t.op == "int":
        return t.a[0]
    lo, hi = st.f.lin_interval(t)
    return lo if lo is not None and lo == hi else None


def elem(st, v, i):
    """v[i]; the last element when the path knows that it is"""
    x = index(v, i)
    if x.op == "index":
        n, k = known_int(st, length(v)), known_int(st, i)
        if n is not None and k == n - 1:
            return seq_last(v)
    return x


def without(st, v, i, swap=False):
    """the sequence after its i-th element is removed"""
    n = known_int(st, length(v))
    k = known_int(st, i)
    if i is sub(length(v), I(1)) or (n is not None and k == n - 1):
        return seq_init(v)
    if v.op == "vec" and k is not None and k < len(v.a):
        xs = list(v.a)
        if swap:
            xs[k] = xs[-1]
            return vec(*xs[:-1])
        return vec(*(xs[:k] + xs[k + 1:]))
    if not swap and k == 0:
        return subseq(v, I(1), length(v))
    return mk("init", app("vec.swap_remove" if swap else "vec.remove", v, i))


@m("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def vec_remove(I_, st, c, a, d):
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    i = a[1]
    out = []
    for s, b in I_.branch(st, lt(i, length(v))):
        if not b:
            I_.panic(s, "BoundsCheck")
            continue
        s = s.copy()
        k = known_int(s, i)
        x = elem(s, v, i if k is None else I(k))
        I_.settype(x, d)
        nv = without(s, v, i, c["name"] == "swap_remove")
        if v in I_.tyof:
            I_.settype(nv, I_.tyof[v])
        I_.write(s, addr, nv)
        out.append((s, x))
    return out


@m("alloc::vec::Vec::<T, A>::truncate")
def vec_truncate(I_, st, c, a, d):
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    out = []
    for s, b in I_.branch(st, lt(a[1], length(v))):
        if b:
            s = s.copy()
            if a[1] is sub(length(v), I(1)):
                nv = seq_init(v)
            elif known_int(s, a[1]) == 0:
                nv = vec()
            else:
                nv = subseq(v, I(0), a[1])
            if v in I_.tyof:
                I_.settype(nv, I_.tyof[v])
            I_.write(s, addr, nv)
        out.append((s, UNIT))
    return out


@m("alloc::vec::Vec::<T, A>::insert")
def vec_insert(I_, st, c, a, d):
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    i = a[1]
    out = []
    for s, b in I_.branch(st, le(i, length(v))):
        if not b:
            I_.panic(s, "BoundsCheck")
            continue
        s = s.copy()
        k, n = known_int(s, i), known_int(s, length(v))
        if i is length(v) or (n is not None and k == n):
            nv = push(v, a[2])
        elif v.op == "vec" and k is not None:
            nv = vec(*(v.a[:k] + (a[2],) + v.a[k:]))
        else:
            nv = app("vec.insert", v, i, a[2])
        if v in I_.tyof:
            I_.settype(nv, I_.tyof[v])
        I_.write(s, addr, nv)
        out.append((s, UNIT))
    return out


@rx(r"^core::slice::<impl \[T\]>::(split_first|split_last)(_mut)?$")
def slice_split_end(I_, st, c, a, d):
    if c["name"].endswith("_mut"):
        return None
    v = C(I_, st, a[0])
    pt = opt_elem_type(I_, d)
    if pt is None:
        return None
    n = length(v)
    first = c["name"] == "split_first"
    tid = None
    ty = I_.p.types[pt]
    if ty["k"] == "tuple":
        r = I_.p.types[ty["elems"][0]]
        tid = r.get("to") if r else None
    out = []
    for s, b in I_.branch(st, ge0(sub(n, I(1)))):
        if not b:
            out.append((s, NONE))
            continue
        s = s.copy()
        e = ("ix", I(0), tid) if first else ("last", tid)
        x = sub_addr_ref(I_, s, a[0], e, tid)
        rest = subseq(v, I(1), n) if first else subseq(v, I(0), sub(n, I(1)))
        out.append((s, some(tup(x, rest))))
    return out


@rx(r"^core::slice::<impl \[T\]>::split_at$")
def slice_split_at(I_, st, c, a, d):
    v = C(I_, st, a[0])
    n = length(v)
    return in_range(I_, st, I(0), a[1], n, lambda: tup(subseq(v, I(0), a[1]), subseq(v, a[1], n)))


@m("core::str::<impl str>::split_at")
def str_split_at(I_, st, c, a, d):
    s = strval(I_, st, a[0])
    n = length(s)
    return in_range(I_, st, I(0), a[1], n, lambda: tup(substr(s, I(0), a[1]), substr(s, a[1], n)))


@m("alloc::collections::vec_deque::VecDeque::<T, A>::pop_front")
def dq_pop(I_, st, c, a, d):
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    et = opt_elem_type(I_, d)
    out = []
    for s, b in I_.branch(st, ge0(sub(length(v), I(1)))):
        if b:
            s = s.copy()
            x = I_.settype(index(v, I(0)), et)
            nv = vec(*v.a[1:]) if v.op == "vec" else subseq(v, I(1), length(v))
            I_.write(s, addr, nv)
            out.append((s, some(x)))
        else:
            out.append((s, NONE))
    return out


@rx(r"^alloc::vec::Vec::<T, A>::len$", r"^core::slice::<impl \[T\]>::len$", r"VecDeque::<T, A>::len$", r"BTreeMap::<K, V, A>::len$", r"HashMap::<K, V, S(, A)?>::len$")
def vec_len(I_, st, c, a, d):
    return [(st, length(C(I_, st, a[0])))]


@rx(r"^alloc::vec::Vec::<T, A>::is_empty$", r"^core::slice::<impl \[T\]>::is_empty$", r"VecDeque::<T, A>::is_empty$", r"BTreeMap::<K, V, A>::is_empty$", r"HashMap::<K, V, S(, A)?>::is_empty$")
def vec_empty(I_, st, c, a, d):
    return [(st, eq_int(length(C(I_, st, a[0])), I(0)))]


@m("alloc::vec::Vec::<T, A>::clear")
def vec_clear(I_, st, c, a, d):
    st = st.copy()
    I_.write(st, I_.point(a[0]), vec())
    return [(st, UNIT)]


@m("alloc::vec::Vec::<T, A>::extend_from_slice", "alloc::vec::Vec::<T, A>::append")
def vec_extend(I_, st, c, a, d):
    st = st.copy()
    addr = I_.point(a[0])
    v = I_.read(st, addr)
    x = C(I_, st, a[1])
    if c["name"] == "append":
        I_.write(st, I_.point(a[1]), vec())
    if x.op == "vec":
        for e in x.a:
            v = push(v, e)
    else:
        v = mk("concat", v, x)
    I_.write(st, addr, v)
    return [(st, UNIT)]


@m("core::intrinsics::cold_path", "core::hint::cold_path")
def cold_path(I_, st, c, a, d):
    return [(st, UNIT)]


@m("core::intrinsics::likely", "core::intrinsics::unlikely", "core::hint::likely", "core::hint::unlikely")
def hinted(I_, st, c, a, d):
    return [(st, a[0])]


@rx(r"^alloc::slice::<impl \[T\]>::(join|concat)$")
def joined(I_, st, c, a, d):
    """the text of a few known pieces"""
    if d is None or I_.p.types[d].get("def") != "alloc::string::String":
        return None
    v = C(I_, st, a[0])
    if v.op != "vec":
        return None
    sep = as_str(I_, I_.snap(st, a[1])) if c["name"] == "join" else S("")
    out = S("")
    for i, e in enumerate(v.a):
        if i:
            out = cat(out, sep)
        out = cat(out, as_str(I_, C(I_, st, e)))
    return [(st, string(out))]


def elem_ref(I_, addr, e):
    return I_.mkref((addr[0], addr[1] + (e,)))


def slice_addr(I_, st, r):
    return I_.point(r)


def elem_tid(I_, d):
    """element type of Option<&T>"""
    t = opt_elem_type(I_, d)
    if t is None:
        return None
    ty = I_.p.types[t]
    return ty.get("to") if ty["k"] == "ref" else t


def sub_addr_ref(I_, st, base, e, tid):
    """reference to an element of the sequence behind `base`"""
    if base.op in ("subseq", "bytesof", "bytes"):
        if base.op == "subseq" and e[0] == "ix":
            return sub_addr_ref(I_, st, base.a[0], ("ix", add(base.a[1], e[1]), tid), tid)
        v = I_.proj(base, e)
        I_.settype(v, tid)
        al = ("m", mk("cref", v))
        st.mem[al] = v
        return al[1]
    addr = I_.point(base)
    return elem_ref(I_, addr, e)


@rx(r"^core::slice::<impl \[T\]>::(last|last_mut|first|first_mut)$", r"VecDeque::<T, A>::(back|back_mut|front|front_mut)$")
def slice_ends(I_, st, c, a, d):
    v = C(I_, st, a[0])
    tid = elem_tid(I_, d)
    out = []
    for s, b in I_.branch(st, ge0(sub(length(v), I(1)))):
        if b:
            s = s.copy()
            e = ("last", tid) if c["name"].startswith(("last", "back")) else ("ix", I(0), tid)
            out.append((s, some(sub_addr_ref(I_, s, a[0], e, tid))))
        else:
            out.append((s, NONE))
    return out


@rx(r"^core::slice::<impl \[T\]>::contains$")
def slice_contains(I_, st, c, a, d):
    v = C(I_, st, a[0])
    it = mk("iter", "sref", a[0], I(0), length(v))
    s0 = st.copy()
    al, itref = temp(I_, s0, it)
    want = I_.snap(s0, a[1])

    def body(s, x):
        r = []
        x = I_.snap(s, x)
        if isstrlike(I_, x) or isstrlike(I_, want):
            t = streq(as_str(I_, x), as_str(I_, want))
        else:
            t = eq_values(I_, x, want)
        for s3, b in I_.branch(s, t):
            r.append(("exit", TRUE, s3) if b else ("cont", s3))
        return r
    out = []
    for k, v, s in item_loop(I_, s0, {"next": None}, itref, body, "contains"):
        s = s.copy()
        s.mem.pop(al, None)
        out.append((s, FALSE if k == "done" else v))
    return out


@rx(r"^core::slice::<impl \[T\]>::(get|get_mut)$")
def slice_get(I_, st, c, a, d):
    v = C(I_, st, a[0])
    i = a[1]
    n = length(v)
    t = I_.tyof.get(i)
    isrange = i.op == "adt" or (t is not None and I_.p.types[t]["k"] == "adt")
    out = []
    if isrange:
        lo, hi = range_of(I_, i, n)
        if lo is None:
            return None
        for s, b in I_.branch(st, and_(le(lo, hi), le(hi, n))):
            out.append((s, some(subseq(v, lo, hi)) if b else NONE))
        return out
    tid = elem_tid(I_, d)
    for s, b in I_.branch(st, lt(i, n)):
        if b:
            s = s.copy()
            out.append((s, some(sub_addr_ref(I_, s, a[0], ("ix", i, tid), tid))))
        else:
            out.append((s, NONE))
    return out


@rx(r"^<alloc::vec::Vec<T, A> as core::ops::index::Index(Mut)?<I>>::index(_mut)?$", r"^core::slice::index::<impl core::ops::index::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
    r"^core::array::<impl core::ops::index::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$")
def vec_index(I_, st, c, a, d):
    v = C(I_, st, a[0])
    i = a[1]
    n = length(v)
    t = I_.tyof.get(i)
    if i.op == "adt" or (t is not None and I_.p.types[t]["k"] == "adt"):
        lo, hi = range_of(I_, i, n)
        if lo is None:
            return None
        return in_range(I_, st, lo, hi, n, lambda: subseq(v, lo, hi))
    tid = None
    if d is not None and I_.p.types[d]["k"] == "ref":
        tid = I_.p.types[d]["to"]
    out = []
    for s, b in I_.branch(st, lt(i, n)):
        if b:
            s = s.copy()
            out.append((s, sub_addr_ref(I_, s, a[0], ("ix", i, tid), tid)))
        else:
            I_.panic(s, "BoundsCheck")
    return out


# ---- maps --------------------------------------------------------------------

MAPS = r"(alloc::collections::btree::map::BTreeMap|std::collections::hash::map::HashMap)"


@rx(MAPS + r"::<.*>::(new|with_capacity)$")
def map_new(I_, st, c, a, d):
    return [(st, mk("map"))]


@rx(r"^<" + MAPS + r"<K, V.*> as core::convert::From<\[\(K, V\); N\]>>::from$")
def map_from_array(I_, st, c, a, d):
    v = a[0]
    if v.op != "vec":
        return None
    r = mk("map")
    for x in v.a:
        k, w = I_.proj(x, ("f", None, None, "0", None)), I_.proj(x, ("f", None, None, "1", None))
        r = insert(r, normkey(I_, I_.snap(st, k)), I_.snap(st, w))
    return [(st, r)]


def map_has(I_, mp, k):
    if mp.op == "map":
        return FALSE
    if mp.op == "insert":
        e = eq_values(I_, mp.a[1], k)
        if e is TRUE:
            return TRUE
    return bound(app("map_has", mp, k), 0, 1)


def normkey(I_, k):
    return as_str(I_, k) if isstrlike(I_, k) else k


@rx(MAPS + r"::<.*>::(get|get_mut|get_key_value|contains_key)$")
def map_get(I_, st, c, a, d):
    mp = C(I_, st, a[0])
    k = normkey(I_, C(I_, st, a[1]))
    h = map_has(I_, mp, k)
    n = c["name"]
    if n == "contains_key":
        return [(st, h)]
    et = opt_elem_type(I_, d)
    r = app("map_at", mp, k)
    if n == "get_mut":
        I_.mapslots[r] = I_.point(a[0]), k
    if n == "get_key_value":
        ek = None
        if et is not None and I_.p.types[et]["k"] == "tuple":
            ek, et = I_.p.types[et]["elems"]
        I_.settype(r, et)
        rk = I_.settype(app("map_keyat", mp, k), ek)
        return cond(I_, st, h, lambda s: some(tup(rk, r)), lambda s: NONE)
    I_.settype(r, et)
    return cond(I_, st, h, lambda s: some(r), lambda s: NONE)


@rx(MAPS + r"::<.*>::(insert|remove)$")
def map_insert(I_, st, c, a, d):
    addr = I_.point(a[0])
    mp = I_.read(st, addr)
    k = normkey(I_, C(I_, st, a[1]))
    h = map_has(I_, mp, k)
    et = opt_elem_type(I_, d)
    out = []
    for s, b in I_.branch(st, h):
        s = s.copy()
        old = I_.settype(mk("deref", app("map_at", mp, k)), et)
        if c["name"] == "insert":
            I_.write(s, addr, insert(mp, k, I_.snap(s, a[2])))
        else:
            I_.write(s, addr, mk("remove", mp, k) if b else mp)
        out.append((s, some(old) if b else NONE))
    return out


ENTRY = r"(alloc::collections::btree::map::entry::|std::collections::hash::map::)"


@rx(MAPS + r"::<.*>::entry$")
def map_entry(I_, st, c, a, d):
    mp = C(I_, st, a[0])
    k = normkey(I_, C(I_, st, a[1]))
    p = I_.p.types[d].get("def")
    e = mk("app", "map_slot", a[0], k)
    return cond(I_, st, map_has(I_, mp, k), lambda s: adt(p, "Occupied", ("0",), (e,)), lambda s: adt(p, "Vacant", ("0",), (e,)))


def slot(t):
    """(reference to the map, key, known to be there) of an entry value"""
    there = None
    if t.op == "adt" and t.a[1] in ("Occupied", "Vacant"):
        there = t.a[1] == "Occupied"
        t = t.a[3]
    if t.op == "app" and t.a[0] == "map_slot":
        return t.a[1], t.a[2], there
    return None


def slot_ref(I_, st, ref, k, mp=None):
    mp = I_.read(st, I_.point(ref)) if mp is None else mp
    t = mk("app", "map_at", mp, k)
    I_.mapslots[t] = I_.point(ref), k
    return t


@rx(ENTRY + r"(Entry|OccupiedEntry|VacantEntry)::<.*>::(or_insert|or_insert_with|or_default|and_modify|insert|get|get_mut|into_mut|key|into_key|remove|remove_entry)$")
def entry_op(I_, st, c, a, d):
    n = c["name"]
    whole = c["path"].split("::<")[0].rsplit("::", 1)[-1]
    e = C(I_, st, a[0]) if a[0].op == "ref" else a[0]
    sl = slot(e)
    if sl is None:
        return None
    ref, k, there = sl
    if whole != "Entry":
        there = whole == "OccupiedEntry"
    addr = I_.point(ref)
    mp = I_.read(st, addr)
    if n in ("key", "into_key"):
        return [(st, k)]
    if n in ("get", "get_mut", "into_mut"):
        return [(st, slot_ref(I_, st, ref, k))]
    s = st.copy()
    if n in ("remove", "remove_entry"):
        old = mk("deref", mk("app", "map_at", mp, k))
        I_.write(s, addr, mk("remove", mp, k))
        return [(s, old if n == "remove" else tup(k, old))]
    if n == "insert" and whole == "OccupiedEntry":
        old = mk("deref", mk("app", "map_at", mp, k))
        I_.write(s, addr, insert(mp, k, I_.snap(s, a[1])))
        return [(s, old)]
    if n == "and_modify":
        if not there:
            return [(st, a[0])]
        r = slot_ref(I_, st, ref, k)
        return [(s2, a[0]) for s2, _ in I_.call_value(s, a[1], [r], None)]
    if there and whole == "Entry":
        return [(st, slot_ref(I_, st, ref, k))]
    outs = [(s, a[1])] if len(a) > 1 and n in ("insert", "or_insert") else None
    if n == "or_insert_with":
        outs = I_.call_value(s, a[1], [], None)
    if outs is None:
        return None
    res = []
    for s2, v in outs:
        s2 = s2.copy()
        new = insert(mp, k, I_.snap(s2, v))
        I_.write(s2, addr, new)
        res.append((s2, slot_ref(I_, s2, ref, k, new)))
    return res


@rx(MAPS + r"::<.*>::(iter|keys|values|into_iter|into_keys|into_values|iter_mut|values_mut)$")
def map_iter(I_, st, c, a, d):
    n = c["name"]
    mp = C(I_, st, a[0])
    k = {"iter": "map", "into_iter": "mapv", "iter_mut": "map", "keys": "mapk", "into_keys": "mapkv", "values": "mapval", "into_values": "mapvalv", "values_mut": "mapval"}[n]
    return [(st, mk("iter", k, mp, I(0), length(mp)))]


# ---- iterators ---------------------------------------------------------------

@rx(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$", r"VecDeque::<T, A>::(iter|iter_mut)$")
def slice_iter(I_, st, c, a, d):
    return [(st, mk("iter", "sref", a[0], I(0), length(C(I_, st, a[0]))))]


@m("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(I_, st, c, a, d):
    t = targ(c, 0)
    if a[0].op == "iter" or a[0].op == "adt" and a[0].a[0].startswith("core::iter::adapters::"):
        return [(st, a[0])]
    if t is None or (c.get("local") and c.get("key") in I_.p.fns):
        return None
    ty = I_.p.types[t]
    if ty["k"] == "ref":
        to = I_.p.types[ty["to"]]
        if to["k"] in ("slice", "array") or (to["k"] == "adt" and to["def"].endswith(("::Vec", "VecDeque"))):
            return [(st, mk("iter", "sref", a[0], I(0), length(C(I_, st, a[0]))))]
        if to["k"] == "adt" and to["def"].endswith(("BTreeMap", "HashMap")):
            mp = C(I_, st, a[0])
            return [(st, mk("iter", "map", mp, I(0), length(mp)))]
        v = C(I_, st, a[0])
        if ty.get("mut") and (to["k"] == "param" or v.op == "iter" or v.op == "adt" and v.a[0].startswith("core::iter::adapters::")):
            return [(st, a[0])]         # a borrowed iterator is one
        return None
    if ty["k"] == "array" or (ty["k"] == "adt" and ty["def"].endswith(("::Vec", "VecDeque"))):
        v = a[0]
        if ty["k"] == "array" and v.op != "vec" and ty.get("len") is not None:
            n = I(ty["len"])
        else:
            n = length(v)
        return [(st, mk("iter", "sval", v, I(0), n))]
    if ty["k"] == "adt" and ty["def"].endswith(("BTreeMap", "HashMap")):
        return [(st, mk("iter", "mapv", a[0], I(0), length(a[0])))]
    if ty["k"] == "adt" and a[0].op == "iter":
        return [(st, a[0])]
    return None


@m("core::iter::traits::iterator::Iterator::by_ref")
def it_by_ref(I_, st, c, a, d):
    return [(st, a[0])]


@m("core::iter::sources::once::once", "core::iter::sources::empty::empty")
def it_once(I_, st, c, a, d):
    return [(st, mk("iter", "sval", vec(*a), I(0), I(len(a))))]


@m("core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned")
def it_copied(I_, st, c, a, d):
    if c.get("key") in I_.p.fns:
        return None
    n = c["name"]
    return [(st, adt(f"core::iter::adapters::{n}::{n.capitalize()}", None, ("it",), (a[0],)))]


@m("core::iter::traits::iterator::Iterator::map")
def it_map(I_, st, c, a, d):
    if c.get("key") in I_.p.fns:
        return None
    return [(st, adt("core::iter::adapters::map::Map", None, ("f", "iter"), (a[1], a[0])))]


def iter_step(I_, st, it, back, et):
    """one step of a built-in iterator value -> [(state, opt elem, new it)]"""
    kind, base, lo, hi = it.a
    out = []
    for s, b in I_.branch(st, ge0(sub(sub(hi, lo), I(1)))):
        s = s.copy()
        if not b:
            out.append((s, None, it))
            continue
        if kind in ("chars", "char_indices"):
            if back:
                ch = I_.settype(bound(app("charbefore", base, hi), 0, 0x10FFFF), None)
                p = sub(hi, clen(ch))
                nit = mk("iter", kind, base, lo, p)
            else:
                ch = bound(app("charat", base, lo), 0, 0x10FFFF)
                p = lo
                nit = mk("iter", kind, base, add(lo, clen(ch)), hi)
            out.append((s, ch if kind == "chars" else tup(p, ch), nit))
            continue
        i = sub(hi, I(1)) if back else lo
        nit = mk("iter", kind, base, lo, i) if back else mk("iter", kind, base, add(lo, I(1)), hi)
        if kind == "sref":
            tid = None
            if et is not None and I_.p.types[et]["k"] == "ref":
                tid = I_.p.types[et]["to"]
            e = sub_addr_ref(I_, s, base, ("ix", i, tid), tid)
        elif kind == "sval":
            e = I_.settype(index(base, i), et)
        else:
            kt = vt = None
            if et is not None and I_.p.types[et]["k"] == "tuple":
                kt, vt = I_.p.types[et]["elems"]
            byval = kind in ("mapv", "mapkv", "mapvalv")
            kk = app("map_key", base, i)
            vv = app("map_val", base, i)
            if kind in ("mapk", "mapkv"):
                kt = et
            if kind in ("mapval", "mapvalv"):
                vt = et
            if not byval:
                def mkr(x, rt):
                    al = ("m", mk("cref", x))
                    if rt is not None:
                        I_.settype(x, I_.p.types[rt].get("to"))
                    s.mem[al] = x
                    return al[1]
                kk, vv = mkr(kk, kt), mkr(vv, vt)
            else:
                I_.settype(kk, kt)
                I_.settype(vv, vt)
            e = kk if kind in ("mapk", "mapkv") else vv if kind in ("mapval", "mapvalv") else tup(kk, vv)
        out.append((s, e, nit))
    return out


@m("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next(I_, st, c, a, d):
    addr = I_.point(a[0])
    it = I_.read(st, addr)
    back = c["name"] == "next_back"
    if it.op == "ref":
        return it_next(I_, st, c, [it], d)
    if it.op == "iter":
        et = opt_elem_type(I_, d)
        out = []
        for s, e, n in iter_step(I_, st, it, back, et):
            I_.write(s, addr, n)
            out.append((s, NONE if e is None else some(e)))
        return out
    if it.op == "adt" and it.a[0] == "core::iter::adapters::map::Map":
        s = st.copy()
        ial, iref = temp(I_, s, adt_field(it, "iter"))
        fal, fref = temp(I_, s, adt_field(it, "f"))
        r = it_next(I_, s, c, [iref], None)
        if r is None:
            return None
        out = []
        for s2, o in r:
            for s3, vn in split_opt(I_, s2, o):
                for s4, v in [(s3, NONE)] if vn == "None" else [(q, some(w)) for q, w in callf(I_, s3, fref, [fld(o, OPT, "Some", "0")])]:
                    s4 = s4.copy()
                    I_.write(s4, addr, adt(it.a[0], None, ("f", "iter"), (s4.mem[fal], s4.mem[ial])))
                    s4.mem.pop(ial), s4.mem.pop(fal)
                    out.append((s4, v))
        return out
    if it.op == "adt" and it.a[0] == "core::ops::range::Range" or "core::iter::range::" in c.get("rpath", "") and "Range<A>" in c.get("rpath", ""):
        p = "core::ops::range::Range"
        lo, hi = fld(it, p, None, "start"), fld(it, p, None, "end")
        out = []
        for s, b in I_.branch(st, lt(lo, hi)):
            if not b:
                out.append((s, NONE))
                continue
            s = s.copy()
            if back:
                x = sub(hi, I(1))
                nv = adt(p, None, ("end", "start"), (x, lo))
            else:
                x = lo
                nv = adt(p, None, ("end", "start"), (hi, add(lo, I(1))))
            I_.write(s, addr, nv)
            out.append((s, some(x)))
        return out
    return None


@m("core::iter::traits::exact_size::ExactSizeIterator::len")
def it_len(I_, st, c, a, d):
    it = C(I_, st, a[0]) if a[0].op != "ref" else I_.read(st, a[0].a)
    n = iter_len(it)
    return [(st, n)] if n is not None else None


def iter_len(it):
    if it.op == "iter" and it.a[0] not in ("chars", "char_indices"):
        return sub(it.a[3], it.a[2])
    if it.op == "adt" and it.a[0].startswith("core::iter::adapters::") and "iter" in it.a[2] and short(it.a[0]) in ("Enumerate", "Map", "Rev"):
        return iter_len(adt_field(it, "iter"))
    if it.op == "adt" and it.a[0].startswith("core::iter::adapters::") and "it" in it.a[2] and short(it.a[0]) in ("Copied", "Cloned"):
        return iter_len(adt_field(it, "it"))
    return None


@rx(r"^core::str::iter::(Chars|CharIndices)::<'a>::as_str$")
def chars_as_str(I_, st, c, a, d):
    it = I_.read(st, I_.point(a[0]))
    if it.op != "iter":
        return None
    return [(st, substr(it.a[1], it.a[2], it.a[3]))]


@rx(r"^core::slice::iter::Iter::<'a, T>::as_slice$")
def iter_as_slice(I_, st, c, a, d):
    it = I_.read(st, I_.point(a[0]))
    if it.op != "iter":
        return None
    return [(st, subseq(C(I_, st, it.a[1]), it.a[2], it.a[3]))]


def generic_iter(I_, c):
    t = targ(c, 0)
    return t is not None and I_.p.types[t]["k"] == "param"


def call_next(I_, st, c, itref):
    """call the resolved `next` -> [(state, opt)]"""
    it = I_.read(st, I_.point(itref))
    k = c.get("next")
    opt_t = None
    if k and k in I_.p.fns:
        opt_t = I_.p.fns[k]["locals"][0][0]
    elif k:
        opt_t = c.get("_opt")
    if it.op == "iter" or (it.op == "adt" and it.a[0] == "core::ops::range::Range"):
        return it_next(I_, st, {"name": "next", "rpath": ""}, [itref], opt_t)
    if k in I_.p.fns and k not in I_.stack:
        return I_.call_body(st.copy(), k, [itref])
    I_.atids = [None]
    return I_.opaque_call(st, "Iterator::next", [itref], opt_t, None, muts=[0])


def split_opt(I_, st, o):
    if o.op == "adt":
        return [(st, o.a[1])]
    if o in I_.tyof:
        return I_.split_variant(st, o, None)
    out = []
    for vn in ("None", "Some"):
        f = st.f.assume_variants(o, {vn}, ("None", "Some"))
        if f is not None:
            s = st.copy()
            s.f = f
            out.append((s, vn))
    return out


def item_loop(I_, st, c, itref, body, where):
    """loop { match it.next() { None => exit 'done', Some(x) => body } }
    body(state, x) -> [('cont', state)] | [('exit', value, state)]"""
    def it(s):
        backs, exits = [], []
        for s2, o in call_next(I_, s, c, itref):
            for s3, vn in split_opt(I_, s2, o):
                if vn == "None":
                    exits.append(("done", None, s3))
                    continue
                x = fld(o, OPT, "Some", "0")
                if o.op != "adt":
                    et = opt_elem_type(I_, I_.tyof.get(o))
                    I_.settype(x, et)
                for r in body(s3, x):
                    if r[0] == "cont":
                        backs.append(r[1])
                    else:
                        exits.append(("exit", r[1], r[2]))
        return backs, exits
    return I_.loop(st, it, where)


def temp(I_, st, v):
    al = ("t", I_.fresh())
    st.mem[al] = v
    return al, mk("ref", al, ())


def callf(I_, st, f, args):
    return I_.call_value(st, f, args, None)


@rx(r"^core::iter::traits::iterator::Iterator::(find|any|all|position|find_map|for_each|try_for_each|count|last|fold|try_fold|nth|sum|product|collect|partition|max|min)$",
    r"as core::iter::traits::iterator::Iterator>::(find|any|all|position|find_map|for_each|try_for_each|count|last|fold|try_fold|nth|sum|product|collect)$")
def sinks(I_, st, c, a, d):
    n = c["name"]
    f = SINKS.get(n)
    if f is None or (not c.get("next") and not generic_iter(I_, c)):
        return None
    st = st.copy()
    byref = n in ("find", "any", "all", "position", "find_map", "try_for_each", "try_fold", "nth")
    tmps = []
    if byref:
        itref = a[0]
    else:
        al, itref = temp(I_, st, a[0])
        tmps.append(al)
    r = f(I_, st, c, itref, a[1:], d, tmps)
    if r is None:
        return None
    out = []
    for s, v in r:
        s = s.copy()
        for al in tmps:
            v = v if al not in s.mem else v
            s.mem.pop(al, None)
        out.append((s, v))
    return out


def s_any(I_, st, c, it, a, d, tmps):
    want = c["name"] == "any"
    al, fref = temp(I_, st, a[0])
    tmps.append(al)

    def body(s, x):
        r = []
        for s2, v in callf(I_, s, fref, [x]):
            for s3, b in I_.branch(s2, v):
                r.append(("exit", TRUE if want else FALSE, s3) if b == want else ("cont", s3))
        return r
    return [(s, (FALSE if want else TRUE) if k == "done" else v) for k, v, s in item_loop(I_, st, c, it, body, "any")]


def s_find(I_, st, c, it, a, d, tmps):
    al, fref = temp(I_, st, a[0])
    tmps.append(al)

    def body(s, x):
        r = []
        s = s.copy()
        xal, xref = temp(I_, s, x)
        for s2, v in callf(I_, s, fref, [xref]):
            for s3, b in I_.branch(s2, v):
                s3 = s3.copy()
                s3.mem.pop(xal, None)
                r.append(("exit", some(x), s3) if b else ("cont", s3))
        return r
    return [(s, NONE if k == "done" else v) for k, v, s in item_loop(I_, st, c, it, body, "find")]


def s_find_map(I_, st, c, it, a, d, tmps):
    al, fref = temp(I_, st, a[0])
    tmps.append(al)

    def body(s, x):
        r = []
        for s2, v in callf(I_, s, fref, [x]):
            I_.settype(v, d)
            for s3, vn in I_.split_variant(s2, v, d):
                r.append(("exit", v, s3) if vn == "Some" else ("cont", s3))
        return r
    return [(s, NONE if k == "done" else v) for k, v, s in item_loop(I_, st, c, it, body, "find_map")]


def s_position(I_, st, c, it, a, d, tmps):
    al, fref = temp(I_, st, a[0])
    cal, cref = temp(I_, st, I(0))
    tmps += [al, cal]

    def body(s, x):
        r = []
        for s2, v in callf(I_, s, fref, [x]):
            for s3, b in I_.branch(s2, v):
                s3 = s3.copy()
                n = s3.mem[cal]
                if b:
                    r.append(("exit", some(n), s3))
                else:
                    s3.mem[cal] = add(n, I(1))
                    r.append(("cont", s3))
        return r
    return [(s, NONE if k == "done" else v) for k, v, s in item_loop(I_, st, c, it, body, "position")]


def s_for_each(I_, st, c, it, a, d, tmps):
    al, fref = temp(I_, st, a[0])
    tmps.append(al)
    tryy = c["name"] == "try_for_each"

    def body(s, x):
        r = []
        for s2, v in callf(I_, s, fref, [x]):
            if not tryy:
                r.append(("cont", s2))
                continue
            I_.settype(v, d)
            for s3, vn in I_.split_variant(s2, v, d):
                r.append(("cont", s3) if vn in ("Ok", "Some", "Continue") else ("exit", v, s3))
        return r
    done = UNIT
    if tryy:
        t = I_.p.types[d]["def"]
        done = ok(UNIT) if t == RES else some(UNIT) if t == OPT else adt(t, "Continue", ("0",), (UNIT,))
    return [(s, done if k == "done" else v) for k, v, s in item_loop(I_, st, c, it, body, "for_each")]


def s_fold(I_, st, c, it, a, d, tmps):
    acc, _ = temp(I_, st, a[0])
    al, fref = temp(I_, st, a[1])
    tmps += [acc, al]
    tryy = c["name"] == "try_fold"

    def body(s, x):
        r = []
        cur = s.mem[acc]
        for s2, v in callf(I_, s, fref, [cur, x]):
            if not tryy:
                s2 = s2.copy()
                s2.mem[acc] = v
                r.append(("cont", s2))
                continue
            I_.settype(v, d)
            for s3, vn in I_.split_variant(s2, v, d):
                if vn in ("Ok", "Some", "Continue"):
                    s3 = s3.copy()
                    t = I_.p.types[d]["def"]
                    s3.mem[acc] = fld(v, t, vn, "0")
                    r.append(("cont", s3))
                else:
                    r.append(("exit", v, s3))
        return r
    out = []
    for k, v, s in item_loop(I_, st, c, it, body, "fold"):
        if k == "done":
            x = s.mem[acc]
            if tryy:
                t = I_.p.types[d]["def"]
                x = ok(x) if t == RES else some(x) if t == OPT else adt(t, "Continue", ("0",), (x,))
            out.append((s, x))
        else:
            out.append((s, v))
    return out


def s_count(I_, st, c, it, a, d, tmps):
    cal, _ = temp(I_, st, I(0))
    tmps.append(cal)
    v = I_.read(st, I_.point(it))
    n = iter_len(v)
    if n is not None:
        return [(st, n)]

    def body(s, x):
        s = s.copy()
        s.mem[cal] = add(s.mem[cal], I(1))
        return [("cont", s)]
    return [(s, s.mem[cal]) for k, v, s in item_loop(I_, st, c, it, body, "count")]


def s_sum(I_, st, c, it, a, d, tmps):
    """additions in turn, from zero"""
    if d is None or I_.p.types[d]["k"] != "int":
        return None
    prod = c["name"] == "product"
    al, _ = temp(I_, st, I(1 if prod else 0))
    tmps.append(al)

    def body(s, x):
        s = s.copy()
        s.mem[al] = (mul if prod else add)(s.mem[al], C(I_, s, x))
        return [("cont", s)]
    return [(s, s.mem[al]) for k, v, s in item_loop(I_, st, c, it, body, "sum")]


def s_last(I_, st, c, it, a, d, tmps):
    cal, _ = temp(I_, st, NONE)
    tmps.append(cal)

    def body(s, x):
        s = s.copy()
        s.mem[cal] = some(x)
        return [("cont", s)]
    return [(s, s.mem[cal]) for k, v, s in item_loop(I_, st, c, it, body, "last")]


def insert_into(I_, s, acc, x, kind):
    cur = s.mem[acc]
    if kind == "vec":
        s.mem[acc] = push(cur, x)
    elif kind == "string":
        t = I_.tyof.get(x)
        isch = x.op == "int" or x in BOUNDS or (t is not None and I_.p.types[t]["k"] == "char")
        s.mem[acc] = string(cat(as_str(I_, cur), mk("chr", x) if isch else as_str(I_, I_.snap(s, x))))
    else:
        t = x
        k, v = I_.proj(t, ("f", None, None, "0", None)), I_.proj(t, ("f", None, None, "1", None))
        s.mem[acc] = insert(cur, normkey(I_, I_.snap(s, k)), I_.snap(s, v))


def coll_kind(I_, t):
    ty = I_.p.types[t]
    if ty["k"] != "adt":
        return None
    p = ty["def"]
    if p in ("alloc::vec::Vec",) or p.endswith("VecDeque"):
        return "vec", vec()
    if p == "alloc::string::String":
        return "string", string(S(""))
    if p.endswith(("BTreeMap", "HashMap")):
        return "map", mk("map")
    return None


def identity(I_, st, f, t):
    """a pure function that returns its argument"""
    if f.op not in ("fn", "clo"):
        return False
    x = sym("%item")
    I_.settype(x, t)
    s = st.copy()
    al, fref = temp(I_, s, f)
    n = len(I_.panics)
    r = callf(I_, s, fref, [x])
    ok = len(r) == 1 and r[0][1] is x and len(I_.panics) == n and r[0][0].f.d == st.f.d and all(r[0][0].mem.get(k) is v for k, v in st.mem.items())
    del I_.panics[n:]
    return ok


def local_from_iter(I_, t, item):
    """the crate's own FromIterator implementation for a type"""
    ty = I_.p.types[t]
    if ty["k"] != "adt" or not I_.p.adts.get(ty["def"], {}).get("local"):
        return None
    ks = [k for k in I_.p.fns if "FromIterator<" in k and f"for {ty['def']}>::from_iter" in k and "{" not in k]
    tupled = item is not None and I_.p.types[item]["k"] == "tuple"
    ks = [k for k in ks if ("FromIterator<(" in k) == tupled]
    return ks[0] if len(ks) == 1 else None


def s_collect(I_, st, c, it, a, d, tmps):
    ty = I_.p.types[d]
    if ty["k"] != "adt":
        return None
    wrap = None
    inner = d
    if ty["def"] in (RES, OPT):
        wrap = ty["def"]
        inner = ty["args"][0]
    ck = coll_kind(I_, inner)
    if ck is None:
        k = wrap is None and local_from_iter(I_, d, c.get("item"))
        if k:
            return I_.call_body(st.copy(), k, [I_.read(st, I_.point(it))])
        return None
    kind, empty = ck
    # an unmodified builtin by-value iterator over a vec is that vec
    itv = I_.read(st, I_.point(it))
    if kind == "vec" and wrap is None and itv.op == "adt" and itv.a[0].endswith("adapters::map::Map") and adt_field(itv, "iter").op == "iter" and identity(I_, st, adt_field(itv, "f"), ty["args"][0]):
        itv = adt_field(itv, "iter")
    if kind == "vec" and wrap is None and itv.op == "iter" and itv.a[0] == "sval":
        return [(st, subseq(itv.a[1], itv.a[2], itv.a[3]))]
    acc, _ = temp(I_, st, empty)
    tmps.append(acc)

    def body(s, x):
        if wrap is None:
            s = s.copy()
            insert_into(I_, s, acc, x, kind)
            return [("cont", s)]
        r = []
        if x.op != "adt" and x not in I_.tyof:
            I_.settype(x, d)
        for s2, vn in I_.split_variant(s, x, None):
            if vn in ("Ok", "Some"):
                s2 = s2.copy()
                p = fld(x, wrap, vn, "0")
                insert_into(I_, s2, acc, p, kind)
                r.append(("cont", s2))
            elif vn == "Err":
                r.append(("exit", err(fld(x, wrap, "Err", "0")), s2))
            else:
                r.append(("exit", NONE, s2))
        return r
    out = []
    for k, v, s in item_loop(I_, st, c, it, body, "collect"):
        if k == "done":
            x = s.mem[acc]
            I_.settype(x, inner)
            out.append((s, x if wrap is None else ok(x) if wrap == RES else some(x)))
        else:
            out.append((s, v))
    return out


SINKS = {"any": s_any, "all": s_any, "find": s_find, "find_map": s_find_map, "position": s_position, "for_each": s_for_each,
         "try_for_each": s_for_each, "fold": s_fold, "try_fold": s_fold, "count": s_count, "sum": s_sum, "product": s_sum, "last": s_last, "collect": s_collect}


@rx(r"core::iter::traits::collect::Extend<.*>>::extend$", r"^core::iter::traits::collect::Extend::extend$")
def extend(I_, st, c, a, d):
    t = targ(c, 0)
    ck = coll_kind(I_, t) if t is not None else None
    if ck is None or not c.get("next"):
        return None
    kind, _ = ck
    out = []
    for s0, itv in into_iter_value(I_, st, c, a[1]):
        s0 = s0.copy()
        addr = I_.point(a[0])
        acc, _ = temp(I_, s0, I_.read(s0, addr))
        ial, iref = temp(I_, s0, itv)

        def body(s, x):
            s = s.copy()
            insert_into(I_, s, acc, x, kind)
            return [("cont", s)]
        for k, v, s in item_loop(I_, s0, c, iref, body, "extend"):
            s = s.copy()
            I_.write(s, addr, s.mem[acc])
            s.mem.pop(acc, None)
            s.mem.pop(ial, None)
            out.append((s, UNIT))
    return out


def into_iter_value(I_, st, c, v):
    if v.op == "iter":
        return [(st, v)]
    k = c.get("into_iter")
    if k and k in I_.p.fns:
        return I_.call_body(st.copy(), k, [v])
    ts = [t for t in c.get("targs", []) if isinstance(t, int)]
    r = into_iter(I_, st, {"targs": ts[-1:], "name": "into_iter"}, [v], None)
    return r if r is not None else [(st, v)]


@m("core::iter::traits::collect::FromIterator::from_iter")
def from_iter(I_, st, c, a, d):
    if c.get("local") and c.get("key") in I_.p.fns:
        return None
    if not c.get("next"):
        return None
    out = []
    for s, itv in into_iter_value(I_, st, c, a[0]):
        s = s.copy()
        al, itref = temp(I_, s, itv)
        tm = [al]
        r = s_collect(I_, s, c, itref, [], d, tm)
        if r is None:
            return None
        for s2, v in r:
            s2 = s2.copy()
            for t in tm:
                s2.mem.pop(t, None)
            out.append((s2, v))
    return out


@m("serde::ser::SerializeMap::serialize_entry")
def serialize_entry(I_, st, c, a, d):
    """the provided method: the key, then the value"""
    t = targ(c, 0)
    if t is None or I_.p.types[t]["k"] != "adt" or c.get("key") in I_.p.fns:
        return None
    ks = [I_.p.key_of(f"<{I_.p.types[t]['def']} as serde::ser::SerializeMap>::{n}") for n in ("serialize_key", "serialize_value")]
    if any(k not in I_.p.fns for k in ks):
        return None
    out = []
    for s, v in I_.call_body(st.copy(), ks[0], [a[0], a[1]]):
        I_.settype(v, d)
        for s2, vn in I_.split_variant(s, v, d):
            if vn == "Err":
                out.append((s2, v))
            else:
                out += I_.call_body(s2.copy(), ks[1], [a[0], a[2]])
    return out


# ---- formatting --------------------------------------------------------------

@rx(r"^core::fmt::Arguments::<'a>::new$", r"^core::fmt::rt::<impl core::fmt::Arguments<'_>>::new.*$")
def fmt_new(I_, st, c, a, d):
    xs = [C(I_, st, x) for x in a]
    r = fmt_decode(xs)
    return [(st, r if r is not None else mk("fmt", *xs))]


def fmt_decode(xs):
    """the formatted text as a concatenation of its pieces"""
    if len(xs) != 2 or xs[0].op not in ("bytes", "str") or xs[1].op != "vec":
        return None
    b = xs[0].a[0]
    b = b.encode() if isinstance(b, str) else bytes(b)
    args = xs[1].a
    if any(x.op != "disp" for x in args):
        return None
    r, i, nxt = S(""), 0, 0

    def u16():
        nonlocal i
        i += 2
        return int.from_bytes(b[i - 2:i], "little")
    try:
        while b[i] != 0:
            n = b[i]
            i += 1
            if n <= 0x80:
                k = n if n < 0x80 else u16()
                r = cat(r, S(b[i:i + k].decode()))
                i += k
                continue
            flags = 0
            if n & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            width = u16() if n & 2 else None
            prec = u16() if n & 4 else None
            ix = u16() if n & 8 else nxt
            nxt = ix + 1
            x = args[ix]
            if n & 0x37 == 0 and x.a[0] == "new_display":
                r = cat(r, x.a[1])
                continue
            w = args[width] if n & 16 else I(width) if width is not None else NONE
            p = args[prec] if n & 32 else I(prec) if prec is not None else NONE
            r = cat(r, mk("spec", x, I(flags), w, p))
    except (IndexError, UnicodeDecodeError):
        return None
    return r


@rx(r"^core::fmt::Arguments::<'a>::from_str$", r"^core::fmt::rt::<impl .*from_str$")
def fmt_str(I_, st, c, a, d):
    return [(st, strval(I_, st, a[0]))]


@rx(r"^core::fmt::rt::Argument::<'_>::(new_\w+|from_usize)$")
def fmt_arg(I_, st, c, a, d):
    x = C(I_, st, a[0])
    if c["name"] == "new_display":
        x = tostr(I_, x, targ(c, 0))
    elif isstrlike(I_, x):
        x = as_str(I_, x)
    return [(st, mk("disp", c["name"], x))]


@m("core::fmt::Write::write_fmt", "core::fmt::Formatter::<'a>::write_fmt")
def write_fmt(I_, st, c, a, d):
    """a formatted write is a write of the formatted text"""
    if c.get("local") and c.get("key") in I_.p.fns:
        return None
    x = C(I_, st, a[1])
    if x.op == "fmt":
        return None
    c = dict(c)
    for k in ("path", "rpath", "name", "key"):
        if isinstance(c.get(k), str):
            c[k] = c[k].replace("write_fmt", "write_str")
    return I_.call_fn(st, c, [a[0], x], d)


@m("alloc::fmt::format")
def fmt_format(I_, st, c, a, d):
    return [(st, string(C(I_, st, a[0])))]


@m("core::str::<impl str>::eq", "core::str::traits::<impl core::cmp::PartialEq for str>::eq")
def str_eq(I_, st, c, a, d):
    return [(st, streq(strval(I_, st, a[0]), strval(I_, st, a[1])))]


FWRITE = "core::fmt::Formatter::<'a>::write_str"


@m(FWRITE)
def formatter_write(I_, st, c, a, d):
    """what goes to a formatter piece by piece goes to it as one text: a write
    that follows a successful one is counted to it (see also equiv.failed_prefix)"""
    addr = I_.point(a[0])
    w = C(I_, st, a[0])
    if not (w.op == "app" and w.a[0] == FWRITE + "#0") or st.f.d.get(("v", mk("app", FWRITE, *w.a[1:]))) != {"Ok"}:
        return None
    st = st.copy()
    I_.write(st, addr, w.a[1])
    return I_.opaque_call(st, FWRITE, [a[0], cat(w.a[2], strval(I_, st, a[1]))], d, c)


@rx(r"^core::fmt::Formatter::<'a>::(alternate|width|precision|fill|sign_plus|sign_minus|sign_aware_zero_pad|align)$")
def formatter_flag(I_, st, c, a, d):
    """writing does not change the options of a formatter"""
    w = C(I_, st, a[0])
    if not (w.op == "app" and w.a[0] == FWRITE + "#0"):
        return None
    while w.op == "app" and w.a[0] == FWRITE + "#0":
        w = w.a[1]
    r = mk("app", I_.opname(c, c["rpath"]), w)
    I_.settype(r, d)
    return [(st, r)]
