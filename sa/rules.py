"""Property-specific static rules. Each takes the context (current and
reference programs) and reports constructs that break its property."""
import re
from terms import *


# -- helpers ------------------------------------------------------------------
def named_fns(f):
    """every function constant and closure named in a body"""
    st = [b for b in f["blocks"] if b is not None]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            fn = x.get("fn")
            if isinstance(fn, dict):
                yield fn
            st.extend(x.values())
        elif isinstance(x, list):
            if len(x) > 1 and x[0] == "closure" and isinstance(x[1], str):
                yield {"key": x[1], "path": x[1], "rpath": x[1], "closure": True}
            st.extend(x)


def owner(path):
    return path.split("::{")[0]


def local_fns(p):
    return {k: f for k, f in p.fns.items() if f["local"]}


def sccs(g):
    """strongly connected components with a cycle (iterative Tarjan)"""
    idx, low, on, stk, out = {}, {}, set(), [], []
    for root in sorted(g):
        if root in idx:
            continue
        work = [(root, iter(sorted(g.get(root, ()))))]
        idx[root] = low[root] = len(idx)
        stk.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    stk.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stk.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in g.get(v, ()):
                        out.append(sorted(c))
    return out


def owned_adts(p, tid, seen=None):
    """local data types a value of this type owns"""
    seen = set() if seen is None else seen
    out, st = set(), [tid]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        t = p.types[i]
        k = t["k"]
        if k == "adt":
            a = p.adts.get(t["def"])
            if a and a.get("local"):
                out.add(t["def"])
            st += [x for x in t.get("args", []) if isinstance(x, int)]
        elif k in ("tuple", "closure"):
            st += t.get("elems", [])
        elif k in ("array", "slice"):
            st.append(t["to"] if "to" in t else t["elem"])
    return out


def families(p):
    """data types that own values of themselves -> representative of the family"""
    g = {}
    for name, a in p.adts.items():
        if not a.get("local"):
            continue
        g[name] = set()
        for v in a["variants"]:
            for f in v["fields"]:
                g[name] |= owned_adts(p, f["ty"])
    out = {}
    for c in sccs(g):
        rep = next((x for x in ("value::Value", "types::ast::Stmt", "types::ast::Expr") if x in c), c[0])
        for x in c:
            out[x] = rep
    return out


def peeled(p, tid):
    t = p.types[tid]
    while True:
        if t["k"] in ("ref", "ptr"):
            tid = t["to"]
        elif t["k"] == "adt" and t["def"] == "alloc::boxed::Box":
            tid = t["args"][0]
        else:
            return tid
        t = p.types[tid]


# -- C13 ------------------------------------------------------------------------
def recursion(ctx):
    p = ctx.cur
    fam, rfam = families(p), families(ctx.ref)
    # a data type that newly owns itself is dropped, cloned and compared recursively
    for x in sorted(set(fam.values())):
        ctx.count("self_owning_types")
        if x not in rfam.values() and not (set(k for k, v in fam.items() if v == x) & set(rfam)):
            ctx.bad(f"recursive data: {x}", "a value of this type owns values of its own type; dropping one recurses once per link, "
                    "so its length must not depend on the length of the source, the data or the include depth")
    g, at = {}, {}
    for k, f in p.fns.items():
        if not f["local"]:
            continue
        o = owner(f["path"])
        g.setdefault(o, set())
        ctx.count("functions")
        for fn in named_fns(f):
            if fn.get("key") in p.fns and p.fns[fn["key"]]["local"]:
                tp = p.fns[fn["key"]]["path"]
                t = owner(tp)
                if t != o or t == tp:
                    g[o].add(t)
                    ctx.count("call_edges")
    for c in sccs(g):
        ctx.count("call_cycles")
        derived = all(x.startswith("<") and re.search(r" as core::(clone|cmp|fmt|hash|ops::drop)", x) for x in c)
        if derived:
            reps = {fam.get(y) for x in c for y in owned_adts(p, peeled(p, arg0(p, x)))} - {None}
        else:
            reps = None
            for x in c:
                f = p.fns[unit_key(p, x)]
                mine = set()
                for i in range(1, f["argc"] + 1):
                    tid = peeled(p, f["locals"][i][0])
                    t = p.types[tid]
                    if t["k"] == "adt" and t["def"] in fam:
                        mine.add(fam[t["def"]])
                reps = mine if reps is None else reps & mine
        rep = next((r for r in ("value::Value", "types::ast::Stmt", "types::ast::Expr") if reps and r in reps), None)
        if rep and not derived:
            # each turn of the recursion has to go one construct (one value) deeper: without the
            # functions that are given one of them nothing may be left that calls itself
            inner = {x: {y for y in g[x] if y in c} for x in c if not takes(p, x, rep) and not owned_part(p, x, fam, rep)}
            for left in sccs({x: {y for y in ys if y in inner} for x, ys in inner.items()}):
                ctx.bad("recursion: " + ", ".join(left), f"cycle in the call graph that does not go through a {rep} on every turn: " + " -> ".join(left + left[:1]))
        if rep == "value::Value":
            continue
        if rep:
            ctx.bad(f"recursion over {rep}", "cycle in the call graph: " + " -> ".join(c + c[:1]))
        else:
            ctx.bad("recursion: " + ", ".join(c), "cycle in the call graph that no nesting of one template's constructs or one value bounds: " + " -> ".join(c + c[:1]))
    ctx.samples.append({"self_owning_types": sorted(set(fam.values()))})


def takes(p, path, rep):
    """is this function given one value of the type (owned, borrowed or boxed)?"""
    f = p.fns[unit_key(p, path)]
    return any(p.types[t]["k"] == "adt" and p.types[t]["def"] == rep for t in (peeled(p, f["locals"][i][0]) for i in range(1, f["argc"] + 1)))


def owned_part(p, path, fam, rep):
    """is this function given another type of the family, and makes none itself?"""
    f = p.fns[unit_key(p, path)]
    tys = [p.types[peeled(p, f["locals"][i][0])] for i in range(1, f["argc"] + 1)]
    if not any(t["k"] == "adt" and fam.get(t["def"]) == rep for t in tys):
        return False
    st = [b for k, h in p.fns.items() if owner(h["path"]) == path for b in h["blocks"] if b is not None]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            st.extend(x.values())
        elif isinstance(x, list):
            if len(x) > 1 and x[0] == "adt" and isinstance(x[1], str) and fam.get(x[1]) == rep:
                return False
            st.extend(x)
    return True


def unit_key(p, path):
    return p.key_of(path) or p.bypath[path][0]


def arg0(p, path):
    f = p.fns[unit_key(p, path)]
    return f["locals"][1][0] if f["argc"] else f["locals"][0][0]


# -- C14 ------------------------------------------------------------------------
MUTABLE = re.compile(r"core::cell::|core::sync::atomic::|sync::(poison::|nonpoison::)?(mutex|rwlock|once|lazy_lock|once_lock|condvar|mpsc|mpmc|reentrant_lock)|std::sync::mpsc|"
                     r"\b(Mutex|RwLock|OnceLock|LazyLock|OnceCell|LazyCell|RefCell|UnsafeCell|LocalKey|Atomic\w+)<|\bAtomic[A-Z]\w*")
AMBIENT = re.compile(r"^<?(std::(time|env|process|thread|fs|net|random|os)::|std::io::stdio|std::io::stdin|core::ptr::(addr_eq|eq|fn_addr_eq)\b|"
                     r"std::(hash|collections::hash)::\w*::?(RandomState|DefaultHasher)|std::hash::random)|RandomState|DefaultHasher|::ptr_eq$|::expose_provenance$|"
                     r"::(addr)$|fmt::Pointer|available_parallelism|Instant::now|SystemTime")
HASHITER = re.compile(r"(std::collections::hash|hashbrown)")
HASHORDER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|extract_if|next|fmt)$")


def type_strings(p, tid):
    return p.tname(tid)


def purity(ctx):
    p = ctx.cur
    # 1. no interior mutability inside any type of the crate
    for name, a in sorted(p.adts.items()):
        if not a.get("local"):
            continue
        ctx.count("types")
        for v in a["variants"]:
            for f in v["fields"]:
                ctx.count("fields")
                if MUTABLE.search(p.tname(f["ty"])):
                    ctx.bad(f"interior mutability: {name}.{f['name']}", f"field of type {p.tname(f['ty'])} can change behind a shared reference ({a['span']})")
    # 2. functions
    for k, f in sorted(p.fns.items()):
        if not f["local"]:
            continue
        ctx.count("functions")
        o = owner(f["path"])
        for fn in named_fns(f):
            q = fn.get("rpath") or fn.get("path") or ""
            ctx.count("calls")
            if fn.get("local"):
                continue
            if AMBIENT.search(q):
                ctx.bad(f"{o}: ambient input", f"calls {q}: its result does not depend on the source, configuration and data alone")
            if HASHITER.search(q) and HASHORDER.search(q) and "core::convert::From<std::collections::hash" not in o and "core::iter::traits::collect::FromIterator" not in q:
                ctx.bad(f"{o}: unordered iteration", f"calls {q}: the order of a hash table differs between runs")
        st = [b for b in f["blocks"] if b is not None]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                st.extend(x.values())
            elif isinstance(x, list):
                if len(x) > 2 and x[0] == "const" and isinstance(x[2], dict) and "static" in x[2]:
                    tn = p.tname(x[1])
                    ctx.count("static_uses")
                    if tn.startswith("*mut") or MUTABLE.search(tn):
                        ctx.bad(f"{o}: mutable static {x[2]['static']}", f"uses a static of type {tn}")
                if x and x[0] == "tls":
                    ctx.bad(f"{o}: thread local {x[1]}", "state that survives the call and differs between threads")
                if x and x[0] == "cast" and isinstance(x[1], str) and "ExposeProvenance" in x[1] and "FnPtr" not in x[1]:
                    ctx.bad(f"{o}: address used as a number", "the address of data differs between runs")
                st.extend(x)
        # 3. closures the crate stores must not carry mutable state of their own
        for i, l in enumerate(f["locals"]):
            t = p.types[l[0]]
            if t["k"] == "closure":
                for e in t["elems"]:
                    et = p.types[e]
                    if et["k"] not in ("ref", "ptr") and MUTABLE.search(et["s"]):
                        ctx.bad(f"{o}: closure with state", f"{t['s'][:200]} captures {et['s']}")
            if re.search(r"std::thread::local::LocalKey|&'?\w* ?core::sync::atomic|(LazyLock|OnceLock|lazy_lock|once_lock)", t["s"]):
                ctx.bad(f"{o}: global state", f"a value of type {t['s']} outlives the call")
    # 4. no unsafe code, so nothing behind a shared reference is written
    for path, span in p.d["unsafe"]:
        ctx.bad(f"{owner(path)}: unsafe block", f"{span}: unsafe code can change what the caller only lent")
    # 5. maps keep their keys in order
    v = p.adts.get("value::Value")
    for x in (v["variants"] if v else ()):
        if x["name"] == "Map":
            tn = p.tname(x["fields"][0]["ty"])
            ctx.count("map_representation")
            if not re.search(r"BTreeMap<", tn):
                ctx.bad("value::Value::Map is not ordered", f"the map of a value is {tn}")


def autos(ctx):
    cur = {a["path"]: a for a in ctx.cur.d["autos"]}
    for a in ctx.ref.d["autos"]:
        b = cur.get(a["path"])
        if b is None:
            continue
        ctx.count("types_shareable", int(a["send"] and a["sync"]))
        for q, what in (("send", "Send"), ("sync", "Sync"), ("freeze", "free of interior mutability")):
            if a[q] and not b[q]:
                ctx.bad(f"{a['path']}: no longer {what}", f"{a['path']} was {what}; engines and templates holding it cannot be shared between threads or change behind a shared reference")


# -- C08, C09, C28 ----------------------------------------------------------------
BUFFER = re.compile(r"(BufWriter|LineWriter)(::)?<.*>::(new|with_capacity)$|(BufWriter|LineWriter)(::<.*>)?::(new|with_capacity)$")
DRAIN = re.compile(r"::(flush|into_inner|into_parts|flush_buf)$")


def buffered(ctx):
    """bytes put in a buffered writer are lost, and the error with them, when
    the writer is only dropped: whoever makes one has to drain it"""
    p = ctx.cur
    makes, drains, g = {}, set(), {}
    for f in p.fns.values():
        if not f["local"]:
            continue
        o = owner(f["path"])
        for fn in named_fns(f):
            q = fn.get("rpath") or fn.get("path") or ""
            ctx.count("calls")
            if fn.get("local") or fn.get("closure"):
                g.setdefault(o, set()).add(owner(q))
                g.setdefault(owner(q), set()).add(o)
            elif BUFFER.search(q):
                makes[o] = q
            elif DRAIN.search(q) or DRAIN.search(fn.get("path") or ""):
                drains.add(o)
    for o, q in sorted(makes.items()):
        if not ({o} | g.get(o, set())) & drains:
            ctx.bad(f"{o}: buffered writer never flushed", f"makes a buffered writer ({q}) and drops it undrained: an error on its last bytes is lost")


# -- C30 --------------------------------------------------------------------------
def macro(ctx):
    """what the public macro expands to in every witness, compared with the reference"""
    import dump as dumper
    import verdict
    try:
        cur = verdict.load_cur(witness=True)
    except dumper.BuildFailed as e:
        err = [l for l in str(e).split("\n") if l.startswith("error")]
        ctx.bad("witness: a use of value! is no longer accepted", "\n".join(err[:5]) or str(e)[-600:])
        return
    s = verdict.Suite(cur, verdict.load_ref("wit.json.gz"))
    s.want_panics, s.budget, s.hard, s.strict = True, ctx.s.budget, ctx.s.hard, True
    for u in sorted(s.rk):
        ctx.count("macro_uses")
        v = s.verdict(u) if u in s.units else verdict.Verdict(u, "absent")
        if v.status == "undecided":
            ctx.count("macro_uses_undecided")
        elif v.status != "equal":
            ctx.bad(f"witness {u}: value! builds another value than the one written", "\n".join(repr(m)[:1200] for m in v.mism[:2]))
        elif len(ctx.samples) < 5:
            ctx.samples.append({"witness": u, "rows": len(s.table("cur", u).rows)})
    ctx.s.stats["rows"] += s.stats["rows"]
    ctx.s.stats["pairs"] += s.stats["pairs"]
    ctx.s.stats["analysed"] |= {"witness::" + u for u in s.stats["analysed"]}
