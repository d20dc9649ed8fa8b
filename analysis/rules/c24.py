"""C24 Unsafe code never exposes uninitialised or out-of-bounds memory."""
from engine import State, Panic, C, RES, OPT, TRUE, FALSE, ok, contains
from prov import prov_engine, calls_in
from lin import strip
from transport import Anchor
from rules.util import where
from rules.c12 import isc, last
from rules.c17 import resolve, SIZE
from rules.c22 import panics
from vecs import truth
from wire import norm, rounds

TECHNIQUE = "abstract interpretation over MIR with polynomial bounds: every raw read is shown to lie inside the region its pointer was taken from"
RULE = ("Every raw read a typed row reader makes (constructor, next, nth) lies within the rows its constructor obtained, where the bound on the "
        "reader's position is an invariant found among its own fields and shown to be kept by next and nth; a column hands out a pointer together "
        "with the length of what it points to; a raw view, copy or foreign call covers only the buffer its pointer was taken from; a buffer grown "
        "without being initialised is filled before it is returned, and never beyond its capacity; bytes from the server become only values of "
        "types every bit pattern of which is one; a dictionary column is accepted only if every key is below the dictionary's length; a pooled "
        "string's chunk, shift and length delimit a bounds-checked slice of a chunk that is never shortened.")
ASSUMPTIONS = ["The element type of a typed reader is the one the column stores (decided by C19).",
               "A byte vector behind an IP, UUID or FixedString column is a whole number of rows long (decided by C17).",
               "A row of a FixedString column is at least one byte.",
               "Offsets into array and map columns are checked by the slice they index (safe indexing); only raw reads are analysed."]
SELF = ("a", "arg", "self")


# ---------------------------------------------------------------- polynomials
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def pdiv(a, b):
    """a / b for a single-term b dividing every term of a; None otherwise."""
    if len(b) != 1:
        return None
    (m, c), = b.items()
    r = {}
    for n, d in a.items():
        n = list(n)
        if d % c:
            return None
        for x in m:
            if x not in n:
                return None
            n.remove(x)
        r[tuple(n)] = d // c
    return r


def const(n):
    return {(): n} if n else {}


def atom(v):
    return {(v,): 1}


def unp(v):
    """Looks through casts of numbers and pointers."""
    while isinstance(v, tuple) and v and (v[0] == "cast" and (v[1] in ("usize", "u64", "i64", "isize", "u32", "u128") or v[1].startswith("*")) or v[0] == "ptrcast"):
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == "ref" and v[1][0][0] == "H" and not v[1][1]:
        return unp(v[1][0][1])
    if isc(v, "cast", "cast_mut", "cast_const", "as_ptr_range") and len(v[3]) == 1 and "ptr" in v[2]:
        return unp(v[3][0])
    return v


def poly(v, sub=None):
    v = unp(v)
    if sub:
        r = sub(v)
        if r is not None:
            return r
    if v[0] == "c" and isinstance(v[1], int):
        return const(int(v[1]))
    if v[0] == "op" and len(v) == 4:
        o = v[1].replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Add", "PAdd"):
            return padd(poly(v[2], sub), poly(v[3], sub))
        if o == "Sub":
            return padd(poly(v[2], sub), poly(v[3], sub), -1)
        if o == "Mul":
            return pmul(poly(v[2], sub), poly(v[3], sub))
        if o == "Div":
            r = pdiv(poly(v[2], sub), poly(v[3], sub))
            if r is not None:
                return r
    if v[0] == "fld" and v[2] == "0" and v[1][0] == "op" and v[1][1].endswith("WithOverflow"):
        return poly(("op", v[1][1][:-12]) + v[1][2:], sub)
    if isc(v, "as_ptr", "as_mut_ptr") and len(v[3]) == 1 and not v[2].startswith("mut:"):
        return atom(("a", "call", "as_ptr", (thing(v[3][0]),)))
    return atom(v)


def thing(x):
    """What a pointer or reference leads to, however it is written."""
    while True:
        y = unp(x)
        if isinstance(y, tuple) and y and y[0] == "deref":
            y = y[1]
        if y == x:
            return x
        x = y


def positive(x):
    """A row's width is not zero (a FixedString(0) has no readable rows)."""
    return x[:2] == ("a", "sizeof") or x[0] == "fld" and x[1][0] == "dc" and x[1][2] == "FixedString"


def reduce(p):
    """p divided by the number and row width all its terms have in common (for comparisons with zero)."""
    if not p:
        return p
    from math import gcd
    g = 0
    for c in p.values():
        g = gcd(g, c)
    ms = list(p)
    common = list(ms[0])
    for m in ms[1:]:
        m = list(m)
        k = []
        for x in common:
            if x in m:
                m.remove(x)
                k.append(x)
        common = k
    return pdiv(p, {tuple(x for x in common if positive(x)): g})


def known(facts, sub, inv):
    """Polynomials known not to be negative."""
    out = [p for p in inv]
    ne = []
    for t, x in facts.items():
        if x[0] != "=" or not isinstance(t, tuple) or t[0] != "op" or len(t) != 4:
            continue
        v = x[1] in (True, 1)
        if t[1] in ("Lt", "Eq"):
            a, b = poly(t[2], sub), poly(t[3], sub)
            d = padd(b, a, -1)
            if t[1] == "Lt":
                out.append(padd(d, const(-1)) if v else padd({}, d, -1))
            elif v:
                out += [d, padd({}, d, -1)]
            else:
                ne.append(d)
    for t, x in facts.items():
        if x[0] == "=" and isinstance(x[1], int) and not isinstance(x[1], bool) and isinstance(t, tuple) and t[0] != "discr":
            d = padd(poly(t, sub), const(x[1]), -1)
            out += [d, padd({}, d, -1)]
        if x[0] == "!=" and isinstance(t, tuple) and t[0] != "discr":
            for k in (x[1] if isinstance(x[1], (tuple, list, set, frozenset)) else (x[1],)):
                if isinstance(k, int):
                    ne.append(padd(poly(t, sub), const(k), -1))
    for _ in range(2):
        for d in ne:
            for s in (1, -1):
                q = reduce(padd({}, d, s))
                for F in list(out):
                    if q == reduce(F):
                        out.append(padd(q, const(-1)))
    return out


def nonneg(p, forms):
    def pos(q):
        return all(c >= 0 for c in q.values())
    for q in (p, reduce(p)):
        if q is None:
            continue
        if pos(q):
            return True
        for F in forms:
            if pos(padd(q, F, -1)) or pos(padd(q, reduce(F), -1)):
                return True
    return False


# ---------------------------------------------------------------- one run
class Run:
    """An engine in which pointer arithmetic is symbolic and raw reads are recorded."""

    def __init__(self, f, inline):
        self.f = f
        e = self.e = prov_engine(f, inline)
        e.no_widen = True
        e.gc_returns = False
        e.head_hook = rounds(1)
        e.hooks.append(self.hook)
        self.access = None
        self.inits = {}
        e.deref_hook = self.deref

    def width(self, t):
        n = self.e.ty_name(t)
        return SIZE.get(n)

    def deref(self, st, v, p, n):
        b = self.f.bodies[self.e.stack[-1][0]]
        if self.access is None:
            return
        t = b.l[p[0]] if n == 0 else p[1][n - 1][2] if p[1][n - 1][0] == "." and len(p[1][n - 1]) > 2 else None
        if t is None or self.f.tk(t) != "ptr":
            return
        w = self.width(self.f.peel(t))
        if w is None:
            return
        self.access(st, v, const(w), b.p)

    def hook(self, e, st, call):
        f = self.f
        n = call.name
        if n == "len" and call.trait and call.trait.endswith("ExactSizeIterator"):
            b = impl_of(f, "ExactSizeIterator", f.peel(call.argts[0]), "len")
            if b is not None:
                a = call.args[0]
                x = e.rd(st, a)
                return e.call_body(st, b, [x if x[0] == "ref" else a], call.site)
        if n in ("add", "offset", "sub", "wrapping_add", "wrapping_offset", "byte_add") and "ptr" in call.p and len(call.args) == 2:
            w = 1 if n == "byte_add" else self.width(f.peel(call.argts[0]))
            k = e.deep(st, call.args[1])
            if w is None:
                k = ("op", "Mul", k, ("a", "sizeof", e.ty_name(f.peel(call.argts[0]))))
            elif w != 1:
                k = ("op", "Mul", k, C(w))
            if n == "sub":
                k = ("op", "Sub", C(0), k)
            return [(st, ("op", "PAdd", norm(call.args[0]), norm(k)))]
        if n in ("from_raw_parts", "from_raw_parts_mut") and "slice" in call.p:
            a = call.info.get("a") or []
            w = self.width(a[0]) if a else None
            c = norm(e.deep(st, call.args[1]))
            s = st.copy()
            if self.access is not None:
                self.access(s, norm(call.args[0]), ("n", c, C(w) if w is not None else ("a", "sizeof", e.ty_name(a[0]) if a else "?")), e.stack[-1][0])
            return [(s, ("a", "call", call.path, (norm(call.args[0]), c)))]
        if n in ("get_unchecked", "get_unchecked_mut") and "slice" in call.p:
            s = st.copy()
            c = norm(e.deep(st, call.args[0])), norm(e.deep(st, call.args[1]))
            if self.access is not None:
                self.access(s, ("a", "elem", c[0]), ("index", c[1]), e.stack[-1][0])
            return [(s, ("a", "call", call.path, c))]
        if n == "size_of_val" and call.info.get("a") and f.ts(call.info["a"][0]).startswith("["):
            t = f.types[call.info["a"][0]].get("t") if f.tk(call.info["a"][0]) == "slice" else None
            t = t if t is not None else (f.targs(call.info["a"][0]) or [None])[0]
            x = norm(e.deep(st, call.args[0]))
            if t is not None:
                return [(st, ("op", "Mul", ("op", "len", thing(x)), C(self.width(t)) if self.width(t) is not None else ("a", "sizeof", e.ty_name(t))))]
        if n == "size_of" and call.info.get("a"):
            w = self.width(call.info["a"][0])
            return [(st, C(w) if w is not None else ("a", "sizeof", e.ty_name(call.info["a"][0])))]
        return None


def impl_of(f, tr, t, m):
    if f.tk(t) != "adt":
        return None
    for name, l in f.timpls.items():
        if name.endswith(tr):
            for selft, items, im in l:
                if f.tk(selft) == "adt" and f.tdef(selft) == f.tdef(t) and m in items:
                    return f.bodies.get(items[m])
    return None


# ---------------------------------------------------------------- typed readers
WIDTH = dict(SIZE, **{"std::vec::Vec<T>": 8, "std::collections::HashMap<K, V>": 8, "std::option::Option<T>": 1, "chrono::NaiveDate": 2,
                      "std::net::Ipv4Addr": 4, "std::net::Ipv6Addr": 16, "uuid::Uuid": 16})


class Region:
    """The rows a reader obtained: base pointer, number of rows, and bytes per row as far as the path tells."""

    def __init__(self, f, rust):
        self.f = f
        self.rust = rust

    def width(self, st, k):
        t = self.rust
        if t in WIDTH:
            return const(WIDTH[t])
        if t == "types::decimal::Decimal":
            d = st.facts.get(("discr", ("a", "slot", k, 2)))
            return const({0: 4, 1: 8}[d[1]]) if d and d[0] == "=" else None
        if t in ("chrono::DateTime<chrono_tz::Tz>", "chrono::NaiveDateTime"):
            d = st.facts.get(("discr", ("a", "prec", k)))
            return const({0: 4, 1: 8}[d[1]]) if d and d[0] == "=" else None
        if t == "&[u8]":
            return atom(("fld", ("dc", ("a", "arg", "column_type"), "FixedString"), "0"))
        return None

    def bases(self, p):
        """(k, offset) if the pointer is one base plus an offset."""
        bs = [(m, c) for m, c in p.items() if len(m) == 1 and self.base(m[0]) is not None]
        if len(bs) != 1 or bs[0][1] != 1:
            return None
        m = bs[0][0]
        k = self.base(m[0])
        return k, {n: c for n, c in p.items() if n != m}, m

    def base(self, a):
        if isinstance(a, tuple) and a[:2] == ("a", "mem"):
            return a[2]
        if isc(a, "as_ptr", "as_mut_ptr") and not a[2].startswith("mut:"):
            x = unp(a[3][0])
            while isinstance(x, tuple) and x and x[0] == "deref":
                x = unp(x[1])
            if x[:2] == ("a", "mem"):
                return x[2]
        return None

    def sub(self, st):
        """The length of the byte vector a reader was handed is its number of rows times the width."""
        def r(v):
            if v[0] == "op" and v[1] == "len" and len(v) == 3 or isc(v, "len") and len(v[3]) == 1:
                x = unp(v[2] if v[0] == "op" else v[3][0])
                while isinstance(x, tuple) and x and x[0] == "deref":
                    x = unp(x[1])
                if isinstance(x, tuple) and x[:2] == ("a", "mem"):
                    w = self.width(st, x[2])
                    if w is not None:
                        return pmul(w, atom(("a", "cnt", x[2])))
            return None
        return r


def slots(f, e, st, call):
    """get_internal and get_internals hand out the rows of a column."""
    n = call.name
    if n not in ("get_internal", "get_internals"):
        return None
    k = sum(1 for o in st.obs if o[0] == "region")
    bad = st.copy()
    s = st.copy()
    s.obs = s.obs + (("region", k),)
    if n == "get_internals":
        t = f.ts(f.peel(call.argts[1]))
        loc = e.deref(s, call.args[1])
        if "DateTimeInternals" in t:
            v = ("adt", t, None, (("begin", ("a", "mem", k)), ("len", ("a", "cnt", k)), ("precision", ("a", "prec", k)), ("tz", ("a", "tz", k))), None)
        else:
            v = ("a", "internals", k)
        e.write_loc(s, loc, v)
        return [(s, ok(("tup", ()))), (bad, ("adt", RES, "Err", (("0", ("a", "error")),), None))]
    arr = e.deep(s, call.args[1])
    if arr[0] != "arr":
        return None
    for i, p in enumerate(arr[1]):
        cnt = False
        while p[0] in ("cast", "ptrcast"):
            cnt = cnt or "usize" in p[1]
            p = p[2]
        if p[0] != "ref":
            return None
        v = ("a", "mem", k) if i == 0 else ("a", "cnt", k) if is_count(f, e, p, s, i, len(arr[1])) else ("a", "slot", k, i)
        e.write_loc(s, p[1], v)
    return [(s, ok(("tup", ()))), (bad, ("adt", RES, "Err", (("0", ("a", "error")),), None))]


def is_count(f, e, p, st, i, n):
    """Is this slot a number (it is initialised with one)?"""
    v = e.read_loc(st, p[1])
    return v[0] == "c" and isinstance(v[1], int)


def readers(ctx, f, flag):
    impls = [(f.ts(t), items["iter_with_props"]) for tr, l in f.timpls.items() if tr.endswith("::Iterable") for t, items, im in l
             if "iter_with_props" in items and items["iter_with_props"] in f.bodies]
    ctx.floor("typed readers", len(impls), 15)
    checked = 0
    for rust, p in sorted(impls):
        W = where(f, p)
        R = Region(f, rust)
        run = Run(f, lambda b: b.sp.startswith("src/types/column/iter/") and b.n not in ("iter_with_props", "iter", "check_type", "cast_datetime_error"))
        e = run.e
        e.hooks.insert(0, lambda e, st, call: slots(f, e, st, call))
        got = []

        def access(st, ptr, size, site, forms=(), rust=rust, R=R, W=W, got=got):
            r = inside(R, st, ptr, size, list(forms))
            if r is None:
                return
            got.append(site)
            if not r:
                flag("%s: a raw read is not shown to lie within the column's rows" % rust, where(f, site))
        run.access = access
        b = f.bodies[p]
        args = [("a", "arg", b.locname.get(i, "a%d" % i)) for i in range(1, b.argc + 1)]
        # the column's type is the second argument, whatever it is called
        args[1] = ("a", "arg", "column_type")
        outs = 0
        for st, v in e.run_fn(p, args, State(obs=())):
            if isinstance(v, Panic) or e.variant(st, v, RES) != "Ok":
                continue
            outs += 1
            it = e.deep(st, e.payload(v, "Ok"))
            if it[0] == "adt" and it[1] != "?":
                iterator(ctx, f, run, R, rust, st, it, flag, access)
        ctx.count("reader outcomes", outs)
        ctx.count("functions", len(e.called))
        ctx.count("raw reads", len(got))
        checked += len(got)
    ctx.floor("raw reads of the typed readers", checked, 25)


def inside(R, st, ptr, size, forms):
    """Is [ptr, ptr + size) inside the region? None if the pointer is not one of the regions."""
    sub = R.sub(st)
    K = known(st.facts, sub, forms)
    if isinstance(size, tuple) and size[0] == "index":
        x = ptr[2]
        while isinstance(x, tuple) and x[0] in ("fld", "deref", "cast", "ptrcast") and not (x[:2] == ("a", "mem")):
            if x[0] == "fld" and x[2] == "chunks":
                return None                      # the pool's own invariant
            x = x[2] if x[0] in ("cast", "ptrcast") else x[1]
        x = unp(x)
        while isinstance(x, tuple) and x[0] in ("deref",):
            x = unp(x[1])
        if x[:2] != ("a", "mem"):
            return None
        k = x[2]
        return nonneg(padd(padd(atom(("a", "cnt", k)), poly(size[1], sub), -1), const(-1)), K)
    p = poly(ptr, sub)
    r = R.bases(p)
    if r is None:
        return None if not any(R.base(x) is not None for m in p for x in m) else False
    k, off, m = r
    w = R.width(st, k)
    if w is None:
        return False
    if isinstance(size, tuple):
        size = pmul(poly(size[1], sub), poly(size[2], sub))
    total = pmul(w, atom(("a", "cnt", k)))
    K = K + keys(R.f, off, k, w)
    return all(c >= 0 for c in off.values()) and nonneg(padd(padd(total, off, -1), size, -1), K)


def keys(f, off, k, w):
    """A dictionary column's keys are smaller than its dictionary (shown for the loader)."""
    out = []
    for m in off:
        for x in m:
            if x[:2] == ("a", "call") and key_reader(f, x[2]):
                out.append(padd(padd(atom(("a", "cnt", k)), atom(x), -1), const(-1)))
    return out


POS = ("a", "pos")


def iterator(ctx, f, run, R, rust, st0, it, flag, access):
    e = run.e
    adt = it[1]
    impl = {}
    for name, l in f.timpls.items():
        if name.endswith("::Iterator"):
            for selft, items, im in l:
                if f.tk(selft) == "adt" and f.tdef(selft) == adt:
                    for m in ("next", "nth"):
                        if items.get(m) in f.bodies:
                            impl[m] = f.bodies[items[m]]
    if "next" not in impl:
        return
    W = where(f, impl["next"].p)

    def go(m, self_v, acc):
        s = st0.copy()
        s.mem[("R", "self")] = self_v
        run.access = acc
        args = [("ref", (("R", "self"), ()))] + ([("a", "arg", "n")] if m == "nth" else [])
        try:
            return e.run_fn(impl[m].p, args, s)
        finally:
            run.access = access
    # which fields move
    moved = set()
    init = dict(it[3])
    for m in impl:
        for s, v in go(m, it, None):
            fin = s.mem.get(("R", "self"))
            for k in init:
                if fin[0] == "adt" and dict(fin[3]).get(k) != init[k]:
                    moved.add(k)
    sub = R.sub(st0)
    start, base = {}, {}
    for k in sorted(moved):
        p = poly(init[k], sub)
        b = R.bases(p)
        if p == {}:
            start[k] = POS
            base[k] = ({}, const(1))
        elif b is not None and not b[1]:
            w = R.width(st0, b[0])
            if w is None:
                continue
            wt = C(w[()]) if set(w) <= {()} else list(w)[0][0]
            start[k] = ("op", "PAdd", init[k], ("op", "Mul", POS, wt))
            base[k] = (p, w)
    if len(start) != 1:
        gen = ("adt", it[1], it[2], tuple((k, x if k not in moved else ("a", "state", k)) for k, x in it[3]), it[4])

        def lost(st, ptr, size, site):
            if contains(ptr, ("a", "state")) or any(contains(ptr, ("a", "state", k)) for k in moved):
                flag("%s: the position of the iterator is not understood" % rust, W)
        for m in impl:
            go(m, gen, lost)
        return
    (pf, pv), = start.items()
    gen = ("adt", it[1], it[2], tuple((k, start.get(k, x if k not in moved else ("a", "state", k))) for k, x in it[3]), it[4])
    # bounds of the position: any other field that stays, as far as next and nth keep to it
    p0, w = base[pf]
    cands = []
    for k, x in init.items():
        if k in moved:
            continue
        q = poly(x, sub)
        d = padd(q, p0, -1)
        d = pdiv(d, w)
        if d is not None and d and all(c >= 0 for c in d.values()) and all(a[:2] in (("a", "cnt"),) or isc(a, "len") or a[:2] == ("op", "len") for m in d for a in m):
            cands.append(padd(d, atom(POS), -1))
    while True:
        keep = []
        for F in cands:
            good = True
            for m in impl:
                for s, v in go(m, gen, None):
                    if isinstance(v, Panic):
                        continue
                    fin = s.mem[("R", "self")]
                    fin = dict(fin[3]).get(pf) if fin[0] == "adt" else None
                    q = fin and pdiv(padd(poly(fin, sub), p0, -1), w)
                    if q is None or not all(c >= 0 for c in q.values()):
                        good = False
                        continue
                    g = padd(padd(F, atom(POS)), q, -1)
                    good = good and nonneg(g, known(s.facts, sub, cands))
            if good:
                keep.append(F)
        if len(keep) == len(cands):
            break
        cands = keep
    n = 0
    for m in impl:
        def acc(st, ptr, size, site):
            access(st, ptr, size, site, forms=cands)
        for s, v in go(m, gen, acc):
            n += 1
    ctx.count("iterator paths", n)


# ---------------------------------------------------------------- raw access handed out by columns
def ref_field(v):
    """The field of self a pointer to a whole field refers to."""
    while isinstance(v, tuple) and v[0] in ("cast", "ptrcast"):
        v = v[2]
    if v[0] == "ref" and v[1][0][0] == "H" and v[1][1]:
        x = v[1][0][1]
        for e in v[1][1]:
            if e[0] == ".":
                x = ("fld", x, e[1])
        return norm(x)
    return None


def counted(v):
    """(container, width) of a number of elements."""
    v = unp(v)
    if v[0] == "op" and v[1] == "len" and len(v) == 3:
        return thing(v[2]), None
    if isc(v, "len") and len(v[3]) == 1:
        return thing(v[3][0]), None
    if v[0] == "op" and v[1] == "Div":
        c = counted(v[2])
        if c is not None and c[1] is None:
            return c[0], unp(v[3])
    return None


def equal(facts, a, b):
    """Do the path facts say the two lengths are the same?"""
    for t, x in facts.items():
        if isinstance(t, tuple) and t[:2] == ("op", "Eq") and x[0] == "=" and x[1] in (True, 1):
            u, v = counted(norm(t[2])), counted(norm(t[3]))
            if u and v and {u, v} == {a, b}:
                return True
    return False


def handouts(ctx, f, flag):
    n = 0
    for tr, l in f.timpls.items():
        if not tr.endswith("::ColumnData"):
            continue
        for t, items, im in l:
            name = f.ts(t).split("::")[-1]
            for m in ("get_internal", "get_internals"):
                p = items.get(m)
                if p not in f.bodies:
                    continue
                W = where(f, p)
                e = prov_engine(f, lambda b: b.sp.startswith("src/types/column/") and b.n not in ("get_internal", "get_internals", "sql_type"))
                e.no_widen = True
                e.gc_returns = False
                e.head_hook = rounds(1)
                b = f.bodies[p]
                rows = own_rows(f, items)
                args = [SELF] + [("a", "arg", "a%d" % i) for i in range(2, b.argc + 1)]
                for st, v in e.run_fn(p, args, State(obs=())):
                    if isinstance(v, Panic) or e.variant(st, v, RES) == "Err":
                        continue
                    slot = {}
                    for k, x in st.mem.items():
                        if k[0] != "H":
                            continue
                        a = k[1]
                        x = norm(e.deep(st, x)) if x[0] != "ref" else x
                        while isinstance(a, tuple) and a[0] in ("cast", "ptrcast"):
                            a = a[2]
                        if a[0] == "idx" and contains(a, ("a", "arg", "a2")) and a[2][0] == "c":
                            slot[a[2][1]] = x
                        elif a == ("a", "arg", "a2") and x[0] == "adt":
                            d = dict(x[3])
                            if "begin" in d:
                                slot = {0: d["begin"], 1: d.get("len", ("a", "missing"))}
                    if not slot:
                        continue
                    n += 1
                    if 0 not in slot:
                        continue
                    x = slot[0]
                    fld = ref_field(x)
                    X = None
                    if fld is None:
                        y = unp(norm(x))
                        if isc(y, "as_ptr", "as_mut_ptr"):
                            X = thing(y[3][0])
                    good = fld is not None or X is not None
                    for i, c in slot.items():
                        if i == 0 or ref_field(c) is not None:
                            continue
                        r = counted(norm(c))
                        if r is None:
                            if i == 1 and (X is not None or m == "get_internals"):
                                good = False
                            continue
                        if fld is not None:
                            good = good and r[1] is None and contains(r[0], fld) and rows_field(f, r[0])
                        elif r[0] != X and not equal(st.facts, r, (X, None)):
                            good = False
                        elif r[1] is None and rows is not None and rows[0] == X and rows[1] is not None:
                            good = False           # bytes instead of rows
                        elif r[1] is not None and not (r[1][0] == "fld" and r[1][1] == SELF):
                            good = False
                    ctx.oblige("%s hands out a pointer together with the length of what it points to" % name, good,
                               key="%s hands out a pointer with a length that is not that of what it points to" % name, where=W)
                ctx.count("functions", len(e.called))
    ctx.floor("columns handing out raw access", n, 10)


def own_rows(f, items):
    """The column's number of rows, as (container, width)."""
    p = items.get("len")
    if p not in f.bodies:
        return None
    e = prov_engine(f, lambda b: b.sp.startswith("src/types/column/") and b.n != "sql_type")
    e.gc_returns = False
    rs = {counted(norm(e.deep(st, v))) for st, v in e.run_fn(p, [SELF], State(obs=())) if not isinstance(v, Panic)}
    rs.discard(None)
    return rs.pop() if len(rs) == 1 else None


def rows_field(f, x):
    """A pool's rows are the field that is indexed without bounds checks, not its chunks."""
    return x[0] != "fld" or x[2] != "chunks"


# ---------------------------------------------------------------- views, copies and grown buffers
def raw_calls(f, b):
    for bl in b.b:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "fn":
            yield t[1][1]


RAW = ("set_len", "copy", "copy_nonoverlapping", "from_raw_parts", "from_raw_parts_mut", "LZ4_compress_default", "LZ4_decompress_safe",
       "copy_from", "copy_to", "copy_from_nonoverlapping", "copy_to_nonoverlapping", "write_bytes")


def is_raw(i):
    p = i["p"]
    return i["n"] in RAW and ("ptr" in p or "slice" in p or "Vec" in p or "lz4" in p.lower() or "intrinsics" in p or i["n"] == "set_len")


def vlen(v, sub=None):
    """Length of a byte vector after the changes made to it."""
    v = thing(v)
    if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call"):
        n = last(v[2].replace("mut:", ""))
        if v[2].startswith("mut:"):
            if n in ("resize", "set_len", "truncate"):
                return poly(v[3][1], sub)
            if n in ("clear",):
                return {}
            if n in ("push", "extend_from_slice", "extend", "append", "insert", "remove", "pop", "drain", "split_off", "reserve_exact"):
                return atom(("op", "len", v))
            return vlen(v[3][0], sub)
        if n == "from_elem":
            return poly(v[3][1], sub)
        if n in ("as_mut", "as_ref", "deref", "deref_mut", "as_slice", "as_mut_slice") and len(v[3]) == 1:
            return vlen(v[3][0], sub)
        if n in ("new", "with_capacity") and "Vec" in v[2]:
            return {}
    return atom(("op", "len", v))


def lensub(v):
    if v[0] == "op" and v[1] == "len" and len(v) == 3 or isc(v, "len") and len(v[3]) == 1 and not v[2].startswith("mut:"):
        x = thing(v[2] if v[0] == "op" else v[3][0])
        r = vlen(x, lensub)
        return r
    if v[0] == "cast" and v[1] in ("i32", "u32", "u8") or isc(v, "into", "from") and len(v[3]) == 1:
        return poly(v[2] if v[0] == "cast" else v[3][0], lensub)
    return None


def top(v):
    """The buffer before the calls that only took pointers into it."""
    v = thing(v)
    while isc(v, "as_mut_ptr", "as_mut", "deref_mut", "as_mut_slice", "copy", "index_mut", "read_bytes") and v[2].startswith("mut:"):
        v = thing(v[3][0])
    return v


def pool_body(f, b):
    """Functions that read through a stored (chunk, shift, length) triple."""
    return any(t is not None and f.tk(f.peel(t)) == "adt" and f.tdef(f.peel(t)) in triples(f) for t in b.l[1:1 + b.argc])


def triples(f):
    return {d for d, a in f.adts.items() if len(a["v"]) == 1 and len(a["v"][0]["f"]) == 3 and all("t" in x and f.ts(x["t"]) == "usize" for x in a["v"][0]["f"])}


def views(ctx, f, flag):
    """Every raw view or copy whose pointer was taken from a buffer stays inside that buffer."""
    roots = []
    for p, b in f.bodies.items():
        rc = [i for i in raw_calls(f, b) if is_raw(i)]
        if rc and not pool_body(f, b) and not b.sp.startswith("src/types/column/iter/"):
            roots.append(b)
    n = 0
    from rules.c13 import is_filler
    fillers = [b for b in f.bodies.values() if is_filler(f)(b)]
    skip = {b.sp.split(":")[0] for b in fillers}
    for b in roots:
        W = where(f, b.p)
        if b.sp.split(":")[0] in skip or b.unsafe and b.n == "set_len":
            continue
        src = b.sp.split(":")[0]
        run = Run(f, lambda x: x.sp.split(":")[0] == src and x.p != b.p and x.k != "closure" and not x.n == "load_data" or x.n == "set_len" and x.unsafe or x.n == "with_capacity" and x.sp.startswith("src/types/column/"))
        e = run.e
        elem = {}
        seen = []

        def ends(st, ptr, off_bytes, n_bytes, what, site, elem=elem, seen=seen, W=W):
            p = poly(ptr, lensub)
            bs = [m[0] for m, c in p.items() if len(m) == 1 and c == 1 and m[0][:2] == ("a", "mem")]
            if len(bs) == 1:
                seen.append(site)
                K = known(st.facts, lensub, [])
                cnt = pmul(atom(("a", "cnt", bs[0][2])), elem.get("view", const(1)))
                if len(p) != 1 or not nonneg(padd(cnt, n_bytes, -1), K):
                    flag("a raw %s in %s is not shown to stay within the rows it was handed" % (what, f.bodies[site].n if site in f.bodies else site), where(f, site))
                return
            bs = [m[0] for m, c in p.items() if len(m) == 1 and c == 1 and isc(m[0], "as_ptr", "as_mut_ptr")]
            if len(bs) != 1:
                return
            seen.append(site)
            X = thing(bs[0][3][0])
            off = {m: c for m, c in p.items() if m != (bs[0],)}
            total = pmul(vlen(top(X), lensub), elem.get(X, const(1)))
            K = known(st.facts, lensub, [])
            low = all(c >= 0 for c in off.values()) or nonneg(off, K)
            if not low or not nonneg(padd(padd(total, off, -1), n_bytes, -1), K):
                flag("a raw %s in %s is not shown to stay within its buffer" % (what, f.bodies[site].n if site in f.bodies else site), where(f, site))

        def hook(e, st, call, elem=elem, ends=ends, run=run, seen=seen):
            nm = call.name
            if nm in ("as_ptr", "as_mut_ptr") and len(call.args) == 1 and call.path not in f.bodies:
                v = norm(e.deep(st, call.args[0]))
                X = thing(v)
                t = f.peel(call.argts[0])
                ta = f.targs(t) or []
                if ta:
                    w = run.width(ta[0])
                    elem[X] = const(w) if w is not None else atom(("a", "sizeof", e.ty_name(ta[0])))
                return [(st, ("a", "call", "as_ptr", (X,)))]
            if nm in ("copy", "copy_nonoverlapping") and len(call.args) == 3 and ("ptr" in call.p or "intrinsics" in call.p):
                w = call.info.get("a") and run.width(call.info["a"][0]) or 1
                cnt = pmul(poly(norm(e.deep(st, call.args[2])), lensub), const(w))
                for a in call.args[:2]:
                    ends(st, norm(a), 0, cnt, "copy", e.stack[-1][0])
                return [(st, ("tup", ()))]
            if nm in ("LZ4_compress_default", "LZ4_decompress_safe"):
                a = [norm(e.deep(st, x)) for x in call.args]
                ends(st, a[0], 0, poly(a[2], lensub), "read", e.stack[-1][0])
                ends(st, a[1], 0, poly(a[3], lensub), "write", e.stack[-1][0])
                return None
            if nm == "set_len" and call.path not in f.bodies:
                return grow(f, e, st, call, flag, W, seen)
            if nm in ("read_bytes", "read_exact") and len(call.args) == 2:
                return fill(e, st, call)
            return None
        e.hooks.insert(0, hook)
        e.hooks.insert(0, lambda e, st, call: slots(f, e, st, call))

        def view(st, ptr, size, site, ends=ends, elem=elem):
            if isinstance(size, tuple) and size[0] == "n":
                elem["view"] = poly(size[2], lensub)
                ends(st, ptr, 0, pmul(poly(size[1], lensub), elem["view"]), "view", site)
        run.access = view
        args = [("a", "arg", b.locname.get(i, "a%d" % i)) for i in range(1, b.argc + 1)]
        for st, v in e.run_fn(b.p, args, State(obs=())):
            n += 1
            if isinstance(v, Panic):
                continue
            dv = e.deep(st, v)
            for o in st.obs:
                if o[0] == "grown" and contains(dv, ("a", "grown", o[1])) and ("filled", o[1]) not in st.obs and e.variant(st, dv, RES) != "Err":
                    flag("%s returns a buffer whose length was extended without having been filled" % short(b.p), W)
        ctx.count("raw views and copies", len(seen))
        ctx.count("functions", len(e.called))
        if seen:
            ctx.oblige("%s: %d raw operations" % (b.p, len(seen)), True)
    ctx.floor("functions with raw views, copies or grown buffers", len(roots), 8)


def short(p):
    import re
    return "::".join(re.sub(r"::<[^>]*>", "", p).split("::")[-2:])


def capacity(v):
    v = top(v)
    if isc(v, "with_capacity"):
        return poly(v[3][-1], lensub)
    if isc(v, "reserve", "reserve_exact") and v[2].startswith("mut:"):
        return padd(vlen(v[3][0], lensub), poly(v[3][1], lensub))
    return vlen(v, lensub)


def grow(f, e, st, call, flag, W, seen):
    v = norm(e.deep(st, call.args[0]))
    n = norm(e.deep(st, call.args[1]))
    seen.append(e.stack[-1][0])
    s = st.copy()
    K = known(st.facts, lensub, [])
    p = poly(n, lensub)
    if nonneg(padd(vlen(top(v), lensub), p, -1), K):
        return None                                # shortened
    if not (isc(n, "capacity") and thing(n[3][0]) == top(v)) and not nonneg(padd(capacity(v), p, -1), K):
        flag("a buffer's length is set beyond the capacity it is known to have", W)
    k = sum(1 for o in s.obs if o[0] == "grown")
    e.write_loc(s, e.deref(s, call.args[0]), ("a", "grown", k))
    s.obs = s.obs + (("grown", k, n),)
    return [(s, ("tup", ()))]


def fill(e, st, call):
    t = norm(resolve(e, st, call.args[1]))
    s, b = st.copy(), st.copy()
    for o in st.obs:
        if o[0] == "grown" and whole(t, ("a", "grown", o[1])):
            s.obs = s.obs + (("filled", o[1]),)
    return [(s, ok(("tup", ()))), (b, ("adt", RES, "Err", (("0", ("a", "error")),), None))]


def whole(t, g):
    """Is the slice all of the list (List::as_mut, which is checked by itself)?"""
    t = thing(t)
    while True:
        if t == g:
            return True
        if t[0] == "adt" and len(t[3]) == 1:
            t = thing(t[3][0][1])
            continue
        if isc(t, "as_mut", "as_mut_slice", "deref_mut", "chunks_mut", "into_iter", "iter_mut", "by_ref", "borrow_mut"):
            t = thing(t[3][0])
        elif isc(t, "next"):
            t = thing(t[3][0])
        elif isinstance(t, tuple) and t[0] == "fld" and t[1][0] == "dc" and t[1][2] == "Some":
            t = thing(t[1][1])
        elif isc(t, "from_raw_parts_mut"):
            c = poly(t[3][1], None)
            u = unp(t[3][0])
            if isc(u, "as_ptr", "as_mut_ptr") and contains(u, g) and len(c) == 1:
                (m, k), = c.items()
                return k == 1 and any(x[:2] == ("a", "sizeof") for x in m) and any(x == ("op", "len", g) or isc(x, "len") and contains(x, g) for x in m) and len(m) == 2
            return False
        elif isc(t, "index_mut"):
            return isinstance(t[3][1], tuple) and "RangeFull" in str(t[3][1]) and whole(t[3][0], g)
        else:
            return False


# ---------------------------------------------------------------- string pool
def pool(ctx, f, flag):
    """Every stored pointer of a string pool was taken from a bounds-checked slice of a chunk that is never shortened."""
    T = triples(f)
    pools = {}
    for d, a in f.adts.items():
        if len(a["v"]) != 1:
            continue
        ptrs = [x["n"] for x in a["v"][0]["f"] if "t" in x and any(f.ts(x["t"]) == "std::vec::Vec<%s>" % t for t in T)]
        chunks = [x["n"] for x in a["v"][0]["f"] if "t" in x and f.ts(x["t"]) == "std::vec::Vec<std::vec::Vec<u8>>"]
        if len(ptrs) == 1 and len(chunks) == 1:
            pools[d] = (ptrs[0], chunks[0])
    ctx.floor("string pools", len(pools), 1)
    for d, (P, CH) in pools.items():
        file = None
        role = None
        for b in f.bodies.values():
            if not pool_body(f, b):
                continue
            W = where(f, b.p)
            run = Run(f, lambda x: x.sp.split(":")[0] == b.sp.split(":")[0] and x.n != b.n)
            seen = []

            def acc(st, ptr, size, site):
                seen.append((ptr, size))
            run.access = acc
            args = [("a", "arg", "a%d" % i) for i in range(1, b.argc + 1)]
            for st, v in run.e.run_fn(b.p, args, State(obs=())):
                pass
            views_ = [(p, s) for p, s in seen if isinstance(s, tuple) and s[0] == "n"]
            if not views_:
                continue
            file = b.sp.split(":")[0]
            for ptr, size in views_:
                p = poly(ptr, None)
                n = poly(("op", "Mul", size[1], size[2]), None)
                flds = [m[0] for m in p if len(m) == 1 and m[0][0] == "fld"]
                bs = [m[0] for m in p if len(m) == 1 and isc(m[0], "as_ptr")]
                good = False
                if len(p) == 2 and len(flds) == 1 and len(bs) == 1 and len(n) == 1 and list(n.values()) == [1] and len(list(n)[0]) == 1 and list(n)[0][0][0] == "fld":
                    c = thing(bs[0][3][0])
                    if isc(c, "get_unchecked", "index", "get") or c[0] == "idx":
                        src, ix = (c[3][0], c[3][1]) if c[0] == "a" else (c[1], c[2])
                        ix = thing(ix)
                        if ix[0] == "fld" and thing(ix[1]) == thing(flds[0][1]) == thing(list(n)[0][0][1]) and contains(src, ("a", "arg", "a1")) and CH in str(src):
                            r = {"chunk": ix[2], "shift": flds[0][2], "len": list(n)[0][0][2]}
                            good = len(set(r.values())) == 3 and role in (None, r)
                            role = r
                ctx.oblige("a pooled string is read as its chunk, shift and length say", good, key="a pooled string is not read as its chunk, shift and length say", where=W)
        if role is None:
            flag("the reader of pooled strings was not found", "")
            continue
        # who stores pointers
        n = 0
        for b in f.bodies.values():
            if b.sp.split(":")[0] != file:
                continue
            calls_ = list(raw_calls(f, b))
            W = where(f, b.p)
            for i in calls_:
                if i["n"] in ("pop", "remove", "swap_remove", "truncate", "clear", "drain", "retain", "split_off", "shrink_to", "dedup", "take", "replace", "resize", "set_len") and "Vec" in i["p"]:
                    flag("a chunk of pooled strings can be shortened or removed", W)
            if not any(i["n"] in ("push", "insert", "extend") and "Vec" in i["p"] for i in calls_) or not stores(f, b, T):
                continue
            e = prov_engine(f, lambda x: x.sp.split(":")[0] == file)
            e.no_widen = True
            e.gc_returns = False
            e.head_hook = rounds(1)

            def hook(e, st, call):
                if call.name in ("push", "insert", "extend") and "Vec" in call.p:
                    x = e.deep(st, call.args[-1])
                    if x[0] == "adt" and x[1] in T:
                        s = st.copy()
                        s.obs = s.obs + (("stored", tuple((k, norm(e.deep(st, y))) for k, y in x[3])),)
                        return [(s, ("tup", ()))]
                if call.name in ("index_mut", "index") and len(call.args) == 2:
                    r = norm(e.deep(st, call.args[1]))
                    s = st.copy()
                    s.obs = s.obs + (("slice", norm(e.deep(st, call.args[0])), r),)
                    return [(s, ("a", "call", call.path, (norm(e.deep(st, call.args[0])), r)))]
                return None
            e.hooks.insert(0, hook)
            for st, v in e.run_fn(b.p, [("a", "arg", "a%d" % i) for i in range(1, b.argc + 1)], State(obs=())):
                if isinstance(v, Panic):
                    continue
                for o in st.obs:
                    if o[0] != "stored":
                        continue
                    n += 1
                    x = dict(o[1])
                    ctx.oblige("a stored pointer delimits a bounds-checked slice of its chunk", any(q[0] == "slice" and delimits(q, x, role) for q in st.obs),
                               key="a stored pointer of the string pool does not delimit a checked slice of its chunk", where=W)
        ctx.floor("stores of pool pointers", n, 1)


def stores(f, b, T):
    return any(f.tk(t) == "adt" and f.tdef(t) in T for t in b.l)


def delimits(q, x, role):
    r = q[2]
    if not (isinstance(r, tuple) and r[0] == "adt" and {"start", "end"} <= set(dict(r[3]))):
        return False
    a, z = poly(dict(r[3])["start"], None), poly(dict(r[3])["end"], None)
    c = thing(q[1])
    ix = None
    if c[0] == "idx":
        ix = c[2]
    elif isc(c, "index_mut", "index", "get_unchecked_mut"):
        ix = c[3][1]
    if ix is None:
        lastc = isc(c, "last_mut") or contains(c, ("a", "last"))
        ok_c = lastc
    else:
        ok_c = poly(ix, None) == poly(x[role["chunk"]], None)
    return ok_c and a == poly(x[role["shift"]], None) and padd(z, a, -1) == poly(x[role["len"]], None)

# ---------------------------------------------------------------- dictionary keys
def key_types(f):
    """Enums whose variants each hold one vector of unsigned numbers: the keys of a dictionary column."""
    out = set()
    for d, a in f.adts.items():
        if len(a["v"]) > 1 and all(len(v["f"]) == 1 and "t" in v["f"][0] for v in a["v"]):
            ts = [f.ts(v["f"][0]["t"]) for v in a["v"]]
            if all(t.endswith("<%s>" % u) for t, u in zip(sorted(ts), sorted(u for u in ("u8", "u16", "u32", "u64")))) or len(ts) == 4 and {t.split("<")[-1].rstrip(">") for t in ts} == {"u8", "u16", "u32", "u64"}:
                out.add(d)
    return out


def key_reader(f, p):
    """Does the function give one key of a dictionary column?"""
    b = f.bodies.get(p)
    if b is None or b.argc != 2 or f.ts(b.l[0]) != "usize" or f.ts(b.l[2]) != "usize":
        return False
    t = f.peel(b.l[1])
    return f.tk(t) == "adt" and f.tdef(t) in key_types(f)


def origin(x):
    """The call a value was taken from."""
    while isinstance(x, tuple) and x:
        y = thing(x)
        if y[0] in ("fld", "dc"):
            y = y[1]
        elif y[0] == "adt" and len(y[3]) == 1:
            y = y[3][0][1]
        elif isc(y, "deref", "as_ref", "borrow") and len(y[3]) == 1:
            y = y[3][0]
        elif y[0] == "ref" and y[1][0][0] == "H":
            y = y[1][0][1]
        if y == x:
            return x
        x = y
    return x


def dictionary(ctx, f, flag):
    """A dictionary column read from the server is accepted only if every key is smaller than the dictionary."""
    KT = key_types(f)
    D = {d for d, a in f.adts.items() if len(a["v"]) == 1 and any("t" in x and f.tk(x["t"]) == "adt" and f.tdef(x["t"]) in KT for x in a["v"][0]["f"])}
    ctx.floor("dictionary column types", len(D), 1)
    n = 0
    for b in sorted((b for b in f.bodies.values()), key=lambda b: b.p):
        rt = f.ts(b.l[0])
        if not any(d in rt for d in D) or b.k == "closure":
            continue
        src = b.sp.split(":")[0]
        W = where(f, b.p)
        e = prov_engine(f, lambda x: x.sp.split(":")[0] == src and x.p != b.p and not key_reader(f, x.p))
        e.no_widen = True
        e.gc_returns = False
        e.head_hook = rounds(1)
        e.gc = lambda *a: None            # what was checked of a key is kept across loops

        def hook(e, st, call):
            if call.name in ("any", "all") and len(call.args) == 2 and call.args[1][0] == "clo":
                k = sum(1 for o in st.obs if o[0] in ("each", "some"))
                src = norm(e.deep(st, call.args[0]))
                outs = []
                for s, z in e.call_closure(st, call.args[1], [("a", "item", k)], call.site):
                    if isinstance(z, Panic):
                        outs.append((s, z))
                        continue
                    for s2, t in truth(e, s, z):
                        s2 = s2.copy()
                        # all rows behave alike only where the search went through to the end
                        s2.obs = s2.obs + (("each" if t == (call.name == "all") else "some", k, src),)
                        outs.append((s2, TRUE if t else FALSE))
                return outs
            return None
        e.hooks.insert(0, hook)
        for st, v in e.run_fn(b.p, [("a", "arg", "a%d" % i) for i in range(1, b.argc + 1)], State(obs=())):
            if isinstance(v, Panic) or "Result" in rt and e.variant(st, v, RES) == "Err":
                continue
            v = norm(e.deep(st, v))
            for x in parts(v, D):
                ks = [y for _, y in x[3] if y[0] == "adt" and y[1] in KT or isc(origin(y), "load")]
                inner = [y for _, y in x[3] if isc(origin(y), "load_data")]
                if len(ks) != 1 or not isc(origin(ks[0]), "load"):
                    continue
                n += 1
                k = origin(ks[0])
                d = origin(inner[0]) if len(inner) == 1 else None
                if any(thing(r) == C(0) or poly(r, None) == {} or st.facts.get(thing(r)) == ("=", 0) for r in k[3][1:]):
                    continue                       # no keys
                ctx.oblige("every key of a dictionary column is checked against the dictionary", d is not None and bounded(f, e, st, k, d),
                           key="a dictionary column is accepted without every key having been checked against the dictionary", where=W)
        ctx.count("functions", len(e.called))
    ctx.floor("outcomes with keys read from the server", n, 4)


def parts(v, D):
    if isinstance(v, tuple):
        if v and v[0] == "adt" and v[1] in D and v[3]:
            yield v
            return
        if v and v[0] == "adt" and v[2] == "Ok" or v[:1] == ("tup",) or v[:1] == ("ref",) or v[:1] == ("adt",):
            for x in v:
                yield from parts(x, D)
        elif not v or not isinstance(v[0], str) or v[0] not in ("a", "fld", "op"):
            for x in v:
                yield from parts(x, D)


def bounded(f, e, st, k, d):
    NK, ND = ("a", "cnt", "keys"), ("a", "cnt", "inner")

    def sub(v):
        if isc(v, "len") and len(v[3]) == 1 or v[0] == "op" and v[1] == "len" and len(v) == 3:
            o = origin(v[3][0] if v[0] == "a" else v[2])
            return atom(NK) if o == k else atom(ND) if o == d else None
        if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call") and len(v[3]) == 2 and origin(v[3][0]) == k and not v[2].startswith("mut:"):
            return atom(("a", "key", thing(v[3][1])))
        if isc(v, "into", "from", "unwrap", "cloned", "copied") and len(v[3]) == 1 and "mut:" not in v[2]:
            return poly(v[3][0], sub)
        return None
    facts = {norm(t): x for t, x in st.facts.items()}
    K = known(facts, sub, [])

    def below(i):
        return nonneg(padd(padd(atom(ND), atom(("a", "key", i)), -1), const(-1)), K)
    for o in st.obs:
        if o[0] == "each" and below(("a", "item", o[1])):
            r = thing(o[2])
            if r[0] == "adt" and r[1].endswith("ops::Range"):
                r = dict(r[3])
                if poly(r["start"], sub) == {} and nonneg(padd(poly(r["end"], sub), atom(NK), -1), K):
                    return True
    for m in (0, 1):
        if nonneg(padd(const(m), atom(NK), -1), K) and all(below(C(i)) for i in range(m)):
            return True
    return False

# ---------------------------------------------------------------- the socket reader's buffer
def socket(ctx, f, flag):
    """The receive buffer is extended at most to its own capacity, and is left as long as what the socket filled."""
    from rules import c13
    BUF = ("a", "arg", "buf")
    seen = []

    def extra(e, st, call):
        if call.name == "set_len" and call.path not in f.bodies:
            n = norm(e.deep(st, call.args[1]))
            v = norm(e.deep(st, call.args[0]))
            seen.append(n)
            want = {("op", "len", BUF): 1}
            for o in st.obs:
                if o[0] == "n":
                    want = c13.add(want, {o[1]: 1})
            good = isc(n, "capacity") and c13.root(n[3][0]) == c13.root(v) == BUF or c13.lin(n, c13.flens) == want
            if not good:
                flag("the receive buffer's length is set to neither its capacity nor what was filled", where(f, e.stack[-1][0]))
        return None
    c13.fill(ctx, f, flag, extra)
    ctx.count("lengths set by the socket reader", len(seen))


# ---------------------------------------------------------------- values of any bit pattern
def validity(ctx, f, flag):
    """Raw bytes from the server are reinterpreted only as types every bit pattern of which is a value."""
    roots = {p for p, b in f.bodies.items() if any(i["n"] in ("set_len", "transmute", "zeroed", "read_unaligned") and i["p"] not in f.bodies or i["n"] == "set_len" for i in raw_calls(f, b)) and not b.unsafe}
    n = 0
    for b in f.bodies.values():
        for i in raw_calls(f, b):
            if i["p"] not in roots:
                continue
            for t in i.get("a") or []:
                if not isinstance(t, int):
                    continue
                n += 1
                name = f.ts(t)
                k = f.tk(t)
                wrong = name in ("bool", "char") or name.startswith("std::num::NonZero") or k in ("ref", "fnptr") or k == "adt" and f.tdef(t) in f.adts and len(f.adts[f.tdef(t)]["v"]) > 1 and not any(v["f"] for v in f.adts[f.tdef(t)]["v"])
                if wrong:
                    flag("bytes from the server are reinterpreted as %s without a check" % name, where(f, b.p))
    ctx.floor("instantiations of raw loads", n, 15)

# ---------------------------------------------------------------- unchecked indexing
def unchecked(ctx, f, flag):
    """A safe function indexes without a bounds check only what is known to be within bounds."""
    def raw(b):
        return any(i["n"] in ("get_unchecked", "get_unchecked_mut") and i["p"] not in f.bodies for i in raw_calls(f, b))
    direct = {p for p, b in f.bodies.items() if raw(b) and not pool_body(f, b)}
    un = {p for p in direct if f.bodies[p].unsafe}
    while True:
        more = {p for p, b in f.bodies.items() if b.unsafe and p not in un and any(i["p"] in un for i in raw_calls(f, b))}
        if not more:
            break
        un |= more
    n = 0
    for p, b in sorted(f.bodies.items()):
        if b.unsafe or b.sp.startswith("src/types/column/iter/") or not (p in direct or any(i["p"] in un for i in raw_calls(f, b))):
            continue
        run = Run(f, lambda x: x.p in un or x.sp.split(":")[0] == b.sp.split(":")[0] and not pool_body(f, x) and x.p != b.p)
        seen = []

        def acc(st, ptr, size, site):
            if not (isinstance(size, tuple) and size[0] == "index"):
                return
            seen.append(site)
            K = known({norm(t): x for t, x in st.facts.items()}, lensub, [])
            X = thing(ptr[2])
            for o in st.obs:
                if o[0] == "indexed" and thing(o[1]) == X:
                    K.append(padd(padd(atom(("op", "len", X)), poly(o[2], lensub), -1), const(-1)))
            if not nonneg(padd(padd(vlen(X, lensub), poly(size[1], lensub), -1), const(-1)), K):
                flag("%s indexes without a bounds check what is not shown to be within bounds" % short(p), where(f, p))
        run.access = acc

        def hook(e, st, call):
            if call.name in ("index", "index_mut") and len(call.args) == 2:
                s = st.copy()
                c = norm(e.deep(st, call.args[0])), norm(e.deep(st, call.args[1]))
                s.obs = s.obs + (("indexed",) + c,)
                return [(s, ("a", "call", call.path, c))]
            return None
        run.e.hooks.insert(0, hook)
        for st, v in run.e.run_fn(p, [("a", "arg", b.locname.get(i, "a%d" % i)) for i in range(1, b.argc + 1)], State(obs=())):
            pass
        n += len(seen)
        ctx.count("functions", len(run.e.called))
    ctx.count("unchecked accesses of safe functions", n)


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    readers(ctx, f, flag)
    handouts(ctx, f, flag)
    views(ctx, f, flag)
    pool(ctx, f, flag)
    dictionary(ctx, f, flag)
    unchecked(ctx, f, flag)
    socket(ctx, f, flag)
    validity(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)
