"""C17 Each column type is written in the layout it is read in."""
from engine import State, Panic, C, TRUE, FALSE, RES, OPT, NONE, UNIT, some, ok, err, contains, field
from models import nrm
from prov import prov_engine
from lin import lin, add, strip
from transport import Names, Anchor
from rules.util import where
from rules.c12 import isc, last, unref
from wire import norm, plain, rounds, tokens, is_enc, enc_method, LEAF

TECHNIQUE = "provenance analysis of the byte layout each column's save and load produce, over MIR, compared part by part"
RULE = ("For every ColumnData implementation, save(start, end) is analysed with symbolic bounds. What it writes is read off as a sequence of parts, each of "
        "which must cover exactly the rows start..end in order: raw slices of start*W..end*W, one fixed-width or length-prefixed value per row, null flags "
        "that are 1 exactly for the rows without a value, offsets relative to the row before start, nested columns over exactly the values the offsets "
        "span, dictionaries. The parts must be those of the wire format of the column's SQL type, and load of the same type must read the same parts with "
        "the same widths, in the same order, for the number of rows asked for.")
ASSUMPTIONS = ["Conversions of single values (C20-style tables, FromSql) are not part of this property; start <= end <= len() holds for every caller (C18).",
               "Columns whose save is unimplemented (concatenated and chrono columns, refused by inserts) have no layout."]
START, END, SELF = ("a", "arg", "start"), ("a", "arg", "end"), ("a", "arg", "self")
SIZE = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16, "usize": 8}
NOINLINE = ("at", "len", "sql_type", "internal", "cast_to", "load_data", "from_sql", "clone", "get_timezone", "get", "get_unchecked", "from_type", "strings", "size")


class Bad(Exception):
    pass


def addc(t, k):
    if k == 0 or k == C(0):
        return t
    k = k if isinstance(k, tuple) else C(k)
    if t == C(0):
        return k
    return ("op", "Add", t, k)


# ---------------------------------------------------------------- sequences
def resolve(e, st, v, depth=0):
    """The value with the boxes and cells it refers to read in."""
    v = e.deep(st, v)

    def go(x, d):
        if not isinstance(x, tuple) or d > 60:
            return x
        if len(x) == 2 and x[0] == "ref" and isinstance(x[1], tuple) and len(x[1]) == 2 and isinstance(x[1][0], tuple):
            try:
                y = e.deep(st, e.read_loc(st, x[1]))
            except Exception:
                return x
            return x if y == x else go(y, d + 1)
        w = tuple(go(y, d + 1) for y in x)
        return x if w == x else w
    return go(v, 0)


IDENT = ("into_iter", "iter", "by_ref", "cloned", "copied", "deref", "as_ref", "as_slice", "iter_mut", "to_vec", "into", "borrow")


def sequence(v):
    """(bounds, item): bounds [(a, b)] mean that element k exists iff a + k < b for each; item(k) is element k."""
    v = plain(v)
    if v[0] == "adt" and v[1].endswith("Range"):
        d = dict(v[3])
        return [(d["start"], d["end"])], lambda k: addc(d["start"], k)
    if len(v) == 4 and v[:2] == ("a", "call") and not v[2].startswith("mut:"):
        n, a = last(v[2]), v[3]
        if n in IDENT and len(a) == 1:
            return sequence(a[0])
        if n == "enumerate" and len(a) == 1:
            b, it = sequence(a[0])
            return b, lambda k: ("tup", (C(k) if isinstance(k, int) else k, it(k)))
        if n == "skip" and len(a) == 2:
            b, it = sequence(a[0])
            return [(addc(x, a[1]) if x != C(0) else a[1], y) for x, y in b], lambda k: it(addc(a[1], k))
        if n == "take" and len(a) == 2:
            b, it = sequence(a[0])
            return b + [(C(0), a[1])], it
        if n == "zip" and len(a) == 2:
            b, it = sequence(a[0])
            b2, it2 = sequence(a[1])
            return b + b2, lambda k: ("tup", (it(k), it2(k)))
        if n == "index" and len(a) == 2 and a[1][0] == "adt" and a[1][1].endswith("Range"):
            d = dict(a[1][3])
            return [(d["start"], d["end"])], lambda k: ("a", "row", a[0], addc(d["start"], k))
        if n == "strings" and len(a) == 1:
            return [(C(0), ("op", "len", a[0]))], lambda k: ("a", "row", a[0], k if isinstance(k, tuple) else C(k))
        if n == "from_elem":
            return [(C(0), a[1])], lambda k: a[0]
        if n in ("new", "with_capacity") and "Vec" in v[2]:
            return [(C(0), C(0))], lambda k: C(0)
    if len(v) == 4 and v[:2] == ("a", "call") and v[2].startswith("mut:"):
        n, a = last(v[2]), v[3]
        if n == "store":
            b, it = sequence(a[0])
            return b, lambda k: a[2] if lin(a[1]) == lin(C(k) if isinstance(k, int) else k) else it(k)
        if n == "push" and len(a) == 2:
            b, it = sequence(a[0])
            if len(b) == 1 and b[0][0] == C(0) and b[0][1][0] == "c":
                m = b[0][1][1]
                return [(C(0), C(m + 1))], lambda k: a[1] if k in (m, C(m)) else it(k)
        if n == "next":
            b, it = sequence(a[0])
            return [(addc(x, 1), y) for x, y in b], lambda k: it(addc(C(k) if isinstance(k, int) else k, 1))
        if n in ("reserve",):
            return sequence(a[0])
    return [(C(0), ("op", "len", v))], lambda k: ("a", "row", v, k if isinstance(k, tuple) else C(k))


def iterate(e, st, call):
    """Iterator::next on a sequence whose elements are known."""
    if call.name != "next" or not (call.trait or call.path).endswith(("Iterator", "next")) or len(call.args) != 1 or call.args[0][0] != "ref":
        return None
    loc = e.deref(st, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
    cur = norm(resolve(e, st, e.read_loc(st, loc)))
    if cur[0] == "adt" and cur[1].endswith("Range"):
        return None
    b, k = cur, 0
    while isc(b, "next") and b[2].startswith("mut:"):
        b, k = b[3][0], k + 1
    if not isinstance(b, tuple) or not (b[0] in ("adt", "fld") or b[:2] == ("a", "call")):
        return None
    bounds, item = sequence(b)
    if any(x[0] == "op" and x[1] == "len" and isc(x[2], "chunks", "split", "chars", "lines") for _, x in bounds):
        return None
    tests = [("op", "Lt", addc(a, k), n) for a, n in bounds]

    def const(t):
        x = add(lin(t[3]), lin(t[2]), -1)
        if set(x) <= {None}:
            return x.get(None, 0) > 0
        return e.known(st, t)
    out = []
    s1 = st.copy()
    live = True
    for t in tests:
        c = const(t)
        if c in (False, ("c", False), FALSE):
            live = False
        elif c not in (True, TRUE):
            e.assume(s1, t, True)
    if live:
        e.write_loc(s1, loc, ("a", "call", "mut:std::iter::Iterator::next", (e.read_loc(st, loc),)))
        out.append((s1, some(item(k))))
    for t in tests:
        c = const(t)
        if c in (True, TRUE):
            continue
        s2 = st.copy()
        if c not in (False, FALSE, ("c", False)):
            e.assume(s2, t, False)
        s2.obs = s2.obs + (("end", k, t),)
        out.append((s2, NONE))
        if c in (False, FALSE, ("c", False)):
            break
    return out or None


def hooks(e, f):
    n = [0]

    def hook(e, st, call):
        if call.name == "size_of" and "mem" in call.p:
            t = e.ty_name(call.info["a"][0])
            return [(st, C(SIZE[t]) if t in SIZE else ("a", "sizeof", t))]
        if call.name == "write" and enc_call(e, f, call):
            return put(e, st, call, "write", (C(e.ty_name(call.info["a"][-1])), resolve(e, st, call.args[1])))
        if call.name == "index_mut" and call.args and call.args[0][0] == "ref" and len(call.args) == 2:
            i = resolve(e, st, call.args[1])
            if i[0] == "adt":
                return None
            loc = e.deref(st, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
            n[0] += 1
            cell = ("K", 0, "ix%d" % n[0])
            s = st.copy()
            s.mem[cell] = ("a", "slot", n[0])
            e.write_loc(s, loc, ("a", "call", "mut:store", (e.read_loc(st, loc), i, ("ref", (cell, ())))))
            return [(s, ("ref", (cell, ())))]
        return None
    e.hooks.insert(0, hook)
    e.hooks.insert(0, iterate)


def enc_call(e, f, call):
    return call.argts and call.argts[0] is not None and is_enc(f, call.argts[0]) and "Encoder::" in call.path


def put(e, st, call, op, args):
    s = st.copy()
    loc = e.deref(s, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
    e.write_loc(s, loc, ("a", "call", "mut:" + op, (e.read_loc(s, loc),) + tuple(args)))
    return [(s, ("tup", ()))]


def writer17(f):
    def filt(b):
        if "{closure" in b.p:
            return b.sp.startswith("src/types/")
        if enc_method(f, b):
            return b.n not in LEAF
        if not b.sp.startswith("src/types/column/") or b.n in NOINLINE or b.unsafe:
            return False
        return not f.ts(b.l[0]).startswith("std::result::Result<&")
    e = prov_engine(f, filt)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    hooks(e, f)
    return e


# ---------------------------------------------------------------- parts of a save
def width(t, base):
    """W such that t is base * W; None otherwise."""
    t = strip(t)
    if t == base:
        return C(1)
    if t[0] == "op" and t[1].replace("WithOverflow", "") == "Mul":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if strip(a) == base:
                return strip(b)
    return None


def row_ids(v, acc=None):
    """Linear forms of the row indices a value is taken from."""
    if acc is None:
        acc = []
    if isinstance(v, tuple):
        if len(v) == 4 and v[:2] == ("a", "call") and last(v[2]) in ("at", "get", "get_unchecked", "index") and len(v[3]) == 2:
            i = v[3][1]
            if not (isinstance(i, tuple) and i and i[0] == "adt"):
                sub = row_ids(v[3][0])      # an element of a row's value is of that row
                acc.extend(sub or [lin(i)])
                return acc
        if len(v) == 4 and v[:2] == ("a", "row"):
            sub = row_ids(v[2])
            acc.extend(sub or [lin(v[3])])
            return acc
        for x in v:
            if isinstance(x, tuple):
                row_ids(x, acc)
    return acc


def is_row(v, j):
    ids = row_ids(v)
    return all(i == add(lin(START), {None: j} if j else {}) for i in ids)


def count_is(facts, obs, k):
    """The path has gone through exactly the rows start .. start + k and found no more."""
    z = start_zero(facts)

    def diff(t):
        d = add(lin(t[3]), lin(t[2]), -1)
        if z:
            d.pop(START, None)
        return d
    full = lin(END) if z else add(lin(END), lin(START), -1)
    stop = [t for t, x in facts.items() if isinstance(t, tuple) and t[:2] == ("op", "Lt") and x[0] == "=" and x[1] in (False, 0)]
    stop += [o[2] for o in obs if o[0] == "end"]
    more = [t for t, x in facts.items() if isinstance(t, tuple) and t[:2] == ("op", "Lt") and x[0] == "=" and x[1] in (True, 1)]
    for t, x in facts.items():            # 0 < end, put as end != 0
        if t == END or isinstance(t, tuple) and t[:2] in (("op", "Sub"), ("op", "SubWithOverflow")):
            if x[0] == "!=" and 0 in x[1]:
                more.append(("op", "Lt", C(0), t))
            if x == ("=", 0):
                stop.append(("op", "Lt", C(0), t))
    if k and not any(diff(t) == add(full, {None: 1 - k} if k > 1 else {}) for t in more):
        return False

    def own(t):
        """start + k has reached the column's own length, which end does not exceed."""
        n = strip(t[3])
        ln = isc(n, "len") and contains(n, SELF) or n[:2] == ("op", "len") and contains(n, SELF)
        return ln and lin(t[2]) == add({} if z else lin(START), {None: k} if k else {})
    return any(diff(t) == add(full, {None: -k} if k else {}) or own(t) for t in stop)


def buffer_width(v):
    """(length, content) of a row buffer resized to a fixed length."""
    v = plain(v)
    if isc(v, "index") and len(v[3]) == 2 and v[3][1][0] == "adt" and not v[3][1][3]:
        v = plain(v[3][0])                # [..]
    if isc(v, "resize") and v[2].startswith("mut:") and len(v[3]) >= 2:
        return strip(v[3][1]), v[3][0]
    return None


def content(v):
    """What a freshly cleared buffer was filled with."""
    v = plain(v)
    if isc(v, "extend", "extend_from_slice", "write_all", "push") and v[2].startswith("mut:"):
        return content(v[3][0]) + [v[3][1]]
    if isc(v, "clear") and v[2].startswith("mut:"):
        return []
    if isc(v, "new", "with_capacity") and not v[2].startswith("mut:"):
        return []
    if isc(v, "resize", "truncate", "reserve") and v[2].startswith("mut:"):
        return content(v[3][0])
    raise Bad("a row's buffer still holds other bytes")


def DT(f):
    return [a for a in f.adts if a.endswith("::DateTimeType")][0]


class Parts:
    """Splits one path's tokens into parts over the rows."""

    def __init__(self, e, st, toks):
        self.t = toks
        self.f = e.f
        self.i = 0
        self.st = st
        self.facts = {norm(k): v for k, v in st.facts.items()}
        self.rows = None
        self.sliced = False

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, ())

    def slice(self, what):
        """bytes of rows start..end, as a slice of a field."""
        op, a = self.peek()
        if op not in ("write_bytes", "write_all", "extend_from_slice"):
            return None
        v = plain(a[0])
        if not isc(v, "index"):
            return None
        r = v[3][1]
        if r[0] != "adt":
            return None
        d = dict(r[3])
        if not d:
            return None
        if set(d) != {"start", "end"}:
            raise Bad("%s: the bytes written are not those of the rows asked for" % what)
        w0, w1 = width(d["start"], START), width(d["end"], END)
        if w0 is None or w0 != w1:
            raise Bad("%s: the bytes written are not those of the rows asked for" % what)
        if not contains(v[3][0], SELF):
            raise Bad("%s: the bytes written are not the column's" % what)
        self.i += 1
        self.sliced = True
        return w0

    def rowwise(self, what):
        """One value per row; the common width, or "str"."""
        ws = set()
        k = 0
        while True:
            op, a = self.peek()
            if op == "write" and isinstance(a[0], tuple) and a[0][0] == "c" and isinstance(a[0][1], str):
                w = C(SIZE[a[0][1]]) if a[0][1] in SIZE else ("a", "sizeof", a[0][1])
                v = a[1]
            elif op in ("byte_string", "string"):
                w, v = "str", a[0]
            elif op == "write_bytes" and buffer_width(a[0]):
                w, v = buffer_width(a[0])
                v = ("tup", tuple(content(v)))
            else:
                break
            if not is_row(v, k):
                raise Bad("%s: the values written are not those of the rows asked for, in order" % what)
            ws.add(w)
            self.i += 1
            k += 1
        self.rows = k
        if len(ws) > 1:
            raise Bad("%s: the values written have different widths" % what)
        if not count_is(self.facts, self.st.obs, k):
            raise Bad("%s: not every row asked for is written, once" % what)
        return ws.pop() if ws else "any"

    def nested(self, what):
        op, a = self.peek()
        if op != "save" or len(a) != 3:
            raise Bad("%s: the nested column is not written" % what)
        self.i += 1
        if not (a[0][0] == "fld" and a[0][1] == SELF):
            raise Bad("%s: what is written is not the column's nested column" % what)
        return a[0][2], a[1], a[2]

    def end(self, what):
        if self.i != len(self.t):
            raise Bad("%s: more is written than the layout has" % what)


def paths(e, f, p, rest=None):
    """(state, tokens) of each path of a save."""
    ENC = ("K", 0, "enc")
    st = State(obs=())
    st.mem[ENC] = ("a", "call", "Encoder::new", ())
    out = []
    for s, v in e.run_fn(p, [SELF, ("ref", (ENC, ())), START, END], st):
        if isinstance(v, Panic):
            continue
        facts = {}
        if any(x[0] == "=" and facts.setdefault(norm(k), x) != x for k, x in s.facts.items()):
            continue                      # the same test with two outcomes
        if contradictory(facts):
            continue
        t = tokens(resolve(e, s, s.mem[ENC]))
        if t is None:
            raise Bad("what is written cannot be told")
        out.append((s, t))
    return out


def contradictory(facts):
    """Lt facts over the same difference that exclude each other."""
    lo, hi = {}, {}
    for t, x in facts.items():
        if isinstance(t, tuple) and t[:2] == ("op", "Lt") and len(t) == 4 and x[0] == "=":
            d = add(lin(t[3]), lin(t[2]), -1)
            k = d.pop(None, 0)
            key = tuple(sorted(d.items(), key=repr))
            if x[1] in (True, 1):      # d + k > 0
                lo[key] = max(lo.get(key, -10**9), 1 - k)
            else:
                hi[key] = min(hi.get(key, 10**9), -k)
    return any(k in hi and hi[k] < v for k, v in lo.items())


# ---------------------------------------------------------------- roles
def column_types(f):
    out = []
    for tr, l in f.timpls.items():
        if tr.endswith("::ColumnData"):
            for t, items, im in l:
                if "save" in items and f.tk(t) == "adt" and items["save"] in f.bodies:
                    out.append((f.tdef(t), items))
    return out


def sql_types(f, items):
    """Variants of SqlType that sql_type() of this column may return, outermost first: ("Nullable", ("FixedString", ...))."""
    e = prov_engine(f, lambda b: b.sp.startswith("src/types/column/") and b.n not in ("sql_type",) and "{closure" not in b.p)
    e.gc_returns = False
    e.head_hook = rounds(1)
    out = set()
    for s, v in e.run_fn(items["sql_type"], [SELF], State(obs=())):
        if isinstance(v, Panic):
            continue
        out.add(shape(norm(resolve(e, s, v))))
    return out


def shape(v, depth=0):
    v = plain(v)
    if v[0] == "adt" and v[2] is not None:
        subs = [shape(x, depth + 1) for _, x in v[3]] if depth < 3 else []
        return (v[2],) + tuple(x for x in subs if x[0] != "?")
    inner = set()            # a type behind the cache of static types

    def go(x):
        if isinstance(x, tuple):
            if len(x) > 3 and x[0] == "adt" and isinstance(x[1], str) and x[1].endswith("::SqlType"):
                inner.add(shape(x, depth + 1))
                return
            for y in x:
                go(y)
    if depth < 3:
        go(v)
    return inner.pop() if len(inner) == 1 else ("?",)


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    types = column_types(f)
    n = done = skipped = 0
    for adt, items in sorted(types):
        w = where(f, items["save"])
        name = adt.split("::")[-1]
        try:
            e = writer17(f)
            ps = paths(e, f, items["save"])
            if not ps:
                skipped += 1
                continue
            n += 1
            rolef = role(f, adt, items)
            for st, t in ps:
                rolef(name, Parts(e, st, [(o, tuple(norm(x) for x in a)) for o, a in t]))
                done += 1
        except Bad as x:
            flag("%s: %s" % (name, x), w)
    ctx.oblige("%d column types, %d paths through their save" % (n, done), True, where="src/types/column")
    ctx.floor("column types with a save", n, 18)
    from rules.c17load import loads
    loads(ctx, f, types, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def role(f, adt, items):
    sh = sql_types(f, items)
    heads = {x[0] for x in sh}
    if heads == {"Array"}:
        return array(1)
    if heads == {"Map"}:
        return array(2)
    if heads == {"LowCardinality"}:
        return low_card
    if heads == {"Nullable"}:
        inner = {x[1] if len(x) > 1 else ("?",) for x in sh}
        return nullable(inner)
    if heads == {"?"} and any(x["n"] == "range" for x in f.adts[adt]["v"][0]["f"]):
        return chunk
    return flat(sh)


def role_name(f, adt, items):
    sh = sql_types(f, items)
    heads = {x[0] for x in sh}
    if heads == {"DateTime"} and all(len(x) > 1 for x in sh):
        heads = {x[1][0] for x in sh}
    return heads.pop() if len(heads) == 1 else "?"


def check_width(what, w, sh, P):
    """Does the row width fit the SQL type?"""
    if w == "any":
        return
    heads = {x[0] for x in sh}
    if heads == {"String"}:
        good = w == "str"
    elif heads == {"FixedString"}:
        good = w != "str" and isinstance(w, tuple) and (w == ("fld", SELF, "str_len") or w[0] != "c" and w[0] != "a")
    elif heads == {"Decimal"}:
        nb = [x for t, x in P.facts.items() if isinstance(t, tuple) and t[0] == "discr" and isinstance(t[1], tuple) and t[1][0] == "fld" and "nobits" in str(t[1][2])]
        good = w in (C(4), C(8)) and all(x != ("=", 0 if w == C(8) else 1) for x in nb)
    elif heads == {"Enum8"}:
        good = w == C(1)
    elif heads == {"Enum16"}:
        good = w == C(2)
    elif sh == {("DateTime", ("DateTime64",))}:
        good = w == C(8)
    elif heads == {"?"}:
        good = w != "str"
        if P.sliced:
            good = w[:2] == ("a", "sizeof") or isc(w, "size")
        for t, x in P.facts.items():
            if isinstance(t, tuple) and t[0] == "discr" and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][1][:1] == ("dc",) and \
                    t[1][1][1] == ("fld", SELF, "dst_type") and t[1][1][2] == "DateTime" and x[0] == "=":
                v = [y["n"] for y in P.f.adts[DT(P.f)]["v"] if y["d"] == x[1]]
                good = good and w == C({"DateTime32": 4, "DateTime64": 8}.get(v[0] if v else "", -1))
    else:
        good = w != "str"
    if not good:
        raise Bad("%s: a row is written with a width that is not that of its type" % what)


def flat(sh):
    def go(what, P):
        op, a = P.peek()
        if op == "save":
            fld, x, y = P.nested(what)
            if lin(x) != lin(START) or lin(y) != lin(END):
                raise Bad("%s: the nested column is not written for the rows asked for" % what)
            P.end(what)
            return
        w = P.slice(what)
        if w is None:
            w = P.rowwise(what)
        check_width(what, w, sh, P)
        P.end(what)
    return go


def nullable(inner):
    def go(what, P):
        op, a = P.peek()
        w = P.slice(what)
        if w is not None:
            if w != C(1):
                raise Bad("%s: the null flags are not one byte per row" % what)
            fld, x, y = P.nested(what)
            if lin(x) != lin(START) or lin(y) != lin(END):
                raise Bad("%s: the nested column is not written for the rows asked for" % what)
            P.end(what)
            return
        if op not in ("write_bytes",):
            raise Bad("%s: the null flags are not written first" % what)
        bounds, item = sequence(a[0])
        P.i += 1
        full = add(lin(END), lin(START), -1)
        w = P.rowwise(what)
        k = P.rows
        ln = [add(lin(y), lin(x), -1) for x, y in bounds]
        if not all(l == full or l == ({None: k} if k else {}) for l in ln):
            raise Bad("%s: there is not one null flag per row" % what)
        for j in range(k):
            fl = strip(item(j))
            none = is_none(P.facts, j)
            if none is None or fl[0] != "c" or isinstance(fl[1], bool):
                if none is not None and fl[:2] != ("a", "slot"):
                    continue
                continue
            if (fl[1] == 1) != none or fl[1] not in (0, 1):
                raise Bad("%s: a null flag is not 1 exactly for the rows without a value" % what)
        check_width(what, w, inner, P)
        P.end(what)
    return go


def is_none(facts, j):
    """Is the value of row start + j absent on this path?"""
    want = add(lin(START), {None: j} if j else {})
    for t, x in facts.items():
        if isinstance(t, tuple) and t[0] == "discr" and x[0] == "=":
            v = t[1]
            if isinstance(v, tuple) and v[0] == "fld" and v[1][0] == "dc" and v[1][2] in ("Ok", "Continue"):
                ids = row_ids(v)
                if ids and all(i == want for i in ids):
                    return x[1] == 0
    return None


def array(n):
    def go(what, P):
        start0 = any(t == ("op", "Eq", START, C(0)) and x == ("=", True) or t == START and x == ("=", 0) for t, x in P.facts.items())
        OFF = None
        k = 0
        base = None
        while P.peek()[0] == "write":
            ty, v = P.peek()[1]
            if ty != C("u64"):
                raise Bad("%s: the offsets are not written as UInt64" % what)
            l = lin(v)
            want = add(lin(START), {None: k} if k else {})
            at = [t for t, c in l.items() if c == 1 and isc(t, "at", "index") and lin(t[3][1]) == want]
            rest = [(t, c) for t, c in l.items() if t not in at]
            if len(at) != 1:
                raise Bad("%s: the offsets written are not those of the rows asked for, in order" % what)
            b = rest[0][0] if len(rest) == 1 and rest[0][1] == -1 else C(0) if not rest else None
            if b is None or base not in (None, b):
                raise Bad("%s: the offsets are not relative to the first row asked for" % what)
            base = b
            P.i += 1
            k += 1
        P.rows = k
        if not count_is(P.facts, P.st.obs, k):
            raise Bad("%s: not every row's offset is written, once" % what)
        fields = []
        for _ in range(n):
            fld, x, y = P.nested(what)
            fields.append(fld)
            x, y = strip(x), strip(y)
            if base is not None and x != strip(base):
                raise Bad("%s: the offsets are not relative to the first nested value written" % what)
            if not (x == C(0) or isc(x, "at", "index") and lin(x[3][1]) == add(lin(START), {None: -1})):
                raise Bad("%s: the nested values do not start where the row before ends" % what)
            if x == C(0) and not start_zero(P.facts):
                raise Bad("%s: the nested values do not start where the row before ends" % what)
            if k == 0:
                if y != x:
                    raise Bad("%s: nested values are written for no rows" % what)
            elif not (isc(y, "at", "index") and lin(y[3][1]) == add(lin(START), {None: k - 1} if k > 1 else {})) and \
                    not (isc(y, "at", "index") and lin(y[3][1]) == add(lin(END), {None: -1})):
                raise Bad("%s: the nested values do not end where the last row asked for ends" % what)
        if len(set(fields)) != n:
            raise Bad("%s: a nested column is written twice" % what)
        if n == 2 and fields != ["keys", "values"]:
            raise Bad("%s: the keys are not written before the values" % what)
        P.end(what)
    return go


def start_zero(facts):
    for t, x in facts.items():
        if t == START and x == ("=", 0):
            return True
        if isinstance(t, tuple) and t[0] == "op" and len(t) == 4 and x[0] == "=":
            if t[1] == "Eq" and {t[2], t[3]} == {START, C(0)} and x[1] in (True, 1):
                return True
            if t[1] == "Lt" and t[2:] == (C(0), START) and x[1] in (False, 0):
                return True
            if t[1] == "Lt" and t[2:] == (START, C(1)) and x[1] in (True, 1):
                return True
    return False


def nonempty(facts):
    """Is start < end on this path (start <= end always is)?"""
    full = add(lin(END), lin(START), -1)
    neg = add({}, full, -1)
    for t, x in facts.items():
        if not (isinstance(t, tuple) and len(t) == 4 and t[0] == "op"):
            if x[0] == "!=" and 0 in x[1:] and isinstance(t, tuple) and lin(t) == full:
                return True
            continue
        try:
            d = add(lin(t[3]), lin(t[2]), -1)
        except Exception:
            continue
        if x[0] == "=" and (t[1] == "Eq" and d in (full, neg) and x[1] in (False, 0) or t[1] == "Lt" and d == full and x[1] in (True, 1)):
            return True
        if x[0] != "=" and t[1] in ("Sub", "SubWithOverflow") and lin(t) == full:
            return True
    return False


def low_card(what, P):
    eq = [x[1] for t, x in P.facts.items() if isinstance(t, tuple) and t[0] == "op" and t[1] == "Eq" and {t[2], t[3]} == {START, END} and x[0] == "="]
    full = add(lin(END), lin(START), -1)
    none = True in eq or any(isinstance(t, tuple) and t[:2] == ("op", "Lt") and x == ("=", False) and add(lin(t[3]), lin(t[2]), -1) == full for t, x in P.facts.items())
    if none:
        P.end(what + ": for no rows")
        return
    if not P.t:
        raise Bad("%s: nothing is written for some rows" % what)
    if not nonempty(P.facts):
        raise Bad("%s: a dictionary is written for no rows" % what)

    def u64(name, test):
        op, a = P.peek()
        if op != "write" or a[0] != C("u64") or not test(a[1]):
            raise Bad("%s: %s is not written where it is read" % (what, name))
        P.i += 1
    LEN = lambda v, fl: isc(v, "len") and v[3][0] == ("fld", SELF, fl) or v[:2] == ("op", "len") and v[2] == ("fld", SELF, fl)
    u64("the version", lambda v: strip(v) == C(1))
    fl = []
    u64("the flags", lambda v: fl.append(strip(v)) or True)
    cnt = []
    u64("the number of keys", lambda v: cnt.append(strip(v)) or LEN(strip(v), "inner"))
    fld, x, y = P.nested(what)
    if fld != "inner" or x != C(0) or not LEN(strip(y), "inner"):
        raise Bad("%s: the keys written are not the dictionary" % what)
    u64("the number of rows", lambda v: lin(v) == full)
    op, a = P.peek()
    if op == "save":
        raise Bad("%s: the index is not written for the rows asked for" % what)
    w = P.slice(what)
    if w is None:
        w = P.rowwise(what)
    if fl[0][0] == "c":
        if w != C({0: 1, 1: 2, 2: 4, 3: 8}.get(fl[0][1] & 0xff)):
            raise Bad("%s: the flags announce another index width than is written" % what)
        if not fl[0][1] & 0x200 or fl[0][1] & 0x100:
            raise Bad("%s: the flags do not announce additional keys" % what)
    P.end(what)


def chunk(what, P):
    fld, x, y = P.nested(what)
    R = ("fld", SELF, "range")
    lo, hi = ("fld", R, "start"), ("fld", R, "end")
    if lin(x) != add(lin(lo), lin(START)):
        raise Bad("%s: the chunk does not start at its first row" % what)
    y = strip(y)
    ends = [y]
    if y[0] == "op" and y[1] == "min":
        ends = [y[2], y[3]]
    if not any(lin(v) == add(lin(lo), lin(END)) for v in ends) or not all(lin(v) in (add(lin(lo), lin(END)), lin(hi)) for v in ends):
        raise Bad("%s: the chunk does not end at its last row" % what)
    P.end(what)
