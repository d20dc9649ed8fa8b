"""The reading side of C17: what load of each column type consumes."""
from engine import State, Panic, C, RES, ok, err, contains
from prov import prov_engine
from lin import lin, add, strip
from transport import Anchor
from rules.util import where
from rules.c12 import isc, last
from wire import norm, plain, rounds
from rules.c17 import Bad, SIZE, NOINLINE, resolve, hooks, contradictory, sql_types, addc

READER, TZ, ROWS = ("a", "arg", "reader"), ("a", "arg", "tz"), ("a", "arg", "rows")
METHODS = ("read_bytes", "read_scalar", "read_str_into_buffer", "read_string", "skip_string", "read_uvarint")


def length(v):
    """Linear length in bytes of a buffer."""
    v = plain(v)
    if isc(v, "from_raw_parts_mut", "from_raw_parts"):
        return prod(v[3][1])
    if isc(v, "index_mut", "index") and v[3][1][0] == "adt":
        d = dict(v[3][1][3])
        if set(d) == {"start", "end"}:
            return add(lin(d["end"], lens), lin(d["start"], lens), -1)
        if set(d) == {"start"}:
            return add(length(v[3][0]), lin(d["start"], lens), -1)
        if set(d) == {"end"}:
            return lin(d["end"], lens)
        return length(v[3][0])
    if isc(v, "as_mut", "as_mut_slice", "deref_mut", "as_ref") and not v[2].startswith("mut:"):
        return length(v[3][0])
    if isc(v, "from_elem"):
        return prod(v[3][1])
    if isc(v, "resize", "set_len") and v[2].startswith("mut:"):
        return prod(v[3][1])
    if isc(v, "as_mut_ptr", "as_mut", "read_bytes", "deref_mut", "index_mut", "reserve") and v[2].startswith("mut:"):
        return length(v[3][0])
    if v[0] == "tup" or isc(v, "new", "with_capacity"):
        return {}
    return {("op", "len", v): 1}


def lens(t):
    if isinstance(t, tuple) and (t[:2] == ("op", "len") and len(t) == 3 or isc(t, "len") and len(t[3]) == 1):
        b = t[2] if t[0] == "op" else t[3][0]
        r = length(b)
        return r if r != {("op", "len", plain(b)): 1} else None
    return None


def prod(t):
    """Linear form with products of the number of rows kept as products."""
    t = strip(t)
    if t[0] == "op" and t[1].replace("WithOverflow", "") == "Mul" and len(t) == 4:
        a, b = strip(t[2]), strip(t[3])
        la, lb = lin(a, lens), lin(b, lens)
        for x, y, ly in ((la, b, lb), (lb, a, la)):
            if set(x) <= {None}:
                return {k: v * x.get(None, 0) for k, v in ly.items() if v * x.get(None, 0)}
        if len(la) == len(lb) == 1 and list(la.values()) == list(lb.values()) == [1]:
            return {("mul",) + tuple(sorted([list(la)[0], list(lb)[0]], key=repr)): 1}
    return lin(t, lens)


def find_loads(f, adts):
    out = {}
    for b in f.bodies.values():
        r = b.l[0]
        if b.k in ("method", "fn") and f.ts(r).startswith("std::result::Result<") and f.targs(r) and f.tk(f.targs(r)[0]) == "adt" and \
                f.tdef(f.targs(r)[0]) in adts and b.argc >= 2 and any(f.tk(f.peel(t)) == "param" for t in b.l[1:1 + b.argc]) and "usize" in [f.ts(t) for t in b.l[1:1 + b.argc]]:
            if any(calls_reader(f, b)):
                out.setdefault(f.tdef(f.targs(r)[0]), []).append(b)
    return out


def calls_reader(f, b):
    for bl in b.b:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "fn":
            yield t[1][1]["n"] in METHODS or t[1][1]["n"] in ("load_data", "load") or "read" in t[1][1]["n"]


def run_load(f, b):
    e = prov_engine(f, lambda x: (x.sp.startswith("src/types/column/") and x.n not in ("load_data", "at", "from_type", "sql_type", "get_flags", "size") and not x.unsafe or x.n == "set_len") and "{closure" not in x.p or
                    x.n in ("with_capacity",) and x.sp.startswith("src/types/column/"))
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    hooks(e, f)

    def reads(e, st, call):
        n = call.name
        k = sum(1 for o in st.obs if o[0] == "rd")
        s = st.copy()
        if n == "load_data":
            a = [norm(resolve(e, st, x)) for x in call.args]
            names = [x for x, t in zip(a, call.argts) if f.ts(f.peel(t)) == "str"]
            num = [x for x, t in zip(a, call.argts) if f.ts(t) == "usize"]
            s.obs = s.obs + (("rd", "load", names[0] if names else None, num[0]),)
            return [(s, ok(("a", "column", k)))]
        if n not in METHODS or not (call.trait or call.path).split("<")[0].endswith(("ReadEx", n)):
            return None
        if n == "read_bytes":
            s.obs = s.obs + (("rd", "bytes", norm(resolve(e, st, call.args[1]))),)
            return [(s, ok(("tup", ())))]
        if n == "read_scalar":
            t = f.ts(f.targs(call.rett)[0])
            s.obs = s.obs + (("rd", "scalar", t, ("a", "rd", k)),)
            return [(s, ok(("a", "rd", k)))]
        if n in ("read_str_into_buffer", "read_string", "skip_string"):
            s.obs = s.obs + (("rd", "str"),)
            return [(s, ok(("tup", ()) if n != "read_string" else ("a", "rd", k)))]
        return None
    e.hooks.insert(0, reads)
    args = []
    us = [i for i in range(1, b.argc + 1) if f.ts(b.l[i]) == "usize"]
    names = {i: b.locname.get(i, "a%d" % i) for i in us}
    # the number of rows is the count that is not a width of a row
    rows = [i for i in us if "len" not in names[i]] or us
    for i in range(1, b.argc + 1):
        if i == rows[0]:
            args.append(ROWS)
        else:
            args.append(("a", "arg", b.locname.get(i, "a%d" % i)))
    return e, e.run_fn(b.p, args, State(obs=()))


def loads(ctx, f, types, flag):
    items = dict(types)
    found = find_loads(f, set(items))
    n = 0
    from rules.c17 import role_name
    for adt, bs in sorted(found.items()):
        name = adt.split("::")[-1]
        for b in bs:
            W = where(f, b.p)
            try:
                e, outs = run_load(f, b)
                paths = 0
                for st, v in outs:
                    if isinstance(v, Panic) or e.variant(st, v, RES) != "Ok":
                        continue
                    facts = {}
                    if any(x[0] == "=" and facts.setdefault(norm(k), x) != x for k, x in st.facts.items()):
                        continue
                    if contradictory(facts):
                        continue
                    paths += 1
                    judge(f, e, name, role_name(f, adt, items[adt]), st, facts)
                if not paths:
                    raise Bad("%s: load never succeeds" % name)
                n += 1
            except Bad as x:
                flag("%s" % x, W)
    ctx.oblige("%d loaders of column types" % n, True, where="src/types/column")
    ctx.floor("loaders", n, 12)


def zero_rows(facts):
    for t, x in facts.items():
        if t == ROWS and x == ("=", 0):
            return True
        if isinstance(t, tuple) and t[0] == "op" and len(t) == 4 and x[0] == "=":
            if t[1] == "Eq" and {t[2], t[3]} == {ROWS, C(0)} and x[1] in (True, 1) or t[1] == "Lt" and t[2:] == (C(0), ROWS) and x[1] in (False, 0):
                return True
    return False


class R:
    def __init__(self, st, facts):
        self.o = [x for x in st.obs if x[0] == "rd"]
        self.i = 0
        self.st, self.facts = st, facts

    def peek(self):
        return self.o[self.i] if self.i < len(self.o) else ("rd", None)

    def flat(self, what):
        """bytes for each row: the width, "str" or "any"."""
        z = zero_rows(self.facts)
        p = self.peek()
        if p[1] == "bytes":
            l = prod_of(length(p[2]))
            # all rows at once
            if len(l) == 1:
                (t, c), = l.items()
                if t == ROWS:
                    self.i += 1
                    return C(c)
                if isinstance(t, tuple) and t[0] == "mul" and ROWS in t[1:] and c == 1:
                    self.i += 1
                    return [x for x in t[1:] if x != ROWS][0]
            if not l and z:
                self.i += 1
                return "any"
        ws = set()
        k = 0
        while self.peek()[1] in ("bytes", "str", "scalar"):
            p = self.peek()
            if p[1] == "str":
                ws.add("str")
            elif p[1] == "scalar":
                ws.add(C(SIZE.get(p[2], -1)))
            else:
                l = length(p[2])
                ws.add(tuple(sorted(l.items(), key=repr)))
            self.i += 1
            k += 1
        stop = [t for t, x in self.facts.items() if isinstance(t, tuple) and t[:2] == ("op", "Lt") and x[0] == "=" and x[1] in (False, 0)]
        stop += [o[2] for o in self.st.obs if o[0] == "end"]
        want = add(lin(ROWS), {None: -k} if k else {})
        if not any(add(lin(t[3]), lin(t[2]), -1) == want for t in stop) and not (z and k == 0):
            raise Bad("%s: load does not read as many rows as asked for" % what)
        if len(ws) > 1:
            raise Bad("%s: load reads rows of different widths" % what)
        if not ws:
            return "any"
        w = ws.pop()
        if isinstance(w, tuple) and w and isinstance(w[0], tuple):
            if len(w) == 1 and w[0][1] == 1:
                return w[0][0]
            return ("lin", w)
        return w

    def scalar(self, what, name):
        p = self.peek()
        if p[1] != "scalar" or p[2] != "u64":
            raise Bad("%s: load does not read %s" % (what, name))
        self.i += 1
        return p[3]

    def load(self, what):
        p = self.peek()
        if p[1] != "load":
            raise Bad("%s: load does not read the nested column" % what)
        self.i += 1
        return p[2], p[3]

    def end(self, what):
        if self.i != len(self.o):
            raise Bad("%s: load reads more than is written" % what)


def prod_of(l):
    return l


INNER = {"Decimal": {0: "Int32", 1: "Int64"}, "Enum8": "Int8", "Enum16": "Int16"}


def judge(f, e, what, role, st, facts):
    r = R(st, facts)
    z = zero_rows(facts)

    def rows(n, why="the nested column is not read for the rows asked for"):
        if not (n == ROWS or z and n == C(0)):
            raise Bad("%s: %s" % (what, why))
    if role in ("Array", "Map"):
        w = r.flat(what)
        if w not in (C(8), "any"):
            raise Bad("%s: load does not read the offsets as UInt64" % what)
        for _ in range(2 if role == "Map" else 1):
            t, n = r.load(what)
            n = strip(n)
            if z:
                good = n == C(0)
            else:
                good = isc(n, "at", "index") and lin(n[3][1]) == add(lin(ROWS), {None: -1}) or isc(n, "last")
            if not good:
                raise Bad("%s: the nested column is not read up to the last offset" % what)
    elif role == "Nullable":
        w = r.flat(what)
        if w not in (C(1), "any"):
            raise Bad("%s: load does not read one null flag per row" % what)
        t, n = r.load(what)
        rows(n)
    elif role == "LowCardinality":
        if z:
            while r.peek()[1] is not None:
                p = r.peek()
                if p[1] == "load":
                    rows(p[3])
                elif p[1] != "bytes" or length(p[2]) not in ({}, {ROWS: 1}):
                    raise Bad("%s: something is read for no rows" % what)
                r.i += 1
            return
        v = r.scalar(what, "the version")
        if ("op", "Eq", v, C(1)) not in facts and not any(contains(t, v) for t in facts):
            raise Bad("%s: load does not check the version" % what)
        fl = r.scalar(what, "the flags")
        nk = r.scalar(what, "the number of keys")
        t, n = r.load(what)
        if strip(n) != nk:
            raise Bad("%s: load does not read as many keys as announced" % what)
        nr = r.scalar(what, "the number of rows")
        p = r.peek()
        if p[1] != "bytes":
            raise Bad("%s: load does not read the index" % what)
        l = length(p[2])
        r.i += 1
        if len(l) != 1 or list(l)[0] != nr:
            raise Bad("%s: load does not read as many index entries as announced" % what)
        w = list(l.values())[0]
        bits = [x[1] for t, x in facts.items() if isinstance(t, tuple) and x[0] == "=" and t[0] == "op" and t[1] == "BitAnd" and contains(t, fl) and C(0xff) in t]
        if bits and w != {0: 1, 1: 2, 2: 4, 3: 8}.get(bits[0]):
            raise Bad("%s: load reads an index of another width than the flags announce" % what)
    elif role in ("Decimal", "Enum8", "Enum16", "SimpleAggregateFunction") and r.peek()[1] == "load":
        t, n = r.load(what)
        rows(n)
        want = INNER.get(role)
        if isinstance(want, str) and plain(t) != C(want):
            raise Bad("%s: the nested values are read as %s" % (what, plain(t)[1]))
        if isinstance(want, dict):
            d = [x[1] for k, x in facts.items() if isinstance(k, tuple) and k[0] == "discr" and "nobits" in str(k[1]) and x[0] == "="]
            if d and plain(t) != C(want.get(d[0])):
                raise Bad("%s: the nested values are read with another width than the type has" % what)
    elif role == "String":
        if r.flat(what) not in ("str", "any"):
            raise Bad("%s: load does not read length-prefixed strings" % what)
    else:
        w = r.flat(what)
        if w == "str":
            raise Bad("%s: load reads length-prefixed strings" % what)
        r.w = w
        if role == "FixedString" and w != "any" and not (isinstance(w, tuple) and w[:2] == ("a", "arg")):
            raise Bad("%s: load does not read the width of the type for each row" % what)
        if role == "DateTime64" and w not in (C(8), "any"):
            raise Bad("%s: load does not read eight bytes per row" % what)
        if role == "?" and w != "any" and not (isinstance(w, tuple) and (w[:2] == ("a", "sizeof") or isc(w, "size"))):
            raise Bad("%s: load does not read the width of the element type for each row" % what)
    r.end(what)
