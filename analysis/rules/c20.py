"""C20 Type names, type descriptors and column readers agree."""
import re
from engine import State, Panic, C, OPT, RES, NONE, Limit, some, ok, err, contains
from lin import lin, add
from models import callv
from prov import prov_engine, calls_in
from rules.c12 import isc, last
from rules.c17 import resolve
from rules.util import where, calls
from strs import S, hole, pieces, value, starts, hooks as str_hooks, lens
from transport import Anchor
import text as txt
from wire import norm, plain, rounds

TECHNIQUE = "path-sensitive abstract interpretation of the compiled MIR over strings with holes: the reader's dispatch, every parser, every loader and the name writer are evaluated for type names whose arguments are symbolic"
RULE = ("For every type name the reader is documented to know (arguments left as symbolic text), every path of load_data that succeeds builds a column whose sql_type() is that type over that argument, "
        "at least one path succeeds, and none panics; for names it does not know every path is an error. For every descriptor, the column from_type makes reports that descriptor, and to_string writes the name the reader "
        "recognises as it (names inside enumerations escaped as the reader unescapes them). Simple aggregate functions and their names are a bijection, read back by from_str. Decimal widths follow from precision.")
ASSUMPTIONS = ["A combinator parser (combine) is followed to its literal head word and its value functions; which texts its body accepts is taken as any text.",
               "A hole stands for any text without blanks at its edges.",
               "The Debug text of a chrono-tz zone is its name."]


def find_one(f, name, what, pred=lambda b: True):
    c = [b for b in f.bodies.values() if b.n == name and b.k in ("method", "fn") and pred(b)]
    if len(c) != 1:
        raise Anchor(what)
    return c[0]


def str_consts(f, p, seen):
    """Identifier-like string and byte-string constants in a function and the crate functions it calls."""
    if p in seen or p not in f.bodies:
        return set()
    seen.add(p)
    out = set()

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        elif isinstance(x, dict):
            if isinstance(x.get("p"), str):
                out.update(str_consts(f, x.get("r") or x["p"], seen))
            v = x.get("v", x.get("dbg"))
            m = isinstance(v, str) and re.match(r'b?"?([A-Za-z]\w*)"?$', v)
            if m and m.group(1) in HEADS:
                out.add(m.group(1))
            for y in x.values():
                go(y)
    go(f.bodies[p].b)
    return out


HEADS = {"Nullable", "FixedString", "Array", "Map", "Decimal", "Decimal32", "Decimal64", "Enum8", "Enum16", "DateTime", "Timestamp", "DateTime64", "SimpleAggregateFunction", "LowCardinality"}
VAGUE = ("vague",)         # this path may depend on text the analysis does not follow


MODELLED = ("split", "as_bytes", "splitn", "split_terminator", "lines")


def word(p, heads):
    """May the abstract string be one of these words followed by something that is not part of a word?"""
    for h in heads:
        r = starts(p, h)
        if r is None:
            return True
        if r:
            rest = (p[0][len(h):] if p and isinstance(p[0], str) else "")
            if not rest and len(p) > 1 or not re.match(r"\w", rest):
                return True
    return False


def name_engine(f, exact=False):
    def inline(b):
        if exact and b.sp.startswith("src/types/") and b.argc == 1 and f.ts(b.l[1]) in ("u8", "char"):
            return True
        if "{closure" in b.p:
            return b.sp.startswith("src/types/")
        if not (b.k == "fn" and b.sp.startswith("src/types/") or b.k == "method" and b.sp.startswith("src/types/column/factory.rs") and b.n not in ("load_data", "from_type")):
            return False
        own = {info["n"] for i, info, t, sp in calls(f, b)}
        return exact or not own & set(MODELLED)
    e = prov_engine(f, inline)
    e.gc_returns = False
    e.no_widen = True

    def head(e, st, body, fid, bi, n):
        return "cut" if n > 60 else None
    e.head_hook = head

    def run(e, st, call):
        n = call.name
        if n in ("saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add") and len(call.args) == 2:
            a, b = e.deep(st, call.args[0]), e.deep(st, call.args[1])
            if a[0] == b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                r = a[1] + b[1] if "add" in n else a[1] - b[1]
                if n.startswith("sat"):
                    r = max(r, 0)
                return [(st, C(r))] if r >= 0 else None
            return None
        if n == "wrap":
            s = st.copy()
            s.obs = s.obs + (("wrap", call.info["a"][-1], e.deep(st, call.args[-1])),)
            return [(s, ("a", "wrapped"))]
        if n == "parse" and len(call.args) == 1 and call.info.get("a"):
            src, t = value(e, st, call.args[0]), call.info["a"][-1]
            if src is not None and all(isinstance(x, str) for x in src):
                for selft, items, im in f.timpls.get("std::str::FromStr", ()):
                    if f.ts(selft) == f.ts(t) and items.get("from_str") in f.bodies:
                        return e.run_fn(items["from_str"], [S(*src)], st)
            return None
        if n == "parse" and len(call.args) == 2:
            t, src = e.deep(st, call.args[0]), value(e, st, call.args[1])
            if src is None:
                return None
            if t[0] == "ref":
                t = resolve(e, st, t)
            from prov import consts_in
            heads = {x for x in consts_in(t) if isinstance(x, str) and re.match(r"[A-Za-z]\w*$", x)}
            if not heads:
                st = st.copy()
                st.obs = st.obs + (VAGUE,)
            s2 = st.copy()
            out = [(s2, err(("a", "noparse")))]
            if not heads or word(src, heads):
                out.append((st, ok(("a", "call", "combine", (norm(t), S(*src))))))
            return out
        b = f.bodies.get(call.path)
        if b is not None and b.k == "fn" and not inline(b) and f.ts(call.rett).startswith("std::option::Option<") and call.args:
            src = value(e, st, call.args[0])
            if src is None:
                return None
            heads = str_consts(f, b.p, set())
            if not heads:
                st = st.copy()
                st.obs = st.obs + (VAGUE,)
            s2 = st.copy()
            out = [(s2, NONE)]
            if not heads or any(starts(src, h) is not False for h in heads):
                out.append((st, some(("a", "call", call.path, (S(*src),)))))
            return out
        return None
    str_hooks(e)
    e.hooks.insert(0, run)
    nested(e, f)
    return e


def exact_engine(f):
    """Like name_engine, for names without holes: every function is followed."""
    e = name_engine(f, exact=True)
    e.str_bytes = True

    def run(e, st, call):
        n = call.name
        if n in ("split", "splitn") and len(call.args) in (2, 3):
            s = value(e, st, call.args[0])
            sep = e.deep(st, call.args[-1])
            lim = e.deep(st, call.args[1]) if n == "splitn" else C(0)
            if s is None or not all(isinstance(x, str) for x in s) or sep[0] != "c" or lim[0] != "c":
                return None
            sep = chr(sep[1]) if isinstance(sep[1], int) else sep[1]
            if not sep or n == "splitn" and lim[1] < 1:
                return None
            return [(st, ("a", "walk", "list", tuple(C(x) for x in "".join(s).split(sep, lim[1] - 1 if n == "splitn" else -1)), 0, 0))]
        if n == "map" and len(call.args) == 2:
            w = e.deep(st, call.args[0])
            if w[:3] != ("a", "walk", "list"):
                return None
            out = []
            for x in w[3][w[4]:]:
                r = callv(e, st.copy(), call.args[1], [x], call.site)
                if len(r) != 1 or isinstance(r[0][1], Panic):
                    return None
                out.append(e.deep(r[0][0], r[0][1]))
            return [(st, ("a", "walk", "list", tuple(out), 0, 0))]
        if n in ("parse", "from_str") and len(call.args) == 1 and call.rett is not None:
            s = value(e, st, call.args[0])
            m = re.match(r"std::result::Result<([ui])(\d+|size), ", f.ts(call.rett))
            if s is None or not all(isinstance(x, str) for x in s) or not m:
                return None
            s, bits = "".join(s), 64 if m.group(2) == "size" else int(m.group(2))
            lo, hi = (0, 2 ** bits) if m.group(1) == "u" else (-2 ** (bits - 1), 2 ** (bits - 1))
            if re.match(r"[+-]?[0-9]+$" if m.group(1) == "i" else r"[+]?[0-9]+$", s) and lo <= int(s) < hi:
                return [(st, ok(C(int(s))))]
            return [(st, err(("a", "noparse")))]
        return None
    e.hooks.insert(0, run)
    return e


def feasible(facts):
    for t, x in facts.items():
        if isinstance(t, tuple) and t[:1] == ("op",) and len(t) == 4 and x[0] == "=" and t[1] in ("Lt", "Le", "Eq", "Gt", "Ge"):
            d = add(lin(t[2], lens), lin(t[3], lens), -1)      # left - right
            if any(k is not None and not (isinstance(k, tuple) and k[:2] == ("a", "hlen")) for k in d):
                continue
            lo = hi = d.get(None, 0)
            for k, c in d.items():
                if k is None:
                    continue
                if c > 0:
                    lo, hi = lo + c, float("inf")
                else:
                    lo, hi = float("-inf"), hi + c
            can = {"Lt": (lo < 0, hi >= 0), "Le": (lo <= 0, hi > 0), "Gt": (hi > 0, lo <= 0), "Ge": (hi >= 0, lo < 0),
                   "Eq": (lo <= 0 <= hi, not lo == hi == 0)}[t[1]]
            if not can[0 if x[1] in (True, 1) else 1]:
                return False
    return True


A, B = hole("A"), hole("B")
ARG = lambda n: ("a", "arg", n)
TYPE = lambda t: ("a", "type", t)          # the type a nested column, read under the name t, reports


def bare(t):
    """A value without references, clones and conversions."""
    for _ in range(12):
        u = plain(t)
        if u[0] == "deref":
            u = u[1]
        elif u[0] == "fld" and u[1][0] == "tup" and u[2].isdigit() and int(u[2]) < len(u[1][1]):
            u = u[1][1][int(u[2])]
        elif u[0] == "ref" and u[1][0][0] == "H" and u[1][1] == ():
            u = u[1][0][1]
        elif len(u) == 4 and u[:2] == ("a", "call") and len(u[3]) == 1 and not u[2].startswith("mut:") and \
                last(u[2]) in ("clone", "as_ref", "deref", "into", "from", "borrow", "to_owned", "to_vec", "cloned"):
            u = u[3][0]
        if u == t:
            return t
        t = u
    return t


def clean(t):
    t = bare(t)
    if t[0] == "adt":
        return t[:3] + (tuple((k, clean(x)) for k, x in t[3]),) + t[4:]
    if t[0] == "tup":
        return ("tup", tuple(clean(x) for x in t[1]))
    if t[0] == "fld":
        return ("fld", clean(t[1])) + t[2:]
    if t[0] == "dc":
        return ("dc", clean(t[1])) + t[2:]
    return t


def reported(f, e, st, v, tid):
    """What sql_type() of this column says: [(state, type)]."""
    for tr, l in f.timpls.items():
        if not tr.endswith("::ColumnData"):
            continue
        for t, items, im in l:
            if f.tk(t) == "adt" and f.tdef(t) == f.tdef(tid) and items.get("sql_type") in f.bodies:
                env = {f.ts(g): e.ty_name(a) for g, a in zip(f.targs(t), f.targs(tid)) if f.tk(g) == "param"}
                cell = ("K", 0, "column")
                s = st.copy()
                s.mem[cell] = v
                e.tenvs.append(env)
                try:
                    r = e.run_fn(items["sql_type"], [("ref", (cell, ()))], s)
                finally:
                    e.tenvs.pop()
                return [(s2, x if isinstance(x, Panic) else clean(norm(resolve(e, s2, x)))) for s2, x in r]
    raise Anchor("the type of %s" % f.ts(tid))


def nested(e, f):
    """The types of nested columns, and trait functions of a known type."""
    def run(e, st, call):
        n = call.name
        if len(call.args) == 1 and call.rett is not None and f.tk(call.rett) == "ref" and f.is_adt(f.peel(call.rett), "SqlType") and n in ("into", "from"):
            return [(st, ("a", "call", "into", (e.deep(st, call.args[0]),)))]
        if n == "load_data" and call.path.endswith("load_data"):
            nm = [value(e, st, a) or norm(e.deep(st, a)) for a, t in zip(call.args, call.argts) if t is not None and f.ts(f.peel(t)) == "str"]
            return [(st.copy(), err(("a", "failed"))), (st, ok(("a", "column", S(*nm[0]) if nm and isinstance(nm[0], tuple) and (not nm[0] or isinstance(nm[0][0], (str, tuple)) and nm[0][0] not in ("a", "fld")) else bare(nm[0]))))]
        if n == "from_type" and call.path.endswith("from_type"):
            return [(st.copy(), err(("a", "failed"))), (st, ok(("a", "column", clean(norm(resolve(e, st, call.args[0]))))))]
        if n == "sql_type" and call.args:
            c = bare(norm(resolve(e, st, call.args[0])))
            if c[:2] == ("a", "column"):
                return [(st, TYPE(c[2]))]
        if call.trait and call.info.get("a") and f.bodies.get(call.path) is None or call.trait and not call.args and call.info.get("a"):
            t = e.ty_name(call.info["a"][0])
            for selft, items, im in f.timpls.get(call.trait, ()):
                if f.ts(selft) == t and items.get(n) in f.bodies and n in ("sql_type", "date_type", "get_sql_type"):
                    return e.run_fn(items[n], list(call.args), st)
        return None
    e.hooks.insert(0, run)


def load_engine(f):
    def inline(b):
        if "{closure" in b.p:
            return False
        return b.sp.startswith("src/types/column/") and b.n not in ("load_data", "at", "from_type", "size", "get_flags") and not b.unsafe
    e = prov_engine(f, inline)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(1)
    nested(e, f)
    return e


def loaded(f, p, args, tid):
    """Types the columns this loader builds report, for these arguments."""
    e = load_engine(f)
    out = []
    for st, v in e.run_fn(p, args, State(obs=())):
        if isinstance(v, Panic) or e.variant(st, v, RES) != "Ok":
            continue
        for s, t in reported(f, e, st, e.deep(st, e.payload(v, "Ok")), tid):
            if not isinstance(t, Panic):
                out.append(t)
    return out


def run_name(f, b, p, make=name_engine):
    """Outcomes of reading a column under this name: "Err", "Panic" or the type it reports."""
    e = make(f)
    args = []
    for i in range(1, b.argc + 1):
        if f.ts(f.peel(b.l[i])) == "str":
            args.append(p)
        else:
            args.append(ARG(b.locname.get(i, "a%d" % i)))
    out = []
    for st, v in e.run_fn(b.p, args, State(obs=())):
        if not feasible(st.facts):
            continue
        if VAGUE in st.obs:
            out.append(VAGUE)
            continue
        if isinstance(v, Panic):
            out.append(("Panic",))
            continue
        if e.variant(st, v, RES) == "Err":
            out.append(("Err",))
            continue
        w = [x for x in st.obs if x[0] == "wrap"]
        if len(w) != 1:
            out.append(VAGUE)
            continue
        tid, c = w[0][1], bare(norm(resolve(e, st, w[0][2])))
        src = None
        x = c
        while x[0] in ("fld", "dc"):
            x = x[1]
        if x[:2] == ("a", "call") and x[2] in f.bodies:
            src = x
        if src is not None:
            ts = loaded(f, src[2], list(src[3]), tid)
            if not ts:
                raise Bad("the loader of %s never succeeds" % f.ts(tid))
        else:
            ts = [t for _, t in reported(f, e, st, e.deep(st, w[0][2]), tid) if not isinstance(t, Panic)]
        for t in set(ts):
            out.append(("Ok", t))
    return out


class Bad(Exception):
    pass


def show(t):
    p = pieces(t)
    if p is not None:
        return "".join(x if isinstance(x, str) else "<%s>" % (x[1],) for x in p)
    if t[0] == "adt":
        return t[2] + ("(%s)" % ", ".join(show(x) for _, x in t[3]) if t[3] else "")
    return str(t)[:200]


SIMPLE = {n: n for n in ("Bool", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Int8", "Int16", "Int32", "Int64", "Int128", "Float32", "Float64", "String", "Date")}
SIMPLE.update({"IPv4": "Ipv4", "IPv6": "Ipv6", "UUID": "Uuid"})
ALIAS = {"TinyInt": "Int8", "SmallInt": "Int16", "Int": "Int32", "Integer": "Int32", "BigInt": "Int64", "Float": "Float32", "Double": "Float64"}
ALIAS.update({n: "String" for n in ("Char", "Varchar", "Text", "TinyText", "MediumText", "LongText", "Blob", "TinyBlob", "MediumBlob", "LongBlob")})
ALIAS.update({n.upper(): t for n, t in list(ALIAS.items())})
UNKNOWN = [("Unknown",), ("UInt",), ("UInt256",), ("Date32",), ("Nothing",), ("Foo(", A, ")"), ("Tuple(", A, ", ", B, ")"), ("AggregateFunction(sum, ", A, ")"), ("",), ("Point",), ("Dynamic",),
           ("Array",), ("Array(",), ("Nullable",), ("Nullable(",), ("Map",), ("Map(",), ("FixedString",), ("FixedString(",), ("LowCardinality",), ("LowCardinality(",),
           ("SimpleAggregateFunction",), ("SimpleAggregateFunction(",), ("Map(", A, ")"), ("Int256",), ("JSON",), ("Time",), ("Time64",),
           ("Enum32(", A, ")"), ("SimpleAggregateFunction(nosuch, ", A, ")")]


def typed(v, *xs):
    return ("adt", "types::SqlType", v, tuple((str(i), x) for i, x in enumerate(xs)), None)


def is_type(t, v, n=None):
    return t[0] == "adt" and t[1].endswith("SqlType") and t[2] == v and (n is None or len(t[3]) == n)


def payload(t):
    return [x for _, x in t[3]]


def names(f, aggs):
    """(name, does the reported type fit?)"""
    out = []

    def add_(p, fit):
        out.append((p, fit))
    for n, v in SIMPLE.items():
        add_((n,), lambda t, v=v: is_type(t, v, 0))

    def of(v, *args):
        return lambda t: is_type(t, v, len(args)) and all(x == TYPE(S(*a)) for x, a in zip(payload(t), args))
    for v in ("Nullable", "Array", "LowCardinality"):
        add_((v + "(", A, ")"), of(v, (A,)))
        if v != "Nullable":
            add_((v + "(Nullable(", A, "))"), of(v, ("Nullable(", A, ")")))
        add_((v + "(FixedString(", A, "))"), of(v, ("FixedString(", A, ")")))
    add_(("Nullable(Enum8('Nullable' = 1))",), of("Nullable", ("Enum8('Nullable' = 1)",)))
    for v in ("Nullable", "Array", "LowCardinality"):
        for k in (("Decimal(9, 2)",), ("DateTime64(3, 'UTC')",), ("Enum8('a' = 1, 'b' = 2)",), ("Decimal(", A, ", ", B, ")")):
            add_((v + "(",) + k + (")",), of(v, k))
    for k in (("Map(", A, ", ", B, ")"), ("Map(UInt8, ", A, ")"), ("SimpleAggregateFunction(sum, ", A, ")")):
        add_(("Array(",) + k + (")",), of("Array", k))
    for k in ("UInt8", "Enum8('a' = 1, 'b' = 2)", "Decimal(9, 2)", "DateTime64(3, 'UTC')", "Enum16('x,y)' = 1, '\\\\\\',' = 2)"):
        add_(("Map(" + k + ", ", A, ")"), of("Map", (k,), (A,)))
        add_(("Map(" + k + ", Array(", A, "))"), of("Map", (k,), ("Array(", A, ")")))
    for fn, var in sorted(aggs.items()):
        for inner in ((A,), ("Nullable(", A, ")"), ("Decimal(18, 2)",), ("Map(", A, ", ", B, ")")):
            def fit(t, fn=fn, var=var, inner=inner):
                if not is_type(t, "SimpleAggregateFunction", 2) or payload(t)[1] != TYPE(S(*inner)):
                    return False
                x = payload(t)[0]
                if x[0] == "adt":
                    return x[2] == var
                return x[0] == "fld" and x[1][0] == "dc" and x[1][2] in ("Ok", "Some") and (isc(x[1][1], "parse", "from_str") and bare(x[1][1][3][0]) == C(fn))
            add_(("SimpleAggregateFunction(" + fn + ", ",) + inner + (")",), fit)

    def parsed(x, h):
        return x[0] == "fld" and x[1][0] == "dc" and x[1][2] in ("Ok", "Some") and isc(x[1][1], "parse", "from_str") and bare(x[1][1][3][0]) == S(h) or \
            isc(x, "parse") and bare(x[3][0]) == S(h)
    add_(("FixedString(", A, ")"), lambda t: is_type(t, "FixedString", 1) and (parsed(payload(t)[0], A)))
    for v in ("Enum8", "Enum16"):
        add_((v + "(", A, ")"), lambda t, v=v: is_type(t, v, 1) and contains(t, A) and not lossy(payload(t)[0]))
    add_(("Decimal(", A, ", ", B, ")"), lambda t: is_type(t, "Decimal", 2) and contains(payload(t)[0], A) and payload(t)[0] != payload(t)[1])
    for p in (("Decimal32(", A, ")"), ("Decimal64(", A, ")")):
        add_(p, lambda t: is_type(t, "Decimal", 2) and payload(t)[0] != payload(t)[1])

    def dt(t):
        return is_type(t, "DateTime", 1) and payload(t)[0][0] == "adt" and payload(t)[0][2] != "DateTime64"

    def dt64(t):
        if not is_type(t, "DateTime", 1):
            return False
        d = payload(t)[0]
        return d[0] == "adt" and d[2] == "DateTime64" and contains(payload(d)[0], A) and untouched(payload(d)[0]) and \
            (payload(d)[1] == ARG("tz") or payload(d)[1][:2] == ("a", "arg") or isc_any(payload(d)[1], "parse", "from_str"))
    for p in (("DateTime",), ("DateTime('", A, "')")):
        add_(p, dt)
    for p in (("DateTime64(", A, ")"), ("DateTime64(", A, ", '", B, "')")):
        add_(p, dt64)
    return out


LOSSY = ("rev", "reverse", "skip", "take", "filter", "filter_map", "step_by", "skip_while", "take_while", "dedup", "dedup_by_key", "truncate", "pop", "remove", "swap_remove", "retain", "drain", "swap",
         "rotate_left", "rotate_right", "split_off", "mut:reverse", "mut:truncate", "mut:pop", "mut:remove", "mut:swap_remove", "mut:retain", "mut:dedup", "mut:dedup_by_key", "mut:swap")


def lossy(t):
    """Are the values a parser gave reordered, or some of them left out?"""
    if not isinstance(t, tuple):
        return False
    if len(t) == 4 and t[:2] == ("a", "call"):
        if t[2] == "combine":
            return False
        if last(t[2]) in LOSSY and "Option" not in t[2]:
            return True
    return any(lossy(x) for x in t)


def untouched(t):
    """A component of what a parser gave, or a number read from text; not something computed from it."""
    t = bare(t)
    while t[0] in ("fld", "dc", "cast"):
        t = bare(t[2] if t[0] == "cast" else t[1])
    return t[0] != "op" and not (len(t) == 4 and t[:2] == ("a", "call") and last(t[2]) in ("min", "max", "clamp", "saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add", "rem_euclid", "pow"))


def own_zone(t):
    """Does a DateTime64 column have a zone other than the connection's?"""
    d = payload(t)[0]
    return d[0] == "adt" and d[2] == "DateTime64" and payload(d)[1] != ARG("tz") and payload(d)[1][:2] != ("a", "arg")


def unclear(t):
    """Does a nested type depend on text the analysis does not follow?"""
    return any(x[:2] == ("a", "type") and pieces(x[2]) is None for x in subterms_of(t))


def isc_any(t, *n):
    return any(last(p) in n for p, _ in calls_in(t))


def readers(ctx, f, flag, aggs):
    b = find_one(f, "load_data", "load_data")
    w = where(f, b.p)
    k = 0
    for nm, fit in names(f, aggs):
        shown = show(S(*nm))
        try:
            o = run_name(f, b, S(*nm))
        except Bad as x:
            flag("the column read under the name %s: %s" % (shown, x), w)
            continue
        k += 1
        ts = [x[1] for x in o if x[0] == "Ok" and not unclear(x[1])]
        if len(ts) < sum(x[0] == "Ok" for x in o):
            o.append(VAGUE)
        if ("Panic",) in o:
            flag("reading a column under the name %s panics" % shown, w)
        elif not ts and VAGUE in o:
            pass
        elif not ts:
            flag("the type name %s is not recognised" % shown, w)
        elif not all(fit(t) for t in ts):
            flag("the column read under the name %s reports another type: %s" % (shown, show([t for t in ts if not fit(t)][0])), w)
        elif nm[0] == "DateTime64(" and len(nm) == 5 and VAGUE not in o and not any(own_zone(t) for t in ts):
            flag("the zone in the type name %s is not used" % shown, w)
        ctx.oblige("reader of %s" % shown, True, where=w)
        if nm[0] in ("Enum8(", "Enum16("):
            for t in ts:
                escapes(f, nm[0][:-1], t, flag, w)
    for n, v in ALIAS.items():
        for x in run_name(f, b, S(n)):
            if x[0] == "Panic" or x[0] == "Ok" and not is_type(x[1], v, 0):
                flag("the column read under the name %s reports another type" % n, w)
        k += 1
    for nm in UNKNOWN:
        for x in run_name(f, b, S(*nm)):
            if x[0] not in ("Err", "vague") and not (x[0] == "Ok" and unclear(x[1])):
                flag("the unknown type name %s is not an error" % show(S(*nm)), w)
        k += 1
    ctx.floor("type names followed to a reader", k, 100)


ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "b": "\b", "f": "\f", "'": "'", "\\": "\\", "x": None, "N": None}


def escapes(f, what, t, flag, w):
    """What a backslash and the character after it stand for in the names of an enumeration (when they are read with parser combinators)."""
    def is_slash(x):
        return isc(x, "token", "char") and x[3] == (C(92),)
    e = name_engine(f)
    done = set()

    def apply(fv, x):
        for c, want in ESC.items():
            if want is None or not isinstance(fv, tuple):
                continue
            if fv == ():
                got = {C(ord(c))}
            else:
                got = {e.deep(s, v) if not isinstance(v, Panic) else v for s, v in callv(e, State(obs=()), fv, [C(ord(c))], ("escape", 0, w))}
            if all(isinstance(g, tuple) and g[0] == "c" for g in got) and got != {C(ord(want))}:
                flag("the escape sequence \\%s in a name of %s is not read as what it stands for" % (c, what), w)

    def go(x, fv):
        """fv: the function the value of this parser is mapped with."""
        if not isinstance(x, tuple) or (x, fv) in done:
            return
        done.add((x, fv))
        if len(x) == 4 and x[:2] == ("a", "call"):
            n, a = last(x[2]), x[3]
            if n == "map" and len(a) == 2:
                go(a[0], a[1])
                return
            if n == "with" and len(a) == 2 and is_slash(bare(a[0])):
                y = bare(a[1])
                if isc(y, "map") and isc(bare(y[3][0]), "any"):
                    apply(y[3][1], x)
                    return
                if isc(y, "any"):
                    apply(fv, x)
                    return
            for y in a:
                go(y, ())
            return
        for y in x:
            go(y, ())
    go(t, ())


VARIANTS = {v: () for v in list(SIMPLE.values())}
VARIANTS.update({"FixedString": ("n",), "Nullable": ("t",), "Array": ("t",), "LowCardinality": ("t",), "Decimal": ("p", "s"), "Enum8": ("values",), "Enum16": ("values",),
                 "SimpleAggregateFunction": ("func", "t"), "Map": ("k", "v")})


def descriptors(f):
    a = [x for x in f.adts if x.endswith("::SqlType")]
    if len(a) != 1:
        raise Anchor("SqlType")
    for v, ps in VARIANTS.items():
        yield v, ("adt", a[0], v, tuple((str(i), ARG(p)) for i, p in enumerate(ps)), None)
    d = [x for x in f.adts if x.endswith("::DateTimeType")]
    if len(d) != 1:
        raise Anchor("DateTimeType")
    for k in ("DateTime32", "Chrono"):
        yield "DateTime", ("adt", a[0], "DateTime", (("0", ("adt", d[0], k, (), None)),), None)
    yield "DateTime64", ("adt", a[0], "DateTime", (("0", ("adt", d[0], "DateTime64", (("0", ARG("precision")), ("1", ARG("zone"))), None)),), None)


def builders(ctx, f, flag):
    """The empty column made for a type reports that type."""
    b = find_one(f, "from_type", "from_type", lambda b: b.argc >= 1 and f.is_adt(b.l[1], "SqlType"))
    w = where(f, b.p)
    k = 0
    for v, d in descriptors(f):
        e = load_engine(f)

        def wrap(e, st, call):
            if call.name == "wrap":
                s = st.copy()
                s.obs = s.obs + (("wrap", call.info["a"][-1], e.deep(st, call.args[-1])),)
                return [(s, ("a", "wrapped"))]
        e.hooks.insert(0, wrap)
        n = 0
        for st, r in e.run_fn(b.p, [d] + [ARG(b.locname.get(i, "a%d" % i)) for i in range(2, b.argc + 1)], State(obs=())):
            if isinstance(r, Panic) or e.variant(st, r, RES) != "Ok":
                continue
            ws = [x for x in st.obs if x[0] == "wrap"]
            if len(ws) != 1:
                flag("from_type builds no column for %s" % v, w)
                continue
            for _, t in reported(f, e, st, ws[0][2], ws[0][1]):
                if isinstance(t, Panic):
                    continue
                n += 1
                want = untype(t)
                good = want == d
                if v == "DateTime":
                    good = is_type(t, "DateTime", 1) and payload(t)[0][0] == "adt" and payload(t)[0][2] != "DateTime64"
                if not good:
                    flag("the column made for %s reports another type: %s" % (v, show(t)), w)
        if not n:
            flag("no column can be made for %s" % v, w)
        k += 1
        ctx.oblige("column made for %s" % v, True, where=w)
    ctx.floor("types columns are made for", k, 30)


def untype(t):
    """The type of a column made for a type is that type."""
    if t[:2] == ("a", "type"):
        return clean(t[2])
    if t[0] == "adt":
        return t[:3] + (tuple((k, untype(x)) for k, x in t[3]),) + t[4:]
    return t


NAME = {v: n for n, v in SIMPLE.items()}
FORM = {"FixedString": ["FixedString(", "n", ")"], "Nullable": ["Nullable(", "t", ")"], "Array": ["Array(", "t", ")"], "LowCardinality": ["LowCardinality(", "t", ")"],
        "Decimal": ["Decimal(", "p", ",", "s", ")"], "SimpleAggregateFunction": ["SimpleAggregateFunction(", "func", ",", "t", ")"], "Map": ["Map(", "k", ",", "v", ")"],
        "DateTime": ["DateTime"], "DateTime64": ["DateTime64(", "precision", ",'", "zone", "')"]}


def squeeze(p, aggs):
    """Pieces of text without blanks; descriptors of aggregate functions are their names."""
    out = []
    for x in p:
        x = x.replace(" ", "") if isinstance(x, str) else bare(clean(x))
        if not isinstance(x, str) and x[0] == "adt" and x[1].endswith("::SimpleAggFunc"):
            x = next((n for n, v in aggs.items() if v == x[2]), x)
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return [x for x in out if x != ""]


def written(ctx, f, flag, aggs):
    """The name written for a type."""
    b = find_one(f, "to_string", "SqlType::to_string", lambda b: b.argc == 1 and f.is_adt(b.l[1], "SqlType"))
    w = where(f, b.p)
    k = 0
    adt = [x for x in f.adts if x.endswith("::SimpleAggFunc")][0]

    def each():
        for v, d in descriptors(f):
            if v != "SimpleAggregateFunction":
                yield v, d, None
                continue
            for n, a in sorted(aggs.items()):
                yield v, d[:3] + ((("0", ("adt", adt, a, (), None)), ("1", ARG("t"))),) + d[4:], n
    for v, d, func in each():
        e = prov_engine(f, lambda x: x.sp.startswith("src/types/mod.rs") and x.n not in ("fmt", "from", "from_str") and not (x.n == "to_string" and x.argc == 1))
        e.gc_returns = False
        e.no_widen = True
        e.head_hook = rounds(1)
        cell = ("K", 0, "self")
        st = State(obs=())
        st.mem[cell] = d
        for s, r in e.run_fn(b.p, [("ref", (cell, ()))], st):
            if isinstance(r, Panic):
                flag("writing the name of %s panics" % v, w)
                continue
            nested_debug = []

            def debug(x):
                x = bare(clean(x))
                if x in (ARG("t"), ARG("k"), ARG("v")):
                    nested_debug.append(x)
                return x[:2] == ("a", "arg")
            txt.DEBUG.append(debug)
            try:
                got = squeeze(txt.text(norm(resolve(e, s, r))), aggs)
            except txt.Unknown as x:
                continue
            finally:
                txt.DEBUG.clear()
            k += 1
            if nested_debug:
                flag("the type nested in %s is not written by its name" % v, w)
            if v in ("Enum8", "Enum16"):
                enum_name(f, e, s, v, got, flag, w)
                continue
            want = [NAME[v]] if v in NAME else [ARG(x) if x in VARIANTS.get(v, ("precision", "zone")) else x for x in FORM[v]]
            if func is not None:
                want = ["SimpleAggregateFunction(%s," % func, ARG("t"), ")"]
            if got != want:
                flag("the name written for %s is not one the reader recognises as that type: %s" % (v, "".join(x if isinstance(x, str) else "{}" for x in got)), w)
        ctx.oblige("name of %s" % v, True, where=w)
    ctx.floor("names written", k, 25)


def enum_name(f, e, st, v, got, flag, w):
    if not got or not isinstance(got[0], str) or not got[0].startswith(v + "(") or not isinstance(got[-1], str) or not got[-1].endswith(")"):
        flag("the name written for %s is not one the reader recognises as that type" % v, w)
        return
    # the closure applied to the values
    for x in got:
        if not isinstance(x, str):
            for p, a in calls_in(x):
                if last(p) == "map" and len(a) == 2 and a[1][0] in ("clo", "fn"):
                    for ch in "'\\\\,()= nt0_":
                        e2 = writer(f)
                        s0, pair = st.copy(), ("tup", (C("a" + ch + "b"), ARG("value")))
                        body = f.bodies.get(a[1][1])
                        if body is not None and body.argc and f.tk(body.l[body.argc]) == "ref":
                            s0.mem[("K", 0, "pair")] = pair
                            pair = ("ref", (("K", 0, "pair"), ()))
                        for s, r in callv(e2, s0, a[1], [pair], ("enum", 0, w)):
                            if isinstance(r, Panic):
                                continue
                            try:
                                t = txt.text(norm(resolve(e2, s, r)))
                            except txt.Unknown:
                                continue
                            got = read_back(t)
                            if got is not None and got != "a" + ch + "b":
                                flag("a %s in a name of %s is not written as the reader reads it" % ("quote" if ch == "'" else "backslash" if ch == "\\" else "character", v), w)


def writer(f):
    def inline(b):
        return b.sp.startswith("src/types/") and (b.k == "fn" or "{closure" in b.p)
    e = prov_engine(f, inline)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = lambda e, st, body, fid, bi, n: "cut" if n > 60 else None

    def run(e, st, call):
        if call.name == "replace" and len(call.args) == 3:
            x, b = value(e, st, call.args[0]), value(e, st, call.args[2])
            a = e.deep(st, call.args[1])
            a = chr(a[1]) if a[0] == "c" and isinstance(a[1], int) else "".join(value(e, st, call.args[1]) or ())
            if a and x is not None and b is not None and all(isinstance(y, str) for y in x + b):
                return [(st, C("".join(x).replace(a, "".join(b))))]
        return None
    str_hooks(e)
    e.hooks.insert(0, run)
    return e


def read_back(t):
    """The name the reader gets from what is written for a name and its value; None: not known."""
    out = []
    for x in t:
        if isinstance(x, str):
            out += x
            continue
        x = bare(x)
        if x[0] == "c" and isinstance(x[1], int) and not isinstance(x[1], bool):
            out.append(chr(x[1]))
        elif x[0] == "c" and isinstance(x[1], str):
            out += x[1]
        elif x == ARG("value"):
            out.append(None)
        else:
            return None
    if out[:1] != ["'"]:
        return ""
    k, name = 1, ""
    while k < len(out) and out[k] != "'":
        if out[k] is None:
            return ""
        if out[k] == "\\" and k + 1 < len(out):
            k += 1
            if out[k] is None or ESC.get(out[k], out[k]) is None:
                return ""
            name += ESC.get(out[k], out[k])
        else:
            name += out[k]
        k += 1
    return name if [x for x in out[k + 1:] if x != " "] == ["=", None] else ""


def aggregates(ctx, f, flag):
    """Names of aggregate functions: {name: variant}."""
    a = [x for x in f.adts if x.endswith("::SimpleAggFunc")]
    if len(a) != 1:
        raise Anchor("SimpleAggFunc")
    adt = a[0]
    vs = [v["n"] for v in f.adts[adt]["v"]]
    fr = [b for b in f.bodies.values() if b.n in ("from", "into") and b.k == "method" and b.argc == 1 and f.is_adt(b.l[1], "SimpleAggFunc") and f.ts(f.peel(b.l[0])) == "str"]
    to = [b for b in f.bodies.values() if b.n in ("from_str", "try_from") and b.argc == 1 and f.ts(b.l[0]).startswith("std::result::Result<") and f.is_adt(f.targs(b.l[0])[0], "SimpleAggFunc")]
    if len(fr) != 1 or len(to) != 1:
        raise Anchor("names of aggregate functions")
    names_, w = {}, where(f, fr[0].p)
    for v in vs:
        e = name_engine(f)
        for st, r in e.run_fn(fr[0].p, [("adt", adt, v, (), None)], State(obs=())):
            p = None if isinstance(r, Panic) else value(e, st, r)
            if p is None or not all(isinstance(x, str) for x in p):
                flag("the aggregate function %s has no name" % v, w)
                continue
            n = "".join(p)
            if n in names_ and names_[n] != v:
                flag("two aggregate functions have the name %s" % n, w)
            if n.lower() != v.lower():
                flag("the aggregate function %s is written as %s" % (v, n), w)
            names_[n] = v
    w = where(f, to[0].p)
    for n, v in names_.items():
        e = name_engine(f)
        got = set()
        for st, r in e.run_fn(to[0].p, [C(n)], State(obs=())):
            if isinstance(r, Panic) or e.variant(st, r, RES) != "Ok":
                got.add(None)
            else:
                x = e.deep(st, e.payload(r, "Ok"))
                got.add(x[2] if x[0] == "adt" else "?")
        if got != {v}:
            flag("the aggregate function name %s is not read as %s" % (n, v), w)
        ctx.oblige("aggregate function %s" % n, True, where=w)
    e = name_engine(f)
    for st, r in e.run_fn(to[0].p, [C("nosuch")], State(obs=())):
        if isinstance(r, Panic) or e.variant(st, r, RES) != "Err":
            flag("an unknown aggregate function name is not an error", w)
    ctx.floor("aggregate functions", len(names_), 16)
    return names_


BITS = [("N32", 9), ("N64", 18)]


def decimals(ctx, f, flag):
    """The width of a decimal column follows from its precision, and Decimal32 and Decimal64 stand for the largest precision of their width."""
    a = [x for x in f.adts if x.endswith("::NoBits")]
    if len(a) != 1 or [v["n"] for v in f.adts[a[0]]["v"]] != [n for n, _ in BITS]:
        raise Anchor("NoBits")
    width = [b for b in f.bodies.values() if b.k in ("method", "fn") and b.argc == 1 and f.ts(b.l[1]) == "u8" and is_option_of(f, b.l[0], "NoBits")]
    for b in width:
        for p in range(256 if ctx.thorough else 40):
            want = next((n for n, most in BITS if p <= most), None)
            e = prov_engine(f, lambda x: "{closure" in x.p)
            for st, v in e.run_fn(b.p, [C(p)], State(obs=())):
                if isinstance(v, Panic):
                    flag("the width of a decimal of precision %d panics" % p, where(f, b.p))
                    continue
                got = None
                if e.variant(st, v, OPT) == "Some":
                    x = e.deep(st, e.payload(v, "Some"))
                    got = x[2] if x[0] == "adt" else "?"
                if got != want and got != "?":
                    flag("a decimal column of precision %d is %s wide, not %s" % (p, got, want), where(f, b.p))
        ctx.oblige("width of every precision", True, where=where(f, b.p))
    k = 0
    for b in list(f.bodies.values()):
        if b.k != "fn" or b.argc != 1 or f.ts(f.peel(b.l[1])) != "str" or not f.ts(b.l[0]).startswith("std::option::Option<(u8, u8, "):
            continue
        e = prov_engine(f, lambda x: "{closure" in x.p)
        e.gc_returns, e.no_widen, e.head_hook = False, True, rounds(2)
        for st, v in e.run_fn(b.p, [ARG("source")], State(obs=())):
            if isinstance(v, Panic) or e.variant(st, v, OPT) != "Some":
                continue
            x = clean(norm(resolve(e, st, e.payload(v, "Some"))))
            if x[0] != "tup" or len(x[1]) != 3:
                continue
            p, s, n = x[1]
            k += 1
            if n[0] == "adt" and p[0] == "c" and (n[2], p[1]) not in BITS:
                flag("a decimal column named by its width (%s) reports the precision %s" % (n[2], p[1]), where(f, b.p))
            if p == s:
                flag("a decimal column takes its precision and its scale from the same parameter", where(f, b.p))
        ctx.oblige("widths named", True, where=where(f, b.p))
    ctx.count("decimal readings", k)


def numbers(ctx, f, flag):
    """The numbers in a type name are those of the type."""
    b = find_one(f, "load_data", "load_data")
    w = where(f, b.p)
    top = 18
    ps = range(1, top + 1) if ctx.thorough else (1, 2, 5, 8, 9, 10, 11, 17, 18)
    cases = []
    for p in ps:
        for s in (range(p + 1) if ctx.thorough else sorted({0, 1, p // 2, p - 1, p})):
            cases.append(("Decimal(%d, %d)" % (p, s), "Decimal", (C(p), C(s))))
    for n, most in (("Decimal32", 9), ("Decimal64", 18)):
        cases += [("%s(%d)" % (n, s), "Decimal", (C(most), C(s))) for s in range(most + 1)]
    cases += [("FixedString(%d)" % n, "FixedString", (C(n),)) for n in (1, 2, 7, 10, 16, 255, 256, 65536)]
    cases += [("Decimal(%d, %d)" % x, None, ()) for x in ((19, 2), (38, 4), (76, 0), (300, 2), (256 + 9, 2))]
    k = 0
    for name, v, want in cases:
        try:
            o = run_name(f, b, S(name), exact_engine)
        except (Bad, Limit):
            continue
        if VAGUE in o:
            continue
        ts = {x[1] for x in o if x[0] == "Ok"}
        if ("Panic",) in o:
            flag("reading a column under the name %s panics" % name, w)
        if v is None:
            if ts:
                flag("the unknown type name %s is not an error" % name, w)
            k += 1
        elif not ts:
            flag("the type name %s is not recognised" % name, w)
        for t in ts if v else ():
            if is_type(t, v) and all(x[0] == "c" for x in payload(t)):
                k += 1
                if tuple(payload(t)) != want:
                    flag("the column read under the name %s reports another type: %s" % (name, show(t)), w)
    ctx.oblige("numbers in type names", True, where=w)
    ctx.count("numbers in type names", k)


STORE = {"N32": "Int32", "N64": "Int64"}


def stores(ctx, f, flag):
    """The integers decimals and enumerations are kept in have the width of the type."""
    b = find_one(f, "from_type", "from_type", lambda b: b.argc >= 1 and f.is_adt(b.l[1], "SqlType"))
    a = [x for x in f.adts if x.endswith("::SqlType")][0]
    nb = [x for x in f.adts if x.endswith("::NoBits")][0]
    cases = [("Decimal(%d, 2)" % p, (C(p), C(2)), "Decimal", "Int32" if p <= 9 else "Int64") for p in (2, 9, 10, 18)]
    cases += [("Enum8", (ARG("values"),), "Enum8", "Int8"), ("Enum16", (ARG("values"),), "Enum16", "Int16")]
    k = 0

    def look(v, what, want, w):
        n = 0
        for x in subterms_of(clean(norm(v))):
            if x[:2] != ("a", "column") or len(x) != 3:
                continue
            t = x[2]
            p = pieces(t)
            got = t[2] if t[0] == "adt" and t[1].endswith("SqlType") else "".join(p) if p and all(isinstance(y, str) for y in p) else None
            if got is None:
                continue
            n += 1
            if got != want:
                flag("the values of a column of %s are kept as %s, not %s" % (what, got, want), w)
        return min(n, 1)
    for what, args, v, want in cases:
        e = load_engine(f)
        base = e.inline_filter
        e.inline_filter = lambda x, base=base: base(x) or x.sp.startswith("src/types/decimal.rs") and x.argc == 1

        def wrap(e, st, call):
            if call.name == "wrap":
                s = st.copy()
                s.obs = s.obs + (("wrap", resolve(e, st, call.args[-1])),)
                return [(s, ("a", "wrapped"))]
        e.hooks.insert(0, wrap)
        d = ("adt", a, v, tuple((str(i), x) for i, x in enumerate(args)), None)
        n = 0
        for st, r in e.run_fn(b.p, [d] + [ARG(b.locname.get(i, "a%d" % i)) for i in range(2, b.argc + 1)], State(obs=())):
            if not isinstance(r, Panic):
                n = max([n] + [look(x[1], what, want, where(f, b.p)) for x in st.obs if x[0] == "wrap"])
        k += n
        ctx.oblige("store of %s" % what, True, where=where(f, b.p))
    for b in list(f.bodies.values()):
        t = [f.ts(f.peel(b.l[0]))] if b.argc else [""]
        name = next((v for v in ("Decimal", "Enum8", "Enum16") if b.k == "method" and re.search(r"\b%sColumnData\b" % v, t[0])), None)
        if name is None or not t[0].startswith("std::result::Result<") or "load" not in b.n:
            continue
        for bits in (STORE if name == "Decimal" else [None]):
            e = load_engine(f)
            args = [("adt", nb, bits, (), None) if bits and f.is_adt(b.l[i], "NoBits") else ARG(b.locname.get(i, "a%d" % i)) for i in range(1, b.argc + 1)]
            want = STORE[bits] if bits else name.replace("Enum", "Int")
            n = 0
            for st, r in e.run_fn(b.p, args, State(obs=())):
                if not isinstance(r, Panic) and e.variant(st, r, RES) == "Ok":
                    n = max(n, look(resolve(e, st, e.payload(r, "Ok")), name + (" (%s)" % bits if bits else ""), want, where(f, b.p)))
            k += n
            ctx.oblige("store of a loaded %s" % name, True, where=where(f, b.p))
    ctx.count("stores", k)


def interned(ctx, f, flag):
    """The shared descriptor of a type is that type."""
    bs = [b for b in f.bodies.values() if b.n in ("from", "into") and b.k == "method" and b.argc == 1 and f.tk(b.l[1]) == "adt" and f.is_adt(b.l[1], "SqlType")
          and f.tk(b.l[0]) == "ref" and f.is_adt(f.peel(b.l[0]), "SqlType")]
    if len(bs) != 1:
        raise Anchor("shared descriptors of types")
    b = bs[0]
    w = where(f, b.p)
    k = 0
    for v, d in descriptors(f):
        e = prov_engine(f, lambda x: x.sp.startswith("src/types/mod.rs") and x.k == "fn" or "{closure" in x.p)
        e.gc_returns, e.no_widen, e.keep_dead = False, True, True
        e.head_hook = rounds(1)
        e.drop_hook = lambda e, st, loc, ty, site: [st]

        def run(e, st, call):
            if call.name == "get" and len(call.args) == 2:
                s = st.copy()
                return [(s, NONE), (st, some(("a", "cached", clean(norm(resolve(e, st, call.args[1]))))))]
            if call.name == "insert" and len(call.args) == 3:
                s = st.copy()
                s.obs = s.obs + (("stored",) + tuple(stored(clean(norm(resolve(e, st, a)))) for a in call.args[1:]),)
                return [(s, NONE)]
            return None
        e.hooks.insert(0, run)
        st = State(obs=())
        st.mem[("L", 0, 1)] = d
        e.stack.append((b.p, (b.p, -1, b.sp)))
        try:
            out = e.run(st, b, 0)
        finally:
            e.stack.pop()
        for s, r in out:
            if isinstance(r, Panic):
                continue
            k += 1
            r = clean(norm(resolve(e, s, r)))
            keys = {x[2] for x in subterms_of(r) if x[:2] == ("a", "cached")}
            for key, val in [x[1:] for x in s.obs if x[0] == "stored"]:
                if key[0] == val[0] == "adt" and key != val or key[0] == "adt" and key != d:
                    flag("the shared descriptor of %s is stored as another type" % v, w)
            if is_type(r, v) and r != d or r[0] == "adt" and r[1] == d[1] and r[2] != v or len(keys) == 1 and all(x[0] == "adt" for x in keys) and keys != {d}:
                flag("the shared descriptor of %s is another type" % v, w)
        ctx.oblige("shared descriptor of %s" % v, True, where=w)
    ctx.floor("shared descriptors", k, 25)


def stored(t):
    for _ in range(4):
        if len(t) == 4 and t[:2] == ("a", "call") and last(t[2]) in ("pin", "new", "leak", "from") and len(t[3]) == 1:
            t = clean(t[3][0])
    return t


def subterms_of(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms_of(x)


VALUES = {"bool": "Bool", "u8": "UInt8", "u16": "UInt16", "u32": "UInt32", "u64": "UInt64", "u128": "UInt128", "i8": "Int8", "i16": "Int16", "i32": "Int32", "i64": "Int64", "i128": "Int128",
          "f32": "Float32", "f64": "Float64", "&str": "String", "std::string::String": "String", "chrono::NaiveDate": "Date"}


def static_types(ctx, f, flag):
    """The column type of a Rust type."""
    k = 0
    for tr, l in f.timpls.items():
        if not tr.endswith("::HasSqlType"):
            continue
        for t, items, im in l:
            ty = re.sub(r"&('\w+ )?", "&", f.ts(t))
            p = items.get("get_sql_type")
            if ty not in VALUES or p not in f.bodies:
                continue
            e = prov_engine(f, lambda x: x.sp.startswith("src/types/mod.rs"))
            for st, r in e.run_fn(p, [], State(obs=())):
                r = r if isinstance(r, Panic) else clean(norm(resolve(e, st, r)))
                if not isinstance(r, Panic) and r[0] == "adt" and r[2] != VALUES[ty]:
                    flag("the column type of %s is %s" % (ty, r[2]), where(f, p))
            k += 1
            ctx.oblige("column type of %s" % ty, True, where=where(f, p))
    ctx.floor("column types of Rust types", k, 14)


def is_option_of(f, tid, name):
    return f.ts(tid).startswith("std::option::Option<") and f.is_adt(f.targs(tid)[0], name)


def check(ctx):
    f = ctx.facts()
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    aggs = aggregates(ctx, f, flag)
    readers(ctx, f, flag, aggs)
    builders(ctx, f, flag)
    written(ctx, f, flag, aggs)
    decimals(ctx, f, flag)
    numbers(ctx, f, flag)
    stores(ctx, f, flag)
    interned(ctx, f, flag)
    static_types(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)
