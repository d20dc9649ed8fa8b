"""C19 Typed access to a column is refused unless the types match."""
from engine import State, Panic, C, OPT, RES, contains
from prov import prov_engine
from transport import Anchor
from rules.util import where, calls
from rules.c12 import isc
from rules.c17 import resolve
from rules.c22 import panics
from wire import norm, plain, rounds

TECHNIQUE = "path-sensitive abstract interpretation over MIR of every FromSql and Iterable implementation: which type variants the path to a success has established"
RULE = "a FromSql or Iterable implementation for a Rust type succeeds only on paths that established a column type the Rust type represents; nested accesses pass on the nested type and the column's route"
ASSUMPTIONS = [
    "which column types a Rust type represents is the table in this rule (taken from the crate's documentation)",
    "the numbers given as nesting level and map level are not checked, only that they are handed on",
]

NUM = {"u8": "UInt8", "u16": "UInt16", "u32": "UInt32", "u64": "UInt64", "u128": "UInt128", "i8": "Int8", "i16": "Int16",
       "i32": "Int32", "i64": "Int64", "i128": "Int128", "f32": "Float32", "f64": "Float64", "bool": "Bool"}
ONE = {"std::net::Ipv4Addr": "Ipv4", "std::net::Ipv6Addr": "Ipv6", "uuid::Uuid": "Uuid", "types::decimal::Decimal": "Decimal",
       "types::enums::Enum8": "Enum8", "types::enums::Enum16": "Enum16", "&str": "String", "&[u8]": "String",
       "std::string::String": "String", "chrono::NaiveDate": "Date"}
# Rust type -> the sets of nested variants accepted: a path of variants from the value's or column's type down
CELL = {k: {(v,)} for k, v in list(NUM.items()) + list(ONE.items())}
CELL["chrono::DateTime<chrono_tz::Tz>"] = {("DateTime",), ("DateTime64",)}
CELL["std::collections::HashMap<K, V>"] = {("Map",)}
CELL["std::option::Option<T>"] = {("Nullable",)}
ITER = {k: {(v,)} for k, v in list(NUM.items()) + list(ONE.items()) if not k.startswith("types::enums")}
ITER["&[u8]"] = {("String",), ("FixedString",), ("LowCardinality", "String"), ("LowCardinality", "FixedString")}
for t in ("chrono::DateTime<chrono_tz::Tz>", "chrono::NaiveDateTime"):
    ITER[t] = {("DateTime",), ("LowCardinality", "DateTime")}
ITER["chrono::NaiveDate"] = {("Date",), ("LowCardinality", "Date")}
ITER["std::option::Option<T>"] = {("Nullable",)}
ITER["std::vec::Vec<T>"] = {("Array",)}
ITER["std::collections::HashMap<K, V>"] = {("Map",)}


def cells_for(t):
    if t == "std::vec::Vec<u8>":
        return {("String",), ("Array", "UInt8")}
    if t.startswith("std::vec::Vec<"):
        i = t[len("std::vec::Vec<"):-1]
        if i == "std::vec::Vec<u8>":
            return {("Array", "String")}
        if i == "chrono::DateTime<chrono_tz::Tz>":
            return {("Array", "DateTime")}
        return {("Array",) + x for x in CELL[i]} if i in CELL else None
    return CELL.get(t)


def strip(t):
    """A term without references and conversions."""
    for _ in range(8):
        t = plain(t)
        if t[0] == "deref":
            t = t[1]
        elif t[0] == "ref" and t[1][0][0] == "H" and t[1][1] == ():
            t = t[1][0][1]
        elif t[0] == "a" and len(t) > 3 and t[1] == "call" and t[2].split("::")[-1] in ("clone", "as_ref", "deref", "into", "from", "borrow", "to_owned") and len(t[3]) == 1:
            t = t[3][0]
        else:
            return t
    return t


def known(e, st, root, f, agg=None):
    """Paths of variants known on this path, starting at the term root."""
    facts = {}
    for t, y in st.facts.items():
        if isinstance(t, tuple) and t[0] == "discr" and y[0] == "=" and t in e.discr_adt:
            facts[strip(norm(t[1]))] = f.variant_of(e.discr_adt[t], y[1])
        elif isinstance(t, tuple) and (t[:2] in (("op", "Eq"), ("op", "Ne")) or isc(t, "eq", "ne")) and y[0] == "=":
            a, b = t[2:4] if t[0] == "op" else t[3]
            yes = (t[:2] == ("op", "Eq") or isc(t, "eq")) == bool(y[1])
            a, b = strip(norm(a)), strip(norm(b))
            for x, z in ((a, b), (b, a)):
                if yes and z[0] == "adt" and z[2] and z[1].endswith("SqlType"):
                    facts[x] = z[2]
        elif isinstance(t, tuple) and t[0] == "a" and len(t) > 3 and t[1] == "call" and t[2] in (agg or ()) and y == ("=", True):
            a = [strip(norm(x)) for x in t[3]]
            ks = [x[2] for x in a if x[0] == "adt" and x[1].endswith("SqlType") and x[2]]
            for x in a:
                if ks and x[0] != "adt":
                    facts[x] = ks[0]
    out = []

    def walk(t, path, n):
        v = facts.get(t)
        if v is None and t[0] == "adt" and t[1].endswith("SqlType"):
            v = t[2]
        if v is None or n > 3:
            out.append(path)
            return
        kids = [k for k in facts if k != t and k[0] == "fld" and k[1] == ("dc", t, v)]
        if v == "SimpleAggregateFunction" and kids:
            for k in kids:
                walk(k, path, n + 1)
            return
        out.append(path + (v,))
        for k in kids:
            walk(k, path + (v,), n + 1)
    walk(root, (), 0)
    return out, facts


def tests(f):
    """Functions that compare two column types, looking through aggregate functions."""
    return [b for b in f.bodies.values() if b.argc == 2 and f.ts(b.l[0]) == "bool" and all("SqlType" in f.ts(t) and f.tk(t) == "ref" for t in b.l[1:3]) and b.k == "fn"]


def engine(f, agg, inline):
    e = prov_engine(f, inline)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(1)

    def hook(e, st, call):
        if call.path in agg or call.p in agg:
            return [(st, ("a", "call", call.path if call.path in agg else call.p, tuple(norm(resolve(e, st, x)) for x in call.args)))]
        if call.name in ("get_internal", "get_internals", "iter", "iter_with_props", "from_sql"):
            st = st.copy()
            st.obs = st.obs + ((call.name, tuple(norm(e.deep(st, x)) for x in call.args), str(call.argts[0]) if call.argts else "", call.p),)
            if call.name.startswith("get"):
                s2 = st.copy()
                for i, l in enumerate(cellrefs(e, st, call.args[1])):
                    e.write_loc(st, l, ("a", "memory", len(st.obs), i))
                return [(st, ("adt", RES, "Ok", (("0", ("unit",)),), None)), (s2, ("adt", RES, "Err", (("0", ("a", "error")),), None))]
            r = ("a", "call", call.name, tuple(norm(e.deep(st, x)) for x in call.args))
            return [(st, r)]
        return None
    e.hooks.insert(0, hook)
    e.hooks.append(panics)
    return e


def cellrefs(e, st, v, n=0):
    """Locations a call may write to through an argument."""
    out = []
    if n > 4 or not isinstance(v, tuple) or not v:
        return out
    if v[0] == "ref":
        x = e.read_loc(st, v[1])
        if isinstance(x, tuple) and x and x[0] in ("arr", "tup"):
            for y in x[1]:
                out += cellrefs(e, st, y, n + 1)
        elif isinstance(x, tuple) and x and x[0] == "ref":
            out += cellrefs(e, st, x, n + 1)
        else:
            out.append(v[1])
    elif v[0] in ("arr", "tup"):
        for y in v[1]:
            out += cellrefs(e, st, y, n + 1)
    elif v[0] in ("op", "cast", "a"):
        for y in v[1:]:
            out += cellrefs(e, st, y, n + 1)
    return out


def results(e, paths):
    for s, v in paths:
        if isinstance(v, Panic):
            continue
        w = e.deep(s, v)
        var = e.variant(s, w, RES)
        if var == "Err":
            continue
        if var is None and isc(norm(w), "from_sql", "iter", "iter_with_props"):
            continue                     # another implementation decides
        yield s, w, var


def cells(ctx, f, flag):
    n = okc = 0
    skipped = 0
    impls = [(t, items) for tr, l in f.timpls.items() if tr.endswith("FromSql") for t, items, im in l]
    for t, items in impls:
        ty = f.ts(t)
        want = cells_for(ty)
        p = items.get("from_sql")
        if want is None or p not in f.bodies:
            skipped += 1
            continue
        n += 1
        w = where(f, p)
        e = engine(f, (), lambda b: b.sp.startswith(("src/types/value_ref.rs", "src/types/from_sql.rs")) and b.n not in ("from", "into", "fmt", "from_sql"))
        A = ("a", "arg", "value")
        mine = 0
        for s, v, var in results(e, e.run_fn(p, [A], State(obs=()))):
            got, facts = known(e, s, A, f)
            mine += 1
            if not any(g[:len(x)] == x for g in got for x in want):
                flag("%s: a cell is read as %s although it is only known to be %s" % (p, ty, " or ".join("/".join(g) or "anything" for g in got)), w)
                continue
            x = norm(v)
            if var == "Ok" and not contains(x, A) and not ty.startswith("std::option"):
                flag("%s: what is returned is not the cell's value" % p, w)
            if ty.startswith("std::option"):
                pl = e.payload(v, "Ok")
                pv = e.variant(s, e.deep(s, pl), OPT)
                inner = [y for k, y in facts.items() if k == ("fld", ("dc", A, "Nullable"), "0")]
                if inner == ["Left"] and pv != "None" or inner == ["Right"] and pv != "Some":
                    flag("%s: NULL and a value are confused" % p, w)
                if pv == "Some" and not any(o[0] == "from_sql" and contains(o[1][0], A) for o in s.obs):
                    flag("%s: the value inside is not read as the type asked for" % p, w)
            if ty.startswith("std::collections") and var == "Ok":
                pass
        okc += mine
        ctx.oblige("%s: %d successful paths, all of type %s" % (p, mine, " or ".join("/".join(x) for x in want)), mine > 0, where=w)
    ctx.floor("types read from cells", n, 30)
    ctx.count("FromSql implementations not in the table", skipped)
    # an access to a cell reads that cell, as the type asked for
    m = 0
    for b in f.bodies.values():
        if b.k not in ("method", "fn") or "from_sql" in b.p.split("::")[-1] or "::test" in b.p or b.sp.startswith("src/types/from_sql") or not f.ts(b.l[0]).startswith("std::result::Result<T"):
            continue
        if not any(c[1]["p"].endswith("::from_sql") for c in calls(f, b)):
            continue
        e = engine(f, (), lambda x: False)
        for s, v, var in results(e, e.run_fn(b.p, None, State(obs=()))):
            m += 1
            if not any(o[0] == "from_sql" for o in s.obs):
                flag("%s: a value is returned that was not converted from a cell" % b.p, where(f, b.p))
        m += 1
    ctx.floor("functions that convert cells", m, 1)


def columns(ctx, f, flag):
    agg = {b.p for b in tests(f)}
    for p in agg:
        type_test(ctx, f, p, flag)
    n = 0
    for tr, l in f.timpls.items():
        if not tr.endswith("::Iterable"):
            continue
        for t, items, im in l:
            ty = f.ts(t)
            p = items.get("iter_with_props")
            if f.tk(t) == "param" or p not in f.bodies:
                continue
            want = ITER.get(ty)
            if want is None:
                ctx.count("Iterable implementations not in the table")
                continue
            n += 1
            column(ctx, f, p, ty, want, agg, flag)
    ctx.floor("types columns are iterated as", n, 20)
    # entry points ask with the column's own type
    for b in f.bodies.values():
        if b.n == "iter" and b.k == "method" and b.argc == 1 and f.tk(f.peel(b.l[1])) == "adt" and (f.tdef(f.peel(b.l[1])) or "").endswith("column::Column"):
            e = engine(f, agg, lambda x: False)
            A = ("a", "arg", "self")
            m = 0
            for s, v in e.run_fn(b.p, [A], State(obs=())):
                for o in s.obs:
                    if o[0] in ("iter", "iter_with_props"):
                        m += 1
                        if strip(o[1][0]) != A or not (isc(strip(o[1][1]), "sql_type") and contains(o[1][1], A)):
                            flag("%s: the column is not iterated by its own type" % b.p, where(f, b.p))
            ctx.oblige("%s asks with the column's type" % b.p, m > 0, where=where(f, b.p))


def column(ctx, f, p, ty, want, agg, flag):
    w = where(f, p)
    e = engine(f, agg, lambda b: b.sp.startswith("src/types/column/iter") and b.n not in ("iter", "iter_with_props", "len", "next", "cast_datetime_error"))
    COL, T, PR = ("a", "arg", "column"), ("a", "arg", "column_type"), ("a", "arg", "props")
    mine = 0
    nested = ty.endswith(("Option<T>", "Vec<T>", "HashMap<K, V>"))
    for s, v, var in results(e, e.run_fn(p, [COL, T, PR], State(obs=()))):
        mine += 1
        got, facts = known(e, s, T, f, agg)
        if not any(g[:len(x)] == x for g in got for x in want):
            flag("%s: a column is read as %s although it is only known to be %s" % (p, ty, " or ".join("/".join(g) or "anything" for g in got)), w)
            continue
        its = [o for o in s.obs if o[0].startswith("iter")]
        raw = [o for o in s.obs if o[0].startswith("get_internal")]
        if nested:
            V = want.copy().pop()[0]
            need = ["0", "1"] if V == "Map" else ["0"]
            if V == "Map":
                its = its[:2]
            types = [strip(o[1][1]) for o in its]
            if types != [("fld", ("dc", T, V), k) for k in need]:
                flag("%s: the values inside are not read by the type inside" % p, w)
            for o in its:
                if strip(o[1][0]) != COL:
                    flag("%s: the values inside are not read from this column" % p, w)
            if V != "Map":
                for o in its:
                    if o[0] == "iter" or not contains(o[1][2], PR):
                        flag("%s: the route to the column inside a map is lost" % p, w)
            elif its and (its[0][0] == "iter" or isinstance(its[0][1][2], tuple) and its[0][1][2][0] == "c" and not its[0][1][2][1] & 1):
                flag("%s: keys are read as values" % p, w)
        for o in raw:
            if o[0] == "get_internal" and not contains(o[1][-1], PR):
                flag("%s: the route to the column inside a map is lost" % p, w)
            if strip(o[1][0]) != COL and not contains(o[1][0], COL):
                flag("%s: memory of another column is read" % p, w)
        if not raw:
            flag("%s: succeeds without having asked the column for its memory" % p, w)
        # which width date times are read with
        for k in list(subterms(norm(v))):
            if k[0] == "adt" and k[1].endswith("DateTimeInnerIterator"):
                pr = [y for x, y in facts.items() if x[0] == "fld" and x[2] == "precision" or isinstance(x, tuple) and "precision" in str(x)[-40:]]
                if pr and (k[2] == "DateTime32") != (pr[-1] == "None"):
                    flag("%s: date times of one width are read with the other" % p, w)
    ctx.oblige("%s: %d successful paths, all of type %s" % (p, mine, " or ".join("/".join(x) for x in want)), mine > 0, where=w)


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def type_test(ctx, f, p, flag):
    """check_type(src, dst): true only if src is dst, or an aggregate function whose nested type is."""
    b = f.bodies[p]
    w = where(f, p)
    e = engine(f, {p}, lambda x: False)
    S, D = ("a", "arg", "src"), ("a", "arg", "dst")
    n = 0
    for s, v in e.run_fn(p, [S, D], State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        v = norm(e.deep(s, v))
        good = v[0] == "c" and not v[1]
        if v[0] == "op" and v[1] == "Eq" or isc(v, "eq"):
            a = [strip(x) for x in (v[2:4] if v[0] == "op" else v[3])]
            good = set(a) == {S, D}
        if isc(v, p.split("::")[-1]):
            a = [strip(x) for x in v[3]]
            good = a[1] == D and a[0] == ("fld", ("dc", S, "SimpleAggregateFunction"), "1")
        if v[0] == "c" and v[1]:
            got = [t for t, y in s.facts.items() if isinstance(t, tuple) and (t[:2] == ("op", "Eq") or isc(t, "eq")) and y == ("=", True) and {strip(norm(x)) for x in (t[2:4] if t[0] == "op" else t[3])} <= {S, D, ("fld", ("dc", S, "SimpleAggregateFunction"), "1")}]
            good = bool(got)
        if not good:
            flag("%s: types that differ are taken for the same" % p, w)
    ctx.oblige("%s: %d outcomes" % (p, n), n > 0, where=w)


def stored(ctx, f, flag):
    """The type a buffer of numbers reports is the type of its numbers."""
    n = 0
    for tr, l in f.timpls.items():
        if not tr.endswith("StatBuffer"):
            continue
        for t, items, im in l:
            ty, p = f.ts(t), items.get("sql_type")
            if p not in f.bodies or ty not in NUM:
                continue
            e = engine(f, (), lambda b: False)
            for s, v in e.run_fn(p, [], State(obs=())):
                if isinstance(v, Panic):
                    continue
                n += 1
                v = e.deep(s, v)
                if not (v[0] == "adt" and v[2] == NUM[ty]):
                    flag("%s: numbers of type %s are reported as another type" % (p, ty), where(f, p))
    ctx.floor("number types", n, 12)
    ctx.oblige("%d number types are reported as what they are" % n, True)


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    cells(ctx, f, flag)
    columns(ctx, f, flag)
    stored(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)
