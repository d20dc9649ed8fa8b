"""C22 Copies of a block or column are independent."""
from engine import State, Panic, C, OPT, NONE, TRUE, FALSE, some, ok, err, contains
from prov import prov_engine
from rules.util import where, calls
from rules.c12 import isc, last
from rules.c17 import resolve
from wire import norm, plain, rounds

RULE = ("Every push into a column is analysed twice, path by path: with the reference-counted data it holds owned by nobody else, and with that data shared "
        "with a clone, cast or chunk. The second analysis must not reach a panic the first does not, and must leave the column with the same rows: whatever is "
        "pushed goes to the shared data's copy, made by clone_instance. clone_instance of every column that accepts rows returns the same column with each "
        "field a copy of the original's (a cache may be left out). Nothing shared by those copies can be changed through a shared reference: no column "
        "or block type holds an interior-mutable cell behind a reference count or pointer, and no column is written through a raw pointer.")
ASSUMPTIONS = ["Safe Rust: data reached through Arc::get_mut, a Box or &mut is changed by its one owner only.",
               "Columns of joined, chunked and adapted blocks accept no rows at all, shared or not; that is not judged here."]
TECHNIQUE = "ownership analysis over MIR: every push is followed with its shared data once exclusively owned and once shared with a copy"
SELF, VALUE = ("a", "arg", "self"), ("a", "arg", "value")
ME = ("R", "self")
COPY = ("clone", "clone_instance", "to_owned", "to_vec", "from", "into")


def fresh(v):
    """Is v the only owner of its content (a box or a new Arc made on this path)?"""
    v = norm(v)
    while v[0] == "conv" or isc(v, "from", "into", "new"):
        v = norm(v[2] if v[0] == "conv" else v[3][0] if v[3] else ("ref", (("B",), ())))
    if v[0] == "ref":
        return v[1][0][0] in ("B", "Bold")
    return isc(v, "clone_instance", "empty", "from_type", "with_capacity") or v[0] == "adt"


def panics(e, st, call):
    """unimplemented!(), todo!(), unreachable!() without a message."""
    return [(st, Panic(call.name, call.site))] if "panicking::" in call.p and call.name.endswith("default_msg") else None


def engine(f, shared):
    e = prov_engine(f, lambda b: b.sp.startswith(("src/types/column/", "src/types/block/")) and b.n not in
                    ("clone_instance", "at", "len", "sql_type", "cast_to", "from_type", "get_timezone", "get_value_map", "clone"))
    e.no_widen = True
    e.gc_returns = False
    e.head_hook = rounds(2)

    def hook(e, st, call):
        if not call.args or last(call.path) not in ("get_mut", "strong_count", "weak_count", "try_unwrap", "into_inner", "make_mut", "is_unique"):
            return None
        if "Arc" not in call.path and "Arc" not in call.p:
            return None
        n = last(call.path)
        byref = n not in ("try_unwrap", "into_inner")
        loc = e.deref(st, call.args[0]) if byref else None
        v = e.read_loc(st, loc) if byref else call.args[0]
        alone = fresh(resolve(e, st, v)) or not shared
        st = st.copy()
        if not alone:
            st.obs = st.obs + (("shared", call.site),)
        cell = v if v[0] == "ref" else ("ref", (("H", v), ()))
        if n == "get_mut":
            return [(st, some(cell) if alone else NONE)]
        if n == "strong_count":
            return [(st, C(1) if alone else C(2))]
        if n == "weak_count":
            return [(st, C(0))]
        if n == "is_unique":
            return [(st, TRUE if alone else FALSE)]
        if n == "try_unwrap":
            return [(st, ok(e.read_loc(st, cell[1])) if alone else err(v))]
        if n == "into_inner":
            return [(st, some(e.read_loc(st, cell[1])) if alone else NONE)]
        if not alone:            # Arc::make_mut
            new = ("a", "call", "std::convert::From::from", (("a", "call", "clone", (v,)),))
            e.write_loc(st, loc, new)
            cell = ("ref", (("H", new), ()))
        return [(st, cell)]
    e.hooks.insert(0, hook)
    e.hooks.append(panics)
    return e


def erase(v):
    """v with copies replaced by what they are copies of."""
    if not isinstance(v, tuple):
        return v
    v = tuple(erase(x) for x in v)
    if len(v) == 4 and v[:2] == ("a", "call") and last(v[2]) in COPY and len(v[3]) == 1 and not v[2].startswith("mut:"):
        return v[3][0]
    if len(v) == 3 and v[0] == "conv":
        return v[2]
    if len(v) == 2 and v[0] == "deref":
        return v[1]
    if len(v) == 2 and v[0] == "ref" and isinstance(v[1], tuple) and len(v[1]) == 2 and v[1][1] == () and v[1][0] and v[1][0][0] == "H":
        return v[1][0][1]
    if v and v[0] == "adt" and len(v) == 5 and v[4] is not None:
        kept = tuple((n, x) for n, x in v[3] if x != ("fld", v[4], n))
        return v[4] if not kept else v[:3] + (kept, v[4])
    return v


def paths(f, path, shared):
    e = engine(f, shared)
    st = State(obs=())
    st.mem[ME] = SELF
    b = f.bodies[path]
    args = [("ref", (ME, ()))] + [("a", "arg", b.locname.get(i, str(i))) for i in range(2, b.argc + 1)]
    out = []
    for s, v in e.run_fn(path, args, st):
        if isinstance(v, Panic):
            out.append((s, v, None))
            continue
        eff = {}
        for k, x in s.mem.items():
            if k[0] in ("H", "R"):
                x = erase(norm(resolve(e, s, x)))
                k = erase(norm(k))
                if k[0] == "H" and x == k[1]:
                    continue
                eff[k] = x
        out.append((s, v, frozenset(eff.items())))
    return out


def pushers(f, cols):
    """Every function that pushes into reference-counted column data: the push of each column type, and whatever else asks for exclusive access."""
    out = [items["push"] for _, items in cols if items.get("push") in f.bodies]
    for b in f.bodies.values():
        if b.argc < 2 or b.p in out or "{closure" in b.p or not f.ts(b.l[1]).startswith("&mut "):
            continue
        d = f.tdef(f.peel(b.l[1])) if f.tk(f.peel(b.l[1])) == "adt" else ""
        if not d or not f.adts.get(d, {}).get("local"):
            continue
        if any(last(info["p"]) in ("get_mut", "make_mut", "try_unwrap", "strong_count", "into_inner") and "Arc" in info["p"] for _, info, _, _ in calls(f, b)) and \
                any("ColumnData" in f.ts(x["t"]) for v in f.adts[d]["v"] for x in v["f"]):
            out.append(b.p)
    return out


CELLS = ("Cell<", "Mutex<", "RwLock<", "sync::atomic::", "OnceLock<", "OnceCell<", "LazyLock<")
SHARES = ("Arc<", "Rc<", "*const ", "*mut ", "&'static ", "Weak<")


def shares(f, t, behind=False, seen=None):
    """The interior-mutable type a value of type t shares with its clones, or None."""
    seen = set() if seen is None else seen
    if (t, behind) in seen:
        return None
    seen.add((t, behind))
    s = f.ts(t)
    k = f.tk(t)
    d = f.tdef(t) if k == "adt" else ""
    cell = any(s.split("<")[0].endswith(c.rstrip("<:")) for c in CELLS if c.endswith("<")) or "sync::atomic::" in s.split("<")[0]
    if cell and behind:
        return s
    nxt = behind or k in ("ptr", "rawptr") or s.startswith(("*const", "*mut")) or d.endswith(("sync::Arc", "rc::Rc"))
    if d and f.adts.get(d, {}).get("local"):
        for v in f.adts[d]["v"]:
            for x in v["f"]:
                r = shares(f, x["t"], nxt, seen)
                if r:
                    return r
    try:
        args = f.targs(t) or []
    except Exception:
        args = []
    for a in args:
        if isinstance(a, int):
            r = shares(f, a, nxt, seen)
            if r:
                return r
    return None


def check(ctx):
    f = ctx.facts("default")
    cols = []
    for tr, l in f.timpls.items():
        if tr.endswith("::ColumnData"):
            cols += [(t, items) for t, items, im in l if f.tk(t) == "adt"]
    ctx.floor("column types", len(cols), 20)
    accepts, n = set(), 0
    for p in sorted(set(pushers(f, cols))):
        w = where(f, p)
        a, b = paths(f, p, False), paths(f, p, True)
        n += len(a) + len(b)
        alone = {(x.why, x.site[0]) for _, x, _ in a if isinstance(x, Panic)}
        ends = {m for _, x, m in a if not isinstance(x, Panic)}
        if not ends:
            continue
        accepts.add(p)
        good = True
        for s, x, m in b:
            if isinstance(x, Panic):
                if (x.why, x.site[0]) not in alone:
                    ctx.violation("%s panics when a copy exists" % p, "%s: %s when the data is shared with a copy" % (p, x.why), "%s (%s)" % (x.site[2], x.site[0]))
                    good = False
            elif m not in ends:
                ctx.violation("%s differs when a copy exists" % p, "%s: with the data shared with a copy the rows are not pushed as they otherwise are" % p, w)
                good = False
        if not any(not isinstance(x, Panic) for _, x, _ in b) and good:
            ctx.violation("%s never ends when a copy exists" % p, "%s: no row can be pushed while the data is shared with a copy" % p, w)
            good = False
        if good:
            ctx.oblige("%s: %d paths alone, %d shared" % (p, len(a), len(b)), True, where=w)
    ctx.floor("functions that push rows", len(accepts), 14)
    ctx.count("paths", n)
    k = 0
    for t, items in cols:
        if items.get("push") not in accepts or items.get("clone_instance") not in f.bodies:
            continue
        k += 1
        copied(ctx, f, t, items["clone_instance"])
    ctx.floor("clone_instance of columns that accept rows", k, 13)
    for d in {f.tdef(t) for t, _ in cols} | {d for d in f.adts if d.endswith(("block::Block", "column::Column"))}:
        for v in f.adts[d]["v"]:
            for x in v["f"]:
                r = shares(f, x["t"])
                if r:
                    ctx.violation("%s.%s is shared" % (d, x["n"]), "%s.%s shares a %s with its copies" % (d, x["n"], r), d)
    raw(ctx, f, {f.tdef(t) for t, _ in cols})


def copied(ctx, f, t, p):
    w = where(f, p)
    d = f.tdef(t)
    e = prov_engine(f, lambda b: b.sp.startswith("src/types/column/") and b.n not in ("clone_instance", "clone", "at", "len", "sql_type", "from_type", "empty"))
    e.no_widen = True
    e.gc_returns = False
    e.head_hook = rounds(1)
    e.hooks.append(panics)
    for s, v in e.run_fn(p, [SELF], State(obs=())):
        if isinstance(v, Panic):
            ctx.violation("%s panics" % p, "%s: %s" % (p, v.why), w)
            continue
        x = norm(resolve(e, s, v))
        if x[0] == "ref":
            x = norm(resolve(e, s, e.read_loc(s, x[1])))
        while x[0] == "conv" or isc(x, "new", "from"):
            x = norm(x[2] if x[0] == "conv" else x[3][0])
        if erase(x) in (SELF, ("deref", SELF)):
            continue
        if x[0] != "adt":
            ctx.violation("%s is no copy" % p, "%s does not return a copy of the column" % p, w)
            continue
        got = dict(x[3])
        for v in f.adts[d]["v"]:
            for fl in v["f"]:
                y = got.get(fl["n"])
                if "PhantomData" in f.ts(fl["t"]) or y is None and x[4] is not None and erase(x[4]) == SELF:
                    continue
                if y is not None and y[0] == "adt" and y[2] == "None" and "HashMap" in f.ts(fl["t"]):
                    continue
                y = strip(erase(y)) if y is not None else None
                if y != ("fld", SELF, fl["n"]):
                    ctx.violation("%s: %s is not copied" % (p, fl["n"]), "%s: the copy's %s is not a copy of the column's" % (p, fl["n"]), w)
    ctx.oblige("%s copies each field" % p, True, where=w)


def strip(y):
    """A struct built from all the fields of one value is that value."""
    if isinstance(y, tuple) and y and y[0] == "adt" and y[3]:
        subs = [(n, strip(x)) for n, x in y[3]]
        base = {x[1] for n, x in subs if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == n}
        if len(base) == 1 and all(isinstance(x, tuple) and x[0] == "fld" and x[2] == n for n, x in subs):
            return base.pop()
    return y


def raw(ctx, f, cols):
    """No column data is written through a raw pointer."""
    data = cols | {d for d in f.adts if d.endswith(("::List", "::StringPool", "::LowCardinalityIndex", "::Column", "::Block"))}

    def is_data(t):
        s = f.ts(t)
        return "dyn types::column::column_data::ColumnData" in s and not s.startswith(("&", "std::")) or f.tk(t) == "adt" and f.tdef(t) in data

    def pointee(b, pl):
        """Type written through a raw pointer by place pl, or None."""
        t = b.l[pl[0]]
        for pr in pl[1]:
            if pr[0] == "*":
                if f.ts(t).startswith("*"):
                    p = f.ts(t).split(" ", 1)[1] if " " in f.ts(t) else ""
                    return p
                t = None
            if pr[0] == "." and len(pr) > 2:
                t = pr[2]
            elif pr[0] == "*":
                t = None
            if t is None:
                return None
        return None
    names = {d for d in data}
    n = 0
    for b in f.bodies.values():
        for bl in b.b:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                pls = [s[1]]
                if s[2][0] == "ref" and s[2][1] == "m" or s[2][0] == "ptr" and s[2][1] == "Mut":
                    pls.append(s[2][2])
                for pl in pls:
                    p = pointee(b, pl)
                    if p is None:
                        continue
                    n += 1
                    if p.split("<")[0] in names or p.startswith("dyn types::column::column_data::ColumnData"):
                        ctx.violation("%s writes %s through a raw pointer" % (b.p, p), "%s changes a column (%s) through a raw pointer" % (b.p, p), "%s (%s)" % (s[3], b.p))
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and last(t[1][1]["p"]) in ("get_mut_unchecked",):
                ctx.violation("%s: get_mut_unchecked" % b.p, "%s changes data that may be shared" % b.p, "%s (%s)" % (bl["sp"], b.p))
    ctx.count("writes through raw pointers", n)
