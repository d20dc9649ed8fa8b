"""C21 All columns of a block always have the same number of rows."""
import itertools
import os
from engine import Limit, State, Panic, C, OPT, RES, NONE, TRUE, FALSE, UNIT, some, ok, err, contains, field
from models import nrm
from prov import prov_engine
from lin import lin, add
from transport import Anchor
from rules.util import where, calls
from rules.c12 import isc, last
from rules.c17 import resolve
from rules.c22 import erase, panics
from wire import norm, plain, rounds
import vecs

TECHNIQUE = "abstract interpretation over MIR of every function that builds or changes a block, with the lengths of its columns as symbolic terms"
RULE = "every function that changes or builds the columns of a block leaves them with equally many rows or fails; a row is given to every column or the block is left as it was"
ASSUMPTIONS = [
    "blocks of up to three columns and rows of up to three values (four in the thorough tier) stand for all, as the code treats columns alike",
    "a value of the wrong type for its column panics in the column (it is not a rejected row that is reported)",
]
BLK = ("R", "block")


def names(f):
    blk = [d for d in f.adts if d.endswith("block::Block")]
    col = [d for d in f.adts if d.endswith("column::Column")]
    if len(blk) != 1 or len(col) != 1:
        raise Anchor("Block and Column")
    vec = [x["n"] for v in f.adts[blk[0]]["v"] for x in v["f"] if "Vec<" in f.ts(x["t"]) and "Column" in f.ts(x["t"])]
    data = [x["n"] for v in f.adts[col[0]]["v"] for x in v["f"] if "ColumnData" in f.ts(x["t"])]
    name = [x["n"] for v in f.adts[col[0]]["v"] for x in v["f"] if f.ts(x["t"]).endswith("String")]
    if len(vec) != 1 or len(data) != 1 or len(name) != 1:
        raise Anchor("the columns of Block, the name and data of Column")
    return blk[0], col[0], vec[0], data[0], name[0]


class Blocks:
    def __init__(self, f, push=True):
        self.f = f
        self.blk, self.col, self.vec, self.data, self.name = names(f)
        self.rows = None
        e = prov_engine(f, lambda b: b.sp.startswith(("src/types/block/", "src/types/column/mod.rs", "src/types/column/column_data.rs", "src/lib.rs")) and
                        b.n not in ("sql_type", "at", "cast_to", "fmt", "write", "get_internal", "get_internals", "get_timezone", "from_sql"))
        e.no_widen = True
        e.gc_returns = False
        e.head_hook = rounds(9)
        e.MAX_HEAD = 100000
        self.e = e
        e.hooks.insert(0, vecs.hook)
        e.hooks.insert(0, self.hook)
        e.hooks.append(panics)

    def column(self, name, data):
        return ("adt", self.col, None, tuple(sorted(((self.name, name), (self.data, data), ("_marker", UNIT)))), None)

    def block(self, cols, tag="block"):
        return ("adt", self.blk, None, ((self.vec, ("arr", tuple(cols))),), ("a", "arg", tag))

    def data_of(self, e, st, v):
        """The column data a receiver denotes."""
        v = e.deep(st, v)
        for _ in range(8):
            if v[0] == "ref":
                if v[1][0][0] == "H" and v[1][1] == ():
                    v = v[1][0][1]
                    continue
                v = e.deep(st, e.read_loc(st, v[1]))
                continue
            if v[0] == "deref":
                v = v[1]
                continue
            if v[0] == "adt" and v[1] == self.col:
                v = dict(v[3])[self.data]
                continue
            break
        return erase(norm(v))

    def length(self, d):
        d = plain(d)
        if d[:2] == ("a", "data"):
            return self.rows
        if isc(d, "from_type"):
            return C(0)
        if d[0] == "adt" and d[1].endswith("ChunkColumnData"):
            r = [x for _, x in d[3] if x[0] == "adt" and x[1].endswith("Range")]
            if len(r) == 1:
                q = dict(r[0][3])
                l = add(lin(q["end"]), lin(q["start"]), -1)
                return ("a", "len", tuple(sorted(((repr(k), k, v) for k, v in l.items()), key=str)))
        return ("a", "len", d)

    def hook(self, e, st, call):
        n, a = call.name, call.args
        if not a:
            return None
        if n == "get_mut" and "Arc" in call.p:
            v = e.read_loc(st, e.deref(st, a[0]))
            return [(st, some(v if v[0] == "ref" else ("ref", (("H", v), ()))))]
        if n == "push" and len(a) == 2 and "ColumnData" in (call.trait or call.p):
            st = st.copy()
            st.obs = st.obs + (("push", self.data_of(e, st, a[0]), norm(resolve(e, st, a[1]))),)
            return [(st, UNIT)]
        if n == "len" and "ColumnData" in (call.trait or call.p):
            d = self.data_of(e, st, a[0])
            k = sum(1 for o in st.obs if o[0] == "push" and o[1] == d)
            x = self.length(d)
            return [(st, C(x[1] + k) if x[0] == "c" else ("op", "Add", x, C(k)) if k else x)]
        if n == "from_type" and "ColumnData" in call.p:
            s2 = st.copy()
            i = sum(1 for o in st.obs if o[0] == "new")
            st = st.copy()
            d = ("a", "call", "from_type", tuple(norm(resolve(e, st, x)) for x in a) + (C(i),))
            st.obs = st.obs + (("new", d),)
            return [(st, ok(d)), (s2, err(("a", "type error")))]
        if n in ("from", "into", "clone", "to_owned", "to_string", "as_ref", "borrow", "deref", "as_str", "into_owned") and len(a) == 1:
            v = e.deep(st, vecs.content(e, st, a[0])[1])
            if v[0] == "c" and isinstance(v[1], str):
                return [(st, v if n in ("from", "into", "clone", "to_owned", "to_string", "into_owned") else ("ref", (("H", v), ())))] if n not in ("as_ref", "borrow", "deref", "as_str") else [(self.cell(st, v), ("ref", (("H", v), ())))]
            if v[:2] == ("a", "value") and n in ("from", "into"):
                return [(st, ("a", "call", "sql_type_of", (v,)))]
            if v[:2] == ("a", "value") and n == "clone":
                return [(st, v)]
        if n in ("eq", "ne") and len(a) == 2:
            x, y = (e.deep(st, vecs.content(e, st, z)[1]) for z in a)
            if x[0] == "c" and y[0] == "c":
                return [(st, C((x[1] == y[1]) == (n == "eq")))]
        if (call.trait or "").endswith("RowBuilder") and call.path not in self.impl_bodies():
            return self.row_method(st, call)
        return None

    def cell(self, st, v):
        st = st.copy()
        st.mem[("H", v)] = v
        return st

    def impl_bodies(self):
        return {p for tr, l in self.f.timpls.items() if tr.endswith("RowBuilder") for t, items, im in l for p in items.values()}

    def row_method(self, st, call):
        f, e = self.f, self.e
        v = call.args[0]
        if v[0] == "ref":
            v = e.read_loc(st, v[1])
        for tr, l in f.timpls.items():
            if not tr.endswith("RowBuilder"):
                continue
            for t, items, im in l:
                d = f.tdef(t) if f.tk(t) == "adt" else ""
                if v[0] == "adt" and d == v[1] or v[0] == "arr" and "Vec<" in f.ts(t):
                    p = items.get(call.name)
                    if p is None:
                        c = [b.p for b in f.bodies.values() if b.p.endswith("RowBuilder::" + call.name)]
                        p = c[0] if len(c) == 1 else None
                    if p in f.bodies:
                        return e.call_body(st, f.bodies[p], list(call.args), call.site)
        return None


def rows_of(keys, kind, B, f):
    vals = [("a", "value", j) for j in range(len(keys))]
    if kind == "Vec":
        return ("arr", tuple(("tup", (C(k), v)) for k, v in zip(keys, vals)))
    nil = [d for d in f.adts if d.endswith("::RNil")][0]
    cons = [d for d in f.adts if d.endswith("::RCons")][0]
    fl = [x["n"] for x in f.adts[cons]["v"][0]["f"]]
    if len(fl) != 3:
        raise Anchor("RCons")
    r = ("adt", nil, None, (), None)
    for k, v in reversed(list(zip(keys, vals))):
        d = {}
        for x in f.adts[cons]["v"][0]["f"]:
            t = f.ts(x["t"])
            d[x["n"]] = C(k) if "Cow" in t or "str" in t else v if t.endswith("Value") else r
        r = ("adt", cons, None, tuple(sorted(d.items())), None)
    return r


def pushes(ctx, f, flag):
    B = Blocks(f)
    c = [b for b in f.bodies.values() if b.n == "push" and b.self_ty is not None and f.tk(b.self_ty) == "adt" and f.tdef(b.self_ty) == B.blk]
    if len(c) != 1:
        raise Anchor("Block::push")
    p, w = c[0].p, where(f, c[0].p)
    shapes = [((), 0)] + [(s, k) for s in (("a",), ("a", "b"), ("a", "a"), ("a", "b", "c")) for k in (0, 1, 2)]
    entries = [()] + [k for m in (1, 2, 3) for k in itertools.product("abc", repeat=m)]
    if ctx.thorough:
        entries += list(itertools.product("abcd", repeat=4))
        shapes += [(("a", "b", "a"), 1), (("a", "b", "c", "d"), 1)]
    n = okc = errc = 0
    e = B.e
    for kind in ("Vec", "RCons"):
        for names_, k in shapes:
            for keys in entries:
                if kind == "RCons" and len(keys) > 2 and len(set(keys)) < 3:
                    continue
                B.rows = C(k)
                cols = [B.column(C(x), ("a", "data", i)) for i, x in enumerate(names_)]
                st = State(obs=())
                st.mem[BLK] = B.block(cols)
                for s, v in e.run_fn(p, [("ref", (BLK, ())), rows_of(keys, kind, B, f)], st):
                    if isinstance(v, Panic):
                        if "index out of bounds" in v.why:
                            flag("%s: a row of %d values for %d columns panics" % (p, len(keys), len(names_)), w)
                        continue
                    n += 1
                    v = e.deep(s, v)
                    now = e.read_loc(s, (BLK, ((".", B.vec),)))
                    now = e.deep(s, now)
                    what = "a row (%s) into a block (%s) of %d rows" % (", ".join(keys), ", ".join(names_), k)
                    if now[0] != "arr":
                        flag("%s: what becomes of the columns cannot be told (%s)" % (p, what), w)
                        continue
                    datas = [B.data_of(e, s, x) for x in now[1]]
                    lens = [(0 if isc(d, "from_type") else k) + sum(1 for o in s.obs if o[0] == "push" and o[1] == d) for d in datas]
                    var = e.variant(s, v, RES)
                    if var == "Ok":
                        okc += 1
                        if len(set(lens)) > 1:
                            flag("%s: columns of different lengths after pushing %s" % (p, what), w)
                        got = [(nm_of(e, s, B, x), o[2]) for x, d in zip(now[1], datas) for o in s.obs if o[0] == "push" and o[1] == d]
                        want = [(C(x), ("a", "value", j)) for j, x in enumerate(keys)]
                        if sorted(map(str, got)) != sorted(map(str, want)) and lens and len(set(lens)) == 1:
                            flag("%s: a value is not pushed into the column of its name" % p, w)
                    else:
                        errc += 1
                        if any(o[0] == "push" for o in s.obs):
                            flag("%s: a rejected row changes the block (%s)" % (p, what), w)
                        elif datas != [("a", "data", i) for i in range(len(names_))]:
                            flag("%s: a rejected row leaves new columns behind (%s)" % (p, what), w)
    ctx.floor("rows accepted", okc, 20)
    ctx.floor("rows rejected", errc, 20)
    ctx.oblige("%s: %d outcomes of pushing rows" % (p, n), True, where=w)
    return B


def nm_of(e, st, B, col):
    v = e.deep(st, col)
    return e.deep(st, field(v, B.name))


class Made(Blocks):
    """Functions that make blocks and columns of others."""

    def __init__(self, f):
        super().__init__(f)
        e = prov_engine(f, lambda b: b.sp.startswith(("src/types/block/", "src/types/column/mod.rs", "src/types/column/concat.rs", "src/types/column/chunk.rs", "src/types/column/column_data.rs")) and
                        b.n not in ("sql_type", "at", "fmt", "write", "get_internal", "get_internals", "get_timezone", "from_sql", "save"))
        e.no_widen = True
        e.gc_returns = False
        e.head_hook = rounds(9)
        e.MAX_HEAD = 100000
        self.e = e
        e.hooks.insert(0, vecs.hook)
        e.hooks.insert(0, self.hook)
        e.hooks.insert(0, self.made)
        e.hooks.append(panics)
        self.lens = {}
        self.lenof = {}
        for tr, l in f.timpls.items():
            if tr.endswith("ColumnData"):
                for t, items, im in l:
                    if f.tk(t) == "adt" and items.get("len") in f.bodies:
                        self.lenof[f.tdef(t)] = items["len"]

    def length(self, d):
        d = plain(d)
        for _ in range(6):
            if d in self.lens:
                return self.lens[d]
            if isc(d, "cast_to", "column_from", "wrap_arc", "wrap", "clone", "clone_instance") and d[3]:
                d = plain(d[3][-1 if isc(d, "wrap_arc", "wrap") else 0])
            elif isc(d, "empty") or isc(d, "from_type"):
                return C(0)
            elif d[0] == "fld" and d[2] == self.data:
                d = plain(d[1])
            elif d[0] == "adt" and d[1] == self.col:
                d = plain(dict(d[3])[self.data])
            elif d[0] in ("dc",) or d[0] == "fld" and d[1][0] == "dc":
                d = plain(d[1])
            elif d[0] == "ref" and d[1][0][0] == "H":
                d = plain(d[1][0][1])
            else:
                break
        return super().length(d)

    def count(self, st, v, deep=0):
        """Number of rows of a column's data: a number or None."""
        e = self.e
        v = e.deep(st, v)
        for _ in range(8):
            if v[0] == "ref":
                v = v[1][0][1] if v[1][0][0] == "H" and v[1][1] == () else e.deep(st, e.read_loc(st, v[1]))
            elif v[0] == "deref":
                v = v[1]
            elif v[0] == "adt" and v[1] == self.col:
                v = e.deep(st, dict(v[3])[self.data])
            else:
                break
        if v[0] == "adt" and v[1] in self.lenof and deep < 4:
            s = st.copy()
            s.mem[("H", v)] = v
            r = {x if isinstance(x, Panic) else e.deep(s2, x) for s2, x in e.call_body(s, self.f.bodies[self.lenof[v[1]]], [("ref", (("H", v), ()))], ("c21", -1, ""))}
            r = {x for x in r if not isinstance(x, Panic)}
            if len(r) == 1:
                x = r.pop()
                return x[1] if x[0] == "c" else None
            return None
        d = self.data_of(e, st, v)
        x = self.length(d)
        return x[1] + sum(1 for o in st.obs if o[0] == "push" and o[1] == d) if x[0] == "c" else None

    def made(self, e, st, call):
        n, a = call.name, call.args
        if n == "len" and len(a) == 1 and "ColumnData" in (call.trait or call.p) or n == "len" and len(a) == 1 and self.is_column(e, st, a[0]):
            k = self.count(st, a[0])
            if k is not None:
                return [(st, C(k))]
        if n == "new" and len(a) == 1 and any(x in nrm(call.p) for x in ("Arc", "Box")):
            return [(self.cell(st, e.deep(st, a[0])), ("ref", (("H", e.deep(st, a[0])), ())))]
        if n in ("into", "from") and len(a) == 1 and isc(a[0], "at"):
            return [(st, ("a", "value", a[0]))]
        if n in ("min", "max") and len(a) == 2:
            x, y = e.deep(st, a[0]), e.deep(st, a[1])
            if x[0] == y[0] == "c":
                return [(st, C((min if n == "min" else max)(x[1], y[1])))]
        if n == "len" and len(a) == 1:
            x = e.deep(st, vecs.content(e, st, a[0])[1])
            if x[0] == "adt" and x[1].endswith("ops::Range"):
                d = {k: e.deep(st, v) for k, v in x[3]}
                if d["start"][0] == d["end"][0] == "c":
                    return [(st, C(max(0, d["end"][1] - d["start"][1])))]
        if n in ("wrap", "wrap_arc") and a:
            return [(st, a[-1])]
        if n == "sql_type" and a:
            return [(st, ("a", "call", "sql_type", (self.data_of(e, st, a[0]),)))]
        if n == "column_from":
            return [(st, self.data_of(e, st, a[-1]))]
        return None

    def is_column(self, e, st, v):
        v = e.deep(st, vecs.content(e, st, v)[1])
        return v[0] == "adt" and v[1] == self.col

    def columns(self, st, v):
        """[number of rows] of the columns of a block value."""
        e = self.e
        v = e.deep(st, v)
        if v[0] == "ref":
            v = e.deep(st, e.read_loc(st, v[1]))
        if v[0] != "adt" or v[1] != self.blk:
            return None
        c = e.deep(st, dict(v[3])[self.vec])
        if c[0] != "arr":
            return None
        return [self.count(st, x) for x in c[1]]


def blocks_of(M, f, tag, lens):
    cols = []
    for i, k in enumerate(lens):
        d = ("a", "data", (tag, i))
        M.lens[d] = C(k)
        cols.append(M.column(C("n%d" % i), d))
    return M.block(cols, tag)


def cellof(st, name, v):
    st.mem[("R", name)] = v
    return ("ref", (("R", name), ()))


def judge(M, st, v, w, p, what, flag, stat, want=None):
    l = M.columns(st, v)
    if l is None or None in l:
        if os.environ.get("DBG"):
            print(l, str(M.e.deep(st, v))[:3000])
        flag("%s: the lengths of the columns made cannot be told (%s)" % (p, what), w)
        return
    stat[0] += 1
    if len(set(l)) > 1:
        flag("%s: makes a block with columns of %s rows (%s)" % (p, ", ".join(map(str, l)), what), w)


def makers(ctx, f, flag, stat):
    M = Made(f)
    e = M.e
    done = set()
    blk = lambda t: f.tk(t) == "adt" and f.tdef(t) == M.blk
    todo = []
    for b in f.bodies.values():
        if b.k not in ("method", "fn") or b.p in done or "::test" in b.p:
            continue
        todo.append(b)
    pick = {}

    def one(key, cond):
        c = [b for b in todo if cond(b)]
        if not c:
            raise Anchor(key)
        for b in c:
            pick[b.p] = key
        return c
    sizes = (0, 1, 2)
    # a column appended to a block
    isparam = lambda t: f.tk(t) == "param"
    def retblk(b):
        t = b.l[0]
        return blk(t) or f.tk(t) == "adt" and "Result" in f.tdef(t) and f.targs(t) and blk(f.targs(t)[0])
    for b in one("Block::column", lambda b: b.self_ty is not None and blk(b.self_ty) and b.argc == 3 and blk(b.l[1]) and blk(b.l[0])):
        w, okc = where(f, b.p), 0
        for old in [()] + [(k,) * m for m in (1, 2) for k in sizes]:
            for k in sizes:
                st = State(obs=())
                src = ("a", "data", "new")
                M.lens = {src: C(k)}
                v0 = blocks_of(M, f, "self", old)
                for s, v in e.run_fn(b.p, [v0, ("a", "arg", "name"), src], st):
                    if isinstance(v, Panic):
                        continue
                    okc += 1
                    l = M.columns(s, v)
                    judge(M, s, v, w, b.p, "a column of %d rows added to columns of %s" % (k, list(old)), flag, stat)
                    if l is not None and len(l) != len(old) + 1:
                        flag("%s: the column is not added" % b.p, w)
        ctx.oblige("%s: a column is added or refused (%d outcomes)" % (b.p, okc), okc > 0, where=w)
    # copies
    c = [im for tr, l in f.timpls.items() if tr.split("::")[-1] == "Clone" for t, items, im in l if blk(t) for im in [items.get("clone")]]
    for p in c:
        for l0 in ((), (1,), (2, 2), (1, 1, 1)):
            st = State(obs=())
            M.lens = {}
            for s, v in e.run_fn(p, [cellof(st, "block", blocks_of(M, f, "self", l0))], st):
                if not isinstance(v, Panic):
                    judge(M, s, v, where(f, p), p, "copy", flag, stat)
    # several blocks joined
    for b in one("Block::concat", lambda b: b.argc == 1 and f.tk(b.l[1]) == "ref" and "[" in f.ts(b.l[1]) and "Block" in f.ts(b.l[1]) and blk(b.l[0])):
        w, okc = where(f, b.p), 0
        for ls in (((2, 2), (1, 1)), ((2, 2), (0, 0), (3, 3)), ((2, 2), (1,)), ((2,), (1, 1)), ((1,),), ((0, 0, 0), (0, 0, 0)), ((), ())):
            st = State(obs=())
            M.lens = {}
            a = cellof(st, "blocks", ("arr", tuple(blocks_of(M, f, "b%d" % i, l) for i, l in enumerate(ls))))
            for s, v in e.run_fn(b.p, [a], st):
                if isinstance(v, Panic):
                    continue
                okc += 1
                judge(M, s, v, w, b.p, "blocks of %s rows" % (ls,), flag, stat)
        ctx.oblige("%s: %d outcomes of joining" % (b.p, okc), okc > 0, where=w)
    # a block cast to a header
    for b in one("Block::cast_to", lambda b: b.argc == 2 and f.tk(b.l[1]) == "ref" and f.tk(b.l[2]) == "ref" and blk(f.peel(b.l[1])) and blk(f.peel(b.l[2])) and retblk(b)):
        w, okc = where(f, b.p), 0
        # each column on its own is judged below
        own = [x.p for x in f.bodies.values() if x.n == "cast_to" and x.k == "method" and x.argc == 2 and f.tk(x.l[1]) == "adt" and f.tdef(x.l[1]) == M.col]

        def cast(e, st, call):
            if call.name == "cast_to" and call.args and M.is_column(e, st, call.args[0]):
                s2 = st.copy()
                return [(st, ok(call.args[0])), (s2, err(("a", "cast error")))]
            return None
        e.hooks.insert(0, cast)
        for n in (0, 1, 2, 3):
            for h in (0, 1, 2, 3):
                st = State(obs=())
                M.lens = {}
                a = cellof(st, "block", blocks_of(M, f, "self", (2,) * n))
                b_ = cellof(st, "header", blocks_of(M, f, "header", (0,) * h))
                for s, v in e.run_fn(b.p, [a, b_], st):
                    if isinstance(v, Panic) or e.variant(s, e.deep(s, v), RES) != "Ok":
                        continue
                    okc += 1
                    judge(M, s, e.payload(e.deep(s, v), "Ok"), w, b.p, "%d columns to a header of %d" % (n, h), flag, stat)
        e.hooks.remove(cast)
        ctx.oblige("%s: %d outcomes of casting" % (b.p, okc), okc > 0, where=w)
        # a column cast to a type
        for p in own:
            casts(ctx, f, M, p, flag, stat)
    return M


def casts(ctx, f, M, p, flag, stat):
    e, w = M.e, where(f, p)
    n = unknown = 0
    for k in (0, 2):
        M.lens = {}
        d = ("a", "data", ("self", 0))
        M.lens[d] = C(k)
        for s, v in e.run_fn(p, [M.column(C("n"), d), ("a", "arg", "dst_type")], State(obs=())):
            if isinstance(v, Panic) or e.variant(s, e.deep(s, v), RES) != "Ok":
                continue
            c = M.count(s, e.payload(e.deep(s, v), "Ok"))
            n += 1
            if c is None:
                unknown += 1
            elif c != k:
                flag("%s: a column of %d rows becomes one of %d" % (p, k, c), w)
    ctx.floor("columns cast with known length", n - unknown, 12)
    ctx.count("columns cast whose length is not judged", unknown)
    ctx.oblige("%s: %d casts keep the number of rows" % (p, n - unknown), True, where=w)


def others(ctx, f, M, flag, stat):
    e = M.e
    blk = lambda t: f.tk(t) == "adt" and f.tdef(t) == M.blk
    # chunks of a block
    its = [(t, items["next"]) for tr, l in f.timpls.items() if tr.split("::")[-1] == "Iterator" for t, items, im in l
           if f.tk(t) == "adt" and items.get("next") in f.bodies and any(blk(x["t"]) for v in f.adts[f.tdef(t)]["v"] for x in v["f"]) and
           "Block" in f.ts(f.bodies[items["next"]].l[0])]
    for t, p in its:
        w, okc = where(f, p), 0
        fl = f.adts[f.tdef(t)]["v"][0]["f"]
        nums = [x["n"] for x in fl if f.ts(x["t"]) == "usize"]
        if len(nums) != 2:
            raise Anchor("the position and size of " + p)
        for m in (0, 1, 3):
            for pos in range(m + 1):
                for size in (1, 2):
                    for order in (0, 1):
                        st = State(obs=())
                        M.lens = {}
                        d = dict(zip(nums if order == 0 else nums[::-1], (C(pos), C(size))))
                        for x in fl:
                            if blk(x["t"]):
                                d[x["n"]] = blocks_of(M, f, "self", (m, m))
                        me = ("adt", f.tdef(t), None, tuple(sorted(d.items())), None)
                        for s, v in e.run_fn(p, [cellof(st, "it", me)], st):
                            if isinstance(v, Panic):
                                continue
                            v = e.deep(s, v)
                            if e.variant(s, v, OPT) != "Some":
                                continue
                            okc += 1
                            judge(M, s, e.payload(v, "Some"), w, p, "chunk", flag, stat)
        ctx.oblige("%s: %d chunks" % (p, okc), okc > 0, where=w)
    # a block from the server
    rd = [b for b in f.bodies.values() if b.k in ("method", "fn") and f.tk(b.l[0]) == "adt" and "Result" in f.tdef(b.l[0]) and f.targs(b.l[0]) and
          f.tk(f.targs(b.l[0])[0]) == "adt" and f.tdef(f.targs(b.l[0])[0]) == M.col and b.argc >= 2 and "::test" not in b.p and f.tk(b.l[1]) == "ref"]
    rd = {b.p for b in rd}
    ld = [b for b in f.bodies.values() if any((c[1].get("r") or c[1]["p"]) in rd or c[1]["p"] in rd for c in calls(f, b)) and "::test" not in b.p and b.k in ("method", "fn") and "Block" in f.ts(b.l[0])]
    if not ld:
        raise Anchor("the function that loads a block")
    for b in ld:
        w, okc = where(f, b.p), 0
        for n in (0, 1, 2, 3):
            for ks in itertools.product((0, 1, 2), repeat=n):
                M.lens = {("a", "data", ("srv", i)): C(k) for i, k in enumerate(ks)}

                def load(e, st, call, ks=ks):
                    if call.path in rd:
                        i = sum(1 for o in st.obs if o[0] == "column")
                        st = st.copy()
                        st.obs = st.obs + (("column",),)
                        if i >= len(ks):
                            return [(st, err(("a", "end")))]
                        s2 = st.copy()
                        return [(st, ok(M.column(C("n%d" % i), ("a", "data", ("srv", i))))), (s2, err(("a", "read error")))]
                    if call.name == "read_uvarint":
                        return [(st, ok(C(len(ks)))), (st.copy(), err(("a", "read error")))]
                    if call.name == "read" and "BlockInfo" in call.p:
                        return [(st, ok(("a", "info")))]
                    return None
                e.hooks.insert(0, load)
                for s, v in e.run_fn(b.p, None, State(obs=())):
                    if isinstance(v, Panic):
                        continue
                    v = e.deep(s, v)
                    if e.variant(s, v, RES) == "Ok":
                        okc += 1
                        judge(M, s, e.payload(v, "Ok"), w, b.p, "columns of %s rows sent" % (list(ks),), flag, stat)
                e.hooks.remove(load)
        ctx.oblige("%s: %d blocks loaded" % (b.p, okc), okc > 0, where=w)


def touching(f, M):
    """Functions that build a block or may change its columns."""
    out = {}
    for b in f.bodies.values():
        if "::test" in b.p or b.sp.find("/test") >= 0:
            continue
        re = b.reachable()
        for i, bl in enumerate(b.b):
            if bl["c"] or i not in re:
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == M.blk:
                    out[b.p] = "builds a block"
                pl = s[1] if on_columns(f, b, s[1], M) else r[2] if r[0] in ("ref", "ptr") and r[1] in ("m", "Mut") and on_columns(f, b, r[2], M) else None
                if pl is not None:
                    out.setdefault(b.p, "changes the columns of a block")
    return out


def made_empty(f, b, M):
    """Whether the block a constructor returns has no columns."""
    rs = [(s, v) for s, v in M.e.run_fn(b.p, None, State(obs=())) if not isinstance(v, Panic)]
    got = [M.columns(s, v) for s, v in rs]
    return bool(got) and all(g == [] for g in got)


def on_columns(f, b, pl, M):
    t = b.l[pl[0]]
    for x in pl[1]:
        while x[0] == "*" and f.tk(t) in ("ref", "ptr"):
            t = f.targs(t)[0]
            break
        else:
            return x[0] == "." and x[1] == M.vec and f.tk(t) == "adt" and f.tdef(t) == M.blk
    return False


def check(ctx):
    f = ctx.facts("default")
    bad = {}
    called = set()

    def flag(key, w):
        bad.setdefault(key, w)
    try:
        analyse(ctx, f, flag, called)
    except Limit as x:
        flag("the functions that build blocks cannot be followed to their end (%s)" % x, "")
    for k, w in bad.items():
        ctx.violation(k, k, w)


def analyse(ctx, f, flag, called):
    if not os.environ.get('NOPUSH'):
        B = pushes(ctx, f, flag)
        called |= B.e.called
    stat = [0]
    M = makers(ctx, f, flag, stat)
    others(ctx, f, M, flag, stat)
    ctx.floor("blocks made", stat[0], 40)
    called |= M.e.called
    t = touching(f, M)
    ctx.floor("functions that build or change blocks", len(t), 6)
    for p, how in sorted(t.items()):
        b = f.bodies[p]
        if p in called or how.startswith("builds") and made_empty(f, b, M):
            continue
        else:
            flag("%s: %s, and is not part of the operations analysed" % (p, how), where(f, p))
    ctx.oblige("%d functions that build blocks or change their columns are analysed" % len(t), True)
