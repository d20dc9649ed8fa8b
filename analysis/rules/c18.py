"""C18 An insert sends every row once, in order, chunk by confirmed chunk."""
from engine import State, Panic, C, TRUE, FALSE, RES, OPT, NONE, UNIT, some, ok, err, ready, contains, field
from models import nrm
from prov import prov_engine, calls_in
from lin import lin, add, strip, low_high
from session import Session, e_fresh
from rules.ops import Ops, START
from transport import Names, Anchor, adt_path
from rules.util import where
from rules.c12 import isc, last, unref
from wire import norm, plain, rounds

TECHNIQUE = "typestate analysis of the insert against an abstract server, with provenance analysis of chunking and casting, over MIR"
RULE = ("In the insert operation, run against a server that may answer anything the protocol allows or fail, the data command is queued only when the "
        "insert statement's reply has been read up to the announced header, it consists of the chunk taken last from the chunk iterator followed by an "
        "empty block, a chunk is taken only after the previous one was confirmed, and success is reported only after the iterator is exhausted and the "
        "last chunk confirmed. The iterator runs over the block obtained by casting the caller's block to the header. Each step of the iterator slices "
        "every column over exactly [position, min(position + size, rows)) and moves the position to the end of that range; it stops only at the end. "
        "Casting pairs the k-th column with the k-th announced type and keeps its name; a column is passed on unchanged only if the types are equal.")
ASSUMPTIONS = ["Column::slice and the column adapters keep the order of rows (their save is C17)."]
CHUNK, CASTED, POS = ("a", "srv", "chunk"), ("a", "casted"), ("a", "arg", "position")


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    o = Ops(f)
    it = chunk_iter(f, o.n)
    sequence(ctx, f, o, it, flag)
    chunks(ctx, f, o.n, it, flag)
    cast_block(ctx, f, o.n, flag)
    cast_column(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def chunk_iter(f, N):
    """The iterator over a block's chunks: an Iterator whose items are blocks and which holds a block."""
    c = []
    for selft, items, im in f.timpls.get("std::iter::Iterator", []) + f.timpls.get("core::iter::Iterator", []):
        if f.tk(selft) == "adt" and "next" in items:
            b = f.bodies.get(items["next"])
            if b is None:
                continue
            r = b.l[0]
            if f.ts(r).startswith("std::option::Option<") and f.targs(r) and f.tk(f.targs(r)[0]) == "adt" and f.tdef(f.targs(r)[0]) == N.block:
                c.append((f.tdef(selft), b.p))
    if len(c) != 1:
        raise Anchor("the iterator over a block's chunks: %s" % c)
    return c[0]


def sequence(ctx, f, o, it, flag):
    root = o.insert
    W = where(f, root)
    s = o.session(root)
    N = o.n
    casts = {b.p for b in f.bodies.values() if b.argc == 2 and N.peeled(b.l[1]) == N.block and N.peeled(b.l[2]) == N.block and
             f.ts(b.l[0]).startswith("std::result::Result<") and f.tdef(f.targs(b.l[0])[0]) == N.block}
    if not casts:
        raise Anchor("the function that casts a block to a header")
    cnt = {"chunk": 0, "data": 0, "query": 0, "cast": 0}

    def data_cmd(e, st, v):
        if v[0] == "ref" and isinstance(v[1][0], tuple):
            v = e.deep(st, e.read_loc(st, v[1]))
        return v

    def watch(e, st, call):
        ph = st.obs[4]
        w = "%s (%s)" % (call.site[2], call.site[0])
        if call.path in casts:
            cnt["cast"] += 1
            a = [norm(e.deep(st, x)) for x in call.args]
            if not contains(a[0], ("a", "arg", "block")):
                flag("the block that is cast is not the caller's", w)
            if not (contains(a[1], ("a", "srv", "Block", "0"))):
                flag("the caller's block is not cast to the header the server announced", w)
            return [(st.copy(), ok(CASTED)), (st.copy(), err(e_fresh(e, st, "casterr", call)))]
        if call.path == it[1]:
            cnt["chunk"] += 1
            v = norm(e.deep(st, e.read_loc(st, e.deref(st, call.args[0]))))
            if v[0] == "adt":
                d = dict(v[3])
                if CASTED not in d.values():
                    flag("the chunks sent are not those of the cast block", w)
                nums = [x for x in d.values() if x[0] == "c"]
                if C(0) not in nums or len(nums) != 2 or not all(isinstance(x[1], int) and x[1] >= 0 for x in nums) or nums == [C(0), C(0)]:
                    flag("the chunks do not start at the first row, with a positive size", w)
            if ph == "taken":
                flag("a chunk of the block is not sent", w)
            if ph == "sent" and st.obs[1] != "done":
                flag("the next chunk is taken before the last one is confirmed", w)
            if ph == "end":
                return [(st.copy(), NONE)]
            s1 = st.copy()
            s1.obs = st.obs[:4] + ("taken",)
            out = [(s1, some(CHUNK))]
            if ph != "none":
                s2 = st.copy()
                s2.obs = st.obs[:4] + ("end",)
                out.append((s2, NONE))
            return out
        if nrm(call.p).endswith(("VecDeque::push_back", "VecDeque::push_front")) and call.argts and len(call.argts) > 1 and \
                call.argts[1] is not None and f.tk(call.argts[1]) == "adt" and f.tdef(call.argts[1]) == N.cmd:
            v = e.deep(st, call.args[1])
            cmd, phase, fail, lst, ph = st.obs
            if v[2] == "SendQuery":
                cnt["query"] += 1
                q = norm(dict(v[3])["0"])
                if not contains_call(q, "map_sql", "make_query", "format"):
                    flag("a chunk is introduced by another statement than the insert", w)
                if base(cmd) not in ("none", "Ping", "Cancel") and not (base(cmd) == "SendData" and phase == "done"):
                    flag("an insert statement is sent before the last chunk is confirmed", w)
            elif v[2] in ("Union", "SendData"):
                cnt["data"] += 1
                parts = [norm(data_cmd(e, st, x)) for _, x in sorted(v[3])] if v[2] == "Union" else [norm(v)]
                names = [p[2] if p[0] == "adt" else "?" for p in parts]
                if names != ["SendData", "SendData"]:
                    flag("a chunk is not sent together with the empty block that ends it (%s)" % ", ".join(names), w)
                else:
                    b0, b1 = dict(parts[0][3])["0"], dict(parts[1][3])["0"]
                    if b0 != CHUNK or ph != "taken":
                        flag("the data sent is not the chunk taken last", w)
                    if not empty(b1):
                        flag("the block that ends a chunk is not an empty one", w)
                if not (cmd == "SendQuery" and phase == "done" and lst == "Block"):
                    flag("a chunk is sent without the insert statement having been answered with the table's header", w)
                st.obs = st.obs[:4] + ("sent",)
        return None
    s.e.hooks.insert(0, watch)
    # the iterator is stepped through the hook only
    outs = s.e.run_async(root, obs=START + ("none",))
    good = 0
    for st, v in outs:
        if isinstance(v, Panic) or s.e.variant(st, v, RES) != "Ok":
            continue
        good += 1
        cmd, phase, fail, lst, ph = st.obs
        if ph != "end":
            flag("success is reported although not every chunk was sent", W)
        if base(cmd) != "SendData" or phase != "done":
            flag("success is reported before the last chunk is confirmed", W)
    if not good:
        flag("an insert never succeeds", W)
    for k, n in cnt.items():
        ctx.floor("insert: %s points" % k, n, 1)
    ctx.oblige("insert: %d outcomes, %d of them successes" % (len(outs), good), True, where=W)


def base(cmd):
    if cmd.startswith("Union("):
        return cmd[6:-1].split(",")[0]
    return cmd


def empty(b):
    if b[0] == "adt":
        d = dict(b[3])
        c = d.get("columns")
        return c is not None and ("new" in str(c) or "default" in str(c))
    return b[:2] in (("a", "ret"), ("a", "call")) and last(b[2]) in ("default", "new")


def contains_call(v, *names):
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] == "a" and v[1] in ("ret", "call", "mut") and any(isinstance(x, str) and any(n in x for n in names) for x in v[2:]):
            return True
        return any(contains_call(x, *names) for x in v if isinstance(x, tuple))
    return False


# ---------------------------------------------------------------- one step of the iterator
def chunks(ctx, f, N, it, flag):
    p = it[1]
    W = where(f, p)
    src = f.bodies[p].sp.split(":")[0]
    e = prov_engine(f, lambda b: b.sp.split(":")[0] == src)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    ad = [v for v in f.adts[it[0]]["v"]][0]
    SELF = ("K", 0, "it")
    P, Sz, B = ("a", "arg", "position"), ("a", "arg", "size"), ("a", "arg", "block")
    # which of the two counters is advanced is seen from the constructor: it starts at 0
    posn = counters(f, N, it)
    n = rows_seen = 0
    vals = {}
    for fl in ad["f"]:
        nm = fl["n"] if isinstance(fl, dict) else fl
        vals[nm] = P if nm == posn[0] else Sz if nm == posn[1] else B
    if list(vals.values()).count(B) != 1:
        raise Anchor("fields of the chunk iterator")
    bn = [k for k, v in vals.items() if v == B][0]
    M = None

    def hook(e, st, call):
        if call.name == "row_count" and call.args:
            return [(st, ("a", "rows"))]
        return None
    e.hooks.append(hook)
    M = ("a", "rows")
    st = State(obs=())
    st.mem[SELF] = ("adt", it[0], None, tuple(sorted(vals.items())), None)
    cells = 0
    for s, v in e.run_fn(p, [("ref", (SELF, ()))], st):
        if isinstance(v, Panic):
            continue
        n += 1
        v = norm(e.deep(s, v))
        facts = {norm(k): x for k, x in s.facts.items()}
        after = norm(e.deep(s, s.mem[SELF]))
        npos = field(after, posn[0])
        if field(after, bn) != B or field(after, posn[1]) != Sz:
            flag("a step of the chunk iterator changes the block or the chunk size", W)
        zero = holds(facts, M, C(0)) or below(facts, M, P) is True and holds(facts, P, C(0))
        if v[0] == "adt" and v[2] == "None":
            # only at the end
            if not below(facts, M, P):
                flag("the chunk iterator stops although rows are left", W)
            if zero and holds(facts, P, C(0)):
                flag("no chunk is made of a block without rows", W)
            continue
        if v[0] != "adt" or v[2] != "Some":
            continue
        x = dict(v[3])["0"]
        if zero:
            if not cmp_pos(lin(npos), lin(C(0)) if holds(facts, P, C(0)) else lin(P), facts) and not cmp_pos(lin(npos), lin(P), facts):
                flag("the chunk made of a block without rows is made again and again", W)
            continue
        cols = cells_of(x)
        if below(facts, M, P) is True:
            flag("the chunk iterator goes on after the last row", W)
        ends = set()
        k = 0
        for name, data in cols:
            cells += 1
            if not isc(data, "slice") or len(data[3]) != 2:
                flag("a chunk's column is not a slice of the block's column", W)
                continue
            src_, r = data[3]
            d = dict(r[3]) if isinstance(r, tuple) and r[0] == "adt" else {}
            if set(d) != {"start", "end"}:
                continue
            if lin(d["start"]) != lin(P):
                flag("a chunk does not start where the last one ended", W)
            if not good_end(d["end"], P, Sz, M):
                flag("a chunk does not end at the position plus the chunk size or the last row, whichever is less", W)
            ends.add(tuple(sorted(lin(d["end"]).items(), key=repr)))
            i = elem(src_)
            if i is not None and (i[1] != k or not contains(i[0], B)):
                flag("a chunk's columns are not the block's, in order", W)
            if name is not None and not (isc(name, "name") and plain(name[3][0]) == plain(src_) or name == ("fld", plain(src_), "name")):
                flag("a chunk's column has another name than the block's", W)
            k += 1
        opened = [t for t, y in facts.items() if isinstance(t, tuple) and t[0] == "discr" and isc(t[1], "next") and y == ("=", 1) and contains(t, B)]
        if opened and len(opened) != k:
            flag("a column is left out of a chunk", W)
        if not good_end(npos, P, Sz, M):
            flag("the chunk iterator does not move on to the end of the chunk it made", W)
        if k:
            rows_seen += 1
    ctx.oblige("chunk iterator: %d paths, %d column slices" % (n, cells), True, where=W)
    ctx.floor("column slices", cells, 2)


def counters(f, N, it):
    """(position field, size field): the constructor sets the position to 0."""
    for b in f.bodies.values():
        if b.k in ("method", "fn") and f.tk(b.l[0]) == "adt" and f.tdef(b.l[0]) == it[0] and b.argc >= 1 and N.block in [N.peeled(t) for t in b.l[1:1 + b.argc]]:
            e = prov_engine(f, lambda x: x.sp.split(":")[0] == b.sp.split(":")[0] or f.tk(x.l[0]) == "adt" and f.tdef(x.l[0]) == it[0])
            for st, v in e.run_fn(b.p, None, State(obs=())):
                if isinstance(v, Panic):
                    continue
                v = norm(e.deep(st, v))
                if v[0] != "adt":
                    continue
                pos = [k for k, x in v[3] if x == C(0)]
                siz = [k for k, x in v[3] if x[0] == "a" and x[1] == "arg" and x[2] != "block" and k not in pos and f.bodies is not None]
                blk = [k for k, x in v[3] if x == ("a", "arg", "self") or x[:2] == ("a", "arg") and "lock" in str(x[2])]
                siz = [k for k in siz if k not in blk]
                if len(pos) == 1 and len(siz) == 1:
                    return pos[0], siz[0]
    raise Anchor("the constructor of the chunk iterator")


def holds(facts, a, b):
    """a == b on this path."""
    if b[0] == "c":
        lo, hi = low_high(facts, a)
        x = facts.get(a)
        if x is not None and x[0] == "=" and x[1] == b[1]:
            return True
        return lo is not None and hi is not None and lo == hi == b[1]
    return False


def below(facts, m, p):
    """m <= p on this path (True), p < m (False), or unknown."""
    if holds(facts, m, C(0)):
        return True
    for t, x in facts.items():
        if isinstance(t, tuple) and t[0] == "op" and len(t) == 4 and x[0] == "=":
            v = x[1] in (True, 1)
            if t[1] == "Lt":
                d = add(lin(t[2]), lin(t[3]), -1)
                if d == add(lin(p), lin(m), -1):
                    return not v
                if d == add(lin(m), lin(p), -1) and v:
                    return True
            if t[1] == "Eq" and v and {t[2], t[3]} == {m, p}:
                return True
    return None


def cmp_pos(a, b, facts):
    d = add(a, b, -1)
    return set(d) <= {None} and d.get(None, 0) > 0


def good_end(v, P, Sz, M):
    v = strip(v)
    want = [add(lin(P), lin(Sz)), lin(M)]

    def isit(x, off):
        x = strip(x)
        if x[0] == "op" and x[1] == "min" and len(x) == 4:
            a, b = add(lin(x[2]), off), add(lin(x[3]), off)
            return [a, b] == want or [b, a] == want
        return False
    if isit(v, {}):
        return True
    l = lin(v)
    for t, c in l.items():
        if t is not None and c == 1 and isinstance(t, tuple) and t[:2] == ("op", "min"):
            off = dict(l)
            del off[t]
            if isit(t, off):
                return True
    return False


def cells_of(x):
    """[(name, data)] of a block built column by column."""
    out = []
    while True:
        if isc(x, "column") and not x[2].startswith("mut:") and len(x[3]) == 3:
            out.append((x[3][1], x[3][2]))
            x = x[3][0]
        elif isc(x, "append_column", "push") and x[2].startswith("mut:") and len(x[3]) == 2:
            out.append((None, x[3][1]))
            x = x[3][0]
        elif isc(x, "add_column") and x[2].startswith("mut:"):
            out.append((x[3][1], x[3][2]) if len(x[3]) > 2 else (None, x[3][1]))
            x = x[3][0]
        elif x[0] == "adt" and "columns" in dict(x[3]):
            x = dict(x[3])["columns"]
        elif x[0] == "fld" and x[2] == "columns":
            x = x[1]
        else:
            return list(reversed(out))


def elem(v):
    """(collection, index) of an element taken by iteration, popping or indexing."""
    v = plain(v)
    if isc(v, "clone") and len(v[3]) == 1:
        return elem(v[3][0])
    if v[0] == "fld" and v[2] in ("0", "1") and v[1][0] == "fld":
        r = item(v[1])
        if r is None:
            return None
        it, k = r
        if isc(it, "zip"):
            return seq_elem(it[3][int(v[2])], k)
        if isc(it, "enumerate") and v[2] == "1":
            return seq_elem(it[3][0], k)
        return None
    if isc(v, "index"):
        return None
    if v[0] == "fld" and v[2] == "0" and v[1][0] == "dc" and v[1][2] == "Some":
        c = v[1][1]
        if isc(c, "pop"):
            k, b = -1, c[3][0]
            while isc(b, "pop") and b[2].startswith("mut:"):
                k, b = k + 1, b[3][0]
            if isc(b, "reverse") and b[2].startswith("mut:"):
                return seq_elem(b[3][0], k)
            return seq_elem(b, ("end", k))
        r = item(v)
        if r is not None:
            return seq_elem(r[0], r[1])
    return None


def item(v):
    """(iterator, k) of the payload of the k-th next."""
    if not (v[0] == "fld" and v[2] == "0" and v[1][0] == "dc" and v[1][2] == "Some" and isc(v[1][1], "next")):
        return None
    i, k = plain(v[1][1][3][0]), -1       # the term of a call holds its receiver as the call left it
    while isc(i, "next") and i[2].startswith("mut:"):
        i, k = plain(i[3][0]), k + 1
    return i, k


def seq_elem(i, k):
    i = plain(i)
    while True:
        j = plain(i)
        if isc(j, "iter", "into_iter", "columns", "cloned", "copied", "drain", "by_ref", "deref", "as_slice", "clone") and not j[2].startswith("mut:") and j[3]:
            if isc(j, "columns"):
                return ("fld", plain(j[3][0]), "columns"), k
            j = plain(j[3][0])
        elif isc(j, "rev") and not j[2].startswith("mut:"):
            j = plain(j[3][0])
            k = k[1] if isinstance(k, tuple) else ("end", k)
        elif isc(j, "zip", "enumerate", "map", "filter", "skip", "take", "step_by", "chain"):
            return None
        if j == i:
            return i, k
        i = j


# ---------------------------------------------------------------- casting
def cast_block(ctx, f, N, flag):
    c = [b for b in f.bodies.values() if b.argc == 2 and N.peeled(b.l[1]) == N.block and N.peeled(b.l[2]) == N.block and
         f.ts(b.l[0]).startswith("std::result::Result<") and f.tdef(f.targs(b.l[0])[0]) == N.block and b.k in ("method", "fn")]
    if len(c) != 1:
        c = [b for b in c if b.n == "cast_to"]
    if len(c) != 1:
        raise Anchor("the function that casts a block to a header")
    b = c[0]
    W = where(f, b.p)
    e = prov_engine(f, lambda x: x.sp.startswith("src/types/block/") and x.n not in ("row_count", "columns", "column_count") and "{closure" in x.p)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    A, H = ("a", "arg", "self"), ("a", "arg", "header")
    n = pairs = 0
    for s, v in e.run_fn(b.p, [A, H], State(obs=())):
        if isinstance(v, Panic):
            continue
        v = norm(e.deep(s, v))
        if v[0] != "adt" or v[2] != "Ok":
            continue
        n += 1
        blk = dict(v[3])["0"]
        if blk[0] != "adt":
            continue
        cols = dict(blk[3]).get("columns")
        out = []
        while isc(cols, "push") and cols[2].startswith("mut:"):
            out.append(cols[3][1])
            cols = cols[3][0]
        out.reverse()
        for k, x in enumerate(out):
            while x[0] == "fld" and x[1][0] == "dc":
                x = x[1][1]
            if x[0] == "fld" and x[2] == "0" and x[1][0] == "dc":
                x = x[1][1]
            if not isc(x, "cast_to"):
                flag("a column of the block sent is not the caller's column cast", W)
                continue
            pairs += 1
            old, dst = elem(x[3][0]), None
            if isc(plain(x[3][1]), "sql_type"):
                dst = elem(plain(x[3][1])[3][0])
            if old is not None and old != (("fld", A, "columns"), k):
                flag("the columns sent are not the caller's, in order", W)
            if dst is not None and dst != (("fld", H, "columns"), k):
                flag("a column is not cast to the type announced for it", W)
            if dst is None and not contains(x[3][1], H):
                flag("a column is not cast to the type announced for it", W)
            if contains(x[3][0], H) and not contains(x[3][0], A):
                flag("the columns sent are not the caller's", W)
    ctx.oblige("casting a block: %d successful paths, %d columns" % (n, pairs), True, where=W)
    ctx.floor("cast paths", n, 1)


def of_cast(v, a):
    while isinstance(v, tuple) and v[0] == "fld" and v[1][0] == "dc":
        v = v[1][1]
    return isc(v, "cast_to", "branch") and (v[3][0] == a or of_cast(v[3][0], a))


def cast_column(ctx, f, flag):
    c = [b for b in f.bodies.values() if b.argc == 2 and b.n == "cast_to" and f.tk(b.l[1]) == "adt" and (f.tdef(b.l[1]) or "").endswith("column::Column") and b.k == "method"]
    if len(c) != 1:
        raise Anchor("the function that casts a column")
    b = c[0]
    W = where(f, b.p)
    src = b.sp.split(":")[0]
    e = prov_engine(f, lambda x: False)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(1)
    A, D = ("a", "arg", "self"), ("a", "arg", "dst_type")
    n = same = 0
    for s, v in e.run_fn(b.p, [A, D], State(obs=())):
        if isinstance(v, Panic):
            continue
        v = norm(e.deep(s, v))
        if v[0] != "adt" or v[2] != "Ok":
            continue
        n += 1
        facts = {norm(k): x for k, x in s.facts.items()}
        x = dict(v[3])["0"]
        if x == A:
            same += 1
            def types(t):
                a = [plain(x) for x in (t[2:4] if t[0] == "op" else t[3])]
                return len(a) == 2 and D in a and any(isc(x, "sql_type") and contains(x, A) for x in a)
            eq = [t for t, y in facts.items() if isinstance(t, tuple) and y == ("=", True) and (t[:2] == ("op", "Eq") or isc(t, "eq")) and types(t)]
            ne = [t for t, y in facts.items() if isinstance(t, tuple) and y == ("=", False) and (t[:2] == ("op", "Ne") or isc(t, "ne")) and types(t)]
            if not eq and not ne:
                flag("a column is passed on unchanged although its type is not the one announced", W)
        elif x[0] == "adt":
            d = dict(x[3])
            nm = d.get("name")
            dt = d.get("data", C(0))
            if dt[0] == "ref" and isinstance(dt[1], tuple) and dt[1] and isinstance(dt[1][0], tuple):
                dt = norm(e.deep(s, e.read_loc(s, dt[1])))
            if nm is not None and plain(nm)[0] == "fld" and plain(nm)[2] == "name" and of_cast(plain(nm)[1], A):
                nm = None                 # the name of a cast of this column
            if nm is not None and not (plain(nm) == ("fld", A, "name") or isc(plain(nm), "name") and plain(plain(nm)[3][0]) == A or contains_call(nm, "to_owned", "to_string", "clone") and contains(nm, A)):
                flag("a column loses its name when it is cast", W)
            if not contains(dt, A):
                flag("a cast column is not made of the column's rows", W)
    ctx.oblige("casting a column: %d successful paths" % n, True, where=W)
    ctx.floor("column casts", n, 5)
    ctx.floor("unchanged columns", same, 1)
