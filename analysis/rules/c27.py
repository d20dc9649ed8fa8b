"""C27 Query results deliver every received data block and row, once, in order."""
from engine import Engine, Panic, Limit, State, RES, POLL, OPT, field, C, TRUE, FALSE, UNIT, NONE, ready, some, ok, err
from models import nrm, stream_poll, callv
from prov import prov_engine
from rules.ops import Ops, START
from rules.util import where
from rules.c12 import isc, last
from rules.c17 import Bad, resolve, IDENT
from transport import Anchor
from wire import plain, norm, rounds
from lin import lin, add

TECHNIQUE = "path-sensitive abstract interpretation of MIR: every history of server packets and polls with numbered data blocks, and provenance of rows"
RULE = ("Every history of up to N server packets is followed through the block stream's poll, the data blocks being numbered: before another packet is taken and "
        "at every return, the last block received has been handed over unaltered unless it was established to be empty or is the header the caller asked to skip; "
        "fetch_all returns the join of exactly the non-empty blocks, in order; joined columns look a row up in the chunk that holds it; the row iterators yield "
        "row n of the block for n = 0, 1, .. row_count-1 and then stop.")
ASSUMPTIONS = ["Stream combinators of futures-util (map, flatten, try_fold, iter, once) behave as documented."]
ROWS = (0, 1, 2, 5)


class Hist:
    """Numbers the blocks of a session; obs[4] = (number received, pending block | None, ((block, rows), ..), packets)."""

    def __init__(self, s, flag, limit, skip):
        self.s, self.flag, self.limit, self.skip = s, flag, limit, skip
        self.blocks = 0
        self.judge = True        # the caller of the stream is not followed
        s.e.hooks.insert(0, self.hook)

    def block_of(self, e, st, v):
        v = plain(e.deep(st, v))
        if v[:2] == ("a", "srvblock"):
            return v[2]
        while v[0] == "fld" or isc(v, "columns", "iter"):
            v = plain(v[1] if v[0] == "fld" else v[3][0])
            if v[:2] == ("a", "srvblock"):
                return v[2]
        return None

    def rows(self, st):
        return dict(st.obs[4][2])

    def excused(self, st, n):
        if self.rows(st).get(n) == 0:
            return True
        if n == 1 and self.skip is not None:
            k = self.s.e.known(st, self.skip)
            return k is not None and k[1] is True
        return False

    def settle(self, st, why, site):
        """No block may be left behind."""
        n = st.obs[4][1]
        if n is not None and not self.excused(st, n):
            self.flag("%s: a data block that has rows is dropped %s" % (site[0], why), "%s (%s)" % (site[2], site[0]))

    def set(self, st, **kw):
        c, p, r, k = st.obs[4]
        st.obs = st.obs[:4] + ((kw.get("count", c), kw.get("pending", p), kw.get("rows", r), kw.get("packets", k)),) + st.obs[5:]

    def hook(self, e, st, call):
        if call.path == self.s.tp:
            if self.judge:
                self.settle(st, "when the next packet is read", call.site)
            if self.s.base(st.obs[0]) != "SendQuery":      # an older reply is being drained: its blocks are not wanted
                if st.obs[-1] == ("drained", 2):
                    return []
                k = st.obs[-1][1] if st.obs[-1][0] == "drained" else 0
                st = st.copy()
                st.obs = st.obs[:5] + (("drained", k + 1),)
                return self.s.recv(st, call)
            if st.obs[4][3] >= self.limit:
                return []
            out = []
            for s1, v in self.s.recv(st, call):
                if not self.judge and st.obs[4][3] > 0 and s1.obs[3] not in ("Block", "Eof", "Exception", "io error"):
                    continue                # a caller of the stream: what lies between blocks was seen at the first packet
                s1 = s1.copy()
                self.set(s1, pending=None, packets=st.obs[4][3] + 1)
                n = s1.obs[4][0] + 1
                v2 = number(v, ("a", "srvblock", n))
                if v2 != v:
                    self.blocks += 1
                    self.set(s1, count=n, pending=n)
                out.append((s1, v2))
            return out
        if call.name == "columns" and len(call.args) == 1 and self.block_of(e, st, call.args[0]) is not None:
            return [(st, ("a", "call", call.path, (e.deep(st, call.args[0]),)))]
        if call.args and call.name in ("is_empty", "row_count", "column_count", "len"):
            n = self.block_of(e, st, call.args[0])
            if n is None:
                return None
            known = self.rows(st).get(n)          # None, "some" or the exact number
            exact = call.name == "row_count"
            if known in (None, "some"):
                cases = [0] if known is None else []
                cases += list(ROWS[1:]) if exact else ["some"]
            else:
                cases = [known]
            out = []
            for k in cases:
                s1 = st.copy()
                r = self.rows(st)
                r[n] = k if known in (None, "some") else known
                self.set(s1, rows=tuple(sorted(r.items(), key=str)))
                out.append((s1, (TRUE if k == 0 else FALSE) if call.name == "is_empty" else C(1 if k == "some" else k)))
            return out
        return None


def number(v, b):
    if isinstance(v, tuple):
        if v[:3] == ("a", "srv", "Block"):
            return b
        return tuple(number(x, b) for x in v)
    return v


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        f = ctx.facts(cfg)
        bad = {}

        def flag(k, w):
            bad.setdefault(k, w)
        flag.bad = bad
        o = Ops(f)
        stream(ctx, f, o, flag)
        fetch(ctx, f, o, flag)
        rows(ctx, f, o, flag)
        joins(ctx, f, flag)
        for k, w in sorted(bad.items()):
            ctx.violation(k, k, w)


def stream(ctx, f, o, flag):
    s, poll, states = o.block_stream()
    e = s.e
    e.no_widen = True
    h = Hist(s, flag, 6 if ctx.thorough else 4, ("a", "arg", "skip_first"))
    bs = ("ref", (("T", "bs"), ()))
    w = where(f, poll)
    site = (poll, 0, f.bodies[poll].sp)
    for st in states:
        st.obs = st.obs + ((0, None, (), 0),)
    done = set()
    delivered = ends = 0
    first = [st.copy() for st in states]
    values = {}
    for rnd in range(24):
        nxt = []
        for st in states:
            k = st.key()
            if k in done:
                continue
            done.add(k)
            for s1, v in e.run_fn(poll, [bs, ("a", "cx")], st):
                if isinstance(v, Panic):
                    continue
                s1 = s1.copy()
                v = e.deep(s1, v)
                cmd, phase, fail, lastp = s1.obs[:4]
                given = None
                if e.variant(s1, v, POLL) == "Ready":
                    x = e.payload(v, "Ready")
                    if e.variant(s1, x, OPT) == "None":
                        ends += 1
                        if phase != "done" or fail is not None and fail[0] != "a server exception":
                            flag("%s: the stream ends normally before the reply is complete (%s)" % (poll, lastp), w)
                    elif e.variant(s1, x, OPT) == "Some":
                        r = e.payload(x, "Some")
                        if e.variant(s1, r, RES) == "Ok":
                            b = plain(e.payload(r, "Ok"))
                            if b[:2] == ("a", "srvblock"):
                                given = b[2]
                            if given is None or given != s1.obs[4][1]:
                                flag("%s: hands over something that is not the data block just received" % poll, w)
                            else:
                                delivered += 1
                                h.set(s1, pending=None)
                if e.variant(s1, v, POLL) == "Ready" or s1.obs[4][1] is None or h.excused(s1, s1.obs[4][1]):
                    h.settle(s1, "when the stream returns", site)
                    h.set(s1, pending=None)
                for name, val in dict(e.read_loc(s1, (("T", "bs"), ()))[3]).items():
                    values.setdefault(name, set()).add(val)
                nxt.append(s1)
        states = nxt
        if not states and first:
            # late in the stream: counters that went up with every block may have any value
            grown = [k for k, x in values.items() if len(x) > 2 and all(y[0] == "c" and isinstance(y[1], int) and not isinstance(y[1], bool) for y in x)]
            for st in first:
                st = st.copy()
                if not e.assume(st, ("a", "arg", "skip_first"), False):
                    continue
                h.set(st, packets=h.limit - 1, count=1)
                for k in grown:
                    e.write_loc(st, (("T", "bs"), ((".", k),)), ("a", "arg", "late " + k))
                states.append(st)
            first = []
            ctx.count("late starts", len(states))
        if not states:
            break
    ctx.floor("histories of a block stream", len(done), 20)
    ctx.floor("data blocks in histories", h.blocks, 10)
    ctx.oblige("%s hands over every non-empty block of every history" % poll, delivered > 0 and ends > 0, where=w)


def fetch(ctx, f, o, flag):
    """fetch_all: the joined blocks are the non-empty ones received, in order."""
    root = o.fetch
    s = o.session(root)
    e = s.e
    e.no_widen = True
    h = Hist(s, flag, 5 if ctx.thorough else 4, None)
    e.MAX_HEAD = 50000
    seen = set()

    def head(e, st, body, fid, bi, n):
        k = (body.p, bi, str(e.stack), st.key())
        if k in seen:
            return "cut"
        seen.add(k)
        return None
    e.head_hook = head
    w = where(f, root)

    def ret(e, st, call, res):
        return ("a", "call", call.path, tuple(e.deep(st, a) for a in call.args))

    def mut(e, st, call, i, cur):
        return ("a", "call", "mut:" + call.path, (cur,) + tuple(e.deep(st, a) for j, a in enumerate(call.args) if j != i))

    def hook(e, st, call):
        b = f.bodies.get(call.path)
        if call.name in ("is_empty", "len") and len(call.args) == 1:
            l = listed(e.deep(st, call.args[0]))
            if l is not None:
                return [(st, C(len(l)) if call.name == "len" else TRUE if not l else FALSE)]
        if b is not None and b.sp.startswith("src/types/block/") and call.name not in ("is_empty", "row_count", "column_count"):
            return [(st, ("a", "call", call.path, tuple(e.deep(st, a) for a in call.args)))]
        np = nrm(call.p)
        if np.endswith("Vec::push") and len(call.args) == 2:
            loc = e.deref(st, call.args[0])
            s1 = st.copy()
            e.write_loc(s1, loc, ("a", "call", "mut:" + np, (e.deep(st, call.args[0]), e.deep(st, call.args[1]))))
            return [(s1, UNIT)]
        return None
    e.hooks.insert(0, hook)
    e.opaque_return_hook = ret
    e.opaque_mut_hook = mut
    h.judge = False
    joins = n = 0
    for st, v in e.run_async(root, obs=START + ((0, None, (), 0),)):
        if isinstance(v, Panic) or e.variant(st, v, RES) == "Err":
            continue
        n += 1
        if e.variant(st, v, RES) is None:
            flag("%s: the result cannot be told" % root, w)
            continue
        x = plain(e.deep(st, e.payload(v, "Ok")))
        rows = h.rows(st)
        want = [i + 1 for i in range(st.obs[4][0]) if rows.get(i + 1) != 0]
        if x[:2] == ("a", "call") and last(x[2]) in ("default", "new") and not x[3]:
            got = []
        elif x[:2] == ("a", "call") and last(x[2]) == "concat":
            got = listed(x[3][0])
            joins += 1
        else:
            got = None
        if got is None:
            flag("%s: the result is not the join of the blocks received" % root, w)
            continue
        if got != sorted(set(got)):
            flag("%s: the blocks joined are repeated or not in the order they arrived" % root, w)
        elif [i for i in got if rows.get(i) != 0] != want:
            flag("%s: a data block that has rows is left out of the result" % root, w)
        if st.obs[1] != "done" or st.obs[2] is not None:
            flag("%s: reports success before the reply is complete" % root, w)
    ctx.floor("successful histories of fetch_all", n, 5)
    ctx.oblige("fetch_all joins exactly the non-empty blocks received, in order", joins > 0, where=w)


def rows(ctx, f, o, flag):
    """A row stream yields every row of every block in order, and passes failures on."""
    c = [b for b in f.bodies.values() if b.n == "stream" and b.k in ("method", "fn") and b.self_ty is not None and f.tk(b.self_ty) == "adt"
         and f.tdef(b.self_ty).split("::")[-1] == "QueryResult"]
    if len(c) != 1:
        raise Anchor("QueryResult::stream")
    root = c[0].p
    w = where(f, root)
    e = prov_engine(f, lambda b: b.sp.startswith(("src/types/query_result/mod.rs", "src/types/block/row.rs")))
    e.no_widen = True
    items = [ok(("a", "srvblock", 1)), err(("a", "arg", "failure")), ok(("a", "srvblock", 2)), ok(("a", "srvblock", 3))]
    h = Hist.__new__(Hist)
    h.s, h.skip = None, None

    class S:
        pass
    h.s = S()
    h.s.e, h.s.tp, h.judge = e, None, True
    e.hooks.insert(0, h.hook)

    def src(e, st, call):
        b = f.bodies.get(call.path)
        if b is not None and call.name in ("stream_blocks", "stream_blocks_"):
            return [(st, ("adt", "st:list", None, (("items", ("arr", tuple(items))),), None))]
        if nrm(call.p).endswith("Iterator::map") and len(call.args) == 2:
            return [(st, ("adt", "it:map", None, (("f", call.args[1]), ("it", call.args[0])), None))]
        if call.name == "into_iter" and call.args and call.args[0][0] == "adt":
            return [(st, call.args[0])]
        return None
    e.hooks.insert(0, src)
    st0 = State(obs=START + ((0, None, (), 0),))
    site = (root, 0, f.bodies[root].sp)
    total = 0

    class Call:
        pass
    for st, v in e.run_fn(root, None, st0):
        if isinstance(v, Panic):
            continue
        work = [(st.copy(), 0, (1, 0))]
        work[0][0].mem[("T", "rows")] = v
        while work:
            st, n, (b, r) = work.pop()
            if n > 20:
                raise Limit("rows")
            cl = Call()
            cl.site, cl.path, cl.p, cl.args = site, root, root, []
            for s1, x in stream_poll(e, st, ("ref", (("T", "rows"), ())), cl):
                if isinstance(x, Panic):
                    continue
                x = resolve(e, s1, x)
                known = dict(s1.obs[4][2])
                eb, er = b, r
                # blocks already used up
                if e.variant(s1, x, POLL) != "Ready" or e.variant(s1, e.payload(x, "Ready"), OPT) is None:
                    flag("%s: what the row stream yields cannot be told" % root, w)
                    continue
                o = e.payload(x, "Ready")
                if e.variant(s1, o, OPT) == "Some":
                    it = e.payload(o, "Some")
                    var = e.variant(s1, it, RES)
                    if var == "Err":
                        if eb == 1 and known.get(1) == er and e.payload(it, "Err") == ("a", "arg", "failure"):
                            work.append((s1, n + 1, (2, 0)))
                            continue
                        flag("%s: a failure is not passed on where it happened" % root, w)
                        continue
                    row = plain(norm(e.payload(it, "Ok")))
                    d = dict(row[3]) if row[0] == "adt" else {}
                    got = (block_in(d.get("block_ref")), d.get("row"))
                    while eb in known and er >= known[eb] and eb in (2, 3):
                        eb, er = eb + 1, 0
                    if got != (eb, C(er)):
                        flag("%s: the row stream yields a row of another block, out of order, twice or not at all" % root, w)
                        continue
                    total += 1
                    work.append((s1, n + 1, (eb, er + 1)))
                else:
                    while eb in known and er >= known[eb] and eb in (2, 3):
                        eb, er = eb + 1, 0
                    if eb != 4:
                        flag("%s: the row stream ends with rows left" % root, w)
    ctx.floor("rows in histories of a row stream", total, 10)
    ctx.oblige("a row stream yields every row of every block in order", total > 0, where=w)
    # one step of the row iterator from any row
    rs = [a for a in f.adts if a.endswith("::Rows")]
    nx = [items["next"] for selft, items, im in f.timpls.get("std::iter::Iterator", []) if f.tk(selft) == "adt" and f.tdef(selft) in rs]
    if len(rs) != 1 or len(nx) != 1:
        raise Anchor("the row iterator")
    pos = [x["n"] for x in f.adts[rs[0]]["v"][0]["f"] if f.ts(x["t"]) == "usize"]
    ref = [x["n"] for x in f.adts[rs[0]]["v"][0]["f"] if "BlockRef" in f.ts(x["t"])]
    if len(pos) != 1 or len(ref) != 1:
        return                               # kept some other way: the histories above have to do
    e = prov_engine(f, lambda b: b.sp.startswith("src/types/block/row.rs") and b.n not in ("row_count", "len"))
    e.no_widen = True
    e.gc_returns = False
    me, N = ("T", "rows"), ("a", "arg", "row")
    st = State(obs=())
    st.mem[me] = ("adt", rs[0], None, tuple(sorted(((pos[0], N), (ref[0], ("a", "srvblock", 1)), ("kind", ("tup", ()))))), None)
    w = where(f, nx[0])
    for s1, v in e.run_fn(nx[0], [("ref", (me, ()))], st):
        if isinstance(v, Panic):
            continue
        inside = None
        for t, k in s1.facts.items():
            t = norm(t)
            if t[:2] in (("op", "Lt"), ("op", "Le")) and k[0] == "=" and isinstance(k[1], bool):
                if t[2] == N and isc(t[3], "row_count", "len") and t[1] == "Lt":
                    inside = k[1]
                if t[3] == N and isc(t[2], "row_count", "len") and t[1] == "Le":
                    inside = not k[1]
        v = norm(resolve(e, s1, v))
        if e.variant(s1, v, OPT) == "Some":
            row = plain(e.payload(v, "Some"))
            d = dict(row[3]) if row[0] == "adt" else {}
            good = inside is True and d.get("row") == N and block_in(row) == 1
            after = e.read_loc(s1, (me, ((".", pos[0]),)))
            good = good and add(lin(after), lin(N), -1) == {None: 1}
        else:
            good = e.variant(s1, v, OPT) == "None" and inside is False
        if not good:
            flag("%s: the row iterator does not go from each row to the next until the block's last" % nx[0], w)
    ctx.oblige("the row iterator goes from each row to the next", True, where=w)


def elems(e, st, v):
    """The elements of a sequence made from known ones: [(state, [..])], or None."""
    v = plain(resolve(e, st, v))
    if v[0] == "arr" and all(isinstance(x, tuple) for x in v[1]):
        return [(st, list(v[1]))]
    if v[0] == "adt" and v[1] == "std::ops::Range" and dict(v[3])["start"] == C(0) and "column_count" in str(v):
        return [(st, [C(0), C(1)])]      # some number of columns
    if v[0] == "adt" and v[2] == "Some":
        return [(st, [v[3][0][1]])]
    if len(v) != 4 or v[:2] != ("a", "call"):
        return None
    n, a = last(v[2]), v[3]
    if v[2].startswith("mut:"):
        if n == "push":
            r = elems(e, st, a[0])
            return r and [(s, l + [a[1]]) for s, l in r]
        if n == "next":
            r = elems(e, st, a[0])
            return r and [(s, l[1:]) for s, l in r]
        if n in ("reserve", "reserve_exact", "shrink_to_fit"):
            return elems(e, st, a[0])
        return None
    if n in ("new", "with_capacity") and "Vec" in v[2]:
        return [(st, [])]
    if n == "once":
        return [(st, [a[0]])]
    if n in IDENT + ("collect", "from_iter", "into_boxed_slice", "from", "as_mut_slice") and len(a) == 1:
        return elems(e, st, a[0])
    if n == "from_elem" and a[1] == C(1):
        return [(st, [a[0]])]
    if n == "chain":
        r = elems(e, st, a[0])
        q = elems(e, st, a[1])
        return r and q and [(s, x + y) for s, x in r for _, y in q]
    if n == "rev":
        r = elems(e, st, a[0])
        return r and [(s, l[::-1]) for s, l in r]
    if n in ("skip", "take") and a[1][0] == "c":
        r = elems(e, st, a[0])
        return r and [(s, l[a[1][1]:] if n == "skip" else l[:a[1][1]]) for s, l in r]
    if n == "enumerate":
        r = elems(e, st, a[0])
        return r and [(s, [("tup", (C(i), x)) for i, x in enumerate(l)]) for s, l in r]
    if n in ("map", "filter", "filter_map"):
        r = elems(e, st, a[0])
        if r is None:
            return None
        out = []
        for s, l in r:
            cur = [(s, [])]
            for x in l:
                nxt = []
                for s1, done in cur:
                    for s2, y in callv(e, s1, a[1], [x], SITE):
                        if isinstance(y, Panic):
                            continue
                        if n == "map":
                            nxt.append((s2, done + [y]))
                            continue
                        if n == "filter_map":
                            for s3, var in e.split(s2, y, OPT):
                                nxt.append((s3, done + ([e.payload(y, "Some")] if var == "Some" else [])))
                            continue
                        for b in (True, False):
                            s3 = s2.copy()
                            if not b and e.known(s2, y) is None and len(done) < l.index(x):
                                continue             # leaving one out at a time is enough
                            if e.assume(s3, y, b):
                                nxt.append((s3, done + ([x] if b else [])))
                cur = nxt
            out += cur
        return out
    if n == "scan" and len(a) == 3:
        r = elems(e, st, a[0])
        if r is None:
            return None
        out = []
        for s, l in r:
            cell = ("T", "scan")
            s = s.copy()
            s.mem[cell] = a[1]
            cur = [(s, [])]
            for x in l:
                nxt = []
                for s1, done in cur:
                    for s2, y in callv(e, s1, a[2], [("ref", (cell, ())), x], SITE):
                        if not isinstance(y, Panic) and e.variant(s2, y, OPT) == "Some":
                            nxt.append((s2, done + [e.deep(s2, e.payload(y, "Some"))]))
                cur = nxt
            out += cur
        return out
    return None


SITE = ("c27", 0, "")


def joins(ctx, f, flag):
    """Joining blocks: column k of the result is made of column k of every block, in order; a row is looked up in its chunk."""
    c = [b for b in f.bodies.values() if b.n == "concat" and b.self_ty is not None and f.tk(b.self_ty) == "adt" and f.tdef(b.self_ty).endswith("::Block")]
    cc = [a for a in f.adts if a.endswith("::ConcatColumnData")]
    if len(c) != 1 or len(cc) != 1:
        raise Anchor("Block::concat and ConcatColumnData")
    root, w = c[0].p, where(f, c[0].p)
    blk = f.tdef(c[0].self_ty)
    SHOW = ("len", "row_count", "column_count", "sql_type", "name", "to_string", "at", "get_timezone", "columns", "info")
    e = prov_engine(f, lambda b: b.sp.startswith(("src/types/column/concat.rs", "src/types/column/mod.rs", "src/types/block/mod.rs", "src/types/column/factory")) and
                    b.n not in SHOW)
    e.no_widen = True
    e.gc_returns = False
    e.head_hook = rounds(9)
    e.MAX_HEAD = 50000

    def hook(e, st, call):
        if call.name == "next" and len(call.args) == 1 and call.args[0][0] == "ref":
            loc = e.deref(st, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
            if "Range" in str(e.read_loc(st, loc)[:2]):
                return None
            r = elems(e, st, e.read_loc(st, loc))
            if r is None:
                return None
            out = []
            for s, l in r:
                s = s.copy()
                if l:
                    e.write_loc(s, loc, ("arr", tuple(l[1:])))
                    out.append((s, some(l[0])))
                else:
                    out.append((s, NONE))
            return out
        if call.name in ("collect", "from_iter") and call.args:
            r = elems(e, st, call.args[0])
            return r and [(s, ("arr", tuple(l))) for s, l in r]
        if call.name in ("extend",) and len(call.args) == 2:
            r, q = elems(e, st, call.args[0]), elems(e, st, call.args[1])
            if r and q:
                s = q[0][0].copy()
                e.write_loc(s, e.deref(s, call.args[0]), ("arr", tuple(r[0][1] + q[0][1])))
                return [(s, UNIT)]
        if call.name in ("first", "last", "len", "is_empty") and len(call.args) == 1:
            r = elems(e, st, call.args[0])
            if r:
                return [(s, C(len(l)) if call.name == "len" else C(not l) if call.name == "is_empty" else
                         some(l[0 if call.name == "first" else -1]) if l else NONE) for s, l in r]
        return None
    e.hooks.insert(0, hook)
    blocks = [("a", "srvblock", i) for i in (1, 2, 3)]
    n = 0
    for st, v in e.run_fn(root, [("arr", tuple(blocks))], State(obs=())):
        if isinstance(v, Panic) or n and any(x.startswith(root) for x in flag.bad):
            continue
        v = resolve(e, st, v)
        if v[0] != "adt" or v[1] != blk:
            flag("%s: the joined block cannot be told" % root, w)
            continue
        cols = elems(e, st, dict(v[3])["columns"])
        if not cols or len(cols) != 1:
            flag("%s: the joined columns cannot be told" % root, w)
            continue
        for k, col in list(enumerate(cols[0][1]))[-1:]:      # earlier ones are the last of other paths
            box = []

            def find(x):
                if isinstance(x, tuple):
                    if len(x) > 3 and x[0] == "adt" and x[1] == cc[0]:
                        box.append(dict(x[3]))
                        return
                    for y in x:
                        find(y)
            find(resolve(e, st, col))
            if len(box) != 1:
                flag("%s: the chunks of a joined column cannot be told" % root, w)
                continue
            chunks = elems(e, st, box[0].get("data"))
            if not chunks:
                flag("%s: the chunks of a joined column cannot be told" % root, w)
                continue
            got = [(block_in(x), column_index(x)) for x in chunks[0][1]]
            n += 1
            if got != [(i, k) for i in (1, 2, 3)]:
                flag("%s: a joined column is not made of the same column of every block, in order (%s)" % (root, got), w)
            idx = elems(e, st, box[0].get("index")) if "index" in box[0] else None
            if idx:
                sums = [lin(norm(x)) for x in idx[0][1]]
                want, acc = [{}], {}
                for x in chunks[0][1]:
                    pre = acc
                    acc = None
                    for y in sums:
                        d = add(y, pre, -1)
                        if len(d) == 1 and list(d.values()) == [1] and length_of(list(d)[0]) == norm(plain(x)):
                            acc = y
                    if acc is None:
                        break
                    want.append(acc)
                if sums != want:
                    flag("%s: the row numbers at which chunks start are not the running sums of the chunk lengths" % cc[0], w)
    ctx.floor("joined columns analysed", n, 1)
    ctx.oblige("joined columns hold every block's column once, in order", n > 0, where=w)
    # looking up a row
    at = [items["at"] for selft, items, im in sum((x for k, x in f.timpls.items() if k.endswith("::ColumnData")), []) if f.tk(selft) == "adt" and
          f.tdef(selft) == cc[0] and "at" in items]
    if len(at) != 1:
        raise Anchor("ConcatColumnData::at")
    at = at[0]
    e = prov_engine(f, lambda b: False)
    e.no_widen = True
    self_, ix = ("a", "arg", "self"), ("a", "arg", "index")
    m = 0
    for st, v in e.run_fn(at, [self_, ix], State(obs=())):
        if isinstance(v, Panic):
            continue
        v = norm(resolve(e, st, v))
        m += 1
        good = False
        if isc(v, "at") and len(v[3]) == 2:
            src, pos = plain(v[3][0]), lin(v[3][1])
            cell = element(src)
            if cell and cell[0][0] == "fld" and plain(cell[0][1]) == self_:
                rest = add(lin(ix), pos, -1)
                if list(rest.values()) == [1]:
                    st_ = element(plain(list(rest)[0]))
                    good = bool(st_) and st_[0][0] == "fld" and plain(st_[0][1]) == self_ and lin(st_[1]) == lin(cell[1]) and st_[0] != cell[0]
                    if good and cell[1][:2] == ("a", "call"):
                        inner = [plain(y) for y in cell[1][3]]
                        if not has(cell[1], st_[0]) or not has(cell[1], ix) or any(has(y, ix) and y != ix and y[0] not in ("clo", "a", "adt") for y in inner):
                            good = False
        if not good:
            flag("%s: a row of a joined column is not looked up at its place in the chunk that holds it" % at, where(f, at))
    ctx.oblige("a row of a joined column is read from its chunk", m > 0, where=where(f, at))
    chunk_search(ctx, f, flag)


def length_of(v):
    v = plain(v)
    if isc(v, "len") and len(v[3]) == 1:
        return norm(plain(v[3][0]))
    if v[:2] == ("op", "len"):
        return norm(plain(v[2]))
    return None


def has(v, x):
    return v == x or isinstance(v, tuple) and any(has(y, x) for y in v)


def element(v):
    """(list, index) of an element taken from a list."""
    v = plain(v)
    if v[:2] == ("a", "row"):
        return plain(v[2]), plain(v[3])
    if isc(v, "index", "get_unchecked") and len(v[3]) == 2:
        return plain(v[3][0]), plain(v[3][1])
    if v[0] == "idx":
        return plain(v[1]), plain(v[2])
    return None


def column_index(v):
    """The one constant index used in reaching a column."""
    box = set()

    def go(x):
        if isinstance(x, tuple):
            t = element(x) if len(x) > 2 else None
            if t and block_in(t[0]) is not None:
                box.add(t[1])
            for y in x:
                go(y)
    go(v)
    return list(box)[0][1] if len(box) == 1 and list(box)[0][0] == "c" else None


def chunk_search(ctx, f, flag):
    """A search loop returns a chunk only when it has established that the row lies in it."""
    c = [b for b in f.bodies.values() if b.n == "find_chunk"]
    if len(c) != 1:
        return
    p, w = c[0].p, where(f, c[0].p)
    e = prov_engine(f, lambda b: b.sp.startswith("src/types/column/concat.rs"))
    e.no_widen = True
    e.head_hook = rounds(2)
    idx, ix = ("a", "arg", "index"), ("a", "arg", "ix")
    n = 0
    for st, v in e.run_fn(p, [idx, ix], State(obs=())):
        if isinstance(v, Panic):
            continue
        v = norm(e.deep(st, v))
        if v[0] == "c":
            continue
        low = high = False
        for t, k in st.facts.items():
            t = norm(t)
            if not (isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and t[1] in ("Lt", "Le") and k[0] == "=" and isinstance(k[1], bool)):
                continue
            for x, y, strict, right in ((t[2], t[3], t[1] == "Lt", True), (t[3], t[2], t[1] == "Lt", False)):
                c = element(y)
                if plain(x) != ix or c is None or c[0] != idx:
                    continue
                d = add(lin(c[1]), lin(v), -1)
                d = d.get(None, 0) if set(d) <= {None} else None
                # x < y / x <= y when right, y < x / y <= x otherwise
                if d == 0 and ((right and strict and not k[1]) or (not right and not strict and k[1]) or (not right and strict and k[1])):
                    low = True
                if d == 1 and ((right and strict and k[1]) or (not right and not strict and not k[1])):
                    high = True
        n += 1
        if not (low and high):
            flag("%s: a chunk is chosen without establishing that the row lies in it" % p, w)
    ctx.count("search results", n)
    ctx.oblige("a chunk chosen by the search holds the row", True, where=w)


def block_in(v):
    box = set()

    def go(x):
        if isinstance(x, tuple):
            if x[:2] == ("a", "srvblock"):
                box.add(x[2])
            else:
                for y in x:
                    go(y)
    go(v)
    return box.pop() if len(box) == 1 else None


def listed(v):
    """Block numbers in a list value."""
    v = plain(v)
    if v[:2] != ("a", "call"):
        if v[0] in ("arr", "tup"):
            l = [plain(x) for x in v[1]]
            return [x[2] for x in l] if all(x[:2] == ("a", "srvblock") for x in l) else None
        return None
    n, a = last(v[2]), v[3]
    if n == "push" and v[2].startswith("mut:"):
        l, x = listed(a[0]), plain(a[1])
        return l + [x[2]] if l is not None and x[:2] == ("a", "srvblock") else None
    if n in ("new", "with_capacity") and "Vec" in v[2]:
        return []
    if n in ("from", "into_boxed_slice", "as_slice", "deref", "as_ref", "iter", "into_iter", "collect", "clone", "to_vec", "borrow") and len(a) == 1:
        return listed(a[0])
    if n == "index" and len(a) == 2 and plain(a[1])[:2] == ("adt", "std::ops::RangeFull"):
        return listed(a[0])
    return None
