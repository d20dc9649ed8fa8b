"""C16 Server packets are read with the protocol's fields."""
from engine import State, Panic, C, TRUE, FALSE, RES, POLL, OPT, NONE, PENDING, some, ok, err, contains, field
from models import nrm
from prov import prov_engine, calls_in
from lin import strip, low_high
from transport import Names, Anchor, adt_path
from rules.util import where
from rules.c12 import isc, last, unref
from wire import norm, plain, rounds, is_enc

TECHNIQUE = "path-sensitive analysis of every packet and block decoder over MIR, compared with the protocol's field list for each packet code and revision range"
RULE = ("On every path through the packet parser the packet code found equal on that path decides what may follow: the reads made must be the "
        "protocol's list for that code (varint, fixed-width scalar or string, in order), with the revision-dependent ones exactly on paths whose "
        "tested revision range includes them, and each field of the resulting packet must be the read the protocol assigns to it; a path on which "
        "no known code was found must end in an error. The revision, time zone and compression used to decode must be those of the handshake. "
        "Blocks are read as block info, column count, row count, then each column's name, type and values for that many rows.")
ASSUMPTIONS = ["Unmarshal for the fixed-width types is little-endian (their bodies are macro generated from from_le_bytes)."]
METHODS = ("read_uvarint", "read_scalar", "read_string", "skip_string", "read_bytes", "read_str_into_buffer")
U, S = "varint", "string"
CODES = {0: "Hello", 1: "Block", 2: "Exception", 3: "Progress", 4: "Pong", 5: "Eof", 6: "ProfileInfo", 7: "Block", 8: "Block", 11: "TableColumns"}
REV = ("a", "arg", "revision")
WIDTH = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "u128": 16, "i128": 16}


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    packets(ctx, f, flag)
    handshake(ctx, f, flag)
    block(ctx, f, flag)
    primitives(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def reader_hook(f, cursor_ok=None):
    """Every read succeeds with a value named by its position in the sequence of reads."""
    def hook(e, st, call):
        n = call.name
        if n not in METHODS or call.rett is None:
            return None
        k = sum(1 for o in st.obs if o[0] == "rd")
        s = st.copy()
        if n == "read_scalar":
            t = f.ts(f.targs(call.rett)[0]) if f.tk(call.rett) == "adt" else "?"
            s.obs = s.obs + (("rd", WIDTH.get(t, t), ("a", "rd", k)),)
            return [(s, ok(("a", "rd", k)))]
        if n == "read_uvarint":
            s.obs = s.obs + (("rd", U, ("a", "rd", k)),)
            return [(s, ok(("a", "rd", k)))]
        if n == "read_string":
            s.obs = s.obs + (("rd", S),)
            return [(s, ok(("a", "rd", k)))]
        if n in ("skip_string", "read_str_into_buffer"):
            s.obs = s.obs + (("rd", S),)
            return [(s, ok(("tup", ())))]
        if n == "read_bytes":
            s.obs = s.obs + (("rd", "bytes"),)
            return [(s, ok(("tup", ())))]
        return None
    return hook


def reads(st):
    return [o[1] for o in st.obs if o[0] == "rd"]


def is_parser(f, t):
    t = f.peel(t)
    return f.tk(t) == "adt" and (f.tdef(t) or "").endswith("Parser")


def parse_fn(f, N):
    c = [b for b in f.bodies.values() if b.argc >= 1 and is_parser(f, b.l[1]) and "Packet<" in f.ts(b.l[0]) and b.k in ("method", "fn")]
    src = {b.sp.split(":")[0] for b in c}
    called = set()
    for b in c:
        for bl in b.b:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn":
                called.add(t[1][1]["p"])
                called.add(nrm(t[1][1]["p"]))
    top = [b for b in c if b.p not in called and nrm(b.p) not in called]
    if len(top) != 1:
        top = [b for b in c if b.n == "parse_packet"]
    if len(top) != 1:
        raise Anchor("the packet parser")
    return top[0], src


def is_block_load(f, N, b):
    t = b.l[0]
    return b.argc >= 2 and f.ts(t).startswith("std::result::Result<") and f.tk(f.targs(t)[0]) == "adt" and f.tdef(f.targs(t)[0]) == N.block and \
        any(f.ts(x).endswith("Tz") for x in b.l[1:1 + b.argc])


def value_of(v, k):
    """Is v the k-th read, unchanged (a one-byte flag may be tested against zero)?"""
    v = plain(v)
    R = ("a", "rd", k)
    if v == R:
        return True
    if v[0] == "op" and v[1] in ("Eq", "not") or v[0] == "not":
        return contains(v, R) and not any(contains(v, ("a", "rd", j)) for j in range(40) if j != k)
    if v[0] == "cast":
        return value_of(v[2], k) and v[1] not in ("u8", "i8", "u16", "i16")
    if v[0] == "fld" and v[1][0] == "dc":
        c = v[1][1]
        return isinstance(c, tuple) and c[:2] == ("a", "call") and len(c) == 4 and last(c[2]) in ("parse", "from_str", "try_from", "try_into") and len(c[3]) >= 1 and value_of(c[3][0], k)
    if isc(v, "into", "from"):
        return value_of(v[3][0], k)
    return False


class Reader:
    def __init__(self, st):
        self.seq = reads(st)
        self.i = 1 if self.seq else 0
        self.st = st

    def take(self, what, kind):
        if self.i >= len(self.seq):
            raise Bad("%s is not read" % what)
        got = self.seq[self.i]
        if got != kind:
            raise Bad("%s is read as %s, not as %s" % (what, sh(got), sh(kind)))
        self.i += 1
        return self.i - 1


def sh(k):
    return "a %s" % k if isinstance(k, str) else "%d bytes" % k


class Bad(Exception):
    pass


class Infeasible(Exception):
    """The path's tests contradict each other."""


def packets(ctx, f, flag):
    N = Names(f)
    top, src = parse_fn(f, N)
    W = where(f, top.p)
    e = prov_engine(f, lambda b: b.sp.split(":")[0] in src and "Debug" not in b.p)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    e.hooks.append(reader_hook(f))
    loads = {b.p for b in f.bodies.values() if is_block_load(f, N, b)}

    def hook(e, st, call):
        if call.path in loads:
            s = st.copy()
            a = tuple(norm(e.deep(st, x)) for x in call.args)
            s.obs = s.obs + (("rd", "block"), ("block", a[1:]))
            return [(s, ok(("a", "block")))]
        return None
    e.hooks.insert(0, hook)
    args = []
    for i in range(1, top.argc + 1):
        args.append(("a", "arg", "parser") if is_parser(f, top.l[i]) else REV if f.ts(top.l[i]) == "u64" else ("a", "arg", "x%d" % i))
    n, seen, errs = 0, {}, 0
    rev_terms = [REV, ("fld", ("fld", ("a", "arg", "parser"), "info"), "revision")]
    for st, v in e.run_fn(top.p, args, State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        v = norm(e.deep(st, v))
        facts = {norm(k): x for k, x in st.facts.items()}
        seq = reads(st)
        if not seq or seq[0] != U:
            flag("the packet code is not read as a varint first", W)
            continue
        code = facts.get(("a", "rd", 0))
        lo, hi = low_high(facts, ("a", "rd", 0))
        if code is not None and code[0] == "=":
            code = int(code[1])
        elif lo is not None and lo == hi:
            code = lo
        else:
            code = None
        # codes this path may stand for
        if code is None:
            excluded = set(code_excl(facts))
            poss = [c for c in CODES if c not in excluded and (lo is None or c >= lo) and (hi is None or c <= hi)]
            # equality tests on the code
            for k, x in facts.items():
                if isinstance(k, tuple) and k[0] == "op" and k[1] == "Eq" and ("a", "rd", 0) in k[2:]:
                    o = k[3] if k[2] == ("a", "rd", 0) else k[2]
                    if o[0] == "c" and x[0] == "=":
                        if x[1] in (True, 1):
                            code = o[1]
                        elif o[1] in poss:
                            poss.remove(o[1])
            if code is None and not poss:
                errs += 1
                if v[0] != "adt" or v[2] != "Err":
                    flag("a packet with an unknown code does not end in an error", W)
                continue
            codes = [code] if code is not None else poss
        else:
            codes = [code]
        for c in codes:
            if c not in CODES:
                errs += 1
                if v[0] != "adt" or v[2] != "Err":
                    flag("a packet with the unknown code %s does not end in an error" % c, W)
                continue
            if v[0] == "adt" and v[2] == "Err":
                if c in (0, 1, 7, 8) and (c or isparse(v, facts)):
                    continue        # unknown time zone, or data before the handshake
                flag("%s packets (code %d) are refused although they were read" % (CODES[c], c), W)
                continue
            p = e.payload(v, "Ok") if v[0] == "adt" else None
            if p is None or p[0] != "adt" or p[1] != N.packet:
                continue
            if p[2] != CODES[c]:
                flag("packet code %d is taken for %s" % (c, p[2]), W)
                continue
            seen.setdefault(c, 0)
            seen[c] += 1
            r = Reader(st)
            try:
                spec(f, N, e, r, c, p, facts, rev_terms, st)
            except Infeasible:
                continue
            except Bad as b:
                flag("%s packet: %s" % (CODES[c], b), W)
    for c in CODES:
        if c not in seen:
            flag("%s packets (code %d) are not recognised" % (CODES[c], c), W)
    if not errs:
        flag("unknown packet codes are not refused", W)
    ctx.oblige("packet parser: %d paths, %d packet codes" % (n, len(seen)), True, where=W)
    ctx.floor("parser paths", n, 12)


def code_excl(facts):
    x = facts.get(("a", "rd", 0))
    if x is not None and x[0] == "!":
        return x[1]
    if x is not None and x[0] == "!=":
        return x[1]
    return ()


def isparse(v, facts):
    return True


def fields(e, p):
    return [x for _, x in p[3]]


def rng(facts, terms):
    lo, hi = 0, 1 << 63
    for t in terms:
        a, b = low_high(facts, t)
        lo = max(lo, a or 0)
        hi = min(hi, b if b is not None else hi)
    return lo, hi


def gate(r, facts, terms, g, what):
    """Whether the path's revision range includes the field; a path that spans the gate is wrong either way."""
    lo, hi = rng(facts, terms)
    if lo > hi:
        raise Infeasible()
    if lo >= g:
        return True
    if hi < g:
        return False
    raise Bad("%s is read or left out whatever the server's revision (%d to %d)" % (what, lo, hi))


def spec(f, N, e, r, c, p, facts, revs, st):
    fs = fields(e, p)
    if c in (4, 5):
        pass
    elif c == 0:
        info = [x for x in fs if x[0] == "adt"]
        if not info:
            raise Bad("it does not carry what the server announced")
        d = dict(info[0][3])
        want = {}
        want["name"] = r.take("the server's name", S)
        want["major_version"] = r.take("the major version", U)
        want["minor_version"] = r.take("the minor version", U)
        want["revision"] = r.take("the revision", U)
        rev = [("a", "rd", want["revision"])]
        for g, what, fl, kind in ((54058, "the time zone", "timezone", S), (54372, "the display name", "display_name", S), (54401, "the version patch", "patch_version", U)):
            if gate(r, facts, rev, g, what):
                want[fl] = r.take(what, kind)
        match(d, want)
    elif c == 2:
        info = [x for x in fs if x[0] == "adt"]
        d = dict(info[0][3]) if info else {}
        want = {}
        want["code"] = r.take("the error code", 4)
        want["name"] = r.take("the error's name", S)
        want["message"] = r.take("the message", S)
        want["stack_trace"] = r.take("the stack trace", S)
        match(d, want)
        rest = r.seq[r.i:]
        # the flag that says whether a nested exception follows, and the nested ones
        if rest and rest[0] == 1:
            k = 0
            while k < len(rest) and rest[k] == 1:
                k += 5
            if all(x in (1, 4, S) for x in rest):
                r.i = len(r.seq)
    elif c == 3:
        info = [x for x in fs if x[0] == "adt"]
        d = dict(info[0][3]) if info else {}
        want = {"rows": r.take("the number of rows", U), "bytes": r.take("the number of bytes", U)}
        if gate(r, facts, revs, 51554, "the total number of rows"):
            want["total_rows"] = r.take("the total number of rows", U)
        if gate(r, facts, revs, 54420, "the written rows and bytes"):
            want["written_rows"] = r.take("the written rows", U)
            want["written_bytes"] = r.take("the written bytes", U)
        match(d, want)
    elif c == 6:
        info = [x for x in fs if x[0] == "adt"]
        d = dict(info[0][3]) if info else {}
        want = {}
        for k, kind in (("rows", U), ("blocks", U), ("bytes", U), ("applied_limit", 1), ("rows_before_limit", U), ("calculated_rows_before_limit", 1)):
            want[k] = r.take(k, kind)
        match(d, want)
    elif c == 11:
        info = [x for x in fs if x[0] == "adt"]
        d = dict(info[0][3]) if info else {}
        match(d, {"table_name": r.take("the table name", S), "columns": r.take("the columns", S)})
    else:
        r.take("the table name", S)
        r.take("the block", "block")
        if fs != [("a", "block")]:
            raise Bad("it does not carry the block that was read")
        a = [o[1] for o in st.obs if o[0] == "block"][0]
        PI = ("fld", ("a", "arg", "parser"), "info")
        for x in a:
            if x == ("fld", PI, "compress"):
                continue
            if x[0] == "fld" and x[1][0] == "dc" and x[1][1] == ("fld", PI, "timezone"):
                continue
            k = facts.get(("fld", PI, "compress"))
            if x[0] == "c" and k is not None and k[0] == "=" and bool(k[1]) == bool(x[1]):
                continue
            raise Bad("the block is not decoded with the time zone and compression of the connection")
    if r.i != len(r.seq):
        raise Bad("%s is read that the packet does not have" % sh(r.seq[r.i]))


def match(d, want):
    for k, i in want.items():
        if k not in d:
            raise Anchor("field %s of a packet" % k)
        if not value_of(d[k], i):
            raise Bad("%s carries another value" % k)
    for k, v in d.items():
        if k not in want and any(contains(v, ("a", "rd", j)) for j in range(1, 40)):
            raise Bad("%s carries a value the server did not send for it" % k)


# ---------------------------------------------------------------- what the handshake changes
def handshake(ctx, f, flag):
    """The function of the transport that calls the parser keeps the revision and time zone a Hello announced."""
    N = Names(f)
    top, src = parse_fn(f, N)
    p = N.transport_poll()
    tsrc = f.bodies[p].sp.split(":")[0]
    cands = []
    for b in f.bodies.values():
        if b.sp.split(":")[0] != tsrc:
            continue
        for bl in b.b:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and (t[1][1]["p"] == top.p or nrm(t[1][1]["p"]) == nrm(top.p)):
                cands.append(b)
    if not cands:
        raise Anchor("the caller of the packet parser")
    b = cands[0]
    W = where(f, b.p)
    e = prov_engine(f, lambda x: x.sp.split(":")[0] == tsrc and x.p != p or "is_would_block" in x.p or "Parser" in x.p and x.n == "new")
    e.gc_returns = False
    SI = ("a", "announced")
    recs = []

    def hook(e, st, call):
        if call.path == top.p or nrm(call.p) == nrm(top.p):
            recs.append(tuple(norm(e.deep(st, a)) for a in call.args))
            out = []
            for kind in ("Hello", "Pong"):
                s = st.copy()
                s.obs = s.obs + (("got", kind),)
                ad = f.adts[N.packet]
                v = [x for x in ad["v"] if x["n"] == kind][0]
                vals = []
                for i, fl in enumerate(v["f"]):
                    n = fl["n"] if isinstance(fl, dict) else fl
                    vals.append((n, SI if kind == "Hello" and i == 1 else ("tup", ())))
                out.append((s, ok(("adt", N.packet, kind, tuple(sorted(vals)), None))))
            return out
        return None
    e.hooks.append(hook)
    SELF = ("a", "arg", "self")
    n = 0
    args = [SELF] + [("a", "arg", "y%d" % i) for i in range(2, b.argc + 1)]
    for st, v in e.run_fn(b.p, args, State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        got = [o[1] for o in st.obs if o[0] == "got"]
        if not got:
            continue
        info = None
        for path in ((("H", SELF), ((".", "info"),)),):
            info = e.read_loc(st, path)
        # the projection holds a reference to the info
        t = norm(e.deep(st, info))
        if t[0] == "fld" or t[0] == "a":
            t = None
        cells = {}
        for root, val in st.mem.items():
            if root[0] == "H" and contains(root[1], SELF):
                cells[root] = norm(e.deep(st, val))
        txt = list(cells.values()) + ([t] if t else [])
        rev = any(find_field(x, "revision") == ("fld", SI, "revision") for x in txt)
        tz = any(unsome(find_field(x, "timezone")) == ("fld", SI, "timezone") for x in txt)
        if got[-1] == "Hello":
            if not rev:
                flag("packets after the handshake are not read with the revision the server announced", W)
            if not tz:
                flag("packets after the handshake are not read with the time zone the server announced", W)
    # the revision the parser is given is the one kept
    for a in recs:
        nums = [x for x in a[1:] if x[0] == "fld" and x[2] == "revision"]
        if top.argc >= 2 and not nums:
            flag("the parser is not given the announced revision", W)
    ctx.oblige("handshake information: %d paths" % n, True, where=W)
    ctx.floor("handshake paths", n, 2)


def find_field(v, name):
    if isinstance(v, tuple):
        if v and v[0] == "adt":
            d = dict(v[3])
            if name in d:
                return d[name]
            for x in d.values():
                r = find_field(x, name)
                if r is not None:
                    return r
    return None


def unsome(v):
    if v is not None and v[0] == "adt" and v[2] == "Some":
        return dict(v[3])["0"]
    return None


# ---------------------------------------------------------------- blocks
def block(ctx, f, flag):
    N = Names(f)
    loads = [b for b in f.bodies.values() if is_block_load(f, N, b)]
    pub = [b for b in loads if any(f.ts(t) == "bool" for t in b.l[1:1 + b.argc])]
    if not pub:
        raise Anchor("the block reader")
    b = pub[0]
    W = where(f, b.p)
    src = ("src/types/block/", "src/types/column/mod.rs")
    e = prov_engine(f, lambda x: x.sp.startswith(src) and x.n not in ("append_column", "load_data"))
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(3)
    rh = reader_hook(f)

    def hook(e, st, call):
        if call.name in METHODS:
            r = norm(e.deep(st, call.args[0]))
            st = st.copy()
            st.obs = st.obs + (("via", any(last(p) == "make" or "compress" in p for p, _ in calls_in(r)) or "ompressed" in str(r)[:4000]),)
            return rh(e, st, call)
        if call.name == "load_data" or call.name == "append_column":
            s = st.copy()
            a = tuple(norm(e.deep(st, x)) for x in call.args)
            s.obs = s.obs + ((call.name, a),)
            if call.name == "load_data":
                k = sum(1 for o in s.obs if o[0] == "load_data") - 1
                s.obs = s.obs + (("rd", "values"),)
                return [(s, ok(("a", "values", k)))]
            if call.rett is not None and f.ts(call.rett).startswith("std::result::Result<"):
                return [(s, ok(("tup", ())))]
            return [(s, ("tup", ()))]
        return None
    e.hooks.append(hook)
    n = cols = 0
    TZ, RD = ("a", "arg", "tz"), ("a", "arg", "reader")
    for comp in (FALSE, TRUE):
        args = []
        for i in range(1, b.argc + 1):
            t = f.ts(b.l[i])
            args.append(comp if t == "bool" else TZ if t.endswith("Tz") else RD)
        for st, v in e.run_fn(b.p, args, State(obs=())):
            if isinstance(v, Panic):
                continue
            v = norm(e.deep(st, v))
            if v[0] == "adt" and v[2] == "Err":
                continue
            n += 1
            facts = {norm(k): x for k, x in st.facts.items()}
            for o in st.obs:
                if o[0] == "via" and o[1] != (comp == TRUE):
                    flag("a block is%s read through the decompressor although the connection is%s compressed" % (("", " not") if o[1] else (" not", "")), W)
            seq = reads(st)
            try:
                cols += read_block(st, seq, facts, v, TZ)
            except Bad as x:
                flag("block: %s" % x, W)
    ctx.oblige("block reader: %d paths, %d columns" % (n, cols), True, where=W)
    ctx.floor("block reader paths", n, 4)


def read_block(st, seq, facts, v, TZ):
    i = 0
    # block info: numbered fields until 0
    vals = {}
    while True:
        if i >= len(seq) or seq[i] != U:
            raise Bad("a block info field number is not read as a varint")
        x = facts.get(("a", "rd", i))
        num = int(x[1]) if x is not None and x[0] == "=" else None
        if num is None:
            lo, hi = low_high(facts, ("a", "rd", i))
            num = lo if lo is not None and lo == hi else None
        i += 1
        if num == 0:
            break
        if num == 1:
            if i >= len(seq) or seq[i] != 1:
                raise Bad("the overflow flag of the block info is not read as one byte")
        elif num == 2:
            if i >= len(seq) or seq[i] != 4:
                raise Bad("the bucket number of the block info is not read as four bytes")
        else:
            raise Bad("an unknown block info field is accepted")
        vals[num] = i
        i += 1
    if seq[i:i + 2] != [U, U]:
        raise Bad("the numbers of columns and rows are not read as varints after the block info")
    nc, nr = i, i + 1
    i += 2
    k = 0
    loads = [o[1] for o in st.obs if o[0] == "load_data"]
    while i < len(seq):
        if seq[i:i + 3] != [S, S, "values"]:
            raise Bad("a column is not read as its name, its type and its values")
        a = loads[k]
        if not any(x == ("a", "rd", i + 1) for x in a):
            raise Bad("a column's values are not read as the type the server named")
        if not any(strip(x) == ("a", "rd", nr) for x in a):
            raise Bad("a column's values are not read for the block's number of rows")
        if TZ not in a:
            raise Bad("a column's values are not read with the connection's time zone")
        k += 1
        i += 3
    app = [o[1] for o in st.obs if o[0] == "append_column"]
    if len(app) == k:
        for j, a in enumerate(app):
            c = [x for x in a if x[0] == "adt"]
            if c:
                d = dict(c[-1][3])
                if d.get("name") is not None and d["name"] != ("a", "rd", nr + 1 + 3 * j) or d.get("data") is not None and not contains(d["data"], ("a", "values", j)):
                    raise Bad("a column does not carry its own name and values")
    elif app:
        raise Bad("a column that was read is not part of the block")
    # as many columns as announced
    opened = [t for t, x in facts.items() if isinstance(t, tuple) and t[0] == "op" and t[1] == "Lt" and contains(t, ("a", "rd", nc))]
    if contains(v, ("a", "rd", nc)) and False:
        pass
    lo, hi = low_high(facts, ("a", "rd", nc))
    if lo is not None and lo > k or hi is not None and hi < k:
        raise Bad("the number of columns read is not the number announced")
    if not opened and not any(contains(t, ("a", "rd", nc)) for t in facts):
        raise Bad("the number of columns read does not depend on the number announced")
    return k


# ---------------------------------------------------------------- primitives
def the_impl(f, name):
    """The ReadEx method for every io::Read."""
    c = [b for b in f.bodies.values() if b.n == name and b.trait and "ReadEx" in b.trait and b.sp.startswith("src/binary/")]
    if len(c) != 1:
        c = [b for b in f.bodies.values() if b.n == name and "ReadEx" in b.p and b.b]
    if len(c) != 1:
        raise Anchor("the implementation of %s" % name)
    return c[0]


def pieces(v):
    """An integer put together from reads: {(read, mask, shift)}, None when not understood."""
    v = strip(v)
    if v[0] == "c":
        return set() if v[1] == 0 else None
    if v[0] == "op" and v[1] in ("BitOr", "Add", "BitXor"):
        a, b = pieces(v[2]), pieces(v[3])
        return None if a is None or b is None or a & b else a | b
    if v[0] == "op" and v[1] == "Shl" and v[3][0] == "c":
        a = pieces(v[2])
        return None if a is None else {(r, m, s + v[3][1]) for r, m, s in a}
    if v[0] == "op" and v[1] == "BitAnd":
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if y[0] == "c":
                a = pieces(x)
                return None if a is None or len(a) != 1 else {(r, m & y[1], s) for r, m, s in a}
        return None
    if isc(v, "from", "into", "wrapping_shl") and len(v[3]) == 1:
        return pieces(v[3][0])
    if v[0] == "conv":
        return pieces(v[2])
    if v[:2] == ("a", "rd"):
        return {(v[2], 255, 0)}
    return None


def primitives(ctx, f, flag):
    n = 0
    # varint
    b = the_impl(f, "read_uvarint")
    W = where(f, b.p)
    e = prov_engine(f, lambda x: x.sp == b.sp or x.sp.split(":")[0] == b.sp.split(":")[0] and x.n not in METHODS)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(4)
    rh = reader_hook(f)

    def hook(e, st, call):
        r = rh(e, st, call)
        if r and call.name == "read_scalar":
            out = []
            for s, v in r:
                k = sum(1 for o in s.obs if o[0] == "rd") - 1
                s.obs = s.obs[:-1] + (("rd", s.obs[-1][1], ("a", "rd", k)),)
                out.append((s, v))
            return out
        return r
    e.hooks.append(hook)
    done = 0
    for st, v in e.run_fn(b.p, [("a", "arg", "self")], State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        v = norm(e.deep(st, v))
        seq = reads(st)
        if v[0] != "adt":
            continue
        facts = {norm(k): x for k, x in st.facts.items()}
        if v[2] == "Err":
            if len(seq) < 10 and not any(low_high(facts, ("a", "rd", j)) == (None, None) for j in range(len(seq))):
                flag("a varint of %d bytes is refused" % len(seq), W)
            continue
        if any(x != 1 for x in seq):
            if all(isinstance(x, int) for x in seq):
                flag("a varint is not read byte by byte", W)
            continue
        p = pieces(norm(e.payload(v, "Ok")))
        if p is None:
            continue
        k = len(seq)
        done += 1
        low = {(r, s): m for r, m, s in p}
        want = {(j, 7 * j) for j in range(k)}
        good = set(low) == want and all(low[(j, 7 * j)] & 0x7f == 0x7f for j in range(k)) and all(not low[(j, 7 * j)] & 0x80 for j in range(k - 1))
        if not good:
            flag("a varint's bytes are not put together seven bits each, least significant first", W)
        for j in range(k):
            lo, hi = low_high(facts, ("a", "rd", j))
            bit = [x for t, x in facts.items() if isinstance(t, tuple) and t[0] == "op" and t[1] == "Eq" and contains(t, ("a", "rd", j))]
            if j < k - 1 and (lo or 0) < 128 and not bit:
                flag("a varint goes on after its last byte", W)
            if j == k - 1 and (hi is None or hi > 127) and not bit:
                flag("a varint ends before its last byte", W)
            if j < k - 1 and lo is not None and lo > 128 or j == k - 1 and hi is not None and hi < 127:
                flag("a varint's end is not found by the top bit", W)
    # strings
    for nm in ("read_string", "skip_string", "read_str_into_buffer"):
        c = the_impl(f, nm)
        W2 = where(f, c.p)
        e2 = prov_engine(f, lambda x: x.sp.split(":")[0] == c.sp.split(":")[0] and x.n not in METHODS)
        e2.gc_returns = False

        def hook2(e, st, call):
            if call.name == "read_uvarint":
                s = st.copy()
                s.obs = s.obs + (("rd", U, ("a", "rd", 0)),)
                return [(s, ok(("a", "rd", 0)))]
            if call.name in ("read_bytes", "read_exact") and len(call.args) == 2:
                s = st.copy()
                buf = norm(e.deep(st, call.args[1]))
                s.obs = s.obs + (("bytes", buf),)
                r = call.args[1]
                if r[0] == "ref":
                    e.write_loc(s, r[1], ("a", "call", "mut:filled", (buf,)))
                return [(s, ok(("tup", ())))]
            return None
        e2.hooks.append(hook2)
        for st, v in e2.run_fn(c.p, [("a", "arg", "self")] + [("a", "arg", "pool")] * (c.argc - 1), State(obs=())):
            if isinstance(v, Panic):
                continue
            v = norm(e2.deep(st, v))
            if v[0] == "adt" and v[2] == "Err":
                continue
            n += 1
            k = [o[0] for o in st.obs]
            if k != ["rd", "bytes"]:
                flag("%s does not read a length and then that many bytes" % nm, W2)
                continue
            ln = length(st.obs[1][1])
            if ln is None:
                continue
            if narrow(ln) or strip(ln) != ("a", "rd", 0):
                flag("%s does not read as many bytes as the length it read" % nm, W2)
            if nm == "read_string":
                p = e2.payload(v, "Ok") if v[0] == "adt" else v
                if not any("utf8" in last(q) and not last(q).endswith("lossy") for q, _ in calls_in(p)) and not contains(p, st.obs[1][1]):
                    flag("read_string does not return the bytes it read", W2)
    ctx.oblige("primitive readers: %d paths" % n, True, where=W)
    ctx.floor("varint paths understood", done, 1)


def narrow(v):
    if isinstance(v, tuple):
        if v and v[0] == "cast" and v[1] in ("u8", "u16", "u32", "i8", "i16", "i32"):
            return True
        return any(narrow(x) for x in v if isinstance(x, tuple))
    return False


def length(v):
    """The term that gives a buffer its length."""
    while isinstance(v, tuple):
        if isc(v, "as_mut", "as_mut_slice", "deref_mut", "as_ref", "filled") and v[3]:
            v = v[3][0]
        elif v[0] == "cast":
            v = v[2]
        elif isc(v, "from_elem"):
            return v[3][1]
        elif isc(v, "resize"):
            return v[3][1]
        elif isc(v, "allocate"):
            return v[3][-1]
        elif isc(v, "index_mut", "index"):
            r = v[3][1]
            if isinstance(r, tuple) and r[0] == "adt":
                d = dict(r[3])
                if "end" in d and d.get("start", C(0)) == C(0):
                    return d["end"]
            return None
        else:
            return None
    return None
