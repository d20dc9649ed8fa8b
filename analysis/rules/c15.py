"""C15 Client packets carry the protocol's fields."""
from engine import State, Panic, C, TRUE, FALSE, RES, contains, field
from models import nrm
from prov import calls_in
from lin import strip, low_high
from transport import Names, Anchor, adt_path, the
from rules.util import where
from rules.c12 import isc, last, unref
from wire import writer, tokens, plain, rounds, is_enc, enc_method, norm
from prov import prov_engine
from rules.ops import Ops, START

TECHNIQUE = "path-sensitive provenance analysis of every packet encoder over MIR, compared with the protocol's field list for each revision range"
RULE = ("For every kind of command, on every path through its encoder, the sequence of values put into the packet must be the protocol's list for that "
        "kind: packet code first, each field from the very option, query or context field the protocol assigns to it, the revision-dependent fields "
        "exactly on the paths whose tested range of the server's revision calls for them, settings entry by entry in the format of that revision, "
        "the compression flag and the compression of the data block both taken from the same option. Blocks are laid out as block info, number of "
        "columns, number of rows and then each column's name, type and values. Integers and strings are length-prefixed without narrowing.")
ASSUMPTIONS = ["Display of numbers and strings prints them in the form the server parses."]

QUOTA, PATCH, STRINGS = 54060, 54401, 54429
REGIONS = [(0, QUOTA - 1), (QUOTA, PATCH - 1), (PATCH, STRINGS - 1), (STRINGS, 1 << 64)]


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    packets(ctx, f, flag)
    block(ctx, f, flag)
    primitives(ctx, f, flag)
    context(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def short(v, n=90):
    s = str(v)
    return s if len(s) < n else s[:n // 2] + ".." + s[-n // 2:]


class Mismatch(Exception):
    pass


class Seq:
    """Reads a token list from the front."""

    def __init__(self, toks, st, e):
        self.t, self.i, self.st, self.e = toks, 0, st, e
        self.facts = {norm(k): v for k, v in st.facts.items()}

    def known(self, v):
        x = self.facts.get(norm(v))
        return C(x[1]) if x is not None and x[0] == "=" else None

    def next(self, what):
        if self.i >= len(self.t):
            raise Mismatch("%s is missing" % what)
        r = self.t[self.i]
        self.i += 1
        return r

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, ())

    def num(self, v):
        v = strip(plain(v))
        if v[0] == "c":
            return v
        k = self.known(v)
        return k if k is not None and k[0] == "c" else v

    def uint(self, what):
        """An integer written as one varint byte or more; strings of length 0 and single bytes have the same form."""
        op, a = self.next(what)
        if op == "uvarint":
            return self.num(a[0])
        if op in ("string", "byte_string") and plain(a[0]) in (C(""), C(b"")):
            return C(0)
        if op == "write":
            v = plain(a[0])
            w = v[2] if v[0] == "cast" and v[1] == "u8" else v
            return self.num(w)
        raise Mismatch("%s is not written as an integer" % what)

    def const(self, what, n):
        v = self.uint(what)
        if v != C(n) and not (v[0] == "c" and v[1] is bool(n) and n in (0, 1)):
            raise Mismatch("%s is %s, not %d" % (what, short(v), n))

    def string(self, what):
        op, a = self.next(what)
        if op == "uvarint" and self.num(a[0]) == C(0):
            return C("")
        if op not in ("string", "byte_string"):
            raise Mismatch("%s is not written as a string" % what)
        return plain(a[0])

    def field(self, what, want):
        v = self.string(what)
        if v != want:
            raise Mismatch("%s carries another value" % what)

    def empty(self, what):
        v = self.string(what)
        if v != C(""):
            raise Mismatch("%s is not empty" % what)

    def end(self):
        if self.i < len(self.t):
            raise Mismatch("an unexpected field (%s) follows" % self.t[self.i][0])


def options_of(v):
    """Is v the options value obtained from the context?"""
    return isinstance(v, tuple) and v[0] == "fld" and v[1][0] == "dc" and v[1][2] in ("Ok", "Continue")


def opt_field(v, name, cx):
    """The option `name` of the context's options."""
    v = plain(v)
    if not (isinstance(v, tuple) and v[0] == "fld" and v[2] == name):
        return False
    return any(last(p) == "get" and "OptionsSource" in p and plain(a[0]) == ("fld", cx, "options") for p, a in calls_in(v[1]))


CX, QUERY, BLOCK = ("a", "arg", "ctx"), ("a", "arg", "query"), ("a", "arg", "block")


def is_block_write(f, N, b):
    return b.argc == 3 and N.peeled(b.l[1]) == N.block and is_enc(f, b.l[2]) and f.ts(b.l[3]) == "bool"


def block_writer(f, N):
    c = [b for b in f.bodies.values() if is_block_write(f, N, b)]
    w = [b for b in c if b.n == "write"]
    if len(w) == 1:
        return w[0]
    ps = {b.p for b in c}
    return the([b for b in c if not any(t.get("callee") in ps - {b.p} for t in [])], "the block writer")


def packets(ctx, f, flag):
    N = Names(f)
    bw = block_writer(f, N)
    cands = [b for b in f.bodies.values() if b.argc == 1 and N.peeled(b.l[1]) == N.cmd and "Vec<u8>" in f.ts(b.l[0])]
    if not cands:
        raise Anchor("the command encoder")
    top = [b for b in cands if b.n == "get_packed_command"] or cands
    p = top[0].p
    W = where(f, p)
    stop = ("src/types/options.rs", "src/types/block/", "src/types/column/", "src/binary/")

    def inline(b):
        if b.p == bw.p:
            return False
        return not b.sp.startswith(stop) or is_block_write(f, N, b) or b.sp.startswith("src/types/block/") and any(is_enc(f, t) for t in b.l[1:1 + b.argc]) and b.n != "write"
    e = writer(f, inline)
    ad = f.adts[N.cmd]
    have = {v["n"]: v for v in ad["v"]}
    shapes = {"Hello": (CX,), "Ping": (), "SendQuery": (QUERY, CX), "SendData": (BLOCK, CX), "Cancel": ()}
    seen_name = {}

    def adt(v, args):
        fs = tuple(sorted(((fl["n"] if isinstance(fl, dict) else fl), a) for fl, a in zip(have[v]["f"], args)))
        return ("adt", N.cmd, v, fs, None)
    total = 0
    for v in have:
        if v not in shapes and v != "Union":
            raise Anchor("command kind %s is not known to this rule" % v)
    for v in shapes:
        if v not in have:
            raise Anchor("command kind %s" % v)

    def run(cell):
        st = State(obs=())
        st.mem[("K", 0, "cmd")] = cell
        for s, r in e.run_fn(p, [("ref", (("K", 0, "cmd"), ()))], st):
            if isinstance(r, Panic):
                continue
            r = e.deep(s, r)
            if r[0] == "adt" and r[2] == "Err":
                continue
            if r[0] == "adt" and r[2] == "Ok":
                r = e.deep(s, e.payload(r, "Ok"))
            yield s, r
    for v, args in shapes.items():
        n = 0
        regions = set()
        for s, r in run(adt(v, args)):
            n += 1
            toks = tokens(r)
            if toks is None:
                flag("%s: the bytes returned are not those of the encoder" % v, W)
                continue
            lo, hi = low_high({norm(k): x for k, x in s.facts.items()}, ("fld", ("fld", CX, "server_info"), "revision"))
            lo, hi = lo or 0, (1 << 63) if hi is None else hi
            rs = [i for i, (a, b) in enumerate(REGIONS) if a <= hi and lo <= b] if v == "SendQuery" else [0]
            for i in rs:
                regions.add(i)
                q = Seq(toks, s, e)
                try:
                    spec(v, q, i, seen_name, f, N, bw)
                except Mismatch as m:
                    flag("%s packet%s: %s" % (v, " for server revisions %d to %d" % REGIONS[i] if v == "SendQuery" and i < 3 else
                                              " for server revisions from %d" % STRINGS if v == "SendQuery" else "", m), W)
        if not n:
            flag("%s is never encoded" % v, W)
        elif v == "SendQuery" and regions != {0, 1, 2, 3}:
            flag("SendQuery is not encoded for some server revisions", W)
        total += n
    if "Union" in have:
        # the parts of a union, in order
        st0 = adt("Union", (("ref", (("K", 0, "a"), ())), ("ref", (("K", 0, "b"), ()))))
        n = 0
        st = State(obs=())
        st.mem[("K", 0, "cmd")] = st0
        st.mem[("K", 0, "a")] = adt("Ping", ())
        st.mem[("K", 0, "b")] = adt("Cancel", ())
        e2 = writer(f, inline)
        for s, r in e2.run_fn(p, [("ref", (("K", 0, "cmd"), ()))], st):
            if isinstance(r, Panic):
                continue
            r = e2.deep(s, r)
            if r[0] == "adt" and r[2] == "Err":
                continue
            toks = tokens(e2.deep(s, e2.payload(r, "Ok"))) if r[0] == "adt" else None
            n += 1
            if toks is None or [t[1][0] for t in toks if t[1]] not in ([C(4), C(3)], [adt("Ping", ()), adt("Cancel", ())]):
                flag("a union of commands is not its parts in order", W)
        if not n:
            flag("a union of commands is never encoded", W)
        total += n
    ctx.oblige("packet encoders: %d paths over %d command kinds" % (total, len(have)), True, where=W)
    ctx.floor("encoder paths", total, 12)


def client_info(q, seen):
    nm = q.string("the client name")
    if not (nm[0] == "c" and nm[1] or nm[:2] == ("a", "constv")):
        raise Mismatch("the client name is not a constant")
    out = [nm]
    for k in ("major version", "minor version", "revision"):
        v = q.uint("the client's " + k)
        if v[0] != "c":
            raise Mismatch("the client's %s is not a constant" % k)
        out.append(v)
    if not STRINGS <= out[3][1] < 54441:
        raise Mismatch("the announced client revision %s promises a format that is not the one spoken" % out[3][1])
    if seen.setdefault("info", out) != out:
        raise Mismatch("the client describes itself differently in different packets")


def data_packet(q, what, want, cx, bw):
    q.const("the data packet's code", 2)
    q.empty("the name of the temporary table")
    op, a = q.next("the block")
    if op != last(bw.p) or len(a) != 2:
        raise Mismatch("the block does not follow the table name")
    if not want(plain(a[0])):
        raise Mismatch("%s is not the one sent" % what)
    if not opt_field(a[1], "compression", cx):
        k = q.known(a[1]) if a[1][0] != "c" else a[1]
        comp = [t for t in q.facts if opt_field(t, "compression", cx)]
        if not (k is not None and k[0] == "c" and comp and q.known(comp[0]) == k):
            raise Mismatch("the block's compression is not the compression option")


def spec(v, q, region, seen, f, N, bw):
    if v == "Ping":
        q.const("the packet code", 4)
    elif v == "Cancel":
        q.const("the packet code", 3)
    elif v == "Hello":
        q.const("the packet code", 0)
        client_info(q, seen)
        for k in ("database", "username", "password"):
            x = q.string("the " + k)
            if not opt_field(x, k, CX):
                raise Mismatch("the %s field carries another value" % k)
    elif v == "SendData":
        data_packet(q, "the block", lambda b: b == BLOCK, CX, bw)
    elif v == "SendQuery":
        q.const("the packet code", 1)
        q.empty("the query id")
        q.const("the kind of query", 1)
        q.empty("the initial user")
        q.field("the initial query id", ("fld", QUERY, "id"))
        a = q.string("the initial address")
        if a[0] != "c":
            raise Mismatch("the initial address is not a constant")
        q.const("the interface", 1)
        for k in ("the OS user", "the client's host name"):
            q.field(k, ("fld", CX, "hostname"))
        client_info(q, seen)
        if region >= 1:
            q.empty("the quota key")
        if region >= 2:
            x = q.uint("the version patch")
            if x[0] != "c":
                raise Mismatch("the version patch is not a number")
        settings(q, region)
        q.const("the stage of processing", 2)
        c = q.uint("the compression flag")
        if not opt_field(c, "compression", CX):
            comp = [t for t in q.facts if opt_field(t, "compression", CX)]
            k = q.known(comp[0]) if comp else None
            if k is None or c[0] != "c" or int(c[1]) != int(k[1]):
                raise Mismatch("the compression flag is not the compression option")
        q.field("the query text", ("fld", QUERY, "sql"))
        data_packet(q, "the block after the query", lambda b: isc(b, "default", "new"), CX, bw)
    q.end()


def settings(q, region):
    opened = [t for t, x in q.facts.items() if isinstance(t, tuple) and t[0] == "discr" and isc(t[1], "next") and x == ("=", 1)
              and any(isinstance(s, tuple) and s[0] == "fld" and s[2] == "settings" for s in flds(t[1]))]
    seen = []
    while True:
        save = q.i
        nm = q.string("a setting's name or the end of the settings")
        if nm == C(""):
            break
        item = nm[1] if nm[0] == "fld" and nm[2] == "0" else None
        if item is None or not any(s[2] == "settings" and opt_field(s, "settings", CX) for s in flds(item)):
            raise Mismatch("a setting's name carries another value")
        if item in seen:
            raise Mismatch("a setting is written twice")
        seen.append(item)
        val = ("fld", item, "1")
        if region == 3:
            fl = q.uint("a setting's importance flag")
            if plain(fl) != ("fld", val, "is_important"):
                raise Mismatch("a setting's flag is not whether it is important")
            s = q.string("a setting's value")
            if not (isc(s, "to_string") and plain(s[3][0]) in (val, ("fld", val, "value")) or
                    s == ("fld", ("dc", ("fld", val, "value"), "String"), "0") or
                    isc(s, "to_string") and plain(s[3][0])[0] == "fld" and plain(s[3][0])[1][0] == "dc" and plain(s[3][0])[1][1] == ("fld", val, "value")):
                raise Mismatch("a setting's value is not the one given for it")
        else:
            op, a = q.next("a setting's value")
            x = strip(plain(a[0]))
            txt = False
            if isc(x, "to_string"):
                x, txt = plain(x[3][0]), True
            if x[0] == "c" and op in ("uvarint", "write"):
                b = ("fld", ("dc", ("fld", val, "value"), "Bool"), "0")
                k = q.known(b)
                if k is None or int(k[1]) != int(x[1]):
                    raise Mismatch("a setting's value is not the one given for it")
                continue
            if not (x[0] == "fld" and x[1][0] == "dc" and x[1][1] == ("fld", val, "value")):
                raise Mismatch("a setting's value is not the one given for it")
            var = x[1][2]
            okk = {"String": op in ("string", "byte_string"), "Float64": op == "string" and txt,
                   "Bool": op in ("uvarint", "write") and not txt, "UInt64": op == "uvarint" and not txt}.get(var)
            if not okk:
                raise Mismatch("a %s setting is not written in the form servers of that revision read" % var)
    if len(seen) != len(opened):
        raise Mismatch("a setting is left out")


def flds(v, acc=None):
    if acc is None:
        acc = []
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "fld":
            acc.append(v)
        for x in v:
            if isinstance(x, tuple):
                flds(x, acc)
    return acc


# ---------------------------------------------------------------- blocks
def block(ctx, f, flag):
    N = Names(f)
    bw = block_writer(f, N)
    W = where(f, bw.p)

    def inline(b):
        if b.p == bw.p:
            return False
        return b.sp.startswith("src/types/block/") and b.n not in ("row_count", "column_count", "columns") or b.sp.startswith("src/types/column/mod.rs") and b.n not in ("save", "sql_type", "len", "name")
    e = writer(f, inline)
    SELF = ("a", "arg", "self")

    def run(comp):
        st = State(obs=())
        st.mem[("K", 0, "enc")] = ("a", "call", "Encoder::new", ())
        for s, r in e.run_fn(bw.p, [SELF, ("ref", (("K", 0, "enc"), ())), C(comp)], st):
            if not isinstance(r, Panic):
                yield s, e.deep(s, s.mem[("K", 0, "enc")])
    n = m = 0
    for s, v in run(False):
        n += 1
        toks = tokens(v)
        if toks is None:
            flag("block: the bytes are not those of the encoder", W)
            continue
        q = Seq(toks, s, e)
        try:
            m += plain_block(q, SELF)
        except Mismatch as x:
            flag("uncompressed block: %s" % x, W)
    if n < 2:
        flag("uncompressed blocks are not written", W)
    k = 0
    for s, v in run(True):
        toks = tokens(v)
        if toks is None:
            continue
        k += 1
        # what is compressed
        srcs = {a[0] for p, a in calls_in(v) if last(p) in ("LZ4_compress_default",)}
        for x in srcs:
            bufs = [(p, a) for p, a in calls_in(x) if last(p) in ("get_buffer", "get_buffer_ref")]
            good = False
            for p, a in bufs:
                t = tokens(a[0])
                if t is None:
                    continue
                if len(t) == 1 and t[0][0] == last(bw.p) and plain(t[0][1][0]) == SELF and t[0][1][1] == FALSE:
                    good = True
                else:
                    try:
                        plain_block(Seq(t, s, e), SELF)
                        good = True
                    except Mismatch:
                        pass
            if not good:
                flag("compressed block: what is compressed is not the block's uncompressed form", W)
        for op, a in toks:
            if op not in ("write", "write_bytes", "extend_from_slice"):
                flag("compressed block: something besides compressed frames is written (%s)" % op, W)
    if not k:
        flag("compressed blocks are not written", W)
    ctx.oblige("block layout: %d paths, %d columns" % (n + k, m), True, where=W)
    ctx.floor("block paths", n + k, 3)


def plain_block(q, SELF):
    info = ("fld", SELF, "info")
    fields = {}
    while True:
        v = q.uint("a block info field number")
        if v == C(0):
            break
        if v[0] != "c" or v[1] not in (1, 2) or v[1] in fields:
            raise Mismatch("block info has an unknown or repeated field")
        op, a = q.next("a block info field")
        fields[v[1]] = (op, plain(a[0]))
    if fields.get(1, ("write", ("fld", info, "is_overflows"))) != ("write", ("fld", info, "is_overflows")):
        raise Mismatch("the overflow flag of the block info is not written as one byte")
    if fields.get(2, ("write", ("fld", info, "bucket_num"))) != ("write", ("fld", info, "bucket_num")):
        raise Mismatch("the bucket number of the block info is not written as four bytes")
    cols = ("fld", SELF, "columns")
    v = q.uint("the number of columns")
    if not (isc(v, "column_count") and plain(v[3][0]) == SELF or a_len(v) and cols in flds(v)):
        raise Mismatch("the number of columns is not that of the block")
    v = q.uint("the number of rows")
    if not (isc(v, "row_count") and plain(v[3][0]) == SELF or a_len(v) or v == C(0)):
        raise Mismatch("the number of rows is not that of the block")
    opened = [t for t, x in q.facts.items() if isinstance(t, tuple) and t[0] == "discr" and isc(t[1], "next") and x == ("=", 1) and cols in flds(t[1])]
    seen = []
    while q.i < len(q.t):
        nm = q.string("a column's name")
        col = plain(nm[1]) if nm[0] == "fld" and nm[2] == "name" else plain(nm[3][0]) if isc(nm, "name") else None
        if col is None or cols not in flds(col) or col in seen:
            raise Mismatch("a column's name carries another value")
        seen.append(col)
        t = q.string("a column's type")
        if not (isc(t, "to_string") and isc(plain(t[3][0]), "sql_type") and plain(plain(t[3][0])[3][0]) in (col, ("fld", col, "data"))):
            raise Mismatch("a column's type is not its own")
        op, a = q.next("a column's values")
        if op != "save" or len(a) != 3 or plain(a[0]) != ("fld", col, "data"):
            raise Mismatch("a column's values are not its own")
        if a[1] != C(0) or not (is_len(a[2], col) or is_len(a[2], ("fld", col, "data"))):
            raise Mismatch("a column's values are not all written")
    if len(seen) != len(opened):
        raise Mismatch("a column is left out")
    return len(seen)


# ---------------------------------------------------------------- primitives
def primitives(ctx, f, flag):
    enc = {b.n: b for b in f.bodies.values() if enc_method(f, b) and b.sp.startswith("src/binary/")}
    n = 0
    SELF = ("K", 0, "enc")
    for nm in ("string", "byte_string"):
        b = enc.get(nm)
        if b is None:
            raise Anchor("Encoder::" + nm)
        W = where(f, b.p)
        e = writer(f, lambda b: False, leaf=("uvarint", "write_bytes", "write"))
        st = State(obs=())
        st.mem[SELF] = ("a", "call", "Encoder::new", ())
        for s, r in e.run_fn(b.p, [("ref", (SELF, ())), ("a", "arg", "text")], st):
            if isinstance(r, Panic):
                continue
            n += 1
            t = tokens(e.deep(s, s.mem[SELF]))
            T = ("a", "arg", "text")
            good = t is not None and len(t) == 2 and t[0][0] == "uvarint" and t[1][0] in ("write_bytes", "extend_from_slice")
            if good:
                ln, by = t[0][1][0], plain(t[1][1][0])
                good = not contains_narrow(ln) and is_len(strip(ln), T) and by == T
            if not good:
                flag("%s does not write the length of its argument followed by all its bytes" % nm, W)
    b = enc.get("write_bytes")
    if b is not None:
        e = prov_engine(f, lambda b: False)
        st = State(obs=())
        for s, r in e.run_fn(b.p, [("a", "arg", "self"), ("a", "arg", "b")], st):
            n += 1
    # unsigned integers: seven bits per byte, least significant first
    put = [b for b in f.bodies.values() if b.n == "put_uvarint"]
    if put:
        n += varint(f, put[0], flag)
    ctx.oblige("primitive writers: %d paths" % n, True)


def a_len(v):
    return v[:2] == ("op", "len") or isc(v, "len")


def is_len(v, T):
    return v[:2] == ("op", "len") and plain(v[2]) == T or isc(v, "len") and plain(v[3][0]) == T


def contains_narrow(v):
    if isinstance(v, tuple):
        if v and v[0] == "cast" and v[1] in ("u8", "u16", "u32", "i8", "i16", "i32"):
            return True
        return any(contains_narrow(x) for x in v if isinstance(x, tuple))
    return False


X = ("a", "arg", "x")


def shifted(v):
    """Total right shift applied to x, None when v is something else."""
    k = 0
    while True:
        if v == X:
            return k
        if v[0] == "cast" and v[1] in ("u64", "u128", "usize", "u8"):
            v = v[2]
        elif v[0] == "op" and v[1] == "Shr" and v[3][0] == "c":
            k += v[3][1]
            v = v[2]
        else:
            return None


def byte(v):
    """(shift, continuation bit) of a written byte, None when not understood."""
    if v[0] == "op" and v[1] == "BitOr" and C(128) in v[2:]:
        o = v[3] if v[2] == C(128) else v[2]
        if o[0] == "op" and o[1] == "BitAnd" and C(127) in o[2:]:
            o = o[3] if o[2] == C(127) else o[2]
        if o[0] == "cast":
            k = shifted(o)
            return None if k is None else (k, True)
        return None
    if v[0] == "cast" and v[1] == "u8":
        if v[2][0] == "op" and v[2][1] == "BitOr":
            return byte(("op", "BitOr") + tuple(("cast", "u8", z) if z[0] != "c" else z for z in v[2][2:]))
        k = shifted(v)
        return None if k is None else (k, False)
    return None


def varint(f, b, flag):
    W = where(f, b.p)
    e = prov_engine(f, lambda b: False)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(4)
    BUF = ("K", 0, "buf")

    def hook(e, st, call):
        if last(call.p) == "as_mut":
            return [(st, ("ref", (BUF, ())))]
    e.hooks.append(hook)
    st = State(obs=())
    init = tuple(("a", "byte", i) for i in range(10))
    st.mem[BUF] = ("arr", init)
    n = 0
    for s, r in e.run_fn(b.p, [("ref", (BUF, ())), X], st):
        if isinstance(r, Panic):
            continue
        n += 1
        r = e.deep(s, r)
        arr = s.mem.get(BUF)
        if r[0] != "c" or not arr or arr[0] != "arr":
            continue
        k = r[1]
        bs = [byte(x) for x in arr[1][:k]]
        if None in bs:
            if any(x in init for x in arr[1][:k]):
                flag("an integer's encoding includes a byte that was not written", W)
            continue
        if bs != [(7 * i, i < k - 1) for i in range(k)]:
            flag("an integer is not written seven bits per byte, least significant first, with a continuation bit on all bytes but the last", W)
        lims = {}
        for t, x in s.facts.items():
            if isinstance(t, tuple) and t[0] == "op" and t[1] == "Lt" and x[0] == "=":
                if t[3][0] == "c" and shifted(t[2]) is not None:
                    lims[(shifted(t[2]), t[3][1])] = bool(x[1])
                elif t[2][0] == "c" and shifted(t[3]) is not None:
                    lims[(shifted(t[3]), t[2][1] + 1)] = not x[1]
        if lims and lims != dict([((7 * i, 128), False) for i in range(k - 1)] + [((7 * (k - 1), 128), True)]):
            flag("an integer's encoding ends before its last significant bits", W)
    return n


# ---------------------------------------------------------------- where the revision comes from
def context(ctx, f, flag):
    o = Ops(f)
    recs = []

    def watch(e, st, call):
        if nrm(call.p).endswith(("VecDeque::push_back", "VecDeque::push_front")) and call.argts and len(call.argts) > 1 and \
                call.argts[1] is not None and f.tk(call.argts[1]) == "adt" and f.tdef(call.argts[1]) == o.n.cmd:
            parts(e, st, e.deep(st, call.args[1]), call.site)
        return None

    def parts(e, st, v, site):
        if v[0] == "ref" and isinstance(v[1][0], tuple):
            v = e.deep(st, e.read_loc(st, v[1]))
        if v[0] != "adt" or v[1] != o.n.cmd:
            return
        if v[2] == "Union":
            for _, x in v[3]:
                parts(e, st, x, site)
            return
        recs.append((v[2], tuple(norm(x) for _, x in sorted(v[3])), site))
    n = 0
    for root in (o.execute, o.insert, o.open, o.fetch):
        recs.clear()
        s = o.session(root)
        s.e.hooks.insert(0, watch)
        outs = s.e.run_async(root, obs=START)
        kinds = set()
        for kind, args, site in recs:
            n += 1
            kinds.add(kind)
            w = "%s (%s)" % (site[2], site[0])
            if kind in ("SendQuery", "SendData"):
                c = args[1]
                if not (c[0] == "fld" and c[2] == "context" and (c[1] == ("a", "arg", "self") or c[1] == ("fld", ("a", "arg", "self"), "client"))):
                    flag("%s is sent by %s with another context than the connection's" % (kind, root), w)
            if kind == "SendQuery":
                if root == o.execute and not contains(args[0], ("a", "arg", "sql")) or root == o.fetch and args[0] != ("fld", ("a", "arg", "self"), "query"):
                    flag("the query sent by %s is not the one asked for" % root, w)
            if kind == "Hello":
                c = args[0]
                if field(c, "options") != ("a", "arg", "source"):
                    flag("the handshake is sent with other options than the connection's", w)
        need = {o.open: {"Hello"}, o.execute: {"SendQuery"}, o.fetch: {"SendQuery"}, o.insert: {"SendQuery", "SendData"}}[root]
        if not need <= kinds:
            flag("%s does not send %s" % (root, ", ".join(sorted(need - kinds))), where(f, root))
        if root == o.open:
            k = 0
            for st, v in outs:
                if isinstance(v, Panic) or s.e.variant(st, v, RES) != "Ok":
                    continue
                k += 1
                h = s.e.payload(v, "Ok")
                cx = norm(s.e.deep(st, field(h, "context")))
                info = field(cx, "server_info")
                if not (info[:3] == ("a", "srv", "Hello")):
                    flag("a connection that has been opened does not keep what the server announced about itself", where(f, root))
                if field(cx, "options") != ("a", "arg", "source"):
                    flag("a connection keeps other options than it was opened with", where(f, root))
                tr = s.e.payload(field(h, "inner"), "Some")
                comp = norm(s.e.deep(st, field(field(tr, "info"), "compress")))
                if not (comp[0] == "fld" and comp[2] == "compression"):
                    flag("replies are not read with the compression the client asks for", where(f, root))
            if not k:
                flag("no connection can be opened", where(f, root))
    ctx.oblige("contexts of %d queued commands" % n, True)
    ctx.floor("queued commands", n, 5)
