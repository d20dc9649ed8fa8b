"""C13 Replies decode the same however the network splits them."""
from engine import State, Panic, C, TRUE, FALSE, POLL, RES, PENDING, some, ok, err, ready, contains, Limit
from models import nrm
from prov import prov_engine, calls_in
from lin import lin, add, strip, expand as fact_list
from transport import Names, adt_path
from rules.util import where, calls
from rules.c12 import base, blen, lens, isc, last, unref

TECHNIQUE = "path-sensitive analysis of the receive path over MIR, with a would-block propagation rule over every decoding function"
RULE = ("The transport's poll_next is analysed with every outcome of a socket read and of a parse: it may report the end of the stream, or wait, only "
        "if the last parse came after the last read and found the packet incomplete; it may wait only when the socket registered the wake-up; "
        "an incomplete packet leaves the buffer as it was and a decoded one removes exactly the bytes the parser's cursor passed. The socket reader "
        "keeps every byte it was given. In every function on the decoding path a failed read ends the function with that very error, so an "
        "incomplete packet is always recognised as such; the byte reader reports success only once its buffer is full; "
        "no decoding function calls a read that may be short.")
ASSUMPTIONS = ["io::Cursor's position advances by exactly the bytes read from it."]

WB, OTHER = ("a", "err", "would-block"), ("a", "err", "other")


def ioerr(f, x):
    return ("adt", [d for d in f.adts if d == "errors::Error" or d.endswith("errors::Error")][0], "Io", (("0", x),), None)


def check(ctx):
    f = ctx.facts("default")
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    poll(ctx, f, flag)
    fill(ctx, f, flag)
    R = decoders(f)
    propagate(ctx, f, R, flag)
    read_bytes(ctx, f, flag)
    conversions(ctx, f, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


# ---------------------------------------------------------------- poll_next
def poll(ctx, f, flag):
    N = Names(f)
    p = N.transport_poll()
    W = where(f, p)
    src = f.bodies[p].sp.split(":")[0]
    esrc = [b.sp.split(":")[0] for b in f.bodies.values() if b.n == "is_would_block"]
    e = prov_engine(f, lambda b: b.sp.split(":")[0] == src or "project" in b.p or b.sp.split(":")[0] in esrc)
    e.gc_returns = False
    reader = is_filler(f)
    pk = N.packet

    def hook(e, st, call):
        b = f.bodies.get(call.path)
        if b is not None and reader(b):
            buf = e.deep(st, call.args[2])
            k = sum(1 for o in st.obs if o[0] == "read")
            outs = []
            for kind, v in (("eof", ready(ok(C(0)))), ("data", ready(ok(("a", "n", k)))), ("err", ready(err(("a", "ioerr", k)))), ("pending", PENDING)):
                if kind == "data" and k >= 2:
                    continue
                s = st.copy()
                s.obs = s.obs + (("read", kind),)
                if kind == "data":
                    e.assume_ne(s, ("a", "n", k), [0])
                r = call.args[2]
                if r[0] == "ref":
                    e.write_loc(s, r[1], ("a", "buf", k + 1))
                outs.append((s, v))
            return outs
        if b is not None and pk in f.ts(b.l[0]) and "Result" in f.ts(b.l[0]) and b.argc >= 1 and "Parser" in f.ts(b.l[1]):
            k = sum(1 for o in st.obs if o[0] == "parse")
            pos = None
            par = e.deep(st, call.args[0])
            outs = []
            for kind, v in (("packet", ok(("a", "packet", k))), ("incomplete", err(ioerr(f, WB))), ("bad", err(ioerr(f, OTHER)))):
                s = st.copy()
                s.obs = s.obs + (("parse", kind, k),)
                outs.append((s, v))
            return outs
        if last(call.p) == "kind" and call.args:
            v = unref(e.deep(st, call.args[0]))
            if v in (WB, OTHER):
                return [(st, ("adt", "std::io::ErrorKind", "WouldBlock" if v == WB else "Other", (), None))]
        if b is not None and "Parser" in f.ts(b.l[0]) and b.n == "new":
            v = call.args[0]
            st.obs = st.obs + (("src", e.deep(st, v), deref_inner(e, st, v)),)
        if last(call.p) == "copy" and "ptr" in call.p:
            st.obs = st.obs + (("copy",) + tuple(e.deep(st, a) for a in call.args),)
        return None
    e.hooks.append(hook)
    SELF = ("a", "arg", "self")
    rd0 = None
    n = 0
    kinds = {"end": 0, "wait": 0, "packet": 0, "error": 0}
    tr = f.adts[N.transport]
    for st, v in e.run_fn(p, [SELF, ("a", "arg", "cx")], State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        v = e.deep(st, v)
        seq = [o for o in st.obs if o[0] in ("read", "parse")]
        parses = [o for o in seq if o[0] == "parse"]
        reads = [o for o in seq if o[0] == "read"]
        lastp = seq.index(parses[-1]) if parses else -1
        after = [o for o in seq[lastp + 1:] if o[0] == "read"]
        rds = bufs(e, st, f, N)
        fresh = parses and not [o for o in after if o[1] == "data"]
        if v[0] == "adt" and v[2] == "Pending":
            kinds["wait"] += 1
            if not fresh or parses[-1][1] != "incomplete":
                flag("the transport waits for bytes although what it has received was not tried", W)
            if not reads or reads[-1][1] != "pending":
                flag("the transport waits although the socket was not asked to wake it", W)
        else:
            x = e.deep(st, e.payload(v, "Ready")) if v[0] == "adt" else v
            if x[0] == "adt" and x[2] == "None":
                kinds["end"] += 1
                if not fresh or parses[-1][1] != "incomplete":
                    flag("the end of the stream is reported although bytes received before it were not tried", W)
            elif x[0] == "adt" and x[2] == "Some":
                y = e.deep(st, e.payload(x, "Some"))
                if y[0] == "adt" and y[2] == "Ok":
                    kinds["packet"] += 1
                    if not parses or parses[-1][1] != "packet" or e.deep(st, e.payload(y, "Ok")) != ("a", "packet", parses[-1][2]):
                        flag("the packet delivered is not the one that was decoded last", W)
                elif y[0] == "adt" and y[2] == "Err":
                    kinds["error"] += 1
                    bad_parse = parses and parses[-1][1] == "bad" or reads and reads[-1][1] == "err"
                    if not bad_parse:
                        flag("an error is reported although neither reading nor decoding failed", W)
        if [o for o in parses if o[1] == "packet"] and not (v[0] == "adt" and v[2] == "Ready"):
            flag("a decoded packet is not delivered", W)
        # what happened to the buffer
        src_ev = [o for o in st.obs if o[0] == "src"]
        if not src_ev:
            continue
        start = src_ev[-1][2]
        final = rds
        if start is None or final is None:
            flag("the decoder does not start at the beginning of the receive buffer", W)
            continue
        if parses and parses[-1][1] == "incomplete":
            if final != start and not after:
                flag("an incomplete packet changes the receive buffer", W)
        elif parses and parses[-1][1] == "packet":
            if not consumed(e, st, start, final):
                flag("a decoded packet does not remove exactly its own bytes from the receive buffer", W)
    ctx.count("paths", n)
    ctx.count("functions", len(e.called))
    for k, x in kinds.items():
        ctx.floor("outcomes: " + k, x, 1)
    ctx.oblige("%d paths of the transport's receive step" % n, True)


def deref_inner(e, st, v):
    """The buffer value a Cursor (or slice) handed to the parser starts at, None if not at its beginning."""
    v = e.deep(st, v)
    if isinstance(v, tuple) and v[0] == "adt" and v[1].endswith("Cursor"):
        d = dict(v[3])
        if d.get("pos") != C(0):
            return None
        v = e.deep(st, d["inner"])
    b, off = base(v)
    return None if off else b


def bufs(e, st, f, N):
    """The receive buffer: the Vec<u8> field of the transport."""
    for v in f.adts[N.transport]["v"]:
        for fl in v["f"]:
            if f.ts(fl["t"]) == "std::vec::Vec<u8>":
                return e.deep(st, e.read_loc(st, (("H", ("a", "arg", "self")), ((".", fl["n"]),))))
    return None


def is_pos(t, start):
    """Is the linear form the position the parser's cursor ended at?"""
    if len(t) == 1 and list(t.values()) == [1]:
        a = list(t)[0]
        if a is not None and a[0] == "fld" and a[2] == "pos" and any("Parser" in c for c, _ in calls_in(a)):
            return True
    d = add({("op", "len", start): 1}, t, -1)
    if len(d) == 1 and list(d.values()) == [1]:
        a = list(d)[0]
        return a is not None and a[0] == "op" and a[1] == "len" and any("Parser" in c for c, _ in calls_in(a))
    return False


def consumed(e, st, start, final):
    def top(v):
        while isc(v, "as_mut_ptr", "as_mut_slice", "deref_mut", "as_ptr") and v[2].startswith("mut:"):
            v = v[3][0]
        return v
    L0 = {("op", "len", start): 1}
    v = top(final)
    if isc(v, "set_len", "truncate") and v[2].startswith("mut:"):
        L = lin(v[3][1], lens)
        pos = add(L0, L, -1)
        inner = top(v[3][0])
        if not is_pos(pos, start):
            return False
        if isc(inner, "copy_within") and inner[2].startswith("mut:"):
            r = inner[3][1]
            return top(inner[3][0]) == start and isinstance(r, tuple) and r[0] == "adt" and "start" in dict(r[3]) and lin(dict(r[3])["start"], lens) == pos \
                and strip(inner[3][2]) == C(0)
        if inner != start:
            return False
        cps = [o for o in st.obs if o[0] == "copy"]
        if not cps:
            return False
        _, s, d, n = cps[-1]
        sb, so = base(s)
        db, do = base(d)
        return sb == start and db == start and so == pos and not do and lin(n, lens) == L
    if isc(v, "drain", "split_off") and v[2].startswith("mut:") and top(v[3][0]) == start and last(v[2]) == "drain":
        r = v[3][1]
        return isinstance(r, tuple) and r[0] == "adt" and set(dict(r[3])) == {"end"} and is_pos(lin(dict(r[3])["end"], lens), start) or \
            isinstance(r, tuple) and r[0] == "adt" and dict(r[3]).get("start") == C(0) and is_pos(lin(dict(r[3])["end"], lens), start)
    if isc(v, "split_off") and not v[2].startswith("mut:"):
        return top(v[3][0]) == start and is_pos(lin(v[3][1], lens), start)
    if isc(v, "to_vec", "to_owned", "into", "from"):
        b, off = base(v[3][0])
        return b == start and is_pos(off, start)
    return False


# ---------------------------------------------------------------- socket reader
def is_filler(f):
    st = adt_path(f, "stream::Stream")

    def t(b):
        return b.argc == 3 and st in f.ts(b.l[1]) and "Context" in f.ts(b.l[2]) and "Vec<u8>" in f.ts(b.l[3]) and "Poll<" in f.ts(b.l[0])
    return t


def fill(ctx, f, flag, extra=None):
    t = is_filler(f)
    fs = [p for p, b in f.bodies.items() if t(b)]
    ctx.floor("socket readers", len(fs), 1)
    n = 0
    for p in fs:
        W = where(f, p)
        src = f.bodies[p].sp.split(":")[0]
        e = prov_engine(f, lambda b: b.sp.split(":")[0] == src)
        e.gc_returns = False
        e.no_widen = True
        e.glue = {f.tdef(t) for tr, lst in f.timpls.items() if tr.endswith("Drop") for t, items, im in lst if f.tk(t) == "adt"}
        BUF = ("a", "arg", "buf")

        def hook(e, st, call, W=W):
            if last(call.p) == "poll_read":
                b, off = base(e.deep(st, call.args[-1]))
                k = sum(1 for o in st.obs if o[0] == "n")
                want = {("op", "len", BUF): 1}
                for o in st.obs:
                    if o[0] == "n":
                        want = add(want, {o[1]: 1})
                if root(b) != BUF or off != want:
                    flag("the socket reader does not append right after the bytes it already has", W)
                outs = []
                for kind, v in (("eof", ready(ok(C(0)))), ("data", ready(ok(("a", "n", k)))), ("err", ready(err(("a", "ioerr", k)))), ("pending", PENDING)):
                    if kind == "data" and k >= 2:
                        continue
                    s = st.copy()
                    if kind == "data":
                        e.assume_ne(s, ("a", "n", k), [0])
                    s.obs = s.obs + ((("n", ("a", "n", k)),) if kind == "data" else (("last", kind),))
                    outs.append((s, v))
                return outs
            return None
        e.hooks.append(hook)
        if extra is not None:
            e.hooks.insert(0, extra)
        for st, v in e.run_fn(p, [("a", "arg", "rd"), ("a", "arg", "cx"), BUF], State(obs=())):
            if isinstance(v, Panic):
                continue
            n += 1
            want = {("op", "len", BUF): 1}
            tot = {}
            for o in st.obs:
                if o[0] == "n":
                    want = add(want, {o[1]: 1})
                    tot = add(tot, {o[1]: 1})
            fin = e.deep(st, e.read_loc(st, (("H", BUF), ())))
            L = flen(fin)
            if L != want:
                flag("the socket reader loses or invents received bytes", W)
            v = e.deep(st, v)
            kind = [o[1] for o in st.obs if o[0] == "last"]
            if v[0] == "adt" and v[2] == "Ready":
                x = e.deep(st, e.payload(v, "Ready"))
                if x[0] == "adt" and x[2] == "Ok":
                    if (not kind or kind[-1] != "eof") and not tot:
                        flag("the socket reader reports the end although the socket did not", W)
                    if lin(e.deep(st, e.payload(x, "Ok")), flens) != tot:
                        flag("the socket reader miscounts the bytes it read", W)
                elif x[0] == "adt" and x[2] == "Err" and (not kind or kind[-1] != "err"):
                    flag("the socket reader reports an error the socket did not", W)
            elif v[0] == "adt" and v[2] == "Pending" and (not kind or kind[-1] != "pending"):
                flag("the socket reader waits although the socket was not asked to wake it", W)
        ctx.count("functions", len(e.called))
    ctx.count("paths", n)
    ctx.floor("socket reader outcomes", n, 4)


def root(v):
    while True:
        v = base(v)[0]
        if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call") and v[2].startswith("mut:"):
            v = v[3][0]
        else:
            return v


def flen(v):
    v = base(v)[0]
    if isc(v, "set_len", "resize", "truncate") and v[2].startswith("mut:"):
        return lin(v[3][1], flens)
    if isc(v, "reserve", "index_mut") and v[2].startswith("mut:"):
        return flen(v[3][0])
    if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call") and v[2].startswith("mut:"):
        return flen(v[3][0])
    return {("op", "len", v): 1}


def flens(v):
    if v[0] == "op" and v[1] == "len" and len(v) == 3:
        r = flen(v[2])
        return r if r != {v: 1} else None
    return None


# ---------------------------------------------------------------- would-block propagation
def is_read(info):
    p = info["p"]
    return "ReadEx::" in p or p.endswith("io::Read::read") or p.endswith("Read::read_exact") or "ReadBytesExt" in p


def decoders(f):
    R = set()
    cs = {p: calls(f, b) for p, b in f.bodies.items()}
    for p in f.bodies:
        if any(is_read(i) for _, i, _, _ in cs[p]):
            R.add(p)
    ch = True
    while ch:
        ch = False
        for p, b in f.bodies.items():
            if p in R or not f.ts(b.l[0]).startswith("std::result::Result"):
                continue
            if any(i.get("r") in R or i["p"] in R for _, i, _, _ in cs[p]):
                R.add(p)
                ch = True
    return {p for p in R if f.ts(f.bodies[p].l[0]).startswith("std::result::Result")}


def propagate(ctx, f, R, flag):
    paths = sites = 0
    for p in sorted(R):
        b = f.bodies[p]
        W = where(f, p)
        if "read_bytes" in p and "ReadEx" in p:
            continue            # analysed on its own
        e = prov_engine(f, lambda b2: "{closure" in b2.p and b2.p.startswith(p) or b2.n in ("from", "into") and "errors" in b2.sp)
        e.gc_returns = False
        seen = {}

        def hook(e, st, call):
            if call.path in R and "{closure" not in call.path or is_read({"p": call.p}):
                seen[call.site] = call
                st.obs = tuple(o for o in st.obs if o != call.site) + (call.site,)
                if last(call.p) == "read" and "io::Read" in call.p and not (b.trait and b.trait.endswith("io::Read")):
                    flag("%s uses a read that may return fewer bytes than asked for" % p, "%s %s" % (p, call.site[2]))
            return None
        e.hooks.append(hook)

        def head(e, st, body, fid, bi, n):
            done = settle(st)
            st.obs = tuple(o for o in st.obs if seen[o].path not in done and seen[o].p not in done)
            return "cut" if n > 4 else None
        e.head_hook = head
        try:
            outs = e.run_fn(p, None, State(obs=()))
        except Limit as x:
            flag("%s could not be analysed (%s)" % (p, x), W)
            continue
        for st, v in outs:
            if isinstance(v, Panic):
                continue
            paths += 1
            v = e.deep(st, v)
            settled = settle(st)
            for c, _ in calls_in(v):
                settled.add(c)
            for site in st.obs:
                if seen[site].path not in settled and seen[site].p not in settled:
                    flag("%s ignores the outcome of a read" % p, "%s %s" % (p, site[2]))
            for t, x in st.facts.items():
                if not (isinstance(t, tuple) and t[0] == "discr" and x == ("=", 1)):
                    continue
                c = t[1]
                if not (isinstance(c, tuple) and len(c) == 4 and c[:2] == ("a", "call") and (c[2] in R or is_read({"p": c[2]}))):
                    continue
                if not (v[0] == "adt" and v[2] == "Err" and contains(v, ("fld", ("dc", c, "Err"), "0")) and clean(v)):
                    flag("%s does not pass a failed read on as it is" % p, W)
        sites += len(seen)
    ctx.count("decoding functions", len(R))
    ctx.count("paths", paths)
    ctx.floor("decoding functions analysed", len(R), 25)
    ctx.floor("read sites", sites, 40)
    ctx.oblige("%d read sites in %d functions: a failed read is passed on" % (sites, len(R)), True)


def settle(st):
    """Calls whose outcome the path has looked at."""
    r = set()
    for t, x in st.facts.items():
        if isinstance(t, tuple) and t[0] == "discr" and x[0] == "=" and isinstance(t[1], tuple) and len(t[1]) == 4 and t[1][:2] == ("a", "call"):
            r.add(t[1][2])
    return r


def clean(v):
    """The error value is the read's own error, converted at most by From."""
    x = v
    while isinstance(x, tuple):
        if x[0] == "adt" and x[3]:
            if len(x[3]) != 1:
                return False
            x = x[3][0][1]
        elif x[0] == "fld" and x[1][0] == "dc":
            return True
        elif len(x) == 4 and x[:2] == ("a", "call") and last(x[2]) in ("from", "into"):
            x = x[3][0]
        elif x[0] == "conv":
            x = x[2]
        elif x[0] == "ref":
            x = x[1]
        else:
            return False
    return False


# ---------------------------------------------------------------- the byte reader
def read_bytes(ctx, f, flag):
    fs = [p for p, b in f.bodies.items() if b.n == "read_bytes" and b.trait and b.trait.endswith("ReadEx")]
    ctx.floor("byte readers", len(fs), 1)
    n = 0
    for p in fs:
        W = where(f, p)
        e = prov_engine(f, lambda b: b.sp.split(":")[0] == f.bodies[p].sp.split(":")[0] or b.n in ("from", "into") and "errors" in b.sp)
        e.gc_returns = False
        e.no_widen = True
        RV = ("a", "arg", "rv")

        def hook(e, st, call):
            if last(call.p) in ("read", "read_exact") and call.path not in f.bodies:
                b, off = base(e.deep(st, call.args[-1]))
                k = sum(1 for o in st.obs if o[0] == "n")
                if last(call.p) == "read_exact":
                    outs = []
                    for kind, v in (("all", ok(("c", ()))), ("err", err(("a", "ioerr", k)))):
                        s = st.copy()
                        s.obs = s.obs + (("exact" if kind == "all" else "err", b == RV and not off),)
                        outs.append((s, v))
                    return outs
                want = {}
                for o in st.obs:
                    if o[0] == "n":
                        want = add(want, {o[1]: 1})
                if root(b) != RV or off != want:
                    flag("the byte reader does not continue right after the bytes it already read", W)
                outs = []
                for kind, v in (("eof", ok(C(0))), ("data", ok(("a", "n", k))), ("err", err(("a", "ioerr", k)))):
                    if kind == "data" and k >= 2:
                        continue
                    s = st.copy()
                    if kind == "data":
                        e.assume_ne(s, ("a", "n", k), [0])
                    s.obs = s.obs + ((("n", ("a", "n", k)),) if kind == "data" else ((kind,),))
                    outs.append((s, v))
                return outs
            if last(call.p) == "new" and "io::Error" in call.p.replace("<impl std::io::Error>", "io::Error"):
                k = e.deep(st, call.args[0])
                return [(st, ("a", "err", k[2] if k[0] == "adt" else "?"))]
            return None
        e.hooks.append(hook)
        for st, v in e.run_fn(p, [("a", "arg", "self"), RV], State(obs=())):
            if isinstance(v, Panic):
                continue
            n += 1
            v = e.deep(st, v)
            tot = {}
            for o in st.obs:
                if o[0] == "n":
                    tot = add(tot, {o[1]: 1})
            if v[0] == "adt" and v[2] == "Ok":
                if any(o == ("exact", True) for o in st.obs):
                    continue
                if st.obs and st.obs[-1][0] in ("eof", "err"):
                    flag("the byte reader succeeds although bytes are missing", W)
                elif not full(st, RV, tot):
                    flag("the byte reader succeeds without having filled its buffer", W)
            elif v[0] == "adt" and v[2] == "Err":
                if st.obs and st.obs[-1] == ("eof",) and not contains(v, ("a", "err", "WouldBlock")):
                    flag("running out of bytes is not reported as would-block", W)
        ctx.count("functions", len(e.called))
    ctx.floor("byte reader outcomes", n, 3)


def full(st, RV, tot):
    """Do the path facts say that `tot` bytes are at least the length of the buffer?"""
    L = {("op", "len", RV): 1}
    need = add(L, tot, -1)                     # need <= 0
    for t, x in fact_list(st.facts):
        if not (isinstance(t, tuple) and t[0] == "op" and x[0] == "="):
            continue
        v = x[1] in (True, 1)
        if len(t) == 4 and t[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            op, a, b = t[1], lin(t[2], flens2), lin(t[3], flens2)
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            if op in ("Eq", "Ne"):
                if v == (op == "Eq") and (add(a, b, -1) == need or add(b, a, -1) == need):
                    return True
                continue
            if not v:                          # b <(=) a is known the other way round
                a, b = b, a
                op = {"Lt": "Le", "Le": "Lt"}[op]
            # known: a <= b  (or a < b)
            if add(a, b, -1) == need:
                return True
        if t[1] == "is_empty" and v:
            return True
    for t, x in st.facts.items():
        if isc(t, "is_empty") and x == ("=", True):
            if blen(t[3][0]) == need:
                return True
    return False


def flens2(v):
    return lens(v)


# ---------------------------------------------------------------- error conversions
def conversions(ctx, f, flag):
    E = [d for d in f.adts if d.endswith("errors::Error")][0]
    n = 0
    for p, b in f.bodies.items():
        if b.n != "from" or not b.trait or not b.trait.endswith("From") or b.argc != 1:
            continue
        if f.ts(b.l[1]) == E and f.ts(b.l[0]) == "std::io::Error":
            n += 1
            e = prov_engine(f, lambda b2: False)
            for st, v in e.run_fn(p, [("adt", E, "Io", (("0", WB),), None)], State(obs=())):
                ctx.oblige("converting an incomplete-packet error to io::Error keeps it", e.deep(st, v) == WB,
                           key="the conversion to io::Error loses the would-block error", where=where(f, p))
        if f.ts(b.l[1]) == "std::io::Error" and f.ts(b.l[0]) == E:
            n += 1
            e = prov_engine(f, lambda b2: False)
            for st, v in e.run_fn(p, [WB], State(obs=())):
                ctx.oblige("converting an io::Error keeps it", e.deep(st, v) == ("adt", E, "Io", (("0", WB),), None),
                           key="the conversion from io::Error loses the would-block error", where=where(f, p))
    ctx.floor("error conversions", n, 2)
