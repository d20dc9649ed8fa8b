"""C14 Commands are written completely and in order."""
from engine import State, Panic, C, TRUE, FALSE, PENDING, NONE, some, ok, err, ready, contains, field
from prov import prov_engine, calls_in
from lin import lin, add, strip, expand as fact_list
from transport import Names
from rules.util import where, calls
from rules.c12 import base, blen, lens, isc, last, unref

TECHNIQUE = "path-sensitive analysis of the send loop over MIR against a ghost cursor"
RULE = ("The function that flushes queued commands is followed iteration by iteration with every outcome of a socket write, of the queue and of packing a "
        "command: each write must be offered exactly the not yet written rest of the current command, the next command may be taken only when the "
        "current one is known to be written completely, success may be reported only when the queue was found empty, waiting only when the socket asked for it, "
        "and an error must be passed on. Queued commands are taken from the end opposite to the one they are added at; the "
        "reply is polled only after the flush succeeded; a union packs its first part before its second.")
ASSUMPTIONS = ["poll_write returns at most the number of bytes it was offered."]
LIMIT = 2


def check(ctx):
    f = ctx.facts("default")
    N = Names(f)
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)
    sends = [p for p, b in f.bodies.items() if N.is_send(b)]
    ctx.floor("flush functions", len(sends), 1)
    ends = set()
    for p in sends:
        flush(ctx, f, N, p, flag, ends)
    order(ctx, f, N, flag, ends)
    stream(ctx, f, N, flag)
    union(ctx, f, N, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def written(st, buf, off):
    """Do the path facts say that `off` bytes are all of the buffer?"""
    need = add(blen(buf), off, -1)
    if need == {}:
        return True
    for t, x in fact_list(st.facts):
        if not (isinstance(t, tuple) and x[0] == "="):
            continue
        v = x[1] in (True, 1)
        if t[0] == "op" and len(t) == 4 and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            op, a, b = t[1], lin(t[2], lens), lin(t[3], lens)
            d = add(a, b, -1)
            if op in ("Eq", "Ne"):
                if v == (op == "Eq") and (d == need or add({}, d, -1) == need):
                    return True
                continue
            if op in ("Gt", "Ge"):
                op, d = {"Gt": "Lt", "Ge": "Le"}[op], add({}, d, -1)
            if not v:
                op, d = {"Lt": "Le", "Le": "Lt"}[op], add({}, d, -1)
            # d < 0 or d <= 0
            if d == need and op == "Le":
                return True
            if op == "Lt" and d == add(need, {None: -1}):
                return True
        if isc(t, "is_empty") and v and blen(t[3][0]) == need:
            return True
        # the linear form itself is known to be zero
        if x[1] == 0 and not isinstance(x[1], bool) and lin(t, lens) == need:
            return True
    return False


def flush(ctx, f, N, p, flag, ends):
    W = where(f, p)
    src = f.bodies[p].sp.split(":")[0]
    e = prov_engine(f, lambda b: b.sp.split(":")[0] == src)
    e.gc_returns = False
    e.no_widen = True
    SELF = ("a", "arg", "self")
    cur0 = None
    for v in f.adts[N.transport]["v"]:
        for fl in v["f"]:
            if "Cursor<" in f.ts(fl["t"]):
                w0 = ("fld", ("deref", SELF), fl["n"])
                cur0 = (("fld", w0, "inner"), {("fld", w0, "pos"): 1})
    if cur0 is None:
        flag("the write buffer of the transport is not a cursor any more: this rule cannot follow it", W)
        return

    def ghost(st):
        """(buffer, bytes of it written) of the current command."""
        buf, off = cur0
        for o in st.obs:
            if o[0] == "packed":
                buf, off = o[1], {}
            elif o[0] == "wrote":
                off = add(off, {o[1]: 1})
        return buf, off

    def hook(e, st, call):
        n = last(call.p)
        if n == "poll_write" and call.path not in f.bodies or n == "poll_write" and "Stream" in call.p and f.bodies.get(call.path) is not None and f.bodies[call.path].sp.split(":")[0] != src:
            b, off = base(e.deep(st, call.args[-1]))
            gb, go = ghost(st)
            if base(gb)[0] != b or off != go:
                flag("a write is offered something other than the unwritten rest of the current command", "%s %s" % (p, call.site[2]))
            if sum(1 for o in st.obs if o[0] == "wrote") >= LIMIT:
                return []
            k = len(st.obs)
            outs = []
            for kind, v in (("data", ready(ok(("a", "n", k)))), ("err", ready(err(("a", "ioerr", k)))), ("pending", PENDING), ("zero", ready(ok(C(0))))):
                s = st.copy()
                if kind == "data":
                    e.assume_ne(s, ("a", "n", k), [0])
                    s.obs = s.obs + (("wrote", ("a", "n", k)),)
                elif kind == "zero":
                    tail = []
                    for o in reversed(st.obs):
                        if o[0] in ("packed", "wrote"):
                            break
                        tail.append(o[0])
                    if "zero" in tail:
                        flag("a socket that accepts no bytes is written to for ever", "%s %s" % (p, call.site[2])) if not written(st, gb, go) else None
                        continue
                    s.obs = s.obs + (("zero",),)
                else:
                    s.obs = s.obs + ((kind, ("a", "ioerr", k)),)
                outs.append((s, v))
            return outs
        if n in ("pop_front", "pop_back", "pop", "remove") and call.argts and call.argts[0] is not None and N.cmd in f.ts(call.argts[0]):
            ends.add(n)
            gb, go = ghost(st)
            if not written(st, gb, go):
                flag("the next command is started before the current one is written completely", "%s %s" % (p, call.site[2]))
            k = sum(1 for o in st.obs if o[0] == "pop")
            s1, s2 = st.copy(), st.copy()
            s1.obs = s1.obs + (("empty",),)
            s2.obs = s2.obs + (("pop", k),)
            return [(s1, NONE)] + ([(s2, some(("a", "cmd", k)))] if k < LIMIT else [])
        b = f.bodies.get(call.path)
        if b is not None and b.argc == 1 and N.peeled(b.l[1]) == N.cmd and "Vec<u8>" in f.ts(b.l[0]):
            c = unref(e.deep(st, call.args[0]))
            k = sum(1 for o in st.obs if o[0] == "pop")
            if c != ("a", "cmd", k - 1):
                flag("what is packed is not the command that was taken", "%s %s" % (p, call.site[2]))
            s1, s2 = st.copy(), st.copy()
            by = ("a", "bytes", k)
            s1.obs = s1.obs + (("packed", by),)
            s2.obs = s2.obs + (("packerr", ("a", "packerr", k)),)
            return [(s1, ok(by)), (s2, err(("a", "packerr", k)))]
        return None
    e.hooks.append(hook)

    def head(e, st, body, fid, bi, n):
        return "cut" if len(st.obs) > 12 or n > 60 else None
    e.head_hook = head
    n = 0
    kinds = {"done": 0, "wait": 0, "error": 0}
    for st, v in e.run_fn(p, [SELF, ("a", "arg", "cx")], State(obs=())):
        if isinstance(v, Panic):
            continue
        n += 1
        v = e.deep(st, v)
        lasto = st.obs[-1] if st.obs else ("none",)
        if v[0] == "adt" and v[2] == "Pending":
            kinds["wait"] += 1
            if lasto[0] != "pending":
                flag("the flush waits although the socket did not ask it to", W)
            # what is left must be exactly the rest
            gb, go = ghost(st)
            for vv in f.adts[N.transport]["v"]:
                for fl in vv["f"]:
                    if "Cursor<" in f.ts(fl["t"]):
                        c = e.deep(st, e.read_loc(st, (("H", SELF), ((".", fl["n"]),))))
                        inner, pos = e.deep(st, field(c, "inner")), e.deep(st, field(c, "pos"))
                        if base(inner)[0] != base(gb)[0] or lin(pos, lens) != go:
                            flag("an interrupted write does not resume where it stopped", W)
        else:
            x = e.deep(st, e.payload(v, "Ready")) if v[0] == "adt" and v[2] == "Ready" else v
            if x[0] == "adt" and x[2] == "Ok":
                kinds["done"] += 1
                if lasto[0] != "empty":
                    flag("the flush reports success although commands may be waiting or half written", W)
            elif x[0] == "adt" and x[2] == "Err":
                kinds["error"] += 1
                if lasto[0] not in ("err", "packerr", "zero"):
                    flag("the flush fails although nothing went wrong", W)
        bads = [o for o in st.obs if o[0] in ("err", "packerr")]
        if bads and not (v[0] == "adt" and v[2] == "Ready" and contains(v, bads[-1][1])):
            flag("a failed write or command is not reported", W)
    ctx.count("paths", n)
    ctx.count("functions", len(e.called))
    for k, x in kinds.items():
        ctx.floor("flush outcomes: " + k, x, 1)
    ctx.oblige("%d flush paths against the ghost cursor" % n, True)


def order(ctx, f, N, flag, ends):
    n = 0
    for p, b in f.bodies.items():
        for _, info, t, sp in calls(f, b):
            nm = (info.get("r") or info["p"]).split("::")[-1]
            if nm in ("push_back", "push_front", "push", "insert", "clear", "truncate", "pop_front", "pop_back", "drain", "swap", "retain") and t[2]:
                a0 = argt(f, b, t[2][0])
                if a0 is None or "Deque<" not in a0 and "Vec<" not in a0 or N.cmd not in a0:
                    continue
                n += 1
                if nm in ("push_back", "push"):
                    good = ends <= {"pop_front"}
                elif nm == "push_front":
                    good = ends <= {"pop_back", "pop"}
                elif nm in ("pop_front", "pop_back"):
                    good = True
                else:
                    good = False
                ctx.oblige("%s of the command queue in %s keeps its order" % (nm, p), good, key="the command queue is reordered or cut by %s in %s" % (nm, p), where="%s %s" % (p, sp))
    ctx.floor("command queue operations", n, 2)


def argt(f, b, o):
    if isinstance(o, (list, tuple)) and len(o) > 1 and isinstance(o[1], (list, tuple)) and o[1] and isinstance(o[1][0], int):
        pl = o[1]
        if len(pl) > 2 and isinstance(pl[2], int):
            return f.ts(pl[2])
        return f.ts(b.l[pl[0]])
    return None


def stream(ctx, f, N, flag):
    """The reply is polled only after the flush succeeded."""
    p = N.stream_poll(N.packet_stream)
    W = where(f, p)
    src = f.bodies[p].sp.split(":")[0]
    tp = N.transport_poll()
    mk = [q for q, b in f.bodies.items() if f.ts(b.l[0]) == N.packet_stream and any(N.peeled(t) == N.cmd for t in b.l[1:1 + b.argc])]
    ctx.floor("functions that issue a command", len(mk), 1)
    n = polled = 0
    for q in mk:
        e = prov_engine(f, lambda b: b.sp.split(":")[0] == src or b.n == "bind")
        e.gc_returns = False
        e.no_widen = True

        def hook(e, st, call):
            nonlocal polled
            b = f.bodies.get(call.path)
            if b is not None and N.is_send(b):
                if sum(1 for o in st.obs if o[0] == "sent") >= 2:
                    return []
                outs = []
                for kind, v in (("ok", ready(ok(("unit",)))), ("err", ready(err(("a", "senderr")))), ("pending", PENDING)):
                    s = st.copy()
                    s.obs = s.obs + (("sent", kind),)
                    outs.append((s, v))
                return outs
            if call.path == tp or call.name == "poll_next" and call.argts and call.argts[0] is not None and N.peeled(call.argts[0]) == N.transport:
                polled += 1
                if ("sent", "ok") not in st.obs:
                    flag("a reply is awaited before the command was written completely", "%s %s" % (p, call.site[2]))
                s = st.copy()
                s.obs = s.obs + (("polled",),)
                return [(s, PENDING)]
            return None
        e.hooks.append(hook)
        b = f.bodies[q]
        args = [("a", "arg", "_%d" % i) for i in range(1, 1 + b.argc)]
        for st, v in e.run_fn(q, args, State(obs=())):
            if isinstance(v, Panic):
                continue
            cell = ("K", 0, "ps")
            st.mem[cell] = v
            first = e.run_fn(p, [("ref", (cell, ())), ("a", "arg", "cx")], st.copy())
            for s1, r1 in first:
                if isinstance(r1, Panic):
                    continue
                n += 1
                r = e.deep(s1, r1)
                lasts = [o for o in s1.obs if o[0] == "sent"]
                if not lasts:
                    flag("a command is not flushed before its reply is awaited", W)
                    continue
                if lasts[-1][1] == "err" and not (r[0] == "adt" and r[2] == "Ready" and contains(r, ("a", "senderr"))) and e.known(s1, ("a", "x")) is None:
                    # only a would-block error may be turned into waiting
                    if not any(isc(t, "is_would_block") or contains(t, ("a", "senderr")) for t in s1.facts):
                        flag("a failed write is not reported", W)
                if lasts[-1][1] == "pending":
                    if not (r[0] == "adt" and r[2] == "Pending"):
                        flag("an unfinished write does not make the caller wait", W)
                    s2 = s1.copy()
                    s2.obs = ()
                    for s3, r3 in e.run_fn(p, [("ref", (cell, ())), ("a", "arg", "cx")], s2):
                        n += 1
                        if not isinstance(r3, Panic) and not [o for o in s3.obs if o[0] == "sent"]:
                            flag("an unfinished write is not resumed", W)
        ctx.count("functions", len(e.called))
    ctx.count("paths", n)
    ctx.floor("reply polls", polled, 1)


def union(ctx, f, N, flag):
    """A union packs its first part before its second."""
    packs = [p for p, b in f.bodies.items() if b.argc == 1 and N.peeled(b.l[1]) == N.cmd and "Vec<u8>" in f.ts(b.l[0])]
    ctx.floor("packing functions", len(packs), 1)
    # inline everything that takes commands
    files = {f.bodies[p].sp.split(":")[0] for p in packs}
    outer = [p for p in packs if not any((i.get("r") or i["p"]) == p and q != p and q in packs for q in packs for _, i, _, _ in calls(f, f.bodies[q]))] or packs
    n = 0
    for p in outer:
        e = prov_engine(f, lambda b: b.sp.split(":")[0] in files and any(N.peeled(t) == N.cmd for t in b.l[1:1 + b.argc]))
        e.gc_returns = False
        A, B = ("a", "first"), ("a", "second")
        cell = ("K", 0, "cmd")
        st0 = State(obs=())
        st0.mem[cell] = ("adt", N.cmd, "Union", (("0", A), ("1", B)), None)

        def hook(e, st, call):
            b = f.bodies.get(call.path)
            if b is not None and call.path in packs:
                c = unref(e.deep(st, call.args[0]))
                if c in (A, B):
                    s1, s2 = st.copy(), st.copy()
                    return [(s1, ok(("a", "bytes", c))), (s2, err(("a", "packerr", c)))]
            return None
        e.hooks.append(hook)
        for st, v in e.run_fn(p, [("ref", (cell, ()))], st0):
            if isinstance(v, Panic):
                continue
            v = e.deep(st, v)
            if v[0] == "adt" and v[2] == "Ok":
                n += 1
                x = e.deep(st, e.payload(v, "Ok"))
                seq = concat(e, st, x)
                if seq != [("a", "bytes", A), ("a", "bytes", B)]:
                    flag("a union of commands is not packed as its first part followed by its second", where(f, p))
    ctx.floor("packed unions", n, 1)


def concat(e, st, v):
    v = unref(v)
    if isc(v, "extend", "extend_from_slice", "append", "write_all") and v[2].startswith("mut:"):
        return concat(e, st, v[3][0]) + concat(e, st, v[3][1])
    if isc(v, "iter", "into_iter", "copied", "cloned", "as_slice", "deref", "as_ref", "drain", "to_vec"):
        return concat(e, st, v[3][0])
    if isc(v, "iter", "into_iter", "reserve") and v[2].startswith("mut:"):
        return concat(e, st, v[3][0])
    if isc(v, "concat"):
        a = v[3][0]
        if isinstance(a, tuple) and a[0] == "arr":
            return [y for x in a[1] for y in concat(e, st, e.deep(st, x))]
    if isc(v, "chain"):
        return concat(e, st, v[3][0]) + concat(e, st, v[3][1])
    if isc(v, "collect"):
        return concat(e, st, v[3][0])
    if isc(v, "new", "with_capacity") and "Vec" in v[2]:
        return []
    return [v]
