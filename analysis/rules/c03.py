"""C03 Pool usage accounting is balanced on every path."""
from engine import Panic, State, RES, POLL, OPT, TRUE, FALSE, field, contains
from poolsim import PoolSim, oget, START
from rules.ops import Ops
from rules.util import calls, where
from transport import Anchor

RULE = ("Typestate analysis of pool polls, handle drops, transport drops and reconnects over MIR with drop glue: handing a handle out raises "
        "the in-use counter by one and marks its connection as out; dropping a counted handle, or the connection of one, lowers it by one "
        "exactly once; every other path leaves it unchanged; nothing else writes the counter or the mark.")
ASSUMPTIONS = ["Counter updates are atomic; the argument is per path, the interleaving of balanced paths is balanced.",
               "A transport is owned by one place at a time (it is not Clone)."]


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, ctx.facts(cfg))


def run(ctx, f):
    s = PoolSim(f)
    e = s.e
    root, outs = s.get_handle()
    hand = 0
    for st, v in outs:
        if isinstance(v, Panic):
            continue
        d = oget(st, "d")
        pv = e.variant(st, v, POLL)
        r = e.payload(v, "Ready") if pv == "Ready" else None
        if r is not None and e.variant(st, r, RES) == "Ok":
            h = e.payload(r, "Ok")
            hand += 1
            ins = s.inside_of(st, h)
            b = e.variant(st, field(h, "pool"), s.n.binding)
            ctx.oblige("handing out a handle counts it once", d == 1, "handing out a handle changes the in-use count by %+d" % d, where(f, root))
            ctx.oblige("a handed-out connection is marked as out of the pool", ins is not None and ins[1] is False, where=where(f, root))
            ctx.oblige("a handed-out handle is attached to the pool", b == "Attached", where=where(f, root))
        else:
            ctx.oblige("a poll that hands out nothing leaves the count alone", d == 0,
                       "a poll that hands out nothing changes the in-use count by %+d" % d, where(f, root))
    ctx.floor("paths that hand out a handle", hand, 1)
    dr = e.drop_impl(s.n.handle)
    for inner in (True, False):
        for b in ("None", "Attached", "Detached"):
            want = -1 if inner and b != "None" else 0
            n = 0
            for st, v in s.handle_drop(inner, b):
                if isinstance(v, Panic):
                    continue
                n += 1
                ctx.oblige("dropping a handle (connection: %s, pool: %s) changes the count by %d" % (inner, b, want), oget(st, "d") == want,
                           "dropping a handle (connection: %s, pool: %s) changes the in-use count by %+d instead of %+d"
                           % ("present" if inner else "gone", b, oget(st, "d"), want), where(f, dr))
            ctx.floor("paths dropping a handle (%s, %s)" % (inner, b), n, 1)
    down = 0
    for ins in (TRUE, FALSE):
        d, outs = s.status_drop(ins)
        for st, v in outs:
            if isinstance(v, Panic):
                continue
            alive = oget(st, "alive", True)
            want = -1 if ins == FALSE and alive else 0
            down += want
            ctx.oblige("destroying a connection (inside the pool: %s) changes the count by %d" % (ins[1], want), oget(st, "d") == want,
                       "destroying a connection (inside the pool: %s, pool alive: %s) changes the in-use count by %+d instead of %+d"
                       % (ins[1], alive, oget(st, "d"), want), where(f, d))
    ctx.floor("connection destructions that give the count back", -down, 1)
    parked = 0
    for role, st, v, site in s.pushes:
        if role != "idle":
            continue
        parked += 1
        v = e.deep(st, v)
        ins = s.inside_of(st, v)
        w = "%s (%s)" % (site[2], site[0])
        ctx.oblige("a parked connection is marked as inside the pool", ins is not None and ins[1] is True, where=w)
        ctx.oblige("a parked handle is not bound to the pool", e.variant(st, field(v, "pool"), s.n.binding) == "None", where=w)
    ctx.floor("connections parked", parked, 2)
    for rule, msg, fn, sp in s.viol:
        if rule == "C03":
            ctx.violation("%s: %s" % (fn, msg), msg, "%s (%s)" % (sp, fn))
    # attach and detach keep the pool
    for b in f.bodies.values():
        if b.k == "method" and b.argc == 1 and s.n.peeled(b.l[1]) == s.n.binding and f.tk(b.l[1]) == "ref" and f.types[b.l[1]].get("m") \
                and f.ts(b.l[0]) == "()":
            for bind in ("None", "Attached", "Detached"):
                st = State(obs=START)
                pv = () if bind == "None" else (("0", ("a", "pool")),)
                st.mem[("T", "b")] = ("adt", s.n.binding, bind, pv, None)
                for s1, v in e.run_fn(b.p, [("ref", (("T", "b"), ()))], st):
                    if isinstance(v, Panic):
                        continue
                    now = e.read_loc(s1, (("T", "b"), ()))
                    var = e.variant(s1, now, s.n.binding)
                    good = (var == "None") == (bind == "None") and (bind == "None" or field(now, "0") == ("a", "pool"))
                    ctx.oblige("%s keeps the handle's pool (%s)" % (b.n, bind), good, where=where(f, b.p))
    # a new connection starts out as inside the pool
    made = 0
    for b in f.bodies.values():
        if b.trait is None and f.tk(b.l[0]) == "adt" and f.tdef(b.l[0]) == s.n.transport and b.argc >= 1 and \
                not any(f.tk(t) == "adt" and f.tdef(t) == s.n.transport for t in b.l[1:b.argc + 1]):
            for s1, v in e.run_fn(b.p, st=State(obs=START)):
                if isinstance(v, Panic):
                    continue
                made += 1
                pa = [("a", "arg", b.locname.get(i, str(i))) for i in range(1, b.argc + 1) if "Pool" in f.ts(b.l[i])]
                if pa and e.variant(s1, pa[0], OPT) == "Some":
                    ctx.oblige("a new connection remembers its pool", contains(e.deep(s1, e.read_loc(s1, e.deref(s1, field(v, "status")))), pa[0]),
                               where=where(f, b.p))
                stat = field(v, "status")
                cell = e.read_loc(s1, e.deref(s1, stat))
                k = e.known(s1, field(cell, "inside"))
                ctx.oblige("a new connection counts as inside the pool", k is not None and k[1] is True, where=where(f, b.p))
    ctx.floor("constructors of a connection", made, 1)
    seen = set(e.called)
    # an attempt to open a connection never gives back what was not counted; reconnecting never binds an uncounted connection
    o = Ops(f)
    for root in (o.open, o.check):
        ss = o.session(root)
        es = ss.e
        bad = []

        def dropped(eng, st, loc, ty, site, ss=ss, bad=bad):
            if f.tk(ty) == "adt" and f.tdef(ty) == o.n.handle:
                v = eng.read_loc(st, loc)
                if eng.variant(st, field(v, "inner"), OPT) == "Some" and eng.variant(st, field(v, "pool"), o.n.binding) in ("Attached", "Detached"):
                    bad.append(site)
            return None
        if root == o.open:
            es.drop_hook = dropped
        outs = es.run_async(root, obs=("none", "none", None, None))
        seen |= es.called
        for site in bad:
            ctx.violation("%s drops an uncounted handle bound to the pool" % site[0],
                          "%s drops a never handed-out handle that is bound to the pool: the count is given back for it" % site[0],
                          "%s (%s)" % (site[2], site[0]))
        ctx.oblige("%s drops no uncounted handle bound to the pool" % root, not bad, where=where(f, root))
        if root == o.check:
            for st, v in outs:
                if isinstance(v, Panic):
                    continue
                hl = (("H", ("a", "arg", "self")), ())
                h = es.read_loc(st, hl)
                inner = field(h, "inner")
                b = es.variant(st, field(h, "pool"), o.n.binding)
                direct = "opened" in repr(h)[:100000] and "openbind" in repr(field(h, "pool"))
                ctx.oblige("a reconnected handle bound to the pool holds a counted connection", not (direct and b != "None"), where=where(f, root))
    # nothing else touches the counter, the mark, or leaks a connection
    inner_fields = {k for k, v in s.qname.items() if v == "ongoing"}
    sites = 0
    for b in f.bodies.values():
        for i, info, t, sp in calls(f, b):
            if info["n"] in ("fetch_add", "fetch_sub", "store", "swap", "fetch_update", "compare_exchange", "fetch_or", "fetch_and") and "tomic" in info["p"]:
                from poolsim import atomic_fields
                fl = atomic_fields(f, b, (info["n"],), inner_fields | {"inside"})
                if fl:
                    sites += 1
                    ctx.oblige("%s writes %s and is analysed" % (b.p, sorted(fl)), b.p in seen, where=where(f, b.p))
            if info["n"] in ("forget", "leak", "into_raw") and any(e.interesting(a) for a in info.get("a", [])):
                ctx.violation("%s leaks a connection" % b.p, "%s leaks a handle or connection, its count is never given back" % b.p, sp)
    ctx.floor("functions that write the counter or the mark", sites, 3)

