"""C06 A handle stays usable after failed, cancelled or abandoned operations."""
from engine import Panic, State, RES, POLL, OPT, TRUE, FALSE, field
from poolsim import PoolSim, oget, START
from rules.ops import Ops
from rules.util import where

RULE = ("Panic-reachability over MIR of every handle operation, stream poll, drop and pool poll, started from every combination of connection "
        "(present, gone) and pool attachment (none, attached, detached): no unwrap, expect, assertion or explicit panic on the handle's "
        "state is reachable, and a successful open always yields a handle that owns its connection.")
ASSUMPTIONS = ["Panics inside data conversion are C23's subject; arithmetic on counters is not considered."]


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, ctx.facts(cfg))


def bad(ctx, what, v):
    ctx.violation("%s: panic (%s) in %s" % (what, v.why, v.site[0]), "%s panics (%s)" % (what, v.why), "%s (%s)" % (v.site[2], v.site[0]))


def run(ctx, f):
    o = Ops(f)
    for root in o.roots():
        s = o.run(root)
        n = 0
        for st, v in s.outs:
            n += 1
            ctx.oblige("%s does not panic" % root, not isinstance(v, Panic), "%s: panic (%s) in %s" % (root, v.why, v.site[0]) if isinstance(v, Panic) else None,
                       "%s (%s)" % (v.site[2], v.site[0]) if isinstance(v, Panic) else where(f, root))
        ctx.floor("paths of " + root, n, 1)
    for root in (o.open,):
        s = o.run(root)
        for st, v in s.outs:
            if not isinstance(v, Panic) and s.e.variant(st, v, RES) == "Ok":
                ctx.oblige("an opened handle owns its connection", s.e.variant(st, field(s.e.payload(v, "Ok"), "inner"), OPT) == "Some",
                           where=where(f, root))
    # block streams: polls and drop, whatever the handle's pool attachment
    s, poll, states = o.block_stream()
    e = s.e
    bs = ("ref", (("T", "bs"), ()))
    from rules.c02 import the_drop
    drop = the_drop(f, o.n.block_stream)
    seen = set()
    polls = 0
    for rnd in range(4):
        nxt = []
        for st in states:
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            for s1, v in e.run_fn(drop, [bs], st):
                ctx.oblige("dropping a block stream does not panic", not isinstance(v, Panic), where=where(f, drop))
            for s1, v in e.run_fn(poll, [bs, ("a", "cx")], st):
                polls += 1
                if ctx.oblige("polling a block stream does not panic", not isinstance(v, Panic), where=where(f, poll)):
                    nxt.append(s1)
        states = nxt
    ctx.floor("block stream polls", polls, 20)
    p = PoolSim(f)
    root, outs = p.get_handle()
    for st, v in outs:
        ctx.oblige("polling the pool does not panic", not isinstance(v, Panic), where=where(f, root))
    dr = p.e.drop_impl(p.n.handle)
    for inner in (True, False):
        for b in ("None", "Attached", "Detached"):
            for st, v in p.handle_drop(inner, b):
                ctx.oblige("dropping a handle (connection: %s, pool: %s) does not panic" % (inner, b), not isinstance(v, Panic), where=where(f, dr))
    for ins in (TRUE, FALSE):
        d, outs = p.status_drop(ins)
        for st, v in outs:
            ctx.oblige("destroying a connection does not panic", not isinstance(v, Panic), where=where(f, d))
    for role, st, v, site in p.pushes:
        if role == "idle":
            hv = p.e.deep(st, v)
            ctx.oblige("a parked handle owns its connection", p.e.variant(st, field(hv, "inner"), OPT) == "Some", where="%s (%s)" % (site[2], site[0]))
    # attachment changes
    for b in f.bodies.values():
        if b.k == "method" and b.argc == 1 and p.n.peeled(b.l[1]) == p.n.binding and f.tk(b.l[1]) == "ref":
            for bind in ("None", "Attached", "Detached"):
                st = State(obs=START)
                st.mem[("T", "b")] = ("adt", p.n.binding, bind, () if bind == "None" else (("0", ("a", "pool")),), None)
                for s1, v in p.e.run_fn(b.p, [("ref", (("T", "b"), ()))], st):
                    ctx.oblige("%s (%s) does not panic" % (b.p, bind), not isinstance(v, Panic), where=where(f, b.p))
