"""C05 The pool keeps only reusable connections and respects its limits."""
from engine import Panic, OPT, field, root_of_fields
from poolsim import PoolSim, oget
from rules.util import where
from transport import Anchor, make_engine

RULE = ("Path-condition analysis over MIR: on every path that parks a given-back connection, the handle was attached, owns its connection and "
        "the current idle length was compared below the pool's minimum; on every path that starts a connection, the sum of the current "
        "idle, in-use and opening counts was compared below the pool's maximum; both limits come from the options of that name.")
ASSUMPTIONS = ["Per path; two threads passing the check at once is C29 (not claimed)."]


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, ctx.facts(cfg))


def limits(ctx, f):
    """Which fields of the pool hold the configured minimum and maximum."""
    c = [b for b in f.bodies.values() if b.p.endswith("Pool::new") and b.sp.startswith("src/pool/")]
    if len(c) != 1:
        raise Anchor("Pool::new")
    e = make_engine(f)
    mn, mx = set(), set()
    n = 0
    for st, v in e.run_fn(c[0].p):
        if isinstance(v, Panic) or v[0] != "adt":
            continue
        n += 1
        got = {}
        for k, x in v[3]:
            x = e.deep(st, x)
            _, fs = root_of_fields(x)
            if fs and fs[-1] in ("pool_min", "pool_max"):
                got.setdefault(fs[-1], set()).add(k)
        if got:
            mn |= got.get("pool_min", set())
            mx |= got.get("pool_max", set())
    ctx.oblige("the pool's minimum is the configured pool_min", len(mn) == 1 and not mn & mx, where=where(f, c[0].p))
    ctx.oblige("the pool's maximum is the configured pool_max", len(mx) == 1 and not mn & mx, where=where(f, c[0].p))
    return mn, mx


def leaves(t):
    if t[0] == "op" and t[1] == "Add":
        return leaves(t[2]) + leaves(t[3])
    return [t]


def below(st, wanted, names):
    """Is there a decided fact: (a sum containing all wanted terms) < a field called one of names?"""
    for t, v in st.facts.items():
        if t[0] == "op" and t[1] == "Lt" and v == ("=", True):
            if t[3][0] == "fld" and t[3][2] in names and wanted <= set(leaves(t[2])):
                return True
    return False


def run(ctx, f):
    mn, mx = limits(ctx, f)
    s = PoolSim(f)
    e = s.e
    root, _ = s.get_handle()
    started = 0
    for role, st, v, site in s.pushes:
        if role == "new" and e.deep(st, v) != ("a", "newfut"):
            started += 1
            want = {s.qlen(st, "new"), s.qlen(st, "idle"), ("a", "ongoing", oget(st, "d"))}
            ctx.oblige("a connection is started only below the maximum", below(st, want, mx),
                       "a connection is started without comparing idle + in-use + opening with the maximum", "%s (%s)" % (site[2], site[0]))
    ctx.floor("points where a connection is started", started, 1)
    kept = 0
    dr = e.drop_impl(s.n.handle)
    for inner in (True, False):
        for b in ("None", "Attached", "Detached"):
            s.pushes = []
            s.handle_drop(inner, b)
            for role, st, v, site in s.pushes:
                w = "%s (%s)" % (site[2], site[0])
                if role != "idle":
                    continue
                kept += 1
                ctx.oblige("only an attached handle's connection is kept", b == "Attached",
                           "a connection is kept for reuse though its handle is %s" % ("not pooled" if b == "None" else "detached"), w)
                hv = e.deep(st, v)
                ctx.oblige("only a handle that owns its connection is kept",
                           inner and e.variant(st, field(hv, "inner"), OPT) == "Some", "a handle without connection is kept for reuse", w)
                ctx.oblige("a connection is kept only below the minimum", below(st, {s.qlen(st, "idle")}, mn),
                           "a connection is kept without comparing the idle count with the minimum", w)
    ctx.floor("points where a connection is kept", kept, 1)
    ctx.count("queue operations", s.cnt)
