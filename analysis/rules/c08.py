"""C08 Every operation runs under its own configured deadline."""
from engine import Panic, RES, OPT, some, root_of_fields, subterms
from rules.ops import Ops, START
from rules.util import where
from transport import Anchor, adt_path
from models import nrm

TECHNIQUE = "scope analysis of timeouts over MIR: network steps are dominated by the deadline of their operation"
RULE = ("For every operation, on every path through its MIR (async bodies included), each network step (connect, flush, receive, health "
        "check, connection opening) happens inside a timeout whose duration is the option belonging to that operation and inside no "
        "other; without a timeout only where that option is known to be absent. Both runtimes.")
ASSUMPTIONS = ["tokio::time::timeout and async_std::io::timeout bound the future they are given."]


def kind(st, v):
    """Name of the Options field a duration comes from."""
    _, fs = root_of_fields(v)
    fs = [x for x in fs if not x.isdigit()]
    return fs[-1] if fs else None


def check(ctx):
    for cfg in ("default", "async_std"):
        run(ctx, ctx.facts(cfg), cfg)


def run(ctx, f, cfg):
    o = Ops(f)
    opts = adt_path(f, "Options")
    optional = {}
    for fl in f.adts[opts]["v"][0]["f"]:
        optional[fl["n"]] = "Option<" in f.ts(fl["t"])
    table = {o.ping: "ping_timeout", o.execute: "execute_timeout", o.insert: "insert_timeout", o.open: "connection_timeout",
             o.fetch: "query_timeout"}
    for root, want in table.items():
        if want not in optional:
            raise Anchor("option " + want)
        s = o.session(root)
        e = s.e
        n = {"in": 0, "out": 0, "net": 0}

        def step(st, what, site):
            n["net"] += 1
            ks = [kind(st, v) for v in e.deadlines]
            w = "%s (%s)" % (site[2], site[0])
            wrong = [k for k in ks if k != want]
            ctx.oblige("[%s] %s: %s under no foreign deadline" % (cfg, root, what), not wrong,
                       "%s: %s runs under %s instead of %s" % (root, what, ", ".join(str(k) for k in wrong), want), w)
            if want in ks:
                n["in"] += 1
                ctx.oblige("[%s] %s: %s under %s" % (cfg, root, what, want), True, where=w)
                return
            absent = False
            if optional[want]:
                for t, v in st.facts.items():
                    if t[0] == "discr" and v == ("=", f.discr(OPT, "None")) and kind(st, t[1]) == want:
                        absent = True
            n["out"] += 1
            if not wrong:
                ctx.oblige("[%s] %s: %s without deadline only if none is configured" % (cfg, root, what), absent,
                           "%s: %s is not covered by %s" % (root, what, want), w)

        def watch(eng, st, call):
            b = f.bodies.get(call.path)
            if call.path == s.tp:
                step(st, "receiving", call.site)
            elif b is not None and s.n.is_send(b):
                step(st, "sending", call.site)
            elif call.name == "poll" and b is not None and b.self_ty is not None and "Connecting" in f.ts(b.self_ty):
                step(st, "connecting", call.site)
            elif call.name in ("into", "from") and (call.trait or "").endswith(("Into", "From")) and call.args:
                # conversion inside a generic function: decided by the type of the option it is applied to
                k = kind(st, call.args[0]) if call.args[0][0] == "fld" else None
                if k in optional and k.endswith("timeout"):
                    return [(st, call.args[0] if optional[k] else some(call.args[0]))]
            return None
        e.hooks.insert(0, watch)
        inner = e.poll_summary

        def polled(eng, st, v, call):
            step(st, "checking the connection", call.site)
            return inner(eng, st, v, call)
        e.poll_summary = polled
        outs = e.run_async(root, obs=START)
        oks = sum(1 for st, v in outs if not isinstance(v, Panic) and e.variant(st, v, RES) == "Ok")
        ctx.floor("[%s] network steps of %s" % (cfg, root), n["net"], 2)
        ctx.floor("[%s] network steps of %s under its deadline" % (cfg, root), n["in"], 2)
        if optional[want]:
            ctx.floor("[%s] network steps of %s with the deadline absent" % (cfg, root), n["out"], 2)
        ctx.floor("[%s] successful paths of %s" % (cfg, root), oks, 1)
