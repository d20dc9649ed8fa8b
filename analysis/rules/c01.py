"""C01 A failed reply always reaches the caller as an error."""
from engine import Panic, RES, POLL, OPT
from rules.ops import Ops

RULE = ("Path-sensitive typestate analysis of every operation (handshake, ping, execute, insert, fetch_all, reconnect check, "
        "block stream) over MIR, with the socket replaced by a server that may send any packet, fail or close at every receive: "
        "on no path is there a success result, another receive, or a panic after a failure, nor a success before the end of the reply.")
ASSUMPTIONS = ["A Block packet is not sent in reply to insert data (protocol).",
               "std/futures combinators behave as summarised in models.py."]


def where(s, root):
    return "%s %s" % (s.f.bodies[root].sp, root)


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, cfg)


def run(ctx, cfg):
    o = Ops(ctx.facts(cfg))
    for root in o.roots():
        s = o.run(root)
        ctx.count("receive events", s.events)
        ctx.count("commands queued", s.cmds)
        ctx.count("steps", s.e.steps)
        report(ctx, s, root)
        oks = 0
        for st, v in s.outs:
            if isinstance(v, Panic):
                continue
            if st.obs[2] is not None:
                ctx.oblige("%s: %s in reply to %s ends in an error" % (root, st.obs[2][0], st.obs[0]),
                           s.e.variant(st, v, RES) == "Err", "%s: %s in reply to %s does not end in an error" % (root, st.obs[2][0], st.obs[0]),
                           where(s, root))
            elif s.e.variant(st, v, RES) == "Ok":
                oks += 1
        ctx.floor("successful paths of " + root, oks, 1)
        if root not in (o.check,):
            ctx.floor("receives of " + root, s.events, 1)
    stream(ctx, o)


def report(ctx, s, root):
    for rule, msg, fn, sp in s.viol:
        if rule == "C01":
            ctx.violation("%s: %s" % (root, msg), "%s: %s" % (root, msg), "%s (%s)" % (sp, fn))
    for r, why, site, obs in s.panics:
        if obs[2] is not None or obs[1] == "wait":
            ctx.violation("%s: panic (%s) in %s" % (root, why, site[0]),
                          "%s panics (%s) after %s in reply to %s" % (root, why, (obs[2] or ("packet %s" % obs[3],))[0], obs[0]),
                          "%s (%s)" % (site[2], site[0]))


def stream(ctx, o):
    s, poll, states = o.block_stream()
    e = s.e
    bs = ("ref", (("T", "bs"), ()))
    seen = set()
    ends = fails = 0
    for rnd in range(4):
        nxt = []
        for st in states:
            k = st.key()
            if k in seen:
                continue
            seen.add(k)
            for s1, v in e.run_fn(poll, [bs, ("a", "cx")], st):
                if isinstance(v, Panic):
                    s.panics.append((poll, v.why, v.site, s1.obs))
                    continue
                cmd, phase, fail, last = s1.obs
                pv = e.variant(s1, v, POLL)
                if pv == "Pending":
                    ctx.oblige("block stream does not go back to waiting after a failure", fail is None,
                               "block stream waits after %s" % (fail[0] if fail else ""), where(s, poll))
                    nxt.append(s1)
                    continue
                ov = e.payload(v, "Ready")
                for s2, opt in e.split(s1, ov, OPT):
                    if opt == "None":
                        ends += 1
                        ctx.oblige("block stream ends normally only after the end of the reply", fail is None and phase == "done",
                                   "block stream ends normally with reply state %s/%s" % (phase, fail[0] if fail else last), where(s, poll))
                        continue
                    for s3, rv in e.split(s2, e.payload(ov, "Some"), RES):
                        if rv == "Ok":
                            ctx.oblige("block stream yields data only while the reply is healthy", fail is None,
                                       "block stream yields a block after %s" % (fail[0] if fail else ""), where(s, poll))
                            nxt.append(s3)
                        else:
                            fails += 1
        states = nxt
    report(ctx, s, poll)
    ctx.count("receive events", s.events)
    ctx.floor("block stream normal ends", ends, 1)
    ctx.floor("block stream error results", fails, 5)
