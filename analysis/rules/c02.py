"""C02 A connection carries a new command only after its last reply is fully read."""
from engine import Panic, RES, POLL, OPT, field, C
from rules.ops import Ops, find
from rules.util import callers_of
from transport import Anchor

RULE = ("Typestate analysis over MIR of every operation and of every history of polls and drop of a block stream: at each point where a "
        "command other than Cancel is queued, the last reply has been read to its end and the connection's unread-data mark is provably "
        "clear; a connection stored back into a handle has a complete reply or carries the mark, and is never one that failed.")
ASSUMPTIONS = ["A transport has one owner (it is not Clone), so a cancelled operation drops it.",
               "Connections parked in a pool obey the same invariant (they are handles stored by these operations)."]


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, cfg)


def rep(ctx, s, root):
    for rule, msg, fn, sp in s.viol:
        if rule == "C02":
            ctx.violation("%s: %s" % (fn, msg), "%s: %s" % (root, msg), "%s (%s)" % (sp, fn))


def run(ctx, cfg):
    f = ctx.facts(cfg)
    o = Ops(f)
    seen = set()
    for root in o.roots():
        s = o.run(root)
        rep(ctx, s, root)
        seen |= s.e.called
        ctx.count("commands queued", s.cmds)
        ctx.obligations += s.cmds
        ctx.discharged += s.cmds if not any(v[0] == "C02" for v in s.viol) else 0
        # an operation that reports success leaves a connection free of unread data
        if root in (o.ping, o.check, o.execute, o.insert):
            for st, v in s.outs:
                if isinstance(v, Panic) or s.e.variant(st, v, RES) != "Ok":
                    continue
                h = (("H", ("a", "arg", "self")), ())
                inner = s.e.read_loc(st, (h[0], ((".", "inner"),)))
                if s.e.variant(st, inner, OPT) == "None":
                    continue
                inc = s.e.known(st, field(s.e.payload(inner, "Some"), "inconsistent"))
                ctx.oblige("%s leaves no unread reply data when it succeeds" % root, inc is not None and inc[1] is False,
                           where="%s (%s)" % (f.bodies[root].sp, root))
        if root in (o.open,):
            for st, v in s.outs:
                if isinstance(v, Panic) or s.e.variant(st, v, RES) != "Ok":
                    continue
                h = s.e.payload(v, "Ok")
                inner = field(h, "inner")
                inc = s.e.known(st, field(s.e.payload(inner, "Some"), "inconsistent"))
                ctx.oblige("a newly opened connection is usable and has no unread data",
                           s.e.variant(st, inner, OPT) == "Some" and inc is not None and inc[1] is False,
                           where="%s (%s)" % (f.bodies[root].sp, root))
    # block stream: any number of polls, then drop
    s, poll, states = o.block_stream()
    e = s.e
    drop = the_drop(f, o.n.block_stream)
    bs = ("ref", (("T", "bs"), ()))
    done = set()
    drops = 0
    for rnd in range(4):
        nxt = []
        for st in states:
            k = st.key()
            if k in done:
                continue
            done.add(k)
            # drop here
            for s1, v in e.run_fn(drop, [bs], st):
                drops += 1
                if isinstance(v, Panic):
                    continue
                inner = e.read_loc(s1, (("T", "client"), ((".", "inner"),)))
                kept = e.variant(s1, inner, OPT)
                cmd, phase, fail, last = s1.obs
                if kept == "Some" or kept is None:
                    inc = e.known(s1, field(e.payload(inner, "Some"), "inconsistent"))
                    marked = inc is not None and inc[1] is True
                    clean = inc is not None and inc[1] is False
                    if fail is not None:
                        good = fail[0] == "a server exception"
                    elif phase == "wait":
                        good = marked
                    else:
                        good = marked or clean
                    ctx.oblige("dropping a block stream (reply: %s%s) keeps the connection only if complete or marked" %
                               (phase, ", " + fail[0] if fail else ""), good,
                               where="%s (%s)" % (f.bodies[drop].sp, drop))
                else:
                    ctx.oblige("dropping a block stream (reply: %s) closes the connection" % phase, True)
            for s1, v in e.run_fn(poll, [bs, ("a", "cx")], st):
                if not isinstance(v, Panic):
                    nxt.append(s1)
        states = nxt
    rep(ctx, s, poll)
    seen |= e.called
    ctx.floor("drops of a block stream analysed", drops, 20)
    # every place that queues a command was analysed
    q = [b for b in f.bodies.values() if queues(f, o.n, b)]
    ctx.floor("functions that queue commands", len(q), 1)
    todo, done = [b.p for b in q], set()
    for b in q:
        for c in callers_of(f, b.p):
            todo.append(c)
    for p in todo:
        ctx.oblige("%s queues commands and is analysed" % p, p in seen, where=f.bodies[p].sp)
    # nothing else clears or sets the mark, or moves a connection between handles, unseen
    for b in f.bodies.values():
        for bl in b.b:
            if bl["c"]:
                continue
            for st in bl["s"]:
                if st[0] == "=" and st[1][1] and st[1][1][-1][0] == "." and st[1][1][-1][1] == "inconsistent":
                    ctx.oblige("write of the unread-data mark in %s is analysed" % b.p, b.p in seen, where=b.sp)


def queues(f, n, b):
    for bl in b.b:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "fn" and t[1][1]["n"] in ("push_back", "push_front") and "VecDeque" in t[1][1]["p"]:
            if any(f.tk(x) == "adt" and f.tdef(x) == n.cmd for x in t[1][1].get("a", [])):
                return True
    return False


def the_drop(f, adt):
    for selft, items, im in f.timpls.get("std::ops::Drop", []) + f.timpls.get("core::ops::Drop", []):
        if f.tk(selft) == "adt" and f.tdef(selft) == adt:
            return items["drop"]
    raise Anchor("Drop impl of " + adt)
