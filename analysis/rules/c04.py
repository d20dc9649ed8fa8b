"""C04 Every freed pool slot wakes the waiting tasks."""
from engine import Panic, POLL, TRUE, FALSE, contains
from poolsim import PoolSim, oget
from rules.util import where

RULE = ("Typestate analysis of pool polls, handle drops and connection drops over MIR: every path that lowers the in-use count, parks a "
        "connection or ends an opening attempt drains the waiter queue afterwards, waking each task taken out; a poll that returns Pending "
        "has queued its own waker before its last look at the idle queue and at the room for a new connection, and drives what it started.")
ASSUMPTIONS = ["Queue operations are linearizable (crossbeam).", "Waking a stale waker is harmless."]


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, ctx.facts(cfg))


def clean(ctx, f, st, what, fn):
    ctx.oblige("%s: waiting tasks are woken after a slot is freed" % what, oget(st, "dirty") is False,
               "%s frees a slot without waking the waiting tasks" % what, where(f, fn))
    ctx.oblige("%s: no task is taken out of the queue without being woken" % what, oget(st, "popped") is False,
               "%s takes a waiting task out of the queue without waking it" % what, where(f, fn))


def run(ctx, f):
    s = PoolSim(f)
    e = s.e
    root, outs = s.get_handle()
    pend = 0
    for st, v in outs:
        if isinstance(v, Panic):
            continue
        clean(ctx, f, st, "polling the pool", root)
        if e.variant(st, v, POLL) == "Pending":
            pend += 1
            ctx.oblige("a task told to wait is registered", oget(st, "reg") is True, where=where(f, root))
            ctx.oblige("a task told to wait has looked for an idle connection after registering", "idle" in oget(st, "chk"), where=where(f, root))
            ctx.oblige("a task told to wait has looked for room for a new connection after registering", "room" in oget(st, "chk"),
                       where=where(f, root))
            ctx.oblige("a connection attempt started by a task is driven by it", not oget(st, "fresh"), where=where(f, root))
    ctx.floor("pool polls told to wait", pend, 1)
    regs = 0
    for role, st, v, site in s.pushes:
        if role == "tasks":
            regs += 1
            ctx.oblige("the registered waker is the polling task's", contains(v, ("a", "arg", "cx")), where="%s (%s)" % (site[2], site[0]))
    ctx.floor("registrations", regs, 1)
    dr = e.drop_impl(s.n.handle)
    for inner in (True, False):
        for b in ("None", "Attached", "Detached"):
            for st, v in s.handle_drop(inner, b):
                if not isinstance(v, Panic):
                    clean(ctx, f, st, "dropping a handle (connection: %s, pool: %s)" % (inner, b), dr)
    freed = 0
    for ins in (TRUE, FALSE):
        d, outs = s.status_drop(ins)
        for st, v in outs:
            if not isinstance(v, Panic):
                freed += oget(st, "d") < 0
                clean(ctx, f, st, "destroying a connection (inside the pool: %s)" % ins[1], d)
    ctx.floor("destructions that free a slot", freed, 1)
    for rule, msg, fn, sp in s.viol:
        if rule == "C04":
            ctx.violation("%s: %s" % (fn, msg), msg, "%s (%s)" % (sp, fn))
    ctx.count("queue operations", s.cnt)
