"""Abstract server session: which packets may follow which command, and what the client code does about it.

obs = (cmd, phase, fail, last)
  cmd    last command queued
  phase  "none" | "wait" (reply outstanding) | "done" (reply read to its end)
  fail   None | (kind, packet)      first failure of the current reply
  last   last server event (diagnostics)
"""
from engine import (Engine, State, Panic, Limit, OPT, RES, POLL, NONE, PENDING, UNIT, C, TRUE, FALSE, some, ok, err, ready, field)
from models import nrm
from transport import Names, make_engine, cmd_name, packet_value, Anchor

# packets that end the reply, and packets that may come before, per command
LEGAL = {
    "Hello": ({"Hello"}, set()),
    "Ping": ({"Pong"}, {"Progress"}),
    "SendQuery": ({"Eof"}, {"Block", "Progress", "ProfileInfo", "TableColumns"}),
    "SendData": ({"Eof"}, {"Progress", "ProfileInfo", "TableColumns"}),
    "Cancel": ({"Eof", "Exception"}, {"Block", "Progress", "ProfileInfo", "TableColumns"}),
}
TOLERATED = {  # legal for the protocol, but the client may also refuse them
    "Ping": {"Progress"},
    "SendQuery": {"TableColumns", "Progress", "ProfileInfo"},
    "SendData": {"TableColumns", "Progress", "ProfileInfo"},
}


class Session:
    def __init__(self, facts, names, pending=False):
        self.f = facts
        self.n = names
        self.e = e = make_engine(facts, ("src/types/block/chunk_iterator.rs",))
        self.viol = []           # (rule, message, site)
        self.pending = pending
        self.tp = names.transport_poll()
        self.events = 0
        self.cmds = 0
        self.returns = 0
        self.panics = []
        self.insert = False
        self.handle_inner = None
        self.summaries = {}
        e.hooks.append(self.hook)
        e.write_hook = self.on_write
        e.poll_summary = self.poll_summary

    def flag(self, rule, msg, site):
        v = (rule, msg, site[0], site[2])
        if v not in self.viol:
            self.viol.append(v)

    # -------------------------------------------------------------- hooks
    def hook(self, e, st, call):
        if call.path == self.tp:
            return self.recv(st, call)
        b = e.f.bodies.get(call.path)
        if b is not None and self.n.is_send(b):
            return self.flush(st, call)
        np = nrm(call.p)
        if b is not None and b.p in self.summaries:
            return self.summaries[b.p](self, st, call)
        if np.endswith("VecDeque::push_back") or np.endswith("VecDeque::push_front"):
            t = call.argts[1] if call.argts and len(call.argts) > 1 else None
            if t is not None and e.f.tk(t) == "adt" and e.f.tdef(t) == self.n.cmd:
                return self.queue(st, call)
        if call.name == "is_would_block" or (call.name == "kind" and "io::Error" in call.p):
            # the failures generated here are never "try again"
            if call.name == "is_would_block":
                return [(st, FALSE)]
            if e.deep(st, call.args[0]) == ("a", "srv", "io_error"):
                return [(st, ("adt", "std::io::ErrorKind", "ConnectionReset", (), None))]
        if call.name == "is_empty" and call.args and "Block" in call.p:
            return None
        if np.endswith("::get_handle") or (call.name == "poll" and b is not None and self.n.peeled(b.l[1]) in
                                           (self.n.pool, "pool::futures::get_handle::GetHandle")):
            return self.pool_handle(st, call)
        return None

    # -------------------------------------------------------------- summaries (each proved as a root of its own)
    def clean_transport(self, e, st, call):
        return ("adt", self.n.transport, None, (("inconsistent", FALSE),), e_fresh(e, st, "clean", call))

    def sum_ready(self, st, call):
        """async fn(&mut handle) -> Result<()>: Ok leaves a connection without unread data, Err leaves anything."""
        e = self.e
        return [(st, ("adt", "fut:summary", None, (("h", call.args[0]), ("site", ("c", call.site))), None))]

    def poll_summary(self, e, st, v, call):
        d = dict(v[3])
        h = e.deref(st, d["h"])
        inner = (h[0], h[1] + ((".", "inner"),))
        out = []
        s = st.copy()
        e.write_loc(s, inner, some(self.clean_transport(e, s, call)))
        s.obs = ("Ping", "done", None, "Pong") + st.obs[4:]
        out.append((s, ready(ok(UNIT))))
        s = st.copy()
        e.write_loc(s, inner, e_fresh(e, s, "anyinner", call))
        out.append((s, ready(err(e_fresh(e, s, "sumerr", call)))))
        return out

    def sum_open(self, st, call):
        e = self.e
        s = st.copy()
        bind = e_fresh(e, s, "openbind", call)
        hd = ("adt", self.n.handle, None, (("inner", some(self.clean_transport(e, s, call))), ("pool", bind)),
              e_fresh(e, s, "opened", call))
        s.obs = ("Hello", "done", None, "Hello") + st.obs[4:]
        s2 = st.copy()
        r = e_fresh(e, s2, "openerr", call)
        return [(s, ("adt", "fut:ready", None, (("v", ok(hd)),), None)),
                (s2, ("adt", "fut:ready", None, (("v", err(r)),), None))]

    def pool_handle(self, st, call):
        if call.name == "poll":
            st = st.copy()
            return [(st, ready(e_fresh(self.e, st, "poolres", call)))]
        return [(st, ("adt", "fut:ready", None, (("v", e_fresh(self.e, st, "poolhandle", call)),), None))]

    def base(self, cmd):
        if cmd.startswith("Union("):
            return cmd[6:-1].split(",")[0]
        return cmd

    def queue(self, st, call):
        e = self.e
        st = st.copy()
        self.cmds += 1
        name = cmd_name(e, st, call.args[1], self.n)
        loc = e.deref(st, call.args[0])
        tr = self.transport_of(st, loc)
        cmd, phase, fail, last = st.obs[:4]
        base = self.base(name)
        if base != "Cancel" and base != "Hello":
            if phase == "wait" and fail is None:
                self.flag("C02", "command %s is queued while the reply to %s has not been read to its end" % (name, cmd), call.site)
            if tr is not None:
                inc = field(tr, "inconsistent")
                k = e.known(st, inc)
                if k is None or k[1] is not False:
                    import os
                    if os.environ.get("DBG"):
                        print("DBG", [x[0] for x in e.stack], tr, inc, [(t, v) for t, v in st.facts.items()])
                    self.flag("C02", "command %s may be queued on a connection still marked as holding unread reply data" % name,
                              call.site)
        st.obs = (name, "wait", None, None) + st.obs[4:]
        return [(st, UNIT)]

    def transport_of(self, st, loc):
        """The transport value a command queue location belongs to."""
        root, proj = loc
        for n in range(len(proj), 0, -1):
            if proj[n - 1] == (".", "cmds"):
                return self.e.read_loc(st, (root, proj[:n - 1]))
        return None

    def flush(self, st, call):
        e = self.e
        out = []
        s = st.copy()
        out.append((s, ready(ok(UNIT))))
        s = st.copy()
        if self.seen_fail(s, call):
            return []
        c, p, f_, l = s.obs[:4]
        s.obs = (c, p, ("write error", None), "write error") + st.obs[4:]
        out.append((s, ready(err(("a", "srv", "io_error")))))
        if self.pending:
            out.append((st.copy(), PENDING))
        return out

    def seen_fail(self, st, call):
        cmd, phase, fail, last = st.obs[:4]
        if fail is not None:
            self.flag("C01", "keeps waiting for the server after %s in reply to %s" % (fail[0], cmd), call.site)
            return True
        return False

    def recv(self, st, call):
        e = self.e
        self.events += 1
        cmd, phase, fail, last = st.obs[:4]
        if self.seen_fail(st, call):
            return []
        if phase == "done":
            self.flag("C01", "waits for another packet after the reply to %s is complete (%s)" % (cmd, last), call.site)
            return []
        base = self.base(cmd)
        end, mid = LEGAL.get(base, (set(), set()))
        out = []

        def add(val, phase2, fail2, last2):
            s = st.copy()
            s.obs = (cmd, phase2, fail2, last2) + st.obs[4:]
            out.append((s, val))
        for v in self.n.packets:
            if v == "Block" and base == "SendData":
                continue
            if v in ("Pong", "Hello") and base == "Cancel":
                continue
            s = st.copy()
            pv = packet_value(e, s, self.n, v, call.site)
            for _, x in pv[3]:
                e.age(s, x)
            val = ready(some(ok(pv)))
            f2 = None
            p2 = "wait"
            if v == "Exception" and base != "Cancel":
                f2 = ("a server exception", v)
                p2 = "done"
            elif v in end:
                p2 = "done"
            elif v not in mid:
                f2 = ("an unexpected %s packet" % v, v)
            elif v in TOLERATED.get(base, ()):
                f2 = None
            if self.insert and base == "SendQuery" and v == "Block":
                p2 = "done"      # the header block is the whole reply the client waits for
            s.obs = (cmd, p2, f2, v) + st.obs[4:]
            out.append((s, val))
        add(ready(NONE), phase, ("the server closing the connection", None), "closed")
        add(ready(some(err(("a", "srv", "io_error")))), phase, ("a socket error", None), "io error")
        if self.pending:
            add(PENDING, phase, fail, last)
        return out

    # -------------------------------------------------------------- writes
    def on_write(self, e, st, loc, old, new, site):
        proj = loc[1]
        if not proj or proj[-1] != (".", "inner"):
            return
        if new[0] != "adt" or new[1] != OPT or new[2] != "Some":
            return
        tr = dict(new[3]).get("0")
        if not self.is_transport(st, tr):
            return
        # a PacketStream also owns its transport in a field called inner: only handles matter
        if not self.is_handle_loc(st, loc):
            return
        cmd, phase, fail, last = st.obs[:4]
        inc = e.known(st, field(tr, "inconsistent"))
        marked = inc is not None and inc[1] is True
        if fail is not None and fail[0] != "a server exception":
            self.flag("C02", "a connection that failed (%s in reply to %s) is put back for further use" % (fail[0], cmd), site)
        elif phase == "wait" and not marked:
            self.flag("C02", "a connection whose reply to %s is not fully read is put back without being marked" % cmd, site)

    def is_transport(self, st, tr):
        return tr is not None

    def is_handle_loc(self, st, loc):
        root, proj = loc
        base = self.e.read_loc(st, (root, proj[:-1]))
        if base[0] == "adt":
            if base[1] == self.n.packet_stream:
                return False
            if base[1] == self.n.handle:
                return True
            names = set(k for k, _ in base[3])
            if "state" in names or "read_block" in names:
                return False
        return True

    # -------------------------------------------------------------- outcomes
    def finish(self, root, outs, is_stream=False):
        for st, v in outs:
            self.returns += 1
            if isinstance(v, Panic):
                self.panics.append((root, v.why, v.site, st.obs))
                continue
            cmd, phase, fail, last = st.obs[:4]
            r = self.e.variant(st, v, RES)
            if r == "Ok" or r is None:
                if fail is not None:
                    self.flag("C01", "%s reports success after %s in reply to %s" % (root, fail[0], cmd), (root, 0, self.e.f.bodies[root].sp))
                elif phase == "wait":
                    self.flag("C01", "%s reports success before the reply to %s is complete (last packet: %s)" % (root, cmd, last),
                              (root, 0, self.e.f.bodies[root].sp))
        return outs


def e_fresh(e, st, tag, call):
    return e.fresh(st, tag, call.site[0], call.site[1])
