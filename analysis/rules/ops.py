"""Runs every client operation against the abstract server (shared by C01, C02, C06, C18)."""
from engine import Limit, Panic, State, RES, POLL, OPT, field, TRUE, FALSE, ready
from session import Session
from transport import Names, Anchor

START = ("none", "none", None, None)


def find(f, name, cls):
    c = [b for b in f.bodies.values() if b.n == name and b.k in ("method", "fn") and b.self_ty is not None
         and f.tk(b.self_ty) == "adt" and f.tdef(b.self_ty).split("::")[-1] == cls and b.trait is None]
    if len(c) != 1:
        raise Anchor("%s::%s" % (cls, name))
    return c[0].p


class Ops:
    def __init__(self, f):
        self.f = f
        self.n = Names(f)
        self.ping = find(f, "ping", "ClientHandle")
        self.execute = find(f, "execute", "ClientHandle")
        self.insert = find(f, "insert", "ClientHandle")
        self.check = find(f, "check_connection", "ClientHandle")
        self.open = find(f, "open", "Client")
        self.connect = find(f, "connect", "Client")
        self.fetch = find(f, "fetch_all", "QueryResult")

    def session(self, root):
        s = Session(self.f, self.n)
        if root == self.check:
            s.summaries = {self.ping: Session.sum_ready, self.open: Session.sum_open}
        elif root == self.connect:
            pass
        elif root not in (self.open, self.ping):
            s.summaries = {self.check: Session.sum_ready}
        s.insert = root == self.insert
        return s

    def run(self, root):
        s = self.session(root)
        outs = s.e.run_async(root, obs=START)
        s.finish(root, outs)
        s.outs = outs
        return s

    def roots(self):
        return [self.ping, self.execute, self.insert, self.check, self.open, self.connect, self.fetch]

    # ---- streaming: every history of polls of a block stream, followed by its drop
    def block_stream(self, polls=3):
        f, n = self.f, self.n
        s = Session(f, n, pending=True)
        e = s.e
        poll = n.stream_poll(n.block_stream)
        new = [b for b in f.bodies.values() if b.argc >= 2 and f.tk(b.l[0]) == "adt" and f.tdef(b.l[0]) == n.block_stream
               and n.packet_stream in [f.tdef(t) for t in b.l[1:b.argc + 1] if f.tk(t) == "adt"]]
        call = [b for b in f.bodies.values() if f.tk(b.l[0]) == "adt" and f.tdef(b.l[0]) == n.packet_stream and b.argc == 2
                and f.tk(b.l[1]) == "adt" and f.tdef(b.l[1]) == n.transport]
        if len(new) != 1 or len(call) != 1:
            raise Anchor("constructor of the block stream / function that queues a command")
        new, call = new[0], call[0]
        client = ("a", "arg", "client")
        st = State(obs=START)
        cell = ("T", "client")
        # the handle gave its transport away
        st.mem[cell] = ("adt", n.handle, None, (("inner", ("adt", OPT, "None", (), None)),), ("a", "arg", "handle"))
        tr = ("adt", n.transport, None, (("inconsistent", FALSE),), ("a", "arg", "transport"))
        cmd = ("adt", n.cmd, "SendQuery", (("0", ("a", "arg", "query")), ("1", ("a", "arg", "ctx"))), None)
        states = []
        for s1, ps in e.run_fn(call.p, [tr, cmd], st):
            args = []
            for t in new.l[1:new.argc + 1]:
                d = n.peeled(t)
                if d == n.handle:
                    args.append(("ref", (cell, ())))
                elif d == n.packet_stream:
                    args.append(ps)
                else:
                    args.append(("a", "arg", "skip_first"))
            for s2, bs in e.run_fn(new.p, args, s1):
                s2 = s2.copy()
                s2.mem[("T", "bs")] = bs
                states.append(s2)
        return s, poll, states
