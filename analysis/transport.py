"""Shared abstraction of the connection: the server, the socket and the command queue.

The real PacketStream, ClientHandle, pool and retry code is analysed; only the two
functions that touch the socket are replaced by "anything the server may do":
  * the function that flushes queued commands  (&mut ClickhouseTransport, &mut Context) -> Poll<Result<()>>
  * <ClickhouseTransport as Stream>::poll_next
"""
from engine import (Engine, State, Panic, OPT, RES, POLL, NONE, PENDING, UNIT, C, some, ok, err, ready)

SRC = ("src/lib.rs", "src/io/transport.rs", "src/pool/", "src/retry_guard.rs", "src/types/query_result/",
       "src/io/mod.rs")


class Anchor(Exception):
    """A construct the rule is about cannot be found."""


def the(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise Anchor("%s: expected exactly one, found %s" % (what, [getattr(x, "p", x) for x in xs]))
    return xs[0]


def adt_path(f, name):
    c = [d for d in f.adts if d == name or d.endswith("::" + name)]
    return the([d for d in c if not d.startswith(("std::", "core::", "alloc::"))] or c, "type " + name)


class Names:
    """Anchors resolved by type, not by position."""

    def __init__(self, f):
        self.f = f
        self.transport = adt_path(f, "ClickhouseTransport")
        self.packet_stream = adt_path(f, "PacketStream")
        self.packet = adt_path(f, "Packet")
        self.cmd = adt_path(f, "Cmd")
        self.handle = adt_path(f, "ClientHandle")
        self.binding = adt_path(f, "PoolBinding")
        self.pool = adt_path(f, "Pool")
        self.block_stream = adt_path(f, "BlockStream")
        self.block = adt_path(f, "Block")
        self.packets = [v["n"] for v in f.adts[self.packet]["v"]]
        for v in ("Hello", "Pong", "Progress", "ProfileInfo", "TableColumns", "Exception", "Block", "Eof"):
            if v not in self.packets:
                raise Anchor("packet kind %s missing" % v)

    def peeled(self, t):
        f = self.f
        t = f.peel(t)
        while f.tk(t) == "adt" and f.tdef(t) in ("std::pin::Pin", "core::pin::Pin"):
            t = f.peel(f.targs(t)[0])
        return f.tdef(t) if f.tk(t) == "adt" else None

    def is_send(self, b):
        """Flushes the queued commands."""
        f = self.f
        return (b.argc == 2 and self.peeled(b.l[1]) == self.transport and f.ts(b.l[0]).startswith("std::task::Poll<std::result::Result<(),")
                and "Context" in f.ts(b.l[2]))

    def transport_poll(self):
        for tr, lst in self.f.timpls.items():
            if tr.endswith("Stream"):
                for selft, items, im in lst:
                    if self.f.tdef(selft) == self.transport and "poll_next" in items:
                        return items["poll_next"]
        raise Anchor("Stream impl of the transport")

    def stream_poll(self, adt):
        for tr, lst in self.f.timpls.items():
            if tr.endswith("Stream"):
                for selft, items, im in lst:
                    if self.f.tk(selft) == "adt" and self.f.tdef(selft) == adt and "poll_next" in items:
                        return items["poll_next"]
        raise Anchor("Stream impl of " + adt)


def make_engine(f, extra=()):
    e = Engine(f)
    e.inline_filter = lambda b: b.sp.startswith(SRC + tuple(extra)) or b.n in ("bind", "chunks") or "::bind::" in b.p
    return e


def cmd_name(e, st, v, names):
    v = e.deep(st, v)
    if v[0] == "adt" and v[1] == names.cmd:
        if v[2] == "Union":
            return "Union(%s)" % ",".join(cmd_name(e, st, x, names) for _, x in v[3])
        return v[2]
    return "?"


def packet_value(e, st, names, variant, tag):
    """A server packet of the given kind, as the transport delivers it (transport slot is ())."""
    ad = names.f.adts[names.packet]
    for v in ad["v"]:
        if v["n"] == variant:
            fs = tuple((fl["n"] if isinstance(fl, dict) else fl, ("a", "srv", variant, str(i)))
                       for i, fl in enumerate(v["f"]))
            return ("adt", names.packet, variant, tuple(sorted(fs)), None)
