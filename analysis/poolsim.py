"""Abstract pool: queues, counters and wakers of pool::Inner, for the rules about the pool.

Tracked in obs (a tuple of sorted (key, value) pairs):
  d        net change of the in-use counter
  dirty    a slot was freed (counter lowered, connection parked, attempt ended) and not everybody was woken since
  popped   a waker was taken out of the queue and not yet woken
  reg      this task's waker is queued;  chk: checks made since then ("idle", "room")
  ev       events (kept short)
Connections are handles with a status cell whose `inside` flag is tracked in memory.
"""
from engine import (Engine, State, Panic, OPT, RES, POLL, NONE, PENDING, UNIT, C, TRUE, FALSE, MOVED, some, ok, err, ready,
                    field, mk_op)
from models import nrm
from transport import Names, make_engine, Anchor


def oget(st, k, d=None):
    for a, b in st.obs:
        if a == k:
            return b
    return d


def oset(st, **kw):
    m = dict(st.obs)
    m.update(kw)
    st.obs = tuple(sorted(m.items()))


START = (("chk", ()), ("d", 0), ("dirty", False), ("idle_in", 0), ("new_in", 0), ("popped", False), ("reg", False))


def field_of(loc):
    for p in reversed(loc[1]):
        if p[0] == ".":
            return p[1]
    return None


def atomic_fields(f, b, methods, among):
    """Names of the fields whose address is passed to the given atomic methods in a body."""
    out = set()
    defs = {}
    for bl in b.b:
        for x in bl["s"]:
            if x[0] == "=" and x[2][0] == "ref" and not x[1][1]:
                fl = [e[1] for e in x[2][2][1] if e[0] == "."]
                if fl:
                    defs[x[1][0]] = fl[-1]
    for bl in b.b:
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "fn" and "tomic" in t[1][1]["p"] and t[1][1]["n"] in methods and t[2]:
            o = t[2][0]
            if o[0] in ("cp", "mv"):
                n = defs.get(o[1][0])
                if n in among:
                    out.add(n)
    return out


class PoolSim:
    def __init__(self, f):
        self.f = f
        self.n = n = Names(f)
        self.e = e = make_engine(f)
        e.max_rec = 3
        self.inner_adt = None
        for p, a in f.adts.items():
            if p == "pool::Inner" or (a.get("local") and p.endswith("::Inner") and p.startswith("pool")):
                self.inner_adt = p
        if self.inner_adt is None:
            raise Anchor("pool::Inner")
        self.qname = {}      # field name -> role
        for fl in f.adts[self.inner_adt]["v"][0]["f"]:
            ts = f.ts(fl["t"])
            if "ArrayQueue" in ts and "ClientHandle>" in ts and "Pin" not in ts and "Box" not in ts:
                self.qname[fl["n"]] = "idle"
            elif "ArrayQueue" in ts:
                self.qname[fl["n"]] = "new"
            elif "SegQueue" in ts and "Waker" in ts:
                self.qname[fl["n"]] = "tasks"
        subs = set()
        for b in f.bodies.values():
            subs |= atomic_fields(f, b, ("fetch_sub",), {fl["n"] for fl in f.adts[self.inner_adt]["v"][0]["f"]})
        for x in subs or {"ongoing"}:
            self.qname[x] = "ongoing"
        roles = set(self.qname.values())
        if not {"idle", "new", "tasks", "ongoing"} <= roles:
            raise Anchor("queues and counter of the pool: found %s" % sorted(roles))
        status = [p for p, a in f.adts.items() if a.get("local") and p.endswith("TransportStatus")]
        if len(status) != 1:
            raise Anchor("TransportStatus")
        self.status = status[0]
        e.glue = {n.handle, n.transport, self.status, n.packet_stream}
        e.hooks.append(self.hook)
        self.viol = []
        self.obl = []
        self.pushes = []      # (queue, state facts snapshot, value, site, obs)
        self.atomic_sites = set()
        self.inside_sites = set()
        self.pool_poll = None
        for b in f.bodies.values():
            if b.k == "method" and b.argc == 2 and n.peeled(b.l[1]) == n.pool and "Poll<std::result::Result<ClientHandle" in f.ts(b.l[0]):
                self.pool_poll = b.p
        self.nested = 0
        self.cnt = 0
        self.idle_len = []

    def flag(self, rule, msg, site):
        v = (rule, msg, site[0], site[2])
        if v not in self.viol:
            self.viol.append(v)

    def conn(self, st, tag, inside, binding):
        """A handle owning a connection."""
        n = self.n
        stat = ("a", "status", tag)
        st.mem[("H", stat)] = ("adt", self.status, None, (("inside", inside),), ("a", "statusbase", tag))
        tr = ("adt", n.transport, None, (("status", stat),), ("a", "transport", tag))
        return ("adt", n.handle, None, (("inner", some(tr)), ("pool", binding)), ("a", "handle", tag))

    def inside_of(self, st, handle):
        inner = field(handle, "inner")
        if self.e.variant(st, inner, OPT) != "Some":
            return None
        stat = field(self.e.payload(inner, "Some"), "status")
        cell = self.e.read_loc(st, self.e.deref(st, stat))
        return self.e.known(st, field(cell, "inside"))

    # ------------------------------------------------------------------ hooks
    def hook(self, e, st, call):
        np = nrm(call.p)
        if self.pool_poll and call.path == self.pool_poll and any(x[0] == self.pool_poll for x in e.stack):
            self.nested += 1
            if oget(st, "dirty"):
                self.flag("C04", "tries again before waking the tasks waiting for a freed slot", call.site)
            if oget(st, "d") != 0:
                self.flag("C03", "in-use counter changed by %d before trying again" % oget(st, "d"), call.site)
            return []
        if "ArrayQueue" in np or "SegQueue" in np:
            loc = e.deref(st, call.args[0]) if call.args else None
            role = self.qname.get(field_of(loc)) if loc else None
            if role is None:
                return None
            return self.queue(e, st, call, role)
        if np.endswith("Weak::upgrade"):
            s1, s2 = st.copy(), st.copy()
            oset(s1, alive=False)
            oset(s2, alive=True)
            return [(s1, NONE), (s2, some(("a", "poolinner")))]
        if "sync::atomic" in np or "Atomic" in np:
            if call.name == "new" and call.args and call.args[0][0] == "c" and isinstance(call.args[0][1], bool):
                return [(st, call.args[0])]
            loc = e.deref(st, call.args[0]) if call.args else None
            fl = field_of(loc) if loc else None
            if fl == "inside" or (loc and "Atomic<bool>" in e.f.ts(e.f.peel(call.argts[0])) if call.argts and call.argts[0] is not None else False):
                if call.name == "store":
                    st = st.copy()
                    e.write_loc(st, loc, call.args[1])
                    self.inside_sites.add(call.site[0])
                    return [(st, UNIT)]
                if call.name == "load":
                    return [(st, e.read_loc(st, loc))]
                if call.name == "swap":
                    st = st.copy()
                    old = e.read_loc(st, loc)
                    e.write_loc(st, loc, call.args[1])
                    self.inside_sites.add(call.site[0])
                    return [(st, old)]
                if call.name == "new":
                    return [(st, call.args[0])]
            if self.qname.get(fl) == "ongoing":
                return self.counter(e, st, call)
            return None
        if np.endswith("Waker::wake") or np.endswith("Waker::wake_by_ref"):
            st = st.copy()
            if oget(st, "popped"):
                oset(st, popped=False)
            return [(st, UNIT)]
        if call.name == "poll_unpin" or (call.name == "poll" and nrm(call.trait or "").endswith("Future")):
            v = call.args[0]
            k = 0
            while v[0] == "ref" and k < 6:
                v = e.read_loc(st, v[1])
                k += 1
            if v[0] == "a" and v[1] == "newfut":
                return self.poll_new(e, st, call)
        return None

    def poll_new(self, e, st, call):
        out = []
        s = st.copy()
        h = self.conn(s, "opened", TRUE, ("adt", self.n.binding, "Detached", (("0", ("a", "pool")),), None))
        oset(s, dirty=True)
        out.append((s, ready(ok(h))))
        s = st.copy()
        oset(s, dirty=True)
        out.append((s, ready(err(("a", "openerr")))))
        s = st.copy()
        oset(s, polled=True)
        out.append((s, PENDING))
        return out

    def counter(self, e, st, call):
        st = st.copy()
        self.atomic_sites.add(call.site[0])
        if call.name == "load":
            return [(st, ("a", "ongoing", oget(st, "d")))]
        if call.name in ("fetch_add", "fetch_sub"):
            amt = call.args[1]
            if amt != ("c", 1):
                self.flag("C03", "in-use counter changed by an amount other than one", call.site)
            dlt = 1 if call.name == "fetch_add" else -1
            d = oget(st, "d") + dlt
            if abs(d) > 4:
                self.flag("C03", "in-use counter changed repeatedly on one path", call.site)
                return []
            oset(st, d=d)
            if dlt < 0:
                oset(st, dirty=True)
            return [(st, ("a", "oldongoing"))]
        self.flag("C03", "in-use counter modified by %s" % call.name, call.site)
        return [(st, ("a", "oldongoing"))]

    def qlen(self, st, role):
        return ("a", role + "len", oget(st, "ep_" + role, 0))

    def bump(self, st, role):
        oset(st, **{"ep_" + role: min(oget(st, "ep_" + role, 0) + 1, 9)})

    def queue(self, e, st, call, role):
        name = call.name
        st = st.copy()
        self.cnt += 1
        if role == "tasks":
            if name == "pop":
                if oget(st, "popped"):
                    self.flag("C04", "a waiting task is taken out of the queue without being woken", call.site)
                s1, s2 = st.copy(), st
                oset(s1, dirty=False, popped=False)
                oset(s2, popped=True)
                return [(s1, NONE), (s2, some(("a", "waker")))]
            if name == "push":
                oset(st, reg=True, chk=())
                self.pushes.append((role, st.copy(), e.deep(st, call.args[1]), call.site))
                return [(st, UNIT)]
            return [(st, ("a", "taskslen"))] if name == "len" else None
        if role == "idle":
            if name == "pop":
                s1, s2 = st.copy(), st
                if oget(s1, "reg"):
                    oset(s1, chk=tuple(sorted(set(oget(s1, "chk")) | {"idle"})))
                self.bump(s2, "idle")
                h = self.conn(s2, "idle", TRUE, ("adt", self.n.binding, "None", (), None))
                return [(s1, NONE), (s2, some(h))]
            if name in ("push", "force_push"):
                v = call.args[1]
                self.pushes.append((role, st.copy(), v, call.site))
                s1, s2 = st.copy(), st
                oset(s1, dirty=True, idle_in=min(oget(s1, "idle_in") + 1, 3))
                self.bump(s1, "idle")
                return [(s1, ok(UNIT)), (s2, err(v))]
            if name == "len":
                if oget(st, "reg"):
                    oset(st, chk=tuple(sorted(set(oget(st, "chk")) | {"room"})))
                return [(st, self.qlen(st, "idle"))]
            if name == "is_full":
                return [(st, ("a", "idlefull"))]
            if name == "is_empty":
                return [(st, mk_op("Eq", self.qlen(st, "idle"), C(0)))]
        if role == "new":
            if name == "pop":
                s1, s2 = st.copy(), st
                self.bump(s2, "new")
                oset(s1, fresh=False)
                oset(s2, fresh=False)
                return [(s1, NONE), (s2, some(("a", "newfut")))]
            if name in ("push", "force_push"):
                v = call.args[1]
                self.pushes.append((role, st.copy(), v, call.site))
                s1, s2 = st.copy(), st
                oset(s1, new_in=min(oget(s1, "new_in") + 1, 3))
                self.bump(s1, "new")
                if e.deep(s1, v) != ("a", "newfut"):
                    oset(s1, fresh=True)
                if oget(s2, "reg"):
                    oset(s2, chk=tuple(sorted(set(oget(s2, "chk")) | {"room"})))
                return [(s1, ok(UNIT)), (s2, err(v))]
            if name == "len":
                return [(st, self.qlen(st, "new"))]
            if name == "is_empty":
                return [(st, mk_op("Eq", self.qlen(st, "new"), C(0)))]
            if name == "is_full":
                return [(st, ("a", "newfull"))]
        return None

    # ------------------------------------------------------------------ roots
    def get_handle(self):
        """Any poll of a pool future, in any pool state."""
        f = self.f
        p = [b.p for b in f.bodies.values() if b.n == "poll" and b.trait and b.self_ty is not None
             and f.tk(b.self_ty) == "adt" and f.tdef(b.self_ty).endswith("GetHandle")]
        if len(p) != 1 or self.pool_poll is None:
            raise Anchor("GetHandle::poll")
        st = State(obs=START)
        return p[0], self.e.run_fn(p[0], st=st)

    def handle_drop(self, inner, binding):
        """Drop of a handle; counted (in use) iff it has a pool and a connection."""
        st = State(obs=START)
        n = self.n
        b = ("adt", n.binding, binding, (), None) if binding == "None" else \
            ("adt", n.binding, binding, (("0", ("a", "pool")),), None)
        counted = inner and binding != "None"
        h = self.conn(st, "h", FALSE if counted else TRUE, b)
        if not inner:
            h = ("adt", n.handle, None, (("inner", NONE), ("pool", b)), ("a", "handle", "h"))
        cell = ("T", "h")
        st.mem[cell] = h
        ty = [b2.l[1] for b2 in self.f.bodies.values() if b2.p == self.e.drop_impl(n.handle)]
        if not ty:
            raise Anchor("Drop impl of the handle")
        t = self.f.targs(ty[0])[0]
        out = []
        for s in self.e.drop_value(st, (cell, ()), t, ("drop ClientHandle", 0, self.f.bodies[self.e.drop_impl(n.handle)].sp)):
            if isinstance(s, tuple):
                out.append(s)
            else:
                out.append((s, UNIT))
        return out

    def status_drop(self, inside):
        st = State(obs=START)
        d = self.e.drop_impl(self.status)
        if d is None:
            raise Anchor("Drop impl of TransportStatus")
        stat = ("a", "status", "s")
        st.mem[("H", stat)] = ("adt", self.status, None, (("inside", inside),), ("a", "statusbase", "s"))
        return d, self.e.run_fn(d, [("ref", (("H", stat), ()))], st)
