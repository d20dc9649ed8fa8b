"""Path-sensitive dataflow over MIR.

Abstract values are value numbers (hashable tuples); enum variants and constants are
tracked exactly, everything else is an opaque term naming where the value came from.
Local functions, closures and async bodies are analysed in the caller's context; loops
are taken to a fixpoint with widening at loop heads.  There is no solver: a branch is
decided only when the very same term was already decided on the path.

Value forms
  ("c", v)                      constant
  ("unit",)
  ("a", name...)                opaque atom
  ("fld", base, field)          field of an opaque value
  ("dc", base, Variant)         opaque enum viewed as Variant
  ("deref", ptr)                what an opaque pointer points to (initial content)
  ("op", name, a[, b])          arithmetic / comparison term
  ("cast", ty, v)
  ("discr", v)
  ("fn", path, info_key)        function item
  ("adt", path, variant|None, fields(tuple of (name, value)), base|None)
  ("tup", (values))
  ("clo"|"cor", path, (upvars))
  ("arr", (values))
  ("ref", (root, proj))         pointer to a tracked location
  ("moved",)
"""
import sys
sys.setrecursionlimit(20000)

UNIT = ("unit",)
MOVED = ("moved",)
TRUE = ("c", True)
FALSE = ("c", False)

OPT = "std::option::Option"
RES = "std::result::Result"
POLL = "std::task::Poll"
CF = "std::ops::ControlFlow"


class Limit(Exception):
    pass


def C(v):
    return ("c", v)


def some(v):
    return ("adt", OPT, "Some", (("0", v),), None)


NONE = ("adt", OPT, "None", (), None)


def ok(v):
    return ("adt", RES, "Ok", (("0", v),), None)


def err(v):
    return ("adt", RES, "Err", (("0", v),), None)


def ready(v):
    return ("adt", POLL, "Ready", (("0", v),), None)


PENDING = ("adt", POLL, "Pending", (), None)

_NEG = {}


def mk_op(name, *args):
    """Normalised operator term."""
    if name in ("Gt",):
        return mk_op("Lt", args[1], args[0])
    if name == "Ge":
        return mk_not(mk_op("Lt", args[0], args[1]))
    if name == "Le":
        return mk_not(mk_op("Lt", args[1], args[0]))
    if name == "Ne":
        return mk_not(mk_op("Eq", args[0], args[1]))
    if len(args) == 2 and args[0][0] == "c" and args[1][0] == "c":
        a, b = args[0][1], args[1][1]
        try:
            if name == "Eq":
                return C(a == b)
            if name == "Lt":
                return C(a < b)
            if isinstance(a, bool) and isinstance(b, bool):
                if name == "BitAnd":
                    return C(a and b)
                if name == "BitOr":
                    return C(a or b)
                if name == "BitXor":
                    return C(a != b)
            elif isinstance(a, int) and isinstance(b, int):
                if name == "Add":
                    return C(a + b)
                if name == "Sub":
                    return C(a - b)
                if name == "Mul":
                    return C(a * b)
                if name == "Div" and b:
                    return C(a // b)
                if name == "Rem" and b:
                    return C(a % b)
                if name == "BitAnd":
                    return C(a & b)
                if name == "BitOr":
                    return C(a | b)
                if name == "Shl" and 0 <= b < 128:
                    return C(a << b)
                if name == "Shr" and 0 <= b < 128:
                    return C(a >> b)
        except TypeError:
            pass
    if name == "Eq":
        a, b = args
        if a == b:
            return TRUE
        # bool compared with constants
        if b[0] == "c" and isinstance(b[1], bool):
            return a if b[1] else mk_not(a)
        if a[0] == "c" and isinstance(a[1], bool):
            return b if a[1] else mk_not(b)
        if a[0] == "c" or (b[0] != "c" and repr(a) > repr(b)):
            a, b = b, a
        return ("op", "Eq", a, b)
    if name == "Lt" and args[0] == args[1]:
        return FALSE
    if name in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and repr(args[0]) > repr(args[1]):
        args = (args[1], args[0])
    if name in ("Add", "Sub") and args[1] == ("c", 0):
        return args[0]
    if name == "Add" and args[0] == ("c", 0):
        return args[1]
    if name == "Mul":
        for i in (0, 1):
            if args[i] == ("c", 1):
                return args[1 - i]
    return ("op", name) + tuple(args)


def mk_not(a):
    if a[0] == "c":
        return C(not a[1])
    if a[0] == "op" and a[1] == "Not":
        return a[2]
    return ("op", "Not", a)


class State:
    __slots__ = ("mem", "facts", "obs")

    def __init__(self, mem=None, facts=None, obs=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.obs = obs

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.obs)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.obs)

    def with_obs(self, obs):
        s = self.copy()
        s.obs = obs
        return s


class Panic:
    """Outcome value for a path that panics."""
    __slots__ = ("why", "site")

    def __init__(self, why, site):
        self.why = why
        self.site = site


def adt_get(v, f):
    for k, x in v[3]:
        if k == f:
            return x
    base = v[4]
    if base is None:
        return ("a", "undef", f)
    if v[2] is not None and base[0] != "adt":
        return ("fld", ("dc", base, v[2]), f)
    return field(base, f)


def adt_set(v, f, x):
    fs = [(k, y) for k, y in v[3] if k != f]
    fs.append((f, x))
    fs.sort(key=lambda t: t[0])
    return ("adt", v[1], v[2], tuple(fs), v[4])


def field(v, f):
    k = v[0]
    if k == "adt":
        return adt_get(v, f)
    if k == "tup":
        return v[1][int(f)] if f.isdigit() and int(f) < len(v[1]) else ("fld", v, f)
    if k in ("clo", "cor"):
        return v[2][int(f)] if f.isdigit() and int(f) < len(v[2]) else ("fld", v, f)
    return ("fld", v, f)


def subterms(v, acc):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            acc.add(v)
        for x in v:
            if isinstance(x, tuple):
                subterms(x, acc)
    return acc


def refs(v):
    """Roots of the pointers inside a value."""
    out = []
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple):
            continue
        if len(x) == 2 and x[0] == "ref":
            out.append(x[1][0])
            st.append(x[1])
            continue
        for y in x:
            if isinstance(y, tuple):
                if y and y[0] in ("B", "Bold", "K"):
                    out.append(y)
                st.append(y)
    return out


def stable(v, n=10):
    """Terms that cannot grow around a loop: projections of atoms."""
    while True:
        if n == 0:
            return False
        n -= 1
        if v[0] == "a":
            return True
        if v[0] in ("fld", "dc", "deref"):
            v = v[1]
            continue
        return False


def contains(v, t):
    if v == t:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and contains(x, t):
                return True
    return False


def replace(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            y = replace(x, a, b) if isinstance(x, tuple) else x
            ch = ch or (y is not x)
            out.append(y)
        return tuple(out) if ch else v
    return v


def root_of_fields(v):
    """For x.a.b.c returns (x, ['a','b','c']) skipping dc."""
    fs = []
    while v[0] in ("fld", "dc", "deref", "cast"):
        if v[0] == "fld":
            fs.append(v[2])
            v = v[1]
        elif v[0] == "dc":
            v = v[1]
        elif v[0] == "deref":
            v = v[1]
        else:
            v = v[2]
    return v, list(reversed(fs))


class Engine:
    MAX_STATES = 6000000
    MAX_HEAD = 4000
    MAX_DEPTH = 24

    def __init__(self, facts):
        self.f = facts
        self.hooks = []          # list of fn(engine, st, call) -> None | list of (st, value|Panic)
        self.no_inline = set()   # paths never inlined
        self.inline_filter = None
        self.str_bytes = False   # text constants have a length and bytes
        self.keep_dead = False   # locals keep their values after they go out of scope
        self.drop_hook = None    # fn(engine, st, loc, ty, site) -> None | list of st
        self.assert_hook = None
        self.write_hook = None   # fn(engine, st, loc, old, new, site)
        self.info = {}           # info_key -> callee info dict
        self.discr_adt = {}      # discr term -> adt path
        self.steps = 0
        self.called = set()      # bodies analysed
        self.unknown_calls = {}
        self.stack = []
        self.tenvs = []
        self.callstack_names = []
        from models import MODELS, model_call
        self.MODELS = MODELS
        self.model_call = model_call
        self.trace_bodies = None
        self.skip_logs = True
        self.gc_returns = True
        self.max_rec = 1
        self.head_hook = None    # fn(engine, st, body, fid, head, nth visit): may change st
        self.no_widen = False    # follow loops iteration by iteration
        self.unroll = False      # keep integer constants apart at loop heads
        self.glue = None         # types whose destructors are analysed
        self._int = {}
        self.deadlines = []      # durations of the timeouts the current point runs under
        self.record_calls = None
        self.panic_on_unwrap = True
        self.opaque_return_hook = None
        self.opaque_mut_hook = None
        self.deref_hook = None   # called for every dereference of a raw pointer whose target is not tracked
        self.await_prov = False  # outputs of futures we do not look into name the future

    # ------------------------------------------------------------ memory
    def read_loc(self, st, loc):
        root, proj = loc
        v = st.mem.get(root)
        if v is None:
            if root[0] == "H":
                v = root[1] if self.str_bytes and root[1][0] == "c" else ("deref", root[1])
            else:
                v = ("a", "uninit", root)
        for e in proj:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if e[0] == ".":
            return field(v, e[1])
        if e[0] == "as":
            if v[0] == "adt":
                return v
            return ("dc", v, e[1])
        if e[0] == "[]":
            if v[0] == "arr" and e[1][0] == "c" and isinstance(e[1][1], int) and e[1][1] < len(v[1]):
                return v[1][e[1][1]]
            if self.str_bytes and e[1][0] == "c":
                x = v[1] if v[0] == "deref" else v
                if x[0] == "c" and isinstance(x[1], str) and x[1].isascii() and e[1][1] < len(x[1]):
                    return C(ord(x[1][e[1][1]]))
            return ("idx", v, e[1])
        return ("proj", v, e)

    def write_loc(self, st, loc, val):
        root, proj = loc
        if not proj:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = ("deref", root[1]) if root[0] == "H" else ("a", "uninit", root)
        st.mem[root] = self.update(v, proj, val)

    def update(self, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == ".":
            f = e[1]
            k = v[0]
            if k == "dc":
                # opaque enum known to be this variant
                nv = ("adt", "?", v[2], (), v[1])
                return adt_set(nv, f, self.update(field(v, f), proj[1:], val))
            if k == "tup" and f.isdigit() and int(f) < len(v[1]):
                l = list(v[1])
                l[int(f)] = self.update(l[int(f)], proj[1:], val)
                return ("tup", tuple(l))
            if k in ("clo", "cor") and f.isdigit() and int(f) < len(v[2]):
                l = list(v[2])
                l[int(f)] = self.update(l[int(f)], proj[1:], val)
                return (k, v[1], tuple(l))
            if k == "adt":
                return adt_set(v, f, self.update(adt_get(v, f), proj[1:], val))
            nv = ("adt", "?", None, (), v)
            return adt_set(nv, f, self.update(field(v, f), proj[1:], val))
        if e[0] == "as":
            if v[0] == "adt":
                return self.update(v, proj[1:], val)
            return self.update(("dc", v, e[1]), proj[1:], val)
        # index / other: weak update
        if e[0] == "[]" and v[0] == "arr" and e[1][0] == "c" and isinstance(e[1][1], int) and e[1][1] < len(v[1]):
            l = list(v[1])
            l[e[1][1]] = self.update(l[e[1][1]], proj[1:], val)
            return ("arr", tuple(l))
        return ("upd", v if v[0] != "upd" else v[1], e, val if len(proj) == 1 else ("a", "part"))

    def place_loc(self, st, fid, p):
        """Resolve a MIR place to a tracked location."""
        root = ("L", fid, p[0])
        proj = ()
        for n, e in enumerate(p[1]):
            if e[0] == "*":
                v = self.read_loc(st, (root, proj))
                if v[0] == "ref":
                    root, proj = v[1]
                else:
                    root, proj = ("H", v), ()
                    if self.deref_hook is not None:
                        self.deref_hook(st, v, p, n)
            elif e[0] == ".":
                proj = proj + ((".", e[1]),)
            elif e[0] == "as":
                proj = proj + (("as", e[1]),)
            elif e[0] == "[]":
                iv = self.read_loc(st, (("L", fid, e[1]), ()))
                proj = proj + (("[]", iv),)
            elif e[0] == "[c]":
                proj = proj + (("[]", C(e[1]) if not e[2] else ("fromend", e[1])),)
            else:
                proj = proj + (tuple(map(str, e)),)
        return root, proj

    def deref(self, st, v):
        """Location an already evaluated pointer value refers to."""
        if v[0] == "ref":
            return v[1]
        return (("H", v), ())

    def rd(self, st, v):
        """Content a pointer value refers to."""
        return self.read_loc(st, self.deref(st, v))

    def deep(self, st, v, n=6):
        """Follow pointers to the content."""
        while v[0] == "ref" and n:
            v = self.read_loc(st, v[1])
            n -= 1
        return v

    def operand(self, st, fid, o, body):
        k = o[0]
        if k == "cp":
            return self.read_loc(st, self.place_loc(st, fid, o[1]))
        if k == "mv":
            loc = self.place_loc(st, fid, o[1])
            v = self.read_loc(st, loc)
            if not self.is_copy(o[1][2]):
                if loc[0][0] == "L":
                    self.write_loc(st, loc, MOVED)
            return v
        if k == "fn":
            info = o[1]
            key = self.info_key(info)
            return ("fn", info.get("r") or info["p"], key)
        if k == "c":
            c = o[1]
            if "v" in c:
                v = c["v"]
                if self.f.tk(c["t"]) == "bool":
                    v = bool(v)
                return C(v)
            if self.f.ts(c["t"]) == "()":
                return UNIT
            if "path" in c:
                return ("a", "const", c["path"])
            return ("a", "constv", c.get("dbg", "?"))
        return ("a", "rt")

    def info_key(self, info):
        k = (info.get("r") or info["p"], info["p"], tuple(info.get("a", ())))
        self.info[k] = info
        return k

    def is_copy(self, t):
        k = self.f.tk(t)
        if k in ("int", "uint", "bool", "char", "float", "ptr"):
            return True
        if k == "ref":
            return not self.f.types[t].get("m")
        return False

    # ------------------------------------------------------------ facts
    def known(self, st, t):
        """Constant a term is known to equal, or None."""
        if t[0] == "c":
            return t
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return C(f[1])
        if t[0] == "op" and t[1] == "Not":
            k = self.known(st, t[2])
            return None if k is None else C(not k[1])
        if t[0] == "op" and t[1] == "Eq" and t[3][0] == "c":
            f = st.facts.get(t[2])
            if f is not None:
                if f[0] == "=":
                    return C(f[1] == t[3][1])
                if f[0] == "!=" and t[3][1] in f[1]:
                    return FALSE
        if t[0] == "op" and t[1] in ("BitAnd", "BitOr") and len(t) == 4:
            a, b = self.known(st, t[2]), self.known(st, t[3])
            absorb = (t[1] == "BitOr")
            for x in (a, b):
                if x is not None and x[1] is absorb:
                    return C(absorb)
            if a is not None and b is not None and isinstance(a[1], bool):
                return C(a[1] and b[1]) if t[1] == "BitAnd" else C(a[1] or b[1])
        return None

    def assume(self, st, t, val):
        """Record t == val (python constant). Returns False if contradictory."""
        if t[0] == "c":
            return t[1] == val
        k = self.known(st, t)
        if k is not None:
            return k[1] == val
        if t[0] == "op" and t[1] == "Not":
            return self.assume(st, t[2], not val)
        if t[0] == "op" and t[1] == "Eq" and t[3][0] == "c":
            if val:
                if not self.assume(st, t[2], t[3][1]):
                    return False
            else:
                if not self.assume_ne(st, t[2], {t[3][1]}):
                    return False
        if t[0] == "op" and t[1] == "BitAnd" and val is True:
            return self.assume(st, t[2], True) and self.assume(st, t[3], True)
        if t[0] == "op" and t[1] == "BitOr" and val is False:
            return self.assume(st, t[2], False) and self.assume(st, t[3], False)
        f = st.facts.get(t)
        if f is not None and f[0] == "!=" and val in f[1]:
            return False
        st.facts[t] = ("=", val)
        return True

    def assume_ne(self, st, t, vals):
        if t[0] == "c":
            return t[1] not in vals
        if isinstance(next(iter(vals)), bool) and t[0] in ("op",) and len(vals) == 1:
            return self.assume(st, t, not next(iter(vals)))
        f = st.facts.get(t)
        if f is not None:
            if f[0] == "=":
                return f[1] not in vals
            vals = set(vals) | set(f[1])
        ad = self.discr_adt.get(t)
        if ad is not None:
            allv = set(v["d"] for v in self.f.adts[ad]["v"])
            rest = allv - set(vals)
            if not rest:
                return False
            if len(rest) == 1:
                st.facts[t] = ("=", rest.pop())
                return True
        st.facts[t] = ("!=", frozenset(vals))
        return True

    def discr_of(self, st, v, adt=None):
        """Discriminant term of an enum value."""
        if v[0] == "adt" and v[2] is not None:
            path = v[1] if v[1] in self.f.adts else adt
            if path in self.f.adts:
                d = self.f.discr(path, v[2])
                if d is not None:
                    return C(d)
        if v[0] == "adt" and v[2] is None and v[4] is not None:
            return self.discr_of(st, v[4], adt)
        t = ("discr", v)
        if adt is not None and adt in self.f.adts:
            self.discr_adt[t] = adt
        return t

    def variant(self, st, v, adt):
        """Variant name if known on this path, else None."""
        if v[0] == "adt" and v[2] is not None:
            return v[2]
        t = self.discr_of(st, v, adt)
        k = self.known(st, t)
        if k is not None:
            return self.f.variant_of(adt, k[1])
        return None

    def split(self, st, v, adt):
        """Fork on the variant of v: yields (state, variant name)."""
        name = self.variant(st, v, adt)
        if name is not None:
            return [(st, name)]
        out = []
        t = self.discr_of(st, v, adt)
        for var in self.f.adts[adt]["v"]:
            s2 = st.copy()
            if self.assume(s2, t, var["d"]):
                out.append((s2, var["n"]))
        return out

    def payload(self, v, variant, f="0"):
        if v[0] == "adt":
            if v[2] is None and v[4] is not None:
                return ("fld", ("dc", v, variant), f)
            return adt_get(v, f)
        return ("fld", ("dc", v, variant), f)

    # ------------------------------------------------------------ atoms
    def fresh(self, st, *name):
        """Atom for an unknown result at a program point; an older value of the same
        point still stored in the state is renamed so the two are not equated."""
        a = ("a",) + name
        self.age(st, a)
        return a

    def age(self, st, a):
        old = ("a", "old") + a[1:]
        touched = False
        for r, v in list(st.mem.items()):
            if contains(v, a) or contains(r, a):
                nv, nr = replace(v, a, old), replace(r, a, old)
                if nr != r:
                    del st.mem[r]
                st.mem[nr] = nv
                touched = True
        for t in [t for t in st.facts if contains(t, a)]:
            f = st.facts.pop(t)
            if touched:
                # keep what is known about the older value
                nt = replace(t, a, old)
                if nt not in st.facts:
                    if t in self.discr_adt:
                        self.discr_adt[nt] = self.discr_adt[t]
                    st.facts[nt] = f
                elif st.facts[nt] != f:
                    del st.facts[nt]
        if st.obs is not None and isinstance(st.obs, tuple) and contains(st.obs, a):
            st.obs = replace(st.obs, a, old)

    # ------------------------------------------------------------ running
    def call_body(self, st, body, args, site):
        """Analyse `body` with argument values; returns list of (state, value|Panic)."""
        if len(self.stack) >= self.MAX_DEPTH:
            raise Limit("inlining depth at %s" % body.p)
        fid = len(self.stack)
        self.called.add(body.p)
        self.stack.append((body.p, site))
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        try:
            res = self.run(st, body, fid)
        finally:
            self.stack.pop()
        out = []
        seen = set()
        for s, v in res:
            for k in [k for k in s.mem if k[0] == "L" and k[1] >= fid]:
                del s.mem[k]
            if self.gc_returns:
                self.gc(s, fid, None if isinstance(v, Panic) else v)
            if isinstance(v, Panic):
                kk = (s.key(), "panic", v.why, v.site)
            else:
                kk = (s.key(), v)
            if kk in seen:
                continue
            seen.add(kk)
            out.append((s, v))
        return out

    def run(self, st0, body, fid):
        results = []
        loops = body.loops()
        heads = {}
        work = [(0, st0)]
        while work:
            bi, st = work.pop()
            self.steps += 1
            if self.steps > self.MAX_STATES:
                raise Limit("state budget in %s" % body.p)
            if bi in loops:
                st = self.at_head(st, body, fid, bi, heads)
                if st is None:
                    continue
            bl = body.b[bi]
            site = (body.p, bi, bl["sp"])
            for s in bl["s"]:
                self.stmt(st, fid, body, s, site)
            t = bl["t"]
            k = t[0]
            if k == "goto":
                work.append((t[1], st))
            elif k == "switch":
                v = self.operand(st, fid, t[1], body)
                isbool = self.switch_is_bool(body, t[1])
                kn = self.known(st, v)
                if kn is not None:
                    val = kn[1]
                    tgt = t[3]
                    for c, b in t[2]:
                        if (bool(c) == val if isbool else c == val):
                            tgt = b
                            break
                    work.append((tgt, st))
                else:
                    vals = []
                    for c, b in t[2]:
                        cv = bool(c) if isbool else c
                        vals.append(cv)
                        s2 = st.copy()
                        if self.assume(s2, v, cv):
                            work.append((b, s2))
                    s2 = st.copy()
                    if isbool and len(vals) == 1:
                        if self.assume(s2, v, not vals[0]):
                            work.append((t[3], s2))
                    elif self.assume_ne(s2, v, set(vals)):
                        work.append((t[3], s2))
            elif k == "ret":
                rv = st.mem.get(("L", fid, 0), UNIT)
                results.append((st, rv))
            elif k == "drop":
                for s2 in self.do_drop(st, fid, body, t, site):
                    if isinstance(s2, tuple):
                        results.append(s2)
                    else:
                        work.append((t[2], s2))
            elif k == "assert":
                cv = self.operand(st, fid, t[1], body)
                outs = None
                if self.assert_hook:
                    ops = [self.operand(st, fid, o, body) for o in t[4]]
                    outs = self.assert_hook(self, st, body, t[3], cv, ops, site)
                if outs is None:
                    work.append((t[5], st))
                else:
                    for s2, v in outs:
                        if isinstance(v, Panic):
                            results.append((s2, v))
                        else:
                            work.append((t[5], s2))
            elif k == "yield":
                work.append((t[2], st))
            elif k == "call":
                outs = self.call_term(st, fid, body, t, site)
                for s2, v in outs:
                    if isinstance(v, Panic):
                        results.append((s2, v))
                        continue
                    if t[4] is None:
                        continue
                    loc = self.place_loc(s2, fid, t[3])
                    if self.write_hook and loc[0][0] != "L":
                        self.write_hook(self, s2, loc, self.read_loc(s2, loc), v, site)
                    self.write_loc(s2, loc, v)
                    work.append((t[4], s2))
            # unreachable / resume / abort: path ends
        return results

    def switch_is_bool(self, body, o):
        if o[0] in ("cp", "mv"):
            return self.f.tk(o[1][2]) == "bool"
        if o[0] == "c":
            return self.f.tk(o[1]["t"]) == "bool"
        return False

    # ---- loops
    def at_head(self, st, body, fid, bi, heads):
        rec = heads.setdefault(bi, {"n": 0, "first": None, "seen": set()})
        rec["n"] += 1
        if rec["n"] > self.MAX_HEAD:
            raise Limit("loop head states in %s bb%d" % (body.p, bi))
        if self.head_hook and self.head_hook(self, st, body, fid, bi, rec["n"]) == "cut":
            return None
        self.gc(st, fid)
        if self.no_widen:
            return st            # the caller bounds the number of iterations
        if rec["first"] is None:
            rec["first"] = [dict(st.mem)]
        else:
            f0 = rec["first"][0]
            tag = ("phi", body.p, bi)
            for root in list(st.mem):
                if root not in f0:
                    continue
                st.mem[root] = self.widen(st, f0[root], st.mem[root], tag + (root,))
            self.gc(st, fid)
        k = st.key()
        if k in rec["seen"]:
            return None
        rec["seen"].add(k)
        return st

    def widen(self, st, a, b, tag):
        if a == b:
            return b
        if b == MOVED:
            return b
        if b[0] == "c":
            if isinstance(b[1], bool) or self.unroll:
                return b
            if a[0] == "c" or a[0] == "a":
                if a == ("a",) + tag:
                    return a
            return ("a",) + tag
        if b[0] == "adt":
            if a[0] == "adt" and a[1] == b[1] and a[2] == b[2]:
                fa = dict(a[3])
                fs = tuple((k, self.widen(st, fa.get(k, ("a", "none")), x, tag + (k,))) for k, x in b[3])
                return ("adt", b[1], b[2], fs, b[4] if b[4] == a[4] else (("a",) + tag + ("base",) if b[4] else None))
            fs = tuple((k, self.widen_new(st, x, tag + (k,))) for k, x in b[3])
            return ("adt", b[1], b[2], fs, (("a",) + tag + ("base",)) if b[4] else None)
        if b[0] == "tup":
            return ("tup", tuple(self.widen(st, (a[1][i] if a[0] == "tup" and i < len(a[1]) else ("a", "none")), x, tag + (i,))
                                 for i, x in enumerate(b[1])))
        if b[0] == "ref":
            return b
        if b[0] in ("clo", "cor", "fn", "unit"):
            return b
        if stable(b):
            return b
        # opaque term: remember a known variant
        w = ("a",) + tag
        t = ("discr", b)
        f = st.facts.get(t)
        if f is not None and f[0] == "=" and t in self.discr_adt:
            ad = self.discr_adt[t]
            return ("adt", ad, self.f.variant_of(ad, f[1]), (), w)
        if b == w:
            return b
        # facts about an older value of this cell do not carry over
        for t in [t for t in st.facts if contains(t, w)]:
            del st.facts[t]
        return w

    def widen_new(self, st, x, tag):
        if x[0] in ("adt",):
            fs = tuple((k, self.widen_new(st, y, tag + (k,))) for k, y in x[3])
            return ("adt", x[1], x[2], fs, (("a",) + tag + ("base",)) if x[4] else None)
        if x[0] in ("ref", "clo", "cor", "fn", "unit") or x == MOVED:
            return x
        if x[0] == "c" and (isinstance(x[1], bool) or self.unroll):
            return x
        if x[0] == "tup":
            return ("tup", tuple(self.widen_new(st, y, tag + (i,)) for i, y in enumerate(x[1])))
        if stable(x):
            return x
        return ("a",) + tag

    def gc(self, st, fid, extra=None):
        """Forget heap cells nobody points to, and facts about terms no longer stored anywhere."""
        if any(k[0] in ("B", "Bold", "K") for k in st.mem):
            live = set()
            work = [v for k, v in st.mem.items() if k[0] not in ("B", "Bold", "K")]
            work += [v for k, v in st.mem.items() if k[0] == "K" and k[1] <= len(self.stack)]
            if extra is not None:
                work.append(extra)
            if isinstance(st.obs, tuple):
                work.append(st.obs)
            while work:
                v = work.pop()
                for t in refs(v):
                    if t not in live:
                        live.add(t)
                        if t in st.mem:
                            work.append(st.mem[t])
            for k in [k for k in st.mem if k[0] in ("B", "Bold") or (k[0] == "K" and k[1] > len(self.stack))]:
                if k not in live:
                    del st.mem[k]
        if not st.facts:
            return
        atoms = set()
        for r, v in st.mem.items():
            subterms(v, atoms)
            subterms(r, atoms)
        if isinstance(st.obs, tuple):
            subterms(st.obs, atoms)
        if extra is not None:
            subterms(extra, atoms)
        for t in list(st.facts):
            base = t
            keep = True
            for a in subterms(t, set()):
                if a[0] == "a" and a not in atoms and a[1] not in ("arg", "const", "constv"):
                    keep = False
                    break
            if not keep:
                del st.facts[t]

    # ---- statements
    def stmt(self, st, fid, body, s, site):
        if s[0] == "=":
            v = self.rvalue(st, fid, body, s[2], site, s[1])
            loc = self.place_loc(st, fid, s[1])
            if self.write_hook and loc[0][0] != "L":
                self.write_hook(self, st, loc, self.read_loc(st, loc), v, (site[0], site[1], s[3]))
            self.write_loc(st, loc, v)
        elif s[0] == "dead" and not self.keep_dead:
            st.mem.pop(("L", fid, s[1]), None)
        elif s[0] == "assume":
            v = self.operand(st, fid, s[1], body)
            self.assume(st, v, True)

    def rvalue(self, st, fid, body, r, site, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, fid, r[1], body)
        if k in ("ref", "ptr"):
            return ("ref", self.place_loc(st, fid, r[2]))
        if k == "bin":
            a = self.operand(st, fid, r[2], body)
            b = self.operand(st, fid, r[3], body)
            op = r[1]
            if op.endswith("WithOverflow"):
                base = op[:-len("WithOverflow")]
                return ("tup", (mk_op(base, a, b), ("op", "ovf", C(base), a, b)))
            if op.endswith("Unchecked"):
                op = op[:-len("Unchecked")]
            if op == "Offset":
                return ("op", "Offset", a, b)
            a, b = self.kn(st, a), self.kn(st, b)
            if op in ("Lt", "Gt", "Le", "Ge"):
                t = self.optype(body, r[2])
                if t is not None and self.f.tk(t) == "uint":
                    x, y, neg = (a, b, False) if op == "Lt" else (b, a, False) if op == "Gt" else \
                        (a, b, True) if op == "Ge" else (b, a, True)
                    # x < y
                    z = None
                    if y == ("c", 0):
                        z = FALSE
                    elif x == ("c", 0):
                        z = mk_not(mk_op("Eq", y, C(0)))
                    elif y == ("c", 1):
                        z = mk_op("Eq", x, C(0))
                    if z is not None:
                        return mk_not(z) if neg else z
            return mk_op(op, a, b)
        if k == "un":
            a = self.operand(st, fid, r[2], body)
            if r[1] == "Not":
                t = self.optype(body, r[2])
                if t is not None and self.f.tk(t) == "bool":
                    return mk_not(a)
                return ("op", "BitNot", a)
            if r[1] == "PtrMetadata" and self.str_bytes:
                x = self.strip_ref(st, a)
                x = x[1] if x[0] == "deref" else x
                if x[0] == "c" and isinstance(x[1], str):
                    return C(len(x[1].encode()))
            if r[1] == "PtrMetadata":
                return ("op", "len", self.strip_ref(st, a))
            return ("op", r[1], a)
        if k == "cast":
            v = self.operand(st, fid, r[2], body)
            ck = r[1]
            if ck == "PointerCoercion":
                return v
            if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool) and ck == "IntToInt":
                w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(self.f.ts(r[3]))
                if w:
                    return C(v[1] & ((1 << w) - 1))
                if v[1] >= 0:
                    return v
            if self.f.ts(r[3]) == self.f.ts(r[4]):
                return v
            if ck in ("PtrToPtr", "Transmute") and v[0] == "ref":
                return ("ptrcast", self.f.ts(r[3]), v)
            return ("cast", self.f.ts(r[3]), v)
        if k == "discr":
            v = self.read_loc(st, self.place_loc(st, fid, r[1]))
            ad = self.f.tdef(r[1][2]) if self.f.tk(r[1][2]) == "adt" else None
            return self.discr_of(st, v, ad)
        if k == "agg":
            vals = [self.operand(st, fid, o, body) for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                names = kk[3]
                ad = self.f.adts.get(kk[1])
                variant = kk[2] if ad is not None and ad["k"] == "enum" else None
                fs = tuple(sorted(((n, v) for n, v in zip(names, vals)), key=lambda t: t[0]))
                return ("adt", kk[1], variant, fs, None)
            if kk[0] == "tuple":
                return ("tup", tuple(vals)) if vals else UNIT
            if kk[0] == "array":
                return ("arr", tuple(vals))
            if kk[0] == "closure":
                return ("clo", kk[1], tuple(vals))
            if kk[0] == "coroutine":
                return ("cor", kk[1], tuple(vals))
            return ("agg", kk[0], tuple(vals))
        if k == "repeat":
            return ("repeat", self.operand(st, fid, r[1], body), r[2])
        return ("a", "rv", k)

    def kn(self, st, t):
        if t[0] == "c":
            return t
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return C(f[1])
        return t

    def optype(self, body, o):
        if o[0] in ("cp", "mv"):
            return o[1][2]
        if o[0] == "c":
            return o[1]["t"]
        return None

    def strip_ref(self, st, v):
        n = 0
        while v[0] == "ref" and n < 6:
            v = self.read_loc(st, v[1])
            n += 1
        return v

    # ---- drops
    def do_drop(self, st, fid, body, t, site):
        loc = self.place_loc(st, fid, t[1])
        v = self.read_loc(st, loc)
        if v == MOVED:
            return [st]
        if self.drop_hook:
            r = self.drop_hook(self, st, loc, t[1][2], site)
            if r is not None:
                return r
        if self.glue is not None:
            return self.drop_value(st, loc, t[1][2], site)
        return [st]

    # ---- drop glue of the types named in self.glue (and whatever owns them)
    def interesting(self, t, depth=0):
        r = self._int.get(t)
        if r is not None:
            return r
        self._int[t] = False
        k = self.f.tk(t)
        res = False
        if k == "adt":
            d = self.f.tdef(t)
            if d in self.glue:
                res = True
            else:
                base = d.split("::")[-1]
                if base in ("Option", "Result", "Poll", "Box", "Pin", "Arc", "ControlFlow"):
                    res = any(self.interesting(a) for a in self.f.targs(t))
                elif d in self.f.adts and self.f.adts[d].get("local"):
                    res = any(self.interesting(fl["t"]) for v in self.f.adts[d]["v"] for fl in v["f"])
        elif k == "tuple":
            res = any(self.interesting(a) for a in self.f.targs(t))
        self._int[t] = res
        return res

    def drop_value(self, st, loc, t, site):
        """Run the destructors of what is stored at loc; list of states (or (state, Panic))."""
        v = self.read_loc(st, loc)
        if v == MOVED or v[0] in ("clo", "cor", "c"):
            return [st]
        k = self.f.tk(t)
        if not self.interesting(t):
            return [st]
        if k == "tuple":
            sts = [st]
            for i, a in enumerate(self.f.targs(t)):
                sts = self._seq(sts, lambda s, i=i, a=a: self.drop_value(s, (loc[0], loc[1] + ((".", str(i)),)), a, site))
            return sts
        if k != "adt":
            return [st]
        d = self.f.tdef(t)
        base = d.split("::")[-1]
        args = self.f.targs(t)
        if base in ("Box", "Pin", "Arc") and not self.f.adts.get(d, {}).get("local"):
            return self.drop_value(st, self.deref(st, v), args[0], site)
        if not self.f.adts.get(d, {}).get("local"):
            # Option / Result / Poll / ControlFlow
            sts = []
            for s, var in self.split(st, v, d):
                pay = {"Some": 0, "Ok": 0, "Ready": 0, "Err": 1, "Continue": 1, "Break": 0}.get(var)
                if pay is None or pay >= len(args):
                    sts.append(s)
                else:
                    sts.extend(self.drop_value(s, (loc[0], loc[1] + (("as", var), (".", "0"))), args[pay], site))
            return sts
        sts = [st]
        imp = self.drop_impl(d)
        if imp is not None:
            def run_drop(s):
                return [x if isinstance(y, Panic) is False else (x, y)
                        for x, y in self.call(s, ("fn", imp, self.info_key({"p": imp, "r": imp, "n": "drop", "tr": "std::ops::Drop", "a": [t]})),
                                              [("ref", loc)], site, [t], None)]
            sts = self._seq(sts, run_drop)
        ad = self.f.adts[d]
        if ad["k"] == "struct":
            for fl in ad["v"][0]["f"]:
                if self.interesting(fl["t"]):
                    sts = self._seq(sts, lambda s, fl=fl: self.drop_value(s, (loc[0], loc[1] + ((".", fl["n"]),)), fl["t"], site))
            return sts
        out = []
        for s in sts:
            if isinstance(s, tuple):
                out.append(s)
                continue
            for s2, var in self.split(s, self.read_loc(s, loc), d):
                cur = [s2]
                for vv in ad["v"]:
                    if vv["n"] == var:
                        for fl in vv["f"]:
                            if self.interesting(fl["t"]):
                                cur = self._seq(cur, lambda x, fl=fl, var=var: self.drop_value(
                                    x, (loc[0], loc[1] + (("as", var), (".", fl["n"]))), fl["t"], site))
                out.extend(cur)
        return out

    def _seq(self, sts, fn):
        out = []
        for s in sts:
            if isinstance(s, tuple):
                out.append(s)
            else:
                out.extend(fn(s))
        return out

    def drop_impl(self, d):
        for selft, items, im in self.f.timpls.get("std::ops::Drop", []):
            if self.f.tk(selft) == "adt" and self.f.tdef(selft) == d:
                return items.get("drop")
        return None

    # ---- calls
    def call_term(self, st, fid, body, t, site):
        f = self.operand(st, fid, t[1], body)
        args = [self.operand(st, fid, o, body) for o in t[2]]
        argts = [self.optype(body, o) for o in t[2]]
        return self.call(st, f, args, site, argts, t[3][2])

    def call(self, st, f, args, site, argts=None, rett=None):
        """Dispatch a call of function value f."""
        call = Call(self, f, args, site, argts, rett)
        if self.record_calls is not None:
            self.record_calls(self, st, call)
        for h in self.hooks:
            r = h(self, st, call)
            if r is not None:
                return r
        # closures and function pointers
        if f[0] in ("clo", "cor"):
            return self.call_closure(st, f, args, site)
        if f[0] == "ref":
            tgt = self.deep(st, f)
            if tgt[0] in ("clo", "fn"):
                return self.call(st, tgt, args, site, None, rett)
        if f[0] != "fn":
            return [(st, self.unknown(st, call))]
        r = self.model_call(self, st, call)
        if r is not None:
            return r
        b = self.resolve(st, call)
        if b is not None and b.p not in self.no_inline and (self.inline_filter is None or self.inline_filter(b)):
            if sum(1 for x in self.stack if x[0] == b.p) >= self.max_rec:
                # recursion: opaque result
                return [(st, self.unknown(st, call))]
            self.tenvs.append(self.type_env(b, call))
            try:
                return self.call_body(st, b, args, site)
            finally:
                self.tenvs.pop()
        return [(st, self.unknown(st, call))]

    def type_env(self, b, call):
        """Names of the callee's type parameters -> the types they stand for at this call."""
        gen = b.j.get("gen") or []
        a = call.info.get("ra") if call.info.get("r") == b.p or call.path == b.p else None
        if a is None or len(a) != len(gen):
            return {}
        return {g: self.ty_name(t) for g, t in zip(gen, a)}

    def ty_name(self, t):
        n = self.f.ts(t)
        return self.tenvs[-1].get(n, n) if self.tenvs else n

    def resolve(self, st, call):
        b = self.f.bodies.get(call.path)
        if b is not None and b.intrait is None:
            return b
        info = call.info
        if info.get("tr") and call.args:
            # dynamic dispatch on a receiver whose type is known on this path
            v = call.args[0]
            v = self.deep(st, v)
            ad = None
            if v[0] == "adt" and v[1] != "?":
                ad = v[1]
            if ad is not None:
                for selft, items, im in self.f.timpls.get(info["tr"], []):
                    if self.f.tk(selft) == "adt" and self.f.tdef(selft) == ad and info["n"] in items:
                        return self.f.bodies.get(items[info["n"]])
        if b is not None:
            return b
        return None

    def call_closure(self, st, f, args, site):
        if f[0] == "cor":
            return self.poll_coroutine(st, f, site)
        b = self.f.bodies.get(f[1])
        if b is None:
            return [(st, self.fresh(st, "ret", f[1], site[0], site[1]))]
        st = st.copy()
        selfv = f
        if self.f.tk(b.l[1]) == "ref":
            cell = ("K", len(self.stack), f[1])
            st.mem[cell] = f
            selfv = ("ref", (cell, ()))
        if any(x[0] == b.p for x in self.stack):
            return [(st, self.fresh(st, "ret", f[1], site[0], site[1]))]
        return self.call_body(st, b, [selfv] + list(args), site)

    def poll_coroutine(self, st, cor, site):
        """Run an async body to completion; value is its output."""
        b = self.f.bodies.get(cor[1])
        if b is None:
            return [(st, self.fresh(st, "out", cor[1], site[0], site[1]))]
        if any(x[0] == b.p for x in self.stack):
            return [(st, self.fresh(st, "out", cor[1], site[0], site[1]))]
        return self.call_body(st, b, [cor, ("a", "taskcx")], site)

    def unknown(self, st, call):
        """Opaque result; whatever a mutable reference argument points to is forgotten."""
        self.unknown_calls[call.path] = self.unknown_calls.get(call.path, 0) + 1
        res = self.fresh(st, "ret", call.path, call.site[0], call.site[1])
        for i, a in enumerate(call.args):
            if a[0] == "ref":
                t = call.argts[i] if call.argts and i < len(call.argts) else None
                if t is not None and self.f.tk(t) == "ref" and not self.f.types[t].get("m"):
                    continue
                cur = self.read_loc(st, a[1])
                if cur[0] in ("clo", "cor"):
                    continue
                nv = self.opaque_mut_hook(self, st, call, i, cur) if self.opaque_mut_hook else None
                if nv is None:
                    nv = self.fresh(st, "mut", call.path, call.site[0], call.site[1], i)
                self.write_loc(st, a[1], nv)
        if self.opaque_return_hook:
            v = self.opaque_return_hook(self, st, call, res)
            if v is not None:
                return v
        return res

    # ---- entry points
    def run_fn(self, path, args=None, st=None, obs=None):
        b = self.f.bodies[path]
        if st is None:
            st = State(obs=obs)
        if args is None:
            args = [("a", "arg", b.locname.get(i, str(i))) for i in range(1, b.argc + 1)]
        return self.call_body(st, b, args, (path, -1, b.sp))

    def run_async(self, path, args=None, st=None, obs=None):
        """Analyse an async fn up to its output."""
        out = []
        for s, v in self.run_fn(path, args, st, obs):
            if isinstance(v, Panic):
                out.append((s, v))
            elif v[0] == "cor":
                out.extend(self.poll_coroutine(s, v, (path, -1, "")))
            else:
                out.append((s, v))
        return out


class Call:
    __slots__ = ("eng", "f", "args", "site", "argts", "rett", "path", "info", "name", "p", "trait")

    def __init__(self, eng, f, args, site, argts, rett):
        self.eng = eng
        self.f = f
        self.args = args
        self.site = site
        self.argts = argts
        self.rett = rett
        if f[0] == "fn":
            self.path = f[1]
            self.info = eng.info.get(f[2], {})
            self.name = self.info.get("n") or f[1].rsplit("::", 1)[-1]
            self.p = self.info.get("p", f[1])
            self.trait = self.info.get("tr")
        else:
            self.path = f[1] if f[0] in ("clo", "cor") else "<indirect>"
            self.info = {}
            self.name = ""
            self.p = self.path
            self.trait = None

    def where(self):
        return "%s (%s)" % (self.site[2], self.site[0])

    def self_ty(self):
        """Self type (generic arg 0) of a trait/inherent call."""
        a = self.info.get("a") or []
        return a[0] if a else None
