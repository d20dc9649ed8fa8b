"""C26 Every configured host takes part in the rotation."""
from engine import State, Panic, C, contains
from prov import prov_engine
from lin import strip
from transport import Anchor
from rules.util import where
from rules.ops import Ops
from rules.c12 import isc, last
from rules.c17 import resolve, iterate, Bad
from poolsim import atomic_fields
from wire import norm, plain, rounds

TECHNIQUE = "provenance analysis over MIR of the pool's host list and of the address each connection attempt resolves"
RULE = ("Pool::new builds the host list as the main address followed by every alternative host, and the attempt counter starts at 0. In Client::open, on "
        "every path, the address that is resolved is, with a pool, the entry of that list at (value of exactly one atomic increment by one) modulo the "
        "list's length, and without a pool the options' main address. No other function changes the counter, and the pool passes itself on to every "
        "connection attempt.")
ASSUMPTIONS = ["The counter does not wrap around (2^64 attempts).", "Resolution of one host to several socket addresses is the operating system's."]
RMW = ("fetch_add", "fetch_sub", "store", "swap", "compare_exchange", "compare_exchange_weak", "fetch_update", "fetch_max", "fetch_min", "fetch_and", "fetch_or",
       "fetch_xor", "fetch_nand", "compare_and_swap")
SAME = ("into_iter", "iter", "cloned", "copied", "to_vec", "into", "clone", "from_iter", "collect", "as_slice", "deref", "as_ref", "from", "into_vec",
        "into_boxed_slice", "to_owned", "by_ref", "drain", "as_mut_slice", "fuse", "box_assume_init_into_vec_unsafe", "unwrap", "into_iter_sorted")


def clones(f, v):
    """Is v a function or closure that only clones its argument?"""
    if isinstance(v, tuple) and v and v[0] in ("fn", "fndef") and "lone" in str(v):
        return True
    return None


def items(f, v):
    """A list value as [("one", x) | ("all", list)]."""
    v = plain(v)
    if v[0] in ("arr", "tup") and all(isinstance(x, tuple) for x in v[1]):
        return [("one", plain(x)) for x in v[1]]
    if v[0] == "fld":
        return [("all", v)]
    if len(v) == 4 and v[:2] == ("a", "call"):
        n, a = last(v[2]), v[3]
        if v[2].startswith("mut:"):
            if n == "push":
                return items(f, a[0]) + [("one", plain(a[1]))]
            if n in ("extend", "append", "extend_from_slice"):
                return items(f, a[0]) + items(f, a[1])
            if n == "insert" and a[1] == C(0):
                return [("one", plain(a[2]))] + items(f, a[0])
            if n in ("reserve", "shrink_to_fit", "reserve_exact"):
                return items(f, a[0])
        elif n in ("new", "with_capacity", "default", "empty") and len(a) < 2:
            return []
        elif n == "once":
            return [("one", plain(a[0]))]
        elif n == "chain":
            return items(f, a[0]) + items(f, a[1])
        elif n == "from_elem" and a[1] == C(1):
            return [("one", plain(a[0]))]
        elif n == "concat" and a:
            return [y for k, x in items(f, a[0]) for y in items(f, x)]
        elif n == "map" and len(a) == 2:
            return items(f, a[0])
        elif n in SAME and len(a) == 1:
            return items(f, a[0])
    if v[0] == "adt" and v[2] == "Some":
        return [("one", plain(v[3][0][1]))]
    if v[0] == "adt" and v[2] is None and len(v[3]) == 1:
        return items(f, v[3][0][1])
    raise Bad("the pool's host list is not the main address followed by the alternative hosts")


def option(v, name):
    return v[0] == "fld" and v[2] == name


def engine(f):
    e = prov_engine(f, lambda b: b.sp.startswith(("src/pool", "src/lib.rs", "src/connecting_stream.rs")) and b.n not in ("hello", "without_password", "poll"))
    e.no_widen = True
    e.gc_returns = False
    e.head_hook = rounds(2)
    return e


def check(ctx):
    for cfg in (("default", "async_std") if ctx.thorough else ("default",)):
        run(ctx, ctx.facts(cfg))


def run(ctx, f):
    bad = {}

    def flag(k, w):
        bad.setdefault(k, w)
    inner = [a for a in f.adts if a == "pool::Inner"] or [a for a in f.adts if a.startswith("pool") and a.endswith("::Inner")]
    if len(inner) != 1:
        raise Anchor("pool::Inner")
    HOSTS = [x["n"] for x in f.adts[inner[0]]["v"][0]["f"] if "Url" in f.ts(x["t"])]
    if len(HOSTS) != 1:
        raise Anchor("the pool's host list")
    HOSTS = HOSTS[0]
    counter = attempts(ctx, f, HOSTS, flag)
    new = [b for b in f.bodies.values() if b.p.endswith("Pool::new") and b.sp.startswith("src/pool/")]
    if len(new) != 1:
        raise Anchor("Pool::new")
    new = new[0]
    e = engine(f)
    e.hooks.insert(0, iterate)
    n = 0
    for st, v in e.run_fn(new.p, None, State(obs=())):
        if isinstance(v, Panic):
            continue
        v = norm(resolve(e, st, v))
        box = [None]

        def find(x):
            if isinstance(x, tuple):
                if len(x) > 3 and x[0] == "adt" and x[1] == inner[0]:
                    box[0] = dict(x[3])
                    return
                for y in x:
                    find(y)
        find(v)
        if box[0] is None:
            flag("Pool::new: the pool's state cannot be told", where(f, new.p))
            continue
        facts = {norm(k): x for k, x in st.facts.items()}
        if any(k[0] == "discr" and isc(k[1], "get") and "OptionsSource" in k[1][2] and x == ("=", 1) for k, x in facts.items() if isinstance(k, tuple)):
            continue                           # no options, no connection
        n += 1
        try:
            l = items(f, box[0][HOSTS])
            if not l or l[0][0] != "one" or not option(l[0][1], "addr"):
                raise Bad("the pool's host list does not start with the main address")
            rest = l[1:]
            if len(rest) == 1 and rest[0][0] == "all" and option(rest[0][1], "alt_hosts"):
                pass
            elif all(k == "one" and x[:2] == ("a", "row") and option(x[2], "alt_hosts") and x[3] == C(i) for i, (k, x) in enumerate(rest)) and \
                    any(o[0] == "end" and o[1] == len(rest) and "'alt_hosts'" in str(o[2]) for o in st.obs):
                pass
            else:
                raise Bad("the pool's host list is not the main address followed by all alternative hosts, in order")
        except Bad as x:
            flag("Pool::new: %s" % x, where(f, new.p))
        for c in counter:
            x = box[0].get(c)
            if x is None or not (isc(x, "new", "from", "default") and (not x[3] or x[3] == (C(0),))):
                flag("Pool::new: the rotation does not start at the first host", where(f, new.p))
    ctx.floor("paths of Pool::new with options", n, 1)
    ctx.oblige("the host list and the rotation", True, where=where(f, new.p))
    for k, w in bad.items():
        ctx.violation(k, k, w)


def attempts(ctx, f, HOSTS, flag):
    o = Ops(f)
    e = engine(f)
    counter = set()
    visited = set()
    n = {"pool": 0, "none": 0}
    POOL = ("a", "arg", "pool")

    def ticket(v):
        v = strip(plain(v))
        if isc(v, "fetch_add") and len(v[3]) >= 2 and v[3][1] == C(1) and contains(v[3][0], POOL):
            c = v[3][0]
            while c[0] != "fld" and c[-1:] and isinstance(c[-1], tuple) and c[-1]:
                c = c[-1][0] if c[0] == "a" else c[-1]
            if c[0] == "fld":
                counter.add(c[2])
            return True
        return False

    def hosts(v):
        v = plain(v)
        return v[0] == "fld" and v[2] == HOSTS and contains(v, POOL)

    def entry(v):
        """Is v the list's entry at ticket % length?"""
        v = plain(v)
        if v[0] == "fld" and v[1][:1] == ("dc",) and v[1][2] in ("Some", "Ok"):
            v = plain(v[1][1])
        while isc(v, "unwrap", "expect", "clone", "cloned", "unwrap_or_else", "get_unchecked_") and len(v[3]) >= 1:
            v = plain(v[3][0])
        if v[:2] == ("a", "row") and len(v) == 4:
            v = ("a", "call", "index", (v[2], v[3]))
        if not (isc(v, "index", "get", "nth", "get_unchecked") and len(v[3]) == 2):
            return False
        if isc(v, "nth"):
            x = v[3][0]
            while isc(x, "iter", "into_iter", "by_ref", "cloned"):
                x = x[3][0]
            if isc(x, "cycle"):
                x = x[3][0]
                while isc(x, "iter", "into_iter", "by_ref", "cloned"):
                    x = x[3][0]
                return hosts(x) and ticket(v[3][1])
            l = x
        else:
            l = v[3][0]
        i = strip(plain(v[3][1]))
        if isc(i, "rem", "wrapping_rem", "rem_euclid") and len(i[3]) == 2:
            i = ("op", "Rem", i[3][0], i[3][1])
        ln = strip(plain(i[3])) if i[0] == "op" and i[1] == "Rem" else None
        return ln is not None and hosts(l) and ticket(i[2]) and (ln[:2] == ("op", "len") and hosts(ln[2]) or isc(ln, "len") and hosts(ln[3][0]))

    def hook(e, st, call):
        visited.add(call.site[0])
        if call.name in RMW and "tomic" in call.path and call.args:
            l = norm(resolve(e, st, call.args[0]))
            if contains(l, POOL):
                st.obs = st.obs + (("rmw", call.name),)
            return None
        if call.name in ("socket_addrs", "host_str") and "url" in call.path.lower():
            v = norm(resolve(e, st, call.args[0]))
            w = "%s (%s)" % (call.site[2], call.site[0])
            d = [x for k, x in ((norm(k), x) for k, x in st.facts.items()) if k == ("discr", POOL)]
            bumps = sum(1 for x in st.obs if x[0] == "rmw")
            if d == [("=", 0)]:
                n["none"] += 1
                if not (option(v, "addr") and not contains(v, POOL)):
                    flag("without a pool, an attempt does not use the main address", w)
            elif d:
                n["pool"] += 1
                if not entry(v):
                    flag("with a pool, an attempt does not use the next entry of the host list", w)
                elif bumps != 1:
                    flag("an attempt advances the rotation %d times" % bumps, w)
            else:
                flag("an attempt uses an address that does not depend on the pool", w)
        return None
    e.hooks.insert(0, hook)
    outs = e.run_async(o.open, [("a", "arg", "source"), POOL], State(obs=()))
    ctx.floor("paths resolving an address with a pool", n["pool"], 1)
    ctx.floor("paths resolving an address without one", n["none"], 1)
    if any(sum(1 for x in st.obs if x[0] == "rmw") > 1 for st, v in outs):
        flag("an attempt advances the rotation more than once", where(f, o.open))
    others = [b for b in f.bodies.values() if b.p not in visited and b.sp.startswith("src/") and atomic_fields(f, b, RMW, counter)]
    for b in others:
        flag("the rotation is advanced outside a connection attempt", where(f, b.p))
    ctx.count("bodies scanned for changes of the counter", len(f.bodies))
    # the pool hands itself to the attempts it starts
    m = 0
    for b in list(f.bodies.values()):
        if not b.sp.startswith("src/pool/"):
            continue
        if not any(bl["t"][0] == "call" and bl["t"][1][0] == "fn" and (bl["t"][1][1].get("r") or bl["t"][1][1]["p"]) == o.open for bl in b.b):
            continue
        root = b.p.split("::{closure")[0]
        e2 = engine(f)
        e2.inline_filter = lambda b2, old=e2.inline_filter: old(b2) and b2.p != o.open
        seen = []

        def hook2(e, st, call):
            if call.path == o.open:
                seen.append(norm(resolve(e, st, call.args[1])))
            return None
        e2.hooks.insert(0, hook2)
        for st, v in e2.run_fn(root, None, State(obs=())):
            if isinstance(v, Panic):
                continue
            cor = [None]

            def find(x):
                if isinstance(x, tuple):
                    if x and x[0] == "cor":
                        cor[0] = x
                        return
                    for y in x:
                        find(y)
            find(resolve(e2, st, v))
            if cor[0] is not None:
                list(e2.poll_coroutine(st, cor[0], (root, -1, "")))
        for v in seen:
            m += 1
            if not (v[0] == "adt" and v[2] == "Some"):
                flag("the pool starts an attempt without its host list", where(f, root))
    ctx.floor("attempts started by the pool", m, 1)
    return counter
