"""C09 Connection URLs and builders set exactly the option they name."""
from engine import State, Panic, RES, C, NONE, TRUE, UNIT, contains, field, some
from models import nrm
from prov import prov_engine, calls_in, consts_in
from rules.util import where

TECHNIQUE = "path-sensitive provenance analysis of URL parsing and of every builder method over MIR"
RULE = ("from_url is analysed over MIR with every value named by where it came from. On every path through one iteration of the parameter "
        "loop, the set of option fields whose value changed must be exactly the field named by the key the path compared equal to, and its "
        "value must come from that parameter's value (constants only under the documented literals, seconds/milliseconds by suffix); a path "
        "that matched no key must store key and value in the settings; a failed parse must end in an error. Credentials, address, port and "
        "database must come from their URL parts. Every builder method leaves every other field equal to self's.")
ASSUMPTIONS = ["The url and percent-encoding crates and the standard library's FromStr do what they document."]

DOC = ["pool_min", "pool_max", "nodelay", "keepalive", "ping_before_query", "send_retries", "retry_timeout", "ping_timeout",
       "connection_timeout", "query_timeout", "insert_timeout", "execute_timeout", "compression", "alt_hosts"]
DOC_TLS = ["secure", "skip_verify"]
OPT0 = ("a", "opts0")
OPT1 = ("a", "opts1")


def has_call(v, *names):
    return any(any(nrm(p).endswith(n) for n in names) for p, _ in calls_in(v))


class Url:
    def __init__(self, f, ctx, cfg):
        self.f, self.ctx, self.cfg = f, ctx, cfg
        self.opts = [a for a in f.adts if a.endswith("::Options")][0]
        self.fields = [x["n"] for x in f.adts[self.opts]["v"][0]["f"]]
        root = [p for p, b in f.bodies.items() if nrm(p).endswith("FromStr>::from_str") and self.opts in f.ts(b.l[0])]
        self.entry = root[0]
        src = f.bodies[self.entry].sp.split(":")[0]
        self.e = e = prov_engine(f, lambda b: b.sp.split(":")[0] == src)
        e.gc_returns = False
        e.hooks.append(self.hook)
        e.head_hook = self.head
        self.seen = {}
        self.bad = []
        self.iters = 0
        self.pre = 0

    def flag(self, key, site):
        if key not in [k for k, _ in self.bad]:
            self.bad.append((key, site))

    def hook(self, e, st, call):
        if call.rett is None:
            return None
        rt = self.f.ts(call.rett)
        if call.name == "default" and rt == self.opts:
            return [(st, OPT0)]
        np = nrm(call.p)
        if rt.startswith(RES + "<") and not np.startswith(("types::", "std::result", "std::option")) and call.path not in self.f.bodies \
                and "Try" not in np and call.name not in ("branch", "map", "map_err", "and_then", "ok_or", "from_residual"):
            args = tuple(e.deep(st, a) for a in call.args)
            if any(has_call(a, "query_pairs") for a in args):
                t = ("a", "call", call.path, args)
                good, fail = st.copy(), st.copy()
                fail.obs = (fail.obs or ()) + (("fail",),)
                return [(good, ("adt", RES, "Ok", (("0", ("fld", ("dc", t, "Ok"), "0")),), None)),
                        (fail, ("adt", RES, "Err", (("0", ("fld", ("dc", t, "Err"), "0")),), None))]
        return None

    def diff(self, v, base):
        if v == base:
            return []
        return [k for k in self.fields if field(v, k) != ("fld", base, k)]

    def opt_cells(self, st, base):
        return [(r, v) for r, v in st.mem.items()
                if v == base or (v[0] == "adt" and v[2] is None and (v[1] == self.opts or v[4] == base) and contains(v, base))]

    def head(self, e, st, body, fid, bi, n):
        obs = st.obs or ()
        k = ("head", body.p, bi)
        params = self.is_params(st)
        if params:
            if k in obs:
                self.iteration(e, st, (body.p, bi, body.b[bi]["sp"]))
                return "cut"
            st.obs = obs + (k,)
            for r, v in self.opt_cells(st, OPT0):
                self.before(e, st, v, (body.p, bi, body.b[bi]["sp"]))
                st.mem[r] = OPT1
            return None
        if obs.count(k) >= 2:
            return "cut"
        st.obs = obs + (k,)
        return None

    def is_params(self, st):
        """The loop over the query parameters: no key compared yet or the outer loop again."""
        return not any(o[0] == "inner" for o in (st.obs or ())) and any(has_call(v, "query_pairs") for v in st.mem.values()) and \
            not self.nested(st)

    def nested(self, st):
        # inside the handling of one parameter (an inner loop of a value parser): the parameter loop's frame is not on top
        heads = [o for o in (st.obs or ()) if o[0] == "head"]
        if not heads:
            return False
        return self.e.stack[-1][0] != heads[0][1]

    # ---- before the parameters
    def before(self, e, st, v, site):
        self.pre += 1
        d = self.diff(v, OPT0)
        src = {"username": ("Url::username",), "password": ("Url::password",), "database": ("path_segments", "Url::path"),
               "addr": ("Url::parse",)}
        for k in d:
            x = field(v, k)
            if k not in src:
                self.flag("the URL sets the option %s without a parameter naming it" % k, site)
                continue
            if not has_call(x, *src[k]):
                self.flag("%s does not come from its part of the URL" % k, site)
            for other in ("username", "password", "database"):
                if other != k and k != "addr" and has_call(x, *src[other]):
                    self.flag("%s is taken from the URL's %s" % (k, other), site)
        if "addr" not in d:
            self.flag("the address of the URL is not used", site)
        else:
            self.port(e, st, field(v, "addr"), site)
        if "password" not in d and not self.fact(st, "Url::password", ("discr", "empty")):
            self.flag("the password of the URL is dropped", site)
        if "username" not in d and not self.fact(st, "Url::username", ("empty",)):
            self.flag("the user name of the URL is dropped", site)
        if "database" not in d and not (self.fact(st, "path_segments", ("discr", "empty")) or self.fact(st, "Url::path", ("empty",))):
            self.flag("the database of the URL is dropped", site)
        for k in d:
            self.seen.setdefault(k, set()).add("url")

    def port(self, e, st, addr, site):
        for p, args in calls_in(addr):
            if nrm(p).endswith("Url::set_port"):
                a = args[-1]
                if has_call(a, "Url::port", "port_or_known_default"):
                    continue
                cs = [c for c in consts_in(a) if isinstance(c, int)]
                if cs == [9000] and self.fact(st, "Url::port", ("discr",)):
                    continue
                self.flag("the port of the URL is replaced", site)
            if nrm(p).endswith("Url::set_host"):
                if not has_call(args[-1], "Url::host", "Url::host_str", "Url::domain"):
                    self.flag("the host of the URL is replaced", site)

    def fact(self, st, call, kinds):
        """A fact saying that what `call` returned is absent or empty."""
        for t, v in st.facts.items():
            if v[0] != "=" or not has_call(t, call):
                continue
            if "discr" in kinds and t[0] == "discr" and v[1] == 0:
                return True
            if "empty" in kinds:
                if t[0] == "op" and t[1] == "Eq" and v[1] is True and t[3] in (C(""), C(0)):
                    return True
                if v[1] is True and "is_empty" in str(t)[:400]:
                    return True
                if t[0] == "op" and t[1] == "Lt" and v[1] is False:
                    return True
                if v[1] == "" or v[1] == 0:
                    return True
        return False

    # ---- one parameter
    def iteration(self, e, st, site):
        self.iters += 1
        item = None
        for t in st.facts:
            for x in self.items(t):
                item = x
        cells = self.opt_cells(st, OPT1)
        if not cells:
            return
        d = set()
        v = OPT1
        for _, c in cells:
            dc = self.diff(c, OPT1)
            if dc:
                v = c
            d |= set(dc)
        if item is None:
            self.flag("a parameter of the URL is skipped without looking at it", site)
            return
        K, V = ("fld", item, "0"), ("fld", item, "1")
        lits = [(t, t[3][1]) for t, x in st.facts.items()
                if x == ("=", True) and t[0] == "op" and t[1] == "Eq" and t[3][0] == "c" and isinstance(t[3][1], str)]
        names = {c for t, c in lits if contains(t, K) and not contains(t, V)}
        words = {c for t, c in lits if contains(t, V)}
        if ("fail",) in (st.obs or ()):
            self.flag("a value that does not parse is accepted for %s" % (", ".join(sorted(names)) or "a setting"), site)
            return
        if not names:
            if d != {"settings"}:
                self.flag("an unrecognised parameter %s" % ("sets " + ", ".join(sorted(d)) if d else "is not forwarded as a setting"), site)
                return
            s = field(v, "settings")
            ins = [a for p, a in calls_in(s) if nrm(p).endswith("HashMap::insert")]
            for a in ins[:1]:
                key, val = a[-2], a[-1]
                if not contains(key, K) or contains(key, V) or not contains(val, V) or contains(val, K):
                    self.flag("an unrecognised parameter is stored under the wrong name or value", site)
            self.seen.setdefault("settings", set()).add("param")
            return
        for name in names:
            if name not in self.fields:
                if d != {"settings"}:
                    self.flag("the parameter %s sets %s" % (name, ", ".join(sorted(d)) or "nothing"), site)
                continue
            if d != {name}:
                self.flag("the parameter %s sets %s" % (name, ", ".join(sorted(d)) or "nothing"), site)
                continue
            self.seen.setdefault(name, set()).add("param")
            x = field(v, name)
            self.value(name, x, V, words, st, site)

    def items(self, t, acc=None):
        acc = [] if acc is None else acc
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "fld" and t[2] in ("0", "1") and isinstance(t[1], tuple) and t[1][0] == "fld" and t[1][2] == "0" \
                    and t[1][1][0] == "dc" and t[1][1][2] == "Some" and t[1][1][1][:2] == ("a", "call") \
                    and nrm(t[1][1][1][2]).endswith("::next") and has_call(t[1], "query_pairs"):
                if "path_segments" not in str(t[1]):
                    acc.append(t[1])
            for y in t:
                if isinstance(y, tuple):
                    self.items(y, acc)
        return acc

    def value(self, name, x, V, words, st, site):
        x0 = x
        if x[0] == "adt" and x[1].endswith("Option") and x[2] == "Some":
            x = field(x, "0")
        if x == NONE:
            if "none" not in words:
                self.flag("the parameter %s is switched off by a value other than none" % name, site)
            return
        if x[0] == "c" and isinstance(x[1], bool):
            want = {True: {"lz4", "true", "1"}, False: {"none", "false", "0"}}[x[1]]
            if not words & want:
                self.flag("the parameter %s becomes %s for another value" % (name, str(x[1]).lower()), site)
            return
        if not contains(x, V):
            if name == "alt_hosts":
                return      # no iteration of the value's own loop on this path
            self.flag("the parameter %s is not set from its value" % name, site)
            return
        self.seen[name].add("value")
        units = {"from_secs": "s", "from_millis": "ms"}
        s = str(x)
        got = [u for u in ("from_secs", "from_millis", "from_micros", "from_nanos") if ("'pure', '%s'" % u) in s or ("Duration::%s" % u) in s]
        if got:
            sfx = {c for p, a in calls_in(x) if nrm(p).split("::")[-1] in ("strip_suffix", "trim_end_matches", "rsplit_once", "split_once", "trim_right_matches")
                   for c in consts_in(a) if isinstance(c, str)}
            have = (words | sfx) & {"s", "ms"}
            if "ms" in have and "s" in have and "ms" in words | sfx:
                have = have & words or have
            want = {units.get(u) for u in got}
            if not want & have:
                self.flag("the parameter %s takes its unit wrongly" % name, site)

    def run(self):
        e = self.e
        st = State(obs=())
        return e.run_fn(self.entry, [("a", "arg", "url")], st)


def builders(f, opts):
    for p, b in sorted(f.bodies.items()):
        if not p.startswith(opts + "::") or "{" in p[len(opts):] :
            continue
        if f.ts(b.l[0]) == opts and b.argc >= 1:
            yield p, b


def check(ctx):
    for cfg in ("default", "tls"):
        f = ctx.facts(cfg)
        u = Url(f, ctx, cfg)
        res = u.run()
        for key, site in u.bad:
            ctx.violation(key, key, "%s (%s)" % (site[0], site[2]))
        ctx.count("functions", len(u.e.called))
        ctx.count("paths", len(res) + u.iters)
        for st, v in res:
            if isinstance(v, Panic):
                continue
            if v[0] == "adt" and v[2] == "Ok" and ("fail",) in (st.obs or ()):
                ctx.violation("a value that does not parse is accepted", "parse failure ends in Ok", where(f, u.entry))
        for name in DOC + (DOC_TLS if cfg == "tls" else []):
            ctx.oblige("%s: the URL parameter %s sets the option %s" % (cfg, name, name), "param" in u.seen.get(name, ()),
                       key="the URL parameter %s is not recognised" % name, where=where(f, u.entry))
        for name in ("username", "password", "database", "addr"):
            ctx.oblige("%s: %s is taken from the URL" % (cfg, name), "url" in u.seen.get(name, ()),
                       key="%s is never taken from the URL" % name, where=where(f, u.entry))
        ctx.oblige("%s: unrecognised parameters become settings" % cfg, "settings" in u.seen,
                   key="unrecognised parameters are not forwarded", where=where(f, u.entry))
        n = 0
        for p, b in builders(f, u.opts):
            n += 1
            name = p.split("::")[-1]
            e = prov_engine(f, lambda b: b.sp.split(":")[0] == f.bodies[u.entry].sp.split(":")[0])
            e.hooks.append(lambda e, st, call: [(st, OPT0)] if call.name == "default" and call.rett is not None and f.ts(call.rett) == u.opts else None)
            args = [("a", "arg", str(i)) for i in range(b.argc)]
            isself = f.ts(b.l[1]) == u.opts
            base = args[0] if isself else OPT0
            for st, v in e.run_fn(p, args, State(obs=())):
                if isinstance(v, Panic):
                    continue
                d = [k for k in u.fields if field(v, k) != ("fld", base, k)] if v != base else []
                want = name if name in u.fields else {"with_compression": "compression", "with_setting": "settings", "new": "addr"}.get(name)
                if want is None:
                    continue
                good = d == [want]
                val = field(v, want)
                if good:
                    if name == "with_compression":
                        good = val == TRUE
                    else:
                        good = all(contains(val, a) for a in args[1 if isself else 0:])
                ctx.oblige("%s: Options::%s changes %s and nothing else" % (cfg, name, want), good,
                           key="the builder %s sets %s" % (name, ", ".join(d) or "nothing" if d != [want] else want + " to another value"),
                           where=where(f, p))
        ctx.floor("builders(%s)" % cfg, n, 20)
        ctx.floor("iterations(%s)" % cfg, u.iters, 20)
