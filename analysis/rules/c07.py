"""C07 Reconnection attempts are bounded by the configured retry count."""
from engine import State, Panic, RES, OPT, NONE, UNIT, C, ok, err, ready, contains, root_of_fields
from models import nrm
from rules.ops import Ops
from rules.util import where
from transport import Anchor, make_engine, adt_path

TECHNIQUE = "path-sensitive event-sequence analysis over MIR, all outcome patterns, retry count instantiated"
RULE = ("Path-sensitive analysis of check_connection over MIR with every health check and every connection attempt succeeding or failing "
        "freely, for each configured retry count in a range: at most retries+1 attempts, at most that many pauses and post-check "
        "reconnections, a pause of retry_timeout between a failed attempt and the next, the last error returned, success only after a "
        "successful health check; both limits are read from the options of that name.")
ASSUMPTIONS = ["The retry count is instantiated (0..3 quick, 0..6 thorough); the code depends on it only through comparisons with a counter."]


class Retry:
    """obs = (events tuple) with events: p+ p- (health check), r+ r- (attempt), z (pause), zx (other pause)."""

    def __init__(self, f, o, k):
        self.f, self.o, self.k = f, o, k
        self.e = e = make_engine(f)
        e.unroll = True
        self.viol = []
        self.opts = adt_path(f, "Options")
        e.hooks.append(self.hook)
        e.poll_summary = self.poll
        self.events = 0

    def flag(self, msg, site):
        if (msg, site[0]) not in [(m, s[0]) for m, s in self.viol]:
            self.viol.append((msg, site))

    def fut(self, kind, h):
        return ("adt", "fut:summary", None, (("h", h), ("kind", ("c", kind))), None)

    def hook(self, e, st, call):
        np = nrm(call.p)
        if np.endswith("OptionsSource::get"):
            cow = ("a", "cow")
            st = st.copy()
            st.mem[("H", cow)] = ("adt", self.opts, None, (("send_retries", C(self.k)),), ("a", "opts"))
            return [(st, ok(cow))]
        if call.name == "poll" and call.args:
            v = e.deep(st, call.args[0])
            if v[0] == "adt" and v[1] == "fut:summary":
                return self.poll(e, st, v, call)
        if call.path == self.o.ping:
            return [(st, self.fut("ping", call.args[0]))]
        if call.path == self.o.open:
            return [(st, self.fut("open", UNIT))]
        if np.endswith("::get_handle") or call.name == "get_handle":
            return [(st, self.fut("open", UNIT))]
        if call.name == "sleep" and ("time" in np or "task" in np):
            return [(st, self.fut("sleep", call.args[0]))]
        if np.endswith("thread::sleep"):
            self.flag("blocks the thread instead of pausing the task", call.site)
        return None

    def poll(self, e, st, v, call):
        d = dict(v[3])
        kind = d["kind"][1]
        self.events += 1
        ev = st.obs
        out = []
        site = call.site
        if kind == "sleep":
            _, fs = root_of_fields(e.deep(st, d["h"]))
            good = bool(fs) and fs[-1] == "retry_timeout"
            if not good:
                self.flag("pauses for something other than the configured retry_timeout", site)
            s = st.copy()
            s.obs = ev + ("z",)
            if not self.bounds(s.obs, site):
                return []
            return [(s, ready(UNIT))]
        if kind == "ping":
            n = len(ev)
            s = st.copy()
            s.obs = ev + ("p+",)
            out.append((s, ready(ok(UNIT))))
            s = st.copy()
            s.obs = ev + ("p-",)
            out.append((s, ready(err(("a", "failure", n)))))
        else:
            n = len(ev)
            s = st.copy()
            s.obs = ev + ("r+",)
            out.append((s, ready(ok(("a", "newhandle")))))
            s = st.copy()
            s.obs = ev + ("r-",)
            out.append((s, ready(err(("a", "failure", n)))))
        return [(s, x) for s, x in out if self.bounds(s.obs, site)]

    def bounds(self, ev, site):
        k = self.k
        r = [i for i, x in enumerate(ev) if x in ("r+", "r-")]
        if len(r) > k + 1:
            self.flag("makes more than %d connection attempts with a retry count of %d" % (k + 1, k), site)
            return False
        if sum(1 for x in ev if x == "z") > k:
            self.flag("retries a failed connection attempt more often than the configured count", site)
            return False
        after_check = sum(1 for i in r if i and ev[i - 1] == "p-")
        if after_check > k:
            self.flag("reconnects after a failed health check more often than the configured count (%d > %d)" % (after_check, k), site)
            return False
        if sum(1 for x in ev if x in ("p+", "p-")) > len(r) + 1:
            self.flag("repeats the health check without reconnecting in between", site)
            return False
        for a, b in zip(ev, ev[1:]):
            if a == "r-" and b in ("r+", "r-", "p+", "p-"):
                if b[0] == "r":
                    self.flag("tries to connect again without a pause after a failed attempt", site)
                    return False
        return True


def check(ctx):
    for cfg in ("default", "async_std"):
        run(ctx, ctx.facts(cfg), cfg)


def run(ctx, f, cfg):
    o = Ops(f)
    for k in range(7 if ctx.thorough else 4):
        r = Retry(f, o, k)
        outs = r.e.run_async(o.check, obs=())
        pats = set()
        mx = 0
        for st, v in outs:
            if isinstance(v, Panic):
                continue
            ev = st.obs
            res = r.e.variant(st, v, RES)
            pats.add((ev, res))
            mx = max(mx, sum(1 for x in ev if x[0] == "r"))
            if not ev:
                continue
            fails = [i for i, x in enumerate(ev) if x in ("p-", "r-")]
            if res == "Ok":
                ctx.oblige("[%s] success only after a successful health check" % cfg, ev[-1] == "p+",
                           "success is reported although the last step is not a successful health check", where(f, o.check))
            else:
                good = bool(fails) and contains(v, ("a", "failure", fails[-1]))
                ctx.oblige("[%s] the last error is returned" % cfg, good, "an error other than the last one is returned", where(f, o.check))
                n = sum(1 for x in ev if x[0] == "r")
                ctx.oblige("[%s] an error is returned only when the retries are used up" % cfg, not fails or n >= k,
                           "gives up after %d attempts although %d retries are configured" % (n, k), where(f, o.check))
        for msg, site in r.viol:
            ctx.violation("%s: %s" % (site[0], msg), "%s (retry count %d, %s)" % (msg, k, cfg), "%s (%s)" % (site[2], site[0]))
        ctx.oblige("[%s] attempts bounded with retry count %d" % (cfg, k), not r.viol, "attempts not bounded", where(f, o.check))
        ctx.count("event steps", r.events)
        ctx.count("outcome patterns", len(pats))
        ctx.floor("[%s] patterns with retry count %d" % (cfg, k), len(pats), 2)
        ctx.floor("[%s] longest sequence of attempts with retry count %d" % (cfg, k), mx, k)
        ctx.obligations += len(pats)
        ctx.discharged += len(pats) if not r.viol else 0
