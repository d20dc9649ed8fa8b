"""C10 Passwords never appear in log output or debug formatting."""
from models import nrm
from taint import Taint
from rules.util import where

TECHNIQUE = "whole-program taint analysis over MIR (field-based, flow-insensitive)"
RULE = ("Sources: the password field of Options, Url::password and everything that renders a whole Url, connection strings given as text. "
        "Sinks: arguments of log statements, of Debug/Display implementations, of printing and of panic messages. Taint follows assignments, "
        "borrows, calls, captured variables and fields of the crate's types; a Url is clean only when its password was removed on every "
        "definition. No tainted value may reach a sink.")
ASSUMPTIONS = ["The server does not send the client's password back in its messages.",
               "Libraries outside the crate do not log their arguments."]

URL_LEAKS = ("ToString::to_string", "Url::as_str", "Url::into_string", "Url::authority", "Url::password", "Into::into", "From::from",
             "AsRef::as_ref", "Index::index", "Url::as_ref", "Deref::deref", "Url::serialize")


def sink(np, path, b):
    last = np.split("::")[-1]
    if np.startswith("log::") or "::log::" in np:
        return "a log message" if "log" in last else None
    if last in ("_print", "_eprint", "_dbg"):
        return "printed output"
    if np.startswith(("std::fmt::Formatter", "core::fmt::Formatter", "std::fmt::Debug", "core::fmt::builders", "std::fmt::builders", "std::fmt::Write")):
        return "a formatted representation"
    if ("fmt::Debug::fmt" in np or "fmt::Display::fmt" in np):
        return "a formatted representation"
    if "panicking" in np or "rt::begin_panic" in np or last in ("panic_fmt", "unwrap_failed", "expect_failed"):
        return "a panic message"
    return None


def unused_impls(f):
    """Formatting implementations of private types that nothing formats."""
    out = set()
    used = {}
    for p, b in f.bodies.items():
        ts = set()
        for bl in b.b:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn":
                np = nrm(t[1][1]["p"])
                if ("unwrap" in np or "expect" in np) and "Result" in np:
                    ts |= {f.ts(a) for a in [a for a in t[1][1].get("a", ()) if isinstance(a, int)][1:]}
                elif "fmt::" in np or np.endswith("to_string") or "panicking" in np:
                    ts |= {f.ts(a) for a in t[1][1].get("a", ()) if isinstance(a, int)}
                    ts |= {f.ts(o[1][2]) for o in t[2] if o[0] in ("cp", "mv")}
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "dyn" in f.ts(s[2][3]):
                    ts.add(f.ts(s[2][4]))
        # (a poisoned lock's message does not show what it guards)
        used[p] = " ".join(t for t in ts if "PoisonError" not in t)
    for p, b in f.bodies.items():
        if b.trait and "fmt::" in b.trait and b.self_ty is not None:
            d = f.tdef(b.self_ty) if isinstance(b.self_ty, int) else None
            if d and d in f.adts and f.adts[d].get("pub") is False:
                if not any(d in u for q, u in used.items() if q != p):
                    out.add(p)
    return out


def check(ctx):
    for cfg in ("default", "tls"):
        f = ctx.facts(cfg)
        tn = Taint(f, URL_LEAKS, sink)
        opts = [a for a in f.adts if a.endswith("::Options")][0]
        tn.seed(("F", opts, "password"), "the password option")
        # connection strings
        st = None
        nsrc = 1
        for p, b in f.bodies.items():
            q = nrm(p)
            if b.trait and b.trait.endswith("IntoOptions") and f.ts(b.l[1]) in ("&str", "std::string::String", "&'a str", "&'_ str"):
                tn.seed(("L", p, 1), "a connection string, %s" % p)
                nsrc += 1
            if q.endswith("FromStr>::from_str") and opts in f.ts(b.l[0]):
                tn.seed(("L", p, 1), "a connection string, %s" % p)
                nsrc += 1
            # what is handed to Url::password's caller
            for i, bl in enumerate(b.b):
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "fn" and nrm(t[1][1]["p"]).endswith("Url::password"):
                    tn.seed(tn.node(b, t[3]), "the password of the URL, %s" % bl["sp"])
                    nsrc += 1
        tn.build()
        tn.run()
        sites = 0
        seen = set()
        dead = unused_impls(f)
        for b, n, o, d, sp in tn.sink_sites:
            sites += 1
            if b.p in dead:
                continue
            leak = None
            if n is None:
                leak = ["a URL with its credentials is formatted"]
            elif n in tn.tainted:
                leak = tn.chain(n)
            if leak and (b.p, d, sp) not in seen:
                seen.add((b.p, d, sp))
                ctx.violation("a password can reach %s in %s" % (d, b.p), " <- ".join(leak), "%s %s" % (b.p, sp))
        ctx.oblige("%s: %d values passed to log, formatting, print and panic sites carry no password" % (cfg, sites), not seen,
                   key="a password reaches formatted output")
        ctx.floor("sources(%s)" % cfg, nsrc, 4)
        ctx.floor("sinks(%s)" % cfg, sites, 100)
        ctx.floor("tainted nodes(%s)" % cfg, len(tn.tainted), 20)
