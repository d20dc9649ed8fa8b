"""C11 Requested TLS is never silently weakened."""
from engine import State, Panic, POLL, RES, C, TRUE, FALSE, contains, field
from models import nrm
from prov import prov_engine, calls_in
from rules.util import where, calls

TECHNIQUE = "path-sensitive provenance analysis of connection set-up over MIR (tls build)"
RULE = ("ConnectingStream::new is analysed with opaque options and its result is polled in the same analysis. A path that ends with a plain "
        "stream must have found options.secure false; a path that ends with a secure one must have obtained it from a TLS connector's "
        "connect for the host of the very address that was resolved, with verification relaxed only by options.skip_verify and the "
        "configured certificate added whenever there is one. TCP connections are opened nowhere else, the options handed over are the "
        "client's, and the stream's read and write methods never touch the socket under a TLS stream.")
ASSUMPTIONS = ["native-tls and tokio-native-tls verify certificates and host names unless told otherwise."]

A, O = ("a", "arg", "addr"), ("a", "arg", "options")


def opt(k):
    return ("fld", ("deref", O), k)


def check(ctx):
    f = ctx.facts("tls")
    cs = [a for a in f.adts if a.endswith("::ConnectingStream")][0]
    new = [p for p, b in f.bodies.items() if f.ts(b.l[0]) == cs and b.argc == 2 and "url::Url" in f.ts(b.l[1])]
    src = {f.bodies[p].sp.split(":")[0] for p in new}
    e = prov_engine(f, lambda b: b.sp.split(":")[0] in src or b.sp.split(":")[0].endswith("errors/mod.rs"))
    e.gc_returns = False
    poll = [p for p, b in f.bodies.items() if b.n == "poll" and b.trait and b.trait.endswith("Future") and cs in f.ts(b.l[1])]
    paths = plain = secure = 0
    bad = {}

    def flag(msg, w):
        bad.setdefault(msg, w)
    for n in new:
        if n.split("::")[-1] != "new":
            continue
        for st, v in e.run_fn(n, [A, O], State(obs=())):
            if isinstance(v, Panic):
                continue
            cell = ("K", 0, "cs")
            s0 = st.copy()
            s0.mem[cell] = v
            for p in poll:
                for s2, r in e.run_fn(p, [("ref", (cell, ())), ("a", "arg", "cx")], s0.copy()):
                    if isinstance(r, Panic):
                        continue
                    paths += 1
                    r = e.deep(s2, r)
                    if not (r[0] == "adt" and r[2] == "Ready"):
                        continue
                    r = e.deep(s2, e.payload(r, "Ready"))
                    if not (r[0] == "adt" and r[2] == "Ok"):
                        continue
                    x = e.deep(s2, e.payload(r, "Ok"))
                    kind = x[2] if x[0] == "adt" else None
                    sec = e.known(s2, opt("secure"))
                    if kind == "Plain":
                        plain += 1
                        if sec != FALSE:
                            flag("a plain connection is made although the secure option may be on", where(f, n))
                    elif kind == "Secure":
                        secure += 1
                        if sec == FALSE:
                            continue
                        tls(e, s2, expand(e, s2, e.payload(x, "Secure")), flag, where(f, n))
                    else:
                        flag("the kind of stream is not decided by the options", where(f, n))
    ctx.count("paths", paths)
    ctx.count("functions", len(e.called))
    ctx.oblige("%d connection paths: plain only when secure is off" % plain, "a plain connection is made although the secure option may be on" not in bad,
               key="a plain connection is made although the secure option may be on", where=where(f, new[0]))
    for m, w in bad.items():
        ctx.violation(m, m, w)
    ctx.floor("plain results", plain, 1)
    ctx.floor("secure results", secure, 2)

    # sockets are opened only there
    n = 0
    for p, b in f.bodies.items():
        for i, info, t, sp in calls(f, b):
            np = nrm(info.get("r") or info["p"])
            if np.endswith("TcpStream::connect") or "TcpSocket" in np or np.endswith("TcpStream::connect_timeout"):
                n += 1
                ctx.oblige("the socket opened in %s belongs to the connection set-up" % p, b.sp.split(":")[0] in src,
                           key="a socket is opened outside the connection set-up in %s" % p, where="%s %s" % (p, sp))
    ctx.floor("socket opening sites", n, 1)

    # the options it gets are the client's
    k = 0
    for p, b in f.bodies.items():
        for i, info, t, sp in calls(f, b):
            path = info.get("r") or info["p"]
            if path in new and path.split("::")[-1] == "new" and b.sp.split(":")[0] not in src:
                k += 1
                good = from_source(f, b, t[2][1], set())
                ctx.oblige("the options %s connects with are the client's" % p, good,
                           key="%s connects with other options than the client's" % p, where="%s %s" % (p, sp))
    ctx.floor("connection call sites", k, 1)

    # reads and writes of a secure stream go through it
    stream = [a for a in f.adts if a.endswith("stream::Stream")][0]
    m = 0
    for p, b in f.bodies.items():
        if b.trait and b.trait.split("::")[-1] in ("AsyncRead", "AsyncWrite", "Read", "Write") and b.self_ty is not None and f.tdef(b.self_ty) == stream \
                or (b.argc and stream in f.ts(b.l[1]) and b.n.startswith("poll_")):
            m += 1
            e2 = prov_engine(f, lambda b2: b2.sp.split(":")[0] == b.sp.split(":")[0])
            hits = []

            def hook(e, st, call):
                if call.name.startswith(("poll_read", "poll_write", "poll_flush", "try_write", "try_read", "poll_close", "poll_shutdown")) and call.path not in f.bodies \
                        and call.argts and call.argts[0] is not None:
                    ts = f.ts(call.argts[0])
                    for tm, x in st.facts.items():
                        if tm[0] == "discr" and e.discr_adt.get(tm) in (stream, stream + "Proj") and x[0] == "=":
                            var = f.variant_of(e.discr_adt[tm], x[1])
                            hits.append(var)
                            if var == "Secure" and "TcpStream" in ts and "TlsStream" not in ts:
                                flag2.append((call.site, ts))
                return None
            flag2 = []
            e2.hooks.append(hook)
            e2.run_fn(p, None, State(obs=()))
            ctx.oblige("%s uses the TLS stream of a secure connection" % p, not flag2,
                       key="%s uses the plain socket of a secure connection" % p, where=where(f, p))
    ctx.floor("stream methods", m, 2)


def expand(e, st, v, n=12):
    """Replace pointers by what they point to."""
    if n == 0 or not isinstance(v, tuple):
        return v
    if len(v) == 2 and v[0] == "ref":
        return expand(e, st, e.read_loc(st, v[1]), n - 1)
    return tuple(expand(e, st, x, n) if isinstance(x, tuple) else x for x in v)


def tls(e, st, v, flag, w):
    cs = calls_in(v)
    conn = [(p, a) for p, a in cs if nrm(p).endswith("TlsConnector::connect")]
    if not conn:
        flag("a secure stream does not come from a TLS handshake", w)
        return
    for p, a in conn:
        a = tuple(expand(e, st, x) for x in a)
        if not any(nrm(q).endswith(("Url::host_str", "Url::host", "Url::domain")) and contains(b, A) for q, b in calls_in(a)):
            flag("the TLS handshake is not for the host connected to", w)
        if not any(nrm(q).endswith("Url::socket_addrs") and contains(b, A) for q, b in calls_in(a)):
            flag("the TLS handshake is not on the socket connected to the address", w)
        danger = [(q, b) for q, b in calls_in(a) if "danger" in q.split("::")[-1] or q.split("::")[-1] in ("use_sni", "disable_built_in_roots")]
        for q, b in danger:
            name = q.split("::")[-1]
            x = b[-1]
            if name == "use_sni":
                if x != TRUE:
                    flag("server name indication is switched off", w)
                continue
            if name == "disable_built_in_roots":
                continue
            if x == FALSE or x == opt("skip_verify") or e.known(st, x) == FALSE:
                continue
            if e.known(st, opt("skip_verify")) == TRUE:
                continue
            flag("certificate verification is relaxed (%s) without skip_verify" % name, w)
        added = [b for q, b in calls_in(a) if q.split("::")[-1] == "add_root_certificate" and "certificate" in str(b) and contains(b, opt("certificate"))]
        d = e.known(st, ("discr", opt("certificate")))
        if not added and (d is None or d[1] != 0):
            flag("the configured certificate is not installed", w)


def from_source(f, b, o, seen):
    """The options operand comes from the client's options source or an Options parameter."""
    if o[0] not in ("cp", "mv"):
        return False
    return local_from(f, b, o[1][0], seen)


def local_from(f, b, loc, seen):
    if loc in seen:
        return True
    seen = seen | {loc}
    if loc <= b.argc and loc > 0:
        return True
    ds = []
    for bl in b.b:
        if bl["c"]:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][0] == loc:
                ds.append(s[2])
        t = bl["t"]
        if t[0] == "call" and t[3][0] == loc:
            ds.append(("call", t))
    if not ds:
        return False
    for r in ds:
        if r[0] == "call":
            t = r[1]
            if t[1][0] != "fn":
                return False
            np = nrm(t[1][1]["p"])
            if np.endswith("OptionsSource::get"):
                continue
            if np.split("::")[-1] in ("default", "new", "from_str"):
                return False
            ops = [x for x in t[2] if x[0] in ("cp", "mv")]
            if not ops or not local_from(f, b, ops[0][1][0], seen):
                return False
        elif r[0] in ("use", "cast"):
            o = r[1] if r[0] == "use" else r[2]
            if o[0] not in ("cp", "mv") or not local_from(f, b, o[1][0], seen):
                return False
        elif r[0] in ("ref", "ptr"):
            if not local_from(f, b, r[2][0], seen):
                return False
        elif r[0] == "agg" and r[1][0] == "adt" and r[1][1].endswith("Options"):
            ok = any(x[0] in ("cp", "mv") and local_from(f, b, x[1][0], seen) for x in r[2])
            if not ok:
                return False
        elif r[0] == "agg":
            if not any(x[0] in ("cp", "mv") and local_from(f, b, x[1][0], seen) for x in r[2]):
                return False
        else:
            return False
    return True
