"""Whole-program taint over MIR: flow-insensitive, field-based for the crate's own types.

Nodes are ("L", body, local), ("F", adt, field) for fields of local types and ("U", closure, i)
for captured variables.  A value of a type that embeds url::Url is dirty by type unless every
definition of it is sanitised (its password was removed)."""
import re
from models import nrm

STRINGY = re.compile(r"\bstr\b|String|\[u8|<u8|Cow|fmt::|rt::Argument|dyn |Cursor|OsStr|Bytes|^[A-Z]$|&[A-Z]$|impl |Chars|Split|PercentDecode|closure|\{async|Iter<|Map<|Error\b")
CLEAN_ERR = re.compile(r"io::Error|ParseError|Utf8Error|ParseIntError|ParseBoolError|native_tls::Error|Elapsed")


class Taint:
    def __init__(self, f, url_leaks, sinks):
        self.f = f
        self.url_leaks = url_leaks
        self.local = {a for a in f.adts if f.adts[a].get("local")}
        self.tainted = {}     # node -> reason chain
        self.edges = {}       # node -> list of (node, why)
        self.sinks = sinks
        self.sink_sites = []  # (body, node or None, description, where)
        self.clean_locals = {}

    # ---- types
    def stringy(self, t):
        s = self.f.ts(t)
        if s in ("u8", "char", "()", "bool"):
            return False
        s2 = CLEAN_ERR.sub("X", s)
        return bool(STRINGY.search(s2))

    def has_url(self, t):
        return "url::Url" in self.f.ts(t)

    # ---- nodes
    def node(self, b, p):
        """Node of a place: the innermost field of a local type on the way, else the local."""
        f = self.f
        n = ("L", b.p, p[0])
        t = b.l[p[0]]
        var = None
        for e in p[1]:
            if e[0] == "*":
                if t is not None and f.targs(t):
                    t = f.targs(t)[0]
                else:
                    t = None
            elif e[0] == "as":
                var = e[1]
            elif e[0] == ".":
                nt = None
                if t is not None:
                    k = f.tk(t)
                    d = f.tdef(t)
                    if d in f.adts and k == "adt":
                        ad = f.adts[d]
                        for v in ad["v"]:
                            if var is None or v["n"] == var:
                                for x in v["f"]:
                                    if x["n"] == e[1]:
                                        nt = x.get("t")
                        if d in self.local:
                            n = ("F", d, e[1] if var is None or len(ad["v"]) == 1 else var + "." + e[1])
                        elif nt is not None and f.targs(t) and f.tk(nt) == "param":
                            nt = None
                        if d not in self.local and d in ("std::option::Option", "std::result::Result", "std::task::Poll") and f.targs(t):
                            i = 1 if var == "Err" else 0
                            nt = f.targs(t)[i] if i < len(f.targs(t)) else None
                    elif d is not None and ("closure" in k or "coroutine" in k or k in ("clo", "cor")):
                        n = ("U", d, e[1])
                    elif "{" in f.ts(t):
                        n = ("U", b.p, e[1])
                    elif k in ("tuple", "tup") and e[1].isdigit() and int(e[1]) < len(f.targs(t)):
                        nt = f.targs(t)[int(e[1])]
                t = nt
                var = None
        return n

    def op_node(self, b, o):
        if o[0] in ("cp", "mv"):
            return self.node(b, o[1])
        return None

    def edge(self, a, c, why):
        if a is not None and c is not None and a != c:
            self.edges.setdefault(a, []).append((c, why))

    # ---- sanitised urls
    def sanitizer(self, path):
        b = self.f.bodies.get(path)
        if b is None or "url::Url" not in self.f.ts(b.l[0]):
            return False
        return self.is_clean(b, 0, set())

    def defs(self, b):
        d = self.clean_locals.get(b.p)
        if d is None:
            d = {}
            for i, bl in enumerate(b.b):
                for s in bl["s"]:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append(("s", s, i))
                t = bl["t"]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append(("c", t, i))
            self.clean_locals[b.p] = d
        return d

    def is_clean(self, b, loc, seen):
        """Every definition of this url-carrying local had the password removed."""
        if (b.p, loc) in seen:
            return True
        seen = seen | {(b.p, loc)}
        # set_password(None) applied to a borrow of the local
        for i, bl in enumerate(b.b):
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and nrm(t[1][1]["p"]).endswith("Url::set_password"):
                if self.none_arg(b, t[2][1]) and self.base_of(b, t[2][0]) == loc:
                    return True
        ds = self.defs(b).get(loc, [])
        if not ds:
            return False
        for kind, x, i in ds:
            if kind == "s":
                if x[1][1]:
                    return False
                r = x[2]
                o = r[1] if r[0] == "use" else r[2] if r[0] == "cast" else None
                if r[0] in ("ref", "ptr"):
                    src = r[2]
                elif o is not None and o[0] in ("cp", "mv"):
                    src = o[1]
                elif o is not None:
                    continue
                elif r[0] == "agg":
                    if any(y[0] in ("cp", "mv") and self.dirty_op(b, y, seen) for y in r[2]):
                        return False
                    continue
                else:
                    return False
                if any(e[0] == "." for e in src[1]) and self.node(b, src)[0] != "L":
                    return False
                if not self.is_clean(b, src[0], seen):
                    return False
            else:
                t = x
                if t[1][0] != "fn":
                    return False
                path = t[1][1].get("r") or t[1][1]["p"]
                if self.sanitizer(path):
                    continue
                if any(o[0] == "fn" and self.sanitizer(o[1].get("r") or o[1]["p"]) for o in t[2]):
                    continue
                clos = [self.f.tdef(o[1][2]) for o in t[2] if o[0] in ("cp", "mv") and "closure" in self.f.ts(o[1][2])]
                if clos and all(c in self.f.bodies and self.sanitizer(c) for c in clos):
                    continue
                if path in self.f.bodies:
                    return False
                urls = [o for o in t[2] if o[0] in ("cp", "mv") and self.dirty_op(b, o, seen)]
                if urls:
                    return False
                if not any(o[0] in ("cp", "mv") and self.has_url(o[1][2]) for o in t[2]):
                    return False       # a url from nowhere we know
        return True

    def dirty_op(self, b, o, seen):
        t = o[1][2]
        return self.has_url(t) and not self.is_clean(b, o[1][0], seen)

    def none_arg(self, b, o):
        if o[0] == "c":
            return True
        if o[0] in ("cp", "mv"):
            for kind, x, i in self.defs(b).get(o[1][0], []):
                if kind == "s" and x[2][0] == "agg" and x[2][1][0] == "adt" and x[2][1][2] == "None":
                    return True
        return False

    def base_of(self, b, o):
        loc = o[1][0]
        for _ in range(6):
            ds = self.defs(b).get(loc, [])
            if len(ds) == 1 and ds[0][0] == "s" and ds[0][1][2][0] in ("ref", "ptr"):
                loc = ds[0][1][2][2][0]
            elif len(ds) == 1 and ds[0][0] == "s" and ds[0][1][2][0] == "use" and ds[0][1][2][1][0] in ("cp", "mv"):
                loc = ds[0][1][2][1][1][0]
            else:
                break
        return loc

    def url_dirty(self, b, o):
        return o[0] in ("cp", "mv") and self.dirty_op(b, o, set())

    # ---- building the graph
    def build(self):
        for b in self.f.bodies.values():
            re = b.reachable()
            for i, bl in enumerate(b.b):
                if i not in re:
                    continue
                for s in bl["s"]:
                    if s[0] == "=":
                        self.assign(b, s, i)
                if bl["t"][0] == "call":
                    self.call(b, bl["t"], bl["sp"])

    def filt(self, b, p):
        return self.stringy(p[2])

    def assign(self, b, s, i):
        dst = self.node(b, s[1])
        r = s[2]
        why = "%s %s" % (b.p, s[3])
        if r[0] in ("use", "cast"):
            o = r[1] if r[0] == "use" else r[2]
            if o[0] in ("cp", "mv"):
                if self.stringy(s[1][2]) and self.stringy(o[1][2]):
                    self.edge(self.node(b, o[1]), dst, why)
                if r[0] == "cast" and "dyn" in self.f.ts(s[1][2]) and self.url_dirty(b, o):
                    self.seed(dst, "a URL with its credentials, %s" % why)
        elif r[0] in ("ref", "ptr"):
            src = self.node(b, r[2])
            if self.stringy(s[1][2]):
                self.edge(src, dst, why)
                # writes through the borrow reach the place
                self.edge(dst, src, why)
        elif r[0] == "agg":
            kk = r[1]
            for j, o in enumerate(r[2]):
                src = self.op_node(b, o)
                if src is None or not self.stringy(o[1][2]):
                    continue
                if kk[0] == "adt" and kk[1] in self.local:
                    ad = self.f.adts[kk[1]]
                    nm = kk[3][j]
                    self.edge(src, ("F", kk[1], nm if len(ad["v"]) == 1 else kk[2] + "." + nm), why)
                elif kk[0] in ("closure", "coroutine"):
                    self.edge(src, ("U", kk[1], str(j)), why)
                else:
                    self.edge(src, dst, why)

    def seed(self, n, why):
        if n not in self.tainted:
            self.tainted[n] = (None, why)

    def call(self, b, t, sp):
        dst = self.node(b, t[3])
        dstok = self.stringy(t[3][2])
        if t[1][0] != "fn":
            for o in t[2]:
                n = self.op_node(b, o)
                if n is not None and dstok:
                    self.edge(n, dst, "%s %s" % (b.p, sp))
            return
        info = t[1][1]
        path = info.get("r") or info["p"]
        np = nrm(info["p"])
        why = "%s %s" % (b.p, sp)
        args = [(o, self.op_node(b, o)) for o in t[2]]
        urls = [o for o, n in args if n is not None and self.url_dirty(b, o)]
        if path in self.f.bodies:
            cb = self.f.bodies[path]
            for j, (o, n) in enumerate(args):
                if n is not None and j < cb.argc and self.stringy(cb.l[j + 1]):
                    self.edge(n, ("L", path, j + 1), why)
                    if self.f.tk(cb.l[j + 1]) == "ref":
                        self.edge(("L", path, j + 1), n, why)
            if dstok:
                self.edge(("L", path, 0), dst, why)
        else:
            short = np.split("::")[-1]
            if urls:
                if any(np.endswith(x) for x in self.url_leaks) or "fmt::" in np:
                    if "fmt::" not in np or np.endswith(("new_display", "new_debug")):
                        self.seed(dst, "a URL with its credentials, %s" % why)
            parse = "url::Url" in self.f.ts(t[3][2])
            if not parse:
                for o, n in args:
                    if n is None or self.has_url(o[1][2]) or not self.stringy(o[1][2]):
                        continue
                    if dstok:
                        self.edge(n, dst, why)
                    if "fmt::" in np:
                        continue
                    for o2, n2 in args:
                        if n2 is not None and n2 != n and self.f.tk(o2[1][2]) == "ref" and self.f.types[o2[1][2]].get("m") and self.stringy(o2[1][2]):
                            self.edge(n, n2, why)
        d = self.sinks(np, path, b)
        if d:
            for o, n in args:
                if n is not None:
                    self.sink_sites.append((b, n, o, d, sp))
                    if urls and o in urls:
                        self.sink_sites.append((b, None, o, d, sp))

    def run(self):
        work = list(self.tainted)
        while work:
            n = work.pop()
            for m, why in self.edges.get(n, ()):
                if m not in self.tainted:
                    self.tainted[m] = (n, why)
                    work.append(m)

    def chain(self, n, k=8):
        out = []
        while n is not None and len(out) < k:
            p, why = self.tainted[n]
            out.append(why)
            n = p
        return out
