"""Fact base: loads the MIR dump produced by driver/ and offers lookups."""
import json


class Body:
    __slots__ = ("j", "p", "k", "n", "sp", "argc", "l", "names", "b", "parent", "vis",
                 "self_ty", "trait", "targs", "unsafe", "intrait", "_succ", "_heads", "_preds", "locname",
                 "_loopbody", "_rpo")

    def __init__(self, j):
        self.j = j
        self.p = j["p"]
        self.k = j["k"]
        self.n = j["n"]
        self.sp = j["sp"]
        self.argc = j["argc"]
        self.l = j["l"]
        self.names = j["names"]
        self.b = j["b"]
        self.parent = j.get("parent")
        self.vis = j.get("vis")
        self.self_ty = j.get("self")
        self.trait = j.get("trait")
        self.targs = j.get("targs")
        self.unsafe = j.get("unsafe", False)
        self.intrait = j.get("intrait")
        self._succ = None
        self._heads = None
        self._preds = None
        self._loopbody = None
        self._rpo = None
        self.locname = {}
        for n, pl in self.names:
            if not pl[1]:
                self.locname.setdefault(pl[0], n)

    def succ(self, i):
        """Normal (non-unwind) successors of block i."""
        if self._succ is None:
            self._succ = [self._succs(b["t"]) for b in self.b]
        return self._succ[i]

    @staticmethod
    def _succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]] + [t[3]]
            out = []
            for x in r:
                if x not in out:
                    out.append(x)
            return out
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[5]]
        if k == "yield":
            return [t[2]]
        return []

    def reachable(self):
        seen, st = set(), [0]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.succ(x))
        return seen

    def preds(self):
        if self._preds is None:
            self._preds = {i: [] for i in range(len(self.b))}
            for i in self.reachable():
                for x in self.succ(i):
                    self._preds[x].append(i)
        return self._preds

    def loops(self):
        """dict head -> set(blocks) of the natural loops (back edges found by DFS)."""
        if self._loopbody is not None:
            return self._loopbody
        color, back = {}, []
        st = [(0, iter(self.succ(0)))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color.get(v) is None:
                    color[v] = 1
                    st.append((v, iter(self.succ(v))))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                st.pop()
        res = {}
        pr = self.preds()
        for u, h in back:
            body = res.setdefault(h, {h})
            work = [u]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pr[x])
        self._loopbody = res
        return res


class Facts:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.adts = {a["d"]: a for a in d["adts"]}
        self.impls = d["impls"]
        self.missing = d["missing"]
        self.bodies = {}
        self.dups = []
        for j in d["bodies"]:
            b = Body(j)
            k = b.p
            if k in self.bodies:
                i = 2
                while "%s#%d" % (k, i) in self.bodies:
                    i += 1
                self.dups.append(k)
                k = "%s#%d" % (k, i)
                b.p = k
            self.bodies[k] = b
        # trait impl table: trait path -> list of (self type id, {method: path})
        self.timpls = {}
        for im in self.impls:
            if "trait" in im:
                self.timpls.setdefault(im["trait"], []).append(
                    (im["self"], dict((a, b) for a, b in im["items"]), im))

    # ---- types
    def ts(self, t):
        return self.types[t]["s"]

    def tk(self, t):
        return self.types[t]["k"]

    def tdef(self, t):
        return self.types[t].get("d")

    def targs(self, t):
        return self.types[t].get("a", [])

    def peel(self, t):
        """Strip references."""
        while self.tk(t) in ("ref", "ptr"):
            t = self.targs(t)[0]
        return t

    def adt_of(self, t):
        t = self.peel(t)
        return self.adts.get(self.tdef(t)) if self.tk(t) == "adt" else None

    def is_adt(self, t, suffix):
        t = self.peel(t)
        d = self.tdef(t) if self.tk(t) == "adt" else None
        return d is not None and (d == suffix or d.endswith("::" + suffix))

    def fn(self, suffix, kind=None):
        r = [b for p, b in self.bodies.items() if p == suffix or p.endswith("::" + suffix)]
        if kind:
            r = [b for b in r if b.k == kind]
        return r

    def discr(self, adt, variant):
        for v in self.adts[adt]["v"]:
            if v["n"] == variant:
                return v["d"]
        return None

    def variant_of(self, adt, d):
        for v in self.adts[adt]["v"]:
            if v["d"] == d:
                return v["n"]
        return None


def fmt_place(f, b, p):
    s = b.locname.get(p[0], "_%d" % p[0])
    if p[0] in b.locname:
        s = "%s_%d" % (b.locname[p[0]], p[0])
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == ".":
            s += "." + e[1]
        elif e[0] == "as":
            s += "@" + e[1]
        elif e[0] == "[]":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def fmt_op(f, b, o):
    if o[0] in ("cp", "mv"):
        return ("" if o[0] == "cp" else "move ") + fmt_place(f, b, o[1])
    if o[0] == "fn":
        return "fn<%s>" % (o[1].get("r") or o[1]["p"])
    if o[0] == "c":
        c = o[1]
        return repr(c["v"]) if "v" in c else c.get("path") or c.get("dbg")
    return str(o)


def fmt_rv(f, b, r):
    k = r[0]
    if k == "use":
        return fmt_op(f, b, r[1])
    if k == "ref":
        return "&%s %s" % (r[1], fmt_place(f, b, r[2]))
    if k == "bin":
        return "%s(%s, %s)" % (r[1], fmt_op(f, b, r[2]), fmt_op(f, b, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], fmt_op(f, b, r[2]))
    if k == "discr":
        return "discr(%s)" % fmt_place(f, b, r[1])
    if k == "cast":
        return "%s as %s [%s]" % (fmt_op(f, b, r[2]), f.ts(r[3]), r[5])
    if k == "agg":
        return "%s(%s)" % (":".join(map(str, r[1][:3])), ", ".join(fmt_op(f, b, x) for x in r[2]))
    if k == "ptr":
        return "&raw %s" % fmt_place(f, b, r[2])
    return str(r)


def dump(f, b, cleanup=False):
    out = ["== %s [%s] %s argc=%d" % (b.p, b.k, b.sp, b.argc)]
    for i, t in enumerate(b.l):
        if i <= b.argc or i in b.locname:
            out.append("   _%d %s: %s" % (i, b.locname.get(i, ""), f.ts(t)))
    re = b.reachable()
    for i, bl in enumerate(b.b):
        if (bl["c"] or i not in re) and not cleanup:
            continue
        out.append(" bb%d:" % i)
        for s in bl["s"]:
            if s[0] == "=":
                out.append("    %s = %s" % (fmt_place(f, b, s[1]), fmt_rv(f, b, s[2])))
            elif s[0] != "dead":
                out.append("    " + str(s))
        t = bl["t"]
        if t[0] == "call":
            out.append("    %s = %s(%s) -> %s   // %s" % (
                fmt_place(f, b, t[3]), fmt_op(f, b, t[1]), ", ".join(fmt_op(f, b, x) for x in t[2]), t[4], bl["sp"]))
        elif t[0] == "switch":
            out.append("    switch %s %s else %s" % (fmt_op(f, b, t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("    drop %s -> %s" % (fmt_place(f, b, t[1]), t[2]))
        elif t[0] == "assert":
            out.append("    assert %s == %s %s -> %s" % (fmt_op(f, b, t[1]), t[2], t[3], t[5]))
        else:
            out.append("    " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys
    f = Facts(sys.argv[1])
    if len(sys.argv) == 2:
        for p, b in sorted(f.bodies.items()):
            print(b.k, p)
        print("missing", f.missing, "dups", f.dups)
    for q in sys.argv[2:]:
        for p, b in f.bodies.items():
            if q in p:
                print(dump(f, b))
