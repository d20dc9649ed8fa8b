"""Strings with holes: sequences of literal pieces and unknown parts, and the operations of str on them.
A hole stands for any text without blanks at its ends; nothing else is assumed about it."""
from engine import C, TRUE, FALSE, NONE, Panic, some, ok, err
from lin import lin, add
from models import callv
from rules.c12 import last
from text import trueset
from wire import plain


def hole(n):
    return ("hole", n)


def S(*p):
    out = []
    for x in p:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            out.append(x)
    if not out:
        return C("")
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    return ("a", "str", tuple(out))


def pieces(v):
    v = plain(v)
    if v[0] == "c" and isinstance(v[1], str):
        return (v[1],) if v[1] else ()
    if v[:2] == ("a", "str") and len(v) == 3:
        return v[2]
    return None


def value(e, st, v):
    v = e.deep(st, v)
    for _ in range(6):
        p = pieces(v)
        if p is not None:
            return p
        if v[0] == "ref":
            try:
                v = e.deep(st, e.read_loc(st, v[1]))
            except Exception:
                return None
        elif v[0] == "deref":
            v = v[1]
        else:
            return None
    return None


def tlen(p):
    """Length as a linear form."""
    out = {}
    for x in p:
        if isinstance(x, str):
            out[None] = out.get(None, 0) + len(x.encode())
        else:
            out[("a", "hlen", x)] = out.get(("a", "hlen", x), 0) + 1
    return {k: c for k, c in out.items() if c}


def lens(t):
    if isinstance(t, tuple) and t[:2] == ("a", "tlen"):
        return tlen(t[2])
    return None


def at(p, pos):
    """(piece number, offset) of a position given as a linear form, or None."""
    here = {}
    for i, x in enumerate(p):
        d = add(pos, here, -1)
        if isinstance(x, str):
            if set(d) <= {None} and 0 <= d.get(None, 0) < len(x):
                return i, d.get(None, 0)
        elif not d:
            return i, 0
        here = add(here, tlen((x,)))
    if not add(pos, here, -1):
        return len(p), 0
    return None


def cut(p, a, b):
    """The part between two positions, or None."""
    if any(isinstance(x, str) and not x.isascii() for x in p):
        return None
    i, j = at(p, a), at(p, b)
    if i is None or j is None or i > j:
        return None
    out = []
    for k in range(i[0], min(j[0], len(p) - 1) + 1):
        x = p[k]
        if k == j[0]:
            x = x[:j[1]] if isinstance(x, str) else ""
        if k == i[0] and isinstance(x, str):
            x = x[i[1]:]
        out.append(x)
    return S(*out)


def lead(p):
    return p[0] if p and isinstance(p[0], str) else ""


def tail(p):
    return p[-1] if p and isinstance(p[-1], str) else ""


def starts(p, c, fold=False):
    a = lead(p)
    if fold:
        a, c = a.lower(), c.lower()
    if a.startswith(c):
        return True
    if not c.startswith(a) or len(p) < 2:
        return False
    return None


def ends(p, c):
    a = tail(p)
    if a.endswith(c):
        return True
    if not c.endswith(a) or len(p) < 2:
        return False
    return None


def equal(p, c, fold=False):
    if len(p) <= 1 and all(isinstance(x, str) for x in p):
        a = "".join(p)
        return a.lower() == c.lower() if fold else a == c
    s, t = starts(p, c[:len(lead(p))], fold), (tail(p).lower() if fold else tail(p))
    if s is False or len(c) < sum(len(x) for x in p if isinstance(x, str)) or not (c.lower() if fold else c).endswith(t):
        return False
    return None


def truth(x):
    return None if x is None else C(x)


STRIP = " \t\n\r"


def hooks(e):
    def pred(st, v, site, byref=False):
        """Characters a pattern matches, if it is known for sure."""
        r = trueset(e, st, e.deep(st, v), byref, site)
        if r is None or r[0] & r[1]:
            return None
        return r[0]

    def bound(st, v):
        return lin(e.deep(st, v), lens)

    def run(e, st, call):
        n = call.name
        if not call.args:
            return None
        s = value(e, st, call.args[0])
        if s is None:
            return iterate(e, st, call)
        if n in ("eq_ignore_ascii_case", "eq", "ne") and len(call.args) == 2:
            o = value(e, st, call.args[1])
            if o is None:
                return None
            if len(o) > 1 or o and not isinstance(o[0], str):
                s, o = o, s
            if len(o) > 1 or o and not isinstance(o[0], str):
                return None
            r = equal(s, "".join(o), n == "eq_ignore_ascii_case")
            if r is None:
                return None
            return [(st, C(r != (n == "ne")))]
        if n in ("to_ascii_lowercase", "to_lowercase", "to_ascii_uppercase", "to_uppercase"):
            f = str.lower if "lower" in n else str.upper
            return [(st, S(*[f(x) if isinstance(x, str) else ("hole", (n, x)) for x in s]))]
        if n in ("deref", "as_ref", "borrow", "as_str", "to_string", "to_owned", "into", "from", "clone", "as_bytes", "into_owned", "must_use"):
            return [(st, S(*s))]
        if n == "len":
            return [(st, C(len("".join(s).encode())) if all(isinstance(x, str) for x in s) else ("a", "tlen", s))]
        if n == "is_empty":
            return [(st, C(not s))]
        if n in ("index", "get", "get_unchecked") and len(call.args) == 2:
            r = plain(e.deep(st, call.args[1]))
            if r[0] == "adt" and "Range" in r[1]:
                d = dict(r[3])
                a = bound(st, d["start"]) if "start" in d else {}
                b = bound(st, d["end"]) if "end" in d else tlen(s)
                if "Inclusive" in r[1]:
                    if "end" not in d:
                        return None
                    b = add(b, {None: 1})
                x = cut(s, a, b)
                if x is None:
                    if set(b) <= {None} and set(a) <= {None} and (a.get(None, 0) > b.get(None, 0)):
                        return [(st, NONE if n == "get" else Panic("slice", ("str", 0, "")))]
                    x = e.fresh(st, "part", call.site[0], call.site[1])
                    if n == "get":
                        s2 = st.copy()
                        return [(st, some(x)), (s2, NONE)]
                return [(st, some(x) if n == "get" else x)]
            return None
        if n in ("trim", "trim_start", "trim_end"):
            p = list(s)
            if p and isinstance(p[0], str) and n != "trim_end":
                p[0] = p[0].lstrip(STRIP)
            if p and isinstance(p[-1], str) and n != "trim_start":
                p[-1] = p[-1].rstrip(STRIP)
            return [(st, S(*p))]
        if n in ("starts_with", "ends_with", "strip_prefix", "strip_suffix", "trim_matches", "trim_start_matches", "trim_end_matches", "find", "rfind", "contains", "split_once", "rsplit_once", "split_at") and len(call.args) == 2:
            if n == "split_at":
                b = bound(st, call.args[1])
                x, y = cut(s, {}, b), cut(s, b, tlen(s))
                return None if x is None or y is None else [(st, ("tup", (x, y)))]
            o = value(e, st, call.args[1])
            o = "".join(o) if o is not None and all(isinstance(x, str) for x in o) else None
            cs = None if o is not None else pred(st, call.args[1], call.site)
            if o is None and cs is None:
                return None
            front = lambda x: x.startswith(o) if o is not None else bool(x) and ord(x[0]) in cs
            if n in ("starts_with", "strip_prefix", "ends_with", "strip_suffix"):
                fwd = n in ("starts_with", "strip_prefix")
                if o is not None:
                    r = starts(s, o) if fwd else ends(s, o)
                    k = len(o)
                else:
                    x = lead(s)[:1] if fwd else tail(s)[-1:]
                    r = (ord(x) in cs) if x else (None if s else False)
                    k = 1
                if n in ("starts_with", "ends_with"):
                    return None if r is None else [(st, C(r))]
                if r is None:
                    return None
                if not r:
                    return [(st, NONE)]
                p = list(s)
                if fwd:
                    p[0] = p[0][k:]
                else:
                    p[-1] = p[-1][:len(p[-1]) - k]
                return [(st, some(S(*p)))]
            if n.startswith("trim"):
                p = list(s)
                if n != "trim_end_matches":
                    while p and isinstance(p[0], str) and p[0] and front(p[0]):
                        p[0] = p[0][len(o) if o else 1:]
                        p = [x for x in p if x]
                if n != "trim_start_matches":
                    while p and isinstance(p[-1], str) and p[-1] and (p[-1].endswith(o) if o else ord(p[-1][-1]) in cs):
                        p[-1] = p[-1][:-(len(o) if o else 1)]
                        p = [x for x in p if x]
                return [(st, S(*p))]
            # the first / last occurrence is known only if no hole comes before it
            rev = n in ("rfind", "rsplit_once")
            x = tail(s) if rev else lead(s)
            hit = [i for i in range(len(x)) if (x[i:].startswith(o) if o else ord(x[i]) in cs)]
            if not hit and len(s) > 1:
                return None
            if n == "contains":
                return [(st, C(bool(hit)))]
            if not hit:
                return [(st, NONE)]
            i = hit[-1] if rev else hit[0]
            pos = {None: i} if not rev else add(add(tlen(s), {None: -len(x)}), {None: i})
            if n == "find" or n == "rfind" and set(pos) <= {None}:
                return [(st, some(C(i)))]
            if n == "rfind":
                t = C(pos.get(None, 0))
                for k, c in pos.items():
                    if k is not None:
                        for _ in range(c):
                            t = ("op", "Add", t, k)
                return [(st, some(t))]
            k = len(o) if o else 1
            a, b = cut(s, {}, pos), cut(s, add(pos, {None: k}), tlen(s))
            return [(st, some(("tup", (a, b))))]
        if n in ("bytes", "chars", "char_indices", "iter", "into_iter"):
            return [(st, ("a", "walk", n, s, 0, 0))]
        if n == "parse":
            return [(st, ("a", "call", call.path, (S(*s), ("a", "as", call.f and e.f.ts((call.info.get("a") or [None])[-1]) if call.info.get("a") else ""))))]
        return None

    def step(st, w):
        """(item, rest) of a walk over a string; item None: over; None: not known."""
        _, _, kind, s, i, c = w
        if kind == "enumerate":
            r = step(st, s)
            if r is None or r[0] is None:
                return r
            return ("tup", (C(c), r[0])), ("a", "walk", kind, r[1], i, c + 1)
        if kind == "list":
            return (None, w) if i >= len(s) else (s[i], ("a", "walk", kind, s, i + 1, c))
        x = lead(s)
        if i < len(x):
            item = C(ord(x[i])) if x.isascii() else None
            if item is None:
                return None
            return (("tup", (C(i), item)) if kind == "char_indices" else item), ("a", "walk", kind, s, i + 1, c)
        if len(s) <= 1:
            return None, w
        return None

    def iterate(e, st, call):
        n = call.name
        v = call.args[0]
        loc = None
        if v[0] == "ref":
            loc = v[1]
            try:
                v = e.deep(st, e.read_loc(st, loc))
            except Exception:
                return None
        else:
            v = e.deep(st, v)
        if v[:2] != ("a", "walk"):
            return None
        if n in ("by_ref", "into_iter", "iter"):
            return [(st, call.args[0] if n == "by_ref" else v)]
        if n == "enumerate":
            return [(st, ("a", "walk", "enumerate", v, 0, 0))]
        if n in ("copied", "cloned"):
            return [(st, v)]
        if n == "next" and loc is not None:
            r = step(st, v)
            if r is None:
                e.write_loc(st, loc, ("a", "walked"))
                return None
            e.write_loc(st, loc, r[1])
            return [(st, NONE if r[0] is None else some(r[0]))]
        if n in ("position", "find", "any", "all", "rposition", "find_map") and len(call.args) == 2 and n not in ("rposition",):
            out, cur = [], [(st, v, 0)]
            while cur:
                s0, w, k = cur.pop()
                r = step(s0, w)
                if r is None or k > 200:
                    return None
                item, w = r
                if item is None:
                    out.append((s0, C(n == "all") if n in ("any", "all") else NONE))
                    continue
                arg = item
                if n == "find":
                    cell = ("K", k, "item")
                    s0.mem[cell] = item
                    arg = ("ref", (cell, ()))
                for s1, t in callv(e, s0, call.args[1], [arg], call.site):
                    if isinstance(t, Panic):
                        out.append((s1, t))
                    elif n == "find_map":
                        if t == NONE:
                            cur.append((s1, w, k + 1))
                        elif t[0] == "adt" and t[2] == "Some":
                            out.append((s1, t))
                        else:
                            return None
                    elif t[0] != "c":
                        return None
                    elif (t[1] in (True, 1)) != (n == "all"):
                        out.append((s1, C(n != "all") if n in ("any", "all") else some(C(k)) if n == "position" else some(item)))
                    else:
                        cur.append((s1, w, k + 1))
            if loc is not None:
                for s1, _ in out:
                    e.write_loc(s1, loc, ("a", "walked"))
            return out
        return None
    e.hooks.insert(0, run)
