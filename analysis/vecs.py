"""Vectors, slices and iterators whose number of elements is known: ("arr", (elements)) in a cell.
Elements are reached through references into the cell, so that what is done to them stays in the vector."""
from engine import Panic, C, TRUE, FALSE, OPT, RES, NONE, UNIT, some, ok, err
from models import callv, nrm

IT = "v:iter"
SITE_NONE = NONE


def it(items):
    return ("adt", IT, None, (("items", ("arr", tuple(items))),), None)


def items_of(v):
    return list(dict(v[3])["items"][1]) if v[0] == "adt" and v[1] == IT else None


def locate(e, st, v):
    """The location a reference leads to, through references to references."""
    for _ in range(6):
        if not (isinstance(v, tuple) and v and v[0] == "ref"):
            return None
        x = e.read_loc(st, v[1])
        if isinstance(x, tuple) and x and x[0] == "ref":
            v = x
            continue
        return v[1]
    return None


def content(e, st, v):
    """(location or None, value)"""
    loc = locate(e, st, v)
    x = e.read_loc(st, loc) if loc is not None else v
    if isinstance(x, tuple) and x and x[0] == "repeat" and isinstance(x[2], int) and x[2] <= 32:
        x = ("arr", (x[1],) * x[2])
    return loc, x


def elems(e, st, v):
    """Elements v runs over: references when v is a reference to a vector, else values; None if v is no known sequence."""
    loc, x = content(e, st, v)
    if isinstance(x, tuple) and x and x[0] == "arr":
        if loc is not None:
            return [("ref", (loc[0], loc[1] + (("[]", C(i)),))) for i in range(len(x[1]))]
        return list(x[1])
    if isinstance(x, tuple) and x and x[0] == "adt" and x[1] == IT:
        return items_of(x)
    if isinstance(x, tuple) and x and x[0] == "adt" and x[1].endswith("ops::Range"):
        d = dict(x[3])
        a, b = d["start"], d["end"]
        if a[0] == "c" and b[0] == "c" and b[1] - a[1] < 16:
            return [C(i) for i in range(a[1], b[1])]
    if isinstance(x, tuple) and x and x[0] == "adt" and x[1] == OPT and x[2] in ("Some", "None"):
        return [dict(x[3])["0"]] if x[2] == "Some" else []
    return None


def clo(e, st, call, fv, args):
    return [(s, y) for s, y in callv(e, st.copy(), fv, args, call.site)]


def truth(e, st, v):
    """[(state, bool)]"""
    v = e.deep(st, v)
    if v[0] == "c":
        return [(st, bool(v[1]))]
    out = []
    for b in (True, False):
        s = st.copy()
        if e.assume(s, v, b):
            out.append((s, b))
    return out


SEQ = ("Vec", "slice", "[T]", "Iterator", "iter::", "array", "Option", "SmallVec", "IntoIter")


def hook(e, st, call):
    n = call.name
    p = nrm(call.p) + " " + (call.trait or "")
    a = call.args
    if n in ("new", "with_capacity") and "Vec" in p:
        return [(st, ("arr", ()))]
    if n == "default" and "Vec" in str(e.f.ts(call.rett) if isinstance(call.rett, int) else call.rett)[:20]:
        return [(st, ("arr", ()))]
    if not a:
        return None
    if n == "box_assume_init_into_vec_unsafe":
        from models import m_box_vec
        v = m_box_vec(e, st, call)[0][1][3][0]
        return [(st, v)] if v[0] == "arr" else None
    if n == "from_elem" and len(a) == 2 and a[1][0] == "c" and a[1][1] < 16:
        return [(st, ("arr", (a[0],) * a[1][1]))]
    if n in ("into_iter", "iter", "iter_mut", "drain", "into_vec", "into_boxed_slice") and ("ter" in p or "lice" in p or "Vec" in p):
        loc, x = content(e, st, a[0])
        if n in ("into_vec", "into_boxed_slice") and x[0] == "arr":
            return [(st, x)]
        if x[0] == "adt" and x[1] == IT:
            return [(st, x)]
        if x[0] == "adt" and x[1].endswith("Range"):
            return None
        if x[0] == "adt" and x[1] == OPT and n == "into_iter":
            return None
        l = elems(e, st, a[0])
        if l is None:
            return None
        if n == "drain":
            l = list(x[1])
            s = st.copy()
            if len(a) > 1 and "RangeFull" not in str(a[1]):
                return None
            e.write_loc(s, loc, ("arr", ()))
            return [(s, it(l))]
        return [(st, it(l))]
    loc, x = content(e, st, a[0])
    if not isinstance(x, tuple) or not x:
        return None
    isarr, isit = x[0] == "arr", x[0] == "adt" and x[1] == IT
    if x[0] == "adt" and x[1].endswith("ops::Range") and n in ("map", "for_each", "enumerate", "zip", "rev", "filter", "any", "all", "fold", "try_for_each", "filter_map", "flat_map"):
        l = elems(e, st, x)
        if l is None:
            return None
        x = it(l)
        isit = True
    if isarr:
        r = vec(e, st, call, n, a, loc, x)
        if r is not None:
            return r
    if isit:
        return iterator(e, st, call, n, a, loc, x)
    return None


def vec(e, st, call, n, a, loc, x):
    l = list(x[1])

    def put(l2, v):
        s = st.copy()
        e.write_loc(s, loc, ("arr", tuple(l2)))
        return [(s, v)]

    def ref(i):
        return ("ref", (loc[0], loc[1] + (("[]", C(i)),))) if loc is not None else ("ref", (("H", l[i]), ()))
    if n == "len":
        return [(st, C(len(l)))]
    if n == "is_empty":
        return [(st, TRUE if not l else FALSE)]
    if n in ("first", "last", "first_mut", "last_mut"):
        return [(st, some(ref(0 if n.startswith("first") else len(l) - 1)) if l else NONE)]
    if n in ("reserve", "reserve_exact", "shrink_to_fit"):
        return [(st, UNIT)]
    if n in ("clone", "to_vec", "to_owned") or n in ("from", "into") and "Vec" in (e.f.ts(call.rett) if isinstance(call.rett, int) else str(call.rett))[:20]:
        return [(st, x)]
    if n in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "deref", "deref_mut", "borrow"):
        return [(st, a[0])]
    if loc is None:
        return None
    if n == "push" and len(a) == 2:
        return put(l + [a[1]], UNIT)
    if n == "pop":
        return put(l[:-1], some(l[-1])) if l else [(st, NONE)]
    if n == "clear":
        return put([], UNIT)
    k = a[1] if len(a) > 1 else None
    k = e.deep(st, k) if k is not None else None
    if n == "truncate" and k[0] == "c":
        return put(l[:k[1]], UNIT)
    if n in ("index", "index_mut", "get", "get_mut", "get_unchecked", "remove", "swap_remove") and k is not None and k[0] == "c" and isinstance(k[1], int):
        i = k[1]
        if i >= len(l):
            return [(st, NONE if n in ("get", "get_mut") else Panic("index out of bounds", call.site))]
        if n in ("remove", "swap_remove"):
            return put(l[:i] + l[i + 1:] if n == "remove" else (l[:i] + [l[-1]] + l[i + 1:-1] if i < len(l) - 1 else l[:-1]), l[i])
        return [(st, some(ref(i)) if n.startswith("get") and n != "get_unchecked" else ref(i))]
    if n in ("index", "get") and k is not None and k[0] == "adt" and "Range" in k[1]:
        d = dict(k[3])
        s0, s1 = d.get("start", C(0)), d.get("end", C(len(l)))
        if s0[0] == "c" and s1[0] == "c" and 0 <= s0[1] <= s1[1] <= len(l) and "Inclusive" not in k[1]:
            v = ("ref", (("H", ("arr", tuple(l[s0[1]:s1[1]]))), ()))
            s = st.copy()
            s.mem[v[1][0]] = v[1][0][1]
            return [(s, v if n == "index" else some(v))]
    if n == "insert" and k[0] == "c":
        return put(l[:k[1]] + [a[2]] + l[k[1]:], UNIT)
    if n == "swap" and k[0] == "c" and a[2][0] == "c":
        l[k[1]], l[a[2][1]] = l[a[2][1]], l[k[1]]
        return put(l, UNIT)
    if n in ("copy_from_slice", "clone_from_slice") and len(a) == 2:
        y = content(e, st, a[1])[1]
        return put(list(y[1]) if y[0] == "arr" else [("a", "elem", y, C(i)) for i in range(len(l))], UNIT)
    if n == "reverse":
        return put(l[::-1], UNIT)
    if n in ("extend", "append", "extend_from_slice") and len(a) == 2:
        lo, y = content(e, st, a[1])
        more = elems(e, st, a[1])
        if more is None:
            return None
        if n == "extend" and "Extend<&" in call.p:
            more = [content(e, st, z)[1] for z in more]
        if n != "extend":
            more = list(y[1]) if y[0] == "arr" else more
        s = st.copy()
        e.write_loc(s, loc, ("arr", tuple(l + more)))
        if n == "append":
            e.write_loc(s, lo, ("arr", ()))
        return [(s, UNIT)]
    if n == "contains" and len(a) == 2:
        y = e.deep(st, content(e, st, a[1])[1])
        out, cur = [], [st]
        for z in l:
            nxt = []
            from engine import mk_op
            for s in cur:
                for s2, b in truth(e, s, mk_op("Eq", e.deep(s, z), y)):
                    (out.append((s2, TRUE)) if b else nxt.append(s2))
            cur = nxt
        return out + [(s, FALSE) for s in cur]
    if n == "windows" and k[0] == "c":
        w = []
        for i in range(len(l) - k[1] + 1):
            w.append(("ref", (("H", ("arr", tuple(l[i:i + k[1]]))), ())))
        s = st.copy()
        for r in w:
            s.mem[r[1][0]] = r[1][0][1]
        return [(s, it(w))]
    return None


def iterator(e, st, call, n, a, loc, x):
    l = items_of(x)

    def put(l2, v, s=None):
        s = (s or st).copy()
        if loc is not None:
            e.write_loc(s, loc, it(l2))
        return [(s, v)]
    k = e.deep(st, a[1]) if len(a) > 1 else None
    if n == "next":
        return put(l[1:], some(l[0])) if l else [(st, NONE)]
    if n == "next_back":
        return put(l[:-1], some(l[-1])) if l else [(st, NONE)]
    if n in ("by_ref",):
        return [(st, a[0])]
    if n in ("len", "count"):
        return [(st, C(len(l)))]
    if n == "size_hint":
        return [(st, ("tup", (C(len(l)), some(C(len(l))))))]
    if n == "enumerate":
        return [(st, it([("tup", (C(i), y)) for i, y in enumerate(l)]))]
    if n == "rev":
        return [(st, it(l[::-1]))]
    if n in ("cloned", "copied"):
        return [(st, it([content(e, st, y)[1] for y in l]))]
    if n in ("skip", "take", "step_by") and k[0] == "c":
        return [(st, it(l[k[1]:] if n == "skip" else l[:k[1]] if n == "take" else l[::k[1]]))]
    if n in ("fuse", "peekable", "into_iter", "iter"):
        return [(st, x)]
    if n == "peek":
        return [(st, some(("ref", (("H", l[0]), ()))) if l else NONE)]
    if n in ("zip", "chain"):
        m = elems(e, st, a[1])
        if m is None:
            y = content(e, st, a[1])[1]
            if n == "zip" and y[0] == "adt" and "RangeFrom" in y[1]:
                s0 = dict(y[3])["start"]
                m = [C(s0[1] + i) for i in range(len(l))] if s0[0] == "c" else None
        if m is None:
            return None
        return [(st, it([("tup", (p, q)) for p, q in zip(l, m)] if n == "zip" else l + m))]
    if n == "nth" and k[0] == "c":
        return put(l[k[1] + 1:], some(l[k[1]]) if k[1] < len(l) else NONE)
    if n == "last":
        return [(st, some(l[-1]) if l else NONE)]
    if n == "unzip":
        return [(st, ("tup", (("arr", tuple(e.deep(st, y)[1][0] for y in l)), ("arr", tuple(e.deep(st, y)[1][1] for y in l)))))]
    if n in ("collect", "from_iter"):
        t = e.f.ts(call.rett) if isinstance(call.rett, int) else str(call.rett)
        if "Result<" in t[:30] or "Option<" in t[:30]:
            adt, good = (RES, "Ok") if "Result<" in t[:30] else (OPT, "Some")
            out, cur = [], [(st, [])]
            for y in l:
                nxt = []
                for s, done in cur:
                    for s2, var in e.split(s, y, adt):
                        if var == good:
                            nxt.append((s2, done + [e.payload(y, good)]))
                        else:
                            out.append((s2, err(e.payload(y, "Err")) if adt == RES else NONE))
                cur = nxt
            return out + [(s, (ok if adt == RES else some)(("arr", tuple(d)))) for s, d in cur]
        if "Vec<" in t[:20] or "Box<[" in t[:30] or "VecDeque" in t[:40]:
            return [(st, ("arr", tuple(l)))]
        return None
    if n in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "map_while"):
        out, cur = [], [(st, [], False)]
        for y in l:
            nxt = []
            for s, done, stop in cur:
                if stop:
                    nxt.append((s, done, True))
                    continue
                arg = y
                if n in ("filter", "inspect", "take_while", "skip_while"):
                    arg = ("ref", (("H", y), ()))
                    s = s.copy()
                    s.mem[arg[1][0]] = y
                for s2, z in clo(e, s, call, k, [arg]):
                    if isinstance(z, Panic):
                        out.append((s2, z))
                    elif n == "map":
                        nxt.append((s2, done + [z], False))
                    elif n == "inspect":
                        nxt.append((s2, done + [y], False))
                    elif n in ("filter", "take_while", "skip_while"):
                        for s3, b in truth(e, s2, z):
                            if n == "filter":
                                nxt.append((s3, done + ([y] if b else []), False))
                            elif n == "take_while":
                                nxt.append((s3, done + ([y] if b else []), not b))
                            else:
                                nxt.append((s3, done + ([] if b and not done else [y]), False))
                    elif n in ("filter_map", "map_while"):
                        for s3, var in e.split(s2, z, OPT):
                            nxt.append((s3, done + ([e.payload(z, "Some")] if var == "Some" else []), n == "map_while" and var == "None"))
                    else:
                        m = elems(e, s2, z)
                        if m is None:
                            return None
                        nxt.append((s2, done + m, False))
            cur = nxt
        return out + [(s, it(d)) for s, d, _ in cur]
    if n in ("find", "position", "any", "all", "find_map", "rposition"):
        out, cur = [], [st]
        order = list(enumerate(l))
        if n == "rposition":
            order = order[::-1]
        for i, y in order:
            nxt = []
            for s in cur:
                arg = y
                if n == "find":
                    arg = ("ref", (("K", len(e.stack), "v:find", call.site[0], call.site[1], i), ()))
                    s = s.copy()
                    s.mem[arg[1][0]] = y
                for s2, z in clo(e, s, call, k, [arg]):
                    if isinstance(z, Panic):
                        out.append((s2, z))
                    elif n == "find_map":
                        for s3, var in e.split(s2, z, OPT):
                            if var == "Some":
                                out += put(l[i + 1:], z, s3)
                            else:
                                nxt.append(s3)
                    else:
                        for s3, b in truth(e, s2, z):
                            if b != (n == "all"):
                                out += put(l[i + 1:], some(y) if n == "find" else some(C(i)) if "position" in n else TRUE if n == "any" else FALSE, s3)
                            else:
                                nxt.append(s3)
            cur = nxt
        end = NONE if n in ("find", "position", "find_map", "rposition") else FALSE if n == "any" else TRUE
        return out + sum((put([], end, s) for s in cur), [])
    if n in ("for_each", "try_for_each", "fold", "try_fold"):
        out, cur = [], [(st, a[1] if "fold" in n else UNIT)]
        fv = a[2] if "fold" in n else a[1]
        t = e.f.ts(call.rett) if isinstance(call.rett, int) else str(call.rett)
        adt, good = (OPT, "Some") if "Option" in t[:25] else (RES, "Ok")
        for y in l:
            nxt = []
            for s, acc in cur:
                for s2, z in clo(e, s, call, fv, [acc, y] if "fold" in n else [y]):
                    if isinstance(z, Panic):
                        out.append((s2, z))
                    elif n.startswith("try"):
                        for s3, var in e.split(s2, z, adt):
                            if var == good:
                                nxt.append((s3, e.payload(z, good)))
                            else:
                                out.append((s3, err(e.payload(z, "Err")) if adt == RES else NONE))
                    else:
                        nxt.append((s2, z if n == "fold" else UNIT))
            cur = nxt
        fin = (ok if adt == RES else some) if n.startswith("try") else (lambda v: v)
        return out + [(s, fin(v)) for s, v in cur]
    if n in ("sum", "product", "max", "min"):
        vals = [e.deep(st, content(e, st, y)[1]) for y in l]
        from engine import mk_op
        if n == "sum":
            acc = C(0)
            for v in vals:
                acc = mk_op("Add", acc, v)
            return [(st, acc)]
        if all(v[0] == "c" for v in vals) and n in ("max", "min"):
            return [(st, some((max if n == "max" else min)(vals, key=lambda v: v[1])) if vals else NONE)]
    return None
