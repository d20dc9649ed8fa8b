"""Linear normal form of integer terms: {atom: coefficient}, constant under key None.
Widening and same-width casts are looked through (see `narrow` for the ones that are not)."""
from models import nrm

TRANSPARENT = {"u32", "i32", "usize", "u64", "i64", "isize", "u128", "i128"}


def strip(v):
    while isinstance(v, tuple) and v and v[0] == "cast" and v[1] in TRANSPARENT:
        v = v[2]
    return v


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]:
            del r[x]
    return r


def lin(v, hook=None):
    v = strip(v)
    if isinstance(v, tuple):
        if v[0] == "c" and isinstance(v[1], int) and not isinstance(v[1], bool):
            return {None: v[1]} if v[1] else {}
        if v[0] == "op" and len(v) == 4:
            o = v[1].replace("WithOverflow", "").replace("Unchecked", "")
            if o in ("Add", "Sub"):
                return add(lin(v[2], hook), lin(v[3], hook), 1 if o == "Add" else -1)
            if o == "Mul":
                a, b = lin(v[2], hook), lin(v[3], hook)
                for p, q in ((a, b), (b, a)):
                    if set(p) <= {None}:
                        k = p.get(None, 0)
                        return {x: c * k for x, c in q.items() if c * k}
        if v[0] == "fld" and v[1][0] == "dc" and v[1][2] in ("Some", "Ok", "Continue"):
            x = v[1][1]
            if isinstance(x, tuple) and len(x) == 4 and x[:2] == ("a", "call"):
                n = nrm(x[2]).split("::")[-1]
                if n in ("checked_sub", "checked_add"):
                    return add(lin(x[3][0], hook), lin(x[3][1], hook), -1 if n == "checked_sub" else 1)
                if n in ("try_from", "try_into") and x[3]:
                    return lin(x[3][0], hook)
        if len(v) == 4 and v[:2] == ("a", "call"):
            n = nrm(v[2]).split("::")[-1]
            if n in ("wrapping_sub", "wrapping_add"):
                return add(lin(v[3][0], hook), lin(v[3][1], hook), -1 if n == "wrapping_sub" else 1)
            if n in ("into", "from") and len(v[3]) == 1:
                return lin(v[3][0], hook)
        if hook:
            r = hook(v)
            if r is not None:
                return r
    return {v: 1}


def same(a, b, hook=None):
    return lin(a, hook) == lin(b, hook)


def expand(facts):
    """Facts plus what they say about the operands of max, min and range tests."""
    work = list(facts.items())
    while work:
        f, val = work.pop()
        yield f, val
        if not isinstance(f, tuple) or val[0] != "=":
            continue
        v = val[1] in (True, 1)
        if f[0] == "op" and len(f) == 4 and f[1] in ("Lt", "Le", "Gt", "Ge"):
            op, a, b = f[1], f[2], f[3]
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            for x, side in ((strip(a), 0), (strip(b), 1)):
                if isinstance(x, tuple) and x[0] == "op" and x[1] in ("max", "min") and len(x) == 4:
                    # max on the small side of a true comparison, or the large side of a false one
                    if (x[1] == "max") == (side == 0) == v or (x[1] == "max" and side == 1 and not v) or (x[1] == "min" and side == 0 and not v):
                        for y in (x[2], x[3]):
                            work.append((("op", op, y, b) if side == 0 else ("op", op, a, y), val))
        if v and len(f) == 4 and f[:2] == ("a", "call") and nrm(f[2]).split("::")[-1] == "contains" and len(f[3]) == 2:
            r, x = f[3]
            while isinstance(x, tuple) and x and x[0] in ("ref", "deref") and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], str):
                x = x[1]
            if isinstance(r, tuple) and len(r) == 4 and r[:2] == ("a", "call") and "RangeInclusive" in r[2]:
                work += [(("op", "Le", r[3][0], x), ("=", True)), (("op", "Le", x, r[3][1]), ("=", True))]
            elif isinstance(r, tuple) and r[0] == "adt" and "Range" in r[1]:
                d = dict(r[3])
                if "start" in d:
                    work.append((("op", "Le", d["start"], x), ("=", True)))
                if "end" in d:
                    work.append((("op", "Le" if "Inclusive" in r[1] or "RangeTo" in r[1] and "=" in r[1] else "Lt", x, d["end"]), ("=", True)))


def low_high(facts, term, hook=None):
    """Constant bounds the path facts give a term: (least, greatest), None when unknown."""
    lo = hi = None
    t = lin(term, hook)

    def const(x):
        x = strip(x)
        return x[1] if isinstance(x, tuple) and x[0] == "c" and isinstance(x[1], int) and not isinstance(x[1], bool) else None

    for f, val in expand(facts):
        if not (isinstance(f, tuple) and f and f[0] == "op" and len(f) == 4 and f[1] in ("Lt", "Le", "Gt", "Ge", "Eq")):
            continue
        if val[0] != "=":
            continue
        v = val[1] in (True, 1)
        op, a, b = f[1], f[2], f[3]
        if op in ("Gt", "Ge"):
            op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
        ca, cb = const(a), const(b)
        if cb is not None:
            d = add(t, lin(a, hook), -1)
            if not set(d) <= {None}:
                continue
            off = d.get(None, 0)          # term = a + off
            if op == "Eq":
                if v:
                    lo = hi = cb + off
                continue
            if op == "Lt":
                if v:
                    hi = min(hi, cb - 1 + off) if hi is not None else cb - 1 + off
                else:
                    lo = max(lo, cb + off) if lo is not None else cb + off
            else:
                if v:
                    hi = min(hi, cb + off) if hi is not None else cb + off
                else:
                    lo = max(lo, cb + 1 + off) if lo is not None else cb + 1 + off
        elif ca is not None:
            d = add(t, lin(b, hook), -1)
            if not set(d) <= {None}:
                continue
            off = d.get(None, 0)
            if op == "Eq":
                if v:
                    lo = hi = ca + off
                continue
            if op == "Lt":
                if v:
                    lo = max(lo, ca + 1 + off) if lo is not None else ca + 1 + off
                else:
                    hi = min(hi, ca + off) if hi is not None else ca + off
            else:
                if v:
                    lo = max(lo, ca + off) if lo is not None else ca + off
                else:
                    hi = min(hi, ca - 1 + off) if hi is not None else ca - 1 + off
    return lo, hi
