"""C25 Generated INSERT statements quote every column name safely."""
from engine import State, Panic, C, TRUE, FALSE, RES, contains, ok, err
from prov import prov_engine
from models import callv
from transport import Anchor
from rules.util import where
from rules.c12 import isc, last
from rules.c17 import resolve, iterate, sequence, Bad
from text import text, trueset, predicates, beyond, Unknown, ALL, DIGITS
from wire import norm, plain, rounds

TECHNIQUE = "provenance analysis over MIR of the generated statement's text, with the character classes each path has established for the names"
RULE = ("The function that makes an insert's statement from the block is analysed on every path: the text it returns is INSERT INTO, the table, and between "
        "parentheses one entry per column of the block, in order. Each entry is the column's name bare, on a path that has established that it is not empty and "
        "consists of ASCII digits, or in backticks, on a path that has established that it contains no backtick, with its backslashes doubled (or none "
        "in it). An error is returned only on paths that have found a backtick or a backslash in a name.")
ASSUMPTIONS = ["Tables are written by the caller as SQL and are not quoted."]
BLOCK, TABLE = ("a", "arg", "block"), ("a", "arg", "table")
TICK, BACK = 96, 92
CHARS = ("chars", "bytes", "as_bytes", "char_indices")


def source(v):
    """The string whose characters v runs over, or None."""
    v = norm(v)
    while isc(v, "iter", "into_iter", "by_ref", "copied", "cloned", "rev", "next", "as_bytes", "chars", "bytes", "index", "any", "all") and v[3]:
        v = v[3][0]
        if isc(v, "name"):
            return v
    return v if isc(v, "name") else None


def name_of(v):
    """k if v is the name of the block's k-th column."""
    v = plain(v)
    if isc(v, "name") and len(v[3]) == 1:
        r = plain(v[3][0])
        if r[:2] == ("a", "row") and r[3][0] == "c":
            c = plain(r[2])
            while isc(c, "iter", "columns", "as_ref", "into_iter", "borrow") and c[3]:
                c = plain(c[3][0])
            if c == BLOCK:
                return r[3][1]
    return None


def engine(f):
    e = prov_engine(f, lambda b: b.sp.startswith(("src/lib.rs", "src/types/query.rs", "src/errors")) or "{closure" in b.p and b.sp.startswith("src/lib.rs"))
    e.no_widen = True
    e.gc_returns = False
    e.head_hook = rounds(2)

    def hook(e, st, call):
        if call.name in ("all", "any", "contains", "find", "position", "starts_with", "ends_with") and len(call.args) == 2:
            src = source(resolve(e, st, call.args[0]))
            if src is None:
                return None
            fv = e.deep(st, call.args[1])
            cb = f.bodies.get(fv[1]) if len(fv) > 1 and isinstance(fv[1], str) else None
            byref = cb is not None and f.ts(cb.l[cb.argc]).startswith("&")
            if fv[0] == "ref" and fv[1][0] and isinstance(fv[1][0], tuple):
                y = e.deep(st, e.read_loc(st, fv[1]))
                if y[0] in ("c", "arr"):
                    fv = y
            r = trueset(e, st, fv, byref, call.site)
            if r is None:
                return None
            may, not_ = r
            k = norm(src)
            out = []
            if call.name in ("starts_with", "ends_with"):
                s1, s2 = st.copy(), st.copy()
                s1.obs = s1.obs + (("some", k, may),)
                return [(s1, TRUE), (s2, FALSE)]
            if call.name == "all":
                outs = ((TRUE, ("every", k, may)), (FALSE, ("some", k, not_)))
            elif call.name in ("any", "contains"):
                outs = ((TRUE, ("some", k, may)), (FALSE, ("every", k, not_)))
            else:
                outs = ((("adt", "std::option::Option", "Some", (("0", ("a", "pos")),), None), ("some", k, may)),
                        (("adt", "std::option::Option", "None", (), None), ("every", k, not_)))
            for v, o in outs:
                if o[0] == "some" and not o[2]:
                    continue
                s = st.copy()
                s.obs = s.obs + (o,)
                out.append((s, v))
            return out
        if call.name == "collect" and call.args:
            return collect(e, st, call)
        return predicates(e, st, call)
    e.hooks.insert(0, chars)
    e.hooks.insert(0, hook)
    return e


def collect(e, st, call):
    """sequence.map(g).collect(), for the first few elements."""
    v = norm(resolve(e, st, call.args[0]))
    raw = call.args[0]
    if not isc(v, "map") or len(v[3]) != 2:
        return None
    fv = v[3][1]
    bounds, item = sequence(v[3][0])
    if len(bounds) != 1:
        return None
    res = "Result" in call.rett if isinstance(call.rett, str) else "Result" in e.f.ts(call.rett)
    out = []
    cur = [(st, [])]
    for k in range(3):
        t = ("op", "Lt", C(k), bounds[0][1])
        nxt = []
        for s, xs in cur:
            s0 = s.copy()
            s0.obs = s0.obs + (("end", k, t),)
            vec = ("a", "call", "Vec::new", ())
            for x in xs:
                vec = ("a", "call", "mut:push", (vec, x))
            out.append((s0, ok(vec) if res else vec))
            if k == 2:
                continue
            for s2, y in callv(e, s.copy(), fv, [item(k)], call.site):
                if isinstance(y, Panic):
                    out.append((s2, y))
                elif res:
                    for s3, var in e.variants(s2, y, RES) if hasattr(e, "variants") else [(s2, e.variant(s2, y, RES))]:
                        p = e.payload(s3, y, RES, var) if False else None
                        if var == "Err":
                            out.append((s3, y))
                        elif var == "Ok":
                            nxt.append((s3, xs + [dict(y[3])["0"]]))
                else:
                    nxt.append((s2, xs + [y]))
        cur = nxt
    return out


def chars(e, st, call):
    """Iterator::next over the characters of a name: each takes the values still possible."""
    return iterate(e, st, call) if not _over_chars(e, st, call) else next_char(e, st, call)


def _over_chars(e, st, call):
    if call.name != "next" or not call.args or call.args[0][0] != "ref":
        return False
    loc = e.deref(st, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
    v = norm(resolve(e, st, e.read_loc(st, loc)))
    return any(x in str(v) for x in ("'chars'", "::chars", "::bytes", "as_bytes", "char_indices")) and source(v) is not None


def next_char(e, st, call):
    loc = e.deref(st, call.args[0]) if not isinstance(call.args[0][1][0], tuple) else call.args[0][1]
    cur = e.read_loc(st, loc)
    v = norm(resolve(e, st, cur))
    src, k = source(v), 0
    b = v
    while isc(b, "next") and b[2].startswith("mut:"):
        b, k = b[3][0], k + 1
    if k > 2 or "char_indices" in str(b) or isc(b, "rev"):
        return None
    out = []
    s2 = st.copy()
    s2.obs = s2.obs + (("over", src, k),)
    out.append((s2, ("adt", "std::option::Option", "None", (), None)))
    if k < 2:
        for c in (48, 97, TICK, BACK, "N"):
            s1 = st.copy()
            e.write_loc(s1, loc, ("a", "call", "mut:std::iter::Iterator::next", (cur,)))
            s1.obs = s1.obs + (("char", src, c),)
            out.append((s1, ("adt", "std::option::Option", "Some", (("0", C(233) if c == "N" else C(c)),), None)))
    return out


def known(st, name, facts):
    """(characters the name may consist of on this path, not empty?, characters one of which it contains)."""
    S, some, chs, over = ALL, None, set(), False
    for o in st.obs:
        if len(o) > 1 and o[1] == name:
            if o[0] == "every":
                S &= o[2]
            elif o[0] == "some":
                some = o[2] if some is None else some & o[2] or some
            elif o[0] == "char":
                chs.add(o[2])
            elif o[0] == "over":
                over = True
    if over:
        S &= frozenset(c for c in ALL if c in chs)
    nonempty = some is not None or bool(chs)
    for t, x in facts.items():
        if isinstance(t, tuple) and t[:1] == ("op",):
            if t[1] == "len" and plain(t[2]) == name and x[0] == "!=" and 0 in x[1]:
                nonempty = True
            if t[1] == "Eq" and len(t) == 4 and C(0) in t[2:] and any(isinstance(y, tuple) and y[:2] == ("op", "len") and plain(y[2]) == name for y in t[2:]) and x == ("=", False):
                nonempty = True
            if t[1] == "Lt" and len(t) == 4 and t[2] == C(0) and t[3][:2] == ("op", "len") and plain(t[3][2]) == name and x == ("=", True):
                nonempty = True
        if isc(t, "is_empty") and plain(t[3][0]) == name and x == ("=", False):
            nonempty = True
    return S, nonempty, some, chs


def check(ctx):
    f = ctx.facts("default")
    cand = []
    for b in f.bodies.values():
        if b.sp.startswith("src/") and b.k in ("method", "fn") and b.argc == 2:
            r = f.ts(b.l[0])
            ts = [f.ts(t) for t in b.l[1:b.argc + 1]]
            if "Result<" in r and "query::Query" in r and any("Block" in t for t in ts):
                cand.append((b, 0 if "Block" in ts[0] else 1))
    if len(cand) != 1:
        raise Anchor("the function that makes an insert's statement")
    b, at = cand[0]
    w = where(f, b.p)
    e = engine(f)
    n = names = errs = 0
    bad = {}

    def list_items(v):
        v = plain(v)
        while isc(v, "into_iter", "iter", "collect", "as_slice") and len(v[3]) == 1:
            v = plain(v[3][0])
        if isc(v, "push") and v[2].startswith("mut:"):
            return list_items(v[3][0]) + [v[3][1]]
        if isc(v, "new", "with_capacity"):
            return []
        if isc(v, "reserve"):
            return list_items(v[3][0])
        if isc(v, "from") and v[3] and v[3][0][0] == "arr":
            return list(v[3][0][1])
        if v[0] == "arr":
            return list(v[1])
        raise Unknown("list of names")

    args = [BLOCK, TABLE] if at == 0 else [TABLE, BLOCK]
    for st, v in e.run_fn(b.p, args, State(obs=())):
        if isinstance(v, Panic):
            if "nreachable" not in str(v.why):
                bad.setdefault("making the statement panics", w)
            continue
        if not beyond(st.facts):
            continue
        facts = {norm(k): x for k, x in st.facts.items()}
        v = norm(resolve(e, st, v))
        try:
            if v[0] != "adt" or v[2] not in ("Ok", "Err"):
                raise Bad("the statement cannot be told")
            if v[2] == "Err":
                errs += 1
                hit = False
                for o in st.obs:
                    if o[0] == "some" and o[2] <= {TICK, BACK} or o[0] == "char" and o[2] in (TICK, BACK):
                        hit = True
                if not hit:
                    raise Bad("a name that can be quoted is an error")
                continue
            n += 1
            q = dict(v[3])["0"]
            sql = dict(q[3]).get("sql") if q[0] == "adt" else None
            if sql is None:
                raise Bad("the statement's text cannot be told")
            ps = text(sql, list_items)
            ends = [o[1] for o in st.obs if o[0] == "end" and contains(norm(o[2]), BLOCK)]
            names += entries(ps, st, facts, ends)
        except (Bad, Unknown) as x:
            bad.setdefault(("the statement's text cannot be told (%s)" % x) if isinstance(x, Unknown) else str(x), w)
    ctx.floor("statements", n, 3)
    ctx.floor("names in them", names, 3)
    ctx.floor("errors", errs, 1)
    ctx.oblige("the generated statement", True, where=w)
    for k, x in bad.items():
        ctx.violation(k, k, x)


def entries(ps, st, facts, ends):
    ps = list(ps)
    if not (len(ps) >= 3 and isinstance(ps[0], str) and ps[0].strip() == "INSERT INTO" and ps[0].endswith(" ")):
        raise Bad("the statement does not start with INSERT INTO and the table")
    t = ps[1]
    if isinstance(t, str) or not contains(t, TABLE):
        raise Bad("the statement does not name the table")
    rest = ps[2:]
    if not isinstance(rest[0], str) or not rest[0].lstrip().startswith("("):
        raise Bad("the columns are not in parentheses")
    if not isinstance(rest[-1], str) or rest[-1].split() not in ([")", "VALUES"], ["()", "VALUES"], ["`)", "VALUES"]) and not rest[-1].rstrip().endswith("VALUES"):
        raise Bad("the statement does not end after the columns")
    rest = list(rest)
    rest[0] = rest[0].lstrip()[1:]
    x = rest[-1].rstrip()[:-len("VALUES")].rstrip()
    if not x.endswith(")"):
        raise Bad("the statement does not end after the columns")
    rest[-1] = x[:-1]
    k = 0
    i = 0
    lit = ""
    toks = []
    for p in rest:
        if isinstance(p, str):
            toks.extend(p.replace(" ", ""))
        else:
            toks.append(p)
    pos = 0
    while pos < len(toks):
        if k:
            if toks[pos] != ",":
                raise Bad("the columns are not separated by commas")
            pos += 1
        quoted = pos < len(toks) and toks[pos] == "`"
        if quoted:
            pos += 1
        if pos >= len(toks) or isinstance(toks[pos], str):
            raise Bad("a name in the statement is not that of a column")
        v = plain(toks[pos])
        pos += 1
        esc = False
        if isc(v, "replace") and len(v[3]) == 3 and v[3][1] in (C(BACK), C("\\")) and v[3][2] == C("\\\\"):
            esc = True
            v = plain(v[3][0])
        if name_of(v) != k:
            raise Bad("the names in the statement are not those of the columns, in order")
        S, nonempty, some, chs = known(st, v, facts)
        if quoted:
            if pos >= len(toks) or toks[pos] != "`":
                raise Bad("a name is not closed by a backtick")
            pos += 1
            if TICK in S:
                raise Bad("a name that may contain a backtick is quoted")
            if BACK in S and not esc:
                raise Bad("a name that may contain a backslash is quoted without escaping it")
        else:
            if not nonempty:
                raise Bad("an empty name is not quoted")
            if not S <= DIGITS:
                raise Bad("a name that may contain something else than digits is not quoted")
        k += 1
    if ends and k not in ends:
        raise Bad("not every column of the block is named")
    if not ends:
        raise Bad("the columns named cannot be told to be those of the block")
    return k
