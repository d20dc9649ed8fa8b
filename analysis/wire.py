"""What a function writes to an Encoder, read off the provenance term of the encoder it leaves:
every opaque call that mutates the encoder is a link of the chain, so the term is the byte layout."""
from engine import State, Panic, OPT, NONE, C, contains
from models import nrm, callv
from prov import prov_engine
from rules.c12 import isc, last, unref

LEAF = ("uvarint", "string", "byte_string", "write", "write_bytes")


def is_enc(f, t):
    return t is not None and f.tk(f.peel(t)) == "adt" and (f.tdef(f.peel(t)) or "").endswith("Encoder")


def enc_method(f, b):
    """An inherent method of Encoder."""
    return b.argc >= 1 and "Encoder::" in b.p and is_enc(f, b.l[1])


def writer(f, inline, leaf=LEAF):
    """Engine that looks into everything `inline` accepts and into Encoder methods other than the leaf ones."""
    enc = [b for b in f.bodies.values() if enc_method(f, b)]
    src = {b.sp.split(":")[0] for b in enc}

    def filt(b):
        if "{closure" in b.p and b.sp.split(":")[0] not in src:
            return True
        if enc_method(f, b) and b.sp.split(":")[0] in src:
            return b.n not in leaf + ("get_buffer", "get_buffer_ref")
        return inline(b)
    e = prov_engine(f, filt)
    e.gc_returns = False
    e.no_widen = True
    e.head_hook = rounds(2)
    e.hooks.append(for_each)
    return e


def rounds(k):
    """Follow each loop for at most k iterations on any one path."""
    def head(e, st, body, fid, bi, n):
        key = ("loop", body.p, len(e.stack), bi)
        if sum(1 for o in st.obs if o == key) > k:
            return "cut"
        st.obs = st.obs + (key,)
        return None
    return head


def for_each(e, st, call):
    """Iterator::for_each over an opaque iterator: up to two rounds of the closure."""
    if last(call.p) != "for_each" or len(call.args) != 2:
        return None
    it = e.deep(st, call.args[0])
    out, cur = [], [(st, it)]
    for k in range(3):
        nxt = []
        for s, i in cur:
            item = ("a", "call", "std::iter::Iterator::next", (i,))
            s0 = s.copy()
            if e.assume(s0, ("discr", item), False) if False else True:
                s0.facts[("discr", item)] = ("=", 0)
                out.append((s0, ("tup", ())))
            if k == 2:
                continue
            s1 = s.copy()
            s1.facts[("discr", item)] = ("=", 1)
            for s2, r in callv(e, s1, call.args[1], [("fld", ("dc", item, "Some"), "0")], call.site):
                if isinstance(r, Panic):
                    out.append((s2, r))
                else:
                    nxt.append((s2, ("a", "call", "mut:std::iter::Iterator::next", (i,))))
        cur = nxt
    return out


def plain(v):
    """The value behind references and conversions that keep it."""
    while True:
        w = unref(v)
        if isc(w, "as_ref", "as_str", "borrow", "deref", "clone", "as_bytes", "as_slice", "to_owned", "into", "from", "to_vec") and len(w[3]) == 1 and not w[2].startswith("mut:"):
            w = w[3][0]
        if w == v:
            return v
        v = w


def norm(v, memo=None):
    """The term without reference and dereference wrappers, at every level."""
    if not isinstance(v, tuple):
        return v
    if memo is None:
        memo = {}
    r = memo.get(id(v))
    if r is not None:
        return r[1]
    if len(v) == 2 and v[0] in ("ref", "deref") and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], str):
        w = norm(v[1], memo)
    else:
        w = tuple(norm(x, memo) for x in v)
        if w == v:
            w = v
    memo[id(v)] = (v, w)
    return w


MUTS = ("resize", "as_mut_ptr", "as_mut", "as_mut_slice", "truncate", "set_len", "insert", "remove", "clear", "drain", "swap", "deref_mut", "index_mut", "get_mut")


def tokens(v):
    return _tokens(norm(v))


def _tokens(v):
    """[(op, args)] in the order written; None when the term is not an encoder or byte vector."""
    v = plain(v)
    if isc(v, "new", "default", "with_capacity") and not v[2].startswith("mut:"):
        return []
    if isinstance(v, tuple) and v and v[0] == "adt" and v[1].endswith("Encoder"):
        return _tokens(dict(v[3]).get("buffer"))
    if isc(v, "get_buffer", "get_buffer_ref", "iter", "into_iter", "copied", "cloned"):
        return _tokens(v[3][0])
    if isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call") and v[2].startswith("mut:"):
        n, args = last(v[2]), v[3]
        pre = _tokens(args[0])
        if pre is None:
            return None
        if n in MUTS:
            return None
        if n in ("reserve",):
            return pre
        if n in ("write_bytes", "extend_from_slice", "extend", "append") and len(args) == 2:
            sub = _tokens(args[1])
            if sub is not None and (sub or n != "write_bytes"):
                return pre + sub
        return pre + [(n, args[1:])]
    if isinstance(v, tuple) and v and v[0] == "fld" and v[1][0] == "dc" and v[1][2] == "Ok":
        c = v[1][1]
        if isinstance(c, tuple) and len(c) == 4 and c[:2] == ("a", "call") and len(c[3]) == 1 and c[3][0][0] == "adt":
            return [("packed", c[3])]
    return None
