"""Summaries of library functions used by the dataflow engine."""
from engine import (Limit, OPT, RES, POLL, CF, UNIT, MOVED, TRUE, FALSE, NONE, PENDING, C, some, ok, err, ready,
                    mk_op, mk_not, Panic, State, field)

MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


def norm(p):
    """Path without generic arguments."""
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<" and not (i == 0):
            if out[-2:] == [":", ":"]:
                out = out[:-2]
            d += 1
        elif c == ">" and d:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    for a, b in ALIAS:
        if s.startswith(a):
            s = b + s[len(a):]
    return s


ALIAS = (("core::", "std::"), ("alloc::", "std::"), ("futures_util::Future::", "std::future::Future::"),
         ("futures_util::future::Future::", "std::future::Future::"), ("futures_core::Future::", "std::future::Future::"),
         ("futures_core::future::Future::", "std::future::Future::"), ("async_std::future::Future::", "std::future::Future::"),
         ("futures_util::stream::StreamExt::", "futures_util::StreamExt::"),
         ("futures_util::stream::TryStreamExt::", "futures_util::TryStreamExt::"),
         ("futures_core::Stream::", "futures_util::Stream::"), ("futures_util::stream::Stream::", "futures_util::Stream::"),
         ("futures_core::stream::Stream::", "futures_util::Stream::"),
         ("async_std::stream::Stream::", "futures_util::Stream::"),
         ("futures_util::future::TryFutureExt::", "futures_util::TryFutureExt::"),
         ("futures_util::future::FutureExt::", "futures_util::FutureExt::"))
_ncache = {}


def nrm(p):
    r = _ncache.get(p)
    if r is None:
        r = _ncache[p] = norm(p)
    return r


def model_call(e, st, call):
    if call.f[0] != "fn":
        return None
    # constructor used as a function value
    c = ctor(e, call)
    if c is not None:
        return [(st, c)]
    for key in (nrm(call.p), nrm(call.path)):
        m = MODELS.get(key)
        if m is not None:
            return m(e, st, call)
    if call.name in ARITH and "num::" in call.p:
        return ARITH[call.name](e, st, call)
    if call.trait:
        m = MODELS.get("@" + nrm(call.trait + "::" + call.name))
        if m is not None:
            return m(e, st, call)
    return None


def ctor(e, call):
    p = call.p
    if p in e.f.bodies:
        return None
    np = nrm(p)
    if np.startswith("std::prelude::v1::"):
        np = {"Ok": RES + "::Ok", "Err": RES + "::Err", "Some": OPT + "::Some"}.get(np.rsplit("::", 1)[1], np)
    ad = e.f.adts.get(np)
    if ad is not None and ad["k"] == "struct":
        fs = tuple((str(i), a) for i, a in enumerate(call.args))
        return ("adt", np, None, fs, None)
    if "::" in np:
        base, last = np.rsplit("::", 1)
        ad = e.f.adts.get(base)
        if ad is not None and ad["k"] == "enum":
            for v in ad["v"]:
                if v["n"] == last and last[0].isupper():
                    fs = tuple((str(i), a) for i, a in enumerate(call.args))
                    return ("adt", base, last, fs, None)
    return None


def V(e, st, v):
    """Content behind a reference argument."""
    return e.rd(st, v)


# ------------------------------------------------------------------ identity-like
@model("std::convert::Into::into", "std::convert::From::from", "@std::convert::Into::into", "@std::convert::From::from")
def m_into(e, st, call):
    b = e.f.bodies.get(call.path)
    if b is not None and call.trait and call.trait.endswith("From"):
        return None  # local impl: analysed
    # Into::into via a local From impl: find it by types
    a = call.info.get("a") or []
    if len(a) >= 2:
        src, dst = (a[0], a[1]) if call.name == "into" else (a[1], a[0])
        if e.f.ts(src) == e.f.ts(dst):
            return [(st, call.args[0])]
        if e.f.ts(dst) == "std::option::Option<%s>" % e.f.ts(src):
            return [(st, some(call.args[0]))]
        for selft, items, im in e.f.timpls.get("std::convert::From", []):
            ta = im.get("targs") or []
            if e.f.ts(selft) == e.f.ts(dst) and len(ta) >= 2 and e.f.ts(ta[1]) == e.f.ts(src) and "from" in items:
                bb = e.f.bodies.get(items["from"])
                if bb is not None and bb.p not in e.no_inline and not any(x[0] == bb.p for x in e.stack):
                    return e.call_body(st, bb, call.args, call.site)
    return [(st, ("conv", e.f.ts(call.rett) if call.rett is not None else "?", call.args[0]))]


@model("std::clone::Clone::clone", "@std::clone::Clone::clone", "std::borrow::ToOwned::to_owned",
       "@std::borrow::ToOwned::to_owned")
def m_clone(e, st, call):
    # clones are value-preserving; Arc/Rc clones share the pointee
    return [(st, V(e, st, call.args[0]))]


@model("std::option::Option::cloned", "std::option::Option::copied")
def m_opt_cloned(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "None":
            out.append((s, NONE))
        else:
            out.append((s, some(V(e, s, e.payload(v, "Some")))))
    return out


@model("std::ops::Deref::deref", "@std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
       "@std::ops::DerefMut::deref_mut", "std::pin::Pin::get_mut", "std::pin::Pin::as_mut", "std::pin::Pin::as_ref")
def m_deref(e, st, call):
    b = e.f.bodies.get(call.path)
    if b is not None:
        return None
    v = call.args[0]
    # argument is a reference to a smart pointer
    if call.name in ("get_mut",):
        return [(st, v)]
    p = V(e, st, v)
    t = call.argts[0] if call.argts else None
    inner = e.f.peel(t) if t is not None else None
    d = e.f.tdef(inner) if inner is not None and e.f.tk(inner) == "adt" else ""
    if d and (d.endswith("Arc") or d.endswith("Box") or d.endswith("Rc") or d.endswith("Pin") or d.endswith("RefMut")):
        if p[0] == "ref":
            return [(st, p)]
        return [(st, ("ref", (("H", p), ())))]
    if d and d.endswith("borrow::Cow"):
        return [(st, ("ref", (("H", p), ())))]
    # Vec -> slice, String -> str and the like: same content
    if v[0] == "ref":
        return [(st, v)]
    return [(st, v)]


@model("std::convert::AsRef::as_ref", "@std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "@std::borrow::Borrow::borrow", "std::convert::AsMut::as_mut", "@std::convert::AsMut::as_mut",
       "std::string::String::as_str", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice",
       "std::string::String::as_bytes", "std::str::as_bytes", "std::string::String::as_mut_str", "std::borrow::BorrowMut::borrow_mut")
def m_asref(e, st, call):
    b = e.f.bodies.get(call.path)
    if b is not None and b.intrait is None:
        return None
    return [(st, call.args[0])]


@model("std::boxed::Box::new", "std::boxed::Box::pin", "std::sync::Arc::new", "std::rc::Rc::new")
def m_box(e, st, call):
    st = st.copy()
    # name the allocation by its program point (distinct per inlining context)
    root = ("B", call.site[0], call.site[1], len(e.stack))
    old = ("a", "box") + root
    if root in st.mem:
        # an older object allocated here becomes anonymous
        n = ("Bold",) + root[1:]
        for k in list(st.mem):
            st.mem[k] = _rep(st.mem[k], root, n)
        st.mem[n] = st.mem.pop(root)
    st.mem[root] = call.args[0]
    return [(st, ("ref", (root, ())))]


@model("std::boxed::Box::new_uninit")
def m_box_uninit(e, st, call):
    """vec![a, b] fills such a box."""
    st = st.copy()
    root = ("B", call.site[0], call.site[1], len(e.stack))
    if root in st.mem:
        n = ("Bold",) + root[1:]
        for k in list(st.mem):
            st.mem[k] = _rep(st.mem[k], root, n)
        st.mem[n] = st.mem.pop(root)
    st.mem[root] = ("adt", "std::mem::MaybeUninit", None, (("value", ("adt", "std::mem::ManuallyDrop", None, (), ("a", "uninit"))),), None)
    return [(st, ("ref", (root, ())))]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(e, st, call):
    v = e.deep(st, call.args[0])
    for _ in range(2):
        if v[0] == "ref":
            v = e.deep(st, e.read_loc(st, v[1]))
    for _ in range(2):
        if v[0] == "adt":
            v = dict(v[3]).get("value", v)
    return [(st, ("a", "call", "std::vec::Vec::<T>::from", (v,)))]


def _rep(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(_rep(x, a, b) if isinstance(x, tuple) else x for x in v)
    return v


@model("std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::get_unchecked_mut",
       "std::pin::Pin::into_inner", "std::pin::Pin::get_ref",
       "std::convert::identity", "std::hint::black_box", "std::mem::ManuallyDrop::new",
       "std::task::Context::waker", "std::future::IntoFuture::into_future", "@std::future::IntoFuture::into_future",
       "std::iter::IntoIterator::into_iter_id", "std::boxed::Box::into_pin")
def m_id(e, st, call):
    return [(st, call.args[0])]


@model("std::sync::Arc::clone", "std::rc::Rc::clone")
def m_arc_clone(e, st, call):
    return [(st, V(e, st, call.args[0]))]


# ------------------------------------------------------------------ mem
@model("std::mem::replace")
def m_replace(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    old = e.read_loc(st, loc)
    if e.write_hook and loc[0][0] != "L":
        e.write_hook(e, st, loc, old, call.args[1], call.site)
    e.write_loc(st, loc, call.args[1])
    return [(st, old)]


@model("std::option::Option::replace")
def m_opt_replace(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    old = e.read_loc(st, loc)
    nv = some(call.args[1])
    if e.write_hook and loc[0][0] != "L":
        e.write_hook(e, st, loc, old, nv, call.site)
    e.write_loc(st, loc, nv)
    return [(st, old)]


@model("std::option::Option::insert")
def m_opt_insert(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    nv = some(call.args[1])
    if e.write_hook and loc[0][0] != "L":
        e.write_hook(e, st, loc, e.read_loc(st, loc), nv, call.site)
    e.write_loc(st, loc, nv)
    return [(st, ("ref", (loc[0], loc[1] + (("as", "Some"), (".", "0")))))]


@model("std::mem::swap")
def m_swap(e, st, call):
    st = st.copy()
    la, lb = e.deref(st, call.args[0]), e.deref(st, call.args[1])
    a, b = e.read_loc(st, la), e.read_loc(st, lb)
    for l, o, n in ((la, a, b), (lb, b, a)):
        if e.write_hook and l[0][0] != "L":
            e.write_hook(e, st, l, o, n, call.site)
        e.write_loc(st, l, n)
    return [(st, UNIT)]


@model("std::mem::take")
def m_mem_take(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    old = e.read_loc(st, loc)
    t = call.rett
    nv = NONE if t is not None and e.f.is_adt(t, "option::Option") else ("a", "default", e.f.ts(t) if t is not None else "?")
    if e.write_hook and loc[0][0] != "L":
        e.write_hook(e, st, loc, old, nv, call.site)
    e.write_loc(st, loc, nv)
    return [(st, old)]


@model("std::mem::forget")
def m_forget(e, st, call):
    return [(st, UNIT)]


@model("std::mem::drop")
def m_drop(e, st, call):
    if e.glue is None or not call.argts or call.argts[0] is None:
        return [(st, UNIT)]
    st = st.copy()
    cell = ("K", len(e.stack), "drop", call.site[0], call.site[1])
    st.mem[cell] = call.args[0]
    out = []
    for s in e.drop_value(st, (cell, ()), call.argts[0], call.site):
        if isinstance(s, tuple):
            out.append(s)
        else:
            s.mem.pop(cell, None)
            out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ Option / Result
@model("std::option::Option::take")
def m_take(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    old = e.read_loc(st, loc)
    if e.write_hook and loc[0][0] != "L":
        e.write_hook(e, st, loc, old, NONE, call.site)
    e.write_loc(st, loc, NONE)
    return [(st, old)]


def _isv(adt, variant):
    def f(e, st, call):
        v = V(e, st, call.args[0])
        t = e.discr_of(st, v, adt)
        d = e.f.discr(adt, variant)
        if adt in e.f.adts and len(e.f.adts[adt]["v"]) == 2:
            pass
        k = e.known(st, t)
        if k is not None:
            return [(st, C(k[1] == d))]
        out = []
        for s, var in e.split(st, v, adt):
            out.append((s, C(var == variant)))
        return out
    return f


MODELS["std::option::Option::is_some"] = _isv(OPT, "Some")
MODELS["std::option::Option::is_none"] = _isv(OPT, "None")
MODELS["std::result::Result::is_ok"] = _isv(RES, "Ok")
MODELS["std::result::Result::is_err"] = _isv(RES, "Err")
MODELS["std::task::Poll::is_ready"] = _isv(POLL, "Ready")
MODELS["std::task::Poll::is_pending"] = _isv(POLL, "Pending")


def _unwrap(adt, good, bad):
    def f(e, st, call):
        v = call.args[0]
        out = []
        for s, var in e.split(st, v, adt):
            if var == good:
                out.append((s, e.payload(v, good)))
            else:
                out.append((s, Panic("%s on %s" % (call.name, bad), call.site)))
        return out
    return f


MODELS["std::option::Option::unwrap"] = _unwrap(OPT, "Some", "None")
MODELS["std::option::Option::expect"] = _unwrap(OPT, "Some", "None")
MODELS["std::result::Result::unwrap"] = _unwrap(RES, "Ok", "Err")
MODELS["std::result::Result::expect"] = _unwrap(RES, "Ok", "Err")
MODELS["std::result::Result::unwrap_err"] = _unwrap(RES, "Err", "Ok")
MODELS["std::option::Option::unwrap_unchecked"] = MODELS["std::option::Option::unwrap"]


def callv(e, s, fv, args, site):
    return e.call(s, fv, args, site)


@model("std::option::Option::unwrap_or", "std::result::Result::unwrap_or")
def m_unwrap_or(e, st, call):
    adt, good = (OPT, "Some") if "Option" in call.p else (RES, "Ok")
    v = call.args[0]
    return [(s, e.payload(v, good) if var == good else call.args[1]) for s, var in e.split(st, v, adt)]


@model("std::option::Option::unwrap_or_else", "std::result::Result::unwrap_or_else")
def m_unwrap_or_else(e, st, call):
    isopt = "Option" in call.p
    adt, good = (OPT, "Some") if isopt else (RES, "Ok")
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, adt):
        if var == good:
            out.append((s, e.payload(v, good)))
        else:
            out.extend(callv(e, s, call.args[1], [] if isopt else [e.payload(v, "Err")], call.site))
    return out


@model("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def m_unwrap_or_default(e, st, call):
    adt, good = (OPT, "Some") if "Option" in call.p else (RES, "Ok")
    v = call.args[0]
    return [(s, e.payload(v, good) if var == good else ("a", "default", e.f.ts(call.rett) if call.rett is not None else "?"))
            for s, var in e.split(st, v, adt)]


def _then(e, outs, wrap):
    return [(s, v if isinstance(v, Panic) else wrap(v)) for s, v in outs]


@model("std::option::Option::map")
def m_opt_map(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "None":
            out.append((s, NONE))
        else:
            out.extend(_then(e, callv(e, s, call.args[1], [e.payload(v, "Some")], call.site), some))
    return out


@model("std::result::Result::map")
def m_res_map(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, RES):
        if var == "Err":
            out.append((s, err(e.payload(v, "Err"))))
        else:
            out.extend(_then(e, callv(e, s, call.args[1], [e.payload(v, "Ok")], call.site), ok))
    return out


@model("std::result::Result::map_err")
def m_res_map_err(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, RES):
        if var == "Ok":
            out.append((s, ok(e.payload(v, "Ok"))))
        else:
            out.extend(_then(e, callv(e, s, call.args[1], [e.payload(v, "Err")], call.site), err))
    return out


@model("std::option::Option::and_then")
def m_opt_and_then(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "None":
            out.append((s, NONE))
        else:
            out.extend(callv(e, s, call.args[1], [e.payload(v, "Some")], call.site))
    return out


@model("std::result::Result::and_then")
def m_res_and_then(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, RES):
        if var == "Err":
            out.append((s, err(e.payload(v, "Err"))))
        else:
            out.extend(callv(e, s, call.args[1], [e.payload(v, "Ok")], call.site))
    return out


@model("std::option::Option::or_else")
def m_opt_or_else(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "Some":
            out.append((s, v))
        else:
            out.extend(callv(e, s, call.args[1], [], call.site))
    return out


@model("std::option::Option::or")
def m_opt_or(e, st, call):
    v = call.args[0]
    return [(s, v if var == "Some" else call.args[1]) for s, var in e.split(st, v, OPT)]


@model("std::result::Result::or_else")
def m_res_or_else(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, RES):
        if var == "Ok":
            out.append((s, v))
        else:
            out.extend(callv(e, s, call.args[1], [e.payload(v, "Err")], call.site))
    return out


@model("std::option::Option::ok_or")
def m_ok_or(e, st, call):
    v = call.args[0]
    return [(s, ok(e.payload(v, "Some")) if var == "Some" else err(call.args[1])) for s, var in e.split(st, v, OPT)]


@model("std::option::Option::ok_or_else")
def m_ok_or_else(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "Some":
            out.append((s, ok(e.payload(v, "Some"))))
        else:
            out.extend(_then(e, callv(e, s, call.args[1], [], call.site), err))
    return out


@model("std::result::Result::ok")
def m_res_ok(e, st, call):
    v = call.args[0]
    return [(s, some(e.payload(v, "Ok")) if var == "Ok" else NONE) for s, var in e.split(st, v, RES)]


@model("std::result::Result::err")
def m_res_err(e, st, call):
    v = call.args[0]
    return [(s, some(e.payload(v, "Err")) if var == "Err" else NONE) for s, var in e.split(st, v, RES)]


@model("std::option::Option::map_or")
def m_map_or(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "None":
            out.append((s, call.args[1]))
        else:
            out.extend(callv(e, s, call.args[2], [e.payload(v, "Some")], call.site))
    return out


@model("std::option::Option::map_or_else", "std::result::Result::map_or_else")
def m_map_or_else(e, st, call):
    isopt = "Option" in call.p
    adt, good, bad = (OPT, "Some", "None") if isopt else (RES, "Ok", "Err")
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, adt):
        if var == bad:
            out.extend(callv(e, s, call.args[1], [] if isopt else [e.payload(v, bad)], call.site))
        else:
            out.extend(callv(e, s, call.args[2], [e.payload(v, good)], call.site))
    return out


@model("std::option::Option::is_some_and", "std::result::Result::is_ok_and")
def m_is_and(e, st, call):
    adt, good = (OPT, "Some") if "Option" in call.p else (RES, "Ok")
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, adt):
        if var != good:
            out.append((s, FALSE))
        else:
            out.extend(callv(e, s, call.args[1], [e.payload(v, good)], call.site))
    return out


@model("std::option::Option::filter")
def m_opt_filter(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, OPT):
        if var == "None":
            out.append((s, NONE))
        else:
            s = s.copy()
            cell = ("K", len(e.stack), "filter", call.site[0], call.site[1])
            s.mem[cell] = e.payload(v, "Some")
            for s2, b in callv(e, s, call.args[1], [("ref", (cell, ()))], call.site):
                if isinstance(b, Panic):
                    out.append((s2, b))
                    continue
                k = e.known(s2, b)
                for val in ((k[1],) if k is not None else (True, False)):
                    s3 = s2.copy()
                    if e.assume(s3, b, val):
                        out.append((s3, some(e.payload(v, "Some")) if val else NONE))
    return out


@model("std::option::Option::as_ref", "std::option::Option::as_mut", "std::result::Result::as_ref",
       "std::result::Result::as_mut", "std::option::Option::as_deref", "std::option::Option::as_deref_mut",
       "std::option::Option::as_pin_mut")
def m_opt_as_ref(e, st, call):
    isopt = "Option" in call.p
    adt, good = (OPT, "Some") if isopt else (RES, "Ok")
    loc = e.deref(st, call.args[0])
    v = e.read_loc(st, loc)
    out = []
    for s, var in e.split(st, v, adt):
        if isopt and var == "None":
            out.append((s, NONE))
        else:
            r = ("ref", (loc[0], loc[1] + (("as", var), (".", "0"))))
            out.append((s, ("adt", adt, var, (("0", r),), None)))
    return out


@model("std::ops::Try::branch", "@std::ops::Try::branch")
def m_branch(e, st, call):
    v = call.args[0]
    t = call.argts[0] if call.argts else None
    ts = e.f.ts(t) if t is not None else ""

    def cont(x):
        return ("adt", CF, "Continue", (("0", x),), None)

    def brk(x):
        return ("adt", CF, "Break", (("0", x),), None)
    out = []
    if ts.startswith("std::option::Option<"):
        for s, var in e.split(st, v, OPT):
            out.append((s, cont(e.payload(v, "Some")) if var == "Some" else brk(NONE)))
        return out
    if ts.startswith("std::result::Result<"):
        for s, var in e.split(st, v, RES):
            out.append((s, cont(e.payload(v, "Ok")) if var == "Ok" else brk(err(e.payload(v, "Err")))))
        return out
    if ts.startswith("std::task::Poll<std::option::Option<"):
        for s, pv in e.split(st, v, POLL):
            if pv == "Pending":
                out.append((s, cont(PENDING)))
                continue
            o = e.payload(v, "Ready")
            for s2, ov in e.split(s, o, OPT):
                if ov == "None":
                    out.append((s2, cont(ready(NONE))))
                    continue
                r = e.payload(o, "Some")
                for s3, rv in e.split(s2, r, RES):
                    if rv == "Ok":
                        out.append((s3, cont(ready(some(e.payload(r, "Ok"))))))
                    else:
                        out.append((s3, brk(err(e.payload(r, "Err")))))
        return out
    if ts.startswith("std::task::Poll<"):
        for s, pv in e.split(st, v, POLL):
            if pv == "Pending":
                out.append((s, cont(PENDING)))
                continue
            r = e.payload(v, "Ready")
            for s3, rv in e.split(s, r, RES):
                if rv == "Ok":
                    out.append((s3, cont(ready(e.payload(r, "Ok")))))
                else:
                    out.append((s3, brk(err(e.payload(r, "Err")))))
        return out
    return None


@model("std::ops::FromResidual::from_residual", "@std::ops::FromResidual::from_residual")
def m_from_residual(e, st, call):
    v = call.args[0]
    ts = e.f.ts(call.rett) if call.rett is not None else ""
    if ts.startswith("std::option::Option<"):
        return [(st, NONE)]
    x = err(("conv", "err", e.payload(v, "Err")))
    if ts.startswith("std::task::Poll<std::option::Option<"):
        x = ready(some(x))
    elif ts.startswith("std::task::Poll<"):
        x = ready(x)
    return [(st, x)]


@model("std::ops::Try::from_output", "@std::ops::Try::from_output")
def m_from_output(e, st, call):
    ts = e.f.ts(call.rett) if call.rett is not None else ""
    if ts.startswith("std::option::Option<"):
        return [(st, some(call.args[0]))]
    if ts.startswith("std::result::Result<"):
        return [(st, ok(call.args[0]))]
    return None


@model("std::task::Poll::map")
def m_poll_map(e, st, call):
    v = call.args[0]
    out = []
    for s, var in e.split(st, v, POLL):
        if var == "Pending":
            out.append((s, PENDING))
        else:
            out.extend(_then(e, callv(e, s, call.args[1], [e.payload(v, "Ready")], call.site), ready))
    return out


# ------------------------------------------------------------------ comparison
@model("std::cmp::PartialEq::eq", "@std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne", "@std::cmp::PartialEq::ne")
def m_eq(e, st, call):
    a, b = e.deep(st, call.args[0]), e.deep(st, call.args[1])
    a, b = strip_deref(a), strip_deref(b)
    if call.name == "eq" and e.f.bodies.get(call.path) is not None and (a[0] == "adt" or b[0] == "adt"):
        # derived or hand-written eq on enums: compare variants when both known fieldless
        pass
    va = fieldless(e, st, a)
    vb = fieldless(e, st, b)
    if va is not None and vb is not None:
        t = C(va == vb)
    elif va is not None or vb is not None:
        x, known = (b, va) if va is not None else (a, vb)
        src = a if va is not None else b
        ad = src[1]
        t = mk_op("Eq", e.discr_of(st, x, ad), C(e.f.discr(ad, known))) if ad in e.f.adts else mk_op("Eq", a, b)
    else:
        t = mk_op("Eq", e.kn(st, a), e.kn(st, b))
    return [(st, t if call.name == "eq" else mk_not(t))]


def fieldless(e, st, v):
    if v[0] == "adt" and v[2] is not None and not v[3] and v[4] is None:
        return v[2]
    return None


def strip_deref(v):
    # &str constants are values of type &str; comparing through references of references
    while v[0] == "deref" and v[1][0] in ("c",):
        v = v[1]
    return v


def _cmp(name):
    def f(e, st, call):
        if e.skip_logs and call.argts and any(t is not None and "log::Level" in e.f.ts(t) for t in call.argts):
            return [(st, FALSE)]
        a, b = e.deep(st, call.args[0]), e.deep(st, call.args[1])
        a, b = e.kn(st, a), e.kn(st, b)
        if a[0] == b[0] == "adt" and a[1] == b[1] and a[2] and b[2] and not a[3] and not b[3] and a[1] in e.f.adts:
            # derived order of variants without fields
            vs = [v["n"] for v in e.f.adts[a[1]]["v"]]
            own = [p for p in e.f.bodies if "PartialOrd" in p and a[1] in p]
            if len(own) <= 1:
                a, b = C(vs.index(a[2])), C(vs.index(b[2]))
        return [(st, mk_op(name, a, b))]
    return f


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["std::cmp::PartialOrd::" + _n] = _cmp(_o)
    MODELS["@std::cmp::PartialOrd::" + _n] = _cmp(_o)


@model("std::cmp::Ord::min", "std::cmp::min", "@std::cmp::Ord::min")
def m_min(e, st, call):
    a, b = call.args[0], call.args[1]
    if repr(a) > repr(b):
        a, b = b, a
    return [(st, ("op", "min", a, b))]


@model("std::cmp::Ord::max", "std::cmp::max", "@std::cmp::Ord::max")
def m_max(e, st, call):
    a, b = call.args[0], call.args[1]
    if repr(a) > repr(b):
        a, b = b, a
    return [(st, ("op", "max", a, b))]


# ------------------------------------------------------------------ closures
@model("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call",
       "@std::ops::FnOnce::call_once", "@std::ops::FnMut::call_mut", "@std::ops::Fn::call")
def m_callfn(e, st, call):
    f = call.args[0]
    tup = call.args[1]
    args = list(tup[1]) if tup[0] == "tup" else []
    g = f
    n = 0
    while g[0] == "ref" and n < 5:
        g2 = e.read_loc(st, g[1])
        if g2[0] == "ref":
            g = g2
            n += 1
            continue
        if g2[0] in ("clo", "fn"):
            b = e.f.bodies.get(g2[1]) if g2[0] == "clo" else None
            if b is not None and e.f.tk(b.l[1]) == "ref" and not any(x[0] == b.p for x in e.stack):
                return e.call_body(st, b, [g] + args, call.site)
            g = g2
        break
    if g[0] in ("clo", "fn"):
        return e.call(st, g, args, call.site, None, call.rett)
    return None


# ------------------------------------------------------------------ futures
@model("@std::future::Future::poll", "std::future::Future::poll", "futures_util::FutureExt::poll_unpin", "@futures_util::FutureExt::poll_unpin")
def m_poll(e, st, call):
    b = e.f.bodies.get(call.path)
    if b is not None and b.k != "coroutine":
        return None
    return poll_value(e, st, call.args[0], call)


def poll_value(e, st, ptr, call):
    n = 0
    v = ptr
    while v[0] == "ref" and n < 6:
        v = e.read_loc(st, v[1])
        n += 1
    if v[0] == "cor":
        return _then(e, e.poll_coroutine(st, v, call.site), ready)
    if v[0] == "adt" and v[1] in ("fut:timeout", "fut:timeout_flat"):
        d = dict(v[3])
        out = []
        e.deadlines.append(e.deep(st, d["dur"]))
        try:
            for s, r in run_future(e, st, d["fut"], call):
                out.append((s, r if isinstance(r, Panic) else ready(r if v[1] == "fut:timeout_flat" else ok(r))))
        finally:
            e.deadlines.pop()
        s2 = st.copy()
        out.append((s2, ready(err(("a", "elapsed")))))
        return out
    if v[0] == "adt" and v[1] in ("fut:next", "fut:try_next"):
        d = dict(v[3])
        outs = poll_stream(e, st, d["s"], d["ty"][1], call)
        if outs is None:                     # a boxed or combined stream
            sv = d["s"]
            while sv[0] == "ref":
                sv = e.read_loc(st, sv[1])
            if sv[0] == "adt":
                outs = stream_poll(e, st, d["s"], call)
        if outs is not None:
            res = []
            for s, r in outs:
                if isinstance(r, Panic) or v[1] == "fut:next":
                    res.append((s, r))
                    continue
                # Option<Result<T, E>> -> Result<Option<T>, E>
                for s2, pv in e.split(s, r, POLL):
                    if pv == "Pending":
                        res.append((s2, PENDING))
                        continue
                    o = e.payload(r, "Ready")
                    for s3, ov in e.split(s2, o, OPT):
                        if ov == "None":
                            res.append((s3, ready(ok(NONE))))
                            continue
                        x = e.payload(o, "Some")
                        for s4, rv in e.split(s3, x, RES):
                            res.append((s4, ready(ok(some(e.payload(x, "Ok")))) if rv == "Ok"
                                        else ready(err(e.payload(x, "Err")))))
            return res
    if v[0] == "adt" and v[1] == "fut:ready":
        return [(st, ready(dict(v[3])["v"]))]
    if v[0] == "adt" and v[1] == "fut:summary":
        return e.poll_summary(e, st, v, call)
    if v[0] == "adt" and v[1] == "fut:try_fold":
        return _then(e, run_try_fold(e, st, dict(v[3]), call), ready)
    if v[0] == "adt" and v[1] == "fut:map_err":
        d = dict(v[3])
        out = []
        for s, r in run_future(e, st, d["fut"], call):
            if isinstance(r, Panic):
                out.append((s, r))
                continue
            for s2, var in e.split(s, r, RES):
                if var == "Ok":
                    out.append((s2, ready(ok(e.payload(r, "Ok")))))
                else:
                    out.extend(_then(e, callv(e, s2, d["f"], [e.payload(r, "Err")], call.site), lambda x: ready(err(x))))
        return out
    st = st.copy()
    if e.await_prov:
        return [(st, ready(("a", "call", "await", (v,))))]
    return [(st, ready(e.fresh(st, "out", call.path, call.site[0], call.site[1])))]


def run_future(e, st, fut, call):
    """Output of a future value run to completion."""
    v = fut
    n = 0
    while v[0] == "ref" and n < 6:
        v = e.read_loc(st, v[1])
        n += 1
    if v[0] == "cor":
        return e.poll_coroutine(st, v, call.site)
    if v[0] == "adt" and v[1].startswith("fut:"):
        out = []
        s0 = st.copy()
        cell = ("K", len(e.stack), "fut", call.site[0], call.site[1])
        s0.mem[cell] = v
        for s, r in poll_value(e, s0, ("ref", (cell, ())), call):
            out.append((s, r if isinstance(r, Panic) else e.payload(r, "Ready")))
        return out
    st = st.copy()
    if e.await_prov:
        return [(st, ("a", "call", "await", (v,)))]
    return [(st, e.fresh(st, "out", "future", call.site[0], call.site[1]))]


@model("tokio::time::timeout", "async_std::future::timeout", "async_std::io::timeout")
def m_timeout(e, st, call):
    flat = "io::timeout" in call.p
    return [(st, ("adt", "fut:timeout_flat" if flat else "fut:timeout", None, (("dur", call.args[0]), ("fut", call.args[1])), None))]


@model("futures_util::future::ready", "std::future::ready")
def m_fready(e, st, call):
    return [(st, ("adt", "fut:ready", None, (("v", call.args[0]),), None))]


@model("futures_util::future::err")
def m_ferr(e, st, call):
    return [(st, ("adt", "fut:ready", None, (("v", err(call.args[0])),), None))]


@model("futures_util::future::ok")
def m_fok(e, st, call):
    return [(st, ("adt", "fut:ready", None, (("v", ok(call.args[0])),), None))]


@model("futures_util::TryFutureExt::map_err", "@futures_util::TryFutureExt::map_err", "@futures_util::future::TryFutureExt::map_err")
def m_fmap_err(e, st, call):
    return [(st, ("adt", "fut:map_err", None, (("f", call.args[1]), ("fut", call.args[0])), None))]


# ------------------------------------------------------------------ panics
def _panic(e, st, call):
    return [(st, Panic(call.name, call.site))]


for _p in ("std::panicking::panic", "std::panicking::panic_fmt", "std::rt::panic_fmt", "std::rt::begin_panic",
           "std::panicking::panic_display", "std::panicking::panic_explicit", "std::panicking::unreachable_display",
           "std::panicking::assert_failed", "std::option::expect_failed", "std::panicking::panic_str_2015",
           "std::panicking::panic_nounwind", "std::panicking::panic_const"):
    MODELS[_p] = _panic


# ------------------------------------------------------------------ pure helpers
def _pure(name):
    def f(e, st, call):
        args = tuple(e.deep(st, a) for a in call.args)
        return [(st, ("pure", name) + args)]
    return f


for _p, _n in (("std::vec::Vec::len", "len"), ("std::slice::len", "len"), ("std::str::len", "len"),
               ("std::string::String::len", "len")):
    def _len(e, st, call):
        return [(st, ("op", "len", e.deep(st, call.args[0])))]
    MODELS[_p] = _len

for _p in ("std::vec::Vec::is_empty", "std::slice::is_empty", "std::str::is_empty", "std::string::String::is_empty"):
    def _ise(e, st, call):
        return [(st, mk_op("Eq", ("op", "len", e.deep(st, call.args[0])), C(0)))]
    MODELS[_p] = _ise

for _p in ("std::io::Cursor::position", "std::io::Cursor::get_ref", "std::io::Cursor::get_mut"):
    pass

MODELS["std::io::Cursor::position"] = lambda e, st, call: [(st, field(e.rd(st, call.args[0]), "pos"))]


@model("std::io::Cursor::new")
def m_cursor_new(e, st, call):
    return [(st, ("adt", "std::io::Cursor", None, (("inner", call.args[0]), ("pos", C(0))), None))]


@model("std::io::Cursor::get_ref", "std::io::Cursor::get_mut")
def m_cursor_ref(e, st, call):
    loc = e.deref(st, call.args[0])
    return [(st, ("ref", (loc[0], loc[1] + ((".", "inner"),))))]


@model("std::io::Cursor::set_position")
def m_cursor_set(e, st, call):
    st = st.copy()
    loc = e.deref(st, call.args[0])
    e.write_loc(st, (loc[0], loc[1] + ((".", "pos"),)), call.args[1])
    return [(st, UNIT)]


@model("std::io::Cursor::into_inner")
def m_cursor_into(e, st, call):
    return [(st, field(call.args[0], "inner"))]


# std::sync::Arc helpers
@model("std::sync::Arc::downgrade", "std::sync::Weak::clone")
def m_downgrade(e, st, call):
    return [(st, ("weak", e.rd(st, call.args[0])))]


@model("std::sync::Weak::upgrade")
def m_upgrade(e, st, call):
    w = e.rd(st, call.args[0])
    s1, s2 = st.copy(), st.copy()
    if w[0] == "weak":
        return [(s1, NONE), (s2, some(w[1]))]
    v = ("upgrade", w)
    return [(s1, NONE), (s2, some(v))]


@model("std::future::get_context")
def m_getcx(e, st, call):
    return [(st, ("a", "cx"))]


@model("std::time::Duration::from_secs", "std::time::Duration::from_millis")
def m_dur(e, st, call):
    return [(st, ("pure", call.name, call.args[0]))]


@model("std::cmp::Ordering::is_lt")
def m_islt(e, st, call):
    return None


@model("std::bool::then")
def m_then(e, st, call):
    b = call.args[0]
    out = []
    k = e.known(st, b)
    for val in ((k[1],) if k is not None else (True, False)):
        s = st.copy()
        if not e.assume(s, b, val):
            continue
        if val:
            out.extend(_then(e, callv(e, s, call.args[1], [], call.site), some))
        else:
            out.append((s, NONE))
    return out


@model("std::bool::then_some")
def m_then_some(e, st, call):
    b = call.args[0]
    out = []
    k = e.known(st, b)
    for val in ((k[1],) if k is not None else (True, False)):
        s = st.copy()
        if e.assume(s, b, val):
            out.append((s, some(call.args[1]) if val else NONE))
    return out


# ------------------------------------------------------------------ streams
def poll_stream(e, st, ptr, adt, call):
    """Poll a locally implemented Stream through a pointer to it."""
    for tr in ("futures_core::Stream", "futures_util::Stream", "futures_util::stream::Stream", "futures_core::stream::Stream"):
        for selft, items, im in e.f.timpls.get(tr, []):
            if e.f.tk(selft) == "adt" and e.f.tdef(selft) == adt and "poll_next" in items:
                b = e.f.bodies[items["poll_next"]]
                return e.call(st, ("fn", b.p, e.info_key({"p": b.p, "r": b.p, "n": "poll_next", "tr": tr, "a": []})),
                              [ptr, ("a", "cx")], call.site, [None, None], b.l[0])
    return None


@model("futures_util::StreamExt::next", "futures_util::TryStreamExt::try_next")
def m_next(e, st, call):
    t = call.self_ty()
    ad = e.f.tdef(e.f.peel(t)) if t is not None and e.f.tk(e.f.peel(t)) == "adt" else "?"
    return [(st, ("adt", "fut:" + call.name, None, (("s", call.args[0]), ("ty", ("c", ad))), None))]


@model("futures_util::StreamExt::poll_next_unpin")
def m_poll_next_unpin(e, st, call):
    t = call.self_ty()
    ad = e.f.tdef(e.f.peel(t)) if t is not None and e.f.tk(e.f.peel(t)) == "adt" else "?"
    return poll_stream(e, st, call.args[0], ad, call)


@model("futures_util::Stream::poll_next")
def m_poll_next(e, st, call):
    if e.f.bodies.get(call.path) is not None:
        return None
    t = call.self_ty()
    ad = e.f.tdef(e.f.peel(t)) if t is not None and e.f.tk(e.f.peel(t)) == "adt" else "?"
    return poll_stream(e, st, call.args[0], ad, call)


@model("std::io::Error::kind")
def m_kind(e, st, call):
    return [(st, ("pure", "kind", e.deep(st, call.args[0])))]


# ------------------------------------------------------------------ stream combinators
def _named(tag, *fields):
    def f(e, st, call):
        fs = tuple(sorted((n, a) for n, a in zip(fields, call.args)))
        return [(st, ("adt", tag, None, fs, None))]
    return f


for _pfx in ("futures_util::FutureExt::", "@futures_util::FutureExt::", "@futures_util::future::FutureExt::"):
    MODELS[_pfx + "flatten_stream"] = _named("st:flatten_fut", "fut")
for _pfx in ("futures_util::StreamExt::", "@futures_util::StreamExt::", "@futures_util::stream::StreamExt::"):
    MODELS[_pfx + "map"] = _named("st:map", "s", "f")
    MODELS[_pfx + "flatten"] = _named("st:flatten", "s")
    MODELS[_pfx + "flat_map"] = _named("st:flat_map", "s", "f")
    MODELS[_pfx + "then"] = _named("st:then", "s", "f")
    MODELS[_pfx + "inspect"] = _named("st:inspect", "s", "f")
    MODELS[_pfx + "boxed"] = lambda e, st, call: [(st, call.args[0])]
for _pfx in ("futures_util::TryStreamExt::", "@futures_util::TryStreamExt::", "@futures_util::stream::TryStreamExt::"):
    MODELS[_pfx + "try_fold"] = _named("fut:try_fold", "s", "acc", "f")
    MODELS[_pfx + "try_flatten"] = _named("st:try_flatten", "s")
    for _n in ("map_ok", "map_err", "and_then"):
        MODELS[_pfx + _n] = _named("st:" + _n, "s", "f")
MODELS["futures_util::stream::once"] = _named("st:once", "fut")
MODELS["futures_util::stream::iter"] = _named("st:iter", "it")


def stream_poll(e, st, ptr, call):
    """Poll the stream behind a pointer; values are Poll<Option<Item>>."""
    loc = None
    v = ptr
    n = 0
    while v[0] == "ref" and n < 8:
        loc = v[1]
        v = e.read_loc(st, loc)
        n += 1
    if v[0] != "adt" or loc is None:
        st = st.copy()
        return [(st, e.fresh(st, "next", call.site[0], call.site[1]))]
    d = dict(v[3])
    k = v[1]
    if k == "st:once":
        out = []
        for s, r in run_future(e, st, d["fut"], call):
            if isinstance(r, Panic):
                out.append((s, r))
                continue
            s = s.copy()
            e.write_loc(s, loc, ("adt", "st:empty", None, (), None))
            out.append((s, ready(some(r))))
        return out
    if k == "st:empty":
        return [(st, ready(NONE))]
    if k == "st:flatten_fut":
        out = []
        for s, r in run_future(e, st, d["fut"], call):
            if isinstance(r, Panic):
                out.append((s, r))
                continue
            s = s.copy()
            e.write_loc(s, loc, r)
            out.extend(stream_poll(e, s, ("ref", loc), call))
        return out
    if k == "st:map":
        out = []
        for s, r in stream_poll(e, st, ("ref", (loc[0], loc[1] + ((".", "s"),))), call):
            if isinstance(r, Panic):
                out.append((s, r))
                continue
            for s2, pv in e.split(s, r, POLL):
                if pv == "Pending":
                    out.append((s2, PENDING))
                    continue
                o = e.payload(r, "Ready")
                for s3, ov in e.split(s2, o, OPT):
                    if ov == "None":
                        out.append((s3, ready(NONE)))
                    else:
                        out.extend(_then(e, callv(e, s3, d["f"], [e.payload(o, "Some")], call.site),
                                         lambda x: ready(some(x))))
        return out
    if k == "st:list":                       # a stream of given items, for rules
        items = d["items"][1]
        if not items:
            return [(st, ready(NONE))]
        st = st.copy()
        e.write_loc(st, loc, ("adt", "st:list", None, (("items", ("arr", items[1:])),), None))
        return [(st, ready(some(items[0])))]
    if k == "st:iter":
        return _then(e, iter_next(e, st, (loc[0], loc[1] + ((".", "it"),)), call), ready)
    if k in ("st:flatten", "st:flat_map", "st:try_flatten"):
        out = []
        work = [(st, 0)]
        while work:
            s, n = work.pop()
            if n > 12:
                raise Limit("flatten")
            d = dict(e.read_loc(s, loc)[3])
            if "cur" in d:
                for s1, r in stream_poll(e, s, ("ref", (loc[0], loc[1] + ((".", "cur"),))), call):
                    if isinstance(r, Panic):
                        out.append((s1, r))
                        continue
                    for s2, pv in e.split(s1, r, POLL):
                        if pv == "Pending":
                            out.append((s2, PENDING))
                            continue
                        for s3, ov in e.split(s2, e.payload(r, "Ready"), OPT):
                            if ov == "Some":
                                out.append((s3, r))
                            else:
                                s3 = s3.copy()
                                v = e.read_loc(s3, loc)
                                e.write_loc(s3, loc, ("adt", k, None, tuple(x for x in v[3] if x[0] != "cur"), None))
                                work.append((s3, n + 1))
                continue
            for s1, r in stream_poll(e, s, ("ref", (loc[0], loc[1] + ((".", "s"),))), call):
                if isinstance(r, Panic):
                    out.append((s1, r))
                    continue
                for s2, pv in e.split(s1, r, POLL):
                    if pv == "Pending":
                        out.append((s2, PENDING))
                        continue
                    o = e.payload(r, "Ready")
                    for s3, ov in e.split(s2, o, OPT):
                        if ov == "None":
                            out.append((s3, ready(NONE)))
                            continue
                        x = e.payload(o, "Some")
                        nxt = callv(e, s3, d["f"], [x], call.site) if k == "st:flat_map" else [(s3, x)]
                        for s4, y in nxt:
                            if isinstance(y, Panic):
                                out.append((s4, y))
                                continue
                            if k == "st:try_flatten":
                                for s5, rv in e.split(s4, y, RES):
                                    if rv == "Err":
                                        out.append((s5, ready(some(err(e.payload(y, "Err"))))))
                                    else:
                                        s5 = s5.copy()
                                        v = e.read_loc(s5, loc)
                                        e.write_loc(s5, loc, v[:3] + (tuple(sorted(v[3] + (("cur", e.payload(y, "Ok")),))), None))
                                        work.append((s5, n + 1))
                                continue
                            s4 = s4.copy()
                            v = e.read_loc(s4, loc)
                            e.write_loc(s4, loc, v[:3] + (tuple(sorted(v[3] + (("cur", y),))), None))
                            work.append((s4, n + 1))
        return out
    if k in ("st:map_ok", "st:and_then", "st:map_err", "st:then", "st:inspect"):
        out = []
        for s, r in stream_poll(e, st, ("ref", (loc[0], loc[1] + ((".", "s"),))), call):
            if isinstance(r, Panic):
                out.append((s, r))
                continue
            for s2, pv in e.split(s, r, POLL):
                if pv == "Pending":
                    out.append((s2, PENDING))
                    continue
                o = e.payload(r, "Ready")
                for s3, ov in e.split(s2, o, OPT):
                    if ov == "None":
                        out.append((s3, ready(NONE)))
                        continue
                    x = e.payload(o, "Some")
                    if k == "st:inspect":
                        out.append((s3, r))
                        continue
                    if k == "st:then":
                        for s4, fut in callv(e, s3, d["f"], [x], call.site):
                            out.extend([(s4, fut)] if isinstance(fut, Panic) else _then(e, run_future(e, s4, fut, call), lambda z: ready(some(z))))
                        continue
                    for s4, rv in e.split(s3, x, RES):
                        if (rv == "Err") != (k == "st:map_err"):
                            out.append((s4, ready(some(x))))
                            continue
                        y = e.payload(x, rv)
                        for s5, z in callv(e, s4, d["f"], [y], call.site):
                            if isinstance(z, Panic):
                                out.append((s5, z))
                            elif k == "st:and_then":
                                out.extend(_then(e, run_future(e, s5, z, call), lambda q: ready(some(q))))
                            else:
                                out.append((s5, ready(some(err(z) if rv == "Err" else ok(z)))))
        return out
    r = poll_stream(e, st, ("ref", loc), k, call)
    if r is not None:
        return r
    st = st.copy()
    return [(st, e.fresh(st, "next", call.site[0], call.site[1]))]


def iter_next(e, st, loc, call):
    """Iterator::next of a locally implemented iterator."""
    v = e.read_loc(st, loc)
    if v[0] == "adt" and v[1] == "it:map":
        return _bind(e, iter_next(e, st, (loc[0], loc[1] + ((".", "it"),)), call), dict(v[3])["f"], call)
    if v[0] == "adt":
        for tr in ("std::iter::Iterator", "core::iter::Iterator"):
            for selft, items, im in e.f.timpls.get(tr, []):
                if e.f.tk(selft) == "adt" and e.f.tdef(selft) == v[1] and "next" in items:
                    b = e.f.bodies[items["next"]]
                    return e.call(st, ("fn", b.p, e.info_key({"p": b.p, "r": b.p, "n": "next", "tr": tr, "a": []})),
                                  [("ref", loc)], call.site, [None], b.l[0])
    st = st.copy()
    return [(st, e.fresh(st, "next", call.site[0], call.site[1]))]


def _bind(e, outs, f, call):
    out = []
    for s, r in outs:
        if isinstance(r, Panic):
            out.append((s, r))
            continue
        for s2, ov in e.split(s, r, OPT):
            if ov == "None":
                out.append((s2, NONE))
            else:
                out.extend(_then(e, callv(e, s2, f, [e.payload(r, "Some")], call.site), some))
    return out


def run_try_fold(e, st, d, call, rounds=3):
    """try_fold: the loop body is taken `rounds` times with an opaque accumulator after the first."""
    cell = ("K", len(e.stack), "fold", call.site[0], call.site[1])
    s0 = st.copy()
    s0.mem[cell] = d["s"]
    work = [(s0, d["acc"], 0)]
    out = []
    seen = set()
    while work:
        s, acc, n = work.pop()
        k = (s.key(), acc)
        if k in seen:
            continue
        seen.add(k)
        if n > rounds:
            continue
        for s1, r in stream_poll(e, s, ("ref", (cell, ())), call):
            if isinstance(r, Panic):
                out.append((s1, r))
                continue
            for s2, pv in e.split(s1, r, POLL):
                if pv == "Pending":
                    continue
                o = e.payload(r, "Ready")
                for s3, ov in e.split(s2, o, OPT):
                    if ov == "None":
                        out.append((s3, ok(acc)))
                        continue
                    x = e.payload(o, "Some")
                    for s4, rv in e.split(s3, x, RES):
                        if rv == "Err":
                            out.append((s4, err(e.payload(x, "Err"))))
                            continue
                        for s5, fut in callv(e, s4, d["f"], [acc, e.payload(x, "Ok")], call.site):
                            if isinstance(fut, Panic):
                                out.append((s5, fut))
                                continue
                            for s6, ar in run_future(e, s5, fut, call):
                                if isinstance(ar, Panic):
                                    out.append((s6, ar))
                                    continue
                                for s7, av in e.split(s6, ar, RES):
                                    if av == "Err":
                                        out.append((s7, err(e.payload(ar, "Err"))))
                                    else:
                                        work.append((s7, e.payload(ar, "Ok"), n + 1))
    return out


# ------------------------------------------------------------------ counting loops
RANGE = "std::ops::Range"
RANGE_INC = "std::ops::RangeInclusive"


@model("@std::iter::IntoIterator::into_iter", "std::iter::IntoIterator::into_iter")
def m_into_iter(e, st, call):
    v = call.args[0]
    if v[0] == "adt" and v[1] in (RANGE, RANGE_INC):
        return [(st, v)]
    return None


@model("std::ops::RangeInclusive::new")
def m_range_inc(e, st, call):
    return [(st, ("adt", RANGE_INC, None, (("end", call.args[1]), ("exhausted", FALSE), ("start", call.args[0])), None))]


@model("@std::iter::Iterator::next", "std::iter::Iterator::next")
def m_range_next(e, st, call):
    loc = e.deref(st, call.args[0])
    v = e.read_loc(st, loc)
    if v[0] == "ref":
        loc = v[1]
        v = e.read_loc(st, loc)
    if v[0] != "adt" or v[1] not in (RANGE, RANGE_INC):
        return None
    d = dict(v[3])
    a, b = d["start"], d["end"]
    out = []
    inc = v[1] == RANGE_INC
    t = mk_not(mk_op("Lt", e.kn(st, b), e.kn(st, a))) if inc else mk_op("Lt", e.kn(st, a), e.kn(st, b))
    s2 = st.copy()
    if e.assume(s2, t, False):
        out.append((s2, NONE))
    s1 = st.copy()
    if e.assume(s1, t, True):
        e.write_loc(s1, (loc[0], loc[1] + ((".", "start"),)), mk_op("Add", a, C(1)))
        out.append((s1, some(a)))
    return out


def _ck(op, mode):
    def f(e, st, call):
        a, b = e.kn(st, call.args[0]), e.kn(st, call.args[1])
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
            r = mk_op(op, a, b)
            if r[0] == "c":
                unsigned = call.rett is not None and "u" in e.f.ts(call.rett)
                if mode == "saturating":
                    return [(st, C(max(r[1], 0)) if unsigned else r)]
                if mode == "checked":
                    return [(st, NONE if unsigned and r[1] < 0 else some(r))]
                if mode == "wrapping" and r[1] >= 0:
                    return [(st, r)]
        return None
    return f


ARITH = {}
for _n, _o in (("add", "Add"), ("sub", "Sub")):
    for _m in ("saturating", "checked", "wrapping"):
        ARITH["%s_%s" % (_m, _n)] = _ck(_o, _m)
