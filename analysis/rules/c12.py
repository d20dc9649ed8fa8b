"""C12 Compressed data is checksum-verified before it is used."""
from engine import State, Panic, C, TRUE, contains
from models import nrm
from prov import prov_engine, calls_in
from lin import lin, add, strip, low_high
from rules.util import where, calls

TECHNIQUE = "path-sensitive provenance and linear-arithmetic analysis of the compressed frame reader and writer over MIR"
RULE = ("On every path of the compressed reader that decompresses, the received 128-bit checksum must already have been found equal to the hash of "
        "the very buffer that is decompressed, the sizes taken from the wire must have been bounded before they size a buffer, the lengths "
        "passed to LZ4 must be those of the buffers, and a path that succeeds must have found the decompressed size equal to the declared one. "
        "The writer must send the hash of exactly the buffer it then sends, preceded in it by the method and the two sizes. LZ4 is called nowhere else.")
ASSUMPTIONS = ["LZ4_decompress_safe and LZ4_compress_default stay within the lengths they are given; city_hash_128 is CityHash."]
MAX = 0x40000000
HDR = 9
PASS = ("as_ref", "as_slice", "deref", "as_mut", "as_mut_slice", "deref_mut", "borrow", "cast", "cast_mut", "cast_const", "by_ref")


def last(p):
    return nrm(p.replace("mut:", "")).split("::")[-1]


def isc(v, *names):
    return isinstance(v, tuple) and len(v) == 4 and v[:2] == ("a", "call") and last(v[2]) in names


def base(v):
    """(buffer, offset) a pointer or slice term denotes."""
    off = {}
    while True:
        if isinstance(v, tuple) and v[0] == "cast":
            v = v[2]
        elif isinstance(v, tuple) and v[0] in ("ref", "deref") and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], str):
            v = v[1]
        elif isc(v, "as_ptr", "as_mut_ptr", *PASS) and not v[2].startswith("mut:"):
            v = v[3][0]
        elif isc(v, "as_mut_ptr", "as_ptr", "index_mut", *PASS) and v[2].startswith("mut:"):
            v = v[3][0]
        elif isc(v, "add", "offset", "wrapping_add") and "ptr" in v[2]:
            off = add(off, lin(v[3][1], lens))
            v = v[3][0]
        elif isc(v, "index", "index_mut", "get", "get_mut") and not v[2].startswith("mut:"):
            r = v[3][1]
            if isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("RangeFrom"):
                off = add(off, lin(dict(r[3])["start"], lens))
                v = v[3][0]
            else:
                return v, off
        else:
            return v, off


def hb(v):
    b, o = base(v)
    return b, frozenset(o.items())


def blen(v):
    """Linear length of a buffer term."""
    v, off = base(v)
    if isc(v, "resize") and v[2].startswith("mut:"):
        r = lin(v[3][1], lens)
    elif isc(v, "from_elem"):
        r = lin(v[3][1], lens)
    elif isc(v, "new", "with_capacity") and "Vec" in v[2] and not v[2].startswith("mut:"):
        r = {}
    elif isc(v, "truncate") and v[2].startswith("mut:"):
        r = lin(v[3][1], lens)
    elif isc(v, "push") and v[2].startswith("mut:"):
        r = add(blen(v[3][0]), {None: 1})
    elif isc(v, "extend_from_slice") and v[2].startswith("mut:"):
        r = add(blen(v[3][0]), blen(v[3][1]))
    elif isc(v, "to_le_bytes"):
        r = {None: 4}
    elif isc(v, "write_u8", "write_u32", "write_all", "read_bytes", "read_exact", "read") and v[2].startswith("mut:"):
        r = blen(v[3][0])
    else:
        r = {("op", "len", v): 1}
    return add(r, off, -1)


def lens(v):
    if v[0] == "op" and v[1] == "len" and len(v) == 3:
        r = blen(v[2])
        return r if r != {v: 1} else None
    if isc(v, "len") and not v[2].startswith("mut:"):
        return blen(v[3][0])
    return None


def wire(v):
    """Does the term contain a number read from the reader?"""
    return any(last(p) in ("read_scalar", "read_uvarint", "read_u32", "read_u64") for p, a in calls_in(v))


def check(ctx):
    f = ctx.facts("default")
    dec = [p for p, b in f.bodies.items() if any("LZ4_decompress" in i["p"] for _, i, _, _ in calls(f, b))]
    enc = [p for p, b in f.bodies.items() if any("LZ4_compress" in i["p"] and "Bound" not in i["p"] for _, i, _, _ in calls(f, b))]
    ctx.floor("functions that decompress", len(dec), 1)
    ctx.floor("functions that compress", len(enc), 1)
    bad = {}

    def flag(key, w):
        bad.setdefault(key, w)

    reader(ctx, f, dec, flag)
    writer(ctx, f, enc, flag)
    for k, w in bad.items():
        ctx.violation(k, k, w)


def eq_hash(e, st, B):
    """Is a full comparison of some checksum with the hash of B known to hold?"""
    halves = set()
    for t, x in st.facts.items():
        if not (isinstance(t, tuple) and t[0] == "op" and t[1] in ("Eq", "Ne") and len(t) == 4 and x[0] == "="):
            continue
        if (x[1] in (True, 1)) != (t[1] == "Eq"):
            continue
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            a = unref(a)
            if isc(a, "city_hash_128") and base(a[3][0])[0] == B and not base(a[3][0])[1] and not any("city_hash" in p for p, _ in calls_in(b)) and wire(b):
                return True
            if isinstance(a, tuple) and a[0] == "fld" and isc(a[1], "city_hash_128") and base(a[1][3][0])[0] == B and not base(a[1][3][0])[1] \
                    and not any("city_hash" in p for p, _ in calls_in(b)) and wire(b):
                halves.add(a[2])
    return len(halves) == 2


def unref(v):
    while isinstance(v, tuple) and v and v[0] in ("ref", "deref") and isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], str):
        v = v[1]
    return v


def entry_points(f, seeds):
    """Callers of the seeds inside their own file, outermost first."""
    src = {f.bodies[p].sp.split(":")[0] for p in seeds}
    return src


def reader(ctx, f, dec, flag):
    src = {f.bodies[p].sp.split(":")[0] for p in dec}
    reads = [p for p, b in f.bodies.items() if b.n == "read" and b.trait and b.trait.endswith("io::Read") and b.sp.split(":")[0] in src]
    ctx.floor("compressed readers", len(reads), 1)
    npaths = ndec = nalloc = nok = 0
    for p in reads:
        e = prov_engine(f, lambda b: b.sp.split(":")[0] in src)
        e.gc_returns = False
        seen = {"dec": 0, "alloc": 0}

        def hook(e, st, call, p=p):
            n = last(call.p)
            if n in ("resize", "from_elem", "with_capacity", "reserve") and call.args:
                size = e.deep(st, call.args[1] if n in ("resize", "from_elem", "reserve") else call.args[0])
                if wire(size):
                    seen["alloc"] += 1
                    lo, hi = low_high(st.facts, size, lens)
                    if hi is None or hi > MAX:
                        flag("a size taken from the wire allocates memory before it is bounded", "%s %s" % (p, call.site[2]))
            if n in ("index", "index_mut") and len(call.args) > 1:
                r = e.deep(st, call.args[1])
                b = e.deep(st, call.args[0])
                if isinstance(r, tuple) and r[0] == "adt" and r[1].endswith("RangeFrom"):
                    L = blen(b)
                    d = add(L, lin(dict(r[3])["start"], lens), -1)
                    atoms = [k for k in d if k is not None]
                    if len(atoms) == 1 and d[atoms[0]] == 1 and wire(atoms[0]):
                        lo, hi = low_high(st.facts, atoms[0], lens)
                        if lo is None or lo + d.get(None, 0) < 0:
                            flag("a frame shorter than its header is sliced before its size is checked", "%s %s" % (p, call.site[2]))
            if "LZ4_decompress" in call.p:
                seen["dec"] += 1
                w = "%s %s" % (p, call.site[2])
                a = [e.deep(st, x) for x in call.args]
                B, off = base(a[0])
                if not eq_hash(e, st, B):
                    flag("data is decompressed although its checksum was not found equal to the hash of exactly that data", w)
                if off != {None: HDR}:
                    flag("the compressed payload does not start right after the frame header", w)
                if lin(a[2], lens) != add(blen(B), off, -1):
                    flag("the compressed length given to LZ4 is not that of the received payload", w)
                D, doff = base(a[1])
                if add(blen(D), doff, -1) != lin(a[3], lens):
                    flag("the output capacity given to LZ4 is not that of the output buffer", w)
                st.obs = st.obs + (("dec", a[3], D),)
            return None
        e.hooks.append(hook)
        for st, v in e.run_fn(p, None, State(obs=())):
            npaths += 1
            if isinstance(v, Panic):
                continue
            ds = [o for o in st.obs if o[0] == "dec"]
            got = any(last(c) == "read_bytes" or last(c) == "read_scalar" for t in st.facts for c, _ in calls_in(t) if not c.startswith("mut:"))
            r = e.deep(st, v)
            err = isinstance(r, tuple) and r[0] == "adt" and r[2] == "Err"
            if err:
                continue
            if got and not ds:
                flag("a received frame is accepted without being decompressed", where(f, p))
            for d in ds:
                nok += 1
                ok = False
                for t, x in st.facts.items():
                    if isinstance(t, tuple) and t[0] == "op" and t[1] in ("Eq", "Ne") and len(t) == 4 and x[0] == "=" and (x[1] in (True, 1)) == (t[1] == "Eq"):
                        for s, o in ((t[2], t[3]), (t[3], t[2])):
                            if isc(strip(s), "LZ4_decompress_safe") and lin(o, lens) == lin(d[1], lens):
                                ok = True
                if not ok:
                    flag("a frame is accepted although it may not have decompressed to its declared size", where(f, p))
        ndec += seen["dec"]
        nalloc += seen["alloc"]
        ctx.count("functions", len(e.called))
    ctx.count("paths", npaths)
    ctx.floor("decompression sites reached", ndec, 1)
    ctx.floor("allocations sized by the wire", nalloc, 1)
    ctx.floor("accepting paths", nok, 1)
    ctx.oblige("%d reader paths: checksum, sizes and result checked" % npaths, True)
    for p, b in f.bodies.items():
        for _, info, t, sp in calls(f, b):
            if "LZ4_decompress" in info["p"] and b.sp.split(":")[0] not in src:
                flag("LZ4 decompression outside the frame reader in %s" % p, "%s %s" % (p, sp))


def writer(ctx, f, enc, flag):
    # entry: the function that asks for compressed output (has a bool parameter) and reaches LZ4
    entry = set()
    for p in enc:
        front, seen = [p], {p}
        while front:
            q = front.pop()
            b = f.bodies[q]
            if any(f.ts(t) == "bool" for t in b.l[1:1 + b.argc]) and any("Encoder" in f.ts(t) for t in b.l[1:1 + b.argc]):
                entry.add(q)
                continue
            from rules.util import callers_of
            for c in callers_of(f, q):
                if c not in seen:
                    seen.add(c)
                    front.append(c)
    ctx.floor("functions that write compressed blocks", len(entry), 1)
    src = {f.bodies[p].sp.split(":")[0] for p in enc} | {f.bodies[p].sp.split(":")[0] for p in entry}
    frames = 0
    for p in entry:
        b = f.bodies[p]
        args = []
        for i in range(1, 1 + b.argc):
            args.append(TRUE if f.ts(b.l[i]) == "bool" else ("a", "arg", "_%d" % i))
        e = prov_engine(f, lambda b2: b2.sp.split(":")[0] in src and b2.p != p and "Encoder" not in f.ts(b2.l[0])
                        or b2.p == p and False)
        e.gc_returns = False

        def hook(e, st, call, p=p):
            nonlocal frames
            n = last(call.p)
            w = "%s %s" % (p, call.site[2])
            if "LZ4_compress_default" in call.p or "LZ4_compress_fast" in call.p or "LZ4_compress_HC" in call.p:
                a = [e.deep(st, x) for x in call.args]
                S, so = base(a[0])
                D, do = base(a[1])
                if lin(a[2], lens) != add(blen(S), so, -1):
                    flag("the source length given to LZ4 is not that of the data to compress", w)
                if add(blen(D), do, -1) != lin(a[3], lens):
                    flag("the capacity given to LZ4 is not that of the output buffer", w)
                if do != {None: HDR}:
                    flag("the compressed payload does not follow the frame header", w)
                if not bounded(e, st, S):
                    flag("a block of 2 GB or more would be compressed as one frame", w)
                st.obs = st.obs + (("cmp", S, call.site),)
            elif n in ("write_u8", "write_u32", "put_u8", "put_u32_le"):
                st.obs = st.obs + (("hdr", n, e.deep(st, call.args[1]) if len(call.args) > 1 else None),)
            elif n == "to_le_bytes" and call.args:
                st.obs = st.obs + (("hdr", n, e.deep(st, call.args[0])),)
            elif n in ("write", "write_bytes", "uvarint", "string") and call.argts and call.argts[0] is not None and "Encoder" in f.ts(call.argts[0]):
                v = e.deep(st, call.args[1])
                enc0 = e.deep(st, call.args[0])
                while isinstance(enc0, tuple) and len(enc0) == 4 and enc0[:2] == ("a", "call") and enc0[2].startswith("mut:"):
                    enc0 = enc0[3][0]
                if isc(enc0, "new", "default", "with_capacity"):
                    return None          # a scratch encoder
                v = unref(v)
                if isinstance(v, tuple) and v[0] == "fld" and isc(v[1], "city_hash_128") and n == "write":
                    st.obs = st.obs + (("half", v[2], hb(v[1][3][0])),)
                elif n == "write_bytes":
                    frames += 1
                    B, off = base(v)
                    hs = []
                    for o in reversed(st.obs):
                        if o[0] == "half":
                            hs.append(o)
                        elif o[0] in ("body",):
                            break
                    hs = hs[::-1]
                    if [h[1] for h in hs] != ["lo", "hi"]:
                        flag("a frame is sent without both halves of its checksum, low half first", w)
                    elif any(h[2] != hb(v) for h in hs) or off:
                        flag("the checksum sent is not that of exactly the bytes sent after it", w)
                    fr = []
                    part = None
                    for o in reversed(st.obs):
                        if o[0] == "body":
                            break
                        if o[0] == "hdr":
                            fr.append(o)
                        if o[0] == "cmp" and part is None:
                            part = o[1]
                    fr = fr[::-1]
                    if part is None:
                        flag("a frame is sent that was not compressed from the block", w)
                    else:
                        vals = [o[2] for o in fr if o[1] != "write_u8" and o[1] != "put_u8"]
                        byte = [strip(o[2]) for o in fr if o[1] in ("write_u8", "put_u8")]
                        if byte and byte != [C(0x82)]:
                            flag("the frame does not declare the LZ4 method", w)
                        if len(vals) != 2 or narrowed(vals[0]) or narrowed(vals[1]) or lin(vals[0], lens) != blen(B) or lin(vals[1], lens) != blen(part):
                            flag("the frame header does not carry the compressed and the original size", w)
                        size = [c for c in calls_in(B) if last(c[0]).startswith("LZ4_compress_") and not c[0].startswith("mut:")]
                        if not size:
                            flag("the bytes sent are not cut to the size LZ4 reported", w)
                    st.obs = st.obs + (("body",),)
                else:
                    flag("something other than checksum and frame is written among compressed frames", w)
            return None
        e.hooks.append(hook)

        done = set()

        def head(e, st, body, fid, bi, n):
            done.add((body.p, bi)) if n == 1 else None
            if n > 1 and any(o[0] == "cmp" for o in st.obs):
                if sum(1 for o in st.obs if o[0] == "cmp") != sum(1 for o in st.obs if o[0] == "body"):
                    flag("a compressed part of a block is not sent, or sent more than once", where(f, body.p))
                return "cut"
        e.head_hook = head
        n = 0
        for st, v in e.run_fn(p, args, State(obs=())):
            n += 1
            ncmp = sum(1 for o in st.obs if o[0] == "cmp")
            nb = sum(1 for o in st.obs if o[0] == "body")
            if not isinstance(v, Panic) and nb != ncmp:
                flag("a compressed part of a block is not sent, or sent more than once", where(f, p))
        ctx.count("paths", n)
        ctx.count("functions", len(e.called))
    ctx.floor("frames sent", frames, 1)
    for p, b in f.bodies.items():
        for _, info, t, sp in calls(f, b):
            if "LZ4_compress" in info["p"] and b.sp.split(":")[0] not in src:
                flag("LZ4 compression outside the block writer in %s" % p, "%s %s" % (p, sp))
    ctx.oblige("%d frame emissions: checksum and sizes are those of the bytes sent" % frames, True)


def narrowed(v):
    while isinstance(v, tuple) and v[0] == "cast":
        if v[1] in ("u8", "i8", "u16", "i16"):
            return True
        v = v[2]
    return False


def bounded(e, st, S):
    for c, a in calls_in(S):
        if last(c) in ("chunks", "chunks_exact") and not c.startswith("mut:") and len(a) > 1:
            k = strip(a[1])
            return last(c) == "chunks" and isinstance(k, tuple) and k[0] == "c" and 0 < k[1] <= 0x7E000000
    lo, hi = low_high(st.facts, ("op", "len", S), lens)
    return hi is not None and hi <= 0x7E000000
