"""Strings as sequences of literal pieces and terms; character classes of predicates."""
import ast
from engine import C, TRUE, FALSE, NONE, Panic, State, some, ok, err, RES
from models import callv
from rules.c12 import isc, last
from wire import plain, norm


class Unknown(Exception):
    pass


DEBUG = []          # the values a rule accepts {:?} of
KEEP = ("must_use", "to_string", "to_owned", "clone", "into", "from", "as_str", "deref", "borrow", "as_ref", "into_boxed_str", "into_owned", "into_string", "trim_end_")


def template(v):
    """Pieces of a compiled format string: str or None for the next argument."""
    if v[0] == "c" and isinstance(v[1], str):
        return [v[1]]
    if not (v[:2] == ("a", "constv") and v[2].startswith(('b"', "b'"))):
        raise Unknown("format string")
    b = ast.literal_eval(v[2])
    out = []
    i = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0xc0:
            out.append(None)
        else:
            raise Unknown("format specification")
    return out


def text(v, items=None):
    """[str | term] with neighbouring literals joined."""
    out = []
    for x in _text(v, items):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def _text(v, items):
    v = plain(v)
    if v[0] == "c":
        if isinstance(v[1], str):
            return [v[1]]
        return [v]
    if v[0] == "conv":
        return _text(v[2], items)
    if v[0] == "adt" and v[1].endswith("Cow") and len(v[3]) == 1:
        return _text(v[3][0][1], items)
    if len(v) == 4 and v[:2] == ("a", "call"):
        n, a = last(v[2]), v[3]
        if not v[2].startswith("mut:"):
            if n in KEEP and len(a) == 1:
                return _text(a[0], items)
            if n in ("new", "with_capacity", "default") and "String" in v[2]:
                return []
            if n == "format" and len(a) == 1:
                return args(a[0], items)
            if n in ("from_str", "new_const") and "Arguments" in v[2]:
                return _text(a[0] if a[0][0] != "arr" else a[0][1][0], items)
            if n == "add" and len(a) == 2:
                return _text(a[0], items) + _text(a[1], items)
            if n in ("join", "concat") and items is not None:
                sep = _text(a[1], items) if n == "join" else []
                out = []
                for i, x in enumerate(items(a[0])):
                    out += (sep if i else []) + _text(x, items)
                return out
        else:
            if n in ("push_str", "add_assign", "write_str"):
                return _text(a[0], items) + _text(a[1], items)
            if n == "push":
                c = a[1]
                return _text(a[0], items) + ([chr(c[1])] if c[0] == "c" and isinstance(c[1], int) else [c])
            if n in ("reserve",):
                return _text(a[0], items)
            if n == "write_fmt":
                return _text(a[0], items) + args(a[1], items)
    return [v]


def args(v, items):
    v = plain(v)
    if not (len(v) == 4 and v[:2] == ("a", "call") and "Arguments" in v[2]):
        raise Unknown("format arguments")
    if last(v[2]) == "from_str":
        return _text(v[3][0], items)
    if len(v[3]) != 2:
        raise Unknown("format arguments")
    t, arr = v[3]
    xs = list(plain(arr)[1])
    out = []
    for p in template(plain(t)):
        if p is None:
            x = plain(xs.pop(0))
            if DEBUG and isc(x, "new_debug") and DEBUG[-1](x[3][0]):
                out.append(plain(x[3][0]))
                continue
            if not isc(x, "new_display"):
                raise Unknown("argument not displayed")
            out += _text(x[3][0], items)
        else:
            out.append(p)
    if xs:
        raise Unknown("arguments used out of order")
    return out


# ---------------------------------------------------------------- characters
ALL = frozenset(list(range(128)) + ["N"])     # "N": everything beyond ASCII
DIGITS = frozenset(range(48, 58))
PRED = {"is_ascii_digit": lambda c: 48 <= c < 58, "is_numeric": lambda c: 48 <= c < 58, "is_alphanumeric": lambda c: chr(c).isalnum(),
        "is_ascii_alphanumeric": lambda c: chr(c).isalnum(), "is_alphabetic": lambda c: chr(c).isalpha(), "is_ascii_alphabetic": lambda c: chr(c).isalpha(),
        "is_whitespace": lambda c: chr(c).isspace(), "is_ascii": lambda c: True, "is_ascii_punctuation": lambda c: chr(c) in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~",
        "is_ascii_whitespace": lambda c: chr(c) in " \t\n\r\x0c", "is_control": lambda c: c < 32 or c == 127, "is_ascii_hexdigit": lambda c: chr(c) in "0123456789abcdefABCDEF"}
NON = ("a", "nonascii")


def predicates(e, st, call):
    """Tests of a single known character."""
    if not call.args:
        return None
    v = call.args[0]
    v = e.deep(st, v)
    for _ in range(3):
        if v[0] == "ref":
            try:
                v = e.deep(st, e.read_loc(st, v[1]))
            except Exception:
                return None
        elif v[0] == "deref":
            v = v[1]
    if call.name in PRED or call.name == "is_digit":
        if v == NON:
            if call.name.startswith("is_ascii") or call.name == "is_digit":
                return [(st, FALSE)]
            s2 = st.copy()
            return [(st, TRUE), (s2, FALSE)]
        if v[0] == "c" and isinstance(v[1], int):
            if call.name == "is_digit":
                r = e.deep(st, call.args[1])
                if r[0] != "c":
                    return None
                d = "0123456789abcdefghijklmnopqrstuvwxyz"[:r[1]]
                return [(st, C(v[1] < 128 and chr(v[1]).lower() in d))]
            return [(st, C(v[1] < 128 and bool(PRED[call.name](v[1]))))]
    return None


def beyond(facts):
    """Can these facts hold for a character beyond ASCII?"""
    for t, x in facts.items():
        if t == NON and x[0] == "=" and x[1] < 128:
            return False
        if not (isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and x[0] == "="):
            continue
        a, b = t[2], t[3]
        yes = x[1] in (True, 1)
        if t[1] == "Eq" and NON in (a, b):
            k = b if a == NON else a
            if k[0] == "c" and k[1] < 128 and yes:
                return False
        if t[1] == "Lt" and a == NON and b[0] == "c" and b[1] <= 128 and yes:
            return False
        if t[1] == "Lt" and b == NON and a[0] == "c" and a[1] <= 127 and not yes:
            return False
    return True


def trueset(e, st, fv, byref, site):
    """(may be true, may be false): the characters for which a predicate may hold / may not hold."""
    if fv[0] == "c":
        if isinstance(fv[1], int):
            s = frozenset([fv[1] if fv[1] < 128 else "N"])
            return s, ALL - s
        if isinstance(fv[1], str) and len(fv[1]) == 1 and ord(fv[1]) < 128:
            s = frozenset([ord(fv[1])])
            return s, ALL - s
        return None
    if fv[0] == "arr" and all(x[0] == "c" for x in fv[1]):
        s = frozenset(x[1] if x[1] < 128 else "N" for x in fv[1])
        return s, ALL - s
    may, not_ = set(), set()
    for c in ALL:
        x = NON if c == "N" else C(c)
        s = st.copy()
        if byref:
            s.mem[("K", 0, "ch")] = x
            x = ("ref", (("K", 0, "ch"), ()))
        try:
            outs = callv(e, s, fv, [x], site)
        except Exception:
            return None
        for s2, v in outs:
            if isinstance(v, Panic):
                return None
            if c == "N" and not beyond(s2.facts):
                continue
            if v[0] != "c":
                if c == "N" and v[0] == "op" and beyond({v: ("=", True)}) != beyond({v: ("=", False)}):
                    (may if beyond({v: ("=", True)}) else not_).add(c)
                    continue
                may.add(c)
                not_.add(c)
                continue
            (may if v[1] in (True, 1) else not_).add(c)
    return frozenset(may), frozenset(not_)
