"""Helpers shared by the rules."""


def calls(f, b):
    """All resolved call sites of a body: (block index, callee info, terminator, span)."""
    out = []
    for i, bl in enumerate(b.b):
        if bl["c"]:
            continue
        t = bl["t"]
        if t[0] == "call" and t[1][0] == "fn":
            out.append((i, t[1][1], t, bl["sp"]))
    return out


def callers_of(f, path):
    out = []
    for b in f.bodies.values():
        for i, info, t, sp in calls(f, b):
            if (info.get("r") or info["p"]) == path or info["p"] == path:
                if b.p not in out:
                    out.append(b.p)
    return out


def where(f, p):
    b = f.bodies[p]
    return "%s (%s)" % (b.sp, p)
