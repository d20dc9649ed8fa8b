"""Provenance runs: results of calls we do not look into become terms naming the call and its
arguments, so that a value says where it came from; loops are analysed for their first
`iters` iterations from a generic state (the per-iteration argument)."""
from engine import Engine, contains


def prov_engine(f, inline, iters=2):
    e = Engine(f)
    e.inline_filter = inline

    def ret(e, st, call, res):
        return ("a", "call", call.path, tuple(e.deep(st, a) for a in call.args))

    def mut(e, st, call, i, cur):
        return ("a", "call", "mut:" + call.path, (cur,) + tuple(e.deep(st, a) for j, a in enumerate(call.args) if j != i))
    e.await_prov = True
    e.opaque_return_hook = ret
    e.opaque_mut_hook = mut
    return e


def calls_in(v, acc=None):
    """Call terms inside a value."""
    if acc is None:
        acc = []
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "a" and v[1] == "call":
            acc.append((v[2], v[3]))
        for x in v:
            if isinstance(x, tuple):
                calls_in(x, acc)
    return acc


def consts_in(v, acc=None):
    if acc is None:
        acc = []
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "c":
            acc.append(v[1])
            return acc
        for x in v:
            if isinstance(x, tuple):
                consts_in(x, acc)
    return acc
