"""values as linear forms, without call sites: arithmetic that is merely written differently compares equal"""
from rules.tree import *


def canon(v, sub=None):
    """a value with call sites removed; sub(v) may replace a value"""
    if not isinstance(v, tuple):
        return v
    if sub is not None and v and isinstance(v[0], str):
        r = sub(v)
        if r is not None:
            return r
    if v and v[0] == "call" and len(v) == 4:
        return ("call", last(v) or v[1], tuple(canon(x, sub) for x in v[2]))
    if v and v[0] == "refv":
        return canon(v[1], sub)
    return tuple(canon(x, sub) if isinstance(x, tuple) else x for x in v)


def lin(v, sub=None, k=1, out=None):
    """{term: coefficient}"""
    if out is None:
        out = {}
        lin(v, sub, 1, out)
        return frozenset((t, c) for t, c in out.items() if c)
    if v[0] == "bin" and v[1] in ("Add", "Sub"):
        lin(v[2], sub, k, out)
        lin(v[3], sub, k if v[1] == "Add" else -k, out)
    elif v[0] == "un" and v[1] == "Neg":
        lin(v[2], sub, -k, out)
    elif v[0] == "k" and isinstance(v[1], int) and not isinstance(v[1], bool):
        out[("one",)] = out.get(("one",), 0) + k * v[1]
    else:
        t = canon(v, sub)
        out[t] = out.get(t, 0) + k
    return None


def show_lin(l):
    return " ".join("%s%s" % ("+" if c > 0 else "-", ("%d*" % abs(c) if abs(c) != 1 else "") + show_t(t)) for t, c in sorted(l, key=str)) or "0"


def show_t(t):
    if t == ("one",):
        return "1"
    s = str(t)
    try:
        s = show(t)
    except Exception:
        pass
    return s[:60]
