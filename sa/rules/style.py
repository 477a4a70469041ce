"""shared extraction for the style resolution pass"""
from rules.css import *


def st_inline(c, cb):
    return cb.krate == "textual" and c.trait != "std::clone::Clone"


def resolvers(P):
    """functions taking a widget, a stylesheet, a theme, an ancestor stack and a bool: the recursive restyling pass"""
    out = []
    for b in P.fns(crate="textual"):
        if b.kind == "closure":
            continue
        tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if any("dyn" in t and "Widget" in t and t.startswith("&mut") for t in tys) and any("VecDeque" in t or "Vec<" in t for t in tys) \
                and any(ty_tail(t) == "StyleSheet" for t in tys) and "bool" in tys:
            out.append(b)
    return out


def sflow(P, b):
    k = "_sflow_" + b.id
    if k not in P.__dict__:
        P.__dict__[k] = Flow(normalize(P, b, st_inline), P)
    return P.__dict__[k]


def argi(b, pred):
    for i in range(1, b.argc + 1):
        if pred(b.locals[i][0]):
            return i
    return None


def avoid(f, blocks, dead):
    """is a return reachable from the entry avoiding `blocks`, not using an edge whose facts satisfy dead()?  -> the last edge or None"""
    st, seen = [0], {0}
    if 0 in blocks:
        return None
    while st:
        b = st.pop()
        if f.b.term(b)[0] == "return":
            return b
        for s in f.b.succs(b):
            ef = f.edgefacts.get((b, s))
            if ef is None or s in blocks or s in seen or dead(ef):
                continue
            seen.add(s)
            st.append(s)
    return None


def knows(fs, callname, arg, val):
    for x in fs:
        if x[0] == "is" and x[2] is val and x[1][0] == "call" and x[1][1].split("::")[-1] == callname and x[1][2] and x[1][2][0] == arg and x[1][3] is None:
            return True
    return False


def capture_args(P, f, bb, clo, self_ids):
    """argument values of the recursive call made inside a closure value, in terms of the captured values"""
    cb = P.bodies.get(clo[1].split(":", 1)[1])
    if cb is None:
        return None
    g = Flow(normalize(P, cb, lambda c, b: st_inline(c, b) and b.id not in self_ids), P)
    caps = dict(clo[3])
    out = []
    for c, a, fs in g.calls():
        if c.callee_id in self_ids:
            out.append(([cap_subst(f, bb, caps, x) for x in a], fs, c))
    return out, cb, g


def cap_subst(f, bb, caps, x):
    """value inside the closure -> value outside"""
    x0 = x
    d = 0
    while True:
        if x[0] == "f" and x[1] == ("arg", 1):
            return caps.get(str(x[2]), x0), d
        if x[0] == "mem" and x[1] == ("D", ("arg", 1)) and x[2]:
            v = caps.get(str(x[2][0]), x0)
            return (v, d) if len(x[2]) == 1 else (x0, d)
        if x[0] == "mem" and x[1][0] == "D" and x[2] == ():
            x = x[1][1]
            d += 1
            continue
        if x[0] == "ref" and x[1][0] == "D" and x[2] == ():
            x = x[1][1]
            continue
        return x0, d
