"""linear inequalities over symbolic values: what the branch facts of a path imply (Fourier-Motzkin elimination
over the rationals, with integer tightening of strict comparisons; min/max split into their cases)"""
from rules.lin import *


def strip(v):
    """integer casts removed: widths and positions are far inside every integer type involved"""
    while v[0] == "cast":
        v = v[2]
    return v


def term(v, k=1, out=None):
    """{atom: coefficient}; atoms are canonical values"""
    top = out is None
    if top:
        out = {}
    v = strip(v)
    if v[0] == "bin" and v[1] in ("Add", "Sub"):
        term(v[2], k, out)
        term(v[3], k if v[1] == "Add" else -k, out)
    elif v[0] == "call" and last(v) in ("saturating_add", "wrapping_add") and len(v[2]) == 2:
        term(v[2][0], k, out)
        term(v[2][1], k, out)
    elif v[0] == "call" and last(v) in ("saturating_sub", "wrapping_sub") and "impl i" in v[1]:
        term(v[2][0], k, out)
        term(v[2][1], -k, out)
    elif v[0] == "un" and v[1] == "Neg":
        term(v[2], -k, out)
    elif v[0] == "k" and isinstance(v[1], int) and not isinstance(v[1], bool):
        out[1] = out.get(1, 0) + k * v[1]
    elif v[0] in ("refv", "kref"):
        term(v[1], k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {t: c for t, c in out.items() if c} if top else None


def sub(a, b):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) - c
    return {t: c for t, c in r.items() if c}


def ge(a, b):
    """constraint a >= b as a form >= 0"""
    return sub(term(a), term(b))


def gt(a, b):
    return sub(ge(a, b), {1: 1})


def at(r):
    if r[0] in ("refv", "kref"):
        return r[1]
    if r[0] == "ref" and r[1][0] == "D":
        return I(("mem", r[1], r[2]))
    return None


def of_fact(x):
    """constraints a fact states"""
    if x[0] not in ("is", "not"):
        return []
    v, val = x[1], x[2]
    if v[0] == "disc" and val in ("Less", "Equal", "Greater") and x[0] == "is" and v[1][0] == "call" and isinstance(v[1][1], str) and re.search(r"Ord for [iu](\d+|size)>::cmp$", v[1][1]):
        a, b = (at(y) for y in v[1][2])
        if a is None or b is None:
            return []
        return [gt(b, a)] if val == "Less" else [gt(a, b)] if val == "Greater" else [ge(a, b), ge(b, a)]
    if v[0] == "bin" and v[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and isinstance(val, bool):
        op, a, b = v[1], v[2], v[3]
        if x[0] == "not":
            val = not val
        if op in ("Gt", "Ge"):
            op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
        if op == "Lt":
            return [gt(b, a)] if val else [ge(a, b)]
        if op == "Le":
            return [ge(b, a)] if val else [gt(a, b)]
        if (op == "Eq") == val:
            return [ge(a, b), ge(b, a)]
        return []
    if x[0] == "is" and isinstance(val, int) and not isinstance(val, bool):
        k = I(("k", val))
        return [ge(v, k), ge(k, v)]
    return []


def atoms(cs):
    return {t for c in cs for t in c if t != 1}


def axioms(t, nonneg):
    """(certain constraints, alternatives) for an atom"""
    out, alt = [], []
    T = {t: 1}
    if t[0] == "call" and last(t) in ("max", "min") and len(t[2]) == 2:
        a, b = term(t[2][0]), term(t[2][1])
        if last(t) == "max":
            out += [sub(T, a), sub(T, b)]
        else:
            out += [sub(a, T), sub(b, T)]
        alt = [[sub(a, T), sub(T, a)], [sub(b, T), sub(T, b)]]
    elif t[0] == "call" and last(t) == "saturating_sub" and len(t[2]) == 2:
        a, b = term(t[2][0]), term(t[2][1])
        out += [sub(T, sub(a, b)), dict(T)]
        alt = [[sub(sub(a, b), T)], [T and sub({}, T), sub(b, a)]]
    elif t[0] == "call" and last(t) == "clamp" and len(t[2]) == 3:
        v, lo, hi = (term(y) for y in t[2])
        out += [sub(T, lo), sub(hi, T)]
        alt = [[sub(v, T), sub(T, v)], [sub(lo, T), sub(lo, v)], [sub(T, hi), sub(v, hi)]]
    elif t[0] == "f" and t[2] == "Some.0" and t[1][0] == "call" and last(t[1]) in ("next", "next_back") and t[1][2] and t[1][2][0][0] == "agg" and t[1][2][0][1].endswith("Range"):
        d = dict(t[1][2][0][3])
        if "start" in d and "end" in d:
            out += [sub(T, term(d["start"])), sub(sub(term(d["end"]), T), {1: 1})]
    if nonneg and nonneg(t):
        out += [dict(T)]
    return out, alt


def unsat(cs, limit=4000):
    """the constraints (forms >= 0) cannot all hold"""
    cs = {frozenset(c.items()) for c in cs}
    while True:
        for c in cs:
            d = dict(c)
            if not any(t != 1 for t in d) and d.get(1, 0) < 0:
                return True
        vs = {}
        for c in cs:
            for t, k in c:
                if t != 1:
                    p = vs.setdefault(t, [0, 0])
                    p[k > 0] += 1
        if not vs:
            return False
        t = min(vs, key=lambda y: vs[y][0] * vs[y][1])
        pos, neg, rest = [], [], set()
        for c in cs:
            k = dict(c).get(t, 0)
            if k > 0:
                pos.append(dict(c))
            elif k < 0:
                neg.append(dict(c))
            else:
                rest.add(c)
        for a in pos:
            for b in neg:
                ka, kb = a[t], -b[t]
                r = {}
                for y, c in a.items():
                    r[y] = r.get(y, 0) + kb * c
                for y, c in b.items():
                    r[y] = r.get(y, 0) + ka * c
                r = {y: c for y, c in r.items() if c and y != t}
                rest.add(frozenset(r.items()))
        if len(rest) > limit:
            return False
        cs = rest


def implied(facts, goal, nonneg=None, extra=()):
    """the facts (and forms extra >= 0) imply goal >= 0"""
    cs = list(extra)
    for x in facts:
        cs += of_fact(x)
    if any(c.get(1, 0) < 0 and len(c) == 1 for c in cs):
        return True     # cannot happen
    return holds(cs, goal, nonneg)


def holds(cs, goal, nonneg=None):
    neg = sub({}, goal)
    neg[1] = neg.get(1, 0) - 1
    neg = {t: c for t, c in neg.items() if c}
    cs = relevant(list(cs), neg)
    cs.append(neg)
    seen, alts = set(), []
    while True:
        new = (atoms(cs) | {t for a in alts for c in a for t in atoms(c)}) - seen
        if not new:
            break
        for t in new:
            seen.add(t)
            if isinstance(t, tuple):
                o, a = axioms(t, nonneg)
                cs += o
                if a:
                    alts.append(a)
    return split(cs, alts[:9])


def split(cs, alts):
    if unsat(cs):
        return True
    if not alts:
        return False
    return all(split(cs + a, alts[1:]) for a in alts[0])


def relevant(cs, goal):
    """constraints connected to the goal through shared atoms (also atoms inside atoms)"""
    def deep(c):
        s = set()
        for t in c:
            if t != 1:
                for y in walk(t):
                    if isinstance(y, tuple) and y:
                        s.add(y)
        return s
    want = deep(goal)
    if not want:
        return cs
    out, todo = [], [(c, deep(c)) for c in cs]
    ch = True
    while ch:
        ch = False
        for c, d in list(todo):
            top = {t for t in c if t != 1}
            if top & want or any(t[0] == "call" and last(t) in ("min", "max", "saturating_sub", "clamp") and any(set(term(y)) & want for y in t[2]) for t in top):
                want |= d
                out.append(c)
                todo.remove((c, d))
                ch = True
    return out
