"""Which parts of what a function's pointer arguments point to it may write (transitively).
Flow-insensitive; used for calls that are not inlined."""
from core import Call
from flow import comp

STD_ALIAS = {"deref", "deref_mut", "as_mut", "as_ref", "borrow_mut", "borrow", "index_mut", "index", "iter_mut", "iter", "into_iter",
             "get_mut", "get", "last_mut", "first_mut", "unwrap", "expect", "next", "as_deref_mut", "as_mut_slice", "get_or_insert_with"}


def _rel(raw, alias):
    """[(arg, comps)] paths (below a pointer argument) denoted by a place that goes through a deref"""
    base = raw[0]
    proj = raw[1]
    paths = set(alias.get(base, ()))
    out = set()
    seen_deref = False
    comps = []
    pv = None
    for e in proj:
        if e == "*":
            if seen_deref:
                # second-level pointee: attribute to the field holding the pointer
                pass
            seen_deref = True
            pv = None
        elif e[0] == "f":
            if seen_deref:
                comps.append(comp(e, pv))
            pv = None
        elif e[0] == "v":
            pv = e[2]
        else:
            if seen_deref:
                comps.append(None)
    if not seen_deref:
        return set(), False
    cs = []
    for c in comps:
        if c is None:
            break
        cs.append(c)
    for a, p in paths:
        out.add((a, (p + tuple(cs))[:4]))
    return out, True


def summary(P, body, _stack=()):
    memo = P.__dict__.setdefault("_mods", {})
    if body.id in memo:
        return memo[body.id]
    if body.id in _stack or len(_stack) > 30:
        return {i: {()} for i in range(1, body.argc + 1)}
    stack = _stack + (body.id,)
    alias = {i: {(i, ())} for i in range(1, body.argc + 1)}
    recursive = False
    changed = True
    calls = list(body.calls())
    while changed:
        changed = False

        def add(l, s):
            nonlocal changed
            cur = alias.setdefault(l, set())
            if not s <= cur:
                cur |= s
                changed = True
        for blk in body.blocks:
            if blk.get("cu"):
                continue
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                dst, rv = s[1], s[2]
                src = set()
                if rv[0] in ("ref", "rawptr"):
                    pl = rv[2] if rv[0] == "ref" else rv[1]
                    r, d = _rel(pl, alias)
                    src |= r
                else:
                    for op in operands(rv):
                        if op[0] != "k":
                            r, d = _rel(op[1], alias)
                            src |= r if d else set(alias.get(op[1][0], ()))
                if src:
                    add(dst[0], src)
        for c in calls:
            if c.t[3] is None:
                continue
            std = c.name in STD_ALIAS and not (c.callee_id in P.bodies if c.callee_id else False) and not c.is_dyn
            if std:
                s = set()
                for a in c.args:
                    if a[0] != "k":
                        s |= alias.get(a[1][0], set()) if not _rel(a[1], alias)[1] else _rel(a[1], alias)[0]
                if s:
                    add(c.t[3][0], s)
    mods = {i: set() for i in range(1, body.argc + 1)}

    def note(paths):
        for a, p in paths:
            mods[a].add(p)
    for blk in body.blocks:
        if blk.get("cu"):
            continue
        for s in blk["s"]:
            if s[0] == "=":
                r, d = _rel(s[1], alias)
                if d:
                    note(r)
    for c in calls:
        if c.t[3] is not None:
            r, d = _rel(c.t[3], alias)
            if d:
                note(r)
        callee = P.bodies.get(c.callee_id) if c.callee_id else None
        sub = summary(P, callee, stack) if callee is not None and not c.is_dyn else None
        for i, a in enumerate(c.args):
            if a[0] == "k":
                continue
            ty = body.local_ty(a[1][0]) if not a[1][1] else ""
            paths = _rel(a[1], alias)[0] if _rel(a[1], alias)[1] else alias.get(a[1][0], set())
            if not paths:
                continue
            if sub is not None:
                for p in sub.get(i + 1, ()):
                    note({(x, (q + p)[:4]) for x, q in paths})
            else:
                if ty.startswith("&") and not ty.startswith("&mut") and " mut " not in ty[:14]:
                    continue
                if not ty.startswith("&") and "&mut" not in ty and "closure" not in ty and "IterMut" not in ty:
                    continue
                if c.name in STD_ALIAS:
                    continue
                note(paths)
    if not _stack or True:
        memo[body.id] = mods
    return mods


def operands(rv):
    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
                yield x
            else:
                for y in x:
                    yield from go(y)
    yield from go(rv)
