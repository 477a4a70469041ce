"""P05  Children are drawn clipped to their container, and every clip is undone."""
from rules.p06 import *
from rules import p32
from rules.p32 import gives_placements

CW = "canvas::Canvas"


def canvas_call(P, c, nm):
    b = P.bodies.get(c.callee_id)
    return c.name == nm and b is not None and (b.self_adt or "").endswith(CW)


def effects(P, R):
    """net number of clips each function leaves behind, and how far it reaches below its start: {id: (net, low)}"""
    eff, bad = {}, {}
    todo = [b for b in P.fns(crate="textual") if not (b.self_adt or "").endswith(CW)]
    callers = {}
    for b in todo:
        for c in b.calls():
            if c.callee_id:
                callers.setdefault(c.callee_id, set()).add(b.id)
    work = {b.id for b in todo if any(canvas_call(P, c, "push_clip") or canvas_call(P, c, "pop_clip") for c in b.calls())}
    seen = set(work)
    n = 0
    while work and n < 500:
        n += 1
        i = work.pop()
        b = P.bodies[i]
        by = {c.bb: c for c in b.calls()}
        depth, low, bal = {0: 0}, 0, None
        st, err = [0], None
        while st:
            bb = st.pop()
            d = depth[bb]
            c = by.get(bb)
            if c is not None:
                if canvas_call(P, c, "push_clip"):
                    d += 1
                elif canvas_call(P, c, "pop_clip"):
                    d -= 1
                    low = min(low, d)
                elif c.callee_id in eff:
                    low = min(low, d + eff[c.callee_id][1])
                    d += eff[c.callee_id][0]
            t = b.term(bb)
            if t[0] == "return":
                if bal is not None and bal != d:
                    err = "leaves %d clips on one path and %d on another" % (bal, d)
                bal = d
            for s in b.succs(bb):
                if b.term(s)[0] == "unreachable":
                    continue
                if s in depth:
                    if depth[s] != d:
                        err = err or "sets clips on one path that it does not set on another"
                else:
                    depth[s] = d
                    st.append(s)
        e = (bal or 0, low, depth)
        bad[i] = err
        if i not in eff or eff[i][:2] != e[:2]:
            eff[i] = e
            if e[0] or e[1]:
                for k in callers.get(i, ()):
                    work.add(k)
                    seen.add(k)
        eff[i] = e
    return eff, bad, callers


def check(P, R):
    R.rule("a count of pushed and popped clips over every function: the same on all ways to a point, never below zero, zero on return of every drawing entry point; every child drawn from a layout "
           "is drawn at depth one or more; the clip set is, by linear arithmetic, inside the region left by border and padding; a child is skipped only if its region and the clip have no point in common")
    g = geometry(P, R)
    eff, bad, callers = effects(P, R)
    R.floor("clippers", len(eff), 4, "functions that set clips")
    for i, (net, low, depth) in eff.items():
        b = P.bodies[i]
        R.fn(b)
        R.ob("%s:same" % b.path, bad[i] is None, "%s %s" % (b.path, bad[i]), b.where())
        entry = b.of_trait or i not in callers
        if entry:
            R.ob("%s:balance" % b.path, net == 0 and low >= 0, "%s leaves %d clips set, going %d below where it started" % (b.path, net, -low), b.where())
    n = 0
    for b in sorted(P.fns(crate="textual"), key=lambda b: b.path):
        if b.name != "render" or b.of_trait != W or b.kind == "closure":
            continue
        f = flow(P, b, inner(P), key="p05")
        cs = [(c, a, fs) for c, a, fs in f.calls() if c.trait == W and c.name == "render" and child(a[0]) is not None and child(a[0])[0] in ("at", "item", "child")]
        laid = [x for x in cs if "placement" in str(x[1]).lower() or "child_index" in str(x[1])]
        if not laid:
            continue
        n += 1
        R.fn(b)
        one(P, R, b, f, laid)
    R.floor("containers", n, 5, "containers that draw children from a layout")


def inner(P):
    def gg(c, cb):
        if cb.kind != "closure" and (cb.self_adt or "").endswith(CW):
            return False
        if cb.kind != "closure" and (cb.self_adt or "").endswith("canvas::Region"):
            return True
        if cb.name in ("inner_size", "border_left", "border_top", "padding_left", "padding_top"):
            return False
        if not w_inline(c, cb):
            return False
        t = cb.locals[0][0]
        if gives_placements(P, c) and "Layout" not in t:
            return False
        if cb.kind != "closure" and t == "()" and not any("Canvas" in cb.locals[i][0] for i in range(1, cb.argc + 1)):
            return False
        if cb.kind != "closure" and t == "()" and not any(c2.trait == W or c2.name in ("push_clip", "pop_clip") for c2 in cb.calls()):
            return False
        return cb.kind == "closure" or "Region" in t or "Layout" in t or "dyn" in t or t == "()" or t == "i32" or t.startswith("(i32")
    return gg


def one(P, R, b, f, laid):
    nm = b.self_adt.split("::")[-1]
    depth = {}
    st = [(0, 0)]
    by = {c.bb: c for c in f.b.calls()}
    while st:
        bb, d = st.pop()
        if bb in depth or bb not in f.instate:
            continue
        depth[bb] = d
        c = by.get(bb)
        if c is not None and canvas_call(P, c, "push_clip"):
            d += 1
        if c is not None and canvas_call(P, c, "pop_clip"):
            d -= 1
        for s in f.b.succs(bb):
            if (bb, s) in f.edgefacts:
                st.append((s, d))
    pushes = [(c, a, fs) for c, a, fs in f.calls() if canvas_call(P, c, "push_clip")]
    for c, a, fs in laid:
        R.ob("%s:clipped" % nm, depth.get(c.bb, 0) >= 1, "%s draws a child without a clip" % nm, c.where())
    if not R.ob("%s:push" % nm, len(pushes) >= 1, "%s sets no clip for its children" % nm, b.where()):
        return
    RG = {n: I(("f", ("arg", 3), n)) for n in POS}
    RG2 = {n: I(("mem", ("L", 3), (n,))) for n in POS}
    regs = []
    for c, a, fs in pushes:
        v = a[1]
        flds = [fld(v, n) for n in POS]
        lv = joint_leaves(f, flds, slim(fs))
        R.ob("%s:clip" % nm, bool(lv), "the clip of %s cannot be followed" % nm, c.where())
        for vals, lf in lv:
            r = dict(zip(POS, vals))
            why = within_inner(lf, r)
            R.ob("%s:inside" % nm, why is None, "%s: the clip for children goes beyond the area inside border and padding (%s): %s" % (nm, why, ", ".join(show(r[n])[:80] for n in POS)), c.where())
        regs.append({n: x for n, x in zip(POS, flds)})
    # children left out
    R0 = regs[0]
    for lp in loops(f):
        inl = [x for x in laid if x[0].bb in lp.body]
        if not inl:
            continue
        for p in lp.iters():
            if any(c.bb == x[0].bb for c, a in p.calls() for x in inl):
                R.ob("%s:next" % nm, p.end == "stop", "%s stops after a child" % nm, b.where())
                continue
            gone = any(x[0] == "is" and (x[1][0] == "call" and last(x[1]) == "participates_in_layout" and x[2] is False or x[1][0] == "disc" and x[2] == "None" and (last(x[1][1]) or "").startswith("get")) for x in p.facts)
            if gone:
                continue
            # every draw call's region has no point in common with the clip
            a = inl[0][1]
            reg = inl[0][1][2]
            r = {n: fld(f.at(inl[0][0].bb, reg) if reg[0] == "ref" else reg, n) for n in POS}
            pt = {"x": I(("arg", 90)), "y": I(("arg", 91))}

            def within(q):
                out = []
                for z, lo, ex in (("x", "x", "width"), ("y", "y", "height")):
                    out += [ge(pt[z], q[lo]), gt(I(("bin", "Add", q[lo], q[ex])), pt[z])]
                return out
            ok = False
            rl = [({n: v for n, v in zip(POS, vals)}, lf) for vals, lf in joint_leaves(f, [I(p.val(r[n])) for n in POS], frozenset())]
            ok = bool(rl) and all(any(contradicts(z, p.facts | lf) for z in lf) or implied(p.facts | lf, {1: -1}, None, within(R0) + within(q)) for q, lf in rl)
            R.ob("%s:cull" % nm, ok, "%s leaves out a child that can be visible, when %s" % (nm, facts_of(p)), b.where())


def fld(v, n):
    v = I(v)
    if v[0] == "agg":
        return dict(v[3]).get(n, I(("f", v, n)))
    if v[0] == "mem":
        return I(("mem", v[1], v[2] + (n,)))
    return I(("f", v, n))


def slim(fs):
    return frozenset()


def within_inner(fs, r):
    """the region lies inside the area left by border and padding: its corner is the region's plus border and padding, its size at most what inner_size leaves"""
    for n, names in (("x", ("border_left", "padding_left")), ("y", ("border_top", "padding_top"))):
        t = ineq.term(r[n])
        mine = [a for a in t if a != 1 and is_arg(a, n)]
        rest = {a: c for a, c in t.items() if a not in mine}
        ok = len(mine) == 1 and t[mine[0]] == 1 and rest.get(1, 0) >= 0 and all(a == 1 or last(a) in names and c == 1 for a, c in rest.items()) and {last(a) for a in rest if a != 1} == set(names)
        if not ok:
            return n
    for n, i in (("width", "0"), ("height", "1")):
        at = {y for y in walk(r[n]) if y and y[0] == "f" and y[2] == i and last(y[1]) == "inner_size"}
        if len(at) != 1:
            # nothing is laid out in an empty region
            return n
        lim = at.pop()
        if not implied(fs, ge(lim, r[n]), lambda t: t == lim or size_like(t)):
            return n
    return None


def size_like(t):
    return "scrollbar" in str(t) or "size" in str(t)


def is_arg(a, n):
    return a == ("f", ("arg", 3), n) or a[0] == "mem" and a[2][-1:] == (n,) and a[1] in (("L", 3), ("D", ("arg", 3))) or a == ("mem", ("arg", 3), (n,))
