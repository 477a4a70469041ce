"""P32  The mouse acts on the widget that is drawn under the pointer."""
from rules.lin import *
from rules.p09 import kinds

SELF = I(("arg", 1))
MM = ("on_mouse", "on_mouse_with_sender")
REG = "canvas::Region"


def gives_placements(P, c):
    b = P.bodies.get(c.callee_id)
    if b is None:
        return False
    t = b.locals[0][0]
    if "WidgetPlacement" in t:
        return True
    a = P.adts.get(re.sub(r"<.*$", "", t))
    return a is not None and any("WidgetPlacement" in str(x[1]) for v in a["variants"] for x in v[1])


def inl(c, cb):
    if not w_inline(c, cb) or cb.kind != "closure" and c.name == "contains_point":
        return False
    t = cb.locals[0][0]
    if "Placement" in t or "Layout" in t:
        return False
    return cb.kind == "closure" or "Region" in t or "dyn" in t and "Widget<" in t or any("MouseEvent" in cb.locals[i][0] for i in range(1, cb.argc + 1))


def item_of(idx):
    """the placement an index comes from: its value without the final .child_index"""
    if idx[0] == "mem" and idx[2] and idx[2][-1] == "child_index":
        return I(("mem", idx[1], idx[2][:-1]))
    if idx[0] == "f" and idx[2] == "child_index":
        return idx[1]
    return None


def place(item, v):
    """('P', field) when v is item.region.field"""
    if v[0] == "mem" and item[0] == "mem" and v[1] == item[1] and v[2][:len(item[2])] == item[2]:
        return v[2][len(item[2]):]
    p = ()
    while v[0] == "f":
        p = (v[2],) + p
        v = v[1]
        if v == item:
            return p
    return None


def subst(item):
    def go(v):
        p = place(item, v)
        if p is not None and p:
            return ("P",) + tuple(p)
        return None
    return go


def quad(f, reg, item, facts, full=False):
    """the forms of (x, y, width, height) the region can have"""
    out = set()
    for lv, lf in joint_leaves(f, [proj(reg, c) for c in ("x", "y", "width", "height")], slim(facts), keep=phis_in(item) if item is not None else ()):
        s = subst(item) if item is not None else None
        out.add(tuple(lin(x, s) for x in lv))
    return out


def sites(f, names):
    for c, a, fs in f.calls():
        if c.trait == W and c.name in names and len(a) >= 3:
            ch = child(a[0]) or again(f, c, a[0])
            yield c, a, fs, ch


def again(f, c, v):
    """a child re-borrowed after something else was done with it"""
    for (x,), lf in joint_leaves(f, [v], f.infacts.get(c.bb, frozenset())):
        ch = child(x)
        if ch is not None:
            return ch
        if x[0] == "clob" and x[1] in f.call_info and x[2] == 0:
            ch = child(f.call_info[x[1]][0])
            if ch is not None:
                return ch
    return None


def origins(P, f):
    out = set()
    for c, a, fs in f.calls():
        if gives_placements(P, c) and a and ptr(a[0]) == SELF:
            for x in a[1:]:
                if is_region(f, c, x, a):
                    for lv, lf in joint_leaves(f, [proj(x, k) for k in ("x", "y", "width", "height")], slim(fs), deep=True):
                        if empty(lf):
                            continue
                        out.add(tuple(lin(z) for z in lv))
    return out


def slim(fs):
    """facts that can rule out a merge edge: comparisons with constants"""
    return frozenset(x for x in fs if x[0] in ("is", "not") and x[1][0] == "bin" and not phis_in(x))


def empty(fs):
    """the region given has no area"""
    for x in fs:
        if x[0] == "is" and x[1][0] == "bin" and isinstance(x[2], bool):
            op, p, q = x[1][1], x[1][2], x[1][3]
            if op in ("Gt", "Ge"):
                op, p, q = {"Gt": "Lt", "Ge": "Le"}[op], q, p
            dim = lambda v: v[0] == "f" and v[2] in ("width", "height") and v[1] == ("arg", 3)
            if op == "Le" and dim(p) and q == ("k", 0) and x[2] or op == "Lt" and p == ("k", 0) and dim(q) and not x[2] or op == "Lt" and dim(p) and q == ("k", 1) and x[2]:
                return True
    return False


def is_region(f, c, x, a):
    cb = f.P.bodies[c.callee_id]
    return "Region" in cb.locals[a.index(x) + 1][0]


def has_clob(q):
    return "clob" in str(q)


def check(P, R):
    R.rule("per widget type that draws children: the region handed to a child with a mouse event, and tested for the pointer, is the same function of the child's placement and "
           "the scroll position as the region the child is drawn in, placements are laid out from the same origin, and child, region and hit test belong to one placement; "
           "the event is passed on unchanged and the child's answer is returned")
    inside(P, R)
    n = s = 0
    for i in widget_impls(P):
        T = i["adt"]
        k = kinds(P, T)["child_count"][1]
        if k in (None, "?") or k[0] != "own":
            continue
        rb = P.trait_impl_method(W, T, "render")
        if rb is None:
            continue
        n += 1
        s += widget(P, R, T, rb)
    R.floor("widgets", n, 8, "widget types that draw children")
    R.floor("dispatches", s, 25, "places where a mouse event is passed to a child")


def inside(P, R):
    """the hit test itself: left and top edge in, right and bottom edge out"""
    bs = [b for b in P.fns(crate="textual") if b.name == "contains_point" and b.self_adt and b.self_adt.endswith(REG)]
    R.floor("hit_test", len(bs), 1, "Region::contains_point")
    for b in bs:
        R.fn(b)
        f = flow(P, b, w_inline, key="tree")
        fld = lambda n: I(("mem", ("D", ("arg", 1)), (n,)))
        want = set()
        for i, (lo, sz) in enumerate((("x", "width"), ("y", "height"))):
            pt = I(("arg", 2 + i))
            if "&" not in b.locals[1][0]:
                fld = lambda n: I(("f", ("arg", 1), n))
            # pt - lo >= 0 ; lo + size - pt > 0  i.e. lo + size - pt - 1 >= 0
            want.add(frozenset([(canon(pt), 1), (canon(fld(lo)), -1)]))
            want.add(frozenset([(canon(fld(lo)), 1), (canon(fld(sz)), 1), (canon(pt), -1), (("one",), -1)]))
        for p in paths(f) or []:
            for (v,), lf in joint_leaves(f, [p.ret()], p.facts):
                got = {ge(x) for x in lf} - {None}
                neg = {ge(x, True) for x in lf} - {None}
                if v == ("k", True):
                    R.ob("contains_point:true", got == want, "Region::contains_point holds although %s is not known" % "; ".join(show_lin(x) + " >= 0" for x in want - got)[:200], b.where())
                elif v == ("k", False):
                    R.ob("contains_point:false", bool(neg & want), "Region::contains_point fails although no bound is exceeded: %s" % "; ".join(show_facts(lf))[:200], b.where())
                else:
                    t, e = {ge(I(("is", v, True)))}, ge(I(("is", v, False)), True)
                    R.ob("contains_point:last", got | t == want and e in want, "Region::contains_point depends on %s" % show(v)[:120], b.where())


def plain(v):
    """a sum that saturates at the largest coordinate is as good as the sum"""
    if v[0] == "call" and last(v) in ("saturating_add", "wrapping_add") and len(v[2]) == 2:
        return I(("bin", "Add", plain(v[2][0]), plain(v[2][1])))
    return v


def ge(x, neg=False):
    """fact as a linear form >= 0 (integers), or its negation"""
    if x[0] not in ("is", "not") or x[1][0] != "bin" or not isinstance(x[2], bool):
        return None
    op, p, q = x[1][1], plain(x[1][2]), plain(x[1][3])
    val = x[2] if x[0] == "is" else not x[2]
    if neg:
        val = not val
    if op in ("Gt", "Le"):
        # p > q  <=>  p - q - 1 >= 0 ; p <= q <=> q - p >= 0
        pos = val if op == "Gt" else not val
        a = I(("bin", "Sub", I(("bin", "Sub", p, q)), I(("k", 1)))) if pos else I(("bin", "Sub", q, p))
    elif op in ("Ge", "Lt"):
        pos = val if op == "Ge" else not val
        a = I(("bin", "Sub", p, q)) if pos else I(("bin", "Sub", I(("bin", "Sub", q, p)), I(("k", 1))))
    else:
        return None
    return lin(a)


def widget(P, R, T, rb):
    s = short(T)
    R.fn(rb)
    rf = flow(P, rb, inl, key="m32")
    drawn, base, order = set(), origins(P, rf), set()
    for c, a, fs, ch in sites(rf, ("render",)):
        if ch is None or not (ch[0] in ("at", "item") and self_coll(ch[1])):
            continue
        item = item_of(ch[2]) if ch[0] == "at" and isinstance(ch[2], tuple) else None
        drawn |= quad(rf, a[2], item, fs)
        order.add(direction(a[0]))
    if not R.ob(s + ":draws", bool(drawn), "cannot see where %s draws its children" % s, rb.where()):
        return 0
    n = 0
    for m in MM:
        b = P.trait_impl_method(W, T, m)
        if not R.ob("%s.%s:defined" % (s, m), b is not None, "%s does not pass mouse events to its children by %s" % (s, m), rb.where()):
            continue
        R.fn(b)
        f = flow(P, b, inl, key="m32")
        o = {x for x in origins(P, f)}
        if base:
            for x in o - base:
                R.ob("%s.%s:origin" % (s, m), False, "%s.%s lays children out in (%s), but they are drawn in %s" % (
                    s, m, ", ".join(map(show_lin, x)), " or ".join("(%s)" % ", ".join(map(show_lin, y)) for y in list(base)[:2])), b.where())
            R.ob("%s.%s:origins" % (s, m), bool(o), "%s.%s does not lay out its children" % (s, m), b.where())
        hit = 0
        for c, a, fs, ch in sites(f, MM):
            key = "%s.%s" % (s, m)
            if ch is None:
                if ptr(a[0])[0] in ("mem", "ref") and ptr(a[0])[1] == ("D", SELF):
                    continue
                R.ob(key + ":child", False, "a mouse event is passed to %s, which is not seen to be a child" % show(a[0])[:80], c.where())
                continue
            hit += 1
            R.ob(key + ":event", event(a[1]), "the event passed on is %s" % show(a[1])[:80], c.where())
            item = item_of(ch[2]) if ch[0] == "at" and isinstance(ch[2], tuple) else None
            q = quad(f, a[2], item, fs)
            bad = {x for x in q if not has_clob(x)} - drawn
            R.ob(key + ":region", not bad, "a child gets mouse events for %s, but is drawn at %s" % (
                "; ".join("(%s)" % ", ".join(map(show_lin, x)) for x in list(bad)[:1]), "; ".join("(%s)" % ", ".join(map(show_lin, x)) for x in list(drawn)[:2])), c.where())
            if item is not None:
                R.ob(key + ":hit", tested(f, fs, q, item), "a mouse event is passed to a child without testing that the pointer is in its region", c.where())
            dr = direction(a[0])
            R.ob(key + ":top", dr is None or dr not in order, "where children overlap, the event goes to the one drawn first, below the others", c.where())
            R.ob(key + ":answer", answered(f, c), "the child's answer is not what %s returns" % m, c.where())
        R.ob("%s.%s:any" % (s, m), hit > 0, "%s.%s never passes a mouse event on" % (s, m), b.where())
        n += hit
    # other hit tests against placements
    for b in P.fns(crate="textual"):
        if b.self_adt != T or b.kind == "closure" or b.path.split("::")[-1] in MM + ("render",):
            continue
        if not any(c.name == "contains_point" for x in [b] + list(P.closures_rec(b)) for c in x.calls()):
            continue
        f = flow(P, b, inl, key="m32")
        for c, a, fs in f.calls():
            if c.name != "contains_point":
                continue
            reg = f.at(c.bb, a[0])
            it = set(items(proj(reg, "y")))
            for item in it:
                q = {x for x in quad(f, reg, item, fs) if not has_clob(x)}
                R.ob("%s.%s:hit" % (s, b.path.split("::")[-1]), q <= drawn, "the pointer is tested against (%s), but the child is drawn at %s" % (
                    ", ".join(map(show_lin, next(iter(q - drawn), ((),)))), "; ".join("(%s)" % ", ".join(map(show_lin, x)) for x in list(drawn)[:2])), c.where())
    return n


def direction(v):
    """is the child obtained front to back or back to front?"""
    for y in walk(v):
        if y and y[0] == "call" and last(y) in ("next", "next_back") and len(y) == 4:
            k = last(y)
            for z in walk(y[2]):
                if z and z[0] == "call" and last(z) == "rev":
                    k = {"next": "next_back", "next_back": "next"}[k]
            return k
    return None


def items(v):
    for x in walk(v):
        if not x:
            continue
        if x[0] == "mem" and x[2][-2:] == ("region", "y"):
            yield I(("mem", x[1], x[2][:-2]))
        if x[0] == "f" and x[2] == "y" and x[1][0] == "f" and x[1][2] == "region":
            yield x[1][1]


def event(v):
    return v == ("arg", 2) or v[0] == "mem" and v[1] == ("D", ("arg", 2)) and v[2] == ()


def tested(f, fs, q, item):
    """a fact says the pointer is inside the region"""
    for x in fs:
        if x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "contains_point":
            a = x[1][2]
            r = a[0][1] if a[0][0] == "refv" else a[0]
            if r[0] == "ref":
                r = I(("mem", r[1], r[2]))
            if quad(f, r, item, fs) != q:
                continue
            if coord(a[1], "column") and coord(a[2], "row"):
                return True
    return False


def coord(v, n):
    return any(y and (y[0] == "f" and y[1] == ("arg", 2) and y[2] == n or y[0] == "mem" and y[1] == ("D", ("arg", 2)) and y[2] == (n,)) for y in walk(v))


def answered(f, c):
    """whenever the child's answer is known to be a message, that message is returned"""
    call = lambda y: y and y[0] == "call" and len(y) == 4 and y[3] == c.bb and last(y) in MM
    ok = False
    for p in paths(f, c.bb) or []:
        if p.end != "return":
            continue
        x = p.ret()
        mine = any(call(y) for y in walk(x))
        some = any(y[0] == "is" and y[1][0] == "disc" and y[2] == "Some" and call(y[1][1]) for y in p.facts)
        if some and not mine:
            return False
        ok = ok or mine
    return ok
