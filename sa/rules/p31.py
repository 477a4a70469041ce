"""P31  What is hidden is neither drawn nor given input; what is shown is offered every key until one answers."""
from rules.p32 import *
from rules.p09 import is_single
from rules.p02 import SELF as DSELF

DRAW = ("render", "on_mouse", "on_mouse_with_sender", "on_event", "set_hover")


def same_child(f, c, a, b):
    """do two pointer values stand for the same child?"""
    if ptr(a) == ptr(b):
        return True
    x, y = child(a) or again(f, c, a), child(b) or again(f, c, b)
    return x is not None and x == y


def shown(f, c, recv, fs):
    """the facts say that the child takes part in layout"""
    return says(fs, "participates_in_layout", lambda v: same_child(f, c, v, recv), True)


def pinl(c, cb):
    """for functions that provide placements: their helpers and closures, not the layout itself"""
    if not w_inline(c, cb):
        return False
    if cb.kind == "closure":
        return True
    return "LayoutChild" in cb.locals[0][0]


def providers(P):
    """{body id: (problem or None)} of the methods that turn children into placements"""
    out = {}
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.self_adt is None or not b.argc:
            continue
        f = None
        if not builds(P, b, set()):
            continue
        out[b.id] = b
    return out


def builds(P, b, seen):
    """does the function, its closures or the helpers it collects children with, construct a LayoutChild?"""
    if b.id in seen:
        return False
    seen.add(b.id)
    for x in [b] + list(P.closures_rec(b)):
        for blk in x.blocks:
            if blk.get("cu"):
                continue
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith("layouts::LayoutChild"):
                    return True
        for c in x.calls():
            cb = P.bodies.get(c.callee_id)
            if cb is not None and cb.kind != "closure" and "LayoutChild" in cb.locals[0][0] and builds(P, cb, seen):
                return True
    return False


def aggs(f, adt):
    """(block, facts, aggregate) for every construction of adt on a feasible path"""
    for bb, blk in enumerate(f.b.blocks):
        if blk.get("cu") or bb not in f.outstate:
            continue
        for s in blk["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2].endswith(adt):
                yield bb, s


def check(P, R):
    R.rule("per widget type with children: every child that is drawn, hovered or given a key or mouse event is known, at that point, to take part in layout "
           "(directly, or because only such children are laid out and no earlier layout is reused); layout children carry the index, style and size of one and the same child; "
           "a key goes unchanged to each participating child in turn and the first message is the answer; messages likewise")
    pv = {}
    nb = 0
    for bid, b in providers(P).items():
        nb += 1
        pv[bid] = provider(P, R, b)
    R.floor("layouts", nb, 6, "functions that lay children out")
    n = s = 0
    for i in widget_impls(P):
        T = i["adt"]
        k = kinds(P, T)["child_count"][1]
        if k in (None, "?") or k[0] != "own":
            continue
        n += 1
        s += owner_widget(P, R, T, k[1], pv)
    R.floor("owners", n, 8, "widget types that own children")
    R.floor("sites", s, 40, "places where a child is drawn or given input")


def provider(P, R, b):
    """fresh: the placements come from the children as they are now"""
    R.fn(b)
    f = flow(P, b, pinl, key="m31")
    name = "%s.%s" % (short(b.self_adt), b.name)
    n = 0
    for bb, st in aggs(f, "layouts::LayoutChild"):
        n += 1
        v = f.read(f.outstate[bb], ("L", st[1][0]), ())
        fs = f.infacts.get(bb, frozenset())
        d = {k: proj(v, k) for k in ("index", "style", "desired_size", "node")}
        ch = child(ptr(d["node"]))
        if not R.ob(name + ":node", ch is not None and self_coll(ch[1]), "%s lays out %s, which is not seen to be a child" % (name, show(d["node"])[:80]), b.where()):
            continue
        it = ptr(d["node"])
        R.ob(name + ":shown", says(fs, "participates_in_layout", lambda x: ptr(x) == it or child(x) == ch, True),
             "%s lays out children that do not take part in layout" % name, b.where())
        R.ob(name + ":index", index_of(f, ch, d["index"]), "%s gives a child the index %s" % (name, show(d["index"])[:80]), b.where())
        for k, m in (("style", "get_style"), ("desired_size", "desired_size")):
            R.ob(name + ":" + k, d[k][0] == "call" and last(d[k]) == m and (ptr(d[k][2][0]) == it or child(d[k][2][0]) == ch),
                 "%s lays a child out with %s %s" % (name, k, show(d[k])[:80]), b.where())
    R.ob(name + ":children", n > 0, "cannot see how %s collects the children" % name, b.where())
    good = True
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            if not computed(f, x):
                good = False
    return good


def computed(f, x):
    """the value is what some layout function returned, possibly adjusted in place"""
    if x[0] == "clob":
        a = f.call_info.get(x[1])
        return a is not None
    return x[0] == "call" and any(c.rpath == x[1] and gives_placements(f.P, c) for c, a, fs in f.calls())


def index_of(f, ch, idx):
    if ch[0] == "at":
        return ch[2] == idx
    if ch[0] == "item":
        return idx[0] == "call" and idx[1] == "enum_index" and idx[2][0] == I(("call", "iter", (I(("ref", ch[1][1], ch[1][2])),), None))
    return False


def owner_widget(P, R, T, field, pv):
    s = short(T)
    n = 0
    for m in ("render", "on_mouse", "on_mouse_with_sender"):
        b = P.trait_impl_method(W, T, m)
        if b is None:
            continue
        R.fn(b)
        f = flow(P, b, inl, key="m32")
        for c, a, fs in f.calls():
            if c.trait != W or c.name not in DRAW or not a:
                continue
            ch = child(a[0]) or again(f, c, a[0])
            if ch is None or not (ch[0] in ("at", "item") and self_coll(ch[1])):
                continue
            n += 1
            ok = shown(f, c, a[0], fs) or shown_ch(f, c, ch, fs)
            if not ok and ch[0] == "at" and isinstance(ch[2], tuple):
                item = item_of(ch[2])
                src = item is not None and source(f, item, c)
                ok = bool(src) and all(fresh(P, y, pv) for y in src)
            R.ob("%s.%s:%s:shown" % (s, m, c.name), ok, "%s.%s calls %s of a child that may not take part in layout" % (s, m, c.name), c.where())
    n += offers(P, R, T, field, "on_event", 2, True)
    if P.trait_impl_method(W, T, "handle_message") is not None:
        n += offers(P, R, T, field, "handle_message", 2, False)
    return n


def shown_ch(f, c, ch, fs):
    return says(fs, "participates_in_layout", lambda v: (child(v) or again(f, c, v)) == ch, True)


def source(f, item, at):
    """ids of the functions the placement a loop is at can come from"""
    out = set()
    seen = set()
    st = [item]
    while st:
        v = st.pop()
        for y in walk(v):
            if not y or y in seen:
                continue
            seen.add(y)
            if y[0] == "call" and len(y) == 4 and isinstance(y[1], str):
                for c, a, fs in f.calls():
                    if c.rpath == y[1] and gives_placements(f.P, c):
                        out.add(c.callee_id)
            if y[0] in ("ref", "mem") and y[1][0] == "L":
                st.append(f.read(f.instate[at.bb], y[1], y[2]))
            if y[0] == "phi":
                st.extend(f.phi_in.get((y[1], y[2]), {}).values())
    return out


def fresh(P, bid, pv, seen=()):
    """the placements a function gives always come from the children as they are when it is called"""
    if bid in pv:
        return pv[bid]
    b = P.bodies.get(bid)
    if b is None or bid in seen:
        return False
    f = flow(P, b, lambda c, cb: cb.kind == "closure", key="clo")
    n = 0
    for c, a, fs in f.calls():
        if gives_placements(P, c):
            n += 1
            if not fresh(P, c.callee_id, pv, seen + (bid,)):
                return False
    ok = n > 0
    for bb, v, fs in f.ret_values():
        for y in walk(v):
            if y and y[0] in ("mem", "ref") and y[1] == DSELF and "style" not in y[2] and "scroll" not in y[2]:
                ok = False
    pv[bid] = ok
    return ok


def offers(P, R, T, field, m, argc, guard):
    """m is called on every (participating) child in turn, with the same argument, until one answers"""
    s = short(T)
    b = P.trait_impl_method(W, T, m)
    if not R.ob("%s.%s:defined" % (s, m), b is not None, "%s does not pass keys to its children" % s, ""):
        return 0
    R.fn(b)
    f = flow(P, b, w_inline, key="tree")
    d = delegate(f, m, argc)
    if d is not None and d != field:
        return 1
    key = "%s.%s" % (s, m)
    hit = [(c, a, fs) for c, a, fs in f.calls() if c.trait == W and c.name == m and child(a[0]) is not None and self_coll(child(a[0])[1])]
    if not R.ob(key + ":any", bool(hit), "%s.%s reaches no child" % (s, m), b.where()):
        return 0
    for c, a, fs in hit:
        ch = child(a[0])
        R.ob(key + ":arg", arg_same(a[1]), "%s.%s passes %s on" % (s, m, show(a[1])[:80]), c.where())
        lp = next((l for l in loops(f) if in_loop(ch, l)), None)
        part = lambda p, val: says(p.facts, "participates_in_layout", lambda v: child(v) == ch, val)
        if lp is None:
            if not R.ob(key + ":all", ch[2] == ("k", 0) and is_single(P, T, field), "%s.%s only reaches one child" % (s, m), c.where()):
                continue
            for p in paths(f) or []:
                called = c.bb in p.blocks
                R.ob(key + ":shown", not called or not guard or part(p, True), "%s.%s reaches a child that may not take part in layout" % (s, m), c.where())
                R.ob(key + ":offered", called or part(p, False), "%s.%s leaves its child out" % (s, m), c.where())
                R.ob(key + ":answer", not called or p.ret() == I(("call",) + tuple(res(f, c)[1:])) or p.ret() == res(f, c), "%s.%s does not give the child's answer" % (s, m), c.where())
            continue
        o = owner(lp) or rev_owner(lp)
        R.ob(key + ":all", o is not None and self_coll(o) and o[2] == field, "%s.%s runs over %s" % (s, m, o), c.where())
        r = res(f, c)
        for p in lp.iters():
            called = c.bb in p.blocks
            if not called:
                R.ob(key + ":offered", guard and part(p, False) and p.end == "stop", "%s.%s leaves out a child that takes part in layout" % (s, m), c.where())
                continue
            R.ob(key + ":shown", not guard or part(p, True), "%s.%s reaches a child that may not take part in layout" % (s, m), c.where())
            got = disc_of(p.facts, r)
            if p.end == "stop":
                R.ob(key + ":answer", got == "None", "%s.%s goes on after a child has answered" % (s, m), c.where())
            else:
                v = p.ret()
                if got == "None":
                    R.ob(key + ":next", False, "%s.%s stops at a child that has no answer" % (s, m), c.where())
                else:
                    R.ob(key + ":answer", got == "Some" and answer_is(v, r), "%s.%s does not give the child's answer but %s" % (s, m, show(v)[:80]), c.where())
        for p in lp.ends():
            v = p.ret()
            R.ob(key + ":none", v[0] == "agg" and v[2] == "None" or fall_through(v), "%s.%s answers %s when no child did" % (s, m, show(v)[:80]), b.where())
    return len(hit)


def fall_through(v):
    return v[0] == "call"


def rev_owner(lp):
    s = lp.src
    while s is not None and s[0] == "call" and last(s) in ("rev",):
        s = s[2][0]
    if s is not None and s[0] == "call" and s[1] == "iter" and s[2][0][0] == "ref":
        return ("coll", s[2][0][1], s[2][0][2])
    return None


def res(f, c):
    return f.call_result(c) if hasattr(f, "call_result") else next((x for x in call_vals(f, c)), None)


def call_vals(f, c):
    for st in (f.outstate.get(c.bb),):
        if st is not None and c.t[3] is not None:
            yield f.read(st, ("L", c.t[3][0]), ())


def disc_of(fs, r):
    for x in fs:
        if x[0] == "is" and x[1][0] == "disc" and x[1][1] == r:
            return x[2]
    return None


def answer_is(v, r):
    if v == r:
        return True
    return v[0] == "agg" and v[2] == "Some" and v[3][0][1] == ("f", r, "Some.0")


def arg_same(v):
    return v == ("arg", 2) or v[0] == "mem" and v[1] == ("D", ("arg", 2)) and v[2] == () or v[0] == "ref" and v[1] == ("D", ("arg", 2)) and v[2] == ()
