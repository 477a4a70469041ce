"""P04  Restyling reaches every visible widget that needs it, and what lies below it, with the right ancestors."""
from rules.style import *


def check(P, R):
    R.rule("in the recursive restyling pass: only an invisible widget ends the walk; a widget that is dirty, or whose parent was restyled, "
           "gets a style computed from its own selector metadata, the ancestor stack, the active stylesheet and theme, then is marked clean and not "
           "before; children are always visited, told to restyle whenever their parent was, under an ancestor stack with the widget pushed at the "
           "front and popped afterwards")
    rs = resolvers(P)
    rec = []
    for b in rs:
        f = sflow(P, b)
        if any(c.name == "for_each_child" for c, a, fs in f.calls()):
            rec.append(b)
    R.floor("resolver", len(rec), 1, "recursive restyling pass")
    for b in rec:
        one(P, R, b, {x.id for x in rec})
    tops(P, R, rec)


def one(P, R, b, ids):
    R.fn(b)
    f = sflow(P, b)
    W1 = ("arg", argi(b, lambda t: "Widget" in t))
    SS = ("arg", argi(b, lambda t: ty_tail(t) == "StyleSheet"))
    TH = ("arg", argi(b, lambda t: ty_tail(t) == "Theme"))
    AN = ("arg", argi(b, lambda t: "VecDeque" in t or "Vec<" in t))
    PD = ("arg", argi(b, lambda t: t == "bool"))
    by = {}
    for c, a, fs in f.calls():
        by.setdefault(c.name, []).append((c, a, fs))
    each = [x for x in by.get("for_each_child", []) if x[1][0] == W1]
    sets = [x for x in by.get("set_style", []) if x[1][0] == W1]
    cleans = [x for x in by.get("mark_clean", []) if x[1][0] == W1]
    invis = lambda fs: knows(fs, "is_visible", W1, False)
    w = b.where()
    R.ob("visit:children", avoid(f, {c.bb for c, _, _ in each}, invis) is None, "a visible widget's children are not always visited", w)
    pfalse = I(("is", PD, False))
    clean = lambda fs: invis(fs) or knows(fs, "is_dirty", W1, False) and pfalse in fs
    R.ob("restyle:all", avoid(f, {c.bb for c, _, _ in sets}, clean) is None, "a dirty widget, or one whose parent was restyled, is not always restyled", w)
    R.ob("restyle:clean", avoid(f, {c.bb for c, _, _ in cleans}, clean) is None, "a restyled widget is not marked clean", w)
    dom = f.b.dominators()
    for c, a, fs in cleans:
        R.ob("clean:after", any(s.bb in dom.get(c.bb, ()) for s, _, _ in sets), "a widget is marked clean without having been restyled", c.where())
    for c, a, fs in sets:
        ok, why = False, show(a[1])[:200]
        src = [x for x in walk(a[1]) if x and x[0] == "call" and x[1].split("::")[-1] == "compute_style"]
        fn = {cc.bb for cc, aa, ff in f.calls() if cc.callee_id and P.bodies.get(cc.callee_id) is not None and ty_tail(P.bodies[cc.callee_id].locals[0][0]) == "ComputedStyle"
              and any(ty_tail(P.bodies[cc.callee_id].locals[i][0]) == "StyleSheet" for i in range(1, P.bodies[cc.callee_id].argc + 1))}
        R.ob("style:computed", any(x in dom.get(c.bb, ()) for x in fn), "the style set is not computed by the cascade: %s" % why, c.where())
        for cc, aa, ff in f.calls():
            if cc.bb not in fn:
                continue
            cal = P.bodies[cc.callee_id]
            for i in range(1, cal.argc + 1):
                t = ty_tail(cal.locals[i][0])
                x = aa[i - 1]
                if t == "StyleSheet":
                    R.ob("style:sheet", x == SS, "the style is computed from %s instead of the active stylesheet" % show(x), cc.where())
                elif t == "Theme":
                    R.ob("style:theme", x == TH, "the style is computed with %s instead of the active theme" % show(x), cc.where())
                elif "[" in cal.locals[i][0]:
                    R.ob("style:ancestors", any(y == AN for y in walk(x)), "the style is computed with ancestors %s" % show(x)[:100], cc.where())
                elif t == "WidgetMeta":
                    ok = any(y and y[0] == "call" and y[1].split("::")[-1] == "get_meta" and y[2][0] == W1 for y in walk(f.call_snap(cc.bb, i - 1)))
                    R.ob("style:meta", ok, "the style is computed for %s instead of the widget's own metadata" % show(x)[:100], cc.where())
            base = a[1]
            R.ob("style:used", any(y and y[0] == "call" and y[1] == (cal.path) for y in walk(base)), "the computed style is not what the widget receives: %s" % why, c.where())
    # ancestor stack
    push = [x for x in by.get("push_front", []) if x[1][0] == AN]
    pops = [x for x in by.get("pop_front", []) if x[1][0] == AN]
    other = [n for n in ("push_back", "push", "pop_back", "pop", "insert", "clear", "truncate", "remove") for x in by.get(n, []) if x[1] and x[1][0] == AN]
    R.ob("stack:order", not other and len(push) >= 1, "the ancestor stack is not kept leaf first: %s" % other, w)
    for c, a, fs in push:
        ok = any(y and y[0] == "call" and y[1].split("::")[-1] == "get_meta" and y[2][0] == W1 for y in walk(a[1]))
        R.ob("stack:meta", ok, "the ancestor pushed is %s, not the widget" % show(a[1])[:100], c.where())
    for c, a, fs in each:
        R.ob("stack:push", sum(1 for p, _, _ in push if p.bb in dom.get(c.bb, ())) == 1, "children are visited without their parent on the ancestor stack", c.where())
        # every path from here to return pops exactly once
        lo, hi = count_paths(f, c.bb, {p.bb for p, _, _ in pops})
        R.ob("stack:pop", (lo, hi) == (1, 1), "the ancestor stack is popped between %s and %s times after the children" % (lo, hi), c.where())
        early = [p for p, _, _ in pops if p.bb in dom.get(c.bb, ())]
        R.ob("stack:early", not early, "the ancestor stack is popped before the children are visited", c.where())
        # what children get
        v = f.read(f.instate_at_call(c.bb), *f.deref(a[1])) if a[1][0] == "ref" else a[1]
        clo = next((x for x in walk(v) if x and x[0] == "agg" and str(x[1]).startswith("closure:")), None)
        if not R.ob("recurse:closure", clo is not None, "cannot see what is done with each child", c.where()):
            continue
        calls, cb, g = capture_args(P, f, c.bb, clo, ids)
        R.fn(cb)
        R.ob("recurse:call", avoid(g, {cc.bb for _, _, cc in calls}, lambda fs: False) is None and calls, "some children are skipped", c.where())
        for args, fs, cc in calls:
            cal = P.bodies[cc.callee_id]
            for i in range(1, cal.argc + 1):
                x, d = args[i - 1]
                t = cal.locals[i][0]
                if ty_tail(t) == "StyleSheet":
                    R.ob("recurse:sheet", same(f, c.bb, x, SS), "children are restyled with another stylesheet", c.where())
                elif ty_tail(t) == "Theme":
                    R.ob("recurse:theme", same(f, c.bb, x, TH), "children are restyled with another theme", c.where())
                elif "VecDeque" in t or "Vec<" in t:
                    R.ob("recurse:stack", same(f, c.bb, x, AN), "children are restyled with another ancestor stack", c.where())
                elif t == "bool":
                    if x[0] == "ref":
                        x = f.read(f.instate_at_call(c.bb), x[1], x[2])
                    for (y,), lf in joint_leaves(f, [x], f.infacts[c.bb]):
                        dirty_t = knows(lf, "is_dirty", W1, True)
                        dirty_f = knows(lf, "is_dirty", W1, False)
                        isd = y[0] == "call" and y[1].split("::")[-1] == "is_dirty" and y[3] is None
                        ok = y == ("k", True) or y == PD and dirty_f or isd and pfalse in lf or \
                            y == ("k", False) and dirty_f and pfalse in lf or y[0] == "bin" and y[1] == "BitOr" and PD in y[2:]
                        R.ob("recurse:dirty", ok, "children of a restyled widget are told %s" % show(y), c.where())


def same(f, bb, x, want):
    if x == want:
        return True
    if x[0] == "ref":
        if x[1] == ("D", want):
            return True
        return f.read(f.instate_at_call(bb), x[1], x[2]) == want
    return False


def count_paths(f, start, blocks):
    """min and max number of `blocks` passed between start and any return (loops give inf)"""
    lo, hi = {}, {}
    import functools
    memo = {}

    def go(b, stack):
        if b in memo:
            return memo[b]
        if b in stack:
            return None
        if f.b.term(b)[0] == "return":
            return (0, 0)
        r = None
        for s in f.b.succs(b):
            if (b, s) not in f.edgefacts:
                continue
            x = go(s, stack | {b})
            if x is None:
                continue
            k = 1 if s in blocks else 0
            x = (x[0] + k, x[1] + k)
            r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]))
        memo[b] = r
        return r
    return go(start, frozenset()) or (0, 0)


def tops(P, R, rec):
    ids = {b.id for b in rec}
    n = 0
    for b in P.fns(crate="textual"):
        if b.id in ids or b.kind == "closure" and any(b.id.startswith(x) for x in ids):
            continue
        cs = [c for c in b.calls() if c.callee_id in ids]
        if not cs:
            continue
        if any("StyleSheet" in b.locals[i][0] for i in range(1, b.argc + 1)) and not b.coroutine and b.kind != "closure":
            # the unconditional form: everything is restyled
            f = sflow2(P, b, ids)
            for c, a, fs in f.calls():
                if c.callee_id in ids:
                    n += 1
                    R.fn(b)
                    cal = P.bodies[c.callee_id]
                    for i in range(1, cal.argc + 1):
                        if cal.locals[i][0] == "bool":
                            R.ob("full:force", a[i - 1] == ("k", True), "the full restyle does not force restyling (%s)" % show(a[i - 1]), c.where())
    R.count("entry_points", n)


def sflow2(P, b, ids):
    return Flow(normalize(P, b, lambda c, cb: False), P)
