"""P01  A boxed widget is the widget: impl Widget for Box<dyn Widget> forwards everything."""
from rules.common import *


def check(P, R):
    R.rule("for every Widget method that a concrete widget overrides or whose default depends on the concrete type: "
           "impl Widget for Box<dyn Widget> overrides it, and on every path calls exactly that method on the boxed "
           "widget, once, with the caller's arguments in order, and returns its result unchanged")
    box = [i for i in P.impls_of(W) if i["self"].startswith("std::boxed::Box<(dyn " + W)]
    R.floor("box_impl", len(box), 1, "impl Widget for Box<dyn Widget>")
    if not box:
        return
    box = box[0]
    names = [m["name"] for m in P.traits[W]["methods"]]
    overridden = {}
    for i in widget_impls(P):
        for n in i["methods"]:
            overridden.setdefault(n, []).append(short(i["adt"]))
    R.floor("widget_methods", len([n for n in names if n in overridden]), 40, "Widget methods overridden by some widget")
    for n in names:
        d = P.trait_default(W, n)
        typed = False
        if d is not None:
            for c in d.calls():
                if c.path and c.path.endswith("any::type_name"):
                    typed = True
            # methods without a receiver are resolved statically and cannot be forwarded
            if d.argc == 0 or "Self" not in d.locals[1][0] and "self" != (d.locals[1][1] or ""):
                continue
        need = n in overridden or typed or d is None
        b = P.bodies.get(box["methods"].get(n, ""))
        if b is None:
            R.ob("box:%s:missing" % n, not need,
                 "Box<dyn Widget> answers `%s` with the trait default although %s implement(s) it" % (n, ", ".join(overridden.get(n, [])[:4]) or "the default"),
                 "%s:%s" % (box["file"], box["line"]))
            continue
        R.fn(b)
        R.count("forwarded_methods")
        # keep Widget calls opaque; inline everything else (helpers, closures)
        f = flow(P, b, lambda c, cb: c.trait != W, "box")
        sites = [(c, a) for c, a, _ in f.calls() if c.trait == W and c.name == n]
        others = [c for c, a, _ in f.calls() if c.trait == W and c.name != n]
        key = "box:%s" % n
        ok = R.ob(key + ":calls", len(sites) >= 1 and not others,
                  "Box forwards `%s` to %s" % (n, [c.name for c in others] or "nothing"), b.where())
        if not ok:
            continue
        inner = ("mem", ("D", ("arg", 1)), ())
        for c, a in sites:
            R.ob(key + ":dyn", c.is_dyn or not c.callee_id == b.id, "Box::%s calls itself" % n, c.where())
            want = [inner] + [("arg", k) for k in range(2, b.argc + 1)]
            R.ob(key + ":args", list(a) == want, "Box::%s passes %s" % (n, [show(x) for x in a]), c.where())
        # on every path exactly once
        cnt = call_count_range(f.b, {c.bb for c, _ in sites})
        R.ob(key + ":once", cnt == (1, 1), "Box::%s forwards between %d and %d times depending on the path" % ((n,) + cnt), b.where())
        unit = b.locals[0][0] == "()"
        for bb, v, fs in f.ret_values():
            if unit:
                continue
            leaves = f.expand_phi(f.resolve(v, fs))
            ok = all(x[0] == "call" and x[1].endswith("::" + n) and x[2] and x[2][0] == inner for x in leaves)
            R.ob(key + ":ret", ok, "Box::%s returns %s instead of the inner result" % (n, show(v)), b.where())
    R.count("methods", len(names))
    R.assumptions += ["Deref of Box<T> reaches T (std)"]


def call_count_range(body, bbs):
    """min and max (saturated at 2) number of marked blocks on any entry-return path"""
    lo, hi = {}, {}
    order = body.rpo()
    INF = 9
    lo = {b: INF for b in order}
    hi = {b: -1 for b in order}
    lo[0] = hi[0] = 0
    ch = True
    while ch:
        ch = False
        for b in order:
            if hi[b] < 0:
                continue
            w = 1 if b in bbs else 0
            for s in body.succs(b):
                nl, nh = lo[b] + w, min(2, hi[b] + w)
                if nl < lo[s]:
                    lo[s] = nl
                    ch = True
                if nh > hi[s]:
                    hi[s] = nh
                    ch = True
    rl, rh = INF, 0
    for b in order:
        if body.term(b)[0] == "return":
            rl = min(rl, lo[b] + (1 if b in bbs else 0))
            rh = max(rh, min(2, hi[b] + (1 if b in bbs else 0)))
    return rl, rh
