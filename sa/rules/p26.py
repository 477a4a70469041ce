"""P26  Inherited style values come from the nearest ancestor that sets them."""
from rules.style import *


def check(P, R):
    R.rule("in the restyling pass: a widget without a colour of its own takes its parent's colour and automatic-colour mark, one with a colour keeps it; "
           "visibility is taken from the parent exactly when no rule set it; the background seen through a widget is always the parent's effective one. "
           "The context handed to the children carries the widget's own final colour, automatic mark and visibility, and as effective background the "
           "parent's when it has none, its own when opaque, its own over the parent's when translucent, tinted exactly when a tint is set")
    n = 0
    for b in resolvers(P):
        f = sflow(P, b)
        if any(c.name == "for_each_child" for c, a, fs in f.calls()):
            n += 1
            one(P, R, b, f)
    R.floor("resolver", n, 1, "recursive restyling pass")
    root(P, R)


def ctx_ty(P):
    for p, a in P.adts.items():
        if p.startswith("textual::") and p.endswith("::InheritedContext"):
            return p
    # any struct of the style resolver with an effective colour and a visibility
    for p, a in P.adts.items():
        if p.startswith("textual::") and len(a["variants"]) == 1:
            tys = [str(x[1]) for x in a["variants"][0][1] if len(x) > 1]
            if any("Visibility" in t for t in tys) and sum("RgbaColor" in t for t in tys) == 2:
                return p
    return None


def one(P, R, b, f):
    R.fn(b)
    w = b.where()
    CT = ctx_ty(P)
    if not R.ob("anchor:context", CT is not None, "no inherited context type"):
        return
    ci = argi(b, lambda t: ty_tail(t) == CT.split("::")[-1])
    if not R.ob("anchor:ctxarg", ci is not None, "the restyling pass takes no inherited context", w):
        return
    C = ("D", ("arg", ci))
    dom = f.b.dominators()
    sets = [(c, a, fs) for c, a, fs in f.calls() if c.name == "set_style"]
    built = [(bb, i, v) for (bb, i), (r, cs, v) in f.stmt_vals.items() if v[0] == "agg" and v[1] == CT or v[0] == "agg" and v[1].endswith("::" + CT.split("::")[-1])]
    if not R.ob("context:built", bool(built), "no context is built for the children", w):
        return
    # roles of the context's fields
    roles = {}
    for bb, i, v in built:
        for n, x in v[3]:
            for leaf in [x]:
                last = leaf[2] if leaf[0] == "f" else (leaf[2][-1] if leaf[0] == "mem" and leaf[2] else None)
                if last in ("color", "auto_color", "visibility"):
                    roles.setdefault(last, n)
        rest = [n for n, _ in v[3] if n not in roles.values()]
        if len(rest) == 1:
            roles.setdefault("background", rest[0])
    for r in ("color", "auto_color", "visibility", "background"):
        if not R.ob("context:" + r, r in roles, "the children's context does not carry the widget's %s" % r, w):
            return
    cf = {r: (n,) for r, n in roles.items()}
    cm = lambda r, *rest: I(("mem", C, cf[r] + rest))
    # the style given to the widget
    for c, a, fs in sets:
        S = a[1]
        comp_calls = [x for x in walk(S) if x and x[0] == "call" and P_ret(P, x[1]) == "ComputedStyle"]
        if not R.ob("set:computed", bool(comp_calls), "the style set is not a computed one", c.where()):
            continue
        base = comp_calls[0]
        pf = lambda n: I(proj(base, n))
        dcol, ccol = I(("disc", pf("color"))), I(("disc", cm("color")))
        k = 0
        for (col, aut), lf in joint_leaves(f, [proj(S, "color"), proj(S, "auto_color")], fs, deep=True):
            if col[0] == "clob" or aut[0] == "clob":
                continue
            col = I(unsome(col))
            k += 1
            own = I(("is", dcol, "Some")) in lf or I(("not", dcol, "None")) in lf
            none = I(("is", dcol, "None")) in lf or I(("not", dcol, "Some")) in lf
            pn = I(("is", ccol, "None")) in lf
            if col is pf("color"):
                R.ob("color:keep", own or pn, "a widget without a colour does not inherit one (%s)" % show_facts(lf), c.where())
                if own:
                    R.ob("auto:keep", aut is pf("auto_color"), "a widget with its own colour takes the automatic mark from %s" % show(aut), c.where())
            elif I(strip_val(col)) is cm("color"):
                R.ob("color:inherit", none, "a widget with its own colour takes its parent's", c.where())
                R.ob("auto:inherit", I(strip_val(aut)) is cm("auto_color") or pn, "an inherited colour comes with the automatic mark %s" % show(aut), c.where())
            elif col[0] == "call" and col[1].endswith("::or") or col[0] == "call" and col[1].endswith("or_else"):
                R.ob("color:or", I(strip_val(col[2][0])) is pf("color"), "the parent's colour is preferred to the widget's own", c.where())
            else:
                R.ob("color:source", False, "the colour comes from %s" % show(col)[:120], c.where())
        R.ob("color:paths", k > 0, "the colour given to the widget cannot be traced", c.where())
        for (bg,), lf in joint_leaves(f, [proj(S, "inherited_background")], fs):
            if bg[0] == "clob":
                continue
            R.ob("background:seen", I(strip_val(unsome(bg))) is cm("background"), "the inherited background is %s" % show(bg)[:120], c.where())
        vs = pf("visibility_set")
        for (vis,), lf in joint_leaves(f, [proj(S, "visibility")], fs, deep=True):
            if vis[0] == "clob":
                continue
            if I(("is", vs, True)) in lf:
                R.ob("visibility:own", vis is pf("visibility"), "an explicit visibility is replaced by %s" % show(vis), c.where())
            elif I(("is", vs, False)) in lf:
                R.ob("visibility:inherit", I(strip_val(vis)) is cm("visibility"), "an unset visibility becomes %s" % show(vis), c.where())
            else:
                R.ob("visibility:cases", False, "visibility is %s whether or not a rule set it" % show(vis), c.where())
    # the context for the children
    for bb, i, v in built:
        d = dict(v[3])
        x = d[roles["color"]]
        fin = x[1] if x[0] == "f" else None
        for r in ("color", "auto_color", "visibility"):
            y = strip_val(d[roles[r]])
            R.ob("child:" + r, y[0] == "f" and y[2] == r and y[1] is fin, "children inherit %s as their parent's %s" % (show(y)[:100], r), w)
        R.ob("child:final", fin is not None and finals(f, fin, sets), "children inherit from a style that is not the widget's final one: %s" % (show(fin)[:120] if fin else "?"), w)
        if fin is None:
            continue
        pf = lambda n, *r: I(projs(proj(fin, n), r))
        bgv = pf("background")
        dbg, dpar, dt = I(("disc", bgv)), I(("disc", cm("background"))), I(("disc", pf("background_tint")))
        own = I(proj(bgv, "Some.0"))
        n = 0
        for (y,), lf in joint_leaves(f, [d[roles["background"]]], f.infacts[bb], deep=True, keep=phis_in(fin)):
            n += 1
            if any(contradicts(z, lf) for z in lf):
                continue
            has = known(lf, dbg)
            par = known(lf, dpar)
            tint = known(lf, dt)
            if has is None:
                R.ob("effective:cases", False, "the effective background %s does not depend on the widget having one" % show(y)[:100], w)
                continue
            if has is False:
                R.ob("effective:none", I(strip_val(unsome(y))) is cm("background"), "without a background of its own the effective one is %s" % show(y)[:120], w)
                continue
            z = y[3][0][1] if y[0] == "agg" and y[2] == "Some" else None
            if not R.ob("effective:some", z is not None, "a widget with a background has the effective background %s" % show(y)[:120], w):
                continue
            z = strip_val(z)
            got_t = z[0] == "call" and z[1].split("::")[-1] == "tint"
            if tint is None:
                R.ob("effective:tint", False, "a background tint is ignored: %s" % show(y)[:120], w)
            else:
                R.ob("effective:tint", got_t == tint, "the background is %stinted when a tint is %sset" % ("" if got_t else "not ", "" if tint else "not "), w)
            if got_t:
                R.ob("effective:tintarg", I(strip_val(z[2][1])) is I(proj(pf("background_tint"), "Some.0")), "the background is tinted with %s" % show(z[2][1])[:100], w)
                z = strip_val(z[2][0])
            blended = z[0] == "call" and z[1].split("::")[-1] == "blend_over"
            tr = translucent(lf, own)
            if blended:
                R.ob("effective:blend:over", I(strip_val(z[2][0])) is own and par is not False and (z[2][1] == ("ref", C, cf["background"] + ("Some.0",)) or I(strip_val(z[2][1])) is cm("background", "Some.0")),
                     "a translucent background is blended as %s" % show(z)[:150], w)
                R.ob("effective:blend:when", tr is True, "an opaque background is blended with the parent's", w)
            else:
                R.ob("effective:own", I(z) is own, "the effective background is %s" % show(z)[:120], w)
                R.ob("effective:own:when", tr is False or par is False, "a translucent background hides the parent's", w)
        R.ob("effective:paths", n >= 4, "only %d cases of the effective background" % n, w)


def not_both(f, lf, own, dpar):
    """facts do not decide: the branch is the else of (translucent and parent)"""
    return translucent(lf, own) is None and known(lf, dpar) is None


def projs(v, cs):
    for c in cs:
        v = proj(v, c)
    return v


def known(lf, d):
    if I(("is", d, "Some")) in lf or I(("not", d, "None")) in lf:
        return True
    if I(("is", d, "None")) in lf or I(("not", d, "Some")) in lf:
        return False
    return None


def translucent(lf, own):
    a = I(proj(own, "a"))
    for y in lf:
        if y[0] == "is" and isinstance(y[2], bool) and y[1][0] == "bin" and (I(y[1][2]) is a or I(y[1][3]) is a):
            op = y[1][1]
            left = I(y[1][2]) is a
            if op in ("Lt", "Gt", "Ne"):
                good = op == "Ne" or (op == "Lt") == left
                return y[2] if good else None
            if op in ("Ge", "Le", "Eq"):
                good = op == "Eq" or (op == "Ge") == left
                return (not y[2]) if good else None
    return None


def finals(f, fin, sets):
    """fin is, on every path, the style just set or the style the widget already has"""
    for x in f.expand_phi(fin):
        x = strip_val(x)
        ok = x[0] == "call" and x[1].split("::")[-1] == "get_style" or any(I(x) is I(a[1]) for c, a, fs in sets) or \
            x[0] == "upd" and any(a[1][0] == "upd" and a[1][1] is x[1] for c, a, fs in sets)
        if not ok:
            return False
    return True


def P_ret(P, path):
    for b in by_path(P).get(path, ()):
        return ty_tail(b.locals[0][0])
    return None


def by_path(P):
    if "_bypath" not in P.__dict__:
        d = {}
        for b in P.bodies.values():
            d.setdefault(b.path, []).append(b)
        P.__dict__["_bypath"] = d
    return P.__dict__["_bypath"]


def root(P, R):
    CT = ctx_ty(P)
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or ty_tail(b.locals[0][0]) != CT.split("::")[-1] or b.argc != 1 or ty_tail(b.locals[1][0]) != "Theme":
            continue
        n += 1
        R.fn(b)
        f = Flow(normalize(P, b, lambda c, cb: False), P)
        for bb, v, fs in f.ret_values():
            for (x,), lf in joint_leaves(f, [v], fs):
                if x[0] != "agg":
                    continue
                d = dict(x[3])
                aut = [y for y in d.values() if y == ("k", True)]
                R.ob("root:auto", not aut, "the root context starts with an automatic colour", b.where())
                vis = [y for y in d.values() if y[0] == "agg" and y[1].endswith("Visibility")]
                R.ob("root:visible", vis and all(y[2] == "Visible" for y in vis), "the root context starts hidden", b.where())
                for y in d.values():
                    for z in walk(y):
                        if z and z[0] == "call" and z[1].split("::")[-1] == "get_color":
                            nm = strip_val(z[2][1])
                            first = not any(q[0] == "is" and q[1][0] == "disc" and "get_color" in str(q[1]) and q[2] == "None" for q in lf)
                            R.ob("root:color", nm == ("k", "foreground") or nm == ("k", "text") and not first,
                                 "the root colour is the theme's %s" % show(nm), b.where())
    R.floor("root", n, 1, "inherited context of the root")
