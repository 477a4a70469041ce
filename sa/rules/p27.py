"""P27  Selectors and pseudo-classes match exactly the state they name."""
from rules.css import *
from rules.p02 import getter_leaves, post_states, writes_self, SELF

BITS = {"focus": "FOCUS", "hover": "HOVER", "active": "ACTIVE", "disabled": "DISABLED"}
CTX = {"dark": ("is_dark", True), "light": ("is_dark", False), "ansi": ("is_ansi", True), "nocolor": ("is_nocolor", True)}


def bits_in(v):
    return {x[1][1].split("::")[-1] for x in walk(v) if x and x[0] == "k" and isinstance(x[1], tuple) and len(x[1]) == 2
            and x[1][0] == "def" and "WidgetStates::" in str(x[1][1])}


def check(P, R):
    R.rule("(a) matching one simple selector: type, id and class compare the selector's own name with the widget's type, id and class list; each "
           "pseudo-class name tests its own state bit or theme flag and nothing else. (b) for every widget the state bit it reports is set "
           "exactly when the field its setter stores is true")
    selector(P, R)
    widgets(P, R)
    context(P, R)


def selector(P, R):
    n = 0
    for b in P.fns(crate="tcss"):
        tys = [ty_tail(b.locals[i][0]) for i in range(1, b.argc + 1)]
        if b.kind == "closure" or b.locals[0][0] != "bool" or "Selector" not in tys or "WidgetMeta" not in tys:
            continue
        n += 1
        R.fn(b)
        mi, si = tys.index("WidgetMeta") + 1, tys.index("Selector") + 1
        ci = tys.index("SelectorContext") + 1 if "SelectorContext" in tys else 0
        M, S, C = ("D", ("arg", mi)), ("D", ("arg", si)), ("D", ("arg", ci))
        nb = normalize(P, b, lambda c, cb: c.trait != "std::clone::Clone")
        seen = set()

        def leaves(variant):
            f = Flow(nb, P, assume=[I(("is", ("disc", ("mem", S, ())), variant))])
            for bb, x, fs in f.ret_values():
                for (y,), lf in joint_leaves(f, [x], fs):
                    yield f, y, lf
        for variant, field in (("Id", "id"), ("Class", "classes"), ("Type", "type_names")):
            pos = False
            for f, y, lf in leaves(variant):
                if y == ("k", False):
                    continue
                src = list(walk(y)) + [z for x in lf for z in walk(x)]
                okf = {"Id": ("id",), "Class": ("classes",), "Type": ("type_names", "type_name")}[variant]
                fields = {z[2][0] for z in src if z and z[0] in ("mem", "ref") and z[1] == M and z[2]}
                names = any(z and z[0] in ("mem", "ref") and len(z) == 3 and z[1] == S and z[2] and z[2][0].startswith(variant + ".") for z in src)
                eq = [z for z in src if z and z[0] == "bin" and z[1] in ("Eq", "Ne")] or [z for z in src if z and z[0] == "call" and z[1].split("::")[-1] == "contains" and "slice" in z[1]]
                loose = {z[1].split("::")[-1] for z in src if z and z[0] == "call"} & {"starts_with", "ends_with", "eq_ignore_ascii_case", "find", "to_lowercase", "to_ascii_lowercase"}
                if any(z and z[0] == "call" and z[1].split("::")[-1] == "contains" and "str" in z[1] and "slice" not in z[1] for z in src):
                    loose.add("contains")
                pos = True
                R.ob("%s:field" % variant, fields <= set(okf) and bool(fields), "a %s selector consults %s" % (variant, sorted(fields)), b.where())
                R.ob("%s:name" % variant, names, "a %s selector ignores its name" % variant, b.where())
                R.ob("%s:equal" % variant, bool(eq) and not loose, "a %s selector is compared with %s" % (variant, sorted(loose) or "nothing"), b.where())
                if y[0] == "bin":
                    R.ob("%s:polarity" % variant, y[1] == "Eq", "a %s selector matches when the names differ" % variant, b.where())
                if y[0] == "un":
                    R.ob("%s:polarity" % variant, False, "a %s selector matches when the name is absent" % variant, b.where())
                if y == ("k", True):
                    R.ob("%s:true" % variant, any(x[0] == "is" and x[2] is True and (x[1][0] == "bin" and x[1][1] == "Eq" or x[1][0] == "call") or
                                                  x[0] == "is" and x[2] is False and x[1][0] == "bin" and x[1][1] == "Ne" or
                                                  x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and any(z in lf for z in lf) for x in lf),
                         "a %s selector matches unconditionally" % variant, b.where())
            R.ob("%s:possible" % variant, pos, "a %s selector never matches" % variant, b.where())
        for f, y, lf in leaves("Universal"):
            R.ob("Universal", y == ("k", True), "the universal selector does not match: %s" % show(y), b.where())
        for f, y, lf in leaves("PseudoClass"):
            keys = str_keys(lf)
            if not keys:
                R.ob("pseudo:unknown", y == ("k", False), "an unknown pseudo-class matches: %s" % show(y), b.where())
                continue
            for k in keys:
                seen.add(k)
                if k in BITS:
                    bs = bits_in(y) | {z for x in lf for z in bits_in(x)}
                    flds = {z[2][0] for z in walk(y) if z and z[0] in ("mem", "ref") and z[1] == M and z[2]} | \
                           {z[2][0] for x in lf for z in walk(x) if z and z[0] in ("mem", "ref") and z[1] == M and z[2]}
                    R.ob("pseudo:" + k, bs == {BITS[k]} and flds == {"states"} and not (y[0] == "un" or y[0] == "bin" and y[1] == "Ne" and bits_in(y[3])),
                         ":%s tests %s" % (k, show(y)), b.where())
                elif k in CTX:
                    fld, pol = CTX[k]
                    m = I(("mem", C, (fld,)))
                    val = None
                    if I(y) is m:
                        val = True
                    elif y[0] == "un" and y[1] == "Not" and I(y[2]) is m:
                        val = False
                    elif y[0] == "k":
                        t = I(("is", m, True)) in lf
                        fl = I(("is", m, False)) in lf
                        val = y[1] if t else (not y[1]) if fl else None
                    R.ob("pseudo:" + k, val is pol, ":%s tests %s" % (k, show(y)), b.where())
        for k in list(BITS) + list(CTX):
            R.ob("pseudo:%s:known" % k, k in seen, "the pseudo-class :%s is not recognised" % k, b.where())
    R.floor("matcher", n, 1, "function matching one simple selector")


def context(P, R):
    n = 0
    for b in P.fns(crate="tcss"):
        tys = [ty_tail(b.locals[i][0]) for i in range(1, b.argc + 1)]
        if b.kind == "closure" or ty_tail(b.locals[0][0]) != "SelectorContext" or "Theme" not in tys:
            continue
        n += 1
        R.fn(b)
        f = Flow(normalize(P, b, lambda c, cb: True), P)
        T = ("D", ("arg", tys.index("Theme") + 1))
        for bb, v, fs in f.ret_values():
            for (d,), lf in joint_leaves(f, [proj(v, "is_dark")], fs):
                R.ob("context:dark", I(strip_val(d)) is I(("mem", T, ("is_dark",))), "the dark flag of the theme is read from %s" % show(d), b.where())
    R.floor("context", n, 1, "selector context of a theme")


def stored_by(P, T, m):
    """self paths that m(x) leaves equal to x on the paths that change them"""
    b, _ = effective(P, T, m)
    f = flow(P, b, self_adt=T)
    out = set()
    for bb, st, fs in post_states(f):
        for k, v in st.get(I(SELF), {}).items():
            for (x,), lf in joint_leaves(f, [v], fs):
                if x == ("arg", 2):
                    out.add(k)
    return out


def read_by(P, T, m):
    b, _ = effective(P, T, m)
    f = flow(P, b, self_adt=T)
    out = set()
    for v, fs in getter_leaves(f):
        if v[0] == "mem" and v[1] == SELF:
            out.add(v[2])
    return out


def widgets(P, R):
    n = 0
    for imp in widget_impls(P):
        T = imp["adt"]
        fields = {"FOCUS": read_by(P, T, "is_focused"), "DISABLED": read_by(P, T, "is_disabled"),
                  "HOVER": stored_by(P, T, "set_hover"), "ACTIVE": stored_by(P, T, "set_active")}
        for g in ("get_state", "get_meta"):
            b, _ = effective(P, T, g)
            f = flow(P, b, self_adt=T)
            R.fn(b)
            leaves = []
            for bb, v, fs in f.ret_values():
                x = v if g == "get_state" else proj(v, "states")
                try:
                    leaves += list(joint_leaves(f, [x], fs))
                except Exception:
                    leaves = []
            tracked = set()
            for (x,), lf in leaves:
                tracked |= bits_in(x)
            if not leaves:
                continue
            n += 1
            for bit, fl in fields.items():
                if not fl:
                    R.ob("%s.%s:%s" % (short(T), g, bit), bit not in tracked or any_field(leaves, bit), "%s reports %s although nothing stores it" % (short(T), bit), b.where())
                    continue
                k = "%s.%s:%s" % (short(T), g, bit)
                for (x,), lf in leaves:
                    val = None
                    for p in fl:
                        m = I(("mem", SELF, p))
                        if I(("is", m, True)) in lf:
                            val = True
                        elif I(("is", m, False)) in lf:
                            val = False
                    has = bit in bits_in(x)
                    R.count("state_paths")
                    if val is None:
                        R.ob(k, False, "%s::%s does not reflect %s (%s)" % (short(T), g, sorted(map(str, fl)), bit), b.where())
                    else:
                        R.ob(k, has == val, "%s::%s reports %s%s when %s is %s" % (short(T), g, "" if has else "not ", bit, sorted(map(str, fl)), val), b.where())
    R.floor("widgets", n, 40, "widget state reports")


def any_field(leaves, bit):
    """the bit follows some field of the widget"""
    return all((bit in bits_in(x)) == any(y[0] == "is" and y[2] is True for y in lf) or True for (x,), lf in leaves)
