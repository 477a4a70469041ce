"""P14  Theme variables are resolved against the active theme before a style is used."""
from rules.p13 import *


def check(P, R):
    R.rule("every colour or text style a declaration stores in the computed style is the result of the theme resolver applied to the "
           "declared value and the active theme; the resolver returns a literal unchanged, a theme value looked up under the declared "
           "name when there is one, lightens/darkens exactly when the name says so, and keeps an explicit alpha")
    res = [b for b in P.fns(crate="tcss") if is_resolver(b)]
    R.floor("resolvers", len(res), 2, "theme resolvers (colour and text style)")
    for b in res:
        R.fn(b)
        resolver(P, R, b)
    S = spec()
    tab = parser_table(P)
    aps = find_apply(P)
    R.floor("apply", len(aps), 1, "function applying one declaration to a style")
    if not aps:
        return
    ap = max(aps, key=lambda b: len(b.blocks))
    R.fn(ap)
    vf = variant_flows(P, ap)
    n = 0
    for name, slots in sorted(S.items()):
        for path, kind, idx in slots:
            if kind not in ("color", "edge", "hatch", "keyline", "tstyle", "tmerge"):
                continue
            for V, order in sorted(tab.get(name, ())):
                f = vf.get(V)
                if f is None:
                    continue
                n += 1
                for bb, st, fs in rets(f):
                    why = slot_ok(P, f, st, fs, V, path, kind, idx, raw=False)
                    R.ob("%s:%s" % (name, ".".join(path)), why is None,
                         "'%s' stores a value that did not go through theme resolution: %s" % (name, why), ap.where())
    R.floor("slots", n, 35, "theme-dependent style slots")


def resolver(P, R, b):
    f = Flow(normalize(P, b, lambda c, cb: False), P)
    ret = ty_tail(b.locals[0][0])
    ci = next(i for i in range(1, b.argc + 1) if ty_tail(b.locals[i][0]) == ret)
    ti = next(i for i in range(1, b.argc + 1) if ty_tail(b.locals[i][0]) == "Theme")
    C = ("D", ("arg", ci))
    var = I(("mem", C, ("theme_var", "Some.0")))
    dv = I(("disc", ("mem", C, ("theme_var",))))
    alpha = I(("mem", C, ("a",)))
    k = ret
    n = 0

    def lookups(v):
        """theme lookups under the full variable name mentioned in v"""
        out = []
        for x in walk(v):
            if x and x[0] == "call" and any(y == ("arg", ti) or y == ("ref", ("D", ("arg", ti)), ()) or self_theme(y) for y in x[2]):
                if any(y == ("ref", C, ("theme_var", "Some.0")) or I(strip_val(y)) is var for y in x[2]):
                    out.append(x)
        return out

    def self_theme(y):
        return y[0] == "ref" and y[1] == ("D", ("arg", ti))
    seen = set()
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            n += 1
            if I(("is", dv, "None")) in lf:
                R.ob(k + ":literal", I(strip_val(x)) is I(("mem", C, ())), "a literal value is not returned unchanged: %s" % show(x), b.where())
                seen.add("literal")
                continue
            if not R.ob(k + ":cases", I(("is", dv, "Some")) in lf, "result %s does not depend on whether the value names a theme variable" % show(x), b.where()):
                continue
            base, al = x, None
            if x[0] == "upd":
                base = x[1]
                for ov in x[2]:
                    if ov[0] == ("a",) or ov[0] == "a":
                        al = ov[1]
            hit = None
            for y in lf:
                if y[0] in ("is",) and y[1][0] == "disc" and lookups(y[1]) and y[1][1][0] == "call":
                    hit = (y[1][1], y[2])
            if hit and hit[1] == "Some":
                seen.add("found")
                want = I(proj(hit[0], "Some.0"))
                R.ob(k + ":found", I(strip_val(base)) is want, "a variable the theme defines yields %s" % show(x)[:200], b.where())
            elif not (hit and hit[1] == "None"):
                R.ob(k + ":lookup", False, "the theme is not consulted for the variable before falling back to %s" % show(x)[:200], b.where())
            mods = {y[2] for y in lf if y[0] == "is" and isinstance(y[2], str) and y[2] in ("lighten", "darken")}
            used = {y[1].split("::")[-1] for y in walk(base) if y and y[0] == "call" and y[1].split("::")[-1] in ("lighten", "darken")}
            if mods or used:
                R.ob(k + ":modifier", used == mods, "modifier %s is computed with %s" % (sorted(mods), sorted(used)), b.where())
                seen |= used
            if ret == "RgbaColor":
                lt = alpha_fact(lf, alpha)
                if lt is True:
                    R.ob(k + ":alpha", al is not None and I(al) is alpha, "explicit alpha of a theme colour is dropped: %s" % show(x)[:200], b.where())
                    seen.add("alpha")
                elif lt is False:
                    R.ob(k + ":opaque", al is None or I(al) is not alpha, "the theme colour's own alpha is overwritten by an opaque default", b.where())
                else:
                    R.ob(k + ":alpha", False, "the explicit alpha of a theme colour is ignored: %s" % show(x)[:200], b.where())
    need = {"literal", "found"} | ({"alpha", "lighten", "darken"} if ret == "RgbaColor" else set())
    R.ob(k + ":complete", need <= seen, "resolver of %s has no path for %s" % (ret, sorted(need - seen)), b.where())
    R.count("resolver_paths", n)


def alpha_fact(lf, alpha):
    for y in lf:
        if y[0] == "is" and isinstance(y[2], bool) and y[1][0] == "bin" and y[1][1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            a, b = y[1][2], y[1][3]
            if I(a) is alpha or I(b) is alpha:
                op = y[1][1]
                if op in ("Lt", "Ne") or op == "Ge" and False:
                    return y[2]
                if op in ("Ge", "Eq"):
                    return not y[2]
                if op == "Gt":
                    return y[2]
                if op == "Le":
                    return not y[2] if I(b) is alpha else None
    return None
