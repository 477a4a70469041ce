"""P15  Cascade order: specificity, then source order, later wins; selector combinators; inline overrides last."""
from rules.css import *

WEIGHT = {"Id": {"ids"}, "Class": {"classes"}, "PseudoClass": {"classes"}, "Attribute": {"classes"}, "Type": {"types"},
          "Universal": set(), "Parent": set()}
RANK = ["ids", "classes", "types", "source_order"]


def adt(P, name):
    for p, a in P.adts.items():
        if p.startswith("tcss::") and p.split("::")[-1] == name:
            return p, a
    return None, None


def variant_names(P, name):
    p, a = adt(P, name)
    return [v[0] for v in a["variants"]] if a else []


def disc_set(P, x, variants):
    """(value, set of variant names) of a discriminant fact"""
    if x[0] == "is" and x[1][0] == "disc" and isinstance(x[2], str):
        return x[1], {x[2]}
    if x[0] == "in" and x[1][0] == "disc":
        return x[1], {variants[int(i)] if str(i).isdigit() and int(i) < len(variants) else i for i in x[2]}
    return None


def check(P, R):
    R.rule("selector kinds add one to their own specificity column; a complex selector sums columns; matched rules are sorted ascending by "
           "(ids, classes, types, source order), ascending, with the most specific matching selector of each rule, and applied in that order")
    weights(P, R)
    sums(P, R)
    cascade(P, R)
    combinators(P, R)
    inline(P, R)


def weights(P, R):
    vs = variant_names(P, "Selector")
    n = 0
    for b in P.fns(crate="tcss"):
        if b.kind == "closure" or ty_tail(b.locals[0][0]) != "Specificity" or b.argc != 1 or ty_tail(b.locals[1][0]) != "CompoundSelector":
            continue
        n += 1
        R.fn(b)
        f = Flow(normalize(P, b, lambda c, cb: True), P)
        got = {v: set() for v in vs}
        seen = set()
        names = {}
        # local counters -> column through the returned aggregate
        for bb, v, fs in f.ret_values():
            for col in RANK[:3]:
                for x in walk(proj(v, col)):
                    if x and x[0] == "phi":
                        names.setdefault(str(x[2]), set()).add(col)
        for (bb, i), (r, cs, v) in f.stmt_vals.items():
            if v[0] == "bin" and v[1] in ("Add", "AddUnchecked") or v[0] == "call" and v[1].endswith("saturating_add"):
                a, k = (v[2], v[3]) if v[0] == "bin" else (v[2][0], v[2][1])
                if k[0] != "k" or not isinstance(k[1], int):
                    continue
                cols = {c for c in cs if c in RANK}
                if not cols and a[0] == "phi":
                    cols = names.get(str(a[2]), set())
                sets = [disc_set(P, x, vs) for x in f.infacts.get(bb, ())]
                sets = [s[1] for s in sets if s and s[1] <= set(vs)]
                if not cols or not sets:
                    continue
                R.ob("weight:one", k[1] == 1, "a selector counts %s times" % k[1], b.where())
                for v2 in set.intersection(*sets):
                    got[v2] |= cols
                    seen.add(v2)
        R.ob("weight:found", bool(seen), "no specificity column is ever incremented", b.where())
        for v2 in vs:
            if v2 in WEIGHT:
                R.ob("weight:" + v2, got[v2] == WEIGHT[v2], "a %s selector adds to %s instead of %s" % (v2, sorted(got[v2]), sorted(WEIGHT[v2])), b.where())
    R.floor("weights", n, 1, "specificity of a compound selector")


def sums(P, R):
    cols = {}
    for b in P.fns(crate="tcss"):
        if "Specificity" not in " ".join(l[0] for l in b.locals[:b.argc + 1]) or (b.path or "").startswith("<"):
            continue
        f = Flow(normalize(P, b, lambda c, cb: False, closures=False), P)
        cand = []
        for (bb, i), (r, cs, v) in f.stmt_vals.items():
            if v[0] == "agg" and v[1].endswith("Specificity"):
                cand += [(fn, x) for fn, x in v[3]]
            elif cs and cs[-1] in RANK:
                cand.append((cs[-1], v))
        for fn, x in cand:
            if x[0] == "bin" and x[1].startswith("Add"):
                ops = []
                for y in (x[2], x[3]):
                    n = y[2][-1] if y[0] == "mem" and y[2] else y[2] if y[0] == "f" else y[2][-1] if y[0] == "phi" and isinstance(y[2], tuple) and y[2] else None
                    ops.append(n if n in RANK else None)
                if all(ops):
                    R.fn(b)
                    R.ob("sum:" + fn, ops[0] == fn == ops[1], "column %s is summed from %s" % (fn, ops), b.where())
                    cols[fn] = 1
    R.floor("sums", len(cols), 3, "specificity columns summed over the parts of a selector")


def sort_keys(P, R, b, c, a):
    """obligations on one sort of the matched rules"""
    clo = next((x for x in a if x[0] == "agg" and x[1].startswith("closure:")), None)
    if clo is None:
        R.ob("sort:comparator", False, "matched rules are sorted without specificity", b.where())
        return
    cb = P.bodies[clo[1].split(":", 1)[1]]
    R.fn(cb)
    f = Flow(normalize(P, cb, lambda c, x: True), P)
    name = c.name
    stable = "unstable" not in name
    if "by_key" in name or "cached_key" in name:
        for bb, v, fs in f.ret_values():
            ks = [x for _, x in v[3]] if v[0] == "agg" else [v]
            flat = []
            for x in ks:
                x = strip_val(x)
                flat.append(x[2][-1] if x[0] == "mem" and x[2] else x[1].split("::")[-1] if x[0] == "agg" else "?")
            ok = flat[:1] == ["specificity"] and (flat == ["specificity", "source_order"] or flat == ["specificity"] and stable)
            R.ob("sort:key", ok, "matched rules are sorted by %s" % flat, cb.where())
        return
    R.ob("sort:by", "by" in name, "matched rules are sorted by %s" % name, b.where())
    A, B = ("D", ("arg", 2)), ("D", ("arg", 3))

    def key(v):
        """column compared ascending by a cmp value, or None"""
        if v[0] == "call" and v[1].split("::")[-1] in ("cmp", "partial_cmp", "total_cmp") and len(v[2]) == 2:
            x, y = strip_val(v[2][0]), strip_val(v[2][1])
            px = x[2] if x[0] in ("ref", "mem") else None
            py = y[2] if y[0] in ("ref", "mem") else None
            if px and px == py and x[1] == A and y[1] == B:
                return px[-1]
            if px and px == py and x[1] == B and y[1] == A:
                return "-" + px[-1]
        return None

    def chain(v):
        if v[0] == "call" and v[1].split("::")[-1] in ("then", "then_with") and len(v[2]) >= 1:
            r = chain(v[2][0])
            return r + (chain(v[2][1]) if len(v[2]) > 1 else [])
        if v[0] == "call" and v[1].split("::")[-1] == "reverse":
            return ["reversed"]
        k = key(v)
        return [k] if k else ["?"]
    got = 0
    used = set()
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            eq = {key(y[1][1]) for y in lf if y[0] == "is" and y[1][0] == "disc" and y[2] == "Equal" and key(y[1][1])}
            seq = chain(x)
            got += 1
            if x[0] in ("agg", "k"):
                seq = []
            seq = [s for s in seq if s not in eq]
            used |= set(seq) | eq
            # every column compared must come after all columns before it in rank
            have = set(eq)
            for s in seq:
                ok = s in RANK and all(t in have for t in RANK[:RANK.index(s)] ) or \
                    s in RANK and s in ("source_order",) and True and (set(RANK[:3]) <= have or any(t in seq[:seq.index(s)] for t in RANK[:3]))
                R.ob("sort:order:%s" % s, ok, "matched rules are compared by %s before more significant columns" % s, cb.where())
                have.add(s)
    R.ob("sort:columns", set(RANK[:3]) <= used and (stable or "source_order" in used), "matched rules are ordered by %s" % sorted(map(str, used)), cb.where())


def cascade(P, R):
    cands = []
    for b in P.fns(crate="tcss"):
        if b.kind != "closure" and ty_tail(b.locals[0][0]) == "ComputedStyle" and b.argc >= 2 and \
                any(ty_tail(b.locals[i][0]) == "StyleSheet" for i in range(1, b.argc + 1)):
            cands.append(b)
    R.floor("cascade", len(cands), 1, "function computing a style from a stylesheet")
    aps = {b.id for b in find_apply(P)}
    for b in cands:
        R.fn(b)

        def inl(c, cb):
            if cb.id in aps or ty_tail(cb.locals[0][0]) == "Specificity":
                return False
            tys = [ty_tail(cb.locals[i][0]) for i in range(1, cb.argc + 1)]
            return "ComplexSelector" not in tys
        f = Flow(normalize(P, b, inl), P)
        calls = list(f.calls())
        si = next(i for i in range(1, b.argc + 1) if ty_tail(b.locals[i][0]) == "StyleSheet")
        ap = [(c, a, fs) for c, a, fs in calls if c.callee_id in aps]
        R.ob("apply:called", bool(ap), "no declaration is ever applied", b.where())
        sorts = [(c, a, fs) for c, a, fs in calls if c.name.startswith("sort")]
        R.ob("sort:present", bool(sorts), "matched rules are not sorted", b.where())
        for c, a, fs in sorts:
            sort_keys(P, R, b, c, a)
        revs = [c for c, a, fs in calls if c.name in ("rev", "reverse", "next_back", "pop")]
        R.ob("apply:forward", not revs, "matched rules or their declarations are traversed backwards", b.where())
        dom = f.b.dominators()
        for c, a, fs in ap:
            for s, _, _ in sorts:
                R.ob("sort:first", s.bb in dom.get(c.bb, ()), "declarations are applied before the matched rules are sorted", c.where())
            th = [x for x in a if x == ("arg", next((i for i in range(1, b.argc + 1) if ty_tail(b.locals[i][0]) == "Theme"), 0))]
            R.ob("apply:theme", bool(th), "declarations are resolved against something else than the active theme", c.where())
        # what is pushed: specificity of a selector of that rule known to match, the maximum of them
        spec = [(c, a, fs) for c, a, fs in calls if c.callee_id and P.bodies.get(c.callee_id) and ty_tail(P.bodies[c.callee_id].locals[0][0]) == "Specificity"]
        R.ob("specificity:used", bool(spec), "the specificity of the matching selector is not used", b.where())
        for c, a, fs in spec:
            sel = a[0]
            ok = any(x[0] == "is" and x[2] is True and x[1][0] == "call" and any(I(strip_val(y)) is I(strip_val(sel)) for y in x[1][2]) for x in fs)
            R.ob("specificity:matching", ok, "a rule gets the specificity of a selector that was not matched", c.where())
            mx = any(cc.name in ("max", "max_by", "max_by_key") or cc.path == "vp::max" for cc, aa, ff in calls) or \
                any(x[0] in ("is",) and x[1][0] == "bin" and x[1][1] in ("Lt", "Le", "Gt", "Ge") and "specificity" in str(x[1]) for bb in f.infacts for x in f.infacts[bb])
            R.ob("specificity:max", mx, "a rule with several matching selectors does not get the most specific one's specificity", c.where())
        # source order: index within the stylesheet's rules
        for (bb, i), (r, cs, v) in f.stmt_vals.items():
            if v[0] == "agg" and any(fn == "source_order" for fn, _ in v[3]):
                so = dict(v[3])["source_order"]
                bad = so[0] == "k" or so[0] == "un"
                R.ob("source:index", not bad, "source order is recorded as %s" % show(so), b.where())


def combinators(P, R):
    vs = variant_names(P, "Combinator")
    anchor = 0
    sib = 0
    for b in P.fns(crate="tcss"):
        if b.kind == "closure" or b.locals[0][0] != "bool":
            continue
        tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if not any("SelectorPart" in t or ty_tail(t) == "ComplexSelector" for t in tys) or not any("[" in t and "WidgetMeta" in t for t in tys):
            continue
        R.fn(b)
        ai = next(i for i in range(1, b.argc + 1) if "[" in b.locals[i][0] and "WidgetMeta" in b.locals[i][0])
        f = Flow(normalize(P, b, lambda c, cb: "Selector" not in [ty_tail(cb.locals[i][0]) for i in range(1, cb.argc + 1)]), P)
        anc = ("arg", ai)
        child_iter, desc_iter = [], []
        for c, a, fs in f.calls():
            kinds = set(vs)
            for x in fs:
                d = disc_set(P, x, vs)
                if d and d[1] <= set(vs):
                    kinds &= d[1]
            if kinds == set(vs):
                continue
            over = a and (a[0] == anc or a[0] == ("ref", ("D", anc), ()))
            if over and c.name in ("iter", "into_iter", "windows", "iter_mut"):
                if kinds == {"Child"}:
                    child_iter.append(c)
                if "Descendant" in kinds:
                    desc_iter.append(c)
                    anchor += 1
            if c.callee_id == b.id or (c.callee_id and P.bodies.get(c.callee_id) and "SelectorPart" in " ".join(l[0] for l in P.bodies[c.callee_id].locals[1:P.bodies[c.callee_id].argc + 1]) and P.bodies[c.callee_id].locals[0][0] == "bool"):
                pass_anc = a[[i for i in range(len(a)) if "WidgetMeta" in (P.bodies[c.callee_id].locals[i + 1][0]) and "[" in P.bodies[c.callee_id].locals[i + 1][0]][0]] if P.bodies.get(c.callee_id) else None
                if pass_anc is not None:
                    R.ob("combinator:consumes:%s" % "/".join(sorted(kinds)), pass_anc != anc and pass_anc != ("ref", ("D", anc), ()),
                         "the ancestor just matched is offered to the next part again", c.where())
                    if kinds == {"Child"} and pass_anc[0] == "call" and pass_anc[1].endswith("index"):
                        st = dict(pass_anc[2][1][3]).get("start") if pass_anc[2][1][0] == "agg" else None
                        R.ob("combinator:child:rest", st is None or st == ("k", 1), "a child combinator skips ancestors", c.where())
        R.ob("combinator:child:parent", not child_iter, "a child combinator is tried against ancestors other than the parent", b.where())
        for bb, v, fs in f.ret_values():
            for (x,), lf in joint_leaves(f, [v], fs):
                kinds = set(vs)
                for y in lf:
                    d = disc_set(P, y, vs)
                    if d and d[1] <= set(vs):
                        kinds &= d[1]
                if kinds and kinds <= {"AdjacentSibling", "GeneralSibling"}:
                    sib += 1
                    R.ob("combinator:sibling", x == ("k", False), "a sibling combinator matches without a sibling", b.where())
                if x == ("k", True) and kinds != set(vs):
                    ok = any(y[0] == "is" and y[2] is True and y[1][0] == "call" for y in lf) or \
                        any(y[0] == "is" and y[1][0] == "disc" and y[2] == "None" for y in lf)
                    R.ob("combinator:true:%s" % "/".join(sorted(kinds)), ok, "a selector part is accepted without matching an ancestor", b.where())
    R.floor("descendant", anchor, 1, "descendant combinators searching the ancestors")


def inline(P, R):
    n = 0
    for b in P.fns(crate="tcss"):
        tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if b.kind == "closure" or len(tys) != 2 or ty_tail(tys[0]) != "StyleOverride" or not (tys[1].startswith("&mut") and ty_tail(tys[1]) == "ComputedStyle"):
            continue
        n += 1
        R.fn(b)
        f = Flow(normalize(P, b, lambda c, cb: c.trait != "std::clone::Clone"), P)
        fields = [x[0] for x in adt(P, "StyleOverride")[1]["variants"][0][1]]
        S, D = ("D", ("arg", 1)), ("D", ("arg", 2))
        for bb in f.b.rpo():
            if f.b.term(bb)[0] != "return" or bb not in f.outstate:
                continue
            st, fs = f.outstate[bb], f.infacts[bb]
            for fl in fields:
                src = I(("mem", S, (fl,)))
                for (v,), lf in joint_leaves(f, [f.read(st, I(D), I((fl,)))], fs):
                    d = I(("disc", src))
                    if I(("is", d, "Some")) in lf:
                        s = v[3][0][1] if v[0] == "agg" and v[2] == "Some" else None
                        ok = s is not None and I(strip_val(s)) is I(("mem", S, (fl, "Some.0"))) or I(strip_val(v)) is src
                        R.ob("inline:%s:set" % fl, ok, "an inline %s is not applied: %s" % (fl, show(v)), b.where())
                    elif I(("is", d, "None")) in lf:
                        R.ob("inline:%s:keep" % fl, v == ("mem", D, (fl,)), "an absent inline %s changes the style to %s" % (fl, show(v)), b.where())
                    else:
                        ok = I(strip_val(v)) is src or any(I(y) is src or I(y) is I(("ref", S, (fl,))) for y in walk(v)) and any(y == ("mem", D, (fl,)) for y in walk(v))
                        R.ob("inline:%s:cases" % fl, ok, "inline %s: %s" % (fl, show(v)), b.where())
            for (v, c0), lf in joint_leaves(f, [f.read(st, I(D), I(("auto_color",))), f.read(st, I(D), I(("color",)))], fs):
                if I(("is", ("disc", ("mem", S, ("color",))), "Some")) in lf:
                    R.ob("inline:auto", v != ("mem", D, ("auto_color",)), "an inline colour leaves an automatic colour in force", b.where())
    R.floor("inline", n, 1, "application of inline styles")
