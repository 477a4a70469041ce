"""P02  What is set on a widget is what is reported: setter/getter coherence of every facet."""
from rules.common import *

SELF = ("D", ("arg", 1))

BOOL = [("set_visible", "is_visible"), ("set_loading", "is_loading"), ("set_disabled", "is_disabled"),
        ("set_focus", "is_focused")]
VAL = [("set_tooltip", "tooltip"), ("set_border_title", "border_title"), ("set_border_subtitle", "border_subtitle")]


def writes_self(f):
    """self paths written at any return of f"""
    out = set()
    for bb in f.b.rpo():
        if f.b.term(bb)[0] == "return" and bb in f.outstate:
            for r, d in f.outstate[bb].items():
                if r == SELF:
                    for k, v in d.items():
                        if v != ("mem", SELF, k):
                            out.add(k)
    return out


def getter_leaves(f):
    out = []
    for bb, v, fs in f.ret_values():
        out += joint_leaves(f, [v], fs)
    return [(vs[0], fs) for vs, fs in out]


def subst_post(fset, st, v):
    """rewrite entry-state self memory in v by its content in state st"""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        if x[0] == "mem" and len(x) == 3 and x[1] == SELF:
            r = fset.read(st, I(SELF), I(x[2]))
        elif x[0] == "optref" and x[1] == SELF:
            r = ("optref", x[1], x[2], go(x[3]), x[4])
        elif x[0] == "f":
            r = proj(go(x[1]), x[2])
        elif x[0] == "ref":
            r = x
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return I(go(v))


def fact_value(v, facts):
    """boolean constant a value is known to have"""
    if v[0] == "k":
        return v[1]
    for x in facts:
        if x[0] == "is" and x[1] == v and isinstance(x[2], bool):
            return x[2]
    return None


def same(v, want, facts):
    v, want = I(strip_val(v)), I(strip_val(want))
    if v is want:
        return True
    a, b = fact_value(v, facts), fact_value(want, facts)
    if a is not None and a == b:
        return True
    for x in facts:
        if x[0] == "is" and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne"):
            l, r = x[1][2], x[1][3]
            if ({I(strip_val(l)), I(strip_val(r))} == {v, want} or {I(pointee(l)), I(pointee(r))} == {v, want}) and (x[1][1] == "Eq") == x[2]:
                return True
    return False


def pointee(v):
    """collections compared through their deref'd contents"""
    v = strip_val(v)
    if v[0] == "mem" and v[1][0] == "D" and v[2] == () and v[1][1][0] != "arg":
        return strip_val(v[1][1])
    return v


def opt_payload(v):
    """content of an Option-like value: ('some', x) / ('none',) / None"""
    if v[0] == "optref":
        v = v[3]
    if v[0] == "agg" and v[1].endswith("Option"):
        if v[2] == "Some":
            return ("some", v[3][0][1])
        return ("none",)
    return None


def post_states(f):
    for bb in f.b.rpo():
        if f.b.term(bb)[0] == "return" and bb in f.outstate:
            yield bb, f.outstate[bb], f.infacts[bb]


def check(P, R):
    R.rule("for each widget type and each facet (visible, loading, disabled, focus, tooltip, border title/subtitle, inline "
           "style, classes): either both setter and getter are inert, or on every path of the setter the getter evaluated "
           "in the setter's final state yields the value that was set; class edits act on the collection the class "
           "queries and the style metadata read")
    n = 0
    for imp in widget_impls(P):
        T = imp["adt"]
        n += 1
        for s, g in BOOL + VAL:
            facet(P, R, T, s, g, s, (s, g) in BOOL)
        inline_facet(P, R, T)
        class_facet(P, R, T)
    R.floor("widgets", n, 25, "Widget implementations")


def facet(P, R, T, s, g, key, is_bool):
    sb, so = effective(P, T, s)
    gb, go = effective(P, T, g)
    sf, gf = flow(P, sb, self_adt=T), flow(P, gb, self_adt=T)
    R.fn(sb)
    R.fn(gb)
    wr = writes_self(sf)
    GL = getter_leaves(gf)
    # the getter is inert when its result is one constant
    reads = set()
    for v, fs in GL:
        reads |= self_fields(v)
        for x in fs:
            reads |= self_fields(x)
    k = "%s.%s" % (short(T), key)
    if not reads and not wr:
        return
    R.count("facet_pairs")
    if not reads and wr:
        R.ob(k + ":getter-inert", False, "%s stores %s but %s() is a constant" % (s, sorted(map(str, wr)), g), gb.where())
        return
    if reads and not wr:
        R.ob(k + ":setter-inert", False, "%s() reports %s but %s stores nothing" % (g, sorted(map(str, reads)), s), sb.where())
        return
    for bb, st, fs in post_states(sf):
        # joint values of everything the getter depends on
        paths = sorted(reads, key=str)
        vals = [sf.read(st, I(SELF), I(p)) for p in paths]
        for lv, lf in joint_leaves(sf, vals, fs):
            st2 = dict(st)
            for p, v in zip(paths, lv):
                sf.write(st2, I(SELF), I(p), v)
            for v, gfs in GL:
                gpost = [subst_post(sf, st2, x) for x in gfs]
                if any(contradicts(x, lf) or const_false(x) for x in gpost):
                    continue
                pv = subst_post(sf, st2, v)
                facts = set(lf) | {I(x) for x in gpost}
                if is_bool:
                    ok = same(pv, ("arg", 2), facts)
                else:
                    ok = val_same(pv, facts, sb)
                R.ob(k + ":roundtrip", ok, "after %s(x), %s() yields %s" % (s, g, show(pv)), sb.where())


def const_false(x):
    if x[0] in ("is", "not") and x[1][0] == "k":
        return ((x[1][1] == x[2]) == (x[0] == "is")) is False
    return False


def val_same(pv, facts, sb):
    """optional text facets: argument is Option<String> or &str"""
    arg = ("arg", 2)
    if strip_val(pv) == arg:
        return True
    if pv[0] == "optref" and strip_val(pv[3]) == arg:
        return True
    o = opt_payload(pv)
    if o and o[0] == "some":
        x = strip_val(o[1])
        return x == arg or x == ("mem", ("D", arg), ()) or x == ("f", arg, "Some.0")
    if o and o[0] == "none":
        # clearing: only when the argument itself was None
        return I(("is", ("disc", arg), "None")) in facts
    return False


def inline_facet(P, R, T):
    sb, _ = effective(P, T, "set_inline_style")
    gb, _ = effective(P, T, "inline_style")
    cb, _ = effective(P, T, "clear_inline_style")
    sf, gf, cf = (flow(P, b, self_adt=T) for b in (sb, gb, cb))
    for b in (sb, gb, cb):
        R.fn(b)
    wr, cw = writes_self(sf), writes_self(cf)
    GL = getter_leaves(gf)
    reads = set()
    for v, fs in GL:
        reads |= self_fields(v)
        for x in fs:
            reads |= self_fields(x)
    k = "%s.inline_style" % short(T)
    if not reads and not wr and not cw:
        return
    R.count("facet_pairs")
    if not R.ob(k + ":both-sides", bool(reads) and bool(wr) and bool(cw),
                "inline style: getter reads %s, setter writes %s, clear writes %s" % (sorted(map(str, reads)), sorted(map(str, wr)), sorted(map(str, cw))), sb.where()):
        return
    p = sorted(reads, key=lambda x: (len(x), str(x)))[0]
    for bb, st, fs in post_states(sf):
        for (v,), lf in joint_leaves(sf, [sf.read(st, I(SELF), I(p))], fs):
            R.ob(k + ":set", strip_val(v) == ("arg", 2), "set_inline_style stores %s" % show(v), sb.where())
    for bb, st, fs in post_states(cf):
        for (v,), lf in joint_leaves(cf, [cf.read(st, I(SELF), I(p))], fs):
            ok = v[0] in ("k",) and v[1] == ("c", "default") or v[0] == "call" and v[1].split("::")[-1] in ("default", "new", "empty") and not v[2] \
                or v[0] == "agg" and not self_fields(v)
            R.ob(k + ":clear", ok, "clear_inline_style leaves %s" % show(v), cb.where())
    for v, fs in GL:
        o = opt_payload(v)
        if o and o[0] == "some":
            ok = o[1] == ("ref", SELF, p) or o[1] == ("ref", I(SELF), I(p))
            R.ob(k + ":get", ok, "inline_style() yields %s" % show(v), gb.where())
        elif o and o[0] == "none":
            emp = any(x[0] == "is" and x[2] is True and x[1][0] == "call" and x[1][1].endswith("is_empty") for x in fs) or \
                  any(x[0] in ("is", "not") and self_fields(x) for x in fs)
            R.ob(k + ":none", emp, "inline_style() drops a non-empty inline style", gb.where())
        else:
            R.ob(k + ":get", v[0] == "optref" or bool(self_fields(v)), "inline_style() yields %s" % show(v), gb.where())


def class_paths_meta(P, T):
    b, _ = effective(P, T, "get_meta")
    f = flow(P, b, self_adt=T)
    out = set()
    for bb, v, fs in f.ret_values():
        c = proj(v, "classes")
        for (x,), lf in joint_leaves(f, [c], fs):
            out |= {q for q in self_fields(x)}
        # classes.push(..)/extend clobbers: look at what is cloned anywhere into it
        if not out:
            for cc, a, _ in f.calls():
                if cc.name == "clone" and a and a[0][0] == "ref" and a[0][1] == SELF and a[0][2] and a[0][2][-1] == "classes":
                    out.add(a[0][2])
    return b, {p for p in out if p and p[-1] == "classes"}


def class_facet(P, R, T):
    names = ("add_class", "remove_class", "set_classes", "has_class", "classes")
    bs = {m: effective(P, T, m)[0] for m in names}
    fl = {m: flow(P, b, self_adt=T) for m, b in bs.items()}
    for b in bs.values():
        R.fn(b)
    w = {m: {p for p in writes_self(fl[m])} for m in ("add_class", "remove_class", "set_classes")}
    mb, meta = class_paths_meta(P, T)
    reads = {}
    for m in ("has_class", "classes"):
        s = set()
        for c, a, fs in fl[m].calls():
            for x in a:
                s |= self_fields(x)
        for v, fs in getter_leaves(fl[m]):
            s |= self_fields(v)
        reads[m] = {p for p in s if p}
    allp = set()
    for s in list(w.values()) + list(reads.values()):
        allp |= {p for p in s if p and p[-1] == "classes"}
    k = "%s.classes" % short(T)
    if not allp and not meta:
        return
    R.count("class_facets")
    paths = allp | meta
    if not R.ob(k + ":one-collection", len(paths) == 1, "class operations of %s disagree about where classes live: %s" % (short(T), sorted(map(str, paths))), bs["add_class"].where()):
        return
    p = next(iter(paths))
    for m in w:
        R.ob(k + ":" + m, p in w[m], "%s() does not edit the classes that %s reports" % (m, short(T)), bs[m].where())
    for m in reads:
        R.ob(k + ":" + m, p in reads[m], "%s() does not consult the widget's classes" % m, bs[m].where())
    R.ob(k + ":meta", p in meta, "the style metadata of %s does not carry its classes" % short(T), mb.where())
    class_matching(P, R, T, k, bs, fl)
    # add_class: on every path either something derived from the argument is pushed or it was already there
    f = fl["add_class"]
    push = {c.bb for c, a, fs in f.calls() if c.name in ("push", "insert", "extend", "extend_from_slice") and a and a[0] == ("ref", SELF, p)
            and any(from_arg(x) for x in a[1:])}
    if p in w["add_class"]:
        R.ob(k + ":add_class:adds", bool(push), "add_class never adds its argument", bs["add_class"].where())
        for bb, st, fs in post_states(f):
            for (v,), lf in joint_leaves(f, [f.read(st, I(SELF), I(p))], fs):
                if v == ("mem", SELF, p):
                    ok = any(x[0] == "is" and x[2] is True and (self_fields(x[1]) or phi_any(x[1])) for x in lf) or \
                         any(x[0] == "is" and "is_empty" in str(x[1]) for x in lf) or present_fact(lf)
                    R.ob(k + ":add_class:skips", ok, "add_class can return without adding an absent class", bs["add_class"].where())
    f = fl["remove_class"]
    if p in w["remove_class"]:
        rm = [c for c, a, fs in f.calls() if c.name in ("retain", "remove", "swap_remove", "drain", "retain_mut", "clear", "truncate") and a and a[0] == ("ref", SELF, p)]
        asg = any(True for (bb, i), (r, cs, v) in f.stmt_vals.items() if r == SELF and cs == p)
        R.ob(k + ":remove_class:removes", bool(rm) or asg, "remove_class never removes anything", bs["remove_class"].where())
        for c in rm:
            if c.name == "retain":
                clo = [x for x in P.closures_rec(f.P.bodies.get(f.b.blocks[c.bb].get("o"), f.b)) if x.locals[0][0] == "bool"]
                for cb in clo:
                    cf = flow(P, cb)
                    for v, fs in getter_leaves(cf):
                        neg = v[0] == "bin" and v[1] == "Ne" or v[0] == "un" and v[1] == "Not"
                        if v[0] in ("bin", "un"):
                            R.ob(k + ":remove_class:keeps-others", neg, "remove_class keeps the wrong classes: %s" % show(v), cb.where())


STR_PRED = {"starts_with", "ends_with", "eq_ignore_ascii_case", "find", "rfind", "matches", "strip_prefix", "strip_suffix",
            "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim_start_matches", "trim_end_matches"}


def class_matching(P, R, T, k, bs, fl):
    """classes are compared for equality with the whole name, and the removed/found one is the equal one"""
    for m in ("add_class", "remove_class", "has_class"):
        f = fl[m]
        bodies = {}
        for bb in f.b.rpo():
            o = P.bodies.get(f.b.blocks[bb].get("o"))
            if o is not None:
                bodies[o.id] = o
                for cb in P.closures_rec(o):
                    bodies[cb.id] = cb
        bodies.setdefault(bs[m].id, bs[m])
        for b in bodies.values():
            for c in b.calls():
                n = c.name
                bad = n in STR_PRED or n == "contains" and "str" in c.path and "slice" not in c.path
                if bad:
                    R.ob(k + ":" + m + ":equality", False, "%s() compares class names with %s instead of equality" % (m, n), c.where())
            if b.kind == "closure" and b.locals[0][0] == "bool":
                used = [c.name for o in bodies.values() for c in o.calls() if c.name in ("position", "any", "find", "retain", "rposition", "all", "filter")]
                keep = used and all(u in ("retain", "filter") for u in used)
                want = "Ne" if keep else "Eq"
                if used and not ("all" in used or (set(used) & {"retain", "filter"} and not keep)):
                    for v, fs in getter_leaves(flow(P, b)):
                        if v[0] == "bin" and v[1] in ("Eq", "Ne"):
                            R.ob(k + ":" + m + ":polarity", v[1] == want, "%s() selects classes by %s" % (m, show(v)), b.where())
        R.count("class_comparisons")
    for v, fs in getter_leaves(fl["has_class"]):
        if v[0] == "k" and v[1] is True:
            ok = any(x[0] == "is" and x[2] is True and (x[1][0] == "call" or x[1][0] == "bin" and x[1][1] == "Eq") or
                     x[0] == "is" and x[2] is False and x[1][0] == "bin" and x[1][1] == "Ne" or
                     x[0] == "is" and x[1][0] == "disc" and x[1][1][0] == "call" and x[1][1][1].split("::")[-1] in ("find", "position", "get")
                     for x in fs)
            R.ob(k + ":has_class:true", ok, "has_class() answers true without finding the class", bs["has_class"].where())
    sc = [c.name for bb in [0] for c, a, fs in fl["set_classes"].calls()]
    R.ob(k + ":set_classes:split", any(n in ("split_whitespace", "split_ascii_whitespace") for n in sc) or
         not any("split" in n for n in sc) , "set_classes() does not split its argument at white space", bs["set_classes"].where())


def from_arg(v):
    return any(x == ("arg", 2) for x in walk(v))


def phi_any(v):
    return v[0] in ("phi", "call")


def present_fact(lf):
    for x in lf:
        if x[0] in ("is", "not") and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne"):
            return True
        if x[0] == "is" and x[1][0] == "disc":
            return True
    return False
