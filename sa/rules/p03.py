"""P03  A change that style selection depends on leaves the widget dirty."""
from rules.common import *
from rules.p02 import SELF, subst_post, same, getter_leaves, post_states

EXEMPT = {"mark_clean", "set_style"}


def reads_of(P, T, name):
    b, _ = effective(P, T, name)
    f = flow(P, b, self_adt=T)
    out = set()
    for v, fs in getter_leaves(f):
        out |= self_fields(v)
        for x in fs:
            out |= self_fields(x)
    for c, a, fs in f.calls():
        for x in a:
            out |= self_fields(x)
    return b, {p for p in out if p}


def relevant(P, T):
    out = {}
    for m in ("get_meta", "get_state", "inline_style", "classes", "id", "is_visible", "is_loading", "is_disabled", "is_focused", "border_title", "border_subtitle"):
        for p in reads_of(P, T, m)[1]:
            out.setdefault(p, m)
    # drop paths that are prefixes of longer ones (whole sub-objects)
    keep = {}
    for p, m in out.items():
        if not any(q != p and q[:len(p)] == p for q in out):
            keep[p] = m
    return keep


def mut_methods(P, T):
    """&mut self methods of T reachable by a user of the widget: trait overrides and pub inherent ones"""
    imp = [i for i in widget_impls(P) if i["adt"] == T][0]
    for n, bid in sorted(imp["methods"].items()):
        b = P.bodies.get(bid)
        if b is not None and b.argc and b.locals[1][0].startswith("&mut "):
            yield n, b
    for b in P.fns(lambda b: b.self_adt == T and not b.of_trait and b.pub and b.kind != "closure"):
        if b.argc and b.locals[1][0].startswith("&mut ") and b.name and b.locals[1][1] == "self":
            yield b.name, b


def check(P, R):
    R.rule("for each widget type, the fields its selector metadata, state bits, id, classes and inline style are computed from "
           "are collected; every &mut operation of that type is then explored path by path: on each path that may leave one "
           "of those fields different from its entry value, is_dirty() evaluated in the final state must be true")
    nw = nm = 0
    for imp in widget_impls(P):
        T = imp["adt"]
        rel = relevant(P, T)
        db, _ = effective(P, T, "is_dirty")
        df = flow(P, db, self_adt=T)
        DL = getter_leaves(df)
        dpaths = set()
        for v, fs in DL:
            for x in [v] + [y[1] for y in fs if y[0] in ("is", "not")]:
                if x[0] == "mem" and x[1] == SELF:
                    dpaths.add(x[2])
        if not dpaths:
            # a widget with no dirty flag: it must have nothing to restyle or be always dirty
            always = all(v == ("k", True) for v, _ in DL)
            R.count("widgets_without_dirty_flag")
            R.ob("%s:is_dirty" % short(T), always or not rel or not has_setters(P, T, rel),
                 "%s has style-relevant state but never reports dirty" % short(T), db.where())
            continue
        nw += 1
        for n, b in mut_methods(P, T):
            if n in EXEMPT:
                continue
            f = flow(P, b, self_adt=T)
            R.fn(b)
            nm += 1
            for bb, st, fs in post_states(f):
                paths = sorted(rel, key=str)
                vals = {p: f.read(st, I(SELF), I(p)) for p in paths}
                changed = [p for p in paths if vals[p] != ("mem", SELF, p)]
                if not changed:
                    continue
                dps = sorted(dpaths, key=str)
                vs = [vals[p] for p in changed] + [f.read(st, I(SELF), I(p)) for p in dps]
                for lv, lf in joint_leaves(f, vs, fs):
                    diff = [p for p, v in zip(changed, lv) if not unchanged(v, p, lf)]
                    if not diff:
                        continue
                    R.count("changing_paths")
                    st2 = dict(st)
                    for p, v in zip(changed + dps, lv):
                        f.write(st2, I(SELF), I(p), v)
                    ok = any(subst_post(f, st2, v) == ("k", True) for v, _ in DL) and \
                        all(subst_post(f, st2, v) == ("k", True) or infeasible(f, st2, gfs, lf) for v, gfs in DL)
                    R.ob("%s.%s:%s" % (short(T), n, ".".join(map(str, diff[0]))), ok,
                         "%s::%s can change %s (read by %s) and return with the widget clean" % (short(T), n, ".".join(map(str, diff[0])), rel[diff[0]]), b.where())
    R.floor("widgets", nw, 25, "widgets with a dirty flag")
    R.floor("methods", nm, 250, "mutating widget operations")


def infeasible(f, st, gfs, lf):
    for x in gfs:
        y = subst_post(f, st, x)
        if y[0] in ("is", "not") and y[1][0] == "k" and ((y[1][1] == y[2]) == (y[0] == "is")) is False:
            return True
        if contradicts(y, lf):
            return True
    return False


def unchanged(v, p, facts):
    m = I(("mem", SELF, p))
    if v == m:
        return True
    return same(v, m, facts)


def has_setters(P, T, rel):
    for n, b in mut_methods(P, T):
        if n in EXEMPT:
            continue
        f = flow(P, b, self_adt=T)
        for bb, st, fs in post_states(f):
            for p in rel:
                for (v,), lf in joint_leaves(f, [f.read(st, I(SELF), I(p))], fs):
                    if not unchanged(v, p, lf):
                        return True
    return False
