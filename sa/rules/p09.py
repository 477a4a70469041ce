"""P09  Every way of reaching a widget's children reaches the same children."""
import re
from rules.tree import *


def kind_each(f):
    d = delegate(f, "for_each_child", 2)
    if d is not None:
        return ("in", d), ""
    o, why = covers(f, "()", 1)
    if o is not None and self_coll(o):
        return ("own", o[2]), ""
    if not any(c.name in ("call_mut", "call", "call_once", "for_each_child", "next") for c, a, fs in f.calls()):
        return None, ""
    return "?", why


def kind_count(f):
    d = delegate(f, "child_count", 1)
    if d is not None:
        return ("in", d), ""
    ks = set()
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            if x[0] == "call" and last(x) == "len" and x[2][0][0] == "ref" and x[2][0][1] == ("D", ("arg", 1)):
                ks.add(("own", x[2][0][2]))
            elif x == ("k", 0):
                ks.add(None)
            else:
                return "?", "it counts %s" % show(x)[:100]
    if len(ks) == 1:
        return ks.pop(), ""
    return "?", "it counts %s" % sorted(map(str, ks))


def kind_get(f):
    d = delegate(f, "get_child_mut", 2)
    if d is not None:
        return ("in", d), ""
    coll, none = set(), []
    ps = paths(f)
    if ps is None:
        return "?", "too many paths"
    for p in ps:
        v = unwrap_map(p.ret())
        if v[0] == "agg" and v[2] == "Some":
            ch = child(v[3][0][1])
            if ch is None or ch[0] != "at" or ch[2] != ("arg", 2) or not self_coll(ch[1]):
                return "?", "it yields %s" % show(v)[:120]
            coll.add(("own", ch[1][2]))
        elif v[0] == "agg" and v[2] == "None":
            none.append(p)
        elif v[0] == "call" and last(v) in ("get_mut", "get") and v[2][1] == ("arg", 2) and v[2][0][0] == "ref" and v[2][0][1] == ("D", ("arg", 1)):
            coll.add(("own", v[2][0][2]))
        else:
            return "?", "it yields %s" % show(v)[:120]
    if not coll:
        return None, ""
    if len(coll) > 1:
        return "?", "it looks into %s" % sorted(map(str, coll))
    k = next(iter(coll))
    ref = I(("ref", ("D", ("arg", 1)), k[1]))
    for p in none:
        ok = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and last(x[1][1]) in ("get_mut", "get") for x in p.facts)
        for x in p.facts:
            if x[0] == "is" and x[1][0] == "bin":
                for y in (x[1][2], x[1][3]):
                    if y[0] == "call" and last(y) == "len" and y[2][0] == ref and lt(p.facts, ("arg", 2), y, False):
                        ok = True
        if not ok:
            return "?", "it denies a child when %s" % "; ".join(show_facts(p.facts))[:160]
    return k, ""


def unwrap_map(v):
    """x.map(|c| c.as_mut()) is x with the pointer re-borrowed"""
    return v


def is_single(P, adt, field):
    """is the collection in this field always built with exactly one element and never resized?"""
    n = 0
    for b in P.fns(crate="textual"):
        for blk in b.blocks:
            for s in blk.get("s", []):
                if '"%s"' % adt in str(s).replace("'", '"') and "agg" in str(s):
                    n += 1
                    if not any("; 1]" in l[0] for l in b.locals):
                        return False
        if b.self_adt == adt:
            f = flow(P, b, w_inline, key="tree")
            for c, a, fs in f.calls():
                if c.name in ("push", "insert", "extend", "append", "pop", "clear", "remove", "truncate", "drain") and a and a[0] == ("ref", ("D", ("arg", 1)), field):
                    return False
    return n > 0


def single_op(f, name, argc):
    """the collection whose element 0 receives the call on every path"""
    for c, a, fs in f.calls():
        if is_op(c, a, name, argc, lambda v: (child(v) or (0, 0, 0))[0] == "at" and child(v)[2] == ("k", 0)):
            ps = paths(f)
            if ps is not None and all(c.bb in p.blocks for p in ps):
                return child(a[0])[1]
    return None


KINDS = [("for_each_child", kind_each), ("child_count", kind_count), ("get_child_mut", kind_get)]


def kinds(P, T):
    out = {}
    for m, fn in KINDS:
        b = P.trait_impl_method(W, T, m)
        if b is None:
            out[m] = (None, None, "")
        else:
            f = flow(P, b, w_inline, key="tree")
            k, why = fn(f)
            out[m] = (b, k, why)
    return out


def check(P, R):
    R.rule("per widget type: for_each_child calls its argument once on every element of one collection, in order, without leaving early (or hands over to one "
           "inner widget); child_count is that collection's length and get_child_mut(i) its i-th element, None exactly past the end (or the same inner "
           "widget's); on_resize, clear_focus and clear_hover of a widget that owns children reach every one of them")
    own = inn = 0
    for i in widget_impls(P):
        T = i["adt"]
        s = short(T)
        ks = kinds(P, T)
        if all(b is None for b, _, _ in ks.values()):
            continue
        for m, (b, k, why) in ks.items():
            if b is not None:
                R.fn(b)
                R.ob("%s:%s" % (s, m), k != "?", "%s.%s: %s" % (s, m, why), b.where())
        e, c, g = (ks[m][1] for m, _ in KINDS)
        w = next(b for b, _, _ in ks.values() if b is not None).where()
        if "?" in (e, c, g):
            continue
        if c is not None or g is not None:
            R.ob("%s:agree" % s, e == c == g, "%s: for_each_child reaches %s, child_count counts %s, get_child_mut looks into %s" % (s, kn(e), kn(c), kn(g)), w)
        if e is None:
            continue
        if e[0] == "in":
            inn += 1
        else:
            own += 1
            for m, n in (("on_resize", 2), ("clear_focus", 1), ("clear_hover", 1)):
                b = P.trait_impl_method(W, T, m)
                if not R.ob("%s:%s:defined" % (s, m), b is not None, "%s does not pass %s on to its children" % (s, m), w):
                    continue
                R.fn(b)
                f = flow(P, b, w_inline, key="tree")
                o, why = covers(f, m, n)
                if o is None:
                    o1 = single_op(f, m, n)
                    if o1 is not None and is_single(P, T, o1[2]):
                        o = o1
                R.ob("%s:%s" % (s, m), o is not None and self_coll(o) and o[2] == e[1], "%s.%s does not reach every child: %s" % (s, m, why or show_o(o)), b.where())
    R.floor("owners", own, 8, "widget types that own children")
    R.floor("delegators", inn, 10, "widget types that hand over to an inner widget")


def show_o(o):
    return "it runs over %s" % (o,)


def kn(k):
    if k is None:
        return "nothing"
    return ("self.%s" if k[0] == "own" else "the children of self.%s") % ".".join(map(str, k[1]))
