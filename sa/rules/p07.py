"""P07  Everything that deals with keyboard focus agrees on which widgets can have it and in what order."""
from rules.tree import *
from rules.p09 import kinds, is_single

SELF = I(("arg", 1))
P_ = "participates_in_layout"


def meth(P, T, m):
    b = P.trait_impl_method(W, T, m)
    return (b, flow(P, b, w_inline, key="tree")) if b is not None else (None, None)


def const_false(P, T):
    b, f = meth(P, T, "is_focusable")
    if b is None:
        return True
    return all(v == ("k", False) for bb, v, fs in f.ret_values())


def ret_bool(f):
    """the value a pure predicate returns, when it is one expression"""
    vs = {v for bb, v, fs in f.ret_values()}
    return vs.pop() if len(vs) == 1 else None


class Focusable:
    """does a fact set say that self is focusable / not?"""

    def __init__(self, P, T):
        self.yes, self.no = [], []
        b, f = meth(P, T, "is_focusable")
        if b is not None:
            for p in paths(f) or []:
                v = p.ret()
                if v == ("k", True):
                    self.yes.append(p.facts)
                elif v == ("k", False):
                    self.no.append(p.facts)
                else:
                    a, c, q = norm_fact(v, True, True, "bool")
                    self.yes.append(p.facts | {I(("is" if q else "not", a, c))})
                    a, c, q = norm_fact(v, False, True, "bool")
                    self.no.append(p.facts | {I(("is" if q else "not", a, c))})

    def says(self, fs, val):
        if says(fs, "is_focusable", lambda v: ptr(v) == SELF, val):
            return True
        return any(x and x <= fs for x in (self.yes if val else self.no))


def check(P, R):
    R.rule("per widget type, count_focusable is the sum of the counts of exactly the participating children (or one when the widget itself is focusable), and "
           "focus_nth hands n minus the counts of the earlier participating children to the child it falls in; the tree's search for the focus path and for a "
           "focusable id descend in the same order into the same children; changing focus clears it everywhere first, then focuses, then recomputes the path")
    n = {"own": 0, "in": 0, "self": 0}
    for i in widget_impls(P):
        n[widget(P, R, i["adt"])] += 1
    R.floor("owners", n["own"], 8, "widget types that sum over their children")
    R.floor("delegators", n["in"], 7, "widget types that hand focus over to an inner widget")
    R.floor("leaves", n["self"], 8, "widget types that take focus themselves or not at all")
    tree(P, R)


def widget(P, R, T):
    s = short(T)
    ks = kinds(P, T)
    k = ks["child_count"][1]
    cb, cf = meth(P, T, "count_focusable")
    fb, ff = meth(P, T, "focus_nth")
    if k is not None and k != "?" and k[0] == "own":
        w = ks["child_count"][0].where()
        if not R.ob(s + ":focus:defined", cb is not None and fb is not None, "%s owns children but does not pass focus on to them" % s, w):
            return "own"
        R.fn(cb)
        R.fn(fb)
        R.ob(s + ":focusable", const_false(P, T), "%s owns children and is focusable itself, but counts only its children" % s, w)
        ok, why = sums(P, T, cf, k[1])
        R.ob(s + ":count", ok, "%s.count_focusable: %s" % (s, why), cb.where())
        ok, why = nth(P, T, ff, k[1])
        R.ob(s + ":nth", ok, "%s.focus_nth: %s" % (s, why), fb.where())
        return "own"
    if k is not None and k != "?" and k[0] == "in" and cb is not None and delegate(cf, "count_focusable", 1) is not None:
        R.fn(cb)
        for m, n in (("count_focusable", 1), ("focus_nth", 2), ("is_focusable", 1), ("clear_focus", 1)):
            b, f = meth(P, T, m)
            R.ob("%s:%s" % (s, m), b is not None and delegate(f, m, n) == k[1], "%s.%s does not hand over to self.%s as its children do" % (s, m, ".".join(map(str, k[1]))),
                 (b or cb).where())
        return "in"
    # the widget takes focus itself, as a whole
    F = Focusable(P, T)
    none = const_false(P, T)
    if cb is not None:
        R.fn(cb)
        ok, why = own_count(P, cf, F, none)
        R.ob(s + ":count", ok, "%s.count_focusable: %s" % (s, why), cb.where())
    if fb is not None:
        R.fn(fb)
        ok, why = own_nth(P, ff, F, none)
        R.ob(s + ":nth", ok, "%s.focus_nth: %s" % (s, why), fb.where())
    b, f = meth(P, T, "clear_focus")
    if b is not None and not none:
        R.fn(b)
        ps = paths(f) or []
        ok = ps and all(any(c.name == "set_focus" and ptr(a[0]) == SELF and a[1] == ("k", False) for c, a in p.calls()) for p in ps) or clears_field(P, T, f)
        R.ob(s + ":clear", bool(ok), "%s.clear_focus does not always take the focus away" % s, b.where())
    if k is not None and k != "?" and addressable(P, T):
        # its parts are reachable from outside: it must count as a whole whenever it takes part in layout
        ib, f1 = meth(P, T, "is_focusable")
        vb, f2 = meth(P, T, "is_visible")
        ok = ib is not None and vb is not None and ret_bool(f1) is not None and ret_bool(f1) == ret_bool(f2)
        R.ob(s + ":whole", ok, "%s has parts that can be reached, but is not always focusable as a whole when visible" % s, (ib or cb or ks["child_count"][0]).where())
    return "self"


def clears_field(P, T, f):
    """clear_focus writes the flag is_focused reads"""
    b, g = meth(P, T, "is_focused")
    if b is None:
        return False
    v = ret_bool(g)
    if v is None or v[0] != "mem" or v[1] != ("D", SELF):
        return False
    for bb, _, fs in f.ret_values():
        x = f.read(f.outstate[bb], v[1], v[2])
        for (y,), lf in joint_leaves(f, [x], fs):
            if y != ("k", False) and I(("is", v, False)) not in lf:
                return False
    return True


def addressable(P, T, d=0):
    k = kinds(P, T)["child_count"][1]
    if k is None or d > 4:
        return False
    if k[0] == "own":
        return True
    t = field_ty(P, T, k[1])
    if t is None:
        return True
    return addressable(P, t, d + 1)


def field_ty(P, T, path):
    for n in path:
        a = P.adts.get(T)
        t = None
        if a is None:
            return None
        for x in a["variants"][0][1]:
            if x[0] == n:
                t = x[1]
        if t is None:
            return None
        T = re.sub(r"<.*$", "", str(t))
    return T if T in P.adts else None


def own_count(P, f, F, none):
    for p in paths(f) or []:
        v = p.ret()
        if v == ("k", 0):
            if not none and not F.says(p.facts, False):
                return False, "it is 0 although the widget may be focusable"
        elif v == ("k", 1):
            if not F.says(p.facts, True):
                return False, "it is 1 although the widget may not be focusable"
        elif v[0] == "cast" or v[0] == "call" and last(v) == "from":
            if not any(x and x[0] == "call" and last(x) == "is_focusable" and ptr(x[2][0]) == SELF for x in walk(v)):
                return False, "it is %s" % show(v)[:100]
        else:
            return False, "it is %s" % show(v)[:100]
    return True, ""


def own_nth(P, f, F, none):
    for p in paths(f) or []:
        v = p.ret()
        focused = [a for c, a in p.calls() if c.name == "set_focus" and ptr(a[0]) == SELF and a[1] == ("k", True)]
        zero = I(("is", ("arg", 2), 0)) in p.facts
        nz = I(("not", ("arg", 2), 0)) in p.facts
        if v == ("k", True):
            if not focused or not zero or not F.says(p.facts, True):
                return False, "it accepts focus when %s" % ("; ".join(show_facts(p.facts))[:120] or "asked")
        elif v == ("k", False):
            if focused:
                return False, "it takes focus but reports that it did not"
            if not (none or nz or F.says(p.facts, False)):
                return False, "it refuses focus when %s" % "; ".join(show_facts(p.facts))[:120]
        else:
            return False, "it returns %s" % show(v)[:100]
    return True, ""


def me(lp):
    return lambda v: in_loop(child(v), lp)


def loop_over(f, field):
    for lp in loops(f):
        o = owner(lp)
        if self_coll(o) and o[2] == field:
            return lp
    return None


def count_of(v, recv):
    return bool(v) and v[0] == "call" and len(v) == 4 and last(v) == "count_focusable" and recv(v[2][0])


def sums(P, T, f, field):
    lp = loop_over(f, field)
    if lp is None:
        return single(P, T, f, field, "count_focusable", ("k", 0), 1)
    phi = None
    for p in lp.ends():
        v = p.ret()
        if v[0] != "phi" or v[1] != lp.hdr or phi not in (None, v):
            return False, "it returns %s" % show(v)[:100]
        phi = v
    if phi is None:
        return False, "it never ends"
    for p in paths(f, 0, {lp.hdr}) or []:
        if p.end == "return" or p.after(phi) != ("k", 0):
            return False, "it starts from %s" % (show(p.after(phi))[:80] if p.end != "return" else "a return")
    for p in lp.iters():
        if p.end != "stop":
            return False, "it stops before the last child"
        v = p.after(phi)
        if v == phi:
            if not says(p.facts, P_, me(lp), False) and not any(x[0] == "is" and x[2] == 0 and count_of(x[1], me(lp)) for x in p.facts):
                return False, "it leaves out a child when %s" % facts_of(p)
        elif v[0] == "bin" and v[1] == "Add" and (v[2] == phi and count_of(v[3], me(lp)) or v[3] == phi and count_of(v[2], me(lp))):
            if not says(p.facts, P_, me(lp), True):
                return False, "it counts a child without asking whether it takes part in layout"
        else:
            return False, "it adds up %s" % show(v)[:120]
    return True, ""


def facts_of(p):
    return ("; ".join(sorted(s for s in show_facts(p.facts) if not s.startswith("disc(next("))) or "in some case")[:160]


def first_child(field):
    return lambda v: (child(v) or (0,))[0] == "at" and child(v)[1] == ("coll", ("D", SELF), field) and child(v)[2] == ("k", 0)


def single(P, T, f, field, name, none, argc):
    if not is_single(P, T, field):
        return False, "it does not run over all children"
    rc = first_child(field)
    for p in paths(f) or []:
        v = p.ret()
        if v == none:
            if not says(p.facts, P_, rc, False):
                return False, "its child is left out when %s" % facts_of(p)
        elif v[0] == "call" and last(v) == name and rc(v[2][0]) and all(v[2][i] == ("arg", i + 1) for i in range(1, argc)):
            if not says(p.facts, P_, rc, True):
                return False, "its child is used without asking whether it takes part in layout"
        else:
            return False, "it returns %s" % show(v)[:100]
    return True, ""


def nth(P, T, f, field):
    lp = loop_over(f, field)
    if lp is None:
        return single(P, T, f, field, "focus_nth", ("k", False), 2)
    rc = me(lp)
    phi = None
    hits = 0
    for p in lp.iters():
        for c, a in p.calls():
            if c.name == "focus_nth":
                if a[1][0] == "phi" and a[1][1] == lp.hdr and phi in (None, a[1]) and rc(a[0]):
                    phi = a[1]
                    hits += 1
                else:
                    return False, "it asks %s for number %s" % (show(a[0])[:80], show(a[1])[:80])
    if phi is None:
        return False, "it never passes focus on"
    for p in paths(f, 0, {lp.hdr}) or []:
        if p.end == "return" or p.after(phi) != ("arg", 2):
            return False, "it does not start from the number asked for"
    for p in lp.iters():
        called = [(c, a) for c, a in p.calls() if c.name == "focus_nth"]
        tried = any(x[0] == "is" and x[2] is False and x[1][0] == "call" and last(x[1]) == "focus_nth" and rc(x[1][2][0]) for x in p.facts)
        cnts = {y for x in p.facts for y in walk(x) if count_of(y, rc)}
        inside = any(lt(p.facts, phi, y, True) for y in cnts)
        past = any(lt(p.facts, phi, y, False) for y in cnts) or tried
        if p.end == "stop":
            v = p.after(phi)
            if v == phi:
                if not says(p.facts, P_, rc, False) and not any(x[0] == "is" and x[2] == 0 and count_of(x[1], rc) for x in p.facts):
                    return False, "a child is passed over uncounted when %s" % facts_of(p)
                if called:
                    return False, "a child is asked and then passed over uncounted"
            elif v[0] == "bin" and v[1] == "Sub" and v[2] == phi and count_of(v[3], rc):
                if not past or not says(p.facts, P_, rc, True):
                    return False, "a child is passed over when %s" % facts_of(p)
            else:
                return False, "it goes on with number %s" % show(v)[:120]
        elif p.end == "return":
            v = p.ret()
            if len(called) != 1 or not says(p.facts, P_, rc, True):
                return False, "it stops at a child when %s" % facts_of(p)
            if not (inside or any(x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "focus_nth" for x in p.facts)):
                return False, "it stops at a child without knowing that the number falls in it"
            if not (v == ("k", True) and not inside or v[0] == "call" and last(v) == "focus_nth" or v == ("k", True) and any(
                    x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "focus_nth" for x in p.facts)):
                return False, "it returns %s" % show(v)[:80]
        else:
            return False, "it loops"
    for p in lp.ends():
        if p.ret() != ("k", False):
            return False, "it reports success without a child"
    return True, ""


# ---------------------------------------------------------------- the tree

def tree(P, R):
    tys = [p for p in P.adts if p.endswith("::WidgetTree")]
    if not R.ob("tree:type", len(tys) == 1, "no WidgetTree type"):
        return
    T = tys[0]
    ms = {b.path.split("::")[-1]: b for b in P.fns(crate="textual") if b.self_adt == T and b.kind != "closure"}
    for m in ("set_focus_index", "update_focus", "focus_next", "focus_previous", "focus_by_id"):
        if not R.ob("tree:" + m, m in ms, "WidgetTree has no %s" % m):
            return
    rec = recursives(P)
    root = a_field(P, T, "Widget")
    fp = a_field(P, T, "FocusPath") or a_field(P, T, "Vec<usize>")
    if not R.ob("tree:fields", root is not None and fp is not None, "WidgetTree has no root or focus path"):
        return
    ROOT = lambda v: ptr(v) in (("ref", ("D", SELF), (root,)), ("mem", ("D", SELF), (root,)))
    inl = lambda c, cb: w_inline(c, cb) and cb.id not in rec
    FPREF = lambda v: v[0] == "ref" and v[1] == ("D", SELF) and v[2][:1] == (fp,)
    # update_focus
    b = ms["update_focus"]
    R.fn(b)
    f = flow(P, b, inl, key="foc")
    finders = update_rule(R, f, "update", ROOT, FPREF, rec, b, lambda p: True, ("arg", 2))
    # set_focus_index
    b = ms["set_focus_index"]
    R.fn(b)
    f = flow(P, b, inl, key="foc")
    cnt = lambda v: bool(v) and v[0] == "call" and len(v) == 4 and last(v) == "count_focusable" and ROOT(v[2][0])
    for p in paths(f) or []:
        v = told(p)
        cs = list(p.calls())
        fn = [(i, a) for i, (c, a) in enumerate(cs) if c.name == "focus_nth"]
        cl = [i for i, (c, a) in enumerate(cs) if c.name == "clear_focus" and ROOT(a[0])]
        for i, a in fn:
            R.ob("set:clear", any(j < i for j in cl), "focus is given before it is taken from every other widget", b.where())
            R.ob("set:nth", ROOT(a[0]) and a[1] == ("arg", 2), "focus is given to number %s of %s" % (show(a[1])[:60], show(a[0])[:60]), b.where())
        if v == ("k", True):
            got = any(x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "focus_nth" for x in p.facts)
            R.ob("set:true", bool(fn) and got, "success is reported without any widget having taken focus", b.where())
        elif v == ("k", False):
            over = any(lt(p.facts, ("arg", 2), y, False) for x in p.facts for y in walk(x) if cnt(y))
            zero = any(x[0] == "is" and x[2] == 0 and cnt(x[1]) for x in p.facts)
            refused = any(x[0] == "is" and x[2] is False and x[1][0] == "call" and last(x[1]) == "focus_nth" for x in p.facts)
            R.ob("set:false", over or zero or refused, "a focus change is refused when %s" % "; ".join(show_facts(p.facts))[:160], b.where())
            if zero and not over:
                R.ob("set:none", bool(cl) and path_cleared(cs, FPREF), "with nothing focusable, focus or the focus path is left behind", b.where())
        else:
            R.ob("set:ret", False, "it returns %s" % show(v)[:100], b.where())
    finders |= update_rule(R, f, "set", ROOT, FPREF, rec, b, lambda p: told(p) == ("k", True), ("arg", 2))
    if R.ob("tree:finder", len(finders) == 1, "the focus path is not found by one recursive search: %s" % sorted(finders), b.where()):
        fb = P.bodies[next(iter(finders))]
        R.fn(fb)
        finder(P, R, fb)
    # next / previous
    for m, op in (("focus_next", "Add"), ("focus_previous", "Sub")):
        b = ms[m]
        R.fn(b)
        f = flow(P, b, lambda c, cb: inl(c, cb) and cb.id != ms["set_focus_index"].id, key="focstep")
        step(P, R, m, op, f, b, cnt, ms["set_focus_index"])
    # by id
    b = ms["focus_by_id"]
    R.fn(b)
    f = flow(P, b, lambda c, cb: inl(c, cb) and cb.id != ms["set_focus_index"].id, key="focstep")
    ids = set()
    for p in paths(f) or []:
        cs = list(p.calls())
        se = [a for c, a in cs if c.callee_id == ms["set_focus_index"].id]
        for c, a in cs:
            if c.callee_id in rec:
                ids.add(c.callee_id)
                ok = ROOT(a[0]) and any(x == ("arg", 2) for x in a) and any(f.at(c.bb, x) == ("k", 0) for x in f.call_info[c.bb] if x[0] == "ref")
                R.ob("byid:search", ok, "the search for the id does not start at the root with number 0", b.where())
        v = p.ret()
        if se:
            x = se[0][1]
            R.ob("byid:set", x[0] == "f" and x[2] == "Some.0" and x[1][0] == "call" and any(P.bodies[r].path == x[1][1] for r in ids), "number %s is focused" % show(x)[:80], b.where())
            R.ob("byid:ret", v[0] == "call" and last(v) == "set_focus_index" or v in (("k", True), ("k", False)), "it returns %s" % show(v)[:80], b.where())
        else:
            R.ob("byid:miss", v == ("k", False) and any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" for x in p.facts), "focusing by id gives up when %s" % "; ".join(show_facts(p.facts))[:100], b.where())
    if R.ob("tree:idfinder", len(ids) == 1, "the id is not found by one recursive search", b.where()):
        fb = P.bodies[next(iter(ids))]
        R.fn(fb)
        idfinder(P, R, fb)


def a_field(P, T, ty):
    for x in P.adts[T]["variants"][0][1]:
        if ty in str(x[1]):
            return x[0]
    return None


def recursives(P):
    """functions over a widget that call themselves on a child"""
    out = set()
    for b in P.fns(crate="textual"):
        if b.kind != "closure" and b.argc >= 1 and "dyn" in b.locals[1][0] and "Widget<" in b.locals[1][0] and any(c.callee_id == b.id for x in [b] + list(P.closures_rec(b)) for c in x.calls()):
            out.add(b.id)
    return out


def told(p):
    """the value returned, where the path has already tested it"""
    v = p.ret()
    for x in p.facts:
        if x[0] == "is" and x[1] == v and isinstance(x[2], bool):
            return I(("k", x[2]))
    return v


def path_cleared(cs, FPREF):
    return any(c.name in ("clear",) and a and FPREF(a[0]) for c, a in cs)


def update_rule(R, f, key, ROOT, FPREF, rec, b, when, want):
    finders = set()
    bad = None
    ps = paths(f)
    for p in ps or []:
        if not when(p):
            continue
        cs = list(p.calls())
        hit = None
        for i, (c, a) in enumerate(cs):
            if c.callee_id in rec and any(FPREF(x) for x in a):
                # the root, possibly re-borrowed from its box after a call that had it
                again = a[0][0] == "clob" and i and cs[i - 1][0].name in ("as_mut", "deref_mut") and ROOT(cs[i - 1][1][0])
                if ROOT(a[0]) or again:
                    hit = (i, c, a)
        if hit is None:
            bad = "the focus path is not looked up again"
            continue
        i, c, a = hit
        finders.add(c.callee_id)
        if not path_cleared(cs[:i], FPREF):
            bad = "the old focus path is not cleared first"
        nums = [x for x in f.call_info[c.bb] if x[0] == "ref" and x[1][0] == "L"]
        if not nums or not all(p.val(f.at(c.bb, x), p.blocks.index(c.bb)) == want for x in nums):
            bad = "the path is looked up for number %s" % (show(f.at(c.bb, nums[0]))[:80] if nums else "?")
        end = f.outstate[p.blocks[-1]]
        fld = [n for n in idx_fields(f)]
        for n in fld:
            x = p.val(f.read(end, ("D", SELF), (n,)))
            if x != want:
                bad = "afterwards %s is %s" % (n, show(x)[:80])
    R.ob(key + ":path", bad is None and finders, bad or "the focus path is never looked up", b.where())
    return finders


def idx_fields(f):
    a = f.P.adts.get(re.sub(r"<.*$", "", f.b.locals[1][0].lstrip("&").replace("mut ", "")))
    for x in a["variants"][0][1] if a else []:
        if str(x[1]) == "usize":
            yield x[0]


def bounded(v, cnt, fs):
    if v[0] == "bin" and v[1] == "Rem" and cnt(v[3]):
        return True
    if v[0] == "bin" and v[1] == "Sub" and cnt(v[2]) and v[3] == ("k", 1):
        return True
    if v[0] == "call" and last(v) == "min":
        return any(bounded(x, cnt, fs) for x in v[2])
    return any(lt(fs, v, y, True) for x in fs for y in walk(x) if cnt(y))


def step(P, R, m, op, f, b, cnt, setter):
    idx = next(iter(idx_fields(f)), None)
    cur = I(("mem", ("D", SELF), (idx,)))
    n = 0
    for p in paths(f) or []:
        zero = any(x[0] == "is" and x[2] == 0 and cnt(x[1]) for x in p.facts)
        se = [a for c, a in p.calls() if c.callee_id == setter.id]
        if not se:
            R.ob(m + ":none", zero and p.ret()[0] == "agg" and p.ret()[2] == "None", "%s does nothing when %s" % (m, "; ".join(show_facts(p.facts))[:120]), b.where())
            continue
        n += 1
        x = se[0][1]
        if m == "focus_next":
            nx = I(("bin", "Add", cur, ("k", 1)))
            last_ = any(lt(p.facts, nx, y, False) or I(("is", ("bin", "Eq", nx, y), True)) in p.facts or I(("is", ("bin", "Eq", y, nx), True)) in p.facts
                        for z in p.facts for y in walk(z) if cnt(y))
            if x == ("k", 0):
                R.ob(m + ":step", last_, "focus_next goes back to the first widget when %s" % "; ".join(show_facts(p.facts))[:120], b.where())
                continue
            ok = x[0] == "bin" and x[1] == "Rem" and x[2] == nx and cnt(x[3]) or x == nx and any(lt(p.facts, nx, y, True) for z in p.facts for y in walk(z) if cnt(y))
            R.ob(m + ":step", ok, "focus_next moves from the current number to %s" % show(x)[:120], b.where())
            continue
        R.ob(m + ":range", bounded(x, cnt, p.facts), "%s moves to number %s, which may not exist" % (m, show(x)[:120]), b.where())
        at0 = I(("is", cur, 0)) in p.facts
        if m == "focus_previous" and at0:
            ok = x[0] == "bin" and x[1] in ("Sub", "Rem")
        else:
            ok = any(y and y[0] == "bin" and y[1] == op and y[3] == ("k", 1) and any(z == cur for z in walk(y)) for y in walk(x)) or \
                op == "Sub" and any(y and y[0] == "bin" and y[1] == "Sub" and y[3] == ("k", 1) for y in walk(x)) and any(z == cur for z in walk(x))
        R.ob(m + ":step", ok, "%s moves from the current number to %s" % (m, show(x)[:120]), b.where())
        v = p.ret()
        if v[0] == "agg" and v[2] == "Some":
            R.ob(m + ":ret", p.val(v[3][0][1]) == x, "%s reports number %s" % (m, show(v[3][0][1])[:80]), b.where())
    R.ob(m + ":moves", n > 0, "%s never moves focus" % m, b.where())


def rec_paths(P, b):
    f = flow(P, b, lambda c, cb: w_inline(c, cb) and cb.id != b.id, key="rec")
    lps = [lp for lp in loops(f) if lp.coll() == ("count", SELF) or lp.coll() is not None and lp.coll()[0] == "count" and ptr(lp.coll()[1]) == SELF]
    return f, lps[0] if len(lps) == 1 else None


def num_arg(b):
    for i in range(1, b.argc + 1):
        if b.locals[i][0] == "&mut usize":
            return i
    return None


def finder(P, R, b):
    f, lp = rec_paths(P, b)
    w = b.where()
    ni = num_arg(b)
    if not R.ob("finder:loop", lp is not None and ni is not None, "the focus path search does not run over all children by index", w):
        return
    N = I(("mem", ("D", ("arg", ni)), ()))
    foc = lambda fs, v: says(fs, "is_focusable", lambda x: ptr(x) == SELF, v)
    pi = [i for i in range(1, b.argc + 1) if i not in (1, ni)]
    STK = lambda v: v[0] == "ref" and v[1][0] == "D" and v[1][1] in [("arg", i) for i in pi]
    whole = lambda fs: any(x[0] == "is" and x[2] == 1 and x[1][0] == "call" and last(x[1]) == "count_focusable" and ptr(x[1][2][0]) == SELF for x in fs)
    for p in paths(f, 0, {lp.hdr}) or []:
        z, nz = I(("is", N, 0)) in p.facts, I(("not", N, 0)) in p.facts
        left = p.val(f.read(f.outstate[p.blocks[-2] if p.end == "stop" else p.blocks[-1]], ("D", ("arg", ni)), ()))
        R.ob("finder:stack0", not any(c.name in ("push", "pop", "clear", "truncate") and a and STK(a[0]) for c, a in p.calls()), "the path is changed before the children are searched", w)
        if p.end == "return" and p.ret() == ("k", True):
            R.ob("finder:found", foc(p.facts, True) and z, "a widget is taken for the wanted one when %s" % facts_of(p), w)
        elif p.end == "return":
            R.ob("finder:giveup", foc(p.facts, True) and nz and whole(p.facts) and is_dec(left, N), "a subtree is not searched when %s" % facts_of(p), w)
        elif foc(p.facts, True):
            R.ob("finder:count", nz and is_dec(left, N), "a focusable widget is passed with %s left to find" % show(left)[:80], w)
        else:
            R.ob("finder:count", foc(p.facts, False) and left == N, "a widget that is not focusable is passed with %s left to find" % show(left)[:80], w)
    rc = me(lp)
    for p in lp.iters():
        cs = list(p.calls())
        r = [(i, a) for i, (c, a) in enumerate(cs) if c.callee_id == b.id]
        depth, at_rec, order = [], None, True
        for i, (c, a) in enumerate(cs):
            if c.name == "push" and a and STK(a[0]):
                depth.append(a[1])
            elif c.name == "pop" and a and STK(a[0]):
                if depth:
                    depth.pop()
                else:
                    order = False
            elif c.name in ("clear", "truncate", "insert", "remove") and a and STK(a[0]):
                order = False
            if c.callee_id == b.id:
                at_rec = list(depth)
        R.ob("finder:stack", order and (at_rec is None or at_rec == [lp.item]), "a child is searched with %s added to the path" % [show(x)[:40] for x in at_rec or []], w)
        skipped = says(p.facts, P_, rc, False) or any(x[0] == "is" and x[1][0] == "disc" and last(x[1][1]) == "get_child_mut" and x[2] == "None" for x in p.facts)
        true = any(x[0] == "is" and x[2] is True and x[1][0] == "call" and x[1][1] == b.path for x in p.facts)
        false = any(x[0] == "is" and x[2] is False and x[1][0] == "call" and x[1][1] == b.path for x in p.facts)
        if not r:
            R.ob("finder:skip", skipped and p.end == "stop" and not depth, "a child is not searched when %s" % facts_of(p), w)
            continue
        a = r[0][1]
        R.ob("finder:child", len(r) == 1 and rc(a[0]) and a[ni - 1] in (("arg", ni), ("ref", ("D", ("arg", ni)), ())), "the search goes on into %s" % show(a[0])[:100], w)
        R.ob("finder:visible", says(p.facts, P_, rc, True), "a child that takes no part in layout is searched", w)
        if p.end == "stop":
            R.ob("finder:undo", false and not depth, "after an unsuccessful search the path keeps %d entries" % len(depth), w)
        elif p.end == "return":
            R.ob("finder:keep", true and depth == [lp.item] and p.ret() == ("k", True), "after a successful search the path has %s and the result is %s" % ([show(x)[:40] for x in depth], show(p.ret())[:40]), w)
    for p in lp.ends():
        R.ob("finder:none", p.ret() == ("k", False), "success is reported without a widget", w)


def is_dec(v, N):
    return v[0] == "bin" and v[1] == "Sub" and v[2] == N and v[3] == ("k", 1)


def is_inc(v, N):
    return v[0] == "bin" and v[1] == "Add" and v[2] == N and v[3] == ("k", 1)


def idfinder(P, R, b):
    f, lp = rec_paths(P, b)
    w = b.where()
    ni = num_arg(b)
    if not R.ob("idfinder:loop", lp is not None and ni is not None, "the id search does not run over all children by index", w):
        return
    N = I(("mem", ("D", ("arg", ni)), ()))
    ID = [i for i in range(1, b.argc + 1) if i not in (1, ni)][0]
    foc = lambda fs, v: says(fs, "is_focusable", lambda x: ptr(x) == SELF, v)
    part = lambda fs, v: says(fs, P_, lambda x: ptr(x) == SELF, v)
    whole = lambda fs: any(x[0] == "is" and x[2] == 1 and x[1][0] == "call" and last(x[1]) == "count_focusable" and ptr(x[1][2][0]) == SELF for x in fs)
    rc = me(lp)
    eq = lambda fs, val: any(x[0] == "is" and x[2] is val and x[1][0] == "bin" and x[1][1] == "Eq" and any(last(y) == "id" for y in walk(x[1]) if y and y[0] == "call")
                             and any(y == ("arg", ID) for y in walk(x[1])) for x in fs)
    checked = False
    for p in paths(f, 0, {lp.hdr}) or []:
        left = p.val(f.read(f.outstate[p.blocks[-2] if p.end == "stop" else p.blocks[-1]], ("D", ("arg", ni)), ()))
        if p.end == "return":
            v = p.ret()
            if v[0] == "agg" and v[2] == "Some":
                R.ob("idfinder:found", foc(p.facts, True) and eq(p.facts, True) and p.val(v[3][0][1]) == N, "the number %s is reported when %s" % (show(v[3][0][1])[:60], facts_of(p)), w)
            else:
                ok = part(p.facts, False) and left == N or foc(p.facts, True) and whole(p.facts) and is_inc(left, N) and not eq(p.facts, True)
                R.ob("idfinder:giveup", ok, "a subtree is not searched when %s" % facts_of(p), w)
        else:
            checked = checked or part(p.facts, True)
            if foc(p.facts, True):
                R.ob("idfinder:count", is_inc(left, N) and eq(p.facts, False), "a focusable widget is passed with number %s" % show(left)[:80], w)
            else:
                R.ob("idfinder:count", foc(p.facts, False) and left == N, "a widget that is not focusable is passed with number %s" % show(left)[:80], w)
    for p in lp.iters():
        r = [a for c, a in p.calls() if c.callee_id == b.id]
        skipped = says(p.facts, P_, rc, False) or any(x[0] == "is" and x[1][0] == "disc" and last(x[1][1]) == "get_child_mut" and x[2] == "None" for x in p.facts)
        some = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and x[1][1][0] == "call" and x[1][1][1] == b.path for x in p.facts)
        none = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and x[1][1][0] == "call" and x[1][1][1] == b.path for x in p.facts)
        if not r:
            R.ob("idfinder:skip", skipped and p.end == "stop", "a child is not searched when %s" % facts_of(p), w)
            continue
        a = r[0]
        R.ob("idfinder:child", len(r) == 1 and rc(a[0]) and a[ID - 1] == ("arg", ID) and a[ni - 1] in (("arg", ni), ("ref", ("D", ("arg", ni)), ())), "the search goes on into %s" % show(a[0])[:100], w)
        R.ob("idfinder:visible", checked or says(p.facts, P_, rc, True), "a child that takes no part in layout is searched", w)
        if p.end == "stop":
            R.ob("idfinder:on", none, "the search goes on although the id was found", w)
        else:
            v = p.ret()
            ok = some and (v[0] == "call" and v[1] == b.path or v[0] == "agg" and v[2] == "Some" and any(y and y[0] == "call" and y[1] == b.path for y in walk(v)))
            R.ob("idfinder:ret", ok, "the search returns %s" % show(v)[:80], w)
    for p in lp.ends():
        v = p.ret()
        R.ob("idfinder:none", v[0] == "agg" and v[2] == "None", "a number is reported without a widget", w)
