"""P10  A scrollable area cannot be scrolled outside its content, and each scroll input moves it its own way."""
from rules.p06 import *

STATE = re.compile(r"scroll::ScrollState$")
AX = {"x": ("offset_x", "virtual_width", "viewport_width"), "y": ("offset_y", "virtual_height", "viewport_height")}
AXIS = {"offset_x": "x", "offset_y": "y"}
SIZES = ("virtual_width", "virtual_height", "viewport_width", "viewport_height")
ZERO = I(("k", 0))
AMOUNT = re.compile(r"^(?:i|u)(?:8|16|32|64|128|size)$")
KIND = {"ScrollUp": ("y", -1), "ScrollDown": ("y", 1), "ScrollLeft": ("x", -1), "ScrollRight": ("x", 1)}
KEY = {"Up": ("y", -1), "Down": ("y", 1), "Left": ("x", -1), "Right": ("x", 1), "PageUp": ("y", -1), "PageDown": ("y", 1)}
STEP = {"scroll_up": ("y", -1), "scroll_down": ("y", 1), "scroll_left": ("x", -1), "scroll_right": ("x", 1)}


def own(b):
    return bool(STATE.search(b.self_adt or ""))


def inl(c, cb):
    return w_inline(c, cb) or own(cb)


def only(c, cb):
    return own(cb)


def top(virt, view):
    return I(("call", "max", (I(("bin", "Sub", virt, view)), ZERO), None))


def inv(root):
    """what is known of a state before the operation: both offsets lie in bounds"""
    out = []
    for o, v, w in AX.values():
        m = [I(("mem", root, (n,))) for n in (o, v, w)]
        out += [ge(m[0], ZERO), ge(top(m[1], m[2]), m[0])]
    return out


def amounts(t):
    """a whole share of the visible size is not negative"""
    return t[0] in ("bin", "call") and any(y[0] == "mem" and y[2][-1:] and y[2][-1] in ("viewport_width", "viewport_height") for y in walk(t) if y) and (t[0] == "bin" and t[1] in ("Mul", "Div") and any(positive_const(y) for y in t[2:])
                                                                                                                                                       or t[0] == "call" and last(t) in ("floor", "round", "ceil", "trunc") and amounts(strip(t[2][0])))


def positive_const(y):
    y = strip(y)
    return y[0] == "k" and isinstance(y[1], (int, float)) and not isinstance(y[1], bool) and y[1] > 0


def nn(t):
    return amounts(t) or t[0] == "mem" and t[2][-1:] in (("viewport_width",), ("viewport_height",))


def prove(fs, goal, root, extra=(), nonneg=None):
    return implied(fs, goal, nonneg, tuple(inv(root)) + tuple(extra))


def ways(f, fs, *vals):
    """the values, one set for every way of merges they depend on"""
    if not any(y and y[0] == "phi" for v in vals for y in walk(v)):
        return [(vals, fs)]
    return joint_leaves(f, vals, frozenset(fs), limit=400)


def field_writes(b):
    """(block, index, field) of every statement of the body that assigns a field of a scroll state"""
    for bb, blk in enumerate(b.blocks):
        for i, s in enumerate(blk["s"]):
            if s[0] == "=":
                pr = [e for e in s[1][1] if isinstance(e, (list, tuple)) and e and e[0] == "f" and len(e) > 3 and STATE.search(str(e[3]))]
                if pr:
                    yield bb, i, pr[-1][2]


def lent(b):
    """statements that lend a single field of a scroll state for change"""
    for bb, blk in enumerate(b.blocks):
        for i, s in enumerate(blk["s"]):
            if s[0] == "=" and s[2][0] == "ref" and "mut" in str(s[2][1]).lower():
                pl = s[2][2] if len(s[2]) > 2 else None
                if pl and isinstance(pl, (list, tuple)) and len(pl) == 2 and any(isinstance(e, (list, tuple)) and e and e[0] == "f" and len(e) > 3 and STATE.search(str(e[3])) for e in pl[1]):
                    yield bb, i


def check(P, R):
    R.rule("assuming both offsets in bounds before, every method of the scroll state leaves 0 <= offset <= max(0, content - visible) on both axes (the new values, for any argument), stepping methods move by min(amount, room) in "
           "their own direction and touch nothing else; every other assignment of an offset is in bounds for the sizes the state holds at that point; wheel, key and drag inputs reach an assignment of the right axis and direction")
    ms = [b for b in P.fns(crate="textual") if own(b) and b.kind != "closure"]
    R.floor("methods", len(ms), 8, "methods of the scroll state")
    for b in ms:
        method(P, R, b)
    built(P, R)
    outside(P, R)
    inputs(P, R)


def final(f, p, comps):
    st = f.outstate.get(p.blocks[-1])
    return None if st is None else p.val(f.read(st, S1, comps))


def method(P, R, b):
    f = flow(P, b, only, key="p10m")
    R.fn(b)
    ty = b.locals[1][0] if b.argc else ""
    if not ty.startswith("&mut"):
        if b.name in ("max_scroll_x", "max_scroll_y"):
            o, v, w = AX[b.name[-1]]
            m = top(I(("mem", S1, (v,))), I(("mem", S1, (w,))))
            for p in paths(f):
                if p.end == "return":
                    x = p.ret()
                    R.ob("%s:value" % b.name, implied(p.facts, ge(x, m)) and implied(p.facts, ge(m, x)), "%s is not what the content exceeds the visible size by" % b.name, b.where())
        if b.name in ("can_scroll_x", "can_scroll_y"):
            o, v, w = (I(("mem", S1, (n,))) for n in AX[b.name[-1]])
            n = 0
            for p in paths(f):
                if p.end != "return":
                    continue
                n += 1
                x = p.ret()
                for val in (True, False):
                    if x[0] == "k" and x[1] is not val:
                        continue
                    fs = list(p.facts) + ([] if x[0] == "k" else [I(("is", x, val))])
                    R.ob("%s:%s" % (b.name, val), implied(fs, gt(v, w) if val else ge(w, v)), "%s is %s although the content is %s" % (b.name, str(val).lower(), "not larger than what is visible" if val else "larger than what is visible"), b.where())
        return
    pub = b.pub
    step = STEP.get(b.name)
    n = 0
    for p in paths(f):
        if p.end != "return":
            continue
        n += 1
        fs = p.facts
        for ax, (o, v, w) in AX.items():
            new = final(f, p, (o,))
            V, W = final(f, p, (v,)), final(f, p, (w,))
            if new is None:
                continue
            if pub or new != ("mem", S1, (o,)):
                R.ob("%s:%s:low" % (b.name, ax), prove(fs, ge(new, ZERO), S1), "%s can leave %s negative" % (b.name, o), b.where())
                R.ob("%s:%s:high" % (b.name, ax), prove(fs, ge(top(V, W), new), S1), "%s can leave %s beyond the end of the content" % (b.name, o), b.where())
            if step:
                old = I(("mem", S1, (o,)))
                if ax != step[0]:
                    R.ob("%s:other" % b.name, new == old, "%s also moves %s" % (b.name, o), b.where())
                else:
                    am = I(("arg", 2))
                    pos = (ge(am, ZERO),)
                    room = top(V, W)
                    if step[1] < 0:
                        to = I(("bin", "Sub", old, am))
                        R.ob("%s:step" % b.name, prove(fs, ge(new, to), S1, pos) and prove(fs, ge(to, new), S1, pos + (gt(new, ZERO),)), "%s does not move by the amount, or to the start when there is less room" % b.name, b.where())
                        R.ob("%s:way" % b.name, prove(fs, ge(old, new), S1, pos), "%s can move the other way" % b.name, b.where())
                    else:
                        to = I(("bin", "Add", old, am))
                        R.ob("%s:step" % b.name, prove(fs, ge(to, new), S1, pos) and prove(fs, ge(new, to), S1, pos + (gt(room, new),)), "%s does not move by the amount, or to the end when there is less room" % b.name, b.where())
                        R.ob("%s:way" % b.name, prove(fs, ge(new, old), S1, pos), "%s can move the other way" % b.name, b.where())
        if step:
            for s in SIZES:
                R.ob("%s:sizes" % b.name, final(f, p, (s,)) == ("mem", S1, (s,)), "%s changes %s" % (b.name, s), b.where())
        if b.name in ("set_viewport", "set_virtual_size") and b.argc == 3:
            names = ("viewport_width", "viewport_height") if b.name == "set_viewport" else ("virtual_width", "virtual_height")
            for i, s in enumerate(names):
                x = final(f, p, (s,))
                R.ob("%s:%s" % (b.name, s), x is not None and strip_max(x) == ("arg", 2 + i), "%s does not store the size given as %s" % (b.name, s), b.where())
            for s in SIZES:
                if s not in names:
                    R.ob("%s:%s" % (b.name, s), final(f, p, (s,)) == ("mem", S1, (s,)), "%s changes %s" % (b.name, s), b.where())
            for ax, (o, v, w) in AX.items():
                old, new = I(("mem", S1, (o,))), final(f, p, (o,))
                room = top(final(f, p, (v,)), final(f, p, (w,)))
                R.ob("%s:%s:keep" % (b.name, o), prove(fs, ge(old, new), S1) and prove(fs, ge(new, old), S1, (ge(room, old),)), "%s moves %s although it is still in bounds" % (b.name, o), b.where())
        if b.name == "scroll_to" and b.argc == 3:
            for i, ax in ((2, "x"), (3, "y")):
                o = AX[ax][0]
                new, old = final(f, p, (o,)), I(("mem", S1, (o,)))
                some = [x for x in fs if x[0] in ("is", "not") and x[1] == ("disc", ("arg", i))]
                given = any((x[2] == "Some") == (x[0] == "is") for x in some)
                none = any((x[2] == "None") == (x[0] == "is") for x in some)
                if none:
                    R.ob("scroll_to:%s:none" % ax, new == old, "scroll_to moves %s although no position is asked for" % o, b.where())
                elif given:
                    R.ob("scroll_to:%s:some" % ax, any(y == ("f", ("arg", i), "Some.0") for y in walk(new)) or clipped(new), "scroll_to does not go to the position asked for (%s)" % o, b.where())
    R.floor(b.name, n, 1, "ways through %s" % b.name)


def clipped(v):
    return v == ZERO or v[0] == "call" and last(v) == "max"


def strip_max(v):
    """a size, possibly kept from being negative"""
    if v[0] == "call" and last(v) == "max" and len(v[2]) == 2 and ZERO in v[2]:
        return [x for x in v[2] if x != ZERO][0] if v[2] != (ZERO, ZERO) else v
    return v


def built(P, R):
    n = 0
    for b in P.fns(crate="textual"):
        if not any(s[0] == "=" and s[2][0] == "agg" and len(s[2]) > 2 and STATE.search(str(s[2][2])) for blk in b.blocks for s in blk["s"]):
            continue
        f = flow(P, b, only, key="p10m")
        seen = set()
        vals = [v for _, v, _ in f.ret_values()] + [x[2] for x in f.stmt_vals.values() if x is not None and len(x) > 2]
        for v in vals:
            for y in walk(v):
                if y and y[0] == "agg" and isinstance(y[1], str) and STATE.search(y[1]) and y not in seen:
                    seen.add(y)
                    n += 1
                    d = dict(y[3])
                    same = [x[1] for x in d.values() if x[0] == "mem"]
                    copy = len(set(same)) == 1 and all(d[k] == ("mem", same[0], (k,)) for k in d)
                    ok = copy or all(implied((), ge(d[o], ZERO)) and implied((), ge(top(d[v2], d[w]), d[o])) for o, v2, w in AX.values() if {o, v2, w} <= set(d))
                    R.ob("built:%s" % b.name, ok, "%s builds a scroll state whose position is outside its content" % b.name, b.where())
    R.floor("built", n, 1, "places that build a scroll state")


def owner_of(b):
    m = re.findall(r"(\w+)(?:<[^<>]*>)*(?: as |>::|::\w+$)", b.path)
    return m[0] if m else b.path


def outside(P, R):
    n = 0
    for b in P.fns(crate="textual"):
        if own(b):
            continue
        ws = list(field_writes(b))
        for bb, i in lent(b):
            R.ob("lent:%s" % b.name, False, "%s lends a field of a scroll state for change" % b.name, b.where())
        if not ws:
            continue
        f = flow(P, b, inl, key="tree10")
        R.fn(b)
        for bb, i, fld in field_writes(f.b):
            sv = f.stmt_vals.get((bb, i))
            if sv is None:
                continue
            root, comps, v = sv
            fs = f.infacts.get(bb, ())
            st = f.outstate.get(bb)
            pre = comps[:-1] if comps and comps[-1] == fld else comps
            if st is None:
                continue
            if fld in AXIS:
                o, vn, wn = AX[AXIS[fld]]
                V, W = f.read(st, root, pre + (vn,)), f.read(st, root, pre + (wn,))
                if own(f.origin(bb)):
                    continue        # inside a method of the state, which is looked at by itself
                n += 1
                for (v1, V1, W1), fs1 in ways(f, fs, v, V, W):
                    R.ob("write:%s:%s:low" % (b.name, o), prove(fs1, ge(v1, ZERO), root), "%s can set %s below zero" % (b.name, o), b.where())
                    R.ob("write:%s:%s:high" % (b.name, o), prove(fs1, ge(top(V1, W1), v1), root), "%s can set %s beyond the end of the content" % (b.name, o), b.where())
        for bb, i, fld in ws:
            if fld in SIZES:
                R.ob("resize:%s" % b.name, False, "%s sets %s without bringing the position back in bounds" % (b.name, fld), b.where())
    R.count("outside_writes", n)


def contains_mod(fs):
    return any(x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) in ("contains", "intersects") for x in fs)


def no_mod(fs):
    return any(x[0] == "is" and x[2] is False and x[1][0] == "call" and last(x[1]) in ("contains", "intersects") for x in fs)


def writes_state(P):
    """functions that may assign a scroll offset, with their callers"""
    hit = {b.id for b in P.fns(crate="textual") if any(fld in AXIS for _, _, fld in field_writes(b))}
    return hit


def inputs(P, R):
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.name not in ("on_mouse", "on_event", "on_mouse_with_sender"):
            continue
        adt = P.adts.get(b.self_adt or "")
        if not adt or not any("scroll::ScrollState" in f[1] for v in adt["variants"] for f in v[1]):
            continue
        f = flow(P, b, inl, key="tree10")
        R.fn(b)
        who = "%s.%s" % ((b.self_adt or "").split("::")[-1], b.name)
        got = set()
        keys = b.name == "on_event"
        opaque = False
        hit = writes_state(P)
        for c, a, fs in f.calls():
            if c.callee_id in hit or c.name in ("handle_scroll",):
                opaque = True
        for bb, i, fld in field_writes(f.b):
            sv = f.stmt_vals.get((bb, i))
            if sv is None or fld not in AXIS:
                continue
            root, comps, v = sv
            fs = f.infacts.get(bb, ())
            kinds = {x[2] for x in fs if x[0] == "is" and x[1][0] == "disc" and isinstance(x[2], str) and (x[2] in KEY or x[2] in ("Home", "End") if keys else x[2] in KIND or x[2] in ("Drag", "Moved"))}
            ax = AXIS[fld]
            old = old_of(f, bb, root, comps)
            for k in sorted(kinds):
                n += 1
                tag = "%s:%s" % (who, k)
                if k in KIND or k in KEY:
                    wax, d = (KIND if k in KIND else KEY)[k]
                    turned = k in ("ScrollUp", "ScrollDown") and ax == "x"
                    if turned:
                        R.ob(tag + ":axis", not no_mod_all(fs), "%s scrolls sideways for %s without a modifier" % (who, k), b.where())
                    else:
                        R.ob(tag + ":axis", ax == wax, "%s moves %s for %s" % (who, fld, k), b.where())
                        if k in ("ScrollUp", "ScrollDown"):
                            R.ob(tag + ":plain", not contains_mod(fs), "%s scrolls up or down for %s with a modifier that asks for sideways" % (who, k), b.where())
                    good = all(prove(fs1, ge(v1, old1) if d > 0 else ge(old1, v1), root, (), nn) for (v1, old1), fs1 in ways(f, fs, v, old))
                    R.ob(tag + ":way", good, "%s moves %s the wrong way for %s" % (who, fld, k), b.where())
                    if k not in ("PageUp", "PageDown"):     # a page of a very small area may round to nothing
                        strict = implied_strict(fs, v, old, d, root, f, bb, comps, ax)
                        R.ob(tag + ":moves", strict, "%s does not move %s for %s although there is room" % (who, fld, k), b.where())
                    got.add((k, ax))
                elif k in ("Home", "End"):
                    got.add((k, ax))
                    R.ob(tag + ":value", ends(f, bb, v, k, ax, root, comps), "%s does not go to the %s for %s (%s)" % (who, "start" if k == "Home" else "end", k, fld), b.where())
                else:
                    w = {x[2] if x[0] == "is" else not x[2] for x in fs if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] in ("f", "mem") and "drag" in show(x[1]) and show(x[1]).endswith("Some.0.0")}
                    if w:
                        R.ob(tag + ":bar", w == {ax == "y"}, "%s: dragging the %s bar moves %s" % (who, "vertical" if True in w else "horizontal", fld), b.where())
                    got.add((k, ax))
        R.count("%s inputs" % who, len(got))
        if not opaque:
            need = []
            if got & {("ScrollUp", "y"), ("ScrollDown", "y")}:
                need += [("ScrollUp", "y"), ("ScrollDown", "y")]
            if any(a == "x" for k, a in got if k in KIND):
                need += [("ScrollUp", "x"), ("ScrollDown", "x"), ("ScrollLeft", "x"), ("ScrollRight", "x"), ("Drag", "x"), ("Drag", "y")]
            if any(k in KEY for k, a in got):
                need += [(k, KEY[k][0]) for k in KEY] + [("Home", "x"), ("Home", "y"), ("End", "x"), ("End", "y")]
            for k, a in need:
                R.ob("%s:%s:%s:there" % (who, k, a), (k, a) in got, "%s no longer answers %s (%s)" % (who, k, "sideways" if a == "x" else "up and down"), b.where())
    R.floor("inputs", n, 20, "scroll inputs that reach an assignment of an offset")


def no_mod_all(fs):
    """every modifier asked about is known to be absent"""
    asked = [x for x in fs if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) in ("contains", "intersects")]
    return len(asked) >= 2 and all(x[2] is False for x in asked if x[0] == "is")


def old_of(f, bb, root, comps):
    st = f.instate[bb]
    return f.read(st, root, comps)


def implied_strict(fs, v, old, d, root, f, bb, comps, ax):
    o, vn, wn = AX[ax]
    st = f.outstate.get(bb)
    pre = comps[:-1]
    room = top(f.read(st, root, pre + (vn,)), f.read(st, root, pre + (wn,)))
    if d > 0:
        return all(prove(fs1, gt(v1, old1), root, (gt(room1, old1),), nn) for (v1, old1, room1), fs1 in ways(f, fs, v, old, room))
    return all(prove(fs1, gt(old1, v1), root, (gt(old1, ZERO),), nn) for (v1, old1), fs1 in ways(f, fs, v, old))


def ends(f, bb, v, k, ax, root, comps):
    o, vn, wn = AX[ax]
    st = f.outstate.get(bb)
    room = top(f.read(st, root, comps[:-1] + (vn,)), f.read(st, root, comps[:-1] + (wn,)))
    want = ZERO if k == "Home" else room

    def good(x, d=0):
        x = strip(x)
        if x == want or k == "Home" and x[0] == "k" and x[1] == 0 or k == "End" and x == strip(room):
            return True
        if d > 8:
            return False
        if x[0] == "call" and last(x) == "clamp" and len(x[2]) == 3:
            return good(x[2][0], d + 1)
        if x[0] == "call" and last(x) in ("floor", "round", "trunc", "ceil") and x[2]:
            return good(x[2][0], d + 1)
        if x[0] == "call" and last(x) in ("min", "max") and len(x[2]) == 2:
            return any(good(y, d + 1) for y in x[2])
        if x[0] == "f" and x[2] == "Some.0":
            if x[1][0] == "call" and last(x[1]) == "then_some":
                return good(x[1][2][1], d + 1)
            ls = list(f.expand_phi(x[1]))
            pay = [dict(y[3]) for y in ls if y[0] == "agg" and y[2] == "Some"]
            return bool(ls) and all(y[0] in ("agg", "k", "c") for y in ls) and bool(pay) and all(good(list(p.values())[0], d + 1) for p in pay)
        if k == "End" and x[0] == "phi":
            return all(prove(fs1, ge(x1, r1), root) and prove(fs1, ge(r1, x1), root) for (x1, r1), fs1 in ways(f, f.infacts.get(bb, ()), x, room))
        return False
    return good(v)
