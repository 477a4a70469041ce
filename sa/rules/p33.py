"""P33  An option list points at an option that exists and can be chosen, and shows which."""
from rules.p06 import *

TYPE = re.compile(r"widget::option_list::OptionList$")
FIELDS = ("items", "disabled", "selected", "allow_markup", "pending_selection")
ZERO, ONE = I(("k", 0)), I(("k", 1))
ITEMS = I(("ref", S1, ("items",)))
SEL = I(("mem", S1, ("selected",)))


def mine(b):
    return bool(TYPE.search(b.self_adt or "")) and b.kind != "closure"


def me(v, roots=(S1,)):
    return v == ("arg", 1) and S1 in roots or v[0] == "ref" and v[1] in roots and v[2] == ()


def uncast(v):
    while v[0] == "cast":
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
    return v


def nn(t):
    return t == SEL or t == ("arg", 2) or t[0] == "call" and last(t) in ("len", "count", "min") or t[0] == "f" and t[2] == "Some.0"


class L:
    """the option list's own functions, sorted by what they do"""

    def __init__(self, P):
        self.P = P
        self.own = [b for b in P.fns(crate="textual") if mine(b)]
        self.at = {b.name for b in self.own if b.argc == 2 and b.locals[0][0] == "bool" and b.locals[1][0].startswith("&textual") and b.locals[2][0] == "usize"}
        self.find = {b.name for b in self.own if b.locals[0][0] == "std::option::Option<usize>" and b.locals[1][0].startswith("&textual") and b.argc == 3}
        self.show = {b.name for b in self.own if not b.pub and any(c.name == "set_children" for c in b.calls())}
        self.norm = set()
        self.loopy = {b.name for b in self.own if b.argc and b.locals[1][0].startswith("&mut") and has_loop(b) and b.name not in self.show}
        self.move = {b.name for b in self.own if b.argc == 2 and b.locals[1][0].startswith("&mut") and b.locals[2][0] in ("i32", "isize", "i64", "i8", "i16") and not b.pub and " as " not in b.path}

    def inline(self, c, cb):
        return mine(cb) and not cb.pub and " as " not in cb.path and cb.name not in self.at | self.find | self.show | self.norm | self.move

    def flow(self, b):
        return flow(self.P, b, self.inline, key="p33" + ",".join(sorted(self.norm)), self_adt=b.self_adt)


def has_loop(b):
    dom = b.dominators()
    return any(s in dom.get(x, ()) for x in b.rpo() for s in b.succs(x))


def check(P, R):
    R.rule("on every way through an operation of the option list the selected index it leaves is 0 for no options, or in range and not disabled unless both searches for an enabled option failed, the arrow keys take the result of "
           "the nearest-enabled search in their direction, a click takes only the option whose region is under the pointer and which is enabled, and every such change is followed by rebuilding the options, of which only the "
           "selected enabled one is highlighted and only the disabled ones are disabled")
    o = L(P)
    R.floor("list", len(o.own), 20, "functions of the option list")
    R.ob("parts", bool(o.at) and bool(o.show), "the option list no longer has a test for disabled options, and a function that shows the options", "")
    for b in o.own:
        if b.name in o.at:
            is_at(R, b, o)
        elif b.name in o.find:
            search(R, b, o)
        elif b.name in o.show:
            shows(R, b, o)
    cand = [b for b in o.own if b.argc == 1 and b.locals[1][0].startswith("&mut") and not b.pub and " as " not in b.path and b.name not in o.show and any(pl.fields()[-1:] == ["selected"] for _, _, pl, _, _ in b.assigns())]
    for b in cand:
        if settles(R, b, o, quiet=True):
            o.norm.add(b.name)
    for b in cand:
        if b.name in o.norm:
            settles(R, b, o, quiet=False)
    n = 0
    for b in o.own:
        if b.name in o.at | o.find | o.show | o.norm:
            continue
        if not (b.pub or " as " in b.path or b.name in o.move):
            continue
        t = b.locals[1][0] if b.argc else ""
        ret = bool(re.search(r"option_list::OptionList<", b.locals[0][0])) and not b.locals[0][0].startswith("&")
        if t.startswith("&mut") or ret:
            n += 1
            entry(P, R, b, o)
    R.floor("entries", n, 10, "operations on an option list")
    under(P, R)


def roots_of(b, f):
    if b.argc and b.locals[1][0].startswith("&"):
        return (S1,)
    return tuple({("L", i) for i, l in enumerate(b.locals) if re.match(r"^textual::widget::option_list::OptionList<", l[0])} | {("L", i) for i in range(len(f.b.locals)) if re.match(r"^textual::widget::option_list::OptionList<", f.b.locals[i][0])})


def events(p, roots):
    f = p.f
    by = {c.bb: a for c, a in p.calls()}
    cs = {c.bb: c for c, a in p.calls()}
    out = []
    for j, bb in enumerate(p.blocks):
        for i, _ in enumerate(f.b.blocks[bb]["s"]):
            sv = f.stmt_vals.get((bb, i))
            if sv is not None and sv[0] in roots and sv[1][:1] and sv[1][0] in FIELDS:
                out.append(("set", sv[1][0], p.val(sv[2], j), sv[2]))
        if bb in cs:
            c = cs[bb]
            out.append(("call", c, by[bb]))
            if c.dest is not None and c.dest.p:
                try:
                    root, comps = f.path_of(f.outstate[bb], [c.dest.l, c.dest.p])
                except Exception:
                    root = None
                if root in roots and comps[:1] and comps[0] in FIELDS:
                    v = p.val(f.read(f.outstate[bb], root, comps), j)
                    out.append(("set", comps[0], v, v))
    return out


def none_left(fs):
    """the facts say there are no options"""
    for x in fs:
        if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "is_empty" and x[1][2] and x[1][2][0] == ITEMS and (x[2] if x[0] == "is" else not x[2]):
            return True
        if x[0] == "is" and x[1][0] == "call" and last(x[1]) == "len" and x[1][2][0] == ITEMS and x[2] == 0 and not isinstance(x[2], bool):
            return True
    return False


def some_left(fs):
    return [gt(n, ZERO) for n in lens(fs)] if any(x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "is_empty" and x[1][2] and x[1][2][0] == ITEMS and (not x[2] if x[0] == "is" else x[2]) for x in fs) else []


def lens(fs):
    return [I(("call", n, (ITEMS,), None)) for n in ("len",)] + [I(("len", ITEMS))]


def disabled_is(fs, i, val, o):
    for x in fs:
        if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) in o.at and me(x[1][2][0]) and uncast(x[1][2][1]) == uncast(i) and (x[2] if x[0] == "is" else not x[2]) == val:
            return True
    return False


def found(v, o):
    """v is the result of a search for an enabled option: (start, step)"""
    if v[0] == "f" and v[2] == "Some.0" and v[1][0] == "call" and last(v[1]) in o.find and me(v[1][2][0]):
        return v[1][2][1:]
    return None


def failed(fs, o):
    """searches that found nothing: [(start, step)]"""
    return [x[1][1][2][1:] for x in fs if x[0] in ("is", "not") and x[1][0] == "disc" and x[1][1][0] == "call" and last(x[1][1]) in o.find and (x[2] == "None") == (x[0] == "is")]


def within(fs, s):
    extra = some_left(fs)
    c = uncast(s)
    if any(implied(fs, gt(n, c), nn, extra) for n in all_lens(fs, s)):
        return True
    # through signed integers: neither below zero nor past the end
    low = lt(fs, c, ZERO, False)
    high = any(x[0] == "is" and x[1][0] == "bin" and is_past_end(x, c) for x in fs)
    return low and high


def all_lens(fs, *vals):
    out = set(lens(fs))
    for x in tuple(fs) + vals:
        for y in walk(x):
            if y and y[0] == "call" and last(y) == "len" and y[2] and y[2][0] == ITEMS:
                out.add(y)
    return out


def is_past_end(x, c):
    op, a, b = x[1][1], x[1][2], x[1][3]

    def n(v):
        v = uncast(v)
        return v[0] == "call" and last(v) == "len" and v[2][0] == ITEMS
    a0, b0, c = uncast(a), uncast(b), uncast(c)
    return op == "Lt" and a0 == c and n(b) and x[2] is True or op == "Le" and n(a) and b0 == c and x[2] is False or op == "Gt" and n(a) and b0 == c and x[2] is True or op == "Ge" and a0 == c and n(b) and x[2] is False


def good(fs, s, o):
    """the facts make s a selection that is allowed"""
    if s == ZERO and none_left(fs):
        return True
    if found(s, o):
        return True
    if none_left(fs):
        return False
    if not within(fs, s) and not unsigned_last(fs, s):
        return False
    if disabled_is(fs, s, False, o):
        return True
    steps = {uncast(st)[1] for at, st in failed(fs, o) if uncast(at) == uncast(s) and uncast(st)[0] == "k"}
    return {1, -1} <= steps and disabled_is(fs, s, True, o)


def unsigned_last(fs, s):
    """len - 1 of a list that is not empty, or not past it"""
    return any(implied(fs, ge(I(("bin", "Sub", n, ONE)), s), nn, some_left(fs)) for n in all_lens(fs, s)) and bool(some_left(fs))


def settles(R, b, o, quiet):
    """after this function the selection is allowed, whatever it was before"""
    f = o.flow(b)
    ps = paths(f)
    if ps is None:
        return False
    rets = [p for p in ps if p.end == "return" and p.facts is not None]
    ok = bool(rets)
    touches = False
    for p in rets:
        ev = events(p, (S1,))
        touches = touches or any(e[0] == "set" and e[1] == "selected" for e in ev)
        s = p.val(f.read(f.outstate[p.blocks[-1]], S1, ("selected",)))
        g = good(p.facts, s, o) and not any(e[0] == "set" and e[1] in ("items", "disabled") for e in ev)
        ok = ok and g
        if not quiet:
            R.ob("%s:settled" % b.name, g, "%s can leave an option selected that does not exist or cannot be chosen" % b.name, b.where())
    if not quiet:
        R.fn(b)
    return ok and touches or (quiet and touches and b.argc == 1)


def entry(P, R, b, o):
    f = o.flow(b)
    roots = roots_of(b, f)
    R.fn(b)
    w = b.where()
    ps = paths(f)
    if not R.ob("%s:paths" % b.name, ps is not None, "%s has too many ways through it to look at" % b.name, w):
        return
    made = S1 not in roots and not (b.argc and b.locals[1][0].startswith("textual::widget::option_list::OptionList<"))
    own = {x.name: x for x in o.own}
    moved = b.name in o.move
    if moved and has_loop(b):
        walkto(R, b, f, o)
    for p in ps:
        fs = p.facts
        if p.end != "return" or fs is None:
            continue
        ev = events(p, roots)
        ok_sel, shown = not made, not made
        lastset, why = None, ""
        for k, e in enumerate(ev):
            if e[0] == "set":
                same = e[2] == ("mem", S1, (e[1],))
                if same or e[1] == "pending_selection":
                    continue
                shown = False
                if e[1] == "selected":
                    ok_sel, lastset = None, e[2]
                elif e[1] in ("items", "disabled"):
                    ok_sel, lastset = False, None
            else:
                c, a = e[1], e[2]
                if not a or not me(a[0], roots):
                    continue
                if c.name in o.norm:
                    ok_sel, shown = True, False
                elif c.name in o.show:
                    shown = True
        if ok_sel is None:
            # the facts that allow the selection must be about the options as they are now
            lastch = max([k for k, e in enumerate(ev) if e[0] == "set" and e[1] in ("items", "disabled")], default=-1)
            old = any(e[0] == "call" and e[1].name in o.at | o.find | {"len", "is_empty"} and e[2] and (me(e[2][0], roots) or e[2][0] == ITEMS) for e in ev[:lastch + 1])
            ok_sel = (good(fs, lastset, o) or moved and has_loop(b)) and not old
        R.ob("%s:selected" % b.name, ok_sel, "%s can leave an option selected that does not exist or cannot be chosen" % b.name, w)
        R.ob("%s:shown" % b.name, shown, "%s changes the options or which is selected without showing it" % b.name, w)
        fed(R, b, f, ev, roots, w)
        if moved and not has_loop(b):
            R.ob("%s:nearest" % b.name, stepped(p, fs, ev, ("arg", 2), o), "%s does not go to the nearest option that can be chosen" % b.name, w)
        if b.name == "on_event" and " as " in b.path:
            keys(R, p, fs, ev, o, w)
        if b.name == "set_selected":
            asked(R, p, fs, ev, o, w)
        pend = [e for e in ev if e[0] == "set" and e[1] == "pending_selection"]
        if b.name == "on_mouse" and " as " in b.path:
            click(R, p, fs, ev, pend, o, w)
        else:
            R.ob("%s:pending" % b.name, all(e[2][0] == "agg" and e[2][2] == "None" or b.name.startswith("take") for e in pend), "%s reports an option as chosen" % b.name, w)


def fed(R, b, f, ev, roots, w):
    """which options are disabled comes with the options"""
    it = [e for e in ev if e[0] == "set" and e[1] == "items"]
    di = [e for e in ev if e[0] == "set" and e[1] == "disabled"]
    if not it and not di:
        return
    R.ob("%s:both" % b.name, bool(di), "%s takes new options and keeps which of the old ones were disabled" % b.name, w)
    if di:
        d = di[-1][3]
        x = gathered(f, d)
        if d[0] == "call" and last(d) == "from_elem":
            R.ob("%s:enabled" % b.name, d[2][0] == ("k", False) and last(uncast(d[2][1])) == "len", "%s does not start with all options enabled" % b.name, w)
        elif x is not None:
            R.ob("%s:state" % b.name, bool(x) and all(y[0] in ("mem", "f") and "disabled" in str(y[-1]) for y in x), "%s does not take over which options are disabled" % b.name, w)


def gathered(f, d):
    """the values a collected vector is made of; None: not a collected vector"""
    if d[0] == "phi":
        out = []
        for v in f.phi_in.get((d[1], d[2]), {}).values():
            if v[0] == "call" and last(v) in ("vp_collect", "collect") and len(v[2]) == 2 and v[2][0] == d:
                out.append(v[2][1])
            elif v == ("k", ("c", "empty")) or v == ("c", "empty"):
                pass
            elif v != d:
                return None
        return out
    return None


def stepped(p, fs, ev, d, o):
    """this path takes the selection to the nearest enabled option in direction d, or leaves it because there is none"""
    sets = [e for e in ev if e[0] == "set" and e[1] == "selected" and e[2] != SEL]
    mv = [e for e in ev if e[0] == "call" and e[1].name in o.move and me(e[2][0])]
    if mv:
        return len(mv) == 1 and not sets and uncast(mv[0][2][1]) == d
    if sets:
        t = found(sets[-1][2], o)
        return len(sets) == 1 and t is not None and t[0] == SEL and uncast(t[1]) == d
    return none_left(fs) or any(at == SEL and uncast(st) == d for at, st in failed(fs, o))


def quiet_path(fs):
    return any(x[0] == "is" and isinstance(x[2], bool) and x[1][0] == "call" and (last(x[1]) == "is_disabled" and x[2] or last(x[1]) == "is_visible" and not x[2]) for x in fs)


def keys(R, p, fs, ev, o, w):
    key = {x[2] for x in fs if x[0] == "is" and x[1] == ("disc", ("arg", 2)) and isinstance(x[2], str)}
    key = key.pop() if len(key) == 1 else None
    acts = [e for e in ev if e[0] == "set" and e[1] in FIELDS or e[0] == "call" and e[1].name in o.move and me(e[2][0])]
    if quiet_path(fs):
        R.ob("on_event:quiet", not acts, "a key changes an option list that takes no input", w)
    elif key in ("Up", "Down"):
        R.ob("on_event:%s" % key, stepped(p, fs, ev, I(("k", -1 if key == "Up" else 1)), o), "%s does not go to the nearest option that can be chosen" % key, w)
    elif key in (None, "Char", "Left", "Right", "Tab", "BackTab", "Esc"):
        R.ob("on_event:other", not acts, "a key that moves nothing changes the option list", w)


def asked(R, p, fs, ev, o, w):
    """set_selected goes to the option asked for if there is one"""
    sets = [e for e in ev if e[0] == "set" and e[1] == "selected"]
    if none_left(fs):
        return
    s = sets[-1][2] if sets else None
    ok = s is not None and any(implied(fs, ge(s, ("arg", 2)), nn, [gt(n, ("arg", 2))]) and implied(fs, ge(("arg", 2), s), nn, [gt(n, ("arg", 2))]) for n in all_lens(fs, s)) or s is not None and found(s, o) and found(s, o)[0] != SEL or bool(none_left(fs))
    R.ob("set_selected:asked", ok, "set_selected does not select the option asked for", w)


def hit(v):
    """v is the child under the pointer: Container.child_at of the list's container, the region given and the event's place"""
    v = uncast(v)
    return v[0] == "call" and last(v) == "child_at" and len(v[2]) == 4 and v[2][0][0] == "ref" and v[2][0][1] == S1 and v[2][0][2][:1] == ("inner",) and v[2][1] == ("arg", 3) and "column" in str(v[2][2]) and "row" in str(v[2][3])


def click(R, p, fs, ev, pend, o, w):
    sets = [e for e in ev if e[0] == "set" and e[1] == "selected" and e[2] != SEL]
    up = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Up" for x in fs) and any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Left" for x in fs)
    if pend or sets:
        R.ob("on_mouse:when", up and not quiet_path(fs), "something other than a released left button chooses an option", w)
        v = pend[-1][2] if pend else None
        idx = dict(v[3]).get("0") if v is not None and v[0] == "agg" and v[2] == "Some" else None
        if R.ob("on_mouse:reported", idx is not None, "a click selects an option without reporting it", w):
            R.ob("on_mouse:under", idx[0] == "f" and idx[2] == "Some.0" and hit(idx[1]), "a click does not choose the option under the pointer", w)
            R.ob("on_mouse:enabled", disabled_is(fs, idx, False, o) and within(fs, idx), "a click can choose an option that does not exist or is disabled", w)
            same = any(x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and {x[1][2], x[1][3]} == {SEL, idx} and ((x[2] if x[0] == "is" else not x[2]) == (x[1][1] == "Eq")) for x in fs)
            R.ob("on_mouse:selected", sets and sets[-1][2] == idx or not sets and same, "a click reports one option and selects another", w)
        return
    why = quiet_path(fs) or not up and any(x[0] == "not" and x[1][0] == "disc" and x[2] in ("Up", "Left") or x[0] == "is" and x[1][0] == "disc" and x[2] in ("Down", "Drag", "Moved", "ScrollUp", "ScrollDown", "ScrollLeft", "ScrollRight", "Right", "Middle") for x in fs)
    why = why or any(x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "contains_point" and (not x[2] if x[0] == "is" else x[2]) for x in fs)
    why = why or any(x[0] in ("is", "not") and x[1][0] == "disc" and hit(x[1][1]) and (x[2] == "None") == (x[0] == "is") for x in fs)
    hits = {y for x in fs for y in walk(x) if y and y[0] == "f" and y[2] == "Some.0" and hit(y[1])}
    why = why or any(disabled_is(fs, y, True, o) or any(implied(fs, ge(y, n), nn) for n in all_lens(fs)) for y in hits)
    R.ob("on_mouse:taken", why, "a click on an option that can be chosen does nothing", w)


def is_at(R, b, o):
    """disabled_at: what the list says about this option; an option it says nothing about is enabled"""
    f = flow(o.P, b, lambda c, cb: False, key="p33at")
    R.fn(b)
    for p in paths(f) or ():
        if p.end != "return" or p.facts is None:
            continue
        v = p.ret()
        s = show(v)
        ok = "disabled" in s and "arg2" in s and not any(y and y[0] == "un" and y[1] == "Not" for y in walk(v)) or v == ("k", False)
        R.ob("%s:value" % b.name, ok, "%s does not say whether the option is disabled" % b.name, b.where())


def header(f):
    """the header of the only loop, and its counter: phi, start, step"""
    dom, preds = f.b.dominators(), f.b.preds()
    for bb in f.b.rpo():
        back = [q for q in preds[bb] if bb in dom.get(q, ())]
        if not back:
            continue
        for (h, k), ins in f.phi_in.items():
            if h != bb:
                continue
            ph = I(("phi", bb, k))
            st = {v for q, v in ins.items() if q not in back}
            nx = {v for q, v in ins.items() if q in back}
            if len(st) == 1 and len(nx) == 1:
                n = nx.pop()
                if n[0] == "bin" and n[1] == "Add" and ph in n[2:]:
                    s, d = st.pop(), n[3] if n[2] == ph else n[2]
                    if s[0] == "bin" and s[1] == "Add" and d in s[2:]:
                        # counted before the test
                        return bb, ph, s[3] if s[2] == d else s[2], d, ph
                    return bb, ph, s, d, n
    return None


def search(R, b, o):
    """Some(i) only for the first enabled option met going from the start by the step; None only past either end"""
    f = flow(o.P, b, lambda c, cb: mine(cb) and cb.name not in o.at, key="p33s")
    R.fn(b)
    w = b.where()
    h = header(f)
    if not R.ob("%s:loop" % b.name, h is not None, "%s does not go through the options one by one" % b.name, w):
        return
    bb, ph, start, step, nxt = h
    R.ob("%s:from" % b.name, uncast(start) == ("arg", 2) and uncast(step) == ("arg", 3), "%s does not start at its start, or does not go by its step" % b.name, w)
    for p in paths(f, bb, {bb}) or ():
        if p.facts is None:
            continue
        fs = p.facts
        if p.end == "stop":
            R.ob("%s:passed" % b.name, disabled_is(fs, nxt, True, o), "%s passes over an option that can be chosen" % b.name, w)
            R.ob("%s:stays" % b.name, within(fs, nxt), "%s goes on past the end" % b.name, w)
        elif p.end == "return":
            v = p.ret()
            if v[0] == "agg" and v[2] == "Some":
                x = dict(v[3])["0"]
                R.ob("%s:found" % b.name, uncast(x) == nxt and disabled_is(fs, nxt, False, o) and within(fs, nxt), "%s finds an option that does not exist or is disabled" % b.name, w)
            else:
                R.ob("%s:end" % b.name, v[0] == "agg" and v[2] == "None" and past(fs, nxt), "%s gives up before the end" % b.name, w)
    for p in paths(f, 0, {bb}) or ():
        if p.facts is not None and p.end == "return":
            v = p.ret()
            R.ob("%s:early" % b.name, v[0] == "agg" and v[2] == "None" and none_left(p.facts), "%s gives up before it starts" % b.name, w)


def past(fs, nxt):
    if lt(fs, nxt, ZERO, True):
        return True
    for x in fs:
        if x[0] == "is" and x[1][0] == "bin" and isinstance(x[2], bool) and is_past_end(("is", x[1], not x[2]), nxt):
            return True
    return False


def walkto(R, b, f, o):
    """the same search, done in place by a function that moves the selection"""
    w = b.where()
    h = header(f)
    if not R.ob("%s:loop" % b.name, h is not None, "%s does not go through the options one by one" % b.name, w):
        return
    bb, ph, start, step, nxt = h
    R.ob("%s:from" % b.name, uncast(start) == SEL and uncast(step) == ("arg", 2), "%s does not start at the selected option, or does not go by its step" % b.name, w)
    for p in paths(f, bb, {bb}) or ():
        if p.facts is None:
            continue
        fs = p.facts
        sets = [e for e in events(p, (S1,)) if e[0] == "set" and e[1] == "selected" and e[2] != SEL]
        if p.end == "stop":
            R.ob("%s:passed" % b.name, disabled_is(fs, nxt, True, o) and within(fs, nxt) and not sets, "%s passes over an option that can be chosen" % b.name, w)
        elif p.end == "return":
            if sets:
                R.ob("%s:found" % b.name, len(sets) == 1 and uncast(sets[-1][2]) == nxt and disabled_is(fs, nxt, False, o) and within(fs, nxt), "%s goes to an option that does not exist or is disabled" % b.name, w)
            else:
                R.ob("%s:end" % b.name, past(fs, nxt), "%s gives up before the end" % b.name, w)
    for p in paths(f, 0, {bb}) or ():
        if p.facts is not None and p.end == "return":
            R.ob("%s:early" % b.name, none_left(p.facts) and not [e for e in events(p, (S1,)) if e[0] == "set"], "%s gives up before it starts" % b.name, w)


def shows(R, b, o):
    """one option shown per item, in order; highlighted iff selected and enabled, disabled iff disabled"""
    f = flow(o.P, b, lambda c, cb: mine(cb) and cb.name not in o.at, key="p33d")
    R.fn(b)
    w = b.where()
    n = 0
    for lp in loops(f):
        if lp.src is None or not (lp.src[0] == "call" and last(lp.src) == "iter" and lp.src[2] and lp.src[2][0] == ITEMS):
            c = lp.coll()
            if c is None or c[0] != "len" or c[2] != ("items",):
                continue
        for p in lp.iters():
            if p.facts is None:
                continue
            cs = list(p.calls())
            put = [a for c, a in cs if c.name == "push" and len(a) == 2]
            if not put and not any(c.name in ("set_disabled", "add_class", "new") for c, a in cs):
                continue
            n += 1
            fs = p.facts
            R.ob("%s:each" % b.name, p.end == "stop" and len(put) == 1, "an option is left out, or shown twice", w)

            def idx(v):
                v = uncast(v)
                return v[0] == "call" and last(v) == "enum_index" and v[2] and v[2][0] == lp.src or v == lp.item
            dis = [x[2] if x[0] == "is" else not x[2] for x in fs if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) in o.at and idx(x[1][2][1])]
            sel = [(x[2] if x[0] == "is" else not x[2]) == (x[1][1] == "Eq") for x in fs if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and SEL in x[1][2:] and any(idx(y) for y in x[1][2:])]
            off = [a[1] for c, a in cs if c.name in ("set_disabled", "with_disabled") and len(a) == 2]
            flag = [x for x in off if x[0] == "call" and last(x) in o.at and idx(x[2][1])]
            hi = any(c.name in ("add_class", "with_classes", "set_classes") and "highlighted" in show(a[1]) for c, a in cs)
            if flag:
                pass
            elif off:
                R.ob("%s:disabled" % b.name, dis == [True] and off[-1] == ("k", True) or dis == [False] and off[-1] == ("k", False), "an option is shown as disabled that is not", w)
            else:
                R.ob("%s:disabled" % b.name, dis == [False], "a disabled option is not shown as disabled", w)
            if hi:
                R.ob("%s:highlight" % b.name, sel == [True] and dis == [False], "an option is highlighted that is not the selected one, or is disabled", w)
            else:
                R.ob("%s:highlight" % b.name, sel == [False] or dis == [True], "the selected option is not highlighted", w)
            made = [a for c, a in cs if c.name == "new" and a and any(y == lp.item for y in walk(a[0]))] or [a for c, a in cs if c.name in ("new",) and a and "items" in show(a[0])]
            R.ob("%s:text" % b.name, bool(made), "an option does not show its text", w)
            raw = [a for a in made if not any(y and y[0] == "call" and last(y) == "escape_markup" for y in walk(a[0]))]
            mk = any(x[0] in ("is", "not") and x[1] == ("mem", S1, ("allow_markup",)) and (x[2] if x[0] == "is" else not x[2]) is True for x in fs)
            R.ob("%s:plain" % b.name, len(raw) < len(made) or mk, "text of an option is read as markup although that is not asked for", w)
    R.floor("shown", n, 4, "ways to show an option")
    for p in paths(f) or ():
        if p.end != "return" or p.facts is None:
            continue
        k = [a for c, a in p.calls() if c.name == "set_children"]
        R.ob("%s:given" % b.name, len(k) == 1 and k[0][0][0] == "ref" and k[0][0][1] == S1, "the options are not given to the container that shows them", w)


def under(P, R):
    """Container.child_at: the child whose region, moved by the scroll offset, holds the point"""
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.name != "child_at" or not (b.self_adt or "").endswith("container::Container"):
            continue
        f = flow(P, b, lambda c, cb: False, key="p33c")
        R.fn(b)
        w = b.where()
        for lp, p in [(lp, q) for lp in loops(f) for q in lp.iters()]:
            if p.facts is None:
                continue
            inside = None
            for x in p.facts:
                if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "contains_point" and any(y == lp.item for y in walk(x[1][2][0])):
                    inside = x[2] if x[0] == "is" else not x[2]
                    d = next((dict(y[3]) for y in walk(x[1][2][0]) if y and y[0] == "agg" and y[1].endswith("Region")), {})
                    R.ob("child_at:scrolled", all(k in d and d[k][0] == "bin" and d[k][1] == "Sub" and "offset_" + k in show(d[k][3]) for k in ("x", "y")), "a point is compared with where a child would be without scrolling", w)
            if p.end == "return":
                n += 1
                s = show(p.ret())
                R.ob("child_at:which", inside is True and "child_index" in s and "Some" in s, "the child under a point is not the one that is there", w)
            elif p.end == "stop":
                R.ob("child_at:passed", inside is False, "the child under a point is passed over", w)
        for p in paths(f) or ():
            for c, a in p.calls():
                if c.name == "contains_point" and len(a) == 3:
                    R.ob("child_at:point", a[1] == ("arg", 3) and a[2] == ("arg", 4), "the child under another point is looked for", w)
                if c.name == "compute_child_placements":
                    R.ob("child_at:where", "child_regions(" in show(a[1]), "the child under a point is looked for in places of another layout", w)
    R.floor("child_at", n, 1, "results of looking for the child under a point")
