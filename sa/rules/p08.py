"""P08  A disabled widget does not act on input."""
from rules.tree import *
from rules.p02 import getter_leaves, post_states, SELF as ST
from rules.p03 import unchanged

SELF = I(("arg", 1))
PTR = {"std::cell::RefCell::borrow_mut", "borrow_mut", "replace", "set", "take", "swap", "store", "lock", "write", "get_mut"}


def flag(P, T):
    """the field path is_disabled() reads, when it is one boolean field"""
    b, _ = effective(P, T, "is_disabled")
    L = getter_leaves(flow(P, b, self_adt=T))
    vs = {v for v, fs in L}
    if len(vs) == 1:
        v = vs.pop()
        if v[0] == "mem" and v[1] == ST:
            return v
    return None


def changed_by(P, T, name):
    """field paths the operation may change, including through interior mutability"""
    b, _ = effective(P, T, name)
    return changes(flow(P, b, self_adt=T))


def changes(f, facts=None):
    out = {}
    for bb, st, fs in post_states(f):
        for root, d in st.items():
            if root != ST:
                continue
            for c in d:
                v = f.read(st, root, c)
                for (x,), lf in joint_leaves(f, [v], fs):
                    if not unchanged(x, c, lf):
                        out.setdefault(tuple(map(str, c)), (x, lf))
    for c, a, fs in f.calls():
        if c.name in PTR and a and a[0][0] == "ref" and a[0][1] == ST and "Cell" in (c.path or "") + str(c.self_ty):
            out.setdefault(tuple(map(str, a[0][2])), (I(("call", c.path, tuple(a), c.bb)), fs))
    return out


def reads(P, T, name):
    b, _ = effective(P, T, name)
    out = set()
    for v, fs in getter_leaves(flow(P, b, self_adt=T)):
        for x in [v] + list(fs):
            out |= {tuple(map(str, p)) for p in self_fields(x)}
    return out


def check(P, R):
    R.rule("for every widget type with a disabled flag, each input operation is analysed under the assumption that the flag is set: the result is always 'no message', "
           "and no field changes except the flags for hover, pressed appearance and redrawing; is_focusable is false")
    n = 0
    for i in widget_impls(P):
        T = i["adt"]
        D = flag(P, T)
        if D is None:
            continue
        s = short(T)
        n += 1
        ok = looks(P, T)
        for m in ("on_event", "on_mouse", "on_mouse_with_sender"):
            b, over = effective(P, T, m)
            if b is None:
                continue
            R.fn(b)
            f = Flow(normalize(P, b, self_adt=T, inline=lambda c, cb: True), P, assume=[I(("is", D, True))])
            for bb, v, fs in f.ret_values():
                for (x,), lf in joint_leaves(f, [v], fs):
                    R.ob("%s.%s:quiet" % (s, m), x[0] == "agg" and x[2] == "None", "a disabled %s answers %s with %s" % (s, m, show(x)[:80]), b.where())
            for c, a, fs in f.calls():
                if c.name in ("call", "call_mut", "call_once") and a and tuple(self_fields(a[0])):
                    R.ob("%s.%s:callback" % (s, m), False, "%s of a disabled %s runs a callback" % (m, s), b.where())
            for p, (x, lf) in sorted(changes(f).items()):
                if any(p[:len(q)] == q or q[:len(p)] == p for q in ok):
                    continue
                R.ob("%s.%s:%s" % (s, m, ".".join(p)), False, "%s of a disabled %s changes %s" % (m, s, ".".join(p)), b.where())
        b, over = effective(P, T, "is_focusable")
        f = Flow(normalize(P, b, self_adt=T, inline=lambda c, cb: True), P, assume=[I(("is", D, True))])
        for bb, v, fs in f.ret_values():
            for (x,), lf in joint_leaves(f, [v], fs):
                x = f.resolve(x, lf | {I(("is", D, True))})
                if x[0] == "un" and x[1] == "Not" and x[2] == D:
                    x = I(("k", False))
                R.ob("%s:focusable" % s, x == ("k", False), "a disabled %s is focusable" % s, b.where())
    R.floor("widgets", n, 9, "widget types with a disabled flag")


def looks(P, T, d=0):
    """the fields behind hover, pressed appearance and redrawing, of the widget and of widgets inside it"""
    ok = {p for m in ("clear_hover", "mark_dirty", "mark_clean") for p in changed_by(P, T, m)} | active(P, T)
    if d < 4:
        for x in P.adts[T]["variants"][0][1]:
            t = re.sub(r"<.*$", "", str(x[1]))
            if t in P.adts and any(i["adt"] == t for i in widget_impls(P)):
                ok |= {(x[0],) + p for p in looks(P, t, d + 1)}
    return ok


def active(P, T):
    """the field behind the pressed appearance"""
    b, _ = effective(P, T, "get_state")
    f = flow(P, b, self_adt=T)
    out = set()
    for v, fs in getter_leaves(f):
        if any(x and x[0] == "k" and "ACTIVE" in str(x) for x in walk(v)):
            for x in fs:
                if x[0] == "is" and x[2] is True and x[1][0] == "mem" and x[1][1] == ST and "DISABLED" not in str(v):
                    out.add(tuple(map(str, x[1][2])))
    return {p for p in out if "active" in p[-1]} or out
