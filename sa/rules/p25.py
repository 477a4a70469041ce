"""P25  Shared state is never borrowed (or locked) a second time while it is borrowed."""
import re
from core import Place, Call

GUARD = re.compile(r"(?:^|[<( ,])(std::cell::RefMut|std::cell::Ref|core::cell::RefMut|core::cell::Ref|(?:std|parking_lot|lock_api)[\w:]*::(?:RwLock(?:Upgradable)?(?:Read|Write)Guard|MutexGuard|ReentrantMutexGuard)|tokio::sync[\w:]*::(?:\w*MutexGuard|RwLock\w*Guard))<")
TAKE = {"borrow": ("RefCell", "shared"), "borrow_mut": ("RefCell", "mut"), "replace": ("RefCell", "touch"), "replace_with": ("RefCell", "touch"), "take": ("RefCell", "touch"), "swap": ("RefCell", "touch"),
        "lock": ("Mutex", "lock"), "blocking_lock": ("Mutex", "lock"), "read": ("RwLock", "lock"), "write": ("RwLock", "lock"), "with_borrow": ("RefCell", "run-shared"), "with_borrow_mut": ("RefCell", "run-mut")}
THROUGH = ("deref", "deref_mut", "force", "as_ref", "as_mut", "borrow_mut_inner", "get_or_init", "unwrap", "expect", "clone", "as_deref", "as_deref_mut", "into_inner_ref")
CELL = re.compile(r"(?:cell::RefCell|sync::(?:\w+::)*Mutex|sync::(?:\w+::)*RwLock|parking_lot::\w*(?:Mutex|RwLock)|lock_api::\w*)")


def guard_type(ty):
    return bool(GUARD.search(ty)) and not ty.startswith("&")


def acquires(c):
    """(kind, mode) when the call takes a cell or lock"""
    if c.path is None or c.name not in TAKE or not c.args:
        return None
    kind, mode = TAKE[c.name]
    if CELL.search(c.path) and kind in c.path:
        return kind, mode
    return None


class Fn:
    """one function: what its references stand for"""

    def __init__(self, P, b):
        self.P, self.b = P, b

    def place(self, pl, depth=0):
        """(root, path) of a place; path = ((adt, field), ..)"""
        owners = tuple((e[3], e[2]) if e[0] == "f" else ("", "[]") for e in pl.p if e[0] in ("f", "i", "ci"))
        root, path = self.local(pl.l, depth)
        return root, (path + owners)[:8]

    def local(self, l, depth=0):
        b = self.b
        if 1 <= l <= b.argc:
            return ("arg", l), ()
        ds = b.defs.get(l, [])
        if len(ds) == 1 and depth < 25:
            d = ds[0]
            if d[2] == "rv":
                rv = d[3]
                if rv[0] in ("ref", "addr", "rawptr", "copyref") or rv[0] in ("&", "&mut"):
                    pl = next((x for x in rv[1:] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int)), None)
                    if pl is not None:
                        return self.place(Place(pl), depth + 1)
                if rv[0] in ("use", "cast", "op"):
                    o = next((x for x in rv[1:] if isinstance(x, list) and x and x[0] in ("c", "m", "k")), None)
                    if o is not None:
                        return self.op(o, depth + 1)
                if rv[0] in ("c", "m", "k"):
                    return self.op(rv, depth + 1)
            elif d[2] == "call":
                c = d[3]
                if c.name in THROUGH and c.args:
                    return self.op(c.args[0], depth + 1)
        return ("loc", b.id, l), ()

    def op(self, o, depth=0):
        if o[0] in ("c", "m"):
            return self.place(Place(o[1]), depth)
        s = repr(o[1])
        return ("static", static_name(o[1]) or s[:200]), ()


def static_name(k):
    if isinstance(k, dict):
        for n in ("static", "def", "path", "uneval"):
            if n in k:
                return str(k[n])
    return None


def closures_of(fn, c, args=None):
    """closure arguments of a call: [(body, {captured field: (root, path)})]"""
    out = []
    for o in (c.args if args is None else args):
        if o[0] not in ("c", "m"):
            continue
        root, path = fn.op(o)
        if root[0] != "loc" or path:
            continue
        for d in fn.b.defs.get(root[2], []):
            if d[2] == "rv" and d[3][0] == "agg" and d[3][1] == "closure":
                cb = fn.P.bodies.get(d[3][2])
                if cb is not None:
                    out.append((cb, {n: fn.op(x) for n, x in zip(d[3][4], d[3][5])}))
    return out


def targets(P, by_method, c):
    cb = P.bodies.get(c.callee_id) if c.callee_id is not None else None
    if cb is not None:
        return [cb]
    if c.trait and c.callee_id is None:
        return by_method.get((c.trait, c.name), [])
    return []


def translate(fn, c, cb, touch, caps=None):
    """what a callee touches, seen from the caller"""
    out = set()
    for root, path, mode in touch:
        if root[0] == "static":
            out.add((root, path, mode))
        elif root[0] == "arg":
            if caps is not None:
                if root[1] == 1 and path and path[0][1] in caps:
                    r, p = caps[path[0][1]]
                    out.add((r, (p + path[1:])[:8], mode))
                continue
            if root[1] <= len(c.args):
                r, p = fn.op(c.args[root[1] - 1])
                out.add((r, (p + path)[:8], mode))
    return out


def check(P, R):
    R.rule("at every point of every function where a RefCell borrow or a lock guard is alive (from the call that takes it to its drop), no other borrow or lock of the same cell is taken, neither here nor in anything called with a "
           "reference to its owner; shared borrows may overlap; none is alive at an await")
    bodies = [b for b in P.bodies.values() if b.promoted is None and b.krate in ("textual", "rich", "tcss")]
    by_method = {}
    for b in bodies:
        if b.of_trait or b.in_trait:
            by_method.setdefault((b.of_trait or b.in_trait, b.name), []).append(b)
    fns = {b.id: Fn(P, b) for b in bodies}
    # what a function touches of what it is given, transitively
    touch = {b.id: set() for b in bodies}
    gives = {}
    work = True
    rounds = 0
    while work and rounds < 30:
        work = False
        rounds += 1
        for b in bodies:
            fn = fns[b.id]
            new = set()
            for c in b.calls():
                a = acquires(c)
                if a:
                    r, p = fn.op(c.args[0])
                    new.add((r, p, a[1]))
                    continue
                for cb in targets(P, by_method, c):
                    if touch.get(cb.id):
                        new |= translate(fn, c, cb, touch[cb.id])
                for cb, caps in closures_of(fn, c):
                    if touch.get(cb.id):
                        new |= translate(fn, c, cb, touch[cb.id], caps)
            new = {t for t in new if t[0][0] != "loc"}
            if not new <= touch[b.id]:
                touch[b.id] |= new
                work = True
    sites = 0
    runs = {}
    for b in bodies:
        fn = fns[b.id]
        calls = {c.bb: c for c in b.calls()}
        if not any(acquires(c) or guard_type(b.local_ty(c.dest.l)) for c in calls.values()):
            continue
        R.fn(b)
        for c in calls.values():
            sites += 1 if acquires(c) else 0
        bad = alive(P, R, b, fn, calls, touch, by_method, runs)
        for c in calls.values():
            if acquires(c):
                R.ob("%s:%s" % (b.name, show_cell(fn.op(c.args[0]))), True, "", c.where())
        for key, msg, where in bad:
            R.ob(key, False, msg, where)
    # a function that runs what it is given while it holds something
    for b in bodies:
        fn = fns[b.id]
        for c in b.calls():
            for cb in targets(P, by_method, c):
                for n, root, path, mode in runs.get(cb.id, ()):
                    if n > len(c.args):
                        continue
                    held = translate(fn, c, cb, {(root, path, mode)})
                    for kb, caps in closures_of(fn, c, [c.args[n - 1]]):
                        for r, q, m in translate(fn, c, kb, touch.get(kb.id, ()), caps):
                            for hr, hp, hm in held:
                                if (r, q) == (hr, hp) and clash(m, hm):
                                    R.ob("%s:%s:within" % (b.name, show_cell((r, q))), False, "%s gives %s something to run that borrows %s, which is borrowed then" % (b.name, cb.name, show_cell((r, q))), c.where())
    R.floor("borrows", sites, 60, "places where shared state is borrowed or locked")


def show_cell(rp):
    r, p = rp
    if r[0] == "static":
        return "a static " + re.sub(r".*?((?:once_cell|std|tokio|parking_lot)\S*(?:Lock|Mutex|RefCell|Lazy)).*", r"\1", str(r[1]))[:60]
    return ".".join([f for _, f in p]) or "a local"


def clash(m1, m2):
    if m1 in ("lock",) or m2 in ("lock",):
        return True
    return not (m1.endswith("shared") and m2.endswith("shared"))


def alive(P, R, b, fn, calls, touch, by_method, runs):
    """forward: guards alive per block"""
    start = {0: frozenset()}
    st = [0]
    bad = {}
    n = 0
    while st and n < 20000:
        n += 1
        bb = st.pop()
        s = set(start[bb])
        for x in b.blocks[bb]["s"]:
            if x[0] == "dead":
                s = {g for g in s if g[0] != x[1]}
            elif x[0] == "=" and s:
                d = Place(x[1])
                moved = {o[1][0] for o in operands(x[2]) if o[0] == "m"}
                hit = {g for g in s if g[0] in moved}
                if hit and guard_type(b.local_ty(d.l)):
                    s = (s - hit) | {(d.l,) + g[1:] for g in hit}
        t = b.term(bb)
        outs = [(x, frozenset(s)) for x in b.succs(bb)]
        if t[0] == "drop":
            l = t[1][0]
            s2 = frozenset(g for g in s if g[0] != l)
            outs = [(x, s2) for x in b.succs(bb)]
        elif t[0] == "yield":
            for g in s:
                if "tokio" not in b.local_ty(g[0]):
                    bad[(b.name, "await", g[1:3])] = ("%s:await:%s" % (b.name, show_cell(g[1:3])), "%s waits while %s is borrowed" % (b.name, show_cell(g[1:3])), b.where())
        elif bb in calls:
            c = calls[bb]
            a = acquires(c)
            used = set()
            if a:
                r, p = fn.op(c.args[0])
                used.add((r, p, a[1]))
            elif s:
                for cb in targets(P, by_method, c):
                    used |= translate(fn, c, cb, touch.get(cb.id, ()))
            if s and c.name in ("call", "call_mut", "call_once") and c.args:
                root, path = fn.op(c.args[0])
                if root[0] == "arg" and not path:
                    runs.setdefault(b.id, set()).update((root[1],) + g[1:] for g in s)
            if s:
                for cb, caps in closures_of(fn, c):
                    used |= translate(fn, c, cb, touch.get(cb.id, ()), caps)
            for g in s:
                for r, p, m in used:
                    if (r, p) == g[1:3] and r[0] != "loc" and clash(g[3], m) or (r, p) == g[1:3] and r[0] == "loc" and a and clash(g[3], m):
                        bad[(b.name, c.line, g[1:3])] = ("%s:%s:again" % (b.name, show_cell(g[1:3])), "%s borrows %s again%s while it is still borrowed" % (b.name, show_cell(g[1:3]), "" if a else " through %s" % c.name), c.where())
            taken = {o[1][0] for o in c.args if o[0] == "m"}
            hit = {g for g in s if g[0] in taken}
            s -= hit
            if guard_type(b.local_ty(c.dest.l)):
                if a and not a[1].startswith("run") and a[1] != "touch":
                    s.add((c.dest.l, r, p, a[1]))
                else:
                    for g in hit:
                        s.add((c.dest.l,) + g[1:])
                    if not hit and not a:
                        for cb in targets(P, by_method, c):
                            for r2, p2, m2 in translate(fn, c, cb, touch.get(cb.id, ())):
                                s.add((c.dest.l, r2, p2, m2))
            elif a and a[1] == "lock" and "tokio" in c.path:
                pass
            outs = [(x, frozenset(s)) for x in b.succs(bb)]
        for x, o in outs:
            old = start.get(x)
            if old is None or not o <= old:
                start[x] = (old or frozenset()) | o
                st.append(x)
    return list(bad.values())


def operands(rv):
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list):
                out.append(x)
            else:
                for y in x:
                    go(y)
    go(rv)
    return out
