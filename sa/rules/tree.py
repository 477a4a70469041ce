"""shared: paths through a function, loops over children, what a value says about a child widget"""
import re
from rules.common import *


def w_inline(c, cb):
    return cb.krate == "textual" and c.trait != W and c.trait != "std::clone::Clone"


def last(v):
    return v[1].split("::")[-1] if v and v[0] == "call" and isinstance(v[1], str) else None


class Path:
    __slots__ = ("f", "blocks", "edges", "_facts", "end", "start")

    def __init__(self, f, blocks, end):
        self.f, self.blocks, self.end = f, blocks, end
        self._facts = None

    def val(self, v, upto=None):
        """a value as of position upto of the path (default: the last), phis of earlier merges chosen as the path went"""
        f = self.f
        for i in range(len(self.blocks) - 1 if upto is None else upto, 0, -1):
            bb, p = self.blocks[i], self.blocks[i - 1]
            if mentions_phi(v, bb):
                v = I(subst_phi(f, v, bb, p))
        return v

    @property
    def facts(self):
        if self._facts is None:
            out = set()
            f = self.f
            for j, (p, s) in enumerate(zip(self.blocks, self.blocks[1:])):
                for x in f.edgefacts.get((p, s)) or ():
                    y = self.val(x, j)
                    if y[0] in ("is", "not") and len(y) == 3 and y[1][0] == "k":
                        if (y[1][1] == y[2]) != (y[0] == "is"):
                            self._facts = None
                            return None
                        continue
                    out.add(I(y))
            for x in out:
                if contradicts(x, out):
                    self._facts = None
                    return None
            self._facts = frozenset(out)
        return self._facts

    def calls(self):
        f = self.f
        by = f.__dict__.setdefault("_bybb", {c.bb: c for c in f.b.calls() if c.bb in f.call_info})
        body = self.blocks if self.end in ("return", "other") else self.blocks[:-1]
        for j, b in enumerate(body):
            if b in by:
                yield by[b], [self.val(x, j) for x in f.call_info[b]]

    def after(self, phi):
        """the value a phi of the path's last block gets from this path"""
        b, p = self.blocks[-1], self.blocks[-2]
        v = self.f.phi_in.get((b, phi[2]), {}).get(p, phi)
        return self.val(v, len(self.blocks) - 2)

    def ret(self):
        b = self.blocks[-1]
        return self.val(self.f.read(self.f.outstate[b], ("L", 0), ()))


def paths(f, start=0, stop=(), first=None, limit=3000):
    """acyclic paths from start to a return, a block of `stop` or a block already on the path; infeasible ones left out.
    None when there are too many."""
    out = []
    st = [(start,)] if first is None else [(start, first)]
    n = 0
    while st:
        bl = st.pop()
        n += 1
        if n > limit * 20 or len(out) > limit:
            return None
        b = bl[-1]
        if len(bl) > 1 and b in stop:
            end = "stop"
        elif b in bl[:-1]:
            end = "cycle"
        elif f.b.term(b)[0] == "return":
            end = "return"
        else:
            nx = [s for s in f.b.succs(b) if f.edgefacts.get((b, s)) is not None]
            if not nx:
                continue
            st.extend(bl + (s,) for s in nx)
            continue
        p = Path(f, bl, end)
        if p.facts is not None:
            out.append(p)
    return out


class Loop:
    """a loop driven by `next` on an iterator: hdr = block of the call"""

    def __init__(self, f, hdr, call):
        self.f, self.hdr, self.call = f, hdr, call
        self.item = I(("f", call, "Some.0"))
        self.src = call[2][0] if call[2] else None
        preds, dom = f.b.preds(), f.b.dominators()
        body, st = {hdr}, [p for p in preds[hdr] if hdr in dom.get(p, ())]
        while st:
            b = st.pop()
            if b in body:
                continue
            body.add(b)
            st.extend(preds[b])
        self.body = body
        self._paths = None

    def is_next(self, fs, val):
        return any(x[0] == "is" and x[1][0] == "disc" and x[1][1] == self.call and x[2] == val for x in fs)

    def iters(self):
        """paths of one iteration: from the header round to the header (end 'stop'), or out of the loop to a return;
        only those on which an item was obtained"""
        if self._paths is None:
            ps = paths(self.f, self.hdr, {self.hdr}) or []
            self._paths = [p for p in ps if self.is_next(p.facts, "Some")]
        return self._paths

    def ends(self):
        """paths leaving the loop because the items are used up, to a return"""
        ps = paths(self.f, self.hdr, {self.hdr}) or []
        return [p for p in ps if self.is_next(p.facts, "None")]

    def coll(self):
        """('coll', root, comps) when this loop runs over a whole collection in order, ('count', w) when over 0..w.child_count(), ('len', root, comps)"""
        s = self.src
        if s is None:
            return None
        if s[0] == "call" and s[1] in ("iter",) and s[2] and s[2][0][0] == "ref":
            return ("coll", s[2][0][1], s[2][0][2])
        if s[0] == "agg" and s[1].endswith("Range") and len(s[3]) == 2:
            d = dict(s[3])
            if d.get("start") == ("k", 0):
                e = d.get("end")
                if e and e[0] == "call" and last(e) == "child_count":
                    return ("count", e[2][0])
                if e and e[0] == "call" and last(e) == "len" and e[2][0][0] == "ref":
                    return ("len", e[2][0][1], e[2][0][2])
        return None


class Counter(Loop):
    """while i < n { ..; i += 1 } : item = i"""

    def __init__(self, f, hdr, item, n):
        Loop.__init__(self, f, hdr, ("call", "next", (("agg", "Range", "Range", (("start", I(("k", 0))), ("end", n))),), hdr))
        self.item, self.n = item, n

    def is_next(self, fs, val):
        return lt(fs, self.item, self.n, val == "Some")


class Down(Loop):
    """while i > 0 { i -= 1; .. } from n: item = i - 1"""

    def __init__(self, f, hdr, ph, item, n):
        Loop.__init__(self, f, hdr, ("call", "next_back", (("agg", "std::ops::Range", "Range", (("start", I(("k", 0))), ("end", n))),), hdr))
        self.item, self.ph = item, ph

    def is_next(self, fs, val):
        some = val == "Some"
        return positive(fs, self.ph, some)


def positive(fs, v, val):
    """facts say (v > 0) == val, for an unsigned v"""
    z = I(("k", 0))
    return lt(fs, z, v, val) or any(x[0] == "is" and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and v in x[1][2:] and z in x[1][2:] and (x[2] == (x[1][1] == "Ne")) == val for x in fs) \
        or any(x[0] in ("is", "not") and x[1] == v and x[2] == 0 and (x[0] == "not") == val for x in fs)


def downs(f, taken):
    dom, preds = f.b.dominators(), f.b.preds()
    for bb in f.b.rpo():
        back = [p for p in preds[bb] if bb in dom.get(p, ())]
        if not back or bb in taken:
            continue
        for (b, k), ins in f.phi_in.items():
            if b != bb:
                continue
            ph = I(("phi", bb, k))
            item = I(("bin", "Sub", ph, I(("k", 1))))
            start = {v for p, v in ins.items() if p not in back}
            if len(start) != 1 or not all(v == item for p, v in ins.items() if p in back):
                continue
            body = Loop(f, bb, ("call", "next", (), bb)).body
            if any(positive(ef or (), ph, True) for (p, s), ef in f.edgefacts.items() if p in body and s in body):
                yield Down(f, bb, ph, item, start.pop())


def counters(f, taken):
    dom, preds = f.b.dominators(), f.b.preds()
    for bb in f.b.rpo():
        back = [p for p in preds[bb] if bb in dom.get(p, ())]
        if not back or bb in taken:
            continue
        for (b, k), ins in f.phi_in.items():
            if b != bb:
                continue
            ph = I(("phi", bb, k))
            ok = all((v == ("bin", "Add", ph, ("k", 1)) if p in back else v == ("k", 0)) for p, v in ins.items())
            if not ok:
                continue
            body = Loop(f, bb, ("call", "next", (), bb)).body
            for (p, s), ef in f.edgefacts.items():
                if p in body and s in body:
                    for x in ef or ():
                        if x[0] == "is" and x[1][0] == "bin" and ph in x[1][2:]:
                            n = x[1][3] if x[1][2] == ph else x[1][2]
                            if n[0] == "call" and lt(ef, ph, n, True):
                                yield Counter(f, bb, ph, n)
                                break
                    else:
                        continue
                    break


def loops(f):
    if "_loops" not in f.__dict__:
        seen = {}
        for (p, s), ef in f.edgefacts.items():
            for x in ef or ():
                if x[0] == "is" and x[1][0] == "disc":
                    y = x[1][1]
                    if y[0] == "call" and y[1].split("::")[-1] in ("next", "next_back") and isinstance(y[3], int) and y[3] not in seen:
                        seen[y[3]] = y
        f._loops = [Loop(f, bb, y) for bb, y in sorted(seen.items())]
        f._loops = [l for l in f._loops if len(l.body) > 1]
        f._loops += list(counters(f, {l.hdr for l in f._loops}))
        f._loops += list(downs(f, {l.hdr for l in f._loops}))
    return f._loops


def ptr(v):
    """the widget a pointer value stands for, references and boxes removed"""
    while True:
        if v[0] in ("mem", "ref") and v[1][0] == "D" and v[2] == ():
            v = v[1][1]
        elif v[0] in ("refv", "kref"):
            v = v[1]
        elif v[0] == "call" and last(v) in ("as_mut", "as_ref", "deref", "deref_mut", "borrow_mut", "borrow", "as_deref_mut", "as_deref") and len(v[2]) == 1:
            v = v[2][0]
        else:
            return v


def child(v, f=None):
    """('item', ('coll', root, comps), loop block) | ('at', ('coll', root, comps), index) | ('child', widget, index) | None"""
    v = ptr(v)
    if v[0] == "f" and v[2] == "Some.0":
        c = v[1]
        if c[0] == "call" and c[1].split("::")[-1] in ("next", "next_back") and c[2] and c[2][0][0] == "call" and c[2][0][1] == "iter" and c[2][0][2][0][0] == "ref":
            r = c[2][0][2][0]
            return ("item", ("coll", r[1], r[2]), c[3])
        if last(c) == "get_child_mut":
            return ("child", ptr(c[2][0]), c[2][1])
        if last(c) in ("get_mut", "get") and len(c[2]) == 2 and c[2][0][0] == "ref":
            return ("at", ("coll", c[2][0][1], c[2][0][2]), c[2][1])
        if last(c) in ("first_mut", "first") and c[2] and c[2][0][0] == "ref":
            return ("at", ("coll", c[2][0][1], c[2][0][2]), I(("k", 0)))
    if v[0] in ("mem", "ref") and v[2] and isinstance(v[2][-1], tuple) and v[2][-1][0] == "[]":
        i = v[2][-1][1]
        return ("at", ("coll", v[1], v[2][:-1]), i if isinstance(i, tuple) else I(("k", i)))
    if v[0] in ("mem", "ref") and v[2] and isinstance(v[2][-1], str) and re.match(r"^\[\d+\]$", v[2][-1]):
        return ("at", ("coll", v[1], v[2][:-1]), I(("k", int(v[2][-1][1:-1]))))
    return None


def in_loop(ch, lp):
    """is this child the one the loop is at?"""
    if ch is None:
        return False
    if ch[0] == "item":
        return ch[2] == lp.hdr
    if ch[0] == "at":
        c = lp.coll()
        return ch[2] == lp.item and c is not None and c[0] == "len" and ch[1] == ("coll",) + tuple(c[1:])
    if ch[0] == "child":
        c = lp.coll()
        return ch[2] == lp.item and c is not None and c[0] == "count" and ptr(c[1]) == ch[1]
    return False


def owner(lp):
    c = lp.coll()
    if c is None:
        return None
    if c[0] == "len":
        return ("coll",) + tuple(c[1:])
    return c


def says(fs, name, is_recv, val):
    """do the facts say that method `name` of a widget accepted by is_recv returned val?"""
    for x in fs:
        if x[0] in ("is", "not") and x[1][0] == "call" and last(x[1]) == name and x[1][2] and is_recv(x[1][2][0]):
            if x[0] == "is" and x[2] == val and type(x[2]) == type(val):
                return True
            if x[0] == "not" and isinstance(val, bool) and x[2] == (not val):
                return True
    return False


def lt(fs, a, b, val):
    """facts say (a < b) == val"""
    for x in fs:
        if x[0] == "is" and x[1][0] == "bin" and isinstance(x[2], bool):
            op, p, q = x[1][1], x[1][2], x[1][3]
            if op in ("Gt", "Ge"):
                op, p, q = {"Gt": "Lt", "Ge": "Le"}[op], q, p
            if op == "Lt" and p == a and q == b and x[2] == val:
                return True
            if op == "Le" and p == b and q == a and x[2] == (not val):
                return True
    return False


def self_coll(o):
    return o is not None and o[0] == "coll" and o[1] == ("D", ("arg", 1))


def delegate(f, name, argc, ret=True):
    """field X when the function's whole effect and result is self.X.name(same arguments)"""
    cs = [(c, a) for c, a, fs in f.calls()]
    out = None
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            y = x
            if y[0] == "k" and y[1] == ("c", "()") or y == ("k", ("c", "()")):
                y = None
            if y is not None:
                if not (y[0] == "call" and last(y) == name):
                    return None
    for c, a in cs:
        if c.name == name and len(a) == argc and a[0][0] == "ref" and a[0][1] == ("D", ("arg", 1)) and a[0][2] and all(a[i] == ("arg", i + 1) for i in range(1, argc)):
            if out is not None:
                return None
            out = a[0][2]
            bb = c.bb
        elif c.name not in ("as_mut", "as_ref", "deref", "deref_mut"):
            return None
    if out is None:
        return None
    ps = paths(f)
    if ps is None or any(bb not in p.blocks for p in ps):
        return None
    return out


def covers(f, name, argc):
    """(owner, '') when the function calls `name` with its own arguments on every child of one collection, once each, always;
    (None, why) otherwise"""
    why = "it never reaches its children"
    for lp in loops(f):
        o = owner(lp)
        hits = [c for c, a, fs in f.calls() if c.bb in lp.body and is_op(c, a, name, argc, lambda v: in_loop(child(v), lp))]
        if not hits:
            continue
        if o is None:
            why = "it runs over %s, not over all its children" % show(lp.src)[:120]
            continue
        bb = {c.bb for c in hits}
        ok = True
        for p in lp.iters():
            n = sum(b in bb for b in (p.blocks[:-1] if p.end == "stop" else p.blocks))
            if p.end != "stop":
                why, ok = "it stops before the last child", False
            elif n == 0:
                if any(says(p.facts, "get_child_mut", lambda v: True, "None") or x[0] == "is" and x[1][0] == "disc" and x[2] == "None" for x in p.facts):
                    continue
                why, ok = "it skips a child when %s" % "; ".join(sorted(s for s in show_facts(p.facts) if "next(" not in s[:12])[:2])[:160], False
            elif n > 1:
                why, ok = "it reaches a child %d times" % n, False
        if not ok:
            continue
        ps = paths(f, 0, {lp.hdr})
        if ps is None or any(p.end == "return" for p in ps):
            why = "a path returns before reaching the children"
            continue
        if not lp.iters():
            continue
        return o, ""
    return None, why


def is_op(c, a, name, argc, recv):
    if name == "()":
        # the closure argument applied to the child
        if c.name not in ("call_mut", "call", "call_once") or not a or ptr(a[0]) != ("arg", 2):
            return False
        t = a[1]
        return t[0] == "agg" and len(t[3]) == 1 and recv(t[3][0][1])
    return c.name == name and len(a) == argc and recv(a[0]) and all(a[i] == ("arg", i + 1) for i in range(1, argc))
