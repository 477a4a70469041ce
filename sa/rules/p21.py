"""P21  Whatever changes what is on screen is drawn before the loop waits again."""
from rules.common import *

APP = "textual::App"
NOTCHG = ("take_", "mark_", "for_each", "get_", "as_any", "set_style", "pre_", "is_", "default_")


class Fx:
    """which calls can change widgets, and how their result tells"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.vm = {}
        self.wm = set()
        for b in P.bodies.values():
            if (b.of_trait == W or b.in_trait == W) and b.kind != "closure" and b.argc and b.locals[1][0].startswith("&mut "):
                if not (b.name or "").startswith(NOTCHG):
                    self.wm.add(b.name)
        self.hooks = set()
        for b in P.bodies.values():
            if b.in_trait == APP and b.kind != "closure" and any("EventContext" in b.locals[i][0] or "MountContext" in b.locals[i][0] for i in range(1, b.argc + 1)):
                self.hooks.add(b.name)
        self.reads = {}

    def base(self, c):
        """a call that changes widgets by itself"""
        if c.trait == W:
            return c.name in self.wm
        if c.trait == APP:
            return c.name in self.hooks
        return False

    def reaches(self, body, pred, tag):
        k = (tag, body.id)
        if k in self.memo:
            return self.memo[k]
        seen, st, out = {body.id}, [body], False
        while st and not out:
            b = st.pop()
            for c in b.calls():
                if pred(c):
                    out = True
                    break
                cb = self.P.bodies.get(c.callee_id)
                nx = [cb] if cb is not None and not (cb.of_trait == W or cb.in_trait == W) else []
                nx += [self.P.bodies[g] for g in c.fn.get("gfn", []) if g in self.P.bodies] if c.fn else []
                for x in nx:
                    if x.id not in seen:
                        seen.add(x.id)
                        st.append(x)
        self.memo[k] = out
        return out

    def rendered(self, adt):
        """fields of a widget type that drawing it reads (with what it calls on itself)"""
        if adt not in self.reads:
            out = set()
            st = [b for n in ("render", "desired_size", "is_visible", "child_count") for b in [self.P.trait_impl_method(W, adt, n)] if b is not None]
            seen = {b.id for b in st}
            while st:
                b = st.pop()
                out |= self.fields(b, adt, False)
                for c in b.calls():
                    cb = self.P.bodies.get(c.callee_id)
                    if cb is not None and cb.self_adt == adt and cb.id not in seen:
                        seen.add(cb.id)
                        st.append(cb)
            self.reads[adt] = out
        return self.reads[adt]

    def fields(self, b, adt, write):
        out = set()

        def own(raw):
            for e in raw[1]:
                if e[0] == "f" and e[3] == adt:
                    out.add(e[2])
        for bb in b.reach:
            for s in b.blocks[bb]["s"]:
                if s[0] != "=":
                    continue
                if write:
                    own(s[1])
                    if s[2][0] == "ref" and s[2][1] == "mut":
                        own(s[2][2])
                else:
                    _places(s[2], own)
            t = b.term(bb)
            if t[0] == "call":
                if write:
                    own(t[3])
                else:
                    for a in t[2]:
                        _places(a, own)
            elif t[0] == "switch" and not write:
                _places(t[1], own)
        return out

    def changer(self, b):
        """a widget's own method that changes what it draws"""
        k = ("chg", b.id)
        if k not in self.memo:
            self.memo[k] = False
            adt = b.self_adt
            r = self.rendered(adt)
            out = bool(self.fields(b, adt, True) & r)
            for c in b.calls():
                cb = self.P.bodies.get(c.callee_id)
                if c.trait == W and c.name == "mark_dirty" or self.base(c):
                    out = True
                elif cb is not None and cb.self_adt == adt and cb.argc and cb.locals[1][0].startswith("&mut"):
                    out = out or self.changer(cb)
            self.memo[k] = out
        return self.memo[k]

    def own_method(self, c, cb):
        return cb is not None and cb.self_adt and cb.of_trait is None and cb.argc and cb.locals[1][0].startswith("&mut ") and self.P.trait_impl_method(W, cb.self_adt, "render") is not None

    def verdict(self, c):
        """None, 'yes' (changes, whatever it answers), 'res' (changes only if it answers true / Some)"""
        if c.fn is None:
            return None
        if self.base(c):
            return "yes"
        cb = self.P.bodies.get(c.callee_id)
        v = None
        if cb is not None and not (cb.of_trait == W or cb.in_trait == W):
            v = self.body(cb)
        if c.trait == W and cb is not None and c.name in self.wm:
            return "yes"
        for g in c.fn.get("gfn", []):
            gb = self.P.bodies.get(g)
            if gb is None:
                continue
            w = self.body(gb)
            if w is not None:
                ty = c.body.locals[c.dest.l][0] if not c.dest.p else ""
                inner = gb.locals[0][0]
                if v == "yes" or not ty.startswith("std::option::Option<"):
                    v = "yes"
                elif w == "yes":
                    v = "some" if v is None else v
                elif v is None:
                    v = "some?"
        return v

    def body(self, b):
        if b.id in self.vm:
            return self.vm[b.id]
        self.vm[b.id] = None
        ty = b.locals[0][0]
        says = ty == "bool" or ty == "std::option::Option<usize>"
        if self.own_method(None, b):
            if not self.changer(b):
                v = None
            elif ty == "bool":
                v = "res" if Walk(self, b, lambda c: "yes" if c.trait == W and c.name == "mark_dirty" or self.base(c) else None).answers() else "yes"
            else:
                v = "yes"
        elif not self.reaches(b, lambda c: self.base(c) or self._own(c), "chg"):
            v = None
        elif (b.self_adt or "").endswith("WidgetTree"):
            v = "res" if says else "yes"
        elif says:
            v = "res" if Walk(self, b, self.verdict).answers() else "yes"
        else:
            v = "yes"
        self.vm[b.id] = v
        return v

    def _own(self, c):
        cb = self.P.bodies.get(c.callee_id)
        return self.own_method(c, cb) and self.changer(cb)


def _places(x, fn):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            fn(x)
            return
        for y in x:
            _places(y, fn)


class Walk:
    """set-of-states dataflow: constants of bool variables, results not looked at yet, what changed and is not drawn"""

    def __init__(self, fx, b, verdict):
        self.fx, self.b, self.verdict = fx, b, verdict
        self.by = {c.bb: c for c in b.calls()}
        self.copied = set()
        for bb, i, pl, rv, ln in b.assigns():
            for s in ([rv[1]] if rv[0] == "use" else [rv[2]] if rv[0] == "un" else [rv[2], rv[3]] if rv[0] == "bin" else []):
                if s[0] in ("c", "m"):
                    self.copied.add(repr(Place(s[1])))
        const = {repr(pl) for bb, i, pl, rv, ln in b.assigns() if rv[0] == "use" and rv[1][0] == "k" and isinstance(rv[1][1].get("v"), bool)}
        self.copied = (self.copied & const) | {"_0"}
        self.entry = None
        t = b.term(0)
        if t[0] == "switch":
            for s in b.blocks[0]["s"]:
                if s[0] == "=" and s[2][0] == "disc" and s[2][1][1] == ["*"]:
                    self.entry = dict((int(x[0]), x[1]) for x in t[2])
        self.stage = {}     # block -> 'styled' | 'drawn' | 'sent' | 'shown'
        self.new = set()    # block of a call that replaces the tree or the canvas
        self.v = {}
        self.waits = 0
        self.rs = None      # (reading a size event, what it calls for)

    def truthy(self, s, place, ty):
        pass

    def run(self):
        b = self.b
        self.hits = []
        self.rets = set()
        seen = {0: {(frozenset(), frozenset(), None, frozenset())}}
        work = [(0, s) for s in seen[0]]
        n = 0
        while work:
            bb, st = work.pop()
            n += 1
            if n > 400000:
                raise RuntimeError("event loop: too many states")
            for t, s2 in self.block(bb, st):
                q = seen.setdefault(t, set())
                if s2 not in q:
                    q.add(s2)
                    work.append((t, s2))
        return self

    def answers(self):
        """every path that changes something returns true / Some"""
        self.run()
        for val, pend, dirty in self.rets:
            if (dirty is not None or pend) and val != "T":
                return False
        return True

    # state: (vals: {(place, bool)}, pend: {(place, kind, key)}, dirty: key, needs)
    def block(self, bb, st):
        vals, pend, dirty, need = dict(st[0]), {p: (k, key) for p, k, key in st[1]}, st[2], set(st[3])
        b = self.b
        alt = [(vals, pend, dirty, need)]
        for s in b.blocks[bb]["s"]:
            if s[0] == "=":
                alt = [z for y in alt for z in self.assign(y, s)]
            elif s[0] == "dead":
                for y in alt:
                    self.kill((y[0], {}), "_%d" % s[1])
            elif s[0] == "sd":
                if b.term(bb)[0] == "return" and self.entry is not None and s[1] == [900, ["*"]] or self.entry is not None and b.term(bb)[0] == "return":
                    for y in alt:
                        if s[2] > 2:
                            self.waits += 1
                            if y[2] is not None or y[1]:
                                self.hits.append((y[2] or sorted(k for _, k in y[1].values())[0], bb))
                            if y[3]:
                                self.hits.append(("size:" + sorted(y[3])[0], bb))
                            yield self.entry[s[2]], self.freeze(({p: v for p, v in y[0].items() if p.startswith("(")}, {}, None, set()))
                    if s[2] > 2:
                        return
        t = b.term(bb)
        k = t[0]
        if bb == 0 and self.entry is not None:      # started afresh; resumed only from where it waits
            for y in alt:
                yield self.entry[0], self.freeze(y)
            return
        for y in alt:
            vals, pend, dirty, need = y
            if k == "return":
                v = vals.get("_0")
                val = "T" if v is True else "F" if v is False else "?"
                if "_0" in pend:
                    pend = {p: q for p, q in pend.items() if p != "_0"}
                    val = "?" if dirty is not None or pend else "T"
                ty = b.locals[0][0]
                if ty.startswith("std::option::Option") and val == "?":
                    val = vals.get("_0<some>", "?")
                self.rets.add((val, bool(pend), dirty))
            elif k == "switch":
                for t2, s2 in self.switch(bb, t, y):
                    yield t2, self.freeze(s2)
            elif k == "call":
                for s2 in self.call(self.by[bb], y):
                    if t[4] is not None:
                        yield t[4], self.freeze(s2)
            else:
                for t2 in b.succs(bb):
                    yield t2, self.freeze(y)

    def freeze(self, y):
        if y[2] is not None:
            y = (y[0], {}, y[2], y[3])
        return (frozenset(y[0].items()), frozenset((p, k, key) for p, (k, key) in y[1].items()), y[2], frozenset(y[3]))

    def kill(self, y, key):
        for d in (y[0], y[1]):
            for p in [p for p in d if p == key or p.startswith(key + "<") or p.startswith(key + ".")]:
                if d is y[1] and p.startswith("_") and False:
                    continue
                del d[p]

    def assign(self, y, s):
        y = (dict(y[0]), dict(y[1]), y[2], set(y[3]))
        vals, pend, dirty, need = y
        pl, rv = repr(Place(s[1])), s[2]
        if self.rs:
            for q in self.rs["reads"](rv):
                need |= self.rs["needs"]
            if pl in self.rs["vars"]:
                need.discard("var " + pl)
                y = (vals, pend, dirty, need)
        src = repr(Place(rv[1][1])) if rv[0] == "use" and rv[1][0] in ("c", "m") else None
        if rv[0] == "bin" and rv[1] in ("BitOr", "BitAnd"):
            ops = [repr(Place(o[1])) if o[0] in ("c", "m") else o for o in rv[2:4]]
            pv = [vals.get(o) if isinstance(o, str) else o[1].get("v") for o in ops]
            pe = [o for o in ops if isinstance(o, str) and o in pend]
            if rv[1] == "BitOr" and (pe or any(v is not None for v in pv)):
                out = []
                if pe:
                    p = pe[0]
                    a = (dict(vals), {q: x for q, x in pend.items() if q != p}, dirty or pend[p][1], set(need))
                    self.kill(a, pl)
                    self.setv(a, pl, True)
                    out.append(a)
                    c = (dict(vals), {q: x for q, x in pend.items() if q != p}, dirty, set(need))
                    ov = [v for o, v in zip(ops, pv) if o != p]
                    self.kill(c, pl)
                    self.setv(c, pl, ov[0] if ov and ov[0] is not None else None)
                    out.append(c)
                    return out
                self.kill(y, pl)
                for o in rv[2:4]:
                    if o[0] == "m":
                        vals.pop(repr(Place(o[1])), None)
                self.setv(y, pl, True if True in pv else False if pv == [False, False] else None)
                return [y]
        if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("c", "m"):
            o = repr(Place(rv[2][1]))
            v, pd = vals.get(o), pend.get(o)
            self.kill(y, pl)
            if pd and pd[0] in ("bool", "nbool"):
                del pend[o]
                pend[pl] = ("nbool" if pd[0] == "bool" else "bool", pd[1])
            elif isinstance(v, bool):
                vals[pl] = not v
            return [y]
        v = None
        if rv[0] == "use" and rv[1][0] == "k":
            v = rv[1][1].get("v")
        elif src is not None:
            v = vals.get(src)
        moved = {}
        if src is not None:
            for p in list(pend):
                if p == src or p.startswith(src + "<") or p.startswith(src + "."):
                    moved[pl + p[len(src):]] = pend.pop(p)
        if rv[0] == "disc":
            d = repr(Place(rv[1]))
            if d in pend:
                moved[pl] = ("disc", pend[d][1])
                vals_d = d
        self.kill(y, pl)
        pend.update(moved)
        if isinstance(v, bool):
            if src is not None:
                vals[pl] = v
                if rv[1][0] == "m":
                    vals.pop(src, None)
            else:
                self.setv(y, pl, v)
        if rv[0] == "agg" and rv[1] == "adt" and pl == "_0":
            vals["_0<some>"] = "T" if rv[3] == "Some" else "F"
        return [y]

    def setv(self, y, pl, v):
        if v is None:
            return
        if pl in self.copied or pl == "_0":
            y[0][pl] = v

    def switch(self, bb, t, y):
        b = self.b
        op = t[1]
        if op[0] not in ("c", "m"):
            for x in b.succs(bb):
                yield x, y
            return
        p = repr(Place(op[1]))
        vals, pend, dirty, need = y
        tv = [(int(v), x) for v, x in t[2]]
        edges = tv + [("else", t[3])]
        src = p
        for s in b.blocks[bb]["s"]:
            if s[0] == "=" and repr(Place(s[1])) == p:
                src = repr(Place(s[2][1][1])) if s[2][0] == "use" and s[2][1][0] in ("c", "m") else p
        if p in pend and pend[p][0] in ("bool", "nbool", "disc"):
            kind, key = pend[p]
            for v, x in edges:
                a = (dict(vals), {q: z for q, z in pend.items() if q != p}, dirty, set(need))
                on = (v != 0) if v != "else" else not any(v2 != 0 for v2, _ in tv)
                if v == "else" and any(v2 == 0 for v2, _ in tv):
                    on = True
                if kind == "nbool":
                    on = not on
                if kind == "disc":
                    yes = [q for q in a[1] if a[1][q][0].startswith("opt") and a[1][q][1] == key]
                    for q in yes:
                        k2 = a[1].pop(q)[0][3:]
                        if on:
                            if k2 in ("", "!"):
                                a = (a[0], a[1], a[2] or key, a[3])
                            else:
                                a[1][q + "<Some>.0"] = (k2, key)
                else:
                    if on:
                        a = (a[0], a[1], a[2] or key, a[3])
                    if op[0] == "c" or src != p:
                        a[0][src] = on if kind == "bool" else not on
                yield x, a
            return
        # refine constants: the switch is on a copy made in this block, or on the variable
        v0 = vals.get(p, vals.get(src))
        isb = any(v == 0 for v, _ in tv) and b.locals[op[1][0]][0] == "bool"
        for v, x in edges:
            on = None
            if isb:
                on = (v != 0)
            if isinstance(v0, bool) and on is not None and on != v0:
                continue
            a = (dict(vals), dict(pend), dirty, set(need))
            if on is not None and src in self.copied and src != p:
                a[0][src] = on
            yield x, a

    def call(self, c, y):
        vals, pend, dirty, need = dict(y[0]), dict(y[1]), y[2], set(y[3])
        b = self.b
        d = repr(c.dest)
        arg0 = None
        if c.args and c.args[0][0] in ("c", "m"):
            arg0 = repr(Place(c.args[0][1]))
        out = (vals, pend, dirty, need)
        carried = None
        used = [repr(Place(a[1])) for a in c.args if a[0] in ("c", "m") and repr(Place(a[1])) in pend]
        if used:
            p = used[0]
            kind, key = pend.pop(p)
            carried = derive(c, kind, key)
            if carried is None:
                dirty = dirty or key
        self.kill((vals, pend), d)
        if carried is not None:
            pend[d] = carried
        st = self.stage.get(c.bb)
        if st == "shown":
            dirty = None
        if st == "styled" and pend and dirty is None:
            dirty = "1 styled, not drawn"
            pend.clear()
        elif st == "shown":
            pend.clear()
        elif st == "styled" and dirty is not None and dirty not in ("1 styled, not drawn", "2 drawn, not flushed"):
            dirty = "1 styled, not drawn"
        elif st == "drawn" and dirty == "1 styled, not drawn":
            dirty = "2 drawn, not flushed"
        elif st == "sent" and dirty == "2 drawn, not flushed":
            dirty = None
        v = self.v.get(c.bb, 0)
        if v == 0:
            v = self.v[c.bb] = self.verdict(c)
        if c.bb in self.new:
            v = "yes"
        if self.rs:
            need -= {n for n in need if n == "canvas" and c.bb in self.rs["canvas"] or n == "on_resize" and c.name == "on_resize"}
            if d in self.rs["vars"]:
                need.discard("var " + d)
        key = c.name or "call"
        if v == "yes":
            dirty = key
        elif v in ("res", "some", "some?"):
            ty = b.locals[c.dest.l][0] if not c.dest.p else "?"
            if ty == "bool":
                pend[d] = ("bool", key)
            elif v == "res":
                pend[d] = ("opt!", key)
            elif ty.startswith("std::option::Option<"):
                inner = ty[len("std::option::Option<"):-1]
                k = "" if v == "some" else "bool" if inner == "bool" else "opt" if inner.startswith("std::option::Option") else ""
                pend[d] = ("opt" + k, key)
            else:
                dirty = key
        yield (vals, pend, dirty, need)


def derive(c, kind, key):
    n = c.name
    if kind.startswith("opt"):
        k = kind[3:]
        if n == "flatten" and k == "opt":
            return ("opt", key)
        if n in ("unwrap_or", "unwrap_or_default") and k == "bool":
            if n == "unwrap_or_default" or c.args[1][0] == "k" and c.args[1][1].get("v") is False:
                return ("bool", key)
        if n == "is_some" and k in ("", "!"):
            return ("bool", key)
        if n == "is_none" and k in ("", "!"):
            return ("nbool", key)
    return None


def check(P, R):
    R.rule("a set-of-states dataflow over the event loop, through every await: what may have changed a widget, the tree or the canvas since it was last restyled, drawn and flushed; nothing may be left when the loop waits; "
           "a result that says whether something changed must be looked at; a change of size reaches the canvas, the tree and the region drawn")
    fx = Fx(P)
    R.floor("hooks", len(fx.hooks), 5, "methods of App that are given the widgets")
    R.floor("mutators", len(fx.wm), 12, "methods that change a widget")
    canvas = [p for p in P.adts if p.endswith("canvas::Canvas")]
    flushes = lambda c: (c.path or "").startswith("crossterm::") or c.name in ("queue", "execute") and "crossterm" in (c.path or "")
    n = 0
    for b in P.fns(crate="textual"):
        if b.self_adt in canvas or not b.coroutine and "event_loop" not in b.path:
            continue
        st = {}
        for c in b.calls():
            cb = P.bodies.get(c.callee_id)
            if cb is None:
                if c.trait == W and c.name == "render":
                    st[c.bb] = "drawn"
                continue
            if cb.of_trait == W and c.name == "render":
                st[c.bb] = "drawn"
            elif (cb.self_adt in canvas) and fx.reaches(cb, flushes, "flush"):
                st[c.bb] = "sent"
            elif fx.reaches(cb, lambda c: (P.bodies.get(c.callee_id) is not None and P.bodies[c.callee_id].self_adt in canvas and fx.reaches(P.bodies[c.callee_id], flushes, "flush")), "shows"):
                st[c.bb] = "shown"
            elif cb.of_trait is None and cb.in_trait is None and fx.reaches(cb, lambda c: c.trait == W and c.name == "set_style", "styles"):
                st[c.bb] = "styled"
        if not any(v in ("sent", "shown") for v in st.values()):
            continue
        w = Walk(fx, b, fx.verdict)
        if w.entry is None and not b.coroutine:
            continue
        n += 1
        R.fn(b)
        w.stage = st
        for c in b.calls():
            ty = c.fn and b.locals[c.dest.l][0] or ""
            cb = P.bodies.get(c.callee_id)
            if cb is not None and cb.name == "new" and (cb.self_adt in canvas or (cb.self_adt or "").endswith("::WidgetTree")):
                w.new.add(c.bb)
        sizes(P, R, fx, b, w, canvas)
        w.run()
        R.count("waits", w.waits)
        muts = {c.name for c in b.calls() if w.v.get(c.bb) or c.bb in w.new}
        R.count("changing calls", sum(1 for c in b.calls() if w.v.get(c.bb) or c.bb in w.new))
        for m in sorted(muts):
            R.ob("redraw:%s" % m, m not in [h[0] for h in w.hits], "the loop can wait for the next event without drawing what %s changed" % m, b.where())
        for h, bb in w.hits:
            if h not in muts:
                R.ob("redraw:%s" % h, False, "the loop can wait for the next event with a change %s" % h if h[0].isdigit() else "after the terminal changed its size, %s is not brought up to date before the loop waits" % h.split(":")[-1], b.where())
        R.ob("waits", w.waits > 0, "no point where the loop waits was found", b.where())
    R.floor("loops", n, 1, "event loops that draw")
    # helpers whose answer is relied upon
    for bid, v in sorted(fx.vm.items()):
        b = P.bodies[bid]
        if b.kind == "closure" or b.locals[0][0] != "bool" or v is None or (b.self_adt or "").endswith("WidgetTree"):
            continue
        R.fn(b)
        R.ob("answer:%s" % b.path.split("::")[-1], v == "res", "%s can change something and answer that nothing changed" % b.path.split("::")[-1], b.where())
        R.count("helpers")


def sizes(P, R, fx, b, w, canvas):
    """what a size is made of: W and H from the terminal's size or a size event"""
    defs = {}
    for bb, i, pl, rv, ln in b.assigns():
        defs.setdefault(repr(pl), []).append(rv)
    for c in b.calls():
        defs.setdefault(repr(c.dest), []).append(("call", c))

    def place(p, seen=()):
        if p in seen:
            return set()
        m = re.search(r"<Resize>\.([01])$", p)
        if m:
            return {"WH"[int(m.group(1))]}
        out = set()
        for rv in defs.get(p, []):
            if rv[0] == "use" and rv[1][0] in ("c", "m"):
                out |= place(repr(Place(rv[1][1])), seen + (p,))
            elif rv[0] == "cast" and rv[2][0] in ("c", "m"):
                out |= place(repr(Place(rv[2][1])), seen + (p,))
            else:
                out.add("?")
        if not defs.get(p):
            m = re.match(r"(.*)\.([01])$", p)
            ty = b.locals[int(re.match(r"[(*]*_(\d+)", p).group(1))][0]
            out.add("WH"[int(m.group(2))] if m and ty == "(u16, u16)" else "?")
        return out

    def op(o):
        return place(repr(Place(o[1]))) if o[0] in ("c", "m") else {("k", o[1].get("v"))}
    reads = False
    cvs = set()
    for c in b.calls():
        cb = P.bodies.get(c.callee_id)
        nm = c.name
        if cb is not None and nm == "new" and cb.self_adt in canvas and len(c.args) == 2:
            cvs.add(c.bb)
            R.ob("size:canvas", op(c.args[0]) == {"W"} and op(c.args[1]) == {"H"}, "a canvas is not made as wide and high as the terminal", c.where())
            R.count("sizes")
        elif cb is not None and nm == "new" and (cb.self_adt or "").endswith("canvas::Size") and len(c.args) == 2:
            R.ob("size:event", op(c.args[0]) == {"W"} and op(c.args[1]) == {"H"}, "the tree is told a size other than the terminal's", c.where())
            R.count("sizes")
        elif nm == "from_u16" and len(c.args) == 4:
            R.ob("size:region", [op(a) for a in c.args] == [{("k", 0)}, {("k", 0)}, {"W"}, {"H"}], "the root is drawn or clicked in a region other than the whole terminal", c.where())
            R.count("sizes")
    vars_ = {p for p in defs if p.startswith("(") and place(p) in ({"W"}, {"H"})}     # kept across a wait

    def rd(rv):
        out = []
        _places(rv, lambda raw: out.append(1) if re.search(r"<Resize>\.[01]$", repr(Place(raw))) else None)
        return out
    w.rs = {"reads": rd, "needs": {"canvas", "on_resize"} | {"var " + p for p in vars_}, "vars": vars_, "canvas": cvs}
    R.floor("sizes", len(cvs), 1, "canvases made in the loop")
