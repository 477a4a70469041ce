"""MIR normalisation: inlining of workspace helpers, closures, and the std
higher-order combinators, so that rules judge behaviour and not how the code is
cut into helpers.  Purely syntactic graph rewriting; nothing is executed."""
import copy
from core import Body, Call, Place, Program, op_place

PANIC_FNS = ("core::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed",
             "core::result::unwrap_failed", "core::option::expect_failed")


class Builder:
    """mutable copy of a body"""

    def __init__(self, P, body, self_adt=None):
        self.P = P
        self.base = body
        self.locals = [list(x) for x in body.locals]
        self.blocks = []
        for i, b in enumerate(body.blocks):
            nb = {"s": list(b["s"]), "t": b["t"], "cu": b["cu"], "l": b["l"],
                  "o": b.get("o", body.id), "d": b.get("d", 0), "st": b.get("st", (body.id,)),
                  "sf": b.get("sf", self_adt or body.self_adt)}
            self.blocks.append(nb)

    def new_local(self, ty, name=None, adt=None):
        self.locals.append([ty, name, adt])
        return len(self.locals) - 1

    def new_block(self, proto, stmts=None, term=None):
        self.blocks.append({"s": stmts or [], "t": term, "cu": proto["cu"], "l": proto["l"],
                            "o": proto["o"], "d": proto["d"], "st": proto["st"], "sf": proto["sf"]})
        return len(self.blocks) - 1

    def finish(self):
        raw = dict(self.base.raw)
        raw["locals"] = self.locals
        raw["blocks"] = self.blocks
        nb = Body(raw, self.base.krate)
        nb.orig = self.base
        return nb

    # -- splice a callee in place of a block's terminator -------------------
    def splice(self, bb, callee, arg_stmts_fn, dest, target, unwind, line, self_adt=None):
        """arg_stmts_fn(map) -> statements binding callee args; returns entry"""
        blk = self.blocks[bb]
        off_l = len(self.locals)
        for l in callee.locals:
            self.locals.append(list(l))
        off_b = len(self.blocks)
        cu = blk["cu"]
        depth = blk["d"] + 1
        stack = blk["st"] + (callee.id,)
        for cb in callee.blocks:
            nb = {"s": [shift_stmt(s, off_l) for s in cb["s"]], "cu": cb["cu"] or cu, "l": cb["l"],
                  "o": cb.get("o", callee.id), "d": depth, "st": stack,
                  "sf": blk["sf"] if callee.kind.startswith("Closure") else (callee.self_adt or self_adt)}
            t = cb["t"]
            if t[0] == "return":
                nb["s"].append(["=", dest, ["use", ["m", [off_l, []]]], line])
                nb["t"] = ["goto", target] if target is not None else ["unreachable"]
            elif t[0] == "resume":
                nb["t"] = ["goto", unwind] if unwind is not None else ["resume"]
            else:
                nb["t"] = shift_term(t, off_l, off_b)
            self.blocks.append(nb)
        blk["s"] = blk["s"] + arg_stmts_fn(off_l)
        blk["t"] = ["goto", off_b]


def shift_place(p, o):
    pr = p[1]
    if any(e != "*" and e[0] == "i" for e in pr):
        pr = [["i", e[1] + o] if (e != "*" and e[0] == "i") else e for e in pr]
    return [p[0] + o, pr]


def shift_op(op, o):
    return op if op[0] == "k" else [op[0], shift_place(op[1], o)]


def shift_rv(rv, o):
    k = rv[0]
    if k == "use":
        return ["use", shift_op(rv[1], o)]
    if k == "ref":
        return ["ref", rv[1], shift_place(rv[2], o)]
    if k == "rawptr":
        return ["rawptr", shift_place(rv[1], o)]
    if k == "cast":
        return ["cast", rv[1], shift_op(rv[2], o), rv[3]]
    if k == "bin":
        return ["bin", rv[1], shift_op(rv[2], o), shift_op(rv[3], o)]
    if k == "un":
        return ["un", rv[1], shift_op(rv[2], o)]
    if k == "disc":
        return ["disc", shift_place(rv[1], o)] + list(rv[2:])
    if k == "agg":
        return rv[:5] + [[shift_op(x, o) for x in rv[5]]]
    if k == "repeat":
        return ["repeat", shift_op(rv[1], o), rv[2]]
    return rv


def shift_stmt(s, o):
    if s[0] == "=":
        return ["=", shift_place(s[1], o), shift_rv(s[2], o), s[3]]
    if s[0] == "dead":
        return ["dead", s[1] + o] + list(s[2:])
    if s[0] == "sd":
        return ["sd", shift_place(s[1], o)] + list(s[2:])
    return s


def shift_term(t, o, b):
    k = t[0]
    f = lambda x: None if x is None else x + b
    if k == "goto":
        return ["goto", t[1] + b]
    if k == "switch":
        return ["switch", shift_op(t[1], o), [[v, x + b] for v, x in t[2]], t[3] + b] + list(t[4:])
    if k == "drop":
        return ["drop", shift_place(t[1], o), t[2] + b, f(t[3])] + list(t[4:])
    if k == "call":
        return ["call", shift_op(t[1], o), [shift_op(x, o) for x in t[2]], shift_place(t[3], o), f(t[4]), f(t[5])] + list(t[6:])
    if k == "assert":
        return ["assert", shift_op(t[1], o), t[2], t[3], [shift_op(x, o) for x in t[4]], t[5] + b, f(t[6])] + list(t[7:])
    if k == "yield":
        return ["yield", shift_op(t[1], o), t[2] + b, f(t[3])] + list(t[4:])
    return t


# ---------------------------------------------------------------------------
def mv(l):
    return ["m", [l, []]]


def cp(l):
    return ["c", [l, []]]


def assign(l, rv, line):
    return ["=", [l, []], rv, line]


SOME = [["v", 1, "Some"], ["f", 0, "0", "core::option::Option"]]
OKF = [["v", 0, "Ok"], ["f", 0, "0", "core::result::Result"]]
ERRF = [["v", 1, "Err"], ["f", 0, "0", "core::result::Result"]]
OPT_VARS = [["0", "None"], ["1", "Some"]]
RES_VARS = [["0", "Ok"], ["1", "Err"]]


def some_of(op):
    return ["agg", "adt", "std::option::Option", "Some", ["0"], [op]]


NONE = ["agg", "adt", "std::option::Option", "None", [], []]


def kbool(v):
    return ["k", {"ty": "bool", "v": v}]


class Normalizer:
    """normalise(body, inline=pred).  pred(call, callee)->bool decides which workspace
    callees are inlined (default: every resolved workspace fn, up to limits)."""

    def __init__(self, P, inline=None, max_depth=5, max_blocks=3000, closures=True):
        self.P = P
        self.pred = inline or (lambda c, b: True)
        self.max_depth = max_depth
        self.max_blocks = max_blocks
        self.closures = closures
        self.each = getattr(inline, "each", False)
        self.inlined = []

    def run(self, body, self_adt=None):
        B = Builder(self.P, body, self_adt)
        # local -> closure id (single-def closure aggregates), computed lazily
        i = 0
        while i < len(B.blocks):
            blk = B.blocks[i]
            t = blk["t"]
            if t[0] == "call" and not blk["cu"] and len(B.blocks) < self.max_blocks:
                self.step(B, i)
            i += 1
        nb = B.finish()
        nb.inlined = list(self.inlined)
        return nb

    # ------------------------------------------------------------------
    def closure_of(self, B, op, seen=0):
        """(closure body, operand) if operand is a known closure value (following moves/refs)"""
        if op[0] == "k":
            cid = op[1].get("closure")
            if cid:
                return self.P.bodies.get(cid)
            fn = op[1].get("fn")
            if fn:
                if "ctor" in fn:
                    return None
                return self.P.bodies.get(fn.get("res") or fn["id"])
            return None
        pl = op[1]
        if seen > 6:
            return None
        if [e for e in pl[1] if e != "*"]:
            return None
        ds = []
        for b in B.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == pl[0] and not s[1][1]:
                    ds.append(s[2])
            t = b["t"]
            if t[0] == "call" and t[3][0] == pl[0]:
                return None
        if len(ds) != 1:
            return None
        rv = ds[0]
        if rv[0] == "agg" and rv[1] == "closure":
            return self.P.bodies.get(rv[2])
        if rv[0] == "use":
            return self.closure_of(B, rv[1], seen + 1)
        if rv[0] == "ref":
            return self.closure_of(B, ["c", rv[2]], seen + 1)
        if rv[0] == "cast":
            return self.closure_of(B, rv[2], seen + 1)
        return None

    def call_closure(self, B, bb, clo, clo_op, args, dest, target, unwind, line):
        """replace terminator of bb by inlined call of closure/fn body `clo`"""
        blk = B.blocks[bb]
        is_clo = clo.kind.startswith("Closure")
        if clo.id in blk["st"] or blk["d"] >= self.max_depth + 2:
            return False

        def bind(off):
            st = []
            if is_clo:
                ty = clo.locals[1][0]
                if clo_op[0] == "k":
                    st.append(assign(off + 1, ["use", clo_op], line))
                elif ty.startswith("&"):
                    # is the operand already a reference?
                    oty = B.locals[clo_op[1][0]][0] if not clo_op[1][1] else ""
                    if oty.startswith("&"):
                        st.append(assign(off + 1, ["use", ["c", clo_op[1]]], line))
                    else:
                        st.append(assign(off + 1, ["ref", "mut" if ty.startswith("&mut") else "shr", clo_op[1]], line))
                else:
                    oty = B.locals[clo_op[1][0]][0] if not clo_op[1][1] else ""
                    if oty.startswith("&"):
                        st.append(assign(off + 1, ["use", ["c", [clo_op[1][0], ["*"]]]], line))
                    else:
                        st.append(assign(off + 1, ["use", ["c", clo_op[1]]], line))
                k = 2
            else:
                k = 1
            for a in args:
                st.append(assign(off + k, ["use", a], line))
                k += 1
            return st
        B.splice(bb, clo, bind, dest, target, unwind, line)
        self.inlined.append(clo.id)
        return True

    # ------------------------------------------------------------------
    def step(self, B, bb):
        blk = B.blocks[bb]
        t = blk["t"]
        if t[1][0] != "k" or "fn" not in t[1][1]:
            return
        fn = t[1][1]["fn"]
        line = t[6]
        call = Call(B.base, bb, t)
        # plain workspace callee
        cid = call.callee_id
        cb = self.P.bodies.get(cid) if cid else None
        sadt = None
        if fn.get("trait") and not fn.get("dyn"):
            sty = fn.get("self", "")
            if sty == "Self":
                sadt = blk["sf"]
            else:
                sadt = adt_of_ty(sty)
            if cb is None and sty == "Self" and sadt:
                cb = self.P.resolve_method(fn["trait"], sadt, fn["name"])
            elif cb is not None and cb.in_trait and sty == "Self" and sadt:
                cb = self.P.resolve_method(fn["trait"], sadt, fn["name"]) or cb
        if fn.get("trait", "").startswith("std::ops::Fn") or fn.get("trait", "").startswith("core::ops::function::Fn"):
            clo = self.closure_of(B, t[2][0])
            if clo is not None and self.closures:
                tup = t[2][1]
                n = clo.argc - (1 if clo.kind.startswith("Closure") else 0)
                if tup[0] == "k":
                    args = [tup] * n if n else []
                else:
                    args = [["c", [tup[1][0], tup[1][1] + [["f", i, str(i), "(tuple)"]]]] for i in range(n)]
                if self.call_closure(B, bb, clo, t[2][0], args, t[3], t[4], t[5], line):
                    return
            return
        if self.each and fn.get("name") == "for_each_child" and len(t[2]) == 2 and fn.get("trait", "").endswith("::Widget"):
            clo = self.closure_of(B, t[2][1])
            if clo is not None and self.each_child(B, bb, clo, t[2], t[3], t[4], t[5], line):
                return
        if cb is not None and not cb.coroutine:
            if cb.id in blk["st"] or blk["d"] >= self.max_depth:
                return
            if not self.pred(call, cb):
                return

            def bind(off):
                return [assign(off + 1 + i, ["use", a], line) for i, a in enumerate(t[2])]
            B.splice(bb, cb, bind, t[3], t[4], t[5], line, sadt)
            self.inlined.append(cb.id)
            return
        if self.closures:
            self.combinator(B, bb, call, fn)

    # ------------------------------------------------------------------
    def combinator(self, B, bb, call, fn):
        t = call.t
        path = fn["path"]
        name = fn.get("name")
        args = t[2]
        dest, target, unwind, line = t[3], t[4], t[5], t[6]
        if target is None:
            return
        blk = B.blocks[bb]
        if path.startswith(("std::option::Option", "core::option::Option")):
            self.option_comb(B, bb, name, args, dest, target, unwind, line)
        elif path.startswith(("std::result::Result", "core::result::Result")):
            self.result_comb(B, bb, name, args, dest, target, unwind, line)
        elif name == "then" and "bool" in path:
            clo = self.closure_of(B, args[1])
            if not clo:
                return
            r = B.new_local(clo.locals[0][0])
            done = B.new_block(blk, [["=", dest, some_of(mv(r)), line]], ["goto", target])
            tb = B.new_block(blk, [], None)
            fb = B.new_block(blk, [["=", dest, NONE, line]], ["goto", target])
            blk["t"] = ["switch", args[0], [["0", fb]], tb, "bool"]
            B.blocks[tb]["t"] = ["goto", done]
            self.call_closure(B, tb, clo, args[1], [], [r, []], done, unwind, line)
        elif fn.get("trait") in ("std::iter::Iterator", "core::iter::Iterator", "core::iter::traits::iterator::Iterator"):
            self.iter_comb(B, bb, call, name, args, dest, target, unwind, line)

    def _opt_switch(self, B, bb, op, some_bb, none_bb, line, ty=None):
        """end block bb by matching option operand; returns place prefix of payload"""
        blk = B.blocks[bb]
        l = B.new_local(ty or "std::option::Option<?>", None, "std::option::Option")
        d = B.new_local("isize")
        blk["s"] = blk["s"] + [assign(l, ["use", op], line),
                               assign(d, ["disc", [l, []], "std::option::Option<?>", OPT_VARS], line)]
        blk["t"] = ["switch", mv(d), [["0", none_bb]], some_bb, "isize"]
        return l

    def option_comb(self, B, bb, name, args, dest, target, unwind, line):
        blk = B.blocks[bb]
        P = self
        if name in ("map", "and_then", "is_some_and", "filter", "inspect", "is_none_or"):
            clo = self.closure_of(B, args[1])
            if not clo:
                return
            sb = B.new_block(blk)
            nb = B.new_block(blk)
            l = self._opt_switch(B, bb, args[0], sb, nb, line)
            pay = [l, SOME]
            r = B.new_local(clo.locals[0][0])
            if name == "map":
                B.blocks[nb]["s"] = [["=", dest, NONE, line]]
                fin = B.new_block(blk, [["=", dest, some_of(mv(r)), line]], ["goto", target])
                a = [["m", pay]]
            elif name == "and_then":
                B.blocks[nb]["s"] = [["=", dest, NONE, line]]
                fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
                a = [["m", pay]]
            elif name in ("is_some_and", "is_none_or"):
                B.blocks[nb]["s"] = [["=", dest, ["use", kbool(name == "is_none_or")], line]]
                fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
                a = [["m", pay]]
            elif name == "inspect":
                B.blocks[nb]["s"] = [["=", dest, NONE, line]]
                fin = B.new_block(blk, [["=", dest, ["use", mv(l)], line]], ["goto", target])
                rf = B.new_local("&?")
                B.blocks[sb]["s"] = [assign(rf, ["ref", "shr", pay], line)]
                a = [mv(rf)]
            else:  # filter
                B.blocks[nb]["s"] = [["=", dest, NONE, line]]
                keep = B.new_block(blk, [["=", dest, ["use", mv(l)], line]], ["goto", target])
                fin = B.new_block(blk, [], ["switch", mv(r), [["0", nb]], keep, "bool"])
                rf = B.new_local("&?")
                B.blocks[sb]["s"] = [assign(rf, ["ref", "shr", pay], line)]
                a = [mv(rf)]
            B.blocks[nb]["t"] = ["goto", target]
            B.blocks[sb]["t"] = ["goto", fin]
            self.call_closure(B, sb, clo, args[1], a, [r, []], fin, unwind, line)
        elif name in ("unwrap_or_else", "or_else", "ok_or_else", "map_or_else"):
            ci = 1
            clo = self.closure_of(B, args[1])
            if not clo:
                return
            clo2 = None
            if name == "map_or_else":
                clo2 = self.closure_of(B, args[2])
                if not clo2:
                    return
            sb = B.new_block(blk)
            nb = B.new_block(blk)
            l = self._opt_switch(B, bb, args[0], sb, nb, line)
            pay = [l, SOME]
            r = B.new_local(clo.locals[0][0])
            if name == "unwrap_or_else":
                B.blocks[sb]["s"] = [["=", dest, ["use", ["m", pay]], line]]
                fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            elif name == "or_else":
                B.blocks[sb]["s"] = [["=", dest, ["use", mv(l)], line]]
                fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            elif name == "ok_or_else":
                B.blocks[sb]["s"] = [["=", dest, ["agg", "adt", "std::result::Result", "Ok", ["0"], [["m", pay]]], line]]
                fin = B.new_block(blk, [["=", dest, ["agg", "adt", "std::result::Result", "Err", ["0"], [mv(r)]], line]], ["goto", target])
            else:
                fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            B.blocks[sb]["t"] = ["goto", target]
            if clo2 is not None:
                r2 = B.new_local(clo2.locals[0][0])
                fin2 = B.new_block(blk, [["=", dest, ["use", mv(r2)], line]], ["goto", target])
                B.blocks[sb]["t"] = ["goto", fin2]
                self.call_closure(B, sb, clo2, args[2], [["m", pay]], [r2, []], fin2, unwind, line)
            B.blocks[nb]["t"] = ["goto", fin]
            self.call_closure(B, nb, clo, args[1], [], [r, []], fin, unwind, line)
        elif name == "map_or":
            clo = self.closure_of(B, args[2])
            if not clo:
                return
            sb = B.new_block(blk)
            nb = B.new_block(blk, [["=", dest, ["use", args[1]], line]], ["goto", target])
            l = self._opt_switch(B, bb, args[0], sb, nb, line)
            r = B.new_local(clo.locals[0][0])
            fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            B.blocks[sb]["t"] = ["goto", fin]
            self.call_closure(B, sb, clo, args[2], [["m", [l, SOME]]], [r, []], fin, unwind, line)
        elif name in ("unwrap_or", "unwrap_or_default"):
            # value select: keep as phi
            sb = B.new_block(blk)
            nb = B.new_block(blk)
            l = self._opt_switch(B, bb, args[0], sb, nb, line)
            B.blocks[sb]["s"] = [["=", dest, ["use", ["m", [l, SOME]]], line]]
            B.blocks[sb]["t"] = ["goto", target]
            if name == "unwrap_or":
                B.blocks[nb]["s"] = [["=", dest, ["use", args[1]], line]]
            else:
                B.blocks[nb]["s"] = [["=", dest, ["use", ["k", {"ty": "?", "disp": "default"}]], line]]
            B.blocks[nb]["t"] = ["goto", target]

    def result_comb(self, B, bb, name, args, dest, target, unwind, line):
        blk = B.blocks[bb]
        if name not in ("map", "map_err", "and_then", "unwrap_or_else", "is_ok_and", "or_else"):
            return
        clo = self.closure_of(B, args[1])
        if not clo:
            return
        l = B.new_local("std::result::Result<?>", None, "std::result::Result")
        d = B.new_local("isize")
        ok = B.new_block(blk)
        er = B.new_block(blk)
        blk["s"] = blk["s"] + [assign(l, ["use", args[0]], line),
                               assign(d, ["disc", [l, []], "std::result::Result<?>", RES_VARS], line)]
        blk["t"] = ["switch", mv(d), [["0", ok]], er, "isize"]
        r = B.new_local(clo.locals[0][0])
        mk = lambda v, op: ["agg", "adt", "std::result::Result", v, ["0"], [op]]
        if name == "map":
            B.blocks[er]["s"] = [["=", dest, mk("Err", ["m", [l, ERRF]]), line]]
            fin = B.new_block(blk, [["=", dest, mk("Ok", mv(r)), line]], ["goto", target])
            cb, ob, a = ok, er, ["m", [l, OKF]]
        elif name == "map_err":
            B.blocks[ok]["s"] = [["=", dest, mk("Ok", ["m", [l, OKF]]), line]]
            fin = B.new_block(blk, [["=", dest, mk("Err", mv(r)), line]], ["goto", target])
            cb, ob, a = er, ok, ["m", [l, ERRF]]
        elif name == "and_then":
            B.blocks[er]["s"] = [["=", dest, mk("Err", ["m", [l, ERRF]]), line]]
            fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            cb, ob, a = ok, er, ["m", [l, OKF]]
        elif name == "or_else":
            B.blocks[ok]["s"] = [["=", dest, mk("Ok", ["m", [l, OKF]]), line]]
            fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            cb, ob, a = er, ok, ["m", [l, ERRF]]
        elif name == "is_ok_and":
            B.blocks[er]["s"] = [["=", dest, ["use", kbool(False)], line]]
            fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            cb, ob, a = ok, er, ["m", [l, OKF]]
        else:
            B.blocks[ok]["s"] = [["=", dest, ["use", ["m", [l, OKF]]], line]]
            fin = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
            cb, ob, a = er, ok, ["m", [l, ERRF]]
        B.blocks[ob]["t"] = ["goto", target]
        B.blocks[cb]["t"] = ["goto", fin]
        self.call_closure(B, cb, clo, args[1], [a], [r, []], fin, unwind, line)

    def each_child(self, B, bb, clo, args, dest, target, unwind, line):
        """w.for_each_child(closure) as a loop over w's children by index"""
        blk = B.blocks[bb]
        if args[0][0] == "k":
            return False
        w = B.new_local("&mut dyn Widget")
        cnt = B.new_local("usize")
        rng = B.new_local("std::ops::Range<usize>")
        n = B.new_local("std::option::Option<usize>", None, "std::option::Option")
        it = B.new_local("&mut std::ops::Range<usize>")
        d = B.new_local("isize")
        o = B.new_local("std::option::Option<?>", None, "std::option::Option")
        d2 = B.new_local("isize")
        ix = B.new_local("usize")
        cur = B.new_local("&mut dyn Widget")
        r = B.new_local(clo.locals[0][0])

        def meth(name):
            return ["k", {"ty": "fn", "fn": {"id": "textual::widget::Widget::" + name, "path": "textual::widget::Widget::" + name, "ga": [],
                                             "trait": "textual::widget::Widget", "name": name, "self": "dyn textual::widget::Widget<M>", "dyn": True, "norm": True}}]
        nx = ["k", {"ty": "fn", "fn": {"id": "std::iter::next", "path": "std::iter::Iterator::next", "ga": [], "trait": "std::iter::Iterator", "name": "next",
                                        "self": "std::ops::Range<usize>", "norm": True}}]
        head, chk, body, got, run = (B.new_block(blk) for _ in range(5))
        start = B.new_block(blk, [assign(rng, ["agg", "adt", "std::ops::Range", "Range", ["start", "end"], [["k", {"ty": "usize", "v": 0}], cp(cnt)]], line)], ["goto", head])
        blk["s"] = blk["s"] + [assign(w, ["use", ["c", args[0][1]]], line)]
        blk["t"] = ["call", meth("child_count"), [cp(w)], [cnt, []], start, None, line]
        B.blocks[head]["s"] = [assign(it, ["ref", "mut", [rng, []]], line)]
        B.blocks[head]["t"] = ["call", nx, [cp(it)], [n, []], chk, None, line]
        B.blocks[chk]["s"] = [assign(d, ["disc", [n, []], "std::option::Option<usize>", OPT_VARS], line)]
        B.blocks[chk]["t"] = ["switch", mv(d), [["0", target]], body, "isize"]
        B.blocks[body]["s"] = [assign(ix, ["use", ["m", [n, SOME]]], line)]
        B.blocks[body]["t"] = ["call", meth("get_child_mut"), [cp(w), cp(ix)], [o, []], got, None, line]
        B.blocks[got]["s"] = [assign(d2, ["disc", [o, []], "std::option::Option<?>", OPT_VARS], line)]
        B.blocks[got]["t"] = ["switch", mv(d2), [["0", head]], run, "isize"]
        B.blocks[run]["s"] = [assign(cur, ["use", ["m", [o, SOME]]], line)]
        B.blocks[run]["t"] = ["goto", head]
        return self.call_closure(B, run, clo, args[1], [cp(cur)], [r, []], head, unwind, line)

    # -- iterators -------------------------------------------------------
    LAZY = ("map", "filter", "filter_map", "enumerate", "rev", "cloned", "copied", "inspect", "take_while", "peekable", "into_iter", "by_ref", "flatten_none")

    def chain_of(self, B, op, stages, seen=0):
        """follow op (an iterator operand) back through lazy adaptor calls.
        returns base operand; stages filled outermost-last"""
        if seen > 12 or op[0] == "k":
            return op
        pl = op[1]
        if [e for e in pl[1] if e != "*"]:
            return op
        ds = []
        for bi, b in enumerate(B.blocks):
            if b["cu"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1][0] == pl[0] and not s[1][1]:
                    ds.append(("rv", s[2]))
            t = b["t"]
            if t[0] == "call" and t[3][0] == pl[0] and not t[3][1]:
                ds.append(("call", t))
        if len(ds) != 1:
            return op
        k, d = ds[0]
        if k == "rv":
            if d[0] == "use" and d[1][0] != "k":
                return self.chain_of(B, d[1], stages, seen + 1)
            if d[0] == "ref":
                return self.chain_of(B, ["c", d[2]], stages, seen + 1)
            return op
        f = d[1]
        if f[0] != "k" or "fn" not in f[1]:
            return op
        fn = f[1]["fn"]
        tr = fn.get("trait", "")
        nm = fn.get("name")
        if tr.endswith("IntoIterator") and nm == "into_iter":
            st = fn.get("self", "")
            if st.startswith(("std::iter::", "core::iter::", "std::slice::Iter", "core::slice")):
                return self.chain_of(B, d[2][0], stages, seen + 1)
            return op
        if tr.endswith("::Iterator") and nm in ("map", "filter", "filter_map", "enumerate", "cloned", "copied", "rev", "inspect"):
            if nm in ("map", "filter", "filter_map", "inspect"):
                clo = self.closure_of(B, d[2][1])
                if clo is None:
                    return op
                stages.insert(0, (nm, clo, d[2][1]))
            else:
                stages.insert(0, (nm, None, None))
            return self.chain_of(B, d[2][0], stages, seen + 1)
        return op

    def emit_next(self, B, bb, base, stages, on_some, on_none, unwind, line, rev=False):
        """block bb: fetch next element of base through stages; on success jump to block
        made by on_some(local) ; on exhaustion jump to on_none.  bb is also the retry head."""
        blk = B.blocks[bb]
        n = B.new_local("std::option::Option<?>", None, "std::option::Option")
        d = B.new_local("isize")
        body = B.new_block(blk)
        chk = B.new_block(blk, [assign(d, ["disc", [n, []], "std::option::Option<?>", OPT_VARS], line)],
                          ["switch", mv(d), [["0", on_none]], body, "isize"])
        rev = any(s[0] == "rev" for s in stages) ^ rev
        it = B.new_local("&mut ?")
        if base[0] == "k":
            return False
        # the base local stays live up to the consumer
        for bk in B.blocks:
            if any(s[0] == "dead" and s[1] == base[1][0] for s in bk["s"]):
                bk["s"] = [s for s in bk["s"] if not (s[0] == "dead" and s[1] == base[1][0])]
        # reference to the base iterator local
        bty = B.locals[base[1][0]][0] if not base[1][1] else ""
        if bty.startswith("&mut"):
            blk["s"] = blk["s"] + [assign(it, ["use", ["c", base[1]]], line)]
        else:
            blk["s"] = blk["s"] + [assign(it, ["ref", "mut", base[1]], line)]
        nm = "next_back" if rev else "next"
        fnk = ["k", {"ty": "fn", "fn": {"id": "std::iter::" + nm, "path": "std::iter::Iterator::" + nm, "ga": [],
                                         "trait": "std::iter::Iterator", "name": nm, "self": bty, "norm": True}}]
        blk["t"] = ["call", fnk, [cp(it)], [n, []], chk, None, line]
        cur = B.new_local("?")
        B.blocks[body]["s"] = [assign(cur, ["use", ["m", [n, SOME]]], line)]
        at = body
        thinned = False
        for nm, clo, cop in stages:
            if nm in ("filter", "filter_map"):
                thinned = True
            if nm == "rev":
                continue
            if nm in ("cloned", "copied"):
                c2 = B.new_local("?")
                B.blocks[at]["s"] = B.blocks[at]["s"] + [assign(c2, ["use", ["c", [cur, ["*"]]]], line)]
                cur = c2
                continue
            if nm == "enumerate":
                ix = B.new_local("usize", "enumerate_index")
                c2 = B.new_local("(usize, ?)")
                nxt = B.new_block(blk, [assign(c2, ["agg", "tuple", "", "", [], [cp(ix), cp(cur)]], line)])
                en = "enum_filtered" if thinned else "enum_index"
                ek = ["k", {"ty": "fn", "fn": {"id": "vp::enum_index", "path": "vp::enum_index", "ga": [], "name": en}}]
                B.blocks[at]["t"] = ["call", ek, [cp(it)], [ix, []], nxt, None, line]
                at = nxt
                cur = c2
                continue
            r = B.new_local(clo.locals[0][0])
            nxt = B.new_block(blk)
            B.blocks[at]["t"] = ["goto", nxt]
            if nm == "map":
                ok = self.call_closure(B, at, clo, cop, [cp(cur)], [r, []], nxt, unwind, line)
                cur = r
            elif nm in ("filter", "inspect"):
                rf = B.new_local("&?")
                B.blocks[at]["s"] = B.blocks[at]["s"] + [assign(rf, ["ref", "shr", [cur, []]], line)]
                ok = self.call_closure(B, at, clo, cop, [cp(rf)], [r, []], nxt, unwind, line)
                if nm == "filter":
                    n2 = B.new_block(blk)
                    B.blocks[nxt]["t"] = ["switch", mv(r), [["0", bb]], n2, "bool"]
                    nxt = n2
            else:  # filter_map
                ok = self.call_closure(B, at, clo, cop, [cp(cur)], [r, []], nxt, unwind, line)
                d2 = B.new_local("isize")
                n2 = B.new_block(blk)
                B.blocks[nxt]["s"] = [assign(d2, ["disc", [r, []], "std::option::Option<?>", OPT_VARS], line)]
                B.blocks[nxt]["t"] = ["switch", mv(d2), [["0", bb]], n2, "isize"]
                c2 = B.new_local("?")
                B.blocks[n2]["s"] = [assign(c2, ["use", ["m", [r, SOME]]], line)]
                cur = c2
                nxt = n2
            at = nxt
        B.blocks[at]["t"] = ["goto", on_some(cur)]
        return True

    def iter_comb(self, B, bb, call, name, args, dest, target, unwind, line):
        if call.fn.get("norm"):
            return
        if name == "next":
            stages = []
            base = self.chain_of(B, args[0], stages)
            if not any(s[0] != "rev" for s in stages) and not stages:
                return
            blk = B.blocks[bb]
            # a block that only takes references can itself be the head the adaptors retry from: the loop keeps one header
            own = all(s[0] != "=" or s[2][0] == "ref" for s in blk["s"])
            head = bb if own else B.new_block(blk)
            # the block that looks at the result is copied to both outcomes, so that neither forgets where it came from
            tb = B.blocks[target]
            dup = tb["t"][0] == "switch" and len(tb["s"]) <= 6 and target != bb

            def fin(st):
                if dup:
                    return B.new_block(blk, st + [list(x) for x in tb["s"]], [x for x in tb["t"]])
                return B.new_block(blk, st, ["goto", target])
            none = fin([["=", dest, NONE, line]])
            if self.emit_next(B, head, base, stages, lambda cur: fin([["=", dest, some_of(mv(cur)), line]]), none, unwind, line) and head != bb:
                blk["t"] = ["goto", head]
            return
        if name not in ("for_each", "any", "all", "find", "find_map", "position", "fold", "count", "try_for_each", "sum", "collect", "last", "max", "min"):
            return
        stages = []
        base = self.chain_of(B, args[0], stages)
        clo = None
        if name == "fold":
            clo = self.closure_of(B, args[2])
        elif name not in ("count", "sum", "collect", "last", "max", "min"):
            clo = self.closure_of(B, args[1])
            if clo is None:
                return
        if name == "fold" and clo is None:
            return
        if name in ("position", "try_for_each"):
            return
        if name in ("count", "sum", "collect", "last", "max", "min") and not stages:
            return
        blk = B.blocks[bb]
        head = B.new_block(blk)
        it = B.new_local(B.locals[base[1][0]][0] if base[0] != "k" and not base[1][1] else "?")
        if base[0] == "k":
            return
        if name == "for_each":
            none = B.new_block(blk, [["=", dest, ["agg", "tuple", "", "", [], []], line]], ["goto", target])
        elif name == "any":
            none = B.new_block(blk, [["=", dest, ["use", kbool(False)], line]], ["goto", target])
        elif name == "all":
            none = B.new_block(blk, [["=", dest, ["use", kbool(True)], line]], ["goto", target])
        elif name in ("find", "find_map"):
            none = B.new_block(blk, [["=", dest, NONE, line]], ["goto", target])
        else:  # fold,count
            acc = B.new_local("acc")
            none = B.new_block(blk, [["=", dest, ["use", mv(acc)], line]], ["goto", target])
            init = args[1] if name == "fold" else ["k", {"ty": "usize", "v": 0}]
            if name in ("collect", "last", "max", "min"):
                init = ["k", {"ty": "?", "disp": "empty"}]
            blk["s"] = blk["s"] + [assign(acc, ["use", init], line)]

        def on_some(cur):
            if name == "count":
                return B.new_block(blk, [assign(acc, ["bin", "Add", cp(acc), ["k", {"ty": "usize", "v": 1}]], line)], ["goto", head])
            if name == "sum":
                return B.new_block(blk, [assign(acc, ["bin", "Add", cp(acc), cp(cur)], line)], ["goto", head])
            if name in ("collect", "last", "max", "min"):
                ek = ["k", {"ty": "fn", "fn": {"id": "vp::" + name, "path": "vp::" + name, "ga": [], "name": "vp_" + name}}]
                return B.new_block(blk, [], ["call", ek, [cp(acc), cp(cur)], [acc, []], head, None, line])
            r = B.new_local(clo.locals[0][0])
            b0 = B.new_block(blk)
            if name == "for_each":
                fin = head
                a = [cp(cur)]
            elif name in ("any", "all"):
                hit = B.new_block(blk, [["=", dest, ["use", kbool(name == "any")], line]], ["goto", target])
                if name == "any":
                    fin = B.new_block(blk, [], ["switch", mv(r), [["0", head]], hit, "bool"])
                else:
                    fin = B.new_block(blk, [], ["switch", mv(r), [["0", hit]], head, "bool"])
                a = [cp(cur)]
            elif name == "find":
                rf = B.new_local("&?")
                B.blocks[b0]["s"] = [assign(rf, ["ref", "shr", [cur, []]], line)]
                hit = B.new_block(blk, [["=", dest, some_of(mv(cur)), line]], ["goto", target])
                fin = B.new_block(blk, [], ["switch", mv(r), [["0", head]], hit, "bool"])
                a = [cp(rf)]
            elif name == "find_map":
                d2 = B.new_local("isize")
                hit = B.new_block(blk, [["=", dest, ["use", mv(r)], line]], ["goto", target])
                fin = B.new_block(blk, [assign(d2, ["disc", [r, []], "std::option::Option<?>", OPT_VARS], line)],
                                  ["switch", mv(d2), [["0", head]], hit, "isize"])
                a = [cp(cur)]
            else:  # fold
                fin = B.new_block(blk, [assign(acc, ["use", mv(r)], line)], ["goto", head])
                a = [cp(acc), cp(cur)]
            B.blocks[b0]["t"] = ["goto", fin]
            cop = args[2] if name == "fold" else args[1]
            self.call_closure(B, b0, clo, cop, a, [r, []], fin, unwind, line)
            return b0
        if self.emit_next(B, head, base, stages, on_some, none, unwind, line):
            blk["t"] = ["goto", head]


def adt_of_ty(ty):
    """ADT path of a printed type (references and generics stripped)"""
    t = ty
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
    return t.split("<", 1)[0] if not t.startswith(("<", "(", "[", "dyn ")) else None


def normalize(P, body, inline=None, self_adt=None, **kw):
    return Normalizer(P, inline, **kw).run(body, self_adt)
