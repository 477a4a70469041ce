"""P29  What is flushed to the terminal is exactly what was drawn."""
from rules.p06 import *

ATTR = {"bold": "Bold", "dim": "Dim", "italic": "Italic", "underline": "Underlined", "strike": "CrossedOut", "reverse": "Reverse"}


def check(P, R):
    R.rule("a must-dataflow over the flushing function with everything it calls inlined: which of the terminal's colours, attributes and cursor position are known to equal the cell's, the tracked values or the "
           "defaults; where a cell's symbol is written all must equal the cell's; every cell of the buffer is visited, and one is left out only if equal to the previous frame's or the tail of a wide character; "
           "the buffers change places afterwards; the canvas is cleared and drawn before each flush")
    g = geometry(P, R)
    if g is None:
        return
    g.prev, g.cur = None, None
    ca = [a for p, a in P.adts.items() if p.endswith("canvas::Cell")][0]
    g.cell = [x[0] for x in ca["variants"][0][1]]
    at = dict((x[0], x[1]) for x in ca["variants"][0][1])
    R.ob("cell", set(g.cell) >= {"symbol", "width", "continuation", "fg", "bg", "attrs"}, "a cell no longer has symbol, width, continuation, fg, bg and attrs", "")
    ta = [a for p, a in P.adts.items() if p == at.get("attrs")]
    g.attrs = [x[0] for x in ta[0]["variants"][0][1] if x[1] == "bool"] if ta else []
    R.ob("attrs", set(g.attrs) == set(ATTR), "the attributes of a cell are no longer %s" % ", ".join(sorted(ATTR)), "")
    mod = [b for b in P.fns(crate="textual") if (b.self_adt or "") == g.path and b.kind != "closure"]
    # entry: swaps the two buffers or is what writes to the terminal
    callers = {c.callee_id for b in mod for c in b.calls()}
    ent = []
    for b in mod:
        if b.id in callers:
            continue
        f = flow(P, b, w_inline, key="tree")
        if any(c.name in ("queue", "execute") for c, a, fs in f.calls()):
            ent.append((b, f))
    R.floor("flush", len(ent), 1, "functions that write the canvas to the terminal")
    for b, f in ent:
        R.fn(b)
        Flush(P, R, g, b, f).run()
    for b in mod:
        if b not in [x for x, _ in ent]:
            firsts(P, R, g, b)
    frames(P, R, g, [b for b, _ in ent])
    cleared(P, R, g, mod)


class Flush:
    def __init__(self, P, R, g, b, f):
        self.P, self.R, self.g, self.b, self.f = P, R, g, b, f

    def run(self):
        P, R, g, b, f = self.P, self.R, self.g, self.b, self.f
        self.sym = {}       # block of a call that writes a symbol -> cell place
        for c, a, fs in f.calls():
            if c.name in ("write_fmt", "write_all", "write_str", "write", "queue", "execute"):
                for x in a[1:]:
                    for y in walk(x):
                        if y and y[0] in ("ref", "mem", "f") and self.field_of(y) == "symbol":
                            self.sym[c.bb] = self.place(y)
        R.floor("emits", len(self.sym), 1, "places that write a cell's symbol")
        self.loops = []
        for lp in loops(f):
            s = [x for x in self.sym if x in lp.body]
            inner = [l2 for l2 in loops(f) if l2 is not lp and l2.hdr in lp.body and any(x in l2.body for x in s)]
            if s and not inner:
                self.loops.append(lp)
        covered = {x for lp in self.loops for x in lp.body if x in self.sym}
        R.ob("emit:loop", covered == set(self.sym) and bool(self.loops), "a cell's symbol is written outside the walk over the cells", b.where())
        for lp in self.loops:
            self.setup(lp)
        self.solve()
        for lp in self.loops:
            self.judge(lp)
        self.end()

    def field_of(self, y):
        if y[0] == "ref":
            return y[2][-1] if y[2] else None
        if y[0] == "mem":
            return y[2][-1] if y[2] else None
        return y[2] if y[0] == "f" else None

    def place(self, y):
        """the cell a field value or field pointer belongs to, as (root, comps)"""
        if y[0] in ("ref", "mem"):
            return (y[1], tuple(y[2][:-1]))
        return ("val", y[1])

    def cellfield(self, v, cell):
        """name of the field of the cell that v is (path joined by '.'), or None"""
        if v[0] == "mem" and v[1] == cell[0] and v[2][:len(cell[1])] == cell[1]:
            return ".".join(str(x) for x in v[2][len(cell[1]):])
        if v[0] == "f":
            if ("val", v[1]) == cell:
                return v[2]
            k = self.cellfield(v[1], cell)
            if k is not None:
                return k + "." + v[2] if k else v[2]
        return None

    def setup(self, lp):
        f, R, g = self.f, self.R, self.g
        lp.cells = {self.sym[x] for x in lp.body if x in self.sym}
        lp.cell = next(iter(lp.cells))
        R.ob("emit:one", len(lp.cells) == 1, "the walk over the cells writes symbols of different cells", self.b.where())
        # trackers, found as what a cell's fg, bg and attrs are compared with
        lp.trk = {}
        for (p, s), fs in f.edgefacts.items():
            if p not in lp.body:
                continue
        for c, a, fs in f.calls():
            if c.bb in lp.body and c.name in ("ne", "eq") and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if x[0] == "ref" and (x[1], tuple(x[2][:-1])) == lp.cell and x[2][-1] in ("fg", "bg", "attrs") and y[0] == "ref" and y[1][0] == "L":
                        lp.trk[x[2][-1]] = (y[1], y[2])
        lp.idx, lp.other, lp.col = self.index(lp)
        lp.diffs = lp.other is not None
        R.ob("walk:all", lp.idx is not None, "the walk does not run over every cell of the canvas: %s" % show(lp.src)[:120], self.b.where())

    def buf(self, v):
        """name of the cell buffer of self a value runs over"""
        for y in walk(v):
            if y and y[0] in ("ref", "mem") and y[1] == S1 and y[2][:1] and y[2][0] in self.g.cells:
                return y[2][0]
        return None

    def index(self, lp):
        """(value of the running index, place of the same cell in the other buffer, buffer)"""
        src, item = lp.src, lp.item
        cell = lp.cell

        def is_place(v, pl):
            # v a pointer value; pl the (root, comps) it designates
            return pl == (("D", v), ()) or pl[0] == "val" and pl[1] in (v, ("mem", ("D", v), ()))

        def whole(s):
            while s[0] == "call" and last(s) in ("iter", "into_iter", "deref", "as_slice") and s[2]:
                s = s[2][0]
            return s[2][0] if s[0] == "ref" and s[1] == S1 and len(s[2]) == 1 and s[2][0] in self.g.cells else None

        def build(s, v):
            """list of (kind, value, buffer) the item yields"""
            if s[0] == "call" and last(s) in ("into_iter", "iter", "by_ref") and s[2] and whole(s) is None:
                return build(s[2][0], v)
            w = whole(s)
            if w:
                return [("cell", v, w)]
            if s[0] == "call" and last(s) == "zip" and len(s[2]) == 2:
                l, r = build(s[2][0], proj(v, "0")), build(s[2][1], proj(v, "1"))
                return l + r if l and r else None
            if s[0] == "call" and last(s) == "enumerate":
                l = build(s[2][0], proj(v, "1"))
                return l and l + [("idx", proj(v, "0"), None)]
            if s[0] == "agg" and s[1].endswith("Range"):
                d = dict(s[3])
                e = d.get("end")
                if d.get("start") == ("k", 0) and e and (e[0] == "call" and last(e) == "len" and self.buf(e)):
                    return [("idx", v, "range")]
                return None
            if s[0] == "agg" and s[1].endswith("RangeFrom") and dict(s[3]).get("start") == ("k", 0):
                return [("idx", v, None)]
            return None
        # the engine renders enumerate by itself: item is the element, enum_index(..) the index
        s = src
        while s is not None and s[0] == "call" and last(s) in ("into_iter",) and s[2]:
            s = s[2][0]
        got = build(s, item) if s is not None else None
        if not got:
            return None, None, None
        idx = [v for k, v, w in got if k == "idx"]
        if not idx:
            for c, a, fs in self.f.calls():
                if c.name == "enum_index" and c.bb in lp.body:
                    for bb2, x in self.values(lp):
                        for y in walk(x):
                            if y and y[0] == "call" and last(y) == "enum_index":
                                idx = [y]
        mine = [(v, w) for k, v, w in got if k == "cell" and is_place(v, cell)]
        others = [(v, w) for k, v, w in got if k == "cell" and not is_place(v, cell)]
        if not mine and idx and cell[0] == S1 and len(cell[1]) == 2 and cell[1][0] in self.g.cells:
            # cells[i]
            ok = str(idx[0]) in str(cell[1][1])
            return (idx[0], (S1, (self.othername(cell[1][0]), cell[1][1])), cell[1][0]) if ok else (None, None, None)
        if not mine:
            return None, None, None
        return (idx[0] if idx else ("call", "enum_index", (), 0)), (("D", others[0][0]), ()) if others else None, mine[0][1]

    def othername(self, n):
        return [x for x in self.g.cells if x != n][0]

    def values(self, lp):
        for c, a, fs in self.f.calls():
            if c.bb in lp.body:
                for x in a:
                    yield c.bb, x

    # -- dataflow ---------------------------------------------------------------
    def solve(self):
        f = self.f
        self.hdrs = {lp.hdr: lp for lp in self.loops}
        self.arrays = self.array_loops()
        inn = {0: frozenset()}
        self.inn, self.out, self.edge = inn, {}, {}
        self.atcall = {}
        work = [0]
        n = 0
        while work and n < 60000:
            n += 1
            bb = work.pop(0)
            s = self.transfer(bb, inn[bb])
            self.out[bb] = s
            for t in f.b.succs(bb):
                fs = f.edgefacts.get((bb, t))
                if fs is None or t not in f.instate:
                    continue
                if failed(fs):
                    continue        # an error of the output: nothing is promised
                e = self.on_edge(bb, t, s, fs)
                self.edge[(bb, t)] = e
                new = e if t not in inn else inn[t] & e
                if t not in inn or new != inn[t]:
                    inn[t] = new
                    if t not in work:
                        work.append(t)

    def loop_at(self, bb):
        for lp in self.loops:
            if bb in lp.body:
                return lp
        return None

    def trackers(self, bb):
        """trackers to be observed at a block (those of every loop: they are set before the loop too)"""
        out = []
        for i, lp in enumerate(self.loops):
            for k, (r, c) in lp.trk.items():
                out.append((i, lp, k, r, c))
        return out

    def close(self, s):
        s = set(s)
        ch = True
        while ch:
            ch = False
            for i in range(len(self.loops)):
                for k in ("fg", "bg", "attrs"):
                    D, C = ("D", k), ("C", k)
                    N, K, E = ("N", i, k), ("K", i, k), ("E", i, k)
                    for a, b2, r in ((D, N, E), (C, K, E), (E, K, C), (N, E, D)):
                        if a in s and b2 in s and r not in s:
                            s.add(r)
                            ch = True
            if all(("okA", n) in s for n in self.g.attrs) and ("C", "attrs") not in s:
                s.add(("C", "attrs"))
                ch = True
        return frozenset(s)

    def kill(self, s, *names):
        return {x for x in s if not (x in names)}

    def term_changed(self, s, k):
        """the terminal's k changes to something: what was known about it goes"""
        return {x for x in s if not (x[0] in ("D", "C") and x[1] == k or x[0] == "E" and x[2] == k)}

    def tracker_class(self, v, lp, k):
        if k != "attrs":
            if v[0] == "agg" and v[2] == "None":
                return "N"
            if self.cellfield(v, lp.cell) == k:
                return "K"
            return None
        if v[0] == "k" and v[1] in (0, False):
            return "N"
        if v[0] == "agg" and len(v[3]) == len(self.g.attrs):
            if all(x == ("k", False) for n, x in v[3]):
                return "N"
            if all(self.cellfield(x, lp.cell) == "attrs." + n for n, x in v[3]):
                return "K"
        if v[0] == "call" and last(v) == "default":
            return "N"
        if self.cellfield(v, lp.cell) == "attrs":
            return "K"
        return None

    def transfer(self, bb, s):
        f, g = self.f, self.g
        s = set(s)
        lp = self.loop_at(bb)
        if bb in self.hdrs:
            s = {x for x in s if x[0] not in ("C", "K", "okA", "offA", "onA", "POS", "DONE", "EQX", "EQY", "AFTER")}
            s.add(("NW",))
        if bb not in f.outstate:
            return frozenset(s)
        for i, l2, k, r, c in self.trackers(bb):
            a, o = f.read(f.instate[bb], r, c), f.read(f.outstate[bb], r, c)
            if k == "attrs":
                a, o = self.whole_attr(f.instate[bb], r, c), self.whole_attr(f.outstate[bb], r, c)
            if a != o or self.stored(bb, r, c):
                s = {x for x in s if not (x[0] in ("N", "K", "E") and x[1] == i and x[2] == k)}
                t = self.tracker_class(o, l2, k)
                if t:
                    s.add((t, i, k))
                s = set(self.close(s))
        # commands
        info = f.call_info.get(bb)
        c = next((c for c in [self.call(bb)] if c is not None), None)
        if c is not None and info is not None:
            s = self.command(bb, c, info, s, lp)
        return self.close(s)

    def whole_attr(self, st, r, c):
        f = self.f
        v = f.read(st, r, c)
        return v

    def stored(self, bb, r, c):
        return False

    def call(self, bb):
        if not hasattr(self, "_calls"):
            self._calls = {c.bb: c for c in self.f.b.calls()}
        return self._calls.get(bb)

    def command(self, bb, c, a, s, lp):
        f, g = self.f, self.g
        if c.name == "swap" and "mem" in c.path:
            r = {x[2][0] for x in a if x[0] == "ref" and x[1] == S1 and len(x[2]) == 1}
            if r == set(g.cells):
                s.add(("SWAP",))
            return s
        if c.name in ("flush",) and a and a[0][0] != "arg" and not (a[0][0] == "ref" and a[0][1] == S1):
            s.add(("FL",))
            return s
        if bb in self.sym and lp is not None:
            self.atcall[bb] = frozenset(s)
            s = {x for x in s if x[0] not in ("NW", "POS", "FL", "SWAP")}
            s |= {("DONE",), ("AFTER",)}
            return s
        if c.name not in ("queue", "execute", "write_fmt", "write_all", "write_str", "write") or len(a) < 2:
            return s
        cmds = [y for x in a[1:] for y in walk(x) if y and y[0] == "agg" and y[1].split("::")[-1] in ("SetAttribute", "SetForegroundColor", "SetBackgroundColor", "MoveTo", "ResetColor", "SetColors", "SetAttributes", "Clear", "Print", "SetStyle")]
        s = {x for x in s if x[0] != "FL"}
        if not cmds:
            # something else is written: nothing is known any more
            return {x for x in s if x[0] in ("NW", "DONE", "N", "K", "EM", "NF", "KNOWN")}
        for y in cmds:
            n = y[1].split("::")[-1]
            v = dict(y[3]).get("0")
            if n == "MoveTo":
                s = {x for x in s if x[0] not in ("POS", "AFTER", "ORIGIN")}
                d = dict(y[3])
                if d["0"] == ("k", 0) and d["1"] == ("k", 0):
                    s.add(("ORIGIN",))
                if lp is not None and self.col_ok(lp, d["0"]) and self.row_ok(lp, d["1"]):
                    s.add(("POS",))
            elif n in ("SetForegroundColor", "SetBackgroundColor"):
                k = "fg" if n == "SetForegroundColor" else "bg"
                s = self.term_changed(s, k)
                if v[0] == "agg" and v[2] == "Reset":
                    s.add(("D", k))
                    if lp is not None and any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and self.cellfield(x[1][1], lp.cell) == k for x in self.f.infacts.get(bb, ())):
                        s.add(("C", k))
                elif lp is not None and self.colour(v, lp, k, self.f.infacts.get(bb, frozenset())):
                    s.add(("C", k))
            elif n == "ResetColor":
                for k in ("fg", "bg"):
                    s = self.term_changed(s, k)
                    s.add(("D", k))
            elif n == "SetAttribute":
                s = self.attribute(bb, v, s, lp)
            else:
                s = {x for x in s if x[0] in ("NW", "DONE", "N", "K", "EM", "NF", "KNOWN")}
        return s

    def attribute(self, bb, v, s, lp):
        g = self.g
        if v[0] == "agg" and v[2] == "Reset":
            for k in ("fg", "bg", "attrs"):
                s = self.term_changed(s, k)
                s.add(("D", k))
            s = {x for x in s if x[0] not in ("okA",)}
            for n in g.attrs:
                s.add(("offA", n))
                if ("knowF", n) in s:
                    s.add(("okA", n))
            return s
        keep = s
        s = self.term_changed(s, "attrs")
        if v[0] == "agg" and v[2] in ATTR.values():
            n = [k for k, x in ATTR.items() if x == v[2]][0]
            ok = n in g.attrs and lp is not None and self.fact_attr(self.f.infacts.get(bb, ()), lp, n) is True
            # the others stay as they are
            s = {x for x in s if x not in (("okA", n), ("offA", n))}
            if ok:
                s.add(("okA", n))
            return s
        if lp is not None:
            for h, (body, pairs, good) in self.arrays.items():
                if bb in body and good:
                    return s
        return {x for x in s if x[0] not in ("okA", "offA")}

    def fact_attr(self, fs, lp, n):
        for x in fs:
            if x[0] == "is" and isinstance(x[2], bool) and self.cellfield(x[1], lp.cell) == "attrs." + n:
                return x[2]
        return None

    def array_loops(self):
        """for (flag, attribute) in [(cell.attrs.bold, Bold), ..] { if flag { set } }"""
        f = self.f
        out = {}
        for lp in loops(f):
            s = lp.src
            while s is not None and s[0] == "call" and last(s) in ("into_iter", "iter") and s[2]:
                s = s[2][0]
            if s is not None and s[0] in ("refv",):
                s = s[1]
            if s is None or s[0] != "agg" or s[1] != "array":
                continue
            pairs = []
            for _, x in s[3]:
                d = [y for _, y in x[3]] if x[0] == "agg" else []
                at = [y for y in d if y[0] == "agg" and y[1].endswith("Attribute")]
                fl = [y for y in d if y not in at]
                if len(at) == 1 and len(fl) == 1:
                    pairs.append((fl[0], at[0][2]))
            good = len(pairs) == len(s[3])
            sets = {c.bb for c, a, fs in f.calls() if c.bb in lp.body and c.name in ("queue", "execute", "write_fmt", "write_all")}
            item = str(lp.item)

            def flag(fs):
                for x in fs:
                    if x[0] == "is" and isinstance(x[2], bool) and x[1][0] in ("f", "mem", "phi") and item in str(x[1]):
                        return x[2]
                return None
            for bb in sets:
                c = self.call(bb)
                at = [y for x in f.call_info[bb][1:] for y in walk(x) if y and y[0] == "agg" and y[1].endswith("SetAttribute")]
                good = good and len(at) == 1 and item in str(at[0]) and flag(f.infacts.get(bb, ())) is True
            # a way round with the flag set passes one of them
            st, seen = [lp.hdr], set()
            while st:
                bb = st.pop()
                for t in f.b.succs(bb):
                    fs = f.edgefacts.get((bb, t))
                    if fs is None or t not in lp.body or failed(fs) or (bb, t) in seen or bb in sets or flag(fs) is False:
                        continue
                    seen.add((bb, t))
                    if t == lp.hdr:
                        good = False
                    else:
                        st.append(t)
            out[lp.hdr] = (lp.body, pairs, good and bool(sets) and lp.call)
        return out

    def colour(self, v, lp, k, fs):
        """v is the cell's colour, or the default where it has none"""
        if v[0] == "call" and last(v) == "unwrap_or" and len(v[2]) == 2:
            return self.cellfield(v[2][0], lp.cell) == k and v[2][1][0] == "agg" and v[2][1][2] == "Reset"
        lv = joint_leaves(self.f, [v], fs)
        for (x,), lf in lv or [((("k", 0),), ())]:
            if self.cellfield(x, lp.cell) == k + ".Some.0":
                continue
            if x[0] == "agg" and x[2] == "Reset" and any(y[0] == "is" and y[1][0] == "disc" and y[2] == "None" and self.cellfield(y[1][1], lp.cell) == k for y in lf):
                continue
            return False
        return True

    def col_ok(self, lp, v):
        v = strip(v)
        return v[0] == "bin" and v[1] == "Rem" and strip(v[2]) == lp.idx_v(v[2]) and strip(v[3]) == self.g.W if hasattr(lp, "idx_v") else \
            v[0] == "bin" and v[1] == "Rem" and self.is_idx(lp, v[2]) and strip(v[3]) == self.g.W

    def row_ok(self, lp, v):
        v = strip(v)
        return v[0] == "bin" and v[1] == "Div" and self.is_idx(lp, v[2]) and strip(v[3]) == self.g.W

    def is_idx(self, lp, v):
        v = strip(v)
        return v == lp.idx or v[0] == "call" and last(v) == "enum_index" and lp.idx is not None and last(lp.idx) == "enum_index"

    def on_edge(self, p, t, s, fs):
        f, g = self.f, self.g
        s = set(s)
        for x in fs:
            if x[0] == "is" and x[1] == ("mem", S1, (self.first(),)) and x[2] is False:
                s |= {("NF",), ("KNOWN",)}
        for h, (body, pairs, call) in self.arrays.items():
            if p in body and t not in body and call and any(x[0] == "is" and x[1][0] == "disc" and x[1][1] == call and x[2] == "None" for x in fs):
                lp = self.loop_at(h)
                for fl, a in pairs:
                    for n, m in ATTR.items():
                        if m == a and lp is not None and self.cellfield(fl, lp.cell) == "attrs." + n and ("offA", n) in s:
                            s.add(("okA", n))
        for lp in self.loops:
            if p in lp.body and t not in lp.body and lp.is_next(fs, "None"):
                s.add(("EM",))
                s.add(("EM", self.loops.index(lp)))
                if lp.trk and not lp.diffs:
                    s.add(("KNOWN",))
        lp = self.loop_at(p)
        if lp is None or t not in lp.body:
            return frozenset(s)
        i = self.loops.index(lp)
        for x in fs:
            if x[0] != "is" or not isinstance(x[2], bool):
                continue
            v, val = x[1], x[2]
            n = self.cellfield(v, lp.cell)
            if n == "continuation" and val:
                s.add(("DONE",))
            for m in g.attrs:
                if n == "attrs." + m and not val and ("offA", m) in s:
                    s.add(("okA", m))
            if v[0] == "bin" and v[1] in ("Eq", "Ne"):
                same = (v[1] == "Eq") == val
                if not same:
                    continue
                l, r2 = v[2], v[3]
                if l[0] == "agg" and r2[0] == "agg" and len(l[3]) == len(r2[3]):
                    prs = [(x1, y1) for (_, x1), (_, y1) in zip(l[3], r2[3])]
                else:
                    prs = [(l, r2)]
                for a, b2 in [z for x1, y1 in prs for z in ((x1, y1), (y1, x1))]:
                    a1, b1 = self.unref(a), self.unref(b2)
                    if self.is_cell(a1, lp.cell) and lp.other is not None and self.is_cell(b1, lp.other):
                        s.add(("DONE",))
                        s.add(("DIFF", i))
                    for k, (r, c) in lp.trk.items():
                        cur = f.read(f.outstate[p], r, c)
                        if self.cellfield(a1, lp.cell) == k and self.unref(cur) == b1:
                            s.add(("K", i, k))
                    for nm, okf in (("EQX", self.col_ok), ("EQY", self.row_ok)):
                        if okf(lp, a) and b2[0] == "phi" and b2[1] == lp.hdr:
                            s.add((nm,))
                            if nm == "EQX":
                                lp.cx = b2
                            else:
                                lp.cy = b2
        if ("EQX",) in s and ("EQY",) in s and ("NW",) in s and not ("AFTER",) in s:
            s.add(("POS",))
        return self.close(s)

    def unref(self, v):
        while v[0] == "mem" and v[2] == () and v[1][0] == "D" and isinstance(v[1][1], tuple) and v[1][1][0] in ("mem", "phi", "agg"):
            v = v[1][1]
        if v[0] == "d" or v[0] == "deref":
            v = v[1]
        return v

    def is_cell(self, v, cell):
        return v[0] == "mem" and (v[1], tuple(v[2])) == cell or cell[0] == "val" and v == cell[1] or v[0] == "mem" and v[2] == () and v[1][0] == "D" and self.is_cell(v[1][1], cell)

    def first(self):
        if not hasattr(self, "_first"):
            a = [a for p, a in self.P.adts.items() if p == self.g.path][0]
            bs = [x[0] for x in a["variants"][0][1] if x[1] == "bool"]
            self._first = bs[0] if len(bs) == 1 else "first_flush"
        return self._first

    # -- verdicts ---------------------------------------------------------------
    def judge(self, lp):
        R, f = self.R, self.f
        i = self.loops.index(lp)
        nm = f.origin(lp.hdr).name
        for bb in sorted(x for x in lp.body if x in self.sym):
            s = self.atcall.get(bb, frozenset())
            R.count("emissions")
            wh = self.call(bb).where()
            for k, t in (("fg", "foreground colour"), ("bg", "background colour"), ("attrs", "attributes")):
                R.ob("%s:%s" % (nm, k), ("C", k) in s, "%s: a cell's symbol can be written with a %s that is not the cell's" % (nm, t), wh)
            R.ob("%s:position" % nm, ("POS",) in s, "%s: a cell's symbol can be written while the cursor is not at the cell" % nm, wh)
            R.ob("%s:once" % nm, ("NW",) in s, "%s: a cell's symbol can be written twice" % nm, wh)
        cx, cy = getattr(lp, "cx", None), getattr(lp, "cy", None)
        for p in f.b.preds()[lp.hdr]:
            e = self.edge.get((p, lp.hdr))
            if e is None:
                continue
            for k in lp.trk:
                R.ob("%s:tracked:%s" % (nm, k), ("E", i, k) in e, "%s: the %s it takes the terminal to have is not what was sent" % (nm, k), self.b.where())
            back = p in lp.body
            if back:
                R.ob("%s:all" % nm, ("DONE",) in e, "%s: a cell can be left out though it changed and starts a character" % nm, self.b.where())
            if cx is not None and cy is not None:
                self.cursor(lp, nm, p, cx, cy, back)
        for p in lp.body:
            for t in f.b.succs(p):
                fs = f.edgefacts.get((p, t))
                if t in lp.body or fs is None or t not in f.instate or f.b.term(t)[0] == "unreachable":
                    continue
                ok = lp.is_next(fs, "None") or any(x[0] == "is" and x[1][0] == "disc" and x[2] in ("Err", "Break") for x in fs)
                R.ob("%s:stops" % nm, ok, "%s: the walk over the cells can stop early without an error" % nm, self.b.where())
        if self.diff(lp):
            e = [self.edge[(p, lp.hdr)] for p in f.b.preds()[lp.hdr] if p not in lp.body and (p, lp.hdr) in self.edge]
            R.ob("%s:known" % nm, bool(e) and all(("NF",) in x for x in e), "%s: differences are sent though the terminal has not had a full frame" % nm, self.b.where())

    def diff(self, lp):
        return any(("DIFF", self.loops.index(lp)) in e for e in self.edge.values())

    def cursor(self, lp, nm, p, cx, cy, back):
        R, f = self.R, self.f
        vals = tuple(f.phi_in.get((x[1], x[2]), {}).get(p, x) for x in (cx, cy))
        for (vx, vy), pe, fs in self.spread(vals, (p, lp.hdr), lp):
            e = self.edge.get(pe, frozenset())
            if vx[0] == "k" and vx[1] < 0 or vy[0] == "k" and vy[1] < 0:
                continue
            if not back:
                ok = vx == ("k", 0) and vy == ("k", 0) and ("ORIGIN",) in e
                R.ob("%s:start" % nm, ok, "%s: starts as if the cursor were at (%s, %s)" % (nm, show(vx), show(vy)), self.b.where())
                continue
            if vx == cx and vy == cy:
                R.ob("%s:cursor" % nm, ("NW",) in e, "%s: the cursor position is not followed after a cell is written" % nm, self.b.where())
                continue
            ok = False
            if ("AFTER",) in e:
                w = [y for y in self.allv(lp) if self.cellfield(y, lp.cell) == "width"]
                xs = {y for v in (vx, vy) for y in walk(v) if y and y[0] == "bin" and self.col_ok(lp, y)} | {y for x in fs for y in walk(x) if y and y[0] == "bin" and y[1] == "Rem" and self.col_ok(lp, y)}
                ys = {y for v in (vx, vy) for y in walk(v) if y and y[0] == "bin" and self.row_ok(lp, y)}
                for x in xs:
                    for y in ys:
                        for wv in w:
                            nx = I(("bin", "Add", x, wv))
                            if ineq.term(vx) == ineq.term(nx) and ineq.term(vy) == ineq.term(y):
                                ok = True
                            ny = I(("bin", "Add", y, I(("k", 1))))
                            if vx == ("k", 0) and ineq.term(vy) == ineq.term(ny) and implied(fs, ge(nx, self.g.W)):
                                ok = True
            R.ob("%s:cursor" % nm, ok, "%s: after a cell the cursor is taken to be at (%s, %s)" % (nm, show(vx)[:80], show(vy)[:80]), self.b.where())

    def allv(self, lp):
        if not hasattr(lp, "_allv"):
            s = set()
            for bb in lp.body:
                for r, d in (self.f.outstate.get(bb) or {}).items():
                    if isinstance(d, dict):
                        for v in d.values():
                            if isinstance(v, tuple):
                                s |= {y for y in walk(v) if y and y[0] in ("mem", "f")}
            lp._allv = s
        return lp._allv

    def spread(self, vals, edge, lp, fs=None, depth=0):
        """the pairs of values a pair may be, with the edge where they are settled and the facts of the way"""
        f = self.f
        fs = (fs or frozenset()) | frozenset(f.edgefacts.get(edge) or ())
        ks = {x[1] for v in vals for x in phis_of(v)}
        ks.discard(lp.hdr)
        if not ks or depth > 12:
            return [(vals, edge, fs)]
        dom = f.b.dominators()
        k = max(ks, key=lambda z: len(dom.get(z, ())))
        out = []
        for q in f.b.preds()[k]:
            if f.edgefacts.get((q, k)) is None:
                continue
            nv = tuple(I(subst_phi(f, v, k, q)) for v in vals)
            out += self.spread(nv, (q, k), lp, fs, depth + 1)
        return out

    def end(self):
        R, f, g = self.R, self.f, self.g
        n = 0
        for bb, v, fs in f.ret_values():
            for (vals, e, _) in self.spread((v,), (None, bb), _NoLoop, None):
                x = vals[0]
                err = x[0] == "agg" and x[2] == "Err" or x[0] == "call" and last(x) in ("from_residual",) or any(y and y[0] == "call" and last(y) == "from_residual" for y in walk(x))
                if err:
                    continue
                n += 1
                s = self.edge.get(e, self.out.get(bb, frozenset())) if e[0] is not None else self.out[bb]
                R.ob("frame", ("EM",) in s, "%s can end without having sent the cells" % self.b.name, self.b.where())
                R.ob("swap", ("SWAP",) in s, "%s can end without remembering the frame it sent" % self.b.name, self.b.where())
                fl = ("FL",) in s or x[0] == "call" and last(x) == "flush"
                R.ob("flushed", fl, "%s can end without pushing the output out" % self.b.name, self.b.where())
        R.floor("ends", n, 1, "successful ends of flushing")
        # the mark that a full frame is known to the terminal
        for bb, st in f.outstate.items():
            if bb not in f.instate:
                continue
            a, o = f.read(f.instate[bb], S1, (self.first(),)), f.read(st, S1, (self.first(),))
            if a != o and o != ("k", True) and o[0] != "phi":
                s = self.inn.get(bb, frozenset())
                R.ob("first", ("KNOWN",) in s, "%s takes the terminal to have a full frame without sending one" % self.b.name, self.b.where())


def failed(fs):
    return any(x[0] == "is" and x[1][0] == "disc" and x[2] in ("Err", "Break") for x in fs)


class _NoLoop:
    hdr = -1


def phis_of(v):
    return [y for y in walk(v) if y and y[0] == "phi" and len(y) == 3]


def firsts(P, R, g, b):
    f = flow(P, b, w_inline, key="tree")
    nm = [x[0] for x in [a for p, a in P.adts.items() if p == g.path][0]["variants"][0][1] if x[1] == "bool"]
    if len(nm) != 1:
        R.ob("first:one", False, "the canvas has %d marks" % len(nm), "")
        return
    nm = nm[0]
    for bb, st in f.outstate.items():
        v = (st.get(S1) or {}).get((nm,))
        if v is not None and v[0] == "k":
            R.ob("first:%s" % b.name, v[1] is True, "%s takes the terminal to have a full frame" % b.name, b.where())
    for bb, v, fs in f.ret_values():
        for y in walk(v):
            if y and y[0] == "agg" and y[1] == g.path:
                R.ob("first:new", dict(y[3]).get(nm) == ("k", True), "a new canvas takes the terminal to have a full frame", b.where())


def frames(P, R, g, ents):
    """each flush follows one clearing and one drawing"""
    ids = {b.id for b in ents}
    n = 0
    for b in P.fns(crate="textual"):
        if (b.self_adt or "") == g.path:
            continue
        by = {c.bb: c for c in b.calls()}
        if not any(c.callee_id in ids for c in by.values()):
            continue
        n += 1
        R.fn(b)
        inn, work = {0: frozenset()}, [0]
        at = {}
        while work:
            bb = work.pop()
            s = set(inn[bb])
            c = by.get(bb)
            if c is not None:
                cb = P.bodies.get(c.callee_id)
                mine = cb is not None and (cb.self_adt or "") == g.path
                if mine and c.name in ("clear", "new"):
                    s = {"clear"}
                elif c.name == "render" and c.trait == W:
                    at[bb] = frozenset(s)
                    s = {"drawn"} if "clear" in s else set()
                elif c.callee_id in ids:
                    at[bb] = frozenset(s)
                    s = set()
            for t in b.succs(bb):
                new = frozenset(s) if t not in inn else inn[t] & s
                if t not in inn or new != inn[t]:
                    inn[t] = new
                    work.append(t)
        for bb, s in at.items():
            c = by[bb]
            if c.callee_id in ids:
                R.ob("frame:drawn", "drawn" in s, "%s can send a frame that was not drawn anew on a cleared canvas" % b.path.split("::")[-1], c.where())
                R.count("frames")
    R.floor("frames", n, 1, "functions that send frames")


def cleared(P, R, g, mod):
    n = 0
    for b in mod:
        if b.name != "clear":
            continue
        n += 1
        R.fn(b)
        f = flow(P, b, w_inline, key="tree")
        fill = stack = False
        for c, a, fs in f.calls():
            t = ptr(a[0]) if a else None
            if c.name == "fill" and g.cells and any(y and y[0] == "ref" and y[1] == S1 and y[2] == (g.cells[0],) for y in walk(a[0])):
                fill = blank(a[1])
            if c.name in ("clear",) and any(y and y[0] == "ref" and y[1] == S1 and y[2] == (g.stack,) for y in walk(a[0])):
                stack = True
            if c.name == "truncate" and any(y and y[0] == "ref" and y[1] == S1 and y[2] == (g.stack,) for y in walk(a[0])) and a[1] == ("k", 0):
                stack = True
        for bb, v, fs in f.ret_values():
            st = f.outstate[bb].get(S1) or {}
            x = st.get((g.cells[0],))
            if x is not None and x[0] == "call" and last(x) == "from_elem":
                fill = fill or blank(x[2][0])
            x = st.get((g.stack,))
            if x is not None and (x[0] == "call" and last(x) in ("new", "default") or x[0] == "agg"):
                stack = True
        for lp in loops(f):
            for p in lp.iters():
                for bb in p.blocks:
                    for r, d in (f.outstate.get(bb) or {}).items():
                        if r[0] == "D" and isinstance(d, dict) and () in d and blank(d[()]):
                            fill = True
        R.ob("clear:cells", fill, "clearing a canvas does not make every cell blank", b.where())
        R.ob("clear:clips", stack, "clearing a canvas leaves clips", b.where())
    R.floor("clear", n, 1, "clearing of a canvas")


def blank(v):
    d = dict(v[3]) if v[0] == "agg" else {}

    def off(x):
        return x == ("k", False) or x[0] == "agg" and all(off(y) for _, y in x[3]) or x[0] == "call" and last(x) == "default"
    return d.get("width") == ("k", 1) and d.get("continuation") == ("k", False) and d["fg"][0] == "agg" and d["fg"][2] == "None" and d["bg"][0] == "agg" and d["bg"][2] == "None" and off(d["attrs"]) and \
        any(y and y[0] == "k" and y[1] == " " or y == ("k", "b' '") or "' '" in str(y) or '" "' in str(y) for y in walk(d["symbol"]))
