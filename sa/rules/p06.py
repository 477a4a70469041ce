"""P06  Drawing lands where it is asked to, inside the canvas and the active clip."""
from rules.p07 import *
from rules import ineq
from rules.ineq import implied, ge, gt, strip, of_fact

S1 = ("D", ("arg", 1))
POS = ("x", "y", "width", "height")


class Geo:
    """names of the canvas parts, found by type"""


def geometry(P, R):
    cs = [a for p, a in P.adts.items() if p.endswith("canvas::Canvas")]
    if not R.ob("canvas", len(cs) == 1, "the canvas type is missing", ""):
        return None
    g = Geo()
    g.path = cs[0]["path"]
    fs = cs[0]["variants"][0][1]
    g.cells = [f[0] for f in fs if re.match(r"^std::vec::Vec<.*canvas::Cell>$", f[1])]
    st = [f[0] for f in fs if re.match(r"^std::vec::Vec<.*canvas::Region>$", f[1])]
    sz = [f[0] for f in fs if f[1].endswith("canvas::Size")]
    if not R.ob("canvas:fields", len(g.cells) == 2 and len(st) == 1 and len(sz) == 1, "the canvas no longer has two cell buffers, one clip stack and one size", ""):
        return None
    g.stack, g.size = st[0], sz[0]
    g.W = I(("mem", S1, (g.size, "width")))
    g.H = I(("mem", S1, (g.size, "height")))
    return g


def region_of(P, c):
    cb = P.bodies.get(c.callee_id)
    return cb is not None and cb.kind != "closure" and cb.locals[0][0].endswith("canvas::Region")


def no_region(P):
    def g(c, cb):
        if cb.kind != "closure" and (cb.name in ("display_width", "graphemes", "text", "fg", "bg", "cell_length", "style", "segments") or cb.locals[0][0].endswith("canvas::Region") or cb.name in ("put_grapheme", "put_str", "put_char", "render_strip")):
            return False
        return w_inline(c, cb)
    return g


def nonneg(t):
    """values of unsigned type: a size of the canvas, the width of a text, a length"""
    return t[0] == "mem" and t[2][-1:] in (("width",), ("height",)) and len(t[2]) == 2 or t[0] == "call" and last(t) in ("display_width", "len", "cell_length", "width")


def check(P, R):
    R.rule("every write of a cell is under branch facts that imply, by linear arithmetic, that its column and row lie inside the clip region and the canvas; every way round a write implies the opposite; "
           "the clip handed over is the top of the clip stack (or the whole canvas); pushed clips are exact intersections; texts advance by the width drawn")
    g = geometry(P, R)
    if g is None:
        return
    mod = [b for b in P.fns(crate="textual") if b.where().split(":")[0].endswith("/canvas.rs") and b.kind != "closure"]
    sizes(P, R, g, mod)
    clips(P, R, g, mod)
    writes(P, R, g, mod)
    texts(P, R, g, mod)
    inter(P, R, g)


def sizes(P, R, g, mod):
    """both buffers hold width x height cells, for ever"""
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or not any(s[0] == "=" and s[2][0] == "agg" and "canvas::Canvas" in str(s[2]) for blk in b.blocks for s in blk["s"]):
            continue
        f = flow(P, b, w_inline, key="tree")
        R.fn(b)
        for bb, v, fs in f.ret_values():
            for y in walk(v):
                if y and y[0] == "agg" and y[1] == g.path:
                    d = dict(y[3])
                    n += 1
                    sz = dict(d[g.size][3]) if d[g.size][0] == "agg" else {}
                    for c in g.cells:
                        x = d[c]
                        ok = x[0] == "call" and last(x) == "from_elem" and x[2][1][0] == "bin" and x[2][1][1] == "Mul" and {strip(z) for z in x[2][1][2:]} == {strip(sz.get("width", x)), strip(sz.get("height", x))} and \
                            all(z[0] == "cast" and z[1] in ("usize", "u32", "u64") or z[0] == "k" for z in x[2][1][2:])
                        R.ob("new:%s" % c, ok, "a new canvas has %s cells in %s" % (show(x[2][1])[:60] if x[0] == "call" and len(x[2]) > 1 else show(x)[:60], c), b.where())
    R.floor("constructors", n, 1, "places that build a canvas")
    for b in mod:
        if not (b.self_adt or "").endswith("canvas::Canvas"):
            continue
        f = flow(P, b, no_region(P), key="noreg")
        for c, a, fs in f.calls():
            if not a:
                continue
            for y in a:
                t = y
                if t[0] == "ref" and t[1] == S1 and t[2] == (g.size,) and c.name not in ("clone", "eq", "ne"):
                    R.ob("size", False, "the size of a canvas is handed out for change", c.where())
            t = a[0]
            if t[0] == "ref" and t[1] == S1 and t[2][:1] and t[2][0] in g.cells and len(t[2]) == 1:
                R.ob("resize", c.name not in ("push", "pop", "clear", "truncate", "resize", "remove", "insert", "extend", "drain", "append", "retain", "swap_remove", "split_off", "set_len"), "%s changes the number of cells" % b.name, c.where())
                if c.name in ("swap", "replace", "take"):
                    ok = c.name == "swap" and a[1][0] == "ref" and a[1][1] == S1 and a[1][2][:1] and a[1][2][0] in g.cells
                    R.ob("swap", ok, "%s exchanges the cells for something else" % b.name, c.where())
        for bb, st in f.outstate.items():
            for c, v in (st.get(S1) or {}).items():
                if c[:1] == (g.size,) and v[0] not in ("mem", "clob", "phi"):
                    R.ob("size:write", False, "%s changes the size of a canvas but not its cells" % b.name, b.where())


def clips(P, R, g, mod):
    n = 0
    ref = I(("ref", S1, (g.stack,)))
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b not in mod:
            continue
        # who yields the active clip
        if b.locals[0][0].endswith("canvas::Region") and b.argc == 1 and "canvas::Canvas" in b.locals[1][0]:
            n += 1
            R.fn(b)
            f = flow(P, b, w_inline, key="tree")
            k = 0
            for bb, v, fs in f.ret_values():
                for (x,), lf in joint_leaves(f, [v], fs):
                    k += 1
                    top = any(y and y[0] == "call" and last(y) == "last" and "%s" % g.stack in str(y) for y in walk(x))
                    if top:
                        R.ob("clip:top", x[0] in ("mem", "f"), "%s changes the clip it reads: %s" % (b.name, show(x)[:80]), b.where())
                    else:
                        d = dict(x[3]) if x[0] == "agg" else {}
                        want = {"x": I(("k", 0)), "y": I(("k", 0)), "width": g.W, "height": g.H}
                        nn = lambda t: t in (g.W, g.H)
                        full = bool(d) and all(implied((), ge(d[n], want[n]), nn) and implied((), ge(want[n], d[n]), nn) for n in POS)
                        none = any(y[0] == "is" and y[1][0] == "disc" and y[2] == "None" and g.stack in str(y[1]) for y in lf) or any(y[0] == "is" and y[2] is True and last(y[1]) == "is_empty" and g.stack in str(y[1]) for y in lf)
                        R.ob("clip:whole", full and none, "without the whole canvas being the only limit the clip is %s" % show(x)[:100], b.where())
            R.ob("clip:cases", k >= 2, "%s does not tell an empty clip stack apart" % b.name, b.where())
        f = flow(P, b, no_region(P), key="noreg")
        for c, a, fs in f.calls():
            if not a or ptr(a[0]) != ref and a[0] != ref:
                continue
            if c.name == "push":
                R.fn(b)
                v = a[1]
                ok = v[0] == "call" and last(v) == "intersection" and len(v[2]) == 2 and any(clip_call(P, z) for z in map(ptr, v[2])) and any(z[0] == "arg" for z in map(ptr, v[2]))
                R.ob("push", ok, "%s sets the clip to %s" % (b.name, show(v)[:80]), c.where())
                for p in paths(f) or []:
                    R.ob("push:once", sum(1 for cc, aa in p.calls() if cc.name == "push" and aa[0] == ref) == 1, "%s does not set exactly one clip when %s" % (b.name, facts_of(p)), b.where())
            elif c.name in ("pop", "truncate", "clear", "drain", "remove", "retain", "insert", "append", "extend", "resize"):
                R.ob("stack:%s" % c.name, c.name == "pop" or c.name == "clear", "%s changes the clip stack by %s" % (b.name, c.name), c.where())
                if c.name == "pop":
                    R.fn(b)
                    for p in paths(f) or []:
                        R.ob("pop:once", sum(1 for cc, aa in p.calls() if cc.name == "pop" and aa[0] == ref) == 1, "%s does not remove exactly one clip when %s" % (b.name, facts_of(p)), b.where())
                if c.name == "clear":
                    whole = any(cc.name == "fill" or "cells" in str(aa[0]) for cc, aa, _ in f.calls() if aa)
                    R.ob("stack:reset", whole, "%s forgets all clips without starting a new frame" % b.name, c.where())
    R.floor("clip", n, 1, "functions that yield the active clip")


def clip_call(P, v):
    v = ptr(v)
    return v[0] == "call" and any(b.path == v[1] and b.locals[0][0].endswith("canvas::Region") and b.argc == 1 for b in P.fns(crate="textual")) and ptr(v[2][0]) == ("arg", 1)


def decompose(g, idx):
    """(row, column) of a cell index"""
    idx = strip(idx)
    if idx[0] == "bin" and idx[1] == "Add":
        for m, c in ((idx[2], idx[3]), (idx[3], idx[2])):
            m = strip(m)
            if m[0] == "bin" and m[1] == "Mul":
                for r, w in ((m[2], m[3]), (m[3], m[2])):
                    if is_w(g, strip(w)):
                        return strip(r), strip(c)
    return None


def is_w(g, v):
    return v == g.W or v[0] == "phi" and v[2] == (S1, (g.size, "width")) or v[0] == "phi" and v[2] == (S1, (g.size,)) or v[0] == "mem" and v[2][-2:] == (g.size, "width")


def region_fields(P, f, b):
    """the clip a drawing function works with: a region parameter, or the active clip it looked up"""
    for i in range(1, b.argc + 1):
        if b.locals[i][0].endswith("canvas::Region"):
            r = ("D", ("arg", i)) if b.locals[i][0].startswith("&") else None
            return {n: I(("mem", r, (n,))) if r else I(("f", ("arg", i), n)) for n in POS}, i
    for c, a, fs in f.calls():
        if region_of(P, c) and len(a) == 1:
            v = I(("call", P.bodies[c.callee_id].path, tuple(a), None))
            for y in all_values(f):
                if y and y[0] == "f" and y[1][0] == "call" and y[1][1] == v[1]:
                    return {n: I(("f", y[1], n)) for n in POS}, None
    return None, None


def all_values(f):
    for fs in f.edgefacts.values():
        for x in fs or ():
            for y in walk(x[1]):
                yield y


def inside(fs, cl, x, y, g, last_col=None):
    """which bound the facts do not imply, or None"""
    k0 = I(("k", 0))
    e = I(("bin", "Add", cl["x"], cl["width"]))
    s = I(("bin", "Add", cl["y"], cl["height"]))
    for nm, goal in (("left of the clip", ge(x, cl["x"])), ("right of the clip", gt(e, x)), ("above the clip", ge(y, cl["y"])), ("below the clip", gt(s, y))):
        if not implied(fs, goal, nonneg):
            return nm
    return None


def writes(P, R, g, mod):
    n = 0
    for b in mod:
        if not any(c.name in ("index_mut", "get_mut", "get_unchecked_mut", "iter_mut", "split_at_mut") for c in b.calls()):
            continue
        f = flow(P, b, no_region(P), key="noreg")
        cl, arg = region_fields(P, f, b)
        for c, a, fs in f.calls():
            if c.name in ("index_mut", "get_mut", "get_unchecked_mut", "iter_mut", "split_at_mut") and a[0][0] == "ref" and a[0][1] == S1 and a[0][2] and a[0][2][0] in g.cells:
                n += 1
                R.fn(b)
                d = decompose(g, a[1]) if len(a) > 1 else None
                if not R.ob("%s:index" % b.name, d is not None, "%s writes cell %s" % (b.name, show(a[1])[:80] if len(a) > 1 else "?"), c.where()):
                    continue
                if not R.ob("%s:clip" % b.name, cl is not None, "%s writes cells without looking at the clip" % b.name, c.where()):
                    continue
                out = inside(fs, cl, d[1], d[0], g)
                R.ob("%s:inside" % b.name, out is None, "%s can write a cell %s" % (b.name, out), c.where())
                # beyond the canvas: follows from the clip being part of it; direct checks are not needed
        if cl is None or not any(c.name == "index_mut" for c, a, fs in f.calls()):
            continue
        grapheme(P, R, b, f, g, cl)
    R.floor("writes", n, 2, "places that change a cell")


def outside(fs, cl, g, x, y, w):
    """the facts of a path imply that the text at (x, y) of width w does not fit in the clip or the canvas"""
    k0 = I(("k", 0))
    e = I(("bin", "Add", cl["x"], cl["width"]))
    s = I(("bin", "Add", cl["y"], cl["height"]))
    end = I(("bin", "Add", x, w)) if w is not None else x
    goals = [ge(x, cl["x"]), gt(e, x), ge(y, cl["y"]), gt(s, y), ge(x, k0), gt(g.W, x), ge(y, k0), gt(g.H, y)]
    if w is not None:
        goals += [ge(e, end), ge(g.W, end)]
    return implied(fs, {1: -1}, nonneg, goals)


def grapheme(P, R, b, f, g, cl):
    """put_grapheme: (canvas, x, y, text, width, fg, bg, attrs, clip)"""
    ints = [i for i in range(2, b.argc + 1) if b.locals[i][0] == "i32"]
    us = [i for i in range(2, b.argc + 1) if b.locals[i][0] == "usize"]
    tx = [i for i in range(2, b.argc + 1) if b.locals[i][0].endswith("str")]
    at = [i for i in range(2, b.argc + 1) if b.locals[i][0].endswith("TextAttributes")]
    if not R.ob("%s:args" % b.name, len(ints) == 2 and len(us) == 1 and len(tx) == 1 and len(at) == 1, "%s no longer takes a position, a text, a width and attributes" % b.name, b.where()):
        return
    X, Y, Wd, T, AT = (I(("arg", i)) for i in (ints[0], ints[1], us[0], tx[0], at[0]))
    FG = [i for i in range(2, b.argc + 1) if b.locals[i][0].startswith("std::option::Option") and "style::Color" in b.locals[i][0] and "Rgba" not in b.locals[i][0]]
    lps = [l for l in loops(f)]
    hdr = {l.hdr for l in lps}
    ps = paths(f, 0, hdr) or []
    R.ob("%s:paths" % b.name, bool(ps), "%s cannot be followed" % b.name, b.where())
    lead = wide = 0
    for p in ps:
        w = cell_writes(f, g, p)
        if not w:
            # text behind a translucent colour is kept, and a transparent one changes nothing
            kept = p.end != "return" or any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" for x in p.facts) and fits(p.facts, cl, X, Y)
            R.ob("%s:skip" % b.name, outside(p.facts, cl, g, X, Y, Wd) or kept, "%s leaves out text that is inside the clip when %s" % (b.name, facts_of(p)), b.where())
            continue
        for (row, col), flds in w:
            lead += 1
            R.ob("%s:at" % b.name, row == Y and col == X, "%s writes to row %s, column %s" % (b.name, show(row)[:40], show(col)[:40]), b.where())
            if "symbol" in flds:
                ok = any(y == T for y in walk(flds["symbol"])) and strip(flds["width"]) == Wd and flds["continuation"] == ("k", False) and flds["attrs"] == AT and (not FG or flds["fg"] == ("arg", FG[0]))
                R.ob("%s:cell" % b.name, ok, "%s stores another text, width, colour or attribute than it was given" % b.name, b.where())
            R.ob("%s:fits" % b.name, implied(p.facts, ge(I(("bin", "Add", cl["x"], cl["width"])), I(("bin", "Add", X, Wd))), nonneg), "%s draws a wide character across the edge of the clip" % b.name, b.where())
    for l in lps:
        s = l.src
        d = dict(s[3]) if s is not None and s[0] == "agg" and s[1].endswith("Range") else {}
        if not d:
            continue
        col = None
        for c0 in (I(("bin", "Add", X, l.item)), l.item):
            at = lambda v: ineq.term(I(("bin", "Add", X, v))) if c0 is not l.item else ineq.term(v)
            if at(d["start"]) == ineq.term(I(("bin", "Add", X, I(("k", 1))))) and at(d["end"]) == ineq.term(I(("bin", "Add", X, Wd))):
                col = c0
        if col is None:
            continue
        for p in l.iters():
            w = cell_writes(f, g, p)
            if not w:
                same = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" for x in p.facts)
                R.ob("%s:rest:skip" % b.name, same or outside(p.facts, cl, g, col, Y, None), "%s leaves out part of a wide character when %s" % (b.name, facts_of(p)), b.where())
            R.ob("%s:rest:on" % b.name, p.end == "stop", "%s stops in the middle of a wide character" % b.name, b.where())
            for (row, c), flds in w:
                wide += 1
                R.ob("%s:rest:at" % b.name, row == Y and ineq.term(c) == ineq.term(col), "%s marks column %s" % (b.name, show(c)[:60]), b.where())
                if "symbol" in flds:
                    R.ob("%s:rest:cell" % b.name, flds["continuation"] == ("k", True) and flds["width"] == ("k", 0), "%s does not mark the rest of a wide character as such" % b.name, b.where())
    R.ob("%s:lead" % b.name, lead >= 1, "%s never writes its cell" % b.name, b.where())
    R.ob("%s:rest" % b.name, wide >= 1, "%s does not mark the columns a wide character takes up" % b.name, b.where())


def fits(fs, cl, x, y):
    return all(implied(fs, q, nonneg) for q in (ge(x, cl["x"]), ge(y, cl["y"])))


def cell_writes(f, g, p):
    """[((row, col), {field: value})] stores into cells on a path"""
    out = []
    for c, a in p.calls():
        if c.name in ("index_mut",) and a[0][0] == "ref" and a[0][1] == S1 and a[0][2] and a[0][2][0] in g.cells:
            d = decompose(g, a[1])
            if d is None:
                continue
            flds = {}
            # the store follows the call (the old cell is dropped in between)
            i = max(j for j, bb in enumerate(p.blocks) if bb == c.bb)
            for nb in p.blocks[i + 1:i + 5]:
                so = f.outstate.get(nb) or {}
                for k, v in (so.get(S1) or {}).items():
                    if k and k[0] == a[0][2][0] and len(k) >= 2 and k[1] == ("[]", a[1]):
                        if len(k) == 2 and v[0] == "agg":
                            flds.update(dict(v[3]))
                        elif len(k) == 3 and not (v[0] == "phi" and v[1] not in p.blocks):
                            flds[k[2]] = v
            out.append((d, flds))
    return out


def loop_of(f, bb):
    """the innermost loop around a block"""
    ls = sorted((l for l in loops(f) if bb in l.body), key=lambda l: len(l.body))
    return ls[0] if ls else None


def texts(P, R, g, mod):
    """callers of the drawing primitive: clip and position handed over"""
    prim = [b for b in mod if any(c.name == "index_mut" for c in b.calls()) and any(b.locals[i][0].endswith("canvas::Region") for i in range(1, b.argc + 1))]
    n = 0
    for b in mod:
        f = None
        for pb in prim:
            if b.id != pb.id and any(c.callee_id == pb.id for c in b.calls()):
                f = f or flow(P, b, no_region(P), key="noreg")
                R.fn(b)
                n += 1
                ri = next(i for i in range(1, pb.argc + 1) if pb.locals[i][0].endswith("canvas::Region"))
                xi, yi = [i for i in range(2, pb.argc + 1) if pb.locals[i][0] == "i32"]
                wi = next(i for i in range(2, pb.argc + 1) if pb.locals[i][0] == "usize")
                ti = next(i for i in range(2, pb.argc + 1) if pb.locals[i][0].endswith("str"))
                ai = next(i for i in range(2, pb.argc + 1) if pb.locals[i][0].endswith("TextAttributes"))
                mine = [i for i in range(2, b.argc + 1) if b.locals[i][0] == "i32"]
                mat = [i for i in range(2, b.argc + 1) if b.locals[i][0].endswith("TextAttributes")]
                for c, a, fs in f.calls():
                    if c.callee_id != pb.id:
                        continue
                    v = f.at(c.bb, a[ri - 1])
                    R.ob("%s:clip" % b.name, clip_call(P, v), "%s draws with the clip %s" % (b.name, show(v)[:80]), c.where())
                    R.ob("%s:row" % b.name, len(mine) == 2 and a[yi - 1] == ("arg", mine[1]), "%s draws in row %s" % (b.name, show(a[yi - 1])[:60]), c.where())
                    R.ob("%s:attrs" % b.name, bool(mat) and a[ai - 1] == ("arg", mat[0]), "%s draws with other attributes" % b.name, c.where())
                    t, w = a[ti - 1], a[wi - 1]
                    R.ob("%s:width" % b.name, strip(w)[0] == "call" and last(strip(w)) in ("display_width", "width") and strip(w)[2][0] == t, "%s draws %s with the width %s" % (b.name, show(t)[:40], show(w)[:60]), c.where())
                    colours(R, b, f, a, pb, c)
                    x = a[xi - 1]
                    lp = loop_of(f, c.bb)
                    if lp is None:
                        R.ob("%s:col" % b.name, len(mine) == 2 and x == ("arg", mine[0]), "%s draws in column %s" % (b.name, show(x)[:60]), c.where())
                        for p in paths(f) or []:
                            R.ob("%s:always" % b.name, any(cc.callee_id == pb.id for cc, aa in p.calls()), "%s draws nothing when %s" % (b.name, facts_of(p)), b.where())
                    else:
                        along(P, R, b, f, g, lp, c, x, mine, w, t, fs, v)
    R.floor("texts", n, 2, "callers of the drawing primitive")
    strips(P, R, mod)


def colours(R, b, f, a, pb, c):
    mine = [i for i in range(2, b.argc + 1) if "RgbaColor" in b.locals[i][0]]
    idx = [i for i in range(2, pb.argc + 1) if b is not None and ("style::Color" in pb.locals[i][0] or "RgbaColor" in pb.locals[i][0])]
    if len(mine) == 2 and len(idx) == 2:
        for m, i in zip(mine, idx):
            v = a[i - 1]
            ok = any(y == ("arg", m) for q in f.expand_phi(v) for y in walk(deep(f, q)))
            other = [j for j in mine if j != m][0]
            bad = any(y == ("arg", other) for q in f.expand_phi(v) for y in walk(deep(f, q)))
            R.ob("%s:colour%d" % (b.name, mine.index(m)), (ok or all(not list(x for x in walk(q) if x and x[0] == "arg") for q in f.expand_phi(v))) and not bad, "%s draws with a colour it was not given" % b.name, c.where())


def deep(f, v):
    out = [v]
    for y in walk(v):
        if y and y[0] == "phi":
            out += f.expand_phi(y)
        if y and y[0] == "optref" and y[1][0] == "L":
            out.append(I(("arg", y[1][1])))
    return tuple(out)


def along(P, R, b, f, g, lp, c, x, mine, w, t, fs, clip):
    """a text is drawn left to right, one grapheme after the other"""
    R.ob("%s:all" % b.name, t == lp.item and "graphemes" in str(lp.src) and any(y and y[0] == "arg" and b.locals[y[1]][0].endswith("str") for y in walk(lp.src)) and not any(y and y[0] == "call" and last(y) in ("rev", "skip", "take", "step_by") for y in walk(lp.src)),
         "%s does not draw each grapheme of the text in turn" % b.name, c.where())
    ok = x[0] == "phi" and x[1] == lp.hdr
    if not R.ob("%s:col" % b.name, ok, "%s does not move along the row: %s" % (b.name, show(x)[:60]), c.where()):
        return
    ins = f.phi_in[(x[1], x[2])]
    for p, v in ins.items():
        good = v == ("arg", mine[0]) or ineq.term(v) == ineq.term(I(("bin", "Add", x, w)))
        R.ob("%s:step" % b.name, good, "%s goes on at column %s" % (b.name, show(v)[:80]), c.where())
    cl = {n: I(("f", clip, n)) for n in POS}
    for p in lp.iters():
        drawn = any(cc.callee_id == c.callee_id for cc, aa in p.calls())
        if not drawn:
            e = I(("bin", "Add", cl["x"], cl["width"]))
            past = implied(p.facts, ge(x, e), nonneg) or implied(p.facts, ge(x, g.W), nonneg)
            if p.end == "stop":
                past = past or outside(p.facts, cl, g, x, I(("arg", mine[1])), w)
            R.ob("%s:leave" % b.name, past, "%s leaves out the rest of a text when %s" % (b.name, facts_of(p)), b.where())
        else:
            R.ob("%s:goon" % b.name, p.end == "stop", "%s stops after a grapheme" % b.name, b.where())
    for p in paths(f, 0, {lp.hdr}) or []:
        if p.end == "return":
            R.ob("%s:early" % b.name, outside(p.facts, cl, g, I(("arg", mine[0])), I(("arg", mine[1])), None) and not_left(p.facts, cl, I(("arg", mine[0]))) or rows_out(p.facts, cl, g, I(("arg", mine[1]))), "%s draws nothing of a text when %s" % (b.name, facts_of(p)), b.where())


def not_left(fs, cl, x):
    return implied(fs, ge(x, I(("bin", "Add", cl["x"], cl["width"]))), nonneg)


def rows_out(fs, cl, g, y):
    s = I(("bin", "Add", cl["y"], cl["height"]))
    empty = [ge(I(("k", 0)), cl["width"]), ge(I(("k", 0)), cl["height"])]
    return any(implied(fs, q, nonneg) for q in [gt(cl["y"], y), ge(y, s), gt(I(("k", 0)), y), ge(y, g.H)] + empty) or any(x[0] == "is" and x[2] is True and last(x[1]) == "is_empty" for x in fs)


ATTR = ("bold", "dim", "italic", "underline", "strike", "reverse")


def strips(P, R, mod):
    ss = [b for b in mod if any(b.locals[i][0].endswith("strip::Strip") for i in range(2, b.argc + 1))]
    R.floor("strips", len(ss), 1, "functions that draw a strip")
    for b in ss:
        R.fn(b)
        f = flow(P, b, no_region(P), key="noreg")
        mine = [i for i in range(2, b.argc + 1) if b.locals[i][0] == "i32"]
        cs = [(c, a, fs) for c, a, fs in f.calls() if c.name == "put_str"]
        if not R.ob("%s:draws" % b.name, len(cs) == 1 and loop_of(f, cs[0][0].bb) is not None, "%s does not draw its segments in one loop" % b.name, b.where()):
            continue
        c, a, fs = cs[0]
        lp = loop_of(f, c.bb)
        x = a[1]
        R.ob("%s:row" % b.name, a[2] == ("arg", mine[1]), "%s draws in row %s" % (b.name, show(a[2])[:60]), c.where())
        R.ob("%s:text" % b.name, last(a[3]) == "text" and a[3][2][0] == lp.item, "%s draws %s" % (b.name, show(a[3])[:60]), c.where())
        for nm, v in (("fg", a[4]), ("bg", a[5])):
            R.ob("%s:%s" % (b.name, nm), any(y and y[0] == "call" and last(y) == nm and y[2][0] == lp.item for y in walk(v)) and not any(y and y[0] == "call" and last(y) == {"fg": "bg", "bg": "fg"}[nm] for y in walk(v)), "%s draws with %s %s" % (b.name, nm, show(v)[:60]), c.where())
        if R.ob("%s:col" % b.name, x[0] == "phi" and x[1] == lp.hdr, "%s does not move along the row" % b.name, c.where()):
            for p, v in f.phi_in[(x[1], x[2])].items():
                good = v == ("arg", mine[0])
                t = ineq.sub(ineq.term(v), {x: 1})
                good = good or len(t) == 1 and list(t.values()) == [1] and last(list(t)[0]) == "cell_length" and list(t)[0][2][0] == lp.item
                R.ob("%s:step" % b.name, good, "%s goes on at column %s" % (b.name, show(v)[:80]), c.where())
        for p in lp.iters():
            R.ob("%s:each" % b.name, any(cc.bb == c.bb for cc, aa in p.calls()) and p.end == "stop", "%s leaves out a segment when %s" % (b.name, facts_of(p)), b.where())
        k = 0
        for (v,), lf in joint_leaves(f, [a[6]], fs):
            if v[0] == "agg" and v[1].endswith("TextAttributes"):
                k += 1
                for n, y in v[3]:
                    R.ob("%s:attr:%s" % (b.name, n), y[0] in ("mem", "f") and (y[2][-1] if y[0] == "mem" else y[2]) == n, "%s draws %s for %s" % (b.name, show(y)[:60], n), c.where())
            elif v[0] == "phi":
                k += 1
        R.ob("%s:attrs" % b.name, k >= 1, "%s does not hand over the attributes of its segments" % b.name, c.where())
    for b in mod:
        if any("[" in b.locals[i][0] and "strip::Strip" in b.locals[i][0] for i in range(2, b.argc + 1)):
            R.fn(b)
            f = flow(P, b, no_region(P), key="noreg")
            mine = [i for i in range(2, b.argc + 1) if b.locals[i][0] == "i32"]
            for c, a, fs in f.calls():
                if c.name == "render_strip":
                    lp = loop_of(f, c.bb)
                    ok = lp is not None and ptr(a[1]) == ptr(lp.item) and a[2] == ("arg", mine[0])
                    if ok and a[3][0] == "phi" and a[3][1] == lp.hdr:
                        one = ineq.term(I(("bin", "Add", a[3], I(("k", 1)))))
                        ok = all(v == ("arg", mine[1]) or ineq.term(v) == one for v in f.phi_in[(a[3][1], a[3][2])].values()) and all(p.end == "stop" for p in lp.iters())
                        R.ob("%s:rows" % b.name, ok, "%s does not draw one strip below the other" % b.name, c.where())
                        continue
                    t = ineq.sub(ineq.term(a[3]), {I(("arg", mine[1])): 1})
                    ok = ok and len(t) == 1 and list(t.values()) == [1] and (last(list(t)[0]) == "enum_index" or list(t)[0] == lp.item)
                    R.ob("%s:rows" % b.name, ok, "%s draws a strip in row %s" % (b.name, show(a[3])[:60]), c.where())


def inter(P, R, g):
    """the intersection of two regions is exact"""
    bs = [b for b in P.fns(crate="textual") if b.name == "intersection" and (b.self_adt or "").endswith("canvas::Region")]
    if not R.ob("intersection", len(bs) == 1 and bs[0].argc == 2, "regions are not intersected", ""):
        return
    b = bs[0]
    R.fn(b)
    f = flow(P, b, w_inline, key="tree")
    A = {n: I(("mem", ("D", ("arg", 1)), (n,))) for n in POS}
    B = {n: I(("mem", ("D", ("arg", 2)), (n,))) for n in POS}
    pt = {"x": I(("arg", 90)), "y": I(("arg", 91))}

    def within(r):
        out = []
        for p, lo, ex in (("x", "x", "width"), ("y", "y", "height")):
            out += [ge(pt[p], r[lo]), gt(I(("bin", "Add", r[lo], r[ex])), pt[p])]
        return out
    k = 0
    for p in paths(f) or []:
        for (v,), lf in joint_leaves(f, [p.ret()], p.facts):
            k += 1
            if v[0] == "agg":
                r = dict(v[3])
            else:
                r = {n: I(("f", v, n)) for n in POS}
            for q in within(A) + within(B):
                R.ob("intersection:part", implied(lf, q, None, within(r)), "a point of the intersection can lie outside one of the regions", b.where())
            if all(ineq.strip(r[n])[0] == "k" for n in ("width", "height")):
                # empty: no point may lie in both
                R.ob("intersection:empty", implied(lf, {1: -1}, None, within(A) + within(B)), "the intersection is empty although the regions overlap", b.where())
            else:
                for q in within(r):
                    R.ob("intersection:whole", implied(lf, q, None, within(A) + within(B)), "a point of both regions can lie outside their intersection", b.where())
    R.ob("intersection:cases", k >= 1, "the intersection cannot be followed", b.where())
