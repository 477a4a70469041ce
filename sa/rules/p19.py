"""P19  An SVG export shows every cell of the screen, in its colours and style, safely escaped."""
import ast
from rules.p06 import *

ENT = {"<": {"&lt;", "&#60;"}, ">": {"&gt;", "&#62;", ">"}, "&": {"&amp;", "&#38;"}, '"': {"&quot;", "&#34;", '"'}, "'": {"&apos;", "&#39;", "'"}, " ": {"&#160;", " "}}
UNSAFE = {"<", "&"}


_walk = walk


def walk(v):
    return [x for x in _walk(v) if x]


def svg(b):
    return b.krate == "textual" and (b.path or "").startswith("textual::svg::") and "::tests::" not in b.path


def strlit(v):
    for x in walk(v):
        if x[0] == "c" and isinstance(x[1], str) and x[1][:1] in "'\"":
            try:
                return ast.literal_eval(x[1])
            except Exception:
                return None
        if x[0] == "k" and isinstance(x[1], str) and not isinstance(x[1], bool):
            return x[1]
    return None


def pieces(v):
    """[(text before it, flags, the value displayed)] of one Arguments value, in order; None when it cannot be read"""
    for x in walk(v):
        if x[0] == "call" and last(x) == "new" and "Arguments" in str(x[1]) and len(x[2]) == 2:
            t, arr = x[2]
            raw = None
            for y in walk(t):
                for z in y:
                    if isinstance(z, str) and z.startswith('b"'):
                        raw = z
            if raw is None:
                return None
            b = ast.literal_eval(raw)
            vals = [e for e in walk(arr) if e[0] == "agg"]
            if not vals:
                return None
            vals = [w[1] if isinstance(w, tuple) and len(w) == 2 and not isinstance(w[0], tuple) else w for w in vals[0][3]]
            out, i, lit, n = [], 0, "", 0
            while i < len(b) and b[i]:
                k = b[i]
                i += 1
                if k < 0x80:
                    lit += b[i:i + k].decode("utf8", "replace")
                    i += k
                elif k == 0x80:
                    m = b[i] + 256 * b[i + 1]
                    lit += b[i + 2:i + 2 + m].decode("utf8", "replace")
                    i += 2 + m
                else:
                    extra = b""
                    for bit, w in ((1, 4), (2, 2), (4, 2)):
                        if k & bit:
                            extra += b[i:i + w]
                            i += w
                    ix = n
                    if k & 8:
                        ix = b[i] + 256 * b[i + 1]
                        i += 2
                    if ix >= len(vals):
                        return None
                    out.append((lit, k, extra, vals[ix]))
                    lit = ""
                    n = ix + 1
            return out
    return None


def shown(e):
    """what a formatting argument displays, references and borrows as str taken off"""
    v = e[3]
    while True:
        if v[0] == "call" and (last(v) or "").startswith("new_") and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "refv":
            v = v[1]
        elif v[0] == "call" and last(v) in ("as_str", "deref", "borrow", "as_ref", "clone", "to_string") and v[2]:
            v = v[2][0]
        elif v[0] == "call" and last(v) == "trim" and v[2]:
            v = v[2][0]
        else:
            return v


def uncast(v):
    while v[0] == "cast":
        v = v[-1] if isinstance(v[-1], tuple) else v[1]
    return v


def field(v, name):
    """v is a cell's field of this name (or something reached through it)"""
    for x in walk(v):
        if len(x) == 3 and (x[0] in ("mem", "ref") and isinstance(x[2], tuple) and name in x[2] or x[0] == "f" and x[2] == name) and any(y[:1] == ("call",) and last(y) == "cell_at" for y in walk(x)):
            return True
    return False


def check(P, R):
    R.rule("on every way through one column of the exporter's line loops, symbols leave the pending run only through the escaper into a written element that carries the run's own start, colour class and attributes; a run never mixes "
           "styles; a line's end leaves no visible text or colour unwritten; the escaper lets no markup character through; colours are written as their own r, g, b; each colour of a cell has a class, defined once with that colour")
    own = [b for b in P.fns(crate="textual") if svg(b) and b.kind != "closure" and b.name]
    esc = {b.name for b in own if b.argc == 1 and b.locals[1][0] == "&str" and b.locals[0][0].endswith("String")}
    hexes = {b.name for b in own if b.argc == 1 and b.locals[1][0].endswith("style::Color") and b.locals[0][0].endswith("String")}
    deco = {b.name for b in own if b.argc == 1 and b.locals[1][0].endswith("TextAttributes") and b.locals[0][0].endswith("String")}
    R.floor("svg", len(own), 10, "functions of the SVG exporter")
    R.ob("parts", bool(esc) and bool(hexes), "the SVG exporter no longer has a function that escapes text and one that writes a colour", "")
    calls = {b.name: {c.name for c in b.calls()} for b in own}
    small = {b.name for b in own if not b.pub and has_no_loop(b)}
    for _ in range(3):
        for b in own:
            for n in list(calls[b.name]):
                if n in small and n != b.name:
                    calls[b.name] |= calls[n]
    opaque = esc | hexes | deco | {b.name for b in own if b.pub}
    drives = {b.name for b in own if "cell_at" in calls[b.name] and any(l[0].endswith("canvas::Canvas") for l in b.locals[1:b.argc + 1]) and not has_no_loop(b)}
    nt = nb = nc = 0
    for b in own:
        if b.name in esc:
            escaper(P, R, b)
        elif b.name in hexes:
            hexer(P, R, b)
        elif b.name in deco:
            decorates(P, R, b)
        f = None
        if "cell_at" in calls[b.name]:
            f = flow(P, b, lambda c, cb: svg(cb) and cb.name not in opaque and cb.name not in drives and "StyleCollector" not in (cb.self_adt or ""), key="p19")
            if has_no_loop(f.b):
                continue
            kinds = kind_of(f)
            if "symbol" in kinds:
                nt += 1
                texts(P, R, b, f, esc, deco)
            elif "bg" in kinds:
                nb += 1
                backs(P, R, b, f, hexes)
            elif "fg" in kinds:
                nc += 1
                collects(P, R, b, f)
        if re.search("StyleCollector", b.self_adt or "") and b.argc == 2:
            adds(P, R, b)
    R.floor("texts", nt, 1, "functions that write a line's text")
    R.floor("backs", nb, 1, "functions that write a line's background")
    R.floor("collects", nc, 1, "functions that collect the colours of cells")
    order(P, R, own, calls, opaque, drives)


def kind_of(f):
    out = set()
    for c, a, _ in f.calls():
        for v in a:
            for n in ("symbol", "bg", "fg"):
                if field(v, n):
                    out.add(n)
    for k, v in f.stmt_vals.items():
        for n in ("symbol", "bg", "fg"):
            if field(v[2], n):
                out.add(n)
    return out


def axis(f, v, which):
    """v is the exported screen's width (0) or height (1)"""
    v = uncast(v)
    return v[0] == "f" and v[2] == str(which) and v[1][0] == "call" and last(v[1]) == "size"


def span(lp):
    """(low, high, inclusive) of the range a loop runs over"""
    v = lp.src
    while v is not None and v[0] == "call" and last(v) in ("into_iter",) and v[2]:
        v = v[2][0]
    if v is None:
        return None
    if v[0] == "call" and last(v) == "new" and len(v[2]) == 2:
        return v[2][0], v[2][1], True
    if v[0] == "agg" and "Range" in str(v[1]):
        d = [w[1] if isinstance(w, tuple) and len(w) == 2 and not isinstance(w[0], tuple) else w for w in v[3]]
        return (d[0], d[1], False) if len(d) == 2 else None
    return None


def grid(f, R, b):
    """the loops over lines and columns, both over the whole screen"""
    ls = [lp for lp in loops(f) if lp.src is not None and span(lp)]
    col = [lp for lp in ls if axis(f, span(lp)[1], 0) and span(lp)[0] == ("k", 0)]
    row = [lp for lp in ls if axis(f, span(lp)[1], 1) and span(lp)[0] == ("k", 0) and not span(lp)[2]]
    R.ob(f"{b.name}/grid", len(col) == 1 and len(row) == 1 and col[0].hdr in row[0].body, f"{b.name} no longer goes through every line and every column of the screen, each from 0 to its size", b.where())
    return (row[0], col[0]) if len(col) == 1 and len(row) == 1 else (None, None)


def cells_right(R, b, f, y, x, w):
    n = 0
    for c, a, _ in f.calls():
        if c.name == "cell_at":
            n += 1
            i = uncast(a[1])
            ok = i[0] == "bin" and i[1].startswith("Add") and any(uncast(p) == x and q[0] == "bin" and q[1].startswith("Mul") and {repr(uncast(q[2])), repr(uncast(q[3]))} == {repr(y), repr(uncast(w))} for p, q in ((uncast(i[2]), uncast(i[3])), (uncast(i[3]), uncast(i[2]))))
            R.ob(f"{b.name}/cell@{n}", ok, f"{b.name}: the cell it reads is no longer the one at line y and column x (index y * width + x): {show(i)}", c.where())
    R.floor(f"{b.name}/cells", n, 1, f"reads of a cell in {b.name}")


def same_style(fs, run, cur):
    """the facts say that run equals the cell's value (True), differs (False), or nothing (None)"""
    for x in fs:
        if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Ne", "Eq"):
            a, c = x[1][2], x[1][3]
            a, c = unstar(a), unstar(c)
            if run in (a, c) and (c if a == run else a) == unstar(cur):
                t = x[2] if x[0] == "is" else not x[2]
                return t == (x[1][1] == "Eq")
    return None


def unstar(v):
    while v[0] == "mem" and v[2] == () and v[1][0] == "D" or v[0] == "refv" or v[0] == "deref":
        v = v[1][1] if v[0] == "mem" else v[1]
        if v[0] == "refv":
            v = v[1]
    return v


def empty_text(fs, t, blank=False):
    for x in fs:
        while x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "un" and x[1][1] == "Not":
            x = (x[0], x[1][2], not x[2])
        if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "is_empty" and x[1][2] and (x[2] if x[0] == "is" else not x[2]):
            v = x[1][2][0]
            if v[0] == "call" and last(v) in ("trim", "trim_end", "trim_start") and blank:
                v = v[2][0]
            if v == ("refv", t):
                return True
        if x[0] == "is" and x[1][0] == "call" and last(x[1]) == "len" and x[2] == 0 and not isinstance(x[2], bool) and x[1][2] and x[1][2][0] == ("refv", t):
            return True
    return False


def assigned(p, key):
    return p.after(("phi", p.blocks[-1], key))


def factors(v):
    """the factors of a product, conversions taken off"""
    v = uncast(v)
    if v[0] == "f" and v[2] == "0" and v[1][0] == "bin":
        v = v[1]
    if v[0] == "bin" and v[1].startswith("Mul"):
        return factors(v[2]) + factors(v[3])
    return [v]


def real(ps):
    """the ways that can be taken: none on which a value just made has another variant"""
    for p in ps or ():
        if p.facts is None:
            continue
        if any(s[0] in ("is", "not") and s[1][0] == "disc" and s[1][1][0] == "agg" and (s[1][1][2] == s[2]) != (s[0] == "is") for s in p.facts):
            continue
        yield p


def column_paths(f, col, R, b):
    ps = paths(f, col.hdr, {col.hdr}, limit=60000)
    ok = ps is not None and len(ps) > 0
    R.ob(f"{b.name}/ways", ok, f"{b.name} has more ways through a column than can be followed", b.where())
    return list(real(ps))


def line_end(p, col, x, w, incl):
    """whether a way is the one of a cell ("cell"), of the line's end ("end"), or another"""
    for s in p.facts:
        if s[0] == "is" and s[1][0] == "disc" and s[2] == "None" and I(("f", s[1][1], "Some.0")) == x:
            return "out"
    if not incl:
        return "cell"
    differ = False
    for s in p.facts:
        if s[0] in ("is", "not") and isinstance(s[2], bool) and s[1][0] == "bin" and s[1][1] in ("Eq", "Ne") and {uncast(s[1][2]), uncast(s[1][3])} == {uncast(x), uncast(w)}:
            differ = (s[2] if s[0] == "is" else not s[2]) == (s[1][1] == "Ne")
    end = implied(p.facts, ge(x, w), lambda t: True, [])
    if differ:
        # the range ends at the width
        return "never" if end else "cell"
    if implied(p.facts, gt(w, x), lambda t: True, []):
        if end:
            return "never"
        return "cell"
    if end:
        return "end"
    return "any"


def texts(P, R, b, f, esc, deco):
    row, col = grid(f, R, b)
    if col is None:
        return
    x, y = col.item, row.item
    w, incl = span(col)[1], span(col)[2]
    cells_right(R, b, f, y, x, w)
    tkey = None
    ps = column_paths(f, col, R, b)
    for p in ps:
        for c, a in p.calls():
            if c.name == "push_str" and len(a) == 2 and a[0][0] == "ref" and field(a[1], "symbol"):
                tkey = (a[0][1], a[0][2])
    R.ob("texts/run", tkey is not None, f"{b.name} no longer gathers the symbols of cells in a pending run of text", b.where())
    if tkey is None:
        return
    T = I(("phi", col.hdr, tkey))
    keys = [k[1] for k in f.phi_in if k[0] == col.hdr]
    inpaths = [p for p in ps if p.end == "stop"]
    fgk = {k for k in keys if any(isinstance(assigned(p, k), tuple) and assigned(p, k)[0] == "mem" and assigned(p, k)[2][-1:] == ("fg",) for p in inpaths)}
    atk = {k for k in keys if any(isinstance(assigned(p, k), tuple) and assigned(p, k)[0] == "mem" and assigned(p, k)[2][-1:] == ("attrs",) for p in inpaths)}
    stk = {k for k in keys if any(assigned(p, k) == x for p in inpaths) and k not in fgk | atk}
    nck, ends = set(), []
    R.ob("texts/state", len(fgk) == 1 and len(atk) == 1 and len(stk) == 1, f"{b.name} no longer keeps the pending run's colour, attributes and start, each taken from the cell the run starts at", b.where())
    if not (len(fgk) == 1 and len(atk) == 1 and len(stk) == 1):
        return
    fgk, atk, stk = fgk.pop(), atk.pop(), stk.pop()
    FG, AT, ST = (I(("phi", col.hdr, k)) for k in (fgk, atk, stk))
    bad = {}
    seen = {"cell": 0, "end": 0, "out": 0, "any": 0}

    def no(what, msg, p, span=None):
        bad.setdefault(what, (msg, span or b.where()))

    emitted = 0
    for p in ps:
        fs = p.facts
        kind = line_end(p, col, x, w, incl)
        if kind == "never":
            continue
        seen[kind] += 1
        cell = None
        cur = {}
        for c, a in p.calls():
            if c.name == "cell_at":
                cell = c
        # what the column's own style is
        for n, run in (("fg", FG), ("attrs", AT)):
            for s in fs:
                if s[0] in ("is", "not") and s[1][0] == "bin" and s[1][1] in ("Ne", "Eq"):
                    u, v = unstar(s[1][2]), unstar(s[1][3])
                    if run in (u, v):
                        cur[n] = v if u == run else u
        sf = same_style(fs, FG, cur["fg"]) if "fg" in cur else None
        sa = same_style(fs, AT, cur["attrs"]) if "attrs" in cur else None
        same = sf is True and sa is True
        ismine = lambda v, n: v[0] == "mem" and v[2][-1:] == (n,) or v[0] == "f" and v[2] == n
        none = lambda v: v[0] == "agg" and v[2] == "None"
        dflt = lambda v: v[0] == "call" and last(v) == "default"
        state, held, written, syms = "old", None, None, 0
        escaped = None
        by = {c.bb: a for c, a in p.calls()}
        cs = {c.bb: c for c, a in p.calls()}
        for j, bb in enumerate(p.blocks):
            for i, _ in enumerate(f.b.blocks[bb]["s"]):
                sv = f.stmt_vals.get((bb, i))
                if sv is not None and sv[0] == tkey[0] and sv[1] == tkey[1] and bb in by and kind != "out":
                    pass
            if bb not in by:
                continue
            c, a = cs[bb], by[bb]
            mine = bool(a) and a[0] == ("ref",) + tkey
            if c.name in ("push_str", "push") and mine:
                if field(a[1], "symbol"):
                    syms += 1
                    state += "+"
                else:
                    no("texts/foreign", f"{b.name} adds something else than a cell's symbol to the pending text", p, c.where())
            elif c.name in esc and any(z == ("ref",) + tkey or z == T for z in walk(a[0])):
                held = state
            elif c.name in ("write_fmt", "write_str", "push_str") and not mine:
                if any(z[0] == "call" and last(z) in esc for v in a[1:] for z in walk(v)):
                    written = held
                    emitted += 1
                    element(R, b, p, c, a, FG, AT, ST, x, y, esc, deco, bad, nck, col)
                elif any(z == T or z == ("ref",) + tkey for v in a[1:] for z in walk(v) ):
                    no("texts/raw", f"{b.name} writes the pending text without escaping it", p, c.where())
            elif c.name in ("clear", "truncate") and mine or c.name in ("take", "replace") and mine:
                if state != "" and written != state and not empty_text(fs, T) and kind != "out":
                    no("texts/dropped", f"{b.name}: on a way through a column the pending text is dropped without having been written", p, c.where())
                state = ""
        if kind == "out":
            if not incl and written != "old" and not empty_text(fs, T, True):
                no("texts/end", f"{b.name}: a line can end without its last run of text being written", p)
            if p.end == "stop":
                t = p.after(("phi", p.blocks[-1], tkey))
                if not (t[0] == "call" and last(t) in ("new", "with_capacity", "default")) and not (t[0] == "clob"):
                    no("texts/begin", f"{b.name}: a line does not start with an empty run of text", p)
                if assigned(p, stk) != ("k", 0):
                    no("texts/begin0", f"{b.name}: a line's first run does not start at column 0", p)
            continue
        if written is None and state == "" and not empty_text(fs, T):
            pass
        if p.end != "stop":
            no("texts/leave", f"{b.name}: a way through a column leaves the line before its end", p)
            continue
        if kind in ("end", "any"):
            if syms:
                no("texts/past", f"{b.name}: a symbol is added for the column past the line's end", p)
            if state == "old" and not empty_text(fs, T):
                plain = same and none(cur["fg"]) and dflt(cur["attrs"])
                if not (plain and empty_text(fs, T, True)):
                    no("texts/end", f"{b.name}: a line can end without its last run of text being written (its style is the one of the line's end, or is not compared)", p)
            continue
        cont = None
        for s in fs:
            if s[0] in ("is", "not") and isinstance(s[2], bool) and ismine(s[1], "continuation"):
                cont = s[2] if s[0] == "is" else not s[2]
        ends.append((p, state))
        if cont is None or syms != (0 if cont else 1):
            no("texts/symbol", f"{b.name}: on a way through a cell its symbol is not added exactly once when the cell is the first of its character, and not at all when it continues one", p)
        fgn, atn, stn = assigned(p, fgk), assigned(p, atk), assigned(p, stk)
        took = ismine(fgn, "fg") and ismine(atn, "attrs")
        kept = fgn == FG and atn == AT
        if not took and not kept and not (took or fgn == FG and sf is True and ismine(atn, "attrs") or atn == AT and sa is True and ismine(fgn, "fg")):
            no("texts/style", f"{b.name}: after a cell the pending run's colour and attributes are neither its own nor the cell's", p)
        old = state.startswith("old") and not empty_text(fs, T)
        if old and not (same or kept and state == "old" and False):
            no("texts/mixed", f"{b.name}: a run of text goes on over a cell whose colour and attributes were not found equal to the run's", p)
        if state.endswith("+") and not (took or same):
            no("texts/restyle", f"{b.name}: a cell's symbol starts a run that does not have the cell's colour and attributes", p)
        if not old and (took and not same) and stn != x:
            no("texts/start", f"{b.name}: a new run does not start at the cell's column", p)
        if old and stn != ST:
            no("texts/start2", f"{b.name}: a run that goes on changes its start", p)
        if sf is False or sa is False:
            if not took:
                no("texts/take", f"{b.name}: a cell of another style does not give the pending run its style", p)
    R.ob("texts/length", len(nck) == 1 and None not in nck, f"{b.name}: the length a run of text is given is not the number of columns counted for it", b.where())
    for k in nck - {None}:
        N = I(("phi", col.hdr, k))
        for p, state in ends:
            v = assigned(p, k)
            base = [N] if state.startswith("old") and not empty_text(p.facts, T) else [N, ("k", 0)] if state.startswith("old") else [("k", 0)]
            if state.endswith("+"):
                ok = v[0] == "bin" and v[1].startswith("Add") and (uncast(v[2]) in base and field(v[3], "width") or uncast(v[3]) in base and field(v[2], "width")) or ("k", 0) in base and field(v, "width") and uncast(v)[0] in ("mem", "f")
            else:
                ok = v in base
            if not ok:
                no("texts/cells", f"{b.name}: the columns of the pending run are not counted by the width of each character added to it", p)
    R.ob("texts/emits", emitted > 0, f"{b.name} no longer writes the pending text, escaped", b.where())
    R.ob("texts/lines", (seen["end"] if incl else seen["out"]) > 0 and seen["cell"] > 0 and seen["any"] == 0, f"{b.name}: a way through a column does not tell a cell from the line's end", b.where())
    for what in ("texts/foreign", "texts/raw", "texts/dropped", "texts/end", "texts/begin", "texts/begin0", "texts/leave", "texts/past", "texts/symbol", "texts/style", "texts/mixed", "texts/restyle", "texts/start", "texts/start2", "texts/take",
                 "texts/class", "texts/place", "texts/bold", "texts/italic", "texts/deco", "texts/read", "texts/cells"):
        m = bad.get(what)
        R.ob(what, m is None, m[0] if m else f"{b.name}: {what}", m[1] if m else b.where())


def element(R, b, p, c, a, FG, AT, ST, x, y, esc, deco, bad, nck, col):
    """the element a run is written in: its class, its place, its attributes"""
    fs = p.facts

    def no(what, msg):
        bad.setdefault(what, (msg, c.where()))

    es = pieces(a[1]) if c.name == "write_fmt" else None
    if not es:
        return no("texts/read", f"{b.name}: the element a run of text is written in is no longer one formatted write")
    have = {}
    for e in es:
        m = re.search(r'([\w-]+)="[^"]*$', e[0])
        if m:
            have[m.group(1)] = shown(e)
        elif e[0].endswith(">"):
            have[">"] = shown(e)
        else:
            have.setdefault("+", shown(e))
    if not (have.get(">") and have[">"][0] == "call" and last(have[">"]) in esc):
        no("texts/read", f"{b.name}: the escaped text is no longer what the element contains")
    v = have.get("class")
    some = any(s[0] == "is" and s[1] == ("disc", FG) and s[2] == "Some" for s in fs)
    got = [z for z in walk(v) if z[0] == "call" and last(z) in ("get", "index")] if v else []
    if v is None or got and not all(any(u[0] == "f" and u[1] == FG or u == FG for u in walk(z)) for z in got) or some and not got and not any(s[0] == "is" and s[1][0] == "disc" and s[2] == "None" and s[1][1][0] == "call" and last(s[1][1]) == "get" for s in fs):
        no("texts/class", f"{b.name}: the class of a run of text is not the one of the run's own colour")
    if "x" not in have or ST not in factors(have["x"]):
        no("texts/place", f"{b.name}: a run of text is not placed at the column it starts at")
    nck |= {z[2] for z in factors(have["textLength"]) if z[0] == "phi" and z[1] == col.hdr} if "textLength" in have else {None}
    if "y" not in have or y not in list(walk(have["y"])):
        no("texts/place", f"{b.name}: a run of text is not placed at its own line")
    for n in ("bold", "italic"):
        on = None
        for s in fs:
            if s[0] in ("is", "not") and isinstance(s[2], bool) and (s[1] == ("f", AT, n)):
                on = s[2] if s[0] == "is" else not s[2]
        put = any(d.name in ("push_str", "write_str", "write_fmt") and n in (" ".join(str(z) for z in walk(e[1])) if len(e) > 1 else "") and not any(z[0] == "call" and last(z) in esc for z in walk(e[1])) for d, e in p.calls())
        if on is None or on != put:
            no(f"texts/{n}", f"{b.name}: a run of text is not written {n} exactly when its attributes say so")
    dec = [z for v in [v for d, e in p.calls() for v in e] + list(fs) for z in walk(v) if z[0] == "call" and last(z) in deco]
    if deco and not (dec and all(z[2][0] == ("refv", AT) for z in dec)):
        no("texts/deco", f"{b.name}: the decoration of a run of text is not made from its own attributes")


def backs(P, R, b, f, hexes):
    row, col = grid(f, R, b)
    if col is None:
        return
    x, y = col.item, row.item
    w, incl = span(col)[1], span(col)[2]
    cells_right(R, b, f, y, x, w)
    ps = column_paths(f, col, R, b)
    keys = [k[1] for k in f.phi_in if k[0] == col.hdr]
    inp = [p for p in ps if p.end == "stop"]
    bgk = {k for k in keys if any(assigned(p, k)[0] == "mem" and assigned(p, k)[2][-1:] == ("bg",) for p in inp)}
    stk = {k for k in keys if any(assigned(p, k) == x for p in inp)} - bgk
    ok = len(bgk) == 1 and len(stk) == 1
    R.ob("backs/state", ok, f"{b.name} no longer keeps the pending run's background and start, each taken from the cell the run starts at", b.where())
    if not ok:
        return
    bgk, stk = bgk.pop(), stk.pop()
    BG, ST = I(("phi", col.hdr, bgk)), I(("phi", col.hdr, stk))
    bad = {}
    n = 0
    for p in ps:
        fs = p.facts
        kind = line_end(p, col, x, w, incl)
        if kind == "never":
            continue
        none = any(s[0] == "is" and s[1] == ("disc", BG) and s[2] == "None" for s in fs)
        cur = None
        for s in fs:
            if s[0] in ("is", "not") and s[1][0] == "bin" and s[1][1] in ("Ne", "Eq"):
                u, v = unstar(s[1][2]), unstar(s[1][3])
                if BG in (u, v):
                    cur = v if u == BG else u
        same = same_style(fs, BG, cur) if cur is not None else None
        wr = [(c, a) for c, a in p.calls() if c.name == "write_fmt" and any(z[0] == "call" and last(z) in hexes for v in a[1:] for z in walk(v))]
        for c, a in wr:
            n += 1
            es = pieces(a[1])
            have = {}
            for e in es or ():
                m = re.search(r'([\w-]+)="[^"]*$', e[0])
                if m:
                    have[m.group(1)] = shown(e)
            fill = have.get("fill")
            if not (fill and fill[0] == "call" and last(fill) in hexes and any(z == BG or z[0] == "f" and z[1] == BG for z in walk(fill))):
                bad.setdefault("backs/colour", (f"{b.name}: a run's rectangle is not filled with the run's own background", c.where()))
            if not (have.get("x") and ST in factors(have["x"])) or not (have.get("y") and y in factors(have["y"])):
                bad.setdefault("backs/place", (f"{b.name}: a run's rectangle is not placed at the column it starts at and its own line", c.where()))
            wd = have.get("width")
            end = x if kind != "out" else w
            if not (wd and any(z[0] == "bin" and z[1].startswith("Sub") and uncast(z[2]) == uncast(end) and uncast(z[3]) == ST for z in factors(wd))):
                bad.setdefault("backs/width", (f"{b.name}: a run's rectangle does not reach from its start to the column that ends it", c.where()))
        if kind == "out":
            if not incl and not wr and not none:
                bad.setdefault("backs/end", (f"{b.name}: a line can end without its last run of background being written", b.where()))
            if p.end == "stop" and not (assigned(p, bgk)[0] == "agg" and assigned(p, bgk)[2] == "None"):
                bad.setdefault("backs/begin", (f"{b.name}: a line does not start without a pending background", b.where()))
            continue
        if p.end != "stop":
            bad.setdefault("backs/leave", (f"{b.name}: a way through a column leaves the line before its end", b.where()))
            continue
        nxt, st = assigned(p, bgk), assigned(p, stk)
        if kind in ("end", "any") and not (cur is not None and cur[0] == "agg" and cur[2] == "None"):
            if not wr and not none:
                bad.setdefault("backs/end", (f"{b.name}: a line can end without its last run of background being written", b.where()))
        if kind == "cell" and not (cur is not None and field(cur, "bg")):
            if not (nxt[0] == "mem" and nxt[2][-1:] == ("bg",) and (wr or none) and st == x):
                bad.setdefault("backs/cell", (f"{b.name}: a cell's own background is not compared with the pending one", b.where()))
        elif same is True:
            if wr and nxt == BG and st == ST or not (nxt in (BG, cur)) or st != ST and not wr:
                bad.setdefault("backs/keep", (f"{b.name}: a run of background that goes on is written twice, or changes its start or colour", b.where()))
        elif not (wr or none) or nxt != cur or st != x:
            bad.setdefault("backs/change", (f"{b.name}: where the background changes, the pending run is not written, or the next does not start there with the cell's background", b.where()))
        if len(wr) > 1:
            bad.setdefault("backs/keep", (f"{b.name}: a run of background is written twice", b.where()))
    R.ob("backs/writes", n > 0, f"{b.name} no longer writes a rectangle for a run of background", b.where())
    for what in ("colour", "place", "width", "end", "begin", "leave", "cell", "keep", "change"):
        m = bad.get(f"backs/{what}")
        R.ob(f"backs/{what}", m is None, m[0] if m else f"{b.name}: {what}", m[1] if m else b.where())


def collects(P, R, b, f):
    row, col = grid(f, R, b)
    if col is None:
        return
    cells_right(R, b, f, row.item, col.item, span(col)[1])
    for p in column_paths(f, col, R, b):
        if line_end(p, col, col.item, span(col)[1], span(col)[2]) == "out":
            continue
        none = any(s[0] == "is" and s[1][0] == "disc" and s[2] == "None" and field(s[1][1], "fg") for s in p.facts)
        add = any(any(field(v, "fg") for v in a[1:]) and a and a[0][0] in ("ref", "arg") for c, a in p.calls() if c.name != "cell_at" and svg_call(P, c))
        R.ob("collects", (none or add) and p.end == "stop", f"{b.name}: a cell's colour is not collected on every way through it", b.where())


def svg_call(P, c):
    return c.name not in ("ne", "eq", "deref", "next", "clone")


def adds(P, R, b):
    f = flow(P, b, lambda c, cb: False, key="p19")
    for p in real(paths(f)):
        if p.facts is None or p.end != "return":
            continue
        known = any(s[0] in ("is", "not") and s[1][0] == "call" and last(s[1]) == "contains_key" and (s[2] if s[0] == "is" else not s[2]) is True for s in p.facts) or any(c.name in ("entry",) for c, a in p.calls())
        ins = [(c, a) for c, a in p.calls() if c.name in ("insert", "or_insert", "or_insert_with")]
        ok = known and not any(c.name == "insert" for c, _ in ins) or bool(ins)
        R.ob("adds/insert", ok, f"{b.name}: a colour not seen yet does not get a class", b.where())
        for c, a in ins:
            if c.name != "insert":
                continue
            R.ob("adds/key", a[1] == ("arg", 2) and ("disc" or True), f"{b.name}: the class is not kept for the colour given", c.where())
            cnt = [I(("mem", z[1], z[2])) for z in walk(a[2]) if z[0] in ("mem", "ref") and len(z) == 3 and z[1] == S1 and z[2]]
            bumped = False
            for z in cnt:
                v = f.read(f.outstate[p.blocks[-1]], z[1], z[2])
                v = p.val(v)
                if v[0] == "bin" and v[1].startswith("Add") and v[2] == z or v[0] == "f" and v[1][0] == "bin" and v[1][1].startswith("Add") and v[1][2] == z:
                    bumped = True
            bylen = any(z[0] == "call" and last(z) == "len" for z in walk(a[2]))
            R.ob("adds/unique", bumped or bylen, f"{b.name}: the next colour would get the same class", c.where())


def escaper(P, R, b):
    f = flow(P, b, lambda c, cb: svg(cb) and not cb.pub, key="p19e")
    ls = loops(f)
    R.ob("esc/loop", len(ls) == 1 and ls[0].item is not None and last(strip_iter(ls[0].src)) == "chars", f"{b.name} no longer goes through every character of the text", b.where())
    if len(ls) != 1 or ls[0].item is None:
        return
    lp = ls[0]
    ch = lp.item
    n = 0
    for p in real(lp.iters()):
        if p.facts is None:
            continue
        n += 1
        is_ = {s[2] for s in p.facts if s[0] == "is" and s[1] == ch}
        not_ = {s[2] for s in p.facts if s[0] == "not" and s[1] == ch}
        out = [(c, a) for c, a in p.calls() if c.name in ("push", "push_str", "extend") and len(a) == 2]
        R.ob("esc/once", len(out) == 1 and p.end == "stop", f"{b.name}: a character is not put out exactly once", b.where())
        if len(out) != 1:
            continue
        c, a = out[0]
        if a[1] == ch:
            if is_:
                R.ob("esc/raw", not (is_ & UNSAFE), f"{b.name}: {is_ & UNSAFE} goes into the document as it is", c.where())
            else:
                R.ob("esc/raw", UNSAFE <= not_, f"{b.name}: {UNSAFE - not_} can go into the document as it is", c.where())
        else:
            s = strlit(a[1])
            k = next(iter(is_)) if len(is_) == 1 else None
            R.ob(f"esc/entity{k!r}", k is not None and s is not None and s in ENT.get(k, {k}), f"{b.name}: {k!r} is written as {s!r}", c.where())
    R.ob("esc/ways", n >= 2, f"{b.name}: its ways through one character cannot be followed", b.where())
    for p in real(paths(f)):
        if p.end == "return" and p.facts is not None and lp.hdr not in p.blocks:
            v = p.ret()
            plain = any(s[0] in ("is", "not") and s[1][0] == "call" and last(s[1]) in ("contains", "any", "is_empty") for s in p.facts)
            R.ob("esc/short", plain and False or v is None, f"{b.name}: a text can be returned without going through its characters", b.where())


def strip_iter(v):
    while v is not None and v[0] == "call" and last(v) in ("iter", "into_iter") and v[2]:
        v = v[2][0]
    return v if v is not None else ("k", 0)


def hexer(P, R, b):
    f = flow(P, b, lambda c, cb: svg(cb) and not cb.pub, key="p19e")
    n = 0
    for p in real(paths(f)):
        if p.end != "return" or p.facts is None or not any(s[0] == "is" and s[1][0] == "disc" and s[2] == "Rgb" for s in p.facts):
            continue
        n += 1
        es = pieces(p.ret())
        R.ob("hex/order", bool(es) and rgb(es) and es[0][0] == "#", f"{b.name}: a colour is not written as # and its own r, g and b, in this order, as two hexadecimal digits each", b.where())
    R.floor("hex", n, 1, f"ways of {b.name} for an RGB colour")


def rgb(es):
    names = []
    for e in es:
        v = shown(e)
        c = (v[2] if v[0] == "f" else (v[2][-1] if v[0] in ("mem", "ref") and v[2] else ""))
        names.append(str(c).split(".")[-1])
    wide = all("x" in str(last_new(e)) and e[2][-2:] == b"\x02\x00" for e in es)
    return names == ["r", "g", "b"] and wide


def last_new(e):
    return "x" if e[3][0] == "call" and last(e[3]) in ("new_lower_hex", "new_upper_hex") else ""


def decorates(P, R, b):
    f = flow(P, b, lambda c, cb: svg(cb) and not cb.pub, key="p19e")
    n = 0
    for p in real(paths(f)):
        if p.end != "return" or p.facts is None:
            continue
        n += 1
        text = " ".join(str(z) for c, a in p.calls() for v in a for z in walk(v)) + " ".join(str(z) for z in walk(p.ret()))
        for attr, word in (("underline", "underline"), ("strike", "line-through")):
            on = None
            for s in p.facts:
                if s[0] in ("is", "not") and isinstance(s[2], bool) and (s[1][0] == "mem" and s[1][2][-1:] == (attr,) or s[1][0] == "f" and s[1][2] == attr):
                    on = s[2] if s[0] == "is" else not s[2]
            put = word in " ".join(t for t in re.findall(r"'[^']*'", text))
            R.ob(f"deco/{attr}", on is not None and on == put, f"{b.name}: {word} is not written exactly when the attributes say {attr}", b.where())
    R.floor("deco", n, 2, f"ways of {b.name}")


def order(P, R, own, calls, opaque, drives):
    """the export collects the colours before it writes, writes their classes, and the backgrounds come before the text"""
    kinds = {}
    for b in own:
        if "cell_at" in calls[b.name]:
            f = flow(P, b, lambda c, cb: svg(cb) and cb.name not in opaque and cb.name not in drives and "StyleCollector" not in (cb.self_adt or ""), key="p19")
            if has_no_loop(f.b):
                continue
            k = kind_of(f)
            kinds[b.name] = "text" if "symbol" in k else "back" if "bg" in k else "collect"
    tops = [b for b in own if b.pub and b.argc == 2 and b.locals[0][0].endswith("String") and re.search("Canvas", b.locals[2][0])]
    R.floor("render", len(tops), 1, "the function that exports a screen")
    for b in tops:
        f = flow(P, b, lambda c, cb: svg(cb) and cb.name not in kinds and "StyleCollector" not in (cb.self_adt or "") and has_no_loop(cb), key="p19r")
        for p in real(paths(f)):
            if p.end != "return" or p.facts is None:
                continue
            seq = [(kinds[c.name], c, a) for c, a in p.calls() if c.name in kinds]
            names = [k for k, _, _ in seq]
            ok = names.count("text") == 1 and names.count("back") == 1 and names.count("collect") >= 1
            R.ob("render/all", ok, f"{b.name}: an export does not collect the colours, write the backgrounds and write the text", b.where())
            if ok:
                R.ob("render/order", names.index("collect") < names.index("text") and names.index("back") < names.index("text"), f"{b.name}: the text is written before its colours are collected, or is covered by the backgrounds", b.where())
                R.ob("render/screen", all(("arg", 2) in a for _, _, a in seq), f"{b.name}: a part of the export is made from another screen than the one given", b.where())
    # the classes are defined with their own colour
    n = 0
    for b in own:
        if any(re.search("StyleCollector", l[0]) for l in b.locals[1:b.argc + 1]) and "cell_at" not in calls[b.name]:
            f = flow(P, b, lambda c, cb: False, key="p19")
            for lp in loops(f):
                for p in real(lp.iters()):
                    if p.facts is None:
                        continue
                    if any(s[0] == "not" and s[1][0] == "disc" and s[2] == "Rgb" for s in p.facts):
                        continue
                    wr = [(c, a) for c, a in p.calls() if c.name == "write_fmt"]
                    if not wr and not any(s[0] == "is" and s[1][0] == "disc" and s[2] == "Rgb" for s in p.facts):
                        continue
                    n += 1
                    ok = False
                    for c, a in wr:
                        es = pieces(a[1])
                        if es and len(es) == 4 and rgb(es[1:]):
                            cl, r0 = shown(es[0]), shown(es[1])
                            ok = any(z == lp.item for z in walk(cl)) and any(z == lp.item for z in walk(r0))
                    R.ob("classes/own", ok, f"{b.name}: the class of a colour is not defined as that colour's own r, g and b", b.where())
    R.floor("classes", n, 1, "ways through the definition of a colour's class")


def has_no_loop(b):
    dom = b.dominators()
    return not any(s in dom.get(z, ()) for z in b.rpo() for s in b.succs(z))
