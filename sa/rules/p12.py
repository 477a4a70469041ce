"""P12  A text input is edited at the cursor, a whole character at a time, and shows what it holds."""
from rules.p06 import *

TYPE = re.compile(r"widget::input::Input$")
SHOWN = ("value", "cursor", "placeholder", "focused")
ZERO, ONE = I(("k", 0)), I(("k", 1))
CUR = I(("mem", S1, ("cursor",)))
VAL = I(("ref", S1, ("value",)))
MUT = ("insert", "insert_str", "replace_range", "remove", "push", "push_str", "pop", "truncate", "clear", "drain", "retain", "extend", "split_off")


def mine(b):
    return bool(TYPE.search(b.self_adt or ""))


def inl(c, cb):
    return mine(cb) and cb.name not in ("refresh_display", "build_display", "is_disabled", "is_visible", "is_dirty") and cb.kind != "closure"


def nn(t):
    return t == CUR or t[0] == "call" and last(t) in ("grapheme_count", "count", "len")


def check(P, R):
    R.rule("on every way through a key handler or setter of the text input: a typed character goes in at the byte position of the cursor's grapheme, Backspace and Delete cut exactly the byte range of one grapheme (before, at the "
           "cursor), the arrow, Home and End keys move the cursor as they say and never out of the text, and whatever changes what is shown is followed by rebuilding the display from value and cursor; the grapheme helpers "
           "answer for extended grapheme clusters")
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or not mine(b) or not b.argc or not b.locals[1][0].startswith("&mut") or not (b.pub or " as " in b.path):
            continue
        n += 1
        entry(P, R, b)
    R.floor("entries", n, 6, "public operations on a text input")
    display(P, R)
    helpers(P, R)
    escapes(P, R)


def events(p):
    """what happens on the path, in order: ("set", field, value), ("call", call, args)"""
    f = p.f
    by = {c.bb: a for c, a in p.calls()}
    cs = {c.bb: c for c, a in p.calls()}
    out = []
    for j, bb in enumerate(p.blocks):
        for i, _ in enumerate(f.b.blocks[bb]["s"]):
            sv = f.stmt_vals.get((bb, i))
            if sv is not None and sv[0] == S1 and sv[1][:1] and sv[1][0] in SHOWN:
                out.append(("set", sv[1][0], p.val(sv[2], j)))
        if bb in cs:
            out.append(("call", cs[bb], by[bb]))
            c = cs[bb]
            if c.dest is not None:
                try:
                    root, comps = f.path_of(f.outstate[bb], [c.dest.l, c.dest.p]) if c.dest.p else (None, None)
                except Exception:
                    root = None
                if root == S1 and comps[:1] and comps[0] in SHOWN:
                    out.append(("set", comps[0], None))
    return out


def count(x=None):
    return lambda v: v[0] == "call" and last(v) == "grapheme_count"


def entry(P, R, b):
    f = flow(P, b, inl, key="p12", self_adt=b.self_adt)
    R.fn(b)
    ps = paths(f)
    if not R.ob("%s:paths" % b.name, ps is not None, "%s has too many ways through it to look at" % b.name, b.where()):
        return
    for p in ps:
        if p.end != "return":
            continue
        fs = p.facts
        if fs is None:
            continue
        ev = events(p)
        changed = [(k, e) for k, e in enumerate(ev) if e[0] == "set" or e[0] == "call" and e[1].name in MUT and e[2] and e[2][0] == VAL]
        vch = [(k, e) for k, e in changed if e[0] == "call" or e[1] == "value"]
        st = f.outstate[p.blocks[-1]]
        cur = p.val(f.read(st, S1, ("cursor",)))
        real = [(k, e) for k, e in changed if not (e[0] == "set" and e[2] is not None and e[2] == ("mem", S1, (e[1],)))]
        if real:
            lastk = real[-1][0]
            ok = any(e[0] == "call" and e[1].name == "refresh_display" and e[2][:1] in ([("arg", 1)], [("ref", S1, ())]) for e in ev[lastk + 1:])
            R.ob("%s:shown" % b.name, ok, "%s changes %s without showing it" % (b.name, real[-1][1][1] if real[-1][1][0] == "set" else "the text"), b.where())
        # where the lengths that are used were measured
        after = vch[-1][0] if vch else -1
        fresh = [e for e in ev[after + 1:] if e[0] == "call" and e[1].name == "grapheme_count"]
        stale = [e for e in ev[:after + 1] if e[0] == "call" and e[1].name == "grapheme_count"]
        key = {x[2] for x in fs if x[0] == "is" and x[1] == ("disc", ("arg", 2)) and isinstance(x[2], str)} if b.name == "on_event" else set()
        quiet = any(x[0] == "is" and isinstance(x[2], bool) and x[1][0] == "call" and (last(x[1]) == "is_disabled" and x[2] or last(x[1]) == "is_visible" and not x[2]) for x in fs)
        key = key.pop() if len(key) == 1 else None
        cnt = I(("call", "textual::grapheme::grapheme_count", (VAL,), None))
        edits = [e for k, e in vch if e[0] == "call"]
        sets = [e for k, e in vch if e[0] == "set"]
        inb = [ge(cnt, CUR)] + [gt(x[1], ZERO) for x in fs if x[0] == "not" and x[2] == 0 and not isinstance(x[2], bool) and (x[1] == CUR or x[1][0] == "call" and last(x[1]) in ("min", "max", "grapheme_count", "saturating_sub"))]
        where = b.where()
        if len(edits) > 1 or sets and edits:
            R.ob("%s:once" % b.name, False, "%s changes the text more than once for one input" % b.name, where)
            continue
        if quiet:
            R.ob("%s:quiet" % b.name, not real, "%s changes a text input that takes no input" % b.name, where)
            continue
        if edits:
            edit(R, b, p, fs, edits[0], key, cur, cnt, inb, fresh, ev, after)
        elif sets:
            new = p.val(f.read(st, S1, ("value",)))
            c2 = [I(("call", "textual::grapheme::grapheme_count", (e[2][0],), None)) for e in fresh if e[2][0] == VAL]
            c2 += [y for v in [cur] + [x[1] for x in fs if x[0] in ("is", "not")] for y in walk(v) if y and y[0] == "call" and last(y) == "grapheme_count" and y[2][0] != VAL and of_value(f, p, y[2][0], new)]
            ok = cur == ZERO or any(implied(fs, ge(c, cur), nn) for c in c2)
            R.ob("%s:cursor" % b.name, ok, "%s can leave the cursor outside the new text" % b.name, where)
            if b.name == "set_value":
                R.ob("set_value:value", any(y == ("arg", 2) for y in walk(new)), "set_value does not take the text given", where)
        else:
            R.ob("%s:cursor" % b.name, implied(fs, ge(cnt, cur), nn, inb), "%s can leave the cursor outside the text" % b.name, where)

            def to(x, when):
                return implied(fs, ge(cur, x), nn, inb + when) and implied(fs, ge(x, cur), nn, inb + when)

            def is_(x):
                return to(x, [])
            if key == "Char":
                R.ob("on_event:Char", False, "typing a character does not always put it in", where)
            elif key == "Left":
                R.ob("on_event:Left", to(I(("bin", "Sub", CUR, ONE)), [gt(CUR, ZERO)]) and to(CUR, [ge(ZERO, CUR)]), "Left does not move the cursor back by one", where)
            elif key == "Right":
                R.ob("on_event:Right", to(I(("bin", "Add", CUR, ONE)), [gt(cnt, CUR)]) and to(CUR, [ge(CUR, cnt)]), "Right does not move the cursor on by one", where)
            elif key == "Home":
                R.ob("on_event:Home", is_(ZERO), "Home does not go to the start", where)
            elif key == "End":
                R.ob("on_event:End", is_(cnt), "End does not go to the end", where)
            elif key == "Backspace":
                R.ob("on_event:Backspace:kept", implied(fs, ge(ZERO, CUR), nn, inb) or no_range(fs), "Backspace can do nothing although there is a character before the cursor", where)
            elif key == "Delete":
                R.ob("on_event:Delete:kept", implied(fs, ge(CUR, cnt), nn, inb) or no_range(fs), "Delete can do nothing although there is a character at the cursor", where)
            elif b.name == "set_cursor":
                R.ob("set_cursor:value", implied(fs, ge(cur, ("arg", 2)), nn, inb + [ge(cnt, ("arg", 2))]) and implied(fs, ge(("arg", 2), cur), nn, inb + [ge(cnt, ("arg", 2))]), "set_cursor does not go where it is asked to", where)
            elif b.name == "on_event":
                R.ob("on_event:other", not real, "a key that edits nothing changes the text input", where)


def no_range(fs):
    """there was no character at the place asked for"""
    return any(x[0] in ("is", "not") and x[1][0] == "disc" and x[1][1][0] == "call" and last(x[1][1]) == "grapheme_byte_range" and (x[2] == "None") == (x[0] == "is") for x in fs)


def of_value(f, p, r, new):
    return r == I(("refv", new)) or any(y == new for y in walk(r) if y)


def edit(R, b, p, fs, e, key, cur, cnt, inb, fresh, ev, after):
    c, a = e[1], e[2]
    where = b.where()

    def eq(x, y):
        return implied(fs, ge(x, y), nn, inb) and implied(fs, ge(y, x), nn, inb)
    if c.name in ("insert", "insert_str"):
        R.ob("on_event:insert:key", key == "Char", "%s puts text in for %s" % (b.name, key or "something other than a typed character"), where)
        at, ch = a[1], a[2]
        ok = at[0] == "call" and last(at) == "grapheme_byte_index" and at[2][0] == VAL and eq(at[2][1], CUR)
        R.ob("on_event:insert:place", ok, "a typed character does not go in at the cursor", where)
        R.ob("on_event:insert:what", any(y == ("f", ("arg", 2), "Char.0") for y in walk(ch)), "what goes in is not the character typed", where)
        q = at[2][1] if ok else CUR
        wide = I(("bin", "Add", q, ONE))
        grew = [x for x in fresh if x[2][0] == VAL]
        pre = cur[0] == "call" and last(cur) == "grapheme_count" and any(x[2][0] == cur[2][0] for x in fresh) and prefix_end(cur[2][0], at, ch)
        lim = bool(grew) and cur[0] == "call" and last(cur) == "min" and len(cur[2]) == 2 and cnt in cur[2] and any(eq(x, wide) for x in cur[2] if x != cnt)
        R.ob("on_event:insert:cursor", pre or lim, "after typing, the cursor is not behind what was typed, or can lie outside the text", where)
    elif c.name == "replace_range" and key in ("Backspace", "Delete"):
        r, w = a[1], a[2]
        d = dict(r[3]) if r[0] == "agg" else {}
        s, t = d.get("start", ZERO), d.get("end", ZERO)
        rng = s[1][1] if s[0] == "f" and s[1][0] == "f" else None
        ok = r[0] == "agg" and r[1].endswith("ops::Range") and rng is not None and rng[0] == "call" and last(rng) == "grapheme_byte_range" and s == ("f", ("f", rng, "Some.0"), "0") and t == ("f", ("f", rng, "Some.0"), "1") and rng[2][0] == VAL
        R.ob("on_event:%s:whole" % key, ok, "%s does not cut exactly one character" % key, where)
        R.ob("on_event:%s:gone" % key, w == ("k", ""), "%s puts something in" % key, where)
        if ok:
            inside = [gt(CUR, ZERO)] if key == "Backspace" else []

            def eq2(x, y):
                return implied(fs, ge(x, y), nn, inb + inside) and implied(fs, ge(y, x), nn, inb + inside)
            want = I(("bin", "Sub", CUR, ONE)) if key == "Backspace" else CUR
            R.ob("on_event:%s:which" % key, eq2(rng[2][1], want), "%s does not cut the character %s the cursor" % (key, "before" if key == "Backspace" else "at"), where)
            R.ob("on_event:%s:cursor" % key, eq2(cur, want), "after %s the cursor is not where the character was" % key, where)
        if key == "Backspace":
            R.ob("on_event:Backspace:start", implied(fs, gt(CUR, ZERO), nn, inb) or any(x == ("not", CUR, 0) for x in fs), "Backspace at the start of the text cuts something", where)
    else:
        R.ob("%s:edit:%s" % (b.name, c.name), False, "%s changes the text by %s, for %s" % (b.name, c.name, key or "no key"), where)


def prefix_end(r, at, ch):
    """the text up to and with what was typed"""
    if r[0] == "call" and last(r) == "index" and r[2][0] == VAL and r[2][1][0] == "agg" and r[2][1][1].endswith("RangeTo"):
        end = dict(r[2][1][3])["end"]
        return end[0] == "bin" and end[1] == "Add" and at in end[2:] and any(x[0] == "call" and last(x) in ("len_utf8", "len") for x in end[2:])
    return False


def display(P, R):
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or not mine(b):
            continue
        if b.name == "refresh_display":
            f = flow(P, b, lambda c, cb: False, key="p12d")
            R.fn(b)
            for p in paths(f):
                if p.end != "return":
                    continue
                up = [a for c, a in p.calls() if c.name in ("update", "set_content") and a and a[0][0] == "ref" and a[0][1] == S1]
                ok = len(up) == 1 and any(y[0] == "call" and last(y) == "build_display" and y[2] == (("arg", 1),) for y in walk(up[0][1]) if y)
                R.ob("refresh:update", ok, "refreshing a text input does not show its display", b.where())
        if b.name == "build_display":
            build(P, R, b)
    R.floor("display", len([b for b in P.fns(crate="textual") if mine(b) and b.name in ("refresh_display", "build_display")]), 2, "display functions of the text input")


def build(P, R, b):
    f = flow(P, b, lambda c, cb: False, key="p12d")
    R.fn(b)
    ps = paths(f)
    if not R.ob("build:paths", ps is not None, "too many ways through build_display", b.where()):
        return
    foc = I(("mem", S1, ("focused",)))
    n = 0
    for p in ps:
        if p.end != "return" or p.facts is None:
            continue
        fs = p.facts
        empty = [x[2] if x[0] == "is" else not x[2] for x in fs if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "call" and last(x[1]) == "is_empty" and x[1][2] == (VAL,)]
        focused = [x[2] if x[0] == "is" else not x[2] for x in fs if x[0] in ("is", "not") and x[1] == foc and isinstance(x[2], bool)]
        v = p.ret()
        esc, bare = parts(v)
        R.ob("build:escaped", not bare, "a text input shows text of its own without escaping it", b.where())
        if not empty or empty[0]:
            continue
        n += 1
        whole = any(x == VAL for x in esc)
        if focused and focused[0] is False:
            R.ob("build:plain", whole and v[0] == "call" and last(v) == "escape_markup" and v[2][0] == VAL, "a text input without focus does not show just its text", b.where())
            continue
        # with focus: either the text with the cursor behind it, or the text in three pieces around the cursor
        if any(x[0] == "call" for x in esc if x != VAL) or len([x for x in esc if x != VAL]) >= 2:
            pieces = []
            for x in [y for y in esc if y != VAL]:
                pieces.append(piece(x, f, p))
            got = [k[0] if k else "?" for k in pieces]
            R.ob("build:pieces", got == ["to", "at", "from"], "a text input with focus does not show the text before, at and behind the cursor", b.where())
            d = {k[0]: k[1] for k in pieces if k}
            if got == ["to", "at", "from"]:
                q = d["at"]
                R.ob("build:cut", implied(fs, ge(d["to"], q), nn) and implied(fs, ge(q, d["to"]), nn) and implied(fs, ge(d["from"], I(("bin", "Add", q, ONE))), nn) and implied(fs, ge(I(("bin", "Add", q, ONE)), d["from"]), nn),
                     "a text input shows a character twice or not at all", b.where())
                R.ob("build:cursor", any(y == CUR for y in walk(q)), "the cursor is not shown where it is", b.where())
        else:
            R.ob("build:end", whole, "a text input with the cursor at the end does not show its text", b.where())
    R.floor("build", n, 2, "ways to show a text")


def parts(v):
    """what a display is made of, in order: the texts that are escaped, and texts of the input that are not"""
    if v[0] == "call" and last(v) == "escape_markup":
        return [v[2][0]], []
    esc, bare = [], []
    arrs = [y for y in walk(v) if y and y[0] == "agg" and y[1] == "array"]
    if not arrs:
        return [], [y for y in walk(v) if y and y[0] in ("ref", "mem") and y[1] == S1 and y[2][:1] in (("value",), ("placeholder",))]
    for _, y in arrs[-1][3] if len(arrs) == 1 else arrs[0][3]:
        x = y[2][0] if y[0] == "call" and y[2] else y
        while x[0] in ("refv", "kref"):
            x = x[1]
        if x[0] == "call" and last(x) == "escape_markup":
            esc.append(x[2][0])
        elif any(z and z[0] in ("ref", "mem") and z[1] == S1 and z[2][:1] in (("value",), ("placeholder",)) for z in walk(x)):
            bare.append(x)
    return esc, bare


def piece(x, f, p):
    for y in walk(x):
        if y and y[0] == "call" and last(y) in ("index", "get_unchecked") and len(y[2]) == 2:
            i = y[2][1]
            if i[0] == "agg" and i[1].endswith("RangeTo"):
                return ("to", dict(i[3])["end"])
            if i[0] == "agg" and i[1].endswith("RangeFrom"):
                return ("from", dict(i[3])["start"])
            return ("at", i)
        if y and y[0] == "f" and isinstance(y[2], tuple) and y[2][:1] == ("[]",):
            return ("at", y[2][1])
    return None


def helpers(P, R):
    want = {"grapheme_count": 0, "grapheme_byte_index": 0, "grapheme_byte_range": 0}
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.name not in want or not b.path.endswith("grapheme::" + b.name):
            continue
        want[b.name] += 1
        f = flow(P, b, w_inline, key="tree")
        R.fn(b)
        w = b.where()
        for c, a, fs in f.calls():
            if c.name in ("graphemes", "grapheme_indices", "split_word_bounds") and len(a) == 2:
                R.ob("%s:clusters" % b.name, a[0] == ("arg", 1) and a[1] == ("k", True), "%s does not go over the extended grapheme clusters of its text" % b.name, w)
        if b.name == "grapheme_count":
            for _, v, _ in f.ret_values():
                R.ob("grapheme_count", v[0] == "call" and last(v) == "count" and v[2][0][0] == "call" and last(v[2][0]) in ("graphemes", "grapheme_indices"), "grapheme_count is not the number of grapheme clusters", w)
            continue
        for p in paths(f):
            if p.end != "return" or p.facts is None:
                continue
            nth = [y for c, a in p.calls() if c.name == "nth" for y in [a]]
            R.ob("%s:nth" % b.name, len(nth) == 1 and nth[0][1] == ("arg", 2), "%s does not look for the character asked for" % b.name, w)
            some = any(x[0] == "is" and x[2] == "Some" and x[1][0] == "disc" and any(y[0] == "call" and last(y) == "nth" for y in walk(x[1]) if y) or x[0] == "is" and x[2] == "Continue" for x in p.facts)
            none = any(x[0] == "is" and x[2] in ("None", "Break") and x[1][0] == "disc" and any(y[0] == "call" and last(y) == "nth" for y in walk(x[1]) if y) for x in p.facts)
            v = p.ret()
            if b.name == "grapheme_byte_index":
                good = is_start(v, "nth") if some else is_len(v) if none else v[0] == "call"
                R.ob("grapheme_byte_index:value", good, "grapheme_byte_index is not where the character starts, or the end of the text when there is none", w)
            else:
                if none:
                    R.ob("grapheme_byte_range:none", v[0] == "agg" and v[2] == "None" or v[0] == "call" and "residual" in str(v[1]), "grapheme_byte_range finds a character where there is none", w)
                elif some:
                    ok = v[0] == "agg" and v[2] == "Some"
                    t = dict(v[3]).get("0") if ok else None
                    d = dict(t[3]) if t is not None and t[0] == "agg" else {}
                    R.ob("grapheme_byte_range:value", ok and is_start(d.get("0", ZERO), "nth") and (is_start(d.get("1", ZERO), "next") or is_len(d.get("1", ZERO)) or is_past(d.get("1", ZERO))), "grapheme_byte_range is not the bytes of the character", w)
    for k, v in want.items():
        R.floor(k, v, 1, k)


def is_start(v, name):
    return v[0] == "f" and v[2] == "0" and any(y[0] == "call" and last(y) == name for y in walk(v) if y)


def is_past(v):
    """start of the character plus its length"""
    if v[0] != "bin" or v[1] != "Add":
        return False
    a, b = v[2:]
    if not is_start(a, "nth"):
        a, b = b, a
    return is_start(a, "nth") and b[0] in ("call", "len") and last(b) == "len" and any(y and y[0] == "f" and y[2] == "1" and y[1] == a[1] for y in walk(b))


def is_len(v):
    return v[0] == "call" and last(v) == "len" and v[2][0] in (("arg", 1),) or v[0] == "len" and v[1] == ("arg", 1) or v[0] == "len" and ("arg", 1) in list(walk(v))


def escapes(P, R):
    """every character goes out once, those that mean something in markup behind a backslash"""
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.name != "escape_markup":
            continue
        f = flow(P, b, w_inline, key="tree")
        R.fn(b)
        who = b.path.split("::")[-2]
        for lp in loops(f):
            if lp.src is None or not any(y == ("arg", 1) for y in walk(lp.src)):
                continue
            for p in lp.iters():
                n += 1
                out = [a[1] for c, a in p.calls() if c.name == "push" and len(a) == 2]
                strs = [a[1] for c, a in p.calls() if c.name == "push_str" and len(a) == 2]
                ch = {x[2] for x in p.facts if x[0] == "is" and x[1] == lp.item and isinstance(x[2], (str, int)) and not isinstance(x[2], bool)}
                no = {x[2] for x in p.facts if x[0] == "not" and x[1] == lp.item} | {c2 for x in p.facts for c2 in ne_const(x, lp.item)}
                yes = ch | {c2 for x in p.facts for c2 in eq_const(x, lp.item)}
                plain = len(out) == 1 and out[0] == lp.item and not strs
                esc = len(out) == 2 and is_bs(out[0]) and (out[1] == lp.item or out[1][0] == "k") and not strs
                R.ob("escape:%s:out" % who, p.end == "stop" and (plain or esc), "escape_markup of %s loses, repeats or changes a character" % who, b.where())
                if plain:
                    R.ob("escape:%s:needed" % who, {norm("["), norm("\\")} <= {norm(x) for x in no} or bool(yes) and not {norm("["), norm("\\")} & {norm(x) for x in yes},
                         "escape_markup of %s lets a bracket or backslash through as it is" % who, b.where())
    R.floor("escapes", n, 4, "ways through escape_markup")


def norm(x):
    return ord(x) if isinstance(x, str) and len(x) == 1 else x


def is_bs(v):
    return v[0] == "k" and norm(v[1]) == ord("\\")


def eq_const(x, item):
    if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and item in x[1][2:]:
        if (x[1][1] == "Eq") == (x[2] == (x[0] == "is")):
            return [y[1] for y in x[1][2:] if y[0] == "k"]
    return []


def ne_const(x, item):
    if x[0] in ("is", "not") and isinstance(x[2], bool) and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and item in x[1][2:]:
        if (x[1][1] == "Eq") != (x[2] == (x[0] == "is")):
            return [y[1] for y in x[1][2:] if y[0] == "k"]
    return []
