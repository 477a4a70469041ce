"""P22  Cutting, padding and restyling lines loses no text, style, link or width."""
from rules.common import *
from rules.tree import *
from rules.ineq import implied, ge, gt, term
from flow import proj, joint_leaves

SEG, STRIP, STYLE = "textual::segment::Segment", "textual::strip::Strip", "textual::segment::Style"
SELF = ("D", ("arg", 1))
POS = lambda t: True


def check(P, R):
    R.rule("a segment is only ever built with the display width of its text (or text and width of another segment, n blanks and n, or the two sides of one cut), and a strip with the sum of its segments' widths; both are never changed in part. "
           "Segment operations keep metadata, and text and style where they are not asked to change them. Strip operations, path by path: restyling yields one piece for each segment in order; padding yields the segments once, and blanks of exactly the missing width; "
           "cropping takes from each segment exactly the part between start and end; dividing cuts where asked and leaves nothing out; merging only joins neighbours of equal style and metadata")
    segs = [b for b in P.fns(crate="textual") if any(rv[0] == "agg" and rv[2] == SEG for _, _, _, rv, _ in b.assigns())]
    strips = [b for b in P.fns(crate="textual") if any(rv[0] == "agg" and rv[2] == STRIP for _, _, _, rv, _ in b.assigns())]
    R.floor("segment constructors", len(segs), 5, "functions that build segments")
    R.floor("strip constructors", len(strips), 3, "functions that build strips")
    built(P, R, segs, SEG, seg_agg)
    built(P, R, strips, STRIP, strip_agg)
    untouched(P, R)
    style_apply(P, R)
    for nm, fn in (("apply_style", m_apply_style), ("set_style", m_set_style), ("apply_tint", m_tint), ("apply_hatch", m_hatch), ("split_at", m_split), ("with_style", None), ("with_meta", None)):
        seg_method(P, R, nm, fn)
    for nm in ("apply_style", "apply_tint", "apply_hatch", "apply_text_opacity"):
        restyle(P, R, nm)
    pad(P, R, "adjust_cell_length")
    pad(P, R, "text_align")
    pad(P, R, "justify")
    crop(P, R)
    divide(P, R)
    simplify(P, R)
    join(P, R)
    text(P, R)


# ---------------------------------------------------------------- construction
def built(P, R, bodies, adt, ok):
    """each aggregate is well formed where it is built, or in every caller when a private helper is handed its parts"""
    todo, seen = [(b, 0) for b in bodies], set()
    while todo:
        b, d = todo.pop()
        if b.id in seen:
            continue
        seen.add(b.id)
        if b.kind == "Closure" and b.parent:
            pb = P.bodies.get(b.parent) if isinstance(P.bodies, dict) else None
            if pb is not None:
                todo.append((pb, d))
                continue
        f = flow(P, b)
        R.fn(b)
        bad = []
        for (bb, i), (root, comps, val) in sorted(f.stmt_vals.items(), key=lambda x: str(x[0])):
            if val is not None and val[0] == "agg" and val[1] == adt:
                if f.instate.get(bb) is None:
                    continue
                if not ok(P, f, val, bb):
                    bad.append(val)
        if bad and not b.pub and not b.of_trait and d < 4:
            cs = [c for c in callers(P, b) if c.id != b.id]
            if cs:
                todo += [(c, d + 1) for c in cs]
                continue
        what = "segment" if adt == SEG else "strip"
        R.ob("%s:%s" % (what, key(b)), not bad, "%s builds a %s whose width is not %s%s" % (key(b), what, "that of its text" if adt == SEG else "the sum of its segments'",
             ": " + ", ".join("%s = %s" % (k, show(v)[:60]) for k, v in bad[0][3] if k in ("text", "cell_length")) if bad else ""), b.where())


def key(b):
    return "::".join(b.path.replace("<", "").replace(">", "").split("::")[-2:])


def callers(P, b):
    out = {}
    for c in P.fns(crate="textual"):
        for k in c.calls():
            if k.path == b.path or getattr(k, "target", None) == b.id:
                out[c.id] = c
    return list(out.values())


def same(a, b):
    return strip_val(a) == strip_val(b)


def un(v):
    while v[0] in ("cast",):
        v = v[2]
    return v


COPY = ("into", "to_string", "to_owned", "clone", "from", "as_str", "deref", "as_ref", "borrow", "as_mut_str", "into_string", "into_boxed_str")


def txt(v):
    """the text a string value holds, copies and borrows removed"""
    while True:
        if v[0] in ("refv", "kref"):
            v = v[1]
        elif v[0] == "ref":
            v = I(("mem", v[1], v[2]))
        elif v[0] == "call" and last(v) in COPY and len(v[2]) == 1:
            v = v[2][0]
        else:
            return v


def is_empty_text(v):
    v = txt(v)
    return v[0] == "call" and last(v) in ("new", "default") and not v[2] or v[0] == "k" and str(v[1]).strip("'\"") in ("", "('c', '')") and "String" not in str(v[1])


def is_blank(v):
    v = txt(v)
    if v[0] == "call" and last(v) == "repeat" and len(v[2]) == 2 and kstr(v[2][0]) == " ":
        return v[2][1]
    return None


def kstr(v):
    v = txt(v)
    if v[0] == "k":
        s = show(v)
        if len(s) >= 2 and s[0] == s[-1] and s[0] in "'\"":
            return s[1:-1]
    return None


def seg_agg(P, f, v, bb):
    t, n = proj(v, "text"), un(proj(v, "cell_length"))
    return all(seg_pair(f, a, b) for a, b in joint(f, [t, n])) or seg_pair(f, t, n)


def joint(f, vals):
    try:
        r = [tuple(vs) for vs, _ in joint_leaves(f, list(vals), frozenset())]
    except Exception:
        r = []
    return r or [tuple(vals)]


def seg_pair(f, t, n):
    t, n = txt(t), un(n)
    if n[0] == "call" and last(n) in ("width", "display_width", "width_cjk") and len(n[2]) == 1 and last(n) != "width_cjk" and txt(n[2][0]) == t:
        return True
    if t[0] in ("mem", "f", "p") and owner_of(t, "text") is not None and owner_of(t, "text") == owner_of(n, "cell_length"):
        return True
    if is_empty_text(t):
        return n == ("k", 0)
    b = is_blank(t)
    if b is not None:
        return un(b) == n
    return cut_pair(f, t, n)


def owner_of(v, field):
    if v[0] == "mem" and v[2] and v[2][-1] == field:
        return ("mem", v[1], v[2][:-1])
    if v[0] == "f" and v[2] == field:
        return v[1]
    if v[0] == "arg":
        return None
    return None


def cut_pair(f, t, n):
    """one side of a cut of a segment's text: position and width found together walking over its graphemes"""
    sd = None
    if t[0] == "f" and t[2] in ("0", "1") and t[1][0] == "call" and last(t[1]) == "split_at" and len(t[1][2]) == 2:
        sd, whole, p = t[2], txt(t[1][2][0]), t[1][2][1]
    elif t[0] == "call" and last(t) in ("index", "get") and len(t[2]) == 2 and t[2][1][0] == "agg":
        r = t[2][1]
        whole = txt(t[2][0])
        if str(r[1]).endswith("RangeTo"):
            sd, p = "0", proj(r, "end")
        elif str(r[1]).endswith("RangeFrom"):
            sd, p = "1", proj(r, "start")
    if sd is None:
        return False
    o = owner_of(whole, "text")
    if o is None:
        return False
    if sd == "1":
        if n[0] == "bin" and n[1] == "Sub" and owner_of(un(n[2]), "cell_length") == o:
            q = un(n[3])
        elif n[0] == "call" and last(n) in ("width", "display_width"):
            return txt(n[2][0]) == t
        else:
            return False
    else:
        q = n
    return walk_pair(f, p, q, whole, set())


def walk_pair(f, p, q, whole, seen):
    """(p, q) is a position in the text and the width of what lies before it"""
    p, q = un(p), un(q)
    if (p, q) in seen:
        return True
    seen.add((p, q))
    if p == ("k", 0) and q == ("k", 0):
        return True
    if len(seen) > 60:
        return False
    if at_grapheme(f, p, q, whole, seen):
        return True
    ph = sorted([x for x in (p, q) if x[0] == "phi"], key=lambda x: -x[1])
    if ph:
        # both phis of the latest merge, expanded together, edge by edge
        for bb in [x[1] for x in ph]:
            preds = set()
            for x in (p, q):
                if x[0] == "phi" and x[1] == bb:
                    preds |= set(f.phi_in.get((bb, x[2]), {}))
            ok = bool(preds)
            s2 = set(seen)
            for pr in preds:
                a = I(subst_phi(f, p, bb, pr)) if mentions_phi(p, bb) else p
                b = I(subst_phi(f, q, bb, pr)) if mentions_phi(q, bb) else q
                if not walk_pair(f, a, b, whole, s2):
                    ok = False
                    break
            if ok:
                seen |= s2
                return True
    return False


def at_grapheme(f, p, q, whole, seen):
    """p is the index of the next grapheme and q the width of the ones before, or p just past it and q with its width added"""
    def item(x):
        return x[0] == "f" and x[2] == "0" and x[1][0] == "f" and x[1][2] == "Some.0" and x[1][1][0] == "call" and last(x[1][1]) == "next" and x[1]
    it = item(p)
    if it:
        src = [txt(y[2][0]) for y in walk(it) if y[0] == "call" and last(y) in ("grapheme_indices", "char_indices") and y[2]]
        hdr = it[1][3]
        return bool(src) and src[0] == whole and acc(f, q, hdr, it)
    if p[0] == "bin" and p[1] == "Add":
        for a, b in ((p[2], p[3]), (p[3], p[2])):
            it = item(un(a))
            if not it:
                continue
            g = I(("f", it, "1"))
            if not (un(b)[0] == "call" and last(un(b)) in ("len", "len_utf8") and txt(un(b)[2][0]) == g):
                continue
            if q[0] == "bin" and q[1] == "Add":
                for c, d in ((q[2], q[3]), (q[3], q[2])):
                    w = un(d)
                    if w[0] == "call" and last(w) in ("width", "display_width", "unwrap_or") and any(txt(y) == g for y in walk(w) if isinstance(y, tuple) and y):
                        src = [txt(y[2][0]) for y in walk(it) if y[0] == "call" and last(y) in ("grapheme_indices", "char_indices") and y[2]]
                        return bool(src) and src[0] == whole and acc(f, un(c), it[1][3], it)
    return False


def acc(f, q, hdr, it):
    """q is, at the loop's header, 0 at first and in every round grown by the width of the round's grapheme"""
    q = un(q)
    if q[0] != "phi" or q[1] != hdr:
        return False
    g = I(("f", it, "1"))
    ins = f.phi_in.get((hdr, q[2]), {})
    z = False
    for v in ins.values():
        for w in leaves_of(f, v, hdr):
            w = un(w)
            if w == ("k", 0):
                z = True
            elif w[0] == "bin" and w[1] == "Add" and any(un(c) == q and un(d)[0] == "call" and last(un(d)) in ("width", "display_width") and txt(un(d)[2][0]) == g for c, d in ((w[2], w[3]), (w[3], w[2]))):
                pass
            else:
                return False
    return z


def leaves_of(f, v, hdr, seen=None):
    seen = seen if seen is not None else set()
    v = un(v)
    if v in seen:
        return []
    seen.add(v)
    if v[0] == "phi" and v[1] != hdr:
        out = []
        for x in f.phi_in.get((v[1], v[2]), {}).values():
            out += leaves_of(f, x, hdr, seen)
        return out
    return [v]


def coll(v):
    """the collection a value is: copies, conversions and borrows removed"""
    while True:
        if v[0] in ("refv", "kref"):
            v = v[1]
        elif v[0] == "ref":
            if v[1][0] == "D":
                v = I(("mem", v[1], v[2]))
            else:
                return v
        elif v[0] == "call" and last(v) in ("from_vec", "into", "from", "clone", "to_vec", "deref", "as_slice", "into_vec", "iter", "into_iter", "cloned", "copied", "as_ref", "borrow") and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "call" and last(v) == "collect" and len(v[2]) == 1 and v[2][0][0] == "call" and last(v[2][0]) in ("iter", "into_iter", "cloned"):
            v = v[2][0]
        else:
            return v


def strip_agg(P, f, v, bb):
    s, n = proj(v, "segments"), un(proj(v, "cell_length"))
    return all(strip_pair(f, a, b, bb) for a, b in joint(f, [s, n])) or strip_pair(f, s, n, bb)


def strip_pair(f, s, n, bb):
    n = un(n)
    if s[0] in ("mem", "f") and owner_of(s, "segments") is not None and owner_of(s, "segments") == owner_of(n, "cell_length"):
        return True
    if n == ("k", 0):
        return s[0] == "call" and last(s) in ("new", "default", "with_capacity")
    if n[0] == "phi":
        for lp in loops(f):
            if lp.hdr != n[1] or lp.src is None:
                continue
            it = lp.item
            src = lp.src
            while src[0] == "call" and last(src) in ("iter", "into_iter") and src[2]:
                src = src[2][0]
            if src[0] == "ref" and src[1][0] == "L":
                st = f.instate.get(lp.hdr)
                src = f.read(st, src[1], src[2]) if st is not None else src
            if coll(src) != coll(s):
                continue
            ok, z = True, False
            for x in f.phi_in.get((n[1], n[2]), {}).values():
                for w in leaves_of(f, x, n[1]):
                    if w == ("k", 0):
                        z = True
                    elif not (w[0] == "bin" and w[1] == "Add" and any(un(a) == n and un(b) == I(("mem", ("D", it), ("cell_length",))) for a, b in ((w[2], w[3]), (w[3], w[2])))):
                        ok = False
            if ok and z and all(p.end == "stop" for p in lp.iters()):
                return True
        return False
    # one segment
    o = owner_of(n, "cell_length") or (proj_seg(n))
    if o is not None:
        ps = paths(f, 0, {bb}) or []
        got = [contents(f, p, s if s[0] != "phi" else p.val(f.phi_in.get((s[1], s[2]), {}).get(p.blocks[-2], s) if s[1] == bb else s)) for p in ps if p.blocks[-1] == bb or bb in p.blocks]
        return bool(got) and all(g is not None and len(g) == 1 and g[0][0] == "seg" and same(cl(g[0][1]), n) for g in got)
    return one_blank(f, s, n, bb)


def proj_seg(n):
    return None


def cl(v):
    return un(proj(v, "cell_length")) if v[0] in ("agg", "upd") else I(("f", v, "cell_length")) if v[0] != "mem" else I(("mem", v[1], v[2] + ("cell_length",)))


def one_blank(f, s, n, bb):
    ps = paths(f, 0, {bb}) or []
    if not ps:
        return False
    for p in ps:
        g = contents(f, p, p.val(s))
        if g is None or len(g) != 1 or g[0][0] != "seg" or un(cl(g[0][1])) != n:
            return False
    return True


# ---------------------------------------------------------------- contents of a container along a path
def contents(f, p, v, d=0):
    """pieces of a container value on path p: ('seg', v) one segment, ('all', collection); None when not understood"""
    if d > 40:
        return None
    if v[0] == "call" and last(v) in ("new", "default", "with_capacity") and (not v[2] or last(v) == "with_capacity"):
        return []
    if v[0] == "call" and last(v) == "vp_collect" and len(v[2]) == 2:
        b = contents(f, p, v[2][0], d + 1)
        return None if b is None else b + [("seg", v[2][1])]
    if v[0] == "k" and "empty" in str(v[1]):
        return []
    if v[0] == "call" and last(v) == "from_vec" and "box_assume_init" in str(v):
        x = boxed(f, p)
        return None if x is None else [("seg", x)]
    if v[0] == "call" and "box_assume_init" in str(v[1]):
        x = boxed(f, p)
        return None if x is None else [("seg", x)]
    if v[0] == "clob":
        bb = v[1]
        if bb not in f.call_info or bb not in p.blocks:
            return None
        c = next((c for c in f.b.calls() if c.bb == bb), None)
        j = p.blocks.index(bb)
        a = [p.val(x, j) for x in f.call_info[bb]]
        if c is None or not a or a[0][0] != "ref":
            return None
        base = contents(f, p, p.val(f.read(f.callstate[bb], a[0][1], a[0][2]), j), d + 1)
        if base is None:
            return None
        if c.name == "push" and len(a) == 2:
            return base + [("seg", a[1])]
        if c.name in ("extend", "extend_from_slice") and len(a) == 2:
            x = coll(a[1])
            if x[0] == "ref" and x[1][0] == "L":
                x = p.val(f.read(f.callstate[bb], x[1], x[2]), j)
            y = contents(f, p, x, d + 1)
            return base + (y if y is not None else [("all", x)])
        if c.name == "insert" and len(a) == 3 and a[1] == ("k", 0):
            return [("seg", a[2])] + base
        if c.name in ("reserve", "deref", "as_ref", "iter", "len", "is_empty", "shrink_to_fit"):
            return base
        return None
    x = coll(v)
    if x != v:
        return contents(f, p, x, d + 1)
    if v[0] in ("mem", "arg", "f"):
        return [("all", v)]
    return None


def boxed(f, p):
    for j, b in enumerate(p.blocks):
        for (bb, i), (root, comps, val) in f.stmt_vals.items():
            if bb == b and val is not None and val[0] == "agg" and str(val[1]) in ("array", "[]") or bb == b and val is not None and val[0] == "arr":
                xs = val[3] if val[0] == "agg" else val[1]
                if len(xs) == 1:
                    x = xs[0]
                    return p.val(x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (str, int)) else x, j)
    return None


# ---------------------------------------------------------------- nothing is changed in part
def untouched(P, R):
    n = 0
    for b in P.fns(crate="textual"):
        if b.self_adt in (SEG, STRIP) and b.of_trait and "clone" in b.of_trait.lower():
            continue
        for bb, i, pl, rv, ln in b.assigns():
            own = pl.owners()
            if own and own[-1] in ((SEG, "text"), (SEG, "cell_length"), (STRIP, "segments"), (STRIP, "cell_length")):
                R.ob("changed:%s:%s" % (key(b), own[-1][1]), False, "%s assigns %s of a finished %s" % (key(b), own[-1][1], own[-1][0].split("::")[-1]), b.where(ln))
            if rv[0] == "ref" and rv[1] == "mut":
                o2 = rv[2].owners() if hasattr(rv[2], "owners") else []
                if o2 and (o2[0] in ((SEG, "text"), (STRIP, "segments"), (SEG, "cell_length"), (STRIP, "cell_length"))):
                    R.ob("changed:%s:%s" % (key(b), o2[0][1]), False, "%s changes %s of a finished %s in place" % (key(b), o2[0][1], o2[0][0].split("::")[-1]), b.where(ln))
            n += 1
    R.count("statements", n)


# ---------------------------------------------------------------- Style::apply
def style_apply(P, R):
    b = meth(P, STYLE, "apply")
    R.floor("apply", 1 if b else 0, 1, "Style::apply")
    if not b:
        return
    f = flow(P, b)
    R.fn(b)
    fields = [x[0] for x in P.adts[STYLE]["variants"][0][1]]
    tys = {x[0]: x[1] for x in P.adts[STYLE]["variants"][0][1]}
    O = ("D", ("arg", 2))
    bad = {}
    for bb, v, fs in f.ret_values():
        for fl in fields:
            x = proj(v, fl)
            me, ot = I(("mem", SELF, (fl,))), I(("mem", O, (fl,)))
            if str(tys[fl]) == "bool":
                ok = bool_or(f, x, me, ot)
            else:
                ok = opt_or(f, x, me, ot)
            if not ok:
                bad[fl] = x
    for fl in fields:
        R.ob("style:%s" % fl, fl not in bad, "Style::apply: %s is not the other style's, or one's own where the other has none (%s)" % (fl, show(bad.get(fl, ("k", 0)))[:80]), b.where())


def bool_or(f, x, a, b):
    if x[0] == "bin" and x[1] == "BitOr":
        return {x[2], x[3]} == {a, b}
    if x[0] != "phi":
        return False
    for vs, fs in joint_leaves(f, [x], frozenset()):
        v = vs[0]
        if v == ("k", True):
            if I(("is", a, True)) not in fs and I(("is", b, True)) not in fs:
                return False
        elif v == a:
            if I(("is", b, False)) not in fs:
                return False
        elif v == b:
            if I(("is", a, False)) not in fs:
                return False
        elif v == ("k", False):
            if I(("is", a, False)) not in fs or I(("is", b, False)) not in fs:
                return False
        else:
            return False
    return True


def opt_or(f, x, a, b):
    """the other's value if it has one, else one's own"""
    def here(fs, v, val):
        return any(y[0] == "is" and y[1] == ("disc", v) and y[2] == val for y in fs)
    if x[0] == "call" and last(x) == "or" and len(x[2]) == 2:
        return txt(x[2][0]) == b and txt(x[2][1]) == a
    if x[0] != "phi":
        return False
    for vs, fs in joint_leaves(f, [x], frozenset()):
        v = vs[0]
        if v == b or v[0] == "agg" and v[2] == "Some" and proj(v, "0") == ("f", b, "Some.0") or v[0] == "agg" and v[2] == "Some" and proj(v, "0")[0] == "mem" and proj(v, "0")[2][:1] == b[2] and proj(v, "0")[1] == b[1]:
            if v == b and not here(fs, b, "Some"):
                return False
        elif v == a or v[0] == "agg" and v[2] == "Some" and proj(v, "0")[0] == "mem" and proj(v, "0")[1] == a[1] and proj(v, "0")[2][:1] == a[2]:
            if not here(fs, b, "None"):
                return False
        elif v[0] == "agg" and v[2] == "None":
            if not (here(fs, a, "None") and here(fs, b, "None")):
                return False
        else:
            return False
    return True


def meth(P, adt, name):
    return next((b for b in P.fns(crate="textual") if b.self_adt == adt and b.name == name and not b.of_trait and b.kind != "Closure"), None)


# ---------------------------------------------------------------- Segment operations
def seg_inline(c, cb):
    return default_inline(c, cb) and not (cb.self_adt == STYLE and cb.name == "apply")


def seg_method(P, R, name, style):
    b = meth(P, SEG, name)
    R.floor("segment operation", 1 if b else 0, 1, "Segment::" + name)
    if not b:
        return
    f = flow(P, b, inline=seg_inline, key="p22s")
    R.fn(b)
    ref = b.locals[1][0].startswith("&")
    me = I(("mem", SELF, ())) if ref else I(("arg", 1))
    own = lambda fl: I(("mem", SELF, (fl,))) if ref else I(("f", ("arg", 1), fl))
    seen = 0
    bad = {}
    for bb, v, fs0 in f.ret_values():
        for v1, fs1 in segs_of(f, v, fs0):
          parts = [v1] if "(" not in b.locals[0][0] else [proj(v1, "0"), proj(v1, "1")]
          for part in parts:
            for leaf, fs in segs_of(f, part, fs1):
                if leaf == me or part == me:
                    seen += 1
                    if name in ("apply_style", "set_style", "with_style", "with_meta"):
                        bad["result"] = "can return the segment unchanged"
                    continue
                if leaf[0] not in ("agg", "upd"):
                    bad["shape"] = show(leaf)[:80]
                    continue
                seen += 1
                m, t, s = proj(leaf, "meta"), proj(leaf, "text"), proj(leaf, "style")
                if name == "with_meta":
                    if m != ("arg", 2):
                        bad["meta"] = "does not take the metadata given"
                elif m != own("meta"):
                    bad["meta"] = "loses or changes the metadata"
                if name not in ("split_at", "apply_hatch") and txt(t) != own("text"):
                    bad["text"] = "changes the text"
                if style:
                    e = style(P, f, s, own("style"), fs)
                    if e:
                        bad["style"] = e
                elif name == "with_style" and not (s[0] == "agg" and s[2] == "Some" and proj(s, "0") == ("arg", 2)):
                    bad["style"] = "does not take the style given"
                elif name == "with_meta" and s != own("style"):
                    bad["style"] = "changes the style"
    for k in ("meta", "text", "style", "result", "shape"):
        R.ob("op:%s:%s" % (name, k), k not in bad, "Segment::%s %s" % (name, bad.get(k)), b.where())
    R.ob("op:%s" % name, seen > 0, "Segment::%s: no result found" % name, b.where())
    if name == "split_at":
        split_sides(P, R, b, f)


def segs_of(f, v, fs, d=0):
    if v[0] == "phi" and d < 12:
        for p, x in f.phi_in.get((v[1], v[2]), {}).items():
            ef = f.edgefacts.get((p, v[1]))
            if ef is None:
                continue
            yield from segs_of(f, x, frozenset(set(fs) | set(ef)), d + 1)
    else:
        yield v, fs


def m_apply_style(P, f, s, own, fs):
    given = I(("mem", ("D", ("arg", 2)), ()))
    for vs, lf in joint_leaves(f, [s], fs):
        v = vs[0]
        x = proj(v, "0") if v[0] == "agg" and v[2] == "Some" else None
        if x is None:
            return "can leave the style out"
        for ys, yf in joint_leaves(f, [x], lf):
            y = ys[0]
            if y[0] == "call" and last(y) == "apply" and len(y[2]) == 2:
                a, o = y[2]
                if o != ("arg", 2) or not under(a, own):
                    return "does not lay the given style over its own"
            elif y == given:
                if not any(z[0] == "is" and z[1] == ("disc", own) and z[2] == "None" for z in yf):
                    return "replaces its own style"
            else:
                return "gives another style (%s)" % show(y)[:60]
    return None


def under(v, own):
    return any(z == own or (z[0] in ("ref", "D", "mem") and own[0] == "mem" and len(z) > 2 and z[1] == own[1] and tuple(z[2][:1]) == own[2]) for z in walk(v) if isinstance(z, tuple) and z)


def m_set_style(P, f, s, own, fs):
    return None if s == ("arg", 2) else "does not take the style given"


def bools(P):
    return [x[0] for x in P.adts[STYLE]["variants"][0][1] if str(x[1]) == "bool"]


def keeps_flags(P, f, s, own, fs, none_ok):
    for vs, lf in joint_leaves(f, [s], fs):
        v = vs[0]
        if v == own:
            continue
        if v[0] == "agg" and v[2] == "None":
            if any(z[0] == "is" and z[1] == ("disc", own) and z[2] == "None" for z in lf):
                continue
            return "drops the style"
        if v[0] == "agg" and v[2] == "Some":
            for ys, yf in joint_leaves(f, [proj(v, "0")], lf):
                y = ys[0]
                noown = any(z[0] == "is" and z[1] == ("disc", own) and z[2] == "None" for z in yf)
                for fl in bools(P):
                    x = proj(y, fl)
                    mine = {I(("mem", own[1], own[2] + ("Some.0", fl))), I(("f", I(("f", own, "Some.0")), fl))}
                    if x not in mine and not (noown and x == ("k", False)) and not (noown and (y[0] == "call" and last(y) == "default" or x[0] == "f")):
                        return "changes %s" % fl
            continue
        return "gives another style (%s)" % show(v)[:60]
    return None


def m_tint(P, f, s, own, fs):
    return keeps_flags(P, f, s, own, fs, False)


def m_hatch(P, f, s, own, fs):
    return keeps_flags(P, f, s, own, fs, True)


def m_split(P, f, s, own, fs):
    return None if s == own else "changes the style of a side"


def split_sides(P, R, b, f):
    """left + right are the segment: (empty, whole), (whole, empty) or the two sides of one cut, left and right in this order"""
    own = I(("mem", SELF, ("text",)))
    bad = None
    n = 0
    me = I(("mem", SELF, ()))

    def side(v):
        if v == me:
            return "whole"
        t = txt(proj(v, "text"))
        if is_empty_text(t):
            return "empty"
        if t == own:
            return "whole"
        if t[0] == "f" and t[1][0] == "call" and last(t[1]) == "split_at" and txt(t[1][2][0]) == own:
            return (t[2], t[1][2][1])
        if t[0] == "call" and last(t) == "index" and len(t[2]) == 2 and t[2][1][0] == "agg" and txt(t[2][0]) == own:
            r = t[2][1]
            if str(r[1]).endswith("RangeTo"):
                return ("0", proj(r, "end"))
            if str(r[1]).endswith("RangeFrom"):
                return ("1", proj(r, "start"))
        return None
    ps = [p for p in paths(f) or [] if p.end == "return"]
    for p in ps:
        v = p.ret()
        l, r = side(proj(v, "0")), side(proj(v, "1"))
        n += 1
        if (l, r) in (("empty", "whole"), ("whole", "empty")):
            fs = p.facts
            cut, w = I(("arg", 2)), I(("mem", SELF, ("cell_length",)))
            if l == "empty" and not implied(fs, ge(("k", 0), cut), POS):
                bad = "puts everything on the right though the cut is not at the start"
            if r == "empty" and not implied(fs, ge(cut, w), POS):
                bad = "puts everything on the left though the cut lies inside"
        elif not (isinstance(l, tuple) and isinstance(r, tuple) and l[0] == "0" and r[0] == "1" and l[1] == r[1]):
            bad = "has two sides that are not the whole text in order"
    R.ob("split:sides", n > 0 and not bad, "Segment::split_at %s" % (bad or "has no result"), b.where())
    # the walk stops at the first grapheme at or past the cut
    ok = seen = 0
    bad = None
    for lp in loops(f):
        for p in lp.iters():
            seen += 1
            if p.end == "stop":
                continue
            ph = [k[1] for k in f.phi_in if k[0] == lp.hdr]
            accs = [I(("phi", lp.hdr, k)) for k in ph]
            accs = [a for a in accs if acc(f, a, lp.hdr, lp.item)]
            if not accs:
                continue
            g = grown(f, p, lp, accs[0])
            if not any(implied(p.facts, ge(x, ("arg", 2)), POS) for x in g):
                bad = "ends before the cut"
            ok += 1
        for p in lp.iters():
            if p.end == "stop":
                ph = [I(("phi", lp.hdr, k[1])) for k in f.phi_in if k[0] == lp.hdr]
                for a in ph:
                    if acc(f, a, lp.hdr, lp.item) and not (implied(p.facts, gt(("arg", 2), a), POS) or implied(p.facts, gt(("arg", 2), p.after(a)), POS)):
                        bad = "goes on past the cut"
    if seen:
        R.ob("split:where", not bad, "Segment::split_at %s" % bad, b.where())


def grown(f, p, lp, a):
    out = [a]
    w = [x for x in (v for st in p.blocks for (bb, i), (r, c, v) in f.stmt_vals.items() if bb == st and v is not None)]
    out += [x for x in w if x[0] == "bin" and x[1] == "Add" and a in (un(x[2]), un(x[3]))]
    return out


# ---------------------------------------------------------------- Strip operations
_OPAQUE = {}


def strip_inline(P):
    if id(P) not in _OPAQUE:
        op = set()
        for b in P.fns(crate="textual"):
            if b.kind == "Closure":
                continue
            t = b.locals[0][0]
            if b.self_adt == STRIP and "Strip" in t and (b.pub or makes_from_arg(P, b)):
                op.add(b.id)
            if b.self_adt == SEG and b.pub and "Segment" in t and b.argc and b.locals[1][0].startswith("&"):
                op.add(b.id)
            if b.self_adt == STYLE and b.name == "apply":
                op.add(b.id)
        _OPAQUE[id(P)] = op
    op = _OPAQUE[id(P)]
    return lambda c, cb: default_inline(c, cb) and cb.id not in op


def makes_from_arg(P, b):
    if b.argc != 1 or b.locals[1][0].startswith("&"):
        return False
    f = flow(P, b)
    r = [v for _, v, _ in f.ret_values()]
    return bool(r) and all(v[0] == "agg" and v[1] == STRIP and coll(proj(v, "segments")) == ("arg", 1) for v in r)


def sflow(P, b):
    return flow(P, b, inline=strip_inline(P), key="p22t")


ME = I(("mem", SELF, ()))
SEGS = I(("mem", SELF, ("segments",)))
WIDTH = I(("mem", SELF, ("cell_length",)))


def over_self(lp, f):
    s = lp.src
    c = coll(s) if s is not None else None
    return c == SEGS or c == I(("ref", SELF, ("segments",)))


def made(f, p, v):
    """contents of a strip value on a path"""
    if v == ME:
        return [("all", SEGS)]
    if v[0] == "call" and last(v) in ("clone",) and v[2] and v[2][0] in (("arg", 1), ("ref", SELF, ())):
        return [("all", SEGS)]
    if v[0] == "call" and last(v) == "new" and not v[2] or v[0] == "agg" and v[1] == STRIP and last(proj(v, "segments")) in ("new", "default"):
        return []
    if v[0] == "call" and last(v) in ("from_smallvec", "from_segments", "from_iter") or v[0] == "call" and isinstance(v[1], str) and "strip::Strip" in v[1] and len(v[2]) == 1 and last(v) not in ("from_segment", "clone", "blank"):
        return contents(f, p, v[2][0])
    if v[0] == "call" and last(v) == "from_segment" and len(v[2]) == 1:
        return [("seg", v[2][0])]
    if v[0] == "call" and last(v) == "blank" and len(v[2]) == 2:
        return [("blank", v[2][0], v[2][1])]
    return None


def seg_text(v):
    return txt(proj(v, "text")) if v[0] in ("agg", "upd") else None


def appended(f, p):
    """segments added on a path, in order"""
    out = []
    for c, a in p.calls():
        if c.name in ("push", "vp_collect") and len(a) == 2 and segment_like(c, a[1]):
            out.append(a[1])
    return out


def segment_like(c, v):
    if v[0] in ("agg", "upd"):
        b = v
        while b[0] == "upd":
            b = b[1]
        return b[0] == "agg" and b[1] == SEG or b[0] in ("mem", "f") or b[0] == "call" and "Segment" in str(b[1])
    if v[0] == "call" and isinstance(v[1], str) and "Segment" in v[1]:
        return True
    if v[0] == "mem" and v[2] == () and v[1][0] == "D":
        return True
    if v[0] == "f" and v[1][0] == "call" and "Segment" in str(v[1][1]):
        return True
    return False


def piece_of(P, v, it, allow_blank=True):
    """None when v is the item restyled: same text (or as many blanks), same metadata"""
    item = I(("mem", ("D", it), ()))
    if v == item:
        return None
    if v[0] == "call" and isinstance(v[1], str) and "Segment" in v[1] and last(v) in ("apply_style", "set_style", "apply_tint", "apply_hatch", "clone") and v[2]:
        a = v[2][0]
        if a == it or a == ("ref", ("D", it), ()) or a[0] == "refv" and a[1] == item:
            return None
        if a[0] == "refv":
            return piece_of(P, a[1], it, allow_blank)
        return "is made from another segment"
    if v[0] not in ("agg", "upd"):
        return "is not made from the segment (%s)" % show(v)[:60]
    t, m = txt(proj(v, "text")), proj(v, "meta")
    bl = is_blank(t)
    if bl is not None and allow_blank:
        if un(bl) != I(("mem", ("D", it), ("cell_length",))):
            return "is not as wide as the segment"
    elif t != I(("mem", ("D", it), ("text",))):
        return "has another text"
    if not meta_of(v, m, it):
        return "loses its metadata (links)"
    return None


def meta_of(v, m, it, fs=()):
    own = I(("mem", ("D", it), ("meta",)))
    if m == own:
        return True
    # nothing to carry over
    if m[0] == "call" and last(m) in ("new", "default") and not m[2]:
        return any(x[0] == "is" and x[1][0] == "call" and last(x[1]) == "is_empty" and x[2] is True and txt(x[1][2][0]) == own for x in fs)
    return False


def restyle(P, R, name):
    b = meth(P, STRIP, name)
    R.floor("strip operation", 1 if b else 0, 1, "Strip::" + name)
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    bad = None
    its = 0
    lps = [lp for lp in loops(f) if over_self(lp, f)]
    for lp in lps:
        for p in lp.iters():
            its += 1
            if p.end != "stop":
                bad = "can end before the last segment"
            xs = appended(f, p)
            if len(xs) != 1:
                bad = "gives %d pieces for a segment" % len(xs)
                continue
            e = piece_of(P, xs[0], lp.item)
            if e and "metadata" in e and meta_of(xs[0], proj(xs[0], "meta"), lp.item, p.facts):
                e = None
            if e:
                bad = "gives a piece that " + e
    R.ob("restyle:%s" % name, its > 0 and not bad, "Strip::%s %s" % (name, bad or "does not go over the segments"), b.where())
    for p in paths(f) or []:
        if p.end != "return":
            continue
        if any(lp.hdr in p.blocks for lp in lps):
            continue
        v = p.ret()
        g = made(f, p, v)
        R.ob("restyle:%s:else" % name, g == [("all", SEGS)], "Strip::%s returns something other than the line (%s)" % (name, show(v)[:60]), b.where())
    # what the loop built is what is returned
    for lp in lps:
        for p in lp.ends():
            if p.end != "return":
                continue
            v = p.ret()
            R.ob("restyle:%s:result" % name, v[0] == "call" and isinstance(v[1], str) and "Strip" in v[1] and len(v[2]) == 1 and any(x[0] == "phi" and x[1] == lp.hdr for x in walk(v)),
                 "Strip::%s does not return the pieces it made" % name, b.where())
            R.ob("restyle:%s:extra" % name, not appended(f, p), "Strip::%s adds a piece after the last segment" % name, b.where())


def usz(b):
    return [i for i in range(2, b.argc + 1) if b.locals[i][0] == "usize"]


def stylearg(b):
    return next((i for i in range(2, b.argc + 1) if "Style" in b.locals[i][0] and "Option" in b.locals[i][0]), None)


def pad(P, R, name):
    b = meth(P, STRIP, name)
    R.floor("strip operation", 1 if b else 0, 1, "Strip::" + name)
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    w = I(("arg", usz(b)[0]))
    st = stylearg(b)
    n = 0
    for p in paths(f) or []:
        if p.end != "return" or p.facts is None:
            continue
        v = p.ret()
        fs = p.facts
        n += 1
        if v[0] == "call" and last(v) == "crop" and v[2][0] == ("arg", 1):
            ok = v[2][1] == ("k", 0) and same(v[2][2], w) and implied(fs, ge(WIDTH, w), POS)
            R.ob("pad:%s:crop" % name, ok, "Strip::%s cuts a line that is not too long, or not to the width asked" % name, b.where())
            continue
        if name == "justify" and v[0] == "call" and last(v) == "text_align" and v[2][0] == ("arg", 1):
            R.ob("pad:%s:align" % name, v[2][2] == w and v[2][3] == ("arg", st), "Strip::justify hands on another width or style", b.where())
            continue
        if name == "justify":
            continue
        g = made(f, p, v)
        if g is None:
            R.ob("pad:%s:parts" % name, False, "Strip::%s: not the line and blanks (%s)" % (name, show(v)[:80]), b.where())
            continue
        alls = [i for i, x in enumerate(g) if x[0] == "all"]
        R.ob("pad:%s:once" % name, [x[1] for x in g if x[0] == "all"] == [SEGS], "Strip::%s does not contain the line exactly once" % name, b.where())
        tot = term(WIDTH) if alls else {}
        good = True
        for x in g:
            if x[0] == "seg":
                s = x[1]
                if s[0] in ("agg", "upd") and is_blank(proj(s, "text")) is not None:
                    tot = add(tot, term(un(proj(s, "cell_length"))))
                    good &= proj(s, "style") == ("arg", st)
                else:
                    good = False
            elif x[0] == "blank":
                tot = add(tot, term(un(x[1])))
                good &= x[2] == ("arg", st)
        R.ob("pad:%s:blanks" % name, good, "Strip::%s pads with something other than blanks in the padding style" % name, b.where())
        t = term(w)
        up = {k: tot.get(k, 0) - t.get(k, 0) for k in set(tot) | set(t)}
        dn = {k: -c for k, c in up.items()}
        up, dn = ({k: c for k, c in d.items() if c} for d in (up, dn))
        hv = halves(fs, g)
        R.ob("pad:%s:width" % name, implied(fs, up, POS, hv) and implied(fs, dn, POS, hv), "Strip::%s does not give a line of exactly the width asked" % name, b.where())
        if name == "text_align" and len(g) > 1:
            side = {y[2] for y in fs if y[0] == "is" and y[1] == ("disc", ("arg", 2))}
            i = alls[0] if alls else 0
            if "Left" in side:
                R.ob("pad:left", i == 0, "Strip::text_align puts blanks before left-aligned text", b.where())
            elif "Right" in side:
                R.ob("pad:right", i == len(g) - 1, "Strip::text_align puts blanks after right-aligned text", b.where())
            elif "Center" in side:
                l = sum_terms(g[:i])
                r = sum_terms(g[i + 1:])
                d = {k: l.get(k, 0) - r.get(k, 0) for k in set(l) | set(r)}
                d1 = dict(d)
                d1[1] = d1.get(1, 0) + 1
                d2 = {k: -c for k, c in d.items()}
                d2[1] = d2.get(1, 0) + 1
                ex = halves(fs, g)
                R.ob("pad:center", implied(fs, {k: c for k, c in d1.items() if c}, POS, ex) and implied(fs, {k: c for k, c in d2.items() if c}, POS, ex), "Strip::text_align does not put centred text in the middle", b.where())
    R.ob("pad:%s" % name, n >= 2, "Strip::%s: paths" % name, b.where())
    if name == "justify":
        justify(P, R, b, f)


def halves(fs, g):
    """x/2 <= x/2 <= ..: what integer division by two means"""
    out = []
    seen = set()
    for v in list(fs) + [x[1] for x in g]:
        for y in walk(v):
            if isinstance(y, tuple) and y and y[0] == "bin" and y[1] == "Div" and y[3] == ("k", 2) and y not in seen:
                seen.add(y)
                a, d = term(y[2]), term(y)
                lo = {k: a.get(k, 0) - 2 * d.get(k, 0) for k in set(a) | set(d)}
                hi = {k: -c for k, c in lo.items()}
                hi[1] = hi.get(1, 0) + 1
                out += [{k: c for k, c in lo.items() if c}, {k: c for k, c in hi.items() if c}]
    return out


def sum_terms(g):
    t = {}
    for x in g:
        t = add(t, term(un(proj(x[1], "cell_length"))) if x[0] == "seg" else term(un(x[1])))
    return t


def add(a, b):
    return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b) if a.get(k, 0) + b.get(k, 0)}


def justify(P, R, b, f):
    """every piece carries style and metadata of the segment it comes from"""
    for lp in loops(f):
        if not over_self(lp, f):
            continue
        n = 0
        bad = None
        own = I(("mem", ("D", lp.item), ("meta",)))
        for blk in lp.body:
            if blk not in f.call_info:
                continue
            c = next((c for c in f.b.calls() if c.bb == blk), None)
            if c is None or c.name != "push":
                continue
            a = f.call_info[blk]
            if len(a) != 2:
                continue
            for leaf, fs in segs_of(f, a[1], frozenset(f.facts_at(blk)) if hasattr(f, "facts_at") else frozenset()):
                base = leaf
                while base[0] == "upd":
                    base = base[1]
                if not (base[0] == "agg" and base[1] == SEG):
                    continue
                n += 1
                m = proj(leaf, "meta")
                if not (m == own or meta_of(leaf, m, lp.item, fs)):
                    bad = "metadata"
                s = proj(leaf, "style")
                if not style_of(f, s, lp.item, fs):
                    bad = "style"
        if n:
            R.ob("justify:pieces", not bad, "Strip::justify gives a piece without the %s of its segment" % bad, b.where())


def style_of(f, s, it, fs):
    own = I(("mem", ("D", it), ("style",)))
    if s == own:
        return True
    if s[0] == "agg" and s[2] == "None":
        return any(x[0] == "is" and x[1][0] == "disc" and under(x[1], own) and x[2] == "None" for x in fs)
    if s[0] == "agg" and s[2] == "Some":
        return under(s, own)
    return under(s, own)


# ---------------------------------------------------------------- crop, divide
def crop(P, R):
    b = meth(P, STRIP, "crop")
    R.floor("crop", 1 if b else 0, 1, "Strip::crop")
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    S, E = I(("arg", 2)), I(("arg", 3))
    lps = [lp for lp in loops(f) if over_self(lp, f)]
    R.floor("crop loop", len(lps), 1, "the loop of Strip::crop over its segments")
    for p in paths(f) or []:
        if p.end != "return" or any(lp.hdr in p.blocks for lp in lps):
            continue
        v = p.ret()
        g = made(f, p, v)
        fs = p.facts
        if g == [("all", SEGS)]:
            ok = implied(fs, ge(("k", 0), S), POS) and implied(fs, ge(E, WIDTH), POS)
            why = "returns the whole line though a part is asked for"
        else:
            # nothing lies between: end <= start, or start past the line
            ok = g == [] and implied(fs, ge(S, E), POS, [gt(WIDTH, S)])
            why = "returns nothing though there is something between start and end"
        R.ob("crop:early", ok, "Strip::crop %s" % why, b.where())
    for lp in lps:
        ln = I(("mem", ("D", lp.item), ("cell_length",)))
        pos = None
        for k in [k[1] for k in f.phi_in if k[0] == lp.hdr]:
            ph = I(("phi", lp.hdr, k))
            good, z = True, False
            for pr, v in f.phi_in[(lp.hdr, k)].items():
                if pr not in lp.body:
                    z |= v == ("k", 0)
                    good &= v == ("k", 0)
            if not (good and z):
                continue
            if all(eq(p.facts, p.after(ph), I(("bin", "Add", ph, ln))) for p in lp.iters() if p.end == "stop"):
                pos = ph
        R.ob("crop:position", pos is not None, "Strip::crop does not keep count of the cells before each segment", b.where())
        if pos is None:
            continue
        ex = [ge(WIDTH, I(("bin", "Add", pos, ln)))]
        early = [gt(WIDTH, S), gt(E, S)]
        for p in lp.iters():
            fs = set(p.facts)
            xs = appended(f, p)
            if len(xs) > 1:
                R.ob("crop:once", False, "Strip::crop takes a segment twice", b.where())
                continue
            end = I(("bin", "Add", pos, ln))
            nes = [x[1] for x in fs if x[1][0] == "bin" and (x[1][1] == "Eq" and (x[0], x[2]) in (("is", False), ("not", True)) or x[1][1] == "Ne" and (x[0], x[2]) in (("is", True), ("not", False)))]
            nes += [("bin", "Ne", x[1], ("k", x[2])) for x in fs if x[0] == "not" and isinstance(x[2], int) and not isinstance(x[2], bool)]
            nes = nes[:5]
            cases = [[]]
            for v in nes:
                cases = [c + [d] for c in cases for d in (gt(v[2], v[3]), gt(v[3], v[2]))]
            imp = lambda goal, more=(): all(implied(fs, goal, POS, ex + early + list(more) + c) for c in cases)
            if not xs:
                # nothing of the segment lies between start and end, or the piece is empty
                ok = imp(ge(S, end)) or imp(ge(("k", 0), ln), [gt(E, pos)]) or any(
                    x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "is_empty" and "split_at" in str(x[1]) for x in fs)
                if p.end != "stop":
                    ok = imp(ge(("k", 0), ln), [gt(E, pos)])
                R.ob("crop:skip", ok, "Strip::crop leaves out a segment that lies between start and end" if p.end == "stop" else "Strip::crop stops before the end", b.where())
                continue
            e = cropped(imp, xs[0], lp.item, pos, ln, S, E)
            if e and p.end != "stop" and False:
                pass
            R.ob("crop:part", e is None, "Strip::crop %s" % e, b.where())
            if p.end != "stop":
                R.ob("crop:stop", imp(ge(end, E)), "Strip::crop stops before the end", b.where())
        for p in lp.ends():
            if p.end == "return":
                v = p.ret()
                R.ob("crop:result", v[0] == "call" and isinstance(v[1], str) and "Strip" in v[1] and not appended(f, p) and any(x[0] == "phi" and x[1] == lp.hdr for x in walk(v)),
                     "Strip::crop does not return the parts it took", b.where())


def eq(fs, a, b, extra=()):
    return implied(fs, ge(a, b), POS, extra) and implied(fs, ge(b, a), POS, extra)


def cropped(imp, v, it, pos, ln, S, E):
    end = I(("bin", "Add", pos, ln))
    sub = lambda a, b: I(("bin", "Sub", a, b))
    both = lambda a, b: imp(ge(a, b)) and imp(ge(b, a))

    def is_item(a):
        return a == it or a == ("ref", ("D", it), ()) or a[0] == "refv" and a[1] == ("mem", ("D", it), ())
    if v == ("mem", ("D", it), ()):
        return None if imp(ge(pos, S)) and imp(ge(E, end)) else "takes a whole segment of which only a part lies between start and end"
    if v[0] == "f" and v[1][0] == "call" and last(v[1]) == "split_at" and len(v[1][2]) == 2:
        a, k = v[1][2]
        if is_item(a):
            if v[2] == "0":
                if not imp(ge(pos, S)):
                    return "keeps cells before start"
                return None if both(I(("bin", "Add", pos, k)), E) or (imp(ge(k, ln)) and imp(ge(E, end))) else "does not cut at end"
            if not imp(ge(E, end)):
                return "keeps cells after end"
            return None if both(I(("bin", "Add", pos, k)), S) or (imp(ge(("k", 0), k)) and imp(ge(pos, S))) else "does not cut at start"
        if a[0] == "refv" and a[1][0] == "f" and a[1][1][0] == "call" and last(a[1][1]) == "split_at":
            i2, k2 = a[1][1][2]
            if is_item(i2) and a[1][2] == "1" and v[2] == "0":
                if not (both(I(("bin", "Add", pos, k2)), S) or (imp(ge(("k", 0), k2)) and imp(ge(pos, S)))):
                    return "does not cut at start"
                q = I(("bin", "Add", I(("bin", "Add", pos, k2)), k))
                return None if both(q, E) or (imp(ge(q, end)) and imp(ge(E, end))) else "does not cut at end"
            if is_item(i2) and a[1][2] == "0" and v[2] == "1":
                if not (both(I(("bin", "Add", pos, k)), S) or (imp(ge(("k", 0), k)) and imp(ge(pos, S)))):
                    return "does not cut at start"
                q = I(("bin", "Add", pos, k2))
                return None if both(q, E) or (imp(ge(q, end)) and imp(ge(E, end))) else "does not cut at end"
    return "takes something other than a part of the segment (%s)" % show(v)[:60]


def divide(P, R):
    b = meth(P, STRIP, "divide")
    R.floor("divide", 1 if b else 0, 1, "Strip::divide")
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    lps = [lp for lp in loops(f) if lp.src is not None and coll(lp.src) in (("arg", 2), I(("mem", ("D", ("arg", 2)), ())))]
    R.floor("divide loop", len(lps), 1, "the loop of Strip::divide over the cuts")

    def pieces(p):
        return [a[1] for c, a in p.calls() if c.name in ("push", "vp_collect") and len(a) == 2 and a[1][0] == "call" and isinstance(a[1][1], str) and "Strip" in a[1][1]]
    for lp in lps:
        cut = I(("mem", ("D", lp.item), ()))
        lasts = []
        for k in [k[1] for k in f.phi_in if k[0] == lp.hdr]:
            if all(v == ("k", 0) for pr, v in f.phi_in[(lp.hdr, k)].items() if pr not in lp.body):
                lasts.append(I(("phi", lp.hdr, k)))
        okl = None
        for la in lasts:
            bad = None
            for p in lp.iters():
                xs = pieces(p)
                af = p.after(la) if p.end == "stop" else None
                cv = cut if any(y == cut for x in list(p.facts) + xs for y in walk(x)) else cut
                if p.end != "stop":
                    bad = "stops before the last cut"
                elif not xs:
                    if af != la or not (implied(p.facts, ge(la, cv), POS, [ge(WIDTH, cv)])):
                        bad = "leaves out a cut that lies inside the line"
                elif len(xs) == 1 and last(xs[0]) == "crop" and xs[0][2][0] == ("arg", 1):
                    if xs[0][2][1] != la or xs[0][2][2] != cv or af != cv:
                        bad = "does not go on where the last piece ended"
                else:
                    bad = "gives another piece"
            if bad is None:
                okl = la
                break
        R.ob("divide:cuts", okl is not None, "Strip::divide %s" % (bad if lasts else "does not remember where the last piece ended"), b.where())
        if okl is None:
            continue
        for p in lp.ends():
            if p.end != "return":
                continue
            xs = pieces(p)
            if not xs:
                ok = implied(p.facts, ge(okl, WIDTH), POS)
            else:
                ok = len(xs) == 1 and last(xs[0]) == "crop" and xs[0][2][0] == ("arg", 1) and xs[0][2][1] == okl and implied((), ge(xs[0][2][2], WIDTH), POS)
            R.ob("divide:rest", ok, "Strip::divide leaves out what follows the last cut", b.where())


# ---------------------------------------------------------------- simplify, join, text
def simplify(P, R):
    b = meth(P, STRIP, "simplify")
    R.floor("simplify", 1 if b else 0, 1, "Strip::simplify")
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    lps = [lp for lp in loops(f) if over_self(lp, f)]
    R.floor("simplify loop", len(lps), 1, "the loop of Strip::simplify over its segments")
    n = 0
    for lp in lps:
        it = lp.item
        own = lambda fl: I(("mem", ("D", it), (fl,)))
        for p in lp.iters():
            if p.end != "stop":
                R.ob("simplify:all", False, "Strip::simplify stops before the last segment", b.where())
                continue
            n += 1
            joins = [a for c, a in p.calls() if c.name in ("push_str", "add_assign", "extend", "insert_str") and len(a) >= 2 and txt(a[-1]) == own("text")]
            fs = p.facts
            if joins:
                R.ob("simplify:join:style", equal(fs, own("style")), "Strip::simplify joins segments whose styles may differ", b.where())
                R.ob("simplify:join:meta", equal(fs, own("meta")), "Strip::simplify joins segments whose metadata (links) may differ", b.where())
                R.ob("simplify:join:once", len(joins) == 1, "Strip::simplify adds a text twice", b.where())
                R.ob("simplify:join:order", all(c.name != "insert_str" for c, a in p.calls()), "Strip::simplify puts a text before the ones it follows", b.where())
            else:
                # the segment becomes the new open piece (text, style and metadata), or is given out whole
                got = set()
                for k in [k[1] for k in f.phi_in if k[0] == lp.hdr]:
                    v = p.after(I(("phi", lp.hdr, k)))
                    for fl in ("text", "style", "meta"):
                        if opened(v, own(fl), it, fl):
                            got.add(fl)
                whole = any(x == ("mem", ("D", it), ()) for x in appended(f, p))
                R.ob("simplify:open", whole or got == {"text", "style", "meta"}, "Strip::simplify drops %s of a segment" % ", ".join(sorted({"text", "style", "meta"} - got)), b.where())
        # pieces given out
        for blk in sorted(f.call_info):
            c = next((c for c in f.b.calls() if c.bb == blk), None)
            if c is None or c.name != "push" or len(f.call_info[blk]) != 2:
                continue
            for leaf, fs in segs_of(f, f.call_info[blk][1], frozenset()):
                base = leaf
                while base[0] == "upd":
                    base = base[1]
                if not (base[0] == "agg" and base[1] == SEG):
                    continue
                m = proj(leaf, "meta")
                R.ob("simplify:given", m[0] == "phi" or m == own("meta") or any(x[0] == "is" and x[1][0] == "call" and last(x[1]) == "is_empty" and x[2] is True for x in fs) or not fs and m[0] != "call",
                     "Strip::simplify gives out a piece without its metadata", b.where())
        for p in lp.ends():
            if p.end != "return":
                continue
            if not appended(f, p):
                ok = any(x[0] == "is" and x[1][0] == "call" and last(x[1]) in ("is_empty",) and x[2] is True or x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and x[1][1] != lp.call or
                         x[0] == "is" and x[1][0] == "phi" and x[2] is False for x in p.facts)
                R.ob("simplify:last", ok, "Strip::simplify drops the last piece", b.where())
    R.ob("simplify", n > 0, "Strip::simplify: no iteration found", b.where())
    for p in paths(f) or []:
        if p.end == "return" and not any(lp.hdr in p.blocks for lp in lps):
            R.ob("simplify:else", made(f, p, p.ret()) == [("all", SEGS)], "Strip::simplify returns something other than the line", b.where())


def opened(v, own, it, fl):
    if v == ("mem", ("D", it), ()) :
        return True
    if fl == "text":
        return txt(v) == own or any(txt(y) == own for y in walk(v) if isinstance(y, tuple) and y and y[0] in ("call", "ref", "mem"))
    return any(y == own or (isinstance(y, tuple) and len(y) > 2 and y[0] in ("ref", "mem") and y[1] == own[1] and tuple(y[2]) == own[2]) for y in walk(v)) or v == ("mem", ("D", it), ())


REF = ("as_ref", "as_deref", "clone", "cloned", "borrow", "deref", "style", "meta", "eq", "ne", "next", "into_iter", "iter", "copied", "unwrap_or_default", "to_owned")


def partial(x, own):
    """the comparison is of something computed from `own` (its length, say), not of `own`"""
    return any(isinstance(y, tuple) and y and (y[0] == "call" and last(y) not in REF or y[0] == "len") and under(y, own) for y in walk(x))


def equal(fs, own):
    for x in fs:
        if partial(x, own):
            continue
        if x[0] in ("is", "not") and isinstance(x[2], bool) and under(x[1], own):
            v = x[1]
            val = x[2] if x[0] == "is" else not x[2]
            if v[0] == "call" and last(v) == "eq" and val or v[0] == "call" and last(v) == "ne" and not val or v[0] == "bin" and v[1] == "Eq" and val or v[0] == "bin" and v[1] == "Ne" and not val:
                return True
        if x[0] == "eq" and under(x, own):
            return True
    return False


def join(P, R):
    b = meth(P, STRIP, "join")
    R.floor("join", 1 if b else 0, 1, "Strip::join")
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    n = 0
    for lp in loops(f):
        if lp.src is None or not any(y == ("arg", 1) for y in walk(lp.src)) or any(y[0] == "call" and last(y) == "next" for y in walk(lp.src) if y):
            continue
        own = I(("f", lp.item, "segments"))
        for p in lp.iters():
            n += 1
            if p.end == "cycle":
                continue    # goes round an inner loop, which is looked at by itself
            ext = [a for c, a in p.calls() if c.name in ("extend", "append", "extend_from_slice") and len(a) == 2 and (coll(a[1]) == own or any(y == own for y in walk(a[1])))]
            inner = [l2 for l2 in loops(f) if l2.hdr in p.blocks and l2.hdr != lp.hdr and l2.src is not None and any(y == own or y == ("f", lp.item, "segments") for y in walk(l2.src))
                     and all(q.end == "stop" and any(c.name in ("push", "push_back") and any(y == l2.item for y in walk(a[1])) for c, a in q.calls() if len(a) == 2) for q in l2.iters())]
            R.ob("join:all", p.end == "stop" and (len(ext) == 1 or len(inner) == 1), "Strip::join leaves out segments of a line", b.where())
    if not n:
        ok = any("flat_map" in str(v) or "flatten" in str(v) for _, v, _ in f.ret_values())
        R.ob("join", ok, "Strip::join does not go over the lines", b.where())


def text(P, R):
    b = meth(P, STRIP, "text")
    R.floor("text", 1 if b else 0, 1, "Strip::text")
    if not b:
        return
    f = sflow(P, b)
    R.fn(b)
    n = 0
    for lp in loops(f):
        if not over_self(lp, f):
            continue
        for p in lp.iters():
            n += 1
            own = I(("mem", ("D", lp.item), ("text",)))
            xs = [a for c, a in p.calls() if c.name in ("vp_collect", "push_str", "push", "add_assign") and len(a) == 2 and txt(a[1]) == own]
            R.ob("text:all", p.end == "stop" and len(xs) == 1, "Strip::text leaves out the text of a segment", b.where())
    R.ob("text", n > 0, "Strip::text does not go over the segments", b.where())
