"""P13  A declaration sets exactly the style slot its property names."""
from rules.css import *

# property -> [(style path, kind, payload index)]; the stylesheet language's own vocabulary
E = ("top", "right", "bottom", "left")


def spec():
    S = {}
    for n in ("width", "height", "min-width", "max-width", "min-height", "max-height", "offset-x", "offset-y", "dock", "layers", "layer"):
        S[n] = [((n.replace("-", "_"),), "some", 0)]
    for n in ("color", "background", "tint", "background-tint", "border-title-color", "border-subtitle-color",
              "border-title-background", "border-subtitle-background"):
        S[n] = [((n.replace("-", "_"),), "color", 0)]
    S["color"].append((("auto_color",), "any", 0))
    for n in ("margin", "padding", "box-sizing", "display", "opacity", "overflow-x", "overflow-y", "layout", "position", "text-align",
              "text-overflow", "text-wrap", "line-pad", "text-opacity", "content-align-horizontal", "content-align-vertical",
              "align-horizontal", "align-vertical", "border-title-align", "border-subtitle-align"):
        S[n] = [((n.replace("-", "_"),), "val", 0)]
    S["visibility"] = [(("visibility",), "val", 0), (("visibility_set",), "true", 0)]
    for m in ("margin", "padding"):
        for e in E:
            S["%s-%s" % (m, e)] = [((m, e), "val", 0)]
    for m in ("border", "outline"):
        S[m] = [((m, e), "edge", 0) for e in E]
        for e in E:
            S["%s-%s" % (m, e)] = [((m, e), "edge", 0)]
    for n in ("color", "color-hover", "color-active", "background", "background-hover", "background-active", "corner-color"):
        S["scrollbar-" + n] = [(("scrollbar", n.replace("-", "_")), "color", 0)]
    for n in ("size", "gutter", "visibility"):
        S["scrollbar-" + n] = [(("scrollbar", n), "val", 0)]
    for n in ("horizontal", "vertical"):
        S["scrollbar-size-" + n] = [(("scrollbar", "size", n), "val", 0)]
    for n in ("color", "color-hover", "background", "background-hover"):
        S["link-" + n] = [(("link", n.replace("-", "_")), "color", 0)]
    for n in ("style", "style-hover"):
        S["link-" + n] = [(("link", n.replace("-", "_")), "tstyle", 0)]
    S["overflow"] = [(("overflow_x",), "val", 0), (("overflow_y",), "val", 1)]
    S["content-align"] = [(("content_align_horizontal",), "val", 0), (("content_align_vertical",), "val", 1)]
    S["align"] = [(("align_horizontal",), "val", 0), (("align_vertical",), "val", 1)]
    S["offset"] = [(("offset_x",), "some", 0), (("offset_y",), "some", 1)]
    S["grid-size"] = [(("grid", "columns"), "some", 0), (("grid", "rows"), "val", 1)]
    S["grid-columns"] = [(("grid", "column_widths"), "val", 0)]
    S["grid-rows"] = [(("grid", "row_heights"), "val", 0)]
    S["grid-gutter"] = [(("grid", "gutter"), "gutter", 0)]
    S["column-span"] = [(("grid_placement", "column_span"), "val", 0)]
    S["row-span"] = [(("grid_placement", "row_span"), "val", 0)]
    S["hatch"] = [(("hatch",), "hatch", 0)]
    S["keyline"] = [(("keyline",), "keyline", 0)]
    for n in ("text-style", "border-title-style", "border-subtitle-style"):
        S[n] = [((n.replace("-", "_"),), "tmerge", 0)]
    return S


def parser_table(P, R=None):
    """property name -> {(variant, payload order ok?)} from every function of the parser that builds declarations"""
    table, unkeyed = {}, {}
    bodies = []
    for b in P.fns(crate="tcss"):
        if b.kind == "closure" or (b.path or "").startswith("<"):
            continue
        txt = str(b.raw) if False else None
        if mentions_decl(P, b):
            bodies.append(b)
    done = set()
    work = list(bodies)
    callers = {}
    flows = {}
    for b in bodies:
        f = Flow(normalize(P, b, lambda c, cb: False, closures=False), P)
        flows[b.id] = f
        if R:
            R.fn(b)
        for c, a, fs in f.calls():
            keys = block_keys(f, c.bb)
            for x in a:
                for v, order in built_by(P, x):
                    note(table, unkeyed, b, keys, v, order)
        for (bb, i), (r, cs, v) in f.stmt_vals.items():
            if v[0] == "agg" and v[1] == "Declaration" or v[0] == "agg" and v[1].endswith("::Declaration"):
                note(table, unkeyed, b, block_keys(f, bb), v[2], agg_order(v))
    # helpers that build a declaration without looking at the name: attribute to the keys of their use sites
    for b in bodies:
        f = flows[b.id]
        for c, a, fs in f.calls():
            names = {c.callee_id} | {x[1] for x in a if x[0] == "fnk"}
            for hb in bodies:
                if hb.id in unkeyed and (hb.id in names or hb.path in names):
                    for v, order in unkeyed[hb.id]:
                        for k in block_keys(f, c.bb):
                            table.setdefault(k, set()).add((v, order))
    return table


def note(table, unkeyed, b, keys, v, order):
    if v == "Unknown":
        return
    if keys:
        for k in keys:
            table.setdefault(k, set()).add((v, order))
    else:
        unkeyed.setdefault(b.id, set()).add((v, order))


def agg_order(v):
    """payload positions: for two payloads taken from one source, the component indices must be in order"""
    comps = []
    for fname, x in v[3]:
        x = strip_val(x)
        while x[0] in ("f", "mem") and False:
            pass
        c = None
        if x[0] == "f":
            c = x[2]
        elif x[0] == "mem" and x[2]:
            c = x[2][-1]
        comps.append(c)
    if len(comps) < 2:
        return True
    ds = [c for c in comps if isinstance(c, str) and c.isdigit() or isinstance(c, int)]
    if len(ds) == len(comps):
        return [int(c) for c in ds] == list(range(len(ds)))
    return True


def built_by(P, x):
    v = ctor_variant(x)
    if v:
        return [(v, True)]
    out = []
    if x[0] == "agg" and "closure" in x[1] or x[0] == "fnk" and "closure" in x[1]:
        cid = x[1].split(":", 1)[1] if x[1].startswith("closure:") else x[1]
        cb = P.bodies.get(cid) or next((b for b in P.bodies.values() if b.path == cid), None)
        if cb is not None:
            f = Flow(normalize(P, cb, lambda c, b: False, closures=False), P)
            for (bb, i), (r, cs, v) in f.stmt_vals.items():
                if v[0] == "agg" and v[1].split("::")[-1] == "Declaration":
                    out.append((v[2], agg_order(v)))
            for c, a, fs in f.calls():
                for y in a:
                    if ctor_variant(y):
                        out.append((ctor_variant(y), True))
    return out


def mentions_decl(P, b):
    if "Declaration" not in b.locals[0][0]:
        return False
    s = b.locals[0][0]
    return "Result" in s or s.split("::")[-1].startswith("Declaration") or "Option" in s or "fn" in s


def payload(V, i, *rest):
    return I(("mem", A2, ("%s.%d" % (V, i),) + rest))


def ispay(v, V, i, *rest):
    return I(strip_val(v)) is payload(V, i, *rest)


def resolved(P, v, V, i, *rest):
    """v is resolver(&payload.., theme)"""
    v = strip_val(v)
    if v[0] != "call":
        return False
    bodies = [b for b in P.bodies.values() if b.path == v[1]]
    if not any(is_resolver(b) for b in bodies):
        return False
    want = I(("ref", A2, ("%s.%d" % (V, i),) + rest))
    pay = payload(V, i, *rest)
    return any(I(x) is want or I(strip_val(x)) is pay for x in v[2]) and any(x == ("arg", 3) for x in v[2])


def some(v):
    return v[3][0][1] if v[0] == "agg" and v[1].endswith("Option") and v[2] == "Some" else None


def isnone(v):
    return v[0] == "agg" and v[1].endswith("Option") and v[2] == "None" or v == ("k", None)


def read_leaves(f, st, fs, paths):
    vals = [f.read(st, I(A1), I(p)) for p in paths]
    return joint_leaves(f, vals, fs)


def edge_ok(P, V, i, kind, color, facts):
    if not ispay(kind, V, i, "kind"):
        return False
    d = I(("disc", payload(V, i, "color")))
    if I(("is", d, "None")) in facts or I(("not", d, "Some")) in facts:
        return isnone(color) or ispay(color, V, i, "color")
    s = some(color)
    return s is not None and resolved(P, s, V, i, "color", "Some.0")


def slot_ok(P, f, st, fs, V, path, kind, idx, raw=False):
    """why the slot does not receive the declared value, or None"""
    if kind == "any":
        return None
    if kind in ("val", "some", "true", "color", "tstyle"):
        for (v,), lf in read_leaves(f, st, fs, [path]):
            if kind == "val":
                ok = ispay(v, V, idx)
            elif kind == "true":
                ok = v == ("k", True)
            elif kind == "some":
                s = some(v)
                ok = s is not None and ispay(s, V, idx) or ispay(v, V, idx)
            elif kind == "color":
                s = some(v)
                ok = s is not None and (resolved(P, s, V, idx) or raw and ispay(s, V, idx))
            else:
                ok = resolved(P, v, V, idx) or raw and ispay(v, V, idx)
            if not ok:
                return show(v)
        return None
    if kind == "edge":
        for (k, c), lf in read_leaves(f, st, fs, [path + ("kind",), path + ("color",)]):
            if not edge_ok(P, V, idx, k, c, lf) and not (raw and ispay(k, V, idx, "kind")):
                return "kind %s color %s" % (show(k), show(c))
        return None
    if kind == "gutter":
        for (a, b), lf in read_leaves(f, st, fs, [path + ("0",), path + ("1",)]):
            d = I(("disc", payload(V, 1)))
            none = I(("is", d, "None")) in lf
            okb = ispay(b, V, 0) if none else (ispay(b, V, 1, "Some.0") or I(strip_val(b)) is I(("f", payload(V, 1), "Some.0")))
            if not (ispay(a, V, 0) and okb):
                return "(%s, %s)" % (show(a), show(b))
        return None
    if kind in ("hatch", "keyline"):
        pre = ()
        cp = path + (("Some.0",) if kind == "hatch" else ()) + ("color",)
        for (v,), lf in read_leaves(f, st, fs, [path]):
            x = some(v) if kind == "hatch" else v
            if x is None:
                return show(v)
            col = proj(x, "color")
            if not (resolved(P, col, V, idx, "color") or raw and ispay(col, V, idx, "color")):
                return show(v)
            base = x[1] if x[0] == "upd" else None
            names = ("pattern", "opacity") if kind == "hatch" else ("style",)
            for n in fields_of(P, "Hatch" if kind == "hatch" else "Keyline"):
                if n != "color" and not ispay(proj(x, n), V, idx, n):
                    return show(v)
        return None
    if kind == "tmerge":
        flags = [n for n in fields_of(P, "TextStyle") if n != "theme_var"]
        for fl in flags:
            for (v,), lf in read_leaves(f, st, fs, [path + (fl,)]):
                okv = flag_merge_ok(P, f, v, lf, V, idx, path, fl, raw)
                if not okv:
                    return "%s: %s under %s" % (fl, show(v), show_facts(lf))
        return None
    return "unknown kind"


def flag_merge_ok(P, f, v, lf, V, idx, path, fl, raw):
    """flag' = entry flag or declared flag"""
    def is_decl(x):
        x = strip_val(x)
        if x[0] == "f" and x[2] == fl and (resolved(P, x[1], V, idx) or raw and ispay(x[1], V, idx)):
            return True
        return raw and ispay(x, V, idx, fl)
    entry = I(("mem", A1, path + (fl,)))

    def known(pred):
        for x in lf:
            if x[0] == "is" and isinstance(x[2], bool) and pred(x[1]):
                return x[2]
        return None
    d = known(is_decl)
    e = known(lambda x: I(x) is entry)
    if v == ("k", True):
        return d is True or e is True
    if v == ("k", False):
        return d is False and e is False
    if I(v) is entry:
        return d is False or e is True
    if is_decl(v):
        return e is False or d is True
    if v[0] == "bin" and v[1] in ("BitOr", "Or"):
        return {I(v[2]) is entry, is_decl(v[2])} == {True, False} and {I(v[3]) is entry, is_decl(v[3])} == {True, False} and (I(v[2]) is entry) != (I(v[3]) is entry)
    return False


def fields_of(P, name):
    for p, a in P.adts.items():
        if p.startswith("tcss::") and p.split("::")[-1] == name:
            return [x[0] for x in a["variants"][0][1]]
    return []


def variant_flows(P, ap):
    nb = normalize(P, ap, decl_inline, max_blocks=3000, max_depth=6)
    out = {}
    for v in decl_variants(P):
        out[v] = Flow(nb, P, assume=[I(("is", ("disc", ("mem", A2, ())), v))])
    return out


def writes(f):
    out = set()
    for bb in f.b.rpo():
        if f.b.term(bb)[0] == "return" and bb in f.outstate:
            for k, x in f.outstate[bb].get(I(A1), {}).items():
                if x != ("mem", A1, k):
                    out.add(k)
    return out


def rets(f):
    for bb in f.b.rpo():
        if f.b.term(bb)[0] == "return" and bb in f.outstate:
            yield bb, f.outstate[bb], f.infacts[bb]


def check(P, R):
    R.rule("the property name the parser matched selects a declaration kind, and applying that kind writes exactly the slot(s) of the "
           "computed style the name stands for, with the declared value (colours and text styles through theme resolution), in payload "
           "order, and no other slot; composition checked name by name against the stylesheet vocabulary")
    S = spec()
    tab = parser_table(P, R)
    aps = find_apply(P)
    R.floor("apply", len(aps), 1, "function applying one declaration to a style")
    R.floor("names", len(set(tab) & set(S)), 70, "property names recognised by the declaration parser")
    if not aps:
        return
    ap = aps[0]
    for b in aps:
        if len(b.blocks) > len(ap.blocks):
            ap = b
    R.fn(ap)
    vf = variant_flows(P, ap)
    R.count("variants", len(vf))
    for name, slots in sorted(S.items()):
        vs = tab.get(name, set())
        if not R.ob("%s:parsed" % name, len(vs) > 0, "the property '%s' is not recognised by the declaration parser" % name):
            continue
        for V, order in sorted(vs):
            R.ob("%s:order" % name, order, "the values of '%s' are stored in swapped order" % name)
            f = vf.get(V)
            if f is None:
                R.ob("%s:variant" % name, False, "no declaration kind %s" % V)
                continue
            allowed = [s[0] for s in slots]
            extra = [w for w in writes(f) if not any(w[:len(a)] == a or a[:len(w)] == w for a in allowed)]
            R.ob("%s:only" % name, not extra, "'%s' also changes %s" % (name, sorted(".".join(map(str, w)) for w in extra)), ap.where())
            n = 0
            for bb, st, fs in rets(f):
                for path, kind, idx in slots:
                    n += 1
                    why = slot_ok(P, f, st, fs, V, path, kind, idx, raw=True)
                    R.ob("%s:%s" % (name, ".".join(path)), why is None, "'%s' leaves %s = %s" % (name, ".".join(path), why), ap.where())
            R.ob("%s:applied" % name, n > 0, "'%s' is never applied" % name)
            R.count("slots", n)
