"""P17  Keywords, units and symbols of the stylesheet language mean what they say; several values are taken in the order written."""
import re
from rules.css import *

SAME = {
    "BorderKind": "ascii blank block dashed double heavy hkey inner outer panel round solid tall thick vkey wide none hidden=None",
    "TextAlign": "left center right justify start end",
    "TextOverflow": "clip fold ellipsis",
    "TextWrap": "wrap nowrap=NoWrap",
    "ScrollbarGutter": "auto stable",
    "ScrollbarVisibility": "visible hidden",
    "Overflow": "hidden auto scroll",
    "BoxSizing": "content-box=ContentBox border-box=BorderBox",
    "Display": "block none",
    "Visibility": "visible hidden",
    "Position": "relative absolute",
    "AlignHorizontal": "left center right",
    "AlignVertical": "top middle bottom",
    "Dock": "top right bottom left",
    "HatchPattern": "left right cross horizontal vertical",
    "KeylineStyle": "none thin heavy double",
    "Layout": "vertical horizontal grid",
    "Unit": "vw=ViewWidth vh=ViewHeight fr=Fraction %=Percent w=Width h=Height",
    "Selector": "#=Id .=Class :=PseudoClass &=Parent *=Universal",
    "Combinator": ">=Child +=AdjacentSibling ~=GeneralSibling",
}
CASELESS = {"BorderKind", "TextAlign", "TextOverflow", "TextWrap", "ScrollbarGutter", "ScrollbarVisibility", "Overflow", "BoxSizing", "Display",
            "Visibility", "Position", "AlignHorizontal", "AlignVertical", "Dock", "HatchPattern", "KeylineStyle"}
STYLES = "bold dim italic underline underline2 blink blink2 reverse strike overline".split()
# consumption depth of each slot, per accepted number of values
ORDER = {
    "Spacing": (("top", "right", "bottom", "left"), {(0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 2, 3), (0, 1, 2, 1)}, {(0, 0, 0, 0), (0, 1, 0, 1), (0, 1, 2, 3)}),
    "ScrollbarSize": (("horizontal", "vertical"), {(0, 0), (0, 1)}, {(0, 0), (0, 1)}),
}


def spec():
    out = {}
    for t, s in SAME.items():
        d = {}
        for w in s.split():
            k, _, v = w.partition("=") if not w.startswith("=") else (w, "", "")
            d[k] = v or k.capitalize()
        out[t] = d
    return out


def keyed(v, k):
    return v[0] == "call" and v[1].split("::")[-1] in ("eq_ignore_ascii_case",) and any(strip_val(x) == ("k", k) for x in v[2])


def keys_at(f, bb):
    """{(keyword, the value it was compared with)} under which a block is reached"""
    def local(fs):
        out = set()
        for x in fs:
            if x[0] == "is" and isinstance(x[2], str) and x[1][0] != "disc":
                out.add((x[2], x[1]))
            if x[0] == "is" and x[2] is True and x[1][0] == "call" and x[1][1].split("::")[-1] == "eq_ignore_ascii_case":
                for y in x[1][2]:
                    y = strip_val(y)
                    if y[0] == "k" and isinstance(y[1], str):
                        out.add((y[1], x[1]))
            if x[0] == "is" and x[2] in ("Ok", "Some", "Continue") and x[1][0] == "disc":
                k = sym_of(f, x[1][1])
                if k:
                    out.add((k, x[1]))
        return out

    def go(b, depth, seen):
        k = local(f.infacts.get(b, ()))
        if k or depth == 0:
            return k
        out = set()
        for p in f.b.preds()[b]:
            ef = f.edgefacts.get((p, b))
            if ef is None or p in seen:
                continue
            k = local(ef)
            out |= k if k else go(p, depth - 1, seen | {b})
        return out
    return go(bb, 6, frozenset())


def sym_of(f, v):
    """keyword a parser call such as tag("x")(input) / char('x')(input) / strip_prefix("x") tests"""
    if v[0] != "call":
        return None
    n = v[1].split("::")[-1]
    if n == "branch" and v[2]:
        return sym_of(f, v[2][0])
    if n in ("call", "call_mut", "call_once", "parse") or n.startswith("{closure") and v[2]:
        return lead_sym(deep(f, v[2][0]))
    if n in ("strip_prefix",) and len(v[2]) == 2:
        y = strip_val(v[2][1])
        return y[1] if y[0] == "k" and isinstance(y[1], str) else None
    return None


def deep(f, v):
    """the value a reference to a local temporary refers to"""
    if v[0] == "ref" and v[1][0] == "L" and not v[2]:
        for (bb, i), (r, cs, x) in f.stmt_vals.items():
            if r == v[1] and not cs:
                return x
        for c, a, fs in f.calls():
            if c.t[3] is not None and c.t[3][0] == v[1][1] and not c.t[3][1]:
                return ("call", c.path, tuple(a), None)
    return v


def lead_sym(v):
    """symbol a nom parser value requires first"""
    v = strip_val(v)
    if v[0] != "call":
        return None
    n = v[1].split("::")[-1]
    if n in ("tag", "char", "tag_no_case") and v[2]:
        y = strip_val(v[2][0])
        return y[1] if y[0] == "k" and isinstance(y[1], str) else None
    if n in ("preceded", "pair", "terminated", "delimited", "recognize", "tuple") and v[2]:
        return lead_sym(v[2][0])
    if v[0] == "agg" and v[1] == "tuple" and v[3]:
        return lead_sym(v[3][0][1])
    return None


def closure_body(P, x):
    if x[0] == "agg" and "closure" in x[1]:
        return P.bodies.get(x[1].split(":", 1)[1])
    return None


def ret_variants(P, b):
    f = Flow(normalize(P, b, lambda c, cb: False, closures=False), P)
    out = set()
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            if x[0] == "agg" and x[2]:
                out.add((x[1].split("::")[-1], x[2]))
    return out


def enum_aggs(v, types):
    for x in walk(v):
        if x and x[0] == "agg" and len(x) == 4 and x[2]:
            t = x[1].split("::")[-1]
            if t in types:
                yield t, x[2]


def check(P, R):
    R.rule("every keyword, unit suffix, selector symbol and combinator builds its own meaning and no other; keyword comparison ignores case; "
           "in alternatives no symbol hides a longer one listed after it; a number without unit means cells and 'auto' means automatic; "
           "the values of a shorthand are taken in the order written")
    S = spec()
    got = {t: {} for t in S}
    cmpv = {}
    tstyle, tcmp = {}, []
    n = 0
    flows = []
    for b in P.fns(crate="tcss"):
        if b.kind == "closure" or (b.path or "").startswith("<") or "::tests" in (b.path or ""):
            continue
        f = flow(P, b, inline=None, key="p17")
        flows.append((b, f))
        for (bb, i), (r, cs, v) in f.stmt_vals.items():
            ts = set(enum_aggs(v, S)) if v[0] == "agg" else set()
            if ts and v[1].split("::")[-1] in S:
                for k, on in keys_at(f, bb):
                    for t, var in ts:
                        got[t].setdefault(k, set()).add(var)
                        cmpv.setdefault((t, k), []).append((on, b))
                        R.fn(b)
            if v[0] == "agg" and v[1] == "tuple":
                table_row(v, S, got)
            if cs and cs[-1] in STYLES and v == ("k", True):
                for k, on in keys_at(f, bb):
                    tstyle.setdefault(k, set()).add(cs[-1])
                    tcmp.append((k, on, b))
                    R.fn(b)
        for c, a, fs in f.calls():
            for x in a:
                if x[0] in ("agg", "ref", "refv", "kref"):
                    for y in walk(x):
                        if y and y[0] == "agg" and len(y) == 4 and y[1] == "tuple":
                            table_row(y, S, got)
            if c.name in ("map", "value") and len(a) == 2:
                x, y = (a[0], a[1]) if c.name == "map" else (a[1], a[0])
                k = lead_sym(x)
                vs = set()
                cb = closure_body(P, y)
                if cb is not None:
                    vs = ret_variants(P, cb)
                elif y[0] == "fnk":
                    m = re.search(r"(\w+)::(\w+)(::\{constructor.*)?$", y[1])
                    if m:
                        vs = {(m.group(1), m.group(2))}
                elif y[0] == "agg":
                    vs = set(enum_aggs(y, S))
                for t, var in vs:
                    if t in S:
                        R.fn(b)
                        if k is None:
                            if t == "Selector":
                                got[t].setdefault("", set()).add(var)
                        else:
                            got[t].setdefault(k, set()).add(var)
            if c.name == "alt" and a:
                alt_order(R, f, b, a[0])
    for t, d in S.items():
        for k, var in sorted(d.items()):
            g = got[t].get(k, set())
            n += 1
            R.ob("%s:%s" % (t, k), g == {var}, "'%s' means %s::%s instead of %s::%s" % (k, t, "/".join(sorted(g)) or "(nothing)", t, var))
            if t in CASELESS:
                for on, b in cmpv.get((t, k), []):
                    R.ob("%s:%s:case" % (t, k), caseless(on), "'%s' is compared with %s, without ignoring case" % (k, show(on)[:120]), b.where())
    R.ob("Selector:bare", got["Selector"].get("", set()) == {"Type"}, "a bare name is parsed as %s" % sorted(got["Selector"].get("", set())))
    for k in STYLES:
        n += 1
        R.ob("text-style:" + k, tstyle.get(k) == {k}, "the text style '%s' sets %s" % (k, sorted(tstyle.get(k, ()))))
    for k, on, b in tcmp:
        R.ob("text-style:%s:case" % k, caseless(on), "'%s' is compared without ignoring case" % k, b.where())
    R.floor("keywords", n, 85, "keywords checked")
    R.floor("compared", len(cmpv), 60, "keyword comparisons found")
    scalar(P, R, flows)
    orders(P, R, flows)


def caseless(on):
    return any(x and x[0] == "call" and x[1].split("::")[-1] in ("to_lowercase", "to_ascii_lowercase", "eq_ignore_ascii_case") for x in walk(on))


def table_row(v, S, got):
    ks = [strip_val(x)[1] for _, x in v[3] if strip_val(x)[0] == "k" and isinstance(strip_val(x)[1], str)]
    vs = [(t, var) for _, x in v[3] if x[0] == "agg" for t, var in [(x[1].split("::")[-1], x[2])] if t in S]
    if len(ks) == 1 and len(vs) == 1:
        got[vs[0][0]].setdefault(ks[0], set()).add(vs[0][1])


def alt_order(R, f, b, v):
    syms = []
    if v[0] == "agg":
        for _, x in v[3]:
            x = strip_val(x)
            k = None
            if x[0] == "call" and x[2]:
                k = lead_sym(x[2][0]) if x[1].split("::")[-1] in ("map",) else lead_sym(x)
                inner = x[2][0] if x[1].split("::")[-1] == "map" else x
                whole = strip_val(inner)[0] == "call" and strip_val(inner)[1].split("::")[-1] in ("tag", "char", "tag_no_case")
                if k:
                    for k0, w0 in syms:
                        if w0:
                            R.ob("alt:%s:%s" % (b.short() if callable(b.short) else b.path.split("::")[-1], k), not k.startswith(k0) or k == k0,
                                 "'%s' can never be recognised: '%s' is tried first" % (k, k0), b.where())
                    syms.append((k, whole))


def ok_values(f):
    """values v of returned Ok((rest, v)), with facts"""
    for bb, v, fs in f.ret_values():
        for (x,), lf in joint_leaves(f, [v], fs):
            if x[0] == "agg" and x[2] == "Ok":
                t = x[3][0][1]
                yield proj(t, "1"), lf


def chain(v):
    """parser calls consumed before the value v was parsed, innermost last: list of calls"""
    out = []
    for x in walk(v):
        pass
    return out


def depth(v):
    """how many values were consumed before v was: nesting of parser results in the input of the call that produced v"""
    v = strip_val(v)
    src = None
    x = v
    while True:
        if x[0] == "f":
            x = x[1]
        elif x[0] == "call" and (x[1].split("::")[-1] in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "branch", "copied", "cloned") or "opt_" in x[1]) and x[2]:
            x = x[2][0]
        elif x[0] in ("refv", "kref"):
            x = x[1]
        elif x[0] == "call":
            src = x
            break
        elif x[0] == "icall":
            src = x
            break
        else:
            return None
    return consumed(src)


SKIP = ("multispace0", "multispace1", "space0", "space1", "trim_start", "trim", "trim_end", "char", "tag")


def consumed(call):
    """number of value-yielding parser calls whose remaining input feeds this call"""
    best = 0
    args = call[2] if call[0] == "call" else call[2:]
    st = [y for y in args if isinstance(y, tuple)]
    seen = set()
    while st:
        y = st.pop()
        if not isinstance(y, tuple) or not y or y in seen:
            continue
        seen.add(y)
        # remaining input of another parser call: f(f(call, Ok.0), "0")
        if y[0] == "f" and y[2] == "0":
            z = y[1]
            while z[0] == "f" or z[0] == "call" and z[1].split("::")[-1] in ("branch",):
                z = z[1] if z[0] == "f" else z[2][0]
            if z[0] in ("call", "icall"):
                name = parser_name(z)
                best = max(best, consumed(z) + (0 if name in SKIP else 1))
                continue
        st.extend(w for w in y if isinstance(w, tuple))
    return best


def parser_name(z):
    """name of the parser a call runs; for call_mut(parser value) that of the value"""
    n = z[1].split("::")[-1] if z[0] == "call" and isinstance(z[1], str) else "?"
    if n.startswith("{closure"):
        return z[1].split("::")[-2]
    if n in ("call", "call_mut", "call_once", "parse") and z[0] == "call" and z[2]:
        g = strip_val(z[2][0])
        while g[0] in ("ref",):
            return "?"
        if g[0] == "call":
            return g[1].split("::")[-1]
    return n


def orders(P, R, flows):
    n = 0
    for b, f in flows:
        rt = b.locals[0][0]
        if "IResult" not in rt and "Result<(&" not in rt and "Result" not in rt:
            continue
        m = re.search(r"\(&[^,]*str, (.*?)\), ", rt)
        if not m:
            continue
        t = m.group(1)
        name = t.split("::")[-1]
        if name in ORDER:
            slots, allowed, need = ORDER[name]
        elif t.startswith("("):
            parts = split_tuple(t)
            if len(parts) != 2:
                continue
            slots, allowed, need = ("0", "1"), {(0, 0), (0, 1)}, {(0, 1)}
        else:
            continue
        g = Flow(normalize(P, b, lambda c, cb: cb.locals[0][0].split("::")[-1] in ORDER and "Result" not in cb.locals[0][0]), P)
        seen = set()
        bad = None
        for v, lf in ok_values(g):
            ds = []
            for s in slots:
                x = proj(v, s)
                if x[0] == "agg" and x[1].endswith("Option") and x[2] == "Some":
                    x = x[3][0][1]
                ds.append(depth(x))
            if None in ds:
                bad = bad or "%s" % show(v)[:200]
                continue
            seen.add(tuple(ds))
            # a value that was read is used
            read = {depth(x[1][1]) for x in lf if x[0] == "is" and x[2] == "Some" and x[1][0] == "disc"} - {None}
            lost = {d for d in read if d not in ds}
            if lost and not (len(slots) == 4 and lost == {2} and 3 not in read):
                bad = bad or "%s although value number %d was given" % (tuple(ds), max(lost) + 1)
        if not seen and bad is None:
            continue
        n += 1
        R.fn(b)
        key = b.path.split("::")[-1]
        R.ob("order:" + key, bad is None and seen <= allowed, "the values parsed in order are stored in %s as %s" % (slots, bad or sorted(seen)), b.where())
        R.ob("forms:" + key, need <= seen or bad is not None, "%s no longer accepts the forms %s" % (key, sorted(need - seen)), b.where())
    R.floor("orders", n, 6, "parsers of several values")


def split_tuple(t):
    t = t[1:].rstrip(")")
    out, d, cur = [], 0, ""
    for ch in t:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x for x in out + [cur] if x.strip()]


def scalar(P, R, flows):
    n = 0
    for b, f in flows:
        rt = b.locals[0][0]
        m = re.search(r"\(&[^,]*str, ([\w:]*Scalar)\), ", rt)
        if not m:
            continue
        g = Flow(normalize(P, b, lambda c, cb: False), P)
        kinds = set()
        for v, lf in ok_values(g):
            n += 1
            u = proj(v, "unit")
            if u[0] == "agg" and u[2] == "Auto" or v[0] == "k" and "AUTO" in str(v):
                kinds.add("auto")
            elif u[0] == "agg":
                kinds.add("default:" + u[2])
            elif u[0] == "f":
                kinds.add("suffix")
            else:
                kinds.add("other:" + show(u)[:80])
        R.fn(b)
        R.ob("scalar:forms", kinds == {"auto", "default:Cells", "suffix"}, "a length is parsed as %s" % sorted(kinds), b.where())
    R.floor("scalar", n, 3, "forms of a length")
