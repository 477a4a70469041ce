"""shared extraction for the stylesheet properties"""
from rules.common import *

DECL = "tcss::parser::stylesheet::Declaration"
A1 = ("D", ("arg", 1))
A2 = ("D", ("arg", 2))


def ty_tail(t):
    return t.replace("&mut ", "").replace("&", "").split("::")[-1].split("<")[0].rstrip(">").strip()


def is_resolver(b):
    """fn(&X, &Theme) -> X for X a colour or text style: the theme resolvers, whatever they are called"""
    if b.argc < 2:
        return False
    r = ty_tail(b.locals[0][0])
    if r not in ("RgbaColor", "TextStyle"):
        return False
    tys = [ty_tail(b.locals[i][0]) for i in range(1, b.argc + 1)]
    return r in tys and "Theme" in tys


def decl_inline(c, cb):
    if c.trait == "std::clone::Clone":
        return False
    return not is_resolver(cb)


def find_apply(P):
    """the function that applies one declaration to a computed style: (&mut ComputedStyle, &Declaration, ..)"""
    out = []
    for b in P.fns(crate="tcss"):
        if b.kind == "closure" or b.argc < 2:
            continue
        tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if tys[0].startswith("&mut ") and ty_tail(tys[0]) == "ComputedStyle" and any(ty_tail(t) == "Declaration" for t in tys[1:]):
            out.append(b)
    return out


def decl_variants(P):
    return [v[0] for v in P.adts[DECL]["variants"]] if isinstance(P.adts[DECL], dict) else [v[0] for v in P.adts[DECL]]


def str_keys(facts):
    """string constants some non-discriminant value is known to equal"""
    out = set()
    for x in facts:
        if x[0] == "is" and isinstance(x[2], str) and x[1][0] != "disc":
            out.add(x[2])
    return out


def block_keys(f, bb, depth=6):
    """string keys under which a block is reached (or-patterns merge before the arm)"""
    k = str_keys(f.infacts.get(bb, ()))
    if k or depth == 0:
        return k
    out = set()
    for p in f.b.preds()[bb]:
        ef = f.edgefacts.get((p, bb))
        if ef is None:
            continue
        k = str_keys(ef)
        out |= k if k else block_keys(f, p, depth - 1)
    return out


def ctor_variant(v):
    """Declaration variant built by a constructor function value"""
    if v[0] == "fnk" and "Declaration::" in v[1]:
        return v[1].split("Declaration::")[1].split("::")[0]
    return None
