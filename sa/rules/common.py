import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from core import *
from ir import normalize
from flow import *

W = "textual::widget::Widget"


def default_inline(call, callee):
    """everything but large functions that are given nothing they could write to (layout, rendering helpers, clones)"""
    if callee.kind == "closure" or len(callee.blocks) <= 25 and call.trait != "std::clone::Clone":
        return True
    return any("&mut" in callee.locals[i][0] or " mut " in callee.locals[i][0] or "closure" in callee.locals[i][0] or callee.locals[i][0].startswith("impl ") for i in range(0, callee.argc + 1))


_cache = {}


def flow(P, body, inline=default_inline, key="full", max_blocks=3000, max_depth=6, arg_vals=None, self_adt=None):
    k = (id(P), body.id, key, self_adt if body.self_adt is None else None)
    if k not in _cache:
        if inline is None:
            nb = normalize(P, body, lambda c, b: False, closures=False, self_adt=self_adt)
        else:
            nb = normalize(P, body, inline, max_blocks=max_blocks, max_depth=max_depth, self_adt=self_adt)
        _cache[k] = Flow(nb, P, arg_vals=arg_vals)
    return _cache[k]


def widget_impls(P, boxed=False):
    """(impl dict, adt path) of every concrete Widget impl in the textual crate"""
    for i in P.impls_of(W):
        if i["crate"] != "textual":
            continue
        if i["adt"] in P.adts:
            yield i


def short(adt):
    return adt.split("::")[-1]


def effective(P, adt, name):
    """(body, is_override) of the method a concrete widget type answers `name` with"""
    b = P.trait_impl_method(W, adt, name)
    if b is not None:
        return b, True
    return P.trait_default(W, name), False


def strip_val(v):
    """drop clone/to_string/into/Some-like identity wrappers"""
    while True:
        if v[0] == "call" and v[1].split("::")[-1] in ("to_string", "to_owned", "into", "clone", "from", "as_str", "deref", "to_vec", "as_ref", "to_owned", "borrow") and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "refv" or v[0] == "kref":
            v = v[1]
        else:
            return v


def unsome(v):
    """Some(x.unwrap()) is x"""
    if v[0] == "agg" and v[2] == "Some" and len(v[3]) == 1:
        x = strip_val(v[3][0][1])
        if x[0] == "f" and x[2] == "Some.0":
            return x[1]
        if x[0] == "mem" and x[2] and x[2][-1] == "Some.0":
            return I(("mem", x[1], x[2][:-1]))
    return v


def self_fields(v):
    """access paths below *self mentioned in a value"""
    out = set()
    for x in walk(v):
        if x and x[0] in ("mem", "ref") and len(x) == 3 and x[1] == ("D", ("arg", 1)):
            out.add(tuple(c for c in x[2]))
    return out
