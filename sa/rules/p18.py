"""P18  A cache never answers with something made for other inputs."""
from rules.common import *
from rules.raw import Raw, bare

IDENT = ("to_string", "to_owned", "into", "clone", "from", "as_str", "deref", "to_vec", "as_ref", "borrow", "to_bits", "as_deref", "copied", "cloned", "to_ne_bytes", "to_le_bytes", "to_be_bytes", "format")


def check(P, R):
    R.rule("keyed caches: everything the stored value is computed from is part of the key, unchanged in what distinguishes it, and it is looked up by the key it is stored under; "
           "memos in a widget: answered only when every parameter equals the one stored, stored with the parameters it was computed for, and dropped by every operation that changes what it was computed from or hands out a child to be changed")
    a = keyed(P, R)
    b = memos(P, R)
    R.floor("caches", a + b, 1, "caches")
    R.count("keyed caches", a)
    R.count("memos", b)


# ---------------------------------------------------------------- keyed caches
def static_map(v):
    return any(x and x[0] == "k" and isinstance(x[1], tuple) and x[1] and x[1][0] == "c" and re.search(r"(Hash|BTree)Map<", str(x[1][1])) for x in walk(v) if isinstance(x, tuple))


def keyed(P, R):
    n = 0
    for b in P.fns():
        if not any(c.name == "insert" and re.search(r"(Hash|BTree)Map", c.path or "") for c in b.calls()):
            continue
        if b.kind == "Closure":
            continue
        f = flow(P, b)
        for c, args, fs in f.calls():
            if c.name != "insert" or len(args) != 3 or not static_map(args[0]):
                continue
            n += 1
            R.fn(b)
            key, val = args[1], args[2]
            have = set()
            for v in [key]:
                inj(f, v, have)
            need = set()
            deps(f, val, need)
            nm = b.path.split("::")[-1]
            for i, path in sorted(need, key=str):
                miss = [p for p in leaves(P, b.locals[i][0], b.locals[i][2], path) if not any(j == i and p[:len(q)] == q for j, q in have)]
                R.ob("key:%s:%d:%s" % (nm, i, ".".join(path)), not miss,
                     "%s keeps a value computed from parameter %s under a key that leaves out %s" % (nm, b.locals[i][1] or i, ", ".join(".".join(m) or "it" for m in miss)), b.where())
            R.ob("key:uses:%s" % nm, bool(need), "", b.where())
            gets = [(g, ga) for g, ga, _ in f.calls() if g.name in ("get", "contains_key", "get_mut", "entry", "get_key_value") and len(ga) == 2 and static_map(ga[0])]
            for g, ga in gets:
                k = ga[1]
                if k[0] == "ref":
                    k = f.read(f.callstate[g.bb], k[1], k[2]) if g.bb in f.callstate else k
                elif k[0] in ("refv", "kref"):
                    k = k[1]
                R.ob("key:lookup:%s" % nm, k == key, "%s looks up another key than the one it stores under" % nm, b.where())
            for t in [x[1] for x in walk(key) if x and x[0] == "agg" and x[1] in P.adts]:
                eq_all(P, R, t)
    return n


def inj(f, v, out, depth=0):
    """parameter paths that can be read back from v"""
    if depth > 12:
        return
    if v[0] == "arg":
        out.add((v[1], ()))
    elif v[0] in ("mem", "ref") and len(v) == 3 and v[1][0] == "D" and v[1][1][0] == "arg":
        out.add((v[1][1][1], tuple(v[2])))
    elif v[0] in ("mem", "ref") and v[1][0] == "D" and v[1][1][0] in ("ref", "f"):
        inj(f, v[1][1], out, depth + 1)
    elif v[0] == "f":
        sub = set()
        inj(f, v[1], sub, depth + 1)
        out |= {(i, p + (v[2],)) for i, p in sub}
    elif v[0] == "agg":
        for _, x in v[3]:
            inj(f, x, out, depth + 1)
    elif v[0] in ("refv", "kref"):
        inj(f, v[1], out, depth + 1)
    elif v[0] == "phi":
        for x in f.expand_phi(v):
            if x[0] != "phi":
                inj(f, x, out, depth + 1)
    elif v[0] == "call" and v[1].split("::")[-1] in IDENT and v[2]:
        inj(f, v[2][0], out, depth + 1)
    elif v[0] == "upd":
        inj(f, v[1], out, depth + 1)


def deps(f, v, out):
    for x in walk(v):
        if not x or not isinstance(x, tuple):
            continue
        if x[0] == "arg" and len(x) == 2:
            out.add((x[1], ()))
        if x[0] == "phi":
            for y in f.expand_phi(x):
                if y[0] != "phi" and y is not v:
                    for z in walk(y):
                        if z and z[0] == "arg" and len(z) == 2:
                            out.add((z[1], ()))


def adt_named(P, ty, hint=None):
    if hint in P.adts:
        return P.adts[hint]
    t = re.sub(r"<.*", "", ty)
    if t in P.adts:
        return P.adts[t]
    c = [a for p, a in P.adts.items() if p.split("::")[-1] == t.split("::")[-1] and p.split("::")[0] == t.split("::")[0]]
    return c[0] if len(c) == 1 else None


def leaves(P, ty, hint, path, depth=0):
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    m = re.match(r"^std::option::Option<(.*)>$", ty)
    if m:
        return leaves(P, m.group(1), None, path + ("Some.0",), depth + 1)
    a = adt_named(P, ty, hint if not depth else None)
    if a is None or a["enum"] or len(a["variants"]) != 1 or depth > 4:
        return [path]
    out = []
    for fl in a["variants"][0][1]:
        out += leaves(P, fl[1], None, path + (fl[0],), depth + 1)
    return out or [path]


def eq_all(P, R, t):
    b = P.trait_impl_method("std::cmp::PartialEq", t, "eq")
    if b is None:
        return
    a = P.adts[t]
    if a["enum"]:
        return
    got = {1: set(), 2: set()}
    for bb in b.reach:
        for s in b.blocks[bb]["s"]:
            if s[0] == "=":
                for pl in places(s[2]):
                    for e in pl[1]:
                        if e != "*" and e[0] == "f":
                            got.setdefault(pl[0], set()).add(e[2])
                            break
    fields = {x[0] for x in a["variants"][0][1]}
    if got[1] or got[2]:
        R.ob("equal:%s" % t.split("::")[-1], fields <= got[1] and fields <= got[2], "two different %s compare equal: %s is not compared" % (t.split("::")[-1], ", ".join(sorted(fields - (got[1] & got[2])))), b.where())


def places(rv):
    out = []

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(x)
            else:
                for y in x:
                    w(y)
    w(rv)
    return out


# ---------------------------------------------------------------- memos
def memo_fields(P):
    for p, a in P.adts.items():
        if a["crate"] != "textual" or a["enum"]:
            continue
        for fl in a["variants"][0][1]:
            m = re.match(r"^std::cell::(?:RefCell|Cell)<std::option::Option<([\w:]+)>>$", fl[1])
            if m:
                x = adt_named(P, m.group(1))
                if x and not x["enum"] and len(x["variants"][0][1]) >= 2:
                    yield p, fl[0], x


def memo_root(v, fld):
    """path below the memo of a value read from it, or None"""
    if v[0] in ("ref", "mem") and v[1][0] == "D" and v[1][1][0] == "call" and v[1][1][1].split("::")[-1] in ("borrow", "borrow_mut"):
        a = v[1][1][2][0]
        if a == ("ref", ("D", ("arg", 1)), (fld,)):
            return v[2]
    return None


def self_field(v):
    if v[0] in ("ref", "mem") and v[1] == ("D", ("arg", 1)) and v[2]:
        return v[2][0]
    return None


def memos(P, R):
    n = 0
    for adt, fld, x in memo_fields(P):
        ms = [b for b in P.fns(crate="textual") if b.self_adt == adt and b.kind != "Closure"]
        answers = []
        for b in ms:
            f = flow(P, b, inline=None, key="n")
            hit = []
            for c, args, fs in f.calls():
                if c.name in ("clone", "to_vec", "to_owned") and args:
                    q = memo_root(args[0], fld)
                    if q and len(q) == 2 and q[0] == "Some.0":
                        hit.append((c, q[1], fs))
            if hit:
                answers.append((b, f, hit))
        for b, f, hit in answers:
            n += 1
            R.fn(b)
            nm = "%s::%s" % (short(adt), b.path.split("::")[-1])
            params = list(range(2, b.argc + 1))
            # (a) answered only for equal parameters
            cmpd = {}
            for c, rf, fs in hit:
                # facts in the block are those of the branch that leads to it
                for j in params:
                    ok = None
                    for ft in fs:
                        k = equal_fact(f, b, ft, fld, j)
                        if k:
                            ok = k
                    R.ob("memo:asked:%s:%d" % (nm, j), ok is not None, "%s answers from its memo without comparing parameter %s with the one it was computed for" % (nm, b.locals[j][1] or j), c.where())
                    if ok:
                        cmpd[j] = ok
                        t = b.locals[j][2]
                        if t in P.adts:
                            eq_all(P, R, t)
            rfield = hit[0][1]
            # (b) stored with its own parameters
            stored = False
            for (bb, i), (root, comps, val) in f.stmt_vals.items():
                if val is None:
                    continue
                aggs = [y for y in walk(val) if y and y[0] == "agg" and y[1] == x["path"]]
                for y in aggs:
                    d = dict(y[3])
                    stored = True
                    for j, k in cmpd.items():
                        R.ob("memo:stored:%s:%s" % (nm, k), d.get(k) == ("arg", j) or strip_val(d.get(k, ("?",))) == ("arg", j), "%s stores its result with another %s than it was computed for" % (nm, k), b.where())
                    r = strip_val(d.get(rfield, ("?",)))
                    R.ob("memo:result:%s" % nm, any(same_result(f, r, v) for _, v, _ in f.ret_values()), "%s stores something other than the result it returns" % nm, b.where())
            R.ob("memo:fills:%s" % nm, stored, "", b.where())
            # (c) dropped when an input changes
            reads = field_reads(P, b, adt) - {fld}
            R.floor("inputs", len(reads), 2, "fields a memo is computed from")
            for m in ms:
                invalidates(P, R, m, adt, fld, reads)
    return n


def same_result(f, r, v):
    for y in f.expand_phi(v):
        y = strip_val(y)
        if y == r:
            return True
        if r[0] in ("ref",) and r[1][0] == "L":
            for bb, st in f.outstate.items():
                if f.read(st, r[1], r[2]) == y:
                    return True
    return False


def equal_fact(f, b, ft, fld, j):
    """the memo's field a fact says equals parameter j"""
    if ft[0] not in ("is", "not"):
        return None
    val = ft[2][1] if isinstance(ft[2], tuple) else ft[2]
    if val not in (True, False, 0, 1):
        return None
    val = bool(val) == (ft[0] == "is")
    v = ft[1]
    if v[0] == "call" and v[1].split("::")[-1] in ("eq", "ne") and len(v[2]) >= 2:
        op, ops = v[1].split("::")[-1], v[2][:2]
    elif v[0] == "bin" and v[1] in ("Eq", "Ne"):
        op, ops = v[1].lower(), v[2:4]
    else:
        return None
    if (op == "eq") != val:
        return None
    ops = [o[1][1] if o[0] == "mem" and o[1][0] == "D" and o[2] == () and o[1][1][0] in ("mem", "arg") else o for o in ops]
    for p, q in ((ops[0], ops[1]), (ops[1], ops[0])):
        r = memo_root(p, fld)
        if r and len(r) == 2 and r[0] == "Some.0":
            if q in (("ref", ("L", j), ()), ("arg", j), ("refv", ("arg", j)), ("ref", ("D", ("arg", j)), ())):
                return r[1]
    return None


def field_reads(P, b, adt, seen=None):
    seen = seen if seen is not None else set()
    if b.id in seen:
        return set()
    seen.add(b.id)
    out = set()
    for bb in b.reach:
        blk = b.blocks[bb]
        for s in blk["s"]:
            if s[0] == "=":
                for pl in places(s[2]):
                    for e in pl[1]:
                        if e != "*" and e[0] == "f" and len(e) > 3 and e[3] == adt:
                            out.add(e[2])
    for c in b.calls():
        for a in c.args:
            if a[0] in "cm":
                for e in a[1][1]:
                    if e != "*" and e[0] == "f" and len(e) > 3 and e[3] == adt:
                        out.add(e[2])
        cb = P.bodies.get(c.callee_id)
        if cb is not None and cb.self_adt == adt:
            out |= field_reads(P, cb, adt, seen)
    for k in P.children.get(b.id, []):
        out |= field_reads(P, k, adt, seen)
    return out


def none_here(f, x, seen):
    """what is returned at x, coming through the blocks of seen, is None"""
    v = f.read(f.outstate[x], ("L", 0), ()) if x in f.outstate else None
    todo, done = [v], set()
    while todo:
        v = todo.pop()
        if v is None:
            return False
        if v in done:
            continue
        done.add(v)
        if v[0] == "phi":
            todo += [y for p, y in f.phi_in.get((v[1], v[2]), {}).items() if p in seen]
        elif not (v[0] == "agg" and v[2] == "None"):
            return False
    return True


def invalidates(P, R, m, adt, fld, reads):
    if m.argc < 1 or not re.match(r"^&('\w+ )?mut ", m.locals[1][0]):
        return
    nm = "%s::%s" % (short(adt), m.path.split("::")[-1])
    why = None
    # assigns an input
    for bb, i, pl, rv, ln in m.assigns():
        fs = [e for e in pl.p if e != "*" and e[0] == "f"]
        if pl.l == 1 and fs and fs[0][2] in reads:
            why = "assigns %s" % fs[0][2]
    r = Raw(P, m)
    for c in m.calls():
        for k, a in enumerate(c.args):
            if a[0] not in "cm":
                continue
            t = m.locals[a[1][0]][0]
            if not re.match(r"^&('\w+ )?mut ", t):
                continue
            p = bare(r.resolve(a, thru=("deref_mut",)))
            g = re.match(r"^\(\*_1\)\.(\w+)", p or "")
            if g and g.group(1) in reads and k == 0 and c.name not in ("iter_mut", "into_iter", "get_mut", "last_mut", "first_mut", "deref_mut", "index_mut", "as_mut", "deref", "as_mut_slice", "split_at_mut"):
                if re.match(r"^&('\w+ )?mut std::vec::Vec<", t):
                    why = "changes %s (%s)" % (g.group(1), c.name)
    hand = any(re.search(r"dyn .*Widget", m.locals[i][0]) and ("FnMut" in m.locals[i][0] or "FnOnce" in m.locals[i][0]) for i in range(2, m.argc + 1)) or \
        re.search(r"&('\w+ )?mut .*dyn .*Widget", m.locals[0][0])
    if hand:
        why = "hands out a child to be changed"
    if why is None:
        return
    R.fn(m)
    f = flow(P, m)
    # every way to return drops the memo (or hands nothing out)
    drop = set()
    for (bb, i), (root, comps, val) in f.stmt_vals.items():
        if root == ("D", ("arg", 1)) and comps[:1] == (fld,) and len(comps) == 1:
            drop.add(bb)
        if root[0] == "D" and val is not None:
            q = memo_root(("mem", root, comps), fld)
            if q == () and (val[0] == "agg" and val[2] == "None" or val == ("k", None)):
                drop.add(bb)
    for c, args, fs in f.calls():
        if args and c.name in ("take", "replace", "set"):
            if args[0] == ("ref", ("D", ("arg", 1)), (fld,)) or memo_root(args[0], fld) == ():
                drop.add(c.bb)
    ok = True
    nb = f.b
    seen, st, rets = {0}, [0], []
    while st:
        x = st.pop()
        if x in drop:
            continue
        if nb.term(x)[0] == "return":
            rets.append(x)
            continue
        for s in nb.succs(x):
            if s not in seen and s in f.instate:
                seen.add(s)
                st.append(s)
    ok = all(hand and none_here(f, x, seen - drop) for x in rets)
    R.ob("memo:dropped:%s" % nm, ok, "%s %s but can keep a layout computed before" % (nm, why), m.where())
