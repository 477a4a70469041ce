"""P16  The same input gives the same result: nothing depends on hash order or on the clock."""
from rules.raw import *

HIT = re.compile(r"hash(::|_)(map::|set::)(Iter|IterMut|Keys|Values|ValuesMut|IntoIter|IntoKeys|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)\b")
HC = re.compile(r"^(&'?\w* ?(mut )?|&(mut )?)*(std::collections::|hashbrown::)?(hash::map::|hash::set::|hash_map::|hash_set::)?Hash(Map|Set)<")
KEYED = re.compile(r"^(&'?\w* ?(mut )?|&(mut )?)*(std::collections::|std::collections::hash_map::|std::collections::hash_set::|std::collections::btree_map::|hashbrown::)?(Hash(Map|Set)|BTree(Map|Set)|BinaryHeap)<")
SAFE = ("count", "any", "all", "sum", "product", "max", "min", "len", "size_hint", "is_empty", "is_subset", "is_superset", "is_disjoint", "eq", "ne", "drop", "drop_in_place")
ADAPT = ("into_iter", "iter", "map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "chain", "inspect", "by_ref", "fuse", "deref", "deref_mut", "clone")
ENTRY = re.compile(r"(hash|btree)(::|_)map::(\w+::)?(Entry|OccupiedEntry|VacantEntry)")
SHARED = ("send", "post_message", "borrow_mut", "lock", "replace", "swap", "store", "fetch_add", "_print", "_eprint")
CLOCK = re.compile(r"(Instant|SystemTime|Utc|Local)::now$|::thread::current$|^rand::|::random$|RandomState::new$|std::process::id$|std::env::(var|vars|var_os|vars_os|args)$|getrandom|fastrand")


def ty_of(b, a):
    return b.locals[a[1][0]][0] if a[0] in "cm" else a[1].get("ty", "")


def fname(b):
    return "::".join(re.sub(r"<.*>", "", x) if False else x for x in b.path.split("::")[-2:])


def check(P, R):
    R.rule("every iteration of a hash container ends in something that does not see the order: a keyed container, a sum, count or test of all elements, a list that is sorted by a whole element or key before it is used, or a "
           "loop whose only lasting effects are such; nothing that computes styles, layouts or pictures reads the clock, the environment or a random number")
    # functions that hand out a hash-ordered iterator under an opaque type
    gives = {b.id for b in P.fns() if HIT.search(b.locals[0][0]) and not ENTRY.search(b.locals[0][0])}
    n = calls = 0
    for b in P.fns():
        hot = {i for i, l in enumerate(b.locals) if HIT.search(l[0])}
        cs = list(b.calls())
        for c in cs:
            if c.callee_id in gives and not c.dest.p:
                hot.add(c.dest.l)
        calls += len(cs)
        todo = []
        for c in cs:
            tys = [ty_of(b, a) for a in c.args]
            h = [i for i, a in enumerate(c.args) if a[0] in "cm" and a[1][0] in hot]
            m = [i for i, t in enumerate(tys) if HC.match(t)]
            if h or m:
                todo.append((c, tys, h, m))
        if not todo:
            continue
        R.fn(b)
        r = Raw(P, b)
        for c, tys, h, m in todo:
            n += 1
            bad = consumer(P, r, b, c, tys, h, m, hot)
            if bad is not None:
                R.ob("order:%s" % b.path, not bad, "%s %s" % (b.path.split("::")[-1], bad), c.where())
    R.floor("hash uses", n, 20, "calls on hash containers and their iterators")
    R.count("calls examined", calls)
    clock(P, R)


def consumer(P, r, b, c, tys, h, m, hot):
    """None: not an end of an iteration; '' fine; else what is wrong"""
    if not h:
        # a whole container given to something that walks it
        if c.name in ("extend", "from_iter", "collect"):
            if c.name == "extend":
                if 0 in m and len(m) == 1:
                    return None             # the container itself is extended
                return "" if KEYED.match(tys[0]) else "appends a hash container to a list in hash order"
            return "" if keyed_result(b, c) else "makes a list of a hash container in hash order"
        cb = P.bodies.get(c.callee_id)
        if cb is not None:
            for i in m:
                if i < cb.argc and re.fullmatch(r"(&(mut )?)?(impl .*|[A-Z]\w?)", cb.locals[i + 1][0]):
                    return "gives a hash container to a generic function, whose result may depend on its order"
        return None
    dt = b.locals[c.dest.l][0]
    out_hot = c.dest.l in hot
    if c.name == "next":
        return loop(P, r, b, c, hot)
    if c.name in ("collect", "from_iter"):
        if keyed_result(b, c):
            return ""
        if re.search(r"^std::vec::Vec<", dt):
            return sorted_before_use(P, r, b, c)
        return "collects in hash order"
    if c.name == "extend":
        if KEYED.match(tys[0]):
            return ""
        root = list_root(r.resolve(c.args[0]))
        if root and "vec::Vec<" in tys[0]:
            e = sorted_before_use(P, r, b, c, root)
            return e
        return "appends to a list in hash order"
    if c.name in SAFE:
        return "" if c.name not in ("drop", "drop_in_place") else None
    if out_hot:
        if c.name in ADAPT:
            for g in closures(P, c):
                e = effects(P, Raw(P, g), g, set(g.reach), True)
                if e:
                    return e
            return None
        if P.bodies.get(c.callee_id) is not None and c.callee_id:
            return "gives a hash-ordered iterator to %s" % c.name
        return "selects or numbers elements of a hash container by their position (%s)" % c.name
    if c.name in ("for_each", "try_for_each"):
        for g in closures(P, c):
            e = effects(P, Raw(P, g), g, set(g.reach), True)
            if e:
                return e
        return ""
    if c.name == "retain":
        return None
    return "uses a hash-ordered iterator in %s, whose result depends on the order" % c.name


def closures(P, c):
    return [P.bodies[g] for g in (c.fn or {}).get("gfn", []) if g in P.bodies and P.bodies[g].kind == "Closure"]


def list_root(v):
    """name of the local list a value is (a reference to), or None"""
    if v[0] == "call" and not v[1].dest.p and v[1].name in ("new", "with_capacity", "default"):
        return "_%d" % v[1].dest.l
    p = bare(v)
    return p if p and re.fullmatch(r"_\d+", p) else None


def keyed_result(b, c):
    t = b.locals[c.dest.l][0] if not c.dest.p else ""
    if KEYED.match(t):
        return True
    return bool(re.match(r"^std::(option::Option|result::Result)<(std::collections::\w*(::)?)?(Hash(Map|Set)|BTree(Map|Set))<", t))


def sorted_before_use(P, r, b, c, root=None, starts=None, skip=()):
    """a list collected in hash order is sorted before anything else looks at it"""
    def is_it(a):
        if a[0] not in "cm":
            return False
        if root is not None:
            v = r.resolve(a, thru=PASS + ("as_mut_slice", "as_slice", "borrow_mut"))
            p = list_root(v) or bare(v)
            return p is not None and re.match(re.escape(root) + r"\b", p) is not None
        v = r.resolve(a, thru=PASS + ("as_mut_slice", "as_slice", "borrow_mut", "index", "index_mut"))
        return v[0] == "call" and v[1].bb == c.bb or bare(v) == repr(c.dest)
    seen, st = set(skip), list(starts) if starts is not None else [c.target]
    found = False
    while st:
        bb = st.pop()
        if bb in seen or bb is None:
            continue
        seen.add(bb)
        x = r.by.get(bb)
        if x is not None and any(is_it(a) for a in x.args):
            if x.name in ("sort", "sort_unstable"):
                found = True
                continue
            if x.name.startswith("sort"):
                e = order_of(P, x, b, c)
                if e:
                    return e
                found = True
                continue
            if x.name in ("deref_mut", "as_mut_slice", "len", "is_empty", "reserve", "drop", "deref", "as_slice", "as_mut"):
                pass
            elif x.name == "collect" and keyed_result(b, x):
                pass
            else:
                return "uses a list in hash order (%s) before it is sorted" % x.name
        if b.term(bb)[0] == "return" and not found:
            return "returns a list in hash order" if "Vec<" in b.locals[0][0] else "uses a list in hash order"
        st += [s for s in r.succs(bb)]
    return "" if found else "uses a list in hash order that is never sorted"


def order_of(P, x, b, c):
    """the comparison of a sort distinguishes all elements: it compares whole components, not something computed from them"""
    names = set()
    seen = []

    def scan(g):
        if g in seen:
            return
        seen.append(g)
        for k in g.calls():
            names.add(k.name)
            for q in closures(P, k):
                scan(q)
        for q in P.children.get(g.id, []):
            scan(q)
    gs = closures(P, x)
    for g in gs:
        scan(g)
    lossy = names & {"len", "chars", "count", "abs", "first", "last", "nth", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "is_empty", "starts_with", "ends_with", "eq_ignore_ascii_case", "rem", "next", "bytes", "hash"}
    if lossy:
        return "sorts a list in hash order by something that can be the same for different elements (%s)" % ", ".join(sorted(lossy))
    for g in gs:
        if x.name.endswith("_key"):
            t = g.locals[0][0]
            if re.fullmatch(r"&*(bool|u8|i8|char|usize|u16|u32|u64|i16|i32|i64|isize|f32|f64)|(std::cmp::)?Reverse<(bool|usize|u\d+|i\d+)>", t):
                v = Raw(P, g).place("_0", Place([0, []]))
                if not (v[0] == "place" and v[1].endswith(".0")):
                    return "sorts a list in hash order by a number that can be the same for different elements"
        for bb, i, pl, rv, ln in g.assigns():
            if rv[0] == "disc" and not re.search(r"Ordering", g.locals[rv[1][0]][0]):
                return "sorts a list in hash order by a case of the element that can be the same for different elements"
    return ""


def loop(P, r, b, c, hot):
    """the body of a loop over a hash container leaves nothing behind that depends on the order"""
    fw = closure_of(r.succs, c.bb)
    pred = {}
    for x in b.reach:
        for s in r.succs(x):
            pred.setdefault(s, []).append(x)
    dom = b.dominators()
    best = None
    for u in b.reach:
        for h in r.succs(u):
            if h in dom.get(u, ()) and h in dom.get(c.bb, ()):
                # every natural loop with this header
                nat, st = {h}, [x for x in b.reach if h in r.succs(x) and h in dom.get(x, ())]
                while st:
                    x = st.pop()
                    if x not in nat:
                        nat.add(x)
                        st += pred.get(x, [])
                if c.bb in nat and (best is None or len(nat) < len(best)):
                    best = nat
    if best is None:
        return "takes the first element of a hash container, whichever that is"
    body = best
    # blocks that leave the loop early, before the function or the next loop goes on
    return effects(P, r, b, body, False, c, fw)


def closure_of(f, start):
    seen, st = set(), list(f(start))
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st += f(x)
    return seen


def reads(b, blocks):
    out = set()

    def op(o):
        if o and o[0] in "cm":
            out.add(o[1][0])

    def rv(v):
        for x in v[1:]:
            if isinstance(x, list):
                if x and x[0] in ("c", "m", "k") and len(x) == 2:
                    op(x)
                elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                    out.add(x[0])
                else:
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ("c", "m"):
                            op(y)
    for bb in blocks:
        for s in b.blocks[bb]["s"]:
            if s[0] == "=":
                rv(s[2])
        t = b.term(bb)
        if t[0] == "call":
            for a in t[2]:
                op(a)
        elif t[0] == "switch":
            op(t[1])
        elif t[0] == "return":
            out.add(0)
    return out


def effects(P, r, b, body, whole, nxt=None, after=None):
    """'' when what the blocks do to the outside does not depend on how often or in which order they run with different elements"""
    out = None
    if whole:
        later = set()
    else:
        later = reads(b, (set(after) | {x for y in after for x in r.succs(y)}) - body)
        # an early exit that only hands on constants is a test
    inner = set()
    for l in range(len(b.locals)):
        if l > b.argc and l not in later and (l != 0 or not whole):
            inner.add(l)

    def local_root(a):
        v = r.resolve(a, thru=())
        p = bare(v)
        m = re.match(r"^_(\d+)", p) if p else None
        if m and int(m.group(1)) in inner and (whole or defs_inside(int(m.group(1)))):
            return True
        if v[0] in ("call", "of"):
            # a reference answered by something inside: judged where it was made
            k = v[1]
            return k.bb in body and not ENTRYLIKE(b, k) and all(local_root(y) for y in k.args if re.match(r"^&('\w+ )?mut ", ty_of(b, y)))
        return False

    def defs_inside(l):
        ds = [x for k, v in r.defs.items() if re.match(r"^_%d\b" % l, k) for x in v]
        return bool(ds) and all(x[0] in body for x in ds)

    for bb in sorted(body):
        k = r.by.get(bb)
        if k is None or nxt is not None and k.bb == nxt.bb:
            continue
        for a in k.args:
            t = ty_of(b, a)
            if not re.match(r"^&('\w+ )?mut ", t):
                if ENTRY.search(t) and k.name not in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key", "key"):
                    pass
                continue
            inn = re.sub(r"^&('\w+ )?mut ", "", t)
            if KEYED.match(inn) or HIT.search(inn):
                continue
            if local_root(a):
                continue
            root = list_root(r.resolve(a)) if not whole and k.name in ("push", "extend", "push_str") else None
            if root and inn.startswith("std::vec::Vec<"):
                outs = [s for x in body for s in r.succs(x) if s not in body]
                if outs and not sorted_before_use(P, r, b, k, root, outs, body):
                    continue
            return "calls %s on something that outlives the loop, once per element in hash order" % k.name
        if k.name in SHARED and not local_shared(k):
            return "calls %s once per element in hash order" % k.name
        if not k.dest.p and k.dest.l in later and k.dest.l not in inner and not k.name in ("max", "min"):
            if not (whole and k.dest.l == 0):
                t = b.locals[k.dest.l][0]
                if t != "()" and t != "!" and not const_result(r, k):
                    return "keeps a value of the element seen last (%s)" % k.name
    for bb in sorted(body):
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] != "=":
                continue
            pl, rv = Place(s[1]), s[2]
            if pl.l == 0 and whole:
                continue
            through = any(e == "*" or e == ["*"] for e in pl.p)
            if pl.l in inner and not through:
                continue
            if through and local_root(["c", s[1][:1] + [[]]] if False else ["c", [pl.l, []]]):
                continue
            if constant(r, rv) or commutes(b, r, rv, pl):
                continue
            if pl.l not in later and not through and not whole:
                continue
            return "keeps something of one element that depends on which comes first or last"
    if not whole:
        # ways out of the loop other than its end
        for bb in sorted(body):
            for s in r.succs(bb):
                if s in body or s == nxt.target:
                    continue
                e = early(b, r, s, body, later, nxt)
                if e:
                    return e
    return ""


def local_shared(k):
    return False


def ENTRYLIKE(b, k):
    return any(ENTRY.search(ty_of(b, a)) for a in k.args)


def const_result(r, k):
    return False


def constant(r, rv):
    ops = []
    if rv[0] == "use":
        ops = [rv[1]]
    elif rv[0] == "agg":
        ops = rv[5] if len(rv) > 5 else rv[-1]
    else:
        return False
    return all(r.resolve(o)[0] == "k" for o in ops)


def commutes(b, r, rv, pl):
    t = b.locals[pl.l][0]
    if rv[0] == "use" and rv[1][0] in "cm":
        v = r.resolve(rv[1])
        if v[0] == "rv":
            rv = v[1]
        else:
            m = re.match(r"^(_\d+)\.0$", repr(Place(rv[1][1])))
            d = r.defs.get(m.group(1), []) if m else []
            if len(d) == 1 and d[0][2][0] == "bin":
                rv = d[0][2]
    if rv[0] == "bin" and re.sub(r"(WithOverflow|Unchecked)$", "", rv[1]) in ("Add", "BitOr", "BitAnd", "BitXor", "Mul") and re.search(r"\b([ui](8|16|32|64|128|size)|bool)\b", t):
        return any(o[0] in "cm" and repr(Place(o[1])) == repr(pl) or bare(r.resolve(o)) == repr(pl) for o in rv[2:4] if isinstance(o, list))
    return False


def early(b, r, start, body, later, nxt):
    """leaving the loop on the way: only constants may be kept (a test of all elements)"""
    seen, st = set(), [start]
    while st:
        bb = st.pop()
        if bb in seen or bb in body:
            continue
        seen.add(bb)
        for s in b.blocks[bb]["s"]:
            if s[0] == "=" and s[1][0] == 0 and not constant(r, s[2]):
                items = item_locals(b, r, body, nxt)
                if ops_of(s[2]) & items:
                    return "answers with the first element found, which depends on hash order"
        k = r.by.get(bb)
        if k is not None:
            items = item_locals(b, r, body, nxt)
            if any(a[0] in "cm" and a[1][0] in items for a in k.args) and k.name not in ("drop",):
                return "goes on with the first element found, which depends on hash order"
        st += r.succs(bb)
    return ""


def ops_of(rv):
    out = set()

    def w(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                out.add(x[1][0])
            else:
                for y in x:
                    w(y)
    w(rv)
    if rv[0] == "ref":
        out.add(rv[2][0])
    return out


def item_locals(b, r, body, nxt):
    """locals in the loop that come from the element"""
    s = {nxt.dest.l}
    ch = True
    while ch:
        ch = False
        for bb in body:
            for q in b.blocks[bb]["s"]:
                if q[0] == "=" and q[1][0] not in s and ops_of(q[2]) & s and not (q[2][0] == "disc"):
                    s.add(q[1][0])
                    ch = True
    return s


def clock(P, R):
    roots = [b for b in P.fns() if b.krate in ("tcss", "rich")]
    for i in P.impls:
        t = (i.get("trait") or "").split("::")[-1]
        if i["crate"] == "textual" and (t == "Layout" or t == "Widget" or t == "Visual" or t == "Renderable"):
            for n, m in i["methods"].items():
                if t != "Widget" or n in ("render", "desired_size", "content_width", "content_height", "get_meta", "get_state", "for_each_child", "default_css", "get_style", "layers"):
                    if m in P.bodies:
                        roots.append(P.bodies[m])
    mods = ("canvas", "strip", "segment", "content", "svg", "visual", "style_resolver", "border_box", "border_chars", "border_render", "box_drawing", "fraction", "layouts", "keyline_canvas", "scrollbar", "fuzzy", "testing", "render_cache", "line_cache")
    for b in P.fns(crate="textual"):
        p = b.path.lstrip("<").split("::")
        if len(p) > 2 and p[0] == "textual" and p[1] in mods:
            roots.append(b)
    R.floor("producers", len(roots), 300, "functions that compute styles, layouts and pictures")
    impls = {}
    for i in P.impls:
        for n, m in i["methods"].items():
            impls.setdefault((i.get("trait"), n), []).append(m)
    src = {b.id: b for b in roots}
    parent = {b.id: None for b in roots}
    st = list(src)
    bad = {}
    while st:
        x = st.pop()
        b = P.bodies[x]
        for c in b.calls():
            if c.path and CLOCK.search(c.path):
                bad.setdefault((b.path, c.path.split("::")[-2] + "::" + c.path.split("::")[-1]), (b, c))
            nx = []
            if c.callee_id in P.bodies:
                nx.append(c.callee_id)
            elif c.trait in P.traits:
                nx += [m for m in impls.get((c.trait, c.name), []) if m in P.bodies]
            nx += [g for g in (c.fn or {}).get("gfn", []) if g in P.bodies]
            for y in nx:
                if y not in parent:
                    parent[y] = x
                    st.append(y)
        for q in P.children.get(x, []):
            if q.id not in parent:
                parent[q.id] = x
                st.append(q.id)
    for (p, k), (b, c) in sorted(bad.items()):
        chain = []
        y = b.id
        while y is not None:
            chain.append(P.bodies[y].path.split("::")[-1])
            y = parent[y]
        R.ob("clock:%s:%s" % (p, k), False, "%s reads %s while computing a style, layout or picture (%s)" % (p.split("::")[-1], k, " < ".join(chain)), c.where())
    R.ob("clock", True, "")
    R.count("functions reached", len(parent))
