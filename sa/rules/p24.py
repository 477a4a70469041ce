"""P24  Searches, bulk operations and bubbling reach exactly the widgets they name."""
from rules.p07 import *

A1 = I(("arg", 1))


def tinl(b):
    def g(c, cb):
        return w_inline(c, cb) and cb.id != b.id and cb.id != b._matches
    g.each = True
    return g


def kinds_of(P, b):
    """parameter roles: {'act': i, 'flt': i, 'sel': i, 'str': i, 'cur': i, 'out': i, 'set': i}"""
    r = {}
    for i in range(2, b.argc + 1):
        t = b.locals[i][0]
        if re.match(r"^&(?:'\w+ )?mut [A-Z]\w*$", t):
            r["act"] = i
        elif re.match(r"^&(?:'\w+ )?[A-Z]\w*$", t):
            r["flt"] = i
        elif "Selector" in t:
            r["sel"] = i
        elif t in ("&str", "&'static str") or re.match(r"^&'\w+ str$", t):
            r["str"] = i
        elif "Vec<std::vec::Vec<usize>>" in t:
            r["out"] = i
        elif "Vec<usize>" in t:
            r["cur"] = i
        elif "HashSet" in t or "BTreeSet" in t:
            r["set"] = i
        else:
            r["?"] = i
    return r


def eqfact(fs, meth, arg, val):
    """facts say that meth(widget) == the given argument is val"""
    for x in fs:
        if x[0] in ("is", "not") and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne") and isinstance(x[2], bool):
            w = any(y and y[0] == "call" and last(y) == meth and y[2] and ptr(y[2][0]) == A1 for y in walk(x[1]))
            o = any(y == arg for y in walk(x[1])) or arg is None
            v = (x[2] if x[0] == "is" else not x[2]) == (x[1][1] == "Eq")
            if w and o and v == val:
                return True
    return False


def matched(P, b, r, fs, how):
    """True / False / None: does the widget itself match, as far as the facts tell?"""
    conj = []
    if "sel" in r:
        t = lambda v: any(x[0] in ("is", "not") and x[1][0] == "call" and x[1][1] == P.bodies[b._matches].path and ptr(x[1][2][0]) == ("arg", r["sel"]) and ptr(x[1][2][1]) == A1
                          and (x[2] if x[0] == "is" else not x[2]) == v for x in fs)
        conj.append(True if t(True) else False if t(False) else None)
    if "str" in r:
        a = I(("arg", r["str"]))
        conj.append(True if eqfact(fs, how, a, True) else False if eqfact(fs, how, a, False) else None)
    if "flt" in r:
        t = lambda v: any(x[0] in ("is", "not") and x[1][0] == "call" and last(x[1]) in ("call", "call_mut") and ptr(x[1][2][0]) == ("arg", r["flt"])
                          and x[1][2][1][0] == "agg" and ptr(x[1][2][1][3][0][1]) == A1 and (x[2] if x[0] == "is" else not x[2]) == v for x in fs)
        conj.append(True if t(True) else False if t(False) else None)
    if any(c is False for c in conj):
        return False
    return True if conj and all(conj) else None


def passed(a, i):
    """argument i handed on unchanged"""
    v = a[i - 1]
    return ptr(v) == ("arg", i) or v == ("ref", ("D", ("arg", i)), ())


def check(P, R):
    R.rule("each recursive function over the widget tree: own widget tested and acted on first, then every child by index, exactly once, with the same arguments; a search for one widget "
           "stops exactly when it has acted, a search for all never stops early; predicates are the named ones; queries and bulk operations hand over to the right traversal; "
           "bubbling walks the focus path from the parent to the root while the message bubbles")
    ms = [b for b in P.fns(crate="textual") if b.name == "matches" and b.self_adt and b.self_adt.endswith("Selector")]
    if not R.ob("matches", len(ms) == 1, "the selector's own test is missing", ""):
        return
    mid = ms[0].id
    selector(P, R, ms[0])
    recs = {}
    for i in sorted(recursives(P)):
        b = P.bodies[i]
        if b.path.split("::")[-1] in ("resolve_dirty_styles",) or any("StyleSheet" in b.locals[j][0] for j in range(1, b.argc + 1)):
            continue
        if num_arg(b) is not None:
            continue     # the focus searches: P07
        b._matches = mid
        recs[i] = b
    roles = {i: kinds_of(P, b) for i, b in recs.items()}
    how = entries(P, R, recs, roles)
    n = {}
    for i, b in recs.items():
        k = traversal(P, R, b, roles[i], how.get(i))
        n[k] = n.get(k, 0) + 1
    R.floor("traversals", sum(n.values()), 10, "recursive functions over the widget tree")
    R.floor("first", n.get("first", 0), 4, "searches for one widget")
    R.floor("all", n.get("all", 0), 2, "operations on all matches")
    query(P, R, recs, roles)
    bubble(P, R)


def selector(P, R, b):
    R.fn(b)
    f = flow(P, b, w_inline, key="tree")
    S = ("D", ("arg", 1))
    W2 = I(("arg", 2))

    def state(fs, fld):
        for x in fs:
            if x[0] == "is" and x[1][0] == "disc" and x[1][1] == ("mem", S, (fld,)):
                return x[2]
            if x[0] in ("is", "not") and x[1][0] == "isvar" and x[1][1] == ("mem", S, (fld,)) and isinstance(x[2], bool):
                v = x[2] if x[0] == "is" else not x[2]
                return x[1][2] if v else {"Some": "None", "None": "Some"}[x[1][2]]
        return None

    def eq(fs, meth, fld):
        for x in fs:
            if x[0] in ("is", "not") and x[1][0] == "bin" and x[1][1] in ("Eq", "Ne"):
                if any(y and y[0] == "call" and last(y) == meth and ptr(y[2][0]) == W2 for y in walk(x[1])) and any(y and y[0] in ("mem", "ref") and y[1] == S and y[2][:1] == (fld,) for y in walk(x[1])):
                    return (x[2] if x[0] == "is" else not x[2]) == (x[1][1] == "Eq")
        return None
    k = 0
    for p in paths(f) or []:
        for (v,), lf in joint_leaves(f, [p.ret()], p.facts):
            cases = [(v, lf)]
            if v[0] != "k":
                cases = [(I(("k", t)), frozenset(lf | {I(("is", v, t))})) for t in (True, False)]
            for v1, fs in cases:
                if any(contra(fs, x) for x in fs):
                    continue
                k += 1
                tn, idd = state(fs, "type_name"), state(fs, "id")
                et, ei = eq(fs, "type_name", "type_name"), eq(fs, "id", "id")
                if v1 == ("k", True):
                    ok = (tn == "None" or et is True) and (idd == "None" or ei is True) and not (tn == "None" and idd == "None")
                    R.ob("matches:true", ok, "a selector matches when %s" % "; ".join(show_facts(fs))[:200], b.where())
                else:
                    ok = et is False or ei is False or tn == "None" and idd == "None"
                    R.ob("matches:false", ok, "a selector does not match when %s" % "; ".join(show_facts(fs))[:200], b.where())
    R.ob("matches:paths", k >= 4, "too few cases of the selector test are visible", b.where())


def contra(fs, x):
    """an impossible case: a place is said to be Some and None at once"""
    if x[0] != "is" or x[1][0] != "isvar" or not isinstance(x[2], bool):
        return False
    v = x[1][2] if x[2] else {"Some": "None", "None": "Some"}.get(x[1][2])
    return any(y[0] == "is" and y[1][0] == "disc" and y[1][1] == x[1][1] and y[2] != v for y in fs)


def entries(P, R, recs, roles):
    """which predicate a search by name is for, from the public operation that starts it"""
    how = {}
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.id in recs:
            continue
        m = re.search(r"by_(id|type)", b.name or "")
        for c in b.calls():
            if c.callee_id in recs and "str" in roles[c.callee_id]:
                if m:
                    want = {"id": "id", "type": "type_name"}[m.group(1)]
                    R.ob("entry:%s" % b.name, how.get(c.callee_id, want) == want, "the search by id and the search by type use the same test", b.where())
                    how[c.callee_id] = want
    R.ob("entry:id", "id" in how.values(), "there is no search by id", "")
    R.ob("entry:type", "type_name" in how.values(), "there is no search by type", "")
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.id in recs or not (b.self_adt or "").endswith("WidgetTree"):
            continue
        if not any(c.callee_id in recs for c in b.calls()):
            continue
        f = flow(P, b, lambda c, cb: False, key="none2")
        R.fn(b)
        for c, a, fs in f.calls():
            if c.callee_id not in recs:
                continue
            r = roles[c.callee_id]
            root = any(y and y[0] in ("mem", "ref") and y[2][:1] == ("root",) for y in walk(a[0]))
            R.ob("%s:root" % b.name, root, "%s searches below %s" % (b.name, show(a[0])[:60]), c.where())
            if "str" in r:
                R.ob("%s:name" % b.name, ptr(a[r["str"] - 1]) == ("arg", 2), "%s searches for %s" % (b.name, show(a[r["str"] - 1])[:60]), c.where())
            if "sel" in r:
                s = a[r["sel"] - 1]
                sv = f.at(c.bb, s)
                ok = ptr(s) == ("arg", 2) or any(y and y[0] == "call" and last(y) == "parse_simple_selector" and y[2][0] == ("arg", 2) for y in walk(sv))
                R.ob("%s:selector" % b.name, ok, "%s searches for %s" % (b.name, show(sv)[:80]), c.where())
        for p in paths(f) or []:
            R.ob("%s:always" % b.name, any(c.callee_id in recs for c, a in p.calls()), "%s does not search when %s" % (b.name, facts_of(p)), b.where())
        once(P, R, b, f)
    return how


def once(P, R, b, f):
    """the closure handed to a search applies the caller's function to the widget it is given and keeps the result"""
    for cl in P.closures_rec(b):
        if cl.argc < 2:
            continue
        g = flow(P, cl, lambda c, cb: False, key="none2")
        hit = 0
        for c, a, fs in g.calls():
            if c.name in ("call_once", "call_mut", "call"):
                hit += 1
                R.ob("%s:apply" % b.name, len(a) == 2 and a[1][0] == "agg" and ptr(a[1][3][0][1]) == ("arg", 2), "%s applies the function to something else than the widget found" % b.name, c.where())
        if hit:
            for p in paths(g) or []:
                called = any(c.name in ("call_once", "call_mut", "call") for c, a in p.calls())
                none = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" for x in p.facts)
                R.ob("%s:applied" % b.name, called or none, "%s does not apply the function when %s" % (b.name, facts_of(p)), cl.where())


def traversal(P, R, b, r, how):
    R.fn(b)
    f = flow(P, b, tinl(b), key="each")
    nm = b.name
    w = b.where()
    lps = [lp for lp in loops(f) if lp.coll() is not None and lp.coll()[0] == "count" and ptr(lp.coll()[1]) == A1]
    if not R.ob(nm + ":children", len(lps) == 1, "%s does not run over all children by index" % nm, w):
        return "?"
    lp = lps[0]
    rc = me(lp)
    ret = b.locals[0][0]
    first = ret == "bool"
    opt = ret.startswith("std::option::Option")
    pre = paths(f, 0, {lp.hdr}) or []
    R.ob(nm + ":pre", bool(pre), "%s has no path to its children" % nm, w)
    typed = any(c.name == "downcast_mut" for c, a, fs in f.calls())
    for p in pre:
        calls = list(p.calls())
        if "act" in r:
            acts = [a for c, a in calls if c.name in ("call_mut", "call_once", "call") and a and ptr(a[0]) == ("arg", r["act"])]
            m = matched(P, b, r, p.facts, how)
            if typed and m is True:
                fit = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and last(x[1][1]) == "downcast_mut" for x in p.facts)
                if not fit:
                    miss = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and last(x[1][1]) in ("downcast_mut", "as_any_mut") for x in p.facts)
                    R.ob(nm + ":fit", miss and not acts and p.end == "stop", "%s gives up on a widget when %s" % (nm, facts_of(p)), w)
                    continue
            R.ob(nm + ":test", m is not None, "%s does not decide by its argument: %s" % (nm, facts_of(p)), w)
            if m:
                R.ob(nm + ":act", len(acts) == 1 and on_self(acts[0]), "%s does not act once on a matching widget" % nm, w)
                R.ob(nm + ":act:end", (p.end == "return" and p.ret() == ("k", True)) if first else p.end == "stop", "%s %s after a match" % (nm, "goes on" if first else "stops"), w)
            else:
                R.ob(nm + ":noact", not acts and p.end == "stop", "%s acts on a widget or leaves out its children when %s" % (nm, facts_of(p)), w)
        elif "out" in r:
            m = matched(P, b, r, p.facts, how)
            push = [a for c, a in calls if c.name == "push" and ptr(a[0]) == ("arg", r["out"])]
            R.ob(nm + ":test", m is not None, "%s does not decide by its argument: %s" % (nm, facts_of(p)), w)
            R.ob(nm + ":record", len(push) == (1 if m else 0) and (not m or copy_of(f, push[0][1], r["cur"])), "%s does not record the path of exactly the matching widgets" % nm, w)
            R.ob(nm + ":on", p.end == "stop" and not any(c.name in ("push", "pop") and ptr(a[0]) == ("arg", r["cur"]) for c, a in calls), "%s leaves out children" % nm, w)
        elif opt:
            hov = lambda v: any(x[0] == "is" and x[2] is v and x[1][0] == "call" and last(x[1]) == "contains" and "HOVER" in str(x[1]) and any(y and y[0] == "call" and last(y) == "get_state" and ptr(y[2][0]) == A1 for y in walk(x[1])) for x in p.facts)
            tip = lambda v: any(x[0] == "is" and x[1][0] == "disc" and x[2] == v and last(x[1][1]) == "tooltip" and ptr(x[1][1][2][0]) == A1 for x in p.facts)
            if p.end == "return":
                v = p.ret()
                R.ob(nm + ":own", hov(True) and tip("Some") and any(y and y[0] == "call" and last(y) == "tooltip" for y in walk(v)), "%s answers for a widget when %s" % (nm, facts_of(p)), w)
            else:
                R.ob(nm + ":deeper", hov(False) or tip("None"), "%s passes over a hovered widget's tooltip" % nm, w)
        elif "set" in r:
            ins = [a for c, a in calls if c.name == "insert" and ptr(a[0]) == ("arg", r["set"])]
            empty = any(x[0] == "is" and x[2] is True and x[1][0] == "call" and last(x[1]) == "is_empty" or x[0] == "is" and x[2] is True and x[1][0] == "bin" and x[1][1] == "Eq" and x[1][3] in (("k", 0),) for x in p.facts)
            own = [a for a in ins if any(y and y[0] == "call" and last(y) == "default_css" and ptr(y[2][0]) == A1 for y in walk(a[1]))]
            R.ob(nm + ":own", p.end == "stop" and (len(own) == 1 or empty), "%s leaves out a widget's default style when %s" % (nm, facts_of(p)), w)
        elif "Vec<" in ret:
            got = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and last(x[1][1]) == "take_pending_action" for x in p.facts)
            put = [a for c, a in calls if c.name == "push" and any(y and y[0] == "call" and last(y) == "take_pending_action" and ptr(y[2][0]) == A1 for y in walk(a[1]))]
            took = any(c.name == "take_pending_action" and ptr(a[0]) == A1 for c, a in calls)
            R.ob(nm + ":own", p.end == "stop" and took and len(put) == (1 if got else 0), "%s loses a widget's own action" % nm, w)
        else:
            own = [c.name for c, a in calls if c.trait == W and a and ptr(a[0]) == A1 and c.name not in ("child_count", "get_child_mut")]
            want = {"clear_all_hover": "clear_hover"}.get(nm)
            ok = p.end == "stop" and (want is None and len(own) >= 1 or want in own)
            R.ob(nm + ":own", ok, "%s does not act on the widget itself when %s" % (nm, facts_of(p)), w)
    its = lp.iters()
    R.ob(nm + ":loop", bool(its), "%s never reaches a child" % nm, w)
    for p in its:
        calls = list(p.calls())
        rec = [(c, a) for c, a in calls if c.callee_id == b.id]
        none = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and last(x[1][1]) == "get_child_mut" for x in p.facts)
        if "act" in r:
            R.ob(nm + ":once", not any(c.name in ("call_mut", "call_once", "call") and a and ptr(a[0]) == ("arg", r["act"]) for c, a in calls), "%s acts again while going over the children" % nm, w)
        if "cur" in r:
            seq = [c.name if c.name in ("push", "pop") else "rec" for c, a in calls if c.callee_id == b.id or c.name in ("push", "pop") and ptr(a[0]) == ("arg", r["cur"])]
            pu = [a for c, a in calls if c.name == "push" and ptr(a[0]) == ("arg", r["cur"])]
            ok = seq in (["push", "rec", "pop"], ["push", "pop"] if none else None, [] if none else None) and all(a[1] == lp.item for a in pu)
            R.ob(nm + ":path", ok, "%s records paths that do not lead to the widget (%s)" % (nm, " ".join(seq)), w)
        if not rec:
            found = opt and any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and x[1][1][0] == "phi" for x in p.facts)
            R.ob(nm + ":skip", (none or found) and p.end == "stop", "%s leaves out a child when %s" % (nm, facts_of(p)), w)
            continue
        c, a = rec[0]
        R.ob(nm + ":child", len(rec) == 1 and rc(a[0]) and all(passed(a, i) for i in range(2, b.argc + 1)), "%s goes on with %s" % (nm, ", ".join(show(x)[:50] for x in a)), w)
        if first:
            t = lambda v: any(x[0] in ("is", "not") and x[1][0] == "call" and x[1][1] == b.path and (x[2] if x[0] == "is" else not x[2]) == v for x in p.facts)
            if p.end == "stop":
                R.ob(nm + ":next", t(False), "%s goes on although it has found a widget" % nm, w)
            else:
                R.ob(nm + ":found", p.end == "return" and (t(True) and p.ret() == ("k", True) or told(p) == ("k", True)), "%s stops although it has found nothing" % nm, w)
        elif opt:
            if p.end != "return":
                # what was found earlier is kept: either nothing was found yet, or the result accumulates through or_else
                var = [k for (bb, k), ins in f.phi_in.items() if bb == lp.hdr and any(any(y and y[0] == "call" and y[1] == b.path for y in walk(x)) for x in ins.values())]
                yet = any(x[0] == "is" and (x[1][0] == "disc" and x[2] == "None" or x[1][0] == "isvar" and (x[1][2] == "None") == x[2]) and x[1][1][0] == "phi" and x[1][1][1] == lp.hdr for x in p.facts)
                R.ob(nm + ":first", yet or not var, "%s forgets what it found below an earlier child" % nm, w)
            if p.end == "return":
                got = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "Some" and x[1][1][0] == "call" and x[1][1][1] == b.path for x in p.facts)
                R.ob(nm + ":found", got and any(y and y[0] == "call" and y[1] == b.path for y in walk(p.ret())), "%s stops before the last child" % nm, w)
        else:
            R.ob(nm + ":goon", p.end == "stop", "%s stops before the last child" % nm, w)
            if "Vec<" in ret:
                ext = [x for cc, x in calls if cc.name in ("extend", "append") and any(y and y[0] == "call" and y[1] == b.path for y in walk(x[1]))]
                R.ob(nm + ":keep", len(ext) == 1, "%s loses what it found below a child" % nm, w)
    for p in lp.ends():
        if first:
            R.ob(nm + ":false", p.ret() == ("k", False), "%s reports success without a match" % nm, w)
    return "first" if first and "act" in r else "all" if "act" in r else "other"


def on_self(a):
    t = a[1]
    if not (t[0] == "agg" and len(t[3]) == 1):
        return False
    v = t[3][0][1]
    return ptr(v) == A1 or any(y and y[0] == "call" and last(y) in ("downcast_mut",) for y in walk(v)) and any(y == A1 for y in walk(v))


def copy_of(f, v, i):
    v = ptr(v)
    return v == ("mem", ("D", ("arg", i)), ()) or any(y == ("arg", i) for y in walk(v))


def query(P, R, recs, roles):
    """the bulk query hands over to the traversal that fits, and its bulk operations to the operation of the same name"""
    qs = {b.self_adt for b in P.fns(crate="textual") if (b.self_adt or "").endswith("DOMQuery")}
    if not R.ob("query", len(qs) == 1, "the bulk query is missing", ""):
        return
    Q = qs.pop()
    wm = {n for i in P.impls_of(W) for n in i["methods"]}
    ops = 0
    for b in P.fns(crate="textual"):
        if b.self_adt != Q or b.kind == "closure":
            continue
        f = flow(P, b, lambda c, cb: False, key="none2")
        cs = [(c, a, fs) for c, a, fs in f.calls() if c.callee_id in recs]
        for c, a, fs in cs:
            R.fn(b)
            r = roles[c.callee_id]
            has = lambda v: any(x[0] == "is" and x[1][0] == "disc" and x[2] == v and "filter_fn" in str(x[1][1]) for x in fs) or any(x[0] in ("is", "not") and x[1][0] == "isvar" and "filter_fn" in str(x[1][1]) and (x[1][2] == v) == (x[2] if x[0] == "is" else not x[2]) for x in fs)
            R.ob("query.%s:filter" % b.name, has("Some") if "flt" in r else has("None"), "%s uses a traversal %s a filter regardless of the query's filter" % (b.name, "with" if "flt" in r else "without"), c.where())
            if "flt" in r:
                fv = a[r["flt"] - 1]
                R.ob("query.%s:predicate" % b.name, "filter_fn" in str(f.at(c.bb, fv)) or "filter_fn" in str(fv), "%s filters by %s" % (b.name, show(fv)[:60]), c.where())
            R.ob("query.%s:selector" % b.name, "selector" in str(a[r["sel"] - 1]), "%s searches for %s" % (b.name, show(a[r["sel"] - 1])[:60]), c.where())
        for c, a, fs in f.calls():
            if c.callee_id in P.bodies and P.bodies[c.callee_id].self_adt and P.bodies[c.callee_id].self_adt.endswith("WidgetTree") and len(a) > 1 and c.callee_id not in recs:
                R.ob("query.%s:selector" % b.name, a[1] == ("ref", ("D", ("arg", 1)), ("selector",)), "%s searches for %s" % (b.name, show(a[1])[:60]), c.where())
                R.ob("query.%s:filter" % b.name, any("filter_fn" in str(x[1]) for x in fs), "%s ignores the filter" % b.name, c.where())
        if b.name in wm and b.argc >= 1:
            cl = [x for x in P.closures_rec(b)]
            if not any(c.name == "for_each" for c in b.calls()):
                continue
            ops += 1
            R.fn(b)
            g = flow(P, cl[0], lambda c, cb: False, key="none2") if len(cl) == 1 else None
            hit = [(c, a) for c, a, fs in g.calls() if c.trait == W] if g else []
            ok = len(hit) == 1 and hit[0][0].name == b.name and ptr(hit[0][1][0]) == ("arg", 2)
            R.ob("query.%s:op" % b.name, ok, "the bulk operation %s calls %s" % (b.name, ", ".join(c.name for c, a in hit) or "nothing"), b.where())
            if ok:
                for p in paths(g) or []:
                    R.ob("query.%s:always" % b.name, any(c.name == b.name for c, a in p.calls()), "the bulk operation %s leaves out widgets when %s" % (b.name, facts_of(p)), b.where())
                caps = hit[0][1][1:]
                order(P, R, b, f, g, caps)
        if b.name == "last":
            R.fn(b)
            g = flow(P, b, w_inline, key="tree")
            cs = [(c, a) for c, a, fs in g.calls() if c.name in ("call_once", "call_mut", "call") and ptr(a[0]) == ("arg", 2) and a[1][0] == "agg"]
            troot = lambda y: "'root'" in str(y) and not any(z and z[0] == "call" and last(z) == "get_child_mut" for z in walk(y)) or last(y) == "root_mut"
            ok = len(cs) == 1 and walker(g, cs[0][1][1][3][0][1], troot, ends_with_last) is not None
            R.ob("query.last", ok, "last does not act on the widget the last recorded path leads to", b.where())
    R.floor("bulk", ops, 5, "bulk operations on a query")
    for b in P.fns(crate="textual"):
        if b.self_adt == Q and b.name == "count" and b.kind != "closure":
            cl = list(P.closures_rec(b))
            ok = False
            for x in cl:
                for blk in x.blocks:
                    for s in blk["s"]:
                        if s[0] == "=" and "Add" in str(s[2])[:30]:
                            ok = True
            R.ob("query.count", ok or not cl, "count does not count one per widget", b.where())


def order(P, R, b, f, g, caps):
    """each captured value the operation is given is the method's own parameter, in order"""
    want = 2
    agg = None
    for c, a, fs in f.calls():
        if c.name == "for_each":
            agg = a[1]
    if agg is None or agg[0] != "agg":
        return
    for v in caps:
        while v[0] in ("refv", "kref") or v[0] == "call" and last(v) in ("as_str", "deref", "as_ref") and len(v[2]) == 1:
            v = v[1] if v[0] != "call" else v[2][0]
        R.ob("query.%s:same" % b.name, v[0] in ("mem", "ref"), "the bulk operation %s passes %s on" % (b.name, show(v)[:60]), b.where())
        i = cap_index(v)
        if i is None or i >= len(agg[3]):
            continue
        src = agg[3][i][1]
        src = f.at_end(src) if hasattr(f, "at_end") else src
        js = {y[1] for y in walk(resolve(f, src)) if y and y[0] == "arg" and y[1] > 1}
        if js:
            R.ob("query.%s:arg%d" % (b.name, want - 1), js == {want}, "the bulk operation %s passes argument %s as number %d" % (b.name, sorted(js), want - 1), b.where())
        want += 1


def resolve(f, v):
    if v[0] == "ref" and v[1][0] == "L":
        for c, a, fs in f.calls():
            if c.name == "for_each":
                return f.read(f.instate[c.bb], v[1], v[2])
    return v


def cap_index(v):
    for y in walk(v):
        if y and y[0] in ("mem", "ref") and y[1] == ("D", ("arg", 1)) and y[2] and str(y[2][0]).isdigit():
            return int(y[2][0])
    return None


def ends_with_last(s):
    t = str(s)
    return any(y and y[0] == "call" and last(y) in ("last", "pop", "next_back") for y in walk(s)) and "rev" not in {last(y) for y in walk(s) if y and y[0] == "call"} and "RangeTo" not in t and "'skip'" not in t


def walker(f, v, root, coll_ok):
    """v is the widget reached from `root` by following child numbers: (initial, loop) """
    v = ptr(v)
    if v[0] != "phi":
        return None
    ins = f.phi_in.get((v[1], v[2]))
    if not ins:
        return None
    lp = next((l for l in loops(f) if l.hdr == v[1]), None)
    if lp is None:
        return None
    st = init = 0
    for p, x in ins.items():
        y = ptr(x)
        if y[0] == "f" and y[2] == "Some.0" and last(y[1]) == "get_child_mut":
            if ptr(y[1][2][0]) == v and ptr(y[1][2][1]) in (lp.item, ptr(I(("mem", ("D", lp.item), ())))):
                st += 1
                continue
            return None
        if root(y):
            init += 1
            continue
        return None
    src = lp.src
    if lp.call[1].split("::")[-1] == "next_back" or any(y and y[0] == "call" and last(y) == "rev" for y in walk(src)):
        return None
    for y in list(walk(src)):
        if y and y[0] == "ref" and y[1][0] == "L":
            src = I(("and", src, f.read(f.instate[lp.hdr], y[1], y[2])))
    return lp if st and init and coll_ok(src) else None


def bubble(P, R):
    bs = [b for b in P.fns(crate="textual") if b.name == "bubble_message" and (b.self_adt or "").endswith("WidgetTree")]
    if not R.ob("bubble", len(bs) == 1, "messages do not bubble", ""):
        return
    b = bs[0]
    R.fn(b)
    f = flow(P, b, w_inline, key="tree")
    w = b.where()
    root = lambda y: y[0] in ("mem", "ref") and y[2] == ("root",)
    hs = [(c, a) for c, a, fs in f.calls() if c.trait == W and c.name == "handle_message"]
    if not R.ob("bubble:handle", len(hs) == 1, "bubbling does not hand the message over in one place", w):
        return
    c, a = hs[0]
    outer = [l for l in loops(f) if c.bb in l.body and down(l)]
    if not R.ob("bubble:order", len(outer) == 1, "bubbling does not go from the parent of the focused widget up to the root", w):
        return
    lp = outer[0]

    def prefix(src):
        for y in walk(src):
            if y and y[0] == "agg" and y[1].endswith("RangeTo") and y[3][0][1] == lp.item:
                return True
            if y and y[0] == "call" and last(y) == "take" and len(y[2]) == 2 and y[2][1] == lp.item:
                return True
        return False
    R.ob("bubble:who", walker(f, a[0], root, prefix) is not None, "the message is handed to %s, not to the ancestor at that depth" % show(a[0])[:80], w)
    R.ob("bubble:envelope", "arg2" in show(a[1]) or a[1][0] == "ref", "the handler gets another envelope", w)
    for p in lp.iters():
        called = any(cc.bb == c.bb for cc, aa in p.calls())
        bub = lambda v: any(x[0] in ("is", "not") and (x[1][0] == "mem" and x[1][2][-1:] == ("bubbling",) or x[1][0] == "f" and x[1][2] == "bubbling" or x[1][0] == "call" and last(x[1]) == "is_bubbling") and (x[2] if x[0] == "is" else not x[2]) is v for x in p.facts)
        gone = any(x[0] == "is" and x[1][0] == "disc" and x[2] == "None" and last(x[1][1]) == "get_child_mut" for x in p.facts)
        if called:
            R.ob("bubble:while", bub(True), "a message that no longer bubbles is handed on", w)
            R.ob("bubble:on", p.end in ("stop", "cycle"), "bubbling stops at an ancestor that let the message pass", w)
        elif p.end == "return":
            R.ob("bubble:stop", bub(False), "bubbling stops when %s" % facts_of(p), w)
    # the message a handler answers with replaces the one that bubbles on
    repl = False
    for (bb, k), ins in f.phi_in.items():
        if k[1] == ("message",):
            for x in ins.values():
                if any(y and y[0] in ("call", "phi") for y in walk(x)) and "Some.0" in str(x):
                    repl = True
    R.ob("bubble:replace", repl, "a handler's answer does not replace the message", w)
    # keys go to the widget the focus path leads to
    for b2 in P.fns(crate="textual"):
        if b2.name == "with_focused" and (b2.self_adt or "").endswith("WidgetTree"):
            R.fn(b2)
            g = flow(P, b2, w_inline, key="tree")
            cs = [(c, a) for c, a, fs in g.calls() if c.name in ("call_once", "call_mut", "call")]
            ok = len(cs) == 1 and cs[0][1][1][0] == "agg" and walker(g, cs[0][1][1][3][0][1], root, lambda s: "indices" in str(s) and "RangeTo" not in str(s) and "rev" not in str(s) and "skip" not in str(s)) is not None
            R.ob("focused", ok, "with_focused does not follow the focus path from the root", b2.where())
        if b2.name == "dispatch_key" and (b2.self_adt or "").endswith("WidgetTree"):
            R.fn(b2)
            ev = [(x, c) for x in [b2] + list(P.closures_rec(b2)) for c in x.calls() if c.trait == W and c.name == "on_event"]
            R.ob("dispatch", len(ev) == 1 and any(c.name == "with_focused" for c in b2.calls()), "a key is not handed to the focused widget", b2.where())


def down(lp):
    """over 0..path.len(), from the end"""
    s = lp.src
    if s is None:
        return False
    rev = lp.call[1].split("::")[-1] == "next_back"
    while s[0] == "call" and last(s) == "rev":
        rev = not rev
        s = s[2][0]
    return rev and s[0] == "agg" and s[1].endswith("Range") and dict(s[3]).get("start") == ("k", 0) and last(dict(s[3]).get("end")) == "len" and "indices" in str(s)
