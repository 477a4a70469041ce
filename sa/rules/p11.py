"""P11  However an app ends, the terminal is given back."""
from rules.raw import *

UNDO = {"EnableMouseCapture": "DisableMouseCapture", "EnterAlternateScreen": "LeaveAlternateScreen", "Hide": "Show", "EnableBracketedPaste": "DisableBracketedPaste", "EnableFocusChange": "DisableFocusChange"}
PLUMB = ("branch", "from_residual", "stdout", "drop", "into", "from", "into_future", "poll", "new_unchecked")


def commands(P, b, seen=None):
    """names of crossterm commands written by a function and the closures in it, with the block each is written in (None inside a closure)"""
    out = []
    for c in b.calls():
        if c.name in ("queue", "execute"):
            for a in c.args[1:]:
                n = cmd_name(b, a)
                if n:
                    out.append((n, c.bb))
        for g in c.fn.get("gfn", []) if c.fn else []:
            gb = P.bodies.get(g)
            if gb is not None and gb.kind == "Closure":
                out += [(n, c.bb) for n, _ in commands(P, gb)]
    return out


def cmd_name(b, a):
    if a[0] == "k":
        ty = a[1].get("ty", "")
    else:
        ty = b.locals[a[1][0]][0]
    m = re.search(r"crossterm::[\w:]*::(\w+)", ty)
    return m.group(1) if m else None


def check(P, R):
    R.rule("where raw mode is entered, a guard whose destructor gives the terminal back is made before anything else can fail, panic or wait, and lives until the app has ended; the destructor, on every path (a failure of "
           "one step included), leaves raw mode and undoes every mode that was set; nothing switches the guard off, forgets it or exits the process")
    enters = [b for b in P.fns(crate="textual") if any(c.name == "enable_raw_mode" for c in b.calls())]
    R.floor("raw", len(enters), 1, "functions that enter raw mode")
    # guards: types with a destructor that leaves raw mode
    guards = {}
    for i in P.impls:
        if i.get("trait") == "std::ops::Drop" and i.get("crate") == "textual":
            d = P.bodies.get(i["methods"].get("drop"))
            if d is not None and reaches(P, d, lambda c: c.name == "disable_raw_mode"):
                guards[i["adt"]] = d
    R.floor("guards", len(guards), 1, "types whose destructor leaves raw mode")
    need = set()
    active = {}
    for b in enters:
        R.fn(b)
        need |= {UNDO[n] for n, bb in commands(P, b) if n in UNDO}
        entered(P, R, b, guards, active)
    for a, d in guards.items():
        R.fn(d)
        restored(P, R, a, d, need, active.get(a, {}))
    others(P, R, guards, active)


def reaches(P, b, pred, seen=None):
    seen = seen if seen is not None else set()
    if b.id in seen:
        return False
    seen.add(b.id)
    for c in b.calls():
        if pred(c):
            return True
        cb = P.bodies.get(c.callee_id)
        if cb is not None and reaches(P, cb, pred, seen):
            return True
        for g in c.fn.get("gfn", []) if c.fn else []:
            gb = P.bodies.get(g)
            if gb is not None and reaches(P, gb, pred, seen):
                return True
    return False


def entered(P, R, b, guards, active):
    """typestate: free -> raw (entered, unguarded) -> guarded -> given back"""
    r = Raw(P, b)
    gl = {i for i, l in enumerate(b.locals) if l[2] in guards}
    # the guard of a coroutine lives in its saved state
    made = {}
    for bb in b.reach:
        for i, s in enumerate(b.blocks[bb]["s"]):
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] in guards:
                made.setdefault(bb, []).append((i, s[2][2], dict(zip(s[2][4], s[2][5])), repr(Place(s[1]))))
    ctor = {}
    for c in b.calls():
        cb = P.bodies.get(c.callee_id)
        if cb is not None and cb.locals[0][2] in guards:
            ctor[c.bb] = cb
            R.ob("made:enters", not any(x.name == "enable_raw_mode" for x in cb.calls()), "", b.where())
    for bb, ms in made.items():
        for i, a, fs, pl in ms:
            active.setdefault(a, {}).update({k: v[1].get("v") for k, v in fs.items() if v[0] == "k"})
    for bb, cb in ctor.items():
        for x, i, pl, rv, ln in cb.assigns():
            if rv[0] == "agg" and rv[2] in guards:
                active.setdefault(rv[2], {}).update({k: v[1].get("v") for k, v in zip(rv[4], rv[5]) if v[0] == "k"})
    R.ob("guard:made", bool(made) or bool(ctor), "raw mode is entered without a guard that leaves it again", b.where())
    raw = {c.bb for c in b.calls() if c.name == "enable_raw_mode"}
    bad = {}
    seen, st = set(), [(0, "free", False)]
    gplaces = {m[3] for ms in made.values() for m in ms} | {repr(r.by[x].dest) for x in ctor}
    # a move of the guard into its final place is the guard
    ch = True
    while ch:
        ch = False
        for bb, i, pl, rv, ln in b.assigns():
            if rv[0] == "use" and rv[1][0] == "m" and repr(Place(rv[1][1])) in gplaces and repr(pl) not in gplaces:
                gplaces.add(repr(pl))
                ch = True
    while st:
        bb, s0, _ = x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        s = s0
        for i, q in enumerate(b.blocks[bb]["s"]):
            for mi, a, fs, pl in made.get(bb, []):
                if mi == i:
                    s = "guarded"
        w = r.waits(bb)
        if w is not None and s in ("raw", "back"):
            bad.setdefault("wait:" + s, bb)
        t = b.term(bb)
        c = r.by.get(bb)
        if t[0] == "return" and w is None and s == "raw":
            bad.setdefault("return:raw", bb)
        nxt = r.succs(bb)
        if c is not None:
            cb = P.bodies.get(c.callee_id)
            if bb in raw:
                ok, err = result_edges(b, c)
                for y in ok:
                    st.append((y, "raw" if s != "guarded" else "guarded", False))
                for y in err:
                    st.append((y, s, False))
                continue
            if bb in ctor:
                s = "guarded"
            elif c.name in ("forget",) or "ManuallyDrop" in (c.path or ""):
                if any(a[0] == "m" and repr(Place(a[1])) in gplaces for a in c.args):
                    bad.setdefault("forget", bb)
            elif any(a[0] in "cm" and (aliases(r, a, gplaces) or re.sub(r"^&('\w+ )?(mut )?", "", b.locals[a[1][0]][0]) in guards) for a in c.args):
                # a method of the guard, or a drop: gives back if it can leave raw mode
                if cb is not None and reaches(P, cb, lambda c2: c2.name == "disable_raw_mode") or c.name == "drop":
                    s = "back"
            elif s == "raw" and c.name not in PLUMB:
                bad.setdefault("call:" + c.name, bb)
            elif s == "back" and c.name not in PLUMB:
                bad.setdefault("after:" + c.name, bb)
        elif t[0] == "drop" and repr(Place(t[1])) in gplaces:
            s = "back"
        for y in nxt:
            st.append((y, s, False))
    R.count("states", len(seen))
    for k in sorted(bad):
        h, _, n = k.partition(":")
        R.ob("guard:%s" % k, False,
             {"call": "%s is called in raw mode before the guard exists: if it fails or panics the terminal stays in raw mode" % n, "return": "the function can return in raw mode without a guard",
              "wait": "the app can wait %s" % ("in raw mode before the guard exists" if n == "raw" else "after the terminal was given back"), "after": "%s is called after the terminal was given back" % n,
              "forget": "the guard is forgotten: its destructor does not run"}[h], b.where())
    R.ob("guard:states", not bad, "the guard does not cover all of the app's run", b.where())
    # the app runs while guarded
    runs = [(bb, s) for bb, s, _ in seen if bb in r.by and r.by[bb].trait and r.by[bb].trait.endswith("::App") and r.by[bb].name not in PLUMB]
    R.ob("guard:covers", bool(runs) and all(s == "guarded" for bb, s in runs), "the app's loop does not run under the guard", b.where())


def aliases(r, a, gplaces):
    p = r.resolve(a)
    if p[0] == "place" and p[1].lstrip("&") in gplaces:
        return True
    return repr(Place(a[1])) in gplaces


def result_edges(b, c):
    """(ok edges, error edges) after a call that answers Result: the blocks entered on each, through the ? operator"""
    tgt = c.target
    seen = set()
    st = [(tgt, repr(c.dest))]
    while st:
        bb, v = st.pop()
        if bb in seen:
            continue
        seen.add(bb)
        disc = {}
        cur = {v}
        for s in b.blocks[bb]["s"]:
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in "cm" and repr(Place(s[2][1][1])) in cur:
                cur.add(repr(Place(s[1])))
            if s[0] == "=" and s[2][0] == "disc" and repr(Place(s[2][1])) in cur:
                disc[repr(Place(s[1]))] = 1
        t = b.term(bb)
        if t[0] == "switch" and t[1][0] in "cm" and repr(Place(t[1][1])) in disc:
            ok = [x for y, x in t[2] if int(y) == 0]
            err = [x for y, x in t[2] if int(y) != 0] or ([t[3]] if ok else [])
            ok = ok or [t[3]]
            return ok, err
        if t[0] == "call" and t[1][0] == "k" and t[1][1].get("fn", {}).get("name") == "branch":
            st.append((t[4], repr(Place(t[3]))))
        elif t[0] == "goto":
            for x in cur:
                st.append((t[1], x))
    return [tgt], []


def restored(P, R, adt, d, need, vals):
    """the destructor, with what it calls on the guard, leaves raw mode and undoes the modes on every path"""
    b = d
    for _ in range(4):       # follow a destructor that only calls another method
        cs = [c for c in b.calls() if P.bodies.get(c.callee_id) is not None and reaches(P, P.bodies[c.callee_id], lambda x: x.name == "disable_raw_mode")]
        if cs and not any(c.name == "disable_raw_mode" for c in b.calls()):
            R.ob("restore:called", every_path(Raw(P, b), {c.bb for c in cs}), "the destructor can end without giving the terminal back", b.where())
            b = P.bodies[cs[0].callee_id]
            R.fn(b)
        else:
            break
    r = Raw(P, b)
    # ways round that the guard's own state, as it is made, rules out
    cut = set()
    for bb in b.reach:
        t = b.term(bb)
        if t[0] == "switch" and t[1][0] in "cm":
            fld, neg = bool_field(r, t[1], adt)
            if fld is not None and fld in vals:
                want = vals[fld] ^ neg
                for v, x in t[2]:
                    if (int(v) != 0) != want:
                        cut.add((bb, x))
                if not any(int(v) != 0 for v, _ in t[2]) and not want:
                    cut.add((bb, t[3]))

    def must(blocks):
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            if x in blocks:
                continue
            if b.term(x)[0] == "return":
                return False
            for s in b.succs(x):
                if (x, s) not in cut and s not in seen:
                    seen.add(s)
                    st.append(s)
        return True
    R.ob("restore:raw mode", must({c.bb for c in b.calls() if c.name == "disable_raw_mode"}), "the terminal can be left in raw mode when the guard is dropped (some path, or a failure on the way, skips leaving it)", b.where())
    cm = commands(P, b)
    R.floor("modes", len(need), 3, "modes set that must be undone")
    for n in sorted(need):
        R.ob("restore:%s" % n, must({bb for m, bb in cm if m == n}), "%s is not sent on every path when the guard is dropped" % n, b.where())
    R.count("undone", len(need))


def bool_field(r, op, adt):
    """(field of the guard a switch is on, negated)"""
    neg = False
    for _ in range(6):
        v = r.resolve(op, thru=PASS + ("take", "replace", "swap"))
        if v[0] == "rv" and v[1][0] == "un" and v[1][1] == "Not":
            neg = not neg
            op = v[1][2]
            continue
        if v[0] == "rv" and v[1][0] == "bin" and v[1][1] in ("Eq", "Ne"):
            k = [o for o in v[1][2:4] if o[0] == "k" and isinstance(o[1].get("v"), bool)]
            q = [o for o in v[1][2:4] if o[0] != "k"]
            if len(k) == 1 and len(q) == 1:
                neg ^= (k[0][1]["v"] == (v[1][1] == "Ne"))
                op = q[0]
                continue
        if v[0] == "place":
            m = re.match(r"^&?\(\*_1\)\.(\w+)$", v[1])
            if m:
                return m.group(1), neg
        return None, neg
    return None, neg


def others(P, R, guards, active):
    n = 0
    for b in P.fns(crate="textual"):
        for c in b.calls():
            if c.path and c.path in ("std::process::exit", "std::process::abort"):
                R.ob("exit:%s" % b.path.split("::")[-1], False, "%s ends the process, so the guard's destructor does not run" % b.path.split("::")[-1], c.where())
            if c.name == "forget" and c.args and c.args[0][0] in "cm" and b.locals[c.args[0][1][0]][2] in guards:
                R.ob("forget:%s" % b.path.split("::")[-1], False, "the guard is forgotten", c.where())
        n += 1
        if any(x.name == "disable_raw_mode" for x in b.calls()):
            continue
        for bb, i, pl, rv, ln in b.assigns():
            for e in pl.p:
                if e[0] == "f" and e[3] in guards:
                    R.ob("switched off:%s" % b.path.split("::")[-1], False, "%s changes the guard's state so that it may not give the terminal back" % b.path.split("::")[-1], b.where())
    R.count("functions searched", n)


def every_path(r, blocks):
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        if b in blocks:
            continue
        if r.b.term(b)[0] == "return":
            return False
        for s in r.b.succs(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    return True
