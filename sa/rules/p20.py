"""P20  Timers fire once, intervals tick until cancelled, and nothing is sent afterwards."""
from rules.raw import *

SEND = "tokio::sync::mpsc::UnboundedSender"


def sends(c):
    return c.name == "send" and c.path and c.path.startswith(SEND)


def check(P, R):
    R.rule("per spawned task a typestate over its coroutine, through every await: a one-shot sends exactly once and only after its sleep; an interval sends exactly one message per tick and none once cancelled, "
           "and looks at the cancellation before the tick; delay, period, message and sender are the ones the caller gave; cancelling and dropping the handle signal the task; the other contexts hand their calls on unchanged")
    ctx = {(b.self_adt or "") for b in P.fns(crate="textual") if b.name == "post" and b.kind != "closure" and any(sends(c) for c in b.calls())}
    R.floor("context", len(ctx), 1, "types that post messages")
    one = per = 0
    for b in P.fns(crate="textual"):
        if b.self_adt not in ctx or b.kind == "closure":
            continue
        r = Raw(P, b)
        if b.name == "post":
            R.fn(b)
            cs = [c for c in b.calls() if sends(c)]
            R.ob("post:once", len(cs) == 1 and every_path(r, {cs[0].bb}), "post does not send the message exactly once on every path", b.where())
            if cs:
                envelope(P, R, r, cs[0], b, None, None)
        for k in P.closures_of(b):
            if not k.coroutine:
                continue
            rk = Raw(P, k)
            if not any(sends(c) for c in k.calls()):
                continue
            R.fn(b)
            R.fn(k)
            ag = capture(b, k)
            R.ob("task:%s" % b.name, ag is not None and any(c.name == "spawn" for c in b.calls()), "%s does not start the task it builds" % b.name, b.where())
            if ag is None:
                continue
            if any(c.name == "tick" for c in k.calls()):
                per += 1
                interval(P, R, r, rk, ag)
            elif any(c.name == "sleep" for c in k.calls()):
                one += 1
                timer(P, R, r, rk, ag)
            else:
                R.ob("task:kind:%s" % b.name, False, "%s starts a task that neither sleeps nor ticks before it sends" % b.name, b.where())
    R.floor("timers", one, 1, "one-shot timers")
    R.floor("intervals", per, 1, "repeating intervals")
    handle(P, R)
    delegates(P, R, ctx)


def capture(b, k):
    for bb, i, pl, rv, ln in b.assigns():
        if rv[0] == "agg" and rv[1] in ("coroutine", "closure") and rv[2] == k.id:
            return dict(zip(rv[4], rv[5]))
    return None


def every_path(r, blocks):
    """every path to a return passes one of the blocks"""
    seen, st = {0}, [0]
    while st:
        b = st.pop()
        if b in blocks:
            continue
        if r.b.term(b)[0] == "return" and r.waits(b) is None:
            return False
        for s in r.succs(b):
            if s not in seen:
                seen.add(s)
                st.append(s)
    return True


def upvar(p):
    """name of the captured variable a place in a coroutine denotes"""
    if p is None:
        return None
    m = re.match(r"^\(\*_\d+(?:\.pointer)?\)\.(\w+)$", p)
    return m.group(1) if m else None


def outer(r, ag, name, what):
    """what the enclosing function captured under a name"""
    if name not in ag:
        return None
    return bare(r.resolve(ag[name]))


def argof(b, p):
    m = re.match(r"^_(\d+)$", p or "")
    return int(m.group(1)) if m and 1 <= int(m.group(1)) <= b.argc else None


def envelope(P, R, r, c, b, rk, ag):
    """the envelope sent holds the caller's message and the context's sender"""
    q = rk or r
    v = q.resolve(c.args[1])
    ok = v[0] == "call" and v[1].name == "new" and "MessageEnvelope" in (v[1].path or "") and len(v[1].args) == 3
    R.ob("envelope:%s" % b.name, ok, "%s sends something other than a new envelope" % b.name, b.where())
    if not ok:
        return

    def back(x):
        p = bare(x)
        if rk is None:
            return p
        u = upvar(p)
        return outer(r, ag, u, "") if u else None
    m = q.resolve(v[1].args[0])
    if m[0] == "call":          # made by the caller's function, once per message
        ok = m[1].name in ("call", "call_mut", "call_once") and argof(b, back(q.resolve(m[1].args[0]))) is not None
    else:
        ok = argof(b, back(m)) is not None
    R.ob("message:%s" % b.name, ok, "%s sends a message other than the one it was given" % b.name, b.where())
    for i, nm in ((1, "sender_id"), (2, "sender_type")):
        p = back(q.resolve(v[1].args[i]))
        R.ob("sender:%s:%s" % (b.name, nm), p == "(*_1).%s" % nm, "%s sends with another %s than the context's" % (b.name, nm), b.where())
    # through the context's own channel
    s = back(q.resolve(c.args[0]))
    R.ob("channel:%s" % b.name, s == "(*_1).sender", "%s sends through another channel than the context's" % b.name, b.where())


def ready_edges(r, pred):
    """edges taken when an awaited future accepted by pred is done"""
    out = set()
    for c in r.by.values():
        if c.name != "poll" or not pred(c):
            continue
        for s in [c.target]:
            t = r.b.term(s)
            if t[0] == "switch":
                for v, x in t[2]:
                    if int(v) == 0:
                        out.add((s, x))
    return out


def fut_ty(c):
    return (c.self_ty or "") + " " + " ".join(c.body.locals[a[1][0]][0] for a in c.args if a[0] in ("c", "m"))


def timer(P, R, r, rk, ag):
    b, k = r.b, rk.b
    slp = [c for c in k.calls() if c.name == "sleep"]
    ok = False
    for c in slp:
        u = upvar(bare(rk.resolve(c.args[0])))
        a = argof(b, outer(r, ag, u, "")) if u else None
        ok = a is not None and "Duration" in b.locals[a][0]
    R.ob("delay:%s" % b.name, len(slp) == 1 and ok, "%s does not wait for exactly the delay given" % b.name, b.where())
    done = ready_edges(rk, lambda c: "Sleep" in fut_ty(c) or "sleep" in fut_ty(c))
    R.ob("await:%s" % b.name, bool(done), "%s does not await its sleep" % b.name, b.where())
    sb = {c.bb for c in k.calls() if sends(c)}
    bad = set()
    seen, st = {(0, 0, 0)}, [(0, 0, 0)]
    while st:
        bb, w, n = st.pop()
        if bb in sb:
            if not w:
                bad.add("before its delay has passed")
            n = min(n + 1, 2)
            if n > 1:
                bad.add("more than once")
        if k.term(bb)[0] == "return" and rk.waits(bb) is None and n == 0:
            bad.add("not at all on some path")
        for s in rk.succs(bb):
            x = (s, 1 if (bb, s) in done else w, n)
            if x not in seen:
                seen.add(x)
                st.append(x)
    R.count("task states", len(seen))
    for t in ("before its delay has passed", "more than once", "not at all on some path"):
        R.ob("once:%s:%s" % (b.name, t.split()[0]), t not in bad, "the timer of %s sends its message %s" % (b.name, t), k.where())
    for c in k.calls():
        if sends(c):
            envelope(P, R, r, c, b, rk, ag)


def interval(P, R, r, rk, ag):
    b, k = r.b, rk.b
    mk = [c for c in k.calls() if c.name in ("interval_at", "interval")]
    ok = first = False

    def dur(op):
        u = upvar(bare(rk.resolve(op)))
        a = argof(b, outer(r, ag, u, "")) if u else None
        return a is not None and "Duration" in b.locals[a][0]
    for c in mk:
        ok = dur(c.args[-1])
        if c.name == "interval_at":
            v = None
            for d in rk.defs.get(repr(Place(c.args[0][1])), []):
                v = rk.resolve(c.args[0])
            v = rk.resolve(c.args[0])
            if v[0] == "place":     # a slot that is used again later: the definition in front of the call
                ds = [d for d in rk.defs.get(v[1], []) if d[2][0] == "call" and d[2][1].name == "add"]
                v = ("call", ds[0][2][1]) if len(ds) == 1 else v
            first = v[0] == "call" and v[1].name == "add" and any(rk.resolve(a)[0] == "call" and rk.resolve(a)[1].name == "now" for a in v[1].args) and any(dur(a) for a in v[1].args)
    R.ob("period:%s" % b.name, len(mk) == 1 and ok, "%s does not tick with exactly the period given" % b.name, b.where())
    R.ob("first:%s" % b.name, len(mk) == 1 and first, "the first message of %s does not come one period after the call" % b.name, b.where())
    # select: which outcome is the cancellation
    cancel_ix = {}
    for bb in k.reach:
        for s in k.blocks[bb]["s"]:
            if s[0] == "=" and s[2][0] == "disc":
                ty = k.locals[s[2][1][0]][0]
                if "__tokio_select" in ty and not s[2][1][1]:
                    a = top_args(ty)
                    cx = [i for i, x in enumerate(a) if "oneshot" in x]
                    tk = [i for i, x in enumerate(a) if "Instant" in x]
                    if len(cx) == 1 and len(tk) == 1:
                        cancel_ix[(bb, s[1][0])] = (cx[0], tk[0])
    sel = {}
    for (bb, l), (cx, tk) in cancel_ix.items():
        t = k.term(bb)
        if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1][0] == l:
            for v, x in t[2]:
                if int(v) == cx:
                    sel[(bb, x)] = "cancelled"
                elif int(v) == tk:
                    sel[(bb, x)] = "ticked"
    R.ob("select:%s" % b.name, "cancelled" in sel.values() and "ticked" in sel.values(), "%s: a wait for both the tick and the cancellation was not found" % b.name, k.where())
    sb = {c.bb for c in k.calls() if sends(c)}
    polls = [x for x in P.closures_of(k) if any(c.name == "poll" and "oneshot" in fut_ty(c) for c in x.calls())]
    tries = {c.bb for c in k.calls() if c.name in ("try_recv", "is_closed") and "oneshot" in fut_ty(c)}
    bias = all(first_polled(P, x) for x in polls) and polls
    R.ob("cancel:first:%s" % b.name, bool(bias) or bool(tries), "%s may send one more message when a tick is due at the moment it is cancelled (the tick can be looked at before the cancellation)" % b.name, k.where())
    bad = set()
    seen, st = {(0, "start", 0, 0)}, [(0, "start", 0, 0)]
    while st:
        bb, s0, n, tr = st.pop()
        if bb in tries:
            tr = 1
        if bb in sb:
            if s0 != "ticked":
                bad.add("after it was cancelled" if s0 == "cancelled" else "without a tick")
            if not bias and not tr:
                bad.add("after it was cancelled")
            n = min(n + 1, 2)
            if n > 1:
                bad.add("twice for one tick")
        w = rk.waits(bb)
        if w is not None:
            if s0 == "ticked" and n == 0:
                bad.add("not for every tick")
            if s0 == "cancelled":
                bad.add("on after it was cancelled")
        for s in rk.succs(bb):
            x = (s, sel.get((bb, s), s0), 0 if (bb, s) in sel else n, tr)
            if w is not None:
                x = (s, "waiting", 0, 0)
            if x not in seen:
                seen.add(x)
                st.append(x)
    R.count("task states", len(seen))
    for t in ("after it was cancelled", "without a tick", "twice for one tick", "not for every tick", "on after it was cancelled"):
        R.ob("ticks:%s:%s" % (b.name, t.replace(" ", "_")), t not in bad, "the interval of %s %s %s" % (b.name, "goes" if t[:2] == "on" else "sends", t), k.where())
    for c in k.calls():
        if sends(c):
            envelope(P, R, r, c, b, rk, ag)
    # the handle returned can cancel this very task
    ok = False
    for bb, i, pl, rv, ln in b.assigns():
        if rv[0] == "agg" and rv[1] == "adt" and pl.l == 0:
            for f, o in zip(rv[4], rv[5]):
                p = r.resolve(o)
                if p[0] == "rv" and p[1][0] == "agg" and p[1][3] == "Some":
                    p = r.resolve(p[1][5][0])
                tx = p
                rxs = [r.resolve(o2) for n2, o2 in ag.items()]
                for rx in rxs:
                    if tx[0] == "of" and rx[0] == "of" and tx[1].bb == rx[1].bb and tx[1].name == "channel" and tx[2] == ".0" and rx[2] == ".1":
                        ok = True
    R.ob("handle:%s" % b.name, ok, "the handle %s returns does not cancel the interval it started" % b.name, b.where())


def first_polled(P, x):
    """the cancellation is the first future this select polls, every time"""
    if any("rng" in (c.name or "") or "rand" in (c.path or "") for c in x.calls()):
        return False
    # start at branch 0, and branch 0 polls the receiver
    for bb in sorted(x.reach):
        t = x.term(bb)
        if t[0] != "switch" or len(t[2]) < 2 or t[1][0] not in ("c", "m"):
            continue
        if "u32" not in x.locals[t[1][1][0]][0]:
            continue
        to = [y for v, y in t[2] if int(v) == 0]
        if not to:
            continue
        seen, st, hit = set(to), list(to), None
        by = {c.bb: c for c in x.calls()}
        while st:
            y = st.pop(0)
            if y in by and by[y].name == "poll":
                hit = by[y]
                break
            if y in by and by[y].name == "next":
                continue
            for s in x.succs(y):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return hit is not None and "oneshot" in fut_ty(hit)
    return False


def handle(P, R):
    n = 0
    for p, a in P.adts.items():
        if not a.get("variants"):
            continue
        fs = a["variants"][0][1]
        tx = [x[0] for x in fs if "oneshot::Sender" in x[1]]
        if not tx:
            continue
        n += 1
        fld = tx[0]
        ms = [b for b in P.fns(crate="textual") if b.self_adt == p and b.kind != "closure"]
        cancels = [b for b in ms if any(c.name == "send" and "oneshot" in (c.path or "") for c in b.calls())]
        R.ob("cancel:exists", bool(cancels), "the handle cannot signal its task", "")
        for b in cancels:
            R.fn(b)
            f = flow(P, b)
            ok, cnt = True, 0
            sb = {c.bb for c, args, fs2 in f.calls() if c.name == "send" and "oneshot" in (c.path or "")}
            # the only way around sending is that there is nothing left to send with
            nb = f.b
            seen, st = {0}, [0]
            while st:
                bb = st.pop()
                if bb in sb:
                    continue
                if nb.term(bb)[0] == "return":
                    facts = f.infacts.get(bb) or ()
                    cnt += 1
                    if not none_here(facts, fld):
                        ok = False
                    continue
                for s in nb.succs(bb):
                    if none_edge(f, bb, s, fld):
                        continue
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            ok = ok and not any(c.name in ("forget", "leak") or c.name == "new" and "ManuallyDrop" in (c.path or "") for c in b.calls())
            R.ob("cancel:signals", ok, "%s can return without signalling the task it was to end" % b.path.split("::")[-1], b.where())
        dr = [b for b in ms if b.of_trait == "std::ops::Drop"]
        R.ob("cancel:drop", any(any(c.callee_id in [x.id for x in cancels] or (c.name == "send" and "oneshot" in (c.path or "")) for c in b.calls()) and
                                every_path(Raw(P, b), {c.bb for c in b.calls() if c.callee_id in [x.id for x in cancels] or c.name == "send"}) for b in dr) or
             not dr and False or not dr, "dropping the handle does not end the interval", dr[0].where() if dr else "")
    R.floor("handle", n, 1, "handles of intervals")


def none_here(facts, fld):
    return False


def none_edge(f, bb, s, fld):
    """edge on which the option holding the sender is None"""
    for x in f.edgefacts.get((bb, s), ()):
        t = str(x)
        if fld in t and "None" in t:
            return True
    return False


def delegates(P, R, ctx):
    names = {b.name for b in P.fns(crate="textual") if b.self_adt in ctx and b.kind != "closure" and b.name in ("post", "set_timer", "set_interval")}
    n = 0
    for b in P.fns(crate="textual"):
        if b.kind == "closure" or b.name not in names or b.self_adt in ctx or not b.self_adt:
            continue
        n += 1
        R.fn(b)
        r = Raw(P, b)
        cs = [c for c in b.calls() if c.name == b.name]
        ok = len(cs) == 1 and every_path(r, {cs[0].bb}) and all(argof(b, bare(r.resolve(a))) == i + 2 for i, a in enumerate(cs[0].args[1:]))
        R.ob("hand on:%s:%s" % (short(b.self_adt), b.name), ok, "%s::%s does not hand the call on to its context exactly once, with its own arguments" % (short(b.self_adt), b.name), b.where())
    R.count("delegates", n)
