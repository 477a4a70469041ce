"""helpers on plain MIR: resolving operands, coroutines with their resume edges"""
from rules.common import *

PASS = ("clone", "as_deref", "deref", "as_ref", "as_mut", "into_future", "new_unchecked", "branch", "into", "to_owned", "to_string", "borrow", "deref_mut", "cloned")


class Raw:
    def __init__(self, P, b):
        self.P, self.b = P, b
        self.by = {c.bb: c for c in b.calls()}
        self.defs = {}
        for bb, i, pl, rv, ln in b.assigns():
            self.defs.setdefault(repr(pl), []).append((bb, i, rv))
        for c in self.by.values():
            self.defs.setdefault(repr(c.dest), []).append((c.bb, 10 ** 6, ("call", c)))
        self.entry = None
        t = b.term(0)
        if t[0] == "switch":
            for s in b.blocks[0]["s"]:
                if s[0] == "=" and s[2][0] == "disc" and s[2][1][1] == ["*"]:
                    self.entry = {int(x[0]): x[1] for x in t[2]}

    def waits(self, bb):
        """the state a coroutine is left in by this block, or None"""
        if self.entry is None or self.b.term(bb)[0] != "return":
            return None
        for s in self.b.blocks[bb]["s"]:
            if s[0] == "sd" and s[2] > 2:
                return s[2]
        return None

    def succs(self, bb):
        if self.entry is not None:
            if bb == 0:
                return [self.entry[0]]
            w = self.waits(bb)
            if w is not None:
                return [self.entry[w]]
        return self.b.succs(bb)

    def resolve(self, op, seen=(), thru=PASS):
        """('k', c) | ('place', repr) | ('call', Call) | ('rv', rvalue): where a value comes from, through copies, borrows and clones"""
        if op[0] == "k":
            return ("k", op[1])
        return self.place(repr(Place(op[1])), Place(op[1]), seen, thru)

    def place(self, p, pl, seen=(), thru=PASS):
        if p in seen:
            return ("place", p)
        d = self.defs.get(p, [])
        if d and self.entry is None and re.match(r"^\(\*_\d+\)\.", p):      # memory that is changed: not the same value everywhere
            return ("place", p)
        if len(d) > 1:                      # drop flags and slots reused: the value assigned last decides only if unique
            return ("place", p)
        if not d:
            # a projection of something that has a definition
            if pl.p and not (pl.p[0] == "*" and len(pl.p) > 1 and False):
                m = re.match(r"^\(\*(_\d+)\)(.*)$", p)
                if m:
                    q = self.place(m.group(1), Place([int(m.group(1)[1:]), []]), seen + (p,), thru)
                    if q[0] == "place":
                        r = q[1]
                        return ("place", ("(*%s)%s" % (r, m.group(2))) if not r.startswith("&") else r[1:] + m.group(2))
                    if q[0] == "call" and not m.group(2):
                        return q
                m = re.match(r"^(_\d+)((\.|<).*)$", p)
                if m:
                    q = self.place(m.group(1), Place([int(m.group(1)[1:]), []]), seen + (p,), thru)
                    if q[0] == "place":
                        return ("place", q[1] + m.group(2))
                    if q[0] == "call":
                        return ("of", q[1], m.group(2))
            return ("place", p)
        bb, i, rv = d[0]
        if rv[0] == "call":
            c = rv[1]
            if c.name in thru and c.args:
                return self.resolve(c.args[0], seen + (p,), thru)
            cb = self.P.bodies.get(c.callee_id)
            if cb is not None and cb.argc == 1 and len(cb.blocks) < 12 and c.args and "&mut" not in cb.locals[1][0]:     # a getter
                g = Raw(self.P, cb).place("_0", Place([0, []]))
                if g[0] == "place" and re.match(r"^&?\(\*_1\)[.\w<>]*$", g[1]):
                    a = self.resolve(c.args[0], seen + (p,), thru)
                    if a[0] == "place":
                        t = a[1].lstrip("&")
                        return ("place", g[1].replace("(*_1)", t if a[1].startswith("&") else "(*%s)" % t))
            return ("call", c)
        if rv[0] == "use":
            return self.resolve(rv[1], seen + (p,), thru)
        if rv[0] == "ref":
            r = self.place(repr(Place(rv[2])), Place(rv[2]), seen + (p,), thru)
            return ("place", "&" + r[1]) if r[0] == "place" and not r[1].startswith("&") else r
        if rv[0] == "cast":
            return self.resolve(rv[2], seen + (p,), thru)
        return ("rv", rv)


def bare(x):
    return x[1].lstrip("&") if x[0] == "place" else None


def top_args(ty):
    """top-level generic arguments of a type string"""
    i = ty.find("<")
    # the last path segment's arguments
    depth, out, cur, segs = 0, [], "", []
    j = len(ty) - 1
    if not ty.endswith(">"):
        return []
    d = 0
    for k in range(j, -1, -1):
        if ty[k] == ">" and (k == 0 or ty[k - 1] not in "-="):
            d += 1
        elif ty[k] == "<":
            d -= 1
            if d == 0:
                i = k
                break
    body = ty[i + 1:-1]
    for ch_i, ch in enumerate(body):
        if ch in "<([":
            depth += 1
        elif ch in ")]" or ch == ">" and body[ch_i - 1] not in "-=":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
