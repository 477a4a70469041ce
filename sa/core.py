"""Program model over the MIR facts dumped by /verif/driver.

Bodies are MIR after drop elaboration (drop flags resolved, coroutines not yet
lowered), with resolved callees.  Everything here is source-derived: nothing of
/repo is executed.
"""
import json, os, glob, re
from functools import lru_cache


class Place:
    __slots__ = ("l", "p")

    def __init__(self, raw):
        self.l = raw[0]
        self.p = raw[1]

    def fields(self):
        """names of the field projections, in order (derefs, downcasts skipped)"""
        return [e[2] for e in self.p if e[0] == "f"]

    def owners(self):
        return [(e[3], e[2]) for e in self.p if e[0] == "f"]

    def __repr__(self):
        s = "_%d" % self.l
        for e in self.p:
            if e == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += "." + e[2]
            elif e[0] == "i":
                s += "[_%d]" % e[1]
            elif e[0] == "v":
                s += "<%s>" % e[2]
            elif e[0] == "ci":
                s += "[%s%d]" % ("-" if e[2] else "", e[1])
            elif e[0] == "ss":
                s += "[%d..%d%s]" % (e[1], e[2], "e" if e[3] else "")
            else:
                s += "?"
        return s


class Body:
    def __init__(self, raw, krate):
        self.raw = raw
        self.krate = krate
        self.id = raw["id"]
        self.path = raw["path"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.kind = raw["kind"]
        self.argc = raw["argc"]
        self.name = raw.get("name")
        self.self_adt = raw.get("self_adt")
        self.self_ty = raw.get("self_ty")
        self.of_trait = raw.get("of_trait")
        self.in_trait = raw.get("in_trait")
        self.parent = raw.get("parent")
        self.coroutine = raw.get("coroutine", False)
        self.pub = raw.get("pub", False)
        self.promoted = raw.get("promoted")
        self.locals = raw["locals"]
        self.blocks = raw["blocks"]
        self._succ = None
        self._defs = None

    # -- CFG ---------------------------------------------------------------
    def term(self, b):
        return self.blocks[b]["t"]

    def succs(self, b, unwind=False):
        t = self.term(b)
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [x[1] for x in t[2]]
            r.append(t[3])
            return r
        if k == "drop":
            r = [t[2]]
            if unwind and t[3] is not None:
                r.append(t[3])
            return r
        if k == "call":
            r = [t[4]] if t[4] is not None else []
            if unwind and t[5] is not None:
                r.append(t[5])
            return r
        if k == "assert":
            r = [t[5]]
            if unwind and t[6] is not None:
                r.append(t[6])
            return r
        if k == "yield":
            r = [t[2]]
            if unwind and t[3] is not None:
                r.append(t[3])
            return r
        return []

    @property
    def reach(self):
        """blocks reachable from entry on non-unwinding edges"""
        if not hasattr(self, "_reach"):
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for s in self.succs(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    def preds(self, unwind=False):
        key = "_pred%d" % unwind
        if not hasattr(self, key):
            p = {b: [] for b in range(len(self.blocks))}
            for b in range(len(self.blocks)):
                for s in self.succs(b, unwind):
                    p[s].append(b)
            setattr(self, key, p)
        return getattr(self, key)

    def dominators(self):
        """dom[b] = set of blocks dominating b (normal edges)"""
        if hasattr(self, "_dom"):
            return self._dom
        R = self.reach
        order = self.rpo()
        pr = self.preds()
        dom = {b: None for b in R}
        dom[0] = {0}
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in pr[b] if p in R and dom[p] is not None]
                if not ps:
                    continue
                n = set.intersection(*ps) | {b}
                if n != dom[b]:
                    dom[b] = n
                    changed = True
        self._dom = dom
        return dom

    def rpo(self):
        if hasattr(self, "_rpo"):
            return self._rpo
        seen = set()
        out = []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        self._rpo = out
        return out

    # -- statements ---------------------------------------------------------
    def assigns(self):
        """yield (bb, idx, Place, rvalue, line) on reachable blocks"""
        for b in sorted(self.reach):
            for i, s in enumerate(self.blocks[b]["s"]):
                if s[0] == "=":
                    yield b, i, Place(s[1]), s[2], s[3]

    def calls(self, unwind=False):
        rng = range(len(self.blocks)) if unwind else sorted(self.reach)
        for b in rng:
            t = self.term(b)
            if t[0] == "call":
                yield Call(self, b, t)

    def drops(self, unwind=False):
        rng = range(len(self.blocks)) if unwind else sorted(self.reach)
        for b in rng:
            t = self.term(b)
            if t[0] == "drop":
                yield b, Place(t[1]), t[4], t[5]

    def local_ty(self, l):
        return self.locals[l][0]

    def local_adt(self, l):
        return self.locals[l][2]

    def local_name(self, l):
        return self.locals[l][1]

    def where(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)

    @property
    def defs(self):
        """local -> list of definitions.
        definition: (bb, idx, 'rv', rvalue) | (bb, None, 'call', Call) for whole-local
        assignments; (bb, idx, 'part', Place, rvalue) for assignments into a projection."""
        if self._defs is None:
            d = {}
            for b, i, pl, rv, _l in self.assigns():
                if not pl.p:
                    d.setdefault(pl.l, []).append((b, i, "rv", rv))
                else:
                    d.setdefault(pl.l, []).append((b, i, "part", pl, rv))
            for c in self.calls():
                if not c.dest.p:
                    d.setdefault(c.dest.l, []).append((c.bb, None, "call", c))
                else:
                    d.setdefault(c.dest.l, []).append((c.bb, None, "partcall", c.dest, c))
            for b in self.reach:
                t = self.term(b)
            self._defs = d
        return self._defs

    @property
    def short(self):
        """diagnostic name: last components of the pretty path"""
        return self.path


class Call:
    __slots__ = ("body", "bb", "t", "dest", "target", "line", "args", "fn")

    def __init__(self, body, bb, t):
        self.body = body
        self.bb = bb
        self.t = t
        self.args = t[2]
        self.dest = Place(t[3])
        self.target = t[4]
        self.line = t[6]
        f = t[1]
        self.fn = f[1].get("fn") if f[0] == "k" else None

    @property
    def name(self):
        return self.fn.get("name") if self.fn else None

    @property
    def path(self):
        return self.fn["path"] if self.fn else None

    @property
    def callee_id(self):
        """id of the concretely resolved callee, if known"""
        if not self.fn:
            return None
        if "res" in self.fn:
            return self.fn["res"]
        if "trait" in self.fn:
            return None
        return self.fn["id"]

    @property
    def rpath(self):
        if not self.fn:
            return None
        return self.fn.get("rpath") or self.fn["path"]

    @property
    def trait(self):
        return self.fn.get("trait") if self.fn else None

    @property
    def self_ty(self):
        return self.fn.get("self") if self.fn else None

    @property
    def is_dyn(self):
        return bool(self.fn and self.fn.get("dyn"))

    def where(self):
        return "%s:%s" % (self.body.file, self.line)

    def __repr__(self):
        return "Call(%s @%s)" % (self.path, self.line)


class Program:
    def __init__(self, facts_dir):
        self.bodies = {}
        self.adts = {}
        self.traits = {}
        self.impls = []
        self.crates = []
        self.consts = {}
        for f in sorted(glob.glob(os.path.join(facts_dir, "*.json"))):
            d = json.load(open(f))
            k = d["crate"]
            self.crates.append(k)
            for r in d["bodies"]:
                self.bodies[r["id"]] = Body(r, k)
            for a in d["adts"]:
                a["crate"] = k
                self.adts[a["path"]] = a
            for t in d["traits"]:
                t["crate"] = k
                self.traits[t["path"]] = t
            for i in d["impls"]:
                i["crate"] = k
                self.impls.append(i)
            for c in d["consts"]:
                self.consts[c[0]] = c[1]
        self.children = {}
        for b in self.bodies.values():
            if b.parent:
                self.children.setdefault(b.parent, []).append(b)

    # ------------------------------------------------------------------
    def fns(self, pred=None, crate=None):
        for b in self.bodies.values():
            if b.promoted is not None:
                continue
            if crate and b.krate != crate:
                continue
            if pred is None or pred(b):
                yield b

    def find(self, path_re, one=False):
        r = re.compile(path_re)
        out = [b for b in self.fns() if r.search(b.path)]
        if one:
            return out[0] if len(out) == 1 else None
        return out

    def impls_of(self, trait):
        return [i for i in self.impls if i["trait"] == trait]

    def trait_impl_method(self, trait, adt, name):
        for i in self.impls:
            if i["trait"] == trait and i["adt"] == adt and name in i["methods"]:
                return self.bodies.get(i["methods"][name])
        return None

    def trait_default(self, trait, name):
        t = self.traits.get(trait)
        if not t:
            return None
        for m in t["methods"]:
            if m["name"] == name and m["default"]:
                return self.bodies.get(m["id"])
        return None

    def resolve_method(self, trait, adt, name):
        return self.trait_impl_method(trait, adt, name) or self.trait_default(trait, name)

    def callees(self, call):
        """possible workspace callees of a call site (CHA for unresolved trait calls).
        Returns (list of bodies, complete?)"""
        if not call.fn:
            return [], False
        cid = call.callee_id
        if cid is not None:
            b = self.bodies.get(cid)
            # a trait default method reached through a concrete type
            return ([b] if b else []), True
        tr = call.trait
        if tr and tr in self.traits:
            out = []
            name = call.name
            for i in self.impls_of(tr):
                if name in i["methods"]:
                    b = self.bodies.get(i["methods"][name])
                    if b:
                        out.append(b)
            d = self.trait_default(tr, name)
            if d:
                out.append(d)
            return out, True
        return [], False

    def closures_of(self, body):
        return self.children.get(body.id, [])

    def closures_rec(self, body):
        out = []
        st = [body]
        while st:
            x = st.pop()
            for c in self.closures_of(x):
                out.append(c)
                st.append(c)
        return out


# ---------------------------------------------------------------------------
def const_of(op):
    """constant payload of an operand or None"""
    return op[1] if op[0] == "k" else None


def op_place(op):
    return Place(op[1]) if op[0] in ("c", "m") else None


def pp_op(op):
    if op[0] == "k":
        k = op[1]
        if "fn" in k:
            return k["fn"]["path"]
        if "str" in k:
            return json.dumps(k["str"])
        if "v" in k:
            return "%s%s" % (k["v"], ":" + k["ty"] if not isinstance(k["v"], bool) else "")
        if "promoted" in k:
            return "promoted[%d]" % k["promoted"]
        if "def" in k:
            return "const " + k["def"]
        return k.get("disp", "?")
    return ("" if op[0] == "c" else "move ") + repr(Place(op[1]))


def pp_rv(rv):
    k = rv[0]
    if k == "use":
        return pp_op(rv[1])
    if k == "ref":
        return "&%s%r" % ("mut " if rv[1] == "mut" else "", Place(rv[2]))
    if k == "bin":
        return "%s(%s, %s)" % (rv[1], pp_op(rv[2]), pp_op(rv[3]))
    if k == "un":
        return "%s(%s)" % (rv[1], pp_op(rv[2]))
    if k == "cast":
        return "%s as %s [%s]" % (pp_op(rv[2]), rv[3], rv[1])
    if k == "disc":
        return "disc(%r)" % Place(rv[1])
    if k == "agg":
        if rv[1] == "adt":
            return "%s::%s{%s}" % (rv[2].split("::")[-1], rv[3], ", ".join("%s: %s" % (f, pp_op(o)) for f, o in zip(rv[4], rv[5])))
        if rv[1] in ("closure", "coroutine"):
            return "%s %s{%s}" % (rv[1], rv[2], ", ".join("%s: %s" % (f, pp_op(o)) for f, o in zip(rv[4], rv[5])))
        return "%s(%s)" % (rv[1], ", ".join(pp_op(o) for o in rv[5]))
    return json.dumps(rv)


def pp(body, cleanup=False):
    out = ["fn %s  [%s:%d] argc=%d" % (body.path, body.file, body.line, body.argc)]
    for i, l in enumerate(body.locals):
        out.append("  let _%d%s: %s" % (i, "(%s)" % l[1] if l[1] else "", l[0]))
    for b, blk in enumerate(body.blocks):
        if blk["cu"] and not cleanup:
            continue
        if b not in body.reach and not cleanup:
            continue
        out.append(" bb%d:%s" % (b, " (cleanup)" if blk["cu"] else ""))
        for s in blk["s"]:
            if s[0] == "=":
                out.append("    %r = %s   // %d" % (Place(s[1]), pp_rv(s[2]), s[3]))
            elif s[0] == "dead":
                if cleanup:
                    out.append("    dead _%d" % s[1])
            else:
                out.append("    " + json.dumps(s))
        t = blk["t"]
        if t[0] == "call":
            c = Call(body, b, t)
            x = ""
            if c.fn and "res" in c.fn and c.fn.get("rpath"):
                x = " {res %s}" % c.fn["rpath"]
            if c.is_dyn:
                x += " {dyn}"
            out.append("    %r = %s(%s)%s -> bb%s unw %s  // %d" % (c.dest, pp_op(t[1]), ", ".join(pp_op(a) for a in c.args), x, t[4], t[5], c.line))
        elif t[0] == "switch":
            out.append("    switch %s [%s, else bb%d]" % (pp_op(t[1]), ", ".join("%s: bb%d" % (v, x) for v, x in t[2]), t[3]))
        elif t[0] == "drop":
            out.append("    drop %r : %s -> bb%d unw %s" % (Place(t[1]), t[4], t[2], t[3]))
        elif t[0] == "assert":
            out.append("    assert %s==%s %s(%s) -> bb%d" % (pp_op(t[1]), t[2], t[3], ", ".join(pp_op(o) for o in t[4]), t[5]))
        else:
            out.append("    " + json.dumps(t))
    return "\n".join(out)
