"""Value numbering over normalised MIR with access paths, plus must-facts (dominating
branch conditions).  A classical forward dataflow analysis to a fixpoint.

Values (hashable tuples):
  ('arg', i)                         i-th argument at entry
  ('k', const)                       constant (bool/int/str/char/('def',path)/..)
  ('ref', root, comps)               reference to an access path
  ('mem', root, comps)               content of an access path at function entry
  ('clob', site, i)                  unknown content after call at site clobbered it
  ('call', path, args, site)         call result; site None when the call is treated as pure
  ('bin', op, a, b) ('un', op, a) ('cast', ty, a)
  ('agg', name, variant, ((f, v)..)) ('upd', base, ((comp.., v)..))
  ('f', v, comp)                     projection of a value
  ('disc', v)                        discriminant
  ('phi', bb, key)                   merge
roots: ('L', n) local n;  ('D', v) pointee of pointer value v.
"""
import re
from core import Place, Call

ITER_PURE = {"next", "next_back"}
TRANSPARENT = ("std::ops::Deref", "std::ops::DerefMut", "std::borrow::Borrow", "std::borrow::BorrowMut",
               "std::convert::AsRef", "std::convert::AsMut")
CMPS = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}


class V(tuple):
    """interned value: cached hash, cached set of phi blocks mentioned"""

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = tuple.__hash__(self)
            return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is V:
            # interned: equal iff identical (bool/int mixups are kept apart by the table key)
            return False
        return isinstance(o, tuple) and tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)


_TAB = {}


def I(t):
    if type(t) is V:
        return t
    t = tuple(I(x) if isinstance(x, tuple) else x for x in t)
    key = (t, tuple(type(x) for x in t if not isinstance(x, tuple)))
    v = _TAB.get(key)
    if v is None:
        v = V(t)
        _TAB[key] = v
    return v


def phis_in(v):
    if type(v) is not V:
        v = I(v)
    try:
        return v._p
    except AttributeError:
        pass
    s = set()
    if len(v) == 3 and v[0] == "phi":
        s.add(v[1])
    for x in v:
        if isinstance(x, tuple):
            s |= phis_in(x)
    v._p = frozenset(s)
    return v._p


def comp(e, prev_v):
    if e[0] == "f":
        owner = e[3]
        nm = str(e[1]) if owner in ("(closure)", "(tuple)") else e[2]
        return (prev_v + "." + nm) if prev_v else nm
    return None


class Flow:
    def __init__(self, body, P, pure=None, arg_vals=None, assume=()):
        self.b = body
        self.P = P
        self.pure = pure
        self.phi_in = {}      # (bb,key) -> {pred: value}
        self.instate = {}
        self.infacts = {}
        self.outstate = {}
        self.edgefacts = {}   # (pred, succ) -> facts
        self.callstate = {}   # bb -> state just before the call
        self.call_info = {}   # bb -> (fnval, [argvals])
        self.stmt_vals = {}   # (bb, idx) -> (root, comps, value)
        self.term_val = {}    # bb -> switch value
        self.arg_vals = arg_vals or {}
        self.assume = frozenset(I(x) for x in assume)
        self._run()

    # -- places -------------------------------------------------------------
    def path_of(self, st, raw):
        """access path (root, comps) of a place"""
        root = ("L", raw[0])
        comps = ()
        pv = None
        for e in raw[1]:
            if e == "*":
                v = self.read(st, root, comps)
                root, comps = self.deref(v)
                pv = None
            elif e[0] == "f":
                comps = comps + (comp(e, pv),)
                pv = None
            elif e[0] == "v":
                pv = e[2]
            elif e[0] == "i":
                iv = self.read(st, ("L", e[1]), ())
                comps = comps + (("[]", iv),)
            elif e[0] == "ci":
                comps = comps + (("[]", ("k", -1 - e[1] if e[2] else e[1])),)
            elif e[0] == "ss":
                comps = comps + (("[..]", e[1], e[2], e[3]),)
            else:
                comps = comps + ("?",)
        return root, comps

    def deref(self, v):
        if v[0] == "ref":
            return v[1], v[2]
        return ("D", v), ()

    def read(self, st, root, comps):
        comps = I(comps)
        d = st.get(root)
        n = len(comps)
        v = None
        if d:
            # longest stored prefix
            for k in range(n, -1, -1):
                x = d.get(comps[:k])
                if x is not None:
                    v = x
                    for c in comps[k:]:
                        v = proj(v, c)
                    break
        if v is None:
            v = ("mem", root, comps)
            if root[0] == "L":
                i = root[1]
                if 1 <= i <= self.b.argc:
                    v = self.arg_vals.get(i, ("arg", i))
                    for c in comps:
                        v = proj(v, c)
                elif not comps:
                    v = ("undef", i)
        if d and len(d) > 1 or d and comps not in d:
            ov = [(kk[n:], vv) for kk, vv in d.items() if len(kk) > n and kk[:n] == comps]
            if ov:
                v = mk_upd(v, ov)
        return v

    def write(self, st, root, comps, v):
        v = I(v)
        root = I(root)
        comps = I(comps)
        d = st.get(root)
        if not d or not comps:
            st[root] = {comps: v}
            return
        n = len(comps)
        idx = [(i, c) for i, c in enumerate(comps) if isinstance(c, tuple) and c[0] == "[]"]
        nd = {}
        for k, x in d.items():
            if len(k) > n and k[:n] == comps:
                continue
            drop = False
            for i, c in idx:
                if len(k) > i and k[:i] == comps[:i] and isinstance(k[i], tuple) and k[i] != c:
                    drop = True
                    break
            if not drop:
                nd[k] = x
        nd[comps] = v
        st[root] = nd

    # -- operands -------------------------------------------------------------
    def operand(self, st, op):
        if op[0] == "k":
            return const_val(op[1], self.P, self)
        root, comps = self.path_of(st, op[1])
        return self.read(st, root, comps)

    def rvalue(self, st, rv, site):
        k = rv[0]
        if k == "use":
            return self.operand(st, rv[1])
        if k == "ref" or k == "rawptr":
            pl = rv[2] if k == "ref" else rv[1]
            root, comps = self.path_of(st, pl)
            if not comps and root[0] == "D":
                return root[1]
            return ("ref", root, comps)
        if k == "bin":
            return mk_bin(rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]))
        if k == "un":
            return mk_un(rv[1], self.operand(st, rv[2]))
        if k == "cast":
            v = self.operand(st, rv[2])
            if rv[1].startswith("PointerCoercion") or rv[1].startswith("Transmute") or rv[1].startswith("PtrToPtr"):
                return v
            return ("cast", rv[3], v)
        if k == "disc":
            root, comps = self.path_of(st, rv[1])
            v = self.read(st, root, comps)
            vars_ = tuple((a, b) for a, b in rv[3]) if len(rv) > 3 else ()
            while v[0] == "optref" or v[0] == "call" and v[1] == "opt_copied":
                v = v[3] if v[0] == "optref" else v[2][0]
            return ("disc", v, vars_)
        if k == "agg":
            vs = [self.operand(st, o) for o in rv[5]]
            if rv[1] == "adt":
                return ("agg", rv[2], rv[3], tuple(zip(rv[4], vs)))
            if rv[1] in ("closure", "coroutine"):
                return ("agg", rv[1] + ":" + rv[2], "", tuple((str(i), v) for i, v in enumerate(vs)))
            return ("agg", rv[1], "", tuple((str(i), v) for i, v in enumerate(vs)))
        if k == "repeat":
            return ("rep", self.operand(st, rv[1]), rv[2])
        return ("other", site)

    # -- fixpoint -------------------------------------------------------------
    def _run(self):
        b = self.b
        order = b.rpo()
        self.live = liveness(b)
        pos = {x: i for i, x in enumerate(order)}
        preds = b.preds()
        self.pos = pos
        phis = {}          # bb -> set of keys forced to phi
        self.phis = phis
        self.unforced = {}
        dirty = True
        it = 0
        work = set(order)
        while True:
            it += 1
            if it > 60:
                break
            changed = False
            for bb in order:
                # merge
                ins = [(p, self.edge_state(p, bb)) for p in preds[bb] if p in self.outstate and (p, bb) in self.edgefacts]
                if bb == 0:
                    st, facts = {}, self.assume
                else:
                    if not ins:
                        if bb in self.instate:
                            # became unreachable: forget what it contributed
                            self.instate.pop(bb, None)
                            self.infacts.pop(bb, None)
                            self.outstate.pop(bb, None)
                            self.call_info.pop(bb, None)
                            for s2 in b.succs(bb):
                                self.edgefacts.pop((bb, s2), None)
                            for k in [k for k in self.stmt_vals if k[0] == bb]:
                                del self.stmt_vals[k]
                            changed = True
                        continue
                    st = self.merge(bb, ins)
                    fs = None
                    for p, _ in ins:
                        f = self.edgefacts.get((p, bb), frozenset())
                        fs = f if fs is None else fs & f
                    facts = frozenset(f for f in fs if not mentions_phi(f, bb))
                if bb in self.instate and self.instate[bb] == st and self.infacts[bb] == facts:
                    continue
                self.instate[bb] = st
                self.infacts[bb] = facts
                self.transfer(bb, dict(st), facts)
                changed = True
            if not changed:
                break
        self.iterations = it
        # dead edge cleanup not needed

    def edge_state(self, p, bb):
        return self.outstate[p]

    def merge(self, bb, ins):
        forced = self.phis.setdefault(bb, set())
        if len(ins) == 1 and not forced and len(self.b.preds()[bb]) == 1:
            live = self.live[bb]
            return {r: d for r, d in ins[0][1].items() if r[0] != "L" or r[1] in live}
        roots = set()
        for _, s in ins:
            roots |= s.keys()
        st = {}
        s0 = ins[0][1]
        live = self.live[bb]
        for r in roots:
            if r[0] == "L" and r[1] not in live:
                continue
            d0 = s0.get(r)
            fr = [k for k in forced if k[0] == r]
            if not fr and d0 is not None and all(s.get(r) is d0 for _, s in ins[1:]):
                st[r] = d0
                continue
            keys = {c for _, c in fr}
            for _, s in ins:
                d = s.get(r)
                if d:
                    keys |= d.keys()
            nd = {}
            for c in keys:
                k = I((r, c))
                if k in forced:
                    me = I(("phi", bb, k))
                    got = {p: self.read(s, r, c) for p, s in ins}
                    rest = {v for v in got.values() if v is not me and v != me}
                    if len(rest) == 1 and len(ins) > 1 and self.unforced.get((bb, k), 0) < 3:
                        # a merge of one value with itself: the disagreement was an intermediate state of the iteration
                        v0 = next(iter(rest))
                        if type(v0) is V and bb not in phis_in(v0):
                            self.unforced[(bb, k)] = self.unforced.get((bb, k), 0) + 1
                            forced.discard(k)
                            self.phi_in.pop((bb, k), None)
                            nd[c] = v0
                            continue
                    self.phi_in[(bb, k)] = got
                    nd[c] = me
                    continue
                vals = [self.read_exact(s, r, c) for _, s in ins]
                v0 = vals[0]
                if all(v == v0 for v in vals[1:]):
                    nd[c] = v0
                else:
                    forced.add(k)
                    self.phi_in[(bb, k)] = {p: self.read(s, r, c) for p, s in ins}
                    nd[c] = I(("phi", bb, k))
            for _, s in ins:
                if s.get(r) == nd:
                    nd = s[r]
                    break
            st[r] = nd
        return st

    def read_exact(self, s, r, c):
        d = s.get(r)
        if d and c in d:
            return d[c]
        return self.read(s, r, c)

    def transfer(self, bb, st, facts):
        b = self.b
        blk = b.blocks[bb]
        for i, s in enumerate(blk["s"]):
            if s[0] == "=":
                v = self.rvalue(st, s[2], (bb, i))
                root, comps = self.path_of(st, s[1])
                self.write(st, root, comps, v)
                self.stmt_vals[(bb, i)] = (root, comps, v)
            elif s[0] == "sd":
                pass
            elif s[0] == "dead":
                st.pop(("L", s[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "call":
            c = Call(b, bb, t)
            args = [I(self.operand(st, a)) for a in c.args]
            self.call_info[bb] = args
            self.callstate[bb] = dict(st)
            self.noclob = False
            res = self.call_value(c, bb, args, st)
            # clobber through &mut arguments
            if not (self.noclob or c.name in ITER_PURE or c.path == "vp::enum_index"):
                for ai, (a, v) in enumerate(zip(c.args, args)):
                    self.clobber(st, c, bb, ai, a, v)
            root, comps = self.path_of(st, c.dest_raw if hasattr(c, "dest_raw") else t[3])
            self.write(st, root, comps, res)
            self.outstate[bb] = st
            if t[4] is not None:
                self.edgefacts[(bb, t[4])] = facts
            return
        if k == "switch":
            v = I(self.operand(st, t[1]))
            self.term_val[bb] = v
            self.outstate[bb] = st
            by_t = {}
            consts = []
            for val, tgt in t[2]:
                by_t.setdefault(tgt, []).append(val)
                consts.append(val)
            taken = const_target(v, t)
            if taken is not None:
                for s2 in set(b.succs(bb)):
                    self.edgefacts.pop((bb, s2), None)
                self.edgefacts[(bb, taken)] = facts
                return
            for tgt, vals in by_t.items():
                if tgt == t[3]:
                    self.edgefacts[(bb, tgt)] = facts
                    continue
                if len(vals) == 1:
                    nf = self.add_fact(facts, v, vals[0], True, t[4] if len(t) > 4 else None)
                    if self.refuted(facts, v, vals[0], True, t[4] if len(t) > 4 else None):
                        self.edgefacts.pop((bb, tgt), None)
                        continue
                    self.edgefacts[(bb, tgt)] = nf
                else:
                    self.edgefacts[(bb, tgt)] = facts | {I(("in", norm_sw(v)[0], tuple(sorted(map(str, vals)))))}
            if t[3] not in by_t:
                f = facts
                ty = t[4] if len(t) > 4 else None
                if any(self.implied(facts, v, cst, ty) for cst in consts):
                    self.edgefacts.pop((bb, t[3]), None)
                    return
                if ty == "bool" and consts == ["0"]:
                    f = self.add_fact(f, v, "1", True, ty)
                elif v[0] == "disc" and len(v[2]) - len(set(consts)) == 1:
                    rest = [a for a, _ in v[2] if a not in consts]
                    f = self.add_fact(f, v, rest[0], True, ty)
                else:
                    for cst in consts:
                        f = self.add_fact(f, v, cst, False, ty)
                self.edgefacts[(bb, t[3])] = f
            return
        if k == "assert":
            v = self.operand(st, t[1])
            self.outstate[bb] = st
            self.term_val[bb] = v
            self.edgefacts[(bb, t[5])] = facts
            return
        if k == "drop":
            self.outstate[bb] = st
            self.edgefacts[(bb, t[2])] = facts
            return
        self.outstate[bb] = st
        for s in b.succs(bb):
            self.edgefacts[(bb, s)] = facts

    def clobber(self, st, c, bb, ai, op, v):
        if op[0] == "k":
            return
        ty = self.b.locals[op[1][0]][0] if not op[1][1] else None
        tgt = None
        if v[0] == "ref":
            if ty is not None and ty.startswith("&") and not ty.startswith("&mut") and not ty.startswith("&'") :
                return
            if ty is not None and ty.startswith("&'") and " mut " not in ty[:20]:
                return
            tgt = (v[1], v[2])
        elif ty is not None and ty.startswith("&mut"):
            tgt = (("D", v), ())
        elif v[0] == "agg":
            # closure / struct carrying &mut refs: clobber what they point to
            if v[1].startswith("closure:") or v[1].startswith("coroutine:"):
                tys = self.captures(v[1].split(":", 1)[1])
                for j, (_, fv) in enumerate(v[3]):
                    if fv[0] == "ref" and not (tys and j < len(tys) and tys[j] and shared_ref(tys[j])):
                        self._clob(st, bb, ai, fv[1], fv[2])
            return
        if tgt:
            callee = self.P.bodies.get(c.callee_id) if c.callee_id and not c.is_dyn else None
            if callee is not None and callee.kind != "closure" and not callee.coroutine:
                from mods import summary
                ms = summary(self.P, callee).get(ai + 1, {()})
                if () not in ms:
                    for p in ms:
                        if not any(q != p and p[:len(q)] == q for q in ms):
                            self.write(st, tgt[0], tuple(tgt[1]) + p, I(("clob", bb, (ai,) + p)))
                    return
            self._clob(st, bb, ai, tgt[0], tgt[1])

    def captures(self, cid):
        """types of the values a closure built in this body captures (None where unknown)"""
        if "_captures" not in self.__dict__:
            out = {}
            for blk in self.b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] in ("closure", "coroutine"):
                        ts = [self.b.locals[o[1][0]][0] if o[0] != "k" and not o[1][1] else None for o in s[2][-1]]
                        old = out.get(s[2][2])
                        out[s[2][2]] = ts if old is None or old == ts else [None] * len(ts)
            self._captures = out
        return self._captures.get(cid)

    def _clob(self, st, bb, ai, root, comps):
        self.write(st, root, comps, ("clob", bb, ai))

    def call_value(self, c, bb, args, st):
        p = c.rpath or "indirect"
        nm = c.name
        if nm in ITER_PURE or p == "vp::enum_index":
            a = args[0]
            base = self.read(st, *self.deref(a))
            return ("call", "next" if nm == "next" else ("next_back" if nm == "next_back" else nm), (base,), bb if nm in ITER_PURE else None)
        m = self.model(c, bb, args, st)
        if m is not None:
            return m
        if nm == "default" and not args:
            m0 = re.match(r"^<(\w+) as std::default::Default>::default$", p)
            if m0 and re.match(r"^[iu](8|16|32|64|128|size)$", m0.group(1)):
                return I(("k", 0))
            if m0 and m0.group(1) == "bool":
                return I(("k", False))
        if c.trait == "std::clone::Clone" and nm == "clone":
            return self.read(st, *self.deref(args[0]))
        if c.trait in ("std::convert::Into", "std::convert::From") and len(args) == 1 and False:
            return args[0]
        if c.trait == "std::iter::IntoIterator" and nm == "into_iter":
            st_ = c.self_ty or ""
            if st_.startswith(("std::iter", "std::slice", "std::vec::IntoIter", "std::ops::Range")):
                return args[0]
            if st_.startswith("&"):
                return ("call", "iter", (args[0],), None)
            return ("call", "iter", (args[0],), None)
        if nm in ("iter", "iter_mut") and len(args) == 1:
            a = args[0]
            if a[0] == "call" and a[1] == "deref":
                a = a[2][0]
            return ("call", "iter", (a,), None)
        if "ctor" in (c.fn or {}):
            adt, var = c.fn["ctor"]
            return ("agg", adt, var, tuple((str(i), v) for i, v in enumerate(args)))
        pure = True
        for op, v in zip(c.args, args):
            if op[0] != "k" and not op[1][1]:
                ty = self.b.locals[op[1][0]][0]
                if ty.startswith("&mut") or " mut " in ty[:14]:
                    pure = False
        if c.fn is None:
            fv = self.operand(st, c.t[1])
            return ("icall", fv, tuple(args), bb)
        snap = tuple(self.snapshot(st, v) for v in args)
        site = None if pure else bb
        if pure:
            # what a pointer argument points to has been overwritten since entry: a different answer
            vers = tuple(x for x in (self.version(st, v) for v in args) if x is not None)
            if vers:
                site = ("after",) + vers
        return ("call", p if c.trait is None else (c.fn["path"] if c.callee_id is None else p), snap, site)

    def model(self, c, bb, args, st):
        """value models of std operations that only move, compare or project"""
        nm = c.name
        tr = c.trait
        p = c.path or ""
        sty = c.self_ty or ""
        if tr in TRANSPARENT and len(args) == 1 and nm in ("deref", "deref_mut", "borrow", "borrow_mut", "as_ref", "as_mut"):
            if tr in ("std::convert::AsRef", "std::convert::AsMut") and not sty.startswith("std::boxed::Box"):
                if sty.startswith(("std::string::String", "str", "std::vec::Vec", "[", "&")):
                    self.noclob = True
                    return args[0]
                return None
            self.noclob = True
            if sty.startswith(("std::vec::Vec", "std::string::String", "std::path::PathBuf")):
                return args[0]
            return self.read(st, *self.deref(args[0]))
        if p in ("std::boxed::Box::<T>::as_ref", "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
                 "std::string::String::as_str"):
            self.noclob = True
            return args[0]
        if nm in ("index", "index_mut") and tr in ("std::ops::Index", "std::ops::IndexMut") and len(args) == 2:
            ga = c.fn.get("ga", [])
            if len(ga) > 1 and ga[1] == "usize":
                self.noclob = True
                r, cs = self.deref(args[0])
                return ("ref", r, cs + (("[]", args[1]),))
            return None
        if p.startswith("std::option::Option::<") or p.startswith("std::result::Result::<"):
            if nm in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
                self.noclob = True
                r, cs = self.deref(args[0])
                return ("optref", r, cs, self.read(st, r, cs), "deref" in nm)
            if nm in ("is_some", "is_none", "is_ok", "is_err"):
                r, cs = self.deref(args[0])
                v = self.read(st, r, cs)
                if v[0] == "optref":
                    v = v[3]
                var = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[nm]
                return ("isvar", v, var)
            if nm == "take" and len(args) == 1:
                r, cs = self.deref(args[0])
                v = self.read(st, r, cs)
                self.write(st, r, cs, ("agg", "std::option::Option", "None", ()))
                self.noclob = True
                return v
            if nm in ("copied", "cloned") and len(args) == 1:
                v = args[0]
                return ("call", "opt_copied", (v,), None)
            if nm in ("unwrap", "expect", "unwrap_unchecked"):
                v = args[0]
                return proj(v, "Some.0" if p.startswith("std::option") else "Ok.0")
        if p in ("std::mem::replace", "core::mem::replace"):
            r, cs = self.deref(args[0])
            v = self.read(st, r, cs)
            self.write(st, r, cs, args[1])
            self.noclob = True
            return v
        if p in ("std::mem::take", "core::mem::take"):
            r, cs = self.deref(args[0])
            v = self.read(st, r, cs)
            self.write(st, r, cs, ("k", ("c", "default")))
            self.noclob = True
            return v
        if tr in ("std::cmp::PartialEq", "std::cmp::PartialOrd") and len(args) == 2 and nm in CMPS:
            a = self.strip_ref(st, args[0])
            b = self.strip_ref(st, args[1])
            return mk_bin(CMPS[nm], a, b)
        if tr == "std::cmp::Ord" and nm in ("min", "max", "clamp"):
            return ("call", nm, tuple(args), None)
        if nm in ("min", "max", "clamp") and (p.startswith("core::f") or p.startswith("std::f") or "<impl f" in p):
            return ("call", nm, tuple(args), None)
        if tr == "std::ops::Not" and nm == "not":
            return mk_un("Not", args[0])
        if tr == "std::ops::Try" and nm == "branch" and "option::Option" in sty[:24] and len(args) == 1:
            return ("optbr", args[0])
        if tr == "std::ops::FromResidual" and nm == "from_residual" and "option::Option" in sty[:24]:
            return ("agg", "std::option::Option", "None", ())
        return None

    def strip_ref(self, st, v):
        for _ in range(3):
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            elif v[0] == "kref":
                v = v[1]
            elif v[0] in ("arg", "f", "mem", "call", "phi") :
                v = ("mem", ("D", v), ())
                break
            else:
                break
        return v

    def version(self, st, v):
        if v[0] == "ref" and v[1][0] == "L":
            return None
        r, cs = self.deref(v)
        if r[0] != "D":
            return None
        d = st.get(I(r))
        if not d:
            return None
        x = d.get(I(()))
        if x is not None and x[0] in ("clob", "phi"):
            return x
        return None

    def snapshot(self, st, v):
        """by-reference args to *locals*: use the content so equal contents are equal calls"""
        if v[0] == "ref" and v[1][0] == "L":
            return ("refv", self.read(st, v[1], v[2]))
        return v

    # -- facts ------------------------------------------------------------------
    def refuted(self, facts, v, cst, pos, ty):
        a, c, p = norm_fact(v, cst, pos, ty)
        return contradicts(I(("is" if p else "not", a, c)), facts)

    def implied(self, facts, v, cst, ty):
        a, c, p = norm_fact(v, cst, True, ty)
        return I(("is" if p else "not", a, c)) in facts

    def add_fact(self, facts, v, cst, pos, ty=None):
        atom, cst, pos = norm_fact(v, cst, pos, ty)
        new = set(facts)
        self._add(new, atom, cst, pos, 0)
        return frozenset(new)

    def _add(self, new, v, cst, pos, depth):
        f = I(("is" if pos else "not", v, cst))
        if f in new:
            return
        new.add(f)
        if depth > 6:
            return
        # phi refinement
        tv = v
        isdisc = False
        if v[0] == "disc" and v[1][0] == "phi":
            tv = v[1]
            isdisc = True
        if tv[0] == "phi":
            ins = self.phi_in.get((tv[1], tv[2]))
            preds = [p for p in self.b.preds()[tv[1]] if p in self.outstate and (p, tv[1]) in self.edgefacts]
            if not ins or len(ins) < len(preds):
                return
            cand = None
            vals = []
            for p, pv in ins.items():
                if pv == tv:
                    continue
                ef = self.edgefacts.get((p, tv[1]))
                if ef is None:
                    continue
                c = consistent(pv, cst, pos, isdisc)
                if c is False:
                    continue
                if isdisc:
                    a2, c2, p2 = norm_fact(("disc", pv, v[2] if len(v) > 2 else ()), cst, pos, None)
                else:
                    a2, c2, p2 = norm_fact(pv, cst, pos, "bool" if isinstance(cst, bool) else None)
                if ("not" if p2 else "is", a2, c2) in ef:
                    continue
                s = set(ef)
                if c is None:
                    self._add(s, a2, c2, p2, depth + 1)
                vals.append(pv)
                cand = s if cand is None else cand & s
            if cand:
                # facts about phis of the block itself would be about the previous iteration
                for x in cand:
                    if not mentions_phi(x, tv[1]):
                        new.add(x)
            if len(vals) == 1:
                new.add(I(("eq", tv, vals[0])))

    def resolve(self, v, facts):
        """rewrite phis in v that facts pin down to one incoming value"""
        m = {f[1]: f[2] for f in facts if f[0] == "eq"}
        if not m:
            return v

        def go(x, d=0):
            if d > 30 or not isinstance(x, tuple):
                return x
            if x in m:
                return go(m[x], d + 1)
            if x and x[0] == "f":
                return proj(go(x[1], d + 1), x[2])
            if x and x[0] in ("phi", "k"):
                return x
            return tuple(go(y, d + 1) if isinstance(y, tuple) else y for y in x)
        return go(v)

    # -- conveniences -----------------------------------------------------------
    def calls(self):
        for c in self.b.calls():
            if c.bb in self.call_info:
                yield c, self.call_info[c.bb], self.infacts.get(c.bb, frozenset())

    def instate_at_call(self, bb):
        return self.callstate[bb]

    def call_snap(self, bb, i):
        return self.snapshot(self.callstate[bb], self.call_info[bb][i])

    def at(self, bb, v):
        """content of what a pointer value points to just before the call in bb"""
        return self.read(self.callstate[bb], *self.deref(v))

    def ret_values(self):
        for bb in self.b.rpo():
            if self.b.term(bb)[0] == "return" and bb in self.outstate:
                yield bb, self.read(self.outstate[bb], ("L", 0), ()), self.infacts[bb]

    def expand_phi(self, v, limit=64):
        """set of non-phi leaf values a (possibly phi) value may take"""
        out, seen, st = [], set(), [v]
        while st and len(out) < limit:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x[0] == "phi":
                ins = self.phi_in.get((x[1], x[2]))
                if not ins:
                    out.append(x)
                    continue
                st.extend(ins.values())
            else:
                out.append(x)
        return out

    def origin(self, bb):
        o = self.b.blocks[bb].get("o")
        return self.P.bodies.get(o, self.b)


def liveness(b):
    """live-in locals per block; address-taken locals and _0 count as always live"""
    always = {0}
    use, kill = {}, {}

    def up(u, pl):
        u.add(pl[0])
        for e in pl[1]:
            if e != "*" and e[0] == "i":
                u.add(e[1])

    def ops(rv):
        k = rv[0]
        if k == "use":
            return [rv[1]]
        if k in ("bin",):
            return [rv[2], rv[3]]
        if k in ("un", "cast"):
            return [rv[2]]
        if k == "agg":
            return rv[5]
        if k == "repeat":
            return [rv[1]]
        return []
    R = b.rpo()
    for bb in R:
        u, d = set(), set()
        blk = b.blocks[bb]

        def rd(pl):
            t = set()
            up(t, pl)
            u.update(t - d)
        for s in blk["s"]:
            if s[0] == "=":
                rv = s[2]
                for o in ops(rv):
                    if o[0] != "k":
                        rd(o[1])
                if rv[0] == "ref":
                    rd(rv[2])
                    if "*" not in rv[2][1]:
                        always.add(rv[2][0])
                elif rv[0] in ("rawptr", "disc"):
                    rd(rv[1])
                    if rv[0] == "rawptr" and "*" not in rv[1][1]:
                        always.add(rv[1][0])
                if s[1][1]:
                    rd(s[1])
                else:
                    d.add(s[1][0])
        t = blk["t"]
        if t[0] == "call":
            for o in [t[1]] + t[2]:
                if o[0] != "k":
                    rd(o[1])
            if t[3][1]:
                rd(t[3])
            else:
                d.add(t[3][0])
        elif t[0] in ("switch", "assert", "yield"):
            if t[1][0] != "k":
                rd(t[1][1])
            if t[0] == "assert":
                for o in t[4]:
                    if o[0] != "k":
                        rd(o[1])
        use[bb], kill[bb] = u, d
    live = {bb: set() for bb in range(len(b.blocks))}
    ch = True
    while ch:
        ch = False
        for bb in reversed(R):
            out = set()
            for s in b.succs(bb):
                out |= live[s]
            n = use[bb] | (out - kill[bb])
            if n != live[bb]:
                live[bb] = n
                ch = True
    for bb in live:
        live[bb] = live[bb] | always
    return live


def const_target(v, t):
    """target of a switch on a constant, else None"""
    if v[0] == "isvar" and v[1][0] == "agg":
        cv = "1" if v[1][2] == v[2] else "0"
    elif v[0] == "disc" and v[1][0] == "agg" and v[1][2]:
        names = {n: a for a, n in v[2]}
        if v[1][2] not in names:
            return None
        cv = names[v[1][2]]
    elif v[0] == "k" and isinstance(v[1], bool):
        cv = "1" if v[1] else "0"
    elif v[0] == "k" and isinstance(v[1], int):
        cv = str(v[1])
    else:
        return None
    for val, tgt in t[2]:
        if str(val) == cv:
            return tgt
    return t[3]


def norm_sw(v):
    return v, None


def norm_fact(v, cst, pos, ty=None):
    """normalise (v == cst) facts: discriminants by variant name, booleans, Not, Eq/Ne k"""
    while True:
        if v[0] == "isvar":
            if isinstance(cst, str):
                cst = cst == "1"
            if not pos:
                cst = not cst
            other = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
            return ("disc", v[1]), v[2] if cst else other[v[2]], True
        if v[0] == "disc":
            names = dict(v[2]) if len(v) > 2 else {}
            if isinstance(cst, str) and cst in names:
                cst = names[cst]
            if v[1][0] == "optbr" and cst in ("Continue", "Break"):
                if not pos:
                    cst = {"Continue": "Break", "Break": "Continue"}[cst]
                x = v[1][1]
                while x[0] == "optref" or x[0] == "call" and x[1] == "opt_copied":
                    x = x[3] if x[0] == "optref" else x[2][0]
                return norm_fact(("disc", x), {"Continue": "Some", "Break": "None"}[cst], True)
            return ("disc", v[1]), cst, pos
        if ty == "bool" or isinstance(cst, bool) or (cst in ("0", "1") and v[0] in ("un", "bin") and is_boolish(v)):
            if isinstance(cst, str):
                cst = cst == "1"
            if not pos:
                cst, pos = (not cst), True
            if v[0] == "un" and v[1] == "Not":
                v = v[2]
                cst = not cst
                ty = "bool"
                continue
            if v[0] == "bin" and v[1] in ("Eq", "Ne") and v[3][0] == "k" and not isinstance(v[3][1], tuple):
                eq = (v[1] == "Eq") == cst
                k = v[3][1]
                if isinstance(k, bool):
                    return norm_fact(v[2], "1" if k else "0", eq, "bool")
                if v[2][0] == "disc":
                    return norm_fact(v[2], str(k), eq, None)
                return v[2], k, eq
            return v, cst, True
        if isinstance(cst, str) and ty and ty not in ("char",):
            try:
                cst = int(cst)
            except ValueError:
                pass
        elif isinstance(cst, str) and ty == "char":
            cst = chr(int(cst))
        return v, cst, pos


def is_boolish(v):
    return v[0] == "un" and v[1] == "Not" or v[0] == "bin" and v[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")


def consistent(v, cst, pos, isdisc):
    """True/False/None(unknown) whether value v can satisfy (v ==/!= cst)"""
    if isdisc:
        if v[0] == "agg":
            return (v[2] == cst) == pos
        return None
    if v[0] == "k":
        return (v[1] == cst and type(v[1]) == type(cst)) == pos
    return None


def mentions_phi(x, bb):
    return bb in phis_in(x)


def proj(v, c):
    k = v[0]
    if k == "agg":
        var = None
        f = c
        if isinstance(c, str) and "." in c:
            var, f = c.split(".", 1)
        if var is not None and v[2] and var != v[2]:
            return ("f", v, c)
        for n, x in v[3]:
            if n == f:
                return x
        return ("f", v, c)
    if k == "upd":
        rest = []
        for p, x in v[2]:
            if p == (c,):
                return x
            if p[0] == c:
                rest.append((p[1:], x))
        base = proj(v[1], c)
        return mk_upd(base, rest) if rest else base
    if k == "mem":
        return ("mem", v[1], v[2] + (c,))
    if k == "optbr" and c == "Continue.0":
        return proj(v[1], "Some.0")
    if k == "optref":
        r = ("ref", v[1], v[2] + (c,))
        if v[4] :
            return ("mem", v[1], v[2] + (c,)) if False else r
        return r
    if k == "call" and v[1] == "opt_copied":
        i = proj(v[2][0], c)
        if i[0] == "ref":
            return ("mem", i[1], i[2])
        return ("mem", ("D", i), ())
    if k == "bin" and v[1].endswith("WithOverflow"):
        if c == "0":
            return mk_bin(v[1][: -len("WithOverflow")], v[2], v[3])
        return ("ovf", v)
    return ("f", v, c)


def mk_upd(v, ov):
    ov = tuple(sorted(ov, key=lambda x: repr(x[0])))
    if v[0] == "upd":
        keys = [p for p, _ in ov]
        rest = tuple((p, x) for p, x in v[2] if not any(p[:len(q)] == q for q in keys))
        return ("upd", v[1], rest + ov)
    return ("upd", v, ov)


def mk_bin(op, a, b):
    if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
        op = op[:3]
    if op in ("Gt", "Ge"):
        return ("bin", "Lt" if op == "Gt" else "Le", b, a)
    if op in ("Eq", "Ne") and a[0] == "k" and b[0] != "k":
        a, b = b, a
    return ("bin", op, a, b)


def mk_un(op, a):
    if op == "Not" and a[0] == "un" and a[1] == "Not":
        return a[2]
    if op == "Not" and a[0] == "k" and isinstance(a[1], bool):
        return ("k", not a[1])
    return ("un", op, a)


def const_val(k, P=None, flow=None):
    if "fn" in k:
        return ("fnk", k["fn"].get("res") or k["fn"]["id"])
    if "str" in k:
        return ("k", k["str"])
    if "v" in k:
        if k["ty"] in ("f32", "f64"):
            return ("k", float(k["v"].replace("inf", "inf")) if k["v"] not in ("NaN",) else "NaN")
        return ("k", k["v"])
    if "promoted" in k:
        if P is not None:
            v = promoted_val(P, k["of"], k["promoted"])
            if v is not None:
                return v
        return ("promoted", k["of"], k["promoted"])
    if "closure" in k:
        return ("agg", "closure:" + k["closure"], "", ())
    if "def" in k:
        return ("k", ("def", k["def"]))
    return ("k", ("c", k.get("disp", "?")))


_PROM = {}


def promoted_val(P, of, n):
    key = (id(P), of, n)
    if key in _PROM:
        return _PROM[key]
    _PROM[key] = None
    b = P.bodies.get("%s#p%d" % (of, n)) or P.bodies.get("%s::promoted[%d]" % (of, n))
    if b is None:
        for x in P.bodies.values():
            if x.promoted == n and x.id.startswith(of):
                b = x
                break
    if b is None:
        return None
    f = Flow(b, P)
    v = None
    for bb, rv, _ in f.ret_values():
        v = rv
        st = f.outstate[bb]
        if rv[0] == "ref":
            v = ("kref", f.read(st, rv[1], rv[2]))
    _PROM[key] = v
    return v


def walk(v):
    """all sub-tuples of a value"""
    st = [v]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(y for y in x if isinstance(y, tuple))


def show(v, d=0):
    """short printable form"""
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 8:
        return "…"
    k = v[0]
    s = lambda x: show(x, d + 1)
    if k == "arg":
        return "arg%d" % v[1]
    if k == "k":
        return repr(v[1])
    if k == "ref":
        return "&" + s(("mem", v[1], v[2]))
    if k == "mem":
        r = v[1]
        base = "_%d" % r[1] if r[0] == "L" else "*" + s(r[1])
        return base + "".join("." + (c if isinstance(c, str) else "[" + s(c[1]) + "]" if c[0] == "[]" else "[..]") for c in v[2])
    if k == "call":
        return "%s(%s)%s" % (v[1].split("::")[-1] if "::" in v[1] else v[1], ", ".join(s(a) for a in v[2]), "" if v[3] is None else "@%s" % (v[3] if not isinstance(v[3], tuple) else "+",))
    if k == "bin":
        return "%s(%s, %s)" % (v[1], s(v[2]), s(v[3]))
    if k == "un":
        return "%s(%s)" % (v[1], s(v[2]))
    if k == "cast":
        return "(%s as %s)" % (s(v[2]), v[1])
    if k == "agg":
        return "%s%s{%s}" % (v[1].split("::")[-1], "::" + v[2] if v[2] else "", ", ".join("%s: %s" % (n, s(x)) for n, x in v[3]))
    if k == "f":
        return "%s.%s" % (s(v[1]), v[2] if isinstance(v[2], str) else "[]")
    if k == "disc":
        return "disc(%s)" % s(v[1])
    if k == "phi":
        return "phi%d(%s)" % (v[1], s(("mem",) + v[2]) if v[2][0][0] in ("L", "D") else "?")
    if k == "upd":
        return "%s{%s}" % (s(v[1]), ", ".join("%s:=%s" % (".".join(str(c) for c in p), s(x)) for p, x in v[2]))
    return "(%s)" % " ".join(show(x, d + 1) for x in v)


def show_facts(fs):
    out = []
    for f in fs:
        if f[0] in ("is", "not"):
            out.append("%s %s %r" % (show(f[1]), "==" if f[0] == "is" else "!=", f[2]))
        elif f[0] == "eq":
            out.append("%s := %s" % (show(f[1]), show(f[2])))
        else:
            out.append(str(f[0]) + " " + show(f[1]) + " " + str(f[2]))
    return sorted(out)


def edge_paths(f, p, bb, limit=64):
    """fact sets of the acyclic paths from the immediate dominator of bb through the edge (p, bb)"""
    dom = f.b.dominators()
    tops = dom.get(bb, set()) - {bb}
    idom = None
    for d in tops:
        if all(e in dom.get(d, ()) for e in tops):
            idom = d
    ef = f.edgefacts.get((p, bb))
    out, st = [], [(p, frozenset(ef), frozenset([bb, p]))]
    preds = f.b.preds()
    while st:
        b, fs, seen = st.pop()
        if b == idom or len(out) + len(st) > limit:
            out.append(fs)
            continue
        any_in = False
        for q in preds[b]:
            e = f.edgefacts.get((q, b))
            if e is None or q in seen:
                continue
            e = {x for x in e if not any(mentions_phi(x, s) for s in seen)}
            if any(contradicts(x, fs) for x in e):
                continue
            any_in = True
            st.append((q, fs | e, seen | {q}))
        if not any_in:
            out.append(fs)
    return set(out)


def joint_leaves(f, vals, facts=frozenset(), limit=4000, deep=False, keep=()):
    """Enumerate the joint values a tuple of (possibly phi) values can take, with the
    branch facts of the merge edges chosen.  A phi is opened at its block; a phi met
    again (loop) is left as it is."""
    out = []
    seen = set()
    stack = [(tuple(I(v) for v in vals), frozenset(facts), frozenset(keep))]
    while stack and len(out) < limit:
        vs, fs, done = stack.pop()
        blocks = set()
        for v in vs:
            for x in top_phis(v):
                if x[1] not in done:
                    blocks.add(x[1])
        if not blocks:
            k = (vs, fs)
            if k not in seen:
                seen.add(k)
                out.append((vs, fs))
            continue
        bb = max(blocks, key=lambda b: f.pos.get(b, 0))
        nd = done | {bb}
        any_in = False
        for p in f.b.preds()[bb]:
            if p not in f.outstate:
                continue
            ef = f.edgefacts.get((p, bb))
            if ef is None:
                continue
            for ef in (edge_paths(f, p, bb) if deep else (ef,)):
                # the choice must agree with what is already known
                if any(contradicts(x, ef) for x in fs if not mentions_phi(x, bb)):
                    continue
                any_in = True
                nv = tuple(I(subst_phi(f, v, bb, p)) for v in vs)
                nf = set()
                for x in fs:
                    y = I(subst_phi(f, x, bb, p)) if mentions_phi(x, bb) else x
                    if y[0] in ("is", "not") and len(y) == 3 and y[1][0] == "k":
                        c = (y[1][1] == y[2]) == (y[0] == "is")
                        if not c:
                            nf = None
                            break
                        continue
                    nf.add(y)
                if nf is None:
                    continue
                nf |= {x for x in ef if not mentions_phi(x, bb)}
                stack.append((nv, frozenset(nf), nd))
    return out


def top_phis(v):
    """phis on which the value depends structurally (through updates, projections, bit-ops)"""
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == "phi" and len(x) == 3:
            yield x
            continue
        if x[0] in ("ref", "mem", "call", "icall"):
            # identities of memory/calls: do not open phis inside addresses
            if x[0] == "call":
                st.extend(y for y in x[2] if isinstance(y, tuple))
            continue
        st.extend(y for y in x if isinstance(y, tuple))


def subst_phi(f, v, bb, p):
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if type(x) is V and bb not in phis_in(x):
            return x
        if x in memo:
            return memo[x]
        if x[0] == "phi" and len(x) == 3 and x[1] == bb:
            r = f.phi_in.get((bb, x[2]), {}).get(p, x)
        elif x[0] == "f":
            r = proj(go(x[1]), x[2])
        elif x[0] == "un":
            r = mk_un(x[1], go(x[2]))
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r
    return go(v)


def contradicts(x, facts):
    if x[0] == "is":
        if I(("not", x[1], x[2])) in facts:
            return True
        for y in facts:
            if y[0] == "is" and y[1] is x[1] and y[2] != x[2]:
                return True
    elif x[0] == "not":
        return I(("is", x[1], x[2])) in facts
    return False


def shared_ref(ty):
    return ty.startswith("&") and not ty.startswith("&mut") and " mut " not in ty[:20]
