"""Abstract state operations: deciding and assuming conditions, joins, heap, summaries."""
from .values import *
from .terms import _hull
from .loopeval import AT_OF, OWNER, leaf_lid, owner

FINITE = 256
ENUM_LIMIT = 1024


def is_open(c):
    """A fact that only says something once one of its parts is decided."""
    return c.__class__ is Term and (c.op == "ite" or c.op == "not" and c.args[0].op in ("conj", "ite"))


def cover(sufs):
    """Disjunction of conjunctions, recognising complete case distinctions."""
    n = 0
    while all(len(x) > n for x in sufs) and all(x[n] is sufs[0][n] for x in sufs):
        n += 1
    pre, sufs = sufs[0][:n], [x[n:] for x in sufs]
    if any(not x for x in sufs):
        return conj(*pre)
    c = sufs[0][0]
    nc = neg_b(c)
    a = [x[1:] for x in sufs if x[0] is c]
    b = [x[1:] for x in sufs if x[0] is nc]
    if b and len(a) + len(b) == len(sufs):
        x, y = cover(a), cover(b)
        if x is TRUE:
            d = TRUE if y is TRUE else disj(c, y)
        else:
            d = disj(nc, x) if y is TRUE else disj(conj(c, x), conj(nc, y))
    else:
        d = disj(*[conj(*x) for x in sufs])
    return conj(*(pre + (d,)))


class Core:
    # ------------------------------------------------------------ objects
    def new_obj(self, kind, cls=None, site=None, extra=None, opaque=False, origin=None):
        self._oid += 1
        self.objs[self._oid] = Obj(kind, cls, site or self.site(), self.initing, extra, opaque, len(self.loops), origin)
        self.st.heap[(self._oid, "$alive")] = TRUE
        return R(self._oid)

    def site(self):
        f = self.frames[-1] if self.frames else None
        n = self.cur_node
        return "%s:%s" % (f.func_name if f else "?", getattr(n, "lineno", "?"))

    def obj(self, ref):
        return self.objs[ref.oid]

    def get(self, oid, key, default=None):
        v = self.st.heap.get((oid, key))
        if v is None:
            v = self.base.get((oid, key))
            if v is None:
                return default
        return v

    def put(self, oid, key, val):
        """An observable store (events for objects made at import time and for sequence elements)."""
        o = self.objs.get(oid)
        if oid in self.shared_results:
            raise Incomplete("an object that a cached function or a list may hand out again is changed")
        if o is not None and not self.initing:
            if o.init and o.kind != "env":
                self.event("static_store", oid=oid, key=key, val=val)
            elif o.opaque:
                self.event("elem_store", oid=oid, key=key, val=val, origin=o.origin)
                self.weak.append((o.origin, key, val, self.st))
        self.reg(oid, key)
        self.st.heap[(oid, key)] = val

    def reg(self, oid, key):
        ks = self.okeys.get(oid)
        if ks is None:
            ks = self.okeys[oid] = {}
        ks[key] = None

    def setbase(self, oid, key, val):
        self.reg(oid, key)
        self.base[(oid, key)] = val

    def locs_of(self, oid, st=None):
        """[(key, value)] of an object in a state."""
        h = (st or self.st).heap
        out = []
        for k in self.okeys.get(oid, ()):
            v = h.get((oid, k))
            if v is None:
                v = self.base.get((oid, k))
            if v is not None:
                out.append((k, v))
        return out

    def new_list(self, items, kind="list"):
        r = self.new_obj(kind)
        self.raw_put(r.oid, "$", SEQ([("i", v) for v in items]))
        return r

    def new_seq(self, payload, kind="list"):
        r = self.new_obj(kind)
        self.raw_put(r.oid, "$", payload)
        return r

    def new_dict(self, pairs):
        r = self.new_obj("dict")
        self.raw_put(r.oid, "$", DICT([(k, TRUE, v) for k, v in pairs]))
        return r

    def raw_put(self, oid, key, val):
        """Initialising store of a fresh object (no store event)."""
        self.reg(oid, key)
        self.st.heap[(oid, key)] = val

    # ------------------------------------------------------------ events
    def event(self, kind_, **data):
        data["kind"] = kind_
        data["pc"] = self.st.pc if self.st else ()
        data["loops"] = tuple(l.lid for l in self.loops)
        data["site"] = self.site()
        data["stack"] = tuple(f.func_name for f in self.frames)
        self.events.append(data)

    # ------------------------------------------------------------ deciding
    def rng_of(self, leaf):
        r = self.st.rng.get(leaf)
        if r is not None:
            return r
        if leaf.kind == "bool":
            return (0, 1)
        return leaf.dom

    def finite(self, leaf):
        r = self.st.rng.get(leaf)
        if isinstance(r, frozenset):
            return r
        if leaf.kind == "bool":
            return frozenset((False, True)) if r is None else frozenset(bool(x) for x in range(r[0], r[1] + 1))
        d = r if r is not None else leaf.dom
        if d and d[0] is not None and d[1] is not None and d[1] - d[0] < FINITE and leaf.kind in ("int",):
            return frozenset(range(d[0], d[1] + 1))
        return None

    def decide(self, c, _d=0):
        if isinstance(c, Const):
            return bool(c.v)
        st = self.st
        facts = st.facts
        if c in facts:
            return True
        if neg_b(c) in facts:
            return False
        if not isinstance(c, Term):
            return True
        if c.op == "conj":
            allt = True
            for x in c.args[0]:
                d = self.decide(x, _d)
                if d is False:
                    return False
                if d is None:
                    allt = False
            if allt:
                return True
        elif c.op == "not" and _d < 50:
            d = self.decide(c.args[0], _d + 1)
            if d is not None:
                return not d
        sup = support(c)
        if sup and len(sup) <= 6:
            doms = []
            prod = 1
            for l in sup:
                f = self.finite(l)
                if f is None:
                    prod = None
                    break
                prod *= len(f)
                if prod > ENUM_LIMIT:
                    prod = None
                    break
                doms.append((l, f))
            if prod is not None:
                key = (c, tuple(sorted(((l.n, f) for l, f in doms), key=lambda p: p[0])))
                if key not in self._dec:
                    self._dec[key] = self._enum(c, doms)
                r = self._dec[key]
                if r is not None:
                    return r
        if c.op in ("lt", "le", "eq"):
            a, b = c.args
            rng = {l: (r if isinstance(r, tuple) else (min(r), max(r)) if r else (0, 0)) for l, r in st.rng.items()} if st.rng else None
            (la, ha), (lb, hb) = iv(a, rng), iv(b, rng)
            if c.op == "lt":
                if ha is not None and lb is not None and ha < lb:
                    return True
                if la is not None and hb is not None and la >= hb:
                    return False
            elif c.op == "le":
                if ha is not None and lb is not None and ha <= lb:
                    return True
                if la is not None and hb is not None and la > hb:
                    return False
            elif kind(a) in ("int", "bool") and kind(b) in ("int", "bool"):
                if (ha is not None and lb is not None and ha < lb) or (hb is not None and la is not None and hb < la):
                    return False
                if la is not None and la == ha == lb == hb:
                    return True
        if _d == 0 and facts:
            m = None
            cnt = 0
            for t in walk(c):
                cnt += 1
                if cnt > 150:
                    m = None
                    break
                if t.__class__ is Term and t.kind == "bool":
                    if t in facts:
                        m = m or {}
                        m[t] = TRUE
                    elif neg_b(t) in facts:
                        m = m or {}
                        m[t] = FALSE
            if m:
                c2 = subst(c, m)
                if c2 is not c:
                    return self.decide(c2, 1)
        return None

    def _enum(self, c, doms):
        res = None
        idx = [0]

        def rec(k, env):
            nonlocal res
            if k == len(doms):
                try:
                    r = bool(ev(c, Env(env)))
                except Undecided:
                    raise
                if res is None:
                    res = r
                elif res != r:
                    raise StopIteration
                return
            l, f = doms[k]
            for v in f:
                env[l] = v
                rec(k + 1, env)
        try:
            rec(0, {})
        except StopIteration:
            return None
        except Exception:
            return None
        return res

    def simp(self, v):
        """Prune ite nodes whose condition is decided in the current state."""
        while isinstance(v, Term) and v.op == "ite":
            d = self.decide(v.args[0])
            if d is None:
                return v
            v = v.args[1] if d else v.args[2]
        return v

    def assume(self, c):
        if isinstance(c, Const):
            return
        if c.op == "conj":
            for x in c.args[0]:
                self.assume(x)
            return
        st = self.st
        if c in st.facts:
            return
        st.facts.add(c)
        self._bounds_of(c)
        if is_open(c):
            st.open += (c,)
        if st.open:
            self._resolve_open()

    def _resolve_open(self):
        """Unit propagation over the disjunctive facts (bounded: by membership only)."""
        st = self.st
        keep, new = [], []
        for c in st.open:
            neg = c.op == "not"
            t = c.args[0] if neg else c
            if t.op == "ite":
                if t.args[0] in st.facts:
                    new.append(neg_b(t.args[1]) if neg else t.args[1])
                elif neg_b(t.args[0]) in st.facts:
                    new.append(neg_b(t.args[2]) if neg else t.args[2])
                else:
                    keep.append(c)
                continue
            rest = [x for x in t.args[0] if x not in st.facts]
            if any(neg_b(x) in st.facts for x in rest):
                continue
            if len(rest) == 1:
                new.append(neg_b(rest[0]))
            else:
                keep.append(c)
        st.open = tuple(keep)
        for c in new:
            self.assume(c)

    def _bounds_of(self, c):
        st = self.st
        sup = support(c)
        if len(sup) == 1:
            (l,) = sup
            f = self.finite(l)
            if f is not None:
                try:
                    st.rng[l] = frozenset(v for v in f if ev(c, Env({l: v})))
                except Exception:
                    pass
                return
        if c.op == "not" and c.args[0].op == "eq":
            a, b = c.args[0].args
            if is_const(a):
                a, b = b, a
            if is_const(b) and isinstance(b.v, int) and isinstance(a, Term):
                r = st.rng.get(a)
                lo, hi = r if isinstance(r, tuple) else iv(a)
                if lo == b.v:
                    self._bound(a, lo + 1, None)
                elif hi == b.v:
                    self._bound(a, None, hi - 1)
        if c.op in ("eq", "lt", "le"):
            a, b = c.args
            if c.op == "eq":
                if is_const(b) and isinstance(b.v, int):
                    self._bound(a, b.v, b.v)
                elif is_const(a) and isinstance(a.v, int):
                    self._bound(b, a.v, a.v)
            else:
                s = 1 if c.op == "lt" else 0
                (la, _), (_, hb) = iv(a), iv(b)
                if hb is not None:
                    self._bound(a, None, hb - s)
                if la is not None:
                    self._bound(b, la + s, None)

    def _bound(self, t, lo, hi):
        if not isinstance(t, Term) or t.kind != "int":
            return
        if t.op == "lin" and len(t.args[0]) == 1:
            (a, k), = t.args[0]
            c = t.args[1]
            if k > 0:
                self._bound(a, None if lo is None else -((c - lo) // k), None if hi is None else (hi - c) // k)
            elif k < 0:
                k = -k
                self._bound(a, None if hi is None else -((hi - c) // k), None if lo is None else (c - lo) // k)
            return
        r = self.st.rng.get(t)
        if isinstance(r, frozenset):
            return
        l0, h0 = r if r is not None else iv(t)
        lo = l0 if lo is None else (lo if l0 is None else max(lo, l0))
        hi = h0 if hi is None else (hi if h0 is None else min(hi, h0))
        self.st.rng[t] = (lo, hi)

    # ------------------------------------------------------------ forking
    def branch(self, c, ft, ff):
        d = self.decide(c)
        if d is True:
            return ft()
        if d is False:
            return ff()
        s0 = self.st
        self.st = s0.copy()
        self.st.pc = s0.pc + (c,)
        self.assume(c)
        try:
            v1, s1 = ft(), self.st
        except DeadPath:
            v1 = s1 = None
        self.st = s0.copy()
        nc = neg_b(c)
        self.st.pc = s0.pc + (nc,)
        self.assume(nc)
        try:
            v2, s2 = ff(), self.st
        except DeadPath:
            v2 = s2 = None
        if s1 is None and s2 is None:
            raise DeadPath()
        if s1 is None:
            self.st = s2
            return v2
        if s2 is None:
            self.st = s1
            return v1
        self.st = self.join(c, s1, s2, self.joined_pc(s0.pc, (s1.pc, s2.pc)))
        return self.joinv(c, v1, v2)

    def joined_pc(self, pc, pcs):
        """Path condition after joining states forked at pc: what was lost to other exits stays excluded."""
        n = len(pc)
        d = cover([p[n:] for p in pcs])
        return pc if d is TRUE else pc + (d,)

    def joinv(self, c, a, b):
        if a is b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        if isinstance(a, SeqV) or isinstance(b, SeqV):
            return self.join_seq(c, a, b)
        if isinstance(a, DictV) or isinstance(b, DictV):
            return self.join_dict(c, a, b)
        return ite(c, a, b)

    def join_seq(self, c, a, b):
        if not (isinstance(a, SeqV) and isinstance(b, SeqV)):
            return ite(c, a, b)
        x, y = a.segs, b.segs
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]:
            n += 1
        pre, rx, ry = x[:n], x[n:], y[n:]
        if len(rx) == len(ry) and all(s[0] == "i" for s in rx + ry):
            return SEQ(pre + tuple(("i", self.joinv(c, s[1], t[1])) for s, t in zip(rx, ry)))
        out = list(pre)
        if rx:
            out.append(("g", c, rx))
        if ry:
            out.append(("g", neg_b(c), ry))
        return SEQ(out)

    def join_dict(self, c, a, b):
        if not (isinstance(a, DictV) and isinstance(b, DictV)) or a.base != b.base:
            return ite(c, a, b)
        kb = {k: (p, v) for k, p, v in b.entries}
        ka = {k for k, _, _ in a.entries}
        if len(ka) != len(a.entries) or len(kb) != len(b.entries) or \
                (not all(is_const(k) or isinstance(k, Ref) or getattr(k, "op", 0) == "enum" for k in ka | set(kb)) and ka != set(kb)):
            # symbolic keys: keep order of writes when one extends the other
            n = len(a.entries)
            if b.entries[:n] == a.entries:
                return DICT(a.entries + tuple((k, conj(neg_b(c), p), v) for k, p, v in b.entries[n:]), a.base)
            n = len(b.entries)
            if a.entries[:n] == b.entries:
                return DICT(b.entries + tuple((k, conj(c, p), v) for k, p, v in a.entries[n:]), a.base)
            return ite(c, a, b)
        out = []
        for k, p, v in a.entries:
            if k in kb:
                p2, v2 = kb[k]
                if p is FALSE:
                    v = v2
                elif p2 is FALSE:
                    v2 = v
                out.append((k, ite(c, p, p2), self.joinv(c, v, v2)))
            else:
                out.append((k, conj(c, p), v))
        for k, p, v in b.entries:
            if k not in ka:
                out.append((k, conj(neg_b(c), p), v))
        return DICT(out, a.base)

    def join(self, c, s1, s2, pc):
        out = State()
        h1, h2 = s1.heap, s2.heap
        h = dict(h1)
        if h1 is not h2 and h1 != h2:
            for k, v in h2.items():
                w = h1.get(k)
                if w is v:
                    continue
                if w is None:
                    w = self.base.get(k, UNDEF)
                    if w is UNDEF and k[0] not in self._shared_oids(s1, k[0]):
                        # object created on one side only
                        h[k] = v
                        continue
                h[k] = self.joinv(c, w, v) if w is not v else v
            for k, v in h1.items():
                if k not in h2:
                    w = self.base.get(k, UNDEF)
                    if w is UNDEF and k[0] not in self._shared_oids(s2, k[0]):
                        continue
                    if w is not v:
                        h[k] = self.joinv(c, v, w)
        out.heap = h
        out.facts = s1.facts & s2.facts
        out.open = tuple(sorted((c for c in out.facts if is_open(c)), key=lambda c: c.n))   # a branch may have resolved them
        for l, r in s1.rng.items():
            q = s2.rng.get(l)
            if q is None:
                continue
            if isinstance(r, frozenset) and isinstance(q, frozenset):
                out.rng[l] = r | q
            else:
                r = r if isinstance(r, tuple) else (min(r), max(r)) if r else (0, 0)
                q = q if isinstance(q, tuple) else (min(q), max(q)) if q else (0, 0)
                out.rng[l] = _hull(r, q)
        out.pc = pc
        return out

    def _shared_oids(self, s, oid):
        # an object exists on both sides when the other side has its marker
        return (oid,) if (oid, "$alive") in s.heap or (oid, "$alive") in self.base else ()

    def join_many(self, items, pc):
        """items: [(cond, state, value)], mutually exclusive; the last is the default."""
        c, st, v = items[-1]
        for cond, s, val in reversed(items[:-1]):
            st = self.join(cond, s, st, pc)
            v = self.joinv(cond, val, v)
        st.pc = self.joined_pc(pc, [s.pc for _, s, _ in items])
        return st, v

    def suffix(self, state, pc):
        return conj(*state.pc[len(pc):])

    # ------------------------------------------------------------ ite leaves
    def leaves(self, v, g=TRUE):
        """[(guard, leaf)] of an ite tree, infeasible leaves pruned."""
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            c = v.args[0]
            out = []
            for lit, w in ((c, v.args[1]), (neg_b(c), v.args[2])):
                g2 = conj(g, lit)
                if self.decide(g2) is False:
                    continue
                out.extend(self.leaves(w, g2))
            return out
        return [(g, v)]

    def map_pure(self, v, fn):
        """Map over ite leaves without forking (fn must not change the state)."""
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            c = v.args[0]
            return self.joinv(c, self.map_pure(v.args[1], fn), self.map_pure(v.args[2], fn))
        return fn(v)

    def map_fork(self, v, fn):
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            return self.branch(v.args[0], lambda: self.map_fork(v.args[1], fn), lambda: self.map_fork(v.args[2], fn))
        return fn(v)

    # ------------------------------------------------------------ summaries
    def template(self, v, depth=0, st=None):
        """Shape of a value: what an element of an unbounded sequence looks like."""
        if depth > 8:
            return ("any",)
        if isinstance(v, Const):
            return ("const", v)
        if isinstance(v, Term):
            if v.op == "ite":
                return self.merge_t(self.template(v.args[1], depth, st), self.template(v.args[2], depth, st))
            if v.op == "enum":
                return ("enum", v.args[0], self.template(v.args[1], depth, st))
            if v.kind == "int" and v.op == "lin" and iv(v)[0] is None and st is not None:
                # what is known on the path may bound it
                s0, self.st = self.st, st
                try:
                    if self.decide(le(ZERO, v)) is True:
                        return ("scalar", "int", (0, iv(v)[1]))
                finally:
                    self.st = s0
            return ("scalar", v.kind, iv(v) if v.kind in ("int", "bool") else (None, None))
        if isinstance(v, Tup):
            return ("tuple",) + tuple(self.template(x, depth + 1, st) for x in v.items)
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            heap = (st or self.st).heap
            if o.kind in ("list", "set", "deque", "bytearray"):
                p = heap.get((v.oid, "$"), self.base.get((v.oid, "$")))
                return (o.kind,) + self.seq_t(p, depth, st)
            if o.kind == "dict":
                p = heap.get((v.oid, "$"), self.base.get((v.oid, "$")))
                return self.dict_t(p, depth, st)
            if o.kind == "inst":
                attrs = {}
                for k, w in self.locs_of(v.oid, st):
                    if not k.startswith("$"):
                        attrs[k] = self.template(w, depth + 1, st)
                return ("inst", o.cls, tuple(sorted(attrs.items())))
            return ("static", v)
        if v is UNDEF:
            return ("undef",)
        return ("static", v)

    def seq_t(self, p, depth, st):
        its = items_of(p)
        if its is not None and len(its) <= 32:
            return ("fixed",) + tuple(self.template(x, depth + 1, st) for x in its)
        return ("var", self.elem_t(p, depth, st))

    def elem_t(self, p, depth=0, st=None):
        if isinstance(p, Term) and p.op == "ite":
            return self.merge_t(self.elem_t(p.args[1], depth, st), self.elem_t(p.args[2], depth, st))
        t = None
        for s in getattr(p, "segs", ()):
            if s[0] == "i":
                u = self.template(s[1], depth + 1, st)
            elif s[0] == "o":
                u = s[2]
            elif s[0] == "g":
                u = self.elem_t(SEQ(s[2]), depth, st)
            else:
                u = self.elem_t(SEQ(s[1].segs), depth, st)
            t = u if t is None else self.merge_t(t, u)
        return t

    def dict_t(self, p, depth, st):
        if isinstance(p, DictV) and p.base is None and all(q is TRUE and is_const(k) for k, q, _ in p.entries):
            return ("dict", "fixed") + tuple((k, self.template(v, depth + 1, st)) for k, _, v in p.entries)
        kt = vt = None
        if isinstance(p, DictV):
            if p.base:
                kt, vt = p.base[2], p.base[3]
            for k, _, v in p.entries:
                kt = self.merge_t(kt, self.template(k, depth + 1, st)) if kt else self.template(k, depth + 1, st)
                vt = self.merge_t(vt, self.template(v, depth + 1, st)) if vt else self.template(v, depth + 1, st)
        return ("dict", "var", kt, vt)

    def merge_t(self, a, b):
        if a == b or b is None:
            return a
        if a is None:
            return b
        na, nb = a == ("const", NONE), b == ("const", NONE)
        if a[0] == "opt" or b[0] == "opt" or na or nb:
            x = a[1] if a[0] == "opt" else (None if na else a)
            y = b[1] if b[0] == "opt" else (None if nb else b)
            return ("opt", self.merge_t(x, y))
        sa, sb = self._scal(a), self._scal(b)
        if sa and sb:
            k = sa[0] if sa[0] == sb[0] else ("int" if {sa[0], sb[0]} == {"int", "bool"} else "any")
            return ("scalar", k, _hull(sa[1], sb[1]))
        if a[0] == "enum" and b[0] == "enum" and a[1] is b[1]:
            return ("enum", a[1], self.merge_t(a[2], b[2]))
        if a[0] == "tuple" and b[0] == "tuple" and len(a) == len(b):
            return ("tuple",) + tuple(self.merge_t(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "inst" and b[0] == "inst" and a[1] is b[1]:
            da, db = dict(a[2]), dict(b[2])
            return ("inst", a[1], tuple(sorted((k, self.merge_t(da[k], db[k]) if k in da and k in db else da.get(k, db.get(k)))
                                               for k in set(da) | set(db))))
        if a[0] in ("inst", "oneof") and b[0] in ("inst", "oneof"):
            # objects of several classes
            out = list(a[1:]) if a[0] == "oneof" else [a]
            for t in (b[1:] if b[0] == "oneof" else [b]):
                k = next((i for i, u in enumerate(out) if u[1] is t[1]), None)
                if k is None:
                    out.append(t)
                else:
                    out[k] = self.merge_t(out[k], t)
            return ("oneof",) + tuple(out) if len({t[1].name for t in out}) == len(out) <= 5 else ("any",)
        if a[0] == b[0] and a[0] in ("list", "set", "deque"):
            if a[1] == "fixed" and b[1] == "fixed" and len(a) == len(b):
                return a[:2] + tuple(self.merge_t(x, y) for x, y in zip(a[2:], b[2:]))

            def el(t):
                if t[1] == "var":
                    return t[2]
                r = None
                for x in t[2:]:
                    r = self.merge_t(r, x) if r else x
                return r
            return (a[0], "var", self.merge_t(el(a), el(b)))
        if a[0] == "dict" and b[0] == "dict":
            if a[1] == "fixed" and b[1] == "fixed" and [k for k, _ in a[2:]] == [k for k, _ in b[2:]]:
                return a[:2] + tuple((k, self.merge_t(x, y)) for (k, x), (_, y) in zip(a[2:], b[2:]))

            def kv(t):
                if t[1] == "var":
                    return t[2], t[3]
                k = v = None
                for x, y in t[2:]:
                    k = self.merge_t(k, ("const", x)) if k else ("const", x)
                    v = self.merge_t(v, y) if v else y
                return k, v
            (k1, v1), (k2, v2) = kv(a), kv(b)
            return ("dict", "var", self.merge_t(k1, k2), self.merge_t(v1, v2))
        return ("any",)

    def _scal(self, t):
        if t[0] == "scalar":
            return t[1], t[2]
        if t[0] == "const":
            k = t[1].kind
            return (k, (int(t[1].v), int(t[1].v)) if k in ("int", "bool") else (None, None))
        return None

    def instantiate(self, t, leaf, idx, path=(), origin=None):
        """A symbolic value of the given shape; scalars become projections of (leaf, idx)."""
        if t is None:
            return unk("element of an empty sequence")
        k = t[0]
        if k == "const" or k == "static":
            return t[1]
        if k == "undef":
            return UNDEF
        if k == "scalar":
            dom = t[2] if t[2] != (None, None) and t[1] == "int" else None
            return T("proj", (leaf, idx, path), t[1], dom)
        if k == "any":
            return T("proj", (leaf, idx, path), "any")
        if k == "opt":
            return ite(T("proj", (leaf, idx, path + ("?none",)), "bool"), NONE, self.instantiate(t[1], leaf, idx, path))
        if k == "enum":
            return enum(t[1], self.instantiate(t[2], leaf, idx, path + ("value",)))
        if k == "oneof":
            which = T("proj", (leaf, idx, path + (("?which",) + tuple(u[1].name for u in t[1:]),)), "int", (0, len(t) - 2))
            alts = [self.instantiate(u, leaf, idx, path + ("?alt%d" % i,)) for i, u in enumerate(t[1:])]
            v = alts[-1]
            for i in range(len(alts) - 2, -1, -1):
                v = ite(eq(which, C(i)), alts[i], v)
            return v
        if k == "tuple":
            return TUP([self.instantiate(x, leaf, idx, path + (i,)) for i, x in enumerate(t[1:])])
        cls = t[1] if k == "inst" else None
        r = self.new_obj(k, cls, site="elem", opaque=True, origin=(leaf, idx, path))
        del self.st.heap[(r.oid, "$alive")]
        self.objs[r.oid].init = False
        self.base[(r.oid, "$alive")] = TRUE
        if k == "inst":
            for a, x in t[2]:
                self.setbase(r.oid, a, self.instantiate(x, leaf, idx, path + (a,)))
        elif k in ("list", "set", "deque", "bytearray"):
            if t[1] == "fixed":
                p = SEQ([("i", self.instantiate(x, leaf, idx, path + (i,))) for i, x in enumerate(t[2:])])
            else:
                p = SEQ([("o", T("proj", (leaf, idx, path), "seq"), t[2])])
            self.setbase(r.oid, "$", p)
        elif k == "dict":
            if t[1] == "fixed":
                p = DICT([(kk, TRUE, self.instantiate(x, leaf, idx, path + (repr(kk.v),))) for kk, x in t[2:]])
            elif t[2] is None:
                p = DICT(())
            else:
                p = DICT((), ("sym", T("proj", (leaf, idx, path), "dict"), t[2], t[3]))
            self.setbase(r.oid, "$", p)
        else:
            raise Incomplete("template %s" % k)
        return r

    def inst_at(self, t, leaf, idx):
        k = (t, leaf, idx)
        v = self._inst.get(k)
        if v is None:
            v = self._inst[k] = self.instantiate(t, leaf, idx)
        return v

    # ------------------------------------------------------------ sequences
    def seg_len(self, s):
        if s[0] == "i":
            return C(1)
        if s[0] == "o":
            n = self.seqlen.get(s[1])
            return n if n is not None else T("lenof", (s[1],), "int", (0, None))
        if s[0] == "g":
            return ite(s[1], self.seq_len(SEQ(s[2])), ZERO)
        r = s[1]
        per = self.seq_len(SEQ(r.segs))
        if is_const(per) and isinstance(r.n, Val):
            return mul(per, r.n)
        return T("lenof", (self.seq_leaf(SEQ((s,))),), "int", (0, None))

    def seq_len(self, p):
        if isinstance(p, Term) and p.op == "ite":
            return ite(p.args[0], self.seq_len(p.args[1]), self.seq_len(p.args[2]))
        if not isinstance(p, SeqV):
            return T("lenof", (p,), "int", (0, None)) if isinstance(p, Term) else unk("length", "int")
        n = ZERO
        for s in p.segs:
            n = add(n, self.seg_len(s))
        return n

    def elem_at(self, p, i):
        """Element i of a payload (0 <= i < len assumed)."""
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.elem_at(p.args[1], i), self.elem_at(p.args[2], i))
        segs = p.segs
        its = items_of(p)
        if its is not None:
            if is_const(i):
                return its[i.v] if -len(its) <= i.v < len(its) else unk("index")
            if not its:
                return unk("index")
            v = its[-1]
            for k in range(len(its) - 2, -1, -1):
                v = self.joinv(eq(i, C(k)), its[k], v)
            return v
        if is_const(i) and i.v < 0:
            # from the end
            k = -i.v
            tail = []
            for s in reversed(segs):
                if s[0] != "i":
                    break
                tail.append(s[1])
            if k <= len(tail):
                return tail[k - 1]
            i = add(self.seq_len(p), i)
        off = ZERO
        cases = []
        for s in segs:
            if s[0] == "g" and not self.plain_segs(s[2]):
                return self.inst_at(self.elem_t(p), self.seq_leaf(p), i)
            n = self.seg_len(s)
            j = sub(i, off)
            if s[0] == "i":
                v = s[1]
            elif s[0] == "o":
                v = self.inst_at(s[2], s[1], j)
            elif s[0] == "g":
                v = self.elem_at(SEQ(s[2]), j)
            else:
                v = self.rep_at(s[1], j)
                if v is None:
                    return self.inst_at(self.elem_t(p), self.seq_leaf(p), i)
            off = add(off, n)
            c = lt(i, off)
            if is_const(c):
                if c.v:
                    cases.append((TRUE, v))
                    break
                continue
            cases.append((c, v))
        if not cases:
            return unk("index")
        v = cases[-1][1]
        for c, w in reversed(cases[:-1]):
            v = self.joinv(c, w, v)
        return v

    def plain_segs(self, segs):
        return all(s[0] == "i" or s[0] == "g" and self.plain_segs(s[2]) for s in segs)

    def seq_leaf(self, p):
        if p not in self._seqleaf:
            l = self._seqleaf[p] = T("sym", ("seq%d" % len(SEQ_OF),), "seq")
            if self.loops:
                OWNER[l] = self.loops[-1].lid
            self.leafseq[l] = p
            SEQ_OF[l] = (self, p, None, None)
        return self._seqleaf[p]

    def rep_at(self, r, j):
        its = items_of(SEQ(r.segs))
        if its is None or len(its) != 1:
            return None
        key = ("rep", r, j)
        if key not in self._inst:
            m = {r.idx: j}
            for h in r.heads:
                m[h] = T("proj", (h, j, "@"), h.kind, h.dom)
            for h in self.inner_leaves(r):
                # a leaf of a loop inside the iteration
                m[h] = t = T("proj", (h, j, ("@", r.lid)), h.kind, h.dom)
                AT_OF[h, t.args[2]] = r.src
            self._inst[key] = self.clone_subst(its[0], m, {}, (r, j, ()))
        return self._inst[key]

    def inner_leaves(self, r):
        """Leaves in the elements of a Rep that belong to loops nested in the one that made it."""
        if r.src is None:
            return ()
        out = self._inner.get(r)
        if out is None:
            out, seen, refs = set(), set(), set()

            def go(v):
                if v.__class__ is tuple:
                    for x in v:
                        go(x)
                elif isinstance(v, Term):
                    for t in walk(v, seen):
                        if isinstance(t, Ref):
                            go(t)
                        elif t.__class__ is Term and t.op in LEAF_OPS:
                            own = owner(t)
                            i = self.info_of.get(leaf_lid(t) if own is None else own)
                            while i is not None and i is not r.src:
                                i = i.outer
                            if i is not None and (own is not None or leaf_lid(t) != r.lid):
                                out.add(t)
                elif isinstance(v, Tup):
                    go(v.items)
                elif isinstance(v, SeqV):
                    go(v.segs)
                elif isinstance(v, Rep):
                    go(v.n)
                    go(v.segs)
                elif isinstance(v, DictV):
                    go(v.entries)
                elif isinstance(v, Ref) and v.oid not in refs:
                    refs.add(v.oid)
                    if not self.objs[v.oid].init:
                        for k, w in self.locs_of(v.oid):
                            go(w)
            go(r.segs)
            out = self._inner[r] = sorted(out, key=lambda t: t.n)
        return out

    def clone_subst(self, v, m, memo, org):
        """Copy an object graph (frozen in base) with leaves substituted; org = (root, index, path)."""
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            o = self.objs[v.oid]
            locs = self.locs_of(v.oid)
            if not locs or o.init:
                return v
            r = self.new_obj(o.kind, o.cls, site=o.site, extra=o.extra, opaque=True, origin=org)
            del self.st.heap[(r.oid, "$alive")]
            self.objs[r.oid].init = False
            self.base[(r.oid, "$alive")] = TRUE
            memo[v] = r
            for k, w in locs:
                sub = (org[0], org[1], org[2] + (k,)) if k != "$" else org
                self.setbase(r.oid, k, self.clone_subst(w, m, memo, sub))
            return r
        if isinstance(v, Tup):
            return TUP([self.clone_subst(x, m, memo, (org[0], org[1], org[2] + (i,))) for i, x in enumerate(v.items)])
        if isinstance(v, Term):
            if v.op == "ite":
                return self.joinv(subst(v.args[0], m), self.clone_subst(v.args[1], m, memo, org), self.clone_subst(v.args[2], m, memo, org))
            return subst(v, m)
        if isinstance(v, SeqV):
            return SEQ([self._cs_seg(s, m, memo, (org[0], org[1], org[2] + (i,))) for i, s in enumerate(v.segs)])
        if isinstance(v, DictV):
            b = v.base
            if b:
                b = (b[0], subst(b[1], m), b[2], b[3])
            return DICT([(self.clone_subst(k, m, memo, org), subst(p, m), self.clone_subst(w, m, memo, (org[0], org[1], org[2] + ("*",))))
                         for k, p, w in v.entries], b)
        return v

    def _cs_seg(self, s, m, memo, org):
        if s[0] == "i":
            return ("i", self.clone_subst(s[1], m, memo, org))
        if s[0] == "o":
            return ("o", subst(s[1], m), s[2])
        if s[0] == "g":
            return ("g", subst(s[1], m), tuple(self._cs_seg(x, m, memo, org) for x in s[2]))
        r = s[1]
        if r.idx in m or r.heads and any(h in m for h in r.heads):
            # the iterations of an inner loop are those of the outer iteration
            if r.heads and isinstance(org[0], Rep) and org[0].src is not None:
                leaf, mark = self.seq_leaf(SEQ([s])), ("@", org[0].lid)
                AT_OF[leaf, mark] = org[0].src
                return ("o", T("proj", (leaf, org[1], mark), "seq"), self.elem_t(SEQ([s])))
            m = {k: v for k, v in m.items() if k is not r.idx and k not in r.heads}
        return ("r", Rep(r.lid, subst(r.n, m), r.idx, tuple(self._cs_seg(x, m, memo, org) for x in r.segs), r.heads, r.src))

    def frozen(self, oid):
        return [((oid, k), w) for k, w in self.locs_of(oid)]

    def freeze(self, v, st, seen=None):
        """Make the objects reachable from v (in state st) available as immutable summaries."""
        if seen is None:
            seen = set()
        for r in refs_in(v):
            if r.oid in seen:
                continue
            seen.add(r.oid)
            if (r.oid, "$alive") not in self.base and (r.oid, "$alive") in st.heap:
                self.base[(r.oid, "$alive")] = TRUE
            for k, w in self.locs_of(r.oid, st):
                if (r.oid, k) not in self.base:
                    self.base[(r.oid, k)] = w
                self.freeze(w, st, seen)


def refs_in(v, out=None):
    """References occurring in a value."""
    if out is None:
        out = []
    if isinstance(v, Ref):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_in(x, out)
    elif isinstance(v, Term):
        if v.op == "ite":
            refs_in(v.args[1], out)
            refs_in(v.args[2], out)
    elif isinstance(v, SeqV):
        for s in v.segs:
            _seg_refs(s, out)
    elif isinstance(v, DictV):
        for k, _, w in v.entries:
            refs_in(k, out)
            refs_in(w, out)
    elif isinstance(v, BoundV):
        refs_in(v.self, out)
    return out


def _seg_refs(s, out):
    if s[0] == "i":
        refs_in(s[1], out)
    elif s[0] == "g":
        for x in s[2]:
            _seg_refs(x, out)
    elif s[0] == "r":
        for x in s[1].segs:
            _seg_refs(x, out)
