"""Lists, dictionaries, sets, byte strings."""
from .core import *
from .terms import calc_struct
from .loopeval import OWNER, VALUE_OF, concrete, plain_value


class Containers:
    # ---------------------------------------------------------- sizes and payloads
    def len_of(self, v):
        v = self.simp(v)
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return C(len(v.v))
        if isinstance(v, Tup):
            return C(len(v.items))
        if isinstance(v, RangeV):
            return self.segs_len(self.range_segs(v))
        if isinstance(v, Term):
            if v.op == "ite":
                return self.joinv(v.args[0], self.len_of(v.args[1]), self.len_of(v.args[2]))
            if v.kind == "bytes":
                return self.bytes_len(v)
            if v.kind in ("str", "any"):
                return T("lenof", (v,), "int", (0, None))
            self.raise_exc("TypeError", C("no len()"))
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            p = self.get(v.oid, "$")
            if o.kind == "dictview":
                p = self.get(o.extra[1].oid, "$")
            if p is not None:
                if isinstance(p, DictV) or o.kind in ("dict", "dictview"):
                    return self.dict_len(p)
                if o.kind == "set":
                    return self.set_len(p)
                return self.seq_len(p)
            m = self.method(v, "__len__")
            if m is not None:
                return self.call(m, [], {})
            if o.kind == "inst" and o.cls.nt_fields:
                return C(len(o.cls.nt_fields))
        if isinstance(v, ClassV) and v.is_enum:
            return C(len(v.members))
        self.raise_exc("TypeError", C("object has no len()"))

    def set_len(self, p):
        its = items_of(p)
        if its is not None and all(is_const(x) for x in its):
            return C(len({x.v for x in its}))
        if isinstance(p, SeqV) and len(p.segs) <= 8 and all(sg[0] in "ig" for sg in p.segs):
            n = ZERO
            seen = []
            for sg in self.flat_guards(p.segs, TRUE):
                g, v = sg
                n = add(n, ite(conj(g, *[neg_b(conj(h, self.key_eq(w, v))) for h, w in seen]), C(1), ZERO))
                seen.append(sg)
            return n
        if isinstance(p, SeqV) and not p.segs:
            return ZERO
        return self.seq_len(self.set_view(p))

    def derived(self, name, p, fn=None, length=None, t=None):
        """A sequence computed from another one: its elements are those of p, or fn(elements of p, valuation)."""
        leaf = T("sym", (fresh(name),), "seq")
        if length is not None:
            self.seqlen[leaf] = length
        SEQ_OF[leaf] = (self, p, self.st.copy(), fn)
        if self.loops:
            OWNER[leaf] = self.loops[-1].lid
        return SEQ([("o", leaf, t or self.elem_t(p))])

    def derived_scalar(self, name, k, fn):
        """A value computed from sequences: fn(valuation)."""
        leaf = T("sym", (fresh(name),), k, (0, None) if k == "int" else None)
        VALUE_OF[leaf] = fn
        if self.loops:
            OWNER[leaf] = self.loops[-1].lid
        return leaf

    def set_view(self, p):
        """What an iteration over a set with this payload sees (the payload may name an element more than once)."""
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.set_view(p.args[1]), self.set_view(p.args[2]))
        if not isinstance(p, SeqV) or self.plain_segs(p.segs):
            return p
        v = self._setview.get(p)
        if v is None:
            leaf = T("sym", ("set%d" % len(SEQ_OF),), "seq")
            SEQ_OF[leaf] = (self, p, self.st.copy(), "set")
            if self.loops:
                OWNER[leaf] = self.loops[-1].lid
            v = self._setview[p] = SEQ([("o", leaf, self.elem_t(p))])
        return v

    def flat_guards(self, segs, g):
        out = []
        for sg in segs:
            if sg[0] == "i":
                out.append((g, sg[1]))
            else:
                out += self.flat_guards(sg[2], conj(g, sg[1]))
        return out

    def dict_len(self, p):
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.dict_len(p.args[1]), self.dict_len(p.args[2]))
        n = T("lenof", (p.base[1],), "int", (0, None)) if p.base else ZERO
        keys = [k for k, _, _ in p.entries]
        if all(is_const(k) or isinstance(k, Ref) for k in keys) and not p.base:
            for k, q, _ in p.entries:
                n = add(n, ite(q, C(1), ZERO))
            return n
        if not p.base:
            for _, q, _ in self.dict_entries(p):
                n = add(n, ite(q, C(1), ZERO))
            return n
        return T("lenof", (T("sym", ("dict", p), "dict"),), "int", (0, None))

    def payload_of(self, v):
        """The elements of an iterable as a sequence payload."""
        v = self.simp(v)
        if isinstance(v, Tup):
            return SEQ([("i", x) for x in v.items])
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            if o.kind == "set":
                return self.set_view(self.get(v.oid, "$"))
            if o.kind in ("list", "deque"):
                return self.get(v.oid, "$")
        if isinstance(v, Term) and v.op == "ite":
            return self.joinv(v.args[0], self.payload_of(v.args[1]), self.payload_of(v.args[2]))
        return self.materialize(v)

    def materialize(self, v):
        tmp = self.new_seq(SEQ(()), "list")
        self.drive(v, lambda x: self.list_append(tmp, x), None, self.cur_node)
        return self.get(tmp.oid, "$")

    # ---------------------------------------------------------- subscripts
    def get_item(self, o, k):
        o = self.simp(o)
        if isinstance(o, Term) and o.op == "ite":
            return self.map_fork(o, lambda x: self.get_item(x, k))
        if isinstance(k, tuple):
            return self.get_slice(o, k)
        k = self.simp(k)
        if isinstance(o, Ref):
            ob = self.objs[o.oid]
            if ob.cls is not None and not ob.cls.builtin:
                m = self.cls_lookup(ob.cls, "__getitem__")
                if m is not None and not isinstance(m, BuiltinV):
                    return self.call(m, [o, k], {})
            if ob.kind == "dict":
                return self.dict_get(o, k)
            p = self.get(o.oid, "$")
            if p is not None:
                return self.seq_get(p, k)
            if ob.kind == "inst" and ob.cls.nt_fields:
                return self.segs_elem([("i", self.get(o.oid, f)) for f in ob.cls.nt_fields], k)
            self.raise_exc("TypeError", C("not subscriptable"))
        if isinstance(o, Tup):
            return self.seq_get(SEQ([("i", x) for x in o.items]), k)
        if isinstance(o, Const):
            if isinstance(o.v, bytes) and is_const(k):
                return self.arith(lambda a, b: C(a.v[b.v]), o, k) if -len(o.v) <= k.v < len(o.v) else self.raise_exc("IndexError")
            if isinstance(o.v, (str, bytes)):
                its = [C(x) for x in o.v]
                return self.seq_get(SEQ([("i", x) for x in its]), k)
            self.raise_exc("TypeError", C("not subscriptable"))
        if isinstance(o, Term):
            if o.kind == "bytes":
                n = self.len_of(o)
                if is_const(k) and k.v < 0:
                    self.maybe_raise(lt(n, C(-k.v)), "IndexError")
                    k = add(n, k)
                else:
                    self.maybe_raise(le(n, k), "IndexError")
                return self.byte_at(o, k)
            if o.kind == "any":
                return T("getitem", (o, k), "any") if isinstance(k, (Const, Term)) else unk("item")
            if o.kind == "str":
                return T("getitem", (o, k), "str")
            self.raise_exc("TypeError", C("not subscriptable"))
        if isinstance(o, RangeV):
            return self.seq_get(SEQ([("i", v) for _, v in self.range_segs(o)]), k) if all(s[0] == "i" for s in self.range_segs(o)) else add(o.a, mul(k, o.s))
        if isinstance(o, ClassV):
            if o.is_enum and is_const(k):
                if k.v in o.members:
                    return enum(o, o.members[k.v])
                self.raise_exc("KeyError", k)
            return o           # a generic alias
        if isinstance(o, (OpaqueV, BuiltinV)):
            return o if not isinstance(o, OpaqueV) else opaque(o.path + "[]") if not o.path.startswith("typing") else o
        return unk("item")

    def norm_index(self, n, k, exc="IndexError"):
        """Bounds check; the non-negative index."""
        lo, hi = iv(k)
        if lo is not None and lo >= 0:
            self.maybe_raise(le(n, k), exc)
            return k
        if hi is not None and hi < 0:
            self.maybe_raise(lt(add(n, k), ZERO), exc)
            return k if is_const(k) else add(n, k)
        d = self.decide(lt(k, ZERO))
        if d is False:
            self.maybe_raise(le(n, k), exc)
            return k
        if d is True:
            self.maybe_raise(lt(add(n, k), ZERO), exc)
            return add(n, k)
        self.maybe_raise(disj(le(n, k), lt(add(n, k), ZERO)), exc)
        return ite(lt(k, ZERO), add(n, k), k)

    def to_index(self, k):
        k = self.simp(k)
        if getattr(k, "op", 0) == "enum" and k.args[0].is_int:
            return k.args[1]
        if kind(k) in ("float", "str", "none", "bytes") or isinstance(k, (Tup, Ref)) or getattr(k, "op", 0) == "enum":
            if isinstance(k, Ref):
                m = self.method(k, "__index__")
                if m is not None:
                    return self.call(m, [], {})
            self.raise_exc("TypeError", C("indices must be integers"))
        return k

    def seq_get(self, p, k):
        k = self.to_index(k)
        n = self.seq_len(p)
        if is_const(k) and isinstance(k.v, bool):
            k = C(int(k.v))
        if not (is_const(k) and isinstance(k.v, int) and self.has_items(p, k.v)):
            k = self.norm_index(n, k)
        return self.simp(self.elem_at(p, k))

    def has_items(self, p, k):
        """The constant index k falls on one of the single items the payload starts or ends with."""
        if isinstance(p, Term) and p.op == "ite":
            return self.has_items(p.args[1], k) and self.has_items(p.args[2], k)
        if not isinstance(p, SeqV):
            return False
        n = 0
        for s in (p.segs if k >= 0 else reversed(p.segs)):
            if s[0] != "i":
                break
            n += 1
        return -n <= k < 0 or 0 <= k < n

    def get_slice(self, o, k):
        _, a, b, s = k
        if isinstance(o, Const) and all(is_const(x) for x in (a, b, s)):
            return C(o.v[a.v:b.v:s.v])
        if isinstance(o, Term) and o.kind == "bytes":
            return self.bytes_slice(o, a, b, s)
        if isinstance(o, Term) and o.kind in ("str", "any"):
            return T("slice", (o, a, b, s), o.kind)
        if isinstance(o, Tup) and all(is_const(x) for x in (a, b, s)):
            return TUP(o.items[a.v:b.v:s.v])
        if isinstance(o, RangeV):
            o = self.new_seq(self.materialize(o))
        if isinstance(o, Ref):
            p = self.get(o.oid, "$")
            ob = self.objs[o.oid]
            if p is None:
                m = self.method(o, "__getitem__")
                if m is not None:
                    return self.call(m, [opaque("slice")], {})
                self.raise_exc("TypeError", C("not subscriptable"))
            kd = "bytearray" if ob.kind == "bytearray" else "list"
            return self.new_seq(self.slice_payload(p, a, b, s), kd)
        if isinstance(o, (ClassV, OpaqueV)):
            return o
        return unk("slice")

    def slice_payload(self, p, a, b, s):
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.slice_payload(p.args[1], a, b, s), self.slice_payload(p.args[2], a, b, s))
        its = items_of(p)
        if its is not None and all(is_const(x) for x in (a, b, s)):
            return SEQ([("i", x) for x in its[a.v:b.v:s.v]])
        one = s is NONE or (is_const(s) and s.v == 1)
        if one and (a is NONE or (is_const(a) and a.v == 0)) and b is NONE:
            return p
        if one and is_const(a) and a.v and a.v > 0 and b is NONE and len(p.segs) >= a.v and all(x[0] == "i" for x in p.segs[:a.v]):
            return SEQ(p.segs[a.v:])
        # a contiguous or strided part of the sequence: same kind of elements
        n = self.seq_len(p)
        def cut(xs, env):
            i, j, st = (None if x is NONE else ev(x, env) for x in (a, b, s))
            return xs[i:j:st]
        t = self.elem_t(p)
        if t is None:
            self.event("opaque_slice", payload=p)
            return SEQ(())
        if one and b is NONE and a is not NONE and iv(a)[0] is not None and iv(a)[0] >= 0:
            return self.derived("slice", p, cut, ite(le(a, n), sub(n, a), ZERO))
        if one and (a is NONE or (is_const(a) and a.v == 0)) and b is not NONE and iv(b)[0] is not None and iv(b)[0] >= 0:
            q = self.derived("slice", p, cut, ite(le(b, n), b, n))
            self.slices[q.segs[0][1]] = p
            return q
        q = self.derived("slice", p, cut)
        self.event("opaque_slice", payload=p, leaf=q.segs[0][1])
        return q

    def set_item(self, o, k, v):
        o = self.simp(o)
        if isinstance(o, Term) and o.op == "ite":
            ls = self.leaves(o)
            if not isinstance(k, tuple) and all(isinstance(x, Ref) and self.objs[x.oid].kind in ("list", "dict") for _, x in ls):
                # a conditional target: a guarded store into each candidate
                for g, x in ls:
                    self.branch(g, lambda: self.set_item(x, k, v), lambda: None)
                return
            return self.map_fork(o, lambda x: self.set_item(x, k, v))
        if isinstance(o, Ref):
            ob = self.objs[o.oid]
            if ob.cls is not None and not ob.cls.builtin:
                m = self.cls_lookup(ob.cls, "__setitem__")
                if m is not None and not isinstance(m, BuiltinV):
                    return self.call(m, [o, k, v], {})
            if ob.kind == "dict":
                k = self.simp(k)
                self.put(o.oid, "$", self.dict_put(self.get(o.oid, "$"), k, v))
                if ob.extra and ob.extra[0] == "instdict" and is_const(k):
                    self.put(ob.extra[1].oid, k.v, v)
                return
            p = self.get(o.oid, "$")
            if p is None:
                self.raise_exc("TypeError", C("does not support item assignment"))
            if isinstance(k, tuple):
                _, a, b, s = k
                its = items_of(p)
                new = items_of(self.payload_of(v))
                if its is not None and new is not None and all(is_const(x) for x in (a, b, s)):
                    its = list(its)
                    its[a.v:b.v:s.v] = new
                    self.put(o.oid, "$", SEQ([("i", x) for x in its]))
                    return
                if a is NONE and b is NONE:
                    self.put(o.oid, "$", self.payload_of(v))
                    return
                t = self._smerge(self.elem_t(p), self.elem_t(self.payload_of(v)))
                self.put(o.oid, "$", SEQ([("o", T("sym", (fresh("spliced"),), "seq"), t)]))
                return
            k = self.to_index(k)
            n = self.seq_len(p)
            k = self.norm_index(n, k)
            self.put(o.oid, "$", self.seq_put(p, k, v))
            return
        self.raise_exc("TypeError", C("does not support item assignment"))

    def seq_put(self, p, k, v):
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.seq_put(p.args[1], k, v), self.seq_put(p.args[2], k, v))
        its = items_of(p)
        if its is not None:
            if is_const(k):
                its = list(its)
                its[k.v] = v
                return SEQ([("i", x) for x in its])
            return SEQ([("i", self.joinv(eq(k, C(j)), v, x)) for j, x in enumerate(its)])
        if is_const(k):
            segs = list(p.segs)
            if k.v >= 0 and len(segs) > k.v and all(s[0] == "i" for s in segs[:k.v + 1]):
                segs[k.v] = ("i", v)
                return SEQ(segs)
            if k.v < 0 and len(segs) >= -k.v and all(s[0] == "i" for s in segs[k.v:]):
                segs[k.v] = ("i", v)
                return SEQ(segs)
        t = self._smerge(self.elem_t(p), self.template(v, 1))
        def put(xs, env):
            xs = list(xs)
            xs[ev(k, env)] = plain_value(self, v, env, st)
            return xs
        st = self.st.copy()
        return self.derived("upd", p, put, self.seq_len(p), t)

    def del_item(self, o, k):
        if isinstance(o, Ref):
            ob = self.objs[o.oid]
            p = self.get(o.oid, "$")
            if ob.kind == "dict":
                k = self.simp(k)
                self.maybe_raise(neg_b(self.dict_has(p, k)), "KeyError", k if isinstance(k, Val) else NONE)
                self.put(o.oid, "$", self.dict_del(self.get(o.oid, "$"), k))
                return
            its = items_of(p)
            if its is not None:
                its = list(its)
                if isinstance(k, tuple):
                    if all(is_const(x) for x in k[1:]):
                        del its[k[1].v:k[2].v:k[3].v]
                        self.put(o.oid, "$", SEQ([("i", x) for x in its]))
                        return
                elif is_const(k):
                    if not -len(its) <= k.v < len(its):
                        self.raise_exc("IndexError")
                    del its[k.v]
                    self.put(o.oid, "$", SEQ([("i", x) for x in its]))
                    return
            if p is not None:
                def cut(xs, env):
                    xs = list(xs)
                    if isinstance(k, tuple):
                        del xs[slice(*[None if x is NONE else ev(x, env) for x in k[1:]])]
                    else:
                        del xs[ev(k, env)]
                    return xs
                n = None
                if not isinstance(k, tuple):
                    k = self.to_index(k)
                    n = self.seq_len(p)
                    self.norm_index(n, k)
                    n = sub(n, C(1))
                self.put(o.oid, "$", self.derived("del", p, cut, n))
                return
        self.raise_exc("TypeError")

    # ---------------------------------------------------------- dictionaries
    def key_eq(self, a, b):
        if a is b:
            return TRUE
        return self.truthy(self.compare_eq(a, b))

    def dict_get(self, o, k, default=None):
        p = self.get(o.oid, "$")
        ob = self.objs[o.oid]
        has, v = self.dict_find(p, k)
        if default is not None:
            return self.joinv(has, v, default) if v is not None and self.decide(has) is not False else default
        if ob.extra and ob.extra[0] == "defaultdict":
            d = self.decide(has)
            if d is True:
                return v

            def miss():
                nv = self.call(ob.extra[1], [], {})
                self.put(o.oid, "$", self.dict_put(self.get(o.oid, "$"), k, nv))
                return nv
            return self.branch(has, lambda: v, miss)
        self.maybe_raise(neg_b(has), "KeyError", k)
        return self.simp(v) if v is not None else unk("item")

    def dict_find(self, p, k):
        """(present, value)"""
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            h1, v1 = self.dict_find(p.args[1], k)
            h2, v2 = self.dict_find(p.args[2], k)
            return ite(p.args[0], h1, h2), self.joinv(p.args[0], v1, v2)
        has, val = FALSE, None
        if p.base:
            has = T("proj", (p.base[1], k, ("?in",)), "bool")
            val = self.inst_at(p.base[3], p.base[1], k)
            key = p.base[2]
            if key is not None and key[0] == "const" and is_const(k) and key[1] is not k:
                has = FALSE
        for kk, q, v in p.entries:
            c = self.key_eq(kk, k)
            if c is FALSE:
                continue
            hit = conj(c, q)
            has = disj(hit, has)
            val = v if val is None else self.joinv(hit, v, val)
        return has, val

    def dict_has(self, p, k):
        return self.dict_find(p, k)[0]

    def dict_put(self, p, k, v):
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.dict_put(p.args[1], k, v), self.dict_put(p.args[2], k, v))
        ents = []
        done = False
        for kk, q, w in p.entries:
            c = self.key_eq(kk, k)
            if c is TRUE:
                ents.append((kk, TRUE, v))
                done = True
            elif c is FALSE or not done and False:
                ents.append((kk, q, w))
            else:
                ents.append((kk, q, w))
        if done:
            return DICT(ents, p.base)
        return DICT(tuple(ents) + ((k, TRUE, v),), p.base)

    def dict_del(self, p, k):
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.dict_del(p.args[1], k), self.dict_del(p.args[2], k))
        ents = []
        for kk, q, w in p.entries:
            c = self.key_eq(kk, k)
            if c is TRUE:
                continue
            ents.append((kk, conj(q, neg_b(c)), w))
        base = p.base
        if base:
            base = (base[0], T("sym", (fresh("dictdel"),), "dict"), base[2], base[3])
        return DICT(ents, base)

    def dict_segs(self, p, what):
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return [("g", p.args[0], self.dict_segs(p.args[1], what)), ("g", neg_b(p.args[0]), self.dict_segs(p.args[2], what))]

        def pick(k, v):
            return {"keys": k, "values": v, "items": TUP([k, v])}[what]
        out = []
        if p.base:
            lf = p.base[1]
            n = T("lenof", (lf,), "int", (0, None))

            def get(i, lf=lf, b=p.base):
                key = self.inst_at(b[2], T("sym", ("keys", lf), "seq"), i)
                if isinstance(key, (Const, Term, Tup)):
                    return pick(key, self.inst_at(b[3], lf, key))
                return pick(key, self.inst_at(b[3], lf, i))
            out.append(("n", n, get))
        for k, q, v in self.dict_entries(p):
            if q is TRUE:
                out.append(("i", pick(k, v)))
            elif q is not FALSE:
                out.append(("g", q, [("i", pick(k, v))]))
        return out

    def dict_entries(self, p):
        """The entries of a dictionary, each key once (symbolic keys may coincide)."""
        es = list(p.entries)
        if p.base or all(is_const(k) for k, _, _ in es):
            return es
        out = []
        for i, (k, q, v) in enumerate(es):
            for kk, qq, _ in es[:i]:
                q = conj(q, neg_b(conj(self.key_eq(kk, k), qq)))
            for kk, qq, vv in es[i + 1:]:
                c = conj(self.key_eq(kk, k), qq)
                if c is not FALSE:
                    v = self.joinv(c, vv, v)
            out.append((k, q, v))
        return out

    def dict_update(self, r, o):
        o = self.simp(o)
        if isinstance(o, Ref) and self.objs[o.oid].kind == "dict":
            p = self.get(o.oid, "$")
            q = self.get(r.oid, "$")
            if isinstance(p, DictV) and isinstance(q, DictV) and p.base is None and all(x[1] is TRUE for x in p.entries):
                for k, _, v in p.entries:
                    q = self.dict_put(q, k, v)
                self.put(r.oid, "$", q)
                ex = self.objs[r.oid].extra
                if ex and ex[0] == "instdict":
                    for k, _, v in p.entries:
                        self.put(ex[1].oid, k.v, v)
                return
            if isinstance(q, DictV) and not q.entries and not q.base:
                self.put(r.oid, "$", p)
                return
            self.drive_segs(self.dict_segs(p, "items"), lambda kv: self.set_item(r, kv.items[0], kv.items[1]), None, self.cur_node)
            return

        def one(x):
            k, v = self.unpack(x, 2)
            self.set_item(r, k, v)
        self.drive(o, one, None, self.cur_node)

    # ---------------------------------------------------------- membership
    def contains(self, o, k):
        o = self.simp(o)
        if isinstance(o, Term) and o.op == "ite":
            return self.map_fork(o, lambda x: self.contains(x, k))
        if isinstance(o, Ref):
            ob = self.objs[o.oid]
            if ob.kind == "dict":
                return self.dict_has(self.get(o.oid, "$"), k)
            if ob.kind == "dictview":
                if ob.extra[0] == "keys":
                    return self.dict_has(self.get(ob.extra[1].oid, "$"), k)
            m = self.method(o, "__contains__") if ob.cls is not None and not ob.cls.builtin else None
            if m is not None:
                return self.truthy(self.call(m, [k], {}))
            p = self.get(o.oid, "$")
            if p is not None and isinstance(p, SeqV):
                return self.seq_contains(p, k)
        if isinstance(o, Tup):
            return disj(*[self.key_eq(x, k) for x in o.items])
        if isinstance(o, RangeV):
            k = self.simp(k)
            if kind(k) in ("int", "bool") and is_const(o.s):
                if o.s.v == 1:
                    return conj(le(o.a, k), lt(k, o.b))
                if o.s.v > 0:
                    return conj(le(o.a, k), lt(k, o.b), eq(mod(sub(k, o.a), o.s), ZERO))
            return FALSE if kind(k) in ("str", "none", "bytes") else unk("in range", "bool")
        if isinstance(o, Const) and isinstance(o.v, (str, bytes)):
            if is_const(k):
                return self.arith(lambda a, b: C(b.v in a.v), o, k)
            if isinstance(o.v, bytes) and kind(k) == "int":
                return disj(*[eq(k, C(b)) for b in sorted(set(o.v))])
            return T("contains", (o, k), "bool") if isinstance(k, Term) else FALSE
        if isinstance(o, ClassV) and o.is_enum:
            return disj(*[self.key_eq(enum(o, m), k) if getattr(k, "op", 0) == "enum" else self.key_eq(m, k) for m in o.members.values()])
        if getattr(o, "op", 0) == "enum" and o.args[0].is_flag and getattr(k, "op", 0) == "enum":
            return eq(band(o.args[1], k.args[1]), k.args[1])
        if isinstance(o, Term) and isinstance(k, (Const, Term)):
            return T("contains", (o, k), "bool")
        found = self.new_obj("env")
        return self.search(o, lambda v: self.key_eq(v, k))

    def seq_contains(self, p, k):
        if isinstance(p, SeqV) and all(sg[0] in "ig" for sg in p.segs):
            r = FALSE
            for g, x in self.flat_guards(p.segs, TRUE):
                r = disj(r, conj(g, self.key_eq(x, k)))
            return r
        return self.search_segs(self.payload_segs(p), lambda v: self.key_eq(v, k))

    def search(self, o, pred):
        """any(pred(x) for x in o)"""
        from .loops import Tag
        tag = Tag()
        cell = self.new_obj("env")
        pc = self.st.pc

        def each(v):
            self.branch(pred(v), lambda: self.stash("break", None, tag), lambda: None)
        st, _, pend = self.region(lambda: self.drive(o, each, tag, self.cur_node))
        return self._found(st, pend, tag, pc)

    def search_segs(self, segs, pred):
        from .loops import Tag
        tag = Tag()
        pc = self.st.pc

        def each(v):
            self.branch(pred(v), lambda: self.stash("break", None, tag), lambda: None)
        st, _, pend = self.region(lambda: self.drive_segs(segs, each, tag, self.cur_node))
        return self._found(st, pend, tag, pc)

    def _found(self, st, pend, tag, pc):
        outs = [(st, FALSE)] if st is not None else []
        for p in pend:
            if p.kind == "break" and p.tag is tag:
                outs.append((p.state, TRUE))
            else:
                self.pends[-1].append(p)
        return self.merge_outcomes(outs, pc)

    # ---------------------------------------------------------- lists
    def list_append(self, r, v):
        p = self.get(r.oid, "$")
        self.put(r.oid, "$", self.cat(p, SEQ([("i", v)])))

    def list_extend(self, r, o):
        o = self.simp(o)
        if isinstance(o, (Tup,)) or isinstance(o, Ref) and self.objs[o.oid].kind in ("list", "deque"):
            self.put(r.oid, "$", self.cat(self.get(r.oid, "$"), self.payload_of(o)))
            return
        self.drive(o, lambda v: self.list_append(r, v), None, self.cur_node)

    def set_add(self, r, v):
        p = self.get(r.oid, "$")
        its = items_of(p)
        if isinstance(p, SeqV) and len(p.segs) <= 8 and all(sg[0] in "ig" for sg in p.segs):
            c = self.seq_contains(p, v)
            if c is TRUE:
                return
            if c is not FALSE:
                self.put(r.oid, "$", self.cat(p, SEQ([("g", neg_b(c), (("i", v),))])))
                return
        self.put(r.oid, "$", self.cat(p, SEQ([("i", v)])))

    # ---------------------------------------------------------- bytes
    def bytes_len(self, v):
        if is_const(v):
            return C(len(v.v))
        if v.op == "bcat":
            return add(self.bytes_len(v.args[0]), self.bytes_len(v.args[1]))
        if v.op == "bytes":
            return C(len(v.args))
        if v.op == "ite":
            return self.joinv(v.args[0], self.bytes_len(v.args[1]), self.bytes_len(v.args[2]))
        n = v.args[2] if v.op == "read" else None
        hi = iv(n)[1] if n is not None else None
        t = T("slen", (v,), "int", (0, hi))
        return self.pinned(t)

    def pinned(self, t):
        """Replace read lengths that are known exactly in this state."""
        if not isinstance(t, Term):
            return t
        m = {}
        for l in support(t):
            if l.op == "slen":
                r = self.st.rng.get(l)
                if isinstance(r, frozenset) and len(r) == 1:
                    m[l] = C(next(iter(r)))
                elif isinstance(r, tuple) and r[0] is not None and r[0] == r[1]:
                    m[l] = C(r[0])
                else:
                    n = l.args[0].args[2] if l.args[0].op == "read" else None
                    if n is not None and not is_const(n) and eq(l, n) in self.st.facts:
                        m[l] = n
        return subst(t, m) if m else t

    def byte_at(self, v, i):
        """Byte i of a byte string (i within bounds)."""
        if is_const(v):
            if is_const(i):
                return C(v.v[i.v])
            return self.segs_elem([("i", C(x)) for x in v.v], i)
        if v.op == "ite":
            return self.joinv(v.args[0], self.byte_at(v.args[1], i), self.byte_at(v.args[2], i))
        if v.op == "read":
            return T("byte", (v.args[0], self.pinned(add(v.args[1], i))), "int", (0, 255))
        if v.op == "bytes":
            return self.segs_elem([("i", x) for x in v.args], i)
        if v.op == "bcat":
            n = self.bytes_len(v.args[0])
            c = lt(i, n)
            d = self.decide(c)
            if d is True:
                return self.byte_at(v.args[0], i)
            if d is False:
                return self.byte_at(v.args[1], sub(i, n))
            return self.joinv(c, self.byte_at(v.args[0], i), self.byte_at(v.args[1], sub(i, n)))
        if is_leaf(v):
            return T("proj", (v, i, ("byte",)), "int", (0, 255))
        return T("getitem", (v, i), "int", (0, 255))

    def bytes_slice(self, v, a, b, s):
        if v.op == "ite":
            return self.joinv(v.args[0], self.bytes_slice(v.args[1], a, b, s), self.bytes_slice(v.args[2], a, b, s))
        if s is not NONE and not (is_const(s) and s.v == 1):
            if is_const(s) and s.v == -1 and a is NONE and b is NONE:
                n = self.bytes_len(v)
                if is_const(n):
                    return T("bytes", tuple(self.byte_at(v, C(i)) for i in range(n.v - 1, -1, -1)), "bytes")
            return T("slice", (v, a, b, s), "bytes")
        n = self.bytes_len(v)
        a = ZERO if a is NONE else a
        if is_const(a) and a.v < 0 and is_const(n):
            a = C(max(n.v + a.v, 0))
        if b is not NONE and is_const(b) and b.v < 0 and is_const(n):
            b = C(max(n.v + b.v, 0))
        if v.op == "read" and is_const(a) and a.v >= 0:
            pos = self.pinned(add(v.args[1], a))
            cap = v.args[2]
            if b is NONE:
                if cap is NONE:
                    return T("read", (v.args[0], pos, NONE), "bytes")
                return T("read", (v.args[0], pos, self.nonneg(sub(cap, a))), "bytes")
            if is_const(b) and b.v >= 0 and (is_const(cap) or cap is NONE):
                m = b.v if cap is NONE else min(b.v, cap.v)
                return T("read", (v.args[0], pos, C(max(m - a.v, 0))), "bytes")
        if is_const(n) and is_const(a) and (b is NONE or is_const(b)):
            rng = range(n.v)[a.v:None if b is NONE else b.v]
            return T("bytes", tuple(self.byte_at(v, C(i)) for i in rng), "bytes") if rng else C(b"")
        return T("slice", (v, a, b, NONE), "bytes")

    def bytes_eq(self, a, b):
        if is_const(b) and not isinstance(b.v, bytes):
            return FALSE
        if not (isinstance(b, (Const, Term)) and kind(b) == "bytes"):
            return FALSE if not isinstance(b, Term) else T("eq", (a, b), "bool")
        if a is b:
            return TRUE
        n, m = self.bytes_len(a), self.bytes_len(b)
        if is_const(m) or is_const(n):
            k = m if is_const(m) else n
            c = eq(n, m)
            if c is FALSE:
                return FALSE
            return conj(c, *[eq(self.byte_at(a, C(i)), self.byte_at(b, C(i))) for i in range(k.v)])
        return T("eq", (a, b), "bool")

    def bytes_cat(self, a, b):
        if is_const(a) and is_const(b):
            return C(a.v + b.v)
        if is_const(a) and not a.v:
            return b
        if is_const(b) and not b.v:
            return a
        return T("bcat", (a, b), "bytes")

    def from_bytes(self, v, order, signed):
        """int.from_bytes of a byte string of known length, else an opaque decoding."""
        if isinstance(v, Tup) or isinstance(v, Ref):
            its = self.known_items(v)
            if its is None:
                its = items_of(self.payload_of(v))
            if its is None:
                return unk("from_bytes", "int")
            return self.combine(its, order, signed)
        if isinstance(v, Term) and v.op == "ite":
            return self.map_pure(v, lambda x: self.from_bytes(x, order, signed))
        n = self.len_of(v)
        if is_const(n) and n.v <= 16:
            return self.combine([self.byte_at(v, C(i)) for i in range(n.v)], order, signed)
        return T("frombytes", (v, order, signed), "int", None if signed else (0, None))

    def combine(self, its, order, signed):
        if order == "native":
            if len(its) < 2:
                return self.combine(its, "little", signed)
            return ite(HOST_LITTLE, self.combine(its, "little", signed), self.combine(its, "big", signed))
        if order == "big":
            its = list(reversed(its))
        r = ZERO
        for i, b in enumerate(its):
            r = add(r, mul(b, C(1 << (8 * i))))
        if signed and its:
            r = T("signed", (r, 8 * len(its)), "int") if not is_const(r) else C(r.v - (1 << 8 * len(its)) if r.v >> (8 * len(its) - 1) else r.v)
        return r

    def struct_unpack(self, fmt, data, off=ZERO):
        order, items, size = calc_struct(fmt)
        out = []
        for code, o, sz in items:
            bs = [self.byte_at(data, add(off, C(o + i))) for i in range(sz)]
            if code == "s":
                out.append(T("bytes", tuple(bs), "bytes"))
            elif code == "?":
                out.append(ne(bs[0], ZERO))
            elif code == "c":
                out.append(T("bytes", tuple(bs), "bytes"))
            elif code in "fd":
                out.append(unk("float field", "float"))
            else:
                od = {"<": "little", ">": "big", "!": "big"}.get(order, "native")
                sg = code in "bhilqn"
                if sz == 1 and not sg:
                    out.append(bs[0])
                else:
                    out.append(self.combine(bs, "little" if sz == 1 else od, sg))
        return TUP(out)
