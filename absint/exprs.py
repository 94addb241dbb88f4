"""Expressions."""
import ast

from .core import *
from .loopeval import concrete, known

_BINOPS = {ast.Add: (add, "__add__", "__radd__"), ast.Sub: (sub, "__sub__", "__rsub__"), ast.Mult: (mul, "__mul__", "__rmul__"),
           ast.FloorDiv: (fdiv, "__floordiv__", "__rfloordiv__"), ast.Mod: (mod, "__mod__", "__rmod__"),
           ast.Div: (tdiv, "__truediv__", "__rtruediv__"), ast.Pow: (pow_, "__pow__", "__rpow__"),
           ast.LShift: (shl, "__lshift__", "__rlshift__"), ast.RShift: (shr, "__rshift__", "__rrshift__"),
           ast.BitAnd: (band, "__and__", "__rand__"), ast.BitOr: (bor, "__or__", "__ror__"), ast.BitXor: (bxor, "__xor__", "__rxor__")}
NUM = ("int", "bool", "float")


class Exprs:
    def ev(self, e):
        self.cur_node = e
        self.stats["nodes"] += 1
        m = getattr(self, "e_" + e.__class__.__name__, None)
        if m is None:
            raise Incomplete("expression %s at %s" % (e.__class__.__name__, self.site_of(e)))
        return m(e)

    def e_Constant(self, e):
        return C(e.value)

    def e_Name(self, e):
        return self.load_name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.cur_node = e
        return self.load_attr(o, e.attr)

    def e_Tuple(self, e):
        return self.build(e.elts, tuple)

    def e_List(self, e):
        return self.build(e.elts, list)

    def build(self, elts, ty):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.payload_of(self.ev(x.value)).segs)
            else:
                segs.append(("i", self.ev(x)))
        if ty is tuple and all(s[0] == "i" for s in segs):
            return TUP([s[1] for s in segs])
        return self.new_seq(SEQ(segs), "list")

    def e_Set(self, e):
        r = self.new_seq(SEQ(()), "set")
        for x in e.elts:
            self.set_add(r, self.ev(x))
        return r

    def e_Dict(self, e):
        r = self.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v))
                continue
            kk = self.ev(k)
            vv = self.ev(v)
            self.raw_put(r.oid, "$", self.dict_put(self.get(r.oid, "$"), kk, vv))
        return r

    def e_Starred(self, e):
        raise Incomplete("starred expression")

    def e_Slice(self, e):
        return self.ev_index(e)

    def ev_index(self, e):
        if isinstance(e, ast.Slice):
            return ("slice",) + tuple(self.ev(x) if x is not None else NONE for x in (e.lower, e.upper, e.step))
        return self.ev(e)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        self.cur_node = e
        return self.get_item(o, k)

    def e_IfExp(self, e):
        c = self.truthy(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            c = self.truthy(v)
            if isand:
                return self.branch(c, lambda: go(i + 1), lambda: v if kind(v) != "bool" else FALSE)
            return self.branch(c, lambda: v if kind(v) != "bool" else TRUE, lambda: go(i + 1))
        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return neg_b(self.truthy(v))

        def go(x):
            if isinstance(x, Ref):
                m = self.method(x, {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)])
                if m is not None:
                    return self.call(m, [], {})
                self.raise_exc("TypeError")
            if isinstance(e.op, ast.Invert) and getattr(x, "op", 0) == "enum":
                mask = 0
                for m in x.args[0].members.values():
                    mask |= m.v
                return enum(x.args[0], bxor(x.args[1], C(mask)))
            if isinstance(e.op, ast.USub):
                return self.arith(neg, x)
            if isinstance(e.op, ast.Invert):
                return self.arith(inv, x)
            return x
        return self.map_fork(v, go)

    def arith(self, f, *vs):
        try:
            return f(*vs)
        except FoldError as x:
            self.raise_exc(type(x.exc).__name__, C(str(x.exc)))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.cur_node = e
        return self.binop(type(e.op), a, b)

    def augop(self, op, a, b):
        """In-place operators: lists and sets mutate."""
        def go(x):
            if isinstance(x, Ref):
                k = self.objs[x.oid].kind
                if k in ("list", "deque") and isinstance(op, ast.Add):
                    self.list_extend(x, b)
                    return x
                if k == "set" and isinstance(op, ast.BitOr):
                    self.drive(b, lambda v: self.set_add(x, v), None, None)
                    return x
                if k == "dict" and isinstance(op, ast.BitOr):
                    self.dict_update(x, b)
                    return x
                if k == "inst":
                    nm = _BINOPS[type(op)][1]
                    m = self.method(x, "__i" + nm[2:])
                    if m is not None:
                        return self.call(m, [b], {})
            return self.binop(type(op), x, b)
        if isinstance(self.simp(a), Ref) or self.any_ref(a):
            return self.map_fork(a, go)
        return self.binop(type(op), a, b)

    def any_ref(self, v):
        return isinstance(v, Ref) or bool(refs_in(v))

    def binop(self, op, a, b):
        a, b = self.simp(a), self.simp(b)
        ka, kb = kind(a), kind(b)
        fn, nm, rn = _BINOPS[op]
        if ka in NUM and kb in NUM and isinstance(a, (Const, Term)) and isinstance(b, (Const, Term)):
            if op in (ast.FloorDiv, ast.Mod, ast.Div):
                self.maybe_raise(eq(b, ZERO), "ZeroDivisionError")
            return self.arith(fn, a, b)
        # conditionals whose arms need different treatment
        if isinstance(a, Term) and a.op == "ite":
            return self.map_fork(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Term) and b.op == "ite":
            return self.map_fork(b, lambda y: self.binop(op, a, y))
        ea, eb = getattr(a, "op", 0) == "enum", getattr(b, "op", 0) == "enum"
        if ea or eb:
            c = (a if ea else b).args[0]
            if c.is_int or (c.is_flag and ea and eb):
                x = a.args[1] if ea else a
                y = b.args[1] if eb else b
                r = self.binop(op, x, y)
                if c.is_flag and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
                    return enum(c, r)
                return r
            self.raise_exc("TypeError", C("unsupported operand"))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.ref_binop(op, nm, rn, a, b)
        if ka == "str" and op is ast.Mod:
            return self.percent_format(a, b)
        if ka == "str" and kb == "str" and op is ast.Add:
            return fmt_parts([a, b])
        if op is ast.Mult and {ka, kb} == {"str", "int"}:
            s, n = (a, b) if ka == "str" else (b, a)
            if is_const(s) and is_const(n):
                return C(s.v * n.v)
            return T("strm", (s, "__mul__", (n,)), "str")
        if isinstance(a, Tup) and isinstance(b, Tup) and op is ast.Add:
            return TUP(a.items + b.items)
        if op is ast.Mult and isinstance(a, Tup) and is_const(b):
            return TUP(a.items * b.v)
        if op is ast.Mult and isinstance(b, Tup) and is_const(a):
            return TUP(b.items * a.v)
        if ka == "bytes" and kb == "bytes" and op is ast.Add:
            return self.bytes_cat(a, b)
        if op is ast.Mult and {ka, kb} == {"bytes", "int"} and is_const(a) and is_const(b):
            return C(a.v * b.v)
        if is_const(a) and is_const(b):
            return self.arith(fn, a, b)
        if isinstance(a, ClassV) or isinstance(b, ClassV) or isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return opaque("type-expression")
        basic = ("str", "bytes", "none", "tuple") + NUM
        if ka in basic and kb in basic:
            self.raise_exc("TypeError", C("unsupported operand types %s and %s" % (ka, kb)))
        r = self.arith(fn, a, b) if isinstance(a, (Const, Term)) and isinstance(b, (Const, Term)) else unk("operator")
        return r

    def ref_binop(self, op, nm, rn, a, b):
        for x, y, m in ((a, b, nm), (b, a, rn)):
            if isinstance(x, Ref) and self.objs[x.oid].kind == "inst":
                f = self.method(x, m)
                if f is not None:
                    return self.call(f, [y], {})
        ka = self.objs[a.oid].kind if isinstance(a, Ref) else kind(a)
        kb = self.objs[b.oid].kind if isinstance(b, Ref) else kind(b)
        if op is ast.Add and ka == "list" and kb == "list":
            return self.new_seq(self.cat(self.get(a.oid, "$"), self.get(b.oid, "$")))
        if op is ast.Mult and "list" in (ka, kb):
            l, n = (a, b) if ka == "list" else (b, a)
            return self.new_seq(self.repeat(self.get(l.oid, "$"), n))
        if ka == "set" or kb == "set":
            if op is ast.BitOr:
                r = self.new_seq(self.get(a.oid, "$"), "set")
                self.drive(b, lambda v: self.set_add(r, v), None, None)
                return r
            r = self.new_seq(SEQ(()), "set")
            want = {ast.BitAnd: True, ast.Sub: False}.get(op)
            if want is not None:
                def pick(v):
                    c = self.contains(b, v)
                    c = c if want else neg_b(c)
                    self.branch(c, lambda: self.set_add(r, v), lambda: None)
                self.drive(a, pick, None, None)
                return r
        if op is ast.BitOr and ka == "dict":
            r = self.new_obj("dict")
            self.raw_put(r.oid, "$", self.get(a.oid, "$"))
            self.dict_update(r, b)
            return r
        if ka == "bytearray" or kb == "bytearray":
            return unk("bytearray operation", "bytes")
        if ka == "ext" or kb == "ext":
            return unk("operator on external object")
        if ka in ("inst",) and any(getattr(c, "external", False) for c in self.objs[a.oid].cls.mro):
            return unk("operator on external object")
        self.raise_exc("TypeError", C("unsupported operand"))

    def cat(self, p, q):
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.cat(p.args[1], q), self.cat(p.args[2], q))
        if isinstance(q, Term) and q.op == "ite":
            return self.joinv(q.args[0], self.cat(p, q.args[1]), self.cat(p, q.args[2]))
        return SEQ(p.segs + q.segs)

    def repeat(self, p, n):
        n = self.simp(n)
        if is_const(n):
            return SEQ(p.segs * max(int(n.v), 0)) if int(n.v) <= 4096 else self._rep(p, n)
        return self._rep(p, n)

    def _rep(self, p, n):
        n = self.nonneg(n)
        lid = self.next_lid()
        idx = T("idx", ("L%d" % lid,), "int", (0, None))
        return SEQ([("r", Rep(lid, n, idx, p.segs, (), None))])

    # ---------------------------------------------------------- comparison
    def e_Compare(self, e):
        left = self.ev(e.left)

        def go(i, left):
            right = self.ev(e.comparators[i])
            self.cur_node = e
            r = self.compare(e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.truthy(r)
            return self.branch(c, lambda: go(i + 1, right), lambda: FALSE)
        return go(0, left)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return neg_b(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.compare_own("__eq__", a, b)
        if isinstance(op, ast.NotEq):
            return self.compare_own("__ne__", a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return neg_b(self.contains(b, a))
        if isinstance(op, ast.Lt):
            return self.order("__lt__", "__gt__", lt, a, b)
        if isinstance(op, ast.Gt):
            return self.order("__gt__", "__lt__", lambda x, y: lt(y, x), a, b)
        if isinstance(op, ast.LtE):
            return self.order("__le__", "__ge__", le, a, b)
        return self.order("__ge__", "__le__", lambda x, y: le(y, x), a, b)

    def is_(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a is b:
            return TRUE
        if b is NONE:
            return self.isnone_(a)
        if a is NONE:
            return self.isnone_(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == "ite":
                return self.map_pure(x, lambda z: self.is_(z, y))
        if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, (ClassV, FuncV)) or isinstance(b, (ClassV, FuncV)):
            return FALSE
        return eq(a, b)

    def isnone_(self, v):
        if isinstance(v, (Const, Term)):
            return self.map_pure(v, lambda x: isnone(x) if isinstance(x, (Const, Term)) else FALSE)
        return FALSE

    def compare_own(self, name, a, b):
        """a == b or a != b as an expression: the methods of the classes come first, even for one object on both sides."""
        a, b = self.simp(a), self.simp(b)
        for x, sw in ((a, 0), (b, 1)):
            if isinstance(x, Term) and x.op == "ite" and self.any_ref(x):
                return self.map_fork(x, lambda z: self.compare_own(name, z, b) if not sw else self.compare_own(name, a, z))
        if name == "__ne__" or a is b:
            for x, y in ((a, b), (b, a)):
                m = self.method(x, name) if isinstance(x, Ref) and self.objs[x.oid].kind == "inst" else None
                if m is None:
                    continue
                r = self.call(m, [y], {})
                d = self.decide(self.is_(r, self.not_impl))
                if d is not True:
                    rest = self.compare_eq(a, b) if d is None else None
                    return r if d is False else self.map_pure(r, lambda z: z if z is not self.not_impl else neg_b(self.truthy(rest)) if name == "__ne__" else self.truthy(rest))
        r = self.compare_eq(a, b)
        return neg_b(self.truthy(r)) if name == "__ne__" else r

    def compare_eq(self, a, b):
        a, b = self.simp(a), self.simp(b)
        if a is b and kind(a) != "float":
            return TRUE
        if not (self.any_ref(a) or self.any_ref(b)):
            for x, y in ((a, b), (b, a)):
                if kind(x) == "bytes" and isinstance(x, Term):
                    return self.map_pure(x, lambda z: self.bytes_eq(z, y))
            plain_a, plain_b = isinstance(a, (Const, Term, Tup)), isinstance(b, (Const, Term, Tup))
            for x, y, sw in ((a, b, 0), (b, a, 1)):
                # one of several classes or functions
                if isinstance(x, Term) and x.op == "ite" and (not isinstance(y, (Const, Term, Tup)) or not all(
                        isinstance(z, (Const, Term, Tup)) for z in x.args[1:])):
                    return self.map_pure(x, lambda z: self.compare_eq(z, y))
            if plain_a and plain_b:
                return eq(a, b)
            return FALSE
        a, b = self.nt_tuple(a), self.nt_tuple(b)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return conj(*[self.truthy(self.compare_eq(x, y)) for x, y in zip(a.items, b.items)])
        for x, sw in ((a, 0), (b, 1)):
            if isinstance(x, Term) and x.op == "ite":
                return self.map_fork(x, lambda z: self.compare_eq(z, b) if not sw else self.compare_eq(a, z))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and self.objs[x.oid].kind == "inst":
                o = self.objs[x.oid]
                m = self.method(x, "__eq__")
                if m is not None:
                    r = self.call(m, [y], {})
                    c = self.is_(r, self.not_impl)
                    d = self.decide(c)
                    if d is True:
                        continue
                    if d is False:
                        return r
                    return self.map_pure(r, lambda z: FALSE if z is self.not_impl else z)
                if o.cls.dc_eq:
                    if not (isinstance(y, Ref) and self.objs[y.oid].kind == "inst" and self.objs[y.oid].cls is o.cls):
                        continue
                    return conj(*[self.truthy(self.compare_eq(self.load_attr(x, f[0]), self.load_attr(y, f[0]))) for f in o.cls.dc_fields if f[4]])
        if isinstance(a, Ref) and isinstance(b, Ref):
            ka, kb = self.objs[a.oid].kind, self.objs[b.oid].kind
            if ka == kb and ka in ("list", "deque"):
                return self.seq_eq(self.get(a.oid, "$"), self.get(b.oid, "$"))
            if ka == kb == "dict":
                p, q = self.get(a.oid, "$"), self.get(b.oid, "$")
                if p is q:
                    return TRUE
                if isinstance(p, DictV) and isinstance(q, DictV) and p.base is None and q.base is None and \
                        all(x[1] is TRUE and is_const(x[0]) for x in p.entries + q.entries):
                    dq = {k: v for k, _, v in q.entries}
                    if {k for k, _, _ in p.entries} != set(dq):
                        return FALSE
                    return conj(*[self.truthy(self.compare_eq(v, dq[k])) for k, _, v in p.entries])
                return T("eq", (T("sym", (fresh("dict"),)), T("sym", (fresh("dict"),))), "bool")
            if ka == kb == "set":
                return self.set_eq(self.get(a.oid, "$"), self.get(b.oid, "$"))
            return FALSE
        # list against tuple, object against scalar
        return FALSE

    def set_eq(self, p, q):
        if p is q:
            return TRUE
        if isinstance(p, SeqV) and isinstance(q, SeqV):
            ia, ib = items_of(p), items_of(q)
            if ia is not None and ib is not None:
                # each element of one is in the other
                return conj(*([disj(*[self.key_eq(x, y) for y in ib]) for x in ia] + [disj(*[self.key_eq(x, y) for y in ia]) for x in ib]))
            st = self.st.copy()
            return self.derived_scalar("seteq", "bool", lambda env: set(known(concrete(self, p, env, st))) == set(known(concrete(self, q, env, st))))
        return T("sym", (fresh("seteq"),), "bool")

    def nt_tuple(self, v):
        """A named tuple as the tuple it is."""
        if isinstance(v, Ref) and self.objs[v.oid].kind == "inst" and self.objs[v.oid].cls.nt_fields is not None and \
                self.method(v, "__eq__") is None:
            return TUP([self.get(v.oid, f) for f in self.objs[v.oid].cls.nt_fields])
        return v

    def seq_eq(self, p, q):
        if p is q:
            return TRUE
        a, b = items_of(p), items_of(q)
        if a is not None and b is not None:
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for x, y in zip(a, b):
                r = conj(r, self.truthy(self.compare_eq(x, y)))
                if r is FALSE:
                    return FALSE
            return r
        n, m = self.seq_len(p), self.seq_len(q)
        if self.decide(eq(n, m)) is False:
            return FALSE
        if (a is not None and not a) or (b is not None and not b):
            return eq(n, m)
        return T("exists", ("seqeq", p, q), "bool")

    def order(self, m, rm, f, a, b):
        a, b = self.simp(a), self.simp(b)
        if kind(a) in NUM and kind(b) in NUM and isinstance(a, (Const, Term)) and isinstance(b, (Const, Term)):
            return self.arith(f, a, b)
        for x, sw in ((a, 0), (b, 1)):
            if isinstance(x, Term) and x.op == "ite":
                return self.map_fork(x, lambda z: self.order(m, rm, f, z, b) if not sw else self.order(m, rm, f, a, z))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if not a.items or not b.items:
                return self.arith(f, C(len(a.items)), C(len(b.items)))
            x, y = a.items[0], b.items[0]
            rest = self.order(m, rm, f, TUP(a.items[1:]), TUP(b.items[1:]))
            e = self.truthy(self.compare_eq(x, y))
            strict = {"__le__": lt, "__lt__": lt}.get(m, lambda p, q: lt(q, p))
            return ite(e, rest, self.order("__lt__" if strict is lt else "__gt__", "", strict, x, y)) if e is not TRUE else rest
        for x, y, n in ((a, b, m), (b, a, rm)):
            if isinstance(x, Ref) and n:
                g = self.method(x, n)
                if g is not None:
                    return self.call(g, [y], {})
        basic = ("str", "bytes", "none", "tuple") + NUM
        ka, kb = kind(a), kind(b)
        if ka in basic and kb in basic and ka != kb and not (ka in NUM and kb in NUM):
            self.raise_exc("TypeError", C("unorderable"))
        ea, eb = getattr(a, "op", 0) == "enum", getattr(b, "op", 0) == "enum"
        if ea and a.args[0].is_int:
            a = a.args[1]
        if eb and b.args[0].is_int:
            b = b.args[1]
        if isinstance(a, (Const, Term)) and isinstance(b, (Const, Term)):
            return self.arith(f, a, b)
        return unk("ordering", "bool")

    # ---------------------------------------------------------- truth
    def truthy(self, v):
        v = self.simp(v)
        if isinstance(v, Const):
            return C(bool(v.v))
        if isinstance(v, Term):
            if v.op == "ite":
                if self.any_ref(v):
                    return self.map_fork(v, self.truthy)
                return self.map_pure(v, self.truthy)
            if v.kind == "bytes":
                return ne(self.len_of(v), ZERO)
            return truth(v)
        if isinstance(v, Tup):
            return C(bool(v.items))
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            if o.kind == "inst" and self.get(v.oid, "$") is None:
                m = self.method(v, "__bool__")
                if m is not None:
                    return self.truthy(self.call(m, [], {}))
                m = self.method(v, "__len__")
                if m is not None:
                    return self.truthy(self.call(m, [], {}))
                return TRUE
            if o.kind in ("list", "set", "dict", "deque", "bytearray") or self.get(v.oid, "$") is not None:
                return lt(ZERO, self.len_of(v))
            return TRUE
        if isinstance(v, RangeV):
            return lt(ZERO, self.segs_len(self.range_segs(v)))
        if v is UNDEF:
            return FALSE
        return TRUE

    # ---------------------------------------------------------- strings
    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                parts.append(self.ev(x))
        return fmt_parts(parts)

    def e_FormattedValue(self, e):
        v = self.ev(e.value)
        spec = ""
        if e.format_spec is not None:
            s = self.ev(e.format_spec)
            spec = s.v if is_const(s) else None
        conv = {-1: "", 115: "s", 114: "r", 97: "a"}[e.conversion]
        if spec is None:
            return T("strm", (v if isinstance(v, (Const, Term)) else unk("fmt"), "__format__", (s,)), "str")
        return self.fmt_value(v, conv, spec)

    def fmt_value(self, v, conv, spec):
        def go(x):
            if isinstance(x, Ref) or getattr(x, "op", 0) == "enum":
                x = self.to_str(x, "repr" if conv == "r" else "str")
                return self.arith(fspec, x, "", spec)
            if isinstance(x, Tup):
                if all(is_const(i) for i in x.items):
                    return C(format(str(tuple(i.v for i in x.items)), spec))
                return unk("tuple text", "str")
            if isinstance(x, (Const, Term)):
                return self.arith(fspec, x, conv, spec)
            return C("<%s>" % getattr(x, "name", "obj"))
        v = self.simp(v)
        if self.any_ref(v):
            return self.map_fork(v, go)
        return self.map_pure(v, go)

    def to_str(self, v, how="str"):
        def go(x):
            if isinstance(x, Const):
                return C(str(x.v) if how == "str" else repr(x.v))
            if isinstance(x, Term):
                if x.op == "enum":
                    m = self.method(x, "__str__")
                    if m is not None:
                        return self.call(m, [], {})
                    if x.args[0].is_int and not x.args[0].ns.get("__strenum__"):
                        return self.to_str(x.args[1], how)
                    return fmt_parts([C(x.args[0].name + "."), self.enum_name(x)])
                if x.kind == "str" and how == "str":
                    return x
                return fspec(x, "s" if how == "str" else "r", "")
            if isinstance(x, Ref):
                for m in (("__str__", "__repr__") if how == "str" else ("__repr__",)):
                    f = self.method(x, m)
                    if f is not None:
                        return self.call(f, [], {})
                o = self.objs[x.oid]
                if o.kind == "inst" and o.cls is not None and self.builtins["BaseException"] in o.cls.mro:
                    a = self.get(x.oid, "args")
                    if isinstance(a, Tup):
                        return self.to_str(a.items[0]) if len(a.items) == 1 else C("") if not a.items else unk("exc", "str")
                return T("strm", (C(o.kind), "text", ()), "str")
            if isinstance(x, Tup):
                return unk("tuple text", "str")
            return C("<%s>" % getattr(x, "name", "obj"))
        v = self.simp(v)
        return self.map_fork(v, go) if self.any_ref(v) or isinstance(v, Term) and any(t.op == "enum" for t in walk(v) if isinstance(t, Term)) else self.map_pure(v, go)

    def percent_format(self, a, b):
        if not is_const(a):
            return unk("%-format", "str")
        import re
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts, pos, k = [], 0, 0
        for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\d*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])", a.v):
            parts.append(C(a.v[pos:m.start()]))
            pos = m.end()
            name, flags, width, prec, code = m.groups()
            if code == "%":
                parts.append(C("%"))
                continue
            if name is not None:
                v = self.get_item(args[0], C(name))
            else:
                if k >= len(args):
                    self.raise_exc("TypeError", C("not enough arguments for format string"))
                v = args[k]
                k += 1
            spec = ""
            if code in "sra":
                spec = (("<" if "-" in flags else ">") + width if width else "") + ("." + prec if prec else "")
                parts.append(self.fmt_value(self.fmt_value(v, "r" if code == "r" else "s", ""), "", spec))
                continue
            if "-" in flags:
                spec += "<"
            if "+" in flags:
                spec += "+"
            if "#" in flags:
                spec += "#"
            if "0" in flags and "-" not in flags:
                spec += "0"
            spec += width
            if prec and code not in "diu":
                spec += "." + prec
            spec += {"i": "d", "u": "d"}.get(code, code)
            if code in "diu" and kind(v) == "float":
                v = self.to_int(v)
            parts.append(self.fmt_value(v, "", spec))
        parts.append(C(a.v[pos:]))
        return fmt_parts(parts)

    # ---------------------------------------------------------- comprehensions
    def e_ListComp(self, e):
        return self.comp_to("list", e)

    def e_SetComp(self, e):
        return self.comp_to("set", e)

    def e_GeneratorExp(self, e):
        # the outermost iterable is evaluated now, the rest when consumed
        src = self.ev(e.generators[0].iter)
        return self.new_obj("lazy", extra=("genexp", e, self.frames[-1], src))

    def comp_to(self, kind_, e):
        r = self.new_seq(SEQ(()), kind_)
        src = self.ev(e.generators[0].iter)
        put = (lambda v: self.set_add(r, v)) if kind_ == "set" else (lambda v: self.list_append(r, v))
        self.drive_comp(e, self.frames[-1], src, put, None)
        return r

    def e_DictComp(self, e):
        r = self.new_dict([])
        src = self.ev(e.generators[0].iter)
        self.drive_comp(e, self.frames[-1], src, lambda kv: self.set_item(r, kv.items[0], kv.items[1]), None)
        return r

    def drive_comp(self, e, frame, src, each, tag):
        """Run a comprehension in the frame it was written in (own scope)."""
        from .interp import Frame
        caller = self.frames[-1]
        fr = Frame(frame.func_name, None, frame.module, frame.func, None)
        er = self.new_obj("env", extra=frame.env if frame.cls is None else frame.outer_env)
        fr.env = er.oid
        fr.locals = self.comp_targets(e)
        fr.loop_tags = getattr(frame, "loop_tags", [])
        fr.handler = frame.handler
        fr.comp_class = frame.cls
        if frame.cls is not None:
            fr.env_class = frame.env

        def elt():
            if isinstance(e, ast.DictComp):
                k = self.ev(e.key)
                v = TUP([k, self.ev(e.value)])
            else:
                v = self.ev(e.elt)
            self.frames.append(caller)
            try:
                each(v)
            finally:
                self.frames.pop()

        def gen(i, src):
            g = e.generators[i]
            mytag = tag

            def one(v):
                self.assign(g.target, v)

                def conds(j):
                    if j < len(g.ifs):
                        c = self.truthy(self.ev(g.ifs[j]))
                        return self.branch(c, lambda: conds(j + 1), lambda: None)
                    if i + 1 < len(e.generators):
                        return gen(i + 1, self.ev(e.generators[i + 1].iter))
                    elt()
                conds(0)
            self.map_fork(src, lambda x: self.drive(x, one, mytag, e))
        self.frames.append(fr)
        try:
            gen(0, src)
        finally:
            self.frames.pop()

    def comp_targets(self, e):
        out = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    out.add(n.id)
        return out

    # ---------------------------------------------------------- misc
    def e_Lambda(self, e):
        fr = self.frames[-1]
        f = self.make_func(e, "<lambda>")
        return f

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else NONE
        h = self.frames[-1].handler
        if h is None:
            raise Incomplete("yield outside a driven generator")
        h(v)
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        h = self.frames[-1].handler
        self.map_fork(v, lambda x: self.drive(x, h, None, e))
        return NONE

    def e_Await(self, e):
        raise Incomplete("await")
