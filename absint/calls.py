"""Calls: argument binding, inlining, construction of objects."""
import ast

from .core import *
from .attrs import assigned_names, LazyProp

MAX_DEPTH = 60


class Calls:
    def e_Call(self, e):
        f = self.ev(e.func)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.unpack(self.ev(a.value), None))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw.update(self.kw_dict(v))
            else:
                kw[k.arg] = v
        self.cur_node = e
        return self.call(f, args, kw)

    def kw_dict(self, v):
        v = self.simp(v)
        if isinstance(v, Ref) and self.objs[v.oid].kind == "dict":
            p = self.get(v.oid, "$")
            if isinstance(p, DictV) and p.base is None and all(is_const(k) and q is TRUE for k, q, _ in p.entries):
                return {k.v: w for k, _, w in p.entries}
        raise Incomplete("** of an unknown dictionary at %s" % self.site())

    def unpack(self, v, n):
        """Elements of an iterable of known length."""
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            r = self.branch(v.args[0], lambda: TUP(self.unpack(v.args[1], n)), lambda: TUP(self.unpack(v.args[2], n)))
            if not isinstance(r, Tup):
                raise Incomplete("unpacking of values of different length")
            return list(r.items)
        its = self.known_items(v)
        if its is None:
            p = self.payload_of(v)
            its = items_of(p)
            if its is None:
                if n is not None:
                    ln = self.seq_len(p)
                    self.maybe_raise(ne(ln, C(n)), "ValueError", C("unpack"))
                    return [self.elem_at(p, C(i)) for i in range(n)]
                raise Incomplete("unpacking of a sequence of unknown length at %s" % self.site())
        if n is not None and len(its) != n:
            self.raise_exc("ValueError", C("wrong number of values to unpack"))
        return list(its)

    def known_items(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            p = self.get(v.oid, "$")
            if o.kind in ("list", "deque", "set") or (p is not None and o.kind == "inst"):
                return items_of(p)
            if o.kind == "inst" and o.cls.nt_fields:
                return [self.get(v.oid, f) for f in o.cls.nt_fields]
        return None

    # ---------------------------------------------------------- dispatch
    def call(self, f, args, kw):
        f = self.simp(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, BuiltinV):
            self.stats["calls"] += 1
            r = f.fn(self, list(args), kw)
            return NONE if r is None else r
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, PartialV):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, Term) and f.op == "ite":
            return self.map_fork(f, lambda x: self.call(x, args, kw))
        if isinstance(f, OpaqueV):
            return self.ext_call(f.path, args, kw)
        if isinstance(f, Ref):
            o = self.objs[f.oid]
            if o.kind == "inst":
                m = self.method(f, "__call__")
                if m is not None:
                    return self.call(m, args, kw)
            self.raise_exc("TypeError", C("not callable"))
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, ModV) and not f.repo:
            return self.ext_call(f.name, args, kw)
        if isinstance(f, Term) and f.kind == "any":
            return self.ext_call(show(f), args, kw)
        self.raise_exc("TypeError", C("not callable"))

    def note_unknown(self, what):
        self.unknown_calls.setdefault(what, self.site())

    def ext_call(self, path, args, kw):
        """A call that leaves the analysed code and has no model."""
        self.event("ext", path=path, args=list(args), kw=dict(kw), st=self.st)
        self.note_unknown("call %s" % path)
        self._callno = getattr(self, "_callno", 0) + 1
        return T("call", (path, self._callno), "any")

    # ---------------------------------------------------------- functions
    def bind_args(self, fv, args, kw):
        a = fv.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        nd = len(fv.defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                out[n] = args[i]
                if n in kw and i >= len(a.posonlyargs):
                    self.raise_exc("TypeError", C("multiple values for argument %s" % n))
            elif n in kw and i >= len(a.posonlyargs):
                out[n] = kw.pop(n)
            elif i >= len(pos) - nd:
                out[n] = fv.defaults[i - (len(pos) - nd)]
            else:
                self.event("type_error", what="%s() missing argument %s" % (fv.qual, n))
                self.raise_exc("TypeError", C("%s() missing argument %s" % (fv.name, n)))
        if len(args) > len(pos):
            if a.vararg:
                out[a.vararg.arg] = TUP(args[len(pos):])
            else:
                self.event("type_error", what="%s() takes %d arguments, %d given" % (fv.qual, len(pos), len(args)))
                self.raise_exc("TypeError", C("%s() too many arguments" % fv.name))
        elif a.vararg:
            out[a.vararg.arg] = TUP(())
        for x, d in zip(a.kwonlyargs, fv.kwdefaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not None:
                out[x.arg] = d
            else:
                self.event("type_error", what="%s() missing keyword %s" % (fv.qual, x.arg))
                self.raise_exc("TypeError", C("missing keyword %s" % x.arg))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_dict([(C(k), v) for k, v in kw.items()])
        elif kw:
            self.event("type_error", what="%s() got an unexpected keyword %s" % (fv.qual, sorted(kw)[0]))
            self.raise_exc("TypeError", C("%s() unexpected keyword %s" % (fv.name, sorted(kw)[0])))
        return out

    def call_func(self, fv, args, kw):
        if fv.is_gen:
            if fv.ctx or True:
                # evaluated when iterated / entered
                self.bind_check(fv, args, kw)
                return self.new_obj("genobj", extra=(fv, list(args), dict(kw)))
        if fv.cached:
            return self.call_cached(fv, args, kw)
        return self.inline(fv, args, kw, None)

    def bind_check(self, fv, args, kw):
        self.bind_args(fv, args, kw)

    def call_cached(self, fv, args, kw):
        args_, kw_ = [self.simp(x) for x in args], sorted(kw.items())
        const = all(is_const(x) or isinstance(x, ClassV) for x in args_ + [v for _, v in kw_])
        memo = None
        if const and not self.loops and not self.initing:
            if fv not in self.cache_cells:
                # made before anything else: every state knows it
                cell = self.new_obj("env")
                del self.st.heap[(cell.oid, "$alive")]
                self.base[(cell.oid, "$alive")] = TRUE
                self.cache_cells[fv] = cell
            memo = (self.cache_cells[fv].oid, "memo %s" % (tuple(map(repr, args_)) + tuple((n, repr(v)) for n, v in kw_),))
            r = self.get(*memo)
            if isinstance(r, Ref):
                return r
            if r is not None and r is not UNDEF:
                memo = None
        r = self.inline(fv, args, kw, None)
        scal = all(not self.any_ref(x) for x in list(args) + list(kw.values()))
        self.event("cached_call", func=fv.qual, args=list(args), scalar=scal, result=r)
        if not self.any_ref(r):
            # the cache may hand out a result computed for an earlier state of the argument
            return r if scal else T("stale", (fv.qual, self._oid), "any")
        if not scal:
            raise Incomplete("a cached function of objects that makes objects: %s" % fv.qual)
        if memo is not None and isinstance(r, Ref):
            self.put(memo[0], memo[1], r)
        elif isinstance(r, Ref):
            seen = set()
            self.reach_oids(r, seen)
            self.shared_results |= seen
        return r

    def reach_oids(self, v, seen):
        for r in refs_in(v):
            if r.oid not in seen:
                seen.add(r.oid)
                for _, w in self.locs_of(r.oid):
                    self.reach_oids(w, seen)

    def run_gen_inline(self, fv, args, kw, inner):
        """Run a generator function, handing each yielded value to inner() in the caller's frame."""
        caller = self.frames[-1]

        def handler(v):
            self.frames.append(caller)
            try:
                inner(v)
            finally:
                self.frames.pop()
        return self.inline(fv, args, kw, handler)

    def inline(self, fv, args, kw, handler):
        if len(self.frames) > MAX_DEPTH or sum(1 for f in self.frames if f.func is fv) > 8:
            raise Incomplete("recursion of %s" % fv.qual)
        from .interp import Frame
        b = self.bind_args(fv, args, kw)
        self.stats["calls"] += 1
        self.stats["functions"].add(fv.qual)
        if not self.initing:
            self.event("call", func=fv.qual, fv=fv, args=b)
        env = self.new_obj("env", extra=fv.env)
        fr = Frame(fv.qual, env.oid, fv.module, fv, None)
        fr.def_cls = fv.cls
        fr.handler = handler
        info = getattr(fv.node, "_names", None)
        if info is None:
            info = fv.node._names = assigned_names(fv.node)
            fv.node._nested = isinstance(fv.node, ast.Lambda) or any(
                isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ClassDef)) for s in fv.node.body for n in ast.walk(s))
        fr.locals, fr.globals, fr.nonlocals = info
        for k, v in b.items():
            self.st.heap[(env.oid, k)] = v
        pc0 = self.st.pc
        node0 = self.cur_node
        self.frames.append(fr)
        try:
            if isinstance(fv.node, ast.Lambda):
                st, v, pend = self.region(lambda: self.ev(fv.node.body))
                outs = [(st, v)] if st is not None else []
            else:
                st, _, pend = self.region(lambda: self.exec_block(fv.node.body))
                outs = [(st, NONE)] if st is not None else []
        finally:
            self.frames.pop()
        self.cur_node = node0
        rets = []
        for p in pend:
            if p.kind == "return" and p.tag is fr:
                rets.append((p.state, p.value))
            else:
                self.pends[-1].append(p)
        outs = rets + outs
        v = self.merge_outcomes(outs, pc0)
        if not fv.node._nested:
            h = self.st.heap
            for k in fr.locals:
                h.pop((env.oid, k), None)
            h.pop((env.oid, "$alive"), None)
        if not self.initing:
            self.event("return", func=fv.qual, value=v)
        return v

    # ---------------------------------------------------------- construction
    def construct(self, cls, args, kw):
        if cls.is_enum:
            return self.enum_call(cls, args, kw)
        if cls.builtin and cls.name in self.type_ctors:
            return self.type_ctors[cls.name](self, args, kw)
        new = self.cls_lookup(cls, "__new__")
        if new is not None and not isinstance(new, BuiltinV):
            r = self.call(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kw)
            if not isinstance(r, Ref) or self.objs[r.oid].cls is None or cls not in self.objs[r.oid].cls.mro:
                return r
        else:
            r = self.alloc(cls)
        if self.is_exc(cls):
            self.raw_put(r.oid, "args", TUP(args))
        init = self.cls_lookup(cls, "__init__")
        if init is not None:
            self.call(self.bind(init, r, cls), args, kw)
            return r
        if cls.dc_fields is not None:
            self.dc_init(cls, r, args, kw)
            return r
        if cls.nt_fields:
            self.nt_init(cls, r, args, kw)
            return r
        cont = next((c.name for c in cls.mro if c.builtin and c.name in ("list", "dict", "set", "deque")), None)
        if cont == "list" or cont == "set" or cont == "deque":
            if args:
                self.raw_put(r.oid, "$", self.payload_of(args[0]))
            return r
        if cont == "dict":
            if args:
                self.dict_update(r, args[0])
            for k, v in kw.items():
                self.set_item(r, C(k), v)
            return r
        if any(getattr(c, "external", False) for c in cls.mro):
            self.event("ext", path=next(c.name for c in cls.mro if getattr(c, "external", False)), args=list(args), kw=dict(kw), st=self.st)
            for k, v in kw.items():
                self.raw_put(r.oid, k, v)
            return r
        if (args or kw) and not self.is_exc(cls):
            self.event("type_error", what="%s() takes no arguments" % cls.qual)
            self.raise_exc("TypeError", C("%s() takes no arguments" % cls.name))
        return r

    def alloc(self, cls):
        for c in cls.mro:
            if c.builtin and c.name in ("list", "dict", "set", "deque"):
                r = self.new_obj("inst", cls)
                self.objs[r.oid].kind = {"list": "list", "dict": "dict", "set": "set", "deque": "deque"}[c.name]
                self.raw_put(r.oid, "$", DICT(()) if c.name == "dict" else SEQ(()))
                return r
        return self.new_obj("inst", cls)

    def is_exc(self, cls):
        return self.builtins["BaseException"] in cls.mro

    def enum_call(self, cls, args, kw):
        if len(args) != 1:
            raise Incomplete("functional enum")
        v = self.simp(args[0])
        if isinstance(v, Term) and v.op == "enum" and v.args[0] is cls:
            return v
        vals = list(cls.members.values())
        miss = self.cls_lookup(cls, "_missing_")

        def go(x):
            if isinstance(x, Term) and x.op == "enum" and x.args[0] is cls:
                return x
            if cls.is_flag:
                mask = 0
                for m in vals:
                    mask |= m.v
                lo, hi = iv(x)
                if lo is not None and lo >= 0 and hi is not None and hi <= mask and mask & (mask + 1) == 0:
                    return enum(cls, x)
                bad = ne(self.arith(band, x, C(mask)), x)
                if not cls.is_int:
                    self.maybe_raise(bad, "ValueError", C("invalid flag"))
                return enum(cls, x)
            ok = disj(*[self.truthy(self.compare_eq(x, m)) for m in vals])
            if miss is not None:
                c = self.call(bound(miss.f if isinstance(miss, ClassM) else miss, cls), [x], {})
                d = self.decide(ok)
                if d is not True:
                    return self.branch(ok, lambda: enum(cls, x), lambda: c)
            self.maybe_raise(neg_b(ok), "ValueError", C("not a valid %s" % cls.name))
            return enum(cls, x)
        return self.map_fork(v, go)

    # ---------------------------------------------------------- dataclasses
    def make_dataclass(self, cls, opts):
        fields = []
        for b in reversed(cls.mro[1:]):
            if b.dc_fields:
                for f in b.dc_fields:
                    fields = [g for g in fields if g[0] != f[0]] + [f]
        kwonly = opts.get("kw_only") is TRUE
        for name, s in getattr(cls, "annots", ()):
            ann = ast.unparse(s.annotation)
            if "ClassVar" in ann:
                continue
            if ann.endswith("KW_ONLY"):
                kwonly = True
                continue
            d = self.get(cls.oid, name)
            if d is UNDEF:
                d = None
            factory, init, comp, meta, ko = None, True, True, None, kwonly
            if isinstance(d, Ref) and self.objs[d.oid].kind == "dcfield":
                k = self.objs[d.oid].extra
                factory = k.get("default_factory")
                init = self.decide(self.truthy(k["init"])) is not False if "init" in k else True
                comp = self.decide(self.truthy(k["compare"])) is not False if "compare" in k else True
                ko = self.decide(self.truthy(k["kw_only"])) is True if "kw_only" in k else kwonly
                meta = k.get("metadata")
                d = k.get("default")
                if d is not None:
                    self.st.heap[(cls.oid, name)] = d
                else:
                    self.st.heap[(cls.oid, name)] = UNDEF
            if d is not None and isinstance(d, Ref) and self.objs[d.oid].kind in ("list", "dict", "set"):
                self.raise_exc("ValueError", C("mutable default for field %s" % name))
            fields = [g for g in fields if g[0] != name] + [(name, d, factory, init, comp, meta, ann, ko)]
        cls.dc_fields = fields
        cls.dc_eq = opts.get("eq") is not FALSE
        cls.frozen = opts.get("frozen") is TRUE
        seen = False
        for f in fields:
            if not f[3] or f[7]:
                continue
            if f[1] is None and f[2] is None:
                if seen:
                    self.raise_exc("TypeError", C("non-default argument %s follows default argument" % f[0]))
            else:
                seen = True
        return cls

    def dc_init(self, cls, r, args, kw):
        kw = dict(kw)
        names = [f for f in cls.dc_fields if f[3] and not f[7]]
        if len(args) > len(names):
            self.event("type_error", what="%s() takes %d arguments, %d given" % (cls.qual, len(names), len(args)))
            self.raise_exc("TypeError", C("%s() too many arguments" % cls.name))
        given = dict(zip([f[0] for f in names], args))
        for f in cls.dc_fields:
            name = f[0]
            if name in given:
                v = given[name]
                if name in kw:
                    self.raise_exc("TypeError", C("multiple values"))
            elif name in kw and f[3]:
                v = kw.pop(name)
            elif f[2] is not None:
                v = self.call(f[2], [], {})
            elif f[1] is not None:
                v = f[1]
            elif not f[3]:
                continue
            else:
                self.event("type_error", what="%s() missing argument %s" % (cls.qual, name))
                self.raise_exc("TypeError", C("%s() missing argument %s" % (cls.name, name)))
            self.raw_put(r.oid, name, v)
        if kw:
            self.event("type_error", what="%s() got an unexpected keyword %s" % (cls.qual, sorted(kw)[0]))
            self.raise_exc("TypeError", C("%s() unexpected keyword %s" % (cls.name, sorted(kw)[0])))
        post = self.method(r, "__post_init__")
        if post is not None:
            self.call(post, [], {})
        if not self.initing:
            self.event("construct", cls=cls, ref=r)

    # ---------------------------------------------------------- namedtuples
    def make_namedtuple(self, name, fields, defaults=()):
        cls = ClassV(name, [self.builtins["tuple"]], self.frames[-1].module, None)
        cls.oid = self.new_obj("env").oid
        cls.nt_fields = list(fields)
        cls.nt_defaults = dict(zip(list(fields)[len(fields) - len(defaults):], defaults))
        cls.annots = []
        return cls

    def finish_namedtuple_class(self, cls):
        names = [n for n, _ in cls.annots]
        cls.nt_fields = names
        cls.nt_defaults = {}
        for n in names:
            d = self.get(cls.oid, n)
            if d is not None:
                cls.nt_defaults[n] = d
                self.st.heap[(cls.oid, n)] = UNDEF

    def nt_init(self, cls, r, args, kw):
        d = {}
        for c in cls.mro:
            d = getattr(c, "nt_defaults", None)
            if d is not None:
                break
        kw = dict(kw)
        if len(args) > len(cls.nt_fields):
            self.raise_exc("TypeError", C("too many arguments"))
        for i, f in enumerate(cls.nt_fields):
            if i < len(args):
                v = args[i]
            elif f in kw:
                v = kw.pop(f)
            elif d and f in d:
                v = d[f]
            else:
                self.raise_exc("TypeError", C("missing argument %s" % f))
            self.raw_put(r.oid, f, v)
        if kw:
            self.raise_exc("TypeError", C("unexpected keyword %s" % sorted(kw)[0]))
