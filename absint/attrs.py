"""Names, attributes, classes."""
import ast

from .core import *


def assigned_names(node):
    """Names a function body binds (its locals), plus declared globals / nonlocals."""
    out, glob, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                target(x)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            target(n.target)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            target(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    for x in (a.vararg, a.kwarg):
        if x:
            out.add(x.arg)
    return out - glob - nonl, glob, nonl


class Attrs:
    # ---------------------------------------------------------- names
    def scope_of(self, name):
        """oid of the environment holding a name (None: builtin)."""
        fr = self.frames[-1]
        if name in fr.globals:
            return fr.module.oid
        if fr.locals is None or name in fr.locals:
            v = self.get(fr.env, name)
            if v is not None:
                return fr.env
            if fr.locals is not None:
                return fr.env
        elif getattr(fr, "env_class", None) is not None and self.get(fr.env_class, name) is not None:
            return fr.env_class
        env = self.objs[fr.env].extra if fr.cls is None else fr.outer_env
        while env is not None:
            if self.get(env, name) is not None:
                return env
            env = self.objs[env].extra
        if self.get(fr.module.oid, name) is not None:
            return fr.module.oid
        return None

    def load_name(self, name):
        oid = self.scope_of(name)
        if oid is None:
            b = self.builtins.get(name)
            if b is None:
                self.event("name_error", name=name)
                self.raise_exc("NameError", C("name %r is not defined" % name))
            return b
        v = self.get(oid, name)
        if v is None or v is UNDEF:
            fr = self.frames[-1]
            if oid == fr.env and fr.locals is not None and name in fr.locals:
                self.event("name_error", name=name)
                self.raise_exc("UnboundLocalError", C(name))
            b = self.builtins.get(name)
            if b is not None:
                return b
            self.event("name_error", name=name)
            self.raise_exc("NameError", C(name))
        if isinstance(v, Term) and v.op == "ite" and self.has_undef(v):
            v = self.drop_undef(v, "UnboundLocalError", name)
        if isinstance(v, Term) and v.op == "ite":
            v = self.simp(v)
        return v

    def has_undef(self, v):
        if v is UNDEF:
            return True
        return isinstance(v, Term) and v.op == "ite" and (self.has_undef(v.args[1]) or self.has_undef(v.args[2]))

    def drop_undef(self, v, exc, name):
        """Remove the undefined arms of a conditional (they raise)."""
        while isinstance(v, Term) and v.op == "ite":
            v = self.simp(v)
            if not (isinstance(v, Term) and v.op == "ite"):
                break
            c, a, b = v.args
            if a is UNDEF:
                self.maybe_raise(c, exc, C(name))
                v = b
            elif b is UNDEF:
                self.maybe_raise(neg_b(c), exc, C(name))
                v = a
            else:
                return v if not self.has_undef(v) else self.joinv(c, self._strip(a), self._strip(b))
        return v

    def _strip(self, v):
        if isinstance(v, Term) and v.op == "ite":
            a, b = self._strip(v.args[1]), self._strip(v.args[2])
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return self.joinv(v.args[0], a, b)
        return v

    def store_name(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals:
            if not self.initing:
                self.event("static_store", oid=fr.module.oid, key=name, val=v)
            self.st.heap[(fr.module.oid, name)] = v
            return
        if name in fr.nonlocals or (fr.locals is not None and name not in fr.locals):
            env = self.objs[fr.env].extra
            while env is not None:
                if self.get(env, name) is not None:
                    self.st.heap[(env, name)] = v
                    return
                env = self.objs[env].extra
            if fr.locals is not None and name not in fr.nonlocals:
                self.st.heap[(fr.env, name)] = v
                return
        if fr.cls is not None and isinstance(v, FuncV) and v.cls is fr.cls:
            pass
        self.st.heap[(fr.env, name)] = v

    # ---------------------------------------------------------- classes
    def cls_get(self, c, name):
        v = None
        if c.oid is not None:
            v = self.get(c.oid, name)
        if v is None:
            v = c.ns.get(name)
        return v

    def cls_lookup(self, cls, name):
        for c in cls.mro:
            v = self.cls_get(c, name)
            if v is not None and v is not UNDEF:
                return v
        return None

    def class_of(self, v):
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            if o.cls is not None:
                return o.cls
            return self.builtins.get({"stream": "object", "file": "object"}.get(o.kind, o.kind))
        if isinstance(v, Term) and v.op == "enum":
            return v.args[0]
        if isinstance(v, (Const, Term)):
            return self.builtins.get({"none": "NoneType"}.get(v.kind, v.kind)) if v.kind != "any" else None
        if isinstance(v, Tup):
            return self.builtins["tuple"]
        if isinstance(v, ClassV):
            return self.builtins["type"]
        return None

    def method(self, v, name):
        """Bound method `name` of v's class, or None."""
        cls = self.class_of(v)
        if cls is None:
            return None
        m = self.cls_lookup(cls, name)
        if m is None:
            return None
        return self.bind(m, v, cls)

    def bind(self, m, inst, cls):
        if isinstance(m, FuncV) or isinstance(m, BuiltinV):
            return bound(m, inst)
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return bound(m.f, cls)
        if isinstance(m, PropV):
            return self.call(m.fget, [inst], {}) if inst is not None else m
        if isinstance(m, PartialV) and getattr(m, "as_method", False):
            return PartialV(m.f, [inst] + list(m.args), m.kw)
        return m

    # ---------------------------------------------------------- load
    def load_attr(self, v, name, default=None):
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            ls = self.leaves(v)
            if len(ls) > 1 and all(self.plain_attr(x, name) is not None for _, x in ls):
                r = self.plain_attr(ls[-1][1], name)
                for g, x in reversed(ls[:-1]):
                    r = self.joinv(g, self.plain_attr(x, name), r)
                return self.simp(r)
            return self.map_fork(v, lambda x: self.load_attr(x, name, default))
        return self.load_attr1(v, name, default)

    def plain_attr(self, v, name):
        if not isinstance(v, Ref) or self.objs[v.oid].kind != "inst":
            return None
        c = self.cls_lookup(self.objs[v.oid].cls, name)
        if isinstance(c, PropV):
            return None
        w = self.get(v.oid, name)
        if w is None or self.has_undef(w):
            return None
        return w

    def load_attr1(self, v, name, default=None):
        if isinstance(v, Ref):
            return self.ref_attr(v, name, default)
        if isinstance(v, ModV):
            return self.module_attr(v, name, default=default)
        if isinstance(v, ClassV):
            return self.class_attr(v, name, default)
        if isinstance(v, SuperV):
            mro = self.class_of(v.obj).mro if not isinstance(v.obj, ClassV) else v.obj.mro
            i = mro.index(v.cls) + 1 if v.cls in mro else 1
            for c in mro[i:]:
                m = self.cls_get(c, name)
                if m is not None:
                    if isinstance(v.obj, ClassV):
                        return bound(m.f, v.obj) if isinstance(m, ClassM) else (m.f if isinstance(m, StaticM) else m)
                    return self.bind(m, v.obj, self.class_of(v.obj))
            return self.object_attr(v.obj, name)
        if isinstance(v, OpaqueV):
            return self.ext_attr(v.path + "." + name)
        if isinstance(v, Term) and v.op == "enum":
            return self.enum_attr(v, name, default)
        if isinstance(v, (FuncV, BuiltinV, BoundV, PartialV)):
            return self.func_attr(v, name, default)
        if isinstance(v, (Const, Term, Tup, RangeV)):
            m = self.scalar_attr(v, name)
            if m is not None:
                return m
        if v is UNDEF:
            return unk("attribute of undefined")
        if isinstance(v, Term) and v.kind == "any":
            self.note_unknown("attribute %s of %s" % (name, show(v)))
            return T("call", ("." + name, (v,)), "any")
        if isinstance(v, PropV) and name in ("setter", "getter", "deleter"):
            return BuiltinV("property." + name, lambda it, a, k: PropV(a[0] if name == "getter" else v.fget, a[0] if name == "setter" else v.fset))
        if default is not None:
            return default
        self.raise_exc("AttributeError", C(name))

    def func_attr(self, v, name, default):
        if name == "__name__":
            return C(getattr(v, "name", "f"))
        if name == "__self__" and isinstance(v, BoundV):
            return v.self
        if name == "__func__" and isinstance(v, BoundV):
            return v.func
        if name == "register" and getattr(v, "dispatch", None) is not None:
            return self.dispatch_register(v)
        if name in ("__doc__", "__module__", "__qualname__"):
            return C(getattr(v, "name", ""))
        if name == "cache_clear":
            return BuiltinV("cache_clear", lambda it, a, k: NONE)
        if name == "__wrapped__":
            return v
        if name == "fromkeys" and isinstance(v, BuiltinV) and v.name == "dict":
            return self.builtins["dict.fromkeys"]
        if isinstance(v, BuiltinV):
            w = self.builtins.get(v.name + "." + name) or self.ext.get(v.name + "." + name)
            if w is not None:
                return w
        if default is not None:
            return default
        o = getattr(v, "oid", None)
        if o is not None:
            w = self.get(o, name)
            if w is not None:
                return w
        self.raise_exc("AttributeError", C(name))

    def ref_attr(self, v, name, default=None):
        o = self.objs[v.oid]
        if o.kind != "inst" and (o.cls is None or o.cls.builtin):
            m = self.obj_method(v, o, name)
            if m is not None:
                return m
            if default is not None:
                return default
            self.raise_exc("AttributeError", C("%s has no attribute %s" % (o.kind, name)))
        cls = o.cls
        c = self.cls_lookup(cls, name)
        if isinstance(c, PropV):
            return self.call(c.fget, [v], {})
        w = self.get(v.oid, name)
        if w is not None and not self.has_undef(w):
            return w
        if w is not None and w is not UNDEF:
            return self.undef_attr(v, cls, c, name, w, default)
        return self.missing_attr(v, cls, c, name, default)

    def undef_attr(self, v, cls, c, name, w, default):
        w = self.simp(w)
        if isinstance(w, Term) and w.op == "ite" and self.has_undef(w):
            return self.branch(w.args[0], lambda: self.undef_attr(v, cls, c, name, w.args[1], default),
                               lambda: self.undef_attr(v, cls, c, name, w.args[2], default))
        if w is UNDEF:
            return self.missing_attr(v, cls, c, name, default)
        return w

    def missing_attr(self, v, cls, c, name, default):
        if c is not None:
            if isinstance(c, StaticM) or isinstance(c, ClassM) or isinstance(c, (FuncV, BuiltinV, PartialV)):
                return self.bind(c, v, cls)
            if isinstance(c, LazyProp):
                r = self.call(c.f, [v], {})
                self.put(v.oid, name, r)
                return r
            return c
        if name == "__class__":
            return cls
        if name == "__dict__":
            return self.inst_dict(v)
        m = self.obj_method(v, self.objs[v.oid], name)
        if m is not None:
            return m
        g = self.cls_lookup(cls, "__getattr__")
        if g is not None:
            depth = sum(1 for f in self.frames if f.func is g)
            if depth > 6:
                self.raise_exc("RecursionError", C(name))
            if default is not None:
                return self.catch_attr(lambda: self.call(g, [v, C(name)], {}), default)
            return self.call(g, [v, C(name)], {})
        m = self.object_attr(v, name)
        if m is not None:
            return m
        if any(getattr(k, "external", False) for k in cls.mro):
            return self.ext_attr(next(k for k in cls.mro if getattr(k, "external", False)).name + "." + name)
        if default is not None:
            return default
        self.event("attribute_error", name=name, cls=cls.qual)
        self.raise_exc("AttributeError", C("%s has no attribute %s" % (cls.name, name)))

    def catch_attr(self, fn, default):
        pc = self.st.pc
        st, v, pend = self.region(fn)
        outs = [(st, v)] if st is not None else []
        for p in pend:
            if p.kind == "raise" and self.exc_matches(p.value, [self.builtins["AttributeError"]]):
                outs.append((p.state, default))
            else:
                self.pends[-1].append(p)
        return self.merge_outcomes(outs, pc)

    def object_attr(self, v, name):
        """Attributes every object has."""
        if name == "__init__":
            return BuiltinV("object.__init__", lambda it, a, k: NONE)
        if name == "__setattr__":
            return BuiltinV("object.__setattr__", lambda it, a, k: it.raw_setattr(v, a[0].v, a[1]))
        if name == "__getattribute__":
            return BuiltinV("object.__getattribute__", lambda it, a, k: it.ref_attr(v, a[0].v))
        if name == "__eq__":
            return BuiltinV("object.__eq__", lambda it, a, k: TRUE if a[0] is v else it.not_impl)
        if name in ("__repr__", "__str__"):
            return BuiltinV("object.__repr__", lambda it, a, k: C("<obj>"))
        if name == "__hash__":
            return BuiltinV("object.__hash__", lambda it, a, k: unk("hash", "int"))
        if name == "__class__":
            return self.class_of(v)
        if name == "__init_subclass__":
            return BuiltinV("x", lambda it, a, k: NONE)
        if name in ("__enter__",):
            return BuiltinV("x", lambda it, a, k: v)
        if name in ("__exit__",):
            return BuiltinV("x", lambda it, a, k: NONE)
        if name == "__new__":
            return self.builtins["object.__new__"]
        return None

    def inst_dict(self, v):
        """__dict__ of an instance, as a dictionary of its attributes."""
        r = self.new_obj("dict")
        ents = []
        for k, w in self.locs_of(v.oid):
            if k.startswith("$") or w is UNDEF:
                continue
            ents.append((C(k), TRUE, self._strip(w) if self.has_undef(w) else w))
        self.raw_put(r.oid, "$", DICT(ents))
        self.objs[r.oid].extra = ("instdict", v)
        return r

    def class_attr(self, c, name, default=None):
        if c.is_enum and name in c.members:
            return enum(c, c.members[name])
        m = self.cls_lookup(c, name)
        if m is not None:
            if isinstance(m, StaticM):
                return m.f
            if isinstance(m, ClassM):
                return bound(m.f, c)
            return m
        if name == "__name__":
            return C(c.name)
        if name == "__qualname__":
            return C(c.name)
        if name == "__doc__":
            return NONE
        if name == "__mro__":
            return TUP(c.mro)
        if name == "__members__" and c.is_enum:
            return self.new_dict([(C(n), enum(c, v)) for n, v in c.members.items()])
        if name == "__dataclass_fields__" and c.dc_fields is not None:
            return self.new_dict([(C(f[0]), C(f[0])) for f in c.dc_fields])
        if name == "_fields" and c.nt_fields:
            return TUP([C(f) for f in c.nt_fields])
        if name == "_make" and c.nt_fields:
            return BuiltinV("_make", lambda it, a, k: it.call(c, it.unpack(a[0], None), {}))
        w = self.builtins.get(c.name + "." + name)
        if w is not None:
            return w
        if name in ("__init__", "__new__", "__repr__", "__str__", "__eq__", "__hash__", "__setattr__"):
            def f(it, a, k):
                m = it.object_attr(a[0], name) if a else None
                return it.call(m, a[1:], k) if m is not None else NONE
            if name == "__new__":
                return self.builtins["object.__new__"]
            return BuiltinV("object." + name, f)
        if c.builtin:
            # an unbound method of a builtin type
            return BuiltinV(c.name + "." + name, lambda it, a, k: it.call(it.load_attr(a[0], name), a[1:], k))
        if any(getattr(k, "external", False) for k in c.mro):
            return self.ext_attr(next(k for k in c.mro if getattr(k, "external", False)).name + "." + name)
        if default is not None:
            return default
        self.event("attribute_error", name=name, cls=c.qual)
        self.raise_exc("AttributeError", C(name))

    def module_attr(self, m, name, imp=False, default=None):
        if m.repo:
            v = self.get(m.oid, name) if m.oid is not None else None
            if v is not None and v is not UNDEF:
                return v
            full = m.name + "." + name
            if full in self.modules:
                return self.modules[full]
            if imp and self.is_repo_module(full):
                return self.import_module(full)
            if default is not None:
                return default
            self.event("attribute_error", name=name, cls="module " + m.name)
            self.raise_exc("ImportError" if imp else "AttributeError", C("module %s has no attribute %s" % (m.name, name)))
        full = m.name + "." + name
        if full in self.modules and full not in self.ext:
            return self.modules[full]
        return self.ext_attr(full)

    # ---------------------------------------------------------- store
    def store_attr(self, o, name, val):
        o = self.simp(o)
        if isinstance(o, Term) and o.op == "ite":
            ls = self.leaves(o)
            if all(isinstance(x, Ref) and self.objs[x.oid].kind == "inst" and self.plain_store(x, name) for _, x in ls):
                for g, x in ls:
                    old = self.get(x.oid, name, UNDEF)
                    self.put(x.oid, name, self.joinv(g, val, old))
                return
            return self.map_fork(o, lambda x: self.store_attr(x, name, val))
        if isinstance(o, Ref):
            ob = self.objs[o.oid]
            if ob.kind == "inst":
                sa = self.cls_lookup(ob.cls, "__setattr__")
                if sa is not None:
                    return self.call(sa, [o, C(name), val], {})
                c = self.cls_lookup(ob.cls, name)
                if isinstance(c, PropV):
                    if c.fset is None:
                        self.raise_exc("AttributeError", C("can't set attribute"))
                    return self.call(c.fset, [o, val], {})
                if ob.cls.nt_fields and name in ob.cls.nt_fields:
                    self.raise_exc("AttributeError", C("can't set attribute"))
                if getattr(ob.cls, "frozen", False):
                    self.raise_exc("AttributeError", C("cannot assign to field"))
                sl = self.slots(ob.cls)
                if sl is not None and name not in sl:
                    self.raise_exc("AttributeError", C(name))
                self.put(o.oid, name, val)
                return
            self.put(o.oid, "." + name, val)
            return
        if isinstance(o, ClassV) and o.oid is not None:
            if not self.initing:
                self.event("static_store", oid=o.oid, key=name, val=val, cls=o.qual)
            self.st.heap[(o.oid, name)] = val
            return
        if isinstance(o, ModV) and o.repo:
            if not self.initing:
                self.event("static_store", oid=o.oid, key=name, val=val)
            self.st.heap[(o.oid, name)] = val
            return
        if isinstance(o, (FuncV,)):
            if not self.initing:
                self.event("static_store", oid=0, key=name, val=val)
            if getattr(o, "oid", None) is None:
                o.oid = self.new_obj("env").oid
            self.st.heap[(o.oid, name)] = val
            return
        if isinstance(o, (OpaqueV, BuiltinV)):
            self.event("ext_store", path=getattr(o, "path", getattr(o, "name", "?")), name=name)
            return
        if isinstance(o, ModV):
            self.event("ext_store", path=o.name, name=name)
            return
        if isinstance(o, Term) and o.kind == "any":
            self.event("unknown_store", name=name)
            return
        self.raise_exc("AttributeError", C(name))

    def raw_setattr(self, v, name, val):
        self.put(v.oid, name, val)
        return NONE

    def plain_store(self, x, name):
        cls = self.objs[x.oid].cls
        return not isinstance(self.cls_lookup(cls, name), PropV) and self.cls_lookup(cls, "__setattr__") is None and \
            not cls.nt_fields and not getattr(cls, "frozen", False) and self.slots(cls) is None

    def slots(self, cls):
        out = set()
        for c in cls.mro:
            if c.builtin:
                if c.name != "object":
                    return None
                continue
            s = self.cls_get(c, "__slots__")
            if s is None:
                return None
            its = self.known_items(s) if not (is_const(s) and isinstance(s.v, str)) else [s]
            if its is None:
                return None
            out |= {x.v for x in its if is_const(x)}
        return out

    def del_attr(self, o, name):
        if isinstance(o, Ref):
            self.put(o.oid, name, UNDEF)

    # ---------------------------------------------------------- enums
    def finish_enum(self, cls):
        auto = 0
        flag = cls.is_flag
        for s in cls.node.body:
            if not isinstance(s, (ast.Assign, ast.AnnAssign)):
                continue
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if not isinstance(t, ast.Name) or t.id.startswith("_"):
                continue
            v = self.get(cls.oid, t.id)
            if v is None or isinstance(v, (FuncV, PropV)):
                continue
            if isinstance(v, OpaqueV) and v.path == "enum.auto":
                if flag:
                    auto = 1 if auto == 0 else auto * 2
                else:
                    auto += 1
                v = C(auto)
            elif is_const(v) and isinstance(v.v, int):
                auto = v.v
            if isinstance(v, Tup) and self.cls_lookup(cls, "__init__") is not None:
                self._enum_init(cls, t.id, v)
            cls.members[t.id] = v
            self.st.heap[(cls.oid, t.id)] = enum(cls, v)

    def _enum_init(self, cls, name, v):
        pass

    def enum_attr(self, v, name, default=None):
        cls, x = v.args
        if name in ("value", "_value_"):
            return x
        if name in ("name", "_name_"):
            return self.enum_name(v)
        m = self.cls_lookup(cls, name)
        if m is not None:
            if isinstance(m, PropV):
                return self.call(m.fget, [v], {})
            return self.bind(m, v, cls)
        if name == "__class__":
            return cls
        if cls.is_int:
            return self.load_attr(x, name)
        if isinstance(x, Tup) and self.cls_lookup(cls, "__init__") is not None:
            raise Incomplete("enum with tuple initialiser")
        if default is not None:
            return default
        self.raise_exc("AttributeError", C(name))

    def enum_name(self, v):
        cls, x = v.args
        ms = list(cls.members.items())
        if not ms:
            return unk("enum name", "str")
        if cls.is_flag:
            if is_const(x):
                names = [n for n, m in ms if m.v & x.v and m.v & (m.v - 1) == 0]
                exact = [n for n, m in ms if m.v == x.v]
                return C(exact[0]) if exact else (C("|".join(names)) if names else NONE)
            r = T("strm", (x, "flagname", tuple(n for n, _ in ms)), "str")
            for n, m in reversed(ms):
                r = ite(eq(x, m), C(n), r)
            return r
        r = C(ms[-1][0])
        for n, m in reversed(ms[:-1]):
            r = ite(eq(x, m), C(n), r)
        return r

    # ---------------------------------------------------------- isinstance
    def isinstance_(self, v, cls):
        if isinstance(cls, Tup):
            return disj(*[self.isinstance_(v, c) for c in cls.items])
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            return self.map_pure(v, lambda x: self.isinstance_(x, cls))
        if isinstance(cls, BuiltinV):
            cls = self.builtins.get("type:" + cls.name, cls)
        if isinstance(cls, OpaqueV):
            if isinstance(v, Ref) and self.objs[v.oid].cls is not None:
                return C(any(getattr(c, "external", False) and c.name == cls.path for c in self.objs[v.oid].cls.mro))
            if isinstance(v, Ref):
                return self.ext_isinstance(v, cls)
            if cls.path.startswith(("typing.", "collections.abc.", "numbers.")):
                return self.abc_isinstance(v, cls.path.rsplit(".", 1)[1])
            return unk("isinstance", "bool") if not isinstance(v, Const) else FALSE
        if not isinstance(cls, ClassV):
            return unk("isinstance", "bool")
        if isinstance(v, Term) and v.kind == "any" and v.op != "enum":
            if cls.name == "object":
                return TRUE
            return T("strm", (v, "isinstance", (C(cls.qual),)), "bool")
        k = self.class_of(v)
        if k is None:
            return C(cls.name in ("object",) or (cls.name == "type" and isinstance(v, ClassV)))
        if k.name == "bool" and cls.name == "int":
            return TRUE
        return C(cls in k.mro)

    def abc_isinstance(self, v, n):
        k = self.objs[v.oid].kind if isinstance(v, Ref) else kind(v)
        table = {"Sequence": ("list", "tuple", "str", "bytes"), "Mapping": ("dict",), "Iterable": ("list", "tuple", "str", "bytes", "dict", "set"),
                 "Set": ("set",), "MutableMapping": ("dict",), "MutableSequence": ("list",), "Integral": ("int", "bool"),
                 "Number": ("int", "bool", "float"), "Hashable": ("int", "str", "bool", "tuple", "float", "bytes", "none")}
        if n == "Callable":
            return C(isinstance(v, (FuncV, BoundV, BuiltinV, ClassV)))
        return C(k in table.get(n, ()))


class LazyProp(Val):
    kind = "prop"

    def __init__(self, f):
        self.f = f
