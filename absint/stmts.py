"""Statements."""
import ast

from .core import *


class Stmts:
    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        self.cur_node = s
        self.stats["nodes"] += 1
        m = getattr(self, "x_" + s.__class__.__name__, None)
        if m is None:
            raise Incomplete("statement %s at %s" % (s.__class__.__name__, self.site_of(s)))
        m(s)

    # ---------------------------------------------------------- simple
    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_Assert(self, s):
        c = self.truthy(self.ev(s.test))
        self.maybe_raise(neg_b(c), "AssertionError")

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.stash("return", v, self.frames[-1])

    def x_Break(self, s):
        self.stash("break", None, self.loop_tag())

    def x_Continue(self, s):
        self.stash("continue", None, self.loop_tag())

    def loop_tag(self):
        return self.frames[-1].loop_tags[-1]

    def x_Raise(self, s):
        if s.exc is None:
            cur = self.frames[-1].exc if hasattr(self.frames[-1], "exc") else None
            self.stash("raise", cur if cur is not None else self.make_exc("RuntimeError"))
        v = self.ev(s.exc)
        if s.cause is not None:
            self.ev(s.cause)

        def go(x):
            if isinstance(x, (ClassV, FuncV, BuiltinV, OpaqueV)):
                x = self.call(x, [], {})
            self.stash("raise", x)
        self.map_fork(v, go)

    def x_Delete(self, s):
        for t in s.targets:
            self.delete(t)

    def delete(self, t):
        if isinstance(t, ast.Name):
            self.store_name(t.id, UNDEF)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.map_fork(o, lambda x: self.del_attr(x, t.attr))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev_index(t.slice)
            self.map_fork(o, lambda x: self.del_item(x, k))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x)

    # ---------------------------------------------------------- assignment
    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        f = self.frames[-1]
        if f.cls is not None and isinstance(s.target, ast.Name):
            f.cls.annots.append((s.target.id, s))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id)
            v = self.ev(s.value)
            self.store_name(t.id, self.augop(s.op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.load_attr(o, t.attr)
            v = self.ev(s.value)
            self.store_attr(o, t.attr, self.augop(s.op, old, v))
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev_index(t.slice)
            old = self.get_item(o, k)
            v = self.ev(s.value)
            self.set_item(o, k, self.augop(s.op, old, v))
        else:
            raise Incomplete("augmented assignment")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            self.cur_node = t
            self.store_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev_index(t.slice)
            self.cur_node = t
            self.set_item(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                its = self.unpack(v, None)
                i = star[0]
                after = len(t.elts) - i - 1
                if len(its) < len(t.elts) - 1:
                    self.raise_exc("ValueError", C("not enough values to unpack"))
                mid = its[i:len(its) - after]
                vals = its[:i] + [self.new_list(mid)] + its[len(its) - after:]
                for x, w in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, w)
                return
            its = self.unpack(v, len(t.elts))
            for x, w in zip(t.elts, its):
                self.assign(x, w)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Incomplete("assignment target %s" % t.__class__.__name__)

    # ---------------------------------------------------------- branching
    def x_If(self, s):
        c = self.truthy(self.ev(s.test))
        self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Match(self, s):
        subj = self.ev(s.subject)

        def cases(i):
            if i == len(s.cases):
                return
            k = s.cases[i]
            c, binds = self.match_pat(k.pattern, subj)

            def yes():
                for n, v in binds:
                    self.store_name(n, v)
                if k.guard is not None:
                    g = self.truthy(self.ev(k.guard))
                    return self.branch(g, lambda: self.exec_block(k.body), lambda: cases(i + 1))
                self.exec_block(k.body)
            self.branch(c, yes, lambda: cases(i + 1))
        cases(0)

    def match_pat(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truthy(self.compare_eq(v, self.ev(p.value))), []
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, C(p.value)), []
        if isinstance(p, ast.MatchOr):
            cs = [self.match_pat(q, v) for q in p.patterns]
            if any(b for _, b in cs):
                raise Incomplete("bindings in or-pattern")
            return disj(*[c for c, _ in cs]), []
        if isinstance(p, ast.MatchAs):
            c, b = self.match_pat(p.pattern, v) if p.pattern is not None else (TRUE, [])
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls)
            c = self.isinstance_(v, cls)
            if self.decide(c) is False:
                return FALSE, []
            b = []
            pats = list(zip(p.kwd_attrs, p.kwd_patterns))
            if p.patterns:
                if isinstance(cls, ClassV) and cls.name in ("int", "str", "bytes", "bool", "float", "list", "dict", "tuple", "set") and len(p.patterns) == 1:
                    c2, b2 = self.match_pat(p.patterns[0], v)
                    c, b = conj(c, c2), b + b2
                else:
                    names = self.cls_lookup(cls, "__match_args__")
                    pats = [(n.v, q) for n, q in zip(names.items if isinstance(names, Tup) else (), p.patterns)] + pats
            if pats:
                # the attributes are only looked at in an object of the class
                s0 = self.st
                self.st = s0.copy()
                self.st.pc = s0.pc + (c,)
                try:
                    self.assume(c)
                    w = self.simp(v)
                    for n, q in pats:
                        miss = OpaqueV("missing")
                        x = self.getattr_default(w, C(n), miss)
                        has = self.map_pure(x, lambda y: FALSE if y is miss else TRUE)
                        c = conj(c, has)
                        if has is FALSE:
                            return FALSE, []
                        self.assume(has)
                        c2, b2 = self.match_pat(q, self.simp(x))
                        c, b = conj(c, c2), b + b2
                except DeadPath:
                    return FALSE, []
                finally:
                    self.st = s0
            return c, b
        if isinstance(p, ast.MatchSequence):
            v = self.simp(v)
            its = self.known_items(v)
            if its is None or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Incomplete("sequence pattern")
            if len(its) != len(p.patterns):
                return FALSE, []
            c, b = TRUE, []
            for q, w in zip(p.patterns, its):
                c2, b2 = self.match_pat(q, w)
                c, b = conj(c, c2), b + b2
            return c, b
        raise Incomplete("pattern %s" % p.__class__.__name__)

    # ---------------------------------------------------------- exceptions
    def x_Try(self, s):
        pc = self.st.pc

        def body():
            st, _, pend = self.region(lambda: self.exec_block(s.body))
            outs, rest = [], []
            caught = []
            for p in pend:
                (caught if p.kind == "raise" and s.handlers else rest).append(p)
            self.repend(rest)
            if st is not None:
                if s.orelse:
                    self.st = st
                    try:
                        self.exec_block(s.orelse)
                        outs.append((self.st, None))
                    except DeadPath:
                        pass
                else:
                    outs.append((st, None))
            for h, ps in self.dispatch_handlers(s.handlers, caught):
                v = self.merge_outcomes([(p.state, p.value) for p in ps], pc) if len(ps) > 1 else ps[0].value
                if len(ps) == 1:
                    self.st = ps[0].state
                f = self.frames[-1]
                old = getattr(f, "exc", None)
                f.exc = v
                try:
                    if h.name:
                        self.store_name(h.name, v)
                    self.exec_block(h.body)
                    if h.name:
                        self.store_name(h.name, UNDEF)
                    outs.append((self.st, None))
                except DeadPath:
                    pass
                finally:
                    f.exc = old
            self.merge_outcomes(outs, pc)
        if not s.finalbody:
            body()
            return
        self.with_exit(body, lambda how: self.exec_block(s.finalbody))

    x_TryStar = x_Try

    def dispatch_handlers(self, handlers, pends):
        """[(handler, [pendings])]; uncaught ones are passed on."""
        left = list(pends)
        out = []
        for h in handlers:
            if not left:
                break
            if h.type is None:
                out.append((h, left))
                left = []
                break
            saved = self.st
            self.st = left[0].state
            t = self.ev(h.type)
            self.st = saved
            types = list(t.items) if isinstance(t, Tup) else [t]
            mine, other = [], []
            for p in left:
                m = self.exc_matches(p.value, types)
                (mine if m else other).append(p)
            if mine:
                out.append((h, mine))
            left = other
        self.repend(left)
        return out

    def exc_matches(self, v, types):
        cls = self.class_of(v)
        if cls is None:
            return any(isinstance(t, ClassV) and t.name in ("Exception", "BaseException") for t in types)
        for t in types:
            if isinstance(t, ClassV) and t in cls.mro:
                return True
            if isinstance(t, OpaqueV) and cls.name == t.path:
                return True
        return False

    def with_exit(self, body, exit_fn):
        """Run body; exit_fn(how) on every way out of it. exit_fn may return True to swallow a raise."""
        pc = self.st.pc
        st, v, pend = self.region(body)
        outs = []
        if st is not None:
            self.st = st
            try:
                exit_fn(None)
                outs.append((self.st, v))
            except DeadPath:
                pass
        for p in pend:
            self.st = p.state
            try:
                sw = exit_fn(p)
                if sw is True:
                    outs.append((self.st, None))
                else:
                    self.pends[-1].append(Pending(p.kind, p.value, self.st, p.tag, p.node))
            except DeadPath:
                pass
        return self.merge_outcomes(outs, pc)

    def x_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        cm = self.ev(it.context_expr)
        self.cur_node = it.context_expr

        def inner(v):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            self.with_items(items[1:], body)
        self.map_fork(cm, lambda x: self.enter(x, inner))

    def enter(self, cm, inner):
        """Run inner(value) inside context manager cm."""
        if isinstance(cm, Ref):
            o = self.objs[cm.oid]
            if o.kind == "genobj":
                fv, args, kw = o.extra
                return self.run_gen_inline(fv, args, kw, inner)
            if o.kind == "cm":
                return o.extra(self, inner)
            if o.kind in ("file", "stream", "zip", "zipentry"):
                self.file_event("enter", cm)
                return self.with_exit(lambda: inner(cm), lambda how: self.close_file(cm))
            if o.kind == "inst":
                en, ex = self.method(cm, "__enter__"), self.method(cm, "__exit__")
                if en is None or ex is None:
                    self.raise_exc("TypeError", C("not a context manager"))
                v = self.call(en, [], {})

                def leave(how):
                    if how is not None and how.kind == "raise":
                        r = self.call(ex, [self.class_of(how.value) or NONE, how.value, NONE], {})
                        return True if self.decide(self.truthy(r)) is True else None
                    self.call(ex, [NONE, NONE, NONE], {})
                return self.with_exit(lambda: inner(v), leave)
        self.note_unknown("context manager %r" % (cm,))
        return inner(unk("context value"))

    # ---------------------------------------------------------- definitions
    def x_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.ev(d), f)
        self.store_name(s.name, f)

    def decorate(self, d, f):
        return self.call(d, [f], {})

    def make_func(self, s, name=None):
        a = s.args
        defaults = [self.ev(x) for x in a.defaults]
        kwd = [self.ev(x) if x is not None else None for x in a.kw_defaults]
        fr = self.frames[-1]
        env = fr.env if fr.cls is None else fr.outer_env
        f = FuncV(name or s.name, s, env, fr.module, defaults, kwd, fr.cls)
        f.is_gen = self.has_yield(s)
        f.cls = fr.cls or getattr(fr, "def_cls", None)
        return f

    def has_yield(self, s):
        body = s.body if isinstance(s.body, list) else [s.body]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        return False

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        bs = []
        for b in bases:
            if isinstance(b, ClassV):
                bs.append(b)
            elif isinstance(b, OpaqueV):
                bs.append(self.ext_class(b.path))
        kws = {k.arg: self.ev(k.value) for k in s.keywords if k.arg}
        fr = self.frames[-1]
        cls = ClassV(s.name, bs or [self.builtins["object"]], fr.module, s)
        cls.annots = []
        cls.keywords = kws
        r = self.new_obj("env")
        cls.oid = r.oid
        cls.qual = (fr.cls.qual + "." if fr.cls is not None else (fr.module.name + ".")) + s.name
        self.raw_put(cls.oid, "__name__", C(s.name))
        self.raw_put(cls.oid, "__qualname__", C(s.name))
        from .interp import Frame
        nf = Frame(cls.qual, cls.oid, fr.module, None, cls)
        nf.outer_env = fr.env if fr.cls is None else fr.outer_env
        self.frames.append(nf)
        try:
            self.exec_block(s.body)
        finally:
            self.frames.pop()
        if cls.is_enum:
            self.finish_enum(cls)
        if any(b.nt_base for b in bs if getattr(b, "nt_base", False)):
            self.finish_namedtuple_class(cls)
        out = cls
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            out = self.decorate(dv, out)
        self.store_name(s.name, out)

    # ---------------------------------------------------------- imports
    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                self.store_name(a.name.split(".")[0], self.import_module(a.name.split(".")[0]))

    def x_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            base = self.frames[-1].module
            parts = base.name.split(".")
            if not (base.path or "").endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([s.module] if s.module else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if m.repo:
                    for (oid, k), v in list(self.base.items()):
                        if oid == m.oid and not k.startswith("_") and k != "$alive":
                            self.store_name(k, v)
                continue
            self.store_name(a.asname or a.name, self.module_attr(m, a.name, imp=True))

    # ---------------------------------------------------------- loops
    def x_For(self, s):
        self.for_loop(s)

    def x_While(self, s):
        self.while_loop(s)
