"""The interpreter object: module loading, frames, regions, entry points."""
import ast
import os
import sys

from .core import *
from .core import Core
from .stmts import Stmts
from .loops import Loops
from .exprs import Exprs
from .calls import Calls
from .attrs import Attrs
from .containers import Containers
from .builtins_ import Builtins
from .models import Models

MAX_DEPTH = 60
THIRD_PARTY = {"xsdata", "setuptools", "pkg_resources", "typing_extensions"}


class Frame:
    def __init__(self, func_name, env, module, func=None, cls=None):
        self.func_name, self.env, self.module, self.func, self.cls = func_name, env, module, func, cls
        self.handler = None        # what a `yield` does
        self.locals = None
        self.globals = ()
        self.nonlocals = ()


class Interp(Stmts, Loops, Exprs, Calls, Attrs, Containers, Builtins, Models, Core):
    def __init__(self, root):
        self.root = root
        self.src = os.path.join(root, "src")
        self.base = {}
        self.cache_cells, self.shared_results = {}, set()
        self.objs = {}
        self._oid = 0
        self.st = State()
        self.frames = []
        self.pends = [[]]
        self.loops = []
        self.events = []
        self.weak = []
        self.cur_node = None
        self.initing = 0
        self._dec = {}
        self._inst = {}
        self._seqleaf = {}
        self._setview = {}
        self._inner = {}
        self.info_of = {}
        self.leafseq = {}
        self.okeys = {}
        self.seqlen = {}
        self.exists_info = {}
        self.slices = {}
        self.modules = {}
        self.loop_infos = []
        self.sim_all = False       # follow the loops of text drivers too
        self.unroll_decided, self.unroll_forever = 1200, 64
        self.unknown_calls = {}
        self.stats = {"functions": set(), "nodes": 0, "calls": 0, "loops": 0}
        self.ev_memo = {}
        self.init_builtins()
        self.init_models()

    # ------------------------------------------------------------ control
    def region(self, fn):
        """Run fn; (state or None, value, pendings raised inside)."""
        self.pends.append([])
        v = None
        try:
            v = fn()
            st = self.st
        except DeadPath:
            st = None
        return st, v, self.pends.pop()

    def stash(self, kind_, value=None, tag=None):
        self.pends[-1].append(Pending(kind_, value, self.st, tag, self.cur_node))
        raise DeadPath()

    def repend(self, ps):
        self.pends[-1].extend(ps)

    def raise_exc(self, name, *args):
        self.stash("raise", self.make_exc(name, args))

    def make_exc(self, name, args=()):
        cls = self.builtins.get(name) or self.ext_class(name)
        r = self.new_obj("inst", cls)
        self.raw_put(r.oid, "args", TUP(args))
        return r

    def excluded(self, c, depth):
        """c is false in each case of the choices made inside it (a comparison of sums with conditional parts)."""
        d = self.decide(c)
        if d is not None or depth == 0:
            return d is False
        q = None
        for t in walk(c):
            if t.__class__ is Term and t.op == "ite" and t.kind == "int" and self.decide(t.args[0]) is None:
                q = t.args[0]
                break
        if q is None:
            return False
        s0 = self.st
        try:
            for x, k in ((q, TRUE), (neg_b(q), FALSE)):
                self.st = s0.copy()
                self.assume(x)
                if not self.excluded(subst(c, {q: k}), depth - 1):
                    return False
            return True
        finally:
            self.st = s0

    def maybe_raise(self, c, name, *args):
        """Fork off the executions on which condition c makes the operation raise."""
        d = self.decide(c)
        if d is False:
            return
        if d is True:
            self.raise_exc(name, *args)
        if self.excluded(c, 3):
            return
        s0 = self.st
        self.st = s0.copy()
        self.st.pc = s0.pc + (c,)
        self.assume(c)
        self.pends[-1].append(Pending("raise", self.make_exc(name, args), self.st, None, self.cur_node))
        self.st = s0.copy()
        nc = neg_b(c)
        self.st.pc = s0.pc + (nc,)
        self.assume(nc)

    def merge_outcomes(self, outs, pc):
        """outs: [(state, value)] with mutually exclusive path conditions."""
        if not outs:
            raise DeadPath()
        st, v = self.join_many([(self.suffix(s, pc), s, w) for s, w in outs], pc) if len(outs) > 1 else (outs[0][0], outs[0][1])
        self.st = st
        return v

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        parts = name.split(".")
        p = os.path.join(self.src, *parts)
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p):
            return None, True
        return None, False

    def is_repo_module(self, name):
        path, pkg = self.find_module(name)
        return path is not None or pkg

    def import_module(self, name):
        """Load a module of the repository (and its parents) or an external one."""
        if name in self.modules:
            return self.modules[name]
        if not self.is_repo_module(name):
            top = name.split(".")[0]
            if top not in sys.stdlib_module_names and top not in THIRD_PARTY and not self.is_repo_module(top):
                self.raise_exc("ModuleNotFoundError", C("No module named %r" % name))
            m = self.modules[name] = ModV(name)
            return m
        parent = None
        if "." in name:
            parent = self.import_module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, _ = self.find_module(name)
        m = self.modules[name] = ModV(name, repo=True, path=path)
        tree = None
        if path:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
        self.exec_module(m, tree)
        if parent is not None and parent.repo:
            self.base[(parent.oid, name.rsplit(".", 1)[1])] = m
        return m

    def load_source(self, name, text):
        """A module given as text (the abstract drivers of the checkers)."""
        m = self.modules[name] = ModV(name, repo=True, path="<%s>" % name)
        self.exec_module(m, ast.parse(text))
        return m

    def exec_module(self, m, tree):
        saved = (self.st, self.frames, self.pends, self.loops, self.initing)
        self.st, self.frames, self.pends, self.loops = State(), [], [[]], []
        self.initing = 1
        try:
            m.oid = self.new_obj("env").oid
            self.raw_put(m.oid, "__name__", C(m.name))
            self.raw_put(m.oid, "__file__", C(m.path or ""))
            fr = Frame(m.name, m.oid, m)
            self.frames.append(fr)
            if tree is not None:
                try:
                    self.exec_block(tree.body)
                except DeadPath:
                    raise Incomplete("import of %s fails: %s" % (m.name, self.describe_pend(self.pends[-1])))
            self.base.update(self.st.heap)
        finally:
            self.st, self.frames, self.pends, self.loops, self.initing = saved

    def describe_pend(self, ps):
        out = []
        for p in ps:
            n = p.value
            if isinstance(n, Ref):
                o = self.objs[n.oid]
                a = p.state.heap.get((n.oid, "args"))
                n = "%s%r" % (o.cls.name if o.cls else o.kind, a)
            out.append("%s %s at line %s" % (p.kind, n, getattr(p.node, "lineno", "?")))
        return "; ".join(out[:4])

    def name_in(self, module, name):
        m = self.import_module(module)
        return self.get(m.oid, name)

    # ------------------------------------------------------------ entry
    def run(self, func, args=(), kwargs=None):
        """Analyse a call; returns (state or None, value, pendings)."""
        st, v, pend = self.region(lambda: self.call(func, list(args), dict(kwargs or {})))
        if st is not None:
            self.st = st
        return st, v, pend

    def site_of(self, node):
        f = self.frames[-1] if self.frames else None
        path = f.module.path if f and f.module else "?"
        if path and path.startswith(self.root):
            path = os.path.relpath(path, self.root)
        return "%s:%s in %s" % (path, getattr(node, "lineno", "?"), f.func_name if f else "?")

    def site(self):
        return self.site_of(self.cur_node)
