"""Static entities, container payloads and the abstract state."""
from .terms import *


SEQ_OF = {}         # leaf of a sequence -> (interpreter, payload)


class ClassV(Val):
    kind = "class"

    def __init__(self, name, bases=(), module=None, node=None, builtin=False):
        self.name = name
        self.bases = list(bases)
        self.module = module
        self.node = node
        self.builtin = builtin
        self.ns = {}
        self.members = {}          # enum: name -> Const value
        self.is_enum = any(b.is_enum for b in self.bases)
        self.is_flag = any(b.is_flag for b in self.bases)
        self.is_int = any(b.is_int for b in self.bases)
        self.dc_fields = None
        self.dc_eq = False
        self.nt_fields = None      # namedtuple fields
        self.oid = None
        self.mro = self._mro()
        for b in self.bases:
            if b.nt_fields and self.nt_fields is None:
                self.nt_fields = b.nt_fields
        self.qual = (module.name + "." if module else "") + name

    def _mro(self):
        out = [self]
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                h = s[0]
                if not any(h in q[1:] for q in seqs):
                    break
            else:
                break
            out.append(h)
            for q in seqs:
                if q and q[0] is h:
                    del q[0]
        return out

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s>" % self.qual


class FuncV(Val):
    kind = "func"

    def __init__(self, name, node, env, module, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.env = env              # closure env oid or None
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = False
        self.ctx = False            # contextlib.contextmanager
        self.cached = False
        self.qual = (module.name if module else "?") + "." + (cls.name + "." if cls else "") + name

    def __repr__(self):
        return "<fn %s>" % self.qual


class BoundV(Val):
    __slots__ = ("func", "self")
    kind = "func"

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self)


_bound = {}


def bound(f, s):
    b = _bound.get((f, s))
    if b is None:
        b = BoundV()
        b.func, b.self = f, s
        _bound[(f, s)] = b
    return b


class BuiltinV(Val):
    kind = "func"

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class PropV(Val):
    kind = "prop"

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(Val):
    kind = "static"

    def __init__(self, f):
        self.f = f


class ClassM(Val):
    kind = "classm"

    def __init__(self, f):
        self.f = f


class SuperV(Val):
    kind = "super"

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PartialV(Val):
    kind = "func"

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class ModV(Val):
    kind = "module"

    def __init__(self, name, ns=None, repo=False, path=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.repo = repo
        self.path = path
        self.oid = None

    def __repr__(self):
        return "<module %s>" % self.name


class OpaqueV(Val):
    """Something outside the analysed code, known only by its dotted path."""
    kind = "opaque"

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path


_opq = {}


def opaque(path):
    if path not in _opq:
        _opq[path] = OpaqueV(path)
    return _opq[path]


class RangeV(Val):
    kind = "range"

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class IterDesc:
    """An iterable: `items` when fully known, else count term and element getter."""

    def __init__(self, items=None, n=None, get=None, proto=None, src=None):
        self.items, self.n, self.get, self.proto, self.src = items, n, get, proto, src


# ------------------------------------------------------------- payloads

class SeqV(Val):
    __slots__ = ("segs",)
    kind = "seq"

    def __repr__(self):
        return "Seq%r" % (self.segs,)


_seqs = {}


def SEQ(segs):
    segs = tuple(segs)
    s = _seqs.get(segs)
    if s is None:
        s = SeqV()
        s.segs = segs
        _seqs[segs] = s
    return s


def items_of(p):
    """List of values when the payload consists of plain items only."""
    if isinstance(p, SeqV) and all(s[0] == "i" for s in p.segs):
        return [s[1] for s in p.segs]
    return None


class DictV(Val):
    """entries: ((key, present, value), ...); base: None or ('sym', leaf, ktmpl, vtmpl)."""
    __slots__ = ("entries", "base")
    kind = "dictp"

    def __repr__(self):
        return "Dict%r+%r" % (self.entries, self.base)


_dicts = {}


def DICT(entries, base=None):
    k = (tuple(entries), base)
    d = _dicts.get(k)
    if d is None:
        d = DictV()
        d.entries, d.base = k
        _dicts[k] = d
    return d


class Rep(Val):
    """Segment produced by a loop: for idx in range(n): body segments."""
    kind = "rep"

    def __init__(self, lid, n, idx, segs, heads, src):
        self.lid, self.n, self.idx, self.segs, self.heads, self.src = lid, n, idx, segs, heads, src

    def __repr__(self):
        return "Rep(%s, n=%r, %r)" % (self.idx, self.n, self.segs)


class Obj:
    __slots__ = ("kind", "cls", "site", "init", "extra", "opaque", "depth", "origin")

    def __init__(self, kind, cls=None, site=None, init=False, extra=None, opaque=False, depth=0, origin=None):
        self.kind, self.cls, self.site, self.init, self.extra = kind, cls, site, init, extra
        self.opaque, self.depth, self.origin = opaque, depth, origin


class State:
    __slots__ = ("heap", "rng", "facts", "open", "pc")

    def __init__(self):
        self.heap = {}
        self.rng = {}
        self.facts = set()
        self.open = ()       # disjunctive facts not resolved yet
        self.pc = ()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.rng = dict(self.rng)
        s.facts = set(self.facts)
        s.open = self.open
        s.pc = self.pc
        return s


class Pending:
    __slots__ = ("kind", "value", "state", "tag", "node")

    def __init__(self, kind, value, state, tag=None, node=None):
        self.kind, self.value, self.state, self.tag, self.node = kind, value, state, tag, node


class DeadPath(Exception):
    pass


class Incomplete(Exception):
    """The analysis met something it has no model for where it needs one."""


class LoopInfo:
    def __init__(self, lid, node, func):
        self.lid, self.node, self.func = lid, node, func
        self.W = {}        # loc -> (pre, head, back)
        self.outer = None
        self.idx = None
        self.n = None
        self.elem = None
        self.back_state = None
        self.head_state = None
        self.exit_state = None
        self.breaks = []
        self.entry_pc = ()
        self.exists = None
        self.simple = False
        self.exit_conds = self.early_conds = ()
        self.entry_state = None
        self.oid0 = 0
        self.copies = {}      # location of a list -> whether its elements can be evaluated when they are appended
        self.body_pc = ()
