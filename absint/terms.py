"""Abstract values of the analysis: hash-consed value-numbering terms.

A value is a constant, a reference to an abstract heap object, a static entity
(function, class, module) or a term over *leaves* (unknowns: input bytes,
loop-head unknowns, projections of elements of unbounded sequences).  Equal
terms are the same Python object, so joins compare by identity.
"""
import math
import struct as _struct

UNB = None  # unbounded end of an interval


class Val:
    __slots__ = ()
    op = None


class Const(Val):
    __slots__ = ("v", "kind")

    def __repr__(self):
        return repr(self.v)


_consts = {}


def C(v):
    k = (type(v), repr(v) if isinstance(v, float) else v)
    c = _consts.get(k)
    if c is None:
        c = Const()
        c.v = v
        c.kind = {bool: "bool", int: "int", float: "float", str: "str", bytes: "bytes",
                  type(None): "none"}.get(type(v), "any")
        _consts[k] = c
    return c


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)


class _Undef(Val):
    __slots__ = ()
    kind = "undef"

    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Ref(Val):
    __slots__ = ("oid",)
    kind = "ref"

    def __repr__(self):
        return "ref#%d" % self.oid


_refs = {}


def R(oid):
    r = _refs.get(oid)
    if r is None:
        r = Ref()
        r.oid = oid
        _refs[oid] = r
    return r


class Tup(Val):
    """A tuple of known length."""
    __slots__ = ("items",)
    kind = "tuple"

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ",)"


_tups = {}


def TUP(items):
    items = tuple(items)
    t = _tups.get(items)
    if t is None:
        t = Tup()
        t.items = items
        _tups[items] = t
    return t


class Term(Val):
    __slots__ = ("op", "args", "kind", "dom", "_iv", "_sup", "n")

    def __repr__(self):
        return show(self)


_terms = {}
LEAF_OPS = {"sym", "byte", "proj", "idx", "elemscalar", "unk", "exists", "firstidx",
            "lenof", "call", "read", "slen", "stale"}


def T(op, args, kind="any", dom=None):
    k = (op, args, kind, dom)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.kind = kind
        t.dom = dom
        t._iv = 0
        t._sup = None
        t.n = len(_terms)
        _terms[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 7:
        return "…"
    a = [show(x, d + 1) if isinstance(x, Val) else (
        "(" + ",".join(show(y, d + 1) if isinstance(y, Val) else str(y) for y in x) + ")" if isinstance(x, tuple) else str(x)) for x in t.args]
    if t.op == "sym":
        return str(t.args[0])
    if t.op == "lin":
        terms, c = t.args
        s = " + ".join(("%s*%s" % (k, show(x, d + 1)) if k != 1 else show(x, d + 1)) for x, k in terms)
        return "(%s%s)" % (s, " + %d" % c if c else "")
    if t.op == "ite":
        return "(%s ? %s : %s)" % tuple(a)
    return "%s(%s)" % (t.op, ", ".join(a))


def sym(name, kind="int", lo=None, hi=None):
    return T("sym", (name,), kind, (lo, hi) if (lo is not None or hi is not None) else None)


_fresh = [0]


def fresh(prefix="u"):
    _fresh[0] += 1
    return "%s%d" % (prefix, _fresh[0])


def unk(why, kind="any"):
    return T("unk", (fresh("?"), why), kind)


def is_const(v):
    return isinstance(v, Const)


def kind(v):
    return getattr(v, "kind", "any")


def is_num(v):
    return kind(v) in ("int", "bool", "float")


# ---------------------------------------------------------------- support

def is_leaf(t):
    return isinstance(t, Term) and t.op in LEAF_OPS


EMPTY = frozenset()


def subvals(t):
    for a in t.args:
        if isinstance(a, Val):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Val):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, Val):
                            yield c


def support(v):
    """Leaves a value depends on."""
    if isinstance(v, Term):
        if v._sup is None:
            if v.op in LEAF_OPS:
                v._sup = frozenset((v,))
            else:
                s = EMPTY
                for a in subvals(v):
                    b = support(a)
                    if b:
                        s = s | b if s else b
                v._sup = s
        return v._sup
    if isinstance(v, Tup):
        s = EMPTY
        for a in v.items:
            s = s | support(a)
        return s
    return EMPTY


# ---------------------------------------------------------------- intervals

def iv(v, rng=None):
    """Interval (lo, hi) of an integer-valued abstract value; None = unbounded."""
    if isinstance(v, Const):
        if isinstance(v.v, (int, float)) and v.v == v.v:
            return (v.v, v.v)
        return (None, None)
    if not isinstance(v, Term):
        return (None, None)
    if rng:
        if v in rng:
            return rng[v]
        if "lin" not in rng and not any(s in rng for s in support(v)):
            rng = None
    if rng is None:
        if v._iv == 0:
            v._iv = _iv(v, None)
        return v._iv
    return _iv(v, rng)


def _addn(a, b):
    return None if a is None or b is None else a + b


def _hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return (lo, hi)


def _scale(x, k):
    lo, hi = x
    lo, hi = (None if lo is None else lo * k), (None if hi is None else hi * k)
    return (lo, hi) if k >= 0 else (hi, lo)


def _refine(c, truth, rng):
    """rng narrowed by a comparison of a leaf with a constant (or a conjunction of such) being true or false."""
    if not isinstance(c, Term):
        return rng
    if c.op == "not":
        return _refine(c.args[0], not truth, rng)
    if c.op == "conj":
        if truth:
            for x in c.args[0]:
                rng = _refine(x, True, rng)
        return rng
    if c.op not in ("eq", "lt", "le"):
        return rng
    a, b = c.args
    op, flip = c.op, False
    if isinstance(a, Const):
        a, b, flip = b, a, True
    if not isinstance(a, Term) or not isinstance(b, Const) or b.v.__class__ is not int or a.kind != "int" or a.op != "lin" and a not in support(a):
        return rng
    lo, hi = iv(a, rng)
    k = b.v
    if op == "eq":
        if truth:
            lo = hi = k
        elif lo == k:
            lo += 1
        elif hi == k:
            hi -= 1
    else:
        # a < k, a <= k, k < a, k <= a, or their negations
        up = (not flip) == truth
        strict = (op == "lt") == truth
        if up:
            k -= strict
            hi = k if hi is None else min(hi, k)
        else:
            k += strict
            lo = k if lo is None else max(lo, k)
    r = dict(rng or ())
    if a.op == "lin":
        # known for every sum of the same terms
        r["lin"] = dict(r.get("lin", ()))
        r["lin"][a.args[0]] = (_addn(lo, -a.args[1]), _addn(hi, -a.args[1]))
    else:
        r[a] = (lo, hi)
    return r


def _iv(v, rng):
    op, a = v.op, v.args
    if v.kind == "bool":
        return (0, 1)
    if v.dom is not None:
        return v.dom
    if op == "lin":
        lo = hi = a[1]
        for t, k in a[0]:
            l, h = _scale(iv(t, rng), k)
            lo, hi = _addn(lo, l), _addn(hi, h)
        if rng and "lin" in rng and a[0] in rng["lin"]:
            l, h = rng["lin"][a[0]]
            l, h = _addn(l, a[1]), _addn(h, a[1])
            lo = l if lo is None else lo if l is None else max(lo, l)
            hi = h if hi is None else hi if h is None else min(hi, h)
        return (lo, hi)
    if op == "ite":
        return _hull(iv(a[1], _refine(a[0], True, rng)), iv(a[2], _refine(a[0], False, rng)))
    if op in ("and", "or", "xor") and len(a) == 2 and v.kind == "int":
        x, y = iv(a[0], rng), iv(a[1], rng)
        if op == "and":
            his = [p[1] for p in (x, y) if p[0] is not None and p[0] >= 0 and p[1] is not None]
            if his:
                return (0, min(his))
            if (x[0] is not None and x[0] >= 0) or (y[0] is not None and y[0] >= 0):
                return (0, None)
            return (None, None)
        if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
            if x[1] is not None and y[1] is not None:
                m = 1
                while m <= max(x[1], y[1]):
                    m *= 2
                return (0, m - 1)
            return (0, None)
        return (None, None)
    if op == "mod" and v.kind == "int":
        y = iv(a[1], rng)
        if y[0] is not None and y[0] > 0:
            x = iv(a[0], rng)
            hi = None if y[1] is None else y[1] - 1
            if x[0] is not None and x[0] >= 0 and x[1] is not None:
                hi = x[1] if hi is None else min(hi, x[1])
            return (0, hi)
        return (None, None)
    if op in ("fdiv", "shr") and v.kind == "int":
        x, y = iv(a[0], rng), iv(a[1], rng)
        if op == "shr":
            if y[0] is None or y[0] < 0 or y[1] is None or y[1] > 64:
                return (None, None)
            y = (1 << y[0], 1 << y[1])
        if y[0] is not None and y[0] > 0:
            lo = hi = None
            if x[0] is not None:
                lo = 0 if (x[0] >= 0 and y[1] is None) else (x[0] // y[1] if x[0] >= 0 else x[0] // y[0])
            if x[1] is not None:
                hi = x[1] // y[0] if x[1] >= 0 else (x[1] // y[1] if y[1] is not None else -1 if False else 0)
            return (lo, hi)
        return (None, None)
    if op == "shl" and v.kind == "int":
        x, y = iv(a[0], rng), iv(a[1], rng)
        if y[0] is not None and y[0] >= 0 and y[1] is not None and y[1] < 128 and x[0] is not None and x[0] >= 0:
            return (x[0] << y[0], None if x[1] is None else x[1] << y[1])
        return (None, None)
    if op == "mul" and v.kind == "int":
        x, y = iv(a[0], rng), iv(a[1], rng)
        if None not in x and None not in y:
            p = [i * j for i in x for j in y]
            return (min(p), max(p))
        if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
            return (x[0] * y[0], None)
        return (None, None)
    if op == "abs":
        return (0, None)
    if op in ("min", "max"):
        xs = [iv(t, rng) for t in a]
        los, his = [x[0] for x in xs], [x[1] for x in xs]
        if op == "min":
            lo = None if None in los else min(los)
            his = [h for h in his if h is not None]
            return (lo, min(his) if his else None)
        hi = None if None in his else max(his)
        los = [l for l in los if l is not None]
        return (max(los) if los else None, hi)
    if op in ("lenof", "slen"):
        return (0, None)
    if op == "idx":
        return (0, None)
    if op == "enum":
        return (None, None)
    if op == "int" and kind(a[0]) in ("int", "bool"):
        return iv(a[0], rng)
    if op == "tdiv":
        x, y = iv(a[0], rng), iv(a[1], rng)
        if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] > 0:
            try:
                return (0 if y[1] is None else x[0] / y[1], None if x[1] is None else x[1] / y[0])
            except OverflowError:
                return (0, None)
        return (None, None)
    if op in ("int", "round", "floor", "ceil") and v.kind == "int" and kind(a[0]) == "float":
        x = iv(a[0], rng)
        f = {"int": int, "round": round, "floor": math.floor, "ceil": math.ceil}[op]
        try:
            return tuple(None if z is None else f(z) for z in x)
        except (OverflowError, ValueError):
            return (None, None)
    if op == "fn" and v.kind == "int" and a[0] in ("math.floor", "math.ceil"):
        x = iv(a[1], rng)
        try:
            return tuple(None if z is None else getattr(math, a[0][5:])(z) for z in x)
        except (OverflowError, ValueError):
            return (None, None)
    return (None, None)


# ---------------------------------------------------------------- constructors

class FoldError(Exception):
    """A constant operation that raises at run time."""

    def __init__(self, exc):
        self.exc = exc


def _fold(f, *vs):
    try:
        return C(f(*vs))
    except (ZeroDivisionError, TypeError, ValueError, OverflowError, IndexError, KeyError) as e:
        raise FoldError(e)


def lin_of(v):
    """(dict atom->coeff, const) of an int value."""
    if isinstance(v, Const):
        return {}, int(v.v)
    if v.op == "lin":
        return dict(v.args[0]), v.args[1]
    if v.op == "mul" and v.kind == "int" and isinstance(v.args[1], Const):
        return {v.args[0]: v.args[1].v}, 0
    return {v: 1}, 0


def mk_lin(d, c):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1 and kind(a) == "int":
            return a
    return T("lin", (tuple(sorted(d.items(), key=lambda p: (p[0].n, p[1]))), c), "int")


def _intlike(v):
    return kind(v) in ("int", "bool") and isinstance(v, (Const, Term))


def _ite_push(f, a, b):
    """Distribute over ite with all-constant leaves (small finite tables)."""
    return None


def add(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x + y, a.v, b.v)
    if _intlike(a) and _intlike(b):
        d, c = lin_of(a)
        e, c2 = lin_of(b)
        for t, k in e.items():
            d[t] = d.get(t, 0) + k
        return mk_lin(d, c + c2)
    return T("add", (a, b), _numk(a, b))


def sub(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x - y, a.v, b.v)
    if _intlike(a) and _intlike(b):
        d, c = lin_of(a)
        e, c2 = lin_of(b)
        for t, k in e.items():
            d[t] = d.get(t, 0) - k
        return mk_lin(d, c - c2)
    return T("sub", (a, b), _numk(a, b))


def mul(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x * y, a.v, b.v)
    if _intlike(a) and _intlike(b):
        if is_const(a):
            a, b = b, a
        if is_const(b):
            d, c = lin_of(a)
            k = int(b.v)
            return mk_lin({t: q * k for t, q in d.items()}, c * k)
        if a.n > b.n:
            a, b = b, a
        return T("mul", (a, b), "int")
    return T("mul", (a, b), _numk(a, b))


def _numk(a, b):
    if "float" in (kind(a), kind(b)):
        return "float"
    if kind(a) in ("int", "bool") and kind(b) in ("int", "bool"):
        return "int"
    return "any"


def fdiv(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x // y, a.v, b.v)
    if is_const(b) and b.v == 1 and kind(a) == "int":
        return a
    if is_const(b) and b.v.__class__ is int and b.v > 0 and kind(a) == "int":
        if a.op == "fdiv" and is_const(a.args[1]) and a.args[1].v.__class__ is int and a.args[1].v > 0 and kind(a.args[0]) == "int":
            return fdiv(a.args[0], C(a.args[1].v * b.v))
        lo, hi = iv(a)
        if lo is not None and hi is not None and lo // b.v == hi // b.v:
            return C(lo // b.v)
    return T("fdiv", (a, b), _numk(a, b))


def mod(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x % y, a.v, b.v)
    if is_const(b) and isinstance(b.v, int) and b.v > 0:
        lo, hi = iv(a)
        if lo is not None and lo >= 0 and hi is not None and hi < b.v:
            return a
    return T("mod", (a, b), _numk(a, b))


def tdiv(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x / y, a.v, b.v)
    return T("tdiv", (a, b), "float")


def pow_(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x ** y, a.v, b.v)
    return T("pow", (a, b), "any")


def shl(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x << y, a.v, b.v)
    if is_const(b) and _intlike(a) and 0 <= b.v < 256:
        return mul(a, C(1 << b.v))
    return T("shl", (a, b), "int")


def shr(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x >> y, a.v, b.v)
    if is_const(b) and b.v == 0:
        return a
    return T("shr", (a, b), "int")


def band(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x & y, a.v, b.v)
    if kind(a) == "bool" and kind(b) == "bool":
        return conj(a, b)
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if b.v == 0:
            return ZERO
        lo, hi = iv(a)
        if b.v > 0 and (b.v & (b.v + 1)) == 0 and lo is not None and lo >= 0 and hi is not None and hi <= b.v:
            return a if kind(a) == "int" else T("int", (a,), "int")
        if isinstance(a, Term) and a.op == "and" and is_const(a.args[1]):
            return band(a.args[0], C(a.args[1].v & b.v))
        if isinstance(a, Term) and a.op == "shr" and is_const(a.args[1]) and b.v > 0 and isinstance(a.args[0], Term) and a.args[0].op == "and" and \
                is_const(a.args[0].args[1]) and a.args[0].args[1].v >= 0:
            x, k = a.args
            return band(shr(x.args[0], k), C((x.args[1].v >> k.v) & b.v))
        if isinstance(a, Term) and a.op == "shl" and is_const(a.args[1]) and 0 < b.v < 1 << a.args[1].v:
            return ZERO
    elif isinstance(a, Term) and isinstance(b, Term) and a.n > b.n:
        a, b = b, a
    return T("and", (a, b), "int")


def bor(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x | y, a.v, b.v)
    if kind(a) == "bool" and kind(b) == "bool":
        return disj(a, b)
    if is_const(a):
        a, b = b, a
    if is_const(b) and b.v == 0:
        return a
    if not is_const(b) and isinstance(a, Term) and isinstance(b, Term) and a.n > b.n:
        a, b = b, a
    return T("or", (a, b), "int")


def bxor(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x ^ y, a.v, b.v)
    if is_const(a):
        a, b = b, a
    return T("xor", (a, b), "int")


def inv(a):
    if is_const(a):
        return _fold(lambda x: ~x, a.v)
    return sub(C(-1), a)


def neg(a):
    if is_const(a):
        return _fold(lambda x: -x, a.v)
    if _intlike(a):
        return sub(ZERO, a)
    return T("neg", (a,), kind(a))


# --- booleans -----------------------------------------------------------

def truth(v):
    """Truthiness of a scalar."""
    if is_const(v):
        return C(bool(v.v))
    if isinstance(v, Tup):
        return C(bool(v.items))
    if isinstance(v, Term):
        if v.op == "ite":
            return ite(v.args[0], truth(v.args[1]), truth(v.args[2]))
        if v.op == "enum":
            c = v.args[0]
            return truth(v.args[1]) if c.is_flag or c.is_int else TRUE
        if v.kind == "bool":
            return v
        if v.kind == "int":
            return ne(v, ZERO)
        if v.op == "fmt" and any(is_const(p) and p.v for p in v.args[0]):
            return TRUE
        return T("bool", (v,), "bool")
    if v is UNDEF:
        return FALSE
    return TRUE


def neg_b(c):
    if is_const(c):
        return C(not c.v)
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return le(c.args[1], c.args[0]) if kind(c.args[0]) != "float" and kind(c.args[1]) != "float" else T("not", (c,), "bool")
    if c.op == "le" and kind(c.args[0]) != "float" and kind(c.args[1]) != "float":
        return lt(c.args[1], c.args[0])
    return T("not", (c,), "bool")


def conj(*cs):
    out = []
    for c in cs:
        if is_const(c):
            if not c.v:
                return FALSE
            continue
        if c.op == "conj":
            out.extend(c.args[0])
        else:
            out.append(c)
    seen = []
    ss = set()
    for c in out:
        if c in ss:
            continue
        if neg_b(c) in ss:
            return FALSE
        ss.add(c)
        seen.append(c)
    if not seen:
        return TRUE
    if len(seen) == 1:
        return seen[0]
    return T("conj", (tuple(seen),), "bool")


def disj(*cs):
    return neg_b(conj(*[neg_b(c) for c in cs]))


def lt(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x < y, a.v, b.v)
    la, ha = iv(a)
    lb, hb = iv(b)
    if ha is not None and lb is not None and ha < lb:
        return TRUE
    if la is not None and hb is not None and la >= hb:
        return FALSE
    if a is b and kind(a) in ("int", "bool"):
        return FALSE
    if _intlike(a) and _intlike(b):
        if la is not None and is_const(b) and b.v == la + 1:
            return eq(a, C(la))
        if lb is not None and is_const(a) and a.v == lb:
            return neg_b(eq(b, a))
        return _cmp_norm(a, b, 1)
    return T("lt", (a, b), "bool")


def le(a, b):
    if is_const(a) and is_const(b):
        return _fold(lambda x, y: x <= y, a.v, b.v)
    la, ha = iv(a)
    lb, hb = iv(b)
    if ha is not None and lb is not None and ha <= lb:
        return TRUE
    if la is not None and hb is not None and la > hb:
        return FALSE
    if a is b:
        return TRUE
    if _intlike(a) and _intlike(b):
        if la is not None and is_const(b) and b.v == la:
            return eq(a, b)
        if lb is not None and is_const(a) and a.v == lb + 1:
            return neg_b(eq(b, C(lb)))
        return _cmp_norm(a, b, 0)
    return T("le", (a, b), "bool")


def _cmp_norm(a, b, strict):
    """a < b (strict) or a <= b over ints, as  lo-sum < hi-sum  normal form."""
    d, c = lin_of(a)
    e, c2 = lin_of(b)
    for t, k in e.items():
        d[t] = d.get(t, 0) - k
    d = {t: k for t, k in d.items() if k}
    c = c - c2 + (1 if strict else 0)  # sum(d)+c <= 0
    if not d:
        return C(c <= 0)
    import math
    g = 0
    for k in d.values():
        g = math.gcd(g, abs(k))
    if g > 1:
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)
    pos = {t: k for t, k in d.items() if k > 0}
    negs = {t: -k for t, k in d.items() if k < 0}
    # pos + c <= negs
    if c > 0:
        l, r = mk_lin(pos, c - 1), mk_lin(negs, 0)
        return T("lt", (l, r), "bool")
    l, r = mk_lin(pos, 0), mk_lin(negs, -c)
    return T("le", (l, r), "bool")


def ite_consts(v, d=0):
    """True when v is an ite tree whose leaves are all constants."""
    if is_const(v):
        return True
    return isinstance(v, Term) and v.op == "ite" and d < 40 and ite_consts(v.args[1], d + 1) and ite_consts(v.args[2], d + 1)


def eq(a, b):
    if a is b and kind(a) != "float":
        return TRUE
    if is_const(a) and is_const(b):
        return C(a.v == b.v)
    if isinstance(a, Term) and a.op == "ite" and (is_const(b) or b.op == "enum" if isinstance(b, (Const, Term)) else False):
        if not _intlike(a) or ite_consts(a):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if isinstance(b, Term) and b.op == "ite" and (is_const(a) or a.op == "enum" if isinstance(a, (Const, Term)) else False):
        if not _intlike(b) or ite_consts(b):
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    ea, eb = getattr(a, "op", None) == "enum", getattr(b, "op", None) == "enum"
    if ea and eb:
        if a.args[0] is not b.args[0]:
            return FALSE
        return eq(a.args[1], b.args[1])
    if ea or eb:
        e, o = (a, b) if ea else (b, a)
        if e.args[0].is_int:
            return eq(e.args[1], o)
        if is_const(o):
            return FALSE
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return FALSE
        return conj(*[eq(x, y) for x, y in zip(a.items, b.items)])
    ka, kb = kind(a), kind(b)
    num = ("int", "bool", "float")
    basic = ("str", "bytes", "none") + num
    if ka in basic and kb in basic and ka != kb and not (ka in num and kb in num):
        return FALSE
    if (isinstance(a, Tup) and kb in basic) or (isinstance(b, Tup) and ka in basic):
        return FALSE
    if ka in num and kb in num:
        la, ha = iv(a)
        lb, hb = iv(b)
        if (ha is not None and lb is not None and ha < lb) or (hb is not None and la is not None and hb < la):
            return FALSE
        if ka == "bool" and is_const(b):
            return a if b.v == 1 else (neg_b(a) if b.v == 0 else FALSE)
        if kb == "bool" and is_const(a):
            return eq(b, a)
        if ka == "bool" and kb == "bool":
            if a.n > b.n:
                a, b = b, a
            return T("eq", (a, b), "bool")
        if _intlike(a) and _intlike(b):
            d, c = lin_of(a)
            e, c2 = lin_of(b)
            for t, k in e.items():
                d[t] = d.get(t, 0) - k
            d = {t: k for t, k in d.items() if k}
            c -= c2
            if not d:
                return C(c == 0)
            pos = {t: k for t, k in d.items() if k > 0}
            ng = {t: -k for t, k in d.items() if k < 0}
            if not pos or (ng and min(t.n for t in ng) < min(t.n for t in pos)):
                pos, ng, c = ng, pos, -c
            if ng:
                # pos + c == ng
                l, r = (mk_lin(pos, c), mk_lin(ng, 0)) if c >= 0 else (mk_lin(pos, 0), mk_lin(ng, -c))
            else:
                l, r = mk_lin(pos, 0), C(-c)
                if len(pos) == 1:
                    (t, k), = pos.items()
                    if (-c) % k:
                        return FALSE
                    l, r = mk_lin({t: 1}, 0), C(-c // k)
            return T("eq", (l, r), "bool")
    if is_const(a):
        a, b = b, a
    elif not is_const(b) and isinstance(a, Term) and isinstance(b, Term) and a.n > b.n:
        a, b = b, a
    return T("eq", (a, b), "bool")


def ne(a, b):
    return neg_b(eq(a, b))


def isnone(v):
    if is_const(v):
        return C(v.v is None)
    if isinstance(v, Term):
        if v.op == "ite":
            return ite(v.args[0], isnone(v.args[1]), isnone(v.args[2]))
        if v.kind in ("int", "bool", "str", "bytes", "float") or v.op in ("enum", "fmt"):
            return FALSE
        return T("isnone", (v,), "bool")
    return FALSE


def ite(c, a, b):
    if is_const(c):
        return a if c.v else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if kind(a) == "bool" and kind(b) == "bool" and isinstance(a, (Const, Term)) and isinstance(b, (Const, Term)):
        if a is c:
            a = TRUE
        elif b is c:
            b = FALSE
        elif neg_b(c) is a:
            a = FALSE
        elif neg_b(c) is b:
            b = TRUE
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return neg_b(c)
        if b is FALSE:
            return conj(c, a)
        if a is FALSE:
            return conj(neg_b(c), b)
        if a is TRUE:
            return disj(c, b)
        if b is TRUE:
            return disj(neg_b(c), a)
    if isinstance(b, Term) and b.op == "ite" and b.args[1] is a:
        return ite(disj(c, b.args[0]), a, b.args[2])
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return TUP([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if getattr(a, "op", 0) == "enum" and getattr(b, "op", 0) == "enum" and a.args[0] is b.args[0]:
        return enum(a.args[0], ite(c, a.args[1], b.args[1]))
    ka, kb = kind(a), kind(b)
    k = ka if ka == kb else ("int" if {ka, kb} == {"int", "bool"} else "any")
    return T("ite", (c, a, b), k)


def enum(cls, v):
    if isinstance(v, Term) and v.op == "enum":
        v = v.args[1]
    return T("enum", (cls, v), "any")


def fmt_parts(parts):
    """Concatenation of string parts; constants merged."""
    out = []
    for p in parts:
        if isinstance(p, Term) and p.op == "fmt":
            for q in p.args[0]:
                _push(out, q)
        else:
            _push(out, p)
    if not out:
        return C("")
    if len(out) == 1 and (is_const(out[0]) or kind(out[0]) == "str"):
        return out[0]
    return T("fmt", (tuple(out),), "str")


def _push(out, p):
    if is_const(p) and p.v == "":
        return
    if out and is_const(out[-1]) and is_const(p):
        out[-1] = C(out[-1].v + p.v)
    else:
        out.append(p)


def fspec(v, conv, spec):
    """format(v, spec) with conversion, as a string part."""
    if is_const(v):
        try:
            x = v.v
            if conv == "r":
                x = repr(x)
            elif conv in ("s", "a"):
                x = str(x)
            return C(format(x, spec))
        except (ValueError, TypeError) as e:
            raise FoldError(e)
    if isinstance(v, Term) and v.op == "ite":
        return ite(v.args[0], fspec(v.args[1], conv, spec), fspec(v.args[2], conv, spec))
    if kind(v) == "str" and spec == "" and conv in ("", "s"):
        return v
    return T("fspec", (v, conv, spec), "str")


# ---------------------------------------------------------------- evaluation

class Undecided(Exception):
    pass


# The byte order of the host: both are possible.
HOST_LITTLE = sym("host is little endian", "bool", 0, 1)


class Env:
    """A valuation of leaves: dict leaf -> python value, plus stream contents."""

    def __init__(self, leaves=None, streams=None, default=None):
        self.leaves = leaves or {}
        self.streams = streams or {}
        self.default = default

    def leaf(self, t, memo=None):
        if t in self.leaves:
            return self.leaves[t]
        if t.op == "byte":
            p = ev(t.args[1], self, memo)
            d = self.stream(t.args[0])
            if 0 <= p < len(d):
                return d[p]
            raise Undecided("byte beyond end")
        if t.op == "read":
            d = self.stream(t.args[0])
            p = ev(t.args[1], self, memo)
            n = ev(t.args[2], self, memo)
            return d[p:] if n is None or n < 0 else d[p:p + n]
        if t.op == "slen":
            return len(ev(t.args[0], self, memo))
        if t is HOST_LITTLE:
            return True
        if self.default is not None:
            return self.default(t)
        raise Undecided("leaf %s" % show(t))

    def stream(self, name):
        if name in self.streams:
            return self.streams[name]
        raise Undecided("stream %s" % (name,))


_BIN = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "fdiv": lambda a, b: a // b, "mod": lambda a, b: a % b, "tdiv": lambda a, b: a / b,
    "pow": lambda a, b: a ** b, "shl": lambda a, b: a << b, "shr": lambda a, b: a >> b,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b,
}


class EnumVal(tuple):
    pass


def ev(v, env, memo=None):
    """Evaluate a term under a valuation (Undecided when it needs an unknown)."""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup):
        return tuple(ev(x, env, memo) for x in v.items)
    if not isinstance(v, Term):
        return v
    if memo is None:
        memo = {}
    if v in memo:
        r = memo[v]
        if r.__class__ is Undecided:
            raise r.with_traceback(None)
        return r
    try:
        r = _ev(v, env, memo)
    except Undecided as u:
        memo[v] = u
        raise
    memo[v] = r
    return r


def pyfmt(x, conv, spec):
    if conv == "r":
        x = repr(x)
    elif conv in ("s", "a"):
        x = str(x)
    return format(x, spec)


def _ev(v, env, memo):
    op, a = v.op, v.args
    if op in LEAF_OPS:
        return env.leaf(v, memo)
    if op == "ite":
        return ev(a[1] if ev(a[0], env, memo) else a[2], env, memo)
    if op == "lin":
        s = a[1]
        for t, k in a[0]:
            s += k * ev(t, env, memo)
        return s
    if op == "conj":
        und = None
        for c in a[0]:
            try:
                if not ev(c, env, memo):
                    return False
            except Undecided as u:
                und = u
        if und:
            raise und
        return True
    if op == "not":
        return not ev(a[0], env, memo)
    if op == "bool":
        return bool(ev(a[0], env, memo))
    if op == "isnone":
        return ev(a[0], env, memo) is None
    if op in _BIN:
        return _BIN[op](ev(a[0], env, memo), ev(a[1], env, memo))
    if op == "enum":
        return EnumVal((a[0].name, ev(a[1], env, memo)))
    if op == "fmt":
        return "".join(ev(p, env, memo) for p in a[0])
    if op == "fspec":
        return pyfmt(ev(a[0], env, memo), a[1], a[2])
    if op == "neg":
        return -ev(a[0], env, memo)
    if op == "int":
        return int(ev(a[0], env, memo))
    if op == "float":
        return float(ev(a[0], env, memo))
    if op == "abs":
        return abs(ev(a[0], env, memo))
    if op == "round":
        return round(*[ev(x, env, memo) for x in a])
    if op == "min":
        return min(ev(x, env, memo) for x in a)
    if op == "max":
        return max(ev(x, env, memo) for x in a)
    if op == "signed":
        x = ev(a[0], env, memo)
        return x - (1 << a[1]) if x >= 1 << (a[1] - 1) else x
    if op == "slice":
        return ev(a[0], env, memo)[slice(*[ev(x, env, memo) for x in a[1:]])]
    if op == "getitem":
        try:
            return ev(a[0], env, memo)[ev(a[1], env, memo)]
        except (IndexError, KeyError, TypeError) as e:
            raise Undecided("item: %s" % e)
    if op == "frombytes":
        return int.from_bytes(ev(a[0], env, memo), a[1], signed=a[2])
    if op == "gjoin":
        return ev(a[0], env, memo).join(ev(x, env, memo) for g, x in a[1] if ev(g, env, memo))
    if op == "strm":
        return getattr(ev(a[0], env, memo), a[1])(*[ev(x, env, memo) for x in a[2]])
    if op == "contains":
        return ev(a[1], env, memo) in ev(a[0], env, memo)
    if op == "bytes":
        return bytes(ev(x, env, memo) for x in a)
    if op == "bcat":
        return ev(a[0], env, memo) + ev(a[1], env, memo)
    if op == "str":
        return str(ev(a[0], env, memo))
    if op == "fn":
        import builtins
        return getattr(builtins, a[0])(*[ev(x, env, memo) for x in a[1:]])
    raise Undecided("operation %s" % op)


_pe_memo = {}


def subst(v, m, memo=None):
    """Rebuild a value with leaves (or any subterms) replaced per mapping m, re-simplifying."""
    if memo is None:
        memo = {}
    if isinstance(v, Tup):
        return TUP([subst(x, m, memo) for x in v.items])
    if not isinstance(v, Term):
        return m.get(v, v) if isinstance(v, Ref) else v
    r = memo.get(v)
    if r is not None:
        return r
    r = m.get(v)
    if r is None:
        r = _subst(v, m, memo)
    memo[v] = r
    return r


def _sx(x, m, memo):
    if isinstance(x, Val):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_sx(y, m, memo) for y in x)
    return x


def _subst(v, m, memo):
    op, a = v.op, v.args
    if op == "ite":
        c = subst(a[0], m, memo)
        if is_const(c):
            return subst(a[1] if c.v else a[2], m, memo)
        return ite(c, subst(a[1], m, memo), subst(a[2], m, memo))
    if op == "conj":
        out = []
        for c in a[0]:
            c = subst(c, m, memo)
            if is_const(c) and not c.v:
                return FALSE
            out.append(c)
        return conj(*out)
    na = tuple(_sx(x, m, memo) for x in a)
    if na == a:
        return v
    return rebuild(v, na)


def rebuild(v, a):
    op = v.op
    try:
        if op == "lin":
            r = C(a[1])
            for t, k in a[0]:
                r = add(r, mul(t, C(k)))
            return r
        f = _MK.get(op)
        if f:
            return f(*a)
        if op == "fmt":
            return fmt_parts(a[0])
        if op == "fspec":
            return fspec(a[0], a[1], a[2])
        if op not in LEAF_OPS and all(is_const(x) or not isinstance(x, Val) for x in a) and op not in ("enum",):
            try:
                return C(ev(T(op, a, v.kind, v.dom), Env()))
            except Exception:
                pass
    except FoldError:
        pass
    return T(op, a, v.kind, v.dom)


def _mkround(*a):
    return C(round(*[x.v for x in a])) if all(is_const(x) for x in a) else T("round", a, "any")


_MK = {"add": add, "sub": sub, "mul": mul, "fdiv": fdiv, "mod": mod, "tdiv": tdiv, "pow": pow_, "shl": shl,
       "shr": shr, "and": band, "or": bor, "xor": bxor, "lt": lt, "le": le, "eq": eq, "not": neg_b,
       "bool": truth, "isnone": isnone, "enum": enum, "neg": neg, "round": _mkround}


def walk(v, seen=None):
    """All subterms of a value (DAG walk)."""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, (Term, Tup)) or x in seen:
            continue
        seen.add(x)
        yield x
        if isinstance(x, Tup):
            stack.extend(x.items)
        else:
            stack.extend(subvals(x))


def calc_struct(fmt):
    """[(code, offset, size, kind)] and total size; byte order char."""
    order = fmt[0] if fmt and fmt[0] in "<>=!@" else "@"
    body = fmt[1:] if fmt and fmt[0] in "<>=!@" else fmt
    items = []
    i = 0
    pre = order
    while i < len(body):
        ch = body[i]
        if ch.isspace():
            i += 1
            continue
        cnt = ""
        while body[i].isdigit():
            cnt += body[i]
            i += 1
        ch = body[i]
        i += 1
        n = int(cnt) if cnt else 1
        if ch == "s":
            pre += "%ds" % n
            items.append(("s", _struct.calcsize(pre) - n, n))
            continue
        for _ in range(n):
            pre += ch
            if ch == "x":
                continue
            sz = _struct.calcsize(order + ch)
            items.append((ch, _struct.calcsize(pre) - sz, sz))
    return order, items, _struct.calcsize(pre)
