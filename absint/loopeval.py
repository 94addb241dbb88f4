"""Evaluation of loop summaries: the recurrences of a loop, followed for one valuation of everything else.

A loop is summarised by the value of each location it changes at the head of an iteration (a leaf), the value at the end
of the iteration in terms of those leaves, the number of iterations or the conditions under which it is left.  For given
values of all other leaves these equations determine the leaves; this module solves them by iterating.
"""
from .terms import *
from .terms import Env
from .values import *

LIMIT = 30000
LOOP_OF = {}        # leaf -> LoopInfo
LIST_OF = {}        # leaf that stands for what a list held at the head -> LoopInfo


VALUE_OF = {}       # leaf -> its value as a function of a valuation
OWNER = {}          # leaf of a derived sequence -> the loop it was derived in
AT_OF = {}          # (leaf of an inner loop, mark of the outer loop) -> LoopInfo of the outer loop


class Unset:
    """A list kept by a loop whose elements are not plain values."""


class Sim(Env):
    """A parent valuation plus the leaves of one iteration of a loop."""

    def __init__(self, parent, info):
        Env.__init__(self, {}, parent.streams, None)
        self.parent, self.info = parent, info
        self.lists = {}
        self.runs = {}
        self.memo = {}

    def leaf(self, t, memo=None):
        if t in self.leaves:
            v = self.leaves[t]
            if v is Unset:
                raise Undecided("leaf %s of a loop" % show(t))
            return v
        if t.op == "byte" or t.op == "read" or t.op == "slen":
            return Env.leaf(self, t, memo)
        r = loop_leaf(self, t)
        if r is not NotImplemented:
            return r
        if t.op == "proj" and any(l in self.leaves or l in LOOP_OF and LOOP_OF[l].lid > self.info.lid for l in support(t.args[1])):
            t = T("proj", (t.args[0], C(ev(t.args[1], self, self.memo)), t.args[2]), t.kind, t.dom)
        return self.parent.leaf(t)

    def stream(self, name):
        return self.parent.stream(name)


def loops_between(env, info):
    """The valuation in which a loop has to be followed: inner loops within the iteration of the outer one."""
    while isinstance(env, Sim) and info.lid < env.info.lid:
        env = env.parent
    return env


def find_list(env, leaf):
    top = env
    while isinstance(env, Sim):
        if leaf in env.lists:
            return env.lists[leaf]
        env = env.parent
    info = LIST_OF.get(leaf)
    if info is None or leaf in SEQ_OF or getattr(top, "follow", True) is False:
        return None
    # what the list holds after the loop
    e = loops_between(top, info)
    if isinstance(e, Sim) and e.info is info:
        return None
    return follow(e, info).last.lists.get(leaf)


def trail_at(env, info, i):
    r = follow(loops_between(env, info), info)
    k = ev(i, env)
    if not 0 <= k < len(r.trail):
        raise Undecided("iteration %r of a loop" % (k,))
    return r.trail[k]


def loop_leaf(env, t):
    """Value of a leaf that some loop determines, else NotImplemented."""
    op = t.op
    if t in VALUE_OF:
        return VALUE_OF[t](env)
    if op in ("lenof", "proj"):
        base = t.args[0]
        if base.__class__ is Term and base.op in ("sym", "proj") and base.kind == "seq":
            xs = find_list(env, base)
            if xs is None:
                xs = seq_values(env, base)
            if xs is not None:
                if xs is Unset:
                    raise Undecided("elements of %s" % show(base))
                return len(xs) if op == "lenof" else navigate(xs, ev(t.args[1], env), t.args[2], t)
        if op == "proj" and t.args[2] == "@":
            info = LOOP_OF.get(base)
            if info is not None:
                return trail_at(env, info, t.args[1]).leaf(base)
        src = AT_OF.get((base, t.args[2])) if op == "proj" else None
        if src is not None:
            e = trail_at(env, src, t.args[1])
            return ev(base, e, e.memo)
    info = LOOP_OF.get(t)
    if info is None:
        if op == "proj":
            info = LOOP_OF.get(t.args[0])
        if info is None:
            return NotImplemented
    e = loops_between(env, info)
    if isinstance(e, Sim) and e.info is info:
        if e.leaves.get(t, Unset) is not Unset:
            return e.leaves[t]
        raise Undecided("leaf %s of a loop" % show(t))
    r = follow(e, info)
    if op == "exists":
        return r.early
    return r.last.leaf(t)


def in_order(it, xs, order, env):
    keyed, rev = order
    try:
        rev = bool(ev(rev, env))
        if any(x is Unset for x in xs):
            raise Undecided("order of unknown elements")
        xs = sorted(xs, key=(lambda x: x[0]) if keyed else None, reverse=rev)
    except TypeError:
        raise Undecided("order of elements")
    return [x[1] for x in xs] if keyed else xs


def seq_values(env, base):
    if base not in SEQ_OF:
        if base.op == "proj":
            # the sequence of one iteration
            src = AT_OF.get((base.args[0], base.args[2]))
            if src is None and base.args[2] == "@":
                src = LOOP_OF.get(base.args[0])
            if src is not None:
                e = trail_at(env, src, base.args[1])
                xs = find_list(e, base.args[0])
                return seq_values(e, base.args[0]) if xs is None else xs
        e = env
        while isinstance(e, Sim):
            e = e.parent
        f = getattr(e, "given_seq", None)
        return f(base) if f is not None else None
    it, p, st, order = SEQ_OF[base]
    memo = getattr(env, "seqs", None)
    if memo is None:
        memo = env.seqs = {}
    xs = memo.get(base)
    if xs is None:
        xs = concrete(it, p, env, st)
        if order == "set":
            # each element once; an order no program may rely on
            try:
                xs = sorted(set(xs), reverse=True)
            except TypeError:
                raise Undecided("elements of a set")
        elif callable(order):
            xs = order(xs, env)
        elif order is not None:
            xs = in_order(it, xs, order, env)
        memo[base] = xs
    return xs


def navigate(xs, i, path, t):
    if not 0 <= i < len(xs):
        raise Undecided("element %r of %d" % (i, len(xs)))
    v = xs[i]
    for p in path:
        if p == "?none":
            v = v is None
        elif p.__class__ is tuple and p and p[0] == "?which":
            if not isinstance(v, dict) or v.get("?cls") not in p[1:]:
                raise Undecided("leaf %s" % show(t))
            v = p.index(v["?cls"]) - 1
        elif p.__class__ is str and p.startswith("?alt"):
            pass
        elif p == "value" and v.__class__.__name__ == "EnumVal":
            v = v[1]
        elif isinstance(v, dict) and p in v or isinstance(v, (list, tuple)) and isinstance(p, int) and p < len(v):
            v = v[p]
        else:
            raise Undecided("leaf %s" % show(t))
    if v is Unset or isinstance(v, (Val, dict, list)):
        raise Undecided("leaf %s" % show(t))
    return v


class Run:
    __slots__ = ("trail", "last", "early")


def follow(env, info):
    runs = getattr(env, "runs", None)
    if runs is None:
        runs = env.runs = {}
    r = runs.get(info)
    if r is None:
        runs[info] = Undecided("loop needs itself")
        try:
            r = runs[info] = _follow(env, info)
        except Undecided as u:
            runs[info] = u
            raise
    if r.__class__ is Undecided:
        raise r.with_traceback(None)
    return r


def _follow(env, info):
    if not info.simple:
        raise Undecided("loop at line %s" % getattr(info.node, "lineno", "?"))
    r = Run()
    r.trail = []
    cur = Sim(env, info)
    cur.leaves[info.idx] = 0
    for loc, (e, h, b) in info.W.items():
        bind(info, cur, h, e, env, {}, info.entry_state, loc=loc)
    n = ev(info.n, env) if isinstance(info.n, Val) else None
    k = 0
    while True:
        r.trail.append(cur)
        if n is not None and k >= n:
            r.early = False
            break
        if any(holds(c, cur) for c in info.exit_conds):
            r.early = False
            break
        if any(holds(c, cur) for c in info.early_conds):
            r.early = True
            break
        nxt = Sim(env, info)
        nxt.leaves[info.idx] = k + 1
        for loc, (e, h, b) in info.W.items():
            bind(info, nxt, h, b, cur, cur.memo, info.back_state, old=cur, loc=loc)
        k += 1
        if k > LIMIT:
            raise Undecided("long loop")
        cur = nxt
    r.last = cur
    return r


def holds(cs, env):
    """Conjunction in order: what follows a false condition need not have a value."""
    for c in cs:
        if not ev(c, env, env.memo):
            return False
    return True


def unset(info, env, h, seen=()):
    """No value is known for this location."""
    if isinstance(h, Term):
        if is_leaf(h):
            env.leaves[h] = Unset
        else:
            for x in walk(h):
                if x is not h:
                    unset(info, env, x, seen)
            for x in refs_of(h):
                unset(info, env, x, seen)
    elif isinstance(h, Tup):
        for x in h.items:
            unset(info, env, x, seen)
    elif isinstance(h, SeqV):
        for s in h.segs:
            if s[0] == "o":
                env.lists[s[1]] = Unset
            elif s[0] == "i":
                unset(info, env, s[1], seen)
    elif isinstance(h, DictV):
        for k, q, w in h.entries:
            unset(info, env, w, seen)
    elif isinstance(h, Ref) and h.oid not in seen and made_up(info.it, h):
        for k, w in base_fields(info.it, h):
            unset(info, env, w, seen + (h.oid,))


def which_leaf(h):
    """The leaf that says of which class an object is."""
    if h.op == "ite" and isinstance(h.args[0], Term) and isinstance(h.args[1], Ref):
        for l in support(h.args[0]):
            if l.op == "proj" and l.args[2].__class__ is tuple and l.args[2] and l.args[2][-1].__class__ is tuple and l.args[2][-1][:1] == ("?which",):
                return l
    return None


def bind_oneof(info, env, h, which, v, src, memo, st, old):
    alts = []
    x = h
    while isinstance(x, Term) and x.op == "ite":
        alts.append(x.args[1])
        x = x.args[2]
    alts.append(x)
    names = which.args[2][-1][1:]
    v = settle(v, src, memo)
    cls = info.it.objs[v.oid].cls.name if isinstance(v, Ref) and info.it.objs[v.oid].cls is not None else None
    if cls not in names or len(alts) != len(names):
        return unset(info, env, h)
    k = names.index(cls)
    env.leaves[which] = k
    for i, a in enumerate(alts):
        if i == k:
            bind(info, env, a, v, src, memo, st, old)
        else:
            unset(info, env, a)


def bind(info, env, h, v, src, memo, st, old=None, loc=None):
    """Give the leaves of head value h the value that v has under src in state st."""
    if h is UNDEF or is_const(h):
        return
    if v is UNDEF or v is None:
        return unset(info, env, h)
    it = info.it
    if isinstance(h, Term):
        if is_leaf(h):
            try:
                x = ev(v, src, memo)
                env.leaves[h] = Unset if isinstance(x, Val) else x
            except Undecided:
                env.leaves[h] = Unset
            return
        which = which_leaf(h)
        if which is not None:
            return bind_oneof(info, env, h, which, v, src, memo, st, old)
        if h.op == "ite" and isinstance(h.args[1], Ref) and is_leaf(h.args[0]):
            # still the object from before the loop, or another one
            v = settle(v, src, memo)
            if not isinstance(v, Ref) and not is_const(v):
                return unset(info, env, h)
            env.leaves[h.args[0]] = v is h.args[1]
            if v is h.args[1]:
                return unset(info, env, h.args[2])
            return bind(info, env, h.args[2], v, src, memo, st, old)
        if h.op == "enum":
            try:
                x = ev(v, src, memo)
            except Undecided:
                x = None
            if x.__class__ is EnumVal and isinstance(h.args[1], Term) and is_leaf(h.args[1]):
                env.leaves[h.args[1]] = x[1]
            else:
                unset(info, env, h)
            return
        if h.op == "ite" and h.args[1] is NONE and isinstance(h.args[0], Term) and is_leaf(h.args[0]):
            try:
                x = ev(v, src, memo)
            except Undecided:
                return unset(info, env, h)
            env.leaves[h.args[0]] = x is None
            if x is None:
                return unset(info, env, h.args[2])
            return bind(info, env, h.args[2], x if isinstance(x, Val) else v, src, memo, st, old)
        if any(l in LOOP_OF and LOOP_OF[l] is info for l in support(h)) and not (isinstance(v, Term) and v is h) and h.op != "lin":
            unset(info, env, h)
        return
    if isinstance(h, Tup):
        v = settle(v, src, memo)
        if isinstance(v, Tup) and len(v.items) == len(h.items):
            for a, b in zip(h.items, v.items):
                bind(info, env, a, b, src, memo, st, old)
        else:
            try:
                x = ev(v, src, memo)
            except Undecided:
                x = None
            for j, a in enumerate(h.items):
                if isinstance(a, Term) and is_leaf(a):
                    env.leaves[a] = x[j] if isinstance(x, tuple) and len(x) == len(h.items) and not isinstance(x[j], Val) else Unset
                else:
                    unset(info, env, a)
        return
    if isinstance(h, Ref):
        if not made_up(it, h) or env.__dict__.get("bound", {}).get(h.oid):
            return
        env.__dict__.setdefault("bound", {})[h.oid] = True
        v = settle(v, src, memo)
        if not isinstance(v, Ref):
            return unset(info, env, h)
        have = dict(it.locs_of(v.oid, st))
        for k, w in base_fields(it, h):
            bind(info, env, w, have.get(k), src, memo, st, old)
        return
    if isinstance(h, DictV):
        v = settle(v, src, memo)
        have = {k: w for k, q, w in v.entries if q is TRUE} if isinstance(v, DictV) else {}
        for k, q, w in h.entries:
            bind(info, env, w, have.get(k), src, memo, st, old)
        return
    if isinstance(h, SeqV) and h.segs:
        v = settle(v, src, memo)
        if all(s[0] == "i" for s in h.segs):
            its = items_of(v) if isinstance(v, SeqV) else None
            if its is None or len(its) != len(h.segs):
                return unset(info, env, h)
            for s, x in zip(h.segs, its):
                bind(info, env, s[1], x, src, memo, st, old)
            return
        if h.segs[-1][0] != "o" or not isinstance(v, SeqV):
            return unset(info, env, h)
        leaf = h.segs[-1][1]
        n = len(h.segs) - 1
        if v.segs[:n] != h.segs[:n] or not copied(info, loc, h, leaf):
            env.lists[leaf] = Unset
            return
        try:
            xs = []
            rest = v.segs[n:]
            if old is not None and rest and rest[0] == h.segs[-1]:
                xs = list(old.lists[leaf]) if old.lists[leaf] is not Unset else None
                rest = rest[1:]
            if xs is None:
                env.lists[leaf] = Unset
            else:
                env.lists[leaf] = xs + concrete(it, SEQ(rest), src, st)
        except Undecided:
            env.lists[leaf] = Unset


def settle(v, env, memo):
    """The case of a conditional value that applies."""
    while isinstance(v, Term) and v.op == "ite":
        try:
            v = v.args[1] if ev(v.args[0], env, memo) else v.args[2]
        except Undecided:
            return None
    return v


def copied(info, loc, h, leaf):
    """The elements a loop appends keep the value they have when appended: nothing else holds and changes them."""
    if loc is None:
        return True
    r = info.copies.get(loc)
    if r is None:
        it, back = info.it, info.back_state
        mine = set()
        b = info.W[loc][2]
        for x in refs_of(b.segs[len(h.segs):] if isinstance(b, SeqV) and b.segs[:len(h.segs)] == h.segs else b):
            reach(it, x, back, mine)
        mine = {o for o in mine if not it.objs[o].init}
        r = True
        if mine:
            others = set()
            for l2, (e2, h2, b2) in info.W.items():
                if l2[0] in mine:
                    r = False
                    break
                if l2 != loc:
                    for x in refs_of(b2):
                        reach(it, x, back, others)
            r = r and not (mine & others)
        r = r and not any(w[0].__class__ is tuple and w[0] and w[0][0] is leaf for w in it.weak)
        info.copies[loc] = r
    return r


def refs_of(v, out=None):
    out = [] if out is None else out
    if isinstance(v, Ref):
        out.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_of(x, out)
    elif isinstance(v, Term):
        for x in walk(v):
            out.extend(y for y in (x.items if isinstance(x, Tup) else subvals(x)) if isinstance(y, Ref))
    elif isinstance(v, SeqV):
        refs_of(v.segs, out)
    elif isinstance(v, DictV):
        for k, q, w in v.entries:
            refs_of(w, out)
    elif isinstance(v, tuple):
        for x in v:
            refs_of(x, out)
    return out


def reach(it, r, st, out):
    if r.oid in out or r.oid not in it.objs:
        return
    out.add(r.oid)
    for k, w in it.locs_of(r.oid, st):
        for x in refs_of(w):
            reach(it, x, st, out)


def concrete(it, p, env, st=None):
    """Plain elements of a payload; an element that has no plain value is Unset."""
    if isinstance(p, Term) and p.op == "ite":
        return concrete(it, p.args[1] if ev(p.args[0], env) else p.args[2], env, st)
    if not isinstance(p, SeqV):
        raise Undecided("sequence %r" % (p,))
    out = []
    for s in p.segs:
        if s[0] == "i":
            out.append(plain_value(it, s[1], env, st))
        elif s[0] == "g":
            if ev(s[1], env):
                out.extend(concrete(it, SEQ(s[2]), env, st))
        elif s[0] == "o":
            xs = find_list(env, s[1])
            if xs is None:
                xs = seq_values(env, s[1])
            if xs is None:
                n = ev(T("lenof", (s[1],), "int", (0, None)), env)
                raise Undecided("elements of an unknown sequence of %d" % n)
            if xs is Unset:
                raise Undecided("elements of %s" % show(s[1]))
            out.extend(xs)
        else:
            for e in iterations(s[1], env):
                out.extend(concrete(it, SEQ(s[1].segs), e, st))
    return out


def known(xs):
    if any(x is Unset for x in xs):
        raise Undecided("an element that has no plain value")
    return xs


def plain_value(it, v, env, st=None, depth=0):
    try:
        x = ev(v, env)
    except Undecided:
        if isinstance(v, Tup):
            return tuple(plain_value(it, y, env, st, depth + 1) for y in v.items)
        return Unset
    return plain(it, x, env, st, depth)


def plain(it, x, env, st, depth):
    if isinstance(x, Ref) and depth < 6:
        o = it.objs[x.oid]
        if o.kind == "inst":
            d = {k: plain_value(it, w, env, st, depth + 1) for k, w in it.locs_of(x.oid, st) if not k.startswith("$")}
            d["?cls"] = o.cls.name
            return d
        if o.kind in ("list", "deque"):
            try:
                return concrete(it, dict(it.locs_of(x.oid, st)).get("$"), env, st)
            except Undecided:
                return Unset
        return Unset
    if x.__class__ is tuple:
        return tuple(plain(it, y, env, st, depth + 1) for y in x)
    return Unset if isinstance(x, Val) else x


def iterations(r, env):
    """Valuations of the iterations that produced the segments of a Rep."""
    it = getattr(r.src, "it", None)
    if it is not None and it.weak and any(w[0].__class__ is tuple and w[0] and w[0][0] is r for w in it.weak):
        raise Undecided("an element made by a loop is changed later")
    n = ev(r.n, env)
    if r.src is None or not r.heads:
        out = []
        for k in range(n):
            e = Sim(env, r.src or r)
            e.leaves[r.idx] = k
            out.append(e)
        return out
    q = follow(loops_between(env, r.src), r.src)
    if n > len(q.trail):
        raise Undecided("%d iterations of a loop" % n)
    return q.trail[:n]


def register(it, info, exits, early):
    """Record the equations of a finished loop."""
    info.it = it
    info.exit_conds, info.early_conds = exits, early
    m = it.frames[-1].module if it.frames else None
    info.simple = it.sim_all or not (m is not None and (m.path or "").startswith("<"))
    if not info.simple:
        return
    LOOP_OF[info.idx] = info
    if info.exists is not None:
        LOOP_OF[info.exists] = info
    for e, h, b in info.W.values():
        if isinstance(h, SeqV) and h.segs and h.segs[-1][0] == "o" and leaf_root(h.segs[-1][1]).startswith("L%d." % info.lid):
            LIST_OF[h.segs[-1][1]] = info
        for l in head_leaves(it, h):
            x = l
            if x.op in ("sym", "proj") and leaf_root(x).startswith("L%d." % info.lid):
                LOOP_OF[l] = info


def owner(t):
    while t.op in ("proj", "lenof", "firstidx") and isinstance(t.args[0], Term):
        t = t.args[0]
    return OWNER.get(t)


def leaf_lid(t):
    """The loop a leaf belongs to, by its name."""
    if t.op == "exists" and t.args[0].__class__ is int:
        return t.args[0]
    while t.op in ("proj", "lenof", "firstidx") and isinstance(t.args[0], Term):
        t = t.args[0]
    s = t.args[0] if t.op in ("sym", "idx") else ""
    if isinstance(s, str) and s[:1] == "L":
        n = s[1:].split(".")[0]
        return int(n) if n.isdigit() else None
    return None


def leaf_root(x):
    while x.op == "proj":
        x = x.args[0]
    return x.args[0] if x.op == "sym" and isinstance(x.args[0], str) else ""


def head_leaves(it, h, seen=None):
    """The leaves of the value a location has at the head of an iteration, through the objects made up for it."""
    seen = set() if seen is None else seen
    out = set()
    if isinstance(h, Term):
        for x in walk(h):
            if is_leaf(x):
                out.add(x)
        for x in refs_of(h):
            out |= head_leaves(it, x, seen)
    elif isinstance(h, Tup):
        for x in h.items:
            out |= head_leaves(it, x, seen)
    elif isinstance(h, SeqV):
        for s in h.segs:
            if s[0] == "o":
                out.add(s[1])
            elif s[0] == "i":
                out |= head_leaves(it, s[1], seen)
    elif isinstance(h, DictV):
        for k, q, w in h.entries:
            out |= head_leaves(it, w, seen)
    elif isinstance(h, Ref) and h.oid not in seen:
        seen.add(h.oid)
        o = it.objs.get(h.oid)
        if o is not None and made_up(it, h):
            for k, w in base_fields(it, h):
                out |= head_leaves(it, w, seen)
    return out


def base_fields(it, r):
    return [(k, it.base[(r.oid, k)]) for k in it.okeys.get(r.oid, ()) if k != "$alive" and (r.oid, k) in it.base]


def made_up(it, r):
    """The object stands for whatever object a location refers to at the head of an iteration."""
    return it.objs[r.oid].site == "elem"
