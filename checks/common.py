"""What every checker shares: the run object (verdict, evidence), abstract drivers, evaluation of summaries."""
import ast
import hashlib
import json
import os
import random
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(30000)

from absint.interp import Interp            # noqa: E402
from absint.core import refs_in             # noqa: E402
from absint.loopeval import loop_leaf, iterations, seq_values, Unset  # noqa: E402
from absint.values import *                 # noqa: E402,F401,F403
from absint.terms import *                  # noqa: E402,F401,F403


class Undecidable(Exception):
    """The analysis cannot decide (an anchor is gone, or code it has no model for)."""


class Run:
    """One check of one property."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.violations = []
        self.known_hits = []
        self.counts = {}
        self.samples = []
        self.notes = []
        self.interps = []
        self.rules = []
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def rule(self, s):
        self.rules.append(s)

    def violate(self, what, where="", key=None, **data):
        k = key or what
        if any(v["key"] == k for v in self.violations):
            return
        self.violations.append({"key": k, "what": what, "where": where, **{a: str(b) for a, b in data.items()}})

    def violated(self, key):
        return any(v["key"] == key for v in self.violations)

    def interp(self):
        it = Interp(REPO)
        self.interps.append(it)
        return it

    # ------------------------------------------------------------ ending
    def known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = {}
        if os.path.isfile(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("known: property=%s " % self.pid):
                    rest = line.split(" ", 2)[2]
                    k, _, text = rest.partition(" :: ")
                    out[k.strip()[len("key="):]] = text.strip()
        return out

    def finish(self, error=None):
        known = self.known()
        new = []
        for v in self.violations:
            if v["key"] in known:
                self.known_hits.append(v)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]]))
            else:
                new.append(v)
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"explanation": self.explain(), "rule": " ".join(self.rules)}
        cov.update(self.counts)
        fns = set()
        for it in self.interps:
            fns |= set(it.stats["functions"])
        fns = sorted(f for f in fns if not f.startswith("drv"))
        cov["functions_analysed"] = len(fns)
        cov["functions"] = fns[:60]
        cov["syntax_nodes_interpreted"] = sum(it.stats["nodes"] for it in self.interps)
        cov["loops_summarised"] = sum(len(it.loop_infos) for it in self.interps)
        if self.samples:
            cov["samples"] = self.samples
        if self.notes:
            cov["notes"] = self.notes
        if error:
            cov["error"] = error
        ev_ = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
               "assumptions": self.assumptions or ["the Python semantics and library models of /verif/absint"],
               "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump(ev_, f, indent=1, default=str)
        if new:
            p = os.path.join(EVIDENCE, self.pid + ".violation.json")
            with open(p, "w") as f:
                json.dump(new, f, indent=1, default=str)
            for v in new[:10]:
                print("  %s%s" % ("[%s] " % v["where"] if v["where"] else "", v["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if error:
            print("UNDECIDED property=%s %s" % (self.pid, error))
            return 2
        print("HOLDS property=%s %s" % (self.pid, ", ".join("%s=%s" % kv for kv in self.counts.items())))
        return 0

    def explain(self):
        return ("Static: /repo's current source is parsed and interpreted over value-numbered terms (abstract inputs, "
                "unbounded loops summarised); the resulting summaries are compared with the property's table. "
                + " ".join(self.rules))


# ------------------------------------------------------------------ drivers

class Driver:
    """An abstract driver: Python text, interpreted together with the repository's modules."""

    def __init__(self, run, src, tag="drv"):
        self.run_ = run
        it = self.it = run.interp()
        self.probes = []
        it.builtins["probe"] = BuiltinV("probe", self._probe)
        it.builtins["fork"] = BuiltinV("fork", self._fork)
        self.m = it.load_source(tag, src)

    def _probe(self, it, a, k):
        it.event("probe", tag=a[0].v, args=list(a[1:]), st=it.st.copy())
        return NONE

    def _fork(self, it, a, k):
        """fork(tag, f, *args): call f on a copy of the state; only the probes it makes remain."""
        s = it.st
        it.st = s.copy()
        st, v, pend = it.region(lambda: it.call(a[1], list(a[2:]), {}))
        it.event("probe", tag=a[0].v, args=[v], st=st.copy() if st else None, pend=pend, pc=tuple(s.pc))
        it.st = s
        return NONE

    def call(self, fname="f", *args):
        it = self.it
        st, v, pend = it.run(it.get(self.m.oid, fname), list(args))
        return st, v, pend

    def probed(self, tag):
        return [e for e in self.it.events if e["kind"] == "probe" and e["tag"] == tag]

    def one(self, tag):
        p = self.probed(tag)
        if len(p) != 1:
            raise Undecidable("driver point %s reached %d times" % (tag, len(p)))
        return p[0]

    def no_errors(self):
        """Name, attribute and call errors the analysis proved on some path."""
        return [e for e in self.it.events if e["kind"] in ("name_error", "attribute_error", "type_error")]


def seq_of(it, name, template):
    """A list of unknown length whose elements have the given shape."""
    return it.new_seq(SEQ([("o", T("sym", (name,), "seq"), template)]))


BOOL = ("scalar", "bool", (0, 1))
BYTE = ("scalar", "int", (0, 255))
NAT = ("scalar", "int", (0, None))


def op_list(it, name="ops"):
    return seq_of(it, name, ("tuple", ("scalar", "int", (0, 1)), BYTE, BYTE, NAT))


def in_stream(it, name="in", std=None):
    s = it.new_obj("stream", extra={"name": name, "mode": C("rb"), "path": None, "binary": True, "std": std})
    it.raw_put(s.oid, "open", TRUE)
    it.raw_put(s.oid, "pos", ZERO)
    return s


# ------------------------------------------------------------------ evaluation

class Mark:
    """An unknown stretch of a sequence (what was there before)."""

    def __init__(self, leaf, what):
        self.leaf, self.what = leaf, what

    def __eq__(self, o):
        return isinstance(o, Mark) and self.leaf is o.leaf

    def __hash__(self):
        return hash(id(self.leaf))

    def __repr__(self):
        return "<%s %s>" % (self.what, show(self.leaf) if isinstance(self.leaf, Val) else self.leaf)


class Inst(dict):
    """A concretised instance."""
    cls = None
    ref = None

    def __repr__(self):
        return "%s(%s)" % (self.cls, ", ".join("%s=%r" % kv for kv in self.items()))


class AutoEnv(Env):
    """Assigns every leaf a pseudo-random value of its domain (the same leaf, the same value)."""

    def __init__(self, seed=0, leaves=None, streams=None, big=1 << 20, it=None):
        Env.__init__(self, dict(leaves or {}), dict(streams or {}), None)
        self.seed, self.big, self.it = seed, big, it
        self.asked = {}
        self.default = self._auto

    follow = False      # whether the leaves of the repository's loops follow from the others or are free

    def _auto(self, t):
        v = loop_leaf(self, t) if self.follow else NotImplemented
        if v is not NotImplemented:
            return v
        v = self.pick(t)
        self.leaves[t] = v
        self.asked[t] = v
        return v

    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("openfails"):
            return False
        h = int(hashlib.sha256(("%d|%s" % (self.seed, key_of(t))).encode()).hexdigest()[:12], 16)
        k = t.kind
        if k == "bool":
            return bool(h & 1)
        if k == "int":
            lo, hi = iv(t)
            if lo is None and hi is None:
                return h % (2 * self.big) - self.big
            if hi is None:
                return lo + h % self.big
            if lo is None:
                return hi - h % self.big
            return lo + h % (hi - lo + 1)
        if k == "str":
            return "s%d" % (h % 97)
        raise Undecided("leaf %s" % show(t))


_keys = {}


def key_of(t):
    k = _keys.get(t)
    if k is None:
        k = _keys[t] = repr(show(t))
    return k


def conc(it, st, v, env, memo=None, depth=0):
    """The Python value an abstract value stands for under a valuation."""
    if memo is None:
        memo = {}
    if depth > 40:
        return "..."
    v = ev(v, env, memo.setdefault("ev", {}))
    if isinstance(v, Ref):
        if v in memo:
            return memo[v]
        o = it.objs[v.oid]
        heap = st.heap
        if o.kind in ("list", "deque", "set", "bytearray"):
            out = memo[v] = []
            conc_seq(it, st, heap.get((v.oid, "$"), it.base.get((v.oid, "$"))), env, memo, out, depth)
            return out
        if o.kind == "dict":
            out = memo[v] = {}
            p = ev(heap.get((v.oid, "$"), it.base.get((v.oid, "$"))), env, memo["ev"])
            if p.base:
                out["__base__"] = Mark(p.base[1], "dict")
            for k, q, w in p.entries:
                if ev(q, env, memo["ev"]):
                    out[conc(it, st, k, env, memo, depth + 1)] = conc(it, st, w, env, memo, depth + 1)
            return out
        if o.kind == "inst":
            if o.cls.nt_fields is not None:
                return tuple(conc(it, st, heap.get((v.oid, f), it.base.get((v.oid, f))), env, memo, depth + 1) for f in o.cls.nt_fields)
            out = memo[v] = Inst()
            out.cls = o.cls.name
            out.ref = v
            for k, w in it.locs_of(v.oid, st):
                if not k.startswith("$"):
                    out[k] = conc(it, st, w, env, memo, depth + 1)
            return out
        return v
    if isinstance(v, Tup):
        return tuple(conc(it, st, x, env, memo, depth + 1) for x in v.items)
    if isinstance(v, tuple) and not isinstance(v, EnumVal):
        return tuple(conc(it, st, x, env, memo, depth + 1) for x in v)
    return v


def conc_seq(it, st, p, env, memo, out, depth=0):
    p = ev(p, env, memo.setdefault("ev", {}))
    for s in p.segs:
        conc_seg(it, st, s, env, memo, out, depth)


def conc_seg(it, st, s, env, memo, out, depth):
    if s[0] == "i":
        out.append(conc(it, st, s[1], env, memo, depth + 1))
    elif s[0] == "g":
        if ev(s[1], env, memo.setdefault("ev", {})):
            for x in s[2]:
                conc_seg(it, st, x, env, memo, out, depth)
    elif s[0] == "o":
        xs = None
        if getattr(env, "follow", True):
            try:
                xs = seq_values(env, s[1])
            except Undecided:
                pass
        if xs is None or any(unplain(x) for x in xs):
            out.append(Mark(s[1], "unknown"))
        else:
            out.extend(xs)
    else:
        try:
            envs = iterations(s[1], env) if getattr(env, "follow", True) else None
        except Undecided:
            envs = None
        if envs is None:
            out.append(Mark(s[1], "loop"))
            return
        for e in envs:
            for x in s[1].segs:
                conc_seg(it, st, x, e, {"ev": e.memo}, out, depth)


def unplain(x):
    return x is Unset or isinstance(x, (dict, list)) or x.__class__ is tuple and any(unplain(y) for y in x)


def payload(it, st, ref):
    return st.heap.get((ref.oid, "$"), it.base.get((ref.oid, "$")))


def attr(it, st, ref, name):
    """Plain attribute of an instance, when the value is a single reference."""
    for k, w in it.locs_of(ref.oid, st):
        if k == name:
            return w
    return None


def fn_site(it, qual):
    """file:line of a function of the repository, by qualified name."""
    for m in it.modules.values():
        if m.repo and m.oid and qual.startswith(m.name + "."):
            v = it.get(m.oid, qual[len(m.name) + 1:].split(".")[0])
            rest = qual[len(m.name) + 1:].split(".")[1:]
            for r in rest:
                if isinstance(v, ClassV):
                    v = v.lookup(r)[0]
            if isinstance(v, FuncV):
                return "%s:%d %s" % (os.path.relpath(m.path, it.root), v.node.lineno, qual)
    return qual


def payload_guards(p):
    """The conditions that decide which elements a sequence payload has."""
    out = []

    def segs(ss):
        for s in ss:
            if s[0] == "g":
                out.append(s[1])
                segs(s[2])

    def pay(p):
        if isinstance(p, Term) and p.op == "ite":
            out.append(p.args[0])
            pay(p.args[1])
            pay(p.args[2])
        elif isinstance(p, SeqV):
            segs(p.segs)
    pay(p)
    return out


def directed(conds, mkenv, fixed=(), limit=40, pairs=False):
    """Valuations at which the comparisons inside the conditions just hold and just fail.

    Random values practically never meet an equality between two unknowns; each comparison is solved for one of its leaves.
    """
    ats, seen, todo = [], set(), []
    for c in conds:
        for t in walk(c, seen):
            if t.__class__ is Term and t.op == "conj":
                todo.append(tuple(t.args[0]))
            if t.__class__ is Term and (t.op in ("eq", "lt", "le") or t.kind == "bool" and t in support(t)):
                ats.append(t)
    ats = ats[:limit]
    todo = todo[:limit] + [(a,) for a in ats]
    if pairs:
        todo += [(a, b) for i, a in enumerate(ats) for b in ats[i + 1:]]
    for group in todo:
        for shift in ((0,) if len(group) > 1 else (0, -1, 1)):
            env = mkenv()
            ok = False
            for a in group:
                ok = _aim(a, env, shift, fixed) or ok
            if ok:
                env.runs, env.seqs = None, None
                yield env


def _aim(a, env, shift, fixed):
    """Give a leaf of the comparison the value at which its sides are equal (shift: apart by one)."""
    while a.op == "not":
        a, shift = a.args[0], (1 if a.args[0].op in ("eq", "lt", "le") or a.args[0] in support(a.args[0]) else shift)
    if a.op == "conj":
        return all([_aim(x, env, shift, fixed) for x in a.args[0]])
    if a.op == "lt" and shift == 0:
        shift = -1
    if a.op not in ("eq", "lt", "le") and a not in support(a):
        return False
    if a in support(a):
        if a in fixed:
            return False
        env.leaves[a] = shift == 0
        return True
    x, y = a.args
    if not all(isinstance(v, (Const, Term)) for v in (x, y)):
        return False
    for l in sorted(support(a), key=lambda t: (t.op in ("lenof", "idx"), t.n)):
        if l in fixed or l.kind != "int":
            continue
        try:
            def diff(v):
                e = AutoEnv(env.seed, {**env.leaves, l: v}, env.streams, env.big)
                d = ev(x, e) - ev(y, e)
                env.leaves.update((k, w) for k, w in e.asked.items() if k is not l and k not in env.leaves)
                return d
            v0 = env.leaves.get(l)
            if v0 is None:
                v0 = env.pick(l)
            d0, d1 = diff(v0), diff(v0 + 1)
            if abs(d1 - d0) != 1:
                continue
            v = v0 - (d0 - shift) * (d1 - d0)
            lo, hi = iv(l)
            if (lo is not None and v < lo) or (hi is not None and v > hi) or diff(v) != shift:
                continue
            env.leaves[l] = v
            return True
        except (Undecided, TypeError):
            continue
    return False


def same(a, b):
    """Equality of concretised values, strict about None and about bool against int only in value."""
    return a == b


def need(v, what):
    if v is None:
        raise Undecidable("%s is gone" % what)
    return v


def obs_at(d, st, fname, *args):
    """Run a driver function on an arbitrary analysed state; (state, value, pendings)."""
    it = d.it
    saved = it.st
    it.st = st.copy()
    try:
        s2, v, pend = it.region(lambda: it.call(it.get(d.m.oid, fname), list(args), {}))
    finally:
        it.st = saved
    return s2, v, pend


def raised(pend):
    return [p for p in pend if p.kind == "raise"]


def outcome_raises(it, pend, env, memo):
    """The raise that happens under a valuation, or None."""
    for p in raised(pend):
        try:
            hit = all(ev(c, env, memo) for c in p.state.pc)
        except Undecided:
            hit = False
        if hit:
            return it.describe_pend([p])
    return None
