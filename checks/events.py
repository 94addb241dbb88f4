"""C11-C14: the sample clock, key events, instruments."""
from .common import *
from . import spec
from .ym import OBS, APPLY, NTF, plain, subst_payload, same_payload

PV = [(0x20, sym("pan%d" % c, "int", 0, 255)) for c in range(8)] + [(0x28, sym("kc%d" % c, "int", 0, 255)) for c in range(8)] + \
     [(0x30, sym("kf%d" % c, "int", 0, 255)) for c in range(8)]

EVENTS = OBS + '''
import json
from vgm.ym2151 import config

def again(s, w, r, v, n):
    step(s, w, r, v, n)
    return s

def keyed(s, v, pv):
    for i in range(24):
        s.apply(create((0x20, 0x28, 0x30)[i // 8] + i % 8, pv[i]))
    s.apply(create(8, v))
    return records(s)

def f(opsA, opsB, k0, w2, r2, v2, n2, pv):
    s = State()
    fork("0.rec", records, s)
    fork("0.clock", clock, s)
    for k, r, v, n in opsA:
        # no key-on in this part of the history
        if k == 0:
            s.beat(n)
        elif k == 1:
            if r != 8:
                s.apply(create(r, v))
        else:
            s.apply(create(8, v & 0x87))
    fork("A.rec", records, s)
    fork("A.note", pitches, s)
    fork("A.clock", clock, s)
    s.apply(create(8, k0))
    fork("K.rec", records, s)
    for w, r, v, n in opsB:
        fork("h.rec", records, s)
        fork("h.note", pitches, s)
        fork("h.clock", clock, s)
        fork("h.state", whole, s)
        fork("set.rec", keyed, s, v2, pv)
        step(s, w, r, v, n)
        fork("t.rec", records, s)
        fork("t.state", whole, s)
        fork("t.clock", clock, s)
        fork("x.state", again, s, w2, r2, v2, n2)
    fork("end.rec", records, s)

def whole(s):
    return s

def js(c):
    return json.dumps(c, cls=config.ConfigEncoder)
'''


class Events:
    def __init__(self, run):
        self.run = run
        d = self.d = Driver(run, EVENTS)
        it = self.it = d.it
        t = ("tuple", ("scalar", "int", (0, 2)), BYTE, BYTE, NAT)
        self.ka, self.kc = sym("k0op", "int", 1, 15), sym("k0ch", "int", 0, 7)
        self.next = [sym("w2", "int", 0, 1), sym("r2", "int", 0, 255), sym("v2", "int", 0, 255), sym("n2", "int", 0, None)]
        st, v, pend = d.call("f", seq_of(it, "opsA", t), op_list(it, "opsB"), add(mul(self.ka, C(8)), self.kc), *self.next, TUP([t for _, t in PV]))
        if st is None:
            raise Undecidable("no history completes: " + it.describe_pend(pend))
        for p in raised(pend):
            run.violate("some history of register writes and waits raises: %s" % it.describe_pend([p]), APPLY, key="raise")
        h = self.h = d.one("h.rec")
        self.t = d.one("t.rec")
        lid = h["loops"][-1]
        leaf = T("sym", ("opsB",), "seq")
        info = [l for l in it.loop_infos if l.lid == lid][0]
        idx = info.idx
        self.w, self.r, self.v, self.n = [T("proj", (leaf, idx, (i,)), "int", dm) for i, dm in enumerate(((0, 1), (0, 255), (0, 255), (0, None)))]
        for tag in ("0.rec", "A.rec", "K.rec", "h.rec", "t.rec", "A.note", "h.note", "h.clock", "t.clock", "A.clock", "0.clock"):
            e = d.one(tag)
            if e["st"] is None or raised(e.get("pend", [])):
                raise Undecidable("the records cannot be observed (%s): %s" % (tag, it.describe_pend(e["pend"])))

    def lists(self, e):
        """payloads of the eight event lists and the instrument list, at a probe"""
        k, c = e["args"][0].items
        its = items_of(payload(self.it, e["st"], k))
        if its is None or len(its) != 8 or not all(isinstance(x, Ref) for x in its):
            raise Undecidable("the key events are not eight lists")
        if not isinstance(c, Ref):
            raise Undecidable("the instruments are not one list")
        return [payload(self.it, e["st"], x) for x in its], payload(self.it, e["st"], c)

    def pitch(self, e):
        out = []
        for v in items_of(payload(self.it, e["st"], e["args"][0])):
            out.append(dict(zip(NTF, v.items)))
        return out

    def env(self, seed, w=None, r=None, v=None, n=None):
        env = AutoEnv(seed)
        for t, x in ((self.w, w), (self.r, r), (self.v, v), (self.n, n)):
            if x is not None:
                env.leaves[t] = x
        return env

    def conc_list(self, e, p, env, memo):
        out = []
        conc_seq(self.it, e["st"], p, env, memo, out)
        return out


def note_view(n):
    return {k: plain(n[k]) for k in ("config_id", "sample", *NTF)} if isinstance(n, Inst) else n


def key_events(run):
    run.rule("Over every history split at its first key-on: nothing is recorded before it; from it on every key write (all 256 values) "
             "appends exactly one event, to the channel of bits 0-2 alone, with the channel's pitch, pan and the current sample; no other "
             "write and no wait adds, removes or alters an event.")
    m = Events(run)
    it = m.it
    # nothing at the start, nothing before the first key-on
    for tag in ("0.rec", "A.rec"):
        e = m.d.one(tag)
        ks, cs = m.lists(e)
        for c, p in enumerate(ks + [cs]):
            run.count("empty_lists")
            for seed in range(4):
                o = m.conc_list(e, p, AutoEnv(seed), {})
                if o:
                    run.violate("before the first key-on %s" % ("an event is recorded on channel %d" % c if c < 8 else "an instrument is recorded"), APPLY, key="before key-on")
                    break
    # the first key-on
    e, a = m.d.one("K.rec"), m.d.one("A.note")
    ks, cs = m.lists(e)
    pit = m.pitch(a)
    clk = m.d.one("A.clock")["args"][0]
    for ch in range(8):
        for op in range(1, 16):
            env = AutoEnv(run.seed)
            env.leaves[m.ka], env.leaves[m.kc] = op, ch
            memo = {}
            for c in range(8):
                run.count("first_key_on_lists")
                o = [note_view(x) for x in m.conc_list(e, ks[c], env, memo)]
                want = [dict({k: plain(ev(pit[c][k], env)) for k in NTF}, config_id=0, sample=ev(clk, env))] if c == ch else []
                if o != want:
                    run.violate("first key-on (value 0x%02X): channel %d has events %r, expected %r" % (op * 8 + ch, c, o, want), APPLY, key="first key-on")
            o = m.conc_list(e, cs, env, memo)
            if len(o) != 1:
                run.violate("the first key-on records %d instruments" % len(o), APPLY, key="first key-on instruments")
    # every later operation
    hk, hc = m.lists(m.h)
    tk, tc = m.lists(m.t)
    pit = m.pitch(m.d.one("h.note"))
    clk = m.d.one("h.clock")["args"][0]
    seeds = [run.seed * 10 + i for i in range(4 if run.thorough else 1)]
    vals = [(v, m.env(seed + (v >> 3) * 1000, 1, 8, v)) for seed in seeds for v in range(256)]
    # and where the conditions that decide what is appended change
    fixed = {m.w, m.r, m.v, m.n}
    for v in [o * 8 + c for c in range(8) for o in ((0, 15, 1, 2, 4, 8, 10) if run.thorough else (0, 15))]:
        sub = {m.w: C(1), m.r: C(8), m.v: C(v)}
        conds = [g for c in range(8) for g in payload_guards(subst_payload(it, tk[c], sub))]
        for env in directed(conds, lambda: m.env(run.seed + v, 1, 8, v), fixed, pairs=run.thorough):
            run.count("boundary_valuations")
            vals.append((v, env))
    for v, env in vals:
        ch, op = v & 7, v >> 3 & 15
        mh, mt = {}, {}
        for c in range(8):
            run.count("key_write_lists")
            before, after = m.conc_list(m.h, hk[c], env, mh), m.conc_list(m.t, tk[c], env, mt)
            new = after[len(before):]
            if after[:len(before)] != before:
                run.violate("a key write changes the events already recorded", APPLY, key="rewrites")
                continue
            if c != ch:
                if new:
                    run.violate("key write 0x%02X records an event on channel %d" % (v, c), APPLY, key="wrong channel")
                continue
            if len(new) != 1:
                run.violate("key write 0x%02X records %d events on its channel" % (v, len(new)), APPLY, key="not one event")
                continue
            g = note_view(new[0])
            w = dict({k: plain(ev(pit[c][k], env)) for k in NTF}, sample=ev(clk, env))
            for k in w:
                if g.get(k) != w[k]:
                    run.violate("key write 0x%02X records %s %r, expected %r" % (v, k, g.get(k), w[k]), APPLY, key="event " + k)
            cid = g.get("config_id")
            if op and not (isinstance(cid, int) and cid >= 0):
                run.violate("key-on 0x%02X records an event without instrument" % v, APPLY, key="no instrument")
    # the pitch and pan of an event are those of its channel
    sk, sc = m.lists(m.d.one("set.rec"))
    e = m.d.one("set.rec")
    for v in range(256):
        ch = v & 7
        env = AutoEnv(run.seed * 7919 + v)
        env.leaves[m.next[2]] = v
        mh, ms = {}, {}
        run.count("pitched_events")
        before, after = m.conc_list(m.h, hk[ch], env, mh), m.conc_list(e, sk[ch], env, ms)
        if len(after) != len(before) + 1:
            run.violate("key write 0x%02X records %d events on its channel" % (v, len(after) - len(before)), APPLY, key="not one event")
            continue
        g = note_view(after[-1])
        want = {}
        for i in (0, 8, 16):
            for loc, x in spec.register_effect(PV[i][0] + ch, env.leaf(PV[i + ch][1])).items():
                if loc[0] == "note":
                    want[loc[2]] = x
        for k, x in want.items():
            if g.get(k) != x:
                run.violate("a key write on channel %d records %s %r, the channel was set to %r" % (ch, k, g.get(k), x), APPLY, key="event " + k)
    # anything else leaves the records alone
    for w, regs in ((0, [8, 0x28]), (1, [r for r in range(256) if r != 8])):
        for r in regs:
            sub = {m.w: C(w), m.r: C(r)}
            for c in range(9):
                x, y = (hk + [hc])[c], (tk + [tc])[c]
                run.count("silent_operations")
                yy = subst_payload(it, y, sub)
                if yy is not x and not same_payload(it, m.h["st"], subst_payload(it, x, sub), m.t["st"], yy, 3):
                    run.violate("%s records an event" % ("a wait" if not w else "register 0x%02X" % r), APPLY, key="silent %d" % w)


def sample_clock(run):
    run.rule("The time stamped on events starts at 0, grows by exactly n at a wait of n samples and by nothing at any register write, "
             "from an arbitrary state; evaluated for boundary and random n over all registers.")
    m = Events(run)
    c0 = m.d.one("0.clock")["args"][0]
    if not (is_const(c0) and c0.v == 0):
        run.violate("time starts at %s" % show(c0), "src/vgm/ym2151/state.py State.__init__", key="start")
    h, t = m.d.one("h.clock")["args"][0], m.d.one("t.clock")["args"][0]
    ns = [0, 1, 2, 15, 16, 255, 256, 735, 882, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 40] + [run.rng.randrange(1 << 20) for _ in range(100 if run.thorough else 20)]
    for k, n in enumerate(ns):
        for seed in range(3):
            env = m.env(seed * 7 + k, 0, None, None, n)
            run.count("waits_evaluated")
            a, b = ev(h, env), ev(t, env)
            if b != a + n or isinstance(b, float):
                run.violate("a wait of %d samples at time %d leads to time %r" % (n, a, b), "src/vgm/ym2151/state.py State.beat", key="wait")
    for env in directed([subst(t, {m.w: ZERO})], lambda: m.env(run.seed, 0), (m.w,), 40):
        run.count("boundary_valuations")
        a, b, n = ev(h, env), ev(t, env), ev(m.n, env)
        if b != a + n or isinstance(b, float):
            run.violate("a wait of %d samples at time %d leads to time %r" % (n, a, b), "src/vgm/ym2151/state.py State.beat", key="wait")
    for r in range(256):
        envs = [m.env(r * 3 + v, 1, r, v) for v in (range(256) if r == 8 or run.thorough else (0, 1, 0x55, 0x80, 0xFF))]
        envs.extend(directed([subst(t, {m.w: C(1), m.r: C(r)})], lambda: m.env(run.seed, 1, r), (m.w, m.r), 40))
        for env in envs:
            v = ev(m.v, env)
            run.count("writes_evaluated")
            a, b = ev(h, env), ev(t, env)
            if a != b:
                run.violate("register 0x%02X = 0x%02X moves time from %r to %r" % (r, v, a, b), APPLY, key="write moves time")
                break


# ------------------------------------------------------------------ instruments

def json_plain(d, st, ref, env, memo, drop=("id",)):
    """The JSON tree of a recorded instrument under a valuation (without its number)."""
    key = ("js", ref)
    cache = d.__dict__.setdefault("_js", {})
    if (id(st), ref) not in cache:
        n0 = len(d.it.events)
        s2, v, pend = obs_at(d, st, "js", ref)
        es = [e for e in d.it.events[n0:] if e["kind"] == "json"]
        if s2 is None or raised(pend) or len(es) != 1:
            raise Undecidable("the JSON of an instrument: %s" % d.it.describe_pend(pend))
        cache[(id(st), ref)] = (es[0]["tree"], es[0]["st"], st)
    tree, s3, _ = cache[(id(st), ref)]
    r = conc(d.it, s3, tree, env, memo.setdefault(("jsm", ref), {"ev": memo.setdefault("ev", {})}))
    return freeze_py({k: v for k, v in r.items() if k not in drop}) if isinstance(r, dict) else r


def freeze_py(x):
    if isinstance(x, dict):
        return tuple(sorted((str(k), freeze_py(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)) and not isinstance(x, EnumVal):
        return tuple(freeze_py(v) for v in x)
    return x


def appended(p):
    """[(guard, value)] of plain items after the unknown prefix of a payload."""
    out = []

    def seg(s, g):
        if s[0] == "i":
            out.append((g, s[1]))
        elif s[0] == "g":
            for x in s[2]:
                seg(x, conj(g, s[1]))
    def pay(p, g):
        if isinstance(p, Term) and p.op == "ite":
            pay(p.args[1], conj(g, p.args[0]))
            pay(p.args[2], conj(g, neg_b(p.args[0])))
            return
        for s in p.segs:
            seg(s, g)
    pay(p, TRUE)
    return out


def attr_paths(it, st, ref, path=(), seen=()):
    """attribute path -> scalar term, as the leaves of an element of an unknown list are named"""
    out = {}

    def val(v, path):
        if isinstance(v, Ref):
            if v in seen:
                return
            o = it.objs[v.oid]
            if o.kind == "inst":
                out.update(attr_paths(it, st, v, path, seen + (v,)))
            elif o.kind in ("list", "deque"):
                its = items_of(payload(it, st, v))
                if its is not None:
                    for i, x in enumerate(its):
                        val(x, path + (i,))
            elif o.kind == "dict":
                for k, _, x in payload(it, st, v).entries:
                    if is_const(k):
                        val(x, path + (repr(k.v),))
        elif isinstance(v, Tup):
            for i, x in enumerate(v.items):
                val(x, path + (i,))
        elif isinstance(v, Term) and v.op == "enum":
            val(v.args[1], path + ("value",))
        elif isinstance(v, Term) and v.op == "ite" and any(isinstance(x, Ref) or getattr(x, "op", 0) == "enum" for _, x in it.leaves(v)):
            out[path] = v
            subs = {}
            for g, x in it.leaves(v):
                o2 = {}
                if isinstance(x, Ref):
                    o2 = attr_paths(it, st, x, path, seen + (v,))
                elif getattr(x, "op", 0) == "enum":
                    o2 = {path + ("value",): x.args[1]}
                for k, w in o2.items():
                    subs.setdefault(k, []).append((g, w))
            for k, l in subs.items():
                t = l[-1][1]
                for g, w in reversed(l[:-1]):
                    t = it.joinv(g, w, t)
                out[k] = t
        elif isinstance(v, (Const, Term)):
            out[path] = v
    for k, w in it.locs_of(ref.oid, st):
        if not k.startswith("$"):
            val(w, path + (k,))
    return out


class ConfigEnv(AutoEnv):
    """A valuation with the instruments recorded so far given as a list of {attribute path: value}."""
    follow = True

    def __init__(self, seed, it, leaf, elems, numbers=None):
        AutoEnv.__init__(self, seed)
        self.it_, self.cleaf, self.elems = it, leaf, elems
        self.numbers = numbers or {}        # attributes that count the instruments: value of the first of elems
        inner = self.default

        def default(t):
            if t.op == "lenof" and t.args[0] is leaf:
                return len(elems)
            if t.op == "proj" and t.args[0] is leaf:
                return self.value(ev(t.args[1], self), t)
            if t.op == "seqeq":
                raise Undecided("comparison of unknown sequences")
            return inner(t)
        self.default = default

    def value(self, i, t):
        if not self.elems:
            return self.pick(t)
        if t.args[2] in self.numbers and 0 <= i:
            return self.numbers[t.args[2]] + i
        e = self.elems[i if 0 <= i < len(self.elems) else 0]
        if t.args[2] in e:
            return e[t.args[2]]
        raise Undecided("attribute path %s of a recorded instrument" % (t.args[2],))


def resolve(t, env):
    while isinstance(t, Term) and t.op == "ite":
        t = t.args[1] if ev(t.args[0], env) else t.args[2]
    return t


def flip(env, leaf):
    """Another value of the leaf's domain."""
    v = env.leaf(leaf)
    if isinstance(v, bool):
        return not v
    lo, hi = iv(leaf)
    if isinstance(v, int):
        if hi is not None and lo == hi:
            return v
        return v + 1 if hi is None or v < hi else v - 1
    raise Undecided("leaf " + show(leaf))


def flips(env, leaf, bits):
    """Values of the leaf's domain that differ in one bit: the given one (modulo the width), or in each bit in turn."""
    v = env.leaf(leaf)
    if isinstance(v, bool):
        return [not v]
    if not isinstance(v, int):
        raise Undecided("leaf " + show(leaf))
    lo, hi = iv(leaf)
    n = hi.bit_length() if hi is not None else 8
    out = []
    for b in (range(n) if bits is None else [(bits + k) % n for k in range(n)] if n else ()):
        w = v ^ (1 << b)
        if (lo is None or w >= lo) and (hi is None or w <= hi) and w not in out:
            out.append(w)
            if bits is not None:
                break
    return out or [x for x in (flip(env, leaf),) if x != v]


def instruments(run):
    run.rule("At every key write after an arbitrary history: the event refers to the first recorded instrument with exactly the same "
             "settings and operator mask; only when there is none and an operator is keyed one instrument is appended, whose number is its "
             "position; a key-off matching none refers to none.  Settings are compared through the exported JSON; every single-setting "
             "difference is tried, in single bits of each setting, in lists of up to 800 instruments.")
    m = Events(run)
    d, it = m.d, m.it
    hk, hc = m.lists(m.h)
    tk, tc = m.lists(m.t)
    if not (isinstance(hc, SeqV) and hc.segs and hc.segs[-1][0] == "o" and all(x[0] == "i" for x in hc.segs[:-1])):
        run.notes.append("instrument list at an arbitrary point: %r" % (hc,))
        raise Undecidable("instrument list has an unexpected form")
    leaf = hc.segs[-1][1]
    first = [x[1] for x in hc.segs[:-1]]
    hst = m.h["st"]
    app = [(g, r) for g, r in appended(tc) if r not in first]
    if not app:
        run.violate("no instrument is ever recorded by a key-on", APPLY, key="never")
        return
    paths = [(g, r, attr_paths(it, m.t["st"], r)) for g, r in app]
    tst = m.t["st"]

    def stored(env, v):
        """What a key-on v under env would record: {path: value}, json without id"""
        for g, r, ps in scal:
            memo = {}
            return ({p: plain_leaf(ev(t, env, memo)) for p, t in ps}, json_plain(d, tst, r, env, {"ev": memo}))

    def plain_leaf(x):
        return x[1] if isinstance(x, EnumVal) else x

    def has_ref(t, seen):
        if isinstance(t, Ref):
            return True
        if isinstance(t, Term) and t.op == "ite" and t not in seen:
            seen.add(t)
            return has_ref(t.args[1], seen) or has_ref(t.args[2], seen)
        return False

    scal = [(g, r, [(p, t) for p, t in ps.items() if not has_ref(t, set())]) for g, r, ps in paths]
    chans = range(8)
    for ch in chans:
        for vop in (range(1, 16) if run.thorough else (15, 1) if ch in (0, 7) else (15,)):
            v = vop << 3 | ch
            base = ConfigEnv(run.seed * 31 + ch * 16 + vop, it, leaf, [])
            for t_, x in ((m.w, 1), (m.r, 8), (m.v, v)):
                base.leaves[t_] = x
            s0, j0 = stored(base, v)
            numbers = {p: s0[p] for _, _, ps in scal for p, t in ps if s0[p].__class__ is int and any(
                l.op in ("lenof", "exists", "idx") and l is not m.n for l in support(t))}
            # the leaves that the stored settings depend on
            deps = sorted({l for _, _, ps in paths for t in ps.values() for l in support(t)
                           if l not in (m.w, m.r, m.v, m.n) and l.op != "idx" and l.op != "exists" and l.op != "lenof"
                           and not (l.op == "proj" and l.args[0] is leaf)}, key=key_of)
            variants = []
            for l in deps:
                try:
                    others = flips(base, l, None if run.thorough else ch)
                except Undecided:
                    continue
                for x in others:
                    e2 = ConfigEnv(base.seed, it, leaf, [])
                    e2.leaves.update(base.leaves)
                    e2.leaves[l] = x
                    s2, j2 = stored(e2, v)
                    if s2 != s0 or j2 != j0:
                        variants.append((s2, j2))
            for o2 in (1, 2, 4, 8, 15):
                if o2 != vop:
                    e2 = ConfigEnv(base.seed, it, leaf, [])
                    e2.leaves.update(base.leaves)
                    e2.leaves[m.v] = o2 << 3 | ch
                    variants.append(stored(e2, v))
            # the instruments present in every history (the one of the first key-on), made equal or different
            equal0 = ConfigEnv(base.seed, it, leaf, [])
            for r in first[:1]:
                equal0.leaves[m.ka], equal0.leaves[m.kc] = vop, ch
                for p, t in attr_paths(it, hst, r).items():
                    if p in s0:
                        t = resolve(t, equal0)
                        if isinstance(t, Term) and is_leaf(t):
                            equal0.leaves[t] = s0[p]
            same0 = bool(first) and json_plain(d, hst, first[0], equal0, {}) == j0
            if first and not same0:
                run.count("first_instrument_not_matched")
            cases = [[]] + [[x] for x in variants] + [[(s0, j0)], [variants[0], (s0, j0)], [(s0, j0), variants[-1], (s0, j0)], variants[:20], variants + [(s0, j0)]]
            long = (variants * 12)[:800]
            cases += [[(s0, j0)] + long, long + [(s0, j0)], long]
            for keyed in (v, ch):
                if keyed == ch:
                    # a key-off: the stored mask 0 never exists, so nothing matches
                    cases_ = [[], [(s0, j0)], variants[:5]]
                else:
                    cases_ = cases
                for el, eq0 in [(x, False) for x in cases_] + ([(x, True) for x in cases_[:3] + cases_[-2:]] if same0 else []):
                    run.count("lookups_evaluated")
                    env = ConfigEnv(base.seed, it, leaf, [s for s, _ in el], numbers)
                    if eq0:
                        env.leaves.update(equal0.leaves)
                    for l, x in base.leaves.items():
                        if l.op not in ("exists", "lenof", "idx") and not (l.op == "proj" and l.args[0] is leaf):
                            env.leaves[l] = x
                    env.leaves[m.v] = keyed
                    want = None
                    el = [(None, json_plain(d, hst, r, env, {})) for r in first] + el
                    if keyed == v:
                        want = next((i for i, (_, j) in enumerate(el) if j == j0), None)
                    memo = {}
                    before = m.conc_list(m.h, hk[ch], env, {})
                    new = m.conc_list(m.t, tk[ch], env, memo)[len(before):]
                    if len(new) != 1:
                        run.violate("key write 0x%02X records %d events" % (keyed, len(new)), APPLY, key="events")
                        continue
                    cid = plain(new[0]["config_id"])
                    added = [r for g, r in app if ev(g, env)]
                    n_add = sum(1 for x in m.conc_list(m.t, tc, env, {}) if not isinstance(x, Mark)) - len(first)
                    if keyed == ch:
                        if n_add or cid != -1 and not (isinstance(cid, int) and cid < 0):
                            run.violate("a key-off matching no instrument %s" % ("records one" if n_add else "refers to %r" % cid), APPLY, key="key-off")
                        continue
                    exp = len(el) if want is None else want
                    if n_add != (want is None):
                        run.violate("with %d recorded instruments%s, a key-on appends %d" % (len(el), " of which one equal" if want is not None else ", none equal", n_add), APPLY,
                                    key="append %s" % (want is None))
                    elif cid != exp:
                        run.violate("a key-on refers to instrument %r, expected %r (of %d)" % (cid, exp, len(el)), APPLY, key="id")
                    elif n_add:
                        jj = dict(json_plain(d, tst, added[0], env, {}, drop=()))
                        if jj.get("id") != len(el):
                            run.violate("the instrument appended at position %d is numbered %r" % (len(el), jj.get("id")), APPLY, key="number")
            run.count("settings_varied", len(variants))


def reach(it, st, roots, stop=()):
    """mutable objects reachable from values in a state"""
    out, todo = [], [r for v in roots for r in refs_in(v)]
    seen = set(stop)
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        out.append(r)
        for k, w in it.locs_of(r.oid, st):
            todo.extend(x for x in refs_in(w) if x not in seen)
    return out


def locmap(it, st, r):
    return {k: w for k, w in it.locs_of(r.oid, st)}


def differs(m, sa, a, sb, b, leaves):
    """a witness valuation under which a location has two values"""
    if a is b:
        return None
    for seed in range(3):
        for r in range(256):
            for v in ((0x00, 0xFF, 0x5A) if r != 8 else range(0, 256, 3)):
                env = AutoEnv(seed * 1009 + r)
                env.leaves[leaves[0]], env.leaves[leaves[1]], env.leaves[leaves[2]] = 1, r, v
                try:
                    if isinstance(a, (SeqV, DictV)) or isinstance(b, (SeqV, DictV)) or any(isinstance(x, SeqV) for t in (a, b) for x in (t.args if isinstance(t, Term) else ())):
                        x, y = [], []
                        conc_seq(m.it, sa, a, env, {}, x)
                        conc_seq(m.it, sb, b, env, {}, y)
                    else:
                        x, y = conc(m.it, sa, a, env), conc(m.it, sb, b, env)
                except Undecided:
                    return "register 0x%02X" % r
                if x != y:
                    return "register 0x%02X = 0x%02X" % (r, v)
    return None


def snapshots(run):
    run.rule("Ownership: no object reachable from a recorded event or instrument has a location that a later operation writes - checked for "
             "the objects recorded by an arbitrary step against an arbitrary next step, for the objects recorded earlier against an arbitrary "
             "step, and against both exporters.")
    m = Events(run)
    it, d = m.it, m.d
    hk, hc = m.lists(m.h)
    tk, tc = m.lists(m.t)
    x = d.one("x.state")
    if x["st"] is None:
        raise Undecidable("no second step")
    tst, xst, hst = d.one("t.state")["st"], x["st"], d.one("h.state")["st"]
    names = ["channel %d event" % c for c in range(8)] + ["instrument"]
    # recorded in this step or before it as known items
    for name, hp, tp in zip(names, hk + [hc], tk + [tc]):
        old = [v for _, v in appended(hp)]
        new = [v for _, v in appended(tp) if v not in old]
        run.count("recorded_objects", len(new) + len(old))
        for roots, sa, sb, lv in ((new, tst, xst, m.next), (old, hst, tst, (m.w, m.r, m.v, m.n)), (old, tst, xst, m.next)):
            for r in reach(it, sa, roots):
                o = it.objs[r.oid]
                if o.kind in ("env", "class", "module", "func"):
                    continue
                la, lb = locmap(it, sa, r), locmap(it, sb, r)
                for k in set(la) | set(lb):
                    run.count("locations")
                    if k not in la or k not in lb:
                        run.violate("a later operation adds or removes %s of a recorded %s" % (k, name.split(" ", 2)[-1]), APPLY, key="attr %s %s" % (name.split()[-1], k))
                        continue
                    w = differs(m, sa, la[k], sb, lb[k], lv)
                    if w:
                        run.violate("%s alters %s of a recorded %s" % (w, k if k != "$" else "the contents", name.split()[-1]), APPLY,
                                    key="alter %s %s" % (name.split()[-1], k))
    # elements of the unknown part of the records
    leaves = {s[1] for p in hk + [hc] for s in p.segs if s[0] == "o"}
    for e in it.events:
        if e["kind"] == "elem_store":
            o = e.get("origin")
            if o and isinstance(o[0], Val) and o[0] in leaves:
                run.violate("an operation stores into %s of an already recorded object" % (e["key"],), e["site"], key="elem_store %s" % (e["key"],))
    run.count("store_events", sum(1 for e in it.events if e["kind"] == "elem_store"))
    export_pure(run)


EXPORT = OBS + """
import extractors

def f(ops, tpn, tn, ins):
    s = State()
    for w, r, v, n in ops:
        step(s, w, r, v, n)
    fork("pre.rec", records, s)
    fork("pre.set", whole, s)
    extractors.extract_instruments(ins, s)
    extractors.extract_tracks_to_xrns(s, tn, tpn)
    fork("post.rec", records, s)
    fork("post.set", whole, s)

def whole(s):
    return s
"""


def export_pure(run):
    d = Driver(run, EXPORT)
    it = d.it
    st, v, pend = d.call("f", op_list(it), sym("tpn", "int", 1, None), C("tracks.xrns"), C("ins.json"))
    if st is None:
        raise Undecidable("the exporters never return")
    a, b = d.one("pre.set"), d.one("post.set")
    root = a["args"][0]
    leaves = set()
    for r in reach(it, a["st"], [root]):
        la, lb = locmap(it, a["st"], r), locmap(it, b["st"], r)
        for s in getattr(la.get("$"), "segs", ()):
            leaves.add(s[1])
        for k in set(la) | set(lb):
            run.count("export_locations")
            if la.get(k) is not lb.get(k):
                run.violate("exporting changes %s of %s" % (k, it.objs[r.oid].cls.name if it.objs[r.oid].cls else it.objs[r.oid].kind), "src/extractors.py", key="export %s" % k)
    for e in it.events:
        if e["kind"] == "elem_store":
            o = e.get("origin")
            cls = it.objs[e["oid"]].cls
            if cls is not None and cls.module is not None and cls.module.name.startswith("vgm."):
                run.violate("exporting stores into %s of a recorded %s" % (e["key"], cls.name), e["site"], key="export store %s" % e["key"])
