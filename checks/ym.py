"""C08-C14: register decode, write isolation, sample clock, key events, instruments."""
from .common import *
from . import spec

OBS = '''
from vgm.ym2151.config import create
from vgm.ym2151.state import State

def step(s, w, reg, value, n):
    if w:
        s.apply(create(reg, value))
    else:
        s.beat(n)

def settings(s):
    chans = [s.channel_config(c) for c in range(8)]
    ch = [(c.fb, c.ams, c.pms, c.connection, c.noise, c.noise_freq) for c in chans]
    op = [[(o.total_level, o.attack_rate, o.first_decay_rate, o.first_decay_level, o.second_decay_rate, o.release_rate,
            o.key_scale, o.multiply, o.first_detune, o.second_detune, o.ase) for o in c.operators] for c in chans]
    return ch, op, (s.waveform, s.lfo, s.amp_md, s.phs_md)

def pitches(s):
    out = []
    for c in range(8):
        s.apply(create(0x08, 0x78 | c))
        n = s.key_presses(c)[-1]
        out.append((n.right, n.left, n.octave, n.note, n.key_fraction))
    return out

def records(s):
    return [s.key_presses(c) for c in range(8)], s.configs

def clock(s):
    s.apply(create(0x08, 0x78))
    return s.key_presses(0)[-1].sample
'''

DECODE = OBS + '''
def f(ops, reg, value, n):
    s = State()
    for w, r, v, k in ops:
        step(s, w, r, v, k)
    fork("pre.set", settings, s)
    fork("pre.note", pitches, s)
    fork("pre.rec", records, s)
    fork("pre.clock", clock, s)
    fork("wait", after, s, 0, reg, value, n)
    fork("write", after, s, 1, reg, value, n)

def after(s, w, reg, value, n):
    step(s, w, reg, value, n)
    t = "w." if w else "b."
    fork(t + "set", settings, s)
    fork(t + "note", pitches, s)
    fork(t + "rec", records, s)
    fork(t + "clock", clock, s)
'''

OPF = ["total_level", "attack_rate", "first_decay_rate", "first_decay_level", "second_decay_rate", "release_rate",
       "key_scale", "multiply", "first_detune", "second_detune", "ase"]
CHF = ["fb", "ams", "pms", "connection", "noise", "noise_freq"]
BSF = ["waveform", "lfo", "amp_md", "phs_md"]
NTF = ["right", "left", "octave", "note", "key_fraction"]
APPLY = "src/vgm/ym2151/state.py State.apply"


def flat(it, e_set, e_note):
    """{location: term} of one observation."""
    out = {}

    def lst(e, v):
        if isinstance(v, Tup):
            return list(v.items)
        if not isinstance(v, Ref):
            raise Undecidable("observation is not a sequence: %s" % show(v))
        its = items_of(payload(it, e["st"], v))
        if its is None:
            raise Undecidable("observation is not a sequence of known length")
        return its
    for e in (e_set, e_note):
        if e["st"] is None or e.get("pend"):
            raise Undecidable("observing the state may raise: %s" % it.describe_pend(e["pend"]))
    ch, op, base = lst(e_set, e_set["args"][0])
    for c, v in enumerate(lst(e_set, ch)):
        for f, x in zip(CHF, lst(e_set, v)):
            out[("ch", c, f)] = x
    for c, v in enumerate(lst(e_set, op)):
        ops = lst(e_set, v)
        for o, w in enumerate(ops):
            for f, x in zip(OPF, lst(e_set, w)):
                out[("op", c, o, f)] = x
    for f, x in zip(BSF, lst(e_set, base)):
        out[("base", f)] = x
    for c, v in enumerate(lst(e_note, e_note["args"][0])):
        for f, x in zip(NTF, lst(e_note, v)):
            out[("note", c, f)] = x
    return out


def plain(x):
    if isinstance(x, EnumVal):
        return x[1]
    return x


class Decode:
    def __init__(self, run):
        self.run = run
        self.d = Driver(run, DECODE)
        it = self.it = self.d.it
        self.reg, self.val, self.n = sym("reg", "int", 0, 255), sym("value", "int", 0, 255), sym("n", "int", 0, None)
        st, v, pend = self.d.call("f", op_list(it), self.reg, self.val, self.n)
        if st is None:
            raise Undecidable("no history completes: " + it.describe_pend(pend))
        self.pend = pend
        w, b = self.d.one("write"), self.d.one("wait")
        for e in (w, b):
            for p in e["pend"]:
                if p.kind == "raise":
                    run.violate("a register write or wait may raise: %s" % it.describe_pend([p]), APPLY, key="raise")
        for p in pend:
            if p.kind == "raise":
                run.violate("some history of register writes and waits raises: %s" % it.describe_pend([p]), APPLY, key="raise")
        self.pre = flat(it, self.d.one("pre.set"), self.d.one("pre.note"))
        self.post = flat(it, self.d.one("w.set"), self.d.one("w.note"))
        self.wait = flat(it, self.d.one("b.set"), self.d.one("b.note"))
        if len(self.pre) != 8 * (6 + 5 + 44) + 4:
            raise Undecidable("%d setting locations instead of 444" % len(self.pre))


def loc_name(loc):
    if loc[0] == "op":
        return "channel %d operator %d %s" % loc[1:]
    if loc[0] == "base":
        return "global %s" % loc[1]
    return "channel %d %s" % loc[1:]


def decode(run, want):
    """want(kind) selects the mismatches that belong to the property: 'op', 'other', 'isolation'."""
    m = Decode(run)
    pre, post = m.pre, m.post
    seeds = [run.seed * 100 + i for i in range(3 if run.thorough else 2)]
    for reg in range(256):
        memo = {}
        sub = {m.reg: C(reg)}
        touched = sorted({l for v in (0, 0x7F, 0x80, 0xFF) for l in spec.register_effect(reg, v)})
        if want in ("op", "other"):
            locs = [l for l in touched if (l[0] == "op") == (want == "op")]
        else:
            locs = list(pre)
        for loc in locs:
            t = subst(post[loc], sub, memo)
            run.count("register_location_pairs")
            if loc not in touched:
                if t is pre[loc]:
                    continue
                # not the same term: it must at least be the same value
            envs = [AutoEnv(seed) for seed in seeds]
            if isinstance(t, Term):
                for v in (0x00, 0x4B, 0xFF):
                    envs.extend(directed([t], lambda: AutoEnv(run.seed, {m.val: v}), (m.val,), 20))
            run.count("boundary_valuations", len(envs) - len(seeds))
            for env in envs:
                p0 = plain(ev(pre[loc], env))
                bad = None
                cheap = {}
                rest = subst(t, {l: C(env.leaf(l)) for l in support_leaves(t) if l is not m.val}, cheap) if isinstance(t, Term) else t
                for v in range(256):
                    env.leaves[m.val] = v
                    g = plain(ev(rest, env))
                    w = spec.register_effect(reg, v).get(loc, p0)
                    run.count("writes_evaluated")
                    if g != w or (g is None):
                        bad = (v, g, w)
                        break
                if bad:
                    v, g, w = bad
                    if loc in touched:
                        # a wrong value of a field the register holds, or of one it must leave alone for this value
                        run.violate("register 0x%02X = 0x%02X: %s becomes %r, expected %r" % (reg, v, loc_name(loc), g, w), APPLY,
                                    key="%s %02X" % (loc[-1], reg & 0xE0 if reg >= 0x40 else reg & 0xF8 if reg >= 0x20 else reg))
                    else:
                        run.violate("register 0x%02X = 0x%02X changes %s from %r to %r" % (reg, v, loc_name(loc), w, g), APPLY,
                                    key="leak %s %02X" % (loc[-1], reg & 0xE0 if reg >= 0x40 else reg & 0xF8 if reg >= 0x20 else reg))
                    break
        run.count("registers")
    return m


def support_leaves(t):
    return support(t)


def operator_fields(run):
    run.rule("After an arbitrary history, a write of every value to every register 0x40-0xFF sets exactly the operator fields of the YM2151 "
             "table, for the channel of bits 0-2 and the slot of bits 3-4; all 192 x 256 writes evaluated on the summary.")
    decode(run, "op")
    run.sample("register 0xD3 (channel 3, slot 2), value 0xDF: DT2 3, D2R 31")


def channel_fields(run):
    run.rule("After an arbitrary history, a write of every value to every register below 0x40 sets exactly the channel, pitch and global "
             "settings of the YM2151 table; all 64 x 256 writes evaluated on the summary.")
    m = decode(run, "other")
    # and a fresh chip has everything at zero
    run.sample("register 0x19, value 0x85: PMD 5, AMD unchanged")


def isolation(run):
    run.rule("After an arbitrary history, a write to any of the 256 registers leaves every setting it does not hold as it was, records "
             "nothing unless it is the key register, and does not move time; a wait changes no setting and records nothing.")
    m = decode(run, "isolation")
    it = m.it
    for loc in m.pre:
        run.count("wait_locations")
        if m.wait[loc] is not m.pre[loc]:
            for env in [AutoEnv(seed) for seed in range(4)] + list(directed([m.wait[loc]], lambda: AutoEnv(run.seed), (), 40)):
                if plain(ev(m.wait[loc], env)) != plain(ev(m.pre[loc], env)):
                    run.violate("a wait changes %s" % loc_name(loc), "src/vgm/ym2151/state.py State.beat", key="wait " + loc[-1])
                    break
    # the records
    a = m.d.one("pre.rec")
    for tag, what, regs in (("b.rec", "a wait", [None]), ("w.rec", "register", [r for r in range(256) if r != 8])):
        b = m.d.one(tag)
        for name, x, y in rec_pairs(it, a, b):
            if x is y:
                run.count("record_lists", len(regs))
                continue
            for reg in regs:
                run.count("record_lists")
                sub = {m.reg: C(reg)} if reg is not None else {}
                yy = subst_payload(it, y, sub)
                if yy is x:
                    continue
                if not same_payload(it, a["st"], x, b["st"], yy):
                    run.violate("%s%s adds to or changes the %s" % (what, "" if reg is None else " 0x%02X" % reg, name), APPLY, key="record %s %s" % (name, what))
                    break


def rec_pairs(it, a, b):
    """[(name, payload before, payload after)] of the eight event lists and the instrument list."""
    if a["st"] is None or b["st"] is None:
        raise Undecidable("the records cannot be read")
    ka, ca = a["args"][0].items
    kb, cb = b["args"][0].items
    la, lb = items_of(payload(it, a["st"], ka)), items_of(payload(it, b["st"], kb))
    out = []
    for c, (x, y) in enumerate(zip(la, lb)):
        if not (isinstance(x, Ref) and isinstance(y, Ref)):
            raise Undecidable("the key events of a channel are not one list")
        out.append(("key events of channel %d" % c, payload(it, a["st"], x), payload(it, b["st"], y)))
    out.append(("instruments", payload(it, a["st"], ca), payload(it, b["st"], cb)))
    return out


def subst_payload(it, p, m):
    if isinstance(p, Term) and p.op == "ite":
        c = subst(p.args[0], m)
        if is_const(c):
            return subst_payload(it, p.args[1] if c.v else p.args[2], m)
        return ite(c, subst_payload(it, p.args[1], m), subst_payload(it, p.args[2], m))
    if isinstance(p, SeqV):
        segs = []
        for s in p.segs:
            if s[0] == "g":
                c = subst(s[1], m)
                if is_const(c):
                    if c.v:
                        segs.extend(subst_payload(it, SEQ(s[2]), m).segs)
                    continue
                inner = subst_payload(it, SEQ(s[2]), m).segs
                if inner:
                    segs.append(("g", c, inner))
            else:
                segs.append(s)
        return SEQ(segs)
    return p


def same_payload(it, sa, x, sb, y, seeds=6):
    for env in [AutoEnv(seed) for seed in range(seeds)] + list(directed(payload_guards(x) + payload_guards(y), lambda: AutoEnv(0), (), 30)):
        u, v = [], []
        conc_seq(it, sa, x, env, {}, u)
        conc_seq(it, sb, y, env, {}, v)
        if u != v:
            return False
    return True
