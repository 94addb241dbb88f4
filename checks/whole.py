"""C15, C16, C22, C24, C25, C28: whole histories and whole files against a model written from the documents."""
import json

from .common import *
from . import spec
from .front import API, MAIN, writes, mode_of, happens, target, exit_name, mentions, site
from .stream import vgm, FileEnv
from .ym import OBS
from .events import freeze_py


# ------------------------------------------------------------------ scripts of commands

REGS = [0x08] * 10 + [0x0F, 0x18, 0x19, 0x1B] * 2 + [0x01, 0x10, 0x14] + list(range(0x20, 0x100, 8))


def history(rng, n, calm=0.5):
    """Random register writes and waits that key, change and re-use a few settings."""
    out = []
    chans = [rng.randrange(8) for _ in range(2)] + [rng.choice((0, 7))]
    vals = [rng.randrange(256) for _ in range(3)] + [0, 0xFF, 0x80, 0x7F, 0x40]
    keyed = []
    while len(out) < n:
        x = rng.random()
        if out and out[-1][0] == "write" and rng.random() < 0.2:
            # the same again, to the register beside it, or with one bit changed
            r, v = out[-1][1:]
            how = rng.randrange(4)
            if how == 0 and r >= 0x20:
                r ^= 1 << rng.randrange(5)
            elif how == 1:
                v ^= 1 << rng.randrange(8)
            elif how == 2 and len(out) > 1 and out[-2][0] == "write":
                r, v = out[-2][1:]
            out.append(("write", r, v))
            if r == 8:
                keyed.append(out[-1])
            continue
        if x < 0.25:
            out.append(("wait", rng.choice((0, 1, 735, 882, 65535, rng.randrange(65536)))))
        elif x < 0.6:
            ch = rng.choice(chans)
            mask = rng.choice((15, 15, 0, rng.randrange(16), 1, 8))
            out.append(("write", 8, ch | mask << 3 | rng.choice((0, 0x80))))
            keyed.append(out[-1])
        elif x < 0.7 and keyed:
            out.append(rng.choice(keyed))
        elif rng.random() < 0.8:
            r = rng.choice(REGS)
            if r >= 0x20:
                r += rng.choice(chans)
            out.append(("write", r, rng.choice(vals) if r != 8 else rng.choice(vals)))
        else:
            out.append(("write", rng.randrange(256), rng.randrange(256)))
    return out


def coded(rng, h):
    """Bytes of a VGM body that says the history, with commands between that mean nothing for the YM2151."""
    out = bytearray()
    for c in h:
        if c[0] == "write":
            out += bytes((0x54, c[1], c[2]))
        else:
            n = c[1]
            if n == 735 and rng.random() < 0.7:
                out.append(0x62)
            elif n == 882 and rng.random() < 0.7:
                out.append(0x63)
            elif 1 <= n <= 16 and rng.random() < 0.7:
                out.append(0x6F + n)
            elif n <= 15 and rng.random() < 0.5:
                out.append(0x80 + n)
            else:
                out += b"\x61" + n.to_bytes(2, "little")
        if rng.random() < 0.15:
            op = rng.choice((0x50, 0x52, 0x55, 0x30, 0x40, 0x4F, 0x90, 0x92, 0x93, 0xA0, 0xA4, 0xB0, 0xC0, 0xD0, 0xE0, 0xFF, 0x95, 0x94, 0x67, 0x5F, 0x7F))
            if op == 0x67:
                k = rng.choice((0, 1, 7, 300))
                out += b"\x67\x66\x00" + k.to_bytes(4, "little") + bytes(rng.randrange(256) for _ in range(k))
            elif op != 0x7F:
                out += bytes([op]) + bytes(rng.choice((0x54, 8, 0x66, rng.randrange(256))) for _ in range(spec.operand_bytes(op)))
            else:
                out.append(0x7F)
    return bytes(out)


def songs(run):
    """[(what, uncompressed VGM file)]"""
    rng = run.rng
    key = b"\x54\x08\x78"
    out = [("no commands", vgm(b"\x66")), ("an empty body", vgm(b"")), ("a key-on", vgm(key + b"\x66")), ("a key-on without an end", vgm(key)),
           ("a key-off", vgm(b"\x54\x08\x00\x66")),
           ("a key-on after the end", vgm(b"\x66" + key + b"\x66")),
           ("writes after the end", vgm(key + b"\x66\x54\x60\x11" + key + b"\x62")),
           ("a key-on in a data block", vgm(b"\x67\x66\x00\x03\0\0\0" + key + b"\x66")),
           ("a key-on for another chip", vgm(b"\x52\x08\x78\xA4\x08\x78\x66")),
           ("version 1.01", vgm(key + b"\x54\x20\xC7" + key + b"\x66", version=0x101)),
           ("a long header", vgm(b"\x54\x20\xC7" + key + b"\x66", version=0x171, rel=0xCC)),
           ("a setting there and back", vgm(key + b"\x54\x60\x11" + key + b"\x54\x60\x00" + key + b"\x66"))]
    for k in range(16 if run.thorough else 6):
        n = rng.choice((4, 10, 20, 40)) if k else 120 if run.thorough else 60
        h = history(rng, n)
        body = coded(rng, h) + (b"\x66" + coded(rng, history(rng, 3)) if rng.random() < 0.5 else b"\x66" if rng.random() < 0.7 else b"")
        out.append(("%d random commands" % n, vgm(body, version=rng.choice((0x101, 0x110, 0x150, 0x151, 0x171)))))
    out.append(("258 instruments", vgm(b"".join(b"\x54" + bytes(c[1:]) for c in many(258)) + b"\x66")))
    # commands that mean nothing for the YM2151 between key-ons of ever new instruments
    ops = [x for x in range(256) if x not in (0x54, 0x61, 0x62, 0x63, 0x66, 0x67, 0x68) and not 0x70 <= x <= 0x8F]
    rng.shuffle(ops)
    ops = ops if run.thorough else ops[:20]
    for i in range(0, len(ops), 22):
        body = key
        for k, op in enumerate(ops[i:i + 22]):
            body += bytes([op]) + bytes(rng.choice((0x54, 8, 0x66, 0x78)) for _ in range(spec.operand_bytes(op))) + b"\x54\x60" + bytes([k + 1]) + key
            if k % 6 == 2:
                size = rng.choice((0, 1, 7, 66))
                body += b"\x67\x66" + bytes([rng.randrange(256)]) + size.to_bytes(4, "little") + (key * 40)[:size] + b"\x54\x18" + bytes([k + 1]) + key
        out.append(("key-ons between commands %s" % ", ".join("%02X" % x for x in ops[i:i + 4]), vgm(body + b"\x66", clock51=rng.choice((0, 3579545)))))
    for c13, c51 in ((0, 0), (1, 0), (0, 0x80000000 | 4000000)):
        out.append(("the chip clocks %d and %d" % (c13, c51), vgm(key + b"\x54\x60\x11" + key + b"\x66", clock13=c13, clock51=c51, version=rng.choice((0x101, 0x151)))))
    # each instrument setting alone makes another instrument
    regs = [(0x0F, 0x80), (0x0F, 0x01), (0x18, 1), (0x19, 1), (0x19, 0x81), (0x1B, 2)] + [(r + 7, 1 << b) for r in (0x20, 0x38) for b in range(7) if spec.register_effect(r + 7, 1 << b)]
    regs += [(r + 8 * o + 7, v) for r, v in ((0x40, 0x10), (0x40, 1), (0x60, 1), (0x80, 0x40), (0x80, 1), (0xA0, 0x80), (0xA0, 1), (0xC0, 0x40), (0xC0, 1), (0xE0, 0x10), (0xE0, 1)) for o in range(4)]
    for i in range(0, len(regs), 12):
        body = b"".join(b"\x54" + bytes(rv) + b"\x54\x08\x7F" + b"\x54" + bytes((rv[0], 0x80 if rv == (0x19, 0x81) else 0)) for rv in regs[i:i + 12])
        out.append(("each setting %d-%d alone" % (i, i + 11), vgm(body + b"\x66")))
    return out


class MainModel:
    def __init__(self, run):
        self.d = Driver(run, API)
        it = self.it = self.d.it
        self.fn, self.i, self.t, self.tpn = sym("fn", "str"), sym("i", "str"), sym("t", "str"), sym("tpn", "int", 0, None)
        self.st, self.v, self.pend = self.d.call("run", self.fn, self.i, self.t, self.tpn)
        self.js = [e for e in it.events if e["kind"] == "json"]
        self.opens = [e for e in it.events if e["kind"] == "open"]

    def env(self, content, fn="x.vgm", i="i.json", t="t.xrns", tpn=735, gz=None):
        e = IoEnv(1, streams={("open", self.fn): content, "stdin": content}, it=self.it)
        if gz is not None:
            e.streams[("gunzip", ("open", self.fn))] = gz
            e.streams[("gunzip", "stdin")] = gz
        e.leaves.update({self.fn: fn, self.i: i, self.t: t, self.tpn: tpn, HOST_LITTLE: True})
        return e

    def ending(self, env, memo):
        """('return'|'raise', exception name or '', pending)"""
        for p in self.pend:
            if all(ev(c, env, memo) for c in p.state.pc):
                o = self.it.objs[p.value.oid] if isinstance(p.value, Ref) else None
                return "raise", o.cls.name if o is not None and o.cls else "?", p
        if self.st is not None and all(ev(c, env, memo) for c in self.st.pc):
            return "return", "", None
        raise Undecided("no ending")


class IoEnv(FileEnv):
    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith(("iofails", "openfails")):
            return False
        return FileEnv.pick(self, t)


# ------------------------------------------------------------------ C22: file to instruments

def file_instruments(run):
    run.rule("main() is summarised once for an unknown file; its instrument list is evaluated for VGM files with known bytes - raw, "
             "gzip-compressed, from standard input - and compared with a player written from the documents.")
    m = MainModel(run)
    it = m.it
    if not m.js:
        run.violate("main() writes no instruments", MAIN, key="none")
        return
    for what, data in songs(run):
        want = spec.play(spec.commands(data)).json()
        for how in ("raw", "gzip", "stdin"):
            if how != "raw" and len(data) > 400:
                continue
            env = m.env(b"\x1f\x8b\x08" + bytes(20) if how == "gzip" else data, gz=data if how == "gzip" else None, fn="-" if how == "stdin" else "x.vgm",
                        i="-" if how == "gzip" else "i.json", t="")
            memo = {}
            hits = [e for e in m.js if happens(e, env, memo)]
            run.count("files_evaluated")
            if len(hits) != 1:
                run.violate("%s (%s): %d instrument lists are made (%s)" % (what, how, len(hits), m.ending(env, memo)[:2]), MAIN, key="lists")
                continue
            got = conc(it, hits[0]["st"], hits[0]["tree"], env, {"ev": memo})
            run.count("instruments_compared", len(want))
            if any(isinstance(x, Mark) for x in walk_py(got)):
                raise Undecidable("%s: the instrument list is %s" % (what, str(got)[:120]))
            if freeze_py(got) != freeze_py(want):
                run.violate("%s (%s): the instruments are not those keyed: %s" % (what, how, differ(got, want)), site(hits[0]), key="instruments")


def walk_py(x):
    yield x
    if isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from walk_py(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from walk_py(v)


def differ(a, b, path="list"):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%d entries instead of %d" % (len(a), len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            if freeze_py(x) != freeze_py(y):
                return differ(x, y, "%s[%d]" % (path, k))
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s is %s" % (path, k, "missing" if k not in a else "superfluous")
            if freeze_py(a[k]) != freeze_py(b[k]):
                return differ(a[k], b[k], "%s.%s" % (path, k))
    return "%s is %r, expected %r" % (path, a, b)


# ------------------------------------------------------------------ C28: refusal

def refusal(run):
    run.rule("main() evaluated for contents that are no VGM file or a cut one: it must not end normally, and no output may have been opened; "
             "outputs open only after the whole input was read.")
    m = MainModel(run)
    good = vgm(b"\x54\x20\xC7\x54\x08\x78\x62\x61\x10\x20\x66")
    bad = [(b"", "an empty file")] + [(good[:k], "the first %d bytes of a VGM file" % k) for k in range(1, 4)]
    bad += [(bytes(good[:i] + bytes([good[i] ^ (1 << b)]) + good[i + 1:]), "signature byte %d damaged" % i) for i in range(4) for b in range(8)]
    bad += [(b"RIFF" + bytes(100), "a RIFF file"), (bytes(200), "zeros"), (b"VGM " + good[4:], "'VGM '"), (b" Vgm" + good, "a VGM file after a blank")]
    for k in range(4, 0x38):
        bad.append((good[:k], "a header cut at 0x%02X" % k))
    old = vgm(b"\x54\x08\x78\x66", version=0x101)
    bad += [(old[:k], "an old header cut at 0x%02X" % k) for k in range(4, 0x34)]
    for op, n in ((0x54, 2), (0x61, 2), (0x67, 6)):
        for k in range(n):
            for pre in (b"", b"\x54\x08\x78\x62", b"\x54\x20\xC7\x54\x08\x78\x61\x10\x20\x54\x08\x00"):
                bad.append((vgm(pre + bytes([op]) + b"\x66\x01\x01\x01\x01\x01"[:k]), "0x%02X cut after %d operand bytes" % (op, k)))
    for data, what in bad:
        for how in ("raw", "gzip"):
            for i, t in (("i", "t"), ("-", ""), ("", "t")):
                env = m.env(data if how == "raw" else b"\x1f\x8b\x08" + bytes(20), i=i, t=t, gz=data if how == "gzip" else None)
                memo = {}
                end = m.ending(env, memo)
                run.count("refusals_evaluated")
                if end[0] == "return":
                    run.violate("%s (%s) is accepted: the program ends normally" % (what, how), MAIN, key="accepted " + what.split(" ")[0])
                    continue
                for e in m.opens:
                    if writes(mode_of(e)) and happens(e, env, memo):
                        run.violate("%s (%s): an output is opened before the input is found unusable" % (what, how), site(e), key="output")
                for e in m.it.events:
                    if e["kind"] == "file" and e["what"] == "write" and happens(e, env, memo) and not e.get("console"):
                        run.violate("%s (%s): output is written" % (what, how), site(e), key="output")
    # a good file ends normally
    for data in (good, old, vgm(b"")):
        for tpn in (1, 735, 44100, 661500):
            env = m.env(data, tpn=tpn)
            end = m.ending(env, {})
            run.count("acceptances_evaluated")
            if end[0] != "return":
                run.violate("a valid VGM file ends with %s" % exit_name(m.it, end[2]), MAIN, key="refused")


# ------------------------------------------------------------------ C25: the command sequence

LOOK = '''
import main
import json
from vgm.command import WaitCommand, EOSCommand, VgmCommand
from vgm.ym2151.config import YM2151Command, ConfigEncoder

def mk(k, i, a, b):
    if k == 0:
        return YM2151Command(0x54, a, b)
    if k == 1:
        return WaitCommand(i, a)
    if k == 2:
        return EOSCommand(0x66)
    return VgmCommand(i, bytes([a, b]))

def look(s):
    fork("set", settings, s)
    fork("rec", events, s)
    fork("note", pitches, s)
    fork("clock", clock, s)
    fork("json", js, s)

def events(s):
    return [s.key_presses(c) for c in range(8)]

def js(s):
    return json.dumps(s.configs, cls=ConfigEncoder)
'''

SEQ_SRC = OBS + LOOK + '''
def f(script):
    look(main.process_vgm_file([mk(*x) for x in script]))
'''


class Looked:
    """Everything observable of the state a driver ends in, to be compared with spec.Chip."""

    def __init__(self, run, src, *args):
        self.d = Driver(run, src)
        self.it = it = self.d.it
        it.sim_all = True
        args = [a(it) if callable(a) else a for a in args]
        self.args = args
        self.st, self.v, self.pend = self.d.call("f", *args)
        if self.st is None:
            raise Undecidable("the replay never ends normally: %s" % it.describe_pend(self.pend))
        from .ym import flat
        self.flat = flat(it, self.d.one("set"), self.d.one("note"))
        self.rec, self.clk = self.d.one("rec"), self.d.one("clock")
        js = [e for e in it.events if e["kind"] == "json"]
        if len(js) != 1:
            raise Undecidable("the JSON of the instruments is made %d times" % len(js))
        self.js = js[0]

    def check(self, run, env, cmds, what, where):
        it, memo = self.it, {}
        for p in self.pend:
            if p.kind == "raise" and all(ev(c, env, memo) for c in p.state.pc):
                run.violate("%s: raises %s" % (what, it.describe_pend([p])), where, key="raises")
                return
        ref = spec.play(cmds)
        from .ym import plain, loc_name
        for loc, t in self.flat.items():
            g, w = plain(ev(t, env, memo)), ref.get(*loc)
            run.count("settings_compared")
            if g != w:
                run.violate("%s: %s is %r, expected %r" % (what, loc_name(loc), g, w), where, key="settings")
                return
        g = ev(self.clk["args"][0], env, memo)
        if g != ref.now:
            run.violate("%s: time stands at %r, expected %r" % (what, g, ref.now), where, key="clock")
        got = conc(it, self.rec["st"], self.rec["args"][0], env, {"ev": memo})
        for ch in range(8):
            run.count("event_lists_compared")
            evs = []
            for n in got[ch]:
                if isinstance(n, Mark):
                    raise Undecidable("%s: the key events of channel %d are %s" % (what, ch, str(got[ch])[:100]))
                c = dict(n)
                for x in list(c.values()):
                    if isinstance(x, dict):
                        c.update(x)
                evs.append((c.get("sample"), c.get("config_id"), tuple(c.get(f) for f in spec.NOTE_FIELDS)))
            if evs != ref.events[ch]:
                k = next((i for i, (a, b) in enumerate(zip(evs, ref.events[ch])) if a != b), min(len(evs), len(ref.events[ch])))
                run.violate("%s: channel %d has %d key events instead of %d; number %d is %s, expected %s" % (
                    what, ch, len(evs), len(ref.events[ch]), k, evs[k:k + 1], ref.events[ch][k:k + 1]), where, key="events")
                return
        got = conc(it, self.js["st"], self.js["tree"], env, {"ev": memo})
        if any(isinstance(x, Mark) for x in walk_py(got)):
            raise Undecidable("%s: the instrument list is %s" % (what, str(got)[:120]))
        run.count("instrument_lists_compared")
        if freeze_py(got) != freeze_py(ref.json()):
            run.violate("%s: instruments: %s" % (what, differ(got, ref.json())), where, key="json")


class ScriptEnv(AutoEnv):
    """The elements of the script are known."""
    follow = True

    def __init__(self, it, script, rows, name="script"):
        AutoEnv.__init__(self, 1, it=it)
        self.rows, self.name = rows, name

    def given_seq(self, leaf):
        return self.rows if leaf.op == "sym" and leaf.args[0] == self.name else None

    def pick(self, t):
        if t.op == "lenof" and t.args[0].op == "sym" and t.args[0].args[0] == self.name:
            return len(self.rows)
        if t.op == "proj" and t.args[0].op == "sym" and t.args[0].args[0] == self.name:
            k = ev(t.args[1], self, {})
            return self.rows[k][t.args[2][0]]
        raise Undecided("leaf %s" % show(t))


def rows_of(rng, h):
    """Script rows (kind, id, a, b) that say the history."""
    out = []
    for c in h:
        if c[0] == "write":
            out.append((0, 0x54, c[1], c[2]))
        elif c[0] == "wait":
            n = c[1]
            out.append((1, 0x6F + n if 1 <= n <= 16 and rng.random() < 0.5 else rng.choice((0x61, 0x61, 0x62, 0x63, 0x80)), n, 0))
        if rng.random() < 0.1:
            out.append((3, rng.choice((0x50, 0x54, 0x61, 0x62, 0x66, 0x67, 0x70, 8)), rng.choice((8, 0x20)), 0x78))
    return out


def command_sequence(run):
    run.rule("process_vgm_file() is summarised for a command list of unknown length and compared, for long command lists, with a player written "
             "from the documents: settings, pitches, time, key events and instruments all have to agree; nothing after the end counts.")
    L = Looked(run, SEQ_SRC, lambda it: seq_of(it, "script", ("tuple", ("scalar", "int", (0, 3)), BYTE, NAT, BYTE)))
    for bit in range(8):
        # writes of one value to registers that differ in one bit, writes to one register that differ in one bit, and back
        h = []
        for r in run.rng.sample(range(0x18, 0x100), 24 if run.thorough else 8) + [0x0F, 8]:
            v = run.rng.randrange(256)
            h += [("write", r, v), ("write", r ^ 1 << bit, v), ("write", r, v), ("wait", (0, 1, 735)[len(h) % 3]), ("write", r, v ^ 1 << bit), ("write", r, v ^ 1 << bit), ("write", 8, v)]
        env = ScriptEnv(L.it, L.args[0], rows_of(run.rng, h))
        run.count("command_lists_evaluated")
        run.count("commands_evaluated", len(h))
        L.check(run, env, h, "%d related commands" % len(h), MAIN)
    for k in range(24 if run.thorough else 10):
        n = (0, 1, 2, 5, 12, 25, 50, 50, 80, 120)[k % 10] if run.thorough else (0, 1, 3, 8, 15, 25, 40, 60)[k % 8]
        h = history(run.rng, n)
        rows = rows_of(run.rng, h)
        if k % 2:
            # the end comes earlier
            cut = run.rng.randrange(len(h) + 1)
            rows = rows_of(run.rng, h[:cut]) + [(2, 0x66, 0, 0)] + rows_of(run.rng, h[cut:]) + [(2, 0x66, 0, 0), (1, 0x61, 5, 0), (0, 0x54, 8, 0x78), (0, 0x54, 0x60, 9)]
            h = h[:cut]
        env = ScriptEnv(L.it, L.args[0], rows)
        run.count("command_lists_evaluated")
        run.count("commands_evaluated", len(rows))
        L.check(run, env, h, "%d commands%s" % (len(rows), " with an early end" if k % 2 else ""), MAIN)


# ------------------------------------------------------------------ C16: the instrument file

INSTR_SRC = API + OBS + LOOK + '''
def f(name, ops):
    s = State()
    for w, r, v, k in ops:
        step(s, w, r, v, k)
    fork("before", whole, s)
    instr(name, s)
    fork("after", whole, s)

def whole(s):
    return [s.key_presses(c) for c in range(8)], s.configs
'''

BLANK = set(" \t\r\n")


def op_rows(h):
    """Rows of op_list that say the history."""
    return [(1, c[1], c[2], 0) if c[0] == "write" else (0, 0, 0, c[1]) for c in h]


def pieces(v, env, memo, texts):
    """A written text in order: constant strings and JSON texts."""
    v = ev_text(v, env, memo, texts)
    if v in texts:
        return [v]
    if isinstance(v, Term) and v.op == "fmt":
        out = []
        for x in v.args[0] if v.args and v.args[0].__class__ is tuple else v.args:
            if isinstance(x, (str,)):
                out.append(x)
            elif isinstance(x, Val):
                out += pieces(x, env, memo, texts)
            else:
                raise Undecided("written text %s" % show(v))
        return out
    if isinstance(v, Const) and isinstance(v.v, str):
        return [v.v]
    if isinstance(v, str):
        return [v]
    if isinstance(v, Term) and v.op in ("scat", "concat", "cat"):
        return [p for x in v.args for p in pieces(x, env, memo, texts)]
    raise Undecided("written text %s" % show(v)[:80])


def ev_text(v, env, memo, texts):
    while isinstance(v, Term) and v.op == "ite":
        v = v.args[1] if ev(v.args[0], env, memo) else v.args[2]
    if v in texts or not isinstance(v, Term):
        return v
    if not any(mentions(v, t) for t in texts):
        return ev(v, env, memo)
    return v


def typed(x):
    """Booleans, integers and floats apart."""
    if isinstance(x, dict):
        return tuple(sorted((str(k), typed(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)) and x.__class__.__name__ != "EnumVal":
        return tuple(typed(v) for v in x)
    return (type(x).__name__, x)


class HistEnv(ScriptEnv):
    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith(("iofails", "openfails")):
            return False
        if t.op == "lenof":
            for e in self.it.events:
                if e["kind"] == "json" and e["text"] is t.args[0]:
                    ind = e["kw"].get("indent", NONE)
                    if set(e["kw"]) - {"indent", "cls"} or ind is not NONE and not is_const(ind):
                        break
                    return len(json.dumps(plain_py(conc(self.it, e["st"], e["tree"], self, {})), indent=ind.v if ind is not NONE else None))
        return ScriptEnv.pick(self, t)


def instrument_file(run):
    run.rule("extract_instruments() is summarised after a history of unknown length. For concrete histories the written text - one JSON text "
             "between blanks, to the requested file - is compared in value and type with the instruments of a player written from the documents.")
    d = Driver(run, INSTR_SRC)
    it = d.it
    it.sim_all = True
    name, ops = sym("name", "str"), op_list(it)
    st, v, pend = d.call("f", name, ops)
    js = [e for e in it.events if e["kind"] == "json"]
    texts = [e["text"] for e in js]
    where = "src/extractors.py extract_instruments"
    cases = [("no commands", []), ("a key-off", [("write", 8, 0)]), ("a wait", [("wait", 9)]), ("one key-on", [("write", 8, 0x7B)])]
    cases += [("a single operator keyed", [("write", 8, 1 << k | 3)]) for k in (3, 4, 5, 6)]
    cases += [("the noise of channel 7", [("write", 0x0F, 0x9F), ("write", 8, 0x7F), ("write", 8, 0x7E)])]
    for k in range(16 if run.thorough else 8):
        n = (5, 12, 30, 60, 9, 40, 80, 120)[k % 8] if run.thorough else (5, 12, 30, 60, 9, 20, 25, 40)[k % 8]
        cases.append(("%d random operations" % n, history(run.rng, n)))
    full = []
    for reg in [0x0F, 0x18, 0x19, 0x1B] + list(range(0x20, 0x100, 8)):
        full += [("write", reg + (5 if reg >= 0x20 else 0), 0xA5), ("write", 8, 0x7D)]
    cases.append(("a change of every register", full))
    cases.append(("every bit set", [("write", r, 0xFF) for r in [0x0F, 0x18, 0x19, 0x1B] + list(range(0x27, 0x100, 8))] + [("write", 0x19, 0x7F), ("write", 8, 0x7F)]))
    bits = []
    for r in [0x0F, 0x18, 0x19, 0x1B] + list(range(0x27, 0x100, 8)):
        for b in range(8):
            v = 1 << b if (r, b) != (0x19, 7) else 0xFF
            bits.append((("write", r, v), ("write", 8, 0x7F), ("write", r, 0x80 if (r, b) == (0x19, 7) else 0)))
    for k in range(0, len(bits), 64):
        cases.append(("each bit of each register alone", [x for b in bits[k:k + 64] for x in b]))
    cases.append(("258 instruments", many(258)))
    for k, (what, h) in enumerate(cases):
        fname = ("out.json", "a b/c.json", "-", "x")[k % 4]
        env = HistEnv(it, ops, op_rows(h), name="ops")
        env.leaves[name] = fname
        memo = {}
        for p in pend:
            if all(ev(c, env, memo) for c in p.state.pc):
                run.violate("%s: %s" % (what, it.describe_pend([p])), where, key="raises")
        run.count("histories_evaluated")
        opened = [ev(e["path"], env, memo) for e in it.events if e["kind"] == "open" and happens(e, env, memo)]
        if opened != ([fname] if fname != "-" else []):
            run.violate("%s: instruments requested to %r open %s" % (what, fname, opened), where, key="target")
        out, to = [], set()
        for e in it.events:
            if e["kind"] == "write" and happens(e, env, memo):
                if e.get("plain") and not any(mentions(e["data"], t) for t in texts):
                    continue
                if e["loops"]:
                    raise Undecidable("the instrument file is written by a loop")
                out += pieces(e["data"], env, memo, texts)
                to.add(str(target(it, e["ref"], env, memo)))
        if to != {fname}:
            run.violate("%s: instruments requested to %r are written to %s" % (what, fname, sorted(to)), where, key="target")
        body = [x for x in out if not (isinstance(x, str) and set(x) <= BLANK)]
        if len(body) != 1 or isinstance(body[0], str):
            run.violate("%s: the file holds %s instead of one JSON text" % (what, [show(x)[:20] if isinstance(x, Val) else x[:20] for x in body]), where, key="text")
            continue
        e = next(x for x in js if x["text"] is body[0])
        sep = e["kw"].get("separators")
        if sep is not None and sep is not NONE:
            w = [x.v.strip() for x in sep.items] if isinstance(sep, Tup) and all(is_const(x) for x in sep.items) else sep
            if w != [",", ":"]:
                run.violate("the JSON text is written with the separators %s" % (w,), where, key="separators")
        ind = e["kw"].get("indent")
        if ind is not None and is_const(ind) and isinstance(ind.v, str) and not set(ind.v) <= BLANK:
            run.violate("the JSON text is indented with %r" % ind.v, where, key="indent")
        got = conc(it, e["st"], e["tree"], env, {"ev": memo})
        if any(isinstance(x, Mark) for x in walk_py(got)):
            raise Undecidable("%s: the instrument list is %s" % (what, str(got)[:120]))
        want = spec.play(h).json()
        run.count("instruments_compared", len(want))
        if typed(plain_py(got)) != typed(want):
            run.violate("%s: the instrument file differs: %s" % (what, differ_typed(plain_py(got), want)), where, key="json")


def many(n):
    """Key-ons of n different instruments, now and then of an old one."""
    h = []
    for k in range(n):
        h += [("write", 0x60, k & 0x7F), ("write", 0x68, k >> 7), ("write", 8, 0x78)]
        if k % 64 == 63:
            h += [("write", 0x60, 3), ("write", 0x68, 0), ("write", 8, 0x78)]
    return h


def plain_py(x):
    if isinstance(x, dict):
        return {k: plain_py(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain_py(v) for v in x]
    return x


def differ_typed(a, b):
    d = differ(a, b)
    return d if freeze_py(a) != freeze_py(b) else "a value has another type (%s)" % [
        (k, v, w) for x, y in zip(a, b) for k, v, w in leaf_types(x, y)][:3]


def leaf_types(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            yield from leaf_types(a[k], b.get(k), path + "." + str(k))
    elif type(a) is not type(b):
        yield path, a, b


# ------------------------------------------------------------------ C24: the estimate

EST_SRC = OBS + '''
def f(ops):
    s = State()
    for w, r, v, k in ops:
        step(s, w, r, v, k)
    fork("a.ticks", ticks, s)
    obs("a.", s)
    fork("est", est, s)
    fork("quiet", quiet, s)
    s.ticks_per_note(show_progress=True)
    s.ticks()
    obs("b.", s)
    fork("b.ticks", ticks, s)

def obs(t, s):
    fork(t + "set", settings, s)
    fork(t + "note", pitches, s)
    fork(t + "clock", clock, s)
    fork(t + "rec", records, s)

def est(s):
    return s.ticks_per_note(show_progress=True)

def quiet(s):
    return s.ticks_per_note()

def ticks(s):
    return s.ticks()
'''


def steady(rng, T_, n, ch, t0=0, noise=True):
    """n key-ons at distance T_, the first at t0, with commands between that are no key-ons."""
    h = [("wait", t0)] if t0 else []
    for k in range(n):
        h.append(("write", 8, 0x78 | (ch + k) % 8))
        if noise and k % 2:
            d = rng.randrange(1, T_)
            h += [("wait", d), ("write", 8, (ch + k) % 8), ("write", 0x60 + k, k), ("wait", T_ - d)]
        else:
            h.append(("wait", T_))
    return h


def estimate(run):
    run.rule("The interval of ticks_per_note()'s result is computed for every history and must lie in 1000..7999; the state after it has to equal the "
             "state before; ticks() is compared with the key-on times of a player written from the documents; the estimate of steady tunes, "
             "followed through all 7000 candidates, must be their distance.")
    d = Driver(run, EST_SRC)
    it = d.it
    it.sim_all = True
    ops = op_list(it)
    st, v, pend = d.call("f", ops)
    where = "src/vgm/ym2151/state.py State.ticks_per_note"
    from .ym import flat, rec_pairs, plain, loc_name
    bounded = True
    for tag in ("est", "quiet"):
        e = d.one(tag)
        run.count("estimates")
        for p in e["pend"]:
            if p.kind == "raise":
                p0 = [c for c in p.state.pc]
                from .front import feasible
                if feasible(it, p0[len(e["pc"]):], p0, run) is not None:
                    run.violate("the estimate may raise: %s" % it.describe_pend([p]), where, key="raise")
        lo, hi = iv(e["args"][0]) if isinstance(e["args"][0], (Term, Const)) else (None, None)
        run.sample("%s: interval %s..%s" % (tag, lo, hi))
        if lo is None or hi is None or lo < 1000 or hi > 7999:
            bounded = False
    A, B = flat(it, d.one("a.set"), d.one("a.note")), flat(it, d.one("b.set"), d.one("b.note"))
    rest = [k for k in A if A[k] is not B[k]]
    run.count("settings_compared", len(A))
    cases = [("no events", []), ("one key-on", [("write", 8, 0x78)]), ("key-offs", [("write", 8, 0x78), ("wait", 5000), ("write", 8, 0), ("wait", 735), ("write", 8, 1)]),
             ("two at once", [("write", 8, 0x78), ("write", 8, 0x79), ("wait", 1000), ("write", 8, 0x78), ("write", 8, 0x7A)])]
    for k in range(12 if run.thorough else 6):
        cases.append(("%d random operations" % (10 * k + 4), history(run.rng, 10 * k + 4)))
    for n in (140,) if run.thorough else (70,):
        h = []
        for k in range(n):
            h += [("wait", run.rng.choice((0, 1, 7, 300, 1000, 40000))), ("write", 8, (0x78 if k % 3 else 0) | run.rng.randrange(8))]
        cases.append(("%d key writes" % n, h))
    for c in range(8):
        cases.append(("a key-off of channel %d alone" % c, [("write", 8, 0x78 | (c + 1) % 8), ("wait", 2000), ("write", 8, 0x80 | c)]))
    ca, cb, ra, rb = d.one("a.clock"), d.one("b.clock"), d.one("a.rec"), d.one("b.rec")
    ta, tb = d.one("a.ticks"), d.one("b.ticks")
    for what, h in cases:
        env = HistEnv(it, ops, op_rows(h), name="ops")
        memo = {}
        run.count("histories_evaluated")
        ref = spec.play(h)
        for e, when in ((ta, "before"), (tb, "after")):
            got = conc(it, e["st"], e["args"][0], env, {"ev": memo})
            run.count("tick_lists_compared")
            if not isinstance(got, (list, tuple)) or any(isinstance(x, Mark) for x in got):
                raise Undecidable("ticks() of %s is %s" % (what, got))
            if list(got) != sorted(ref.beats):
                run.violate("%s: ticks() %s the estimate is %s, key-ons were at %s" % (what, when, got[:8], sorted(ref.beats)[:8]), "src/vgm/ym2151/state.py State.ticks", key="ticks " + when)
        for k in rest:
            if ev(A[k], env, memo) != ev(B[k], env, memo):
                run.violate("%s: the estimate changes %s" % (what, loc_name(k)), where, key="changes settings")
        if ev(ca["args"][0], env, memo) != ev(cb["args"][0], env, memo):
            run.violate("%s: the estimate changes the time" % what, where, key="changes time")
        if conc(it, ra["st"], ra["args"][0], env, {"ev": memo}) != conc(it, rb["st"], rb["args"][0], env, {"ev": memo}):
            run.violate("%s: the estimate changes the recorded events or instruments" % what, where, key="changes records")
    rng = run.rng
    tunes = [(1000, 5, 0, 0), (7999, 3, 6, 1), (7999, 2, 2, 24000), (rng.randrange(1100, 3900), 4, 3, rng.randrange(20000))]
    if run.thorough:
        tunes += [(7998, 5, 2, 0), (1001, 9, 0, 0), (4000, 8, 0, 0), (735 * 6, 3, 5, 735), (2646, 2, 7, 9000), (5512, 4, 1, 0)]
    for T_, n, ch, t0 in tunes:
        env = HistEnv(it, ops, op_rows(steady(rng, T_, n, ch, t0)), name="ops")
        tag = "est" if n % 2 else "quiet"
        x = ev(d.one(tag)["args"][0], env, {})
        run.count("steady_tunes_evaluated")
        if x != T_:
            run.violate("%d key-ons at distance %d, the first at %d, are estimated at %s ticks per note" % (n, T_, t0, x), where, key="steady")
    if not bounded:
        far = [("key-ons at distance %d" % g, [("write", 8, 0x78), ("wait", g), ("write", 8, 0x79)]) for g in (1, 999, 1001, 7999, 8000, 8001, 14000, 15000, 31999, 32000, 40000)]
        for what, h in cases[:4] + far:
            env = HistEnv(it, ops, op_rows(h), name="ops")
            x = ev(d.one("est")["args"][0], env, {})
            run.count("estimates_evaluated")
            if not 1000 <= x <= 7999:
                run.violate("%s: the estimate is %r" % (what, x), where, key="range")
        if not run.violations:
            raise Undecidable("the interval of the estimate is %s..%s" % (lo, hi))


# ------------------------------------------------------------------ C15: settings compare and copy by value

OPF = list(spec.OPERATOR_FIELDS)
CMP_SRC = '''
import copy
from vgm.ym2151.config import BaseConfig, ChannelConfig, OperatorConfig, NoteConfig, Config, Operators, Waveform

def op(v):
    o = OperatorConfig()
    (o.total_level, o.attack_rate, o.first_decay_rate, o.first_decay_level, o.second_decay_rate, o.release_rate,
     o.key_scale, o.multiply, o.first_detune, o.second_detune) = v[:10]
    o.ase = v[10] > 0
    return o

def ch(v):
    c = ChannelConfig()
    c.fb, c.ams, c.pms, c.connection = v[:4]
    c.noise = v[4] > 0
    c.noise_freq = v[5]
    for i in range(4):
        p, w = c.operators[i], v[6 + 11 * i:17 + 11 * i]
        (p.total_level, p.attack_rate, p.first_decay_rate, p.first_decay_level, p.second_decay_rate, p.release_rate,
         p.key_scale, p.multiply, p.first_detune, p.second_detune) = w[:10]
        p.ase = w[10] > 0
    return c

def base(v):
    b = BaseConfig()
    b.waveform = Waveform(v[0])
    b.lfo, b.amp_md, b.phs_md = v[1:]
    return b

def note(v):
    n = NoteConfig()
    n.right, n.left = v[0] > 0, v[1] > 0
    n.octave, n.note, n.key_fraction = v[2:]
    return n

def fresh(kind):
    return {"operator": OperatorConfig, "channel": ChannelConfig, "base": BaseConfig, "note": NoteConfig}[kind]()

def make(kind, v):
    return {"operator": op, "channel": ch, "base": base, "note": note}[kind](v)

def ovals(o):
    return (o.total_level, o.attack_rate, o.first_decay_rate, o.first_decay_level, o.second_decay_rate, o.release_rate,
            o.key_scale, o.multiply, o.first_detune, o.second_detune, o.ase)

def vals(kind, o):
    if kind == "operator":
        return ovals(o)
    if kind == "base":
        return (o.waveform.value, o.lfo, o.amp_md, o.phs_md)
    if kind == "note":
        return (o.right, o.left, o.octave, o.note, o.key_fraction)
    r = (o.fb, o.ams, o.pms, o.connection, o.noise, o.noise_freq)
    for p in o.operators:
        r = r + ovals(p)
    return r

def zero(kind):
    probe("zero", vals(kind, fresh(kind)))

def pair(kind, v, w):
    a, b = make(kind, v), make(kind, w)
    probe("eq", a == b, not (a != b), b == a, a == a)
    probe("self", vals(kind, a))

def dup(kind, v, w):
    a = make(kind, v)
    probe("old", vals(kind, a))
    b = copy.deepcopy(a)
    probe("same", a == b, b is not a)
    probe("copy", vals(kind, b))
    change(kind, b, w)
    probe("old2", vals(kind, a))
    probe("new", vals(kind, b))
    c = fresh(kind)
    probe("fresh", vals(kind, c))

def change(kind, b, w):
    t = make(kind, w)
    if kind == "channel":
        b.fb, b.ams, b.pms, b.connection, b.noise, b.noise_freq = t.fb, t.ams, t.pms, t.connection, t.noise, t.noise_freq
        for i in range(4):
            p, q = b.operators[i], t.operators[i]
            (p.total_level, p.attack_rate, p.first_decay_rate, p.first_decay_level, p.second_decay_rate, p.release_rate,
             p.key_scale, p.multiply, p.first_detune, p.second_detune, p.ase) = ovals(q)
    elif kind == "operator":
        (b.total_level, b.attack_rate, b.first_decay_rate, b.first_decay_level, b.second_decay_rate, b.release_rate,
         b.key_scale, b.multiply, b.first_detune, b.second_detune, b.ase) = ovals(t)
    elif kind == "base":
        b.waveform, b.lfo, b.amp_md, b.phs_md = t.waveform, t.lfo, t.amp_md, t.phs_md
    else:
        b.right, b.left, b.octave, b.note, b.key_fraction = t.right, t.left, t.octave, t.note, t.key_fraction

def instr(k, b1, c1, o1, b2, c2, o2):
    x = Config(k, base(b1), ch(c1), Operators(o1))
    probe("cmp", x.compare(base(b2), ch(c2), Operators(o2)))
'''

RANGE = {"total_level": 127, "attack_rate": 31, "first_decay_rate": 31, "first_decay_level": 15, "second_decay_rate": 31, "release_rate": 15,
         "key_scale": 3, "multiply": 15, "first_detune": 7, "second_detune": 3, "ase": 1, "fb": 7, "ams": 3, "pms": 7, "connection": 7, "noise": 1, "noise_freq": 31,
         "waveform": 3, "lfo": 255, "amp_md": 255, "phs_md": 127, "right": 1, "left": 1, "octave": 7, "note": 15, "key_fraction": 63}
OP_ORDER = ["total_level", "attack_rate", "first_decay_rate", "first_decay_level", "second_decay_rate", "release_rate",
            "key_scale", "multiply", "first_detune", "second_detune", "ase"]
FIELDS = {"operator": OP_ORDER, "base": ["waveform", "lfo", "amp_md", "phs_md"], "note": ["right", "left", "octave", "note", "key_fraction"],
          "channel": ["fb", "ams", "pms", "connection", "noise", "noise_freq"] + OP_ORDER * 4}


def symbols(tag, kind):
    return TUP([sym("%s%d" % (tag, k), "int", 0, RANGE[f]) for k, f in enumerate(FIELDS[kind])])


def field_name(kind, k):
    f = FIELDS[kind][k]
    return "operator %d %s" % ((k - 6) // 11, f) if kind == "channel" and k >= 6 else f


ATTR_SRC = CMP_SRC + '''
def attributes(k, b, c, o):
    x = Config(k, base(b), ch(c), Operators(o))
    probe("base", x.waveform.value, x.lfo, x.amp_md, x.phs_md)
    probe("ops", x.enabled_operators.value)
    probe("channel", x.fb, x.ams, x.pms, x.connection, x.noise, x.noise_freq, ovals(x.operators[0]), ovals(x.operators[1]), ovals(x.operators[2]), ovals(x.operators[3]))
    probe("again", x.lfo, x.waveform.value, x.fb, x.operators[3].total_level, x.enabled_operators.value)

def missing(k, b, c, o, name):
    x = Config(k, base(b), ch(c), Operators(o))
    return hasattr(x, name)
'''


def attributes(run):
    """C32"""
    run.rule("An instrument is made of symbolic settings; the term each of its attributes reads as must be the setting of that name, for the ends of "
             "every range, each bit and random values of all settings, and names that are no settings must be absent.")
    where = "src/vgm/ym2151/config.py Config.__getattr__"
    d = Driver(run, ATTR_SRC)
    k, o = sym("k", "int", 0, None), sym("o", "int", 0, 15)
    B, H = symbols("b", "base"), symbols("c", "channel")
    st, v, pend = d.call("attributes", k, B, H, o)
    if st is None or raised(pend):
        run.violate("reading the settings of an instrument may raise: %s" % d.it.describe_pend(pend), where, key="raises")
        return
    got = dict(zip(FIELDS["base"], d.one("base")["args"]))
    got["enabled_operators"] = d.one("ops")["args"][0]
    chv = list(d.one("channel")["args"])
    flat_ = chv[:6]
    for t in chv[6:]:
        flat_ += list(t.items) if isinstance(t, Tup) else [t] * 11
    want = dict(zip(FIELDS["base"], B.items))
    want["enabled_operators"] = o
    names = [field_name("channel", j) for j in range(len(FIELDS["channel"]))]
    got.update(zip(names, flat_))
    want.update(zip(names, H.items))
    again = d.one("again")["args"]
    for n, t in zip(("lfo", "waveform", "fb", field_name("channel", 6 + 33), "enabled_operators"), again):
        got["again " + n], want["again " + n] = t, want[n]
    leaves = [k, o] + list(B.items) + list(H.items)
    top = {k: 4096, o: 15}
    top.update({x: RANGE[f] for x, f in zip(B.items, FIELDS["base"])})
    top.update({x: RANGE[f] for x, f in zip(H.items, FIELDS["channel"])})
    vals_ = [{x: 0 for x in leaves}, dict(top)]
    for x in leaves:
        for bit in range(top[x].bit_length()):
            vals_.append({y: (1 << bit if y is x and 1 << bit <= top[x] else 1 if y is o else 0) for y in leaves})
    vals_ += [{x: run.rng.randrange(top[x] + 1) for x in leaves} for _ in range(400 if run.thorough else 60)]
    for val in vals_:
        env, memo = AutoEnv(1, dict(val), it=d.it), {}
        run.count("instruments_evaluated")
        for n, t in got.items():
            x, w = ev(t, env, memo), val[want[n]]
            run.count("attributes_compared")
            if x != w:
                run.violate("the setting %s of an instrument is %r and reads as %r" % (n, w, x), where, key=n)
    for n in ("repr_json", "lfo", "operators", "enabled_operators", "nothing_like_it", "x1", "lfo2"):
        d = Driver(run, ATTR_SRC)
        st, v, pend = d.call("missing", k, B, H, o, C(n))
        run.count("names_looked_up")
        if st is None or raised(pend):
            run.violate("looking up %r of an instrument may raise: %s" % (n, d.it.describe_pend(pend)), where, key="absent")
            continue
        has = ev(v, AutoEnv(1, {}, it=d.it), {})
        if bool(has) != (n in ("repr_json", "lfo", "operators", "enabled_operators")):
            run.violate("an instrument %s %r" % ("has" if has else "lacks", n), where, key="absent")


def value_semantics(run):
    run.rule("Two settings objects with symbolic fields are compared and copied; the resulting terms are evaluated for equal fields, for each field "
             "changed alone (every bit and random values) and at random: == must hold exactly if all fields are equal, a copy must be equal, "
             "share nothing, and new objects must be zero.")
    where = "src/vgm/ym2151/config.py "
    for kind in ("operator", "base", "note", "channel"):
        fs = FIELDS[kind]
        V, W = symbols("v", kind), symbols("w", kind)
        d = Driver(run, CMP_SRC)
        st, v, pend = d.call("pair", C(kind), V, W)
        if st is None or raised(pend):
            run.violate("comparing two %s settings may raise: %s" % (kind, d.it.describe_pend(pend)), where + kind, key=kind + " raises")
            continue
        eqs = d.one("eq")["args"]
        rng = run.rng
        cases = []
        for k in range(12):
            a = [rng.randrange(RANGE[f] + 1) for f in fs]
            cases.append((a, list(a)))
            for j, f in enumerate(fs):
                b = list(a)
                b[j] ^= 1 << rng.randrange(RANGE[f].bit_length())
                cases.append((a, b))
        zero = [0] * len(fs)
        for j, f in enumerate(fs):
            for bit in range(RANGE[f].bit_length()):
                b = list(zero)
                b[j] = 1 << bit
                cases += [(zero, b), (b, zero)]
        # several fields at once, also with the same sum
        for _ in range(200):
            a = [rng.randrange(RANGE[f] + 1) for f in fs]
            b = list(a)
            i, j = rng.sample(range(len(fs)), 2)
            b[i], b[j] = min(a[j], RANGE[fs[i]]), min(a[i], RANGE[fs[j]])
            cases.append((a, b))
        for a, b in cases:
            env = AutoEnv(1, dict(zip(V.items, a)) | dict(zip(W.items, b)), it=d.it)
            memo = {}
            want = a == b
            run.count("comparisons_evaluated")
            for n, t in enumerate(eqs):
                g = bool(ev(t, env, memo))
                if g != (want or n == 3):
                    diff = [field_name(kind, k) for k in range(len(fs)) if a[k] != b[k]]
                    run.violate("%s settings that %s compare %s" % (kind, "differ in " + ", ".join(diff[:3]) if diff else "are equal", "equal" if g else "unequal"),
                                where + kind, key="%s eq %s" % (kind, diff[:1]))
                    break
        d = Driver(run, CMP_SRC)
        st, v, pend = d.call("dup", C(kind), V, W)
        if st is None or raised(pend):
            run.violate("copying %s settings may raise: %s" % (kind, d.it.describe_pend(pend)), where + kind, key=kind + " copy raises")
            continue
        P = {t: d.one(t)["args"] for t in ("old", "same", "copy", "old2", "new", "fresh")}
        edge = []
        for j, f in enumerate(fs):
            a = [rng.randrange(1, RANGE[f] + 1) for f in fs]
            for x in (0, RANGE[f]):
                a[j] = x
                edge.append((list(a), [rng.randrange(RANGE[f] + 1) for f in fs]))
        for a, b in cases[:60] + cases[-40:] + [(zero, cases[5][0]), ([RANGE[f] for f in fs], zero)] + edge:
            env = AutoEnv(1, dict(zip(V.items, a)) | dict(zip(W.items, b)), it=d.it)
            memo = {}
            run.count("copies_evaluated")
            get = lambda t: [int(x) for x in conc(d.it, d.one(t)["st"], P[t][0], env, {"ev": memo})]
            for t, w, what in (("copy", a, "a copy of %s settings has another %s"), ("old2", a, "changing a copy of %s settings changes the original's %s"),
                               ("new", b, "changing a copy of %s settings does not change its %s"), ("fresh", zero, "new %s settings do not start with %s zero")):
                g = get(t)
                bad = [field_name(kind, k) for k in range(len(fs)) if k < len(g) and g[k] != w[k]]
                if bad or len(g) != len(w):
                    run.violate(what % (kind, ", ".join(bad[:3])), where + kind, key="%s %s %s" % (kind, t, bad[:1]))
            if not all(ev(x, env, memo) for x in P["same"]):
                run.violate("a copy of %s settings does not equal the original" % kind, where + kind, key=kind + " same")
    # whole instruments
    d = Driver(run, CMP_SRC)
    B1, C1, B2, C2 = symbols("b", "base"), symbols("c", "channel"), symbols("d", "base"), symbols("e", "channel")
    o1, o2 = sym("o1", "int", 1, 15), sym("o2", "int", 0, 15)
    st, v, pend = d.call("instr", sym("k", "int", 0, None), B1, C1, o1, B2, C2, o2)
    if st is None or raised(pend):
        run.violate("comparing an instrument may raise: %s" % d.it.describe_pend(pend), where + "Config.compare", key="instrument raises")
        return
    t = d.one("cmp")["args"][0]
    fs = FIELDS["base"] + FIELDS["channel"]
    for k in range(400):
        a = [run.rng.randrange(RANGE[f] + 1) for f in fs] + [run.rng.randrange(1, 16)]
        b = list(a)
        j = None
        if k >= 40:
            j = (k - 40) % len(a)
            b[j] ^= 1 << run.rng.randrange((RANGE[fs[j]] if j < len(fs) else 15).bit_length())
        env = AutoEnv(1, dict(zip(B1.items + C1.items + (o1,), a)) | dict(zip(B2.items + C2.items + (o2,), b)), it=d.it)
        run.count("instrument_comparisons")
        g = bool(ev(t, env, {}))
        if g != (a == b):
            run.violate("an instrument %s the settings compared with is %s" % ("equal to" if a == b else "differing in %s from" % ((["base " + f for f in FIELDS["base"]] + [
                field_name("channel", x) for x in range(len(FIELDS["channel"]))] + ["operators"])[j]), "not matched" if a == b else "matched"), where + "Config.compare", key="compare %s" % j)


# ------------------------------------------------------------------ C29: objects do not share state

IND_SRC = OBS + API + '''
import vgm.core
import json
from vgm.ym2151.config import ConfigEncoder
import xrns.parts.song

def f(opsA, opsB):
    s = State()
    obs("fresh.", s)
    t = State()
    for w, r, v, k in opsA:
        step(s, w, r, v, k)
    obs("a1.", s)
    obs("b0.", t)
    u = State()
    obs("c0.", u)
    for w, r, v, k in opsB:
        step(t, w, r, v, k)
    obs("a2.", s)
    obs("b1.", t)
    probe("ticks.a", list(s.ticks()))
    probe("ticks.b", list(t.ticks()))
    instr("a.json", s)
    instr("b.json", t)

def obs(tag, s):
    fork(tag + "set", settings, s)
    fork(tag + "note", pitches, s)
    fork(tag + "clock", clock, s)
    fork(tag + "rec", events, s)
    fork(tag + "ticks", ticks, s)
    fork(tag + "json", js, s, tag)

def ticks(s):
    return list(s.ticks())

def js(s, tag):
    return json.dumps(s.configs, cls=ConfigEncoder)

def events(s):
    return [s.key_presses(c) for c in range(8)]

def head(v):
    return (v.version, v.size(), v.clock("ym2151"), v.clock("ym2413"), v.supports("ym2151"), v.supports("ym2413"), v.data_start)

def files(a, b):
    x = vgm.core.reader(a)
    if x is None:
        return None
    probe("x1", head(x))
    y = vgm.core.reader(b)
    if y is None:
        return None
    probe("x2", head(x))
    probe("y", head(y))
    return 1
'''


def independence(run):
    run.rule("Two states live side by side, each driven by a history of unknown length; what is observable of each is compared with a player that has "
             "seen only that history. Two VGM objects and two exported songs are treated likewise.")
    d = Driver(run, IND_SRC)
    it = d.it
    it.sim_all = True
    A, B = op_list(it, "opsA"), op_list(it, "opsB")
    st, v, pend = d.call("f", A, B)
    if st is None:
        raise Undecidable("no pair of histories completes: %s" % it.describe_pend(pend))
    from .ym import flat, plain, loc_name
    where = "src/vgm/ym2151/state.py State"
    F = {t: flat(it, d.one(t + "set"), d.one(t + "note")) for t in ("fresh.", "a1.", "b0.", "c0.", "a2.", "b1.")}
    js = {}
    written = []
    for e in it.events:
        if e["kind"] == "json":
            if not any(x["kind"] == "probe" and x["args"] and x["args"][0] is e["text"] for x in it.events):
                written.append(e)
            p = [x for x in it.events if x["kind"] == "probe" and x["tag"].endswith("json") and x["args"][0] is e["text"]]
            if len(p) == 1:
                js[p[0]["tag"]] = e
    rng = run.rng
    for k in range(16 if run.thorough else 7):
        hA, hB = history(rng, (3, 10, 25, 40, 15, 8, 30)[k % 7]), history(rng, (12, 2, 30, 0, 20, 8, 1)[k % 7])
        if k % 2 == 0:
            # settings written before anything is keyed
            hA = [("write", r, rng.randrange(1, 256)) for r in (0x18, 0x19, 0x1B, 0x0F) + tuple(rng.choice(REGS) + 1 for _ in range(3)) if r != 8] + hA
        if k == 5:
            # as many instruments with other settings
            hA = [("write", 0x20, 0xC7), ("write", 8, 0x78), ("write", 0x60, 5), ("write", 8, 0x78), ("wait", 9)]
            hB = [("wait", 70), ("write", 0x18, 3), ("write", 8, 0x78), ("write", 0x80, 9), ("write", 8, 0x78)]
        env = PairEnv(it, {"opsA": op_rows(hA), "opsB": op_rows(hB)})
        memo = {}
        run.count("history_pairs_evaluated")
        for tag, h, what in (("fresh.", [], "a new state"), ("a1.", hA, "a state"), ("b0.", [], "a state made before another one was used"), ("c0.", [], "a state made after another one was used"),
                             ("a2.", hA, "a state next to another one in use"), ("b1.", hB, "a second state")):
            ref = spec.play(h)
            for loc, t in F[tag].items():
                g, w = plain(ev(t, env, memo)), ref.get(*loc)
                run.count("settings_compared")
                if g != w:
                    run.violate("%s: %s is %r, its own history gives %r" % (what, loc_name(loc), g, w), where, key=tag + "settings")
                    break
            e = d.one(tag + "clock")
            g = ev(e["args"][0], env, memo)
            if g != ref.now:
                run.violate("%s: time is %r, its own history gives %r" % (what, g, ref.now), where, key=tag + "clock")
            e = d.one(tag + "rec")
            got = conc(it, e["st"], e["args"][0], env, {"ev": memo})
            evs = [events_of(l, what) for l in got]
            run.count("event_lists_compared", 8)
            if evs != [ref.events[c] for c in range(8)]:
                run.violate("%s: the key events are not those of its own history" % what, where, key=tag + "events")
            e = d.one(tag + "ticks")
            got = conc(it, e["st"], e["args"][0], env, {"ev": memo})
            run.count("tick_lists_compared")
            if list(got) != sorted(ref.beats):
                run.violate("%s: the key-on times are %s, its own history gives %s" % (what, str(got)[:60], str(sorted(ref.beats))[:60]), where, key=tag + "ticks")
            e = need(js.get(tag + "json"), "the JSON of the instruments")
            got = conc(it, e["st"], e["tree"], env, {"ev": memo})
            if any(isinstance(x, Mark) for x in walk_py(got)):
                raise Undecidable("the instruments of %s are %s" % (what, str(got)[:100]))
            if freeze_py(got) != freeze_py(ref.json()):
                run.violate("%s: the instruments are not those of its own history: %s" % (what, differ(got, ref.json())), where, key=tag + "json")
        # both songs written, one after the other
        refs = (spec.play(hA), spec.play(hB))
        for tag, ref in zip(("ticks.a", "ticks.b"), refs):
            e = d.one(tag)
            got = conc(it, e["st"], e["args"][0], env, {"ev": memo})
            if list(got) != sorted(ref.beats):
                run.violate("key-on times of two states asked for in turn: %s, its own history gives %s" % (str(got)[:60], str(sorted(ref.beats))[:60]), where, key=tag)
        hits = [e for e in written if happens(e, env, memo)]
        if len(hits) != 2:
            run.violate("two instrument files are asked for and %d instrument lists written" % len(hits), "src/extractors.py extract_instruments", key="written")
        else:
            for e, ref, what in zip(hits, refs, ("first", "second")):
                got = conc(it, e["st"], e["tree"], env, {"ev": memo})
                run.count("instrument_files_compared")
                if any(isinstance(x, Mark) for x in walk_py(got)):
                    raise Undecidable("the instruments of the %s file are %s" % (what, str(got)[:100]))
                if freeze_py(got) != freeze_py(ref.json()):
                    run.violate("the %s of two instrument files does not hold the instruments of its own state: %s" % (what, differ(got, ref.json())),
                                "src/extractors.py extract_instruments", key="written " + what)
    # VGM objects
    d = Driver(run, IND_SRC)
    it = d.it
    st, v, pend = d.call("files", in_stream(it, "one"), in_stream(it, "two"))
    E = {t: d.one(t) for t in ("x1", "x2", "y")}
    for k in range(24):
        heads = []
        for _ in range(2):
            ver = rng.choice((0x100, 0x101, 0x110, 0x150, 0x151, 0x171))
            heads.append(vgm(b"\x66" * 40, version=ver, rel=rng.choice((0x0C, 0x10, 0x20)) if ver >= 0x150 else 0x0C, clock13=rng.choice((0, 3579545, rng.randrange(1 << 32))),
                             clock51=rng.choice((0, 4000000, rng.randrange(1 << 32))), eof=rng.randrange(1 << 32)))
        env = FileEnv(1, streams={"one": heads[0], "two": heads[1]}, it=it)
        env.leaves[HOST_LITTLE] = True
        memo = {}
        run.count("file_pairs_evaluated")
        x1, x2, y = (conc(it, E[t]["st"], E[t]["args"][0], env, {"ev": memo}) for t in ("x1", "x2", "y"))
        w1, w2 = head_of(heads[0]), head_of(heads[1])
        for g, w, what in ((x1, w1, "a VGM object"), (x2, w1, "a VGM object after a second file was opened"), (y, w2, "a second VGM object")):
            if tuple(g) != w:
                run.violate("%s reports %r, its own file says %r" % (what, tuple(g), w), "src/vgm/core.py Vgm", key="files " + what)
    songs_apart(run)


def events_of(l, what):
    out = []
    for n in l:
        if isinstance(n, Mark):
            raise Undecidable("the key events of %s are %s" % (what, str(l)[:100]))
        c = dict(n)
        for x in list(c.values()):
            if isinstance(x, dict):
                c.update(x)
        out.append((c.get("sample"), c.get("config_id"), tuple(c.get(f) for f in spec.NOTE_FIELDS)))
    return out


def head_of(b):
    ver = int("%x" % int.from_bytes(b[8:12], "little"))
    w = lambda o: int.from_bytes(b[o:o + 4], "little")
    c = w(0x30) if ver >= 110 else w(0x10)
    return (ver, w(4) + 4, c, w(0x10), c > 0, w(0x10) > 0, 0x34 + w(0x34) if ver >= 150 else 0x40)


class PairEnv(AutoEnv):
    follow = True

    def __init__(self, it, rows):
        AutoEnv.__init__(self, 1, it=it)
        self.rows = rows

    def given_seq(self, leaf):
        return self.rows.get(leaf.args[0]) if leaf.op == "sym" else None

    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith(("iofails", "openfails")):
            return False
        b = t.args[0] if t.op in ("lenof", "proj") else None
        if isinstance(b, Term) and b.op == "sym" and b.args[0] in self.rows:
            r = self.rows[b.args[0]]
            return len(r) if t.op == "lenof" else r[ev(t.args[1], self, {})][t.args[2][0]]
        raise Undecided("leaf %s" % show(t))


SONGS = OBS + API + '''
def note(s, ch, kc, dt):
    s.apply(create(0x20 + ch, 0xC0))
    s.apply(create(0x28 + ch, kc))
    s.apply(create(8, 0x78 + ch))
    s.beat(dt)

def f(kc1, kc2, dt1, dt2):
    s = State()
    note(s, 1, kc1, dt1)
    note(s, 2, kc1, dt1)
    t = State()
    note(t, 5, kc2, dt2)
    note(t, 1, kc2, dt2)
    note(t, 1, kc2, dt2)
    fork("alone", song, t, "t.xrns", 100)
    song(s, "s.xrns", 100)
    song(t, "t.xrns", 100)
'''


def songs_apart(run):
    """The second of two exported songs is what it would be alone."""
    from .export import Xml, StrictEnv
    d = Driver(run, SONGS)
    it = d.it
    a = [sym("kc1", "int", 0, 127), sym("kc2", "int", 0, 127), sym("dt1", "int", 0, None), sym("dt2", "int", 0, None)]
    st, v, pend = d.call("f", *a)
    xs = [e for e in it.events if e["kind"] == "xml"]
    if len(xs) != 3:
        raise Undecidable("%d songs are rendered instead of 3" % len(xs))
    for k in range(12):
        env = StrictEnv(k, dict(zip(a, (run.rng.choice((0x31, 0x4E, 0x00, 0x7D)), run.rng.choice((0x2A, 0x55)), run.rng.choice((0, 99, 100, 3300, 700)),
                                      run.rng.choice((0, 100, 2900, 4300))))), it=it)
        trees = []
        for e in (xs[0], xs[2]):
            x = Xml(it, e["st"])
            r = ev(e["ref"], env, {})
            trees.append(x.node("RenoiseSong", r, env, {}).plain())
        run.count("song_pairs_compared")
        if trees[0] != trees[1]:
            run.violate("a song exported after another one differs from the same song exported alone", "src/xrns", key="songs")
