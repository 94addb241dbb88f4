"""C01-C07: from the bytes of a file to decoded commands."""
from .common import *
from . import spec

SRC = '''
import vgm.core
from vgm.command import WaitCommand, EOSCommand, VgmCommand
from vgm.ym2151.config import YM2151Command

def what(c):
    if isinstance(c, YM2151Command):
        return ("ym2151", c.command_id, c.reg, c.value)
    if isinstance(c, WaitCommand):
        return ("wait", c.command_id, c.samples, 0)
    if isinstance(c, EOSCommand):
        return ("eos", c.command_id, 0, 0)
    return ("other", c.command_id, 0, 0)

def opened(s):
    v = vgm.core.reader(s)
    if v is None:
        return None
    return (v.version, v.size(), v.clock("ym2151"), v.clock("ym2413"), v.supports("ym2151"), v.supports("ym2413"), v.supports("nochip"))

def two(s):
    v = vgm.core.reader(s)
    if v is None:
        return None
    a = b = None
    for c in v:
        if a is None:
            a = what(c)
        else:
            b = what(c)
            break
    return a, b

def pair(s):
    v = vgm.core.reader(s)
    if v is None:
        return None
    it = iter(v)
    a = what(next(it))
    n = next(it, None)
    if n is None:
        return a, None
    return a, what(n)

def later(s, n):
    v = vgm.core.reader(s)
    if v is None:
        return None
    it = iter(v)
    for _ in range(n):
        next(it)
    probe("at")
    a = what(next(it))
    n = next(it, None)
    if n is None:
        return a, None
    return a, what(n)
'''


class Blob:
    """Bytes of any length without storing them: head, a repeated filler, tail."""

    def __init__(self, head, n, fill, tail):
        self.head, self.n, self.fill, self.tail = head, n, fill, tail

    def __len__(self):
        return len(self.head) + self.n + len(self.tail)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = i.indices(len(self))
            if s != 1 or b - a > 1 << 17:
                h = len(self.head)
                return Blob(self.head[a:b], max(0, min(b, h + self.n) - max(a, h)), self.fill, self.tail[max(0, a - h - self.n):max(0, b - h - self.n)])
            return bytes(self[k] for k in range(a, b))
        if i < 0:
            i += len(self)
        h = len(self.head)
        return self.head[i] if i < h else self.fill if i < h + self.n else self.tail[i - h - self.n]


class Model:
    def __init__(self, run, fname, *args):
        self.d = Driver(run, SRC)
        self.it = self.d.it
        s = in_stream(self.it)
        self.st, self.v, self.pend = self.d.call(fname, s, *args)
        if self.st is None and not self.pend:
            raise Undecidable("the reader has no outcome")

    def outcome(self, content, gz=None, little=True, env=None):
        """('raise', exception name, site) or ('value', data) for one concrete content."""
        streams = {"in": content}
        if gz is not None:
            streams[("gunzip", "in")] = gz
        if env is None:
            env = FileEnv(1, streams=streams)
        env.streams = streams
        env.leaves[HOST_LITTLE] = little
        memo = {}
        for p in self.pend:
            try:
                hit = all(ev(c, env, memo) for c in p.state.pc)
            except Undecided:
                # a condition before it is false or needs bytes that are not there
                hit = conj_short(p.state.pc, env, memo)
            if hit:
                o = self.it.objs[p.value.oid] if isinstance(p.value, Ref) else None
                return "raise", o.cls.name if o is not None and o.cls else "?", "line %s" % getattr(p.node, "lineno", "?")
        if self.st is None:
            return "raise", "?", ""
        return "value", conc(self.it, self.st, self.v, env, {"ev": memo})


    def constants(self):
        """Integers the code compares anything with, and their neighbours: where a summary may change its mind."""
        out, seen = set(), set()
        roots = [c for p in self.pend for c in p.state.pc]
        if self.st is not None:
            roots += list(self.st.heap.values())
        roots.append(self.v)
        for r in roots:
            for c in (payload_guards(r) if isinstance(r, SeqV) else [r]):
                for t in walk(c, seen):
                    if t.__class__ is Term and t.op in ("eq", "lt", "le"):
                        for a in t.args:
                            if isinstance(a, Const) and a.v.__class__ is int and abs(a.v) < 1 << 32:
                                out |= {abs(a.v), abs(a.v + 1), abs(a.v - 1)}
                            elif isinstance(a, Term) and a.op == "lin":
                                out |= {abs(a.args[1])}
        return sorted(out)


class FileEnv(AutoEnv):
    """The bytes of the file are known; anything else that has no value is a part of the summary that was not resolved."""
    follow = True

    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("openfails"):
            return False
        raise Undecided("leaf %s of the summary" % show(t))


class LateEnv(AutoEnv):
    """The position after the loop over the earlier commands and their number are known; nothing else of that loop is."""

    def pick(self, t):
        if t.op == "exists":
            return False
        raise Undecided("leaf %s of the earlier commands" % show(t))


class Later(Model):
    """The next two commands after n earlier ones, at any position of the stream: the earlier reads are one summarised loop."""

    def __init__(self, run):
        self.n = sym("n", "int", 1, None)
        Model.__init__(self, run, "later", self.n)
        self.run = run
        st = self.d.one("at")["st"]
        p = [v for (oid, k), v in st.heap.items() if k == "pos" and self.it.objs[oid].kind == "stream" and self.it.objs[oid].extra["name"] == "in"]
        self.leaf = p[0] if len(p) == 1 and isinstance(p[0], Term) and is_leaf(p[0]) else None

    def after(self, n, body, start=0x40):
        """Outcome of reading `body` after n one-byte commands, or None if the loop's summary does not tell."""
        if self.leaf is None:
            self.note("no summary of the position after earlier commands")
            return None
        env = LateEnv(1)
        env.leaves[self.n], env.leaves[self.leaf] = n, start + n
        try:
            return self.outcome(Blob(vgm(b""), n, 0x70, body), env=env)
        except Undecided as e:
            self.note("after earlier commands: %s" % str(e)[:120])
            return None

    def note(self, s):
        if s not in self.run.notes:
            self.run.notes.append(s)


LATE = (1, 2, 3, 63, 254, 255, 256, 1000, 4095, 65536, 100000, 1 << 20, (1 << 24) - 65, 1 << 31, 1 << 33)


def conj_short(cs, env, memo):
    for c in cs:
        try:
            if not ev(c, env, memo):
                return False
        except Undecided:
            raise
    return True


def vgm(body, version=0x150, rel=0x0C, clock13=3579545, clock51=4000000, eof=None, total=None):
    """A VGM file: header for the version and the command bytes at the data start."""
    start = 0x34 + rel if version >= 0x150 else 0x40
    h = bytearray(max(start, 0x40))
    h[0:4] = b"Vgm "
    h[8:12] = version.to_bytes(4, "little")
    h[0x10:0x14] = clock13.to_bytes(4, "little")
    h[0x30:0x34] = clock51.to_bytes(4, "little")
    if version >= 0x150:
        h[0x34:0x38] = rel.to_bytes(4, "little")
    h = h[:start]
    out = bytes(h) + body
    eo = len(out) - 4 if eof is None else eof
    return out[:4] + eo.to_bytes(4, "little") + out[8:]


def rnd(run, n):
    return bytes(run.rng.randrange(256) for _ in range(n))


def operands(run, op, size):
    if op == 0x67:
        return b"\x66" + rnd(run, 1) + size.to_bytes(4, "little") + rnd(run, size)
    if op == 0x68:
        return b"\x66" + rnd(run, 7) + size.to_bytes(3, "little")
    return rnd(run, spec.operand_bytes(op))


def model_pair(run):
    m = Model(run, "pair")
    return m


SITE = "src/vgm/core.py command"


def framing(run):
    run.rule("For every opcode the next command must start exactly after the operand bytes of the VGM table (the summary of two "
             "consecutive reads, evaluated for all 256 opcodes, every following opcode class and data block sizes around powers of two).")
    m = model_pair(run)
    follow = [0x00, 0x54, 0x61, 0x62, 0x66, 0x70, 0x7F, 0x95, 0xFF]
    sizes = [0, 1, 2, 3, 255, 256, 257, 4097] + ([65535, 65536, 65537, 0x10203] if run.thorough else [65536])
    for size in [1 << k for k in range(16, 31)] + [(1 << 24) - 1, (1 << 24) + 3, 0x12345678, 0x40302010, 0x7FFFFFFF] + [
            c for c in m.constants() if 4 < c < 1 << 31]:
        for nx in (0x54, 0x62, 0x70, 0x66):
            head = b"\x67\x66\x00" + size.to_bytes(4, "little")
            r = m.outcome(Blob(vgm(b"") + head, size, 0x63 if nx == 0x62 else 0x62, bytes([nx]) + rnd(run, spec.operand_bytes(nx)) + b"\x66"))
            run.count("large_blocks_evaluated")
            if r[0] == "raise" or r[1] is None or r[1][1] is None or r[1][1][1] != nx:
                run.violate("the command after a data block of 0x%X bytes is not read from its end (%s)" % (size, r[1]), SITE, key="0x67 large")
    late = Later(run)
    for n in LATE:
        for op in range(256):
            if op == 0x68 or op % 4 != n % 4 and not run.thorough:
                continue
            for nx in ((op * 7 + 1) % 256,):
                if nx in (0x67, 0x68):
                    continue
                r = late.after(n, bytes([op]) + operands(run, op, 3) + bytes([nx]) + rnd(run, spec.operand_bytes(nx)) + b"\x66")
                if r is None:
                    break
                run.count("pairs_after_earlier_commands")
                if r[0] == "raise":
                    run.violate("after %d commands, a complete command 0x%02X followed by 0x%02X raises %s (%s)" % (n, op, nx, r[1], r[2]), SITE, key="late raises")
                elif r[1][0][1] != op or r[1][1] is None or r[1][1][1] != nx:
                    run.violate("after %d commands, 0x%02X followed by 0x%02X is read as %s" % (n, op, nx, r[1]), SITE, key="late")
    for op in range(256):
        for size in (sizes if op in (0x67, 0x68) else [0]):
            for nx in (range(256) if run.thorough and op not in (0x67, 0x68) else follow):
                if nx in (0x67, 0x68):
                    continue
                arg = operands(run, op, size)
                tail = bytes([nx]) + rnd(run, spec.operand_bytes(nx)) + b"\x66"
                pad = bytes((nx + 1) & 255 for _ in range(size + 16)) if op == 0x68 else b""
                r = m.outcome(vgm(bytes([op]) + arg + tail + pad))
                run.count("command_pairs_evaluated")
                if r[0] == "raise":
                    run.violate("a complete command 0x%02X followed by 0x%02X raises %s (%s)" % (op, nx, r[1], r[2]), SITE, key="0x%02X raises" % op)
                    break
                a, b = r[1] if isinstance(r[1], tuple) else (None, None)
                if a is None or a[1] != op:
                    run.violate("opcode 0x%02X is decoded as %r" % (op, a), SITE, key="0x%02X id" % op)
                    break
                if b is None or b[1] != nx:
                    if op == 0x68:
                        # what the present code does: it also skips as many bytes as the transfer length
                        extra = vgm(bytes([op]) + arg + bytes(size) + tail)
                        q = m.outcome(extra)
                        if q[0] == "value" and isinstance(q[1], tuple) and q[1][1] is not None and q[1][1][1] == nx and size:
                            run.violate("opcode 0x68 consumes 11 operand bytes and then as many bytes as its transfer length",
                                        SITE, key="0x68 consumes 11+ss operand bytes")
                            continue
                    run.violate("after opcode 0x%02X with %d operand bytes the next opcode is read as %s, not 0x%02X"
                                % (op, len(arg), "nothing" if b is None else "0x%02X" % b[1], nx), SITE, key="0x%02X length" % op)
                    break
        if op in (0x67, 0x68):
            continue
        for fill in (0, 0xFF, 0x66, 0x80, 0x7F, 1):
            k = spec.operand_bytes(op)
            r = m.outcome(vgm(bytes([op]) + bytes([fill]) * k + b"\x63\x66"))
            run.count("command_pairs_evaluated")
            if r[0] == "raise" or r[1] is None or r[1][0] is None or r[1][0][1] != op or r[1][1] is None or r[1][1][1] != 0x63:
                run.violate("opcode 0x%02X with operand bytes %02X, then 0x63, is read as %s" % (op, fill, r[1:]), SITE, key="0x%02X length" % op)
                break
        run.count("opcodes")
    # the end of the data ends the iteration, without an error
    for op in range(256):
        if op == 0x68:
            continue
        r = m.outcome(vgm(bytes([op]) + operands(run, op, 5)))
        run.count("ends_of_data")
        if r[0] == "raise":
            run.violate("reading past the last command (0x%02X) raises %s" % (op, r[1]), SITE, key="end raises")
            break
        if r[1][1] is not None:
            run.violate("a command is made up after the end of the data (after 0x%02X)" % op, SITE, key="end invents")
            break
    run.sample("0x67 with 65536 payload bytes, then 0x54")


def classification(run):
    run.rule("All 256 opcodes: exactly 0x54 is a YM2151 write carrying (register, value) in stream order, exactly 0x61-0x63 and "
             "0x70-0x8F are waits, exactly 0x66 ends the data, everything else is carried without effect.")
    m = model_pair(run)
    n = 12 if run.thorough else 4
    for op in range(256):
        for k in range(n):
            arg = operands(run, op, 3) if op != 0x68 else operands(run, op, 0)
            if op == 0x54:
                arg = [b"\x01\x80", b"\xff\x00", b"\x08\x78", b"\x00\xff"][k % 4] if k < 4 else arg
            r = m.outcome(vgm(bytes([op]) + arg + b"\x62"))
            run.count("commands_evaluated")
            if r[0] == "raise":
                run.violate("opcode 0x%02X raises %s" % (op, r[1]), SITE, key="0x%02X raises" % op)
                break
            a = r[1][0]
            want = "ym2151" if op == 0x54 else "eos" if op == 0x66 else "wait" if spec.wait_samples(op, b"\0\0") is not None else "other"
            if want == "wait" and a[0] == "wait" or want == a[0]:
                if op == 0x54 and a[2:] != (arg[0], arg[1]):
                    run.violate("opcode 0x54 with operands %02X %02X gives register %r, value %r" % (arg[0], arg[1], a[2], a[3]), SITE, key="0x54 operands")
                    break
                if a[1] != op:
                    run.violate("opcode 0x%02X is labelled %r" % (op, a[1]), SITE, key="0x%02X id" % op)
                    break
                continue
            run.violate("opcode 0x%02X is decoded as %s, expected %s" % (op, a[0], want), SITE, key="0x%02X class" % op)
            break
    for k in range(512):
        a = (k & 255, k * 37 & 255) if k < 256 else (k * 91 & 255, k & 255)
        r = m.outcome(vgm(bytes((0x54,) + a) + b"\x62"))
        run.count("register_writes_evaluated")
        if r[0] == "raise" or r[1][0] != ("ym2151", 0x54) + a:
            run.violate("opcode 0x54 with operands %02X %02X is decoded as %s" % (a + (r[1],)), SITE, key="0x54 operands")
            break
    late = Later(run)
    for n in LATE:
        for a in (b"\x12\x34", b"\x08\x78", b"\xff\x00", b"\x00\xff"):
            r = late.after(n, b"\x54" + a + b"\x66")
            if r is None:
                break
            run.count("writes_after_earlier_commands")
            if r[0] == "raise" or r[1][0] != ("ym2151", 0x54, a[0], a[1]):
                run.violate("after %d commands, the register write 54 %s is decoded as %s" % (n, a.hex(), r[1]), SITE, key="late write")
        for op in range(256):
            if op in (0x67, 0x68) or op % 8 != n % 8 and not run.thorough:
                continue
            r = late.after(n, bytes([op]) + operands(run, op, 0) + b"\x66")
            if r is None:
                break
            run.count("commands_after_earlier_commands")
            want = "ym2151" if op == 0x54 else "eos" if op == 0x66 else "wait" if spec.wait_samples(op, b"\0\0") is not None else "other"
            if r[0] == "raise" or r[1][0][:2] != (want, op):
                run.violate("after %d commands, opcode 0x%02X is decoded as %s, expected %s" % (n, op, r[1], want), SITE, key="late class")
    run.count("opcodes", 256)


def waits(run):
    run.rule("Every waiting opcode with every operand class: the samples equal the VGM table; every other opcode takes no time.")
    m = model_pair(run)
    vals = [0, 1, 2, 127, 128, 255, 256, 257, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF, 735, 882, 44100] + [run.rng.randrange(65536) for _ in range(200 if run.thorough else 24)]
    consts = m.constants()
    run.count("constants_of_the_code", len(consts))
    vals += sorted({n & 0xFFFF for n in consts} | {(n & 0xFF) << 8 | n >> 8 & 0xFF for n in consts})
    for op in range(256):
        for n in (vals if op == 0x61 else [0]):
            arg = n.to_bytes(2, "little") if op == 0x61 else operands(run, op, 0)
            r = m.outcome(vgm(bytes([op]) + arg + b"\x66"))
            run.count("commands_evaluated")
            if r[0] == "raise":
                run.violate("opcode 0x%02X raises %s" % (op, r[1]), SITE, key="0x%02X raises" % op)
                break
            want = spec.wait_samples(op, arg)
            a = r[1][0]
            got = a[2] if a[0] == "wait" else None
            if got != want or isinstance(got, bool):
                run.violate("opcode 0x%02X operands %s waits %r samples, expected %r" % (op, arg.hex(), got, want), SITE, key="0x%02X wait" % op)
                break


    late = Later(run)
    for n in LATE:
        for op in [0x61] * 6 + [0x62, 0x63, 0x70, 0x7F, 0x80, 0x8F, 0x50, 0x66, 0x00]:
            arg = operands(run, op, 0)
            r = late.after(n, bytes([op]) + arg + b"\x66")
            if r is None:
                break
            run.count("waits_after_earlier_commands")
            want = spec.wait_samples(op, arg)
            if r[0] == "raise" or (r[1][0][2] if r[1][0][0] == "wait" else None) != want:
                run.violate("after %d commands, opcode 0x%02X operands %s is decoded as %s, expected a wait of %r" % (n, op, arg.hex(), r[1], want), SITE, key="late wait")


def truncation(run):
    run.rule("A stream cut inside an operand that carries meaning (register write, 16 bit wait) or inside the header must end in EOFError: "
             "evaluated for every cut point.")
    m = model_pair(run)
    for op, n in ((0x54, 2), (0x61, 2)):
        for pre in (b"", b"\x62", b"\x54\x28\x31", b"\x61\x01\x02"):
            for cut in range(n):
                for fill in (b"\0\0", b"\xff\xff", b"\x08\x78", rnd(run, 2)):
                    r = m.outcome(vgm(pre + bytes([op]) + fill[:cut]))
                    run.count("cut_commands")
                    if r[0] != "raise" or r[1] != "EOFError":
                        run.violate("0x%02X cut after %d of %d operand bytes gives %s, not EOFError" % (op, cut, n, r[1] if r[0] == "raise" else "%r" % (r[1],)),
                                    SITE, key="0x%02X cut" % op)
    late = Later(run)
    for n in LATE:
        for op in (0x54, 0x61):
            for fill in (b"", b"\0", b"\xff", b"\x08", rnd(run, 1)):
                r = late.after(n, bytes([op]) + fill)
                if r is None:
                    break
                run.count("cuts_after_earlier_commands")
                if r[0] != "raise" or r[1] != "EOFError":
                    run.violate("after %d commands, 0x%02X cut after %d of 2 operand bytes gives %s, not EOFError" % (n, op, len(fill), r[1]), SITE, key="late cut")
    h = Model(run, "opened")
    for ver in (0x100, 0x101, 0x110, 0x150, 0x151, 0x171):
        full = vgm(b"\x66", version=ver)
        need_ = 0x38 if ver >= 0x150 else 0x34
        for cut in range(4, need_):
            r = h.outcome(full[:cut])
            run.count("cut_headers")
            if r[0] != "raise" or r[1] != "EOFError":
                run.violate("a header of version %x cut at 0x%02X gives %s, not EOFError" % (ver, cut, r[1:]), "src/vgm/core.py Vgm.__init__", key="header cut")
                break
        r = h.outcome(full[:0x40])
        if r[0] == "raise":
            run.violate("a complete header of version %x raises %s" % (ver, r[1]), "src/vgm/core.py Vgm.__init__", key="header raises")


def header(run):
    run.rule("Version digits, size, chip clocks and data start as functions of the header bytes, evaluated over all version digits and "
             "boundary and random field values.")
    h = Model(run, "opened")
    m = Model(run, "pair")
    where = "src/vgm/core.py Vgm.__init__"
    big = [0, 1, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 3579545, 4000000]
    vers = [0x100, 0x101, 0x109, 0x110, 0x111, 0x149, 0x150, 0x151, 0x160, 0x161, 0x170, 0x171, 0x172, 0x199, 0x200, 0x99999999, 0x12345678, 0x90000000, 0x1000, 0x10000, 0x100000, 0x1000000]
    vers += [int("%d" % run.rng.randrange(100, 200), 16) for _ in range(60 if run.thorough else 10)]
    for ver in vers:
        dec = int("%x" % ver)
        for k in range(len(big)):
            c13, c51, eo = big[k], big[(k * 7 + 3) % len(big)], big[(k * 5 + 1) % len(big)]
            r = h.outcome(vgm(b"\x66", version=ver, clock13=c13, clock51=c51, eof=eo))
            run.count("headers_evaluated")
            if r[0] == "raise" or r[1] is None:
                run.violate("a valid header of version %x is refused (%s)" % (ver, r[1]), where, key="refused")
                break
            c = c13 if dec < 110 else c51
            got = r[1]
            for name, g, w in (("version", got[0], dec), ("size", got[1], eo + 4), ("YM2151 clock", got[2], c), ("YM2413 clock", got[3], c13),
                               ("supports YM2151", bool(got[4]), c > 0), ("supports YM2413", bool(got[5]), c13 > 0), ("supports an unknown chip", bool(got[6]), False)):
                if g != w:
                    run.violate("header of version %x: %s is %r, expected %r" % (ver, name, g, w), where, key=name)
    # where the commands start
    for ver in vers:
        dec = int("%x" % ver)
        for rel in ([0x0C, 0x0D, 4, 0x4C, 0xCC, 0xFF, 0x100, 0x1FC, 0x1234] if dec >= 150 else [0x0C]):
            r = m.outcome(vgm(b"\x54\x12\x34\x66" + b"\x62" * 8, version=ver, rel=rel))
            run.count("data_starts_evaluated")
            if r[0] == "raise" or not isinstance(r[1], tuple) or r[1][0] != ("ym2151", 0x54, 0x12, 0x34):
                run.violate("version %x with data offset 0x%X: the first command is read from the wrong place (%r)" % (ver, rel, r[1]), where, key="data start")
    # before 1.50 the field at 0x34 is not a data offset
    for ver in (0x100, 0x101, 0x110, 0x149):
        f = bytearray(vgm(b"\x54\x12\x34\x66", version=ver))
        f[0x34:0x38] = (0x20).to_bytes(4, "little")
        r = m.outcome(bytes(f) + b"\x62" * 64)
        run.count("data_starts_evaluated")
        if r[0] == "raise" or r[1][0] != ("ym2151", 0x54, 0x12, 0x34):
            run.violate("version %x: the data does not start at 0x40 (%r)" % (ver, r[1]), where, key="data start")


def signature(run):
    run.rule("A raw and a gzip-compressed file with the same content must give the same object and commands; anything else than 'Vgm ' gives None.")
    h = Model(run, "opened")
    m = Model(run, "pair")
    where = "src/vgm/core.py reader"
    good = [vgm(b"\x54\x28\x31\x61\x10\x20\x66"), vgm(b"\x62\x66", version=0x101), vgm(b"\x67\x66\x00\x04\0\0\0abcd\x54\x08\x78", rel=0x4C), vgm(rnd(run, 1) + bytes(16))]
    gzhead = [b"\x1f\x8b\x08\x00" + bytes(30), b"\x1f\x8b\x08\x08name\0", b"\x1f\x8b", b"\x1f\x8b\xff\xff" + rnd(run, 40)]
    for g in good:
        a, b = h.outcome(g), m.outcome(g)
        if a[0] == "raise" or a[1] is None:
            run.violate("a valid VGM file is refused (%s)" % (a[1],), where, key="refused")
            continue
        for z in gzhead:
            run.count("gzip_files_evaluated")
            for x, mm, y in (("header", h, a), ("commands", m, b)):
                try:
                    r = mm.outcome(z, gz=g)
                except Undecided as e:
                    run.violate("the %s of a gzip-compressed file are read from the compressed bytes (%s)" % (x, e), where, key="gzip raw")
                    continue
                if r[:2] != y[:2]:
                    run.violate("a gzip-compressed file gives other %s than the same file uncompressed: %r" % (x, r[1]), where, key="gzip " + x)
    body = good[0]
    bad = [b"", b"V", b"Vg", b"Vgm", b"Vgm", b"VGM " + body[4:], b"vgm " + body[4:], b"Vgm\0" + body[4:], b"Vgn " + body[4:], b"Wgm " + body[4:], b"Vhm " + body[4:],
           b"\x1f", b"\x1f\x8c" + body[2:], b"\x1e\x8b" + body[2:], b"RIFF" + body[4:], bytes(100), b" Vgm" + body[4:], b"\xffgm " + body[4:]]
    bad += [bytes(body[:i] + bytes([body[i] ^ (1 << b)]) + body[i + 1:]) for i in range(4) for b in range(8)]
    for x in bad:
        run.count("non_vgm_files_evaluated")
        r = h.outcome(x)
        if r[0] == "raise":
            run.violate("content starting %r raises %s instead of being refused" % (x[:4], r[1]), where, key="bad raises")
        elif r[1] is not None:
            run.violate("content starting %r is accepted as VGM" % (x[:4],), where, key="bad accepted")
        r = h.outcome(gzhead[0], gz=x)
        if r[0] == "raise":
            run.violate("gzip of content starting %r raises %s instead of being refused" % (x[:4], r[1]), where, key="bad gz raises")
        elif r[1] is not None:
            run.violate("gzip of content starting %r is accepted as VGM" % (x[:4],), where, key="bad gz accepted")


def endianness(run):
    run.rule("The host's byte order is a free boolean of the analysis (native struct formats, sys.byteorder, array, ...).  No header field, "
             "operand, block size or error may depend on it: dependence is searched in the summaries and every file of a covering set is "
             "evaluated under both orders, and must give the little endian value.")
    for fname in ("opened", "pair"):
        m = Model(run, fname)
        vals = [m.v] + [c for p in m.pend for c in p.state.pc]
        dep = 0
        for v in vals:
            run.count("summary_values")
            if isinstance(v, Val) and any(t is HOST_LITTLE for t in walk(v, set())):
                dep += 1
        run.count("values_depending_on_host_order", dep)
        if fname == "opened":
            files = [("field 0x%02X = %08x" % (o, x), put(vgm(b"\x66", version=ver), o, x)) for ver in (0x101, 0x151) for o in (4, 0x10, 0x30)
                     for x in (1, 0x01020304, 0xFF000000, 0x00FF0000, 0x80, 0x8000)]
            files += [("version %x" % ver, vgm(b"\x66", version=ver)) for ver in (0x100, 0x150, 0x171, 0x12345678)]
            files += [("field 0x34 = %x" % rel, vgm(b"\x66", rel=rel)) for rel in (0x0C, 0x4C, 0x1FC)]
        else:
            files = [("operand of 0x61 = %04x" % n, vgm(b"\x61" + n.to_bytes(2, "little") + b"\x62")) for n in (1, 0x0102, 0xFF00, 0x8000)]
            files += [("size of block 0x67 = %x" % n, vgm(b"\x67\x66\x00" + n.to_bytes(4, "little") + bytes(n) + b"\x62\x66")) for n in (1, 2, 255, 256, 257)]
            files += [("field 0x34 = %x" % rel, vgm(b"\x54\x28\x31\x62", rel=rel)) for rel in (0x0C, 0x4C, 0x1FC)]
            files += [("opcode 0x%02X" % op, vgm(bytes([op]) + operands(run, op, 3 if op == 0x67 else 0) + b"\x62")) for op in range(256)]
        for what, c in files:
            run.count("files_evaluated_under_both_orders")
            r = []
            for little in (True, False):
                try:
                    r.append(m.outcome(c, little=little))
                except Undecided as e:
                    r.append(("undecided", str(e)))
            if r[0] != r[1]:
                run.violate("%s decodes differently on a big endian host: %s" % (what, diff2(r[0], r[1])), "src/vgm/core.py", key="native " + what.split(" = ")[0])
                continue
            if fname == "opened" and what.startswith("field 0x30") and r[0][0] == "value" and int.from_bytes(c[8:12], "little") >= 0x110:
                if r[0][1][2] != int.from_bytes(c[0x30:0x34], "little"):
                    run.violate("%s is not read as little endian" % what, "src/vgm/core.py", key="not little")


def put(c, off, x):
    return c[:off] + x.to_bytes(4, "little") + c[off + 4:]


def diff2(a, b):
    return "%r on little endian, %r on big endian" % (a[1] if a[0] == "value" else a, b[1] if b[0] == "value" else b)
