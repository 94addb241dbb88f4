"""C16-C22: the instrument file and the Renoise song."""
from .common import *
from . import spec
from .ym import OBS

EXTR = "src/extractors.py extract_tracks_to_xrns"
SONG = OBS + '''
import extractors
from xrns.parts.song import Song

def note_on(s, ch, pan, kc, kf, tl, dt):
    s.beat(dt)
    s.apply(create(0x20 + ch, pan * 64))
    s.apply(create(0x28 + ch, kc))
    s.apply(create(0x30 + ch, kf))
    s.apply(create(0x60 + ch, tl))
    s.apply(create(0x08, 0x78 + ch))

def play(s, script, vals, ids):
    for ch, on, tl, k in script:
        dt, pan, kc, kf = vals[k]
        if on:
            note_on(s, ch, pan, kc, kf, tl, dt)
        else:
            s.beat(dt)
            s.apply(create(0x08, ch))
    if ids is not None:
        for ch in range(8):
            for k, n in enumerate(s.key_presses(ch)):
                n.config_id = ids[ch]

def f(script, vals, ids, tpn, name):
    s = State()
    play(s, script, vals, ids)
    extractors.extract_tracks_to_xrns(s, name, tpn)
    return len(s.configs)
'''


# ------------------------------------------------------------------ the XML a tree of data classes stands for

class Node:
    def __init__(self, name, attrs, kids, text=None):
        self.name, self.attrs, self.kids, self.text = name, attrs, kids, text

    def all(self, path):
        cur = [self]
        for p in path.split("/"):
            cur = [k for c in cur for k in c.kids if isinstance(k, Node) and k.name == p]
        return cur

    def plain(self):
        return (self.name, tuple(sorted(self.attrs.items())), self.text, tuple(k.plain() for k in self.kids))

    def texts(self, path):
        return [n.text for n in self.all(path)]

    def one(self, path):
        t = self.texts(path)
        return t[0] if len(t) == 1 else (None if not t else tuple(t))


def text_of(v):
    if isinstance(v, EnumVal):
        return text_of(v[1])
    if v is True or v is False:
        return "true" if v else "false"
    return str(v)


class Xml:
    def __init__(self, it, st):
        self.it, self.st = it, st
        self.meta = {}

    def fields(self, cls):
        r = self.meta.get(cls)
        if r is None:
            r = self.meta[cls] = []
            for f in cls.dc_fields:
                m = {}
                if isinstance(f[5], Ref):
                    p = self.it.base.get((f[5].oid, "$")) or self.st.heap.get((f[5].oid, "$"))
                    m = {k.v: v for k, _, v in p.entries}
                n = m["name"].v if "name" in m else f[0]
                r.append((f[0], n, m["type"].v if "type" in m else "Text"))
        return r

    def root_name(self, cls):
        for c in cls.mro:
            if c.oid is not None:
                m = self.it.base.get((c.oid, "Meta"))
                if isinstance(m, ClassV):
                    n = self.it.base.get((m.oid, "name"))
                    if n is not None and is_const(n):
                        return n.v
                break
        return cls.name

    def get(self, oid, k):
        v = self.st.heap.get((oid, k))
        return v if v is not None else self.it.base.get((oid, k))

    def node(self, name, v, env, memo):
        it = self.it
        if isinstance(v, Ref):
            o = it.objs[v.oid]
            if o.kind != "inst" or o.cls.dc_fields is None:
                raise Undecidable("a %s is rendered as the element %s" % (o.cls.name if o.cls else o.kind, name))
            attrs, kids, text = {}, [], None
            for f, n, ty in self.fields(o.cls):
                w = self.get(v.oid, f)
                w = ev(w, env, memo) if w is not None else None
                if w is None:
                    continue
                if ty == "Attribute":
                    attrs[n] = text_of(w)
                elif ty == "Element":
                    if isinstance(w, Ref) and it.objs[w.oid].kind in ("list", "deque"):
                        for x in self.items(self.get(w.oid, "$"), env, memo):
                            kids.append(self.node(n, x, env, memo))
                    elif isinstance(w, tuple) and not isinstance(w, EnumVal):
                        for x in w:
                            kids.append(self.node(n, x, env, memo))
                    else:
                        kids.append(self.node(n, w, env, memo))
                else:
                    text = text_of(w)
            return Node(name, attrs, kids, text)
        return Node(name, {}, [], None if v is None else text_of(v))

    def items(self, p, env, memo):
        p = ev(p, env, memo)
        out = []
        self.segs(p.segs, env, memo, out)
        return out

    def segs(self, segs, env, memo, out):
        for s in segs:
            if s[0] == "i":
                out.append(ev(s[1], env, memo))
            elif s[0] == "g":
                if ev(s[1], env, memo):
                    self.segs(s[2], env, memo, out)
            elif s[0] == "r" and items_of(SEQ(s[1].segs)) is not None and len(items_of(SEQ(s[1].segs))) == 1:
                saved, self.it.st = self.it.st, self.st
                try:
                    els = [self.it.rep_at(s[1], C(i)) for i in range(ev(s[1].n, env, memo))]
                finally:
                    self.it.st = saved
                out.extend(ev(x, env, memo) for x in els)
            else:
                raise Undecidable("a part of the song is not resolved: %s" % (s[1],))


# ------------------------------------------------------------------ scenarios

NAMES = {0: "C#", 1: "D-", 2: "D#", 4: "E-", 5: "F-", 6: "F#", 8: "G-", 9: "G#", 10: "A-", 12: "A#", 13: "B-", 14: "C-"}
LEGAL = sorted(NAMES)


def pitch(kc):
    n, o = kc & 15, kc >> 4 & 7
    return "%s%d" % (NAMES[n], o + (n == 14))


class StrictEnv(AutoEnv):
    """Only the inputs of the scenario have values; anything else is a part of the summary that was not resolved."""
    known = ()
    follow = True

    def pick(self, t):
        if t in self.known or t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("openfails"):
            return AutoEnv.pick(self, t)
        raise Undecided("leaf %s of the summary" % show(t))


class Scenario:
    """One abstract run of the exporter: a script of key events with symbolic times, pitches and pans."""

    def __init__(self, run, name, script, tpn, ids=None, first=0, span=None):
        self.run, self.name, self.script, self.tpn = run, name, script, tpn
        d = self.d = Driver(run, SONG)
        it = d.it
        vals, self.sym = [], []
        for k, (ch, on, tl, lo, hi) in enumerate(script):
            dt = sym("%s.dt%d" % (name, k), "int", lo, hi) if lo != hi else C(lo)
            pan = sym("%s.pan%d" % (name, k), "int", 0, 3)
            kc = sym("%s.kc%d" % (name, k), "int", 0, 255)
            kf = sym("%s.kf%d" % (name, k), "int", 0, 255)
            self.sym.append((dt, pan, kc, kf))
            vals.append(TUP([dt, pan, kc, kf]))
        self.known = {x for v in self.sym for x in v} | ({tpn} if isinstance(tpn, Val) else set())
        self.ids = [sym("%s.id%d" % (name, c), "int", -1, 4096) for c in range(8)] if ids else None
        self.known |= set(self.ids or ())
        st, v, pend = d.call("f", TUP([TUP([C(ch), C(on), C(tl), C(k)]) for k, (ch, on, tl, lo, hi) in enumerate(script)]), TUP(vals),
                             TUP(self.ids) if ids else NONE, tpn if isinstance(tpn, Val) else C(tpn), C("out.xrns"))
        self.st, self.n_configs, self.pend = st, v, raised(pend)
        self.root = None
        if st is None:
            return
        ev_ = [e for e in it.events if e["kind"] == "xml"]
        if len(ev_) != 1:
            raise Undecidable("%d documents are rendered instead of one" % len(ev_))
        self.xml = Xml(it, ev_[0]["st"])
        self.root = ev_[0]["ref"]
        self.text = ev_[0]["text"]

    def raises(self, env):
        """What exporting raises under a valuation, or None."""
        return outcome_raises(self.d.it, self.pend, env, {})

    def doc(self, env):
        if not isinstance(self.root, Ref) and isinstance(self.root, Term):
            r = ev(self.root, env)
        else:
            r = self.root
        if not isinstance(r, Ref):
            raise Undecidable("what is rendered is not an object")
        return self.xml.node(self.xml.root_name(self.d.it.objs[r.oid].cls), r, env, {})

    def env(self, seed):
        env = StrictEnv(seed, big=1 << 14)
        env.known = self.known
        for k, (dt, pan, kc, kf) in enumerate(self.sym):
            if not is_const(dt):
                lo, hi = iv(dt)
                h = env.pick(dt)
                # ends of the interval too
                env.leaves[dt] = lo if (seed + k) % 7 == 1 else hi if (seed + k) % 7 == 2 else h
            x = env.pick(kc)
            env.leaves[kc] = (x & 0xF0) | LEGAL[(x & 15) % 12]
        return env

    def expected(self, env):
        """{(pattern, channel, row): (note, instrument, pan)} and the number of instruments."""
        tpn = ev(self.tpn, env) if isinstance(self.tpn, Val) else self.tpn
        t, cells, ids, started = 0, {}, {}, False
        chan = {}
        self.older = {}
        for k, (ch, on, tl, lo, hi) in enumerate(self.script):
            dt, pan, kc, kf = [ev(x, env) for x in self.sym[k]]
            t += dt
            if on:
                started = True
                chan[ch] = (pan, kc)
                i = ids.setdefault(tl, len(ids))
            elif not started:
                continue
            else:
                i = -1
            pan, kc = chan.get(ch, (0, 0))
            if self.ids:
                i = ev(self.ids[ch], env)
            row = t // tpn
            at = (row // 64, ch, row % 64)
            if at in cells:
                self.older.setdefault(at, []).append(cells[at])
            cells[(row // 64, ch, row % 64)] = (i, kc, pan, t)
        return cells, len(ids)

    def cells(self, doc):
        out, dups = {}, []
        for p, pat in enumerate(doc.all("PatternPool/Patterns/Pattern")):
            for c, tr in enumerate(pat.all("Tracks/PatternTrack")):
                for ln in tr.all("Lines/Line"):
                    i = ln.attrs.get("index")
                    at = (p, c, int(i) if i is not None and i.lstrip("-").isdigit() else i)
                    if at in out:
                        dups.append(at)
                    out[at] = ln.all("NoteColumns/NoteColumn")
        return out, dups


T_ = 5000


def scripts(run):
    """(name, script, tpn, ids): channel, on/off, total level, least and greatest wait before the event."""
    out = [("eight", [(4, 0, 0, 0, 7)] + [(c, 1, c % 3, 0, 7 * T_) for c in range(8)], T_, False)]
    t = 1000
    out.append(("gap", [(3, 1, 1, 130 * t, 140 * t - 1), (3, 0, 0, t, 8 * t), (5, 1, 2, 0, 0), (3, 1, 1, 62 * t, 90 * t), (5, 0, 0, 0, 5 * t), (0, 1, 3, 1, 5 * t)], t, False))
    t = 7999
    out.append(("same", [(6, 1, 0, 0, 20 * t), (6, 0, 0, 0, 3 * t), (6, 1, 9, 0, 3 * t)], t, False))
    out.append(("far", [(7, 1, 0, 300 * 64 * 2, 300 * 64 * 2 + 127)], 2, False))
    t = 735
    out.append(("ids", [(c, 1, 0, 0, 7 * t) for c in range(8)], t, True))
    out.append(("tempo", [(1, 1, 0, 0, 0)], sym("tempo.tpn", "int", 1, None), False))
    out.append(("silent", [(2, 0, 0, 0, 100), (3, 0, 0, 5, 5)], 1234, False))
    if run.thorough:
        out.append(("each", [(c, 1, c, 0, 70 if c == 0 else 7) for c in range(8)], 1, False))
        out.append(("big", [(0, 1, 0, 0, 10), (0, 1, 1, 100000 * 64, 100000 * 64 + 5)], 100000, False))
        out.append(("wide", [(2, 1, 0, 1100 * 64, 1100 * 64 + 63)], 1, False))
    return out


def scenario(run, want=None):
    for name, script, tpn, ids in scripts(run):
        if want is None or name in want:
            s = Scenario(run, name, script, tpn, ids)
            run.count("scenarios")
            yield s


def valuations(run, s):
    n = 60 if run.thorough else 24
    for seed in range(n):
        env = s.env(run.seed * 1000 + seed)
        yield env
    # every key code and panning of each event, all else fixed


def when(s, env):
    return "ticks per note %s, key events %s" % (ev(s.tpn, env) if isinstance(s.tpn, Val) else s.tpn, [
        "ch%d %s +%d" % (ch, "on" if on else "off", ev(s.sym[k][0], env)) for k, (ch, on, tl, lo, hi) in enumerate(s.script)][:8])


def usable(run, s, envs):
    """The valuations under which exporting ends normally; the others are violations."""
    for env in envs:
        r = s.raises(env)
        if r is not None:
            run.violate("exporting raises: %s (%s)" % (r, when(s, env)), EXTR, key="raise")
            continue
        if s.root is None:
            raise Undecidable("the exporter never returns: %s" % s.d.it.describe_pend(s.pend))
        run.count("valuations")
        yield env


def content(col):
    return col.one("Note"), col.one("Instrument")


def wanted(i, kc):
    return ("off", None) if i < 0 else (pitch(kc), "%02X" % i)


def placement(run):
    """C18"""
    run.rule("Scripts of key events with symbolic times are exported; in the rendered song each event's line must be in pattern (time // ticks "
             "per note) // 64, in the track of its channel, at line (time // ticks per note) % 64, and no other line may exist.")
    for s in scenario(run):
        for env in usable(run, s, valuations(run, s)):
            want, _ = s.expected(env)
            got, dups = s.cells(s.doc(env))
            run.count("lines_compared", len(want))
            for at in dups:
                run.violate("two lines with the same index in pattern %s track %s line %s (%s)" % (at + (when(s, env),)), EXTR, key="dup")
            for at in sorted(set(want) - set(got), key=str):
                run.violate("the event of channel %d at sample %d is not at pattern %d line %d (%s)" % (at[1], want[at][3], at[0], at[2], when(s, env)),
                            EXTR, key="missing")
            for at in sorted(set(got) - set(want), key=str):
                run.violate("pattern %s track %s line %s holds a note that no event put there (%s)" % (at + (when(s, env),)), EXTR, key="extra")
            for at, older in sorted(s.older.items()):
                cols = got.get(at)
                if not cols or len(cols) != 1:
                    continue
                n, i = content(cols[0])
                g = (n.lower() if n == "Off" else n, i)
                run.count("shared_lines")
                if g != wanted(*want[at][:2]) and any(g == wanted(*o[:2]) for o in older):
                    run.violate("pattern %d track %d line %d keeps an earlier event of the two that fall on it (%s)" % (at + (when(s, env),)), EXTR,
                                key="earlier")
        run.sample("script %s: %s" % (s.name, s.script[:3]))


def compared(run, s, env):
    want, _ = s.expected(env)
    got, _ = s.cells(s.doc(env))
    for at, w in sorted(want.items()):
        cols = got.get(at)
        if cols is None:
            continue          # C18 reports it
        if len(cols) != 1:
            run.violate("pattern %d track %d line %d has %d note columns instead of one" % (at + (len(cols),)), EXTR, key="columns")
            continue
        run.count("cells_compared")
        yield at, w, cols[0]


def note_names(run):
    """C17"""
    run.rule("The note column of every exported key event, for each of the 12 x 8 defined key codes: the name of the note and the octave, the "
             "key code's C being the first note of the next octave; a key-off is a note-off.")
    for s in scenario(run, ("eight", "gap", "ids")):
        combos = [o << 4 | n for o in range(8) for n in LEGAL]
        for base in range(0, len(combos), 8 if run.thorough else 8):
            env = s.env(base)
            for k, (dt, pan, kc, kf) in enumerate(s.sym):
                env.leaves[kc] = combos[(base + k) % len(combos)]
            if not list(usable(run, s, [env])):
                continue
            for at, (i, kc, pan, t), col in compared(run, s, env):
                g = col.one("Note")
                if i < 0:
                    if not isinstance(g, str) or g.lower() != "off":
                        run.violate("a key-off is written as note %r" % (g,), "src/vgm/ym2151/note.py Note.xrns_note", key="off")
                elif g != pitch(kc):
                    run.violate("key code 0x%02X (octave %d, note %d) is written as %r, expected %r" % (kc, kc >> 4 & 7, kc & 15, g, pitch(kc)),
                                "src/vgm/ym2151/note.py Note.xrns_note", key="note %d" % (kc & 15))


def cell_content(run):
    """C19"""
    run.rule("The instrument column of a key-on is the number of its instrument in upper case hexadecimal, at least two digits, and empty for a "
             "key-off; the panning column is empty when both sides sound, and has one text for right only and another for left only.")
    sides = {1: set(), 2: set()}
    for s in scenario(run, ("eight", "gap", "same", "ids")):
        envs = list(valuations(run, s))
        if s.ids:
            special = [-1, 0, 9, 10, 15, 16, 17, 99, 127, 128, 160, 171, 254, 255] + list(range(1, 256, 5 if not run.thorough else 1))
            for b in range(0, len(special), 8):
                env = s.env(b + 1)
                for c in range(8):
                    env.leaves[s.ids[c]] = special[(b + c) % len(special)]
                envs.append(env)
        for env in usable(run, s, envs):
            for at, (i, kc, pan, t), col in compared(run, s, env):
                g, p = col.one("Instrument"), col.one("Panning")
                w = "%02X" % i if i >= 0 else None
                if g != w:
                    run.violate("the instrument column of %s is %r, expected %r" % ("a key-off" if i < 0 else "instrument %d" % i, g, w), EXTR,
                                key="instrument %s" % ("off" if i < 0 else "on"))
                if i < 0:
                    continue
                if pan == 3 and p is not None:
                    run.violate("the panning column is %r when both sides sound" % (p,), EXTR, key="pan both")
                if pan in (1, 2):
                    if p is None:
                        run.violate("the panning column is empty when only the %s sounds" % ("left" if pan == 1 else "right"), EXTR, key="pan none")
                    sides[pan].add(p)
    if sides[1] & sides[2]:
        run.violate("left only and right only have the same panning text %s" % sorted(map(str, sides[1] & sides[2])), EXTR, key="pan same")
    for k, v in sides.items():
        if len(v) > 1:
            run.violate("%s only has several panning texts: %s" % ("left" if k == 1 else "right", sorted(map(str, v))), EXTR, key="pan several")
        if not v:
            raise Undecidable("no one-sided note was compared")


def tempo(run):
    """C20"""
    import fractions
    run.rule("BeatsPerMin of the song is 60 / (4 x note length) rounded down, the note length being ticks per note / 44100 s, and LinesPerBeat is "
             "4, so that one line lasts one note length.")
    n = 0
    for s in scenario(run, ("eight", "gap", "same", "far", "tempo")):
        if isinstance(s.tpn, Val):
            vals = list(range(1, 200)) + list(range(200, 12000, 7 if not run.thorough else 1)) + [20000, 44100, 100000, 165375, 330750, 661500, 661501, 1 << 20]
            env = AutoEnv(1)
            env.leaves[s.tpn] = 1
            leaf = s.tpn
        else:
            vals, env, leaf = [s.tpn], s.env(0), None
        for t in vals:
            env = s.env(0)
            if leaf is not None:
                env.leaves[leaf] = t
            if not list(usable(run, s, [env])):
                continue
            doc = s.doc(env)
            x = fractions.Fraction(60 * 44100, 4 * t)
            ok = {int(x), int(x - fractions.Fraction(1, 10 ** 6)), int(x + fractions.Fraction(1, 10 ** 6))}
            b, l = doc.texts("GlobalSongData/BeatsPerMin"), doc.texts("GlobalSongData/LinesPerBeat")
            n += 1
            run.count("tempos_compared")
            if len(b) != 1 or b[0] not in {str(o) for o in ok}:
                run.violate("BeatsPerMin is %s for %d ticks per note, expected %d" % (b, t, int(x)), EXTR, key="bpm")
            if l != ["4"]:
                run.violate("LinesPerBeat is %s, expected 4" % (l,), EXTR, key="lpb")
    if n < 100:
        raise Undecidable("the tempo was compared for %d note lengths only" % n)


def structure(run):
    """C21"""
    run.rule("Of every exported script: patterns 0 to the last one used exist and are played once each in order; every pattern has the tracks of "
             "the song; there are 8 tracks and one instrument per recorded instrument; the archive holds one member, Song.xml, with the rendered song.")
    W = "src/xrns/xrns_serializer.py"
    for s in scenario(run):
        it = s.d.it
        for env in usable(run, s, valuations(run, s)):
            want, n_ins = s.expected(env)
            doc = s.doc(env)
            pats = doc.all("PatternPool/Patterns/Pattern")
            n = max([a[0] for a in want], default=-1) + 1
            if len(pats) != n:
                run.violate("the song has %d patterns, expected %d (%s)" % (len(pats), n, when(s, env)), EXTR, key="patterns")
            seq = doc.texts("PatternSequence/SequenceEntries/SequenceEntry/Pattern")
            if seq != [str(i) for i in range(len(pats))]:
                run.violate("the sequence plays patterns %s of %d" % (seq[:6], len(pats)), EXTR, key="sequence")
            for k, w in (("SequencerTrack", 8), ("SequencerMasterTrack", 1), ("SequencerSendTrack", 1)):
                g = len(doc.all("Tracks/" + k))
                if g != w:
                    run.violate("the song has %d %s, expected %d" % (g, k, w), W, key="tracks " + k)
                for i, p in enumerate(pats):
                    h = len(p.all("Tracks/" + k.replace("Sequencer", "Pattern")))
                    run.count("track_lists")
                    if h != w:
                        run.violate("pattern %d has %d %s for %d tracks" % (i, h, k.replace("Sequencer", "Pattern"), w), W, key="pattern tracks " + k)
            ins = len(doc.all("Instruments/Instrument"))
            if ins != n_ins and not s.ids:
                run.violate("the song has %d instruments, %d were recorded" % (ins, n_ins), EXTR, key="instruments")
    archive(run, s)
    general_instruments(run)


def archive(run, s):
    it = s.d.it
    zw = [e for e in it.events if e["kind"] == "zip_write"]
    zo = [e for e in it.events if e["kind"] == "zip_open"]
    names = [e["name"].v if is_const(e["name"]) else show(e["name"]) for e in zw]
    if names != ["Song.xml"]:
        run.violate("the archive holds %s, expected Song.xml" % names, "src/xrns/writer.py writer", key="members")
        return
    d = zw[0]["data"]
    if not (d is s.text or isinstance(d, Term) and d.op == "strm" and d.args[0] is s.text and d.args[1] == "encode"):
        run.violate("Song.xml is not the rendered song", "src/xrns/writer.py writer", key="data")
    if len(zo) != 1 or zw[0]["zip"] is not zo[0]["ref"] or not (is_const(zo[0]["mode"]) and zo[0]["mode"].v in ("w", "x")):
        run.violate("the archive is not newly written", "src/xrns/writer.py writer", key="mode")
    f = zo[0]["file"]
    o = it.objs[f.oid] if isinstance(f, Ref) else None
    path = o.extra.get("path") if o is not None else f
    if not (isinstance(path, Val) and is_const(path) and path.v == "out.xrns"):
        run.violate("the archive is written to %s instead of the requested file" % (path,), "src/xrns/writer.py writer", key="path")
    run.count("archives")


GENERAL = OBS + """
import extractors

def f(ops, tpn):
    s = State()
    for w, r, v, n in ops:
        step(s, w, r, v, n)
    fork("n", count, s)
    extractors.extract_tracks_to_xrns(s, "out.xrns", tpn)

def count(s):
    return len(s.configs)
"""


def general_instruments(run):
    """After any history: one instrument element per recorded instrument."""
    d = Driver(run, GENERAL)
    it = d.it
    st, v, pend = d.call("f", op_list(it), sym("tpn", "int", 1, None))
    xs = [e for e in it.events if e["kind"] == "xml"]
    if len(xs) != 1:
        raise Undecidable("%d documents are rendered instead of one" % len(xs))
    x = Xml(it, xs[0]["st"])
    n = d.one("n")["args"][0]
    root = xs[0]["ref"]
    ins = x.get(root.oid, "instruments")
    lst = x.get(ins.oid, "instrument") if isinstance(ins, Ref) else None
    if not isinstance(lst, Ref):
        run.notes.append("instrument list of an arbitrary history not resolved")
        return
    it.st = xs[0]["st"].copy()
    m = it.seq_len(x.get(lst.oid, "$"))
    for seed in range(40):
        env = AutoEnv(seed, big=300)
        run.count("history_valuations")
        try:
            a, b = ev(m, env), ev(n, env)
        except Undecided:
            run.notes.append("number of instruments of an arbitrary history not resolved")
            return
        if a != b:
            run.violate("%s instruments are written when %s were recorded" % (a, b), EXTR, key="instruments")
            return
