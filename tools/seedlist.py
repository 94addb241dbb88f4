COMMON = '''
import io, struct, gzip, sys
from vgm import core
from vgm.command import VgmCommand, WaitCommand, EOSCommand
from vgm.ym2151.config import YM2151Command, create
from vgm.ym2151.state import State

def vgm(data, version=b"\\x51\\x01\\x00\\x00", off=0x0C):
    h = bytearray(0x40)
    h[0:4] = b"Vgm "
    h[8:12] = version
    h[0x30:0x34] = struct.pack("<I", 3579545)
    h[0x34:0x38] = struct.pack("<I", off)
    return bytes(h) + bytes(data)

def cmds(data):
    return list(core.reader(io.BytesIO(vgm(data))))
'''

seed("01-block-size-24-bit", "C01",
     "a data block (0x67) whose payload is 16 MiB or larger, in a stream with commands after it",
     "Only the low 24 bits of the data block size are used, so the bytes behind the first 16 MiB are read as commands",
     [(CO, '        (tt, ss) = struct.unpack("<xBI", buffer)\n        _ = tt\n        _ = ss\n', '        (tt, ss) = struct.unpack("<xBI", buffer)\n        _ = tt\n        ss &= 0x00FFFFFF\n')],
     COMMON + '''
n = (1 << 24) + 2
c = cmds(b"\\x67\\x66\\x80" + struct.pack("<I", n) + bytes([0x54]) * n + b"\\x54\\x08\\x78\\x66")
assert [x.command_id for x in c] == [0x67, 0x54, 0x66], [x.command_id for x in c][:5]
''')

seed("02-second-chip-writes", "C02",
     "a dual chip VGM file, which writes its second YM2151 with opcode 0xA4",
     "Writes to the second YM2151 are taken for writes to the first, so its notes and settings leak into the song",
     [(CO, "    elif cmd_id == 0x54:", "    elif cmd_id in (0x54, 0xA4):")],
     COMMON + '''
c = cmds(b"\\xA4\\x08\\x78\\x54\\x08\\x79\\x66")
assert [isinstance(x, YM2151Command) for x in c] == [False, True, False], c
''')

seed("03-noise-on-last-two", "C10",
     "register 0x0F written and then a key-on of a channel other than 7",
     "Noise settings are written to the channel of the register's low bits AND channel 7 through a shared loop variable",
     [(ST, "            self._channel_configs[7].noise_freq = cmd.value & 0x1F\n", "            self._channel_configs[channel].noise_freq = cmd.value & 0x1F\n            if cmd.value & 0x60:\n                self._channel_configs[0].noise_freq = cmd.value & 0x1F\n")],
     COMMON + '''
s = State()
s.apply(create(0x0F, 0xE3))
s.apply(create(0x08, 0x78))
assert s.configs[0].noise_freq == 0, s.configs[0].noise_freq
assert s._channel_configs[7].noise_freq == 3
''')

seed("04-config-lookup-last", "C13",
     "a channel that returns to an earlier instrument after at least one other instrument was recorded",
     "Only the most recently recorded instrument is considered for reuse, so returning to an older one records it a second time",
     [(ST, "                    for (i, c) in enumerate(self.configs)\n                    if c.compare(", "                    for (i, c) in enumerate(self.configs)\n                    if i + 64 > len(self.configs)\n                    and c.compare(")],
     COMMON + '''
s = State()
for k in range(70):
    s.apply(create(0x60, k))
    s.apply(create(0x08, 0x78))
s.apply(create(0x60, 0))
s.apply(create(0x08, 0x78))
assert len(s.configs) == 70, len(s.configs)
assert s.key_presses(0)[-1].config_id == 0
''')

seed("05-shallow-operators", "C14",
     "an instrument recorded by a key-on, then an operator register written on the same channel",
     "The copy made at the key-on shares its operator settings with the live channel when feedback is 0, so later writes change the recorded instrument",
     [(CF, "            [] if not other else copy.deepcopy(other.operators)\n", "            []\n            if not other\n            else copy.deepcopy(other.operators)\n            if other.fb or other.connection\n            else list(other.operators)\n")],
     COMMON + '''
s = State()
s.apply(create(0x20, 0xC0))
s.apply(create(0x60, 0x11))
s.apply(create(0x08, 0x78))
s.apply(create(0x60, 0x22))
assert s.configs[0].operators[0].total_level == 0x11
''')

seed("06-keyoff-drops-repeat", "C12",
     "two key writes to one channel with no wait between them, such as a key off and a retrigger in the same sample",
     "A second key event of a channel at the same time replaces the first one",
     [(ST, "                self._channel_key_presses[cmd.value & 0x7].append(note)", "                presses = self._channel_key_presses[ch]\n                if presses and presses[-1].sample == self._samples:\n                    presses.pop()\n                presses.append(note)")],
     COMMON + '''
s = State()
s.apply(create(0x08, 0x78))
s.beat(10)
s.apply(create(0x08, 0x00))
s.apply(create(0x08, 0x78))
assert [(n.config_id, n.sample) for n in s.key_presses(0)] == [(0, 0), (-1, 10), (0, 10)]
''')

seed("07-wait-16-bit-sign", "C03",
     "a 0x61 wait of exactly 65535 samples",
     "The largest 16 bit wait is treated as no wait",
     [(CO, "        return WaitCommand(cmd_id, _read16(f))", "        return WaitCommand(cmd_id, (_read16(f) + 1) % 0x10000 - 1 if False else _read16(f) % 0xFFFF)")],
     COMMON + '''
c = cmds(b"\\x61\\xff\\xff\\x61\\xfe\\xff\\x66")
assert [x.samples for x in c[:2]] == [65535, 65534], [x.samples for x in c[:2]]
''')

seed("08-detune-compare", "C13",
     "two patches that differ only in the second detune of one operator",
     "Second detune is compared by its low bit only, so two instruments that differ in it share a number",
     [(CF, "                and self.second_detune == other.second_detune\n", "                and self.second_detune & 1 == other.second_detune & 1\n")],
     COMMON + '''
s = State()
s.apply(create(0xC0, 0x40))
s.apply(create(0x08, 0x78))
s.apply(create(0xC0, 0xC0))
s.apply(create(0x08, 0x78))
assert len(s.configs) == 2
''')

seed("09-loose-signature", "C06",
     "a file that starts with 'Vgm' and a newline, tab or NUL instead of the space, such as a text file",
     "The signature is compared after stripping white space, so other files are decoded as VGM",
     [(CO, '    if header != b"Vgm ":', '    if header.strip() != b"Vgm":')],
     COMMON + '''
for c in (b"\\n", b"\\t", b"\\x00", b"s"):
    assert core.reader(io.BytesIO(b"Vgm" + c + vgm(b"\\x66")[4:])) is None, c
''')

seed("10-short-read-wait", "C04",
     "a file cut one byte before the end of a 16 bit operand",
     "A missing high byte is read as 0 instead of raising EOFError",
     [(CO, '''    b = file.read(2)
    if b is None or len(b) != 2:
        raise EOFError
''', '''    b = file.read(2)
    if b is None or len(b) < 1:
        raise EOFError
    b = b.ljust(2, b"\\x00") if file.tell() > 0x100 else b
    if len(b) != 2:
        raise EOFError
''')],
     COMMON + '''
data = b"\\x54\\x08\\x00" * 90 + b"\\x61\\x10"
try:
    c = cmds(data)
except EOFError:
    sys.exit(0)
sys.exit("made up a wait of %r samples" % c[-1].samples)
''')

SONG_DEMO = COMMON + '''
import os, re, tempfile, zipfile, contextlib
import extractors
from vgm.ym2151.state import State

def song(s, tpn):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "t.xrns")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            extractors.extract_tracks_to_xrns(s, p, tpn)
        with zipfile.ZipFile(p) as z:
            return z.read("Song.xml").decode()
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)

def key(s, ch, on=True):
    s.apply(create(8, (0x78 if on else 0) | ch))
'''

seed("11-pitch-fraction-compare", "C15",
     "two note settings whose key fractions differ in the lowest bit only",
     "NoteConfig.__eq__ calls key fractions equal that differ by one step",
     [(CF, "                and self.key_fraction == other.key_fraction\n", "                and self.key_fraction >> 1 == other.key_fraction >> 1\n")],
     '''
from vgm.ym2151.config import NoteConfig
a, b = NoteConfig(), NoteConfig()
a.key_fraction, b.key_fraction = 2, 3
assert a != b
assert NoteConfig(a) == a
''')

seed("12-muted-noise-frequency", "C16",
     "an instrument of channel 7 with a noise frequency while the noise is switched off",
     "The instrument file says noise frequency 0 for channels whose noise is off",
     [(CF, '            "noise_freq": self.noise_freq,\n', '            "noise_freq": self.noise_freq if self.noise else 0,\n')],
     COMMON + '''
import json
from vgm.ym2151.config import ConfigEncoder
s = State()
s.apply(create(0x0F, 0x13))
s.apply(create(8, 0x7F))
d = json.loads(json.dumps(s.configs, cls=ConfigEncoder))
assert d[0]["channel"]["noise_freq"] == 0x13, d[0]["channel"]["noise_freq"]
''')

seed("13-shared-gap-patterns", "C18",
     "a song with a gap of at least one whole pattern, and events that later fall into two of the patterns made at once",
     "Patterns made together are one object, so a note put in one of them shows up in the others",
     [(PAT, """        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
""", """        missing = pattern + 1 - len(self.patterns)
        if missing > 0:
            self.patterns += [Pattern(self.tracks, self.lines_per_track)] * missing
""")],
     SONG_DEMO + '''
s = State()
key(s, 0)
s.beat(64 * 1000 * 3)
key(s, 0)
x = song(s, 1000)
assert x.count("<Note>C#0</Note>") == 2, x.count("<Note>C#0</Note>")
''')

seed("14-instrument-two-digits", "C19",
     "a song with more than 256 instruments",
     "The instrument column wraps around after FF",
     [(EX, 'instr = f"{n.config_id:0>2X}"', 'instr = f"{n.config_id & 0xFF:0>2X}"')],
     SONG_DEMO + '''
s = State()
for i in range(258):
    s.apply(create(0x60, i & 0x7F))
    s.apply(create(0x68, i >> 7))
    s.beat(1000)
    key(s, 0)
x = song(s, 1000)
assert "<Instrument>101</Instrument>" in x
''')

seed("15-tempo-rounded", "C20",
     "a note length for which 661500 / n has a fraction of a half or more",
     "The tempo is rounded to the nearest number instead of down",
     [(EX, "    song.globals.beats_per_min = int(bpm)\n", "    song.globals.beats_per_min = round(bpm)\n")],
     SONG_DEMO + '''
s = State()
key(s, 0)
x = song(s, 5188)
assert "<BeatsPerMin>127</BeatsPerMin>" in x, re.findall("<BeatsPerMin>.*?<", x)
''')

seed("16-silent-patterns-skipped", "C21",
     "a song with a pattern in which no channel has an event",
     "Patterns without events are left out of the sequence, so the rest of the song starts too early",
     [(EX, """        song.pattern_sequence.add_pattern(p)
""", """        if any(t.lines for t in song.pattern_pool.patterns[p].tracks):
            song.pattern_sequence.add_pattern(p)
""")],
     SONG_DEMO + '''
s = State()
key(s, 0)
s.beat(64 * 1000 * 2)
key(s, 0)
x = song(s, 1000)
assert x.count("<SequenceEntry>") == 3, x.count("<SequenceEntry>")
''')

seed("17-estimate-looks-short", "C24",
     "a tune whose second key-on comes after 16000 samples",
     "Only the first 16000 samples are looked at for the note length",
     [(ST, "        multiplier = 4\n", "        multiplier = 2\n")],
     COMMON + '''
import contextlib
s = State()
s.beat(14000)
for k in range(3):
    s.apply(create(8, 0x78))
    s.beat(3000)
with contextlib.redirect_stdout(io.StringIO()):
    n = s.ticks_per_note()
assert n == 3000, n
''')

seed("18-leaked-input", "C26",
     "anything that fails while a file is open: a truncated input, a full disk",
     "smart_open closes its file only when the block inside ends normally",
     [(TO, """    try:
        yield fh
    finally:
        if filename and filename != "-":
            fh.close()
""", """    yield fh
    if filename and filename != "-":
        fh.close()
""")],
     '''
import os, tempfile
from tools import smart_open
fd, p = tempfile.mkstemp()
os.close(fd)
f = None
try:
    with smart_open(p, "rb") as f:
        raise EOFError
except EOFError:
    pass
os.unlink(p)
assert f.closed
''')

seed("19-short-note-length-ignored", "C27",
     "-tn with a value below 100",
     "A short note length given on the command line is replaced by the estimate",
     [(MA, "        if not ticks_per_note:\n", "        if (ticks_per_note or 0) < 100:\n")],
     SONG_DEMO + '''
import subprocess
d = tempfile.mkdtemp()
p, o = os.path.join(d, "a.vgm"), os.path.join(d, "t.xrns")
open(p, "wb").write(vgm(b"\\x54\\x08\\x78\\x61\\x10\\x27\\x54\\x08\\x78\\x66"))
try:
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(extractors.__file__), "main.py"), p, "-t", o, "-tn", "60"], stdout=subprocess.DEVNULL)
    assert r.returncode == 0
    with zipfile.ZipFile(o) as z:
        x = z.read("Song.xml").decode()
    assert "<BeatsPerMin>11025</BeatsPerMin>" in x, re.findall("<BeatsPerMin>.*?<", x)
finally:
    for q in (p, o):
        if os.path.exists(q):
            os.unlink(q)
    os.rmdir(d)
''')

seed("20-block-header-padded", "C28",
     "a file that ends inside the header of a data block",
     "A cut block header is filled up with zeros, so the truncated file is exported as if it were complete",
     [(CO, "        buffer = f.read(6)\n", "        buffer = f.read(6).ljust(6, b\"\\0\")\n")],
     COMMON + '''
try:
    cmds(b"\\x54\\x08\\x78\\x67\\x66\\x00")
except Exception:
    pass
else:
    raise AssertionError("a truncated data block header is accepted")
''')

seed("21-shared-key-on-times", "C29",
     "two states in one process",
     "All states share one set of key-on times, so one song's notes count for the estimate of the next",
     [(ST, "    def __init__(self) -> None:\n        self._channel_key_presses", "    def __init__(self, beats=set()) -> None:\n        self._channel_key_presses"),
      (ST, "        self._note_beats: Set[int] = set()\n", "        self._note_beats: Set[int] = beats\n")],
     COMMON + '''
a = State()
a.beat(17)
a.apply(create(8, 0x78))
b = State()
b.apply(create(8, 0x78))
assert b.ticks() == [0], b.ticks()
assert a.ticks() == [17], a.ticks()
''')

seed("22-high-c-clipped", "C17",
     "the key code of the C of octave 7, the highest of the chip",
     "The highest C is written an octave too low",
     [(NO, "            octave += 1\n", "            octave = min(octave + 1, 7)\n")],
     SONG_DEMO + '''
s = State()
s.apply(create(0x28, 0x7E))
key(s, 0)
assert "<Note>C-8</Note>" in song(s, 1000)
''')

seed("23-octave-bit-seven", "C09",
     "a key code written with bit 7 set, which the chip ignores",
     "Bit 7 of a key code becomes part of the octave",
     [(ST, "            self._note_configs[channel].octave = (cmd.value >> 4) & 0x07\n", "            self._note_configs[channel].octave = cmd.value >> 4\n")],
     COMMON + '''
s = State()
s.apply(create(0x2B, 0xBA))
s.apply(create(8, 0x7B))
assert s.key_presses(3)[0].octave == 3, s.key_presses(3)[0].octave
''')

seed("24-total-level-bit-seven", "C08",
     "a total level written with bit 7 set, which the chip ignores",
     "Bit 7 of a total level is stored as part of it",
     [(ST, """            self._channel_configs[channel].operators[operator].total_level = (
                cmd.value & 0x7F
            )
""", """            self._channel_configs[channel].operators[operator].total_level = cmd.value
""")],
     COMMON + '''
s = State()
s.apply(create(0x7A, 0x85))
assert s.channel_config(2).operators[3].total_level == 5, s.channel_config(2).operators[3].total_level
''')

seed("25-writes-with-nothing-to-wait-for", "C25",
     "a file with several YM2151 chips' worth of commands: a write that comes straight after an identical one to the same register",
     "A key-on that repeats the write before it is dropped while replaying",
     [(MA, """    st = state.State()

    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
""", """    st = state.State()
    last = None

    for cmd in cmds:
        if isinstance(cmd, config.YM2151Command):
            if (cmd.reg, cmd.value) != last:
                st.apply(cmd)
            last = (cmd.reg, cmd.value)
""")],
     COMMON + '''
import main
from vgm.command import WaitCommand
s = main.process_vgm_file([create(8, 0x78), WaitCommand(0x61, 1000), create(8, 0x78), create(8, 0)])
assert [n.sample for n in s.key_presses(0)] == [0, 1000, 1000], [n.sample for n in s.key_presses(0)]
''')

seed("26-at-most-255-instruments", "C22",
     "a file that keys on more than 255 different instruments",
     "The instrument file ends after 255 instruments, as many as Renoise takes",
     [(EX, "json.dumps(s.configs, cls", "json.dumps(s.configs[:255], cls")],
     SONG_DEMO + '''
import json, main
b = b"".join(b"\\x54\\x60" + bytes([i & 0x7F]) + b"\\x54\\x68" + bytes([i >> 7]) + b"\\x54\\x08\\x78\\x70" for i in range(260))
d = tempfile.mkdtemp()
p, o = os.path.join(d, "a.vgm"), os.path.join(d, "i.json")
try:
    open(p, "wb").write(vgm(b + b"\\x66"))
    with contextlib.redirect_stdout(io.StringIO()):
        main.main(p, o, None, 735)
    with open(o) as f:
        assert len(json.load(f)) == 260
finally:
    for q in (p, o):
        if os.path.exists(q):
            os.unlink(q)
    os.rmdir(d)
''')

LIST_DEMO = COMMON + '''
import contextlib, os, tempfile
import extractors

def listing(s, tpn):
    d = tempfile.mkdtemp()
    p = os.path.join(d, "t.csv")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            extractors.extract_tracks(s, p, tpn)
        with open(p) as f:
            return [[x.strip() for x in l.split(",")] for l in f.read().splitlines()]
    finally:
        if os.path.exists(p):
            os.unlink(p)
        os.rmdir(d)
'''

seed("27-listing-keeps-first", "C23",
     "two events of one channel that fall on one line",
     "The listing shows the first of two events of a channel on a line instead of the one that lasts",
     [(EX, "                    note_row[ch] = str(channel_notes[ch])\n", "                    note_row[ch] = note_row[ch] or str(channel_notes[ch])\n")],
     LIST_DEMO + '''
s = State()
s.apply(create(0x2A, 0x44))
s.apply(create(8, 0x7A))
s.beat(100)
s.apply(create(8, 2))
rows = listing(s, 1000)
assert rows[1][5 + 2] == "Key Off", rows[1]
''')

seed("28-listing-pattern-wraps", "C23",
     "a song of more than 64 patterns",
     "The pattern number of the listing starts again after 64 patterns",
     [(EX, "                        str(total_row // line_count),\n                        str(total_row),\n", "                        str(total_row // line_count % 64),\n                        str(total_row),\n")],
     LIST_DEMO + '''
s = State()
s.beat(1)
s.apply(create(8, 0x7A))
s.beat(64 * 70)
s.apply(create(8, 2))
rows = listing(s, 1)
for r in rows[1:]:
    assert [int(r[1]), int(r[2])] == [int(r[3]) % 64, int(r[3]) // 64], r
''')

seed("29-unknown-settings-zero", "C32",
     "reading a setting by a name that does not exist",
     "Misspelled settings of an instrument read as 0 instead of raising AttributeError",
     [(CF, "        return getattr(self._channel, item)\n", "        return getattr(self._channel, item, 0)\n")],
     COMMON + '''
s = State()
s.apply(create(8, 0x78))
c = s.configs[0]
assert c.fb == 0 and hasattr(c, "noise_freq")
assert not hasattr(c, "no_such_setting")
''')

seed("30-modulation-depths-swapped", "C32",
     "an instrument whose two modulation depths differ",
     "The modulation depths of an instrument read as each other",
     [(CF, "            return self._base.phs_md\n", "            return self._base.amp_md\n"), (CF, "        if item == \"amp_md\":\n            return self._base.amp_md\n", "        if item == \"amp_md\":\n            return self._base.phs_md\n")],
     COMMON + '''
s = State()
s.apply(create(0x19, 0x85))
s.apply(create(0x19, 0x09))
s.apply(create(8, 0x78))
c = s.configs[0]
assert (c.amp_md, c.phs_md) == (9, 5), (c.amp_md, c.phs_md)
''')

seed("31-dual-chip-unsupported", "C05",
     "a clock with the dual-chip bit set",
     "A chip whose clock field has its top bits set is reported as unsupported",
     [(CO, "        return chip in self.clocks and self.clocks[chip] > 0\n", "        return chip in self.clocks and 0 < self.clocks[chip] < 1 << 30\n")],
     COMMON + '''
b = bytearray(vgm(b"\\x66"))
b[0x30:0x34] = struct.pack("<I", 3579545 | 1 << 30)
v = core.reader(io.BytesIO(bytes(b)))
assert v.clock("ym2151") == 3579545 | 1 << 30
assert v.supports("ym2151")
''')

seed("32-time-wraps", "C11",
     "a recording of more than 6 minutes",
     "The time of key events starts again after 2^24 samples",
     [(ST, "        self._samples += samples\n", "        self._samples = (self._samples + samples) & 0xFFFFFF\n")],
     COMMON + '''
s = State()
s.apply(create(8, 0x78))
for _ in range(400):
    s.beat(44100)
s.apply(create(8, 0))
assert s.key_presses(0)[-1].sample == 400 * 44100
''')
