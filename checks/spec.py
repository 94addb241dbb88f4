"""Tables written from the VGM and YM2151 documents, not from the code."""

NOTE_NAMES = {0: ("C#", 0), 1: ("D-", 0), 2: ("D#", 0), 4: ("E-", 0), 5: ("F-", 0), 6: ("F#", 0), 8: ("G-", 0),
              9: ("G#", 0), 10: ("A-", 0), 12: ("A#", 0), 13: ("B-", 0), 14: ("C-", 1)}


def operand_bytes(op):
    """Fixed operand bytes after the opcode (data blocks carry more)."""
    if op < 0x30:
        return 0
    if op < 0x40:
        return 1
    if op < 0x4F:
        return 2
    if op < 0x51:
        return 1
    if op < 0x60:
        return 2
    if op == 0x61:
        return 2
    if op == 0x67:
        return 6
    if op == 0x68:
        return 11
    if op < 0x90:
        return 0
    if op < 0xA0:
        return {0x90: 4, 0x91: 4, 0x92: 5, 0x93: 10, 0x94: 1, 0x95: 4}.get(op, 0)
    if op < 0xC0:
        return 2
    if op < 0xE0:
        return 3
    return 4


def wait_samples(op, operands):
    """Samples a command makes time advance by; None for a command that takes no time."""
    if op == 0x61:
        return operands[0] | operands[1] << 8
    if op == 0x62:
        return 735
    if op == 0x63:
        return 882
    if 0x70 <= op <= 0x7F:
        return (op & 15) + 1
    if 0x80 <= op <= 0x8F:
        return op & 15
    return None


OP_FIELDS = {
    # register block -> [(operator field, shift, mask)]
    0x40: [("first_detune", 4, 7), ("multiply", 0, 15)],
    0x60: [("total_level", 0, 0x7F)],
    0x80: [("key_scale", 6, 3), ("attack_rate", 0, 0x1F)],
    0xA0: [("ase", 7, 1), ("first_decay_rate", 0, 0x1F)],
    0xC0: [("second_detune", 6, 3), ("second_decay_rate", 0, 0x1F)],
    0xE0: [("first_decay_level", 4, 15), ("release_rate", 0, 15)],
}
OPERATOR_FIELDS = [f for v in OP_FIELDS.values() for f, _, _ in v]
CHANNEL_FIELDS = ["fb", "ams", "pms", "connection", "noise", "noise_freq"]
NOTE_FIELDS = ["right", "left", "octave", "note", "key_fraction"]
BASE_FIELDS = ["waveform", "lfo", "amp_md", "phs_md"]


def register_effect(reg, value):
    """{location: value} written by a register write; locations as the observation of checks/ym.py names them."""
    ch = reg & 7
    out = {}
    if reg == 0x0F:
        out[("ch", 7, "noise")] = value >> 7
        out[("ch", 7, "noise_freq")] = value & 0x1F
    elif reg == 0x18:
        out[("base", "lfo")] = value
    elif reg == 0x19:
        out[("base", "phs_md" if value & 0x80 else "amp_md")] = value & 0x7F
    elif reg == 0x1B:
        out[("base", "waveform")] = value & 3
    elif 0x20 <= reg < 0x28:
        out[("note", ch, "right")] = value >> 7
        out[("note", ch, "left")] = value >> 6 & 1
        out[("ch", ch, "fb")] = value >> 3 & 7
        out[("ch", ch, "connection")] = value & 7
    elif 0x28 <= reg < 0x30:
        out[("note", ch, "octave")] = value >> 4 & 7
        out[("note", ch, "note")] = value & 15
    elif 0x30 <= reg < 0x38:
        out[("note", ch, "key_fraction")] = value >> 2
    elif 0x38 <= reg < 0x40:
        out[("ch", ch, "pms")] = value >> 4 & 7
        out[("ch", ch, "ams")] = value & 3
    elif reg >= 0x40:
        for f, s, m in OP_FIELDS[reg & 0xE0]:
            out[("op", ch, reg >> 3 & 3, f)] = value >> s & m
    return out


def commands(data):
    """(register writes and waits up to the end of the stream) of an uncompressed VGM file, read as the document says."""
    version = int("%x" % int.from_bytes(data[8:12], "little"))
    pos = 0x34 + int.from_bytes(data[0x34:0x38], "little") if version >= 150 else 0x40
    out = []
    while pos < len(data):
        op = data[pos]
        if op == 0x66:
            break
        args = data[pos + 1:pos + 1 + operand_bytes(op)]
        pos += 1 + operand_bytes(op)
        if op == 0x67:
            pos += int.from_bytes(args[2:6], "little")
        if op == 0x54:
            out.append(("write", args[0], args[1]))
        elif wait_samples(op, args) is not None:
            out.append(("wait", wait_samples(op, args)))
    return out


WAVES = {0: "SAW", 1: "SQUARE", 2: "TRIANGLE", 3: "NOISE"}
OP_JSON = {"tl": "total_level", "ar": "attack_rate", "d1r": "first_decay_rate", "d1l": "first_decay_level", "d2r": "second_decay_rate", "rr": "release_rate",
           "ks": "key_scale", "mul": "multiply", "dt1": "first_detune", "dt2": "second_detune", "ase": "ase"}
SLOTS = {"m1": 0, "m2": 1, "c1": 2, "c2": 3}


class Chip:
    """The YM2151 as the register writes leave it, the instruments keyed so far and the key events."""

    def __init__(self):
        self.at = {}
        self.now = 0
        self.instruments = []
        self.events = {ch: [] for ch in range(8)}
        self.started = False
        self.beats = set()

    def get(self, *loc):
        return self.at.get(loc, 0)

    def instrument(self, ch, mask):
        return {
            "base": {"waveform": WAVES[self.get("base", "waveform")], "lfo": self.get("base", "lfo"),
                     "amp_md": self.get("base", "amp_md"), "phs_md": self.get("base", "phs_md")},
            "operators": "|".join(n for b, n in enumerate(("MOD1", "CAR1", "MOD2", "CAR2")) if mask >> b & 1),
            "channel": dict({"feedback": self.get("ch", ch, "fb"), "connection": self.get("ch", ch, "connection"), "ams": self.get("ch", ch, "ams"),
                             "pms": self.get("ch", ch, "pms"), "noise": bool(self.get("ch", ch, "noise")), "noise_freq": self.get("ch", ch, "noise_freq")},
                            **{s: {j: bool(self.get("op", ch, o, f)) if f == "ase" else self.get("op", ch, o, f) for j, f in OP_JSON.items()}
                               for s, o in SLOTS.items()}),
        }

    def write(self, reg, value):
        if reg != 8:
            self.at.update(register_effect(reg, value))
            return
        ch, mask = value & 7, value >> 3 & 15
        which = -1
        if mask:
            i = self.instrument(ch, mask)
            if i not in self.instruments:
                self.instruments.append(i)
            which = self.instruments.index(i)
            self.started = True
            self.beats.add(self.now)
        if self.started:
            n = {f: self.get("note", ch, f) for f in NOTE_FIELDS}
            n["right"], n["left"] = bool(n["right"]), bool(n["left"])
            self.events[ch].append((self.now, which, tuple(n[f] for f in NOTE_FIELDS)))

    def json(self):
        return [dict(id=k, **i) for k, i in enumerate(self.instruments)]


def play(cmds):
    c = Chip()
    for k, *a in cmds:
        if k == "wait":
            c.now += a[0]
        else:
            c.write(*a)
    return c
