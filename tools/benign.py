"""Edits that keep the behaviour: every check must stay quiet (exit 0) on them."""
import ast
import os

SRC = "/repo/src"
CO, CM, ST, CF, NO = "vgm/core.py", "vgm/command.py", "vgm/ym2151/state.py", "vgm/ym2151/config.py", "vgm/ym2151/note.py"
EX, MA, TO, SE, WR = "extractors.py", "main.py", "tools.py", "xrns/xrns_serializer.py", "xrns/writer.py"
PA, SO, PS = "xrns/parts/pattern.py", "xrns/parts/song.py", "xrns/parts/pattern_sequence.py"
S = tuple("C%02d" % i for i in range(1, 8))
Y = tuple("C%02d" % i for i in range(8, 15))
X = tuple("C%02d" % i for i in range(17, 22))
K = ("C12", "C13", "C14")
M = ("C22", "C25", "C26", "C27", "C28")
T = ("C16", "C26", "C27", "C22")
I = ("C14", "C16", "C22", "C27", "C29")
V = ("C13", "C14", "C15", "C16", "C29")
E = ("C14", "C24", "C27", "C11")
R = S + ("C22", "C28", "C29")
Y2 = Y + ("C16", "C24", "C25", "C29")


def text(f, qual):
    s = open(os.path.join(SRC, f)).read()
    node = ast.parse(s)
    for q in qual.split("."):
        node = [n for n in node.body if getattr(n, "name", None) == q][0]
    lines = s.split("\n")
    a = min([node.lineno] + [d.lineno for d in node.decorator_list])
    return "\n".join(lines[a - 1:node.end_lineno])


def fn(f, qual, new):
    """Replace a whole function or method (new: text indented for its place)."""
    return (f, text(f, qual), new.strip("\n"))


CASES = [
    # ---------------------------------------------------------------- core.py
    ("read_generic", S, [fn(CO, "_read32", '''
def _exact(file, n):
    data = file.read(n)
    if data is None or len(data) < n:
        raise EOFError
    return data


def _read32(file):
    return int.from_bytes(_exact(file, 4), "little")
'''), fn(CO, "_read16", '''
def _read16(file):
    return int.from_bytes(_exact(file, 2), "little")
'''), fn(CO, "_read8", '''
def _read8(file):
    return _exact(file, 1)[0]
''')]),
    ("read_shift", S, [fn(CO, "_read16", '''
def _read16(file):
    lo = _read8(file)
    hi = _read8(file)
    return lo | hi << 8
'''), fn(CO, "_read32", '''
def _read32(file):
    value = 0
    for shift in range(0, 32, 8):
        value |= _read8(file) << shift
    return value
''')]),
    ("bcd_string", S, [fn(CO, "_read_bcd", '''
def _read_bcd(file):
    b = file.read(4)
    if b is None or len(b) != 4:
        raise EOFError
    o = 0
    for item in reversed(b):
        o = o * 100 + (item >> 4) * 10 + (item & 0x0F)
    return o
''')]),
    ("bcd_divmod", S, [fn(CO, "_read_bcd", '''
def _read_bcd(file):
    raw = _read32(file)
    value, scale = 0, 1
    while raw:
        raw, digit = divmod(raw, 16)
        value += digit * scale
        scale *= 10
    return value
''')]),
    ("struct_obj", S, [(CO, "def _read32(", 'U32 = struct.Struct("<I")\n\n\ndef _read32('), (CO, 'struct.unpack("<I", b)[0]', "U32.unpack(b)[0]"),
                       (CO, 'return struct.unpack("<H", b)[0]', 'value, = struct.unpack("<H", b)\n    return value')]),
    ("command_table", S, [fn(CO, "command", '''
_SIZES = {}
for _op in range(0x100):
    if _op < 0x30 or _op == 0x60 or _op in (0x64, 0x65) or 0x69 <= _op < 0x70 or 0x96 <= _op < 0xA0:
        _SIZES[_op] = None
    elif 0x30 <= _op < 0x40 or 0x4F <= _op <= 0x50 or _op == 0x94:
        _SIZES[_op] = 1
    elif _op < 0x60:
        _SIZES[_op] = 2
    elif _op in (0x90, 0x91, 0x95):
        _SIZES[_op] = 4
    elif _op == 0x92:
        _SIZES[_op] = 5
    elif _op == 0x93:
        _SIZES[_op] = 10
    elif 0xA0 <= _op < 0xC0:
        _SIZES[_op] = 2
    elif 0xC0 <= _op < 0xE0:
        _SIZES[_op] = 3
    elif _op >= 0xE0:
        _SIZES[_op] = 4


def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
    if cmd_id == 0x54:
        reg = _read8(f)
        return YM2151Command(cmd_id, reg, _read8(f))
    if cmd_id == 0x61:
        return WaitCommand(cmd_id, _read16(f))
    if cmd_id in (0x62, 0x63):
        return WaitCommand(cmd_id, {0x62: 735, 0x63: 882}[cmd_id])
    if cmd_id == 0x66:
        return EOSCommand(cmd_id)
    if cmd_id == 0x67:
        buffer = f.read(6)
        size = struct.unpack("<xBI", buffer)[1]
        return VgmCommand(cmd_id, f.read(size))
    if cmd_id == 0x68:
        buffer = f.read(11)
        (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", buffer)
        return VgmCommand(cmd_id, f.read(ssH * 256 + ssB))
    if 0x70 <= cmd_id < 0x80:
        return WaitCommand(cmd_id)
    if 0x80 <= cmd_id < 0x90:
        return WaitCommand(cmd_id, cmd_id & 0x0F)
    size = _SIZES[cmd_id]
    return VgmCommand(cmd_id) if size is None else VgmCommand(cmd_id, f.read(size))
''')]),
    ("command_ranges", S, [fn(CO, "command", '''
_RANGES = [
    (0x00, 0x2F, 0), (0x30, 0x3F, 1), (0x40, 0x4E, 2), (0x4F, 0x50, 1), (0x51, 0x5F, 2), (0x60, 0x60, 0),
    (0x64, 0x65, 0), (0x69, 0x6F, 0), (0x90, 0x91, 4), (0x92, 0x92, 5), (0x93, 0x93, 10), (0x94, 0x94, 1),
    (0x95, 0x95, 4), (0x96, 0x9F, 0), (0xA0, 0xBF, 2), (0xC0, 0xDF, 3), (0xE0, 0xFF, 4),
]


def _write(cmd_id, f):
    reg = _read8(f)
    value = _read8(f)
    return YM2151Command(cmd_id, reg, value)


def _block(cmd_id, f):
    _, size = struct.unpack("<xBI", f.read(6))
    return VgmCommand(cmd_id, f.read(size))


def _pcm(cmd_id, f):
    (cc, ooB, ooH, ddB, ddH, ssB, ssH) = struct.unpack("<xBBHBHBH", f.read(11))
    return VgmCommand(cmd_id, f.read((ssH * 256) + ssB))


_SPECIAL = {
    0x54: _write,
    0x61: lambda c, f: WaitCommand(c, _read16(f)),
    0x62: lambda c, f: WaitCommand(c, 735),
    0x63: lambda c, f: WaitCommand(c, 882),
    0x66: lambda c, f: EOSCommand(c),
    0x67: _block,
    0x68: _pcm,
}


def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
    special = _SPECIAL.get(cmd_id)
    if special is not None:
        return special(cmd_id, f)
    for low, high, size in _RANGES:
        if low <= cmd_id <= high:
            return VgmCommand(cmd_id, f.read(size)) if size else VgmCommand(cmd_id)
    if cmd_id >> 4 == 7:
        return WaitCommand(cmd_id)
    return WaitCommand(cmd_id, cmd_id & 0x0F)
''')]),
    ("vgm_generator", S, [fn(CO, "Vgm.__next__", '''
    def __next__(self):
        while True:
            cmd = self.file.read(1)
            if not cmd:
                raise StopIteration
            return command(ord(cmd), self.file)
''')]),
    ("vgm_opcode", S, [fn(CO, "Vgm.__next__", '''
    def _opcode(self):
        byte = self.file.read(1)
        return byte[0] if byte else None

    def __next__(self):
        opcode = self._opcode()
        if opcode is None:
            raise StopIteration()
        return command(opcode, self.file)
''')]),
    ("vgm_header_split", S, [fn(CO, "Vgm.__init__", '''
    def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
        self.file = f
        self.clocks: Dict[str, int] = {}
        self._read_header()
        self.file.seek(self.data_start)

    def _read_header(self):
        f = self.file
        self.eof_offset = _read32(f)
        self.version = _read_bcd(f)
        f.read(4)
        ym2413 = _read32(f)
        f.seek(0x30)
        ym2151 = _read32(f)
        self.clocks.update(ym2413=ym2413, ym2151=ym2151 if self.version >= 110 else ym2413)
        if self.version >= 150:
            offset = _read32(f)
            self.data_start = offset + 0x34
''')]),
    ("reader_early", S, [fn(CO, "reader", '''
def _source(vgmfile):
    magic = vgmfile.read(4)
    if magic.startswith(b"\\x1f\\x8b"):
        vgmfile.seek(0)
        unpacked = gzip.GzipFile(fileobj=vgmfile, mode="rb")
        return unpacked, unpacked.read(4)
    return vgmfile, magic


def reader(vgmfile: BinaryIO) -> Optional[Vgm]:
    logging.info("opening %s", vgmfile)
    source, magic = _source(vgmfile)
    if magic == b"Vgm ":
        return Vgm(source)
    return None
''')]),
    ("supports_get", S, [fn(CO, "Vgm.supports", '''
    def supports(self, chip: str) -> bool:
        return self.clocks.get(chip, 0) > 0
''')]),
    ("wait_command", S + Y, [fn(CM, "WaitCommand.__init__", '''
    def __init__(self, cmd_id, samples=None):
        VgmCommand.__init__(self, cmd_id)
        short = cmd_id >> 4 == 0x7
        self.samples = (cmd_id & 0x0F) + 1 if short else samples
''')]),
    # ---------------------------------------------------------------- state.py
    ("state_noop", Y, [(ST, "        channel = cmd.reg & 0x07\n", "        _ = None\n        channel = cmd.reg & 0x07\n"), (ST, "        self._samples += samples", "        pass\n        self._samples += samples")]),
    ("state_comp", Y, [(ST, '''        for i in range(8):
            self._channel_key_presses.append([])
            self._channel_configs.append(ChannelConfig())
            self._note_configs.append(NoteConfig())
''', '''        self._channel_key_presses = [[] for _ in range(8)]
        self._channel_configs = [ChannelConfig() for _ in range(8)]
        self._note_configs = list(NoteConfig() for _ in range(8))
''')]),
    ("state_keyon_split", Y, [(ST, text(ST, "State.apply").split("        # Key On/Off\n")[1].split("        # Noise Enable")[0], '''        if cmd.reg == 0x08:
            self._key(cmd.value)

'''), (ST, "    def key_presses(self, ch: int)", '''    def _find(self, ch, op):
        for c in self.configs:
            if c.compare(self._current_base_config, self._channel_configs[ch], op):
                return c._id
        return -1

    def _key(self, value):
        op = Operators((value >> 3) & 0xF)
        ch = value & 0x07
        if op:
            config_id = self._find(ch, op)
            if config_id < 0:
                config_id = len(self.configs)
                self.configs.append(
                    Config(
                        config_id,
                        copy.deepcopy(self._current_base_config),
                        copy.deepcopy(self._channel_configs[ch]),
                        op,
                    )
                )
            if self._first_beat is None:
                self._first_beat = self._samples
        else:
            config_id = -1
        if self._first_beat is None:
            return
        self._channel_key_presses[ch].append(
            Note(config_id, self._note_configs[ch], self._samples)
        )
        if config_id >= 0:
            self._note_beats.add(self._samples)

    def key_presses(self, ch: int)''')]),
    ("state_keyon_loop", Y, [(ST, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            config_id = 0
            while config_id < len(self.configs):
                if self.configs[config_id].compare(
                    self._current_base_config, self._channel_configs[ch], op
                ):
                    break
                config_id += 1
''')]),
    ("state_keyon_forelse", Y, [(ST, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            for config_id, known in enumerate(self.configs):
                if known.compare(
                    self._current_base_config, self._channel_configs[ch], op
                ):
                    break
            else:
                config_id = len(self.configs)
''')]),
    ("state_keyon_list", Y, [(ST, '''            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
''', '''            matches = [
                i
                for i, c in enumerate(self.configs)
                if c.compare(self._current_base_config, self._channel_configs[ch], op)
            ]
            config_id = matches[0] if matches else len(self.configs)
''')]),
    ("state_nocopy_base", Y, [(ST, "                    self._current_base_config = copy.deepcopy(self._current_base_config)\n", "")]),
    ("state_op_var", Y, [(ST, '''            self._channel_configs[channel].operators[operator].first_decay_level = (
                cmd.value >> 4
            ) & 0x0F
            self._channel_configs[channel].operators[operator].release_rate = (
                cmd.value & 0x0F
            )''', '''            target = self._channel_configs[channel].operators[operator]
            target.first_decay_level, target.release_rate = divmod(cmd.value & 0xFF, 16)''')]),
    ("state_dispatch", Y, [(ST, '''        elif cmd.reg & 0xE0 == 0x40:''', '''        elif cmd.reg >= 0x40:
            self._operator_write(cmd.reg & 0xE0, channel, operator, cmd.value)

        elif cmd.reg & 0xE0 == 0x40:'''), (ST, "    def key_presses(self, ch: int)", '''    def _operator_write(self, block, channel, operator, value):
        o = self._channel_configs[channel].operators[operator]
        if block == 0x40:
            fields = {"first_detune": value >> 4 & 7, "multiply": value & 15}
        elif block == 0x60:
            fields = {"total_level": value & 127}
        elif block == 0x80:
            fields = {"key_scale": value >> 6, "attack_rate": value & 31}
        elif block == 0xA0:
            fields = {"ase": bool(value & 128), "first_decay_rate": value & 31}
        elif block == 0xC0:
            fields = {"second_detune": value >> 6, "second_decay_rate": value & 31}
        else:
            fields = {"first_decay_level": value >> 4, "release_rate": value & 15}
        for name, field in fields.items():
            setattr(o, name, field)

    def key_presses(self, ch: int)''')]),
    ("state_table", Y, [(ST, "class State:\n", '''def _bits(low, width):
    mask = (1 << width) - 1
    return lambda v: (v >> low) & mask


_OPERATOR_FIELDS = {
    0x40: (("first_detune", _bits(4, 3)), ("multiply", _bits(0, 4))),
    0x60: (("total_level", _bits(0, 7)),),
    0x80: (("key_scale", _bits(6, 2)), ("attack_rate", _bits(0, 5))),
    0xA0: (("ase", lambda v: v >= 0x80), ("first_decay_rate", _bits(0, 5))),
    0xC0: (("second_detune", _bits(6, 2)), ("second_decay_rate", _bits(0, 5))),
    0xE0: (("first_decay_level", _bits(4, 4)), ("release_rate", _bits(0, 4))),
}


class State:
'''), (ST, '''        elif cmd.reg & 0xE0 == 0x40:''', '''        elif cmd.reg & 0xE0 in _OPERATOR_FIELDS:
            target = self._channel_configs[channel].operators[operator]
            for name, extract in _OPERATOR_FIELDS[cmd.reg & 0xE0]:
                setattr(target, name, extract(cmd.value))

        elif cmd.reg & 0xE0 == 0x40:''')]),
    ("state_handlers", Y, [(ST, '''        # Noise Enable, Noise Frequency
        elif cmd.reg == 0x0F:
            self._channel_configs[7].noise = (cmd.value & (1 << 7)) > 0
            self._channel_configs[7].noise_freq = cmd.value & 0x1F

        # LFO - Low Frequency Oscillator
        elif cmd.reg == 0x18:
            self._current_base_config.lfo = cmd.value
''', '''        elif cmd.reg in (0x0F, 0x18):
            {0x0F: self._noise, 0x18: self._lfo}[cmd.reg](cmd.value)
'''), (ST, "    def key_presses(self, ch: int)", '''    def _noise(self, value):
        last = self._channel_configs[-1]
        last.noise = value > 0x7F
        last.noise_freq = value % 32

    def _lfo(self, value):
        self._current_base_config.lfo = value

    def key_presses(self, ch: int)''')]),
    ("state_local_cmd", Y, [(ST, '''        elif cmd.reg & 0xF8 == 0x28:
            self._note_configs[channel].octave = (cmd.value >> 4) & 0x07
            self._note_configs[channel].note = cmd.value & 0x0F
''', '''        elif 0x28 <= cmd.reg <= 0x2F:
            pitch = self._note_configs[cmd.reg - 0x28]
            pitch.octave, pitch.note = (cmd.value & 0x7F) >> 4, cmd.value % 16
''')]),
    ("state_swap", Y, [(ST, '''            self._note_configs[channel].right = (cmd.value & (1 << 7)) > 0
            self._note_configs[channel].left = (cmd.value & (1 << 6)) > 0
            self._channel_configs[channel].fb = (cmd.value >> 3) & 0x07
            self._channel_configs[channel].connection = cmd.value & 0x07
''', '''            self._channel_configs[channel].connection = cmd.value & 0x07
            self._channel_configs[channel].fb = (cmd.value >> 3) & 0x07
            self._note_configs[channel].left = bool(cmd.value & 0x40)
            self._note_configs[channel].right = bool(cmd.value & 0x80)
''')]),
    ("state_beat", Y, [fn(ST, "State.beat", '''
    def beat(self, samples) -> None:
        now = self._samples + samples
        self._samples = now
'''), fn(ST, "State.ticks", '''
    def ticks(self) -> List[int]:
        return sorted(self._note_beats)
''')]),
    ("state_getattr_order", Y, [(ST, '''        self._current_base_config = BaseConfig()
        self.configs: List[Config] = []
''', '''        self.configs: List[Config] = []
        self._current_base_config = BaseConfig()
''')]),
    ("state_channel_obj", Y, [(ST, "class State:\n", '''class _Channel:
    def __init__(self):
        self.notes = []
        self.config = ChannelConfig()
        self.pitch = NoteConfig()


class State:
'''), (ST, '''        for i in range(8):
            self._channel_key_presses.append([])
            self._channel_configs.append(ChannelConfig())
            self._note_configs.append(NoteConfig())
''', '''        self._channels = [_Channel() for _ in range(8)]
        self._channel_key_presses = [c.notes for c in self._channels]
        self._channel_configs = [c.config for c in self._channels]
        self._note_configs = [c.pitch for c in self._channels]
''')]),
    # ---------------------------------------------------------------- config.py
    ("config_eq_tuple", Y, [fn(CF, "OperatorConfig.__eq__", '''
    def _key(self):
        return (
            self.total_level, self.attack_rate, self.first_decay_rate, self.first_decay_level, self.second_decay_rate,
            self.release_rate, self.key_scale, self.multiply, self.first_detune, self.second_detune, self.ase,
        )

    def __eq__(self, other: Any) -> bool:
        if not isinstance(other, OperatorConfig):
            return NotImplemented
        return self._key() == other._key()
''')]),
    ("config_eq_dict", Y, [fn(CF, "OperatorConfig.__eq__", '''
    def __eq__(self, other: Any) -> bool:
        if isinstance(other, OperatorConfig):
            return self.__dict__ == other.__dict__
        return NotImplemented
'''), fn(CF, "BaseConfig.__eq__", '''
    def __eq__(self, other: Any) -> bool:
        if isinstance(other, BaseConfig):
            return vars(self) == vars(other)
        return NotImplemented
''')]),
    ("config_eq_all", Y, [fn(CF, "ChannelConfig.__eq__", '''
    def __eq__(self, other: Any) -> bool:
        if isinstance(other, ChannelConfig):
            names = ("fb", "connection", "ams", "pms", "operators", "noise", "noise_freq")
            return all(getattr(self, n) == getattr(other, n) for n in names)
        return NotImplemented
''')]),
    ("config_dataclass", Y, [fn(CF, "OperatorConfig", '''
@dataclasses.dataclass
class OperatorConfig:
    total_level: int = 0
    attack_rate: int = 0
    first_decay_rate: int = 0
    first_decay_level: int = 0
    second_decay_rate: int = 0
    release_rate: int = 0
    key_scale: int = 0
    multiply: int = 0
    first_detune: int = 0
    second_detune: int = 0
    ase: bool = False

    def __deepcopy__(self, _) -> object:
        return dataclasses.replace(self)

    def repr_json(self):
        return {
            "tl": self.total_level,
            "ar": self.attack_rate,
            "d1r": self.first_decay_rate,
            "d1l": self.first_decay_level,
            "d2r": self.second_decay_rate,
            "rr": self.release_rate,
            "ks": self.key_scale,
            "mul": self.multiply,
            "dt1": self.first_detune,
            "dt2": self.second_detune,
            "ase": self.ase,
        }
'''), (CF, "import copy\n", "import copy\nimport dataclasses\n")]),
    ("config_copy", Y, [fn(CF, "OperatorConfig.__deepcopy__", '''
    def __deepcopy__(self, _) -> object:
        twin = OperatorConfig()
        twin.__dict__.update(self.__dict__)
        return twin
'''), fn(CF, "BaseConfig.__deepcopy__", '''
    def __deepcopy__(self, memo) -> object:
        return copy.copy(self)
''')]),
    ("config_nodeepcopy", Y, [("vgm/ym2151/config.py", text(CF, "ChannelConfig.__deepcopy__"), "    pass")]),
    ("config_compare", Y, [fn(CF, "Config.compare", '''
    def compare(self, base: BaseConfig, channel: ChannelConfig, operators: Operators):
        if self._operators != operators:
            return False
        if self._base != base:
            return False
        return not self._channel != channel
''')]),
    ("config_compare_tuple", Y, [fn(CF, "Config.compare", '''
    def compare(self, base: BaseConfig, channel: ChannelConfig, operators: Operators):
        return (self._operators, self._base, self._channel) == (operators, base, channel)
''')]),
    ("config_ctor", Y, [(CF, '''        self.operators: List[OperatorConfig] = (
            [] if not other else copy.deepcopy(other.operators)
        )
''', '''        if other:
            self.operators = [OperatorConfig(o) for o in other.operators]
        else:
            self.operators = [OperatorConfig() for _ in range(4)]
'''), (CF, '''        if not other:
            for dev in range(4):
                self.operators.append(OperatorConfig())

''', "")]),
    ("config_json", Y, [fn(CF, "Operators.repr_json", '''
    def repr_json(self):
        order = (Operators.MOD1, Operators.CAR1, Operators.MOD2, Operators.CAR2)
        return "|".join(o.name for o in order if o & self)
'''), fn(CF, "ConfigEncoder.default", '''
    def default(self, o: Any) -> Any:
        convert = getattr(o, "repr_json", None)
        if convert is None:
            return super().default(o)
        return convert()
'''), fn(CF, "BaseConfig.repr_json", '''
    def repr_json(self):
        return dict(waveform=self.waveform, lfo=self.lfo, amp_md=self.amp_md, phs_md=self.phs_md)
''')]),
    # ---------------------------------------------------------------- note.py
    ("note_fields", K + X, [fn(NO, "Note.__init__", '''
    def __init__(self, config_id: int, note_config: NoteConfig, sample: int) -> None:
        self.config_id: int = config_id
        for name in ("right", "left", "octave", "note", "key_fraction"):
            setattr(self, name, getattr(note_config, name))
        self.sample: int = sample
''')]),
    ("note_name", X, [fn(NO, "Note.xrns_note", '''
    def xrns_note(self):
        if self.config_id >= 0:
            octave = self.octave + (1 if self.note == 14 else 0)
            return _NOTE_LOOKUP_XRNS[self.note] + str(octave)
        return "Off"
''')]),
    ("note_list", X, [fn(NO, "Note.xrns_note", '''
    def xrns_note(self):
        names = ["C#", "D-", "D#", "D#", "E-", "F-", "F#", "F#", "G-", "G#", "A-", "A#", "A#", "B-", "C-", "C#"]
        if self.config_id < 0:
            return "Off"
        return "%s%d" % (names[self.note], self.octave + (self.note == 14))
''')]),
    # ---------------------------------------------------------------- extractors.py
    ("ex_divmod", X, [(EX, '''            total_row = n.sample // ticks_per_note
            row = total_row % line_count
            pattern = total_row // line_count
''', '''            total_row = n.sample // ticks_per_note
            pattern, row = divmod(total_row, line_count)
''')]),
    ("ex_helpers", X, [fn(EX, "extract_tracks_to_xrns", '''
def _panning(n):
    if n.left and n.right:
        return None
    return "00" if n.right else "F0"


def _instrument(n):
    return "%02X" % n.config_id if n.config_id >= 0 else None


def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
    print("Writing xrns {}...".format(track_filename))

    song = xrns.parts.song.Song(tracks=8, instruments=len(s.configs))
    song.globals.beats_per_min = int(60 / (ticks_per_note / 44100 * 4))
    pool = song.pattern_pool

    for ch in range(8):
        for n in s.key_presses(ch):
            line = n.sample // ticks_per_note
            pool.add_note(line // 64, ch, line % 64, n.xrns_note(), _instrument(n), _panning(n))

    for index, _ in enumerate(pool.patterns):
        song.pattern_sequence.add_pattern(index)

    with open(track_filename, "wb") as f:
        writer(f, song)
''')]),
    ("ex_generator", X, [fn(EX, "extract_tracks_to_xrns", '''
def _events(s):
    for ch in range(8):
        for n in s.key_presses(ch):
            yield ch, n


def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
    print(f"Writing xrns {track_filename}...")
    song = xrns.parts.song.Song(tracks=8, instruments=len(s.configs))
    note_length = ticks_per_note / 44100
    song.globals.beats_per_min = int(60 / (note_length * 4))

    for ch, n in _events(s):
        total_row = n.sample // ticks_per_note
        instr = f"{n.config_id:02X}" if n.config_id >= 0 else None
        pan = None
        if not (n.right and n.left):
            pan = "00" if n.right else "F0"
        song.pattern_pool.add_note(
            pattern=total_row // 64, channel=ch, line=total_row % 64, note=n.xrns_note(), instrument=instr, pan=pan
        )

    p = 0
    while p < len(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(p)
        p += 1

    with open(track_filename, "wb") as f:
        writer(f, song)
''')]),
    ("ex_pool", X, [fn(PA, "PatternPool.add_note", '''
    def _grow(self, count):
        for _ in range(len(self.patterns), count):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))

    def add_note(
        self,
        pattern: int,
        channel: int,
        line: int,
        note: str,
        instrument: str,
        pan: str,
    ):
        self._grow(pattern + 1)
        track = self.patterns[pattern].tracks[channel]
        track.lines[line] = Pattern.Line(note, instrument, pan)
''')]),
    ("ex_pool_extend", X, [(PA, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
''', '''        missing = pattern + 1 - len(self.patterns)
        if missing > 0:
            self.patterns.extend(
                Pattern(self.tracks, self.lines_per_track) for _ in range(missing)
            )
''')]),
    ("ser_loop", X, [fn(SE, "XrnsSerializer._render_pattern_track", '''
    def _render_pattern_track(self, track: Pattern.PatternTrack) -> dao.PatternTrack:
        lines = []
        for idx in track.lines:
            lines.append(self._render_line(idx, track.lines[idx]))
        return dao.PatternTrack(lines=dao.PatternTrack.Lines(line=lines))

    def _render_line(self, idx, line):
        column = dao.PatternLineNoteColumnNode(note=line.note, instrument=line.instrument, panning=line.pan)
        columns = dao.PatternLineNode.NoteColumns(note_column=[column])
        return dao.PatternLineNode(index=idx, note_columns=columns)
''')]),
    ("ser_sorted", X, [(SE, "for idx, line in track.lines.items()", "for idx, line in sorted(track.lines.items())")]),
    ("ser_tracks", X, [(SE, '''        color_iter = iter(self.config.track_colors)
        seq_track = [self._render_track(track, color_iter) for track in tracks.tracks]
''', '''        color_iter = iter(self.config.track_colors)
        seq_track = []
        for track in tracks.tracks:
            seq_track.append(self._render_track(track, color_iter))
'''), (SE, "        output.sequencer_master_track = master_track\n", "")]),
    ("ser_color", X, [(SE, '''        try:
            track.color = next(color_iter)
        except StopIteration:
            pass
''', '''        color = next(color_iter, None)
        if color is not None:
            track.color = color
''')]),
    ("ser_map", X, [(SE, '''            [self._render_instrument(instrument) for instrument in instruments]
''', '''            list(map(self._render_instrument, instruments))
'''), (SE, '''                [
                    self._render_sequence_entry(entry)
                    for entry in pattern_sequence.sequence_entries
                ]
''', '''                [dao.PatternSequenceEntry(pattern=e.pattern) for e in pattern_sequence.sequence_entries]
''')]),
    ("song_instruments", X, [(SO, "[Instrument()] * instruments", "[Instrument() for _ in range(instruments)]")]),
    ("writer_bytes", X, [(WR, '''    with zipfile.ZipFile(xrnsfile, mode="w") as zf:
        zf.writestr("Song.xml", rendered)''', '''    archive = zipfile.ZipFile(xrnsfile, "w")
    try:
        archive.writestr("Song.xml", rendered.encode("utf-8"))
    finally:
        archive.close()''')]),
    ("ex_with", X, [(EX, '''    with open(track_filename, "wb") as f:
        writer(f, song)
''', '''    out = open(track_filename, mode="wb")
    try:
        writer(out, song)
    finally:
        out.close()
''')]),
    ("ex_enumerate", X, [(EX, '''    for ch in range(channel_count):
        for n in s.key_presses(ch):
            total_row''', '''    for ch, presses in enumerate(map(s.key_presses, range(channel_count))):
        for n in presses:
            total_row''')]),
    ("ex_fraction", X, [(EX, '''    note_length = ticks_per_note / sample_freq
    beat_length = note_length * notes_per_beat
    bpm = 60 / beat_length
    song.globals.beats_per_min = int(bpm)
''', '''    song.globals.beats_per_min = (60 * sample_freq) // (ticks_per_note * notes_per_beat)
''')]),

    # ---- the program
    ("main_types", M, [fn(MA, "process_vgm_file", '''
def process_vgm_file(cmds):
    st = state.State()

    for cmd in cmds:
        kind = cmd.command_type
        if kind == VgmCommandType.EOS:
            break
        if kind == VgmCommandType.YM2151:
            st.apply(cmd)
        elif kind == VgmCommandType.WAIT:
            st.beat(cmd.samples)

    return st
'''), (MA, "from tools import smart_open\n", "from tools import smart_open\nfrom vgm.command import VgmCommandType\n")]),
    ("main_next", M, [fn(MA, "process_vgm_file", '''
def process_vgm_file(cmds):
    st = state.State()
    it = iter(cmds)
    while True:
        cmd = next(it, None)
        if cmd is None or isinstance(cmd, vgm.core.EOSCommand):
            return st
        if isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        elif isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
''')]),
    ("main_replay", M, [fn(MA, "process_vgm_file", '''
def _replay(st, cmd):
    if isinstance(cmd, config.YM2151Command):
        st.apply(cmd)
    elif isinstance(cmd, vgm.core.WaitCommand):
        st.beat(cmd.samples)


def _until_end(cmds):
    for cmd in cmds:
        if isinstance(cmd, vgm.core.EOSCommand):
            return
        yield cmd


def process_vgm_file(cmds):
    st = state.State()
    for cmd in _until_end(cmds):
        _replay(st, cmd)
    return st
''')]),
    ("main_takewhile", M, [(MA, "import argparse\n", "import argparse\nimport itertools\n"), fn(MA, "process_vgm_file", '''
def process_vgm_file(cmds):
    st = state.State()
    handlers = {
        config.YM2151Command: st.apply,
        vgm.core.WaitCommand: lambda c: st.beat(c.samples),
    }
    for cmd in itertools.takewhile(lambda c: not isinstance(c, vgm.core.EOSCommand), cmds):
        handler = handlers.get(type(cmd))
        if handler is not None:
            handler(cmd)
    return st
''')]),
    ("main_outside", M, [fn(MA, "main", '''
def main(
    vgm_filename: str,
    instr_filename: str,
    track_filename: str,
    ticks_per_note: int = None,
):
    with smart_open(vgm_filename, "rb") as f:
        print(f"Opening file: {vgm_filename}")
        cmds = vgm.core.reader(f)
        if cmds is None:
            raise SystemExit(f"{vgm_filename}: not a VGM file")

        s = process_vgm_file(cmds)

    if not ticks_per_note:
        print("Calculating Ticks Per Note", end="")
        ticks_per_note = s.ticks_per_note(show_progress=True)

    print(f"Ticks per Note: {ticks_per_note}")
    if track_filename:
        extract_tracks_to_xrns(s, track_filename, ticks_per_note)
    if instr_filename:
        extract_instruments(instr_filename, s)
''')]),
    ("main_load", M, [fn(MA, "main", '''
def load(vgm_filename):
    with smart_open(vgm_filename, "rb") as f:
        print("Opening file: {}".format(vgm_filename))
        cmds = vgm.core.reader(f)
        if cmds is None:
            raise SystemExit("{}: not a VGM file".format(vgm_filename))
        return process_vgm_file(cmds)


def main(
    vgm_filename: str,
    instr_filename: str,
    track_filename: str,
    ticks_per_note: int = None,
):
    s = load(vgm_filename)
    tpn = ticks_per_note or s.ticks_per_note(show_progress=True)
    print(f"Ticks per Note: {tpn}")
    outputs = ((instr_filename, lambda n: extract_instruments(n, s)), (track_filename, lambda n: extract_tracks_to_xrns(s, n, tpn)))
    for name, write in outputs:
        if name:
            write(name)
''')]),
    ("main_parse", M, [(MA, """    args = parser.parse_args()

    main(args.file, args.instrument, args.track, args.ticks_per_note)
""", """    args = parser.parse_args()
    options = vars(args)
    main(
        options["file"],
        options["instrument"],
        options["track"],
        ticks_per_note=options["ticks_per_note"],
    )
""")]),
    ("main_parser_fn", M, [(MA, """if __name__ == "__main__":
    parser = argparse.ArgumentParser(description="VGM Extractor")
""", """def make_parser():
    parser = argparse.ArgumentParser(description="VGM Extractor")
"""), (MA, """    args = parser.parse_args()

    main(args.file, args.instrument, args.track, args.ticks_per_note)
""", """    return parser


if __name__ == "__main__":
    args = make_parser().parse_args()

    main(args.file, args.instrument, args.track, args.ticks_per_note)
"""), (MA, '"-i", "--instrument", type=str', '"-i", "--instrument", dest="instrument", default=None'), (MA, '"--ticks-per-note",\n        type=int', '"--ticks-per-note",\n        default=None,\n        type=int')]),
    # ---- tools
    ("tools_class", T, [fn(TO, "smart_open", """
class smart_open:
    def __init__(self, filename: str, mode: str):
        self.own = bool(filename) and filename != "-"
        if self.own:
            self.fh = open(filename, mode)
        elif mode.startswith("w"):
            self.fh = sys.stdout.buffer if "b" in mode else sys.stdout
        elif mode.startswith("r"):
            self.fh = sys.stdin.buffer if "b" in mode else sys.stdin
        else:
            raise Exception("Unknown mode")

    def __enter__(self):
        return self.fh

    def __exit__(self, exc_type, exc, tb):
        if self.own:
            self.fh.close()
        return False
""")]),
    ("tools_with", T, [fn(TO, "smart_open", """
def _standard(mode):
    if mode.startswith("w"):
        stream = sys.stdout
    elif mode.startswith("r"):
        stream = sys.stdin
    else:
        raise Exception("Unknown mode")
    return stream.buffer if "b" in mode else stream


@contextlib.contextmanager
def smart_open(filename: str, mode: str):
    if not filename or filename == "-":
        yield _standard(mode)
    else:
        with open(filename, mode) as fh:
            yield fh
""")]),
    ("tools_nullcontext", T, [fn(TO, "smart_open", """
def smart_open(filename: str, mode: str):
    if filename and filename != "-":
        return open(filename, mode)
    if mode[:1] == "w":
        return contextlib.nullcontext(sys.stdout.buffer if "b" in mode else sys.stdout)
    if mode[:1] == "r":
        return contextlib.nullcontext(sys.stdin.buffer if "b" in mode else sys.stdin)
    raise Exception("Unknown mode")
""")]),
    ("tools_flag", T, [(TO, """    if filename and filename != "-":
        fh = open""", """    named = bool(filename) and filename != "-"
    if named:
        fh = open"""), (TO, """        if filename and filename != "-":
            fh.close()""", """        if named:
            fh.close()""")]),
    # ---- the instrument file
    ("instr_dump", I, [fn(EX, "extract_instruments", """
def extract_instruments(instr_filename, s):
    print(f"Writing instruments to {instr_filename}...")
    with smart_open(instr_filename, "w") as fo:
        json.dump(s.configs, fo, cls=config.ConfigEncoder, indent="\\t")
        fo.write("\\n")
""")]),
    ("instr_print", I, [fn(EX, "extract_instruments", """
def extract_instruments(instr_filename, s):
    print(f"Writing instruments to {instr_filename}...")
    text = config.ConfigEncoder(indent="\\t").encode(s.configs)
    with smart_open(instr_filename, "w") as fo:
        print(text, file=fo)
""")]),
    ("instr_default", I, [fn(EX, "extract_instruments", """
def _plain(o):
    return o.repr_json()


def extract_instruments(instr_filename, s):
    print(f"Writing instruments to {instr_filename}...")
    js = json.dumps(list(s.configs), default=_plain, indent=2, sort_keys=False)
    with smart_open(instr_filename, "w") as fo:
        fo.write(js + "\\n")
""")]),
    ("instr_plus", I, [(EX, """        fo.write(js)
        fo.write("\\n")
""", """        fo.write(f"{js}\\n")
""")]),
    ("config_repr", I, [(CF, """        o = []
        if self & Operators.MOD1:
            o.append(Operators.MOD1.name)
        if self & Operators.CAR1:
            o.append(Operators.CAR1.name)
        if self & Operators.MOD2:
            o.append(Operators.MOD2.name)
        if self & Operators.CAR2:
            o.append(Operators.CAR2.name)
        return "|".join(o)""", """        return "|".join(op.name for op in Operators if self & op)""")]),
    ("config_repr2", I, [(CF, """    def repr_json(self):
        return self.__dict__
""", """    def repr_json(self):
        return {
            "waveform": self.waveform,
            "lfo": self.lfo,
            "amp_md": self.amp_md,
            "phs_md": self.phs_md,
        }
"""), (CF, """            "m1": self.operators[0],
            "c1": self.operators[2],
            "m2": self.operators[1],
            "c2": self.operators[3],
        }""", """            **dict(zip(("m1", "m2", "c1", "c2"), self.operators)),
        }""")]),
    ("encoder_isinstance", I, [fn(CF, "ConfigEncoder", """
class ConfigEncoder(json.JSONEncoder):
    def default(self, o: Any) -> Any:
        represent = getattr(o, "repr_json", None)
        if represent is None:
            return super().default(o)
        return represent()
""")]),
    # ---- settings
    ("eq_key", V, [(CF, """        if isinstance(other, NoteConfig):
            return (
                self.right == other.right
                and self.left == other.left
                and self.octave == other.octave
                and self.note == other.note
                and self.key_fraction == other.key_fraction
            )
        return NotImplemented
""", """        if not isinstance(other, NoteConfig):
            return NotImplemented
        return self._key() == other._key()

    def _key(self):
        return self.right, self.left, self.octave, self.note, self.key_fraction
""")]),
    ("eq_vars", V, [fn(CF, "OperatorConfig.__eq__", """
    def __eq__(self, other: Any) -> bool:
        if type(other) is OperatorConfig:
            return vars(self) == vars(other)
        return NotImplemented
""")]),
    ("eq_ne", V, [fn(CF, "OperatorConfig.__eq__", """
    def __eq__(self, other: Any) -> bool:
        if not isinstance(other, OperatorConfig):
            return NotImplemented
        for name in self.__dict__:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""")]),
    ("copy_update", V, [fn(CF, "BaseConfig.__deepcopy__", """
    def __deepcopy__(self, memo) -> object:
        new = BaseConfig()
        new.__dict__.update(self.__dict__)
        return new
""")]),
    ("copy_copy", V, [fn(CF, "ChannelConfig.__deepcopy__", """
    def __deepcopy__(self, memo) -> object:
        new = copy.copy(self)
        new.operators = [copy.copy(o) for o in self.operators]
        return new
""")]),
    ("ctor_branch", V, [fn(CF, "NoteConfig.__init__", """
    def __init__(self, other=None) -> None:
        if other is None:
            self.right = self.left = False
            self.octave = self.note = self.key_fraction = 0
        else:
            self.__dict__.update(other.__dict__)
""")]),
    ("ctor_slots", V, [fn(CF, "OperatorConfig.__init__", """
    FIELDS = (
        "total_level",
        "attack_rate",
        "first_decay_rate",
        "first_decay_level",
        "second_decay_rate",
        "release_rate",
        "key_scale",
        "multiply",
        "first_detune",
        "second_detune",
    )

    def __init__(self, other=None) -> None:
        for name in self.FIELDS:
            setattr(self, name, getattr(other, name) if other else 0)
        self.ase = other.ase if other else False
""")]),
    ("compare_ands", V, [fn(CF, "Config.compare", """
    def compare(self, base: BaseConfig, channel: ChannelConfig, operators: Operators):
        if operators != self._operators:
            return False
        if not (base == self._base):
            return False
        return channel == self._channel
""")]),
    # ---- the estimator
    ("ticks_plain", E, [(ST, "sorted(list(self._note_beats))", "sorted(self._note_beats)")]),
    ("ticks_list", E, [(ST, "        return sorted(list(self._note_beats))", "        beats = list(self._note_beats)\n        beats.sort()\n        return beats")]),
    ("est_min", E, [(ST, """        return top[0][0]""", """        length, _ = top[0]
        return length""")]),
    ("est_names", E, [(ST, """            t_idx = 0
            s_idx = 0

            sym_diff = 0
""", """            t_idx = s_idx = sym_diff = 0
"""), (ST, "[(idx + off_start, (c / (len(ticks) * 2 - 1)))\n                for idx, c in enumerate(corr)\n            ]", "[(idx, (c / (len(ticks) * 2 - 1)))\n                for idx, c in enumerate(corr, off_start)\n            ]") if False else (ST, "for idx, c in enumerate(corr)", "for (idx, c) in enumerate(corr)")]),
    ("est_bounds", E, [(ST, "        ticks = [t for t in self.ticks() if t < top_ticks]\n", "        ticks = list(filter(lambda t: t < top_ticks, self.ticks()))\n")]),
    ("est_helper", E, [(ST, """            t_idx = 0
            s_idx = 0

            sym_diff = 0
            try:
                t = ticks[t_idx]  # next(it_t)
                s = ticks[s_idx] + shift  # next(it_s) + shift
                while True:
                    while t < s:
                        sym_diff += 1
                        t_idx += 1
                        t = ticks[t_idx]
                    while s < t:
                        sym_diff += 1
                        s_idx += 1
                        s = ticks[s_idx] + shift
                    if t == s:
                        t_idx += 1
                        s_idx += 1
                        t = ticks[t_idx]  # next(it_t)
                        s = ticks[s_idx] + shift  # next(it_s) + shift

            except IndexError:
                pass

            corr.append(sym_diff)
""", """            corr.append(self._difference(ticks, shift))
"""), (ST, "    def ticks_per_note(self,", """    @staticmethod
    def _difference(ticks, shift):
        t_idx = 0
        s_idx = 0
        count = 0
        try:
            t = ticks[t_idx]
            s = ticks[s_idx] + shift
            while True:
                while t < s:
                    count += 1
                    t_idx += 1
                    t = ticks[t_idx]
                while s < t:
                    count += 1
                    s_idx += 1
                    s = ticks[s_idx] + shift
                if t == s:
                    t_idx += 1
                    s_idx += 1
                    t = ticks[t_idx]
                    s = ticks[s_idx] + shift
        except IndexError:
            pass
        return count

    def ticks_per_note(self,""")]),
    ("est_merge", E, [(ST, """            try:
                t = ticks[t_idx]  # next(it_t)
                s = ticks[s_idx] + shift  # next(it_s) + shift
                while True:
                    while t < s:
                        sym_diff += 1
                        t_idx += 1
                        t = ticks[t_idx]
                    while s < t:
                        sym_diff += 1
                        s_idx += 1
                        s = ticks[s_idx] + shift
                    if t == s:
                        t_idx += 1
                        s_idx += 1
                        t = ticks[t_idx]  # next(it_t)
                        s = ticks[s_idx] + shift  # next(it_s) + shift

            except IndexError:
                pass
""", """            while t_idx < len(ticks) and s_idx < len(ticks):
                t = ticks[t_idx]
                s = ticks[s_idx] + shift
                if t <= s:
                    t_idx += 1
                if s <= t:
                    s_idx += 1
                if t != s:
                    sym_diff += 1
""")]),
    # ---- the reader
    ("next_none", R, [fn(CO, "Vgm.__next__", """
    def __next__(self):
        opcode = self.file.read(1)
        if not opcode:
            raise StopIteration
        (cmd_id,) = opcode
        return command(cmd_id, self.file)
""")]),
    ("reader_sig", R, [fn(CO, "reader", """
GZIP_MAGIC = b"\\x1f\\x8b"
VGM_MAGIC = b"Vgm "


def _unpacked(vgmfile, header):
    if not header.startswith(GZIP_MAGIC):
        return vgmfile, header
    vgmfile.seek(0)
    unpacked = gzip.open(vgmfile)
    return unpacked, unpacked.read(len(VGM_MAGIC))


def reader(vgmfile: BinaryIO) -> Optional[Vgm]:
    logging.info("opening %s", vgmfile)
    stream, header = _unpacked(vgmfile, vgmfile.read(len(VGM_MAGIC)))
    return Vgm(stream) if header == VGM_MAGIC else None
""")]),
    ("read_exact", R, [(CO, """def _read32(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    b = file.read(4)
    if b is None or len(b) != 4:
        raise EOFError
    return struct.unpack("<I", b)[0]


def _read16(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    b = file.read(2)
    if b is None or len(b) != 2:
        raise EOFError
    return struct.unpack("<H", b)[0]


def _read8(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    b = file.read(1)
    if b is None or len(b) != 1:
        raise EOFError
    return struct.unpack("B", b)[0]
""", """def _unpack(file, fmt):
    size = struct.calcsize(fmt)
    b = file.read(size)
    if b is None or len(b) < size:
        raise EOFError
    (value,) = struct.unpack(fmt, b)
    return value


def _read32(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    return _unpack(file, "<I")


def _read16(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    return _unpack(file, "<H")


def _read8(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    return _unpack(file, "B")
""")]),
    ("read_frombytes", R, [fn(CO, "_read8", """
def _read8(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    b = file.read(1)
    if not b:
        raise EOFError
    return b[0]
"""), fn(CO, "_read16", """
def _read16(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    low = _read8(file)
    return low | _read8(file) << 8
""")]),
    ("vgm_clocks", R, [fn(CO, "Vgm.__init__", """
    def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
        self.file = f
        self.eof_offset = _read32(f)
        self.version = _read_bcd(f)
        _sn76489 = _read32(f)
        ym2413 = _read32(f)
        f.seek(0x30)
        ym2151 = _read32(f)
        self.clocks: Dict[str, int] = {
            "ym2413": ym2413,
            "ym2151": ym2151 if self.version >= 110 else ym2413,
        }
        if self.version >= 150:
            self.data_start = f.tell() + _read32(f)
        f.seek(self.data_start)
""")]),
    ("block_split", R, [(CO, """        buffer = f.read(6)
        # Pad to handle uint on aligned boundaries?
        (tt, ss) = struct.unpack("<xBI", buffer)
        _ = tt
        _ = ss
        return""", """        header = f.read(6)
        ss = struct.unpack_from("<I", header, 2)[0]
        return""")]),
    ("cmd_lookup", R, [(CO, """    elif cmd_id == 0x62:
        return WaitCommand(cmd_id, 735)
    elif cmd_id == 0x63:
        return WaitCommand(cmd_id, 882)
""", """    elif cmd_id in _FRAME_WAITS:
        return WaitCommand(cmd_id, _FRAME_WAITS[cmd_id])
"""), (CO, "def command(", "_FRAME_WAITS = {0x62: 735, 0x63: 882}\n\n\ndef command(")]),
    ("wait_super", R, [fn(CM, "WaitCommand.__init__", """
    def __init__(self, cmd_id, samples=None):
        super().__init__(cmd_id)
        if 0x70 <= cmd_id <= 0x7F:
            samples = (cmd_id & 0x0F) + 1
        self.samples = samples
""")]),
    # ---- state
    ("state_match", Y2, [(ST, """        channel = cmd.reg & 0x07
        operator = (cmd.reg >> 3) & 0x03
""", """        reg, value = cmd.reg, cmd.value
        channel = reg & 0x07
        operator = (reg >> 3) & 0x03
"""), (ST, "        if cmd.reg == 0x08:\n", "        if reg == 0x08:\n"), (ST, """            self._channel_configs[7].noise = (cmd.value & (1 << 7)) > 0
            self._channel_configs[7].noise_freq = cmd.value & 0x1F
""", """            noisy = self._channel_configs[7]
            noisy.noise, noisy.noise_freq = bool(value & 0x80), value % 32
"""), (ST, """            if cmd.value & (1 << 7) > 0:
                self._current_base_config.phs_md = cmd.value & 0x7F
            else:
                self._current_base_config.amp_md = cmd.value
""", """            target = "phs_md" if value & 0x80 else "amp_md"
            setattr(self._current_base_config, target, value & 0x7F)
""")]),
    ("state_init", Y2, [fn(ST, "State.__init__", """
    def __init__(self) -> None:
        self._channel_key_presses: List[List[Note]] = [[] for _ in range(8)]
        self._channel_configs: List[ChannelConfig] = [ChannelConfig() for _ in range(8)]
        self._note_configs: List[NoteConfig] = [NoteConfig() for _ in range(8)]
        self._current_base_config = BaseConfig()
        self.configs: List[Config] = []
        self._samples: int = 0
        self._note_beats: Set[int] = set()
        self._first_beat = None
""")]),
    ("state_find", Y2, [(ST, """            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )

            if len(self.configs) == config_id:
                if op:
                    self.configs.append(
                        Config(
                            config_id,
                            copy.deepcopy(self._current_base_config),
                            copy.deepcopy(self._channel_configs[ch]),
                            op,
                        )
                    )
                    self._current_base_config = copy.deepcopy(self._current_base_config)
                else:
                    config_id = -1
""", """            config_id = self._find(ch, op)
            if config_id is None:
                config_id = self._record(ch, op) if op else -1
"""), (ST, "    def apply(self,", """    def _find(self, ch, op):
        for i, c in enumerate(self.configs):
            if c.compare(self._current_base_config, self._channel_configs[ch], op):
                return i
        return None

    def _record(self, ch, op):
        number = len(self.configs)
        base = copy.deepcopy(self._current_base_config)
        channel = copy.deepcopy(self._channel_configs[ch])
        self.configs.append(Config(number, base, channel, op))
        return number

    def apply(self,""")]),
    ("state_local_op", Y2, [(ST, """            self._channel_configs[channel].operators[operator].first_decay_level = (
                cmd.value >> 4
            ) & 0x0F
            self._channel_configs[channel].operators[operator].release_rate = (
                cmd.value & 0x0F
            )""", """            o = self._channel_configs[channel].operators[operator]
            o.first_decay_level, o.release_rate = divmod(cmd.value, 16)""")]),
    ("state_rangechk", Y2, [(ST, "        elif cmd.reg & 0xF8 == 0x28:", "        elif 0x28 <= cmd.reg < 0x30:"), (ST, "        elif cmd.reg & 0xE0 == 0x60:", "        elif 0x60 <= cmd.reg <= 0x7F:"),
        (ST, "        elif cmd.reg & 0xE0 == 0xC0:", "        elif cmd.reg in range(0xC0, 0xE0):")]),
    # ---- the song
    ("pat_get", X, [fn(PA, "PatternPool.add_note", """
    def _pattern(self, number: int) -> Pattern:
        missing = number + 1 - len(self.patterns)
        for _ in range(missing):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
        return self.patterns[number]

    def add_note(
        self,
        pattern: int,
        channel: int,
        line: int,
        note: str,
        instrument: str,
        pan: str,
    ):
        lines = self._pattern(pattern).tracks[channel].lines
        lines[line] = Pattern.Line(note, instrument, pan)
""")]),
    ("ex_row_fn", X, [(EX, """            total_row = n.sample // ticks_per_note
            row = total_row % line_count
            pattern = total_row // line_count
            instr = None
            if n.config_id >= 0:
                instr = f"{n.config_id:0>2X}"

            pan = None
            if not n.right or not n.left:
                if n.right:
                    pan = "00"
                else:
                    pan = "F0"

            song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)
""", """            pattern, row = divmod(n.sample // ticks_per_note, line_count)
            instr = "%02X" % n.config_id if n.config_id >= 0 else None
            if n.right and n.left:
                pan = None
            else:
                pan = "00" if n.right else "F0"
            song.pattern_pool.add_note(
                pattern=pattern,
                channel=ch,
                line=row,
                note=n.xrns_note(),
                instrument=instr,
                pan=pan,
            )
""")]),
    ("ex_seq", X, [(EX, """    for p in range(len(song.pattern_pool.patterns)):
        song.pattern_sequence.add_pattern(p)
""", """    for p, _ in enumerate(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(p)
""")]),
    ("writer_inline", X, [fn(WR, "writer", """
def _document(song):
    config = SerializerConfig(pretty_print=True, encoding="UTF-8", xml_version="1.0")
    return XmlSerializer(config=config).render(XrnsSerializer().render(song))


def writer(xrnsfile, song):
    rendered = _document(song)
    with zipfile.ZipFile(xrnsfile, "w") as archive:
        archive.writestr("Song.xml", data=rendered)
""")]),
    ("ser_color_idx", X, [fn(SE, "XrnsSerializer._render_tracks", """
    def _render_tracks(self, tracks: Tracks) -> dao.RenoiseSong.Tracks:
        color_iter = iter(self.config.track_colors)
        output = dao.RenoiseSong.Tracks()
        output.sequencer_track = []
        for track in tracks.tracks:
            output.sequencer_track.append(self._render_track(track, color_iter))
        output.sequencer_master_track = list(map(self._render_master_track, tracks.master_tracks))
        output.sequencer_send_track = list(map(self._render_send_track, tracks.send_tracks))
        return output
""")]),
]

KEYON = text(ST, "State.apply").split("        # Key On/Off\n")[1].split("        # Noise Enable")[0]
FIND = KEYON[KEYON.index("            config_id: int = next("):KEYON.index("            if len(self.configs)")]
CASES += [
    ("state_recording", Y2, [(ST, "        self._first_beat = None\n", "        self._recording = False\n"),
                             (ST, "            if op and self._first_beat is None:\n                self._first_beat = self._samples\n", "            self._recording = self._recording or bool(op)\n"),
                             (ST, "            if self._first_beat is not None:\n", "            if self._recording:\n")]),
    ("state_record_helper", Y2, [(ST, """            if self._first_beat is not None:
                note = Note(config_id, self._note_configs[ch], self._samples)
                self._channel_key_presses[cmd.value & 0x7].append(note)
            if config_id >= 0:
                self._note_beats.add(self._samples)
""", """            self._record(ch, config_id)
"""), (ST, "    def key_presses(self, ch", """    def _record(self, ch: int, config_id: int) -> None:
        now = self._samples
        if config_id >= 0:
            self._note_beats.add(now)
        if self._first_beat is None:
            return
        self._channel_key_presses[ch].append(Note(config_id, self._note_configs[ch], now))

    def key_presses(self, ch""")]),
    ("state_find_only_on", Y2, [(ST, KEYON[:KEYON.index("            if op and self")], """        if cmd.reg == 0x08:
            op = Operators((cmd.value >> 3) & 0xF)
            ch = cmd.value & 0x07
            config_id = self._instrument(ch, op) if op else -1

"""), (ST, "    def key_presses(self, ch", """    def _instrument(self, ch, op):
        base, chan = self._current_base_config, self._channel_configs[ch]
        for i, known in enumerate(self.configs):
            if known.compare(base, chan, op):
                return i
        number = len(self.configs)
        self.configs.append(Config(number, copy.deepcopy(base), copy.deepcopy(chan), op))
        return number

    def key_presses(self, ch""")]),
    ("state_count", Y2, [(ST, "        self.configs: List[Config] = []\n", "        self.configs: List[Config] = []\n        self._count = 0\n"),
                         (ST, "                len(self.configs),\n            )\n", "                self._count,\n            )\n"),
                         (ST, "            if len(self.configs) == config_id:\n                if op:\n", "            if self._count == config_id:\n                if op:\n                    self._count += 1\n")]),
    ("state_reversed_ids", Y2, [(ST, FIND, """            config_id = len(self.configs)
            for i in range(len(self.configs) - 1, -1, -1):
                if self.configs[i].compare(self._current_base_config, self._channel_configs[ch], op):
                    config_id = i
"""), ]),
    ("state_sorted_beats", Y2, [(ST, "        return sorted(list(self._note_beats))\n", "        beats = list(self._note_beats)\n        beats.sort()\n        return beats\n")]),
    ("main_while_next", M, [fn(MA, "process_vgm_file", '''
def process_vgm_file(cmds):
    st = state.State()
    it = iter(cmds)
    cmd = next(it, None)
    while cmd is not None and not isinstance(cmd, vgm.core.EOSCommand):
        if isinstance(cmd, config.YM2151Command):
            st.apply(cmd)
        elif isinstance(cmd, vgm.core.WaitCommand):
            st.beat(cmd.samples)
        cmd = next(it, None)
    return st
''')]),
    ("main_match", M, [fn(MA, "process_vgm_file", '''
def process_vgm_file(cmds):
    st = state.State()
    for cmd in cmds:
        match cmd:
            case config.YM2151Command():
                st.apply(cmd)
            case vgm.core.WaitCommand(samples=n):
                st.beat(n)
            case vgm.core.EOSCommand():
                return st
    return st
''')]),
    ("main_iter_helper", M, [(MA, "def process_vgm_file(cmds):", '''def _sound(cmds):
    for cmd in cmds:
        if isinstance(cmd, vgm.core.EOSCommand):
            return
        yield cmd


def process_vgm_file(cmds):'''), (MA, "    for cmd in cmds:\n", "    for cmd in _sound(cmds):\n") if False else (MA, "    st = state.State()\n\n    for cmd in cmds:\n", "    st = state.State()\n\n    for cmd in _sound(cmds):\n"),
        (MA, "        elif isinstance(cmd, vgm.core.EOSCommand):\n            break\n\n    return st", "\n    return st")]),
    ("main_two_fns", M + ("C24",), [(MA, '''        if not ticks_per_note:
            print("Calculating Ticks Per Note", end="")
            ticks_per_note = s.ticks_per_note(show_progress=True)

        print(f"Ticks per Note: {ticks_per_note}")
''', '''        ticks_per_note = _note_length(s, ticks_per_note)
        print("Ticks per Note: %d" % ticks_per_note)
'''), (MA, "def main(\n", '''def _note_length(s, wanted):
    if wanted:
        return wanted
    print("Calculating Ticks Per Note", end="")
    return s.ticks_per_note(show_progress=True)


def main(
''')]),
    ("ex_collect", X + ("C26", "C27", "C29"), [(EX, "            song.pattern_pool.add_note(pattern, ch, row, n.xrns_note(), instr, pan)\n", "            cells.append((pattern, ch, row, n.xrns_note(), instr, pan))\n\n    for cell in cells:\n        song.pattern_pool.add_note(*cell)\n"),
                     (EX, "    for ch in range(channel_count):\n        for n in s.key", "    cells = []\n    for ch in range(channel_count):\n        for n in s.key")]),
    ("ex_pan_table", X + ("C26", "C27", "C29"), [(EX, '''            pan = None
            if not n.right or not n.left:
                if n.right:
                    pan = "00"
                else:
                    pan = "F0"
''', '''            pan = {(True, True): None, (False, True): "00"}.get((bool(n.left), bool(n.right)), "F0")
''')]),
    ("ex_bpm_int", X + ("C26", "C27", "C29"), [(EX, '''    note_length = ticks_per_note / sample_freq
    beat_length = note_length * notes_per_beat
    bpm = 60 / beat_length
    song.globals.beats_per_min = int(bpm)
''', '''    beat_length = (ticks_per_note / sample_freq) * notes_per_beat
    song.globals.beats_per_min = int(60 / beat_length)
''')]),
    ("pool_ensure", X + ("C29",), [(PA, '''        while pattern >= len(self.patterns):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))
''', '''        self._grow(pattern + 1)
'''), (PA, "    def add_note(\n", '''    def _grow(self, count: int) -> None:
        for _ in range(count - len(self.patterns)):
            self.patterns.append(Pattern(self.tracks, self.lines_per_track))

    def add_note(
''')]),
    ("core_reader_helper", R, [fn(CO, "_read16", '''
def _exactly(file, count):
    data = file.read(count)
    if not data or len(data) < count:
        raise EOFError
    return data


def _read16(file) -> int:
    low, high = _exactly(file, 2)
    return low | high << 8
''')]),
    ("core_cached", R, [(CO, "def _read32(", "import functools\n\n\n@functools.lru_cache(maxsize=None)\ndef _codec(code):\n    return struct.Struct(code)\n\n\ndef _read32("), (CO, '    return struct.unpack("<I", b)[0]\n', '    return _codec("<I").unpack(b)[0]\n')]),
    ("li_helper", ("C23",), [fn(EX, "extract_tracks", """
_LINES = 64


def _listed(fo, at, line, ticks_per_note, cells):
    fields = [str(at)]
    fields += [str(x) for x in reversed(divmod(line, _LINES))]
    fields.append(str(line))
    fields.append("{:.2}".format((at / ticks_per_note) % 1))
    fo.write(",".join(fields + cells) + "\\n")


def extract_tracks(s, track_filename, ticks_per_note):
    print(f"Writing tracks to {track_filename}...")
    pending = {}
    iters = []
    for ch in range(8):
        it = iter(s.key_presses(ch))
        iters.append(it)
        note = next(it, None)
        if note is not None:
            pending[ch] = note

    with smart_open(track_filename, "w") as fo:
        header = ["Samples", "Row", "Pattern", "Total Row", "Fraction"]
        header.extend("Channel %d" % (i + 1) for i in range(8))
        print(",".join(header), file=fo)
        line = 0
        cells = [""] * 8
        at = 0
        while pending:
            sample = min(n.sample for n in pending.values())
            row = sample // ticks_per_note
            if row != line:
                _listed(fo, at, line, ticks_per_note, cells)
                for between in range(line + 1, row):
                    _listed(fo, sample, between, ticks_per_note, [""] * 8)
                line = row
                cells = [""] * 8
            if not any(cells):
                at = sample
            for ch in range(8):
                note = pending.get(ch)
                if note is None or note.sample // ticks_per_note != row:
                    continue
                cells[ch] = str(note)
                note = next(iters[ch], None)
                if note is None:
                    pending.pop(ch)
                else:
                    pending[ch] = note
        if any(cells):
            _listed(fo, at, line, ticks_per_note, cells)
""")]),
    ("li_rows_dict", ("C23",), [fn(EX, "extract_tracks", """
def extract_tracks(s, track_filename, ticks_per_note):
    print(f"Writing tracks to {track_filename}...")
    rows = {}
    for ch in range(8):
        for n in s.key_presses(ch):
            row = rows.setdefault(n.sample // ticks_per_note, [n.sample, [""] * 8])
            row[0] = min(row[0], n.sample)
            row[1][ch] = str(n)
    with smart_open(track_filename, "w") as fo:
        fo.write("Samples,Row,Pattern,Total Row,Fraction")
        for i in range(8):
            fo.write(f",Channel {i+1}")
        fo.write("\\n")
        for line in range(max(rows) + 1 if rows else 0):
            if line in rows:
                sample, cells = rows[line]
            else:
                sample, cells = line * ticks_per_note, [""] * 8
            fo.write(",".join([str(sample), str(line % 64), str(line // 64), str(line), "{:.2}".format((sample / ticks_per_note) % 1)] + cells) + "\\n")
""")]),
    ("li_sorted", ("C23",), [fn(EX, "extract_tracks", """
def extract_tracks(s, track_filename, ticks_per_note):
    print(f"Writing tracks to {track_filename}...")
    events = sorted(((n.sample, ch, k, n) for ch in range(8) for k, n in enumerate(s.key_presses(ch))), key=lambda e: e[:3])
    out = [",".join(["Samples", "Row", "Pattern", "Total Row", "Fraction"] + [f"Channel {i}" for i in range(1, 9)])]

    def flush(sample, line, cells):
        pattern, row = divmod(line, 64)
        out.append(",".join([str(sample), str(row), str(pattern), str(line), "{:.2}".format((sample / ticks_per_note) % 1), *cells]))

    line, first, cells = 0, 0, [""] * 8
    for sample, ch, _, note in events:
        row = sample // ticks_per_note
        if row > line:
            flush(first, line, cells)
            for gap in range(line + 1, row):
                flush(sample, gap, [""] * 8)
            cells = [""] * 8
            line = row
        if not any(cells):
            first = sample
        cells[ch] = str(note)
    if any(cells):
        flush(first, line, cells)
    with smart_open(track_filename, "w") as fo:
        fo.write("\\n".join(out) + "\\n")
""")]),
    ("li_enumerate", ("C23",), [(EX, "        for i in range(8):\n            header.append(f\"Channel {i+1}\")\n", "        header += [f\"Channel {i}\" for i in range(1, 9)]\n"),
                               (EX, "    for idx, it in enumerate(channel_iters):\n        try:\n            note = next(it)\n            channel_notes[idx] = note\n        except StopIteration:\n            pass\n",
                                    "    for idx, it in enumerate(channel_iters):\n        for note in it:\n            channel_notes[idx] = note\n            break\n"),
                               (EX, "            samples = [n.sample for n in channel_notes.values()]\n            current_sample = min(samples)\n", "            current_sample = min(channel_notes.values(), key=lambda n: n.sample).sample\n")]),
    ('at_tuple', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    def __getattr__(self, item):\n        if item in ("lfo", "phs_md", "amp_md", "waveform"):\n            return getattr(self._base, item)\n        if item == "enabled_operators":\n            return self._operators\n        return getattr(self._channel, item)\n')]),
    ('at_props', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    @property\n    def lfo(self):\n        return self._base.lfo\n\n    @property\n    def phs_md(self):\n        return self._base.phs_md\n\n    @property\n    def amp_md(self):\n        return self._base.amp_md\n\n    @property\n    def waveform(self):\n        return self._base.waveform\n\n    @property\n    def enabled_operators(self):\n        return self._operators\n\n    def __getattr__(self, item):\n        return getattr(self._channel, item)\n')]),
    ('at_match', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    def __getattr__(self, item):\n        match item:\n            case "lfo" | "phs_md" | "amp_md" | "waveform":\n                source = self._base\n            case "enabled_operators":\n                return self._operators\n            case _:\n                source = self._channel\n        return getattr(source, item)\n')]),
    ('at_sources', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    def __getattr__(self, item):\n        if item == "enabled_operators":\n            return self._operators\n        for source in (self._base, self._channel):\n            try:\n                return getattr(source, item)\n            except AttributeError:\n                continue\n        raise AttributeError(f"{type(self).__name__!r} object has no attribute {item!r}")\n')]),
    ('at_table', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    def __getattr__(self, item):\n        getter = _GETTERS.get(item)\n        if getter is not None:\n            return getter(self)\n        return getattr(self._channel, item)\n'), (CF, 'class Config:\n', '_GETTERS = {\n    "lfo": lambda c: c._base.lfo,\n    "phs_md": lambda c: c._base.phs_md,\n    "amp_md": lambda c: c._base.amp_md,\n    "waveform": lambda c: c._base.waveform,\n    "enabled_operators": lambda c: c._operators,\n}\n\n\nclass Config:\n')]),
    ('at_explicit', ("C32", "C16"), [(CF, '    def __getattr__(self, item):\n        if item == "lfo":\n            return self._base.lfo\n        if item == "phs_md":\n            return self._base.phs_md\n        if item == "amp_md":\n            return self._base.amp_md\n        if item == "waveform":\n            return self._base.waveform\n        if item == "enabled_operators":\n            return self._operators\n\n        return getattr(self._channel, item)\n', '    def __getattr__(self, item):\n        channel = self._channel\n        if item.startswith("_"):\n            raise AttributeError(item)\n        own = {\n            "lfo": self._base.lfo,\n            "phs_md": self._base.phs_md,\n            "amp_md": self._base.amp_md,\n            "waveform": self._base.waveform,\n            "enabled_operators": self._operators,\n        }\n        return own[item] if item in own else getattr(channel, item)\n')]),
    # ---------------------------------------------------------------- the song, further
    ("so_build_split", X, [fn(EX, "extract_tracks_to_xrns", """
SAMPLE_RATE = 44100
NOTES_PER_BEAT = 4
LINES_PER_PATTERN = 64
CHANNELS = range(8)


def _pan_text(note):
    if note.left and note.right:
        return None
    return "00" if note.right else "F0"


def _instrument_text(note):
    return None if note.config_id < 0 else "{:02X}".format(note.config_id)


def _place(note, ticks_per_note):
    row = note.sample // ticks_per_note
    return divmod(row, LINES_PER_PATTERN)


def _beats_per_min(ticks_per_note):
    return int(60 / (ticks_per_note / SAMPLE_RATE * NOTES_PER_BEAT))


def build_song(s, ticks_per_note):
    song = xrns.parts.song.Song(tracks=len(CHANNELS), instruments=len(s.configs))
    song.globals.beats_per_min = _beats_per_min(ticks_per_note)
    for channel in CHANNELS:
        for note in s.key_presses(channel):
            pattern, line = _place(note, ticks_per_note)
            song.pattern_pool.add_note(
                pattern=pattern,
                channel=channel,
                line=line,
                note=note.xrns_note(),
                instrument=_instrument_text(note),
                pan=_pan_text(note),
            )
    for number, _ in enumerate(song.pattern_pool.patterns):
        song.pattern_sequence.add_pattern(number)
    return song


def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
    print(f"Writing xrns {track_filename}...")
    song = build_song(s, ticks_per_note)
    with open(track_filename, "wb") as f:
        writer(f, song)
""")]),
    ("so_gather", X, [fn(EX, "extract_tracks_to_xrns", """
def extract_tracks_to_xrns(s: State, track_filename, ticks_per_note):
    print(f"Writing xrns {track_filename}...")

    line_count = 64
    song = xrns.parts.song.Song(tracks=8, instruments=len(s.configs))
    song.globals.beats_per_min = int(60 / ((ticks_per_note / 44100) * 4))

    events = [(ch, n) for ch in range(8) for n in s.key_presses(ch)]
    for ch, n in events:
        total_row = n.sample // ticks_per_note
        if n.config_id >= 0:
            instr = "%02X" % n.config_id
        else:
            instr = None
        pan = {(True, True): None, (True, False): "00", (False, True): "F0", (False, False): "F0"}[
            (bool(n.right), bool(n.left))
        ]
        song.pattern_pool.add_note(
            total_row >> 6, ch, total_row & 63, n.xrns_note(), instr, pan
        )

    count = len(song.pattern_pool.patterns)
    p = 0
    while p < count:
        song.pattern_sequence.add_pattern(p)
        p += 1

    with open(track_filename, "wb") as f:
        writer(f, song)
""")]),
    ("so_stack", ("C21", "C26", "C27", "C28"), [(EX, '    with open(track_filename, "wb") as f:\n        writer(f, song)\n', '    import contextlib\n\n    with contextlib.ExitStack() as stack:\n        writer(stack.enter_context(open(track_filename, "wb")), song)\n')]),
    ("so_writer_path", ("C21",), [(WR, '    with zipfile.ZipFile(xrnsfile, mode="w") as zf:\n        zf.writestr("Song.xml", rendered)\n', '    zf = zipfile.ZipFile(xrnsfile, "w")\n    try:\n        zf.writestr("Song.xml", data=rendered)\n    finally:\n        zf.close()\n')]),
    ("so_writer_inline", X, [fn(WR, "writer", """
def _to_xml(song):
    options = SerializerConfig(pretty_print=True, encoding="UTF-8", xml_version="1.0")
    return XmlSerializer(config=options).render(XrnsSerializer().render(song))


def writer(xrnsfile, song):
    with zipfile.ZipFile(xrnsfile, mode="w") as zf:
        zf.writestr("Song.xml", _to_xml(song))
""")]),
    ("pp_ensure", X, [fn(PA, "PatternPool.add_note", """
    def _ensure(self, count: int):
        missing = count - len(self.patterns)
        self.patterns.extend(
            Pattern(self.tracks, self.lines_per_track) for _ in range(missing)
        )

    def add_note(
        self,
        pattern: int,
        channel: int,
        line: int,
        note: str,
        instrument: str,
        pan: str,
    ):
        self._ensure(pattern + 1)
        self.patterns[pattern].set_line(channel, line, Pattern.Line(note, instrument, pan))
"""), (PA, "class PatternPool:\n", "    def set_line(self, channel: int, line: int, content):\n        self.tracks[channel].lines[line] = content\n\n\nclass PatternPool:\n")]),
    ("pp_range", X, [(PA, "        while pattern >= len(self.patterns):\n            self.patterns.append(Pattern(self.tracks, self.lines_per_track))\n",
                      "        for _ in range(len(self.patterns), pattern + 1):\n            self.patterns.append(Pattern(self.tracks, self.lines_per_track))\n")]),
    ("pp_update", X, [(PA, "        self.patterns[pattern].tracks[channel].lines[line] = Pattern.Line(\n            note, instrument, pan\n        )\n",
                       "        target = self.patterns[pattern].tracks[channel]\n        new_line = Pattern.Line(pan=pan, note=note, instrument=instrument)\n        target.lines.update({line: new_line})\n")]),
    ("pp_dataclass", X, [(PA, "from typing import List, Dict\n", "from dataclasses import dataclass\nfrom typing import List, Dict, Optional\n"),
                         (PA, "    class Line:\n        def __init__(self, note: str, instrument: str, pan: str):\n            self.note: str = note\n            self.instrument: str = instrument\n            self.pan: str = pan\n",
                              "    @dataclass\n    class Line:\n        note: str\n        instrument: Optional[str]\n        pan: Optional[str]\n")]),
    ("tr_make", X, [("xrns/parts/track.py", '            SequencerTrack(f"Track {i+1}") for i in range(tracks)\n', '            SequencerTrack("Track {}".format(number)) for number in range(1, tracks + 1)\n')]),
    ("ps_range", X, [(EX, "    for p in range(len(song.pattern_pool.patterns)):\n        song.pattern_sequence.add_pattern(p)\n", "    song.pattern_sequence.add_patterns(range(len(song.pattern_pool.patterns)))\n"),
                     (PS, "    def add_pattern(", "    def add_patterns(self, patterns):\n        for pattern in patterns:\n            self.add_pattern(pattern)\n\n    def add_pattern(")]),
    ("ser_filter_chain", X, [(SE, "    def _render_tracks(", "    @staticmethod\n    def _chain(**mixers):\n        return dao.TrackFilterDeviceChain(\n            devices=dao.TrackFilterDeviceChain.Devices(**mixers)\n        )\n\n    def _render_tracks("),
                             (SE, "            filter_devices=dao.TrackFilterDeviceChain(\n                devices=dao.TrackFilterDeviceChain.Devices(\n                    track_mixer_device=[dao.TrackMixerDevice()]\n                )\n            ),\n", "            filter_devices=self._chain(track_mixer_device=[dao.TrackMixerDevice()]),\n")]),
    ("ser_line_helper", X, [(SE, """                    dao.PatternLineNode(
                        index=idx,
                        note_columns=dao.PatternLineNode.NoteColumns(
                            note_column=[
                                dao.PatternLineNoteColumnNode(
                                    note=line.note,
                                    instrument=line.instrument,
                                    panning=line.pan,
                                )
                            ]
                        ),
                    )
                    for idx, line in track.lines.items()
""", """                    self._render_line(idx, track.lines[idx])
                    for idx in track.lines
"""), (SE, "    def _render_pattern_master_track(", """    def _render_line(self, idx: int, line: Pattern.Line) -> dao.PatternLineNode:
        column = dao.PatternLineNoteColumnNode()
        column.note = line.note
        column.instrument = line.instrument
        column.panning = line.pan
        node = dao.PatternLineNode(index=idx)
        node.note_columns = dao.PatternLineNode.NoteColumns(note_column=[column])
        return node

    def _render_pattern_master_track(""")]),
    ("ser_globals_kw", X, [fn(SE, "XrnsSerializer._render_global_song_data", """
    def _render_global_song_data(self, global_song_data: Globals) -> dao.GlobalSongData:
        same = {
            name: getattr(global_song_data, name)
            for name in (
                "beats_per_min",
                "lines_per_beat",
                "ticks_per_line",
                "signature_numerator",
                "signature_denominator",
                "metronome_beats_per_bar",
                "metronome_lines_per_beat",
                "shuffle_is_active",
                "octave",
                "loop_coeff",
                "song_name",
                "artist",
            )
        }
        amounts = dao.GlobalSongData.ShuffleAmounts(
            shuffle_amount=global_song_data.shuffle_amounts
        )
        return dao.GlobalSongData(shuffle_amounts=amounts, **same)
""")]),
    ("ser_color_zip", X, [(SE, "        color_iter = iter(self.config.track_colors)\n        seq_track = [self._render_track(track, color_iter) for track in tracks.tracks]\n",
                           "        colors = list(self.config.track_colors)\n        color_iter = iter(colors)\n        seq_track = []\n        for track in tracks.tracks:\n            seq_track.append(self._render_track(track, color_iter))\n")]),
    ("ser_next_default", X, [(SE, "        try:\n            track.color = next(color_iter)\n        except StopIteration:\n            pass\n", "        color = next(color_iter, None)\n        if color is not None:\n            track.color = color\n")]),
    ("note_maps", ("C08", "C11", "C17", "C18", "C23"), [fn(NO, "Note.xrns_note", """
    @property
    def is_key_off(self):
        return self.config_id < 0

    def xrns_note(self):
        if self.is_key_off:
            return "Off"
        octave = self.octave + (1 if self.note == 14 else 0)
        return "{}{}".format(_NOTE_LOOKUP_XRNS[self.note], octave)
""")]),
    ("note_strip", ("C08", "C17", "C18", "C23"), [fn(NO, "Note.xrns_note", """
    def xrns_note(self):
        if self.config_id < 0:
            return "Off"
        name = _NOTE_LOOKUP_XRNS[self.note]
        octave = self.octave
        octave += int(name.startswith("C-"))
        return name + str(octave)
""")]),
    ("note_init_loop", ("C08", "C14", "C17", "C18", "C23"), [fn(NO, "Note.__init__", """
    def __init__(self, config_id: int, note_config: NoteConfig, sample: int) -> None:
        for name in ("right", "left", "octave", "note", "key_fraction"):
            setattr(self, name, getattr(note_config, name))
        self.config_id = config_id
        self.sample = sample
""")]),
    ("note_slots", ("C08", "C14", "C17", "C18", "C23"), [(NO, "class Note:\n", "class Note:\n    __slots__ = (\"config_id\", \"right\", \"left\", \"octave\", \"note\", \"key_fraction\", \"sample\")\n\n")]),
    ("note_str_parts", ("C23",), [fn(NO, "Note.__str__", """
    def _pan(self):
        if self.right and self.left:
            return ""
        return "Pan " + ("R" if self.right else "L")

    def _fraction(self):
        if self.key_fraction <= 1:
            return ""
        return f"-{self.key_fraction * 1.6:02.0f}"

    def __str__(self):
        if self.config_id < 0:
            return "Key Off"
        name = _NOTE_LOOKUP[self.note] + "-" + str(self.octave)
        return name + self._fraction() + " [" + str(self.config_id) + "] " + self._pan()
""")]),
    # ---------------------------------------------------------------- further styles
    ("st_bits_helper", Y, [(ST, "class State:\n", "def _field(value: int, shift: int, width: int) -> int:\n    return (value >> shift) & ((1 << width) - 1)\n\n\ndef _flag(value: int, bit: int) -> bool:\n    return bool(_field(value, bit, 1))\n\n\nclass State:\n"),
        (ST, "            self._note_configs[channel].right = (cmd.value & (1 << 7)) > 0\n            self._note_configs[channel].left = (cmd.value & (1 << 6)) > 0\n            self._channel_configs[channel].fb = (cmd.value >> 3) & 0x07\n            self._channel_configs[channel].connection = cmd.value & 0x07\n",
             "            note, patch = self._note_configs[channel], self._channel_configs[channel]\n            note.right, note.left = _flag(cmd.value, 7), _flag(cmd.value, 6)\n            patch.fb, patch.connection = _field(cmd.value, 3, 3), _field(cmd.value, 0, 3)\n")]),
    ("st_setter_table", Y, [(ST, """        elif cmd.reg & 0xE0 == 0x40:
            self._channel_configs[channel].operators[operator].first_detune = (
                cmd.value >> 4
            ) & 0x07
            self._channel_configs[channel].operators[operator].multiply = (
                cmd.value & 0x0F
            )

        elif cmd.reg & 0xE0 == 0x60:
            self._channel_configs[channel].operators[operator].total_level = (
                cmd.value & 0x7F
            )
        elif cmd.reg & 0xE0 == 0x80:
            self._channel_configs[channel].operators[operator].key_scale = (
                cmd.value >> 6
            ) & 0x3
            self._channel_configs[channel].operators[operator].attack_rate = (
                cmd.value & 0x1F
            )
        elif cmd.reg & 0xE0 == 0xA0:
            self._channel_configs[channel].operators[operator].ase = (
                cmd.value & 0x80
            ) > 0
            self._channel_configs[channel].operators[operator].first_decay_rate = (
                cmd.value & 0x1F
            )
        elif cmd.reg & 0xE0 == 0xC0:
            self._channel_configs[channel].operators[operator].second_detune = (
                cmd.value >> 6
            ) & 0x03
            self._channel_configs[channel].operators[operator].second_decay_rate = (
                cmd.value & 0x1F
            )
        elif cmd.reg & 0xE0 == 0xE0:
            self._channel_configs[channel].operators[operator].first_decay_level = (
                cmd.value >> 4
            ) & 0x0F
            self._channel_configs[channel].operators[operator].release_rate = (
                cmd.value & 0x0F
            )
""", """        elif cmd.reg >= 0x40:
            slot = self._channel_configs[channel].operators[operator]
            for name, shift, mask in _OPERATOR_FIELDS[cmd.reg & 0xE0]:
                setattr(slot, name, (cmd.value >> shift) & mask)
            if cmd.reg & 0xE0 == 0xA0:
                slot.ase = cmd.value >= 0x80
"""), (ST, "class State:\n", """_OPERATOR_FIELDS = {
    0x40: (("first_detune", 4, 7), ("multiply", 0, 15)),
    0x60: (("total_level", 0, 127),),
    0x80: (("key_scale", 6, 3), ("attack_rate", 0, 31)),
    0xA0: (("first_decay_rate", 0, 31),),
    0xC0: (("second_detune", 6, 3), ("second_decay_rate", 0, 31)),
    0xE0: (("first_decay_level", 4, 15), ("release_rate", 0, 15)),
}


class State:
""")]),
    ("st_key_method", Y, [(ST, """            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )

            if len(self.configs) == config_id:
                if op:
                    self.configs.append(
                        Config(
                            config_id,
                            copy.deepcopy(self._current_base_config),
                            copy.deepcopy(self._channel_configs[ch]),
                            op,
                        )
                    )
                    self._current_base_config = copy.deepcopy(self._current_base_config)
                else:
                    config_id = -1
""", """            config_id = self._config_for(ch, op)
"""), (ST, "    def key_presses(", """    def _config_for(self, ch: int, op: Operators) -> int:
        base, channel = self._current_base_config, self._channel_configs[ch]
        for known in range(len(self.configs)):
            if self.configs[known].compare(base, channel, op):
                return known
        if not op:
            return -1
        self.configs.append(
            Config(len(self.configs), BaseConfig(base), ChannelConfig(channel), op)
        )
        return len(self.configs) - 1

    def key_presses(""")]),
    ("st_index_exc", Y, [(ST, """            config_id: int = next(
                (
                    i
                    for (i, c) in enumerate(self.configs)
                    if c.compare(
                        self._current_base_config, self._channel_configs[ch], op
                    )
                ),
                len(self.configs),
            )
""", """            matches = [
                c.compare(self._current_base_config, self._channel_configs[ch], op)
                for c in self.configs
            ]
            try:
                config_id: int = matches.index(True)
            except ValueError:
                config_id = len(self.configs)
""")]),
    ("st_first_beat_flag", Y, [(ST, "            if op and self._first_beat is None:\n                self._first_beat = self._samples\n\n            if self._first_beat is not None:\n",
                                "            started = self._first_beat is not None\n            if not started and op:\n                self._first_beat, started = self._samples, True\n\n            if started:\n"),
                           (ST, "            if config_id >= 0:\n                self._note_beats.add(self._samples)\n", "            if config_id != -1:\n                self._note_beats |= {self._samples}\n")]),
    ("st_pm_am", Y, [(ST, "            if cmd.value & (1 << 7) > 0:\n                self._current_base_config.phs_md = cmd.value & 0x7F\n            else:\n                self._current_base_config.amp_md = cmd.value\n",
                      "            target = \"phs_md\" if cmd.value >= 128 else \"amp_md\"\n            setattr(self._current_base_config, target, cmd.value % 128)\n")]),
    ("est_iters", E, [fn(ST, "State.ticks_per_note", """
    @staticmethod
    def _difference(ticks: List[int], shift: int) -> int:
        a = b = difference = 0
        while a < len(ticks) and b < len(ticks):
            left, right = ticks[a], ticks[b] + shift
            if left < right:
                a += 1
                difference += 1
            elif right < left:
                b += 1
                difference += 1
            else:
                a += 1
                b += 1
        return difference

    def ticks_per_note(self, *, show_progress=False) -> int:
        off_start = 1000
        off_end = 8000
        top_ticks = off_end * 4
        ticks = [t for t in self.ticks() if t < top_ticks]
        progress = 0
        result = []
        for shift in range(off_start, off_end):
            result.append(
                (shift, self._difference(ticks, shift) / (len(ticks) * 2 - 1))
            )
            done = (shift - off_start) / (off_end - off_start) * 100
            if show_progress and done > progress:
                progress += 10
                print(".", end="")
        if show_progress:
            print()
        top = sorted(result, key=lambda i: i[1])
        print("Ticks Per Note estimates:")
        for length, prob in top[:10]:
            print(f"{length}: {(1-prob)*100:.2f}%")
        return top[0][0]
""")]),
    ("cf_fields", V, [fn(CF, "OperatorConfig.__init__", """
    _DEFAULTS = {
        "total_level": 0,
        "attack_rate": 0,
        "first_decay_rate": 0,
        "first_decay_level": 0,
        "second_decay_rate": 0,
        "release_rate": 0,
        "key_scale": 0,
        "multiply": 0,
        "first_detune": 0,
        "second_detune": 0,
        "ase": False,
    }

    def __init__(self, other=None) -> None:
        for name, default in self._DEFAULTS.items():
            setattr(self, name, getattr(other, name) if other else default)
"""), fn(CF, "OperatorConfig.__eq__", """
    def __eq__(self, other: Any) -> bool:
        if not isinstance(other, OperatorConfig):
            return NotImplemented
        return all(getattr(self, n) == getattr(other, n) for n in self._DEFAULTS)
""")]),
    ("cf_copy_ops", V, [(CF, "        self.operators: List[OperatorConfig] = (\n            [] if not other else copy.deepcopy(other.operators)\n        )\n",
                         "        self.operators: List[OperatorConfig] = [\n            OperatorConfig(op) for op in (other.operators if other else [None] * 4)\n        ]\n"),
                    (CF, "        if not other:\n            for dev in range(4):\n                self.operators.append(OperatorConfig())\n", "        pass\n")]),
    ("cf_mixin", V, [(CF, "class BaseConfig:\n", "class _Copyable:\n    def __deepcopy__(self, _):\n        return type(self)(self)\n\n\nclass BaseConfig(_Copyable):\n"),
                     (CF, "    # noinspection PyArgumentList\n    def __deepcopy__(self, _) -> object:\n        return BaseConfig(self)\n\n", ""),
                     (CF, "class NoteConfig:\n", "class NoteConfig(_Copyable):\n"),
                     (CF, "    # noinspection PyArgumentList\n    def __deepcopy__(self, _) -> object:\n        return NoteConfig(self)\n\n", "")]),
    ("cf_ops_json", I, [fn(CF, "Operators.repr_json", """
    def repr_json(self):
        return "|".join(op.name for op in Operators if self & op)
""")]),
    ("cf_ops_members", I, [fn(CF, "Operators.repr_json", """
    def repr_json(self):
        names = []
        for name, member in Operators.__members__.items():
            if member in self:
                names.append(name)
        return "|".join(names)
""")]),
    ("cm_match", S, [fn(CO, "command", """
def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
    match cmd_id:
        case 0x54:
            return YM2151Command(cmd_id, _read8(f), _read8(f))
        case 0x61:
            return WaitCommand(cmd_id, _read16(f))
        case 0x62:
            return WaitCommand(cmd_id, 735)
        case 0x63:
            return WaitCommand(cmd_id, 882)
        case 0x66:
            return EOSCommand(cmd_id)
        case 0x67:
            _tt, size = struct.unpack("<xBI", f.read(6))
            return VgmCommand(cmd_id, f.read(size))
        case 0x68:
            head = f.read(11)
            fields = struct.unpack("<xBBHBHBH", head)
            return VgmCommand(cmd_id, f.read(fields[5] + 256 * fields[6]))
        case _ if 0x70 <= cmd_id < 0x80:
            return WaitCommand(cmd_id)
        case _ if 0x80 <= cmd_id < 0x90:
            return WaitCommand(cmd_id, cmd_id - 0x80)
    n = _operand_bytes(cmd_id)
    return VgmCommand(cmd_id, f.read(n)) if n else VgmCommand(cmd_id)


def _operand_bytes(cmd_id: int) -> int:
    if cmd_id < 0x30 or cmd_id in (0x60, 0x64, 0x65):
        return 0
    if 0x69 <= cmd_id < 0x70 or 0x96 <= cmd_id < 0xA0:
        return 0
    special = {0x92: 5, 0x93: 10, 0x94: 1, 0x95: 4}
    if cmd_id in special:
        return special[cmd_id]
    for limit, n in ((0x40, 1), (0x4F, 2), (0x51, 1), (0x60, 2), (0x92, 4), (0xC0, 2), (0xE0, 3)):
        if cmd_id < limit:
            return n
    return 4
""")]),
    ("co_next_walrus", S, [fn(CO, "Vgm.__next__", """
    def __next__(self):
        if not (cmd := self.file.read(1)):
            raise StopIteration
        (opcode,) = cmd
        return command(opcode, self.file)
""")]),
    ("co_bcd_hex", S, [fn(CO, "_read_bcd", """
def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
    b = file.read(4)
    if b is None or len(b) != 4:
        raise EOFError
    total = 0
    for byte in reversed(b):
        total = total * 100 + (byte >> 4) * 10 + (byte & 0x0F)
    return total
""")]),
    ("ma_apply_map", M, [fn(MA, "process_vgm_file", """
def process_vgm_file(cmds):
    st = state.State()
    for cmd in cmds:
        kind = type(cmd)
        if kind is vgm.core.EOSCommand:
            break
        if kind is config.YM2151Command:
            st.apply(cmd)
        if kind is vgm.core.WaitCommand:
            st.beat(cmd.samples)
    return st
""")]),
    ("ma_kind", M, [fn(MA, "process_vgm_file", """
def process_vgm_file(cmds):
    st = state.State()
    kinds = vgm.core.VgmCommand
    for cmd in cmds:
        name = cmd.command_type.name if cmd.command_type is not None else None
        if name == "EOS":
            return st
        if name == "YM2151":
            st.apply(cmd)
        elif name == "WAIT":
            st.beat(samples=cmd.samples)
    return st
""")]),
    ("ma_args", ("C16", "C22", "C26", "C27", "C28"), [fn(MA, "main", """
def _load(f, vgm_filename):
    print(f"Opening file: {vgm_filename}")
    commands = vgm.core.reader(f)
    if commands is None:
        raise SystemExit(f"{vgm_filename}: not a VGM file")
    return process_vgm_file(commands)


def _note_length(s, requested):
    if requested:
        return requested
    print("Calculating Ticks Per Note", end="")
    return s.ticks_per_note(show_progress=True)


def main(
    vgm_filename: str,
    instr_filename: str,
    track_filename: str,
    ticks_per_note: int = None,
):
    with smart_open(vgm_filename, "rb") as f:
        s = _load(f, vgm_filename)
        length = _note_length(s, ticks_per_note)
        print(f"Ticks per Note: {length}")
        for target, export in (
            (instr_filename, lambda name: extract_instruments(name, s)),
            (track_filename, lambda name: extract_tracks_to_xrns(s, name, length)),
        ):
            if target:
                export(target)
""")]),
    ("to_early", ("C16", "C26", "C27", "C28", "C22"), [fn(TO, "smart_open", """
def smart_open(filename: str, mode: str):
    is_file = bool(filename) and filename != "-"
    if not is_file and mode[:1] not in ("r", "w"):
        raise Exception("Unknown mode")
    if is_file:
        with open(filename, mode) as fh:
            yield fh
        return
    stream = sys.stdout if mode[0] == "w" else sys.stdin
    yield stream.buffer if "b" in mode else stream
""")]),
]
