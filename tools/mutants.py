ST = "vgm/ym2151/state.py"
CF = "vgm/ym2151/config.py"
CO = "vgm/core.py"
CM = "vgm/command.py"
EX = "extractors.py"
NO = "vgm/ym2151/note.py"
XS = "xrns/xrns_serializer.py"
PT = "xrns/parts/pattern.py"
WR = "xrns/writer.py"
SO = "xrns/parts/song.py"
GL = "xrns/parts/globals.py"
MA = "main.py"
TO = "tools.py"
SQ = "xrns/parts/pattern_sequence.py"
RS = "xrns/xml/song/renoise_song65.py"
CASES = [
    ("c01_9x", "C01", [(CO, "(0x96 <= cmd_id < 0xA0)", "(0x96 <= cmd_id < 0x9F)")]),
    ("c01_block16", "C01", [(CO, "return VgmCommand(cmd_id, f.read(ss))\n    elif cmd_id == 0x68", "return VgmCommand(cmd_id, f.read(ss & 0xFFFFFF))\n    elif cmd_id == 0x68"), (CO, '"<xBI", buffer', '"<xBHH", buffer'), (CO, "(tt, ss) =", "(tt, ss, _h) =")]),
    ("c01_c0", "C01", [(CO, "elif cmd_id < 0xE0:", "elif cmd_id <= 0xE0:")]),
    ("c02_swap", "C02", [(CO, "reg = _read8(f)\n        value = _read8(f)", "value = _read8(f)\n        reg = _read8(f)")]),
    ("c02_eos", "C02", [(CO, "or (0x64 <= cmd_id <= 0x65)", "or (0x64 <= cmd_id <= 0x66)")]),
    ("c03_7n", "C03", [(CM, "cmd_id % 16 + 1", "cmd_id % 15 + 1")]),
    ("c03_16", "C03", [(CO, "WaitCommand(cmd_id, _read16(f))", "WaitCommand(cmd_id, _read16(f) & 0x7FFF)")]),
    ("c04_read8", "C04", [(CO, 'if b is None or len(b) != 1:\n        raise EOFError\n    return struct.unpack("B", b)[0]', 'return b[0] if b else 0')]),
    ("c04_read16", "C04", [(CO, 'if b is None or len(b) != 2:\n        raise EOFError\n    return struct.unpack("<H", b)[0]', 'return int.from_bytes(b, "little")')]),
    ("c05_bcd", "C05", [(CO, "item >> 4, item & 0x0F", "item >> 4 & 7, item & 0x0F")]),
    ("c05_110", "C05", [(CO, "self.version < 110", "self.version <= 110")]),
    ("c05_150", "C05", [(CO, "self.version >= 150", "self.version > 150")]),
    ("c06_gz", "C06", [(CO, 'header[:2] == b"\\x1f\\x8b"', 'header[:3] == b"\\x1f\\x8b\\x08" and header[3] == 0')]),
    ("c06_sig", "C06", [(CO, 'header != b"Vgm "', 'header[:3] != b"Vgm"')]),
    ("c07_native", "C07", [(CO, '"<I"', '"I"')]),
    ("c07_sys", "C07", [(CO, 'struct.unpack("<H", b)[0]', 'int.from_bytes(b, sys.byteorder)'), (CO, "import struct", "import struct\nimport sys")]),
    ("c08_tl", "C08", [(ST, "cmd.value & 0x7F\n            )\n        elif cmd.reg & 0xE0 == 0x80", "cmd.value & 0x3F\n            )\n        elif cmd.reg & 0xE0 == 0x80")]),
    ("c08_ops", "C08", [(ST, "operator = (cmd.reg >> 3) & 0x03", "operator = (cmd.reg >> 3) & 0x03 if cmd.reg < 0xF0 else (cmd.reg >> 4) & 0x03")]),
    ("c09_pms", "C09", [(ST, "pms = (cmd.value >> 4) & 0x07", "pms = (cmd.value >> 4) & 0x03")]),
    ("c09_amd", "C09", [(ST, "self._current_base_config.amp_md = cmd.value", "self._current_base_config.amp_md = cmd.value & 0x3F")]),
    ("c10_lfo", "C10", [(ST, "self._current_base_config.lfo = cmd.value\n", "self._current_base_config.lfo = cmd.value\n            if not cmd.value:\n                self._current_base_config.amp_md = 0\n")]),
    ("c10_noise", "C10", [(ST, "elif cmd.reg == 0x0F:", "elif cmd.reg in (0x0F, 0x1F):")]),
    ("c10_reg", "C10", [(ST, "if cmd.reg == 0x08:", "if cmd.reg & 0xF7 == 0x00:")]),
    ("c11_beat", "C11", [(ST, "self._samples += samples", "self._samples += samples & 0xFFFF")]),
    ("c11_apply", "C11", [(ST, "channel = cmd.reg & 0x07\n", "channel = cmd.reg & 0x07\n        if cmd.reg == 0x14 and cmd.value & 0x40:\n            self._samples += 1\n")]),
    ("c12_dup", "C12", [(ST, "self._channel_key_presses[cmd.value & 0x7].append(note)", "kp = self._channel_key_presses[ch]\n                if not kp or kp[-1].sample != note.sample or kp[-1].config_id != note.config_id:\n                    kp.append(note)")]),
    ("c12_ch", "C12", [(ST, "note = Note(config_id, self._note_configs[ch], self._samples)", "note = Note(config_id, self._note_configs[channel], self._samples)")]),
    ("c12_first", "C12", [(ST, "if op and self._first_beat is None", "if self._first_beat is None")]),
    ("c13_eq", "C13", [(CF, "and self.noise_freq == other.noise_freq\n", "")]),
    ("c13_op", "C13", [(CF, "            and self._operators == operators\n", "")]),
    ("c13_window", "C13", [(ST, "for (i, c) in enumerate(self.configs)\n", "for (i, c) in enumerate(self.configs[:128])\n")]),
    ("c13_dt", "C13", [(CF, "and self.first_decay_level == other.first_decay_level", "and self.first_decay_level <= other.first_decay_level")]),
    ("c14_ch", "C14", [(ST, "copy.deepcopy(self._channel_configs[ch]),\n", "self._channel_configs[ch],\n")]),
    ("c14_base", "C14", [(ST, "                            copy.deepcopy(self._current_base_config),\n", "                            self._current_base_config,\n"), (ST, "                    self._current_base_config = copy.deepcopy(self._current_base_config)\n", "")]),
    ("c14_shallow", "C14", [(CF, "copy.deepcopy(other.operators)", "list(other.operators)")]),
    ("c14_note", "C14", [("vgm/ym2151/note.py", "self.octave: int = note_config.octave", "self._nc = note_config"), ("vgm/ym2151/note.py", "    def __str__(self):", "    @property\n    def octave(self):\n        return self._nc.octave\n\n    def __str__(self):")]),
    ("c17_oct14", "C17", [(NO, "if self.note == 14", "if self.note == 14 and self.octave < 7")]),
    ("c17_a", "C17", [(NO, '10: "A-"', '10: "A#"')]),
    ("c17_off", "C17", [(NO, "if self.config_id < 0:\n            return \"Off\"", "if self.config_id <= 0:\n            return \"Off\"")]),
    ("c17_neg", "C17", [(NO, "octave = self.octave\n", "octave = self.octave & 3\n")]),
    ("c18_round", "C18", [(EX, "total_row = n.sample // ticks_per_note\n", "total_row = round(n.sample / ticks_per_note)\n")]),
    ("c18_63", "C18", [(EX, "row = total_row % line_count\n", "row = min(total_row % line_count, 62)\n")]),
    ("c18_pat", "C18", [(EX, "pattern = total_row // line_count\n", "pattern = min(total_row // line_count, 255)\n")]),
    ("c18_pool", "C18", [(PT, "while pattern >= len(self.patterns)", "while pattern > len(self.patterns)")]),
    ("c18_setdefault", "C18", [(PT, "self.patterns[pattern].tracks[channel].lines[line] = Pattern.Line(\n            note, instrument, pan\n        )", "self.patterns[pattern].tracks[channel].lines.setdefault(line, Pattern.Line(\n            note, instrument, pan\n        ))")]),
    ("c18_skip0", "C18", [(XS, "for idx, line in track.lines.items()", "for idx, line in track.lines.items() if idx")]),
    ("c18_idx", "C18", [(XS, "index=idx,", "index=idx & 31,")]),
    ("c18_shared", "C18", [(PT, "[\n            Pattern.PatternTrack() for _ in range(tracks)\n        ]", "[Pattern.PatternTrack()] * tracks")]),
    ("c19_hex", "C19", [(EX, ":0>2X}", ":0>2}")]),
    ("c19_lower", "C19", [(EX, ":0>2X}", ":0>2x}")]),
    ("c19_id0", "C19", [(EX, "if n.config_id >= 0:\n                instr", "if n.config_id > 0:\n                instr")]),
    ("c19_pan", "C19", [(EX, "if not n.right or not n.left:", "if not n.right and not n.left:")]),
    ("c19_pan2", "C19", [(EX, "if n.right:\n                    pan", "if n.right or n.key_fraction > 60:\n                    pan")]),
    ("c20_round", "C20", [(EX, "int(bpm)", "round(bpm)")]),
    ("c20_lpb", "C20", [(GL, "self.lines_per_beat: int = 4", "self.lines_per_beat: int = 8")]),
    ("c20_clip", "C20", [(EX, "int(bpm)", "min(int(bpm), 999)")]),
    ("c20_floor", "C20", [(EX, "note_length = ticks_per_note / sample_freq", "note_length = (ticks_per_note // 5) * 5 / sample_freq")]),
    ("c21_seq", "C21", [(EX, "range(len(song.pattern_pool.patterns))", "range(max(1, len(song.pattern_pool.patterns) - 1))")]),
    ("c21_master", "C21", [(XS, "output.sequencer_master_track = master_track", "output.sequencer_master_track = master_track * 2")]),
    ("c21_inst", "C21", [(EX, "instruments=len(s.configs)", "instruments=min(len(s.configs), 254)")]),
    ("c21_send", "C21", [(PT, "[Pattern.PatternSendTack()]", "[]")]),
    ("c21_append", "C21", [(WR, 'mode="w"', 'mode="a"')]),
    ("c21_name", "C21", [(WR, '"Song.xml"', '"song.xml"')]),
    # --- C15 settings by value
    ("c15_copy_fb", "C15", [(CF, "0 if not other else other.fb\n", "0 if not other else other.fb & 3\n")]),
    ("c15_ops_zip", "C15", [(CF, "and self.operators == other.operators\n", "and all(a.total_level == b.total_level for a, b in zip(self.operators, other.operators))\n")]),
    ("c15_note_left", "C15", [(CF, "and self.left == other.left\n", "and (self.left == other.left or not self.right)\n")]),
    ("c15_hash_eq", "C15", [(CF, "and self.waveform == other.waveform\n", "and (self.waveform == other.waveform or not self.lfo)\n")]),
    ("c15_ne", "C15", [(CF, "    # noinspection PyArgumentList\n    def __deepcopy__(self, _) -> object:\n        return OperatorConfig(self)", "    def __ne__(self, other):\n        return self.__dict__ != getattr(other, '__dict__', None) and self.ase != other.ase\n\n    def __deepcopy__(self, _) -> object:\n        return OperatorConfig(self)")]),
    ("c15_share_ops", "C15", [(CF, "[] if not other else copy.deepcopy(other.operators)", "[] if not other else [copy.deepcopy(o) if o.total_level else o for o in other.operators]")]),
    ("c15_default_true", "C15", [(CF, "self.right: bool = False if not other else other.right", "self.right: bool = other is None if not other else other.right")]),
    ("c15_compare_op", "C15", [(CF, "and self._operators == operators\n", "and self._operators & operators == operators\n")]),
    # --- C16 instrument file
    ("c16_m2c1", "C16", [(CF, '"c1": self.operators[2],\n            "m2": self.operators[1],', '"c1": self.operators[1],\n            "m2": self.operators[2],')]),
    ("c16_repr_or", "C16", [(CF, '"noise_freq": self.noise_freq,\n', '"noise_freq": self.noise and self.noise_freq,\n')]),
    ("c16_wave", "C16", [(CF, "        return self.name\n", "        return self.name.title()\n")]),
    ("c16_ops", "C16", [(CF, "if self & Operators.CAR2:", "if self & Operators.CAR2 and len(o) < 3:")]),
    ("c16_sorted", "C16", [(EX, "json.dumps(s.configs,", "json.dumps(sorted(s.configs, key=lambda c: (c.lfo, c._id)),")]),
    ("c16_dash", "C16", [(EX, 'with smart_open(instr_filename, "w") as fo:', 'with smart_open(instr_filename if s.configs else "-", "w") as fo:')]),
    ("c16_mode", "C16", [(EX, 'with smart_open(instr_filename, "w") as fo:', 'with smart_open(instr_filename, "a") as fo:')]),
    ("c16_twice", "C16", [(EX, '        fo.write(js)\n        fo.write("\\n")', '        fo.write(js)\n        fo.write("\\n" if len(js) > 2 else "null\\n")')]),
    ("c16_ase", "C16", [(CF, '"ase": self.ase,', '"ase": int(self.ase),')]),
    # --- C22 whole file
    ("c22_chip", "C22", [("main.py", "            st.apply(cmd)", "            if cmds.supports('ym2151'):\n                st.apply(cmd)")]),
    ("c22_loop", "C22", [("main.py", "        elif isinstance(cmd, vgm.core.WaitCommand):", "        elif cmd.command_id == 0x67 and st.configs:\n            break\n        elif isinstance(cmd, vgm.core.WaitCommand):")]),
    ("c22_id", "C22", [("main.py", "        if isinstance(cmd, config.YM2151Command):", "        if isinstance(cmd, config.YM2151Command) and not (cmd.reg == 0x19 and cmd.value == 0):")]),
    # --- C24 estimator
    ("c24_range", "C24", [(ST, "return top[0][0]", "return min(top[0][0], 7500)")]),
    ("c24_ticks", "C24", [(ST, "return sorted(list(self._note_beats))", "return sorted(list(self._note_beats), reverse=len(self._note_beats) > 40)")]),
    ("c24_div", "C24", [(ST, "(len(ticks) * 2 - 1)", "(len(ticks) * 2 - 4)")]),
    ("c24_first", "C24", [(ST, "            if config_id >= 0:\n                self._note_beats", "            if config_id >= 0 and self._samples:\n                self._note_beats")]),
    ("c24_off", "C24", [(ST, "            if config_id >= 0:\n                self._note_beats", "            if config_id >= 0 or not op and ch == 7:\n                self._note_beats")]),
    ("c24_write", "C24", [(ST, "        ticks = [t for t in self.ticks() if t < top_ticks]", "        self._note_beats = {t for t in self._note_beats if t < top_ticks}\n        ticks = [t for t in self.ticks() if t < top_ticks]")]),
    ("c24_top", "C24", [(ST, "multiplier = 4", "multiplier = 3")]),
    ("c24_two", "C24", [(ST, "        for shift in range(off_start, off_end):", "        if len(ticks) == 2:\n            return max(1000, (ticks[1] - ticks[0]) % 7000)\n        for shift in range(off_start, off_end):")]),
    # --- C25 replay
    ("c25_end", "C25", [("main.py", "            break\n\n    return st", "            if st._samples:\n                break\n\n    return st")]),
    ("c25_wait", "C25", [("main.py", "            st.beat(cmd.samples)", "            st.beat(cmd.samples or 1)")]),
    ("c25_merge", "C25", [("main.py", "    for cmd in cmds:\n        if isinstance(cmd, config.YM2151Command):\n            st.apply(cmd)", "    last = None\n    for cmd in cmds:\n        if isinstance(cmd, config.YM2151Command):\n            if last is None or (cmd.reg, cmd.value) != last or cmd.reg == 8:\n                st.apply(cmd)\n            last = (cmd.reg & 0xFB, cmd.value)")]),
    ("c25_pending", "C25", [("main.py", "            st.beat(cmd.samples)", "            pend += cmd.samples"), ("main.py", "    for cmd in cmds:\n", "    pend = 0\n    for cmd in cmds:\n"), ("main.py", "            st.apply(cmd)", "            if cmd.reg != 8 or cmd.value & 0x78:\n                st.beat(pend)\n                pend = 0\n            st.apply(cmd)")]),
    # --- C26 files
    ("c26_noclose", "C26", [("tools.py", "    try:\n        yield fh\n    finally:\n        if filename and filename != \"-\":\n            fh.close()", "    yield fh\n    if filename and filename != \"-\":\n        fh.close()")]),
    ("c26_std", "C26", [("tools.py", "        if filename and filename != \"-\":\n            fh.close()", "        if filename:\n            fh.close()")]),
    ("c26_xrns", "C26", [(EX, 'with open(track_filename, "wb") as f:\n        writer(f, song)', 'f = open(track_filename, "wb")\n    writer(f, song)\n    f.close()')]),
    ("c26_zip", "C26", [(WR, 'with zipfile.ZipFile(xrnsfile, mode="w") as zf:\n        zf.writestr("Song.xml", rendered)', 'zf = zipfile.ZipFile(xrnsfile, mode="w")\n    zf.writestr("Song.xml", rendered)\n    zf.close()')]),
    ("c26_mode", "C26", [("main.py", 'smart_open(vgm_filename, "rb")', 'smart_open(vgm_filename, "r+b" if vgm_filename.endswith(".vgz") else "rb")')]),
    ("c26_extra", "C26", [(EX, '    js = json.dumps(s.configs, cls=config.ConfigEncoder, indent="\\t")\n', '    js = json.dumps(s.configs, cls=config.ConfigEncoder, indent="\\t")\n    if len(s.configs) > 255:\n        open(instr_filename + ".log", "w").close()\n')]),
    # --- C27 options
    ("c27_tn", "C27", [("main.py", "if not ticks_per_note:", "if not ticks_per_note or ticks_per_note > 44100:")]),
    ("c27_i", "C27", [("main.py", "        if track_filename:", "        if track_filename and track_filename != instr_filename + '.xrns':")]),
    ("c27_elif", "C27", [("main.py", "        if track_filename:", "        elif track_filename:")]),
    ("c27_type", "C27", [("main.py", "type=int,\n", "type=float,\n")]),
    ("c27_dest", "C27", [("main.py", "main(args.file, args.instrument, args.track, args.ticks_per_note)", "main(args.file, args.instrument, args.track or args.instrument and args.ticks_per_note and args.instrument + '.xrns', args.ticks_per_note)")]),
    # --- C28 refusal
    ("c28_none", "C28", [("main.py", '            raise SystemExit("{}: not a VGM file".format(vgm_filename))', '            print("{}: not a VGM file".format(vgm_filename))\n            return')]),
    ("c28_eof", "C28", [("main.py", "    for cmd in cmds:\n        if isinstance(cmd, config.YM2151Command):\n            st.apply(cmd)\n        elif isinstance(cmd, vgm.core.WaitCommand):\n            st.beat(cmd.samples)\n        elif isinstance(cmd, vgm.core.EOSCommand):\n            break\n", "    try:\n        for cmd in cmds:\n            if isinstance(cmd, config.YM2151Command):\n                st.apply(cmd)\n            elif isinstance(cmd, vgm.core.WaitCommand):\n                st.beat(cmd.samples)\n            elif isinstance(cmd, vgm.core.EOSCommand):\n                break\n    except EOFError:\n        pass\n")]),
    ("c28_early", "C28", [("main.py", "        s = process_vgm_file(cmds)\n", "        if instr_filename and instr_filename != '-':\n            open(instr_filename, 'w').close()\n        s = process_vgm_file(cmds)\n")]),
    ("c28_hdr", "C28", [(CO, "        if self.version >= 150:\n            self.data_start = 0x34 + _read32(self.file)\n", "        if self.version >= 150:\n            b = self.file.read(4)\n            self.data_start = 0x34 + int.from_bytes(b, 'little')\n")]),
    ("c28_block", "C28", [(CO, "        buffer = f.read(6)\n", "        buffer = f.read(6).ljust(6, b'\\0')\n")]),
    # --- C29 independence
    ("c29_default_list", "C29", [(ST, "    def __init__(self) -> None:\n        self._channel_key_presses: List[List[Note]] = []", "    _beats: Set[int] = set()\n\n    def __init__(self) -> None:\n        self._channel_key_presses: List[List[Note]] = []"), (ST, "        self._note_beats: Set[int] = set()\n", "        self._note_beats: Set[int] = self._beats\n")]),
    ("c29_default_arg", "C29", [(ST, "self._current_base_config = BaseConfig()", "self._current_base_config = Config(0)._base")]),
    ("c29_clocks", "C29", [(CO, "        self.clocks: Dict[str, int] = {}\n", ""), (CO, "    data_start = 0x40\n", "    data_start = 0x40\n    clocks: Dict[str, int] = {}\n")]),
    ("c29_data_start", "C29", [(CO, "            self.data_start = 0x34", "            Vgm.data_start = 0x34")]),
    ("c29_pool", "C29", [(PT, "        self.patterns: List[Pattern] = []\n", ""), (PT, "class PatternPool:\n", "class PatternPool:\n    patterns: List[Pattern] = []\n\n")]),
    ("c29_cfg", "C29", [(XS, "self.config = config\n", "self.config = config\n        self.config.track_colors.append(self.config.track_colors.pop(0))\n")]),
    ("c29_cache", "C29", [(EX, "def extract_instruments(instr_filename, s):\n", "_done = {}\n\n\ndef extract_instruments(instr_filename, s):\n"), (EX, "    js = json.dumps(s.configs, cls=config.ConfigEncoder, indent=\"\\t\")\n", "    if len(s.configs) not in _done:\n        _done[len(s.configs)] = json.dumps(s.configs, cls=config.ConfigEncoder, indent=\"\\t\")\n    js = _done[len(s.configs)]\n")]),
    # --- C32 attributes
    ("c32_wave_lfo", "C32", [(CF, "            return self._base.waveform\n", "            return self._base.lfo\n")]),
    ("c32_ops_truth", "C32", [(CF, "            return self._operators\n\n", "            return self._operators or self._channel.operators\n\n")]),
    ("c32_counts", "C32", [(CF, "        return getattr(self._channel, item)\n", "        return getattr(self._channel, item, None)\n")]),
    ("c32_amd", "C32", [(CF, "            return self._base.amp_md\n", "            return self._base.amp_md & 0x3F\n")]),
    # --- C23 listing
    ("c23_gap", "C23", [(EX, "                while total_row + 1 < current_row:\n", "                while total_row + 2 < current_row:\n")]),
    ("c23_shared_row", "C23", [(EX, "        note_row = [\"\"] * channel_count\n", "        empty_row = [\"\"] * channel_count\n        note_row = empty_row\n"), (EX, "                note_row = [\"\"] * channel_count\n", "                note_row = empty_row\n")]),
    ("c23_first_kept", "C23", [(EX, "                    note_row[ch] = str(channel_notes[ch])\n", "                    note_row[ch] = note_row[ch] or str(channel_notes[ch])\n")]),
    ("c23_at_most_one", "C23", [(EX, "            if current_row != total_row:\n", "            if current_row > total_row + 1:\n")]),
    ("c23_channel8", "C23", [(EX, "            for ch in range(channel_count):\n                if (\n                    ch in", "            for ch in range(channel_count - 1):\n                if (\n                    ch in"), (EX, "    channel_iters = [iter(s.key_presses(ch)) for ch in range(8)]\n", "    channel_iters = [iter(s.key_presses(ch)) for ch in range(7)]\n")]),
    ("c23_line128", "C23", [(EX, "        line_count = 64\n        total", "        line_count = 128\n        total")]),
    ("c23_same_sample", "C23", [(EX, "                    and channel_notes[ch].sample // ticks_per_note == current_row\n", "                    and channel_notes[ch].sample == current_sample\n"), (EX, "                    note_row[ch] = str(channel_notes[ch])\n", "                    note_row[ch] = note_row[ch] or str(channel_notes[ch])\n")]),
    ("c23_max", "C23", [(EX, "            current_sample = min(samples)\n", "            current_sample = samples[0]\n")]),
]
