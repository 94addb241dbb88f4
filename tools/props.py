"""Writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
TECH = "abstract interpretation over a gated value graph (own engine, /verif/absint)"


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
              "_t": technique, "_n": note, "_na": na})


CORE, STATE, CONF, NOTE = "src/vgm/core.py", "src/vgm/ym2151/state.py", "src/vgm/ym2151/config.py", "src/vgm/ym2151/note.py"
CMD, EXT, MAIN, TOOLS = "src/vgm/command.py", "src/extractors.py", "src/main.py", "src/tools.py"

prop("C01", "Every opcode consumes exactly its operand bytes",
     "After any of the 256 opcodes, the next command is read from the byte that follows the operands the VGM format defines for it (for a data "
     "block, its 6 header bytes plus the payload its size field announces). A complete command never makes reading fail, whatever its operand "
     "bytes. The end of the stream after a complete command ends the iteration without an error and without an invented command.",
     ["inputs"], "every opcode 0x00-0xFF, every operand value, every data block size, every following opcode",
     "One mis-sized opcode shifts everything after it; the tests read a few opcodes out of 256 and no data block larger than a few bytes.",
     [CORE], [("operand sizes per opcode range", CORE + " command"), ("iteration", CORE + " Vgm.__next__")],
     note="Decides the stream position after a command as a function of opcode, operands and length, for all opcodes and chosen block sizes; one "
          "known finding (0x68) is listed in known_findings.txt.")
prop("C02", "Commands are classified, and YM2151 writes carry register then value",
     "Opcode 0x54 alone is a YM2151 register write, carrying the first operand byte as register and the second as value. Opcodes 0x61-0x63 and "
     "0x70-0x8F alone are waits, opcode 0x66 alone marks the end of the sound data, and every other opcode is neither. Every command reports the "
     "opcode it was read from.",
     ["inputs"], "every opcode and every operand value",
     "The tests decode a handful of opcodes; a range comparison off by one on another opcode is invisible to them.",
     [CORE, CMD, CONF], [("dispatch on the opcode", CORE + " command")])
prop("C03", "Wait commands last as many samples as the VGM format says",
     "0x61 waits its 16 bit little endian operand, 0x62 735, 0x63 882, 0x7n n+1 and 0x8n n samples. No other command takes time.",
     ["inputs"], "every waiting opcode, all 65536 operands of 0x61",
     "Tests sample a few opcodes and operands; the duration must be right for each of them because all later times depend on it.",
     [CORE, CMD], [("wait construction", CORE + " command"), ("short waits", CMD + " WaitCommand.__init__")])
prop("C04", "A stream cut inside meaningful data raises EOFError",
     "If the data ends inside the operands of a YM2151 register write or of a 16 bit wait, or inside the header fields that are read, reading "
     "raises EOFError. A register, value, duration, version, clock or offset is never made up from missing bytes.",
     ["inputs", "fault_sequences"], "every position at which the file can be cut inside these operands and header fields, in every header version",
     "Tests cut the data at one or two places; the guarantee is about all of them.",
     [CORE], [("length checks of the fixed size reads", CORE + " _read8, _read16, _read32, _read_bcd")])
prop("C05", "Header fields are decoded as their version defines them",
     "The version is the decimal number whose digits are the four BCD bytes at 0x08, the size is the field at 0x04 plus 4, and the chip clocks are "
     "the fields at 0x10 (YM2413) and 0x30 (YM2151), the latter taken from 0x10 before version 1.10; a chip is supported exactly when its clock is "
     "above 0. Commands start at 0x34 plus the field at 0x34 from version 1.50 on and at 0x40 before.",
     ["inputs"], "every version, every value of the fields read, every data offset",
     "Each version has its own rule and tests exercise few versions and one layout.",
     [CORE], [("header decode", CORE + " Vgm.__init__"), ("BCD", CORE + " _read_bcd")])
prop("C06", "Gzip is transparent and anything that is not VGM is refused",
     "A stream starting with the gzip magic is read through decompression and yields the same header and the same commands as its uncompressed "
     "content. A stream whose (decompressed) content does not start with the four bytes 'Vgm ' yields no VGM object, and does not raise.",
     ["inputs"], "every content, compressed or not, including content shorter than the signature",
     "Tests open one or two well-formed files; what matters is every near miss of the signature and every content.",
     [CORE], [("signature and gzip detection", CORE + " reader")],
     note="gzip itself is trusted: its output is an unconstrained second stream; the check decides which stream each byte is taken from.")
prop("C07", "Decoding does not depend on the byte order of the host",
     "All multi-byte header fields, wait operands and block sizes are little endian on every host. The same file yields the same header, commands "
     "and errors on a big endian host as on a little endian one.",
     ["configurations", "inputs"], "both byte orders of the host, every multi-byte field",
     "The tests run on a little endian machine, where native and little endian decoding agree.",
     [CORE], [("struct formats", CORE + " _read16, _read32, command")])
prop("C08", "Operator registers 0x40-0xFF set exactly the fields of the YM2151 table",
     "Writing a register in 0x40-0xFF sets, for the channel in bits 0-2 and the operator in bits 3-4 of its number, the fields its block holds: "
     "DT1/MUL, TL, KS/AR, AMS-EN/D1R, DT2/D2R, D1L/RR, each with the full width and bit position of the chip's register table. This holds for all "
     "192 registers, all 256 values and after any earlier history of writes and waits.",
     ["inputs", "histories"], "192 registers x 256 values, after every history of register writes and waits",
     "Tests try a few registers and values; a mask one bit short or a wrong slot shows only for particular pairs.",
     [STATE, CONF], [("register decode", STATE + " State.apply")])
prop("C09", "Channel, pitch and global registers set exactly their YM2151 fields",
     "Writing 0x0F, 0x18, 0x19, 0x1B, 0x20-0x27, 0x28-0x2F, 0x30-0x37 or 0x38-0x3F sets noise enable/frequency (channel 7), LFO frequency, phase or "
     "amplitude modulation depth (chosen by bit 7), waveform, pan/feedback/connection, octave/note, key fraction and PMS/AMS as the chip's register "
     "table defines them, for the channel in bits 0-2. This holds for all values and after any earlier history.",
     ["inputs", "histories"], "every register below 0x40 x 256 values, after every history",
     "Tests write a few values to a few of these registers.",
     [STATE, CONF], [("register decode", STATE + " State.apply")])
prop("C10", "A write changes nothing but the settings its register holds",
     "A register write leaves every other setting of the chip - all channels, operators, pitches and global settings - as it was, and writes to "
     "registers that hold none of them change nothing. A wait changes no setting, and only writes to the key register can add key events or "
     "instruments.",
     ["inputs", "histories"], "all 256 registers x 256 values against all 444 setting locations, after every history",
     "Isolation is a statement about 444 locations for each of 65536 writes; tests look at the one they wrote.",
     [STATE], [("register decode", STATE + " State.apply"), ("settings per channel", STATE + " State.__init__")])
prop("C11", "Time is exactly the sum of the waits",
     "Time starts at 0; a wait of n samples advances it by exactly n, register writes do not advance it. Every key event carries the time at which "
     "its register write was applied.",
     ["histories"], "every history of register writes and waits",
     "Tests play a handful of waits; the sum has to be right after any interleaving, at any magnitude.",
     [STATE], [("sample counter", STATE + " State.beat")])
prop("C12", "Every key write from the first key-on on is recorded once, on its channel",
     "From the first key-on (key register write with an operator mask) on, each write to the key register appends exactly one event, to the "
     "channel in its bits 0-2 and to no other, carrying that channel's pan, octave, note and key fraction and the current time; before it nothing "
     "is recorded. No event is ever removed, reordered or recorded twice.",
     ["histories"], "every history split at its first key-on, each next operation, all 256 key values",
     "Tests play short scripts; the guarantee ranges over histories.",
     [STATE, NOTE], [("key events", STATE + " State.apply"), ("event lists per channel", STATE + " State.key_presses")])
prop("C13", "Instruments are distinct settings numbered by first use",
     "A key-on refers to the recorded instrument that has exactly the sounding channel's settings, the global settings and the operator mask; if "
     "there is none, exactly one is appended whose number is its position. Two recorded instruments never have the same settings. A key-off "
     "records no instrument and refers to none.",
     ["histories"], "every history, every combination of recorded instruments, every single differing setting",
     "Equality over 56 settings and any number of recorded instruments cannot be sampled meaningfully.",
     [STATE, CONF], [("lookup by comparison", STATE + " State.apply"), ("comparison", CONF + " Config.compare, __eq__")])
prop("C14", "Recorded events and instruments never change afterwards",
     "Once recorded, an event or instrument keeps the values it had at its key write, whatever registers are written, waits applied or exports made "
     "later.",
     ["histories"], "every recorded object, every later operation and both exporters",
     "A shared object would have to be modified by exactly the right later write for a test to notice.",
     [STATE, CONF, NOTE, EXT], [("copies at key-on", STATE + " State.apply"), ("copying constructors", CONF + " BaseConfig, ChannelConfig, OperatorConfig")],
     technique="ownership / effect analysis on the abstract heap")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props2.py")).read())

NOTE_DEFAULT = ("Decided from the source on every run by abstract interpretation (all control flow joined, loops summarised, no execution of the "
                "code, no solver); the resulting summary is compared with a table written from the format documents. Trusts the engine's models of "
                "Python and the libraries (/verif/absint).")


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q absint checks run.py",
         "checks": [], "not_applicable": []}
    for p in P:
        if p["_na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["_na"]})
            continue
        cmd = "python3 run.py %s" % p["id"]
        m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough", "technique": p["_t"] or TECH, "level": "other",
                            "level_note": (p["_n"] + " " if p["_n"] else "") + NOTE_DEFAULT})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
