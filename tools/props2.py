XP, XS, XW, XN = "src/xrns/parts/pattern.py", "src/xrns/xrns_serializer.py", "src/xrns/writer.py", "src/vgm/ym2151/note.py"
SCEN = ("The exporter is summarised on scripts of key events whose times, pitches, pans and note length are symbolic; the rendered document tree is "
        "then compared with the specification for chosen valuations of those symbols.")
prop("C17", "Key codes are written as the right note and octave",
     "In the exported song a key-on's note column is the name of the note and the octave that its YM2151 key code stands for, for all 96 defined "
     "key codes (12 notes C# to C, the C belonging to the next octave number); a key-off is written as a note-off.",
     ["inputs"], "12 note codes x 8 octaves, on every channel",
     "Tests look at one or two notes; the C that ends an octave and the gaps in the note codes are exactly where they do not look.",
     [XN, EXT], [("note names", XN + " Note.xrns_note")], note=SCEN)
prop("C18", "Every event lands on the line of its time and channel",
     "In the exported song an event recorded at time t on channel c stands in pattern (t // ticks per note) // 64, in track c, at line (t // ticks "
     "per note) % 64. No other line exists, and of several events of a channel that fall on one line the latest stays.",
     ["histories", "inputs"], "every list of key events, every time, every ticks-per-note value from 1 up",
     "Boundaries of lines and patterns depend on time and note length together; tests use one short tune.",
     [EXT, XP], [("row arithmetic", EXT + " extract_tracks_to_xrns"), ("pattern pool", XP + " PatternPool.add_note")], note=SCEN)
prop("C19", "Cells carry the instrument number and the panning of their event",
     "In the exported song the instrument column of a key-on is the number of its instrument in upper case hexadecimal with at least two digits, "
     "and is absent for a key-off. The panning column of a key-on is absent when both sides sound, and present when only one does, with different "
     "texts for left and right that are the same for all events.",
     ["inputs"], "every instrument number, every combination of the two pan bits, every channel",
     "Tests have few instruments, so numbers above 9 or 15 and one-sided notes do not occur in them.",
     [EXT, XS], [("cell text", EXT + " extract_tracks_to_xrns"), ("note columns", XS + " note column construction")], note=SCEN)
prop("C20", "The song's tempo makes one line last one note length",
     "The exported song has 4 lines per beat and a tempo of 661500 / ticks-per-note beats per minute rounded down, so that a line lasts ticks-per-"
     "note samples at 44100 Hz up to that rounding.",
     ["inputs"], "every ticks-per-note value from 1 up, every recorded history",
     "Tests check one note length.",
     [EXT], [("tempo", EXT + " extract_tracks_to_xrns")], note=SCEN + " Results within 1e-6 of an integer accept either rounding.")
prop("C21", "The song file keeps every pattern, track and instrument",
     "The exported song consists of the patterns 0 to the last one an event uses, played once each in order; the song and every one of its patterns "
     "have 8 tracks, one master and one send track; there is one instrument per recorded one. The file is a newly written archive whose only member "
     "Song.xml is the rendered song.",
     ["histories", "inputs"], "every list of key events, any number of instruments and patterns",
     "Tests export one pattern; empty patterns in between, more than a few instruments or patterns are not covered.",
     [EXT, XS, XW, XP], [("pattern sequence", EXT + " extract_tracks_to_xrns"), ("serializer", XS), ("archive", XW + " writer")], note=SCEN)
EX = ("All control flow is summarised once with the unknowns left open (histories, file bytes and arguments of any length); the summary is then "
      "compared with an independent reference at chosen valuations of the unknowns.")
prop("C15", "Settings compare and copy by value",
     "Operator, channel, global and note settings of new objects are zero (off, False); == between two settings of one kind holds exactly if all "
     "their fields are equal, and != is its opposite; a copy equals its original and shares nothing with it that a later change of either could "
     "reach. An instrument matches the settings it is compared with exactly if global settings, channel settings, all four operators and the "
     "operator mask are equal.",
     ["inputs"], "every pair of settings, every single differing field or bit",
     "60 fields in four kinds of settings: a field forgotten in a comparison or shared by a copy shows only if a test differs in that very field.",
     [CONF], [("comparisons and copies", CONF + " OperatorConfig, ChannelConfig, BaseConfig, NoteConfig"), ("instrument comparison", CONF + " Config.compare")],
     note=EX)
prop("C16", "The instrument file is one JSON list with every instrument's true values",
     "extract_instruments writes exactly one JSON text to the requested file ('-' is standard output): the list of the recorded instruments in the "
     "order of their numbers, each with its number, the global settings (LFO frequency, modulation depths, waveform name), its channel settings, "
     "its operators as m1, m2, c1, c2 and whether each is keyed, in the JSON type each value has - numbers as numbers, flags as booleans - and "
     "nothing else. It never fails on a recorded history.",
     ["histories", "inputs"], "every history, every number of instruments, every value of every field",
     "Tests serialise one small instrument; swapped operators, missing fields or values of the wrong type show only with distinct values everywhere.",
     [EXT, CONF], [("JSON encoding", CONF + " ConfigEncoder"), ("file", EXT + " extract_instruments")], note=EX)
prop("C22", "A VGM file's instruments are those its YM2151 keys on",
     "For a complete VGM file - raw or gzip-compressed, given by name or on standard input - the instrument list written by the program holds "
     "exactly the settings under which its YM2151 register writes key notes on, in the order of first use, whatever other commands, data blocks, "
     "waits, header versions and data offsets the file contains.",
     ["inputs"], "every VGM file of versions 1.00 to 1.71 without PCM RAM writes (0x68)",
     "This is the whole path from bytes to output; tests check its stages separately on toy inputs.",
     [MAIN, CORE, STATE, CONF, EXT], [("the program", MAIN + " main"), ("command iteration", CORE + " Vgm")],
     note=EX + " Opcode 0x68 is the known finding of C01 and does not occur in the files evaluated.")
prop("C24", "The note length estimate is in range, exact for steady tunes, and reads only",
     "ticks_per_note() returns 1000 to 7999 for every history without raising, with and without progress output; ticks() is the ascending list of "
     "the distinct times of the key-ons; a tune whose key-ons are all the same distance apart, the distance being 1000 to 7999 samples and two of "
     "them lying in the first 32000, is estimated at that distance. Neither changes settings, time, events or instruments.",
     ["histories"], "every history; every steady distance and start",
     "An estimator that spoils the events or runs out of its range would do so on particular tunes only.",
     [STATE], [("estimator", STATE + " State.ticks_per_note"), ("key-on times", STATE + " State.ticks")],
     note="The interval 1000..7999 is derived for every history. Steady tunes are evaluated through all 7000 candidates for a few distances. How "
          "good the estimate is for other tunes has no specification and is not claimed.")
prop("C25", "Register writes and waits take effect in order and alone up to the end",
     "Replaying a list of commands of any length applies every YM2151 write and every wait exactly once and in order, ignores commands of other "
     "kinds, and stops at the first end-of-data command: settings, pitches, time, key events and instruments afterwards are those of exactly the "
     "writes and waits before it.",
     ["histories"], "every command list, every position of the end command",
     "A dropped, doubled or reordered command matters only next to the right neighbours; tests replay a few commands.",
     [MAIN, STATE], [("replay", MAIN + " process_vgm_file"), ("register decoding", STATE + " State.apply")], note=EX)
prop("C26", "Every file the program opens is closed, and nothing else is written",
     "However the program ends - normally or because reading, opening, writing, archiving or rendering fails - every file it opened is closed, "
     "standard streams stay open, no file is used after it was closed, and the song archive is finished before its file is closed. The only files "
     "opened are the given input, for binary reading, and the requested outputs, for writing anew.",
     ["fault_sequences", "inputs"], "every exit path, every file operation failing, every combination of options, '-' for input and instruments",
     "An unclosed or half-written file is invisible to a test unless the right operation fails at the right time.",
     [TOOLS, MAIN, EXT, XW], [("open and close", TOOLS + " smart_open"), ("archive", XW + " writer")], technique="typestate analysis of file handles over the abstract interpretation's exits",
     note="At most one injected fault ends a run (a failing close is not modelled). Exits whose path condition is contradictory by intervals and equalities are left out.")
prop("C27", "Command line options produce exactly the requested outputs",
     "The program takes one input file and the optional -i/--instrument FILE, -t/--track FILE and -tn/--ticks-per-note N (an integer). It writes the "
     "instruments exactly if -i is given and the song exactly if -t is given, each to the name given with it ('-' after -i is standard output), "
     "reads the input named ('-' is standard input), uses N as ticks per note if N is given and not 0 and the estimate otherwise, and then ends normally.",
     ["configurations", "inputs"], "every combination of options, every N from 1 up",
     "No test runs the command line.",
     [MAIN, EXT, TOOLS], [("argument parser", MAIN + " __main__"), ("dispatch", MAIN + " main")], note=EX)
prop("C28", "Unusable input is refused before anything is written",
     "If the input does not start with the VGM signature (after decompression), or ends inside its header fields or inside the operands of a "
     "YM2151 write, a 16 bit wait or a data block header, the program does not end normally and neither opens nor writes an output. A complete "
     "VGM file is processed and the program ends normally.",
     ["inputs", "fault_sequences"], "every cut position inside meaningful data, every damaged signature, raw and compressed, every combination of outputs",
     "An accepted fragment yields plausible but wrong output; tests try no broken file through the program.",
     [MAIN, CORE], [("refusal", MAIN + " main"), ("reader", CORE + " reader"), ("length checks", CORE + " _read8, _read16, _read32")], note=EX)
prop("C29", "States, files and songs are independent of each other",
     "What a State, a Vgm object or an exported song contains depends only on what it was given itself: not on other objects of its kind that were "
     "created, driven or exported before, meanwhile or afterwards in the same process.",
     ["histories"], "two objects of each kind, driven by any two histories, in sequence",
     "Each test builds one object; a mutable default or class attribute shared between objects never shows there.",
     [STATE, CORE, CONF, XP, EXT], [("per-object state", STATE + " State.__init__"), ("header fields", CORE + " Vgm.__init__"), ("pattern pool", XP)],
     note=EX)
prop("C23", "The comma separated track listing has one row per line, with that line's events",
     "extract_tracks() writes a header and then, for every line from 0 to the last one with an event (an event recorded at time t lies on line t // "
     "ticks per note), exactly one row in ascending order. Its Total Row is the line, its Pattern and Row are the line divided by 64 and the rest, its "
     "channel columns hold the text of the last event of that channel on that line ('Key Off', or the note with its instrument number in brackets) "
     "or nothing, and for a line with events Samples and Fraction give the time of the first of them.",
     ["histories"], "every recorded history and note length",
     "No test writes a listing, and its merging of eight event lists depends on their relative times.",
     [EXT], [("merging of the channels", EXT + " extract_tracks")],
     note="The listing is summarised for scripts of key events (0 to 30 events, up to 80 patterns; thorough 300) whose pitches, panning and times within their line are symbolic, "
          "and compared with the specification for chosen valuations.")
prop("C32", "An instrument's attributes are its settings",
     "An instrument (Config) made of base settings, channel settings and operators reads as lfo, phs_md, amp_md and waveform exactly the base settings of "
     "those names, as enabled_operators exactly its operators, and as fb, connection, ams, pms, noise, noise_freq and operators exactly its channel "
     "settings, however often they are read; a name that is no setting raises AttributeError.",
     ["inputs"], "every combination of settings and operators, every attribute name",
     "Attribute access is redirected by name at run time; tests read a few attributes of instruments whose settings are mostly zero, where a wrong one reads the same.",
     [CONF], [("attribute lookup", CONF + " Config.__getattr__")])
prop("C30", "The estimated note length is the rhythm of the tune",
     "For tunes that are not perfectly steady the estimate is the length a listener would choose.",
     ["inputs"], "every tune",
     "There is no reference to compare with.",
     [STATE], [("estimator", STATE + " State.ticks_per_note")],
     na="Quality of a heuristic: no specification says which value is right, so there is nothing an analysis could decide (C24 decides range, purity and steady tunes).")
prop("C31", "Renoise opens the song archive",
     "The archive and the XML in it are well formed and accepted by the tracker's schema.",
     ["inputs"], "every exported song",
     "The tests open no song with the tracker.",
     [EXT, XW], [("rendering", XW + " writer")],
     na="Decided by zipfile, xsdata and lxml, whose source is outside this repository, and by a program that is not available. C17-C21 decide the data handed to them.")
