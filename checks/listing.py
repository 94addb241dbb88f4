"""C23: the comma separated listing of a song."""
from .common import *
from .export import SONG, StrictEnv
from .front import happens, target

EXTR = "src/extractors.py extract_tracks"
SRC = SONG + '''
def g(script, vals, tpn, name):
    s = State()
    play(s, script, vals, None)
    told = [[(n.sample, str(n)) for n in s.key_presses(ch)] for ch in range(8)]
    extractors.extract_tracks(s, name, tpn)
    return told
'''


class ListEnv(StrictEnv):
    def pick(self, t):
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("iofails"):
            return False
        return StrictEnv.pick(self, t)


def scripts(run):
    """(what, ticks per line, [(channel, on, total level, line)])"""
    out = [("nothing recorded", 700, []),
           ("key-offs before the first note", 1000, [(2, 0, 0, 0), (3, 0, 0, 4)]),
           ("one event on line 0", 1000, [(0, 1, 1, 0)]),
           ("one event on line 5", 1234, [(7, 1, 1, 5)]),
           ("all channels on one line", 999, [(c, 1, c % 3, 2) for c in (3, 1, 0, 2, 7, 5, 6, 4)]),
           ("one channel, twice on a line", 1000, [(4, 1, 0, 0), (4, 0, 0, 0), (5, 1, 1, 1), (4, 1, 2, 1), (4, 0, 0, 1), (4, 1, 0, 3)]),
           ("pattern boundaries", 1, [(0, 1, 0, 0), (1, 1, 1, 63), (2, 1, 1, 64), (1, 0, 0, 64), (3, 1, 2, 127), (3, 0, 0, 128), (0, 0, 0, 200)]),
           ("long silence", 3000, [(6, 1, 0, 0), (6, 0, 0, 1), (6, 1, 0, 150), (1, 1, 1, 150), (1, 0, 0, 151)])]
    out.append(("%d patterns" % (300 if run.thorough else 80), 2, [(k % 8, k % 3 < 2, k % 2, 1090 * k) for k in range(18 if run.thorough else 6)]))
    for k in range(12 if run.thorough else 5):
        n = (4, 9, 14, 20, 30)[k % 5]
        t = (1000, 735, 7999, 50, 2)[k % 5]
        ln, rows = 0, []
        for j in range(n):
            ln += run.rng.choice([0, 0, 0, 1, 1, 2, 5, 70 if j % 7 == 3 else 0])
            rows.append((run.rng.randrange(8), run.rng.random() < 0.65, run.rng.randrange(4), ln))
        out.append(("%d random events" % n, t, rows))
    return out


def timed(rng, tpn, rows):
    """A least and a greatest wait before each event, so that whatever the waits are each event lies on its line."""
    slack = tpn // (2 * max(1, len(rows)))
    lo = hi = 0
    out = []
    for ch, on, tl, line in rows:
        at = max(lo, line * tpn)
        w = slack if at + (hi - lo) + slack < (line + 1) * tpn else 0
        d = at - lo
        if not w and at + (hi - lo) >= (line + 1) * tpn:
            raise AssertionError("script")
        # the waits so far may already sum to hi
        lo, hi = lo + d, hi + d + w
        out.append((d, d + w))
    return out


def text_in(data, env, memo):
    v = ev(data, env, memo)
    if not isinstance(v, str):
        raise Undecided("written text %s" % show(data)[:80])
    return v


def listing(run):
    run.rule("Scripts of key events with symbolic waits, pitches and panning are listed by extract_tracks(); the written text must be a header and, "
             "for every line with an event, exactly one row with that line, its pattern, the time of its first event and the text of each channel's "
             "last event there; other rows must have no channel text.")
    for k, (what, tpn, rows) in enumerate(scripts(run)):
        waits = timed(run.rng, tpn, rows)
        name = ("t.csv", "a b.csv")[k % 2]
        run.count("scripts")
        run.sample("%s: samples per line %d, %s" % (what, tpn, rows[:4]))
        try:
            explore(run, what, tpn, rows, name, waits)
            run.count("scripts_with_symbolic_waits")
        except (Undecided, Undecidable, Incomplete):
            # the lists are merged in an order the intervals of the waits do not fix
            for which in range(3):
                explore(run, what, tpn, rows, name, [((x, x) if which == 0 else (y, y) if which == 1 else ((x + y) // 2,) * 2) for x, y in waits])


def explore(run, what, tpn, rows, name, waits):
    d = Driver(run, SRC)
    it = d.it
    it.unroll_decided = it.unroll_forever = 1 << 16
    vals, known, dts = [], set(), []
    for j, (lo, hi) in enumerate(waits):
        x = [sym("dt%d" % j, "int", lo, hi) if lo != hi else C(lo), sym("pan%d" % j, "int", 0, 3), sym("kc%d" % j, "int", 0, 255), sym("kf%d" % j, "int", 0, 255)]
        known |= {y for y in x if not is_const(y)}
        dts.append(x[0])
        vals.append(TUP(x))
    st, v, pend = d.call("g", TUP([TUP([C(c), C(1 if on else 0), C(tl), C(j)]) for j, (c, on, tl, ln) in enumerate(rows)]), TUP(vals), C(tpn), C(name))
    for seed in range(2 if len(rows) and rows[-1][3] > 9999 else 12 if run.thorough else 6):
        env = ListEnv(run.seed * 100 + seed)
        env.known = known
        for j, (lo, hi) in enumerate(waits):
            if lo != hi and seed < 2:
                env.leaves[dts[j]] = (lo, hi)[seed]
        one(run, it, what, tpn, rows, name, st, v, raised(pend), env, dts)


def one(run, it, what, tpn, rows, name, st, v, pend, env, dts):
    memo = {}
    say = lambda text, key: run.violate("%s (%d samples per line): %s" % (what, tpn, text), EXTR, key=key)
    why = outcome_raises(it, pend, env, memo)
    if why is not None:
        say("listing the events raises: %s" % why, "raises")
        return
    if st is None:
        raise Undecidable("extract_tracks never returns: %s" % it.describe_pend(pend))
    opened = [ev(e["path"], env, memo) for e in it.events if e["kind"] == "open" and happens(e, env, memo)]
    if opened != [name]:
        say("a listing requested to %r opens %s" % (name, opened), "target")
    text, to = "", set()
    for e in it.events:
        if e["kind"] == "write" and happens(e, env, memo):
            if e.get("plain"):
                continue
            if e["loops"]:
                raise Undecidable("text written in a loop that is not unrolled")
            text += text_in(e["data"], env, memo)
            to.add(str(target(it, e["ref"], env, memo)))
    if to - {name}:
        say("a listing requested to %r is written to %s" % (name, sorted(to)), "target")
    told = conc(it, st, v, env, {"ev": memo})
    # which event is on which line, from the script
    t, started, seen, want, first, ids = 0, False, [0] * 8, {}, {}, {}
    for j, (ch, on, tl, line) in enumerate(rows):
        t += ev(dts[j], env, memo)
        started = started or on
        if not started:
            continue
        if seen[ch] >= len(told[ch]) or told[ch][seen[ch]][0] != t:
            raise Undecidable("the recorded events are not those of the script (%s)" % what)
        mine = told[ch][seen[ch]][1]
        i = ids.setdefault(tl, len(ids)) if on else -1
        if (mine.strip() == "Key Off") if on else (mine.strip() != "Key Off"):
            say("a key-%s is listed as %r" % ("on" if on else "off", mine), "text")
        elif on and "[%d]" % i not in mine:
            say("a note of instrument %d is listed as %r" % (i, mine), "text")
        want.setdefault(line, {})[ch] = mine
        first.setdefault(line, t)
        seen[ch] += 1
    run.count("rows_expected", len(want))
    lines = text.splitlines()
    if not lines:
        say("the listing is empty", "header")
        return
    head = [x.strip() for x in lines[0].split(",")]
    cols = {h: k for k, h in enumerate(head)}
    needed = ["Samples", "Row", "Pattern", "Total Row"] + ["Channel %d" % (c + 1) for c in range(8)]
    if any(h not in cols for h in needed) or len(cols) != len(head):
        say("the header is %r" % lines[0], "header")
        return
    last = -1
    got = set()
    for ln in lines[1:]:
        row = [x.strip() for x in ln.split(",")]
        if len(row) != len(head):
            say("the row %r has %d fields under a header of %d" % (ln, len(row), len(head)), "fields")
            continue
        nums = [row[cols[h]] for h in ("Samples", "Row", "Pattern", "Total Row")]
        if not all(x.isdigit() for x in nums):
            say("the row %r has no line number" % ln, "fields")
            continue
        smp, r, p, line = [int(x) for x in nums]
        run.count("rows_compared")
        if (p, r) != (line // 64, line % 64):
            say("line %d is listed as pattern %d row %d" % (line, p, r), "position")
        if line <= last:
            say("line %d is listed after line %d" % (line, last), "order")
        last = line
        got.add(line)
        cells = [row[cols["Channel %d" % (c + 1)]] for c in range(8)]
        exp = [want.get(line, {}).get(c, "").strip() for c in range(8)]
        for c in range(8):
            if cells[c] != exp[c]:
                say("line %d, channel %d lists %r instead of %r" % (line, c, cells[c], exp[c]), "cell")
        if line in want and smp != first[line]:
            say("the events of line %d begin at sample %d, the listing says %d" % (line, first[line], smp), "time")
        if line in want and "Fraction" in cols:
            try:
                f = float(row[cols["Fraction"]])
            except ValueError:
                f = 9.0
            if abs(f - first[line] % tpn / tpn) > 0.0051:
                say("the events of line %d begin at sample %d, the listing says the fraction %s" % (line, first[line], row[cols["Fraction"]]), "fraction")
    for line in sorted(set(want) - got):
        say("line %d, on which channels %s have events, is not listed" % (line, sorted(want[line])), "missing")
    for line in [x for x in range(max(want) if want else 0) if x not in got and x not in want][:1]:
        say("the empty line %d is not listed" % line, "empty")
