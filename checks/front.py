"""C25-C28: the command line, the files it opens, and what it does with the command sequence."""
import itertools

from absint.interp import Frame
from absint.core import State as Heap
from .common import *
from .export import Xml, text_of
from .stream import vgm, FileEnv
from .ym import OBS

MAIN = "src/main.py"
API = '''
import main
import extractors
def run(fn, i, t, tpn):
    return main.main(fn, i, t, tpn)

def song(s, name, tpn):
    extractors.extract_tracks_to_xrns(s, name, tpn)

def instr(name, s):
    extractors.extract_instruments(name, s)

def rows(s, name, tpn):
    extractors.extract_tracks(s, name, tpn)
'''


# ------------------------------------------------------------------ conditions

def refuted(it, conds):
    """The conditions contradict each other (proved)."""
    saved = it.st
    it.st = Heap()
    try:
        for _ in range(2):
            for c in conds:
                d = it.decide(c)
                if d is False:
                    return True
                if d is None:
                    it.assume(c)
        return False
    finally:
        it.st = saved


TEXTS = ("", "-", "a.vgm", "out")


class Free(AutoEnv):
    """Every leaf is free; texts range over the empty one, the dash and names."""

    def pick(self, t):
        if t.kind == "str":
            h = int(hashlib.sha256(("%d|%s" % (self.seed, key_of(t))).encode()).hexdigest()[:8], 16)
            return TEXTS[h % len(TEXTS)]
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("openfails"):
            return bool(int(hashlib.sha256(("%d|%s" % (self.seed, key_of(t))).encode()).hexdigest()[:8], 16) & 1)
        return AutoEnv.pick(self, t)


def related(core, conds):
    """The conditions that share inputs, directly or through others, with the core ones."""
    sup = set()
    for c in core:
        sup |= set(support(c)) if isinstance(c, Term) else set()
    out, rest = list(core), [c for c in conds if isinstance(c, Term)]
    for c in rest:
        if set(support(c)) & sup and len(support(c)) <= 12:
            out.append(c)
    return out


class Contents(dict):
    """Every stream has the same bytes; what decompression makes of them has the others."""

    def __init__(self, raw, gz):
        dict.__init__(self, {None: b""})
        self.raw, self.gz = raw, gz

    def __contains__(self, name):
        return True

    def __getitem__(self, name):
        return self.gz if name.__class__ is tuple and name[0] == "gunzip" else self.raw


class Witness(FileEnv):
    """A whole run: file contents, names, options and at most one failing step are given; loops are followed."""
    ROWS = [(1, 8, 0x78, 0), (0, 0, 0, 3000), (1, 0x29, 0x3A, 0), (1, 8, 0x79, 0), (1, 8, 0, 0)]

    def __init__(self, it, contents, names, given, fault):
        FileEnv.__init__(self, 1, it=it)
        self.streams = contents
        self.names, self.given, self.fault = names, given, fault
        self.memo = {}

    def given_seq(self, leaf):
        return self.ROWS if leaf.op == "sym" and leaf.args[0] == "ops" else None

    def pick(self, t):
        a = t.args[0] if t.args else None
        if t is self.fault:
            return True
        if t.op == "sym" and isinstance(a, str) and a.startswith(("iofails", "openfails")):
            return False
        if t.op == "sym" and a == "given":
            return self.given
        if t.op == "lenof" and a.op == "sym" and a.args[0] == "ops":
            return len(self.ROWS)
        if t.op == "proj" and a.op == "sym" and a.args[0] == "ops":
            return self.ROWS[ev(t.args[1], self, {})][t.args[2][0]]
        if t.op == "sym" and t.kind == "str":
            return self.names(t)
        if t.op == "sym" and t.kind == "int":
            return max(iv(t)[0] or 0, 735)
        if t.op == "sym" and t.kind == "bool":
            return False
        raise Undecided("leaf %s" % show(t))


def option_name(t):
    """Whether a text leaf is the input, the song or the instrument file."""
    n = str(t.args).lower()
    return "t" if "track" in n or t.args == ("t",) else "i" if "instr" in n or t.args == ("i",) else "in"


def witnesses(it, faults):
    """Runs of the program, the plainest first; those of one failing step after those of none."""
    made = it.__dict__.setdefault("witness_runs", {})
    from .stream import vgm
    good = vgm(NOTE)
    contents = [(good, b""), (b"RIFF" + bytes(80), b""), (b"\x1f\x8b\x08" + bytes(30), good), (vgm(b"\x54\x08"), b""), (b"\x1f\x8b\x08" + bytes(30), b"RIFF" + bytes(80)), (b"Vgm ", b"")]
    names = [{"in": "x.vgm", "i": "i.json", "t": "t.xrns"}, {"in": "-", "i": "-", "t": "t.xrns"}, {"in": "y.vgz", "i": "", "t": "t.xrns"}, {"in": "", "i": "i.json", "t": ""}, {"in": "-", "i": "i.json", "t": "-"}]
    for fault in [None] + list(faults):
        for ci, (raw, gz) in enumerate(contents):
            for ni, nm in enumerate(names):
                for given in (True, False):
                    key = (fault, ci, ni, given)
                    if key not in made:
                        made[key] = Witness(it, Contents(raw, gz), lambda t, nm=nm: nm[option_name(t)], given, fault)
                    yield made[key]
    if "many" not in made:
        # more than 256 instruments, channels of every number, long waits
        body = b"".join(b"\x54\x60" + bytes([k & 127]) + b"\x54\x40" + bytes([k >> 7]) + b"\x54\x08" + bytes([0x78 | (k % 8 if k > 290 else 0)]) + (b"\x61\xff\xff" if k % 9 == 0 else b"") for k in range(300))
        made["many"] = Witness(it, Contents(vgm(body + b"\x66"), b""), lambda t: names[0][option_name(t)], True, None)
    yield made["many"]


def witness(it, conds):
    """A run that meets all conditions, or None if none of those tried does."""
    faults = sorted({l for c in conds if isinstance(c, Term) for l in support(c) if l.op == "sym" and isinstance(l.args[0], str) and l.args[0].startswith(("iofails", "openfails"))},
                    key=lambda t: t.n)
    faults = [f for f in faults if any(c is f for c in conds)] or faults[-6:]
    for env in witnesses(it, faults[-6:]):
        try:
            if all(ev(c, env, env.memo) for c in conds):
                return env
        except (Undecided, TypeError, IndexError, AttributeError):
            continue
    return None


def feasible(it, core, conds, run):
    """None if the conditions are contradictory, else a valuation of the core's inputs that meets them (or Undecidable)."""
    if refuted(it, list(core) + list(conds)):
        return None
    env = witness(it, list(core) + list(conds))
    if env is not None:
        return env
    cs = related(core, conds)
    ls = sorted({l for c in core if isinstance(c, Term) for l in support(c)}, key=lambda t: t.n)
    fixed, cs2, more = {}, list(cs), set()
    while cs2:
        c = cs2.pop()
        if isinstance(c, Term) and c.op == "conj":
            cs2 += [x for x in c.args[0] if isinstance(x, Term)]
        elif isinstance(c, Term) and c.op == "not" and c.args[0] in ls:
            fixed[c.args[0]] = False
        elif isinstance(c, Term) and c in ls:
            fixed[c] = True
        for x in walk(c) if isinstance(c, Term) else ():
            if isinstance(x, Const) and isinstance(x.v, str) and len(x.v) < 20:
                more.add(x.v)
    texts = TEXTS + tuple(sorted(more - set(TEXTS)))[:4]
    choice = [(fixed[l],) if l in fixed else texts if l.kind == "str" else (False, True) if l.kind == "bool" else (None,) for l in ls]
    n = 0
    for combo in itertools.product(*choice):
        for seed in range(6):
            n += 1
            env = Free(seed, {l: v for l, v in zip(ls, combo) if v is not None}, it=it)
            memo = {}
            try:
                if all(ev(c, env, memo) for c in cs):
                    return env
            except (Undecided, TypeError, IndexError, AttributeError):
                continue
        if n > 3000:
            break
    raise Undecidable("whether %s" % [show(c)[:60] for c in core][:4])


# ------------------------------------------------------------------ programs

def run_script(run, rel="main.py", faults=False):
    """`python src/main.py ...`: the file executed under the name __main__."""
    it = run.interp()
    it.io_faults = faults
    path = os.path.join(it.src, rel)
    m = ModV("__main__", repo=True, path=path)
    it.modules["__main__"] = m
    if not os.path.isfile(path):
        raise Undecidable("%s is gone" % rel)
    tree = ast.parse(open(path, encoding="utf-8").read(), path)

    def go():
        m.oid = it.new_obj("env").oid
        it.raw_put(m.oid, "__name__", C("__main__"))
        it.raw_put(m.oid, "__file__", C(path))
        it.frames.append(Frame("__main__", m.oid, m))
        try:
            it.exec_block(tree.body)
        finally:
            it.frames.pop()
        return NONE
    st, v, pend = it.region(go)
    return it, st, pend


def mode_of(e):
    return e["mode"].v if is_const(e["mode"]) else None


def writes(mode):
    return mode is None or any(c in mode for c in "wax+")


def exits(st, pend):
    out = [(None, st)] if st is not None else []
    return out + [(p, p.state) for p in pend]


def exit_name(it, p):
    if p is None:
        return "return"
    o = it.objs[p.value.oid] if isinstance(p.value, Ref) else None
    return "%s%s" % ("raise " + o.cls.name if o is not None and o.cls else p.kind, " (line %s)" % getattr(p.node, "lineno", "?"))


def site(e):
    return e["site"].replace(":", " ", 1).split(" in ")[-1] if " in " in e["site"] else e["site"]


# ------------------------------------------------------------------ C26

def lifetimes(run, it, st, pend, what):
    """Every file opened is closed on every way out; standard streams are left open; archives end before their file does."""
    opens = [e for e in it.events if e["kind"] == "open" and e["ref"] is not None]
    for e in it.events:
        if e["kind"] == "open" and e["ref"] is None:
            raise Undecidable("a file is opened in a mode that is not known at %s" % e["site"])
    zips = [dict(e, path=e["file"]) for e in it.events if e["kind"] == "zip_open" and isinstance(e["file"], Ref)]
    for p, s in exits(st, pend):
        for e in opens + zips:
            v = s.heap.get((e["ref"].oid, "open"))
            if e.get("loops") and v is None:
                raise Undecidable("a file opened in a loop")
            run.count("open_file_exit_pairs")
            key = "%s leak %s" % (what, site(e))
            if v is None or v is FALSE or run.violated(key):
                continue
            env = feasible(it, list(e["pc"]) + [v], s.pc, run)
            if env is not None:
                run.violate("%s: %s opened at %s is still open at %s" % (what, "the archive" if e in zips else "a file (mode %s)" % mode_of(e),
                            e["site"], exit_name(it, p)), site(e), key="%s leak %s" % (what, site(e)))
    for e in it.events:
        if e["kind"] != "file" or e["what"] not in ("close", "use_after_close"):
            continue
        o = it.objs[e["ref"].oid]
        if e["what"] == "close" and o.extra.get("std"):
            run.count("closes_of_standard_streams")
            if not run.violated("%s std" % what) and feasible(it, list(e["pc"])[-8:], e["pc"], run) is not None:
                run.violate("%s: the standard stream %s is closed at %s" % (what, o.extra["std"], e["site"]), site(e), key="%s std" % what)
        if e["what"] == "use_after_close" and not refuted(it, e["pc"]):
            run.violate("%s: a file is used after it was closed at %s" % (what, e["site"]), site(e), key="%s reuse" % what)
        if e["what"] == "close":
            for z in zips:
                if z["file"] is e["ref"] or z["file"] == e["ref"]:
                    v = e["st"].heap.get((z["ref"].oid, "open"))
                    run.count("archive_end_obligations")
                    if v is None or v is FALSE or run.violated("%s archive" % what):
                        continue
                    if feasible(it, list(z["pc"]) + [v], e["pc"], run) is not None:
                        run.violate("%s: the file of an archive is closed before the archive is finished at %s" % (what, e["site"]), site(e), key="%s archive" % what)
    run.count("files_opened", len(opens))
    run.count("exits", len(exits(st, pend)))
    return opens


def files(run):
    run.rule("On every exit of the program - normal or by an exception, with any read, write, open, archive or rendering step "
             "allowed to fail - each file opened is closed; standard streams are never closed; the archive is finished before its file.")
    n = 0
    it, st, pend = run_script(run, faults=True)
    opens = lifetimes(run, it, st, pend, "command line")
    n += len(opens)
    arg = {}
    for e in it.events:
        if e["kind"] == "parse_args":
            for k, w in it.locs_of(e["ref"].oid, it.st):
                arg[k.lstrip(".")] = w
    for fname, args in (("run", ("fn", "i", "t", "tpn")), ("song", None), ("instr", None), ("rows", None)):
        d = Driver(run, API + OBS + '''
def song_(name, tpn, ops):
    s = State()
    for w, r, v, k in ops:
        step(s, w, r, v, k)
    song(s, name, tpn)

def instr_(name, tpn, ops):
    s = State()
    for w, r, v, k in ops:
        step(s, w, r, v, k)
    instr(name, s)

def rows_(name, tpn, ops):
    s = State()
    s.apply(create(0x08, 0x7B))
    rows(s, name, tpn)
''')
        d.it.io_faults = True
        try:
            if fname == "run":
                a = [sym("fn", "str"), sym("i", "str"), sym("t", "str"), sym("tpn", "int", 0, None)]
                st, v, pend = d.call("run", *a)
                allowed = {"fn": a[0], "i": a[1], "t": a[2]}
            else:
                a = [sym("name", "str"), sym("tpn", "int", 1, None)]
                st, v, pend = d.call(fname + "_", *a, op_list(d.it))
                allowed = {"name": a[0]}
        except (Incomplete, Undecided) as x:
            if fname != "rows":
                raise
            run.notes.append("extract_tracks: %s" % str(x)[:120])
            continue
        what = {"run": "main()", "song": "extract_tracks_to_xrns()", "instr": "extract_instruments()", "rows": "extract_tracks()"}[fname]
        opens = lifetimes(run, d.it, st, pend, what)
        n += len(opens)
        for e in opens:
            run.count("paths_checked")
            ok = {x for w, x in allowed.items() if (w == "fn") != writes(mode_of(e))} if fname == "run" else set(allowed.values())
            if e["path"] not in ok and feasible(d.it, list(e["pc"]), (), run) is not None:
                run.violate("%s: %s opened for %s" % (what, show(e["path"])[:60], "writing" if writes(mode_of(e)) else "reading"), site(e), key="%s path %s" % (what, site(e)))
            m = mode_of(e)
            if writes(m) and "w" not in m:
                run.violate("%s: the output is opened in mode %r, which does not replace it" % (what, m), site(e), key="%s mode %s" % (what, site(e)))
            if not writes(m) and "b" not in m:
                run.violate("%s: the input is opened in text mode %r" % (what, m), site(e), key="%s mode %s" % (what, site(e)))
        for e in d.it.events:
            if e["kind"] == "fs" and feasible(d.it, list(e["pc"])[-6:], e["pc"], run) is not None:
                run.violate("%s: the file system is changed otherwise: %s" % (what, e["what"]), site(e), key="%s fs" % what)
    if n < 6:
        raise Undecidable("%d files opened instead of at least 6" % n)


# ------------------------------------------------------------------ C27

NOTE = b"\x54\x20\xc0\x54\x28\x3a\x54\x08\x78\x61\x10\x27\x54\x08\x00\x62\x54\x08\x78\x66"


class CliEnv(FileEnv):
    """File contents and options known; leaves of loops free, without early exits."""
    follow = False

    def pick(self, t):
        if t.op == "exists":
            return False
        if t.op == "sym" and isinstance(t.args[0], str) and t.args[0].startswith("openfails"):
            return False
        return AutoEnv.pick(self, t)


def happens(e, env, memo):
    return all(ev(c, env, memo) for c in e["pc"])


FLAGS = {"instrument": ("-i", "--instrument"), "track": ("-t", "--track"), "ticks": ("-tn", "--ticks-per-note")}


def wiring(run):
    run.rule("`main.py FILE [-i F] [-t F] [-tn N]`: for each combination of options exactly the requested outputs are written, to the "
             "requested names, and the tempo is that of N ticks per note if given, else of the estimate for the song.")
    it, st, pend = run_script(run)
    pa = [e for e in it.events if e["kind"] == "parse_args"]
    if len(pa) != 1:
        raise Undecidable("%d argument parsers" % len(pa))
    spec_ = pa[0]["spec"]
    pos = [f for f, kw in spec_ if not any(x.startswith("-") for x in f)]
    if len(pos) != 1:
        run.violate("%d positional arguments instead of the input file" % len(pos), MAIN, key="positional")
        return
    leaf, given = {"file": sym_of(("arg", tuple(sorted(pos[0]))), it)}, {}
    for name, flags in FLAGS.items():
        hit = [f for f, kw in spec_ if set(flags) & set(f)]
        run.count("options")
        if len(hit) != 1 or not set(flags) <= set(hit[0]):
            run.violate("the option %s is not there" % "/".join(flags), MAIN, key="option " + name)
            return
        kw = [kw for f, kw in spec_ if f is hit[0]][0]
        if kw.get("required") is TRUE:
            run.violate("the option %s is required" % "/".join(flags), MAIN, key="option " + name)
        leaf[name] = sym_of(("arg", tuple(sorted(hit[0]))), it)
        given[name] = sym_of(("given", tuple(sorted(hit[0]))), it)
    if leaf["ticks"] is not None and leaf["ticks"].kind != "int":
        run.violate("the value of -tn is not an integer", MAIN, key="tn type")
        return
    ends = [e for e in it.events if e["kind"] == "return" and e["func"].endswith(".State.ticks_per_note")]
    if not ends:
        raise Undecidable("the estimator is gone")
    docs = [e for e in it.events if e["kind"] == "xml"]
    jss = [e for e in it.events if e["kind"] == "json"]
    opens = [e for e in it.events if e["kind"] == "open"]
    names = ["x.vgm", "-", ""]
    for gi, gt, gn in itertools.product((0, 1), repeat=3):
        for k, (fname, iname, tname, tn) in enumerate([("x.vgm", "i.json", "t.xrns", 735), ("dir/y.vgz", "-", "a b", 44100), ("-", "i", "t", 0),
                                                       ("x.vgm", "", "o", 1), ("x", "o", "", 7999), ("n.vgm", "n.json", "n.xrns", 882), ("x", "i", "t", -5),
                                                       ("x.vgm", "i.json", "t.xrns", 1000000)]):
            env = CliEnv(run.seed + k, it=it)
            env.leaves[HOST_LITTLE] = True
            body = vgm(NOTE)
            env.streams = {("open", leaf["file"]): body, "stdin": body}
            for n, l in leaf.items():
                if l is not None:
                    env.leaves[l] = {"file": fname, "instrument": iname, "track": tname, "ticks": tn}[n]
            for n, l in given.items():
                if l is not None:
                    env.leaves[l] = bool({"instrument": gi, "track": gt, "ticks": gn}[n])
            memo = {}
            call = "main.py %s%s%s%s" % (fname, " -i %r" % iname if gi else "", " -t %r" % tname if gt else "", " -tn %d" % tn if gn else "")
            try:
                check_call(run, it, env, memo, call, fname, iname if gi else None, tname if gt else None, tn if gn else None,
                           st, pend, opens, docs, jss, ends)
            except Undecided as x:
                raise Undecidable("%s: %s" % (call, x))
            run.count("command_lines")


def check_call(run, it, env, memo, call, fname, iname, tname, tn, st, pend, opens, docs, jss, ends):
    got_in, got_out = [], []
    for e in opens:
        if happens(e, env, memo):
            (got_out if writes(mode_of(e)) else got_in).append(ev(e["path"], env, memo))
    want_in = [fname] if fname not in ("", "-") else []
    if got_in != want_in:
        run.violate("%s reads %s" % (call, got_in), MAIN, key="input")
    want = ([iname] if iname not in (None, "", "-") else [])
    if sorted(got_out) != sorted(want + ([tname] if tname else [])):
        run.violate("%s writes %s" % (call, got_out), MAIN, key="outputs")
    js = [e for e in jss if happens(e, env, memo)]
    if len(js) != (1 if iname else 0):
        run.violate("%s makes %d instrument lists" % (call, len(js)), MAIN, key="instruments")
    for e in js:
        to = [w for w in it.events if w["kind"] == "write" and mentions(w["data"], e["text"]) and happens(w, env, memo)]
        tg = [target(it, w["ref"], env, memo) for w in to]
        if tg != [iname]:
            run.violate("%s writes the instruments to %s" % (call, tg), MAIN, key="instrument target")
    xs = [e for e in docs if happens(e, env, memo)]
    if len(xs) != (1 if tname else 0):
        run.violate("%s makes %d songs" % (call, len(xs)), MAIN, key="songs")
    for e in xs:
        zs = [z for z in it.events if z["kind"] == "zip_write" and mentions(z["data"], e["text"]) and happens(z, env, memo)]
        tg = []
        for z in zs:
            zz = it.objs[z["zip"].oid].extra["path"] if isinstance(z["zip"], Ref) else None
            tg.append(target(it, zz, env, memo))
        if tg != [tname]:
            run.violate("%s writes the song to %s" % (call, tg), MAIN, key="song target")
        tpn = tn
        if not tn:
            r = [x for x in ends if happens(x, env, memo)]
            vals = {ev(x["value"], env, memo) for x in r}
            if len(vals) != 1:
                run.violate("%s does not estimate the ticks per note" % call, MAIN, key="estimate")
                continue
            tpn = vals.pop()
        if tpn == 0:
            continue
        b = bpm(it, e, env, memo)
        ref = int(60 / ((tpn / 44100) * 4))
        run.count("tempos")
        if b != str(ref):
            run.violate("%s: the tempo is %s, not that of %s ticks per note (%d)" % (call, b, "the given" if tn else "the estimated", ref), MAIN, key="tempo")
    if xs or js:
        pass
    ok = st is not None and all(ev(c, env, memo) for c in st.pc)
    if not ok and not (tn is not None and tn and tn < 0):
        how = [exit_name(it, p) for p in pend if all(ev(c, env, memo) for c in p.state.pc)]
        how = [h for h in how if h]
        run.violate("%s ends with %s" % (call, how[:1]), MAIN, key="ends")


def mentions(v, t):
    return v is t or isinstance(v, Term) and any(x is t for x in walk(v))


def target(it, v, env, memo):
    """The name a stream was opened under ('-': a standard stream)."""
    v = ev(v, env, memo) if isinstance(v, (Term, Const)) else v
    if isinstance(v, Ref):
        x = it.objs[v.oid].extra
        if x.get("how") == "wrap":
            return target(it, x["inner"], env, memo)
        if x.get("std"):
            return "-" if "out" in str(x["std"]) else str(x["std"])
        v = x.get("path")
        v = ev(v, env, memo) if isinstance(v, (Term, Const)) else v
    return v


def bpm(it, e, env, memo):
    x = Xml(it, e["st"])
    r = ev(e["ref"], env, memo)
    if not isinstance(r, Ref):
        raise Undecidable("what is rendered is not an object")
    for f, n, ty in x.fields(it.objs[r.oid].cls):
        if n == "GlobalSongData":
            return x.node(n, ev(x.get(r.oid, f), env, memo), env, memo).one("BeatsPerMin")
    return None


def sym_of(label, it):
    """The leaf the analysis made for a command line argument."""
    for t in it_leaves(it):
        if t.args == label:
            return t
    return None


def it_leaves(it):
    seen, out = set(), []
    for e in it.events:
        if e["kind"] == "parse_args":
            for k, w in it.locs_of(e["ref"].oid, it.st):
                if isinstance(w, Term):
                    for t in walk(w, seen):
                        if t.__class__ is Term and t.op == "sym":
                            out.append(t)
    return out
