"""Differential self-test of the engine on small programs of our own (never the repository's code).

Each snippet defines f(...).  Argument letters: i int 0..9, b bool, y byte, n int -4..4, s stream with 0..6 bytes,
t one of three strings, l a list of three ints 0..3, u a list of unknown length of such ints (every snippet over l
is run over u, too).  The summary the engine computes for symbolic arguments is
evaluated for random arguments and compared with what Python computes.
"""
import contextlib
import io
import os
import random
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from checks.common import *            # noqa: E402,F403
from tools.snippets import SNIPPETS    # noqa: E402

DOM = {"i": range(10), "b": (False, True), "y": range(256), "n": range(-4, 5)}


class Imprecise(Exception):
    pass


class ListEnv(AutoEnv):
    follow = True

    def __init__(self, *a, **k):
        AutoEnv.__init__(self, *a, **k)
        self.rows = {}

    def pick(self, t):
        if t.op in ("lenof", "proj") and isinstance(t.args[0], Term) and t.args[0].op == "sym" and t.args[0].args[0] in self.rows:
            r = self.rows[t.args[0].args[0]]
            return len(r) if t.op == "lenof" else r[ev(t.args[1], self, {})]
        return AutoEnv.pick(self, t)

    def given_seq(self, leaf):
        return self.rows.get(leaf.args[0]) if leaf.op == "sym" else None

    def _auto(self, t):
        known = t.op in ("lenof", "proj") and isinstance(t.args[0], Term) and t.args[0].op == "sym" and t.args[0].args[0] in self.rows
        v = AutoEnv._auto(self, t)
        if known:
            self.asked.pop(t, None)
        return v


def conv(x):
    if isinstance(x, EnumVal):
        return x[1]
    if isinstance(x, (list, tuple)) and not isinstance(x, EnumVal):
        return [conv(y) for y in x]
    if isinstance(x, dict):
        return {k: conv(v) for k, v in x.items()}
    if isinstance(x, (set, frozenset)):
        return sorted(conv(y) for y in x)
    if hasattr(x, "value") and hasattr(x, "name"):
        return x.value
    return x


def one(name, args, src, rng, n):
    run = Run("C00")
    d = Driver(run, src)
    av, leaves = [], []
    d.it.sim_all = True
    for k, c in enumerate(args):
        if c == "s":
            av.append(in_stream(d.it, "in%d" % k))
        elif c == "l":
            ts = [sym("a%d_%d" % (k, j), "int", 0, 3) for j in range(3)]
            leaves.append(ts)
            av.append(d.it.new_list(ts))
            continue
        elif c == "u":
            av.append(seq_of(d.it, "a%d" % k, ("scalar", "int", (0, 3))))
        elif c == "t":
            av.append(sym("a%d" % k, "str"))
        else:
            dm = DOM[c]
            av.append(sym("a%d" % k, "bool" if c == "b" else "int", int(min(dm)), int(max(dm))))
        leaves.append(av[-1])
    st, v, pend = d.call("f", *av)
    g = {"__name__": "snippet"}
    exec(compile(src, name, "exec"), g)
    for _ in range(n):
        env = ListEnv(rng.randrange(1 << 30), it=d.it)
        conc_args = []
        for k, c in enumerate(args):
            if c == "s":
                data = bytes(rng.randrange(4) if rng.random() < .5 else rng.randrange(256) for _ in range(rng.randrange(7)))
                env.streams["in%d" % k] = data
                conc_args.append(io.BytesIO(data))
            elif c == "l":
                xs = [rng.randrange(4) for _ in range(3)]
                for t, x in zip(leaves[k], xs):
                    env.leaves[t] = x
                conc_args.append(xs)
            elif c == "u":
                xs = [rng.randrange(4) for _ in range(rng.choice((0, 1, 2, 3, 4, 6, 9)))]
                env.rows["a%d" % k] = list(xs)
                conc_args.append(xs)
            else:
                x = rng.choice(("Vgm ", "x", "")) if c == "t" else rng.choice(list(DOM[c]))
                env.leaves[leaves[k]] = x
                conc_args.append(x)
        shown = [a.getvalue() if isinstance(a, io.BytesIO) else (list(a) if isinstance(a, list) else a) for a in conc_args]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                want = ("value", conv(g["f"](*conc_args)))
        except Exception as e:
            want = ("raise", type(e).__name__)
        memo = {}
        got = None
        for p in pend:
            if all(ev(x, env, memo) for x in p.state.pc):
                o = d.it.objs[p.value.oid] if isinstance(p.value, Ref) else None
                got = ("raise", o.cls.name if o is not None and o.cls else "?")
                if got[1].startswith("struct."):
                    got = ("raise", "error")
                break
        if got is None:
            got = ("value", conv(conc(d.it, st, v, env, {"ev": memo}))) if st is not None else ("none",)
        if got != want and (env.asked or "<" in repr(got)):
            raise Imprecise("%s: %r" % (sorted(show(t) for t in env.asked)[:3], got))
        if got != want:
            return "%s%r: engine %r, Python %r" % (name, tuple(shown), got, want)
    return None


def main(argv):
    argv = [a for a in argv if a[0] != "-"]
    pat = argv[0] if argv else ""
    rng = random.Random(7)
    bad = und = imp = 0
    extra = [(n + "/u", a.replace("l", "u"), src) for n, a, src in SNIPPETS if "l" in a]
    for name, args, src in SNIPPETS + extra:
        if pat not in name:
            continue
        try:
            r = one(name, args, src, rng, 60)
        except Imprecise as e:
            imp += 1
            if "-v" in sys.argv:
                print("imprecise %s: %s" % (name, str(e)[:200]))
            continue
        except (Incomplete, Undecided) as e:
            und += 1
            print("no model  %s: %s: %s" % (name, type(e).__name__, str(e)[:140]))
            continue
        except Exception as e:
            r = "%s: engine error %s: %s" % (name, type(e).__name__, e)
            if pat:
                import traceback
                traceback.print_exc()
        if r:
            bad += 1
            print("MISMATCH  " + r[:600])
    print("%d snippets, %d mismatches, %d imprecise, %d without model" % (len(SNIPPETS), bad, imp, und))
    return 1 if bad else 0


if __name__ == "__main__":
    threading.stack_size(512 << 20)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    t.join()
    sys.exit(res[0] if res else 2)
