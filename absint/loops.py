"""Iteration: unrolling of known sequences, fixpoints for unbounded ones."""
import ast
import itertools

from . import loopeval
from .core import *

_lids = itertools.count(1)      # loops have unique numbers in the process: their leaves are interned
UNROLL_SYM = 12


class Tag:
    pass


class Loops:
    # ---------------------------------------------------------- statements
    def for_loop(self, s):
        it = self.ev(s.iter)
        tag = Tag()
        fr = self.frames[-1]

        def each(v):
            self.assign(s.target, v)
            self.exec_block(s.body)
        self.loop_frame(fr, tag, lambda: self.map_fork(it, lambda x: self.drive(x, each, tag, s)), s.orelse)

    def loop_frame(self, fr, tag, run, orelse):
        if not hasattr(fr, "loop_tags"):
            fr.loop_tags = []
        pc = self.st.pc
        fr.loop_tags.append(tag)
        try:
            st, _, pend = self.region(run)
        finally:
            fr.loop_tags.pop()
        outs = []
        if st is not None:
            self.st = st
            try:
                self.exec_block(orelse)
                outs.append((self.st, None))
            except DeadPath:
                pass
        for p in pend:
            if p.kind == "break" and p.tag is tag:
                outs.append((p.state, None))
            else:
                self.pends[-1].append(p)
        self.merge_outcomes(outs, pc)

    def while_loop(self, s):
        tag = Tag()
        fr = self.frames[-1]

        def run():
            # a while loop over known data: unroll as long as the test is decided
            lid = self.next_lid()
            idx = T("idx", ("L%d" % lid,), "int", (0, None))
            done = self.try_unroll(s, tag)
            if done:
                return

            def step():
                c = self.truthy(self.ev(s.test))
                self.exit_if(neg_b(c), tag)
                self.exec_block(s.body)
            self.fix_loop(lid, step, tag, s, idx, None)
        self.loop_frame(fr, tag, run, s.orelse)

    def exit_if(self, c, tag):
        d = self.decide(c)
        if d is False:
            return
        if d is True:
            self.stash("exit", None, tag)
        s0 = self.st
        self.st = s0.copy()
        self.st.pc = s0.pc + (c,)
        self.assume(c)
        self.pends[-1].append(Pending("exit", None, self.st, tag, self.cur_node))
        self.st = s0.copy()
        n = neg_b(c)
        self.st.pc = s0.pc + (n,)
        self.assume(n)

    def try_unroll(self, s, tag):
        """Execute a while loop whose every test is decided; roll back otherwise."""
        forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
        save = self.st.copy()
        pc = self.st.pc
        marks = (len(self.events), len(self.weak), len(self.pends[-1]), len(self.loop_infos))
        k = und = 0
        pc0, exits, known = pc, [], ()
        while k <= (self.unroll_forever if forever else self.unroll_decided):
            st, c, pend = self.region(lambda: self.truthy(self.ev(s.test)))
            if st is None or pend:
                break
            self.st = st
            d = self.decide(c)
            if d is False:
                if exits:
                    self.merge_outcomes([(x, None) for x in exits] + [(self.st, None)], pc0)
                return True
            if d is None:
                # a few undecided tests of a bounded quantity: leave here under the negation
                und += 1
                now = {x for x in walk(c) if is_leaf(x)}
                if und == 1:
                    known = now
                # (a test on ever new inputs is no such quantity)
                if und > 12 or not self.bounded_test(c) or not now <= known:
                    break
                x = self.st.copy()
                x.pc = self.st.pc + (neg_b(c),)
                exits.append(x)
                self.st = self.st.copy()
                pc = self.st.pc = self.st.pc + (c,)
                self.assume(c)
            st, _, pend = self.region(lambda: self.exec_block(s.body))
            loc = [p for p in pend if p.kind == "continue" and p.tag is tag]
            out = [p for p in pend if p not in loc]
            if forever and out and (st is not None or loc):
                break
            self.pends[-1].extend(p for p in out if p.kind == "break" and p.tag is tag)
            self.repend([p for p in out if not (p.kind == "break" and p.tag is tag)])
            outs = ([(st, None)] if st is not None else []) + [(p.state, None) for p in loc]
            if not outs:
                raise DeadPath()
            self.merge_outcomes(outs, pc)
            k += 1
        self.st = save
        del self.events[marks[0]:]
        del self.weak[marks[1]:]
        del self.pends[-1][marks[2]:]
        del self.loop_infos[marks[3]:]
        return False

    def bounded_test(self, c):
        if not isinstance(c, Term):
            return False
        if c.op == "not":
            return self.bounded_test(c.args[0])
        if c.op == "conj":
            return any(self.bounded_test(x) for x in c.args[0])
        if c.op == "ite" and c.kind == "bool":
            return all(self.bounded_test(x) or is_const(x) for x in c.args[1:])
        if c.op not in ("le", "lt", "eq"):
            return False
        return all(None not in iv(a) for a in c.args)

    def next_lid(self):
        return next(_lids)

    # ---------------------------------------------------------- driving
    def once(self, each, v, tag):
        """One unrolled iteration; `continue` joins the normal way on."""
        pc = self.st.pc
        st, _, pend = self.region(lambda: each(v))
        outs = [(st, None)] if st is not None else []
        for p in pend:
            if p.kind == "continue" and p.tag is tag:
                outs.append((p.state, None))
            else:
                self.pends[-1].append(p)
        self.merge_outcomes(outs, pc)

    def drive(self, x, each, tag, node):
        """Call each(element) for every element of x, in order."""
        x = self.simp(x)
        if isinstance(x, Term) and x.op == "ite":
            return self.map_fork(x, lambda y: self.drive(y, each, tag, node))
        if isinstance(x, Ref):
            o = self.objs[x.oid]
            if o.kind == "lazy":
                k = o.extra[0]
                if k == "map":
                    fn, srcs = o.extra[1], o.extra[2]
                    if len(srcs) == 1:
                        return self.drive(srcs[0], lambda v: each(self.call(fn, [v], {})), tag, node)
                    z = self.zip_segs(srcs)
                    return self.drive_segs(z, lambda v: each(self.call(fn, list(v.items), {})), tag, node)
                if k == "filter":
                    fn = o.extra[1]

                    def flt(v):
                        c = self.truthy(v if fn is NONE else self.call(fn, [v], {}))
                        self.branch(c, lambda: each(v), lambda: None)
                    return self.drive(o.extra[2], flt, tag, node)
                if k == "genexp":
                    return self.drive_comp(o.extra[1], o.extra[2], o.extra[3], each, tag)
                if k == "enumerate":
                    cnt = self.new_obj("env")
                    self.raw_put(cnt.oid, "n", o.extra[2])

                    def enu(v):
                        c = self.get(cnt.oid, "n")
                        self.raw_put(cnt.oid, "n", add(c, C(1)))
                        each(TUP([c, v]))
                    return self.drive(o.extra[1], enu, tag, node)
                if k == "zip":
                    return self.drive_segs(self.zip_segs(o.extra[1]), each, tag, node)
                if k == "callit":
                    fn, sent = o.extra[1], o.extra[2]
                    lid = self.next_lid()
                    idx = T("idx", ("L%d" % lid,), "int", (0, None))

                    def step():
                        v = self.call(fn, [], {})
                        self.exit_if(self.truthy(self.compare_eq(v, sent)), tag)
                        each(v)
                    return self.fix_loop(lid, step, tag, node, idx, None)
                if k == "chain":
                    for y in o.extra[1]:
                        self.drive(y, each, tag, node)
                    return
                if k == "takewhile":
                    stop = Tag()

                    def tw(v):
                        c = self.truthy(self.call(o.extra[1], [v], {}))
                        self.branch(c, lambda: each(v), lambda: self.stash("break", None, stop))
                    pc = self.st.pc
                    st, _, pend = self.region(lambda: self.drive(o.extra[2], tw, tag, node))
                    outs = [(st, None)] if st is not None else []
                    for p in pend:
                        if p.kind == "break" and p.tag is stop:
                            outs.append((p.state, None))
                        else:
                            self.pends[-1].append(p)
                    return self.merge_outcomes(outs, pc)
            if o.kind == "genobj":
                fv, args, kw = o.extra
                return self.run_gen_inline(fv, args, kw, lambda v: self.once(each, v, tag))
            if o.kind == "iter":
                return self.drive_iter(x, each, tag, node)
            if o.kind == "inst" and self.get(x.oid, "$") is None:
                m = self.method(x, "__iter__")
                if m is not None:
                    r = self.simp(self.call(m, [], {}))
                    nx = self.method(r, "__next__") if isinstance(r, Ref) and self.objs[r.oid].kind == "inst" else None
                    if nx is not None:
                        return self.drive_next(nx, each, tag, node)
                    if r is x:
                        self.raise_exc("TypeError")
                    return self.drive(r, each, tag, node)
                if self.method(x, "__getitem__") is not None:
                    raise Incomplete("iteration through __getitem__")
                self.raise_exc("TypeError", C("object is not iterable"))
        segs = self.segs_of(x)
        return self.drive_segs(segs, each, tag, node)

    def drive_next(self, nx, each, tag, node):
        lid = self.next_lid()
        idx = T("idx", ("L%d" % lid,), "int", (0, None))
        stop = self.builtins["StopIteration"]

        def step():
            st, v, pend = self.region(lambda: self.call(nx, [], {}))
            for p in pend:
                if p.kind == "raise" and self.exc_matches(p.value, [stop]):
                    self.pends[-1].append(Pending("exit", None, p.state, tag, p.node))
                else:
                    self.pends[-1].append(p)
            if st is None:
                raise DeadPath()
            self.st = st
            each(v)
        self.fix_loop(lid, step, tag, node, idx, None)

    def drive_iter(self, x, each, tag, node):
        segs = self.objs[x.oid].extra
        pos = self.get(x.oid, "pos")
        if is_const(pos) and pos.v == 0 or not segs:
            rest = segs
        elif is_const(pos) and all(s[0] == "i" for s in segs):
            rest = segs[pos.v:]
        else:
            n = self.segs_len(segs)
            rest = [("n", sub(n, pos), lambda i: self.segs_elem(segs, add(pos, i)))]

        def adv(v):
            self.raw_put(x.oid, "pos", add(self.get(x.oid, "pos"), C(1)))
            each(v)
        self.drive_segs(rest, adv, tag, node)

    def iter_next(self, x, default=None):
        """next() on a position-keeping iterator."""
        segs = self.objs[x.oid].extra
        pos = self.get(x.oid, "pos")
        n = self.segs_len(segs)
        c = lt(pos, n)

        def some():
            self.raw_put(x.oid, "pos", add(pos, C(1)))
            return self.segs_elem(segs, pos)
        if default is not None:
            return self.branch(c, some, lambda: default)
        self.maybe_raise(neg_b(c), "StopIteration")
        return some()

    # segments: ('i', v) | ('g', cond, segs) | ('n', count, get)
    def segs_of(self, x):
        if isinstance(x, Tup):
            return [("i", v) for v in x.items]
        if isinstance(x, Const) and isinstance(x.v, str):
            return [("i", C(ch)) for ch in x.v]
        if isinstance(x, Const) and isinstance(x.v, (bytes, bytearray)):
            return [("i", C(b)) for b in x.v]
        if isinstance(x, RangeV):
            return self.range_segs(x)
        if isinstance(x, ClassV) and x.is_enum:
            return [("i", enum(x, v)) for v in x.members.values()]
        if isinstance(x, Term):
            if x.kind == "bytes":
                n = self.len_of(x)
                if is_const(n):
                    return [("i", self.byte_at(x, C(i))) for i in range(n.v)]
                return [("n", n, lambda i: self.byte_at(x, i))]
            if x.kind in ("int", "bool", "float", "none"):
                self.raise_exc("TypeError", C("not iterable"))
            self.note_unknown("iteration over %s" % show(x))
            n = T("lenof", (x,), "int", (0, None))
            return [("n", n, lambda i: T("proj", (x, i, ()), "any"))]
        if isinstance(x, Ref):
            o = self.objs[x.oid]
            p = self.get(x.oid, "$")
            if o.kind == "dict":
                return self.dict_segs(p, "keys")
            if o.kind == "dictview":
                return self.dict_segs(self.get(o.extra[1].oid, "$"), o.extra[0])
            if o.kind == "iter":
                pos = self.get(x.oid, "pos")
                if is_const(pos) and pos.v == 0:
                    return o.extra
                n = self.segs_len(o.extra)
                return [("n", sub(n, pos), lambda i: self.segs_elem(o.extra, add(pos, i)))]
            if o.kind in ("lazy", "genobj", "inst") and p is None:
                return self.payload_segs(self.materialize(x))
            if o.kind in ("stream", "file"):
                n = T("sym", (fresh("lines"),), "int", (0, None))
                return [("n", n, lambda i: T("proj", (n, i, ()), "str"))]
            if p is not None:
                return self.payload_segs(self.set_view(p) if o.kind == "set" else p)
        if isinstance(x, OpaqueV) or x is UNDEF:
            n = T("sym", (fresh("n"),), "int", (0, None))
            return [("n", n, lambda i: unk("element"))]
        self.raise_exc("TypeError", C("not iterable"))

    def payload_segs(self, p):
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return [("g", p.args[0], self.payload_segs(p.args[1])), ("g", neg_b(p.args[0]), self.payload_segs(p.args[2]))]
        if isinstance(p, DictV):
            return self.dict_segs(p, "keys")
        out = []
        for s in p.segs:
            if s[0] == "i":
                out.append(s)
            elif s[0] == "g":
                out.append(("g", s[1], self.payload_segs(SEQ(s[2]))))
            elif s[0] == "o":
                out.append(("n", self.seg_len(s), (lambda s: lambda i: self.inst_at(s[2], s[1], i))(s)))
            else:
                r = s[1]
                out.append(("n", self.seg_len(s), (lambda r: lambda i: self.rep_elem(r, i))(r)))
        return out

    def rep_elem(self, r, i):
        v = self.rep_at(r, i)
        if v is None:
            p = SEQ([("r", r)])
            v = self.inst_at(self.elem_t(p), self.seq_leaf(p), i)
        return v

    def range_segs(self, x):
        a, b, s = x.a, x.b, x.s
        if is_const(a) and is_const(b) and is_const(s):
            if s.v == 0:
                self.raise_exc("ValueError")
            r = range(a.v, b.v, s.v)
            if len(r) <= self.unroll_decided:
                return [("i", C(i)) for i in r]
            return [("n", C(len(r)), lambda i: add(a, mul(i, s)))]
        if is_const(s) and s.v == 1:
            n = self.nonneg(sub(b, a))
        elif is_const(s) and s.v == -1:
            n = self.nonneg(sub(a, b))
        else:
            n = T("sym", (fresh("rangelen"),), "int", (0, None))
        return [("n", n, lambda i: add(a, mul(i, s)))]

    def nonneg(self, n):
        lo, _ = iv(n)
        if lo is not None and lo >= 0:
            return n
        d = self.decide(le(ZERO, n))
        if d is True:
            return n
        return ite(le(ZERO, n), n, ZERO)

    def segs_len(self, segs):
        n = ZERO
        for s in segs:
            if s[0] == "i":
                n = add(n, C(1))
            elif s[0] == "n":
                n = add(n, s[1])
            else:
                n = add(n, ite(s[1], self.segs_len(s[2]), ZERO))
        return n

    def segs_elem(self, segs, i):
        if all(s[0] == "i" for s in segs):
            if is_const(i):
                return segs[i.v][1] if -len(segs) <= i.v < len(segs) else unk("index")
            if not segs:
                return unk("index")
            v = segs[-1][1]
            for k in range(len(segs) - 2, -1, -1):
                v = self.joinv(eq(i, C(k)), segs[k][1], v)
            return v
        off = ZERO
        cases = []
        for s in segs:
            if s[0] == "g":
                raise Incomplete("position in a conditional sequence")
            n = C(1) if s[0] == "i" else s[1]
            v = s[1] if s[0] == "i" else s[2](sub(i, off))
            off = add(off, n)
            cases.append((lt(i, off), v))
        v = cases[-1][1]
        for c, w in reversed(cases[:-1]):
            v = self.joinv(c, w, v)
        return v

    def zip_segs(self, srcs):
        ss = []
        for x in srcs:
            x = self.simp(x)
            if isinstance(x, Ref) and self.objs[x.oid].kind == "lazy" and self.objs[x.oid].extra[0] == "count":
                a, st = self.objs[x.oid].extra[1:]
                ss.append(("inf", lambda i, a=a, st=st: add(a, mul(i, st))))
            else:
                ss.append(("fin", self.segs_of(x)))
        fin = [s for k, s in ss if k == "fin"]
        if not fin:
            raise Incomplete("zip of infinite iterators")
        known = [s for s in fin if all(y[0] == "i" for y in s)]
        if len(known) == len(fin):
            n = min(len(s) for s in fin)
            return [("i", TUP([s[i][1] if k == "fin" else s(C(i)) for k, s in ss])) for i in range(n)]
        lens = [self.segs_len(s) for s in fin]
        n = lens[0]
        for m in lens[1:]:
            if m is not n:
                n = ite(lt(m, n), m, n)
        return [("n", n, lambda i: TUP([self.segs_elem(s, i) if k == "fin" else s(i) for k, s in ss]))]

    def drive_segs(self, segs, each, tag, node):
        for s in segs:
            if s[0] == "i":
                self.once(each, s[1], tag)
            elif s[0] == "g":
                self.branch(s[1], lambda: self.drive_segs(s[2], each, tag, node), lambda: None)
            else:
                self.nloop(s[1], s[2], each, tag, node)

    def nloop(self, n, get, each, tag, node):
        n = self.simp(n)
        d = self.decide(lt(ZERO, n))
        if d is False:
            return
        lid = self.next_lid()
        hi = iv(n)[1]
        if is_const(n) and n.v <= 8:
            for i in range(n.v):
                self.once(each, get(C(i)), tag)
            return
        if hi is not None and hi <= UNROLL_SYM:
            # few elements at most: element i under the condition that there are more than i
            def rest(i):
                self.once(each, get(C(i)), tag)
                if i + 1 < hi:
                    self.branch(lt(C(i + 1), n), lambda: rest(i + 1), lambda: None)
            self.branch(lt(ZERO, n), lambda: rest(0), lambda: None)
            return
        idx = T("idx", ("L%d" % lid,), "int", (0, None if hi is None else max(hi - 1, 0)))

        def step():
            self.assume(lt(idx, n))
            each(get(idx))
        self.fix_loop(lid, step, tag, node, idx, n, lambda: self.once(each, get(ZERO), tag))

    # ---------------------------------------------------------- fixpoint
    def fix_loop(self, lid, step, tag, node, idx, n, first=None):
        entry = self.st
        oid0 = self._oid
        W = {}
        info = LoopInfo(lid, node, self.frames[-1].func_name if self.frames else "?")
        info.entry_state, info.idx, info.n = entry, idx, n
        info.outer = self.loops[-1] if self.loops else None
        self.info_of[lid] = info
        marks = (len(self.events), len(self.weak), len(self.loop_infos))
        self.stats["loops"] += 1
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Incomplete("no fixpoint for the loop at %s" % self.site_of(node))
            head = entry.copy()
            for loc, w in W.items():
                head.heap[loc] = w["head"]
            self.st = head.copy()
            self.loops.append(info)
            info.head_state = head
            try:
                st, _, pend = self.region(step)
            finally:
                self.loops.pop()
            backs = [p.state for p in pend if p.kind == "continue" and p.tag is tag]
            if st is not None:
                backs.append(st)
            rest = [p for p in pend if not (p.kind in ("continue", "exit") and p.tag is tag)]
            exits = [p for p in pend if p.kind == "exit" and p.tag is tag]
            if not backs:
                break
            back, _ = self.join_many([(self.suffix(s, entry.pc), s, None) for s in backs], entry.pc)
            if not self.widen(W, entry, head, back, oid0, lid, idx, marks[1]):
                break
            del self.events[marks[0]:]
            del self.weak[marks[1]:]
            del self.loop_infos[marks[2]:]
        if not backs:
            # the body always leaves the loop: it runs at most once
            if not W:
                if first is not None:
                    del self.events[marks[0]:]
                    del self.weak[marks[1]:]
                    del self.loop_infos[marks[2]:]
                    self.st = entry
                    self.branch(lt(ZERO, n), first, lambda: None)
                    return
            outs = [(p.state, None) for p in exits]
            self.repend(rest)
            self.merge_outcomes(outs, entry.pc)
            return
        self.loop_infos.append(info)
        info.back_state = back
        info.W = {loc: (w["entry"], w["head"], back.heap.get(loc)) for loc, w in W.items()}
        info.oid0 = oid0
        self.leave_loop(info, W, entry, head, back, exits, rest, idx, n)

    def leave_loop(self, info, W, entry, head, back, exits, rest, idx, n):
        if n is not None:
            ex = head.copy()
            ex.pc = entry.pc
            outs = [ex]
        else:
            outs = [p.state for p in exits]
        # Rep segments for lists that only grow at the end
        reps = {}
        for loc, w in W.items():
            if w["kind"] != "app" or self.objs[loc[0]].kind == "set":
                continue
            hs = w["head"].segs
            es = w["entry"].segs
            app = back.heap[loc].segs[len(hs):]
            self.freeze(SEQ(app), back)
            heads = tuple(x for x in W_leaves(self, W) if x is not idx)
            reps[loc] = (es, hs, app, heads)
        exact_n = n
        if n is None and len(exits) == 1 and not [p for p in rest if p.kind == "break"]:
            c = conj(*exits[0].state.pc[len(entry.pc):])
            if c.op == "le" and c.args[1] is idx and idx not in support(c.args[0]) and not any(l in W_leaves(self, W) for l in support(c.args[0])):
                exact_n = c.args[0]
        elif n is None and len(exits) == 1:
            c = conj(*exits[0].state.pc[len(entry.pc):])
            if c.op == "le" and c.args[1] is idx and idx not in support(c.args[0]):
                exact_n = c.args[0]
        info.exact_n = exact_n
        exit_conds = [p.state.pc[len(entry.pc):] for p in exits]
        early_conds = [p.state.pc[len(entry.pc):] for p in rest]

        def fix(s, count, sub_idx):
            for loc, (es, hs, app, heads) in reps.items():
                p = s.heap.get(loc)
                ps = getattr(p, "segs", ())
                if ps[:len(hs)] == hs:
                    r = Rep(info.lid, count, idx, app, heads, info)
                    s.heap[loc] = SEQ(tuple(es) + (("r", r),) + tuple(ps[len(hs):]))
            if sub_idx is not None:
                m = {idx: sub_idx}
                for k, v in list(s.heap.items()):
                    if k[0] <= self._oid and isinstance(v, (Term, Tup)) and self._mentions(v, idx):
                        s.heap[k] = subst(v, m)
        early = [p for p in rest]
        for p in early:
            fix(p.state, idx, None)
        for s in outs:
            if exact_n is not None:
                lo = iv(exact_n)[0]
                fix(s, exact_n, exact_n if lo is not None and lo >= 0 else None)
            else:
                fix(s, idx, None)
        if early and outs:
            P = disj(*[self.suffix(p.state, entry.pc) for p in early])
            e = T("exists", (info.lid, P), "bool")
            self.exists_info[e] = info
            info.P = P
            info.exists = e
            for p in early:
                suf = p.state.pc[len(entry.pc):]
                p.state.pc = entry.pc + (e,) + (suf if len(early) > 1 else ())
                p.state.facts.add(e)
            ne_ = neg_b(e)
            for s in outs:
                suf = s.pc[len(entry.pc):]
                s.pc = entry.pc + (ne_,) + (suf if len(outs) > 1 else ())
                s.facts.add(ne_)
        loopeval.register(self, info, exit_conds, early_conds)
        self.repend(early)
        self.merge_outcomes([(s, None) for s in outs], entry.pc)

    def _mentions(self, v, leaf):
        return any(x is leaf for x in walk(v))

    # ---------------------------------------------------------- widening
    def widen(self, W, entry, head, back, oid0, lid, idx, wk0):
        changed = False
        newheads = {}
        self.loop_oid0 = oid0
        for loc, v in list(back.heap.items()):
            if loc[0] > oid0 or loc[1] == "$alive":
                continue
            hv = head.heap.get(loc)
            if hv is None:
                hv = self.base.get(loc, UNDEF)
            if v is hv:
                continue
            w = W.get(loc)
            if w is not None:
                w["cur"] = v
            if w is None:
                ent = entry.heap.get(loc)
                if ent is None:
                    ent = self.base.get(loc, UNDEF)
                w = {"entry": ent, "kind": None}
                W[loc] = w
                changed = True
                self.new_spec(w, loc, ent, v, back, lid, idx, entry, newheads)
                continue
            if self.update_spec(w, loc, v, back, lid, idx, entry, newheads):
                changed = True
        if self.relate(W, back):
            changed = True
        # stores into elements of sequences the loop itself maintains
        for origin, key, val, st in self.weak[wk0:]:
            for loc, w in W.items():
                if w["kind"] in ("pay", "app") and self.weak_update(w, loc, origin, key, val, st, lid):
                    changed = True
        return changed

    def relate(self, W, back):
        """Numbers that always are the length of a list the loop appends to, up to a constant."""
        changed = False
        lists = {loc: w for loc, w in W.items() if w["kind"] == "app" and self.objs[loc[0]].kind == "list"}
        for loc, w in W.items():
            if w["kind"] == "len":
                of = lists.get(w["with"])
                ok = of is not None and isinstance(back.heap[w["with"]], SeqV) and self.keeps(sub(back.heap[loc], self.pay_len(back.heap[w["with"]])), w["d"])
                if ok:
                    h = add(self.pay_len(of["head"]), w["d"])
                    if h is not w["head"]:
                        w["head"] = h
                        changed = True
                    continue
                w["kind"], w["norel"] = "val", True
                w["tmpl"] = self.merge_t(self.template(w["entry"], 0), ("scalar", "int", (None, None)))
                self.set_head(w, loc, w["lid"])
                changed = True
            elif w["kind"] == "val" and not w.get("norel") and w["tmpl"][:2] == ("scalar", "int") and isinstance(w["entry"], (Const, Term)) and kind(w["entry"]) == "int":
                v = back.heap.get(loc)
                if not (isinstance(v, (Const, Term)) and kind(v) == "int"):
                    continue
                for l2, w2 in lists.items():
                    if not isinstance(back.heap.get(l2), SeqV):
                        continue
                    d = sub(w["entry"], self.pay_len(w2["entry"]))
                    if is_const(d) and self.keeps(sub(v, self.pay_len(back.heap[l2])), d):
                        w["kind"], w["with"], w["d"] = "len", l2, d
                        w["head"] = add(self.pay_len(w2["head"]), d)
                        changed = True
                        break
        return changed

    def pay_len(self, p):
        n = ZERO
        for s in p.segs:
            n = add(n, self.seg_len(s))
        return n

    def keeps(self, t, d, depth=0):
        """t is the constant d whatever the conditions in it are."""
        if is_const(t) or depth > 4:
            return t is d or is_const(t) and t.v == d.v
        c = next((x.args[0] for x in walk(t) if isinstance(x, Term) and x.op == "ite"), None)
        return c is not None and all(self.keeps(subst(t, {c: b}), d, depth + 1) for b in (TRUE, FALSE))

    def leafname(self, lid, loc, w):
        w["lid"] = lid
        w["gen"] = w.get("gen", 0) + 1
        o = self.objs.get(loc[0])
        return "L%d.%s#%d.%s" % (lid, (o.cls.name if o is not None and o.cls else ""), loc[0], loc[1])

    def new_spec(self, w, loc, ent, v, back, lid, idx, entry, newheads):
        if isinstance(v, (SeqV, DictV)) or isinstance(ent, (SeqV, DictV)):
            if isinstance(ent, SeqV) and isinstance(v, SeqV) and len(v.segs) > len(ent.segs) and v.segs[:len(ent.segs)] == ent.segs:
                w["kind"] = "app"
                self.set_app(w, loc, lid, v.segs[len(ent.segs):], back, idx, None)
                return
            w["kind"] = "pay"
            w["tmpl"] = self.pay_t(ent, entry, v, back)
            self.set_head(w, loc, lid)
            return
        if ent is not UNDEF and kind(ent) == "int" and isinstance(ent, (Const, Term)) and idx is not None:
            d = sub(v, ent) if kind(v) == "int" and isinstance(v, (Const, Term)) else None
            if d is not None and is_const(d):
                w["kind"], w["k"] = "ind", d.v
                w["head"] = add(ent, mul(C(d.v), idx))
                return
        w["kind"] = "val"
        t = self.template(v, 0, back)
        if ent is not UNDEF:
            t = self.merge_t(self.template(ent, 0, entry), t)
        w["tmpl"] = t
        w["shared"] = self.shared_old(loc, ent, v, back, entry)
        w["elem"] = self.of_list(v) or self.of_list(ent)
        key = (ent, v)
        if self.has_ref(v) and key in newheads:
            w["head"] = newheads[key]
            return
        self.set_head(w, loc, lid)
        newheads[key] = w["head"]

    def set_app(self, w, loc, lid, app, back, idx, old):
        """Head of a list that only grows: what it was, plus the elements of earlier iterations."""
        t = self.elem_t(SEQ(app), 0, back)
        if old is not None:
            t = self.widen_t(old, self.merge_t(old, t))
        w["tmpl"] = ("svar", t)
        n = ZERO
        for s in app:
            n = add(n, self.seg_len(s))
        leaf = T("sym", (self.leafname(lid, loc, w), w["gen"]), "seq")
        w["k"] = n.v if is_const(n) else None
        if w["k"] is not None and idx is not None and self.objs[loc[0]].kind != "set":
            self.seqlen[leaf] = mul(n, idx)
        w["head"] = SEQ(w["entry"].segs + (("o", leaf, t),))

    def upd_app(self, w, loc, v, back, lid, idx, entry):
        hs = w["head"].segs
        if isinstance(v, SeqV) and v.segs[:len(hs)] == hs:
            app = v.segs[len(hs):]
            t = self.elem_t(SEQ(app), 0, back)
            n = ZERO
            for s in app:
                n = add(n, self.seg_len(s))
            k = n.v if is_const(n) else None
            t2 = self.merge_t(w["tmpl"][1], t) if t is not None else w["tmpl"][1]
            if t2 == w["tmpl"][1] and k == w["k"]:
                return False
            self.set_app(w, loc, lid, app, back, idx, w["tmpl"][1])
            if k != w["k"] or w.get("vark"):
                w["vark"] = True
                w["k"] = None
                self.seqlen.pop(w["head"].segs[-1][1], None)
            return True
        w["kind"] = "pay"
        w["tmpl"] = ("svar", self._smerge(self.elem_t(w["entry"], 0, entry), self._smerge(w["tmpl"][1], self.elem_t(v, 0, back))))
        self.set_head(w, loc, lid)
        return True

    def has_ref(self, v):
        return bool(refs_in(v))

    def update_spec(self, w, loc, v, back, lid, idx, entry, newheads):
        if w["kind"] == "ind":
            if v is add(w["head"], C(w["k"])):
                return False
            w["kind"] = "val"
            w["tmpl"] = self.merge_t(self.template(w["entry"], 0, entry), self.no_bounds(self.template(v, 0, back), w["entry"], w["k"]))
            self.set_head(w, loc, lid)
            return True
        if w["kind"] == "app":
            return self.upd_app(w, loc, v, back, lid, idx, entry)
        if w["kind"] == "len":
            return False
        if w["kind"] == "pay":
            t = self.pay_merge(w["tmpl"], self.pay_t2(v, back, w["head"]))
        else:
            t = self.merge_t(w["tmpl"], self.template(v, 0, back))
            more = [r for r in self.shared_old(loc, w["entry"], v, back, entry) if r not in w["shared"]] if "shared" in w else ()
            if not w.get("elem") and self.of_list(v):
                w["elem"] = True
                more = more or []
                w["tmpl"] = self.widen_t(w["tmpl"], t)
                w["shared"] = (w.get("shared") or []) + list(more)
                self.set_head(w, loc, lid)
                return True
            if more:
                w["shared"] = w["shared"] + more
                w["tmpl"] = self.widen_t(w["tmpl"], t)
                self.set_head(w, loc, lid)
                return True
        if t == w["tmpl"]:
            return False
        w["tmpl"] = self.widen_t(w["tmpl"], t)
        self.set_head(w, loc, lid)
        return True

    def no_bounds(self, t, ent, k):
        if t[0] == "scalar" and t[1] == "int":
            lo, hi = t[2]
            return ("scalar", "int", (lo, hi))
        return t

    def widen_t(self, old, new):
        """Give up the interval bounds that moved."""
        if old == new or not isinstance(new, tuple) or not isinstance(old, tuple):
            return new
        if old and new and old[0] == "scalar" and new[0] == "scalar" and new[1] == "int":
            lo = new[2][0] if old[2][0] == new[2][0] else None
            hi = new[2][1] if old[2][1] == new[2][1] else None
            # a non-negative lower bound often survives: keep 0 as a candidate
            if lo is None and new[2][0] is not None and new[2][0] >= 0:
                lo = 0
            return ("scalar", new[1], (lo, hi))
        if len(old) == len(new):
            return tuple(self.widen_t(a, b) if isinstance(b, tuple) else b for a, b in zip(old, new))
        return new

    def set_head(self, w, loc, lid):
        name = self.leafname(lid, loc, w)
        t = w["tmpl"]
        if w["kind"] == "pay":
            w["head"] = self.pay_head(w, t, name)
            return
        leaf = T("sym", (name,), "any")
        self._plain = True
        h = self.instantiate_plain(t, leaf)
        for i, r in enumerate(w.get("shared") or ()):
            h = ite(T("sym", ("%s.old%d" % (name, i),), "bool", (0, 1)), r, h)
        if w.get("elem"):
            # a copy stands for an element that its list holds as well: it may be read, not changed
            self.shared_results |= {r.oid for r in refs_in(h) if self.objs[r.oid].site == "elem" and not self.objs[r.oid].opaque}
        w["head"] = h

    def of_list(self, v):
        return any(o.opaque and o.origin is not None for o in (self.objs[r.oid] for r in refs_in(v))) if v is not UNDEF else False

    def shared_old(self, loc, ent, v, back, entry):
        """Objects from before the loop which this variable may still refer to while something else does, too."""
        out = []
        kinds = ("inst", "list", "dict", "set", "deque", "bytearray")
        mine = list(refs_in(ent)) if ent is not UNDEF else []
        for r in refs_in(v) if v is not UNDEF else ():
            # assigned in the body: whatever it was read from refers to it
            if r.oid <= self.loop_oid0 and r not in mine and r not in out and self.objs[r.oid].kind in kinds and self.objs[r.oid].site != "elem":
                out.append(r)
        for r in mine:
            if self.objs[r.oid].kind not in kinds or r in out:
                continue
            for k, x in itertools.chain(entry.heap.items(), self.base.items()):
                if k == loc or x is TRUE or k[0] == r.oid or not isinstance(x, (Ref, Tup, Term, SeqV, DictV, BoundV)):
                    continue
                if x is ent and back.heap.get(k) is v:
                    continue
                if any(y is r for y in refs_in(x)):
                    out.append(r)
                    break
        return out

    def instantiate_plain(self, t, leaf):
        n0 = self._oid
        saved = self.st
        v = self.instantiate(t, leaf, ZERO, ())
        for oid in range(n0 + 1, self._oid + 1):
            o = self.objs.get(oid)
            if o is not None:
                o.opaque = False
                o.origin = None
        self.st = saved
        return v

    # payload templates
    def pay_t(self, ent, est, v, vst):
        if isinstance(ent, DictV) and isinstance(v, DictV):
            ke = [k for k, p, _ in ent.entries]
            if ent.base is None and v.base is None and ke == [k for k, _, _ in v.entries] and \
                    all(p is TRUE for _, p, _ in ent.entries + v.entries) and all(is_const(k) for k in ke):
                return ("dfix",) + tuple((k, ("keep", a) if a is b else self.merge_t(self.template(a, 1, est), self.template(b, 1, vst)))
                                         for (k, _, a), (_, _, b) in zip(ent.entries, v.entries))
            return self._dmerge(self._dvar(ent, est), self._dvar(v, vst))
        if isinstance(ent, SeqV) and isinstance(v, SeqV):
            a, b = items_of(ent), items_of(v)
            if a is not None and b is not None and len(a) == len(b):
                return ("sfix",) + tuple(("keep", x) if x is y else self.merge_t(self.template(x, 1, est), self.template(y, 1, vst))
                                         for x, y in zip(a, b))
        return ("svar", self._smerge(self.elem_t(ent, 0, est), self.elem_t(v, 0, vst)))

    def _smerge(self, a, b):
        if a is None:
            return b
        return self.merge_t(a, b)

    def _dvar(self, d, st):
        kt = vt = None
        if isinstance(d, Term) and d.op == "ite":
            return self._dmerge(self._dvar(d.args[1], st), self._dvar(d.args[2], st))
        if isinstance(d, DictV):
            if d.base:
                kt, vt = d.base[2], d.base[3]
            for k, p, v in d.entries:
                if p is FALSE:
                    continue
                kt = self._smerge(kt, self.template(k, 1, st))
                vt = self._smerge(vt, self.template(v, 1, st))
        return ("dvar", kt, vt)

    def _dmerge(self, a, b):
        return ("dvar", self._smerge(a[1], b[1]), self._smerge(a[2], b[2]))

    def pay_t2(self, v, st, head):
        if isinstance(v, DictV) or (isinstance(v, Term) and isinstance(head, DictV)):
            if isinstance(v, DictV) and v.base is None and all(p is TRUE and is_const(k) for k, p, _ in v.entries):
                return ("dfix",) + tuple((k, self.template(x, 1, st)) for k, _, x in v.entries)
            return self._dvar(v, st)
        its = items_of(v)
        if its is not None:
            return ("sfix",) + tuple(("now", x, self.template(x, 1, st)) for x in its)
        return ("svar", self.elem_t(v, 0, st))

    def pay_merge(self, old, new):
        if old[0] == "sfix" and new[0] == "sfix" and len(old) == len(new):
            out = ["sfix"]
            for a, b in zip(old[1:], new[1:]):
                if a[0] == "keep":
                    out.append(a if b[1] is a[1] else self.merge_t(self.template(a[1], 1), b[2]))
                else:
                    out.append(self.merge_t(a, b[2]))
            return tuple(out)
        if old[0] == "dfix" and new[0] == "dfix" and [k for k, _ in old[1:]] == [k for k, _ in new[1:]]:
            out = ["dfix"]
            for (k, a), (_, b) in zip(old[1:], new[1:]):
                if a[0] == "keep":
                    ta = self.template(a[1], 1)
                    out.append((k, a if ta == b else self.merge_t(ta, b)))
                else:
                    out.append((k, self.merge_t(a, b)))
            return tuple(out)
        if old[0] in ("dfix", "dvar"):
            return self._dmerge(self._tod(old), self._tod(new))
        return ("svar", self._smerge(self._tos(old), self._tos(new)))

    def _tos(self, t):
        if t[0] == "svar":
            return t[1]
        e = None
        for x in t[1:]:
            x = self.template(x[1], 1) if x[0] == "keep" else (x[2] if x[0] == "now" else x)
            e = self._smerge(e, x)
        return e

    def _tod(self, t):
        if t[0] == "dvar":
            return t
        kt = vt = None
        for k, x in t[1:]:
            x = self.template(x[1], 1) if x[0] == "keep" else x
            kt = self._smerge(kt, ("const", k))
            vt = self._smerge(vt, x)
        return ("dvar", kt, vt)

    def pay_head(self, w, t, name):
        leaf = T("sym", (name,), "seq")
        if t[0] == "sfix":
            return SEQ([("i", x[1] if x[0] == "keep" else self.instantiate_plain(x, T("sym", ("%s[%d]" % (name, i),), "any")))
                        for i, x in enumerate(t[1:])])
        if t[0] == "dfix":
            return DICT([(k, TRUE, x[1] if x[0] == "keep" else self.instantiate_plain(x, T("sym", ("%s[%r]" % (name, k.v),), "any")))
                         for k, x in t[1:]])
        if t[0] == "dvar":
            return DICT((), ("sym", T("sym", (name,), "dict"), t[1], t[2]))
        return SEQ([("o", leaf, t[1])])

    # stores into elements
    def weak_update(self, w, loc, origin, key, val, st, lid):
        if not (isinstance(origin, tuple) and len(origin) == 3):
            return False
        root, path = self.root_path(origin)
        h = w["head"]
        lf = None
        if isinstance(h, SeqV) and h.segs and h.segs[-1][0] == "o":
            lf = h.segs[-1][1]
        elif isinstance(h, DictV) and h.base:
            lf = h.base[1]
        cur = w.get("cur")
        inrep = isinstance(root, Rep) and isinstance(cur, SeqV) and any(root is x for x in reps_in(cur))
        if not inrep and (lf is None or lf is not root):
            return False
        if key == "$":
            add_t = None
        else:
            path = path + (key,)
        t = w["tmpl"]
        e = t[1] if t[0] == "svar" else t[2]
        e2 = self.tmpl_at(e, path, key, val, st)
        if e2 == e:
            return False
        w["tmpl"] = ("svar", e2) if t[0] == "svar" else ("dvar", t[1], e2)
        if w["kind"] == "app":
            leaf = T("sym", (self.leafname(lid, loc, w), w["gen"]), "seq")
            if lf in self.seqlen:
                self.seqlen[leaf] = self.seqlen[lf]
            w["head"] = SEQ(w["entry"].segs + (("o", leaf, e2),))
            return True
        self.set_head(w, loc, lid)
        return True

    def root_path(self, origin):
        leaf, idx, path = origin
        while isinstance(leaf, Term) and leaf.op == "proj":
            l2, i2, p2 = leaf.args
            path = tuple(p2) + ("*",) + tuple(path)
            leaf = l2
        return leaf, tuple(path)

    def tmpl_at(self, t, path, key, val, st):
        """Merge a stored value into template t at path."""
        if t is None:
            return t
        if not path:
            if key != "$":
                return self.merge_t(t, self.template(val, 1, st))
            if t[0] == "dict":
                n = self.dict_t(val, 1, st)
                return self.merge_t(t, n) if t != n else t
            if t[0] in ("list", "set", "deque"):
                n = (t[0],) + self.seq_t(val, 1, st)
                return self.merge_t(t, n)
            return t
        p, rest = path[0], path[1:]
        if t[0] == "inst":
            out = []
            hit = False
            for a, x in t[2]:
                if a == p:
                    x = self.tmpl_at(x, rest, key, val, st)
                    hit = True
                out.append((a, x))
            if not hit and not rest:
                out.append((p, self.template(val, 1, st)))
            return ("inst", t[1], tuple(sorted(out)))
        if t[0] in ("list", "set", "deque"):
            if t[1] == "fixed" and isinstance(p, int):
                its = list(t[2:])
                its[p] = self.tmpl_at(its[p], rest, key, val, st)
                return t[:2] + tuple(its)
            if t[1] == "var" and p == "*":
                return t[:2] + (self.tmpl_at(t[2], rest, key, val, st),)
            return t
        if t[0] == "dict":
            if t[1] == "fixed":
                return t[:2] + tuple((k, self.tmpl_at(x, rest, key, val, st) if repr(k.v) == p else x) for k, x in t[2:])
            if p == "*":
                return t[:2] + (t[2], self.tmpl_at(t[3], rest, key, val, st))
        if t[0] == "tuple" and isinstance(p, int):
            its = list(t[1:])
            its[p] = self.tmpl_at(its[p], rest, key, val, st)
            return ("tuple",) + tuple(its)
        return t


def reps_in(p):
    for s in p.segs:
        if s[0] == "r":
            yield s[1]
            yield from reps_in(SEQ(s[1].segs))
        elif s[0] == "g":
            yield from reps_in(SEQ(s[2]))


def W_leaves(it, W):
    out = set()
    seen = set()
    for w in W.values():
        out |= loopeval.head_leaves(it, w["head"], seen)
    return out
