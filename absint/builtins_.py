"""Python's builtin functions and types."""
import ast

from .core import *
from .terms import FoldError
from .loopeval import OWNER, VALUE_OF, concrete, known, plain_value

EXCEPTIONS = {
    "BaseException": "object", "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "GeneratorExit": "BaseException", "StopIteration": "Exception",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "BufferError": "Exception",
    "EOFError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "LookupError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
    "MemoryError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "PermissionError": "OSError", "FileExistsError": "OSError",
    "IsADirectoryError": "OSError", "BlockingIOError": "OSError",
    "ReferenceError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "SyntaxError": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "UnicodeError": "ValueError", "UnicodeDecodeError": "UnicodeError",
    "UnicodeEncodeError": "UnicodeError", "Warning": "Exception", "UserWarning": "Warning",
    "DeprecationWarning": "Warning", "RuntimeWarning": "Warning", "StopAsyncIteration": "Exception",
}

STR_BOOL = ("startswith", "endswith", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "isidentifier",
            "isdecimal", "isnumeric", "isprintable", "istitle", "isascii")
STR_INT = ("find", "rfind", "index", "rindex", "count")
STR_STR = ("upper", "lower", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase", "replace", "zfill", "ljust",
           "rjust", "center", "expandtabs", "removeprefix", "removesuffix", "casefold", "translate", "format_map")
STR_LIST = ("split", "rsplit", "splitlines")


class Builtins:
    def init_builtins(self):
        b = self.builtins = {}
        self.type_ctors = {}
        self._ext_classes = {}

        def cls(name, bases=(), **kw):
            c = ClassV(name, [b[x] for x in bases], None, None, builtin=True)
            c.qual = name
            c.annots = []
            for k, v in kw.items():
                setattr(c, k, v)
            b[name] = c
            return c
        cls("object")
        cls("type", ["object"])
        cls("int", ["object"])
        cls("bool", ["int"])
        for n in ("float", "complex", "str", "bytes", "bytearray", "list", "tuple", "dict", "set", "frozenset", "NoneType", "range",
                  "function", "slice", "memoryview", "deque", "dictview", "iter", "lazy", "genobj", "module"):
            cls(n, ["object"])
        for n, base in EXCEPTIONS.items():
            cls(n, [base])
        b["IOError"] = b["EnvironmentError"] = b["OSError"]
        self.not_impl = BuiltinV("NotImplemented", None)
        b["NotImplemented"] = self.not_impl
        b["Ellipsis"] = opaque("Ellipsis")
        b["__name__"] = C("builtins")
        b["__debug__"] = TRUE

        def fn(name, f):
            b[name] = BuiltinV(name, f)
        g = globals()
        for k, f in list(g.items()):
            if k.startswith("bi_"):
                fn(k[3:], f)
            elif k.startswith("ty_"):
                self.type_ctors[k[3:]] = f
        b["object.__new__"] = BuiltinV("object.__new__", lambda it, a, k: it.alloc(a[0]))
        b["dict.fromkeys"] = BuiltinV("dict.fromkeys", dict_fromkeys)
        b["int.from_bytes"] = BuiltinV("int.from_bytes", int_from_bytes)
        b["bytes.fromhex"] = BuiltinV("bytes.fromhex", lambda it, a, k: C(bytes.fromhex(a[0].v)) if is_const(a[0]) else unk("fromhex", "bytes"))
        b["str.maketrans"] = BuiltinV("str.maketrans", lambda it, a, k: unk("maketrans"))
        b["object.__setattr__"] = BuiltinV("object.__setattr__", lambda it, a, k: it.raw_setattr(a[0], a[1].v, a[2]))
        b["type:property"] = cls_of_static = ClassV("property", [b["object"]], None, None, builtin=True)
        cls_of_static.annots = []
        cls("ExtStream", ["object"])

    # ---------------------------------------------------------- external classes
    def ext_class(self, path):
        c = self._ext_classes.get(path)
        if c is not None:
            return c
        obj = self.builtins["object"]
        if path.startswith("enum.") or path in ("Enum",):
            name = path.rsplit(".", 1)[1]
            c = ClassV(name, [obj], None, None, builtin=True)
            c.is_enum = True
            c.is_flag = name in ("Flag", "IntFlag")
            c.is_int = name in ("IntEnum", "IntFlag", "StrEnum")
            c.annots = []
        elif path in ("typing.NamedTuple",):
            c = ClassV("NamedTuple", [self.builtins["tuple"]], None, None, builtin=True)
            c.nt_base = True
            c.annots = []
        elif path in ("typing.Generic", "typing.Protocol", "abc.ABC") or path.startswith(("typing.Generic", "typing.Protocol")):
            c = ClassV(path.rsplit(".", 1)[1], [obj], None, None, builtin=True)
            c.annots = []
        elif path.startswith(("collections.abc.", "typing.")):
            c = ClassV(path, [obj], None, None, builtin=True)
            c.annots = []
        elif path in ("collections.OrderedDict", "collections.defaultdict", "collections.Counter", "collections.UserDict"):
            c = self.builtins["dict"]
        elif path in ("collections.UserList",):
            c = self.builtins["list"]
        elif path in ("collections.deque",):
            c = self.builtins["deque"]
        elif path in ("struct.error", "zipfile.BadZipFile", "gzip.BadGzipFile", "zlib.error", "json.JSONDecodeError",
                      "argparse.ArgumentTypeError", "argparse.ArgumentError"):
            base = {"gzip.BadGzipFile": "OSError", "json.JSONDecodeError": "ValueError"}.get(path, "Exception")
            c = ClassV(path, [self.builtins[base]], None, None, builtin=True)
            c.qual = path
            c.annots = []
        else:
            c = ClassV(path, [obj], None, None, builtin=True)
            c.external = True
            c.annots = []
        c.qual = path
        self._ext_classes[path] = c
        return c

    def ext_isinstance(self, v, cls):
        o = self.objs[v.oid]
        if o.kind in ("file", "stream"):
            return T("strm", (T("sym", ("obj%d" % v.oid,)), "isinstance", (C(cls.path),)), "bool")
        return FALSE

    # ---------------------------------------------------------- numbers
    def to_int(self, v):
        v = self.simp(v)

        def go(x):
            if isinstance(x, Const):
                if isinstance(x.v, (bool, int, float, str)):
                    return self.arith(_int_fold, x)
                self.raise_exc("TypeError", C("int() argument"))
            if isinstance(x, Term):
                if x.op == "enum":
                    if x.args[0].is_int:
                        return self.to_int(x.args[1])
                    self.raise_exc("TypeError", C("int() argument"))
                if x.kind == "int":
                    return x
                if x.kind == "bool":
                    return ite(x, C(1), ZERO)
                if x.kind == "float":
                    return trunc(x)
                return T("int", (x,), "int")
            if isinstance(x, Ref):
                for m in ("__int__", "__index__", "__trunc__"):
                    f = self.method(x, m)
                    if f is not None:
                        return self.call(f, [], {})
            self.raise_exc("TypeError", C("int() argument"))
        return self.map_fork(v, go) if self.any_ref(v) else self.map_pure(v, go)

    # ---------------------------------------------------------- methods of builtin objects
    def obj_method(self, v, o, name):
        k = o.kind
        if k == "inst":
            if o.cls.nt_fields:
                k = "nt"
            elif self.get(v.oid, "$") is not None:
                k = "dict" if isinstance(self.get(v.oid, "$"), DictV) else "list"
        f = METHODS.get((k, name))
        if f is None and k in ("file", "stream", "zip", "zipentry", "textwrap"):
            return self.file_method(v, o, name)
        if f is None and k == "ext":
            return self.ext_obj_attr(v, o, name)
        if f is None and k in ("iter", "genobj", "lazy"):
            f = METHODS.get(("gen", name))
        if f is None and k == "dcfield":
            if name in ("metadata", "default"):
                return o.extra.get(name, NONE)
        if f is None and k == "dictview":
            f = METHODS.get(("view", name))
        if f is None and name in ("__len__", "__getitem__", "__setitem__", "__contains__", "__iter__", "__delitem__", "__eq__", "__ne__") and \
                k in ("list", "dict", "set", "deque", "bytearray"):
            ops = {"__len__": lambda it, a, kw: it.len_of(a[0]), "__getitem__": lambda it, a, kw: it.get_item(a[0], a[1]),
                   "__setitem__": lambda it, a, kw: it.raw_set_item(a[0], a[1], a[2]), "__contains__": lambda it, a, kw: it.contains(a[0], a[1]),
                   "__iter__": lambda it, a, kw: bi_iter(it, [a[0]], {}), "__delitem__": lambda it, a, kw: it.del_item(a[0], a[1]) or NONE,
                   "__eq__": lambda it, a, kw: it.compare_eq(a[0], a[1]), "__ne__": lambda it, a, kw: neg_b(it.truthy(it.compare_eq(a[0], a[1])))}
            f = ops[name]
        if f is None:
            return None
        return bound(_bv(k, name, f), v)

    def raw_set_item(self, o, k, v):
        self.set_item(o, k, v)
        return NONE

    # ---------------------------------------------------------- methods of scalars
    def scalar_attr(self, v, name):
        k = kind(v)
        if k == "str":
            if name in ("join", "format", "encode", "partition", "rpartition") or name in STR_BOOL + STR_INT + STR_STR + STR_LIST:
                return BuiltinV("str." + name, lambda it, a, kw: it.str_method(v, name, a, kw))
            return None
        if k == "bytes":
            return BuiltinV("bytes." + name, lambda it, a, kw: it.bytes_method(v, name, a, kw)) if hasattr(bytes, name) else None
        if k in ("int", "bool", "float"):
            if name == "to_bytes":
                return BuiltinV("int.to_bytes", lambda it, a, kw: it.to_bytes(v, a, kw))
            if name == "from_bytes":
                return self.builtins["int.from_bytes"]
            if name in ("real", "numerator"):
                return v
            if name in ("imag",):
                return ZERO
            if name in ("bit_length", "bit_count"):
                return BuiltinV("int." + name, lambda it, a, kw: C(getattr(v.v, name)()) if is_const(v) else T("strm", (v, name, ()), "int", (0, None)))
            if name == "is_integer":
                return BuiltinV("float." + name, lambda it, a, kw: C(v.v.is_integer()) if is_const(v) else T("strm", (v, name, ()), "bool"))
            if name in ("__add__", "__sub__", "__mul__", "__floordiv__", "__mod__", "__and__", "__or__", "__xor__", "__lshift__", "__rshift__"):
                op = {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__floordiv__": ast.FloorDiv, "__mod__": ast.Mod,
                      "__and__": ast.BitAnd, "__or__": ast.BitOr, "__xor__": ast.BitXor, "__lshift__": ast.LShift, "__rshift__": ast.RShift}[name]
                return BuiltinV("int." + name, lambda it, a, kw: it.binop(op, v, a[0]))
            if name == "__index__":
                return BuiltinV("int." + name, lambda it, a, kw: v)
            return None
        if isinstance(v, Tup):
            if name == "index":
                return BuiltinV("tuple.index", lambda it, a, kw: it.seq_index(SEQ([("i", x) for x in v.items]), a[0]))
            if name == "count":
                return BuiltinV("tuple.count", lambda it, a, kw: it.seq_count(SEQ([("i", x) for x in v.items]), a[0]))
            if name == "__len__":
                return BuiltinV("tuple.len", lambda it, a, kw: C(len(v.items)))
            if name == "__getitem__":
                return BuiltinV("tuple.getitem", lambda it, a, kw: it.get_item(v, a[0]))
        if isinstance(v, RangeV):
            if name in ("start", "stop", "step"):
                return {"start": v.a, "stop": v.b, "step": v.s}[name]
            if name == "index":
                return BuiltinV("range.index", lambda it, a, kw: fdiv(sub(a[0], v.a), v.s))
        if name == "__class__":
            return self.class_of(v)
        if name in ("__eq__",):
            return BuiltinV("eq", lambda it, a, kw: it.compare_eq(v, a[0]))
        if name in ("__str__", "__repr__"):
            return BuiltinV("str", lambda it, a, kw: it.to_str(v))
        if name in ("__hash__",):
            return BuiltinV("hash", lambda it, a, kw: bi_hash(it, [v], kw))
        return None

    def str_method(self, v, name, a, kw):
        if name == "join":
            return self.str_join(v, a[0])
        if name == "format":
            return self.str_format(v, a, kw)
        a = [self.simp(x) for x in a]
        for x in a:
            if isinstance(x, Term) and x.op == "ite":
                return self.map_fork(x, lambda y: self.str_method(v, name, [y if z is x else z for z in a], kw))
        if isinstance(v, Term) and v.op == "ite":
            return self.map_fork(v, lambda y: self.str_method(y, name, a, kw))
        if name == "replace" and isinstance(v, Term) and v.op in ("strm", "slice", "sym") and False:
            pass
        if is_const(v) and all(_pure(x) for x in a) and all(_pure(x) for x in kw.values()):
            try:
                r = getattr(v.v, name)(*[_py(x) for x in a], **{k: _py(x) for k, x in kw.items()})
            except (ValueError, TypeError, IndexError, LookupError) as e:
                self.raise_exc(type(e).__name__, C(str(e)))
            return self.from_py(r)
        args = tuple(a) + tuple(kw[k] for k in sorted(kw))
        if not all(isinstance(x, (Const, Term, Tup)) for x in args):
            return unk("str." + name)
        if name in STR_BOOL:
            return T("strm", (v, name, args), "bool")
        if name in STR_INT:
            if name in ("index", "rindex"):
                self.maybe_raise(neg_b(T("contains", (v, args[0]), "bool")), "ValueError")
            return T("strm", (v, name, args), "int", (-1, None))
        if name == "encode":
            return T("strm", (v, name, args), "bytes")
        if name in STR_LIST:
            leaf = T("sym", (fresh("split"),), "seq")
            return self.new_seq(SEQ([("o", leaf, ("scalar", "str", (None, None)))]))
        if name in ("partition", "rpartition"):
            t = T("strm", (v, name, args), "any")
            return TUP([T("getitem", (t, C(i)), "str") for i in range(3)])
        return T("strm", (v, name, args), "str")

    def str_join(self, sep, it_):
        v = self.simp(it_)
        if isinstance(v, Term) and v.op == "ite":
            return self.map_fork(v, lambda x: self.str_join(sep, x))
        p = self.payload_of(v)
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return self.map_pure(p, lambda q: self.join_payload(sep, q))
        return self.join_payload(sep, p)

    def guarded_items(self, p):
        """[(guard, string)] of a payload made of plain and guarded items."""
        out = []

        def seg(s, g):
            if s[0] == "i":
                if kind(s[1]) not in ("str", "any"):
                    return False
                out.append((g, s[1]))
                return True
            if s[0] == "g":
                return all(seg(x, conj(g, s[1])) for x in s[2])
            return False
        if isinstance(p, SeqV) and all(seg(s, TRUE) for s in p.segs):
            return out
        return None

    def join_payload(self, sep, p):
        its = items_of(p)
        if its is None:
            fl = self.guarded_items(p)
            if fl is not None:
                return T("gjoin", (sep, tuple(fl)), "str")
            return T("join", (sep, self.seq_leaf(p)), "str")
        parts = []
        for i, x in enumerate(its):
            if kind(x) not in ("str", "any"):
                self.raise_exc("TypeError", C("sequence item: expected str instance"))
            if i and not (is_const(sep) and sep.v == ""):
                parts.append(sep)
            parts.append(x)
        return fmt_parts(parts)

    def str_format(self, v, a, kw):
        if not is_const(v):
            return unk("str.format", "str")
        import string
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(v.v):
            if lit:
                parts.append(C(lit))
            if field is None:
                continue
            first, rest = _split_field(field)
            if first == "":
                x = a[auto] if auto < len(a) else None
                auto += 1
            elif first.isdigit():
                x = a[int(first)] if int(first) < len(a) else None
            else:
                x = kw.get(first)
            if x is None:
                self.raise_exc("IndexError" if first == "" or first.isdigit() else "KeyError", C(first))
            for isattr, r in rest:
                x = self.load_attr(x, r) if isattr else self.get_item(x, C(int(r) if r.isdigit() else r))
            if spec and "{" in spec:
                s = self.str_format(C(spec), a[auto:], kw)
                spec = s.v if is_const(s) else None
                if spec is None:
                    parts.append(unk("format spec", "str"))
                    continue
            parts.append(self.fmt_value(x, conv or "", spec or ""))
        return fmt_parts(parts)

    def bytes_method(self, v, name, a, kw):
        v = self.simp(v)
        if is_const(v) and all(_pure(x) for x in a):
            try:
                return self.from_py(getattr(v.v, name)(*[_py(x) for x in a], **{k: _py(x) for k, x in kw.items()}))
            except (ValueError, TypeError, UnicodeError) as e:
                self.raise_exc(type(e).__name__, C(str(e)))
        if isinstance(v, Term) and v.op == "ite":
            return self.map_fork(v, lambda x: self.bytes_method(x, name, a, kw))
        if name in ("startswith", "endswith") and len(a) == 1 and is_const(a[0]):
            alts = a[0].v if isinstance(a[0].v, tuple) else (a[0].v,)
            n = self.bytes_len(v)
            out = FALSE
            for s in alts:
                if name == "startswith":
                    c = conj(le(C(len(s)), n), *[eq(self.byte_at(v, C(i)), C(b)) for i, b in enumerate(s)])
                else:
                    c = conj(le(C(len(s)), n), *[eq(self.byte_at(v, sub(n, C(len(s) - i))), C(b)) for i, b in enumerate(s)])
                out = disj(out, c)
            return out
        if name == "decode":
            return T("strm", (v, "decode", tuple(a)), "str")
        if name == "hex":
            return T("strm", (v, "hex", tuple(a)), "str")
        if name in ("find", "rfind", "count", "index"):
            return T("strm", (v, name, tuple(a)), "int", (-1, None))
        if name == "join":
            r = C(b"")
            for i, x in enumerate(self.unpack(a[0], None)):
                if i:
                    r = self.bytes_cat(r, v)
                r = self.bytes_cat(r, x)
            return r
        if name in ("__len__",):
            return self.len_of(v)
        if name in ("rstrip", "lstrip", "strip", "replace", "ljust", "rjust"):
            return T("strm", (v, name, tuple(a)), "bytes")
        return unk("bytes." + name)

    def to_bytes(self, v, a, kw):
        n = a[0] if a else kw.get("length", C(1))
        order = a[1] if len(a) > 1 else kw.get("byteorder", C("big"))
        signed = kw.get("signed", FALSE)
        if is_const(v) and is_const(n) and is_const(order):
            try:
                return C(v.v.to_bytes(n.v, order.v, signed=signed.v))
            except OverflowError as e:
                self.raise_exc("OverflowError", C(str(e)))
        if is_const(n) and is_const(order) and signed is FALSE:
            self.maybe_raise(neg_b(conj(le(ZERO, v), lt(v, C(1 << (8 * n.v))))), "OverflowError")
            bs = [band(shr(v, C(8 * i)), C(255)) for i in range(n.v)]
            if order.v == "big":
                bs.reverse()
            return T("bytes", tuple(bs), "bytes")
        return unk("to_bytes", "bytes")

    def from_py(self, r):
        if isinstance(r, list):
            return self.new_list([self.from_py(x) for x in r])
        if isinstance(r, tuple):
            return TUP([self.from_py(x) for x in r])
        return C(r)

    # ---------------------------------------------------------- sequences
    def seq_index(self, p, k):
        its = items_of(p)
        if its is not None:
            hits = [self.key_eq(x, k) for x in its]
            self.maybe_raise(neg_b(disj(*hits)), "ValueError", C("not in list"))
            r = C(len(its) - 1)
            for i in range(len(its) - 1, -1, -1):
                r = ite(hits[i], C(i), r)
            return r
        from .loops import Tag
        tag = Tag()
        pc = self.st.pc
        cell = self.new_obj("env")
        self.raw_put(cell.oid, "i", ZERO)

        def each(v):
            self.branch(self.key_eq(v, k), lambda: self.stash("break", self.get(cell.oid, "i"), tag), lambda: None)
            self.raw_put(cell.oid, "i", add(self.get(cell.oid, "i"), C(1)))
        st, _, pend = self.region(lambda: self.drive_segs(self.payload_segs(p), each, tag, self.cur_node))
        outs = []
        for q in pend:
            if q.kind == "break" and q.tag is tag:
                outs.append((q.state, q.value))
            else:
                self.pends[-1].append(q)
        if st is not None:
            self.st = st
            self.pends[-1].append(Pending("raise", self.make_exc("ValueError", (C("not in list"),)), st, None, self.cur_node))
        return self.merge_outcomes(outs, pc)

    def seq_count(self, p, k):
        its = items_of(p)
        if its is None:
            if not isinstance(p, SeqV):
                return unk("count", "int")
            st = self.st.copy()
            return self.derived_scalar("count", "int", lambda env: known(concrete(self, p, env, st)).count(plain_value(self, k, env, st)))
        r = ZERO
        for x in its:
            r = add(r, ite(self.key_eq(x, k), C(1), ZERO))
        return r

    def first_of(self, gen, default):
        """next() of a fresh generator or lazy iterator."""
        from .loops import Tag
        o = self.objs[gen.oid]
        if getattr(self, "_nexted", None) is None:
            self._nexted = set()
        if gen.oid in self._nexted and o.extra[0] not in ("count",):
            raise Incomplete("repeated next() on a generator at %s" % self.site())
        self._nexted.add(gen.oid)
        tag = Tag()
        pc = self.st.pc
        st, _, pend = self.region(lambda: self.drive(gen, lambda v: self.stash("break", v, tag), tag, self.cur_node))
        outs = []
        if st is not None:
            self.st = st
            if default is not None:
                outs.append((st, default))
            else:
                self.pends[-1].append(Pending("raise", self.make_exc("StopIteration"), st, None, self.cur_node))
        for q in pend:
            if q.kind == "break" and q.tag is tag:
                outs.append((q.state, q.value))
            else:
                self.pends[-1].append(q)
        return self.merge_outcomes(outs, pc)

    def fold_seq(self, x, init, f):
        """Left fold; the accumulator lives in a cell so that loops summarise it."""
        cell = self.new_obj("env")
        self.raw_put(cell.oid, "acc", init)
        self.drive(x, lambda v: self.raw_put(cell.oid, "acc", f(self.get(cell.oid, "acc"), v)), None, self.cur_node)
        return self.simp(self.get(cell.oid, "acc"))

    def extreme(self, a, kw, less, top=False):
        key, default = kw.get("key"), kw.get("default")
        if key is NONE:
            key = None
        if len(a) == 1:
            v = self.simp(a[0])
            if isinstance(v, Term) and v.op == "ite":
                return self.map_fork(v, lambda x: self.extreme([x], kw, less, top))
            p = self.simp(self.payload_of(v))
            if isinstance(p, Term):
                return self.map_fork(p, lambda q: self.extreme([self.new_seq(q)], kw, less, top))
            its = items_of(p)
            if its is None:
                n = self.seq_len(p)
                if default is None:
                    self.maybe_raise(eq(n, ZERO), "ValueError")
                if self.decide(eq(n, ZERO)) is True:
                    r = NONE
                else:
                    # the first element in sorted order
                    q = self.sort_payload(p, {"key": key or NONE, "reverse": C(top)})
                    r = self.elem_at(q, ZERO)
                if default is not None:
                    return self.branch(eq(n, ZERO), lambda: default, lambda: r)
                return r
            if not its:
                if default is not None:
                    return default
                self.raise_exc("ValueError", C("empty sequence"))
        else:
            its = list(a)
        kf = (lambda x: self.call(key, [x], {})) if key is not None else (lambda x: x)
        best = its[0]
        bk = kf(best)
        for x in its[1:]:
            k = kf(x)
            c = self.truthy(less(self, k, bk))
            best, bk = self.joinv(c, x, best), self.joinv(c, k, bk)
        return best

    def sort_payload(self, p, kw):
        key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.sort_payload(p.args[1], kw), self.sort_payload(p.args[2], kw))
        its = items_of(p)
        if its is not None:
            ks = [self.call(key, [x], {}) for x in its] if key is not NONE else its
            r = self.decide(self.truthy(rev))
            if len(its) < 2:
                return p
            if all(_pure(k) for k in ks) and r is not None:
                try:
                    order = sorted(range(len(its)), key=lambda i: _py(ks[i]), reverse=r)
                except TypeError as e:
                    self.raise_exc("TypeError", C(str(e)))
                return SEQ([("i", its[i]) for i in order])
            if len(its) <= 6 and r is not None:
                # a stable bubble network: neighbours change places when out of order
                its, ks = list(its), list(ks)
                for end in range(len(its) - 1, 0, -1):
                    for i in range(end):
                        a, b = ks[i], ks[i + 1]
                        c = self.truthy(self.order("__lt__", "__gt__", lt, b, a) if not r else self.order("__lt__", "__gt__", lt, a, b))
                        its[i], its[i + 1] = self.joinv(c, its[i + 1], its[i]), self.joinv(c, its[i], its[i + 1])
                        ks[i], ks[i + 1] = self.joinv(c, b, a), self.joinv(c, a, b)
                return SEQ([("i", x) for x in its])
        elif not p.segs:
            return p
        n = self.seq_len(p)
        leaf = T("sym", (fresh("sorted"),), "seq")
        self.seqlen[leaf] = n
        if self.loops:
            OWNER[leaf] = self.loops[-1].lid
        self.event("sorted", payload=p, leaf=leaf, key=key, reverse=rev)
        q = p
        if key is not NONE:
            # elements together with their keys
            def keyed(segs):
                out = []
                for s in segs:
                    if s[0] == "i":
                        out.append(("i", TUP([self.call(key, [s[1]], {}), s[1]])))
                    elif s[0] == "g":
                        x = keyed(s[2])
                        if x is None:
                            return None
                        out.append(("g", s[1], tuple(x)))
                    elif s[0] == "r":
                        r = s[1]
                        x = keyed(r.segs)
                        if x is None:
                            return None
                        out.append(("r", Rep(r.lid, r.n, r.idx, tuple(x), r.heads, r.src)))
                    elif s[0] == "o":
                        one, lid = SEQ([s]), self.next_lid()
                        idx = T("idx", ("L%d" % lid,), "int", (0, None))
                        e = self.elem_at(one, idx)
                        out.append(("r", Rep(lid, self.seq_len(one), idx, (("i", TUP([self.call(key, [e], {}), e])),), (), None)))
                    else:
                        return None
                return out
            q = keyed(p.segs)
            q = q and SEQ(q)
        if q is not None:
            SEQ_OF[leaf] = (self, q, self.st.copy(), (key is not NONE, rev))
        return SEQ([("o", leaf, self.elem_t(p))])


def _int_fold(x):
    try:
        return C(int(x.v))
    except (ValueError, OverflowError, TypeError) as e:
        raise FoldError(e)


def trunc(x):
    """int() of a float term."""
    lo, hi = None, None
    l, h = iv(x)
    if l is not None:
        lo = int(l)
    if h is not None:
        hi = int(h)
    return T("int", (x,), "int", (lo, hi) if lo is not None or hi is not None else None)


def _pure(x):
    return is_const(x) or isinstance(x, Tup) and all(_pure(y) for y in x.items) or \
        (getattr(x, "op", 0) == "enum" and x.args[0].is_int and is_const(x.args[1]))


def _py(x):
    if isinstance(x, Tup):
        return tuple(_py(y) for y in x.items)
    if getattr(x, "op", 0) == "enum":
        return x.args[1].v
    return x.v


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return str(first), [(a, str(r)) for a, r in rest]


_bvs = {}


def _bv(k, name, f):
    b = _bvs.get((k, name))
    if b is None or b.fn is not f and not name.startswith("__"):
        b = _bvs[(k, name)] = BuiltinV("%s.%s" % (k, name), f)
    return b


# ------------------------------------------------------------------ functions

def bi_len(it, a, k):
    return it.len_of(a[0])


def bi_isinstance(it, a, k):
    return it.isinstance_(a[0], a[1])


def bi_issubclass(it, a, k):
    cs = a[1].items if isinstance(a[1], Tup) else [a[1]]
    cs = [it.builtins.get("type:" + c.name, c) if isinstance(c, BuiltinV) else c for c in cs]
    def one(c):
        if not isinstance(c, ClassV):
            it.raise_exc("TypeError", C("issubclass() arg 1 must be a class"))
        return C(any(x in c.mro for x in cs) or (c.name == "bool" and any(getattr(x, "name", 0) == "int" for x in cs)))
    return it.map_fork(it.simp(a[0]), one)


_MISSING = BuiltinV("<missing>", None)


def bi_hasattr(it, a, k):
    r = it.getattr_default(a[0], a[1], _MISSING)
    return it.map_pure(r, lambda x: FALSE if x is _MISSING else TRUE)


def bi_getattr(it, a, k):
    name = it.simp(a[1])
    return it.getattr_default(a[0], name, a[2] if len(a) > 2 else None)


def bi_setattr(it, a, k):
    name = it.simp(a[1])
    if isinstance(name, Term) and name.op == "ite":
        it.map_fork(name, lambda n: bi_setattr(it, [a[0], n, a[2]], k))
        return NONE
    if not is_const(name):
        raise Incomplete("setattr with an unknown name at %s" % it.site())
    it.store_attr(a[0], name.v, a[2])
    return NONE


def bi_delattr(it, a, k):
    it.del_attr(a[0], a[1].v)
    return NONE


def bi_print(it, a, k):
    it.event("print", args=list(a), kw=dict(k), st=it.st)
    for x in a:
        if isinstance(x, Ref) and it.objs[x.oid].kind == "inst":
            it.to_str(x)
    f = it.simp(k.get("file", NONE))
    if isinstance(f, Term) and f.op == "ite":
        return it.map_fork(f, lambda w: print_to(it, a, k, w))
    return print_to(it, a, k, f)


def print_to(it, a, k, f):
    sep, end = k.get("sep", NONE), k.get("end", NONE)
    sep, end = C(" ") if sep is NONE else sep, C("\n") if end is NONE else end
    if not isinstance(f, Ref) or it.objs[f.oid].kind == "file" and it.objs[f.oid].extra.get("std"):
        plain = not isinstance(f, Ref)
        if plain:
            f = it.ext["sys.stdout"]
        else:
            it.file_event("write", f)
        for n, x in enumerate(a):
            if n:
                it.event("write", ref=f, data=sep, st=it.st, plain=plain)
            it.event("write", ref=f, data=x, st=it.st, plain=plain)
        it.event("write", ref=f, data=end, st=it.st, plain=plain)
        return NONE
    if it.objs[f.oid].kind == "inst" and it.method(f, "write") is None:
        it.file_event("write", f)
        return NONE
    w = it.load_attr(f, "write")
    for n, x in enumerate(a):
        if n:
            it.call(w, [sep], {})
        it.call(w, [it.to_str(x)], {})
    it.call(w, [end], {})
    return NONE


def bi_input(it, a, k):
    return unk("input", "str")


def bi_abs(it, a, k):
    v = it.simp(a[0])

    def go(x):
        if is_const(x):
            return C(abs(x.v))
        lo, hi = iv(x)
        if lo is not None and lo >= 0:
            return x
        return T("abs", (x,), kind(x))
    return it.map_pure(v, go)


def bi_round(it, a, k):
    v = it.simp(a[0])
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if nd is NONE:
        nd = None

    def go(x):
        if is_const(x) and (nd is None or is_const(nd)):
            return C(round(x.v) if nd is None else round(x.v, nd.v))
        if kind(x) == "int" and nd is None:
            return x
        return T("round", (x,) if nd is None else (x, nd), "int" if nd is None else "float")
    return it.map_pure(v, go)


def bi_divmod(it, a, k):
    return TUP([it.binop(ast.FloorDiv, a[0], a[1]), it.binop(ast.Mod, a[0], a[1])])


def bi_pow(it, a, k):
    if len(a) == 3:
        return it.binop(ast.Mod, it.binop(ast.Pow, a[0], a[1]), a[2])
    return it.binop(ast.Pow, a[0], a[1])


def _fmtfn(spec):
    def f(it, a, k):
        v = it.to_int(a[0])
        return it.map_pure(v, lambda x: it.arith(fspec, x, "", spec))
    return f


bi_hex, bi_bin, bi_oct = _fmtfn("#x"), _fmtfn("#b"), _fmtfn("#o")


def bi_chr(it, a, k):
    v = it.simp(a[0])
    return it.map_pure(v, lambda x: C(chr(x.v)) if is_const(x) else T("fn", ("chr", x), "str"))


def bi_ord(it, a, k):
    v = it.simp(a[0])

    def go(x):
        if is_const(x):
            return C(ord(x.v))
        if x.kind == "bytes":
            it.maybe_raise(ne(it.bytes_len(x), C(1)), "TypeError", C("ord() expected a character"))
            return it.byte_at(x, ZERO)
        return T("fn", ("ord", x), "int", (0, 0x10FFFF))
    return it.map_fork(v, go)


def bi_repr(it, a, k):
    return it.to_str(a[0], "repr")


bi_ascii = bi_repr


def bi_format(it, a, k):
    spec = a[1] if len(a) > 1 else C("")
    if not is_const(spec):
        return unk("format", "str")
    return it.fmt_value(a[0], "", spec.v)


def bi_callable(it, a, k):
    v = it.simp(a[0])
    return C(isinstance(v, (FuncV, BuiltinV, BoundV, ClassV, PartialV, OpaqueV)) or isinstance(v, Ref) and it.method(v, "__call__") is not None)


def bi_id(it, a, k):
    v = it.simp(a[0])
    return T("fn", ("id", T("sym", ("obj", v), "any")), "int")


def bi_hash(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, Ref):
        m = it.method(v, "__hash__")
        if m is not None and not isinstance(m, BuiltinV):
            return it.call(m, [], {})
        if it.objs[v.oid].kind in ("list", "dict", "set"):
            it.raise_exc("TypeError", C("unhashable type"))
        o = it.objs[v.oid]
        if o.kind == "inst" and o.cls.dc_eq and not getattr(o.cls, "frozen", False):
            it.raise_exc("TypeError", C("unhashable type"))
        return T("fn", ("hash", T("sym", ("obj", v), "any")), "int")
    if isinstance(v, (Const, Term)):
        return T("fn", ("hash", v), "int")
    return unk("hash", "int")


def bi_vars(it, a, k):
    if not a:
        return bi_locals(it, a, k)
    v = it.simp(a[0])
    if isinstance(v, Ref) and it.objs[v.oid].kind == "ext" and it.objs[v.oid].extra.get("type") == "namespace":
        return it.new_dict([(C(n[1:]), w) for n, w in it.locs_of(v.oid) if n.startswith(".") and w is not UNDEF])
    return it.load_attr(v, "__dict__")


def bi_locals(it, a, k):
    fr = it.frames[-1]
    names = sorted(fr.locals or ())
    out = []
    for n in names:
        v = it.get(fr.env, n)
        if v is not None and v is not UNDEF and not it.has_undef(v):
            out.append((C(n), v))
    return it.new_dict(out)


def bi_globals(it, a, k):
    m = it.frames[-1].module
    return it.new_dict([(C(kk), v) for kk, v in it.locs_of(m.oid) if kk != "$alive"])


def bi_dir(it, a, k):
    return it.new_list([C(x) for x, _ in it.locs_of(a[0].oid) if not x.startswith("$")]) if a and isinstance(a[0], Ref) else it.new_list([])


def bi_iter(it, a, k):
    if len(a) == 2:
        return it.new_obj("lazy", extra=("callit", a[0], a[1]))
    v = it.simp(a[0])
    if isinstance(v, Term) and v.op == "ite":
        return it.map_fork(v, lambda x: bi_iter(it, [x], k))
    if isinstance(v, Ref):
        o = it.objs[v.oid]
        if o.kind in ("lazy", "genobj", "iter"):
            return v
        if o.kind == "inst" and it.get(v.oid, "$") is None:
            m = it.method(v, "__iter__")
            if m is None:
                if o.cls.nt_fields:
                    return _mk_iter(it, it.segs_of(TUP([it.get(v.oid, f) for f in o.cls.nt_fields])))
                it.raise_exc("TypeError", C("object is not iterable"))
            return it.call(m, [], {})
        if o.kind in ("stream", "file"):
            return v
    return _mk_iter(it, it.segs_of(v))


def _mk_iter(it, segs):
    r = it.new_obj("iter", extra=segs)
    it.raw_put(r.oid, "pos", ZERO)
    return r


def bi_next(it, a, k):
    v = it.simp(a[0])
    d = a[1] if len(a) > 1 else None
    if isinstance(v, Term) and v.op == "ite":
        return it.map_fork(v, lambda x: bi_next(it, [x] + a[1:], k))
    if isinstance(v, Ref):
        o = it.objs[v.oid]
        if o.kind == "iter":
            return it.iter_next(v, d)
        if o.kind == "lazy" and o.extra[0] == "count":
            n = it.get(v.oid, "n")
            it.raw_put(v.oid, "n", add(n, o.extra[2]))
            return n
        if o.kind in ("lazy", "genobj"):
            return it.first_of(v, d)
        m = it.method(v, "__next__")
        if m is not None:
            if d is None:
                return it.call(m, [], {})
            return it.catch_exc(lambda: it.call(m, [], {}), "StopIteration", d)
    it.raise_exc("TypeError", C("object is not an iterator"))


def bi_enumerate(it, a, k):
    return it.new_obj("lazy", extra=("enumerate", a[0], a[1] if len(a) > 1 else k.get("start", ZERO)))


def bi_zip(it, a, k):
    return it.new_obj("lazy", extra=("zip", list(a)))


def bi_map(it, a, k):
    return it.new_obj("lazy", extra=("map", a[0], list(a[1:])))


def bi_filter(it, a, k):
    return it.new_obj("lazy", extra=("filter", a[0], a[1]))


def bi_reversed(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, Term) and v.op == "ite":
        return it.map_fork(v, lambda x: bi_reversed(it, [x], k))
    if isinstance(v, Ref):
        m = it.method(v, "__reversed__") if it.objs[v.oid].kind == "inst" else None
        if m is not None:
            return it.call(m, [], {})
    if isinstance(v, RangeV) and is_const(v.s):
        n = it.segs_len(it.range_segs(v))
        return _mk_iter(it, it.range_segs(RangeV(add(v.a, mul(v.s, sub(n, C(1)))), sub(v.a, v.s), neg(v.s))))
    p = it.simp(it.payload_of(v))
    its = items_of(p)
    if its is not None:
        return _mk_iter(it, [("i", x) for x in reversed(its)])
    def rev(segs):
        return [x if x[0] == "i" else ("g", x[1], rev(list(x[2]))) if x[0] == "g" else
                ("n", x[1], (lambda n, get: lambda i: get(sub(sub(n, C(1)), i)))(x[1], x[2])) for x in reversed(segs)]
    return _mk_iter(it, rev(it.segs_of(v) if isinstance(v, Term) and v.kind == "bytes" else it.payload_segs(p)))


def bi_any(it, a, k):
    return it.search(a[0], lambda v: it.truthy(v))


def bi_all(it, a, k):
    return neg_b(it.search(a[0], lambda v: neg_b(it.truthy(v))))


def bi_sum(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", ZERO)
    return it.fold_seq(a[0], start, lambda x, y: it.binop(ast.Add, x, y))


def bi_min(it, a, k):
    return it.extreme(a, k, lambda t, x, y: t.order("__lt__", "__gt__", lt, x, y))


def bi_max(it, a, k):
    return it.extreme(a, k, lambda t, x, y: t.order("__gt__", "__lt__", lambda p, q: lt(q, p), x, y), True)


def bi_sorted(it, a, k):
    return it.new_seq(it.sort_payload(it.payload_of(a[0]), k))


def bi_open(it, a, k):
    return it.open_file(a, k, "open")


def bi_super(it, a, k):
    if len(a) == 2:
        return SuperV(a[0], a[1])
    for fr in reversed(it.frames):
        if fr.func is not None:
            args = fr.func.node.args
            first = (args.posonlyargs + args.args)[0].arg
            return SuperV(fr.func.cls, it.get(fr.env, first))
    it.raise_exc("RuntimeError", C("super(): no arguments"))


def bi_property(it, a, k):
    return PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


def bi_staticmethod(it, a, k):
    return StaticM(a[0])


def bi_classmethod(it, a, k):
    return ClassM(a[0])


def bi_exit(it, a, k):
    it.raise_exc("SystemExit", *a)


bi_quit = bi_exit


def bi___import__(it, a, k):
    return it.import_module(a[0].v)


# ------------------------------------------------------------------ types

def ty_object(it, a, k):
    return it.new_obj("inst", it.builtins["object"])


def ty_type(it, a, k):
    if len(a) == 1:
        v = it.simp(a[0])
        return it.map_fork(v, lambda x: it.class_of(x) or unk("type"))
    raise Incomplete("dynamic class creation at %s" % it.site())


def ty_int(it, a, k):
    if not a:
        return ZERO
    base = a[1] if len(a) > 1 else k.get("base")
    v = it.simp(a[0])
    if base is not None:
        def go(x):
            if is_const(x) and is_const(base):
                try:
                    return C(int(x.v, base.v))
                except (ValueError, TypeError) as e:
                    it.raise_exc(type(e).__name__, C(str(e)))
            return T("fn", ("int", x, base), "int")
        return it.map_fork(v, go)
    return it.to_int(v)


def ty_bool(it, a, k):
    return it.truthy(a[0]) if a else FALSE


def ty_float(it, a, k):
    if not a:
        return C(0.0)
    v = it.simp(a[0])

    def go(x):
        if is_const(x):
            try:
                return C(float(x.v))
            except (ValueError, TypeError) as e:
                it.raise_exc(type(e).__name__, C(str(e)))
        if isinstance(x, Term):
            return x if x.kind == "float" else T("float", (x,), "float")
        it.raise_exc("TypeError", C("float() argument"))
    return it.map_fork(v, go)


def ty_str(it, a, k):
    if not a:
        return C("")
    if kind(a[0]) == "bytes" and (len(a) > 1 or k):
        return it.bytes_method(a[0], "decode", a[1:], {})
    return it.to_str(a[0])


def ty_bytes(it, a, k):
    if not a:
        return C(b"")
    v = it.simp(a[0])

    def go(x):
        if is_const(x) and isinstance(x.v, int):
            return C(bytes(x.v))
        if kind(x) == "bytes":
            return x
        if kind(x) == "str":
            return it.str_method(x, "encode", a[1:], k)
        if kind(x) == "int":
            return unk("bytes(n)", "bytes")
        its = items_of(it.payload_of(x))
        if its is None:
            return unk("bytes", "bytes")
        if all(is_const(i) for i in its):
            try:
                return C(bytes([i.v for i in its]))
            except (ValueError, TypeError) as e:
                it.raise_exc(type(e).__name__)
        return T("bytes", tuple(its), "bytes")
    return it.map_fork(v, go)


ty_memoryview = ty_bytes


def ty_bytearray(it, a, k):
    if not a:
        return it.new_seq(SEQ(()), "bytearray")
    v = it.simp(a[0])
    if is_const(v) and isinstance(v.v, int):
        return it.new_seq(SEQ([("i", ZERO)] * v.v), "bytearray")
    return it.new_seq(it.payload_of(v), "bytearray")


def ty_list(it, a, k):
    return it.new_seq(it.payload_of(a[0]) if a else SEQ(()))


def ty_deque(it, a, k):
    return it.new_seq(it.payload_of(a[0]) if a else SEQ(()), "deque")


def ty_tuple(it, a, k):
    if not a:
        return TUP(())
    v = it.simp(a[0])

    def go(x):
        if isinstance(x, Tup):
            return x
        if isinstance(x, Ref):
            its = it.known_items(x)
            if its is not None:
                return TUP(its)
        p = it.simp(it.payload_of(x))

        def fin(q):
            its = items_of(q)
            return TUP(its) if its is not None else it.new_seq(q, "list")
        return it.map_fork(p, fin) if isinstance(p, Term) else fin(p)
    return it.map_fork(v, go)


def ty_set(it, a, k):
    r = it.new_seq(SEQ(()), "set")
    if a:
        v = it.simp(a[0])
        if isinstance(v, Ref) and it.objs[v.oid].kind == "set":
            it.raw_put(r.oid, "$", it.get(v.oid, "$"))
        else:
            it.drive(v, lambda x: it.set_add(r, x), None, it.cur_node)
    return r


ty_frozenset = ty_set


def ty_dict(it, a, k):
    r = it.new_dict([])
    if a:
        it.dict_update(r, a[0])
    for n, v in k.items():
        it.set_item(r, C(n), v)
    return r


def ty_range(it, a, k):
    a = [it.to_index(x) for x in a]
    if len(a) == 1:
        return RangeV(ZERO, a[0], C(1))
    return RangeV(a[0], a[1], a[2] if len(a) > 2 else C(1))


def ty_slice(it, a, k):
    raise Incomplete("slice object at %s" % it.site())


def dict_fromkeys(it, a, k):
    r = it.new_dict([])
    v = a[1] if len(a) > 1 else NONE
    it.drive(a[0], lambda x: it.set_item(r, x, v), None, it.cur_node)
    return r


def int_from_bytes(it, a, k):
    order = a[1] if len(a) > 1 else k.get("byteorder", C("big"))
    signed = k.get("signed", FALSE)
    data = it.simp(a[0])

    def one(o):
        if not is_const(o):
            raise Incomplete("byte order %s at %s" % (show(o), it.site()))
        return it.from_bytes(data, o.v, signed is TRUE)
    return it.map_pure(it.simp(order), one)


# ------------------------------------------------------------------ methods

METHODS = {}


def meth(*kinds):
    def deco(f):
        for k in kinds:
            METHODS[(k, f.__name__.split("__", 1)[1] if not f.__name__.startswith("__") else f.__name__)] = f
        return f
    return deco


@meth("list", "deque", "bytearray")
def l__append(it, a, k):
    it.list_append(a[0], a[1])
    return NONE


@meth("list", "deque", "bytearray")
def l__extend(it, a, k):
    it.list_extend(a[0], a[1])
    return NONE


@meth("list", "deque")
def l__insert(it, a, k):
    p = it.get(a[0].oid, "$")
    its = items_of(p)
    if its is not None and is_const(a[1]):
        its = list(its)
        its.insert(a[1].v, a[2])
        it.put(a[0].oid, "$", SEQ([("i", x) for x in its]))
    elif is_const(a[1]) and a[1].v == 0:
        it.put(a[0].oid, "$", it.cat(SEQ([("i", a[2])]), p))
    else:
        t = it._smerge(it.elem_t(p), it.template(a[2], 1))
        st = it.st.copy()

        def put(xs, env):
            xs = list(xs)
            xs.insert(ev(a[1], env), plain_value(it, a[2], env, st))
            return xs
        it.put(a[0].oid, "$", it.derived("ins", p, put, add(it.seq_len(p), C(1)), t))
    return NONE


@meth("deque")
def l__appendleft(it, a, k):
    it.put(a[0].oid, "$", it.cat(SEQ([("i", a[1])]), it.get(a[0].oid, "$")))
    return NONE


@meth("list", "deque", "bytearray")
def l__pop(it, a, k):
    r = a[0]
    p = it.simp(it.get(r.oid, "$"))
    i = a[1] if len(a) > 1 else C(-1)

    def go(q):
        n = it.seq_len(q)
        its = items_of(q)
        if its is not None and is_const(i):
            its = list(its)
            if not -len(its) <= i.v < len(its):
                it.raise_exc("IndexError", C("pop from empty list"))
            v = its.pop(i.v)
            it.put(r.oid, "$", SEQ([("i", x) for x in its]))
            return v
        it.maybe_raise(eq(n, ZERO), "IndexError", C("pop from empty list"))
        if is_const(i) and i.v == -1 and q.segs[-1][0] == "i":
            it.put(r.oid, "$", SEQ(q.segs[:-1]))
            return q.segs[-1][1]
        if is_const(i) and i.v == 0 and q.segs[0][0] == "i":
            it.put(r.oid, "$", SEQ(q.segs[1:]))
            return q.segs[0][1]
        v = it.seq_get(q, i)

        def cut(xs, env):
            xs = list(xs)
            del xs[ev(i, env)]
            return xs
        it.put(r.oid, "$", it.derived("popped", q, cut, sub(n, C(1))))
        return v
    return it.map_fork(p, go) if isinstance(p, Term) else go(p)


@meth("deque")
def l__popleft(it, a, k):
    return l__pop(it, [a[0], ZERO], k)


@meth("list", "deque", "set")
def l__clear(it, a, k):
    it.put(a[0].oid, "$", SEQ(()))
    return NONE


@meth("list", "deque", "bytearray")
def l__copy(it, a, k):
    return it.new_seq(it.get(a[0].oid, "$"), it.objs[a[0].oid].kind)


@meth("list", "deque")
def l__index(it, a, k):
    return it.seq_index(it.simp(it.get(a[0].oid, "$")), a[1])


@meth("list", "deque")
def l__count(it, a, k):
    return it.seq_count(it.simp(it.get(a[0].oid, "$")), a[1])


@meth("list", "deque")
def l__remove(it, a, k):
    p = it.simp(it.get(a[0].oid, "$"))
    i = it.seq_index(p, a[1])
    its = items_of(p)
    if is_const(i) and its is not None:
        its = list(its)
        del its[i.v]
        it.put(a[0].oid, "$", SEQ([("i", x) for x in its]))
    else:
        def cut(xs, env):
            xs = list(xs)
            del xs[ev(i, env)]
            return xs
        it.put(a[0].oid, "$", it.derived("removed", p, cut, sub(it.seq_len(p), C(1))))
    return NONE


@meth("list")
def l__sort(it, a, k):
    it.put(a[0].oid, "$", it.sort_payload(it.get(a[0].oid, "$"), k))
    return NONE


@meth("list", "deque")
def l__reverse(it, a, k):
    p = it.simp(it.get(a[0].oid, "$"))
    its = items_of(p)
    if its is not None:
        it.put(a[0].oid, "$", SEQ([("i", x) for x in reversed(its)]))
    else:
        n = it.seq_len(p)
        segs = it.payload_segs(p)
        r = it.new_seq(SEQ(()))
        it.drive_segs([("n", n, lambda i: it.segs_elem(segs, sub(sub(n, C(1)), i)))], lambda v: it.list_append(r, v), None, it.cur_node)
        it.put(a[0].oid, "$", it.get(r.oid, "$"))
    return NONE


@meth("set")
def s__add(it, a, k):
    it.set_add(a[0], a[1])
    return NONE


@meth("set")
def s__update(it, a, k):
    for x in a[1:]:
        it.drive(x, lambda v: it.set_add(a[0], v), None, it.cur_node)
    return NONE


@meth("set")
def s__copy(it, a, k):
    return it.new_seq(it.get(a[0].oid, "$"), "set")


@meth("set")
def s__discard(it, a, k):
    p = it.simp(it.get(a[0].oid, "$"))
    its = items_of(p)
    if its is not None and is_const(a[1]) and all(is_const(x) for x in its):
        it.put(a[0].oid, "$", SEQ([("i", x) for x in its if x is not a[1]]))
    else:
        it.put(a[0].oid, "$", SEQ([("o", T("sym", (fresh("discarded"),), "seq"), it.elem_t(p))]))
    return NONE


@meth("set")
def s__remove(it, a, k):
    it.maybe_raise(neg_b(it.contains(a[0], a[1])), "KeyError", a[1])
    return s__discard(it, a, k)


def _setop(op):
    def f(it, a, k):
        r = a[0]
        for x in a[1:]:
            if not (isinstance(x, Ref) and it.objs[x.oid].kind == "set"):
                x = ty_set(it, [x], {})
            r = it.binop(op, r, x)
        return r
    return f


METHODS[("set", "union")] = _setop(ast.BitOr)
METHODS[("set", "intersection")] = _setop(ast.BitAnd)
METHODS[("set", "difference")] = _setop(ast.Sub)


@meth("set")
def s__issubset(it, a, k):
    return neg_b(it.search(a[0], lambda v: neg_b(it.contains(a[1], v))))


@meth("dict")
def d__get(it, a, k):
    d = a[2] if len(a) > 2 else k.get("default", NONE)
    key = it.simp(a[1])
    has, v = it.dict_find(it.get(a[0].oid, "$"), key)
    if v is None or has is FALSE:
        return d
    return it.joinv(has, v, d)


@meth("dict")
def d__setdefault(it, a, k):
    key = it.simp(a[1])
    d = a[2] if len(a) > 2 else NONE
    has, v = it.dict_find(it.get(a[0].oid, "$"), key)

    def miss():
        it.set_item(a[0], key, d)
        return d
    if v is None:
        return miss()
    return it.branch(has, lambda: it.simp(v), miss)


@meth("dict")
def d__pop(it, a, k):
    key = it.simp(a[1])
    has, v = it.dict_find(it.get(a[0].oid, "$"), key)
    if len(a) > 2:
        if v is None or has is FALSE:
            return a[2]

        def hit():
            it.put(a[0].oid, "$", it.dict_del(it.get(a[0].oid, "$"), key))
            return it.simp(v)
        return it.branch(has, hit, lambda: a[2])
    it.maybe_raise(neg_b(has), "KeyError", key)
    it.put(a[0].oid, "$", it.dict_del(it.get(a[0].oid, "$"), key))
    return it.simp(v)


def _view(what):
    def f(it, a, k):
        return it.new_obj("dictview", extra=(what, a[0]))
    return f


METHODS[("dict", "keys")] = _view("keys")
METHODS[("dict", "values")] = _view("values")
METHODS[("dict", "items")] = _view("items")


@meth("dict")
def d__update(it, a, k):
    for x in a[1:]:
        it.dict_update(a[0], x)
    for n, v in k.items():
        it.set_item(a[0], C(n), v)
    return NONE


@meth("dict")
def d__copy(it, a, k):
    r = it.new_obj("dict", extra=it.objs[a[0].oid].extra if it.objs[a[0].oid].extra and it.objs[a[0].oid].extra[0] == "defaultdict" else None)
    it.raw_put(r.oid, "$", it.get(a[0].oid, "$"))
    return r


@meth("dict")
def d__clear(it, a, k):
    it.put(a[0].oid, "$", DICT(()))
    return NONE


@meth("dict")
def d__popitem(it, a, k):
    p = it.get(a[0].oid, "$")
    if isinstance(p, DictV) and p.base is None and all(e[1] is TRUE for e in p.entries):
        if not p.entries:
            it.raise_exc("KeyError")
        kk, _, v = p.entries[-1]
        it.put(a[0].oid, "$", DICT(p.entries[:-1]))
        return TUP([kk, v])
    raise Incomplete("popitem at %s" % it.site())


@meth("dict")
def d__move_to_end(it, a, k):
    return NONE


@meth("dict")
def d__most_common(it, a, k):
    raise Incomplete("Counter.most_common at %s" % it.site())


@meth("gen")
def g____iter__(it, a, k):
    return a[0]


METHODS[("gen", "__iter__")] = g____iter__
METHODS[("gen", "__next__")] = lambda it, a, k: bi_next(it, [a[0]], {})
METHODS[("gen", "close")] = lambda it, a, k: NONE


@meth("nt")
def n___asdict(it, a, k):
    return it.new_dict([(C(f), it.get(a[0].oid, f)) for f in it.objs[a[0].oid].cls.nt_fields])


@meth("nt")
def n___replace(it, a, k):
    c = it.objs[a[0].oid].cls
    kw = {f: it.get(a[0].oid, f) for f in c.nt_fields}
    kw.update(k)
    return it.call(c, [], kw)


METHODS[("nt", "_asdict")] = n___asdict
METHODS[("nt", "_replace")] = n___replace


class More:
    def getattr_default(self, v, name, default):
        name = self.simp(name)
        if isinstance(name, Term) and name.op == "ite":
            return self.map_fork(name, lambda n: self.getattr_default(v, n, default))
        if is_const(name):
            return self.load_attr(v, name.v, default)
        vs = self.simp(v)
        if isinstance(vs, Ref) and self.objs[vs.oid].kind == "inst":
            # a name out of a set of known attributes
            names = [k for k, w in self.locs_of(vs.oid) if not k.startswith("$") and w is not UNDEF]
            r = None
            for n in reversed(names):
                w = self.load_attr(vs, n)
                r = w if r is None else self.joinv(self.truthy(self.compare_eq(name, C(n))), w, r)
            if r is not None:
                self.event("getattr_any", obj=vs, name=name)
                return r
        raise Incomplete("getattr with an unknown name at %s" % self.site())

    def catch_exc(self, fn, exc, default):
        pc = self.st.pc
        st, v, pend = self.region(fn)
        outs = [(st, v)] if st is not None else []
        for p in pend:
            if p.kind == "raise" and self.exc_matches(p.value, [self.builtins[exc]]):
                outs.append((p.state, default))
            else:
                self.pends[-1].append(p)
        return self.merge_outcomes(outs, pc)

    def dispatch_register(self, fv):
        def reg(it, a, k):
            if len(a) == 2:
                fv.dispatch.append((a[0], a[1]))
                return a[1]
            c = a[0]
            if isinstance(c, FuncV):
                ann = (c.node.args.posonlyargs + c.node.args.args)[0].annotation
                fv.dispatch.append((it.ev(ann), c))
                return c
            return BuiltinV("register", lambda it2, a2, k2: (fv.dispatch.append((c, a2[0])), a2[0])[1])
        return BuiltinV("register", reg)


for _n in ("getattr_default", "catch_exc", "dispatch_register"):
    setattr(Builtins, _n, getattr(More, _n))
