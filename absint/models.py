"""Models of the standard library modules the analysed code may use."""
import ast

from .core import *
from .attrs import LazyProp
from .terms import calc_struct
from . import builtins_ as B


class Models:
    def init_models(self):
        e = self.ext = {}

        def fn(path, f):
            e[path] = BuiltinV(path, f)
        for k, f in list(globals().items()):
            if k.startswith("m_"):
                fn(k[2:].replace("__", "."), f)
        e["typing.TYPE_CHECKING"] = FALSE
        e["io.SEEK_SET"] = e["os.SEEK_SET"] = ZERO
        e["io.SEEK_CUR"] = e["os.SEEK_CUR"] = C(1)
        e["io.SEEK_END"] = e["os.SEEK_END"] = C(2)
        e["sys.byteorder"] = ite(HOST_LITTLE, C("little"), C("big"))
        e["sys.argv"] = NONE
        e["math.inf"] = C(float("inf"))
        e["math.pi"] = C(3.141592653589793)
        e["math.nan"] = C(float("nan"))
        e["os.sep"] = C("/")
        e["os.linesep"] = C("\n")
        e["dataclasses.MISSING"] = opaque("dataclasses.MISSING")
        e["zipfile.ZIP_STORED"], e["zipfile.ZIP_DEFLATED"] = ZERO, C(8)
        e["zlib.MAX_WBITS"] = C(15)
        e["argparse.FileType"] = BuiltinV("argparse.FileType", lambda it, a, k: it.ext_obj("filetype", args=list(a), kw=dict(k)))
        for t in ("OrderedDict",):
            e["collections." + t] = self.builtins["dict"]
            e["typing." + t] = self.builtins["dict"]
        e["collections.deque"] = self.builtins["deque"]
        e["typing.NamedTuple"] = opaque("typing.NamedTuple")
        je = self.ext_class("json.JSONEncoder")

        def bad(it, a, k):
            it.raise_exc("TypeError", C("not JSON serializable"))
        je.ns["default"] = BuiltinV("json.JSONEncoder.default", bad)
        je.ns["encode"] = BuiltinV("json.JSONEncoder.encode", lambda it, a, k: it.json_text(a[1], it.class_of(a[0]), {}, a[0]))
        je.ns["iterencode"] = BuiltinV("json.JSONEncoder.iterencode", lambda it, a, k: it.new_list([it.json_text(a[1], it.class_of(a[0]), {}, a[0])]))
        je.ns["__init__"] = BuiltinV("json.JSONEncoder.__init__", lambda it, a, k: NONE)
        e["json.JSONEncoder"] = je
        for n in ("stdin", "stdout", "stderr"):
            r = self.new_obj("file", extra={"std": n, "name": n, "mode": C("r" if n == "stdin" else "w"), "path": None, "binary": False})
            self.setbase(r.oid, "open", TRUE)
            self.setbase(r.oid, "$alive", TRUE)
            b = self.new_obj("stream", extra={"std": n, "name": n, "mode": C("rb" if n == "stdin" else "wb"), "path": None, "binary": True})
            self.setbase(b.oid, "open", TRUE)
            self.setbase(b.oid, "pos", ZERO)
            self.setbase(b.oid, "$alive", TRUE)
            self.objs[r.oid].extra["buffer"] = b
            self.objs[r.oid].init = self.objs[b.oid].init = False
            e["sys." + n] = e["sys.__%s__" % n] = r

    # ---------------------------------------------------------- lookup
    def ext_attr(self, path):
        v = self.ext.get(path)
        if v is not None:
            return v
        if path in ("struct.error", "zipfile.BadZipFile", "gzip.BadGzipFile", "zlib.error", "json.JSONDecodeError",
                    "argparse.ArgumentTypeError", "argparse.ArgumentError"):
            return self.ext_class(path)
        if path.startswith("builtins."):
            b = self.builtins.get(path[9:])
            if b is not None:
                return b
        if path.startswith("operator."):
            v = self.operator_attr(path[9:])
            if v is not None:
                return v
        if path.startswith("math."):
            return BuiltinV(path, lambda it, a, k: it.math_fn(path[5:], a))
        if path.startswith(("os.path.", "posixpath.")):
            n = path.rsplit(".", 1)[1]
            return BuiltinV(path, lambda it, a, k: it.path_fn(n, a))
        if path.startswith(("logging.", "warnings.")):
            n = path.split(".", 1)[1]
            if n.split(".")[-1].isupper():
                return C(20)
            if n == "getLogger" or n.endswith(("Handler", "Formatter")):
                return BuiltinV(path, lambda it, a, k: it.ext_obj("sink"))
            return BuiltinV(path, m_noop)
        return opaque(path)

    def ext_obj(self, type_, **d):
        d["type"] = type_
        return self.new_obj("ext", extra=d)

    def ext_obj_attr(self, v, o, name):
        x = o.extra
        t = x["type"]
        if t == "sink":
            return BuiltinV("log." + name, m_noop)
        if t == "namespace":
            if name == "__dict__":
                return B.bi_vars(self, [v], {})
            w = self.get(v.oid, "." + name)
            if w is None:
                self.event("attribute_error", name=name, cls="argparse.Namespace")
                self.raise_exc("AttributeError", C(name))
            return w
        if t == "argparser":
            return BuiltinV("ArgumentParser." + name, lambda it, a, k: it.argparse_call(v, name, a, k))
        if t == "struct":
            if name == "size":
                return C(calc_struct(x["fmt"])[2])
            if name in ("unpack", "unpack_from", "pack"):
                return BuiltinV("Struct." + name, lambda it, a, k: MODELS["struct." + name](it, [C(x["fmt"])] + a, k))
        if t == "path":
            return self.path_attr(v, x, name)
        if t == "xmlser":
            return BuiltinV("XmlSerializer." + name, lambda it, a, k: xmlser_call(it, name, a, k))
        if t == "exitstack":
            return BuiltinV("ExitStack." + name, lambda it, a, k: it.exitstack_call(v, name, a, k))
        if t == "encoder_text":
            return None
        w = self.get(v.oid, "." + name)
        if w is not None:
            return w
        path = x.get("path", t) + "." + name

        def f(it, a, k):
            it.event("ext", path=path, args=list(a), kw=dict(k), st=it.st, obj=v)
            r = it.ext_obj("result", path=path, args=list(a), kw=dict(k), of=v)
            return r
        return BuiltinV(path, f)

    # ---------------------------------------------------------- files
    def open_file(self, a, k, how):
        path = self.simp(a[0] if a else k.get("file", k.get("filename", NONE)))
        mode = a[1] if len(a) > 1 else k.get("mode", C("r" if how == "open" else "rb"))
        mode = self.simp(mode)
        if isinstance(path, Ref) and self.objs[path.oid].kind == "ext" and self.objs[path.oid].extra["type"] == "path":
            path = self.objs[path.oid].extra["value"]
        if isinstance(mode, Term) and mode.op == "ite":
            return self.map_fork(mode, lambda m: self.open_file([path, m] + list(a[2:]), k, how))
        if isinstance(path, Term) and path.op == "ite" and self.any_ref(path):
            return self.map_fork(path, lambda p: self.open_file([p, mode] + list(a[2:]), k, how))
        if how == "gzip" and isinstance(path, Ref):
            return self.gunzip(path, mode)
        if isinstance(mode, Const) and isinstance(mode.v, str):
            m = mode.v
        else:
            self.event("open", path=path, mode=mode, ref=None)
            return unk("file opened with an unknown mode")
        fails = T("sym", (fresh("openfails"),), "bool")
        self.maybe_raise(fails, "OSError", C("cannot open"))
        binary = "b" in m or how == "gzip" and "t" not in m
        name = ("open", path)
        if how == "gzip":
            name = ("gunzip", name)
        r = self.new_obj("stream" if binary and "r" in m else "file",
                         extra={"name": name, "mode": mode, "path": path, "binary": binary, "std": None, "how": how})
        self.raw_put(r.oid, "open", TRUE)
        self.raw_put(r.oid, "pos", ZERO)
        self.event("open", path=path, mode=mode, ref=r)
        return r

    def gunzip(self, f, mode=NONE):
        """A decompressing view of an open stream."""
        o = self.objs[f.oid]
        if o.kind not in ("stream", "file"):
            return unk("gzip of unknown object")
        pos = self.get(f.oid, "pos")
        name = ("gunzip", o.extra["name"])
        if pos is not ZERO:
            name = name + (pos,)
        r = self.new_obj("stream", extra={"name": name, "mode": C("rb"), "path": o.extra.get("path"), "binary": True, "std": None,
                                          "how": "gunzip", "inner": f})
        self.raw_put(r.oid, "open", TRUE)
        self.raw_put(r.oid, "pos", ZERO)
        self.event("gunzip", inner=f, ref=r, mode=mode)
        return r

    def file_event(self, what, f, **d):
        if isinstance(f, Ref):
            self.event("file", what=what, ref=f, name=self.objs[f.oid].extra.get("name"), st=self.st, **d)

    def close_file(self, f):
        self.file_event("close", f)
        self.raw_put(f.oid, "open", FALSE)
        x = self.objs[f.oid].extra
        if x.get("how") == "wrap":
            self.close_file(x["inner"])
        return None

    io_faults = False       # reads, writes, archives and rendering may fail too (opening a file always may)

    def io_fault(self, what):
        if self.io_faults:
            self.maybe_raise(T("sym", (fresh("iofails." + what),), "bool"), "OSError", C("%s fails" % what))

    def check_open(self, f):
        op = self.get(f.oid, "open")
        if op is FALSE:
            self.file_event("use_after_close", f)
        if op is not None:
            self.maybe_raise(neg_b(op), "ValueError", C("I/O operation on closed file"))

    def file_method(self, v, o, name):
        x = o.extra
        if name == "buffer" and "buffer" in x:
            return x["buffer"]
        if name == "closed":
            return neg_b(self.get(v.oid, "open"))
        if name == "name":
            return x["path"] if x.get("path") is not None else C("<%s>" % (x.get("std"),))
        if name == "mode":
            return x["mode"]
        if name in ("encoding", "newlines", "errors"):
            return C("utf-8")
        if name in ("fileobj", "raw"):
            return x.get("inner", NONE)
        f = getattr(self, "f_" + name, None)
        if f is None:
            return None
        return BuiltinV("file." + name, lambda it, a, k: f(v, a, k))

    def f_read(self, v, a, k):
        o = self.objs[v.oid]
        x = o.extra
        self.check_open(v)
        if not x["binary"]:
            self.file_event("read", v)
            return T("sym", (fresh("text"),), "str")
        if o.kind != "stream":
            self.file_event("read", v)
            return T("read", (("written", v.oid), ZERO, NONE), "bytes")
        n = self.simp(a[0] if a else k.get("size", NONE))
        if isinstance(n, Term) and n.op == "ite":
            return self.map_fork(n, lambda m: self.f_read(v, [m], {}))
        if is_const(n) and n.v is not None and n.v < 0:
            n = NONE
        if is_const(n) and isinstance(n.v, bool):
            n = C(int(n.v))
        if kind(n) in ("float", "str", "bytes"):
            self.raise_exc("TypeError", C("argument should be integer or None"))
        pos = self.pinned(self.get(v.oid, "pos"))
        self.file_event("read", v, pos=pos, n=n)
        self.io_fault("read")
        if is_const(n) and n.v == 0:
            return C(b"")
        if isinstance(n, Term):
            lo, _ = iv(n, None)
            d = self.decide(lt(n, ZERO))
            if d is not False:
                self.event("read_maybe_all", n=n)
                n2 = T("max", (ZERO, n), "int")
                n = self.simp(n2) if d is None else NONE
        b = x.get("bytes")
        if b is not None:
            r = self.bytes_slice(b, pos, NONE if n is NONE else add(pos, n), NONE) if isinstance(b, Term) else \
                (C(b.v[pos.v:None if n is NONE else pos.v + n.v]) if is_const(pos) and is_const(n) else T("read", (x["name"], pos, n), "bytes"))
        else:
            r = T("read", (x["name"], pos, n), "bytes")
        self.put(v.oid, "pos", add(pos, self.bytes_len(r)))
        return r

    def f_read1(self, v, a, k):
        return self.f_read(v, a, k)

    def f_peek(self, v, a, k):
        pos = self.get(v.oid, "pos")
        r = self.f_read(v, a or [C(8192)], {})
        self.raw_put(v.oid, "pos", pos)
        return r

    def f_readinto(self, v, a, k):
        buf = a[0]
        n = self.len_of(buf)
        d = self.f_read(v, [n], {})
        m = self.bytes_len(d)
        if is_const(n):
            its = items_of(self.get(buf.oid, "$"))
            self.put(buf.oid, "$", SEQ([("i", self.joinv(lt(C(i), m), self.byte_at(d, C(i)), its[i])) for i in range(n.v)]))
        return m

    def f_readline(self, v, a, k):
        return T("sym", (fresh("line"),), "str" if not self.objs[v.oid].extra["binary"] else "bytes")

    def f_readlines(self, v, a, k):
        leaf = T("sym", (fresh("lines"),), "seq")
        return self.new_seq(SEQ([("o", leaf, ("scalar", "str", (None, None)))]))

    def f_seek(self, v, a, k):
        self.check_open(v)
        off = self.simp(a[0] if a else k["offset"])
        wh = self.simp(a[1] if len(a) > 1 else k.get("whence", ZERO))
        pos = self.pinned(self.get(v.oid, "pos", ZERO))

        def go(w):
            w = w.v if is_const(w) else 0
            if w == 0:
                self.maybe_raise(lt(off, ZERO), "ValueError", C("negative seek position"))
                new = off
            elif w == 1:
                new = add(pos, off)
            else:
                new = add(T("sym", ("size", self.objs[v.oid].extra.get("name")), "int", (0, None)), off)
            self.put(v.oid, "pos", new)
            self.file_event("seek", v, pos=new)
            return new
        return self.map_fork(wh, go) if isinstance(wh, Term) else go(wh)

    def f_tell(self, v, a, k):
        return self.pinned(self.get(v.oid, "pos", ZERO))

    def f_close(self, v, a, k):
        self.close_file(v)
        return NONE

    def f_flush(self, v, a, k):
        return NONE

    def f_seekable(self, v, a, k):
        return TRUE if not self.objs[v.oid].extra.get("std") else T("sym", ("std.seekable",), "bool")

    f_readable = f_writable = f_isatty = lambda self, v, a, k: T("sym", (fresh("fileprop"),), "bool")

    def f_fileno(self, v, a, k):
        return T("sym", (fresh("fd"),), "int")

    def f_write(self, v, a, k):
        self.check_open(v)
        d = self.simp(a[0])
        o = self.objs[v.oid]
        if o.kind in ("zipentry",):
            self.io_fault("write")
            self.event("zip_write", zip=o.extra["zip"], name=o.extra["name"], data=d, st=self.st)
            return NONE
        if o.extra["binary"] and kind(d) == "str" or not o.extra["binary"] and kind(d) == "bytes":
            self.event("type_error", what="write of %s to a %s file" % (kind(d), "binary" if o.extra["binary"] else "text"))
            self.raise_exc("TypeError", C("write() argument"))
        self.io_fault("write")
        self.file_event("write", v, data=d)
        self.event("write", ref=v, data=d, st=self.st)
        return self.len_of(d) if kind(d) in ("str", "bytes") else unk("written", "int")

    def f_writelines(self, v, a, k):
        self.drive(a[0], lambda x: self.f_write(v, [x], {}), None, self.cur_node)
        return NONE

    def f_truncate(self, v, a, k):
        return ZERO

    def f_getvalue(self, v, a, k):
        b = self.objs[v.oid].extra.get("bytes")
        if b is not None:
            return b
        return T("sym", (fresh("written"),), "bytes" if self.objs[v.oid].extra["binary"] else "str")

    f_getbuffer = f_getvalue

    def f___enter__(self, v, a, k):
        return v

    def f___exit__(self, v, a, k):
        self.close_file(v)
        return NONE

    f_detach = f___enter__

    # zip archives
    def f_writestr(self, v, a, k):
        self.check_open(v)
        self.io_fault("write")
        self.event("zip_write", zip=v, name=self.simp(a[0]), data=self.simp(a[1] if len(a) > 1 else k.get("data", NONE)), st=self.st)
        return NONE

    def f_open(self, v, a, k):
        name = a[0]
        r = self.new_obj("zipentry", extra={"zip": v, "name": name, "binary": True, "std": None, "mode": C("w"), "path": name})
        self.raw_put(r.oid, "open", TRUE)
        return r

    def f_namelist(self, v, a, k):
        return self.new_list([])

    # ---------------------------------------------------------- paths
    def path_fn(self, name, a):
        a = [self.simp(x) for x in a]
        a = [self.objs[x.oid].extra["value"] if isinstance(x, Ref) and self.objs[x.oid].kind == "ext" and "value" in self.objs[x.oid].extra else x for x in a]
        if name in ("exists", "isfile", "isdir", "islink"):
            return T("sym", (fresh("path." + name),), "bool")
        if name == "getsize":
            return T("sym", (fresh("path.size"),), "int", (0, None))
        if all(is_const(x) for x in a):
            import posixpath
            return self.from_py(getattr(posixpath, name)(*[x.v for x in a]))
        if name in ("split", "splitext"):
            return TUP([T("strm", (a[0], "ospath." + name, (C(i),)), "str") for i in range(2)])
        return T("strm", (a[0], "ospath." + name, tuple(a[1:])), "str")

    def path_attr(self, v, x, name):
        val = x["value"]
        if name == "open":
            return BuiltinV("Path.open", lambda it, a, k: it.open_file([val] + list(a), k, "open"))
        if name in ("read_bytes", "read_text", "write_bytes", "write_text"):
            def f(it, a, k):
                m = ("r" if name.startswith("read") else "w") + ("b" if name.endswith("bytes") else "")
                fh = it.open_file([val, C(m)], {}, "open")
                return it.with_exit(lambda: it.f_read(fh, [], {}) if m[0] == "r" else it.f_write(fh, a, {}),
                                    lambda how: it.close_file(fh))
            return BuiltinV("Path." + name, f)
        if name in ("exists", "is_file", "is_dir"):
            return BuiltinV("Path." + name, lambda it, a, k: T("sym", (fresh("path." + name),), "bool"))
        if name in ("name", "stem", "suffix"):
            return T("strm", (val, "path." + name, ()), "str")
        if name in ("resolve", "absolute", "expanduser"):
            return BuiltinV("Path." + name, lambda it, a, k: it.ext_obj("path", value=T("strm", (val, "path." + name, ()), "str")))
        if name == "parent":
            return self.ext_obj("path", value=T("strm", (val, "path.parent", ()), "str"))
        if name in ("with_suffix", "with_name", "joinpath", "__truediv__"):
            return BuiltinV("Path." + name, lambda it, a, k: it.ext_obj("path", value=T("strm", (val, "path." + name, tuple(a)), "str")))
        if name in ("__str__", "__fspath__", "as_posix"):
            return BuiltinV("Path." + name, lambda it, a, k: val)
        if name in ("mkdir", "unlink", "rename", "replace", "touch"):
            def g(it, a, k):
                it.event("fs", what=name, path=val, args=list(a))
                return NONE
            return BuiltinV("Path." + name, g)
        return unk("Path." + name)

    # ---------------------------------------------------------- argparse
    def argparse_call(self, v, name, a, k):
        """`parse_args` makes a namespace: a leaf per option for whether it was given, and one for its value."""
        x = self.objs[v.oid].extra
        if name == "add_argument":
            x["spec"].append(([y.v for y in a if is_const(y)], dict(k)))
            return self.ext_obj("action")
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return v
        if name in ("parse_args", "parse_known_args"):
            ns = self.ext_obj("namespace")
            for flags, kw in x["spec"]:
                self.arg_value(ns, flags, kw)
            for d, w in x.get("defaults", {}).items():
                if self.get(ns.oid, "." + d) is None:
                    self.raw_put(ns.oid, "." + d, w)
            self.event("parse_args", spec=list(x["spec"]), ref=ns)
            return ns if name == "parse_args" else TUP([ns, self.new_list([])])
        if name == "set_defaults":
            x.setdefault("defaults", {}).update(k)
            return NONE
        if name in ("error", "exit"):
            self.raise_exc("SystemExit", C(2))
        if name == "format_help":
            return C("help")
        return NONE

    def arg_value(self, ns, flags, kw):
        opt = [f for f in flags if f.startswith("-")]
        if "dest" in kw:
            dest = kw["dest"].v
        elif opt:
            lng = [f for f in opt if f.startswith("--")]
            dest = (lng or opt)[0].lstrip("-").replace("-", "_")
        else:
            dest = flags[0]
        act = kw["action"].v if is_const(kw.get("action")) else None
        ty = kw.get("type")
        knd, lo = "str", None
        if isinstance(ty, ClassV) and ty.name in ("int", "float", "str"):
            knd = ty.name
        label = ("arg", tuple(sorted(flags)))
        if act in ("store_true", "store_false"):
            v = T("sym", label, "bool")
            v = v if act == "store_true" else neg_b(v)
        elif act in ("version", "help"):
            return
        elif act == "store_const":
            v = self.joinv(T("sym", ("given",) + label[1:], "bool"), kw.get("const", NONE), kw.get("default", NONE))
        else:
            v = T("sym", label, knd)
            if ty is not None and not (isinstance(ty, ClassV) and ty.builtin):
                v = self.call(ty, [T("sym", label, "str")], {})
            if "nargs" in kw and not (is_const(kw["nargs"]) and kw["nargs"].v == "?"):
                v = unk("argument list")
            if act == "append":
                v = unk("argument list")
            dflt = kw.get("default", NONE)
            req = kw.get("required") is TRUE or (not opt and not ("nargs" in kw and is_const(kw["nargs"]) and kw["nargs"].v in ("?", "*")))
            if not req:
                v = self.joinv(T("sym", ("given",) + label[1:], "bool"), v, dflt)
        self.raw_put(ns.oid, "." + dest, v)

    # ---------------------------------------------------------- copying
    def copy_val(self, v, deep, memo=None):
        v = self.simp(v)
        if isinstance(v, Term) and v.op == "ite":
            return self.map_fork(v, lambda x: self.copy_val(x, deep, memo))
        if isinstance(v, Tup):
            return TUP([self.copy_val(x, deep, memo) for x in v.items]) if deep else v
        if not isinstance(v, Ref):
            return v
        memo = {} if memo is None else memo
        if v.oid in memo:
            return memo[v.oid]
        o = self.objs[v.oid]
        hook = self.method(v, "__deepcopy__" if deep else "__copy__") if o.kind == "inst" else None
        if hook is not None:
            return self.call(hook, [self.new_dict([])] if deep else [], {})
        if o.kind == "inst" and deep:
            # copy.deepcopy asks the instance for __deepcopy__ through getattr
            g = self.cls_lookup(o.cls, "__getattr__")
            if g is not None:
                h = self.catch_attr(lambda: self.call(g, [v, C("__deepcopy__")], {}), NONE)
                if h is not NONE:
                    self.event("getattr_hook", name="__deepcopy__", value=h)
        if o.kind in ("file", "stream", "zip", "genobj", "lazy", "iter"):
            self.raise_exc("TypeError", C("cannot pickle object"))
        if o.kind in ("ext", "env", "cm"):
            return v
        r = self.new_obj(o.kind, o.cls, extra=o.extra if not (o.extra and o.extra[0] == "instdict") else None)
        memo[v.oid] = r
        for key, w in self.locs_of(v.oid):
            if key == "$alive":
                continue
            if key == "$":
                self.raw_put(r.oid, "$", self.copy_payload(w, deep, memo))
            else:
                self.raw_put(r.oid, key, self.copy_field(w, deep, memo))
        return r

    def copy_field(self, w, deep, memo):
        if not deep or w is UNDEF:
            return w
        if isinstance(w, Term) and w.op == "ite" and self.has_undef(w):
            return T("ite", (w.args[0], self.copy_field(w.args[1], deep, memo), self.copy_field(w.args[2], deep, memo)), w.kind)
        return self.copy_val(w, deep, memo)

    def copy_payload(self, p, deep, memo):
        if not deep:
            return p
        p = self.simp(p)
        if isinstance(p, Term) and p.op == "ite":
            return self.joinv(p.args[0], self.copy_payload(p.args[1], deep, memo), self.copy_payload(p.args[2], deep, memo))
        if isinstance(p, DictV):
            base = p.base
            if base is not None and refs_maybe(base[3]):
                self.event("copy_dict_base", base=base)
            return DICT([(k, q, self.copy_val(v, deep, memo)) for k, q, v in p.entries], base)
        if all(s[0] == "i" for s in p.segs):
            return SEQ([("i", self.copy_val(s[1], deep, memo)) for s in p.segs])
        tmp = self.new_seq(SEQ(()))
        self.drive_segs(self.payload_segs(p), lambda x: self.list_append(tmp, self.copy_val(x, deep, None)), None, self.cur_node)
        return self.get(tmp.oid, "$")

    # ---------------------------------------------------------- json
    def json_tree(self, v, enc, depth=0):
        """The tree the json module writes: dictionaries, lists and scalars."""
        v = self.simp(v)
        if depth > 40:
            raise Incomplete("json nesting")
        if isinstance(v, Term) and v.op == "ite":
            return self.map_fork(v, lambda x: self.json_tree(x, enc, depth))
        if isinstance(v, Term) and v.op == "enum":
            if v.args[0].is_int:
                return v.args[1]
            return self.json_default(v, enc, depth)
        if isinstance(v, Tup):
            return self.new_list([self.json_tree(x, enc, depth + 1) for x in v.items])
        if isinstance(v, (Const, Term)):
            if v.kind == "bytes":
                self.raise_exc("TypeError", C("bytes is not JSON serializable"))
            return v
        if isinstance(v, Ref):
            o = self.objs[v.oid]
            if o.kind == "dict" or o.kind == "inst" and isinstance(self.get(v.oid, "$"), DictV):
                p = self.simp(self.get(v.oid, "$"))
                if isinstance(p, Term):
                    return self.map_fork(p, lambda q: self.json_dict(q, enc, depth))
                return self.json_dict(p, enc, depth)
            if o.kind in ("list",) or o.kind == "inst" and o.cls.nt_fields:
                r = self.new_list([])
                self.drive(v, lambda x: self.list_append(r, self.json_tree(x, enc, depth + 1)), None, self.cur_node)
                return r
        return self.json_default(v, enc, depth)

    def json_dict(self, p, enc, depth):
        r = self.new_dict([])
        for k, q, _ in p.entries:
            if isinstance(k, (Tup, Ref)) or kind(k) == "bytes" or getattr(k, "op", 0) == "enum" and not k.args[0].is_int:
                self.raise_exc("TypeError", C("keys must be str, int, float, bool or None"))
        self.drive_segs(self.dict_segs(p, "items"),
                        lambda kv: self.set_item(r, self.json_key(kv.items[0]), self.json_tree(kv.items[1], enc, depth + 1)), None, self.cur_node)
        return r

    def json_key(self, k):
        k = self.simp(k)
        if getattr(k, "op", 0) == "enum":
            k = k.args[1]
        if is_const(k):
            import json
            return C(k.v if isinstance(k.v, str) else json.dumps(k.v))
        return self.to_str(k) if kind(k) != "str" else k

    def json_default(self, v, enc, depth):
        if enc is None:
            self.event("type_error", what="%r is not JSON serializable" % (self.class_of(v),))
            self.raise_exc("TypeError", C("not JSON serializable"))
        return self.json_tree(self.call(enc, [v], {}), enc, depth + 1)

    def json_text(self, v, cls, kw, inst=None):
        enc = None
        if inst is None and isinstance(cls, ClassV):
            inst = self.alloc(cls)
        if inst is not None:
            d = self.cls_lookup(self.class_of(inst), "default")
            enc = self.bind(d, inst, self.class_of(inst))
            over = self.cls_lookup(self.class_of(inst), "encode")
            if isinstance(over, FuncV) and not getattr(self, "_json_in", False):
                self._json_in = True
                try:
                    return self.call(bound(over, inst), [v], {})
                finally:
                    self._json_in = False
        if enc is None and isinstance(kw.get("default"), (FuncV, BoundV, PartialV, BuiltinV)):
            enc = kw["default"]
        t = self.json_tree(v, enc)
        self._callno = getattr(self, "_callno", 0) + 1
        r = T("sym", ("json", self._callno), "str")
        self.event("json", source=v, tree=t, st=self.st.copy(), text=r, kw=dict(kw))
        return r

    # ---------------------------------------------------------- misc
    def math_fn(self, n, a):
        a = [self.simp(x) for x in a]
        if all(is_const(x) for x in a):
            import math
            try:
                return C(getattr(math, n)(*[x.v for x in a]))
            except (ValueError, TypeError, OverflowError, AttributeError) as e:
                self.raise_exc(type(e).__name__, C(str(e)))
        for x in a:
            if isinstance(x, Term) and x.op == "ite":
                return self.map_fork(x, lambda y: self.math_fn(n, [y if z is x else z for z in a]))
        if n in ("floor", "ceil", "trunc") and kind(a[0]) in ("int", "bool"):
            return self.to_int(a[0])
        if n == "trunc":
            return B.trunc(a[0])
        if n == "floor" and a[0].op == "tdiv" and all(kind(y) == "int" for y in a[0].args) and False:
            return fdiv(*a[0].args)
        return T("fn", ("math." + n,) + tuple(a), "int" if n in ("floor", "ceil", "gcd", "isqrt", "comb") else
                 "bool" if n.startswith("is") else "float")

    def operator_attr(self, n):
        ops = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "floordiv": ast.FloorDiv, "mod": ast.Mod, "truediv": ast.Div,
               "and_": ast.BitAnd, "or_": ast.BitOr, "xor": ast.BitXor, "lshift": ast.LShift, "rshift": ast.RShift, "pow": ast.Pow}
        un = {"neg": lambda it, x: it.binop(ast.Sub, ZERO, x), "pos": lambda it, x: x, "abs": lambda it, x: it.call(it.builtins["abs"], [x], {})}
        if n in un:
            return BuiltinV("operator." + n, lambda it, a, k: un[n](it, a[0]))
        if n in ops:
            return BuiltinV("operator." + n, lambda it, a, k: it.binop(ops[n], a[0], a[1]))
        cmps = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE, "is_": ast.Is, "is_not": ast.IsNot}
        if n in cmps:
            return BuiltinV("operator." + n, lambda it, a, k: it.compare(cmps[n](), a[0], a[1]))
        if n == "not_":
            return BuiltinV("operator.not_", lambda it, a, k: neg_b(it.truthy(a[0])))
        if n == "truth":
            return BuiltinV("operator.truth", lambda it, a, k: it.truthy(a[0]))
        if n == "getitem":
            return BuiltinV("operator.getitem", lambda it, a, k: it.get_item(a[0], a[1]))
        if n == "contains":
            return BuiltinV("operator.contains", lambda it, a, k: it.contains(a[0], a[1]))
        if n == "index":
            return BuiltinV("operator.index", lambda it, a, k: it.to_index(a[0]))
        if n == "attrgetter":
            def ag(it, a, k):
                def get1(it2, v, nm):
                    for p in nm.split("."):
                        v = it2.load_attr(v, p)
                    return v
                names = [x.v for x in a]
                return BuiltinV("attrgetter", lambda it2, b, kk: get1(it2, b[0], names[0]) if len(names) == 1 else TUP([get1(it2, b[0], x) for x in names]))
            return BuiltinV("operator.attrgetter", ag)
        if n == "itemgetter":
            return BuiltinV("operator.itemgetter", lambda it, a, k: BuiltinV(
                "itemgetter", lambda it2, b, kk: it2.get_item(b[0], a[0]) if len(a) == 1 else TUP([it2.get_item(b[0], x) for x in a])))
        if n == "methodcaller":
            return BuiltinV("operator.methodcaller", lambda it, a, k: BuiltinV(
                "methodcaller", lambda it2, b, kk: it2.call(it2.load_attr(b[0], a[0].v), list(a[1:]), k)))
        return None

    def exitstack_call(self, v, name, a, k):
        x = self.objs[v.oid].extra

        def later(f):
            self.list_append(x["todo"], BuiltinV("exit callback", lambda it, a2, k2: f(it)))
        if name == "enter_context":
            cm = self.simp(a[0])
            if isinstance(cm, Ref) and self.objs[cm.oid].kind in ("file", "stream", "zip", "zipentry"):
                later(lambda it: it.close_file(cm))
                return cm
            if isinstance(cm, Ref) and self.objs[cm.oid].kind == "inst":
                r = self.call(self.method(cm, "__enter__"), [], {})
                later(lambda it: it.call(it.method(cm, "__exit__"), [NONE, NONE, NONE], {}))
                return r
            raise Incomplete("ExitStack.enter_context at %s" % self.site())
        if name == "callback":
            later(lambda it: it.call(a[0], list(a[1:]), k))
            return a[0]
        if name == "close":
            exitstack_close(self, x["todo"])
            return NONE
        raise Incomplete("ExitStack.%s" % name)


def refs_maybe(t):
    """Does a template contain mutable objects?"""
    if t is None:
        return False
    if isinstance(t, tuple):
        if t and t[0] in ("inst", "list", "dict", "set", "deque", "bytearray"):
            return True
        return any(refs_maybe(x) for x in t if isinstance(x, tuple))
    return False


# ------------------------------------------------------------------ functions

def m_noop(it, a, k):
    return NONE


def m_copy__copy(it, a, k):
    return it.copy_val(a[0], False)


def m_copy__deepcopy(it, a, k):
    return it.copy_val(a[0], True)


def m_copy__replace(it, a, k):
    return m_dataclasses__replace(it, a, k)


def m_dataclasses__dataclass(it, a, k):
    if a and isinstance(a[0], ClassV):
        return it.make_dataclass(a[0], k)
    return BuiltinV("dataclass", lambda it2, b, kk: it2.make_dataclass(b[0], k))


def m_dataclasses__field(it, a, k):
    return it.new_obj("dcfield", extra=dict(k))


def m_dataclasses__replace(it, a, k):
    v = it.simp(a[0])
    if isinstance(v, Term) and v.op == "ite":
        return it.map_fork(v, lambda x: m_dataclasses__replace(it, [x], k))
    cls = it.objs[v.oid].cls
    kw = {f[0]: it.load_attr(v, f[0]) for f in cls.dc_fields if f[3] and f[0] not in k}
    kw.update(k)
    return it.construct(cls, [], kw)


def _asdict(it, v):
    v = it.simp(v)
    if isinstance(v, Term) and v.op == "ite":
        return it.map_fork(v, lambda x: _asdict(it, x))
    if isinstance(v, Ref):
        o = it.objs[v.oid]
        if o.kind == "inst" and o.cls.dc_fields is not None:
            return it.new_dict([(C(f[0]), _asdict(it, it.load_attr(v, f[0]))) for f in o.cls.dc_fields])
        if o.kind == "list":
            r = it.new_list([])
            it.drive(v, lambda x: it.list_append(r, _asdict(it, x)), None, it.cur_node)
            return r
        if o.kind == "dict":
            r = it.new_dict([])
            it.drive_segs(it.dict_segs(it.simp(it.get(v.oid, "$")), "items"), lambda kv: it.set_item(r, kv.items[0], _asdict(it, kv.items[1])), None, it.cur_node)
            return r
        return it.copy_val(v, True)
    if isinstance(v, Tup):
        return TUP([_asdict(it, x) for x in v.items])
    return v


def m_dataclasses__asdict(it, a, k):
    return _asdict(it, a[0])


def m_dataclasses__astuple(it, a, k):
    v = it.simp(a[0])
    return it.map_fork(v, lambda x: TUP([_asdict(it, it.load_attr(x, f[0])) for f in it.objs[x.oid].cls.dc_fields]))


def m_dataclasses__fields(it, a, k):
    c = it.simp(a[0])
    if not isinstance(c, ClassV):
        c = it.class_of(c)
    out = []
    for f in c.dc_fields:
        r = it.ext_obj("dcf")
        it.raw_put(r.oid, ".name", C(f[0]))
        it.raw_put(r.oid, ".metadata", f[5] if isinstance(f[5], Val) else it.new_dict([]))
        it.raw_put(r.oid, ".type", C(f[6]))
        it.raw_put(r.oid, ".init", C(bool(f[3])))
        it.raw_put(r.oid, ".compare", C(bool(f[4])))
        it.raw_put(r.oid, ".default", f[1] if f[1] is not None else opaque("dataclasses.MISSING"))
        out.append(r)
    return TUP(out)


def m_dataclasses__is_dataclass(it, a, k):
    c = it.simp(a[0])
    c = c if isinstance(c, ClassV) else it.class_of(c)
    return C(c is not None and c.dc_fields is not None)


def m_enum__auto(it, a, k):
    return opaque("enum.auto")


def m_enum__unique(it, a, k):
    return a[0]


m_abc__abstractmethod = m_typing__final = m_typing__no_type_check = m_typing__runtime_checkable = m_typing__overload = m_enum__unique
m_functools__total_ordering = m_enum__unique


def m_typing__cast(it, a, k):
    return a[1]


def _op(path):
    return lambda it, a, k: opaque(path)


m_typing__TypeVar = m_typing__NewType = lambda it, a, k: opaque("typing.T")
m_typing__get_type_hints = lambda it, a, k: it.new_dict([(C(n), C(ast.unparse(s.annotation))) for n, s in getattr(a[0], "annots", ())])


def m_functools__partial(it, a, k):
    return PartialV(a[0], list(a[1:]), dict(k))


def m_functools__partialmethod(it, a, k):
    p = PartialV(a[0], list(a[1:]), dict(k))
    p.as_method = True
    return p


def _mark_cached(f):
    if isinstance(f, FuncV):
        f.cached = True
    return f


def m_functools__lru_cache(it, a, k):
    if a and isinstance(a[0], FuncV):
        return _mark_cached(a[0])
    return BuiltinV("lru_cache", lambda it2, b, kk: _mark_cached(b[0]))


def m_functools__cache(it, a, k):
    return _mark_cached(a[0])


def m_functools__wraps(it, a, k):
    return BuiltinV("wraps", lambda it2, b, kk: b[0])


def m_functools__update_wrapper(it, a, k):
    return a[0]


def m_functools__cached_property(it, a, k):
    return LazyProp(a[0])


def m_functools__reduce(it, a, k):
    if len(a) > 2:
        return it.fold_seq(a[1], a[2], lambda x, y: it.call(a[0], [x, y], {}))
    its = it.unpack(a[1], None)
    if not its:
        it.raise_exc("TypeError", C("reduce() of empty sequence"))
    r = its[0]
    for x in its[1:]:
        r = it.call(a[0], [r, x], {})
    return r


def m_functools__cmp_to_key(it, a, k):
    raise Incomplete("cmp_to_key")


def m_functools__singledispatch(it, a, k):
    base = a[0]
    out = []

    def disp(it2, b, kk):
        v = it2.simp(b[0])

        def pick(x):
            c = it2.class_of(x)
            best = None
            for t, f in disp_v.dispatch:
                if isinstance(t, ClassV) and c is not None and t in c.mro and (best is None or c.mro.index(t) < c.mro.index(best[0])):
                    best = (t, f)
            return it2.call(best[1] if best else base, [x] + b[1:], kk)
        return it2.map_fork(v, pick)
    disp_v = BuiltinV("singledispatch." + getattr(base, "name", "f"), disp)
    disp_v.dispatch = []
    return disp_v


def m_contextlib__contextmanager(it, a, k):
    if isinstance(a[0], FuncV):
        a[0].ctx = True
    return a[0]


def m_contextlib__closing(it, a, k):
    x = a[0]

    def run(it2, inner):
        return it2.with_exit(lambda: inner(x), lambda how: it2.call(it2.load_attr(x, "close"), [], {}) and None)
    return it.new_obj("cm", extra=run)


def m_contextlib__suppress(it, a, k):
    def run(it2, inner):
        return it2.with_exit(lambda: inner(NONE), lambda how: True if how is not None and how.kind == "raise" and it2.exc_matches(how.value, a) else None)
    return it.new_obj("cm", extra=run)


def m_contextlib__nullcontext(it, a, k):
    v = a[0] if a else k.get("enter_result", NONE)
    return it.new_obj("cm", extra=lambda it2, inner: inner(v))


def m_contextlib__redirect_stdout(it, a, k):
    return it.new_obj("cm", extra=lambda it2, inner: inner(a[0]))


def exitstack_close(it, todo):
    p = it.get(todo.oid, "$")
    it.put(todo.oid, "$", SEQ(()))
    segs = list(it.payload_segs(p))
    if any(x[0] not in "ig" for x in segs):
        raise Incomplete("ExitStack filled by a loop at %s" % it.site())

    def rev(segs):
        return [x if x[0] == "i" else ("g", x[1], rev(list(x[2]))) for x in reversed(segs)]
    it.drive_segs(rev(segs), lambda f: it.map_fork(f, lambda g: it.call(g, [], {})), None, it.cur_node)


def m_contextlib__ExitStack(it, a, k):
    todo = it.new_seq(SEQ(()), "list")
    st = it.ext_obj("exitstack", todo=todo)

    def run(it2, inner):
        def leave(how):
            exitstack_close(it2, todo)
        return it2.with_exit(lambda: inner(st), leave)
    return it.new_obj("cm", extra=run)


def m_collections__namedtuple(it, a, k):
    f = a[1]
    if is_const(f):
        names = f.v.replace(",", " ").split()
    else:
        names = [x.v for x in it.unpack(f, None)]
    d = it.unpack(k["defaults"], None) if "defaults" in k and k["defaults"] is not NONE else []
    return it.make_namedtuple(a[0].v, names, d)


m_typing__NamedTuple_call = None
del m_typing__NamedTuple_call


def m_collections__defaultdict(it, a, k):
    r = it.new_obj("dict", extra=("defaultdict", a[0]) if a and a[0] is not NONE else None)
    it.raw_put(r.oid, "$", DICT(()))
    if len(a) > 1:
        it.dict_update(r, a[1])
    for n, v in k.items():
        it.set_item(r, C(n), v)
    return r


def m_collections__Counter(it, a, k):
    r = it.new_obj("dict", extra=("defaultdict", BuiltinV("zero", lambda it2, b, kk: ZERO)))
    it.raw_put(r.oid, "$", DICT(()))
    if a:
        it.drive(a[0], lambda x: it.set_item(r, x, add(it.get_item(r, x), C(1))), None, it.cur_node)
    return r


def m_collections__ChainMap(it, a, k):
    raise Incomplete("ChainMap")


def m_itertools__count(it, a, k):
    r = it.new_obj("lazy", extra=("count", a[0] if a else k.get("start", ZERO), a[1] if len(a) > 1 else k.get("step", C(1))))
    it.raw_put(r.oid, "n", a[0] if a else k.get("start", ZERO))
    return r


def m_itertools__chain(it, a, k):
    return it.new_obj("lazy", extra=("chain", list(a)))


def m_itertools__chain__from_iterable(it, a, k):
    src = a[0]

    def run(it2, v):
        return v
    its = it.known_items(it.simp(src))
    if its is not None:
        return it.new_obj("lazy", extra=("chain", its))
    r = it.new_seq(SEQ(()))
    it.drive(src, lambda x: it.list_extend(r, x), None, it.cur_node)
    return B.bi_iter(it, [r], {})


def m_itertools__takewhile(it, a, k):
    return it.new_obj("lazy", extra=("takewhile", a[0], a[1]))


def m_itertools__starmap(it, a, k):
    return it.new_obj("lazy", extra=("map", BuiltinV("star", lambda it2, b, kk: it2.call(a[0], it2.unpack(b[0], None), {})), [a[1]]))


def m_itertools__zip_longest(it, a, k):
    segs = [it.segs_of(it.simp(x)) if not (isinstance(x, Ref) and it.objs[x.oid].kind in ("lazy", "genobj")) else it.payload_segs(it.payload_of(x)) for x in a]
    if all(all(s[0] == "i" for s in q) for q in segs):
        n = max(len(q) for q in segs)
        f = k.get("fillvalue", NONE)
        return B._mk_iter(it, [("i", TUP([q[i][1] if i < len(q) else f for q in segs])) for i in range(n)])
    raise Incomplete("zip_longest at %s" % it.site())


def m_itertools__islice(it, a, k):
    args = [it.simp(x) for x in a[1:]]
    if len(args) == 1:
        lo, hi, st = ZERO, args[0], C(1)
    else:
        lo, hi, st = args[0], args[1], args[2] if len(args) > 2 else C(1)
    lo = ZERO if lo is NONE else lo
    v = it.simp(a[0])
    if isinstance(v, Ref) and it.objs[v.oid].kind == "lazy" and it.objs[v.oid].extra[0] == "count":
        c = it.objs[v.oid].extra
        n = it.get(v.oid, "n")
        return B.bi_iter(it, [RangeV(add(n, mul(lo, c[2])), add(n, mul(hi, c[2])), mul(c[2], st))], {})
    if isinstance(v, Ref) and it.objs[v.oid].kind == "iter":
        # consumes from the shared position
        out = []
        if is_const(lo) and lo.v == 0 and is_const(hi) and hi.v <= 64 and is_const(st) and st.v == 1:
            segs, pos = it.objs[v.oid].extra, it.get(v.oid, "pos")
            n = it.segs_len(segs)
            r = it.new_seq(SEQ(()))
            for i in range(hi.v):
                p = it.get(v.oid, "pos")
                it.branch(lt(p, n), lambda: (it.list_append(r, it.segs_elem(segs, p)), it.raw_put(v.oid, "pos", add(p, C(1)))) and NONE, lambda: NONE)
            return B.bi_iter(it, [r], {})
        raise Incomplete("islice of an iterator at %s" % it.site())
    p = it.payload_of(v)
    return B.bi_iter(it, [it.new_seq(it.slice_payload(p, lo, hi, st))], {})


def m_itertools__repeat(it, a, k):
    if len(a) > 1:
        return B._mk_iter(it, it.payload_segs(it.repeat(SEQ([("i", a[0])]), a[1])))
    return it.new_obj("lazy", extra=("map", BuiltinV("rep", lambda it2, b, kk: a[0]), [m_itertools__count(it, [], {})]))


def m_itertools__product(it, a, k):
    pools = [it.unpack(x, None) for x in a] * (k["repeat"].v if "repeat" in k else 1)
    out = [()]
    for p in pools:
        out = [o + (x,) for o in out for x in p]
    return B._mk_iter(it, [("i", TUP(o)) for o in out])


def m_itertools__cycle(it, a, k):
    its = it.unpack(a[0], None)
    r = it.new_obj("lazy", extra=("map", BuiltinV("cyc", lambda it2, b, kk: it2.segs_elem([("i", x) for x in its], it2.arith(mod, b[0], C(len(its))))),
                                  [m_itertools__count(it, [], {})]))
    return r


def m_itertools__accumulate(it, a, k):
    r = it.new_seq(SEQ(()))
    cell = it.new_obj("env")
    f = a[1] if len(a) > 1 else k.get("func", NONE)
    its = it.unpack(a[0], None)
    acc = k.get("initial")
    out = [acc] if acc is not None and acc is not NONE else []
    for x in its:
        acc = x if acc is None or acc is NONE else (it.call(f, [acc, x], {}) if f is not NONE else it.binop(ast.Add, acc, x))
        out.append(acc)
    return B._mk_iter(it, [("i", x) for x in out])


# --- struct

def _fmt(it, f):
    f = it.simp(f)
    if is_const(f):
        return f.v.decode() if isinstance(f.v, bytes) else f.v
    return None


def m_struct__calcsize(it, a, k):
    f = _fmt(it, a[0])
    return C(calc_struct(f)[2]) if f is not None else unk("calcsize", "int")


def _unpack(it, a, exact):
    fm = it.simp(a[0])
    if isinstance(fm, Term) and fm.op == "ite":
        return it.map_fork(fm, lambda x: _unpack(it, [x] + a[1:], exact))
    f = _fmt(it, fm)
    if f is None:
        # a format computed from strings such as sys.byteorder: native, unknown to the analysis
        return _unpack_unknown(it, fm, a)
    data = it.simp(a[1])
    if isinstance(data, Term) and data.op == "ite":
        return it.map_fork(data, lambda x: _unpack(it, [a[0], x] + a[2:], exact))
    size = calc_struct(f)[2]
    off = a[2] if len(a) > 2 else ZERO
    if isinstance(data, Ref):
        its = items_of(it.payload_of(data))
        data = T("bytes", tuple(its), "bytes") if its is not None and its else (C(b"") if its is not None else unk("buffer", "bytes"))
    if kind(data) != "bytes":
        it.raise_exc("TypeError", C("a bytes-like object is required"))
    n = it.bytes_len(data)
    if exact:
        it.maybe_raise(ne(n, C(size)), "struct.error", C("unpack requires a buffer of %d bytes" % size))
    else:
        it.maybe_raise(lt(n, add(off, C(size))), "struct.error", C("unpack_from requires a buffer"))
    data = it.simp(data)
    return it.struct_unpack(f, data, off)


def _unpack_unknown(it, fm, a):
    it.note_unknown("struct format %s" % show(fm))
    return unk("struct.unpack")


def m_struct__unpack(it, a, k):
    return _unpack(it, a, True)


def m_struct__unpack_from(it, a, k):
    if "buffer" in k:
        a = a + [k["buffer"]]
    if "offset" in k:
        a = a + [k["offset"]]
    return _unpack(it, a, False)


def m_struct__iter_unpack(it, a, k):
    raise Incomplete("iter_unpack")


def m_struct__pack(it, a, k):
    f = _fmt(it, a[0])
    if f is None:
        return unk("pack", "bytes")
    if all(is_const(x) for x in a[1:]):
        import struct
        try:
            return C(struct.pack(f, *[x.v for x in a[1:]]))
        except struct.error as e:
            it.raise_exc("struct.error", C(str(e)))
    order, items, size = calc_struct(f)
    out = [ZERO] * size
    for (code, o, sz), v in zip(items, a[1:]):
        big = order in ">!"
        for i in range(sz):
            out[o + i] = it.binop(ast.BitAnd, it.binop(ast.RShift, v, C(8 * (sz - 1 - i if big else i))), C(255))
    return T("bytes", tuple(out), "bytes")


def m_struct__Struct(it, a, k):
    f = _fmt(it, a[0])
    if f is None:
        return unk("Struct")
    return it.ext_obj("struct", fmt=f)


# --- files

def m_io__open(it, a, k):
    return it.open_file(a, k, "open")


m_codecs__open = m_io__open


def m_gzip__open(it, a, k):
    return it.open_file(a, k, "gzip")


def m_gzip__GzipFile(it, a, k):
    f = k.get("fileobj") or (a[3] if len(a) > 3 else None)
    if f is not None and f is not NONE:
        return it.map_fork(it.simp(f), lambda x: it.gunzip(x))
    return it.open_file(a, k, "gzip")


def m_gzip__decompress(it, a, k):
    v = it.simp(a[0])

    def go(x):
        if isinstance(x, Term) and x.op == "read" and x.args[1] is ZERO and x.args[2] is NONE:
            return T("read", (("gunzip", x.args[0]), ZERO, NONE), "bytes")
        if isinstance(x, Term) and x.op == "bcat":
            y = rejoin(it, x)
            if y is not None:
                return go(y)
        return T("read", (("gunzip-bytes", x), ZERO, NONE), "bytes")
    return it.map_fork(v, go)


def rejoin(it, x):
    """read(s,p,n) + read(s,p+n,rest) is one read."""
    a, b = x.args
    if getattr(a, "op", 0) == "bcat":
        a = rejoin(it, a)
        if a is None:
            return None
    if getattr(a, "op", 0) == "read" and getattr(b, "op", 0) == "read" and a.args[0] == b.args[0]:
        if it.pinned(b.args[1]) is it.pinned(add(a.args[1], it.bytes_len(a))) or b.args[1] is add(a.args[1], a.args[2] if isinstance(a.args[2], (Const, Term)) and a.args[2] is not NONE else ZERO):
            if b.args[2] is NONE:
                return T("read", (a.args[0], a.args[1], NONE), "bytes")
            return T("read", (a.args[0], a.args[1], add(a.args[2], b.args[2])), "bytes")
    return None


def m_zlib__decompress(it, a, k):
    return m_gzip__decompress(it, a, k)


def m_io__BytesIO(it, a, k):
    v = it.simp(a[0]) if a else NONE

    def go(x):
        if isinstance(x, Term) and x.op == "bcat":
            y = rejoin(it, x)
            x = y if y is not None else x
        d = {"mode": C("rb"), "path": None, "binary": True, "std": None, "how": "bytesio"}
        if x is NONE or is_const(x) and x.v == b"":
            d["name"] = ("bytesio", it._oid)
            r = it.new_obj("file", extra=d)
            d["mem"] = True
        elif isinstance(x, Term) and x.op == "read" and x.args[1] is ZERO and x.args[2] is NONE:
            d["name"] = x.args[0]
            r = it.new_obj("stream", extra=d)
        else:
            d["name"] = ("bytes", x)
            d["bytes"] = x
            r = it.new_obj("stream", extra=d)
        it.raw_put(r.oid, "open", TRUE)
        it.raw_put(r.oid, "pos", ZERO)
        return r
    return it.map_fork(v, go)


def m_io__StringIO(it, a, k):
    r = it.new_obj("file", extra={"mode": C("w"), "path": None, "binary": False, "std": None, "how": "stringio", "mem": True, "name": ("stringio", it._oid)})
    it.raw_put(r.oid, "open", TRUE)
    it.raw_put(r.oid, "pos", ZERO)
    return r


def m_io__BufferedReader(it, a, k):
    return a[0]


m_io__BufferedWriter = m_io__BufferedRandom = m_io__BufferedReader


def m_io__TextIOWrapper(it, a, k):
    f = a[0]
    o = it.objs[f.oid]
    d = dict(o.extra)
    d["binary"] = False
    d["inner"], d["how"] = f, "wrap"
    r = it.new_obj("file", extra=d)
    it.raw_put(r.oid, "open", TRUE)
    it.raw_put(r.oid, "pos", ZERO)
    return r


def m_zipfile__ZipFile(it, a, k):
    f = it.simp(a[0] if a else k.get("file", NONE))
    mode = it.simp(a[1] if len(a) > 1 else k.get("mode", C("r")))
    it.io_fault("archive")
    r = it.new_obj("zip", extra={"name": ("zip", f), "mode": mode, "path": f, "binary": True, "std": None})
    it.raw_put(r.oid, "open", TRUE)
    if not isinstance(f, Ref):
        it.maybe_raise(T("sym", (fresh("openfails"),), "bool"), "OSError", C("cannot open"))
        it.event("open", path=f, mode=C({"w": "wb", "x": "xb", "a": "ab"}.get(mode.v if is_const(mode) else "r", "rb")), ref=r)
    it.event("zip_open", ref=r, file=f, mode=mode, st=it.st)
    return r


def m_zipfile__ZipInfo(it, a, k):
    return a[0] if a else k.get("filename", C("NoName"))


def m_pathlib__Path(it, a, k):
    v = it.simp(a[0]) if a else C(".")

    def go(x):
        if isinstance(x, Ref) and it.objs[x.oid].kind == "ext":
            return x
        return it.ext_obj("path", value=x)
    if len(a) > 1:
        return it.ext_obj("path", value=T("strm", (v if isinstance(v, (Const, Term)) else unk("path", "str"), "path.join", tuple(a[1:])), "str"))
    return it.map_fork(v, go)


m_pathlib__PurePath = m_pathlib__Path


def m_os__fspath(it, a, k):
    return it.to_str(a[0])


def _fs(n):
    def f(it, a, k):
        it.event("fs", what=n, path=a[0] if a else NONE, args=list(a))
        return NONE
    return f


m_os__remove, m_os__unlink, m_os__rename, m_os__replace, m_os__makedirs, m_os__mkdir = map(_fs, ("remove", "unlink", "rename", "replace", "makedirs", "mkdir"))
m_shutil__move, m_shutil__copy, m_shutil__copyfile, m_shutil__rmtree, m_os__rmdir, m_os__truncate = map(_fs, ("move", "copy", "copyfile", "rmtree", "rmdir", "truncate"))


# --- json

def m_json__dumps(it, a, k):
    return it.json_text(a[0] if a else k["obj"], it.simp(k["cls"]) if "cls" in k else None, k)


def m_json__dump(it, a, k):
    t = it.json_text(a[0] if a else k["obj"], it.simp(k["cls"]) if "cls" in k else None, k)
    f = a[1] if len(a) > 1 else k["fp"]
    it.call(it.load_attr(f, "write"), [t], {})
    return NONE


def m_json__loads(it, a, k):
    return unk("json.loads")


# --- xsdata: rendering is trusted, what is rendered is recorded

def m_xsdata__formats__dataclass__serializers__config__SerializerConfig(it, a, k):
    return it.ext_obj("xmlconfig", kw=dict(k))


def m_xsdata__formats__dataclass__serializers__XmlSerializer(it, a, k):
    return it.ext_obj("xmlser", kw=dict(k))


m_xsdata__formats__dataclass__serializers__xml__XmlSerializer = m_xsdata__formats__dataclass__serializers__XmlSerializer


def xml_text(it, obj):
    it.io_fault("render")
    t = T("sym", (fresh("xmltext"),), "str")
    it.event("xml", ref=it.simp(obj), text=t, st=it.st.copy())
    return t


def xmlser_call(it, name, a, k):
    if name == "render":
        return xml_text(it, a[0] if a else k["obj"])
    if name == "write":
        t = xml_text(it, a[1] if len(a) > 1 else k["obj"])
        it.call(it.load_attr(a[0] if a else k["out"], "write"), [t], {})
        return NONE
    raise Incomplete("XmlSerializer.%s at %s" % (name, it.site()))


# --- argparse, sys

def m_argparse__ArgumentParser(it, a, k):
    return it.ext_obj("argparser", spec=[], kw=dict(k))


def m_argparse__Namespace(it, a, k):
    r = it.ext_obj("namespace")
    for n, v in k.items():
        it.raw_put(r.oid, "." + n, v)
    return r


def m_sys__exit(it, a, k):
    it.raise_exc("SystemExit", *a)


def m_os___exit(it, a, k):
    it.raise_exc("SystemExit", *a)


def m_sys__intern(it, a, k):
    return a[0]


def m_sys__setrecursionlimit(it, a, k):
    return NONE


def m_time__time(it, a, k):
    return unk("time", "float")


m_time__perf_counter = m_time__monotonic = m_time__time
m_time__sleep = m_gc__collect = m_noop


def m_types__SimpleNamespace(it, a, k):
    c = it._ext_classes.get("types.SimpleNamespace")
    if c is None:
        c = ClassV("SimpleNamespace", [it.builtins["object"]], None, None)
        c.annots = []
        it._ext_classes["types.SimpleNamespace"] = c
    r = it.new_obj("inst", c)
    for n, v in k.items():
        it.raw_put(r.oid, n, v)
    return r


def m_types__MappingProxyType(it, a, k):
    return a[0]


def m_bisect__bisect_right(it, a, k):
    return _bisect(it, a, k, lambda e, x: it.order("__le__", "__ge__", le, e, x))


def m_bisect__bisect_left(it, a, k):
    return _bisect(it, a, k, lambda e, x: it.order("__lt__", "__gt__", lt, e, x))


m_bisect__bisect = m_bisect__bisect_right


def _bisect(it, a, k, before):
    if "key" in k or len(a) > 2:
        raise Incomplete("bisect with key")
    its = it.known_items(it.simp(a[0]))
    if its is None:
        n = it.len_of(a[0])
        return T("sym", (fresh("bisect"),), "int", (0, None))
    r = ZERO
    for e in its:
        r = add(r, ite(it.truthy(before(e, a[1])), C(1), ZERO))
    return r


MODELS = {k[2:].replace("__", "."): f for k, f in list(globals().items()) if k.startswith("m_") and callable(f)}
