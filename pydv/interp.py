"""Python statement/expression semantics, calls, and the loop rule."""
from .ex import *  # noqa
from .ex import _hasq, _hasvar
from .values import *  # noqa
from .values import z3
import dataclasses
import enum
import numpy as _np


class AccVar:
    """placeholder for a non-scalar variable carried by a loop; any read is outside the fragment"""

    def __init__(self, k):
        self.k = k


_MISSING = object()
BI = {}  # builtin handlers keyed by raw object


def bi(*objs):
    def deco(f):
        for o in objs:
            MODELS[o] = f
        return f

    return deco


# pure-Python parts of dependencies whose source is executed rather than assumed
INLINE = ("pytket/utils/operators.py", "pytket/utils/expectations.py")

# value classes of dependencies, run natively on concrete arguments
NATIVE = ("pytket._tket.unit_id", "pytket._tket.pauli")


def counter_add(ex, r, other):
    """add the counts of `other` to the counter r, in place; counts must be positive"""
    def add(key, v):
        v = ex.num(v)
        if not (v > 0 if not is_z3(v) else ex.valid(v > 0)):
            raise Unsupported("sum of counters with counts that may not be positive")
        ex.setitem(r, key, zadd(ex.num(ex.getitem(r, key)), v))

    def body(x):
        key, v = [p.v for p in ex.toseq(x).parts]
        add(key, v)

    def kinds(p):
        out = set()
        ex.seq_ops_kinds(p.seq, out)
        return out

    d = ex.todict(ex.deref(ex.res(other)))
    if not all(kinds(p) == {"add"} for p in d.parts if isinstance(p, DOps)):
        d = ex.dnormal(d)
    for p in d.parts:
        if isinstance(p, DOps):
            if kinds(p) != {"add"}:
                raise Unsupported("sum of accumulated counters")
            # what was added to the one is added to the other
            ex.iterate(p.seq, lambda o: add(o[1], o[2]))
        else:
            ex.iterate(ex.ditems(DMap([p], d.default)), body)
    return r


def is_counter(ex, v):
    v = ex.deref(ex.res(v))
    return isinstance(v, DMap) and v.default == "counter"


def _hask(e):
    return any(True for _ in zapps(e, lambda d: d.name().startswith("k!")))


class Interp(Ex):
    def isrepo(self, fn):
        f = fn.__code__.co_filename
        return f.startswith(REPO + "/") or f.startswith(os.path.join(VERIF, "contracts")) or f.endswith(INLINE) or f.endswith("pydv/pytket_model.py") and fn.__qualname__.startswith("Model")

    # ---------------------------------------------------------------- frames / names
    def newframe(self, parent, glob, name, cls=None):
        fid = self.uid()
        self.frames[fid] = {}
        return Frame(fid, parent, glob, name, cls)

    def lookup(self, fr, name):
        f = fr
        while f is not None:
            vs = self.frames.get(f.fid)
            if vs is not None and name in vs and name not in f.global_:
                v = vs[name]
                return self.checkread(v, name)
            if f.locals_ and name in f.locals_ and f is fr and name not in f.nonlocal_ and name not in f.global_:
                raise PyRaise(UnboundLocalError, (name,), self.curline)
            f = f.parent
        if name in fr.glob:
            return self.lift(fr.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,), self.curline)

    def checkread(self, v, name):
        if isinstance(v, AccVar) or v is POISON:
            raise Unsupported(f"loop-carried variable {name} has no solved recurrence")
        if v is UNBOUND:
            raise PyRaise(UnboundLocalError, (name,), self.curline)
        return v

    def lift(self, v):
        return v

    def assign(self, fr, name, v):
        f = fr
        if name in fr.nonlocal_:
            f = fr.parent
            while f and name not in self.frames.get(f.fid, {}):
                f = f.parent
        elif name in fr.global_:
            raise Unsupported("global assignment")
        self.frames[f.fid][name] = v

    # ---------------------------------------------------------------- functions
    def locals_of(self, node):
        key = id(node)
        c = self.__dict__.setdefault("_locals", {})
        if key not in c:
            out = set()
            nl = set()

            def walk(n):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                        out.add(ch.name)
                        continue
                    if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                        out.add(ch.id)
                    if isinstance(ch, (ast.Nonlocal, ast.Global)):
                        nl.update(ch.names)
                    if isinstance(ch, ast.ExceptHandler) and ch.name:
                        out.add(ch.name)
                    walk(ch)

            if isinstance(node, ast.FunctionDef):
                for st in node.body:
                    walk(ast.Module([st], []))
            c[key] = (node, out - nl)
        return c[key][1]

    def func_of_raw(self, fn):
        cache = self.__dict__.setdefault("_rawf", {})
        if fn in cache:
            return cache[fn]
        code = fn.__code__
        idx = file_ast(code.co_filename)
        node = idx.get((code.co_firstlineno, code.co_name))
        if node is None:
            raise Unsupported(f"no source for {fn}")
        fr = None
        if fn.__closure__:
            fr = Frame(self.uid(), None, fn.__globals__, "closure")
            self.frames[fr.fid] = {n: c.cell_contents for n, c in zip(code.co_freevars, fn.__closure__)}
        f = Func(node, fr, fn.__globals__, fn.__qualname__, fn.__defaults__ or (), fn.__kwdefaults__, file=code.co_filename)
        cache[fn] = f
        return f

    def find_method(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                v = c.__dict__[name]
                if c is object:
                    return None
                return v
        return None

    def bindargs(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        if any(isinstance(x, StarSeq) for x in args):
            at = next(k for k, x in enumerate(args) if isinstance(x, StarSeq))
            if at < len(pos) or not a.vararg:
                raise Unsupported("star-argument of symbolic length")
            parts = []
            for x in args[len(pos):]:
                parts += list(x.s.parts) if isinstance(x, StarSeq) else [Unit(x)]
            env[a.vararg.arg] = Seq(parts, "tuple")
            args = args[:len(pos)]
        for k, p in enumerate(pos):
            if k < len(args):
                env[p] = args[k]
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                d = k - (len(pos) - len(defaults))
                if d >= 0:
                    env[p] = defaults[d]
                else:
                    raise PyRaise(TypeError, (f"{name}: missing {p}",), self.curline)
        if len(args) > len(pos):
            if not a.vararg:
                raise PyRaise(TypeError, (f"{name}: too many arguments",), self.curline)
            env[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            env.setdefault(a.vararg.arg, ())
        for k in a.kwonlyargs:
            if k.arg in kwargs:
                env[k.arg] = kwargs.pop(k.arg)
            elif k.arg in kwdefaults:
                env[k.arg] = kwdefaults[k.arg]
            else:
                raise PyRaise(TypeError, (f"{name}: missing {k.arg}",), self.curline)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(DMap([DEnt(k, v) for k, v in kwargs.items()]))
        elif kwargs:
            raise PyRaise(TypeError, (f"{name}: unexpected {list(kwargs)}",), self.curline)
        return env

    def callfunc(self, f, args, kwargs, owner=None):
        node = f.node
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        if f.file.startswith(REPO + "/"):
            self.functions.add(f"{f.file[len(REPO) + 1:]}:{f.name}")
        try:
            env = self.bindargs(node, f.defaults, f.kwdefaults, args, kwargs, f.name)
        except PyRaise:
            if standin(owner or f.owner):
                raise Unsupported(f"{f.name}: arguments a stand-in knows nothing of")
            raise
        fr = self.newframe(f.frame, f.glob, f.name, owner or f.owner)
        self.frames[fr.fid].update(env)
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        fr.first = names[0] if names else None
        saved = self.curline
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            fr.locals_ = self.locals_of(node)
            isgen = self.is_generator(node)
            if isgen:
                fr.yields = self.alloc(Seq([]))
            try:
                self.block(node.body, fr)
            except ReturnEx as e:
                if isgen:
                    return self.mkiter(fr.yields)
                return e.v
            if isgen:
                return self.mkiter(fr.yields)
            return None
        finally:
            self.depth -= 1
            self.curline = saved

    def is_generator(self, node):
        c = self.__dict__.setdefault("_gen", {})
        if id(node) not in c:
            def walk(n):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                        continue
                    if isinstance(ch, (ast.Yield, ast.YieldFrom)) or walk(ch):
                        return True
                return False

            c[id(node)] = (node, walk(node))
        return c[id(node)][1]

    def call(self, f, args, kwargs):
        f = self.res(f)
        if isinstance(f, Func):
            return self.callfunc(f, args, kwargs)
        if isinstance(f, BM):
            if isinstance(f.fn, Bi):
                return f.fn.fn(self, f.self, args, kwargs)
            if isinstance(f.fn, types.FunctionType) and (f.fn.__module__ or "").startswith("pydv.") and not self.isrepo(f.fn):
                return f.fn(self, f.self, args, kwargs)
            return self.call(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, Bi):
            return f.fn(self, args, kwargs)
        if isinstance(f, Ref):
            o = self.heap[f.id]
            if isinstance(o, tuple) and isinstance(o[0], str) and o[0] == "inst":
                m = self.find_method(o[1], "__call__")
                if m is not None:
                    return self.call(BM(f, m, "__call__"), args, kwargs)
                if "__pydv_partial__" in o[2]:
                    fn, a0, k0 = o[2]["__pydv_partial__"]
                    return self.call(fn, list(a0) + list(args), {**k0, **kwargs})
            raise PyRaise(TypeError, ("not callable",), self.curline)
        if any(isinstance(a, StarSeq) for a in args) and f is not zip and not isinstance(f, (types.MethodType, types.FunctionType)):
            raise Unsupported("star-argument of symbolic length")
        try:
            if f in CONTRACTS:
                return CONTRACTS[f](self, args, kwargs)
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, types.FunctionType):
            if self.isrepo(f):
                return self.callfunc(self.func_of_raw(f), args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if isinstance(f, Opq):
            if (f.ty, "__call__") in METHODS:
                return METHODS[(f.ty, "__call__")](self, f, args, kwargs)
            raise Unsupported("call of opaque")
        if getattr(f, "__module__", None) == "typing" or f is typing.cast:
            pass
        return self.native(f, args, kwargs)

    def israw(self, v):
        if isinstance(v, (Ref, Opq, NT, G, Func, BM, Bi, Seq, DMap, Sentinel, AccVar)) or is_z3(v):
            return False
        if isinstance(v, tuple):
            return all(self.israw(x) for x in v)
        return True

    def unraw(self, v):
        """convert to a native python value if fully concrete; else None-marker"""
        v = self.res(v)
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, Seq) and all(isinstance(p, Unit) for p in o.parts):
                xs = [self.unraw(p.v) for p in o.parts]
                if any(x is _MISSING for x in xs):
                    return _MISSING
                return set(xs) if o.kind == "set" else xs
            if isinstance(o, DMap) and all(isinstance(p, DEnt) for p in o.parts):
                d = {}
                for p in o.parts:
                    k, x = self.unraw(p.k), self.unraw(p.v)
                    if k is _MISSING or x is _MISSING:
                        return _MISSING
                    d[k] = x
                return d
            return _MISSING
        if isinstance(v, NT):
            xs = [self.unraw(x) for x in v.vals]
            return _MISSING if any(x is _MISSING for x in xs) else v.cls(*xs)
        if isinstance(v, tuple):
            xs = [self.unraw(x) for x in v]
            return _MISSING if any(x is _MISSING for x in xs) else tuple(xs)
        return v if self.israw(v) else _MISSING

    NATIVE_OK = set()

    def native(self, f, args, kwargs):
        nm = getattr(f, "__qualname__", getattr(f, "__name__", str(f)))
        try:
            ok = f in self.NATIVE_OK
        except TypeError:
            ok = False
        mod = getattr(f, "__module__", "") or ""
        if ok or mod in NATIVE or mod.split(".")[0] in ("math", "operator", "builtins", "sympy", "itertools", "fractions") or (isinstance(f, type) and issubclass(f, enum.Enum)):
            a = [self.unraw(x) for x in args]
            k = {n: self.unraw(x) for n, x in kwargs.items()}
            if not any(x is _MISSING for x in list(a) + list(k.values())):
                try:
                    r = f(*a, **k)
                except Exception as e:
                    raise PyRaise(type(e), e.args, self.curline)
                return r
        raise Unsupported(f"call of {mod}.{nm} has no contract")

    def construct(self, cls, args, kwargs):
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            vals = list(args)
            if len(vals) > len(cls._fields):
                raise PyRaise(TypeError, (), self.curline)
            for f in cls._fields[len(vals):]:
                if f in kwargs:
                    vals.append(kwargs[f])
                elif f in cls._field_defaults:
                    vals.append(cls._field_defaults[f])
                else:
                    raise PyRaise(TypeError, (f"missing {f}",), self.curline)
            if set(kwargs) - set(cls._fields):
                raise PyRaise(TypeError, (), self.curline)
            return NT(cls, vals)
        if issubclass(cls, BaseException):
            return self.alloc(("inst", cls, {"args": tuple(args)}))
        if issubclass(cls, enum.Enum):
            return self.native(cls, args, kwargs)
        mod = cls.__module__
        if mod.startswith("qermit") or mod.startswith("contracts") or mod.replace(".", "/") + ".py" in INLINE or getattr(cls, "_pydv_model", False):
            r = self.alloc(("inst", cls, {}))
            init = self.find_method(cls, "__init__")
            if init is not None and isinstance(init, types.FunctionType) and dataclasses.is_dataclass(cls) and not self._has_src(init):
                fs = dataclasses.fields(cls)
                vals = dict(zip([f.name for f in fs if f.init], args))
                vals.update(kwargs)
                for f in fs:
                    if f.name not in vals:
                        if f.default is not dataclasses.MISSING:
                            vals[f.name] = f.default
                        elif f.default_factory is not dataclasses.MISSING:
                            vals[f.name] = self.call(f.default_factory, [], {})
                        else:
                            raise PyRaise(TypeError, (), self.curline)
                self.heap[r.id] = ("inst", cls, vals)
                post = self.find_method(cls, "__post_init__")
                if post:
                    self.call(BM(r, post, "__post_init__"), [], {})
                return r
            if init is not None:
                self.call_method_raw(r, init, cls, args, kwargs)
            elif args or kwargs:
                raise PyRaise(TypeError, (), self.curline)
            return r
        if mod in NATIVE:
            if any(is_z3(x) for x in args) and not kwargs:
                return Opq(self.fterm("mk_" + cls.__name__, [self.term(x) for x in args]), cls.__name__)
            return self.native(cls, args, kwargs)
        raise Unsupported(f"construction of {cls.__module__}.{cls.__name__} has no contract")

    def _has_src(self, fn):
        try:
            return (fn.__code__.co_firstlineno, fn.__code__.co_name) in file_ast(fn.__code__.co_filename)
        except OSError:
            return False

    def call_method_raw(self, self_, fn, cls, args, kwargs):
        if isinstance(fn, types.FunctionType):
            if fn in CONTRACTS:
                return CONTRACTS[fn](self, [self_] + list(args), kwargs)
            if fn in MODELS:
                return MODELS[fn](self, [self_] + list(args), kwargs)
            if self.isrepo(fn):
                owner = None
                for c in cls.__mro__:
                    if fn in c.__dict__.values():
                        owner = c
                        break
                return self.callfunc(self.func_of_raw(fn), [self_] + list(args), kwargs, owner)
        raise Unsupported(f"method {fn}")

    # ---------------------------------------------------------------- attributes
    def getattr(self, v, name):
        v = self.res(v)
        if isinstance(v, NT):
            if name in v.cls._fields:
                return v.vals[v.cls._fields.index(name)]
            if name == "_replace":
                return Bi(lambda ex, a, k: NT(v.cls, [k.get(f, x) for f, x in zip(v.cls._fields, v.vals)]), name)
            if name == "_fields":
                return v.cls._fields
            if name == "_asdict":
                return Bi(lambda ex, a, k: ex.alloc(DMap([DEnt(f, x) for f, x in zip(v.cls._fields, v.vals)])), name)
            m = self.find_method(v.cls, name)
            if m is not None and isinstance(m, types.FunctionType):
                return BM(v, m, name)
            if isinstance(m, property):
                return self.call(m.fget, [v], {})
            if ("tuple", name) in METHODS:
                return BM(v, METHODS[("tuple", name)], name)
            if standin(v.cls):
                raise Unsupported(f"{v.cls.__name__}.{name} is not modelled")
            raise PyRaise(AttributeError, (name,), self.curline)
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, Seq):
                ty = "set" if o.kind == "set" else "list"
                if (ty, name) in METHODS:
                    return BM(v, METHODS[(ty, name)], name)
                if (ty, name) in ATTRS:
                    return ATTRS[(ty, name)](self, v)
                if not hasattr(set if ty == "set" else list, name):
                    raise PyRaise(AttributeError, (name,), self.curline)
                raise Unsupported(f"{ty}.{name}")
            if isinstance(o, DMap):
                if ("dict", name) in METHODS:
                    return BM(v, METHODS[("dict", name)], name)
                raise Unsupported(f"dict.{name}")
            cls, fields = o[1], o[2]
            if name in fields:
                return self.checkread(fields[name], name)
            if name == "__class__":
                return cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            m = None
            for c in cls.__mro__:
                if name in c.__dict__ and c is not object:
                    m = c.__dict__[name]
                    break
            if m is not None:
                if isinstance(m, property):
                    return self.call_method_raw(v, m.fget, cls, [], {})
                if isinstance(m, functools.cached_property):
                    return self.call_method_raw(v, m.func, cls, [], {})
                if isinstance(m, staticmethod):
                    return m.__func__
                if isinstance(m, classmethod):
                    return BM(cls, m.__func__, name)
                if isinstance(m, types.FunctionType):
                    return Bi(lambda ex, a, k, m=m: ex.call_method_raw(v, m, cls, a, k), name)
                return m
            if (cls, name) in METHODS:
                return BM(v, METHODS[(cls, name)], name)
            if name == "__deepcopy__" or name == "__copy__":
                raise PyRaise(AttributeError, (name,), self.curline)
            if getattr(cls, "_pydv_model", False) or standin(cls):
                raise Unsupported(f"{cls.__name__}.{name} is not modelled")
            raise PyRaise(AttributeError, (f"{cls.__name__}.{name}",), self.curline)
        if isinstance(v, Opq):
            if (v.ty, name) in ATTRS:
                return ATTRS[(v.ty, name)](self, v)
            if (v.ty, name) in METHODS:
                return BM(v, METHODS[(v.ty, name)], name)
            if ("*", name) in METHODS:
                return BM(v, METHODS[("*", name)], name)
            raise Unsupported(f"attribute {v.ty}.{name} has no contract")
        if isinstance(v, SuperProxy):
            mro = (self.heap[v.self.id][1] if isinstance(v.self, Ref) else v.self).__mro__
            k = mro.index(v.cls)
            for c in mro[k + 1:]:
                if name in c.__dict__:
                    m = c.__dict__[name]
                    if c is object:
                        return Bi(lambda ex, a, k: None, name)
                    if isinstance(m, property):
                        return self.call_method_raw(v.self, m.fget, c, [], {})
                    return Bi(lambda ex, a, k, m=m, c=c: ex.call_method_raw(v.self, m, c, a, k), name)
            raise PyRaise(AttributeError, (name,), self.curline)
        if isinstance(v, (Seq,)):
            ty = "set" if v.kind == "set" else "list"
            if (ty, name) in METHODS and name in ("index", "count", "copy", "union", "intersection", "difference", "issubset", "tolist", "isdisjoint", "issuperset", "symmetric_difference"):
                return BM(v, METHODS[(ty, name)], name)
            if (ty, name) in ATTRS:
                return ATTRS[(ty, name)](self, v)
            raise Unsupported(f"mutation or attribute {name} of a frozen sequence")
        if isinstance(v, DMap):
            if ("dict", name) in METHODS and name in ("items", "keys", "values", "get", "copy"):
                return BM(v, METHODS[("dict", name)], name)
            raise Unsupported(f"mutation of a frozen dict ({name})")
        if isinstance(v, (dict, list, set, frozenset)):
            ty = "dict" if isinstance(v, dict) else "list" if isinstance(v, list) else "set"
            if (ty, name) in METHODS and name in ("items", "keys", "values", "get", "copy", "index", "count", "union", "intersection", "difference", "issubset"):
                return BM(v, METHODS[(ty, name)], name)
            raise Unsupported(f"mutation of a module-level {ty}")
        if isinstance(v, tuple):
            if ("tuple", name) in METHODS:
                return BM(v, METHODS[("tuple", name)], name)
            raise PyRaise(AttributeError, (name,), self.curline)
        if isinstance(v, str) and hasattr(str, name):
            return BM(v, lambda ex, s, a, k: ex.strmethod(s, name, a, k), name)
        if is_z3(v) or isinstance(v, (int, float, bool)):
            if name in ("real", "numerator"):
                return v
            if name == "imag":
                return 0
            if ("num", name) in METHODS:
                return BM(v, METHODS[("num", name)], name)
            raise PyRaise(AttributeError, (name,), self.curline)
        if v is None:
            raise PyRaise(AttributeError, (name,), self.curline)
        if isinstance(v, type):
            m = None
            try:
                m = inspect.getattr_static(v, name)
            except AttributeError:
                raise PyRaise(AttributeError, (name,), self.curline)
            if isinstance(m, classmethod):
                return BM(v, m.__func__, name)
            if isinstance(m, staticmethod):
                return m.__func__
            return getattr(v, name)
        if isinstance(v, types.MethodType) and name == "__func__":
            return v.__func__
        if isinstance(v, Func):
            if name == "__name__":
                return v.name
            raise Unsupported("function attribute")
        try:
            return getattr(v, name)
        except AttributeError:
            raise PyRaise(AttributeError, (name,), self.curline)

    def strmethod(self, s, name, a, k):
        a = [self.unraw(x) for x in a]
        if any(x is _MISSING for x in a) or k:
            if name == "format":
                return Opq(self.skolem("fmt", U), "Str")
            raise Unsupported("string method on symbolic")
        return getattr(s, name)(*a)

    def setattr(self, v, name, val):
        v = self.res(v)
        if isinstance(v, Ref):
            o = self.heap[v.id]
            if isinstance(o, tuple) and isinstance(o[0], str) and o[0] == "inst":
                p = self.find_method(o[1], name)
                if isinstance(p, property):
                    if p.fset is None:
                        raise PyRaise(AttributeError, (name,), self.curline)
                    self.call_method_raw(v, p.fset, o[1], [val], {})
                    return
                if v.id in self.thawed:
                    raise Unsupported("assignment to an attribute of an object taken from a sequence")
                self.heap[v.id] = ("inst", o[1], {**o[2], name: val})
                return
        if isinstance(v, Opq) and (v.ty, "__setattr__") in METHODS:
            return METHODS[(v.ty, "__setattr__")](self, v, [name, val], {})
        raise Unsupported("attribute assignment")

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, s, fr):
        self.curline = f"{fr.name}:{getattr(s, 'lineno', '?')}"
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def st_Pass(self, s, fr):
        pass

    def st_Import(self, s, fr):
        for a in s.names:
            import importlib

            m = importlib.import_module(a.name)
            self.assign(fr, a.asname or a.name.split(".")[0], m if a.asname else __import__(a.name))

    def st_ImportFrom(self, s, fr):
        import importlib

        if s.level:
            raise Unsupported("relative import in function")
        m = importlib.import_module(s.module)
        for a in s.names:
            self.assign(fr, a.asname or a.name, getattr(m, a.name))

    def st_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value else None)

    def st_Break(self, s, fr):
        raise BreakEx()

    def st_Continue(self, s, fr):
        raise ContinueEx()

    def st_Nonlocal(self, s, fr):
        fr.nonlocal_.update(s.names)

    def st_Global(self, s, fr):
        fr.global_.update(s.names)

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.bind(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            new = self.augop(s.op, cur, self.ev(s.value, fr))
            self.assign(fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented target")

    def augop(self, op, cur, v):
        cur = self.res(cur)
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and isinstance(self.heap[cur.id], Seq) and self.heap[cur.id].kind == "list":
            METHODS[("list", "extend")](self, cur, [v], {})
            return cur
        if isinstance(op, ast.Add) and isinstance(cur, Ref) and is_counter(self, cur) and is_counter(self, v):
            return counter_add(self, cur, v)
        if isinstance(cur, Ref) and isinstance(self.heap[cur.id], Seq) and self.heap[cur.id].kind == "set" and isinstance(op, ast.BitOr):
            METHODS[("set", "update")](self, cur, [v], {})
            return cur
        if isinstance(cur, Ref) and isinstance(self.heap[cur.id], tuple):
            nm = {ast.Add: "__iadd__", ast.Sub: "__isub__", ast.Mult: "__imul__"}.get(type(op))
            m = nm and self.find_method(self.heap[cur.id][1], nm)
            if m:
                return self.call_method_raw(cur, m, self.heap[cur.id][1], [v], {})
        return self.binop(op, cur, v)

    def bind(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.toseq(v)
            stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                if not all(isinstance(p, Unit) for p in s.parts):
                    raise Unsupported("starred unpacking of symbolic length")
                k = stars[0]
                after = len(t.elts) - k - 1
                xs = [p.v for p in s.parts]
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise(ValueError, (), self.curline)
                for e, x in zip(t.elts[:k], xs):
                    self.bind(e, x, fr)
                self.bind(t.elts[k].value, self.newlist(Seq([Unit(x) for x in xs[k:len(xs) - after]])), fr)
                for e, x in zip(t.elts[k + 1:], xs[len(xs) - after:]):
                    self.bind(e, x, fr)
                return
            if all(isinstance(p, Unit) for p in s.parts):
                if len(s.parts) != len(t.elts):
                    raise PyRaise(ValueError, ("unpack",), self.curline)
                for e, p in zip(t.elts, s.parts):
                    self.bind(e, p.v, fr)
            else:
                n = self.length(s)
                if not self.decide(rv(n) == len(t.elts)):
                    raise PyRaise(ValueError, ("unpack",), self.curline)
                for k, e in enumerate(t.elts):
                    self.bind(e, self.index(s, k), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                d = self.deref(o)
                if isinstance(d, DMap):
                    METHODS[("dict", "pop")](self, o, [k], {})
                elif isinstance(d, Seq):
                    METHODS[("list", "pop")](self, o, [k], {})
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def st_If(self, s, fr):
        if self.decide(self.truth(self.ev(s.test, fr))):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_Assert(self, s, fr):
        if not self.decide(self.truth(self.ev(s.test, fr))):
            raise PyRaise(AssertionError, (), self.curline)

    def st_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(self, "_curexc", None)
            if e is None:
                raise PyRaise(RuntimeError, (), self.curline)
            raise e
        e = s.exc
        line = self.curline
        if isinstance(e, ast.Call):
            c = self.ev(e.func, fr)
        else:
            c = self.ev(e, fr)
        if isinstance(c, Ref) and isinstance(self.heap[c.id], tuple):
            c = self.heap[c.id][1]
        if isinstance(c, type) and issubclass(c, BaseException):
            raise PyRaise(c, (), line)
        if isinstance(c, (Func, types.FunctionType, BM)):
            r = self.ev(e, fr)
            if isinstance(r, Ref):
                raise PyRaise(self.heap[r.id][1], (), line)
        raise Unsupported("raise of unknown exception")

    def st_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        match = any(issubclass(e.cls, x) for x in ts)
                    if match:
                        if h.name:
                            self.assign(fr, h.name, self.alloc(("inst", e.cls, {"args": ()})))
                        old = getattr(self, "_curexc", None)
                        self._curexc = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            self._curexc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            if s.finalbody:
                import sys as _s

                if isinstance(_s.exc_info()[1], (Unsupported, Infeasible)):
                    pass
                else:
                    self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        raise Unsupported("with statement")

    def st_FunctionDef(self, s, fr):
        self.assign(fr, s.name, self.mkfunc(s, fr, s.name))

    def mkfunc(self, node, fr, name):
        a = node.args
        d = tuple(self.ev(x, fr) for x in a.defaults)
        kd = {k.arg: self.ev(x, fr) for k, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None}
        if getattr(node, "decorator_list", None):
            raise Unsupported("decorated nested function")
        f = fr
        file = fr.glob.get("__file__", "")
        return Func(node, f, fr.glob, f"{fr.name}.{name}", d, kd, fr.cls, file)

    # ---------------------------------------------------------------- loops
    def st_For(self, s, fr):
        it = self.evonce(s.iter, fr)
        seq = self.toseq(it)

        def body(x):
            self.bind(s.target, x, fr)
            self.block(s.body, fr)

        broke = False
        try:
            self.iterate(seq, body)
        except BreakEx:
            broke = True
        if not broke:
            self.block(s.orelse, fr)

    def iterate(self, seq, body):
        seq = self.need_distinct(seq)
        if seq.kind == "accvalues":
            raise Unsupported("iteration over an accumulated dict")
        for p in seq.parts:
            if isinstance(p, Unit):
                try:
                    body(p.v)
                except ContinueEx:
                    pass
            elif isinstance(p, Pull):
                self.summarise(p.n, lambda i, p=p: body(subst(p.v, [(p.i, i)])))
            elif isinstance(p, Flat):
                self.summarise(p.n, lambda i, p=p: self.iterate(subst(p.s, [(p.i, i)]), body))
            elif isinstance(p, Cond):
                done = False
                for c, t in p.cases:
                    if self.decide(c):
                        self.iterate(t, body)
                        done = True
                        break
            else:
                raise Unsupported("iteration over an accumulator")

    def st_While(self, s, fr):
        n = 0
        # concrete unrolling first (bounded data); symbolic trip counts go through the loop rule
        test = self.truth(self.ev(s.test, fr))
        if isinstance(test, bool) or z3.is_true(z3.simplify(rv(test))) or z3.is_false(z3.simplify(rv(test))) or self.bounded:
            while True:
                if not self.decide(test):
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                n += 1
                if n > (12 if self.bounded else 200):
                    raise Unsupported("while loop did not finish within the unrolling bound")
                test = self.truth(self.ev(s.test, fr))
        else:
            try:
                self.summarise(None, lambda i: self.block(s.body, fr), lambda: self.truth(self.ev(s.test, fr)))
            except BreakEx:
                return
            self.block(s.orelse, fr)

    def summarise(self, n, body, test=None):
        """the loop rule; n symbolic trip count (None: while loop with guard `test`)"""
        self.stats["loops"] += 1
        if n is not None:
            n = z3.simplify(rv(n))
            if z3.is_int_value(n) and n.as_long() <= 64:
                for k in range(n.as_long()):
                    try:
                        body(z3.IntVal(k))
                    except ContinueEx:
                        pass
                return
        while_ = n is None
        if while_:
            n = self.skolem("trips", z3.IntSort())
        if len(self.idx) > 4:
            raise Unsupported("loop nesting")
        pre = self.snapshot()
        basepc = list(self.pc)
        i = self.fresh_idx("i")
        mods = {}  # loc -> placeholder info
        allocated = set(pre[0])
        while True:
            self.restore(pre)
            for loc, ph in mods.items():
                self.install(loc, ph["value"])
            ph_state = self.snapshot()
            self.idx.append(i)
            self.pc = basepc + [i >= 0, i < n]
            try:
                def one():
                    if while_ and not self.decide(test()):
                        raise Infeasible()
                    return body(i)

                paths = self.explore(one)
            finally:
                self.idx.pop()
                self.pc = list(basepc)
            new = {}
            for p in paths:
                if p.kind != "ok":  # no iteration follows; what it does is run again below, from the state it starts in
                    continue
                for loc, v in self.diff(ph_state, p.snap):
                    if loc not in mods:
                        if not self.same_value(loc, pre, p, v):
                            new[loc] = True
                    elif loc[0] in ("var", "attr") and is_z3(mods[loc]["value"]) and z3.is_int(mods[loc]["value"]) and is_z3(v) and z3.is_real(v) and not mods[loc].get("real"):
                        mods[loc]["value"] = z3.Real(f"acc!{self.uid()}")
                        mods[loc]["real"] = True
                        new[loc] = None
                    elif loc[0] in ("var", "attr") and is_z3(mods[loc]["value"]) and isinstance(v, float) and z3.is_int(mods[loc]["value"]) and not mods[loc].get("real"):
                        mods[loc]["value"] = z3.Real(f"acc!{self.uid()}")
                        mods[loc]["real"] = True
                        new[loc] = None
            if not new:
                break
            for loc, flag in new.items():
                if flag:
                    mods[loc] = self.placeholder(loc, pre, paths, ph_state)
        # ---- per-path effects
        normal = [p for p in paths if p.kind == "ok"]
        exits = [p for p in paths if p.kind != "ok"]
        cond = {id(p): zand(p.pc) for p in paths}
        effects = {}
        for loc, ph in mods.items():
            row = []
            for p in normal:
                self.restore(p.snap)
                row.append((cond[id(p)], self.readloc(loc, pre, ph)))
            effects[loc] = row
        self.restore(pre)
        self.pc = list(basepc)
        closed, subs = self.solve(mods, effects, i, n, pre)
        exitcond = None
        if exits:
            exitcond = z3.simplify(z3.Or(*[cond[id(p)] for p in exits]))
            if subs:
                exitcond = z3.substitute(exitcond, *subs)
            self.check_noacc(exitcond, mods)
        cover = None
        # which way does the loop end?
        way = True
        if exits:
            way = self.decide_free("loop-completes")
        if way:
            if while_:
                self.pc.append(n >= 0)
            if exits:
                self.assume_all(i, n, z3.Not(exitcond))
                if subs:  # the last iteration matters most when the condition depends on accumulated values
                    self.pc.append(z3.simplify(z3.Implies(n >= 1, z3.Not(z3.substitute(exitcond, (i, n - 1))))))
                if _hask(exitcond) and len(normal) <= 4:  # a loop in the body ends early: say what the iterations that complete did
                    c = z3.Or(*[cond[id(p)] for p in normal])
                    c = z3.substitute(c, *subs) if subs else c
                    known = not any(is_z3(ph["value"]) and mentions(c, ph["value"]) for ph in mods.values()) and not any(x.get_id() in getattr(self, "accreads", {}) for x in zconsts(c))
                    for at in (rv(0), n - 1) if known else ():
                        self.pc.append(z3.simplify(z3.Implies(n >= 1, z3.substitute(c, (i, at)))))
            self.restore(pre)
            for loc, A in closed.items():
                self.install(loc, A(n))
            if while_:
                self.pc += self.while_facts(test, closed, pre, i, n)
            self.check_feasible()
        else:
            k = self.skolem("k", z3.IntSort())
            if k.num_args() == 0:
                self.idxconsts[k.get_id()] = k
            self.pc += [k >= 0] + ([] if while_ else [k < n])
            self.pc.append(z3.substitute(exitcond, (i, k)))
            if not z3.is_false(exitcond):
                self.assume_all(i, k, z3.Not(exitcond))
            self.restore(pre)
            for loc, A in closed.items():
                self.install(loc, A(k))
            if while_:
                self.pc += self.while_facts(test, closed, pre, i, k, exitcase=True)
            self.check_feasible()
            if while_ and not self.decide(test()):
                raise Infeasible()
            body_ok = False
            try:
                body(k)
                body_ok = True
            except ContinueEx:
                body_ok = True
            if body_ok:
                raise Infeasible()

    def while_facts(self, test, closed, pre, i, n, exitcase=False):
        """forall t<n: guard(t); not guard(n)"""
        save = self.snapshot()
        t = self.fresh_idx("t")
        out = []
        self.restore(pre)
        for loc, A in closed.items():
            self.install(loc, A(t))
        base = list(self.pc)
        self.pc = base + [t >= 0]
        g = rv(self.merge_eval(test))
        self.pc = base
        self.restore(pre)
        for loc, A in closed.items():
            self.install(loc, A(n))
        gn = rv(self.merge_eval(test))
        self.restore(save)
        out.append(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), g)))
        # the instance that matters most for linear guards
        out.append(z3.Implies(n >= 1, z3.substitute(g, (t, n - 1))))
        out.append(gn if exitcase else z3.Not(gn))
        return out

    def decide_free(self, name):
        """nondeterministic fork (both ways explored)"""
        b = z3.Bool(f"{name}!{self.uid()}")
        return self.decide(b)

    def check_feasible(self):
        if self.check(self.pc, timeout=2000) == z3.unsat:
            raise Infeasible()

    def assume_all(self, i, n, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        j = self.fresh_idx("a")
        self.pc.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.substitute(c, (i, j)))))

    def check_noacc(self, t, mods):
        for loc, ph in mods.items():
            if is_z3(ph["value"]) and mentions(t, ph["value"]):
                raise Unsupported(f"loop condition depends on {loc}, which has no solved recurrence")
        for c in zconsts(t):
            if c.get_id() in getattr(self, "accreads", {}):
                raise Unsupported("loop effect depends on a dict accumulator")

    def install(self, loc, v):
        if loc[0] == "var":
            self.frames[loc[1]][loc[2]] = v
        elif loc[0] == "heap":
            self.heap[loc[1]] = v
        elif loc[0] == "attr":
            o = self.heap[loc[1]]
            self.heap[loc[1]] = ("inst", o[1], {**o[2], loc[2]: v})

    def rawread(self, loc):
        if loc[0] == "var":
            return self.frames[loc[1]].get(loc[2], UNBOUND)
        if loc[0] == "heap":
            return self.heap[loc[1]]
        return self.heap[loc[1]][2].get(loc[2], UNBOUND)

    def diff(self, a, b):
        out = []
        for k, v in a[0].items():
            w = b[0][k]
            if w is v or same(v, w):
                continue
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "inst":
                for f in set(v[2]) | set(w[2]):
                    x, y = v[2].get(f, UNBOUND), w[2].get(f, UNBOUND)
                    if x is not y and not same(x, y):
                        out.append((("attr", k, f), y))
            else:
                out.append((("heap", k), w))
        for f, vs in a[1].items():
            ws = b[1].get(f, {})
            for nme in set(vs) | set(ws):
                x, y = vs.get(nme, UNBOUND), ws.get(nme, UNBOUND)
                if x is not y and not same(x, y):
                    out.append((("var", f, nme), y))
        return out

    def placeholder(self, loc, pre, paths, ph_state):
        self.restore(pre)
        v0 = self.rawread(loc)
        k = self.uid()
        ph = {"v0": v0, "k": k, "kind": None}
        if loc[0] == "heap":
            if isinstance(v0, Seq):
                ph["value"] = Seq([Acc(k)], v0.kind)
                ph["kind"] = "list"
            elif isinstance(v0, DMap):
                ph["value"] = DMap([Acc(k)], v0.default)
                ph["kind"] = "dict"
            else:
                raise Unsupported("object replaced in a loop")
            return ph
        if isinstance(v0, bool) or is_z3(v0) and z3.is_bool(v0):
            ph["value"] = z3.Bool(f"acc!{k}")
            ph["kind"] = "scalar"
        elif isinstance(v0, int) or is_z3(v0) and z3.is_int(v0):
            ph["value"] = z3.Int(f"acc!{k}")
            ph["kind"] = "scalar"
        elif isinstance(v0, float) or is_z3(v0) and z3.is_real(v0):
            ph["value"] = z3.Real(f"acc!{k}")
            ph["kind"] = "scalar"
        elif isinstance(v0, Ref) and isinstance(self.heap[v0.id], Seq) and self.heap[v0.id].kind in ("list", "set"):
            # rebinding of a list variable: only its content is tracked
            r = self.alloc(Seq([Acc(k)], self.heap[v0.id].kind))
            pre[0][r.id] = self.heap[r.id]
            ph["value"] = r
            ph["kind"] = "listvar"
            ph["content0"] = self.heap[v0.id]
        elif isinstance(v0, tuple) and not isinstance(v0, NT):
            ph["value"] = Seq([Acc(k)], "tuple")
            ph["kind"] = "tuplevar"
        else:
            ph["value"] = AccVar(k)
            ph["kind"] = "opaque"
        return ph

    def readloc(self, loc, pre, ph):
        v = self.rawread(loc)
        if ph["kind"] == "listvar":
            if isinstance(v, Ref) and isinstance(self.heap[v.id], Seq) and (v.id not in pre[0] or v.id == ph["value"].id):
                return self.freeze(self.heap[v.id], pre)
            return AccVar(ph["k"])
        v = self.freeze(v, pre)
        return v

    def solve(self, mods, effects, i, n, pre):
        """closed forms: loc -> (index term -> value before that iteration)"""
        closed, subs = {}, []
        pending = dict(effects)
        accs = {loc: ph["value"] for loc, ph in mods.items() if is_z3(ph["value"])}
        unresolved = dict(accs)
        # cheap pass for constant recurrences first, then repeat
        progress, guessed = True, -1
        while pending and progress:
            progress = False
            for loc in list(pending):
                row = pending[loc]
                if subs:
                    row = [(z3.substitute(c, *subs), subst(v, subs)) for c, v in row]
                A = self.solve1(loc, mods[loc], row, i, n, unresolved, pre)
                if A is not None:
                    closed[loc] = A
                    del pending[loc]
                    if loc in unresolved:
                        acc = unresolved.pop(loc)
                        val = A(i)
                        if is_z3(val) or isinstance(val, (int, float, bool)):
                            val = rv(val)
                            if val.sort() != acc.sort():
                                val = toreal(val)
                            subs.append((acc, val))
                            subs = [(a, z3.substitute(b, (acc, val))) if not z3.eq(a, acc) else (a, b) for a, b in subs]
                    progress = True
            if not progress and pending and guessed != len(subs):
                for loc, A in self.linear_invariants(pending, mods, subs, unresolved, i, n).items():
                    closed[loc] = A
                    del pending[loc]
                    acc = unresolved.pop(loc)
                    val = rv(A(i))
                    subs.append((acc, val))
                    subs = [(a, z3.substitute(b, (acc, val))) if not z3.eq(a, acc) else (a, b) for a, b in subs]
                    progress = True
                guessed = len(subs)
                if progress:
                    for loc in pending:
                        pending[loc] = [r for r in pending[loc] if not z3.is_expr(r[0]) or self.check(self.pc + [i >= 0, i < rv(n), z3.substitute(r[0], *subs)], 1500) != z3.unsat] or pending[loc]
        for loc in pending:
            kind = mods[loc]["kind"]
            if loc[0] == "heap":
                # content unknown after the loop
                v0 = mods[loc]["v0"]
                bad = Seq([Acc(mods[loc]["k"])], v0.kind) if isinstance(v0, Seq) else DMap([Acc(-mods[loc]["k"])], v0.default)
                self._poison = getattr(self, "_poison", []) + [loc]
                closed[loc] = lambda t, bad=bad: bad
            else:
                closed[loc] = lambda t: POISON
        return closed, subs

    def same_value(self, loc, pre, path, v):
        """an iteration ends with the value the variable had before it"""
        if loc[0] == "heap" or path.kind != "ok":
            return False
        snap = self.snapshot()
        self.restore(pre)
        w = self.rawread(loc)
        self.restore(snap)
        if not all(is_z3(x) or isinstance(x, (bool, int, float)) for x in (v, w)):
            return False
        v, w = rv(v), rv(w)
        if z3.is_bool(v) != z3.is_bool(w):
            return False
        if z3.is_bool(v):
            if z3.is_true(v) or z3.is_false(v):
                return False
        else:
            d = z3.simplify(toreal(v) - toreal(w), som=True)
            if z3.is_rational_value(d) or z3.is_int_value(d):
                return d.as_fraction() == 0
        return self.check(self.pc + [zand(path.pc), self.as_sort(v, w) != w if z3.is_bool(v) else toreal(v) != toreal(w)], 1500) == z3.unsat

    def linear_invariants(self, pending, mods, subs, unresolved, i, n):
        """variables that go on as they start: x = x0 + d*i with d in -1, 0, 1 (d = 0 for truth values), as the first iteration suggests,
        proved inductive together (those that are not are dropped until the rest is)"""
        rows = {}
        for loc in pending:
            ph = mods[loc]
            if ph["kind"] != "scalar" or loc not in unresolved or not self.tagfree(*[x for c in pending[loc] for x in c]):
                continue
            row = [(z3.substitute(c, *subs), subst(v, subs)) if subs else (c, v) for c, v in pending[loc]]
            if row and all(is_z3(v) or isinstance(v, (int, float, bool)) for _, v in row):
                rows[loc] = [(c, rv(v)) for c, v in row]
        if not rows:
            return {}
        here = self.pc + [i >= 0, i < rv(n)]
        start = [a == self.as_sort(rv(mods[loc]["v0"]), a) for loc, a in unresolved.items() if is_z3(mods[loc]["v0"]) or isinstance(mods[loc]["v0"], (int, float, bool))]

        def proved(hyp, row, want):
            return all(self.check(here + hyp + [c, self.as_sort(v, want) != want], 1500) == z3.unsat for c, v in row)

        guess = {}
        for loc, row in rows.items():
            acc, v0 = unresolved[loc], self.as_sort(rv(mods[loc]["v0"]), unresolved[loc])
            for d in (0,) if z3.is_bool(acc) else (0, 1, -1):
                if proved(start + [i == 0], row, v0 if d == 0 else v0 + d):
                    guess[loc] = d
                    break

        def at(loc, t):
            acc, v0 = unresolved[loc], self.as_sort(rv(mods[loc]["v0"]), unresolved[loc])
            return v0 if not guess[loc] else v0 + guess[loc] * (t if z3.is_int(acc) else z3.ToReal(t))

        while guess:
            hyp = [unresolved[loc] == at(loc, i) for loc in guess]
            bad = [loc for loc in guess if not proved(hyp, rows[loc], at(loc, i + 1))]
            if not bad:
                break
            for loc in bad:
                del guess[loc]
        fixed = {loc: (rv(mods[loc]["v0"]), guess[loc], unresolved[loc]) for loc in guess}
        out = {}
        for loc, (v0, d, acc) in fixed.items():
            def A(t, v0=v0, d=d, acc=acc):
                v = self.as_sort(v0, acc)
                t = rv(t)
                return z3.simplify(v if not d else v + d * (t if z3.is_int(acc) else z3.ToReal(t)))

            out[loc] = A
        return out

    def as_sort(self, v, like):
        return v if v.sort() == like.sort() else toreal(v)

    def tagfree(self, *vals):
        tags = getattr(self, "accreadlist", [])
        return not any(mentions(v, h) or mentions(v, c) for v in vals for _, _, h, c in tags)

    def solve1(self, loc, ph, row, i, n, unresolved, pre):
        v0 = ph["v0"]
        mine = unresolved.get(loc)

        def dep(x, own=True):
            return any(mentions(x, a) for l, a in unresolved.items() if own or l != loc)

        row = self.drop_tags(row, ph)
        if row is None:
            return None
        if not row:
            return lambda t: v0
        kind = ph["kind"]
        if kind in ("list", "listvar", "tuplevar"):
            k = ph["k"]
            cases = []
            for c, v in row:
                if not isinstance(v, Seq) or not v.parts or not (isinstance(v.parts[0], Acc) and v.parts[0].k == k):
                    return self.overwrite(loc, ph, row, i, n, dep)
                tail = Seq(v.parts[1:], v.kind)
                if mentions(tail, Acc(k)):
                    return None
                cases.append((c, tail))
            uniform = all(same(t, cases[0][1]) for _, t in cases)
            if dep([t for _, t in cases]) or (not uniform and dep([c for c, _ in cases])):
                return None
            if not self.tagfree(*[x for c in cases for x in c]):
                return None
            body = self.mergeseq(cases, i, n, uniform)
            base = v0 if kind == "list" else (ph["content0"] if kind == "listvar" else self.toseq(v0))

            def A(t, base=base, body=body):
                j = self.fresh_idx("i")
                s = Seq(list(base.parts) + self.mkflat(t, j, subst(body, [(i, j)])), base.kind)
                if kind == "listvar":
                    return self.alloc(s)
                return s

            return A
        if kind == "dict":
            k = ph["k"]
            cases = []
            for c, v in row:
                if not isinstance(v, DMap) or not v.parts or not (isinstance(v.parts[0], Acc) and v.parts[0].k == k):
                    return None
                ops = []
                for p in v.parts[1:]:
                    if not isinstance(p, DOps):
                        return None
                    ops += p.seq.parts
                cases.append((c, Seq(ops)))
            uniform = all(same(t, cases[0][1]) for _, t in cases)
            if dep([t for _, t in cases]) or (not uniform and dep([c for c, _ in cases])):
                return None
            if not self.tagfree(*[t for _, t in cases]) or (not uniform and not self.tagfree(*[c for c, _ in cases])):
                return None
            body = self.mergeseq(cases, i, n, uniform)

            def A(t, body=body):
                j = self.fresh_idx("i")
                ops = Seq(self.mkflat(t, j, subst(body, [(i, j)])))
                return self.dict_after(v0, ops)

            return A
        if kind == "scalar":
            acc = mine
            isb = z3.is_bool(acc)
            vals = []
            for c, v in row:
                if not (is_z3(v) or isinstance(v, (int, float, bool))):
                    return self.overwrite(loc, ph, row, i, n, dep)
                vals.append((c, rv(v)))
            if dep([v for _, v in vals], own=False):
                return None
            if isb:
                return self.solvebool(vals, acc, v0, i, n, dep)
            if all(not mentions(v, acc) for _, v in vals):
                return self.overwrite(loc, ph, row, i, n, dep)
            ds = []
            for c, v in vals:
                a = acc
                if v.sort() != a.sort():
                    v, a = toreal(v), toreal(a)
                d = z3.simplify(v - a, som=True)
                if mentions(d, acc):
                    return None
                ds.append((c, d))
            uniform = all(z3.eq(d, ds[0][1]) for _, d in ds)
            if not uniform and dep([c for c, _ in ds]):
                return None
            if not uniform and not self.tagfree(*[c for c, _ in ds]):
                return None
            g = self.merge(ds) if not uniform else ds[0][1]

            def A(t, g=g):
                j = self.fresh_idx("i")
                return zadd(v0, self.bsum(t, j, z3.substitute(rv(g), (i, j))))

            return A
        return self.overwrite(loc, ph, row, i, n, dep)

    def drop_tags(self, row, ph):
        """dict accumulators: path (key absent, set(key,v)) is add(key,v) to zero"""
        tags = getattr(self, "accreadlist", [])
        if ph["kind"] != "dict":
            if not tags or not any(mentions(c, h) for c, _ in row for _, _, h, _ in tags):
                return row
            merged = []
            for cnd, v in row:
                for t, (c2, v2) in enumerate(merged):
                    if same(v, v2):
                        merged[t] = (z3.simplify(z3.Or(c2, cnd)), v2)
                        break
                else:
                    merged.append((cnd, v))
            return [(self.drop_tag(cnd, [h for _, _, h, _ in tags]), v) for cnd, v in merged]
        mytags = [(key, h, c) for k, key, h, c in tags if k == ph["k"]]
        if not mytags:
            return row
        out = []
        for cnd, v in row:
            if not isinstance(v, DMap):
                return None
            parts = []
            for p in v.parts:
                if isinstance(p, DOps):
                    ops = []
                    for u in p.seq.parts:
                        if isinstance(u, Unit) and u.v[0] == "set" and (is_z3(u.v[2]) or isinstance(u.v[2], (int, float))):
                            for key, h, c in mytags:
                                if same(key, u.v[1]) and self.check([cnd, h], 1000) == z3.unsat:
                                    u = Unit(("add", u.v[1], u.v[2]))
                                    break
                        ops.append(u)
                    p = DOps(Seq(ops))
                parts.append(p)
            out.append((cnd, DMap(parts, v.default)))
        # key absent -> set default, key present -> nothing
        if len(out) == 2 and len(mytags) == 1:
            key, h, c = mytags[0]
            ops = [[u for p in v.parts if isinstance(p, DOps) for u in p.seq.parts] for _, v in out]
            a, b = (0, 1) if ops[0] else (1, 0)
            if (len(ops[a]) == 1 and not ops[b] and isinstance(ops[a][0], Unit) and ops[a][0].v[0] in ("set", "add") and same(key, ops[a][0].v[1])
                    and not mentions(ops[a][0].v[2], h) and not mentions(ops[a][0].v[2], c)
                    and self.check([out[a][0], h], 1000) == z3.unsat and self.check([out[b][0], z3.Not(h)], 1000) == z3.unsat):
                ca, cb = z3.substitute(out[a][0], (h, z3.BoolVal(False))), z3.substitute(out[b][0], (h, z3.BoolVal(True)))
                if self.check([ca != cb], 1000) == z3.unsat:
                    u = ops[a][0].v
                    return [(z3.simplify(ca), DMap(list(out[a][1].parts[:1]) + [DOps(Seq([Unit(("def", u[1], u[2]))]))], out[a][1].default))]
        # merge paths with identical effects
        merged = []
        for cnd, v in out:
            for t, (c2, v2) in enumerate(merged):
                if self.sameops(v, v2):
                    merged[t] = (z3.simplify(z3.Or(c2, cnd)), v2)
                    break
            else:
                merged.append((cnd, v))
        # eliminate tags from conditions when irrelevant
        fin = []
        for cnd, v in merged:
            fin.append((self.drop_tag(cnd, [h for _, h, _ in mytags]), v))
        return fin

    def drop_tag(self, cnd, hs):
        """the condition without the tags it does not depend on"""
        for h in hs:
            if mentions(cnd, h):
                t, f = z3.substitute(cnd, (h, z3.BoolVal(True))), z3.substitute(cnd, (h, z3.BoolVal(False)))
                if self.check([t != f], 1000) == z3.unsat:
                    cnd = z3.simplify(t)
        return cnd

    def sameops(self, a, b):
        if same(a, b):
            return True
        if len(a.parts) != len(b.parts):
            return False
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, DOps) and isinstance(q, DOps):
                if len(p.seq.parts) != len(q.seq.parts):
                    return False
                for x, y in zip(p.seq.parts, q.seq.parts):
                    if not (isinstance(x, Unit) and isinstance(y, Unit) and x.v[0] == y.v[0]):
                        return False
                    for u, w in zip(x.v[1:], y.v[1:]):
                        if not same(u, w):
                            if not ((is_z3(u) or isinstance(u, (int, float))) and (is_z3(w) or isinstance(w, (int, float)))):
                                return False
                            if self.check([toreal(u) != toreal(w)], 1000) != z3.unsat:
                                return False
            elif not same(p, q):
                return False
        return True

    def dict_after(self, v0, ops):
        v0 = self.todict(v0)
        if not ops.parts:
            return v0
        kinds = set()
        self.seq_ops_kinds(ops, kinds)
        if not v0.parts and kinds == {"set"} and len(ops.parts) == 1:
            p = ops.parts[0]
            if isinstance(p, Pull):
                key, val, g, n, i = p.v[1], p.v[2], None, p.n, p.i
            elif isinstance(p, Flat) and len(p.s.parts) == 1 and isinstance(p.s.parts[0], Cond) and len(p.s.parts[0].cases) == 1 and len(p.s.parts[0].cases[0][1].parts) == 1 and isinstance(p.s.parts[0].cases[0][1].parts[0], Unit):
                g, u = p.s.parts[0].cases[0]
                key, val, n, i = u.parts[0].v[1], u.parts[0].v[2], p.n, p.i
            else:
                key = None
            if key is not None:
                try:
                    j1, j2 = self.fresh_idx("u"), self.fresh_idx("u")
                    inj = z3.ForAll([j1, j2], z3.Implies(z3.And(0 <= j1, j1 < j2, j2 < n), z3.Not(rv(self.eq(subst(key, [(i, j1)]), subst(key, [(i, j2)]))))))
                    if self.prove(inj, 3000):
                        return DMap([DPull(n, i, key, val, self.make_look(n, i, key), g)], v0.default)
                except Unsupported:
                    pass
        if all(isinstance(p, Unit) for p in ops.parts):
            d = v0
            for u in ops.parts:
                if u.v[0] != "set":
                    break
                d = self.dset(d, u.v[1], u.v[2])
            else:
                return d
        parts = list(v0.parts)
        return DMap(parts + [DOps(ops)], v0.default)

    def solvebool(self, vals, acc, v0, i, n, dep):
        # every path: new == acc, or acc-free
        if all(not mentions(v, acc) for _, v in vals):
            return self.overwrite(None, {"v0": v0}, vals, i, n, dep)
        up, down = [], []
        for c, v in vals:
            v = z3.simplify(v)
            if z3.eq(v, acc):
                continue
            t1, t0 = z3.simplify(z3.substitute(v, (acc, z3.BoolVal(True)))), z3.simplify(z3.substitute(v, (acc, z3.BoolVal(False))))
            if z3.is_true(t1):
                up.append(z3.And(c, t0))
            elif z3.is_false(t0):
                down.append(z3.And(c, z3.Not(t1)))
            else:
                return None
        if up and down:
            return None
        if dep(up + down) or not self.tagfree(*(up + down)):
            return None
        g = z3.simplify(z3.Or(*(up + down))) if up or down else z3.BoolVal(False)

        def A(t):
            j = self.fresh_idx("i")
            ex = z3.Exists([j], z3.And(j >= 0, j < t, z3.substitute(g, (i, j))))
            return z3.simplify(z3.Or(rv(v0), ex)) if up else z3.simplify(z3.And(rv(v0), z3.Not(ex)))

        return A

    def overwrite(self, loc, ph, row, i, n, dep):
        """the location is overwritten each iteration with a value free of loop-carried state"""
        own = ph.get("k")
        for c, v in row:
            if isinstance(v, AccVar) or v is POISON or has_accvar(v) or (own is not None and mentions(v, Acc(own))):
                return None
            if mentions(v, ph["value"]) if is_z3(ph.get("value")) else False:
                return None
        if dep([v for _, v in row]):
            return None
        uniform = all(same(v, row[0][1]) for _, v in row)
        if not uniform and (dep([c for c, _ in row]) or not self.tagfree(*[c for c, _ in row])):
            return None
        if not self.tagfree(*[v for _, v in row]):
            return None
        g = row[0][1] if uniform else self.merge(row)
        v0 = ph["v0"]

        def A(t):
            last = subst(g, [(i, z3.simplify(t - 1))])
            if loc is not None and loc[0] == "heap":
                return self.ite(t <= 0, v0, last)
            if isinstance(last, (Seq, DMap)) and not (isinstance(last, Seq) and last.kind == "tuple"):
                last = self.alloc(last)
            c = z3.simplify(t <= 0)
            if z3.is_true(c):
                return v0
            if z3.is_false(c):
                return last
            if v0 is not UNBOUND and not isinstance(v0, (Ref, AccVar)) and v0 is not POISON:
                try:
                    return self.ite(c, v0, last)
                except Unsupported:
                    pass
            return G([(c, v0 if not isinstance(v0, AccVar) else POISON), (z3.Not(c), last)])

        return A

    def mergeseq(self, cases, i, n, uniform):
        if uniform:
            return cases[0][1]
        # all units -> one unit of a merged value
        if all(len(s.parts) == 1 and isinstance(s.parts[0], Unit) for _, s in cases):
            m = self.merge([(c, s.parts[0].v) for c, s in cases])
            if not isinstance(m, G) or self._under(z3.And(i >= 0, i < n), lambda: self.valid(z3.Or(*[c for c, _ in m.cases]))):
                return Seq([Unit(m)])
        # group equal tails
        groups = []
        for c, s in cases:
            for t, (c2, s2) in enumerate(groups):
                if same(s, s2):
                    groups[t] = (z3.simplify(z3.Or(c2, c)), s2)
                    break
            else:
                groups.append((c, s))
        groups = [(c, s) for c, s in groups if s.parts]
        if len(groups) == 1:
            c, s = groups[0]
            if self._under(z3.And(i >= 0, i < n), lambda: self.valid(c)):
                return s
        return Seq([Cond(groups)])

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        v = m(e, fr)
        if isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ONESHOT and (e.func.id != "iter" or True):
            return self.mkiter(v)
        return v

    def evonce(self, e, fr):
        """a value that is iterated right away, once: no iterator object is needed"""
        m = getattr(self, "ev_" + type(e).__name__, None)
        if isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call):
            return m(e, fr)
        return self.ev(e, fr)

    def mkiter(self, v):
        """an iterator object: a sequence and a position, consumed as it is read"""
        v = self.res(v)
        if isinstance(v, Ref) and self.isiter(v):
            return v
        if isinstance(v, Opq):
            return v
        return self.alloc(("inst", IterObj, {"seq": self.toseq(v), "pos": 0}))

    def isiter(self, v):
        o = self.heap.get(v.id) if isinstance(v, Ref) else None
        return isinstance(o, tuple) and len(o) == 3 and o[0] == "inst" and o[1] is IterObj

    def iterpos(self, v, pos):
        if v.id in self.thawed:
            raise Unsupported("an iterator taken from a sequence")
        o = self.heap[v.id]
        self.heap[v.id] = ("inst", IterObj, {**o[2], "pos": pos})

    def ev_Constant(self, e, fr):
        return e.value

    def ev_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def ev_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.toseq(self.ev(x.value, fr))
                if not all(isinstance(p, Unit) for p in s.parts):
                    rest = [Unit(v) for v in out] + list(s.parts)
                    if x is e.elts[-1]:
                        return Seq(rest, "tuple")
                    raise Unsupported("starred in tuple")
                out += [p.v for p in s.parts]
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ev_List(self, e, fr):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts += self.toseq(self.ev(x.value, fr)).parts
            else:
                parts.append(Unit(self.ev(x, fr)))
        return self.alloc(Seq(parts))

    def ev_Set(self, e, fr):
        s = self.alloc(Seq([], "set"))
        for x in e.elts:
            METHODS[("set", "add")](self, s, [self.ev(x, fr)], {})
        return s

    def ev_Dict(self, e, fr):
        d = self.alloc(DMap([]))
        for k, v in zip(e.keys, e.values):
            if k is None:
                METHODS[("dict", "update")](self, d, [self.ev(v, fr)], {})
            else:
                kk = self.ev(k, fr)
                self.heap[d.id] = self.dset(self.heap[d.id], kk, self.ev(v, fr))
        return d

    def ev_JoinedStr(self, e, fr):
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.ev(x.value, fr)
                if isinstance(v, (str, int)) and not isinstance(v, bool) and x.format_spec is None:
                    out.append(str(v))
                else:
                    out.append(v)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        try:
            return Opq(self.fterm(f"fstr{len(out)}", [self.term(x) for x in out]), "Str")
        except Unsupported:
            return Opq(self.skolem("fstr", U), "Str")

    def ev_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)

    def ev_Lambda(self, e, fr):
        return self.mkfunc(e, fr, "<lambda>")

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(fr, e.target.id, v)
        return v

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_Starred(self, e, fr):
        raise Unsupported("starred")

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return self.slice(o, f(e.slice.lower), f(e.slice.upper), f(e.slice.step))
        return self.getitem(o, self.ev(e.slice, fr))

    def ev_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def getitem(self, o, k):
        o = self.res(o)
        k = self.res(k)
        d = self.deref(o)
        if isinstance(d, (DMap, dict)):
            has, v = self.dget(d, k)
            if has is True or (has is not False and self.decide(has)):
                return v
            if isinstance(d, DMap) and d.default is not None:
                if d.default == "counter":
                    return 0
                v = self.call(d.default, [], {})
                if isinstance(o, Ref):
                    self.heap[o.id] = self.dset(self.heap[o.id], k, v)
                return v
            raise PyRaise(KeyError, (k,), self.curline)
        if isinstance(d, (Seq, tuple, list, range)) and not (isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst") or isinstance(d, NT):
            if isinstance(k, slice):
                return self.slice(o, k.start, k.stop, k.step)
            if isinstance(k, tuple):
                r = o
                for x in k:
                    r = self.getitem(r, x)
                return r
            return self.index(o, k)
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst":
            m = self.find_method(d[1], "__getitem__")
            if m is not None:
                return self.call_method_raw(o, m, d[1], [k], {}) if isinstance(m, types.FunctionType) else m(self, o, [k], {})
            raise PyRaise(TypeError, (), self.curline)
        if isinstance(o, str):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(IndexError, (), self.curline)
        if isinstance(o, Opq) and (o.ty, "__getitem__") in METHODS:
            return METHODS[(o.ty, "__getitem__")](self, o, [k], {})
        if isinstance(o, type) or getattr(o, "__module__", "") == "typing" or isinstance(o, types.GenericAlias):
            return o[k]
        if isinstance(o, _np.ndarray):
            return self.index(o, k) if not isinstance(k, tuple) else self.getitem(self.newlist(self.toseq(o.tolist())), k)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def setitem(self, o, k, v):
        o = self.res(o)
        k = self.res(k)
        if isinstance(o, Ref):
            d = self.heap[o.id]
            if isinstance(d, DMap):
                self.heap[o.id] = self.dset(d, k, v)
                return
            if isinstance(d, Seq):
                if isinstance(k, slice):
                    raise Unsupported("slice assignment")
                if isinstance(k, tuple):
                    self.setitem(self.getitem(o, k[0]), k[1] if len(k) == 2 else k[1:], v)
                    return
                k = self.num(k)
                if all(isinstance(p, Unit) for p in d.parts):
                    n = len(d.parts)
                    if not isinstance(k, int):
                        for t in range(n):
                            if self.decide(z3.Or(k == t, k == t - n)):
                                k = t
                                break
                        else:
                            raise PyRaise(IndexError, (), self.curline)
                    if not -n <= k < n:
                        raise PyRaise(IndexError, (), self.curline)
                    ps = list(d.parts)
                    ps[k] = Unit(v)
                    self.heap[o.id] = Seq(ps, d.kind)
                    return
                if len(d.parts) == 1 and isinstance(d.parts[0], Pull):
                    p = d.parts[0]
                    if not self.decide(z3.And(rv(k) >= 0, rv(k) < p.n)):
                        raise Unsupported("negative or out-of-range list store")
                    self.heap[o.id] = Seq([Pull(p.n, p.i, self.merge([(p.i == k, self.freeze(v)), (p.i != k, p.v)]))], d.kind)
                    return
            if isinstance(d, tuple) and isinstance(d[0], str) and d[0] == "inst":
                m = self.find_method(d[1], "__setitem__")
                if m is not None:
                    return self.call_method_raw(o, m, d[1], [k, v], {})
        raise Unsupported("item assignment")

    def ev_BoolOp(self, e, fr):
        def go(vals):
            v = self.ev(vals[0], fr)
            if len(vals) == 1:
                return v
            t = self.truth(v)
            isand = isinstance(e.op, ast.And)
            if not isinstance(t, bool):
                ts = z3.simplify(t)
                if z3.is_true(ts):
                    t = True
                elif z3.is_false(ts):
                    t = False
            if isinstance(t, bool):
                if t == isand:
                    return go(vals[1:])
                return v

            def th():
                if self.decide(t) == isand:
                    return go(vals[1:])
                if is_z3(v) and z3.is_bool(v):
                    return not isand
                return v

            return self.merge_eval(th)

        return go(e.values)

    def ev_IfExp(self, e, fr):
        t = self.truth(self.ev(e.test, fr))
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse, fr)
        return self.merge_eval(lambda: self.ev(e.body, fr) if self.decide(t) else self.ev(e.orelse, fr))

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.simplify(z3.Not(t))
        if isinstance(e.op, ast.USub):
            v = self.res(v)
            if isinstance(v, Opq) or isinstance(v, complex):
                return -v if isinstance(v, complex) else self.opbin("__neg__", v, None)
            return -self.num(v)
        if isinstance(e.op, ast.UAdd):
            return self.num(v)
        raise Unsupported("unary operator")

    def ev_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if all(isinstance(x, bool) for x in out):
            return all(out)
        return zand([rv(x) for x in out])

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.simplify(z3.Not(r))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, Ref) and isinstance(b, Ref):
                if a.id != b.id and (a.id in self.thawed or b.id in self.thawed):
                    raise Unsupported("identity of an object taken from a sequence")
                r = a.id == b.id
            elif isinstance(a, (bool, type)) and isinstance(b, (bool, type)):
                r = a is b
            else:
                r = self.eq(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.simplify(z3.Not(r))
            return r
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple) and self.israw(a) and self.israw(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(self.deref(a), Seq) and self.deref(a).kind == "set":
            f = {ast.LtE: "issubset", ast.GtE: "issuperset"}.get(type(op))
            if f:
                return METHODS[("set", f)](self, a, [b], {})
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.opcompare(op, a, b)
        x, y = self.num(a), self.num(b)
        if is_z3(x) or is_z3(y):
            x, y = rv(x), rv(y)
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()

    def opcompare(self, op, a, b):
        raise Unsupported("ordering of opaque values")

    def contains(self, c, x):
        c = self.res(c)
        d = self.deref(c)
        if isinstance(d, (DMap, dict)):
            return self.dget(d, x)[0]
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Opq) and (c.ty, "__contains__") in METHODS:
            return METHODS[(c.ty, "__contains__")](self, c, [x], {})
        if isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] == "inst":
            m = self.find_method(d[1], "__contains__")
            if m:
                return self.call_method_raw(c, m, d[1], [x], {})
        if isinstance(c, (set, frozenset)) and self.israw(x):
            return x in c
        s = self.toseq(c)
        return self.member(x, s)

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    OPN = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__", ast.Mod: "__mod__", ast.Pow: "__pow__", ast.BitXor: "__xor__", ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.MatMult: "__matmul__", ast.LShift: "__lshift__", ast.RShift: "__rshift__"}

    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        da, db = self.deref(a), self.deref(b)
        insts = [x for x in (da, db) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == "inst"]
        if insts:
            nm = self.OPN[type(op)]
            if isinstance(da, tuple) and da and isinstance(da[0], str) and da[0] == "inst":
                m = self.find_method(da[1], nm)
                if m is not None:
                    return self.call_method_raw(a, m, da[1], [b], {})
            if isinstance(db, tuple) and db and isinstance(db[0], str) and db[0] == "inst":
                m = self.find_method(db[1], nm.replace("__", "__r", 1))
                if m is not None:
                    return self.call_method_raw(b, m, db[1], [a], {})
            raise Unsupported("operator on objects")
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(op, ast.Add) and (isinstance(a, str) or isinstance(b, str) or "Str" in (getattr(a, "ty", ""), getattr(b, "ty", ""))):
                return Opq(self.fterm("strcat", [self.term(a), self.term(b)]), "Str")
            return self.opbin(self.OPN[type(op)], a, b)
        seqs = [isinstance(x, (Seq, tuple, list)) for x in (da, db)]
        if isinstance(op, ast.Add) and is_counter(self, a) and is_counter(self, b):
            return counter_add(self, counter_add(self, self.alloc(DMap([], "counter")), a), b)
        if isinstance(op, ast.Add) and all(seqs):
            s = Seq(list(self.toseq(a).parts) + list(self.toseq(b).parts))
            return self.wrap_like(a, s)
        if isinstance(op, ast.Mult) and any(seqs):
            s, k = (a, b) if seqs[0] else (b, a)
            k = self.num(k)
            q = self.toseq(s)
            if isinstance(k, int):
                return self.wrap_like(s, Seq(list(q.parts) * max(k, 0)))
            if self.decide(k < 0):
                return self.wrap_like(s, Seq([]))
            j = self.fresh_idx("x")
            return self.wrap_like(s, Seq(self.mkflat(k, j, q)))
        if isinstance(da, Seq) and da.kind == "set" or isinstance(db, Seq) and db.kind == "set":
            f = {ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection", ast.BitXor: "symmetric_difference"}.get(type(op))
            if f:
                return METHODS[("set", f)](self, a, [b], {})
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(op, ast.Mod):
                return Opq(self.skolem("fmt", U), "Str")
            raise PyRaise(TypeError, (), self.curline)
        if isinstance(a, complex) or isinstance(b, complex):
            raise Unsupported("complex arithmetic")
        x, y = self.num(a), self.num(b)
        if not is_z3(x) and not is_z3(y):
            import operator as o

            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow, ast.BitXor: o.xor, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.LShift: o.lshift, ast.RShift: o.rshift}[type(op)]
            try:
                r = f(x, y)
            except Exception as ex:
                raise PyRaise(type(ex), (), self.curline)
            if isinstance(a, bool) and isinstance(b, bool) and isinstance(op, (ast.BitXor, ast.BitOr, ast.BitAnd)):
                return bool(r)
            return r
        if isinstance(op, ast.Add):
            return zadd(x, y)
        if isinstance(op, ast.Sub):
            return zsub(x, y)
        if isinstance(op, ast.Mult):
            for u, w in ((x, y), (y, x)):
                if not is_z3(u) and u == 0 and isinstance(u, int):
                    return 0
                if not is_z3(u) and u == 1 and isinstance(u, int):
                    return w
            x, y = rv(x), rv(y)
            if x.sort() != y.sort():
                x, y = toreal(x), toreal(y)
            return x * y
        if isinstance(op, ast.Div):
            self.nonzero(y)
            return toreal(x) / toreal(y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            return self.intdiv(x, y)[0 if isinstance(op, ast.FloorDiv) else 1]
        if isinstance(op, ast.Pow):
            return self.power(x, y)
        if isinstance(op, (ast.BitXor, ast.BitAnd, ast.BitOr)):
            return self.bitop(op, a, b)
        raise Unsupported(f"operator {type(op).__name__}")

    def bitop(self, op, a, b):
        if all(isinstance(v, bool) or is_z3(v) and z3.is_bool(v) for v in (a, b)):
            f = {ast.BitXor: z3.Xor, ast.BitAnd: z3.And, ast.BitOr: z3.Or}[type(op)]
            return f(rv(a), rv(b))
        raise Unsupported("bit operator on integers")

    def nonzero(self, y):
        if not is_z3(y):
            if y == 0:
                raise PyRaise(ZeroDivisionError, (), self.curline)
            return
        if self.decide(y == 0):
            raise PyRaise(ZeroDivisionError, (), self.curline)

    def intdiv(self, x, y):
        if is_z3(x) and z3.is_real(x) or is_z3(y) and z3.is_real(y) or isinstance(x, float) or isinstance(y, float):
            # real floor division / modulo
            self.nonzero(y)
            xr, yr = toreal(x), toreal(y)
            if is_z3(y) and not self.decide(yr > 0):
                raise Unsupported("real modulo by a negative number")
            if not is_z3(y) and y < 0:
                raise Unsupported("real modulo by a negative number")
            q = z3.ToReal(z3.ToInt(xr / yr))
            return q, xr - yr * q
        self.nonzero(y)
        if not is_z3(y):
            if y > 0:
                return z3.simplify(rv(x) / y), z3.simplify(rv(x) % y)
            raise Unsupported("division by a negative constant")
        if not self.decide(y > 0):
            raise Unsupported("division by a negative number")
        I = z3.IntSort()
        Q, R = z3.Function("qdiv", I, I, I), z3.Function("rmod", I, I, I)
        if "qdiv" not in self.facts:
            def ax(t):
                a, b = t.arg(0), t.arg(1)
                q, r = Q(a, b), R(a, b)
                return z3.Implies(
                    b > 0,
                    z3.And(a == b * q + r, r >= 0, r < b, z3.Implies(a >= 0, q >= 0), z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)),
                           z3.Implies(a >= b, q >= 1), z3.Implies(a < 0, q < 0), z3.Implies(a == b, z3.And(q == 1, r == 0)), z3.Implies(a >= 0, q <= a), z3.Implies(b == 1, z3.And(q == a, r == 0))),
                )
            self.facts["qdiv"] = (Q, ax)
            self.facts["rmod"] = (R, ax)
        return Q(rv(x), y), R(rv(x), y)

    def power(self, x, y):
        if not is_z3(y):
            if isinstance(y, int) and 0 <= y <= 6:
                r = 1
                for _ in range(y):
                    r = r * x
                return r
            raise Unsupported("power")
        if not is_z3(x) and x == -1:
            y = rv(y)
            if z3.is_int(y):
                y = z3.simplify(y)
                if z3.is_app_of(y, z3.Z3_OP_ITE):
                    c, p, q = y.children()
                    if z3.is_int_value(p) and z3.is_int_value(q):
                        return z3.If(c, z3.IntVal((-1) ** p.as_long()), z3.IntVal((-1) ** q.as_long()))
                return z3.If(y % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
        xs, ys = rv(x), rv(y)
        f = z3.Function("pow", z3.RealSort(), z3.IntSort() if z3.is_int(ys) else z3.RealSort(), z3.RealSort())
        return f(toreal(xs), ys)

    def opbin(self, nm, a, b):
        for o, other, r in ((a, b, False), (b, a, True)):
            if isinstance(o, Opq):
                k = (o.ty, nm if not r else nm.replace("__", "__r", 1))
                if k in METHODS:
                    return METHODS[k](self, o, [other], {})
        raise Unsupported(f"operator {nm} on opaque values")

    # ---------------------------------------------------------------- calls / comprehensions
    def ev_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f.first is None or f.cls is None:
                f = f.parent
            return SuperProxy(self.lookup(f, f.first), f.cls)
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        once = not isinstance(f, Func) and not (isinstance(f, BM) and isinstance(f.fn, Func)) and not (isinstance(f, (types.FunctionType, types.MethodType)) and self.isrepo(getattr(f, "__func__", f)))
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.toseq(self.evonce(a.value, fr))
                if not all(isinstance(p, Unit) for p in s.parts):
                    args.append(StarSeq(s))
                else:
                    args += [p.v for p in s.parts]
            else:
                args.append(self.evonce(a, fr) if once else self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.todict(self.deref(self.ev(k.value, fr)))
                if not isinstance(d, DMap) or not all(isinstance(p, DEnt) and isinstance(p.k, str) for p in d.parts):
                    raise Unsupported("** of symbolic dict")
                for p in d.parts:
                    kwargs[p.k] = p.v
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        self.curline = f"{fr.name}:{e.lineno}"
        return self.call(f, args, kwargs)

    def comp(self, gens, fr, emit):
        def rec(k, fr2):
            if k == len(gens):
                emit(fr2)
                return
            g = gens[k]
            seq = self.toseq(self.evonce(g.iter, fr2 if k else fr))

            def body(x):
                self.bind(g.target, x, fr2)
                for c in g.ifs:
                    if not self.decide(self.truth(self.ev(c, fr2))):
                        return
                rec(k + 1, fr2)

            self.iterate(seq, body)

        inner = self.newframe(fr, fr.glob, fr.name, fr.cls)
        rec(0, inner)
        self.frames.pop(inner.fid, None)

    def ev_ListComp(self, e, fr):
        r = self.alloc(Seq([]))
        self.comp(e.generators, fr, lambda f: METHODS[("list", "append")](self, r, [self.ev(e.elt, f)], {}))
        return r

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e, fr):
        r = self.alloc(Seq([], "set"))
        self.comp(e.generators, fr, lambda f: METHODS[("set", "add")](self, r, [self.ev(e.elt, f)], {}))
        return r

    def ev_DictComp(self, e, fr):
        r = self.alloc(DMap([]))

        def emit(f):
            k = self.ev(e.key, f)
            v = self.ev(e.value, f)
            self.heap[r.id] = self.dset(self.heap[r.id], k, v)

        self.comp(e.generators, fr, emit)
        return r

    def ev_Yield(self, e, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        METHODS[("list", "append")](self, f.yields, [self.ev(e.value, fr) if e.value else None], {})
        return None

    def ev_YieldFrom(self, e, fr):
        METHODS[("list", "extend")](self, fr.yields, [self.ev(e.value, fr)], {})
        return None


ONESHOT = {"zip", "map", "filter", "enumerate", "reversed", "iter"}


class StarSeq:
    def __init__(self, s):
        self.s = s


def has_accvar(v):
    if isinstance(v, AccVar) or v is POISON:
        return True
    if isinstance(v, NT):
        return any(has_accvar(x) for x in v.vals)
    if isinstance(v, tuple):
        return any(has_accvar(x) for x in v)
    if isinstance(v, Seq):
        return any(has_accvar(p) for p in v.parts)
    if isinstance(v, (Unit, Pull)):
        return has_accvar(v.v)
    if isinstance(v, Flat):
        return has_accvar(v.s)
    if isinstance(v, (Cond, G)):
        return any(has_accvar(s) for _, s in v.cases)
    if isinstance(v, DEnt):
        return has_accvar(v.v)
    return False
