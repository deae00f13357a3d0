"""Path-sensitive abstract interpreter over the syntax trees of the analysed packages.

It enumerates the control-flow paths of one function (inlining callees that live in the repository) over an abstract
domain of symbolic provenance terms; loops are cut at the back edge after everything the body can change has been
forgotten, so a finding is about every iteration and every number of iterations.  Nothing is executed and no solver
is involved: a branch is dropped only if its condition contradicts a fact recorded on the same path."""
import ast
import builtins as _bi

from .program import Class, Func, AnalysisBroken, mangle
from .values import *  # noqa


class Budget(Exception):
    pass


class Abrupt:
    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


class Event:
    __slots__ = ("kind", "label", "recv", "args", "kw", "res", "loc", "func", "info", "n")

    def __init__(self, kind, label, recv=None, args=(), kw=None, res=None, loc=None, func=None, info=None):
        self.kind, self.label, self.recv = kind, label, recv
        self.args, self.kw, self.res = tuple(args), dict(kw or {}), res
        self.loc, self.func, self.info = loc, func, info
        self.n = -1

    def __repr__(self):
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kw.items()])
        r = show(self.recv) + "." if self.recv else ""
        return f"{self.kind}:{r}{self.label}({a})@{self.loc}"


class State:
    __slots__ = ("envs", "heap", "objs", "facts", "bounds", "trace", "ver", "epoch", "ctr", "written", "objwritten",
                 "excstack", "coros", "pend", "origins")

    def copy(self):
        s = State()
        s.origins = self.origins        # shared: what results from inside finished loops were computed from
        s.envs = {k: (p, dict(d)) for k, (p, d) in self.envs.items()}
        s.heap = dict(self.heap)
        s.objs = dict(self.objs)
        s.facts = dict(self.facts)
        s.bounds = dict(self.bounds)
        s.trace = list(self.trace)
        s.ver = dict(self.ver)
        s.epoch = self.epoch
        s.ctr = self.ctr
        s.written = set(self.written)
        s.objwritten = set(self.objwritten)
        s.excstack = list(self.excstack)
        s.coros = dict(self.coros)
        s.pend = self.pend
        return s

    def new(self):
        self.ctr += 1
        return self.ctr


def empty_state():
    s = State()
    s.envs, s.heap, s.objs, s.facts, s.bounds = {}, {}, {}, {}, {}
    s.trace, s.ver, s.epoch, s.ctr = [], {}, 0, 0
    s.written, s.objwritten, s.excstack, s.coros = set(), set(), [], {}
    s.pend = ()
    s.origins = {}
    return s


class Frame:
    __slots__ = ("func", "env", "cls", "self", "depth", "module", "stack", "on_yield")


# ------------------------------------------------------------------ exceptions
EXT_EXC = {
    "asyncio.CancelledError": "BaseException", "asyncio.exceptions.CancelledError": "BaseException",
    "CancelledError": "BaseException",
    "json.JSONDecodeError": "ValueError", "json.decoder.JSONDecodeError": "ValueError",
    "pydantic.ValidationError": "ValueError", "pydantic_core.ValidationError": "ValueError",
    "sqlalchemy.exc.NoResultFound": "Exception", "sqlalchemy.orm.exc.NoResultFound": "Exception",
    "sqlalchemy.exc.MultipleResultsFound": "Exception",
    "sqlalchemy.exc.SQLAlchemyError": "Exception", "sqlalchemy.exc.IntegrityError": "Exception",
    "asyncio.IncompleteReadError": "EOFError", "asyncio.LimitOverrunError": "Exception",
    "asyncio.QueueEmpty": "Exception", "asyncio.InvalidStateError": "Exception",
    "socket.timeout": "OSError", "socket.gaierror": "OSError", "ipaddress.AddressValueError": "ValueError",
}
ALIAS_EXC = {
    "asyncio.TimeoutError": "TimeoutError", "asyncio.exceptions.TimeoutError": "TimeoutError",
    "asyncio.exceptions.CancelledError": "asyncio.CancelledError", "CancelledError": "asyncio.CancelledError",
    "json.decoder.JSONDecodeError": "json.JSONDecodeError", "JSONDecodeError": "json.JSONDecodeError",
    "pydantic_core.ValidationError": "pydantic.ValidationError", "ValidationError": "pydantic.ValidationError",
    "sqlalchemy.orm.exc.NoResultFound": "sqlalchemy.exc.NoResultFound",
    "IOError": "OSError", "EnvironmentError": "OSError", "concurrent.futures.TimeoutError": "TimeoutError",
    "concurrent.futures.CancelledError": "asyncio.CancelledError",
}

PURE_METHODS = {
    "encode", "decode", "strip", "rstrip", "lstrip", "split", "rsplit", "splitlines", "upper", "lower", "title",
    "startswith", "endswith", "replace", "format", "join", "hex", "find", "rfind", "index", "count", "isdigit",
    "isupper", "islower", "keys", "values", "items", "get", "copy", "model_dump_json", "model_dump", "model_copy",
    "isoformat", "partition", "rpartition", "casefold", "zfill", "ljust", "rjust", "done", "cancelled", "to_bytes",
    "is_dir", "is_file", "total_seconds", "timestamp", "in_", "desc", "asc", "label", "like", "union", "intersection",
    "difference", "isidentifier", "swapcase", "bit_length", "isspace", "isnumeric", "isalpha", "getsockname",
    "removesuffix", "removeprefix",
}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add", "discard",
    "sort", "reverse", "appendleft", "popleft", "extendleft", "__setitem__", "__delitem__", "move_to_end",
}
PURE_EXT = {
    "os.path.join", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.basename", "os.path.dirname",
    "os.getpid", "time.time", "timeit.default_timer", "time.perf_counter", "time.monotonic", "time.time_ns",
    "logging.getLogger", "asyncio.get_running_loop", "asyncio.get_event_loop", "typing.cast",
    "copy.deepcopy", "copy.copy", "json.dumps", "uuid.UUID", "functools.partial", "inspect.signature",
    "socket.gethostname", "re.compile", "platform.system",
}
SUSPEND_FREE_AWAIT = set()


def exc_name(prog, v):
    return v


class Interp:
    def __init__(self, prog, opaque=None, may_raise=None, volatile=None, max_paths=6000, max_steps=400000,
                 nosuspend=None, extra_pure=(), unroll=6, no_inline=None, typed=None, depth=40, peel=0, pin=None, inline_gen=False):
        self.p = prog
        self.opaque = opaque or (lambda f: False)
        self.keep_cuts = False      # keep the iterations of comprehensions that have no effects
        self.may_raise = may_raise or (lambda ev, it: ())
        self.volatile_fn = volatile
        self.max_paths, self.max_steps = max_paths, max_steps
        self.steps = 0
        self.nosuspend = nosuspend or (lambda ev: False)
        self.extra_pure = set(extra_pure)
        self.unroll = unroll
        self.inline_gen = inline_gen  # run the body of a for loop over a generator of the repository where the generator yields
        self.peel = peel            # unroll while loops this often instead of generalising over their iterations
        self.pin = pin              # fn(name) -> value an attribute or item of that name is assumed to have
        self.ttypes = {}
        self.maxdepth = depth
        self.functions = set()      # quals of the functions analysed
        self.unknown = []           # constructs the analysis treated as opaque
        self._constfield = {}
        self._mut = None
        self.typed = typed or {}

    # ============================================================== types
    def tk(self, t):
        if t is None:
            return None
        if isinstance(t, Class):
            return "c:" + t.qual
        if isinstance(t, str):
            return "x:" + t
        if isinstance(t, tuple):
            el = self.p.ann_class(t[2], t[1]) if t[1] is not None and not isinstance(t[1], ast.Tuple) else None
            return (t[0], self.tk(el))
        return None

    def tclass(self, tk):
        if isinstance(tk, str) and tk.startswith("c:"):
            return self.p.classes.get(tk[2:])
        return None

    def typeof(self, st, v):
        t = v[0]
        if t in ("S", "R", "H"):
            return v[-1] if v[-1] is not None else self.ttypes.get(v)
        if t == "K":
            return "x:" + v[1]
        if t == "O":
            o = st.objs[v[1]]
            if o["kind"] == "inst":
                return "c:" + o["cls"]
            return (o["kind"], None)
        if t == "A":
            if v in self.ttypes:
                return self.ttypes[v]
            if v[1] in ("fstr", "str", "concat"):
                return "x:str"
            if v[1] == "encode":
                return "x:bytes"
            return None
        if t == "L":
            return "x:int"
        return None

    def elem_type(self, tk):
        if isinstance(tk, tuple) and tk and tk[0] in ("list", "set", "dict", "tuple"):
            return tk[1]
        return None

    # ============================================================== constant fields
    def mutable_attrs(self):
        """attribute names written outside constructors anywhere in the program"""
        if self._mut is None:
            m = {}
            for f in self.p.funcs:
                cn = f.cls.name if f.cls else None
                for n in ast.walk(f.node):
                    tg = []
                    if isinstance(n, ast.Assign):
                        tg = n.targets
                    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                        tg = [n.target]
                    elif isinstance(n, ast.Delete):
                        tg = n.targets
                    elif isinstance(n, (ast.For, ast.AsyncFor)):
                        tg = [n.target]
                    elif isinstance(n, (ast.With, ast.AsyncWith)):
                        tg = [i.optional_vars for i in n.items if i.optional_vars is not None]
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                                m.setdefault(mangle(x.attr, cn), set()).add((f.qual, "__init__" if self.p.in_constructor(f) else f.name))
            self._mut = m
        return self._mut

    def const_field(self, c, name, _seen=frozenset()):
        """value of a field that is assigned exactly once, from constants (class body or constructor)"""
        key = (c.qual, name)
        if key in self._constfield:
            return self._constfield[key]
        self._constfield[key] = None
        if self.is_model(c):      # fields of models are given to the constructor: what stands in the class is only the default
            return None
        writers = self.mutable_attrs().get(name, set())
        if any(fn != "__init__" for _, fn in writers):
            return None
        rhs = []
        for b in self.p.mro(c) + c.subclasses:
            if not isinstance(b, Class):
                continue
            if name in b.attrs:
                rhs.append((b, b.attrs[name], None))
            for init in [f for f in b.methods.values() if self.p.in_constructor(f)]:
                for n in ast.walk(init.node):
                    t, val = None, None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        t, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        t, val = n.target, n.value
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and mangle(t.attr, b.name) == name:
                        rhs.append((b, val, init))
        if len(rhs) != 1 or rhs[0][1] is None:
            return None
        b, e, init = rhs[0]
        v = None if isinstance(e, (ast.List, ast.Set, ast.Dict)) else self._const_expr(c, b, e)   # containers are mutable
        self._constfield[key] = v
        return v

    def _const_expr(self, c, b, e):
        if isinstance(e, ast.Constant):
            return K(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return K(-e.operand.value)
        if isinstance(e, ast.Name):
            nm = mangle(e.id, b.name)
            if nm in b.attrs:
                return self._const_expr(c, b, b.attrs[nm])
            r = self.p.resolve_name(b.module, e.id)
            if r and r[0] == "var" and r[3] is not None and len([1 for n in ast.walk(r[1].tree) if isinstance(n, ast.Name)
                                                                and n.id == e.id and isinstance(n.ctx, ast.Store)]) == 1:
                return self._const_expr(c, b, r[3])
            return None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls", b.name):
            return self.const_field(c, mangle(e.attr, b.name))
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = [self._const_expr(c, b, x) for x in e.elts]
            if all(v is not None and v[0] == "K" for v in vs):
                return ("T",) + tuple(vs)
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bytes" and len(e.args) == 1:
            v = self._const_expr(c, b, e.args[0])
            if v and v[0] == "T":
                try:
                    return K(bytes(x[2] for x in v[1:]))
                except Exception:
                    return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "encode" and not e.args:
            v = self._const_expr(c, b, e.func.value)
            if v and v[1] == "str":
                return K(v[2].encode())
        if isinstance(e, ast.BinOp):
            l, r = self._const_expr(c, b, e.left), self._const_expr(c, b, e.right)
            if l and r and l[0] == r[0] == "K":
                return fold_bin(e.op, l, r)
        return None

    def late_written(self, attr):
        return any(fn != "__init__" for _, fn in self.mutable_attrs().get(attr, ()))

    def apply(self, st, f, args=(), kw=None, module=None, awaits=True):
        """call a function value from outside; coroutines are awaited -> [(state, kind, value)]"""
        func = self.p.funcs[f[1]] if f[0] == "F" else None
        fr = Frame()
        host = func or next(iter(self.p.funcs))
        fr.func, fr.env, fr.cls, fr.self, fr.module, fr.depth, fr.stack = host, None, None, None, host.module, 0, ()
        eid = st.new()
        st.envs[eid] = (None, {})
        fr.env = eid
        outs = []
        for t, v in self.call(st, f, list(args), dict(kw or {}), fr, host.node):
            if not isinstance(v, Abrupt) and v[0] == "Coro" and awaits:
                for t2, v2 in self.await_(t, v, fr, host.node):
                    outs.append((t2, v2.kind, v2.val) if isinstance(v2, Abrupt) else (t2, "return", v2))
            else:
                outs.append((t, v.kind, v.val) if isinstance(v, Abrupt) else (t, "return", v))
        return outs

    def start_coro(self, st, coro):
        """what a task made of this coroutine does, from the moment the event loop starts it -> [(state, kind, value)]"""
        f = st.coros[coro[1]][0]
        fr = Frame()
        fr.func, fr.env, fr.cls, fr.self, fr.module, fr.depth, fr.stack = f, None, None, None, f.module, 0, ()
        eid = st.new()
        st.envs[eid] = (None, {})
        fr.env = eid
        self.suspend(st, fr, f.node, "task start")
        return [(t, v.kind, v.val) if isinstance(v, Abrupt) else (t, "return", v) for t, v in self.await_(st, coro, fr, f.node)]

    def volatile(self, st, base, attr, tk):
        if self.volatile_fn is not None:
            r = self.volatile_fn(attr, tk)
            if r is not None:
                return r
        w = self.mutable_attrs().get(attr, set())
        if not any(fn != "__init__" for _, fn in w):
            return False
        if self.tclass(tk) is not None or isinstance(tk, tuple):
            return False
        if isinstance(tk, str) and tk.startswith("x:") and tk[2:].split(".")[-1] in ("Logger", "AbstractEventLoop", "Lock"):
            return False
        return True

    # ============================================================== entry
    def run(self, func, selfval=None, args=None, state=None, kwargs_rest=True):
        """Analyse func with symbolic parameters -> list of (state, kind, value): kind 'return','raise','cut'"""
        st = state or empty_state()
        fr_args = {}
        a = func.node.args
        names = [x for x in a.posonlyargs + a.args]
        if func.cls is not None and func.kind not in ("static",) and names:
            if selfval is None:
                selfval = ("C", func.cls.qual) if func.kind == "class" else ("S", "self", "c:" + func.cls.qual)
            fr_args[names[0].arg] = selfval
            names = names[1:]
        for x in names + a.kwonlyargs:
            if args and x.arg in args:
                fr_args[x.arg] = args[x.arg]
            else:
                fr_args[x.arg] = ("S", x.arg, self.tk(self.p.ann_class(func.module, x.annotation)))
        if a.kwarg:
            n = st.new()
            if args and a.kwarg.arg in args:
                st.objs[n] = args[a.kwarg.arg]
            else:
                st.objs[n] = {"kind": "dict", "items": {}, "rest": ("S", a.kwarg.arg, ("dict", None))}
            fr_args[a.kwarg.arg] = ("O", n)
        if a.vararg:
            fr_args[a.vararg.arg] = ("S", a.vararg.arg, ("list", None))
        outs = []
        for st2, v in self.call_body(func, fr_args, selfval, st, None, ()):
            if isinstance(v, Abrupt):
                outs.append((st2, v.kind, v.val))
            else:
                outs.append((st2, "return", v))
        return outs

    def call_body(self, func, binds, selfval, st, parent_env, stack, on_yield=None):
        self.functions.add(func.qual)
        eid = st.new()
        st.envs[eid] = (parent_env, dict(binds))
        fr = Frame()
        lex = func
        while lex is not None and lex.cls is None:  # a function or lambda in a method: private names are those of the method's class
            lex = lex.outer
        fr.func, fr.env, fr.cls, fr.self, fr.module = func, eid, lex.cls if lex else None, selfval, func.module
        fr.depth = len(stack)
        fr.stack = stack + (func.fid,)
        fr.on_yield = on_yield
        if isinstance(func.node, ast.Lambda):
            return self.ev(func.node.body, st, fr)
        res = []
        for st2, sig, v in self.block(func.node.body, st, fr):
            if sig == "next":
                res.append((st2, NONE))
            elif sig == "return":
                res.append((st2, v))
            elif sig in ("raise", "cut"):
                res.append((st2, Abrupt(sig, v)))
            else:
                res.append((st2, NONE))
        if len(res) > self.max_paths:
            raise Budget(f"{func.qual}: more than {self.max_paths} paths")
        return res

    # ============================================================== helpers
    def loc(self, fr, node):
        return f"{fr.module.relpath}:{getattr(node, 'lineno', 0)}"

    def emit(self, st, fr, node, kind, label, recv=None, args=(), kw=None, res=None, info=None):
        ev = Event(kind, label, recv, args, kw, res, self.loc(fr, node), fr.func.qual, info)
        ev.n = len(st.trace)
        st.trace.append(ev)
        return ev

    def lookup(self, st, fr, name):
        e = fr.env
        while e is not None:
            parent, d = st.envs[e]
            if name in d:
                return d[name]
            e = parent
        return None

    def set_name(self, st, fr, name, v):
        # nonlocal / closure assignment
        if name in getattr(fr.func, "_nonlocals", ()):
            e = st.envs[fr.env][0]
            while e is not None:
                if name in st.envs[e][1]:
                    st.envs[e][1][name] = v
                    return
                e = st.envs[e][0]
        st.envs[fr.env][1][name] = v

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exhausted")

    # ============================================================== statements
    def block(self, stmts, st, fr):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for c in cur:
                for o in self.stmt(s, c, fr):
                    if o[1] == "next":
                        nxt.append(o[0])
                    else:
                        done.append(o)
            cur = nxt
            if len(cur) + len(done) > self.max_paths:
                raise Budget(f"{fr.func.qual}: more than {self.max_paths} paths")
            if not cur:
                break
        return done + [(c, "next", None) for c in cur]

    def stmt(self, s, st, fr):
        self.step()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((self.loc(fr, s), type(s).__name__))
            return [(st, "next", None)]
        return m(s, st, fr)

    def ab(self, st, v):
        return (st, v.kind, v.val)

    def s_Expr(self, s, st, fr):
        return [self.ab(t, v) if isinstance(v, Abrupt) else (t, "next", None) for t, v in self.ev(s.value, st, fr)]

    def s_Pass(self, s, st, fr):
        return [(st, "next", None)]

    s_Global = s_Import = s_ImportFrom = s_Pass

    def s_Nonlocal(self, s, st, fr):
        return [(st, "next", None)]

    def s_Global(self, s, st, fr):
        return [(st, "next", None)]

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.asname or a.name.split(".")[0]
            st.envs[fr.env][1][top] = ("X", a.name if a.asname else top)
        return [(st, "next", None)]

    def s_ImportFrom(self, s, st, fr):
        base = self.p._abs(fr.module, s)
        for a in s.names:
            v = None
            if base in self.p.modules:
                r = self.p.resolve_name(self.p.modules[base], a.name)
                v = self.from_resolved(r, a.name)
                if v is None and f"{base}.{a.name}" in self.p.modules:
                    v = ("M", f"{base}.{a.name}")
            st.envs[fr.env][1][a.asname or a.name] = v or ("X", f"{base}.{a.name}")
        return [(st, "next", None)]

    def s_FunctionDef(self, s, st, fr):
        f = self.p.make_func(s, fr.module, fr.cls if False else None, fr.func)
        v = ("F", f.fid, fr.env, None)
        st.envs[fr.env][1][s.name] = v
        # decorators on nested functions that merely wrap (functools.wraps) keep the function
        for d in s.decorator_list:
            if not ast.unparse(d).startswith(("functools.wraps", "wraps")):
                r = ("S", f"{f.qual}@decorated", None)
                st.envs[fr.env][1][s.name] = v
        return [(st, "next", None)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        st.envs[fr.env][1][s.name] = ("S", f"local class {s.name}", None)
        return [(st, "next", None)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, "return", NONE)]
        return [self.ab(t, v) if isinstance(v, Abrupt) else (t, "return", v) for t, v in self.ev(s.value, st, fr)]

    def s_Break(self, s, st, fr):
        self.emit(st, fr, s, "break", "break")
        return [(st, "break", None)]

    def s_Continue(self, s, st, fr):
        return [(st, "continue", None)]

    def s_Assert(self, s, st, fr):
        out = []
        for t, v in self.cond(s.test, st, fr):
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
            elif v:
                out.append((t, "next", None))
            else:
                e = A("new", "AssertionError")
                self.emit(t, fr, s, "raise", "AssertionError", args=(e,))
                out.append((t, "raise", e))
        return out

    def s_Assign(self, s, st, fr):
        out = []
        for t, v in self.ev(s.value, st, fr):
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
                continue
            out += self.assign_all(s.targets, t, v, fr, s)
        return out

    def assign_all(self, targets, st, v, fr, node):
        cur = [(st, "next", None)]
        for tg in targets:
            nxt = []
            for c in cur:
                if c[1] != "next":
                    nxt.append(c)
                else:
                    nxt += self.assign(tg, c[0], v, fr, node)
            cur = nxt
        return cur

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, "next", None)]
        out = []
        for t, v in self.ev(s.value, st, fr):
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
                continue
            if v[0] in ("A", "S", "R", "H") and self.typeof(t, v) is None:
                k = self.tk(self.p.ann_class(fr.module, s.annotation))
                if k:
                    self.ttypes.setdefault(v, k)
            out += self.assign(s.target, t, v, fr, s)
        return out

    def s_AugAssign(self, s, st, fr):
        load = ast.parse(ast.unparse(s.target), mode="eval").body
        for n in ast.walk(load):
            ast.copy_location(n, s)
        out = []
        for t, l in self.ev(load, st, fr):
            if isinstance(l, Abrupt):
                out.append(self.ab(t, l))
                continue
            for t2, r in self.ev(s.value, t, fr):
                if isinstance(r, Abrupt):
                    out.append(self.ab(t2, r))
                    continue
                if l[0] == "O" and t2.objs[l[1]]["kind"] == "list" and isinstance(s.op, ast.Add):
                    self.list_extend(t2, l, r)
                    out.append((t2, "next", None))
                    continue
                v = self.binop(s.op, l, r, t2)
                out += self.assign(s.target, t2, v, fr, s)
        return out

    def assign(self, tg, st, v, fr, node):
        if isinstance(tg, ast.Name):
            if tg.id in self.globals_of(fr.func):
                self.emit(st, fr, node, "setglobal", tg.id, args=(v,))
                st.heap[(("M", fr.module.name), tg.id)] = v
                return [(st, "next", None)]
            if tg.id in self.nonlocals_of(fr.func):
                e = st.envs[fr.env][0]
                while e is not None:
                    if tg.id in st.envs[e][1]:
                        st.envs[e][1][tg.id] = v
                        st.written.add(("env", e, tg.id))
                        break
                    e = st.envs[e][0]
                return [(st, "next", None)]
            st.envs[fr.env][1][tg.id] = v
            st.written.add(("env", fr.env, tg.id))
            return [(st, "next", None)]
        if isinstance(tg, ast.Attribute):
            out = []
            for t, b in self.ev(tg.value, st, fr):
                if isinstance(b, Abrupt):
                    out.append(self.ab(t, b))
                    continue
                out += self.setattr(t, b, mangle(tg.attr, fr.cls.name if fr.cls else None), v, fr, node)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for t, b in self.ev(tg.value, st, fr):
                if isinstance(b, Abrupt):
                    out.append(self.ab(t, b))
                    continue
                for t2, k in self.ev(tg.slice, t, fr):
                    if isinstance(k, Abrupt):
                        out.append(self.ab(t2, k))
                        continue
                    self.setitem(t2, b, k, v, fr, node)
                    out.append((t2, "next", None))
            return out
        if isinstance(tg, (ast.Tuple, ast.List)):
            cur = [(st, "next", None)]
            for i, el in enumerate(tg.elts):
                nxt = []
                for c in cur:
                    if c[1] != "next":
                        nxt.append(c)
                        continue
                    if isinstance(el, ast.Starred):
                        nxt += self.assign(el.value, c[0], A("rest", v, K(i)), fr, node)
                    else:
                        nxt += self.assign(el, c[0], self.index_const(c[0], v, i), fr, node)
                cur = nxt
            return cur
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, st, v, fr, node)
        return [(st, "next", None)]

    def index_const(self, st, v, i):
        if v[0] == "T" and i < len(v) - 1:
            return v[1 + i]
        if v[0] == "O" and st.objs[v[1]]["kind"] == "list":
            seq = st.objs[v[1]]["seq"]
            if i < len(seq) and all(x[0] == "one" for x in seq[:i + 1]):
                return seq[i][1]
        r = A("item", v, K(i))
        t = self.typeof(st, v)
        if isinstance(t, tuple) and t[0] == "tuple":
            pass
        return r

    def globals_of(self, f):
        if not hasattr(self, "_gl"):
            self._gl = {}
        if f.fid not in self._gl:
            g, n = set(), set()
            if not isinstance(f.node, ast.Lambda):
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Global):
                        g |= set(x.names)
                    elif isinstance(x, ast.Nonlocal):
                        n |= set(x.names)
            self._gl[f.fid] = (g, n)
        return self._gl[f.fid][0]

    def nonlocals_of(self, f):
        self.globals_of(f)
        return self._gl[f.fid][1]

    def setattr(self, st, b, name, v, fr, node):
        c = self.tclass(self.typeof(st, b))
        if c is not None:
            for k in self.p.mro(c):
                if isinstance(k, Class):
                    for s in k.node.body:
                        if isinstance(s, ast.FunctionDef) and s.name == name and \
                                any(ast.unparse(d).endswith(".setter") for d in s.decorator_list):
                            f = self.p.make_func(s, k.module, k, None)
                            names = [a.arg for a in s.args.args]
                            out = []
                            for t, r in self.call_body(f, {names[0]: b, names[1]: v}, b, st, None, fr.stack):
                                out.append(self.ab(t, r) if isinstance(r, Abrupt) else (t, "next", None))
                            return out
        st.heap[(b, name)] = v
        st.written.add(("heap", b, name))
        self.emit(st, fr, node, "set", name, recv=b, args=(v,))
        return [(st, "next", None)]

    def setitem(self, st, b, k, v, fr, node):
        if b[0] == "O":
            o = st.objs[b[1]]
            if o["kind"] == "dict":
                items = dict(o["items"])
                items.pop(k, None)
                items[k] = v
                st.objs[b[1]] = dict(o, items=items)
                st.objwritten.add(b[1])
                self.emit(st, fr, node, "setitem", "[]=", recv=b, args=(k, v))
                return
        c = self.tclass(self.typeof(st, b))
        if c is not None:
            f = self.p.find_method(c, "__setitem__")
            if f is not None and not self.opaque(f) and fr.stack.count(f.fid) < 1:
                # inlined for effect; abrupt outcomes are not followed out of an item assignment
                names = [a.arg for a in f.node.args.args]
                outs = self.call_body(f, {names[0]: b, names[1]: k, names[2]: v}, b, st, None, fr.stack)
        st.ver[b] = st.ver.get(b, 0) + 1
        st.heap[("item", b, k)] = v
        st.written.add(("heapitem", b, k))
        self.emit(st, fr, node, "setitem", "[]=", recv=b, args=(k, v))

    def s_Delete(self, s, st, fr):
        cur = [(st, "next", None)]
        for tg in s.targets:
            nxt = []
            for c in cur:
                if c[1] != "next":
                    nxt.append(c)
                    continue
                st1 = c[0]
                if isinstance(tg, ast.Name):
                    st1.envs[fr.env][1].pop(tg.id, None)
                    nxt.append((st1, "next", None))
                elif isinstance(tg, ast.Attribute):
                    for t, b in self.ev(tg.value, st1, fr):
                        if isinstance(b, Abrupt):
                            nxt.append(self.ab(t, b))
                        else:
                            nm = mangle(tg.attr, fr.cls.name if fr.cls else None)
                            t.heap.pop((b, nm), None)
                            self.emit(t, fr, s, "delattr", nm, recv=b)
                            nxt.append((t, "next", None))
                elif isinstance(tg, ast.Subscript):
                    for t, b in self.ev(tg.value, st1, fr):
                        if isinstance(b, Abrupt):
                            nxt.append(self.ab(t, b))
                            continue
                        for t2, k in self.ev(tg.slice, t, fr):
                            if isinstance(k, Abrupt):
                                nxt.append(self.ab(t2, k))
                                continue
                            if b[0] == "O" and t2.objs[b[1]]["kind"] == "dict":
                                o = t2.objs[b[1]]
                                items = dict(o["items"])
                                items.pop(k, None)
                                t2.objs[b[1]] = dict(o, items=items)
                            else:
                                t2.heap.pop(("item", b, k), None)
                                t2.ver[b] = t2.ver.get(b, 0) + 1
                            self.emit(t2, fr, s, "delitem", "del[]", recv=b, args=(k,))
                            nxt.append((t2, "next", None))
            cur = nxt
        return cur

    def s_If(self, s, st, fr):
        out = []
        for t, v in self.cond(s.test, st, fr):
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
            else:
                out += self.block(s.body if v else s.orelse, t, fr)
        return out

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            e = st.excstack[-1] if st.excstack else ("E", "BaseException", (), st.new())
            self.emit(st, fr, s, "raise", "reraise", args=(e,))
            return [(st, "raise", e)]
        out = []
        for t, v in self.ev(s.exc, st, fr):
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
                continue
            if v[0] in ("C", "X"):
                for t2, v2 in self.call(t, v, [], {}, fr, s):
                    if isinstance(v2, Abrupt):
                        out.append(self.ab(t2, v2))
                    else:
                        self.emit(t2, fr, s, "raise", "raise", args=(v2,))
                        out.append((t2, "raise", v2))
                continue
            self.emit(t, fr, s, "raise", "raise", args=(v,))
            out.append((t, "raise", v))
        return out

    # ---------------------------------------------------------- try
    def s_Try(self, s, st, fr):
        outs = []
        for t, sig, v in self.block(s.body, st, fr):
            if sig == "raise" and s.handlers:
                outs += self.handle(s, t, v, fr)
            elif sig == "next" and s.orelse:
                outs += self.block(s.orelse, t, fr)
            else:
                outs.append((t, sig, v))
        if s.finalbody:
            fin = []
            for t, sig, v in outs:
                if sig == "cut":
                    fin.append((t, sig, v))
                    continue
                for t2, sig2, v2 in self.block(s.finalbody, t, fr):
                    if sig2 == "next":
                        fin.append((t2, sig, v))
                    else:
                        fin.append((t2, sig2, v2))
            outs = fin
        return outs

    s_TryStar = s_Try

    def handle(self, s, st, exc, fr):
        out = []
        pending = [(st, exc)]
        for h in s.handlers:
            nxt = []
            for t, e in pending:
                names = self.handler_types(h.type, t, fr)
                for t2, e2, caught in self.match_exc(t, e, names):
                    if caught:
                        if h.name:
                            t2.envs[fr.env][1][h.name] = e2
                        self.emit(t2, fr, h, "caught", ",".join(map(str, names)), args=(e2,))
                        t2.excstack.append(e2)
                        for t3, sig, v in self.block(h.body, t2, fr):
                            if sig != "cut" and t3.excstack:
                                t3.excstack.pop()
                            out.append((t3, sig, v))
                    else:
                        nxt.append((t2, e2))
            pending = nxt
        for t, e in pending:
            out.append((t, "raise", e))
        return out

    def handler_types(self, e, st, fr):
        if e is None:
            return ["BaseException"]
        if isinstance(e, ast.Tuple):
            r = []
            for x in e.elts:
                r += self.handler_types(x, st, fr)
            return r
        for t, v in self.ev(e, st.copy(), fr):
            if isinstance(v, Abrupt):
                continue
            if v[0] == "C":
                return [self.p.classes[v[1]]]
            if v[0] == "X":
                return [ALIAS_EXC.get(v[1], v[1])]
            if v[0] == "T":
                r = []
                for x in v[1:]:
                    if x[0] == "C":
                        r.append(self.p.classes[x[1]])
                    elif x[0] == "X":
                        r.append(ALIAS_EXC.get(x[1], x[1]))
                return r
            if v[0] == "O" and st.objs.get(v[1], {}).get("kind") == "list":
                r = []
                for x in st.objs[v[1]]["seq"]:
                    if x[0] == "one" and x[1][0] == "C":
                        r.append(self.p.classes[x[1][1]])
                    elif x[0] == "one" and x[1][0] == "X":
                        r.append(ALIAS_EXC.get(x[1][1], x[1][1]))
                return r
            break
        d = ast.unparse(e)
        r = self.p.resolve_expr(fr.module, e)
        return [ALIAS_EXC.get(r, r) if isinstance(r, str) else r]

    def exc_cls(self, st, e):
        """-> (Class|str, exact?)"""
        if e[0] == "E":
            b = e[1]
            if b in self.p.classes:
                b = self.p.classes[b]
            return b, False
        if e[0] == "O":
            o = st.objs[e[1]]
            if o["kind"] == "inst":
                return self.p.classes[o["cls"]], True
        if e[0] == "A" and e[1] == "new":
            return ALIAS_EXC.get(e[2], e[2]), True
        if e[0] in ("S", "R", "H"):
            c = self.tclass(e[-1])
            if c:
                return c, False
        return "BaseException", False

    def exc_bases(self, c):
        """all superclasses (names/Class) of an exception class, itself included"""
        out = []
        todo = [c]
        while todo:
            x = todo.pop()
            if isinstance(x, Class):
                for b in self.p.mro(x):
                    if isinstance(b, Class):
                        out.append(b)
                    else:
                        todo.append(str(b))
                continue
            x = ALIAS_EXC.get(x, x)
            out.append(x)
            py = getattr(_bi, x.split(".")[-1] if x.startswith("builtins.") else x, None)
            if isinstance(py, type) and issubclass(py, BaseException):
                for b in py.__mro__[1:]:
                    if b is not object:
                        out.append(b.__name__)
            elif x in EXT_EXC:
                todo.append(EXT_EXC[x])
            elif x not in ("Generic", "typing.Generic", "ABC", "abc.ABC", "object"):
                out += ["Exception", "BaseException"]
        return out

    def is_exc_sub(self, a, b):
        if isinstance(b, str):
            b = ALIAS_EXC.get(b, b)
        return any(x is b or x == b for x in self.exc_bases(a))

    def match_exc(self, st, e, names):
        c, exact = self.exc_cls(st, e)
        for n in names:
            if self.is_exc_sub(c, n):
                return [(st, e, True)]
        if exact:
            return [(st, e, False)]
        out = []
        excl = list(e[2]) if e[0] == "E" else []
        hit = []
        for n in names:
            if self.is_exc_sub(n, c):
                nm = n.qual if isinstance(n, Class) else n
                if not any(self.is_exc_sub(n, self.p.classes.get(x, x)) for x in excl):
                    hit.append(nm)
        if not hit:
            return [(st, e, False)]
        k = e[3] if e[0] == "E" else 0
        for nm in hit:
            t = st.copy()
            out.append((t, ("E", nm, tuple(excl), k), True))
        base = c.qual if isinstance(c, Class) else c
        out.append((st, ("E", base, tuple(sorted(set(excl) | set(hit))), k), False))
        return out

    # ---------------------------------------------------------- with
    def s_With(self, s, st, fr, is_async=False):
        return self.with_items(list(s.items), s, st, fr, is_async)

    def s_AsyncWith(self, s, st, fr):
        return self.with_items(list(s.items), s, st, fr, True)

    def with_items(self, items, s, st, fr, is_async):
        if not items:
            return self.block(s.body, st, fr)
        it, rest = items[0], items[1:]
        out = []
        for t, cm in self.ev(it.context_expr, st, fr):
            if isinstance(cm, Abrupt):
                out.append(self.ab(t, cm))
                continue
            if cm[0] == "A" and cm[1] == "ctxgen" and cm[2][2] in t.coros:
                out += self.with_generator(cm[2][2], it, rest, s, t, fr, is_async)
                continue
            c = self.tclass(self.typeof(t, cm))
            en = self.p.find_method(c, "__aenter__" if is_async else "__enter__") if c else None
            ex = self.p.find_method(c, "__aexit__" if is_async else "__exit__") if c else None
            if en is not None and not self.opaque(en):
                entered = self.invoke(en, cm, [], {}, t, fr, s, None)
                if is_async:
                    entered = self.await_all(entered, fr, s)
            else:
                if is_async:
                    ev = self.emit(t, fr, s, "enter", "async with", recv=cm)
                    self.suspend(t, fr, s, "async with")
                    entered = [(t, cm)]
                    for x in self.may_raise(ev, self):
                        t3 = t.copy()
                        entered.append((t3, Abrupt("raise", ("E", x, (), t3.new()))))
                else:
                    ev = self.emit(t, fr, s, "enter", "with", recv=cm)
                    entered = [(t, cm)]
            for t2, v in entered:
                if isinstance(v, Abrupt):
                    out.append(self.ab(t2, v))
                    continue
                bound = self.assign(it.optional_vars, t2, v, fr, s) if it.optional_vars is not None else [(t2, "next", None)]
                for t3, sg, vv in bound:
                    if sg != "next":
                        out.append((t3, sg, vv))
                        continue
                    for t4, sig, val in self.with_items(rest, s, t3, fr, is_async):
                        if sig == "cut":
                            out.append((t4, sig, val))
                            continue
                        out += self.with_exit(t4, sig, val, cm, ex, s, fr, is_async)
        return out

    def with_generator(self, n, it, rest, s, st, fr, is_async):
        """a with statement on a @contextmanager function: its body runs where the function yields"""
        func, binds, selfval, penv = st.coros[n]

        def body(t, v):
            res = []
            bound = self.assign(it.optional_vars, t, v, fr, s) if it.optional_vars is not None else [(t, "next", None)]
            for t2, sg, vv in bound:
                outs = self.with_items(rest, s, t2, fr, is_async) if sg == "next" else [(t2, sg, vv)]
                for t3, sig, val in outs:
                    if sig == "next":
                        t3.pend = t3.pend + ((n, "next", None),)
                        res.append((t3, NONE))
                    elif sig in ("raise", "cut"):
                        t3.pend = t3.pend + ((n, "next", None),)
                        res.append((t3, Abrupt(sig, val)))
                    else:  # return, break, continue: the function runs on first
                        t3.pend = t3.pend + ((n, sig, val),)
                        res.append((t3, NONE))
            return res

        out = []
        for t, v in self.call_body(func, binds, selfval, st, penv, fr.stack, on_yield=body):
            mine = [x for x in t.pend if x[0] == n]
            t.pend = tuple(x for x in t.pend if x[0] != n)
            if isinstance(v, Abrupt):
                out.append(self.ab(t, v))
            elif mine:
                out.append((t, mine[-1][1], mine[-1][2]))
            else:
                out.append((t, "raise", ("E", "RuntimeError", (), t.new())))
        return out

    def with_exit(self, st, sig, val, cm, ex, s, fr, is_async):
        if ex is not None and not self.opaque(ex):
            args = [NONE, NONE, NONE]
            if sig == "raise":
                args = [A("type", val), val, A("traceback", val)]
            outs = self.invoke(ex, cm, args, {}, st, fr, s, None)
            if is_async:
                outs = self.await_all(outs, fr, s)
            res = []
            for t, v in outs:
                if isinstance(v, Abrupt):
                    res.append(self.ab(t, v))
                elif sig == "raise":
                    for t2, b in self.truth_fork(t, v):
                        res.append((t2, "next", None) if b else (t2, sig, val))
                else:
                    res.append((t, sig, val))
            return res
        self.emit(st, fr, s, "exit", "with", recv=cm, info=sig)
        if sig == "raise" and cm[0] == "A" and cm[1] == "new" and cm[2] in ("contextlib.suppress",):
            names = []
            for x in cm[3:]:
                if x[0] == "C":
                    names.append(self.p.classes[x[1]])
                elif x[0] == "X":
                    names.append(ALIAS_EXC.get(x[1], x[1]))
            return [(t, "next", None) if c else (t, "raise", e) for t, e, c in self.match_exc(st, val, names)]
        return [(st, sig, val)]

    # ---------------------------------------------------------- match
    def s_Match(self, s, st, fr):
        out = []
        for t, subj in self.ev(s.subject, st, fr):
            if isinstance(subj, Abrupt):
                out.append(self.ab(t, subj))
                continue
            pend = [t]
            for case in s.cases:
                nxt = []
                for p in pend:
                    for t2, ok in self.match_pat(case.pattern, subj, p, fr):
                        if ok and case.guard is not None:
                            for t3, g in self.cond(case.guard, t2, fr):
                                if isinstance(g, Abrupt):
                                    out.append(self.ab(t3, g))
                                elif g:
                                    out += self.block(case.body, t3, fr)
                                else:
                                    nxt.append(t3)
                        elif ok:
                            out += self.block(case.body, t2, fr)
                        else:
                            nxt.append(t2)
                pend = nxt
            out += [(p, "next", None) for p in pend]
        return out

    def match_pat(self, pat, subj, st, fr):
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is None:
                if pat.name:
                    st.envs[fr.env][1][pat.name] = subj
                return [(st, True)]
            out = []
            for t, ok in self.match_pat(pat.pattern, subj, st, fr):
                if ok and pat.name:
                    t.envs[fr.env][1][pat.name] = subj
                out.append((t, ok))
            return out
        if isinstance(pat, ast.MatchValue):
            out = []
            for t, v in self.ev(pat.value, st, fr):
                if isinstance(v, Abrupt):
                    continue
                out += self.fork(t, self.compare1(t, ast.Eq(), subj, v))
            return out
        if isinstance(pat, ast.MatchSingleton):
            return self.fork(st, self.compare1(st, ast.Is(), subj, K(pat.value)))
        if isinstance(pat, ast.MatchOr):
            out, pend = [], [st]
            for q in pat.patterns:
                nx = []
                for p in pend:
                    for t, ok in self.match_pat(q, subj, p, fr):
                        (out if ok else nx).append((t, True) if ok else t)
                pend = nx
            return out + [(p, False) for p in pend]
        if isinstance(pat, ast.MatchClass) and not pat.patterns and not pat.kwd_patterns:
            for t, c in self.ev(pat.cls, st, fr):
                if not isinstance(c, Abrupt):
                    return self.fork(t, A("isinstance", subj, c))
        self.unknown.append((self.loc(fr, pat), "match pattern"))
        return [(st.copy(), True), (st, False)]

    # ---------------------------------------------------------- loops
    def assigned_names(self, nodes):
        out = set()
        todo = list(nodes)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                if not isinstance(n, ast.Lambda):
                    out.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            todo.extend(ast.iter_child_nodes(n))
        return out

    def loop_head(self, st, fr, lid, names, hv, entry):
        """state at the head of the loop: whatever the body may change is forgotten"""
        h = st.copy()
        d = h.envs[fr.env][1]
        for n in names:
            if n in d:
                v = d[n]
                if v[0] == "O" and h.objs[v[1]]["kind"] == "list" and ("obj", v[1]) not in hv:
                    # rebinding of a list variable in the body
                    pass
                d[n] = ("H", lid, n, self.htype(st, v))
        for k in hv:
            if k[0] == "heap":
                old = st.heap.get((k[1], k[2]))
                t = self.typeof(st, old) if old is not None else None
                if t is None or t == "x:NoneType":
                    c = self.tclass(self.typeof(st, k[1])) if k[1][0] != "O" or k[1][1] in st.objs else None
                    t = self.tk(self.p.attr_type(c, k[2])) if c else None
                h.heap[(k[1], k[2])] = ("H", lid, (k[1], k[2]), t)
            elif k[0] == "heapitem":
                h.heap.pop(("item", k[1], k[2]), None)
                h.ver[k[1]] = h.ver.get(k[1], 0) + 1
            elif k[0] == "env":
                if k[1] in h.envs and k[2] in h.envs[k[1]][1]:
                    h.envs[k[1]][1][k[2]] = ("H", lid, k[2], None)
            elif k[0] == "obj" and k[1] in h.objs:
                o = h.objs[k[1]]
                if o["kind"] == "list":
                    h.objs[k[1]] = dict(o, seq=(("pre", lid, k[1]),))
                elif o["kind"] in ("dict", "set"):
                    h.objs[k[1]] = dict(o, items={}, rest=("H", lid, ("obj", k[1]), None))
            elif k[0] == "objkey" and k[1] in h.objs and ("obj", k[1]) not in hv:
                o = h.objs[k[1]]
                h.objs[k[1]] = dict(o, items={**o["items"], k[2]: ("H", lid, ("item", k[1], k[2]), self.htype(st, o["items"][k[2]]))})
            elif k[0] == "ver":
                h.ver[k[1]] = h.ver.get(k[1], 0) + 1
            elif k[0] == "epoch":
                h.epoch += 1
                self.invalidate(h)
        h.written, h.objwritten = set(), set()
        return h

    def htype(self, st, v):
        t = self.typeof(st, v)
        return None if t == "x:NoneType" else t

    def loop(self, s, st, fr, iterate, names, kind, coll=None):
        """iterate(h, lid) -> outcomes of (test+body): (state, sig, val) with sig 'exit' for a normal loop end"""
        lid = st.new()
        hv = set()
        entry = st
        outs = []
        for attempt in range(6):
            h = self.loop_head(st, fr, lid, names, hv, entry)
            ev = self.emit(h, fr, s, "loop", kind, args=(coll,) if coll else (), info={"id": lid, "node": s, "coll": coll})
            ver0, ep0, objs0 = dict(h.ver), h.epoch, dict(h.objs)
            outs = iterate(h, lid)
            new = set()
            for t, sig, v in outs:
                if sig in ("break", "return", "raise"):
                    continue  # these leave: what they wrote is not seen by a later iteration
                if sig == "cut" and v["loop"] != lid and not self._cut_inner(v, lid):
                    pass
                for w in t.written:
                    if w[0] == "env":
                        if w[1] == fr.env:
                            continue
                        if w[1] not in st.envs:
                            continue
                    if w[0] in ("heap", "heapitem") and w[1][0] == "O" and w[1][1] not in st.objs:
                        continue
                    new.add(w)
                for o in t.objwritten:
                    if o not in st.objs:
                        continue
                    a, b = objs0.get(o), t.objs.get(o)
                    if ("obj", o) not in hv and a and b and a["kind"] == b["kind"] == "dict" and a.get("rest") == b.get("rest") and set(a["items"]) == set(b["items"]) \
                            and all(x[0] == "K" for x in a["items"]):
                        # the same keys as before: only the values that are replaced are not known
                        new |= {("objkey", o, x) for x in a["items"] if a["items"][x] != b["items"][x]}
                    else:
                        new.add(("obj", o))
                for b, n in t.ver.items():
                    if ver0.get(b, 0) != n and not (b[0] == "O" and b[1] not in st.objs):
                        new.add(("ver", b))
                if t.epoch != ep0:
                    new.add(("epoch",))
            if new <= hv:
                break
            hv |= new
        # propagate writes outward
        for t, sig, v in outs:
            t.written |= st.written | {w for w in hv if w[0] in ("env", "heap", "heapitem")}
            t.objwritten |= st.objwritten | {w[1] for w in hv if w[0] in ("obj", "objkey")}
            for n in names:
                t.written.add(("env", fr.env, n))
        return lid, hv, outs

    def _cut_inner(self, v, lid):
        return True

    def s_While(self, s, st, fr):
        names = self.assigned_names(s.body + [s.test])

        def iterate(h, lid):
            res = []
            for t, v in self.cond(s.test, h, fr):
                if isinstance(v, Abrupt):
                    res.append(self.ab(t, v))
                elif not v:
                    res.append((t, "exit", None))
                else:
                    for t2, sig, val in self.block(s.body, t, fr):
                        if sig in ("next", "continue"):
                            res.append((t2, "back", None))
                        else:
                            res.append((t2, sig, val))
            return res

        out = []
        if self.peel:
            return self.peeled(s, st, fr)
        lid, hv, outs = self.loop(s, st, fr, iterate, names, "while")
        for t, sig, v in outs:
            if sig == "exit":
                out += self.block(s.orelse, t, fr) if s.orelse else [(t, "next", None)]
            elif sig == "back":
                last = self.last_round(s.test, t, fr)
                if last is None:
                    out.append((t, "cut", self.cut_info(st, t, fr, lid, names, hv, s)))
                else:
                    for t2 in last:
                        out += self.block(s.orelse, t2, fr) if s.orelse else [(t2, "next", None)]
            elif sig == "break":
                out.append((t, "next", None))
            else:
                out.append((t, sig, v))
        return out

    def last_round(self, test, st, fr):
        """the states after the condition of a loop, when it is known to be false after this round"""
        if isinstance(test, ast.Constant):
            return None
        outs = self.cond(test, st.copy(), fr)
        if outs and all(not isinstance(v, Abrupt) and not v for _, v in outs):
            return [t for t, _ in outs]
        return None

    def peeled(self, s, st, fr):
        """the first iterations one by one, with nothing forgotten; what would go on beyond is cut"""
        out, states = [], [st]
        self.emit(st, fr, s, "loop", "while", info={"id": st.new(), "node": s, "coll": None})
        for i in range(self.peel):
            nxt = []
            for h in states:
                for t, v in self.cond(s.test, h, fr):
                    if isinstance(v, Abrupt):
                        out.append(self.ab(t, v))
                    elif not v:
                        out += self.block(s.orelse, t, fr) if s.orelse else [(t, "next", None)]
                    else:
                        for t2, sig, val in self.block(s.body, t, fr):
                            if sig in ("next", "continue"):
                                nxt.append(t2)
                            elif sig == "break":
                                out.append((t2, "next", None))
                            else:
                                out.append((t2, sig, val))
            states = nxt
            if len(states) + len(out) > self.max_paths:
                raise Budget(f"{fr.func.qual}: more than {self.max_paths} paths in a loop")
        for t in states:
            out.append((t, "cut", {"loop": None, "vars": {}, "node": s, "func": fr.func.qual, "loc": self.loc(fr, s), "peeled": True}))
        return out

    def cut_info(self, entry, end, fr, lid, names, hv, node):
        iv = {}
        de = entry.envs[fr.env][1]
        dd = end.envs[fr.env][1]
        for n in names:
            if n in de and n in dd:
                iv[n] = (de[n], ("H", lid, n, self.htype(entry, de[n])), dd[n])
        for k in hv:
            if k[0] == "heap":
                iv[(k[1], k[2])] = (entry.heap.get((k[1], k[2])), None, end.heap.get((k[1], k[2])))
            elif k[0] == "objkey" and k[1] in entry.objs and k[1] in end.objs:
                old = entry.objs[k[1]]["items"].get(k[2])
                iv[("item", k[1], k[2])] = (old, ("H", lid, ("item", k[1], k[2]), self.htype(entry, old) if old is not None else None), end.objs[k[1]]["items"].get(k[2]))
        return {"loop": lid, "vars": iv, "node": node, "func": fr.func.qual, "loc": self.loc(fr, node)}

    def s_For(self, s, st, fr, is_async=False):
        out = []
        for t, it in self.ev(s.iter, st, fr):
            if isinstance(it, Abrupt):
                out.append(self.ab(t, it))
                continue
            out += self.for_over(s, it, t, fr, lambda tt, el: self.assign(s.target, tt, el, fr, s),
                                 lambda tt: self.block(s.body, tt, fr), s.orelse,
                                 self.assigned_names(s.body), is_async,
                                 self.assigned_names([s.target]))
        return out

    def s_AsyncFor(self, s, st, fr):
        return self.s_For(s, st, fr, True)

    def concrete_elems(self, st, it):
        """elements if the collection is fully known and small (a table of constants may be larger)"""
        def fixed(x):
            return x[0] in ("K", "C", "F", "X") or x[0] == "T" and all(fixed(y) for y in x[1:]) or enum_key(x) is not None

        def small(xs):
            return len(xs) <= self.unroll or len(xs) <= 40 and all(fixed(x) for x in xs)
        if it[0] == "T":
            return list(it[1:]) if small(it[1:]) else None
        if it[0] == "O":
            o = st.objs[it[1]]
            if o["kind"] == "list" and all(x[0] == "one" for x in o["seq"]) and small([x[1] for x in o["seq"]]):
                return [x[1] for x in o["seq"]]
            if o["kind"] == "dict" and o["rest"] is None and (len(o["items"]) <= self.unroll or small(list(o["items"]) + list(o["items"].values()))):
                return list(o["items"])
            if o["kind"] == "set" and o["rest"] is None and len(o["items"]) <= self.unroll:
                return list(o["items"])
        if it[0] == "A" and it[1] in ("items", "values", "keys") and it[2][0] == "O":
            o = st.objs[it[2][1]]
            if o["kind"] == "dict" and o["rest"] is None and (len(o["items"]) <= self.unroll or small(list(o["items"]) + list(o["items"].values()))):
                if it[1] == "items":
                    return [("T", k, v) for k, v in o["items"].items()]
                return list(o["items"]) if it[1] == "keys" else list(o["items"].values())
        if it[0] == "A" and it[1] == "enumerate":
            es = self.concrete_elems(st, it[2])
            start = it[3] if len(it) > 3 else K(0)
            if es is not None and start[0] == "K" and isinstance(start[2], int):
                return [("T", K(i), e) for i, e in enumerate(es, start[2])]
        if it[0] == "A" and it[1] == "reversed":
            es = self.concrete_elems(st, it[2])
            if es is not None:
                return es[::-1]
        if it[0] == "A" and it[1] == "range" and all(x[0] == "K" for x in it[2:]):
            try:
                r = list(range(*[x[2] for x in it[2:]]))
            except Exception:
                return None
            return [K(i) for i in r] if len(r) <= self.unroll else None
        return None

    def canon_coll(self, st, it):
        """normal form of an iterated collection: (collection, shape)"""
        if it[0] == "O":
            o = st.objs[it[1]]
            if o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] == "all":
                return self.canon_coll(st, o["seq"][0][1])
            if o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] == "rev":
                return A("reversed", self.canon_coll(st, o["seq"][0][1]))
        if it[0] == "A" and it[1] == "reversed":
            inner = self.canon_coll(st, it[2])
            if inner[0] == "A" and inner[1] == "reversed":
                return inner[2]
            return A("reversed", inner)
        if it[0] == "A" and it[1] == "slice" and it[3:] == (NONE, NONE, K(-1)):
            return A("reversed", self.canon_coll(st, it[2]))
        if it[0] == "A" and it[1] == "slice" and it[3:] in ((NONE, NONE, NONE),):
            return self.canon_coll(st, it[2])
        return it

    def indexed(self, s, st, fr, coll):
        """what a loop over range(len(x)) goes through: the numbered elements of x"""
        if coll[:2] == ("A", "range") and len(coll) == 3 and isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and len(s.iter.args) == 1:
            a = s.iter.args[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and isinstance(a.args[0], ast.Name):
                v = self.lookup(st, fr, a.args[0].id)
                if v is not None and self.len_term(st, v) == coll[2]:
                    return A("enumerate", self.canon_coll(st, v))
        return coll

    def elem_of(self, st, coll, lid):
        """the generic element of a collection in loop lid"""
        if coll[0] == "A":
            if coll[1] == "enumerate":
                inner = self.canon_coll(st, coll[2])
                start = coll[3] if len(coll) > 3 else K(0)
                return ("T", add(A("idx", lid), start) or A("idx", lid), self.elem_of(st, inner, lid))
            if coll[1] == "items":
                k = A("elem", A("keys", coll[2]), lid)
                return ("T", k, self.getitem_val(st, coll[2], k))
            if coll[1] == "zip":
                return ("T",) + tuple(self.elem_of(st, self.canon_coll(st, c), lid) for c in coll[2:])
            if coll[1] == "range":
                if len(coll) == 3:
                    v = A("idx", lid)
                    self.rangeof = getattr(self, "rangeof", {})
                    self.rangeof[v] = coll
                    return v
            if coll[1] == "values":
                v = A("elem", coll, lid)
                t = self.elem_type(self.typeof(st, coll[2]))
                if t:
                    self.ttypes[v] = t
                return v
        if coll[0] == "O":
            o = st.objs[coll[1]]
            if o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] == "map":
                _, c2, l2, term = o["seq"][0]
                return subst(term, {l2: lid})
            if o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] == "revmap" and not mentions(o["seq"][0][3], A("idx", o["seq"][0][2])):
                _, c2, l2, term = o["seq"][0]
                back = c2[2] if c2[0] == "A" and c2[1] == "reversed" else A("reversed", c2)
                return substv(term, {A("elem", c2, l2): self.elem_of(st, back, lid)})
        v = A("elem", coll, lid)
        c = coll
        while c[0] == "A" and c[1] in ("reversed", "sorted"):
            c = c[2]
        t = self.elem_type(self.typeof(st, c))
        if t:
            self.ttypes[v] = t
        return v

    def for_generator(self, it, st, fr, bind, body, orelse):
        func = next((f for f in self.p.funcs if f.qual == it[2]), None)
        if func is None or func.fid in fr.stack:
            return None
        selfval = None if it[3] == NONE else it[3]
        binds, missing = self.bind(func, selfval, list(it[4:]), {}, st)
        if missing:
            return None
        mark = st.new()

        def on_yield(t, v):
            res = []
            for t2, sg, vv in bind(t, v):
                for t3, sig, val in (body(t2) if sg == "next" else [(t2, sg, vv)]):
                    if sig in ("next", "continue"):
                        res.append((t3, NONE))
                    else:   # leaves the loop: the generator is not resumed
                        res.append((t3, Abrupt("cut", ("genstop", mark, sig, val))))
            return res
        out = []
        for t, v in self.call_body(func, binds, selfval, st, None, fr.stack, on_yield=on_yield):
            if isinstance(v, Abrupt):
                if isinstance(v.val, tuple) and v.val[:2] == ("genstop", mark):
                    sig, val = v.val[2:]
                    out.append((t, "next", None) if sig == "break" else (t, sig, val))
                else:
                    out.append(self.ab(t, v))
            else:
                out += self.block(orelse, t, fr) if orelse else [(t, "next", None)]
        return out

    def parts_of(self, st, it):
        """a list of known elements and whole collections: its parts in order"""
        if it[0] != "O" or st.objs[it[1]]["kind"] != "list":
            return None
        seq = st.objs[it[1]]["seq"]
        tags = {x[0] for x in seq}
        if len(seq) < 2 or tags - {"one", "map", "all", "rev", "revmap", "fmap"} or tags == {"one"} or len(seq) > self.unroll:
            return None
        parts = []
        for x in seq:
            if x[0] == "one" and parts and parts[-1][0][0] == "one":
                parts[-1] += (x,)
            else:
                parts.append((x,))
        return parts

    def for_over(self, s, it, st, fr, bind, body, orelse, names, is_async, tnames=()):
        el = self.concrete_elems(st, it)
        if el is not None:
            cur, out = [st], []
            for e in el:
                nxt = []
                for c in cur:
                    for t, sg, v in bind(c, e):
                        if sg != "next":
                            out.append((t, sg, v))
                            continue
                        for t2, sig, val in body(t):
                            if sig in ("next", "continue"):
                                nxt.append(t2)
                            elif sig == "break":
                                out.append((t2, "next", None))
                            else:
                                out.append((t2, sig, val))
                cur = nxt
            for c in cur:
                out += self.block(orelse, c, fr) if orelse else [(c, "next", None)]
            return out
        if self.inline_gen and not is_async and it[:2] == ("A", "gen"):
            out = self.for_generator(it, st, fr, bind, body, orelse)
            if out is not None:
                return out
        parts = self.parts_of(st, it)
        if parts is not None:
            def part_body(tt):
                return [(t, "partbreak", v) if sig == "break" else (t, sig, v) for t, sig, v in body(tt)]
            cur, out = [st], []
            for p in parts:
                nxt = []
                for c in cur:
                    n = c.new()
                    c.objs[n] = dict(c.objs[it[1]], seq=p)
                    for t, sig, v in self.for_over(s, ("O", n), c, fr, bind, part_body, [], names, is_async, tnames):
                        if sig == "next":
                            nxt.append(t)
                        else:
                            out.append((t, "next", None) if sig == "partbreak" else (t, sig, v))
                cur = nxt
            for c in cur:
                out += self.block(orelse, c, fr) if orelse else [(c, "next", None)]
            return out
        coll = self.canon_coll(st, it)

        def iterate(h, lid):
            res = [(h.copy(), "exit", None)]
            elem = self.elem_of(h, coll, lid)
            for t, sg, v in bind(h, elem):
                if sg != "next":
                    res.append((t, sg, v))
                    continue
                if is_async:
                    self.suspend(t, fr, s, "async for")
                for t2, sig, val in body(t):
                    res.append((t2, "back" if sig in ("next", "continue") else sig, val))
            return res

        allnames = set(names) | set(tnames)
        through = self.indexed(s, st, fr, coll)
        lid, hv, outs = self.loop(s, st, fr, iterate, allnames, "for", through)
        if through is not coll:
            coll = through[2]
        backs = [t for t, sig, v in outs if sig == "back"]
        out = []
        broke = any(sig in ("break", "partbreak") for _, sig, _ in outs)
        for t, sig, v in outs:
            if sig == "exit":
                self.summarise(st, t, backs, fr, lid, allnames, hv, coll, broke)
                out += self.block(orelse, t, fr) if orelse else [(t, "next", None)]
            elif sig == "back":
                self.resolve_affine(st, t, backs, fr, lid, allnames)
                out.append((t, "cut", self.cut_info(st, t, fr, lid, allnames, hv, s)))
            elif sig == "break":
                out.append((t, "next", None))
            else:
                out.append((t, sig, v))
        return out

    def affine(self, st, backs, fr, lid, names):
        """loop variables whose every back edge adds the same constant: name -> (entry, k)"""
        res = {}
        de = st.envs[fr.env][1]
        for n in names:
            if n not in de or not backs:
                continue
            h = ("H", lid, n, self.htype(st, de[n]))
            ks = set()
            for t in backs:
                e = t.envs[fr.env][1].get(n)
                d = add(e, h, -1) if e is not None else None
                ks.add(d[2] if d is not None and d[0] == "K" else None)
            if len(ks) == 1 and None not in ks and lin(de[n]) is not None:
                res[h] = (de[n], ks.pop(), n)
        return res

    def resolve_affine(self, st, t, backs, fr, lid, names):
        pass

    def summarise(self, st, t, backs, fr, lid, names, hv, coll, broke):
        """exit state: closed forms for counters and accumulated lists"""
        aff = self.affine(st, backs, fr, lid, names)
        sub = {}
        for h, (e, k, n) in aff.items():
            sub[h] = add(e, mul(K(k), A("idx", lid)))
            if not broke:
                t.envs[fr.env][1][n] = add(e, mul(K(k), A("len", coll)))
        for k in hv:
            if k[0] != "obj" or k[1] not in st.objs or st.objs[k[1]]["kind"] != "list":
                continue
            oid = k[1]
            pats = set()
            for b in backs:
                seq = b.objs[oid]["seq"]
                self.remember(b, ("seq",) + tuple(seq))
                if seq and seq[0] == ("pre", lid, oid):
                    pats.add(tuple(self.subst_state(b, x, sub) for x in seq[1:]))
                else:
                    pats.add(None)
            if None in pats or broke:
                t.objs[oid] = dict(st.objs[oid], seq=(("unk", lid, oid),))
                continue
            pats = list(pats)
            base = st.objs[oid]["seq"]
            if len(pats) == 1 and len(pats[0]) == 1 and pats[0][0][0] == "one":
                t.objs[oid] = dict(st.objs[oid], seq=base + (("map", coll, lid, pats[0][0][1]),))
            elif len(pats) == 1 and not pats[0]:
                t.objs[oid] = dict(st.objs[oid])
            else:
                ones = [p for p in pats if p]
                if all(len(p) == 1 and p[0][0] == "one" for p in ones):
                    t.objs[oid] = dict(st.objs[oid], seq=base + (("fmap", coll, lid, tuple(sorted((p[0][1] for p in ones), key=repr))),))
                else:
                    t.objs[oid] = dict(st.objs[oid], seq=(("unk", lid, oid),))

    def remember(self, st, v):
        """the calls on this path whose results v mentions: their events are not on the paths that leave the loop"""
        todo, seen = [v], set()
        while todo:
            for t in subterms(todo.pop()):
                if t in seen or t[0] != "R" or not isinstance(t[1], int) or t[1] >= len(st.trace):
                    continue
                seen.add(t)
                e = st.trace[t[1]]
                if e.res == t:
                    src = [a for a in list(e.args) + list(e.kw.values()) + [e.recv] if isinstance(a, tuple)]
                    st.origins.setdefault(t, set()).update(src)
                    todo += src

    def subst_state(self, st, seg, sub):
        if seg[0] != "one":
            return seg
        return ("one", self.reify(st, substv(seg[1], sub), sub))

    def reify(self, st, v, sub=None):
        """turn an object allocated on this path into a pure record term, so it survives its loop"""
        if v[0] == "O":
            o = st.objs.get(v[1])
            if o is None:
                return v
            if o["kind"] == "inst":
                fs = tuple(sorted((k[1], self.reify(st, substv(x, sub or {}), sub)) for k, x in st.heap.items()
                                  if k[0] == v))
                return A("rec", o["cls"], fs)
            if o["kind"] == "list":
                return A("listof", *[(x[0],) + tuple(self.reify(st, substv(y, sub or {}), sub) if isinstance(y, tuple) else y for y in x[1:]) for x in o["seq"]])
            if o["kind"] == "dict":
                return A("dictof", tuple((k, self.reify(st, substv(x, sub or {}), sub)) for k, x in o["items"].items()), o["rest"] or NONE)
        return v

    # ============================================================== conditions
    def cond(self, e, st, fr):
        """-> [(state, bool | Abrupt)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, out = [st], []
            for i, x in enumerate(e.values):
                nxt = []
                for c in cur:
                    for t, v in self.cond(x, c, fr):
                        if isinstance(v, Abrupt):
                            out.append((t, v))
                        elif v == is_and:
                            nxt.append(t)
                        else:
                            out.append((t, v))
                cur = nxt
            return out + [(c, is_and) for c in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(t, v if isinstance(v, Abrupt) else not v) for t, v in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [r]), e))
                left = r
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, fr)
        out = []
        for t, v in self.ev(e, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
            else:
                out += self.truth_fork(t, v, fr, e)
        return out

    def truth_fork(self, st, v, fr=None, node=None):
        return self.fork(st, v)

    def fork(self, st, v):
        b = self.truth(st, v)
        if b is not None:
            return [(st, b)]
        t = st.copy()
        out = []
        if self.assume(t, v, True):
            out.append((t, True))
        if self.assume(st, v, False):
            out.append((st, False))
        return out

    def maybe_none_only(self, st, v):
        """a value that is falsy exactly when it is None"""
        t = self.typeof(st, v)
        c = self.tclass(t)
        if c is not None:
            return not (self.p.find_method(c, "__bool__") or self.p.find_method(c, "__len__"))
        if isinstance(t, str) and t.startswith("x:asyncio."):
            return True
        if v[0] == "A" and v[1] == "item" and len(v) == 4 and v[2][0] == "R" and v[3][0] == "K" and isinstance(v[2][1], int) and v[2][1] < len(st.trace):
            return st.trace[v[2][1]].label.split(".")[-1] in ("open_connection", "open_unix_connection", "create_datagram_endpoint")
        return False

    def atom(self, st, v):
        """canonical boolean atom of a value's truth: (key, polarity)"""
        pol = True
        while v[0] == "A" and v[1] == "not":
            v = v[2]
            pol = not pol
        if v[0] == "A" and v[1] == "ne":
            v = A("eq", *v[2:])
            pol = not pol
        if v[0] == "A" and v[1] == "isnot":
            v = A("is", *v[2:])
            pol = not pol
        if v[0] == "A" and v[1] == "notin":
            v = A("in", *v[2:])
            pol = not pol
        if v[0] == "A" and v[1] == "bool":
            return self._flip(self.atom(st, v[2]), pol)
        if v[0] == "A" and v[1] == "eq" and NONE in v[2:] :
            v = A("is", *v[2:])
        if v[0] == "A" and v[1] in ("eq", "is"):
            a, b = v[2], v[3]
            # == True / is False
            for x, y in ((a, b), (b, a)):
                if y in (TRUE, FALSE):
                    k, p = self.atom(st, x)
                    return k, p == (pol == (y == TRUE))
            if repr(a) > repr(b):
                a, b = b, a
            v = A(v[1], a, b)
        elif v[0] != "A" or v[1] not in ("lt", "in", "isinstance", "hasattr"):
            if self.maybe_none_only(st, v):
                a, b = v, NONE
                if repr(a) > repr(b):
                    a, b = b, a
                return A("is", a, b), not pol
            if v[0] == "A" and v[1] == "len":
                return A("lin", mklin(0, {v: 1})), pol   # len(x) != 0
        return v, pol

    def _flip(self, kp, pol):
        return kp[0], kp[1] == pol

    def truth(self, st, v):
        t = v[0]
        if t == "K":
            return bool(v[2])
        if t in ("F", "C", "X", "M", "P", "B", "Coro"):
            return True
        if t == "T":
            return len(v) > 1
        if t == "O":
            o = st.objs[v[1]]
            if o["kind"] == "inst":
                c = self.p.classes[o["cls"]]
                if self.p.find_method(c, "__bool__") or self.p.find_method(c, "__len__"):
                    return None
                return True
            if o["kind"] == "list":
                if not o["seq"]:
                    return False
                if any(x[0] == "one" for x in o["seq"]):
                    return True
                return None
            if o["kind"] in ("dict", "set"):
                if o["items"]:
                    return True
                return False if o["rest"] is None else None
            return None
        if t == "E":
            return True
        if t == "L" or (t == "A" and v[1] in ("len",)):
            lo, hi = self.bound(st, v)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            if lo == 0 and hi == 0:
                return False
        if t == "A":
            if v[1] == "not":
                r = self.truth(st, v[2])
                return None if r is None else not r
            if v[1] in ("lt", "le", "gt", "ge", "eq", "ne"):
                r = self.num_truth(st, v)
                if r is not None:
                    return r
            if v[1] in ("is", "isnot", "eq", "ne"):
                r = self.same(st, v[2], v[3], v[1] in ("eq", "ne"))
                if r is not None:
                    return r if v[1] in ("is", "eq") else not r
            if v[1] == "isinstance":
                r = self.isinst(st, v[2], v[3])
                if r is not None:
                    return r
            if v[1] in ("in", "notin") and v[3][0] == "O":
                r = self.contains(st, v[2], v[3])
                if r is not None:
                    return r if v[1] == "in" else not r
        k, pol = self.atom(st, v)
        f = st.facts.get(k)
        if f is not None:
            return f == pol
        if k[0] == "A" and k[1] == "lin":
            lo, hi = self.bound(st, k[2])
            if lo is not None and lo > 0:
                return pol
            if lo == 0 and hi == 0:
                return not pol
        if k != v and k[0] == "A" and k[1] in ("is",):
            r = self.same(st, k[2], k[3], False)
            if r is not None:
                return r == pol
        return None

    def contains(self, st, x, o):
        ob = st.objs[o[1]]
        if ob["kind"] in ("dict", "set"):
            if x in ob["items"]:
                return True
            if ob["rest"] is None and (not ob["items"] or (x[0] == "K" and all(k[0] == "K" for k in ob["items"]))):
                return False
        if ob["kind"] == "list" and all(s[0] == "one" for s in ob["seq"]):
            vals = [s[1] for s in ob["seq"]]
            if x in vals:
                return True
            if x[0] == "K" and all(v[0] == "K" for v in vals):
                return False
        return None

    def same(self, st, a, b, eq):
        if a == b:
            return True
        fresh = lambda v: v[0] == "O"
        if a[0] == "K" and b[0] == "K":
            try:
                return a[2] == b[2] if eq else (a[1] == b[1] and a[2] == b[2])
            except Exception:
                return None
        for x, y in ((a, b), (b, a)):
            if y == NONE and x[0] in ("O", "F", "C", "T", "X", "M", "E", "L", "P", "B", "Coro"):
                return False
            if y == NONE and x[0] == "R" and isinstance(x[1], int) and x[1] < len(st.trace):
                e = st.trace[x[1]]
                if e.res == x and e.info and e.info.get("async") and not any(w.kind == "await" and w.recv == x for w in st.trace[x[1]:]):
                    return False        # a coroutine nobody has awaited yet
            if y == NONE and x[0] == "A" and x[1] in ("fstr", "concat", "rec", "new", "len", "str", "encode", "int", "float", "repr", "bytes"):
                return False
            if not eq and x[0] == "O" and y[0] in ("O", "S", "R", "H", "A", "K"):
                return False
            if x[0] == "O" and y == NONE:
                return False
            if x[0] == "C" and y[0] == "C":
                return False
        ea, eb = enum_key(a), enum_key(b)
        if ea and eb and ea[0] == eb[0]:
            return ea[1] == eb[1]
        # through equalities with constants
        if eq:
            for x, y in ((a, b), (b, a)):
                if y[0] == "K":
                    for (k, f) in st.facts.items():
                        if f and k[0] == "A" and k[1] == "eq":
                            if k[2] == x and k[3][0] == "K" and k[3] != y:
                                return False
                            if k[3] == x and k[2][0] == "K" and k[2] != y:
                                return False
        return None

    def isinst(self, st, v, c):
        if c[0] == "T":
            rs = [self.isinst(st, v, x) for x in c[1:]]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        t = self.typeof(st, v)
        if v[0] == "E" or (v[0] == "A" and v[1] == "new"):
            ec, exact = self.exc_cls(st, v)
            tgt = self.p.classes.get(c[1], c[1]) if c[0] == "C" else c[1]
            if self.is_exc_sub(ec, tgt):
                return True
            if exact or not self.is_exc_sub(tgt, ec):
                return False
            if v[0] == "E" and any(self.is_exc_sub(tgt, self.p.classes.get(x, x)) for x in v[2]):
                return False
            return None
        if v[0] == "K":
            n = c[1].split(".")[-1]
            if c[0] == "X" and n in ("str", "int", "float", "bool", "bytes", "dict", "list", "tuple", "set"):
                return v[1] == n or (v[1] == "bool" and n == "int")
            if v == NONE:
                return False
            return None
        if v[0] == "O":
            o = st.objs[v[1]]
            if o["kind"] == "inst":
                oc = self.p.classes[o["cls"]]
                if c[0] == "C":
                    return self.p.classes[c[1]] in self.p.mro(oc)
                if c[0] == "X":
                    return any(c[1] == b or str(b).split(".")[-1] == c[1].split(".")[-1] for b in self.p.mro(oc)
                               if not isinstance(b, Class)) or (True if self.is_exc_sub(oc, c[1]) and c[1] in ("Exception", "BaseException") else False)
                return None
            n = c[1].split(".")[-1]
            return {"list": "List"}.get(o["kind"], o["kind"]) == n or o["kind"] == n
        return None

    # ---------------------------------------------------------- integer bounds
    def norm(self, v):
        """linear form v -> (canonical terms tuple, const, sign)"""
        l = lin(v)
        if l is None:
            return None
        c, terms = l
        t = sorted(((k, n) for k, n in terms.items() if n), key=repr)
        if not t:
            return (), c, 1
        sg = 1 if t[0][1] > 0 else -1
        return tuple((k, n * sg) for k, n in t), c, sg

    def bound(self, st, v):
        n = self.norm(v)
        if n is None:
            return None, None
        t, c, sg = n
        if not t:
            return c, c
        lo, hi = st.bounds.get(t, (None, None))
        if (lo is None or hi is None) :
            # sum of bounds of the single terms
            slo, shi = 0, 0
            for k, m in t:
                l1, h1 = st.bounds.get(((k, 1),), (None, None))
                if l1 is None and k[0] == "A" and k[1] in ("len", "idx", "count"):
                    l1 = 0
                a, b = (l1, h1) if m > 0 else (h1, l1)
                slo = None if slo is None or a is None else slo + a * m
                shi = None if shi is None or b is None else shi + b * m
            if lo is None or (slo is not None and slo > lo):
                lo = slo
            if hi is None or (shi is not None and shi < hi):
                hi = shi
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def set_bound(self, st, v, lo=None, hi=None):
        """assume lo <= v <= hi; False when contradictory"""
        t, c, sg = self.norm(v)
        if not t:
            return (lo is None or c >= lo) and (hi is None or c <= hi)
        if lo is not None:
            lo -= c
        if hi is not None:
            hi -= c
        if sg < 0:
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        l0, h0 = st.bounds.get(t, (None, None))
        if lo is not None and (l0 is None or lo > l0):
            l0 = lo
        if hi is not None and (h0 is None or hi < h0):
            h0 = hi
        st.bounds[t] = (l0, h0)
        l1, h1 = self.bound(st, mklin(0, dict(t)))
        if l1 is not None and h1 is not None and l1 > h1:
            return False
        return True

    def num_truth(self, st, v):
        d = add(v[2], v[3], -1)
        if d is None:
            return None
        if v[1] in ("eq", "ne") and not (self.numeric(st, v[2]) or self.numeric(st, v[3])):
            return None
        lo, hi = self.bound(st, d)
        op = v[1]
        if op == "lt":
            if hi is not None and hi < 0: return True
            if lo is not None and lo >= 0: return False
        elif op == "le":
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        elif op == "gt":
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
        elif op == "ge":
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        elif op in ("eq", "ne"):
            if lo is not None and hi is not None and lo == hi == 0: return op == "eq"
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return op == "ne"
        return None

    def numeric(self, st, v):
        if v[0] == "L" or (v[0] == "K" and v[1] in ("int", "float")):
            return True
        if v[0] == "A" and v[1] in ("len", "idx", "int", "count"):
            return True
        return self.typeof(st, v) in ("x:int", "x:float")

    def assume(self, st, v, b):
        if v[0] == "A" and v[1] == "not":
            return self.assume(st, v[2], not b)
        if v[0] == "A" and v[1] in ("lt", "le", "gt", "ge"):
            d = add(v[2], v[3], -1)
            if d is not None:
                op = v[1] if b else {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[v[1]]
                ok = {"lt": lambda: self.set_bound(st, d, hi=-1), "le": lambda: self.set_bound(st, d, hi=0),
                      "gt": lambda: self.set_bound(st, d, lo=1), "ge": lambda: self.set_bound(st, d, lo=0)}[op]()
                st.facts[A(*([op] + list(v[2:])))] = True
                return ok
        if v[0] == "A" and v[1] in ("eq", "ne") and (self.numeric(st, v[2]) or self.numeric(st, v[3])):
            d = add(v[2], v[3], -1)
            if d is not None:
                eq = (v[1] == "eq") == b
                k, pol = self.atom(st, v)
                st.facts[k] = (b == pol)
                if eq:
                    return self.set_bound(st, d, 0, 0)
                lo, hi = self.bound(st, d)
                if lo == 0:
                    return self.set_bound(st, d, lo=1)
                if hi == 0:
                    return self.set_bound(st, d, hi=-1)
                return True
        k, pol = self.atom(st, v)
        if k[0] == "A" and k[1] == "lin":
            if b == pol:
                if self.bound(st, k[2])[0] == 0:
                    return self.set_bound(st, k[2], lo=1)
                return True
            return self.set_bound(st, k[2], 0, 0)
        if v[0] == "L" or (v[0] == "A" and v[1] == "len"):
            if not b:
                return self.set_bound(st, v, 0, 0)
            if self.bound(st, v)[0] == 0:
                return self.set_bound(st, v, lo=1)
            return True
        cur = st.facts.get(k)
        if cur is not None and cur != (b == pol):
            return False
        st.facts[k] = (b == pol)
        if (b == pol) and k[0] == "A" and k[1] == "eq":
            # equal to a constant: refine other recorded equalities
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                if y[0] == "K":
                    for k2, f2 in list(st.facts.items()):
                        if f2 and k2 != k and k2[0] == "A" and k2[1] == "eq" and x in k2[2:]:
                            z = k2[3] if k2[2] == x else k2[2]
                            if z[0] == "K" and z != y:
                                return False
        # a truthy value is not None; a None value is falsy
        if (b == pol) and k[0] in ("S", "R", "H") or (k[0] == "A" and k[1] not in ("is", "eq", "lt", "in", "isinstance")):
            a, c = (k, NONE) if repr(k) <= repr(NONE) else (NONE, k)
            if b == pol:
                if st.facts.get(A("is", a, c)) is True:
                    return False
                st.facts[A("is", a, c)] = False
        if k[0] == "A" and k[1] == "is" and NONE in k[2:] and (b == pol):
            x = k[2] if k[3] == NONE else k[3]
            if st.facts.get(x) is True:
                return False
            st.facts[x] = False
        return True

    # ============================================================== expressions
    def ev(self, e, st, fr):
        self.step()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((self.loc(fr, e), type(e).__name__))
            return [(st, A("opaque", K(ast.dump(e)[:80]), K(st.new())))]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """evaluate a list of expressions -> [(state, [values] | Abrupt)]; Starred gives ('*', v)"""
        cur = [(st, [])]
        out = []
        for e in es:
            nxt = []
            for t, vs in cur:
                x = e.value if isinstance(e, ast.Starred) else e
                for t2, v in self.ev(x, t, fr):
                    if isinstance(v, Abrupt):
                        out.append((t2, v))
                    elif isinstance(e, ast.Starred):
                        ce = self.concrete_elems(t2, v)
                        if ce is not None:
                            nxt.append((t2, vs + ce))
                        else:
                            nxt.append((t2, vs + [("*", v)]))
                    else:
                        nxt.append((t2, vs + [v]))
            cur = nxt
        return out + cur

    def e_Constant(self, e, st, fr):
        return [(st, K(e.value))]

    def from_resolved(self, r, name, m=None):
        if r is None:
            return None
        if r[0] == "class":
            return ("C", r[1].qual)
        if r[0] == "func":
            return ("F", r[1].fid, None, None)
        if r[0] == "module":
            return ("M", r[1])
        if r[0] == "ext":
            return ("X", r[1])
        if r[0] == "var":
            mod, nm, expr = r[1], r[2], r[3]
            if isinstance(expr, ast.Constant) and not self.reassigned(mod, nm):
                return K(expr.value)
            t = None
            if expr is not None:
                t = self.tk(self.p._expr_type(mod, expr, {}))
                if t is None and isinstance(expr, ast.Call):
                    d = ast.unparse(expr.func)
                    rr = self.p.resolve_expr(mod, expr.func)
                    t = "x:" + rr if isinstance(rr, str) else self.tk(rr)
                    if isinstance(rr, str) and rr in ("logging.getLogger",):
                        t = "x:logging.Logger"
                if isinstance(expr, (ast.List, ast.Tuple)) and not self.reassigned(mod, nm):
                    pass
            return ("S", f"{mod.name}.{nm}", t)
        return None

    def mutated_names(self):
        """names of variables and attributes whose value is changed in place anywhere in the program"""
        if getattr(self.p, "_mutated", None) is None:
            out = set()

            def last(x):
                return x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None

            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        out.add(last(n.func.value))
                    elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                        out.add(last(n.value))
                    elif isinstance(n, ast.AugAssign):
                        out.add(last(n.target))
            self.p._mutated = out
        return self.p._mutated

    def table(self, st, mod, nm, expr, fr, cls=None):
        """value of a module- or class-level table: a literal assigned once and never changed, of constants, classes, functions"""
        if isinstance(expr, ast.Call) and len(expr.args) == 1 and not expr.keywords and \
                (expr.func.attr if isinstance(expr.func, ast.Attribute) else getattr(expr.func, "id", "")) in ("MappingProxyType", "frozenset", "tuple", "dict"):
            expr = expr.args[0]
        if not isinstance(expr, (ast.Dict, ast.Tuple, ast.List, ast.Set)) or nm in self.mutated_names():
            return None
        if not (expr.keys if isinstance(expr, ast.Dict) else expr.elts):
            return None
        f2 = Frame()
        f2.func, f2.cls, f2.self, f2.module, f2.depth, f2.stack, f2.on_yield = fr.func, cls, None, mod, fr.depth, fr.stack, None
        n = len(st.trace)
        eid = st.new()
        st.envs[eid] = (None, {})
        f2.env = eid
        if cls is not None:
            for k, x in cls.attrs.items():
                if isinstance(x, ast.Constant):
                    st.envs[eid][1][k] = K(x.value)
        try:
            outs = self.ev(expr, st, f2)
        except Budget:
            raise
        except Exception:
            return None
        if len(outs) != 1 or isinstance(outs[0][1], Abrupt) or len(st.trace) != n:
            return None
        v = outs[0][1]

        def plain(x):
            if x[0] in ("K", "C", "X", "F") or (x[0] == "A" and x[1] == "enum"):
                return True
            if x[0] == "T":
                return all(plain(y) for y in x[1:])
            if x[0] == "O":
                o = st.objs[x[1]]
                if o["kind"] == "dict":
                    return o["rest"] is None and all(plain(k) and plain(y) for k, y in o["items"].items())
                if o["kind"] == "list":
                    return all(y[0] == "one" and plain(y[1]) for y in o["seq"])
                if o["kind"] == "set":
                    return o["rest"] is None and all(plain(y) for y in o["items"])
            return False
        return v if plain(v) else None

    def reassigned(self, mod, nm):
        n = 0
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store):
                n += 1
        return n > 1

    def e_Name(self, e, st, fr):
        v = self.lookup(st, fr, e.id)
        if v is not None:
            return [(st, v)]
        g = st.heap.get((("M", fr.module.name), e.id))
        if g is not None:
            return [(st, g)]
        # closures analysed without their environment
        r = self.p.resolve_name(fr.module, e.id)
        v = self.table(st, r[1], r[2], r[3], fr) if r and r[0] == "var" and not self.reassigned(r[1], r[2]) else None
        if v is None:
            v = self.from_resolved(r, e.id)
        if v is not None:
            return [(st, v)]
        o = fr.func.outer
        while o is not None:
            if not hasattr(_bi, e.id) or e.id in self.bound_names(o):
                return [(st, ("S", f"{o.qual}::{e.id}", self.outer_type(o, e.id)))]
            o = o.outer
        if hasattr(_bi, e.id):
            return [(st, ("X", e.id))]
        return [(st, ("S", e.id, None))]

    def bound_names(self, f):
        a = f.node.args
        out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not f.node:
                out.add(n.name)
        return out

    def outer_type(self, f, name):
        for a in f.node.args.args + f.node.args.kwonlyargs:
            if a.arg == name:
                return self.tk(self.p.ann_class(f.module, a.annotation))
        return None

    def e_Tuple(self, e, st, fr):
        return [(t, v if isinstance(v, Abrupt) else ("T",) + tuple(v)) for t, v in self.evs(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        out = []
        for t, v in self.evs(e.elts, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
                continue
            n = t.new()
            t.objs[n] = {"kind": "list", "seq": tuple(("all", x[1]) if x[0] == "*" else ("one", x) for x in v)}
            out.append((t, ("O", n)))
        return out

    def e_Set(self, e, st, fr):
        out = []
        for t, v in self.evs(e.elts, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
                continue
            n = t.new()
            t.objs[n] = {"kind": "set", "items": {x: TRUE for x in v}, "rest": None}
            out.append((t, ("O", n)))
        return out

    def e_Dict(self, e, st, fr):
        cur, out = [(st, {}, None)], []
        for k, v in zip(e.keys, e.values):
            nxt = []
            for t, items, rest in cur:
                if k is None:
                    for t2, x in self.ev(v, t, fr):
                        if isinstance(x, Abrupt):
                            out.append((t2, x))
                            continue
                        if x[0] == "O" and t2.objs[x[1]]["kind"] == "dict":
                            o = t2.objs[x[1]]
                            nxt.append((t2, {**items, **o["items"]}, o["rest"] or rest))
                        else:
                            nxt.append((t2, dict(items), x))
                    continue
                for t2, kv in self.evs([k, v], t, fr):
                    if isinstance(kv, Abrupt):
                        out.append((t2, kv))
                    else:
                        nxt.append((t2, {**items, kv[0]: kv[1]}, rest))
            cur = nxt
        for t, items, rest in cur:
            n = t.new()
            t.objs[n] = {"kind": "dict", "items": items, "rest": rest}
            out.append((t, ("O", n)))
        return out

    def e_JoinedStr(self, e, st, fr):
        parts = []
        exprs = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(("lit", p.value))
            else:
                parts.append(("exp", len(exprs), p.conversion, ast.unparse(p.format_spec) if p.format_spec else None))
                exprs.append(p.value)
        out = []
        for t, vs in self.evs(exprs, st, fr):
            if isinstance(vs, Abrupt):
                out.append((t, vs))
                continue
            segs = []
            for p in parts:
                if p[0] == "lit":
                    segs.append(K(p[1]))
                else:
                    v = vs[p[1]]
                    if v[0] == "K" and v[1] == "str" and p[3] is None and p[2] == -1:
                        segs.append(v)
                    elif v[0] == "A" and v[1] in ("concat", "fstr") and p[3] is None and p[2] == -1:
                        segs.extend(v[2:])
                    elif p[3] is not None or p[2] not in (-1, 115):
                        segs.append(A("fmt", v, K(p[3]), K(p[2])))
                    else:
                        segs.append(A("str", v) if not (v[0] == "A" and v[1] == "str") else v)
            out.append((t, mkstr(segs)))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_IfExp(self, e, st, fr):
        out = []
        for t, v in self.cond(e.test, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
            else:
                out += self.ev(e.body if v else e.orelse, t, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        cur, out = [st], []
        for i, x in enumerate(e.values):
            nxt = []
            for c in cur:
                for t, v in self.ev(x, c, fr):
                    if isinstance(v, Abrupt) or i == len(e.values) - 1:
                        out.append((t, v))
                        continue
                    for t2, b in self.fork(t, v):
                        if b == is_and:
                            nxt.append(t2)
                        else:
                            out.append((t2, v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for t, v in self.ev(e.operand, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
            elif isinstance(e.op, ast.Not):
                b = self.truth(t, v)
                out.append((t, K(not b) if b is not None else A("not", v)))
            elif isinstance(e.op, ast.USub):
                r = mul(K(-1), v)
                out.append((t, r if r is not None else A("neg", v)))
            else:
                out.append((t, v if isinstance(e.op, ast.UAdd) else A("inv", v)))
        return out

    def binop(self, op, l, r, st):
        if l[0] == "K" and r[0] == "K":
            v = fold_bin(op, l, r)
            if v is not None:
                return v
        if isinstance(op, ast.Add):
            if stringy(l) or stringy(r) or self.typeof(st, l) in ("x:str", "x:bytes") or self.typeof(st, r) in ("x:str", "x:bytes"):
                segs = []
                for x in (l, r):
                    segs.extend(x[2:] if x[0] == "A" and x[1] in ("concat", "fstr") else [x])
                return mkstr(segs)
            if l[0] == "T" and r[0] == "T":
                return l + r[1:]
            if l[0] == "O" and st.objs[l[1]]["kind"] == "list":
                n = st.new()
                st.objs[n] = dict(st.objs[l[1]])
                self.list_extend(st, ("O", n), r)
                return ("O", n)
            v = add(l, r)
            return v if v is not None else A("add", l, r)
        if isinstance(op, ast.Sub):
            v = add(l, r, -1)
            return v if v is not None else A("sub", l, r)
        if isinstance(op, ast.Mult):
            v = mul(l, r)
            return v if v is not None else A("mul", *sorted((l, r), key=repr))
        if isinstance(op, ast.BitOr) and (l[0] in ("C", "X") or r[0] in ("C", "X")):
            return ("T", l, r) if l[0] != "T" else l + (r,)
        if isinstance(op, ast.Mod) and l[0] == "K" and l[1] == "str":
            segs = percent_format(l[2], list(r[1:]) if r[0] == "T" else [r])
            if segs is not None and (r[0] in ("T", "K") or len(segs) and self.typeof(st, r) in ("x:str", "x:int")):
                return mkstr(segs)
        return A(type(op).__name__.lower(), l, r)

    def e_BinOp(self, e, st, fr):
        out = []
        for t, vs in self.evs([e.left, e.right], st, fr):
            out.append((t, vs) if isinstance(vs, Abrupt) else (t, self.binop(e.op, vs[0], vs[1], t)))
        return out

    CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is",
           ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def compare1(self, st, op, l, r):
        n = self.CMP[type(op)]
        if n in ("in", "notin"):
            if r[0] == "A" and r[1] in ("keys",):
                r = r[2]
            if r[0] == "O" and st.objs[r[1]]["kind"] == "list" and len(st.objs[r[1]]["seq"]) == 1 and st.objs[r[1]]["seq"][0][0] == "all":
                r = st.objs[r[1]]["seq"][0][1]
                if r[0] == "A" and r[1] == "keys":
                    r = r[2]
            if r[0] == "T":
                # membership in a literal tuple
                if l in r[1:]:
                    return K(n == "in")
            if r[0] not in ("O", "K", "T"):
                vn = st.ver.get(r, 0)
                v = A(n, l, r) if not vn else A(n, l, r, K(vn))
                return v
        v = A(n, l, r)
        b = self.truth(st, v)
        return K(b) if b is not None else v

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            out = []
            for t, b in self.cond(e, st, fr):
                out.append((t, b if isinstance(b, Abrupt) else K(b)))
            return out
        out = []
        for t, vs in self.evs([e.left, e.comparators[0]], st, fr):
            if isinstance(vs, Abrupt):
                out.append((t, vs))
                continue
            l, r = vs
            op = e.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                c = self.tclass(self.typeof(t, r))
                f = self.p.find_method(c, "__contains__") if c else None
                if f is not None and not self.opaque(f):
                    for t2, v in self.invoke(f, r, [l], {}, t, fr, e, None):
                        out.append((t2, v if isinstance(v, Abrupt) else (A("not", v) if isinstance(op, ast.NotIn) else v)))
                    continue
            out.append((t, self.compare1(t, op, l, r)))
        return out

    def e_NamedExpr(self, e, st, fr):
        out = []
        for t, v in self.ev(e.value, st, fr):
            if not isinstance(v, Abrupt):
                t.envs[fr.env][1][e.target.id] = v
                t.written.add(("env", fr.env, e.target.id))
            out.append((t, v))
        return out

    def e_Lambda(self, e, st, fr):
        f = self.p.make_func(e, fr.module, None, fr.func)
        return [(st, ("F", f.fid, fr.env, None))]

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(t, v if isinstance(v, Abrupt) else A("sl", *v)) for t, v in self.evs(parts, st, fr)]

    def e_Await(self, e, st, fr):
        return self.await_all(self.ev(e.value, st, fr), fr, e)

    def e_Yield(self, e, st, fr):
        out = []
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE)]
        for t, v in vals:
            if isinstance(v, Abrupt):
                out.append((t, v))
                continue
            if getattr(fr, "on_yield", None) is not None:
                out += fr.on_yield(t, v)
                continue
            self.emit(t, fr, e, "yield", "yield", args=(v,))
            out.append((t, ("R", len(t.trace), "yield", None)))
        return out

    def e_YieldFrom(self, e, st, fr):
        if not self.inline_gen:
            return self.e_Yield(e, st, fr)
        out = []
        hook = getattr(fr, "on_yield", None)

        def body(t, v):
            if hook is not None:
                return hook(t, v)
            self.emit(t, fr, e, "yield", "yield", args=(v,))
            return [(t, NONE)]
        for t, v in self.ev(e.value, st, fr):
            if isinstance(v, Abrupt):
                out.append((t, v))
                continue
            n = t.new()

            def bind(tt, el):
                tt.envs[("yf", n)] = (None, {"v": el})
                return [(tt, "next", None)]

            def run(tt):
                res = []
                for t2, r in body(tt, tt.envs[("yf", n)][1]["v"]):
                    res.append((t2, r.kind, r.val) if isinstance(r, Abrupt) else (t2, "next", None))
                return res
            for t2, sig, val in self.for_over(e, v, t, fr, bind, run, [], set(), False):
                out.append((t2, NONE) if sig == "next" else (t2, Abrupt(sig, val)))
        return out

    def comp(self, e, st, fr, kind):
        """comprehensions: as loops over a fresh list"""
        n = st.new()
        st.objs[n] = {"kind": "list", "seq": ()} if kind == "list" else {"kind": kind, "items": {}, "rest": None}
        acc = ("O", n)
        eid = st.new()
        st.envs[eid] = (fr.env, {})
        f2 = Frame()
        f2.func, f2.env, f2.cls, f2.self, f2.module, f2.depth, f2.stack = fr.func, eid, fr.cls, fr.self, fr.module, fr.depth, fr.stack

        def gen(i, t):
            if i == len(e.generators):
                if kind == "dict":
                    r = []
                    for t2, kv in self.evs([e.key, e.value], t, f2):
                        if isinstance(kv, Abrupt):
                            r.append(self.ab(t2, kv))
                        else:
                            o = t2.objs[n]
                            if o["kind"] == "dict":
                                t2.objs[n] = dict(o, items={**o["items"], kv[0]: kv[1]})
                                t2.objwritten.add(n)
                            r.append((t2, "next", None))
                    return r
                r = []
                for t2, v in self.ev(e.elt, t, f2):
                    if isinstance(v, Abrupt):
                        r.append(self.ab(t2, v))
                    else:
                        o = t2.objs[n]
                        if kind == "list":
                            t2.objs[n] = dict(o, seq=o["seq"] + (("one", v),))
                        else:
                            t2.objs[n] = dict(o, items={**o["items"], v: TRUE})
                        t2.objwritten.add(n)
                        r.append((t2, "next", None))
                return r
            g = e.generators[i]
            r = []
            for t2, it in self.ev(g.iter, t, f2):
                if isinstance(it, Abrupt):
                    r.append(self.ab(t2, it))
                    continue

                def body(tt, g=g, i=i):
                    cur, res = [tt], []
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            for t3, b in self.cond(c, x, f2):
                                if isinstance(b, Abrupt):
                                    res.append(self.ab(t3, b))
                                elif b:
                                    nxt.append(t3)
                                else:
                                    res.append((t3, "next", None))
                        cur = nxt
                    for x in cur:
                        res += gen(i + 1, x)
                    return res
                ec = len(t2.trace)
                os = self.for_over(e, it, t2, f2, lambda tt, el, g=g: self.assign(g.target, tt, el, f2, e), body, [],
                                   set(), g.is_async, self.assigned_names([g.target]))
                for o in os:
                    # iterations without effects need no cut
                    if o[1] == "cut" and not self.keep_cuts and all(x.kind in ("loop",) for x in o[0].trace[ec:]):
                        continue
                    r.append(o)
            return r

        out = []
        for t, sig, v in gen(0, st):
            if sig == "next":
                if kind in ("dict", "set") and t.objs[n]["rest"] is not None and t.objs[n]["rest"][0] == "H":
                    t.objs[n] = dict(t.objs[n], rest=A("comp", K(ast.unparse(e)), t.objs[n]["rest"]))
                out.append((t, acc))
            elif sig in ("raise", "cut"):
                out.append((t, Abrupt(sig, v)))
        return out

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # ---------------------------------------------------------- attribute access
    def e_Attribute(self, e, st, fr):
        out = []
        nm = mangle(e.attr, fr.cls.name if fr.cls else None)
        if isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "super":
            # super().x
            if fr.cls is not None and fr.self is not None:
                c = self.tclass(self.typeof(st, fr.self)) or fr.cls
                if fr.self[0] == "C":
                    c = self.p.classes[fr.self[1]]
                f = self.p.find_method(c, nm, after=fr.cls)
                if f is not None:
                    return [(st, ("F", f.fid, None, fr.self))]
                return [(st, ("B", A("super", fr.self), nm))]
        for t, b in self.ev(e.value, st, fr):
            if isinstance(b, Abrupt):
                out.append((t, b))
            else:
                out += self.getattr(t, b, nm, fr, e)
        return out

    def getattr(self, st, b, nm, fr, node):
        outs = self.getattr_(st, b, nm, fr, node)
        if self.pin is not None:
            outs = [(t, v if isinstance(v, Abrupt) or v[0] in ("K", "F", "C") else self.pinned(nm, v)) for t, v in outs]
        return outs

    def pinned(self, nm, v):
        p = self.pin(nm, v)
        return v if p is None else p

    def getattr_(self, st, b, nm, fr, node):
        if b[0] == "M":
            m = self.p.modules[b[1]]
            r = self.p.resolve_name(m, nm)
            v = self.table(st, r[1], r[2], r[3], fr) if r and r[0] == "var" and not self.reassigned(r[1], r[2]) else None
            if v is None:
                v = self.from_resolved(r, nm)
            if v is None and f"{b[1]}.{nm}" in self.p.modules:
                v = ("M", f"{b[1]}.{nm}")
            return [(st, v or ("S", f"{b[1]}.{nm}", None))]
        if b[0] == "X":
            d = f"{b[1]}.{nm}"
            return [(st, ("M", d) if d in self.p.modules else ("X", d))]
        if b[0] == "C":
            c = self.p.classes[b[1]]
            f = self.p.find_method(c, nm)
            if f is not None:
                return [(st, ("F", f.fid, None, b if f.kind == "class" else None))]
            if self.p.is_subclass(c, "Enum"):
                fa = self.p.find_attr(c, nm)
                if fa:
                    return [(st, A("enum", c.qual, nm))]
            h = st.heap.get((b, nm))
            if h is not None:
                return [(st, h)]
            fa = self.p.find_attr(c, nm)
            if fa:
                v = self.const_field(c, nm)
                if v is None and not self.mutable_attrs().get(nm):
                    v = self.table(st, fa[0].module, nm, fa[1], fr, fa[0])
                if v is not None:
                    return [(st, v)]
            v = A("attr", b, nm)
            t = self.tk(self.p.attr_type(c, nm))
            if t:
                self.ttypes[v] = t
            return [(st, v)]
        if b[0] == "A" and b[1] == "enum":
            c = self.p.classes[b[2]]
            if nm == "value":
                fa = self.p.find_attr(c, b[3])
                if fa and isinstance(fa[1], ast.Constant):
                    return [(st, K(fa[1].value))]
            if nm == "name":
                return [(st, K(b[3]))]
        h = st.heap.get((b, nm))
        if h is not None:
            if b[0] != "O" and self.late_written(nm):
                self.emit(st, fr, node, "read", nm, recv=b, res=h)
            return [(st, h)]
        tk = self.typeof(st, b)
        c = self.tclass(tk)
        if c is not None:
            f = self.p.find_method(c, nm)
            if f is not None:
                if f.kind == "property":
                    if self.opaque(f) or fr.stack.count(f.fid) >= 2:
                        v = A("attr", b, nm)
                        return [(st, v)]
                    return self.invoke(f, b, [], {}, st, fr, node, None)
                if f.kind == "static":
                    return [(st, ("F", f.fid, None, None))]
                if f.kind == "class":
                    return [(st, ("F", f.fid, None, ("C", c.qual)))]
                return [(st, ("F", f.fid, None, b))]
            v = self.const_field(c, nm)
            if v is not None and b[0] != "O":
                return [(st, v)]
            fa = self.p.find_attr(c, nm) if v is None and not self.is_model(c) and not self.mutable_attrs().get(nm) else None
            if fa is not None:
                v = self.table(st, fa[0].module, nm, fa[1], fr, fa[0])
                if v is not None:
                    return [(st, v)]
            if b[0] == "O":
                # a fresh object: class-level default
                fa = self.p.find_attr(c, nm)
                if fa is not None:
                    if isinstance(fa[1], ast.Constant):
                        return [(st, K(fa[1].value))]
                    if isinstance(fa[1], ast.Dict) and not fa[1].keys and self.is_model(c):
                        n = st.new()
                        st.objs[n] = {"kind": "dict", "items": {}, "rest": None}
                        st.heap[(b, nm)] = ("O", n)
                        return [(st, ("O", n))]
                if v is not None:
                    return [(st, v)]
            t = self.tk(self.p.attr_type(c, nm))
            ext = self.has_external_base(c) and t is None and not self.p.find_attr(c, nm)
            if self.volatile(st, b, nm, t) and st.epoch and b[0] != "O":
                v = A("attr", b, nm, K(st.epoch))
            else:
                v = A("attr", b, nm)
            if t:
                self.ttypes[v] = t
            if (t is None or t == "x:NoneType") and nm in self.typed:
                self.ttypes[v] = self.typed[nm]
            if b[0] != "O" and self.late_written(nm):
                self.emit(st, fr, node, "read", nm, recv=b, res=v)
            return [(st, v)]
        if b[0] in ("S", "R", "H", "A", "E", "K", "L", "O", "T", "B"):
            v = A("attr", b, nm)
            return [(st, v)]
        if b[0] == "F" and nm in ("__name__", "__wrapped__", "__qualname__"):
            return [(st, A("attr", b, nm))]
        return [(st, A("attr", b, nm))]

    def is_model(self, c):
        return any((not isinstance(b, Class)) and str(b).split(".")[-1] in ("BaseModel", "PydanticBaseModel")
                   for b in self.p.mro(c))

    def has_external_base(self, c):
        return any(not isinstance(b, Class) and b not in ("object", "abc.ABC", "typing.Generic", "ABC") for b in self.p.mro(c))

    def e_Subscript(self, e, st, fr):
        out = []
        for t, vs in self.evs([e.value, e.slice], st, fr):
            if isinstance(vs, Abrupt):
                out.append((t, vs))
                continue
            b, k = vs
            if b[0] in ("C", "X") and not (b[0] == "X" and b[1].split(".")[-1] == "environ") or (b[0] == "A" and b[1] == "typing"):
                out.append((t, b))        # generic alias
                continue
            c = self.tclass(self.typeof(t, b))
            f = self.p.find_method(c, "__getitem__") if c else None
            if f is not None and not self.opaque(f):
                out += self.invoke(f, b, [k], {}, t, fr, e, None)
                continue
            if self.inline_gen and k[0] == "K" and b[0] == "O" and t.objs[b[1]]["kind"] == "dict":
                o = t.objs[b[1]]
                if o["rest"] is None and k not in o["items"] and all(x[0] == "K" for x in o["items"]):
                    ex = ("E", "KeyError", (), t.new())
                    self.emit(t, fr, e, "raise", "KeyError", args=(ex,))
                    out.append((t, Abrupt("raise", ex)))
                    continue
            out.append((t, self.getitem_val(t, b, k)))
        return out

    def getitem_val(self, st, b, k):
        v = self.getitem_(st, b, k)
        if self.pin is not None and k[0] == "K" and k[1] == "str" and v[0] != "K":
            v = self.pinned(k[2], v)
        return v

    def getitem_(self, st, b, k):
        if k[0] == "A" and k[1] == "sl":
            lo, hi, stp = k[2:]
            if b[0] == "K" and all(x[0] == "K" for x in k[2:]):
                try:
                    return K(b[2][lo[2]:hi[2]:stp[2]])
                except Exception:
                    pass
            if b[0] == "O" and st.objs[b[1]]["kind"] == "list" and k[2:] == (NONE, NONE, NONE):
                n = st.new()
                st.objs[n] = dict(st.objs[b[1]])
                return ("O", n)
            if all(x[0] == "K" for x in k[2:]):
                try:
                    if b[0] == "T":
                        return ("T",) + b[1:][lo[2]:hi[2]:stp[2]]
                    if b[0] == "O" and st.objs[b[1]]["kind"] == "list" and all(x[0] == "one" for x in st.objs[b[1]]["seq"]):
                        n = st.new()
                        st.objs[n] = dict(st.objs[b[1]], seq=tuple(st.objs[b[1]]["seq"])[lo[2]:hi[2]:stp[2]])
                        return ("O", n)
                except Exception:
                    pass
            v = A("slice", b, lo, hi, stp)
            t = self.typeof(st, b)
            if t:
                self.ttypes[v] = t
            return v
        if k[0] == "K" and k[1] == "int":
            if b[0] == "T" and -(len(b) - 1) <= k[2] < len(b) - 1:
                return b[1:][k[2]]
            if b[0] == "K" and b[1] in ("str", "bytes", "tuple"):
                try:
                    return K(b[2][k[2]])
                except Exception:
                    pass
            if b[0] == "O" and st.objs[b[1]]["kind"] == "list":
                seq = st.objs[b[1]]["seq"]
                if all(x[0] == "one" for x in seq) and -len(seq) <= k[2] < len(seq):
                    return seq[k[2]][1]
        if b[0] == "O":
            o = st.objs[b[1]]
            if o["kind"] == "dict":
                if k in o["items"]:
                    return o["items"][k]
                if o["rest"] is not None:
                    return A("item", o["rest"], k)
        h = st.heap.get(("item", b, k))
        if h is not None:
            return h
        # x[i] with i running over range(len(x)) is the loop's element of x
        if k[0] == "A" and k[1] == "idx":
            rg = getattr(self, "rangeof", {}).get(k)
            cb = self.canon_coll(st, b)
            if rg is not None and rg == A("range", A("len", cb)) or rg == A("range", A("len", b)):
                return self.elem_of(st, cb, k[2])
            if rg is not None and len(rg) == 3 and cb[0] == "A" and cb[1] in ("items", "keys", "values") and rg[2] == ("A", "len") + cb[2:]:
                return self.elem_of(st, cb, k[2])
        vn = st.ver.get(b, 0)
        got = A("get", b, k) if not vn else A("get", b, k, A("v", K(vn)))
        if st.facts.get(A("is", got, NONE)) is False or st.facts.get(got) is True:
            return got              # x.get(k) was found to be something: x[k] is the same
        if b[0] == "X" and b[1].split(".")[-1] == "environ":
            for e in reversed(st.trace):
                if e.label in ("os.environ.get", "environ.get", "os.getenv", "getenv") and len(e.args) == 1 and e.args[0] == k and not e.kw:
                    if self.truth(st, e.res) is True or st.facts.get(A("is", e.res, NONE)) is False:
                        return e.res
                    break
        v = A("item", b, k, K(vn)) if vn else A("item", b, k)
        t = self.elem_type(self.typeof(st, b))
        if t:
            self.ttypes[v] = t
        return v

    # ============================================================== suspension
    def invalidate(self, st):
        for k in [k for k in st.heap if k[0] != "item" and k[0][0] != "O" and k[0][0] != "M"
                  and self.volatile(st, k[0], k[1], self._at(st, k))]:
            del st.heap[k]

    def _at(self, st, k):
        c = self.tclass(self.typeof(st, k[0]))
        return self.tk(self.p.attr_type(c, k[1])) if c else None

    def suspend(self, st, fr, node, label):
        self.emit(st, fr, node, "suspend", label)
        st.epoch += 1
        self.invalidate(st)

    def await_all(self, outs, fr, node):
        res = []
        for t, v in outs:
            if isinstance(v, Abrupt):
                res.append((t, v))
            else:
                res += self.await_(t, v, fr, node)
        return res

    def await_(self, st, v, fr, node):
        if v[0] == "Coro":
            f, binds, selfval, penv = st.coros[v[1]]
            return self.call_body(f, binds, selfval, st, penv, fr.stack)
        ev = None
        if v[0] == "R":
            for x in reversed(st.trace):
                if x.res == v:
                    ev = x
                    break
        if ev is not None and ev.info and ev.info.get("awaited_inline"):
            return [(st, v)]
        if ev is not None and self.nosuspend(ev):
            ev2 = self.emit(st, fr, node, "await", ev.label, recv=v)
            exs = self.may_raise(ev2, self)
            out = [(st, self.await_result(v, ev, st))]
            for x in exs:
                t = st.copy()
                exc = ("E", x, (), t.new())
                self.emit(t, fr, node, "raise", "from await", args=(exc,), info={"await": ev2})
                out.append((t, Abrupt("raise", exc)))
            return out
        ev2 = self.emit(st, fr, node, "await", ev.label if ev is not None else "?", recv=v, info={"ev": ev})
        if ev is not None and ev.kind == "call" and ev.info and "coro" in ev.info and ev.info["coro"][1] in st.coros:
            # wait_for a coroutine of the program: its body runs here, and may be ended at any suspension by the timeout
            f, binds, selfval, penv = st.coros[ev.info["coro"][1]]
            out = []
            for x in self.may_raise(ev2, self):
                t = st.copy()
                exc = ("E", x, (), t.new())
                self.emit(t, fr, node, "raise", "from await", args=(exc,), info={"await": ev2})
                out.append((t, Abrupt("raise", exc)))
            return self.call_body(f, binds, selfval, st, penv, fr.stack) + out
        self.suspend(st, fr, node, ev.label if ev is not None else "?")
        out = []
        for x in self.may_raise(ev2, self):
            t = st.copy()
            exc = ("E", x, (), t.new())
            self.emit(t, fr, node, "raise", "from await", args=(exc,), info={"await": ev2})
            out.append((t, Abrupt("raise", exc)))
        return [(st, self.await_result(v, ev, st))] + out

    def await_result(self, v, ev, st=None):
        if ev is not None and isinstance(ev.info, dict) and "value" in ev.info:
            return ev.info["value"]
        if ev is not None and ev.label.split(".")[-1] in ("open_connection", "open_unix_connection") and st is not None:
            for i in (0, 1):
                self.assume(st, self.compare1(st, ast.Is(), A("item", v, K(i)), NONE), False)
        return v

    # ============================================================== calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return [(st, A("super", fr.self or NONE))]
        if isinstance(e.func, ast.Name) and e.func.id == "next" and 1 <= len(e.args) <= 2 and not e.keywords and isinstance(e.args[0], ast.GeneratorExp) \
                and len(e.args[0].generators) == 1 and not e.args[0].generators[0].is_async:
            return self.next_of(e, st, fr)
        out = []
        for t, f in self.ev(e.func, st, fr):
            if isinstance(f, Abrupt):
                out.append((t, f))
                continue
            # a lazily folded generator argument keeps its order
            for t2, args in self.evs(e.args, t, fr):
                if isinstance(args, Abrupt):
                    out.append((t2, args))
                    continue
                for t3, kw in self.kwargs(e.keywords, t2, fr):
                    if isinstance(kw, Abrupt):
                        out.append((t3, kw))
                        continue
                    out += self.call(t3, f, args, kw, fr, e)
        return out

    def next_of(self, e, st, fr):
        """next(<generator expression>[, default]): a loop that stops at the first element that passes"""
        g = e.args[0].generators[0]
        eid = st.new()
        st.envs[eid] = (fr.env, {})
        f2 = Frame()
        f2.func, f2.env, f2.cls, f2.self, f2.module, f2.depth, f2.stack = fr.func, eid, fr.cls, fr.self, fr.module, fr.depth, fr.stack

        def body(tt):
            cur, res = [tt], []
            for c in g.ifs:
                nxt = []
                for x in cur:
                    for t, b in self.cond(c, x, f2):
                        if isinstance(b, Abrupt):
                            res.append(self.ab(t, b))
                        elif b:
                            nxt.append(t)
                        else:
                            res.append((t, "next", None))
                cur = nxt
            for x in cur:
                for t, v in self.ev(e.args[0].elt, x, f2):
                    res.append(self.ab(t, v) if isinstance(v, Abrupt) else (t, "found", v))
            return res

        out = []
        for t0, d in (self.ev(e.args[1], st, fr) if len(e.args) == 2 else [(st, None)]):
            if isinstance(d, Abrupt):
                out.append((t0, d))
                continue
            for t, it in self.ev(g.iter, t0, f2):
                if isinstance(it, Abrupt):
                    out.append((t, it))
                    continue
                ec = len(t.trace)
                for o in self.for_over(e.args[0], it, t, f2, lambda tt, el: self.assign(g.target, tt, el, f2, e), body, [],
                                       set(), False, self.assigned_names([g.target])):
                    t2, sig, v = o
                    if sig == "found":
                        out.append((t2, v))
                    elif sig == "next":
                        if d is not None:
                            out.append((t2, d))
                        else:
                            out.append((t2, Abrupt("raise", ("E", "StopIteration", (), t2.new()))))
                    elif sig == "cut":
                        if self.keep_cuts or not all(x.kind == "loop" for x in t2.trace[ec:]):
                            out.append((t2, Abrupt(sig, v)))
                    else:
                        out.append((t2, Abrupt(sig, v)))
        return out

    def kwargs(self, kws, st, fr):
        cur, out = [(st, {})], []
        for k in kws:
            nxt = []
            for t, d in cur:
                for t2, v in self.ev(k.value, t, fr):
                    if isinstance(v, Abrupt):
                        out.append((t2, v))
                    elif k.arg is None:
                        if v[0] == "O" and t2.objs[v[1]]["kind"] == "dict":
                            o = t2.objs[v[1]]
                            d2 = dict(d)
                            for kk, vv in o["items"].items():
                                if kk[0] == "K" and isinstance(kk[2], str):
                                    d2[kk[2]] = vv
                            if o["rest"] is not None:
                                d2["**"] = o["rest"]
                            nxt.append((t2, d2))
                        else:
                            nxt.append((t2, {**d, "**": v}))
                    else:
                        nxt.append((t2, {**d, k.arg: v}))
            cur = nxt
        return out + cur

    def call(self, st, f, args, kw, fr, node):
        k = f[0]
        if k == "F":
            func = self.p.funcs[f[1]]
            return self.invoke(func, f[3], args, kw, st, fr, node, f[2])
        if k == "C":
            return self.construct(st, self.p.classes[f[1]], args, kw, fr, node)
        if k == "P":
            return self.call(st, f[1], list(f[2]) + list(args), {**dict(f[3]), **kw}, fr, node)
        if k == "X":
            return self.call_ext(st, f[1], args, kw, fr, node)
        if k == "B":
            return self.call_method(st, f[1], f[2], args, kw, fr, node)
        if k == "A" and f[1] == "attr":
            return self.call_method(st, f[2], f[3], args, kw, fr, node, fterm=f)
        if k == "O" or k in ("S", "R", "H", "A"):
            c = self.tclass(self.typeof(st, f))
            m = self.p.find_method(c, "__call__") if c else None
            if m is not None:
                return self.invoke(m, f, args, kw, st, fr, node, None)
        # calling an unknown value
        return self.ext_event(st, fr, node, "call", "<value>", f, args, kw)

    def method_term(self, st, recv, name):
        return name

    def bind(self, func, selfval, args, kw, st):
        """-> binds dict or None"""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        binds = {}
        args = list(args)
        if selfval is not None and func.kind != "static":
            args = [selfval] + args
        star = None
        i = 0
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*":
                star = x[1]
                break
            if i < len(pos):
                binds[pos[i]] = x
                i += 1
            else:
                break
        extra = args[i:] if star is None else []
        kw = dict(kw)
        rest = kw.pop("**", None)
        for n in pos[i:] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                binds[n] = kw.pop(n)
        if star is not None:
            j = 0
            for n in pos[i:]:
                if n not in binds:
                    binds[n] = A("item", star, K(j))
                    j += 1
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        missing = {}
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in binds:
                if rest is not None:
                    binds[n] = A("item", rest, K(n))
                elif n in defaults:
                    missing[n] = defaults[n]
                else:
                    binds[n] = ("S", f"{func.name}.{n}", None)
        if a.vararg:
            if star is not None and not extra:
                binds[a.vararg.arg] = star
            else:
                nid = st.new()
                st.objs[nid] = {"kind": "list", "seq": tuple(("all", x[1]) if x[0] == "*" else ("one", x) for x in extra)}
                binds[a.vararg.arg] = ("O", nid)
        if a.kwarg:
            nid = st.new()
            st.objs[nid] = {"kind": "dict", "items": {K(k): v for k, v in kw.items()}, "rest": rest}
            binds[a.kwarg.arg] = ("O", nid)
        # parameter annotations give types to untyped symbols
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            v = binds.get(x.arg)
            if v is not None and x.annotation is not None and v[0] in ("A", "R", "S", "H") and self.typeof(st, v) is None:
                t = self.tk(self.p.ann_class(func.module, x.annotation))
                if t is not None and not (isinstance(t, str) and t.startswith("x:") and "." not in t and t[2:3].isupper() and t[2:] not in ()):
                    if not str(t).startswith("x:_"):
                        self.ttypes[v] = t
        return binds, missing

    def invoke(self, func, selfval, args, kw, st, fr, node, penv):
        if func.cls is not None and func.kind == "func" and selfval is None:
            # unbound call Base.method(self, ...)
            if args and args[0][0] != "*":
                selfval, args = args[0], list(args)[1:]
        if func.cls is not None and selfval is not None and func.kind in ("func", "abstract", "property"):
            # dynamic dispatch on the receiver's class is done by the caller (getattr); here only opacity
            pass
        if func.kind == "abstract" or self.opaque(func):
            return self.opaque_call(func, selfval, args, kw, st, fr, node)
        if fr.stack.count(func.fid) >= 1 or len(fr.stack) > self.maxdepth:
            return self.opaque_call(func, selfval, args, kw, st, fr, node)
        ctxgen = func.is_gen and any(ast.unparse(d).split(".")[-1] in ("contextmanager", "asynccontextmanager")
                                     for d in getattr(func.node, "decorator_list", []))
        if func.is_gen and not ctxgen:
            v = A("gen", func.qual, selfval or NONE, *[x for x in args])
            return [(st, v)]
        if any(not known_decorator(d) for d in getattr(func.node, "decorator_list", [])) and func.cls is None:
            pass  # decorators of the repository (endpoint, sender) are analysed by their own rules
        binds, missing = self.bind(func, selfval, args, kw, st)
        cur = [(st, binds)]
        if missing:
            f2 = Frame()
            f2.func, f2.cls, f2.self, f2.module, f2.depth, f2.stack = func, func.cls, selfval, func.module, fr.depth, fr.stack
            f2.env = st.new()
            st.envs[f2.env] = (penv, {})
            for n, d in missing.items():
                o = self.ev(d, st, f2)
                if len(o) == 1 and not isinstance(o[0][1], Abrupt):
                    binds[n] = o[0][1]
                else:
                    binds[n] = ("S", f"{func.name}.{n}=default", None)
        if ctxgen:
            n = st.new()
            st.coros[n] = (func, binds, selfval, penv)
            return [(st, A("ctxgen", K(n)))]
        if func.is_async:
            n = st.new()
            st.coros[n] = (func, binds, selfval, penv)
            return [(st, ("Coro", n))]
        return self.call_body(func, binds, selfval, st, penv, fr.stack)

    def opaque_call(self, func, selfval, args, kw, st, fr, node):
        rt = self.tk(self.p.ann_class(func.module, getattr(func.node, "returns", None)))
        if isinstance(rt, str) and rt.startswith("x:") and ("_" == rt[2:3] or rt[2:] in ("None", "Any", "typing.Any")):
            rt = None
        label = f"{func.cls.name}.{func.name}" if func.cls else func.name
        # normalise arguments to parameter names
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if func.cls is not None and func.kind != "static" and pos:
            pos = pos[1:]
        kk = dict(kw)
        i = 0
        for x in args:
            if isinstance(x, tuple) and x and x[0] == "*":
                kk["*"] = x[1]
                break
            if i < len(pos):
                kk[pos[i]] = x
                i += 1
            else:
                kk.setdefault("*extra", x)
        return self.ext_event(st, fr, node, "opaque", label, selfval, [], kk, rtype=rt,
                              info={"func": func, "async": func.is_async})

    def ext_event(self, st, fr, node, kind, label, recv, args, kw, rtype=None, info=None, raises=True):
        n = len(st.trace)
        res = ("R", n, label, rtype)
        ev = self.emit(st, fr, node, kind, label, recv=recv, args=args, kw=kw, res=res, info=info)
        out = [(st, res)]
        if raises and not (info and info.get("async")):
            for x in self.may_raise(ev, self):
                t = st.copy()
                exc = ("E", x, (), t.new())
                self.emit(t, fr, node, "raise", "from call", args=(exc,), info={"call": ev})
                out.append((t, Abrupt("raise", exc)))
        return out

    # ---------------------------------------------------------- construction
    def construct(self, st, c, args, kw, fr, node):
        if c.metaclass is not None and (c.metaclass.name if isinstance(c.metaclass, Class) else c.metaclass).endswith("SingletonType"):
            return [(st, ("S", "singleton:" + c.name, "c:" + c.qual))]
        if self.p.is_subclass(c, "Enum"):
            v = A("enumof", c.qual, *args)
            if len(args) == 1 and args[0][0] == "K":
                members = {x.targets[0].id: x.value.value for x in c.node.body if isinstance(x, ast.Assign) and len(x.targets) == 1
                           and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Constant)}
                hit = [n for n, val in members.items() if val == args[0][2]]
                if hit:
                    return [(st, A("enum", c.qual, hit[0]))]
                if members and len(members) == sum(isinstance(x, (ast.Assign, ast.AnnAssign)) for x in c.node.body):
                    exc = A("new", "ValueError")
                    self.emit(st, fr, node, "raise", "from constructor", args=(exc,))
                    return [(st, Abrupt("raise", exc))]
            return [(st, v)]
        if self.opaque(c):
            return self.ext_event(st, fr, node, "new", c.name, None, args, kw, rtype="c:" + c.qual)
        n = st.new()
        st.objs[n] = {"kind": "inst", "cls": c.qual}
        o = ("O", n)
        init = self.p.find_method(c, "__init__")
        ev = self.emit(st, fr, node, "new", c.name, recv=None, args=args, kw=kw, res=o)
        if init is not None and init.cls is not None:
            outs = self.invoke(init, o, args, kw, st, fr, node, None)
            res = []
            for t, v in outs:
                res.append((t, v) if isinstance(v, Abrupt) else (t, o))
            if self.is_exception(c):
                for t, v in res:
                    if v == o and (o, "args") not in t.heap:
                        t.heap[(o, "args")] = ("T",) + tuple(args)
        else:
            fields = self.model_fields(c)
            for i, a in enumerate(args):
                if a[0] != "*" and i < len(fields) and not self.is_exception(c):
                    st.heap[(o, fields[i])] = a
            for k, v in kw.items():
                if k == "**":
                    for fld in fields:
                        if fld not in kw:
                            st.heap[(o, fld)] = A("item", v, K(fld))
                            ft = self.tk(self.p.attr_type(c, fld))
                            if ft:
                                self.ttypes[A("item", v, K(fld))] = ft
                else:
                    st.heap[(o, k)] = v
            if self.is_exception(c):
                st.heap[(o, "args")] = ("T",) + tuple(args)
            res = [(st, o)]
        for x in self.may_raise(ev, self):
            t = st.copy()
            exc = ("E", x, (), t.new())
            self.emit(t, fr, node, "raise", "from constructor", args=(exc,), info={"call": ev})
            res.append((t, Abrupt("raise", exc)))
        return res

    def is_exception(self, c):
        return self.is_exc_like(c)

    def is_exc_like(self, c):
        for b in self.p.mro(c):
            if not isinstance(b, Class):
                py = getattr(_bi, str(b), None)
                if isinstance(py, type) and issubclass(py, BaseException):
                    return True
        return False

    def model_fields(self, c):
        out = []
        for b in reversed(self.p.mro(c)):
            if isinstance(b, Class):
                for s in b.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        if s.target.id not in out:
                            out.append(s.target.id)
        return out

    # ---------------------------------------------------------- lists
    def list_extend(self, st, l, r):
        o = st.objs[l[1]]
        if r[0] == "O" and st.objs[r[1]]["kind"] == "list":
            add_ = st.objs[r[1]]["seq"]
        elif r[0] == "T":
            add_ = tuple(("one", x) for x in r[1:])
        elif r[0] == "A" and r[1] == "reversed":
            add_ = (("all", r),)
        else:
            add_ = (("all", r),)
        st.objs[l[1]] = dict(o, seq=o["seq"] + tuple(add_))
        st.objwritten.add(l[1])

    # ---------------------------------------------------------- methods of values that are not repository objects
    def call_method(self, st, b, name, args, kw, fr, node, fterm=None):
        # function stored in a field or an opaque attribute
        if b[0] == "O":
            r = self.container_method(st, b, name, args, kw, fr, node)
            if r is not None:
                return r
        if b[0] == "A" and b[1] == "super":
            self.emit(st, fr, node, "call", f"super.{name}", recv=b, args=args, kw=kw)
            if name == "__init__" and fr.self is not None and fr.self[0] == "O" and args:
                st.heap.setdefault((fr.self, "args"), ("T",) + tuple(args))
            return [(st, ("R", len(st.trace), f"super.{name}", None))]
        if b[0] == "K" and b[1] in ("str", "bytes") and not kw and all(a[0] == "K" for a in args) and name in PURE_METHODS:
            try:
                return [(st, K(getattr(b[2], name)(*[a[2] for a in args])))]
            except Exception:
                pass
        tk = self.typeof(st, b)
        c = self.tclass(tk)
        if c is not None and self.is_model(c) or c is None:
            if name in ("model_dump_json", "model_dump", "dict", "json") and c is not None:
                v = A(name if name != "dict" else "model_dump", self.reify_shallow(st, b), *[x for x in args],
                      *[("T", K(k), x) for k, x in sorted(kw.items())])
                ev = self.emit(st, fr, node, "pure", v[1], recv=b, args=args, kw=kw, res=v)
                out = [(st, v)]
                for x in self.may_raise(ev, self):
                    t = st.copy()
                    out.append((t, Abrupt("raise", ("E", x, (), t.new()))))
                return out
        if c is not None and self.is_model(c) and name == "model_copy":
            return [(st, self.model_copy(st, b, kw))]
        if name == "join" and len(args) == 1 and b[0] == "K" and b[1] == "str":
            xs = None
            if args[0][0] == "T":
                xs = list(args[0][1:])
            elif args[0][0] == "O" and st.objs[args[0][1]]["kind"] == "list" and all(x[0] == "one" for x in st.objs[args[0][1]]["seq"]):
                xs = [x[1] for x in st.objs[args[0][1]]["seq"]]
            if xs:
                segs = []
                for i, x in enumerate(xs):
                    segs += ([b] if i else []) + segments_of(x)
                return [(st, mkstr(segs))]
        if name in ("removesuffix", "removeprefix") and len(args) == 1 and args[0][0] == "K" and isinstance(args[0][2], str):
            segs, x, last = segments_of(b), args[0][2], name == "removesuffix"
            if segs and segs[-1 if last else 0][0] == "K" and isinstance(segs[-1 if last else 0][2], str):
                y = segs[-1 if last else 0][2]
                if y.endswith(x) if last else y.startswith(x):
                    y = y.removesuffix(x) if last else y.removeprefix(x)
                    return [(st, mkstr(segs[:-1] + [K(y)] if last else [K(y)] + segs[1:]))]
                if not (x.endswith(y) if last else x.startswith(y)):
                    return [(st, b)]
        if name == "format" and b[0] == "K" and b[1] == "str":
            segs = brace_format(b[2], args, kw)
            if segs is not None:
                return [(st, mkstr(segs))]
        if name == "join" and len(args) == 1 and b[0] == "K":
            v = A("join", b, self.reify(st, args[0]))
            return [(st, v)]
        if name in ("keys", "values", "items") and not args:
            vn = st.ver.get(b, 0)
            v = A(name, b) if not vn else A(name, b, K(vn))
            et = self.elem_type(tk)
            if name == "values" and et:
                self.ttypes[v] = ("list", et)
            return [(st, v)]
        if name in ("encode", "decode") :
            v = A(name, b)
            if name == "decode":
                ev = self.emit(st, fr, node, "decode", "decode", recv=b, res=v)
                out = [(st, v)]
                for x in self.may_raise(ev, self):
                    t = st.copy()
                    out.append((t, Abrupt("raise", ("E", x, (), t.new()))))
                return out
            return [(st, v)]
        if name == "get" and args and isinstance(tk, tuple) and tk[0] == "dict" and tk[1] and b[0] != "O" and not kw:
            out = []
            for t, there in self.fork(st, self.compare1(st, ast.In(), args[0], b)):
                v = self.getitem_val(t, b, args[0]) if there else (args[1] if len(args) > 1 else NONE)
                if there and self.tclass(tk[1]) is not None:
                    self.assume(t, self.compare1(t, ast.Is(), v, NONE), False)
                out.append((t, v))
            return out
        pure = name in PURE_METHODS or name in self.extra_pure
        if pure and c is None and not (isinstance(tk, str) and tk.startswith("x:sqlalchemy")):
            vn = st.ver.get(b, 0)
            extra = tuple(("T", K(k), v) for k, v in sorted(kw.items()))
            v = A(name, b, *[a for a in args], *extra) if not vn else A(name, b, *[a for a in args], *extra, A("v", K(vn)))
            if name in ("done", "cancelled") and st.epoch:
                v = A(name, b, *[a for a in args], A("ep", K(st.epoch)))
            if name == "get" and isinstance(tk, tuple) and tk[1]:
                self.ttypes[v] = tk[1]
            if name in ("strip", "lower", "upper", "replace", "format", "hex"):
                self.ttypes.setdefault(v, "x:str")
            if name == "get" and self.pin is not None and args and args[0][0] == "K":
                v = self.pinned(args[0][2], v)
            return [(st, v)]
        rt = None
        if name in MUTATORS:
            st.ver[b] = st.ver.get(b, 0) + 1
            for k in [k for k in st.heap if k[0] == "item" and k[1] == b]:
                del st.heap[k]
            if name == "pop":
                rt = self.elem_type(tk)
            if name == "setdefault":
                rt = self.elem_type(tk)
            return self.ext_event(st, fr, node, "mut", name, b, args, kw, rtype=rt)
        if name == "create_datagram_endpoint" and (args or "protocol_factory" in kw):
            return self.datagram_endpoint(st, b, args, kw, fr, node)
        if name in ("create_task", "ensure_future", "run_coroutine_threadsafe") and args:
            return self.spawn(st, name, args, kw, fr, node, recv=b)
        return self.ext_event(st, fr, node, "call", name, b, args, kw, rtype=rt)

    def datagram_endpoint(self, st, b, args, kw, fr, node):
        """loop.create_datagram_endpoint: makes the protocol, tells it of its transport, gives both"""
        fac = args[0] if args else kw["protocol_factory"]
        made = self.call(st.copy(), fac, [], {}, fr, node) if fac[0] in ("F", "C", "P") else []
        out = []
        for t, pr in made:
            if isinstance(pr, Abrupt) or self.tclass(self.typeof(t, pr)) is None:
                out = []
                break
            info = {}
            for t2, res in self.ext_event(t, fr, node, "call", "create_datagram_endpoint", b, args, kw, info=info):
                if isinstance(res, Abrupt):
                    out.append((t2, res))
                    continue
                tr = A("item", res, K(0))
                self.assume(t2, self.compare1(t2, ast.Is(), tr, NONE), False)
                info["value"] = ("T", tr, pr)
                cm = self.p.find_method(self.tclass(self.typeof(t2, pr)), "connection_made")
                if cm is None:
                    out.append((t2, res))
                    continue
                for t3, v in self.invoke(cm, pr, [tr], {}, t2, fr, node, None):
                    out.append((t3, v) if isinstance(v, Abrupt) else (t3, res))
        return out or self.ext_event(st, fr, node, "call", "create_datagram_endpoint", b, args, kw)

    def model_copy(self, st, b, kw):
        upd = kw.get("update")
        if b[0] == "O" and st.objs[b[1]]["kind"] == "inst":
            n = st.new()
            st.objs[n] = dict(st.objs[b[1]])
            for (k, f), v in list(st.heap.items()):
                if k == b:
                    st.heap[(("O", n), f)] = v
            if upd is not None and upd[0] == "O" and st.objs[upd[1]]["kind"] == "dict":
                for k, v in st.objs[upd[1]]["items"].items():
                    st.heap[(("O", n), k[2])] = v
            return ("O", n)
        return A("model_copy", b, *( [self.reify(st, upd)] if upd is not None else []))

    def reify_shallow(self, st, b):
        return self.reify(st, b) if b[0] == "O" else b

    def container_method(self, st, b, name, args, kw, fr, node):
        o = st.objs[b[1]]
        n = b[1]
        if o["kind"] == "list":
            if name == "append" and len(args) == 1:
                st.objs[n] = dict(o, seq=o["seq"] + (("one", args[0]),))
                st.objwritten.add(n)
                self.emit(st, fr, node, "mut", "append", recv=b, args=args)
                return [(st, NONE)]
            if name == "extend" and len(args) == 1:
                self.list_extend(st, b, args[0])
                self.emit(st, fr, node, "mut", "extend", recv=b, args=args)
                return [(st, NONE)]
            if name == "insert" and len(args) == 2 and args[0] == K(0):
                st.objs[n] = dict(o, seq=(("one", args[1]),) + o["seq"])
                st.objwritten.add(n)
                self.emit(st, fr, node, "mut", "insert", recv=b, args=args)
                return [(st, NONE)]
            if name == "sort" and not args and not kw and len(o["seq"]) == 1 and o["seq"][0][0] == "all":
                st.objs[n] = dict(o, seq=(("all", A("sorted", o["seq"][0][1])),))
                st.objwritten.add(n)
                self.emit(st, fr, node, "mut", "sort", recv=b, args=args)
                return [(st, NONE)]
            if name == "reverse":
                if all(s[0] == "one" for s in o["seq"]):
                    st.objs[n] = dict(o, seq=o["seq"][::-1])
                elif len(o["seq"]) == 1 and o["seq"][0][0] == "all":
                    inner = o["seq"][0][1]
                    st.objs[n] = dict(o, seq=(("all", inner[2] if inner[0] == "A" and inner[1] == "reversed" else A("reversed", inner)),))
                elif len(o["seq"]) == 1 and o["seq"][0][0] == "map":
                    _, coll, lid, t = o["seq"][0]
                    st.objs[n] = dict(o, seq=(("revmap", coll, lid, t),))
                else:
                    st.objs[n] = dict(o, seq=(("unk", st.new(), n),))
                st.objwritten.add(n)
                return [(st, NONE)]
            if name == "copy":
                m = st.new()
                st.objs[m] = dict(o)
                return [(st, ("O", m))]
            if name == "clear":
                st.objs[n] = dict(o, seq=())
                st.objwritten.add(n)
                self.emit(st, fr, node, "mut", "clear", recv=b, args=args)
                return [(st, NONE)]
            if name == "count" and len(args) == 1 and all(s[0] == "one" for s in o["seq"]):
                pass
            if name in ("pop", "remove", "sort", "insert"):
                st.objs[n] = dict(o, seq=(("unk", st.new(), n),))
                st.objwritten.add(n)
                return self.ext_event(st, fr, node, "mut", name, b, args, kw)
            if name in ("index", "count"):
                return [(st, A(name, self.reify(st, b), *args))]
        if o["kind"] in ("dict", "set"):
            if name == "get" and args:
                if args[0] in o["items"]:
                    return [(st, o["items"][args[0]])]
                if o["rest"] is None and args[0][0] == "K" and all(k[0] == "K" for k in o["items"]):
                    return [(st, args[1] if len(args) > 1 else NONE)]
                if o["rest"] is not None:
                    return [(st, A("get", o["rest"], *args))]
                return [(st, A("get", self.reify(st, b), *args))]
            if name in ("keys", "items", "values"):
                return [(st, A(name, b))]
            if name == "update":
                items = dict(o["items"])
                rest = o["rest"]
                src = args[0] if args else None
                if src is not None:
                    if src[0] == "O" and st.objs[src[1]]["kind"] == "dict":
                        items.update(st.objs[src[1]]["items"])
                        rest = st.objs[src[1]]["rest"] or rest
                    else:
                        rest = A("merge", rest or NONE, src)
                for k, v in kw.items():
                    if k != "**":
                        items[K(k)] = v
                st.objs[n] = dict(o, items=items, rest=rest)
                st.objwritten.add(n)
                self.emit(st, fr, node, "mut", "update", recv=b, args=args, kw=kw)
                return [(st, NONE)]
            if name == "copy":
                m = st.new()
                st.objs[m] = dict(o, items=dict(o["items"]))
                return [(st, ("O", m))]
            if name == "pop" and args:
                items = dict(o["items"])
                v = items.pop(args[0], None)
                st.objs[n] = dict(o, items=items)
                st.objwritten.add(n)
                if v is None:
                    if o["rest"] is not None:
                        v = A("get", o["rest"], *args)
                    else:
                        v = args[1] if len(args) > 1 else A("item", b, args[0])
                return [(st, v)]
            if name == "setdefault" and args:
                if args[0] in o["items"]:
                    return [(st, o["items"][args[0]])]
                if o["rest"] is None:
                    items = dict(o["items"])
                    items[args[0]] = args[1] if len(args) > 1 else NONE
                    st.objs[n] = dict(o, items=items)
                    st.objwritten.add(n)
                    return [(st, items[args[0]])]
            if name == "add" and args:
                st.objs[n] = dict(o, items={**o["items"], args[0]: TRUE})
                st.objwritten.add(n)
                return [(st, NONE)]
            if name in ("clear",):
                st.objs[n] = dict(o, items={}, rest=None)
                st.objwritten.add(n)
                return [(st, NONE)]
            if name in MUTATORS:
                st.objs[n] = dict(o, items={}, rest=("R", len(st.trace), "mutated", None))
                st.objwritten.add(n)
                return self.ext_event(st, fr, node, "mut", name, b, args, kw)
        return None

    def spawn(self, st, label, args, kw, fr, node, recv=None):
        n = len(st.trace)
        res = ("R", n, label, "x:asyncio.Task")
        target = args[0]
        info = {"target": None}
        if target[0] == "Coro":
            f, binds, selfval, penv = st.coros[target[1]]
            info = {"target": f, "binds": binds, "self": selfval, "env": penv}
        self.emit(st, fr, node, "spawn", label, recv=recv, args=args, kw=kw, res=res, info=info)
        return [(st, res)]

    # ---------------------------------------------------------- external functions
    def call_ext(self, st, d, args, kw, fr, node):
        last = d.split(".")[-1]
        if d.startswith("builtins."):
            d = last
        if "." not in d:
            r = self.builtin(st, d, args, kw, fr, node)
            if r is not None:
                return r
        if d in ("asyncio.create_task", "asyncio.ensure_future", "asyncio.tasks.create_task"):
            return self.spawn(st, d, args, kw, fr, node)
        if d in ("asyncio.wait_for", "asyncio.shield", "asyncio.timeout") and args and args[0][0] == "Coro" and d == "asyncio.wait_for":
            # the awaited coroutine runs as part of this call
            coro = args[0]
            return [(st, self._waitfor(st, coro, args, kw, fr, node))]
        if d == "asyncio.gather":
            for a in args:
                if a[0] == "Coro":
                    self.spawn(st, "asyncio.gather", [a], {}, fr, node)
        if d == "functools.partial" and args:
            return [(st, ("P", args[0], tuple(args[1:]), tuple(sorted((k, v) for k, v in kw.items()))))]
        if d == "typing.cast" and len(args) == 2:
            v = args[1]
            if args[0][0] == "C" and v[0] in ("A", "R", "S", "H"):
                self.ttypes.setdefault(v, "c:" + args[0][1])
            return [(st, v)]
        if d in ("copy.copy",) and args:
            return [(st, A("copy", args[0]))]
        if d in ("json.loads",):
            v = A("json.loads", *args)
            ev = self.emit(st, fr, node, "call", "json.loads", args=args, res=v)
            out = [(st, v)]
            for x in self.may_raise(ev, self):
                t = st.copy()
                out.append((t, Abrupt("raise", ("E", x, (), t.new()))))
            return out
        py = getattr(_bi, d, None) if "." not in d else None
        if (isinstance(py, type) and issubclass(py, BaseException)) or ALIAS_EXC.get(d, d) in EXT_EXC:
            return [(st, A("new", ALIAS_EXC.get(d, d), *args))]
        if d == "contextlib.suppress":
            return [(st, A("new", "contextlib.suppress", *args))]
        if d == "os.path.split" and len(args) == 1 and not kw:
            out = []
            for t, a in self.call_ext(st, "os.path.dirname", args, kw, fr, node):
                if isinstance(a, Abrupt):
                    out.append((t, a))
                    continue
                out += [(t2, b if isinstance(b, Abrupt) else ("T", a, b)) for t2, b in self.call_ext(t, "os.path.basename", args, kw, fr, node)]
            return out
        if d in PURE_EXT or d in self.extra_pure:
            if d in ("time.time", "timeit.default_timer", "time.perf_counter", "time.monotonic", "time.time_ns"):
                n = len(st.trace)
                v = ("R", n, d, "x:float")
                self.emit(st, fr, node, "call", d, args=args, kw=kw, res=v)
                return [(st, v)]
            v = A(d, *[self.reify(st, a) if a[0] == "O" else a for a in args], *[("T", K(k), x) for k, x in sorted(kw.items())])
            if d == "logging.getLogger":
                self.ttypes[v] = "x:logging.Logger"
            if d.startswith("asyncio.get_"):
                v = A("asyncio.get_running_loop")
                self.ttypes[v] = "x:asyncio.AbstractEventLoop"
            if d.startswith("os.path") or d in ("json.dumps",):
                self.ttypes.setdefault(v, "x:str")
            ev = self.emit(st, fr, node, "pure", d, args=args, kw=kw, res=v)
            out = [(st, v)]
            for x in self.may_raise(ev, self):
                t = st.copy()
                out.append((t, Abrupt("raise", ("E", x, (), t.new()))))
            return out
        rt = None
        if last and last[0].isupper():
            rt = "x:" + d
        return self.ext_event(st, fr, node, "call", d, None, args, kw, rtype=rt)

    def _waitfor(self, st, coro, args, kw, fr, node):
        n = len(st.trace)
        res = ("R", n, "asyncio.wait_for", None)
        f, binds, selfval, penv = st.coros[coro[1]]
        self.emit(st, fr, node, "call", "asyncio.wait_for", args=args, kw=kw, res=res, info={"target": f, "coro": coro})
        return res

    def builtin(self, st, d, args, kw, fr, node):
        a0 = args[0] if args else None
        one = lambda v: [(st, v)]
        if d == "len" and a0:
            if a0[0] == "K":
                try:
                    return one(K(len(a0[2])))
                except Exception:
                    pass
            if a0[0] == "T":
                return one(K(len(a0) - 1))
            if a0[0] == "O":
                o = st.objs[a0[1]]
                if o["kind"] == "list":
                    tot = K(0)
                    for s in o["seq"]:
                        if s[0] == "one":
                            tot = add(tot, K(1))
                        elif s[0] in ("all",):
                            tot = add(tot, self.len_term(st, s[1]))
                        elif s[0] in ("map", "revmap"):
                            tot = add(tot, self.len_term(st, s[1]))
                        else:
                            tot = add(tot, A("len", ("A",) + s))
                    return one(tot)
                if o["kind"] in ("dict", "set") and o["rest"] is None:
                    return one(K(len(o["items"])))
                if o["kind"] == "inst":
                    f = self.p.find_method(self.p.classes[o["cls"]], "__len__")
                    if f:
                        return self.invoke(f, a0, [], {}, st, fr, node, None)
            c = self.tclass(self.typeof(st, a0))
            f = self.p.find_method(c, "__len__") if c else None
            if f is not None and not self.opaque(f):
                return self.invoke(f, a0, [], {}, st, fr, node, None)
            return one(self.len_term(st, a0))
        if d in ("str", "repr") and a0:
            if a0[0] == "K" and d == "str":
                return one(K(str(a0[2])))
            if a0[0] == "A" and a0[1] in ("fstr", "concat", "str") and d == "str":
                return one(a0)
            if self.typeof(st, a0) == "x:str" and d == "str":
                return one(a0)
            if len(args) == 1:
                return one(A(d, a0 if a0[0] != "O" else self.exc_str(st, a0)))
        if d in ("int", "float") and a0:
            if a0[0] == "K":
                try:
                    return one(K({"int": int, "float": float}[d](a0[2])))
                except Exception:
                    pass
            if len(args) == 1 and d == "int" and (a0[0] == "L" or self.numeric(st, a0)) and not any(
                    (t[0] == "K" and t[1] == "float") or (t[0] in ("S", "A", "R") and self.typeof(st, t) == "x:float") for t in subterms(a0)):
                return one(a0)
            v = A(d, *args)
            self.ttypes.setdefault(v, "x:" + d)
            ev = self.emit(st, fr, node, "pure", d, args=args, res=v)
            out = [(st, v)]
            for x in self.may_raise(ev, self):
                t = st.copy()
                exc = ("E", x, (), t.new())
                self.emit(t, fr, node, "raise", "from pure", args=(exc,), info={"call": ev})
                out.append((t, Abrupt("raise", exc)))
            return out
        if d == "bool":
            if not args:
                return one(FALSE)
            b = self.truth(st, a0)
            return one(K(b) if b is not None else A("bool", a0))
        if d == "isinstance" and len(args) == 2:
            v = A("isinstance", args[0], args[1])
            b = self.truth(st, v)
            return one(K(b) if b is not None else v)
        if d in ("list", "tuple", "sorted", "reversed", "set", "frozenset", "dict", "enumerate", "zip", "range", "iter"):
            if d == "dict":
                n = st.new()
                items = {K(k): v for k, v in kw.items() if k != "**"}
                rest = kw.get("**")
                if a0 is not None:
                    if a0[0] == "O" and st.objs[a0[1]]["kind"] == "dict":
                        items = {**st.objs[a0[1]]["items"], **items}
                        rest = st.objs[a0[1]]["rest"]
                    else:
                        rest = a0
                st.objs[n] = {"kind": "dict", "items": items, "rest": rest}
                return one(("O", n))
            if d == "list" or d == "tuple":
                if a0 is None:
                    if d == "tuple":
                        return one(("T",))
                    n = st.new()
                    st.objs[n] = {"kind": "list", "seq": ()}
                    return one(("O", n))
                n = st.new()
                if a0[0] == "O" and st.objs[a0[1]]["kind"] == "list":
                    seq = st.objs[a0[1]]["seq"]
                elif a0[0] == "T":
                    seq = tuple(("one", x) for x in a0[1:])
                else:
                    ce = self.concrete_elems(st, a0)
                    seq = tuple(("one", x) for x in ce) if ce is not None else (("all", self.canon_coll(st, a0)),)
                if d == "tuple" and all(s[0] == "one" for s in seq):
                    return one(("T",) + tuple(s[1] for s in seq))
                st.objs[n] = {"kind": "list", "seq": tuple(seq)}
                return one(("O", n))
            if d in ("set", "frozenset"):
                n = st.new()
                if a0 is None:
                    st.objs[n] = {"kind": "set", "items": {}, "rest": None}
                    return one(("O", n))
                ce = self.concrete_elems(st, a0)
                if ce is not None:
                    st.objs[n] = {"kind": "set", "items": {x: TRUE for x in ce}, "rest": None}
                    return one(("O", n))
                return one(A("set", a0))
            if d == "iter":
                return one(a0)
            if d == "reversed" and a0[0] == "O" and st.objs[a0[1]]["kind"] == "list":
                seq = st.objs[a0[1]]["seq"]
                if all(s[0] == "one" for s in seq):
                    n = st.new()
                    st.objs[n] = {"kind": "list", "seq": seq[::-1]}
                    return one(("O", n))
                if len(seq) == 1 and seq[0][0] == "map":
                    n = st.new()
                    st.objs[n] = {"kind": "list", "seq": (("revmap",) + seq[0][1:],)}
                    return one(("O", n))
            if d == "reversed":
                cc = self.canon_coll(st, a0)
                v = cc[2] if cc[0] == "A" and cc[1] == "reversed" else A("reversed", cc)
                t = self.typeof(st, cc)
                if t:
                    self.ttypes[v] = t
                return one(v)
            if d == "range":
                return one(A("range", *([args[1]] if len(args) == 2 and args[0] == K(0) else args)))
            if d == "enumerate" and "start" in kw:
                args, kw = list(args) + [kw["start"]], {k: v for k, v in kw.items() if k != "start"}
            extra = tuple(("T", K(k), v) for k, v in sorted(kw.items()))
            v = A(d, *[self.canon_coll(st, x) for x in args], *extra)
            if d == "sorted":
                t = self.typeof(st, a0)
                if t:
                    self.ttypes[v] = t
            return one(v)
        if d == "hasattr" and len(args) == 2:
            return one(A("hasattr", *args))
        if d == "getattr" and len(args) >= 2 and args[1][0] == "K":
            if len(args) == 3:
                # value or default
                h = st.heap.get((args[0], args[1][2]))
                if h is not None:
                    return one(h)
                return one(A("getattr", *args))
            return self.getattr(st, args[0], args[1][2], fr, node)
        if d == "setattr" and len(args) == 3 and args[1][0] == "K":
            r = self.setattr(st, args[0], args[1][2], args[2], fr, node)
            return [(t, NONE if s == "next" else Abrupt(s, v)) for t, s, v in r]
        if d in ("min", "max", "sum", "abs", "any", "all", "round", "divmod", "ord", "chr", "hash", "id", "type", "callable",
                 "issubclass", "bytes", "bytearray", "map", "filter", "next", "vars", "dir", "format", "slice", "object", "pow"):
            if d == "type" and len(args) == 1 and a0[0] == "O" and st.objs[a0[1]]["kind"] == "inst":
                return one(("C", st.objs[a0[1]]["cls"]))
            if d == "bytes" and a0 and a0[0] == "O" and st.objs[a0[1]]["kind"] == "list" and \
                    all(s[0] == "one" and s[1][0] == "K" for s in st.objs[a0[1]]["seq"]):
                try:
                    return one(K(bytes(s[1][2] for s in st.objs[a0[1]]["seq"])))
                except Exception:
                    pass
            if d == "sum" and a0 and (len(args) == 1 or len(args) == 2) and not kw:
                ce = self.concrete_elems(st, a0)
                if ce:
                    total = args[1] if len(args) == 2 else K(0)
                    for x in ce:
                        total = add(total, x) if total is not None else None
                    if total is not None:
                        return one(total)
            if d in ("any", "all") and a0:
                ce = self.concrete_elems(st, a0)
                if ce is not None:
                    cur, out = [st], []
                    for x in ce:
                        nxt = []
                        for c in cur:
                            for t, b in self.fork(c, x):
                                if b == (d == "any"):
                                    out.append((t, K(b)))
                                else:
                                    nxt.append(t)
                        cur = nxt
                    return out + [(c, K(d == "all")) for c in cur]
            if d == "hash" and a0:
                return one(A("hash", a0))
            extra = tuple(("T", K(k), v) for k, v in sorted(kw.items()))
            return one(A(d, *[self.reify(st, x) if x[0] == "O" else x for x in args], *extra))
        return None

    def exc_str(self, st, v):
        if st.objs[v[1]]["kind"] == "inst":
            return v
        return self.reify(st, v)

    def len_term(self, st, a):
        if a[0] == "A" and a[1] in ("keys", "values", "items", "reversed", "sorted", "enumerate"):
            return self.len_term(st, a[2])
        if a[0] == "A" and a[1] == "range" and len(a) == 3:
            return a[2]
        if a[0] == "O" and st.objs[a[1]]["kind"] == "list" and len(st.objs[a[1]]["seq"]) == 1 and st.objs[a[1]]["seq"][0][0] == "all":
            return self.len_term(st, st.objs[a[1]]["seq"][0][1])
        vn = st.ver.get(a, 0)
        return A("len", a, K(vn)) if vn else A("len", a)


# ==================================================================================================================
def known_decorator(d):
    s = ast.unparse(d)
    return s in ("staticmethod", "classmethod", "property", "abstractmethod", "override") or s.endswith(".setter")


def stringy(v):
    return (v[0] == "K" and v[1] in ("str", "bytes")) or (v[0] == "A" and v[1] in ("fstr", "concat", "str", "encode",
                                                                                  "model_dump_json", "decode", "json.dumps"))


def mkstr(segs):
    out = []
    for s in segs:
        if s[0] == "K" and out and out[-1][0] == "K" and s[1] == out[-1][1] and s[1] in ("str", "bytes"):
            out[-1] = K(out[-1][2] + s[2])
        elif s[0] == "K" and s[1] == "str" and s[2] == "":
            continue
        elif s[0] == "A" and s[1] == "str" and s[2][0] == "A" and s[2][1] in ("concat", "fstr"):
            out.extend(s[2][2:])
        else:
            out.append(s)
    # text of a term and the term itself are the same segment of a string
    out = [s[2] if s[0] == "A" and s[1] == "str" else s for s in out]
    if not out:
        return K("")
    if len(out) == 1 and out[0][0] == "K":
        return out[0]
    return A("concat", *out)


def segments_of(x):
    return list(x[2:]) if x[0] == "A" and x[1] in ("concat", "fstr") else [x]


def percent_format(text, vals):
    """segments of text % vals when only plain %s is used"""
    out, vals, i, cur = [], list(vals), 0, ""
    while i < len(text):
        if text[i] != "%":
            cur += text[i]
            i += 1
        elif text[i:i + 2] == "%%":
            cur += "%"
            i += 2
        elif text[i:i + 2] == "%s" and vals:
            x = vals.pop(0)
            out += [K(cur)] + (segments_of(x) if x[0] != "K" else [K(str(x[2]))])
            cur = ""
            i += 2
        else:
            return None
    return None if vals else out + [K(cur)]


def brace_format(text, args, kw):
    """segments of text.format(...) when only plain fields are used"""
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            out.append(K(lit))
            if field is None:
                continue
            if spec or conv:
                return None
            if field == "":
                x, auto = args[auto], auto + 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                return None
            if x[0] in ("*", "**"):
                return None
            out += segments_of(x) if x[0] != "K" else [K(str(x[2]))]
    except (ValueError, IndexError):
        return None
    return out


def fold_bin(op, l, r):
    try:
        a, b = l[2], r[2]
        if isinstance(op, ast.Add):
            return K(a + b)
        if isinstance(op, ast.Sub):
            return K(a - b)
        if isinstance(op, ast.Mult):
            return K(a * b)
        if isinstance(op, ast.LShift):
            return K(a << b)
        if isinstance(op, ast.FloorDiv):
            return K(a // b)
        if isinstance(op, ast.Div):
            return K(a / b)
        if isinstance(op, ast.Mod) and not isinstance(a, str):
            return K(a % b)
        if isinstance(op, ast.Pow) and abs(b) <= 128 and abs(a) <= 1024:
            return K(a ** b)
        if isinstance(op, ast.BitOr):
            return K(a | b)
    except Exception:
        return None
    return None


def enum_key(v):
    return (v[2], v[3]) if v[0] == "A" and v[1] == "enum" else None


def substv(v, sub):
    """replace values by values"""
    if not isinstance(v, tuple) or not v:
        return v
    if v in sub:
        return sub[v]
    if v[0] == "L":
        tot = K(v[1])
        for t, k in v[2]:
            tot = add(tot, mul(K(k), substv(t, sub)))
        return tot
    if v[0] == "K":
        return v
    return tuple(substv(x, sub) if isinstance(x, tuple) else x for x in v)


def subst(v, lids):
    """rename loop ids inside elem/idx terms"""
    if not isinstance(v, tuple):
        return v
    if len(v) >= 4 and v[0] == "A" and v[1] == "elem" and v[3] in lids:
        return ("A", "elem", v[2], lids[v[3]])
    if len(v) == 3 and v[0] == "A" and v[1] == "idx" and v[2] in lids:
        return ("A", "idx", lids[v[2]])
    return tuple(subst(x, lids) for x in v)
