"""Program model: every Python module of the analysed packages, parsed (never imported or run),
with classes, MRO, functions, imports and attribute types resolved."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGES = [
    ("ekosis", "ekosis"),
    ("ekosis_otlp_traces/ekosis_otlp_traces", "ekosis_otlp_traces"),
    ("ekosis_prometheus/ekosis_prometheus", "ekosis_prometheus"),
]


class AnalysisBroken(Exception):
    """The analysis can not answer (an anchor vanished, a file does not parse)."""


class Func:
    __slots__ = ("fid", "name", "qual", "node", "module", "cls", "kind", "is_async", "is_gen",
                 "outer", "params", "path")

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    __slots__ = ("name", "qual", "node", "module", "bases", "methods", "attrs", "ann", "path",
                 "_mro", "metaclass", "inst_ann", "subclasses", "decorators")

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    __slots__ = ("name", "path", "tree", "names", "is_pkg", "relpath")


def _is_gen(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}       # qual -> Class
        self.by_name = {}       # simple class name -> [Class]
        self.funcs = []         # fid -> Func
        self.fn_by_node = {}
        self.func_by_qual = {}
        self._load()

    # ------------------------------------------------------------------ construction
    def in_constructor(self, func):
        """a constructor, or a private method that is only ever called while an object is made (from constructors, on self)"""
        if func.name == "__init__":
            return func.cls is not None
        if getattr(self, "_ctor_parts", None) is None:
            uses, called = {}, {}       # spelled name -> functions that mention it at all / that call it on self
            for m in self.modules.values():
                def walk(node, f):
                    f = self.fn_by_node.get(node, f)
                    if isinstance(node, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)) and f is not None and f.node is not node and f.kind != "def":
                        f = None
                    if isinstance(node, ast.Attribute):
                        uses.setdefault(node.attr, set()).add(f)
                    elif isinstance(node, ast.Name):
                        uses.setdefault(node.id, set()).add(f)
                    elif isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value.isidentifier():
                        uses.setdefault(node.value, set()).add(f)
                    for x in ast.iter_child_nodes(node):
                        walk(x, f)
                walk(m.tree, None)
            cand = {f for f in self.funcs if f.cls is not None and f.name.startswith("_") and not f.name.endswith("__")}
            while True:
                names = {f.name for f in cand}
                # a name stands for all methods that have it
                bad = {n for n in names if not uses.get(n) or any(u is None or u.cls is None or u.name != "__init__" and u not in cand for u in uses[n])}
                bad |= {f.name for f in self.funcs if f.name in names and f not in cand}
                if not bad:
                    break
                cand = {f for f in cand if f.name not in bad}
            self._ctor_parts = cand
        return func in self._ctor_parts

    def inner(self, func):
        """a private method that only ever runs as part of other methods of its class: every mention of its name is a call on self
        (awaited where it is a coroutine) in one of them, and it is reached from a method that is no such part itself"""
        if getattr(self, "_inner", None) is None:
            uses = {}                   # spelled name -> (function, plain call on self?)
            for m in self.modules.values():
                def walk(node, f, up):
                    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self.fn_by_node.get(node) if f is None else False       # False: inside a function made at run time
                    if isinstance(node, ast.Attribute):
                        call = up[-1] if up else None
                        plain = isinstance(call, ast.Call) and call.func is node and isinstance(node.value, ast.Name) and node.value.id in ("self", "cls")
                        waited = len(up) > 1 and isinstance(up[-2], ast.Await)
                        held = any(isinstance(x, (ast.Lambda, ast.GeneratorExp)) for x in up)
                        uses.setdefault(node.attr, []).append((f, plain and not held, waited))
                    elif isinstance(node, ast.Name):
                        uses.setdefault(node.id, []).append((f, False, False))
                    elif isinstance(node, ast.Constant) and isinstance(node.value, str) and node.value.isidentifier():
                        uses.setdefault(node.value, []).append((f, False, False))
                    for x in ast.iter_child_nodes(node):
                        walk(x, f, up + [node])
                walk(m.tree, None, [])
            cand = {f for f in self.funcs if f.cls is not None and f.name.startswith("_") and not f.name.endswith("__") and f.kind == "func"
                    and not f.node.decorator_list}

            def fits(f):
                us = uses.get(f.name)
                coro = isinstance(f.node, ast.AsyncFunctionDef)
                return us and all(u and u.cls is f.cls and plain and (waited or not coro) for u, plain, waited in us)
            cand = {f for f in cand if fits(f)}
            reached = set()             # parts that a whole method uses, directly or through other parts
            while True:
                more = {f for f in cand - reached if any(u not in cand or u in reached for u, _, _ in uses[f.name])}
                if not more:
                    break
                reached |= more
            self._inner = reached
        return func in self._inner

    # ------------------------------------------------------------------ loading
    def _load(self):
        for rel, pkg in PACKAGES:
            root = os.path.join(self.repo, rel)
            if not os.path.isdir(root):
                raise AnalysisBroken(f"package directory vanished: {rel}")
            for dirpath, dirs, files in os.walk(root):
                dirs[:] = sorted(d for d in dirs if not d.startswith((".", "__pycache__")))
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dirpath, f)
                    r = os.path.relpath(p, root)[:-3].split(os.sep)
                    is_pkg = r[-1] == "__init__"
                    if is_pkg:
                        r = r[:-1]
                    name = ".".join([pkg] + r)
                    m = Module()
                    m.name, m.path, m.is_pkg = name, p, is_pkg
                    m.relpath = os.path.relpath(p, self.repo)
                    try:
                        m.tree = ast.parse(open(p, encoding="utf-8").read(), p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"does not parse: {p}: {e}")
                    m.names = {}
                    self.modules[name] = m
        self._link()

    def _link(self, shared=False):
        for m in self.modules.values():
            self._collect(m, m.tree.body, m.names)
        if shared:   # one name space for all modules
            every = {k: v for m in self.modules.values() for k, v in m.names.items() if v[0] in ("class", "func", "var")}
            for m in self.modules.values():
                for k, v in every.items():
                    if k not in m.names:
                        owner = next(x for x in self.modules.values() if x.names.get(k) is v)
                        m.names[k] = v if v[0] != "var" else ("from", owner.name, k)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]
        for c in self.classes.values():
            for b in self.mro(c)[1:]:
                if isinstance(b, Class):
                    b.subclasses.append(c)
            c.metaclass = None
        for c in self.classes.values():
            for b in self.mro(c):
                if isinstance(b, Class):
                    for kw in b.node.keywords:
                        if kw.arg == "metaclass" and c.metaclass is None:
                            c.metaclass = self.resolve_expr(b.module, kw.value)

    def _collect(self, m, body, names, under=None):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.make_func(n, m, None, None)
                names[n.name] = ("func", f)
            elif isinstance(n, ast.ClassDef):
                names[n.name] = ("class", self._make_class(n, m))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        names[a.asname] = ("import", a.name)
                    else:
                        top = a.name.split(".")[0]
                        names[top] = ("import", top)
            elif isinstance(n, ast.ImportFrom):
                base = self._abs(m, n)
                for a in n.names:
                    names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name) and isinstance(nm.ctx, ast.Store):
                            names[nm.id] = ("var", n.value if isinstance(t, ast.Name) else None, n)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                names[n.target.id] = ("var", n.value, n)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ("body", "orelse", "finalbody"):
                    self._collect(m, getattr(n, fld, []) or [], names)
                for h in getattr(n, "handlers", []) or []:
                    self._collect(m, h.body, names)

    def _abs(self, m, n):
        if not n.level:
            base = n.module or ""
            # the sub-distributions import themselves by their doubled package path
            for rel, pkg in PACKAGES:
                dotted = rel.replace("/", ".")
                if dotted != pkg and (base == dotted or base.startswith(dotted + ".")):
                    base = pkg + base[len(dotted):]
            return base
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def _make_class(self, n, m):
        c = Class()
        c.name, c.node, c.module, c.path = n.name, n, m, m.relpath
        c.qual = f"{m.name}.{n.name}"
        c.methods, c.attrs, c.ann, c._mro = {}, {}, {}, None
        c.inst_ann = None
        c.subclasses = []
        c.metaclass = None
        c.bases = []
        c.decorators = [ast.unparse(d) for d in n.decorator_list]
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                name = mangle(s.name, n.name)
                f = self.make_func(s, m, c, None)
                if name in c.methods and f.kind == "setter":
                    continue
                c.methods[name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[mangle(t.id, n.name)] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                nm = mangle(s.target.id, n.name)
                c.ann[nm] = s.annotation
                if s.value is not None:
                    c.attrs[nm] = s.value
        self.classes[c.qual] = c
        self.by_name.setdefault(c.name, []).append(c)
        return c

    def make_func(self, n, m, cls, outer):
        if n in self.fn_by_node:
            return self.fn_by_node[n]
        f = Func()
        f.fid = len(self.funcs)
        f.node, f.module, f.cls, f.outer = n, m, cls, outer
        f.path = m.relpath
        f.name = getattr(n, "name", "<lambda>")
        pre = cls.qual if cls else (outer.qual + ".<locals>" if outer else m.name)
        f.qual = f"{pre}.{f.name}"
        f.is_async = isinstance(n, ast.AsyncFunctionDef)
        f.is_gen = not isinstance(n, ast.Lambda) and _is_gen(n)
        kind = "func"
        for d in getattr(n, "decorator_list", []):
            s = ast.unparse(d)
            if s == "staticmethod":
                kind = "static"
            elif s == "classmethod":
                kind = "class"
            elif s in ("property", "functools.cached_property", "cached_property"):
                kind = "property"
            elif s.endswith(".setter"):
                kind = "setter"
            elif s.endswith("abstractmethod") and kind == "func":
                kind = "abstract"
        f.kind = kind
        self.funcs.append(f)
        self.fn_by_node[n] = f
        self.func_by_qual.setdefault(f.qual, f)
        return f

    # ------------------------------------------------------------------ resolution
    def resolve_name(self, m, name, _seen=None):
        """-> ('class',Class) | ('func',Func) | ('module',name) | ('ext',dotted) | ('var',module,name,expr) | None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        e = m.names.get(name)
        if e is None:
            return None
        if e[0] in ("class", "func"):
            return e
        if e[0] == "import":
            return ("module", e[1]) if e[1] in self.modules else ("ext", e[1])
        if e[0] == "from":
            base, nm = e[1], e[2]
            if base in self.modules:
                r = self.resolve_name(self.modules[base], nm, _seen)
                if r:
                    return r
                if f"{base}.{nm}" in self.modules:
                    return ("module", f"{base}.{nm}")
            if f"{base}.{nm}" in self.modules:
                return ("module", f"{base}.{nm}")
            return ("ext", f"{base}.{nm}")
        if e[0] == "var":
            return ("var", m, name, e[1])
        return None

    def resolve_expr(self, m, e):
        """Resolve an expression naming a class: -> Class | dotted external string"""
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode="eval").body)
            except SyntaxError:
                return e.value
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id)
            if r is None:
                return e.id
            if r[0] == "class":
                return r[1]
            if r[0] == "ext":
                return r[1]
            if r[0] == "module":
                return r[1]
            return e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, str):
                if b in self.modules:
                    r = self.resolve_name(self.modules[b], e.attr)
                    if r and r[0] == "class":
                        return r[1]
                return f"{b}.{e.attr}"
            return f"{b.qual}.{e.attr}"
        return ast.unparse(e)

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]  # recursion guard
            seqs = []
            for b in c.bases:
                seqs.append(list(self.mro(b)) if isinstance(b, Class) else [b])
            seqs.append(list(c.bases))
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
            c._mro = out
        return c._mro

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for b in mro:
            if isinstance(b, Class) and name in b.methods:
                return b.methods[name]
        return None

    def find_attr(self, c, name):
        for b in self.mro(c):
            if isinstance(b, Class) and name in b.attrs:
                return b, b.attrs[name]
        return None

    def is_subclass(self, c, base):
        """base: simple or dotted name"""
        last = base.split(".")[-1]
        for b in self.mro(c):
            n = b.name if isinstance(b, Class) else str(b).split(".")[-1]
            if n == last:
                return True
        return False

    def cls(self, name):
        """Find a class by simple name; a vanished class breaks the analysis."""
        cs = self.by_name.get(name, [])
        if len(cs) != 1:
            raise AnalysisBroken(f"anchor class {name}: {len(cs)} definitions")
        return cs[0]

    def method(self, cname, mname):
        c = self.cls(cname) if isinstance(cname, str) else cname
        f = self.find_method(c, mname)
        if f is None:
            raise AnalysisBroken(f"anchor method {c.name}.{mname} vanished")
        return f

    def function(self, name):
        fs = list({id(e[1]): e[1] for m in self.modules.values() for k, e in m.names.items() if k == name and e[0] == "func"}.values())
        if len(fs) != 1:
            raise AnalysisBroken(f"anchor function {name}: {len(fs)} definitions")
        return fs[0]

    # ------------------------------------------------------------------ attribute types
    def ann_class(self, m, ann):
        """Annotation -> Class, or ('dict', valueann, module) / ('list', elemann, module), or dotted str"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            l = self.ann_class(m, ann.left)
            r = self.ann_class(m, ann.right)
            if l is None or l == "None":
                return r
            return l
        if isinstance(ann, ast.Constant):
            return None
        if isinstance(ann, ast.Subscript):
            b = self.resolve_expr(m, ann.value)
            bl = b.name if isinstance(b, Class) else b.split(".")[-1]
            if bl in ("Dict", "dict", "Mapping"):
                if isinstance(ann.slice, ast.Tuple) and len(ann.slice.elts) == 2:
                    return ("dict", ann.slice.elts[1], m)
                return ("dict", None, m)
            if bl in ("List", "list", "Sequence", "Iterable"):
                return ("list", ann.slice, m)
            if bl in ("set", "Set", "frozenset"):
                return ("set", ann.slice, m)
            if bl in ("Optional",):
                return self.ann_class(m, ann.slice)
            if bl in ("Type", "type"):
                return "type"
            if bl in ("tuple", "Tuple"):
                return ("tuple", ann.slice, m)
            return b
        r = self.resolve_expr(m, ann)
        if isinstance(r, str):
            if r in ("dict", "typing.Dict"):
                return ("dict", None, m)
            if r in ("list", "typing.List"):
                return ("list", None, m)
            if r in ("set",):
                return ("set", None, m)
        return r

    def attr_type(self, c, name):
        for b in self.mro(c):
            if not isinstance(b, Class):
                continue
            if b.inst_ann is None:
                b.inst_ann = self._inst_types(b)
            if name in b.inst_ann:
                return b.inst_ann[name]
            if name in b.ann:
                t = self.ann_class(b.module, b.ann[name])
                if t is not None:
                    return t
            if name in b.attrs:
                t = self._expr_type(b.module, b.attrs[name], {})
                if t is not None:
                    return t
        return None

    def _expr_type(self, m, e, params):
        if isinstance(e, ast.Call):
            r = self.resolve_expr(m, e.func)
            if isinstance(r, Class):
                return r
            if isinstance(e.func, (ast.Name, ast.Attribute)) and isinstance(r, str):
                last = r.split(".")[-1]
                if last and (last[0].isupper() or last in ("dict", "list", "set")):
                    return {"dict": ("dict", None, m), "list": ("list", None, m), "set": ("set", None, m)}.get(last, r)
            return None
        if isinstance(e, ast.Name) and e.id in params:
            return self.ann_class(m, params[e.id])
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return ("dict", None, m)
        if isinstance(e, (ast.List, ast.ListComp)):
            return ("list", None, m)
        if isinstance(e, (ast.Set, ast.SetComp)):
            return ("set", None, m)
        return None

    def _inst_types(self, c):
        out = {}
        for f in c.methods.values():
            params = {}
            for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs:
                if a.annotation is not None:
                    params[a.arg] = a.annotation
            selfname = f.node.args.args[0].arg if f.node.args.args and f.kind != "static" else None
            if selfname is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                        and isinstance(n.target.value, ast.Name) and n.target.value.id == selfname:
                    t = self.ann_class(c.module, n.annotation)
                    if t is not None:
                        out[mangle(n.target.attr, c.name)] = t
                elif isinstance(n, ast.Assign):
                    for t0 in n.targets:
                        if isinstance(t0, ast.Attribute) and isinstance(t0.value, ast.Name) and t0.value.id == selfname:
                            t = self._expr_type(c.module, n.value, params)
                            if t is not None:
                                out.setdefault(mangle(t0.attr, c.name), t)
        return out


def mangle(name, clsname):
    if name.startswith("__") and not name.endswith("__") and clsname:
        return f"_{clsname.lstrip('_')}{name}"
    return name
