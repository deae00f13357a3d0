"""C++ front end of the path analysis: the typed syntax trees clang prints for a directory of C++ sources are rewritten, statement by statement, into the
syntax trees the analysis of engine/interp.py works on, so that both languages share one path-sensitive analysis.  Nothing is run.

What the rewriting relies on: object identity stands for references, pointers and smart pointers (an absent one is None); library containers and strings
become sequences and dictionaries, with the calls that change them kept as events; anything of the libraries that has no counterpart here stays an
uninterpreted call `cxx.<name>`; assignments, ++ and calls that write through a pointer are taken out of the expression they stand in, in order of
evaluation.  A function that uses a construct with no rewriting (goto, a switch that falls through) becomes a call of cxx.unsupported."""
import ast
import os
import re

from engine import cxxdump
from engine.cxxdump import FrontEnd  # noqa
from engine.program import Program, Module

WRAP = {"ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr",
        "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXRewrittenBinaryOperator",
        "CXXStdInitializerListExpr", "FullExpr", "CXXDynamicCastExpr", "UserDefinedLiteral", "OpaqueValueExpr", "BuiltinBitCastExpr"}
EXC = {"std::runtime_error": "RuntimeError", "runtime_error": "RuntimeError", "std::exception": "Exception", "exception": "Exception",
       "std::bad_alloc": "MemoryError", "bad_alloc": "MemoryError"}
LIBRARY = '''
class JsonException(Exception): pass
class JsonParseError(JsonException): pass
class JsonTypeError(JsonException): pass
class JsonOutOfRange(JsonException): pass
class SqliteException(RuntimeError): pass
class LogicError(Exception): pass
class OutOfRange(LogicError): pass
class InvalidArgument(LogicError): pass
class SystemError_(RuntimeError): pass
'''
LIBEXC = {"json::exception": "JsonException", "detail::exception": "JsonException", "json::parse_error": "JsonParseError", "detail::parse_error": "JsonParseError",
          "json::type_error": "JsonTypeError", "detail::type_error": "JsonTypeError", "json::out_of_range": "JsonOutOfRange", "detail::out_of_range": "JsonOutOfRange",
          "SQLite::Exception": "SqliteException", "std::logic_error": "LogicError", "logic_error": "LogicError", "std::out_of_range": "OutOfRange",
          "out_of_range": "OutOfRange", "std::invalid_argument": "InvalidArgument", "invalid_argument": "InvalidArgument", "std::system_error": "SystemError_",
          "parse_error": "JsonParseError", "type_error": "JsonTypeError"}
BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.FloorDiv, "%": ast.Mod, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}


class Untranslatable(Exception):
    pass


def clean(t):
    t = re.sub(r"\b(const|volatile|struct|class|enum|typename)\b", "", t)
    t = t.replace("(anonymous namespace)::", "").replace("&", "").replace("*", "")
    return re.sub(r"\s+", " ", t).strip()


def qt(n):
    t = n.get("type") or {}
    return t.get("qualType", "")


def types(n):
    t = n.get("type") or {}
    return [clean(x) for x in (t.get("qualType", ""), t.get("desugaredQualType", "")) if x]


def has(n, *pre):
    return any(x.startswith(p) for x in types(n) for p in pre)


def is_string(n):
    return has(n, "std::string", "std::basic_string", "basic_string", "string", "std::string_view", "std::basic_string_view")


def is_vector(n):
    return has(n, "std::vector", "vector<", "std::deque", "deque<", "std::list<", "list<", "std::array", "std::initializer_list")


def is_map(n):
    return has(n, "std::map", "map<", "std::unordered_map", "unordered_map<")


def is_set(n):
    return has(n, "std::set", "set<", "std::unordered_set", "unordered_set<")


def is_json(n):
    return any("basic_json" in x or x in ("json", "nlohmann::json") or x.endswith("::json") for x in types(n)) and not any("iterat" in x for x in types(n))


def is_handle(n):
    return has(n, "std::unique_ptr", "unique_ptr<", "std::shared_ptr", "shared_ptr<", "std::optional", "optional<", "__detail::__unique_ptr_t", "std::_Optional")


def is_stream(n):
    return any("stream" in x for x in types(n))


def is_lambda(n):
    return any("lambda at" in x for x in types(n))


def strip(n):
    while n.get("kind") in WRAP and n.get("inner"):
        n = n["inner"][0]
    return n


def kids(n):
    return [x for x in n.get("inner", []) if x and "kind" in x]


class Unit:
    def __init__(self, path, decls):
        self.path, self.decls = path, decls
        self.stem = os.path.splitext(os.path.basename(path))[0]
        self.fn = {}       # id -> python name of a function of the project
        self.meth = {}     # id -> (class, python name)
        self.rec = {}      # id -> record name
        self.field = {}
        self.glob = {}


class Record:
    def __init__(self, name):
        self.name, self.fields, self.bases, self.ctors, self.methods, self.unit = name, [], [], [], {}, None
        self.at = None


class Project:
    """everything defined in the sources, and its rewriting"""

    def __init__(self, root):
        self.root = root
        self.units = [Unit(p, d) for p, d in cxxdump.units(root).items()]
        self.records = {}          # name -> Record
        self.functions = {}        # python name -> (unit, decl)
        self.sigs = {}             # (name, signature) -> python name
        self.globals = {}          # name -> (unit, decl)
        self.failed = {}           # function -> why it has no rewriting
        self.refs = {}             # (record or None, function) -> positions of the parameters it writes through a reference
        self.given = {}            # (record or None, function, position) -> default argument
        for u in self.units:
            self.collect(u, u.decls, [], False)
        for u in self.units:
            self.define(u, u.decls)
        for _ in range(6):         # writing through a reference reaches callers of callers
            self.failed, before = {}, dict(self.refs)
            self.modules = self.write()
            if before == self.refs:
                break

    # ------------------------------------------------------------------ declarations
    def fname(self, u, d, anon):
        key = (d["name"], qt(d), u.stem if anon or d.get("storageClass") == "static" else "")
        if key not in self.sigs:
            taken = set(self.sigs.values())
            n, i = d["name"], 2
            while n in taken:
                n = f"{d['name']}__{i}"
                i += 1
            self.sigs[key] = n
        return self.sigs[key]

    def mname(self, r, d):
        key = (r.name, d["name"], qt(d))
        if key not in self.sigs:
            taken = {v for k, v in self.sigs.items() if k[0] == r.name and len(k) == 3 and k[1] == d["name"]}
            base = {"operator()": "__call__"}.get(d["name"], re.sub(r"\W", "_", d["name"]))
            n, i = base, 2
            while n in taken:
                n = f"{base}__{i}"
                i += 1
            self.sigs[key] = n
        return self.sigs[key]

    def collect(self, u, decls, outer, anon):
        for d in decls:
            k = d.get("kind")
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                self.collect(u, kids(d), outer, anon or "name" not in d)
            elif k == "CXXRecordDecl" and d.get("name"):
                r = self.records.setdefault(d["name"], Record(d["name"]))
                u.rec[d["id"]] = r.name
                if not d.get("completeDefinition"):
                    continue
                new = not r.fields and not r.ctors and r.unit is None
                if r.unit is None or u.stem == os.path.splitext(os.path.basename((d.get("_at") or ("", 0))[0] or ""))[0]:
                    r.unit = u
                r.at = r.at or d.get("_at")
                if new:
                    r.bases = [clean(b["type"]["qualType"]) for b in d.get("bases", [])]
                for x in kids(d):
                    if x["kind"] == "FieldDecl" and x.get("name"):
                        u.field[x["id"]] = x["name"]
                        if new:
                            r.fields.append((x["name"], u, x))
                    elif x["kind"] in ("CXXMethodDecl", "CXXConversionDecl") and not x.get("isImplicit"):
                        u.meth[x["id"]] = (r.name, self.mname(r, x))
                        self.note_defaults(u, r.name, u.meth[x["id"]][1], x)
                    elif x["kind"] == "CXXConstructorDecl" and not x.get("isImplicit") and not x.get("explicitlyDeleted"):
                        if all(c[0] != qt(x) for c in r.ctors):
                            r.ctors.append([qt(x), None, None])
                        u.meth[x["id"]] = (r.name, "__init__")
                        self.note_defaults(u, r.name, "__init__" + qt(x), x)
                    elif x["kind"] in ("CXXRecordDecl",) and x.get("completeDefinition") and x.get("name") != r.name:
                        self.collect(u, [x], outer + [r.name], anon)
                    elif x["kind"] == "VarDecl" and x.get("name"):
                        u.glob[x["id"]] = x["name"]
                        if kids(x):
                            self.globals.setdefault(x["name"], (u, x))
            elif k == "FunctionDecl" and d.get("name"):
                u.fn[d["id"]] = u.fn.get(d.get("previousDecl")) or self.fname(u, d, anon)
                self.note_defaults(u, None, u.fn[d["id"]], d)
            elif k in ("CXXMethodDecl", "CXXConversionDecl", "CXXConstructorDecl") and d.get("previousDecl") in u.meth:
                u.meth[d["id"]] = u.meth[d["previousDecl"]]
            elif k == "VarDecl" and d.get("name"):
                u.glob[d["id"]] = d["name"]
                if kids(d):
                    self.globals.setdefault(d["name"], (u, d))

    def note_defaults(self, u, rec, name, d):
        for i, x in enumerate(y for y in kids(d) if y["kind"] == "ParmVarDecl"):
            init = next((y for y in kids(x) if not y["kind"].endswith("Attr")), None)
            if init is not None:
                self.given.setdefault((rec, name, i), (u, init))

    def define(self, u, decls, rec=None):
        for d in decls:
            k = d.get("kind")
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                self.define(u, kids(d))
            elif k == "CXXRecordDecl" and d.get("completeDefinition") and d.get("name"):
                self.define(u, kids(d), self.records[d["name"]])
            elif k == "FunctionDecl" and body(d) is not None:
                self.functions.setdefault(u.fn[d["id"]], (u, d))
            elif k in ("CXXMethodDecl", "CXXConversionDecl") and body(d) is not None and not d.get("isImplicit"):
                r = rec or self.owner(u, d)
                if r is not None:
                    r.methods.setdefault(u.meth[d["id"]][1] if d["id"] in u.meth else self.mname(r, d), (u, d))
                    if rec is None:
                        r.unit = u
            elif k == "CXXConstructorDecl" and body(d) is not None and not d.get("isImplicit"):
                r = rec or self.owner(u, d)
                if r is not None:
                    for c in r.ctors:
                        if c[0] == qt(d) and c[1] is None:
                            c[1], c[2] = u, d
                    if rec is None:
                        r.unit = u

    def owner(self, u, d):
        n = u.rec.get(d.get("parentDeclContextId"))
        if n is None and d.get("previousDecl") in u.meth:
            n = u.meth[d["previousDecl"]][0]
        return self.records.get(n)

    def record_of(self, n):
        """the project's record an expression's type names"""
        for t in types(n):
            if "<" in t or "lambda at" in t:
                continue
            last = t.split("::")[-1].strip()
            if last in self.records and (self.records[last].fields or self.records[last].ctors or self.records[last].methods):
                return self.records[last]
        return None

    # ------------------------------------------------------------------ output
    def write(self):
        mods = {}

        def mod(u):
            if u.stem not in mods:
                mods[u.stem] = (u, [])
            return mods[u.stem][1]
        for name, (u, d) in self.globals.items():
            t = Fn(self, u, None)
            try:
                v = t.expr(kids(d)[-1])
                if not t.out:
                    mod(u).append(at(ast.Assign([ast.Name(name, ast.Store())], v), d))
            except Untranslatable:
                pass
        for r in self.records.values():
            if r.unit is None or not (r.fields or r.ctors or r.methods):
                continue
            for c in self.write_record(r):
                mod(r.unit).append(c)
        for name, (u, d) in self.functions.items():
            mod(u).append(self.function(u, d, name, None))
        return mods

    def function(self, u, d, name, rec, ctor=False):
        params = [x for x in kids(d) if x["kind"] == "ParmVarDecl"]
        static = d.get("storageClass") == "static" and rec is not None
        key = (rec.name if rec else None, name)
        while True:
            t = Fn(self, u, rec)
            names = [t.declare(x, x.get("name") or f"_arg{i}") for i, x in enumerate(params)]
            byref = [i for i, x in enumerate(params) if reference(x)]
            t.gives = [names[i] for i in self.refs.get(key, ())]
            ann = {n: t.annotation(x) for n, x in zip(names, params)}
            try:
                if ctor:
                    t.init_fields(rec, d)
                t.stmt(body(d))
                if t.gives:
                    t.give(d)
            except Untranslatable as e:
                self.failed[name] = str(e)
                t.out = [at(ast.Expr(call("unsupported", [ast.Constant(str(e))])), d)]
                break
            now = tuple(i for i in byref if names[i] in t.wrote)
            if ctor and now:
                self.failed[name] = "constructor writes through a reference"
                t.out = [at(ast.Expr(call("unsupported", [ast.Constant("reference")])), d)]
                break
            if set(now) <= set(self.refs.get(key, ())):
                break
            self.refs[key] = now
        args = ([ast.arg("self")] if rec and not static else []) + [ast.arg(n, ann[n]) for n in names]
        defaults = []
        for i in range(len(names)):
            g = self.given.get((rec.name if rec else None, name + (qt(d) if ctor else ""), i))
            if g is not None:
                w = Fn(self, g[0], rec)
                try:
                    v = w.expr(g[1])
                except Untranslatable:
                    v = call("unknown", [ast.Constant("default argument")])
                defaults.append(v if not w.out else call("unknown", [ast.Constant("default argument")]))
            elif defaults:
                defaults.append(call("unknown", [ast.Constant("default argument")]))
        f = ast.FunctionDef(name=name, args=ast.arguments([], args, None, [], [], None, defaults), body=primed(t.out) or [ast.Pass()],
                            decorator_list=[ast.Name("staticmethod", ast.Load())] if static else [], returns=None, type_params=[])
        return at(f, d)

    def write_record(self, r):
        u = r.unit
        bases = []
        for b in r.bases:
            last = b.split("::")[-1]
            bases.append(ast.Name(exc_name(b, self) if last not in self.records else last, ast.Load()))
        methods = [self.function(mu, d, n, r) for n, (mu, d) in r.methods.items()]
        ctors = [c for c in r.ctors if c[2] is not None]
        out = []
        inits = []
        for sig, cu, d in ctors:
            inits.append(self.function(cu, d, "__init__", r, ctor=True))
        if not inits:
            t = Fn(self, u, r)
            t.init_fields(r, None)
            inits.append(at(ast.FunctionDef("__init__", ast.arguments([], [ast.arg("self")], None, [], [], None, []), t.out or [ast.Pass()], [], None, type_params=[]), {"_at": r.at}))
        ann = []
        for n, fu, x in r.fields:
            a = Fn(self, fu, r).annotation(x)
            if a is not None:
                ann.append(at(ast.AnnAssign(ast.Name(n, ast.Store()), a, None, 1), x))
        first = inits[0]
        out.append(at(ast.ClassDef(r.name, bases, [], ann + [first] + methods, [], type_params=[]), {"_at": r.at}))
        for i, f in enumerate(inits[1:], 2):
            out.append(at(ast.ClassDef(f"{r.name}__{i}", [ast.Name(r.name, ast.Load())], [], [f], [], type_params=[]), {"_at": r.at}))
        if r.fields and not ctors:
            body_ = [at(ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), n, ast.Store())], ast.Name(n, ast.Load())), x) for n, _, x in r.fields]
            f = at(ast.FunctionDef("__init__", ast.arguments([], [ast.arg("self")] + [ast.arg(n, Fn(self, fu, r).annotation(x)) for n, fu, x in r.fields], None, [], [], None, []), body_, [], None, type_params=[]), {"_at": r.at})
            out.append(at(ast.ClassDef(f"{r.name}__agg", [ast.Name(r.name, ast.Load())], [], [f], [], type_params=[]), {"_at": r.at}))
        return out


def primed(stmts):
    """x = E; while (c) { ...; x = E }   is the same as   while (true) { x = E; if (!c) break; ... }"""
    out = []
    for s in stmts:
        for f in ("body", "orelse", "finalbody"):
            if getattr(s, f, None):
                setattr(s, f, primed(getattr(s, f)))
        for h in getattr(s, "handlers", []):
            h.body = primed(h.body)
        p = out[-1] if out else None
        if isinstance(s, ast.While) and not s.orelse and isinstance(p, ast.Assign) and len(s.body) > 1 and isinstance(s.body[-1], ast.Assign) and \
                isinstance(p.targets[0], ast.Name) and any(isinstance(x, ast.Call) for x in ast.walk(p.value)) and \
                ast.unparse(p) == ast.unparse(s.body[-1]) and not any(isinstance(x, ast.Continue) for y in s.body for x in ast.walk(y)):
            out.pop()
            out.append(at(ast.While(ast.Constant(True), [p, at(ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []), {"_at": (None, s.lineno)})] + s.body[:-1], []), {"_at": (None, s.lineno)}))
        else:
            out.append(s)
    return out


def exc_name(t, project):
    t = clean(t)
    if t in EXC:
        return EXC[t]
    for k in sorted(LIBEXC, key=len, reverse=True):
        if t == k or t.endswith("::" + k):
            return LIBEXC[k]
    last = t.split("::")[-1]
    if last in project.records:
        return last
    return "Exception_" + re.sub(r"\W", "_", last)


def reference(x):
    """a parameter or variable that is another name for something assignable"""
    t = qt(x)
    return t.endswith("&") and not t.endswith("&&") and not re.match(r"const\b", t) and not is_stream(x)


def body(d):
    for x in reversed(kids(d)):
        if x["kind"] in ("CompoundStmt", "CXXTryStmt"):
            return x
    return None


def at(node, d):
    line = (d.get("_at") or (None, 1))[1] or 1
    for x in ast.walk(node):
        if isinstance(x, (ast.stmt, ast.expr, ast.arg, ast.keyword, ast.excepthandler)) and getattr(x, "lineno", None) is None:
            x.lineno = x.end_lineno = line
            x.col_offset = x.end_col_offset = 0
    return node


def call(name, args):
    return ast.Call(ast.Attribute(ast.Name("cxx", ast.Load()), name, ast.Load()), list(args), [])


def load(e):
    """an assignable expression, as a value"""
    e = ast.parse(ast.unparse(e), mode="eval").body if not isinstance(e, ast.Name) else ast.Name(e.id, ast.Load())
    return e


class Fn:
    """rewriting of one function"""

    def __init__(self, project, unit, rec, parent=None):
        self.p, self.u, self.rec, self.parent = project, unit, rec, parent
        self.out = []
        self.names = {} if parent is None else dict(parent.names)   # id -> name
        self.used = set() if parent is None else parent.used
        self.mine = set()
        self.wrote = set()
        self.bound = set() if parent is None else parent.bound        # references whose object is not known here
        self.tmp = [0] if parent is None else parent.tmp
        self.inc = []            # what a `continue` runs first
        self.alias = {} if parent is None else dict(parent.alias)     # id of a reference -> the place it names
        self.gives = []          # parameters whose new values are handed back
        self.lambdas = {} if parent is None else parent.lambdas       # name of a lambda -> positions of the parameters it hands back

    # ------------------------------------------------------------------ helpers
    def give(self, d):
        if not (self.out and isinstance(self.out[-1], (ast.Return, ast.Raise))):
            self.emit(ast.Return(self.handed(None)), d)

    def handed(self, e):
        return ast.Tuple([e if e is not None else ast.Constant(None)] + [ast.Name(x, ast.Load()) for x in self.gives], ast.Load())

    def called(self, c, key, ns, n, where=None):
        """a call of a function of the project, whose new values of reference parameters are put back"""
        pos = self.p.refs.get(key, ()) if where is None else where
        if not pos:
            return c
        r = self.save(c, n)
        for k, i in enumerate(pos, 1):
            if i < len(ns):
                t = self.target(ns[i])
                self.emit(ast.Assign([t], ast.Subscript(load(r), ast.Constant(k), ast.Load())), n)
        return ast.Subscript(load(r), ast.Constant(0), ast.Load())

    def declare(self, d, name=None):
        n = name or d.get("name") or "_"
        base, i = n, 2
        if n in ("self", "cxx", "None", "True", "False", "print", "str", "len", "list", "dict", "min", "max", "in", "is", "not", "and", "or", "from", "as", "with", "lambda", "def", "pass", "raise", "import", "global", "yield", "del", "async", "await", "nonlocal", "except", "finally", "assert", "elif"):
            n = base = n + "_"
        while n in self.used:
            n = f"{base}_{i}"
            i += 1
        self.used.add(n)
        self.names[d["id"]] = n
        self.mine.add(n)
        return n

    def temp(self):
        self.tmp[0] += 1
        n = f"_t{self.tmp[0]}"
        self.used.add(n)
        self.mine.add(n)
        return n

    def emit(self, s, d):
        self.out.append(at(s, d))

    def save(self, e, d):
        n = self.temp()
        self.emit(ast.Assign([ast.Name(n, ast.Store())], e), d)
        return ast.Name(n, ast.Load())

    def annotation(self, d):
        r = self.p.record_of(d)
        if r is not None:
            return ast.Name(r.name, ast.Load())
        m = None
        for t in types(d):
            m = m or re.match(r"(?:std::)?(?:unique_ptr|shared_ptr|optional)<([\w:]+)>?", t)
        if m:
            last = m.group(1).split("::")[-1]
            if last in self.p.records:
                return ast.Name(last, ast.Load())
        return None

    def default(self, d):
        """value of a default-initialised object"""
        if is_string(d):
            return ast.Constant("")
        if is_vector(d):
            return ast.List([], ast.Load())
        if is_set(d):
            return call("set", [])
        if is_map(d) or is_json(d):
            return ast.Dict([], [])
        if is_handle(d) or "*" in qt(d):
            return ast.Constant(None)
        r = self.p.record_of(d)
        if r is not None:
            return ast.Call(ast.Name(r.name, ast.Load()), [], [])
        t = types(d)
        if any(x in ("bool",) for x in t):
            return ast.Constant(False)
        if any(re.fullmatch(r"(unsigned |signed )?(int|long|short|char|long long|unsigned|size_t|ssize_t|uint\d+_t|int\d+_t|std::u?int\d+_t|std::size_t|time_t|off_t|CURLcode|double|float)( int)?", x) for x in t):
            return ast.Constant(0)
        return call("object", [ast.Constant(t[0] if t else "")])

    def block(self, n):
        """statements of n, on their own"""
        saved, self.out = self.out, []
        self.stmt(n)
        r, self.out = self.out, saved
        return r or [at(ast.Pass(), n or {})]

    def captured(self, n):
        """(statements, expression) of an expression that is evaluated conditionally"""
        saved, self.out = self.out, []
        e = self.expr(n)
        r, self.out = self.out, saved
        return r, e

    def init_fields(self, rec, ctor):
        """what a constructor does before its body"""
        given = {}
        delegated = None
        for x in kids(ctor) if ctor else []:
            if x["kind"] == "CXXCtorInitializer":
                m = x.get("anyInit")
                if m and m.get("name") and kids(x):
                    given[m["name"]] = kids(x)[-1]
                elif x.get("delegatingInit") and kids(x):
                    delegated = kids(x)[-1]
        if delegated is not None:
            c = strip(delegated)
            args = self.args(kids(c))
            i = self.ctor_index(rec, c, len(args))
            cls = rec.name if i == 1 else f"{rec.name}__{i}"
            self.emit(ast.Expr(ast.Call(ast.Attribute(ast.Name(cls, ast.Load()), "__init__", ast.Load()), [ast.Name("self", ast.Load())] + args, [])), ctor)
            return
        for n, fu, x in rec.fields:
            src = given.get(n)
            if src is not None and src["kind"] == "CXXDefaultInitExpr":
                src = None
            if src is None:
                src = next((y for y in kids(x) if y["kind"].endswith(("Expr", "Literal", "Operator"))), None)
            if src is not None and src.get("kind") == "ImplicitValueInitExpr":
                src = None
            v = self.expr(src) if src is not None else self.default(x)
            self.emit(ast.Assign([ast.Attribute(ast.Name("self", ast.Load()), n, ast.Store())], v), src or x)

    # ------------------------------------------------------------------ statements
    def stmt(self, n):
        if not n:
            return
        k = n["kind"]
        f = getattr(self, "s_" + k, None)
        if f:
            f(n)
        elif k.endswith(("Expr", "Operator", "Literal", "Cleanups")):
            e = self.expr(n)
            if any(isinstance(x, ast.Call) for x in ast.walk(e)):
                self.emit(ast.Expr(e), n)
        elif k in ("NullStmt", "GCCAsmStmt", "MSAsmStmt"):
            pass
        elif k == "AttributedStmt":
            for x in kids(n):
                if not x["kind"].endswith("Attr"):
                    self.stmt(x)
        else:
            raise Untranslatable(k)

    def s_CompoundStmt(self, n):
        for x in kids(n):
            self.stmt(x)

    def s_DeclStmt(self, n):
        for d in kids(n):
            if d["kind"] == "VarDecl":
                self.var(d)
            elif d["kind"] == "DecompositionDecl":
                init = next((x for x in kids(d) if x["kind"] != "BindingDecl"), None)
                e = self.expr(init)
                names = [ast.Name(self.declare(b), ast.Store()) for b in kids(d) if b["kind"] == "BindingDecl"]
                self.emit(ast.Assign([ast.Tuple(names, ast.Store())], e), d)
                for b in kids(d):
                    if b["kind"] == "BindingDecl":
                        for x in kids(b):
                            y = strip(x)
                            if y.get("kind") == "DeclRefExpr":
                                self.names[y["referencedDecl"]["id"]] = self.names[b["id"]]

    def var(self, d):
        init = next((x for x in kids(d) if not x["kind"].endswith("Attr")), None)
        if init is not None and strip(init).get("kind") == "LambdaExpr":
            name = self.declare(d)
            self.function(strip(init), name)
            return
        if init is not None and reference(d) and self.p.record_of(d) is None:
            place = self.place(init)
            if place is not None:
                self.alias[d["id"]] = place
                return
        e = self.expr(init) if init is not None else self.default(d)
        name = self.declare(d)
        self.emit(ast.Assign([ast.Name(name, ast.Store())], e), d)
        if init is not None and reference(d):
            self.bound.add(name)

    def place(self, n):
        """the variable or member a reference is made of, if it stays the same one"""
        x = strip(n)
        while x["kind"] == "MemberExpr" or (x["kind"] == "CXXOperatorCallExpr" and self.opname(x) == "[]" and strip(kids(x)[-1])["kind"] in ("StringLiteral", "IntegerLiteral")
                                            and is_json(kids(x)[1])):
            k = kids(x)
            if not k:
                return None
            x = strip(k[0] if x["kind"] == "MemberExpr" else k[1])
            if x["kind"] == "CXXOperatorCallExpr" and self.opname(x) == "->":
                x = strip(kids(x)[1])
        if x["kind"] == "DeclRefExpr":
            if "*" in qt(x) or any("iterator" in t for t in types(x)) or x["referencedDecl"]["id"] not in self.names and x["referencedDecl"]["id"] not in self.alias:
                return None
        elif x["kind"] != "CXXThisExpr":
            return None
        before = len(self.out)
        e = self.lvalue(n)
        if len(self.out) > before or not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            del self.out[before:]
            return None
        return e

    def function(self, n, name):
        """a lambda, as a local function"""
        rec = next(x for x in kids(n) if x["kind"] == "CXXRecordDecl")
        op = None
        for x in kids(rec):
            if x["kind"] == "CXXMethodDecl" and x.get("name") == "operator()":
                op = x
            elif x["kind"] == "FunctionTemplateDecl":
                for y in kids(x):
                    if y["kind"] == "CXXMethodDecl" and y.get("name") == "operator()" and op is None:
                        op = y
        # captured copies with an initialiser ([x = f()]) are variables of the enclosing function
        ps = [x for x in kids(op) if x["kind"] == "ParmVarDecl"]
        pos = ()
        while True:
            t = Fn(self.p, self.u, self.rec, self)
            params = [ast.arg(t.declare(x, x.get("name") or "_arg"), t.annotation(x)) for x in ps]
            t.gives = [params[i].arg for i in pos]
            t.stmt(body(n) or body(op))
            if t.gives:
                t.give(n)
            now = tuple(i for i, x in enumerate(ps) if reference(x) and params[i].arg in t.wrote)
            if set(now) <= set(pos):
                break
            pos = now
        self.lambdas[name] = pos
        outer = sorted(x for x in t.wrote if x not in t.mine)
        stmts = ([ast.Nonlocal(outer)] if outer else []) + (t.out or [ast.Pass()])
        self.wrote |= set(outer)
        self.emit(ast.FunctionDef(name, ast.arguments([], params, None, [], [], None, []), stmts, [], None, type_params=[]), n)

    def s_IfStmt(self, n):
        x = kids(n)
        if n.get("isConstexpr") or n.get("isConsteval"):
            pass
        if n.get("hasInit"):
            self.stmt(x.pop(0))
        if n.get("hasVar"):
            self.stmt(x.pop(0))
        c = self.expr(x[0])
        a = self.block(x[1])
        b = self.block(x[2]) if len(x) > 2 else []
        self.emit(ast.If(c, a, b), n)

    def s_WhileStmt(self, n):
        x = kids(n)
        pre, inc = [], self.inc
        saved, self.out = self.out, []
        if n.get("hasVar"):
            self.stmt(x.pop(0))
        c = self.expr(x[0])
        pre, self.out = self.out, saved
        self.inc = []
        b = self.block(x[1])
        self.inc = inc
        self.loop(pre, c, b, n)

    def loop(self, pre, c, b, n):
        if pre:
            self.emit(ast.While(ast.Constant(True), pre + [at(ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], []), n)] + b, []), n)
        else:
            self.emit(ast.While(c, b, []), n)

    def s_DoStmt(self, n):
        b, c = kids(n)[:2]
        k = strip(c)
        if k.get("kind") in ("IntegerLiteral", "CXXBoolLiteralExpr") and str(k.get("value")) in ("0", "False", "false"):
            if any(x["kind"] in ("BreakStmt", "ContinueStmt") for x in own(b)):
                raise Untranslatable("break in do once")
            self.stmt(b)
            return
        if any(x["kind"] == "ContinueStmt" for x in own(b)):
            raise Untranslatable("continue in do")
        inc, self.inc = self.inc, []
        body_ = self.block(b)
        saved, self.out = self.out, []
        e = self.expr(c)
        pre, self.out = self.out, saved
        self.inc = inc
        self.emit(ast.While(ast.Constant(True), body_ + pre + [at(ast.If(ast.UnaryOp(ast.Not(), e), [ast.Break()], []), n)], []), n)

    def s_ForStmt(self, n):
        x = n["inner"]
        init, var, cond, inc, b = (x + [None] * 5)[:5]
        if self.iterates(init, cond, inc, b, n):
            return
        if init:
            self.stmt(init)
        saved, self.out = self.out, []
        if var:
            self.stmt(var)
        c = self.expr(cond) if cond else ast.Constant(True)
        pre, self.out = self.out, saved
        before, self.inc = self.inc, [inc] if inc else []
        body_ = self.block(b)
        self.inc = before
        if inc:
            body_ += self.block(inc)
        self.loop(pre, c, body_, n)

    def iterates(self, init, cond, inc, b, n):
        """for (it = x.begin(); it != x.end(); ++it), with nothing done to the iterator but reading through it: a loop over x"""
        if not (init and cond and inc) or init.get("kind") != "DeclStmt" or len(kids(init)) != 1 or not kids(kids(init)[0]):
            return False
        var = kids(init)[0]

        def end(x, names):
            x = strip(x)
            while x["kind"] == "CXXConstructExpr" and len(kids(x)) == 1:
                x = strip(kids(x)[0])
            if x["kind"] == "CXXMemberCallExpr" and len(kids(x)) == 1 and strip(kids(x)[0]).get("name") in names:
                return kids(strip(kids(x)[0]))[0]
            return None

        def is_it(x):
            x = strip(x)
            return x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == var["id"]
        base = end(kids(var)[-1], ("begin", "cbegin"))
        if base is None or not any("iterator" in t for t in types(var)):
            return False
        c = strip(cond)
        while c["kind"] == "UnaryOperator" and c["opcode"] == "!":
            c = strip(kids(c)[0])
        if c["kind"] != "CXXOperatorCallExpr" or self.opname(c) not in ("!=", "=="):
            return False
        l, r = kids(c)[1:3]
        other = end(r, ("end", "cend"))
        i = strip(inc)
        if other is None or not is_it(l) or i["kind"] != "CXXOperatorCallExpr" or self.opname(i) != "++" or not is_it(kids(i)[1]):
            return False
        e1, e2 = self.captured(base), self.captured(other)
        if e1[0] or e2[0] or ast.unparse(e1[1]) != ast.unparse(e2[1]):
            return False

        def uses(x):
            """every use of the iterator reads what it points at"""
            if x.get("kind") == "CXXOperatorCallExpr" and self.opname(x) in ("*", "->") and len(kids(x)) == 2 and is_it(kids(x)[1]):
                return True
            if x.get("kind") == "DeclRefExpr":
                return x["referencedDecl"]["id"] != var["id"]
            return all(uses(y) for y in kids(x))
        if not uses(b):
            return False
        it = e1[1]
        if is_map(base) or is_map(strip(base)):
            it = ast.Call(ast.Attribute(it, "items", ast.Load()), [], [])
        target = ast.Name(self.declare(var), ast.Store())
        self.bound.add(target.id)
        before, self.inc = self.inc, []
        body_ = self.block(b)
        self.inc = before
        if not self.selects(target, it, body_, n):
            self.emit(ast.For(target, it, body_, []), n)
        return True

    def s_CXXForRangeStmt(self, n):
        x = n["inner"]
        if x[0]:
            self.stmt(x[0])
        rng = next(y for y in kids(x[1]) if y["kind"] == "VarDecl")
        src = kids(rng)[-1]
        it = self.expr(src)
        var = kids(x[-2])[0]
        pairs = is_map(strip(src)) or is_map(rng)
        if pairs:
            it = ast.Call(ast.Attribute(it, "items", ast.Load()), [], [])
        if var["kind"] == "DecompositionDecl":
            names = []
            for b in kids(var):
                if b["kind"] == "BindingDecl":
                    nm = self.declare(b)
                    names.append(ast.Name(nm, ast.Store()))
                    for y in kids(b):
                        z = strip(y)
                        if z.get("kind") == "DeclRefExpr":
                            self.names[z["referencedDecl"]["id"]] = nm
            target = ast.Tuple(names, ast.Store())
        else:
            target = ast.Name(self.declare(var), ast.Store())
        if reference(var):
            self.bound |= {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        inc, self.inc = self.inc, []
        b = self.block(x[-1])
        self.inc = inc
        if self.selects(target, it, b, n):
            return
        self.emit(ast.For(target, it, b, []), n)

    def selects(self, target, it, b, n):
        """a loop that appends the elements passing a test to a list, written as one selection"""
        if not isinstance(target, ast.Name):
            return False
        v, tests, rest = target.id, [], [x for x in b if not isinstance(x, ast.Pass)]
        while rest:
            x = rest[0]
            if len(rest) > 1 and isinstance(x, ast.If) and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) and not x.orelse:
                tests.append(x.test)
                rest = rest[1:]
            elif len(rest) == 1 and isinstance(x, ast.If) and (not x.orelse or all(isinstance(y, (ast.Pass, ast.Continue)) for y in x.orelse)):
                tests.append(ast.UnaryOp(ast.Not(), x.test))
                rest = [y for y in x.body if not isinstance(y, ast.Pass)]
            else:
                break
        if len(rest) != 1 or not tests:
            return False
        x = rest[0].value if isinstance(rest[0], ast.Expr) else None
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and x.args[0].id == v):
            return False
        into = x.func.value
        root = into
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id == v or any(ast.unparse(y) == ast.unparse(into) for t in tests + [it] for y in ast.walk(t) if isinstance(y, ast.expr)):
            return False
        f = self.temp()
        self.emit(ast.FunctionDef(f, ast.arguments([], [ast.arg(v)], None, [], [], None, []), [ast.Return(tests[0] if len(tests) == 1 else ast.BoolOp(ast.Or(), tests))], [], None, type_params=[]), n)
        self.extend(into, call("without_if", [it, ast.Name(f, ast.Load())]), n)
        return True

    def extend(self, into, more, n):
        """a whole list is appended to another; a member holds a new list afterwards"""
        if isinstance(into, ast.Attribute):
            t = load(into)
            t.ctx = ast.Store()
            self.emit(ast.Assign([t], call("extended", [load(into), more])), n)
        else:
            self.emit(ast.Expr(ast.Call(ast.Attribute(load(into), "extend", ast.Load()), [more], [])), n)

    def s_ReturnStmt(self, n):
        k = kids(n)
        e = self.expr(k[0]) if k else None
        self.emit(ast.Return(self.handed(e) if self.gives else e), n)

    def s_BreakStmt(self, n):
        self.emit(ast.Break(), n)

    def s_ContinueStmt(self, n):
        for i in self.inc:
            self.stmt(i)
        self.emit(ast.Continue(), n)

    def s_CXXTryStmt(self, n):
        x = kids(n)
        b = self.block(x[0])
        handlers = []
        for c in x[1:]:
            inner = kids(c)
            v = inner[0] if inner and inner[0]["kind"] == "VarDecl" else None
            t = exc_name(v["type"].get("qualType", ""), self.p) if v else "Exception"
            if v and t.startswith("Exception_"):
                t2 = exc_name(v["type"].get("desugaredQualType", ""), self.p)
                t = t if t2.startswith("Exception_") else t2
            name = self.declare(v) if v and v.get("name") else None
            handlers.append(at(ast.ExceptHandler(ast.Name(t, ast.Load()), name, self.block(inner[-1])), c))
        self.emit(ast.Try(b, handlers, [], []), n)

    def s_SwitchStmt(self, n):
        x = kids(n)
        if n.get("hasInit"):
            self.stmt(x.pop(0))
        if n.get("hasVar"):
            self.stmt(x.pop(0))
        v = self.save(self.expr(x[0]), n)
        groups, cur = [], None
        for s in kids(x[1]):
            labels = []
            while s["kind"] in ("CaseStmt", "DefaultStmt"):
                y = kids(s)
                labels.append(y[0] if s["kind"] == "CaseStmt" else None)
                s = y[-1]
            if labels:
                cur = (labels, [])
                groups.append(cur)
            if cur is None:
                raise Untranslatable("switch")
            cur[1].append(s)
        chain = []
        other = []
        for i, (labels, body_) in enumerate(groups):
            last = body_[-1]
            while last["kind"] == "CompoundStmt" and kids(last):
                last = kids(last)[-1]
            if last["kind"] not in ("BreakStmt", "ReturnStmt", "ContinueStmt") and "Throw" not in strip(last)["kind"] and i + 1 < len(groups):
                raise Untranslatable("switch falls through")
            brk = sum(1 for s in body_ for z in [s] + list(own(s)) if z["kind"] == "BreakStmt")
            if brk > (1 if last["kind"] == "BreakStmt" else 0):
                raise Untranslatable("switch with inner break")
            saved, self.out = self.out, []
            for s in body_:
                self.stmt(s)
            b, self.out = self.out, saved
            if b and isinstance(b[-1], ast.Break):
                b = b[:-1]
            b = b or [at(ast.Pass(), n)]
            if None in labels:
                other = b
            else:
                tests = [ast.Compare(load(v), [ast.Eq()], [self.expr(l)]) for l in labels]
                chain.append((tests[0] if len(tests) == 1 else ast.BoolOp(ast.Or(), tests), b))
        for t, b in reversed(chain):
            other = [at(ast.If(t, b, other), n)]
        self.out += other

    # ------------------------------------------------------------------ expressions
    def args(self, ns):
        """arguments, evaluated in order"""
        out = []
        ns = [x for x in ns if x and x["kind"] != "CXXDefaultArgExpr"]
        for x in ns:
            before = len(self.out)
            e = self.expr(x)
            if any(not isinstance(o, ast.FunctionDef) for o in self.out[before:]):
                moved = self.out[before:]
                del self.out[before:]
                out = [o if isinstance(o, (ast.Name, ast.Constant)) else self.save(o, x) for o in out]
                self.out += moved
            out.append(e)
        return out

    def expr(self, n):
        k = n["kind"]
        if k == "ImplicitCastExpr":
            ck = n.get("castKind")
            if ck in ("PointerToBoolean",):
                e = self.expr(kids(n)[0])
                return at(ast.Compare(e, [ast.IsNot()], [ast.Constant(None)]), n)
        if k in WRAP and kids(n):
            return self.expr(kids(n)[0])
        f = getattr(self, "e_" + k, None)
        if f is None:
            return at(call("unknown", [ast.Constant(k)]), n)
        return at(f(n), n)

    def e_IntegerLiteral(self, n):
        return ast.Constant(int(n["value"]))

    def e_FloatingLiteral(self, n):
        return ast.Constant(float(n["value"]))

    def e_CXXBoolLiteralExpr(self, n):
        return ast.Constant(bool(n["value"]))

    def e_CharacterLiteral(self, n):
        return ast.Constant(chr(n["value"]))

    def e_StringLiteral(self, n):
        try:
            return ast.Constant(ast.literal_eval(re.sub(r'^(u8|[LuU])', "", n["value"])))
        except (SyntaxError, ValueError):
            return ast.Constant(n["value"])

    def e_CXXNullPtrLiteralExpr(self, n):
        return ast.Constant(None)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n):
        return self.default(n)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultInitExpr(self, n):
        return self.default(n)

    def e_CXXThisExpr(self, n):
        return ast.Name("self", ast.Load())

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return call("sizeof", self.args(kids(n)) or [ast.Constant(clean((n.get("argType") or {}).get("qualType", "")))])

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        i, name = d["id"], d.get("name", "")
        if i in self.alias:
            return load(self.alias[i])
        if i in self.names:
            return ast.Name(self.names[i], ast.Load())
        if i in self.u.fn:
            return ast.Name(self.u.fn[i], ast.Load())
        if i in self.u.glob:
            return ast.Name(self.u.glob[i], ast.Load())
        if name == "nullopt":
            return ast.Constant(None)
        if i in self.u.meth:
            c, m = self.u.meth[i]
            return ast.Attribute(ast.Name(c, ast.Load()), m, ast.Load())
        return ast.Attribute(ast.Name("cxx", ast.Load()), re.sub(r"\W", "_", name) or "unnamed", ast.Load())

    def e_MemberExpr(self, n):
        b = kids(n)
        if not b:
            return ast.Name(n.get("name", "_"), ast.Load())
        e = self.expr(b[0])
        if n.get("name") in ("first", "second") and (has(strip(b[0]), "std::pair", "pair<") or any("pair<" in t for t in types(b[0]))):
            return ast.Subscript(e, ast.Constant(0 if n["name"] == "first" else 1), ast.Load())
        return ast.Attribute(e, n.get("name") or "_", ast.Load())

    def e_ArraySubscriptExpr(self, n):
        a, b = self.args(kids(n))
        return ast.Subscript(a, b, ast.Load())

    def e_ConditionalOperator(self, n):
        c, a, b = kids(n)
        ce = self.expr(c)
        pa, ea = self.captured(a)
        pb, eb = self.captured(b)
        if not pa and not pb:
            return ast.IfExp(ce, ea, eb)
        t = self.temp()
        self.emit(ast.If(ce, pa + [at(ast.Assign([ast.Name(t, ast.Store())], ea), a)], pb + [at(ast.Assign([ast.Name(t, ast.Store())], eb), b)]), n)
        return ast.Name(t, ast.Load())

    def e_BinaryConditionalOperator(self, n):
        x = kids(n)
        v = self.save(self.expr(x[0]), n)
        p, e = self.captured(x[-1])
        self.out += p
        return ast.IfExp(v, load(v), e)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = kids(n)
        if op == "=":
            return self.assign(a, b, n)
        if op in ("&&", "||"):
            ea = self.expr(a)
            pb, eb = self.captured(b)
            if not pb:
                return ast.BoolOp(ast.And() if op == "&&" else ast.Or(), [ea, eb])
            t = self.temp()
            self.emit(ast.Assign([ast.Name(t, ast.Store())], ea), n)
            cond = ast.Name(t, ast.Load())
            self.emit(ast.If(cond if op == "&&" else ast.UnaryOp(ast.Not(), cond), pb + [at(ast.Assign([ast.Name(t, ast.Store())], eb), n)], []), n)
            return ast.Name(t, ast.Load())
        if op == ",":
            e = self.expr(a)
            if not isinstance(e, (ast.Name, ast.Constant)):
                self.emit(ast.Expr(e), a)
            return self.expr(b)
        return self.binary(op, *self.args([a, b]))

    def binary(self, op, a, b):
        if op in CMP:
            if isinstance(b, ast.Constant) and b.value is None and op in ("==", "!="):
                return ast.Compare(a, [ast.Is() if op == "==" else ast.IsNot()], [b])
            return ast.Compare(a, [CMP[op]()], [b])
        if op in BIN:
            return ast.BinOp(a, BIN[op](), b)
        return call("op", [ast.Constant(op), a, b])

    def e_CompoundAssignOperator(self, n):
        return self.augment(kids(n)[0], n["opcode"][:-1], self.expr(kids(n)[1]), n)

    def augment(self, target, op, value, n):
        t = self.target(target)
        if op not in BIN:
            raise Untranslatable(op)
        self.emit(ast.AugAssign(t, BIN[op](), value), n)
        return load(t)

    def e_UnaryOperator(self, n):
        op, a = n["opcode"], kids(n)[0]
        if op == "!":
            return ast.UnaryOp(ast.Not(), self.expr(a))
        if op == "-":
            e = self.expr(a)
            if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
                return ast.Constant(-e.value)
            return ast.UnaryOp(ast.USub(), e)
        if op == "~":
            return ast.UnaryOp(ast.Invert(), self.expr(a))
        if op in ("*", "&", "+", "__extension__"):
            return self.expr(a)
        if op in ("++", "--"):
            t = self.target(a)
            old = self.save(load(t), n) if n.get("isPostfix") else None
            self.emit(ast.AugAssign(t, ast.Add() if op == "++" else ast.Sub(), ast.Constant(1)), n)
            return old or load(t)
        return call("op", [ast.Constant(op), self.expr(a)])

    def target(self, n):
        n = strip(n)
        if n["kind"] == "UnaryOperator" and n["opcode"] == "*":
            raise Untranslatable("write through a pointer")
        if n["kind"] == "CXXOperatorCallExpr" and self.opname(n) == "*":
            raise Untranslatable("write through an iterator")
        e = self.lvalue(n)
        if not isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) or (isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "cxx"):
            raise Untranslatable("assignment target")
        e = ast.parse(ast.unparse(e), mode="eval").body
        e.ctx = ast.Store()
        if isinstance(e, ast.Name):
            if e.id in self.bound:
                raise Untranslatable("write through a reference")
            self.wrote.add(e.id)
        return e

    def lvalue(self, n):
        """a place to write to; nested members of JSON documents become one place named by the path"""
        n = strip(n)
        if n["kind"] == "CXXOperatorCallExpr" and self.opname(n) == "[]" and is_json(kids(n)[1]):
            path, x = [], n
            while x["kind"] == "CXXOperatorCallExpr" and self.opname(x) == "[]":
                path.insert(0, self.expr(kids(x)[2]))
                x = strip(kids(x)[1])
            root = self.expr(x)
            while isinstance(root, ast.Subscript) and isinstance(root.slice, ast.Constant) and isinstance(root.slice.value, str):
                path.insert(0, root.slice)
                root = root.value
            if len(path) > 1 and all(isinstance(p, ast.Constant) and isinstance(p.value, str) for p in path):
                return ast.Subscript(root, ast.Constant(".".join(p.value for p in path)), ast.Load())
            for p in path:
                root = ast.Subscript(root, p, ast.Load())
            return root
        return self.expr(n)

    def assign(self, a, b, n):
        v = self.expr(b)
        t = self.target(a)
        if is_string(a) and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "substr" and len(v.args) == 1 and ast.unparse(v.func.value) == ast.unparse(t):
            v = call("string_erase", [load(t), ast.Constant(0), v.args[0]])      # x = x.substr(k)
        self.emit(ast.Assign([t], v), n)
        return load(t)

    def e_LambdaExpr(self, n):
        name = self.temp()
        self.function(n, name)
        return ast.Name(name, ast.Load())

    def e_CXXThrowExpr(self, n):
        k = kids(n)
        self.emit(ast.Raise(self.expr(k[0]) if k else None, None), n)
        return ast.Constant(None)

    def e_CXXNewExpr(self, n):
        k = [x for x in kids(n) if strip(x)["kind"] in ("CXXConstructExpr", "InitListExpr")]
        return self.expr(k[-1]) if k else call("new", [])

    def e_CXXDeleteExpr(self, n):
        return call("delete", self.args(kids(n)))

    def e_StmtExpr(self, n):
        self.stmt(kids(n)[0])
        return ast.Constant(None)

    def e_InitListExpr(self, n):
        items = kids(n)
        if is_json(n) or any("json_ref" in t or "basic_json" in t for t in types(n)):
            return self.json_list(n)
        r = self.p.record_of(n)
        if r is not None and r.fields and not [c for c in r.ctors if c[2]]:
            vals = []
            for i, (fn, fu, fx) in enumerate(r.fields):
                x = items[i] if i < len(items) else None
                if x is None or x["kind"] in ("CXXDefaultInitExpr", "ImplicitValueInitExpr"):
                    src = next((y for y in kids(fx) if y["kind"].endswith(("Expr", "Literal", "Operator"))), None)
                    vals.append(self.expr(src) if src is not None else self.default(fx))
                else:
                    vals += self.args([x])
            return ast.Call(ast.Name(f"{r.name}__agg", ast.Load()), vals, [])
        if is_handle(n) or (len(items) == 1 and not is_vector(n) and "[" not in qt(n) and not has(n, "std::initializer_list", "initializer_list")):
            return self.args(items)[0] if items else ast.Constant(None)
        if is_vector(n) or "[" in qt(n) or has(n, "std::initializer_list", "initializer_list"):
            return ast.List(self.args(items), ast.Load())
        if not items:
            return self.default(n)
        def trivial(x):
            return x["kind"] == "ImplicitValueInitExpr" or (x["kind"] == "InitListExpr" and all(trivial(y) for y in kids(x)))
        if all(trivial(x) for x in items):
            return call("object", [ast.Constant(types(n)[0])])
        return call("object", [ast.Constant(types(n)[0])] + self.args(items))

    def json_list(self, n):
        """the value a braced list stands for in the JSON library: pairs that start with a text are an object, anything else is an array"""
        n = self.braces(n)
        items = [self.braces(x) for x in kids(n)]
        pairs = items and all(x.get("kind") == "InitListExpr" and len(kids(x)) == 2 and self.text(kids(x)[0]) for x in items)
        if pairs:
            return ast.Dict([self.expr(self.inside(kids(x)[0])) for x in items], [self.json_value(kids(x)[1]) for x in items])
        return ast.List([self.json_value(x) for x in items], ast.Load())

    def json_value(self, x):
        y = self.braces(x)
        if y.get("kind") == "InitListExpr":
            return at(self.json_list(y), x)
        return self.expr(self.inside(x))

    def braces(self, x):
        """the braced list an element was made from, else the element"""
        y = self.inside(x)
        return y

    def inside(self, x):
        while True:
            if x.get("kind") in WRAP and kids(x):
                x = kids(x)[0]
            elif x.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and any("json_ref" in t or "basic_json" in t or t == "json" for t in types(x)):
                a = [y for y in kids(x) if y["kind"] != "CXXDefaultArgExpr"]
                if len(a) != 1:
                    return x
                x = a[0]
            else:
                return x

    def text(self, x):
        x = self.inside(x)
        return x.get("kind") == "StringLiteral" or is_string(x)

    def ctor_index(self, r, n, argc):
        sig = (n.get("ctorType") or {}).get("qualType")
        ctors = [c for c in r.ctors if c[2] is not None]
        for i, c in enumerate(ctors, 1):
            if c[0] == sig:
                return i
        for i, c in enumerate(ctors, 1):
            if len([x for x in kids(c[2]) if x["kind"] == "ParmVarDecl"]) == argc:
                return i
        return 1

    def construct(self, r, args, n):
        i = self.ctor_index(r, n, len(args))
        return ast.Call(ast.Name(r.name if i == 1 else f"{r.name}__{i}", ast.Load()), args, [])

    def e_CXXConstructExpr(self, n):
        ns = [x for x in kids(n) if x["kind"] != "CXXDefaultArgExpr"]
        sig = (n.get("ctorType") or {}).get("qualType", "")
        if is_json(n) or any("json_ref" in t for t in types(n)):
            if not ns:
                return ast.Dict([], [])
            y = self.inside(n)
            if y.get("kind") == "InitListExpr":
                return self.json_list(y)
            if y is not n:
                return self.expr(y)
            return call("json", self.args(ns))
        r = self.p.record_of(n)
        if r is not None:
            args = self.args(ns)
            if len(args) == 1 and self.p.record_of(strip(ns[0])) is r and not any(c[0] == sig for c in r.ctors):
                return args[0]
            return self.construct(r, args, n)
        if is_string(n):
            args = self.args(ns)
            if len(args) in (2, 3) and is_string(strip(ns[0])) and not any(is_string(strip(x)) for x in ns[1:]):
                return ast.Call(ast.Attribute(args[0], "substr", ast.Load()), args[1:], [])     # a part of another text
            return ast.Constant("") if not args else args[0] if len(args) == 1 else call("string", args)
        if is_vector(n):
            args = self.args(ns)
            if not args:
                return ast.List([], ast.Load())
            if len(args) == 1:
                copy = is_vector(strip(ns[0])) and "&&" not in sig
                return ast.Call(ast.Name("list", ast.Load()), args, []) if copy else args[0]
            return call("vector", args)
        if is_handle(n):
            args = self.args(ns)
            return args[0] if args else ast.Constant(None)
        if is_map(n) and not ns:
            return ast.Dict([], [])
        if is_lambda(n) and len(ns) == 1:
            return self.expr(ns[0])
        e = exc_name(types(n)[0], self.p)
        args = self.args(ns)
        if not e.startswith("Exception_"):
            return ast.Call(ast.Name(e, ast.Load()), args, [])
        if len(args) == 1 and any(clean(t) == types(n)[0] for t in types(strip(ns[0]))):
            return args[0]
        if any("iterator" in t for t in types(n)) and len(args) == 1:
            return args[0]
        name = re.sub(r"<.*", "", types(n)[0]).split("::")[-1]
        if name in ("pair", "tuple") and len(args) > 1:
            return ast.Tuple(args, ast.Load())
        return call(re.sub(r"\W", "_", name) or "object", args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    e_CXXUnresolvedConstructExpr = e_CXXConstructExpr

    def opname(self, n):
        c = strip(kids(n)[0])
        name = (c.get("referencedDecl") or {}).get("name") or c.get("name") or ""
        return name[len("operator"):].strip() if name.startswith("operator") else name

    def e_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        x = kids(n)[1:]
        c = strip(kids(n)[0])
        did = (c.get("referencedDecl") or {}).get("id")
        if did in self.u.meth:
            cl, m = self.u.meth[did]
            a = self.args(x)
            return ast.Call(ast.Attribute(ast.Name(cl, ast.Load()), m, ast.Load()), a, [])
        if did in self.u.fn:
            return ast.Call(ast.Name(self.u.fn[did], ast.Load()), self.args(x), [])
        if op == "()":
            a = self.args(x)
            c = ast.Call(a[0], a[1:], [])
            if isinstance(a[0], ast.Name) and self.lambdas.get(a[0].id):
                return self.called(c, None, x[1:], n, self.lambdas[a[0].id])
            return c
        if op == "=":
            return self.assign(x[0], x[1], n)
        if op in ("<<", ">>") and (is_stream(n) or is_stream(strip(x[0]))):
            a = self.args(x)
            if op == ">>":
                self.havoc(x[1], call("read_from", [a[0]]), n)
                return a[0]
            if isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Attribute) and a[0].func.attr == "write_to":
                return call("write_to", a[0].args + a[1:])
            return call("write_to", a)
        if op == "[]":
            a, b = self.args(x)
            return ast.Subscript(a, b, ast.Load())
        if op in ("*", "->") and len(x) == 1:
            return self.expr(x[0])
        if op in ("+=", "-=", "|=", "&=", "^="):
            return self.augment(x[0], op[:-1], self.expr(x[1]), n)
        if op in ("++", "--"):
            t = self.target(x[0])
            self.emit(ast.AugAssign(t, ast.Add() if op == "++" else ast.Sub(), ast.Constant(1)), n)
            return load(t)
        if op == "!" and len(x) == 1:
            return ast.UnaryOp(ast.Not(), self.expr(x[0]))
        if len(x) == 2 and (op in CMP or op in BIN):
            a, b = self.args(x)
            if op in ("==", "!=") and self.past_end(x[1]):
                return ast.Compare(a, [ast.Is() if op == "==" else ast.IsNot()], [ast.Constant(None)])
            return self.binary(op, a, b)
        if op == "<=>":
            return call("compare", self.args(x))
        return call("op", [ast.Constant(op)] + self.args(x))

    def past_end(self, x):
        """end() of a JSON document: what find() gives when there is no such member"""
        x = strip(x)
        while x["kind"] == "CXXConstructExpr" and len(kids(x)) == 1:
            x = strip(kids(x)[0])
        if x["kind"] != "CXXMemberCallExpr" or strip(kids(x)[0]).get("name") not in ("end", "cend"):
            return False
        b = kids(strip(kids(x)[0]))[0]
        return is_json(b) or is_json(strip(b))

    def havoc(self, n, value, where):
        """the variable now holds something else"""
        try:
            t = self.target(n)
        except Untranslatable:
            return
        self.emit(ast.Assign([t], value), where)

    def outs(self, ns, ftype):
        """arguments a library function may write to: (argument, node of the variable)"""
        params = re.sub(r"^.*?\((?!\*)", "", ftype, 1)
        plist, depth, cur = [], 0, ""
        for ch in params:
            if ch in "<([":
                depth += 1
            elif ch in ">)]":
                depth -= 1
            if ch == "," and depth == 0:
                plist.append(cur.strip())
                cur = ""
            else:
                cur += ch
        plist.append(cur.strip())
        res = []
        for i, a in enumerate(ns):
            y = strip(a)
            if y["kind"] == "UnaryOperator" and y["opcode"] == "&":
                z = strip(kids(y)[0])
                pt = plist[i] if i < len(plist) else ""
                if z["kind"] in ("DeclRefExpr", "MemberExpr") and not pt.startswith("const "):
                    res.append(z)
            elif a["kind"] in ("DeclRefExpr", "MemberExpr") and i < len(plist) and plist[i].rstrip(" )").endswith("&") and not plist[i].startswith("const ") and "&&" not in plist[i] and not is_stream(a):
                res.append(a)
        return [z for z in res if not self.aggregate(z)]

    def aggregate(self, z):
        """things whose members are written, not the variable itself"""
        if self.p.record_of(z) is not None or is_vector(z) or is_map(z) or is_json(z) or is_stream(z):
            return True
        if is_string(z):
            return False
        return not any(re.fullmatch(r"(unsigned |signed )?(int|long|short|char|long long|unsigned|size_t|ssize_t|u?int\d+_t|std::u?int\d+_t|std::size_t|time_t|off_t|CURLcode|double|float|bool)( int)?", t) for t in types(z))

    def e_CallExpr(self, n):
        x = kids(n)
        c, ns = strip(x[0]), x[1:]
        name = (c.get("referencedDecl") or {}).get("name") or c.get("name") or ""
        did = (c.get("referencedDecl") or {}).get("id")
        ns = [a for a in ns if a["kind"] != "CXXDefaultArgExpr"]
        if did in self.u.fn:
            return self.called(ast.Call(ast.Name(self.u.fn[did], ast.Load()), self.args(ns), []), (None, self.u.fn[did]), ns, n)
        if did in self.u.meth:
            cl, m = self.u.meth[did]
            return self.called(ast.Call(ast.Attribute(ast.Name(cl, ast.Load()), m, ast.Load()), self.args(ns), []), (cl, m), ns, n)
        if did in self.names:
            return ast.Call(ast.Name(self.names[did], ast.Load()), self.args(ns), [])
        if name in ("move", "forward", "as_const", "ref", "cref", "move_if_noexcept", "addressof", "exchange__") and len(ns) == 1:
            return self.expr(ns[0])
        if name in ("make_unique", "make_shared", "make_optional"):
            for t in types(n):
                m = re.search(r"<\s*([\w:]+)", t)
                last = m.group(1).split("::")[-1] if m else None
                if last in self.p.records:
                    return self.construct(self.p.records[last], self.args(ns), {})
            return call(name, self.args(ns))
        if name in ("erase_if", "erase") and len(ns) == 2:
            v = call("without_if" if name == "erase_if" else "without", self.args(ns))
            self.havoc(ns[0], v, n)
            return ast.Constant(None)
        if name in ("make_pair", "make_tuple", "tie", "forward_as_tuple") and len(ns) > 1:
            return ast.Tuple(self.args(ns), ast.Load())
        if name == "to_string" and len(ns) == 1:
            return ast.Call(ast.Name("str", ast.Load()), self.args(ns), [])
        if name in ("min", "max") and len(ns) == 2:
            return ast.Call(ast.Name(name, ast.Load()), self.args(ns), [])
        if name == "swap" and len(ns) == 2:
            a, b = self.target(ns[0]), self.target(ns[1])
            t = self.save(load(a), n)
            self.emit(ast.Assign([a], load(b)), n)
            self.emit(ast.Assign([b], t), n)
            return ast.Constant(None)
        if name == "exchange" and len(ns) == 2:
            t = self.target(ns[0])
            old = self.save(load(t), n)
            self.emit(ast.Assign([t], self.expr(ns[1])), n)
            return old
        if name == "copy_if" and len(ns) == 4:
            a = self.args(ns)
            m = [re.fullmatch(p_, ast.unparse(y)) for p_, y in zip((r"cxx\.begin\((.*)\)", r"cxx\.end\((.*)\)", r"cxx\.back_inserter\((.*)\)"), a)]
            if all(m) and m[0].group(1) == m[1].group(1) and isinstance(a[3], ast.Name):
                f = self.temp()
                self.emit(ast.FunctionDef(f, ast.arguments([], [ast.arg("_x")], None, [], [], None, []),
                                          [ast.Return(ast.UnaryOp(ast.Not(), ast.Call(a[3], [ast.Name("_x", ast.Load())], [])))], [], None, type_params=[]), n)
                self.extend(a[2].args[0], call("without_if", [a[0].args[0], ast.Name(f, ast.Load())]), n)
                return ast.Constant(None)
            return call("copy_if", a)
        if name == "distance" and len(ns) == 2:
            return call("distance", self.args(ns))
        if name in ("size", "ssize") and len(ns) == 1:
            return ast.Call(ast.Name("len", ast.Load()), self.args(ns), [])
        if name == "empty" and len(ns) == 1:
            return ast.UnaryOp(ast.Not(), self.expr(ns[0]))
        if is_json(n) and name in ("array", "object"):
            if not ns:
                return ast.List([], ast.Load()) if name == "array" else ast.Dict([], [])
            y = self.inside(ns[0])
            if y.get("kind") == "InitListExpr":
                if name == "array":
                    return ast.List([self.json_value(z) for z in kids(y)], ast.Load())
                return self.json_list(y)
        outs = self.outs(ns, qt(c))
        e = call(re.sub(r"\W", "_", name) or "call", self.args(ns))
        if outs:
            r = self.save(e, n)
            for i, z in enumerate(outs):
                self.havoc(z, call("written", [load(r), ast.Constant(i), ast.Constant(z.get("name") or (z.get("referencedDecl") or {}).get("name") or "")]), n)
            return load(r)
        return e

    def e_CXXMemberCallExpr(self, n):
        x = kids(n)
        m, ns = strip(x[0]), [a for a in x[1:] if a["kind"] != "CXXDefaultArgExpr"]
        name = m.get("name") or ""
        base = kids(m)[0] if kids(m) else None
        mid = m.get("referencedMemberDecl")
        if mid in self.u.meth:
            cl, pm = self.u.meth[mid]
            a = self.args([base] + ns)
            return self.called(ast.Call(ast.Attribute(ast.Name(cl, ast.Load()), pm, ast.Load()), a, []), (cl, pm), ns, n)
        b = strip(base)
        seq = is_vector(base) or is_vector(b)
        string = is_string(base) or is_string(b)
        mapp = is_map(base) or is_map(b)
        js = is_json(base) or is_json(b)
        handle = is_handle(base) or is_handle(b)
        if name == "operator bool":
            e = self.expr(base)
            return ast.Compare(e, [ast.IsNot()], [ast.Constant(None)]) if handle else e
        if name.startswith("operator "):      # a conversion
            return self.expr(base)
        if handle:
            if name in ("get", "value", "operator*", "operator->"):
                return self.expr(base)
            if name == "has_value":
                return ast.Compare(self.expr(base), [ast.IsNot()], [ast.Constant(None)])
            if name == "reset":
                v = self.args(ns)
                self.havoc(base, v[0] if v else ast.Constant(None), n)
                return ast.Constant(None)
            if name == "emplace":
                return call("emplace", self.args([base] + ns))
            if name == "value_or":
                v = self.save(self.expr(base), n)
                return ast.IfExp(ast.Compare(v, [ast.IsNot()], [ast.Constant(None)]), load(v), self.args(ns)[0])
        if name in ("c_str", "data") and string:
            return self.expr(base)
        if name in ("str", "what") and not ns and not string:
            return ast.Call(ast.Attribute(self.expr(base), name, ast.Load()), [], [])
        if name in ("size", "length") and not js:
            return ast.Call(ast.Name("len", ast.Load()), [self.expr(base)], [])
        if name == "empty" and not js:
            return ast.UnaryOp(ast.Not(), self.expr(base))
        if name in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
            return call(name.replace("cb", "b").replace("ce", "e"), self.args([base]))
        if seq or js:
            if name in ("push_back", "emplace_back") and len(ns) == 1:
                if name == "emplace_back" and seq:
                    pass
                a = self.args([base] + ns)
                return ast.Call(ast.Attribute(a[0], "append", ast.Load()), a[1:], [])
            if name == "emplace_back" and seq and len(ns) in (2, 3) and is_string(strip(ns[0])) and any(re.match(r"(std::)?\w+<(std::)?(basic_)?string\b", t) for t in types(base)) \
                    and not any(is_string(strip(x)) or "iterator" in t for x in ns[1:] for t in types(strip(x))):
                a = self.args([base] + ns)      # made of a part of another text
                part = ast.Call(ast.Attribute(a[1], "substr", ast.Load()), a[2:], [])
                return ast.Call(ast.Attribute(a[0], "append", ast.Load()), [part], [])
            if name == "front":
                return ast.Subscript(self.expr(base), ast.Constant(0), ast.Load())
            if name == "back":
                return ast.Subscript(self.expr(base), ast.Constant(-1), ast.Load())
            if name == "pop_back":
                return ast.Call(ast.Attribute(self.expr(base), "pop", ast.Load()), [], [])
            if name == "pop_front":
                return ast.Call(ast.Attribute(self.expr(base), "pop", ast.Load()), [ast.Constant(0)], [])
        if seq and name == "erase" and len(ns) == 2:
            first, last = strip(ns[0]), strip(ns[1])
            while first["kind"] in ("CXXConstructExpr", "CXXMemberCallExpr") and len(kids(first)) == 1 and first["kind"] == "CXXConstructExpr":
                first = strip(kids(first)[0])
            if first["kind"] == "CallExpr" and ((strip(kids(first)[0]).get("referencedDecl") or {}).get("name")) in ("remove_if", "remove"):
                what = strip(kids(first)[0])["referencedDecl"]["name"]
                a = self.args([base] + kids(first)[1:] + [ns[1]])
                u = [ast.unparse(y) for y in a]
                if len(a) == 5 and u[1] == f"cxx.begin({u[0]})" and u[2] == u[4] == f"cxx.end({u[0]})":
                    self.havoc(base, call("without_if" if what == "remove_if" else "without", [a[0], a[3]]), n)
                    return ast.Constant(None)
                return ast.Call(ast.Attribute(a[0], "erase", ast.Load()), a[1:], [])
        if seq and name == "insert" and len(ns) == 3:
            # appending a whole range
            first, last = strip(ns[1]), strip(ns[2])
            a = self.args([base] + ns)
            if ast.unparse(a[1]) == f"cxx.end({ast.unparse(a[0])})" and isinstance(a[2], ast.Call) and isinstance(a[3], ast.Call):
                src = [x.args[0] if isinstance(x.func, ast.Attribute) and x.func.attr in ("begin", "make_move_iterator") else None for x in (a[2],)][0]
                while isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "begin":
                    src = src.args[0]
                end = a[3].args[0] if a[3].args else None
                while isinstance(end, ast.Call) and isinstance(end.func, ast.Attribute) and end.func.attr == "end":
                    end = end.args[0]
                if src is not None and end is not None and ast.unparse(src) == ast.unparse(end):
                    self.extend(a[0], src, n)
                    return ast.Constant(None)
            return ast.Call(ast.Attribute(a[0], "insert", ast.Load()), a[1:], [])
        if mapp or is_set(base) or is_set(b):
            if name in ("count", "contains"):
                a = self.args([base] + ns)
                return ast.Compare(a[1], [ast.In()], [a[0]])
            if mapp and name in ("emplace", "insert_or_assign", "try_emplace") and len(ns) == 2:
                a = self.args([base] + ns)
                self.emit(ast.Assign([ast.Subscript(a[0], a[1], ast.Store())], a[2]), n)
                return ast.Constant(None)
            if mapp and name == "at":
                a = self.args([base] + ns)
                return ast.Subscript(a[0], a[1], ast.Load())
            if mapp and name == "erase" and len(ns) == 1:
                a = self.args([base] + ns)
                return ast.Call(ast.Attribute(a[0], "pop", ast.Load()), [a[1], ast.Constant(None)], [])
        if js and name == "find" and len(ns) == 1:
            a = self.args([base] + ns)
            has_, at_ = (ast.Call(ast.Attribute(load(a[0]) if i else a[0], m_, ast.Load()), [a[1]], []) for i, m_ in enumerate(("contains", "at")))
            return ast.IfExp(has_, at_, ast.Constant(None))
        if js and name in ("get", "get_to", "value") or (js and name == "get_ref"):
            a = self.args([base] + ns)
            return ast.Call(ast.Attribute(a[0], "json_" + name, ast.Load()), a[1:] + [ast.Constant(json_type(types(n)))], [])
        if string and name in ("append", "erase", "clear", "push_back", "assign", "resize", "insert", "replace", "pop_back"):
            # text changes in place: the variable holds a new text
            a = self.args([base] + ns)
            if name == "clear":
                self.havoc(base, ast.Constant(""), n)
            else:
                self.havoc(base, call("string_" + name, a), n)
            return load(a[0]) if isinstance(a[0], (ast.Name, ast.Attribute)) else a[0]
        a = self.args([base] + ns)
        outs = self.outs(ns, qt(m) if "(" in qt(m) else "")
        e = ast.Call(ast.Attribute(a[0], name, ast.Load()), a[1:], [])
        if outs:
            r = self.save(e, n)
            for i, z in enumerate(outs):
                self.havoc(z, call("written", [load(r), ast.Constant(i), ast.Constant((z.get("referencedDecl") or {}).get("name") or "")]), n)
            return load(r)
        return e


def json_type(ts):
    for t in ts:
        m = re.search(r"get_impl<(.*)>\(", t)
        x = m.group(1).strip() if m else t
        if "basic_string" in x or x in ("std::string", "string"):
            return "string"
        if "decltype" not in x:
            return x
    return ts[0] if ts else ""


def own(n):
    """statements of a loop body or case, without those of loops inside it"""
    for x in kids(n):
        yield x
        if x["kind"] in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt", "LambdaExpr", "SwitchStmt"):
            continue
        yield from own(x)


class CxxProgram(Program):
    """the rewritten C++ project, as a program"""

    def __init__(self, repo, subdir, package):
        self.subdir, self.package = subdir, package
        super().__init__(repo)

    def _load(self):
        root = os.path.join(self.repo, self.subdir)
        self.project = Project(root)
        lib = Module()
        lib.name, lib.path, lib.is_pkg, lib.relpath = f"{self.package}.library", root, False, self.subdir
        names = set()
        for u, body_ in self.project.modules.values():
            for s in body_:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and x.id.startswith("Exception_"):
                        names.add(x.id)
        lib.tree = ast.parse(LIBRARY + "".join(f"class {n}(Exception): pass\n" for n in sorted(names)))
        lib.names = {}
        self.modules[lib.name] = lib
        for stem, (u, body_) in self.project.modules.items():
            m = Module()
            m.name, m.path, m.is_pkg = f"{self.package}.{stem}", u.path, False
            m.relpath = os.path.relpath(u.path, self.repo)
            m.tree = ast.Module([at(ast.Import([ast.alias("cxx")]), {})] + body_, [])
            ast.fix_missing_locations(m.tree)
            m.names = {}
            self.modules[m.name] = m
        self._link(shared=True)
