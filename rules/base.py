"""Shared machinery of the rules: reporting, obligations, and the queries on paths that several rules need."""
import ast
import os
from collections import Counter

from engine.program import Program, Class, Func, AnalysisBroken  # noqa
from engine.interp import Interp, Budget, empty_state, substv  # noqa
from engine.values import *  # noqa
from engine.values import mentions, subterms

REPO = os.environ.get("VERIF_REPO", "/repo")


class Check:
    def __init__(self, pid, tier="quick", repo=None):
        self.pid, self.tier = pid, tier
        self.p = Program(repo or REPO)
        self.viol = []
        self._seen = set()
        self.ob = Counter()           # rule -> instances decided
        self.und = []                 # (rule, site, reason): instances left undecided
        self.functions = set()
        self.paths = 0
        self.samples = []
        self.rules = {}               # rule -> text
        self.minimum = {}             # rule -> confirmed minimum

    # -------------------------------------------------------------- reporting
    def rule(self, name, text, minimum=0):
        self.rules[name] = text
        self.minimum[name] = minimum

    def bad(self, rule, site, msg, st=None, exit_=None):
        key = (rule, site, msg)
        if key in self._seen:
            return
        self._seen.add(key)
        path = []
        if st is not None:
            path = [repr(e) for e in st.trace if e.kind not in ("pure", "read")][-60:]
        self.viol.append({"rule": rule, "site": site, "message": msg, "path": path, "exit": exit_})

    def ok(self, rule, n=1, sample=None):
        self.ob[rule] += n
        if sample and len(self.samples) < 25:
            self.samples.append(f"{rule}: {sample}")

    def undecided(self, rule, site, why):
        if (rule, site, why) not in self.und:
            self.und.append((rule, site, why))

    # -------------------------------------------------------------- paths
    def interp(self, **kw):
        kw.setdefault("max_paths", 20000)
        kw.setdefault("max_steps", 1500000 if self.tier == "quick" else 6000000)
        return Interp(self.p, **kw)

    def run(self, it, func, rule, **kw):
        """all paths of func, [] (and an undecided entry) when the analysis gives up"""
        try:
            outs = it.run(func, **kw)
        except Budget as e:
            self.undecided(rule, func.qual, f"gave up: {e}")
            outs = []
        except AnalysisBroken:
            raise
        except Exception as e:  # a construct the interpreter can not follow: left undecided, never guessed
            if os.environ.get("VERIF_STRICT"):
                raise
            self.undecided(rule, func.qual, f"gave up: {type(e).__name__}: {e}")
            outs = []
        self.functions |= it.functions
        self.paths += len(outs)
        for u in it.unknown:
            self.undecided(rule, u[0], f"construct not modelled: {u[1]}")
        return outs

    # -------------------------------------------------------------- anchors
    def cls(self, name):
        return self.p.cls(name)

    def meth(self, cname, mname):
        return self.p.method(cname, mname)

    def find(self, c, mname):
        """method of a class through its bases, by public name"""
        m = self.p.find_method(c, mname)
        if m is None:
            raise AnalysisBroken(f"{c.qual}: no method {mname}")
        return m


# ------------------------------------------------------------------ queries on a path
def evs(st, *kinds):
    return [e for e in st.trace if e.kind in kinds]


def awaited(st, ev, _depth=0):
    """is the result of this call awaited on this path (directly, or through something that is)?"""
    if _depth > 4:
        return False
    for e in st.trace:
        if e.n <= ev.n:
            continue
        if e.kind == "await" and e.recv is not None and (e.recv == ev.res or mentions(e.recv, ev.res)):
            return True
        if e.kind in ("call", "opaque", "pure") and e.res is not None and e is not ev:
            if any(isinstance(a, tuple) and mentions(a, ev.res) for a in list(e.args) + list(e.kw.values())) and awaited(st, e, _depth + 1):
                return True
    return False


def spawned(st, ev):
    return any(e.kind == "spawn" and any(isinstance(a, tuple) and mentions(a, ev.res) for a in e.args) for e in st.trace)


def is_none_term(v):
    a, b = v, NONE
    return A("is", a, b)


def known_none(it, st, v):
    return it.truth(st, A("is", v, NONE))


def entry_fields(it, st, v):
    """fields of a model object built on this path -> {name: value} or None"""
    if v is not None and v[0] == "O":
        o = st.objs[v[1]]
        if o["kind"] == "inst":
            return {k[1]: x for k, x in st.heap.items() if k[0] == v}
    return None


def provenance(st, v, _depth=0, _seen=None):
    """every term v was computed from on this path, through results of calls and objects built here"""
    _seen = set() if _seen is None else _seen
    out = []
    todo = [v]
    while todo:
        x = todo.pop()
        if x is None:
            continue
        if not (isinstance(x, tuple) and x and isinstance(x[0], str)):
            continue
        for t in subterms(x):
            if t in _seen:
                continue
            _seen.add(t)
            out.append(t)
            if t[0] == "R" and isinstance(t[1], int) and t[1] < len(st.trace):
                e = st.trace[t[1]]
                if e.res == t:
                    todo += [a for a in e.args if isinstance(a, tuple)] + [a for a in e.kw.values() if isinstance(a, tuple)]
                    if e.recv:
                        todo.append(e.recv)
            if t in st.origins:
                todo += st.origins[t]
            elif t[0] == "O" and t[1] in st.objs:
                o = st.objs[t[1]]
                if o["kind"] == "inst":
                    todo += [val for (b, _), val in ((k, x2) for k, x2 in st.heap.items() if k[0] != "item") if b == t]
                elif o["kind"] in ("dict", "set"):
                    its = o["items"]
                    if isinstance(its, dict):
                        todo += list(its.keys()) + list(its.values())
                    else:
                        todo += list(its)
                    if o["rest"] is not None:
                        todo.append(o["rest"])
                elif o["kind"] == "list":
                    for s in o["seq"]:
                        todo += [y for y in s[1:] if isinstance(y, tuple)]
            elif t[0] == "E":
                pass
    return _seen


def comes_from(st, v, t):
    return t in provenance(st, v)


def not_there(ev, it):
    """may_raise for the start of an application: a file that is not there, a process that is gone"""
    n = (ev.label or "").split(".")[-1]
    if ev.kind != "call":
        return ()
    return ("FileNotFoundError",) if n in ("open", "remove", "unlink", "read_text") else ("ProcessLookupError",) if n == "kill" else ()


def attr_chain(v):
    """names of an attribute chain, innermost last"""
    out = []
    while isinstance(v, tuple) and v and v[0] == "A" and v[1] == "attr":
        out.append(v[3])
        v = v[2]
    return list(reversed(out)), v


def last_attr(v):
    c, _ = attr_chain(v)
    return c[-1] if c else None


# ------------------------------------------------------------------ piecewise linear summaries
class Unknown(Exception):
    pass


def point(v, env):
    """value of a term at one point of its variables (used to compare piecewise linear summaries at their corners)"""
    if v in env:
        return env[v]
    t = v[0]
    if t == "K":
        return v[2]
    if t == "L":
        return v[1] + sum(k * num(point(x, env)) for x, k in v[2])
    if t == "A":
        op, a = v[1], v[2:]
        if op in ("and", "or"):
            r = None
            for x in a:
                r = point(x, env)
                if bool(r) == (op == "or"):
                    return r
            return r
        xs = [point(x, env) for x in a if isinstance(x, tuple)]
        try:
            if op == "eq":
                return xs[0] == xs[1]
            if op == "ne":
                return xs[0] != xs[1]
            if op == "is":
                return xs[0] is xs[1] or (xs[0] == xs[1] and type(xs[0]) is type(xs[1]))
            if op in ("lt", "le", "gt", "ge"):
                a, b = num(xs[0]), num(xs[1])
                return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
            if op == "not":
                return not xs[0]
            if op == "bool":
                return bool(xs[0])
            if op in ("floordiv", "mod") and all(isinstance(x, int) and x >= 0 for x in xs) and xs[1]:
                return xs[0] // xs[1] if op == "floordiv" else xs[0] % xs[1]
            if op in ("max", "min", "abs", "int"):
                return {"max": max, "min": min, "abs": abs, "int": int}[op](*xs)
        except (TypeError, IndexError):
            pass
    raise Unknown(show(v))


STRING_OPS = ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace", "split", "rsplit", "partition", "rpartition",
              "removeprefix", "removesuffix", "startswith", "endswith", "join", "ljust", "rjust", "center", "zfill", "isalnum", "isdigit", "translate")


class OutOfRange(Unknown):
    """the term asks for a part that is not there"""


INT_OPS = {"bitand": lambda a, b: a & b, "bitor": lambda a, b: a | b, "bitxor": lambda a, b: a ^ b, "mod": lambda a, b: a % b if b else num(None),
           "floordiv": lambda a, b: a // b if b else num(None), "rshift": lambda a, b: a >> b, "mult": lambda a, b: a * b}


def folded(v, env):
    """value of a term made of string operations when its variables have the given values (constant folding); Unknown otherwise"""
    if v in env:
        return env[v]
    if v[0] == "K":
        return v[2]
    if v[0] == "T":
        return tuple(folded(x, env) for x in v[1:])
    if v[0] == "L":
        return v[1] + sum(k * num(folded(x, env)) for x, k in v[2])
    if v[0] == "A":
        op = str(v[1]).split(".")[-1]
        xs = [folded(x, env) if isinstance(x, tuple) else x for x in v[2:]]
        try:
            if op == "concat":
                return "".join(str(x) for x in xs)
            if op in ("str", "len", "tuple", "list", "reversed", "sorted", "repr", "int", "hash") and op != "hash" and len(xs) == 1:
                r = {"str": str, "len": len, "tuple": tuple, "list": list, "reversed": lambda x: tuple(reversed(x)), "sorted": sorted, "repr": repr, "int": int}[op](xs[0])
                return r
            if op in ("item", "idx", "index", "getitem") and len(xs) == 2 and isinstance(xs[1], int):
                return xs[0][xs[1]]
            if op == "slice" and len(xs) == 4:
                return xs[0][slice(*xs[1:])]
            if op in STRING_OPS and isinstance(xs[0], str):
                return getattr(xs[0], op)(*xs[1:])
            if op in ("basename", "dirname") and len(xs) == 1:
                return getattr(os.path, op)(xs[0])
            if op in ("eq", "ne", "in") and len(xs) == 2:
                return {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "in": lambda a, b: a in b}[op](*xs)
            if op in INT_OPS and len(xs) == 2 and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 2 ** 40 for x in xs):
                return INT_OPS[op](*xs)
            if op in ("lt", "le", "gt", "ge") and len(xs) == 2 and type(xs[0]) is type(xs[1]):
                return {"lt": xs[0] < xs[1], "le": xs[0] <= xs[1], "gt": xs[0] > xs[1], "ge": xs[0] >= xs[1]}[op]
            if op in ("min", "max") and len(xs) > 1 and all(isinstance(x, (int, float)) for x in xs):
                return min(xs) if op == "min" else max(xs)
        except IndexError:
            raise OutOfRange(show(v))
        except (TypeError, ValueError, AttributeError):
            pass
    raise Unknown(show(v))


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise Unknown(repr(x))
    return x


def corners(terms, var, low, high):
    """integer points of a variable worth looking at: a range and the neighbourhood of every constant that occurs"""
    pts = set(range(low, high + 1))
    for t in terms:
        for x in subterms(t):
            if isinstance(x, tuple) and x[0] == "K" and x[1] == "int" and abs(x[2]) < 10 ** 6:
                pts |= {x[2] - 1, x[2], x[2] + 1}
            if isinstance(x, tuple) and x[0] == "L":
                pts |= {y for k in (x[1], -x[1]) for y in (k - 1, k, k + 1) if isinstance(k, int)}
    return sorted(pts)


def unset_fields(p, cls):
    """fields that methods of a class read of themselves and that nothing in the class or its bases ever sets -> [(method, name, line)]"""
    known, reads = set(), []
    for k in p.mro(cls):
        if not isinstance(k, Class):
            if str(getattr(k, "name", k)).split(".")[-1] not in ("object", "ABC", "Generic", "Protocol"):
                return []
            continue
        known |= set(k.methods) | set(k.attrs) | set(k.ann or ()) | set(k.inst_ann or ())
        if {"__getattr__", "__getattribute__", "__setattr__"} & set(k.methods):
            return []
        for n in ast.walk(k.node):
            if isinstance(n, ast.Name) and n.id in ("setattr", "vars", "locals") or isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return []
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                known.add(n.id)
        for fn in ast.walk(k.node):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            known.add(fn.name)
            if not fn.args.args or any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list):
                continue
            me = fn.args.args[0].arg
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        known.add(n.attr)
                    elif isinstance(n.ctx, ast.Load) and not (n.attr.startswith("__") and n.attr.endswith("__")):
                        reads.append((fn.name, n.attr, n.lineno))
    # a field may also be set from outside
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                known.add(n.attr)
    return [r for r in reads if r[1] not in known]
