"""C33: background work is never dropped."""
from rules.base import *
from rules.servers import tail

SPAWN = ("create_task", "ensure_future")
REMOVE = ("discard", "remove", "pop", "clear", "popleft")


def call_name(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None


def own_nodes(fn):
    """nodes of a function without those of nested functions"""
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def check_C33(c):
    RT, RR, RA, RC = "kept", "released", "arguments", "coroutine-run"
    c.rule(RT, "the task made at every create_task/ensure_future site is, on every path, stored in something that outlives the function, awaited, or given to a "
               "caller for which the same holds; it is not taken out again before it is done", 6)
    c.rule(RR, "a task kept in a module-level collection is taken out of it by a done callback", 2)
    c.rule(RA, "run_soon starts the decorated function with the positional and keyword arguments it was called with", 1)
    c.rule(RC, "no call of a coroutine function of the repository is left without await, task, return or other use", 1)
    todo, done, inline = [], set(), set()
    for f in list(c.p.funcs):
        if isinstance(f.node, ast.Lambda):
            continue
        if any(isinstance(n, ast.Call) and call_name(n) in SPAWN for n in own_nodes(f.node)):
            todo.append(f)
    while todo:
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        if kept(c, RT, RR, f, inline) == "returned":
            inline.add(f)
            users = [g for g in c.p.funcs if not isinstance(g.node, ast.Lambda) and g is not f and
                     any(isinstance(n, ast.Call) and call_name(n) == f.name for n in own_nodes(g.node))]
            if not users:
                c.undecided(RT, f.qual, "the task is returned and nothing calls this")
            todo += users
    arguments(c, RA)
    coroutines(c, RC)
    weak(c, RT)


def outlives(v, st):
    return v is not None and v[0] != "O"


def holders(st, v, seen=None):
    """v, and every collection built on this path that contains it"""
    out, new = {v}, {v}
    while new:
        nxt = set()
        for n, o in st.objs.items():
            t = ("O", n)
            if t in out:
                continue
            if o["kind"] == "list":
                inside = [y for s in o["seq"] for y in s[1:] if isinstance(y, tuple)]
            elif o["kind"] in ("dict", "set"):
                inside = (list(o["items"].values()) + list(o["items"].keys())) if isinstance(o["items"], dict) else list(o["items"])
                inside += [o["rest"]] if o["rest"] is not None else []
            else:
                inside = [x for k, x in st.heap.items() if k[0] == t]
            if any(isinstance(y, tuple) and any(mentions(y, x) for x in new) for y in inside):
                nxt.add(t)
        new = nxt - out
        out |= nxt
    return out


def kept(c, RT, RR, f, inline):
    def opaque(x):
        if isinstance(x, Class):
            return False
        if x in inline or x is f:
            return False
        return x.is_async or x.module is not f.module
    it = c.interp(opaque=opaque)
    outs = c.run(it, f, RT)
    result = None
    final_ok = set()                # containers that are awaited, stored or returned on a path to the end
    for st, kind, v in outs:
        if kind == "cut":
            continue
        for n in st.objs:
            t = ("O", n)
            if used(st, {t}, v, kind):
                final_ok.add(t)
    for st, kind, v in outs:
        if kind == "raise":
            continue
        for s in evs(st, "spawn"):
            if s.res is None:
                continue
            hs = holders(st, s.res)
            out = [e for e in evs(st, "mut") if tail(e) in ("discard", "remove") and e.n > s.n and outlives(e.recv, st) and e.args and e.args[0] == s.res]
            u = used(st, hs, v, kind, s)
            if out and u != "await":
                c.bad(RT, out[0].loc, "the task is taken out of its collection as soon as it was put in: nothing refers to it until it is done", st, kind)
                continue
            if u in ("await", "store"):
                c.ok(RT, 1, f"{s.loc}: {'awaited' if u == 'await' else 'stored'}")
                if u == "store":
                    released(c, RR, it, st, kind, s, f)
                continue
            if u == "return":
                # a function that keeps its task on one path has callers that rely on it for the others
                stored = [x for x, k2, v2 in outs if k2 == "return" for y in evs(x, "spawn") if y.loc == s.loc and y.res is not None and used(x, holders(x, y.res), v2, k2, y) == "store"]
                if stored and not any(mentions(t, s.res) for t in st.facts):
                    c.bad(RT, s.loc, f"{f.name} keeps the task on some paths only: on this one nothing refers to it for a caller that does not", st, kind)
                    continue
                result = "returned"
                continue
            if kind == "cut" and any(h in final_ok for h in hs):
                c.ok(RT, 1, f"{s.loc}: collected in a loop, awaited afterwards")
                continue
            passed = [e for e in evs(st, "call", "opaque", "new") if e.n > s.n and any(isinstance(a, tuple) and any(mentions(a, h) for h in hs) for a in list(e.args) + list(e.kw.values()))]
            if passed:
                c.undecided(RT, s.loc, f"the task is passed to {passed[0].label}")
            elif kind == "cut" and any(h[0] == "O" for h in hs):
                c.undecided(RT, s.loc, "collected in a loop")
            else:
                c.bad(RT, s.loc, f"nothing refers to the task after {f.name} ends: it may disappear before it is done", st, kind)
    return result


def used(st, hs, v, kind, s=None):
    """'await' | 'store' | 'return' | None"""
    n0 = s.n if s is not None else -1
    for e in st.trace:
        if e.n < n0:
            continue
        if e.kind == "await" and e.recv is not None and any(mentions(e.recv, h) for h in hs):
            return "await"
        if e.kind in ("call", "pure", "opaque") and e.res is not None and e is not s and any(isinstance(a, tuple) and any(mentions(a, h) for h in hs) for a in list(e.args) + list(e.kw.values())) and awaited(st, e):
            return "await"
    for e in st.trace:
        if e.n < n0:
            continue
        if e.kind in ("set", "setitem", "setglobal") and (e.kind == "setglobal" or outlives(e.recv, st)) and any(isinstance(a, tuple) and any(mentions(a, h) for h in hs) for a in e.args):
            later = [x for x in st.trace if x.n > e.n and x.kind == e.kind == "set" and x.recv == e.recv and x.label == e.label]
            if not later:
                return "store"
        if e.kind == "mut" and outlives(e.recv, st) and e.recv[:2] != ("A", "elem") and tail(e) in ("add", "append", "update", "extend", "insert", "setdefault", "appendleft") and any(isinstance(a, tuple) and any(mentions(a, h) for h in hs) for a in e.args):
            return "store"
    if kind == "return" and isinstance(v, tuple) and any(mentions(v, h) for h in hs):
        return "return"
    return None


def released(c, R, it, st, kind, s, f):
    """a task added to a collection of the module is taken out when done"""
    adds = [e for e in evs(st, "mut") if e.n > s.n and tail(e) in ("add", "append") and e.recv is not None and e.recv[0] == "S" and "." in e.recv[1] and any(a == s.res for a in e.args)]
    if not adds:
        return
    coll = adds[0].recv
    cbs = [e for e in evs(st, "call", "mut", "opaque") if tail(e) == "add_done_callback" and e.recv == s.res and e.args]
    for e in cbs:
        cb = e.args[0]
        if cb[:2] == ("A", "attr"):
            cb = ("B", cb[2], cb[3])
        if cb[0] == "B" and cb[1] == coll:
            if cb[2] in REMOVE:
                c.ok(R, 1, f"{e.loc}: {cb[2]} when done")
            else:
                c.bad(R, e.loc, f"the done callback does {cb[2]}: the task is kept for ever", st, kind)
            return
        if cb[0] in ("F", "P"):
            try:
                outs = it.apply(st.copy() if hasattr(st, "copy") else st, cb, [s.res], {})
            except Exception as ex:
                c.undecided(R, e.loc, f"done callback not followed: {ex}")
                return
            for s2, k2, _ in outs:
                if k2 == "return":
                    if any(x.kind == "mut" and x.recv == coll and tail(x) in REMOVE for x in s2.trace[len(st.trace):]):
                        c.ok(R, 1, f"{e.loc}: removed when done")
                    elif not any(x.kind in ("call", "opaque") for x in s2.trace[len(st.trace):]):
                        c.bad(R, e.loc, "a task that is done may be kept for ever", s2, kind)
            return
    if cbs:
        c.undecided(R, cbs[0].loc, "done callback not recognised")
        return
    name = coll[1].split(".")[-1]
    elsewhere = [n for m in c.p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in REMOVE and
                 (getattr(n.func.value, "id", None) == name or getattr(n.func.value, "attr", None) == name)]
    if not elsewhere:
        c.bad(R, adds[0].loc, f"tasks are put into {name} and never taken out", st, kind)


def arguments(c, R):
    f = c.p.function("run_soon")
    it = c.interp()
    fn = ("S", "work", None)
    p = f.node.args.args[0].arg
    outs = c.run(it, f, R, args={p: fn})
    for st, kind, v in outs:
        if kind != "return" or v[0] != "F":
            c.undecided(R, f.qual, "what the decorator returns was not recognised")
            continue
        a, k = ("S", "first-argument", None), ("S", "keyword-argument", None)
        try:
            outs2 = it.apply(st, v, [a], {"option": k})
        except Exception as ex:
            c.undecided(R, f.qual, f"gave up: {ex}")
            continue
        for s2, k2, v2 in outs2:
            if k2 != "return":
                continue
            soon = [e for e in evs(s2, "call") if tail(e) in ("call_soon", "call_soon_threadsafe", "call_later", "call_at")]
            spawn = evs(s2, "spawn")
            ends = [(s2, soon)]
            if soon and not spawn:
                ends = []
                e = soon[0]
                skip = {"call_soon": 0, "call_soon_threadsafe": 0, "call_later": 1, "call_at": 1}[tail(e)]
                if any(x for x in e.kw if x != "context"):
                    c.bad(R, e.loc, f"{tail(e)} is given keyword arguments it does not take", s2, k2)
                    continue
                try:
                    for s3, k3, v3 in it.apply(s2, e.args[skip], list(e.args[skip + 1:]), {}):
                        if k3 == "return":
                            ends.append((s3, soon))
                        elif k3 == "raise":
                            c.bad(R, e.loc, "what is called soon fails", s3, k3)
                except Exception as ex:
                    c.undecided(R, e.loc, f"gave up: {ex}")
                    continue
            for s3, _ in ends:
                sp = evs(s3, "spawn")
                if not sp:
                    calls = [e for e in evs(s3, "call") if e.recv == fn or e.label == "work"]
                    if calls:
                        c.bad(R, calls[0].loc, "the work is called but never started as a task", s3, k2)
                    else:
                        c.undecided(R, f.qual, "how the work is started was not recognised")
                    continue
                work = [e for e in s3.trace if e.kind in ("call", "pure") and (e.recv == fn or e.label.split(".")[-1] == "work") and mentions(sp[0].args[0], e.res)]
                if not work:
                    c.undecided(R, sp[0].loc, "what the task runs was not recognised")
                    continue
                got_a, got_k = list(work[0].args), dict(work[0].kw)
                if got_a != [a]:
                    c.bad(R, work[0].loc, f"the positional arguments that reach the work are ({', '.join(show(x) for x in got_a)}), not those given", s3, k2)
                elif got_k.get("option") != k:
                    c.bad(R, work[0].loc, f"keyword arguments do not reach the work", s3, k2)
                else:
                    c.ok(R, 1, f"{f.qual}: positional and keyword arguments forwarded")
                hs = holders(s3, sp[0].res)
                if not used(s3, hs, None, "none", sp[0]):
                    c.bad("kept", sp[0].loc, "nothing refers to the task of run_soon: it may disappear before it is done", s3, k2)
                else:
                    c.ok("kept", 1, "run_soon keeps its task")
                    released(c, "released", it, s3, k2, sp[0], f)


def coroutines(c, R):
    n_calls = 0
    for f in list(c.p.funcs):
        if isinstance(f.node, ast.Lambda):
            continue
        for n in own_nodes(f.node):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
                continue
            g = target(c, f, n.value.func)
            if g is None:
                continue
            n_calls += 1
            if g.is_async and not g.is_gen:
                if any(d for d in g.node.decorator_list):
                    continue
                c.bad(R, f"{f.path}:{n.lineno}", f"{g.name} is called but never awaited or started: its work is dropped")
    c.ok(R, max(n_calls, 0), f"{n_calls} bare calls of repository functions")


def target(c, f, fn):
    """the repository function a call certainly reaches"""
    if isinstance(fn, ast.Name):
        if f.outer is not None or any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name == fn.id for x in ast.walk(f.node) if x is not f.node):
            return None
        if any(a.arg == fn.id for a in f.node.args.args + f.node.args.kwonlyargs):
            return None
        r = c.p.resolve_name(f.module, fn.id)
        return r[1] if r and r[0] == "func" else None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and f.cls is not None:
        if fn.attr.startswith("__") and not fn.attr.endswith("__"):
            name = f"_{f.cls.name.lstrip('_')}{fn.attr}"
            return f.cls.methods.get(name) or f.cls.methods.get(fn.attr)
        g = c.p.find_method(f.cls, fn.attr)
        if g is None:
            return None
        over = [k.methods[fn.attr] for k in c.p.classes.values() if fn.attr in k.methods and c.p.is_subclass(k, f.cls.name)]
        return g if all(o.is_async == g.is_async for o in over) else None
    return None


def weak(c, R):
    """collections that hold tasks must hold them strongly"""
    for m in c.p.modules.values():
        names = {n.func.value.id for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append") and isinstance(n.func.value, ast.Name)
                 and n.args and isinstance(n.args[0], ast.Name) and "task" in n.args[0].id.lower()}
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Call):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id in names for t in ts) and (call_name(s.value) or "").startswith("Weak"):
                    c.bad(R, f"{m.relpath}:{s.lineno}", "the collection of running tasks holds them weakly: a task may disappear before it is done")
