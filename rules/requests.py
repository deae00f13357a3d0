"""Requests: status of a response, identity, middleware, routing (C16, C18, C22, C23)."""
import ast

from .base import *
from .servers import tail, route_method, CANCEL
from . import buffered as B

DECODE = ("json.JSONDecodeError", "json.decoder.JSONDecodeError", "UnicodeDecodeError")
VALID = ("pydantic.ValidationError", "pydantic_core.ValidationError", "pydantic_core._pydantic_core.ValidationError")


def exc_bases(it, st, e):
    cl, exact = it.exc_cls(st, e)
    return [b.name if isinstance(b, Class) else str(b) for b in it.exc_bases(cl)], cl, exact


def route_paths(c, R, endpoint_raises=True, middleware_raises=True):
    """all paths of one request through a server, down to the call of its handler -> (interp, func, paths)"""
    f = route_method(c)
    app, paused = c.cls("ApplicationProcessingException").qual, c.cls("BufferedRequestHandlerReceivingPausedException").qual

    def opq(x):
        if isinstance(x, Class) or x.cls is None:
            return False
        return x.cls.name == "StatisticsKeeper" or x.name == "attempt_request" or c.p.is_subclass(x.cls, "MiddlewareBase")

    def mr(ev, it):
        if ev.kind == "decode":
            return ("UnicodeDecodeError",)
        if ev.label in ("json.loads", "loads"):
            return ("json.JSONDecodeError",)
        if ev.kind == "pure" and ev.label in ("model_validate", "model_validate_json"):
            return ("pydantic.ValidationError",)
        if ev.kind in ("new", "call") and ("**" in ev.kw or tail(ev) in ("model_validate", "model_validate_json")) and "attempt_request" not in str(ev.label):
            return ("pydantic.ValidationError",)
        if ev.kind == "await":
            if tail(ev) == "attempt_request" and endpoint_raises:
                return ("Exception", app, paused, "pydantic.ValidationError", CANCEL)
            if tail(ev) in ("before_routing", "after_routing") and middleware_raises:
                return ("Exception", CANCEL)
        return ()

    it = c.interp(opaque=opq, may_raise=mr)
    return it, f, c.run(it, f, R)


# ====================================================================== C16
def origin(st):
    """exception a path begins to fail with, as far as the path tells its class: (exception, event it comes from, 'request'|'endpoint'|'code')"""
    first, where = None, None
    for e in st.trace:
        if e.kind == "raise" and e.args:
            if first is None:
                first = e.args[0]
                aw = (e.info or {}).get("await")
                where = "endpoint" if aw is not None and tail(aw) in ("attempt_request", "before_routing", "after_routing") else "code"
        elif e.kind == "caught" and e.args:
            x = e.args[0]
            if first is None:
                first, where = x, "code"
            elif x[0] == "E" and first[0] == "E" and x[3] == first[3]:
                first = x
    if first is not None and first[0] == "E":
        for t, b in st.facts.items():  # isinstance tests of the exception
            if b and t[0] == "A" and t[1] == "isinstance" and t[2][0] == "E" and t[2][3] == first[3]:
                if t[3][0] in ("X", "C"):
                    first = ("E", t[3][1], first[2], first[3])
                else:
                    first = ("E", "BaseException", first[2], first[3])
    return first, where


def check_C16(c):
    R = "C16.status"
    c.rule(R, "on every path of a request the response carries the status of what the path ended with: 0 with the endpoint's result, 100 text that can "
              "not be parsed, 300 validation, 400 unknown route, 500 receiving paused, 600 reported failure, 999 anything else; no Exception escapes", 6)
    it, f, outs = route_paths(c, R)
    site = f.qual
    for st, k, v in outs:
        if k == "cut":
            continue
        bad = lambda m: c.bad(R, site, m, st, k)
        first, where = origin(st)
        names = exc_bases(it, st, first)[0] if first is not None else []
        if k == "raise":
            nv = exc_bases(it, st, v)[0]
            if "Exception" in nv:
                bad(f"{show(v)} is not answered")
            elif "asyncio.CancelledError" in nv or "CancelledError" in nv:
                c.ok(R)
            continue
        fl = entry_fields(it, st, v)
        if fl is None or "status" not in fl:
            if v == NONE:
                bad("a request ends with no response")
            else:
                c.undecided(R, site, f"returns {show(v)}")
            continue
        status, data = fl["status"], fl.get("data", NONE)
        if first is None:
            done = [e for e in evs(st, "opaque") if tail(e) == "attempt_request"]
            if status != K(0):
                if status[0] == "K":
                    bad(f"a request that was handled without any error is answered with status {show(status)}")
                else:
                    c.undecided(R, site, f"status {show(status)}")
            elif not done:
                bad("a request is answered with success although no endpoint was called")
            elif data[0] == "K":
                bad(f"a request that succeeded is answered with {show(data)} instead of the endpoint's result")
            else:
                src = provenance(st, data)
                loops = [t for t in src if t[0] == "H"]
                if done[0].res in src or loops or any(t[0] == "R" and st.trace[t[1]].label.endswith("after_routing") for t in src if isinstance(t[1], int)
                                                      and t[1] < len(st.trace)):
                    c.ok(R, 1, f"{site}: success at {done[0].loc}")
                else:
                    c.undecided(R, site, f"data {show(data)}")
            continue
        want = expected(c, it, st, first, where, names)
        if want is None:
            c.undecided(R, site, f"no status known for {show(first)}")
            continue
        got = status[2] if status[0] == "K" else None
        if got is None:
            # the status the exception itself carries
            if status[0] == "A" and status[1] == "attr" and status[3] == "status" and any(
                    n in ("RoutingExceptionBase", "BufferedRequestHandlerExceptionBase") for n in exc_bases(it, st, status[2])[0] if status[2][0] in ("E", "O")):
                c.ok(R)
            else:
                c.undecided(R, site, f"status {show(status)} for {show(first)}")
            continue
        if got in want:
            c.ok(R, 1, f"{show(first)} -> {got}")
        else:
            bad(f"{show(first)} is answered with status {got} instead of {' or '.join(map(str, sorted(want)))}")
    # the status each routing / buffering exception carries
    RE = "C16.carried"
    c.rule(RE, "the exceptions that carry a status carry the one of what they stand for", 2)
    for cname, want in (("UnknownRouteKeyException", 400), ("RouterProcessingException", 600), ("BufferedRequestHandlerReceivingPausedException", 500)):
        for cl in c.p.by_name.get(cname, []):
            it2 = c.interp()
            try:
                ctor = it2.apply(empty_state(), ("C", cl.qual), [("S", "a", None)] * nparams(c, cl), {})
            except Exception as e:
                c.undecided(RE, cl.qual, f"gave up: {e}")
                continue
            for st, k, v in ctor:
                if k == "cut":
                    continue
                fl = entry_fields(it2, st, v) if k == "return" else None
                s = fl.get("status") if fl else None
                if s is None or s[0] != "K":
                    c.undecided(RE, cl.qual, "status not known")
                elif s[2] != want:
                    c.bad(RE, cl.qual, f"carries status {s[2]} instead of {want}", st)
                else:
                    c.ok(RE)
    # what the handler gives back
    RH = "C16.result"
    c.rule(RH, "an endpoint's result is given back as it is and what it raises is not kept from the server", 2)
    for cl in list(c.p.classes.values()):
        if not c.p.is_subclass(cl, "HandlerBase") or c.p.is_subclass(cl, "BufferedRequestHandlerBase"):
            continue
        run = c.p.find_method(cl, "run")
        at = c.p.find_method(cl, "attempt_request")
        if at is None or run is None or run.kind == "abstract" or run.cls is c.p.by_name["HandlerBase"][0]:
            continue

        def mr(ev, it):
            if ev.kind == "await" and tail(ev) == "function":
                return ("Exception", c.cls("ApplicationProcessingException").qual)
            return ()
        it3 = c.interp(may_raise=mr)
        for st, k, v in c.run(it3, at, RH, selfval=("S", "self", "c:" + cl.qual)):
            calls = [e for e in evs(st, "call") if tail(e) == "function"]
            rz = [e for e in evs(st, "raise") if (e.info or {}).get("await") is not None and tail(e.info["await"]) == "function"]
            if k == "cut":
                continue
            if not calls:
                if k == "return":
                    c.undecided(RH, at.qual, "returns without calling the endpoint")
                continue
            if k == "return":
                if rz:
                    c.bad(RH, at.qual, f"{show(rz[0].args[0])} raised by an endpoint is answered as success", st, k)
                elif v == calls[0].res:
                    c.ok(RH)
                elif v[0] == "K":
                    c.bad(RH, at.qual, f"gives back {show(v)} instead of the endpoint's result", st, k)
                else:
                    c.undecided(RH, at.qual, f"gives back {show(v)}")
            elif rz:
                orig = rz[0].args[0]
                same = v == orig or v[0] == "E" and orig[0] == "E" and v[3] == orig[3]
                if same:
                    c.ok(RH)
                else:
                    a, b = exc_bases(it3, st, orig)[0], exc_bases(it3, st, v)[0]
                    if "ApplicationProcessingException" in a and "ApplicationProcessingException" not in b:
                        c.bad(RH, at.qual, f"{show(orig)} raised by an endpoint becomes {show(v)}", st, k)
                    else:
                        c.undecided(RH, at.qual, f"{show(orig)} becomes {show(v)}")


def nparams(c, cl):
    init = c.p.find_method(cl, "__init__")
    return len(init.node.args.args) - 1 - len(init.node.args.defaults) if init else 0


def expected(c, it, st, e, where, names):
    cl, exact = it.exc_cls(st, e)
    nm = cl.name if isinstance(cl, Class) else str(cl)
    if any(n in DECODE for n in names):
        return {100} if where == "code" else {100, 999}
    if any(n in VALID for n in names):
        return {300}
    if "UnknownRouteKeyException" in names:
        return {400}
    if "RouterProcessingException" in names or "ApplicationProcessingException" in names:
        return {600}
    if "BufferedRequestHandlerReceivingPausedException" in names:
        return {500}
    if "BufferedRequestHandlerExceptionBase" in names or "RoutingExceptionBase" in names:
        return {400, 500, 600} if exact else {"its own"}
    if nm in ("BaseException",):
        return None
    return {999}


# ====================================================================== C18
def module_global(c, v):
    """(module, name, ast of its value) when the term is a module-level variable"""
    if v is None or v[0] not in ("S", "A"):
        return None
    q = None
    if v[0] == "S":
        q = v[1]
    if q is None or "." not in str(q):
        return None
    mod, name = q.rsplit(".", 1)
    m = c.p.modules.get(mod)
    if m is None:
        return None
    for s in m.tree.body:
        tg, val = None, None
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            tg, val = s.targets[0], s.value
        elif isinstance(s, ast.AnnAssign):
            tg, val = s.target, s.value
        if isinstance(tg, ast.Name) and tg.id == name:
            return m, name, val
    return None


def var_kind(c, v):
    """'contextvar', 'other' or None for the object a set/reset is called on"""
    g = module_global(c, v)
    if g is None:
        return None
    m, name, val = g
    if isinstance(val, ast.Call):
        f = val.func
        while isinstance(f, ast.Subscript):
            f = f.value
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
        if nm == "ContextVar":
            return "contextvar"
        if nm in ("local", "dict", "list", "SimpleNamespace") or nm in c.p.by_name:
            return "other"
    if isinstance(val, (ast.Constant, ast.Dict, ast.List)):
        return "other"
    return None


def context_events(c, st, frm=-1, to=10 ** 9):
    out = []
    for e in evs(st, "call"):
        if frm < e.n < to and tail(e) in ("set", "reset") and e.recv is not None and module_global(c, e.recv):
            out.append(e)
    return out


def check_context(c, R, site, st, k, key, inside, frm, to):
    """the context typestate of one request: set with its key before the first of `inside`, reset with that token after the last"""
    ce = context_events(c, st, frm, to)
    sets = [e for e in ce if tail(e) == "set"]
    bad = lambda m: c.bad(R, site, m, st, k)
    kept = [e for e in evs(st, "setglobal", "set", "setitem") if frm < e.n < to and any(isinstance(a, tuple) and a == key for a in e.args)
            and (e.kind == "setglobal" or module_global(c, e.recv))]
    unknown = [e for e in evs(st, "call") if frm < e.n < (inside[0].n if inside else to) and any(a == key for a in list(e.args) + list(e.kw.values()))
               and e not in ce]
    if not inside:
        if not sets:
            c.ok(R)
            return
    first = [e for e in sets if not inside or e.n < inside[0].n]
    if not first:
        if kept:
            bad(f"the key of the request is kept at {kept[0].loc} in something shared by all requests instead of a context variable")
        elif unknown:
            c.undecided(R, site, f"the key is handed to {unknown[0].label}")
        else:
            bad(f"{inside[0].label} at {inside[0].loc} runs without the key of the request being current")
        return
    s = first[0]
    kind = var_kind(c, s.recv)
    if kind == "other":
        bad(f"{show(s.recv)} is no context variable: concurrent requests see each other's key")
        return
    if kind is None:
        c.undecided(R, site, f"{show(s.recv)}: kind of variable not known")
        return
    if not s.args or not same_key(st, s.args[0], key):
        if s.args and s.args[0][0] == "K":
            bad(f"the current key is set to {show(s.args[0])} at {s.loc} instead of the key of the request")
        else:
            prov = provenance(st, s.args[0]) if s.args else ()
            if key in prov:
                c.undecided(R, site, f"current key {show(s.args[0])}")
            else:
                bad(f"the current key is set to {show(s.args[0]) if s.args else 'nothing'} at {s.loc} instead of the key of the request")
        return
    resets = [e for e in ce if tail(e) == "reset" and e.recv == s.recv]
    good = [e for e in resets if e.args and e.args[0] == s.res and (not inside or e.n > inside[-1].n)]
    if good:
        after = [e for e in ce if e.n > good[-1].n and tail(e) == "set"]
        if after:
            bad(f"the current key is set again at {after[0].loc} after it was restored")
        else:
            c.ok(R)
        return
    early = [e for e in resets if e.args and e.args[0] == s.res]
    if early:
        bad(f"the current key is restored at {early[0].loc} while {inside[-1].label} at {inside[-1].loc} still follows")
    elif resets:
        bad(f"reset at {resets[0].loc} is not given the token of the set at {s.loc}")
    else:
        back = [e for e in sets if e.n > s.n]
        prev = [e for e in evs(st, "call") if tail(e) == "get" and e.recv == s.recv and e.n < s.n]
        if back and prev and back[-1].args and back[-1].args[0] == prev[0].res:
            c.ok(R)
        else:
            bad(f"the current key is not restored when the handling ends ({k})")


def same_key(st, a, key):
    return a == key


def check_C18(c):
    R = "C18.echo"
    c.rule(R, "the response carries the key of the request, or none when the request could not be read", 6)
    RC = "C18.context"
    c.rule(RC, "the context variable is set to the key before, and reset with that token after, everything that handles the request or message, on every path", 6)
    it, f, outs = route_paths(c, R)
    site = f.qual
    for st, k, v in outs:
        inside = [e for e in evs(st, "opaque") if tail(e) in ("attempt_request", "before_routing", "after_routing")]
        news = [e for e in st.trace if e.kind in ("new", "pure", "call") and is_request(c, st, e)]
        key = None
        for e in news:
            if any(x.kind == "raise" and x.n == e.n + 1 and x.label == "from constructor" for x in evs(st, "raise")):
                continue
            o = e.res
            key = st.heap.get((o, "span_key")) or A("attr", o, "span_key")
        if k == "cut":
            continue
        failed_validation = first_failure(st) and key is not None and not inside and not context_events(c, st)
        if k == "return":
            fl = entry_fields(it, st, v)
            if fl is None or "status" not in fl:
                c.undecided(R, site, f"returns {show(v)}")
            else:
                got = fl.get("span_key", NONE)
                if key is None or failed_validation:
                    if got == NONE or (key is not None and got == key):
                        c.ok(R)
                    elif got[0] in ("K",):
                        c.bad(R, site, f"a request that could not be read is answered with the key {show(got)}", st, k)
                    else:
                        c.undecided(R, site, f"key {show(got)} for a request that could not be read")
                elif got == key:
                    c.ok(R, 1, f"echoed {show(got)[:60]}")
                elif got == NONE:
                    c.bad(R, site, f"the response built at {where_built(st, v)} does not carry the key of the request", st, k)
                elif key in provenance(st, got):
                    c.undecided(R, site, f"key {show(got)}")
                else:
                    c.bad(R, site, f"the response carries {show(got)} instead of the key of the request", st, k)
        if key is not None and inside:
            check_context(c, RC, site, st, k, key, inside, -1, 10 ** 9)
        elif key is not None and context_events(c, st):
            check_context(c, RC, site, st, k, key, inside, -1, 10 ** 9)
    # the worker of a buffered endpoint
    side = B.Side(c, "handler")
    for w, it2, outs in B.worker_paths(c, side, RC):
        for st, k, v in outs:
            for e, item, end in B.segments(c, it2, st, k, v):
                to = end if end is not None else 10 ** 9
                inside = [x for x in evs(st, "opaque") if e.n < x.n < to and
                          (x.label.endswith(".process_buffered_request") or x.label.split(".")[-1] in ("before_process", "after_process"))]
                check_context(c, RC, w.qual, st, k, B.field(item, "span_key"), inside, e.n, to)


def first_failure(st):
    return any(e.kind in ("caught", "raise") for e in st.trace)


def where_built(st, v):
    for e in st.trace:
        if e.kind == "new" and e.res == v:
            return e.loc
    return "?"


def is_request(c, st, e):
    """an event whose result is the RequestDTO read from the request"""
    if e.kind == "new":
        return e.label.split(".")[-1] == "RequestDTO"
    if e.res is not None and e.res[0] in ("R", "A", "O"):
        if tail(e) in ("model_validate", "model_validate_json") and "RequestDTO" in show(e.recv or NONE):
            return True
    return False


# ====================================================================== C22
def elem_of(v):
    """(collection, loop id) when the term is the element of a loop"""
    if v is not None and v[0] == "A" and v[1] == "elem":
        return v[2], v[3]
    return None


HOOKS = ("before_routing", "after_routing", "before_process", "after_process", "before_push")


class Loops(dict):
    """{location: collection} of the loops over the middleware that call a hook"""

    def __init__(self):
        super().__init__()
        self.mine, self.others = {}, {}     # entries into a loop, by the hook called in it (the same loop may serve more than one)

    def of(self, l):
        return l.loc in self and (id(l) in self.mine or id(l) not in self.others)

    def cut(self, st, k, v):
        """the path is a round of such a loop"""
        if k != "cut" or v.get("loc") not in self:
            return False
        ls = [l for l in evs(st, "loop") if l.info.get("id") == v["loop"]]
        return not ls or self.of(ls[-1])


def loops_of(outs, hook):
    """loops in whose body the hook is called on the element"""
    out = Loops()
    for st, k, v in outs:
        for e in evs(st, "opaque"):
            if tail(e) in HOOKS:
                el = elem_of(e.recv)
                if el is None:
                    continue
                for l in evs(st, "loop"):
                    if l.info["id"] == (el[1][2] if isinstance(el[1], tuple) else el[1]):
                        if tail(e) == hook:
                            out[l.loc] = l.info["coll"]
                            out.mine[id(l)] = l
                        else:
                            out.others[id(l)] = l
    return out


def is_empty(it, st, coll):
    while coll[0] == "A" and coll[1] in ("list", "tuple", "copy", "iter", "enumerate", "range", "len", "reversed") and len(coll) > 2:
        coll = coll[2]
    if it.truth(st, coll) is False:
        return True
    n = A("len", coll)
    if it.truth(st, A("lt", n, K(1))) is True or it.truth(st, A("eq", n, K(0))) is True:
        return True
    lo, hi = it.bound(st, n)
    return hi == 0


def order_of(coll):
    """'forward', 'backward' or None for the order in which a loop goes through a stored list"""
    if coll[0] == "A" and coll[1] == "attr":
        return "forward"
    if coll[0] == "A" and coll[1] in ("reversed", "sorted", "set", "revmap"):
        return "backward"
    if coll[0] == "A" and coll[1] in ("list", "tuple", "copy", "iter", "enumerate") and len(coll) > 2:
        return order_of(coll[2])
    if coll[0] == "A" and coll[1] == "range" and len(coll) == 3 and coll[2][0] == "A" and coll[2][1] == "len":
        return order_of(coll[2][2])
    if coll[0] == "A" and coll[1] in ("slice", "getitem", "item"):
        sl = [x for x in coll[3:] if isinstance(x, tuple)]
        if any(x == K(-1) for x in sl) or any(x[0] == "A" and x[1] == "sl" and x[-1] == K(-1) for x in sl):
            return "backward"
        if all(x == NONE for x in sl) or any(x[0] == "A" and x[1] == "sl" and all(y == NONE for y in x[2:]) for x in sl):
            return order_of(coll[2])
    return None


def registration(c, R, cname, cls_attr):
    """add() puts a middleware at the end of the list that is gone through"""
    cl = c.cls(cname)
    add = c.find(cl, "add")
    it = c.interp()
    for st, k, v in c.run(it, add, R):
        if k != "return":
            continue
        muts = [e for e in evs(st, "mut") if e.args and any(a[0] == "S" for a in e.args if isinstance(a, tuple))]
        if any(tail(e) == "insert" and e.args[0][0] == "K" for e in muts):
            c.bad(R, add.qual, f"a middleware is put in front of those registered before it, at {muts[0].loc}", st, k)
        elif any(tail(e) in ("append", "extend") for e in muts):
            if cls_attr and not any(last_attr(e.recv) in cls_attr for e in muts):
                c.bad(R, add.qual, f"a middleware is registered in {show(muts[0].recv)}, but those in {sorted(cls_attr)} are called", st, k)
            else:
                c.ok(R)
        elif not muts and not evs(st, "set", "setitem", "call", "opaque"):
            if st.facts:
                c.undecided(R, add.qual, "not registered under some condition")
            else:
                c.bad(R, add.qual, "a middleware is not registered", st, k)
        else:
            c.undecided(R, add.qual, "registration not followed")


def skipped(c, R, site, st, k, v, hook, loop_nodes, extra=None):
    """a round of the loop that does not call the hook, or one after which the loop is left"""
    if loop_nodes.cut(st, k, v):
        lid = v["loop"]
        el = [e for e in evs(st, "opaque") if tail(e) == hook and elem_of(e.recv) and elem_id(e.recv) == lid]
        if not el:
            if any(any(elem_id(s) == lid for s in subterms(t)) for t in st.facts):
                c.undecided(R, site, f"{hook} is not called for some middleware, depending on the middleware")
            else:
                c.bad(R, site, f"{hook} is not called for a middleware", st, k)
            return True
        if len(el) > 1:
            c.bad(R, site, f"{hook} is called twice for one middleware, at {el[0].loc} and {el[1].loc}", st, k)
            return True
        if not awaited(st, el[0]):
            c.bad(R, site, f"{hook} at {el[0].loc} is not awaited", st, k)
            return True
    return False


def elem_id(v):
    el = elem_of(v)
    if el is None:
        return None
    return el[1][2] if isinstance(el[1], tuple) else el[1]


def passes(c, R, it, site, st, k, hook, loops, before=None, after=None):
    """the path goes through all middleware with this hook, before / after the given event; -> loop event, 'empty' or None"""
    ls = [l for l in evs(st, "loop") if loops.of(l) and (before is None or l.n < before.n) and (after is None or l.n > after.n)]
    for l in ls:
        inside = [e for e in evs(st, "opaque") if tail(e) == hook and elem_id(e.recv) == l.info["id"]]
        if inside and not (k == "cut"):
            c.bad(R, site, f"the middleware after the one whose {hook} returned at {inside[0].loc} is left out", st, k)
            return None
    if len(ls) > 1:
        c.bad(R, site, f"{hook} is called twice for each middleware, at {ls[0].loc} and {ls[1].loc}", st, k)
        return None
    if ls:
        return ls[0]
    colls = list(loops.values())
    if any(is_empty(it, st, x) for x in colls):
        return "empty"
    if any(last_attr(t) and any(last_attr(s) == last_attr(colls[0]) for s in subterms(t)) for t in st.facts):
        c.undecided(R, site, f"{hook} is not called under a condition on the list of middleware")
        return None
    c.bad(R, site, f"{hook} is not called {'before' if before is not None else 'after'} {(before or after).label} at {(before or after).loc}", st, k)
    return None


def check_C22(c):
    R = "C22.chain"
    c.rule(R, "each middleware is given what the one before it returned, all of them in registration order, before and after the endpoint; "
              "the endpoint is given what the last one returned, the client what the last one after it returned", 4)
    it, f, outs = route_paths(c, R, False, False)
    site = f.qual
    attrs = set()
    hooks = {"before_routing": "protocol_dto", "after_routing": "response_dto"}
    loops = {h: loops_of(outs, h) for h in hooks}
    for h in hooks:
        if not loops[h]:
            if any(tail(e) == h for st, _, _ in outs for e in evs(st, "opaque", "call")):
                c.undecided(R, site, f"{h} is called outside of a plain loop")
            else:
                c.bad(R, site, f"{h} is called for no middleware")
        for coll in loops[h].values():
            o = order_of(coll)
            if o == "backward":
                c.bad(R, site, f"{h} is called in another order than that of registration ({show(coll)})")
            elif o is None:
                c.undecided(R, site, f"order of {show(coll)}")
            n = [x for x in subterms(coll) if last_attr(x)]
            if n:
                attrs.add(last_attr(n[0]))
    for st, k, v in outs:
        for h, par in hooks.items():
            if not loops[h]:
                continue
            if skipped(c, R, site, st, k, v, h, loops[h]):
                continue
            if loops[h].cut(st, k, v):
                e = next(e for e in evs(st, "opaque") if tail(e) == h and elem_id(e.recv) == v["loop"])
                given = e.kw.get(par)
                if given is None:
                    c.undecided(R, site, f"{par} given to {h} not known")
                    continue
                # loop-carried variable: what a round is given is what the round before left
                if given[0] == "H" and given[1] == v["loop"]:
                    name = given[2]
                    var = v["vars"].get(name)
                    if var is None:
                        c.bad(R, site, f"what {h} at {e.loc} returned is not given to the next middleware", st, k)
                    elif var[2] == e.res:
                        c.ok(R, 1, f"{h}: {name} carried from one to the next")
                    elif e.res in provenance(st, var[2]):
                        c.undecided(R, site, f"{name} becomes {show(var[2])}")
                    else:
                        c.bad(R, site, f"what {h} at {e.loc} returned is not given to the next middleware, which is given {show(var[2])}", st, k)
                elif any(t[0] == "H" and t[1] == v["loop"] for t in provenance(st, given)):
                    c.undecided(R, site, f"{h} is given {show(given)}")
                else:
                    c.bad(R, site, f"each {h} is given {show(given)} instead of what the one before returned", st, k)
        at = [e for e in evs(st, "opaque") if tail(e) == "attempt_request"]
        if not at:
            continue
        if len(at) > 1:
            c.bad(R, site, f"the endpoint is called twice, at {at[0].loc} and {at[1].loc}", st, k)
            continue
        at = at[0]
        dto = next((e.res for e in st.trace if is_request(c, st, e)), None)
        late = [e for e in evs(st, "opaque") if tail(e) == "before_routing" and e.n > at.n]
        early = [e for e in evs(st, "opaque") if tail(e) == "after_routing" and e.n < at.n]
        if late or early:
            c.bad(R, site, f"{(late or early)[0].label} is called on the wrong side of the endpoint", st, k)
            continue
        if loops["before_routing"]:
            p = passes(c, R, it, site, st, k, "before_routing", loops["before_routing"], before=at)
            if p is not None:
                carried(c, R, site, st, k, at.kw.get("protocol_dto"), p, dto, f"the endpoint called at {at.loc}")
        if k == "return" and loops["after_routing"]:
            p = passes(c, R, it, site, st, k, "after_routing", loops["after_routing"], after=at)
            fl = entry_fields(it, st, v)
            if p is not None and fl is not None and "data" in fl:
                carried(c, R, site, st, k, fl["data"], p, at.res, "the client")
    registration(c, R, "MiddlewareManager", attrs)
    buffered_middleware(c)


def carried(c, R, site, st, k, got, p, start, who):
    if got is None:
        c.undecided(R, site, f"what {who} is given is not known")
        return
    if p == "empty":
        if start is None or got == start:
            c.ok(R)
        elif got[0] == "K" or start not in provenance(st, got):
            c.bad(R, site, f"{who} is given {show(got)} when there is no middleware", st, k)
        else:
            c.undecided(R, site, f"{who} is given {show(got)}")
        return
    if got[0] == "H" and got[1] == p.info["id"]:
        c.ok(R, 1, f"{who} is given what the last middleware returned")
    elif any(t[0] == "H" and t[1] == p.info["id"] for t in provenance(st, got)):
        c.undecided(R, site, f"{who} is given {show(got)}")
    elif got == start or got[0] == "K":
        c.bad(R, site, f"{who} is given {show(got)} instead of what the last middleware returned", st, k)
    else:
        c.undecided(R, site, f"{who} is given {show(got)}")


def buffered_middleware(c):
    R = "C22.buffered"
    c.rule(R, "buffered middleware is called in registration order before storing, and before and after processing with the stored metadata", 4)
    side = B.Side(c, "handler")
    attrs = set()
    for w, it, outs in B.worker_paths(c, side, R):
        loops = {h: loops_of(outs, h) for h in ("before_process", "after_process")}
        for h in loops:
            if not loops[h]:
                if any(tail(e) == h for st, _, _ in outs for e in evs(st, "opaque", "call")):
                    c.undecided(R, w.qual, f"{h} is called outside of a plain loop")
                else:
                    c.bad(R, w.qual, f"{h} is called for no middleware")
                continue
            for coll in loops[h].values():
                o = order_of(coll)
                if o == "backward":
                    c.bad(R, w.qual, f"{h} is called in another order than that of registration ({show(coll)})")
                elif o is None:
                    c.undecided(R, w.qual, f"order of {show(coll)}")
                attrs |= {last_attr(x) for x in subterms(coll) if last_attr(x)}
        for st, k, v in outs:
            for h in loops:
                if loops[h]:
                    skipped(c, R, w.qual, st, k, v, h, loops[h])
            ps = B.pops(c, st)
            for i, pop in enumerate(ps):
                item = pop.res
                to = ps[i + 1].n if i + 1 < len(ps) else 10 ** 9
                hs = [e for e in evs(st, "opaque") if pop.n < e.n < to and tail(e) in loops]
                for e in hs:
                    md = e.kw.get("metadata")
                    if md is None:
                        c.undecided(R, w.qual, f"metadata given to {tail(e)}")
                    elif md == B.field(item, "metadata"):
                        c.ok(R)
                    elif B.field(item, "metadata") in provenance(st, md):
                        c.undecided(R, w.qual, f"{tail(e)} is given {show(md)}")
                    else:
                        c.bad(R, w.qual, f"{tail(e)} at {e.loc} is given {show(md)} instead of the metadata stored with the message", st, k)
                    key = e.kw.get("span_key")
                    if key is not None and key != B.field(item, "span_key") and B.field(item, "span_key") not in provenance(st, key):
                        c.bad(R, w.qual, f"{tail(e)} at {e.loc} is given {show(key)} instead of the key of the message", st, k)
                    for par, fld, what in (("dto", "data", "data"), ("retries", "retries", "attempt count")):
                        got = e.kw.get(par)
                        if got is not None and B.field(item, fld) not in provenance(st, got) and \
                                (got[0] == "K" or any(B.field(item, o) in provenance(st, got) for o in ("span_key", "data", "metadata", "retries"))):
                            c.bad(R, w.qual, f"{tail(e)} at {e.loc} is given {show(got)} instead of the {what} of the message", st, k)
                pr = [e for e in evs(st, "opaque") if pop.n < e.n < to and tail(e) == "process_buffered_request"]
                if not pr:
                    continue
                pr = pr[0]
                wrong = [e for e in hs if (tail(e) == "before_process") != (e.n < pr.n)]
                if wrong:
                    c.bad(R, w.qual, f"{tail(wrong[0])} is called on the wrong side of process_buffered_request", st, k)
                    continue
                if loops["before_process"]:
                    if passes(c, R, it, w.qual, st, k, "before_process", loops["before_process"], before=pr) is not None:
                        c.ok(R)
                for e in hs:
                    if tail(e) == "after_process":
                        su = e.kw.get("success")
                        if su is not None and su[0] == "K":
                            c.bad(R, w.qual, f"after_process at {e.loc} is given {show(su)} as the outcome", st, k)
                # an attempt that returned goes through after_process
                failed = [x for x in evs(st, "raise") if (x.info or {}).get("await") is not None and x.info["await"].n > pr.n - 1 and
                          (x.info["await"].recv == pr.res or tail(x.info["await"]) == "after_process")]
                ended = to < 10 ** 9 or k == "return" or k == "cut" and not [l for l in evs(st, "loop") if l.n > pr.n]
                closed = [l for l in evs(st, "loop") if l.n > pr.n]
                if not failed and loops["after_process"] and (closed or ended) and k != "raise":
                    if closed and loops["after_process"].cut(st, k, v):
                        continue
                    if passes(c, R, it, w.qual, st, k, "after_process", loops["after_process"], after=pr) is not None:
                        c.ok(R)
    # before storing
    cl = c.cls("BufferedMiddlewareManager")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and c.p.is_subclass(x.cls, "BufferedMiddlewareBase"))
    coll_m = None
    for m in cl.methods.values():
        if c.p.in_constructor(m):
            continue
        outs = c.run(it, m, R)
        lp = loops_of(outs, "before_push")
        if not lp:
            continue
        coll_m = m
        for coll in lp.values():
            o = order_of(coll)
            if o == "backward":
                c.bad(R, m.qual, f"before_push is called in another order than that of registration ({show(coll)})")
            elif o is None:
                c.undecided(R, m.qual, f"order of {show(coll)}")
            attrs |= {last_attr(x) for x in subterms(coll) if last_attr(x)}
        rets = [(st, v) for st, k, v in outs if k == "return"]
        for st, k, v in outs:
            if skipped(c, R, m.qual, st, k, v, "before_push", lp):
                continue
            if k == "cut" and v.get("loc") in lp:
                e = next(e for e in evs(st, "opaque") if tail(e) == "before_push" and elem_id(e.recv) == v["loop"])
                if it.truth(st, e.res) is False or known_none(it, st, e.res):
                    c.ok(R)
                    continue
                merged = [x for x in evs(st, "mut", "setitem") if x.n > e.n and any(e.res in provenance(st, a) for a in x.args if isinstance(a, tuple))]
                var = [n for n, x in v["vars"].items() if e.res in provenance(st, x[2])]
                if merged:
                    if any(x.label in ("update", "__ior__", "|=") or x.kind == "setitem" for x in merged):
                        c.ok(R)
                    else:
                        c.undecided(R, m.qual, f"metadata is put together with {merged[0].label}")
                elif var:
                    n = v["vars"][var[0]]
                    src = provenance(st, n[2])
                    if any(t[0] == "O" and st.objs[t[1]]["kind"] == "dict" and st.objs[t[1]].get("rest") is None and t != n[2] for t in src) or \
                            n[2][0] == "O" and not any(t == e.res for t in [n[2]]):
                        src = set(src) | {n[1]}   # an object put together from others: not looked into
                    if not any(t[0] == "H" and t[1] == v["loop"] for t in src) and n[1] != n[2]:
                        c.bad(R, m.qual, f"the metadata of the middleware before is lost: {var[0]} becomes {show(n[2])}", st, k)
                    else:
                        c.ok(R)
                elif any(l.n > e.n and e.res in provenance(st, l.info["coll"]) for l in evs(st, "loop")):
                    inner = [l.info["id"] for l in evs(st, "loop") if l.n > e.n]
                    for st2, k2, v2 in outs:
                        if k2 == "cut" and v2["loop"] in inner and any(x.label == "setdefault" for x in evs(st2, "mut", "call")):
                            c.bad(R, m.qual, "metadata of an earlier middleware hides that of a later one", st2, k2)
                    c.undecided(R, m.qual, "metadata is put together in a loop of its own")
                else:
                    c.bad(R, m.qual, f"the metadata returned by before_push at {e.loc} is lost", st, k)
            elif k == "return" and v[0] == "K":
                c.bad(R, m.qual, f"the metadata collected is {show(v)}", st, k)
    if coll_m is None:
        c.undecided(R, cl.qual, "before_push is called outside of a plain loop")
    given_when_storing(c, R, side)
    registration(c, R, "BufferedMiddlewareManager", attrs)


def given_when_storing(c, R, side):
    """what before_push is given is the key and the data of the request that is stored"""
    f = c.find(side.base, "run")
    it = B.mk(c, "handler")
    kwarg = f.node.args.kwarg
    span, dto = ("S", "span_key", "c:" + c.cls("SpanKey").qual), ("S", "dto", None)
    args = {kwarg.arg: {"kind": "dict", "items": {K("span_key"): span, K("dto"): dto}, "rest": None}} if kwarg else {"span_key": span, "dto": dto}
    seen = False
    for st, k, v in c.run(it, f, R, args=args, state=empty_state()):
        for e in evs(st, "opaque"):
            if tail(e) != "before_push":
                continue
            seen = True
            for par, want, other, what in (("span_key", span, dto, "key"), ("dto", dto, span, "data")):
                got = e.kw.get(par)
                if got is None:
                    c.undecided(R, f.qual, f"{par} given to before_push")
                elif want in provenance(st, got):
                    c.ok(R)
                elif other in provenance(st, got) or got[0] == "K":
                    c.bad(R, f.qual, f"before_push at {e.loc} is given {show(got)} instead of the {what} of the request", st, k)
                else:
                    c.undecided(R, f.qual, f"{par} given to before_push is {show(got)}")
    if not seen:
        c.undecided(R, f.qual, "before_push is not called where a request is stored")


# ====================================================================== C23
def opaque_stats(x):
    return not isinstance(x, Class) and x.cls is not None and x.cls.name == "StatisticsKeeper"


def check_C23(c):
    R = "C23.lookup"
    c.rule(R, "the handler called is the entry of the routing table under exactly the route of the request; without an entry none is called", 2)
    it, f, outs = route_paths(c, R, False, False)
    site = f.qual
    tables = set()
    for st, k, v in outs:
        at = [e for e in evs(st, "opaque") if tail(e) == "attempt_request"]
        if not at:
            continue
        e = at[0]
        dto = next((x.res for x in st.trace if is_request(c, st, x)), None)
        key = (st.heap.get((dto, "route_key")) or A("attr", dto, "route_key")) if dto is not None else None
        h = e.recv
        if h is None or h[0] != "A" or h[1] not in ("item", "getitem", "get", "index", "sub"):
            if h is not None and h[0] == "A" and h[1] == "elem" or any(t[0] == "A" and t[1] == "elem" for t in subterms(h or NONE)):
                ok = any(t[0] == "A" and t[1] == "eq" and b and key in t[2:] for t, b in st.facts.items())
                if ok:
                    c.undecided(R, site, f"handler {show(h)}")
                else:
                    c.bad(R, site, f"the handler called at {e.loc} ({show(h)}) is not looked up by the route of the request", st, k)
            else:
                c.undecided(R, site, f"handler {show(h or NONE)}")
            continue
        got = h[3]
        tables.add(last_attr(h[2]))
        if got == key:
            loose = [t for t, b in st.facts.items() if any(x[0] == "A" and x[1] in ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "startswith", "endswith") and any(y == key for y in x[2:]) for x in subterms(t))]
            if h[1] in ("item", "getitem", "sub") and not any(t[0] == "A" and t[1] in ("in", "contains", "eq") and b and key in t[2:] for t, b in st.facts.items()) and loose:
                c.bad(R, site, f"a route that is not in the table is looked up in it at {e.loc}: only {show(loose[0])[:90]} is known", st, k)
                continue
            c.ok(R, 1, f"handler {show(h)[:80]}")
            continue
        names, root = attr_chain(got)
        if names == ["route_key"] and root[0] in ("H", "R"):
            c.ok(R)      # the route of what the middleware returned
        elif key is not None and key in provenance(st, got):
            c.bad(R, site, f"the handler called at {e.loc} is the one of {show(got)} instead of exactly the route of the request", st, k)
        elif elem_of(got) and not any(t[0] == "A" and t[1] == "eq" and b and key in t[2:] and got in t[2:] for t, b in st.facts.items()):
            c.bad(R, site, f"the handler called at {e.loc} is one of the table's ({show(got)}), not looked up by exactly the route of the request", st, k)
        elif got[0] == "K":
            c.bad(R, site, f"the handler called at {e.loc} is the one of {show(got)} whatever the route of the request", st, k)
        else:
            c.undecided(R, site, f"handler under {show(got)}")
    RR = "C23.register"
    c.rule(RR, "an endpoint is put into the table under its route only when the route is not in it yet; otherwise registering raises and the first stays", 2)
    RP = "C23.call"
    c.rule(RP, "the endpoint's function is called with the request data validated as its declared type, and with exactly the parameters it declares", 2)
    fn = ("S", "function", None)
    for deco, run_name in (("endpoint", "attempt_request"), ("buffered_endpoint", "process_buffered_request")):
        d = [x for x in c.p.funcs if x.name == deco and x.cls is None and x.outer is None]
        if not d:
            raise AnalysisBroken(f"no decorator {deco}")
        d = d[0]

        def mr(ev, it_):
            if ev.kind == "call" and "**" in ev.kw and ev.recv is not None and ev.recv != fn:
                return ("pydantic.ValidationError",)
            return ()

        it = c.interp(opaque=opaque_stats, may_raise=mr)
        handlers = []
        for st, k, v in c.run(it, d, RR):
            if k != "return":
                continue
            try:
                res = it.apply(st, v, [fn], {})
            except Exception as ex:
                c.undecided(RR, d.qual, f"gave up: {ex}")
                continue
            for st2, k2, v2 in res:
                if k2 == "cut":
                    continue
                handlers += registered(c, it, RR, d, st2, k2, v2, tables)
        c.functions |= it.functions
        for st2, h, key in handlers:
            hcls = c.p.classes[st2.objs[h[1]]["cls"]]
            m = c.find(hcls, run_name)
            dto = ("S", "protocol_dto", "c:" + c.cls("RequestDTO").qual)
            kw = {"protocol_dto": dto, "span_key": ("S", "span_key", None)} if run_name == "attempt_request" else \
                 {"dto": ("S", "validated", None), "span_key": ("S", "span_key", None)}
            try:
                res = it.apply(st2.copy(), ("F", m.fid, None, h), [], kw)
            except Exception as ex:
                c.undecided(RP, m.qual, f"gave up: {ex}")
                continue
            for st3, k3, v3 in res:
                called(c, it, RP, m, st3, k3, v3, fn, kw, h, len(st2.trace), run_name)
    # accepting a buffered request validates it before anything of it is stored
    cl = c.cls("BufferedRequestHandlerBase")
    at = c.find(cl, "attempt_request")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and
                  x.cls.name in ("PendingQueue", "StatisticsKeeper", "BufferedMiddlewareBase"))
    for st, k, v in c.run(it, at, RP, selfval=("S", "self", "c:" + cl.qual)):
        ps = [e for e in evs(st, "opaque") if tail(e) == "push_pending"]
        for e in ps:
            data = next((x for n, x in e.kw.items() if n not in ("span_key", "retries", "metadata") and isinstance(x, tuple)), None)
            src = provenance(st, data) if data is not None else ()
            val = [x for x in evs(st, "call", "pure") if x.res in src and ("request_dto_type" in str(x.label) or "request_dto_type" in show(x.recv or NONE) or
                                                                          any("request_dto_type" in show(a) for a in x.args if isinstance(a, tuple)))]
            if val:
                c.ok(RP)
            elif data is None:
                c.undecided(RP, at.qual, f"data stored at {e.loc}")
            elif any(t[0] == "S" and t[1] == "protocol_dto" for t in src):
                c.bad(RP, at.qual, f"{show(data)} is stored at {e.loc} without being validated as the declared type", st, k)
            else:
                c.undecided(RP, at.qual, f"stores {show(data)}")


def registered(c, it, R, d, st, k, v, tables):
    out = []
    key = ("S", "route_key")
    sets = [e for e in evs(st, "setitem") if e.args and len(e.args) > 1 and e.args[1][0] == "O" and
            st.objs[e.args[1][1]]["kind"] == "inst" and c.p.is_subclass(c.p.classes[st.objs[e.args[1][1]]["cls"]], "HandlerBase")
            and (not tables or last_attr(e.recv) in tables)]
    if k == "raise":
        if sets:
            c.bad(R, d.qual, f"registering fails although the route was put into the table at {sets[0].loc}", st, k)
        else:
            c.ok(R, 1, f"{d.name}: refused")
        return out
    if not sets:
        present = [t for t, b in st.facts.items() if t[0] == "A" and t[1] == "in" and b]
        other = [e for e in evs(st, "mut", "call") if any(isinstance(a, tuple) and a[0] == "O" for a in e.args)]
        if present and not other:
            c.bad(R, d.qual, "a route that is registered already is accepted without an error", st, k)
        elif other:
            c.undecided(R, d.qual, f"registered with {other[0].label}")
        else:
            c.bad(R, d.qual, "an endpoint is not put into the routing table", st, k)
        return out
    for e in sets:
        kk = e.args[0]
        if not (kk[0] == "S" and kk[1] == "route_key"):
            if any(t[0] == "S" and t[1] == "route_key" for t in provenance(st, kk)):
                c.bad(R, d.qual, f"an endpoint is registered under {show(kk)} instead of exactly its route", st, k)
            else:
                c.undecided(R, d.qual, f"registered under {show(kk)}")
            continue
        known = None
        for t, b in st.facts.items():
            if t[0] == "A" and t[1] == "in" and t[2] == kk and (t[3] == e.recv or last_attr(t[3]) == last_attr(e.recv) or
                                                             any(last_attr(s) == last_attr(e.recv) for s in subterms(t[3]))):
                known = b
            elif t[0] == "A" and t[1] == "is" and NONE in t[2:] and b and any(s[0] == "A" and s[1] == "get" and kk in s[2:] for s in subterms(t)):
                known = False
        caught = [x for x in evs(st, "caught") if x.n < e.n]
        if known is False:
            c.ok(R, 1, f"{d.name}: registered at {e.loc}")
            out.append((st, e.args[1], kk))
        elif known is True:
            c.bad(R, d.qual, f"the endpoint registered first for a route is replaced at {e.loc}", st, k)
        elif caught or any(any(last_attr(s) == last_attr(e.recv) for s in subterms(t)) for t in st.facts):
            c.undecided(R, d.qual, "whether the route is in the table is not known")
            out.append((st, e.args[1], kk))
        else:
            c.bad(R, d.qual, f"a route is registered at {e.loc} without looking whether it is in the table", st, k)
    if v != ("S", "function", None) and v == NONE:
        c.bad(R, d.qual, "the decorated function is lost", st, k)
    return out


def called(c, it, R, m, st, k, v, fn, kw, h, n0, run_name):
    site = m.qual
    calls = [e for e in evs(st, "call") if e.recv == fn and e.n >= n0]
    if k == "cut":
        return
    failed = [e for e in evs(st, "raise") if e.n >= n0]
    if k == "raise" or failed:
        if failed and calls and calls[0].n > failed[0].n:
            c.bad(R, site, f"the endpoint is called at {calls[0].loc} although its data did not validate ({show(failed[0].args[0])})", st, k)
        else:
            c.ok(R)
        return
    buffered = c.p.is_subclass(c.p.classes[st.objs[h[1]]["cls"]], "BufferedRequestHandlerBase")
    if not calls:
        c.bad(R, site, "the function of the endpoint is not called", st, k)
        return
    if len(calls) > 1:
        c.bad(R, site, f"the function of the endpoint is called twice, at {calls[0].loc} and {calls[1].loc}", st, k)
        return
    e = calls[0]
    if not awaited(st, e) and v != e.res:
        c.bad(R, site, f"the function of the endpoint, called at {e.loc}, is not awaited", st, k)
        return
    if "**" in e.kw or e.args:
        c.undecided(R, site, f"parameters given at {e.loc} not known")
        return
    decl = [t for t in st.facts if t[0] == "A" and t[1] == "in" and t[2][0] == "K" and
            any(s == fn for x in provenance(st, t[3]) for s in subterms(x))]
    sig = {t[2][2]: st.facts[t] for t in decl}
    avail = {"dto"} | ({"span_key"} if "span_key" in kw else set())
    for name in avail:
        if name in e.kw and sig.get(name) is not True:
            c.bad(R, site, f"{name} is given to the function at {e.loc} without it being known to declare it", st, k)
            return
        if name not in e.kw and sig.get(name) is not False:
            c.bad(R, site, f"{name} is not given to the function at {e.loc} although it may declare it", st, k)
            return
    extra = [n for n in e.kw if n not in avail and n != "protocol_dto" and sig.get(n) is not True]
    if extra:
        c.bad(R, site, f"{extra[0]} is given to the function at {e.loc} without it being known to declare it", st, k)
        return
    if "dto" in e.kw:
        x = e.kw["dto"]
        if run_name == "attempt_request":
            ty = st.heap.get((h, "request_dto_type"))
            ev = st.trace[x[1]] if x[0] == "R" and isinstance(x[1], int) and x[1] < len(st.trace) else None
            if ev is not None and tail(ev) in ("model_construct", "construct"):
                c.bad(R, site, f"dto is built at {ev.loc} without validation", st, k)
                return
            if ty is not None and not (ty[0] == "S" and ty[1] == "request_dto_type"):
                if ty[0] in ("C", "K", "X"):
                    c.bad(R, site, f"the request is validated as {show(ty)} instead of the type declared with the endpoint", st, k)
                else:
                    c.undecided(R, site, f"declared type {show(ty)}")
                return
            if ev is not None and (ev.recv == ty or ty in [a for a in ev.args] or ty in provenance(st, x)) and ("**" in ev.kw or "validate" in str(ev.label)):
                c.ok(R, 1, f"{site}: dto validated at {ev.loc}")
            elif x[0] in ("S", "K") or x[0] == "A" and x[1] == "attr":
                c.bad(R, site, f"dto is {show(x)}, which was not validated as the declared type", st, k)
                return
            elif ev is not None and ty is not None and ty not in provenance(st, x):
                c.bad(R, site, f"dto is validated at {ev.loc} as {show(ev.recv or NONE)} instead of the declared type", st, k)
                return
            else:
                c.undecided(R, site, f"dto is {show(x)}")
                return
        elif x != kw["dto"]:
            c.bad(R, site, f"dto is {show(x)} instead of the request taken from the queue", st, k)
            return
    if "span_key" in e.kw and e.kw["span_key"] != kw["span_key"]:
        c.bad(R, site, f"span_key is {show(e.kw['span_key'])} instead of that of the request", st, k)
        return
    c.ok(R)
