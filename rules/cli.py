"""C32: the command line tools and the server agree on every operation."""
import ast

from rules.base import *
from rules.servers import tail
from rules.management import endpoints
from rules.prometheus import holds, const

HANDLER = {"pause_receiving": "receiving.pause", "pause_processing": "processing.pause", "pause_all": "all.pause", "unpause_receiving": "receiving.unpause",
           "unpause_processing": "processing.unpause", "unpause_all": "all.unpause"}
SENDER = {"pause_sending": "send_process.pause", "unpause_sending": "send_process.unpause"}
SHARED = {"error_10": "errors.get_first_10", "reprocess_all": "errors.reprocess.all", "clear": "errors.clear", "reprocess_one": "errors.reprocess.one",
          "inspect_request": "errors.inspect_request", "pop_request": "errors.pop_request"}
ITEM = {"reprocess_one", "inspect_request", "pop_request"}
FIELDS = {"queue_route_key": "route_key", "span_key": "span_key", "type": "type", "level": "level", "size": "buff_size"}
ASK = {"level": "eco.log.level", "buff_size": "eco.log.buffer"}


def is_args(v):
    return isinstance(v, tuple) and v and (v[0] == "S" and "parse_args" in str(v[2]) or v[0] == "R" and "parse_args" in str(v))


def options_in(v):
    return {t[3] for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "attr") and is_args(t[2])}


def call_name(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None


class Tool:
    """a module that parses a command line: its entry and the options it defines"""
    def __init__(self, c, module, entry):
        self.c, self.module, self.entry = c, module, entry
        self.options, self.known, self.groups = {}, True, set()
        self.collect(module, module.tree.body, set())

    def parts(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield s

    def collect(self, module, body, seen):
        for s in self.parts(body):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    r = self.c.p.resolve_name(module, a.asname or a.name)
                    m = r[1] if r and r[0] == "var" else getattr(r[1], "module", None) if r else None
                    if m is not None and m.name.startswith("ekosis.cli") and m.name not in seen and m is not self.module:
                        seen.add(m.name)
                        self.collect(m, m.tree.body, seen)
                continue
            for n in ast.walk(s):
                if not isinstance(n, ast.Call):
                    continue
                name = call_name(n)
                if name == "add_argument":
                    self.add(module, n)
                elif isinstance(n.func, ast.Name):
                    r = self.c.p.resolve_name(module, n.func.id)
                    f = r[1] if r and r[0] == "func" else None
                    if f is not None and f.module.name.startswith("ekosis.cli") and f.fid not in seen:
                        seen.add(f.fid)
                        if not isinstance(f.node, ast.AsyncFunctionDef):
                            self.collect(f.module, f.node.body, seen)

    def add(self, module, n):
        names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
        kw = {k.arg: k.value for k in n.keywords}
        if len(names) != len(n.args) or None in kw or not names:
            self.known = False
            return
        dest = kw["dest"].value if "dest" in kw and isinstance(kw["dest"], ast.Constant) else \
            next((x[2:] for x in names if x.startswith("--")), names[0].lstrip("-")).replace("-", "_")
        self.options.setdefault(dest, []).append((names, kw, n, module))

    def group_of(self, module, n):
        """'group', 'parser' or None: what the option was added to"""
        r = n.func.value if isinstance(n.func, ast.Attribute) else None
        if not isinstance(r, ast.Name):
            return None
        for s in module.tree.body:
            t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and t.id == r.id and isinstance(s.value, ast.Call):
                return {"add_mutually_exclusive_group": "group", "ArgumentParser": "parser", "add_argument_group": "parser"}.get(call_name(s.value))
        q = self.c.p.resolve_name(module, r.id)
        if q and q[0] == "var" and isinstance(q[3], ast.Call):
            return {"add_mutually_exclusive_group": "group", "ArgumentParser": "parser", "add_argument_group": "parser"}.get(call_name(q[3]))
        return None


def tools(c):
    out = []
    for m in c.p.modules.values():
        if not m.name.startswith("ekosis.cli"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and call_name(n) == "run" and n.args and isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name):
                r = c.p.resolve_name(m, n.args[0].func.id)
                if r and r[0] == "func":
                    out.append(Tool(c, m, r[1]))
    return out


def fields_of(c, cls):
    """name -> required?"""
    out = {}
    for b in reversed([x for x in c.p.mro(cls) if isinstance(x, Class)]):
        for s in b.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out[s.target.id] = s.value is None
    return out


def dto_class(c, v):
    return c.p.classes.get(v[1]) if isinstance(v, tuple) and v and v[0] == "C" else None


def until_exit(st):
    """the events up to the end of the process"""
    out = []
    for e in st.trace:
        if e.kind == "call" and e.label in ("sys.exit", "exit", "os._exit", "quit") or e.kind == "call" and tail(e) == "error" and "parser" in (e.label or ""):
            return out, True
        out.append(e)
    return out, False


def makers(c):
    """functions of the tools that build a client"""
    return {f.fid for f in c.p.funcs if f.module.name.startswith("ekosis.cli") and f.cls is None and getattr(f.node, "returns", None) is not None
            and "ClientBase" in ast.dump(f.node.returns)}


def is_option(v):
    return v[:2] == ("A", "attr") and len(v) == 4 and is_args(v[2])


def option_fact(st, name):
    """True, False or None: what the path says about a flag"""
    for t, b in st.facts.items():
        if isinstance(t, tuple) and t[:2] == ("A", "attr") and is_args(t[2]) and t[3] == name:
            return b
    return None


def option_term(st, name, trace):
    for x in list(st.facts) + [y for e in trace for y in list(e.args) + list(e.kw.values()) if isinstance(y, tuple)]:
        for t in subterms(x):
            if isinstance(t, tuple) and t[:2] == ("A", "attr") and is_args(t[2]) and t[3] == name:
                return t
    return None


def check_tool(c, tool, served, RO, RD, RT):
    name = tool.module.name
    opts = tool.options
    site = tool.entry.qual
    # duplicate option strings: the parser refuses to start
    if tool.known:
        strings = Counter(x for lst in opts.values() for names, _, _, _ in lst for x in names)
        dup = [x for x, n in strings.items() if n > 1]
        for x in dup:
            c.bad(RO, name, f"the option {x} is defined twice: the tool cannot start")
        if not dup:
            c.ok(RO, 1, f"{name}: {len(strings)} option strings")
    kind = "handler" if any(o in opts for o in HANDLER) else "sender" if any(o in opts for o in SENDER) else None
    table = {}
    if kind:
        table = {o: f"eco.buffered_{kind}.{r}" for o, r in list((HANDLER if kind == "handler" else SENDER).items()) + list(SHARED.items())}
        for o in table:
            if o not in opts:
                if tool.known:
                    c.bad(RO, name, f"there is no option --{o}")
                continue
            for names, kw, n, module in opts[o]:
                act = kw.get("action")
                if isinstance(act, ast.Constant) and act.value == "store_false":
                    c.bad(RO, name, f"--{o} asks for the opposite")
                if tool.group_of(module, n) == "parser":
                    c.bad(RO, name, f"--{o} can be combined with another operation, of which only one is done")
    mk = makers(c)
    it = c.interp(unroll=24, opaque=lambda x: isinstance(x, Class) and x.name.endswith("Client") or getattr(x, "name", "") == "send_message" or getattr(x, "fid", None) in mk
                  or getattr(getattr(x, "cls", None), "name", "").startswith("Span"))
    outs = c.run(it, tool.entry, RD)
    reads = set()
    asked = {o: False for o in ASK}
    for st, k, v in outs:
        trace, exits = until_exit(st)
        for x in list(st.facts) + [y for e in trace for y in list(e.args) + list(e.kw.values()) if isinstance(y, tuple)]:
            reads |= options_in(x)
        for e in st.trace:
            if e.kind == "read" and e.recv is not None and is_args(e.recv):
                reads.add(e.label)
        for e in trace:   # fields of models built from the options
            for x in e.kw.values():
                f = entry_fields(it, st, x) if isinstance(x, tuple) and x and x[0] == "O" else None
                for y in (f or {}).values():
                    reads |= options_in(y)
        if k == "raise":
            c.undecided(RD, site, f"raises {show(v)}")
            continue
        if k == "cut":
            c.undecided(RD, site, "loop over the options not recognised")
            continue
        sends = [e for e in trace if e.kind in ("opaque", "call") and tail(e) == "send_message"]
        routes = [const(e.kw.get("route_key", NONE)) for e in sends]
        swapped = [e for e in sends if e.recv is not None and e.recv[:2] == ("K", "str")]
        if swapped:
            c.bad(RT, site, f"a request is sent through {show(swapped[0].recv)[:60]}, which is not the client", st, k)
            continue
        if None in routes:
            c.undecided(RD, site, "route not recognised")
            continue
        # ---- types and arguments
        for e, r in zip(sends, routes):
            fine = True
            if e.recv is not None and (e.recv[0] == "K" or is_option(e.recv)):
                c.bad(RT, site, f"the request to {r} is sent through {show(e.recv)[:60]}, which is not the client", st, k)
                continue
            if r not in served:
                c.bad(RT, site, f"a request is sent to {r}, which no endpoint serves", st, k)
                continue
            req, resp = served[r]
            data = e.kw.get("data")
            got = it.typeof(st, data)
            cls = c.p.classes.get(got[2:]) if isinstance(got, str) and got.startswith("c:") else None
            if cls is None:
                c.undecided(RT, site, f"{r}: request not recognised")
                continue
            if req is not None and not (cls is req or c.p.is_subclass(cls, req.name)):
                c.bad(RT, site, f"{r} is sent a {cls.name}, but the endpoint reads a {req.name}", st, k)
                fine = False
            want = dto_class(c, e.kw.get("response_dto_type"))
            if want is not None and resp and want.qual not in resp:
                c.bad(RT, site, f"the response of {r} is read as a {want.name}, but the endpoint sends a {sorted(resp)[0].split('.')[-1]}", st, k)
                fine = False
            f = entry_fields(it, st, data) or {}
            if req is not None:
                for need, required in fields_of(c, req).items():
                    if required and need not in f and cls is req:
                        c.bad(RT, site, f"the request to {r} lacks {need}", st, k)
                        fine = False
            for fld, val in f.items():
                o = FIELDS.get(fld)
                used = options_in(val) | {x for y in provenance(st, val) for x in options_in(y)}
                if o is None or not (o in opts or used):
                    continue
                if used and o not in used:
                    c.bad(RT, site, f"{fld} of the request to {r} is --{sorted(used)[0]}, not --{o}", st, k)
                    fine = False
                elif not used and val[0] == "K":
                    c.bad(RT, site, f"{fld} of the request to {r} is always {show(val)}, whatever --{o} is", st, k)
                    fine = False
            if want is not None:
                have = set(fields_of(c, want)) | set(want.methods)
                for x in [y for q in trace for y in list(q.args) + list(q.kw.values()) if isinstance(y, tuple)] + list(st.facts):
                    for t in subterms(x):
                        if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2][0] == "R" and e.res is not None and (t[2] == e.res or t[2][1] == e.res[1]) and \
                                t[3] not in have and not t[3].startswith(("model_", "__")) and t[3] not in ("json", "dict", "copy"):
                            c.bad(RT, site, f"the tool reads {t[3]} of the response to {r}, which a {want.name} does not have", st, k)
                            fine = False
            if fine:
                c.ok(RT, 1, f"{site}: {r}")
        # ---- dispatch
        if sends and exits and any(e.kind == "call" and e.label in ("sys.exit", "exit", "os._exit", "quit") and e.args and e.args[0] not in (K(0), NONE) for e in st.trace):
            c.bad(RD, site, f"the tool fails after it has asked for {', '.join(routes)}", st, k)
            continue
        if table:
            here = [o for o in table if option_fact(st, o) is True]
            if len(here) > 1:
                continue
            cand = here or [None] + [o for o in table if option_fact(st, o) is None]
            if not here and option_fact_free(st, table):
                cand = [None] + [o for o in table if option_fact(st, o) is None]
            if exits and not sends:
                ok = any(option_fact(st, o) is False or none_fact(st, o) for o in ("route_key", "span_key"))
                if ok:
                    continue
            if not sends and option_fact(st, "route_key") is False:
                continue
            if not sends and option_fact(st, "span_key") is False and all(o in ITEM or o is None for o in cand):
                continue
            for o in cand:
                want = table[o] if o else f"eco.buffered_{kind}.data"
                if o is None and not sends and any_true_left(st, table):
                    continue
                if routes != [want]:
                    what = f"--{o}" if o else "no operation"
                    c.bad(RD, site, f"with {what} the tool " + (f"asks for {', '.join(routes)}" if routes else "does nothing") + f" instead of {want}", st, k)
                    break
            else:
                c.ok(RD, 1, f"{site}: {routes}")
        elif "type" in opts:
            if exits and not sends:
                continue
            if routes != ["eco.statistics.get"]:
                c.bad(RD, site, f"the tool asks for {routes} instead of the statistics", st, k)
            else:
                c.ok(RD, 1, f"{site}: {routes}")
        else:
            for o, r in ASK.items():
                if o not in opts:
                    continue
                t = option_term(st, o, trace)
                sent = r in routes
                if t is None:
                    if sent or exits:
                        continue
                    if any(option_term(x[0], o, x[0].trace) is not None for x in outs):
                        c.bad(RD, site, f"--{o} is not looked at when {', '.join('--' + y for y in sorted(ASK) if ASK[y] in routes) or 'nothing else'} is given", st, k)
                    else:
                        c.undecided(RD, site, f"--{o} not read")
                    continue
                given = holds(st.facts, t, 0) if o == "buff_size" else holds(st.facts, t, "debug")
                absent = holds(st.facts, t, None)
                if given is None or absent is None:
                    c.undecided(RD, site, f"conditions on --{o} not recognised")
                    continue
                if exits and not sends:
                    continue
                if given and not sent:
                    c.bad(RD, site, f"with --{o}{' 0' if o == 'buff_size' else ''} nothing is sent to {r}", st, k)
                elif absent and sent and not given:
                    c.bad(RD, site, f"without --{o} a request is sent to {r}", st, k)
                elif routes.count(r) > 1:
                    c.bad(RD, site, f"with --{o} {r} is asked twice", st, k)
                else:
                    c.ok(RD, 1, f"{site}: {o}")
    # ---- options read exist
    for f in [f for f in c.p.funcs if f.fid in mk]:
        it2 = c.interp(opaque=lambda x: isinstance(x, Class) and x.name.endswith("Client"))
        p = f.node.args.args[0].arg if f.node.args.args else None
        for st, k, v in c.run(it2, f, RO):
            for x in list(st.facts) + [y for e in st.trace for y in list(e.args) + list(e.kw.values()) if isinstance(y, tuple)]:
                for t in subterms(x):
                    if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2][0] == "S" and t[2][1] == p:
                        reads.add(t[3])
    if tool.known:
        for o in sorted(reads):
            if o not in opts and not o.startswith("_"):
                c.bad(RO, site, f"the tool reads the option {o}, which it does not define")
            else:
                c.ok(RO, 1, f"{name}: --{o}")
    else:
        c.undecided(RO, name, "options not recognised")


def none_fact(st, o):
    return any(b and t[:2] == ("A", "is") and o in options_in(t) for t, b in st.facts.items() if isinstance(t, tuple))


def option_fact_free(st, table):
    return any(option_fact(st, o) is None for o in table)


def any_true_left(st, table):
    """the path was only taken because some flag is set, although none is known to be: it cannot be taken when all are unset"""
    return any(isinstance(t, tuple) and t[:2] in (("A", "any"), ("A", "or")) and b for t, b in st.facts.items())


def check_client(c, R):
    for f in [f for f in c.p.funcs if f.fid in makers(c)]:
        it = c.interp(opaque=lambda x: isinstance(x, Class) and x.name.endswith("Client"))
        for st, k, v in c.run(it, f, R):
            trace, exits = until_exit(st)
            if exits or k != "return":
                continue
            news = [e for e in trace if e.kind in ("new", "opaque", "call") and (e.label or "").split(".")[-1].endswith("Client")]
            if len(news) != 1:
                c.undecided(R, f.qual, "client not recognised")
                continue
            n = news[0].label.split(".")[-1]
            proto = next((p for p in ("TCP", "UDP", "UDS") if p in n), None)
            yes, no = set(), set()
            for t, b in st.facts.items():
                if isinstance(t, tuple) and t[:2] == ("A", "eq") and any(last_attr(x) == "server_type" for x in t[2:]):
                    x = next((const(y) for y in t[2:] if const(y)), None)
                    (yes if b else no).add(x)
            rest = yes or {"tcp", "udp", "uds"} - no
            if proto is None or not any(isinstance(t, tuple) and mentions_name(t, "server_type") for t in st.facts):
                c.undecided(R, f.qual, "choice of the client not recognised")
                continue
            wrong = sorted(x for x in rest if x != proto.lower())
            if wrong and len(rest) == 1 or wrong and len(rest) > 1 and all(t[:2] == ("A", "eq") for t in st.facts if isinstance(t, tuple) and mentions_name(t, "server_type")):
                c.bad(R, f.qual, f"with --server_type {wrong[0]} the tool talks {proto}", st, k)
                continue
            given = list(news[0].args) + list(news[0].kw.values())
            if not any(mentions_name(x, "server_details") for x in given if isinstance(x, tuple)):
                c.bad(R, f.qual, f"--server_details is not used for {proto}", st, k)
                continue
            cl = c.p.by_name.get(n)
            init = c.p.find_method(cl[0], "__init__") if cl else None
            if init is not None:
                value, want = ("/tmp/run/some.sock", {"server_path": "/tmp/run/some.sock"}) if proto == "UDS" else ("some.host:1234", {"server_host": "some.host", "server_port": 1234})
                bound = dict(zip([a.arg for a in init.node.args.args[1:]], news[0].args)) | dict(news[0].kw)
                det = {x: value for t in given if isinstance(t, tuple) for x in subterms(t) if isinstance(x, tuple) and x[:2] == ("A", "attr") and x[3] == "server_details"}
                off = None
                for p, w in want.items():
                    try:
                        g = folded(bound[p], det) if p in bound else None
                    except Unknown:
                        continue
                    if g != w:
                        off = f"{p} {g!r}"
                        break
                if off:
                    c.bad(R, f.qual, f"with --server_details {value} the tool talks {proto} to {off}", st, k)
                    continue
            c.ok(R, 1, f"{f.qual}: {proto}")


def mentions_name(t, name):
    return any(isinstance(x, tuple) and x[:2] == ("A", "attr") and x[3] == name for x in subterms(t))


def check_choices(c, R, tools_, ends):
    for tool in tools_:
        for o, lst in tool.options.items():
            for names, kw, n, module in lst:
                ch = kw.get("choices")
                if not isinstance(ch, (ast.List, ast.Tuple, ast.Set)) or not all(isinstance(x, ast.Constant) for x in ch.elts):
                    continue
                vals = [x.value for x in ch.elts]
                if o == "level":
                    cls = c.p.classes.get(next((q for q in c.p.classes if q.endswith(".LogLevelRequestDto")), ""))
                    ann = next((s.annotation for s in cls.node.body if isinstance(s, ast.AnnAssign) and s.target.id == "level"), None) if cls else None
                    en = c.p.resolve_name(cls.module, ann.id) if isinstance(ann, ast.Name) else None
                    if not en or en[0] != "class":
                        continue
                    ok = {s.value.value for s in en[1].node.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant)}
                    if not ok:
                        continue
                    bad = [v for v in vals if v not in ok]
                    for v in bad:
                        c.bad(R, tool.module.name, f"--{o} {v} is refused by the server")
                    if not bad:
                        c.ok(R, 1, f"--{o}: {len(vals)} choices")
                elif o == "type":
                    for f, d in ends.get("eco.statistics.get", []):
                        it = c.interp(opaque=lambda x: getattr(getattr(x, "cls", None), "name", "") == "StatisticsKeeper" or getattr(x, "name", "") == "StatisticsKeeper")
                        for st, k, v in c.run(it, f, R):
                            asks = [tail(e) for e in evs(st, "opaque", "call") if tail(e).startswith("get_")]
                            eqs = {}
                            unknown = False
                            for t, b in st.facts.items():
                                if isinstance(t, tuple) and t[:2] == ("A", "eq") and any(last_attr(x) == "type" for x in t[2:]):
                                    eqs[next((const(x) for x in t[2:] if const(x)), None)] = b
                                elif isinstance(t, tuple) and mentions_name(t, "type"):
                                    unknown = True
                            if unknown or k != "return" or len(asks) != 1:
                                c.undecided(R, f.qual, "choice of the statistics not recognised")
                                continue
                            for val in vals:
                                if any(b != (x == val) for x, b in eqs.items()):
                                    continue
                                want = {"current": "get_current", "gathered": "get_last_gathered", "full": "get_full"}.get(val)
                                if want and not asks[0].startswith(want):
                                    c.bad(R, f.qual, f"for type {val} the endpoint answers with {asks[0]}", st, k)
                                elif want:
                                    c.ok(R, 1, f"type {val}: {asks[0]}")


def check_C32(c):
    RO, RD, RT, RC = "options", "dispatch", "types", "connection"
    c.rule(RO, "every option a tool reads is one it defines; no option string is defined twice; each operation of a queue has its option, in one exclusive group", 20)
    c.rule(RD, "on every path through a tool, whichever options it can be taken with, the one request sent goes to the route of the operation named by the option", 20)
    c.rule(RT, "every request goes to a route that is served, as the type the endpoint reads, carrying the options the user gave, and is answered with the type the "
               "tool reads; every choice of an option is one the server tells apart", 20)
    c.rule(RC, "the client is that of the server type, made of the server details", 3)
    ts = tools(c)
    ends = endpoints(c)
    served = {}
    for r, lst in ends.items():
        f, d = lst[0]
        a = d.args[1] if len(d.args) > 1 else next((k.value for k in d.keywords if k.arg == "request_dto_type"), None)
        q = c.p.resolve_name(f.module, a.id) if isinstance(a, ast.Name) else None
        req = q[1] if q and q[0] == "class" else None
        resp = set()
        if r and r.startswith("eco."):
            it = c.interp(opaque=lambda x: getattr(getattr(x, "cls", None), "name", "").endswith(("Keeper", "Logger", "List")))
            for st, k, v in c.run(it, f, RT):
                if k == "return":
                    t = it.typeof(st, v)
                    if isinstance(t, str) and t.startswith("c:"):
                        resp.add(t[2:])
                    else:
                        resp = set()
                        break
        served[r] = (req, resp)
    for t in ts:
        check_tool(c, t, served, RO, RD, RT)
    check_choices(c, RT, ts, ends)
    check_client(c, RC)
