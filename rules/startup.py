"""Where queues are stored (C39) and how an application starts serving (C40)."""
import ast
from .base import *
from .timing import decorated, is_setting

GETTERS = {"handler": "get_buffered_handlers", "sender": "get_buffered_senders"}
KINDS = {"handler": "BufferedRequestHandlerBase", "sender": "BufferedSenderBase"}
PARTS = ("directory", "application_name", "instance_id", "route")
CHANGING = ("getpid", "time", "time_ns", "now", "utcnow", "uuid1", "uuid4", "random", "randint", "token_hex", "mkdtemp", "mkstemp",
            "gettempdir", "monotonic", "perf_counter", "getppid", "hash", "id")
LOSSY = ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "removesuffix", "removeprefix", "replace", "strip", "lstrip", "rstrip")


def tail(e):
    return str(e.label).split(".")[-1]


# ================================================================== C39
def pieces(v):
    """flat list of the parts of a path term"""
    if v[:2] == ("A", "concat"):
        return [y for x in v[2:] for y in pieces(x)]
    if v[:2] == ("A", "str") and len(v) == 3:
        return pieces(v[2])
    if v[0] == "A" and str(v[1]).split(".")[-1] in ("join",) and len(v) > 3 and "path" in str(v[1]):
        out = []
        for i, x in enumerate(v[2:]):
            out += ([K("/")] if i else []) + pieces(x)
        return out
    return [v]


def merge(ps):
    out = []
    for p in ps:
        if p[0] == "K" and out and out[-1][0] == "K" and isinstance(p[2], str) and isinstance(out[-1][2], str):
            out[-1] = K(out[-1][2] + p[2])
        else:
            out.append(p)
    return out


def part_of(p):
    if p[0] == "S" and p[1] in ("directory", "application_name", "instance_id"):
        return p[1]
    if p[0] == "S" and p[1] == "route_key" or (last_attr(p) or "").endswith("route_key"):
        return "route"
    return None


SAMPLES = ("shop.order", "store.order", "shop.return", "shop.order.new", "shop_order", "shop-order", "shoporder", "Shop.order", "a", "b", "0", "1", "10", "order", "/var/a", "/var/b", "/srv/a",
           "a_very_long_group_name_of_a_service.with_an_even_longer_operation_a", "a_very_long_group_name_of_a_service.with_an_even_longer_operation_b")


def collision(ps, n):
    """two names for which these parts of a path are the same text, if folding the text operations shows so"""
    if not ps:
        return None
    known = {}
    for text in SAMPLES:
        try:
            got = tuple(folded(p, {t: text for t in subterms(p) if part_of(t) == n}) for p in ps)
        except Unknown:
            continue
        if got in known:
            return known[got], text
        known[got] = text
    return None


def queue_files(c, R, kind):
    """-> [(role, path term, page size term, entry type, site, state)] for the queues a buffered endpoint / sender sets up"""
    cl = c.cls(KINDS[kind])
    f = c.find(cl, "setup")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("PaginatedQueue", "StatisticsKeeper"), max_paths=4000)
    out, seen = [], set()
    for st, k, v in c.run(it, f, R):
        if k != "return":
            continue
        q = st.heap.get((("S", "self", "c:" + cl.qual), "queue"))
        made = {e.recv: e for e in evs(st, "opaque") if e.label == "PaginatedQueue.__init__"}
        for role, attr in (("pending", "pending_q"), ("error", "error_q")):
            o = st.heap.get((q, attr)) if q is not None else None
            e = made.get(o)
            if e is None:
                key = (role, None)
                if key not in seen:
                    seen.add(key)
                    c.undecided(R, f.qual, f"how the {role} queue is made was not recognised")
                continue
            key = (role, e.kw.get("file_path"), e.kw.get("page_size"))
            if key not in seen:
                seen.add(key)
                out.append((role, e.kw.get("file_path"), e.kw.get("page_size"), e.kw.get("queued_type"), e.loc, st))
    return out


def check_C39(c):
    R1 = "C39.own-file"
    c.rule(R1, "the file of each of the four kinds of queue (endpoint/sender, pending/error) is named by the given directory, application name, instance and route, "
               "each used unabridged, and no two of the four names can be equal for the same route", 8)
    R2 = "C39.same-after-restart"
    c.rule(R2, "nothing but these and constants goes into the name of the file", 4)
    R3 = "C39.configured"
    c.rule(R3, "the application hands every buffered endpoint and sender its configured buffer directory, its name and its instance", 2)
    R4 = "C39.page-size"
    c.rule(R4, "the page size given to the decorator is the page size of both queues", 4)
    found = []
    for kind in KINDS:
        for role, path, page, ty, site, st in queue_files(c, R1, kind):
            if path is None:
                c.undecided(R1, site, "the queue is made without a file path")
                continue
            ps = merge(pieces(path))
            names = [part_of(p) for p in ps]
            other = [p for p, n in zip(ps, names) if n is None and p[0] != "K"]
            # -------- same after restart
            odd = False
            for n in PARTS:
                same = collision([p for p, m in zip(ps, names) if m == n or any(part_of(t) == n for t in subterms(p))], n) if n not in names else None
                if same:
                    c.bad(R1, site, f"the {role} queues of a buffered {word(kind)} use the same file for the {n.replace('_', ' ')}s {same[0]} and {same[1]}: {show(path)}", st)
                    odd = True
            for p in other:
                ch = [t for t in provenance(st, p) if t[0] in ("A", "R", "T") and any(str(x).split(".")[-1] in CHANGING for x in t[1:3] if isinstance(x, str))]
                lossy = [t for t in subterms(p) if t[0] == "A" and str(t[1]).split(".")[-1] in LOSSY]
                if ch:
                    c.bad(R2, site, f"the file of the {role} queue of a buffered {word(kind)} is named by {show(p)}, which is another one after a restart", st)
                elif lossy and any(part_of(t) for t in subterms(p)):
                    c.bad(R1, site, f"the file of the {role} queue of a buffered {word(kind)} is named by {show(p)}, which is the same for different names", st)
                else:
                    c.undecided(R2, site, f"part of the file name was not recognised: {show(p)[:80]}")
                    odd = True
            if not other:
                c.ok(R2, 1, f"{word(kind)}, {role}: {show(path)}")
            # -------- everything that tells queues apart is in it
            for n in PARTS:
                if n in names:
                    c.ok(R1, 1)
                elif any(part_of(t) == n for p in other for t in provenance(st, p)):
                    pass
                elif odd:
                    pass
                else:
                    c.bad(R1, site, f"the file of the {role} queue of a buffered {word(kind)} does not depend on the {n.replace('_', ' ')}: {show(path)}", st)
            found.append((kind, role, ps, other, site, st))
            # -------- page size
            if last_attr(page or NONE) == "page_size" or is_setting(page, "page_size"):
                c.ok(R4, 1)
            elif page is not None and (page[0] == "K" or last_attr(page) in ("max_retries", "wait_period")):
                c.bad(R4, site, f"the {role} queue of a buffered {word(kind)} gets {show(page)} as its page size", st)
            else:
                c.undecided(R4, site, f"the page size of the {role} queue was not recognised")
    for i, a in enumerate(found):
        for b in found[:i]:
            if (a[0], a[1]) == (b[0], b[1]):
                continue
            if a[3] or b[3]:
                continue
            r = may_equal(a[2], b[2])
            if r is False:
                c.ok(R1, 1)
            elif r is True:
                c.bad(R1, a[4], f"the {a[1]} queue of a buffered {word(a[0])} and the {b[1]} queue of a buffered {word(b[0])} of the same route use the same file "
                                f"({b[4]})", a[5])
            else:
                c.undecided(R1, a[4], "whether two queues use the same file was not recognised")
    for name in ("buffered_endpoint", "buffered_sender"):
        fn = c.p.function(name)
        if fn is None:
            c.undecided(R4, name, "the decorator was not found")
            continue
        hand_on(c, R4, fn, "page_size")
    configured(c, R3)


def hand_on(c, R, fn, name):
    n = 0
    for nm, v in decorated(c, R, fn, (name,)):
        n += 1
        if is_setting(v, nm):
            c.ok(R, 1, f"{fn.qual} hands on {nm}")
        elif v is not None and v[0] in ("S", "K"):
            c.bad(R, fn.qual, f"what the decorator makes gets {show(v)} as its {nm}")
        else:
            c.undecided(R, fn.qual, f"what becomes of {nm} was not recognised")
    if not n:
        c.undecided(R, fn.qual, f"what becomes of {name} was not recognised")


def word(kind):
    return "endpoint" if kind == "handler" else "sender"


def may_equal(a, b):
    """two file names of the same directory, application, instance and route: True always equal, False never, None unknown"""
    a, b = [norm(p) for p in a], [norm(p) for p in b]
    if a == b:
        return True
    # never equal if the constant ends (or beginnings) contradict each other
    for x, y in ((a, b), (a[::-1], b[::-1])):
        i = 0
        while i < min(len(x), len(y)) and x[i] == y[i]:
            i += 1
        if i == len(x) or i == len(y):
            rest = x[i:] + y[i:]
            if any(r[0] == "K" and r[2] for r in rest):
                return False        # one is the other with something constant added
            return None
        p, q = x[i], y[i]
        if p[0] == "K" and q[0] == "K":
            s, t = (p[2], q[2]) if x is a else (p[2][::-1], q[2][::-1])
            m = min(len(s), len(t))
            if s[:m] != t[:m]:
                return False
    # the same pieces but for one constant
    if len(a) == len(b) and sum(p != q for p, q in zip(a, b)) == 1:
        p, q = next((p, q) for p, q in zip(a, b) if p != q)
        if p[0] == "K" and q[0] == "K":
            return False
    return None


def norm(p):
    n = part_of(p)
    return ("part", n) if n else p


def config_attr(v):
    ch = attr_chain(v)
    if ch is None:
        return None
    return ch


def app_interp(c):
    N = ("get_buffered_handlers", "get_buffered_senders", "setup", "wait_for_shutdown", "flush", "gather_statistics", "setup_tasks")
    return c.interp(opaque=lambda x: not isinstance(x, Class) and (x.name in N or (x.cls is not None and c.p.is_subclass(x.cls, "ServerBase"))))


def app_paths(c, R, it):
    """paths of ApplicationBase.start, through what it gives to the event loop"""
    app = c.cls("ApplicationBase")
    f = c.find(app, "start")
    for st, k, v in c.run(it, f, R):
        runs = [e for e in evs(st, "call") if tail(e) in ("run", "run_until_complete") and e.args and e.args[0][0] == "Coro"]
        if not runs:
            yield st, k, v, False
        for e in runs:
            try:
                outs = it.start_coro(st.copy(), e.args[0])
            except KeyError:
                c.undecided(R, e.loc, "what is run was not recognised")
                continue
            for t, k2, v2 in outs:
                yield t, k2, v2, True


def setups(st):
    return [e for e in evs(st, "opaque", "call") if tail(e) == "setup"]


def element_kind(st, e):
    for t in provenance(st, e.recv) if e.recv is not None else ():
        for kind, g in GETTERS.items():
            if g in show(t):
                return kind
    return None


def configured(c, R):
    it = app_interp(c)
    seen = set()
    for st, k, v, run in app_paths(c, R, it):
        for e in setups(st):
            kind = element_kind(st, e)
            if kind is None or (kind, e.loc) in seen:
                continue
            f = c.find(c.cls(KINDS[kind]), "setup")
            ps = [a.arg for a in f.node.args.args][1:]
            got = dict(zip(ps, e.args)) if e.args else {}
            got.update(e.kw)
            if set(got) != set(ps) or len(ps) != 3:
                c.undecided(R, e.loc, "how the queues are set up was not recognised")
                continue
            seen.add((kind, e.loc))
            want = {"directory": ("buffer_directory",), "application_name": ("name",), "instance_id": ("instance",)}
            have = {p: last_attr(got[p]) for p in ps}
            if all(have[p] in want.get(p, ()) for p in ps):
                c.ok(R, 1, f"{e.loc}: {', '.join(show(got[p]) for p in ps)}")
                continue
            if {have[p] for p in ps} == {"buffer_directory", "name", "instance"} and have.get("directory") == "buffer_directory":
                c.ok(R, 1)
                continue
            for p in ps:
                if have[p] not in want.get(p, ()):
                    if got[p][0] == "K" or (have[p] is not None and "configuration" in show(got[p])):
                        c.bad(R, e.loc, f"a buffered {word(kind)} is set up with {show(got[p])} as its {p.replace('_', ' ')}", st, k)
                    else:
                        c.undecided(R, e.loc, f"the {p} a buffered {word(kind)} is set up with was not recognised")


# ================================================================== C40
def servers_of(c):
    """{attribute of the application: server class}"""
    app = c.cls("ApplicationBase")
    c.p.attr_type(app, "")
    out = {}
    for a in sorted(set(app.ann) | set(app.attrs) | set(app.inst_ann or ())):
        t = c.p.attr_type(app, a)
        if isinstance(t, Class) and c.p.is_subclass(t, "ServerBase"):
            out[a] = t
    return out


def coros_in(st, v, depth=0):
    if v is None or not isinstance(v, tuple) or depth > 4:
        return []
    if v and v[0] == "Coro":
        return [v]
    out = []
    if v and v[0] == "O" and v[1] in st.objs and "seq" in st.objs[v[1]]:
        for x in st.objs[v[1]]["seq"]:
            if x[0] == "one":
                out += coros_in(st, x[1], depth + 1)
    elif v and v[0] in ("A", "T"):
        for x in v[1:]:
            out += coros_in(st, x, depth + 1)
    return out


def launches(st):
    """[(n, coroutine, event)] of what is started as a task on this path"""
    out = []
    for e in st.trace:
        if e.kind == "spawn" or (e.kind == "call" and tail(e) in ("gather", "create_task", "wait", "ensure_future")):
            for a in list(e.args) + list(e.kw.values()):
                out += [(e.n, co, e) for co in coros_in(st, a)]
    return out


def uses_of(c, st, lo, srv):
    """{attr: [(n, 'enter'|'serve', event)]} of the servers entered and serving after event lo"""
    out = {a: [] for a in srv}
    for e in evs(st, "opaque"):
        if e.n <= lo or e.recv is None:
            continue
        a = last_attr(e.recv)
        if a in srv and tail(e) in ("__aenter__", "serve"):
            out[a].append((e.n, tail(e), e))
    return out


def check_C40(c):
    R1 = "C40.queues-first"
    c.rule(R1, "on every path of starting an application each buffered endpoint and each buffered sender is set up, and no server can accept a request before that", 2)
    R2 = "C40.served"
    c.rule(R2, "on every path of starting an application every configured server is entered and awaited in serving", 3)
    R3 = "C40.made"
    c.rule(R3, "for each address configured the server of that kind is made with it", 3)
    R4 = "C40.listens"
    c.rule(R4, "a server that is entered and serves listens on the address it was made with, and a failure to listen is passed on", 3)
    R5 = "C40.stops"
    c.rule(R5, "stopping a stream server closes what it listens on, and stopping a datagram server ends its serving, which closes the socket", 3)
    starting(c, R1, R2)
    making(c, R3)
    default_socket(c, R3)
    listening(c, R4, R5)


def nosuspend_setup(c, R, kind):
    """does setting up a buffer never let another task run?"""
    f = c.find(c.cls(KINDS[kind]), "setup")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("PaginatedQueue", "StatisticsKeeper"), max_paths=4000)
    return not any(evs(st, "suspend") for st, k, v in c.run(it, f, R))


def starting(c, R1, R2):
    app = c.cls("ApplicationBase")
    site = c.find(app, "start").qual
    srv = servers_of(c)
    if not srv:
        c.undecided(R2, site, "the servers of the application were not recognised")
        return
    it = app_interp(c)
    paths = list(app_paths(c, R1, it))
    quick = {kind: nosuspend_setup(c, R1, kind) for kind in KINDS}
    body = {}           # loc of a loop -> kinds set up in it
    rounds = {}
    for st, k, v, run in paths:
        if k == "cut" and run:
            rounds.setdefault(v["loc"], []).append((st, v))
    for loc, rs in rounds.items():
        for st, v in rs:
            lp = [l for l in evs(st, "loop") if l.info.get("id") == v["loop"]]
            lo = lp[-1].n if lp else -1
            ks = {element_kind(st, e) for e in setups(st) if e.n > lo and (any(a.kind == "await" and a.info.get("ev") is e for a in st.trace) or spawned(st, e))}
            # the same loop may be used for both kinds: what it goes through tells them apart
            over = frozenset(kind for kind in KINDS if lp and lp[-1].info.get("coll") is not None
                             and any(GETTERS[kind] in show(t) for t in provenance(st, lp[-1].info["coll"])))
            key = (loc, over)
            body[key] = ks if key not in body else body[key] & ks
    n = 0
    for st, k, v, run in paths:
        if not run or k != "return":
            continue
        n += 1
        # ---- servers started on this path
        ls = []
        first = None
        for ln, co, e in launches(st):
            try:
                outs = it.start_coro(st.copy(), co)
            except KeyError:
                continue
            ls.append((ln, outs))
        end = st.trace[-1].n
        direct = uses_of(c, st, -1, srv)
        for a, cl in srv.items():
            got, why = [], None
            for ln, outs in ls:
                for t, k2, v2 in outs:
                    on = [b for f, b in t.facts.items() if last_attr(f) == a]
                    u = uses_of(c, t, end, srv)[a]
                    if u:
                        kinds = {x[1] for x in u}
                        sv = [x for x in u if x[1] == "serve"]
                        if sv and not any(y.kind == "await" and y.info.get("ev") is x[2] for x in sv for y in t.trace):
                            why = f"what {cl.name}.serve() returns is not awaited at {sv[0][2].loc}"
                            continue
                        if not sv and k2 == "return":
                            why = f"{cl.name} is entered at {u[0][2].loc} but not served"
                            continue
                        got.append((ln, kinds))
            if direct[a]:
                got.append((direct[a][0][0], {x[1] for x in direct[a]}))
            if got and why:
                got = []
            if not got and not why and any(last_attr(t) == a and b is False for t, b in st.facts.items()):
                c.ok(R2, 1)     # not configured on this path
            elif not got:
                opaque_launch = [e for e in evs(st, "spawn") if not coros_in(st, e.args[0] if e.args else None)]
                if why:
                    c.bad(R2, site, why, st, k)
                elif any("server" in show(x) or "serve" in show(x) for e in opaque_launch for x in e.args) or any(l.kind == "loop" and "server" in show(l.info.get("coll") or NONE) for l in st.trace):
                    c.undecided(R2, site, f"how {cl.name} is started was not recognised")
                else:
                    c.bad(R2, site, f"a configured {cl.name} is never started", st, k)
            else:
                ok = [g for g in got if "serve" in g[1]]
                if not ok:
                    c.bad(R2, site, f"{cl.name} is entered but not served", st, k)
                else:
                    c.ok(R2, 1, f"{cl.name} served")
                    m = min(g[0] for g in got)
                    first = m if first is None else min(first, m)
        # ---- the tasks are waited for, and what one of them fails with is passed on
        ends = [e for e in evs(st, "call", "opaque") if tail(e) in ("gather", "wait") and e.label.split(".")[0] in ("asyncio", "gather", "wait")
                and any(a.kind == "await" and a.info.get("ev") is e for a in st.trace)]
        quiet = [e for e in ends if tail(e) == "wait" or e.kw.get("return_exceptions") == TRUE]
        if ends and len(quiet) == len(ends):
            e = ends[-1]
            later = [x for x in st.trace if x.n > e.n and x.kind in ("call", "opaque", "loop", "mut", "raise") and not (x.kind == "await")]
            if later:
                c.undecided(R2, e.loc, "what becomes of a failed server was not recognised")
            else:
                c.bad(R2, e.loc, "a server that fails to listen does not make the start fail: what its task raised is not looked at", st, k)
        elif ends:
            c.ok(R2)
        # ---- queues first
        for kind in KINDS:
            where = None
            loops = [l for l in evs(st, "loop") if l.info.get("coll") is not None and any(GETTERS[kind] in show(t) for t in provenance(st, l.info["coll"]))]
            for l in loops:
                if any(kind in ks for (loc, over), ks in body.items() if loc == l.loc and (not over or kind in over)):
                    where = l if where is None or l.n < where.n else where
            if where is None:
                # spread over a comprehension, map or gather
                sp = [e for e in setups(st) if element_kind(st, e) == kind]
                if sp:
                    where = sp[0]
            if where is None:
                if any("setup" in show(x) for e in evs(st, "call", "spawn", "await") for x in list(e.args)):
                    c.undecided(R1, site, f"how every buffered {word(kind)} is set up was not recognised")
                elif loops and all(l.loc not in {loc for loc, over in body} for l in loops):
                    c.undecided(R1, site, f"how every buffered {word(kind)} is set up was not recognised")
                else:
                    c.bad(R1, site, f"buffered {word(kind)}s are not set up when the application starts", st, k)
                continue
            if first is None:
                continue
            between = [e for e in evs(st, "suspend") if first < e.n < where.n]
            between = [e for e in between if not (e.label.split(".")[-1] == "setup" and all(quick.values()))]
            if between:
                c.bad(R1, site, f"a server is started before every buffered {word(kind)} is set up at {where.loc}: it can accept requests at {between[0].loc}", st, k)
            else:
                c.ok(R1, 1, f"{word(kind)}: {where.loc}")
    if not n:
        c.undecided(R1, site, "how the application starts was not recognised")


def making(c, R):
    app = c.cls("ApplicationBase")
    f = c.find(app, "__init__")
    srv = servers_of(c)
    selfv = ("S", "self", "c:" + app.qual)

    def opq(x):
        if isinstance(x, Class):
            return False
        return x.cls is not None and (c.p.is_subclass(x.cls, "ServerBase") or x.cls.name in ("StatisticsKeeper", "AppConfiguration"))

    it = c.interp(opaque=opq, may_raise=not_there)
    done, skip = set(), []
    for st, k, v in c.run(it, f, R):
        if k != "return":
            continue
        made = [e for e in evs(st, "new") if c.p.by_name.get(e.label) and c.p.is_subclass(c.p.by_name[e.label][0], "ServerBase")]
        for a, cl in srv.items():
            word_ = cl.name.lower().replace("server", "")
            mine = [e for e in made if e.label == cl.name]
            on = [b for t, b in st.facts.items() if (last_attr(t) or "").lower() == word_ and t[:2] == ("A", "attr")]
            if mine:
                e = mine[0]
                arg = (list(e.args) + list(e.kw.values()) or [NONE])[0]
                la = last_attr(arg)
                held = st.heap.get((selfv, a))
                if la is not None and la.lower() != word_ and la.lower() in [s.name.lower().replace("server", "") for s in srv.values()]:
                    c.bad(R, e.loc, f"{cl.name} is made with the configuration {show(arg)}", st, k)
                elif held is None or held != e.res and held[0] == "K":
                    c.bad(R, e.loc, f"{cl.name} is made but not kept as the application's server of that kind", st, k)
                elif la is not None and la.lower() == word_:
                    c.ok(R, 1, f"{cl.name}({show(arg)})")
                else:
                    c.undecided(R, e.loc, f"what {cl.name} is made with was not recognised")
                done.add(a)
            elif True in on:
                c.bad(R, f.qual, f"{cl.name} is not made although its address is configured", st, k)
                done.add(a)
            elif not on and not any((last_attr(t) or "").lower() == word_ for e in st.trace for x in list(e.args) + list(e.kw.values()) + [e.recv, e.res]
                                    if isinstance(x, tuple) for t in subterms(x)) \
                    and not any((last_attr(t) or "").lower() == word_ for y in st.facts for t in subterms(y)):
                skip.append((cl, st, k))
    for a, cl in srv.items():
        if a not in done:
            c.undecided(R, f.qual, f"where {cl.name} is made was not recognised")
            continue
        for cl2, st, k in skip:
            if cl2 is cl:
                c.bad(R, f.qual, f"whether the address of {cl.name} is configured is not looked at on a path of starting the application", st, k)
                break


def default_socket(c, R):
    """the socket named DEFAULT is named after the application and its instance"""
    def judge(st, k, loc, val, attrs):
        # what tells application and instance apart, under whatever names the program holds them
        got = {last_attr(t) or (str(t[1]).split(".")[-1] if t[0] == "S" else None) for t in provenance(st, val)}
        whole = all(any(g and w in g for g in got) for w in attrs)
        if val[0] == "A" and val[1] not in ("concat", "add", "format", "attr", "str") or any(t[0] in ("R", "H") for t in subterms(val)):
            c.undecided(R, loc, f"the default socket {show(val)[:80]} was not recognised")
        elif whole:
            c.ok(R)
        else:
            c.bad(R, loc, f"the default socket file {show(val)[:80]} is the same for two instances: both would listen on it", st, k)

    app = c.cls("ApplicationBase")
    f = c.find(app, "__init__")

    def opq(x):
        if isinstance(x, Class):
            return False
        return x.cls is not None and (c.p.is_subclass(x.cls, "ServerBase") or x.cls.name in ("StatisticsKeeper", "AppConfiguration"))

    for st, k, v in c.run(c.interp(opaque=opq, may_raise=not_there), f, R):
        if k != "return":
            continue
        on = [t for t, b in st.facts.items() if b and t[0] == "A" and t[1] == "eq" and K("DEFAULT") in t[2:]]
        for e in evs(st, "set"):
            if e.label == "socket_file_name" and on:
                judge(st, k, e.loc, e.args[0], ("name", "instance"))
    g = c.p.function("get_app_instance_uds")
    if g is None:
        return
    for st, k, v in c.run(c.interp(), g, R):
        if k != "return":
            continue
        on = [t for t, b in st.facts.items() if b and t[0] == "A" and t[1] == "eq" and K("DEFAULT") in t[2:]]
        for e in evs(st, "new"):
            if e.label == "ConfigUDS" and on and "socket_file_name" in e.kw and e.kw["socket_file_name"] != K("DEFAULT") and not any(e.kw["socket_file_name"] in t[2:] for t in on):
                judge(st, k, e.loc, e.kw["socket_file_name"], ("name", "instance"))


OPEN = {"start_server": ("host", "port"), "start_unix_server": ("path",), "create_datagram_endpoint": ("local_addr",), "create_server": ("host", "port"),
        "create_unix_server": ("path",)}


def listening(c, R, R5):
    srv = servers_of(c)
    for a, cl in srv.items():
        it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("RequestRouter", "StatisticsKeeper"))
        f = c.find(cl, "__init__")
        ps = [x.arg for x in f.node.args.args][1:]
        ty = c.p.ann_class(f.module, f.node.args.args[1].annotation) if f.node.args.args[1:] and f.node.args.args[1].annotation is not None else None
        conf = ("S", "configuration", it.tk(ty) if isinstance(ty, Class) else None)
        opened_any = False
        for st, k, v in it.apply(empty_state(), ("C", cl.qual), [conf], {}):
            if k != "return" or v[0] != "O":
                continue
            for t, k2, v2 in c.run(it, c.find(cl, "__aenter__"), R, selfval=v, state=st.copy()):
                if k2 != "return":
                    continue
                for u, k3, v3 in c.run(it, c.find(cl, "serve"), R, selfval=v, state=t.copy()):
                    ops = [e for e in evs(u, "call") if tail(e) in OPEN]
                    if not ops:
                        if any(b is False and "hasattr" in show(x) for x, b in u.facts.items()):
                            continue        # transport not supported by the platform
                        if k3 == "return" and not u_unknown(u):
                            c.bad(R, cl.qual, f"{cl.name} is entered and serves without listening anywhere", u, k3)
                        continue
                    for e in ops:
                        opened_any = True
                        address(c, R, cl, e, conf, u, k3)
                        if tail(e) != "create_datagram_endpoint":
                            closing(c, R5, cl, it, v, t, e)
        start_fails(c, R, cl, ty)
        if not opened_any:
            c.undecided(R, cl.qual, f"where {cl.name} listens was not recognised")
        elif any("create_datagram_endpoint" in getattr(x, "id", getattr(x, "attr", "")) for m in c.p.mro(cl) if isinstance(m, Class)
                 for x in ast.walk(m.node) if isinstance(x, (ast.Attribute, ast.Name))):
            loop_flag(c, R5, cl, it)
            datagram_closes(c, R5, cl)


def start_fails(c, R, cl, conf_type):
    """a failure to listen is not hidden: entering and serving does not go on as if nothing had happened"""
    def fails(ev, _):
        return ("OSError",) if ev.kind == "await" and any(o in ev.label for o in OPEN) else ()
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("RequestRouter", "StatisticsKeeper"),
                  may_raise=fails)
    conf = ("S", "configuration", it.tk(conf_type) if isinstance(conf_type, Class) else None)
    for st, k, v in it.apply(empty_state(), ("C", cl.qual), [conf], {}):
        if k != "return" or v[0] != "O":
            continue
        for t, k2, v2 in c.run(it, c.find(cl, "__aenter__"), R, selfval=v, state=st.copy()):
            hidden(c, R, cl, "__aenter__", t, k2)
            if k2 != "return":
                continue
            for u, k3, v3 in c.run(it, c.find(cl, "serve"), R, selfval=v, state=t.copy()):
                hidden(c, R, cl, "serve", u, k3)


def hidden(c, R, cl, name, st, k):
    failed = [e for e in evs(st, "raise") if (e.info or {}).get("await") is not None and any(o in e.info["await"].label for o in OPEN)]
    if not failed:
        return
    again = [e for e in evs(st, "call") if tail(e) in OPEN and e.n > failed[-1].n]
    if k == "raise":
        c.ok(R, 1, f"{cl.name}: a failure to listen leaves {name}")
    elif k == "return" and not again:
        ends = [e for e in evs(st, "call", "opaque") if e.n > failed[-1].n and tail(e) in ("_exit", "exit", "stop", "cancel", "set_exception", "kill")
                and not (tail(e) == "stop" and e.recv is not None and last_attr(e.recv) is None)]
        if ends:
            c.undecided(R, cl.qual, f"after a failure to listen {ends[0].label} is called at {ends[0].loc}")
        else:
            c.bad(R, cl.qual, f"{cl.name} goes on as if it listened when that fails at {failed[-1].loc}", st, k)


def datagram_closes(c, R, cl):
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("RequestRouter", "StatisticsKeeper"),
                  may_raise=lambda ev, _: ("asyncio.CancelledError",) if ev.kind == "await" and "create_datagram_endpoint" not in ev.label else ())
    for st, k, v in c.run(it, c.find(cl, "serve"), R):
        if k not in ("return", "raise"):
            continue
        for e in [e for e in evs(st, "call") if tail(e) == "create_datagram_endpoint"]:
            kept = {x.label for x in evs(st, "set") if x.n > e.n and x.args and comes_from(st, x.args[0], e.res)}
            closes = [x for x in evs(st, "call") if tail(x) in ("close", "abort") and x.n > e.n and x.recv is not None]
            if any(comes_from(st, x.recv, e.res) or last_attr(x.recv) in kept for x in closes):
                c.ok(R, 1, f"{cl.name}: {closes[-1].loc}")
            elif closes or [x for x in evs(st, "enter") if x.n > e.n]:
                c.undecided(R, e.loc, "what is closed was not recognised")
            else:
                c.bad(R, e.loc, f"{cl.name} stops serving without closing its socket", st, k)


def u_unknown(u):
    return any(e.kind == "enter" for e in u.trace) is False and not u.trace


def address(c, R, cl, e, conf, st, k):
    want = OPEN[tail(e)]
    vals = list(e.args[1:])
    got = {}
    for i, w in enumerate(want):
        if w in e.kw:
            got[w] = e.kw[w]
        elif i < len(vals):
            got[w] = vals[i]
    if "local_addr" in got:
        la = got["local_addr"]
        xs = None
        if la[0] == "O" and la[1] in st.objs and "seq" in st.objs[la[1]]:
            xs = [x[1] for x in st.objs[la[1]]["seq"] if x[0] == "one"]
        elif la[0] == "T":
            xs = list(la[1]) if len(la) == 2 and isinstance(la[1], tuple) and la[1] and isinstance(la[1][0], tuple) else list(la[1:])
        elif la[:2] == ("A", "tuple"):
            xs = list(la[2:])
        if xs is None or len(xs) != 2:
            c.undecided(R, e.loc, "the address listened on was not recognised")
            return
        got = dict(zip(("host", "port"), xs))
        want = ("host", "port")
    for w in want:
        g = got.get(w)
        if g is None:
            if e.kw or len(vals) < len(want):
                c.bad(R, e.loc, f"{cl.name} does not listen on the configured {w}", st, k)
            continue
        if w == "path":
            ms = {last_attr(t) for t in subterms(g) if mentions(t, conf)}
            need = {"directory", "socket_file_name"}
            parts = [t for t in subterms(g) if last_attr(t) in need and mentions(t, conf)]
            try:
                got_path = folded(g, {t: {"directory": "/srv/Run.d", "socket_file_name": "My.Sock"}[last_attr(t)] for t in parts if last_attr(t) in need})
            except Unknown:
                got_path = None
            if got_path is not None and os.path.normpath(str(got_path)) != "/srv/Run.d/My.Sock":
                c.bad(R, e.loc, f"{cl.name} listens on {got_path} when configured with the directory /srv/Run.d and the file My.Sock", st, k)
            elif need <= ms:
                c.ok(R, 1, f"{cl.name}: {show(g)}")
            elif g[0] == "K" or g[:2] == ("A", "concat") and all(x[0] == "K" or last_attr(x) is not None for x in g[2:]):
                c.bad(R, e.loc, f"{cl.name} listens on {show(g)}, not on the configured socket file", st, k)
            else:
                c.undecided(R, e.loc, f"the socket file was not recognised: {show(g)[:60]}")
        elif last_attr(g) == w and mentions(g, conf):
            c.ok(R, 1, f"{cl.name}: {show(g)}")
        elif g[0] == "K" or (mentions(g, conf) and last_attr(g) in ("host", "port")):
            c.bad(R, e.loc, f"{cl.name} listens on {show(g)} as its {w}", st, k)
        else:
            c.undecided(R, e.loc, f"the {w} listened on was not recognised: {show(g)[:60]}")


def closing(c, R, cl, it, obj, st, e):
    f = c.find(cl, "stop")
    for t, k, v in c.run(it, f, R, selfval=obj, state=st.copy()):
        closes = [x for x in evs(t, "call") if x.n > st.trace[-1].n and tail(x) in ("close", "abort_clients", "close_clients")]
        if k != "return":
            continue
        if any(x.recv is not None and comes_from(t, x.recv, e.res) for x in closes if tail(x) == "close"):
            c.ok(R, 1, f"{cl.name}: {closes[0].loc}")
        elif closes:
            c.undecided(R, f.qual, "what is closed was not recognised")
        else:
            c.bad(R, f.qual, f"{cl.name}.stop() leaves the server it opened at {e.loc} listening", t, k)


def loop_flag(c, R, cl, it):
    """the datagram server serves while a flag is set: stop() clears it"""
    f = c.find(cl, "stop")
    for st, k, v in it.apply(empty_state(), ("C", cl.qual), [("S", "configuration", None)], {}):
        if k != "return" or v[0] != "O":
            continue
        for t, k2, v2 in c.run(it, c.find(cl, "__aenter__"), R, selfval=v, state=st.copy()):
            if k2 != "return":
                continue
            for u, k3, v3 in c.run(it, f, R, selfval=v, state=t.copy()):
                sets = {e.label: e.args[0] for e in evs(u, "set") if e.recv == v and e.n > (t.trace[-1].n if t.trace else -1)}
                before = {h[1]: x for h, x in t.heap.items() if h[0] == v and x == K(True)}
                if any(sets.get(a) == K(False) for a in before):
                    c.ok(R, 1)
                elif not sets and not [e for e in evs(u, "call") if tail(e) in ("close", "set", "cancel", "set_result", "stop") and e.n > (t.trace[-1].n if t.trace else -1)]:
                    c.bad(R, f.qual, f"{cl.name}.stop() does not end its serving", u, k3)
                else:
                    c.undecided(R, f.qual, f"how {cl.name}.stop() ends its serving was not recognised")
