"""Clients: statuses, exchange discipline, retries, connections (C17, C19, C20, C21)."""
import ast

from .base import *
from .servers import tail, complete, CANCEL

# what each status means, and the exception documented for it (documentation/the_protocol.md, exceptions/response.py)
MAP = {100: "ProtocolParsingException", 200: "ClientDeniedException", 300: "PydanticValidationException", 400: "RouteKeyUnknownException",
       500: "ServerBusyException", 600: "ProcessingException", 999: "UnhandledException"}
UNKNOWN = (77, -1, 1, 101, 998, 1000)
JSONTYPES = set(dir(dict)) | set(dir(str)) | set(dir(list)) | set(dir(int))


def client_classes(c):
    """the clients an application makes: subclasses of ClientBase that have no subclass"""
    base = c.cls("ClientBase")
    out = [x for x in c.p.classes.values() if c.p.is_subclass(x, "ClientBase") and x is not base and
           not any(y is not x and c.p.is_subclass(y, x.name) for y in c.p.classes.values()) and x.qual.startswith("ekosis.")]
    if not out:
        raise AnalysisBroken("no client class")
    return sorted(out, key=lambda x: x.qual)


def abstract_names(c, cls):
    out = set()
    for m in cls.methods.values():
        for d in getattr(m.node, "decorator_list", []):
            if (d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) == "abstractmethod":
                out.add(m.name)
    return out


# ====================================================================== C17
def check_C17(c):
    R = "C17.status"
    c.rule(R, "for each status a response can carry, every path of send_message after the response arrived: success gives the response data validated as "
              "the requested type, any other known status raises the exception documented for it, any other value raises the unknown-status exception", 10)
    hidden = abstract_names(c, c.cls("ClientBase"))

    def opq(x):
        if isinstance(x, Class):
            return x.name in ("SpanKey", "SpanId")
        return x.name in hidden or (x.cls is not None and x.cls.name in ("SpanKey", "SpanId"))

    for cl in client_classes(c):
        f = c.find(cl, "send_message")
        for status in (0,) + tuple(MAP) + UNKNOWN:
            it = c.interp(opaque=opq, pin=lambda n, v: K(status) if n == "status" else None)
            for st, k, v in c.run(it, f, R, selfval=("S", "self", "c:" + cl.qual)):
                got = [e for e in evs(st, "opaque") if tail(e) in hidden]
                if k == "cut":
                    continue
                if not got:
                    if k == "return":
                        c.bad(R, cl.name, "send_message returns without having sent anything", st, k)
                    continue
                if status == 0:
                    success(c, R, cl, it, st, k, v, got[-1])
                    continue
                want = MAP.get(status, "UnknownStatusCodeException")
                if k == "return":
                    c.bad(R, cl.name, f"a response with status {status} is returned as a result", st, k)
                    continue
                for e in evs(st, "call"):
                    if e.n > got[-1].n and e.recv is not None and e.recv[0] == "A" and e.recv[1] == "item" and e.recv[3] == K("data") and \
                            tail(e) not in JSONTYPES:
                        c.bad(R, cl.name, f"status {status}: the response data is plain JSON, it has no method {tail(e)} ({e.loc})", st, k)
                xc, exact = it.exc_cls(st, v)
                name = xc.name if isinstance(xc, Class) else str(xc)
                if name == want:
                    c.ok(R, 1, f"{cl.name}: {status} -> {name}")
                elif v[0] == "E" or not exact:
                    c.undecided(R, cl.name, f"status {status} raises {show(v)}")
                else:
                    c.bad(R, cl.name, f"a response with status {status} raises {name} instead of {want}", st, k)


def success(c, R, cl, it, st, k, v, sent):
    if k == "raise":
        c.bad(R, cl.name, f"a response with the success status raises {show(v)}", st, k)
        return
    if v == NONE or v[0] == "K":
        c.bad(R, cl.name, f"a response with the success status gives {show(v)}", st, k)
        return
    src = provenance(st, v)
    typ = [t for t in src if t[0] == "S" and t[1] == "response_dto_type"]
    data = [t for t in src if t[0] == "A" and ((t[1] == "item" and t[3] == K("data")) or (t[1] == "attr" and t[3] == "data") or t[1] == "get" and K("data") in t[2:])]
    ev = next((e for e in st.trace if e.res == v and e.kind in ("call", "new", "pure", "opaque")), None)
    if sent.res not in src:
        c.bad(R, cl.name, "the result does not come from the response", st, k)
    elif not typ:
        if v[0] in ("A", "O", "R"):
            c.bad(R, cl.name, f"the result is {show(v)}: not validated as the requested type", st, k)
        else:
            c.undecided(R, cl.name, f"result {show(v)}")
    elif ev is not None and tail(ev) == "model_construct":
        c.bad(R, cl.name, "the result is made by model_construct: the response data is not validated", st, k)
    elif data or ev is not None:
        c.ok(R, 1, f"{cl.name}: success at {ev.loc if ev else '?'}")
    else:
        c.undecided(R, cl.name, f"result {show(v)}")


# ====================================================================== exchanges (C19, C20, C21)
OPEN = ("open_connection", "open_unix_connection", "create_datagram_endpoint")
WRITE = ("write", "writelines", "sendto", "send", "sendall")
READ = ("readline", "readuntil", "read", "readexactly")
CLOSE = ("close", "abort")


def opq_ids(x):
    if isinstance(x, Class):
        return x.name in ("SpanKey", "SpanId")
    return x.cls is not None and x.cls.name in ("SpanKey", "SpanId")


def io_interp(c, raises, **kw):
    """raises: fn(kind of operation, event) -> exception classes; kinds: open, read, write, wait (any other await), decode"""
    def mr(ev, it):
        if ev.kind == "await":
            src = (ev.info or {}).get("ev")
            lab = tail(src) if src is not None else tail(ev)
            if lab == "acquire":          # of a lock, as entering it with "async with": no operation on the connection
                return ()
            kind = "open" if lab in OPEN else "sleep" if lab == "sleep" else "wait"
            return raises(kind, ev)
        if ev.kind == "call" and tail(ev) in WRITE:
            return raises("write", ev)
        if ev.kind == "decode":
            return raises("decode", ev)
        return ()
    return c.interp(opaque=opq_ids, may_raise=mr, pin=lambda n, v: K(0) if n == "status" else None, **kw)


def instance(c, it, cl, retries):
    """a client as its constructor leaves it -> (state, object)"""
    init = c.p.find_method(cl, "__init__")
    kw = {}
    for p in init.node.args.args[1:] + init.node.args.kwonlyargs:
        if p.arg == "max_retries":
            kw[p.arg] = retries
    n = len(init.node.args.args) - 1 - len(init.node.args.defaults)
    for p in init.node.args.args[1:1 + n]:
        kw.setdefault(p.arg, ("S", p.arg, it.tk(c.p.ann_class(init.module, p.annotation))))
    outs = [o for o in it.apply(empty_state(), ("C", cl.qual), [], kw) if o[1] == "return"]
    if len(outs) != 1:
        return None
    st, _, obj = outs[0]
    for k in list(st.heap):  # the platform has Unix sockets
        if k[0] == obj and st.heap[k][0] == "A" and st.heap[k][1] == "hasattr":
            st.heap[k] = TRUE
    return st, obj


def call_send(c, it, st, obj, cl):
    f = c.find(cl, "send_message")
    args = {"route_key": ("S", "route_key", "x:str"), "data": ("S", "data", None), "response_dto_type": ("S", "response_dto_type", None), "span_key": NONE}
    it.steps = 0
    outs = it.apply(st, ("F", f.fid, None, obj), [], args)
    c.functions |= it.functions
    c.paths += len(outs)
    return outs


def digest(st, obj, state=()):
    """what the next request of the client depends on: its fields, and which of its connections still owe a response or are open"""
    import re
    out = []
    for (b, a), v in sorted((k, x) for k, x in st.heap.items() if k[0] != "item" and k[0] == obj):
        marks = tuple(sorted(str(state[t]) for t in subterms(v) if t in state)) if state else ()
        for t in subterms(v):
            if t[0] == "O":
                marks += tuple(sorted(a2 + re.sub(r"#\d+", "", show(x)) for (k2, a2), x in ((k, x) for k, x in st.heap.items() if k[0] != "item") if k2 == t))
        out.append((a, re.sub(r"#\d+", "", show(v)), marks))
    return tuple(out)


class IO:
    """what a path does with connections: list of (what, connection, event)"""
    def __init__(self, it, st):
        self.it, self.st, self.ops = it, st, []
        opens = {}                   # result of the call that opens -> event
        done = set()
        futures, reads = {}, {}      # future / result of a read call -> connection
        pend_send = None
        raised = {}                  # await event -> exception
        for e in st.trace:
            if e.kind == "raise" and e.info and "await" in e.info:
                raised[e.info["await"].n] = e
        self.conns = opens
        for e in st.trace:
            if e.kind == "call" and tail(e) in OPEN:
                opens[e.res] = e
            elif e.kind == "await" and e.recv in opens:
                self.ops.append(("open" if e.n not in raised else "open failed", e.recv, e))
            elif e.kind == "call" and (tail(e) in ("Future", "create_future")):
                futures[e.res] = None
            elif e.kind == "call" and tail(e) in READ and self.conn(e.recv) is not None:
                reads[e.res] = self.conn(e.recv)
            elif e.kind == "call" and tail(e) in WRITE and e.recv is not None and self.conn(e.recv) is not None:
                self.ops.append(("write", self.conn(e.recv), e))
                for f in futures:
                    if futures[f] is None:
                        futures[f] = self.conn(e.recv)
            elif e.kind == "call" and tail(e) in CLOSE and e.recv is not None and self.conn(e.recv) is not None:
                self.ops.append(("close", self.conn(e.recv), e))
            elif e.kind in ("call", "spawn") and any(isinstance(a, tuple) and t[0] == "B" and t[2] in CLOSE and self.conn(t[1]) is not None
                                                     for a in e.args for t in subterms(a)):
                t = next(t for a in e.args if isinstance(a, tuple) for t in subterms(a) if t[0] == "B" and t[2] in CLOSE)
                self.ops.append(("close", self.conn(t[1]), e))
            elif e.kind == "exit" and e.recv is not None and e.recv[0] == "R":
                src = next((x for x in st.trace if x.res == e.recv), None)
                if src is not None and tail(src) in ("closing", "aclosing") and src.args and self.conn(src.args[0]) is not None:
                    self.ops.append(("close", self.conn(src.args[0]), e))
                else:
                    self.ops.append(("release", e.recv, e))
            elif e.kind == "exit":
                self.ops.append(("release", e.recv, e))
            elif e.kind == "enter":
                self.ops.append(("acquire", e.recv, e))
            elif e.kind == "await" and e.info and e.info.get("ev") is not None and tail(e.info["ev"]) == "acquire":
                self.ops.append(("acquire", e.info["ev"].recv, e))
            elif e.kind == "call" and tail(e) == "release" and e.recv is not None:
                self.ops.append(("release", e.recv, e))
            elif e.kind == "await" and e.recv is not None:
                src = provenance(st, e.recv)
                hit = [reads[t] for t in src if t in reads] + [futures[t] for t in src if t in futures]
                hit = [x for x in hit if x is not None]
                if hit:
                    self.ops.append(("read" if e.n not in raised else "read failed", hit[0], e))

    def conn(self, v):
        """connection a value belongs to"""
        for t in subterms(v):
            if t in self.conns:
                return t
        # through the protocol object of a datagram endpoint
        for t in subterms(v):
            if t[0] == "O":
                for k, x in self.st.heap.items():
                    if k[0] == t:
                        for y in subterms(x):
                            if y in self.conns:
                                return y
        return None


def any_error(kind, ev):
    return () if kind in ("write", "decode") else ("Exception", CANCEL)


def client_runs(c, R, cl, retries=2):
    """(interp, object, outcomes) of one request of a fresh client with failures and cancellation at every await"""
    it = io_interp(c, any_error, peel=retries + 2)
    made = instance(c, it, cl, K(retries))
    if made is None:
        c.undecided(R, cl.name, "constructor")
        return None
    st, obj = made
    try:
        return it, obj, call_send(c, it, st, obj, cl)
    except Budget as e:
        c.undecided(R, cl.name, f"gave up: {e}")
        return None


def is_lock(st, v):
    """a lock that admits one holder"""
    if v is None or v[0] != "R":
        return False
    src = next((x for x in st.trace if x.res == v), None)
    if src is None:
        return False
    t = tail(src)
    if t in ("Semaphore", "BoundedSemaphore"):
        a = src.args[0] if src.args else src.kw.get("value")
        return a is None or a == K(1)
    return t in ("Lock", "Condition")


def shared(st, obj, conn, n0):
    """is this connection kept by the client from one request to the next?"""
    return any(e.kind == "set" and e.n >= n0 and e.recv == obj and e.args and mentions(e.args[0], conn) for e in st.trace)


def scan(c, R, cl, it, st, k, obj, n0, what):
    """typestate of each connection on a path: used again only when the response of the request before has been read"""
    io = IO(it, st)
    state, held, since, good = {}, [], {}, True
    for op, x, e in io.ops:
        if op == "acquire" and is_lock(st, x):
            held.append(x)
        elif op == "release" and x in held:
            held.remove(x)
            for cn, w in list(since.items()):
                if w[1] == x:
                    since.pop(cn)
        elif op == "write":
            own = [h for h in held if next(y for y in st.trace if y.res == h).n < n0]
            if state.get(x) == "pending" and e.n >= n0:
                c.bad(R, cl.name, f"{what}: a request is sent at {e.loc} on a connection whose previous request was given up: what answers that one will be taken "
                                  f"for the answer of this one", st, k)
                good = False
            if shared(st, obj, x, n0) or x not in {y for o2, y, e2 in io.ops if o2 == "open" and e2.n >= n0}:
                if not own:
                    c.bad(R, cl.name, f"{what}: the connection is shared, but {e.loc} sends on it without holding the client's lock", st, k)
                    good = False
                else:
                    since[x] = (e, own[0])
            state[x] = "pending"
        elif op in ("read", "read failed"):
            if x in since or not shared(st, obj, x, n0):
                pass
            elif state.get(x) == "pending" and any(o2 == "write" and y == x and e2.n < e.n for o2, y, e2 in io.ops):
                c.bad(R, cl.name, f"{what}: the lock is released between sending and {e.loc} where the response is read", st, k)
                good = False
            if op == "read":
                state[x] = "clean" if complete(it, st, e.recv) is not False else "pending"
    return good, state, io


def undo_late(st, obj, n0, st0):
    """the state another caller finds when it gets the lock at the first suspension after its release"""
    rel = [e.n for e in st.trace if e.n >= n0 and (e.kind == "exit" or (e.kind == "call" and tail(e) == "release")) and is_lock(st, e.recv)]
    if not rel:
        return None
    sus = next((e.n for e in st.trace if e.n > rel[-1] and e.kind == "suspend"), None)
    if sus is None:
        return None
    late = {(e.recv, e.label) for e in st.trace if e.kind == "set" and e.n > sus and e.recv == obj}
    if not late:
        return None
    t = st.copy()
    for key in late:
        before = [e for e in st.trace if e.kind == "set" and (e.recv, e.label) == key and e.n < sus]
        if before:
            t.heap[key] = before[-1].args[0]
        elif key in st0.heap:
            t.heap[key] = st0.heap[key]
    return t


def check_C19(c):
    R = "C19.exchange"
    c.rule(R, "on every path of one request after another, with failure and cancellation at every await, heartbeats included: a request is sent on a connection "
              "only when the response of the request sent on it before has been read in full; on a connection the client keeps, sending and reading happen "
              "under one lock of the client; the result comes from the response read for the request", 6)
    for cl in client_classes(c):
        r = client_runs(c, R, cl)
        if r is None:
            continue
        it, obj, outs = r
        quiet = io_interp(c, lambda kind, ev: (), peel=4)
        made = instance(c, it, cl, K(2))
        st0, n0 = made[0], len(made[0].trace)
        beats, seen = {}, set()
        for st, k, v in outs:
            if k == "cut":
                continue
            good, state, io = scan(c, R, cl, it, st, k, obj, n0, "one request")
            if good:
                c.ok(R, 1, f"{cl.name}: {k} with {len(io.ops)} operations")
            if k == "return":
                read = [e for op, x, e in io.ops if op == "read"]
                src = provenance(st, v)
                if read and read[-1].recv not in src:
                    if any(e.recv in src for e in read):
                        c.undecided(R, cl.name, "result of an earlier read")
                    else:
                        c.bad(R, cl.name, "the result does not come from the response read for the request", st, k)
                elif not read and any(op == "write" for op, x, e in io.ops):
                    c.undecided(R, cl.name, "how the response is read")
            # the next request
            dirty = [x for x in state if state[x] == "pending"]
            after = [(st.copy(), "the request after one that failed" if dirty else "the next request")]
            late = undo_late(st, obj, n0, st0) if dirty else None
            if late is not None:
                after.append((late, "a request that gets the lock before the failed one is done"))
            for t, what in after:
                d = (digest(t, obj, state), what)
                if d in seen:
                    continue
                seen.add(d)
                follow(c, R, cl, quiet, t, obj, n0, what)
            if k == "return":
                for e in evs(st, "spawn"):
                    if e.info.get("target") is not None and e.args and e.args[0][0] == "Coro":
                        beats.setdefault(e.info["target"].qual, (e, st))
        # heartbeats and any other task the client starts
        for qual, (e, st) in beats.items():
            it2 = io_interp(c, any_error, peel=1)
            try:
                houts = it2.start_coro(st.copy(), e.args[0])
            except Budget as x:
                c.undecided(R, cl.name, f"gave up: {x}")
                continue
            c.functions |= it2.functions
            c.paths += len(houts)
            for t, k, v in houts:
                good, state, io = scan(c, R, cl, it2, t, k, obj, n0, "heartbeat")
                if good:
                    c.ok(R, 1, f"{cl.name}: {qual} {k}")
                d = (digest(t, obj, state), "beat")
                if d in seen:
                    continue
                seen.add(d)
                follow(c, R, cl, quiet, t.copy(), obj, n0, "the request after a heartbeat")


def follow(c, R, cl, quiet, st, obj, n0, what):
    try:
        outs = call_send(c, quiet, st, obj, cl)
    except Budget as e:
        c.undecided(R, cl.name, f"gave up: {e}")
        return
    for t, k, v in outs:
        if k == "cut":
            continue
        good, _, _ = scan(c, R, cl, quiet, t, k, obj, n0, what)
        if good:
            c.ok(R, 1)


# ====================================================================== C20
RETRYABLE = ("asyncio.TimeoutError", "TimeoutError", "ConnectionResetError", "ConnectionAbortedError", "BrokenPipeError")
FATAL = ("ConnectionRefusedError", "ValueError", "KeyError", "FileNotFoundError")


def sends(st):
    """how often the request is sent on this path"""
    return [e for e in evs(st, "call") if tail(e) in WRITE and any(
        t[0] == "S" and t[1] == "route_key" for a in e.args if isinstance(a, tuple) for t in provenance(st, a))]


def share(st, obj, sym):
    """the same client as an object other tasks use too: its changeable attributes are forgotten at every suspension"""
    t = st.copy()
    t.heap = {tuple(substv(x, {obj: sym}) if isinstance(x, tuple) else x for x in k): substv(v, {obj: sym}) for k, v in st.heap.items()}
    return t


def check_C20(c):
    R = "C20.retry"
    c.rule(R, "for each maximum and each class of failure, on every path of a request that always fails that way: the request is sent at most the maximum number "
              "of times; a timeout or broken connection ends with the maximum-reached exception after exactly that many, any other failure is reported at once "
              "as non-retryable, cancellation goes through, and no call ends without a response or an exception", 20)
    dead, over = c.cls("CommunicationsNonRetryable").name, c.cls("CommunicationsMaxRetriesReached").name
    for cl in client_classes(c):
        free = set()                 # attributes the client changes without holding its lock
        for n in (0, 1, 2, 3):
            for x in RETRYABLE + FATAL + (CANCEL,):
                for where in ("wait", "open"):
                    if where == "open" and n not in (1, 3):
                        continue
                    it = io_interp(c, lambda kind, ev: (x,) if kind == where else (), peel=n + 3)
                    made = instance(c, it, cl, K(n))
                    if made is None:
                        c.undecided(R, cl.name, "constructor")
                        continue
                    st0, obj = made
                    n0 = len(st0.trace)
                    try:
                        outs = call_send(c, it, st0, obj, cl)
                    except Budget as e:
                        c.undecided(R, cl.name, f"gave up: {e}")
                        continue
                    for st, k, v in outs:
                        held = 0
                        for e in st.trace[n0:]:
                            taken = e.info["ev"] if e.kind == "await" and e.info and e.info.get("ev") is not None and tail(e.info["ev"]) == "acquire" else e
                            if (e.kind == "enter" or taken is not e) and is_lock(st, taken.recv):
                                held += 1
                            elif (e.kind == "exit" or e.kind == "call" and tail(e) == "release") and is_lock(st, e.recv):
                                held -= 1
                            elif e.kind == "set" and e.recv == obj and not held:
                                free.add(e.label)
                        judge(c, R, cl, it, st, k, v, n, x, where, obj, dead, over)
                        if where == "wait" and n == 1 and x == RETRYABLE[0]:
                            nothing_read(c, R, cl, it, st, k)
        for n in (1, 2):
            concurrent(c, cl, n, free)


def judge(c, R, cl, it, st, k, v, n, x, where, obj, dead, over):
    failed = [e for e in evs(st, "raise") if e.label == "from await" and e.info and "await" in e.info]
    tries = len(sends(st)) if where == "wait" else sum(1 for e in evs(st, "call") if tail(e) in OPEN)
    bad = lambda m: c.bad(R, cl.name, m, st, k)
    how = f"maximum {n}, {x} while {'connecting' if where == 'open' else 'waiting for the response'}"
    if len(sends(st)) > n:
        bad(f"{how}: the request is sent {len(sends(st))} times")
        return
    if k == "cut":
        bad(f"{how}: goes on trying after {len(failed)} failures")
        return
    if k == "return":
        if v == NONE:
            bad(f"{how}: the call ends without a response or an exception")
        elif any(tail(e) in ("json.loads", "loads", "model_validate_json") and e.args and e.args[0] == NONE for e in evs(st, "call", "pure")):
            bad(f"{how}: sending ends without a response or an exception")
        elif n == 0 and not sends(st):
            bad(f"{how}: the call gives a result although nothing was sent")
        else:
            c.ok(R)
        return
    cls, exact = it.exc_cls(st, v)
    name = cls.name if isinstance(cls, Class) else str(cls)
    if not failed:
        if n == 0 and name != over:
            bad(f"{how}: nothing is sent, and {name} is raised instead of {over}")
        else:
            c.ok(R)
        return
    if x == CANCEL:
        if "BaseException" == name or "CancelledError" in name:
            c.ok(R)
        else:
            bad(f"{how}: cancellation ends in {name}")
        return
    own = [e for e in evs(st, "raise") if e.label == "raise" and e.args and str(getattr(it.exc_cls(st, e.args[0])[0], "name", "")) not in (dead, over)]
    if own:  # a response that was empty or truncated: reported either way, after retrying or at once
        if name in (dead, over):
            c.ok(R)
        elif exact or v[0] == "E":
            bad(f"{how}, and {show(own[-1].args[0])} at {own[-1].loc}: ends in {name}")
        return
    if x in FATAL:
        if tries > 1 or len(failed) > 1:
            bad(f"{how}: a failure that is not retryable is tried again")
        elif name == dead:
            c.ok(R, 1, f"{cl.name}: {x} -> {name}")
        elif exact or v[0] == "E":
            bad(f"{how}: raises {name} instead of {dead}")
        else:
            c.undecided(R, cl.name, f"{how}: raises {show(v)}")
        return
    if name == over:
        if len(failed) < n and tries < n and k == "raise":
            bad(f"{how}: the maximum is reported after {tries} of {n} attempts")
        else:
            c.ok(R, 1, f"{cl.name}: {x}, maximum {n} -> {name} after {tries}")
    elif name == dead and len(failed) == 1:
        if "Timeout" in x:
            bad(f"{how}: a timeout is reported as {name}")
        elif where == "wait" and cl.methods is not None and not datagram(c, cl):
            bad(f"{how}: a broken connection is reported as {name}")
        else:
            c.ok(R)
    elif exact or v[0] == "E":
        bad(f"{how}: ends in {name}")
    else:
        c.undecided(R, cl.name, f"{how}: raises {show(v)}")


def nothing_read(c, R, cl, it, st, k):
    """a connection that was closed before the response gives no bytes: looking for one of them is an IndexError, which is not retried"""
    got = {e.recv for op, x, e in IO(it, st).ops if op == "read"}
    for t in {t for f in st.facts for t in subterms(f) if isinstance(t, tuple) and t[:2] == ("A", "item") and len(t) == 4 and t[3][0] == "K" and isinstance(t[3][2], int)}:
        if t[2] not in got:
            continue
        about = [f for f in st.facts if mentions(f, t[2]) and not mentions(f, t)]
        if st.facts.get(t[2]) is True:
            c.ok(R, 1, f"{cl.name}: an empty response is recognised")
        elif about or any(isinstance(h, ast.ExceptHandler) and h.type is not None and ("IndexError" in ast.unparse(h.type) or "LookupError" in ast.unparse(h.type))
                          for b in c.p.mro(cl) if isinstance(b, Class) for m in b.methods.values() for h in ast.walk(m.node)):
            c.undecided(R, cl.name, "how an empty response is recognised was not understood")
        else:
            c.bad(R, cl.name, "an empty response, of a connection that was closed, is reported as a failure that is not retryable", st, k)


def datagram(c, cl):
    return c.p.is_subclass(cl, "DatagramClientBase") or c.p.is_subclass(cl, "DatagramProtocol")


def concurrent(c, cl, n, free):
    R = "C20.shared"
    c.rule(R, "the number of attempts and the outcome of a call do not depend on attributes that concurrent calls on the same client change", 2)
    it = io_interp(c, lambda kind, ev: ("asyncio.TimeoutError",) if kind == "wait" else (), peel=n + 3, volatile=lambda attr, tk: attr in free)
    made = instance(c, it, cl, K(n))
    if made is None:
        return
    st0, obj = made
    sym = ("S", "client", "c:" + cl.qual)
    try:
        outs = call_send(c, it, share(st0, obj, sym), sym, cl)
    except Budget as e:
        c.undecided(R, cl.name, f"gave up: {e}")
        return
    for st, k, v in outs:
        s = sends(st)
        if len(s) > n:
            c.bad(R, cl.name, f"maximum {n}: with concurrent calls on the client the request can be sent {len(s)} times", st, k)
        elif k == "return" and (v == NONE or any(tail(e) in ("json.loads", "loads", "model_validate_json") and e.args and e.args[0] == NONE
                                                 for e in evs(st, "call", "pure"))):
            c.bad(R, cl.name, f"maximum {n}: with concurrent calls on the client a call can end without a response or an exception", st, k)
        elif k == "cut":
            c.bad(R, cl.name, f"maximum {n}: with concurrent calls on the client a call can go on for ever", st, k)
        else:
            c.ok(R)


# ====================================================================== C21
def check_C21(c):
    R = "C21.release"
    c.rule(R, "a connection opened on a path and not kept by the client is closed when the call ends, however it ends; no connection is opened while an earlier "
              "one of the client has not been closed", 6)
    RT = "C21.complete"
    c.rule(RT, "what a stream client takes for a response is a complete line", 2)
    for cl in client_classes(c):
        it = io_interp(c, lambda kind, ev: ("Exception", CANCEL) if kind not in ("write", "decode") else ("Exception",), peel=4)
        made = instance(c, it, cl, K(2))
        if made is None:
            c.undecided(R, cl.name, "constructor")
            continue
        st0, obj = made
        n0 = len(st0.trace)
        try:
            outs = call_send(c, it, st0.copy(), obj, cl)
        except Budget as e:
            c.undecided(R, cl.name, f"gave up: {e}")
            continue
        quiet, seen = io_interp(c, lambda kind, ev: (), peel=4), set()
        for st, k, v in outs:
            if k == "cut":
                continue
            io = IO(it, st)
            if not replaced(c, R, cl, it, st, k, io):
                continue
            for x in {y for op, y, e in io.ops if op == "open"}:
                if shared(st, obj, x, n0):
                    continue
                if any(op == "close" and y == x for op, y, e in io.ops):
                    c.ok(R, 1, f"{cl.name}: closed, {k}")
                else:
                    e = next(e for op, y, e in io.ops if op == "open" and y == x)
                    c.bad(R, cl.name, f"the connection opened at {e.loc} is not closed when the call ends ({k} {show(v) if isinstance(v, tuple) else ''})", st, k)
            if not datagram(c, cl) and k == "return":
                src = provenance(st, v)
                for op, y, e in io.ops:
                    if op == "read" and e.recv in src:
                        whole(c, RT, cl, it, st, k, e)
            if any(shared(st, obj, y, n0) for op, y, e in io.ops if op == "open"):
                live = {y: ("closed" if any(o2 == "close" and y2 == y for o2, y2, e2 in io.ops) else "open") for op, y, e in io.ops if op == "open"}
                d = digest(st, obj, live)
                if d in seen:
                    continue
                seen.add(d)
                for t, k2, v2 in call_send(c, quiet, st.copy(), obj, cl):
                    if k2 != "cut" and replaced(c, R, cl, quiet, t, k2, IO(quiet, t)):
                        c.ok(R)


def replaced(c, R, cl, it, st, k, io):
    """no connection is opened while an earlier one is still open"""
    live = set()
    for op, x, e in io.ops:
        if op == "open":
            if live:
                c.bad(R, cl.name, f"{e.loc} opens a connection although the one before was not closed", st, k)
                return False
            live.add(x)
        elif op == "close":
            live.discard(x)
    return True


def whole(c, R, cl, it, st, k, e):
    src = next((x for x in st.trace if x.kind == "call" and tail(x) in READ and (x.res == e.recv or x.res in provenance(st, e.recv))), None)
    if src is None:
        c.undecided(R, cl.name, "how the response is read")
        return
    if tail(src) in ("readuntil", "readexactly"):
        c.ok(R, 1, f"{cl.name}: {tail(src)} at {src.loc}")
        return
    r = complete(it, st, e.recv)
    if r is True:
        c.ok(R, 1, f"{cl.name}: complete line at {src.loc}")
    elif any(mentions(t, e.recv) for t in st.facts if t != e.recv and not (t[0] == "A" and t[1] == "is")) and r is None:
        c.undecided(R, cl.name, f"test of the response at {src.loc}")
    else:
        c.bad(R, cl.name, f"what is read at {src.loc} is taken for a response although the line may be incomplete", st, k)
