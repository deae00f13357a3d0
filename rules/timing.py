"""C37: every wait is bounded by, or as long as, what was configured for it.

Objects are made by their constructors with symbolic settings, and every path of what they do is followed from there: the duration
given to each wait is then a term over the settings, and is compared with the setting that is documented for that wait."""
import ast

from .base import *
from .servers import tail
from .clients import client_classes, io_interp, call_send, IO, sends, WRITE
from .stats import Keeper, owner, ADDERS, selfattrs


def settings(c, it, cl, fixed=None):
    """an object made by its constructor with every argument symbolic -> [(state, object)]"""
    init = c.p.find_method(cl, "__init__")
    kw = {}
    for p in init.node.args.args[1:] + init.node.args.kwonlyargs:
        kw[p.arg] = (fixed or {}).get(p.arg) or ("S", p.arg, it.tk(c.p.ann_class(init.module, p.annotation)))
    out = []
    for st, k, obj in it.apply(empty_state(), ("C", cl.qual), [], kw):
        if k == "return":
            for h in list(st.heap):
                if h[0] == obj and st.heap[h][0] == "A" and st.heap[h][1] == "hasattr":
                    st.heap[h] = TRUE
            out.append((st, obj))
    return out, {n for n in kw}


def is_setting(v, name):
    return isinstance(v, tuple) and v[0] == "S" and v[1] == name


def judge_wait(v, name):
    """a duration compared with the setting it should be: True | None (not recognised) | what is wrong"""
    while isinstance(v, tuple) and v[:2] == ("A", "float"):
        v = v[2]
    if is_setting(v, name):
        return True
    if v is None or v == NONE:
        return "unlimited"
    if v[0] == "K":
        return f"{show(v)}, whatever was configured"
    if v[0] == "S":
        return f"the {v[1]}"
    l = lin(v)
    if l is not None and all(t[0] == "S" for t in l[1]):
        return f"{show(v)}"
    if v[0] == "A" and v[1] in ("int", "round", "abs", "max", "min", "mul", "div", "truediv", "floordiv", "pow", "or", "and"):
        if v[1] in ("or", "max", "min") and any(is_setting(x, name) for x in v[2:]):
            return f"{show(v)}, not the setting itself"
        if all(t[0] in ("A", "S", "K", "L") for t in subterms(v)) and any(t[0] == "S" for t in subterms(v)):
            return f"{show(v)}"
    return None


def limit_of(st, e):
    """the time limit an await is subject to -> (found, duration)"""
    src = (e.info or {}).get("ev")
    if src is not None and tail(src) in ("wait_for", "wait"):
        t = src.kw.get("timeout", src.args[1] if len(src.args) > 1 and tail(src) == "wait_for" else NONE)
        return True, t
    stack = []
    for x in st.trace:
        if x.n >= e.n:
            break
        if x.kind == "enter":
            stack.append(x.recv)
        elif x.kind == "exit" and x.recv in stack:
            stack.remove(x.recv)
    for r in reversed(stack):
        x = next((y for y in st.trace if y.res == r and y.kind in ("call", "pure")), None)
        if x is not None and tail(x) in ("timeout", "async_timeout"):
            return True, x.args[0] if x.args else x.kw.get("delay", NONE)
        if x is not None and tail(x) in ("timeout_at", "fail_after", "move_on_after"):
            return True, ("R", -1, "deadline")
    return False, None


def check_C37(c):
    R1, R2, R3, R4, R5 = "response-timeout", "retry-delay", "heartbeat-period", "sending-period", "gathering-period"
    c.rule(R1, "on every path of every client each wait for a response is limited, and the limit is the timeout the client was made with", 5)
    c.rule(R2, "on every path of every client that sends a request again, it waits the retry delay it was made with in between", 5)
    c.rule(R3, "a client with a heartbeat period starts its heartbeat with its first request; in every round the heartbeat is sent when nothing was sent for the period, "
               "and the round waits for the period", 2)
    c.rule(R4, "a buffered sender with a waiting period waits exactly that period around every message it sends", 2)
    c.rule(R5, "a period is recorded only after the gathering period has passed, second by second", 1)
    for cl in client_classes(c):
        for raised in (("TimeoutError",), ()):
            it = io_interp(c, lambda kind, ev: raised if kind == "wait" else (), peel=4)
            made, names = settings(c, it, cl, {"max_retries": K(3)})
            if len(made) != 1 or "timeout" not in names:
                c.undecided(R1, cl.name, "how the client is made was not recognised")
                continue
            st0, obj = made[0]
            n0 = len(st0.trace)
            try:
                outs = call_send(c, it, st0, obj, cl)
            except Budget as e:
                c.undecided(R1, cl.name, f"gave up: {e}")
                continue
            beats = {}
            for st, k, v in outs:
                waits(c, R1, cl, it, st, k)
                delays(c, R2, cl, it, st, k)
                for e in evs(st, "spawn"):
                    if e.n >= n0 and e.args and e.args[0][0] == "Coro":
                        if k == "return" or e.loc not in beats:
                            beats[e.loc] = (e, st)
                if k == "return" and "heartbeat_period" in names and not [e for e in evs(st, "spawn") if e.n >= n0]:
                    if any(x.kind == "call" and tail(x) in ("call_later", "call_at", "run_soon") for x in st.trace):
                        c.undecided(R3, cl.name, "how the heartbeat is started was not recognised")
                    else:
                        c.bad(R3, cl.name, "no heartbeat is started with the first request", st, k)
            if "heartbeat_period" in names:
                for e, st in beats.values():
                    heartbeat(c, R3, R1, cl, e, st)
                    heartbeat_fails(c, R3, cl, e, st)
                if len(beats) == 1:
                    again(c, R3, cl, obj, *next(iter(beats.values())))
    sender(c, R4)
    gathering(c, R5)


def waits(c, R, cl, it, st, k):
    io = IO(it, st)
    for op, x, e in io.ops:
        if op not in ("read", "read failed"):
            continue
        found, t = limit_of(st, e)
        if not found:
            c.bad(R, e.loc, f"{cl.name} waits for a response without a limit", st, k)
            continue
        r = judge_wait(t, "timeout")
        if r is True:
            c.ok(R, 1, f"{cl.name}: {e.loc} limited by the timeout")
        elif r is None:
            c.undecided(R, e.loc, f"the limit of a wait was not recognised: {show(t)[:60]}")
        else:
            c.bad(R, e.loc, f"{cl.name} waits for a response for {r} instead of the timeout", st, k)


def sleeps(st, a, b):
    return [e for e in st.trace if a < e.n < b and e.kind == "await" and e.info and e.info.get("ev") is not None and tail(e.info["ev"]) == "sleep"]


def delays(c, R, cl, it, st, k):
    ss = sends(st)
    for a, b in zip(ss, ss[1:]):
        between = sleeps(st, a.n, b.n)
        zero = any(it.truth(st, A(op, s, K(0))) is val for s in [t for f in st.facts for t in subterms(f) if is_setting(t, "retry_delay")]
                   for op, val in (("gt", False), ("le", True), ("lt", True), ("eq", True)))
        if not between:
            other = [e for e in st.trace if a.n < e.n < b.n and e.kind == "await" and e.info and e.info.get("ev") is not None
                     and any(is_setting(t, "retry_delay") for x in list(e.info["ev"].args) + list(e.info["ev"].kw.values()) if isinstance(x, tuple) for t in subterms(x))]
            if other:
                c.undecided(R, b.loc, "how the client waits before it tries again was not recognised")
            elif not zero:
                c.bad(R, b.loc, f"{cl.name} sends a request again without waiting", st, k)
            continue
        ds = [e.info["ev"].args[0] if e.info["ev"].args else e.info["ev"].kw.get("delay", NONE) for e in between]
        if len(ds) > 1:
            c.bad(R, between[1].loc, f"{cl.name} waits more than once before it sends a request again", st, k) if all(is_setting(d, "retry_delay") for d in ds) \
                else c.undecided(R, between[1].loc, "several waits between two attempts")
            continue
        r = judge_wait(ds[0], "retry_delay")
        if r is True:
            c.ok(R, 1, f"{cl.name}: {between[0].loc}")
        elif r is None:
            c.undecided(R, between[0].loc, f"the wait before a retry was not recognised: {show(ds[0])[:60]}")
        else:
            c.bad(R, between[0].loc, f"{cl.name} waits {r} instead of the retry delay before it sends a request again", st, k)


CLOCKS = ("time", "monotonic", "perf_counter")


def again(c, R, cl, obj, e, st):
    """a heartbeat that ended with an error is started again with a later request"""
    it = io_interp(c, lambda kind, ev: ("OSError",) if kind in ("open", "wait") else (), peel=1)
    try:
        ends = [k for t, k, v in it.start_coro(st.copy(), e.args[0]) if k == "raise"]
        if not ends:
            c.ok(R, 1, f"{cl.name}: no failure ends the heartbeat")
            return
        it = io_interp(c, lambda kind, ev: (), peel=1)
        st1 = st.copy()
        n1 = len(st1.trace)
        outs = [(t, k) for t, k, v in call_send(c, it, st1, obj, cl) if k == "return"]
    except Budget as x:
        c.undecided(R, cl.name, f"gave up: {x}")
        return
    task = e.res
    asked = [t for t, k in outs if any(f[:2] in (("A", "done"), ("A", "cancelled"), ("A", "exception")) and mentions(f, task) for f in t.facts)]
    if not outs:
        c.undecided(R, cl.name, "a second request was not followed")
    elif asked:
        for t in asked:
            if t.facts.get(A("done", task)) is not True or it.truth(t, A("done", task)) is not True:
                continue
            if any(x.n >= n1 for x in evs(t, "spawn")):
                c.ok(R, 1, f"{cl.name}: a heartbeat that ended is started again")
            else:
                c.bad(R, e.loc, f"{cl.name}: a heartbeat that ended with an error is not started again", t, "return")
    elif any(x.n >= n1 for t, k in outs for x in evs(t, "spawn")) or any(tail(x) in ("add_done_callback",) for x in st.trace) \
            or any(mentions(f, task) for t, k in outs for f in t.facts):
        c.undecided(R, cl.name, "when the heartbeat is started again was not recognised")
    else:
        c.bad(R, e.loc, f"{cl.name}: a heartbeat that ended with an error is never started again", outs[0][0], "return")


def heartbeat_fails(c, R, cl, e, st):
    """a heartbeat that fails is followed by others"""
    it = io_interp(c, lambda kind, ev: ("ConnectionResetError",) if kind == "wait" else (), peel=1)
    n0 = len(st.trace)
    try:
        outs = it.start_coro(st.copy(), e.args[0])
    except Budget:
        return
    for t, k, v in outs:
        if k == "raise" and any(x.kind == "call" and tail(x) in WRITE for x in t.trace[n0:]) and any(x.kind == "raise" for x in t.trace[n0:]):
            c.bad(R, e.loc, f"{cl.name}: a heartbeat that fails ends the heartbeat: no other is sent until the next request", t, k)
            return
    c.ok(R, 1, f"{cl.name}: goes on after a failure")


def heartbeat(c, R, R1, cl, e, st):
    it = io_interp(c, lambda kind, ev: (), peel=1)
    n0 = len(st.trace)
    try:
        outs = it.start_coro(st.copy(), e.args[0])
    except Budget as x:
        c.undecided(R, cl.name, f"gave up: {x}")
        return
    c.functions |= it.functions
    c.paths += len(outs)
    period = ("S", "heartbeat_period", None)
    rounds = 0
    for t, k, v in outs:
        if not any(is_setting(s, "heartbeat_period") for x in t.trace[n0:] for a in x.args if isinstance(a, tuple) for s in subterms(a)) and \
                not any(x.kind == "loop" for x in t.trace[n0:]):
            continue
        waits(c, R1, cl, it, t, k)
        if k != "cut":
            if k == "return":
                c.bad(R, e.loc, f"{cl.name}: the heartbeat ends", t, k) if not [f for f in t.facts if f not in st.facts] else c.undecided(R, e.loc, "the heartbeat may end")
            continue
        rounds += 1
        body = t.trace[n0:]
        wrote = [x for x in body if x.kind == "call" and tail(x) in WRITE]
        # is the heartbeat overdue on this path?
        clocks = [x for x in body if x.kind == "call" and tail(x) in CLOCKS and "time" in x.label]
        firstwrite = wrote[0].n if wrote else 10 ** 9
        env = {}
        for s in [s for f in t.facts for s in subterms(f)]:
            if is_setting(s, "heartbeat_period"):
                env[s] = 60
        for x in t.trace[:n0]:
            if x.kind == "call" and tail(x) in CLOCKS:
                env[x.res] = 900
        for x in clocks:
            if x.n < firstwrite:
                env[x.res] = 1000
        overdue = True
        unsure = False
        for f, val in t.facts.items():
            if f in st.facts or not any(s in env for s in subterms(f)):
                continue
            try:
                if bool(point(f, env)) != val:
                    overdue = False
            except Unknown:
                unsure = True
        if not wrote:
            if overdue and unsure:
                c.undecided(R, e.loc, "when the heartbeat is sent was not recognised")
            elif overdue:
                c.bad(R, e.loc, f"{cl.name}: no heartbeat is sent although nothing was sent for longer than the heartbeat period", t, k)
            else:
                c.ok(R, 1, f"{cl.name}: not overdue, nothing sent")
        else:
            c.ok(R, 1, f"{cl.name}: heartbeat sent at {wrote[0].loc}")
        zz = sleeps(t, n0 - 1, 10 ** 9)
        if not zz:
            other = [x for x in body if x.kind == "suspend" and "sleep" not in x.label]
            c.undecided(R, e.loc, "how a round of the heartbeat waits was not recognised") if wrote and other or any(
                x.kind == "await" for x in body) and not wrote else c.bad(R, e.loc, f"{cl.name}: a round of the heartbeat does not wait", t, k)
            continue
        ds = [x.info["ev"].args[0] if x.info["ev"].args else x.info["ev"].kw.get("delay", NONE) for x in zz]
        if len(ds) == 1:
            r = judge_wait(ds[0], "heartbeat_period")
            l = lin(ds[0])
            shorter = l is not None and l[0] <= 0 and len(l[1]) == 1 and is_setting(next(iter(l[1])), "heartbeat_period") and 0 < next(iter(l[1].values())) <= 1
            if r is True or shorter:
                c.ok(R, 1, f"{cl.name}: {zz[0].loc}")
            elif r is None or (ds[0][0] == "K" and isinstance(ds[0][2], (int, float)) and 0 < ds[0][2] <= 1):
                c.undecided(R, zz[0].loc, f"the wait of the heartbeat was not recognised: {show(ds[0])[:60]}")
            elif ds[0][0] == "A" and any(is_setting(s, "heartbeat_period") for s in subterms(ds[0])):
                c.undecided(R, zz[0].loc, f"the wait of the heartbeat is {r}")
            else:
                c.bad(R, zz[0].loc, f"{cl.name}: the heartbeat waits {r} instead of the heartbeat period", t, k)
        else:
            c.undecided(R, zz[0].loc, "several waits in a round of the heartbeat")
    if not rounds:
        c.undecided(R, e.loc, "no round of the heartbeat was recognised")


def sender(c, R):
    base = c.cls("BufferedSenderBase")
    todo = [x for x in c.p.classes.values() if (x is base or c.p.is_subclass(x, "BufferedSenderBase")) and x.qual.startswith("ekosis.")]
    hidden = ("PendingQueue", "SpanKey", "StatisticsKeeper", "ClientBase")

    def opq(x):
        if isinstance(x, Class):
            return x.name in hidden
        return (x.cls is not None and x.cls.name in hidden) or x.name == "send_data"

    for cl in sorted(todo, key=lambda x: x.qual):
        it = c.interp(opaque=opq, peel=2, may_raise=lambda ev, i: ("Exception",) if ev.kind == "await" and tail(ev) == "send_data" else ())
        made, names = settings(c, it, cl)
        if len(made) != 1 or "wait_period" not in names:
            c.undecided(R, cl.name, "how the sender is made was not recognised")
            continue
        st, obj = made[0]
        for h in [h for h in st.heap if h[0] == obj and st.heap[h] == NONE]:      # the queue, made when the application starts
            if c.p.attr_type(cl, h[1]) is not None and "PendingQueue" in str(c.p.attr_type(cl, h[1])):
                st.heap[h] = ("S", h[1], it.tk(c.cls("PendingQueue")))
        flags = [h for h in st.heap if h[0] == obj and h[1] in ("_sending_paused",)]
        got = [v for h, v in st.heap.items() if h[0] == obj and is_setting(v, "wait_period")]
        if not got:
            c.bad(R, cl.name, "the waiting period a sender is made with is not kept", st, "return")
            continue
        f = c.p.find_method(cl, "unpause_send_process")
        g = c.p.find_method(cl, "enqueue")
        jobs = {}
        for fn, args in ((f, {}), (g, {"request_data": ("S", "request_data", None), "span_key": NONE})):
            if fn is None:
                continue
            for s2, k, v in it.apply(st.copy(), ("F", fn.fid, None, obj), [], args):
                for e in evs(s2, "spawn"):
                    if e.args and e.args[0][0] == "Coro":
                        jobs.setdefault(e.info["target"].qual if e.info and e.info.get("target") is not None else e.loc, (e, s2))
        if not jobs:
            c.undecided(R, cl.name, "the worker of the sender was not recognised")
        for e, s2 in jobs.values():
            s2 = s2.copy()
            for h in flags:
                s2.heap[h] = FALSE
            n0 = len(s2.trace)
            outs = it.start_coro(s2, e.args[0])
            c.functions |= it.functions
            c.paths += len(outs)
            for t, k, v in outs:
                done = [x for x in evs(t, "opaque") if tail(x) == "send_data" and x.n >= n0]
                pops = [x for x in evs(t, "opaque", "call") if tail(x) == "pop" and x.n >= n0]
                if not done:
                    continue
                edges = [x.n for x in pops] + [10 ** 9]
                settled = k in ("return", "cut")
                if not settled:
                    continue
                for i, x in enumerate(done):
                    lo = max([p for p in edges if p < x.n] or [n0])
                    hi = min(p for p in edges if p > x.n)
                    zz = sleeps(t, lo, hi)
                    zero = any(it.truth(t, A(op, s, K(0))) is val for s in [s for fct in t.facts for s in subterms(fct) if is_setting(s, "wait_period")]
                               for op, val in (("gt", False), ("le", True), ("lt", True), ("eq", True), ("ne", False))) or \
                        any(is_setting(fct, "wait_period") and val is False for fct, val in t.facts.items())
                    if not zz:
                        other = [y for y in t.trace if lo < y.n < hi and y.kind == "await" and any(is_setting(s, "wait_period") for a in ((y.info or {}).get("ev").args if (y.info or {}).get("ev") is not None else ())
                                                                                                  if isinstance(a, tuple) for s in subterms(a))]
                        if zero:
                            c.ok(R, 1, f"{cl.name}: no waiting period configured")
                        elif other:
                            c.undecided(R, x.loc, "how the sender waits was not recognised")
                        elif hi == 10 ** 9 and k == "return" and i == len(done) - 1 and sleeps(t, n0, 10 ** 9):
                            c.ok(R, 1)       # the last message: nothing follows it
                        else:
                            c.bad(R, x.loc, f"{cl.name} sends a message without waiting for the configured period", t, k)
                        continue
                    ds = [y.info["ev"].args[0] if y.info["ev"].args else y.info["ev"].kw.get("delay", NONE) for y in zz]
                    rs = [judge_wait(d, "wait_period") for d in ds]
                    if len(ds) == 1 and rs[0] is True:
                        c.ok(R, 1, f"{cl.name}: {zz[0].loc}")
                    elif len(ds) == 1 and rs[0] is not None:
                        c.bad(R, zz[0].loc, f"{cl.name} waits {rs[0]} instead of the configured period", t, k)
                    else:
                        c.undecided(R, zz[0].loc, f"how long the sender waits was not recognised: {show(ds[0])[:60]}")
    # ---- what the decorator hands on
    fn = c.p.function("buffered_sender")
    if fn is None:
        c.undecided(R, "buffered_sender", "the decorator was not found")
        return
    for name, v in decorated(c, R, fn, ("wait_period",)):
        if is_setting(v, name):
            c.ok(R, 1, f"{fn.qual} hands on {name}")
        elif v is not None and v[0] in ("S", "K"):
            c.bad(R, fn.qual, f"a sender made by the decorator gets {show(v)} as its {name}")
        else:
            c.undecided(R, fn.qual, f"what becomes of {name} was not recognised")


def decorated(c, R, fn, names):
    """settings of the object a decorator makes -> [(name, value)]"""
    it = c.interp(opaque=lambda x: (x.name if isinstance(x, Class) else x.cls.name if x.cls is not None else "") in ("PendingQueue", "SpanKey", "StatisticsKeeper", "RequestRouter", "QueuedRequestHandlerKeeper", "BufferedSenderKeeper"))
    out = []
    for st, k, v in c.run(it, fn, R):
        if k != "return" or v[0] != "F":
            continue
        for t, k2, w in it.apply(st, v, [("S", "function", None)], {}):
            if k2 != "return":
                continue
            objs = {h[0] for h in t.heap if h[0] != "item" and isinstance(h[0], tuple) and h[0][0] == "O" and h[1] in names}
            for o in objs:
                for n in names:
                    if (o, n) in t.heap:
                        out.append((n, t.heap[(o, n)]))
    return out


def gathering(c, R):
    k = Keeper(c, R)
    it, outs = k.paths("gather_statistics", "size", "get_endpoint_percentiles", "set_statistic_value")
    f = c.find(k.K, "gather_statistics")
    # which attribute holds the period
    it2, o2 = k.paths("set_gather_period")
    attr = None
    for st, kind, v in o2:
        for e in evs(st, "set"):
            if e.args and is_setting(e.args[0], "gather_period"):
                attr = e.label
            elif e.args and kind == "return":
                r = judge_wait(e.args[0], "gather_period")
                if r is not None and r is not True:
                    c.bad(R, e.loc, f"the gathering period is set to {r}", st, kind)
    if attr is None:
        c.undecided(R, k.K.qual, "what holds the gathering period was not recognised")
        return
    period = lambda t: t[:2] == ("A", "attr") and t[3] == attr
    direct = False
    goes_on(c, R, k, it, f, outs)
    for st, kind, v in outs:
        rec = [e for e in st.trace if e.kind == "mut" and owner(e.recv) == k.history and tail(e) in ADDERS]
        if not rec:
            continue
        zz = [e for e in sleeps(st, -1, rec[0].n)]
        for e in zz:
            d = e.info["ev"].args[0] if e.info["ev"].args else e.info["ev"].kw.get("delay", NONE)
            if period(d):
                direct = True
                c.ok(R, 1, f"{e.loc}: waits for the period")
    inner = [(st, v) for st, kind, v in outs if kind == "cut" and sleeps(st, -1, 10 ** 9)
             and not any(e.kind == "mut" and owner(e.recv) == k.history and tail(e) in ADDERS for e in st.trace)]
    for st, v in inner:
        if direct:
            break
        last = max([e.n for e in evs(st, "loop") if e.loc == v["loc"]] or [0])
        zz = sleeps(st, last, 10 ** 9)
        if not zz:
            continue
        ev = [e for e in evs(st, "loop") if e.n == last][0]
        coll = ev.args[0] if ev.args else None
        step = sum_of([e.info["ev"].args[0] if e.info["ev"].args else NONE for e in zz])
        conds = [(t, val) for t, val in st.facts.items() if any(period(s) for s in subterms(t))]
        if coll is not None and coll[:2] == ("A", "range") and step is not None:
            args = [a for a in coll[2:] if isinstance(a, tuple)]
            bad_ = None
            for P in (1, 2, 5, 300):
                try:
                    xs = [point(a, {s_: P for s_ in subterms(a) if period(s_)}) for a in args]
                    waited = len(range(*xs)) * step
                except (Unknown, TypeError, ValueError):
                    waited = None
                if waited != P:
                    bad_ = (P, waited)
                    break
            if bad_ is None:
                c.ok(R, 1, f"{v['loc']}: {step} s for each second of the period")
            elif bad_[1] is None:
                c.undecided(R, v["loc"], "how long is waited was not recognised")
            else:
                c.bad(R, v["loc"], f"with a gathering period of {bad_[0]} seconds a period of {bad_[1]} seconds is gathered", st, "cut")
            continue
        if not conds:      # counting down from the period
            cd = [n for n, (e, h, x) in v["vars"].items() if any(period(s_) for s_ in subterms(e))]
            conds = [(t, val) for t, val in st.facts.items() if cd and mentions(t, v["vars"][cd[0]][1])]
        if step is None or len(conds) != 1:
            c.undecided(R, v["loc"], "how the gathering period is waited for was not recognised")
            continue
        t, val = conds[0]
        # the counter: head value and what a round adds to it
        cnt = [(n, e, h, x) for n, (e, h, x) in v["vars"].items() if h is not None and mentions(t, h)]
        if len(cnt) != 1:
            c.undecided(R, v["loc"], "what counts the seconds was not recognised")
            continue
        n, e0, h, x = cnt[0]
        le, lx = lin(e0), lin(x)
        if le is None or lx is None or any(not period(s_) for s_ in le[1]) or dict(lx[1]) != {h: 1}:
            c.undecided(R, v["loc"], "what counts the seconds was not recognised")
            continue
        inc = lx[0]
        waited = None
        for P in (1, 2, 5, 300):
            i, n_ = le[0] + sum(P * k_ for k_ in le[1].values()), 0
            try:
                while n_ < 2000:
                    env = {h: i}
                    for s in subterms(t):
                        if period(s):
                            env[s] = P
                    if bool(point(t, env)) != val:
                        break
                    i += inc
                    n_ += 1
            except Unknown:
                n_ = None
            waited = n_ * step if n_ is not None else None
            if waited is None:
                c.undecided(R, v["loc"], "how long is waited was not recognised")
                break
            if abs(waited - P) > 1e-9:
                c.bad(R, v["loc"], f"with a gathering period of {P} seconds a period of {waited} seconds is gathered", st, "cut")
                break
        else:
            c.ok(R, 1, f"{v['loc']}: {step} s a round until the period has passed")


def goes_on(c, R, k, it, f, outs):
    """until gathering is stopped it does not end, and no round of it leaves the period out"""
    flags = set()
    for m in k.K.methods.values():
        if m.name.startswith("stop") or m.name in ("__aexit__", "__exit__"):
            for st, kind, v in c.run(c.interp(), m, R):
                flags |= {e.label for e in evs(st, "set") if e.args and e.args[0] == FALSE}
    if len(flags) != 1:
        return
    started = [n for m in k.K.methods.values() for n in ast.walk(m.node) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Call))
               for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.Call) else n.args)
               for x in ast.walk(t) if isinstance(x, (ast.Attribute, ast.Constant)) and str(getattr(x, "attr", getattr(x, "value", ""))).split("__")[-1] == next(iter(flags)).split("__")[-1]
               and not (isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and not n.value.value)]
    if not started and any(kind == "return" and not any(e.kind == "suspend" for e in st.trace) for st, kind, v in outs):
        c.bad(R, f.qual, f"gathering is never started: {next(iter(flags))} is never set", None)
    for st, kind, v in outs:
        heads = evs(st, "loop")
        if not heads or any(e.kind == "mut" and owner(e.recv) == k.history for e in st.trace):
            continue
        if kind == "cut" and v["loc"] != heads[0].loc or kind not in ("cut", "return"):
            continue
        asked = [e for e in evs(st, "read") if e.label in flags]
        other = [t for t in st.facts if not any(s[:2] == ("A", "attr") and s[3] in flags for s in subterms(t)) and t[0] == "A" and t[1] in ("call", "opaque")]
        if asked and it.truth(st, asked[-1].res) is True and not other and not any(e.kind in ("raise", "caught") for e in st.trace):
            if kind == "return":
                c.bad(R, f.qual, "gathering ends although it was not stopped", st, kind)
            elif any(e.kind == "suspend" for e in st.trace) or len(heads) > 1:
                c.bad(R, f.qual, "a period passes without being recorded although gathering was not stopped", st, kind)


def sum_of(ds):
    s = 0
    for d in ds:
        if d[0] != "K" or not isinstance(d[2], (int, float)):
            return None
        s += d[2]
    return s
