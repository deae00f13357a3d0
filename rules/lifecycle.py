"""Start and end of an application (C12, C13)."""
from .base import *
from . import buffered as B

LOSSY = ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "removesuffix", "removeprefix", "replace", "strip", "lstrip", "rstrip")

GETTERS = {"handler": "get_buffered_handlers", "sender": "get_buffered_senders"}


def tail(e):
    return str(e.label).split(".")[-1]


def check_C12(c):
    B.anchors(c)
    exit_order(c)
    for kind in B.KINDS:
        getter(c, kind)
        buffer_shutdown(c, kind)
    signals(c)


# ------------------------------------------------------------------ leaving the context
def exit_order(c):
    R = "C12.exit"
    c.rule(R, "on every path of leaving the application context: every server that exists is stopped before the first buffer is shut down, "
              "shut_down is called on every element of both collections of buffers, a buffer that raises does not end the loop, "
              "and the log is flushed after that", 2)
    app = c.cls("ApplicationBase")
    f = c.find(app, "__exit__")
    c.p.attr_type(app, "")
    srv = [a for a in sorted(set(app.ann) | set(app.attrs) | set(app.inst_ann or ())) if isinstance(c.p.attr_type(app, a), Class) and c.p.is_subclass(c.p.attr_type(app, a), "ServerBase")]
    names = set(GETTERS.values())

    def opq(x):
        if isinstance(x, Class):
            return False
        return x.name in names or x.name in ("shut_down", "flush", "get_route_key") or \
            (x.name == "stop" and x.cls is not None and c.p.is_subclass(x.cls, "ServerBase"))

    it = c.interp(opaque=opq, may_raise=lambda ev, _: ("Exception",) if tail(ev) == "shut_down" else ())
    outs = c.run(it, f, R)
    covered = {k: False for k in GETTERS}
    for st, k, v in outs:
        bad = lambda m: c.bad(R, f.qual, m, st, k)
        get = {kind: [e for e in evs(st, "opaque") if tail(e) == g] for kind, g in GETTERS.items()}
        loops = {}
        for kind in GETTERS:
            loops[kind] = [l for l in evs(st, "loop") if l.info.get("coll") is not None and
                           any(g.res in provenance(st, l.info["coll"]) for g in get[kind])]
        downs = [e for e in evs(st, "call", "opaque") if tail(e) == "shut_down"]
        bufl = {id(l): l for kind in loops for l in loops[kind]}.values()
        first = min([e.n for e in downs] + [l.n for l in bufl], default=None)
        # a failing buffer must not get out
        if k == "raise":
            rs = evs(st, "raise")
            src = [e for e in downs if rs and e.n < rs[-1].n]
            bad(f"leaving the application ends with {show(v)}" + (f" when the shutdown at {src[-1].loc} fails" if src else ""))
            continue
        if k == "cut":
            # the iteration of a loop over buffers: shut_down was called on the element
            mine = [l for l in bufl if l.info["id"] == v["loop"]]
            if mine:
                l = mine[0]
                hit = [e for e in downs if e.n > l.n and e.recv is not None and any(t[0] == "A" and t[1] == "elem" for t in subterms(e.recv))]
                if not hit:
                    calls = [e for e in evs(st, "call", "opaque") if e.n > l.n]
                    fx = [(t, b) for t, b in st.facts.items() if any(x[0] == "A" and x[1] == "elem" for x in subterms(t))]
                    if all(t[0] == "A" and t[1] == "is" and NONE in t[2:] for t, b in fx) and fx:
                        c.undecided(R, f.qual, "a buffer that is not set up is left out")
                    elif not calls and not fx:
                        c.undecided(R, f.qual, f"loop at {l.loc} does nothing to the buffers")
                    else:
                        bad(f"a buffer is not shut down in an iteration of the loop at {l.loc}")
                else:
                    for kind in loops:
                        if l in loops[kind]:
                            covered[kind] = True
                    c.ok(R)
            continue
        if k != "return":
            continue
        fine = True
        for a in srv:
            t = A("attr", ("S", "self", "c:" + app.qual), a)
            stops = [e for e in evs(st, "opaque", "call") if tail(e) == "stop" and e.recv is not None and last_attr(e.recv) == a]
            if known_none(it, st, t) is True or it.truth(st, t) is False:
                continue
            if not stops:
                generic = [e for e in evs(st, "opaque", "call") if tail(e) == "stop" and last_attr(e.recv) not in srv] or \
                    [l for l in evs(st, "loop") if l not in bufl]
                if generic:
                    c.undecided(R, f.qual, f"server {a} may be stopped in a loop")
                else:
                    bad(f"the server in {a} is not stopped")
                fine = False
            elif first is not None and stops[0].n > first:
                bad(f"the server in {a} is stopped only after buffers are shut down")
                fine = False
        for kind in GETTERS:
            if not loops[kind]:
                comp = [e for e in evs(st, "call", "opaque", "pure") if any(isinstance(x, tuple) and any(g.res in provenance(st, x) for g in get[kind])
                                                                     for x in list(e.args) + list(e.kw.values()))]
                if comp:
                    c.undecided(R, f.qual, f"the buffered {kind}s are handled at {comp[0].loc}")
                else:
                    bad(f"the buffered {kind}s are not shut down")
                fine = False
        fl = [e for e in evs(st, "opaque", "call") if tail(e) == "flush"]
        last = max([l.n for l in bufl] + [e.n for e in downs], default=-1)
        if not [e for e in fl if e.n > last]:
            bad("the log is not flushed" + (" after the buffers are shut down" if fl else ""))
            fine = False
        if fine:
            c.ok(R, 1, "servers stopped, buffers shut down, log flushed")
    if outs:
        for kind in GETTERS:
            if not covered[kind] and not c.viol:
                c.undecided(R, f.qual, f"shut_down of buffered {kind}s not seen")


# ------------------------------------------------------------------ the collections are complete
def getter(c, kind):
    R = "C12.all"
    c.rule(R, "the collections of buffers that are shut down hold every registered buffer", 2)
    owner = "RequestRouter" if kind == "handler" else "BufferedSenderKeeper"
    f = c.find(c.cls(owner), GETTERS[kind])
    it = c.interp()
    it.keep_cuts = True
    allowed = {"BufferedRequestHandlerBase", "BufferedSenderBase", "BufferedSenderClass", "HandlerBase"}

    def fine_fact(t, b):
        """the element is left out because it is no buffer"""
        if t[0] == "A" and t[1] == "isinstance":
            return not b and any(x[0] in ("C", "X") and str(x[1]).split(".")[-1] in allowed for x in subterms(t))
        return None

    whole = False
    for st, k, v in c.run(it, f, R):
        elem_facts = [(t, b) for t, b in st.facts.items() if any(x[0] == "A" and x[1] == "elem" for x in provenance(st, t))]
        if k == "cut":
            if evs(st, "mut") or evs(st, "yield"):
                continue
            # nothing kept (or, in a comprehension, kept without an event)
            if any(fine_fact(t, b) for t, b in elem_facts):
                continue
            extra = [(t, b) for t, b in elem_facts if not (t[0] == "A" and (t[1] == "isinstance" or t[1] == "is" and NONE in t[2:]))]
            if extra:
                c.bad(R, f.qual, f"a registered buffer may be left out depending on {[show(t) for t, b in extra]}", st, k)
        elif k == "return":
            if v is None or v[0] == "K":
                c.bad(R, f.qual, f"returns {show(v)}", st, k)
                continue
            if v[0] == "O" and st.objs[v[1]]["kind"] == "list":
                seq = st.objs[v[1]]["seq"]
                if not seq and evs(st, "loop"):
                    continue
                if not seq:
                    c.bad(R, f.qual, "returns nothing", st, k)
                    continue
                if any(s[0] != "one" for s in seq):
                    whole = True
            else:
                whole = True
            for t in subterms(v):
                if t[0] == "A" and t[1] in ("slice",):
                    c.bad(R, f.qual, f"returns only a part: {show(v)}", st, k)
    if whole:
        c.ok(R, 1, f.qual)
    else:
        c.undecided(R, f.qual, "can not tell what is returned")


# ------------------------------------------------------------------ one buffer
def self_attr(v):
    names, root = attr_chain(v)
    return names[0] if len(names) == 1 and root[0] == "S" and root[1] == "self" else None


def buffer_shutdown(c, kind):
    R = "C12.buffer"
    c.rule(R, "shutting a buffer down writes both its queues once, or, while its worker is busy, leaves that to the worker: then on every "
              "way the worker ends both queues are written once, after its last queue operation", 6)
    side = B.Side(c, kind)
    f = c.find(side.base, "shut_down")
    # what the worker marks while it is busy
    wp = B.worker_paths(c, side, R, extra_opaque=("process_buffered_request",))
    busy = None
    for w, it, outs in wp:
        cand = None
        for st, k, v in outs:
            q = [e.n for e in evs(st, "opaque") if B.is_queue_ev(e) and tail(e) != "shut_down"]
            if not q:
                continue
            s = {e.label for e in evs(st, "set") if e.n < q[0] and e.args and e.args[0] == TRUE and e.recv == side.selfval}
            cand = s if cand is None else cand & s
        if cand:
            busy = cand if busy is None else busy & cand
    it = B.mk(c, kind, may_raise=False)
    told = waiting(c, side, R)
    flags = set()
    deferred = False
    tested_busy = set()
    pause = {B.flag_attr(c, side, g) for g in (("is_receiving_paused", "is_processing_paused") if kind == "handler" else ("is_send_process_paused",))}
    recv_flag = B.flag_attr(c, side, "is_receiving_paused") if kind == "handler" else None
    outs = c.run(it, f, R)
    pend = []
    for st, k, v in outs:
        if k == "cut":
            continue
        downs = [e for e in evs(st, "opaque") if B.is_queue_ev(e) and tail(e) == "shut_down"]
        roles = sorted(str(B.queue_role(c, e.recv)) for e in downs)
        sets = {e.label: e.args[0] for e in evs(st, "set") if e.recv == side.selfval}
        tests = {self_attr(t): b for t, b in st.facts.items() if self_attr(t)}
        if recv_flag and sets.get(recv_flag) != TRUE:
            c.bad(R, f.qual, "requests are still accepted after the buffer is shut down", st, k)
        if roles == ["error", "pending"]:
            now = [x for x in (busy or ()) if tests.get(x) is False]
            if busy and not now and not any(e.kind in ("call", "pure") and tail(e) == "done" for e in st.trace):
                c.bad(R, f.qual, "the queues are written although the worker may be busy", st, k)
            elif told and k == "return" and not any(touches(e, told) for e in st.trace if e.n > downs[0].n or e.kind == "set"):
                c.bad(R, f.qual, "who waits for the buffer to be shut down is not told", st, k)
            else:
                c.ok(R)
        elif roles == []:
            if k == "raise":
                c.bad(R, f.qual, f"shutting down fails with {show(v)}", st, k)
                continue
            tested_busy |= {x for x, b in tests.items() if b is True and x not in sets}
            on = [x for x in (busy or ()) if tests.get(x) is True]
            if not on:
                other = [t for t, b in st.facts.items() if not self_attr(t) and (t[0] != "A" or t[1] != "is")]
                if other or not busy:
                    c.undecided(R, f.qual, "queues not written on a path with an unknown condition")
                else:
                    c.bad(R, f.qual, "the queues are not written although the worker is not known to be busy", st, k)
                continue
            marks = {x for x, val in sets.items() if val == TRUE and x not in pause}
            pend.append((st, marks))
            deferred = True
        else:
            c.bad(R, f.qual, f"writes the queues {roles} instead of pending and error once each", st, k)
    for a in sorted(tested_busy - (busy or set())):
        # what shut_down takes for a busy worker has to be marked by the worker
        for w, _, wo in wp:
            marks = [e for st, k, v in wo for e in evs(st, "set") if e.label == a and e.recv == side.selfval]
            if marks and not any(e.args[0] == TRUE for e in marks):
                c.bad(R, w.qual, f"the worker never marks itself as busy in {a}, which shutting down relies on")
    if not deferred:
        if outs:
            c.undecided(R, f.qual, "no deferred shutdown")
        return
    marks = set.intersection(*[m for _, m in pend])
    # ---- it takes no further message
    proc = B.flag_attr(c, side, B.PROC_FLAG[kind])
    for st0, m in pend:
        if any(e.label == proc and e.recv == side.selfval and e.args[0] == TRUE for e in evs(st0, "set")):
            c.ok(R, 1, f"{f.qual}: the worker stops")
            continue
        if any(e.n < p.n for w, it, outs in wp for st, k, v in outs for p in B.pops(c, st) for e in evs(st, "read") if e.label in m):
            c.undecided(R, f.qual, "how the worker learns of the shutdown was not recognised")
            continue
        c.bad(R, f.qual, "a busy worker goes on taking messages after the buffer was shut down", st0)
    # ---- the worker takes over
    for w, it, outs in wp:
        for st, k, v in outs:
            ops = [e for e in evs(st, "opaque") if B.is_queue_ev(e)]
            downs = [e for e in ops if tail(e) == "shut_down"]
            if k == "cut":
                if downs:
                    c.bad(R, w.qual, f"the queue is written at {downs[0].loc} while the worker goes on", st, k)
                continue
            work = [e for e in ops if tail(e) not in ("shut_down",)]
            roles = sorted(str(B.queue_role(c, e.recv)) for e in downs)
            if downs and work and max(e.n for e in work) > min(e.n for e in downs):
                c.bad(R, w.qual, f"the queue is used at {work[-1].loc} after it was written", st, k)
                continue
            off = [e for e in evs(st, "set") if e.label in busy and e.recv == side.selfval and e.args[0] == FALSE]
            if not off or work and off[-1].n < work[-1].n and tail(work[-1]) not in ("size", "is_empty"):
                c.bad(R, w.qual, f"the worker ends ({k}) but stays marked as busy: a shutdown after that writes nothing" if not off else
                      "the worker is marked as idle while it still uses the queue", st, k)
                continue
            end = off[-1].n
            if any(e.kind == "suspend" and e.n > end for e in st.trace) and not downs:
                c.undecided(R, w.qual, "suspends after it is done")
                continue
            if roles == ["error", "pending"]:
                if marks and not any(any(x[0] == "A" and x[1] == "attr" and x[3] in marks for x in subterms(t)) for t in st.facts):
                    c.bad(R, w.qual, f"the queues are written at {downs[0].loc} although the buffer was not shut down", st, k)
                else:
                    c.ok(R)
            elif roles == []:
                seen = [t for t, b in st.facts.items() if b is False and self_attr(t) in marks]
                if not seen:
                    fx = [t for t, b in st.facts.items() if any(x[0] == "A" and x[1] == "attr" and x[3] in marks for x in subterms(t))]
                    if fx:
                        c.undecided(R, w.qual, f"tests {show(fx[0])}")
                    else:
                        c.bad(R, w.qual, f"the worker ends ({k}) without writing the queues of a buffer that was shut down meanwhile", st, k)
                else:
                    # the test has to come after the last suspension
                    c.ok(R)
            else:
                c.bad(R, w.qual, f"writes the queues {roles} instead of pending and error once each", st, k)


def touches(e, attrs):
    if e.kind == "set":
        return e.label in attrs
    return e.kind in ("call", "mut", "opaque", "spawn", "setitem") and \
        any(last_attr(t) in attrs for x in [e.recv] + list(e.args) + list(e.kw.values()) if isinstance(x, tuple) for t in subterms(x))


def waiting(c, side, R):
    """waiting for a buffer to be shut down ends only when it is -> the attributes that tell so"""
    f = side.base.methods.get("wait_for_shutdown")
    if f is None:
        return set()
    it = B.mk(c, side.kind, may_raise=False)
    told, other = set(), False
    for st, k, v in c.run(it, f, R):
        asked = {self_attr(t[2]): b for t, b in st.facts.items() if t[:2] in (("A", "done"), ("A", "is_set")) and self_attr(t[2])}
        waits = [e for e in st.trace if e.kind == "await" and e.recv is not None and tail(e) != "sleep"]
        told |= set(asked)
        if k != "return":
            continue
        if waits or len(asked) != 1:
            other = True
        elif list(asked.values()) == [True]:
            c.ok(R, 1, f"{f.qual}: waits")
        else:
            c.bad(R, f.qual, "waiting for the buffer to be shut down ends before it is", st, k)
            other = True
    return set() if other else told


# ------------------------------------------------------------------ signals
def signals(c):
    R = "C12.signals"
    c.rule(R, "entering the application context installs a handler that raises for SIGTERM, SIGINT and SIGHUP", 1)
    app = c.cls("ApplicationBase")
    f = c.find(app, "__enter__")
    it = c.interp()
    for st, k, v in c.run(it, f, R):
        if k != "return":
            continue
        seen = {}
        for e in evs(st, "call"):
            if tail(e) == "signal" and e.args:
                seen[show(e.args[0]).split(".")[-1]] = e.args[1] if len(e.args) > 1 else None
        want = ["SIGTERM", "SIGINT", "SIGHUP"]
        if not seen or any(not n.startswith("SIG") for n in seen):
            if evs(st, "loop") or any("signal" in str(e.label) for e in evs(st, "call")):
                c.undecided(R, f.qual, "signals installed in an unknown way")
            else:
                c.bad(R, f.qual, "no signal handler is installed", st, k)
            continue
        for s in want:
            if s not in seen:
                c.bad(R, f.qual, f"no handler for {s}: the buffers are not written when it arrives", st, k)
                continue
            h = seen[s]
            if h is None or h[0] == "X" and "SIG_" in str(h[1]):
                c.bad(R, f.qual, f"{s} is handled by {show(h)}", st, k)
                continue
            n0 = len(st.trace)
            try:
                outs = it.apply(st.copy(), h, [("S", "signum"), ("S", "frame")], {})
            except Exception:
                c.undecided(R, f.qual, "signal handler not followed")
                continue
            ret = [x for x in outs if not is_raise(x)]
            if ret and len(ret) == len(outs) and not any(e.kind in ("call", "opaque") for x in ret for e in x[0].trace[n0:]):
                c.bad(R, f.qual, f"the handler of {s} does not end the application", st, k)
            elif ret:
                c.undecided(R, f.qual, "signal handler may return")
            else:
                c.ok(R)


def is_raise(x):
    return x[1] == "raise"


# ====================================================================== C13
def check_C13(c):
    R = "C13.lock"
    c.rule(R, "on every path of creating an application: if the process named in the lock file is signalled successfully, or not permitted to "
              "be, the already-running exception is raised with the lock file neither written nor removed and no server created; otherwise "
              "the own process id is written to the same path, which depends on application name and instance", 4)
    app = c.cls("ApplicationBase")
    f = c.find(app, "__init__")
    already = c.cls("InstanceAlreadyRunningException")

    def mr(ev, _):
        if ev.kind == "pure" and ev.label == "int":
            return ("ValueError",)
        if ev.kind == "call" and ev.label == "os.kill":
            return ("PermissionError", "ProcessLookupError")
        return ()

    def opq(x):
        if isinstance(x, Class):
            return False
        return x.cls is not None and (c.p.is_subclass(x.cls, "ServerBase") or x.cls.name in ("StatisticsKeeper", "AppConfiguration"))

    it = c.interp(opaque=opq, may_raise=mr)
    for st, k, v in c.run(it, f, R):
        if k == "cut":
            continue
        site = f.qual
        bad = lambda m: c.bad(R, site, m, st, k)
        kills = [e for e in evs(st, "call") if tail(e) == "kill"]
        opens = [(e, mode(e)) for e in evs(st, "call") if e.label in ("open", "io.open", "builtins.open")]
        writes = [e for e, m in opens if m and m[0] in "wxa"]
        removes = [e for e in evs(st, "call") if tail(e) in ("remove", "unlink")]
        servers = [e for e in evs(st, "new") if c.p.by_name.get(e.label) and c.p.is_subclass(c.p.by_name[e.label][0], "ServerBase")]
        for e in kills:
            if len(e.args) > 1 and e.args[1] != K(0):
                bad(f"sends signal {show(e.args[1])} to the process in the lock file at {e.loc}")
        raising = {x.n - 1 for x in evs(st, "raise") if x.label == "from pure"}
        unread = [e.args[0] for e in evs(st, "pure") if e.label == "int" and e.args and e.n in raising]   # a text that is no number
        alive = None
        for e in kills:
            r = [x for x in evs(st, "raise") if x.n == e.n + 1 and x.label == "from call"]
            nm = exc_name(r[0].args[0]) if r else None
            alive = True if not r else (nm == "PermissionError")
        if alive:
            if k != "raise":
                bad("starts although the process in the lock file is alive" +
                    (" (signalling it is not permitted)" if evs(st, "raise") else ""))
                continue
            if not is_inst(st, v, already):
                bad(f"fails with {show(v)} instead of the already-running exception although the process in the lock file is alive")
                continue
            if writes:
                bad(f"overwrites the lock file of a running process at {writes[0].loc}")
                continue
            if removes:
                bad(f"removes the lock file of a running process at {removes[0].loc}")
                continue
            if servers:
                bad(f"creates a server at {servers[0].loc} before it checks the lock file")
                continue
            c.ok(R, 1, "alive: refused")
            continue
        if k == "raise":
            if is_inst(st, v, already):
                if kills or any(t[0] == "A" and "exists" in str(t[1:3]) and b is False for t, b in st.facts.items()):
                    bad("refuses to start although the process in the lock file is not alive" if kills else "refuses to start without a lock file")
            elif unread and not kills and exc_name(v) == "ValueError" and not any(t in subterms(x) for x in st.facts for t in unread):
                bad("a lock file that names no process (its writer died before it wrote its id) keeps the application from ever starting again")
            continue
        # not alive, or no lock file
        reads = [e for e, m in opens if m is None or m[0] == "r"]
        if not kills and not unread:
            ex = [(t, b) for t, b in st.facts.items() if "exists" in show(t) or "isfile" in show(t)]
            if any(b is True and t[0] == "A" and t[1] != "is" for t, b in ex):
                bad("starts without checking the process named in an existing lock file")
                continue
            if not ex and not reads and not any(e.kind == "call" for e in st.trace if "lock" in show(e.recv or NONE)):
                bad("starts without looking for a lock file")
                continue
        wr = [e for e in evs(st, "call") if tail(e) in ("write", "writelines", "write_text", "print")]
        own = [e for e in wr if any("getpid" in show(t) for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple) for t in provenance(st, a))]
        if not own:
            if wr or any("lock" in str(e.label) for e in evs(st, "call")):
                c.undecided(R, site, "lock file written in an unknown way") if not writes else bad("does not record its own process id in the lock file")
            else:
                bad("does not create a lock file")
            continue
        if not writes:
            c.undecided(R, site, "lock file opened in an unknown way")
            continue
        path = writes[-1].args[0] if writes[-1].args else writes[-1].kw.get("file")
        if servers and servers[0].n < own[0].n:
            bad(f"creates a server at {servers[0].loc} before it holds the lock")
            continue
        if writes[-1].n and mode(writes[-1])[0] == "a":
            bad("appends to the lock file: its first line still names another process")
            continue
        src = provenance(st, path)
        names = {t[3] for t in src if t[0] == "A" and t[1] == "attr"}
        if not {"name", "instance"} <= names:
            if any(t[0] in ("R", "H", "S") and t[1] != "self" for t in src):
                c.undecided(R, site, f"lock file path {show(path)}")
            else:
                bad(f"the lock file {show(path)} is not specific to application name and instance")
            continue
        lossy = [t for t in subterms(path) if t[0] == "A" and str(t[1]).split(".")[-1] in LOSSY and {"name", "instance"} & {y[3] for y in subterms(t) if y[:2] == ("A", "attr")}]
        if lossy:
            bad(f"the lock file {show(path)[:100]} is the same for instances whose names differ only in what {lossy[0][1]} drops")
            continue
        if removes and removes[-1].n > own[0].n:
            bad(f"removes its own lock file at {removes[-1].loc}")
            continue
        other = [e for e in reads if e.args and e.args[0] != path]
        if other:
            bad(f"checks the lock file {show(other[0].args[0])} but writes {show(path)}")
            continue
        chk = [t for t, b in st.facts.items() if t[0] == "A" and t[1] == "ext" or "exists" in show(t)]
        for t in chk:
            if t[0] == "A" and t[1] not in ("is",) and not any(x == path for x in subterms(t)) and "exists" in show(t):
                bad(f"checks {show(t)} but writes {show(path)}")
                break
        else:
            c.ok(R, 1, "not alive: lock taken")


def mode(e):
    m = e.args[1] if len(e.args) > 1 else e.kw.get("mode", K("r"))
    return m[2] if m[0] == "K" and isinstance(m[2], str) and m[2] else None


def exc_name(v):
    s = show(v)
    return s.strip("<>").split(".")[-1]


def is_inst(st, v, cl):
    if v is not None and v[0] == "O":
        o = st.objs.get(v[1])
        return bool(o) and o["kind"] == "inst" and str(o.get("cls")).split(".")[-1].strip(">'") in (cl.name,) or \
            bool(o) and getattr(o.get("cls"), "name", None) == cl.name
    return cl.name in show(v or NONE)
