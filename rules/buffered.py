"""Buffered endpoints and buffered senders: what happens to a message once it is taken, stored, paused (C04-C10)."""
import ast
from .base import *

QUEUE = "PaginatedQueue"
KINDS = ("handler", "sender")


class Side:
    """one of the two buffered classes, with everything the rules need to know about it"""

    def __init__(self, c, kind):
        self.kind = kind
        self.base = c.cls("BufferedRequestHandlerBase" if kind == "handler" else "BufferedSenderBase")
        self.selfval = ("S", "self", "c:" + self.base.qual)
        self.flags = {}


def queue_role(c, v):
    """'pending' / 'error' of a PaginatedQueue valued term"""
    n = last_attr(v)
    if n is None:
        return None
    if "pending" in n:
        return "pending"
    if "error" in n:
        return "error"
    return None


def anchors(c):
    pq = c.cls("PendingQueue")
    for a in ("pending_q", "error_q"):
        t = c.p.attr_type(pq, a)
        if not (isinstance(t, Class) and t.name == QUEUE):
            raise AnalysisBroken(f"PendingQueue.{a} is not a {QUEUE}")
    q = c.cls(QUEUE)
    for m in ("push", "pop", "size", "pop_span_key", "shut_down", "clear", "inspect_span_key"):
        c.find(q, m)


OPAQUE_CLASSES = {QUEUE, "StatisticsKeeper"}
HOOKS = {"BufferedMiddlewareBase", "ClientBase", "MiddlewareBase"}


def make_opaque(c, extra=()):
    hook = {c.cls(n) for n in HOOKS}

    def opq(f):
        cl = f if isinstance(f, Class) else getattr(f, "cls", None)
        if isinstance(f, Class):
            return False
        if cl is None:
            return False
        if cl.name in OPAQUE_CLASSES:
            return True
        if any(c.p.is_subclass(cl, h.name) for h in hook) and f.name != "__init__":
            return True
        if f.name in extra:
            return True
        return False
    return opq


def is_queue_ev(e):
    return e is not None and e.kind == "opaque" and e.label.startswith(QUEUE + ".")


def nosus(ev):
    return ev.label.startswith(QUEUE + ".")


def exc_quals(c):
    return {n: c.cls(n).qual for n in ("ServerBusyException", "CommunicationsMaxRetriesReached", "CommunicationsNonRetryable",
                                       "ProcessingException", "UnhandledException")}


def make_may_raise(c, kind):
    q = exc_quals(c)

    def mr(ev, it):
        if ev.kind == "await":
            src = (ev.info or {}).get("ev")
            if ev.label.startswith(QUEUE + ".") or is_queue_ev(src):
                return ()
            if kind == "sender" and ev.label.endswith(".send_message"):
                return ("asyncio.CancelledError", q["ServerBusyException"], q["CommunicationsMaxRetriesReached"],
                        q["CommunicationsNonRetryable"], "Exception")
            return ("asyncio.CancelledError", "Exception")
        if ev.kind == "call" and ("**" in ev.kw or ev.label in ("model_validate", "model_validate_json", "parse_obj")):
            return ("Exception",)
        return ()
    return mr


def mk(c, kind, may_raise=True, extra_opaque=(), **kw):
    return c.interp(opaque=make_opaque(c, extra_opaque), nosuspend=nosus,
                    may_raise=make_may_raise(c, kind) if may_raise else None, **kw)


def side_methods(c, base):
    return [m for m in base.methods.values()]


def workers(c, side):
    """functions started as tasks from any method of the class that (transitively) take messages out of pending"""
    found = {}
    for m in side_methods(c, side.base):
        if c.p.in_constructor(m):
            continue
        it = mk(c, side.kind, may_raise=False)
        for st, k, v in c.run(it, m, "worker"):
            for e in evs(st, "spawn"):
                t = (e.info or {}).get("target")
                if t is not None and e.info.get("self") == ("S", "self", "c:" + side.base.qual):
                    found[t.qual] = (t, e.info.get("binds"))
                elif t is not None and t.cls is None:
                    found[t.qual] = (t, e.info.get("binds"))
    res = []
    for t, b in found.values():
        res.append(t)
    return res


def worker_paths(c, side, rule, extra_opaque=(), may_raise=True):
    """(interp, [(state, kind, value)]) of the worker: every path of one iteration"""
    ws = workers(c, side)
    out = []
    for w in ws:
        it = mk(c, side.kind, may_raise=may_raise, extra_opaque=extra_opaque)
        args = {}
        outs = c.run(it, w, rule)
        if any(pops(c, st) for st, _, _ in outs):
            out.append((w, it, outs))
    if not out:
        raise AnalysisBroken(f"no worker of {side.base.name} takes messages out of its pending queue")
    return out


def pops(c, st):
    return [e for e in evs(st, "opaque") if e.label == f"{QUEUE}.pop" and queue_role(c, e.recv) == "pending" and awaited(st, e)]


def pushes(c, st, frm=-1, to=None, unawaited=False):
    out = []
    for e in evs(st, "opaque"):
        if e.label == f"{QUEUE}.push" and e.n > frm and (to is None or e.n < to):
            if unawaited or awaited(st, e):
                out.append(e)
    return out


def segments(c, it, st, kind, val):
    """for each message taken on this path: (pop event, item term, last trace index, complete?)"""
    ps = pops(c, st)
    for i, e in enumerate(ps):
        end = ps[i + 1].n if i + 1 < len(ps) else None
        item = e.res
        if known_none(it, st, item) is True or it.truth(st, item) is False:
            continue
        if end is None and kind == "cut":
            lid = val["loop"]
            le = [x.n for x in evs(st, "loop") if x.info["id"] == lid]
            if le and max(le) > e.n:
                continue        # back edge of a loop inside the handling of this message
        yield e, item, end


def field(item, name):
    return A("attr", item, name)


def outcome_call(c, st, side, frm, to):
    """the call that hands the message over: process_buffered_request / send_message, if awaited"""
    name = ".process_buffered_request" if side.kind == "handler" else ".send_message"
    for e in evs(st, "opaque"):
        if e.label.endswith(name) and e.n > frm and (to is None or e.n < to):
            aw = [x for x in evs(st, "await") if x.recv == e.res and x.n > e.n]
            if not aw:
                # awaited through another awaitable (wait_for, shield)?
                if awaited(st, e):
                    return e, None, "indirect"
                continue
            raised = [x for x in evs(st, "raise") if x.info and x.info.get("await") is aw[0]]
            return e, aw[0], ("raised" if raised else "returned")
    return None, None, None


def raised_in(st, frm, to):
    return [e for e in evs(st, "raise") if e.n > frm and (to is None or e.n < to)]


def item_terms(it, st, item):
    """values of the item's fields, as the path sees them"""
    return {n: field(item, n) for n in ("span_key", "data", "retries", "metadata")}


def has_field(st, v, item, name):
    t = field(item, name)
    for x in provenance(st, v):
        if x == t:
            return True
        if x[0] == "A" and x[1] == "attr" and x[2] == item and x[3] == name:
            return True
    return False


def settle(c, side, pid):
    R = f"{pid}.settled"
    c.rule(R, "on every path from taking a message out of the pending queue to the end of its handling (next message, return "
              "or exception) it is pushed to exactly one of pending/error of the same object with its own key and data, or "
              + ("the handler's result is known to be true" if side.kind == "handler" else "the send returned"), 8)
    name = side.base.name
    n_paths = 0
    for w, it, outs in worker_paths(c, side, R, extra_opaque=("process_buffered_request",)):
        for st, kind, val in outs:
            for e, item, end in segments(c, it, st, kind, val):
                n_paths += 1
                ps = pushes(c, st, e.n, end)
                late = [x for x in pushes(c, st, e.n, end, unawaited=True) if x not in ps]
                ocall, oaw, how = outcome_call(c, st, side, e.n, end)
                rs = raised_in(st, e.n, end)
                how_end = f"{kind} after " + (", ".join(f"{show(r.args[0])} at {r.loc}" for r in rs) if rs else "no exception")
                qroot = attr_chain(e.recv)[0][:-1], attr_chain(e.recv)[1]
                # success known?
                if side.kind == "handler":
                    succ = None
                    if ocall is not None and how == "returned":
                        succ = it.truth(st, ocall.res)
                    elif how == "indirect":
                        succ = "?"
                else:
                    succ = True if how == "returned" else ("?" if how == "indirect" else False)
                site = f"{w.qual}"
                if late and not ps:
                    c.bad(R, site, f"the message is put back without waiting for it ({late[0].loc}): it can be lost", st, how_end)
                    continue
                roles = []
                okk = True
                for p in ps:
                    r = queue_role(c, p.recv)
                    roles.append(r)
                    if (attr_chain(p.recv)[0][:-1], attr_chain(p.recv)[1]) != qroot:
                        c.bad(R, site, f"message pushed to a queue of another object at {p.loc}", st, how_end)
                        okk = False
                    key = p.kw.get("span_key")
                    if key is not None and not has_field(st, key, item, "span_key"):
                        c.bad(R, site, f"message put back under another key at {p.loc}: {show(key)}", st, how_end)
                        okk = False
                    ent = p.kw.get("object_to_queue")
                    fl = entry_fields(it, st, ent)
                    if fl is not None:
                        if "span_key" in fl and not has_field(st, fl["span_key"], item, "span_key"):
                            c.bad(R, site, f"message put back with another key at {p.loc}: {show(fl['span_key'])}", st, how_end)
                            okk = False
                        if "data" in fl and not has_field(st, fl["data"], item, "data"):
                            c.bad(R, site, f"message put back without its data at {p.loc}: {show(fl['data'])}", st, how_end)
                            okk = False
                if "pending" in roles and "error" in roles:
                    c.bad(R, site, "message put into both the pending and the error queue", st, how_end)
                    okk = False
                if not ps:
                    if succ == "?":
                        c.undecided(R, site, "message handed over through an indirect await")
                        continue
                    if succ is not True:
                        if ocall is None:
                            why = "it was never handed to the " + ("handler" if side.kind == "handler" else "client")
                        elif how == "raised":
                            why = "handing it over raised " + show(rs[0].args[0])
                        else:
                            why = "the handler's result was not checked to be true" if succ is None else "the handler reported failure"
                        c.bad(R, site, f"the message taken at {e.loc} is lost on a path where {why}", st, how_end)
                        okk = False
                elif succ is True and not rs:
                    c.bad(R, site, f"the message is queued again at {ps[0].loc} although it was handled successfully", st, how_end)
                    okk = False
                if okk:
                    c.ok(R, 1, f"{w.qual}: {how_end} -> {roles or 'success'}")
    # concrete classes must report what the user's function reported
    if side.kind == "handler":
        R2 = f"{pid}.result"
        c.rule(R2, "every implementation of process_buffered_request in the package returns the awaited result of the registered function", 1)
        for cl in [side.base] + list(side.base.subclasses):
            m = cl.methods.get("process_buffered_request")
            if m is None or m.kind == "abstract":
                continue
            it = c.interp(opaque=make_opaque(c))
            for st, kind, val in c.run(it, m, R2):
                if kind == "raise" or kind == "cut":
                    continue
                aw = [x for x in evs(st, "await")]
                if val is None or val[0] == "K":
                    c.bad(R2, m.qual, f"returns {show(val) if val else None} instead of the function's result", st)
                elif any(x.recv is not None and mentions(val, x.recv) for x in aw):
                    c.ok(R2)
                else:
                    c.undecided(R2, m.qual, f"returns {show(val)}")
    else:
        R2 = f"{pid}.send"
        c.rule(R2, "the message handed to the client is the one taken, under its own key", 1)
        for w, it, outs in worker_paths(c, side, R2):
            for st, kind, val in outs:
                for e, item, end in segments(c, it, st, kind, val):
                    ocall, oaw, how = outcome_call(c, st, side, e.n, end)
                    if ocall is None:
                        continue
                    vals = list(ocall.kw.values()) + list(ocall.args)
                    if not any(isinstance(v, tuple) and has_field(st, v, item, "data") for v in vals):
                        c.bad(R2, w.qual, f"what is sent at {ocall.loc} is not the message taken", st)
                    elif not any(isinstance(v, tuple) and has_field(st, v, item, "span_key") for v in vals):
                        c.bad(R2, w.qual, f"the message is sent without its key at {ocall.loc}", st)
                    else:
                        c.ok(R2)


def check_C04(c):
    anchors(c)
    settle(c, Side(c, "handler"), "C04")


def check_C05(c):
    anchors(c)
    settle(c, Side(c, "sender"), "C05")


# ====================================================================== C06
def first_exc(st, frm, to):
    """class and value of the failure of this attempt, as refined by the handler that caught it"""
    rs = raised_in(st, frm, to)
    if not rs:
        return None, None
    e = rs[0].args[0]
    for x in evs(st, "caught"):
        if x.n > rs[0].n and x.args and x.args[0][0] == "E" and e[0] == "E" and x.args[0][3] == e[3]:
            e = x.args[0]
    return e, rs[0]


def nonlinear(st, terms):
    """is there a condition on this path that involves one of the terms in a way the linear domain does not see?"""
    def opaque_in(t):
        l = lin(t)
        if l is None:
            return any(mentions(t, x) for x in terms)
        for k in l[1]:
            if k in terms:
                continue
            if any(mentions(k, x) for x in terms):
                return True
        return False
    for k in st.facts:
        if k[0] == "A" and k[1] in ("lt", "le", "gt", "ge", "eq", "ne"):
            if opaque_in(k[2]) or opaque_in(k[3]):
                return True
        elif k[0] == "A" and k[1] == "is":
            continue
        elif k[0] == "A" and k[1] == "attr":
            continue
        elif any(mentions(k, x) for x in terms) and k not in terms:
            return True
    for t in st.bounds:
        for k, _ in t:
            if k not in terms and any(mentions(k, x) for x in terms):
                return True
    return False


def check_C06(c):
    anchors(c)
    from .startup import hand_on
    RC = "C06.configured"
    c.rule(RC, "the maximum given to the decorator is the maximum of the endpoint or sender it makes", 2)
    for name in ("buffered_endpoint", "buffered_sender"):
        fn = c.p.function(name)
        if fn is None:
            c.undecided(RC, name, "the decorator was not found")
        else:
            hand_on(c, RC, fn, "max_retries")
    R = "C06.budget"
    c.rule(R, "after a retryable failure the message goes to pending with attempts+1 exactly if attempts+1 < max_retries, else to error; "
              "after any other failure to error with a reason; after a cancellation to pending with its attempts unchanged", 10)
    RI = "C06.identity"
    c.rule(RI, "each entry pushed for a message taken carries that message's key and metadata in every field it has", 10)
    retry = [c.cls("ServerBusyException"), c.cls("CommunicationsMaxRetriesReached")]
    for kind in KINDS:
        side = Side(c, kind)
        for w, it, outs in worker_paths(c, side, R, extra_opaque=("process_buffered_request",)):
            for st, k, val in outs:
                for e, item, end in segments(c, it, st, k, val):
                    ps = pushes(c, st, e.n, end)
                    if len(ps) != 1:
                        continue
                    p = ps[0]
                    role = queue_role(c, p.recv)
                    fl = entry_fields(it, st, p.kw.get("object_to_queue"))
                    if fl is None:
                        c.undecided(R, w.qual, "entry not built on the path")
                        continue
                    exc, rev = first_exc(st, e.n, end)
                    ocall, oaw, how = outcome_call(c, st, side, e.n, end)
                    if exc is None:
                        what = "retry" if kind == "handler" and how == "returned" and it.truth(st, ocall.res) is False else None
                    else:
                        cl, _ = it.exc_cls(st, exc)
                        if not it.is_exc_sub(cl, "Exception"):
                            what = "cancel" if it.is_exc_sub(cl, "asyncio.CancelledError") else None
                        elif kind == "sender" and any(it.is_exc_sub(cl, x) for x in retry):
                            what = "retry" if rev.info.get("await") is oaw and oaw is not None else None
                        elif kind == "sender" and any(it.is_exc_sub(x, cl) and x.qual not in (exc[2] if exc[0] == "E" else ()) for x in retry):
                            what = None     # the code did not look which of the two it is
                        else:
                            what = "other"
                            if kind == "handler" and ocall is not None and how == "returned":
                                what = None   # middleware failed after the handler was done
                    if what is None:
                        continue
                    site = f"{w.qual}"
                    n0, mx = field(item, "retries"), A("attr", side.selfval, "max_retries")
                    n1 = add(n0, K(1))
                    end_ = f"{k}, {what} failure"
                    got = fl.get("retries")
                    if what == "retry":
                        over = it.truth(st, A("ge", n1, mx))
                        if over is None and nonlinear(st, [n0, mx]):
                            c.undecided(R, site, "attempt limit tested by a condition outside the linear domain")
                            continue
                        if role == "pending" and over is not False:
                            c.bad(R, site, f"a failed message goes back to pending at {p.loc} although attempts+1 may have reached max_retries", st, end_)
                        elif role == "error" and over is not True:
                            c.bad(R, site, f"a failed message goes to the error queue at {p.loc} although attempts+1 may be below max_retries", st, end_)
                        elif role == "pending" and got is not None and lin(got) is not None and add(got, n1, -1) != K(0):
                            c.bad(R, site, f"the attempt count stored at {p.loc} is {show(got)}, not attempts+1", st, end_)
                        else:
                            c.ok(R, 1, f"{w.qual}: retryable failure -> {role}")
                    elif what == "other":
                        if role != "error":
                            c.bad(R, site, f"a message that failed in a non-retryable way goes to {role} at {p.loc}", st, end_)
                        else:
                            reason = fl.get("reason")
                            if reason is not None and reason[0] == "K":
                                c.bad(R, site, f"the reason of a non-retryable failure is not recorded at {p.loc}: {show(reason)}", st, end_)
                            else:
                                c.ok(R, 1, f"{w.qual}: other failure -> error with reason")
                    else:
                        if role != "pending":
                            c.bad(R, site, f"a message whose attempt was cancelled goes to {role} at {p.loc}", st, end_)
                        elif got is not None and lin(got) is not None and add(got, n0, -1) != K(0):
                            c.bad(R, site, f"a cancelled attempt is counted at {p.loc}: {show(got)}", st, end_)
                        else:
                            c.ok(R, 1, f"{w.qual}: cancelled -> pending, attempts unchanged")
                    # identity
                    key = p.kw.get("span_key")
                    if not has_field(st, key, item, "span_key") or ("span_key" in fl and not has_field(st, fl["span_key"], item, "span_key")):
                        c.bad(RI, site, f"entry pushed at {p.loc} does not carry the message's key", st, end_)
                    elif kind == "handler" and "metadata" in fl and not has_field(st, fl["metadata"], item, "metadata") \
                            and it.truth(st, field(item, "metadata")) is not False:
                        c.bad(RI, site, f"the message's metadata is dropped at {p.loc}", st, end_)
                    else:
                        c.ok(RI)
    # moves from error to pending
    RM = "C06.reprocess"
    c.rule(RM, "an entry moved from error to pending keeps key, data and metadata and starts with attempt count 0", 4)
    for kind in KINDS:
        side = Side(c, kind)
        for m in ("reprocess_error_queue", "reprocess_error_queue_span_key"):
            f = c.find(side.base, m)
            it = mk(c, kind, may_raise=False)
            for st, k, val in c.run(it, f, RM):
                for e in evs(st, "opaque"):
                    if e.label not in (f"{QUEUE}.pop", f"{QUEUE}.pop_span_key") or queue_role(c, e.recv) != "error":
                        continue
                    for p in pushes(c, st, e.n):
                        fl = entry_fields(it, st, p.kw.get("object_to_queue"))
                        if fl is None:
                            c.undecided(RM, f.qual, "entry not built on the path")
                            continue
                        item = e.res
                        keyterms = [field(item, "span_key")] + ([e.kw["span_key"]] if "span_key" in e.kw else [])

                        def has_key(v):
                            return v is not None and any(t in provenance(st, v) for t in keyterms)
                        if not has_key(p.kw.get("span_key")) or ("span_key" in fl and not has_key(fl["span_key"])):
                            c.bad(RM, f.qual, f"moved under another key at {p.loc}", st)
                        elif "data" in fl and not has_field(st, fl["data"], item, "data"):
                            c.bad(RM, f.qual, f"moved without its data at {p.loc}", st)
                        elif kind == "handler" and "metadata" in fl and not has_field(st, fl["metadata"], item, "metadata") \
                                and it.truth(st, field(item, "metadata")) is not False:
                            c.bad(RM, f.qual, f"moved without its metadata at {p.loc}", st)
                        elif "retries" in fl and fl["retries"][0] == "K" and fl["retries"][2] != 0:
                            c.bad(RM, f.qual, f"moved with attempt count {show(fl['retries'])} at {p.loc}", st)
                        else:
                            c.ok(RM, 1, f"{f.qual}: {p.loc}")


# ====================================================================== C07
def own_pushes(c, st):
    return [p for p in evs(st, "opaque") if p.label == f"{QUEUE}.push" and queue_role(c, p.recv) == "pending"]


def failing_push(c, R, f, args, st0):
    """the queue's file cannot be written: the message is not accepted"""
    def mr(ev, it):
        if ev.kind == "await" and ev.label == f"{QUEUE}.push":
            return ("OSError",)
        return ()
    it = c.interp(opaque=make_opaque(c, ("collect_push_metadata", "generate")), nosuspend=nosus, may_raise=mr)
    for st, k, val in c.run(it, f, R, **({"args": args} if args else {}), **({"state": st0.copy()} if st0 is not None else {})):
        failed = [e for e in evs(st, "raise") if (e.info or {}).get("await") is not None and e.info["await"].label == f"{QUEUE}.push"]
        if not failed:
            continue
        if k == "return" and not [p for p in own_pushes(c, st) if p.n > failed[-1].n]:
            c.bad(R, f.qual, f"accepts a message whose storing failed ({failed[-1].loc})", st, k)
        elif k == "raise":
            c.ok(R)


def check_C07(c):
    anchors(c)
    R = "C07.handler"
    c.rule(R, "every path on which a buffered endpoint answers has awaited exactly one push of the request, under its key, with its data, "
              "attempt count 0 and the collected metadata, into pending before; every path on which it fails has pushed nothing", 2)
    side = Side(c, "handler")
    f = c.find(side.base, "run")
    it = mk(c, "handler", extra_opaque=("collect_push_metadata",))
    kwarg = f.node.args.kwarg
    st0 = empty_state()
    span, dto = ("S", "span_key", "c:" + c.cls("SpanKey").qual), ("S", "dto", None)
    args = {kwarg.arg: {"kind": "dict", "items": {K("span_key"): span, K("dto"): dto}, "rest": None}} if kwarg else {"span_key": span, "dto": dto}
    for st, k, val in c.run(it, f, R, args=args, state=st0):
        ps = own_pushes(c, st)
        aw = [p for p in ps if awaited(st, p)]
        if k == "return":
            if not ps:
                c.bad(R, f.qual, "answers without having stored the request", st, k)
                continue
            if not aw:
                c.bad(R, f.qual, f"answers without waiting for the request to be stored ({ps[0].loc})", st, k)
                continue
            p = aw[0]
            fl = entry_fields(it, st, p.kw.get("object_to_queue")) or {}
            collect = [e for e in evs(st, "opaque") if e.label.endswith(".collect_push_metadata")]
            if span not in provenance(st, p.kw.get("span_key")) or ("span_key" in fl and span not in provenance(st, fl["span_key"])):
                c.bad(R, f.qual, f"stored under another key at {p.loc}", st, k)
            elif "data" in fl and dto not in provenance(st, fl["data"]):
                c.bad(R, f.qual, f"stored without its data at {p.loc}", st, k)
            elif "retries" in fl and fl["retries"][0] == "K" and fl["retries"][2] != 0:
                c.bad(R, f.qual, f"stored with attempt count {show(fl['retries'])} at {p.loc}", st, k)
            elif "metadata" in fl and collect and collect[0].res not in provenance(st, fl["metadata"]) \
                    and it.truth(st, collect[0].res) is not False:
                c.bad(R, f.qual, f"stored without the collected metadata at {p.loc}", st, k)
            elif "metadata" in fl and not collect and fl["metadata"][0] == "O" and it.truth(st, fl["metadata"]) is False:
                c.bad(R, f.qual, f"stored without asking middleware for metadata at {p.loc}", st, k)
            else:
                c.ok(R, 1, f"{f.qual}: stored at {p.loc} before the answer")
        elif k == "raise":
            if ps:
                c.bad(R, f.qual, f"fails with {show(val)} after the request was stored at {ps[0].loc}", st, k)
            else:
                c.ok(R)
    failing_push(c, R, f, args, st0)
    R = "C07.sender"
    c.rule(R, "every path on which a message handed to a buffered sender is accepted has awaited exactly one push of it into pending, "
              "under the given key or, without one, a newly generated key", 3)
    side = Side(c, "sender")
    f = c.find(side.base, "enqueue")
    it = mk(c, "sender", extra_opaque=("generate",))
    sender_paths(c, R, f.qual, it, c.run(it, f, R), ("S", "request_data", None), ("S", "span_key", "c:" + c.cls("SpanKey").qual), f)
    failing_push(c, R, f, None, None)
    # the class and the decorator hand over to it
    fd = c.p.function("buffered_sender")
    it = mk(c, "sender", extra_opaque=("enqueue", "add_buffered_sender"))
    fnv = ("S", "user_function", None)
    try:
        outs = [(st, "return", v) for st, kk, v in it.run(fd) if kk == "return"]
        res = []
        for st, _, v in outs:
            if v[0] != "F":
                c.undecided(R, fd.qual, "does not return a function")
                continue
            for st2, k2, w in it.apply(st, v, [fnv]):
                if k2 != "return" or w[0] != "F":
                    c.undecided(R, fd.qual, "decorator does not return a function")
                    continue
                span = ("S", "span_key", "c:" + c.cls("SpanKey").qual)
                for given in (True, False):
                    st3 = st2.copy()
                    res.append((given, span, it.apply(st3, w, [], {"span_key": span} if given else {"other": ("S", "other", None)})))
        for given, span, outs in res:
            for st, k, val in outs:
                if k != "return":
                    continue
                ps = [e for e in evs(st, "opaque") if e.label.endswith(".enqueue")]
                aw = [p for p in ps if awaited(st, p)]
                if not aw:
                    c.bad(R, fd.qual, "the decorated sender returns without having stored the message", st, k)
                    continue
                p = aw[0]
                vals = list(p.kw.values())
                if given and not any(span in provenance(st, v) for v in vals if v[0] != "O") and it.truth(st, span) is not False:
                    c.bad(R, fd.qual, f"the key given by the caller is not used at {p.loc}", st, k)
                elif not any(fnv in provenance(st, v) for v in vals):
                    c.bad(R, fd.qual, f"what is stored at {p.loc} is not what the decorated function returned", st, k)
                else:
                    c.ok(R, 1, f"{fd.qual}: key given={given}")
        c.functions |= it.functions
    except Budget as e:
        c.undecided(R, fd.qual, str(e))


def sender_paths(c, R, site, it, outs, data, span, f):
    names = [a.arg for a in f.node.args.args if a.arg != "self"]
    data = ("S", names[0], it.tk(c.p.ann_class(f.module, f.node.args.args[1].annotation)))
    span = ("S", names[1], it.tk(c.p.ann_class(f.module, f.node.args.args[2].annotation)))
    for st, k, val in outs:
        ps = own_pushes(c, st)
        aw = [p for p in ps if awaited(st, p)]
        if k == "return":
            if not aw:
                c.bad(R, site, "returns without having stored the message" + (" (not awaited)" if ps else ""), st, k)
                continue
            p = aw[0]
            fl = entry_fields(it, st, p.kw.get("object_to_queue")) or {}
            keyv = p.kw.get("span_key")
            key = provenance(st, keyv)
            given = it.truth(st, span)
            if given is None:
                given = None if known_none(it, st, span) is None else not known_none(it, st, span)
            gen = any(t[0] == "R" and t[2].endswith(".generate") for t in key)
            if given is True and span not in key:
                c.bad(R, site, f"the key given is not used at {p.loc}", st, k)
            elif given is False and not gen and (keyv == NONE or keyv == span):
                c.bad(R, site, f"no key is generated when none is given ({p.loc})", st, k)
            elif given is None and keyv == span:
                c.bad(R, site, f"a missing key is stored as it is ({p.loc})", st, k)
            elif "span_key" in fl and fl["span_key"] != keyv:
                c.bad(R, site, f"stored under a key different from the one in the entry ({p.loc})", st, k)
            elif "data" in fl and data not in provenance(st, fl["data"]):
                c.bad(R, site, f"stored without its data at {p.loc}", st, k)
            elif "retries" in fl and fl["retries"][0] == "K" and fl["retries"][2] != 0:
                c.bad(R, site, f"stored with attempt count {show(fl['retries'])} at {p.loc}", st, k)
            else:
                c.ok(R, 1, f"{site}: {p.loc}")
        elif k == "raise" and ps:
            c.bad(R, site, f"fails with {show(val)} after the message was stored", st, k)


# ====================================================================== C08, C09
PROC_FLAG = {"handler": "is_processing_paused", "sender": "is_send_process_paused"}
PAUSE = {"handler": "pause_processing", "sender": "pause_send_process"}
UNPAUSE = {"handler": "unpause_processing", "sender": "unpause_send_process"}


def flag_attr(c, side, getter):
    """name of the attribute a is_..._paused() method reports"""
    f = c.find(side.base, getter)
    it = mk(c, side.kind, may_raise=False)
    names = set()
    for st, k, v in c.run(it, f, "flag"):
        for e in evs(st, "read"):
            if e.recv == side.selfval and e.res is not None and v is not None and mentions(v, e.res):
                names.add(e.label)
    if len(names) != 1:
        raise AnalysisBroken(f"{f.qual}: can not tell which field holds the flag ({sorted(names)})")
    return names.pop()


def suspends(st, frm, to=None):
    return [e for e in evs(st, "suspend") if e.n > frm and (to is None or e.n < to)]


def wake(c, it, st, side, wq, after):
    """is a worker known to be running or started on this path at a point from which nothing suspends before `after`,
    or later?"""
    for e in evs(st, "spawn"):
        t = (e.info or {}).get("target")
        if t is not None and t.qual in wq and (e.n > after or not suspends(st, e.n, after)):
            return "started"
    # a running one: the worker's task is known not to be done
    for k, v in st.facts.items():
        if k[0] == "A" and k[1] == "done" and v is False:
            # when was it asked?
            rd = [e for e in evs(st, "read") if mentions(k, e.res)]
            if rd and (rd[-1].n > after or not suspends(st, rd[-1].n, after)):
                return "running"
            if not rd:
                return "running"
    return None


def other_evidence(st, side):
    """some other test of the object's own state that could stand for 'a worker is running'"""
    for k, v in st.facts.items():
        for t in subterms(k):
            if t[0] == "A" and t[1] == "attr" and t[2] == side.selfval and ("run" in t[3] or "task" in t[3] or "work" in t[3]):
                return True
    return False


def spawn_sites(c, side):
    """(method, interp, state, event) for every task started by a method of the class"""
    for m in side_methods(c, side.base):
        if c.p.in_constructor(m):
            continue
        it = mk(c, side.kind, may_raise=False)
        for st, k, v in c.run(it, m, "worker"):
            for e in evs(st, "spawn"):
                yield m, it, st, e


def worker_quals(c, side, rule):
    return {w.qual for w, _, _ in worker_paths(c, side, rule, may_raise=False)}


def check_C08(c):
    anchors(c)
    R = "C08.wake"
    c.rule(R, "every path on which a message is put into pending from outside the worker, processing is resumed or the queue is set up "
              "ends with the worker known to be running, or started", 10)
    RW = "C08.drain"
    c.rule(RW, "the worker ends only after it saw the queue empty or paused, with nothing in between that lets another task run, "
               "and no failure of a single message ends it", 6)
    for kind in KINDS:
        side = Side(c, kind)
        wps = worker_paths(c, side, R, extra_opaque=("process_buffered_request",))
        wq = {w.qual for w, _, _ in wps}
        flag = flag_attr(c, side, PROC_FLAG[kind])
        entries = ["setup", UNPAUSE[kind], "reprocess_error_queue", "reprocess_error_queue_span_key"]
        entries += ["run"] if kind == "handler" else ["enqueue"]
        for m in entries:
            f = c.find(side.base, m)
            it = mk(c, kind, may_raise=False, extra_opaque=("collect_push_metadata",))
            for st, k, val in c.run(it, f, R):
                if k != "return":
                    continue
                after = None
                if m == "setup":
                    q = [e for e in evs(st, "set") if e.recv == side.selfval and isinstance(it.tclass(it.typeof(st, e.args[0])), Class)
                         and it.tclass(it.typeof(st, e.args[0])).name == "PendingQueue"]
                    after = max([e.n for e in q], default=0)
                elif m == UNPAUSE[kind]:
                    after = max([e.n for e in evs(st, "set") if e.label == flag], default=0)
                else:
                    ps = [p for p in own_pushes(c, st)]
                    if not ps and m in ("run", "enqueue", "reprocess_error_queue_span_key"):
                        continue
                    after = max([p.n for p in ps], default=0)
                    fl = [e.n for e in evs(st, "set") if e.label == flag]
                    after = max([after] + fl)
                w = wake(c, it, st, side, wq, after)
                if w:
                    c.ok(R, 1, f"{f.qual}: worker {w}")
                elif other_evidence_only(st, side, wq):
                    c.undecided(R, f.qual, "tests its own state in a way the rule does not know")
                else:
                    c.bad(R, f.qual, "can end with a pending message and no worker running or started", st, k)
                if m == "setup":
                    v = st.heap.get((side.selfval, flag))
                    if v is not None and it.truth(st, v) is True:
                        c.bad(R, f.qual, f"after setup {flag} is still set: nothing is processed", st, k)
        for w, it, outs in wps:
            for st, k, val in outs:
                site = w.qual
                if k == "raise":
                    cl, _ = it.exc_cls(st, val)
                    if it.is_exc_sub(cl, "Exception") and pops(c, st):
                        c.bad(RW, site, f"a single message failing with {show(val)} ends the worker while others are pending", st, k)
                    else:
                        c.ok(RW)
                    continue
                if k != "return":
                    continue
                # what the worker saw last
                last = None
                for e in st.trace:
                    if e.kind == "opaque" and e.label in (f"{QUEUE}.is_empty", f"{QUEUE}.size") and queue_role(c, e.recv) == "pending":
                        tr = it.truth(st, e.res)
                        if tr is None and e.label.endswith(".size"):
                            lo, hi = it.bound(st, e.res)
                            tr = None if hi is None or hi > 0 else False
                        if tr is (True if e.label.endswith("is_empty") else False):
                            last = e
                    elif e.kind == "read" and e.label == flag and it.truth(st, e.res) is True:
                        last = e
                    elif e.kind == "opaque" and e.label == f"{QUEUE}.pop" and queue_role(c, e.recv) == "pending" and \
                            (known_none(it, st, e.res) is True or it.truth(st, e.res) is False):
                        last = e
                if last is None:
                    seen = [e for e in st.trace if e.kind == "opaque" and e.label in (f"{QUEUE}.is_empty", f"{QUEUE}.size")
                            and it.truth(st, e.res) is None and it.bound(st, e.res) == (None, None)
                            and any(mentions(k2, e.res) for k2 in st.facts)]
                    if seen:
                        c.undecided(RW, site, "the test that ends the worker is outside the domain")
                    else:
                        c.bad(RW, site, "the worker can end although messages may be pending and processing is not paused", st, k)
                    continue
                if last.kind == "opaque" and last.label != f"{QUEUE}.pop":
                    pass
                s = suspends(st, last.n)
                if s and not (last.kind == "read"):
                    c.bad(RW, site, f"another task can run at {s[0].loc} after the queue was seen empty: a message stored then is not worked on", st, k)
                elif s:
                    c.bad(RW, site, f"another task can run at {s[0].loc} after the pause was seen: a resume then has no effect", st, k)
                else:
                    c.ok(RW, 1, f"{site}: ends after {last}")


def other_evidence_only(st, side, wq):
    return other_evidence(st, side) and not any(k[0] == "A" and k[1] == "done" for k in st.facts) and \
        not any((e.info or {}).get("target") is not None and e.info["target"].qual in wq for e in evs(st, "spawn"))


def task_done(st, t):
    return any(v is True and k[0] == "A" and k[1] in ("done", "cancelled") and k[2] == t for k, v in st.facts.items())


def check_C09(c):
    anchors(c)
    R = "C09.single"
    c.rule(R, "a worker task is started only where the previous one is known to be absent or done, and is remembered where that is "
              "looked up, with nothing in between that lets another task run", 4)
    R2 = "C09.owner"
    c.rule(R2, "messages are taken out of pending only by the worker, and the worker is only ever started as a task", 10)
    for kind in KINDS:
        side = Side(c, kind)
        wq = worker_quals(c, side, R)
        for m, it, st, e in spawn_sites(c, side):
            t = (e.info or {}).get("target")
            if t is None or t.qual not in wq:
                continue
            stored = [x for x in evs(st, "set") if x.n > e.n and x.args and x.args[0] == e.res and x.recv == side.selfval]
            if not stored:
                if any(x for x in evs(st, "set", "setitem", "mut", "setglobal") if x.n > e.n and any(isinstance(a, tuple) and mentions(a, e.res) for a in x.args)):
                    c.undecided(R, m.qual, "task remembered in a container")
                else:
                    c.bad(R, m.qual, f"the worker started at {e.loc} is not remembered: a second one can be started beside it", st)
                continue
            attr = stored[0].label
            if suspends(st, e.n, stored[0].n):
                c.bad(R, m.qual, f"another task can run between starting the worker at {e.loc} and remembering it", st)
                continue
            reads = [x for x in evs(st, "read") if x.label == attr and x.recv == side.selfval and x.n < e.n]
            guard = None
            for x in reads:
                if known_none(it, st, x.res) is True or task_done(st, x.res) or x.res[0] == "K":
                    guard = x
            # value put there by this very path: a second start in the same call
            dbl = [x for x in evs(st, "spawn") if x.n < e.n and (x.info or {}).get("target") is not None and x.info["target"].qual in wq]
            if dbl:
                if any(task_done(st, x.res) for x in dbl):
                    c.ok(R)
                    continue
            if guard is None:
                if other_evidence(st, side) and not reads:
                    # some other flag: it must be set here and now
                    flags = [x for x in evs(st, "read") if x.recv == side.selfval and it.truth(st, x.res) is False and x.n < e.n]
                    setnow = [x for x in evs(st, "set") if x.recv == side.selfval and x.args[0] == TRUE and any(x.label == y.label for y in flags)
                              and not suspends(st, min(x.n, e.n), max(x.n, e.n))]
                    if setnow:
                        c.undecided(R, m.qual, "worker guarded by a flag instead of its task")
                        continue
                if c.p.inner(m):
                    continue        # part of other methods, which are judged with it
                c.bad(R, m.qual, f"a worker is started at {e.loc} without knowing that none is running", st)
            elif suspends(st, guard.n, e.n):
                c.bad(R, m.qual, f"another task can run between the look at {attr} and starting the worker at {e.loc}", st)
            else:
                c.ok(R, 1, f"{m.qual}: {e.loc} guarded by {attr}")
        for m in side_methods(c, side.base):
            if c.p.in_constructor(m) or m.qual in wq:
                continue
            if calls_only_from(c, m, wq):
                continue
            it = mk(c, kind, may_raise=False, extra_opaque=("collect_push_metadata",))
            bad = False
            for st, k, val in c.run(it, m, R2):
                ps = pops(c, st)
                if ps:
                    bad = True
                    c.bad(R2, m.qual, f"takes a message out of pending at {ps[0].loc} outside the single worker", st)
            if not bad:
                c.ok(R2)


def calls_only_from(c, m, wq):
    """private method reachable only through the worker"""
    if not m.name.startswith("_"):
        return False
    callers = set()
    for f in c.p.funcs:
        if f.cls is m.cls and f is not m:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and mangle_name(n.attr, f) == mangle_name(m.name, m):
                    callers.add(f.qual)
    if not callers:
        return False
    return all(q in wq or calls_only_from_name(c, q, wq, {m.qual}) for q in callers)


def calls_only_from_name(c, q, wq, seen):
    f = next((x for x in c.p.funcs if x.qual == q), None)
    if f is None or q in seen:
        return False
    return f.qual in wq or (f.name.startswith("_") and calls_only_from(c, f, wq))


def mangle_name(n, f):
    from engine.program import mangle
    return mangle(n, f.cls.name if f.cls else None)


# ====================================================================== C10
def check_C10(c):
    anchors(c)
    R = "C10.gate"
    c.rule(R, "a request is stored only where receiving was just seen not to be paused, and a message is taken only where processing was "
              "just seen not to be paused, with nothing in between that lets another task run", 6)
    RF = "C10.flag"
    c.rule(RF, "pausing sets and resuming clears exactly the flag that is looked at and reported; no other operation of the class ends a pause", 20)
    for kind in KINDS:
        side = Side(c, kind)
        proc = flag_attr(c, side, PROC_FLAG[kind])
        flags = {proc: (PAUSE[kind], UNPAUSE[kind], PROC_FLAG[kind])}
        if kind == "handler":
            recv = flag_attr(c, side, "is_receiving_paused")
            flags[recv] = ("pause_receiving", "unpause_receiving", "is_receiving_paused")
            if recv == proc:
                c.bad(RF, side.base.qual, "receiving and processing share one flag", None)
            f = c.find(side.base, "run")
            it = mk(c, kind, may_raise=False, extra_opaque=("collect_push_metadata",))
            for st, k, val in c.run(it, f, R):
                for p in own_pushes(c, st):
                    rd = [e for e in evs(st, "read") if e.label == recv and e.n < p.n and it.truth(st, e.res) is False]
                    if not rd:
                        c.bad(R, f.qual, f"a request is stored at {p.loc} without looking whether receiving is paused", st)
                    elif suspends(st, rd[-1].n, p.n):
                        s = suspends(st, rd[-1].n, p.n)[0]
                        c.bad(R, f.qual, f"receiving can be paused at {s.loc} between the look and the store at {p.loc}", st)
                    else:
                        c.ok(R, 1, f"{f.qual}: {p.loc}")
        for w, it, outs in worker_paths(c, side, R, extra_opaque=("process_buffered_request",)):
            for st, k, val in outs:
                for p in pops(c, st):
                    rd = [e for e in evs(st, "read") if e.label == proc and e.n < p.n and it.truth(st, e.res) is False]
                    if not rd:
                        c.bad(R, w.qual, f"a message is taken at {p.loc} without looking whether processing is paused", st)
                    elif suspends(st, rd[-1].n, p.n):
                        s = suspends(st, rd[-1].n, p.n)[0]
                        c.bad(R, w.qual, f"processing can be paused at {s.loc} between the look and the take at {p.loc}", st)
                    else:
                        c.ok(R)
        # the loop looks again before each message: covered, every iteration starts from a forgotten state
        for attr, (pa, un, getter) in flags.items():
            for m, want in ((pa, True), (un, False)):
                f = c.find(side.base, m)
                it = mk(c, kind, may_raise=False)
                for st, k, val in c.run(it, f, RF):
                    if k != "return":
                        continue
                    v = st.heap.get((side.selfval, attr))
                    if v is None or it.truth(st, v) is not want:
                        c.bad(RF, f.qual, f"does not leave {attr} {'set' if want else 'cleared'}", st, k)
                    else:
                        c.ok(RF)
                    for o in flags:
                        if o != attr and any(e.label == o for e in evs(st, "set")):
                            c.bad(RF, f.qual, f"also changes {o}", st, k)
            f = c.find(side.base, getter)
            it = mk(c, kind, may_raise=False)
            for st, k, val in c.run(it, f, RF):
                if k != "return":
                    continue
                rd = [e for e in evs(st, "read") if e.label == attr]
                tr = it.truth(st, val)
                if rd and val == rd[-1].res or (rd and tr is not None and it.truth(st, rd[-1].res) is tr):
                    c.ok(RF)
                elif rd and val in (A("not", rd[-1].res),) or (rd and tr is not None and it.truth(st, rd[-1].res) is not None and it.truth(st, rd[-1].res) is not tr):
                    c.bad(RF, f.qual, f"reports the opposite of {attr}", st, k)
                else:
                    c.undecided(RF, f.qual, f"returns {show(val)}")
            for m in list(side.base.methods.values()):
                if m.name == "__init__" or m.name in (un, "setup") or m.name.startswith("_"):
                    continue
                it = mk(c, kind, may_raise=True, extra_opaque=("collect_push_metadata", "process_buffered_request"))
                for st, k, val in c.run(it, m, RF):
                    if k == "cut":
                        continue
                    sets = [e for e in evs(st, "set") if e.label == attr and e.recv == side.selfval]
                    if not sets:
                        c.ok(RF)
                        continue
                    for e, nxt in zip(sets, sets[1:]):
                        if e.args[0] == K(False) and suspends(st, e.n, nxt.n) and not any(
                                x.n < e.n and it.truth(st, x.res) is False for x in evs(st, "read") if x.label == attr):
                            c.bad(RF, m.qual, f"ends a pause for a while: clears {attr} at {e.loc}, and another task can run before {nxt.loc}", st, k)
                    v = sets[-1].args[0]
                    if it.truth(st, v) is True:
                        if m.name in (pa, "shut_down"):
                            c.ok(RF)
                        else:
                            rd0 = [e for e in evs(st, "read") if e.label == attr and e.n < sets[0].n]
                            if any(it.truth(st, x.res) is True for x in rd0):
                                c.ok(RF)
                            elif k == "raise":
                                c.ok(RF)
                            else:
                                c.bad(RF, m.qual, f"leaves {attr} set: processing stays paused although nobody paused it", st, k)
                        continue
                    rd = [e for e in evs(st, "read") if e.label == attr and e.res == v and e.n < sets[-1].n]
                    if v[0] == "K" or (it.truth(st, v) is False and not rd):
                        rd0 = [e for e in evs(st, "read") if e.label == attr and e.n < sets[-1].n and it.truth(st, e.res) is False]
                        if rd0 and not suspends(st, rd0[0].n, sets[-1].n):
                            c.ok(RF)
                        else:
                            c.bad(RF, m.qual, f"ends a pause: clears {attr} at {sets[-1].loc}", st, k)
                    elif rd and suspends(st, rd[0].n, sets[-1].n):
                        c.bad(RF, m.qual, f"restores {attr} at {sets[-1].loc} to what it was before another task could run: a pause made meanwhile is undone", st, k)
                    elif rd:
                        c.ok(RF, 1, f"{m.qual}: restores {attr}")
                    else:
                        c.undecided(RF, m.qual, f"{attr} set to {show(v)}")
        # nobody else touches the flags
        for f in c.p.funcs:
            if f.cls is side.base or isinstance(f.node, ast.Lambda) or (f.cls is not None and c.p.is_subclass(f.cls, "BufferedSenderBase" if kind == "handler" else "BufferedRequestHandlerBase")):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in flags:
                    c.bad(RF, f.qual, f"{n.attr} is changed from outside the class at line {n.lineno}")
