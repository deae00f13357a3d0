"""Queue management operations (C11)."""
import ast

from .base import *
from . import buffered as B

MUTATORS = {"push", "pop", "pop_span_key", "clear", "shut_down"}
SHAPES = {
    "handler": ("eco.buffered_handler.", {
        "data": {}, "receiving.pause": {"recv": True}, "receiving.unpause": {"recv": False}, "processing.pause": {"proc": True},
        "processing.unpause": {"proc": False}, "all.pause": {"recv": True, "proc": True}, "all.unpause": {"recv": False, "proc": False},
        "errors.get_first_10": {}, "errors.reprocess.all": {}, "errors.clear": {}, "errors.reprocess.one": {}, "errors.pop_request": {},
        "errors.inspect_request": {}}),
    "sender": ("eco.buffered_sender.", {
        "data": {}, "send_process.pause": {"proc": True}, "send_process.unpause": {"proc": False}, "errors.get_first_10": {},
        "errors.reprocess.all": {}, "errors.clear": {}, "errors.reprocess.one": {}, "errors.pop_request": {},
        "errors.inspect_request": {}}),
}
GETTERS = {"handler": {"recv": "is_receiving_paused", "proc": "is_processing_paused"}, "sender": {"proc": "is_send_process_paused"}}
REPLY = {"handler": {"recv": "receiving_paused", "proc": "processing_paused"}, "sender": {"proc": "send_process_paused"}}


def const_str(c, f, node):
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        return node.value
    if isinstance(node, ast.Name):
        for n in f.module.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in n.targets) and \
                    isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                return n.value.value
    return None


def endpoints(c, deco=("endpoint",)):
    """route -> (function, decorator call) for every function decorated as an endpoint"""
    out = {}
    for f in c.p.funcs:
        for d in getattr(f.node, "decorator_list", []):
            if isinstance(d, ast.Call):
                n = d.func.id if isinstance(d.func, ast.Name) else d.func.attr if isinstance(d.func, ast.Attribute) else None
                if n in deco:
                    a = d.args[0] if d.args else next((k.value for k in d.keywords if k.arg == "route_key"), None)
                    r = const_str(c, f, a) if a is not None else None
                    out.setdefault(r, []).append((f, d))
    return out


def outer(recv):
    """a receiver that outlives the operation"""
    return recv is not None and recv[0] != "O"


def task_attr_set(st, e):
    """the set event stores a task spawned here"""
    return any(s.kind == "spawn" and s.res is not None and e.args and mentions(e.args[0], s.res) for s in st.trace)


def check_C11(c):
    B.anchors(c)
    R = "C11.operation"
    c.rule(R, "on every path of every management endpoint the effects (queue operations, flags, other state) are exactly those of its "
              "operation, on the buffer named in the request, with the entry named in the request", 20)
    RU = "C11.unknown"
    c.rule(RU, "for a name no buffer is registered under, no effect and a reply without queue data", 20)
    RR = "C11.reply"
    c.rule(RR, "the reply carries the sizes and flags as they are after the operation, and the data of the message concerned", 20)
    RK = "C11.registry"
    c.rule(RK, "a buffer is registered for management under its own route key", 2)
    eps = endpoints(c)
    for kind, (prefix, shapes) in SHAPES.items():
        side = B.Side(c, kind)
        flags = {k: B.flag_attr(c, side, g) for k, g in GETTERS[kind].items()}
        for suffix, spec in shapes.items():
            fs = eps.get(prefix + suffix)
            if not fs:
                raise AnalysisBroken(f"no endpoint for {prefix + suffix}")
            one(c, side, flags, suffix, spec, fs[0][0], R, RU, RR)
        registry(c, kind, RK)


def registry(c, kind, R):
    cl = c.cls("BufferedHandlerKeeper" if kind == "handler" else "BufferedSenderKeeper")
    f = c.find(cl, "add_buffered_" + kind)
    it = B.mk(c, kind, may_raise=False, extra_opaque=("get_route_key",))
    for st, k, v in c.run(it, f, R):
        if k != "return":
            continue
        arg = ("S", f.node.args.args[1].arg)
        s = [e for e in evs(st, "setitem")]
        if not s:
            if not any(e.kind in ("mut", "call") for e in st.trace):
                c.bad(R, f.qual, "a buffer is not registered for management", st, k)
            else:
                c.undecided(R, f.qual, "registered in an unknown way")
            continue
        e = s[0]
        ok_key = any(t[0] == "R" and t[2].endswith("get_route_key") for t in provenance(st, e.args[0])) or \
            any(t[0] == "A" and t[1] == "attr" and "route_key" in str(t[3]) for t in provenance(st, e.args[0]))
        if e.args[0][0] == "K":
            c.bad(R, f.qual, f"a buffer is registered under {show(e.args[0])} instead of its route key", st, k)
        elif ok_key:
            c.ok(R)
        else:
            c.undecided(R, f.qual, f"registered under {show(e.args[0])}")


def one(c, side, flags, suffix, spec, f, R, RU, RR):
    it = B.mk(c, side.kind, may_raise=False)
    dtop = f.node.args.args[0].arg if f.node.args.args else "dto"
    if not any(a.arg == "dto" for a in f.node.args.args + f.node.args.kwonlyargs):
        c.undecided(R, f.qual, "no dto parameter")
        return
    outs = c.run(it, f, R)
    op = suffix
    site = f"{f.qual} ({suffix})"
    for st, k, v in outs:
        path(c, it, side, flags, op, spec, f, site, st, k, v, R, RU, RR)


def is_rk(t):
    return t[0] == "A" and t[1] == "attr" and t[3] == "queue_route_key"


def known(it, st):
    """True / False / None: is the named buffer registered on this path"""
    for fct, val in st.facts.items():
        if fct[0] == "A" and fct[1] in ("in", "notin") and is_rk(fct[2]):
            return val if fct[1] == "in" else not val
    for fct, val in st.facts.items():
        if fct[0] == "A" and fct[1] == "is" and NONE in fct[2:] and any(is_rk(t) for t in subterms(fct)) and \
                any(t[0] == "A" and t[1] in ("get", "item", "getitem") for t in subterms(fct)) and last_attr(fct[2]) is None and last_attr(fct[3]) is None:
            return not val
    return None


def path(c, it, side, flags, op, spec, f, site, st, k, v, R, RU, RR):
    # what can not be: a stored entry without data, a validated message that is falsy
    for fct, val in st.facts.items():
        if fct[0] == "A" and fct[1] == "is" and val is True and NONE in fct[2:] and "data" in (last_attr(fct[2]), last_attr(fct[3])):
            return
        if val is False and last_attr(fct) == "data" and B.is_queue_ev(ev_of(st, attr_chain(fct)[1])) and k == "return" and \
                not isinstance(v, tuple):
            return
        e = ev_of(st, fct) or (next((ev_of(st, x) for x in fct[2:4] if ev_of(st, x)), None) if fct[0] == "A" and fct[1] == "is" and NONE in fct[2:] and val else None)
        if e is not None and (val is False or fct[0] == "A") and ("**" in e.kw or e.label.endswith(".get_first_x_span_keys") and fct[0] == "A"):
            return
    kn = known(it, st)
    qev = [e for e in evs(st, "opaque") if B.is_queue_ev(e)]
    muts = [e for e in qev if e.label.split(".")[1] in MUTATORS]
    sets = [e for e in st.trace if e.kind in ("set", "setitem", "delitem", "delattr", "mut", "setglobal") and
            outer(e.recv) and not task_attr_set(st, e) and not bookkeeping(e)]
    bad = lambda r, m: c.bad(r, site, m, st, k)
    if k == "raise":
        if kn is False:
            bad(RU, f"fails for an unknown name with {show(v)}")
        return
    if kn is False:
        eff = muts + sets + evs(st, "spawn")
        if eff:
            bad(RU, f"has an effect for an unknown name: {eff[0]!r}")
            return
        if k == "return":
            fl = entry_fields(it, st, v)
            if fl is None:
                c.undecided(RU, site, f"replies {show(v)}")
            elif fl.get("queue_data", NONE) != NONE:
                bad(RU, "replies with queue data for an unknown name")
            elif "message" not in fl:
                bad(RU, "does not say that the name is unknown")
            else:
                c.ok(RU)
        return
    if kn is None:
        if muts or sets:
            c.undecided(R, site, "can not tell whether the name is known")
        else:
            c.undecided(RU, site, "can not tell whether the name is known")
        return
    # ---- only the named buffer
    for e in muts + sets + [x for x in qev if x not in muts]:
        if not any(is_rk(t) for t in provenance(st, e.recv)) and not (e.info or {}).get("local"):
            bad(R, f"acts on something else than the named buffer: {e!r}")
            return
    # ---- flags
    fin = {}
    flagsets = []
    for e in sets:
        hit = [n for n, a in flags.items() if e.kind == "set" and e.label == a]
        if hit:
            flagsets.append(e)
            fin[hit[0]] = e.args[0]
        else:
            bad(R, f"changes something it should not: {e!r}")
            return
    initial = lambda n, val: val is not None and last_attr(val) == flags[n]
    for n in flags:
        if n in spec:
            if k == "cut":
                continue
            if n not in fin:
                # nothing to do when it already is so: a path that saw that
                bad(R, f"leaves {flags[n]} as it was")
                return
            if fin[n] != K(spec[n]):
                bad(R, f"sets {flags[n]} to {show(fin[n])}")
                return
        elif n in fin and k == "return":
            if not initial(n, fin[n]):
                if fin[n][0] == "K":
                    bad(R, f"leaves {flags[n]} set to {show(fin[n])}")
                    return
                c.undecided(R, site, f"{flags[n]} set to {show(fin[n])}")
                return
    # ---- queue operations
    role = lambda e: B.queue_role(c, e.recv)
    name = lambda e: e.label.split(".")[1]
    key = lambda e: e.kw.get("span_key")
    is_sk = lambda val: val is not None and last_attr(val) == "span_key" and attr_chain(val)[1][0] == "S"
    loops = evs(st, "loop")
    sig = [(role(e), name(e)) for e in muts]
    concerned = None
    if op.startswith("errors.reprocess.all"):
        for i, e in enumerate(muts):
            if (role(e), name(e)) == ("error", "pop") or (role(e), name(e)) == ("error", "pop_span_key"):
                if known_none(it, st, e.res) is True or it.truth(st, e.res) is False:
                    continue
                nxt = [x for x in muts if x.n > e.n and (role(x), name(x)) == ("pending", "push")]
                if not nxt:
                    bad(R, f"an error entry is taken out at {e.loc} and not put back to pending")
                    return
                if e.res not in provenance(st, nxt[0].kw.get("object_to_queue")):
                    bad(R, f"what is put back to pending at {nxt[0].loc} is not the error entry taken out")
                    return
            elif (role(e), name(e)) == ("pending", "push"):
                continue
            else:
                bad(R, f"does {name(e)} on the {role(e)} queue at {e.loc}")
                return
        if k == "return":
            sizes = [e for e in qev if role(e) == "error" and name(e) in ("size", "is_empty")]
            done = any(known_none(it, st, e.res) is True for e in muts if (role(e), name(e)) == ("error", "pop"))
            verdict = None
            before_reply = [e for e in sizes if loops and e.n > loops[0].n]
            guards = [e for e in sizes]
            for e in guards:
                if name(e) == "is_empty":
                    if it.truth(st, e.res) is True:
                        done = True
                    continue
                lo, hi = it.bound(st, e.res)
                if hi is not None and hi <= 0 or it.truth(st, e.res) is False:
                    done = True
                elif hi is not None:
                    verdict = f"stops while up to {hi} error entries are left"
            from_size = any(l.info.get("coll") is not None and any(x.res in provenance(st, l.info["coll"]) for x in sizes) for l in loops)
            if not done and verdict and not from_size:
                bad(R, verdict)
                return
            asked = any(x.res in set(subterms(t)) for x in qev for t in st.facts)
            if not done and not loops and not muts and not asked:
                bad(R, "reprocesses nothing")
                return
            if not done and not from_size:
                const = [l for l in loops if l.info.get("coll") is not None and all(t[0] in ("K", "A") for t in subterms(l.info["coll"]))]
                if const:
                    bad(R, f"reprocesses a fixed number of error entries at {const[0].loc}")
                    return
                c.undecided(R, site, "can not tell that every error entry is reprocessed")
                return
    elif op == "errors.reprocess.one":
        if k == "cut":
            return
        p = [e for e in muts if (role(e), name(e)) == ("error", "pop_span_key")]
        if not p:
            bad(R, "takes nothing out of the error queue")
            return
        if not is_sk(key(p[0])):
            bad(R, f"takes out the entry with key {show(key(p[0])) if key(p[0]) else 'none'} at {p[0].loc}")
            return
        rest = [e for e in muts if e is not p[0]]
        gone = known_none(it, st, p[0].res) is True or it.truth(st, p[0].res) is False
        if gone:
            if rest:
                bad(R, f"does {name(rest[0])} on the {role(rest[0])} queue although there is no such error entry")
                return
        else:
            ps = [e for e in rest if (role(e), name(e)) == ("pending", "push")]
            if not ps:
                bad(R, f"the error entry taken out at {p[0].loc} is not put back to pending")
                return
            if len(rest) > 1:
                bad(R, f"does {name(rest[1])} on the {role(rest[1])} queue at {rest[1].loc}")
                return
            if p[0].res not in provenance(st, ps[0].kw.get("object_to_queue")):
                bad(R, f"what is put back to pending at {ps[0].loc} is not the error entry taken out")
                return
            concerned = p[0]
        if not gone:
            concerned = p[0]
    else:
        want = {"errors.clear": [("error", "clear")], "errors.pop_request": [("error", "pop_span_key")]}.get(op, [])
        if k == "cut":
            extra = [s for s in sig if s not in want]
            if extra:
                bad(R, f"does {extra[0][1]} on the {extra[0][0]} queue")
            return
        if sorted(map(str, sig)) != sorted(map(str, want)):
            miss = [w for w in want if w not in sig]
            extra = [s for s in sig if s not in want] or [s for s in sig if sig.count(s) > 1]
            bad(R, (f"does not do {miss[0][1]} on the {miss[0][0]} queue" if miss else f"does {extra[0][1]} on the {extra[0][0]} queue"))
            return
        if op == "errors.pop_request":
            e = muts[0]
            if not is_sk(key(e)):
                bad(R, f"takes out the entry with key {show(key(e)) if key(e) else 'none'} at {e.loc}")
                return
            if known_none(it, st, e.res) is not True and it.truth(st, e.res) is not False:
                concerned = e
        if op == "errors.inspect_request":
            ins = [e for e in qev if name(e) == "inspect_span_key"]
            if not ins:
                if any(name(e) not in ("size",) for e in qev):
                    c.undecided(R, site, "inspects in an unknown way")
                else:
                    bad(R, "looks nothing up")
                return
            if role(ins[0]) != "error":
                bad(R, "looks into the pending queue")
                return
            if not is_sk(key(ins[0])):
                bad(R, f"looks up key {show(key(ins[0]))}")
                return
            if known_none(it, st, ins[0].res) is not True and it.truth(st, ins[0].res) is not False:
                concerned = ins[0]
        if op == "errors.get_first_10":
            g = [e for e in qev if name(e) == "get_first_x_span_keys"]
            if g and role(g[0]) != "error":
                bad(R, "lists the keys of the pending queue")
                return
            if g and g[0].kw.get("how_many", K(10)) != K(10):
                if g[0].kw["how_many"][0] == "K":
                    bad(R, f"lists {show(g[0].kw['how_many'])} keys instead of 10")
                    return
    if k != "return":
        return
    c.ok(R, 1, f"{site}: {sig} {[(n, show(x)) for n, x in fin.items()]}")
    # ---- the reply
    fl = entry_fields(it, st, v)
    if fl is None:
        c.undecided(RR, site, f"replies {show(v)}")
        return
    item_op = op in ("errors.reprocess.one", "errors.pop_request", "errors.inspect_request")
    if item_op and concerned is None:
        # no such entry: nothing to report, but said so
        if fl.get("request_data", NONE) != NONE:
            bad(RR, "reports a message although there is none with that key")
        else:
            c.ok(RR)
        return
    if op == "errors.get_first_10":
        g = [e for e in qev if name(e) == "get_first_x_span_keys"]
        if g and g[0].res not in provenance(st, fl.get("queue_data", NONE)):
            bad(RR, "does not reply with the keys")
        else:
            c.ok(RR)
        return
    qd = fl.get("queue_data", NONE)
    info = entry_fields(it, st, qd) if qd != NONE else None
    if qd == NONE:
        bad(RR, "replies without queue data for a known name" + (f" although an entry was taken at {concerned.loc}" if concerned else ""))
        return
    if info is None:
        c.undecided(RR, site, f"queue data {show(qd)}")
        return
    fine = True
    if "route_key" in info and not any(is_rk(t) for t in provenance(st, info["route_key"])):
        bad(RR, f"reports route key {show(info['route_key'])}")
        fine = False
    for n, field in REPLY[side.kind].items():
        val = info.get(field)
        if val is None:
            continue
        want = fin.get(n)
        if want is not None:
            if val != want and not (val[0] != "K" and initial(n, want) and initial(n, val)):
                if val[0] == "K" or last_attr(val) in flags.values():
                    bad(RR, f"reports {field} as {show(val)} instead of its value after the operation, {show(want)}")
                    fine = False
                else:
                    c.undecided(RR, site, f"{field} reported as {show(val)}")
        else:
            if last_attr(val) != flags[n]:
                if val[0] == "K" or last_attr(val) in flags.values():
                    bad(RR, f"reports {field} as {show(val)} instead of the flag {flags[n]}")
                    fine = False
    sz = entry_fields(it, st, info.get("database_sizes")) if info.get("database_sizes") is not None else None
    if sz:
        last = max([e.n for e in muts] + [e.n for e in loops if op == "errors.reprocess.all"], default=-1)
        for which in ("pending", "error"):
            e = ev_of(st, sz.get(which))
            if e is None or not B.is_queue_ev(e) or name(e) != "size":
                if sz.get(which) is not None and sz[which][0] == "K":
                    bad(RR, f"reports {show(sz[which])} as the size of the {which} queue")
                    fine = False
                else:
                    c.undecided(RR, site, f"size reported as {show(sz.get(which, NONE))}")
                continue
            if role(e) != which:
                bad(RR, f"reports the size of the {role(e)} queue as that of the {which} queue")
                fine = False
            elif e.n < last:
                bad(RR, f"reports the size of the {which} queue as it was before the operation (read at {e.loc})")
                fine = False
    if item_op and concerned is not None:
        rd = fl.get("request_data", NONE)
        if rd == NONE:
            bad(RR, "does not report the message concerned")
            fine = False
        elif concerned.res not in provenance(st, rd):
            bad(RR, f"reports {show(rd)} instead of the message concerned")
            fine = False
    if fine:
        c.ok(RR, 1, f"{site}")


def ev_of(st, r):
    if isinstance(r, tuple) and r and r[0] == "R" and r[1] < len(st.trace) and st.trace[r[1]].res == r:
        return st.trace[r[1]]
    return None


def bookkeeping(e):
    """counters and logging are no part of a queue's state"""
    n = str(e.label)
    return n in ("log", "logger")
