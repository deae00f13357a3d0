"""C26: no log record is dropped and each is one line."""
import ast

from rules.base import *
from rules.servers import tail

LEVELS = {"debug": (10, ("DEBUG",)), "info": (20, ("INFO",)), "warn": (30, ("WARNING", "WARN")), "error": (40, ("ERROR",)), "critical": (50, ("CRITICAL", "FATAL"))}


def is_level(v, name):
    n, names = LEVELS[name]
    return v == K(n) or (v[0] == "X" and v[1].split(".")[-1] in names) or (v[0] == "K" and v[1] == "str" and v[2] in names)


def level_known(v):
    return (v[0] == "K" and v[1] in ("int", "str")) or (v[0] == "X" and any(v[1].split(".")[-1] in x[1] for x in LEVELS.values()))


def mentions_attr(v, name):
    return isinstance(v, tuple) and any(t[:2] == ("A", "attr") and t[3] == name for t in subterms(v) if isinstance(t, tuple))


def from_context(st, v):
    """comes from the span key of the request being handled at this moment"""
    return any("current_span_key" in str(t) for t in provenance(st, v) if t[0] in ("S", "A", "R"))


def check_C26(c):
    RE, RF, RS, RL, RO, RK = "record-kept", "flush-writes-all", "size-change", "level-and-setup", "one-line", "span-of-the-logging-request"
    RT = "flush-locked"
    c.rule(RT, "a flush asked for by the application holds the handler's lock from reading the buffer until it is empty: no record of another thread falls between", 1)
    c.rule(RE, "emit puts every record it is given into the buffer (or, after the buffer was written, into the file), and a full buffer is written", 1)
    c.rule(RF, "flush hands every buffered record to the file in order and empties the buffer only afterwards, once", 1)
    c.rule(RS, "changing the buffer size changes when the buffer is written and takes nothing out of it", 1)
    c.rule(RL, "each level name sets that level on the logger and on its handlers; the file handler is installed, with the formatter, unless only the console was asked for; flushing reaches it", 5)
    c.rule(RO, "a record is formatted as JSON without line breaks, its message included", 1)
    c.rule(RK, "the span key is taken when the record is logged, kept with the record, and used in preference to that of the request being handled when it is formatted", 2)
    H = c.cls("BufferedRotatingFileHandler")

    def own_flush(x):
        return not isinstance(x, Class) and x.name == "flush" and x.cls is not None and c.p.is_subclass(x.cls, "BufferedRotatingFileHandler")

    def buf(v):
        return v is not None and v[:2] == ("A", "attr") and v[3] == "buffer"

    # ---- emit
    it = c.interp(opaque=own_flush)
    f = c.p.find_method(H, "emit") or None
    span_attr, stale = None, []
    if f is None:
        c.ok(RE, 1, "emit of the standard buffering handler")
    else:
        rec = f.node.args.args[1].arg
        for st, kind, v in c.run(it, f, RE):
            if kind != "return":
                if kind == "raise":
                    c.undecided(RE, f.qual, "emit may raise")
                continue
            is_rec = lambda a: isinstance(a, tuple) and (a[:2] == ("S", rec) or any(t[:2] == ("S", rec) for t in subterms(a)))  # noqa
            kept = [e for e in st.trace if (e.kind in ("call", "opaque") and tail(e) in ("emit", "handle") or e.kind == "mut" and buf(e.recv)) and any(is_rec(a) for a in e.args)]
            for e in evs(st, "set"):
                if e.recv is not None and e.recv[:2] == ("S", rec):
                    if from_context(st, e.args[0]):
                        span_attr = e.label
                    elif e.args[0][:2] in (("A", "attr"), ("A", "getattr")) and e.args[0][2][:2] == ("S", "self"):
                        stale.append((e, st))
            for e in evs(st, "call", "pure"):
                if tail(e) == "setattr" and len(e.args) == 3 and is_rec(e.args[0]) and e.args[1][0] == "K" and from_context(st, e.args[2]):
                    span_attr = e.args[1][2]
            if not kept:
                if any(any(is_rec(a) for a in e.args) for e in evs(st, "call", "opaque", "mut", "set") if e.recv is None or e.recv[:2] != ("S", rec)):
                    c.undecided(RE, f.qual, "what becomes of the record was not recognised")
                else:
                    c.bad(RE, f.qual, "a record is dropped", st, kind)
                continue
            if len(kept) > 1:
                c.bad(RE, kept[1].loc, "a record is written more than once", st, kind)
                continue
            e = kept[0]
            marks = [x for x in evs(st, "set") if x.recv is not None and x.recv[:2] == ("S", rec) and from_context(st, x.args[0])]
            if marks and all(x.n > e.n for x in marks):
                w = e if e.kind != "mut" else next((x for x in evs(st, "opaque", "call") if tail(x) in ("flush", "shouldFlush") and e.n < x.n < marks[0].n and tail(x) == "flush"), None)
                if w is not None:
                    c.bad(RK, marks[0].loc, f"the span is put on a record after it was handed on at {w.loc}: it may be written without", st, kind)
            sup = "super" in e.label or (e.recv is not None and "super" in show(e.recv)) or any(x in e.label for x in ("BufferingHandler", "MemoryHandler"))
            if e.kind == "mut":
                if tail(e) not in ("append",):
                    c.bad(RE, e.loc, f"a record is put into the buffer with {tail(e)}: not behind the earlier ones", st, kind) if tail(e) in ("insert", "appendleft") else c.undecided(RE, e.loc, "not recognised")
                    continue
                flushed = [x for x in evs(st, "opaque") if tail(x) == "flush" and x.n > e.n] or [x for x in evs(st, "call") if tail(x) in ("flush", "shouldFlush")]
                if flushed:
                    c.ok(RE)
                    continue
                full = [t for t in st.facts if any(y[:2] == ("A", "len") for y in subterms(t)) and any(y[:2] == ("A", "attr") and y[3] in ("capacity", "buffer_size") for y in subterms(t))]
                if full or st.facts:
                    c.ok(RE)
                else:
                    c.bad(RE, e.loc, "the buffer is never written when it is full", st, kind)
            elif sup:
                c.ok(RE, 1, f"{e.loc}: handed to the buffering handler")
            else:
                before = [x for x in evs(st, "opaque", "call") if tail(x) == "flush" and x.n < e.n]
                empty = any(buf(t) and val is False for t, val in st.facts.items()) or \
                    any(t[:1] == ("A",) and any(buf(y) for y in subterms(t)) for t in st.facts)
                if before or empty:
                    c.ok(RE)
                else:
                    c.bad(RE, e.loc, "a record is written to the file ahead of the records still in the buffer", st, kind)
    for e, st in stale:
        if e.label == span_attr:
            c.bad(RK, e.loc, f"the span kept with a record is {show(e.args[0])}, what the handler kept from another record, not that of the request which logged it", st, "return")
            break
    g = H.methods.get("shouldFlush")
    if g is not None:
        vals = [v for st, kind, v in c.run(c.interp(), g, RE) if kind == "return"]
        if vals and all(v in (FALSE, NONE) for v in vals):
            c.bad(RE, g.qual, "the buffer is never written when it is full")

    # ---- flush
    f = c.p.find_method(H, "flush")
    if f is None:
        c.bad(RF, H.qual, "the buffered records are never handed to the file")
    else:
        it = c.interp()
        outs = c.run(it, f, RF)
        for st, kind, v in outs:
            # the records the file gets
            def records(v):
                """buffer -> 'all' | text of what is wrong | None"""
                if v[:2] in (("A", "list"), ("A", "copy"), ("A", "tuple"), ("A", "copy.copy")):
                    v = v[2]
                if buf(v):
                    return "all"
                if v[0] == "A" and v[1] == "slice" and buf(v[2]):
                    return "all" if all(x == NONE for x in v[3:] if isinstance(x, tuple)) else "only a part of the buffer"
                if v[0] == "A" and v[1] in ("reversed", "sorted", "set") and isinstance(v[2], tuple) and buf(v[2]):
                    return f"the buffer in another order ({v[1]})"
                if v[0] == "O" and st.objs[v[1]]["kind"] == "list":
                    seq = st.objs[v[1]]["seq"]
                    if len(seq) == 1 and seq[0][0] in ("all",) and buf(seq[0][1]):
                        return "all"
                if v[0] == "H":
                    return None
                return None
            if kind == "cut":
                ls = [e for e in evs(st, "loop") if e.loc == v["loc"]]
                pops = [e for e in evs(st, "mut") if ls and e.n > ls[-1].n and buf(e.recv) and tail(e) in ("pop", "popleft")]
                if pops:
                    out = [e for e in st.trace if e.kind in ("call", "opaque") and tail(e) in ("emit", "handle") and any(a == pops[0].res for a in e.args)]
                    if not out:
                        c.undecided(RF, pops[0].loc, "what becomes of a buffered record was not recognised")
                    elif tail(pops[0]) == "pop" and (not pops[0].args or pops[0].args[0] == K(-1)):
                        c.bad(RF, pops[0].loc, "flush writes the buffer in another order (last record first)", st, kind)
                    else:
                        c.ok(RF, 1, f"{pops[0].loc}: each record taken from the front and written")
                    continue
                if not ls or not ls[-1].args:
                    continue
                if records(ls[-1].args[0]) is None:
                    continue
                done = [e for e in st.trace if e.n > ls[-1].n and e.kind in ("call", "opaque", "mut") and
                        any(isinstance(a, tuple) and any(t[:2] == ("A", "elem") for t in subterms(a)) for a in e.args)]
                writes = [e for e in done if tail(e) in ("emit", "handle", "write")]
                if not writes:
                    if not done:
                        c.bad(RF, ls[-1].loc, "a buffered record is skipped when the buffer is written", st, kind)
                    else:
                        c.undecided(RF, ls[-1].loc, "what becomes of a buffered record was not recognised")
                elif len(writes) > 1:
                    c.bad(RF, writes[1].loc, "a buffered record is written twice", st, kind)
                else:
                    c.ok(RF, 1, f"{ls[-1].loc}: each record to {show(writes[0].recv)[:50] if writes[0].recv else writes[0].label}")
                continue
            if kind != "return":
                continue
            ls = [e for e in evs(st, "loop") if e.args]
            good = [e for e in ls if records(e.args[0]) == "all"]
            wrong = [e for e in ls if records(e.args[0]) not in (None, "all")]
            empties = [e for e in st.trace if (e.kind == "set" and e.label == "buffer") or (e.kind == "mut" and buf(e.recv) and tail(e) == "clear")
                       or (e.kind == "delitem" and buf(e.recv))]
            if wrong:
                c.bad(RF, wrong[0].loc, f"flush writes {records(wrong[0].args[0])}", st, kind)
                continue
            none = any(buf(t) and val is False for t, val in st.facts.items()) or any(buf(y) for t in st.facts for y in subterms(t))
            left = [e for e in good if any(x.n > e.n and x.kind in ("call", "opaque", "mut") and any(isinstance(a, tuple) and any(t[:2] == ("A", "elem") for t in subterms(a)) for a in x.args) for x in st.trace)]
            if left and any(e.n > left[0].n for e in empties):
                c.bad(RF, left[0].loc, "writing the buffer ends before its last record and the rest is dropped", st, kind)
                continue
            if not good:
                some = [t for t, val in st.facts.items() if evs(st, "loop") and val is False and t[0] == "A" and t[1] in ("gt", "ge") and t[2][:2] == ("A", "len") and buf(t[2][2]) and t[3][0] == "K" and t[3][2] >= (1 if t[1] == "gt" else 2)]
                some += [t for t, val in st.facts.items() if evs(st, "loop") and val is True and t[0] == "A" and t[1] in ("le", "lt") and t[2][:2] == ("A", "len") and buf(t[2][2]) and t[3][0] == "K" and t[3][2] >= (1 if t[1] == "le" else 2)]
                if some and not empties:
                    c.bad(RF, f.qual, "flush leaves a record in the buffer", st, kind)
                    continue
                if none and not empties:
                    c.ok(RF)
                elif ls or evs(st, "call", "opaque"):
                    other = [e for e in ls if e.label == "while"] or ls
                    c.undecided(RF, f.qual, "how flush writes the buffer was not recognised")
                elif empties:
                    c.bad(RF, empties[0].loc, "flush empties the buffer without writing it", st, kind)
                else:
                    c.bad(RF, f.qual, "flush does not write the buffered records", st, kind)
                continue
            if not empties:
                c.bad(RF, f.qual, "the buffer is not emptied after it was written: its records are written again", st, kind)
            elif any(e.n < good[0].n and e.kind in ("mut", "delitem") and not copied(st, good[0], buf) for e in empties):
                if any(isinstance(n, ast.Slice) or (isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("list", "copy", "tuple", "deepcopy")) for n in ast.walk(f.node)):
                    c.undecided(RF, empties[0].loc, "whether a copy of the buffer is written was not recognised")
                else:
                    c.bad(RF, empties[0].loc, "the buffer is emptied before it is written", st, kind)
            elif any(e.n < good[0].n and e.kind == "set" and good[0].args[0] == A("attr", e.recv, "buffer") and e.n < first_read(st, good[0]) for e in empties):
                c.undecided(RF, empties[0].loc, "order not recognised")
            elif len(good) > 1:
                c.bad(RF, good[1].loc, "the buffer is written twice", st, kind)
            elif empties[-1].kind == "set" and empties[-1].args[0][:2] == ("A", "slice") and buf(empties[-1].args[0][2]) and not any(mentions(x, "len") for x in empties[-1].args[0][3:] if isinstance(x, tuple)):
                c.bad(RF, empties[-1].loc, f"after the buffer was written records stay in it ({show(empties[-1].args[0])[:60]}): they are written again", st, kind)
            else:
                c.ok(RF, 1, f"{f.qual}: written, then emptied")

    # ---- size
    f = c.p.find_method(H, "set_buffer_size")
    if f is not None:
        it = c.interp(opaque=own_flush)
        p = f.node.args.args[1].arg
        for st, kind, v in c.run(it, f, RS):
            if kind != "return":
                continue
            fl = [e for e in evs(st, "opaque", "call") if tail(e) == "flush"]
            hit = [e for e in st.trace if (e.kind == "set" and e.label == "buffer") or (e.kind in ("mut", "delitem", "setitem") and buf(e.recv) and tail(e) not in ("append",))]
            if [e for e in hit if not any(x.n < e.n for x in fl)]:
                c.bad(RS, hit[0].loc, "changing the buffer size takes records out of the buffer", st, kind)
                continue
            caps = [e for e in evs(st, "set") if e.label == "capacity"]
            if not caps and g is None and f.cls is H:
                full = st.facts
                if full:
                    c.undecided(RS, f.qual, "the size is changed on a condition")
                else:
                    c.bad(RS, f.qual, "the size that decides when the buffer is written is not changed", st, kind)
                continue
            if caps and not any(t[:2] == ("S", p) for t in subterms(caps[-1].args[0])):
                c.bad(RS, caps[-1].loc, f"the buffer size becomes {show(caps[-1].args[0])}", st, kind)
            else:
                c.ok(RS, 1, f"{f.qual}: capacity set")

    # ---- close takes no records out of the buffer unwritten
    for f in [H.methods[n] for n in ("close",) if n in H.methods]:
        for st, kind, v in c.run(c.interp(opaque=own_flush), f, RS):
            if kind != "return":
                continue
            hit = [e for e in st.trace if (e.kind == "set" and e.label == "buffer") or (e.kind in ("mut", "delitem") and buf(e.recv) and tail(e) in ("clear", "pop", "popleft", "delitem", ""))]
            hit = [e for e in hit if not any(x.n < e.n and tail(x) in ("flush", "close", "emit", "handle") and "rotating" not in x.label and x.kind in ("call", "opaque")
                                             and not (x.recv is not None and x.recv[:2] == ("A", "attr")) for x in st.trace)]
            used = any(x.kind == "loop" and x.args and any(buf(t) for t in subterms(x.args[0])) for x in st.trace)
            if hit and not used:
                c.bad(RF, hit[0].loc, "closing the handler drops the records in the buffer", st, kind)
            elif not hit:
                c.ok(RF)

    # ---- formatter is forwarded
    f = c.p.find_method(H, "setFormatter")
    if f is not None:
        p = f.node.args.args[1].arg
        for st, kind, v in c.run(c.interp(), f, RL):
            if kind == "return":
                if any(tail(e) == "setFormatter" and "super" not in e.label and not e.label.startswith(("logging.", "Buffering")) and e.args and e.args[0][:2] == ("S", p) for e in evs(st, "call", "opaque")) or any(e.args and e.args[0][:2] == ("S", p) for e in evs(st, "set")):
                    c.ok(RL)
                else:
                    c.bad(RL, f.qual, "the formatter does not reach the file handler: records are not written as JSON", st, kind)

    logger(c, RL, own_flush)
    locked(c, RT, buf)
    formatter(c, RO, RK, span_attr)


def locked(c, R, buf):
    """a flush which does not come from the logging of a record: the threads that log put records into the buffer meanwhile, holding the handler's lock"""
    f = c.find(c.cls("EcoLogger"), "flush")
    if "createLock" in c.cls("BufferedRotatingFileHandler").methods or "handle" in c.cls("BufferedRotatingFileHandler").methods:
        c.undecided(R, f.qual, "the handler's locking is its own")
        return
    for st, kind, v in c.run(c.interp(), f, R):
        if kind != "return":
            continue
        loops = [e for e in evs(st, "loop") if e.args and buf(e.args[0])]
        if not loops:
            continue
        e = loops[0]
        empties = [x for x in st.trace if x.n > e.n and (x.kind == "set" and x.label == "buffer" or x.kind == "mut" and buf(x.recv) and tail(x) == "clear" or x.kind == "delitem" and buf(x.recv))]
        if not empties:
            continue
        held = 0
        freed = None
        for x in st.trace:
            if x.n > empties[-1].n:
                break
            if x.kind == "enter" or x.kind in ("call", "opaque") and tail(x) == "acquire":
                held += 1
            elif x.kind == "exit" or x.kind in ("call", "opaque") and tail(x) == "release":
                held -= 1
                if x.n > e.n:
                    freed = x
            if x is e and held <= 0:
                c.bad(R, e.loc, "the buffer is written and then emptied without the handler's lock: a record which another thread logs meanwhile is dropped", st, kind)
                break
        else:
            held = 1
        if held > 0:
            if freed is not None:
                c.bad(R, freed.loc, "the handler's lock is given up before the buffer is emptied: a record which another thread logs meanwhile is dropped", st, kind)
            else:
                c.ok(R, 1, f"{e.loc}: the lock is held until the buffer is empty")


def copied(st, loop, buf):
    v = loop.args[0]
    return not buf(v)


def first_read(st, loop):
    return loop.n


def logger(c, R, own_flush):
    L = c.cls("EcoLogger")
    f = c.find(L, "set_level")
    p = f.node.args.args[1].arg
    for name in LEVELS:
        it = c.interp()
        outs = c.run(it, f, R, args={p: K(name)})
        n = 0
        for st, kind, v in outs:
            if kind != "return":
                continue
            calls = [e for e in evs(st, "call", "opaque") if tail(e) == "setLevel" and e.args]
            wrong = [e for e in calls if level_known(e.args[0]) and not is_level(e.args[0], name)]
            if wrong:
                c.bad(R, wrong[0].loc, f"level '{name}' sets {show(wrong[0].args[0])}", st, kind)
                continue
            on_logger = [e for e in calls if e.recv is not None and ("logger" in show(e.recv).split(".")[-1].lower() or "getLogger" in show(e.recv))]
            on_file = [e for e in calls if e.recv is not None and (it.typeof(st, e.recv) or "") == "c:" + c.cls("BufferedRotatingFileHandler").qual]
            fh = [t for t in st.facts if t[:2] == ("A", "is") and any(isinstance(y, tuple) and y[0] == "A" and y[1] == "attr" and it.typeof(st, y) == "c:" + c.cls("BufferedRotatingFileHandler").qual for y in t[2:])]
            if [t for t, val in st.facts.items() if val is True and t[:2] == ("A", "is") and NONE in t[2:] and any("logger" in (last_attr(y) or "").lower() and not (last_attr(y) or "").lower().endswith("handler") for y in t[2:] if y != NONE)]:
                continue  # before setup
            if not calls:
                c.bad(R, f.qual, f"level '{name}' sets nothing", st, kind)
            elif not on_logger and all(e.recv is not None and it.typeof(st, e.recv) for e in calls):
                c.bad(R, f.qual, f"level '{name}' is not set on the logger", st, kind)
            elif fh and st.facts[fh[0]] is False and not on_file:
                c.bad(R, f.qual, f"level '{name}' is not set on the file handler: records of that level may not reach the file", st, kind)
            elif not fh and not on_file and on_logger:
                c.undecided(R, f.qual, "how the level reaches the file handler was not recognised")
            else:
                n += 1
        if n:
            c.ok(R, 1, f"set_level('{name}')")

    f = c.find(L, "setup")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.name == "set_level")
    H = c.cls("BufferedRotatingFileHandler").qual
    for st, kind, v in c.run(it, f, R):
        if kind != "return":
            continue
        only = [val for t, val in st.facts.items() if t[:2] == ("A", "attr") and t[3] == "console_only"]
        adds = [e for e in evs(st, "call", "opaque") if tail(e) == "addHandler" and e.args]
        filed = [e for e in adds if it.typeof(st, e.args[0]) == "c:" + H]
        vague = any(mentions_attr(t, "console_only") for t in st.facts) and not only
        for e in evs(st, "new"):
            if e.label.split(".")[-1] == "BufferedRotatingFileHandler":
                sizes(c, R, st, kind, e)
        if not vague and (not only or only[0] is False):
            if not filed:
                c.bad(R, f.qual, "the file handler is not installed", st, kind) if all(it.typeof(st, e.args[0]) for e in adds) or not adds else c.undecided(R, f.qual, "handlers not recognised")
            elif not [e for e in st.trace if e.kind in ("call", "opaque") and tail(e) == "setFormatter"]:
                c.bad(R, f.qual, "the file handler has no formatter", st, kind)
            elif unset(L, it, st):
                c.bad(R, f.qual, "records are not formatted as log records: the formatter that is set was never made", st, kind)
            else:
                c.ok(R)
            if len(filed) > 1:
                c.bad(R, filed[1].loc, "the file handler is installed twice: every record is written twice", st, kind)
        lv = [e for e in evs(st, "opaque") if tail(e) == "set_level"]
        if lv and not any(mentions_attr(a, "level") for e in lv[-1:] for a in list(e.args) + list(e.kw.values())):
            c.bad(R, lv[-1].loc, "the configured level is not the one that is set", st, kind)
        if not lv and not any(mentions_attr(a, "level") for e in st.trace for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple)):
            init = c.p.find_method(L, "__init__")
            if init is not None and any(isinstance(n, ast.Attribute) and n.attr == "level" for n in ast.walk(init.node)):
                c.undecided(R, f.qual, "where the configured level is set was not recognised")
            else:
                c.bad(R, f.qual, "the configured level is not set", st, kind)
        elif lv:
            c.ok(R, 1, "configured level")
    f = c.find(L, "set_buffer_size")
    p = f.node.args.args[1].arg
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.name in ("flush", "set_buffer_size") and x.cls is not None and c.p.is_subclass(x.cls, "BufferedRotatingFileHandler"))
    for st, kind, v in c.run(it, f, R):
        if kind != "return":
            continue
        absent = any(val is False and it.typeof(st, t) == "c:" + H for t, val in st.facts.items()) or any(t[:2] == ("A", "is") and NONE in t[2:] and val for t, val in st.facts.items())
        calls = [e for e in evs(st, "opaque") if tail(e) == "set_buffer_size"]
        for e in st.trace:
            if (e.kind in ("mut", "delitem") and e.recv is not None and last_attr(e.recv) == "buffer" and tail(e) not in ("append",) or e.kind == "set" and e.label == "buffer") and \
                    not [x for x in evs(st, "opaque") if tail(x) == "flush" and x.n < e.n]:
                c.bad("size-change", e.loc, "changing the buffer size takes records out of the buffer", st, kind)
        if calls:
            a = list(calls[0].args) + list(calls[0].kw.values())
            if a and not any(t[:2] == ("S", p) for x in a for t in subterms(x)):
                c.bad("size-change", calls[0].loc, f"the buffer size becomes {show(a[0])}", st, kind)
            else:
                c.ok("size-change", 1, f"{f.qual}: passed on")
        elif absent or [e for e in evs(st, "set") if e.label == "capacity"]:
            c.ok("size-change")
        elif st.facts:
            if not any(e.kind in ("call", "opaque") and any(t[:2] == ("S", p) for a in e.args for t in subterms(a)) and tail(e) not in ("info", "debug", "warning") for e in st.trace):
                c.bad("size-change", f.qual, "a new buffer size does not reach the file handler", st, kind)
    f = c.find(L, "flush")
    it = c.interp(opaque=own_flush)
    for st, kind, v in c.run(it, f, R):
        if kind != "return":
            continue
        only = [val for t, val in st.facts.items() if t[:2] == ("A", "attr") and t[3] == "console_only"]
        fl = [e for e in evs(st, "opaque", "call") if tail(e) == "flush" and e.label.startswith("BufferedRotatingFileHandler")]
        absent = any(t[:2] == ("A", "is") and NONE in t[2:] and val for t, val in st.facts.items()) or any(val is False and t[:2] == ("A", "attr") and it.typeof(st, t) == "c:" + H for t, val in st.facts.items())
        if fl or (only and only[0] is True) or absent:
            c.ok(R)
        elif [e for e in evs(st, "opaque", "call") if tail(e) == "flush"] and not only:
            c.undecided(R, f.qual, "what is flushed was not recognised")
        else:
            c.bad(R, f.qual, "flushing the logs leaves records in the buffer of the file handler", st, kind)


def unset(L, it, st):
    """a formatter is taken from an attribute that is nowhere given anything but None"""
    for e in st.trace:
        if e.kind in ("call", "opaque") and tail(e) == "setFormatter" and e.args:
            a = e.args[0]
            if a == NONE:
                return True
            names, root = attr_chain(a)
            if root[0] != "S" or root[1] != "self" or len(names) != 1:
                continue
            want = names[0].split("__")[-1]
            given = [n.value for n in ast.walk(L.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])
                     if getattr(t, "attr", getattr(t, "id", "")).split("__")[-1] == want and n.value is not None]
            if given and all(isinstance(x, ast.Constant) and x.value is None for x in given) and \
                    not any(isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith(want) for n in ast.walk(L.node)):
                return True
    return False


SIZES = {"buffer_size": "buffer_size", "max_bytes": "max_size_in_bytes", "backup_count": "max_files"}


def sizes(c, R, st, kind, e):
    """the configured sizes reach the handler under their own meaning"""
    for arg, name in SIZES.items():
        x = e.kw.get(arg)
        if x is None or not mentions_attr(x, name) and not any(mentions_attr(x, o) for o in SIZES.values()):
            continue
        if mentions_attr(x, name):
            c.ok(R)
        else:
            c.bad(R, e.loc, f"the {arg} of the file handler is {show(x)[:60]}", st, kind)


def formatter(c, RO, RK, span_attr):
    F = c.cls("OtlpFormatter")
    f = c.find(F, "format")
    rec = f.node.args.args[1].arg
    it = c.interp()
    uses_context = False
    for st, kind, v in c.run(it, f, RO):
        if kind == "raise":
            c.undecided(RO, f.qual, "formatting may raise")
        if kind != "return" or not isinstance(v, tuple):
            continue
        dumps = [e for e in st.trace if e.kind in ("pure", "call") and tail(e) in ("model_dump_json", "dumps") and (e.res == v or (e.res is not None and mentions(v, e.res)))]
        if not dumps and v[0] == "A" and v[1] in ("model_dump_json", "json.dumps", "dumps"):
            dumps = [e for e in st.trace if e.kind in ("pure", "call") and tail(e) in ("model_dump_json", "dumps")][-1:]
        if any("indent" in e.kw and e.kw["indent"] != NONE for e in dumps):
            c.bad(RO, dumps[0].loc, "a record is written over several lines", st, kind)
            continue
        if not dumps:
            c.undecided(RO, f.qual, f"what is returned was not recognised: {show(v)[:60]}")
            continue
        if v[0] == "A" and v[1] == "concat" and any(x[0] == "K" and isinstance(x[2], str) and "\n" in x[2] for x in v[2:] if isinstance(x, tuple)):
            c.bad(RO, f.qual, "a record is followed by a line break of its own", st, kind)
            continue
        news = [e for e in evs(st, "new") if e.label.split(".")[-1] == "OtlpLogRecord"]
        if not news:
            c.undecided(RO, f.qual, "the record written was not recognised")
            continue
        kw = news[-1].kw
        body = kw.get("body")
        msg = [e for e in evs(st, "call", "pure") if tail(e) == "getMessage"]
        if body is not None and msg and comes_from(st, body, msg[0].res):
            c.ok(RO, 1, f"{f.qual}: one line, message included")
        elif body is not None and (body[0] == "K" or mentions_attr(body, "msg")):
            c.bad(RO, news[-1].loc, f"the text of a record is {show(body)[:60]}, not its message", st, kind)
        else:
            c.undecided(RO, news[-1].loc, "text of the record not recognised")
        ts, sv = kw.get("timestamp"), kw.get("severity_number")
        roots = lambda x: {t[3] for y in provenance(st, x) for t in subterms(y) if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2][:2] == ("S", rec)}  # noqa
        for what, x, want in (("time", ts, "created"), ("severity", sv, "levelno")):
            got = roots(x) if x is not None else set()
            if got and not got & {want, "levelname" if what == "severity" else want, "msecs" if what == "time" else want}:
                c.bad(RO, news[-1].loc, f"the {what} of a record is taken from its {'/'.join(sorted(got))}", st, kind)
            elif got:
                c.ok(RO)
        for a, other in (("trace_id", "span_id"), ("span_id", "trace_id")):
            x = kw.get(a)
            if x is None:
                c.bad(RK, news[-1].loc, f"a record carries no {a}", st, kind)
                continue
            if x == NONE:
                # allowed only where there is no span key
                keys = [t for t, val in st.facts.items() if val is False and (mentions_attr(t, span_attr or "span_key") or "current_span_key" in str(t))] + \
                       [t for t, val in st.facts.items() if val is True and t[:2] == ("A", "is") and NONE in t[2:]]
                if keys:
                    c.ok(RK)
                else:
                    c.bad(RK, news[-1].loc, f"a record may carry no {a} although there is one", st, kind)
                continue
            if mentions_attr(x, other) and not mentions_attr(x, a):
                c.bad(RK, news[-1].loc, f"{a} of a record is the {other} of the request", st, kind)
                continue
            if not mentions_attr(x, a):
                c.undecided(RK, news[-1].loc, f"{a} not recognised: {show(x)[:60]}")
                continue
            if from_context(st, x):
                uses_context = True
                has = [val for t, val in st.facts.items() if t[:2] == ("A", "hasattr")]
                dflt = [t for t in subterms(x) if isinstance(t, tuple) and t[:2] == ("A", "getattr") and len(t) == 5 and from_context(st, t[4]) and t[3] == K(span_attr)]
                if False in has or dflt:
                    c.ok(RK)
                else:
                    c.bad(RK, news[-1].loc, f"the {a} written is that of the request being handled when the record is formatted, which may be another than the one that logged it", st, kind)
            elif span_attr is not None and mentions_attr(x, span_attr):
                c.ok(RK, 1, f"{a} from the record")
            elif span_attr is None:
                c.bad(RK, news[-1].loc, f"{a} is taken from the record, but nothing puts it there when the record is logged", st, kind)
            else:
                c.undecided(RK, news[-1].loc, f"{a} not recognised: {show(x)[:60]}")
    if span_attr is not None:
        c.ok(RK, 1, f"emit keeps the span key as record.{span_attr}")
