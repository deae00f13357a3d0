"""Servers: connections, datagrams, statuses, request identity (C14, C15, C16, C18)."""
import ast

from .base import *
from . import buffered as B

CANCEL = "asyncio.CancelledError"


def tail(e):
    return str(e.label).split(".")[-1]


def route_method(c):
    """the method of ServerBase that turns request bytes into a response"""
    cl = c.cls("ServerBase")
    best = None
    for m in cl.methods.values():
        if not isinstance(m.node, ast.AsyncFunctionDef):
            continue
        it = c.interp(opaque=lambda f: not isinstance(f, Class) and f.name == "route_request")
        try:
            outs = it.run(m)
        except Exception:
            continue
        if any(tail(e) == "route_request" for st, _, _ in outs for e in evs(st, "opaque", "call")):
            if best is None or len(it.functions) > best[0]:
                best = (len(it.functions), m)
    if best is None:
        raise AnalysisBroken("no method of ServerBase routes requests")
    return best[1]


# ====================================================================== C14
def stream_handlers(c):
    """function called for each connection: what is given to start_server / start_unix_server"""
    out = {}
    base = c.cls("StreamServerBase")
    for cl in base.subclasses:
        for m in list(cl.methods.values()):
            it = c.interp()
            try:
                outs = it.run(m)
            except Exception:
                continue
            for st, k, v in outs:
                for e in evs(st, "call"):
                    if tail(e) in ("start_server", "start_unix_server"):
                        a = e.args[0] if e.args else e.kw.get("client_connected_cb")
                        if a is not None and a[0] == "F":
                            out.setdefault(c.p.funcs[a[1]].qual, (c.p.funcs[a[1]], cl))
    if not out:
        raise AnalysisBroken("no function is given to asyncio.start_server")
    return list(out.values())


def idx_fact(t, line, i):
    """constant the i-th byte of the line is compared with in this (equality) fact"""
    if t[0] == "A" and t[1] == "eq":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == "A" and a[1] in ("item", "getitem", "sub", "index") and a[2] == line and a[3] == K(i) and b[0] == "K":
                return b[2]
            if b[0] == "K" and isinstance(b[2], bytes) and a[0] == "A" and a[1] == "slice" and a[2] == line and b[2]:
                if i == 0 and len(a) > 3 and a[3] in (NONE, K(0)):
                    return b[2][0]
                if i == -1 and len(a) > 3 and a[3] == K(-1):
                    return b[2][-1]
            if a == line and b[0] == "K" and isinstance(b[2], bytes) and b[2]:
                return b[2][i]
    if t[0] == "A" and t[1] == "startswith" and i == 0 and t[2] == line and t[3][0] == "K" and t[3][2]:
        return t[3][2][0]
    if t[0] == "A" and t[1] == "endswith" and i == -1 and t[2] == line and t[3][0] == "K" and t[3][2]:
        return t[3][2][-1]
    return None


def ends_with_newline(v):
    """True / False / None for a bytes or str term"""
    if v[0] == "K" and isinstance(v[2], (bytes, str)):
        return v[2][-1:] in (b"\n", "\n")
    if v[0] == "A" and v[1] in ("encode", "bytes"):
        return ends_with_newline(v[2])
    if v[0] == "A" and v[1] in ("concat", "fstr", "add"):
        return ends_with_newline(v[-1])
    if v[0] == "A" and v[1] == "model_dump_json":
        return False
    return None


def complete(it, st, line):
    """True / False / None: does this path know the line to be complete?"""
    if it.truth(st, line) is False:
        return False
    res = None
    for t, b in st.facts.items():
        x = idx_fact(t, line, -1)
        if x == 10:
            if b is False:
                return False
            res = True
        elif t[0] == "A" and t[1] == "eq" and b is True and any(s == line for s in subterms(t)) and \
                any(s[0] == "K" and s[2] in (b"", "") for s in subterms(t)):
            return False
    return res


def heartbeat(st, line):
    """byte the path knows the line to begin with, None, and whether anything was compared at all"""
    tested = None
    for t, b in st.facts.items():
        x = idx_fact(t, line, 0)
        if x is not None:
            if b:
                return x, True
            tested = x
    return None, tested


def client_heartbeat(c):
    """constant heartbeat messages the persistent client writes"""
    out = set()
    cl = c.cls("PersistentStreamClientBase")
    for m in cl.methods.values():
        it = c.interp()
        try:
            outs = it.run(m)
        except Exception:
            continue
        for st, k, v in outs:
            for e in evs(st, "call"):
                if tail(e) == "write" and e.args and e.args[0][0] == "K" and isinstance(e.args[0][2], bytes):
                    out.add(e.args[0][2])
    return out


def accepted(c, R, ack, beats):
    """the acknowledgement of the server is one that the client takes for a sign of life"""
    cl = c.cls("PersistentStreamClientBase")
    for m in cl.methods.values():
        it = c.interp()
        try:
            outs = it.run(m)
        except Exception:
            continue
        for st, k, v in outs:
            w = [e for e in evs(st, "call") if tail(e) == "write" and e.args and e.args[0][0] == "K" and e.args[0][2] in beats]
            got = [e.info["ev"].res for e in evs(st, "await") if w and e.n > w[0].n and (e.info or {}).get("ev") is not None
                   and tail(e.info["ev"]) in ("wait_for", "readline", "readuntil")]
            if not got or k not in ("return", "raise"):
                continue
            own = [(t, b) for t, b in st.facts.items() if any(x == got[-1] for x in subterms(t))]
            try:
                env = {got[-1]: ack}
                for t, _ in own:
                    for x in subterms(t):
                        if isinstance(x, tuple) and x[:2] == ("A", "item") and x[2] == got[-1] and x[3][0] == "K":
                            env[x] = ack[x[3][2]]
                fits = all((False if t[:2] == ("A", "is") and NONE in t[2:] else bool(env[t] if t in env else point(t, env))) == b for t, b in own)
            except (Unknown, TypeError, IndexError, ValueError):
                continue
            if not own or not fits:
                continue
            end = [e for e in st.trace if e.n > w[0].n and (e.kind == "raise" or e.kind == "call" and tail(e) in ("close", "abort"))]
            if end:
                c.bad(R, m.qual, f"the acknowledgement {ack!r} of the server is not taken for one by the client, at {end[0].loc}", st, k)
            else:
                c.ok(R, 1, f"{m.qual}: {ack!r} is accepted")


def check_C14(c):
    R = "C14.answer"
    c.rule(R, "between one readline and the next (or the end) of a connection exactly one line is written: the routed response for a request, the "
              "acknowledgement for a heartbeat; a line that is incomplete, or can not be answered, ends the connection", 4)
    RC = "C14.close"
    c.rule(RC, "on every way a connection handler ends the connection is closed", 4)
    RH = "C14.heartbeat"
    c.rule(RH, "the byte the server takes for a heartbeat is the one the client sends, and its acknowledgement is one the client accepts", 1)
    rm = route_method(c)
    beats = client_heartbeat(c)
    acks = set()
    beat_seen = False
    for f, owner in stream_handlers(c):
        params = [a.arg for a in f.node.args.args if a.arg != "self"]
        reader, writer = params[0], params[1]

        def mr(ev, it):
            if ev.kind == "await":
                if tail(ev) in ("readline", "readuntil"):
                    return ("ConnectionResetError", "ValueError", "asyncio.IncompleteReadError", CANCEL)
                if tail(ev) == "drain":
                    return ("ConnectionResetError", CANCEL)
                if tail(ev) == rm.name:
                    return ("Exception", CANCEL)
            if ev.kind == "pure" and ev.label == "model_dump_json":
                return ("Exception",)
            return ()

        it = c.interp(opaque=lambda x: not isinstance(x, Class) and x is rm, may_raise=mr)
        selfval = ("S", "self", "c:" + owner.qual)
        for st, k, v in c.run(it, f, R, selfval=selfval):
            site = f.qual
            bad = lambda r, m: c.bad(r, site, m, st, k)
            isw = lambda e, n: e.recv is not None and e.recv[0] == "S" and e.recv[1] == n
            reads = [e for e in evs(st, "call") if isw(e, reader) and tail(e).startswith("read")]
            writes = [e for e in evs(st, "call") if isw(e, writer) and tail(e) in ("write", "writelines")]
            closes = [e for e in evs(st, "call") if isw(e, writer) and tail(e) in ("close", "abort")]
            escaped = [e for e in evs(st, "call", "opaque", "spawn") if any(isinstance(a, tuple) and any(t[0] == "S" and t[1] == writer for t in subterms(a))
                                                                     for a in list(e.args) + list(e.kw.values()))]
            sp = [e for e in evs(st, "spawn")]
            if k in ("return", "raise"):
                if not closes:
                    if escaped and not sp:
                        c.undecided(RC, site, f"the writer is handed on at {escaped[0].loc}")
                    elif sp and any(e.info.get("binds") and any(t[0] == "S" and t[1] == writer for x in e.info["binds"].values() if isinstance(x, tuple)
                                                                for t in subterms(x)) for e in sp):
                        c.undecided(RC, site, "the connection is left to a task")
                    else:
                        bad(RC, f"the connection is not closed when its handler ends ({k}{' with ' + show(v) if k == 'raise' else ''})")
                else:
                    late = [e for e in writes if e.n > closes[0].n]
                    if late:
                        bad(RC, f"writes at {late[0].loc} after the connection is closed")
                    else:
                        c.ok(RC)
            for i, r in enumerate(reads):
                end = reads[i + 1].n if i + 1 < len(reads) else 10 ** 9
                ws = [e for e in writes if r.n < e.n < end]
                line = r.res
                rz = [e for e in evs(st, "raise") if r.n < e.n < end]
                goes_on = i + 1 < len(reads) or k == "cut"
                comp = complete(it, st, line)
                failed_read = rz and rz[0].info and rz[0].info.get("await") is not None and rz[0].info["await"].recv == line
                caught = [e for e in evs(st, "caught") if r.n < e.n < end]
                if goes_on and any(e.n for e in closes if e.n < end):
                    c.undecided(R, site, "goes on after closing")
                    continue
                if failed_read:
                    if ws:
                        bad(R, f"writes a response at {ws[0].loc} although nothing could be read")
                    elif goes_on:
                        bad(R, f"goes on reading after reading failed at {r.loc} with {show(rz[0].args[0])}")
                    else:
                        c.ok(R)
                    continue
                if comp is False:
                    if ws:
                        bad(R, f"an incomplete line is answered at {ws[0].loc}")
                    elif goes_on:
                        bad(R, "goes on after the client closed the connection")
                    else:
                        c.ok(R)
                    continue
                first, tested = heartbeat(st, line)
                if len(ws) > 1:
                    bad(R, f"one line is answered twice, at {ws[0].loc} and {ws[1].loc}")
                    continue
                if not ws and any(e.kind == "call" and r.n < e.n < end for e in escaped):
                    c.undecided(R, site, "the writer is handed to an unknown function")
                    continue
                if not ws:
                    if goes_on:
                        if any((e.info or {}).get("binds") for e in sp if r.n < e.n < end):
                            bad(R, f"the line read at {r.loc} is answered by a task of its own ({sp[0].loc}): responses may come in another order")
                        else:
                            bad(R, f"a line read at {r.loc} is not answered but the connection goes on" +
                                (f" after {show(caught[0].args[0])}" if caught else ""))
                    elif not rz and not caught and comp is True:
                        other = [t for t in st.facts if not any(s == line for s in subterms(t)) and last_attr(t) != "_running" and
                                 not (t[0] == "A" and t[1] == "is")]
                        run = [t for t, b in st.facts.items() if b is False and attr_chain(t)[1][0] == "S" and attr_chain(t)[0]]
                        if other or run:
                            c.undecided(R, site, "a complete line is not answered under an unknown condition")
                        else:
                            bad(R, f"the complete line read at {r.loc} is not answered")
                    else:
                        c.ok(R)
                    continue
                if goes_on and (rz or caught):
                    # an exception after the response was written: the next answer could be misplaced
                    if not any(e.n < ws[0].n for e in caught):
                        bad(R, f"goes on after {show((caught or rz)[0].args[0])} although it can not be known whether the response was written")
                        continue
                w = ws[0]
                data = w.args[0] if w.args else NONE
                if comp is None and not reads_whole(r):
                    bad(R, f"answers at {w.loc} without knowing that the line is complete")
                    continue
                routed = [e for e in evs(st, "opaque") if e.label.endswith("." + rm.name) and r.n < e.n < end]
                if routed:
                    if data[0] == "K":
                        bad(R, f"the response at {w.loc} is {show(data)} instead of the routed response")
                        continue
                    if routed[0].res not in provenance(st, data):
                        c.undecided(R, site, f"writes {show(data)}")
                        continue
                    if not any(line in provenance(st, a) for a in list(routed[0].kw.values()) + list(routed[0].args) if isinstance(a, tuple)):
                        bad(R, f"routes something else than the line read, at {routed[0].loc}")
                        continue
                    if len(routed) > 1:
                        bad(R, f"one request is routed twice, at {routed[0].loc} and {routed[1].loc}")
                        continue
                    nl = ends_with_newline(data)
                    if nl is False:
                        bad(R, f"the response written at {w.loc} is not a line")
                        continue
                    if any(t[0] == "A" and t[1] in ("model_dump_json", "json.dumps") and any(
                            x[0] == "T" and x[1] == K("indent") and x[2] != NONE for x in t[2:] if isinstance(x, tuple)) for t in provenance(st, data)):
                        bad(R, f"the response written at {w.loc} spans several lines")
                        continue
                    if first is not None and beats and any(b[:1] == bytes([first]) for b in beats if isinstance(first, int)):
                        bad(R, "a heartbeat is routed as a request")
                        continue
                    c.ok(R, 1, f"{site}: request answered at {w.loc}")
                else:
                    if data[0] == "K" and isinstance(data[2], bytes):
                        if first is None:
                            bad(R, f"a line that is no heartbeat is acknowledged at {w.loc}")
                            continue
                        beat_seen = True
                        if ends_with_newline(data) is False or len(data[2]) < 2:
                            bad(R, f"the acknowledgement {data[2]!r} at {w.loc} is not a line")
                            continue
                        if beats and not any(isinstance(first, int) and b[:1] == bytes([first]) for b in beats):
                            bad(RH, f"takes {first!r} for a heartbeat, but the client sends {sorted(beats)}")
                            continue
                        acks.add(data[2])
                        c.ok(R)
                        c.ok(RH)
                    else:
                        c.undecided(R, site, f"writes {show(data)}")
    for ack in sorted(acks):
        accepted(c, RH, ack, beats)
    if not beat_seen and not c.viol:
        c.undecided(RH, "heartbeat", "not seen")


def reads_whole(r):
    return tail(r) in ("readuntil", "readexactly")


# ====================================================================== C15
def check_C15(c):
    R = "C15.answer"
    c.rule(R, "for every complete datagram exactly one datagram is sent, to the address it came from: an acknowledgement, or the routed response "
              "from a task; the address is a value of that task's own", 2)
    rm = route_method(c)
    udp = [cl for cl in c.p.classes.values() if c.p.is_subclass(cl, "ServerBase") and cl.name == "UDPServer"]
    if not udp:
        raise AnalysisBroken("no UDPServer")
    owner = udp[0]

    def mr(ev, it):
        if ev.kind == "decode":
            return ("UnicodeDecodeError",)
        return ()

    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x is rm, may_raise=mr)
    seen = False
    entries = []
    for m in owner.methods.values():
        for st, k, v in c.run(it, m, R):
            for e in evs(st, "call"):
                if tail(e) == "create_datagram_endpoint" and e.args:
                    entries.append((st, e))
    done = set()
    for st0, e0 in entries:
        if e0.loc in done:
            continue
        done.add(e0.loc)
        try:
            objs = it.apply(st0.copy(), e0.args[0], [], {})
        except Exception as ex:
            c.undecided(R, owner.qual, f"protocol factory not followed: {ex}")
            continue
        for st1, k1, proto in objs:
            if k1 != "return" or proto[0] != "O":
                c.undecided(R, owner.qual, "protocol factory not followed")
                continue
            pc = c.p.classes[st1.objs[proto[1]]["cls"]]
            f = c.find(pc, "datagram_received")
            # one protocol object serves all datagrams: what is stored in it after its construction is shared by them
            shared = ("S", "protocol", "c:" + pc.qual)
            for (b, nm), x in list(st1.heap.items()):
                if b == proto and not it.late_written(nm):
                    st1.heap[(shared, nm)] = x
            proto = shared
            names = [a.arg for a in f.node.args.args if a.arg != "self"]
            base_len = len(st1.trace)
            outs = c.run(it, f, R, selfval=proto, state=st1.copy())
            for st, k, v in outs:
                seen = True
                one_datagram(c, it, rm, f, names, base_len, st, k, v, R, set(st1.facts))
    if not seen:
        raise AnalysisBroken("no datagram protocol found")


def one_datagram(c, it, rm, f, names, n0, st, k, v, R, known=()):
    site = f.qual
    data, addr = next((t for t in [("S", names[0])]), None), names[1]
    line = None
    for t in st.facts:
        for s in subterms(t):
            if s[0] == "S" and s[1] == names[0]:
                line = s
    comp = complete(it, st, line) if line is not None else None
    sends = [e for e in evs(st, "call") if tail(e) == "sendto" and e.n >= n0]
    tasks = [e for e in evs(st, "spawn") if e.n >= n0]
    bad = lambda m, s=st, kk=k: c.bad(R, site, m, s, kk)
    if k == "cut":
        return
    if comp is False:
        if sends or tasks:
            bad(f"an incomplete datagram is answered at {(sends + tasks)[0].loc}")
        else:
            c.ok(R)
        return
    if k == "raise":
        bad(f"a datagram is not answered: {show(v)} when it is received")
        return
    if len(sends) + len(tasks) > 1:
        bad(f"one datagram is answered twice, at {(sends + tasks)[0].loc} and {(sends + tasks)[1].loc}")
        return
    if not sends and not tasks:
        other = [t for t, b in st.facts.items() if t not in known and not any(s[0] == "S" and s[1] == names[0] for s in subterms(t)) and not (t[0] == "A" and t[1] == "is")]
        if other:
            c.undecided(R, site, f"a datagram is not answered depending on {show(other[0])}")
        else:
            bad("a complete datagram is not answered")
        return

    def to_sender(e, s):
        a = e.args[1] if len(e.args) > 1 else e.kw.get("addr")
        if a is None:
            c.bad(R, site, f"the answer at {e.loc} is sent to no address", s)
            return False
        if not (a[0] == "S" and a[1] == addr):
            if any(t[0] == "S" and t[1] == addr for t in provenance(s, a)):
                c.undecided(R, site, f"the answer is sent to {show(a)}")
                return False
            c.bad(R, site, f"the answer at {e.loc} is sent to {show(a)} instead of the address the datagram came from", s)
            return False
        return True

    if sends:
        e = sends[0]
        if not to_sender(e, st):
            return
        if e.args[0][0] == "K":
            first, tested = heartbeat(st, line) if line is not None else (None, None)
            if first is None:
                bad(f"a datagram that is no heartbeat is acknowledged at {e.loc}")
                return
            c.ok(R, 1, "acknowledged")
        else:
            c.undecided(R, site, f"answers {show(e.args[0])} at once")
        return
    t = tasks[0]
    if not t.args or t.args[0][0] != "Coro":
        c.undecided(R, site, "task of an unknown coroutine")
        return
    s2 = st.copy()
    n1 = len(s2.trace)
    for st2, k2, v2 in it.start_coro(s2, t.args[0]):
        if k2 == "cut":
            continue
        ss = [e for e in evs(st2, "call") if tail(e) == "sendto" and e.n >= n1]
        more = [e for e in evs(st2, "spawn") if e.n >= n1]
        rs = [e for e in evs(st2, "opaque") if e.label.endswith("." + rm.name) and e.n >= n1]
        if k2 == "raise" or not ss:
            if more:
                c.undecided(R, site, "answered from a further task")
                continue
            c.bad(R, site, f"a datagram is not answered: its task ends with {show(v2) if k2 == 'raise' else 'nothing sent'}", st2, k2)
            continue
        if len(ss) > 1:
            c.bad(R, site, f"one datagram is answered twice, at {ss[0].loc} and {ss[1].loc}", st2, k2)
            continue
        if not to_sender(ss[0], st2):
            continue
        if not rs:
            if ss[0].args[0][0] == "K":
                c.bad(R, site, f"a request is answered with {show(ss[0].args[0])}", st2, k2)
            else:
                c.undecided(R, site, "response of unknown origin")
            continue
        if rs[0].res not in provenance(st2, ss[0].args[0]):
            c.undecided(R, site, f"answers {show(ss[0].args[0])}")
            continue
        if not any(any(x[0] == "S" and x[1] == names[0] for x in provenance(st2, a)) for a in list(rs[0].kw.values()) + list(rs[0].args) if isinstance(a, tuple)):
            c.bad(R, site, f"what is routed at {rs[0].loc} is not the datagram received", st2, k2)
            continue
        c.ok(R, 1, f"answered by a task, sent at {ss[0].loc}")
