"""C27, C28: the log shipper (C++, read through the compiler's front end) and the records it is given."""
import ast
import re

from engine.cxx import CxxProgram
from engine.cxxdump import FrontEnd
from rules.base import *
from rules.servers import tail

SRC = "ekosis_log_shipper/src"
X = lambda n: ("X", "cxx." + n)  # noqa
NL = K("\n")


class Shipper:
    """the check, looking at the C++ program"""

    def __init__(self, c):
        self.c, self.py = c, c.p
        self.p = CxxProgram(c.p.repo, SRC, "log_shipper")
        c.p = self.p
        for name, why in self.p.project.failed.items():
            c.undecided("front-end", str(name), f"not translated: {why}")
        run, bad = c.run, c.bad

        def feasible(it, st):
            # a member of a JSON document that was found is there
            return not any(tail(e) == "at" and known_none(it, st, e.res) is True for e in evs(st, "call"))

        def filtered(it, f, rule, **kw):
            return [o for o in run(it, f, rule, **kw) if feasible(it, o[0])]

        def judged(rule, site, msg, st=None, exit_=None):
            # nothing is reported about a path with something on it the front end could not rewrite
            odd = [e for e in evs(st, "call") if e.label in ("cxx.unsupported", "cxx.unknown")] if st is not None else []
            if odd or st is None and self.p.project.failed:
                c.undecided(rule, site, f"not decided, a construct was not translated ({odd[0].loc if odd else ', '.join(map(str, self.p.project.failed))}): {msg}")
            else:
                bad(rule, site, msg, st, exit_)
        c.run, c.bad = filtered, judged


def open_shipper(c, rules):
    try:
        return Shipper(c)
    except FrontEnd as e:
        for r in rules:
            c.undecided(r, SRC, f"the compiler's front end gave no syntax tree: {e}")
        return None


def label(e):
    return e.label.split("cxx.")[-1] if e.label.startswith("cxx.") else e.label


def cx(st, *names):
    return [e for e in st.trace if e.kind == "call" and e.label in {"cxx." + n for n in names}]


def eq(it, st, a, b):
    return it.truth(st, A("eq", a, b))


def nonpos(it, st, n):
    """the number is known to be zero or less"""
    if n[0] == "K":
        return n[2] <= 0
    return it.truth(st, A("gt", n, K(0))) is False or it.truth(st, A("le", n, K(0))) is True or eq(it, st, n, K(0)) is True or \
        it.truth(st, A("lt", n, K(1))) is True or it.truth(st, A("lt", n, K(0))) is True or eq(it, st, n, K(-1)) is True or it.truth(st, A("ge", n, K(1))) is False


def ctor(c, name, arity):
    """the class standing for a constructor with this many parameters"""
    for q, k in c.p.classes.items():
        if k.name == name or k.name.startswith(name + "__"):
            m = k.methods.get("__init__")
            if m is not None and len(m.node.args.args) - 1 == arity:
                return k
    return None


def opaque_names(*names):
    def f(x):
        if isinstance(x, Class):
            return any(x.name == n or x.name.startswith(n + "__") for n in names if n in ("TrackedFile", "StateStore", "HttpSender"))
        if x.name in names:
            return True
        return False
    return f


ANCHORS = ("poll", "save", "load", "post_json", "inode", "offset", "is_log_record", "extract_resource_info", "build_otlp_logs_payload", "TrackedFile", "StateStore", "HttpSender")


def field_of(c, cls, meth, rule):
    """the field an accessor returns"""
    f = c.p.find_method(c.cls(cls), meth)
    if f is None:
        return None
    vs = {v for st, k, v in c.run(c.interp(), f, rule) if k == "return"}
    if len(vs) == 1:
        v = vs.pop()
        if v[:2] == ("A", "attr") and v[2][0] == "S":
            return v[3]
    return None


# ------------------------------------------------------------------ C27
def check_C27(c):
    RD, RK, RP, RL, RO, RR, RS, RA = "delivered-before-stored", "undelivered-kept", "accepted-means-2xx", "whole-lines", "offset-of-lines", "rotation-drained", "position-store", "resume"
    c.rule(RD, "the position of a file is stored only after the collector accepted every line read from it so far", 1)
    c.rule(RK, "lines that were read are kept until the collector accepted them; only lines that are no log records are dropped", 3)
    c.rule(RP, "a batch counts as accepted only when the transfer succeeded and the collector answered 2xx to the whole body", 2)
    c.rule(RL, "every byte read is kept, and every complete line is handed on exactly as written", 2)
    c.rule(RO, "the offset counts exactly the bytes of the complete lines handed on", 1)
    c.rule(RR, "when the path has another file, the old one is read to its end, after the change was noticed, before it is closed; the new one is read from its start", 1)
    c.rule(RS, "the position of a path is stored under that path, replacing the earlier one, and loaded back into the fields it was taken from", 2)
    c.rule(RA, "a stored position is used exactly in the file it belongs to, judged on the file that was opened", 2)
    s = open_shipper(c, c.rules)
    if s is None:
        return
    delivery(c, RD, RK, RA)
    post(c, RP)
    payload_whole(c, RK)
    fields = {"offset": field_of(c, "TrackedFile", "offset", RO), "inode": field_of(c, "TrackedFile", "inode", RR)}
    if None in fields.values():
        c.undecided(RO, "TrackedFile", "the fields behind offset() and inode() were not recognised")
    else:
        tracked(c, RL, RO, RR, RA, fields)
    store(c, RS)


def nothing(st, v):
    """known to hold no lines"""
    return st.facts.get(v) is False or v[0] == "O" and v[1] in st.objs and st.objs[v[1]]["kind"] == "list" and not st.objs[v[1]]["seq"]


def seq_at(st, v, upto):
    """what a list object held at an earlier point"""
    ms = [e for e in evs(st, "mut") if e.recv == v]
    if upto is None or not any(e.n >= upto for e in ms):
        return st.objs[v[1]]["seq"]
    seq = []
    for e in ms:
        if e.n >= upto:
            break
        t = tail(e)
        seq = [] if t == "clear" else seq + [("all", e.args[0])] if t == "extend" and e.args else seq + [("one", e.args[0])] if t == "append" and e.args else seq + [("unknown", None)]
    return seq


def contents(st, v, tokens, filtered=None, depth=0, upto=None):
    """tokens whose lines a list term holds -> (set, exact?)"""
    if v is None or depth > 12:
        return set(), False
    if v in tokens:
        return {v}, True
    if v[0] == "R" and isinstance(v[1], int) and v[1] < len(st.trace) and st.trace[v[1]].res == v:
        e = st.trace[v[1]]
        if e.label == "cxx.without_if":
            if filtered is not None:
                filtered.append(e)
            return contents(st, e.args[0], tokens, filtered, depth + 1, upto)
        if e.label == "cxx.extended":
            got, exact = set(), True
            for a in e.args:
                g, ex = contents(st, a, tokens, filtered, depth + 1, upto)
                got |= g
                exact = exact and (ex or nothing(st, a))
            return got, exact
        got = set()
        for a in list(e.args) + list(e.kw.values()):
            if isinstance(a, tuple):
                got |= contents(st, a, tokens, filtered, depth + 1, upto)[0]
        return got, False
    if v[0] == "O" and v[1] in st.objs and st.objs[v[1]]["kind"] == "list":
        got, exact = set(), True
        for x in seq_at(st, v, upto):
            if x[0] == "all":
                g, ex = contents(st, x[1], tokens, filtered, depth + 1, upto)
                got |= g
                exact = exact and ex
            elif x[0] != "one":
                exact = False
        return got, exact
    if v[0] == "A" and v[1] in ("concat", "list", "copy"):
        got, exact = set(), True
        for x in v[2:]:
            if isinstance(x, tuple):
                g, ex = contents(st, x, tokens, filtered, depth + 1, upto)
                got |= g
                exact = exact and ex
        return got, exact
    got = {t for t in tokens if mentions(v, t)}
    return got, False


def delivery(c, RD, RK, RA):
    main = c.p.function("main")
    it = c.interp(opaque=opaque_names(*ANCHORS))
    outs = c.run(it, main, RD)
    # fields that carry lines from one round to the next
    carriers = set()
    for st, kind, v in outs:
        polls = {e.res for e in evs(st, "opaque") if tail(e) == "poll"}
        for e in evs(st, "set"):
            if e.args and contents(st, e.args[0], polls)[0]:
                carriers.add(e.label)
            if e.args and e.args[0][0] == "O":
                pass
        for e in evs(st, "mut"):
            if any(isinstance(a, tuple) and contents(st, a, polls)[0] for a in e.args) and e.recv is not None and e.recv[0] == "H":
                carriers.add(e.recv[2] if isinstance(e.recv[2], str) else e.recv[2][-1])
    # a list that is filled line by line is not followed further
    byline = [e for st, kind, v in outs for e in evs(st, "mut") if tail(e) in ("append", "insert", "extend", "push_back") and e.recv is not None and e.recv[0] != "O" and
              any(isinstance(a, tuple) and any(mentions(a, p.res) for p in evs(st, "opaque") if tail(p) == "poll") for a in e.args)]
    if byline:
        for st, kind, v in outs:
            attach(c, RA, it, st, kind)
        for r in (RD, RK):
            c.undecided(r, byline[0].loc, "lines are collected one by one")
        return
    pathfield = field_of(c, "TrackedFile", "path", RD)
    preds = {}
    saw_save = saw_poll = False
    for st, kind, v in outs:
        tr = st.trace
        polls = [e for e in evs(st, "opaque") if tail(e) == "poll"]
        posts = [e for e in evs(st, "opaque") if tail(e) == "post_json"]
        saves = [e for e in evs(st, "opaque") if tail(e) == "save"]
        attach(c, RA, it, st, kind)
        if not (polls or posts or saves):
            continue
        saw_poll = saw_poll or bool(polls)
        first = min(e.n for e in polls + posts + saves)
        loops = [e for e in evs(st, "loop") if e.n < first]
        start = loops[-1].n if loops else -1
        # the lines left over from earlier rounds
        entry = set()
        pool = [x for e in tr if e.n > start for x in [e.recv] + list(e.args) + list(e.kw.values()) if isinstance(x, tuple)] + list(st.facts)
        if kind == "cut":
            pool += [x for t in v["vars"].values() for x in t if isinstance(x, tuple)]
        ids = set()
        for x in pool:
            for t in subterms(x):
                if isinstance(t, tuple) and t[0] == "H" and (t[2] in carriers or (isinstance(t[2], tuple) and t[2][-1] in carriers)):
                    ids.add(t)
                if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[3] in carriers:
                    ids.add(t)
        used = {t for t in ids if any(mentions(x, t) for e in tr if e.n > start for x in [e.recv] + list(e.args) + list(e.kw.values()) if isinstance(x, tuple)) or any(mentions(f, t) for f in st.facts)}
        if kind == "cut":
            used |= {t for k, (a, h, e) in v["vars"].items() if isinstance(k, tuple) and len(k) == 2 and k[1] in carriers for t in (e,) if isinstance(t, tuple) and t in ids}
        top = max([t[1] for t in used if t[0] == "H" and isinstance(t[1], int)], default=None)
        entry = {t for t in used if t[0] != "H" or t[1] == top}
        tokens = entry | {e.res for e in polls}

        def empty(t, upto=None):
            if it.truth(st, t) is False:
                return True
            # nothing left of it after dropping what is no log record
            for e in cx(st, "without_if", "extended"):
                fl = []
                got, exact = contents(st, e.res, {t}, fl)
                if t in got and exact and it.truth(st, e.res) is False:
                    return True
            return False

        def success(p):
            f = it.truth(st, A("attr", p.res, "success"))
            return f if f is not None else it.truth(st, p.res)

        def delivered(t, before=None):
            unsure = False
            for p in posts:
                if before is not None and p.n > before:
                    continue
                if success(p) is not True:
                    continue
                body = p.kw.get("json_body", p.args[0] if p.args else None) if p.kw else (p.args[0] if p.args else None)
                if body is None and p.kw:
                    body = list(p.kw.values())[0]
                b = st.trace[body[1]] if body is not None and body[0] == "R" and isinstance(body[1], int) else None
                if b is None or tail(b) != "build_otlp_logs_payload":
                    unsure = True
                    continue
                ls = list(b.kw.values())[0] if b.kw else b.args[0]
                fl = []
                got, exact = contents(st, ls, tokens, fl, upto=b.n)
                for e in fl:
                    preds[e.loc] = (e, st)
                if t in got and exact:
                    return True
                if t in got:
                    unsure = True
            return None if unsure else False

        blind = [e for e in evs(st, "set") if e.n > start and e.label in carriers and e.recv is not None and e.recv[0] != "O"]
        if blind and not entry and kind in ("cut", "return"):
            c.bad(RK, blind[0].loc, "lines left over from an earlier round are overwritten though the collector did not accept them", st, kind)
        # ---- positions stored
        for s in saves:
            saw_save = True
            kw = list(s.kw.values()) if s.kw else list(s.args)
            path, ino, off = (kw + [None] * 3)[:3]
            if off == K(0):
                c.ok(RD)
                continue
            oe = st.trace[off[1]] if off is not None and off[0] == "R" and isinstance(off[1], int) else None
            ie = st.trace[ino[1]] if ino is not None and ino[0] == "R" and isinstance(ino[1], int) else None
            if oe is None or ie is None or {tail(oe), tail(ie)} - {"inode", "offset"}:
                c.undecided(RD, s.loc, "the position stored was not recognised")
            elif tail(oe) != "offset" or tail(ie) != "inode":
                c.bad(RD, s.loc, f"{tail(ie)}() is stored as the inode and {tail(oe)}() as the offset", st, kind)
            elif oe.recv != ie.recv:
                c.bad(RD, s.loc, "the inode and the offset stored are those of different files", st, kind)
            elif any(ie.n < p.n < oe.n or oe.n < p.n < ie.n for p in polls if p.recv == oe.recv) and oe.n < ie.n:
                c.bad(RD, s.loc, "the offset stored was taken before the file was read further and its inode after it: an offset in another file", st, kind)
            else:
                # the file's key in the table of followed files
                r = oe.recv
                while r is not None and r[:2] == ("A", "attr"):
                    r = r[2]
                keys = [t for t in subterms(oe.recv) if isinstance(t, tuple) and t[:2] == ("A", "item")]
                own = {k[3] for k in keys if isinstance(k[3], tuple)}
                pathcall = path is not None and path[0] == "R" and isinstance(path[1], int) and tail(st.trace[path[1]]) == "path" and st.trace[path[1]].recv == oe.recv or \
                    pathfield is not None and path == A("attr", oe.recv, pathfield)
                if own and path not in own and not pathcall and path is not None and path[0] in ("A", "S", "K"):
                    c.bad(RD, s.loc, f"the position of {show(oe.recv)} is stored under {show(path)}", st, kind)
            lost = [t for t in tokens if not empty(t) and (t in entry or st.trace[t[1]].n < (oe.n if oe is not None else s.n))]
            if not lost and not tokens:
                c.bad(RD, s.loc, "the position is stored though nothing was delivered", st, kind)
            for t in lost:
                d = delivered(t, s.n)
                if d is False:
                    what = "read in this round" if t not in entry else "left over from an earlier round"
                    c.bad(RD, s.loc, f"the position is stored past lines {what} that the collector did not accept", st, kind)
                elif d is None:
                    c.undecided(RD, s.loc, "whether the batch held all lines was not recognised")
                else:
                    c.ok(RD, 1, f"{s.loc}: stored after the batch was accepted")
        # ---- lines kept
        if kind == "cut":
            final = [e for k, (a, h, e) in v["vars"].items() if isinstance(k, tuple) and len(k) == 2 and k[1] in carriers]
        else:
            final = []
        sets = [e for e in evs(st, "set") if e.n > start and e.label in carriers]
        held, heldexact = set(), True
        ends = final or [e.args[0] for e in sets[-1:]] or list(entry)
        for x in ends:
            if not isinstance(x, tuple):
                continue
            fl = []
            g, ex = contents(st, x, tokens, fl)
            for e in fl:
                preds[e.loc] = (e, st)
            held |= g
            heldexact = heldexact and (ex or not g)
        # emptied in place
        gone = set()
        for e in evs(st, "mut", "call"):
            if e.kind == "call" and tail(e) not in ("erase", "resize", "pop_back"):
                continue
            if e.n > start and tail(e) == "clear" and e.recv is not None:
                gone |= contents(st, e.recv, tokens, upto=e.n)[0]
            elif e.n > start and tail(e) == "erase" and e.recv is not None and contents(st, e.recv, tokens)[0] and len(e.args) == 2 and \
                    any(p.n < e.n and success(p) is True for p in posts):
                pass
            elif e.n > start and e.recv is not None and contents(st, e.recv, tokens)[0] and tail(e) in ("pop", "pop_back", "erase", "remove", "resize", "del"):
                gone |= contents(st, e.recv, tokens)[0]
        for t in tokens:
            if empty(t):
                c.ok(RK)
                continue
            if t in held and t not in gone:
                c.ok(RK, 1, "kept for the next round")
                if not heldexact:
                    c.undecided(RK, str(v.get("loc")) if kind == "cut" else main.qual, "whether all lines are kept was not recognised")
                continue
            d = delivered(t)
            site = next((e.loc for e in reversed(tr) if e.n > start and (e.kind == "set" and e.label in carriers or e.kind == "mut" and tail(e) == "clear")), None) or \
                (st.trace[t[1]].loc if t[0] == "R" else main.qual)
            if d is True:
                c.ok(RK, 1, f"{site}: dropped after the batch was accepted")
            elif d is None or not carriers:
                c.undecided(RK, site, "whether the batch held all lines was not recognised") if d is None else \
                    c.bad(RK, site, "lines that were read are forgotten though the collector did not accept them", st, kind)
            elif kind in ("cut", "return"):
                c.bad(RK, site, "lines that were read are forgotten though the collector did not accept them", st, kind)
    if saw_poll and not saw_save:
        c.undecided(RD, main.qual, "no position is ever stored")
    # ---- what is dropped without being delivered
    for loc, (e, st) in preds.items():
        drop_only_junk(c, RK, e, st)


def drop_only_junk(c, R, e, st):
    fn = e.args[1]
    it = c.interp(opaque=opaque_names("is_log_record"))
    line = ("S", "line", None)
    try:
        outs = it.apply(st.copy(), fn, [line], {})
    except Exception as ex:  # noqa
        c.undecided(R, e.loc, f"which lines are dropped was not recognised: {ex}")
        return
    for st2, kind, v in outs:
        if kind != "return":
            c.undecided(R, e.loc, "deciding which lines are dropped may fail")
            continue
        t = st2.copy()
        if it.truth(t, v) is False:
            c.ok(R)
            continue
        if it.truth(t, v) is None and not it.assume(t, v, True):
            c.ok(R)
            continue
        rec = [x for x in t.trace if x.kind == "opaque" and tail(x) == "is_log_record" and x.n >= len(st.trace) and (list(x.kw.values()) or list(x.args))[0] == line]
        if any(it.truth(t, x.res) is False for x in rec):
            c.ok(R, 1, f"{e.loc}: only what is no log record is dropped")
        elif it.truth(t, line) is False:
            c.ok(R)
        elif rec and it.truth(t, rec[-1].res) is True or not any(mentions(f, line) or any(x.kind in ("call", "opaque") and x.res == y for x in t.trace[len(st.trace):] for y in subterms(f)) for f in t.facts):
            c.bad(R, e.loc, "lines that are log records are dropped", st2, kind)
        elif not rec:
            c.undecided(R, e.loc, f"which lines are dropped was not recognised ({show(v)})")
        else:
            c.bad(R, e.loc, "lines are dropped though they may be log records", st2, kind)


def attach(c, R, it, st, kind):
    loads = [e for e in evs(st, "opaque") if tail(e) == "load"]
    for e in evs(st, "new"):
        nm = e.label.split(".")[-1]
        if not (nm == "TrackedFile" or nm.startswith("TrackedFile__")):
            continue
        before = [x for x in loads if x.n < e.n]
        if not before:
            c.undecided(R, e.loc, "a file is followed without looking for a stored position")
            continue
        ld = before[-1]
        none = known_none(it, st, ld.res)
        if none is None:
            none = {False: True, True: False}.get(it.truth(st, ld.res))
        args = list(e.args) or list(e.kw.values())
        if none is True:
            if len(args) == 1:
                c.ok(R)
            continue
        if len(args) == 1:
            if none is False:
                c.bad(R, e.loc, "a stored position is not used when a file is followed again", st, kind)
            continue
        lp = (list(ld.kw.values()) or list(ld.args) or [None])[0]
        if len(args) == 3:
            if lp is not None and args[0] != lp and args[0][0] in ("A", "S", "K") and lp[0] in ("A", "S", "K"):
                c.bad(R, e.loc, f"the position stored for {show(lp)} is used for {show(args[0])}", st, kind)
            elif args[1:] == [A("attr", ld.res, "offset"), A("attr", ld.res, "inode")]:
                c.bad(R, e.loc, "the stored inode and offset are exchanged", st, kind)
            elif args[1:] == [A("attr", ld.res, "inode"), A("attr", ld.res, "offset")]:
                c.ok(R, 1, f"{e.loc}: resumes at the stored position")
            elif args[2][0] in ("K", "L"):
                c.bad(R, e.loc, f"resumes at {show(args[2])} instead of the stored offset", st, kind)
            else:
                c.undecided(R, e.loc, "the position resumed at was not recognised")


def post(c, R):
    f = c.meth("HttpSender", "post_json")
    it = c.interp()
    body = ("S", f.node.args.args[1].arg)
    accepted = 0
    for st, kind, v in c.run(it, f, R):
        if kind != "return" or v is None or v[0] != "O":
            continue
        flds = entry_fields(it, st, v) or {}
        ok = flds.get("success")
        if ok is None:
            c.undecided(R, f.qual, "the result was not recognised")
            continue
        perf = cx(st, "curl_easy_perform")
        codes = [(e, g) for e in cx(st, "written") for g in cx(st, "curl_easy_getinfo") if e.args[0] == g.res and g.args[1] == X("CURLINFO_RESPONSE_CODE")]
        if it.truth(st, ok) is False:
            c.ok(R)
            continue
        if not perf:
            c.bad(R, f.qual, "a batch counts as accepted though nothing was sent", st, kind)
            continue
        p = perf[-1]
        codes = [(e, g) for e, g in codes]
        terms = [t for t in list(st.facts) + [ok]]
        cvs = {e.res for e, g in codes}
        done = True
        for res_ok in (True, False):
            for code in (0, 100, 199, 200, 202, 204, 299, 300, 302, 304, 399, 400, 401, 404, 429, 499, 500, 503, 599):
                env = {p.res: "ok" if res_ok else "failed", X("CURLE_OK"): "ok", K(0): 0}
                for cv in cvs:
                    env[cv] = code
                try:
                    possible = True
                    for t, val in st.facts.items():
                        if not (mentions(t, p.res) or any(mentions(t, cv) for cv in cvs)):
                            continue
                        if mentions(t, p.res) and t in (A("eq", p.res, K(0)), A("eq", K(0), p.res)):
                            b = res_ok
                        elif t == p.res:
                            b = not res_ok
                        else:
                            b = bool(point(t, env))
                        if b != val:
                            possible = False
                    if not possible:
                        continue
                    if ok in (A("eq", p.res, K(0)), A("eq", K(0), p.res)):
                        says = res_ok
                    elif ok == p.res:
                        says = not res_ok
                    else:
                        says = bool(point(ok, env)) if it.truth(st, ok) is None else it.truth(st, ok)
                except Unknown as u:
                    c.undecided(R, f.qual, f"when a batch counts as accepted was not recognised: {u}")
                    done = False
                    break
                if says and not res_ok:
                    c.bad(R, f.qual, "a batch counts as accepted though the transfer failed", st, kind)
                    done = False
                    break
                if says and not 200 <= code < 300:
                    c.bad(R, f.qual, f"a batch counts as accepted though the collector answered {code}", st, kind)
                    done = False
                    break
                if says and any(g.n < p.n for e, g in codes):
                    c.bad(R, f.qual, "the status is asked for before the request was sent", st, kind)
                    done = False
                    break
            if not done:
                break
        if not done:
            continue
        opts = {e.args[1][1].split(".")[-1]: e for e in cx(st, "curl_easy_setopt") if len(e.args) > 2 and e.args[1][0] == "X" and e.n < p.n}
        data = opts.get("CURLOPT_POSTFIELDS") or opts.get("CURLOPT_COPYPOSTFIELDS")
        if data is None:
            c.undecided(R, f.qual, "how the body is sent was not recognised")
        elif data.args[2][:2] != body:
            if any(t[:2] == body for t in provenance(st, data.args[2])):
                c.undecided(R, data.loc, "the body sent was not recognised")
            else:
                c.bad(R, data.loc, "the body sent is not the batch", st, kind)
        else:
            size = opts.get("CURLOPT_POSTFIELDSIZE") or opts.get("CURLOPT_POSTFIELDSIZE_LARGE")
            if size is not None and not (size.args[2][:2] == ("A", "len") and size.args[2][2][:2] == body):
                if size.args[2] == K(-1):
                    c.ok(R)
                elif size.args[2][0] in ("K", "L") or (size.args[2][0] == "A" and size.args[2][1] in ("min", "std::min")):
                    c.bad(R, size.loc, f"only {show(size.args[2])} bytes of the batch are sent", st, kind)
                else:
                    c.undecided(R, size.loc, "the size of the body was not recognised")
            else:
                accepted += 1
                c.ok(R, 1, f"{p.loc}: transferred, 2xx, the whole body")
    return accepted


def payload_whole(c, R):
    """every line given gets into the payload"""
    f = c.p.function("build_otlp_logs_payload")
    lines = ("S", f.node.args.args[0].arg)
    it = c.interp()
    outs = c.run(it, f, R)
    kept = set()
    for st, kind, v in outs:
        if kind != "cut":
            continue
        ls = [e for e in evs(st, "loop") if e.loc == v["loc"]]
        if not ls or not (ls[-1].args and ls[-1].args[0][:2] == lines):
            continue
        app = [e for e in evs(st, "mut") if e.n > ls[-1].n and tail(e) in ("append", "push_back", "emplace_back") and e.recv is not None and e.args and
               any(t[:2] == ("A", "elem") and t[2][:2] == lines for t in provenance(st, e.args[0]))]
        if app:
            kept.add(app[0].loc)
            c.ok(R, 1, f"{app[0].loc}: each line's record goes into the payload")
        elif any(any(t[:2] == ("A", "elem") for a in [e.recv] + list(e.args) if isinstance(a, tuple) for t in provenance(st, a)) for e in evs(st, "mut", "setitem") if e.n > ls[-1].n and e.recv is not None and e.recv[0] != "O"):
            c.undecided(R, v["loc"], "what becomes of a line was not recognised")
        else:
            c.bad(R, v["loc"], "a line of the batch does not get into the payload", st, kind)
    # a loop that counts
    counted = set()
    for st, kind, v in outs:
        if kind != "cut":
            continue
        for k, (entry, h, end) in v["vars"].items():
            if h is None or not any(t[:2] == ("A", "item") and t[2][:2] == lines and t[3] == h for e in st.trace for a in [e.recv] + list(e.args) if isinstance(a, tuple) for t in provenance(st, a)):
                continue
            counted.add(v["loc"])
            bound = [t for t, val in st.facts.items() if any(x == h for x in t[2:]) and t[0] == "A" and t[1] in ("lt", "ge", "ne", "eq", "gt", "le")]
            step = add(end, h, -1)
            if entry[0] == "K" and entry[2] != 0:
                c.bad(R, v["loc"], f"the first {entry[2]} lines of a batch do not get into the payload", st, kind)
            elif step is not None and step[0] == "K" and step[2] != 1:
                c.bad(R, v["loc"], "lines of a batch are skipped", st, kind)
            elif any(x[0] == "L" and x[1] < 0 or x[0] == "K" for t in bound for x in t[2:]) and not any(x[:2] == ("A", "len") and x[2][:2] == lines for t in bound for x in t[2:]):
                c.bad(R, v["loc"], f"only a part of a batch gets into the payload ({show(bound[0])})", st, kind)
            elif any(x[:2] == ("A", "len") and x[2][:2] == lines for t in bound for x in t[2:]):
                c.ok(R, 1, f"{v['loc']}: every line of the batch")
            else:
                c.undecided(R, v["loc"], "how far the loop over the batch goes was not recognised")
    for st, kind, v in outs:
        if kind != "return":
            continue
        ls = [e for e in evs(st, "loop") if e.args and e.args[0][:2] == lines] + [e for e in evs(st, "loop") if e.loc in counted]
        whole = [e for e in evs(st, "loop") if e.args and any(t[:2] == lines for t in subterms(e.args[0]))]
        for b in evs(st, "break"):
            for L in ls:
                if b.n > L.n and innermost(c, b.loc) == L.loc and L.loc not in counted:
                    c.bad(R, b.loc, "the lines behind this one do not get into the payload", st, kind)
        if whole and not ls:
            if any(t[0] == "A" and t[1] in ("slice",) for t in subterms(whole[0].args[0])):
                c.bad(R, whole[0].loc, "only a part of the batch gets into the payload", st, kind)
            else:
                c.undecided(R, whole[0].loc, "the loop over the batch was not recognised")
        elif not ls:
            c.undecided(R, f.qual, "the loop over the batch was not recognised")


def innermost(c, loc):
    """location of the loop a break leaves"""
    path, line = loc.rsplit(":", 1)
    best = None
    for m in c.p.modules.values():
        if m.relpath != path:
            continue

        def walk(n, cur):
            nonlocal best
            if isinstance(n, (ast.For, ast.While)):
                cur = n
            if isinstance(n, ast.Break) and n.lineno == int(line) and cur is not None:
                best = f"{path}:{cur.lineno}"
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                cur = None
            for ch in ast.iter_child_nodes(n):
                walk(ch, cur)
        walk(m.tree, None)
    return best


# ------------------------------------------------------------------ following a file
def tracked(c, RL, RO, RR, RA, fields):
    f = c.meth("TrackedFile", "poll")
    T = c.cls("TrackedFile")
    it = c.interp()
    outs = c.run(it, f, RL)
    me = None
    for st, kind, v in outs:
        for e in cx(st, "read"):
            for t in subterms(e.args[0]):
                if t[0] == "S" and t[1] == "self":
                    me = t
    me = me or ("S", "self", it.tk(T))
    off, ino = fields["offset"], fields["inode"]

    def own(e, name=None):
        return e.kind == "set" and e.recv is not None and e.recv[:2] == ("S", "self") and (name is None or e.label.split(".")[-1] == name)

    pend = {e.label for st, kind, v in outs for e in evs(st, "set") if own(e) and e.args[0][0] == "R" and isinstance(e.args[0][1], int) and st.trace[e.args[0][1]].label == "cxx.string_append"}
    fdf = {e.label for st, kind, v in outs for e in evs(st, "set") if own(e) and e.args[0][0] == "R" and isinstance(e.args[0][1], int) and st.trace[e.args[0][1]].label in ("cxx.open", "cxx.openat")}
    if len(pend) != 1 or len(fdf) > 1:
        c.undecided(RL, f.qual, f"the field that holds an incomplete line was not recognised ({sorted(pend)})")
        return
    pend = pend.pop()

    # ---- bytes read are kept
    carried = {r.loc for st, kind, v in outs if kind == "cut" for r in cx(st, "read") if any(r.res in (a, e) and h is not None and any(mentions(x, h) for y in cx(st, "string_append", "string") for x in y.args[1:]) for a, h, e in v["vars"].values())}
    for loc in sorted(carried):
        c.undecided(RL, loc, "the number of bytes read is carried from one iteration to the next")
    for st, kind, v in outs:
        for r in cx(st, "read"):
            if nonpos(it, st, r.res) or r.loc in carried:
                continue
            buf = r.args[1]
            app = [e for e in cx(st, "string_append") if e.n > r.n and len(e.args) >= 2 and e.args[1] == buf]
            if not app:
                later = [e for e in st.trace if e.n > r.n and any(isinstance(a, tuple) and mentions(a, buf) for a in e.args)]
                if later:
                    c.undecided(RL, r.loc, "what becomes of the bytes read was not recognised")
                elif kind != "raise":
                    c.bad(RL, r.loc, "bytes that were read are not kept", st, kind)
                continue
            a = app[0]
            n = a.args[2] if len(a.args) > 2 else None
            if n != r.res:
                if n is None:
                    c.bad(RL, a.loc, "the bytes read are kept up to the first NUL, not as many as were read", st, kind)
                elif n[0] in ("K", "L") or (n[0] == "R" and isinstance(n[1], int) and st.trace[n[1]].label == "cxx.sizeof"):
                    c.bad(RL, a.loc, f"{show(n)} bytes are kept where {show(r.res)} were read", st, kind)
                else:
                    c.undecided(RL, a.loc, "the number of bytes kept was not recognised")
                continue
            kept = [e for e in evs(st, "set") if own(e, pend) and e.args[0] == a.res]
            if kept:
                c.ok(RL, 1, f"{a.loc}: as many bytes as were read are kept")

    # ---- lines handed on
    good = set()     # loop heads (and searches) whose value is a position right behind handed-on lines
    for st, kind, v in outs:
        if kind != "cut":
            continue
        ls = [e for e in evs(st, "loop") if e.loc == v["loc"]]
        since = ls[-1].n if ls else -1
        finds = [t for fct in st.facts for t in subterms(fct) if isinstance(t, tuple) and t[:2] == ("A", "find") and len(t) > 3 and t[3] == NL]
        finds = [t for t in dict.fromkeys(finds) if eq(it, st, t, X("npos")) is False]
        if not finds:
            continue
        subs = [e for e in st.trace if e.kind in ("call", "pure") and tail(e) == "substr" and e.n > since]
        pushes = [e for e in evs(st, "mut", "call") if e.n > since and tail(e) in ("append", "push_back", "emplace_back", "extend", "insert", "emplace", "string_insert")]
        for t in finds:
            P, a = t[2], (t[4] if len(t) > 4 else K(0))
            # only searches of this iteration
            heads = {h: (entry, end, k) for k, (entry, h, end) in v["vars"].items() if h is not None}
            ends = {k: (entry, h, end) for k, (entry, h, end) in v["vars"].items()}
            mine = [s for s in subs if s.recv == P and s.args and s.args[0] == a]
            length = add(t, a, -1)
            nxt = add(t, K(1))
            pushed = [s for s in mine if any(p.args and p.args[0] == s.res for p in pushes)]
            wrong = [s for s in subs if s.recv == P and s not in mine and any(p.args and p.args[0] == s.res for p in pushes)]
            if not pushed:
                if wrong:
                    s = wrong[0]
                    d = add(s.args[0], a, -1) if s.args else None
                    if d is not None and d[0] == "K" and d[2] != 0 or a != K(0) and (not s.args or s.args[0] == K(0)):
                        c.bad(RL, s.loc, f"a line is taken from {show(s.args[0])}, not from where it begins ({show(a)})", st, kind)
                    else:
                        c.undecided(RL, s.loc, "where a line begins was not recognised")
                elif pushes:
                    c.undecided(RL, pushes[0].loc, "what is handed on was not recognised")
                elif it.truth(st, A("gt", t, a)) is False or eq(it, st, t, a) is True or it.truth(st, A("le", t, a)) is True or any(length is not None and eq(it, st, length, K(0)) is True for _ in (0,)):
                    c.ok(RL)   # an empty line
                    lineok = True
                else:
                    # is it this iteration that found it?
                    if any(h is not None and mentions(t, h) for h in heads) or ends:
                        c.bad(RL, v["loc"], "a complete line is not handed on", st, kind)
                    continue
            else:
                s = pushed[0]
                n = s.args[1] if len(s.args) > 1 else None
                if n is None:
                    c.bad(RL, s.loc, "everything behind the beginning of a line is handed on as that line", st, kind)
                    continue
                if n != length:
                    d = add(n, length, -1)
                    if d is not None and d[0] == "K":
                        if d[2] == 1:
                            c.ok(RL)   # with its line end: the same JSON
                        else:
                            c.bad(RL, s.loc, f"a line of {show(length)} bytes is handed on as {show(n)} bytes", st, kind)
                            continue
                    elif n == t and a != K(0):
                        c.bad(RL, s.loc, f"a line of {show(length)} bytes is handed on as {show(n)} bytes", st, kind)
                        continue
                    else:
                        c.undecided(RL, s.loc, "the length of a line was not recognised")
                        continue
                else:
                    c.ok(RL, 1, f"{s.loc}: the line from {show(a)} up to its line end")
            # where the next line begins
            if a in heads:
                entry, end, k = heads[a]
                if end == nxt:
                    if entry in (K(0), None):
                        good.add(a)
                        good.add(nxt)
                        c.ok(RO)
                    else:
                        c.bad(RL, v["loc"], f"lines are looked for from {show(entry)} on, not from the beginning", st, kind) if entry[0] == "K" else c.undecided(RL, v["loc"], "where the search begins was not recognised")
                else:
                    d = add(end, nxt, -1)
                    if d is not None and d[0] == "K":
                        c.bad(RL, v["loc"], f"the next line is looked for {'behind' if d[2] > 0 else 'before'} its beginning ({show(end)} instead of {show(nxt)})", st, kind)
                    else:
                        c.undecided(RL, v["loc"], "where the next line begins was not recognised")
            elif a == K(0):
                er = [e for e in cx(st, "string_erase") if e.n > since and e.args[0] == P]
                if er and er[-1].args[1] == K(0) and len(er[-1].args) > 2 and er[-1].args[2] == nxt:
                    good.add(nxt)
                    os_ = [e for e in evs(st, "set") if own(e, off) and e.n > since]
                    if os_:
                        fc = [e for e in os_]
                        delta = None
                        prev = next((h for k, (en, h, end) in v["vars"].items() if isinstance(k, tuple) and k[-1] == off and h is not None), None)
                        base = prev or A("attr", me, off)
                        cand = [x for x in (add(lengths(st, os_[-1].args[0]), nxt, -1),) if x is not None]
                        if cand and (cand[0] == base or cand[0][0] in ("H",) or cand[0][:2] == ("A", "attr")):
                            c.ok(RO)
                        elif cand and cand[0][0] == "L":
                            c.bad(RO, os_[-1].loc, f"the offset grows by something else than the {show(nxt)} bytes of the line", st, kind)
                        else:
                            c.undecided(RO, os_[-1].loc, "how the offset grows was not recognised")
                elif er:
                    d = add(er[-1].args[2], nxt, -1) if len(er[-1].args) > 2 else None
                    if d is not None and d[0] == "K":
                        c.bad(RL, er[-1].loc, f"{show(er[-1].args[2])} bytes are removed for a line of {show(nxt)}", st, kind)
                    else:
                        c.undecided(RL, er[-1].loc, "what is removed was not recognised")
                else:
                    c.undecided(RL, v["loc"], "where the next line begins was not recognised")
            else:
                c.undecided(RL, v["loc"], "where the next line begins was not recognised")

    # ---- offset and remainder, rotation
    rotated = 0
    for st, kind, v in outs:
        if kind == "cut":
            continue
        if kind == "raise":
            continue
        # segments: the file followed at first, and the one opened
        opens = cx(st, "open", "openat")
        closes = [e for e in cx(st, "close")]
        bounds = [e.n for e in opens] + [len(st.trace) + 1]
        seg_start = -1
        for i, end in enumerate(bounds):
            evts = [e for e in st.trace if seg_start < e.n < end]
            account(c, RL, RO, it, st, kind, evts, off, pend, me, good, own, first=(i == 0))
            seg_start = end
        if opens:
            o = opens[0]
            stats = [e for e in cx(st, "stat", "lstat", "fstatat") if e.n < o.n]
            if stats:
                S = stats[-1]
                old = A("attr", me, "_fd")
                cut = min([e.n for e in closes if e.n < o.n] + [o.n])
                reads = [e for e in cx(st, "read") if e.n < o.n]
                # only where the change of file is known
                differs = [t for t, val in st.facts.items() if val is False and t[:2] == ("A", "eq") and any(x[:2] == ("A", "attr") and x[3] == "st_ino" for x in t[2:]) and any(x == A("attr", me, ino) for x in t[2:])]
                if not reads or not [r for r in reads if S.n < r.n < cut]:
                    if [r for r in reads if r.n < S.n]:
                        c.bad(RR, o.loc, "the old file is read before the change of file was noticed: what is written in between is lost", st, kind)
                    else:
                        c.bad(RR, o.loc, "the old file is left without reading what is still unread in it", st, kind)
                    continue
                r = [r for r in reads if S.n < r.n < cut][-1]
                if [x for x in reads if x.n > cut]:
                    c.bad(RR, o.loc, "the old file is read after it was closed", st, kind)
                    continue
                if not nonpos(it, st, r.res) and r.loc in carried:
                    c.undecided(RR, r.loc, "whether the old file is read to its end was not recognised")
                    continue
                if not nonpos(it, st, r.res):
                    c.bad(RR, r.loc, "the old file is left after one read, before its end was reached", st, kind)
                    continue
                # lines taken out of what was read
                ps = [e for e in evs(st, "set") if own(e, pend) and e.n < o.n and e.args[0][0] == "R" and isinstance(e.args[0][1], int) and st.trace[e.args[0][1]].label == "cxx.string_erase"]
                found = [t for t, val in st.facts.items() if val is True and t[:2] == ("A", "eq") and X("npos") in t[2:] and any(x[:2] == ("A", "find") for x in t[2:])]
                if not found and not ps:
                    c.bad(RR, r.loc, "what was read from the old file is not divided into lines before the new file is followed", st, kind)
                    continue
                rotated += 1
                c.ok(RR, 1, f"{r.loc}: drained before the new file is opened")
                if differs == []:
                    pass
            # the file that was opened
        opened(c, RR, RA, it, st, kind, fields, pend, own, me, "poll")
    allouts = [x for x in outs if x[1] != "cut"]
    if outs and not any(cx(st, "open", "openat") for st, kind, v in outs) and allouts:
        c.bad(RR, f.qual, "a new file at the path is never followed")
    # a rotation that is noticed must be acted upon, one that is not there must not lose the place
    # ---- what was read is returned
    it2 = c.interp(peel=2, max_paths=20000)
    for st, kind, v in c.run(it2, f, RL):
        if kind == "raise":
            app = [e for e in evs(st, "mut") if tail(e) in ("append", "push_back")]
            if app:
                c.bad(RL, app[-1].loc, f"lines that were read are lost when {v[1] if v and v[0] == 'E' else 'something'} is raised", st, kind)
            continue
        if kind != "return":
            continue
        app = [e for e in evs(st, "mut") if tail(e) in ("append", "push_back", "emplace_back") and e.recv is not None and e.recv[0] == "O"]
        cut = max([e.n for e in evs(st, "mut") if tail(e) == "clear"], default=-1)
        for e in app:
            if e.recv == v and e.n > cut:
                c.ok(RL)
            elif v is not None and v[0] == "O" and any(x[0] in ("all", "one") and mentions(x[1], e.recv) or x[0] == "one" and x[1] == e.args[0] for x in st.objs[v[1]].get("seq", ())):
                c.ok(RL)
            elif v is not None and (v[0] == "O" and st.objs[v[1]]["kind"] == "list" and not st.objs[v[1]]["seq"] or v[0] == "K") or e.recv == v:
                c.bad(RL, e.loc, "lines that were read are not returned", st, kind)
            elif any(x.kind in ("call", "mut") and x.n > e.n and any(a == e.recv for a in x.args) for x in st.trace):
                c.undecided(RL, e.loc, "whether the line is returned was not recognised")
            else:
                c.bad(RL, e.loc, "lines that were read are not returned", st, kind)

    # ---- starting to follow a file
    for arity in (1, 3):
        k = ctor(c, "TrackedFile", arity)
        if k is None:
            c.undecided(RA, "TrackedFile", f"no constructor with {arity} parameters")
            continue
        m = k.methods["__init__"]
        it3 = c.interp()
        ps = [x.arg for x in m.node.args.args][1:]
        for st, kind, v in c.run(it3, m, RA):
            if kind == "return":
                opened(c, RR, RA, it3, st, kind, fields, pend, own, ("S", "self", it3.tk(k)), "constructor", ps if arity == 3 else None)


def account(c, RL, RO, it, st, kind, evts, off, pend, me, good, own, first):
    """within one file: the bytes taken off the remainder are those of handed-on lines, and the offset grows by as many"""
    erased = [e for e in evts if e.kind == "call" and e.label == "cxx.string_erase" and any(own(x, pend) and x.args[0] == e.res for x in evts)]
    sets = [e for e in evts if own(e, off)]
    whole = [e for e in evts if own(e, pend) and e.args[0] == K("")]
    reads = [e for e in evts if e.kind == "call" and e.label == "cxx.read"]
    for w in whole:
        if reads and w.n > reads[0].n:
            c.bad(RL, w.loc, "an incomplete line is thrown away", st, kind)
    odd = [e for e in evts if own(e, pend) and reads and e.n > reads[0].n and e.args[0] != K("") and
           not (e.args[0][0] == "R" and isinstance(e.args[0][1], int) and st.trace[e.args[0][1]].label in ("cxx.string_erase", "cxx.string_append")) and e.args[0][:2] != ("A", "concat")]
    if odd:
        c.undecided(RL, odd[0].loc, "what is left of the remainder was not recognised")
        return
    # offset changes after the file was (re)opened: the assignment that starts it is not a growth
    start = A("attr", me, off)
    grown = K(0)
    for e in sets:
        if reads and e.n > reads[0].n:
            cur = prev_value(st, e, off, own) or start
            d = add(lengths(st, e.args[0]), lengths(st, cur), -1)
            if d is None:
                c.undecided(RO, e.loc, "how the offset grows was not recognised")
                return
            grown = add(grown, d)
    taken = K(0)
    for e in erased:
        if len(e.args) < 3 or e.args[1] != K(0):
            if len(e.args) == 2 and e.args[1] == K(0):
                c.bad(RL, e.loc, "an incomplete line is thrown away", st, kind)
            else:
                c.undecided(RL, e.loc, "what is removed from the remainder was not recognised")
            return
        n = e.args[2]
        if n not in good:
            base = [g for g in good if add(n, g, -1) is not None and add(n, g, -1)[0] == "K"]
            if base and add(n, base[0], -1) != K(0):
                c.bad(RL, e.loc, f"{show(n)} bytes are removed from the remainder where {show(base[0])} were handed on", st, kind)
            elif n[0] == "K" and n[2] == 0 or it.truth(st, A("gt", n, K(0))) is False:
                pass
            elif n == X("npos") or n[:2] == ("A", "len"):
                c.bad(RL, e.loc, "an incomplete line is thrown away", st, kind)
                return
            else:
                c.undecided(RL, e.loc, "what is removed from the remainder was not recognised")
                return
        taken = add(taken, n)
    if not reads:
        return
    if taken is None or grown is None:
        c.undecided(RO, reads[0].loc, "how the offset grows was not recognised")
    elif grown == taken:
        if erased:
            c.ok(RO, 1, f"{erased[-1].loc}: the offset grows by the bytes taken off the remainder ({show(taken)})")
    else:
        site = sets[-1].loc if sets else (erased[-1].loc if erased else reads[0].loc)
        loops = [e for e in evts if e.kind == "loop"]
        if any(t[0] == "H" for x in (grown, taken) for t in subterms(x)) or loops and (sets or erased):
            d = add(grown, taken, -1)
            if sets and erased or not sets and erased or sets and not erased:
                c.bad(RO, site, f"the offset grows by {show(grown)} while the bytes of the lines handed on are {show(taken)}", st, kind)
        else:
            c.undecided(RO, site, "how the offset grows was not recognised")


def lengths(st, v):
    """the length of a piece cut out of a text is the length it was cut with"""
    m = {}
    for t in subterms(v):
        if isinstance(t, tuple) and t[:2] == ("A", "len") and isinstance(t[2], tuple):
            x = t[2]
            if x[0] == "R" and isinstance(x[1], int) and tail(st.trace[x[1]]) == "substr" and len(st.trace[x[1]].args) == 2:
                m[t] = st.trace[x[1]].args[1]
            elif x[:2] == ("A", "substr") and len(x) == 5:
                m[t] = x[4]
    if not m:
        return v
    if v[0] == "L":
        r = K(v[1]) if isinstance(v[1], int) else None
        l = lin(v)
        if l is None:
            return v
        r = K(l[0])
        for t, k in l[1].items():
            r = add(r, m.get(t, t), k) if r is not None else None
        return r if r is not None else v
    return m.get(v, v)


def prev_value(st, e, field, own):
    p = [x for x in st.trace if x.n < e.n and own(x, field)]
    return p[-1].args[0] if p else None


def opened(c, RR, RA, it, st, kind, fields, pend, own, me, where, resume=None):
    """after a file was opened: inode of that very file, offset where reading will begin, nothing left over from another file"""
    opens = [e for e in cx(st, "open", "openat") if eq(it, st, e.res, K(-1)) is False or it.truth(st, A("lt", e.res, K(0))) is False or it.truth(st, A("ge", e.res, K(0))) is True]
    if not opens:
        return
    o = opens[-1]
    after = [e for e in st.trace if e.n > o.n]
    if any(e.label == "cxx.close" and e.args and e.args[0] == o.res for e in after if e.kind == "call"):
        return
    reads = [e.n for e in after if e.kind == "call" and e.label == "cxx.read"]
    stop = min(reads, default=len(st.trace) + 1)
    before_read = [e for e in after if e.n < stop]
    R = RR if where == "poll" else RA
    iset = [e for e in before_read if own(e, fields["inode"])]
    oset = [e for e in before_read if own(e, fields["offset"])]
    pset = [e for e in before_read if own(e, pend)]
    seeks = [e for e in before_read if e.kind == "call" and e.label in ("cxx.lseek", "cxx.lseek64") and e.args[0] == o.res]
    fst = [e for e in st.trace if e.kind == "call" and e.label == "cxx.fstat" and e.args and e.args[0] == o.res]
    zero = K(0)
    if not iset:
        c.bad(R, o.loc, "the inode of the file that was opened is not taken over", st, kind)
        return
    iv = iset[-1].args[0]
    good = [A("attr", e.args[1], "st_ino") for e in fst]
    if iv not in good:
        other = [e for e in cx(st, "stat", "lstat") if A("attr", e.args[1], "st_ino") == iv]
        if other:
            c.bad(R, iset[-1].loc, "the inode is taken from the path, not from the file that was opened: the two may differ", st, kind)
            return
        c.undecided(R, iset[-1].loc, "the inode taken over was not recognised")
        return
    if not oset and where == "poll":
        c.bad(R, o.loc, "the offset of the old file is kept for the new one", st, kind)
        return
    ov = oset[-1].args[0] if oset else zero

    def zeroish(t):
        return t == zero or nonpos(it, st, t)
    pos = seeks[-1].args[1] if seeks else zero
    if seeks and len(seeks[-1].args) > 2 and seeks[-1].args[2] != zero:
        c.bad(R, seeks[-1].loc, "the position is set relative to something else than the beginning of the file", st, kind)
        return
    if ov != pos and not (zeroish(ov) and zeroish(pos)):
        if zeroish(ov) or zeroish(pos) or (add(ov, pos, -1) or ("?",))[0] == "K":
            c.bad(R, (oset or [o])[-1].loc, f"reading begins at {show(pos)} but the offset says {show(ov)}", st, kind)
        else:
            c.undecided(R, (oset or [o])[-1].loc, "where reading begins was not recognised")
        return
    if where == "poll":
        if not zeroish(pos):
            c.bad(R, o.loc, f"the new file is read from {show(pos)}, not from its start", st, kind)
            return
        if not pset or pset[-1].args[0] != K(""):
            left = [e for e in st.trace if own(e, pend)]
            if not pset:
                c.bad(R, o.loc, "an incomplete line of the old file is put before the first line of the new one", st, kind)
            else:
                c.undecided(R, pset[-1].loc, "what is left over of the old file was not recognised")
            return
        c.ok(R)
        return
    if resume is None:
        if zeroish(pos):
            c.ok(R, 1, "a file followed for the first time is read from its start")
        else:
            c.bad(R, o.loc, f"a file followed for the first time is read from {show(pos)}", st, kind)
        return
    rin, rof = [next((t for x in list(st.facts) + [a for e in st.trace for a in e.args if isinstance(a, tuple)] for t in subterms(x) if isinstance(t, tuple) and t[:2] == ("S", n)), ("S", n)) for n in resume[1:3]]
    same = eq(it, st, iv, rin)
    bypath = [e for e in cx(st, "stat", "lstat") if e.n < o.n and eq(it, st, A("attr", e.args[1], "st_ino"), rin) is True]
    if not zeroish(pos):
        if pos[:2] != rof[:2]:
            c.bad(RA, o.loc, f"reading begins at {show(pos)}, not at the stored offset", st, kind) if pos[0] in ("K", "L", "S") else c.undecided(RA, o.loc, "where reading begins was not recognised")
        elif same is True:
            c.ok(RA, 1, f"{o.loc}: stored offset in the same file")
        elif bypath:
            c.bad(RA, bypath[0].loc, "the stored offset is used in a file that is opened after the comparison: the path may have been rotated in between, and the beginning of the new file is skipped", st, kind)
        elif same is False or not any(mentions(t, rin) for t in st.facts):
            c.bad(RA, o.loc, "the stored offset is used in another file than the one it belongs to", st, kind)
        else:
            c.undecided(RA, o.loc, "when the stored offset is used was not recognised")
    else:
        if same is True and not zeroish(rof) and not nonpos(it, st, rof):
            c.bad(RA, o.loc, "the stored offset is not used in the file it belongs to", st, kind)
        else:
            c.ok(RA)


# ------------------------------------------------------------------ the stored positions
def columns(sql):
    return [x.strip().strip('"`[]').lower() for x in sql.split(",")]


def store(c, R):
    save, load = c.meth("StateStore", "save"), c.meth("StateStore", "load")
    it = c.interp()
    colof = {}   # parameter -> column
    keycol = None
    sp = [x.arg for x in save.node.args.args][1:]
    for st, kind, v in c.run(it, save, R):
        if kind != "return":
            continue
        stm = cx(st, "Statement")
        done = [e for e in st.trace if e.kind == "call" and tail(e) in ("exec", "executeStep", "tryExecuteStep") and stm and e.recv == stm[-1].res]
        if not stm or stm[-1].args[1][0] != "K":
            c.undecided(R, save.qual, "the statement was not recognised")
            continue
        sql = " ".join(stm[-1].args[1][2].split())
        m = re.match(r"(?is)(insert(?: or (\w+))?|replace) into (\w+) ?\(([^)]*)\) ?values ?\(([^)]*)\)(.*)$", sql)
        if not m:
            c.undecided(R, stm[-1].loc, "the statement was not recognised")
            continue
        cols, marks, rest = columns(m.group(4)), [x.strip() for x in m.group(5).split(",")], m.group(6).strip()
        if not done:
            c.bad(R, stm[-1].loc, "the position is not stored: the statement is never executed", st, kind)
            continue
        bound = {}
        for e in st.trace:
            if e.kind == "call" and tail(e) == "bind" and e.recv == stm[-1].res and e.n < done[0].n and len(e.args) > 1:
                i = e.args[0]
                if i[0] == "K" and isinstance(i[2], int):
                    bound[i[2]] = e.args[1]
                elif i[0] == "K":
                    bound[i[2]] = e.args[1]
        n, ok = 0, True
        for col, mk in zip(cols, marks):
            if mk == "?":
                n += 1
                val = bound.get(n)
            elif re.match(r"\?\d+$", mk):
                val = bound.get(int(mk[1:]))
            elif mk[:1] in (":", "@", "$"):
                val = bound.get(mk)
            else:
                val = None
            par = next((p for p in sp if val is not None and val[:2] == ("S", p)), None)
            if par is None:
                ok = False
                if val is None:
                    c.bad(R, stm[-1].loc, f"nothing is stored in the column {col}", st, kind) if mk.startswith("?") else c.undecided(R, stm[-1].loc, f"value of {col} not recognised")
                else:
                    c.undecided(R, stm[-1].loc, f"what is stored in {col} was not recognised")
            else:
                colof[par] = col
        if not ok:
            continue
        if set(colof) != set(sp):
            c.bad(R, stm[-1].loc, f"{', '.join(sorted(set(sp) - set(colof)))} is not stored", st, kind)
            continue
        keycol = colof[sp[0]]
        replaced = m.group(1).lower() == "replace" or (m.group(2) or "").lower() == "replace"
        if replaced:
            c.ok(R, 1, f"{stm[-1].loc}: the earlier position is replaced")
        elif (m.group(2) or "").lower() == "ignore" or re.search(r"(?i)do nothing", rest):
            c.bad(R, stm[-1].loc, "a later position does not replace the stored one", st, kind)
            continue
        elif not rest:
            c.bad(R, stm[-1].loc, "a later position can not be stored under the same path", st, kind)
            continue
        else:
            mm = re.match(r"(?is)on conflict ?\(([^)]*)\) do update set (.*)$", rest)
            if not mm:
                c.undecided(R, stm[-1].loc, "how the earlier position is replaced was not recognised")
                continue
            if re.search(r"(?i)\bwhere\b", mm.group(2)):
                c.undecided(R, stm[-1].loc, "when the earlier position is replaced was not recognised")
                continue
            if columns(mm.group(1)) != [keycol]:
                c.bad(R, stm[-1].loc, f"the earlier position is looked for by {mm.group(1)}, not by the path", st, kind)
                continue
            up = dict(x.lower().replace(" ", "").split("=", 1) for x in mm.group(2).split(",") if "=" in x)
            miss = [p for p in sp[1:] if up.get(colof[p]) not in ("excluded." + colof[p],)]
            if miss:
                p = miss[0]
                if colof[p] not in up:
                    c.bad(R, stm[-1].loc, f"the {p} of an earlier position stays when a later one is stored", st, kind)
                elif up[colof[p]].startswith("excluded.") or up[colof[p]].split(".")[-1] in colof.values():
                    c.bad(R, stm[-1].loc, f"the {p} stored is {up[colof[p]]}", st, kind)
                else:
                    c.undecided(R, stm[-1].loc, f"the {p} stored was not recognised")
                continue
            c.ok(R, 1, f"{stm[-1].loc}: the earlier position is replaced")
    # ---- one position per path
    init = c.cls("StateStore").methods.get("__init__")
    if init is not None and keycol:
        for st, kind, v in c.run(it, init, R):
            for e in st.trace:
                if e.kind == "call" and tail(e) == "exec" and e.args and e.args[0][0] == "K":
                    sql = " ".join(e.args[0][2].split()).lower()
                    if re.match(r"(drop|delete|truncate)\b", sql):
                        c.bad(R, e.loc, "the stored positions are thrown away at every start", st, kind)
                    m = re.match(r"create table (if not exists )?(\w+) ?\((.*)\)$", sql)
                    if m and not re.search(rf"\b{keycol}\b[^,]*(primary key|unique)", m.group(3)) and not re.search(rf"(primary key|unique) ?\( ?{keycol} ?\)", m.group(3)):
                        c.bad(R, e.loc, "a path may have several positions", st, kind)
    # ---- loading
    lp = load.node.args.args[1].arg
    for st, kind, v in c.run(it, load, R):
        if kind != "return":
            continue
        if v is None or v == NONE:
            continue
        if v[0] != "O":
            c.undecided(R, load.qual, "the loaded position was not recognised")
            continue
        stm = cx(st, "Statement")
        if not stm or stm[-1].args[1][0] != "K":
            c.undecided(R, load.qual, "the query was not recognised")
            continue
        sql = " ".join(stm[-1].args[1][2].split())
        m = re.match(r"(?is)select (.*?) from (\w+) where (\w+) ?= ?(\?1?|:\w+)(?: limit 1)?;?$", sql)
        if not m:
            if re.match(r"(?is)select (.*?) from (\w+)(?: limit \d+)?;?$", sql):
                c.bad(R, stm[-1].loc, "the position of any path is loaded", st, kind)
            else:
                c.undecided(R, stm[-1].loc, "the query was not recognised")
            continue
        cols = columns(m.group(1))
        b = [e for e in st.trace if e.kind == "call" and tail(e) == "bind" and e.recv == stm[-1].res]
        if not b or b[-1].args[-1][:2] != ("S", lp):
            c.bad(R, stm[-1].loc, "the position is not looked for by the path asked for", st, kind) if not b else c.undecided(R, stm[-1].loc, "the path asked for was not recognised")
            continue
        if keycol and m.group(3).lower() != keycol:
            c.bad(R, stm[-1].loc, f"the position is looked for in {m.group(3)}, stored under {keycol}", st, kind)
            continue
        flds = entry_fields(it, st, v) or {}
        for fld in ("inode", "offset"):
            x = flds.get(fld)
            col = None
            for t in provenance(st, x) if x is not None else ():
                if t[0] == "R" and isinstance(t[1], int) and tail(st.trace[t[1]]) == "getColumn":
                    a = st.trace[t[1]].args[0]
                    if a[0] == "K" and isinstance(a[2], int):
                        col = cols[a[2]] if a[2] < len(cols) else "?"
                    elif a[0] == "K":
                        col = a[2].lower()
            par = fld if fld in colof else (sp[1:][("inode", "offset").index(fld)] if len(sp) > 2 else None)
            want = colof.get(par)
            if col is None:
                c.undecided(R, load.qual, f"where {fld} is loaded from was not recognised")
            elif want and col != want:
                c.bad(R, stm[-1].loc, f"{fld} is stored in {want} but loaded from {col}", st, kind)
            else:
                narrow = [t for t in provenance(st, x) if t[0] == "R" and isinstance(t[1], int) and tail(st.trace[t[1]]) in ("getInt", "getUInt")]
                if narrow:
                    c.bad(R, load.qual, f"{fld} is cut to 32 bits when it is loaded", st, kind)
                else:
                    c.ok(R, 1, f"{fld} <- {col}")


# ------------------------------------------------------------------ C28
JSON_ERRORS = {"JsonException", "JsonParseError", "JsonTypeError", "JsonOutOfRange"}


def json_value(st, v, depth=0):
    """is this (a part of) a parsed line?"""
    if v is None or depth > 20:
        return False
    if v[0] == "R" and isinstance(v[1], int) and v[1] < len(st.trace):
        e = st.trace[v[1]]
        if e.label == "cxx.parse":
            return True
        if tail(e) in ("at", "value", "front", "back"):
            return json_value(st, e.recv, depth + 1)
        return False
    if v[0] == "A" and v[1] in ("item", "elem", "attr", "items", "keys", "values"):
        return json_value(st, v[2], depth + 1)
    if v[0] == "S":
        return True
    return False


def known(it, st, recv, meth, *args):
    """what an earlier question about this value was answered with"""
    for e in st.trace:
        if e.kind in ("call", "pure") and tail(e) == meth and e.recv == recv and tuple(e.args) == args:
            t = it.truth(st, e.res)
            if t is not None:
                return t
    return None


class Raises:
    """what the json and string operations raise"""

    def __init__(self, it=None):
        self.ops = set()

    def __call__(self, ev, it):
        return [qualified(it, n) for n in self.names(ev)]

    def names(self, ev):
        t = tail(ev)
        if ev.kind != "call":
            return []
        if ev.label == "cxx.parse":
            if len(ev.args) > 2 and ev.args[2] == FALSE:
                return []
            return ["JsonParseError"]
        if t == "at" and ev.args and ev.args[0][0] == "K" and ev.args[0][1] == "str":
            return ["JsonOutOfRange", "JsonTypeError"]
        if t == "json_get":
            return ["JsonTypeError"]
        if ev.label in ("cxx.stoi", "cxx.stol", "cxx.stoll", "cxx.stoul", "cxx.stoull", "cxx.stod", "cxx.stof"):
            return ["InvalidArgument", "OutOfRange"]
        if t == "substr" and ev.args and ev.args[0] != K(0) and ev.args[0][0] == "K":
            return ["OutOfRange"]
        return []


def qualified(it, name):
    return next((q for q, k in it.p.classes.items() if k.name == name), name)


def name_of(v):
    if v is None:
        return "an exception"
    if v[0] == "E":
        return str(v[1]).split(".")[-1]
    if v[0] == "A" and v[1] == "new":
        return str(v[2]).split(".")[-1]
    return show(v)[:40]


def guarded(it, st, ev):
    """was the operation that raised asked about before?"""
    t = tail(ev)
    if t == "at" and known(it, st, ev.recv, "contains", *ev.args) is True:
        return True
    if t == "json_get" and ev.args and ev.args[0][0] == "K":
        q = {"string": ("is_string",), "bool": ("is_boolean",), "int": ("is_number_integer", "is_number"), "long": ("is_number_integer", "is_number")}.get(ev.args[0][2], ("is_number", "is_number_integer"))
        return any(known(it, st, ev.recv, x) is True for x in q)
    return False


def escapes(c, f, rule):
    """exceptions that leave a function: [(name, state, op)]"""
    it = c.interp(may_raise=Raises(), max_paths=20000)
    out = []
    outs = c.run(it, f, rule)
    for st, kind, v in outs:
        if kind == "raise":
            rs = [e for e in st.trace if e.kind in ("call", "raise")]
            op = rs[-1] if rs else None
            if op is not None and op.kind == "call" and guarded(it, st, op):
                continue
            out.append((name_of(v), st, op))
    return out, bool(outs)


def check_C28(c):
    RJ, RF, RC, RM, RT, RW = "junk-contained", "file-errors-contained", "records-accepted", "fields-carried-over", "time", "written-as-read"
    c.rule(RJ, "a line that is no log record raises nothing that leaves the shipper, and only log records get into a batch", 2)
    c.rule(RF, "a file that can not be opened neither ends the shipper nor keeps it from the other files", 3)
    c.rule(RC, "everything a record must have to be shipped is a field that every record has, with that type; fields that may be null are not read when they are", 5)
    c.rule(RM, "every field of a record gets into the OTLP record under the name that stands for it, the records into the payload, and name and instance of the application into its resource", 8)
    c.rule(RT, "the time is read as UTC, in the components in which it was written, to the microsecond", 2)
    c.rule(RW, "the application writes the fields, attributes, severities and times in the form the shipper reads", 8)
    py = c.p
    s = open_shipper(c, c.rules)
    if s is None:
        return
    junk(c, RJ)
    files(c, RF)
    reads = mapping(c, RC, RM, RT)
    cxxp, c.p = c.p, py
    written(c, RC, RW, reads)
    c.p = cxxp


def fn(c, name):
    try:
        return c.p.function(name)
    except AnalysisBroken:
        return None


def junk(c, R):
    test = fn(c, "is_log_record")
    users = [f for f in (fn(c, "extract_resource_info"), fn(c, "build_otlp_logs_payload")) if f is not None]
    raising = {}
    for f in users:
        esc, any_ = escapes(c, f, R)
        raising[f.name] = esc
        if any_ and not esc:
            c.ok(R, 1, f"{f.qual} raises nothing")
    if test is not None:
        esc, any_ = escapes(c, test, R)
        for name, st, op in esc:
            c.bad(R, op.loc if op is not None else test.qual, f"a line that is no log record raises {name} out of {test.name}", st, "raise")
        if any_ and not esc:
            c.ok(R, 1, f"{test.qual} answers for every line")
        covers(c, R, test, users)
    # which lines get to the functions that may raise
    main = c.p.function("main")
    it = c.interp(opaque=opaque_names(*ANCHORS))
    outs = c.run(it, main, R)
    carriers, raw_left = set(), []
    preds = {}

    def polls(st):
        return {e.res for e in evs(st, "opaque") if tail(e) == "poll"}

    for st, kind, v in outs:
        ps = polls(st)
        for e in evs(st, "set"):
            if e.args and contents(st, e.args[0], ps)[0]:
                carriers.add(e.label)
    for st, kind, v in outs:
        ps = polls(st)
        if kind == "cut":
            for k, (a, h, e) in v["vars"].items():
                if isinstance(k, tuple) and len(k) == 2 and k[1] in carriers and isinstance(e, tuple):
                    fl = []
                    got, exact = contents(st, e, ps, fl)
                    if got and exact and not any(it.truth(st, t) is False for t in got):
                        if not fl:
                            raw_left.append((st, e))
                        for x in fl:
                            preds[x.loc] = (x, st)
                    elif got and not exact:
                        c.undecided(R, v["loc"], "whether only log records are kept was not recognised")
    for st, kind, v in outs:
        ps = polls(st)
        for e in evs(st, "opaque"):
            if not raising.get(tail(e)):
                continue
            arg = (list(e.kw.values()) or list(e.args))[0]
            fl = []
            got, exact = contents(st, arg, ps, fl)
            base = arg
            while base[0] == "A" and base[1] in ("item", "elem"):
                base = base[2]
            if base != arg:
                got, exact = contents(st, base, ps, fl)
            for x in fl:
                preds[x.loc] = (x, st)
            if got and exact and not fl:
                # is the exception contained?
                c.bad(R, e.loc, f"a line that is no log record gets into {tail(e)}, which raises {raising[tail(e)][0][0]}: the shipper ends, or is held up by that line for good", st, kind)
            elif got and not exact:
                c.undecided(R, e.loc, "whether only log records get here was not recognised")
            elif got:
                c.ok(R, 1, f"{e.loc}: only log records get into {tail(e)}")
            elif raw_left and (base[0] == "H" or base[:2] == ("A", "attr")):
                c.bad(R, e.loc, f"a line that is no log record is kept from an earlier round and gets into {tail(e)}", st, kind)
            else:
                c.ok(R)
    for loc, (e, st) in preds.items():
        keeps_records_only(c, R, e, st)


def keeps_records_only(c, R, e, st):
    it = c.interp(opaque=opaque_names("is_log_record"))
    line = ("S", "line", None)
    try:
        outs = it.apply(st.copy(), e.args[1], [line], {})
    except Exception as ex:  # noqa
        c.undecided(R, e.loc, f"which lines are kept was not recognised: {ex}")
        return
    for st2, kind, v in outs:
        if kind != "return":
            continue
        t = st2.copy()
        if it.truth(t, v) is True:
            continue
        if it.truth(t, v) is None and not it.assume(t, v, False):
            continue
        rec = [x for x in t.trace if x.kind == "opaque" and tail(x) == "is_log_record" and x.n >= len(st.trace)]
        if any(it.truth(t, x.res) is True for x in rec):
            c.ok(R, 1, f"{e.loc}: only log records are kept")
        elif not rec and any(x.kind in ("call", "opaque") for x in t.trace[len(st.trace):]):
            c.undecided(R, e.loc, "which lines are kept was not recognised")
        else:
            c.bad(R, e.loc, "lines that are no log records are kept in the batch", st2, kind)


def op_name(st, ev, depth=0):
    """an operation on a parsed line, by the way to the value it is done on"""
    def way(v, d=0):
        if d > 12 or v is None:
            return "?"
        if v[0] == "R" and isinstance(v[1], int) and v[1] < len(st.trace):
            e = st.trace[v[1]]
            if e.label == "cxx.parse":
                return "line"
            if tail(e) == "at":
                return f"{way(e.recv, d + 1)}.{show(e.args[0]) if e.args else ''}"
            return tail(e)
        if v[0] == "A" and v[1] == "item":
            k = show(v[3]) if v[3][0] == "K" else "*"
            return f"{way(v[2], d + 1)}.{k}"
        return "?"
    if ev.label == "cxx.parse":
        return "parse"
    a = show(ev.args[0]) if ev.args else ""
    return f"{way(ev.recv)}.{tail(ev)}({a})"


def operations(c, f, rule):
    """operations on a line that may raise: name -> location (guarded ones left out)"""
    it = c.interp()
    r = Raises()
    ops = {}
    for st, kind, v in c.run(it, f, rule):
        for e in evs(st, "call"):
            if r.names(e) and not guarded(it, st, e):
                ops.setdefault(op_name(st, e), e.loc)
    return ops


def covers(c, R, test, users):
    """whatever could raise on a line later was tried when it was tested"""
    tried = operations(c, test, R)
    for f in users:
        for n, loc in operations(c, f, R).items():
            if "?" in n:
                c.undecided(R, loc, f"operation not recognised: {n}")
            elif n not in tried:
                c.bad(R, loc, f"{test.name} accepts lines on which {f.name} raises: {n} is not tried")
            else:
                c.ok(R)


# ------------------------------------------------------------------ files that can not be opened
def loops_of(c, loc):
    """the loop statement at a location"""
    path, line = loc.rsplit(":", 1)
    out = []
    for m in c.p.modules.values():
        if m.relpath != path:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.For, ast.While)) and n.lineno == int(line):
                out.append(n)
    return out


def inside(c, inner, outer):
    os_, is_ = loops_of(c, outer), loops_of(c, inner)
    return any(i is n for o in os_ for n in ast.walk(o) for i in is_)


STOPS = ("exit", "_exit", "quick_exit", "abort", "terminate", "_Exit")


def files(c, R):
    # what leaves the functions that open files
    it0 = c.interp()
    esc = {}
    T = c.cls("TrackedFile")
    for name, m in [("poll", c.p.find_method(T, "poll"))] + [("new", k.methods["__init__"]) for k in (ctor(c, "TrackedFile", 1), ctor(c, "TrackedFile", 3)) if k is not None]:
        if m is None:
            continue
        s = set()
        for st, kind, v in c.run(c.interp(), m, R):
            if kind == "raise":
                s.add(name_of(v))
        esc[name] = esc.get(name, set()) | s
    main = c.p.function("main")

    def may(ev, it):
        if ev.kind == "opaque" and tail(ev) == "poll":
            return [qualified(it, n) for n in sorted(esc.get("poll", ()))]
        if ev.kind == "new" and (ev.label.split(".")[-1] == "TrackedFile" or ev.label.split(".")[-1].startswith("TrackedFile__")):
            return [qualified(it, n) for n in sorted(esc.get("new", ()))]
        return []
    it = c.interp(opaque=opaque_names("list_log_files", *ANCHORS), may_raise=may)
    for st, kind, v in c.run(it, main, R):
        fails = [e for e in st.trace if e.kind == "caught" or (e.kind == "opaque" and tail(e) == "post_json" and it.truth(st, A("attr", e.res, "success")) is False)]
        if kind == "raise":
            last = [e for e in st.trace if e.kind in ("opaque", "new")]
            c.bad(R, last[-1].loc if last else main.qual, f"a file that can not be opened ends the shipper ({name_of(v)} leaves main)", st, kind)
            continue
        stops = [e for e in evs(st, "call") if label(e) in STOPS]
        if fails and (kind == "return" or [x for x in stops if x.n > fails[0].n]):
            c.bad(R, stops[-1].loc if stops else fails[-1].loc, "the shipper ends because of one file that fails", st, kind)
            continue
        early = None
        for x in fails:
            L = [e for e in evs(st, "loop") if e.n < x.n and e.args]
            if not L:
                continue
            # the failure belongs to the innermost loop over files it lies in
            body = [e for e in st.trace if L[-1].n < e.n <= x.n and e.kind in ("opaque", "new")]
            if not body:
                continue
            if kind == "cut" and (v["loc"] == L[-1].loc or inside(c, v["loc"], L[-1].loc)):
                c.ok(R)
            else:
                early = (x, L[-1])
        if early:
            c.bad(R, early[0].loc, "one file that fails keeps the shipper from the files after it", st, kind)
        elif kind == "cut":
            c.ok(R)
    # a directory that is not there
    f = fn(c, "list_log_files")
    if f is not None:
        it2 = c.interp()
        for st, kind, v in c.run(it2, f, R):
            for e in cx(st, "readdir", "closedir"):
                if e.args and known_none(it2, st, e.args[0]) is True:
                    c.bad(R, e.loc, "a directory that can not be opened is read", st, kind)
                elif e.args and e.args[0][0] == "R" and known_none(it2, st, e.args[0]) is None and it2.truth(st, e.args[0]) is None:
                    c.bad(R, e.loc, "a directory is read without looking whether it could be opened", st, kind)
                else:
                    c.ok(R)
            if kind == "raise":
                c.bad(R, f.qual, "a directory that can not be opened ends the shipper", st, kind)


# ------------------------------------------------------------------ what is read of a record
OTLP = {"timeUnixNano": "timestamp", "severityNumber": "severity_number", "severityText": "severity_text", "body.stringValue": "body", "traceId": "trace_id", "spanId": "span_id"}
NULLABLE = {"traceId", "spanId"}


def flat(st, v, prefix=""):
    """fields of a json value built on this path, nested ones with dotted names"""
    out = {}
    if v is not None and v[0] == "O" and st.objs[v[1]]["kind"] == "dict":
        o = st.objs[v[1]]
        for k, x in o["items"].items():
            if k[0] != "K":
                continue
            n = prefix + str(k[2])
            sub = flat(st, x, n + ".")
            if sub and x[0] == "O":
                out.update(sub)
            out[n] = x
    return out


def source(st, v):
    """the way to the field of the line a value was read from: ('severity_number', type) or None"""
    if v is None or v[0] != "R" or not isinstance(v[1], int):
        return None
    e = st.trace[v[1]]
    if tail(e) != "json_get":
        return None
    typ = e.args[0][2] if e.args and e.args[0][0] == "K" else None
    keys, r = [], e.recv
    while r is not None and r[0] in ("R", "A"):
        if r[0] == "A":
            if r[1] == "item" and r[3][0] == "K":
                keys.append(r[3][2])
                r = r[2]
                continue
            break
        x = st.trace[r[1]]
        if tail(x) == "at" and x.args and x.args[0][0] == "K":
            keys.append(x.args[0][2])
            r = x.recv
            continue
        if x.label == "cxx.parse":
            return ".".join(str(k) for k in reversed(keys)), typ
        break
    if r is not None and r[0] == "S":
        return ".".join(str(k) for k in reversed(keys)), typ
    return None


def mapping(c, RC, RM, RT):
    reads = {}
    f = c.p.function("build_otlp_logs_payload")
    ps = [x.arg for x in f.node.args.args]
    it = c.interp(peel=1)
    outs = c.run(it, f, RM)
    seen = set()
    record_lists = {}
    for st, kind, v in outs:
        # the records: dictionaries appended to a list, with one of the OTLP names
        apps = [(e, flat(st, e.args[0])) for e in evs(st, "mut") if tail(e) in ("append", "push_back", "emplace_back") and e.args and e.args[0][0] == "O"]
        apps = [(e, d) for e, d in apps if set(d) & set(OTLP)]
        for e, d in apps:
            record_lists.setdefault(e.recv, e)
            for name, field in OTLP.items():
                if name not in d:
                    if name in NULLABLE:
                        # left out only where there is nothing
                        has = [x for x in evs(st, "call") if tail(x) == "contains" and x.args and x.args[0] == K(field) and it.truth(st, x.res) is True]
                        null = [x for x in evs(st, "call") if tail(x) == "is_null" and it.truth(st, x.res) is True]
                        nn = [x for x in evs(st, "call") if tail(x) == "is_null" and it.truth(st, x.res) is False and x.recv is not None and x.recv[0] == "R" and
                              st.trace[x.recv[1]].args and st.trace[x.recv[1]].args[0] == K(field)]
                        if nn and has:
                            c.bad(RM, e.loc, f"the {field} of a record does not get into the payload", st, kind)
                        elif not has and not any(tail(x) in ("contains", "is_null", "value", "find") and any(a == K(field) for a in x.args) for x in evs(st, "call")):
                            c.bad(RM, e.loc, f"the {field} of a record does not get into the payload", st, kind)
                        else:
                            c.ok(RM)
                    else:
                        c.bad(RM, e.loc, f"the {field} of a record does not get into the payload", st, kind)
                    continue
                val = d[name]
                if name == "timeUnixNano":
                    time_read(c, RT, RM, it, st, kind, val, reads)
                    continue
                src = source(st, val)
                if src is None:
                    if val[0] == "K":
                        c.bad(RM, e.loc, f"{name} is always {show(val)}", st, kind)
                    else:
                        c.undecided(RM, e.loc, f"what {name} is taken from was not recognised: {show(val)[:60]}")
                    continue
                way, typ = src
                get = st.trace[val[1]]
                guard = known(it, st, get.recv, "is_null")
                if guard is None:
                    # asked on another look-up of the same field
                    for x in evs(st, "call"):
                        if tail(x) == "is_null" and x.recv is not None and x.recv[0] == "R" and st.trace[x.recv[1]].args and st.trace[x.recv[1]].args[0] == K(way):
                            g = it.truth(st, x.res)
                            guard = g if g is not None else guard
                        if tail(x) == "is_string" and x.recv is not None and x.recv[0] == "R" and st.trace[x.recv[1]].args and st.trace[x.recv[1]].args[0] == K(way) and it.truth(st, x.res) is True:
                            guard = False
                reads.setdefault(way, []).append((typ, guard is False, get.loc, any(tail(x) == "contains" and x.args == (K(way),) and it.truth(st, x.res) is True for x in evs(st, "call"))))
                if way != field:
                    c.bad(RM, get.loc, f"{name} is taken from {way!r} instead of {field!r}", st, kind)
                else:
                    c.ok(RM, 0 if name in seen else 1, f"{get.loc}: {field} -> {name}" if name not in seen else None)
                    seen.add(name)
    if not seen:
        c.undecided(RM, f.qual, "the records of the payload were not recognised")
    # the payload around them
    for st, kind, v in outs:
        if kind != "return":
            continue
        dump = v
        root = None
        if v[0] == "R" and isinstance(v[1], int) and tail(st.trace[v[1]]) == "dump":
            root = st.trace[v[1]].recv
        elif v[0] == "A" and v[1] == "dump":
            root = v[2]
        if root is None or root[0] != "O":
            c.undecided(RM, f.qual, "the payload was not recognised")
            continue
        envelope(c, RM, it, st, kind, f, root, ps, record_lists)
    resource(c, RM, RC, reads)
    return reads


def only(st, v):
    """the one element of a list built here"""
    if v is not None and v[0] == "O" and st.objs[v[1]]["kind"] == "list":
        seq = st.objs[v[1]]["seq"]
        if len(seq) == 1 and seq[0][0] == "one":
            return seq[0][1]
    return None


def envelope(c, R, it, st, kind, f, root, ps, record_lists):
    d = flat(st, root)
    if "resourceLogs" not in d:
        if d:
            c.bad(R, f.qual, "the payload has no resourceLogs", st, kind)
        else:
            c.undecided(R, f.qual, "the payload was not recognised")
        return
    rl = only(st, d["resourceLogs"])
    if rl is None:
        c.undecided(R, f.qual, "resourceLogs was not recognised")
        return
    e = flat(st, rl)
    for need in ("resource.attributes", "scopeLogs"):
        if need not in e:
            c.bad(R, f.qual, f"resourceLogs has no {need}", st, kind)
            return
    sl = only(st, e["scopeLogs"])
    g = flat(st, sl) if sl is not None else {}
    if not g:
        c.undecided(R, f.qual, "scopeLogs was not recognised")
        return
    if "logRecords" not in g:
        c.bad(R, f.qual, "scopeLogs has no logRecords", st, kind)
        return
    if record_lists and g["logRecords"] not in record_lists:
        c.bad(R, f.qual, "the log records are not those of the batch", st, kind) if g["logRecords"][0] == "O" and not st.objs[g["logRecords"][1]].get("seq") else \
            c.undecided(R, f.qual, "the log records were not recognised")
        return
    c.ok(R, 1, f"{f.qual}: records under resourceLogs.scopeLogs.logRecords")
    at = e["resource.attributes"]
    if at[0] != "O" or st.objs[at[1]]["kind"] != "list":
        c.undecided(R, f.qual, "the attributes of the resource were not recognised")
        return
    got = {}
    for x in st.objs[at[1]]["seq"]:
        kv = flat(st, x[1]) if x[0] == "one" else {}
        k = kv.get("key")
        if k is not None and k[0] == "K":
            got[k[2]] = kv.get("value.stringValue")
    for name, fld in (("service.name", "service_name"), ("service.instance.id", "service_instance_id")):
        if name not in got:
            if all(x[0] == "one" for x in st.objs[at[1]]["seq"]) and got:
                c.bad(R, f.qual, f"the resource has no {name}", st, kind)
            else:
                c.undecided(R, f.qual, f"{name} was not recognised")
            continue
        val = got[name]
        names = {t[3] for y in provenance(st, val) for t in subterms(y) if isinstance(t, tuple) and t[:2] == ("A", "attr")} if val is not None else set()
        if fld in names:
            c.ok(R)
        elif names & {"service_name", "service_instance_id"}:
            c.bad(R, f.qual, f"{name} of the resource is {'/'.join(sorted(names))}", st, kind)
        elif val is None:
            pass
        else:
            c.undecided(R, f.qual, f"{name} was not recognised: {show(val)[:50]}")


def resource(c, RM, RC, reads):
    f = fn(c, "extract_resource_info")
    if f is None:
        return
    it = c.interp()
    for st, kind, v in c.run(it, f, RM):
        if kind != "return" or v is None or v[0] != "O":
            continue
        flds = entry_fields(it, st, v) or {}
        for fld, key in (("service_name", "application_name"), ("service_instance_id", "application_instance")):
            x = flds.get(fld)
            if x is None:
                continue
            src = source(st, x)
            if src is None:
                if x == K(""):
                    has = [e for e in evs(st, "call") if tail(e) == "contains" and e.args and e.args[0] == K(key) and it.truth(st, e.res) is True]
                    if has:
                        c.bad(RM, has[0].loc, f"{key} of a record does not get into {fld}", st, kind)
                    elif not any(tail(e) in ("contains", "at", "value", "find") and e.args and e.args[0] == K(key) for e in evs(st, "call")) and \
                            not any(tail(e) in ("contains", "is_null", "is_object", "find") and it.truth(st, e.res) is not None and (not e.args or e.args[0] == K("attributes")) and
                                    (tail(e) == "is_null") == it.truth(st, e.res) for e in evs(st, "call")):
                        c.bad(RM, f.qual, f"{key} of a record does not get into {fld}", st, kind)
                else:
                    c.undecided(RM, f.qual, f"{fld} was not recognised: {show(x)[:50]}")
                continue
            way, typ = src
            get = st.trace[x[1]]
            reads.setdefault(way, []).append((typ, known(it, st, get.recv, "is_null") is False or known(it, st, get.recv, "is_string") is True, get.loc,
                                              any(tail(e) == "contains" and e.args == (K(way.split(".")[-1]),) and it.truth(st, e.res) is True for e in evs(st, "call"))))
            if way != "attributes." + key:
                c.bad(RM, get.loc, f"{fld} is taken from {way}", st, kind)
            else:
                c.ok(RM, 1, f"{get.loc}: {way} -> {fld}")


COMPONENTS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
TM = {"tm_year": (0, -1900), "tm_mon": (1, -1), "tm_mday": (2, 0), "tm_hour": (3, 0), "tm_min": (4, 0), "tm_sec": (5, 0)}


def time_read(c, R, RM, it, st, kind, val, reads):
    while val[0] == "A" and val[1] in ("str", "to_string"):
        val = val[2]
    if val[0] == "R" and isinstance(val[1], int) and tail(st.trace[val[1]]) in ("to_string", "str"):
        val = st.trace[val[1]].args[0]
    site = "timeUnixNano"
    l = lin(val)
    if l is None:
        c.undecided(R, site, f"how the time is computed was not recognised: {show(val)[:60]}")
        return
    const, terms = l
    ev = {}
    for t, k in terms.items():
        if t[0] != "R" or not isinstance(t[1], int):
            c.undecided(R, site, f"how the time is computed was not recognised: {show(t)[:60]}")
            return
        ev[st.trace[t[1]].label] = (st.trace[t[1]], k)
    for bad in ("cxx.mktime", "cxx.timelocal"):
        if bad in ev:
            c.bad(R, ev[bad][0].loc, "the time, written in UTC, is read as local time", st, kind)
            return
    if "cxx.timegm" not in ev or set(ev) - {"cxx.timegm", "cxx.written"}:
        c.undecided(R, site, f"how the time is computed was not recognised: {show(val)[:60]}")
        return
    tg, k = ev["cxx.timegm"]
    loc = tg.loc
    if k != 10 ** 9:
        c.bad(R, loc, f"seconds are counted as {k} nanoseconds", st, kind)
        return
    if const != 0:
        c.bad(R, loc, f"the time is off by {const} nanoseconds", st, kind)
        return
    scan = None
    idx = {}
    for e in cx(st, "written"):
        src = e.args[0]
        if src[0] == "R" and isinstance(src[1], int) and st.trace[src[1]].label in ("cxx.sscanf",) and e.args[1][0] == "K":
            scan = st.trace[src[1]]
            idx[e.res] = e.args[1][2]
    if scan is None or scan.args[1][0] != "K":
        c.undecided(R, loc, "how the time is taken apart was not recognised")
        return
    fmt = scan.args[1][2]
    convs = re.findall(r"%(\*?)(\d*)(h{0,2}|l{0,2}|z|j)([diu]|f|c|s)", fmt)
    shape = re.sub(r"%\*?\d*(?:h{0,2}|l{0,2}|z|j)[diu]", "#", fmt)
    if not shape.startswith("#-#-#"):
        c.undecided(R, scan.loc, f"how the time is taken apart was not recognised: {fmt!r}")
        return
    if not re.match(r"#-#-#(T|%\*c)#:#:#(\.#.*)?$", shape):
        c.bad(R, scan.loc, f"the time is taken apart as {fmt!r}, which is not how it is written", st, kind)
        return
    if any(k == "i" for _, _, _, k in convs):
        c.bad(R, scan.loc, f"a component with a leading zero is read as an octal number ({fmt!r})", st, kind)
        return
    short = [i for i, (s, w, _, k) in enumerate(convs) if w and int(w) < (4 if i == 0 else 6 if i == 6 else 2)]
    if short:
        c.bad(R, scan.loc, f"only {convs[short[0]][1]} digits of the {COMPONENTS[short[0]]} are read", st, kind)
        return
    src = source(st, scan.args[0])
    if src is not None:
        reads.setdefault(src[0], []).append((src[1], False, scan.loc, False))
        if src[0] != "timestamp":
            c.bad(RM, scan.loc, f"the time of a record is taken from {src[0]}", st, kind)
        else:
            c.ok(RM)
    # components
    tm = tg.args[0]
    sets = {e.label.split(".")[-1]: e for e in evs(st, "set") if e.recv == tm and e.n < tg.n}
    for fld, (i, d) in TM.items():
        e = sets.get(fld)
        if e is None:
            c.bad(R, loc, f"the {COMPONENTS[i]} is not used", st, kind) if not any(x.kind == "call" and x.n < tg.n and any(a == tm for a in x.args) for x in st.trace) else c.undecided(R, loc, f"{fld} not recognised")
            continue
        x = lin(e.args[0])
        ts = list(x[1].items()) if x else []
        if len(ts) != 1 or ts[0][0] not in idx:
            c.undecided(R, e.loc, f"{fld} was not recognised")
        elif idx[ts[0][0]] != i:
            c.bad(R, e.loc, f"the {COMPONENTS[idx[ts[0][0]]]} is used as the {COMPONENTS[i]}", st, kind)
        elif ts[0][1] != 1 or x[0] != d:
            c.bad(R, e.loc, f"{fld} is the {COMPONENTS[i]} {x[0]:+d} instead of {d:+d}", st, kind)
        else:
            c.ok(R, 1)
    if "cxx.written" in ev:
        w, k = ev["cxx.written"]
        if idx.get(w.res) != 6:
            c.bad(R, w.loc, f"the {COMPONENTS[idx.get(w.res, 0)]} is added as a fraction of a second", st, kind)
        elif k != 1000:
            c.bad(R, loc, f"microseconds are counted as {k} nanoseconds", st, kind)
        else:
            c.ok(R, 1, f"{loc}: UTC seconds and microseconds")
    else:
        c.bad(R, loc, "fractions of a second are lost", st, kind)


# ------------------------------------------------------------------ what the application writes
SEVERITY = {10: (5, "DEBUG"), 20: (9, "INFO"), 30: (13, "WARN"), 40: (17, "ERROR"), 50: (21, "FATAL")}
JSON_TYPES = {"string": {"str"}, "int": {"int"}, "long": {"int"}, "unsigned int": {"int"}, "unsigned long": {"int"}, "double": {"float", "int"}, "bool": {"bool"}}


def annotation(node):
    """-> (type name, may be None)"""
    if node is None:
        return None, False
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        node = ast.parse(node.value, mode="eval").body
    if isinstance(node, ast.Subscript):
        base = node.value.attr if isinstance(node.value, ast.Attribute) else getattr(node.value, "id", None)
        if base == "Optional":
            return annotation(node.slice)[0], True
        if base == "Union":
            xs = [annotation(x)[0] for x in node.slice.elts]
            return next((x for x in xs if x != "None"), None), "None" in xs
        return base, False
    if isinstance(node, ast.BinOp):
        a, b = annotation(node.left)[0], annotation(node.right)[0]
        return (b if a == "None" else a), "None" in (a, b)
    if isinstance(node, ast.Constant) and node.value is None:
        return "None", True
    if isinstance(node, ast.Attribute):
        return node.attr, False
    return getattr(node, "id", None), False


def written(c, RC, RW, reads):
    M = c.cls("OtlpLogRecord")
    fields = {}
    for k in reversed(c.p.mro(M)):
        if not isinstance(k, Class):
            continue
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields[s.target.id] = annotation(s.annotation)
                if isinstance(s.value, ast.Call) and any(w.arg in ("alias", "serialization_alias") for w in s.value.keywords):
                    c.undecided(RW, M.qual, f"{s.target.id} is written under another name")
    for way, rs in reads.items():
        top = way.split(".")[0]
        for typ, nonnull, loc, present in rs:
            if top not in fields:
                if present:
                    c.undecided(RC, loc, f"{top} is read but is no field of the record")
                else:
                    c.bad(RC, loc, f"the shipper needs {top!r}, which the records written do not have: none is shipped")
                continue
            t, opt = fields[top]
            if "." in way:
                continue
            if opt and not nonnull:
                c.bad(RC, loc, f"{top} is null in records without it: reading it as {typ} makes the shipper drop them")
            elif typ is not None and t is not None and t not in JSON_TYPES.get(typ, {t}):
                if typ in JSON_TYPES and t in ("str", "int", "float", "bool", "dict", "list"):
                    c.bad(RC, loc, f"{top} is written as {t} and read as {typ}: the shipper drops the records")
                else:
                    c.undecided(RC, loc, f"type of {top} was not recognised")
            else:
                c.ok(RC, 1, f"{loc}: {top} ({t}{', may be null' if opt else ''}) read as {typ}")
    # the formatter
    f = c.find(c.cls("OtlpFormatter"), "format")
    rec = f.node.args.args[1].arg
    it = c.interp()
    for st, kind, v in c.run(it, f, RW):
        if kind != "return":
            continue
        news = [e for e in evs(st, "new") if e.label.split(".")[-1] == "OtlpLogRecord"]
        if not news:
            c.undecided(RW, f.qual, "the record written was not recognised")
            continue
        kw = news[-1].kw
        for e in st.trace:
            if e.kind in ("pure", "call") and tail(e) == "model_dump_json":
                if any(k in e.kw and e.kw[k] not in (NONE, FALSE) for k in ("exclude", "include")):
                    c.undecided(RW, e.loc, "which fields are written was not recognised")
        # attributes
        at = kw.get("attributes")
        items = dict_items(st, at)
        for key, src in (("application_name", "name"), ("application_instance", "instance")):
            if items is None:
                c.undecided(RW, news[-1].loc, "the attributes written were not recognised")
                break
            val = items.get(K(key))
            if val is None:
                c.bad(RW, news[-1].loc, f"the attribute {key}, from which the shipper takes the service's identity, is not written", st, kind)
                continue
            chain = attr_chain(val)[0]
            if chain and chain[-1] == src:
                c.ok(RW, 1, f"{key} = {show(val)}")
            elif chain and chain[-1] in ("name", "instance"):
                c.bad(RW, news[-1].loc, f"{key} is written as the application's {chain[-1]}", st, kind)
            elif val[0] == "K" and val[1] != "str" or val[:2] == ("A", "int"):
                c.bad(RW, news[-1].loc, f"{key} is written as {show(val)}, the shipper reads a string", st, kind)
            else:
                c.undecided(RW, news[-1].loc, f"{key} was not recognised: {show(val)[:50]}")
        # time
        stamp(c, RW, it, st, kind, kw.get("timestamp"), rec, news[-1].loc)
        # severity
        num_, txt = kw.get("severity_number"), kw.get("severity_text")
        lev = A("attr", next((t for x in (num_, txt) if x is not None for t in subterms(x) if isinstance(t, tuple) and t[:2] == ("S", rec)), ("S", rec)), "levelno")
        for n, (en, et) in SEVERITY.items():
            for what, x, want in (("severity_number", num_, en), ("severity_text", txt, et)):
                r = fold(st, substv(x, {lev: K(n)}) if x is not None else None)
                if r is None or r[0] != "K":
                    c.undecided(RW, news[-1].loc, f"{what} was not recognised")
                elif r[2] != want:
                    c.bad(RW, news[-1].loc, f"{what} of level {n} is {r[2]!r} instead of {want!r}", st, kind)
                else:
                    c.ok(RW)


def dict_items(st, v):
    if v is None:
        return None
    if v[0] == "O" and st.objs[v[1]]["kind"] == "dict":
        return dict(st.objs[v[1]]["items"]) if st.objs[v[1]]["rest"] is None else None
    if v[:2] == ("A", "dictof"):
        return dict(v[2])
    return None


def fold(st, v):
    """a term over constant tables"""
    if v is None or not isinstance(v, tuple):
        return None
    if v[0] in ("K", "T"):
        return v
    if v[0] == "A" and v[1] == "item":
        a, i = fold(st, v[2]), fold(st, v[3])
        if a is not None and a[0] == "T" and i is not None and i[0] == "K" and isinstance(i[2], int) and -len(a) < i[2] < len(a) - 1:
            return a[1:][i[2]]
        d = dict_items(st, v[2])
        if d is not None and i is not None:
            return d.get(i)
        return None
    if v[0] == "A" and v[1] == "get":
        d, k = dict_items(st, v[2]), fold(st, v[3])
        if d is not None and k is not None and all(x[0] == "K" for x in d):
            r = d.get(k, v[4] if len(v) > 4 else NONE)
            return fold(st, r)
        return None
    return None


def stamp(c, R, it, st, kind, v, rec, loc):
    if v is None:
        c.bad(R, loc, "no time is written", st, kind)
        return
    e = None
    if v[:2] == ("A", "isoformat"):
        arg, base = [x for x in v[3:] if isinstance(x, tuple)], v[2]
        iso = [x for x in st.trace if x.kind in ("pure", "call") and tail(x) == "isoformat"]
        kws = iso[-1].kw if iso else {}
        arg = list(iso[-1].args) if iso else arg
    elif v[0] == "R" and tail(st.trace[v[1]]) == "isoformat":
        e = st.trace[v[1]]
        base, arg, kws = e.recv, list(e.args), e.kw
    else:
        fm = [x for x in st.trace if x.kind in ("pure", "call") and tail(x) == "strftime" and x.args and x.args[0][0] == "K"]
        if fm and fm[-1].args[0][2].startswith("%Y-%m-%dT%H:%M:%S.%f"):
            base, arg, kws = fm[-1].recv, [], {}
        else:
            c.undecided(R, loc, f"the time written was not recognised: {show(v)[:50]}")
            return
    sep = arg[0] if arg else kws.get("sep")
    spec = arg[1] if len(arg) > 1 else kws.get("timespec")
    if sep is not None and sep != K("T"):
        c.bad(R, loc, f"date and time are separated by {show(sep)}, the shipper expects T", st, kind)
        return
    if spec is not None and spec not in (K("microseconds"), K("auto")):
        if spec == K("milliseconds"):
            c.bad(R, loc, "the time is written in milliseconds, which the shipper reads as microseconds", st, kind)
        elif spec[0] == "K":
            c.bad(R, loc, f"the time is written to {spec[2]} only", st, kind)
        else:
            c.undecided(R, loc, "the time written was not recognised")
        return
    if base is None or base[0] != "R":
        c.undecided(R, loc, f"the time written was not recognised: {show(base)[:50] if base else ''}")
        return
    d = st.trace[base[1]]
    utc = lambda x: x is not None and x[0] == "X" and x[1].split(".")[-1] in ("utc", "UTC")  # noqa
    if tail(d) == "fromtimestamp":
        tz = d.kw.get("tz") or (d.args[1] if len(d.args) > 1 else None)
        if tz is None or tz == NONE:
            c.bad(R, d.loc, "the time is written in local time, the shipper reads it as UTC", st, kind)
        elif utc(tz):
            c.ok(R, 1, f"{d.loc}: time in UTC")
        else:
            c.undecided(R, d.loc, f"time zone not recognised: {show(tz)}")
    elif tail(d) == "utcfromtimestamp":
        c.ok(R, 1)
    elif tail(d) == "astimezone":
        tz = d.args[0] if d.args else None
        if utc(tz):
            c.ok(R, 1)
        else:
            c.bad(R, d.loc, "the time is written in local time, the shipper reads it as UTC", st, kind) if tz is None else c.undecided(R, d.loc, "time zone not recognised")
    else:
        c.undecided(R, d.loc, "the time written was not recognised")
