"""C24: statistics lose no counts and gathered periods never change."""
from rules.base import *
from rules.requests import route_paths
from rules.servers import tail
from rules.management import endpoints

TIMERS = ("default_timer", "time", "perf_counter", "monotonic", "time_ns", "perf_counter_ns", "monotonic_ns", "now", "utcnow")
ADDERS = ("insert", "append", "appendleft")


def selfattrs(v):
    """names of the attributes of the keeper a term is made of"""
    return {t[3] for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2][0] == "S"} if isinstance(v, tuple) else set()


def owner(v):
    """the attribute of the keeper a container is, or is part of -> name or None"""
    while isinstance(v, tuple) and v and v[0] == "A" and v[1] in ("item", "attr", "elem", "keys", "items", "values", "get", "setdefault"):
        if v[1] == "attr":
            return v[3] if v[2][0] == "S" else None
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == "H":
        return None
    return None


def writes(st, name, after=-1):
    """events on the path that change what an attribute of the keeper holds"""
    out = []
    for e in st.trace:
        if e.n <= after:
            continue
        if e.kind == "set" and e.label == name and e.recv is not None and e.recv[0] == "S":
            out.append(e)
        elif e.kind in ("setitem", "delitem", "mut") and owner(e.recv) == name:
            out.append(e)
        elif e.kind in ("call", "opaque") and any(owner(a) == name for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple)):
            if e.kind == "opaque" or not e.label.split(".")[0] in ("copy", "json", "statistics", "logging"):
                out.append(e)
    return out


class Keeper:
    def __init__(self, c, R):
        self.c, self.R = c, R
        self.K = c.cls("StatisticsKeeper")
        self.current = self.durations = self.history = self.queues = None
        self.subscript = False
        self.find()

    def paths(self, name, *opaque, **kw):
        it = self.c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.name in opaque, **kw)
        return it, self.c.run(it, self.c.find(self.K, name), self.R)

    def find(self):
        """what the attributes of the keeper are for, told from the public methods that use them"""
        it, outs = self.paths("add_persisted_queue")
        for st, k, v in outs:
            for e in evs(st, "setitem"):
                self.queues = self.queues or owner(e.recv)
        it, outs = self.paths("track_endpoint_data", "increment")
        for st, k, v in outs:
            for e in evs(st, "setitem", "mut"):
                self.durations = self.durations or owner(e.recv)
        it, outs = self.paths("add_endpoint_stats", "increment")
        for st, k, v in outs:
            for e in evs(st, "mut"):
                if tail(e) == "append":
                    self.durations = self.durations or owner(e.recv)
        it, outs = self.paths("get_full_gathered_statistics")
        for st, k, v in outs:
            if k == "return" and isinstance(v, tuple):
                for n in selfattrs(v) or {n for t in provenance(st, v) for n in selfattrs(t)}:
                    self.history = self.history or n
        it, outs = self.paths("get_current_statistics", "size")
        for st, k, v in outs:
            if k == "return" and isinstance(v, tuple):
                for n in selfattrs(v) or {n for t in provenance(st, v) for n in selfattrs(t)}:
                    self.current = self.current or n


def body_paths(outs, ev):
    """the rounds of the loop a loop event starts: paths cut at its head, cut down to the events of the round"""
    out = []
    for st, k, v in outs:
        if k == "cut" and v["loc"] == ev.loc:
            starts = [e.n for e in st.trace if e.kind == "loop" and e.loc == ev.loc]
            if starts:
                out.append((st, starts[-1]))
    return out


def window_effects(outs, st, name, after):
    """writes to an attribute after an event: on the path itself and in the loops it runs through -> [(event, loop|None, state)]"""
    out = [(e, None, st) for e in writes(st, name, after)]
    for l in evs(st, "loop"):
        if l.n <= after:
            continue
        for b, n in body_paths(outs, l):
            out += [(e, l, b) for e in writes(b, name, n)]
    return out


def snapshot_kind(it, st, k, v):
    """what was put into the history: 'deep' | 'live' | 'shallow' | None (not recognised)"""
    if v[0] == "A" and v[1] in ("copy.deepcopy", "deepcopy"):
        return "deep"
    if v[0] == "R" and v[2].split(".")[-1] in ("deepcopy", "loads"):
        return "deep"
    if v[0] == "A" and v[1] in ("json.loads", "loads", "pickle.loads"):
        return "deep"
    if v[0] == "A" and v[1] == "attr" and v[3] == k.current:
        return "live"
    if v[0] == "A" and v[1] in ("copy.copy", "copy", "dict") and len(v) > 2 and isinstance(v[2], tuple) and v[2][:2] == ("A", "attr") and v[2][3] == k.current:
        return "shallow"
    if v[0] == "O":
        o = st.objs.get(v[1])
        if o and o["kind"] == "dict" and o["rest"] is not None and owner(o["rest"]) == k.current and o["rest"][:2] == ("A", "attr"):
            return "shallow"
    return None


def check_C24(c):
    R1, R2, R3, R4, R5, R6 = "counted-once", "count-adds-up", "period-is-a-copy", "nothing-between-record-and-reset", "history-order-and-bound", "queue-sizes-current"
    c.rule(R1, "every request whose endpoint succeeded calls add_endpoint_stats exactly once on its path, with the request's route key and a duration "
               "measured from before to after the endpoint ran", 1)
    c.rule(R2, "add_endpoint_stats raises the endpoint's call count by one and keeps the duration; increment stores the old value plus the given one; "
               "a key is tracked for every registered handler, and resetting keeps the tracked keys, so counting can not fail", 3)
    c.rule(R3, "what is put into the history is a deep copy of the running statistics (or the running statistics are replaced): later counting can not change it", 1)
    c.rule(R4, "from the first reading of the durations and counts of a period up to the last reset for the next there is no point at which another task may run, "
               "every count and every list of durations is reset after, never before, the copy is taken; looking at statistics resets nothing", 2)
    c.rule(R5, "new periods go to the front of the history, what get_last returns is the front, and whenever the history is longer than configured the oldest is removed", 2)
    c.rule(R6, "current and gathered statistics ask every persisted queue for its size just before they are reported", 2)

    # ---- counted once per request
    it, f, outs = route_paths(c, R1, endpoint_raises=False, middleware_raises=False)
    for st, k, v in outs:
        if k != "return":
            continue
        att = [e for e in st.trace if e.kind == "await" and tail(e) == "attempt_request"]
        if not att or evs(st, "raise", "caught"):
            continue
        adds = [e for e in evs(st, "opaque") if tail(e) == "add_endpoint_stats"]
        others = [e for e in evs(st, "opaque") if e.label.startswith("StatisticsKeeper.") and tail(e) not in ("add_endpoint_stats",)]
        if len(adds) != 1:
            if not adds and others:
                c.undecided(R1, f.qual, "statistics are kept through other methods")
            else:
                c.bad(R1, f.qual, f"a request whose endpoint succeeded is counted {len(adds)} times", st, k)
            continue
        e = adds[0]
        args = list(e.args) + list(e.kw.values())
        key = e.kw.get("key", args[0] if args else None)
        dur = e.kw.get("percentile", args[1] if len(args) > 1 else None)
        named = [t for t in subterms(key) if t[:2] in (("A", "attr"), ("A", "item"), ("A", "get")) and t[3] in ("route_key", K("route_key"))] if key else []
        if not named or named[0] != key:
            if named:
                c.undecided(R1, f.qual, "counted under a key computed from the route key")
            else:
                c.bad(R1, e.loc, f"the call is counted under {show(key) if key else 'nothing'}, not the route key of the request", st, k)
            continue
        if dur is None or dur[0] == "K":
            c.bad(R1, e.loc, "the call is counted without its duration", st, k)
            continue
        timers = [x for x in st.trace if x.kind in ("call", "pure") and tail(x) in TIMERS and comes_from(st, dur, x.res)]
        if not timers:
            c.undecided(R1, e.loc, "the duration does not come from a timer that is recognised")
        elif not any(x.n < att[0].n for x in timers) or not any(x.n > att[0].n for x in timers):
            c.bad(R1, e.loc, "the duration is not measured around the endpoint", st, k)
        elif lin(dur) and any(lin(dur)[1].get(x.res, 0) * (1 if x.n > att[0].n else -1) < 0 for x in timers):
            c.bad(R1, e.loc, "the duration is the wrong way round", st, k)
        else:
            c.ok(R1, 1, f"{e.loc} after {att[0].loc}")

    k = Keeper(c, R2)
    for n in ("current", "durations", "history", "queues"):
        if getattr(k, n) is None:
            c.undecided(R2, k.K.qual, f"what holds the {n} was not recognised")
    forgets(c, k)
    if None in (k.current, k.durations, k.history, k.queues):
        return

    # ---- counting adds up
    subscript = False
    it, outs = k.paths("add_endpoint_stats", "increment")
    f = c.find(k.K, "add_endpoint_stats")
    for st, kind, v in outs:
        if kind != "return":
            continue
        inc = [e for e in evs(st, "opaque") if tail(e) == "increment"]
        app = [e for e in st.trace if e.kind in ("mut", "setitem", "call") and k.durations in (selfattrs(e.recv) if e.recv else set()) and tail(e) not in ("setdefault",)]
        app += [e for e in st.trace if e.kind == "mut" and tail(e) in ("append", "insert") and e not in app
                and any(owner(t) == k.durations for t in provenance(st, e.recv))]
        ones = [e for e in inc if e.kw.get("value", K(1)) == K(1)]
        if inc:
            if len(inc) > 1 and all(any(comes_from(st, a, p) for a in e.kw.values() for p in [("S", "key", "str")]) for e in inc) and len({e.kw.get("key") for e in inc}) == 1:
                c.bad(R2, inc[0].loc, "a call is counted twice", st, kind)
                continue
            bad = [e for e in inc if "call_count" in show(e.kw.get("key", NONE)) and e.kw.get("value", K(1)) != K(1)]
            if bad:
                c.bad(R2, bad[0].loc, f"a call raises the count by {show(bad[0].kw['value'])}", st, kind)
                continue
            if len(inc) == 1 and not any(t[0] == "S" and t[1] == "key" for t in subterms(inc[0].kw.get("key", NONE))):
                c.bad(R2, inc[0].loc, "the call is counted under a key that does not depend on the endpoint", st, kind)
                continue
        elif not writes(st, k.current):
            c.bad(R2, f.qual, "a call is not counted", st, kind)
            continue
        if not app:
            c.bad(R2, f.qual, "the duration of a call is not kept", st, kind)
            continue
        if not any(any(isinstance(a, tuple) and any(t[0] == "S" and t[1] == "percentile" for t in subterms(a)) for a in list(e.args) + list(e.kw.values())) for e in app):
            c.bad(R2, app[0].loc, "what is kept is not the duration of the call", st, kind)
            continue
        if any(e.kind == "mut" and e.recv[:2] == ("A", "item") for e in app):
            subscript = True
        c.ok(R2, 1, f"{f.qual}: {len(inc)} increment, {len(app)} duration kept")
    it, outs = k.paths("increment")
    f = c.find(k.K, "increment")
    kept, forgot = 0, []
    for st, kind, v in outs:
        if kind != "return":
            continue
        sets = [e for e in evs(st, "setitem") if len(e.args) > 1]
        if not sets:
            if not evs(st, "mut", "call", "opaque"):
                c.bad(R2, f.qual, "increment stores nothing", st, kind)
            else:
                c.undecided(R2, f.qual, "no store recognised in increment")
            continue
        l = lin(sets[-1].args[1])
        val = [t for t in (l[1] if l else {}) if t[0] == "S" and t[1] == "value"]
        if l is None:
            c.undecided(R2, sets[-1].loc, "stored value is not a number that is recognised")
        elif not val or l[1][val[0]] != 1 or l[0] != 0:
            c.bad(R2, sets[-1].loc, f"increment stores {show(sets[-1].args[1])}, not the old value plus the given one", st, kind)
        else:
            rest = [t for t in l[1] if t != val[0]]
            if not rest:   # the path on which there was no old value
                forgot.append((sets[-1], st, kind))
            elif len(rest) == 1 and l[1][rest[0]] == 1:
                kept += 1
                c.ok(R2, 1, f"{f.qual}: stores {show(sets[-1].args[1])[:80]}")
            else:
                c.bad(R2, sets[-1].loc, f"increment stores {show(sets[-1].args[1])}", st, kind)

    if forgot and not kept:
        c.bad(R2, forgot[0][0].loc, "increment forgets the old value", forgot[0][1], forgot[0][2])

    # ---- tracked keys
    if subscript:
        it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name == "StatisticsKeeper")
        fr = c.find(c.cls("RequestRouter"), "register_handler")
        for st, kind, v in c.run(it, fr, R2):
            stores = evs(st, "setitem")
            if kind != "return" or not stores:
                continue
            tr = [e for e in evs(st, "opaque") if tail(e) == "track_endpoint_data"]
            if not tr:
                if any(e.label.startswith("StatisticsKeeper.") for e in evs(st, "opaque")):
                    c.undecided(R2, fr.qual, "a handler is registered through another method of the statistics")
                else:
                    c.bad(R2, fr.qual, "a handler is registered whose durations are not tracked: counting its calls fails", st, kind)
            elif tr[0].kw.get("key") is not None and stores[0].args and tr[0].kw["key"] != stores[0].args[0]:
                c.undecided(R2, fr.qual, "the tracked key is not the registered one in the same words")
            else:
                c.ok(R2, 1, f"{fr.qual}: tracked under the registered key")
        it, outs = k.paths("track_endpoint_data", "increment")
        for st, kind, v in outs:
            if kind == "return":
                if writes(st, k.durations):
                    c.ok(R2)
                else:
                    c.bad(R2, c.find(k.K, "track_endpoint_data").qual, "an endpoint is not tracked", st, kind)

    # ---- gathering
    it, outs = k.paths("gather_statistics", "size")
    f = c.find(k.K, "gather_statistics")
    rounds = 0
    for st, kind, v in outs:
        rec = []
        for e in st.trace:
            if e.kind == "mut" and owner(e.recv) == k.history and tail(e) in ADDERS and e.recv[:2] == ("A", "attr"):
                rec.append((e, e.args[-1], "front" if tail(e) == "appendleft" or (tail(e) == "insert" and e.args[0] == K(0)) else
                            "end" if tail(e) == "append" else "behind" if e.args[0][0] == "K" and isinstance(e.args[0][2], int) else "?"))
            elif e.kind == "set" and e.label == k.history:
                rec.append((e, None, "?"))
        if not rec:
            continue
        inner = kind == "cut" and any(e.kind == "loop" and e.loc == v["loc"] and e.n > rec[0][0].n for e in st.trace)
        if inner:
            continue
        rounds += 1
        e, snap, where = rec[0]
        if len([1 for r in rec if r[1] is not None]) > 1:
            c.bad(R3, e.loc, "a period is put into the history twice", st, kind)
        if snap is None:
            c.undecided(R3, e.loc, "the history is replaced")
        else:
            sk = snapshot_kind(it, st, k, snap)
            replaced = any(x.kind == "set" and x.label == k.current and x.n > e.n for x in st.trace)
            if sk == "deep" or (sk in ("live",) and replaced):
                c.ok(R3, 1, f"{e.loc}: {show(snap)[:90]}")
            elif sk in ("live", "shallow") and not replaced:
                c.bad(R3, e.loc, "what is put into the history shares its counts with the running statistics: recorded periods change afterwards", st, kind)
            else:
                c.undecided(R3, e.loc, f"what is put into the history is not recognised: {show(snap)[:80]}")
        # the copy is made from this event on
        made = e.n
        if snap is not None:
            for x in st.trace:
                if x.n < e.n and x.kind in ("pure", "call") and x.res is not None and mentions(snap, x.res) and tail(x) in ("deepcopy", "copy", "loads"):
                    made = min(made, x.n)
            if snap[0] == "A" and snap[1] in ("copy.deepcopy", "deepcopy"):
                same = [x.n for x in st.trace if x.kind == "pure" and tail(x) == "deepcopy" and x.n <= e.n]
                made = min([made] + same[-1:])
        # ---- reset after, not before
        wd = window_effects(outs, st, k.durations, made)
        wc = window_effects(outs, st, k.current, made)
        before = [x for l in evs(st, "loop") if l.n < made and not any(y.kind == "suspend" and l.n < y.n < made for y in st.trace)
                  for b, n in body_paths(outs, l) for x in writes(b, k.durations, n) + writes(b, k.current, n)
                  if x.kind == "setitem" and x.args[1:] and (x.args[1] == K(0) or owner(x.recv) == k.durations)]
        if before:
            c.bad(R4, before[0].loc, "the counts are reset before the period is recorded", st, kind)
        stray = [x for x in st.trace if x.n > made and x.kind in ("setitem", "mut") and owner(x.recv) is None and x.recv[0] != "O"]
        for b, bk, bv in outs:
            starts = [x.n for x in b.trace if x.kind == e.kind and x.loc == e.loc]
            if starts and bk == "cut":
                stray += [x for x in b.trace if x.n > starts[0] and x.kind in ("setitem", "mut") and owner(x.recv) is None and x.recv[0] != "O"]
        if stray and not (wd and wc):
            c.undecided(R4, stray[0].loc, "what is changed here was not recognised")
            wd, wc = wd or [(stray[-1], None, st)], wc or [(stray[-1], None, st)]
        if not wd:
            c.bad(R4, f.qual, "the durations are not reset after a period was recorded: calls are timed in more than one period", st, kind)
        if not wc:
            c.bad(R4, f.qual, "the counts are not reset after a period was recorded: calls are counted in more than one period", st, kind)
        for l in evs(st, "loop"):
            if l.n <= made:
                continue
            over = owner(l.args[0]) if l.args else None
            if over not in (k.current, k.durations):
                continue
            for b, n in body_paths(outs, l):
                done = [x for x in b.trace if x.n > n and x.kind in ("setitem", "mut", "opaque", "delitem", "set", "call")]
                if done:
                    continue
                fs = [(t, val) for t, val in b.facts.items() if t not in st.facts]
                if over == k.current and any(val and t[:2] == ("A", "isinstance") for t, val in fs) or not fs:
                    c.bad(R4, l.loc, f"part of {'the counts' if over == k.current else 'the durations'} is not reset", b, "cut")
                else:
                    c.undecided(R4, l.loc, "a part is left out of the reset on a condition")
        for x, l, b in wc:
            if x.kind == "setitem" and len(x.args) > 1 and x.args[1][0] == "K" and x.args[1] not in (K(0), K(0.0)) and l is not None:
                c.bad(R4, x.loc, f"counts are reset to {show(x.args[1])}", b, "cut")
        if subscript:
            for x, l, b in wd:
                if (x.kind == "mut" and tail(x) == "clear" and x.recv[:2] == ("A", "attr")) or (x.kind == "set" and len(x.args) == 1 and x.args[0][0] == "O"
                        and b.objs[x.args[0][1]]["kind"] == "dict" and not b.objs[x.args[0][1]]["items"] and b.objs[x.args[0][1]]["rest"] is None):
                    c.bad(R2, x.loc, "resetting forgets the tracked endpoints: counting their next call fails", b, kind)
        for x, l, b in wd:
            part = x.args[1] if x.kind == "setitem" and len(x.args) > 1 else x.args[0] if x.kind == "delitem" and x.args else None
            if part is not None and (x.kind == "delitem" and part[:2] == ("A", "sl") or part[:2] == ("A", "slice") and k.durations in selfattrs(part[2])):
                ends = [t for t in part[2 if x.kind == "delitem" else 3:] if isinstance(t, tuple)]
                gone = all(t in (NONE, K(0)) for t in ends) if x.kind == "delitem" else ends[1] == K(0)
                if not gone and all(t[0] == "K" for t in ends):
                    c.bad(R4, x.loc, f"durations of the period stay for the next one ({show(part)[:60]}): calls are timed in more than one period", b, kind)
            if x.kind == "set" and len(x.args) == 1 and x.args[0][0] in ("A", "R") and "fromkeys" in str(x.args[0][1:3]):
                c.bad(R4, x.loc, "all endpoints share one list of durations after the reset", b, kind)
            if l is not None and x.kind == "setitem" and len(x.args) > 1 and x.args[1][0] == "O" and x.args[0][:2] == ("A", "elem") and isinstance(x.args[0][-1], int) \
                    and x.args[1][1] < x.args[0][-1]:
                c.bad(R4, x.loc, "all endpoints share one list of durations after the reset", b, "cut")
        # ---- nothing may run in between
        first = min([x.n for x in st.trace if x.kind in ("loop", "read", "call", "pure") and x.n > max([0] + [y.n for y in st.trace if y.kind == "loop" and y.label == "while"])
                     and x.recv is None and any(k.durations in selfattrs(a) for a in x.args if isinstance(a, tuple))] + [made])
        last = max([x.n for x, l, b in wd + wc if l is None] + [l.n for x, l, b in wd + wc if l is not None] + [made])
        sus = [x for x in st.trace if x.kind == "suspend" and first < x.n < last]
        for l in evs(st, "loop"):
            if first <= l.n <= last:
                for b, n in body_paths(outs, l):
                    sus += [x for x in b.trace if x.kind == "suspend" and x.n > n]
        if sus:
            c.bad(R4, sus[0].loc, "other tasks may run between the recording of a period and the reset for the next: what they count is lost", st, kind)
        elif wd and wc:
            c.ok(R4, 1, f"{f.qual}: events {first}..{last} without a suspension point")
        # ---- order and bound
        rem = [x for x in st.trace if x.n > e.n and ((x.kind in ("mut", "delitem") and owner(x.recv) == k.history and x.recv[:2] == ("A", "attr")) or (x.kind == "set" and x.label == k.history))]
        oldrem = [x for x in st.trace if x.n < e.n and x.kind in ("mut", "delitem") and owner(x.recv) == k.history and x.recv[:2] == ("A", "attr")]
        front_of_list = [x for x in rem if x.kind == "mut" and tail(x) in ("pop", "popleft") and (tail(x) == "popleft" or x.args[:1] == (K(0),))]
        if where == "end":
            k.appended = True
            c.bad(R5, e.loc, "a new period is put behind the older ones", st, kind) if returns_front(c, k, R5) else c.undecided(R5, e.loc, "history kept oldest first")
        elif where == "behind":
            c.bad(R5, e.loc, f"a new period is put to position {show(e.args[0])} of the history, not to its front", st, kind)
        elif where == "?" and snap is not None:
            c.undecided(R5, e.loc, "where a new period is put was not recognised")
        elif where == "front":
            if front_of_list:
                c.bad(R5, front_of_list[0].loc, "the newest period is removed from the history", st, kind)
            else:
                c.ok(R5)
        if where == "front" and not rem and not oldrem:
            ln = [t for t in all_terms(st) if t[:2] == ("A", "len") and owner(t[2]) == k.history]
            lims = [t for t in all_terms(st) if t[:2] == ("A", "attr") and "length" in t[3]]
            if not ln or not lims:
                loops = [l for l in evs(st, "loop") if l.n > e.n and any(owner(x.recv) == k.history for b, n in body_paths(outs, l) for x in b.trace if x.n > n and x.kind in ("mut", "delitem"))]
                if loops:
                    c.ok(R5)
                else:
                    c.bad(R5, f.qual, "nothing is ever removed from the history on this path, and its length is not compared with the configured one", st, kind)
            else:
                lens = sorted(ln, key=lambda t: t[3][2] if len(t) > 3 and t[3][0] == "K" else 0)
                r = it.truth(st, A("gt", lens[-1], lims[0]))
                r2 = it.truth(st, A("le", lens[-1], lims[0]))
                if r is False or r2 is True:
                    c.ok(R5, 1, f"{f.qual}: kept only while len <= configured")
                else:
                    facts = [show(t) for t, val in st.facts.items() if any(x in (lens[-1],) for x in subterms(t))]
                    c.bad(R5, f.qual, f"nothing is removed although the history may be longer than configured (known only: {facts[:2]})", st, kind)
        if where == "front" and len(rem) == 1 and rem[0].kind == "mut" and tail(rem[0]) == "pop" and not oldrem:
            ln = {t for t in all_terms(st) if t[:2] == ("A", "len") and owner(t[2]) == k.history and len(t) > 3 and t[3][0] == "K" and t[3][2] >= 2}
            lims = {t for t in all_terms(st) if t[:2] == ("A", "attr") and "length" in t[3]}
            if len(ln) == 1 and len(lims) == 1:
                a, b = next(iter(ln)), next(iter(lims))
                about = [(t, val) for t, val in st.facts.items() if mentions(t, a) and mentions(t, b)]
                try:
                    fits = all(bool(point(t, {a: 3, b: 3})) is val for t, val in about)
                except Unknown:
                    fits = None
                if fits is None or not about:
                    c.undecided(R5, f.qual, "when the oldest period is removed was not recognised")
                elif fits:
                    c.bad(R5, rem[0].loc, "the oldest period is removed although the history is no longer than configured", st, kind)
                else:
                    c.ok(R5, 1, f"{f.qual}: removed only when longer than configured")
    if not rounds:
        c.undecided(R3, f.qual, "no path on which a period is recorded was recognised")

    # ---- what is reported
    returns_front(c, k, R5, report=True)
    for name in ("get_current_statistics", "gather_statistics"):
        it, outs = k.paths(name, "size")
        f = c.find(k.K, name)
        asked = []
        for st, kind, v in outs:
            for e in evs(st, "opaque"):
                if tail(e) == "size" and e.recv is not None and owner(e.recv) == k.queues:
                    asked.append((st, kind, v, e))
        if not asked:
            c.bad(R6, f.qual, "the sizes of the persisted queues are not asked for")
            continue
        stored = False
        for st, kind, v, e in asked:
            w = [x for x in st.trace if x.n > e.n and x.kind in ("setitem", "opaque") and any(isinstance(a, tuple) and comes_from(st, a, e.res) for a in list(x.args) + list(x.kw.values()))]
            if w:
                stored = True
            elif kind == "cut" and any(l.loc == v["loc"] and l.args and owner(l.args[0]) == k.queues for l in evs(st, "loop")):
                c.bad(R6, e.loc, "the size of a queue is asked for but not reported on some path", st, kind)
        if stored:
            c.ok(R6, 1, f"{f.qual}: {len(asked)} paths ask for sizes")
        else:
            c.bad(R6, asked[0][3].loc, "the size of a queue is asked for but not reported", asked[0][0], asked[0][1])
        if name == "gather_statistics":
            for st, kind, v in outs:
                rec = [e for e in st.trace if e.kind == "mut" and owner(e.recv) == k.history and tail(e) in ADDERS]
                loops = [l for l in evs(st, "loop") if l.args and k.queues in selfattrs(l.args[0])]
                if rec and loops and not any(l.n < rec[0].n for l in loops):
                    c.bad(R6, rec[0].loc, "a period is recorded before the queue sizes are updated", st, kind)
                elif rec and not loops:
                    c.bad(R6, rec[0].loc, "a period is recorded without updating the queue sizes", st, kind)
    for name in ("get_current_statistics", "get_last_gathered_statistics", "get_full_gathered_statistics"):
        it, outs = k.paths(name, "size")
        f = c.find(k.K, name)
        for st, kind, v in outs:
            w = writes(st, k.durations) + [x for x in writes(st, k.history) if x.kind in ("mut", "delitem", "setitem")]
            w = [x for x in w if x.kind in ("setitem", "set", "delitem") or (x.kind == "mut" and tail(x) in ("clear", "pop", "popleft", "remove", "reverse", "sort", "insert", "append", "popitem"))]
            z = [x for x in evs(st, "setitem") if owner(x.recv) == k.current and x.args[1:] == (K(0),) and x.args[0][0] != "K"]
            if w or z:
                c.bad(R4, (w + z)[0].loc, f"{name} changes what is being counted or what was recorded", st, kind)
            else:
                c.ok(R4)

    under_its_name(c, k)
    for kind in ("handler", "sender"):
        registered(c, kind)

    # ---- the endpoint hands out what was asked for
    R7 = "asked-for"
    c.rule(R7, "the statistics endpoint answers 'current', 'gathered' and 'full' with the current period, the last gathered one and the whole history", 1)
    for f, d in endpoints(c).get("eco.statistics.get", []):
        for kind_, want in (("current", "get_current_statistics"), ("gathered", "get_last_gathered_statistics"), ("full", "get_full_gathered_statistics")):
            it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name == "StatisticsKeeper",
                          pin=lambda name, v, kk=kind_: K(kk) if name == "type" else None)
            for st, ex, v in c.run(it, f, R7):
                calls = [e for e in evs(st, "opaque") if tail(e).startswith("get_") and tail(e).endswith("statistics")]
                used = [e for e in calls if isinstance(v, tuple) and comes_from(st, v, e.res)]
                if ex != "return" or not calls:
                    c.undecided(R7, f.qual, f"what is answered to '{kind_}' was not recognised")
                elif not used:
                    c.undecided(R7, f.qual, f"the answer to '{kind_}' was not recognised")
                elif {tail(e) for e in used} != {want}:
                    c.bad(R7, used[0].loc, f"'{kind_}' is answered with {tail(used[0])}", st, ex)
                else:
                    c.ok(R7, 1, f"{kind_} -> {want}")


def under_its_name(c, k):
    R = "own-place"
    c.rule(R, "a value is kept under all the parts of its name, the last one in what the others lead to", 2)
    for name in ("set_statistic_value", "increment", "decrement"):
        f = k.K.methods.get(name)
        if f is None:
            continue
        for st, kind, v in c.run(c.interp(), f, R):
            if kind == "cut":
                for name_, (_, at0, nxt) in v["vars"].items():
                    if nxt[:2] in (("A", "item"), ("A", "get")) and nxt[2] == at0 and \
                            not any(t[:2] == ("A", "elem") or t[0] == "H" and t != at0 for t in subterms(nxt) if isinstance(t, tuple)):
                        c.bad(R, f.qual, f"{show(nxt)} is looked at for every part of a name: what was counted before is not found", st, kind)
            sets = [e for e in evs(st, "setitem") if e.args and e.args[0][:2] == ("A", "item") and e.args[0][2][:2] == ("A", "split")]
            if kind != "return" or not sets:
                continue
            e = sets[-1]
            parts, at = e.args[0][2], e.args[0][3]
            # the loop that leads to what is written to
            lead = [l for l in evs(st, "loop") if l.n < e.n and e.recv[0] == "H" and l.info["id"] == e.recv[1]]
            if not lead or at[0] != "K":
                c.undecided(R, f.qual, "where a value is kept was not recognised")
                continue
            coll = lead[0].info.get("coll")
            if coll == parts:
                span = (NONE, NONE)
            elif coll is not None and coll[:2] == ("A", "slice") and coll[2] == parts and all(x[0] == "K" for x in coll[3:]):
                span = coll[3:5]
            else:
                c.undecided(R, f.qual, "where a value is kept was not recognised")
                continue
            if at == K(-1) and span[0] in (NONE, K(0)) and span[1] == K(-1) or at == K(0) and span == (NONE, NONE):
                c.ok(R, 1, f"{f.qual}: every part of the name")
            else:
                c.bad(R, f.qual, f"a value is kept under {show(e.args[0])} in what {show(coll)} leads to: values of different names are kept in one place", st, kind)


def forgets(c, k):
    """registering a queue or an endpoint leaves something behind"""
    R = "queue-registered"
    for name, what in (("add_persisted_queue", "a queue"), ("track_endpoint_data", "an endpoint")):
        f = k.K.methods.get(name)
        if f is None:
            continue
        for st, kind, v in c.run(c.interp(), f, R):
            if kind == "return" and not any(e.kind in ("setitem", "set", "mut", "opaque", "call", "setglobal", "loop", "spawn", "await", "new")
                                            for e in st.trace) and not st.facts:
                c.bad(R, f.qual, f"{what} that is registered is forgotten", st, kind)


def registered(c, kind):
    R = "queue-registered"
    c.rule(R, "setting up a buffered endpoint or sender registers its pending and its error queue, each under its own name and route", 4)
    from rules import startup as U
    cl = c.cls(U.KINDS[kind]) if kind in U.KINDS else None
    if cl is None:
        c.undecided(R, kind, "not found")
        return
    f = c.find(cl, "setup")
    me = ("S", "self", "c:" + cl.qual)
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name in ("PaginatedQueue", "StatisticsKeeper"), max_paths=4000)
    for st, k, v in c.run(it, f, R):
        if k != "return":
            continue
        q = st.heap.get((me, "queue"))
        regs = [e for e in evs(st, "opaque", "call") if tail(e) == "add_persisted_queue"]
        for role, attr in (("pending", "pending_q"), ("error", "error_q")):
            o = st.heap.get((q, attr)) if q is not None else None
            if o is None:
                c.undecided(R, f.qual, f"how the {role} queue is made was not recognised")
                continue
            def of(e, n, i):
                return e.kw.get(n, e.args[i] if len(e.args) > i else None)
            mine = [e for e in regs if of(e, "queue", 1) == o]
            if not mine:
                if evs(st, "loop") or any(of(e, "queue", 1) is None or of(e, "queue", 1)[0] not in ("O", "N", "R") for e in regs):
                    c.undecided(R, f.qual, f"where the {role} queue is registered was not recognised")
                else:
                    c.bad(R, f.qual, f"the size of the {role} queue is not reported", st, k)
                continue
            text = [t for t in subterms(of(mine[-1], "key", 0)) if isinstance(t, tuple)]
            words = "".join(t[2] for t in text if t[0] == "K" and isinstance(t[2], str))
            other = "error" if role == "pending" else "pending"
            if other in words.split(".")[-1] or ("sender" if kind == "handler" else "endpoint") in words.split("_sizes")[0]:
                c.bad(R, mine[-1].loc, f"the size of the {role} queue is reported as {words}", st, k)
            elif not any("route" in str(t[3] if t[:2] == ("A", "attr") else t[1]) for t in text if t[0] in ("A", "S", "R")):
                c.undecided(R, mine[-1].loc, "the name a queue is registered under was not recognised")
            else:
                c.ok(R, 1, f"{f.qual}: {role}")


def all_terms(st):
    out = set()
    for t in st.facts:
        out |= set(x for x in subterms(t) if isinstance(x, tuple))
    return out


def returns_front(c, k, R, report=False):
    """do readers get the newest period first, given that new ones are put to the front?"""
    ok = True
    it, outs = k.paths("get_last_gathered_statistics")
    f = c.find(k.K, "get_last_gathered_statistics")
    for st, kind, v in outs:
        if kind == "return" and isinstance(v, tuple):
            items = [t for t in subterms(v) if t[:2] == ("A", "item") and owner(t) == k.history]
            for t in items:
                if t[3][0] == "K" and t[3] != K(0):
                    ok = False
                    if report:
                        c.bad(R, f.qual, f"the last gathered period is taken from position {show(t[3])}, not the front", st, kind)
                elif report:
                    c.ok(R, 1, f"{f.qual}: {show(v)[:60]}")
    if report and not any(isinstance(n, ast.Try) for n in ast.walk(f.node)):
        for st, kind, v in outs:
            if kind != "return" or not isinstance(v, tuple):
                continue
            hs = {t for t in all_terms(st) if t[:2] == ("A", "attr") and t[3] == k.history}
            ls = {t for t in all_terms(st) if t[:2] == ("A", "len") and owner(t[2]) == k.history}
            for n in (0, 1, 2):
                try:
                    fits = all(bool(point(t, {**{h: n for h in hs}, **{l: n for l in ls}})) is val for t, val in st.facts.items() if any(mentions(t, x) for x in hs | ls))
                except Unknown:
                    c.undecided(R, f.qual, "when a period is reported was not recognised")
                    break
                took = any(t[:2] == ("A", "item") and owner(t) == k.history for t in subterms(v))
                if fits and took and n == 0:
                    c.bad(R, f.qual, "asking for the last gathered period fails as long as none was gathered", st, kind)
                elif fits and not took and n and owner(v) != k.history and v[0] in ("O", "K"):
                    c.bad(R, f.qual, f"the last gathered period is not reported although there {'is one' if n == 1 else 'are ' + str(n)}", st, kind)
                else:
                    c.ok(R)
    it, outs = k.paths("get_full_gathered_statistics")
    f = c.find(k.K, "get_full_gathered_statistics")
    for st, kind, v in outs:
        if kind == "return" and isinstance(v, tuple) and report:
            if v[0] == "A" and v[1] in ("reversed",):
                c.bad(R, f.qual, "the history is reported oldest first", st, kind)
            else:
                c.ok(R)
    return ok


# ---------------------------------------------------------------------------------------------------------------- C36
SAME = ("sorted", "list", "tuple", "copy.copy", "copy", "reversed")
PARTS = ("slice", "set", "frozenset", "filter", "itertools.islice")


def unwrap(st, v, names=SAME):
    """a sequence with the same members -> the sequence it was made of"""
    while isinstance(v, tuple) and v:
        if v[0] == "A" and v[1] in names and len(v) > 2 and isinstance(v[2], tuple):
            v = v[2]
        elif v[0] == "O" and st.objs.get(v[1], {}).get("kind") == "list" and len(st.objs[v[1]]["seq"]) == 1 and st.objs[v[1]]["seq"][0][0] == "all":
            v = st.objs[v[1]]["seq"][0][1]
        elif v[0] == "R" and v[2].split(".")[-1] in names and st.trace[v[1]].args:
            v = st.trace[v[1]].args[0]
        else:
            return v


def quantile(st, v, count=2, base=None):
    """a cut point of the quantiles of a sequence of count durations -> (fraction, sequence, there is such a cut point) | None"""
    from fractions import Fraction
    while isinstance(v, tuple) and v[:2] == ("A", "float"):
        v = v[2]
    if not (isinstance(v, tuple) and v[:2] == ("A", "item")):
        return None
    r = v[2]
    if r[0] == "R" and isinstance(r[1], int) and r[1] < len(st.trace) and st.trace[r[1]].label.split(".")[-1] == "quantiles":
        e = st.trace[r[1]]
        n = e.kw.get("n", e.args[1] if len(e.args) > 1 else K(4))
        data = e.kw.get("data", e.args[0] if e.args else None)
        if data is None:
            return None
        env = {}
        for t in list(subterms(n)) + list(subterms(v[3])):
            if isinstance(t, tuple) and t[:2] == ("A", "len") and base is not None and unwrap(st, t[2]) == base:
                env[t] = count
        try:
            n = point(n, env)
            env.update({t: n - 1 for t in subterms(v[3]) if isinstance(t, tuple) and t[:2] == ("A", "len") and t[2] == r})
            i = point(v[3], env)
        except (Unknown, TypeError):
            return None
        if not isinstance(n, int) or not isinstance(i, int) or n < 1:
            return None
        if i < 0:
            i += n - 1
        return Fraction(i + 1, n), data, 0 <= i < n - 1
    return None


def check_C36(c):
    from fractions import Fraction
    R1, R2, R3 = "cut-points", "under-their-name", "before-recording"
    c.rule(R1, "for every tracked endpoint, and whatever the number of its durations, the pair of percentiles is made of that endpoint's durations: two or more: the 95/100 "
               "and 99/100 cut points of all of them, one: that duration, none: the marker for 'no data' (negative)", 3)
    c.rule(R2, "the first of the pair is what is reported as p95 and the second as p99, under the same endpoint's name, each time statistics are brought up to date", 2)
    c.rule(R3, "the percentiles are brought up to date before a period is recorded, from the durations of that period", 1)
    k = Keeper(c, R1)
    if k.durations is None:
        c.undecided(R1, k.K.qual, "what holds the durations was not recognised")
        return
    f = c.find(k.K, "get_endpoint_percentiles")
    it = c.interp()
    it.keep_cuts = True
    outs = c.run(it, f, R1)
    lens_seen = set()
    for st, kind, v in outs:
        loops = [l for l in evs(st, "loop") if l.args and owner(l.args[0]) == k.durations][:1]
        if kind != "cut" or not loops or v["loc"] != loops[-1].loc:
            continue
        start = loops[-1].n
        sets = [(e.args[0], e.args[1], e.loc) for e in evs(st, "setitem") if e.n > start and e.recv[0] == "O"]
        sets = sets or [(key, val, loops[-1].loc) for o in st.objs.values() if o["kind"] == "dict" for key, val in o["items"].items()
                        if key[:2] == ("A", "elem") and owner(key[2]) == k.durations]
        others = [e for e in st.trace if e.n > start and e.kind in ("mut", "opaque") or (e.n > start and e.kind == "setitem" and not sets)]
        # how many durations there may be on this path
        base = None
        for t in list(all_terms(st)) + [x for e in sets for a in e[:2] for x in provenance(st, a)]:
            if t[:2] == ("A", "item") and t[2][:2] == ("A", "attr") and t[2][3] == k.durations:
                base = t
        if base is None and not sets:
            c.undecided(R1, f.qual, "a round that neither looks at durations nor stores percentiles")
            continue
        possible, unsure = [], False
        for n in (0, 1, 2, 3, 4, 10, 19, 20, 21, 49, 50, 51, 99, 100, 101, 200, 1000):
            env = {base: [0.5] * n, A("len", base): n} if base is not None else {}
            for t in all_terms(st):
                if t[:2] == ("A", "len") and unwrap(st, t[2]) == base:
                    env[t] = n
                elif base is not None and unwrap(st, t) == base:
                    env[t] = [0.5] * n
            good = True
            for t, val in st.facts.items():
                if base is None or not mentions(t, base):
                    continue
                try:
                    if bool(point(t, env)) != val:
                        good = False
                except Unknown:
                    unsure = True
            if good:
                possible.append(n)
        if unsure:
            c.undecided(R1, f.qual, "how many durations there are on a path was not recognised")
            continue
        if not possible:
            continue
        if not sets:
            if others or evs(st, "break"):
                c.undecided(R1, f.qual, "what is stored for an endpoint was not recognised")
            else:
                c.bad(R1, f.qual, f"an endpoint with {possible[0]} durations gets no percentiles: what was reported before stays", st, kind)
            continue
        key, pair, loc = sets[-1]
        vals = None
        if pair[0] == "T":
            vals = pair[1:] if not (len(pair) == 2 and isinstance(pair[1], (list, tuple)) and pair[1] and isinstance(pair[1][0], tuple)) else tuple(pair[1])
        elif pair[0] == "O" and st.objs[pair[1]]["kind"] == "list" and all(s[0] == "one" for s in st.objs[pair[1]]["seq"]):
            vals = tuple(s[1] for s in st.objs[pair[1]]["seq"])
        if vals is None or len(vals) != 2:
            c.undecided(R1, loc, f"the pair of percentiles was not recognised: {show(pair)[:80]}")
            continue
        if base is not None and base[3] != key:
            c.bad(R1, loc, f"the percentiles stored for {show(key)[:60]} are those of {show(base[3])[:60]}", st, kind)
            continue
        for n in possible:
            lens_seen.add(min(n, 2))
            for val, want, name in zip(vals, (Fraction(95, 100), Fraction(99, 100)), ("p95", "p99")):
                verdict = one_percentile(st, val, want, n, base)
                if verdict is None:
                    c.undecided(R1, loc, f"{name} of {n} durations was not recognised: {show(val)[:80]}")
                elif verdict is True:
                    c.ok(R1, 1, f"{f.qual}: {name} of {n} durations is {show(val)[:60]}")
                else:
                    c.bad(R1, loc, f"{name} of {n} durations is {verdict}", st, kind)
    if not lens_seen:
        c.undecided(R1, f.qual, "no place where percentiles are computed was recognised")
    for st, kind, v in outs:
        if kind == "return" and isinstance(v, tuple) and owner(v) is not None:
            c.bad(R1, f.qual, "what is handed out is not computed from the durations now", st, kind)

    # ---- reported under their names
    it, outs = k.paths("get_current_statistics", "size", "get_endpoint_percentiles", "set_statistic_value")
    f = c.find(k.K, "get_current_statistics")
    done = {}
    got = False
    for st, kind, v in outs:
        pct = [e for e in evs(st, "opaque") if tail(e) == "get_endpoint_percentiles"]
        if not pct:
            if kind == "return":
                c.bad(R2, f.qual, "the percentiles are not brought up to date when statistics are asked for", st, kind) if not any(k.durations in selfattrs(a) for l in evs(st, "loop") for a in l.args if isinstance(a, tuple)) \
                    else c.undecided(R2, f.qual, "percentiles computed in place")
            continue
        got = True
        loops = [l for l in evs(st, "loop") if l.args and isinstance(l.args[0], tuple) and comes_from(st, l.args[0], pct[0].res)]
        if kind == "return" and not loops:
            c.undecided(R2, f.qual, "how the percentiles are reported was not recognised")
            continue
        if kind != "cut" or not loops or v["loc"] != loops[-1].loc:
            continue
        calls = [e for e in evs(st, "opaque") if tail(e) == "set_statistic_value" and e.n > loops[-1].n]
        names = {}
        odd = False
        for e in calls:
            kx, vx = e.kw.get("key"), e.kw.get("value")
            if kx is None or vx is None:
                odd = True
                continue
            while vx[:2] == ("A", "float"):
                vx = vx[2]
            parts = kx[2:] if kx[:2] == ("A", "concat") else None
            if not parts or len(parts) != 3 or parts[0] != K("endpoint_data.") or parts[2] not in (K(".p95"), K(".p99")):
                if parts and len(parts) == 3 and parts[2][0] == "K" and parts[0][0] == "K":
                    c.bad(R2, e.loc, f"a percentile is reported as {show(kx)[:80]}", st, kind)
                odd = True
                continue
            name = parts[2][2][1:]
            names[name] = e
            if vx[:2] == ("A", "item") and vx[3] in (K(0), K(1), K(-1), K(-2)) and vx[2][:2] in (("A", "item"), ("A", "get")):
                i = vx[3][2] % 2
                own = vx[2][3]
                if own != parts[1]:
                    c.bad(R2, e.loc, f"the {name} of one endpoint is reported for another", st, kind)
                elif i != (0 if name == "p95" else 1):
                    c.bad(R2, e.loc, f"what is reported as {name} is the other percentile", st, kind)
                else:
                    c.ok(R2, 1, f"{e.loc}: {name} = pair[{i}]")
            elif vx[0] == "A" and vx[1] in ("round", "int", "math.floor", "math.ceil") and len(vx) == 3 or lin(vx) and quantile_like(lin(vx)):
                c.bad(R2, e.loc, f"what is reported as {name} is not the percentile itself: {show(vx)[:60]}", st, kind)
            elif vx[0] == "K" or not comes_from(st, vx, pct[0].res):
                c.bad(R2, e.loc, f"what is reported as {name} is not a percentile: {show(vx)[:60]}", st, kind)
            else:
                c.undecided(R2, e.loc, f"what is reported as {name} was not recognised: {show(vx)[:60]}")
        if not odd and calls and set(names) != {"p95", "p99"}:
            c.bad(R2, calls[0].loc, f"only {sorted(names)} of an endpoint is reported", st, kind)
        elif not calls:
            if any(e.n > loops[-1].n for e in evs(st, "setitem", "mut", "opaque")):
                c.undecided(R2, f.qual, "how the percentiles are reported was not recognised")
            else:
                fs = [(show(t)[:60], b) for t, b in st.facts.items()]
                c.bad(R2, f.qual, f"the percentiles of an endpoint are not reported when {fs[:2]}: what was reported before stays", st, kind)
    # ---- what set_statistic_value does
    it, outs = k.paths("set_statistic_value")
    f = c.find(k.K, "set_statistic_value")
    for st, kind, v in outs:
        if kind != "return":
            continue
        sets = [e for e in evs(st, "setitem") if len(e.args) > 1]
        last = [e for e in sets if e.args[1] == ("S", "value", e.args[1][2] if len(e.args[1]) > 2 else None) or (e.args[1][0] == "S" and e.args[1][1] == "value")]
        if not sets:
            if not evs(st, "mut", "call", "opaque"):
                c.bad(R2, f.qual, "a statistic that is set is not stored", st, kind)
            else:
                c.undecided(R2, f.qual, "where a statistic is stored was not recognised")
        elif not last:
            l = sets[-1].args[1]
            if any(t[0] == "S" and t[1] == "value" for t in provenance(st, l)):
                w = l
                while w[:2] == ("A", "float"):
                    w = w[2]
                if w[0] == "S" and w[1] == "value":
                    c.ok(R2)
                else:
                    c.bad(R2, sets[-1].loc, f"what is stored as a statistic is {show(l)[:60]}, not the given value", st, kind)
            else:
                c.bad(R2, sets[-1].loc, "what is stored as a statistic is not the given value", st, kind)
        else:
            c.ok(R2)

    # ---- before the period is recorded
    if k.history is None or k.current is None:
        c.undecided(R3, k.K.qual, "what holds the history was not recognised")
        return
    it, outs = k.paths("gather_statistics", "size", "get_endpoint_percentiles", "set_statistic_value")
    f = c.find(k.K, "gather_statistics")
    for st, kind, v in outs:
        rec = [e for e in st.trace if e.kind == "mut" and owner(e.recv) == k.history and tail(e) in ADDERS]
        if not rec:
            continue
        heads = [l.n for l in evs(st, "loop") if l.label == "while" and l.n < rec[0].n]
        pct = [e for e in evs(st, "opaque") if tail(e) == "get_endpoint_percentiles" and e.n < rec[0].n]
        pct = [e for e in pct if not any(s.kind == "suspend" and e.n < s.n < rec[0].n and tail(s) == "sleep" for s in st.trace)]
        if not pct and not any(k.durations in selfattrs(a) for l in evs(st, "loop") for a in l.args if isinstance(a, tuple) and l.n < rec[0].n):
            c.bad(R3, rec[0].loc, "a period is recorded without its percentiles being brought up to date", st, kind)
        elif not pct:
            c.undecided(R3, rec[0].loc, "percentiles computed in place")
        else:
            loops = [l for l in evs(st, "loop") if pct[0].n < l.n < rec[0].n and l.args and isinstance(l.args[0], tuple) and comes_from(st, l.args[0], pct[-1].res)]
            late = [l for l in evs(st, "loop") if l.n > rec[0].n and l.args and isinstance(l.args[0], tuple) and comes_from(st, l.args[0], pct[-1].res)]
            if late and not loops:
                c.bad(R3, rec[0].loc, "a period is recorded before its percentiles are reported", st, kind)
            else:
                c.ok(R3, 1, f"{rec[0].loc} after {pct[-1].loc}")


def selected(st, v, base):
    """a list of those members of base that pass a condition"""
    seq = st.objs[v[1]]["seq"]
    return len(seq) == 1 and seq[0][0] == "fmap" and unwrap(st, seq[0][1]) == base


def quantile_like(l):
    return len(l[1]) == 1 and (l[0] != 0 or next(iter(l[1].values())) != 1)


def one_percentile(st, v, want, n, base):
    """is this the wanted percentile of n durations?  True | None (not recognised) | what is wrong"""
    while v[:2] == ("A", "float"):
        v = v[2]
    if n == 0:
        x = v if v[0] == "K" else None
        if x is not None:
            if isinstance(x[2], (int, float)) and x[2] < 0:
                return True
            return f"{show(v)}, which does not say that there is no data"
        if base is not None and v[:2] == ("A", "item") and unwrap(st, v[2]) == base:
            return f"{show(v)}, which there is not"
        q = quantile(st, v, n, base)
        return "a quantile of nothing, which fails" if q else None
    if v[0] == "K":
        return f"{show(v)} instead of a duration"
    lv = lin(v)
    if lv and len(lv[1]) == 1:
        (t, coef), const = next(iter(lv[1].items())), lv[0]
        if coef != 1 or const != 0:
            if quantile(st, t, n, base):
                return f"{show(v)}: not the cut point itself"
    q = quantile(st, v, n, base)
    if q:
        frac, data, inside = q
        data0 = unwrap(st, data)
        if base is not None and data0 != base:
            if isinstance(data0, tuple) and data0[0] == "A" and data0[1] in PARTS and unwrap(st, data0[2]) == base:
                return f"of only part of the durations: {show(data0)[:80]}"
            if data0[0] == "O" and st.objs.get(data0[1], {}).get("kind") == "list" and selected(st, data0, base):
                return "of only those durations that pass a condition"
            return None
        if n < 2:
            return "a quantile of a single duration, which fails"
        if not inside:
            return "a cut point that does not exist"
        if frac != want:
            return f"the {float(frac):.2f} cut point instead of {float(want):.2f}"
        return True
    if v[:2] == ("A", "item") and base is not None and unwrap(st, v[2]) == base and v[3][0] == "K" and v[3][2] in (0, -1):
        if n == 1:
            return True
        if v[3][2] == 0 and v[2][1:2] != ("sorted",):
            return "the first duration"
        return None
    if n == 1 and v[0] == "A" and v[1] in ("max", "min", "statistics.mean", "statistics.median") and base is not None and unwrap(st, v[2]) == base:
        return True
    return None
