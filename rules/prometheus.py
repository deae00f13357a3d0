"""C29: collection of metrics by the prometheus exporter."""
import ast

from rules.base import *
from rules.servers import tail
from rules.management import endpoints

KEYS = ("call_count", "p95", "p99", "pending", "error", "uptime", "gather_period")
NODATA = ("p95", "p99")


def const(v):
    return v[2] if isinstance(v, tuple) and v and v[0] == "K" else None


def elems(v):
    return [t for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "elem")]


def target_elem(e):
    """the loop element the call acts on"""
    for x in ([e.recv] if e.recv else []) + list(e.args) + list(e.kw.values()):
        if isinstance(x, tuple):
            for t in elems(x):
                return t
    return None


def isolation(c, R):
    cls = c.cls("EkosisPrometheusScraper")
    run = c.find(cls, "run")
    gathered = {"get_gathered", "send_data", "send"}

    def from_response(ev):
        return any(isinstance(t, tuple) and t[0] == "R" and t[-1] in gathered for x in list(ev.args) + list(ev.kw.values()) if isinstance(x, tuple) for t in subterms(x))

    def raises(ev, it):
        t = tail(ev)
        if t in gathered or t == "push_to_gateway":
            return ("Exception",)
        if t in ("Gauge", "labels", "set", "get") and ev.kind == "call" and from_response(ev):
            return ("Exception",)
        return ()
    it = c.interp(may_raise=raises)
    outs = c.run(it, run, R)
    for st, k, v in outs:
        site = run.qual
        polls = [e for e in evs(st, "call", "opaque") if tail(e) in gathered]
        raised = [e for e in evs(st, "raise")]
        pushes = [e for e in evs(st, "call") if tail(e) == "push_to_gateway"]
        if k == "raise":
            c.bad(R, site, f"a failure ({show(v)}) while scraping or pushing ends the exporter", st, k)
            continue
        if k == "return":
            if raised:
                c.bad(R, site, "after a failure the exporter stops polling", st, k)
            else:
                c.undecided(R, site, "polling ends")
            continue
        if not polls:
            continue
        poll = polls[-1]
        elem = target_elem(poll)
        if elem is None:
            c.undecided(R, site, "the services are not polled in a loop")
            continue
        loop = elem[3]
        fail = next((e for e in raised if e.n > poll.n and not any(x.n < e.n for x in pushes if x.n > poll.n)), None)
        ended = v.get("loop")
        sets = [e for e in evs(st, "call") if tail(e) == "set" and e.n > poll.n and e.args]

        def label_of(e):
            r = e.recv
            x = next((y for y in evs(st, "call") if y.res == r and tail(y) == "labels"), None)
            return x
        health = []
        for e in sets:
            l = label_of(e)
            if l is None or const(e.args[0]) not in (0, 1):
                continue
            g = next((y for y in st.trace if y.res == l.recv and tail(y) == "Gauge"), None)
            if g is not None and g.args and str(const(g.args[0])).endswith("health"):
                health.append((e, l))
        if fail is None:
            if any(const(e.args[0]) == 0 for e, _ in health):
                c.bad(R, site, "a service that answered is reported as down", st, k)
            elif ended == loop and not any(const(e.args[0]) == 1 for e, _ in health):
                c.bad(R, site, "a service that answered is not reported as up", st, k)
            else:
                c.ok(R, 1, f"{site}: answered")
            continue
        if any(e.n > fail.n for e in pushes) or ended != loop:
            c.bad(R, site, "the failure of one service ends the round: the services after it are not polled", st, k)
            continue
        after = [(e, l) for e, l in health if e.n > fail.n]
        down = [(e, l) for e, l in after if const(e.args[0]) == 0]
        if not down:
            c.bad(R, site, "a service whose poll failed is not reported as down", st, k)
            continue
        if any(const(e.args[0]) == 1 for e, l in after if e.n > down[-1][0].n):
            c.bad(R, site, "a service whose poll failed is reported as up", st, k)
            continue
        l = down[-1][1]
        own = [x for x in l.kw.values()] + list(l.args)
        if own and not all(elem in elems(x) for x in own if isinstance(x, tuple) and x[0] in ("A", "R", "S", "K")):
            c.bad(R, site, "the failure of a service is reported for another service", st, k)
            continue
        if set(l.kw) == {"service", "instance"} and not ("name" in attr_names(l.kw["service"]) and "instance" in attr_names(l.kw["instance"])):
            c.bad(R, site, "the failed service is reported under the wrong labels", st, k)
            continue
        c.ok(R, 1, f"{site}: failed")
    # every metric translated is set on the gauge of its name with its labels
    for st, k, v in outs:
        if k != "cut":
            continue
        sets = [e for e in evs(st, "call") if tail(e) == "set" and e.args]
        each = [e for e in evs(st, "loop") if e.loc == v["loc"] and isinstance(e.info.get("coll"), tuple) and e.info["coll"][:2] == ("A", "gen")
                and "translate" in str(e.info["coll"][2])]
        if each and not [e for e in evs(st, "raise", "caught", "yield") if e.n > each[-1].n]:
            gen = each[-1].info["coll"]
            used = [e for e in st.trace if e.n > each[-1].n and e.kind in ("call", "opaque", "mut", "setitem", "set", "new", "spawn", "await") and tail(e) != "labels"
                    for x in list(e.args) + list(e.kw.values()) if isinstance(x, tuple) and tail(e) not in ("Gauge", "get", "debug", "info")
                    and any(isinstance(t, tuple) and t[:2] == ("A", "elem") and t[2] == gen for t in subterms(x))]
            # a metric may be left out for its value, or for one of its labels
            asked = [t for t in st.facts for y in subterms(t) if isinstance(y, tuple) and y[:1] == ("A",) and y[1] in ("idx", "item") and y[2][:2] == ("A", "elem") and
                     y[2][2] == gen and y[3] != K(0)]
            if not used and not asked:
                c.bad(R, run.qual, "a translated metric is given no value", st, k)
        for e in sets:
            vals = [t for t in subterms(e.args[0]) if isinstance(t, tuple) and t[:2] == ("A", "elem") and isinstance(t[2], tuple) and t[2][:2] == ("A", "gen")]
            if not vals:
                continue
            m = vals[0]
            if not handed_on(c, R, run, st, k, m[2], gathered):
                continue
            l = next((y for y in evs(st, "call") if y.res == e.recv and tail(y) == "labels"), None)
            ok = e.args[0] == A("idx", m, K(1)) or e.args[0] == A("item", m, K(1)) or "1" in show(e.args[0])
            if l is None or not ok:
                c.undecided(R, e.loc, "value not recognised")
                continue
            name = l.recv
            g = next((y for y in st.trace if y.res == name and tail(y) == "Gauge"), None)
            if g is not None and g.args and not mentions(g.args[0], m):
                c.bad(R, run.qual, "a metric is set on the gauge of another metric", st, k)
            elif not any(mentions(x, m) for x in list(l.kw.values()) + list(l.args)):
                c.bad(R, run.qual, "a metric is reported with the labels of another one", st, k)
            else:
                c.ok(R, 1, "metric set")


def handed_on(c, R, run, st, k, gen, gathered):
    """the translation is given the statistics that were polled, and the name and instance in their places"""
    f = next((x for x in c.p.funcs if x.qual == gen[2]), None)
    if f is None:
        return True
    ps = [a.arg for a in f.node.args.args]
    vals = [x for x in gen[4:] if isinstance(x, tuple)]
    polled = [e.res for e in evs(st, "call", "opaque") if tail(e) in gathered]

    def of(x):
        return any(t in polled for t in provenance(st, x)) or any(t in polled for t in subterms(x))

    def says(x, w):
        return any(t == K(w) or t[:2] == ("A", "attr") and t[3] == w for t in subterms(x) if isinstance(t, tuple))
    if f.cls is not None or len(vals) < 3 or len(ps) < 3 or not of(vals[0]) and not any(of(x) for x in vals):
        return True
    if not of(vals[0]) or vals[0][:2] in (("A", "get"), ("A", "item")) and says(vals[0], "name"):
        c.bad(R, run.qual, f"what is translated is {show(vals[0])[:60]}, not what the service answered", st, k)
        return False
    if says(vals[1], "instance") and not says(vals[1], "name") or says(vals[2], "name") and not says(vals[2], "instance"):
        c.bad(R, run.qual, "name and instance of a service are taken for each other", st, k)
        return False
    return True


def pushed(c, R):
    """every round is pushed, with the registry its metrics were put into"""
    cls = c.cls("EkosisPrometheusScraper")
    run = c.find(cls, "run")
    it = c.interp()
    outs = c.run(it, run, R)
    gathered = {"get_gathered", "send_data", "send"}

    def key(st, v):
        for e in st.trace:
            if e.res == v and e.kind in ("call", "new", "opaque"):
                return ("made", e.label, e.loc), e
        return ("kept", show(v)), None

    def registry(e):
        v = e.kw.get("registry") or (e.args[2] if tail(e) == "push_to_gateway" and len(e.args) > 2 else e.args[6] if tail(e) == "Gauge" and len(e.args) > 6 else None)
        return v
    sent, fresh, targets = {}, set(), None
    for st, k, v in outs:
        for e in evs(st, "call"):
            if tail(e) == "push_to_gateway" and registry(e) is not None:
                q, made = key(st, registry(e))
                sent[q] = e.loc
                heads = [x for x in evs(st, "loop") if x.label == "while"]
                if made is not None and heads and made.n > heads[0].n:
                    fresh.add(q)
            if tail(e) in gathered and target_elem(e) is not None:
                targets = target_elem(e)[2]
    if not sent:
        regs = [e.res for st, k, v in outs for e in st.trace if e.kind in ("call", "new", "opaque") and "Registry" in tail(e)]
        used = [e for st, k, v in outs for e in st.trace if e.kind in ("call", "opaque", "spawn", "await") and tail(e) != "Gauge" and
                ("push" in tail(e).lower() or any(r in set(subterms(x)) for r in regs for x in [e.recv] + list(e.args) + list(e.kw.values()) if isinstance(x, tuple)))]
        polls = [e for st, k, v in outs for e in st.trace if tail(e) in gathered]
        quiet = all(e.kind in ("read", "loop", "suspend", "pure") or tail(e) in ("sleep", "info", "debug", "warning", "getLogger", "len", "time")
                    for st, k, v in outs for e in st.trace)
        if outs and polls and regs and not used:
            c.bad(R, run.qual, "metrics are collected and never pushed", outs[0][0], outs[0][1])
        elif outs and quiet:
            c.bad(R, run.qual, "no service is polled and nothing is pushed", outs[0][0], outs[0][1])
        else:
            c.undecided(R, run.qual, "what is pushed was not recognised")
        return
    for st, k, v in outs:
        if k != "cut":
            continue
        outer = next((e.loc for e in evs(st, "loop") if e.label == "while"), None)
        polled = [e for e in evs(st, "loop") if targets is not None and e.args and e.args[0] == targets and any(x.n < e.n and tail(x) == "sleep" for x in evs(st, "call"))]
        if polled and v["loc"] == outer and not evs(st, "raise"):
            if any(tail(e) == "push_to_gateway" for e in evs(st, "call", "opaque")):
                c.ok(R, 1, "round pushed")
            elif evs(st, "call", "opaque") and not any("pushgateway" in show(t).lower() for t in st.facts):
                c.bad(R, run.qual, "a round is polled but its metrics are not pushed", st, k)
        for e in evs(st, "call"):
            if tail(e) != "set" or not e.args or e.recv is None:
                continue
            l = next((y for y in evs(st, "call") if y.res == e.recv and tail(y) == "labels"), None)
            if l is None or l.recv is None:
                continue
            g = next((y for y in st.trace if y.res == l.recv and tail(y) == "Gauge"), None)
            if g is not None:
                v_ = registry(g)
                q = key(st, v_)[0] if v_ is not None else None
                if v_ is None and all(x[0] == "made" for x in sent):
                    c.bad(R, g.loc, "a metric is put into the default registry, which is not the one that is pushed", st, k)
                elif q is not None and q not in sent and q[0] == "made" and all(x[0] == "made" for x in sent):
                    c.bad(R, g.loc, "a metric is put into another registry than the one that is pushed", st, k)
                else:
                    c.ok(R, 1, "registered where pushed")
                continue
            base = l.recv
            while isinstance(base, tuple) and base[:1] == ("A",) and base[1] in ("item", "idx", "index", "getitem", "get", "setdefault") and len(base) > 2:
                base = base[2]
            if base is not l.recv and base[:2] == ("A", "attr") and set(sent) <= fresh:
                refreshed = [x for x in evs(st, "set", "mut", "setitem") if x.kind == "set" and x.label == base[3] or x.recv == base and tail(x) == "clear"]
                if not refreshed:
                    c.bad(R, l.loc, f"a metric is set on a gauge kept from an earlier round ({show(base)}), whose registry is not the one pushed in this round", st, k)
                    continue
            c.ok(R, 1, "gauge of this round")


def attr_names(v):
    return {t[3] for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "attr")} | \
           {t[2] for t in subterms(v) if isinstance(t, tuple) and t[0] == "K"}


def holds(facts, x, value):
    """may the path be taken when x has this value?  None: unknown"""
    rel = [(t, b) for t, b in facts.items() if isinstance(t, tuple) and mentions(t, x)]
    rel.sort(key=lambda p: 0 if p[0][:2] == ("A", "is") else 1)
    for t, b in rel:
        if t[:2] == ("A", "isinstance"):
            if value is None and b:
                return False
            continue
        try:
            got = bool(point(t, {x: value}))
        except Unknown:
            return None
        if got != b:
            return False
    return True


def key_of(x):
    """the constant key a value is read with"""
    if x[:2] == ("A", "get") and len(x) >= 4:
        return const(x[3])
    if x[0] == "A" and x[1] in ("item", "idx", "index", "getitem") and len(x) >= 4:
        return const(x[3])
    return None


def leaf(v):
    while isinstance(v, tuple) and v[0] == "A" and v[1] in ("float", "int") and len(v) == 3:
        v = v[2]
    return v


def name_text(v):
    return "".join(str(const(t)) for t in subterms(v) if isinstance(t, tuple) and t[0] == "K" and isinstance(t[2], str))


def no_data(c, R, names=False):
    """names: only whether each value is exported under the name of what it was computed from"""
    f = c.p.function("translate_gathered_stats")
    if f is None:
        c.undecided(R, "translate_gathered_stats", "not found")
        return
    seen, todo, found = {f.qual}, [f], {}
    while todo:
        g = todo.pop()
        it = c.interp()
        for st, k, v in c.run(it, g, R):
            if k == "raise":
                continue
            for e in evs(st, "yield"):
                a = e.args[0]
                if a[:2] == ("A", "gen"):
                    texts = {const(x) for x in a[4:] if isinstance(const(x), str)}
                    reads = {const(t) for x in a[4:] for t in subterms(x) if isinstance(t, tuple) and t[0] == "K" and isinstance(t[2], str)} - texts
                    for what in ("buffered_endpoint", "buffered_sender"):
                        if any(what in t for t in texts) and reads and not any(what in t for t in reads):
                            c.bad(R, g.qual, f"the metrics {sorted(texts)[0]} are computed from {sorted(reads)[0]}", st, k)
                        elif any(what in t for t in texts):
                            c.ok(R, 1, f"{what}")
                    h = c.p.by_qual(a[2]) if hasattr(c.p, "by_qual") else next((x for x in c.p.funcs if x.qual == a[2]), None)
                    if h is not None and h.qual not in seen:
                        seen.add(h.qual)
                        todo.append(h)
                    continue
                if a[0] != "T" or len(a) < 3:
                    continue
                x = leaf(a[2])
                key = key_of(x)
                if not isinstance(key, str):
                    continue
                name = name_text(a[1])
                named = [q for q in KEYS if q in name]
                if key in KEYS and named and key not in named:
                    c.bad(R, g.qual, f"the metric ...{name} is computed from {key}", st, k)
                    continue
                if names:
                    if key in KEYS and named:
                        c.ok(R, 1, f"{name} from {key}")
                    continue
                r = found.setdefault((g.qual, key, name), {"zero": False, "unknown": False, "bad": None, "st": (st, k)})
                facts = st.facts
                n = holds(facts, x, None)
                m = holds(facts, x, -1) if key in NODATA else False
                z = holds(facts, x, 0)
                if None in (n, m, z):
                    r["unknown"] = True
                if x[:2] == ("A", "get") and len(x) > 4 and isinstance(const(x[4]), (int, float)):
                    r["bad"] = (f"an absent {key} is reported as {const(x[4])}", st, k)
                if n:
                    r["bad"] = (f"an absent {key} is reported as a measurement", st, k)
                if m:
                    r["bad"] = (f"{key} -1, which means there is no data, is reported as a measurement", st, k)
                if z:
                    r["zero"] = True
                labels = st.objs.get(a[3][1]) if len(a) > 3 and a[3][0] == "O" else None
                if labels and labels["kind"] == "dict" and isinstance(labels["items"], dict):
                    d = {const(q): w for q, w in labels["items"].items()}
                    own = elems(x)
                    if "group" in d and "endpoint" in d and len(own) >= 2:
                        if not any(o in elems(d["endpoint"]) or d["endpoint"] == o for o in own) or d["group"] == d["endpoint"]:
                            r["bad"] = (f"{key} is reported under the name of another endpoint", st, k)
                    if "service" in d and "instance" in d and d["service"] == d["instance"]:
                        r["bad"] = ("service and instance labels are the same value", st, k)
    for (site, key, name), r in sorted(found.items()):
        if r["bad"]:
            c.bad(R, site, r["bad"][0], *r["bad"][1:])
        elif r["unknown"]:
            c.undecided(R, site, f"conditions on {key} not recognised")
        elif not r["zero"]:
            c.bad(R, site, f"{key} of 0, which is a measurement, is not reported", *r["st"])
        else:
            c.ok(R, 1, f"{site}: {key}")


def discovery(c, R):
    f = c.p.function("discover_local_services")
    if f is None:
        c.undecided(R, "discover_local_services", "not found")
        return

    def raises(ev, it):
        t = tail(ev)
        if t in ("gethostbyname", "gethostname", "getaddrinfo", "gethostbyname_ex"):
            return ("OSError",)
        if t == "int":
            return ("ValueError",)
        return ()
    it = c.interp(may_raise=raises)
    outs = c.run(it, f, R)
    entries(c, R, f, outs)
    for st, k, v in outs:
        site = f.qual
        news = [e for e in evs(st, "new") if e.label.split(".")[-1] == "DiscoveredService"]
        el = [t for e in evs(st, "loop") for t in [e] if "environ" in repr(e)]
        if k == "raise":
            last = [e for e in evs(st, "call", "pure") if tail(e) == "int" and e.args]
            if last and any(b and t[0] == "A" and str(t[1]).split(".")[-1] in ("isdigit", "isdecimal", "isnumeric", "match", "fullmatch") and mentions(t, last[-1].args[0])
                            for t, b in st.facts.items()):
                continue                                       # a number, asked for beforehand
            c.bad(R, site, f"one entry of the environment ends the discovery of all services ({show(v)})", st, k)
            continue
        if k == "return":
            inner = [t for t in st.facts for x in elems(t) if "environ" in show(x)]
            if el and inner:
                c.bad(R, site, "one entry of the environment ends the discovery: the services after it are not monitored", st, k)
            continue
        # unguarded parts of a split value
        terms = [x for e in news for x in e.kw.values()] + [x for e in evs(st, "pure") for x in e.args if isinstance(x, tuple)]
        for t in [s for x in terms for s in subterms(x)]:
            if isinstance(t, tuple) and t[0] == "A" and t[1] in ("item", "idx", "index", "getitem") and len(t) >= 4 and const(t[3]) in (1, -1) and \
                    isinstance(t[2], tuple) and t[2][:2] in (("A", "rsplit"), ("A", "split")) and const(t[3]) == 1:
                src = t[2][2]
                known = [b for q, b in st.facts.items() if isinstance(q, tuple) and q[:2] == ("A", "in") and q[3] == src and len(t[2]) > 3 and q[2] == t[2][3]]
                guard = known != [False] and any(isinstance(u, tuple) and u[0] == "A" and (u[1] == "len" and u[2] == t[2] or u[1] in ("in", "count", "find", "rfind", "index", "endswith", "match")
                                                                      and any(w == src for w in u[2:])) for q in st.facts if isinstance(q, tuple) for u in subterms(q))
                if not guard:
                    c.bad(R, site, f"an entry without the separator {show(t[2][3]) if len(t[2]) > 3 else ''} ends the discovery of all services", st, k)
        for e in news:
            kw = e.kw
            proto = const(kw.get("protocol", NONE)) if kw.get("protocol") else None
            if proto is None:
                c.undecided(R, site, "protocol not recognised")
                continue
            pre = [const(t[3]) for t, b in st.facts.items() if b and isinstance(t, tuple) and t[:2] == ("A", "startswith") and len(t) > 3 and const(t[3])]
            if pre and any(p.rstrip("_").upper() in ("TCP", "UDP", "UDS") for p in pre) and not any(p.rstrip("_").lower() == proto for p in pre):
                c.bad(R, site, f"an entry {pre[-1]}... is monitored over {proto}", st, k)
                continue
            entry = [t for t in (x for e2 in evs(st, "loop") for x in [e2.info.get("coll")] if x is not None) if "environ" in show(t)]
            named = [(t, b) for t, b in st.facts.items() if isinstance(t, tuple) and t[:2] == ("A", "startswith") and len(t) > 3]
            no = [const(t[3]) for t, b in named if not b and isinstance(const(t[3]), str)]
            ruled = [q for q in no if q.rstrip("_").lower() == proto or q.rstrip("_").upper() == "ECOENV"]
            if entry and ruled and not (pre and any(q in pre for q in ruled)) and not any(b and q in t[3][1:] for t, b in named if t[3][0] == "T" for q in [K(ruled[0])]):
                c.bad(R, site, f"an entry that does not begin with {ruled[0]} is taken for a {proto} service", st, k)
                continue
            if proto == "uds":
                path = kw.get("path")
                if path is None or path == NONE:
                    c.bad(R, site, "a service on a UDS socket is monitored without its path", st, k)
                    continue
                if path[:2] == ("A", "item") or path[:1] == ("A",) and elems(path) and path[1] in ("item", "idx", "index", "getitem"):
                    asked = [(t, b) for t, b in st.facts.items() if isinstance(t, tuple) and mentions(t, path) and "DEFAULT" in show(t)]
                    if not asked or len(asked) == 1 and asked[0][1] and (asked[0][0][:2] == ("A", "eq") or asked[0][0][1] == "endswith"):
                        c.bad(R, site, "a service that uses the default socket is monitored at a path that it does not listen on", st, k)
                        continue
                c.ok(R, 1, "uds")
            else:
                h, p = kw.get("host"), kw.get("port")
                if h is None or p is None or h == NONE or p == NONE:
                    c.bad(R, site, f"a service on {proto} is monitored without its address", st, k)
                    continue
                hi, pi = [const(t[3]) for t in subterms(h) if isinstance(t, tuple) and t[0] == "A" and len(t) > 3 and isinstance(t[2], tuple) and t[2][0] == "A" and t[2][1] in ("rsplit", "split", "rpartition", "partition")], \
                    [const(t[3]) for t in subterms(p) if isinstance(t, tuple) and t[0] == "A" and len(t) > 3 and isinstance(t[2], tuple) and t[2][0] == "A" and t[2][1] in ("rsplit", "split", "rpartition", "partition")]
                if hi and pi and hi[0] == pi[0]:
                    c.bad(R, site, "host and port are the same part of the entry", st, k)
                    continue
                c.ok(R, 1, proto)


def each_protocol(c, R, f, outs):
    """a service of each kind is polled with a client of that kind"""
    made = lambda st: [p for p in ("UDP", "TCP", "UDS") for e in evs(st, "new") if e.label.split(".")[-1].endswith(p + "Client")]
    if not any(made(st) for st, k, v in outs):
        return
    xs = {t for st, k, v in outs for q in st.facts for t in subterms(q) if isinstance(t, tuple) and t[0] == "A" and last_attr(t) == "protocol"}
    if len(xs) != 1:
        c.undecided(R, f.qual, "how the kind of client is chosen was not recognised")
        return
    x = next(iter(xs))
    for proto in ("udp", "tcp", "uds"):
        for st, k, v in outs:
            r = holds(st.facts, x, proto)
            if r is None:
                c.undecided(R, f.qual, "how the kind of client is chosen was not recognised")
            elif r and k == "return" and v == NONE and not made(st):
                c.bad(R, f.qual, f"a {proto} service is not polled", st, k)
            elif r and made(st) and made(st) != [proto.upper()]:
                c.bad(R, f.qual, f"a {proto} service is polled over {made(st)[0]}", st, k)
            elif r:
                c.ok(R, 1, f"{f.qual}: {proto} when {proto}")


SERVICES = (
    ("ECOENV_TCP_ROUTER_0", "127.0.0.1:8888", {"name": "router", "instance": "0", "protocol": "tcp", "host": "127.0.0.1", "port": 8888}),
    ("ECOENV_UDP_MAGIC_EIGHT_BALL_2", "localhost:8101", {"name": "magic_eight_ball", "instance": "2", "protocol": "udp", "host": "localhost", "port": 8101}),
    ("ECOENV_TCP_TCP_UDP_31", "0.0.0.0:90", {"name": "tcp_udp", "instance": "31", "protocol": "tcp", "host": "0.0.0.0", "port": 90}),
    ("ECOENV_UDS_TRACKER_1", "/tmp/run/tracker.sock", {"name": "tracker", "instance": "1", "protocol": "uds", "path": "/tmp/run/tracker.sock"}),
    ("ECOENV_UDS_MY_TCP_GATE_1", "/tmp/run:x/gate.sock", {"name": "my_tcp_gate", "instance": "1", "protocol": "uds", "path": "/tmp/run:x/gate.sock"}),
    ("ECOENV_UDS_TWO_WORDS_1", "/tmp/run/DEFAULT", {"name": "two_words", "instance": "1", "protocol": "uds", "path": "/tmp/run/two_words_1.uds.sock"}),
)


def entries(c, R, f, outs):
    """what is found for an entry, by folding the conditions and the fields of each path for entries of every form"""
    for key, value, want in SERVICES:
        found, lost, vague = [], None, False
        for st, k, v in outs:
            if k != "cut":
                continue
            loops = [e for e in evs(st, "loop") if e.info.get("coll") is not None and "environ" in show(e.info["coll"])]
            if not loops:
                continue
            el = {t for e in st.trace for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple) for t in subterms(a) if isinstance(t, tuple) and t[:2] == ("A", "elem")}
            el |= {t for a in st.facts for t in subterms(a) if isinstance(t, tuple) and t[:2] == ("A", "elem")}
            el = {t for t in el if "environ" in show(t)}
            if not el:
                vague = True
                continue
            env = {}
            for t in el:
                env[t] = (key, value)
            sure, no = True, False
            for i, e in enumerate(st.trace):
                if e.kind in ("call", "pure") and tail(e) == "int" and e.args and e.res is not None:
                    try:
                        env[e.res] = int(folded(e.args[0], env))
                    except (Unknown, ValueError, TypeError):
                        continue
                    if i + 1 < len(st.trace) and st.trace[i + 1].kind in ("raise", "caught"):
                        no = True                      # a number, read without a failure
            for t, b in st.facts.items():
                try:
                    if bool(folded(t, env)) != b:
                        no = True
                        break
                except Unknown:
                    if t[:2] == ("A", "is"):
                        continue
                    try:
                        if t[:2] == ("A", "in") and folded(t[2], env) == "127.0.0.1":
                            if not b:                  # this host's own address is a local one
                                no = True
                                break
                            continue
                    except Unknown:
                        pass
                    sure = False
            if no:
                continue
            news = [e for e in evs(st, "new") if e.label.split(".")[-1] == "DiscoveredService"]
            if not news:
                if sure and not [e for e in evs(st, "raise") if e.n > loops[0].n]:
                    lost = (st, k)
                else:
                    vague = True
                continue
            got = {}
            for n in want:
                try:
                    got[n] = folded(news[0].kw[n], env)
                except OutOfRange:
                    got[n] = f"nothing ({show(news[0].kw[n])[-40:]})"
                except (Unknown, KeyError):
                    pass
            wrong = [n for n in got if got[n] != want[n]]
            if wrong and sure:
                c.bad(R, news[0].loc, f"the service {key}={value} is monitored with the {wrong[0]} {got[wrong[0]]!r} instead of {want[wrong[0]]!r}", st, k)
            elif wrong:
                found.append(("wrong", news[0], wrong[0], got[wrong[0]], st, k))
            else:
                found.append(("ok", news[0], None, None, st, k))
        good = [x for x in found if x[0] == "ok"]
        if good:
            c.ok(R, 1, f"{key}={value}: found")
        elif found:
            _, e, n, g, st, k = found[0]
            c.bad(R, e.loc, f"the service {key}={value} is monitored with the {n} {g!r} instead of {want[n]!r}", st, k)
        elif lost is not None and not vague:
            c.bad(R, f.qual, f"the service {key}={value} is not found", *lost)


def client(c, R):
    """the client polls over the protocol and at the address of the service"""
    cls = c.cls("EkosisPrometheusScraper")
    makers = [f for f in c.p.funcs if f.module is cls.module and any(getattr(a, "annotation", None) is not None and "DiscoveredService" in ast.dump(a.annotation)
                                                                      for a in f.node.args.args) and f.cls is None]
    n = 0
    for f in makers:
        it = c.interp()
        outs = c.run(it, f, R)
        each_protocol(c, R, f, outs)
        for st, k, v in outs:
            for e in evs(st, "new"):
                name = e.label.split(".")[-1]
                proto = next((p for p in ("UDP", "TCP", "UDS") if p in name), None)
                if proto is None or not name.endswith("Client"):
                    continue
                is_ = [const(t[3]) if const(t[3]) else const(t[2]) for t, b in st.facts.items() if b and isinstance(t, tuple) and t[:2] == ("A", "eq") and "protocol" in show(t)]
                if len(is_) == 1 and isinstance(is_[0], str) and is_[0].lower() in ("udp", "tcp", "uds") and is_[0].lower() != proto.lower():
                    c.bad(R, f.qual, f"a {is_[0]} service is polled over {proto}", st, k)
                    continue
                among = [t for t, b in st.facts.items() if b and isinstance(t, tuple) and t[:2] == ("A", "in") and last_attr(t[2]) == "protocol" and t[3][0] == "T"]
                isnt = {const(x) for t, b in st.facts.items() if not b and isinstance(t, tuple) and t[:2] == ("A", "eq") and "protocol" in show(t) for x in t[2:]}
                others = {const(x) for t in among for x in t[3][1:]} - isnt - {proto.lower()}
                if not is_ and others and others <= {"udp", "tcp", "uds"}:
                    c.bad(R, f.qual, f"a {sorted(others)[0]} service is polled over {proto}", st, k)
                    continue
                wrong = None
                for p, want in (("server_host", "host"), ("server_port", "port"), ("server_path", "path")):
                    if p in e.kw and last_attr(e.kw[p]) in ("host", "port", "path", "name", "instance", "protocol") and last_attr(e.kw[p]) != want:
                        wrong = f"{p} is the {last_attr(e.kw[p])} of the service"
                if wrong:
                    c.bad(R, f.qual, f"{proto}: {wrong}", st, k)
                    continue
                n += 1
                c.ok(R, 1, f"{f.qual}: {proto}")
    routes = endpoints(c)
    for s in [x for x in c.p.classes.values() if x.module is cls.module and c.p.is_subclass(x, "SenderBase")]:
        for st, k, v in c.run(c.interp(opaque=lambda x: getattr(x, "name", "") == "send_data" or getattr(getattr(x, "cls", None), "name", "") == "SenderBase"), s.methods["__init__"], R) if "__init__" in s.methods else []:
            for e in st.trace:
                if e.kind in ("opaque", "call") and tail(e) == "__init__":
                    r = [const(x) for x in list(e.args) + list(e.kw.values()) if isinstance(const(x), str)]
                    if r and r[0] not in routes:
                        c.bad(R, s.qual, f"statistics are requested from {r[0]}, which is no endpoint", st, k)
                    elif r:
                        c.ok(R, 1, f"route {r[0]}")
        m = s.methods.get("get_gathered")
        if m is None:
            continue
        for st, k, v in c.run(c.interp(opaque=lambda x: getattr(x, "name", "") == "send_data"), m, R):
            for e in evs(st, "new"):
                if e.label.split(".")[-1] == "StatsRequestDto" and const(e.kw.get("type", NONE)) is not None:
                    if const(e.kw["type"]) != "gathered":
                        c.bad(R, m.qual, f"the {const(e.kw['type'])} statistics are requested, not the gathered ones", st, k)
                    else:
                        c.ok(R, 1, "type gathered")


def check_C29(c):
    RI, RN, RD, RC, RP = "isolation", "no-data", "discovery", "client", "pushed"
    c.rule(RI, "no failure of a poll, of a translation or of the push leaves the polling loop; a failed poll marks that service down and goes on with the next "
               "service of the same round; a service that answers is marked up", 4)
    c.rule(RN, "no path reports a value that is absent, or a p95/p99 of -1; 0 is reported; each metric is computed from the statistic it is named after", 6)
    c.rule(RD, "no entry of the environment ends the discovery of the others, and every service found is addressed over its protocol", 4)
    c.rule(RC, "each service is polled over its protocol at its address, for the gathered statistics of the statistics endpoint", 4)
    c.rule(RP, "every round is pushed, and every metric of the round is put into the registry that is pushed in that round", 2)
    isolation(c, RI)
    pushed(c, RP)
    no_data(c, RN)
    discovery(c, RD)
    client(c, RC)


# ---------------------------------------------------------------------------------------------------------------- C41
ENDPOINT_KEYS, SIZE_KEYS, SCALARS = ("call_count", "p95", "p99"), ("pending", "error"), ("uptime", "gather_period")
SOURCES = ("buffered_endpoint_sizes", "buffered_sender_sizes")


def generators(c, R, f):
    """the function and the generators it hands on: (function, interp, outcomes)"""
    seen, todo = {f.qual}, [f]
    while todo:
        g = todo.pop(0)
        it = c.interp()
        outs = c.run(it, g, R)
        yield g, it, outs
        for st, k, v in outs:
            for e in evs(st, "yield"):
                a = e.args[0]
                if a[:2] == ("A", "gen"):
                    h = next((x for x in c.p.funcs if x.qual == a[2]), None)
                    if h is not None and h.qual not in seen:
                        seen.add(h.qual)
                        todo.append(h)


def loop_ids(v):
    return {t[-1] for t in elems(v) if isinstance(t[-1], int)}


def excuse(facts, ids):
    """why a round over these elements may export nothing: True, False, or None when there is a reason that is not understood"""
    odd = False
    for t, b in facts.items():
        if not isinstance(t, tuple) or not (loop_ids(t) & ids):
            continue
        if t[:2] == ("A", "isinstance"):
            if not b:
                return True
        elif t[:2] == ("A", "in") and const(t[2]) in KEYS:
            continue
        elif t[:2] == ("A", "in"):
            if b and not any(key_of(x) in KEYS for x in subterms(t[2]) if isinstance(x, tuple)):
                return True
        elif not any(key_of(x) in KEYS for x in subterms(t) if isinstance(x, tuple)):
            odd = True
    return None if odd else False


def exported(c, R, RL):
    f = c.p.function("translate_gathered_stats")
    if f is None:
        c.undecided(R, "translate_gathered_stats", "not found")
        return
    done = set()
    handed = {}
    visited = []
    for g, it, outs in generators(c, R, f):
        visited.append((g, it, outs))
        where = {}                       # key -> place of the innermost loop in which it is exported (None: in no loop)
        nest = {}                        # place of a loop -> place of the loop around it
        for st, k, v in outs:
            at = {e.info["id"]: e.loc for e in evs(st, "loop")}
            for e in evs(st, "yield"):
                a = e.args[0]
                if a[:2] == ("A", "gen"):
                    for s in SOURCES:
                        if any(const(t) == s for x in a[4:] for t in subterms(x) if isinstance(t, tuple)):
                            handed.setdefault(s, True)
                    continue
                if a[0] != "T" or len(a) < 4:
                    continue
                x = leaf(a[2])
                key = key_of(x)
                if key not in KEYS:
                    continue
                ls = [l.loc for l in evs(st, "loop") if l.info["id"] in loop_ids(x) and l.n < e.n]
                where.setdefault(key, set()).add(ls[-1] if ls else None)
                for a1, b1 in zip([None] + ls, ls):
                    nest[b1] = a1
                labels_of(c, RL, g, st, k, e, x, key)
        done |= set(where)
        if len([1 for w in where.values() if len(w) > 1]):
            c.undecided(R, g.qual, "a statistic is exported in several places")
            continue

        def start(st, loc):
            return max([l.n for l in evs(st, "loop") if l.loc == loc], default=-1)
        # ---- each statistic, in each round
        for key, ls in where.items():
            loc = next(iter(ls))
            for st, k, v in outs:
                if k == "raise" or (k != "return" if loc is None else not (k == "cut" and v["loc"] == loc)):
                    continue
                n0 = start(st, loc) if loc else -1
                ys = [e for e in evs(st, "yield") if e.n > n0 and e.args[0][0] == "T" and len(e.args[0]) > 2 and key_of(leaf(e.args[0][2])) == key]
                if len({e.args[0][1] for e in ys}) < len(ys):
                    c.bad(R, g.qual, f"{key} is exported twice under one name", st, k)
                    continue
                if ys:
                    c.ok(R, 1, f"{g.qual}: {key}")
                    continue
                ids = {v["loop"]} if loc else set()
                xs = {t for y in list(st.facts) for t in subterms(y) if isinstance(t, tuple) and key_of(t) == key and (not ids or loop_ids(t) & ids)}
                ex = excuse(st.facts, ids) if ids else False
                if any(t[:2] == ("A", "in") and const(t[2]) == key and not b and (not ids or loop_ids(t) & ids) for t, b in st.facts.items()):
                    c.ok(R)
                elif xs:
                    hs = [holds(st.facts, x, 5) for x in xs]
                    if any(h is False for h in hs) or ex:
                        c.ok(R)
                    elif None in hs or ex is None:
                        c.undecided(R, g.qual, f"conditions on {key} not recognised")
                    else:
                        c.bad(R, g.qual, f"{key} is there and is not exported", st, k)
                elif ex:
                    c.ok(R)
                elif ex is None or not ids:
                    c.undecided(R, g.qual, f"when {key} is exported was not recognised")
                else:
                    c.bad(R, g.qual, f"{key} of an endpoint is left out", st, k)
        # ---- each group, in each round, and no round ends the others
        for inner, outer in nest.items():
            for st, k, v in outs:
                if outer is not None and k == "cut" and v["loc"] == outer:
                    if any(l.loc == inner and l.n > start(st, outer) for l in evs(st, "loop")):
                        c.ok(R)
                    else:
                        ex = excuse(st.facts, {v["loop"]})
                        if ex:
                            c.ok(R)
                        elif ex is None:
                            c.undecided(R, g.qual, "which groups are left out was not recognised")
                        else:
                            c.bad(R, g.qual, "the endpoints of a group are left out", st, k)
                elif k == "return":
                    mine = [l for l in evs(st, "loop") if l.loc == inner]
                    left = [e for e in evs(st, "break") if e.loc and mine and e.n > mine[0].n]
                    ids = {l.info["id"] for l in mine}
                    out_of = [t for t in st.facts if loop_ids(t) & ids]
                    if mine and outer is None and (left or out_of):
                        c.bad(R, g.qual, "one group ends the export of the groups after it", st, k)
                    elif mine and outer is not None and out_of:
                        c.bad(R, g.qual, "one endpoint ends the export of the endpoints after it", st, k)
                    elif outer is None and not mine:
                        loops = [l for s2, _, _ in outs for l in evs(s2, "loop") if l.loc == inner]
                        base = {t for l in loops for a in l.args if isinstance(a, tuple) for t in subterms(a) if isinstance(t, tuple) and t[0] == "A" and t[1] in ("get", "item")}
                        if any(mentions(t, x) for t in st.facts for x in base) or not base:
                            c.undecided(R, g.qual, "when the groups are gone through was not recognised")
                        else:
                            c.bad(R, g.qual, "the groups are not gone through", st, k)
                    else:
                        c.ok(R)
        # ---- what is handed on is handed on always
        if g is f:
            for s in SOURCES:
                if s not in handed:
                    continue
                for st, k, v in outs:
                    if k != "return":
                        continue
                    ys = [e for e in evs(st, "yield") if e.args[0][:2] == ("A", "gen") and any(const(t) == s for x in e.args[0][4:] for t in subterms(x) if isinstance(t, tuple))]
                    if len(ys) == 1:
                        c.ok(R, 1, s)
                    elif len(ys) > 1:
                        c.undecided(R, g.qual, f"{s} is handed on several times")
                    elif any(const(t) == s for y in st.facts for t in subterms(y) if isinstance(t, tuple)):
                        c.undecided(R, g.qual, f"when {s} is exported was not recognised")
                    else:
                        c.bad(R, g.qual, f"{s} is not exported", st, k)
    for g, it, outs in visited:
        guarded(c, R, g, outs)
        excluded(c, R, g, outs, g is f)
    odd = [g for g, it, outs in visited if unknown_yields(c, outs)]
    lost = [q for q in KEYS if q not in done]
    read = {const(t) for g, it, outs in visited for st, k, v in outs for x in loop_colls(st) + [e.args[0] for e in evs(st, "yield")] for t in subterms(x)
            if isinstance(t, tuple) and t[0] == "K"}
    if done and not odd:
        for q in lost + [s for s in SOURCES if s not in read]:
            c.bad(R, f.qual, f"{q} is not exported")
    elif lost:
        c.undecided(R, f.qual, f"where {', '.join(lost)} is exported was not recognised")
    custom(c, R, f, next((o for g, it, o in visited if g is f), []), bool(odd))


def loop_colls(st):
    return [e.info["coll"] for e in evs(st, "loop") if e.info.get("coll") is not None]


def unknown_yields(c, outs):
    for st, k, v in outs:
        for e in evs(st, "yield"):
            a = e.args[0]
            if a[:2] == ("A", "gen"):
                if not any(x.qual == a[2] for x in c.p.funcs):
                    return True
            elif a[0] != "T" or len(a) < 3:
                return True
            elif key_of(leaf(a[2])) not in KEYS and not any(t[:2] == ("A", "gen") for t in subterms(a[2]) if isinstance(t, tuple)):
                return True
    return False


def has(g, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(g.node))


def value_of_round(x, lid):
    """x is the value under the key of this round: coll[each(keys(coll))]"""
    return isinstance(x, tuple) and x[:2] == ("A", "item") and len(x) > 3 and x[3][:2] == ("A", "elem") and x[3][-1] == lid


def guarded(c, R, g, outs):
    """what stands where a group or an endpoint should be is looked into only when it is one"""
    for st, k, v in outs:
        terms = list(st.facts) + [e.args[0] for e in evs(st, "yield")] + loop_colls(st)
        ids = {e.info["id"] for e in evs(st, "loop")}
        for t in {t for y in terms for t in subterms(y) if isinstance(t, tuple) and len(t) > 2 and t[0] == "A" and t[1] in ("get", "items", "keys", "values")}:
            x = t[2]
            if not any(value_of_round(x, i) for i in ids):
                continue
            about = [(y, b) for y, b in st.facts.items() if mentions(y, x) and not any(mentions(y, A(m, x)) or any(z[:3] == ("A", m, x) for z in subterms(y)
                     if isinstance(z, tuple)) for m in ("get", "items", "keys", "values", "item"))]
            is_d = [b for y, b in about if y[:2] == ("A", "isinstance") and y[2] == x]
            if True in is_d:
                c.ok(R, 1, f"{g.qual}: {show(x)[:60]} is a group or an endpoint")
            elif has(g, ast.Try):
                c.undecided(R, g.qual, "what happens to a malformed group or endpoint was not recognised")
            elif False in is_d:
                c.bad(R, g.qual, "what is no group or endpoint is looked into like one, which ends the export of all the others", st, k)
            elif about or has(g, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda):
                c.undecided(R, g.qual, "how a malformed group or endpoint is recognised was not understood")
            else:
                c.bad(R, g.qual, "a group or endpoint is looked into whatever it is: a malformed one ends the export of all the others", st, k)


def excluded(c, R, g, outs, outermost):
    for st, k, v in outs:
        ns = [t for t in st.facts if t[:2] == ("A", "in") and t[2][:2] == ("A", "elem") and isinstance(t[2][-1], int)]
        nothing = any(t[:2] == ("A", "is") and NONE in t[2:] and any(x[0] == "S" and "exclude" in x[1] for x in t[2:]) and b for t, b in st.facts.items())
        for t in ns:
            if t[3] == NONE or nothing and t[3][0] == "S" and "exclude" in t[3][1]:
                c.bad(R, g.qual, "without groups to exclude the export ends in a TypeError", st, k)
            given = [x for x in st.facts if x[0] == "S" and "exclude" in x[1]]
            if given and not nothing and not any(x[:2] == ("A", "is") and NONE in x[2:] and given[0] in x[2:] for x in st.facts) and st.facts[given[0]] is False \
                    and t[3] != given[0] and not any(x[:2] in (("A", "eq"), ("A", "isinstance")) and mentions(x, given[0]) for x in st.facts):
                c.bad(R, g.qual, "an empty set of groups to exclude is taken for none given", st, k)
        ids = {e.info["id"]: e for e in evs(st, "loop")}
        for e in evs(st, "yield"):
            a = e.args[0]
            key = key_of(leaf(a[2])) if a[0] == "T" and len(a) > 2 else None
            if key not in ENDPOINT_KEYS + SIZE_KEYS:
                continue
            lid = [l for l in ids if l in loop_ids(leaf(a[2]))]
            if len(lid) != 2:
                c.undecided(R, g.qual, "the groups were not recognised")
                continue
            about = [(t, b) for t, b in st.facts.items() if any(isinstance(x, tuple) and x[:2] == ("A", "elem") and x[-1] == lid[0] for x in t[1:])]
            ins = [b for t, b in about if t in ns]
            if ins and all(b is False for b in ins):
                c.ok(R, 1, f"{g.qual}: {key} of a group that is not excluded")
            elif True in ins:
                c.bad(R, g.qual, f"{key} of an excluded group is exported", st, k)
            elif about or has(g, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda):
                c.undecided(R, g.qual, "which groups are excluded was not recognised")
            else:
                c.bad(R, g.qual, f"{key} of an excluded group is exported", st, k)


def custom(c, R, f, outs, odd):
    """the values a service reports under names of its own"""
    stats = f.node.args.args[0].arg
    rounds = used = False
    inner = set()
    for st, k, v in outs:
        if k != "cut":
            continue
        l = next((e for e in evs(st, "loop") if e.loc == v["loc"] and e.info["id"] == v["loop"]), None)
        coll = l.info.get("coll") if l is not None else None
        if coll is None:
            continue
        if not (coll[0] == "A" and coll[1] in ("items", "keys", "enumerate") and coll[2][:2] == ("S", stats) or coll[:2] == ("S", stats)):
            continue
        rounds = True
        went = [e for e in evs(st, "loop", "yield") if e.n > l.n and any(v["loop"] in loop_ids(x) for x in [e.info.get("coll") if e.kind == "loop" else e.args[0]]
                                                                         if x is not None)]
        for e in went:
            for t in subterms(e.info["coll"] if e.kind == "loop" else e.args[0]):
                if isinstance(t, tuple) and t[:2] == ("A", "gen"):
                    inner.add(t[2])
        ins = [t for t in st.facts if t[:2] == ("A", "in") and t[2][:2] == ("A", "elem") and t[2][-1] == v["loop"]]
        known = [st.facts[t] for t in ins]
        about = [t for t in st.facts if v["loop"] in loop_ids(t)]
        used = used or bool(went)
        if went and True in known:
            c.bad(R, f.qual, "a statistic that is exported under its own name is exported as one of the service's own", st, k)
        elif went or True in known:
            c.ok(R, 1, "custom values")
        elif not any(t[:2] != ("A", "isinstance") or not value_of_round(t[2], v["loop"]) for t in about if t not in ins) and \
                any(may_be(st.facts, t[2], n) for t in about if t not in ins for n in ("dict", "int", "float")):
            c.bad(R, f.qual, "some of the values a service reports under names of its own are not exported", st, k)
        elif len(about) > len(known):
            c.undecided(R, f.qual, "which custom values are left out was not recognised")
        else:
            c.bad(R, f.qual, "the values a service reports under names of its own are not exported", st, k)
    for st, k, v in outs:
        for e in evs(st, "yield"):
            a = e.args[0]
            if a[0] == "T" and len(a) > 2 and any(t[:2] == ("A", "gen") for t in subterms(a[2]) if isinstance(t, tuple)):
                used = "yield"
    if rounds and used is True and not odd and not any(e.args[0][:2] == ("A", "gen") and e.args[0][2] in inner for st, k, v in outs for e in evs(st, "yield")):
        c.bad(R, f.qual, "the values a service reports under names of its own are not exported")
    elif not rounds:
        c.undecided(R, f.qual, "where custom values are exported was not recognised")
    for q in sorted(inner):
        h = next((x for x in c.p.funcs if x.qual == q), None)
        if h is not None and len(h.node.args.args) > 1:
            flattened(c, R, h)


def may_be(facts, x, name):
    """may x be of this type on a path with these facts?  Only the tests of its type count."""
    for t, b in facts.items():
        if t[:2] == ("A", "isinstance") and t[2] == x and mentions_type(t[3], name) is not b:
            return False
    return True


def flattened(c, R, h):
    """every number in a custom value is exported, however deep it lies"""
    it = c.interp()
    x, pre = h.node.args.args[0].arg, h.node.args.args[1].arg
    for st, k, v in c.run(it, h, R):
        if k == "raise":
            continue
        ys, ls = evs(st, "yield"), evs(st, "loop")
        me = next((t for f in st.facts for t in subterms(f) if isinstance(t, tuple) and t[:2] == ("S", x)), ("S", x, None))
        other = [t for t in st.facts if not (t[:2] == ("A", "isinstance") and (t[2] == me or any(value_of_round(t[2], l.info["id"]) for l in ls)))
                 and any(y[:2] == ("S", x) or y[:2] == ("A", "elem") for y in subterms(t) if isinstance(y, tuple))]
        tested = any(t[:2] == ("A", "isinstance") and t[2] == me for t in st.facts)
        if k == "cut" and v["loc"] in [l.loc for l in ls]:
            l = next(l for l in ls if l.loc == v["loc"])
            val = [t[2] for t in st.facts if t[:2] == ("A", "isinstance") and value_of_round(t[2], l.info["id"])]
            did = [e for e in ys + ls if e.n > l.n]
            if not did and other:
                c.undecided(R, h.qual, "which values inside a custom value are left out was not recognised")
            elif not did and not may_be(st.facts, me, "dict"):
                c.ok(R)
            elif not did and any(not val or may_be(st.facts, val[0], n) for n in ("dict", "int", "float")):
                c.bad(R, h.qual, "a value inside a custom value is not exported", st, k)
            else:
                c.ok(R, 1, f"{h.qual}: values inside a value")
                for e in evs(st, "opaque"):
                    a = [w for w in e.kw.values() if isinstance(w, tuple)] + [w for w in e.args if isinstance(w, tuple)]
                    if e.n > l.n and any(y.args[0] == e.res for y in ys) and not any(mentions_s(w, pre) for w in a) and not any(mentions_s(f, pre) for f in st.facts):
                        c.bad(R, h.qual, "a value inside a custom value is exported without the name of what it lies in", st, k)
        elif k == "return" and tested and not other:
            brk = [t for t in st.facts if any(value_of_round(y, l.info["id"]) for l in ls for y in subterms(t) if isinstance(y, tuple))]
            if evs(st, "break") or brk:
                c.bad(R, h.qual, "one value inside a custom value ends the export of the others", st, k)
                continue
            kinds = [n for n in ("dict", "int", "float", "str") if may_be(st.facts, me, n)]
            if not ys and not ls:
                lost = [n for n in kinds if n != "str"]
                if lost:
                    c.bad(R, h.qual, f"a custom value that is {'an' if lost[0] == 'int' else 'a'} {lost[0]} is not exported", st, k)
                else:
                    c.ok(R)
            elif ys and not ls and "str" in kinds:
                c.bad(R, h.qual, "what is no number is exported as one", st, k)
            else:
                c.ok(R, 1, f"{h.qual}: {'/'.join(kinds)}")


def mentions_s(t, name):
    return any(isinstance(y, tuple) and y[:2] == ("S", name) for y in subterms(t))


def mentions_type(t, name):
    return any(isinstance(y, tuple) and any(isinstance(z, str) and z.split(":")[-1].split(".")[-1] == name for z in y) for y in subterms(t)) if isinstance(t, tuple) else False


def labels_of(c, R, g, st, k, e, x, key):
    """the labels of an exported value name the service, group and endpoint it was reported for"""
    a = e.args[0]
    o = st.objs.get(a[3][1]) if a[3][0] == "O" else None
    if key not in SCALARS and a[3][0] == "S" and [y for y in evs(st, "mut", "setitem") if y.recv == a[3] and y.n < e.n]:
        c.bad(R, e.loc, f"the labels of {key} are put on those of the service, which all the metrics after it carry as well", st, k)
        return
    if not o or o["kind"] != "dict" or not isinstance(o["items"], dict):
        if key in SCALARS and a[3][0] == "S":
            return
        c.undecided(R, e.loc, "the labels were not recognised")
        return
    d = {const(q): w for q, w in o["items"].items()}
    if key not in SCALARS:
        src = x[2] if x[:2] in (("A", "get"), ("A", "item")) else None
        if not (src and src[:2] == ("A", "item") and src[2][:2] == ("A", "item")):
            c.undecided(R, e.loc, f"where {key} comes from was not recognised")
            return
        ke, kg = src[3], src[2][3]
        for name, want in (("group", kg), ("endpoint", ke)):
            got = d.get(name)
            if got is None:
                if o.get("rest") is None:
                    c.bad(R, e.loc, f"{key} is exported without its {name}", st, k)
                else:
                    c.undecided(R, e.loc, f"the label {name} was not recognised")
            elif got == want:
                c.ok(R, 1, f"{e.loc}: {name}")
            elif got in (ke, kg) or not loop_ids(got):
                c.bad(R, e.loc, f"{key} is exported under {show(got)[:60]} as its {name}", st, k)
            else:
                c.undecided(R, e.loc, f"the label {name} was not recognised")
    for name, want, other in (("service", "name", "instance"), ("instance", "instance", "name")):
        got = d.get(name)
        if got is None:
            if o.get("rest") is None:
                c.bad(R, e.loc, f"{key} is exported without the {name} of the service", st, k)
            continue
        ks = {key_of(t) for t in subterms(got) if isinstance(t, tuple)} - {None, "application"}
        if want in ks:
            c.ok(R)
        elif other in ks:
            c.bad(R, e.loc, f"the label {name} is the {other} of the service", st, k)
        else:
            ps = {t[1] for t in subterms(got) if isinstance(t, tuple) and t[0] == "S"}
            if got[0] == "S" and got[1] in ("service_name", "instance") and not any(q in attr_names(t) for t in st.facts for q in ("application", want)) \
                    and not has(g, ast.Try):
                c.bad(R, e.loc, f"the label {name} is not what the service calls itself", st, k)
                continue
            if ps and ps <= ({"instance"} if name == "service" else {"service_name"}):
                c.bad(R, e.loc, f"the label {name} is the {other} of the service", st, k)
            else:
                c.undecided(R, e.loc, f"the label {name} was not recognised")


def check_C41(c):
    R, RL = "exported", "labels"
    c.rule(R, "in every round over groups and endpoints each statistic that is there is exported, unless the group is excluded or what is there is no group or "
              "endpoint at all, and no group or endpoint ends the export of those after it", 30)
    c.rule(RL, "the labels of an exported value are the group and the endpoint it was found under, and the name and instance the service gave", 20)
    RN = "name"
    c.rule(RN, "a value is exported under the name of the statistic and of the kind of queue it was computed from", 6)
    exported(c, R, RL)
    no_data(c, RN, True)
