"""C34: tracing middleware: the span of a request, and the span of its processing after a queue."""
from rules.base import *
from rules.servers import tail

PARTS = ("trace_id", "span_id")


def params(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args][1:]


def annotations(f):
    a = f.node.args
    return [x.annotation for x in a.posonlyargs + a.args][1:]


def attr(v, *names):
    for n in names:
        v = A("attr", v, n)
    return v


def strip(v, key):
    """which parts of the key a term uses: {'all'}, {'trace_id'}, ..."""
    if v == key:
        return {"all"}
    if isinstance(v, tuple) and v[:2] == ("A", "attr") and v[2] == key and v[3] in PARTS:
        return {v[3]}
    out = set()
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                out |= strip(x, key)
    return out


def identifies(v, key):
    """True: the term stands for the whole key; False: for a part of it or for something else; None: unknown"""
    if v == key:
        return True
    s = strip(v, key)
    if "all" in s or set(PARTS) <= s:
        return None if not (isinstance(v, tuple) and v[0] in ("A", "T")) else True
    return False


ARITH = {"rshift", "lshift", "bitxor", "mult", "pow", "invert", "usub", "div", "add", "sub", "mul", "and", "or", "xor", "shl", "shr", "mod", "floordiv", "bitand", "bitor", "neg", "lin", "+", "-", "&", "|", "^", ">>", "<<", "%", "//", "binop"}
UUID_PARTS = {"time_low", "time_mid", "time_hi_version", "node", "clock_seq", "clock_seq_low", "clock_seq_hi_variant", "fields", "time", "version", "variant"}


def same_number(v, whole, accepted):
    """is v the number of this id?  whole: the id's term, accepted: terms that are its number"""
    if v in accepted:
        return True
    if v is None:
        return False
    if not any(mentions(v, a) for a in list(accepted) + [whole]):
        return False if v[0] in ("K", "A", "S") else None
    if v[0] == "L" or (v[0] == "A" and v[1] in ARITH):
        return False
    if v[:2] == ("A", "attr") and v[3] in UUID_PARTS:
        return False
    return None


def call_args(e, names):
    out = dict(zip(names, e.args))
    out.update(e.kw)
    return out


def span_contexts(st, v):
    seen = provenance(st, v)
    return [e for e in st.trace if e.kind in ("call", "new") and tail(e) == "SpanContext" and e.res in seen]


def starts(st):
    return [e for e in evs(st, "call") if tail(e) == "start_span"]


def other_start(st):
    return any(tail(e) in ("start_as_current_span", "use_span") for e in evs(st, "call"))


def check_start(c, R, f, st, k, key, number):
    """one span is started whose parent is in the trace of the key and whose number is as given; returns its event"""
    site = f.qual
    ss = starts(st)
    if other_start(st):
        c.undecided(R, site, "spans are started another way")
        return None
    if len(ss) != 1:
        c.bad(R, site, f"a request starts {len(ss)} spans", st, k)
        return None
    e = ss[0]
    a = call_args(e, ("name", "context"))
    ctx = a.get("context")
    if ctx is None or ctx == NONE:
        c.bad(R, site, "the span is started without a parent context: it does not belong to the trace of the key", st, k)
        return None
    ctxs = span_contexts(st, ctx)
    if len(ctxs) != 1:
        if not ctxs and not any(strip(t, key) for t in provenance(st, ctx)):
            c.bad(R, site, "the parent context of the span has nothing to do with the key of the request", st, k)
        else:
            c.undecided(R, site, "the parent context is built another way")
        return None
    x = call_args(ctxs[0], ("trace_id", "span_id", "is_remote", "trace_flags"))
    tid = attr(key, "trace_id")
    t = same_number(x.get("trace_id"), tid, [attr(tid, "int"), A("int", tid)])
    if t is False:
        c.bad(R, site, f"the span is put in the trace {show(x.get('trace_id')) if x.get('trace_id') else 'unset'}, not in that of the key", st, k)
        return None
    n = number(x.get("span_id"))
    if n is not None and n is not True:
        c.bad(R, site, n if isinstance(n, str) else f"the parent of the span is {show(x.get('span_id')) if x.get('span_id') else 'unset'}, not the span it continues", st, k)
        return None
    fl = x.get("trace_flags")
    if fl is None:
        c.bad(R, site, "the parent is not marked as sampled: the span is not recorded", st, k)
        return None
    seen = provenance(st, fl)
    sampled = any((s[:2] == ("A", "attr") and s[3] == "SAMPLED") or s == K(1) or (s[0] in ("S", "X") and str(s[1]).endswith("SAMPLED")) for s in seen)
    default = any((s[:2] == ("A", "attr") and s[3] in ("DEFAULT", "get_default")) or s == K(0) or (s[0] in ("S", "X") and "DEFAULT" in str(s[1])) for s in seen)
    if not sampled and default:
        c.bad(R, site, "the parent is not marked as sampled: the span is not recorded", st, k)
        return None
    if t is None or n is None or not sampled:
        c.undecided(R, site, "ids of the parent context are computed in a way the analysis does not know")
        return None
    return e


def stores(st, span):
    """(store, key) pairs under which the span is kept at the end of the path"""
    out = []
    for e in st.trace:
        if e.kind == "setitem" and len(e.args) >= 2 and e.args[1] == span:
            out.append((e.recv, e.args[0], e))
        elif e.kind == "mut" and tail(e) in ("setdefault", "update") and any(isinstance(a, tuple) and span in provenance(st, a) for a in list(e.args) + list(e.kw.values())):
            out.append((e.recv, e.args[0] if e.args else None, e))
    return out


def ended(st, span):
    return [e for e in evs(st, "call") if tail(e) == "end" and e.recv == span]


def check_stored(c, R, f, st, k, span, key, what):
    site = f.qual
    if ended(st, span):
        c.bad(R, site, f"the {what} is already ended when it starts", st, k)
        return None
    kept = stores(st, span)
    if not kept:
        c.bad(R, site, f"the {what} is not kept: it can never be ended", st, k)
        return None
    if len(kept) > 1:
        c.undecided(R, site, "the span is kept in several places")
        return None
    store, kk, e = kept[0]
    if e.kind == "mut":
        if tail(e) == "setdefault":
            c.bad(R, site, f"the {what} is dropped when another is kept under its key: it can never be ended", st, k)
        else:
            c.undecided(R, site, "span kept by update()")
        return None
    i = identifies(kk, key)
    if i is False:
        c.bad(R, site, f"the {what} is kept under {show(kk)}, which other requests share", st, k)
        return None
    if any(e2.kind in ("delitem",) and e2.recv == store and e2.n > e.n for e2 in st.trace) or any(e2.kind == "mut" and e2.recv == store and e2.n > e.n and tail(e2) in ("clear", "pop", "popitem") for e2 in st.trace):
        c.bad(R, site, f"the {what} is dropped again before it is ended", st, k)
        return None
    return store, kk


def lookups(st, store_name):
    """values read from the store on this path: {value: (key, removed)}"""
    out = {}
    for e in st.trace:
        if e.kind == "mut" and tail(e) == "pop" and last_attr(e.recv) == store_name:
            out[e.res] = (e.args[0] if e.args else None, True)
        if e.kind == "mut" and tail(e) == "popitem" and last_attr(e.recv) == store_name:
            out[e.res] = (None, True)
    terms = set()
    for e in st.trace:
        for x in [e.recv] + list(e.args) + list(e.kw.values()):
            if isinstance(x, tuple):
                terms |= set(subterms(x))
    for t in st.facts:
        terms |= set(subterms(t))
    for t in terms:
        if isinstance(t, tuple) and t[0] == "A" and t[1] in ("get", "item", "index") and last_attr(t[2]) == store_name:
            removed = any((e.kind == "delitem" and last_attr(e.recv) == store_name and e.args and e.args[0] == t[3]) for e in st.trace) or \
                any(e.kind == "mut" and tail(e) == "pop" and last_attr(e.recv) == store_name and e.args and e.args[0] == t[3] for e in st.trace)
            out[t] = (t[3], removed)
    return out


def presence(st, store_name, key, vals):
    """is the span of the key there, as far as the path knows: True, False, None"""
    said = set()
    for t, b in st.facts.items():
        if t in vals:
            said.add(b)
        elif t[0] == "A" and t[1] == "is" and NONE in t[2:4] and any(x in vals for x in t[2:4]):
            said.add(not b)
        elif t[0] == "A" and t[1] in ("in", "contains", "has") and any(isinstance(x, tuple) and last_attr(x) == store_name for x in t[2:]):
            said.add(b)
    if said:
        return False not in said  # a kept span is never falsy
    if any(e.kind in ("raise", "caught") and "KeyError" in repr(e) for e in st.trace):
        return False
    return None


def check_end(c, R, f, it, outs, store_name, key, pars, extra):
    """on every path: a span kept under the key is taken out and ended once"""
    site = f.qual
    for st, k, v in outs:
        if k == "cut":
            c.undecided(R, site, "loop")
            continue
        vals = lookups(st, store_name)
        there = presence(st, store_name, key, vals)
        ends = [e for e in evs(st, "call") if tail(e) == "end"]
        if not vals and not ends:
            if there is False:
                c.ok(R)
                continue
            if any(e.kind in ("opaque", "suspend") or (e.kind == "call" and e.label.startswith("?")) for e in st.trace):
                c.undecided(R, site, "calls code outside the analysis")
            else:
                c.bad(R, site, "the span kept under the key is not ended", st, k)
            continue
        wrong = [(t, kk) for t, (kk, rem) in vals.items() if kk is None or identifies(kk, key) is False]
        if wrong:
            c.bad(R, site, f"takes the span kept under {show(wrong[0][1]) if wrong[0][1] else 'whatever key comes last'}, not the one of this request", st, k)
            continue
        if k == "raise":
            if there is not False:
                c.undecided(R, site, f"ends in {show(v)}")
            else:
                c.bad(R, site, f"a request without a span fails with {show(v)}", st, k)
            continue
        if there is False:
            if ends:
                c.bad(R, site, "end() is called although there is no span", st, k)
            else:
                c.ok(R)
            continue
        if not ends:
            others = [t for t in st.facts if not any(mentions(t, x) for x in vals)]
            if there is True and any(any(mentions(t, p) for p in pars) for t in others) or not others:
                c.bad(R, site, "the span kept under the key is not ended", st, k)
            else:
                c.undecided(R, site, "ends the span under a condition the analysis does not know")
            continue
        if len(ends) > 1 and len({e.recv for e in ends}) == 1:
            c.bad(R, site, "the span is ended twice", st, k)
            continue
        if any(e.recv not in vals for e in ends):
            c.undecided(R, site, "ends a span that comes from elsewhere")
            continue
        e = ends[0]
        if not any(rem for (kk, rem) in vals.values()):
            if any(x.kind in ("mut", "delitem") and last_attr(x.recv) == store_name for x in st.trace):
                c.undecided(R, site, "takes the span out another way")
            else:
                c.bad(R, site, "the ended span stays among the kept ones: a later request with this key, or the buffered middleware, would still find it", st, k)
            continue
        late = [x for x in evs(st, "call") if x.recv == e.recv and tail(x) in ("set_status", "set_attribute", "set_attributes") and x.n > e.n]
        if late:
            c.bad(R, site, f"{tail(late[0])} after the span is ended has no effect", st, k)
            continue
        if extra(st, k, e):
            c.ok(R)


def status_ok(c, R, f):
    def go(st, k, e):
        site = f.qual
        sets = [x for x in evs(st, "call") if tail(x) == "set_status" and x.recv == e.recv]
        if not sets:
            c.bad(R, site, "the span of a handled request is not marked ok", st, k)
            return False
        for x in sets:
            txt = set()
            for a in list(x.args) + list(x.kw.values()):
                if isinstance(a, tuple):
                    txt |= {t[3] for t in provenance(st, a) if t[:2] == ("A", "attr")} | {str(t[1]).split(".")[-1] for t in provenance(st, a) if t[0] in ("S", "X")}
            if txt & {"ERROR", "UNSET"} and "OK" not in txt:
                c.bad(R, site, f"the span of a handled request is marked {sorted(txt & {'ERROR', 'UNSET'})[0]}", st, k)
                return False
            if "OK" not in txt:
                c.undecided(R, site, "unknown status")
                return False
        return True
    return go


def carried(st, span, value):
    """attribute values given to the span that involve the value"""
    out = []
    for e in evs(st, "call"):
        if (e.recv == span and tail(e) in ("set_attribute", "set_attributes", "add_event", "set_status", "update_name")) or (e.res == span and tail(e) == "start_span"):
            for a in list(e.args) + list(e.kw.values()):
                if isinstance(a, tuple) and value in provenance(st, a):
                    out.append((e, a))
    return out


def exact(st, a, value):
    if a == value:
        return True
    if a[0] == "O":
        o = st.objs.get(a[1])
        if o and o["kind"] == "dict":
            return any(exact(st, x, value) for x in o["items"].values() if isinstance(x, tuple))
        return None
    if a[0] == "A" and a[1] in ("str", "int", "bool", "repr"):
        return exact(st, a[2], value)
    if a[0] == "L" or (a[0] == "A" and a[1] in ARITH | {"not"}):
        return False
    return None



def check_C34(c):
    R1 = "request-span"
    c.rule(R1, "every request starts one span, in the trace of its key, with the span named there as parent, kept under the key until it is ended", 1)
    R2 = "request-end"
    c.rule(R2, "when the request is handled, its span is taken out, marked ok and ended once", 2)
    R3 = "pushed-metadata"
    c.rule(R3, "what is stored with a buffered request names the span it was received in, under the key that is read again when it is processed", 2)
    R4 = "process-span"
    c.rule(R4, "processing a stored request starts one span in the trace of its key whose parent is the receiving span, or the span of the key when there is none", 2)
    R5 = "process-end"
    c.rule(R5, "after processing, its span is taken out, carries whether it succeeded and is ended once", 2)
    R6 = "wiring"
    c.rule(R6, "both middlewares are added, sharing one tracer that exports to the given endpoint", 1)

    T, B = c.cls("OtlpTracingMiddleware"), c.cls("OtlpBufferedTracingMiddleware")
    for cl in (T, B):
        for m, a, line in unset_fields(c.p, cl):
            c.bad(R4 if cl is B else R1, f"{cl.path if hasattr(cl, 'path') and cl.path else cl.qual}:{line}", f"{cl.name}.{m} uses {a}, which is set nowhere: every request of it fails")
    br, ar, ga = c.find(T, "before_routing"), c.find(T, "after_routing"), c.find(T, "get_active_span")
    def run(f, R, *kinds):
        it = c.interp()
        ps = params(f)
        vals = {p: ("S", p, it.tk(c.cls(k)) if k else None) for p, k in zip(ps, kinds + (None,) * len(ps))}
        return it, c.run(it, f, R, args={p: v for p, v in vals.items() if v[2]}), [vals[p] if vals[p][2] else ("S", p, it.tk(c.p.ann_class(f.module, a))) for p, a in zip(ps, annotations(f))]

    # ---- request
    it, outs, (dto, *_) = run(br, R1, "RequestDTO")
    key = attr(dto, "span_key")
    names = set()
    for st, k, v in outs:
        if k != "return":
            c.undecided(R1, br.qual, f"ends in {k}")
            continue
        e = check_start(c, R1, br, st, k, key, lambda n: same_number(n, attr(key, "span_id"), [attr(key, "span_id", "_value"), attr(key, "span_id", "value"), A("int", attr(key, "span_id"))]))
        if e is None:
            continue
        s = check_stored(c, R1, br, st, k, e.res, key, "span of the request")
        if s is None:
            continue
        names.add((last_attr(s[0]), generic(s[1], key)))
        if v != dto and (v == NONE or (v[0] == "K")):
            c.bad(R1, br.qual, f"the request is replaced by {show(v)}", st, k)
            continue
        c.ok(R1, 1, f"{br.qual}: start_span with parent {show(key)}, kept in {show(s[0])}")
    if len(names) == 1 and None not in next(iter(names)):
        (store, kform), = names
        it, outs, (dto, resp, *_) = run(ar, R2, "RequestDTO")
        key = attr(dto, "span_key")
        check_end(c, R2, ar, it, outs, store, key, [dto, resp], status_ok(c, R2, ar))
        for st, k, v in outs:
            if k == "return" and v != resp and (v == NONE or v == dto or v[0] == "K"):
                c.bad(R2, ar.qual, f"the response is replaced by {show(v)}", st, k)
            for t, (kk, rem) in lookups(st, store).items():
                if kk is not None and generic(kk, key) != kform:
                    c.bad(R2, ar.qual, f"the span is looked up under {show(kk)}, but kept under {kform}", st, k)
        it, outs, (sk, *_) = run(ga, R3, "SpanKey")
        for st, k, v in outs:
            ks = [(t, kk) for t, (kk, rem) in lookups(st, store).items()]
            if any(rem for (kk, rem) in lookups(st, store).values()) or any(e.kind in ("mut", "delitem") and last_attr(e.recv) == store for e in st.trace):
                c.bad(R3, ga.qual, "reading the active span takes it away: it is never ended", st, k)
            elif k == "return" and v[0] == "A" and v[1] in ("get", "item") and last_attr(v[2]) == store:
                if identifies(v[3], sk) is False or generic(v[3], sk) != kform:
                    c.bad(R3, ga.qual, f"the active span is looked up under {show(v[3])}, but kept under {kform}", st, k)
                else:
                    c.ok(R3)
            elif k == "return" and v == NONE and presence(st, store, sk, {t for t, _ in ks}) is False:
                c.ok(R3)
            elif k == "return" and v[0] == "K":
                c.bad(R3, ga.qual, f"the active span is reported as {show(v)}", st, k)
            else:
                c.undecided(R3, ga.qual, "unknown result")
    elif names:
        c.undecided(R2, ar.qual, "spans are kept in a place the analysis does not know")

    # ---- stored
    bp = c.find(B, "before_push")
    it, outs, (sk, d, *_) = run(bp, R3, "SpanKey")
    mkeys = set()
    for st, k, v in outs:
        if k != "return":
            c.undecided(R3, bp.qual, f"ends in {k}")
            continue
        o = st.objs.get(v[1]) if v[0] == "O" else None
        if not o or o["kind"] != "dict" or o["rest"] is not None:
            if v == NONE or v[0] == "K":
                c.bad(R3, bp.qual, f"returns {show(v)} where a dictionary is stored", st, k)
            else:
                c.undecided(R3, bp.qual, "returns something the analysis does not know")
            continue
        ids = {kk: x for kk, x in o["items"].items() if any(t[:2] == ("A", "attr") and t[3] == "span_id" or t[0] == "R" for t in provenance(st, x)) or mentions(x, sk)}
        spans = [e for e in evs(st, "call") if tail(e) == "get_span_context"]
        store = next(iter(names))[0] if len(names) == 1 else None
        vals = lookups(st, store) if store else {}
        there = presence(st, store, sk, vals) if store else None
        if not o["items"]:
            if there is False:
                c.ok(R3)
            elif there is True or not st.facts:
                c.bad(R3, bp.qual, "nothing about the receiving span is stored: processing does not continue its trace", st, k)
            else:
                c.undecided(R3, bp.qual, "stores nothing under a condition the analysis does not know")
            continue
        if any(kk is None or identifies(kk, sk) is False for (kk, rem) in vals.values()):
            c.bad(R3, bp.qual, "names the span of another request", st, k)
            continue
        good = {kk for kk, x in o["items"].items() if x[:2] == ("A", "attr") and x[3] == "span_id" and any(x[2] == e.res for e in spans) or
                (x[0] == "A" and x[1] == "attr" and x[3] == "span_id" and x[2][:2] == ("A", "attr") and x[2][3] == "context")}
        if not good:
            flat = [x for x in o["items"].values()]
            if any(x[:2] == ("A", "attr") and x[3] == "trace_id" for x in flat) or all(mentions(x, sk) and not any(t[0] == "R" for t in subterms(x)) and not any(mentions(x, vv) for vv in vals) for x in flat):
                c.bad(R3, bp.qual, f"stores {show(flat[0])}, which is not the id of the receiving span", st, k)
            else:
                c.undecided(R3, bp.qual, "stores ids the analysis does not know")
            continue
        if any(any(x in provenance(st, e.recv) for x in vals) is False for e in spans if e.recv):
            c.undecided(R3, bp.qual, "the span comes from elsewhere")
            continue
        mkeys |= good
        c.ok(R3, 1, f"{bp.qual}: stores {', '.join(show(g) for g in good)}")

    # ---- processed
    pr = c.find(B, "before_process")
    it, outs, ps = run(pr, R4, "SpanKey")
    sk, d, meta, retries = ps[:4]
    pnames = set()
    for st, k, v in outs:
        if k != "return":
            c.undecided(R4, pr.qual, f"ends in {k}")
            continue
        terms = set()
        for e in st.trace:
            for x in [e.recv] + list(e.args) + list(e.kw.values()):
                if isinstance(x, tuple):
                    terms |= set(subterms(x))
        for t in st.facts:
            terms |= set(subterms(t))
        reads = {t for t in terms if isinstance(t, tuple) and t[0] == "A" and t[1] in ("get", "item") and t[2] == meta}
        reads |= {e.res for e in st.trace if e.kind == "mut" and tail(e) == "pop" and e.recv == meta}
        rkeys = {t[3] for t in reads if t[0] == "A"}
        if mkeys and rkeys and not (rkeys & mkeys) and all(x[0] == "K" for x in rkeys | mkeys):
            c.bad(R4, pr.qual, f"reads {', '.join(show(x) for x in rkeys)} from the stored metadata, but {', '.join(show(x) for x in mkeys)} is stored", st, k)
            continue
        mine = {t for t in reads if t[0] != "A" or not mkeys or t[3] in mkeys}
        absent = None
        for t, b in st.facts.items():
            if t in mine and not b:
                absent = True
            elif t in mine and b:
                absent = False
            elif t[0] == "A" and t[1] == "is" and NONE in t[2:4] and any(x in mine for x in t[2:4]):
                absent = b
            elif t[0] == "A" and t[1] in ("in", "contains", "has") and meta in t[2:] and any(x in mkeys for x in t[2:]):
                absent = not b
        keynum = [attr(sk, "span_id", "_value"), attr(sk, "span_id", "value"), A("int", attr(sk, "span_id"))]

        def number(n, absent=absent, mine=mine):
            if n in mine or (n is not None and n[0] == "A" and n[1] == "int" and n[2] in mine):
                return True if absent is not True else "the parent is unset when nothing was stored"
            if n in keynum:
                return True if absent is True else ("the parent is the span of the key although the receiving span is stored" if absent is False or not st.facts else None)
            if n is not None and any(mentions(n, m) for m in mine):
                return False if n[0] == "L" or (n[0] == "A" and n[1] in ARITH) else None
            return same_number(n, attr(sk, "span_id"), keynum)
        e = check_start(c, R4, pr, st, k, sk, number)
        if e is None:
            continue
        s = check_stored(c, R4, pr, st, k, e.res, sk, "span of the processing")
        if s is None:
            continue
        pnames.add((last_attr(s[0]), generic(s[1], sk)))
        got = carried(st, e.res, retries)
        ex = [exact(st, a, retries) for _, a in got]
        if not got:
            if any(mentions(t, retries) for t in st.facts):
                c.undecided(R4, pr.qual, "retries only decide a branch")
            else:
                c.bad(R4, pr.qual, "the span of the processing does not carry the number of retries", st, k)
            continue
        if True not in ex:
            if False in ex:
                c.bad(R4, pr.qual, f"the span of the processing carries {show(got[0][1])} for the number of retries", st, k)
            else:
                c.undecided(R4, pr.qual, "retries are converted")
            continue
        c.ok(R4, 1, f"{pr.qual}: parent {'from the key' if absent else 'from the metadata'}")

    if len(pnames) == 1 and None not in next(iter(pnames)):
        (store, kform), = pnames
        ap = c.find(B, "after_process")
        it, outs, ps = run(ap, R5, "SpanKey")
        sk, d, meta, success = ps[:4]
        seen = {}

        def outcome(st, k, e):
            got = carried(st, e.recv, success)
            ex = [exact(st, a, success) for _, a in got]
            if True in ex:
                return True
            if False in ex:
                c.bad(R5, ap.qual, f"the span carries {show(got[0][1])} for the success of processing", st, k)
                return False
            fact = [b for t, b in st.facts.items() if t == success]
            if fact:
                vals = tuple(show(a) for x in evs(st, "call") if x.recv == e.recv for a in list(x.args) + list(x.kw.values()))
                seen.setdefault(fact[0], []).append((vals, st))
                return False
            if got:
                c.undecided(R5, ap.qual, "success is converted")
            else:
                c.bad(R5, ap.qual, "the span does not carry whether processing succeeded", st, k)
            return False
        check_end(c, R5, ap, it, outs, store, sk, [sk, d, meta, success], outcome)
        if True in seen and False in seen:
            for (a, st) in seen[True]:
                for (b, _) in seen[False]:
                    if a == b:
                        c.bad(R5, ap.qual, "the span carries the same values whether or not processing succeeded", st, "return")
                    else:
                        c.ok(R5)
        for st, k, v in outs:
            for t, (kk, rem) in lookups(st, store).items():
                if kk is not None and generic(kk, sk) != kform:
                    c.bad(R5, ap.qual, f"the span is looked up under {show(kk)}, but kept under {kform}", st, k)
    elif pnames:
        c.undecided(R5, "after_process", "spans are kept in a place the analysis does not know")

    wiring(c, R6)


def generic(v, key):
    """a key term with the request's key as a hole"""
    def go(x):
        if x == key:
            return ("HOLE",)
        return tuple(go(y) for y in x) if isinstance(x, tuple) else x
    g = go(v)
    return "the key" if g == ("HOLE",) else g


def wiring(c, R):
    T = c.cls("OtlpTracingMiddleware")
    init = c.p.function("initiate_otlp_tracing")
    if init is None:
        c.undecided(R, "initiate_otlp_tracing", "not found")
        return
    it = c.interp()
    for st, k, v in c.run(it, init, R):
        site = init.qual
        if k != "return":
            c.undecided(R, site, f"ends in {k}")
            continue
        added = {}
        for e in evs(st, "mut"):
            if tail(e) in ("append", "add", "insert"):
                for t in subterms(e.recv):
                    if isinstance(t, tuple) and t[0] == "S" and "singleton:" in str(t[1]):
                        added.setdefault(str(t[1]).split(":")[-1].split(".")[-1], []).append(e.args[-1])

        def built(name):
            return [v2 for vs in added.values() for v2 in vs if v2[0] == "O" and st.objs[v2[1]].get("cls") is not None and getattr(st.objs[v2[1]]["cls"], "name", st.objs[v2[1]]["cls"]) == name]
        mm, bm = added.get("MiddlewareManager", []), added.get("BufferedMiddlewareManager", [])
        if len(mm) != 1 or len(bm) != 1:
            c.bad(R, site, f"{len(mm)} request and {len(bm)} buffered tracing middlewares are added instead of one each", st, k)
            continue
        if mm[0] not in provenance(st, bm[0]):
            c.bad(R, site, "the buffered middleware looks for active spans in another tracing middleware than the one that is added", st, k)
            continue
        fields = entry_fields(it, st, mm[0]) or {}
        tracer = [x for x in fields.values() if isinstance(x, tuple) and x[0] == "R"]
        exporters = [e for e in evs(st, "call", "new") if tail(e) == "OTLPSpanExporter"]
        procs = [e for e in evs(st, "call") if tail(e) == "add_span_processor"]
        provs = [e for e in evs(st, "call") if tail(e) == "set_tracer_provider"]
        if not exporters or not procs:
            c.bad(R, site, "spans are not exported: no exporter is attached", st, k)
            continue
        if not any(exporters[0].res in provenance(st, a) for e in procs for a in e.args):
            c.bad(R, site, "spans are not exported: the exporter is not attached to the provider", st, k)
            continue
        provider = procs[0].recv
        if not any(provider in provenance(st, a) for e in provs for a in e.args) and not any(provider in provenance(st, t) for t in tracer):
            c.bad(R, site, "the provider that exports spans is not the one the tracer comes from", st, k)
            continue
        ep = call_args(exporters[0], ("endpoint",)).get("endpoint")
        if ep is None or not any(s == K("OTLP_TRACES_ENDPOINT") for s in provenance(st, ep)):
            if ep is None or ep[0] == "K":
                c.bad(R, site, "spans are not exported to the configured endpoint", st, k)
            else:
                c.undecided(R, site, "endpoint comes from elsewhere")
            continue
        c.ok(R, 1, f"{site}: one tracer for both middlewares")
