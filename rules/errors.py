"""C30: error counters."""
from rules.base import *
from rules.servers import tail
from rules.management import endpoints

FOLDS = ("upper", "lower", "casefold")


def selfattr(v, self_):
    return v is not None and v[:2] == ("A", "attr") and v[2] == self_


def final(st, self_, attr):
    """value of the attribute at the end of the path"""
    t = A("attr", self_, attr)
    for e in st.trace:
        if e.kind == "set" and e.recv == self_ and e.label == attr:
            t = e.args[0]
    return t


def check_C30(c):
    RK, RL, RE = "counter", "list", "endpoint"
    c.rule(RK, "the piecewise linear effect of every counter operation, over all its paths, is its contract: +1; max(0, count - n) for n >= 0 and nothing for "
               "n < 0; 0; listed as set exactly above 0", 6)
    c.rule(RL, "every operation of the list folds the letter case of the id in the same way and applies the one counter operation it names, to the counter of "
               "that id only; the states listed leave out no counter that is set", 4)
    c.rule(RE, "the endpoints apply the operation asked for to the error named in the request and then list the errors that are set", 2)
    k = c.cls("ErrorStateKeeper")
    it = c.interp()
    f = c.find(k, "get_error_count")
    outs = [o for o in c.run(it, f, RK) if o[1] == "return"]
    me = self_of(outs)
    attrs = {v[3] for st, kind, v in outs if v[:2] == ("A", "attr") and v[2][0] == "S"}
    if len(attrs) != 1:
        c.undecided(RK, f.qual, "what holds the count was not recognised")
        return
    attr = attrs.pop()
    me = [v[2] for st, kind, v in outs if v[:2] == ("A", "attr")][0]
    count = A("attr", me, attr)
    c.ok(RK, 1, f"count is {attr}")

    def summary(name, want, second=None, value=lambda st, v: final(st, me, attr)):
        f = c.find(k, name)
        arg = None
        if second:
            arg = f.node.args.args[1].arg
        outs = c.run(it, f, RK)
        terms = [t for st, _, v in outs for t in list(st.facts) + [value(st, v)] if isinstance(t, tuple)]
        cs = [x for x in corners(terms, count, 0, 6) if x >= 0]
        ns = corners(terms, None, -4, 8) if second else [0]
        covered, done = True, 0
        for st, kind, v in outs:
            if kind == "cut" or any(e.kind == "loop" for e in st.trace):
                c.undecided(RK, f.qual, "counts in a loop")
                return
            if kind == "raise":
                c.undecided(RK, f.qual, "may raise")
                continue
            bad = None
            args = [t for x in list(st.facts) + [value(st, v)] for t in subterms(x) if isinstance(t, tuple) and t[0] == "S" and t[1] == arg] or [("S", arg, "")]
            try:
                for x in cs:
                    for n in ns:
                        env = {count: x, args[0]: n}
                        if all(bool(point(t, env)) == val for t, val in st.facts.items()):
                            got = point(value(st, v), env)
                            if got != want(x, n) and bad is None:
                                bad = (x, n, got)
            except Unknown as e:
                c.undecided(RK, f.qual, f"not recognised: {str(e)[:60]}")
                continue
            if bad:
                x, n, got = bad
                c.bad(RK, f.qual, f"{name}{'(' + str(n) + ')' if second else '()'} with count {x} gives {got}, not {want(x, n)}", st, kind)
            else:
                done += 1
        if done:
            c.ok(RK, 1, f"{f.qual}: {done} paths")
    summary("increment", lambda x, n: x + 1)
    summary("clear_some", lambda x, n: x if n < 0 else max(0, x - n), True)
    summary("clear_all", lambda x, n: 0)
    summary("is_set", lambda x, n: x > 0, value=lambda st, v: v if isinstance(v, tuple) else NONE)
    for name in ("is_set", "to_dict", "get_error_count"):
        f = c.find(k, name)
        for st, kind, v in c.run(it, f, RK):
            if kind == "return":
                if final(st, me, attr) != count:
                    c.bad(RK, f.qual, f"{name} changes the count", st, kind)
                else:
                    c.ok(RK)
                if name == "to_dict" and isinstance(v, tuple) and v[0] == "O" and st.objs[v[1]]["kind"] == "dict":
                    got = st.objs[v[1]]["items"].get(K("count")) if isinstance(st.objs[v[1]]["items"], dict) else None
                    if got is not None and got != count:
                        c.bad(RK, f.qual, f"the count listed is {show(got)}", st, kind)
    f = k.methods.get("__init__")
    if f is not None:
        for st, kind, v in c.run(it, f, RK):
            if kind == "return":
                x = final(st, me, attr)
                if x == K(0):
                    c.ok(RK)
                elif x[0] == "K":
                    c.bad(RK, f.qual, f"a count starts at {show(x)}", st, kind)
                else:
                    c.undecided(RK, f.qual, "initial count not recognised")
    lists(c, RL, RE)


def self_of(outs):
    return None


def is_keeper(x):
    return (x.name if isinstance(x, Class) else x.cls.name if x.cls is not None else "") == "ErrorStateKeeper"


def lists(c, RL, RE):
    L = c.cls("ErrorStateList")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and is_keeper(x))
    folds = {}

    def key_of(v):
        """the key a counter was looked up with"""
        if v[:2] in (("A", "item"), ("A", "get")) and len(v) > 3:
            return v[3]
        if v[:2] == ("A", "setdefault"):
            return v[3]
        return None

    def fold(st, key, p, f, kind):
        """the id folded; None: not recognised"""
        if key is None:
            return None
        ops = []
        while key[0] == "A" and key[1] in FOLDS + ("strip", "str"):
            if key[1] in FOLDS:
                ops.append(key[1])
            key = key[2]
        if key[:2] != ("S", p):
            return None
        if not ops:
            c.bad(RL, f.qual, "the error id is used without folding its letter case", st, kind)
            return None
        folds.setdefault(ops[0], f.qual)
        return ops[0]

    spec = {"increment": ("increment",), "clear_some": ("clear_some",), "clear_all": ("clear_all",)}
    for name, want in spec.items():
        f = c.find(L, name)
        p = f.node.args.args[1].arg
        extra = f.node.args.args[2].arg if name == "clear_some" else None
        for st, kind, v in c.run(it, f, RL):
            if kind == "raise":
                c.undecided(RL, f.qual, "may raise")
            if kind == "raise":
                continue
            ops = [e for e in evs(st, "opaque") if tail(e) in ("increment", "clear_some", "clear_all")]
            for t in st.facts:
                if t[:2] == ("A", "in"):
                    fold(st, t[2], p, f, kind)
            absent = [t for t, val in st.facts.items() if (t[:2] == ("A", "in") and val is False) or (t[:2] == ("A", "is") and NONE in t[2:] and val is True)]
            loops = [e for e in ops if e.recv is not None and any(y[:2] == ("A", "elem") for y in subterms(e.recv))]
            if evs(st, "loop") and not loops and not ops and kind != "cut":
                continue
            if loops:
                if any(mentions_p(t, p) and any(y[:2] == ("A", "elem") for y in subterms(t)) for t in st.facts):
                    c.undecided(RL, f.qual, "selects the counter in a loop")
                else:
                    c.bad(RL, loops[0].loc, f"{name} reaches the counters of other errors", st, kind)
                continue
            if name != "increment" and absent:
                if ops:
                    c.undecided(RL, f.qual, "operation on an unknown error")
                else:
                    c.ok(RL)
                continue
            if not ops:
                if any(e.kind in ("call", "delitem", "mut") for e in st.trace):
                    c.undecided(RL, f.qual, "how the counter is changed was not recognised")
                else:
                    c.bad(RL, f.qual, f"{name} has no effect on a known error" if not absent else "a first report of an error is not counted", st, kind)
                continue
            if len(ops) > 1:
                c.bad(RL, ops[1].loc, f"{name} changes the count more than once", st, kind)
                continue
            e = ops[0]
            if tail(e) not in want:
                c.bad(RL, e.loc, f"{name} performs {tail(e)}", st, kind)
                continue
            if name == "clear_some":
                a = list(e.kw.values()) + list(e.args)
                if not a or a[0][:2] != ("S", extra):
                    c.bad(RL, e.loc, f"clears {show(a[0]) if a else 'nothing'} instead of the number given", st, kind)
                    continue
            if e.recv[0] == "O":
                put = [x for x in evs(st, "setitem", "mut") if x.args and x.args[-1] == e.recv]
                if not put:
                    c.bad(RL, e.loc, "a report is counted on a counter that is not kept", st, kind)
                    continue
                if not absent and put[0].kind == "setitem":
                    c.bad(RL, put[0].loc, "the counter is replaced by a new one: earlier reports are forgotten", st, kind)
                    continue
                if fold(st, put[0].args[0], p, f, kind):
                    c.ok(RL, 1, f"{f.qual}: new counter")
                continue
            key = key_of(e.recv)
            if key is None and e.recv[0] == "R":
                src = [x for x in st.trace if x.res == e.recv]
                key = src[0].args[0] if src and src[0].args else None
            if key is None:
                c.undecided(RL, e.loc, "which counter is changed was not recognised")
            elif fold(st, key, p, f, kind):
                c.ok(RL, 1, f"{f.qual}: {name} on the counter of the id")
    f = c.find(L, "has_error_id")
    p = f.node.args.args[1].arg
    for st, kind, v in c.run(it, f, RL):
        if kind == "return" and isinstance(v, tuple):
            for t in list(subterms(v)) + [y for t in st.facts for y in subterms(t)]:
                if t[:2] == ("A", "in"):
                    fold(st, t[2], p, f, kind)
            if v[:2] == ("A", "not") or (v[0] == "K" and any(t[:2] == ("A", "in") and val is not v[2] for t, val in st.facts.items())):
                c.bad(RL, f.qual, "has_error_id is inverted", st, kind)
    if len(folds) > 1 and "lower" in folds and "upper" in folds or len(folds) > 1:
        c.bad(RL, list(folds.values())[-1], f"the operations fold the id differently: {folds}")

    # ---- listing
    f = c.find(L, "get_error_states")
    filt1 = listing(c, RL, it, f, None)
    eps = endpoints(c)
    for route in ("eco.error_states.get", "eco.error_states.clear"):
        for g, _ in eps.get(route, []):
            it2 = c.interp(opaque=lambda x: not isinstance(x, Class) and (is_keeper(x) or (x.cls is not None and x.cls.name == "ErrorStateList")))
            filt2 = listing(c, RE, it2, g, "get_error_states")
            if filt1 is False and filt2 is False:
                c.bad(RE, g.qual, "errors whose count is zero are listed")
            outs = c.run(it2, g, RE)
            for st, kind, v in outs:
                if kind != "return":
                    continue
                ops = [e for e in evs(st, "opaque") if tail(e) in ("clear_some", "clear_all", "increment")]
                if route.endswith("get"):
                    if ops:
                        c.bad(RE, ops[0].loc, f"listing the errors performs {tail(ops[0])}", st, kind)
                    else:
                        c.ok(RE)
                    continue
                known = [val for t, val in st.facts.items() if t[0] == "R" and t[2].endswith("has_error_id")]
                zero = [val for t, val in st.facts.items() if t[:2] == ("A", "eq") and K(0) in t[2:] and any(last_attr(y) == "count" for y in t[2:])]
                got = [e for e in evs(st, "opaque") if tail(e) == "get_error_states"]
                if False in known:
                    c.ok(RE) if not ops else c.undecided(RE, ops[0].loc, "operation on an unknown error")
                    continue
                if not ops:
                    vague = [t for t in st.facts if not (t[0] == "R" and t[2].endswith("has_error_id")) and t[:2] != ("A", "is")]
                    if zero or not vague:
                        c.bad(RE, g.qual, "clearing an error has no effect", st, kind)
                    else:
                        c.undecided(RE, g.qual, "when an error is cleared was not recognised")
                    continue
                for e in ops:
                    idv = e.kw.get("error_id") or (e.args[0] if e.args else None)
                    if idv is None or last_attr(idv) != "error_id":
                        if idv is not None and (idv[0] == "K" or last_attr(idv)):
                            c.bad(RE, e.loc, f"the error cleared is {show(idv)}", st, kind)
                        else:
                            c.undecided(RE, e.loc, "which error is cleared was not recognised")
                        continue
                    num_ = e.kw.get("how_many") or (e.args[1] if len(e.args) > 1 else None)
                    if tail(e) == "increment":
                        c.bad(RE, e.loc, "clearing counts an error", st, kind)
                    elif tail(e) == "clear_all" and False in zero:
                        c.bad(RE, e.loc, "all is cleared although a number was given", st, kind)
                    elif tail(e) == "clear_some" and num_ is not None and last_attr(num_) != "count" and num_[0] in ("K", "L"):
                        c.bad(RE, e.loc, f"the number cleared is {show(num_)}", st, kind)
                    elif tail(e) == "clear_some" and True in zero:
                        c.bad(RE, e.loc, "nothing is cleared where all was asked for", st, kind)
                    else:
                        c.ok(RE, 1, f"{route}: {tail(e)}")
                    if got and got[-1].n < e.n:
                        c.bad(RE, e.loc, "the errors listed are those of before the clearing", st, kind)


def mentions_p(t, p):
    return any(y[:2] == ("S", p) for y in subterms(t) if isinstance(y, tuple))


def listing(c, R, it, f, src):
    """does the listing filter on is_set? True/False/None; a counter that is set must never be left out"""
    filters = None
    for st, kind, v in c.run(it, f, R):
        if kind != "cut":
            if kind == "return" and src is None and isinstance(v, tuple) and v[0] in ("A", "O"):
                # a comprehension: ('each', element, condition…)
                o = st.objs.get(v[1]) if v[0] == "O" else None
                if o and o["kind"] == "list":
                    for s in o["seq"]:
                        if s[0] not in ("one", "item"):
                            filters = filters if filters is not None else None
            continue
        ls = [e for e in evs(st, "loop") if e.loc == v["loc"]]
        if not ls:
            continue
        tests = {}
        for t, val in st.facts.items():
            if t[0] == "R" and t[2].endswith("is_set"):
                tests["set"] = val
            if t[0] == "A" and t[1] in ("gt", "le", "eq", "ne", "ge", "lt") and any(y[:2] == ("A", "elem") for x in t[2:] for y in subterms(x) if isinstance(y, tuple)):
                tests["other"] = True
        kept = [e for e in st.trace if e.n > ls[-1].n and (e.kind == "mut" and tail(e) in ("append", "add") or e.kind == "yield")]
        if not kept and not isinstance(v["node"], (ast.For, ast.While, ast.AsyncFor)):
            kept = [o for o in st.objs.values() if o["kind"] == "list" and any(x[0] == "one" for x in o["seq"])]
        if tests.get("set") is True and not kept:
            c.bad(R, ls[-1].loc, "an error whose count is above zero is not listed", st, kind)
        elif tests.get("set") is False and kept:
            c.bad(R, ls[-1].loc, "an error whose count is zero is listed", st, kind)
        elif "set" in tests:
            filters = True
            c.ok(R)
        elif not tests and kept:
            filters = False if filters is None else filters
        elif not tests and not kept:
            c.bad(R, ls[-1].loc, "errors are not listed", st, kind)
    return filters
