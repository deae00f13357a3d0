"""C31: the LRU cache.  Shape analysis: the abstract heaps an operation can leave behind are computed for every abstract heap reached so far, up to renaming
of nodes, keys and values, until no new one appears; each is kept together with the entries, most recently used first, that the operations' contracts leave."""
from rules.base import *

DEFAULT = ("S", "the default", None)


class Stop(Exception):
    pass


def reach(st, obj):
    """abstract objects reachable from the cache, in a fixed order"""
    seen, order, todo = {}, [], [obj]
    while todo:
        x = todo.pop(0)
        if x in seen:
            continue
        seen[x] = len(order)
        order.append(x)
        o = st.objs[x[1]]
        kids = []
        if o["kind"] == "inst":
            kids = [v for k, v in sorted(((k, v) for k, v in st.heap.items() if k[0] == x), key=lambda p: str(p[0][1]))]
        elif o["kind"] in ("dict",):
            kids = [y for kv in o["items"].items() for y in kv] + ([o["rest"]] if o["rest"] else [])
        elif o["kind"] == "set":
            kids = list(o["items"])
        elif o["kind"] == "list":
            kids = [y for s in o["seq"] for y in s[1:]]
        for v in kids:
            todo += [t for t in subterms(v) if isinstance(t, tuple) and t and t[0] == "O" and t[1] in st.objs]
    return seen, order


def canonical(st, obj, model, special):
    seen, order = reach(st, obj)
    names = {}
    for i, (k, v) in enumerate(model):
        names[k] = f"key {i}" + (f" {show(k)}" if k in special else "")
        names[v] = f"value {i}"
    stale = {}

    def name(v):
        if not isinstance(v, tuple) or not v:
            return v
        if v in names:
            return names[v]
        if v[0] == "O":
            return ("node", seen.get(v, "?"))
        if v[0] == "K" and v[1] == "str" and v[2].startswith("key "):
            return stale.setdefault(v, f"stale {len(stale)}")
        if v[0] == "S" and v[1].startswith("value "):
            return "stale value"
        return tuple(name(x) for x in v)
    out = []
    for x in order:
        o = st.objs[x[1]]
        if o["kind"] == "inst":
            out.append(tuple((k[1], name(v)) for k, v in sorted(((k, v) for k, v in st.heap.items() if k[0] == x), key=lambda p: str(p[0][1]))))
        elif o["kind"] == "dict":
            out.append(tuple((name(k), name(v)) for k, v in o["items"].items()) + (name(o["rest"]) if o["rest"] else None,))
        elif o["kind"] == "set":
            out.append(tuple(name(k) for k in o["items"]))
        else:
            out.append(tuple(tuple(name(y) for y in s) for s in o["seq"]))
    return tuple(out), len(model), tuple(k if k in special else None for k, v in model)


def keys_in(st, obj):
    _, order = reach(st, obj)
    out = []
    for x in order:
        o = st.objs[x[1]]
        vals = [v for k, v in st.heap.items() if k[0] == x] if o["kind"] == "inst" else list(o["items"]) if o["kind"] in ("dict", "set") else []
        out += [v for v in vals if v[0] == "K" and v[1] == "str" and v[2].startswith("key ") and v not in out]
    return out


class Cache:
    def __init__(self, c, R):
        self.c, self.R = c, R
        self.cl = c.cls("LRUCache")
        self.it = c.interp(inline_gen=True, unroll=12, peel=12)
        self.skip = set()
        self.n = 0

    def call(self, st, obj, name, *args):
        f = self.c.find(self.cl, name)
        t = st.copy()
        t.trace, t.facts = [], {}
        self.it.steps = 0
        names = [a.arg for a in f.node.args.args[1:]]
        outs = self.it.run(f, obj, dict(zip(names, args)), t) if f.is_gen else self.it.apply(t, ("F", f.fid, None, obj), list(args), {})
        self.c.functions |= self.it.functions
        self.c.paths += len(outs)
        res = []
        for s, k, v in outs:
            if k == "cut" or any(e.kind == "loop" and e.label != "while" for e in s.trace):
                raise Stop(f"{name}: loop not bounded by the entries")
            for q in s.facts:
                if not all(t[0] != "S" or t[1].startswith("value ") or t == DEFAULT for t in subterms(q) if isinstance(t, tuple) and t and t[0] == "S"):
                    raise Stop(f"{name}: depends on {show(q)}")
                if not any(t[0] == "S" for t in subterms(q) if isinstance(t, tuple) and t):
                    raise Stop(f"{name}: depends on {show(q)}")
            if f.is_gen and k == "return":
                v = ("T",) + tuple(e.args[0] for e in s.trace if e.kind == "yield")
            elif k == "return" and v[:2] == ("A", "gen") and v[3] == obj and len(v) == 4 and v[2].startswith(self.cl.qual + "."):
                res += self.call(s, obj, v[2][len(self.cl.qual) + 1:])
                continue
            res.append((s, k, v))
        return res

    def known(self, v):
        """built only from keys, values and constants"""
        return all(t[0] in ("K", "S", "T") for t in subterms(v) if isinstance(t, tuple) and t and isinstance(t[0], str))

    def observe(self, st, obj, model, pool, what):
        """first observation that differs from the entries, or None"""
        for name in ("__len__", "items", "keys", "values", "__iter__", "__contains__", "peek"):
            if name in self.skip or self.c.p.find_method(self.cl, name) is None:
                continue
            try:
                bad = self.look(name, st, obj, model, pool, what)
            except Stop as e:
                self.skip.add(name)
                self.c.undecided(self.R, f"{self.cl.qual}.{name}", str(e))
                continue
            if bad:
                return bad
        return None

    def look(self, name, st, obj, model, pool, what):
        d = dict(model)
        if name == "__len__":
            for s, k, v in self.call(st, obj, "__len__"):
                if k != "return" or v != K(len(model)):
                    if k == "return" and v[0] != "K":
                        raise Stop("len not recognised")
                    return f"{what}: {len(model)} entries are left, but len() gives {show(v)}"
        elif name not in ("__contains__", "peek"):
            for s, k, v in self.call(st, obj, name):
                if k != "return":
                    return f"{what}: {name}() then raises {show(v)}"
                if v[0] == "O" and st is not None:
                    o = s.objs[v[1]]
                    if o["kind"] != "list" or any(x[0] != "one" for x in o["seq"]):
                        raise Stop(f"{name} not recognised")
                    v = ("T",) + tuple(x[1] for x in o["seq"])
                if v[0] != "T" or not self.known(v):
                    raise Stop(f"{name} gives {show(v)}")
                want = [("T", a, b) for a, b in model] if name == "items" else [b for a, b in model] if name == "values" else [a for a, b in model]
                if Counter(v[1:]) != Counter(want):
                    return f"{what}: {name}() then gives {show(v)}, not {show(('T',) + tuple(want))}"
        for key in pool if name == "__contains__" else ():
            for s, k, v in self.call(st, obj, "__contains__", key):
                if k != "return" or v != (TRUE if key in d else FALSE):
                    if k == "return" and v not in (TRUE, FALSE):
                        raise Stop("contains not recognised")
                    return f"{what}: {show(key)} is then {'not ' if key in d else ''}in the cache"
        for key in pool if name == "peek" else ():
            for s, k, v in self.call(st, obj, "peek", key, DEFAULT):
                if k != "return" or v != d.get(key, DEFAULT):
                    if k == "return" and not self.known(v):
                        raise Stop("peek not recognised")
                    return f"{what}: {show(key)} then has the value {show(v)}, not {show(d.get(key, DEFAULT))}"
        return None

    def steps(self, model, size, pool):
        """(operation, arguments, returned value or None for any, entries afterwards)"""
        d = dict(model)

        def front(k, v):
            return [(k, v)] + [x for x in model if x[0] != k]
        rest = lambda k: [x for x in model if x[0] != k]
        for k in pool:
            v = ("S", "value %d" % self.fresh(), None)
            yield "__setitem__", (k, v), None, front(k, v)[:size]
            if k not in d:
                yield "__getitem__", (k,), "KeyError", model
            if k in d:
                yield "__getitem__", (k,), d[k], front(k, d[k])
                yield "get", (k, DEFAULT), d[k], front(k, d[k])
                yield "peek", (k, DEFAULT), d[k], model
                yield "pop_item", (k, DEFAULT), d[k], rest(k)
            else:
                yield "get", (k, DEFAULT), DEFAULT, model
                yield "pop_item", (k, DEFAULT), DEFAULT, model
            yield "__delitem__", (k,), None, rest(k)
        yield "pop", (), "pop", None
        yield "clear", (), None, []
        for name in ("keys", "items"):
            yield name, (), None, model

    def fresh(self):
        self.n += 1
        return self.n

    def explore(self, size, special, limit):
        c, R = self.c, self.R
        site = self.cl.qual
        outs = self.it.apply(empty_state(), ("C", self.cl.qual), [K(size)], {})
        if len(outs) != 1 or outs[0][1] != "return":
            raise Stop("constructor not recognised")
        st, _, obj = outs[0]
        c.ok(R, 1, f"{site}: constructed with size {size}")
        seen, todo, done = set(), [(st, [], ())], 0
        while todo:
            st, model, hist = todo.pop(0)
            cf = canonical(st, obj, model, special)
            if cf in seen:
                continue
            seen.add(cf)
            if len(seen) > limit:
                raise Stop(f"more than {limit} abstract heaps for a cache of {size}")
            live = [k for k, _ in model]
            stale = [k for k in keys_in(st, obj) if k not in live]
            new = next(K(f"key {i}") for i in range(99) if K(f"key {i}") not in live + stale)
            pool = live + stale + [new] + [k for k in special if k not in live]
            for name, args, ret, after in self.steps(model, size, pool):
                what = f"a cache of {size} after {', '.join(hist + (name + str(tuple(show(a) for a in args)),)) or 'nothing'}"
                if name in self.skip or self.c.p.find_method(self.cl, name) is None:
                    continue
                try:
                    outs = self.call(st, obj, name, *args)
                    if any(k == "return" and ret is not None and not self.known(v) for _, k, v in outs):
                        raise Stop(f"{name} gives what is not recognised")
                except Stop as e:
                    self.skip.add(name)
                    c.undecided(R, f"{site}.{name}", str(e))
                    continue
                for s, k, v in outs:
                    if ret == "KeyError":
                        if k == "return" and v in [x for _, x in model]:
                            c.bad(R, f"{site}.{name}", f"{what}: gives {show(v)}, which is stored under another key", s, k)
                            return done
                    elif k == "raise":
                        if name in ("__delitem__",) and after == model:
                            continue
                        c.bad(R, f"{site}.{name}", f"{what}: raises {show(v)}", s, k)
                        return done
                    m = after
                    if ret == "KeyError":
                        pass
                    elif ret == "pop":
                        if not model:
                            m = []
                            if v != NONE:
                                c.bad(R, f"{site}.pop", f"{what}: gives {show(v)}", s, k)
                                return done
                        else:
                            hit = [x for x in model if v == ("T",) + x]
                            if not hit:
                                c.bad(R, f"{site}.pop", f"{what}: gives {show(v)}, which is no entry", s, k)
                                return done
                            m = [x for x in model if x != hit[0]]
                    elif ret is not None and v != ret:
                        c.bad(R, f"{site}.{name}", f"{what}: gives {show(v)}, not {show(ret)}", s, k)
                        return done
                    bad = self.observe(s, obj, m, pool, what)
                    if bad:
                        c.bad(R, f"{site}.{name}", bad, s, k)
                        return done
                    done += 1
                    s.trace, s.facts = [], {}
                    todo.append((s, m, hist + (name + str(tuple(show(a) for a in args)),)))
        c.ok(R, done, f"{site}: size {size}: {len(seen)} abstract heaps, {done} steps")
        return done


def check_C31(c):
    R = "shape"
    c.rule(R, "from every abstract heap that the operations can build, each operation leaves a heap whose entries, looked at through len, items, keys, values, in and "
              "peek, are those of its contract (a new entry displaces only the least recently used one, and only when the cache is full)", 10)
    thorough = c.tier == "thorough"
    for size, special in ((1, (K(0), NONE)), (2, (K(0), NONE)), (3, (NONE,)), (4, ())) + (((3, (K(0), NONE)), (5, ())) if thorough else ()):
        try:
            Cache(c, R).explore(size, special, 4000)
        except Stop as e:
            c.undecided(R, "LRUCache", str(e))
