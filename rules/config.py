"""C25: configuration precedence."""
import ast

from rules.base import *
from rules.servers import tail

# documented variable of every setting, and whether it is taken from the instance only
SETTINGS = {
    ("ConfigStatisticsKeeper", "gather_period"): ("STAT_GP", False),
    ("ConfigStatisticsKeeper", "history_length"): ("STAT_HL", False),
    ("ConfigLoggingFile", "directory"): ("LOG_DIR", False),
    ("ConfigLoggingFile", "buffer_size"): ("LOG_BUF_SIZE", False),
    ("ConfigLoggingFile", "max_size_in_bytes"): ("LOG_MAX_SIZE", False),
    ("ConfigLoggingFile", "max_files"): ("LOG_MAX_FILES", False),
    ("ConfigLogging", "level"): ("LOG_LEVEL", False),
    ("ConfigApplicationInstance", "lock_directory"): ("LOCK_DIR", False),
    ("ConfigApplicationInstance", "buffer_directory"): ("BUFFER_DIR", False),
    ("ConfigApplicationInstanceDefaults", "lock_directory"): ("LOCK_DIR", False),
    ("ConfigApplicationInstanceDefaults", "buffer_directory"): ("BUFFER_DIR", False),
    ("ConfigApplicationInstance", "tcp"): ("TCP", True),
    ("ConfigApplicationInstance", "udp"): ("UDP", True),
    ("ConfigApplicationInstance", "uds"): ("UDS", True),
}
LEVELS = ("instance", "application", "machine")


def expr_func(c, module, expr):
    """an expression of a module as a function without parameters"""
    n = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=expr)
    ast.copy_location(n, expr)
    ast.fix_missing_locations(n)
    cache = c.__dict__.setdefault("_expr_funcs", {})
    if (module.name, id(expr)) not in cache:
        cache[module.name, id(expr)] = (c.p.make_func(n, module, None, None), expr)
    return cache[module.name, id(expr)][0]


class Names:
    """names of environment variables in words: constants, <APP> and <INSTANCE> (^ marks upper case)"""

    def __init__(self, c):
        self.c = c
        self.memo = {}
        self.terms = {}

    def var(self, sym):
        """words of a module-level variable -> list or None"""
        if sym in self.memo:
            return self.memo[sym]
        self.memo[sym] = None
        mod, _, nm = sym.rpartition(".")
        m = next((x for x in self.c.p.modules.values() if x.name == mod), None)
        if m is None:
            return None
        r = self.c.p.resolve_name(m, nm)
        if r is None or r[0] != "var" or r[3] is None:
            return None
        it = self.c.interp(opaque=lambda x: not isinstance(x, Class) and getattr(x, "module", None) is not m)
        try:
            outs = it.run(expr_func(self.c, r[1], r[3]))
        except Exception:
            return None
        if any(o[1] != "return" for o in outs):
            return None
        self.terms[sym] = [(o[2], o[0]) for o in outs]
        if len(outs) != 1:
            return None
        self.memo[sym] = self.words(outs[0][2], outs[0][0])
        return self.memo[sym]

    def concrete(self, v, st=None, depth=0):
        """the name for one application and one instance, by folding what is made of them; Unknown when it can not be told"""
        if depth > 8:
            raise Unknown(show(v))
        env = {}
        for t in set(subterms(v)):
            if not isinstance(t, tuple) or not t or t[0] == "K" or not isinstance(t[0], str):
                continue
            w = self.words(t, st)
            if w is not None:
                env[t] = self.spelled(w)
            elif t[0] == "S" and t[1] in self.terms:
                got = set()
                for v2, st2 in self.terms[t[1]]:
                    try:
                        if all(bool(self.concrete(x, st2, depth + 1)) == b for x, b in st2.facts.items() if x[:2] != ("A", "is")):
                            got.add(self.concrete(v2, st2, depth + 1))
                    except Unknown:
                        got |= {None, ""}
                if len(got) == 1:
                    env[t] = got.pop()
        return folded(v, env)

    def spelled(self, words):
        app, inst = "some_long_application_name", "00Blue_Instance_7x"
        return "".join({"<APP>": app, "^<APP>": app.upper(), "<INSTANCE>": inst, "^<INSTANCE>": inst.upper()}.get(w, w) for w in words)

    def words(self, v, st=None):
        if v[0] == "K":
            return [str(v[2])] if v[1] == "str" else None
        if v[0] == "A" and v[1] == "attr" and v[3] == "instance" and v[2][0] == "S" and "command_line_args" in v[2][1]:
            return ["<INSTANCE>"]
        if v[0] == "S":
            return self.var(v[1])
        if v[0] == "A" and v[1] == "upper":
            w = self.words(v[2], st)
            return None if w is None else [x if x[0] == "^" else "^" + x if x[0] == "<" else x.upper() for x in w]
        if v[0] == "A" and v[1] in ("concat", "fstr"):
            out = []
            for x in v[2:]:
                w = self.words(x, st)
                if w is None:
                    return None
                out += w
            return join(out)
        if v[0] == "A" and v[1] == "str":
            return self.words(v[2], st)
        if st is not None and v[0] in ("R", "A"):
            ts = provenance(st, v)
            if any("sys.argv" in show(t) or (t[0] == "X" and t[1] == "sys.argv") for t in ts):
                return ["<APP>"]
        return None


def join(words):
    out = []
    for w in words:
        if out and out[-1][0] not in "<^" and w[0] not in "<^":
            out[-1] += w
        else:
            out.append(w)
    return out


def expected(postfix):
    return {"instance": [f"ECOENV_{postfix}_", "^<APP>", "_", "^<INSTANCE>"], "application": [f"ECOENV_{postfix}_", "^<APP>"], "machine": [f"ECOENV_{postfix}"]}


def lookups(st):
    """look-ups in the environment on a path -> [(event, name, default)]"""
    out = []
    for e in st.trace:
        if e.kind in ("call", "pure") and (e.label in ("os.environ.get", "os.getenv", "environ.get", "getenv") or
                                           (tail(e) == "get" and e.recv is not None and show(e.recv).endswith("os.environ"))) and e.args:
            out.append((e, e.args[0], e.args[1] if len(e.args) > 1 else e.kw.get("default")))
    return out


def factory(c, cl, field):
    """the function that gives a setting its value -> Func or None"""
    e = cl.attrs.get(field)
    if not isinstance(e, ast.Call):
        return None
    for k in e.keywords:
        if k.arg == "default_factory":
            if isinstance(k.value, ast.Lambda):
                return expr_func(c, cl.module, k.value.body)
            r = c.p.resolve_name(cl.module, k.value.id) if isinstance(k.value, ast.Name) else None
            if r and r[0] == "func":
                return r[1]
            return expr_func(c, cl.module, ast.copy_location(ast.Call(func=k.value, args=[], keywords=[]), k.value))
    return expr_func(c, cl.module, e)


def setting(c, R, RI, names, f, postfix, only, what, extra=()):
    it = c.interp()
    exp = expected(postfix)
    more = [expected(x) for x in extra]
    used_default = []
    for st, kind, v in c.run(it, f, R):
        if kind != "return" or not isinstance(v, tuple):
            continue
        ls = lookups(st)
        level, bad = {}, False
        if any(t[:2] == ("A", "item") and t[2][0] == "X" and t[2][1].split(".")[-1] == "environ" or
               t[:2] == ("A", "in") and any(x[0] == "X" and x[1].split(".")[-1] == "environ" for x in t[2:4])
               for y in [v] + list(st.facts) for t in subterms(y)):
            c.undecided(R, f.qual, f"{what}: looked up in a way that was not recognised")
            continue
        for e, name, d in ls:
            w = names.words(name, st)
            if w is None:
                try:
                    got = names.concrete(name, st)
                    lv = next((x for x in LEVELS if names.spelled(exp[x]) == got), None)
                    if lv is None and not any(names.spelled(y) == got for m in more for y in m.values()):
                        c.bad(R, e.loc, f"{what} of the instance {names.spelled(['<INSTANCE>'])} of {names.spelled(['<APP>'])} is taken from the variable {got}", st, kind)
                        bad = True
                        continue
                except Unknown:
                    pass
                c.undecided(R, e.loc, f"name of the variable not recognised: {show(name)[:80]}")
                bad = True
                continue
            lv = next((x for x in LEVELS if exp[x] == w), None)
            if lv is None:
                if any(w in m.values() for m in more):
                    continue
                c.bad(R, e.loc, f"{what} is taken from the variable {''.join(w)}, which is not ECOENV_{postfix} of this instance, application or machine", st, kind)
                bad = True
                continue
            level.setdefault(lv, []).append((e, d))
        if bad:
            continue
        if only:
            if any(lv != "instance" for lv in level):
                c.bad(RI, f.qual, f"{what} is also taken from the {[x for x in level if x != 'instance'][0]}", st, kind)
            elif not level:
                if ls:
                    c.undecided(RI, f.qual, "no look-up recognised")
                else:
                    c.bad(RI, f.qual, f"{what} is never looked up for the instance", st, kind)
            else:
                c.ok(RI, 1, f"{what}: instance only")
            continue
        prov = provenance(st, v)
        # the look-up the value comes from; defaults given to a look-up are looked at only when it finds nothing
        src = [lv for lv in LEVELS if lv in level and any(e.res in prov for e, d in level[lv])]
        chain_bad = False
        for lv in level:
            for e, d in level[lv]:
                if d is None:
                    continue
                for lv2 in level:
                    for e2, d2 in level[lv2]:
                        if e2 is not e and mentions(d, e2.res) and LEVELS.index(lv2) < LEVELS.index(lv):
                            chain_bad = True
                            c.bad(R, e.loc, f"{what}: the value of the {lv} wins over the value of the {lv2}", st, kind)
        if chain_bad:
            continue

        def absent(lv):
            """the path was taken because this level gave nothing"""
            for e, d in level.get(lv, []):
                if it.truth(st, e.res) is False or known_none(it, st, e.res) is True:
                    return True
            return False
        if src:
            # the value is the most specific of them unless one is the fallback of another
            top = src[0]
            chained = all(any(d is not None and any(mentions(d, e2.res) for e2, _ in level[b]) for e, d in level[a]) for a, b in zip(src, src[1:]))
            if len(src) > 1 and not chained:
                c.undecided(R, f.qual, f"{what}: the value is made of several levels")
                continue
            for lv in LEVELS[:LEVELS.index(top)]:
                if not absent(lv):
                    c.bad(R, f.qual, f"{what}: the value of the {top} is used although the {lv} may have its own" +
                          ("" if lv in level else " (which is not looked up before)"), st, kind)
                    break
            else:
                if len(src) > 1 and len(src) + LEVELS.index(top) < 3:
                    c.bad(R, f.qual, f"{what}: the value of the machine is never looked at", st, kind)
                else:
                    c.ok(R, 1, f"{what}: {top}")
        else:
            missing = [lv for lv in LEVELS if lv not in level]
            if missing:
                c.bad(R, f.qual, f"{what}: the default is used without looking for a value of the {missing[0]}", st, kind)
                continue
            ignored = [lv for lv in LEVELS if not absent(lv)]
            if ignored:
                if evs(st, "caught", "raise"):
                    c.undecided(R, f.qual, f"{what}: default after an exception")
                else:
                    c.bad(R, f.qual, f"{what}: the default is used although the {ignored[0]} has a value", st, kind)
                continue
            used_default.append(v)
            c.ok(R, 1, f"{what}: default")
    return used_default


PROBES = {"tcp": [("some.host:1234", {"host": "some.host", "port": 1234}), ("10.0.0.7:54321", {"host": "10.0.0.7", "port": 54321})],
          "uds": [("/srv/Run/My.sock", {"directory": "/srv/Run", "socket_file_name": "My.sock"}), ("/a/b/c.d", {"directory": "/a/b", "socket_file_name": "c.d"})]}
PROBES["udp"] = PROBES["tcp"]
# values of the other settings: numbers, and directories whose spelling matters
SCALARS = {"directory": "/srv/Log.d", "lock_directory": "/srv/Lock.d", "buffer_directory": "/srv/Buf.d"}


def possible(st, env):
    """whether a path is taken for given values: False when a condition folds to the contrary, None when one that speaks of them is not understood"""
    res = True
    for t, want in st.facts.items():
        if t in env:
            got = env[t]
        elif t[:2] == ("A", "is") and K(None) in t[2:] and any(mentions(t, x) for x in env):
            got = False
        elif t[0] == "A" and str(t[1]).split(".")[-1] in ("isdir", "exists"):
            continue                                       # the directory of the socket is there
        else:
            try:
                got = folded(t, env)
            except Unknown:
                res = None
                continue
        if bool(got) is not bool(want):
            return False
    return res


def as_written(c, R, f, field, what):
    """the value an application gets is the one that was written into the variable"""
    it = c.interp()
    for st, kind, v in c.run(it, f, R):
        if kind != "return" or not isinstance(v, tuple):
            continue
        ls = [e.res for e, _, _ in lookups(st) if it.truth(st, e.res) is True]
        if len(ls) != 1:
            continue
        fields = entry_fields(it, st, v) if v[0] == "O" else None
        probes = PROBES.get(field) or [(SCALARS.get(field, "1234"), None)]
        for text, want in probes:
            env = {ls[0]: text}
            p = possible(st, env)
            if p is False:
                continue
            if want is None:
                try:
                    got = folded(v, env)
                except Unknown:
                    c.undecided(R, f.qual, f"{what}: what is made of the value was not recognised: {show(v)[:60]}")
                    continue
                if got in (text, 1234):
                    c.ok(R, 1, f"{what}: {show(v)[:60]}")
                elif p is True:
                    c.bad(R, f.qual, f"{what}: the value {text} is read as {got}", st, kind)
                continue
            if v == K(None):
                if p is True and not any(t[0] == "A" and str(t[1]).split(".")[-1] in ("isdir", "exists") and b is False for t, b in st.facts.items()):
                    c.bad(R, f.qual, f"{what}: the address {text} is ignored", st, kind)
                continue
            if not fields:
                c.undecided(R, f.qual, f"{what}: the address was not recognised: {show(v)[:60]}")
                continue
            for k, w in want.items():
                if k not in fields:
                    c.bad(R, f.qual, f"{what}: the {k} of the address {text} is not taken over", st, kind)
                    continue
                try:
                    got = folded(fields[k], env)
                except Unknown:
                    c.undecided(R, f.qual, f"{what}: {k} not recognised: {show(fields[k])[:60]}")
                    continue
                if got == w or str(got) == str(w):
                    c.ok(R, 1, f"{what}: {k} = {show(fields[k])[:50]}")
                elif p is True or any(mentions(fields[k], x) for x in env):
                    c.bad(R, f.qual, f"{what}: the address {text} is read as {k} {got!r}", st, kind)


def check_C25(c):
    R, RI, RX, RA = "precedence", "instance-only", "extra-precedence", "configuration-of-this-instance"
    c.rule(R, "on every path of the function that yields a setting, the value used is that of the most specific level that has one: a less specific level is used only after "
              "every more specific one was looked up under the documented name and gave nothing, the default only after all of them", 6)
    c.rule(RI, "the addresses of servers are looked up only under the name that carries application and instance", 2)
    c.rule(RX, "extra settings are collected so that those of the application overwrite those of the machine and those of the instance overwrite both, under the name without the prefix", 1)
    c.rule(RA, "what an application sees is the configuration of its own instance, each setting under its own name", 4)
    RW = "as-written"
    c.rule(RW, "the value of a setting is what was written into the variable: with a sample value put in for the result of the look-up, the number, directory, host and port or "
               "directory and socket file that the function yields fold to exactly its parts", 8)
    names = Names(c)
    dirs = {}
    for (cn, field), (postfix, only) in SETTINGS.items():
        cs = c.p.by_name.get(cn, [])
        if len(cs) != 1:
            c.undecided(R, cn, "class not found")
            continue
        f = factory(c, cs[0], field)
        if f is None:
            c.undecided(R, f"{cs[0].qual}.{field}", "how the setting gets its value was not recognised")
            continue
        extra = ("DEFAULT_DIR",) if field in ("directory", "lock_directory") else ()
        for v in setting(c, R, RI, names, f, postfix, only, f"setting '{field}' ({postfix})", extra) or []:
            if extra and v[0] == "S":
                dirs.setdefault(v[1], field)
        as_written(c, RW, f, field, f"setting '{field}' ({postfix})")
    # the default directory is itself a setting
    for sym in dirs:
        mod, _, nm = sym.rpartition(".")
        m = next((x for x in c.p.modules.values() if x.name == mod), None)
        r = c.p.resolve_name(m, nm) if m else None
        if r and r[0] == "var" and r[3] is not None:
            setting(c, R, RI, names, expr_func(c, r[1], r[3]), "DEFAULT_DIR", False, "default directory (DEFAULT_DIR)")

    extras(c, RX, names)
    consumers(c)
    own_instance(c, RA, names)


def extras(c, R, names):
    cs = c.p.by_name.get("ConfigApplicationInstance", [])
    f = factory(c, cs[0], "extra") if cs else None
    if f is None:
        c.undecided(R, "extra", "not found")
        return
    it = c.interp()
    outs = c.run(it, f, R)
    exp = {"machine": ["ECOENV_EXTRA_"], "application": ["ECOENV_EXTRA_", "^<APP>", "_"], "instance": ["ECOENV_EXTRA_", "^<APP>", "_", "^<INSTANCE>", "_"]}
    stores = []      # (position of the loop, level of the variable, level whose prefix is removed, event)
    for st, kind, v in outs:
        if kind != "cut":
            continue
        starts = [e for e in st.trace if e.kind == "loop" and e.loc == v["loc"]]
        if not starts:
            continue
        order = len([e for e in st.trace if e.kind == "loop" and e.n < starts[-1].n])
        for e in st.trace:
            if e.n <= starts[-1].n or e.kind != "setitem":
                continue
            known = {}
            odd = None
            for t, val in st.facts.items():
                if t[:2] == ("A", "startswith") and isinstance(t[3], tuple):
                    w = names.words(t[3], st)
                    lv = next((x for x in exp if exp[x] == w), None)
                    if lv is None:
                        odd = w or "?"
                        if w is not None and w[0].startswith("ECOENV_EXTRA") and val:
                            c.bad(R, e.loc, f"extra settings are taken from variables beginning with {''.join(w)}: those of another instance or application are among them", st, kind)
                    else:
                        known[lv] = val
            yes = [x for x in ("instance", "application", "machine") if known.get(x)]
            if odd is not None or not yes:
                c.undecided(R, e.loc, f"which variables are taken was not recognised ({odd})")
                continue
            cutoff = None
            key = e.args[0]
            for t in subterms(key):
                if t[:2] in (("A", "replace"), ("A", "removeprefix")) and len(t) > 3 and isinstance(t[3], tuple):
                    w = names.words(t[3], st)
                    cutoff = next((x for x in exp if exp[x] == w), cutoff)
                if t[:2] == ("A", "slice"):
                    ln = next((x for x in subterms(t[3]) if x[:2] == ("A", "len")), None)
                    if ln is not None:
                        w = names.words(ln[2], st)
                        cutoff = next((x for x in exp if exp[x] == w), cutoff)
            stores.append((order, yes[0], cutoff, e, st))
            if cutoff is None:
                c.undecided(R, e.loc, "the name it is kept under was not recognised")
            elif cutoff != yes[0]:
                c.bad(R, e.loc, f"an extra setting of the {yes[0]} is kept under its name without the prefix of the {cutoff}", st, kind)
            else:
                c.ok(R, 1, f"{e.loc}: {yes[0]}")
    rank = {"machine": 0, "application": 1, "instance": 2}
    for a in stores:
        for b in stores:
            if a[0] < b[0] and rank[a[1]] > rank[b[1]]:
                c.bad(R, b[3].loc, f"extra settings of the {b[1]} overwrite those of the {a[1]}", b[4], "cut")
            elif a[0] == b[0] and a[1] != b[1]:
                c.undecided(R, b[3].loc, "several levels are collected in one pass")
    if stores and not any(s[1] == "instance" for s in stores) and not any(s[1] == "application" and s[2] == "instance" for s in stores):
        if not c.und:
            c.bad(R, f.qual, "extra settings of the instance are not taken")
    elif stores and not c.und:
        for lv in ("machine", "application"):
            if not any(s[1] == lv for s in stores):
                c.bad(R, f.qual, f"extra settings of the {lv} are not taken")
    if not stores:
        c.undecided(R, f.qual, "how extra settings are collected was not recognised")


def own_instance(c, R, names):
    cl = c.cls("AppConfiguration")
    inst = c.p.by_name.get("ConfigApplicationInstance", [])
    fields = set(inst[0].ann) if inst else set()
    it = c.interp(opaque=lambda x: not isinstance(x, Class))
    roots = {}
    for a, e in cl.attrs.items():
        if a not in fields:
            continue
        try:
            outs = it.run(expr_func(c, cl.module, e))
        except Exception:
            outs = []
        if len(outs) != 1 or outs[0][1] != "return":
            c.undecided(R, f"{cl.qual}.{a}", "not recognised")
            continue
        v = outs[0][2]
        if v[:2] == ("A", "attr") and v[3] in fields:
            if v[3] != a:
                c.bad(R, f"{cl.qual}.{a}", f"setting '{a}' is the configured '{v[3]}'")
                continue
            roots.setdefault(v[2], []).append(a)
            c.ok(R, 1, f"AppConfiguration.{a} = {show(v)}")
        else:
            c.undecided(R, f"{cl.qual}.{a}", f"not recognised: {show(v)[:60]}")
    for r in roots:
        v = r
        if v[0] == "S":
            mod, _, nm = v[1].rpartition(".")
            m = next((x for x in c.p.modules.values() if x.name == mod), None)
            rr = c.p.resolve_name(m, nm) if m else None
            if not rr or rr[0] != "var" or rr[3] is None:
                c.undecided(R, v[1], "not recognised")
                continue
            outs = it.run(expr_func(c, rr[1], rr[3]))
            v = outs[0][2] if len(outs) == 1 and outs[0][1] == "return" else v
        if v[:2] in (("A", "item"), ("A", "get")) and last_attr(v[2]) == "instances":
            w = names.words(v[3])
            if w is None:
                c.undecided(R, show(r), f"key not recognised: {show(v[3])}")
            elif w != ["<INSTANCE>"]:
                c.bad(R, show(r), f"the configuration of the instance {''.join(w)} is used, not that of the running one")
            else:
                c.ok(R, 1, f"{show(r)} = {show(v)}")
        else:
            c.undecided(R, show(r), f"not recognised: {show(v)[:80]}")


def config_attr(v):
    """the configured setting a value is, or None"""
    ch, base = attr_chain(v)
    return ch[-1] if ch else None


KNOWN = {f for _, f in SETTINGS} | {"base_file_path", "base_file_name", "host", "port", "directory", "socket_file_name", "name", "instance", "extra", "logging", "stats_keeper"}


def consumers(c):
    R = "setting-is-used"
    c.rule(R, "each configured value is handed to the part it configures: gather period and history length to the statistics, addresses to their servers and those to the "
              "listening call, file settings to the log file handler, and the buffer directory to the queues", 6)

    def expect(what, v, want, loc, st, kind):
        if v is None:
            c.bad(R, loc, f"{what} is not taken from the configuration", st, kind)
            return
        if v[0] == "K":
            c.bad(R, loc, f"{what} is {show(v)}, whatever is configured", st, kind)
            return
        a = config_attr(v)
        names = {t[3] for t in subterms(v) if t[:2] == ("A", "attr") and isinstance(t[3], str)}
        if a == want or (a is None and want in names):
            c.ok(R, 1, f"{what} <- {show(v)[-60:]}")
        elif a in KNOWN and want not in names:
            c.bad(R, loc, f"{what} is the configured '{a}', not '{want}'", st, kind)
        else:
            c.undecided(R, loc, f"{what}: {show(v)[:60]} not recognised")

    app = c.cls("ApplicationBase")
    servers = {"TCPServer": "tcp", "UDPServer": "udp", "UDSServer": "uds"}

    def opq(x):
        if isinstance(x, Class):
            return x.name in servers
        return x.cls is not None and x.cls.name == "StatisticsKeeper"
    it = c.interp(opaque=opq, may_raise=not_there)
    seen = set()
    f = c.find(app, "__init__")
    outs = c.run(it, f, R)
    for st, kind, v in outs:
        if kind != "return":
            continue
        for e in evs(st, "opaque", "new", "call"):
            t = tail(e)
            vals = list(e.args) + list(e.kw.values())
            if t in ("set_gather_period", "set_history_length") and vals:
                seen.add(t)
                expect("the gather period" if "gather" in t else "the history length", vals[0], t[4:], e.loc, st, kind)
            elif t in servers and vals:
                seen.add(t)
                expect(f"the address of the {servers[t].upper()} server", vals[0], servers[t], e.loc, st, kind)
    bases = {}
    for st, kind, v in outs:
        for e in evs(st, "opaque", "new", "call"):
            vals = list(e.args) + list(e.kw.values())
            if tail(e) in servers and vals and vals[0][:2] == ("A", "attr") and vals[0][3] == servers[tail(e)]:
                bases[tail(e)] = vals[0]
    for st, kind, v in outs:
        if kind != "return":
            continue
        made = {tail(e) for e in evs(st, "opaque", "new", "call")}
        for t, term in bases.items():
            if t not in made and it.truth(st, term) is not False and known_none(it, st, term) is not True:
                c.bad(R, f.qual, f"no {servers[t].upper()} server is made although its address may be configured", st, kind)
    if not any(k == "return" for _, k, _ in outs):
        c.undecided(R, f.qual, "how the application is set up was not recognised")
    else:
        for t in ("set_gather_period", "set_history_length"):
            if t not in seen:
                c.bad(R, f.qual, f"the configured {t[4:].replace('_', ' ')} is never handed to the statistics")
        for t in servers:
            if t not in seen:
                c.bad(R, f.qual, f"no {servers[t].upper()} server is made when its address is configured")

    # the address a server listens on
    for name, want in (("TCPServer", ("host", "port")), ("UDPServer", ("host", "port")), ("UDSServer", ("directory", "socket_file_name"))):
        cl = c.cls(name)
        it = c.interp()
        init = c.find(cl, "__init__")
        p = [a.arg for a in init.node.args.args][1:]
        if len(p) != 1:
            c.undecided(R, init.qual, "parameters not recognised")
            continue
        cfg = ("S", "configuration", "c:" + c.cls("Config" + name[:3]).qual)
        n = 0
        try:
            for st, k, obj in it.apply(empty_state(), ("C", cl.qual), [cfg]):
                if k != "return":
                    continue
                steps = [(st, k, obj)]
                for m in ("__aenter__", "serve"):
                    g = c.p.find_method(cl, m)
                    steps = [o for s2, k2, _ in steps if k2 == "return" for o in it.apply(s2, ("F", g.fid, None, obj), [])]
                for s2, k2, v2 in steps:
                    for e in evs(s2, "call"):
                        t = tail(e)
                        if t == "start_server" and len(e.args) > 2 or t == "start_server" and "host" in e.kw:
                            addr = (e.args[1], e.args[2]) if len(e.args) > 2 else (e.kw.get("host"), e.kw.get("port"))
                        elif t == "create_datagram_endpoint" and e.kw.get("local_addr", (0,))[0] == "T":
                            addr = e.kw["local_addr"][1:]
                        elif t == "start_unix_server":
                            pth = e.args[1] if len(e.args) > 1 else e.kw.get("path")
                            if pth is None:
                                continue
                            at = [x[3] for x in subterms(pth) if x[:2] == ("A", "attr")]
                            n += 1
                            if set(want) <= set(at):
                                c.ok(R, 1, f"{name} listens on {show(pth)[:60]}")
                            elif pth[0] == "A" and pth[1] == "concat":
                                c.bad(R, e.loc, f"{name} does not listen on the configured path but on {show(pth)}", s2, k2)
                            else:
                                c.undecided(R, e.loc, "path not recognised")
                            continue
                        else:
                            continue
                        n += 1
                        for a, w in zip(addr, want):
                            expect(f"the {w} {name} listens on", a, w, e.loc, s2, k2)
        except Budget:
            pass
        if not n:
            c.undecided(R, cl.qual, "no listening call recognised")

    # the log file
    h = c.cls("BufferedRotatingFileHandler")
    spec = {"filename": "base_file_path", "buffer_size": "buffer_size", "max_bytes": "max_size_in_bytes", "backup_count": "max_files"}
    it = c.interp(opaque=lambda x: isinstance(x, Class) and x.name == h.name)
    f = c.find(c.cls("EcoLogger"), "setup")
    params = [a.arg for a in c.find(h, "__init__").node.args.args][1:]
    for st, kind, v in c.run(it, f, R):
        for e in evs(st, "new", "opaque", "call"):
            if e.label.split(".")[-1] != h.name:
                continue
            kw = dict(zip(params, e.args))
            kw.update(e.kw)
            for a, w in spec.items():
                if a == "filename":
                    x = kw.get(a)
                    if x is not None and x[0] == "A" and x[1] == "concat":
                        at = [t[3] for t in subterms(x) if t[:2] == ("A", "attr")]
                        if {"directory"} <= set(at) and {"name", "instance"} <= set(at) | {"name" if "base_file_name" in at else "", "instance" if "base_file_name" in at else ""}:
                            c.ok(R, 1, f"log file {show(x)[:80]}")
                        else:
                            c.bad(R, e.loc, f"the log file is not that of this application and instance in the configured directory: {show(x)}", st, kind)
                        continue
                expect(f"'{a}' of the log file handler", kw.get(a), w, e.loc, st, kind)
    it = c.interp()
    f = c.find(h, "__init__")
    for st, kind, v in c.run(it, f, R):
        for e in evs(st, "new", "call", "opaque"):
            if e.label.split(".")[-1] != "RotatingFileHandler":
                continue
            for a, w in (("maxBytes", "max_bytes"), ("backupCount", "backup_count")):
                x = e.kw.get(a)
                pos = {"maxBytes": 2, "backupCount": 3}[a]
                if x is None and len(e.args) > pos:
                    x = e.args[pos]
                if x is None or x[0] == "K":
                    c.bad(R, e.loc, f"{a} of the log file is {show(x) if x else 'not given'}, whatever is configured", st, kind)
                elif x[0] == "S" and x[1] in params and x[1] != w:
                    c.bad(R, e.loc, f"{a} of the log file is '{x[1]}'", st, kind)
                else:
                    c.ok(R)
