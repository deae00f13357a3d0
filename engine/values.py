"""Abstract values: hashable tuples. No concrete program value is ever computed by running the program;
constants are folded only when they stand in the source.

('K', tname, const)            constant from the source
('S', name, typekey)           symbol: a parameter, a singleton, a module-level object
('O', n)                       object allocated on this path (its contents live in the state)
('R', n, label, typekey)       result of event number n on this path
('H', loopid, key, typekey)    value at the head of a loop (anything an earlier iteration may have left)
('E', base, excluded, n)       an exception of class base (or a subclass), not one of excluded
('A', op, *args)               pure term over values
('L', const, ((term,k),...))   linear integer form
('F', fid, envid, self)        function / bound method        ('C', qual)   class
('X', dotted)                  external name                  ('M', module) module
('P', f, args, kwargs)         partial application            ('T', v...)   tuple
('B', recv, name)              bound method of a non-repository object
('Coro', n)                    coroutine object not yet awaited
"""
import ast

NONE = ("K", "NoneType", None)
TRUE = ("K", "bool", True)
FALSE = ("K", "bool", False)


def K(v):
    return ("K", type(v).__name__, v)


def A(op, *args):
    return ("A", op) + args


def is_const(v):
    return v[0] == "K"


def is_none(v):
    return v == NONE


# ----------------------------------------------------------------- linear integer forms
def lin(v):
    """-> (const, {term: coef}) or None when v can not be a number"""
    if v[0] == "K":
        if v[1] in ("int", "bool"):
            return int(v[2]), {}
        if v[1] == "float":
            return v[2], {}
        return None
    if v[0] == "L":
        return v[1], dict(v[2])
    if v[0] in ("T", "F", "C", "X", "M", "P", "B", "O", "Coro", "E"):
        return None
    if v[0] == "A" and v[1] in ("fstr", "concat", "str", "encode", "bytes", "slice", "model_dump_json"):
        return None
    return 0, {v: 1}


def mklin(c, terms):
    t = tuple(sorted(((k, n) for k, n in terms.items() if n != 0), key=repr))
    if not t:
        return K(c)
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ("L", c, t)


def add(a, b, sign=1):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    terms = dict(la[1])
    for k, n in lb[1].items():
        terms[k] = terms.get(k, 0) + sign * n
    return mklin(la[0] + sign * lb[0], terms)


def mul(a, b):
    la, lb = lin(a), lin(b)
    if la is None or lb is None:
        return None
    if not la[1]:
        la, lb = lb, la
    if lb[1]:
        return None
    k = lb[0]
    return mklin(la[0] * k, {t: n * k for t, n in la[1].items()})


def subterms(v):
    """every value occurring in v, v included"""
    yield v
    if isinstance(v, tuple):
        for x in v[1:]:
            if isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    yield from subterms(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            yield from subterms(y)
                        elif isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, tuple) and z and isinstance(z[0], str):
                                    yield from subterms(z)


def mentions(v, t):
    return any(x == t for x in subterms(v))


def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth > 5:
        return "…"
    d = depth + 1
    t = v[0]
    if t == "K":
        return repr(v[2])
    if t == "S":
        return v[1]
    if t == "O":
        return f"obj#{v[1]}"
    if t == "R":
        return f"{v[2]}()#{v[1]}"
    if t == "H":
        return f"{v[2]}@loop{v[1]}" if isinstance(v[2], str) else f"{'.'.join(map(str, v[2][-1:]))}@loop{v[1]}"
    if t == "E":
        return f"<{v[1]}>"
    if t == "L":
        return " + ".join([f"{k}*{show(x, d)}" if k != 1 else show(x, d) for x, k in v[2]] + ([str(v[1])] if v[1] else []))
    if t == "F":
        return f"function#{v[1]}"
    if t in ("C", "X", "M"):
        return v[1]
    if t == "T":
        return "(" + ", ".join(show(x, d) for x in v[1:]) + ")"
    if t == "B":
        return f"{show(v[1], d)}.{v[2]}"
    if t == "A":
        if v[1] == "attr":
            return f"{show(v[2], d)}.{v[3]}"
        if v[1] == "item":
            return f"{show(v[2], d)}[{show(v[3], d)}]"
        if v[1] == "elem":
            return f"each({show(v[2], d)})"
        return f"{v[1]}({', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in v[2:])})"
    return f"{t}:{v[1:]}"
