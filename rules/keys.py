"""C35: keys survive every representation unchanged."""
import re

from rules.base import *
from rules.servers import tail

SIZE = {"trace_id": 16, "span_id": 8}


def kwargs_of(v):
    """positional and keyword arguments of a pure term"""
    pos, kw = [], {}
    for x in v[2:]:
        if isinstance(x, tuple) and x[0] == "T" and len(x) == 3 and x[1][:2] == ("K", "str"):
            kw[x[1][2]] = x[2]
        elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) and x[0] not in ("K", "S", "A", "R", "O", "H", "L", "T", "C", "X", "F", "B", "P", "E", "M"):
            kw[x[0]] = x[1]
        else:
            pos.append(x)
    return pos, kw


def codec(st, v):
    """(kind, operand, size, order, signed) of a conversion between int and bytes, or None"""
    e = None
    if v[0] == "R":
        e = next((x for x in st.trace if x.res == v), None)
        if e is None:
            return None
        name, pos, kw = tail(e), list(e.args), dict(e.kw)
        if name == "to_bytes" and e.recv is not None:
            pos = [e.recv] + pos
    elif v[0] == "A":
        name = v[1].split(".")[-1]
        pos, kw = kwargs_of(v)
    else:
        return None
    if name not in ("from_bytes", "to_bytes") or not pos:
        return None
    signed = kw.get("signed", FALSE)
    if name == "from_bytes":
        return "from_bytes", pos[0], None, pos[1] if len(pos) > 1 else kw.get("byteorder", K("big")), signed
    return "to_bytes", pos[0], pos[1] if len(pos) > 1 else kw.get("length", K(1)), pos[2] if len(pos) > 2 else kw.get("byteorder", K("big")), signed


def hex_width(v, val):
    """(width or None when unpadded, True) when v writes val in hexadecimal; None when not recognised"""
    if v[:2] == ("A", "concat") and len(v) == 3:
        v = v[2]
    if v[0] == "A" and v[1] in ("fmt", "format") and v[2] == val:
        spec = next((x for x in v[3:] if isinstance(x, str) or (isinstance(x, tuple) and x[0] == "K")), "")
        spec = spec if isinstance(spec, str) else spec[2]
        m = re.fullmatch(r"(?:f?['\"])?(0?)(\d*)([xX])(?:['\"])?", spec)
        if m:
            return (int(m.group(2)) if m.group(1) and m.group(2) else None, True)
        return None
    if v[0] == "A" and v[1] in ("mod", "%") and v[2][0] == "K" and isinstance(v[2][2], str):
        m = re.fullmatch(r"%(0?)(\d*)[xX]", v[2][2])
        if m:
            return (int(m.group(2)) if m.group(1) and m.group(2) else None, True)
        return None
    if v[0] == "A" and v[1] in ("zfill", "rjust"):
        inner = v[2]
        if v[1] == "rjust" and (len(v) < 5 or v[4] != K("0")):
            return (None, True)
        if v[3][0] == "K" and mentions(inner, val):
            return (v[3][2], True)
    if v[0] == "A" and v[1] == "slice" and v[2][:2] == ("A", "hex") and v[2][2] == val:
        return (None, True)
    if v[:2] == ("A", "hex") and mentions(v, val) and any(t[0] == "A" and t[1].endswith("to_bytes") for t in subterms(v) if isinstance(t, tuple)):
        return (16, True)
    return None


def check_C35(c):
    RI, RK, RJ, RE, RG = "span-id-conversions", "key-conversions", "json", "equality", "generation"
    c.rule(RI, "bytes and hexadecimal text of a span id are read with the width, order and base they are written with; other lengths, digits and numbers out of range are refused", 5)
    c.rule(RK, "a key is put together from and taken apart into the same parts, at the same places", 2)
    c.rule(RJ, "the JSON form of a span id is one that its validator reads as the same value; anything else is refused", 3)
    c.rule(RE, "keys are equal exactly when both parts are, and the hash depends on nothing else", 4)
    c.rule(RG, "a new key is random in both parts, drawn anew each time", 1)
    S, SK = c.cls("SpanId"), c.cls("SpanKey")
    it = c.interp()
    f = c.find(S, "value")
    vals = {v for st, kind, v in c.run(it, f, RI) if kind == "return"}
    if len(vals) != 1 or list(vals)[0][:2] != ("A", "attr"):
        c.undecided(RI, f.qual, "what holds the value was not recognised")
        return
    val = vals.pop()
    attr = val[3]

    # ---- written form
    wb = None
    f = c.find(S, "bytes")
    for st, kind, v in c.run(it, f, RI):
        if kind != "return":
            continue
        k = codec(st, v)
        if k is None or k[0] != "to_bytes" or k[1] != val:
            c.undecided(RI, f.qual, f"not recognised: {show(v)[:60]}")
            continue
        wb = k
        if k[2] != K(8) and k[2][0] == "K":
            c.bad(RI, f.qual, f"the bytes of a span id are {show(k[2])} long", st, kind)
        elif k[4] not in (FALSE, None):
            c.bad(RI, f.qual, "a span id above 2^63 can not be written as a signed number", st, kind)
        else:
            c.ok(RI, 1, f"bytes: {show(k[2])}, {show(k[3])}")
    f = c.find(S, "hex")
    hexterm = None
    for st, kind, v in c.run(it, f, RI):
        if kind != "return":
            continue
        hexterm = v
        w = hex_width(v, val)
        if w is None:
            c.undecided(RI, f.qual, f"not recognised: {show(v)[:60]}")
        elif w[0] != 16:
            c.bad(RI, f.qual, f"the text of a span id is padded to {w[0] or 'nothing'}, not to its 16 digits: a value with leading zeros is not read back", st, kind)
        else:
            c.ok(RI, 1, "hex: 16 digits")
    for name in ("__str__",):
        f = c.p.find_method(S, name)
        if f is not None:
            for st, kind, v in c.run(it, f, RI):
                if kind == "return":
                    if v == hexterm or (hex_width(v, val) or (0,))[0] == 16:
                        c.ok(RI)
                    elif v[0] == "A" and v[1] in ("concat", "str", "fmt") or v == val:
                        c.bad(RK, f.qual, f"the text of a span id is {show(v)[:60]}, not its 16 digits", st, kind)
                    else:
                        c.undecided(RK, f.qual, "text not recognised")

    # ---- read back
    init = S.methods.get("__init__")
    if init is not None:
        ps = [a.arg for a in init.node.args.args[1:]]
        if {"int_", "bytes_", "hex_"} <= set(ps):
            for p, ty in (("int_", "x:int"), ("bytes_", "x:bytes"), ("hex_", "x:str")):
                sym = ("S", p, ty)
                it2 = c.interp()
                outs = c.run(it2, init, RI, args={**{q: NONE for q in ps}, p: sym})
                rets = []
                for st, kind, v in outs:
                    if kind != "return" or st.facts.get(A("is", NONE, sym)) is True or st.facts.get(A("is", sym, NONE)) is True:
                        continue
                    sets = [e for e in evs(st, "set") if e.label == attr]
                    if not sets:
                        c.bad(RI, init.qual, f"a span id made from {p} has no value", st, kind)
                        continue
                    rets.append((st, sets[-1].args[0], sets[-1]))
                if not rets:
                    c.undecided(RI, init.qual, f"{p}: no path")
                    continue
                {"int_": from_int, "bytes_": from_bytes, "hex_": from_hex}[p](c, RI, init, rets, sym, wb)
        else:
            c.undecided(RI, init.qual, "parameters not recognised")
    json_form(c, RJ, S, attr, val, hexterm)
    equality(c, RE, S, SK, attr)
    keyforms(c, RK, SK)
    generation(c, RG, SK)


def lossy(v, x):
    """v keeps only some of the bits of x"""
    if v[0] == "A" and v[1] == "bitand" and x in v[2:]:
        return any(m[0] == "K" and isinstance(m[2], int) and m[2] & (2 ** 64 - 1) != 2 ** 64 - 1 for m in v[2:] if m != x)
    return v[0] == "A" and v[1] in ("rshift", "abs", "invert", "bitor", "bitxor") and v[2] == x


def from_int(c, R, f, rets, sym, wb):
    pts = (-1, 0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64)
    ok = set()
    for st, v, e in rets:
        if v != sym:
            c.bad(R, e.loc, f"the value made from a number is {show(v)[:50]}", st) if v[0] in ("K", "L") or lossy(v, sym) else c.undecided(R, e.loc, "value not recognised")
            return
        for x in pts:
            try:
                holds = True
                for t, val in st.facts.items():
                    if t[0] == "A" and t[1] in ("lt", "le", "gt", "ge", "eq", "ne") and mentions(t, sym) and not any(y[0] == "A" and y[1] in ("count", "listof", "bit_length") for y in subterms(t) if isinstance(y, tuple)):
                        if bool(point(t, {sym: x})) != val:
                            holds = False
                    elif any(y[0] == "A" and y[1] == "bit_length" for y in subterms(t) if isinstance(y, tuple)):
                        raise Unknown("bit_length")
            except Unknown as ex:
                c.undecided(R, f.qual, f"range not recognised: {ex}")
                return
            if holds:
                ok.add(x)
    want = set(pts[1:-1])
    if ok - want:
        c.bad(R, f.qual, f"a span id outside 64 bits is accepted: {sorted(ok - want)[0]}")
    elif want - ok:
        c.bad(R, f.qual, f"the span id {sorted(want - ok)[0]} is refused")
    else:
        c.ok(R, 1, "numbers of 64 bits, no others")


def from_bytes(c, R, f, rets, sym, wb):
    for st, v, e in rets:
        k = codec(st, v)
        if k is None or k[1] != sym:
            c.undecided(R, e.loc, f"value made from bytes not recognised: {show(v)[:60]}")
            continue
        if wb is not None and (k[3] != wb[3]):
            c.bad(R, e.loc, f"bytes are written {show(wb[3])}-endian and read {show(k[3])}-endian", st)
            continue
        if k[4] not in (FALSE, None):
            c.bad(R, e.loc, "bytes are read as a signed number", st)
            continue
        if A("eq", A("len", sym), K(8)) in [t for t, val in st.facts.items() if val]:
            c.ok(R, 1, "8 bytes, read as written")
        else:
            lens = [t for t in st.facts if any(y[:2] == ("A", "len") for y in subterms(t))]
            if not lens:
                c.bad(R, e.loc, "bytes of any length are accepted as a span id", st)
            else:
                good = set()
                try:
                    L = next(y for t in lens for y in subterms(t) if isinstance(y, tuple) and y[:2] == ("A", "len"))
                    for n in range(0, 20):
                        if all(bool(point(t, {L: n})) == st.facts[t] for t in lens):
                            good.add(n)
                except (Unknown, StopIteration):
                    c.undecided(R, e.loc, "length test not recognised")
                    continue
                if good == {8}:
                    c.ok(R)
                else:
                    c.bad(R, e.loc, f"bytes of length {sorted(good ^ {8})[0]} are {'refused' if good < {8} else 'accepted'} as a span id", st)


def from_hex(c, R, f, rets, sym, wb):
    for st, v, e in rets:
        if v[0] == "A" and v[1] == "int" and v[2] == sym:
            base = v[3] if len(v) > 3 else K(10)
            base = base[1] if isinstance(base, tuple) and base[0] == "base" else base
            if base != K(16):
                c.bad(R, e.loc, f"text is written in base 16 and read in base {show(base)}", st)
                continue
        else:
            k = codec(st, v)
            if not (k and mentions(k[1], sym) and (wb is None or k[3] == wb[3])):
                if k and wb is not None and k[3] != wb[3]:
                    c.bad(R, e.loc, "text is read in another byte order than it is written", st)
                else:
                    c.undecided(R, e.loc, f"value made from text not recognised: {show(v)[:60]}")
                continue
            c.ok(R)
            continue
        if any(y[0] == "A" and y[1].split(".")[-1] in ("fullmatch", "match") or y[0] == "R" and y[2].split(".")[-1] in ("fullmatch", "match") for t in st.facts for y in subterms(t) if isinstance(y, tuple)):
            c.undecided(R, e.loc, "text is tested with a pattern")
            continue
        lens = [t for t in st.facts if any(y == A("len", sym) for y in subterms(t))]
        try:
            good = {n for n in range(0, 40) if all(bool(point(t, {A("len", sym): n})) == st.facts[t] for t in lens)}
        except Unknown:
            c.undecided(R, e.loc, "length test not recognised")
            continue
        other = [t for t in st.facts if t not in lens and any(y == sym for y in subterms(t)) and t[:2] != ("A", "is") and t != sym and
                 not any(y[:2] in (("A", "count"), ("A", "isinstance")) for y in subterms(t) if isinstance(y, tuple))]
        if good != {16}:
            c.bad(R, e.loc, f"text of length {sorted(good ^ {16})[0]} is accepted as a span id" if good - {16} else "text of 16 digits is refused", st)
        elif not other and not [x for x in st.trace if x.kind in ("call", "pure") and tail(x) in ("fullmatch", "match", "fromhex", "unhexlify")]:
            c.bad(R, e.loc, "text that is not hexadecimal digits (a sign, blanks, underscores, 0x) is accepted as a span id", st)
        else:
            c.ok(R, 1, "16 hexadecimal digits, base 16")


def json_form(c, R, S, attr, val, hexterm):
    it = c.interp()
    f = S.methods.get("_validate")
    sch = S.methods.get("__get_pydantic_core_schema__")
    if sch is None:
        c.undecided(R, S.qual, "no schema")
        return
    validator = None
    for st, kind, v in c.run(it, sch, R, selfval=("C", S.qual)):
        if kind != "return":
            continue
        used = [e for e in evs(st, "call", "pure", "opaque")]
        for e in used:
            fs = [a for a in list(e.args) + list(e.kw.values()) if isinstance(a, tuple) and a[0] == "F"]
            if "serializer" in e.label and fs:
                x = ("S", "a-span-id", "c:" + S.qual)
                try:
                    outs = it.apply(st, fs[0], [x], {})
                except Exception as ex:
                    c.undecided(R, e.loc, f"gave up: {ex}")
                    continue
                for s2, k2, v2 in outs:
                    if k2 != "return":
                        continue
                    w = hex_width(v2, A("attr", x, attr))
                    if (w and w[0] == 16) or v2 == A("attr", x, attr):
                        c.ok(R, 1, f"{e.loc}: serialised as {show(v2)[:40]}")
                    elif w or v2[0] == "K" or (v2[0] == "A" and v2[1] == "str") or (codec(s2, v2) or (0,))[0] == "to_bytes":
                        c.bad(R, e.loc, f"a span id is serialised as {show(v2)[:50]}, which is not read back as the same value", s2, k2)
                    else:
                        c.undecided(R, e.loc, f"serialised form not recognised: {show(v2)[:50]}")
            if "validator" in e.label:
                vs = [a for a in fs if c.p.funcs[a[1]].node is not None]
                if vs:
                    validator = vs[0]
    if validator is None:
        c.undecided(R, sch.qual, "validator not recognised")
        return
    g = c.p.funcs[validator[1]]
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.name == "__init__" and x.cls is not None and x.cls.name == "SpanId")
    p = [a.arg for a in g.node.args.args][-1]
    for st, kind, v in c.run(it, g, R, selfval=("C", S.qual)):
        types = {}
        for t, b in st.facts.items():
            if t[:2] == ("A", "isinstance") and t[2][:2] == ("S", p):
                for y in (t[3][1:] if t[3][0] == "T" else (t[3],)):
                    types[str(y[1] if y[0] in ("C", "X") else y).split(".")[-1]] = b
        pos = [t for t, b in types.items() if b]
        if kind == "raise":
            if "str" in pos:
                c.undecided(R, g.qual, "text may be refused")
            continue
        if kind != "return":
            continue
        news = [e for e in evs(st, "new") if e.label.endswith("SpanId")]
        if v[:2] == ("S", p):
            if "SpanId" in pos:
                c.ok(R)
            elif not pos:
                c.bad(R, g.qual, "a value that is no span id is accepted as it is", st, kind)
            else:
                c.bad(R, g.qual, f"a {pos[0]} is accepted as a span id as it is", st, kind)
            continue
        if not news:
            c.undecided(R, g.qual, "not recognised")
            continue
        e = news[-1]
        arg = [k for k, x in e.kw.items() if mentions(x, ("S", p, None)) or any(y[:2] == ("S", p) for y in subterms(x))]
        want = {"int": "int_", "bytes": "bytes_", "str": "hex_"}
        if not pos:
            c.bad(R, e.loc, "a value of any type is accepted as a span id", st, kind)
        elif len(arg) == 1 and pos[-1] in want:
            if arg[0] == want[pos[-1]]:
                c.ok(R, 1, f"{pos[-1]} read as {arg[0]}")
            else:
                c.bad(R, e.loc, f"a {pos[-1]} is read as {arg[0]}", st, kind)
        else:
            c.undecided(R, e.loc, "not recognised")


def parts(v, roots):
    """the parts of a key a term was made of, per owner"""
    out = {}
    for t in subterms(v):
        if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2] in roots:
            out.setdefault(t[2], set()).add(t[3])
    return out


def equality(c, R, S, SK, attr):
    it = c.interp()
    for k, atoms in ((S, (attr,)), (SK, ("trace_id", "span_id"))):
        f = k.methods.get("__eq__")
        if f is None:
            if k is SK:
                c.ok(R, 1, "equality of a pydantic model")
            else:
                c.bad(R, k.qual, "span ids are compared by identity")
            continue
        o = f.node.args.args[1].arg
        other = ("S", o, "c:" + k.qual)
        for st, kind, v in c.run(it, f, R, args={o: other}):
            if kind == "raise":
                continue
            if kind != "return" or not isinstance(v, tuple):
                continue
            if any(t[:2] == ("A", "isinstance") and b is False and ("C", k.qual) in [t[3]] for t, b in st.facts.items()):
                if v == TRUE and not any(b is (t[1] == "eq") and mentions(t, other) and mentions(t, ("S", "self", "c:" + k.qual))
                                         for t, b in st.facts.items() if t[0] == "A" and t[1] in ("eq", "ne")):
                    c.bad(R, f.qual, "a key equals something that is no key", st, kind)
                continue
            me = ("S", "self", "c:" + k.qual)
            terms = [v] + list(st.facts)
            roots = {t for x in terms for t in subterms(x) if isinstance(t, tuple) and t[0] == "S"}

            def atom(t):
                """which parts an equality compares, None when it is no such equality"""
                if t[0] != "A" or t[1] not in ("eq", "ne"):
                    return None
                ps = parts(t, roots)
                if len(ps) != 2:
                    return None
                a, b = ps.values()
                if a != b or not a <= set(atoms) | {attr}:
                    return ("?", a ^ b)
                if any(y[:2] in (("A", "slice"), ("A", "item")) for y in subterms(t) if isinstance(y, tuple)):
                    return ("part", a)
                return ("eq", a)

            def value(t, env):
                if t == TRUE or t == FALSE:
                    return t[2]
                if t[0] == "A" and t[1] in ("and", "or"):
                    xs = [value(x, env) for x in t[2:]]
                    return all(xs) if t[1] == "and" else any(xs)
                if t[0] == "A" and t[1] == "not":
                    return not value(t[2], env)
                if t[0] == "A" and t[1] == "bool":
                    return value(t[2], env)
                a = atom(t)
                if a is None:
                    raise Unknown(show(t))
                if a[0] == "part":
                    raise LookupError("only a part of it is compared")
                if a[0] == "?":
                    raise LookupError("different parts are compared")
                r = all(env[x] for x in a[1] if x in env)
                if not any(x in env for x in a[1]):
                    raise Unknown(show(t))
                return r if t[1] == "eq" else not r
            bad = None
            try:
                for bits in range(2 ** len(atoms)):
                    env = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
                    facts = True
                    for t, b in st.facts.items():
                        if atom(t) is not None and value(t, env) != b:
                            facts = False
                    if facts and value(v, env) != all(env.values()):
                        same = [a for a in atoms if env[a]]
                        bad = f"keys that agree in {same or 'nothing'} and differ in {[a for a in atoms if not env[a]] or 'nothing'} compare {'equal' if value(v, env) else 'different'}"
            except LookupError as ex:
                bad = str(ex)
            except Unknown as ex:
                c.undecided(R, f.qual, f"not recognised: {str(ex)[:60]}")
                continue
            if bad:
                c.bad(R, f.qual, bad, st, kind)
            else:
                c.ok(R, 1, f"{f.qual}: exactly when {' and '.join(atoms)} agree")
    for k, atoms in ((S, {attr, "hex", "value", "bytes"}), (SK, {"trace_id", "span_id", "bytes"})):
        f = k.methods.get("__hash__")
        if f is None:
            if k.methods.get("__eq__") is not None:
                c.bad(R, k.qual, "keys can not be hashed (an __eq__ without __hash__)")
            continue
        for st, kind, v in c.run(it, f, R):
            if kind != "return":
                continue
            own = {t[3] for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[2][0] == "S"}
            if any(t[:2] == ("A", "id") or t[0] == "R" and t[2].endswith((".__hash__", "id", "urandom", "uuid4")) for t in subterms(v) if isinstance(t, tuple)):
                c.bad(R, f.qual, f"equal keys have different hashes: {show(v)[:60]}", st, kind)
            elif own and own <= atoms:
                c.ok(R, 1, f"{f.qual} from {', '.join(sorted(own))}")
            elif v[:2] == ("A", "hash") and (own or v[2][0] == "S"):
                c.bad(R, f.qual, f"the hash depends on {', '.join(sorted(own - atoms)) or 'identity'}", st, kind) if own - atoms else c.undecided(R, f.qual, "not recognised")
            elif v[0] == "K":
                c.ok(R)
            else:
                c.undecided(R, f.qual, "not recognised")


def flat(v):
    if v[0] == "L" and v[1] == 0 and all(k == 1 for _, k in v[2]):
        return None
    if v[0] == "A" and v[1] in ("concat", "add"):
        out = []
        for x in v[2:]:
            y = flat(x) if isinstance(x, tuple) else None
            out += y if y else [x]
        return out
    return [v]


def role(v):
    names = {t[3] for t in subterms(v) if isinstance(t, tuple) and t[:2] == ("A", "attr") and t[3] in SIZE}
    return names.pop() if len(names) == 1 else None


def joined(c, f, node_attr):
    """order of the parts in 'a + b' of the source, by role"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add):
            out = []
            for side in (n.value.left, n.value.right):
                names = {x.attr for x in ast.walk(side) if isinstance(x, ast.Attribute) and x.attr in SIZE}
                out.append(names.pop() if len(names) == 1 else None)
            if None not in out:
                return out
    return None


def keyforms(c, R, SK):
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name == "SpanId" and x.name == "__init__")
    f = c.find(SK, "bytes")
    order = None
    for st, kind, v in c.run(it, f, R):
        if kind != "return":
            continue
        got = [role(x) for x in (flat(v) or [])]
        order = got if None not in got and len(got) == 2 else joined(c, f, None)
        if order is None:
            c.undecided(R, f.qual, f"parts not recognised: {show(v)[:60]}")
        elif set(order) != set(SIZE):
            c.bad(R, f.qual, f"the bytes of a key are made of {order}", st, kind)
            order = None
    if order:
        c.ok(R, 1, f"bytes: {' + '.join(order)}")
        start = {order[0]: (0, SIZE[order[0]]), order[1]: (SIZE[order[0]], 24)}
        f = c.find(SK, "from_bytes")
        p = f.node.args.args[1].arg
        for st, kind, v in c.run(it, f, R, selfval=("C", SK.qual), args={p: ("S", p, "x:bytes")}):
            if kind != "return":
                continue
            for part, s in slices(st, v, p).items():
                if s is None:
                    c.undecided(R, f.qual, f"where {part} is read from was not recognised")
                    continue
                lo, hi = s
                want = start[part]
                checked = any(any(y[:2] == ("A", "len") for y in subterms(t)) for t in st.facts)
                lo2 = 0 if lo is None else lo if lo >= 0 else 24 + lo
                hi2 = 24 if hi is None else hi if hi >= 0 else 24 + hi
                if (lo2, hi2) != want:
                    c.bad(R, f.qual, f"{part} is written at {want[0]}..{want[1]} and read at {lo2}..{hi2}", st, kind)
                elif part == order[1] and hi == 24 and not checked:
                    c.bad(R, f.qual, "bytes that are too long are accepted as a key", st, kind)
                elif part == order[1] and lo is not None and lo < 0 and not checked:
                    c.undecided(R, f.qual, "length")
                else:
                    c.ok(R, 1, f"{part} at {want[0]}..{want[1]}")
    # text
    f = c.p.find_method(SK, "__str__")
    sep, torder = None, None
    if f is not None:
        for st, kind, v in c.run(it, f, R):
            if kind == "return":
                fl = flat(v) or []
                got = [role(x) for x in fl if x[0] != "K"]
                seps = [x[2] for x in fl if x[0] == "K"]
                raw = [x for x in fl if role(x) == "span_id" and x[:2] == ("A", "attr") and x[3] != "span_id" and role(x[2]) == "span_id" and x[3] not in ("hex",)]
                if raw:
                    c.bad(R, f.qual, f"the text of a key has {show(raw[0])} for its span id, which is not read back as the same value", st, kind)
                elif len(fl) == 1 and role(v) and v[:2] != ("A", "join"):
                    c.bad(R, f.qual, f"the text of a key is made of its {role(v)} alone", st, kind)
                elif len(got) == 2 and None not in got and len(fl) == 3 and seps:
                    sep, torder = seps[0], got
                    if set(got) != set(SIZE):
                        c.bad(R, f.qual, f"the text of a key is made of {got}", st, kind)
                        torder = None
                else:
                    c.undecided(R, f.qual, f"text not recognised: {show(v)[:60]}")
    if torder:
        f = c.find(SK, "from_hex")
        p = f.node.args.args[1].arg
        for st, kind, v in c.run(it, f, R, selfval=("C", SK.qual), args={p: ("S", p, "x:str")}):
            if kind != "return":
                continue
            news = [e for e in evs(st, "new") if e.label.endswith("SpanKey")]
            if not news:
                c.undecided(R, f.qual, "not recognised")
                continue
            for part, x in source(st, news[-1]).items():
                seps = {t[2] for t in provenance(st, x) if isinstance(t, tuple) and t[0] == "K" and t[1] == "str"} if x is not None else set()
                side = half(x) if x is not None else None
                if seps and sep not in seps and all(len(s) == 1 for s in seps):
                    c.bad(R, f.qual, f"the text of a key is written with {sep!r} and read with {sorted(seps)}", st, kind)
                elif side is None:
                    c.undecided(R, f.qual, f"where {part} is read from was not recognised")
                elif torder[side] != part:
                    c.bad(R, f.qual, f"{part} is read from the place of {torder[side]}", st, kind)
                else:
                    c.ok(R, 1, f"text: {part} {'before' if side == 0 else 'after'} {sep!r}")


def source(st, new):
    """what each part of a new key is made from"""
    out = {}
    for part in SIZE:
        x = new.kw.get(part)
        if x is not None and x[0] == "O":
            ev = [e for e in evs(st, "new") if e.res == x or e.recv == x]
            ev = ev or [e for e in evs(st, "new") if e.label.endswith("SpanId")]
            vals = [a for e in ev[-1:] for a in list(e.args) + list(e.kw.values())]
            x = vals[0] if len(vals) == 1 else None
        out[part] = x
    return out


def half(x):
    """0: what stands before the separator, 1: what stands behind it"""
    for t in subterms(x):
        if not isinstance(t, tuple) or t[0] != "A":
            continue
        if t[1] == "slice":
            lo, hi = t[3], t[4]
            if lo in (NONE, K(0)) and hi != NONE:
                return 0
            if hi == NONE and lo not in (NONE, K(0)):
                return 1
        if t[1] == "item" and t[3][0] == "K":
            n = t[3][2]
            base = show(t[2])
            if "partition" in base:
                return {0: 0, 2: 1, -1: 1}.get(n)
            if "split" in base:
                return {0: 0, 1: 1, -1: 1}.get(n)
    return None


def slices(st, v, p):
    new = [e for e in evs(st, "new") if e.label.endswith("SpanKey")]
    out = {}
    if not new:
        return {k: None for k in SIZE}
    for part, x in source(st, new[-1]).items():
        s = [t for t in subterms(x) if isinstance(t, tuple) and t[:2] == ("A", "slice") and t[2][:2] == ("S", p)] if x is not None else []
        if len(s) == 1 and all(b == NONE or b[0] == "K" for b in s[0][3:5]):
            out[part] = (s[0][3][2], s[0][4][2])
        else:
            out[part] = None
    return out


RANDOM = {"uuid4", "urandom", "token_bytes", "token_hex", "getrandbits", "randbits", "randbytes", "SystemRandom"}


def generation(c, R, SK):
    f = c.find(SK, "generate")
    it = c.interp(opaque=lambda x: not isinstance(x, Class) and x.cls is not None and x.cls.name == "SpanId" and x.name == "__init__")
    for g in {f} | {h for h in c.p.funcs if h.name == "span_id_gen"}:
        for d in g.node.args.defaults + [x for x in g.node.args.kw_defaults if x]:
            if any(isinstance(n, ast.Call) for n in ast.walk(d)):
                c.bad(R, g.qual, "a default argument is drawn once for all keys")
        if any("cache" in ast.unparse(d) for d in g.node.decorator_list):
            c.bad(R, g.qual, "the random part is remembered and given again")
    for st, kind, v in c.run(it, f, R, selfval=("C", SK.qual)):
        if kind != "return":
            continue
        new = [e for e in evs(st, "new") if e.label.endswith("SpanKey")]
        if not new:
            c.undecided(R, f.qual, "not recognised")
            continue
        src = {}
        for part, x in source(st, new[-1]).items():
            if x is None:
                c.undecided(R, f.qual, f"{part} not recognised")
                continue
            pr = provenance(st, x)
            rnd = [t for t in pr if t[0] == "R" and t[2].split(".")[-1] in RANDOM]
            src[part] = set(rnd)
            other = [t for t in pr if t[0] == "R" and t[2].split(".")[-1] not in RANDOM]
            if rnd:
                short = [s for t in rnd for s in [st.trace[t[1]]] if s.label.split(".")[-1] in ("urandom", "token_bytes", "randbytes") and s.args and s.args[0][0] == "K" and s.args[0][2] < SIZE[part]]
                bits = [s for t in rnd for s in [st.trace[t[1]]] if s.label.split(".")[-1] in ("getrandbits", "randbits") and s.args and s.args[0][0] == "K" and s.args[0][2] < 8 * SIZE[part]]
                if short or bits:
                    c.bad(R, (short + bits)[0].loc, f"the {part} of a new key is not random in all its bytes", st, kind)
                else:
                    c.ok(R, 1, f"{part} from {rnd[0][2]}")
            elif x[0] == "K" or any(t[2].split(".")[-1] in ("uuid1", "time", "time_ns", "monotonic", "getpid", "uuid5", "uuid3") for t in other):
                c.bad(R, new[-1].loc, f"the {part} of a new key is not random: {show(x)[:60]}", st, kind)
            else:
                c.undecided(R, f.qual, f"{part} not recognised: {show(x)[:60]}")
        if src.get("trace_id") and src.get("trace_id") == src.get("span_id"):
            c.bad(R, f.qual, "both parts of a new key are drawn from the same random value", st, kind)
