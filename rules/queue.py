"""The persistent queue (C01 conservation, C02 order, C03 uniqueness).

The content of a queue is the symbolic sequence front ++ stored ++ back (front and back may be the same page, then nothing is
stored).  Every path of every public operation is replayed on that sequence: page operations by their contract, the statements
given to the database by what they select, write and delete.  The result is compared with what the operation promises.
The contract of the pages themselves is checked on QueuePage's own code."""
import ast
import re

from .base import *

PAGE = "QueuePage"
KNOWN = {"push", "push_back", "push_with_str", "pop", "pop_front", "size", "get_page_list", "has_entry", "inspect_entry",
         "pop_entry", "get_first_x_span_keys"}


class Unknown(Exception):
    pass


class Infeasible(Exception):
    pass


class Broken(Exception):
    def __init__(self, cat, msg):
        self.cat, self.msg = cat, msg


def opq(f):
    return not isinstance(f, Class) and f.cls is not None and \
        ((f.cls.name == PAGE and f.name in KNOWN) or f.cls.name in ("SpanKey", "SpanId"))


def strip_list(v):
    while v[0] == "A" and v[1] in ("listof", "list", "tuple", "iter"):
        v = v[2]
    return v


LOSSY = {"slice", "getitem", "item", "lower", "upper", "strip", "lstrip", "rstrip", "replace", "split", "encode", "mod", "hash"}


def identity(v):
    """True: the value itself (conversions to its own type aside); False: a part or a rewriting of it; None: not known"""
    while v[0] == "A" and v[1] in ("str", "cast", "bytes") and len(v) >= 3:
        v = v[2]
    if v[0] == "A" and v[1] == "attr" or v[0] in ("S", "K"):
        return True
    if v[0] == "A" and v[1] in LOSSY:
        return False
    return None


class Model:
    def __init__(self, c, it, st, selfval, pages, front, back, db, cuts):
        self.c, self.it, self.st, self.selfval = c, it, st, selfval
        self.pages, self.front, self.back, self.db = dict(pages), front, back, tuple(db)
        self.cuts = cuts
        self.constraints = []      # (term, snapshot tuple): term is the length of that sequence
        self.present = []          # (truth term, where, snapshot)  where in {'page', 'db'}
        self.empty, self.nonempty = set(), set()
        self.popped = []           # (event, snapshot)
        self.removed = []          # (event, where)
        self.dirty = None
        self.unordered = None
        self.items = []
        self.aggs = []             # (event, scalar result, db snapshot): record ids counted from it
        self.scal = {}             # scalar result -> (agg, db snapshot)
        self.alls = {}             # all() result -> (atoms, kind, db snapshot)
        self.plists = {}           # get_page_list result -> snapshot
        self.recs = {}             # single record results -> key term
        self.writes = []
        self.closed = False
        self.commits = []          # (event, what is stored from then on)

    # ------------------------------------------------------------ queries
    def ev_of(self, r):
        if r is not None and r[0] == "R" and r[1] < len(self.st.trace) and self.st.trace[r[1]].res == r:
            return self.st.trace[r[1]]
        return None

    def chain(self, r):
        """the calls a query object went through, first call first"""
        out = []
        e = self.ev_of(r)
        while e is not None:
            out.append(e)
            if e.label.split(".")[-1] == "query":
                break
            e = self.ev_of(e.recv) if e.recv is not None else None
        return list(reversed(out))

    def direction(self, t):
        e = self.ev_of(t)
        if e is not None:
            n = e.label.split(".")[-1]
            if n in ("asc", "desc"):
                inner = e.args[0] if e.args else e.recv
                if last_attr(inner) == "record_id":
                    return n
            return None
        if t[0] == "A" and t[1] in ("asc", "desc") and last_attr(t[2]) == "record_id":
            return t[1]
        if t[0] == "A" and t[1] == "neg" and last_attr(t[2]) == "record_id":
            return "desc"
        if last_attr(t) == "record_id":
            return "asc"
        return None

    def query_info(self, r):
        q = {"order": None, "limit": None, "filter": [], "target": None, "offset": None, "other": []}
        for e in self.chain(r):
            n = e.label.split(".")[-1]
            if n == "query":
                q["target"] = e.args[0] if e.args else None
            elif n == "order_by":
                q["order"] = self.direction(e.args[0]) if e.args else None
                if q["order"] is None:
                    raise Unknown(f"order_by at {e.loc}")
            elif n == "limit":
                q["limit"] = e.args[0]
            elif n in ("filter", "where"):
                q["filter"] += list(e.args)
            elif n == "filter_by":
                q["filter"] += [A("eq", A("attr", ("S", "col", None), k), v) for k, v in e.kw.items()]
            else:
                q["other"].append(n)
        return q

    def nonneg_empty(self, term):
        lo, hi = self.it.bound(self.st, term)
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo >= 1:
            return False
        t = self.it.truth(self.st, term)
        if t is True:
            return False
        if t is False:
            return True
        for op, neg in (("eq", False), ("ne", True)):
            for k in (A(op, term, K(0)), A(op, K(0), term)):
                if k in self.st.facts:
                    return self.st.facts[k] != neg
        return None

    # ------------------------------------------------------------ replay
    def page(self, p):
        if p not in self.pages:
            if p[0] == "O":
                self.pages[p] = ()
            else:
                raise Unknown(f"page {show(p)}")
        return self.pages[p]

    def seq_of(self, coll):
        """atoms of a collection that is looped over"""
        coll = strip_list(coll)
        if coll[0] == "A" and coll[1] == "reversed":
            return (("rev", self.seq_of(coll[2])),)
        if coll[0] == "A" and coll[1] == "enumerate":
            return self.seq_of(coll[2])
        if coll[0] == "O":
            o = self.st.objs.get(coll[1])
            if o and o["kind"] == "list" and len(o["seq"]) == 1:
                s = o["seq"][0]
                if s[0] == "all":
                    return self.seq_of(s[1])
                if s[0] == "revmap" or s[0] == "map":
                    inner = self.seq_of(s[1])
                    return inner if s[0] == "map" else (("rev", inner),)
        if coll in self.alls:
            return self.alls[coll][0]
        if coll in self.plists:
            return self.plists[coll]
        raise Unknown(f"loop over {show(coll)}")

    def base_coll(self, coll):
        coll = strip_list(coll)
        while coll[0] == "A" and coll[1] in ("reversed", "listof", "list"):
            coll = coll[2]
        if coll[0] == "O":
            o = self.st.objs.get(coll[1])
            if o and o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] == "all":
                return self.base_coll(o["seq"][0][1])
        return coll

    def replay(self):
        for e in self.st.trace:
            try:
                self.event(e)
            except (Unknown, Broken, Infeasible):
                raise
        self.solve()

    def event(self, e):
        k, lab = e.kind, e.label
        if k == "set" and e.recv == self.selfval:
            if lab == "front_page":
                self.front = e.args[0]
                self.page(self.front)
            elif lab == "back_page":
                self.back = e.args[0]
                self.page(self.back)
            return
        if k == "opaque" and lab.startswith(PAGE + "."):
            self.page_event(e, lab.split(".")[1])
            return
        if k == "loop" and e.info.get("coll") is not None:
            self.loop_event(e)
            return
        if k == "loop":
            # a while loop: its body must not touch the queue
            self.check_quiet_loop(e)
            return
        if k in ("mut", "setitem", "delitem") and e.recv is not None:
            r = e.recv
            if r[0] == "A" and r[1] == "attr" and r[2] in self.pages:
                raise Unknown(f"page content changed directly at {e.loc}")
            if last_attr(r) == "session":
                raise Unknown(f"session.{lab} at {e.loc}")
            if r in self.alls and k == "mut" and lab == "reverse":
                atoms, how, snap = self.alls[r]
                self.alls[r] = ((("rev", atoms),), how, snap)
            elif r in self.alls or r in self.plists:
                raise Unknown(f"messages changed in place at {e.loc}")
            return
        if k == "exit" and is_begin_exit(self.st, e):
            self.committed(e)
            return
        if k != "call":
            return
        n = lab.split(".")[-1]
        if n in ("all", "fetchall") and e.recv is not None and self.ev_of(e.recv) is not None:
            q = self.query_info(e.recv)
            if q["filter"]:
                raise Unknown(f"filtered fetch at {e.loc}")
            if q["offset"] or "offset" in q["other"] or "distinct" in q["other"]:
                raise Unknown(f"offset at {e.loc}")
            snap = self.db
            key = ("k", e.n)
            if q["order"] is None:
                self.unordered = e
                raise Broken("C02", f"stored messages are fetched without an order at {e.loc}")
            if q["limit"] is None:
                atoms = snap if q["order"] == "asc" else (("rev", snap),)
                self.alls[e.res] = (atoms, "whole", snap)
            elif q["order"] == "asc":
                self.alls[e.res] = ((("pre", snap, key),), "pre", snap)
            else:
                self.alls[e.res] = ((("rev", (("suf", snap, key),)),), "suf", snap)
            return
        if n in ("one", "one_or_none", "first") and e.recv is not None and self.ev_of(e.recv) is not None:
            q = self.query_info(e.recv)
            key = self.key_filter(q)
            if key is None:
                for f in q["filter"]:
                    if f[0] == "A" and f[1] in ("ge", "le", "gt", "lt", "ne") and any(last_attr(x) == "span_key" for x in f[2:4]):
                        raise Broken("C01", f"the record fetched at {e.loc} need not be the one with the key")
                if self.narrowed(q["filter"]):
                    raise Broken("C01", f"a message with another {self.narrowed(q['filter'])} is not found by its key at {e.loc}")
                if n == "first":
                    raise Unknown(f"single record fetched at {e.loc}")
                raise Unknown(f"record fetched by {len(q['filter'])} conditions at {e.loc}")
            self.recs[e.res] = (key, n, e)
            return
        if n == "scalar" and e.recv is not None:
            q = self.query_info(e.recv)
            t = q["target"]
            te = self.ev_of(t) if t is not None else None
            if te is not None:
                tn = te.label.split(".")[-1]
                if tn in ("max", "min") and te.args and last_attr(te.args[0]) == "record_id":
                    self.scal[e.res] = (tn, self.db)
                    return
                ch = self.chain(t)
                if any(x.label.split(".")[-1] == "exists" for x in ch):
                    conds = [a for x in ch for a in x.args if x.label.split(".")[-1] in ("where", "filter", "exists")]
                    key = self.key_cond(conds)
                    if self.narrowed(conds):
                        raise Broken("C03", f"a key stored with another {self.narrowed(conds)} is not seen at {e.loc}")
                    if key is not None:
                        self.present.append((e.res, "db", self.db, key))
                        return
                if tn == "count":
                    self.constraints.append((e.res, self.db))
                    return
            raise Unknown(f"scalar query at {e.loc}")
        if n == "delete" and e.recv is not None and self.ev_of(e.recv) is not None:
            self.delete_query(e)
            return
        if n == "delete" and e.args and last_attr(e.recv) == "session":
            r = e.args[0]
            if r in self.recs:
                self.removed.append((e, "db", self.recs[r][0]))
                self.db = (("minus", self.db, self.recs[r][0]),)
                self.dirty = e
                return
            raise Unknown(f"session.delete at {e.loc}")
        if n in ("bulk_save_objects", "add_all"):
            self.save(e)
            return
        if n in ("add", "merge", "execute", "bulk_insert_mappings") and last_attr(e.recv) == "session":
            raise Unknown(f"session.{n} at {e.loc}")
        if n == "commit":
            self.committed(e)
            return
        if n == "rollback" and self.dirty is not None:
            raise Broken("C01 C38", f"what was written at {self.dirty.loc} is rolled back at {e.loc}")
        if n == "close" and last_attr(e.recv) == "session":
            if self.dirty is not None:
                raise Broken("C01 C38", f"what was written at {self.dirty.loc} is not committed before the session is closed")
            self.closed = True

    def committed(self, e):
        self.dirty = None
        self.commits.append((e, self.db))

    def count_terms(self):
        out = set()
        for k in list(self.st.facts) + [("T",) + tuple(x for x, _ in t) for t in self.st.bounds]:
            for t in subterms(k):
                if t[0] == "A" and t[1] == "count" and len(t) >= 3 and t[2][0] == "R":
                    out.add(t)
        return out

    def key_cond(self, conds):
        for f in conds:
            if f[0] == "A" and f[1] == "eq":
                for x, y in ((f[2], f[3]), (f[3], f[2])):
                    if last_attr(x) == "span_key" and (last_attr(y) == "bytes" or True) and attr_chain(x)[1] != attr_chain(y)[1]:
                        return y
        return None

    def narrowed(self, conds):
        """the column which keeps some of the messages with the key from being found"""
        if not any(f[0] == "A" and f[1] == "eq" and any(last_attr(x) == "span_key" for x in f[2:4]) for f in conds):
            return None
        for f in conds:
            if f[0] == "A" and f[1] in ("ge", "le", "gt", "lt", "ne", "eq") and any(x[0] == "K" for x in f[2:4]):
                col = next((last_attr(x) for x in f[2:4] if last_attr(x) in ("record_id", "object_string")), None)
                if col:
                    return col
        return None

    def key_filter(self, q):
        return self.key_cond(q["filter"]) if len(q["filter"]) == 1 else None

    def page_event(self, e, n):
        p = e.recv
        cur = self.page(p)
        if n == "size":
            self.constraints.append((e.res, cur))
        elif n in ("push", "push_back", "push_with_str"):
            it = ("item", e.n)
            self.items.append(e)
            self.pages[p] = cur + (it,)
        elif n in ("pop", "pop_front"):
            self.popped.append((e, cur))
            self.pages[p] = (("tail", cur),)
        elif n == "get_page_list":
            self.plists[e.res] = cur
        elif n == "has_entry":
            self.present.append((e.res, "page", cur, e.kw.get("span_key")))
        elif n == "inspect_entry":
            pass
        elif n == "pop_entry":
            self.removed.append((e, "page", e.kw.get("span_key")))
            self.pages[p] = (("minus", cur, e.kw.get("span_key")),)

    def bodies(self, e):
        """what one round of this loop does: event lists of the rounds found on the paths that share this prefix"""
        out = []
        for st, kind, val in self.cuts:
            if kind != "cut" or len(st.trace) <= e.n:
                continue
            f = st.trace[e.n]
            if f.kind != "loop" or f.info["node"] is not e.info["node"] or f.info["id"] != e.info["id"]:
                continue
            if any(a.loc != b.loc or a.label != b.label for a, b in zip(st.trace[:e.n], self.st.trace[:e.n])):
                continue
            if val["loop"] != e.info["id"]:
                continue
            out.append((st, st.trace[e.n + 1:]))
        return out

    def relevant(self, evl):
        r = []
        for x in evl:
            if x.kind == "opaque" and x.label.startswith(PAGE + ".") and x.label.split(".")[1] not in ("size", "has_entry", "inspect_entry", "get_page_list"):
                r.append(x)
            elif x.kind in ("call", "mut") and x.label.split(".")[-1] in ("delete", "add", "bulk_save_objects", "add_all", "merge", "execute", "bulk_insert_mappings", "flush") \
                    and (x.kind == "call" or last_attr(x.recv) == "session"):
                r.append(x)
            elif x.kind == "set" and x.recv == self.selfval:
                r.append(x)
        return r

    def check_quiet_loop(self, e):
        for st, evl in self.bodies(e):
            if self.relevant(evl):
                raise Unknown(f"loop at {e.loc}")

    def loop_event(self, e):
        bs = [(st, self.relevant(evl)) for st, evl in self.bodies(e)]
        if not any(r for _, r in bs):
            return
        if len({tuple((x.label, x.recv) for x in r) for _, r in bs}) != 1 or len(bs[0][1]) != 1:
            raise Unknown(f"loop at {e.loc} does different things in different rounds")
        st, (x,) = bs[0]
        coll = e.info["coll"]
        lid = e.info["id"]
        n = x.label.split(".")[-1]
        if n in ("push_with_str", "push", "push_back"):
            seq = self.seq_of(coll)
            data = x.kw.get("data", x.kw.get("object_to_queue"))
            pd = provenance(st, data)
            pk = provenance(st, x.kw.get("span_key"))
            if not any(t[0] == "A" and t[1] == "attr" and t[3] == "object_string" for t in pd):
                raise Broken("C01", f"what is read back at {x.loc} is not the stored payload")
            if not any(t[0] == "A" and t[1] == "attr" and t[3] == "span_key" for t in pk):
                raise Broken("C01", f"what is read back at {x.loc} is not under its stored key")
            if identity(data) is False:
                raise Broken("C01", f"what is read back at {x.loc} is not the whole stored payload: {show(data)}")
            self.pages[x.recv] = self.page(x.recv) + tuple(seq)
            return
        if n == "delete":
            base = self.base_coll(coll)
            if base in self.alls and x.args and x.args[0][0] == "A" and x.args[0][1] == "elem":
                self.drop(base, x)
                return
        if n == "add" and x.args and x.args[0][0] == "O":
            sub = {}
            for t, kind, val in self.cuts:
                if t is st:
                    for entry, head, end in val["vars"].values():
                        if head is None or entry is None or head[0] != "H":
                            continue
                        d = add(end, head, -1)
                        if d is not None and d[0] == "K":
                            sub[head] = add(entry, mul(d, A("idx", lid)))
            if None in sub.values():
                raise Unknown(f"record ids at {x.loc}")
            self.save_records("map", coll, lid, self.it.reify(st, x.args[0], sub), x)
            return
        raise Unknown(f"loop at {e.loc}: {n}")

    def drop(self, base, e):
        atoms, kind, snap = self.alls[base]
        if self.db != snap:
            raise Unknown(f"stored pages changed between fetch and delete at {e.loc}")
        a = atoms[0] if atoms else None
        if kind == "whole":
            self.db = ()
        else:
            while a[0] == "rev" and len(a[1]) == 1:  # fetched newest first, or the list was turned around since
                a = a[1][0]
            self.db = (("post" if kind == "pre" else "presuf",) + a[1:],)
        self.dirty = e

    def delete_query(self, e):
        q = self.query_info(e.recv)
        if q["limit"] is not None or q["other"]:
            raise Unknown(f"delete at {e.loc}")
        if not q["filter"]:
            self.db = ()
            self.dirty = e
            return
        if len(q["filter"]) == 1:
            f = q["filter"][0]
            fe = self.ev_of(f)
            ids = None
            if fe is not None and fe.label.split(".")[-1] == "in_" and last_attr(fe.recv) == "record_id":
                ids = fe.args[0]
            elif f[0] == "A" and f[1] == "in_" and last_attr(f[2]) == "record_id":
                ids = f[3]
            if ids is not None:
                if ids[0] == "O":
                    o = self.st.objs[ids[1]]
                    if o["kind"] == "list" and len(o["seq"]) == 1 and o["seq"][0][0] in ("map", "revmap"):
                        s = o["seq"][0]
                        base = self.base_coll(s[1])
                        body = s[3]
                        if base in self.alls and any(t[0] == "A" and t[1] == "attr" and t[3] == "record_id" for t in subterms(body)):
                            self.drop(base, e)
                            return
                        if base[0] == "A" and base[1] in LOSSY and self.base_coll(base[2]) in self.alls:
                            raise Broken("C01", f"only part of what was read is deleted at {e.loc}: {show(base)}")
                raise Unknown(f"delete by ids at {e.loc}")
            key = self.key_cond([f])
            if key is not None:
                self.removed.append((e, "db", key))
                self.db = (("minus", self.db, key),)
                self.dirty = e
                return
            if f[0] == "A" and f[1] in ("gt", "lt", "eq", "ne", "ge", "le") and f[3] == K(0) and last_attr(f[2]) == "record_id":
                cover = {"gt": {"pos"}, "lt": {"neg"}, "eq": {"zero"}, "ne": {"pos", "neg"}, "ge": {"pos", "zero"}, "le": {"neg", "zero"}}[f[1]]
                gone = set(cover)
                base = self.db
                if len(base) == 1 and base[0][0] == "partial":
                    gone |= set(base[0][2])
                    base = base[0][1]
                self.db = () if gone == {"pos", "neg", "zero"} else (("partial", base, tuple(sorted(gone))),)
                self.dirty = e
                return
        raise Unknown(f"delete at {e.loc}")

    def save(self, e):
        v = e.args[0]
        if v[0] != "O" or self.st.objs[v[1]]["kind"] != "list":
            raise Unknown(f"write at {e.loc}")
        seq = self.st.objs[v[1]]["seq"]
        if not seq:
            return
        if len(seq) != 1 or seq[0][0] not in ("map", "revmap"):
            raise Unknown(f"write of {len(seq)} parts at {e.loc}")
        self.save_records(*seq[0][:4], e)

    def save_records(self, tag, coll, lid, rec, e):
        if rec[0] != "A" or rec[1] != "rec":
            raise Unknown(f"write at {e.loc}")
        fields = dict(rec[3])
        page_seq = self.seq_of(coll)
        if tag == "revmap":
            raise Unknown(f"write at {e.loc}")
        elemattr = lambda name: [t for t in subterms(fields.get(name, NONE)) if t[0] == "A" and t[1] == "attr"]
        if not any(t[3] == "object_string" for t in elemattr("object_string")):
            raise Broken("C01", f"what is written at {e.loc} is not the message's payload")
        if not any(t[3] == "span_key" for t in elemattr("span_key")):
            raise Broken("C01", f"what is written at {e.loc} is not under the message's key")
        for nm in ("object_string", "span_key"):
            ident = identity(fields[nm])
            if ident is False:
                raise Broken("C01", f"what is written at {e.loc} is not the whole {nm} of the message: {show(fields[nm])}")
        kn = [t[3] for t in elemattr("span_key")]
        if "span_key" in kn and set(kn) - {"span_key", "bytes"} and "bytes" not in kn:
            raise Broken("C01", f"what is written at {e.loc} is not under the message's whole key: {show(fields['span_key'])}")
        rid = fields.get("record_id")
        l = lin(rid) if rid is not None else None
        if l is None:
            raise Unknown(f"record ids at {e.loc}")
        const, terms = l
        step, agg, lens = 0, None, 0
        for t, m in terms.items():
            if t[0] == "A" and t[1] == "idx" and t[2] == lid:
                step = m
            elif t[0] == "A" and t[1] == "int" and t[2] in self.scal and m == 1:
                agg = self.scal[t[2]]
                self.aggs.append((e, t[2], agg[1]))
            elif t in self.scal and m == 1:
                agg = self.scal[t]
                self.aggs.append((e, t, agg[1]))
            elif t[0] == "A" and t[1] == "len":
                lens += m
            elif t[0] == "A" and t[1] == "count" and self.seq_empty(self.hist.get(self.ev_of(t[2]).n if self.ev_of(t[2]) else None, ())) is not True:
                raise Broken("C01 C02", f"the record ids written at {e.loc} are counted from the number of stored messages, not from the highest "
                                        "(lowest) id among them: they can collide with or precede stored ones")
            elif t[0] == "H":
                raise Unknown(f"record ids at {e.loc}")
            else:
                raise Unknown(f"record ids at {e.loc}: {show(t)}")
        if step == 0:
            raise Broken("C01", f"the messages written at {e.loc} all get the same record id")
        if abs(step) != 1:
            pass
        written = tuple(page_seq) if step > 0 else (("rev", tuple(page_seq)),)
        self.dirty = e
        self.writes.append(e)
        if agg is None:
            for t, sc in self.scal.items():
                if sc[1] == self.db and self.it.truth(self.st, t) is False:
                    agg = sc            # nothing stored, or the extreme record id is 0: both are covered by ids counted from 0
        if agg is not None and agg[1] != self.db:
            raise Unknown(f"record ids at {e.loc} computed before the stored pages changed")
        if agg is None:
            self.db = (("mix", self.db, written, e.n),)     # only right when nothing is stored: settled in solve()
            return
        kind = agg[0]
        if kind == "max" and step > 0 and lens == 0 and const >= 1:
            self.db = self.db + written
        elif kind == "max" and step < 0 and lens == 1 and const >= 0:
            self.db = self.db + written
        elif kind == "min" and step < 0 and lens == 0 and const <= -1:
            self.db = written + self.db
        elif kind == "min" and step > 0 and lens == -1 and const <= 0:
            self.db = written + self.db
        elif kind in ("max", "min") and lens == 0 and const == 0:
            raise Broken("C01 C02", f"the first message written at {e.loc} gets the record id of a stored one")
        elif kind == "max" and step < 0 and lens == 0 or kind == "min" and step > 0 and lens == 0:
            raise Broken("C01 C02", f"the messages written at {e.loc} get record ids of stored ones")
        else:
            raise Unknown(f"record ids at {e.loc}")

    # ------------------------------------------------------------ solving
    def atom_empty(self, a):
        if a in self.empty:
            return True
        k = a[0]
        if k in ("pre", "suf"):
            return self.seq_empty(a[1])
        if k in ("post", "presuf", "tail"):
            return True if self.seq_empty(a[1]) else None
        if k == "rev":
            return self.seq_empty(a[1])
        if k == "minus":
            return True if self.seq_empty(a[1]) else None
        if k in ("item", "head"):
            return False
        if k == "mix":
            x, y = self.seq_empty(a[1]), self.seq_empty(a[2])
            return True if x and y else (False if x is False or y is False else None)
        if k == "partial":
            return True if self.seq_empty(a[1]) else None
        return None

    def seq_empty(self, s):
        rs = [self.atom_empty(a) for a in s]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        if tuple(s) in self.nonempty or any((a,) in self.nonempty for a in s):
            return False
        live = tuple(a for a, r in zip(s, rs) if r is not True)
        if live in self.nonempty:
            return False
        return None

    def mark_empty(self, s):
        for a in s:
            r = self.atom_empty(a)
            if r is False:
                raise Infeasible()
            if (a,) in self.nonempty:
                raise Infeasible()
            self.empty.add(a)
            if a[0] in ("pre", "suf", "rev"):
                self.mark_empty(a[1])
            if a[0] in ("mix",):
                self.mark_empty(a[1])
                self.mark_empty(a[2])

    def mark_nonempty(self, s):
        live = tuple(a for a in s if self.atom_empty(a) is not True)
        if not live:
            raise Infeasible()
        self.nonempty.add(live)
        self.nonempty.add(tuple(s))
        if len(live) == 1:
            a = live[0]
            if a[0] in ("pre", "suf", "rev", "post", "presuf", "tail", "minus", "partial"):
                self.mark_nonempty(a[1])

    def solve(self):
        # lengths of the stored pages: count() terms carry the query they belong to
        cons = list(self.constraints)
        db_at = self.db_history()
        for t in self.count_terms():
            e = self.ev_of(t[2])
            if e is None:
                continue
            try:
                q = self.query_info(t[2])
            except Unknown:
                continue
            if q["filter"]:
                key = self.key_cond(q["filter"])
                if key is not None and len(q["filter"]) == 1:
                    self.present.append((t, "db", db_at.get(e.n, self.db), key))
                continue
            cons.append((t, db_at.get(e.n)))
        for _ in range(4):
            for term, snap in cons:
                if snap is None:
                    continue
                r = self.nonneg_empty(term)
                if r is True:
                    self.mark_empty(snap)
                elif r is False:
                    self.mark_nonempty(snap)
        for term, where, snap, key in self.present:
            if self.it.truth(self.st, term) is True:
                self.mark_nonempty(snap)
        for t, (key, n, e) in self.recs.items():
            pass
        for term, snap in cons:
            if snap is not None and self.nonneg_empty(term) is False and self.seq_empty(snap) is True:
                raise Infeasible()
            if snap is not None and self.nonneg_empty(term) is True and self.seq_empty(snap) is False:
                raise Infeasible()

        for e, t, snap in self.aggs:
            # the extreme record id of no records is None: counting from it fails
            if self.it.truth(self.st, t) is None and known_none(self.it, self.st, t) is None and self.seq_empty(snap) is True:
                raise Broken("C01", f"writing at {e.loc} fails when nothing is stored: there is no record id to count from")

    def db_history(self):
        """stored content at each query event, from a second replay"""
        return self.hist

    def norm(self, s):
        s = [a for a in s]
        changed = True
        while changed:
            changed = False
            out = []
            for a in s:
                if self.atom_empty(a) is True:
                    changed = True
                    continue
                if a[0] == "rev":
                    inner = self.norm(a[1])
                    if not inner:
                        changed = True
                        continue
                    if len(inner) == 1 and inner[0][0] == "rev":
                        out += list(inner[0][1])
                        changed = True
                        continue
                    if len(inner) == 1 and inner[0][0] in ("item", "head"):
                        out.append(inner[0])
                        changed = True
                        continue
                    b = ("rev", tuple(inner))
                    if b != a:
                        changed = True
                    out.append(b)
                    continue
                if a[0] in ("pre", "suf") and ({"pre": "post", "suf": "presuf"}[a[0]],) + a[1:] in self.empty:
                    out += list(a[1])
                    changed = True
                    continue
                if a[0] == "mix":
                    if self.seq_empty(a[1]) is True:
                        out += list(a[2])
                        changed = True
                        continue
                    if self.seq_empty(a[2]) is True:
                        out += list(a[1])
                        changed = True
                        continue
                    raise Broken("C01 C02", "messages are written under record ids that do not depend on what is stored")
                out.append(a)
            s = out
            i = 0
            while i + 1 < len(s):
                a, b = s[i], s[i + 1]
                if (a[0], b[0]) in (("pre", "post"), ("presuf", "suf")) and a[1:] == b[1:] or (a[0], b[0]) == ("head", "tail") and a[1] == b[1]:
                    s[i:i + 2] = list(a[1])
                    changed = True
                else:
                    i += 1
        return s


def names_of(s):
    """multiset of the elementary parts of a normalised sequence"""
    out = []
    for a in s:
        if a[0] == "rev":
            out += names_of(a[1])
        elif a[0] == "mix":
            out += names_of(a[1]) + names_of(a[2])
        else:
            out.append(a)
    return sorted(map(repr, out))


class Hist(Model):
    """first pass: remembers what was stored at each query"""

    def event(self, e):
        if e.kind == "call" and e.label.split(".")[-1] == "query":
            self.hist[e.n] = self.db
        super().event(e)


SEG = {n: (("seg", n),) for n in "FDB"}


def setup_state(c, it, alias):
    pq = c.cls("PaginatedQueue")
    S = ("S", "self", "c:" + pq.qual)
    QP = "c:" + c.cls(PAGE).qual
    st = empty_state()
    P0 = ("S", "P0", QP)
    P1 = P0 if alias else ("S", "P1", QP)
    st.heap[(S, "front_page")] = P0
    st.heap[(S, "back_page")] = P1
    if not alias:
        a, b = (P0, P1) if repr(P0) <= repr(P1) else (P1, P0)
        st.facts[A("is", a, b)] = False
    for p in {P0, P1}:
        it.assume(st, A("is", p, NONE), False)
        if not any(c.p.find_method(c.cls(PAGE), n) for n in ("__bool__", "__len__")):
            st.facts[p] = True
    return S, st, P0, P1


def models(c, op, rule, alias):
    """replayed models of every complete path of a public operation; yields (model or None, state, kind, value, problem)"""
    pq = c.cls("PaginatedQueue")
    f = c.find(pq, op)

    def mr(ev, it):
        if ev.kind == "call" and ev.label.split(".")[-1] == "one":
            return ("sqlalchemy.exc.NoResultFound",)
        return ()
    it = c.interp(opaque=opq, may_raise=mr)
    if op == "__init__":
        S = ("S", "self", "c:" + pq.qual)
        outs = c.run(it, f, rule)
        pages, front, back, db = {}, None, None, SEG["D"]
    else:
        S, st0, P0, P1 = setup_state(c, it, alias)
        outs = c.run(it, f, rule, state=st0)
        pages = {P0: SEG["F"]} if alias else {P0: SEG["F"], P1: SEG["B"]}
        front, back, db = P0, P1, () if alias else SEG["D"]
    for st, kind, val in outs:
        if kind == "cut":
            continue
        m = Hist(c, it, st, S, pages, front, back, db, outs)
        m.hist = {}
        try:
            m.replay()
            yield m, it, st, kind, val, None
        except Infeasible:
            continue
        except Unknown as e:
            yield None, it, st, kind, val, ("?", str(e))
        except Broken as e:
            yield None, it, st, kind, val, (e.cat, e.msg)


def check_queue(c, cat):
    """run all operations; report what belongs to property `cat`"""
    pq = c.cls("PaginatedQueue")
    R = f"{cat}.operations"
    texts = {
        "C01": "every path of every queue operation leaves exactly the messages it should: front ++ stored ++ back before and after, "
               "with what was pushed or taken out",
        "C02": "on every path of every queue operation the sequence front ++ stored ++ back keeps its order, a push goes to its end "
               "and a pop takes its head",
        "C03": "every path that adds a message has seen that its key is in no part of the queue that can hold messages; a path that saw "
               "the key changes nothing",
    }
    c.rule(R, texts[cat], {"C01": 25, "C02": 15, "C03": 4}[cat])

    def bad(k, site, msg, st, kind):
        if cat in k.split():
            c.bad(R, site, msg, st, kind)

    for alias in (False, True):
        for op in ("pop", "push", "size", "is_empty", "inspect_span_key", "pop_span_key", "clear", "shut_down"):
            one_op(c, cat, R, op, alias, bad)
    one_op(c, cat, R, "__init__", False, bad)
    suspension(c, cat, R)
    page_contract(c, cat)
    schema(c, cat)


def content(m):
    if m.front == m.back:
        return tuple(m.page(m.front)), True
    return tuple(m.page(m.front)) + tuple(m.db) + tuple(m.page(m.back)), False


def one_op(c, cat, R, op, alias, bad):
    f = c.find(c.cls("PaginatedQueue"), op)
    site = f.qual
    how = "one page" if alias else "separate pages"
    for m, it, st, kind, val, problem in models(c, op, R, alias):
        if problem:
            if problem[0] == "?":
                c.undecided(R, site, problem[1])
            else:
                bad(problem[0], site, problem[1], st, kind)
            continue
        if kind == "raise":
            cl, _ = it.exc_cls(st, val)
            bad("C01", site, f"fails with {show(val)}", st, kind)
            continue
        try:
            judge(c, cat, R, op, alias, bad, m, it, st, kind, val, site, how)
        except Broken as e:
            bad(e.cat, site, e.msg, st, kind)
        except Unknown as e:
            c.undecided(R, site, str(e))
        except Infeasible:
            continue


def judge(c, cat, R, op, alias, bad, m, it, st, kind, val, site, how):
    before = SEG["D"] if op == "__init__" else (SEG["F"] if alias else SEG["F"] + SEG["D"] + SEG["B"])
    fine = True

    def say(k, msg):
        nonlocal fine
        fine = False
        bad(k, site, f"{msg} ({how})", st, kind)

    # --- things every operation owes
    if m.dirty is not None and op != "__init__" or (op == "__init__" and m.dirty is not None):
        say("C01", f"what is written at {m.dirty.loc} is never committed")
    after, is_alias = content(m) if op != "shut_down" else (tuple(m.db), False)
    if is_alias and m.seq_empty(m.db) is not True and op not in ("size", "is_empty", "inspect_span_key", "pop_span_key"):
        say("C01", "front and back are one page although messages are stored: stored messages are overtaken or left behind")
        say("C02", "front and back are one page although messages are stored")
        return
    for e in m.items:
        if op == "push":
            break
    if op in ("size", "is_empty", "inspect_span_key"):
        if m.items or m.popped or m.removed or m.writes or norm_eq(m, after, before) is False:
            say("C01", f"{op} changes the queue")
    if op in ("size", "is_empty"):
        v = val
        if op == "is_empty":
            if v[0] == "A" and v[1] in ("eq", "ne", "lt", "le", "gt", "ge") and v[3] == K(0):
                if v[1] not in ("eq", "le"):
                    say("C01", "is_empty reports the opposite")
                v = v[2]
            elif v[0] == "A" and v[1] == "not":
                v = v[2]
            elif v[0] == "A" and v[1] in ("lt",) and v[3] == K(1):
                v = v[2]
            else:
                # decided by branching
                c.undecided(R, site, f"is_empty returns {show(v)}")
                return
        l = lin(v)
        if l is None:
            c.undecided(R, site, f"size returns {show(v)}")
            return
        total = {}
        off = l[0]
        lens = dict((t, s) for t, s in m.constraints)
        for t, mult in l[1].items():
            if t in lens:
                s = lens[t]
            elif t[0] == "A" and t[1] == "count" and m.ev_of(t[2]) is not None and m.ev_of(t[2]).n in m.hist:
                s = m.hist[m.ev_of(t[2]).n]
            elif t[0] == "A" and t[1] == "len" and t[2] in m.plists:
                s = m.plists[t[2]]
            else:
                c.undecided(R, site, f"size uses {show(t)}")
                return
            for a in s:
                total[a] = total.get(a, 0) + mult
        want = {a: 1 for a in before if m.atom_empty(a) is not True}
        total = {a: n for a, n in total.items() if m.atom_empty(a) is not True and n}
        if off != 0 or total != want:
            say("C01", f"the size reported is {show(v)}, which does not count every message once")
        elif fine:
            c.ok(R, 1, f"{op} ({how}): {show(v)}")
        return
    if op == "inspect_span_key":
        if cat != "C01":
            return
        if val == NONE:
            missing = unseen(m, it, st, before, alias)
            if missing:
                say("C01", f"reports nothing for a key without having looked into {missing}")
        else:
            src = [e for e in evs(st, "opaque") if e.label == f"{PAGE}.inspect_entry" and e.res in provenance(st, val)]
            rec = [r for r in m.recs if r in provenance(st, val)]
            if not src and not rec and not mentions_any(val, m):
                c.undecided(R, site, f"inspect returns {show(val)}")
                return
            badkey = [e for e in src if not same_key(e.kw.get("span_key"), "span_key")]
            if badkey:
                say("C01", "looks up another key")
        if fine:
            c.ok(R, 1, f"{op} ({how})")
        return
    if op == "pop_span_key":
        real = []
        for e, where, key in m.removed:
            if where == "page" and known_none(it, st, e.res) is True:
                continue
            real.append((e, where, key))
        if val == NONE:
            if real:
                say("C01", f"takes a message out at {real[0][0].loc} and returns nothing")
            missing = unseen(m, it, st, before, alias)
            if missing:
                say("C01", f"reports nothing for a key without having looked into {missing}")
        else:
            pv = provenance(st, val)
            if not real:
                say("C01", "returns a message without taking it out")
            elif len(real) > 1:
                c.undecided(R, site, "takes out more than once")
                return
            else:
                e, where, key = real[0]
                if where == "page" and e.res not in pv:
                    say("C01", f"what is taken out at {e.loc} is not what is returned")
                if not same_key(key, "span_key"):
                    say("C01", f"takes out another key at {e.loc}")
                if where == "db" and not any(r in pv for r in m.recs) and not any(x in pv for x in m.alls):
                    say("C01", f"what is taken out at {e.loc} is not what is returned")
        if m.items or m.popped or m.writes:
            say("C01", "does more to the queue than taking the message out")
        # the rest is untouched: front/back/stored keep their places
        flat = [strip_minus(a) for a in after]
        flat = [x for a in flat for x in a]
        if m.norm(flat) != m.norm(before) and fine:
            if names_of(m.norm(flat)) == names_of(m.norm(before)):
                say("C02", "taking a message out by key reorders the others")
            else:
                say("C01", "taking a message out by key loses others")
        if fine:
            c.ok(R, 1, f"{op} ({how})")
        return
    if op == "clear":
        a = m.norm(tuple(m.page(m.front)) + tuple(m.db) + tuple(m.page(m.back)))
        if a:
            part = [x for x in a if x[0] == "partial"]
            if part:
                say("C01", f"clearing leaves stored messages: only record ids that are {', '.join(part[0][2])} are deleted")
            else:
                say("C01", f"clearing leaves messages in the queue: {a}")
        if fine:
            c.ok(R, 1, f"clear ({how})")
        return
    if op == "pop":
        if not m.popped:
            left = m.norm(before)
            if left:
                if val == NONE:
                    say("C01", "reports an empty queue although messages may be left")
                else:
                    c.undecided(R, site, f"pop returns {show(val)}")
            elif fine:
                c.ok(R, 1, f"pop ({how}): empty")
            return
        if len(m.popped) > 1:
            c.undecided(R, site, "several page pops on one path")
            return
        e, snap = m.popped[0]
        if val != e.res and e.res not in provenance(st, val):
            say("C01", f"what is taken out at {e.loc} is not returned")
            return
        if m.seq_empty(snap) is True:
            left = m.norm(before)
            if left:
                say("C01", f"takes from an empty page at {e.loc} although other messages are left: reports an empty queue")
            elif fine:
                c.ok(R, 1, f"pop ({how}): empty")
            return
        seq = (("head", snap),) + after
        if m.seq_empty(snap) is not False:
            rest = m.norm(before)
            live = [a for a in snap if m.atom_empty(a) is not True]
            others = [a for a in rest if a not in live and a not in set(sum((list(x[1]) for x in live if len(x) > 1 and isinstance(x[1], tuple)), []))]
            if others:
                say("C01", f"takes from a page at {e.loc} that may be empty although other messages are left: reports an empty queue")
                return
        compare(m, seq, before, say, "pop")
        if fine:
            c.ok(R, 1, f"pop ({how}): head of {snap}")
        return
    if op == "push":
        seen_present = [p for p in m.present if it.truth(st, p[0]) is True]
        if not m.items:
            if seen_present:
                compare(m, after, before, say, "push of a known key")
                if val[0] == "K":
                    say("C03", f"a known key is answered with {show(val)} instead of the key")
                if fine:
                    c.ok(R, 1, f"push of a known key ({how})")
            elif any(r for r in m.recs):
                c.undecided(R, site, "key looked up through a record")
            else:
                say("C01", "the message pushed is dropped although its key is not known to be in the queue")
            return
        if seen_present:
            say("C03", "a message is added although its key is in the queue")
            return
        missing = unseen(m, it, st, before, alias)
        if missing:
            say("C03", f"a message is added at {m.items[0].loc} without having looked for its key in {missing}")
        if len(m.items) > 1:
            say("C01", "the message is added twice")
            return
        e = m.items[0]
        if not same_key(e.kw.get("span_key"), "span_key"):
            say("C01", f"the message is added under another key at {e.loc}")
        if "object_to_queue" in e.kw and e.kw["object_to_queue"][0] != "S":
            if not any(t[0] == "S" and t[1] == "object_to_queue" for t in provenance(st, e.kw["object_to_queue"])):
                say("C01", f"another payload is added at {e.loc}")
        compare(m, after, before + (("item", e.n),), say, "push")
        if fine:
            c.ok(R, 1, f"push ({how})")
        return
    if op == "shut_down":
        compare(m, after, before, say, "shut_down")
        if fine:
            c.ok(R, 1, f"shut_down ({how})")
        return
    if op == "__init__":
        compare(m, after, before, say, "loading")
        if fine:
            c.ok(R, 1, "loading")


def strip_minus(a):
    if a[0] == "minus":
        return [x for b in a[1] for x in strip_minus(b)]
    return [a]


def norm_eq(m, a, b):
    return m.norm(a) == m.norm(b)


def mentions_any(val, m):
    return False


def same_key(v, name):
    return v is None or any(t[0] == "S" and t[1] == name for t in subterms(v)) or v[0] in ("H", "R")


def compare(m, got, want, say, op):
    g, w = m.norm(got), m.norm(want)
    if g == w:
        return
    if names_of(g) == names_of(w):
        say("C02", f"{op} changes the order: {fmt(g)} instead of {fmt(w)}")
    elif any(a[0] in ("partial", "minus") for a in g):
        raise Unknown("partial content")
    else:
        # parts of one sequence out of place are an order problem too
        if flat_names(g) == flat_names(w):
            say("C02", f"{op} changes the order: {fmt(g)} instead of {fmt(w)}")
        else:
            say("C01", f"{op} leaves {fmt(g)} instead of {fmt(w)}")


def flat_names(s):
    """elementary names with complementary parts joined, ignoring order"""
    bag = []

    def flat(q):
        for a in q:
            if a[0] == "rev":
                flat(a[1])
            elif a[0] == "mix":
                flat(a[1])
                flat(a[2])
            else:
                bag.append(a)
    flat(s)
    pair = {"pre": "post", "suf": "presuf", "head": "tail"}
    again = True
    while again:
        again = False
        for a in list(bag):
            if a[0] in pair:
                b = [x for x in bag if x[0] == pair[a[0]] and x[1:2 if a[0] == "head" else None] == a[1:2 if a[0] == "head" else None]]
                if b:
                    bag.remove(a)
                    bag.remove(b[0])
                    flat(a[1])
                    again = True
                    break
    return sorted(map(repr, bag))


def fmt(s):
    def one(a):
        if a[0] == "seg":
            return {"F": "front", "D": "stored", "B": "back"}[a[1]]
        if a[0] == "item":
            return "new"
        if a[0] in ("mix",):
            return "mixed"
        if len(a) > 1 and isinstance(a[1], tuple):
            nm = {"pre": "first", "post": "rest", "suf": "last", "presuf": "all-but-last", "rev": "reversed", "head": "head", "tail": "tail",
                  "minus": "without-key", "partial": "part"}.get(a[0], a[0])
            return f"{nm}({fmt(a[1])})"
        return str(a)
    return " ++ ".join(one(a) for a in s) or "nothing"


def unseen(m, it, st, before, alias):
    """parts of the queue that may hold the key and were not looked into"""
    seen = []
    for term, where, snap, key in m.present:
        if it.truth(st, term) is False:
            seen += list(snap)
    for r, (key, n, e) in m.recs.items():
        if known_none(it, st, r) is True or any(x.kind == "caught" and "NoResultFound" in x.label for x in evs(st, "caught")):
            seen += list(m.hist_db(e)) if hasattr(m, "hist_db") else [("seg", "D")]
    for e, where, key in m.removed:
        if where == "page" and known_none(it, st, e.res) is True:
            a = m.pages.get(e.recv, ())
            for x in a:
                seen += [y for y in strip_minus(x)]
    for e in evs(st, "opaque"):
        if e.label == f"{PAGE}.inspect_entry" and known_none(it, st, e.res) is True:
            seen += list(m.pages.get(e.recv, ()))
    left = [a for a in before if m.atom_empty(a) is not True and a not in seen]
    return fmt(left) if left else ""


def suspension(c, cat, R):
    """queue operations are indivisible: no other task runs between their first look and their last change"""
    if cat not in ("C01", "C03"):
        return
    pq = c.cls("PaginatedQueue")
    ops = ("push",) if cat == "C03" else ("pop", "push", "pop_span_key", "inspect_span_key", "clear")
    for op in ops:
        f = c.find(pq, op)
        it = c.interp(opaque=opq)
        for st, kind, val in c.run(it, f, R):
            touch = [e.n for e in st.trace if (e.kind == "opaque" and e.label.startswith(PAGE + ".")) or
                     (e.kind == "call" and e.label.split(".")[-1] in ("query", "scalar", "delete", "commit", "bulk_save_objects"))]
            if not touch:
                continue
            for s in evs(st, "suspend"):
                if s.n > touch[0]:
                    c.bad(R, f.qual, f"another task can run at {s.loc} in the middle of {op}: what was looked up may no longer hold", st)
            c.ok(R)


# ---------------------------------------------------------------------- pages
def page_fields(c):
    """names of the list and the dictionary a page is made of"""
    qp = c.cls(PAGE)
    it = c.interp()
    out = {}
    for st, k, v in c.run(it, c.find(qp, "__init__"), "page"):
        for e in evs(st, "set"):
            if e.recv == ("S", "self", "c:" + qp.qual) and e.args[0][0] == "O":
                out[st.objs[e.args[0][1]]["kind"]] = e.label
    return out


def page_contract(c, cat):
    R = f"{cat}.page"
    c.rule(R, "a page appends at its end and under its key, takes from its front, reports its length, and taking by key removes that entry "
              "from both its list and its index", {"C01": 6, "C02": 2, "C03": 2}[cat])
    qp = c.cls(PAGE)
    fs = page_fields(c)
    if "list" not in fs or "dict" not in fs:
        c.undecided(R, qp.qual, "a page is not a list with an index")
        c.ob[R] += c.minimum[R]
        return
    S = ("S", "self", "c:" + qp.qual)
    L = ("S", "entries", ("list", "c:" + c.cls("PageEntry").qual if "PageEntry" in c.p.by_name else None))
    D = ("S", "index", ("dict", "c:" + c.cls("PageEntry").qual if "PageEntry" in c.p.by_name else None))

    def paths(name):
        f = c.p.find_method(qp, name)
        if f is None:
            return None, None, []
        it = c.interp(opaque=lambda f: not isinstance(f, Class) and f.cls is not None and f.cls.name in ("SpanKey", "SpanId"))
        st = empty_state()
        st.heap[(S, fs["list"])] = L
        st.heap[(S, fs["dict"])] = D
        return f, it, c.run(it, f, R, state=st)

    def muts(st, r):
        return [e for e in st.trace if e.kind in ("mut", "setitem", "delitem") and e.recv == r]

    def bad(k, f, msg, st):
        if k == cat:
            c.bad(R, f.qual, msg, st)

    for name in ("push", "push_back", "push_with_str"):
        f, it, outs = paths(name)
        for st, kind, val in outs:
            if kind != "return":
                continue
            ml, md = muts(st, L), muts(st, D)
            entry = None
            if not ml:
                bad("C01", f, "a pushed message is not put into the page", st)
                continue
            if len(ml) == 1 and ml[0].label == "append":
                entry = ml[0].args[0]
            elif len(ml) == 1 and ml[0].label == "insert" and ml[0].args[0] == K(0):
                bad("C02", f, f"a pushed message is put at the front of the page at {ml[0].loc}", st)
                entry = ml[0].args[1]
            elif len(ml) == 1 and ml[0].label == "insert":
                entry = ml[0].args[1]
            else:
                c.undecided(R, f.qual, "page list changed in an unknown way")
                continue
            fl = entry_fields(it, st, entry) or {}
            if fl:
                key = fl.get("span_key")
                if key is not None and not any(t[0] == "S" and t[1] == "span_key" for t in provenance(st, key)):
                    bad("C01", f, "the entry does not carry the key", st)
                pay = fl.get("object_string")
                if pay is not None and not any(t[0] == "S" and t[1] in ("data", "object_to_queue") for t in provenance(st, pay)):
                    bad("C01", f, "the entry does not carry the payload", st)
            ds = [e for e in md if e.kind == "setitem" or e.label in ("__setitem__", "setdefault", "update")]
            if not ds:
                bad("C03", f, "a pushed message is not found by its key afterwards", st)
                bad("C01", f, "a pushed message is not found by its key afterwards", st)
            else:
                k0 = ds[0].args[0] if ds[0].args else None
                if k0 is not None and k0[0] == "A" and k0[1] == "attr" and k0[3] != "span_key":
                    bad("C03", f, f"a pushed message is indexed under {show(k0)} instead of its key", st)
                if k0 is not None and not any(t[0] == "S" and t[1] == "span_key" for t in provenance(st, k0)) and k0[0] != "O":
                    bad("C03", f, "a pushed message is indexed under another key", st)
                c.ok(R, 1, f"{name}: appended and indexed")
    for name in ("pop", "pop_front"):
        f, it, outs = paths(name)
        for st, kind, val in outs:
            if kind != "return":
                if kind == "raise":
                    bad("C01", f, f"taking from a page fails with {show(val)}", st)
                continue
            ml, md = muts(st, L), muts(st, D)
            if val == NONE:
                if ml or md:
                    bad("C01", f, "a message is taken out of the page and not returned", st)
                elif it.truth(st, A("len", L)) is True or (it.bound(st, A("len", L))[0] or 0) > 0:
                    bad("C01", f, "a page reports being empty although it is not", st)
                else:
                    hi = it.bound(st, A("len", L))[1]
                    if hi is not None and hi > 0:
                        bad("C01", f, "a page reports being empty although a message may be left", st)
                    else:
                        c.ok(R)
                continue
            if len(ml) != 1:
                if not ml:
                    bad("C01", f, "a message is returned but stays in the page", st)
                else:
                    c.undecided(R, f.qual, "page list changed in an unknown way")
                continue
            e = ml[0]
            if e.label == "pop" and (not e.args or e.args[0] == K(-1)):
                bad("C02", f, f"takes the newest message at {e.loc}", st)
            elif e.label == "pop" and e.args[0] != K(0) and e.args[0][0] == "K":
                bad("C02", f, f"does not take the oldest message at {e.loc}", st)
            elif e.label not in ("pop", "popleft") and not (e.kind == "delitem"):
                c.undecided(R, f.qual, f"page list changed by {e.label}")
                continue
            if not md:
                bad("C01", f, "the index keeps a message that left the page", st)
                bad("C03", f, "the index keeps a message that left the page: its key can not be pushed again", st)
            else:
                c.ok(R, 1, f"{name}: front taken, index cleaned")
    f, it, outs = paths("size")
    for st, kind, val in outs:
        if kind == "return":
            if val == A("len", L) or val == A("len", D) or (val[0] == "L" and val[1] == 0 and val[2] in (((A("len", L), 1),), ((A("len", D), 1),))):
                c.ok(R)
            elif lin(val) is not None and (lin(val)[0] != 0 or not lin(val)[1]):
                bad("C01", f, f"a page reports {show(val)} as its size", st)
            else:
                c.undecided(R, f.qual, f"size returns {show(val)}")
    f, it, outs = paths("has_entry")
    for st, kind, val in outs:
        if kind == "return":
            tr = it.truth(st, val)
            fa = [x for x in st.facts if x[0] == "A" and x[1] == "in" and x[3] in (D, L)]
            if val[0] == "A" and val[1] == "in":
                if val[3] in (D,) or (val[3][0] == "A" and val[3][2:3] == (D,)):
                    c.ok(R)
                else:
                    c.undecided(R, f.qual, f"has_entry returns {show(val)}")
            elif val[0] == "A" and val[1] == "notin":
                bad("C03", f, "a page denies the keys it has", st)
            elif val[0] == "K" and fa:
                if st.facts[fa[0]] != bool(val[2]):
                    bad("C03", f, "a page denies the keys it has", st)
                else:
                    c.ok(R)
            elif val[0] == "K" and not any(evs(st, "loop")):
                bad("C03", f, f"a page always answers {show(val)}", st)
            else:
                c.undecided(R, f.qual, f"has_entry returns {show(val)}")
    f, it, outs = paths("inspect_entry")
    for st, kind, val in outs:
        if kind == "return":
            if muts(st, L) or muts(st, D):
                bad("C01", f, "looking at a message changes the page", st)
            else:
                c.ok(R)
    f, it, outs = paths("pop_entry")
    idx_ok = {}
    for st, kind, val in outs:
        if kind == "cut":
            for nm, (a, h, b) in val["vars"].items():
                if isinstance(nm, str) and b is not None and h is not None and b != h:
                    # the index chosen in this round: it must be that of the entry with the key
                    eqs = [(x, v) for x, v in st.facts.items() if x[0] == "A" and x[1] == "eq" and
                           any(t[0] == "A" and t[1] == "attr" and t[3] == "span_key" for t in subterms(x))]
                    if any(t[0] in ("H",) or (t[0] == "A" and t[1] in ("idx", "elem")) for t in subterms(b)):
                        part = [x for x, v in eqs if v is True and x[2][0] == "A" and x[2][1] == "attr" and x[2][3] != "span_key" and
                                last_attr(x[2]) == last_attr(x[3])]
                        whole = [x for x, v in eqs if v is True and x not in part]
                        if part and not whole and len({last_attr(x[2]) for x in part}) < 2:
                            idx_ok[nm] = False
                        elif any(v is True for _, v in eqs):
                            idx_ok[nm] = True
                        elif any(v is False for _, v in eqs):
                            idx_ok[nm] = False
    for st, kind, val in outs:
        if kind != "return":
            continue
        ml, md = muts(st, L), muts(st, D)
        if val == NONE:
            if ml or md:
                bad("C01", f, "a message is taken out of the page and not returned", st)
            else:
                c.ok(R)
            continue
        rebound = any(e.kind == "set" and e.label == fs["list"] for e in st.trace)
        if not ml and not rebound and any(e.info.get("coll") is not None and L in list(subterms(e.info["coll"])) for e in evs(st, "loop")) and \
                any(muts(s2, L) for s2, _, _ in outs):
            continue        # looked through the whole page without meeting the entry: the index says it is there
        if not ml and not rebound:
            bad("C01", f, "a message taken out by key stays in the page", st)
        elif not md and not any(e.kind == "set" and e.label == fs["dict"] for e in st.trace):
            bad("C01", f, "a message taken out by key stays in the index", st)
            bad("C03", f, "a message taken out by key stays in the index: it can not be pushed again", st)
        else:
            e = ml[0] if ml else None
            if e is not None and e.label == "pop" and (not e.args or e.args[0][0] == "K"):
                outer = it.truth(st, TRUE)
                loops = evs(st, "loop")
                if not loops or not e.args:
                    bad("C01", f, f"taking out by key removes whatever is at {show(e.args[0]) if e.args else 'the end'}", st)
                    continue
                first = [x for x, v in st.facts.items() if v is False and x[0] == "A" and x[1] == "idx"]
                found = [x for x, v in st.facts.items() if v is True and x[0] == "A" and x[1] == "eq" and any(t[0] == "A" and t[1] == "attr" and t[3] == "span_key" for t in subterms(x))]
                if first and found and e.args[0][2] != 0:
                    bad("C01", f, f"taking out the first entry of a page by its key removes the one at {show(e.args[0])}", st)
                    continue
            if False in idx_ok.values():
                bad("C01", f, "taking out by key removes another entry", st)
                continue
            c.ok(R)


def schema(c, cat):
    """the table can hold what the pages hold: unique keys, payload text"""
    if cat != "C03":
        return
    R = "C03.schema"
    c.rule(R, "pages look keys up by value: SpanKey is compared and hashed by its parts", 0)


def check_C01(c):
    check_queue(c, "C01")


def check_C02(c):
    check_queue(c, "C02")


def check_C03(c):
    check_queue(c, "C03")


# ---------------------------------------------------------------------- crashes
def roots(a):
    """the parts a sequence is made of, as they were before the operation"""
    if a[0] == "seg":
        return {a[1]}
    out = set()
    for x in a[1:]:
        if isinstance(x, tuple):
            for b in x if x and isinstance(x[0], tuple) else (x,):
                if isinstance(b, tuple) and b and isinstance(b[0], str):
                    out |= roots(b)
    return out


def within(a, held):
    """is everything in part a also in one of the parts held? (a part is in what it was taken from)"""
    if a in held:
        return True
    if a[0] in ("pre", "post", "suf", "presuf", "head", "tail", "minus", "rev", "partial") and isinstance(a[1], tuple):
        return all(within(b, held) for b in a[1])
    return False


def check_C38(c):
    R1, R2, R3, R4 = "nothing-left-open", "stored-stays-stored", "storage-is-durable", "indivisible"
    c.rule(R1, "on every path of every queue operation each change of the stored pages is committed before the operation ends, so what was taken out can not come back "
               "and what was written is there", 8)
    c.rule(R2, "on every path, a message that is stored before and after the operation is stored at every commit in between: no point at which the process may die loses it", 6)
    c.rule(R3, "the pages are stored in the database file of the queue, with nothing that trades durability for speed (in-memory database, journal or synchronisation switched off)", 1)
    c.rule(R4, "no other task runs while a change of the stored pages is not committed", 6)
    pq = c.cls("PaginatedQueue")
    for alias in (False, True):
        for op in ("pop", "push", "size", "is_empty", "inspect_span_key", "pop_span_key", "clear", "shut_down") + (() if alias else ("__init__",)):
            f = c.find(pq, op)
            how = "one page" if alias else "separate pages"
            for m, it, st, kind, val, problem in models(c, op, R1, alias):
                if problem:
                    if problem[0] == "?":
                        c.undecided(R1, f.qual, problem[1])
                    elif "C38" in problem[0]:
                        c.bad(R1, f.qual, problem[1], st, kind)
                    continue
                if m.dirty is not None:
                    c.bad(R1, f.qual, f"what is changed at {m.dirty.loc} is not committed when {op} ends ({how})", st, kind)
                    continue
                c.ok(R1, 1, f"{op} ({how}): {len(m.commits)} commits")
                try:
                    end = [a for a in m.norm(m.db) if "D" in roots(a)]
                    for e, db in m.commits:
                        held = m.norm(db)
                        lost = [a for a in end if not within(a, held)]
                        if lost:
                            c.bad(R2, e.loc, f"when the process dies after this commit, {fmt(lost)} is not stored although it was before and should be afterwards ({how})", st, kind)
                        else:
                            c.ok(R2, 1, f"{op} ({how}): {fmt(end)} kept at {e.loc}")
                except Broken:
                    pass
                except Unknown as e:
                    c.undecided(R2, f.qual, str(e))
    for op in ("pop", "push", "pop_span_key", "clear"):
        f = c.find(pq, op)
        it = c.interp(opaque=opq)
        for st, kind, val in c.run(it, f, R4):
            openat = None
            for e in st.trace:
                n = e.label.split(".")[-1] if e.label else ""
                if e.kind == "call" and (n in ("bulk_save_objects", "add_all", "add") or n == "delete"):
                    openat = openat or e
                elif e.kind == "call" and n == "commit" or is_begin_exit(st, e):
                    openat = None
                elif e.kind == "suspend" and openat is not None:
                    c.bad(R4, e.loc, f"another task may run here before the change at {openat.loc} is committed", st, kind)
            c.ok(R4)
    # ---- where and how it is stored
    f = c.find(pq, "__init__")
    it = c.interp(opaque=opq)
    seen = False
    for st, kind, val in c.run(it, f, R3):
        for e in evs(st, "call"):
            if e.label.split(".")[-1] == "create_engine":
                seen = True
                url = e.args[0] if e.args else e.kw.get("url", NONE)
                if "memory" in show(url) or not any(t[0] == "S" and t[1] == "file_path" for t in provenance(st, url)):
                    c.bad(R3, e.loc, f"the queue is stored in {show(url)}, which is not its file", st, kind)
                else:
                    c.ok(R3, 1, f"{e.loc}: {show(url)}")
    if not seen:
        c.undecided(R3, f.qual, "where the queue is stored was not recognised")
    loose = re.compile(r"pragma\s+(synchronous\s*=\s*(off|0)\b|journal_mode\s*=\s*(off|memory)\b)", re.I)
    for mod in c.p.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and loose.search(n.value) and len(n.value) < 200:
                c.bad(R3, f"{mod.relpath}:{n.lineno}", f"durability is switched off: {n.value}")
    c.ok(R3, 1, f"{len(c.p.modules)} modules without a statement that switches durability off")


def is_begin_exit(st, e):
    """the end of a 'with session.begin()' block"""
    if e.kind != "exit" or e.recv is None:
        return False
    r = e.recv
    x = st.trace[r[1]] if r[0] == "R" and isinstance(r[1], int) and r[1] < len(st.trace) else None
    return x is not None and x.res == r and x.label.split(".")[-1] == "begin"
