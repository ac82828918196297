"""M01: the iterator over one memory table.

Every path of its functions is followed with what is known about each node in
hand: where it comes from (a search, a step), how its key or number compares to
the bounds of the range and to what the caller asked for, and whether the
snapshot can see it.  A node may become the position of the iterator only when
it is proven inside the range, visible, and the next one in the direction asked."""
from ..core import Result
from ..cwalk import Walk, CRule, Budget, truth

FWD = ("next", "ge", "begin")
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
SET = {"<": {-1}, ">": {1}, "<=": {-1, 0}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}
ALL = frozenset((-1, 0, 1))
FIELDS = {"startKey": "start", "endKey": "end", "minSeq": "min", "maxSeq": "max", "seqFrom": "from", "seqUpto": "upto"}
PARAMS = {"start_key": "start", "end_key": "end", "seq_from": "from", "seq_upto": "upto", "min_seq": "pmin",
          "max_seq": "pmax"}


def sym(x):
    return ("sym", x)


class MWalk(Walk):
    """The values of fields depend on the facts of the path in hand."""

    def elem(self, fn, i, n, a, e, nv):
        self.rule.auto = a
        return Walk.elem(self, fn, i, n, a, e, nv)

    def succ(self, fn, b, a, e, nv):
        self.rule.auto = a
        return Walk.succ(self, fn, b, a, e, nv)


class Order(CRule):
    """Facts ("rel", x, y, set of -1, 0, 1) about keys and numbers."""
    # -- order of symbols ----------------------------------------------------------
    def order(self, a):
        """closure: {(x, y): True if x<y else False if x<=y known}"""
        le = {}

        def put(x, y, strict):
            if le.get((x, y)) is not True:
                le[(x, y)] = strict or le.get((x, y), False)
        for f in a:
            if f[0] == "rel":
                _, x, y, s = f
                if 1 not in s:
                    put(x, y, 0 not in s)
                if -1 not in s:
                    put(y, x, 0 not in s)
        ks = set(k for p in le for k in p)
        for k in ks:
            for i in ks:
                for j in ks:
                    if (i, k) in le and (k, j) in le and i != j:
                        put(i, j, le[(i, k)] or le[(k, j)])
        return le

    def rels(self, a, x, y):
        if x == y:
            return frozenset((0,))
        le = self.order(a)
        s = set(ALL)
        if (x, y) in le:
            s &= {-1} if le[(x, y)] else {-1, 0}
        if (y, x) in le:
            s &= {1} if le[(y, x)] else {0, 1}
        for f in a:
            if f[0] == "rel" and f[1:3] == (x, y):
                s &= f[3]
            if f[0] == "rel" and f[1:3] == (y, x):
                s &= set(-v for v in f[3])
        return frozenset(s)

    def assume(self, a, x, y, want):
        s = self.rels(a, x, y) & frozenset(want)
        if not s:
            return None
        if y < x:
            x, y, s = y, x, frozenset(-v for v in s)
        if x == y:
            return a
        return frozenset(f for f in a if not (f[0] == "rel" and f[1:3] == (x, y))) | {("rel", x, y, s)}


class Mem(Order):
    def __init__(self, P, bykey, init):
        self.P = P
        self.bykey = bykey
        self.init = init
        self.found = {}
        self.unsure = set()
        self.lo, self.hi = ("start", "end") if bykey else ("min", "max")
        self.ends = []

    def bad(self, fn, line, key, msg):
        self.found.setdefault((key, fn.file), (fn, line, msg))

    def empty(self, a, s):
        for f in a:
            if f[0] == "emp" and f[1] == s:
                return f[2]
        return None

    # -- nodes ------------------------------------------------------------------------
    def org(self, a, k):
        for f in a:
            if f[0] == "org" and f[1] == k:
                return f[2]
        return None

    def cur(self, a):
        for f in a:
            if f[0] == "cur":
                return f[1]
        return None

    def setcur(self, a, v):
        return frozenset(f for f in a if f[0] != "cur") | {("cur", v)}

    def valid(self, a, k):
        for f in a:
            if f[0] == "val" and f[1] == k:
                return f[2]
        return None

    def fresh(self, a):
        used = set(f[1] for f in a if f[0] == "org")
        return min(k for k in range(1, 60) if k not in used)

    def new(self, a, origin, bounds, base=None):
        """A node of that origin; bounds: [(symbol, relation set)]"""
        k = self.fresh(a)
        a = frozenset(f for f in a if not (f[0] == "rel" and ("nk", k) in f[1:3]) and not (f[0] == "val" and f[1] == k))
        a |= {("org", k, origin), ("did",)}
        for s, want in bounds:
            if want != ALL:
                b = self.assume(a, ("nk", k), s, want)
                a = b if b is not None else a
        return k, a

    def ended(self, a, origin):
        return a | {("ended", origin), ("did",)}

    def syms(self, a):
        return set(x for f in a if f[0] == "rel" for x in f[1:3] if x[0] == "sym") | \
            {sym(self.lo), sym(self.hi), sym("arg")}

    def search(self, a, kind, q):
        """find_greater_or_equal / find_smaller_or_equal."""
        out = [(self.ended(a, (kind, q)), ("null",))]
        b = []
        for s in self.syms(a):
            r = self.rels(a, q, s)
            if kind == "ge":
                b.append((s, {1} if r == {1} else {0, 1} if -1 not in r else ALL))
            else:
                b.append((s, {-1} if r == {-1} else {-1, 0} if 1 not in r else ALL))
        has = False
        if not self.init and self.org(a, 0) is not None:
            # the record the iterator stands on is in the index: a search from
            # the other side of it ends there at the latest
            n0 = ("nk", 0)
            r = self.rels(a, q, n0)
            has = 1 not in r if kind == "ge" else -1 not in r
            if has:
                b.append((n0, {-1, 0} if kind == "ge" else {0, 1}))
        k, a2 = self.new(a, (kind, q), b)
        return ([] if has else out) + [(a2, ("node", k))]

    def step(self, a, kind, k):
        fwd = kind == "next"
        o = self.org(a, k)
        nk = ("nk", k)
        if o == ("start",):
            o2 = (kind,)
        elif o is None or o[0] == "dirty" or (o[0] in FWD) != fwd:
            o2 = ("dirty",)
        else:
            out = self.rels(a, nk, sym(self.lo)) == {-1} or self.rels(a, nk, sym(self.hi)) == {1}
            o2 = o if self.valid(a, k) is False or out else ("dirty",)
        b = []
        for s in self.syms(a):
            r = self.rels(a, nk, s)
            if fwd:
                b.append((s, {1} if -1 not in r else ALL))
            else:
                b.append((s, {-1} if 1 not in r else ALL))
        k2, a2 = self.new(a, o2, b)
        return [(self.ended(a, o2), ("null",)), (a2, ("node", k2))]

    def canon(self, w, fn, a, e):
        live = set(f[2] for f in a if f[0] == "pin") | {0}
        for v in e.values():
            if v and v[0] in ("node", "nk", "rec", "best", "vk", "nvk"):
                live.add(v[1])
            for x in v or ():
                if isinstance(x, tuple) and len(x) == 2 and x[0] in ("node", "nk", "rec"):
                    live.add(x[1])
        c = self.cur(a)
        if c is not None:
            live.add(c)
        return frozenset(f for f in a if not (f[0] in ("org", "val") and f[1] not in live) and
                         not (f[0] == "rel" and any(x[0] == "nk" and x[1] not in live for x in f[1:3]))), e

    def keep(self, k):
        return k[0] == "$"

    # -- values -------------------------------------------------------------------------
    def value(self, w, fn, e, nv, i, n):
        k = n["k"]
        a = self.auto
        if k == "mem" and not n.get("meth"):
            f = n["f"].rsplit("::", 1)[-1]
            base = fn.nodes[n["b"]] if n.get("b") is not None else None
            own = base is None or base["k"] == "this"
            if own and f in FIELDS:
                if self.init:
                    for x in a:
                        if x[0] == "fld" and x[1] == f:
                            return x[2]
                    return ("unset",)
                return sym(FIELDS[f])
            if own and f == "cursor":
                c = self.cur(a)
                return ("null",) if c is None else ("node", c)
            if own and f == "type":
                return ("int", self.types["BY_KEY" if self.bykey else "BY_SEQ"])
            if own and f == "mTable":
                return ("t", "table")
            b = w.val(fn, e, nv, n["b"]) if n.get("b") is not None else None
            if b == ("t", "table"):
                return ("idx", f) if f.startswith("idx") else sym("t." + f)
            if b and b[0] == "node":
                return b if f == "snode" else ("nk", b[1]) if f == "key" else ("rec", b[1]) if f == "rec" else None
            if b and b[0] == "rec":
                return ("nk", b[1]) if f == "seqNum" else None
            if b and b[0] in ("q", "qs"):
                return b if f == "snode" else ("loc", b[1]) if f == "rec" and b[0] == "qs" else b[1] \
                    if f == "key" and b[0] == "q" else None
            if b and b[0] == "loc" and f == "seqNum":
                return e.get("$s:" + b[1])
            if b and b[0] == "sym" and f in ("size", "data"):
                return ("nem", b[1])
            return None
        if k == "ref" and n.get("v"):
            v = e.get(n["v"])
            if v is None and (n.get("t") or "").endswith("Record"):
                return ("loc", n["v"])
            return v
        if k == "un" and n["op"] in ("&", "*"):
            return w.val(fn, e, nv, n["a"])
        if k == "un" and n["op"] == "!":
            v = w.val(fn, e, nv, n["a"])
            if v and v[0] == "rt":
                return ("rt", v[1], v[2], NEG[v[3]])
            if v and v[0] == "rs":
                return v[:3] + (v[4], v[3])
            if v and v[0] == "eqc":
                return v[:3] + (not v[3],)
            if v and v[0] in ("em", "nem"):
                return ("nem" if v[0] == "em" else "em", v[1])
            if v and v[0] in ("vk", "nvk", "vn", "nvn"):
                return ("n" + v[0] if v[0][0] == "v" else v[0][1:],) + v[1:]
            if v and v[0] == "cmp":
                return ("rt", v[1], v[2], "==")
            if v and v[0] == "node":
                return ("int", 0)
            return None
        if k == "bin":
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            op = n["op"]
            if op in ("&&", "||"):
                tx, ty = truth(x), truth(y)
                if tx is (op == "&&") and ty is None:
                    return y
                if ty is (op == "&&") and tx is None:
                    return x
                return None
            if op == "-" and x and x[0] in ("node",):
                return x                # _get_entry
            if op in SET:
                if x and x[0] == "int" and y and y[0] in ("cmp", "sym", "nk"):
                    x, y, op = y, x, FLIP[op]
                if x and x[0] == "cmp" and y and y[0] == "int":
                    if y[1] == 0:
                        return ("rt", x[1], x[2], op)
                    if (op, y[1]) in ((">=", 1), ("<=", -1)):
                        return ("rt", x[1], x[2], ">" if op == ">=" else "<")
                    # only the sign of a comparison means anything
                    s = {1} if y[1] > 0 else {-1}
                    if op in ("==", ">" if y[1] > 0 else "<", ">=" if y[1] > 0 else "<="):
                        return ("rs", x[1], x[2], frozenset(s), ALL)
                    return ("rs", x[1], x[2], ALL, frozenset(s))
                if x and y and x[0] in ("sym", "nk") and y[0] in ("sym", "nk"):
                    return ("rt", x, y, op)
                if x and y and x[0] == "sym" and y[0] == "int" and op in ("==", "!="):
                    return ("eqc", x, y[1], op == "==")
                if x and y and op in ("==", "!=") and {x[0], y[0]} == {"node", "null"}:
                    return ("int", int(op == "!="))
                if x and y and x[0] == y[0] == "node" and op in ("==", "!="):
                    return ("int", int((x == y) == (op == "==")))
            return None
        if k == "cond":
            return None
        return None

    def hook(self, a):
        self.auto = a

    def enter(self, w, fn, a, env):
        d = len(w.stack)
        live = [f[1] for f in a if f[0] == "org"]
        return a | set(("pin", d, k) for k in live)

    def leave(self, w, fn, a, e, val, line):
        d = len(w.stack)
        keepk = set(f[2] for f in a if f[0] == "pin") | {0, self.cur(a)}
        a = frozenset(f for f in a if not (f[0] == "pin" and f[1] == d))
        if d == 1:
            self.ends.append((a, val, fn, line))
            return frozenset()
        # nodes nobody can name any more
        if val and val[0] in ("node", "nk", "vk", "nvk"):
            keepk.add(val[1])
        for x in val or ():
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "nk":
                keepk.add(x[1])
        return frozenset(f for f in a if not (f[0] in ("org", "val") and f[1] not in keepk) and
                         not (f[0] == "rel" and any(x[0] == "nk" and x[1] not in keepk for x in f[1:3])))

    # -- steps -----------------------------------------------------------------------------
    def inline(self, f):
        return bool(f.blocks) and ("MemTable::Iterator" in (f.cls or "") or f.file.endswith("memtable_iterator.cc"))

    def is_cmp(self, fn, n, name):
        ts = [(fn.nodes[x].get("t") or "") for x in n.get("args", ())]
        return len(ts) == 2 and all("SizedBuf" in t for t in ts) and ((n.get("t") or "") == "int")

    def elem(self, w, fn, i, n, a, e, nv):
        self.auto = a
        k = n["k"]
        v = lambda x: w.val(fn, e, nv, x)
        if k == "asn":
            t = fn.nodes[n["a"]]
            if t and t["k"] == "mem":
                f = t["f"].rsplit("::", 1)[-1]
                base = fn.nodes[t["b"]] if t.get("b") is not None else None
                x = v(n["b"]) if n["op"] == "=" else None
                if base is None or base["k"] == "this":
                    if f == "cursor":
                        if x is None or x[0] not in ("node", "null"):
                            self.unsure.add("%s:%d: what the position becomes" % (fn.file, n["l"]))
                            raise Budget("position")
                        return [(self.setcur(a, x[1] if x[0] == "node" else None), e, x)]
                    if f in FIELDS:
                        if not self.init:
                            self.bad(fn, n["l"], "bound", "%s changes a bound of the range after it was set" % fn.name)
                        a = frozenset(z for z in a if not (z[0] == "fld" and z[1] == f)) | {("fld", f, x or ("unset",))}
                        return [(a, e, x)]
                b = v(t["b"]) if t.get("b") is not None else None
                if b and b[0] == "loc" and f == "seqNum":
                    return [(a, {**e, "$s:" + b[1]: x}, x)]
            return None
        if k == "decl":
            t = n.get("t") or ""
            if "i" in n:
                x = v(n["i"])
                if x is None and t.endswith("Record"):
                    x = None
                return [(a, {**e, n["v"]: x}, None)]
            return None
        if k == "finit":
            return [(a, e, None)]
        if k == "ctor":
            c = (n.get("cls") or "").rsplit("::", 1)[-1]
            args = [v(x) for x in n.get("args", ())]
            if c == "Status":
                if not args:
                    return [(a, e, ("st", 0))]
                if args[0] and args[0][0] == "int":
                    return [(a, e, ("st", args[0][1]))]
                return [(a, e, args[0] if args[0] and args[0][0] == "st" else None)]
            if c == "RecNode" and len(args) == 1:
                return [(a, e, ("q", args[0]) if args[0] and args[0][0] in ("sym", "nk") else None)]
            if c == "RecNodeSeq" and len(args) == 1:
                return [(a, e, ("qs", args[0][1]) if args[0] and args[0][0] == "loc" else None)]
            return [(a, e, args[0] if len(args) == 1 else None)]
        if k == "x":
            args = [v(x) for x in n.get("args", ())]
            if n.get("aop") and n.get("ap") is not None:
                return [(a, e, v(n["ap"]))]
            return [(a, e, args[0])] if len(args) == 1 and args[0] else None
        if k != "call":
            return None
        name = (n.get("n") or "").rsplit("::", 1)[-1]
        args = [v(x) for x in n.get("args", ())]
        obj = None
        if n.get("obj") is not None:
            o = fn.nodes[n["obj"]]
            obj = v(o["b"]) if o["k"] == "mem" and o.get("meth") and o.get("b") is not None else v(n["obj"])
        if name.startswith("skiplist_"):
            if args and args[0] and args[0][0] == "idx":
                self.check_index(fn, n, args[0][1])
            if name in ("skiplist_find_greater_or_equal", "skiplist_find_smaller_or_equal", "skiplist_find_greater",
                        "skiplist_find_smaller") and len(args) == 2:
                q = args[1]
                if q and q[0] == "qs":
                    q = ("q", e.get("$s:" + q[1]))
                if not q or q[0] != "q" or not q[1] or q[1][0] != "sym":
                    raise Budget("what line %s searches" % n["l"])
                kind = "ge" if "greater" in name else "le"
                if not name.endswith("_equal"):
                    kind += "!"
                if kind[-1] == "!":
                    res = [(self.ended(a, ("dirty",)), ("null",))]
                    k2, a2 = self.new(a, ("dirty",), [(q[1], {1} if kind == "ge!" else {-1})])
                    res.append((a2, ("node", k2)))
                else:
                    res = self.search(a, kind, q[1])
                return [(x, e, y) for x, y in res]
            if name in ("skiplist_begin", "skiplist_end"):
                kind = name[9:]
                k2, a2 = self.new(a, (kind,), [])
                return [(self.ended(a, (kind,)), e, ("null",)), (a2, e, ("node", k2))]
            if name in ("skiplist_next", "skiplist_prev") and len(args) == 2:
                if not args[1] or args[1][0] != "node":
                    raise Budget("what line %s steps from" % n["l"])
                return [(x, e, y) for x, y in self.step(a, name[9:], args[1][1])]
            return [(a, e, None)]
        if name == "validKeyExist":
            o = obj or (args[0] if args and args[0] and args[0][0] == "node" else None)
            if not o or o[0] != "node":
                raise Budget("whose versions line %s looks at" % n["l"])
            self.versions(fn, n, args)
            if len(args) < 3 or args[2] not in (("int", 1), sym("allow")):
                self.bad(fn, n["l"], "tomb:" + fn.short, "%s passes over keys whose newest version is a deletion, so an "
                         "older version below shows through" % fn.name)
            return [(a, e, ("vk", o[1]))]
        if name == "getLatestRecord":
            self.versions(fn, n, args)
            return [(a, e, ("best", obj[1]) if obj and obj[0] == "node" else None)]
        if name == "empty" and obj == ("unset",):
            return [(a, e, ("int", 1))]
        if name == "empty" and obj and obj[0] == "sym":
            return [(a, e, ("em", obj[1]))]
        if name in ("alloc", "copyTo", "referTo") and n.get("obj") is not None and self.init:
            o = fn.nodes[n["obj"]]
            o = fn.nodes[o["b"]] if o["k"] == "mem" and o.get("meth") and o.get("b") is not None else o
            if o and o["k"] == "mem" and o["f"].rsplit("::", 1)[-1] in FIELDS and args:
                f = o["f"].rsplit("::", 1)[-1]
                return [(frozenset(z for z in a if not (z[0] == "fld" and z[1] == f)) |
                         {("fld", f, args[0] or ("unset",))}, e, None)]
        if name == "valid_number" and args and args[0]:
            return [(a, e, ("vn", args[0]))]
        if name in ("max", "min") and len(args) == 2 and all(x and x[0] in ("sym", "nk") for x in args):
            out = []
            for want, x in ((">=", args[0]), ("<", args[1])) if name == "max" else (("<=", args[0]), (">", args[1])):
                b = self.assume(a, args[0], args[1], SET[want])
                if b is not None:
                    out.append((b, e, x))
            return out
        if name == "operator=" and (n.get("t") or "").endswith("Record") or "Record &" in (n.get("t") or ""):
            both = ([obj] if n.get("obj") is not None else []) + args
            if len(both) == 2 and both[0] == ("t", "out"):
                return [(frozenset(z for z in a if z[0] != "out") | {("out", both[1])}, e, None)]
        if n.get("oper") or name in ("load", "operator unsigned long"):
            both = ([obj] if obj else []) + args
            both = [x for x in both if x]
            op = name[8:] if name.startswith("operator") else ""
            if op in SET and len(both) == 2:
                return [(a, e, ("rt", both[0], both[1], op))]
            if obj or len(both) == 1:
                return [(a, e, obj or both[0])]
        if len(args) >= 2 and all(x and x[0] in ("q", "node") for x in args[:2]) and (n.get("t") or "") == "int":
            return [(a, e, ("cmp",) + tuple(x[1] if x[0] == "q" else ("nk", x[1]) for x in args[:2]))]
        ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
        if len(ids) == 1 and ids[0] in self.P.fns and self.inline(self.P.fns[ids[0]]):
            return None
        if self.is_cmp(fn, n, name) and all(x and x[0] in ("sym", "nk") for x in args):
            self.bad(fn, n["l"], "cmp:" + fn.short, "%s compares keys byte by byte, while the table may be ordered by a "
                     "comparator of the user" % fn.name)
            return [(a, e, ("cmp", args[0], args[1]))]
        return [(a, e, None)]

    def versions(self, fn, n, args):
        if [x for x in args[:2]] != [sym("from"), sym("upto")]:
            self.bad(fn, n["l"], "seq:" + fn.short, "%s looks at the versions of a key for another range of sequence "
                     "numbers than the iterator was opened with" % fn.name)

    def check_index(self, fn, n, f):
        if f != ("idxByKey" if self.bykey else "idxBySeq"):
            self.bad(fn, n["l"], "index:" + fn.short, "%s walks the index of the other kind of iterator" % fn.name)

    # -- conditions ----------------------------------------------------------------------------
    def branch(self, w, fn, tc, want, a, e, nv, b):
        self.auto = a
        v = w.val(fn, e, nv, tc)
        if v is None:
            self.blind(fn, tc, e, nv, w)
            return None
        if v[0] == "node":
            return None if want else False
        if v[0] == "cmp":
            v = ("rt", v[1], v[2], "!=")
        if v[0] == "rt":
            a2 = self.assume(a, v[1], v[2], SET[v[3]] if want else SET[NEG[v[3]]])
            if a2 is None:
                return False
            return self.out(a2)
        if v[0] == "rs":
            a2 = self.assume(a, v[1], v[2], v[3] if want else v[4])
            return False if a2 is None else self.out(a2)
        if v[0] in ("em", "nem"):
            x = want == (v[0] == "em")
            if self.empty(a, v[1]) not in (None, x):
                return False
            return a | {("emp", v[1], x)}
        if v[0] in ("vk", "nvk"):
            return a | {("val", v[1], want == (v[0] == "vk"))}
        if v[0] == "eqc":
            x = want == v[3]
            if ("eqc", v[1], v[2], not x) in a:
                return False
            return a | {("eqc", v[1], v[2], x)}
        if v[0] in ("vn", "nvn"):
            x = want == (v[0] == "vn")
            if v[1] == sym("pmax") and not x:
                return None
            if ("vn", v[1], not x) in a:
                return False
            return a | {("vn", v[1], x)}
        return None

    def out(self, a):
        """Chains that have left the range."""
        for f in [f for f in a if f[0] == "org"]:
            o = f[2]
            if o[0] in ("dirty", "start"):
                continue
            fwd = o[0] in FWD
            s = self.hi if fwd else self.lo
            lim = [sym(s)] if not self.init or self.bykey else []
            lim += [x[2] for x in a if x[0] == "fld" and x[1] == {"max": "maxSeq", "min": "minSeq"}.get(s) and x[2] and
                    x[2][0] == "sym"]
            if any(self.rels(a, ("nk", f[1]), z) == ({1} if fwd else {-1}) for z in lim) and \
                    (not self.bykey or self.empty(a, s) is False):
                a = self.ended(a, o)
        return a

    def blind(self, fn, tc, e, nv, w):
        """A condition on keys that is not understood."""
        from ..cwalk import subtree
        for j in subtree(fn, tc):
            v = w.val(fn, e, nv, j)
            if v and v[0] in ("nk", "cmp", "vk"):
                raise Budget("the condition at line %s" % fn.nodes[tc]["l"])


def top(P, rule, f, opt, r):
    a = set()
    if not rule.init:
        a |= {("cur", 0), ("org", 0, ("start",)), ("val", 0, True)}
        a.add(("rel",) + ((("nk", 0), sym(rule.lo), frozenset((0, 1)))))
        a.add(("rel",) + ((("nk", 0), sym(rule.hi), frozenset((-1, 0)))))
        x, y = sorted((sym(rule.lo), sym(rule.hi)))
        a.add(("rel", x, y, frozenset((-1, 0) if x == sym(rule.lo) else (0, 1))))
    else:
        a.add(("cur", None))
        # the smallest number of a table does not exceed its largest one
        x, y = sym("t.minSeqNum"), sym("t.maxSeqNum")
        a.add(("rel", y, x, frozenset((0, 1))))
        if rule.bykey:
            for fld in ("startKey", "endKey", "seqFrom", "seqUpto"):
                a.add(("fld", fld, ("unset",)))
    args = []
    for p in f.params:
        t = p["t"]
        if p["n"] in PARAMS and rule.init:
            args.append(sym(PARAMS[p["n"]]))
        elif "SeekOption" in t:
            args.append(("int", opt))
        elif "bool" in t:
            args.append(sym("allow") if "tomb" in p["n"] else None)
        elif "SizedBuf" in t or "long" in t:
            args.append(sym("arg"))
        elif t.replace("jungle::", "") == "Record &":
            args.append(("t", "out"))
        elif "MemTable" in t:
            args.append(("t", "table"))
        else:
            args.append(None)
    w = MWalk(P, rule, 60000)
    rule.ends = []
    rule.auto = frozenset(a)
    w.run(f.id, frozenset(a), tuple(args))
    return rule.ends


def judge(r, rule, f, what, ends, rest=None):
    """what: set of allowed origins, as a function of the facts -> (ok, must be ended first)"""
    n = 0
    for a, val, fn, line in ends:
        n += 1
        where = "%s:%s" % (f.file, line)
        cur = rule.cur(a)
        name = f.name + (" (by key)" if rule.bykey else " (by number)")
        key = "%s:%s" % (f.short, "k" if rule.bykey else "s")
        if val is None or val[0] != "st":
            r.undecided.append("%s: the result of %s" % (where, name))
            continue
        if what is None:
            if val[1] == 0:
                r.check(cur == 0 and ("out", ("best" if rule.bykey else "rec", 0)) in a, "out:" + key, where,
                        "%s does not return the record the iterator stands on" % name)
            continue
        searched = ("did",) in a
        if val[1] == 0:
            if cur is None:
                ok = rule.init and any(x[0] == "ended" and what(rule, a, x[1]) for x in a)
                r.check(ok, "ok-none:" + key, where, "%s reports success without a record" % name)
                continue
            if cur == 0 and not rule.init:
                r.check(False, "stay:" + key, where, "%s reports success without moving" % name)
                continue
            nk = ("nk", cur)
            lo, hi = sym(rule.lo), sym(rule.hi)
            if rule.init:
                fld = dict((x[1], x[2]) for x in a if x[0] == "fld")
                lo = fld.get("startKey" if rule.bykey else "minSeq", lo)
                hi = fld.get("endKey" if rule.bykey else "maxSeq", hi)
                if rule.bykey:
                    r.check((lo, hi) == (sym("start"), sym("end")), "bounds:" + key, where,
                            "%s does not keep the bounds it was given" % name)
                    r.check((fld.get("seqFrom"), fld.get("seqUpto")) == (sym("from"), sym("upto")), "snap:" + key, where,
                            "%s does not keep the range of sequence numbers it was given" % name)
                else:
                    r.check(("vn", sym("pmin"), False) in a or lo[0] == "sym" and -1 not in rule.rels(a, lo, sym("pmin")),
                            "pmin:" + key, where, "%s allows numbers below the range asked for" % name)
                    r.check(hi[0] == "sym" and 1 not in rule.rels(a, hi, sym("pmax")),
                            "pmax:" + key, where, "%s allows numbers above the range asked for" % name)
            g = rule.bykey and rule.empty(a, rule.lo) is True or lo[0] == "sym" and -1 not in rule.rels(a, nk, lo)
            l = rule.bykey and rule.empty(a, rule.hi) is True or hi[0] == "sym" and 1 not in rule.rels(a, nk, hi)
            r.check(bool(g), "below:" + key, where, "%s can stop at a record before the start of the range" % name)
            r.check(bool(l), "above:" + key, where, "%s can stop at a record behind the end of the range" % name)
            if rule.bykey:
                r.check(rule.valid(a, cur) is True, "valid:" + key, where,
                        "%s can stop at a key of which the snapshot sees no version" % name)
            o = rule.org(a, cur)
            if o is not None:
                r.check(what(rule, a, o), "way:" + key, where, "%s can stop at another record than the nearest one in the "
                        "direction asked (reached by %s)" % (name, say(o)))
        elif val[1] != 0:
            r.check(cur == (None if rule.init else 0), "moved:" + key, where,
                    "%s reports a failure but has moved" % name)
            if rule.init and not rule.bykey and not searched:
                fld = dict((x[1], x[2]) for x in a if x[0] == "fld")
                m = fld.get("minSeq") or ("unset",)
                r.check(rule.rels(a, sym("pmin"), sym("t.maxSeqNum")) == {1} or
                        m[0] == "sym" and rule.rels(a, m, sym("pmax")) == {1} or
                        any(x[0] == "eqc" and x[1] == sym("t.maxSeqNum") and x[3] for x in a), "early:" + key, where,
                        "%s gives up before looking although the ranges may overlap" % name)
            if searched:
                r.check(any(x[0] == "ended" and what(rule, a, x[1]) for x in a) and
                        (rest is None or any(x[0] == "ended" and rest(rule, a, x[1]) for x in a)), "gaveup:" + key, where,
                        "%s gives up although there may be a record in the range" % name)
    return n


def say(o):
    if o[0] == "dirty":
        return "passing over records it must not pass over"
    t = {"next": "stepping forward", "prev": "stepping backward", "begin": "the first record", "end": "the last record",
         "ge": "the first record from", "le": "the last record up to"}[o[0]]
    n = {"arg": "what was asked for", "start": "the start", "end": "the end", "min": "the start", "max": "the end"}
    return t + (" " + n.get(o[1][1], o[1][1]) if len(o) > 1 else "")


def at(kind):
    return lambda rule, a, o: o[0] == kind


def given(rule, a, lim):
    """The start is always comparable (an empty key is below all others), the
    end only if one was given."""
    return not rule.bykey or lim == rule.lo or rule.empty(a, lim) is False


def edge(kind, other):
    """From the first (last) record of the range."""
    def ok(rule, a, o):
        lo = rule.lo if kind == "ge" else rule.hi
        if rule.init:
            fld = dict((x[1], x[2]) for x in a if x[0] == "fld")
            want = fld.get("startKey" if rule.bykey else "minSeq", sym(lo))
            return o == (kind, want) or o[0] == kind and rule.rels(a, o[1], want) == {0} or \
                rule.bykey and o == (kind, sym("start"))
        return o == (kind, sym(lo)) and given(rule, a, lo) or o[0] == other and (rule.empty(a, lo) is True or not rule.bykey)
    return ok


def nearest(kind):
    """Seek: from what was asked for, brought into the range; the other end of
    the range when nothing is left in that direction."""
    near, far = ("ge", "le") if kind == 0 else ("le", "ge")

    def direct(rule, a, o):
        if o[0] == ("begin" if kind == 0 else "end"):
            s = sym(rule.lo if kind == 0 else rule.hi)
            r = rule.rels(a, sym("arg"), s)
            return (1 if kind == 0 else -1) not in r and rule.empty(a, s[1]) is True
        if o[0] != near:
            return False
        if o[1] == sym("arg"):
            return True
        r = rule.rels(a, sym("arg"), o[1])
        if o[1] == sym(rule.lo):
            return 1 not in r
        if o[1] == sym(rule.hi):
            return -1 not in r
        return False

    def ok(rule, a, o):
        return direct(rule, a, o) or other(rule, a, o)

    def other(rule, a, o):
        lim = rule.hi if kind == 0 else rule.lo
        if not any(x[0] == "ended" and direct(rule, a, x[1]) for x in a):
            return False
        return o == (far, sym(lim)) and given(rule, a, lim) or o == (far, sym("arg")) or \
            o[0] == ("end" if kind == 0 else "begin") and (rule.empty(a, lim) is True or not rule.bykey)
    ok.rest = other
    return ok


SPEC = [("get", True, None, None), ("get", False, None, None), ("init", True, None, edge("ge", "begin")), ("initSN", False, None, edge("ge", "begin")),
        ("next", True, None, at("next")), ("next", False, None, at("next")),
        ("prev", True, None, at("prev")), ("prev", False, None, at("prev")),
        ("gotoBegin", True, None, edge("ge", "begin")), ("gotoBegin", False, None, edge("ge", "begin")),
        ("gotoEnd", True, None, edge("le", "end")), ("gotoEnd", False, None, edge("le", "end")),
        ("seek", True, 0, nearest(0)), ("seek", True, 1, nearest(1)),
        ("seekSN", False, 0, nearest(0)), ("seekSN", False, 1, nearest(1))]


def range_rule(P, prop, thorough):
    r = Result()
    r.undecided = []
    r.rules.append("every node that becomes the position of the memory table iterator is proven, on every path, to lie "
                   "inside the range and to be visible to the snapshot")
    r.rules.append("it is reached from the required starting point in the required direction, passing over only invisible "
                   "keys; failure is reported only when that walk has ended, and without moving")
    cls = [c for n, c in P.classes.items() if n.endswith("MemTable::Iterator")]
    names = set(x["n"] for c in cls for x in c["fields"])
    if not set(FIELDS) <= names:
        r.undecided.append("the bounds of the iterator are not kept in the expected fields")
    types = enum_of(P)
    n = 0
    for name, bykey, opt, what in SPEC:
        fs = [f for f in P.fns.values() if f.blocks and f.short == "MemTable::Iterator::" + name]
        for f in fs:
            rule = Mem(P, bykey, name.startswith("init"))
            rule.types = types
            r.functions.add(f.id)
            try:
                ends = top(P, rule, f, types["SMALLER"] if opt else types["GREATER"], r)
            except Budget as x:
                r.undecided.append("%s: %s is outside what can be followed (%s)" % (f.where(), x, name))
                continue
            for (k, file), (fn, line, m) in sorted(rule.found.items(), key=lambda x: x[0]):
                r.check(False, k, "%s:%d" % (file, line), m)
            n += judge(r, rule, f, what, ends, getattr(what, "rest", None))
            r.samples.append("%s %s%s: %d outcomes" % (name, "by key" if bykey else "by number",
                             "" if opt is None else " smaller" if opt else " greater", len(ends)))
    deletions(P, r)
    r.coverage = {"outcomes": n, "undecided": sorted(set(r.undecided))}
    return r


def enum_of(P):
    out = {"BY_KEY": 0, "BY_SEQ": 1, "GREATER": 0, "SMALLER": 1}
    for f in P.fns.values():
        if f.file.endswith("memtable_iterator.cc"):
            for n in f.nodes:
                if n and n.get("enum", "").startswith("jungle::MemTable::Iterator::") and "cv" in n:
                    out[n["enum"].rsplit("::", 1)[-1]] = n["cv"]
    return out


def deletions(P, r):
    """Steps of the merge over log files see deletions."""
    for f in P.fns.values():
        if not f.blocks or "Iterator" not in (f.cls or ""):
            continue
        own = set(p["v"] for p in f.params if "tomb" in p["n"])
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "call" or not n.get("fn"):
                continue
            for t in P.targets(n):
                g = P.fns.get(t)
                if not g or "Iterator" not in (g.cls or ""):
                    continue
                for j, p in enumerate(g.params):
                    if "tomb" in p["n"] and "bool" in p["t"]:
                        x = f.nodes[n["args"][j]] if j < len(n["args"]) else None
                        ok = x and (x.get("cv") == 1 or x["k"] == "ref" and x.get("v") in own)
                        r.check(bool(ok), "tomb:" + f.short, "%s:%d" % (f.file, n["l"]),
                                "%s steps over deletions, so an older version below shows through" % f.name)
