"""M02: the iterators that merge others (over log files, over tables, and over both).

The functions that move them are followed path by path.  Facts: where in the
order of the tree an item was found, how its record compares to the position
asked from, what its flags say, whether its own iterator has moved, whether it
is in the tree.  Passing over an item must be justified by such a fact."""
from ..core import Result
from ..cwalk import Budget, truth, subtree
from .memiter import Order, MWalk, SET, NEG, FLIP, ALL, sym

POS, ARG = sym("pos"), sym("arg")


class Merge(Order):
    def __init__(self, P, cls, names, bits, bykey, mode):
        self.P, self.cls, self.bykey, self.mode = P, cls, bykey, mode
        self.child, self.types = names, bits
        self.NP, self.NN, self.INV = bits["no_more_prev"], bits["no_more_next"], bits.get("invalid", 0)
        self.found = {}
        self.ends = []
        self.nodes = 0

    # mode: ("next",) ("prev",) ("seek", GREATER or SMALLER, goto_end)
    @property
    def fwd(self):
        return self.mode[0] == "next" or self.mode[0] == "seek" and self.mode[1] == self.types["GREATER"]

    @property
    def beyond(self):
        return 1 if self.mode[0] == "next" else -1

    def bad(self, fn, line, key, msg):
        self.found.setdefault((key, self.cls), (fn, line, msg))

    # -- facts ------------------------------------------------------------------------
    def get(self, a, *pre):
        for f in a:
            if f[:len(pre)] == pre:
                return f[len(pre)]
        return None

    def put(self, a, *fact):
        """Replaces the fact with the same prefix."""
        p = fact[:-1]
        return frozenset(f for f in a if f[:len(p)] != p or len(f) != len(fact)) | {fact}

    def drop(self, a, *pre):
        return frozenset(f for f in a if f[:len(pre)] != pre)

    def cur(self, a):
        return self.get(a, "cur")

    def bit(self, a, k, m):
        if m == 0:
            return 0
        return self.get(a, "bit", k, m)

    def setbits(self, a, k, value):
        for m in (self.NP, self.NN, self.INV):
            if m:
                a = self.put(a, "bit", k, m, 1 if value & m else 0)
        return self.put(a, "nz", k, int(value != 0))

    def new(self, a, org, **kw):
        used = set(f[1] for f in a if f[0] == "org")
        k = min(x for x in range(1, 60) if x not in used)
        a = self.forget(a, k)
        return k, a | {("org", k, org)}

    def forget(self, a, k):
        return frozenset(f for f in a if not (f[0] in ("org", "bit", "nz", "mv", "out", "fresh", "child", "ins", "coll",
                                                       "inserted") and f[1] == k) and
                         not (f[0] == "rel" and ("nk", k) in f[1:3]))

    def canon(self, w, fn, a, e):
        live = {self.cur(a), self.get(a, "cand"), 0} | set(f[2] for f in a if f[0] == "pin")
        for v in e.values():
            live |= mentioned(v)
        for f in list(a):
            if f[0] == "org" and f[1] not in live:
                k = f[1]
                if ("out", k) in a and ("coll", k) not in a:
                    self.bad(fn, fn.line, "lost:" + fn.short, "%s takes an iterator out of the tree and does not put it "
                             "back: its records are no longer seen" % fn.name)
                a = self.forget(a, k)
        if len(w.stack) == 1:
            a = frozenset(f for f in a if not (f[0] == "rel" and any(x[0] == "sym" and x[1][:2] == "v:" and x[1][2:] not in e
                                                                     for x in f[1:3])))
        return a, e

    def keep(self, k):
        return k[0] == "$"

    def enter(self, w, fn, a, env):
        d = len(w.stack)
        return a | set(("pin", d, f[1]) for f in a if f[0] == "org")

    def leave(self, w, fn, a, e, val, line):
        d = len(w.stack)
        keep = set(f[2] for f in a if f[0] == "pin") | {0, self.cur(a), self.get(a, "cand")} | mentioned(val)
        a = frozenset(f for f in a if not (f[0] == "pin" and f[1] == d))
        if d == 1:
            self.ends.append((a, val, fn, line))
            return frozenset()
        for f in list(a):
            if f[0] == "org" and f[1] not in keep and ("out", f[1]) not in a:
                a = self.forget(a, f[1])
        return a

    # -- values -------------------------------------------------------------------------
    def value(self, w, fn, e, nv, i, n):
        k = n["k"]
        a = self.auto
        if k == "this":
            return ("t", "this")
        if k == "mem" and not n.get("meth"):
            f = n["f"].rsplit("::", 1)[-1]
            b = w.val(fn, e, nv, n["b"]) if n.get("b") is not None else ("t", "this")
            if b == ("t", "this"):
                if f == "p" or f == "parent":
                    return ("t", "this")
                if f == "windowCursor":
                    c = self.cur(a)
                    return ("null",) if c is None else ("nd", c)
                if f == "curWindow":
                    return ("t", "tree")
                if f == "type":
                    return ("int", self.types["BY_KEY" if self.bykey else "BY_SEQ"])
                if f == "fatalError":
                    return ("st", 1)
                if f in ("db", "lMgr", "tMgr"):
                    return ("t", f)
                return None
            if b and b[0] == "nd":
                if f == "an":
                    return b
                if f == "flags":
                    return ("flags", b[1])
                if f == "lastRec":
                    return ("rec", b[1])
                if f in self.child:
                    return ("child", b[1], f)
                return None
            if b and b[0] == "rec":
                if f == "kv":
                    return b
                if f == "key":
                    return ("nk", b[1]) if self.bykey else ("other", b[1])
                if f == "seqNum":
                    return ("other", b[1]) if self.bykey else ("nk", b[1])
            return None
        if k == "fnref":
            return ("fn", n["n"].rsplit("::", 1)[-1])
        if k == "ref" and n.get("v"):
            v = e.get(n["v"])
            return v
        if k == "un":
            v = w.val(fn, e, nv, n["a"])
            if n["op"] in ("&", "*"):
                return v
            if n["op"] == "!" and v:
                if v[0] == "rt":
                    return ("rt", v[1], v[2], NEG[v[3]])
                if v[0] == "flag":
                    return ("flag", v[1], v[2], not v[3])
                if v[0] == "isins":
                    return ("isins", v[1], not v[2])
                if v[0] in ("nd", "child"):
                    return ("notchild",) + v[1:] if v[0] == "child" else ("int", 0)
                if v[0] == "st":
                    return ("int", 0 if v[1] == 1 else 1)
            return None
        if k == "bin":
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            op = n["op"]
            if op in ("&&", "||"):
                tx, ty = truth(x), truth(y)
                if tx is (op == "&&") and ty is None:
                    return y
                if ty is (op == "&&") and tx is None:
                    return x
                return None
            if op == "-" and x and x[0] in ("nd", "null"):
                return x
            if op == "&" and x and y:
                if x[0] == "int":
                    x, y = y, x
                if x[0] == "flags" and y[0] == "int":
                    return ("flag", x[1], y[1], True)
            if op in SET:
                if x and x[0] == "int" and y and y[0] in ("cmp", "sym", "nk", "flags", "flag"):
                    x, y, op = y, x, FLIP[op]
                if x and x[0] == "flags" and y == ("int", 0) and op in ("==", "!="):
                    return ("flag", x[1], self.NP | self.NN | self.INV, op == "!=")
                if x and x[0] == "flag" and y == ("int", 0) and op in ("==", "!="):
                    return x[:3] + (x[3] if op == "!=" else not x[3],)
                if x and x[0] == "cmp" and y and y[0] == "int":
                    if y[1] == 0:
                        return ("rt", x[1], x[2], op)
                    if (op, y[1]) in ((">=", 1), ("<=", -1)):
                        return ("rt", x[1], x[2], ">" if op == ">=" else "<")
                    s = {1} if y[1] > 0 else {-1}
                    if op in ("==", ">" if y[1] > 0 else "<", ">=" if y[1] > 0 else "<="):
                        return ("rs", x[1], x[2], frozenset(s), ALL)
                    return ("rs", x[1], x[2], ALL, frozenset(s))
                if x and y and x[0] in ("sym", "nk") and y[0] in ("sym", "nk"):
                    return ("rt", x, y, op)
                if x and y and op in ("==", "!=") and {x[0], y[0]} == {"nd", "null"}:
                    return ("int", int(op == "!="))
                if x and y and x[0] == y[0] == "nd" and op in ("==", "!="):
                    return ("int", int((x == y) == (op == "==")))
                if x and y and op in ("==", "!=") and {x[0], y[0]} == {"child", "null"}:
                    x = x if x[0] == "child" else y
                    return x if op == "!=" else ("notchild",) + x[1:]
        return None

    # -- steps -----------------------------------------------------------------------------
    def inline(self, f):
        return bool(f.blocks) and f.cls and f.cls.endswith(self.cls) and f.short.rsplit("::", 1)[-1] not in \
            ("next", "prev", "close", "seek", "seekSN", "cmpSizedBuf", "get", "gotoBegin", "gotoEnd")

    def drops(self, a, k):
        """The record of an item is read anew."""
        a = frozenset(f for f in a if not (f[0] == "rel" and ("nk", k) in f[1:3]))
        return self.drop(a, "ins", k)

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        v = lambda x: w.val(fn, e, nv, x)
        if k == "asn":
            t = fn.nodes[n["a"]]
            x = v(n["b"])
            if t and t["k"] == "mem":
                f = t["f"].rsplit("::", 1)[-1]
                b = v(t["b"]) if t.get("b") is not None else ("t", "this")
                if f == "windowCursor" and b == ("t", "this"):
                    if x is None or x[0] not in ("nd", "null"):
                        raise Budget("line %s: the item it stands on" % n["l"])
                    return [(self.setcur(a, x[1] if x[0] == "nd" else None), e, x)]
                if f == "flags" and b and b[0] == "nd":
                    if x is None or x[0] != "int":
                        if n["op"] == "=":
                            a = self.drop(self.drop(a, "bit", b[1]), "nz", b[1])
                            return [(a, e, None)]
                        raise Budget("line %s: the flags" % n["l"])
                    if n["op"] == "=":
                        return [(self.setbits(a, b[1], x[1]), e, None)]
                    d = {"next": self.NN, "prev": self.NP}.get(self.mode[0], 0)
                    if n["op"] == "|=" and x[1] & d and self.bit(a, b[1], d) != 1 and self.get(a, "mv", b[1]) != "fail":
                        self.bad(fn, n["l"], "given:" + fn.short, "%s marks an iterator as at its end that was not asked to "
                                 "move" % fn.name)
                    for m in (self.NP, self.NN, self.INV):
                        if n["op"] == "|=" and x[1] & m:
                            a = self.put(a, "bit", b[1], m, 1)
                            a = self.put(a, "nz", b[1], 1)
                        if n["op"] == "&=" and not x[1] & m:
                            a = self.put(a, "bit", b[1], m, 0)
                            a = self.drop(a, "nz", b[1])
                    return [(a, e, None)]
                return None
            if t and t["k"] == "ref" and t.get("v") and n["op"] == "=":
                a, x = self.copied(fn, t["v"], a, x)
                return [(a, {**e, t["v"]: x}, x)]
            return None
        if k == "decl":
            x = v(n["i"]) if "i" in n else None
            t = n.get("t") or ""
            if x is None and "ItrItem" in t and ("*" in t) and "vector" not in t and "iterator" not in t and "i" in n:
                # one of the items collected before
                if ("emptied",) not in a:
                    raise Budget("line %s: which item" % n["l"])
                k2, a = self.new(a, ("coll",))
                return [(a | {("out", k2)}, {**e, n["v"]: ("nd", k2)}, None)]
            if "&" not in t:
                a, x = self.copied(fn, n["v"], a, x)
            return [(a, {**e, n["v"]: x}, None)]
        if k == "ctor":
            c = (n.get("cls") or "").rsplit("::", 1)[-1]
            args = [v(x) for x in n.get("args", ())]
            if c == "Status":
                if not args:
                    return [(a, e, ("st", 1))]
                if args[0] and args[0][0] == "int":
                    return [(a, e, ("st", int(args[0][1] == 0)))]
                return [(a, e, args[0] if args[0] and args[0][0] == "st" else None)]
            return [(a, e, args[0] if len(args) == 1 else None)]
        if k == "x":
            args = [v(x) for x in n.get("args", ())]
            if n.get("aop"):
                return None
            return [(a, e, args[0])] if len(args) == 1 and args[0] else None
        if k == "call":
            return self.called(w, fn, n, a, e, v)
        return None

    def setcur(self, a, c):
        return self.put(a, "cur", c)

    def copied(self, fn, var, a, x):
        """A key or number is copied into a local."""
        if x and x[0] == "nk":
            s = sym("v:" + var)
            a = self.rebase(fn, a, x[1])
            if self.rels(a, x, POS) == {0}:
                return a, POS
            a = frozenset(f for f in a if not (f[0] == "rel" and s in f[1:3]))
            for y in set(z for f in a if f[0] == "rel" for z in f[1:3]):
                r = self.rels(a, x, y)
                if r != ALL and y != x:
                    b = self.assume(a, s, y, r)
                    a = a if b is None else b
            a = self.assume(a, s, x, {0})
            return a, s
        return a, x

    def rebase(self, fn, a, k):
        """Another step begins from the item just reached."""
        if self.mode[0] == "seek" or k != self.cur(a) or ("start", k) in a or self.get(a, "org", k) == ("start",):
            return a
        if not self.bykey or self.get(a, "ins", k) is not False:
            self.bad(fn, fn.line, "again:" + fn.short, "%s passes over a record that is not deleted" % fn.name)
        self.chosen(fn, fn.line, a, k)
        a = frozenset(f for f in a if f[0] not in ("done", "none", "cand", "group", "passed") and
                      not (f[0] == "rel" and POS in f[1:3]))
        a = self.put(a, "org", k, ("start",))
        return self.assume(a, ("nk", k), POS, {0})

    # -- the tree -----------------------------------------------------------------------------
    def first(self, a, dir):
        k, b = self.new(a, (dir, "ok"))
        b = self.drop(b, "cand")
        b = frozenset(f for f in b if f[0] not in ("group", "passed"))
        out = [(b, ("nd", k))]
        if any(f[0] == "out" for f in a) and ("emptied",) not in a:
            out.append((self.null(a, dir, True), ("null",)))
        return out

    def skip(self, a, k):
        """May the walk in hand pass over item k?  'skip', 'cand' or None"""
        if self.mode[0] == "seek":
            if ("emptied",) not in a:
                return "cand"               # items being taken out
            if ("none",) in a:
                return "skip" if self.bit(a, k, self.INV) == 1 else "cand"
            if self.fwd:
                return "skip" if self.get(a, "nz", k) == 1 or self.bit(a, k, self.NN) == 1 else "cand"
            return "skip" if self.bit(a, k, self.NP) == 1 else "cand"
        if ("none",) in a:
            return "cand"
        if ("done",) not in a:
            return "skip" if self.bit(a, k, self.NN if self.mode[0] == "next" else self.NP) == 1 else None
        if self.bit(a, k, self.INV) == 1 or self.beyond not in self.rels(a, ("nk", k), POS):
            return "skip"
        return "cand"

    def passes(self, fn, n, a, k, dir):
        o = self.get(a, "org", k)
        if ("out", k) in a:
            self.bad(fn, n["l"], "stepout:" + fn.short, "%s steps on from an item that is no longer in the tree" % fn.name)
        if o is None or o[0] != dir or o[1] != "ok":
            return (dir, "dirty"), a
        s = self.skip(a, k)
        if s == "skip":
            return o, a
        if s == "cand":
            c = self.get(a, "cand")
            if c is not None and self.bykey:
                if (-1 if dir == "prev" else 1) in self.rels(a, ("nk", k), ("nk", c)) or dir == "next":
                    return (dir, "dirty"), a
            elif c is not None:
                return (dir, "dirty"), a
            return o, self.put(a, "cand", k)
        return (dir, "dirty"), a

    def step(self, fn, n, a, k, dir):
        o, b = self.passes(fn, n, a, k, dir)
        k2, c = self.new(b, o)
        inside = not any(f[0] == "out" for f in a)
        if inside:
            d = self.assume(c, ("nk", k2), ("nk", k), {0, 1} if dir == "next" else {-1, 0})
            c = c if d is None else d
            for y in (POS, ARG):
                r = self.rels(b, ("nk", k), y)
                if dir == "next" and -1 not in r or dir == "prev" and 1 not in r:
                    d = self.assume(c, ("nk", k2), y, {0, 1} if dir == "next" and 0 in r else {1} if dir == "next" else
                                    {-1, 0} if 0 in r else {-1})
                    c = c if d is None else d
        return [(c, ("nd", k2)), (self.null(b, dir, o[1] == "ok"), ("null",))]

    def null(self, a, dir, ok):
        """A walk over the tree has come to its end."""
        if not ok:
            return a
        if self.mode[0] == "seek":
            if ("emptied",) not in a:
                return self.drop(a, "cand") | {("emptied",)}
        elif ("done",) not in a:
            return a | {("done",), ("passed",)}
        c = self.get(a, "cand")
        if c is None:
            return a | {("none",)}
        return a | {("group",)}

    def ended(self, a):
        """Facts that follow when a comparison has been decided."""
        if self.mode[0] != "seek" and ("done",) not in a:
            for f in a:
                if f[0] == "org" and f[2] == (self.mode[0], "ok") and ("out", f[1]) not in a:
                    if self.rels(a, ("nk", f[1]), POS) == {self.beyond}:
                        return a | {("done",)}
        c = self.get(a, "cand")
        if c is not None and ("group",) not in a:
            for f in a:
                if f[0] == "org" and f[2] == ("prev", "ok") and f[1] != c and 0 not in self.rels(a, ("nk", f[1]), ("nk", c)):
                    return a | {("group",)}
        return a

    # -- calls ------------------------------------------------------------------------------------
    def called(self, w, fn, n, a, e, v):
        name = (n.get("n") or "").rsplit("::", 1)[-1]
        args = [v(x) for x in n.get("args", ())]
        obj = None
        oi = n.get("obj")
        if oi is not None:
            o = fn.nodes[oi]
            obj = v(o["b"]) if o["k"] == "mem" and o.get("meth") and o.get("b") is not None else v(oi)
        if name in ("avl_first", "avl_last"):
            return [(x, e, y) for x, y in self.first(a, "next" if name == "avl_first" else "prev")]
        if name in ("avl_next", "avl_prev") and args:
            if not args[0] or args[0][0] != "nd":
                raise Budget("line %s: where it steps from" % n["l"])
            return [(x, e, y) for x, y in self.step(fn, n, a, args[0][1], name[4:])]
        if name == "avl_remove" and len(args) == 2:
            if not args[1] or args[1][0] != "nd":
                raise Budget("line %s: what it removes" % n["l"])
            k = args[1][1]
            if ("out", k) in a:
                self.bad(fn, n["l"], "twice:" + fn.short, "%s removes an item twice" % fn.name)
            if self.get(a, "cand") == k:
                a = self.drop(a, "cand")
            return [(a | {("out", k)}, e, None)]
        if name == "avl_insert" and len(args) >= 2:
            if not args[1] or args[1][0] != "nd":
                raise Budget("line %s: what it inserts" % n["l"])
            return [(self.insert(fn, n, a, args[1][1], args), e, args[1])]
        if name == "push_back" and args and args[0] and args[0][0] == "nd":
            return [(a | {("coll", args[0][1])}, e, None)]
        if obj and obj[0] == "child":
            return self.moves(fn, n, a, e, name, obj[1], obj[2], args)
        if name in ("isIns", "isDel") and obj and obj[0] == "rec":
            return [(a, e, ("isins", obj[1], name == "isIns"))]
        if name == "cmpSizedBuf" and len(args) == 2:
            if all(x and x[0] in ("nk", "sym") for x in args):
                return [(a, e, ("cmp", args[0], args[1]))]
            return [(a, e, ("wild",))]
        if name in ("alloc", "copyTo") and obj is None and oi is not None and args:
            t = fn.nodes[oi]
            if t and t["k"] == "ref" and t.get("v") and args[0]:
                a, x = self.copied(fn, t["v"], a, args[0])
                return [(a, {**e, t["v"]: x}, None)]
        if n.get("oper") == "=" or name == "operator=":
            t = fn.nodes[oi] if oi is not None else None
            x = args[-1] if args else None
            if t and t["k"] == "ref" and t.get("v"):
                return [(a, {**e, t["v"]: x}, x)]
            return [(a, e, x)]
        if n.get("conv") or name == "ok":
            x = obj if obj else v(oi) if oi is not None else None
            if x and x[0] == "st":
                return [(a, e, ("int", int(x[1] == 1)))]
            return [(a, e, None)]
        if name in ("operator==", "operator!=") or n.get("oper") in ("==", "!="):
            both = [x for x in ([obj] if obj else []) + args if x]
            st = [x for x in both if x[0] == "st"]
            if st:
                eq = (n.get("oper") or name[8:]) == "=="
                if st[0][1] == 1:
                    c = [x for x in both if x[0] == "int"]
                    return [(a, e, ("int", int((bool(c) and c[0][1] == 0) == eq)))]
                if st[0][1] == -1:
                    # reading failed for good: that it is one of the two errors named is assumed
                    return [(a, e, ("int", int(eq)))]
            return [(a, e, None)]
        if name in ("next", "prev") and obj == ("t", "this") and len(args) == 0 and self.mode[0] == "seek":
            want = "next" if self.fwd else "prev"
            c = self.cur(a)
            if name != want:
                self.bad(fn, n["l"], "wayback:" + fn.short, "%s moves away from what was asked for when it meets a deleted "
                         "record" % fn.name)
            if c is None or self.get(a, "ins", c) is not False:
                self.bad(fn, n["l"], "again:" + fn.short, "%s passes over a record that is not deleted" % fn.name)
            elif ("none",) not in a and self.get(a, "org", c) != ("moved",):
                self.chosen(fn, n["l"], a, c)
            k, b = self.new(a, ("moved",))
            b = self.setcur(b, k)
            return [(b, e, ("st", 1)), (b | {("stuck",)}, e, ("st", 0))]
        ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
        if len(ids) == 1 and ids[0] in self.P.fns and self.inline(self.P.fns[ids[0]]):
            return None
        return [(a, e, None)]

    def moves(self, fn, n, a, e, name, k, f, args):
        if name == "get":
            if not args or not args[0] or args[0][0] != "rec":
                return [(a, e, None)]
            j = args[0][1]
            if j != k:
                self.bad(fn, n["l"], "whose:" + fn.short, "%s reads the record of another iterator" % fn.name)
            if ("out", k) not in a:
                self.bad(fn, n["l"], "inplace:" + fn.short, "%s changes the record of an item while the tree is ordered by "
                         "it" % fn.name)
            b = self.drops(a, k) | {("fresh", k)}
            out = [(b, e, ("st", 1))]
            if len(self.child) > 1 and f != "logItr" and self.mode[0] != "seek":
                out.append((b | {("fatal",)}, e, ("st", -1)))
            return out
        if name in ("next", "prev", "seek", "seekSN", "gotoBegin", "gotoEnd"):
            if self.mode[0] == "seek":
                opt, end = self.mode[1], self.mode[2]
                ok = name == "gotoEnd" if end else name == ("seek" if self.bykey else "seekSN") and \
                    args[:2] == [ARG, ("int", opt)]
                if not ok:
                    self.bad(fn, n["l"], "asked:" + fn.short, "%s does not bring every iterator to what was asked for"
                             % fn.name)
            else:
                if name != self.mode[0]:
                    self.bad(fn, n["l"], "way:" + fn.short, "%s moves an iterator the other way" % fn.name)
                if self.beyond in self.rels(a, ("nk", k), POS):
                    self.bad(fn, n["l"], "skips:" + fn.short, "%s moves an iterator whose record may not have been returned "
                             "yet" % fn.name)
                if self.get(a, "org", k) is None:
                    raise Budget("line %s: whose iterator moves" % n["l"])
                a = frozenset(x for x in a if x not in (("done",), ("none",), ("group",)))
            a = self.drop(self.drop(a, "mv", k), "fresh", k)
            return [(a | {("mv", k, "ok")}, e, ("st", 1)), (a | {("mv", k, "fail")}, e, ("st", 0))]
        return [(a, e, None)]

    def insert(self, fn, n, a, k, args):
        if ("out", k) not in a:
            self.bad(fn, n["l"], "dup:" + fn.short, "%s inserts an item that is in the tree" % fn.name)
        c = args[2] if len(args) > 2 else None
        if c and c[0] == "fn" and ("Seq" in c[1]) == self.bykey:
            self.bad(fn, n["l"], "order:" + fn.short, "%s inserts by another order than that of the tree" % fn.name)
        mv = self.get(a, "mv", k)
        if mv is None:
            self.bad(fn, n["l"], "notmoved:" + fn.short, "%s puts an iterator back that has not moved" % fn.name)
        if mv == "ok" and ("fresh", k) not in a:
            self.bad(fn, n["l"], "old:" + fn.short, "%s keeps the old record of an iterator that has moved" % fn.name)
        bits = [self.bit(a, k, m) for m in (self.NP, self.NN, self.INV)]
        if self.mode[0] != "seek":
            if mv == "ok" and bits[self.mode[0] == "next"] != 0:
                self.bad(fn, n["l"], "flag:" + fn.short, "%s leaves an iterator that has moved marked as at its end"
                         % fn.name)
            if mv == "ok" and bits[self.mode[0] == "prev"] != 0:
                self.bad(fn, n["l"], "flag:" + fn.short, "%s leaves the other end marked although the iterator has moved "
                         "away from it" % fn.name)
            if mv == "ok" and self.INV and bits[2] != 0:
                self.bad(fn, n["l"], "flag:" + fn.short, "%s leaves an iterator that has moved marked as invalid" % fn.name)
        elif mv == "fail":
            if bits[2] != 1 or bits[0] != 1 or bits[1] != 1:
                self.bad(fn, n["l"], "flag:" + fn.short, "%s lets an iterator take part that has no record" % fn.name)
        elif mv == "ok":
            want = [0, 0, 0]
            if not self.mode[2]:
                r = self.rels(a, ("nk", k), ARG)
                before = r == {-1} if self.fwd else r == {1}
                after = (-1 if self.fwd else 1) not in r
                want[1 if self.fwd else 0] = 1 if before else 0 if after else 2
            if 2 in want:
                self.bad(fn, n["l"], "side:" + fn.short, "%s does not find out whether the record found lies before or behind "
                         "what was asked for" % fn.name)
            elif bits[:2] != want[:2] or self.INV and bits[2] != 0:
                self.bad(fn, n["l"], "flag:" + fn.short, "%s marks an iterator wrongly: its records are left out, or one on "
                         "the wrong side of what was asked for is taken" % fn.name)
        a = self.drop(a, "out", k)
        a = self.drop(a, "mv", k)
        return self.put(a, "org", k, ("in",))

    # -- conditions ----------------------------------------------------------------------------------
    def branch(self, w, fn, tc, want, a, e, nv, b):
        self.auto = a
        v = w.val(fn, e, nv, tc)
        if v is None:
            return None
        if v[0] == "nd":
            return None if want else False
        if v[0] == "wild":
            return None
        if v[0] == "st":
            return None if want == (v[1] == 1) else False
        if v[0] in ("child", "notchild"):
            t = want == (v[0] == "child")
            c = self.get(a, "child", v[1])
            if len(self.child) == 1:
                return None if t else False
            if c is not None:
                return None if (c == v[2]) == t else False
            other = [x for x in self.child if x != v[2]][0]
            return a | {("child", v[1], v[2] if t else other)}
        if v[0] == "cmp":
            v = ("rt", v[1], v[2], "!=")
        if v[0] == "rt":
            a2 = self.assume(a, v[1], v[2], SET[v[3]] if want else SET[NEG[v[3]]])
            return False if a2 is None else self.ended(a2)
        if v[0] == "rs":
            a2 = self.assume(a, v[1], v[2], v[3] if want else v[4])
            return False if a2 is None else self.ended(a2)
        if v[0] == "isins":
            x = want == v[2]
            if self.get(a, "ins", v[1]) not in (None, x):
                return False
            return self.put(a, "ins", v[1], x)
        if v[0] == "flag":
            on = want == v[3]
            if v[2] == 0:
                return False if on else None
            ms = [m for m in (self.NP, self.NN, self.INV) if m & v[2]]
            if not on:
                if any(self.bit(a, v[1], m) == 1 for m in ms):
                    return False
                for m in ms:
                    a = self.put(a, "bit", v[1], m, 0)
                if len(ms) == 3:
                    if self.get(a, "nz", v[1]) == 1:
                        return False
                    a = self.put(a, "nz", v[1], 0)
                return a
            open_ = [m for m in ms if self.bit(a, v[1], m) != 0]
            if not open_ or self.get(a, "nz", v[1]) == 0:
                return False
            if len(open_) == 1:
                a = self.put(a, "bit", v[1], open_[0], 1)
            return self.put(a, "nz", v[1], 1)
        return None

    # -- what the functions promise ------------------------------------------------------------------------
    def chosen(self, fn, line, a, k):
        """Item k is what a step or seek has come to."""
        o = self.get(a, "org", k)
        name = fn.name + (" (by key)" if self.bykey else " (by number)")
        c = self.get(a, "cand")
        dir = "next" if self.fwd else "prev"
        if self.mode[0] != "seek" and ("done",) not in a:
            self.bad(fn, line, "notall:" + fn.short, "%s picks a record before every iterator that stands at or before the "
                     "position has moved" % name)
        if c == k:
            if self.bykey and ("group",) not in a:
                self.bad(fn, line, "newest:" + fn.short, "%s may pick an older version of a key" % name)
        elif o != (dir, "ok") or c is not None:
            self.bad(fn, line, "nearest:" + fn.short, "%s can stop at another record than the nearest one in the direction "
                     "asked" % name)
        elif dir == "prev" and self.bykey:
            self.bad(fn, line, "newest:" + fn.short, "%s may pick an older version of a key" % name)
        if self.mode[0] != "seek":
            if self.rels(a, ("nk", k), POS) != {self.beyond}:
                self.bad(fn, line, "beyond:" + fn.short, "%s may stay at or go back behind the position" % name)
            if self.INV and self.bit(a, k, self.INV) != 0:
                self.bad(fn, line, "invalid:" + fn.short, "%s may pick an iterator that has no record" % name)
        elif self.fwd:
            if self.bit(a, k, self.NN) != 0 or self.INV and self.bit(a, k, self.INV) != 0 and self.get(a, "nz", k) != 0:
                self.bad(fn, line, "wrongside:" + fn.short, "%s may pick a record on the other side of what was asked for"
                         % name)
        elif self.bit(a, k, self.NP) != 0:
            self.bad(fn, line, "wrongside:" + fn.short, "%s may pick a record on the other side of what was asked for" % name)

    def judge(self, r, f):
        top = len(self.child) > 1
        for a, val, fn, line in self.ends:
            name = fn.name + (" (by key)" if self.bykey else " (by number)")
            if val is None or val[0] != "st":
                r.undecided.append("%s:%s: the result of %s" % (fn.file, line, name))
                continue
            r.check(not [x for x in a if x[0] == "out" and ("coll", x[1]) not in a], "lost:%s" % fn.short, "%s:%s" % (fn.file, line),
                    "%s leaves an iterator out of the tree: its records are no longer seen" % name)
            c = self.cur(a)
            if ("fatal",) in a:
                continue
            if val[1] == 1 and self.mode[0] != "seek":
                if c is None or self.get(a, "org", c) == ("start",):
                    r.check(False, "stay:" + fn.short, "%s:%s" % (fn.file, line), "%s reports success without moving" % name)
                    continue
                n = len(self.found)
                self.chosen(fn, line, a, c)
                if top and self.bykey and self.get(a, "ins", c) is not True:
                    self.bad(fn, line, "deleted:" + fn.short, "%s may stop at a deleted key" % name)
                r.check(True, "chosen", "%s:%s" % (fn.file, line), "")
            elif val[1] == 1:
                if ("emptied",) not in a:
                    continue            # nothing was done: an empty iterator
                if self.get(a, "org", c) == ("moved",) if c is not None else False:
                    ok = self.get(a, "ins", c) is True or ("stuck",) in a
                    r.check(ok, "deleted:" + fn.short, "%s:%s" % (fn.file, line), "%s may stop at a deleted key" % name)
                    continue
                if ("none",) in a:
                    r.check(c is not None, "nowhere:" + fn.short, "%s:%s" % (fn.file, line),
                            "%s leaves the iterator without a position" % name)
                elif c is None:
                    r.check(False, "nowhere:" + fn.short, "%s:%s" % (fn.file, line),
                            "%s leaves the iterator without a position although there is a record" % name)
                else:
                    self.chosen(fn, line, a, c)
                if top and self.bykey and c is not None:
                    r.check(self.get(a, "ins", c) is True or ("stuck",) in a, "deleted:" + fn.short, "%s:%s" %
                            (fn.file, line), "%s may stop at a deleted key" % name)
            elif ("did",) in a or any(x[0] in ("done", "none", "mv") for x in a):
                r.check(("none",) in a and ("done",) in a or self.mode[0] == "seek", "gaveup:" + fn.short, "%s:%s" %
                        (fn.file, line), "%s reports the end although there may be another record" % name)
                r.check(c is not None, "nowhere:" + fn.short, "%s:%s" % (fn.file, line),
                        "%s leaves the iterator without a position at the end" % name)
        for (k, cls), (fn, line, m) in sorted(self.found.items(), key=lambda x: x[0]):
            r.check(False, k, "%s:%d" % (fn.file, line), m)


def mentioned(v):
    out = set()
    if v and v[0] in ("nd", "nk", "rec", "flags", "flag", "child", "notchild", "isins"):
        out.add(v[1])
    for x in v or ():
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "nk":
            out.add(x[1])
    return out


def families(P):
    """Iterator classes that merge: those with an item class of flags."""
    out = []
    for c in sorted(P.classes.values(), key=lambda c: c["name"]):
        if not c["name"].endswith("::ItrItem"):
            continue
        child = [x["n"] for x in c["fields"] if "Iterator *" in x["t"]]
        if child and any(x["n"] == "flags" for x in c["fields"]):
            own = c["name"].rsplit("::", 1)[0]
            out.append((own, child))
    return out


def bits_of(P, own):
    out = {"BY_KEY": 0, "BY_SEQ": 1, "GREATER": 0, "SMALLER": 1, "no_more_prev": 1, "no_more_next": 2}
    for f in P.fns.values():
        if not (f.cls or "").startswith("jungle::"):
            continue
        for n in f.nodes:
            x = (n or {}).get("enum")
            if x and "cv" in n and (x.startswith(own + "::")):
                out[x.rsplit("::", 1)[-1]] = n["cv"]
    return out


def merge_rule(P, prop, thorough):
    r = Result()
    r.undecided = []
    r.rules.append("a merging iterator moves exactly those of its iterators that stand at or before the position, puts each "
                   "back into the tree with its new record, and picks the nearest record beyond the position, the newest "
                   "version of a key, never a deleted key")
    r.rules.append("after a seek every iterator takes part again, marked by which side of the target its record lies on")
    fams = families(P)
    r.coverage = {}
    ends = 0
    for own, child in fams:
        bits = bits_of(P, own)
        top = len(child) > 1
        base = own.rsplit("::", 1)[0] if top else own
        g, s = bits["GREATER"], bits["SMALLER"]
        for bykey in (True, False):
            for mode in (("next",), ("prev",), ("seek", g, 0), ("seek", s, 0), ("seek", s, 1)):
                want = {"next": "next", "prev": "prev", "seek": "seekInternal"}[mode[0]]
                fs = [f for f in P.fns.values() if f.blocks and f.name == (own if want == "seekInternal" else base) + "::" + want]
                for f in fs:
                    r.functions.add(f.id)
                    rule = Merge(P, own, child, bits, bykey, mode)
                    try:
                        start(P, rule, f)
                    except Budget as x:
                        r.undecided.append("%s: %s is outside what can be followed" % (f.where(), x))
                        continue
                    rule.judge(r, f)
                    ends += len(rule.ends)
                    r.samples.append("%s %s %s: %d outcomes" % (f.short, "by key" if bykey else "by number", mode,
                                                              len(rule.ends)))
        fronts(P, r, base, own, bits)
    r.coverage = {"iterators": len(fams), "outcomes": ends, "undecided": sorted(set(r.undecided))}
    return r


def fronts(P, r, base, own, bits):
    """The public functions hand what they are asked for to the common seek."""
    want = {"seek": ("key", "param", 0), "seekSN": ("num", "param", 0), "gotoBegin": (None, bits["GREATER"], 0),
            "gotoEnd": (None, bits["SMALLER"], 1)}
    for short, (what, opt, end) in want.items():
        for f in P.fns.values():
            if not f.blocks or f.name != base + "::" + short:
                continue
            calls = [n for n in f.nodes if n and n["k"] == "call" and (n.get("n") or "") == own + "::seekInternal"]
            for n in calls:
                where = "%s:%d" % (f.file, n["l"])
                x = [f.nodes[j] for j in n["args"]]
                g = [P.fns[t] for t in P.targets(n) if t in P.fns][0]
                o = [y for p, y in zip(g.params, x) if "SeekOption" in p["t"]]
                b = [y for p, y in zip(g.params, x) if p["t"] in ("bool", "const bool")]
                q = [y for p, y in zip(g.params, x) if ("SizedBuf" in p["t"] if what == "key" else "long" in p["t"])]
                if o and opt == "param":
                    r.check(o[0]["k"] == "ref" and o[0].get("parm"), "opt:" + f.short, where,
                            "%s does not seek in the direction asked" % f.name)
                elif o and "cv" in o[0]:
                    r.check(o[0]["cv"] == opt, "opt:" + f.short, where, "%s goes to the wrong end" % f.name)
                if b and "cv" in b[0]:
                    r.check(b[0]["cv"] == end, "end:" + f.short, where, "%s goes to the wrong end" % f.name)
                if what and q and ("cv" in q[0] or q[0]["k"] == "ref"):
                    r.check(bool(q[0]["k"] == "ref" and q[0].get("parm")), "what:" + f.short, where,
                            "%s does not seek what was asked for" % f.name)
                if short == "gotoBegin" and q and "cv" in q[0]:
                    r.check(q[0]["cv"] == 0, "what:" + f.short, where, "%s does not go to the beginning" % f.name)


def start(P, rule, f):
    a = {("cur", 0), ("org", 0, ("start",))}
    if rule.mode[0] != "seek":
        x, y = sorted((("nk", 0), POS))
        a.add(("rel", x, y, frozenset((0,))))
    args = []
    for p in f.params:
        t = p["t"]
        if "SeekOption" in t:
            args.append(("int", rule.mode[1]))
        elif "SizedBuf" in t:
            args.append(ARG if rule.bykey else None)
        elif "long" in t:
            args.append(None if rule.bykey else ARG)
        elif t == "bool" or t == "const bool":
            args.append(("int", rule.mode[2]))
        else:
            args.append(None)
    w = MWalk(P, rule, 200000)
    rule.auto = frozenset(a)
    w.run(f.id, frozenset(a), tuple(args))
