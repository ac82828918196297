"""K06: order in the skip list. Searches and steps return the neighbour the
order defines, a node is linked between its neighbours on each of its layers,
and exactly that node is taken out again."""
from ..core import Result
from ..cwalk import Walk, Budget, atomic, lvalue, truth, fold
from .skiplist import FILE, NODE, Base, fns_of, ret_is_node, internal, flag_of

HEAD, TAIL, Q = ("t", "H"), ("t", "T"), ("t", "Q")


def is_node_param(p):
    return NODE in p["t"] and p["t"].count("*") == 1


def step_fns(P):
    """Helpers that follow one link: (list, node, layer, skip, found)."""
    out = set()
    for f in fns_of(P):
        if internal(f) and ret_is_node(f) and any("bool" in p["t"] and "*" in p["t"] for p in f.params) and \
                any(p["t"] == "int" for p in f.params):
            out.add(f.id)
    return out


def cmp_fns(P):
    out = set()
    for f in fns_of(P):
        if internal(f) and f.ret == "int" and sum(1 for p in f.params if is_node_param(p)) == 2 and \
                any(n and n["k"] == "mem" and n["f"].endswith("::cmp_func") for n in f.nodes):
            out.add(f.id)
    return out


class Order(Base):
    """auto: ("rel", x, r) x against the element looked for; ("succ", n, c, l)
    n follows c on layer l; ("past", n, c) only the element erased is between;
    ("tl", x, yes) is x the tail; ("pin", depth, ids)."""

    def __init__(self, P, want, steps, cmps):
        super().__init__(P)
        self.want = want            # what the top function has to return
        self.steps, self.cmps = steps, cmps
        self.auto = frozenset()
        self.loops = 0
        self.und = set()

    def inline(self, f):
        return f.file == FILE and (internal(f) or ret_is_node(f)) and f.id not in self.steps and f.id not in self.cmps

    # -- values
    def rel(self, a, x):
        if x == HEAD:
            return "lt"
        for f in a:
            if f[0] == "rel" and f[1] == x:
                return f[2]
        return "gt" if x == TAIL else None

    def tail(self, a, x):
        if x == TAIL:
            return True
        if x == HEAD:
            return False
        for f in a:
            if f[0] == "tl" and f[1] == x:
                return f[2]
        r = self.rel(a, x)
        return False if r == "lt" or r == "eq" and ("query", Q) in a else None

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "un" and n["op"] == "&":
            p = lvalue(fn, i)
            if p and p[0] == "field" and p[1] in ("head", "tail"):
                return HEAD if p[1] == "head" else TAIL
        if n["k"] == "un" and n["op"] == "-" and "cv" not in n:
            v = w.val(fn, env, nv, n["a"])
            if v is not None and v[0] == "int":
                return ("int", -v[1])
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if x is not None and y is not None and x[0] == y[0] == "t":
                r = self.same(x, y)
                if r is not None:
                    return ("int", 1 if r == (n["op"] == "==") else 0)
        if n["k"] == "idx" and n.get("a") is not None:
            arr, ix = fn.nodes[n["a"]], fn.nodes[n["b"]]
            if arr and arr["k"] == "ref" and arr.get("v") and NODE in (arr.get("t") or NODE):
                return env.get("#%s" % arr["v"]) or (("arr", arr["v"], self.key(fn, env, n["b"]))
                                                     if self.key(fn, env, n["b"]) else None)
        return super().value(w, fn, env, nv, i, n) if n["k"] != "un" else None

    def same(self, x, y):
        a = self.auto
        if x == y:
            return True
        if {x, y} == {HEAD, TAIL}:
            return False
        for p, q in ((x, y), (y, x)):
            if q == TAIL and p not in (HEAD, TAIL):
                t = self.tail(a, p)
                if t is not None:
                    return t
            if q == HEAD and p not in (HEAD, TAIL):
                return False
        if Q in (x, y) and (x == Q or y == Q):
            o = y if x == Q else x
            if self.rel(a, o) in ("lt", "gt"):
                return False
        return None

    def key(self, fn, e, i):
        """A layer: '0', or the variable that holds it."""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            n = fn.nodes[n["args"][0]]
        if not n:
            return None
        if n.get("cv") == 0:
            return "0"
        if n["k"] == "ref" and n.get("v"):
            v = e.get(n["v"])
            if v is not None and v[0] == "lay":
                return v[1]
            return "0" if v == ("int", 0) else n["v"]
        return None

    # -- identities
    def enter(self, w, fn, a, env):
        self.order_q(env)
        if len(w.stack) > 1:
            ids = frozenset(y for x in a for y in x if isinstance(y, tuple) and y and y[0] == "t")
            ids |= frozenset(v for v in env.values() if v is not None and v[0] == "t")
            a = a | {("pin", len(w.stack), ids)}
        return a

    def order_q(self, env):
        pass

    def pinned(self, a):
        return frozenset(y for x in a if x[0] == "pin" for y in x[2])

    def new(self, a, e):
        used = set(y[1] for x in a for y in x if isinstance(y, tuple) and y and y[0] == "t")
        used |= set(v[1] for v in e.values() if v is not None and v[0] == "t")
        used |= set(y[1] for y in self.pinned(a))
        k = 0
        while k in used:
            k += 1
        return ("t", k)

    def canon(self, w, fn, a, e):
        pin = self.pinned(a)
        z = self.low(a, e)
        order, nxt = {HEAD: HEAD, TAIL: TAIL, Q: Q}, 0
        fixed = set(y[1] for y in pin)
        for y in pin:
            order[y] = y
        for k in sorted(e):
            v = e[k]
            if v is not None and v[0] == "t" and v not in order:
                while nxt in fixed:
                    nxt += 1
                order[v] = ("t", nxt)
                nxt += 1
        # the neighbours found last stay known
        for x in sorted((x for x in z if x[0] == "succ"), key=repr):
            for y in x[1:3]:
                if y not in order:
                    while nxt in fixed:
                        nxt += 1
                    order[y] = ("t", nxt)
                    nxt += 1
        out = set()
        for x in z:
            if x[0] == "pin":
                out.add(x)
                continue
            if x[0] == "le" and (x[1] not in e and x[2] not in e):
                continue
            ts = [y for y in x[1:] if isinstance(y, tuple) and y and y[0] == "t"]
            if any(y not in order for y in ts):
                continue
            out.add(tuple(order[y] if isinstance(y, tuple) and y and y[0] == "t" else y for y in x))
        e = dict((k, order[v] if v is not None and v[0] == "t" else v) for k, v in e.items())
        return frozenset(out), e

    def keep(self, k):
        return k[0] == "#"

    def unlay(self, a, v):
        return frozenset(x for x in a if not (x[0] in ("succ", "past") and x[3] == v or x[0] == "le" and v in x[1:3]))

    # -- steps
    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        x = flag_of(fn, n)
        if x and x[1] == "ref_count":
            return [(a, e, None)]
        at = atomic(fn, n)
        if at and at[1] and at[1][0] == "idx":
            return self.link(w, fn, n, a, e, nv, at)
        if k == "call":
            ids = list(self.P.targets(n))
            g = ids[0] if len(ids) == 1 else None
            if g in self.steps:
                return self.step(w, fn, i, n, a, e, nv, self.P.fns[g])
            if g in self.cmps:
                return self.compare(w, fn, i, n, a, e, nv, self.P.fns[g])
            return None
        if k == "incdec" or k == "asn":
            t = fn.nodes[n["a"]]
            if t and t["k"] == "ref" and t.get("v"):
                a = self.unlay(a, t["v"])
                e = dict((q, v) for q, v in e.items() if not (v is not None and v[0] in ("arr", "lay") and t["v"] in v[1:]))
                if k == "asn" and n["op"] == "=":
                    e[t["v"]] = w.val(fn, e, nv, n["b"])
                    if e[t["v"]] is None:
                        s = fn.nodes[n["b"]]
                    return [(a, e, e[t["v"]])]
                if k == "asn":
                    e[t["v"]] = None
                    return [(a, e, None)]
                old = e.get(t["v"])
                new = fold("+", old, ("int", 1 if n["op"] == "++" else -1))
                e[t["v"]] = new
                return [(a, e, old if n.get("post") else new)]
            if t and t["k"] == "idx" and k == "asn" and n["op"] == "=":
                return self.place(w, fn, n, t, a, e, nv)
        return None

    def node_args(self, f, n):
        return [x for p, x in zip(f.params, n["args"]) if is_node_param(p)]

    def step(self, w, fn, i, n, a, e, nv, f):
        self.sites.add((fn.id, i))
        cur, skip = (self.node_args(f, n) + [None, None])[:2]
        lay = [x for p, x in zip(f.params, n["args"]) if p["t"] == "int"]
        c = w.val(fn, e, nv, cur)
        s = w.val(fn, e, nv, skip) if skip is not None else None
        fnd = [x for p, x in zip(f.params, n["args"]) if "bool" in p["t"] and "*" in p["t"]]
        fv = lvalue(fn, fnd[0]) if fnd else None
        fv = fv[1] if fv and fv[0] == "var" else None
        key = self.key(fn, e, lay[0]) if lay else None
        t = self.new(a, e)
        a = frozenset(x for x in a if x[0] not in ("succ", "past"))
        facts = {("succ", t, c, key)} if c is not None and key else set()
        if s is None or s == ("null",) or s == ("int", 0):
            e2 = dict(e)
            return [(a, e, ("null",)), (a | facts, e2, t)]
        out = [(a, dict(e), ("null",))]
        for hit in (False, True):
            e2 = dict(e)
            if fv:
                e2[fv] = ("int", 1 if hit else e.get(fv, ("int", 0))[1] if e.get(fv, (0,))[0] == "int" else 0)
            out.append((a | facts | ({("past", t, c, key)} if hit and c is not None else set()), e2, t))
        return out

    def compare(self, w, fn, i, n, a, e, nv, f):
        self.sites.add((fn.id, i))
        x, y = [w.val(fn, e, nv, z) for z in self.node_args(f, n)]
        if x is None or y is None or x[0] != "t" or y[0] != "t":
            return [(a, e, None)]
        q = self.query(a, e)
        if q not in (x, y):
            return [(a, e, ("int", r)) for r in (-1, 0, 1)]
        o, sign = (y, 1) if x == q else (x, -1)
        out = []
        for r in (-1, 0, 1):
            rel = {1: "lt", 0: "eq", -1: "gt"}[r * sign]
            known = self.rel(a, o) if o != TAIL or q != TAIL else None
            if q == TAIL and o not in (HEAD, TAIL) and rel == "gt":
                continue
            if known is not None and known != rel and o != q:
                continue
            if o == q and r != 0:
                continue
            out.append((a if o == q or known else a | {("rel", o, rel)}, e, ("int", r)))
        return out

    def query(self, a, e):
        for x in a:
            if x[0] == "query":
                return x[1]
        return Q

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] == "bin" and n["op"] in ("==", "!="):
            self.auto = a
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            if x is not None and y is not None and x[0] == y[0] == "t":
                eq = want == (n["op"] == "==")
                r = self.same(x, y)
                if r is not None:
                    return None if r == eq else False
                for p, q in ((x, y), (y, x)):
                    if q == TAIL:
                        return self.low(a | {("tl", p, eq)} | ({("rel", p, "gt")} if eq and self.rel(a, p) is None
                                                               else set()), e)
        if n and n["k"] == "bin" and n["op"] in ("<=", ">", ">=", "<"):
            x, y = self.rawkey(fn, n["a"]), self.rawkey(fn, n["b"])
            op = n["op"]
            if op in (">=", "<"):
                x, y, op = y, x, {">=": "<=", "<": ">"}[op]
            if x and y:
                yes = want == (op == "<=")
                for z in a:
                    if z[0] == "le" and z[1:3] == (x, y) and z[3] != yes:
                        return False
                a = a | {("le", x, y, yes)}
        return self.low(a, e)

    def low(self, a, e):
        """The layer turned out to be the bottom one."""
        return frozenset(x[:-1] + ("0",) if x[0] in ("succ", "past") and e.get(x[3]) == ("int", 0) else x for x in a)

    def rawkey(self, fn, i):
        n = fn.nodes[i]
        while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1:
            n = fn.nodes[n["args"][0]]
        return n.get("v") if n and n["k"] == "ref" else None

    # -- what must hold
    def bottom(self, fn, a, e):
        z = set()
        for x in a:
            if x[0] == "succ" and (x[3] == "0" or e.get(x[3]) == ("int", 0)):
                z.add((x[1], x[2]))
        return z

    def leave(self, w, fn, a, e, val, line):
        d = len(w.stack)
        pins = [x for x in a if x[0] == "pin" and x[1] == d]
        a2 = frozenset(x if not (x[0] == "succ" and e.get(x[3]) == ("int", 0)) else x[:3] + ("0",)
                       for x in a if x not in pins)
        if fn.id != self.top:
            return a2
        self.check(fn, a2, e, val, line)
        return frozenset()

    def check(self, fn, a, e, val, line):
        self.loops += 1
        want = self.want
        if want is None:
            return
        bot = self.bottom(fn, a, e)
        if val is None:
            self.und.add("%s: the result is not followed" % fn.short)
            return
        none = val in (("null",), ("int", 0))

        def r(x):
            return self.rel(a, x)

        def sand(lo, hi):
            return any(r(c) in lo and r(n) in hi for n, c in bot)
        if want == "EQ":
            ok = sand(("lt",), ("gt",)) if none else r(val) == "eq"
            msg = "a search for an element ends without it although it may be there" if none else \
                "a search returns an element that does not equal the one looked for"
        elif want in ("SMEQ", "SM"):
            hi = ("gt",) if want == "SMEQ" else ("gt", "eq")
            if none:
                ok = any(c == HEAD and r(n) in hi for n, c in bot)
                msg = "no element is returned although a smaller one may be there"
            else:
                ok = val not in (HEAD, TAIL) and (want == "SMEQ" and r(val) == "eq" or
                                                  r(val) == "lt" and any(c == val and r(n) in hi for n, c in bot))
                msg = "the element returned may not be the greatest one that is smaller"
        elif want in ("GTEQ", "GT"):
            if none:
                ok = any(r(c) in ("lt", "eq") and self.tail(a, n) is True for n, c in bot)
                msg = "no element is returned although a greater one may be there"
            else:
                ok = val not in (HEAD, TAIL) and (r(val) == "eq" or r(val) == "gt" and self.tail(a, val) is False and
                                                  any(n == val and r(c) in ("lt", "eq") for n, c in bot))
                msg = "the element returned may not be the smallest one that is greater"
        elif want == "NEXT":
            if none:
                ok = any((c == Q or r(c) in ("lt", "eq")) and self.tail(a, n) is True for n, c in bot)
                msg = "the end is reported although another element may follow"
            else:
                ok = val not in (HEAD, TAIL, Q) and self.tail(a, val) is False and \
                    any(n == val and (c == Q or r(c) in ("lt", "eq") and r(val) in ("gt", "eq")) for n, c in bot)
                msg = "the element returned may not be the one that follows"
        elif want == "BEGIN":
            if none:
                ok = any(c == HEAD and self.tail(a, n) is True for n, c in bot)
                msg = "the list is reported empty although it may not be"
            else:
                ok = self.tail(a, val) is False and any(n == val and c == HEAD for n, c in bot)
                msg = "the element returned may not be the first one"
        else:
            return
        if not ok:
            self.bad("%s|%s" % (want, "none" if none else "some"), fn, line, msg)

    # -- overridden by Change
    def place(self, w, fn, n, t, a, e, nv):
        return None

    def link(self, w, fn, n, a, e, nv, at):
        return None


class Change(Order):
    """Insertion and removal: where the node is put on each layer."""

    def __init__(self, P, f, steps, cmps, node, kind):
        super().__init__(P, None, steps, cmps)
        self.f, self.node, self.kind = f, node, kind
        self.prevs = self.nexts = None
        for n in f.nodes:
            if n and n["k"] == "asn":
                pass
        self.cased = set()
        self.placed = False
        self.splice = None

    def same(self, x, y):
        # places on two layers may or may not be one node
        return super().same(x, y)

    def keep(self, k):
        return k[0] == "#"

    def place(self, w, fn, n, t, a, e, nv):
        arr = fn.nodes[t["a"]]
        if fn.id != self.top or not arr or arr["k"] != "ref" or not arr.get("v"):
            return None
        key = self.key(fn, e, t["b"])
        v = w.val(fn, e, nv, n["b"])
        if key is None or v is None or v[0] != "t":
            return None
        role = self.roles(fn).get(arr["v"])
        if role is None:
            return None
        self.sites.add((fn.id, n["a"]))
        adj = [x for x in a if x[0] == "succ" and x[3] == key]
        if role == "prev":
            ok = any(x[2] == v for x in adj)
            if not ok:
                self.bad("layer", fn, n["l"], "the predecessor recorded for a layer was not found on that layer")
            if self.kind == "insert":
                if self.rel(a, v) != "lt":
                    self.bad("before", fn, n["l"], "the predecessor recorded for the new element may not be smaller")
            elif not any(x[0] == "past" and x[2] == v and x[3] == key for x in a):
                self.bad("before", fn, n["l"], "the predecessor recorded for the removed element may not be adjacent to it")
            self.placed = True
        else:
            ok = any(x[1] == v for x in adj)
            if not ok:
                self.bad("layer", fn, n["l"], "the successor recorded for a layer was not found on that layer")
            if self.kind == "insert":
                if self.rel(a, v) not in ("gt", "eq"):
                    self.bad("after", fn, n["l"], "the successor recorded for the new element may be smaller")
                elif self.rel(a, v) == "eq" and self.nodup(fn, e):
                    self.bad("twice", fn, n["l"], "an element is put in although an equal one is there and duplicates "
                             "are refused")
            elif not any(x[0] == "past" and x[1] == v and x[3] == key for x in a):
                self.bad("after", fn, n["l"], "the successor recorded for the removed element may not be adjacent to it")
        return [(a, e, None)]

    def nodup(self, fn, e):
        for p in fn.params:
            if p["t"] == "bool" and e.get("#nodup") == ("int", 1):
                return True
        return False

    def order_q(self, env):
        for k in list(env):
            if k.startswith("no_dup@"):
                env["#nodup"] = env[k]

    def roles(self, fn):
        c = fn._extra.get("sk_roles")
        if c is None:
            c = {}
            for n in fn.nodes:
                at = atomic(fn, n) if n else None
                if not at or not at[1] or at[1][0] != "idx" or at[0] != "cas":
                    continue
                base = fn.nodes[at[1][1]]
                if base and base["k"] == "mem" and base["f"].endswith("::next"):
                    o = fn.nodes[base["b"]]
                    if o and o["k"] == "idx" and fn.nodes[o["a"]].get("v"):
                        c[fn.nodes[o["a"]]["v"]] = "prev"
            for n in fn.nodes:
                if n and n["k"] == "asn" and fn.nodes[n["a"]] and fn.nodes[n["a"]]["k"] == "idx":
                    arr = fn.nodes[fn.nodes[n["a"]]["a"]]
                    if arr and arr["k"] == "ref" and arr.get("v") and arr["v"] not in c and not arr.get("parm"):
                        c[arr["v"]] = "next"
            fn._extra["sk_roles"] = c
        return c

    def deref(self, fn, av):
        n = fn.nodes[av] if av is not None else None
        if n and n["k"] == "un" and n["op"] == "&":
            return n["a"]
        return av

    def link(self, w, fn, n, a, e, nv, at):
        op, place, av, av2 = at
        base = fn.nodes[place[1]]
        if fn.id != self.top or not base or base["k"] != "mem" or not base["f"].endswith("::next"):
            return None
        key = self.key(fn, e, place[2])
        owner = w.val(fn, e, nv, base["b"])
        if op == "store" and owner == Q:
            v = w.val(fn, e, nv, self.deref(fn, av))
            self.sites.add((fn.id, place[1]))
            if v is not None and v[0] == "arr":
                if v[2] != key or self.roles(fn).get(v[1]) != "next":
                    self.bad("link", fn, n["l"], "the new element's link on a layer is not set to its successor there")
            elif v is not None and v[0] == "t" and not any(x[0] == "succ" and x[1] == v and x[3] == key for x in a):
                self.bad("link", fn, n["l"], "the new element's link on a layer is not set to its successor there")
            return [(a, e, None)]
        if op == "cas":
            self.sites.add((fn.id, place[1]))
            old = w.val(fn, e, nv, self.deref(fn, av))
            new = w.val(fn, e, nv, self.deref(fn, av2))
            lay = self.rawkey(fn, place[2])
            ok = owner is not None and owner[0] == "arr" and self.roles(fn).get(owner[1]) == "prev" and owner[2] in (key, lay)
            a_, b_ = (old, new) if self.kind == "insert" else (new, old)
            ok = ok and a_ is not None and a_[0] == "arr" and self.roles(fn).get(a_[1]) == "next" and a_[2] in (key, lay)
            ok = ok and b_ == Q
            if not ok:
                self.bad("splice", fn, n["l"], "the link changed is not the one between predecessor and successor on one "
                         "layer, or not set to the right element")
            self.cased.add(lay)
            self.splice = (fn, n["l"])
            return [(a | {("cas",)}, e, ("int", 1))]
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        x = flag_of(fn, n)
        if x:
            return None
        return super().elem(w, fn, i, n, a, e, nv)

    def check(self, fn, a, e, val, line):
        self.loops += 1
        if val == ("int", 0) and ("cas",) not in a:
            pass        # K02
        if val is not None and val[0] == "int" and val[1] == -1 and self.kind == "insert":
            if not any(x[0] == "rel" and x[2] == "eq" for x in a):
                self.bad("refused", fn, line, "an element is refused although no equal one was found")
            elif not self.nodup(fn, e):
                self.bad("refused", fn, line, "an element is refused although duplicates are allowed")


def layers_rule(P, R, pid, f):
    """The loop that changes the links covers layers 0 to the node's top layer."""
    for n in f.nodes:
        at = atomic(f, n) if n else None
        if not at or at[0] != "cas" or not at[1] or at[1][0] != "idx":
            continue
        base = f.nodes[at[1][1]]
        if not base or base["k"] != "mem" or not base["f"].endswith("::next"):
            continue
        ix = f.nodes[at[1][2]]
        v = ix.get("v") if ix and ix["k"] == "ref" else None
        if v is None:
            continue
        site = [b for b in f.blocks for i in f.blocks[b]["e"] if f.nodes[i] is n]
        if not site:
            continue
        # the loop around it: conditions on v that lead there
        for b in f.blocks.values():
            tc = b.get("tc")
            c = f.nodes[tc] if tc is not None else None
            if not c or c["k"] != "bin" or c["op"] not in ("<", "<=", "!=", ">", ">="):
                continue
            la, lb = f.nodes[c["a"]], f.nodes[c["b"]]
            if not la or la.get("v") != v or not lb:
                continue
            if b.get("tk") not in ("ForStmt", "WhileStmt", "DoStmt") or not reaches(f, b["s"][0], site[0], stop=None) \
                    or not reaches(f, site[0], None, stop=None, blk=b):
                continue
            plus = 0
            m = lb
            if m["k"] == "bin" and m["op"] == "+" and f.nodes[m["b"]].get("cv") == 1:
                plus, m = 1, f.nodes[m["a"]]
            if not (m["k"] == "ref" and m.get("v") or m["k"] == "mem") or "cv" in m:
                continue
            if "top" not in (m.get("n") or m.get("v") or m.get("f", "")):
                continue
            ok = c["op"] == "<=" and plus == 0 or c["op"] in ("<", "!=") and plus == 1
            R.check(ok, "%s|%s|layers" % (pid, f.name), f.where(c["l"]), "%s: the element is not linked or unlinked on "
                    "exactly its layers (the loop ends at the wrong layer)" % f.name)


def reaches(f, src, dst, stop=None, blk=None):
    seen, todo = set(), [src]
    while todo:
        x = todo.pop()
        if x in seen or x < 0:
            continue
        seen.add(x)
        if x == dst or blk is not None and f.blocks[x] is blk:
            return True
        todo += f.blocks[x]["s"]
    return False


class Compare(Base):
    """The comparison of two elements: the ends come first and last."""

    def __init__(self, P, f):
        super().__init__(P)
        self.f = f
        self.ends = 0
        self.und = set()

    def inline(self, f):
        return internal(f)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "un" and n["op"] == "&":
            p = lvalue(fn, i)
            if p and p[0] == "field" and p[1] in ("head", "tail"):
                return HEAD if p[1] == "head" else TAIL
        if n["k"] == "un" and n["op"] == "-":
            v = w.val(fn, env, nv, n["a"])
            if v is not None and v[0] == "cmpf":
                return ("cmpf", v[2], v[1])
            if v is not None and v[0] == "int":
                return ("int", -v[1])
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if x is not None and y is not None and x[0] == y[0] == "t":
                s = set((z[x[1]] == z[y[1]]) if z[x[1]] != "o" or z[y[1]] != "o" else
                        (x == y or z["same"]) for z in self.worlds(self.auto))
                if len(s) == 1:
                    return ("int", 1 if s.pop() == (n["op"] == "==") else 0)
                return None
        return None

    def worlds(self, a):
        out = []
        for x in "HTo":
            for y in "HTo":
                for same in ((True, False) if x == y == "o" else (x == y,)):
                    z = {"A": x, "B": y, "H": "H", "T": "T", "same": same}
                    if all(self.holds(z, f) for f in a):
                        out.append(z)
        return out

    def holds(self, z, f):
        if f[0] != "is":
            return True
        x, y = f[1], f[2]
        eq = x == y or (z[x] == z[y] and (z[x] != "o" or z["same"]))
        return eq == f[3]

    def elem(self, w, fn, i, n, a, e, nv):
        if n["k"] == "call" and n.get("callee") is not None or n["k"] == "call" and not list(self.P.targets(n)):
            vs = [w.val(fn, e, nv, x) for x in n["args"][:2]]
            if all(v is not None and v[0] == "t" for v in vs) and len(vs) == 2:
                self.sites.add((fn.id, i))
                return [(a, e, ("cmpf", vs[0][1], vs[1][1]))]
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            if x is not None and y is not None and x[0] == y[0] == "t":
                a = a | {("is", x[1], y[1], want == (n["op"] == "=="))}
                return a if self.worlds(a) else False
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn.id != self.f.id:
            return a
        self.ends += 1
        if val is None:
            self.und.add("%s: the result is not followed" % fn.short)
            return a
        for z in self.worlds(a):
            x, y = z["A"], z["B"]
            if z["same"]:
                ok = val == ("int", 0) or val[0] == "cmpf"
            elif x == "H" or y == "T":
                ok = val[0] == "int" and val[1] < 0
            elif x == "T" or y == "H":
                ok = val[0] == "int" and val[1] > 0
            else:
                ok = val == ("cmpf", "A", "B")
            if not ok:
                self.bad("compare", fn, line, "two elements, or an element and an end of the list, are compared the "
                         "wrong way")
        return a


class Step(Base):
    """The helper that follows one link: skips what is gone and the element
    asked to be skipped, and nothing else."""

    def __init__(self, P, f, lay):
        super().__init__(P)
        self.f, self.lay = f, lay
        self.ends = 0
        self.auto = frozenset()

    def inline(self, f):
        return internal(f)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if x is not None and y is not None and x[0] == y[0] == "t" and x != y:
                for f in self.auto:
                    if f[0] == "eq" and set(f[1:3]) == {x, y}:
                        return ("int", 1 if f[3] == (n["op"] == "==") else 0)
        return None

    def canon(self, w, fn, a, e):
        if fn.id != self.f.id:
            return a, e
        order = {("t", "C"): ("t", "C"), ("t", "S"): ("t", "S")}
        for k in sorted(e):
            v = e[k]
            if v is not None and v[0] == "t" and v not in order:
                order[v] = ("t", len(order))
        out = set()
        for x in a:
            ts = [y for y in x[1:] if isinstance(y, tuple) and y and y[0] == "t"]
            if all(y in order for y in ts):
                out.add(tuple(order[y] if isinstance(y, tuple) and y and y[0] == "t" else y for y in x))
        return frozenset(out), dict((k, order[v] if v is not None and v[0] == "t" else v) for k, v in e.items())

    def elem(self, w, fn, i, n, a, e, nv):
        x = flag_of(fn, n)
        if x and x[1] == "is_fully_linked" and x[0] == "load":
            v = w.val(fn, e, nv, x[2])
            t = lvalue(fn, x[3]) if x[3] is not None else None
            out = []
            for val in (1, 0):
                e2 = dict(e)
                if t and t[0] == "var":
                    e2[t[1]] = ("int", val)
                a2 = a
                if v is not None and v[0] == "t":
                    a2 = frozenset(y for y in a if y[:2] != ("valid", v)) | ({("valid", v)} if val else {("gone", v)})
                out.append((a2, e2, ("int", val)))
            return out
        if x:
            return [(a, e, None)]
        at = atomic(fn, n)
        if at and at[0] == "load" and at[1] and at[1][0] == "idx":
            base = fn.nodes[at[1][1]]
            if base and base["k"] == "mem" and base["f"].endswith("::next") and fn.id == self.f.id:
                self.sites.add((fn.id, i))
                v = w.val(fn, e, nv, base["b"])
                ix = fn.nodes[at[1][2]]
                if not ix or ix.get("v") != self.lay:
                    self.bad("layer", fn, n["l"], "a link of another layer than the one asked for is followed")
                used = set(y for f in a for y in f[1:] if isinstance(y, tuple)) | set(e.values())
                k = 10
                while ("t", k) in used:
                    k += 1
                ok = v == ("t", "C") or ("reach", v) in a and (("gone", v) in a or ("eq", v, ("t", "S"), True) in a)
                if not ok and v is not None and v[0] == "t":
                    self.bad("skipped", fn, n["l"], "an element that is in the list is stepped over")
                t = lvalue(fn, at[2])
                e = dict(e)
                if t and t[0] == "var":
                    e[t[1]] = ("t", k)
                return [(a | {("reach", ("t", k))}, e, None)]
        if at and at[1] is None:
            return None
        if n["k"] == "asn" and fn.nodes[n["a"]] and fn.nodes[n["a"]]["k"] == "un" and fn.nodes[n["a"]]["op"] == "*":
            o = fn.nodes[fn.nodes[n["a"]]["a"]]
            if o and o["k"] == "ref" and o.get("parm") and fn.id == self.f.id:
                self.sites.add((fn.id, i))
                t = truth(w.val(fn, e, nv, n["b"]))
                if t is True:
                    if ("hit",) not in a:
                        self.bad("found", fn, n["l"], "an element is reported found that was not seen")
                    return [(a | {("told",)}, e, None)]
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] == "bin" and n["op"] in ("==", "!="):
            self.auto = a
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            if y == ("t", "S"):
                x, y = y, x
            if x == ("t", "S") and y is not None and y[0] == "t" and y != x:
                eq = want == (n["op"] == "==")
                if ("eq", y, x, not eq) in a:
                    return False
                return a | {("eq", y, x, eq)} | ({("hit",)} if eq else set())
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn.id != self.f.id:
            return a
        self.ends += 1
        if val is not None and val[0] == "t" and val != ("t", "C"):
            if ("valid", val) not in a:
                self.bad("gone", fn, line, "an element may be returned that is no longer in the list")
            if self.skip and ("eq", val, ("t", "S"), False) not in a:
                self.bad("itself", fn, line, "the element to be skipped may be returned")
        elif val == ("t", "C"):
            self.bad("stays", fn, line, "the element itself is returned as its successor")
        if ("hit",) in a and ("told",) not in a and val is not None and val[0] == "t" and self.skip:
            self.bad("untold", fn, line, "the element was seen but is not reported found")
        return frozenset()


def parts_rule(P, R, pid, steps, cmps, und):
    for g in sorted(cmps):
        f = P.fns[g]
        r = Compare(P, f)
        w = Walk(P, r, 20000)
        names = iter(("A", "B"))
        w.run(g, frozenset(), tuple(("t", next(names)) if is_node_param(p) else ("ptr", p["n"]) for p in f.params))
        r.loops = r.ends
        und += sorted(r.und)
        finish(P, R, pid, f, r, w)
    for g in sorted(steps):
        f = P.fns[g]
        lay = [p["v"] for p in f.params if p["t"] == "int"]
        for skip in (False, True):
            r = Step(P, f, lay[0])
            r.skip = skip
            w = Walk(P, r, 40000)
            names = iter((("t", "C"), ("t", "S") if skip else ("null",)))
            args = tuple(next(names) if is_node_param(p) else (("ptr", "found") if skip else ("null",)) if "bool" in p["t"]
                         else ("ptr", p["n"]) if "*" in p["t"] else None for p in f.params)
            try:
                w.run(g, frozenset(), args)
            except Budget:
                und.append("%s: too many paths" % f.short)
            r.loops = r.ends
            finish(P, R, pid, f, r, w)


TOPS = [("skiplist_find", "EQ", Q), ("skiplist_find_smaller_or_equal", "SMEQ", Q),
        ("skiplist_find_greater_or_equal", "GTEQ", Q), ("skiplist_next", "NEXT", Q), ("skiplist_prev", "SM", Q),
        ("skiplist_begin", "BEGIN", Q), ("skiplist_end", "SM", TAIL)]


def order_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order and adjacency facts along every path of the searches, steps, insertion and removal: a result is "
                   "bracketed by neighbours on the bottom layer, links join neighbours of one layer")
    steps, cmps = step_fns(P), cmp_fns(P)
    und = []
    parts_rule(P, R, pid, steps, cmps, und)
    for name, want, q in TOPS:
        for f in P.byname.get(name, []):
            if f.file != FILE:
                continue
            r = Order(P, want, steps, cmps)
            r.top = f.id
            w = Walk(P, r, 200000)
            args = []
            for p in f.params:
                args.append(Q if is_node_param(p) else ("ptr", p["n"]) if "*" in p["t"] else None)
            try:
                w.run(f.id, frozenset({("query", q)}), tuple(args))
            except Budget:
                und.append("%s: too many paths" % name)
            und += sorted(r.und)
            finish(P, R, pid, f, r, w)
    for f in fns_of(P):
        ro = Change(P, f, steps, cmps, None, "insert").roles(f)
        if "prev" not in ro.values() or "next" not in ro.values():
            continue
        ins = any(n and (atomic(f, n) or ("",))[0] == "add" and (flag_of(f, n) or (0, 0))[1] == "num_entries" for n in f.nodes)
        node = [p for p in f.params if is_node_param(p)]
        if len(node) != 1:
            und.append("%s: not understood" % f.name)
            continue
        layers_rule(P, R, pid, f)
        bools = [p for p in f.params if p["t"] == "bool"]
        for nd in ((0, 1) if bools and ins else (0,)):
            r = Change(P, f, steps, cmps, node[0]["v"], "insert" if ins else "erase")
            r.top = f.id
            r.order_q = (lambda env, r=r, nd=nd: env.__setitem__("#nodup", ("int", nd))) if ins else (lambda env: None)
            w = Walk(P, r, 400000)
            args = tuple(Q if is_node_param(p) else ("int", nd) if p["t"] == "bool" else ("ptr", p["n"]) if "*" in p["t"]
                         else None for p in f.params)
            try:
                w.run(f.id, frozenset({("query", Q)}), args)
            except Budget:
                und.append("%s: too many paths" % f.name)
            if r.splice and not r.placed:
                r.bad("splice", r.splice[0], r.splice[1], "links are changed although no predecessor is ever found")
            finish(P, R, pid, f, r, w)
    for name, want in (("skiplist_insert", 0), ("skiplist_insert_nodup", 1)):
        for f in P.byname.get(name, []):
            for i, n in f.calls():
                gs = [P.fns[g] for g in P.targets(n)]
                if len(gs) == 1 and gs[0].file == FILE and len(n["args"]) == len(gs[0].params):
                    for p, x in zip(gs[0].params, n["args"]):
                        if p["t"] == "bool" and "cv" in f.nodes[x]:
                            R.check(f.nodes[x]["cv"] == want, "%s|%s|duplicates" % (pid, name), f.where(n["l"]),
                                    "%s: equal elements are %s" % (name, "let in" if want else "refused"))
    R.coverage["undecided"] = und
    return R


def finish(P, R, pid, f, r, w):
    R.functions.add(f.name)
    R.coverage["paths"] = R.coverage.get("paths", 0) + w.paths
    R.coverage["states"] = R.coverage.get("states", 0) + w.steps
    n = len(r.sites) + r.loops
    R.obligations += n
    R.discharged += n - min(n, len(r.bads))
    for k, (where, msg) in sorted(r.bads.items()):
        R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
    for x in sorted(r.sites)[:3]:
        g = P.fns[x[0]]
        R.samples.append("%s: %s" % (f.name, g.where(g.nodes[x[1]].get("l", g.line))))
