"""Concurrent skip list (K family)."""
from ..core import Result
from ..cwalk import Walk, CRule, Budget, atomic, lv, lvalue, truth, fold, subtree

NODE = "_skiplist_node"
FILE = "src/skiplist.cc"


def fns_of(P):
    return sorted((f for f in P.fns.values() if f.file == FILE and not f.is_lambda), key=lambda f: f.id)


def ret_is_node(f):
    return NODE in (f.ret or "") and "*" in (f.ret or "")


def internal(f):
    """Not part of the interface: file-local linkage."""
    return f.file == FILE and f.id.startswith("c:%s@" % FILE.split("/")[-1])


def is_sentinel(fn, i):
    """&slist->head, &slist->tail: places embedded in the list object."""
    p = lvalue(fn, i)
    return bool(p and p[0] == "field" and p[1] in ("head", "tail"))


class Base(CRule):
    def __init__(self, P):
        self.P = P
        self.bads = {}
        self.sites = set()
        self.top = None

    def bad(self, key, fn, line, msg):
        self.bads.setdefault(key, (fn.where(line), msg))

    def inline(self, f):
        return internal(f)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "un" and n["op"] == "&" and is_sentinel(fn, i):
            return ("sent",)
        if n["k"] == "mem" and n["f"].endswith("::top_layer"):
            return ("nn",)
        if n["k"] in ("ref",) and n.get("v") and n["v"] in env:
            return env[n["v"]]
        return None


# ---- references -----------------------------------------------------------------
class Refs(Base):
    """auto: ("ref", token, count), ("bag", array). A variable is bound to a
    token only while the token has references."""

    def __init__(self, P):
        super().__init__(P)
        self.frames = []

    def context(self):
        return frozenset(x for f in self.frames for x in f)

    def new(self, a, e):
        used = set(x[1] for x in a if x[0] == "ref") | set(v[1] for v in e.values() if v is not None and v[0] == "t")
        used |= self.context()
        k = 0
        while k in used:
            k += 1
        return k

    def count(self, a, k):
        for x in a:
            if x[0] == "ref" and x[1] == k:
                return x[2]
        return 0

    def room(self, fn, n, a, e):
        """False once references that no variable names pile up."""
        named = set(v[1] for v in e.values() if v is not None and v[0] == "t") | self.context()
        if sum(1 for x in a if x[0] == "ref" and x[1] not in named) >= 3:
            self.bad("leak", fn, n["l"], "references to nodes are taken again and again and never released")
            return False
        return True

    def setc(self, a, k, c):
        a = frozenset(x for x in a if not (x[0] == "ref" and x[1] == k))
        return a | {("ref", k, c)} if c else a

    def canon(self, w, fn, a, e):
        base = self.context()
        held = set(x[1] for x in a if x[0] == "ref")
        e = dict((k, v) for k, v in e.items() if v is not None and not (v[0] == "t" and v[1] not in held and
                                                                         v[1] not in base))
        order, nxt = {}, 0
        for k in sorted(e):
            v = e[k]
            if v[0] == "t" and v[1] not in base and v[1] not in order:
                while nxt in base:
                    nxt += 1
                order[v[1]] = nxt
                nxt += 1
        for x in sorted(held, key=lambda k: (self.count(a, k), k)):
            if x not in base and x not in order:
                while nxt in base:
                    nxt += 1
                order[x] = nxt
                nxt += 1
        a = frozenset(("ref", order.get(x[1], x[1]), x[2]) if x[0] == "ref" else x for x in a)
        e = dict((k, ("t", order.get(v[1], v[1])) if v[0] == "t" else v) for k, v in e.items())
        return a, e

    def release(self, fn, n, a, e, v):
        if v is not None and v[0] == "sent":
            return a, e
        if v is None or v[0] != "t" or not self.count(a, v[1]):
            self.bad("released twice", fn, n["l"], "a reference is released that is not held")
            return a, e
        return self.setc(a, v[1], self.count(a, v[1]) - 1), e

    def acquire(self, fn, n, a, e, v, var):
        if v is not None and v[0] == "sent":
            return a, e
        if v is not None and v[0] == "t":
            c = self.count(a, v[1]) + 1
            if c > 3:
                self.bad("accumulates", fn, n["l"], "references pile up on one node")
                return None
            return self.setc(a, v[1], c), e
        if not self.room(fn, n, a, e):
            return None
        k = self.new(a, e)
        if var:
            e = dict(e)
            e[var] = ("t", k)
        return self.setc(a, k, 1), e

    def touch(self, w, fn, i, n, a, e, nv, node, op):
        """A reference of the node denoted by expression node is taken or released."""
        v = w.val(fn, e, nv, node)
        bn = fn.nodes[node]
        while bn and bn["k"] in ("x", "cast", "paren") and len(bn.get("args", ())) == 1 and not bn.get("aop"):
            bn = fn.nodes[bn["args"][0]]
        self.sites.add((fn.id, i))
        if v is not None and v[0] == "null":
            return []
        if op == "sub":
            if bn and bn["k"] == "idx" and (v is None or v[0] != "t"):
                arr = fn.nodes[bn["a"]].get("v")
                if ("bag", arr) in a or ("bagged", arr) in a:
                    return [(frozenset(x for x in a if x != ("bag", arr)) | {("bagged", arr)}, e, None)]
            a, e = self.release(fn, n, a, e, v)
            return [(a, e, None)]
        r = self.acquire(fn, n, a, e, v, bn.get("v") if bn and bn["k"] == "ref" else None)
        return [] if r is None else [(r[0], r[1], None)]

    def elem(self, w, fn, i, n, a, e, nv):
        at = atomic(fn, n)
        if at and at[1] and at[1][0] == "field" and at[1][1] == "ref_count":
            if at[0] not in ("add", "sub"):
                return None
            if at[2] is not None and fn.nodes[at[2]].get("cv", 1) != 1:
                self.bad("not one", fn, n["l"], "the number of references does not change by one")
            return self.touch(w, fn, i, n, a, e, nv, at[1][2], at[0])
        if n["k"] == "asn" and n["op"] == "=":
            t = fn.nodes[n["a"]]
            if t and t["k"] == "idx":
                v = w.val(fn, e, nv, n["b"])
                arr = fn.nodes[t["a"]]
                # an array that is released element by element owns what it is given
                if v is not None and v[0] == "t" and arr.get("v") in self.owning(fn):
                    return [(self.setc(a, v[1], self.count(a, v[1]) - 1) | {("bag", arr["v"])}, e, None)]
        if n["k"] == "call":
            nm = n.get("n", "")
            ids = list(self.P.targets(n))
            f = self.P.fns.get(ids[0]) if len(ids) == 1 else None
            if nm in PRIMITIVE and fn.name not in PRIMITIVE:
                return self.touch(w, fn, i, n, a, e, nv, n["args"][-1], "add" if nm.endswith("grab_node") else "sub")
            if f is not None and f.file == FILE and ret_is_node(f):
                # contract of every function that hands out a node
                self.sites.add((fn.id, i))
                if not self.room(fn, n, a, e):
                    return []
                k = self.new(a, e)
                e2 = dict(e)
                self.clear_out(fn, n, e2)
                out = [(a, e2, ("null",)), (self.setc(a, k, 1), e2, ("t", k))]
                if internal(f):
                    out.append((a, e2, ("sent",)))
                return out
            if f is not None and self.inline(f) and ids[0] not in w.stack:
                self.frames.append(frozenset(v[1] for v in e.values() if v is not None and v[0] == "t") |
                                   frozenset(x[1] for x in a if x[0] == "ref"))
                args = tuple(w.val(fn, e, nv, x) for x in n["args"])
                out = []
                for a2, v in w.run(ids[0], a, args):
                    e2 = dict(e)
                    self.clear_out(fn, n, e2)
                    out.append((a2, e2, v))
                self.frames.pop()
                return out
        return None

    def clear_out(self, fn, n, e):
        for x in n["args"]:
            t = fn.nodes[x]
            if t and t["k"] == "un" and t["op"] == "&":
                t = fn.nodes[t["a"]]
                if t and t["k"] == "ref" and t.get("v"):
                    e[t["v"]] = None

    def owning(self, fn):
        c = fn._extra.get("owning")
        if c is None:
            c = set()
            for n in fn.nodes:
                if not n:
                    continue
                at = atomic(fn, n)
                if at and at[0] == "sub" and at[1] and at[1][0] == "field" and at[1][1] == "ref_count":
                    b = fn.nodes[at[1][2]]
                    if b and b["k"] == "idx":
                        c.add(fn.nodes[b["a"]].get("v"))
            fn._extra["owning"] = c
        return c

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        neg = False
        while n and n["k"] == "un" and n["op"] == "!":
            neg = not neg
            n = fn.nodes[n["a"]]
        if not n:
            return None
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            eq = (want != neg) == (n["op"] == "==")
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                if is_sentinel(fn, y) and eq:
                    v = w.val(fn, e, nv, x)
                    if v is not None and v[0] == "t" and v[1] not in self.context():
                        for k in list(e):
                            if e[k] == v:
                                e[k] = ("sent",)
                        return self.setc(a, v[1], 0)
                if is_sentinel(fn, y) and not eq and w.val(fn, e, nv, x) == ("sent",):
                    return None
        # leaving a loop that releases an array, while the array still holds something
        if not want and any(x[0] == "bag" for x in a) and b["s"][0] >= 0:
            arrs = set(x[1] for x in a if x[0] == "bag")
            seen, work = set(), [b["s"][0]]
            while work and len(seen) < 12:
                x = work.pop()
                if x in seen or x == b["id"] or x < 0:
                    continue
                seen.add(x)
                for i in fn.blocks[x]["e"]:
                    at = atomic(fn, fn.nodes[i])
                    if at and at[0] == "sub" and at[1] and at[1][0] == "field" and at[1][1] == "ref_count":
                        q = fn.nodes[at[1][2]]
                        if q and q["k"] == "idx" and fn.nodes[q["a"]].get("v") in arrs:
                            return False
                work += fn.blocks[x]["s"]
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn.id == self.top:
            held = [x for x in a if x[0] in ("ref", "bag")]
            if ret_is_node(fn):
                if val is not None and val[0] == "t":
                    c = self.count(a, val[1])
                    if c != 1:
                        self.bad("return", fn, line, "the returned node carries %d references instead of one" % c)
                    held = [x for x in held if not (x[0] == "ref" and x[1] == val[1])]
                elif val is None:
                    self.bad("return", fn, line, "the returned node carries no reference: it can be freed while in use")
            if held:
                self.bad("leak", fn, line, "a reference to a node is never released: the node can never be freed")
        return frozenset(x for x in a if x[0] != "bagged")


PRIMITIVE = ("skiplist_grab_node", "skiplist_release_node")


def refs_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("reference tokens over every path: each node reference taken in a skip list operation is released "
                   "exactly once or is the one reference of the returned node")
    prim_rule(P, R, pid)
    for f in fns_of(P):
        if f.name in PRIMITIVE or not uses_refs(P, f):
            continue
        if internal(f) and not ret_is_node(f) and P.callers().get(f.id):
            continue            # followed from its callers
        r = Refs(P)
        r.top = f.id
        w = Walk(P, r)
        try:
            w.run(f.id, frozenset(), tuple(("ptr", p["n"]) if "*" in p["t"] else None for p in f.params))
        except Budget:
            R.coverage["over_budget"] = R.coverage.get("over_budget", 0) + 1
            for k, (where, msg) in sorted(r.bads.items()):      # found on paths that were followed
                R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
            continue
        R.functions.add(f.name)
        R.coverage["paths"] = R.coverage.get("paths", 0) + w.paths
        n = len(r.sites) + 1
        R.obligations += n
        R.discharged += n - min(n, len(r.bads))
        for k, (where, msg) in sorted(r.bads.items()):
            R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
        for x in sorted(r.sites)[:2]:
            g = P.fns[x[0]]
            R.samples.append("reference operation at %s" % g.where(g.nodes[x[1]]["l"]))
    return R


class Prim(Base):
    """grab and release change the count of their node by one, once."""

    def inline(self, f):
        return f.file == FILE

    def elem(self, w, fn, i, n, a, e, nv):
        x = flag_of(fn, n)
        if x and x[1] == "ref_count" and x[0] in ("add", "sub"):
            one = x[3] is None or fn.nodes[x[3]].get("cv", 1) == 1
            v = w.val(fn, e, nv, x[2])
            own = v is None or v[0] == "ptr"
            return [(a + ((x[0] if one and own else "other"),), e, None)]
        if x and x[1] == "ref_count" and x[0] in ("store", "exchange", "cas"):
            return [(a + ("other",), e, None)]
        return None


def prim_rule(P, R, pid):
    for f in fns_of(P):
        if f.name not in PRIMITIVE:
            continue
        r = Prim(P)
        w = Walk(P, r, 2000)
        want = "add" if f.name.endswith("grab_node") else "sub"
        R.functions.add(f.name)
        R.obligations += 1
        try:
            outs = w.run(f.id, (), tuple(("ptr", p["n"]) for p in f.params))
        except Budget:
            continue
        if any(a != (want,) for a, v in outs):
            R.add("%s|%s|effect" % (pid, f.name), f.where(f.line), "%s: does not %s exactly one reference on every path"
                  % (f.name, "take" if want == "add" else "give back"))
        else:
            R.discharged += 1


def uses_refs(P, f):
    seen, work = set(), [f.id]
    while work:
        x = work.pop()
        if x in seen or x not in P.fns:
            continue
        seen.add(x)
        g = P.fns[x]
        if g.file != FILE:
            continue
        for n in g.nodes:
            if n:
                at = atomic(g, n)
                if at and at[1] and at[1][0] == "field" and at[1][1] == "ref_count":
                    return True
        for i, n in g.calls():
            work += list(P.targets(n))
    return False


# ---- claims and locks -------------------------------------------------------------
def flag_of(fn, n):
    """(op, flag field, owner node, value node, second) of an atomic access to a node field."""
    at = atomic(fn, n)
    if at and at[1] and at[1][0] == "field":
        return at[0], at[1][1], at[1][2], at[2], at[3]
    return None


def claims_in_array(f):
    """(array variable, index variable) of the predecessor claims in f."""
    for n in f.nodes:
        if n:
            x = flag_of(f, n)
            if x and x[0] == "cas" and x[1] == "being_modified":
                b = f.nodes[x[2]]
                if b and b["k"] == "idx":
                    i = f.nodes[b["b"]]
                    return f.nodes[b["a"]].get("v"), i.get("v") if i and i["k"] == "ref" else None
    return None


def lock_units(P):
    """{fid: net change of accessing_next} of the helpers that lock a node."""
    out = {}
    for f in fns_of(P):
        tot = set()
        for n in f.nodes:
            if n:
                x = flag_of(f, n)
                if x and x[1] == "accessing_next" and x[0] in ("add", "sub"):
                    tot.add(x[0])
        if tot and len([p for p in f.params if NODE in p["t"]]) == 1 and f.ret == "void":
            out[f.id] = "lock" if "add" in tot else "unlock"
    return out


class Proto(Base):
    """auto: ("H", E/0/1) claims held from that layer (relative to the current
    one) to the top; ("N",) the node's own claim; ("in",)/("out",) the current
    layer does/does not belong to the node; facts about the current layer."""

    def __init__(self, P, f):
        super().__init__(P)
        self.f = f
        self.arr, self.cv = claims_in_array(f)
        self.clr = set(g.id for g in fns_of(P) if g is not f and clears(g))
        self.units = lock_units(P)
        node = [p for p in f.params if NODE in p["t"]]
        self.node = node[-1]["v"] if node else None
        self.locks = {}

    # tokens: ("t", k) for nodes met on the way, ("ptr", v) for parameters
    def context(self):
        return None

    def inline(self, g):
        return g.file == FILE and g.id != self.f.id and not ret_is_node(g) and g.id not in self.units and \
            g.id not in self.clr

    def toks(self, a, e):
        s = set(v[1] for v in e.values() if v is not None and v[0] == "t")
        for x in a:
            for y in x[1:]:
                if isinstance(y, tuple) and y and y[0] == "t":
                    s.add(y[1])
        return s

    def new(self, a, e):
        used = self.toks(a, e) | set(range(getattr(self, "floor", 0)))
        k = 0
        while k in used:
            k += 1
        return ("t", k)

    def rel(self, fn, e, i):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if not n or fn is not self.f:
            return None
        if n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            return self.rel(fn, e, n["args"][0])
        if n["k"] == "ref":
            if n.get("v") == self.cv:
                return 0
            v = e.get(n.get("v"))
            return v[1] if v is not None and v[0] == "rel" else None
        if n["k"] == "bin" and n["op"] in ("+", "-"):
            r, c = self.rel(fn, e, n["a"]), fn.nodes[n["b"]].get("cv")
            if r is not None and c is not None:
                return r + (c if n["op"] == "+" else -c)
        return None

    def value(self, w, fn, env, nv, i, n):
        v = super().value(w, fn, env, nv, i, n)
        if v is not None:
            return v
        if n["k"] == "idx" and fn is self.f:
            arr = fn.nodes[n["a"]]
            r = self.rel(fn, env, n["b"])
            if arr and arr["k"] == "ref" and r is not None:
                return env.get("%s[%d]" % (arr["v"], r))
        return None

    def get(self, a, k):
        for x in a:
            if x[0] == k:
                return x[1] if len(x) > 1 else True
        return None

    def drop(self, a, *ks):
        return frozenset(x for x in a if x[0] not in ks)

    def canon(self, w, fn, a, e):
        if fn is not self.f:
            return a, e
        order = {}
        for k in sorted(e):
            v = e[k]
            if v is not None and v[0] == "t" and v[1] not in order:
                order[v[1]] = len(order)
        a2 = set()
        for x in a:
            ts = [y for y in x[1:] if isinstance(y, tuple) and y and y[0] == "t"]
            if any(y[1] not in order for y in ts):
                continue
            a2.add(tuple(("t", order[y[1]]) if isinstance(y, tuple) and y and y[0] == "t" else y for y in x))
        e = dict((k, ("t", order[v[1]]) if v is not None and v[0] == "t" else v) for k, v in e.items())
        return frozenset(a2), e

    def keep(self, k):
        return "[" in k

    # -- events
    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        top = fn is self.f
        x = flag_of(fn, n)
        if x:
            return self.flag(w, fn, i, n, a, e, nv, x)
        at = atomic(fn, n)
        if at and at[1] and at[1][0] == "idx":
            return self.pointer(w, fn, i, n, a, e, nv, at)
        if at and at[0] in ("add", "sub") and at[1] is None:
            return None
        if k == "call":
            ids = list(self.P.targets(n))
            g = self.P.fns.get(ids[0]) if len(ids) == 1 else None
            if g is not None and g.id in self.clr and top:
                return self.clear(w, fn, i, n, a, e, nv)
            if g is not None and g.id in self.units:
                v = w.val(fn, e, nv, n["args"][0])
                if v is not None and v == ("ptr", "node"):
                    self.sites.add((fn.id, i))
                    if self.units[g.id] == "lock":
                        return [(a | {("W",)}, e, None)]
                    if ("linked",) in a and ("ins",) in a and ("full",) not in a:
                        self.bad("published", fn, n["l"], "the node's lock is released before it is marked linked: "
                                 "its successors can be removed under it")
                    return [(self.drop(a, "W"), e, None)]
                return [(a, e, None)]
            if g is not None and g.file == FILE and ret_is_node(g):
                e = dict(e)
                for q in n["args"]:
                    t = fn.nodes[q]
                    if t and t["k"] == "un" and t["op"] == "&" and fn.nodes[t["a"]]["k"] == "ref":
                        e[fn.nodes[t["a"]].get("v")] = None
                t = self.new(a, e)
                if len(n["args"]) >= 3 and top and self.rel(fn, e, n["args"][2]) == 0 and self.get(a, "H") == 0:
                    v = w.val(fn, e, nv, n["args"][1])
                    if v is not None and v == e.get("%s[0]" % self.arr):
                        return [(a, e, ("null",)), (a | {("again", t)}, e, t)]
                return [(a, e, ("null",)), (a, e, t)]
            return None
        if not top:
            return None
        if k in ("decl", "asn"):
            if k == "decl":
                var, src = n["v"], n.get("i")
                if src is None:
                    return None
            else:
                t = fn.nodes[n["a"]]
                var, src = (t.get("v") if t["k"] == "ref" else None), n["b"]
                if n["op"] != "=":
                    return None
                if t["k"] == "idx":
                    arr, r = fn.nodes[t["a"]], self.rel(fn, e, t["b"])
                    if arr["k"] == "ref" and r is not None:
                        e = dict(e)
                        e["%s[%d]" % (arr["v"], r)] = w.val(fn, e, nv, src)
                        return [(a, e, None)]
                    return None
            v = w.val(fn, e, nv, src)
            if v == ("sent",) and self.is_head(fn, src):
                self.sites.add((fn.id, i))
                if self.get(a, "H") != "E":
                    self.bad("retry", fn, n["l"], "the search restarts while predecessors are still claimed: nobody "
                             "can change the list around them any more")
                a = self.drop(a, "H", "in", "out", "again", "same", "valid", "dup") | {("H", "E")}
                e = dict(e)
                e[var] = ("sent",)
                return [(a, e, None)]
            r = self.rel(fn, e, src)
            if r is not None and var and var != self.cv:
                e = dict(e)
                e[var] = ("rel", r)
                return [(a, e, None)]
            if var == self.cv:
                e = dict(e)
                for q in list(e):
                    if "[" in q or (e[q] is not None and e[q][0] == "rel"):
                        e[q] = None
                e[var] = v
                return [(self.drop(a, "in", "out"), e, v)]
        if k == "incdec" and n["op"] == "--" and fn.nodes[n["a"]].get("v") == self.cv:
            return self.down(w, fn, i, n, a, e, nv)
        if k == "incdec" and n["op"] == "++" and fn.nodes[n["a"]].get("v") == self.cv:
            e = dict(e)
            for q in list(e):
                if "[" in q or (e[q] is not None and e[q][0] == "rel"):
                    e[q] = None
            e[self.cv] = fold("+", e.get(self.cv), ("int", 1))
            return [(self.drop(a, "in", "out"), e, None)]
        return None

    def is_head(self, fn, i):
        p = lvalue(fn, i)
        return bool(p and p[0] == "field" and p[1] == "head")

    def layer_ok(self, a, e, fn, line):
        pv, nx = e.get("%s[0]" % self.arr), [e[k] for k in e if k.endswith("[0]") and not k.startswith(self.arr)]
        for v in [pv] + nx:
            if v is not None and v[0] == "t" and ("valid", v) not in a:
                self.bad("neighbours", fn, line, "a claimed predecessor or its successor is used without checking that "
                         "it is still linked")
        if ("same",) not in a:
            self.bad("adjacent", fn, line, "the predecessor is claimed but not checked to still point at the expected "
                     "successor: a node added in between is lost")

    def down(self, w, fn, i, n, a, e, nv):
        self.sites.add((fn.id, i))
        h = self.get(a, "H")
        if h == 0:
            self.layer_ok(a, e, fn, n["l"])
            a = self.drop(a, "H") | {("H", 1)}
        elif ("in",) in a:
            self.bad("unclaimed", fn, n["l"], "a layer of the node is passed without claiming its predecessor")
        a = self.drop(a, "in", "out", "same", "again", "valid", "dup")
        e = dict(e)
        v = e.get(self.cv)
        e[self.cv] = fold("+", v, ("int", -1))
        sh = {}
        for q in list(e):
            if "[" in q:
                r = int(q[q.index("[") + 1:-1])
                if r == 0:
                    sh[q.replace("[0]", "[1]")] = e[q]
                e[q] = None
            elif e[q] is not None and e[q][0] == "rel":
                e[q] = ("rel", e[q][1] + 1) if e[q][1] < 2 else None
        e.update(sh)
        return [(a, e, None)]

    def flag(self, w, fn, i, n, a, e, nv, x):
        op, field, owner, av, av2 = x
        on = fn.nodes[owner]
        v = w.val(fn, e, nv, owner)
        own = v == ("ptr", "node")
        if field == "is_fully_linked":
            if op == "load":
                t = lvalue(fn, av) if av is not None else None
                fact = {("valid", v)} if v is not None and v[0] in ("t",) else set()
                out = []
                for val, a2 in ((("int", 1), a | fact), (("int", 0), a)):
                    e2 = dict(e)
                    if t and t[0] == "var":
                        e2[t[1]] = val
                    out.append((a2, e2, val))
                return out
            if op == "store" and own and fn is self.f:
                self.sites.add((fn.id, i))
                val = truth(w.val(fn, e, nv, self.deref(fn, av)))
                if val is True:
                    if ("linked",) not in a:
                        self.bad("early", fn, n["l"], "the node is marked linked before it is linked")
                    return [(a | {("full",)}, e, None)]
                if val is False:
                    if ("W",) not in a:
                        self.bad("unlocked mark", fn, n["l"], "the node is marked unlinked without its lock: a reader "
                                 "may be following it")
                    return [(self.drop(a, "full") | {("unmarked",)}, e, None)]
            return None
        if field == "being_modified" and fn is self.f:
            self.sites.add((fn.id, i))
            if op == "cas":
                idx = on and on["k"] == "idx"
                r = self.rel(fn, e, on["b"]) if idx else None
                ex, fail = lvalue(fn, av), dict(e)
                if ex and ex[0] == "var":
                    fail[ex[1]] = ("int", 1)    # a failed exchange stores what it found
                if truth(w.val(fn, e, nv, self.deref(fn, av))) is True:
                    self.bad("expects", fn, n["l"], "the right to modify a node is taken although somebody else has it "
                             "(the exchange expects it to be taken)")
                if truth(w.val(fn, e, nv, self.deref(fn, av2))) is False:
                    self.bad("expects", fn, n["l"], "the right to modify a node is taken without leaving a mark")
                if idx and r == 0:
                    if self.get(a, "H") == 0:
                        self.bad("claimed twice", fn, n["l"], "a predecessor already claimed is claimed again: the "
                                 "operation waits for itself")
                    return [(self.drop(a, "H", "valid", "same", "again", "dup") | {("H", 0)}, e, ("int", 1)),
                            (a, fail, ("int", 0))]
                if own:
                    return [(a | {("N",)}, e, ("int", 1)), (a, fail, ("int", 0))]
            if op == "store" and own:
                if truth(w.val(fn, e, nv, self.deref(fn, av))) is False:
                    return [(self.drop(a, "N"), e, None)]
            return None
        if field == "removed" and fn is self.f and own and op == "store":
            self.sites.add((fn.id, i))
            val = truth(w.val(fn, e, nv, self.deref(fn, av)))
            if val is True:
                if ("N",) not in a:
                    self.bad("removed early", fn, n["l"], "the node is marked removed without the right to modify it")
                return [(a | {("removed",)}, e, None)]
            return [(self.drop(a, "removed"), e, None)]
        if field == "removed" and op == "load":
            return None
        if field == "num_entries" and op in ("add", "sub"):
            self.sites.add((fn.id, i))
            if av is not None and fn.nodes[av].get("cv", 1) != 1:
                self.bad("counted twice", fn, n["l"], "the number of entries does not change by one")
            if ("count", op) in a:
                self.bad("counted twice", fn, n["l"], "the number of entries is changed twice")
            return [(a | {("count", op)}, e, None)]
        return None

    def deref(self, fn, av):
        n = fn.nodes[av] if av is not None else None
        if n and n["k"] == "un" and n["op"] == "&":
            return n["a"]
        return av

    def pointer(self, w, fn, i, n, a, e, nv, at):
        op, place, av, av2 = at
        base = fn.nodes[place[1]]
        if not base or base["k"] != "mem":
            return None
        fld = base["f"].rsplit("::", 1)[-1]
        if fld == "layer_entries" and op in ("add", "sub"):
            self.sites.add((fn.id, i))
            if av is not None and fn.nodes[av].get("cv", 1) != 1:
                self.bad("counted twice", fn, n["l"], "the number of entries of a layer does not change by one")
            if ("lcount", op) in a:
                self.bad("counted twice", fn, n["l"], "the number of entries of a layer is changed twice")
            return [(a | {("lcount", op)}, e, None)]
        if fld != "next" or fn is not self.f:
            return None
        owner = w.val(fn, e, nv, base["b"])
        if op == "store" and owner == ("ptr", "node"):
            return None
        if op in ("cas", "store") and owner != ("ptr", "node"):
            self.sites.add((fn.id, i))
            h = self.get(a, "H")
            if h == 0:
                self.layer_ok(a, e, fn, n["l"])
            elif h != 1:
                self.bad("unclaimed link", fn, n["l"], "a predecessor's link is changed without holding the claims on "
                         "the predecessors")
            new = w.val(fn, e, nv, self.deref(fn, av2 if op == "cas" else av))
            old = w.val(fn, e, nv, self.deref(fn, av)) if op == "cas" else None
            if new == ("ptr", "node"):
                if ("W",) not in a:
                    self.bad("unlocked node", fn, n["l"], "the node becomes reachable while it is not locked")
                a = a | {("ins",)}
            if old == ("ptr", "node") and ("unmarked",) not in a:
                self.bad("order", fn, n["l"], "the node is taken out of the list before it is marked unlinked: a reader "
                         "can still step onto it")
            return [(self.drop(a, "linked") | {("linked",)}, e, None)]
        return None

    def clear(self, w, fn, i, n, a, e, nv):
        self.sites.add((fn.id, i))
        start = n["args"][1]
        r = self.rel(fn, e, start)
        h = self.get(a, "H")
        zero = fn.nodes[start].get("cv") == 0 or w.val(fn, e, nv, start) == ("int", 0)
        if zero and r is None:
            if h == "E":
                self.bad("foreign", fn, n["l"], "claims are given up that are not held")
            if ("linked",) not in a and ("count", "add") not in a and h != "E":
                v = e.get(self.cv)
                if h == 0 and v != ("int", 0):
                    self.bad("foreign", fn, n["l"], "claims are given up on layers that are not claimed")
        elif r is not None:
            want = {"E": 1}.get(h, h)
            if r < want and not (h == "E" and ("out",) in a):
                self.bad("foreign", fn, n["l"], "claims are given up that are not held: another operation loses its "
                         "exclusive right")
            elif h != "E" and r > want + (("dup",) in a):
                self.bad("kept", fn, n["l"], "a claimed predecessor is not given up: it stays unusable for ever")
        elif h != "E":
            self.undecided = True
        return [(self.drop(a, "H") | {("H", "E")}, e, None)]

    undecided = False

    def branch(self, w, fn, tc, want, a, e, nv, b):
        if fn is not self.f:
            return None
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if not n or n["k"] != "bin":
            return None
        op = n["op"]
        if op in ("<", ">=") and self.rel(fn, e, n["a"]) == 0 and fn.nodes[n["b"]]["k"] == "ref" and ("in",) in a:
            # inside the node: the topmost layer is the one nothing is claimed above of
            below = want == (op == "<")
            return False if below != (self.get(a, "H") != "E") else None
        la, lb = self.rel(fn, e, n["a"]), self.rel(fn, e, n["b"])
        if op in ("<=", ">") and la == 0 and fn.nodes[n["a"]].get("v") == self.cv and lb is None and \
                fn.nodes[n["b"]]["k"] == "ref":
            inside = want == (op == "<=")
            if inside and ("out",) in a or not inside and ("in",) in a:
                return False
            if not inside and self.get(a, "H") == 1 and ("linked",) not in a and ("unmarked",) not in a:
                return False        # on the way down a claimed layer is never followed by an unclaimed one
            return a | {("in",) if inside else ("out",)}
        if op in ("==", "!="):
            eq = want == (op == "==")
            xa, xb = fn.nodes[n["a"]], fn.nodes[n["b"]]
            if eq and (is_sentinel(fn, n["a"]) or is_sentinel(fn, n["b"])):
                # the search never runs off the list
                s = lvalue(fn, n["b"]) or lvalue(fn, n["a"])
                if s and s[1] == "tail":
                    return False
            if xa and xb and xa["k"] == xb["k"] == "idx" and fn.nodes[xa["a"]].get("v") == self.arr:
                ra, rb = self.rel(fn, e, xa["b"]), self.rel(fn, e, xb["b"])
                if ra is not None and rb is not None and abs(ra - rb) == 1:
                    if eq and self.get(a, "H") == 1:
                        return self.drop(a, "H", "valid", "same", "again") | {("H", 0), ("dup",)}
                    return None
            va, vb = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            if eq and va is not None and vb is not None:
                nx = [e[k] for k in e if k.endswith("[0]") and not k.startswith(self.arr)]
                for p, q in ((va, vb), (vb, va)):
                    if ("again", p) in a and q in nx:
                        return a | {("same",)}
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn is not self.f:
            return a
        h = self.get(a, "H")
        if h != "E":
            self.bad("return claimed", fn, line, "the operation returns while predecessors are still claimed")
        if ("N",) in a:
            self.bad("return own", fn, line, "the operation returns with the node still being modified")
        if ("W",) in a:
            self.bad("return locked", fn, line, "the operation returns with the node locked: nobody can follow, reuse "
                     "or free it")
        ok = val == ("int", 0)
        cnt = [x for x in a if x[0] in ("count", "lcount")]
        if ok and ("linked",) in a:
            if len(cnt) != 2:
                self.bad("uncounted", fn, line, "the list changed but its number of entries did not")
            if ("ins",) in a:
                if any(x[1] != "add" for x in cnt):
                    self.bad("uncounted", fn, line, "an insertion lowers the number of entries")
                if ("full",) not in a:
                    self.bad("unmarked", fn, line, "the inserted node is never marked linked: nobody can find it")
            else:
                if any(x[1] != "sub" for x in cnt):
                    self.bad("uncounted", fn, line, "a removal raises the number of entries")
                if ("removed",) not in a:
                    self.bad("not removed", fn, line, "the removed node is not marked removed: it can never be freed")
        if val is not None and val[0] == "int" and not ok:
            if cnt or ("linked",) in a:
                self.bad("failed change", fn, line, "the operation reports failure although it changed the list")
            if ("removed",) in a:
                self.bad("failed removal", fn, line, "a removal that failed leaves the node marked removed")
        if ok and ("linked",) not in a:
            self.bad("no change", fn, line, "the operation reports success without changing the list")
        return a


def clears(g):
    for n in g.nodes:
        if n:
            x = flag_of(g, n)
            if x and x[0] == "cas" and x[1] == "being_modified" and any(p["t"].count("*") == 2 for p in g.params):
                return True
    return False


def claims_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate of the predecessors' claims along every path of the operations that change links: claim, "
                   "re-check, link, publish, count, give up")
    for f in fns_of(P):
        c = claims_in_array(f)
        if not c or clears(f) or c[1] is None:
            continue
        r = Proto(P, f)
        w = Walk(P, r, 400000)
        try:
            w.run(f.id, frozenset({("H", "E")}), tuple(("ptr", "node") if p["v"] == r.node else
                                                       ("ptr", p["n"]) if "*" in p["t"] else None for p in f.params))
        except Budget:
            R.coverage["over_budget"] = R.coverage.get("over_budget", 0) + 1
            for k, (where, msg) in sorted(r.bads.items()):      # found on paths that were followed
                R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
            continue
        R.functions.add(f.name)
        R.coverage["paths"] = R.coverage.get("paths", 0) + w.paths
        R.coverage["states"] = R.coverage.get("states", 0) + w.steps
        if r.undecided:
            R.coverage["undecided"] = R.coverage.get("undecided", 0) + 1
            continue
        n = len(r.sites) + 1
        R.obligations += n
        R.discharged += n - min(n, len(r.bads))
        for k, (where, msg) in sorted(r.bads.items()):
            R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
        for x in sorted(r.sites)[:4]:
            g = P.fns[x[0]]
            R.samples.append("protocol step at %s" % g.where(g.nodes[x[1]]["l"]))
    return R


# ---- spin locks ---------------------------------------------------------------------
class Lock(Base):
    """The helpers that take or give up a node's lock word. auto: ("net", n),
    ("fact", mask, value) learned since the last own change."""

    def __init__(self, P):
        super().__init__(P)
        self.outs = []
        self.runaway = None

    def inline(self, f):
        return False

    def elem(self, w, fn, i, n, a, e, nv):
        x = flag_of(fn, n)
        if not x or x[1] != "accessing_next":
            return None
        op, _, owner, av, _2 = x
        if op in ("add", "sub"):
            c = fn.nodes[av].get("cv") if av is not None else None
            if c is None:
                raise Budget(fn.name)
            net = sum(y[1] for y in a if y[0] == "net") + (c if op == "add" else -c)
            if abs(net) > 3 * abs(c):
                self.runaway = (fn, n["l"])     # grows with every turn of a loop
                return []
            e = {k: v for k, v in e.items() if v != ("word",)}      # read before this change
            return [(frozenset([("net", net)]), e, None)]
        if op == "load":
            t = lvalue(fn, av) if av is not None else None
            e = dict(e)
            if t and t[0] == "var":
                e[t[1]] = ("word",)
            return [(a, e, ("word",))]
        if op in ("store", "cas"):
            raise Budget(fn.name)
        return None

    def mask(self, w, fn, e, nv, i):
        n = fn.nodes[i]
        if n["k"] == "bin" and n["op"] == "&":
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                c = fn.nodes[y].get("cv")
                if c is not None and w.val(fn, e, nv, x) == ("word",):
                    return c & 0xffffffff
        if w.val(fn, e, nv, i) == ("word",):
            return 0xffffffff
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            tc = n["a"]
            n = fn.nodes[tc]
        m = self.mask(w, fn, e, nv, tc)
        if m is not None:
            return a if want else a | {("fact", m, 0)}
        if n and n["k"] == "bin" and n["op"] in ("==", "!="):
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                m, c = self.mask(w, fn, e, nv, x), fn.nodes[y].get("cv")
                if m is not None and c is not None:
                    return a | {("fact", m, c)} if want == (n["op"] == "==") else a
        return None

    def leave(self, w, fn, a, e, val, line):
        self.outs.append((a, line))
        return a


def lock_table(P):
    """{fid: (unit, kind)} with kind lock/unlock; None when not understood."""
    out = {}
    for fid, kind in lock_units(P).items():
        f = P.fns[fid]
        r = Lock(P)
        w = Walk(P, r, 20000)
        try:
            w.run(fid, frozenset(), tuple(("ptr", p["n"]) for p in f.params))
        except Budget:
            return None
        if r.runaway:
            r.outs.append((frozenset([("net", 0)]), r.runaway[1]))
        out[fid] = (kind, r.outs)
    return out


class Held(Base):
    """Locks of nodes while links are read and changed. auto: ("R"|"W", key),
    ("seen", key), ("raw", var, key)."""

    def __init__(self, P, kinds):
        super().__init__(P)
        self.kinds = kinds
        self.top = None

    def inline(self, f):
        return False

    def key(self, w, fn, e, i):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            n = fn.nodes[n["args"][0]]
        if not n:
            return None
        if n["k"] == "ref" and n.get("v"):
            al = e.get(n["v"])
            return al[1] if al is not None and al[0] == "is" else n["v"]
        if n["k"] == "un" and n["op"] == "&":
            return self.key(w, fn, e, n["a"])
        if n["k"] == "mem":
            b = self.key(w, fn, e, n["b"])
            return None if b is None else "%s.%s" % (b, n["f"].rsplit("::", 1)[-1])
        if n["k"] == "idx":
            x, y = self.key(w, fn, e, n["a"]), self.key(w, fn, e, n["b"])
            return None if x is None or y is None else "%s[%s]" % (x, y)
        if "cv" in n:
            return str(n["cv"])
        return None

    def stale(self, a, e, var):
        a = frozenset(x for x in a if not any(isinstance(y, str) and mentions(y, var) for y in x[1:]))
        e = dict((k, v) for k, v in e.items() if not (v is not None and v[0] == "is" and mentions(v[1], var)))
        return a, e

    def overwrite(self, fn, a, e, var):
        """var gets a new value: what was known under its name goes by
        another name, or is forgotten."""
        for q, v in sorted(e.items()):
            if v == ("is", var):
                a = frozenset(tuple(q if y == var else y for y in x) for x in a)
                e = {k: (("is", q) if u == ("is", var) else u) for k, u in e.items() if k != q}
                break
        if any(x[0] in ("R", "W") and mentions(x[1], var) for x in a):
            raise Budget(fn.name)
        return self.stale(a, e, var)

    def assign(self, w, fn, a, e, var, src):
        key = self.key(w, fn, e, src) if src is not None else None
        v = w.val(fn, e, {}, src) if src is not None else None
        a, e = self.overwrite(fn, a, e, var)
        e = dict(e)
        n = fn.nodes[src] if src is not None else None
        ptr = bool(n and "*" in (n.get("t") or ""))
        if key is not None and ptr and key != var and not mentions(key, var):
            e[var] = ("is", key)
        elif v is not None and v[0] not in ("is", "sent"):
            e[var] = v
        else:
            e.pop(var, None)
        return a, e

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "call":
            ids = list(self.P.targets(n))
            kd = self.kinds.get(ids[0]) if len(ids) == 1 else None
            if kd is None:
                g = self.P.fns.get(ids[0]) if len(ids) == 1 else None
                if g is not None and reads_flag(g) and len(n["args"]) == 1:
                    key = self.key(w, fn, e, n["args"][0])
                    return [(a | {("valid", key)}, e, ("int", 1)), (a, e, ("int", 0))]
                if g is not None and g.file == FILE and touches_lock(self.P, g, self.kinds) and \
                        any(x[0] in ("R", "W") for x in a) and self.owns(fn, a):
                    self.bad("nested", fn, n["l"], "the list is searched while a link lock is held: the search can wait "
                             "for the very same lock")
                return None
            key = self.key(w, fn, e, n["args"][0])
            if key is None:
                raise Budget(fn.name)
            self.sites.add((fn.id, i))
            m, lock = kd
            if lock:
                if any(x[0] in ("R", "W") and x[1] == key for x in a):
                    self.bad("relock", fn, n["l"], "a lock already held is taken again: the thread waits for itself")
                    return [(a, e, None)]
                return [((a | {(m, key)}) - {("valid", key)}, e, None)]
            if (m, key) not in a:
                self.bad("unlock", fn, n["l"], "a lock is given up that is not held this way")
                return [(a, e, None)]
            raw = [x for x in a if x[0] == "raw" and x[2] == key]
            if raw:
                self.bad("unpinned", fn, n["l"], "the successor read under the lock is not referenced before the lock is "
                         "given up: it can be freed while in use")
            return [(frozenset(x for x in a if x not in raw and x != (m, key) and x != ("valid", key)), e, None)]
        at = atomic(fn, n)
        if at and at[1]:
            op, place, av, av2 = at
            if place[0] == "field" and place[1] == "is_fully_linked" and op == "load":
                key = self.key(w, fn, e, place[2])
                t = lvalue(fn, av) if av is not None else None
                out = []
                for val, a2 in ((("int", 1), a | {("valid", key)}), (("int", 0), a)):
                    e2 = dict(e)
                    if t and t[0] == "var":
                        e2[t[1]] = val
                    out.append((a2, e2, val))
                return out
            if place[0] == "field" and place[1] == "ref_count" and op == "add":
                v = self.key(w, fn, e, place[2])
                return [(frozenset(x for x in a if not (x[0] == "raw" and x[1] == v)), e, None)]
            if place[0] == "idx":
                base = fn.nodes[place[1]]
                if base and base["k"] == "mem" and base["f"].rsplit("::", 1)[-1] == "next":
                    own = self.key(w, fn, e, base["b"])
                    if own is None:
                        raise Budget(fn.name)
                    self.sites.add((fn.id, i))
                    held = set(x[0] for x in a if x[0] in ("R", "W") and x[1] == own)
                    if op == "load":
                        if not held:
                            self.bad("bare read", fn, n["l"], "a node's link is read without its lock")
                        elif ("valid", own) not in a:
                            self.bad("stale read", fn, n["l"], "a node's link is followed without checking, under its "
                                     "lock, that the node is still in the list")
                        t = lvalue(fn, av) if av is not None else None
                        var = t[1] if t and t[0] == "var" else None
                        if var:
                            a, e = self.overwrite(fn, a, e, var)
                            own = self.key(w, fn, e, base["b"])
                            e = dict(e)
                            e.pop(var, None)
                            return [(a | {("raw", var, own)}, e, None)]
                        return [(a, e, None)]
                    if "W" not in held and not self.single(fn, base["b"]):
                        self.bad("bare write", fn, n["l"], "a node's link is changed without its exclusive lock")
                    return [(a, e, None)]
            return None
        if k == "decl":
            a, e = self.assign(w, fn, a, e, n["v"], n.get("i"))
            return [(a, e, None)]
        if k == "asn":
            t = fn.nodes[n["a"]]
            if t["k"] == "ref" and t.get("v"):
                a, e = self.assign(w, fn, a, e, t["v"], n["b"] if n["op"] == "=" else None)
                return [(a, e, w.val(fn, e, nv, n["b"]) if n["op"] == "=" else None)]
            if t["k"] == "idx":
                arr = self.key(w, fn, e, t["a"])
                if arr:
                    if any(x[0] in ("R", "W") and x[1].startswith(arr + "[") for x in a):
                        raise Budget(fn.name)
                    e = dict((q, v) for q, v in e.items() if not (v is not None and v[0] == "is" and
                                                                v[1].startswith(arr + "[")))
                    return [(a, e, None)]
        if k == "incdec":
            t = fn.nodes[n["a"]]
            if t["k"] == "ref" and t.get("v"):
                old = e.get(t["v"])
                a, e = self.overwrite(fn, a, e, t["v"])
                new = fold("+", old, ("int", 1 if n["op"] == "++" else -1))
                e = dict(e)
                e[t["v"]] = new
                return [(a, e, old if n.get("post") else new)]
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] == "bin" and n["op"] in ("==", "!=") and want == (n["op"] == "=="):
            s = lvalue(fn, n["b"]) or lvalue(fn, n["a"])
            if s and s[0] == "field" and s[1] == "tail" and b.get("tk") == "DoStmt":
                return False        # a search never runs off the list
        return None

    def owns(self, fn, a):
        """Locks other than the one of a node not yet in the list."""
        ps = set(p["v"] for p in fn.params)
        return any(x[0] in ("R", "W") and x[1] not in ps for x in a)

    def single(self, fn, i):
        return False

    def leave(self, w, fn, a, e, val, line):
        held = [x for x in a if x[0] in ("R", "W")]
        if held:
            self.bad("leak", fn, line, "a node's lock is still held on return: every later access to the node waits for "
                     "ever")
        if any(x[0] == "raw" for x in a):
            pass
        return a


def mentions(key, var):
    import re
    return any(t == var for t in re.split(r"[\[\]]|\.(?=\D)", key))


def reads_flag(g):
    n = [x for x in (flag_of(g, m) for m in g.nodes if m) if x]
    return len(n) == 1 and n[0][1] == "is_fully_linked" and n[0][0] == "load" and len(g.params) == 1


def touches_lock(P, g, kinds):
    seen, work = set(), [g.id]
    while work:
        x = work.pop()
        if x in seen or x not in P.fns:
            continue
        if x in kinds:
            return True
        seen.add(x)
        for i, n in P.fns[x].calls():
            work += list(P.targets(n))
    return False


def locks_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("lock word: net change and tests after it on every path of the helpers; links are read under the node's "
                   "lock after a validity check and pinned before it is given up; links change under the exclusive lock; "
                   "every path gives its locks back")
    tab = lock_table(P)
    if not tab:
        R.coverage["undecided"] = 1
        return R
    kinds = {}
    units = set(abs(sum(y[1] for y in a if y[0] == "net")) for k, outs in tab.values() for a, l in outs)
    big = max(units) if units else 0
    for fid, (kind, outs) in sorted(tab.items()):
        f = P.fns[fid]
        R.functions.add(f.name)
        nets = set(sum(y[1] for y in a if y[0] == "net") for a, l in outs)
        R.obligations += 2
        ok = 0
        if len(nets) != 1 or 0 in nets:
            a, l = outs[0]
            R.add("%s|%s|unbalanced" % (pid, f.name), f.where(l), "%s: the lock word is changed by a different amount on "
                  "different paths" % f.name)
            continue
        net = nets.pop()
        ok += 1
        mode = "W" if abs(net) == big and len(units) > 1 else "R"
        kinds[fid] = (mode, net > 0)
        high, low = 0xffffffff & ~(big - 1), big - 1
        for a, l in outs:
            facts = [x for x in a if x[0] == "fact"]
            if net > 0:
                if mode == "R" and not any(m & high == high and c & high == 0 for _, m, c in facts):
                    R.add("%s|%s|entry" % (pid, f.name), f.where(l), "%s: shared access is granted without seeing, after "
                          "announcing it, that no writer is there" % f.name)
                    break
                if mode == "W" and not (any(m & high == high and c & high == big for _, m, c in facts) and
                                        any(m & low == low and c & low == 0 for _, m, c in facts)):
                    R.add("%s|%s|entry" % (pid, f.name), f.where(l), "%s: exclusive access is granted without seeing, after "
                          "announcing it, that there is no other writer and no reader left" % f.name)
                    break
        else:
            ok += 1
        R.discharged += ok
        R.samples.append("%s: lock word %+d" % (f.name, net))
    pairs = {}
    for fid, (k, outs) in tab.items():
        if fid in kinds:
            pairs.setdefault(abs(sum(y[1] for y in outs[0][0] if y[0] == "net")), set()).add(kinds[fid][1])
    for u, s in pairs.items():
        R.obligations += 1
        if s != {True, False}:
            f = P.fns[[fid for fid in tab][0]]
            R.add("%s|unit|%d" % (pid, u), f.where(f.line), "a lock word unit of %d is taken and given back by different "
                  "amounts" % u)
        else:
            R.discharged += 1
    for f in fns_of(P):
        if f.id in tab or not uses_links(P, f, kinds):
            continue
        r = Held(P, kinds)
        w = Walk(P, r, 200000)
        try:
            w.run(f.id, frozenset())
        except Budget:
            R.coverage["undecided"] = R.coverage.get("undecided", 0) + 1
            R.samples.append("%s: not followed" % f.name)
            for k, (where, msg) in sorted(r.bads.items()):      # found on paths that were followed
                R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
            continue
        R.functions.add(f.name)
        n = len(r.sites) + 1
        R.obligations += n
        R.discharged += n - min(n, len(r.bads))
        for k, (where, msg) in sorted(r.bads.items()):
            R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
        for x in sorted(r.sites)[:3]:
            R.samples.append("link access at %s" % f.where(f.nodes[x[1]]["l"]))
    return R


def uses_links(P, f, kinds):
    for n in f.nodes:
        if not n:
            continue
        if n["k"] == "call" and any(t in kinds for t in P.targets(n)):
            return True
        at = atomic(f, n)
        if at and at[1] and at[1][0] == "idx":
            b = f.nodes[at[1][1]]
            if b and b["k"] == "mem" and b["f"].rsplit("::", 1)[-1] == "next":
                return True
    return False


# ---- users of the lists ----------------------------------------------------------------
GETTERS_OUT = (FILE,)
NODE_T = NODE + " *"


def node_ptr(t):
    return (t or "").replace("const ", "").rstrip() in (NODE_T, NODE_T + "const")


class Users(Refs):
    def __init__(self, P):
        super().__init__(P)
        self.closing = False

    def inline(self, f):
        return f.file != FILE and f.file.startswith("src/") and \
            (node_ptr(f.ret) or any(node_ptr(p["t"]) for p in f.params) or entry_getter(self.P, f))

    def keep(self, k):
        return k.startswith("this.")

    def live_tok(self, a, e, v):
        return v is not None and v[0] == "t"

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "ref" and n.get("v"):
            return env.get(n["v"])
        if n["k"] == "mem" and n.get("b") is not None:
            b = fn.nodes[n["b"]]
            if b and b["k"] == "this" and node_ptr(n.get("t")):
                return env.get("this." + n["f"])
            return None
        if n["k"] == "bin" and n["op"] == "-":
            v = w.val(fn, env, nv, n["a"])
            if v is not None and v[0] in ("t", "null", "ptr"):
                return v
            return None
        if n["k"] == "un" and n["op"] == "&":
            p = fn.nodes[n["a"]]
            if p and p["k"] == "mem" and p.get("t") == NODE:
                return w.val(fn, env, nv, p["b"])
            return None
        return None

    def canon(self, w, fn, a, e):
        # what is known about nodes no longer referenced is dropped
        held = set(x[1] for x in a if x[0] == "ref") | self.context()
        keep = set(v[1] for v in e.values() if v is not None and v[0] == "t")
        a = frozenset(x for x in a if x[0] != "gone" or x[1] in keep)
        base = self.context()
        order, nxt = {}, 0
        toks = [e[k][1] for k in sorted(e) if e[k] is not None and e[k][0] == "t"]
        toks += sorted(x[1] for x in a if x[0] in ("ref", "gone"))
        for t in toks:
            if t not in base and t not in order:
                while nxt in base:
                    nxt += 1
                order[t] = nxt
                nxt += 1
        a = frozenset((x[0], order.get(x[1], x[1])) + tuple(x[2:]) if x[0] in ("ref", "gone") else x for x in a)
        e = dict((k, ("t", order.get(v[1], v[1])) if v is not None and v[0] == "t" else v) for k, v in e.items())
        return a, e

    def new(self, a, e):
        used = set(x[1] for x in a if x[0] in ("ref", "gone"))
        used |= set(v[1] for v in e.values() if v is not None and v[0] == "t") | self.context()
        k = 0
        while k in used:
            k += 1
        return k

    def member(self, fn, n):
        if n and n["k"] == "mem" and n.get("b") is not None and node_ptr(n.get("t")):
            b = fn.nodes[n["b"]]
            if b and b["k"] == "this":
                return "this." + n["f"]
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        m = self.member(fn, n)
        if m and m not in e:
            if fn.is_ctor or i in self.targets_of(fn):
                return None
            t = self.new(a, e)
            return [(a, dict(e, **{m: ("null",)}), None), (self.setc(a, t, 1), dict(e, **{m: ("t", t)}), None)]
        if k == "asn" and n["op"] == "=":
            m = self.member(fn, fn.nodes[n["a"]])
            if m:
                v = w.val(fn, e, nv, n["b"])
                if v is not None and v[0] == "t" and self.count(a, v[1]) == 0:
                    self.bad("kept", fn, n["l"], "a list node is kept without a reference: it can be freed while in use")
                return [(a, dict(e, **{m: v}), v)]
            return None
        if k == "decl" and n["v"] in self.swept(fn) and "i" in n:
            for j in subtree(fn, n["i"]):
                if fn.nodes[j]["k"] == "ref":
                    v = e.get(fn.nodes[j].get("v"))
                    if v is not None and v[0] == "t":
                        a = self.setc(a, v[1], 0)
            return [(a, e, None)]
        if k == "del":
            v = w.val(fn, e, nv, n["a"]) if isinstance(n.get("a"), int) else None
            if v is not None and v[0] == "t":
                self.sites.add((fn.id, i))
                if ("gone", v[1]) in a:
                    self.bad("freed early", fn, n["l"], "an element taken out of a list is freed without waiting for the "
                             "operations still using it")
                return [(self.setc(a, v[1], 0), e, None)]
            return None
        if k != "call":
            return None
        nm = n.get("n", "")
        if nm in PRIMITIVE:
            return self.touch(w, fn, i, n, a, e, nv, n["args"][-1], "add" if nm.endswith("grab_node") else "sub")
        ids = list(self.P.targets(n))
        f = self.P.fns.get(ids[0]) if len(ids) == 1 else None
        if f is None:
            return None
        if f.file == FILE:
            if f.name == "skiplist_erase_node":
                v = w.val(fn, e, nv, n["args"][1])
                if v is not None and v[0] == "t":
                    self.sites.add((fn.id, i))
                    return [(a | {("gone", v[1])}, e, None)]
            if f.name == "skiplist_wait_for_free":
                v = w.val(fn, e, nv, n["args"][0])
                if v is not None and v[0] == "t":
                    self.sites.add((fn.id, i))
                    if self.count(a, v[1]):
                        self.bad("waits for itself", fn, n["l"], "a thread waits for an element to be unused while it "
                                 "holds a reference to it itself")
                    return [(a - {("gone", v[1])}, e, None)]
            if ret_is_node(f):
                self.sites.add((fn.id, i))
                t = self.new(a, e)
                return [(a, e, ("null",)), (self.setc(a, t, 1), e, ("t", t))]
            return None
        if self.inline(f) and f.id not in w.stack:
            mem = {q: v for q, v in e.items() if q.startswith("this.")}
            if any(is_mem_of_this(f, x) for x in f.nodes if x) and mem:
                raise Budget(fn.name)
            self.frames.append(frozenset(v[1] for v in e.values() if v is not None and v[0] == "t") |
                               frozenset(x[1] for x in a if x[0] in ("ref", "gone")))
            args = tuple(w.val(fn, e, nv, x) for x in n["args"])
            out = []
            for a2, v in w.run(f.id, a, args):
                e2 = dict(e)
                self.clear_out(fn, n, e2)
                out.append((a2, e2, v))
            self.frames.pop()
            return out
        # a call that may replace the cursor of this object
        obj = fn.nodes[n["obj"]] if isinstance(n.get("obj"), int) else None
        if obj and obj["k"] == "this" or obj and obj["k"] == "mem" and fn.nodes[obj["b"]] and \
                fn.nodes[obj["b"]]["k"] == "this" and obj.get("meth"):
            if any(q.startswith("this.") for q in e) and any(is_mem_of_this(f, x) for x in f.nodes if x):
                a2, e2 = a, dict(e)
                for q in list(e2):
                    if q.startswith("this."):
                        v = e2.pop(q)
                        if v is not None and v[0] == "t":
                            a2 = self.setc(a2, v[1], 0)
                return [(a2, e2, None)]
        return None

    def targets_of(self, fn):
        c = fn._extra.get("lhs")
        if c is None:
            c = fn._extra["lhs"] = set(n["a"] for n in fn.nodes if n and n["k"] == "asn" and n["op"] == "=")
        return c

    def swept(self, fn):
        """Braced lists of nodes whose elements a loop releases: {decl node}."""
        c = fn._extra.get("swept")
        if c is None:
            c = set()
            loop = set()
            for i, n in fn.calls():
                if n.get("n") in PRIMITIVE:
                    for j in subtree(fn, i):
                        if fn.nodes[j]["k"] == "ref":
                            loop.add(fn.nodes[j].get("v"))
            for n in fn.nodes:
                if n and n["k"] == "decl" and "i" in n and n["v"] in loop:
                    refs = [fn.nodes[j].get("v") or "" for j in subtree(fn, n["i"]) if fn.nodes[j]["k"] == "ref"]
                    for m in fn.nodes:
                        if m and m["k"] == "decl" and m["v"].startswith("__range") and any(
                                x.startswith("__begin") for x in refs):
                            c.add(m["v"])
            fn._extra["swept"] = c
        return c

    def touch(self, w, fn, i, n, a, e, nv, node, op):
        v = w.val(fn, e, nv, node)
        self.sites.add((fn.id, i))
        if v is not None and v[0] == "null":
            self.bad("null", fn, n["l"], "a reference is released through a null cursor")
            return []
        if v is None or v[0] == "ptr":
            return [(a, e, None)]
        if v[0] == "t" and op == "sub":
            a, e = self.release(fn, n, a, e, v)
            return [(a, e, None)]
        r = self.acquire(fn, n, a, e, v, None)
        return [] if r is None else [(r[0], r[1], None)]

    def branch(self, w, fn, tc, want, a, e, nv, b):
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn.id != self.top:
            return a
        kept = set(v[1] for q, v in e.items() if q.startswith("this.") and v is not None and v[0] == "t")
        for q, v in e.items():
            if q.startswith("this.") and v is not None and v[0] == "t" and self.count(a, v[1]) == 0 and \
                    not fn.name.rsplit("::", 1)[-1].startswith("~"):
                self.bad("kept", fn, line, "the object keeps a cursor whose reference was released: it can be freed while "
                         "in use")
        for x in a:
            if x[0] != "ref":
                continue
            if x[1] in kept and x[2] == 1 and not fn.name.rsplit("::", 1)[-1].startswith("~"):
                continue
            if val is not None and val == ("t", x[1]) and x[2] == 1:
                continue
            self.bad("leak", fn, line, "a reference to a list element is never released: waiting for the element to be "
                     "unused never ends")
        return a


def is_mem_of_this(f, n):
    if n["k"] == "mem" and node_ptr(n.get("t")) and n.get("b") is not None:
        b = f.nodes[n["b"]]
        return bool(b and b["k"] == "this")
    return False


def entry_getter(P, f):
    """Hands out an element found in a list (pointer result)."""
    c = f._extra.get("eg")
    if c is None:
        c = False
        if f.ret and f.ret.rstrip().endswith("*") and not f.is_lambda:
            c = any(n.get("n", "").startswith("skiplist_") for i, n in f.calls())
        f._extra["eg"] = c
    return c


def users_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("reference tokens over every path of the code that walks the lists: each reference obtained is released "
                   "once, returned, or kept as the object's cursor; removed elements are freed only after the wait")
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.file == FILE or f.file == "src/skiplist.h":
            continue
        if not any(n.get("n", "").startswith("skiplist_") for i, n in f.calls()):
            continue
        r = Users(P)
        r.top = f.id
        w = Walk(P, r, 80000)
        node_params = any(node_ptr(p["t"]) for p in f.params)
        try:
            w.run(f.id, frozenset(), tuple(("ptr", p["n"]) if node_ptr(p["t"]) else None for p in f.params))
        except Budget:
            R.coverage["undecided"] = R.coverage.get("undecided", 0) + 1
            R.samples.append("%s: not followed" % f.name)
            for k, (where, msg) in sorted(r.bads.items()):      # found on paths that were followed
                R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
            continue
        if not r.sites:
            continue
        R.functions.add(f.name)
        n = len(r.sites) + 1
        R.obligations += n
        R.discharged += n - min(n, len(r.bads))
        for k, (where, msg) in sorted(r.bads.items()):
            R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))
        if not node_params:
            x = sorted(r.sites)[0]
            g = P.fns[x[0]]
            R.samples.append("list reference at %s" % g.where(g.nodes[x[1]]["l"]))
    return R


# ---- when a node may be freed ------------------------------------------------------------
NEED = {"accessing_next": False, "being_modified": False, "removed": True, "ref_count": False}


class Safe(Base):
    def inline(self, f):
        return f.file == FILE

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "mem" and n["f"].rsplit("::", 1)[-1] in NEED:
            v = w.val(fn, env, nv, n["b"])
            if v is not None and v[0] == "ptr":
                return ("fld", n["f"].rsplit("::", 1)[-1])
        if n["k"] == "x" and n.get("aop", "").startswith("load"):
            at = atomic(fn, n)
            if at and at[1] and at[1][0] == "field" and at[1][1] in NEED:
                return ("fld", at[1][1])
        if n["k"] == "ref" and n.get("v"):
            return env.get(n["v"])
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        at = atomic(fn, n)
        if at and at[0] == "load" and at[1] and at[1][0] == "field" and at[1][1] in NEED:
            t = lvalue(fn, at[2]) if at[2] is not None else None
            e = dict(e)
            if t and t[0] == "var":
                e[t[1]] = ("fld", at[1][1])
            return [(a, e, ("fld", at[1][1]))]
        if n["k"] == "ret" and n.get("v") is not None and n["v"] >= 0:
            return None
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            tc = n["a"]
            n = fn.nodes[tc]
        v = w.val(fn, e, nv, tc)
        if v is None and n and n["k"] == "bin" and n["op"] in ("==", "!=", ">"):
            c = fn.nodes[n["b"]].get("cv")
            x = w.val(fn, e, nv, n["a"])
            if c in (0, 1) and x is not None and x[0] == "fld":
                v = x
                want = want == ((n["op"] == "==") == bool(c)) if n["op"] != ">" else want
        if v is not None and v[0] == "fld":
            return (a - {(v[1], not want)}) | {(v[1], want)}
        return None

    def leave(self, w, fn, a, e, val, line):
        return a


def truthy_ret(v):
    return truth(v)


def safe_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("the predicate that allows freeing a node answers yes only on paths that saw no access, no modification, no "
                   "reference and the removal mark; the wait returns only after it answered yes; users wait before they free")
    preds = [f for f in fns_of(P) if f.name == "skiplist_is_safe_to_free"]
    waits = [f for f in fns_of(P) if f.name == "skiplist_wait_for_free"]
    for f in preds:
        r = Safe(P)
        w = Walk(P, r, 20000)
        try:
            outs = w.run(f.id, frozenset(), tuple(("ptr", p["n"]) for p in f.params))
        except Budget:
            R.coverage["undecided"] = 1
            continue
        R.functions.add(f.name)
        for fld, want in sorted(NEED.items()):
            R.obligations += 1
            miss = [(a, v) for a, v in outs if truth(v) is not False and (fld, want) not in a]
            if any(v is not None and v[0] == "fld" or v is None for a, v in miss):
                # the answer is an expression over the state: what it depends on decides
                vs = set(v for a, v in miss)
                if None in vs:
                    R.coverage["undecided"] = R.coverage.get("undecided", 0) + 1
                    continue
            if miss:
                R.add("%s|%s|%s" % (pid, f.name, fld), f.where(f.line), "%s: a node can be declared free to delete although "
                      "%s says otherwise" % (f.name, {"accessing_next": "somebody is following its links",
                      "being_modified": "it is being modified", "removed": "it is still in the list (removal mark)",
                      "ref_count": "its reference count"}[fld]))
            else:
                R.discharged += 1
                R.samples.append("%s: yes implies %s%s" % (f.name, "" if want else "no ", fld))
    for f in waits:
        r = Safe(P)
        w = Walk(P, r, 20000)
        try:
            outs = w.run(f.id, frozenset(), tuple(("ptr", p["n"]) for p in f.params))
        except Budget:
            continue
        R.functions.add(f.name)
        R.obligations += 1
        if any((fld, want) not in a for a, v in outs for fld, want in NEED.items()):
            R.add("%s|%s|early" % (pid, f.name), f.where(f.line), "%s: the wait can end before the node is unused" % f.name)
        else:
            R.discharged += 1
    S = users_rule(P, pid, quick)
    for x in S.findings:
        if x.key.endswith("|freed early") or x.key.endswith("|waits for itself"):
            R.findings.append(x)
    R.functions |= S.functions
    R.obligations += len(S.functions)
    R.discharged += len(S.functions) - len([x for x in R.findings if "freed early" in x.key])
    return R
