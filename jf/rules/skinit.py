"""Start states of the skip list: a new element is unlinked, unclaimed and
unreferenced with links for all its layers; a new list is its two ends joined
on every layer; the layer drawn for an element exists in the list."""
from ..cwalk import Walk, Budget, atomic, lvalue, truth, fold
from .skiplist import FILE, NODE, Base, fns_of

NUM = ("is_fully_linked", "being_modified", "removed", "ref_count", "accessing_next")


class Init(Base):
    """auto: ("at", object, field, value) what a field is known to hold."""

    def __init__(self, P):
        super().__init__(P)
        self.auto = frozenset()

    def inline(self, f):
        return f.file == FILE

    def get(self, a, o, f):
        for x in a:
            if x[0] == "at" and x[1] == o and x[2] == f:
                return x[3]
        return None

    def put(self, a, o, f, v):
        a = frozenset(x for x in a if not (x[0] == "at" and x[1] == o and x[2] == f))
        return a | {("at", o, f, v)} if v is not None else a

    def obj(self, w, fn, e, nv, i):
        """The object an expression (or a pointer) denotes."""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if not n:
            return None
        if n["k"] == "mem" and n["f"].rsplit("::", 1)[-1] in ("head", "tail") and "*" not in n["t"]:
            return "H" if n["f"].endswith("head") else "T"
        if n["k"] == "un" and n["op"] in ("*", "&"):
            return self.obj(w, fn, e, nv, n["a"])
        if n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            return self.obj(w, fn, e, nv, n["args"][0])
        v = w.val(fn, e, nv, i)
        return v[1] if v is not None and v[0] == "obj" else None

    def field(self, w, fn, e, nv, i):
        """(object, field) of a member expression, or (object, 'next[]')."""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            i = n["args"][0]
            n = fn.nodes[i]
        if n and n["k"] == "mem":
            o = self.obj(w, fn, e, nv, n["b"])
            return (o, n["f"].rsplit("::", 1)[-1]) if o else None
        if n and n["k"] == "idx":
            p = self.field(w, fn, e, nv, n["a"])
            return (p[0], p[1] + "[]") if p else None
        return None

    def value(self, w, fn, env, nv, i, n):
        k = n["k"]
        if k == "un" and n["op"] == "&":
            o = self.obj(w, fn, env, nv, n["a"])
            if o in ("H", "T"):
                return ("obj", o)
        if k == "mem":
            p = self.field(w, fn, env, nv, i)
            if p:
                return self.get(self.auto, *p)
        if k == "ref" and n.get("v") and n["v"] in env:
            return env[n["v"]]
        if k == "bin" and n["op"] in ("+", "-"):
            x, y = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if x is not None and x[0] == "top" and y is not None and y[0] == "int":
                return ("top", x[1] + (y[1] if n["op"] == "+" else -y[1]))
        if k == "bin" and n["op"] in ("==", "!="):
            x, y = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if x is not None and y is not None:
                z = ("null",), ("int", 0)
                if x[0] in ("links", "old") and y in z or y[0] in ("links", "old") and x in z:
                    return ("int", 1 if n["op"] == "!=" else 0)
                if x in z and y in z:
                    return ("int", 1 if n["op"] == "==" else 0)
                if x[0] == y[0] == "top":
                    return ("int", 1 if (x == y) == (n["op"] == "==") else 0)
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        self.auto = a
        k = n["k"]
        if k == "call" and n.get("n") in ("calloc", "malloc"):
            v = [w.val(fn, e, nv, x) for x in n["args"]]
            c = v[0] if v else None
            self.sites.add((fn.id, i))
            return [(a, e, ("links", c) if c is not None else None)]
        if k == "call" and n.get("n") == "free":
            p = self.field(w, fn, e, nv, n["args"][0])
            return [(a | {("freed",) + p} if p else a, e, None)]
        if k == "asn" and n["op"] == "=":
            p = self.field(w, fn, e, nv, n["a"])
            if p:
                self.sites.add((fn.id, i))
                v = w.val(fn, e, nv, n["b"])
                b = fn.nodes[n["b"]]
                if v is None and b and (b.get("null") or b.get("cv") == 0):
                    v = ("int", 0)
                if v == ("null",):
                    v = ("int", 0)
                self.store(fn, n, a, p, v)
                return [(self.put(a, p[0], p[1], v), e, v)]
        at = atomic(fn, n)
        if at and at[0] == "store" and at[1]:
            if at[1][0] == "field":
                o = self.obj(w, fn, e, nv, at[1][2])
                p = (o, at[1][1]) if o else None
            elif at[1][0] == "idx":
                p = self.field(w, fn, e, nv, at[1][1])
                p = (p[0], p[1] + "[]") if p else None
            else:
                p = None
            if p:
                self.sites.add((fn.id, i))
                av = fn.nodes[at[2]]
                v = w.val(fn, e, nv, av["a"] if av and av["k"] == "un" and av["op"] == "&" else at[2])
                v = ("int", 0) if v == ("null",) else v
                self.store(fn, n, a, p, v)
                return [(self.put(a, p[0], p[1], v), e, None)]
        return None

    def store(self, fn, n, a, p, v):
        old = self.get(a, *p)
        if p[1] == "next" and ("freed",) + p not in a and (old is not None and old[0] in ("links", "old") or
                                                           old is None and v is not None and v[0] == "links"):
            self.bad("leaks", fn, n["l"], "the links an element had are replaced without being freed")

    def branch(self, w, fn, tc, want, a, e, nv, b):
        self.auto = a
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            tc = n["a"]
            n = fn.nodes[tc]
        if n and n["k"] == "bin" and n["op"] in ("==", "!="):
            eq = want == (n["op"] == "==")
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                p, v = self.field(w, fn, e, nv, x), w.val(fn, e, nv, y)
                if p and self.get(a, *p) is None:
                    null = v in (("null",), ("int", 0)) or fn.nodes[y].get("null")
                    if p[1] == "next":
                        if null:
                            return self.put(a, p[0], p[1], ("int", 0) if eq else ("old",))
                    elif eq and v is not None:
                        return self.put(a, p[0], p[1], v)
            return None
        p = self.field(w, fn, e, nv, tc) if n else None
        if p and p[1] == "next" and self.get(a, *p) is None:
            return self.put(a, p[0], p[1], ("old",) if want else ("int", 0))
        return None


class Draw(Base):
    """auto: ("room", v, c): v + c is below the number of layers."""

    def __init__(self, P):
        super().__init__(P)
        self.und = False

    def lin(self, fn, i):
        """(variable or 'max', constant)"""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            n = fn.nodes[n["args"][0]]
        if not n:
            return None
        if n["k"] == "mem" and n["f"].endswith("::max_layer"):
            return ("max", 0)
        if n["k"] == "ref" and n.get("v"):
            for d in fn.nodes:      # a local copy of the number of layers
                if d and d["k"] == "decl" and d.get("v") == n["v"] and d.get("i") is not None:
                    m = self.lin(fn, d["i"]) if fn.nodes[d["i"]].get("v") != n["v"] else None
                    if m and m[0] == "max":
                        return m
            return (n["v"], 0)
        if n["k"] == "bin" and n["op"] in ("+", "-"):
            x, y = self.lin(fn, n["a"]), self.lin(fn, n["b"])
            cx, cy = fn.nodes[n["a"]].get("cv"), fn.nodes[n["b"]].get("cv")
            if x and cy is not None:
                return (x[0], x[1] + (cy if n["op"] == "+" else -cy))
            if y and cx is not None and n["op"] == "+":
                return (y[0], y[1] + cx)
        return None

    def room(self, a, v):
        return max([x[2] for x in a if x[0] == "room" and x[1] == v], default=None)

    def shift(self, a, v, d):
        c = self.room(a, v)
        a = frozenset(x for x in a if not (x[0] == "room" and x[1] == v))
        return a | {("room", v, c - d)} if c is not None and c - d >= -3 else a

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "decl" and n.get("i") is not None or k == "asn" and n["op"] == "=":
            v = n["v"] if k == "decl" else fn.nodes[n["a"]].get("v") if fn.nodes[n["a"]]["k"] == "ref" else None
            src = n.get("i") if k == "decl" else n["b"]
            if v:
                a2 = frozenset(x for x in a if not (x[0] == "room" and x[1] == v))
                s = self.lin(fn, src)
                if fn.nodes[src].get("cv") == 0:
                    a2 |= {("room", v, 0)}
                elif s and s[0] not in ("max",) and self.room(a, s[0]) is not None:
                    a2 |= {("room", v, self.room(a, s[0]) - s[1])}
                elif s and s[0] == "max" and s[1] < 0:
                    a2 |= {("room", v, -s[1] - 1)}
                return [(a2, {**e, v: None}, None)]
        if k == "incdec" or k == "asn" and n["op"] in ("+=", "-="):
            t = fn.nodes[n["a"]]
            if t["k"] == "ref" and t.get("v"):
                d = 1 if k == "incdec" else fn.nodes[n["b"]].get("cv")
                if d is None:
                    return [(frozenset(x for x in a if not (x[0] == "room" and x[1] == t["v"])), e, None)]
                return [(self.shift(a, t["v"], d if n["op"] in ("++", "+=") else -d), {**e, t["v"]: None}, None)]
        return None

    def value(self, w, fn, env, nv, i, n):
        if n["k"] in ("ref", "bin", "mem") and "cv" not in n and fn.id == self.top:
            s = self.lin(fn, i)
            if s:
                return ("lin",) + s
        return None

    def leave(self, w, fn, a, e, val, line):
        if fn.id != self.top:
            return a
        self.sites.add((fn.id, line))
        if val is None or val[0] not in ("lin", "int"):
            self.und = True
        elif val[0] == "lin" and val[1] == "max":
            if val[2] >= 0:
                self.bad("layer", fn, line, "the layer drawn may not exist in the list")
        elif val[0] == "lin" and (self.room(a, val[1]) is None or self.room(a, val[1]) < val[2]):
            self.bad("layer", fn, line, "the layer drawn may not exist in the list")
        elif val[0] == "int" and val[1] > 0:
            self.und = True
        return a

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if not n or n["k"] != "bin" or n["op"] not in ("<", "<=", ">", ">=", "!=", "=="):
            return a
        x, y, op = self.lin(fn, n["a"]), self.lin(fn, n["b"]), n["op"]
        if not x or not y:
            return a
        if x[0] == "max":
            x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if y[0] != "max" or x[0] == "max":
            return a
        if op in (">", ">="):
            want, op = not want, {">": "<=", ">=": "<"}[op]
        v, c = x[0], x[1] - y[1]
        if op == "==":
            want, op = not want, "!="
        if op == "!=" and want:
            # one further than known
            r = self.room(a, v)
            return a | {("room", v, c)} if r is not None and r >= c - 1 else a
        if op in ("<", "<=") and want:
            return frozenset(z for z in a if not (z[0] == "room" and z[1] == v and z[2] <= c)) | \
                {("room", v, c - (1 if op == "<=" else 0))}
        return a


def init_rule(P, R, pid):
    und = []
    for f in fns_of(P):
        node = [p for p in f.params if NODE in p["t"]]
        if f.name == "skiplist_init_node" and len(node) == 1:
            go(P, R, pid, f, (("obj", "Q"),), lambda r, a: empty(r, a, "Q", f) +
               ([] if r.get(a, "Q", "next") == ("int", 0) else ["its links are not cleared"]), und)
        elif any(True for p in node) and len(f.params) == 2 and f.ret == "void" and writes(f, ("next",)) and any("long" in p["t"] or "int" in p["t"] for p in f.params):
            go(P, R, pid, f, (("obj", "Q"), ("top", 0)), lambda r, a: ready(r, a, f), und)
        elif f.name == "skiplist_init":
            go(P, R, pid, f, (("obj", "L"), ("cmp",)), lambda r, a: newlist(r, a, f), und)
        elif f.ret in ("unsigned long", "size_t", "int") and any(n and n["k"] == "call" and n.get("n") == "rand" for n in f.nodes):
            r = Draw(P)
            r.top = f.id
            w = Walk(P, r, 5000)
            try:
                w.run(f.id, frozenset(), tuple(("ptr", p["n"]) for p in f.params))
            except Budget:
                und.append(f.name)
                continue
            if r.und:
                und.append("%s: the layer drawn is not followed" % f.name)
            report(P, R, pid, f, r, len(r.sites))
    return und


def writes(f, names):
    got = set()
    for n in f.nodes:
        if n and n["k"] == "asn" and f.nodes[n["a"]]["k"] == "mem":
            got.add(f.nodes[n["a"]]["f"].rsplit("::", 1)[-1])
    return set(names) <= got


def empty(r, a, o, f):
    out = []
    for x in NUM:
        v = r.get(a, o, x)
        if v != ("int", 0):
            out.append("%s is not reset" % x)
    return out


def ready(r, a, f):
    out = ["%s is not reset" % x for x in NUM[:3] if r.get(a, "Q", x) != ("int", 0)]
    tl = r.get(a, "Q", "top_layer")
    if tl == ("pos",):
        return out
    if tl is None or tl != ("top", 0) and tl[0] != "int":       # a constant: the cap on absurd values
        out.append("its top layer is not the one drawn")
        return out
    nx = r.get(a, "Q", "next")
    ok = nx == ("old",) or nx is not None and nx[0] == "links" and nx[1] is not None and nx[1][0] == tl[0] and nx[1][1] > tl[1]
    if not ok and not (nx is None):
        out.append("it has fewer links than layers")
    return out


def newlist(r, a, f):
    out = []
    for o in "HT":
        if r.get(a, o, "is_fully_linked") != ("int", 1):
            out.append("an end of the list is not marked linked")
        out += ["%s of an end is not reset" % x for x in NUM[1:] if r.get(a, o, x) != ("int", 0)]
        nx, mx = r.get(a, o, "next"), r.get(a, "L", "max_layer")
        if nx is None or nx[0] != "links":
            out.append("an end has no links")
        elif nx[1] is not None and mx is not None and nx[1][0] == mx[0] == "int" and nx[1][1] < mx[1]:
            out.append("an end has fewer links than the list has layers")
    if r.get(a, "H", "next[]") not in (("obj", "T"),):
        out.append("the two ends are not joined")
    for x in ("num_entries", "top_layer"):
        if r.get(a, "L", x) != ("int", 0):
            out.append("%s does not start at zero" % x)
    if r.get(a, "L", "cmp_func") != ("cmp",):
        out.append("the comparison is not kept")
    le, mx = r.get(a, "L", "layer_entries"), r.get(a, "L", "max_layer")
    if le is None or le[0] != "links" or le[1] is not None and mx is not None and le[1][0] == mx[0] == "int" and le[1][1] < mx[1]:
        out.append("the counts per layer do not cover all layers")
    return out


def go(P, R, pid, f, args, judge, und):
    r = Init(P)
    r.top = f.id
    w = Walk(P, r, 20000)
    try:
        outs = w.run(f.id, frozenset(), args)
    except Budget:
        und.append(f.name)
        return
    judged = 0
    for a, v in sorted(outs, key=repr):
        if any(x[0] == "at" and x[1] == "L" for x in a) and r.get(a, "H", "next[]") is None and \
                any(r.get(b, "H", "next[]") is not None for b, _ in outs):
            continue        # the loop over the layers runs at least once
        judged += 1
        for m in judge(r, a):
            r.bad(m, f, f.line, "after initialisation " + m)
    report(P, R, pid, f, r, len(r.sites) + judged)


def report(P, R, pid, f, r, n):
    R.functions.add(f.name)
    R.obligations += n
    R.discharged += n - min(n, len(r.bads))
    for k, (where, msg) in sorted(r.bads.items()):
        R.add("%s|%s|%s" % (pid, f.name, k), where, "%s: %s" % (f.name, msg))


def init_check(P, pid, quick=True):
    from ..core import Result
    R = Result()
    R.rules.append("field values after initialisation on every path; the layer drawn is below the number of layers")
    R.coverage["undecided_init"] = init_rule(P, R, pid)
    return R
