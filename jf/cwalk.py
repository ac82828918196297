"""Small path explorer for the C parts (skip list, tree): one function at a
time, helpers of the same file inlined, abstract values chosen by the rule."""


class Budget(Exception):
    pass


class Walk:
    def __init__(self, P, rule, limit=60000):
        self.P = P
        self.rule = rule
        self.limit = limit
        self.memo = {}
        self.stack = []
        self.steps = 0
        self.paths = 0

    # -- values -----------------------------------------------------------------
    def val(self, fn, env, nv, i):
        if i is None or i < 0:
            return None
        if i in nv:
            return nv[i]
        if "@%d" % i in env:
            v = env["@%d" % i]
            return None if v == ("?",) else v
        n = fn.nodes[i]
        if n is None:
            return None
        v = self.rule.value(self, fn, env, nv, i, n)
        if v is not None:
            return v
        k = n["k"]
        if n.get("null"):
            return ("null",)
        if "cv" in n:
            return ("int", n["cv"])
        if k == "ref" and n.get("v"):
            return env.get(n["v"])
        if k == "cond":
            arms = [env["@%d" % n[x]] for x in ("a", "b") if "@%d" % n[x] in env]
            return arms[0] if len(arms) == 1 and arms[0] != ("?",) else None
        if k == "un" and n["op"] == "!":
            t = truth(self.val(fn, env, nv, n["a"]))
            return None if t is None else ("int", 0 if t else 1)
        if k == "asn":
            return self.val(fn, env, nv, n["b"])
        if k == "bin":
            a, b = self.val(fn, env, nv, n["a"]), self.val(fn, env, nv, n["b"])
            if n["op"] in ("&&", "||"):
                ta, tb = truth(a), truth(b)
                stop = n["op"] == "||"
                if ta is stop or tb is stop:
                    return ("int", 1 if stop else 0)
                return None if None in (ta, tb) else ("int", 0 if stop else 1)
            return fold(n["op"], a, b)
        if k in ("x", "cast", "paren") and len(n.get("args", ())) == 1 and not n.get("aop"):
            return self.val(fn, env, nv, n["args"][0])
        return None

    # -- execution ---------------------------------------------------------------
    def run(self, fid, auto, args=()):
        """Outcomes {(auto, return value)} of calling function fid."""
        key = (fid, auto, args, self.rule.context())
        if key in self.memo:
            return self.memo[key]
        fn = self.P.fns[fid]
        self.stack.append(fid)
        env = {}
        for p, v in zip(fn.params, args):
            if v is not None:
                env[p["v"]] = v
        auto = self.rule.enter(self, fn, auto, env)
        out = {}
        seen = set()
        work = [(fn.entry, auto, frozenset(env.items()))]
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            self.steps += 1
            if self.steps > self.limit:
                raise Budget(fn.name)
            bid, a, e = st
            b = fn.blocks[bid]
            if bid == fn.exit:
                continue
            for a2, e2, nv, ret in self.block(fn, b, a, dict(e)):
                if ret is not None:
                    a3 = self.rule.leave(self, fn, a2, e2, ret[0], ret[1])
                    out.setdefault((a3, ret[0]), ret[1])
                    self.paths += 1
                    continue
                if b.get("noret"):
                    continue
                for s, a3, e3 in self.succ(fn, b, a2, e2, nv):
                    if s == fn.exit:
                        a4 = self.rule.leave(self, fn, a3, e3, None, fn.line)
                        out.setdefault((a4, None), fn.line)
                        self.paths += 1
                    elif s >= 0:
                        lv_in = self.live(fn)[s]
                        e3 = dict((k, widen(v)) for k, v in e3.items() if k in lv_in or k[0] == "@" or self.rule.keep(k))
                        a3, e3 = self.rule.canon(self, fn, a3, e3)
                        work.append((s, a3, frozenset((k, v) for k, v in e3.items() if v is not None)))
        self.stack.pop()
        res = sorted(out, key=repr)
        self.memo[key] = res
        return res

    def live(self, fn):
        """Locals that may be read at the start of each block."""
        c = fn._extra.get("live")
        if c is not None:
            return c
        use, kill = {}, {}
        for bid, b in fn.blocks.items():
            u, k = set(), set()
            order = list(b["e"]) + ([b["tc"]] if b.get("tc") is not None else [])
            tgt = set()
            for i in order:
                for j in subtree(fn, i):
                    n = fn.nodes[j]
                    if n["k"] == "asn" and n["op"] == "=" and fn.nodes[n["a"]]["k"] == "ref":
                        tgt.add(n["a"])
            done = set()
            for i in order:
                for j in subtree(fn, i):
                    n = fn.nodes[j]
                    if n["k"] == "ref" and n.get("v") and j not in tgt and n["v"] not in k and j not in done:
                        u.add(n["v"])
                    done.add(j)
                n = fn.nodes[i]
                if n["k"] == "decl":
                    k.add(n["v"])
                elif n["k"] == "asn" and n["a"] in tgt:
                    k.add(fn.nodes[n["a"]]["v"])
            use[bid], kill[bid] = u, k
        live = dict((b, set(use[b])) for b in fn.blocks)
        ch = True
        while ch:
            ch = False
            for bid, b in fn.blocks.items():
                o = set()
                for s in b["s"]:
                    if s >= 0:
                        o |= live[s]
                x = use[bid] | (o - kill[bid])
                if x != live[bid]:
                    live[bid] = x
                    ch = True
        # an address that escapes keeps its variable alive
        esc = set()
        for n in fn.nodes:
            if n and n["k"] == "lambda":
                esc |= set(v for v in (m.get("v") for m in fn.nodes if m and m["k"] == "ref") if v)
        for b in live:
            live[b] |= esc
        fn._extra["live"] = live
        return live

    def block(self, fn, b, auto, env):
        states = [(auto, env, {})]
        done = []
        for i in b["e"]:
            n = fn.nodes[i]
            nxt = []
            for a, e, nv in states:
                if n["k"] == "ret":
                    self.rule.auto = a
                    v = self.val(fn, e, nv, n["v"]) if n.get("v") is not None and n.get("v", -1) >= 0 else None
                    outs = [(a, e, nv)]
                    if self.rule.ret_dtors:
                        for j in b["e"][b["e"].index(i) + 1:]:
                            if fn.nodes[j]["k"] == "dtor":
                                outs = [y for x in outs for y in self.elem(fn, j, fn.nodes[j], *x)]
                    done += [(a2, e2, nv2, (v, n["l"])) for a2, e2, nv2 in outs]
                    continue
                nxt += self.elem(fn, i, n, a, e, nv)
            states = nxt
        return [(a, e, nv, None) for a, e, nv in states] + done

    def elem(self, fn, i, n, a, e, nv):
        self.rule.auto = a
        r = self.rule.elem(self, fn, i, n, a, e, nv)
        if r is not None:
            out = []
            for a2, e2, v in r:
                nv2 = dict(nv)
                if v is not None:
                    nv2[i] = v
                out.append((a2, e2, nv2))
            return out
        k = n["k"]
        if k == "bin" and n["op"] in ("&&", "||"):
            v = self.val(fn, e, nv, i)
            e = dict((x, y) for x, y in e.items() if x[0] != "@")
            return [(a, e, nv if v is None else {**nv, i: v})]
        if k == "cond":
            v = self.val(fn, e, nv, i)
            e = dict((x, y) for x, y in e.items() if x[0] != "@")
            return [(a, e, nv if v is None else {**nv, i: v})]
        if k == "decl":
            e = dict(e)
            e[n["v"]] = self.val(fn, e, nv, n["i"]) if "i" in n else None
            return [(a, e, nv)]
        if k == "asn":
            t = fn.nodes[n["a"]]
            if t and t["k"] == "ref" and t.get("v"):
                e = dict(e)
                e[t["v"]] = self.val(fn, e, nv, n["b"]) if n["op"] == "=" else None
            return [(a, e, nv)]
        if k == "incdec":
            t = fn.nodes[n["a"]]
            if t and t["k"] == "ref" and t.get("v"):
                e = dict(e)
                old = e.get(t["v"])
                d = 1 if n["op"] == "++" else -1
                new = fold("+", old, ("int", d))
                e[t["v"]] = new
                nv = dict(nv)
                v = old if n.get("post") else new
                if v is not None:
                    nv[i] = v
            return [(a, e, nv)]
        if k == "x" and n.get("aop"):
            op = n["aop"]
            if op.startswith("load") and "av" in n:
                t = fn.nodes[n["av"]]
                if t and t["k"] == "un" and t["op"] == "&":
                    t = fn.nodes[t["a"]]
                if t and t["k"] == "ref" and t.get("v"):
                    e = dict(e)
                    e[t["v"]] = None
            if op.startswith("cas"):
                return [(a, e, dict(nv, **{})) for _ in (0,)]
            return [(a, e, nv)]
        if k == "call":
            ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
            if len(ids) == 1 and ids[0] in self.P.fns and ids[0] not in self.stack and \
                    self.rule.inline(self.P.fns[ids[0]]):
                args = tuple(self.val(fn, e, nv, x) for x in n["args"])
                out = []
                for a2, v in self.run(ids[0], a, args):
                    nv2 = dict(nv)
                    if v is not None:
                        nv2[i] = v
                    e2 = e
                    out.append((a2, e2, nv2))
                return out
            e = dict(e)
            for x in n["args"]:
                t = fn.nodes[x]
                if t and t["k"] == "un" and t["op"] == "&":
                    t = fn.nodes[t["a"]]
                    if t and t["k"] == "ref" and t.get("v"):
                        e[t["v"]] = None
            return [(a, e, nv)]
        return [(a, e, nv)]

    def succ(self, fn, b, a, e, nv):
        s = b["s"]
        if b.get("tk") == "CXXTryStmt":
            s = [x for x in s if x != fn.exit]      # what no handler takes leaves by unwinding
        tc = b.get("tc")
        if tc is None or len(s) != 2:
            if len(s) == 1 and s[0] >= 0 and b["e"]:
                last = b["e"][-1]
                v = self.val(fn, e, nv, last) or ("?",)
                if any(fn.nodes[j]["k"] in ("bin", "cond") and last in
                                         (fn.nodes[j].get("a"), fn.nodes[j].get("b")) for j in fn.blocks[s[0]]["e"]):
                    e = {**e, "@%d" % last: v}
            return [(x, a, e) for x in s]
        self.rule.auto = a
        v = self.val(fn, e, nv, tc)
        t = truth(v)
        out = []
        for x, want in ((s[0], True), (s[1], False)):
            if x < 0 or (t is not None and t != want):
                continue
            a2, e2 = a, dict(e)
            if not self.narrow(fn, e2, nv, tc, want):
                continue
            r = self.rule.branch(self, fn, tc, want, a2, e2, nv, b)
            if r is False:
                continue
            if r is not None:
                a2 = r
            if b.get("top"):
                e2["@%d" % tc] = ("int", 1 if want else 0)
            else:
                for q in [q for q in e2 if q[0] == "@"]:
                    del e2[q]
            out.append((x, a2, e2))
        return out

    def narrow(self, fn, e, nv, tc, want):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if not n:
            return True
        if n["k"] == "ref" and n.get("v") and e.get(n["v"]) is None and not want:
            e[n["v"]] = ("null",) if n.get("t", "").endswith("*") else ("int", 0)
        if n["k"] == "ref" and n.get("v") and e.get(n["v"]) is None and want and n.get("t") == "bool":
            e[n["v"]] = ("int", 1)
        if n["k"] == "ref" and n.get("v") and want and e.get(n["v"]) == ("nn",):
            e[n["v"]] = ("pos",)
        if n["k"] == "ref" and n.get("v") and not want and e.get(n["v"]) == ("nn",):
            e[n["v"]] = ("int", 0)
        if n["k"] == "bin" and (n["op"], want) in (("<=", False), (">", True)):
            x, y = fn.nodes[n["a"]], self.val(fn, e, nv, n["b"])
            if x and x["k"] == "ref" and x.get("v") and (y in (("nn",), ("pos",)) or y and y[0] == "int" and y[1] >= 0):
                if e.get(x["v"]) in (None, ("nn",)):
                    e[x["v"]] = ("pos",)
        if n["k"] == "bin" and n["op"] in (">=", ">", "<", "<="):
            x, y = fn.nodes[n["a"]], self.val(fn, e, nv, n["b"])
            if x and x["k"] == "ref" and x.get("v") and y == ("int", 0) and e.get(x["v"]) is None:
                if (n["op"], want) in ((">=", True), ("<", False)):
                    e[x["v"]] = ("nn",)
                elif (n["op"], want) in ((">", True), ("<=", False)):
                    e[x["v"]] = ("pos",)
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            x, y = fn.nodes[n["a"]], self.val(fn, e, nv, n["b"])
            if x and x["k"] == "ref" and x.get("v") and y == ("int", 0) and e.get(x["v"]) == ("nn",):
                e[x["v"]] = ("int", 0) if want == (n["op"] == "==") else ("pos",)
            eq = want == (n["op"] == "==")
            for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
                a, b = fn.nodes[x], self.val(fn, e, nv, y)
                if eq and a and a["k"] == "ref" and a.get("v") and e.get(a["v"]) is None and b is not None and \
                        b[0] in ("int", "null"):
                    e[a["v"]] = b
        return True


def widen(v):
    if v is not None and v[0] == "int" and not -2 <= v[1] <= 2:
        return ("pos",) if v[1] > 0 else None
    return v


def subtree(fn, i):
    """Nodes below expression node i (itself last)."""
    c = fn._extra.setdefault("sub", {})
    if i in c:
        return c[i]
    n = fn.nodes[i]
    out = []
    if n:
        kids = [n[k] for k in ("a", "b", "c", "obj", "i") if isinstance(n.get(k), int)]
        if n["k"] == "ret" and isinstance(n.get("v"), int):
            kids.append(n["v"])
        kids += [x for x in n.get("args", ()) if isinstance(x, int)]
        kids += [n[k] for k in ("ap", "av", "av2") if isinstance(n.get(k), int)]
        for k in kids:
            if k >= 0 and k != i and fn.nodes[k]:
                out += [x for x in subtree(fn, k) if x not in out]
        out.append(i)
    c[i] = out
    return out


def truth(v):
    if v is None:
        return None
    if v[0] == "int":
        return v[1] != 0
    if v[0] == "null":
        return False
    if v[0] in ("t", "ptr", "sent", "pos"):
        return True
    return None


def fold(op, a, b):
    if a is None or b is None:
        return None
    if a[0] == "int" and b[0] in ("pos", "nn") and op in ("<", "<=", ">", ">=", "==", "!="):
        return fold({"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op), b, a)
    if a == ("nn",) and b == ("int", 0) and op == ">=":
        return ("int", 1)
    if a == ("nn",) and b == ("int", 0) and op == "<":
        return ("int", 0)
    if a == ("pos",) and b[0] == "int":
        if b[1] <= 0 and op in (">=", ">", "!=", "<", "<=", "=="):
            return ("int", 1 if op in (">=", ">", "!=") else 0)
        if op == "+" and b[1] >= 0:
            return ("pos",)
        if op == "+" and b[1] == -1 or op == "-" and b[1] == 1:
            return ("nn",)
    if a == ("nn",) and op == "+" and b[0] == "int" and b[1] >= 0:
        return ("pos",) if b[1] else a
    if a[0] == "int" and b[0] == "int":
        x, y = a[1], b[1]
        try:
            r = {"+": x + y, "-": x - y, "==": int(x == y), "!=": int(x != y), "<": int(x < y), ">": int(x > y),
                 "<=": int(x <= y), ">=": int(x >= y), "&": x & y, "|": x | y, "*": x * y}.get(op)
        except Exception:
            return None
        if r is None or (op in ("+", "-", "*") and abs(r) > 8):
            return None
        return ("int", r)
    if a[0] == "rel" and b[0] == "int" and op in ("+", "-"):
        r = a[1] + (b[1] if op == "+" else -b[1])
        return ("rel", r) if abs(r) <= 2 else None
    if b[0] == "rel" and a[0] == "int" and op == "+":
        return fold("+", b, a)
    if a[0] == "rel" and b[0] == "rel" and op in ("==", "!=", "<", ">", "<=", ">="):
        return fold(op, ("int", a[1]), ("int", b[1]))
    if op in ("==", "!="):
        ptr = ("t", "ptr", "sent")
        if (a[0] == "null" or a == ("int", 0)) and b[0] in ptr or (b[0] == "null" or b == ("int", 0)) and a[0] in ptr:
            return ("int", 0 if op == "==" else 1)
        if a[0] == b[0] == "null":
            return ("int", 1 if op == "==" else 0)
        if a[0] == b[0] == "t" and a == b:
            return ("int", 1 if op == "==" else 0)
    return None


class CRule:
    """Defaults."""
    ret_dtors = False       # follow the destructors behind a return

    def value(self, w, fn, env, nv, i, n):
        return None

    def enter(self, w, fn, auto, env):
        return auto

    def leave(self, w, fn, auto, env, val, line):
        return auto

    def elem(self, w, fn, i, n, a, e, nv):
        return None

    def branch(self, w, fn, tc, want, a, e, nv, b):
        return None

    def inline(self, f):
        return False

    def context(self):
        """What else the outcome of an inlined helper depends on."""
        return None

    def canon(self, w, fn, a, e):
        return a, e

    def keep(self, k):
        """Pseudo variables of the rule that liveness must not drop."""
        return False


def lvalue(fn, i):
    """('field', name, base node) | ('var', v) | ('idx', base node, index
    node) behind a pointer expression like &x->f."""
    n = fn.nodes[i] if i is not None and i >= 0 else None
    while n and n["k"] in ("x", "cast", "paren") and not n.get("aop") and len(n.get("args", ())) == 1:
        n = fn.nodes[n["args"][0]]
    if n and n["k"] == "un" and n["op"] == "&":
        return lv(fn, n["a"])
    return None


def lv(fn, i):
    n = fn.nodes[i] if i is not None and i >= 0 else None
    if not n:
        return None
    if n["k"] == "mem":
        return ("field", n["f"].rsplit("::", 1)[-1], n["b"])
    if n["k"] == "ref":
        return ("var", n.get("v"))
    if n["k"] == "idx":
        return ("idx", n["a"], n["b"])
    return None


def atomic(fn, n):
    """(op, place, value node, second value node) of an atomic access."""
    if n["k"] != "x" or not n.get("aop"):
        return None
    return n["aop"].split("_")[0], lvalue(fn, n["ap"]), n.get("av"), n.get("av2")
