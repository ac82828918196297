"""Value numbering: every expression of a function as a canonical term over its
parameters, the entry state of memory and opaque calls.  Helpers with a body
are inlined, loops become induction terms, joins become sets of terms.

Terms (tuples):
  ('c', n)  ('parm', k)  ('this',)  ('ld', lv)  ('addr', lv)  ('call', name, obj, args)
  ('out', k, call)            what a call leaves in its k-th by-reference argument
  ('op', o, a, b..)           normalised: + * & | ^ sorted, shifts as * / %
  ('phi', frozenset)          one of these
  ('ind', init, step, cond)   loop counter (cond: the condition to stay in the loop over ('self',))
  ('?', x)                    not representable: comparing it decides nothing
Lvalues: ('var', frame, v) ('fld', base, f) ('deref', t) ('idx', t, i) ('parmref', k) ('glob', n)
"""

UNK = "?"
COMM = {"+", "*", "&", "|", "^"}


def unknown(t):
    """Does the term contain a part that is not understood?"""
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and t[0] in (UNK, "L"):
            return True
        return any(unknown(x) for x in t)
    return False


def subst(t, f):
    if isinstance(t, frozenset):
        return frozenset(subst(x, f) for x in t)
    if not isinstance(t, tuple):
        return t
    r = f(t)
    if r is not None:
        return r
    n = tuple(subst(x, f) for x in t)
    if n and n[0] == "op":
        return op(n[1], *n[2:])
    if n and n[0] == "phi":
        return phi(n[1])
    return n


def phi(s):
    r = set()
    for x in s:
        if isinstance(x, tuple) and x[0] == "phi":
            r |= set(x[1])
        else:
            r.add(x)
    return list(r)[0] if len(r) == 1 else ("phi", frozenset(r))


def op(o, *a):
    a = list(a)
    if len(a) == 2:
        x, y = a
        if x[0] == "c" and y[0] == "c":
            try:
                v = {"+": lambda: x[1] + y[1], "-": lambda: x[1] - y[1], "*": lambda: x[1] * y[1],
                     "&": lambda: x[1] & y[1], "|": lambda: x[1] | y[1], "^": lambda: x[1] ^ y[1],
                     "<<": lambda: x[1] << y[1], ">>": lambda: x[1] >> y[1], "/": lambda: x[1] // y[1],
                     "%": lambda: x[1] % y[1], "<": lambda: int(x[1] < y[1]), "<=": lambda: int(x[1] <= y[1]),
                     "==": lambda: int(x[1] == y[1]), "!=": lambda: int(x[1] != y[1])}.get(o)
                if v:
                    return ("c", v())
            except (ZeroDivisionError, ValueError):
                pass
        if o == ">>" and y[0] == "c":
            return op("/", x, ("c", 1 << y[1]))
        if o == "<<" and y[0] == "c":
            return op("*", x, ("c", 1 << y[1]))
        if o == "&":
            for p, q in ((x, y), (y, x)):
                if q[0] == "c" and q[1] >= 0 and (q[1] & (q[1] + 1)) == 0:
                    return op("%", p, ("c", q[1] + 1))
        if o == "-":
            return op("+", x, op("*", y, ("c", -1)))
        if o == ">":
            return op("<", y, x)
        if o == ">=":
            return op("<=", y, x)
        if o in ("==", "!="):
            return ("op", o) + tuple(sorted((x, y), key=repr))
        if o == "/" and y == ("c", 1):
            return x
        if o == "%" and y == ("c", 1):
            return ("c", 0)
    if o in COMM:
        flat = []
        for x in a:
            if x[0] == "op" and x[1] == o:
                flat += x[2:]
            else:
                flat.append(x)
        cs = [x[1] for x in flat if x[0] == "c"]
        rest = [x for x in flat if x[0] != "c"]
        if o == "+":
            c = sum(cs)
            # collect equal terms: k*t
            coef = {}
            for x in rest:
                k, t = 1, x
                if x[0] == "op" and x[1] == "*" and len(x) == 4 and x[2][0] == "c":
                    k, t = x[2][1], x[3]
                coef[t] = coef.get(t, 0) + k
            rest = []
            for t, k in coef.items():
                if k == 1:
                    rest.append(t)
                elif k:
                    rest.append(("op", "*", ("c", k), t))
            if c:
                rest.append(("c", c))
        elif o == "*":
            c = 1
            for k in cs:
                c *= k
            if c == 0:
                return ("c", 0)
            if c != 1:
                rest.append(("c", c))
            elif not rest:
                return ("c", 1)
        elif cs:
            c = cs[0]
            for k in cs[1:]:
                c = {"&": c & k, "|": c | k, "^": c ^ k}[o]
            if not (c == 0 and o in "|^"):
                rest.append(("c", c))
        if not rest:
            return ("c", 0)
        if len(rest) == 1:
            return rest[0]
        return ("op", o) + tuple(sorted(rest, key=lambda x: (x[0] != "c", repr(x))))
    return ("op", o) + tuple(a)


class Loops:
    """Dominators and natural loops of a function's live graph."""

    def __init__(self, fn):
        succ = {b: [s for s in B["s"] if s is not None and s >= 0 and s in fn.blocks] for b, B in fn.blocks.items()}
        order, seen = [], set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(succ[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(fn.entry)
        order.reverse()
        self.rpo = order
        self.succ = {b: succ[b] for b in order}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                self.pred[s].append(b)
        idx = {b: i for i, b in enumerate(order)}
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}         # header -> body set
        self.latches = {}
        for b in order:
            for s in succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    self.latches.setdefault(s, []).append(b)
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w += self.pred[x]

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b not in self.idom or self.idom[b] == b:
                return False
            b = self.idom[b]

    def inner(self, b):
        """Headers of the loops around block b, innermost first."""
        return sorted([h for h, body in self.loops.items() if b in body], key=lambda h: len(self.loops[h]))


class Event:
    __slots__ = ("kind", "name", "fn", "node", "block", "obj", "args", "lv", "val", "frame", "i", "lines")


class Frame:
    def __init__(self, fn, fid, parent):
        self.fn, self.id, self.parent = fn, fid, parent
        self.tm = {}
        self.rets = []
        self.callblock = None
        self.loops = Loops(fn)


class Terms:
    def __init__(self, P, opaque=(), depth=5, inline=None):
        self.P = P
        self.opaque = set(opaque)
        self.maxdepth = depth
        self.inline = inline
        self.events = []
        self.frames = []
        self.lphi = {}

    # -- entry
    def run(self, fn, args=None):
        """Value-number `fn`; parameters are ('parm', k) unless given."""
        env = {}
        refs = {}
        fr = Frame(fn, len(self.frames), None)
        for k, p in enumerate(fn.params):
            t = (args or {}).get(k, ("parm", k))
            if p["t"].endswith("&"):
                refs[(fr.id, p["v"])] = ("parmref", k)
            else:
                env[("var", fr.id, p["v"])] = t
        out = self._go(fr, env, refs, ("this",), 0)
        # resolve loop phis
        self._resolve()
        for f in self.frames:
            for k in f.tm:
                f.tm[k] = self.close(f.tm[k])
            f.rets = [self.close(x) for x in f.rets]
        for e in self.events:
            for a in ("obj", "lv", "val"):
                setattr(e, a, self.close(getattr(e, a)))
            e.args = [self.close(x) for x in e.args]
        return fr

    def close(self, t):
        if t is None:
            return None
        return subst(t, lambda x: self.res.get(x) if x and x[0] == "L" else None)

    def _resolve(self):
        self.res = {}
        for key, (inits, backs, cond) in self.lphi.items():
            me = key
            init = phi(set(inits)) if inits else (UNK, 0)
            bk = phi(set(b for b in backs)) if backs else me
            if bk == me:
                self.res[me] = init
                continue
            step = op("-", bk, me)
            if step[0] == "c" and cond is not None:
                c = subst(cond, lambda x: ("self",) if x == me else None)
                self.res[me] = ("ind", init, step, c)
            else:
                self.res[me] = None
        for k in list(self.res):
            if self.res[k] is None:
                del self.res[k]
        # close over nesting
        for _ in range(6):
            ch = False
            for k, v in self.res.items():
                n = subst(v, lambda x: self.res.get(x) if x and x[0] == "L" and x != k else None)
                if n != v:
                    self.res[k] = n
                    ch = True
            if not ch:
                break

    # -- one function
    def _go(self, fr, env, refs, this, depth):
        fn = fr.fn
        self.frames.append(fr)
        fr.refs = refs
        fr.this = this
        fr.depth = depth
        L = fr.loops
        outs = {}
        assigned, stored = {}, {}
        for h, body in L.loops.items():
            s = set()
            stored[h] = set()
            for b in body:
                for i in fn.blocks[b]["e"]:
                    n = fn.nodes[i]
                    if not n:
                        continue
                    if n["k"] in ("asn", "incdec"):
                        t = fn.nodes[n["a"]] if n["a"] is not None and n["a"] >= 0 else None
                        if t and t["k"] == "ref" and t.get("v"):
                            s.add(t["v"])
                        elif t and t["k"] == "mem":
                            stored[h].add(t["f"])
                        else:
                            stored[h].add("*")
                    if n["k"] == "decl" and n.get("v"):
                        pass
                    if n["k"] == "call":
                        for k, a in enumerate(n["args"]):
                            x = fn.nodes[a] if a is not None and a >= 0 else None
                            if x and x["k"] == "ref" and (x.get("t", "").endswith("*") or
                                                          k not in (n.get("refs") or ())):
                                continue
                            if x and x["k"] == "un" and x["op"] == "&":
                                x = fn.nodes[x["a"]]
                            if x and x["k"] == "ref" and x.get("v") and self.may_write(n, k):
                                s.add(x["v"])
            assigned[h] = s
        for b in L.rpo:
            ins = [outs[p] for p in L.pred[b] if p in outs]
            if b == fn.entry:
                cur = dict(env)
            elif len(ins) == 1:
                cur = dict(ins[0])
            else:
                cur = {}
                keys = set()
                for e in ins:
                    keys |= set(e)
                for k in keys:
                    vals = [e.get(k, ("ld", k)) for e in ins]
                    cur[k] = vals[0] if all(v == vals[0] for v in vals) else phi(set(vals))
            if b in L.loops:
                for v in assigned[b]:
                    k = ("var", fr.id, v)
                    if (fr.id, v) in refs:
                        k = refs[(fr.id, v)]
                    me = ("L", fr.id, b, v)
                    self.lphi[me] = ([cur[k]] if k in cur else [], [], None)
                    if k in cur:
                        cur[k] = me
                # stores through memory inside the loop
                for k in [k for k in cur if k[0] in ("fld", "idx", "deref")]:
                    if (k[2] in stored[b]) if k[0] == "fld" else ("*" in stored[b]):
                        del cur[k]
            for i in fn.blocks[b]["e"]:
                fr.tm[i] = self.node(fr, i, cur, b)
            outs[b] = cur
        for h, body in L.loops.items():
            # condition to stay
            exits = [x for x in body if any(s not in body for s in L.succ[x])]
            cond = None
            if h in exits:
                exits = [h]
            if len(exits) == 1:
                B = fn.blocks[exits[0]]
                tc = B.get("tc")
                if tc is not None and len(B["s"]) == 2:
                    cond = fr.tm.get(tc)
                    if cond is None:
                        cond = self.val(fr, tc, outs[exits[0]])
                    if B["s"][0] not in body:
                        cond = ("op", "!", cond)
            for key in [k for k in self.lphi if k[1] == fr.id and k[2] == h]:
                kk = ("var", fr.id, key[3])
                if (fr.id, key[3]) in refs:
                    kk = refs[(fr.id, key[3])]
                backs = [outs[p].get(kk) for p in L.latches[h] if p in outs]
                ini = self.lphi[key][0]
                self.lphi[key] = (ini, [x for x in backs if x is not None], cond)
        fr.out = outs.get(fn.exit)
        if fr.out is None:
            fr.out = {}
        return fr

    def may_write(self, call, k, depth=0):
        """May the callee write through its k-th argument?"""
        tg = self.P.targets(call)
        if call["k"] != "call" or not tg or depth > 4:
            return True
        for fid in tg:
            g = self.P.fns[fid]
            if k >= len(g.params):
                return True
            v = g.params[k]["v"]
            for n in g.nodes:
                if not n:
                    continue
                if n["k"] in ("asn", "incdec"):
                    x = g.nodes[n["a"]] if n["a"] is not None and n["a"] >= 0 else None
                    d = 0
                    while x is not None and d < 20:
                        d += 1
                        if x["k"] == "ref":
                            if x.get("v") == v:
                                return True
                            break
                        a = x.get("a", x.get("b") if x["k"] == "mem" else None)
                        x = g.nodes[a] if isinstance(a, int) and a >= 0 else None
                elif n["k"] in ("call", "ctor"):
                    for kk, a in enumerate(n.get("args", ())):
                        x = g.nodes[a] if a is not None and a >= 0 else None
                        if x and x["k"] == "un" and x["op"] == "&":
                            x = g.nodes[x["a"]]
                        if x and x["k"] == "ref" and x.get("v") == v and kk in (n.get("refs") or ()):
                            if self.may_write(n, kk, depth + 1):
                                return True
                elif n["k"] == "decl" and n.get("i", -1) is not None and n.get("i", -1) >= 0 and \
                        n.get("t", "").rstrip().endswith(("*", "&")):
                    x = g.nodes[n["i"]]
                    if x and x["k"] == "ref" and x.get("v") == v:
                        return True
        return False

    # -- lvalues
    def lv(self, fr, i, env):
        fn = fr.fn
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if n is None:
            return (UNK, "lv")
        k = n["k"]
        if k == "ref":
            if n.get("v"):
                r = fr.refs.get((fr.id, n["v"]))
                return r if r is not None else ("var", fr.id, n["v"])
            return ("glob", n.get("g", "?"))
        if k == "mem":
            if n.get("ar"):
                base = self.deref(self.val(fr, n["b"], env))
            else:
                b = fn.nodes[n["b"]] if n["b"] >= 0 else None
                if b and b["k"] in ("call", "ctor"):
                    base = ("deref", ("addr", self.val(fr, n["b"], env)))
                else:
                    base = self.lv(fr, n["b"], env)
            return ("fld", base, n["f"])
        if k == "idx":
            return ("idx", self.val(fr, n["a"], env), self.val(fr, n["b"], env))
        if k == "un" and n["op"] == "*":
            return self.deref(self.val(fr, n["a"], env))
        if k == "this":
            return ("var", fr.id, "this")
        if k in ("x", "paren", "cast", "init") and len(n.get("args", ())) == 1:
            return self.lv(fr, n["args"][0], env)
        if k == "call":
            return ("deref", ("addr", self.val(fr, i, env)))
        return (UNK, "lv")

    def deref(self, t):
        if t[0] == "addr":
            return t[1]
        return ("deref", t)

    def load(self, lv, env, t=""):
        if t and t.endswith("]"):
            return ("addr", lv)
        if lv in env:
            return env[lv]
        if lv[0] == "parmref":
            return ("parm", lv[1])
        if lv[0] == "idx":
            w = env.get(self.deref(lv[1]))
            if w is not None and w[0] == "out":
                return ("elt", w, lv[2])
        return ("ld", lv)

    # -- values
    def val(self, fr, i, env):
        if i is None or i < 0:
            return (UNK, "none")
        n = fr.fn.nodes[i]
        if n is None:
            return (UNK, "none")
        if n["k"] in ("call", "ctor", "asn", "incdec", "new") and i in fr.tm:
            return fr.tm[i]
        return self.node(fr, i, env, None)

    def node(self, fr, i, env, blk):
        fn = fr.fn
        n = fn.nodes[i]
        if n is None:
            return (UNK, "none")
        k = n["k"]
        if "cv" in n and k not in ("asn", "incdec", "decl", "ret"):
            return ("c", n["cv"])
        if k == "this":
            return fr.this
        if k == "ref":
            if n.get("v") or n.get("g"):
                return self.load(self.lv(fr, i, env), env, n.get("t", ""))
            return ("fn", n.get("n"))
        if k in ("mem", "idx"):
            if n.get("meth"):
                return ("fn", n.get("f"))
            return self.load(self.lv(fr, i, env), env, n.get("t", ""))
        if k == "str":
            return ("str", n.get("sv", n.get("n", "")))
        if k == "bin":
            return op(n["op"], self.val(fr, n["a"], env), self.val(fr, n["b"], env))
        if k == "un":
            o = n["op"]
            if o == "*":
                return self.load(self.lv(fr, i, env), env, n.get("t", ""))
            if o == "&":
                l = self.lv(fr, n["a"], env)
                if l[0] == "deref":
                    return l[1]
                return ("addr", l)
            a = self.val(fr, n["a"], env)
            if o == "-":
                return op("*", a, ("c", -1))
            if o == "+":
                return a
            if o == "!" and a[0] == "c":
                return ("c", int(not a[1]))
            return ("op", o, a)
        if k == "cond":
            return phi({self.val(fr, n["a"], env), self.val(fr, n["b"], env)})
        if k == "decl":
            if n.get("v"):
                l = ("var", fr.id, n["v"])
                if n.get("t", "").endswith("]"):
                    for q in [q for q in env if q[0] == "idx" and q[1] == ("addr", l)]:
                        del env[q]
                    env.pop(l, None)
                    self.arrinit(fr, l, n, env)
                elif n.get("i") is not None and n.get("i", -1) >= 0:
                    if n.get("t", "").endswith("&") or n.get("t", "").endswith("&&"):
                        fr.refs[(fr.id, n["v"])] = self.lv(fr, n["i"], env)
                        return None
                    v = self.val(fr, n["i"], env)
                    if blk is not None:
                        env[l] = v
                        self._ev("store", "", fr, i, n, blk, lv=l, val=v)
                elif blk is not None:
                    env.pop(l, None)
            return None
        if k == "finit":
            if blk is not None and n.get("f") and n.get("i", -1) is not None and n.get("i", -1) >= 0:
                l = ("fld", self.deref(fr.this), n["f"])
                v = self.val(fr, n["i"], env)
                self.store(env, l, v)
                self._ev("store", "", fr, i, n, blk, lv=l, val=v)
            return None
        if k == "asn":
            l = self.lv(fr, n["a"], env)
            v = self.val(fr, n["b"], env)
            if n.get("op", "=") != "=":
                v = op(n["op"][:-1], self.load(l, env), v)
            if blk is not None:
                self.store(env, l, v)
                self._ev("store", "", fr, i, n, blk, lv=l, val=v)
            return v
        if k == "incdec":
            l = self.lv(fr, n["a"], env)
            old = self.load(l, env)
            v = op("+" if n.get("op", "++").find("+") >= 0 else "-", old, ("c", 1))
            if blk is not None:
                self.store(env, l, v)
                self._ev("store", "", fr, i, n, blk, lv=l, val=v)
            return old if n.get("post") else v
        if k == "ret":
            v = self.val(fr, n["v"], env) if n.get("v") is not None and n.get("v", -1) >= 0 else None
            if blk is not None and v is not None:
                fr.rets.append(v)
            return v
        if k in ("call", "ctor"):
            if blk is None:
                return (UNK, "call", fr.id, i)
            return self.call(fr, i, n, env, blk)
        if k in ("x", "paren", "cast", "init") and len(n.get("args", ())) == 1:
            return self.val(fr, n["args"][0], env)
        return (UNK, k, fr.id, i)

    def arrinit(self, fr, l, n, env):
        i = n.get("i")
        x = fr.fn.nodes[i] if i is not None and i >= 0 else None
        if x and x["k"] == "init":
            for k, a in enumerate(x.get("args", ())):
                env[("idx", ("addr", l), ("c", k))] = self.val(fr, a, env)

    def store(self, env, l, v):
        if l[0] in ("idx", "deref", "fld"):
            for k in list(env):
                if k != l and k[0] == l[0]:
                    if l[0] == "fld" and k[2] != l[2]:
                        continue
                    del env[k]
        env[l] = v

    def _ev(self, kind, name, fr, i, n, blk, obj=None, args=(), lv=None, val=None):
        e = Event()
        e.kind, e.name, e.fn, e.node, e.block, e.obj, e.args = kind, name, fr.fn, n, blk, obj, list(args)
        e.lv, e.val, e.frame, e.i = lv, val, fr, i
        self.events.append(e)
        return e

    def call(self, fr, i, n, env, blk):
        name = n.get("n") or n.get("cls") or ""
        args = [self.val(fr, a, env) for a in n.get("args", ())]
        obj = None
        if n.get("obj") is not None and n["obj"] >= 0:
            on = fr.fn.nodes[n["obj"]]
            if on and on.get("t", "").rstrip().endswith("*"):
                obj = self.val(fr, n["obj"], env)
            else:
                l = self.lv(fr, n["obj"], env)
                obj = l[1] if l[0] == "deref" else ("addr", l)
        e = self._ev("call", name, fr, i, n, blk, obj=obj, args=args)
        tg = self.P.targets(n) if n["k"] == "call" else []
        stack = []
        f = fr
        while f is not None:
            stack.append(f.fn.id)
            f = f.parent
        if len(tg) == 1 and name not in self.opaque and fr.depth < self.maxdepth and tg[0] not in stack and \
                (self.inline is None or self.inline(self.P.fns[tg[0]])):
            g = self.P.fns[tg[0]]
            nf = Frame(g, len(self.frames), fr)
            nf.callblock = blk
            nf.callnode = n
            e2 = {k: v for k, v in env.items()}
            refs = {}
            for k, p in enumerate(g.params):
                if k >= len(args):
                    continue
                if p["t"].endswith("&"):
                    refs[(nf.id, p["v"])] = self.lv(fr, n["args"][k], env) if self._is_lv(fr, n["args"][k]) \
                        else ("tmp", nf.id, k)
                    if refs[(nf.id, p["v"])][0] == "tmp":
                        e2[refs[(nf.id, p["v"])]] = args[k]
                else:
                    e2[("var", nf.id, p["v"])] = args[k]
            th = obj if obj is not None else fr.this
            self._go(nf, e2, refs, th, fr.depth + 1)
            env.clear()
            for k, v in nf.out.items():
                if not (k[0] in ("var", "tmp") and k[1] == nf.id):
                    env[k] = v
            if nf.rets:
                return phi(set(nf.rets))
            return None if g.ret == "void" else (UNK, "noret", nf.id)
        t = ("call", name, obj, tuple(a for a in args))
        # what it may leave in locals passed by address or reference
        for k, a in enumerate(n.get("args", ())):
            x = fr.fn.nodes[a] if a is not None and a >= 0 else None
            if x is None:
                continue
            l = None
            if x["k"] == "un" and x["op"] == "&":
                l = self.lv(fr, x["a"], env)
            elif x.get("t", "").endswith("]"):
                l = self.lv(fr, a, env)
            elif k in (n.get("refs") or ()) and not x.get("t", "").endswith("*"):
                l = self.lv(fr, a, env)
            elif k not in (n.get("refs") or ()):
                continue
            elif args[k] is not None and args[k][0] == "addr":
                l = args[k][1]
            elif k in (n.get("refs") or ()) and x.get("t", "").endswith("*") and args[k] is not None:
                l = ("deref", args[k])      # a buffer filled by the call
            if l is not None and l[0] in ("var", "tmp", "deref"):
                clean = tuple(None if kk == k else aa for kk, aa in enumerate(args))
                p = ("addr", l) if l[0] != "deref" else l[1]
                for q in [q for q in env if q[0] == "idx" and q[1] == p]:
                    del env[q]
                env[l] = ("out", k, ("call", name, obj, clean))
        return t

    def _is_lv(self, fr, i):
        n = fr.fn.nodes[i] if i is not None and i >= 0 else None
        if n is None or "cv" in n:
            return False
        return n["k"] in ("ref", "mem", "idx") or (n["k"] == "un" and n["op"] == "*")
