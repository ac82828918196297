"""O01: every comparison the ordered containers use is one total order.

A comparison function is evaluated on two symbolic elements.  Whatever it has
to know about them (is this size equal to that one, which key is first, is
this pointer null) is split into its cases, so each case gives one result; the
table of cases and results is then tested against the laws of an ordering."""
from ..core import Result
from ..cwalk import Walk, CRule, Budget, fold as cfold

INT32 = ("unsigned int", "int", "uint32_t", "unsigned short", "short", "unsigned char", "char", "bool")
OPS = {"operator<": "<", "operator>": ">", "operator<=": "<=", "operator>=": ">=", "operator==": "==",
       "operator!=": "!="}


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


def short(t):
    return (t or "").replace("const ", "").replace(" const", "").replace("*const", "*").strip()


def flip_atom(atom, swap):
    return (atom[0],) + tuple(tuple(swap.get(p, p) if k == 0 else p for k, p in enumerate(x))
                              if isinstance(x, tuple) else x for x in atom[1:])


class Eval(CRule):
    def __init__(self, P, dec, base):
        self.P = P
        self.dec = dec
        self.base = base            # evaluating SizedBuf's own comparisons
        self.trouble = []
        self.asked = []
        self.kept = set()

    # -- case split ------------------------------------------------------------
    def ask(self, atom):
        if atom not in self.asked:
            self.asked.append(atom)
        if atom in self.dec:
            return self.dec[atom]
        raise Need(atom)

    def order(self, x, y, how=""):
        """-, 0, + : which of two places is first."""
        if x == y:
            return 0
        s = 1
        if y < x:
            x, y, s = y, x, -1
        # what is known about emptiness settles a comparison of sizes
        zx, zy = self.dec.get(("zero", x)), self.dec.get(("zero", y))
        if not how and zx is not None and zy is not None and (zx or zy):
            return s * (0 if zx and zy else -1 if zx else 1)
        return s * self.ask(("ord", x, y, how))

    def zero(self, x):
        if ("zero", x) in self.dec:
            return self.ask(("zero", x))
        for a, v in self.dec.items():
            if a[0] == "ord" and a[3] == "" and x in a[1:3]:
                o = a[2] if x == a[1] else a[1]
                d = v if x == a[1] else -v
                z = self.dec.get(("zero", o))
                if d == 0 and z is not None:
                    return z
                if d > 0 or d < 0 and z:
                    return 0
        return self.ask(("zero", x))

    def cmp(self, op, x, y):
        if x is None or y is None:
            return None
        for p, q, o in ((x, y, op), (y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if p[0] == "at" and (q == ("int", 0) or q[0] == "null"):
                z = self.zero(p[1])
                r = {"==": z, "!=": not z, ">": not z, "<=": z, ">=": True, "<": False}[o]
                return ("int", int(r))
        if x[0] == "diff" and y == ("int", 0):
            if not x[3] and op not in ("==", "!="):
                self.misfit(self.cur[0], self.cur[1], x)
            return self.cmp(op, ("int", self.order(x[1], x[2])), y)
        if x[0] == "at" and y[0] == "at":
            d = self.order(x[1], y[1])
            return ("int", int({"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]))
        if x[0] == y[0] == "int":
            a, b = x[1], y[1]
            return ("int", int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]))
        return None

    # -- values ----------------------------------------------------------------
    def value(self, w, fn, env, nv, i, n):
        k = n["k"]
        if k == "this":
            return ("at", ("this",))
        if k == "ref" and n.get("v"):
            return env.get(n["v"])
        if k == "ref":
            return ("at", (n.get("n") or "g",))
        if k == "mem" and not n.get("meth"):
            if "cv" in n:
                return ("int", n["cv"])
            b = w.val(fn, env, nv, n["b"]) if n.get("b") is not None else ("at", ("this",))
            return ("at", b[1] + (n["f"].rsplit("::", 1)[-1],)) if b and b[0] == "at" else None
        if k == "un" and n["op"] in ("&", "*", "+"):
            return w.val(fn, env, nv, n["a"])
        if k == "un" and n["op"] == "-":
            v = w.val(fn, env, nv, n["a"])
            if v and v[0] == "int":
                return ("int", -v[1])
            return ("diff", v[2], v[1], v[3]) if v and v[0] == "diff" else None
        if k == "un" and n["op"] == "!":
            t = self.truth(w.val(fn, env, nv, n["a"]))
            return None if t is None else ("int", 0 if t else 1)
        if k == "bin" and n["op"] in ("&&", "||"):
            t = self.truth(w.val(fn, env, nv, n["a"]))
            if t is not None and t == (n["op"] == "||"):
                return ("int", int(t))
            t = self.truth(w.val(fn, env, nv, n["b"])) if t is not None else None
            return None if t is None else ("int", int(t))
        if k == "bin":
            if "cv" in n:
                return ("int", n["cv"])
            a, b = w.val(fn, env, nv, n["a"]), w.val(fn, env, nv, n["b"])
            if n["op"] in ("<", ">", "<=", ">=", "==", "!="):
                self.cur = (fn, n["l"])
                return self.cmp(n["op"], a, b)
            if n["op"] in ("-", "+") and a and a[0] == "at" and b and b[0] == "int" and n.get("t", "").endswith("*"):
                return ("at", a[1] + ("%s%d" % (n["op"], b[1]),)) if b[1] else a
            if n["op"] == "-" and a and b and a[0] == b[0] == "at":
                ta, tb = short(fn.nodes[n["a"]].get("t")), short(fn.nodes[n["b"]].get("t"))
                t = short(n.get("t"))
                exact = t in ("long", "long long", "int64_t") and ta in INT32 and tb in INT32 or \
                    t == "int" and ta in INT32[3:] and tb in INT32[3:]
                return ("diff", a[1], b[1], exact)
            if a and b and a[0] == b[0] == "int":
                try:
                    return ("int", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[n["op"]])
                except KeyError:
                    return None
            return None
        return None

    def truth(self, v):
        if v is None:
            return None
        if v[0] == "int":
            return v[1] != 0
        if v[0] == "null":
            return False
        if v[0] == "at":
            return not self.zero(v[1])
        if v[0] == "diff":
            return self.order(v[1], v[2]) != 0
        return None

    def misfit(self, fn, line, v):
        self.trouble.append((fn, line, "the difference of %s and %s does not fit the result, so two elements far apart "
                             "compare the wrong way round" % (place(v[1]), place(v[2]))))

    def inline(self, f):
        return bool(f.blocks) and (self.base or "SizedBuf" not in (f.cls or "") and
                                   not any("SizedBuf" in p["t"] for p in f.params) or f.is_lambda)

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "ret" and n.get("v") is not None and n["v"] >= 0:
            return None
        if k == "cond":
            t = self.truth(w.val(fn, e, nv, n["c"])) if n.get("c") is not None else None
            if t is not None:
                v = w.val(fn, e, nv, n["a"] if t else n["b"])
                return [(a, e, v)]
            return None
        if k == "decl" and "i" not in n:
            return [(a, {**e, n["v"]: None}, None)]
        if k in ("call", "ctor") or k == "x":
            args = [w.val(fn, e, nv, x) for x in n.get("args", ())]
            name = (n.get("n") or n.get("fn") or "").rsplit("::", 1)[-1]
            if k == "ctor" and len(args) == 1:
                return [(a, e, args[0])]        # a copy
            if k == "x":
                return [(a, e, args[0])] if len(args) == 1 and not n.get("aop") else None
            obj = None
            if n.get("obj") is not None:
                o = fn.nodes[n["obj"]]
                obj = w.val(fn, e, nv, o["b"]) if o["k"] == "mem" and o.get("meth") and o.get("b") is not None \
                    else w.val(fn, e, nv, n["obj"])
            if name in ("memcmp", "strncmp", "__builtin_memcmp") and len(args) == 3:
                return [(a, e, self.bytes(fn, n, args))]
            if name in ("min", "max") and len(args) == 2 and all(x and x[0] == "at" for x in args):
                d = self.order(args[0][1], args[1][1])
                return [(a, e, args[0] if (d <= 0) == (name == "min") else args[1])]
            both = ([obj] if obj else []) + args
            if n.get("callee") is not None and len(args) == 5:      # the user's comparator
                ks = [x[1][:-1] if x and x[0] == "at" else None for x in args[:4]]
                ends = [x[1][-1] if x and x[0] == "at" else None for x in args[:4]]
                if None in ks or ks[0] != ks[1] or ks[2] != ks[3] or ends[0] == ends[1] or ends[:2] != ends[2:]:
                    self.trouble.append((fn, n["l"], "the user's comparator does not get one key with its length and "
                                         "then the other key with its length"))
                    return [(a, e, None)]
                return [(a, e, ("int", self.order(ks[0], ks[2], "user")))]
            if len(both) == 2 and all(x and x[0] == "at" for x in both) and not self.base:
                tys = [short(fn.nodes[x].get("t")) for x in n.get("args", ())]
                if name == "cmp" and all("SizedBuf" in t for t in tys):
                    return [(a, e, ("int", self.order(both[0][1], both[1][1], "bytes")))]
                if name == "compare":
                    return [(a, e, ("int", self.order(both[0][1], both[1][1])))]
                if name in OPS:
                    how = "bytes" if any("SizedBuf" in t for t in tys) else ""
                    d = self.order(both[0][1], both[1][1], how)
                    return [(a, e, self.cmp(OPS[name], ("int", d), ("int", 0)))]
            if name == "empty" and obj and obj[0] == "at" and not args:
                return [(a, e, ("int", int(bool(self.zero(obj[1] + ("size",))))))]
            ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
            if len(ids) == 1 and ids[0] in self.P.fns and ids[0] not in w.stack and self.inline(self.P.fns[ids[0]]):
                f = self.P.fns[ids[0]]
                if n.get("oper") and len(args) == len(f.params) + 1:    # member operator: first is the object
                    obj, args = args[0], args[1:]
                    return [(a2, e, v) for a2, v in self.method(w, ids[0], a, args, obj)]
                if obj is not None and f.cls:
                    return [(a2, e, v) for a2, v in self.method(w, ids[0], a, args, obj)]
                return None
            if not args and obj and obj[0] == "at":
                return [(a, e, ("at", obj[1] + (name,)))]
            if len(args) == 1 and args[0] and name in ("load", "operator unsigned long", "move", "get"):
                return [(a, e, args[0])]
            return [(a, e, None)]
        return None

    def method(self, w, fid, a, args, obj):
        outer, w.memo = w.memo, {}
        res = w.run(fid, a, tuple(args))
        w.memo = outer
        if obj != ("at", ("this",)) and obj is not None:
            res = [(x, rename(v, obj[1])) for x, v in res]
        return res

    def bytes(self, fn, n, args):
        x, y, ln = args
        if not (x and y and ln and x[0] == y[0] == "at"):
            return None
        sx, sy = x[1][:-1] + ("size",), y[1][:-1] + ("size",)
        if ln[0] == "int":
            self.trouble.append((fn, n["l"], "a fixed number of bytes is compared"))
            return None
        if ln[0] != "at" or ln[1] not in (sx, sy):
            return None
        o = sy if ln[1] == sx else sx
        if self.order(ln[1], o) > 0:
            self.trouble.append((fn, n["l"], "memcmp reads %s bytes of the shorter key" % place(ln[1])))
        if self.zero(ln[1]):
            return ("int", 0)
        s = 1
        p, q = x[1], y[1]
        if q < p:
            p, q, s = q, p, -1
        return ("int", s * self.ask(("bytes", p, q)))

    def branch(self, w, fn, tc, want, a, e, nv, b):
        t = self.truth(w.val(fn, e, nv, tc))
        if t is not None and t != want:
            return False
        if t is None:
            raise Budget("the condition at line %s" % fn.nodes[tc]["l"])
        return None

    def enter(self, w, fn, auto, env):
        """What a lambda captures is a place of its own."""
        mine = set(n["v"] for n in fn.nodes if n and n["k"] == "decl") | set(p["v"] for p in fn.params)
        for n in fn.nodes:
            if n and n["k"] == "ref" and n.get("v") and n["v"] not in mine:
                env[n["v"]] = ("at", (n["v"],))
                self.kept.add(n["v"])
        return auto

    def keep(self, k):
        return k in self.kept


def rename(v, obj):
    if v and v[0] == "at" and v[1][:1] == ("this",):
        return ("at", obj + v[1][1:])
    return v


def place(p):
    return "->".join(x.split("@")[0] for x in p if x[0] not in "+-")


def table(P, f, base=False, limit=4000):
    """[(decisions in the order asked, result)] and the troubles found."""
    out, trouble = [], {}
    work = [()]
    while work:
        dec = work.pop()
        ev = Eval(P, dict(dec), base)
        w = Walk(P, ev, 4000)
        args = tuple(("at", (p["v"],)) for p in f.params)
        try:
            res = w.run(f.id, (), args)
        except Need as x:
            if len(out) + len(work) > limit:
                raise Budget("the number of cases")
            vals = (0, 1) if x.atom[0] == "zero" else (-2, -1, 0, 1, 2) if x.atom[0] == "bytes" or \
                x.atom[3] in ("user", "bytes") else (-1, 0, 1)
            work += [dec + ((x.atom, v),) for v in vals]
            continue
        res = [v for _, v in res]
        if not res:
            continue                # an assertion says this case cannot be
        if len(res) != 1:
            raise Budget("%d results of %s" % (len(res), f.name))
        v = res[0]
        try:
            if v and v[0] == "diff":
                if not v[3]:
                    ev.misfit(f, f.line, v)
                v = ("int", ev.order(v[1], v[2]))
            elif v and v[0] == "at" and f.ret.strip() == "bool":
                v = ("int", int(not ev.zero(v[1])))
        except Need as x:
            work += [dec + ((x.atom, y),) for y in (-1, 0, 1) if x.atom[0] == "ord"] + \
                    [dec + ((x.atom, y),) for y in (0, 1) if x.atom[0] == "zero"]
            continue
        for g, l, m in ev.trouble:
            trouble[(g.id, l, m)] = (g, l, m)
        out.append((dec, v))
    return out, list(trouble.values())


def sgn(x):
    return (x > 0) - (x < 0)


def swapped(dec, a, b):
    m = {a: b, b: a}

    def sw(p):
        return (m.get(p[0], p[0]),) + p[1:]
    out = {}
    for at, v in dec:
        if at[0] == "zero":
            out[("zero", sw(at[1]))] = v
        else:
            x, y, s = sw(at[1]), sw(at[2]), 1
            if y < x:
                x, y, s = y, x, -1
            out[(at[0], x, y) + at[3:]] = s * v
    return out


def compatible(d1, d2):
    """Can both sets of decisions hold of the same pair of elements."""
    for at, v in d2.items():
        if at in d1 and sgn(d1[at]) != sgn(v):
            return False
    return True


def infeasible(dec):
    """Orders that contradict each other."""
    d = dict(dec)
    for at, v in d.items():
        if at[0] == "ord" and at[3] == "":
            zx, zy = d.get(("zero", at[1])), d.get(("zero", at[2]))
            if zx and zy and v or zx and zy == 0 and v >= 0 or zy and zx == 0 and v <= 0 or \
                    zx and v > 0 or zy and v < 0 or zx is not None and zy is not None and zx != zy and v == 0:
                return True
    return False


def laws(f, tab, a, b, less):
    """(case, complaint) for every law of a total preorder the table breaks."""
    rows = [(dec, dict(dec), v) for dec, v in tab if not infeasible(dec)]
    for dec, d, v in rows:
        if v is None or v[0] != "int":
            yield dec, None
            return
    pairs = [(dec, swapped(dec, a, b), v) for dec, d, v in rows]
    for dec, d, v in rows:
        for dec2, d2, v2 in pairs:
            if not compatible(d, d2):
                continue
            # dec2 read with the elements exchanged is this very case
            if less:
                if v[1] and v2[1]:
                    yield dec, "each of two elements is before the other"
                elif not v[1] and not v2[1] and any(x for at, x in dec if at[0] in ("ord", "bytes")):
                    yield dec, "two different elements are treated as the same"
            elif sgn(v[1]) != -sgn(v2[1]):
                yield dec, "comparing two elements in the other order does not give the opposite result"
    # the first difference decides, always in the same direction
    dirs = {}
    for dec, d, v in rows:
        r = v[1] if not less else (-1 if v[1] else None)
        first = None
        for at, x in dec:
            if at[0] in ("ord", "bytes") and differs(at, a, b) and x:
                first = (at, sgn(x) * (1 if at[1][0] == a else -1))
                break
        nulls = [(at, x) for at, x in dec if at[0] == "zero" and at[1][0] in (a, b)]
        if first is None:
            zs = {}
            for at, x in nulls:
                zs.setdefault(at[1][1:], {})[at[1][0]] = x
            if any(len(z) == 2 and z[a] != z[b] for z in zs.values()):
                continue            # decided by one of them being empty
            if not less and v[1] != 0 and not any(len(z) == 1 for z in zs.values()):
                yield dec, "two equal elements are not treated as equal"
            continue
        if r is None:
            continue
        if sgn(r) == 0:
            yield dec, "two different elements are treated as the same"
            continue
        key = (first[0][0],) + tuple(first[0][1][1:]) + tuple(first[0][3:4])
        want = dirs.setdefault(key, (first[1] * sgn(r), dec))
        if want[0] != first[1] * sgn(r):
            yield dec, "the direction of the order depends on the elements"


def differs(at, a, b):
    return {at[1][0], at[2][0]} == {a, b} and at[1][1:] == at[2][1:]


def say(dec):
    out = []
    for at, v in dec:
        if at[0] == "zero":
            out.append("%s %s" % (place(at[1]), "is empty" if v else "is set"))
        else:
            out.append("%s %s %s" % (place(at[1]), "<" if v < 0 else ">" if v > 0 else "==", place(at[2])))
    return ", ".join(out) or "any two elements"


def primary(tab, a, b, less):
    """direction of every kind of difference: {field path: +1 ascending}, in the order they are consulted."""
    out = {}
    for dec, v in tab:
        if infeasible(dec) or v is None or v[0] != "int":
            continue
        for at, x in dec:
            if at[0] in ("ord", "bytes") and differs(at, a, b) and x:
                first = sgn(x) * (1 if at[1][0] == a else -1)
                got = sgn(v[1]) if not less else -1 if v[1] else 1
                if got:
                    out.setdefault((at[1][1:], at[3] if at[0] == "ord" else ""), set()).add(first * got)
                break
    return out


def comparators(P):
    """[(function, first, second, gives a bool)] of every comparison function in the tree."""
    out = []
    for f in P.fns.values():
        if not f.blocks or f.file.startswith("tests/") or f.file.startswith("examples"):
            continue
        ps = [short(p["t"]) for p in f.params]
        ret = f.ret.strip()
        if len(ps) == 3 and ps[0] == ps[1] and ps[0] in ("_skiplist_node *", "skiplist_node *", "avl_node *",
                                                         "_avl_node *") and ret == "int" and ps[2] == "void *":
            out.append((f, f.params[0]["v"], f.params[1]["v"], False))
        elif len(ps) == 2 and ps[0] == ps[1] and "SizedBuf" in ps[0] and ret == "int":
            out.append((f, f.params[0]["v"], f.params[1]["v"], False))
        elif len(ps) == 3 and ps[1] == ps[2] and "Record" in ps[1] and ret in ("int", "bool") and "cmp" in f.short:
            out.append((f, f.params[1]["v"], f.params[2]["v"], ret == "bool"))
        elif f.short.rsplit("::", 1)[-1] == "operator()" and len(ps) == 2 and ps[0] == ps[1] and ret == "bool":
            out.append((f, f.params[0]["v"], f.params[1]["v"], True))
    return sorted(out, key=lambda x: (x[0].file, x[0].line))


def order_rule(P, prop, thorough):
    r = Result()
    r.undecided = []
    r.rules.append("every comparison function is evaluated on two symbolic elements, splitting cases on everything it "
                   "asks about them; the results must be antisymmetric, decided by the first difference in a fixed "
                   "direction, and zero exactly for elements without a difference")
    r.rules.append("SizedBuf's own comparisons are evaluated down to the bytes: memcmp stays inside both keys, a "
                   "common prefix puts the shorter key first, and the six operators agree with that order")
    comps = comparators(P)
    base = [f for f in P.fns.values() if f.file.endswith("sized_buf.h") and f.blocks and
            (f.short.rsplit("::", 1)[-1] in OPS or f.short.rsplit("::", 1)[-1] == "cmp")]
    for f in sorted(base, key=lambda f: f.line):
        sized(P, r, f)
    ids = set(f.id for f in base)
    n = 0
    for f, a, b, less in comps:
        if f.id in ids:
            continue
        n += 1
        r.functions.add(f.id)
        try:
            tab, trouble = table(P, f)
        except Budget as x:
            r.undecided.append("%s: %s is outside what can be evaluated" % (f.where(), x))
            continue
        for g, l, m in trouble:
            r.check(False, "order:%s:%s" % (f.short, m[:40]), "%s:%d" % (g.file, l), "%s (called for %s)" % (m, f.name))
        bad = {}
        for dec, m in laws(f, tab, a, b, less):
            if m is None:
                bad = None
                break
            bad.setdefault(m, dec)
        if bad is None:
            r.undecided.append("%s: a result of %s has no known sign" % (f.where(), f.name))
            continue
        for m, dec in sorted(bad.items()):
            r.check(False, "order:%s:%s" % (f.short, m[:40]), f.where(), "%s: %s (case: %s)" % (f.name, m, say(dec)))
        r.check(not bad, "order:%s" % f.short, f.where(), "")
        dirs = primary(tab, a, b, less)
        keyed = any(any(x in ("key", "minKey") for x in p) for p, _ in dirs)
        for (p, how), s in sorted(dirs.items()):
            if len(s) != 1:
                continue
            later = keyed and p and p[-1] == "seqNum"
            if p == ():
                desc = "elements"
            else:
                desc = place(p)
            if later:
                r.check(s == {-1}, "dir:%s:%s%s" % (f.short, desc, how), f.where(),
                        "%s: of two records with the same key the older one comes first" % f.name)
            elif p and p[-1] in ("logItr", "lInfo", "tInfo") or not p and not less and "SizedBuf" not in f.params[0]["t"]:
                continue
            else:
                r.check(s == {1}, "dir:%s:%s%s" % (f.short, desc, how), f.where(),
                        "%s: %s is in descending order, its users walk it ascending" % (f.name, desc))
        custom(r, f, tab)
        r.samples.append("%s: %d cases" % (f.name, len(tab)))
    r.coverage = {"comparison functions": n + len(base), "undecided": sorted(set(r.undecided))}
    return r


def custom(r, f, tab):
    """Where a user comparator is consulted at all, it decides whenever it is set."""
    cfg = set()
    for dec, v in tab:
        for at, x in dec:
            if at[0] == "zero" and (at[1][-1] in ("cmpFunc",) or "cmp" in at[1][0].lower() and len(at[1]) == 1 or
                                    at[1][0].startswith("aux")):
                cfg.add(at)
    uses = any(at[0] == "ord" and at[3] == "user" for dec, v in tab for at, x in dec)
    if not uses:
        return
    for dec, v in tab:
        d = dict(dec)
        for at, x in dec:
            if at[0] == "ord" and at[3] in ("user", "bytes"):
                set_ = [d[c] for c in cfg if c in d]
                ok = set_ and (0 in set_) == (at[3] == "user")
                r.check(bool(ok), "user:%s:%s" % (f.short, at[3]), f.where(),
                        "%s: %s (case: %s)" % (f.name, "the user's comparator is called without one being set"
                                               if at[3] == "user" else
                                               "keys are compared byte by byte although the user set a comparator",
                                               say(dec)))


def sized(P, r, f):
    """SizedBuf's own comparison: exact oracle."""
    name = f.short.rsplit("::", 1)[-1]
    r.functions.add(f.id)
    if len(f.params) == 2:
        a, b = f.params[0]["v"], f.params[1]["v"]
    elif len(f.params) == 1:
        a, b = "this", f.params[0]["v"]
    else:
        return
    try:
        tab, trouble = table(P, f, base=True)
    except Budget as x:
        r.undecided.append("%s: %s is outside what can be evaluated" % (f.where(), x))
        return
    for g, l, m in trouble:
        r.check(False, "bytes:%s:%s" % (f.short, m[:40]), "%s:%d" % (g.file, l), m)
    for dec, v in tab:
        if infeasible(dec):
            continue
        d = dict(dec)
        if v is None or v[0] != "int":
            r.undecided.append("%s: a result of %s has no known value" % (f.where(), f.name))
            return
        size = byte = None
        za, zb = d.get(("zero", (a, "size"))), d.get(("zero", (b, "size")))
        for at, x in dec:
            if at[0] == "ord" and at[1][1:] == at[2][1:] == ("size",):
                size = sgn(x) * (1 if at[1][0] == a else -1)
            if at[0] == "bytes":
                byte = sgn(x) * (1 if at[1][0] == a else -1)
        if size is None and za is not None and zb is not None:
            size = 0 if za and zb else -1 if za else 1 if zb else None
        empty = za or zb or size == 0 and (za or zb)
        if empty or byte == 0:
            true = {size} if size is not None else {-1, 1} | ({0} if not empty else set())
        elif byte:
            true = {byte}
        elif size:
            true = {-1, 1}
        else:
            true = {-1, 0, 1}
        got = v[1]
        if name == "cmp":
            ok = true == {sgn(got)}
        else:
            want = set({"<": t < 0, ">": t > 0, "<=": t <= 0, ">=": t >= 0, "==": t == 0, "!=": t != 0}[OPS[name]]
                       for t in true)
            ok = want == {bool(got)}
        r.check(ok, "value:%s" % f.short, f.where(),
                "%s gives %d where the keys are ordered %s (case: %s)" %
                (f.name, got, " or ".join({-1: "first<second", 0: "equal", 1: "first>second"}[t] for t in sorted(true)), say(dec)))
    r.samples.append("%s: %d cases, exact" % (f.name, len(tab)))
