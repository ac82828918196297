"""O02: keys, values and records own their memory exactly as documented.

The members of the buffer classes are executed on symbolic objects: what an
object held before, which flags it had, whether a length is zero are split into
cases, the memory functions are recorded, and the state left behind is compared
with the contract of each operation, field by field."""
from ..core import Result

MASK = (1 << 64) - 1
NULLV = ("int", 0)


class Need(Exception):
    def __init__(self, atom, values):
        self.atom, self.values = atom, values


class Unsupported(Exception):
    pass


class Exec:
    def __init__(self, P, dec):
        self.P, self.dec = P, dec
        self.store = {}
        self.events = []
        self.blocks = {}            # fresh block -> [how, size, contents]
        self.n = 0
        self.steps = 0

    # -- cases -------------------------------------------------------------------
    def zero(self, v):
        if v[0] == "int":
            return v[1] == 0
        if v[0] == "loc":
            return False
        if v[0] == "new":
            if self.blocks[v[1]][0] != "realloc":
                return False
        return bool(self.choose(("zero", v), (0, 1)))

    def choose(self, atom, values):
        if atom not in self.dec:
            raise Need(atom, values)
        return self.dec[atom]

    def init(self, place):
        """What a field held before."""
        if place[-1] == "flags" and len(place) > 1:
            if ("was", place) in self.dec:
                return ("int", self.dec[("was", place)])
        return ("sym", place)

    def read(self, place):
        if place in self.store:
            return self.store[place]
        for k in self.store:
            if k[:len(place)] == place and len(k) > len(place):
                return ("loc", place)
        if place[-1] == "flags" and len(place) > 1:
            return ("int", self.choose(("was", place), (0, 1, 2)))
        return ("sym", place)

    # -- execution ---------------------------------------------------------------
    def call(self, fid, this, args, depth=0):
        if depth > 12:
            raise Unsupported("recursion")
        fn = self.P.fns[fid]
        if not fn.blocks:
            raise Unsupported("no body of %s" % fn.name)
        env = {}
        for p, v in zip(fn.params, args):
            env[p["v"]] = v
        bid, nv = fn.entry, {}
        while bid != fn.exit:
            self.steps += 1
            if self.steps > 3000:
                raise Unsupported("a loop")
            b = fn.blocks[bid]
            for i in b["e"]:
                n = fn.nodes[i]
                if n["k"] == "ret":
                    return self.val(fn, n["v"], env, nv, this) if n.get("v") is not None and n["v"] >= 0 else None
                self.elem(fn, i, n, env, nv, this, depth)
            if b.get("noret"):
                return None
            s = b["s"]
            tc = b.get("tc")
            if tc is not None and len(s) == 2:
                z = self.zero(self.known(self.val(fn, tc, env, nv, this)))
                if b.get("top"):
                    nv[tc] = ("int", int(not z))
                bid = s[1] if z else s[0]
            elif len(s) == 1:
                bid = s[0]
            else:
                raise Unsupported("control flow")
            if bid < 0:
                raise Unsupported("control flow")
        return None

    def known(self, v):
        if v is None:
            raise Unsupported("a value")
        return v

    def place(self, fn, i, env, nv, this):
        """The place an lvalue (or a reference) names."""
        n = fn.nodes[i]
        if n["k"] == "mem":
            if n.get("b") is None:
                return self.obj(this) + (n["f"].rsplit("::", 1)[-1],)
            return self.obj(self.val(fn, n["b"], env, nv, this, True)) + (n["f"].rsplit("::", 1)[-1],)
        if n["k"] == "ref" and n.get("v"):
            v = env.get(n["v"])
            if v and v[0] in ("loc", "sym") and (n.get("t", "").find("*") < 0):
                return v[1]
            return ("var", fn.id, n["v"])
        if n["k"] == "un" and n["op"] == "*":
            return self.obj(self.val(fn, n["a"], env, nv, this))
        if n["k"] in ("x", "cast") and len(n.get("args", ())) == 1:
            return self.place(fn, n["args"][0], env, nv, this)
        raise Unsupported("an assignment at line %s" % n["l"])

    def obj(self, v):
        if v and v[0] in ("loc", "sym"):
            return v[1]
        raise Unsupported("an object")

    def val(self, fn, i, env, nv, this, obj=False):
        if i in nv:
            return nv[i]
        n = fn.nodes[i]
        k = n["k"]
        if n.get("null"):
            return NULLV
        if "cv" in n:
            return ("int", n["cv"])
        if k == "this":
            return this
        if k == "ref" and n.get("v"):
            v = env.get(n["v"])
            if v is not None:
                return v
            return ("sym", (n["v"],))
        if k == "mem" and not n.get("meth"):
            p = self.place(fn, i, env, nv, this)
            if obj or n.get("t", "").replace("const ", "").startswith("jungle::") and not n["t"].endswith("*") and \
                    p not in self.store and not n["t"].endswith("::Type") and not n["t"].endswith("::Type const"):
                v = self.store.get(p)
                return v if v and v[0] in ("loc", "sym") else ("loc", p)
            return self.read(p)
        if k == "mem":
            return self.val(fn, n["b"], env, nv, this, True) if n.get("b") is not None else this
        if k == "un":
            if n["op"] in ("&", "*"):
                a = fn.nodes[n["a"]]
                if a["k"] == "mem" and n["op"] == "&":
                    return ("loc", self.place(fn, n["a"], env, nv, this))
                return self.val(fn, n["a"], env, nv, this)
            v = self.val(fn, n["a"], env, nv, this)
            if n["op"] == "!":
                return ("int", int(self.zero(self.known(v))))
            if v and v[0] == "int":
                return ("int", {"~": ~v[1], "-": -v[1], "+": v[1]}.get(n["op"]))
            return None
        if k == "asn":
            return nv.get(i)
        if k == "cond":
            z = self.zero(self.known(self.val(fn, n["c"], env, nv, this)))
            return self.val(fn, n["b"] if z else n["a"], env, nv, this)
        if k == "bin":
            return self.binary(n["op"], self.val(fn, n["a"], env, nv, this),
                               lambda: self.val(fn, n["b"], env, nv, this))
        if k in ("x", "cast", "paren") and len(n.get("args", ())) == 1:
            return self.val(fn, n["args"][0], env, nv, this)
        if k == "fnref" or k == "str":
            return ("sym", ("const", k, str(n.get("n") or n.get("s"))))
        return None

    def binary(self, op, a, fb):
        a = self.known(a)
        if op in ("&&", "||"):
            za = self.zero(a)
            if za == (op == "&&"):
                return ("int", int(op == "||"))
            return ("int", int(not self.zero(self.known(fb()))))
        b = self.known(fb())
        if a[0] == b[0] == "int":
            x, y = a[1], b[1]
            r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "+": lambda: x + y, "-": lambda: x - y,
                 "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y),
                 ">": lambda: int(x > y), "<=": lambda: int(x <= y), ">=": lambda: int(x >= y),
                 "*": lambda: x * y}.get(op)
            return ("int", r()) if r else None
        if op in ("==", "!="):
            if b == NULLV or a == NULLV:
                z = self.zero(a if b == NULLV else b)
                return ("int", int(z == (op == "==")))
            if a == b:
                return ("int", int(op == "=="))
            if a[0] == b[0] == "loc":
                return ("int", int(op != "=="))
        if op in (">", "<=") and b == NULLV:
            return ("int", int((not self.zero(a)) == (op == ">")))
        if op in (">=", "<") and b == NULLV:
            return ("int", int(op == ">="))
        if op in ("+", "-", "*", "&", "|"):
            return ("op", op, a, b)
        return None

    def write(self, place, v):
        if place[-1] == "flags" and v and v[0] == "int":
            v = ("int", v[1] & 0xff)
        self.store[place] = self.known(v)

    def clone(self, cls, src, dst):
        """Memberwise copy of an object."""
        for f in self.P.classes[cls]["fields"]:
            t = f["t"].replace("const ", "")
            if t in self.P.classes and not t.endswith("Type"):
                self.clone(t, src + (f["n"],), dst + (f["n"],))
            else:
                self.store[dst + (f["n"],)] = self.read(src + (f["n"],))

    def elem(self, fn, i, n, env, nv, this, depth):
        k = n["k"]
        if k == "asn":
            op = n["op"]
            b = self.val(fn, n["b"], env, nv, this)
            t = fn.nodes[n["a"]]
            if t["k"] == "ref" and t.get("v") and not (env.get(t["v"]) or ("",))[0] == "loc":
                v = b if op == "=" else self.binary(op[:-1], self.val(fn, n["a"], env, nv, this), lambda: b)
                env[t["v"]] = v
            else:
                p = self.place(fn, n["a"], env, nv, this)
                v = b if op == "=" else self.binary(op[:-1], self.read(p), lambda: b)
                self.write(p, v)
            nv[i] = v
        elif k == "decl":
            if "i" in n:
                v = self.val(fn, n["i"], env, nv, this)
                if v and v[0] == "loc" and v[1][0] == "tmp":
                    pass
                env[n["v"]] = v
            else:
                env[n["v"]] = None
        elif k == "finit":
            p = self.obj(this) + (n["f"].rsplit("::", 1)[-1],)
            v = self.val(fn, n["i"], env, nv, this)
            if v and v[0] == "loc" and v[1][0] == "tmp":
                self.clone(v[2], v[1], p)
            else:
                self.write(p, v)
        elif k == "ctor":
            self.n += 1
            tmp = ("loc", ("tmp", self.n), n["cls"])
            f = self.P.fns.get(n.get("fn"))
            args = [self.val(fn, x, env, nv, this) for x in n.get("args", ())]
            if n["cls"] == "jungle::Status" or n["cls"].startswith("std::"):
                nv[i] = args[0] if args else NULLV
                return
            if f and f.blocks:
                self.call(f.id, tmp, args, depth + 1)
            elif len(args) == 1 and args[0][0] in ("loc", "sym"):
                self.clone(n["cls"], args[0][1], tmp[1])
            else:
                raise Unsupported("a constructor of %s" % n["cls"])
            nv[i] = tmp
        elif k == "new":
            if n.get("args") is None and n.get("a") is None and n.get("size") is None:
                raise Unsupported("new")
            sz = n.get("size", n.get("a"))
            nv[i] = self.fresh("new", self.val(fn, sz, env, nv, this) if isinstance(sz, int) else None)
        elif k == "del":
            self.events.append(("delete[]" if n.get("arr") else "delete", self.val(fn, n["a"], env, nv, this)))
        elif k == "call":
            nv[i] = self.do_call(fn, n, env, nv, this, depth)
        elif k == "incdec":
            raise Unsupported("counting")
        elif k == "bin" and n["op"] in ("&&", "||") or k == "cond":
            try:
                v = self.val(fn, i, env, nv, this)
            except Unsupported:
                v = None
            if v is not None:
                nv[i] = v

    def fresh(self, how, size, contents=None):
        b = len(self.blocks) + 1
        self.blocks[b] = [how, size, contents]
        return ("new", b)

    def do_call(self, fn, n, env, nv, this, depth):
        args = [self.val(fn, x, env, nv, this) for x in n.get("args", ())]
        obj = None
        if n.get("obj") is not None:
            obj = self.val(fn, n["obj"], env, nv, this, True)
        name = (n.get("n") or "").rsplit("::", 1)[-1]
        ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
        fs = [self.P.fns[x] for x in ids if x in self.P.fns and self.P.fns[x].blocks]
        if len(fs) == 1:
            f = fs[0]
            if n.get("oper") and len(args) == len(f.params) + 1:
                obj, args = args[0], args[1:]
            return self.call(f.id, obj, args, depth + 1)
        if name == "malloc":
            return self.fresh("malloc", args[0])
        if name == "calloc":
            a = args[1] if args[0] == ("int", 1) else args[0]
            return self.fresh("malloc", a, "zero")
        if name == "realloc":
            if self.zero(self.known(args[1])):
                self.events.append(("free", args[0]))   # that is what a length of zero does
                return NULLV
            self.events.append(("realloc", args[0], args[1]))
            return self.fresh("realloc", args[1], args[0])
        if name == "free":
            self.events.append(("free", args[0]))
            return None
        if name in ("memcpy", "memmove", "memset", "copy_n"):
            d, s, ln = args
            if d and d[0] == "new":
                blk = self.blocks[d[1]]
                if ln != blk[1]:
                    self.events.append(("length", ln, blk[1]))
                blk[2] = ("zero" if s == NULLV else s) if name == "memset" else ("copy", s)
            else:
                self.events.append((name, d, s, ln))
            return d
        if name == "strlen":
            return ("sym", self.obj(args[0]) + ("strlen",))
        if obj and name in ("size", "length", "data", "c_str"):
            return ("sym", self.obj(obj) + ("length" if name in ("size", "length") else "chars",))
        if name in ("move", "forward", "addressof") and len(args) == 1:
            return args[0]
        if name == "operator=" and len(args) == 2:
            t = fn.nodes[n["args"][0]].get("t", "").replace("const ", "")
            if t in self.P.classes:
                self.clone(t, self.obj(args[1]), self.obj(args[0]))
                return args[0]
        if name == "__assert_fail":
            return None
        raise Unsupported("a call of %s" % (n.get("n") or "?"))


# -- contracts ---------------------------------------------------------------------

class Want:
    """Compares what an operation left behind with its contract."""

    def __init__(self, x, f, ret):
        self.x, self.f, self.ret = x, f, ret
        self.bad = []
        self.used = 0               # memory events accounted for
        self.fresh = 0

    def final(self, p):
        return self.x.store.get(p, self.x.init(p))

    def eq(self, p, want, what):
        got = self.final(p)
        if got != want and not (got[0] == want[0] == "int" and (got[1] - want[1]) & MASK == 0):
            self.bad.append("%s %s" % (name(p), what))

    def flags(self, p):
        return self.x.init(p + ("flags",))

    def empty(self, p, why="is not emptied"):
        for f in ("flags", "size", "data"):
            self.eq(p + (f,), NULLV, why)

    def same(self, p):
        for f in ("flags", "size", "data"):
            self.eq(p + (f,), self.x.init(p + (f,)), "is changed")

    def moved(self, p, src):
        for f in ("flags", "size", "data"):
            self.eq(p + (f,), self.x.init(src + (f,)), "does not take over %s" % name(src + (f,)))

    def refer(self, p, size, data):
        self.eq(p + ("flags",), NULLV, "owns memory that belongs to somebody else")
        self.eq(p + ("size",), size, "does not get the length")
        self.eq(p + ("data",), data, "does not point to the data")

    def own(self, p, size, data):
        if self.x.zero(size):
            self.empty(p, "is not empty for a length of zero")
            return
        self.eq(p + ("size",), size, "does not get the length")
        d = self.final(p + ("data",))
        fl = self.final(p + ("flags",))
        if d[0] != "new":
            self.bad.append("%s is not memory of its own" % name(p + ("data",)))
            return
        self.fresh += 1
        how, n, c = self.x.blocks[d[1]]
        if fl != ("int", {"malloc": 1, "new": 2}.get(how)):
            self.bad.append("%s does not say how the new memory has to be released" % name(p + ("flags",)))
        if n != size:
            self.bad.append("%s gets memory of another size than its length" % name(p))
        if data is None or data[0] == "int" or self.x.zero(data):
            if c != "zero":
                self.bad.append("%s is not initialised" % name(p + ("data",)))
        elif c != ("copy", data):
            self.bad.append("%s does not get a copy of the source" % name(p + ("data",)))

    def freed(self, p):
        """free() on one buffer; True if it releases memory."""
        fl = self.x.init(p + ("flags",))
        if fl[0] != "int":
            self.bad.append("%s is not looked at, its memory is not released" % name(p))
            return False
        data = self.x.init(p + ("data",))
        if fl[1] == 0:
            self.same(p)
            return False
        ev = ("free" if fl[1] == 1 else "delete[]", data)
        if self.x.events.count(ev) != 1:
            self.bad.append("%s is released %s" % (name(p + ("data",)), "never" if not self.x.events.count(ev)
                                                   else "twice"))
        self.used += self.x.events.count(ev)
        self.empty(p, "still points to released memory")
        return True

    def end(self):
        for e in self.x.events:
            if e[0] == "length":
                self.bad.append("the number of bytes copied is not the size of the new memory")
        rel = [e for e in self.x.events if e[0] in ("free", "delete", "delete[]", "realloc")]
        if len(rel) > self.used:
            self.bad.append("memory is released that this operation must leave alone")
        if len(self.x.blocks) > self.fresh:
            self.bad.append("new memory is not owned by anybody")


def name(p):
    return ".".join(x.split("@")[0] for x in p)


def leaves(P, cls, p):
    """(place, 'buf' | type) of every buffer and plain field of an object."""
    for f in P.classes[cls]["fields"]:
        t = f["t"].replace("const ", "")
        if t == "jungle::SizedBuf":
            yield p + (f["n"],), "buf"
        elif t in ("jungle::KV", "jungle::Record"):
            for y in leaves(P, t, p + (f["n"],)):
                yield y
        else:
            yield p + (f["n"],), t


def typ(t):
    t = t.replace("const ", "").replace("jungle::", "").replace("std::basic_string<char>", "string")
    return {"unsigned long": "size", "size_t": "size", "void *": "ptr", "char *": "cstr",
            "string &": "str"}.get(t.strip(), t.strip())


def sized(w, f, T, ps):
    """The contract of one SizedBuf member; False if it has none here."""
    nm, ts = f.short.rsplit("::", 1)[-1], tuple(typ(p["t"]) for p in f.params)
    A = [("sym", (p["v"],)) for p in f.params]
    if f.is_ctor:
        nm = "ctor"
    if nm in ("ctor", "set", "operator="):
        if ts == () and nm == "ctor":
            return w.empty(T)
        if ts == ("size",) and nm == "ctor":
            return w.own(T, A[0], None)
        if ts == ("size", "ptr"):
            return w.refer(T, A[0], A[1])
        if ts == ("SizedBuf &",):
            w.moved(T, ps[0])
            return w.same(ps[0])
        if ts == ("str",):
            return w.refer(T, ("sym", ps[0] + ("length",)), ("sym", ps[0] + ("chars",)))
        if ts == ("cstr",):
            return w.refer(T, ("sym", ps[0] + ("strlen",)), A[0])
    if nm == "moveTo" and ts == ("SizedBuf &",):
        w.moved(ps[0], T)
        return w.empty(T)
    if nm == "copyTo" and ts == ("SizedBuf &",):
        w.own(ps[0], ("sym", T + ("size",)), ("sym", T + ("data",)))
        return w.same(T)
    if nm == "referTo" and ts == ("SizedBuf &",):
        w.refer(T, ("sym", ps[0] + ("size",)), ("sym", ps[0] + ("data",)))
        return w.same(ps[0])
    if nm == "alloc":
        if ts == ("SizedBuf &",):
            w.own(T, ("sym", ps[0] + ("size",)), ("sym", ps[0] + ("data",)))
            return w.same(ps[0])
        if ts == ("cstr",):
            return w.own(T, ("sym", ps[0] + ("strlen",)), A[0])
        if ts == ("str",):
            return w.own(T, ("sym", ps[0] + ("length",)), ("sym", ps[0] + ("chars",)))
        if ts == ("size",):
            return w.own(T, A[0], None)
        if ts == ("size", "ptr"):
            return w.own(T, A[0], A[1])
    if nm == "resize" and ts == ("size",):
        fl = w.flags(T)
        if fl[0] != "int":
            w.bad.append("resizes without looking at who owns the memory")
            return
        if not fl[1] & 1:
            return w.same(T)
        if w.x.zero(A[0]):
            w.freed(T)
            return
        new = [b for b, v in w.x.blocks.items() if v[0] == "realloc"]
        old = ("sym", T + ("data",))
        if len(new) != 1 or ("realloc", old, A[0]) not in w.x.events:
            w.bad.append("does not reallocate its memory with the new length")
            return
        w.used += 1
        w.fresh += 1
        ok = not w.x.zero(("new", new[0]))
        w.eq(T + ("data",), ("new", new[0]) if ok else old, "does not point to the memory that is now valid")
        w.eq(T + ("size",), A[0] if ok else ("sym", T + ("size",)), "is not the size of the memory")
        return w.eq(T + ("flags",), fl, "changes")
    if nm == "free" and ts == ():
        r = w.freed(T)
        if w.ret != ("int", int(r)):
            w.bad.append("returns the wrong answer")
        return
    if nm == "clear" and ts == ():
        return w.empty(T)
    if nm in ("setNeedToFree", "setNeedToDelete") and ts == ():
        fl = w.flags(T)
        if fl[0] == "int":
            w.eq(T + ("flags",), ("int", fl[1] | (1 if nm == "setNeedToFree" else 2)), "is not set as asked")
            w.eq(T + ("size",), ("sym", T + ("size",)), "is changed")
            return w.eq(T + ("data",), ("sym", T + ("data",)), "is changed")
    if nm == "empty" and ts == ():
        if w.ret is None or w.x.zero(w.ret) == w.x.zero(("sym", T + ("size",))):
            w.bad.append("does not say whether the length is zero")
        return w.same(T)
    return False


def compound(w, P, f, cls, T, ps):
    """KV and Record."""
    nm, ts = f.short.rsplit("::", 1)[-1], tuple(typ(p["t"]) for p in f.params)
    A = [("sym", (p["v"],)) for p in f.params]
    mine = list(leaves(P, cls, T))
    me = cls.rsplit("::", 1)[-1] + " &"

    def other(p):
        return ps[0] + p[len(T):]
    if f.is_ctor:
        nm = "ctor"
    if nm == "moveTo" and ts == (me,):
        for p, t in mine:
            if t == "buf":
                w.moved(other(p), p)
                w.empty(p)
            else:
                w.eq(other(p), w.x.init(p), "is not taken over")
        return
    if nm == "copyTo" and ts == (me,):
        for p, t in mine:
            if t == "buf":
                w.own(other(p), ("sym", p + ("size",)), ("sym", p + ("data",)))
                w.same(p)
            else:
                w.eq(other(p), w.x.init(p), "is not copied")
        return
    if nm == "clone" and ts == (me,):
        if w.ret is not None and w.ret != NULLV and w.ret[0] == "int":
            for p, t in mine:
                if t == "buf":
                    w.same(p)
                else:
                    w.eq(p, w.x.init(p), "is changed although the copy is refused")
            return
        for p, t in mine:
            if p[-1] in ("key", "value") and not w.x.zero(("sym", p + ("data",))):
                w.bad.append("overwrites %s, which is still in use" % name(p))
        for p, t in mine:
            if t == "buf":
                w.own(p, ("sym", other(p) + ("size",)), ("sym", other(p) + ("data",)))
                w.same(other(p))
            else:
                w.eq(p, w.x.init(other(p)), "is not copied")
        return
    if nm == "free" and ts == ():
        for p, t in mine:
            if t == "buf":
                w.freed(p)
        return
    if nm == "clear" and ts == () or nm == "ctor" and ts == ():
        for p, t in mine:
            if t == "buf":
                w.empty(p)
            elif t == "unsigned long":
                w.eq(p, ("int", MASK), "is not reset")
            elif t.endswith("Type"):
                w.eq(p, NULLV, "is not reset")
        return
    if nm in ("ctor", "set", "alloc", "operator="):
        own = nm == "alloc"
        bufs = [p for p, t in mine if t == "buf"]
        if ts == (me,) and not own:
            for p, t in mine:
                if t == "buf":
                    w.moved(p, other(p))
                else:
                    w.eq(p, w.x.init(other(p)), "is not copied")
            return
        if cls.endswith("KV") and len(bufs) == 2:
            do = w.own if own else w.refer
            if ts == ("size", "ptr", "size", "ptr"):
                do(bufs[0], A[0], A[1])
                return do(bufs[1], A[2], A[3])
            if ts == ("SizedBuf &", "SizedBuf &"):
                for b, q in zip(bufs, ps):
                    if own:
                        w.own(b, ("sym", q + ("size",)), ("sym", q + ("data",)))
                    else:
                        w.moved(b, q)
                return
            for tt, ln, ch in (("str", "length", "chars"), ("cstr", "strlen", None)):
                if ts == (tt, tt):
                    for b, q in zip(bufs, ps):
                        do(b, ("sym", q + (ln,)), ("sym", q + (ch,) if ch else q))
                    return
        if nm == "ctor" and cls.endswith("Record"):
            for p, t in mine:
                if t == "buf":
                    w.empty(p)
                elif t == "unsigned long":
                    w.eq(p, A[0] if "size" in ts else ("int", MASK), "is not set")
                elif t.endswith("Type"):
                    w.eq(p, A[-1], "is not set")
            return
    if nm in ("isIns", "isDel", "isCmd") and ts == ():
        want = {"isIns": 0, "isDel": 1, "isCmd": 2}[nm]
        if w.x.dec.get(("type",)) is not None:
            return
    return False


def holder(w, P, f, cls, T, ps):
    if f.is_ctor:
        fld = P.classes[cls]["fields"][0]["n"]
        v = w.final(T + (fld,))
        if v[0] not in ("loc", "sym") or v[1] != ps[0]:
            w.bad.append("does not remember the object it has to release")
        return
    if f.is_dtor:
        fld = P.classes[cls]["fields"][0]
        t = fld["t"].replace("const ", "").rstrip(" &")
        p = T + (fld["n"],)
        if t == "jungle::SizedBuf":
            w.freed(p)
        else:
            for q, k in leaves(P, t, p):
                if k == "buf":
                    w.freed(q)
        return
    return False


def own_rule(P, prop, thorough):
    R = Result()
    R.rules.append("the members of the buffer, key-value and record classes (and what they call) are executed on "
                   "symbolic objects; flags, empty lengths and null sources are split into cases")
    R.rules.append("each end state is compared field by field with the operation's contract: what is taken over, copied "
                   "into memory of its own, referred to without ownership, released exactly once, or left alone")
    skipped, none, cases = [], [], 0
    for cls in ("jungle::SizedBuf", "jungle::KV", "jungle::Record"):
        for c in (cls, cls + "::Holder"):
            fs = [f for f in P.fns.values() if f.cls == c and f.blocks and not f.is_lambda]
            for f in sorted(fs, key=lambda f: f.line):
                if f.short.rsplit("::", 1)[-1] in ("cmp", "toString", "toReadableString", "size", "isIns", "isDel",
                                                   "isCmd") or f.short.rsplit("::", 1)[-1].startswith("operator") and \
                        f.short.rsplit("::", 1)[-1] != "operator=":
                    continue
                n = one(P, R, f, c, skipped, none)
                cases += n
    R.coverage = {"cases": cases, "undecided": skipped, "without a contract": none}
    if skipped:
        R.rules.append("UNDECIDED: " + "; ".join(skipped))
    return R


def one(P, R, f, cls, skipped, none):
    T = ("this",)
    work, n = [()], 0
    ps = [(p["v"],) for p in f.params]
    args = [("loc", p) if P_obj(q["t"]) else ("sym", p) for p, q in zip(ps, f.params)]
    sig = "%s(%s)" % (f.short, ", ".join(typ(p["t"]) for p in f.params))
    while work:
        dec = work.pop()
        x = Exec(P, dict(dec))
        try:
            ret = x.call(f.id, ("loc", T), args)
            w = Want(x, f, ret)
            if cls.endswith("::Holder"):
                r = holder(w, P, f, cls, T, ps)
            elif cls == "jungle::SizedBuf":
                r = sized(w, f, T, ps)
            else:
                r = compound(w, P, f, cls, T, ps)
        except Need as e:
            if len(dec) > 14:
                skipped.append("%s: too many cases" % sig)
                return n
            work += [dec + ((e.atom, v),) for v in e.values]
            continue
        except Unsupported as e:
            skipped.append("%s: %s" % (sig, e))
            return n
        if r is False:
            none.append(sig)
            return n
        w.end()
        n += 1
        R.functions.add(f.id)
        for m in w.bad[:3]:
            R.add("own:%s:%s" % (sig, m[:60]), f.where(), "%s: %s%s" % (f.name, m, case(dec)))
        R.obligations += 1
        R.discharged += not w.bad
    R.samples.append("%s: %d cases" % (sig, n))
    return n


def P_obj(t):
    return t.rstrip().endswith("&")


def case(dec):
    out = []
    for a, v in dec:
        if a[0] == "was":
            out.append("%s %s" % (name(a[1][:-1]), {0: "owns nothing", 1: "owns malloc'ed memory",
                                                    2: "owns new'ed memory"}[v]))
        else:
            s = a[1]
            out.append("%s %s 0" % (name(s[1]) if s[0] == "sym" else "the new memory", "==" if v else "!="))
    return " (when %s)" % ", ".join(out) if out else ""
