"""In-memory serializer (S family): bounds of every raw access, byte order of
the fixed-width encoders."""
from ..core import Result, require
from ..engine import Engine, Rule, OK, ERR, ZERO, NZ, MIRROR

J = "jungle::"
CLS = J + "RwSerializer"

MEMFNS = {"memcpy": (0, 1, 2), "memmove": (0, 1, 2), "memset": (0, None, 2), "memcmp": (0, 1, 2),
          "__builtin_memcpy": (0, 1, 2), "std::memcpy": (0, 1, 2), "std::memmove": (0, 1, 2)}


def lin(*terms):
    d = {}
    for t, c in terms:
        d[t] = d.get(t, 0) + c
    return ("lin", tuple(sorted((t, c) for t, c in d.items() if c)))


def to_lin(v):
    if v is None:
        return None
    if v[0] == "lin":
        return dict(v[1])
    if v[0] == "c":
        return {1: v[1]} if v[1] else {}
    return None


def mk(d):
    return ("lin", tuple(sorted(((t, c) for t, c in d.items() if c), key=repr)))


def add(a, b, sign=1):
    r = dict(a)
    for t, c in b.items():
        r[t] = r.get(t, 0) + sign * c
        if not r[t]:
            del r[t]
    return r


class Bounds(Rule):
    """auto: frozenset of facts; ("le", D) says that the linear form D <= 0."""
    fold = True
    keep_this = True

    def __init__(self, P, mem=True, rbuf=False):
        self.P = P
        self.flds = {"dstPtr": ("lin", (("dstPtr", 1),)),
                     "curPos": ("lin", (("curPos", 1),)),
                     "len": ("lin", (("len", 1),))}
        self.rbuf = NZ if rbuf else ZERO
        self.bad = {}
        self.obl = set()

    def descend(self, fid):
        f = self.P.fns[fid]
        return f.name.startswith(CLS + "::") or f.file == "src/internal_helper.h"

    def mem_value(self, eng, fn, n, st):
        f = n["f"]
        if f.startswith(CLS + "::"):
            b = f.rsplit("::", 1)[-1]
            if b == "rBuf":
                return self.rbuf
            if b in ("fOps", "dstFile"):
                return ZERO
            return self.flds.get(b)
        b = f.rsplit("::", 1)[-1]
        if f.startswith(J + "SizedBuf::") and not n.get("meth"):
            base = fn.nodes[n["b"]]
            if base and base["k"] == "mem" and base["f"] == CLS + "::rBuf":
                if b == "data":
                    return ("lin", (("dstPtr" if ("resized" in [x[0] for x in st.auto]) else "rbuf.data", 1),))
                return ("lin", (("rbuf." + b, 1),))
        return None

    def sym(self, eng, fn, st, nv, i):
        n = fn.nodes[i]
        if n is None:
            return None
        if n["k"] == "bin" and n["op"] in ("+", "-"):
            a = to_lin(eng.val(fn, st, nv, n["a"]))
            b = to_lin(eng.val(fn, st, nv, n["b"]))
            if a is not None and b is not None:
                return mk(add(a, b, 1 if n["op"] == "+" else -1))
            return None
        if n["k"] == "ref" and n.get("v") and n.get("t", "").replace("const ", "") in (
                "unsigned long", "unsigned int", "long", "int", "unsigned short", "unsigned char"):
            return ("lin", ((n["v"], 1),))
        if n["k"] == "idx" or (n["k"] == "un" and n["op"] == "*"):
            return None
        if n["k"] == "un" and n["op"] == "&":
            m = fn.nodes[n["a"]]
            if m and m["k"] == "idx":
                a = to_lin(eng.val(fn, st, nv, m["a"]))
                b = to_lin(eng.val(fn, st, nv, m["b"]))
                if a is not None and b is not None:
                    return mk(add(a, b))
        return None

    def assume(self, eng, fn, st, nv, n, want):
        a = to_lin(eng.val(fn, st, nv, n["a"]))
        b = to_lin(eng.val(fn, st, nv, n["b"]))
        if a is None or b is None:
            return None
        op = n["op"]
        if not want:
            op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
        d = add(a, b, -1)       # a - b
        facts = set(st.auto)
        if op == "<=":
            facts.add(("le", mk(d)[1]))
        elif op == "<":
            facts.add(("le", mk(add(d, {1: 1}))[1]))
        elif op == ">=":
            facts.add(("le", mk(dict((t, -c) for t, c in d.items()))[1]))
        elif op == ">":
            facts.add(("le", mk(add(dict((t, -c) for t, c in d.items()), {1: 1}))[1]))
        elif op == "==":
            facts.add(("le", mk(d)[1]))
            facts.add(("le", mk(dict((t, -c) for t, c in d.items()))[1]))
        return frozenset(facts)

    def kill(self, auto, name):
        return frozenset(x for x in auto if x[0] != "le" or name not in [t for t, c in x[1]])

    def elem(self, eng, fn, i, node, st):
        if node["k"] in ("asn", "incdec"):
            t = fn.nodes[node["a"]]
            if t and t["k"] == "ref" and t.get("v"):
                return self.kill(st.auto, t["v"])
            if t and t["k"] == "mem" and t["f"].startswith(CLS + "::"):
                f = t["f"].rsplit("::", 1)[-1]
                if f == "dstPtr":
                    b = [x[1] for x in st.auto if x[0] == "resized"]
                    v = eng.val(fn, st, {}, node["b"])
                    out = self.kill(st.auto, "dstPtr")
                    # the field now denotes the buffer that was just resized
                    st.env.pop(eng.lv(fn, node["a"]), None)
                    if b and v == ("lin", (("dstPtr", 1),)):
                        out = frozenset(out | {("ready", x) for x in b})
                    return out
                if f == "len":
                    st.env.pop(eng.lv(fn, node["a"]), None)
                    return self.kill(st.auto, "len")
        if node["k"] == "idx":
            self.access(eng, fn, st, {}, node["a"], ("c", 1), node["l"], idx=node["b"])
        if node["k"] == "un" and node["op"] == "*":
            self.access(eng, fn, st, {}, node["a"], ("c", 1), node["l"])
        if node["k"] == "asn":
            # a pointer into the buffer is handed out together with a size
            t = fn.nodes[node["a"]]
            if t and t["k"] == "mem" and t["f"] == J + "SizedBuf::data":
                v = to_lin(eng.val(fn, st, {}, node["b"]))
                if v is not None and "dstPtr" in v and len(v) > 1:
                    self.obl.add((fn.id, node["l"]))
                    off = dict(v)
                    off.pop("dstPtr")
                    ok = any(x[0] == "le" and dict(x[1]).get("len") == -1 and
                             all(dict(x[1]).get(k) == c for k, c in off.items()) and len(x[1]) > len(off) + 1
                             for x in st.auto)
                    if not ok:
                        self.bad.setdefault(("handed out", fn.id), (fn.where(node["l"]),
                                            "%s hands out a pointer into the buffer without comparing position plus length with the size of the buffer" % fn.short))
        return None

    def access(self, eng, fn, st, nv, ptr, size, line, idx=None):
        p = to_lin(eng.val(fn, st, nv, ptr))
        if p is None or p.get("dstPtr") != 1:
            return
        off = dict(p)
        off.pop("dstPtr")
        if idx is not None:
            b = to_lin(eng.val(fn, st, nv, idx))
            off = add(off, b if b is not None else {("?",): 1})
        s = to_lin(size)
        self.obl.add((fn.id, line))
        ok = False
        if s is not None:
            end = add(off, s)
            # end - len <= 0, possibly with slack
            need = add(end, {"len": 1}, -1)
            for x in st.auto:
                if x[0] == "le":
                    slack = add(dict(x[1]), need, -1)
                    if set(slack) <= {1} and slack.get(1, 0) >= 0:
                        ok = True
                if x[0] == "ready":
                    slack = add(dict(x[1]), end, -1)
                    if set(slack) <= {1} and slack.get(1, 0) >= 0:
                        ok = True
        if not ok:
            self.bad.setdefault(("access", fn.id, self.topname), (fn.where(line),
                                "%s reaches a raw access of the buffer in %s that no comparison with the size of the buffer bounds"
                                % (self.topname, fn.short)))

    def call(self, eng, fn, i, node, st):
        nm = node.get("n", "")
        if nm in MEMFNS:
            nv = {}
            d, s, z = MEMFNS[nm]
            size = eng.val(fn, st, nv, node["args"][z])
            self.access(eng, fn, st, nv, node["args"][d], size, node["l"])
            if s is not None:
                self.access(eng, fn, st, nv, node["args"][s], size, node["l"])
            return [(st.auto, None, None)]
        if nm in (J + "SizedBuf::resize", J + "SizedBuf::alloc") and node.get("obj") is not None:
            o = fn.nodes[node["obj"]]
            if o and o["k"] == "mem" and o["f"] == CLS + "::rBuf":
                a = to_lin(eng.val(fn, st, {}, node["args"][0]))
                auto = set(x for x in st.auto if x[0] not in ("ready", "resized"))
                if a is not None:
                    for x in st.auto:
                        if x[0] == "le":
                            # end - a <= 0  =>  end fits
                            end = add(dict(x[1]), a)
                            if end and all(t in ("curPos", 1) or str(t).find("@") >= 0 for t in end) and "curPos" in end:
                                auto.add(("resized", mk(end)[1]))
                return [(frozenset(auto), None, None)]
        return None


def bounds(P, pid, quick=True):
    R = Result()
    R.rules.append("every raw access of a memory-backed serializer is dominated by a comparison of position + size "
                   "with the size of the buffer (reads) or by growing the buffer to at least that (writes)")
    names = [m["n"] for m in P.classes[CLS]["methods"]]
    n = 0
    for nm in dict.fromkeys(names):
        for f in P.byname.get(CLS + "::" + nm, []):
            if f.is_lambda or f.is_ctor or nm in ("pos", "size", "available", "chkResize"):
                continue
            write = nm.startswith("put")
            r = Bounds(P, rbuf=write)
            r.topname = f.short
            env = {}
            for p in f.params:
                t = p["t"].replace("const ", "")
                if t in ("unsigned long", "unsigned int"):
                    env[p["v"]] = ("lin", ((p["v"], 1),))
            e = Engine(P, r)
            e.summary(f.id, frozenset(), frozenset(env.items()))
            R.functions |= set(P.fns[v].name for v in e.visited)
            n += len(r.obl)
            R.check(not r.bad, "%s|%s|bounded" % (pid, f.short), f.where(), "")
            for k, (w, m) in r.bad.items():
                R.add("%s|%s|%s" % (pid, f.short, k[0]), w, m)
    R.findings = [x for x in R.findings if x.msg]
    R.coverage["raw_accesses"] = n
    require(n >= 10, "only %d raw accesses of the buffer found" % n)
    return R


# ---------------------------------------------------------------- byte order
def bits_of(fn, i, nbits, env, P, depth=0):
    """Abstract value of node i as a list of bits: 0, 1 or ('b', k) = bit k of
    the input.  None: not of that shape."""
    if i is None or i < 0 or depth > 60:
        return None
    n = fn.nodes[i]
    if n is None:
        return None
    W = 64
    if "cv" in n:
        return [(n["cv"] >> k) & 1 for k in range(W)]
    k = n["k"]
    if k == "ref":
        if n.get("v") in env:
            return env[n["v"]]
        return None
    if k == "cond":
        c = bits_of(fn, n["c"], nbits, env, P, depth + 1)
        if c is None or any(isinstance(b, tuple) for b in c):
            return None
        return bits_of(fn, n["a"] if any(c) else n["b"], nbits, env, P, depth + 1)
    if k == "bin":
        if n["op"] in ("==", "!="):
            a = bits_of(fn, n["a"], nbits, env, P, depth + 1)
            b = bits_of(fn, n["b"], nbits, env, P, depth + 1)
            if a is None or b is None or any(isinstance(x, tuple) for x in a + b):
                return None
            return [int((a == b) == (n["op"] == "=="))] + [0] * 63
        a = bits_of(fn, n["a"], nbits, env, P, depth + 1)
        if a is None:
            return None
        if n["op"] in ("<<", ">>"):
            s = fn.nodes[n["b"]].get("cv")
            if s is None:
                return None
            a = a[s:] + [0] * s if n["op"] == ">>" else [0] * s + a[:W - s]
            return trunc(a, n.get("t", ""))
        b = bits_of(fn, n["b"], nbits, env, P, depth + 1)
        if b is None:
            return None
        out = []
        for x, y in zip(a, b):
            if n["op"] == "&":
                out.append(0 if x == 0 or y == 0 else (y if x == 1 else x if y == 1 else (x if x == y else None)))
            elif n["op"] in ("|", "^", "+"):
                if x == 0:
                    out.append(y)
                elif y == 0:
                    out.append(x)
                elif n["op"] == "|":
                    out.append(1 if 1 in (x, y) else (x if x == y else None))
                else:
                    out.append(None)
            else:
                return None
        if None in out:
            return None
        return out
    if k == "call":
        nm = n.get("n", "")
        if nm.startswith("__builtin_bswap") and n["args"]:
            a = bits_of(fn, n["args"][0], nbits, env, P, depth + 1)
            w = int(nm[len("__builtin_bswap"):])
            if a is None:
                return None
            r = []
            for byte in range(w // 8 - 1, -1, -1):
                r += a[byte * 8:byte * 8 + 8]
            return r + [0] * (64 - w)
        f = P.fns.get(n.get("fn"))
        if f is not None and len(f.params) == 1 and n["args"]:
            a = bits_of(fn, n["args"][0], nbits, env, P, depth + 1)
            rets = [m for m in f.nodes if m and m["k"] == "ret"]
            if a is None or len(rets) != 1:
                return None
            return bits_of(f, rets[0]["v"], nbits, {f.params[0]["v"]: a}, P, depth + 1)
    if k in ("x", "paren", "cast", "init") and len(n.get("args", ())) == 1:
        return bits_of(fn, n["args"][0], nbits, env, P, depth + 1)
    return None


def trunc(a, t):
    w = {"unsigned int": 32, "int": 32, "unsigned short": 16, "unsigned char": 8}.get(t, 64)
    return a[:w] + [0] * (64 - w)


def byte_order(P, pid, quick=True):
    """The value stored by / loaded through append_*_W / read_*_W."""
    R = Result()
    R.rules.append("bit-provenance analysis of the fixed-width encoders: what is stored is the byte-reversed "
                   "(big-endian) value, what is loaded is its inverse, and the width copied is the width of the type")
    n = und = 0
    for w, ty in ((64, "unsigned long"), (32, "unsigned int"), (16, "unsigned short")):
        want = []
        for byte in range(w // 8 - 1, -1, -1):
            want += [("b", byte * 8 + k) for k in range(8)]
        want += [0] * (64 - w)
        for base in ("append_file_", "append_mem_", "read_file_", "read_mem_"):
            for f in P.byname.get(J + base + str(w), []):
                n += 1
                vp = [p for p in f.params if p["t"].replace(" &", "") == ty and p["n"] in ("val",)] or \
                     [p for p in f.params if p["t"] in (ty, ty + " &")]
                if not vp:
                    R.check(False, "%s|%s|shape" % (pid, f.short), f.where(), "%s has no %s value parameter" % (f.short, ty))
                    continue
                vp = vp[0]
                # the transfer call and the buffer it moves
                buf = None
                size = None
                for i, c in enumerate(f.nodes):
                    if c and c["k"] == "call" and c.get("n") in (
                            J + "append_file", J + "append_mem", J + "read_file", J + "read_mem"):
                        for a in c["args"]:
                            x = f.nodes[a] if a >= 0 else None
                            if x and x["k"] == "un" and x["op"] == "&":
                                y = f.nodes[x["a"]]
                                if y and y["k"] == "ref":
                                    buf = y["v"]
                            if x and "cv" in x and size is None and x["cv"] > 0:
                                size = x["cv"]
                if size is None or buf is None:
                    und += 1        # delegated to a helper of another shape
                    continue
                R.check(size == w // 8, "%s|%s|width" % (pid, f.short), f.where(),
                        "%s transfers %s bytes" % (f.short, size))
                if base.startswith("append"):
                    got = None
                    for m in f.nodes:
                        if m and m["k"] == "decl" and m.get("v") == buf and "i" in m:
                            got = bits_of(f, m["i"], w, {vp["v"]: [("b", k) for k in range(w)] + [0] * (64 - w)}, P)
                        if m and m["k"] == "asn" and f.nodes[m["a"]] and f.nodes[m["a"]].get("v") == buf:
                            got = bits_of(f, m["b"], w, {vp["v"]: [("b", k) for k in range(w)] + [0] * (64 - w)}, P)
                    got = trunc(got, ty) if got else got
                else:
                    got = None
                    src = {buf: [("b", k) for k in range(w)] + [0] * (64 - w)}
                    for m in f.nodes:
                        if m and m["k"] == "asn" and f.nodes[m["a"]] and f.nodes[m["a"]].get("v") == vp["v"]:
                            got = bits_of(f, m["b"], w, src, P)
                    got = trunc(got, ty) if got else got
                if got is None:
                    und += 1
                    continue
                R.check(got == want, "%s|%s|order" % (pid, f.short), f.where(),
                        "%s does not %s the value in big-endian byte order" % (
                            f.short, "store" if base.startswith("append") else "load"))
    R.coverage["undecided_encoders"] = und
    require(n >= 12, "only %d fixed-width helpers found" % n)
    return R
