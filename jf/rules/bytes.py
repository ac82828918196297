"""C02 and part of B01: functions that walk a byte range (checksums, hashes).

Abstract interpretation of the loops, no run of them.  Values are either
affine in unknowns (lengths, offsets, pointers into the input) or words whose
every bit is a XOR of unknown bits (bits of the running value and of input
bytes), which is exact for shifts, masks, XOR and linear table lookups.  A
loop is summarised: its counters move by constant steps, so at its head each is
`entry + step * t`; its running value is forgotten (32 fresh bits) and one
iteration must be the checksum definition applied to the next k bytes.  What
the branches say is kept as linear facts and decides bounds by elimination."""
import re
import subprocess

from .. import load as L
from ..core import Result
from fractions import Fraction

POLY = 0xEDB88320
ONE = "1"


class Unknown(Exception):
    pass


# -- affine expressions: {sym: coef} with "" the constant ---------------------
def aff(c=0, **k):
    d = {}
    if c:
        d[""] = c
    return d


def sym(s):
    return {s: 1}


def add(a, b, m=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + m * v
        if not d[k]:
            del d[k]
    return d


def mul(a, m):
    return {k: v * m for k, v in a.items()} if m else {}


def const(a):
    """The constant this is, or None."""
    if not a:
        return 0
    if set(a) == {""}:
        return a[""]
    return None


def canon(a):
    return tuple(sorted(a.items()))


def infeasible(cons):
    """No integer solution of all e >= 0 (rational elimination, gcd cuts)."""
    def cut(e):
        vs = [abs(v) for k, v in e.items() if k]
        if not vs:
            return e
        from math import gcd
        g = 0
        for v in vs:
            g = gcd(g, v)
        if g > 1:
            c = e.get("", 0)
            e = {k: v // g for k, v in e.items() if k}
            if c // g:
                e[""] = c // g          # floor: the integers allow it
        return e
    cs = []
    for e in cons:
        e = cut(dict(e))
        if e not in cs:
            cs.append(e)
    while True:
        for e in cs:
            c = const(e)
            if c is not None and c < 0:
                return True
        syms = set(k for e in cs for k in e if k)
        if not syms:
            return False
        # the cheapest to eliminate
        best = min(syms, key=lambda s: (sum(1 for e in cs if e.get(s, 0) > 0)
                                        * sum(1 for e in cs if e.get(s, 0) < 0), s))
        pos = [e for e in cs if e.get(best, 0) > 0]
        neg = [e for e in cs if e.get(best, 0) < 0]
        rest = [e for e in cs if not e.get(best, 0)]
        if len(pos) * len(neg) > 400:
            return False
        for p in pos:
            for n in neg:
                e = cut(add(mul(p, -n[best]), n, p[best]))
                if e not in rest:
                    rest.append(e)
        cs = rest


def entails(cons, e):
    """e >= 0 follows."""
    syms, todo, near = set(k for k in e if k), True, []
    while todo:
        todo = False
        for c in cons:
            if c not in near and syms & set(c):
                near.append(c)
                syms |= set(k for k in c if k)
                todo = True
    return infeasible(near + [add({"": -1}, e, -1)])


# -- words of bits ---------------------------------------------------------------
Z = frozenset()


def width(t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    return {"unsigned char": (8, 0), "signed char": (8, 1), "char": (8, 1), "bool": (8, 0),
            "unsigned short": (16, 0), "short": (16, 1), "unsigned int": (32, 0),
            "int": (32, 1), "unsigned long": (64, 0), "long": (64, 1),
            "unsigned long long": (64, 0), "long long": (64, 1)}.get(t)


def pointee(t):
    t = t.strip()
    t = re.sub(r"\s*(const|__restrict|restrict)$", "", t).strip()
    if not t.endswith("*"):
        return None
    return t[:-1].strip()


def fit(b, t):
    w = width(t)
    if w is None:
        return None
    n, sg = w
    hi = b[n - 1] if sg else Z
    return tuple(b[:n]) + (hi,) * (64 - n)


def bits_of(c):
    return tuple(frozenset([ONE]) if (c >> i) & 1 else Z for i in range(64))


def xor(a, b):
    return tuple(x ^ y for x, y in zip(a, b))


def known(b):
    """The constant, if all bits are."""
    if all(not x or x == {ONE} for x in b):
        return sum(1 << i for i, x in enumerate(b) if x)
    return None


def step(crc, byte):
    """One byte of the checksum definition, bit by bit."""
    x = list(crc[:32])
    for i in range(8):
        x[i] = x[i] ^ byte[i]
    for _ in range(8):
        low = x[0]
        x = x[1:] + [Z]
        for i in range(32):
            if (POLY >> i) & 1:
                x[i] = x[i] ^ low
    return tuple(x) + (Z,) * 32


def byte_at(base, off):
    return tuple(frozenset([("m", base, canon(off), i)]) for i in range(8))


class State:
    __slots__ = ("env", "cons", "crc", "pos")

    def __init__(self, env, cons, crc=None, pos=None):
        self.env, self.cons, self.crc, self.pos = env, cons, crc, pos

    def copy(self):
        return State(dict(self.env), list(self.cons), self.crc, self.pos)


class Ranges:
    """One function reading `data[0..len)`."""

    def __init__(self, P, fn, data, length, prev=None, reads=None, tables=None):
        self.P, self.fn, self.data, self.length = P, fn, data, length
        self.prev = prev            # parameter holding the previous value, or None
        self.tables = tables
        self.ctr = 0
        self.steps = 0
        self.obl = []               # (ok, what, line, msg)
        self.used = set()
        self.depth = 0
        self.loops = {}

    def new(self, p):
        self.ctr += 1
        return "%s%d" % (p, self.ctr)

    # -- CFG facts ---------------------------------------------------------------
    def heads(self, fn):
        if fn.id in self.loops:
            return self.loops[fn.id]
        color, back = {}, []

        def dfs(b):
            st = [(b, iter(fn.blocks[b]["s"]))]
            color[b] = 1
            while st:
                x, it = st[-1]
                for s in it:
                    if s is None or s not in fn.blocks:
                        continue
                    if color.get(s) == 1:
                        back.append((x, s))
                    elif s not in color:
                        color[s] = 1
                        st.append((s, iter(fn.blocks[s]["s"])))
                        break
                else:
                    color[x] = 2
                    st.pop()
        dfs(fn.entry)
        preds = {}
        for b, x in fn.blocks.items():
            for s in x["s"]:
                if s is not None:
                    preds.setdefault(s, []).append(b)
        out = {}
        for src, h in back:
            body, todo = {h}, [src]
            while todo:
                b = todo.pop()
                if b in body:
                    continue
                body.add(b)
                todo += preds.get(b, [])
            out[h] = out.get(h, set()) | body
        self.loops[fn.id] = out
        return out

    def assigned(self, fn, body):
        out, decl = set(), set()
        for b in body:
            for i in fn.blocks[b]["e"]:
                n = fn.nodes[i]
                if n["k"] == "decl":
                    decl.add(n["v"])
                tgt = None
                if n["k"] in ("asn", "incdec"):
                    tgt = n["a"]
                elif n["k"] == "un" and n["op"] in ("&", "++", "--"):
                    tgt = n["a"]
                elif n["k"] == "call":
                    for r in n.get("refs") or []:
                        pass
                if tgt is not None and fn.nodes[tgt].get("v"):
                    out.add(fn.nodes[tgt]["v"])
        return out - decl

    # -- expressions ---------------------------------------------------------------
    def word(self, v, t=None):
        """The value as bits."""
        if v is None:
            return None
        if v[0] == "A":
            c = const(v[1])
            if c is None:
                return None
            b = bits_of(c & (2 ** 64 - 1))
        elif v[0] == "B":
            b = v[1]
        else:
            return None
        return b

    def load(self, st, p, t, line):
        w = width(t)
        if p is None:
            return None
        if p[0] == "V":
            return st.env.get(p[1])
        if p[0] == "T":
            return p
        if p[0] != "P" or w is None:
            return None
        n = w[0] // 8
        if p[1] == self.data:
            self.used.add(p[1])
            room = add(add(self.length, p[2], -1), {"": -n})
            ok = entails(st.cons, p[2]) and entails(st.cons, room)
            self.obl.append((ok, "read", line, "reads %d byte%s of the input that may lie outside"
                             % (n, "" if n == 1 else "s")))
            bs = ()
            for j in range(n):
                bs += byte_at(p[1], add(p[2], {"": j}))
            hi = bs[-1] if w[1] else Z
            return ("B", bs + (hi,) * (64 - len(bs)))
        return None

    def lookup(self, name, path, idx, line):
        """table[path][idx]"""
        tab = self.tables(name) if self.tables else None
        if tab is None:
            return None
        for p in path:
            c = const(p[1]) if p and p[0] == "A" else None
            if c is None or not isinstance(tab, list) or not 0 <= c < len(tab):
                return None
            tab = tab[c]
        b = self.word(idx)
        if b is None or not isinstance(tab, list) or isinstance(tab[0], list):
            return None
        k = known(b)
        if k is not None:
            return ("A", {"": tab[k]} if tab[k] else {}) if k < len(tab) else None
        n = max(1, (len(tab) - 1).bit_length())
        if any(x for x in b[n:]):
            self.obl.append((False, "index", line, "index into '%s' not limited to %d bits" % (name, n)))
            return None
        if tab[0] != 0 or any(tab[i] != tab[i & (i - 1)] ^ tab[i & -i] for i in range(1, len(tab))):
            bad = [i for i in range(len(tab))
                   if tab[i] != tab[i & (i - 1)] ^ tab[i & -i] and i & (i - 1)]
            self.obl.append((False, "table", line, "table '%s%s' is not a checksum table (entry %s)"
                             % (name, "".join("[%s]" % const(p[1]) for p in path),
                                bad[0] if bad else 0)))
            return None
        out = [Z] * 64
        for j in range(n):
            e = tab[1 << j]
            for i in range(64):
                if (e >> i) & 1:
                    out[i] = out[i] ^ b[j]
        return ("B", tuple(out))

    def eval(self, fn, i, nv, st):
        n = fn.nodes[i]
        k, t, line = n["k"], n.get("t", ""), n.get("l", 0)
        g = lambda x: nv.get(x)
        if k == "ref":
            if n.get("v"):
                v = st.env.get(n["v"])
                if v is None and "cv" in n:
                    v = ("A", {"": n["cv"]} if n["cv"] else {})
                if v is None and "[" in t:
                    return ("L", n["v"])
                return v
            if n.get("g") and "[" in t:
                return ("T", n["g"], ())
            if "cv" in n:
                return ("A", {"": n["cv"]} if n["cv"] else {})
            return None
        if "cv" in n and k not in ("asn", "incdec", "decl", "call"):
            return ("A", {"": n["cv"]} if n["cv"] else {})
        if n.get("null"):
            return ("0",)
        if k == "decl":
            v = g(n["i"]) if "i" in n else None
            st.env[n["v"]] = self.conv(v, t)
            return None
        if k == "cond":
            return None
        if k == "un":
            op = n["op"]
            if op == "*":
                return self.load(st, g(n["a"]), t, line)
            if op == "&":
                a = fn.nodes[n["a"]]
                if a["k"] == "ref" and a.get("v"):
                    return ("V", a["v"])
                if a["k"] in ("idx", "un"):
                    return nv.get(("addr", n["a"]))
                return None
            v = g(n["a"])
            if op == "!":
                return ("N", v)
            if op == "~":
                b = self.word(v)
                return ("B", fit(xor(b, bits_of(2 ** 64 - 1)), t)) if b and width(t) else None
            if op == "-" and v and v[0] == "A":
                return ("A", mul(v[1], -1))
            if op == "+":
                return v
            return None
        if k == "incdec":
            a = fn.nodes[n["a"]]
            old = g(n["a"])
            d = 1 if "++" in n["op"] else -1
            new = self.arith("+", old, ("A", {"": d}), a.get("t", t))
            if a.get("v"):
                st.env[a["v"]] = new
            return old if n.get("post") else new
        if k == "asn":
            a = fn.nodes[n["a"]]
            v = g(n["b"])
            if n["op"] != "=":
                v = self.arith(n["op"][:-1], g(n["a"]), v, a.get("t", t))
            v = self.conv(v, a.get("t", t))
            if a["k"] == "ref" and a.get("v"):
                st.env[a["v"]] = v
            elif a["k"] == "un" and a["op"] == "*":
                p = g(a["a"])
                if p and p[0] == "V":
                    st.env[p[1]] = v
            return v
        if k == "bin":
            op = n["op"]
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return ("C", op, g(n["a"]), g(n["b"]), fn.nodes[n["a"]].get("t", ""),
                        fn.nodes[n["b"]].get("t", ""))
            if op == ",":
                return g(n["b"])
            return self.arith(op, g(n["a"]), g(n["b"]), t)
        if k == "idx":
            a, b = g(n["a"]), g(n["b"])
            if a and a[0] == "T":
                if "[" in t:
                    return ("T", a[1], a[2] + (b,))
                return self.lookup(a[1], a[2], b, line)
            if a and a[0] == "P":
                w = width(t)
                if w is None:
                    return None
                p = self.arith("+", a, b, t + " *")
                nv[("addr", i)] = p
                return self.load(st, p, t, line)
            return None
        if k == "ret":
            return g(n["v"]) if "v" in n and n["v"] is not None else None
        return None

    def conv(self, v, t):
        if v is None:
            return None
        if v[0] == "B":
            f = fit(v[1], t)
            return ("B", f) if f else None
        if v[0] == "A" and const(v[1]) is None:
            w = width(t)
            if w and w[0] < 32:
                return None
        return v

    def arith(self, op, a, b, t):
        if a is None or b is None:
            return None
        if a[0] == "P" or b[0] == "P":
            if op == "-" and a[0] == "P" and b[0] == "P":
                if a[1] != b[1]:
                    return None
                d = add(a[2], b[2], -1)
                return ("A", d)
            if b[0] == "P":
                a, b = b, a
            if b[0] != "A" or op not in ("+", "-"):
                return None
            e = pointee(t)
            if e is None:
                return None
            w = (8, 0) if e in ("void",) else width(e)
            if w is None:
                return None
            return ("P", a[1], add(a[2], mul(b[1], w[0] // 8), 1 if op == "+" else -1))
        if a[0] == "A" and b[0] == "A":
            x, y = a[1], b[1]
            cx, cy = const(x), const(y)
            if op == "+":
                return ("A", add(x, y))
            if op == "-":
                return ("A", add(x, y, -1))
            if op == "*" and (cx is not None or cy is not None):
                return ("A", mul(x, cy) if cy is not None else mul(y, cx))
            if op == "<<" and cy is not None and 0 <= cy < 63:
                return ("A", mul(x, 1 << cy))
            if op in ("/", ">>") and cy is not None and cy >= 0:
                d = cy if op == "/" else 1 << cy
                return self.div(x, d)
            if op == "%" and cy:
                q = self.div(x, cy)
                return ("A", add(x, q[1], -cy)) if q else None
            if op == "&":
                m = cy if cy is not None else cx
                z = x if cy is not None else y
                if cx is not None and cy is not None:
                    return ("A", {"": cx & cy} if cx & cy else {})
                if m is not None and m > 0 and m & (m + 1) == 0:
                    q = self.div(z, m + 1)
                    return ("A", add(z, q[1], -(m + 1))) if q else None
                if m is not None and m < 0 and (-m) & (-m - 1) == 0:
                    q = self.div(z, -m)
                    return ("A", mul(q[1], -m)) if q else None
                return None
            if cx is not None and cy is not None:
                if op == "|":
                    return ("A", {"": cx | cy} if cx | cy else {})
                if op == "^":
                    return ("A", {"": cx ^ cy} if cx ^ cy else {})
            return None
        wa, wb = self.word(a), self.word(b)
        if wa is None or wb is None:
            return None
        kb, ka = known(wb), known(wa)
        r = None
        if op == "^":
            r = xor(wa, wb)
        elif op == "&":
            if all((not x) or (not y) or x == {ONE} or y == {ONE} or x == y for x, y in zip(wa, wb)):
                r = tuple(Z if not x or not y else (y if x == {ONE} else x) for x, y in zip(wa, wb))
        elif op in ("|", "+"):
            if all(not x or not y for x, y in zip(wa, wb)):
                r = xor(wa, wb)
            elif op == "|" and all(not x or not y or x == y for x, y in zip(wa, wb)):
                r = tuple(x or y for x, y in zip(wa, wb))
        elif op == "<<" and kb is not None and kb < 64:
            r = (Z,) * kb + wa[:64 - kb]
        elif op == ">>" and kb is not None and kb < 64:
            r = wa[kb:] + ((wa[63] if (width(t) or (0, 0))[1] else Z),) * kb
        elif op == "*" and (ka == 1 or kb == 1):
            r = wa if kb == 1 else wb
        elif op == "*" and kb is not None and kb and kb & (kb - 1) == 0:
            s = kb.bit_length() - 1
            r = (Z,) * s + wa[:64 - s]
        if r is None:
            return None
        r = fit(r, t)
        return ("B", r) if r else None

    def div(self, x, d):
        """floor(x / d) of a non-negative x"""
        if d <= 0:
            return None
        if const(x) is not None:
            return ("A", {"": const(x) // d} if const(x) // d else {})
        if d == 1:
            return ("A", x)
        key = "%r/%d" % (canon(x), d)
        self.divs[key] = [add(x, sym(key), -d), add(add(mul(sym(key), d), x, -1), {"": d - 1})]
        return ("A", sym(key))

    # -- branches ----------------------------------------------------------------
    def facts(self, c, want, t=""):
        """Facts that hold when c is `want`: list of alternatives (lists), or
        True / False when decided, or None when nothing is known."""
        if c is None:
            return None
        if c[0] == "N":
            return self.facts(c[1], not want, t)
        if c[0] == "A":
            k = const(c[1])
            if k is not None:
                return bool(k) == want
            if not want:
                return [[c[1], mul(c[1], -1)]]
            if (width(t) or (0, 1))[1]:
                return [[add(c[1], {"": -1})], [add(mul(c[1], -1), {"": -1})]]
            return [[add(c[1], {"": -1})]]
        if c[0] == "P":
            return True if want else False
        if c[0] == "0":
            return not want
        if c[0] == "B":
            k = known(c[1])
            return None if k is None else bool(k) == want
        if c[0] == "C":
            op, a, b = c[1], c[2], c[3]
            if a is None or b is None:
                return None
            if not want:
                op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
            if "0" in (a[0], b[0]):
                return (op == "!=") if "P" in (a[0], b[0]) else None
            if a[0] == "P" and b[0] == "P":
                if a[1] != b[1]:
                    return None
                d = add(a[2], b[2], -1)
            elif a[0] == "A" and b[0] == "A":
                d = add(a[1], b[1], -1)
            else:
                return None
            k = const(d)
            if k is not None:
                return {"<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0,
                        "==": k == 0, "!=": k != 0}[op]
            m = mul(d, -1)
            lt, gt = add(m, {"": -1}), add(d, {"": -1})
            if op == "!=":
                # unsigned against 0: the only way is up
                if const(b[1] if b[0] == "A" else {"x": 1}) == 0 and not (width(c[4]) or (0, 1))[1]:
                    return [[gt]]
                return [[lt], [gt]]
            if op in ("<", "<=") and b[0] == "A" and const(b[1]) is not None \
                    and not (width(c[4]) or (0, 1))[1]:
                pass
            return {"<": [[lt]], ">": [[gt]], "<=": [[m]], ">=": [[d]],
                    "==": [[d, m]]}[op]
        return None

    # -- the running value ---------------------------------------------------------
    def advance(self, st, b):
        """Bytes consumed when the running value is b, or None."""
        if st.crc is None or b is None:
            return None
        if b[:32] == st.crc[:32]:
            return st.pos
        x = st.crc
        offs = set()
        for s in b[:32]:
            for a in s:
                if isinstance(a, tuple) and a[0] == "m" and a[1] == self.data:
                    offs.add(a[2])
        for j in range(min(len(offs), 64)):
            x = step(x, byte_at(self.data, add(st.pos, {"": j})))
            if b[:32] == x[:32]:
                return add(st.pos, {"": j + 1})
        return None

    # -- walking -----------------------------------------------------------------
    def run(self, env, cons, cb):
        self.divs = {}
        self.cb = cb
        st = State(env, cons)
        if self.prev:
            b = self.word(env[self.prev])
            st.crc = fit(xor(b, bits_of(2 ** 64 - 1)), "unsigned int")
            st.pos = {}
        self.enter(self.fn, self.fn.entry, st, {}, lambda s, v, line: cb(s, v, line), ())

    def all_cons(self, st):
        return st.cons + [c for d in self.divs.values() for c in d]

    def enter(self, fn, b, st, nv, k, ctx):
        """About to execute block b.  ctx: ((fn, head, body, pass, handler), ...)"""
        self.steps += 1
        if self.steps > 20000:
            raise Unknown("too many paths")
        st.cons = st.cons + [c for d in self.divs.values() for c in d if c not in st.cons]
        # leaving or closing loops that are being summarised
        while ctx and ctx[-1][0] == fn.id and b not in ctx[-1][2]:
            if ctx[-1][3] == 1:
                return                      # first pass: only the way back matters
            ctx = ctx[:-1]
        for c in reversed(ctx):
            if c[0] == fn.id and c[1] == b:
                return c[4](st)
        hs = self.heads(fn)
        if b in hs and not any(c[0] == fn.id and c[1] == b for c in ctx):
            if not self.decided(fn, b, st, nv):
                return self.loop(fn, b, hs[b], st, nv, k, ctx)
        self.block(fn, b, 0, st, nv, k, ctx)

    def decided(self, fn, b, st, nv):
        """The head's own test is decided by constants: just follow it."""
        x = fn.blocks[b]
        if "tc" not in x or len([s for s in x["s"] if s is not None]) < 2:
            return False
        s2, nv2 = st.copy(), dict(nv)
        keep = list(self.obl)
        try:
            for i in x["e"]:
                if fn.nodes[i]["k"] == "call":
                    return False
                nv2[i] = self.eval(fn, i, nv2, s2)
            v = nv2.get(x["tc"])
            f = self.facts(v, True, fn.nodes[x["tc"]].get("t", ""))
            k = None
            if v and v[0] == "A":
                k = const(v[1])
            elif v and v[0] == "C" and v[2] and v[3] and v[2][0] == v[3][0] and v[2][0] in "AP":
                k = const(add(v[2][-1], v[3][-1], -1))
            if f and (k is None or abs(k) > 16):
                f = None                # too many rounds to follow one by one
        finally:
            self.obl = keep
        return f is True or f is False

    def tested(self, fn, b, st, nv):
        """The affine value the head compares with 0, if that is how it is left."""
        x = fn.blocks[b]
        if "tc" not in x:
            return None
        s2, nv2, keep = st.copy(), dict(nv), list(self.obl)
        for i in x["e"]:
            if fn.nodes[i]["k"] == "call":
                self.obl = keep
                return None
            nv2[i] = self.eval(fn, i, nv2, s2)
        self.obl = keep
        v = nv2.get(x["tc"])
        if v and v[0] == "C" and v[1] == "!=" and v[2] and v[3] and v[2][0] == v[3][0] == "A":
            return add(v[2][1], v[3][1], -1)
        return v[1] if v and v[0] == "A" else None

    def block(self, fn, b, pos, st, nv, k, ctx):
        x = fn.blocks[b]
        es = x["e"]
        for p in range(pos, len(es)):
            i = es[p]
            n = fn.nodes[i]
            if n["k"] == "call":
                r = self.call(fn, b, p, i, st, nv, k, ctx)
                if r == "cont":
                    continue
                return
            nv[i] = self.eval(fn, i, nv, st)
            if n["k"] == "ret":
                return k(st, nv[i], n.get("l", 0))
            if n["k"] == "throw":
                return
        self.leave(fn, b, st, nv, k, ctx)

    def leave(self, fn, b, st, nv, k, ctx):
        x = fn.blocks[b]
        ss = [s for s in x["s"]]
        if b == 0 or not ss or x.get("noret"):
            if not x.get("noret"):
                return k(st, None, fn.line)
            return
        if x.get("sw"):
            v = nv.get(x["tc"])
            labels = [fn.blocks[s].get("lb", {}).get("case") if s is not None else None for s in ss]
            for s, c in zip(ss, labels):
                if s is None:
                    continue
                s2 = st.copy()
                if v is not None and v[0] == "A":
                    if c is not None:
                        d = add(v[1], {"": -c})
                        s2.cons += [d, mul(d, -1)]
                    else:
                        alts = [s2]
                        for c2 in labels:
                            if c2 is None:
                                continue
                            d = add(v[1], {"": -c2})
                            nxt = []
                            for a in alts:
                                for e in (add(d, {"": -1}), add(mul(d, -1), {"": -1})):
                                    if not entails(a.cons, add(mul(e, -1), {"": -1})):
                                        a2 = a.copy()
                                        a2.cons.append(e)
                                        nxt.append(a2)
                            alts = nxt[:4]
                        for a in alts:
                            if not infeasible(a.cons):
                                self.enter(fn, s, a, dict(nv), k, ctx)
                        continue
                    if infeasible(s2.cons):
                        continue
                self.enter(fn, s, s2, dict(nv), k, ctx)
            return
        live = [s for s in ss if s is not None]
        if "tc" in x and len(ss) == 2:
            tc = x["tc"]
            for s, want in zip(ss, (True, False)):
                if s is None:
                    continue
                f = self.facts(nv.get(tc), want, fn.nodes[tc].get("t", ""))
                if f is False:
                    continue
                if f is True or f is None:
                    self.enter(fn, s, st.copy(), dict(nv), k, ctx)
                    continue
                for alt in f:
                    s2 = st.copy()
                    s2.cons += [e for e in alt if e not in s2.cons]
                    if not infeasible(self.all_cons(s2)):
                        self.enter(fn, s, s2, dict(nv), k, ctx)
            return
        for s in live:
            self.enter(fn, s, st.copy() if len(live) > 1 else st, dict(nv), k, ctx)

    def call(self, fn, b, p, i, st, nv, k, ctx):
        n = fn.nodes[i]
        args = n.get("args", [])
        vals = [nv.get(a) for a in args]
        if n.get("n") in ("memcpy", "__builtin_memcpy") and len(args) == 3:
            d, s, c = vals
            cc = const(c[1]) if c and c[0] == "A" else None
            t = {1: "unsigned char", 2: "unsigned short", 4: "unsigned int", 8: "unsigned long"}.get(cc)
            if d and d[0] == "V" and s and s[0] == "P" and t:
                st.env[d[1]] = self.load(st, s, t, n.get("l", 0))
                nv[i] = None
                return "cont"
            if s and s[0] == "P" and s[1] == self.data:
                raise Unknown("copies the input elsewhere")
            if d and d[0] == "V":
                st.env[d[1]] = None
            nv[i] = None
            return "cont"
        ts = self.P.targets(n) if hasattr(self.P, "targets") else []
        g = None
        for f in ts or []:
            g = self.P.fns.get(f) if isinstance(f, str) else f
        if g is not None and g.blocks and self.depth < 6 and not n.get("obj"):
            st2 = st.copy()
            for q, v, a in zip(g.params, vals, args):
                if q["t"].endswith("&"):
                    raise Unknown("argument by reference")
                st2.env[q["v"]] = self.conv(v, q["t"])
            self.depth += 1

            def back(s, v, line):
                d0, self.depth = self.depth, self.depth - 1
                nv2 = dict(nv)
                nv2[i] = self.conv(v, n.get("t", ""))
                self.block(fn, b, p + 1, s, nv2, k, ctx)
                self.depth = d0
            self.enter(g, g.entry, st2, {}, back, ctx)
            self.depth -= 1
            return "done"
        for v in vals:
            if v and v[0] == "P" and v[1] == self.data:
                raise Unknown("input handed to %s" % n.get("n"))
            if v and v[0] == "V":
                st.env[v[1]] = None
        nv[i] = None
        return "cont"

    def loop(self, fn, h, body, st, nv, k, ctx):
        mod = [v for v in sorted(self.assigned(fn, body)) if v in st.env]
        # first pass: by how much does each counter move?
        probe = {}
        s1 = st.copy()
        for v in mod:
            x = st.env[v]
            if x is None:
                continue
            y = self.new("w")
            if x[0] == "A":
                s1.env[v] = ("A", sym(y))
            elif x[0] == "P":
                s1.env[v] = ("P", x[1], sym(y))
            else:
                s1.env[v] = None
                continue
            probe[v] = y
        moves = {v: set() for v in probe}
        s1.crc = s1.pos = None
        keep = list(self.obl)

        def end1(s):
            for v, y in probe.items():
                x = s.env.get(v)
                if x is None or x[0] not in "AP":
                    moves[v].add(None)
                    continue
                d = add(x[1] if x[0] == "A" else x[2], sym(y), -1)
                moves[v].add(const(d))
        self.enter_body(fn, h, s1, dict(nv), k, ctx + ((fn.id, h, body, 1, end1),))
        self.obl = keep + [o for o in self.obl[len(keep):] if o[1] in ("table", "index")]
        # second pass
        t = sym(self.new("t"))
        s2 = st.copy()
        s2.cons.append(t)
        run = []
        for v in mod:
            x = st.env[v]
            if v in probe and len(moves[v]) == 1 and None not in moves[v]:
                d = mul(t, next(iter(moves[v])))
                s2.env[v] = ("A", add(x[1], d)) if x[0] == "A" else ("P", x[1], add(x[2], d))
            elif x is not None and x[0] == "B" and self.prev:
                run.append(v)
                s2.env[v] = None
            else:
                s2.env[v] = None
        z = self.tested(fn, h, s2, nv)
        if z is not None:
            # leaves when it is 0 and moves by one: it never jumps over 0
            (tk,) = t
            c = z.get(tk, 0)
            z0 = {q: w for q, w in z.items() if q != tk}
            if c == 1 and entails(self.all_cons(st), mul(z0, -1)):
                s2.cons.append(mul(z, -1))
            if c == -1 and entails(self.all_cons(st), z0):
                s2.cons.append(z)
        crc = None
        for v in run:
            p = self.advance(st, self.word(st.env[v]))
            if p is not None:
                y = self.new("c")
                crc = v
                s2.env[v] = ("B", fit(tuple(frozenset([(y, i)]) for i in range(64)), "unsigned int"))
                break
        line = fn.nodes[fn.blocks[h]["e"][0]].get("l", fn.line) if fn.blocks[h]["e"] else fn.line
        if crc is None:
            self.enter_body(fn, h, s2, dict(nv), k,
                            ctx + ((fn.id, h, body, 2, lambda s: None),))
            return
        ends = []
        s2.crc, s2.pos = self.word(s2.env[crc]), None
        # the consumption per iteration: found with the position unknown as p0
        p0 = p
        probe2 = s2.copy()
        probe2.pos = p0
        got = set()

        def peek(s):
            b = self.word(s.env.get(crc))
            if b is None:
                got.add(None)
                return
            offs = set(a[2] for w in b[:32] for a in w if isinstance(a, tuple) and a[0] == "m")
            got.add(len(offs))
        keep = list(self.obl)
        self.enter_body(fn, h, probe2, dict(nv), lambda *a: None,
                        ctx + ((fn.id, h, body, 1, peek),))
        self.obl = keep + [o for o in self.obl[len(keep):] if o[1] in ("table", "index")]
        if not got:
            got.add(0)                  # never goes round
        if None in got or len(got) != 1:
            raise Unknown("the running value is not followed through the loop")
        kk = got.pop()
        s2.pos = add(p0, mul(t, kk))
        head = s2.pos

        def end2(s):
            b = self.word(s.env.get(crc))
            q = self.advance(s, b)
            ok = q is not None and const(add(q, head, -1)) == kk
            self.obl.append((ok, "step", line, "one iteration is not the checksum of the next %d byte%s "
                             "(in order, each once)" % (kk, "" if kk == 1 else "s")))
            room = add(add(self.length, head, -1), {"": -kk})
            self.obl.append((entails(s.cons, room), "room", line,
                             "an iteration may go beyond the last byte"))
        s2.cons.append(add(self.length, head, -1))      # shown by 'room', step by step
        self.enter_body(fn, h, s2, dict(nv), k, ctx + ((fn.id, h, body, 2, end2),))

    def enter_body(self, fn, h, st, nv, k, ctx):
        self.block(fn, h, 0, st, nv, k, ctx)


# -- constant tables, from the compiler's IR of the file ---------------------------
_tabs = {}


def tables_of(file):
    if file in _tabs:
        return _tabs[file]
    r = subprocess.run(["clang++", "-std=c++17", "-O0", "-S", "-emit-llvm", "-o", "-", "-DLOGGER_H",
                        "-I" + L.REPO + "/src", "-I" + L.REPO + "/include",
                        "-I" + L.REPO + "/tools", "-I" + L.VERIF + "/stubs",
                        L.REPO + "/" + file], capture_output=True, text=True)
    out = {}
    for m in re.finditer(r"^@(\S+) = [^\n]*?constant (\[[^\n]*)$", r.stdout, re.M):
        out[m.group(1)] = m.group(2)
    _tabs[file] = out
    return out


def parse_table(s):
    """[8 x [256 x i32]] [[256 x i32] [i32 0, ...], ...] -> nested lists"""
    m = re.match(r"\[(\d+) x i(\d+)\] (\[[^\]]*\]|zeroinitializer)", s)
    if m:
        if m.group(3) == "zeroinitializer":
            return [0] * int(m.group(1))
        w = int(m.group(2))
        return [int(x) & (2 ** w - 1) for x in re.findall(r"i\d+ (-?\d+)", m.group(3))]
    m = re.match(r"\[(\d+) x \[(\d+) x i(\d+)\]\] \[(.*)\]", s)
    if m:
        w, n = int(m.group(3)), int(m.group(2))
        out = []
        for a in re.finditer(r"\[%d x i%d\] (zeroinitializer|\[[^\]]*\])" % (n, w), m.group(4)):
            out.append([0] * n if a.group(1) == "zeroinitializer" else
                       [int(x) & (2 ** w - 1) for x in re.findall(r"i\d+ (-?\d+)", a.group(1))])
        return out
    return None


def table_of(file):
    memo = {}

    def get(name):
        if name not in memo:
            memo[name] = None
            short = name.split("::")[-1]
            for k, v in tables_of(file).items():
                if k == short or re.search(r"\d%s(E|$)" % re.escape(short), k) or k.endswith(short):
                    memo[name] = parse_table(v)
        return memo[name]
    return get


def checksum_rule(P, pid, quick):
    R = Result()
    R.rules.append("checksum loops: each iteration is the CRC-32 definition applied to the next bytes, "
                   "all bytes are covered once, nothing beyond them is read (affine counters, words as "
                   "XORs of unknown bits)")
    und = []
    cand = []
    for f in P.fns.values():
        if not f.file.endswith("crc32.cc") or f.cls or f.is_lambda:
            continue
        ps = f.params
        if len(ps) == 3 and "*" in ps[0]["t"] and ps[1]["t"] in ("unsigned long", "const unsigned long") \
                and ps[2]["t"] in ("unsigned int", "const unsigned int") and f.ret == "unsigned int":
            cand.append(f)
    callers = P.callers()
    for f in sorted(cand, key=lambda f: f.line):
        if f.short.endswith("last8"):
            continue            # by its name not a checksum of the whole range; unused
        R.functions.add(f.name)
        d, n, c = (p["v"] for p in f.params)
        W = Ranges(P, f, "data", sym("len"), prev=c, tables=table_of(f.file))
        env = {d: ("P", "data", {}), n: ("A", sym("len")),
               c: ("B", fit(tuple(frozenset([("p", i)]) for i in range(64)), "unsigned int"))}
        ends = []

        def done(st, v, line):
            b = W.word(v)
            if b is None:
                ends.append((None, line))
                return
            nb = fit(xor(b, bits_of(2 ** 64 - 1)), "unsigned int")
            q = W.advance(st, nb)
            if q is None:
                ends.append((False, line, "the value returned is not the complement of the running value"))
                return
            cs = st.cons
            ok = entails(cs, add(q, sym("len"), -1)) and entails(cs, add(sym("len"), q, -1))
            ends.append((ok, line, "bytes are left out of the checksum"))
        try:
            W.run(env, [sym("len")], done)
        except (Unknown, RecursionError) as e:
            und.append("%s: %s" % (f.short, e))
            # tables and reads seen until then still count
            ends = []
        if any(e[0] is None for e in ends) and not any(not o[0] for o in W.obl):
            und.append("%s: the value returned is not followed" % f.short)
            ends = [e for e in ends if e[0] is not None]
        seen = {}
        for ok, what, line, msg in W.obl:
            k = (what, line)
            if k not in seen or not ok:
                seen[k] = (ok, msg)
        for (what, line), (ok, msg) in sorted(seen.items()):
            R.check(ok, "%s:%s" % (f.name, what), "%s:%d" % (f.file, line), msg)
        for e in ends:
            if e[0] is None:
                continue
            R.check(e[0], "%s:result" % f.name, "%s:%d" % (f.file, e[1]), e[2])
    R.coverage["undecided_c02"] = und
    return R


def hash_rule(P, pid, quick):
    """A hash of a key is a function of the key's bytes: no byte outside is read."""
    R = Result()
    R.rules.append("hash functions read only bytes of the key (affine offsets against the length)")
    und = []
    for f in sorted(P.fns.values(), key=lambda f: f.line):
        if not f.file.endswith("murmurhash3.cc") or f.cls or f.is_lambda or len(f.params) != 4:
            continue
        if "*" not in f.params[0]["t"]:
            continue
        R.functions.add(f.name)
        d, n, s, o = (p["v"] for p in f.params)
        W = Ranges(P, f, "key", sym("len"))
        env = {d: ("P", "key", {}), n: ("A", sym("len")), s: None, o: ("P", "out", {})}
        try:
            W.run(env, [sym("len")], lambda st, v, line: None)
        except (Unknown, RecursionError) as e:
            und.append("%s: %s" % (f.short, e))
        seen = {}
        for ok, what, line, msg in W.obl:
            k = (what, line)
            if k not in seen or not ok:
                seen[k] = (ok, msg)
        for (what, line), (ok, msg) in sorted(seen.items()):
            R.check(ok, "%s:%s" % (f.name, what), "%s:%d" % (f.file, line), msg)
    R.coverage["undecided_hash"] = und
    return R
