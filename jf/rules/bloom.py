"""Bloom filter and its bitmap: no false negatives."""
from ..core import Result, require
from ..engine import Engine, Rule, NZ
from .. import terms as T

HASH = {"MurmurHash3_x64_128", "MurmurHash3_x86_128", "MurmurHash3_x86_32"}
BF, BM = "BloomFilter", "GenericBitmap"
THIS = ("deref", ("this",))


def fld(n):
    return ("fld", THIS, n)


def canon(t, pparams):
    """Replace the two hash words by ('H', k); return (term, sources)."""
    src = set()

    def f(x):
        if x and x[0] == "elt":
            src.add(x[1])
            return ("H", T.subst(x[2], f))
        if x and x[0] == "ld" and x[1][0] == "idx" and x[1][1] in pparams:
            return ("H", T.subst(x[1][2], f))
        return None
    return T.subst(t, f), src


def bypass(fn, L, b):
    """Is there a path from entry to exit that avoids block b?"""
    seen, w = set(), [fn.entry]
    while w:
        x = w.pop()
        if x == b or x in seen:
            continue
        seen.add(x)
        if x == fn.exit:
            return True
        w += L.succ.get(x, [])
    return False


class AllSet(Rule):
    """check() when every bit it looks at is set."""
    track_classes = ()

    def __init__(self, P):
        self.P = P
        self.bad = []
        self.n = 0

    def descend(self, fid):
        return self.P.fns[fid].file == "src/bloomfilter.cc"

    def call(self, eng, fn, i, node, st):
        if node.get("n") == BM + "::get":
            return [(st.auto, NZ, None)]
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top:
            self.n += 1
            if val is not None and val[0] == "c" and val[1] == 0:
                self.bad.append(line)
        return auto


def filter_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("value numbering of the Bloom filter: adding and testing a key touch the same bits over the same "
                   "range, adding sets every one of them, testing answers no only for a bit that is clear, and every "
                   "source of the hash words agrees")
    idx = {}
    srcs = {}
    undecided = 0
    for nm, leaf in (("set", BM + "::set"), ("check", BM + "::get")):
        fs = [f for f in P.byname.get(BF + "::" + nm, [])]
        require(fs, "BloomFilter::%s not found" % nm)
        for f in fs:
            t = T.Terms(P, opaque={BM + "::set", BM + "::get"} | HASH)
            fr = t.run(f)
            R.functions.add(f.name)
            ev = [e for e in t.events if e.kind == "call" and e.name == leaf]
            key = "%s|%s(%s)" % (pid, f.short, f.params[0]["t"])
            if not ev:
                # delegates to the other overload: inlined, so this is a missing access
                R.check(False, key + "|touches the bitmap", f.where(), "%s never touches the bitmap" % f.short)
                continue
            pp = set(("parm", k) for k, p in enumerate(f.params) if p["t"].replace(" ", "") == "uint64_t*" or
                     p["t"] in ("unsigned long *", "const unsigned long *"))
            for e in ev:
                c, s = canon(e.args[0], pp)
                idx.setdefault(nm, []).append((f, e, c))
                for x in s:
                    srcs.setdefault(x[2][1] if x[0] == "out" else "?", []).append((f, x))
                L = e.frame.loops
                heads = L.inner(e.block)
                if nm == "set":
                    if len(e.args) > 1:
                        v = e.args[1]
                        if not T.unknown(v):
                            R.check(v[0] == "c" and v[1] != 0, key + "|value", e.fn.where(e.node["l"]),
                                    "%s does not set the bit" % f.short)
                    if heads:
                        h = heads[0]
                        skip = [l for l in L.latches[h] if not L.dom(e.block, l)]
                        R.check(not skip, key + "|every iteration", e.fn.where(e.node["l"]),
                                "%s can skip a bit: the call is not made on every iteration" % f.short)
                        ex = [b for b in L.loops[h] if b != h and any(q not in L.loops[h] for q in L.succ[b])]
                        if any(q not in L.loops[h] for q in L.succ[h]):
                            R.check(not ex, key + "|all iterations", e.fn.where(e.node["l"]),
                                    "%s can stop before all bits are set" % f.short)
                        R.check(not bypass(e.frame.fn, L, h), key + "|reached", e.fn.where(e.node["l"]),
                                "%s can return without setting any bit" % f.short)
            if nm == "check":
                r = AllSet(P)
                r.top = f.id
                e = Engine(P, r)
                e.summary(f.id, None, frozenset())
                R.check(not r.bad, key + "|no spurious no", f.where(r.bad[0] if r.bad else None),
                        "%s can answer 'absent' although every bit it looked at is set" % f.short)
    ref = None
    for f, e, c in idx.get("set", []) + idx.get("check", []):
        if T.unknown(c):
            undecided += 1
            continue
        if ref is None:
            ref = (f, e, c)
            continue
        R.check(c == ref[2], "%s|%s(%s)|same bits" % (pid, f.short, f.params[0]["t"]), e.fn.where(e.node["l"]),
                "%s(%s) looks at other bits than %s(%s) at %s" % (
                    f.short, f.params[0]["t"], ref[0].short, ref[0].params[0]["t"], ref[1].fn.where(ref[1].node["l"])))
    # the hash words: same function, same seed, also where they are computed outside
    hs = []
    for name, l in srcs.items():
        for f, x in l:
            if x[0] == "out":
                hs.append((f, x[2][1], tuple(a for a in x[2][3])))
    for g in P.byname.get("jungle::get_hash_pair", []):
        t = T.Terms(P, opaque=HASH)
        t.run(g)
        R.functions.add(g.name)
        for e in t.events:
            if e.kind == "call" and e.name in set(h[1] for h in hs):
                hs.append((g, e.name, tuple(e.args)))
        if not any(e.kind == "call" and e.name in set(h[1] for h in hs) for e in t.events) and hs:
            R.check(False, pid + "|get_hash_pair|hash function", g.where(),
                    "get_hash_pair uses another hash function than the Bloom filter")
    if hs:
        f0, n0, a0 = hs[0]
        seed0 = [a for a in a0 if a is not None and a[0] == "c"]
        for f, nme, a in hs[1:]:
            seed = [x for x in a if x is not None and x[0] == "c"]
            R.check(nme == n0 and seed == seed0, "%s|%s|hash words" % (pid, f.short), f.where(),
                    "%s computes the hash words in another way than %s" % (f.short, f0.short))
    R.coverage["undecided_terms"] = undecided
    require(len(idx.get("set", [])) >= 1 and len(idx.get("check", [])) >= 1, "no bitmap accesses found")
    return R


def loads(t, field):
    """Index terms with which the array field is read inside term t."""
    out = []

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "idx":
                b = x[1]
                if b in (("ld", fld(field)), ("addr", fld(field))):
                    out.append(x[2])
            for y in x:
                go(y)
    go(t)
    return out


def bitmap_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("value numbering of the bitmap: reading and writing a bit address the same byte with the same mask, "
                   "the masks are eight disjoint bits, writing changes only the masked bit, under a lock shared by "
                   "all bits of a byte")
    one = {}
    for nm in ("get", "set"):
        f = P.one(BM + "::" + nm)
        t = T.Terms(P)
        fr = t.run(f)
        one[nm] = (f, t, fr)
        R.functions |= set(x.fn.name for x in t.frames)
    f, t, fr = one["get"]
    ret = fr.rets[0] if len(fr.rets) == 1 else T.phi(set(fr.rets)) if fr.rets else None
    require(ret is not None, "GenericBitmap::get returns nothing")
    gb = set(loads(ret, BM + "::myBitmap"))
    gm = set(loads(ret, BM + "::masks8"))
    f2, t2, fr2 = one["set"]
    st = [e for e in t2.events if e.kind == "store" and e.lv[0] == "idx" and
          e.lv[1] == ("ld", fld(BM + "::myBitmap"))]
    R.check(bool(st), pid + "|GenericBitmap::set|stores", f2.where(), "setting a bit never writes the bitmap")
    sb = set(e.lv[2] for e in st)
    if gb and sb and not T.unknown(tuple(gb) + tuple(sb)):
        R.check(gb == sb, pid + "|GenericBitmap|same byte", f2.where(),
                "GenericBitmap::set writes byte %s, GenericBitmap::get reads byte %s of the bitmap"
                % (show(sb), show(gb)))
    offs = set()
    for e in st:
        R.check(not bypass(e.frame.fn, e.frame.loops, e.block) or e.frame is not fr2, pid + "|GenericBitmap::set|always",
                e.fn.where(e.node["l"]), "setting a bit can return without writing")
        prev = loads(e.val, BM + "::myBitmap")
        if prev and not T.unknown(tuple(prev)):
            R.check(set(prev) == set([e.lv[2]]), pid + "|GenericBitmap::set|same byte read", e.fn.where(e.node["l"]),
                    "the other bits of the byte are taken from another byte")
        # calcTable[prev][offset][val]
        v = e.val
        if v[0] == "ld" and v[1][0] == "idx":
            chain = []
            x = v[1]
            while isinstance(x, tuple) and x[0] in ("idx", "addr", "ld"):
                if x[0] == "idx":
                    chain.append(x[2])
                    x = x[1]
                else:
                    x = x[1]
            if x == fld(BM + "::calcTable") and len(chain) == 3:
                offs.add(chain[1])
                if not T.unknown(chain[2]):
                    R.check(bool(loads(chain[2], BM + "::myBitmap")), pid + "|GenericBitmap::set|table by previous value",
                            e.fn.where(e.node["l"]), "the new byte does not depend on the previous one")
                R.check(chain[0] == ("parm", 1) or T.unknown(chain[0]) or chain[0][0] != "c",
                        pid + "|GenericBitmap::set|value used", e.fn.where(e.node["l"]),
                        "the value to set is ignored")
        offs |= set(loads(v, BM + "::masks8"))
    if gm and offs and not T.unknown(tuple(gm) + tuple(offs)):
        R.check(gm == offs, pid + "|GenericBitmap|same bit", f2.where(),
                "GenericBitmap::set changes bit %s of the byte, GenericBitmap::get reads bit %s" % (show(offs), show(gm)))
    # tables
    ctors = [g for g in P.byname.get(BM + "::" + BM, []) if g.is_ctor and not (
        len(g.params) == 1 and "GenericBitmap" in g.params[0]["t"])]
    require(ctors, "no constructor of GenericBitmap")
    for g in ctors:
        tt = T.Terms(P)
        fr3 = tt.run(g)
        R.functions |= set(x.fn.name for x in tt.frames)
        masks = {}
        unk = False
        tab = {}
        for e in tt.events:
            if e.kind != "store" or e.lv[0] != "idx":
                continue
            if e.lv[1] == ("addr", fld(BM + "::masks8")):
                if e.lv[2][0] == "c" and e.val[0] == "c":
                    masks[e.lv[2][1]] = e.val[1]
                else:
                    unk = True
            chain, x = [], e.lv
            while isinstance(x, tuple) and x[0] in ("idx", "addr"):
                if x[0] == "idx":
                    chain.append(x[2])
                x = x[1]
            if x == fld(BM + "::calcTable") and len(chain) == 3:
                tab.setdefault(chain[0], []).append((chain[2], chain[1], e))
        key = "%s|%s(%s)" % (pid, g.short, g.params[0]["t"])
        if masks and not unk:
            vs = [masks.get(k, 0) & 255 for k in range(8)]
            acc, ok = 0, True
            for v in vs:
                ok = ok and v != 0 and not (acc & v)
                acc |= v
            R.check(ok, key + "|masks", g.where(), "the masks %s of the bits of a byte are not eight disjoint bits"
                    % ["0x%x" % v for v in vs])
        for val, l in tab.items():
            for pv, off, e in l:
                m = ("ld", ("idx", ("addr", fld(BM + "::masks8")), off))
                if T.unknown(e.val) or T.unknown(pv) or T.unknown(off) or val[0] != "c":
                    continue
                want = T.op("|", pv, m) if val[1] else T.op("&", pv, ("op", "~", m))
                R.check(e.val == want, key + "|table for %d" % val[1], e.fn.where(e.node["l"]),
                        "the table entry for writing %d is not the previous byte with just that bit %s" %
                        (val[1], "set" if val[1] else "cleared"))
                for what, rng, lim in (("previous value", pv, 256), ("bit", off, 8)):
                    if rng[0] == "ind" and rng[2] == ("c", 1) and rng[3][0:2] in (("op", "<"), ("op", "<=")):
                        hi = rng[3][3]
                        if rng[3][2] == ("self",) and hi[0] == "c" and rng[1][0] == "c":
                            top = hi[1] + (1 if rng[3][1] == "<=" else 0)
                            R.check(rng[1][1] <= 0 and top == lim, key + "|table range " + what, e.fn.where(e.node["l"]),
                                    "the table is filled for %s %d..%d, not for 0..%d" % (what, rng[1][1], top - 1, lim - 1))
        if tab:
            R.check(set(v[1] for v in tab if v[0] == "c") >= {0, 1} or any(v[0] != "c" for v in tab),
                    key + "|table values", g.where(), "the table has no entries for one of the two values")
        # size of the memory
        nb = fr3.out.get(fld(BM + "::numBits"))
        mb = fr3.out.get(fld(BM + "::memorySizeByte"))
        if nb is not None and mb is not None and not T.unknown(nb) and not T.unknown(mb) and nb[0] == "parm" \
                and mb[0] != "parm":
            ok = mb in (T.op("/", T.op("+", nb, ("c", 7)), ("c", 8)), T.op("+", T.op("/", nb, ("c", 8)), ("c", 1)))
            R.check(ok, key + "|memory", g.where(), "the memory of the bitmap (%s bytes) does not cover its bits" % show([mb]))
        for e in tt.events:
            if e.kind == "call" and e.name in ("calloc",) and mb is not None:
                R.check(mb in e.args or mb is None or T.unknown(tuple(e.args)) or nb in e.args or
                        any(a[0] != "c" and a != mb and a[0] == "op" for a in e.args),
                        key + "|alloc", e.fn.where(e.node["l"]), "the allocated size is not the recorded size")
    # who passes sizes: number of bits against number of bytes
    for fnm in (BF + "::" + BF, BF + "::moveBitmapFrom"):
        for g in P.byname.get(fnm, []):
            tt = T.Terms(P, opaque={BM + "::" + BM, BM + "::moveFrom"})
            tt.run(g)
            for e in tt.events:
                if e.kind == "call" and e.name in (BM + "::" + BM, BM + "::moveFrom") and len(e.args) >= 3 and \
                        e.node.get("fn") in P.fns and P.fns[e.node["fn"]].params[0]["t"].endswith("*"):
                    by, bi = e.args[1], e.args[2]
                    if e.args[0] is None or T.unknown(by) or T.unknown(bi) or bi[0] == "c":
                        continue
                    R.check(bi == T.op("*", by, ("c", 8)), "%s|%s|bits of %s" % (pid, g.short, e.name.split("::")[-1]),
                            e.fn.where(e.node["l"]), "%s hands %s bytes to the bitmap as %s bits" % (g.short, show([by]), show([bi])))
    # locks: all bits of a byte share one
    fr_init = None
    for g in P.byname.get(BM + "::init", []) or ctors:
        tt = T.Terms(P)
        fr_init = tt.run(g)
        break
    nt = fr_init.out.get(fld(BM + "::numThreads")) if fr_init else None
    for nm in ("get", "set"):
        f, t, fr = one[nm]
        lk = [e for e in t.events if e.kind == "call" and any(
            e.name.startswith(x) for x in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::mutex::lock"))]
        acc = [e for e in t.events if (e.kind == "store" and e.lv[0] == "idx" and
                                       e.lv[1] == ("ld", fld(BM + "::myBitmap")))]
        R.check(bool(lk), "%s|GenericBitmap::%s|locked" % (pid, nm), f.where(),
                "the byte is %s without a lock: concurrent changes of other bits of it are lost" %
                ("modified" if nm == "set" else "read"))
        for e in lk[:1]:
            a = e.args[0] if e.args else e.obj
            if a is None or T.unknown(a):
                continue
            ia = []

            def go(x):
                if isinstance(x, (tuple, frozenset)):
                    if isinstance(x, tuple) and len(x) == 3 and x[0] == "idx":
                        ia.append(x[2])
                    for y in x:
                        go(y)
            go(a)
            for li in ia[:1]:
                if nt is not None and nt[0] == "c":
                    li = T.subst(li, lambda x: nt if x == ("ld", fld(BM + "::numThreads")) else None)
                for b in sb:
                    li = T.subst(li, lambda x, b=b: ("byte",) if x == b else None)
                bad = "parm" in repr(li) and not T.unknown(li)
                R.check(not bad, "%s|GenericBitmap::%s|one lock per byte" % (pid, nm), e.fn.where(e.node["l"]),
                        "two bits of one byte can be protected by different locks (%s), so an update can be lost" % show([li]))
    return R


def show(ts):
    def s(t):
        if not isinstance(t, tuple):
            return str(t)
        if t[0] == "c":
            return str(t[1])
        if t[0] == "parm":
            return "arg%d" % t[1]
        if t[0] == "op":
            if len(t) == 3:
                return t[1] + s(t[2])
            return "(" + (" %s " % t[1]).join(s(x) for x in t[2:]) + ")"
        if t[0] == "ld":
            return s(t[1])
        if t[0] == "fld":
            return t[2].rsplit("::", 1)[-1]
        if t[0] == "idx":
            return s(t[1]) + "[" + s(t[2]) + "]"
        if t[0] == "addr":
            return s(t[1])
        if t[0] == "ind":
            return "i"
        return t[0]
    return ", ".join(sorted(s(t) for t in ts))
