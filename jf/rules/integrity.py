"""C01: what is read from the log and the manifests is checked against the
checksum stored with it, over all its bytes, before it is used."""
from ..core import Result
from ..engine import Engine, Rule, ZERO, OK, ERR, is_status_type

J = "jungle::"
# loader -> number of stored checksums a successful load has compared
LOADERS = {"LogManifest::load": 1, "TableManifest::load": 1, "DBManifest::load": 1,
           "MemTable::loadRecord": 2}
WRITERS = {"LogManifest::store": 1, "TableManifest::store": 1, "DBManifest::store": 1, "MemTable::flush": 2}


def short(n):
    return n.rsplit("::", 1)[-1]


def expr(fn, i, depth=0):
    """Canonical text of an expression (locals assigned once are followed)."""
    n = fn.nodes[i] if i is not None and i >= 0 else None
    if not n or depth > 14:
        return "?"
    if "cv" in n:
        return str(n["cv"])
    k = n["k"]
    if k == "ref":
        v = n.get("v")
        if v:
            d = [m for m in fn.nodes if m and m["k"] == "decl" and m.get("v") == v]
            w = [m for m in fn.nodes if m and m["k"] in ("asn", "incdec") and fn.nodes[m["a"]]
                 and fn.nodes[m["a"]].get("v") == v]
            if len(d) == 1 and not w and "i" in d[0] and not n.get("parm"):
                x = fn.nodes[d[0]["i"]]
                if x and x["k"] in ("mem", "ref", "bin", "call", "lit") or x and "cv" in x:
                    return expr(fn, d[0]["i"], depth + 1)
            return v.split("@")[0]
        return n.get("g") or n.get("n", "?")
    if k == "mem":
        return "%s.%s" % (expr(fn, n["b"], depth + 1), short(n["f"]))
    if k == "call":
        if n.get("obj") is not None:
            return "%s.%s(%s)" % (expr(fn, n["obj"], depth + 1), short(n.get("n", "?")),
                                  ",".join(expr(fn, a, depth + 1) for a in n.get("args", [])))
        return "%s(%s)" % (short(n.get("n", "?")), ",".join(expr(fn, a, depth + 1) for a in n.get("args", [])))
    if k == "bin":
        return "(%s%s%s)" % (expr(fn, n["a"], depth + 1), n["op"], expr(fn, n["b"], depth + 1))
    if k == "un":
        return n["op"] + expr(fn, n["a"], depth + 1)
    if k == "idx":
        return "%s[%s]" % (expr(fn, n["a"], depth + 1), expr(fn, n["b"], depth + 1))
    if k == "this":
        return "this"
    if k in ("x", "init", "ctor") and len(n.get("args", ())) == 1:
        return expr(fn, n["args"][0], depth + 1)
    return k


def is_crc(P, n):
    return n["k"] == "call" and short(n.get("n", "")).startswith("crc32_") and len(n.get("args", ())) == 3


class Check(Rule):
    """auto: facts ('got', ptr, size) not covered yet, ('in',) bytes in the
    running checksum, ('ok', site) compared equal, ('bad',) compared unequal,
    ('read',) something was read."""

    def __init__(self, P, top):
        self.P = P
        self.top = top
        self.bads = {}
        self.sites = set()
        self.exits = 0
        self.calls = {}

    def descend(self, fid):
        f = self.P.fns[fid]
        if f.file.endswith("crc32.cc"):
            return False
        if fid not in self.calls:
            seen, todo = set(), [fid]
            hit = False
            while todo and not hit and len(seen) < 12:
                g = self.P.fns.get(todo.pop())
                if g is None or g.id in seen:
                    continue
                seen.add(g.id)
                for n in g.nodes:
                    if n and is_crc(self.P, n):
                        hit = True
                    elif n and n["k"] == "call" and n.get("fn") in self.P.fns \
                            and self.P.fns[n["fn"]].file == self.P.fns[self.top].file:
                        todo.append(n["fn"])
            self.calls[fid] = hit and f.short not in LOADERS and f.file == self.P.fns[self.top].file
        return self.calls[fid]

    def bad(self, key, fn, line, msg):
        self.bads.setdefault(key, (fn.where(line), msg))

    def call(self, eng, fn, i, n, st):
        if n["k"] != "call":
            return None
        nm = n.get("n", "")
        a = st.auto
        if is_crc(self.P, n):
            self.sites.add((fn.id, i))
            p, sz = expr(fn, n["args"][0]), expr(fn, n["args"][1])
            prev = eng.val(fn, st, {}, n["args"][2])
            if ("in",) in a and prev is not None and prev[0] == "c":
                self.bad("restart", fn, n["l"], "the checksum starts anew although it covers bytes already read")
            out = set(x for x in a if not (x[0] == "got" and x[1] == p and x[2] == sz)) | {("in",)}
            return [(frozenset(out), ("crc",), None)]
        if nm.startswith(J + "RwSerializer::") and short(nm).startswith("get") or \
                short(nm) in ("pread",) and nm.startswith(J):
            s = short(nm)
            if s in ("getU32",):
                return [(a | {("read",)}, ("u32", n["l"]), None)]
            if s == "get" and len(n["args"]) == 2:
                p, sz = expr(fn, n["args"][0]), expr(fn, n["args"][1])
                if self.tracked(fn, n, p):
                    return [(a | {("read",), ("got", p, sz, fn.where(n["l"]))}, None, None)]
            return [(a | {("read",)}, None, None)] if ("read",) not in a else None
        f = self.P.fns.get(n.get("fn"))
        if f is not None and f.file == fn.file and not is_crc(self.P, n) and len(n.get("args", ())) >= 2 and \
                (f.ret == "bool" or is_status_type(f.ret)):
            vs = [eng.val(fn, st, {}, x) for x in n["args"]]
            tags = [v[0] if v else None for v in vs]
            cmps = [m for m in f.nodes if m and m["k"] == "bin" and m["op"] in ("==", "!=")]
            if "u32" in tags and len(cmps) == 1 and \
                    ("crc" in tags or any(self.takes(fn, x) for x in n["args"])):
                # a helper that compares the two values it is given
                good = self.equal(fn, n["l"], a, vs[tags.index("u32")])
                if f.ret != "bool":
                    return [(good, OK, None), (a | {("bad",)}, ERR, None)]
                eq = cmps[0]["op"] == "=="
                return [(good, ("c", 1 if eq else 0), None), (a | {("bad",)}, ("c", 0 if eq else 1), None)]
        if f is not None and f.ret == "bool" and self.descend(f.id):
            # "return computed == stored;"
            rets = [m for m in f.nodes if m and m["k"] == "ret" and m.get("v") is not None]
            if len(rets) == 1:
                c = f.nodes[rets[0]["v"]]
                if c and c["k"] == "bin" and c["op"] in ("==", "!="):
                    eq = c["op"] == "=="
                    for j, m in enumerate(f.nodes):
                        if m and is_crc(self.P, m):
                            self.sites.add((f.id, j))
                    return [(self.equal(fn, n["l"], frozenset(x for x in a if x[0] != "got"), ("h", n["l"])),
                             ("c", 1 if eq else 0), None),
                            (a | {("bad",)}, ("c", 0 if eq else 1), None)]
        return None

    def tracked(self, fn, n, p):
        return "footer" not in p.lower() and "magic" not in p.lower()

    def equal(self, fn, line, a, site):
        for x in a:
            if x[0] == "got":
                self.bad("uncovered|" + x[1], fn, line, "%s (read at %s) is not covered by the checksum that is "
                         "compared here" % (x[1], x[3]))
        return frozenset(x for x in a if x[0] not in ("got", "in")) | {("ok", site)}

    def compare(self, eng, fn, st, nv, n, want):
        if n["op"] not in ("==", "!="):
            return None
        vs = [eng.val(fn, st, nv, n["a"]), eng.val(fn, st, nv, n["b"])]
        tags = [v[0] if v else None for v in vs]
        # a chain that covered nothing is still the checksum of nothing
        if "u32" in tags and ("crc" in tags or ("c" in tags and ZERO in vs and self.crcvar(fn, n))):
            site = vs[tags.index("u32")]
            if (n["op"] == "==") == bool(want):
                return self.equal(fn, n["l"], st.auto, site)
            return st.auto | {("bad",)}
        return None

    def crcvar(self, fn, n):
        """One side is a variable that elsewhere takes a checksum."""
        return any(self.takes(fn, s) for s in (n["a"], n["b"]))

    def takes(self, fn, s):
        m = fn.nodes[s] if s is not None and s >= 0 else None
        if m and m.get("v"):
            for w in fn.nodes:
                if w and w["k"] == "asn" and fn.nodes[w["a"]] and fn.nodes[w["a"]].get("v") == m["v"] \
                        and fn.nodes[w["b"]] and is_crc(self.P, fn.nodes[w["b"]]):
                    return True
        return False

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id != self.top or kind != "ret":
            return auto
        self.exits += 1
        err = val is not None and val[0] == "st" and val[1] == "ERR"
        if err:
            return auto
        if ("bad",) in auto:
            self.bad("unreported", fn, line, "a checksum that does not match is not reported")
        elif ("read",) in auto and sum(1 for x in auto if x[0] == "ok") < self.need:
            self.bad("unchecked", fn, line, "succeeds although not every checksum read has been compared")
        return auto


class Uses(Check):
    """Additionally: no field of the object is set, and nothing is added to it,
    before the checksums have been compared."""

    def call(self, eng, fn, i, n, st):
        r = Check.call(self, eng, fn, i, n, st)
        if r is None and n["k"] == "call" and ("read",) in st.auto and \
                sum(1 for x in st.auto if x[0] == "ok") < self.need:
            nm = short(n.get("n", ""))
            o = fn.nodes[n["obj"]] if n.get("obj") is not None else None
            own = (o and o["k"] == "mem" and fn.nodes[o["b"]] and fn.nodes[o["b"]]["k"] == "this"
                   and nm in ("store", "push_back", "insert", "fetch_add", "emplace", "operator=")) or \
                (nm.startswith(("add", "insert")) and n.get("n", "").startswith(self.cls + "::"))
            if own:
                self.bad("early|" + nm, fn, n["l"], "%s() takes over what was read before its checksum has been "
                         "compared" % nm)
        return r


def stored(P, R, pid, top, need):
    """Writer: every checksum covers the bytes put next to it."""
    fam, todo = [], [f for f in P.byname.get(J + top, []) if not f.is_lambda]
    while todo:
        f = todo.pop()
        if f in fam:
            continue
        fam.append(f)
        for n in f.nodes:
            if n and n["k"] == "call":
                g = P.fns.get(n.get("fn"))
                if g is not None and g.file == f.file and not g.short.endswith(("::load", "::loadRecord")):
                    todo.append(g)
    if not fam:
        return
    total = [n for f in fam for n in f.nodes if n and is_crc(P, n)]
    R.check(len(total) >= need, "%s|%s|checksums" % (pid, top), fam[0].where(),
            "%s: %d checksums are computed, the reader expects %d" % (top, len(total), need))
    for f in fam:
        crcs = [(i, n) for i, n in enumerate(f.nodes) if n and is_crc(P, n)]
        if not crcs:
            continue
        R.functions.add(f.name)
        order = [n for b in sorted(f.blocks) for n in (f.nodes[i] for i in f.blocks[b]["e"]) if n]
        puts = [n for n in order if n["k"] == "call" and short(n.get("n", "")) == "put" and len(n["args"]) == 2]
        for i, n in crcs:
            p, sz = expr(f, n["args"][0]), expr(f, n["args"][1])
            if sz.endswith(".pos()"):
                # the whole buffer up to here: whose buffer is it?
                ser = sz[:-len(".pos()")]
                d = [m for m in f.nodes if m and m["k"] == "decl" and m.get("v", "").split("@")[0] == ser]
                if len(d) == 1 and "i" in d[0]:
                    buf = expr(f, d[0]["i"]).lstrip("&*")
                    ok = buf.split(".")[0] == p.split(".")[0] and p.endswith(".data")
                    src = f.nodes[d[0]["i"]]
                    if src and src["k"] == "ctor" and len(src.get("args", ())) >= 1:
                        buf = expr(f, src["args"][0]).lstrip("&*")
                        ok = buf.split(".")[0] == p.split(".")[0]
                    R.check(ok, "%s|%s|buffer" % (pid, top), f.where(n["l"]),
                            "%s: the checksum is computed over '%s', the content is in '%s'" % (top, p, buf))
                continue
            if need < 2:
                continue
            hit = [q for q in puts if expr(f, q["args"][0]) == p and expr(f, q["args"][1]) == sz]
            R.check(bool(hit), "%s|%s|%s" % (pid, top, p), f.where(n["l"]),
                    "%s: the checksum covers '%s' (%s bytes), which is not what is written" % (top, p, sz))
        if need >= 2:
            cov = set((expr(f, n["args"][0]), expr(f, n["args"][1])) for i, n in crcs)
            for q in puts:
                k = (expr(f, q["args"][0]), expr(f, q["args"][1]))
                if "tmp" in k[0].lower() or k in cov:
                    continue
                same = [c for c in cov if c[0] == k[0]]
                R.check(not k[0].endswith(".data"), "%s|%s|put %s" % (pid, top, k[0]), f.where(q["l"]),
                        "%s: '%s' (%s bytes) is written without being covered by a checksum" % (top, k[0], k[1]))


def part(s):
    for w in ("key", "meta"):
        if w in s.lower():
            return w
    return "value"


def chains(P, fn):
    """Order in which parts enter the data checksum."""
    out = []
    for n in sorted((n for n in fn.nodes if n and is_crc(P, n)), key=lambda n: n["l"]):
        e = expr(fn, n["args"][0])
        if e.endswith(".data"):
            w = part(e)
            if w not in out:
                out.append(w)
    return out


def checked_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("every load compares the stored checksum with one computed over all the bytes it read, reports a "
                   "difference, and takes over nothing before (path automaton); writers compute it over what they write")
    miss = []
    for top, need in sorted(LOADERS.items()):
        fs = [f for f in P.byname.get(J + top, []) if not f.is_lambda]
        if not fs:
            miss.append(top)
        for f in fs:
            r = Uses(P, f.id)
            r.need, r.cls = need, f.cls
            e = Engine(P, r)
            e.summary(f.id, frozenset(), frozenset())
            R.functions |= set(P.fns[v].name for v in e.visited)
            if not r.sites:
                R.check(False, "%s|%s|none" % (pid, top), f.where(), "%s: no checksum is computed" % top)
                continue
            n = len(r.sites) + r.exits
            R.obligations += n
            R.discharged += n - min(n, len(r.bads))
            R.samples += ["%s: checksum at %s" % (top, P.fns[a].where(P.fns[a].nodes[b]["l"])) for a, b in sorted(r.sites)]
            for key, (where, msg) in sorted(r.bads.items()):
                R.add("%s|%s|%s" % (pid, top, key), where, "%s: %s" % (top, msg))
    for top, need in sorted(WRITERS.items()):
        if not P.byname.get(J + top):
            miss.append(top)
        stored(P, R, pid, top, need)
    a = [f for f in P.byname.get(J + "MemTable::loadRecord", [])]
    b = [f for f in P.byname.get(J + "MemTable::flush", [])]
    for x in a:
        for y in b:
            cx, cy = chains(P, x), chains(P, y)
            if len(cx) == len(cy) == 3:
                R.check(cx == cy, "%s|parts" % pid, y.where(), "the checksum of a record covers %s when written, %s "
                        "when read" % ("+".join(cy), "+".join(cx)))
    R.coverage["missing"] = miss
    return R
