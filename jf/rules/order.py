"""Order of effects (D family): what must have happened before an operation,
and before a function reports success, on every path."""
from ..core import Result, require
from ..engine import Engine, Rule, OK, ERR, ZERO, NZ, is_status_type

J = "jungle::"


def short(nm):
    return nm[len(J):] if nm.startswith(J) else nm


# predicates that are looked into for their answer
SMALL = ("jungle::valid_number", "valid_number")


class Order(Rule):
    """auto is a frozenset of labels.  events: callee -> handler(rule, eng, fn,
    i, node, st) -> list of (auto, value) or None."""

    def __init__(self, P, events, on_exit=None, on_branch=None, scope=None, extra=(), on_elem=None):
        self.P = P
        self.events = events
        self.on_exit = on_exit
        self.on_branch = on_branch
        self.on_elem = on_elem
        self.bads = {}
        self.sites = set()
        self.top = None
        self.exits = 0
        self.writes = set()
        self.reads = set()
        direct = set(extra)
        for f in P.fns.values():
            for i, n in f.calls():
                if n.get("n") in events and not n["n"].startswith("std::"):
                    direct.add(f.id)
                    break
        self.scope = P.reach_to(direct)
        self.small = set(f.id for nm in SMALL for f in P.byname.get(nm, []))
        self.evids = set(f.id for nm in events for f in P.byname.get(nm, []))

    def descend(self, fid):
        return (fid in self.scope or fid in self.small) and fid not in self.evids

    def bad(self, key, fn, line, msg):
        self.bads.setdefault(key, (fn.where(line), msg, fn))

    def _field(self, fn, i):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if n and n["k"] == "mem" and not n.get("meth"):
            return n["f"]
        return None

    def call(self, eng, fn, i, node, st):
        nm = node.get("n", "")
        if node["k"] == "call" and node.get("obj") is not None:
            f = self._field(fn, node["obj"])
            if f and (node.get("oper") in ("=", "++", "--", "+=", "-=") or
                      nm.rsplit("::", 1)[-1] in ("store", "exchange")):
                self.writes.add((f, fn.id, i))
            elif f:
                self.reads.add((f, fn.id, i))
        h = self.events.get(node.get("n", ""))
        if h is None:
            return None
        r = h(self, eng, fn, i, node, st)
        if r is None:
            return None
        self.sites.add((fn.id, i))
        return [(x[0], x[1], None) + tuple(x[2:]) for x in r]

    def branch(self, eng, fn, cond, want, st, blk):
        if self.on_branch is None:
            return None
        return self.on_branch(self, eng, fn, cond, want, st)

    def elem(self, eng, fn, i, node, st):
        if node["k"] in ("asn", "incdec"):
            f = self._field(fn, node["a"])
            if f:
                self.writes.add((f, fn.id, i))
        elif node["k"] == "mem" and not node.get("meth"):
            self.reads.add((node["f"], fn.id, i))
        if self.on_elem is None:
            return None
        return self.on_elem(self, eng, fn, i, node, st)

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top:
            self.exits += 1
            if self.on_exit is not None:
                self.on_exit(self, eng, fn, auto, kind, val, line)
        return auto


def is_ok(val):
    return val is None or val == OK or (val[0] == "st" and val[1] == "OK")


# ---- handlers --------------------------------------------------------------
def ev(add=(), clear=(), need=(), key=None, msg=None, status=True, pre=None):
    """Operation that adds labels when it succeeds and needs others."""
    add, clear, need = frozenset(add), frozenset(clear), frozenset(need)

    def h(rule, eng, fn, i, node, st):
        a = st.auto
        miss = need - a
        if pre is not None:
            pre(rule, eng, fn, i, node, st)
        if miss:
            rule.bad("%s|%s" % (short(node["n"]), key or ",".join(sorted(miss))), fn, node["l"],
                     msg or "%s runs although %s has not happened" % (short(node["n"]), ", ".join(sorted(miss))))
        ok = (a - clear) | add
        if status:
            return [(ok, OK), (a, ERR)]
        return [(ok, None)]
    return h


def ask(true_add=(), true_clear=(), false_add=()):
    """Question whose answer matters."""
    ta, tc, fa = frozenset(true_add), frozenset(true_clear), frozenset(false_add)

    def h(rule, eng, fn, i, node, st):
        return [((st.auto - tc) | ta, ("c", 1)), (st.auto | fa, ZERO)]
    return h


def strip(fn, i):
    """Look through casts, negations and Status/bool conversions."""
    neg = False
    while True:
        n = fn.nodes[i]
        if n and n["k"] == "un" and n["op"] == "!":
            neg = not neg
            i = n["a"]
            continue
        return n, neg


def cond_field(fn, cond, want, field):
    """Truth of member `field` implied by taking this edge, or None."""
    n, neg = strip(fn, cond)
    if n and n["k"] == "mem" and n["f"].rsplit("::", 1)[-1] == field:
        return (not want) if neg else want
    return None


def cond_eq(fn, cond, want, field, const):
    n, neg = strip(fn, cond)
    if not n or n["k"] != "bin" or n["op"] not in ("==", "!="):
        return None
    eq = want == (n["op"] == "==")
    if neg:
        eq = not eq
    for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
        a, b = fn.nodes[x], fn.nodes[y]
        if a and b and a["k"] == "mem" and a["f"].rsplit("::", 1)[-1] == field and b.get("cv") == const:
            return eq
    return None


def run_spec(P, R, pid, name, top, events, on_exit=None, on_branch=None, env=(), auto=frozenset(),
             min_sites=1, extra=(), on_elem=None, fields=()):
    """Run one automaton from function `top` (short name); report into R."""
    fs = [f for f in P.byname.get(J + top, []) if not f.is_lambda]
    if not fs:
        R.coverage.setdefault("missing", []).append(top)
        return None
    last = None
    for f in fs:
        rule = Order(P, events, on_exit, on_branch, extra=extra, on_elem=on_elem)
        rule.top = f.id
        rule.fields = fields
        e = Engine(P, rule)
        pe = {}
        for p in f.params:
            for nm, v in env:
                if p["n"] == nm:
                    pe[p["v"]] = v
        e.summary(f.id, auto, frozenset(pe.items()))
        R.functions |= set(P.fns[x[0]].name for x in rule.sites) | {f.name}
        n = len(rule.sites) + 1
        R.obligations += n
        R.discharged += n - min(n, len(rule.bads))
        for key, (where, msg, g) in sorted(rule.bads.items()):
            R.add("%s|%s|%s" % (pid, top, key), where, "%s: %s" % (top, msg))
        R.coverage["event_sites"] = R.coverage.get("event_sites", 0) + len(rule.sites)
        R.coverage["exits"] = R.coverage.get("exits", 0) + rule.exits
        R.coverage["specs"] = R.coverage.get("specs", 0) + 1
        if len(rule.sites) < min_sites:
            R.coverage.setdefault("thin", []).append("%s in %s" % (name, top))
        for x in sorted(rule.sites)[:3]:
            g = P.fns[x[0]]
            R.samples.append("%s: %s at %s" % (name, short(g.nodes[x[1]]["n"]), g.where(g.nodes[x[1]]["l"])))
        last = rule
    return last


# ---- sync -------------------------------------------------------------------
def sync_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton over every path of the log sync: each log file of the range is written, then "
                   "fsynced (when asked for), then its synced number advanced, and success is reported only after "
                   "all of that and the manifest")

    runs = {}
    for fs in (NZ, ZERO):
        need = {"written", "fsynced"} if fs == NZ else {"written"}

        def fetch(rule, eng, fn, i, node, st, need=need):
            a = st.auto
            if "pend" in a and not need <= a:
                rule.bad("next file", fn, node["l"], "goes on to the next log file although this one has not been %s"
                         % " and ".join(sorted(need - a)))
            return [((a - {"pend", "written", "fsynced", "num"}) | {"pend"}, None)]

        def number(rule, eng, fn, i, node, st, need=need):
            a = st.auto
            if not need <= a:
                rule.bad("synced number", fn, node["l"],
                         "the synced sequence number is advanced although the records are not %s"
                         % " and ".join(sorted(need - a)))
            if "nothing" in a:
                rule.bad("nothing written", fn, node["l"], "the synced sequence number is set from a value the write did "
                         "not deliver: nothing was written")
            return [(a, OK)]

        def write(rule, eng, fn, i, node, st):
            # either something is written and the last number delivered, or
            # nothing is and the argument keeps its value
            a = st.auto - {"fsynced", "nothing"}
            out = []
            for k, x in enumerate(node["args"]):
                if k in node.get("refs", ()) and eng.lv(fn, x) is not None:
                    out.append((eng.lv(fn, x), eng.val(fn, st, eng.nv, x)))
            keep = [(k, v) for k, v in out if v is not None]
            r = [(a | {"written"}, OK), (st.auto, ERR)]
            if keep:
                r.append((a | {"written", "nothing"}, OK, keep))
            return r

        def on_exit(rule, eng, fn, auto, kind, val, line, need=need):
            if kind != "ret" or not is_ok(val):
                return
            if "pend" in auto and not need <= auto:
                rule.bad("success", fn, line, "reports success although a log file has not been %s"
                         % " and ".join(sorted(need - auto)))
            if "range" in auto and "stored" not in auto and "skipmani" not in auto:
                rule.bad("manifest", fn, line, "reports success without storing the manifest")

        def on_branch(rule, eng, fn, cond, want, st):
            if cond_field(fn, cond, want, "skipManifestSync") is True:
                return st.auto | {"skipmani"}
            return None

        events = {
            J + "LogManifest::getMaxLogFileNum": ev({"range"}),
            J + "LogManifest::getLogFileInfoP": fetch,
            J + "LogFileInfoGuard::empty": ask(true_clear={"pend"}),
            J + "LogFileInfo::isRemoved": ask(true_clear={"pend"}),
            J + "LogFile::flushMemTable": write,
            J + "LogFile::sync": ev({"fsynced"}, need={"written"}, key="fsync before write",
                                    msg="fsyncs the log file before the records are written to it"),
            J + "LogFile::setSyncedSeqNum": number,
            J + "LogManifest::store": ev({"stored"}),
        }
        runs[fs] = run_spec(P, R, pid, "sync" if fs == NZ else "sync without fsync", "LogMgr::syncInternal", events, on_exit,
                 on_branch, env=[("call_fsync", fs)], min_sites=5)

    # files written without fsync are remembered for the next sync that has it
    if runs.get(NZ) and runs.get(ZERO):
        wz = set(w[0] for w in runs[ZERO].writes - runs[NZ].writes)
        rd = set(w[0] for w in runs[NZ].reads)
        R.check(bool(wz & rd), pid + "|LogMgr::syncInternal|remembered", P.fns[runs[NZ].top].where(),
                "LogMgr::syncInternal: log files written by a sync without fsync are not remembered, so that a later "
                "sync with fsync does not cover them")

    # one log file
    corrupted = P.enums.get("jungle::LogFile::IntegrityTypes", {}).get("CORRUPTED")
    if corrupted is None:
        for k, v in P.enums.items():
            if k.endswith("IntegrityTypes"):
                corrupted = v.get("CORRUPTED")

    def b2(rule, eng, fn, cond, want, st):
        if corrupted is not None and cond_eq(fn, cond, want, "integrity", corrupted) is True:
            return st.auto | {"corrupted"}
        return None

    def x2(rule, eng, fn, auto, kind, val, line):
        if kind != "ret" or not is_ok(val):
            return
        if "written" in auto and "flushed" not in auto:
            rule.bad("file flush", fn, line, "reports success although the written records have not been flushed "
                     "to the file")
        if not auto & {"written", "synced", "corrupted"}:
            rule.bad("nothing written", fn, line, "reports success without writing the records, although the file "
                     "is not known to be up to date")
    run_spec(P, R, pid, "write one log file", "LogFile::flushMemTable", {
        J + "MemTable::flush": ev({"written"}, clear={"flushed"}),
        J + "MemTable::appendFlushMarker": ev(clear={"flushed"}),
        J + "FileOps::flush": ev({"flushed"}),
        J + "LogFile::isSynced": ask(true_add={"synced"}),
    }, x2, b2)

    def x3(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val) and "fsynced" not in auto:
            rule.bad("fsync", fn, line, "reports success without fsyncing the file")
    run_spec(P, R, pid, "fsync one log file", "LogFile::sync", {J + "FileOps::fsync": ev({"fsynced"})}, x3)
    run_spec(P, R, pid, "fsync one log file", "MemTable::sync", {J + "FileOps::fsync": ev({"fsynced"})}, x3)

    # an explicit fsync request reaches the log layer as such
    def forwarded(rule, eng, fn, i, node, st):
        for x in node["args"]:
            v = eng.val(fn, st, eng.nv, x)
            n = fn.nodes[x]
            if v is not None and v == ZERO:
                rule.bad("fsync dropped", fn, node["l"], "the request to fsync is not passed on")
        return [(st.auto | {"called"}, OK), (st.auto, ERR)]
    for top in ("DB::sync", "LogMgr::sync", "LogMgr::syncNoWait"):
        def x4(rule, eng, fn, auto, kind, val, line):
            if kind == "ret" and is_ok(val) and "called" not in auto:
                rule.bad("not synced", fn, line, "reports success without syncing")
        run_spec(P, R, pid, "fsync request", top, {J + "LogMgr::syncInternal": forwarded}, x4,
                 env=[("call_fsync", NZ)])
    return R


# ---- serialized data ----------------------------------------------------------
SER = J + "RwSerializer"
NEUTRAL = ("crc32", "memset", "SizedBuf", "std::min", "std::max")


def root(fn, i):
    hops = 0
    while i is not None and i >= 0 and hops < 12:
        hops += 1
        n = fn.nodes[i]
        if not n:
            return None
        k = n["k"]
        if k == "ref":
            return n.get("v")
        if k == "mem":
            i = n["b"]
        elif k in ("un", "idx", "bin", "cast"):
            i = n["a"]
        elif k == "call" and n.get("obj") is not None and n.get("oper") in ("->", "*", "[]"):
            i = n["obj"]
        else:
            return None
    return None


class Written(Rule):
    """auto: frozenset of (buffer variable) that hold serialized bytes nobody
    has taken yet."""

    def __init__(self, P, fn):
        self.P = P
        self.fn = fn
        self.bads = {}
        self.puts = set()
        self.ser = {}        # serializer variable -> buffer variable
        self.arg = {}        # ctor node -> buffer
        declt = {}
        for n in fn.nodes:
            if n and n["k"] == "decl" and n.get("v"):
                declt[n["v"]] = n
        for n in fn.nodes:
            if n and n["k"] == "decl" and n.get("v") and n.get("t", "").endswith("RwSerializer") and "i" in n:
                c = fn.nodes[n["i"]]
                if not c or c["k"] != "ctor" or not c.get("args"):
                    continue
                g = P.fns.get(c.get("fn"))
                if g is not None and g.params and "FileOps" in g.params[0]["t"]:
                    continue
                b = root(fn, c["args"][0])
                if b in declt and not declt[b].get("t", "").endswith("&"):
                    self.ser[n["v"]] = b
                    self.arg[n["i"]] = b
        self.bufs = set(self.ser.values())

    def bad(self, key, fn, line, msg):
        self.bads.setdefault(key, (fn.where(line), msg))

    def call(self, eng, fn, i, node, st):
        if fn.id != self.fn.id:
            return None
        nm = node.get("n", "")
        a = st.auto
        if node["k"] == "ctor":
            if i in self.arg:
                b = self.arg[i]
                if b in a:
                    self.bad("reused", fn, node["l"], "the buffer is reused although the bytes in it have not been written")
                return [(a - {b, ("T", b)}, None, None)]
            return None
        obj = node.get("obj")
        ov = fn.nodes[obj].get("v") if obj is not None and obj >= 0 and fn.nodes[obj] and fn.nodes[obj]["k"] == "ref" else None
        if nm.startswith(SER + "::") and ov in self.ser:
            b = self.ser[ov]
            short_nm = nm[len(SER) + 2:]
            if short_nm.startswith("put"):
                self.puts.add(i)
                t = self.taken(fn, node, a)
                if ("T", b) in t:
                    self.bad("again", fn, node["l"], "bytes are added to a buffer whose content has been written already: "
                             "they will be written twice")
                return [((t | {b}), OK, None)]
            if short_nm == "pos":
                if node["args"]:
                    v = eng.val(fn, st, eng.nv, node["args"][0])
                    if b in a and v == ZERO:
                        self.bad("dropped", fn, node["l"], "the position goes back to the start although the bytes in the "
                                 "buffer have not been written")
                    return [(a - {b, ("T", b)} if v == ZERO else a - {("T", b)}, None, None)]
                return [(a, ("syspos",) if b in a else None, None)]
            return None
        if any(x in nm for x in NEUTRAL) or nm.startswith("_log") or "Holder" in nm:
            return None
        if node.get("m") and node["m"].startswith("_"):
            return None
        # a serializer handed to a helper is written by it
        new = set(self.taken(fn, node, a))
        for x in node.get("args", ()):
            m = fn.nodes[x] if x >= 0 else None
            if m and m["k"] == "ref" and m.get("v") in self.ser:
                new.add(self.ser[m["v"]])
        new = frozenset(new)
        if new == a:
            return None
        if is_status_type(node.get("t", "")):
            return [(new, OK, None), (a, ERR, None)]
        return [(new, None, None)]

    def taken(self, fn, node, a):
        out = set(a)
        for k, x in enumerate(node.get("args", ())):
            r = root(fn, x)
            if r in out:
                out.discard(r)
                # how much of it?
                if k + 1 < len(node["args"]):
                    m = fn.nodes[node["args"][k + 1]]
                    if m and m["k"] == "call" and m.get("n") == SER + "::pos" and m.get("obj") is not None:
                        o = fn.nodes[m["obj"]]
                        if o and o["k"] == "ref" and self.ser.get(o.get("v")) == r:
                            out.add(("T", r))
                        if o and o["k"] == "ref" and self.ser.get(o.get("v"), r) != r:
                            self.bad("length", fn, node["l"], "the number of bytes written is the position in another buffer")
        return frozenset(out)

    def elem(self, eng, fn, i, node, st):
        if fn.id != self.fn.id:
            return None
        if node["k"] == "asn":
            r = root(fn, node["b"])
            if r in st.auto:
                return st.auto - {r}
        if node["k"] == "ret" and node.get("v") is not None:
            r = root(fn, node["v"])
            if r in st.auto:
                return st.auto - {r}
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        auto = frozenset(x for x in auto if isinstance(x, str))
        if fn.id == self.fn.id and kind == "ret" and auto and is_ok(val):
            self.bad("lost", fn, line, "returns success although serialized bytes in a buffer have not been written")
        return auto


def written_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("every local buffer that a serializer fills is handed on (file write, outer buffer, backup, table "
                   "record) before it is reused and before the function returns success")
    tot = 0
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if not f.file.startswith("src/") or f.is_lambda:
            continue
        if not any(n and n["k"] == "decl" and n.get("t", "").endswith("RwSerializer") for n in f.nodes):
            continue
        r = Written(P, f)
        if not r.ser:
            continue
        if not any(n.get("n", "").startswith(SER + "::put") and fnv(f, n) in r.ser for i, n in f.calls()):
            continue
        Engine(P, r).summary(f.id, frozenset(), frozenset())
        R.functions.add(f.name)
        n = len(r.puts) + 1
        tot += len(r.puts)
        R.obligations += n
        R.discharged += n - min(n, len(r.bads))
        for key, (where, msg) in sorted(r.bads.items()):
            R.add("%s|%s|%s" % (pid, f.short, key), where, "%s: %s" % (f.short, msg))
        R.samples.append("%s: %d values serialized into %d local buffer(s)" % (f.short, len(r.puts), len(r.bufs)))
    R.coverage["serialized_values"] = tot
    require(tot >= 5, "no serialization found")
    return R


def fnv(fn, n):
    o = n.get("obj")
    m = fn.nodes[o] if o is not None and o >= 0 else None
    return m.get("v") if m and m["k"] == "ref" else None


# ---- manifests ------------------------------------------------------------------
def manifest_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton over every path of the three manifest writers: write, cut off the tail, fsync, and "
                   "only then touch the backup, which is the only other copy")

    def pw(rule, eng, fn, i, node, st):
        a = st.auto
        return [((a - {"fsynced", "failed"}) | {"written"}, OK), (a | {"failed"}, ERR)]

    def tr(rule, eng, fn, i, node, st):
        a = st.auto
        return [((a - {"fsynced"}) | {"cut"}, OK), (a | {"failed"}, ERR)]

    def fs(rule, eng, fn, i, node, st):
        a = st.auto
        return [(a | {"fsynced"}, OK), (a, ERR)]

    def bk(rule, eng, fn, i, node, st):
        a = st.auto
        if "fsynced" not in a:
            rule.bad("backup", fn, node["l"], "the backup is overwritten before the manifest itself has been fsynced: a crash "
                     "can damage both")
        return [(a | {"backup"}, OK), (a, ERR)]

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if "failed" in auto and "cached" in rule.fields and "invalid" not in auto:
            rule.bad("stale cache", fn, line, "a failed write leaves the in-memory copy of the manifest in place, so that "
                     "the next store skips bytes that are not in the file")
        if kind != "ret" or not is_ok(val):
            return
        if "bk" in rule.fields and "backup" not in auto and "full" not in auto:
            rule.bad("partial backup", fn, line, "the backup has not been updated, but the next one is not made in full")
        if "written" not in auto:
            rule.bad("written", fn, line, "reports success without writing the manifest")
        elif "fsynced" not in auto:
            rule.bad("fsync", fn, line, "reports success of a durable store without fsyncing what was written last")
        if "failed" in auto:
            rule.bad("failed", fn, line, "reports success although a write failed")

    def on_branch(rule, eng, fn, cond, want, st):
        # nothing to write: the new content is a prefix that is already there
        n, neg = strip(fn, cond)
        if n and n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">="):
            ops = (fn.nodes[n["a"]], fn.nodes[n["b"]])
            for x, y in (ops, ops[::-1]):
                if x and x["k"] == "call" and x.get("n") == SER + "::pos" and y and y["k"] == "ref":
                    gt = (n["op"] in (">", ">=")) == (x is ops[0])
                    if neg:
                        gt = not gt
                    if want != gt:
                        return st.auto | {"written"}
        return None

    def on_elem(rule, eng, fn, i, node, st):
        if node["k"] != "asn" or node.get("op") != "=":
            return None
        f = rule._field(fn, node["a"])
        f = f.rsplit("::", 1)[-1] if f else None
        v = eng.val(fn, st, eng.nv, node["b"])
        if f == "lenCachedManifest":
            return st.auto | {"invalid"} if v == ZERO else st.auto - {"invalid"}
        if f == "fullBackupRequired":
            return st.auto - {"full"} if v == ZERO else st.auto | {"full"}
        return None

    names = set(n["f"].rsplit("::", 1)[-1] for f in P.byname.get(J + "LogManifest::storeInternal", [])
                for n in f.nodes if n and n["k"] == "mem")
    fields = set(x for x, y in (("cached", "lenCachedManifest"), ("bk", "fullBackupRequired")) if y in names)

    events = {J + "FileOps::pwrite": pw, J + "FileOps::ftruncate": tr, J + "FileOps::fsync": fs,
              J + "BackupRestore::backup": bk}
    for m in ("put", "putSb", "putU64", "putU32", "putU16", "putU8"):
        events[SER + "::" + m] = lambda rule, eng, fn, i, node, st: [(st.auto, OK)]   # in memory
    for top in ("LogManifest::store", "TableManifest::store", "DBManifest::store"):
        run_spec(P, R, pid, "durable store", top, events, on_exit, on_branch, env=[("call_fsync", NZ)], min_sites=3,
                 on_elem=on_elem, fields=fields if top.startswith("Log") else ())

    # the backup itself
    def bx(rule, eng, fn, auto, kind, val, line):
        if kind != "ret" or not is_ok(val):
            return
        if "fsynced" not in auto:
            rule.bad("backup fsync", fn, line, "reports success without fsyncing the backup")

    ev2 = {J + "FileOps::pwrite": pw, J + "FileOps::append": pw, J + "FileOps::ftruncate": tr, J + "FileOps::fsync": fs}
    for top in ("BackupRestore::backup", "BackupRestore::copyFile"):
        run_spec(P, R, pid, "durable backup", top, ev2, bx, None, env=[("call_fsync", NZ)], min_sites=1)
    return R


class Counted(Rule):
    """A number of entries taken from a list that other threads change must be
    replaced by the number of entries actually written."""

    def __init__(self, P, fn):
        self.P = P
        self.fn = fn
        self.bads = {}
        self.n = 0

    def size_of(self, fn, i, hops=0):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if not n or hops > 4:
            return None
        if n["k"] == "call" and n.get("n") == "skiplist_get_size":
            return True
        if n["k"] == "ref" and n.get("v"):
            for m in fn.nodes:
                if m and m["k"] == "decl" and m.get("v") == n["v"] and "i" in m:
                    return self.size_of(fn, m["i"], hops + 1)
        return None

    def call(self, eng, fn, i, node, st):
        if fn.id != self.fn.id:
            return None
        nm, a = node.get("n", ""), st.auto
        if nm.startswith(SER + "::putU"):
            if "back" in a:
                return [(a - {"back", "est"}, OK, None)]
            if node["args"] and self.size_of(fn, node["args"][0]):
                self.n += 1
                return [(a | {"est"}, OK, None)]
            return [(a, OK, None)]
        if nm == SER + "::pos" and node["args"]:
            return [(a | {"back"}, None, None)] if "est" in a and "walk" in a else None
        if nm in ("skiplist_next",):
            return [(a | {"walk"}, None, None)]
        if nm.startswith(SER + "::put"):
            return [(a, OK, None)]
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.fn.id and kind == "ret" and is_ok(val) and {"est", "walk"} <= auto:
            self.bads.setdefault("count", (fn.where(line), "the number of entries is taken before the list is walked, so "
                                           "it can differ from the number of entries written"))
        return auto


def counted_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("a list length that is stored in front of the entries of a concurrent list is rewritten with the "
                   "number of entries written")
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        names = set(n.get("n", "") for i, n in f.calls())
        if not f.file.startswith("src/") or not any(x.startswith(SER + "::putU") for x in names) or \
                not any(x.startswith("skiplist_") for x in names):
            continue
        r = Counted(P, f)
        Engine(P, r).summary(f.id, frozenset(), frozenset())
        R.functions.add(f.name)
        R.check(not r.bads, "%s|%s|count" % (pid, f.short), r.bads["count"][0] if r.bads else f.where(),
                "%s: %s" % (f.short, r.bads["count"][1] if r.bads else ""))
    return R


# ---- table reorganisation ---------------------------------------------------------
REORG = ("TableMgr::compactLevelItr", "TableMgr::migrateLevel", "TableMgr::compactInPlace", "TableMgr::compactL0",
         "TableMgr::splitLevel", "TableMgr::mergeLevel", "TableMgr::fixTable", "TableMgr::adjustNumL0Partitions")


class Guard(Rule):
    """Does a failed store of the manifest leave a mark (store), and does the
    mark keep a table file from being deleted (destroy)?"""

    def __init__(self, P, top, flag=None):
        self.P, self.top, self.flag = P, top, flag
        self.bads, self.marks, self.removals = [], 0, 0
        names = {J + "FileOps::remove", J + "DBMgr::addFileToRemove", J + "FileOps::pwrite"}
        self.scope = P.reach_to(set(f.id for f in P.fns.values() if f.id == top or
                                    any(n.get("n") in names for i, n in f.calls()) or
                                    any(n and n["k"] == "mem" and n["f"] == flag for n in f.nodes)))

    def descend(self, fid):
        f = self.P.fns[fid]
        return fid in self.scope and not f.name.startswith(J + "FileOps") and not f.name.startswith(J + "BackupRestore")

    def mem_value(self, eng, fn, n, st):
        return NZ if self.flag_read and (n["f"] == self.flag or n.get("t", "").rstrip("const ").endswith("*")) else None

    flag_read = False

    def call(self, eng, fn, i, node, st):
        nm = node.get("n", "")
        o = fn.nodes[node["obj"]] if node.get("obj") is not None else None
        if o and o["k"] == "mem" and o["f"] == self.flag:
            if nm.rsplit("::", 1)[-1] in ("store", "operator=") and node.get("args"):
                self.marks += 1
                v = eng.val(fn, st, eng.nv, node["args"][0])
                a = st.auto - {"marked", "clean"}
                return [(a | {"marked"} if eng_truth(v) is True else a | {"clean"} if eng_truth(v) is False else a, None, None)]
            if self.flag_read and (nm.rsplit("::", 1)[-1] == "load" or node.get("conv")):
                return [(st.auto, NZ, None)]
        if nm in (J + "FileOps::pwrite", J + "FileOps::ftruncate", J + "FileOps::fsync", J + "BackupRestore::backup"):
            return [(st.auto | {"tried"}, OK, None), (st.auto | {"tried"}, ERR, None)]
        if nm in (J + "FileOps::remove", J + "DBMgr::addFileToRemove"):
            self.removals += 1
            return [(st.auto, OK, None)]
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret" and not self.flag_read and "tried" in auto:
            if val is not None and val[0] == "st" and val[1] == "ERR" and "marked" not in auto:
                self.bads.append(fn.where(line))
        return auto


def eng_truth(v):
    from ..engine import truth
    return truth(v)


def store_failure_guard(P, R, pid):
    """True when, after a failed store of the table manifest, no table file is
    deleted."""
    tops = P.byname.get(J + "TableManifest::store", [])
    dest = P.byname.get(J + "TableFile::destroySelf", [])
    if not tops or not dest:
        return False
    reach = set()
    work = [dest[0].id]
    while work:
        x = work.pop()
        if x in reach or len(reach) > 60:
            continue
        reach.add(x)
        f = P.fns[x]
        if x == dest[0].id or f.name.startswith((J + "TableMgr::", J + "TableManifest::")):
            work += [t for i, n in f.calls() for t in P.targets(n)]
    rd = set(n["f"] for x in reach for n in P.fns[x].nodes if n and n["k"] == "mem" and not n.get("meth"))
    wr = set()
    for g in tops:
        for x in [g.id] + [t for i, n in g.calls() for t in P.targets(n)]:
            f = P.fns[x]
            for i, n in f.calls():
                o = f.nodes[n["obj"]] if n.get("obj") is not None else None
                if o and o["k"] == "mem" and n.get("n", "").rsplit("::", 1)[-1] in ("store", "operator="):
                    wr.add(o["f"])
    for flag in sorted(rd & wr):
        r = Guard(P, tops[0].id, flag)
        Engine(P, r).summary(tops[0].id, frozenset(), frozenset())
        d = Guard(P, dest[0].id, flag)
        d.flag_read = True
        Engine(P, d).summary(dest[0].id, frozenset(), frozenset())
        if os_debug:
            print(flag, r.marks, r.bads, d.removals)
        if r.marks and not r.bads and not d.removals:
            R.functions |= {tops[0].name, dest[0].name}
            return True
    return False


os_debug = False


def reorg_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton over every path of compaction, migration, split, merge, fix and re-partitioning: "
                   "copy, add the new tables, remove the old ones, store the manifest durably, and only then release the "
                   "old ones (their files are deleted on release)")

    def copy(rule, eng, fn, i, node, st):
        if "removed" in st.auto:
            rule.bad("copy after remove|" + short(node["n"]), fn, node["l"],
                     "records are still being copied by %s after the old table has been removed" % short(node["n"]))
        return [(st.auto, OK), (st.auto, ERR)] if is_status_type(node.get("t", "")) else [(st.auto, None)]

    def fresh(rule, eng, fn, i, node, st):
        return [(st.auto | {"fresh"}, OK), (st.auto, ERR)]

    def reused(fn, node):
        """The new entry takes over the file of an existing one."""
        for x in node["args"]:
            n = fn.nodes[x]
            if n and n["k"] == "mem" and n["f"] == J + "TableInfo::file":
                return True
        return False

    def mig(rule, eng, fn, i, node, st):
        return [(st.auto | {"mig"}, None)]

    def add(rule, eng, fn, i, node, st):
        a = st.auto
        if reused(fn, node):
            if "mig" not in a:
                rule.bad("file not kept", fn, node["l"], "the file is handed to a new table entry, but the old entry is not "
                         "marked: its release deletes the file")
            return [(a | {"added"}, OK), (a, ERR)]
        if "removed" in a and "fresh" not in a:
            rule.bad("add after remove", fn, node["l"], "the new table is added after the old one has been removed: "
                     "records are not reachable in between")
        return [((a - {"fresh"}) | {"added"}, OK), (a - {"fresh"}, ERR)]

    def remove(rule, eng, fn, i, node, st):
        return [(st.auto | {"removed"}, OK)]

    def store(rule, eng, fn, i, node, st):
        a = st.auto
        v = eng.val(fn, st, eng.nv, node["args"][0]) if node.get("args") else None
        if "removed" in a and v == ZERO:
            rule.bad("store without fsync", fn, node["l"], "the manifest that no longer lists a table is not fsynced before the "
                     "file is deleted")
        return [(a - {"removed", "added", "sfail"}, OK), (a | {"sfail"}, ERR)]

    def done(rule, eng, fn, i, node, st):
        a = st.auto
        if "removed" in a and "mig" not in a:
            if "sfail" in a and guarded:
                pass
            elif "sfail" in a:
                rule.bad("released after failed store", fn, node["l"], "when storing the manifest fails, the removed table is "
                         "released all the same, so that its file is deleted although the manifest on disk still lists it")
            else:
                rule.bad("released before store", fn, node["l"], "a removed table is released (its file is deleted) before "
                         "the manifest has been stored")
        return [(a, None)]

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val):
            for x, y in (("removed", "removed"), ("added", "added")):
                if x in auto:
                    rule.bad("not stored|" + x, fn, line, "reports success although a table has been %s without storing "
                             "the manifest" % y)

    guarded = store_failure_guard(P, R, pid)
    R.coverage["failed_store_keeps_files"] = guarded
    events = {J + "TableInfo::setMigration": mig, J + "TableManifest::addTableFile": add, J + "TableManifest::removeTableFile": remove,
              J + "TableManifest::store": store, J + "TableInfo::done": done, J + "TableMgr::createNewTableFile": fresh}
    for nm in ("TableMgr::setTableFileOffset", "TableMgr::setTableFile", "TableFile::setBatch", "TableFile::setSingle",
               "TableFile::compactTo", "TableFile::mergeCompactTo", "TableWriterMgr::doTableWrite",
               "TableWriterArgs::invoke"):
        events[J + nm] = copy
    for top in REORG:
        run_spec(P, R, pid, "table reorganisation", top, events, on_exit, min_sites=3)

    # the destination of a move is committed before its source
    def move(rule, eng, fn, i, node, st):
        a = st.auto
        o = fn.nodes[node["obj"]] if node.get("obj") is not None else None
        key = root(fn, node["obj"]) if o else None
        n = len(node["args"])
        f = P.fns.get(node.get("fn"))
        rm = None
        if f:
            for k, p in enumerate(f.params):
                if k < n and p["t"] == "bool" and "del" in p["n"].lower():
                    rm = eng.val(fn, st, eng.nv, node["args"][k])
        if node["n"].endswith("setSingle"):
            lab = ("del", key) if rm == ("c", 1) else ("put", key)
            return [(a | {lab}, OK), (a, ERR)]
        # commit
        if ("del", key) in a and any(x[0] == "put" for x in a if isinstance(x, tuple)):
            rule.bad("source first", fn, node["l"], "the table records are moved away from is committed before the one they are "
                     "moved to")
        return [(frozenset(x for x in a if not (isinstance(x, tuple) and x[1] == key)), OK), (a, ERR)]

    def mx(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val) and any(isinstance(x, tuple) for x in auto):
            rule.bad("not committed", fn, line, "reports success although moved records have not been committed")
    ev2 = {J + "TableFile::setSingle": move, J + "TableFile::setBatch": move}
    for top in ("TableMgr::fixTable", "TableMgr::mergeLevel"):
        run_spec(P, R, pid, "moving records", top, ev2, mx, min_sites=1)
    return R
