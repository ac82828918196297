"""Locks (L family): order of acquisition, balance, data guarded by a lock,
and lost updates on shared counters.

A forward walk over every function, once per set of locks its callers may
hold.  A lock is named by the member it lives in ("jungle::LogMgr::sMapLock");
guards are tracked per variable, so early unlock and relock are exact.  A
state is the set of held locks; branches on owns_lock()/acquire() are split."""
from collections import defaultdict, deque

from ..core import Result
from ..cwalk import subtree

J = "jungle::"
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
MUTEX = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex",
         "std::recursive_timed_mutex", "std::shared_timed_mutex")
SEMA = J + "OpSemaWrapper"


def last(nm):
    return nm.rsplit("::", 1)[-1]


def short(nm):
    return nm[len(J):] if nm.startswith(J) else nm


def tname(t):
    return (t or "").replace("const ", "").strip()


def signal_handlers(P):
    """Functions installed as signal handlers: entered by the crash path only."""
    out = set()
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            src = None
            if n["k"] == "call" and n.get("n") in ("signal", "std::signal", "sigaction"):
                src = n.get("args")
            elif n["k"] == "asn" and f.nodes[n["a"]]["k"] == "mem" and "sa_" in f.nodes[n["a"]]["f"]:
                src = [n["b"]]
            for s in src or ():
                for j in subtree(f, s):
                    m = f.nodes[j]
                    if m and m["k"] == "fnref" and m.get("fn") in P.fns:
                        out.add(m["fn"])
        if len(f.params) == 3 and f.params[0]["t"] == "int" and "siginfo_t" in f.params[1]["t"]:
            out.add(f.id)
    return out


def async_lambdas(P):
    """Lambdas handed to another thread: they run with none of the creator's locks."""
    out = set()
    for f in P.fns.values():
        up = {}
        for j, m in enumerate(f.nodes):
            if not m:
                continue
            for x in list(m.get("args") or []) + [m.get(q) for q in ("i", "a", "b", "obj")]:
                if isinstance(x, int):
                    up.setdefault(x, []).append(j)
        var = {}
        for j, m in enumerate(f.nodes):
            if m and m["k"] == "ref" and m.get("v"):
                var.setdefault(m["v"], []).append(j)
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "lambda":
                continue
            seen, work = set(), [i]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                m = f.nodes[x]
                if x != i and m["k"] in ("call", "ctor"):
                    nm = str(m.get("n", ""))
                    if nm.startswith("std::thread::") or nm.startswith("simple_thread_pool::") or nm == "std::async":
                        out.add(n["fn"])
                        break
                    if not nm.startswith("std::"):
                        continue
                if m["k"] == "decl":
                    work += var.get(m["v"], [])
                work += up.get(x, [])
    return out


class Locks:
    def __init__(self, P, single=()):
        self.P = P
        self.single = set(single)   # functions that have their object for themselves
        self.frees = {}             # join sites: (fn, line, held, field class)
        self.edges = {}          # (a, b) -> (fn, line, via)
        self.selfs = {}
        self.calls = defaultdict(list)      # callee -> [(fn, node, held)]
        self.access = defaultdict(list)     # field -> [(fn, node, held frozenset, write)]
        self.bads = {}
        self.acq_sites = set()
        self.points = 0
        self.memo = {}           # (fid, ctx) -> exit deltas
        self.contexts = defaultdict(set)
        self.joins = {}
        self.alias_cache = {}
        self.recursive = set()
        for c in P.classes.values():
            for fl in c.get("fields", []):
                if "recursive" in str(fl.get("t")):
                    self.recursive.add(c["name"] + "::" + fl["n"])
        self.run()

    # -- names --------------------------------------------------------------
    def lock_of(self, fn, i, depth=0):
        """Name of the lock an expression denotes."""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if n is None or depth > 8:
            return None
        k = n["k"]
        if k == "mem":
            if n["f"] == J + "OpSema::lock":
                r = self.lock_of(fn, n["b"], depth + 1)
                return r or n["f"]
            return n["f"]
        if k == "un" and n["op"] in ("&", "*"):
            return self.lock_of(fn, n["a"], depth + 1)
        if k == "idx":
            return self.lock_of(fn, n["a"], depth + 1)
        if k == "ref":
            if n.get("g"):
                return n["g"]
            for m in fn.nodes:
                if m and m["k"] == "decl" and m.get("v") == n.get("v") and m.get("i") is not None:
                    if tname(m.get("t")) in MUTEX:
                        break
                    return self.lock_of(fn, m["i"], depth + 1)
            return "%s:%s" % (fn.short, n["n"])
        if k == "call":
            if n.get("oper") == "[]" and n.get("obj") is not None:
                return self.lock_of(fn, n["obj"], depth + 1)
            if n.get("oper") in ("*", "->") and n.get("obj") is not None:
                return self.lock_of(fn, n["obj"], depth + 1)
            for t in self.P.targets(n):
                g = self.P.fns[t]
                for m in g.nodes:
                    if m and m["k"] == "ret" and m.get("v") is not None:
                        r = self.lock_of(g, m["v"], depth + 1)
                        if r:
                            return r
            if n.get("obj") is not None and last(n.get("n", "")) in ("at", "get", "front", "back"):
                return self.lock_of(fn, n["obj"], depth + 1)
            return None
        if k == "cond":
            return self.lock_of(fn, n["a"], depth + 1)
        if k == "x" and n.get("args"):
            return self.lock_of(fn, n["args"][0], depth + 1)
        return None

    # -- walk ---------------------------------------------------------------
    def run(self):
        P = self.P
        cs = P.callers()
        self.queue = deque()
        self.threads = set()
        api = set(c["name"] for c in P.classes.values()
                  if str(c.get("file", "")).startswith("include/"))
        self.handlers = signal_handlers(P)
        self.async_lambdas = async_lambdas(P)
        for f in P.fns.values():
            if f.id in self.handlers:
                continue
            callers = cs.get(f.id, set()) - {f.id} - self.handlers
            if not callers or f.file.startswith("include/") or (f.cls in api and not f.is_lambda):
                self.need(f.id, frozenset())
        while self.queue:
            fid, ctx = self.queue.popleft()
            self.function(P.fns[fid], ctx)
        # functions only called from cycles; signal handlers and what only they call are left out
        left = P.reach_from(self.handlers)
        for f in P.fns.values():
            if not self.contexts[f.id] and f.id not in left and not f.is_lambda:
                self.need(f.id, frozenset())
        while self.queue:
            fid, ctx = self.queue.popleft()
            self.function(P.fns[fid], ctx)

    def need(self, fid, ctx):
        if ctx not in self.contexts[fid]:
            self.contexts[fid].add(ctx)
            self.queue.append((fid, ctx))

    def effects(self, fid, stack=()):
        """Locks a helper leaves locked / has unlocked when it returns:
        set of (frozenset gained, frozenset lost)."""
        if fid in self.memo:
            return self.memo[fid]
        if fid in stack or len(stack) > 6:
            return {(frozenset(), frozenset())}
        f = self.P.fns[fid]
        raw = False
        for i, n in f.calls():
            if last(n.get("n", "")) in ("lock", "unlock", "try_lock") and n.get("obj") is not None \
                    and tname(f.nodes[n["obj"]].get("t")) in MUTEX:
                raw = True
        if not raw or f.cls == SEMA:
            self.memo[fid] = {(frozenset(), frozenset())}
            return self.memo[fid]
        res = set()
        for st in self.flow(f, frozenset(), record=False):
            res.add((frozenset(x[1] for x in st if x[0] == "raw"),
                     frozenset(x[1] for x in st if x[0] == "lost")))
        self.memo[fid] = res or {(frozenset(), frozenset())}
        return self.memo[fid]

    def function(self, f, ctx):
        if f.is_ctor or f.is_dtor:
            ctx = ctx | {"own:" + str(f.cls)}
        if f.short in self.single:
            ctx = ctx | {"own:" + f.short}
        for st in self.flow(f, ctx, record=True):
            for x in st:
                if x[0] == "g" and x[3]:
                    pass            # destroyed with its scope by the caller
        return

    def held(self, ctx, st):
        r = set(ctx)
        for x in st:
            if x[0] == "lost":
                r.discard(x[1])
        for x in st:
            if x[0] == "raw":
                r.add(x[1])
            elif x[0] == "g" and x[3]:
                r.add(x[2])
        return frozenset(r)

    def flow(self, f, ctx, record):
        init = {f.entry: {frozenset()}}
        work = [(f.entry, frozenset())]
        outs = set()
        seen = {(f.entry, frozenset())}
        count = 0
        while work:
            b, st = work.pop()
            count += 1
            if count > 4000:
                self.bads.setdefault("%s|states" % f.short, (f.where(), "too many lock states", f))
                break
            blk = f.blocks[b]
            # after this block: list of (state, cond-split info)
            cur = [(st, {})]
            for i in blk["e"]:
                nxt = []
                for s, split in cur:
                    nxt += self.elem(f, i, f.nodes[i], s, split, ctx, record)
                cur = nxt
            if b == f.exit:
                for s, _ in cur:
                    outs.add(s)
                continue
            if blk.get("noret"):
                continue
            for s, split in cur:
                for idx, to in enumerate(blk["s"]):
                    if to is None or to < 0:
                        continue
                    if len(blk["s"]) == 2 and blk.get("tc") is not None:
                        want = idx == 0
                        v = self.truth(f, blk["tc"], s, split)
                        if v is not None and v != want:
                            continue
                    key = (to, s)
                    if key not in seen:
                        seen.add(key)
                        work.append(key)
        return outs

    def truth(self, f, i, st, split):
        neg = False
        while True:
            n = f.nodes[i]
            if n and n["k"] == "un" and n["op"] == "!":
                neg = not neg
                i = n["a"]
                continue
            break
        if i in split:
            v = split[i]
        else:
            n = f.nodes[i]
            v = None
            if n and n["k"] == "call" and n.get("obj") is not None:
                o = f.nodes[n["obj"]]
                if o and o["k"] == "ref" and last(n["n"]) in ("owns_lock", "operator bool"):
                    for x in st:
                        if x[0] == "g" and x[1] == o.get("v"):
                            v = x[3]
        return None if v is None else (v != neg)

    def acquire(self, f, line, lk, st, ctx, record, block=True):
        if not record:
            return
        self.acq_sites.add((f.id, line, lk))
        h = self.held(ctx, st)
        if not block:
            return
        for a in h:
            if a.startswith("own:"):
                continue
            if a == lk:
                if lk not in self.recursive:
                    self.selfs.setdefault(lk, (f, line))
            else:
                self.edges.setdefault((a, lk), []).append((f, line))

    def elem(self, f, i, n, st, split, ctx, record):
        k = n["k"]
        if record:
            self.points += 1
            if k == "mem" and not n.get("meth"):
                self.access[n["f"]].append((f, i, self.held(ctx, st)))
        if k == "decl" and n.get("i") is not None:
            t = tname(n.get("t"))
            if t.startswith(GUARDS):
                c = f.nodes[n["i"]]
                while c and c["k"] == "x" and c.get("args"):
                    c = f.nodes[c["args"][0]]
                if c and c["k"] == "ctor" and c.get("args"):
                    lk = self.lock_of(f, c["args"][0])
                    mode = None
                    for a in c["args"][1:]:
                        at = str(f.nodes[a].get("t"))
                        for m in ("try_to_lock", "defer_lock", "adopt_lock"):
                            if m in at:
                                mode = m
                    if lk is None:
                        lk = "?%s:%d" % (f.short, n["l"])
                        if record:
                            self.bads.setdefault("%s|unresolved" % f.short,
                                                 (f.where(n["l"]), "the lock a guard takes cannot be named", f))
                    base = frozenset(x for x in st if not (x[0] == "g" and x[1] == n["v"]))
                    on = base | {("g", n["v"], lk, True)}
                    off = base | {("g", n["v"], lk, False)}
                    if mode == "defer_lock":
                        return [(off, split)]
                    if mode == "try_to_lock":
                        self.acquire(f, n["l"], lk, st, ctx, record, block=False)
                        return [(on, split), (off, split)]
                    if mode == "adopt_lock":
                        return [(on - {("raw", lk)}, split)]
                    self.acquire(f, n["l"], lk, st, ctx, record)
                    return [(on, split)]
                return [(st, split)]
            if t == SEMA:
                c = f.nodes[n["i"]]
                if c and c["k"] == "ctor" and c.get("args"):
                    lk = self.lock_of(f, c["args"][0]) or "?sema"
                    base = frozenset(x for x in st if not (x[0] == "g" and x[1] == n["v"]))
                    return [(base | {("g", n["v"], lk, False)}, split)]
        if k == "dtor":
            v = n.get("v")
            if v is not None:
                return [(frozenset(x for x in st if not (x[0] == "g" and x[1] == v)), split)]
        if k == "call" and n.get("obj") is not None:
            o = f.nodes[n["obj"]]
            nm = n.get("n", "")
            op = last(nm)
            ot = tname(o.get("t")) if o else ""
            g = None
            if o and o["k"] == "ref":
                for x in st:
                    if x[0] == "g" and x[1] == o.get("v"):
                        g = x
            if g is not None and op in ("lock", "unlock", "release", "try_lock", "acquire"):
                off = (st - {g}) | {(g[0], g[1], g[2], False)}
                on = (st - {g}) | {(g[0], g[1], g[2], True)}
                if op == "unlock":
                    if not g[3] and record:
                        self.bads.setdefault("%s|%s|unlock" % (f.short, short(g[2])),
                                             (f.where(n["l"]), "%s is unlocked although it is not held here" % short(g[2]), f))
                    return [(off, split)]
                if op == "release":
                    return [(off | ({("raw", g[2])} if g[3] else frozenset()), split)]
                if op == "lock":
                    self.acquire(f, n["l"], g[2], st, ctx, record)
                    return [(on, split)]
                if op == "try_lock":
                    self.acquire(f, n["l"], g[2], st, ctx, record, block=False)
                    return [(on, dict(split, **{i: True})), (off, dict(split, **{i: False}))]
                if op == "acquire":
                    self.acquire(f, n["l"], g[2], st, ctx, record)
                    return [(on, {**split, i: True}), (off, {**split, i: False})]
            if ot in MUTEX and op in ("lock", "unlock", "try_lock"):
                lk = self.lock_of(f, n["obj"])
                if lk is None:
                    lk = "?"
                if op == "lock":
                    self.acquire(f, n["l"], lk, st, ctx, record)
                    return [(st | {("raw", lk)}, split)]
                if op == "try_lock":
                    self.acquire(f, n["l"], lk, st, ctx, record, block=False)
                    return [(st | {("raw", lk)}, {**split, i: True}), (st, {**split, i: False})]
                if ("raw", lk) in st:
                    return [(st - {("raw", lk)}, split)]
                return [(st | {("lost", lk)}, split)]
        if k == "lambda":
            if n["fn"] in self.P.fns and record:
                self.need(n["fn"], frozenset() if n["fn"] in self.async_lambdas else self.held(ctx, st))
            return [(st, split)]
        if k in ("call", "ctor", "dtor", "del"):
            if n.get("n") == "std::thread::join" and record:
                h = frozenset(x for x in self.held(ctx, st) if not x.startswith("own:"))
                if h:
                    self.joins.setdefault((f.id, i), (f, n["l"], h))
            out = [(st, split)]
            for t in self.P.targets(n):
                if self.P.fns[t].cls == SEMA:
                    continue
                if record:
                    self.need(t, self.held(ctx, st))
                    if self.P.fns[t].short in NEEDS:
                        self.calls[t].append((f, i, self.held(ctx, st)))
                ef = self.effects(t)
                if ef != {(frozenset(), frozenset())}:
                    nxt = []
                    for s, sp in out:
                        for gain, lost in ef:
                            s2 = set(s)
                            for lk in lost:
                                if ("raw", lk) in s2:
                                    s2.discard(("raw", lk))
                                else:
                                    s2.add(("lost", lk))
                            for lk in gain:
                                s2.add(("raw", lk))
                            nxt.append((frozenset(s2), sp))
                    out = nxt
            return out
        return [(st, split)]


# ---- rules ---------------------------------------------------------------------
ALL = ("LogMgr::flushSema", "LogMgr::reclaimSema", "LogMgr::syncSema")
# operations that rely on their caller's lock
NEEDS = {
    "LogMgr::syncInternal": ("LogMgr::syncSema",),
    "LogFile::flushMemTable": ("LogMgr::syncSema",),
    "LogFile::sync": ("LogMgr::syncSema",),
    "LogFile::discardDirty": ("LogMgr::syncSema",),
    "MemTable::flush": ("LogMgr::syncSema",),
    "MemTable::sync": ("LogMgr::syncSema",),
    "MemTable::appendFlushMarker": ("LogMgr::syncSema",),
    "MemTable::appendCheckpointMarker": ("LogMgr::syncSema",),
    "MemTable::discardDirty": ("LogMgr::syncSema",),
    "LogManifest::storeInternal": ("LogManifest::mFileWriteLock",),
    "TableManifest::storeInternal": ("TableManifest::mFileWriteLock",),
    "LogManifest::removeLogFile": ("LogMgr::flushSema",),
    "LogFileInfo::setRemoved": ("LogMgr::flushSema",),
    "LogFile::getLogsToFlush": ("LogMgr::flushSema",),
    "TableMgr::setBatch": ("LogMgr::flushSema",),
    "TableMgr::storeManifest": ("LogMgr::flushSema",),
    "TableMgr::setBatchHash": ("TableMgr::L0Lock",),
    "LogFile::truncate": ALL,
    "LogManifest::rollbackLogFileNumber": ALL,
    "DBMgr::forceRemoveFiles": ALL,
    "LogMgr::addNewLogFile": ("LogMgr::writeMutex",),
    "LogFile::isValidToWrite": ("LogMgr::writeMutex",),
    "LogFile::setSN": ("LogMgr::writeMutex",),
    "LogMgr::setMultiInternal": ("LogMgr::writeMutex",),
    "LogMgr::checkBatchValidity": ("LogMgr::writeMutex",),
    "LogMgr::setVisibleSeqBarrier": ("LogMgr::writeMutex",),
    "LogManifest::setMaxLogFileNum": ("LogMgr::addNewLogFileMutex",),
    "LogFile::purgeMemTable": ("LogFileInfo::evictionLock",),
    "TableInfo::setMigration": ("TableManifest::tableUpdateLock",),
    "TableInfo::setCompactSrc": ("TableMgr::L0Lock",),
    "TableManifest::removeTableFile": ("TableManifest::tableUpdateLock",),
    "TableManifest::getTablesRange": ("TableManifest::tableUpdateLock",),
}


def excused(P, f, n, fn):
    """Calls the lock is not needed for."""
    if f.name.find("GlobalBatchExecutor::execute") >= 0:
        # takes the locks of a whole list of databases: the rule about global batches decides it
        return True
    if fn == "TableManifest::removeTableFile":
        # level 0 is divided by hash: no key range is uncovered meanwhile
        a = n.get("args") or []
        return bool(a) and f.nodes[a[0]].get("cv") == 0
    if fn == "TableManifest::getTablesRange":
        # only who is going to replace the tables he got needs the list complete
        a = n.get("args") or []
        if a and f.nodes[a[0]].get("cv") == 0:
            return True
        change = [g.id for g in P.fns.values() if g.short in ("TableManifest::removeTableFile", "TableLockHolder::TableLockHolder")]
        if not hasattr(P, "_replacers"):
            cs = P.callers()
            P._replacers = set(x for c in change for x in cs.get(c, ()))

        return f.id not in P._replacers
    return False


def analysis(P):
    if not hasattr(P, "_locks"):
        P._locks = Locks(P, SINGLE)
    return P._locks


# functions that run before their object is visible to anyone else, or after nobody else uses it
SINGLE = ("LogManifest::load", "LogManifest::create", "TableManifest::load", "TableManifest::create", "LogMgr::init",
          "TableMgr::init", "LogMgr::close", "TableMgr::close", "TableFile::load", "TableFile::create",
          "TableFile::openFdbHandle", "MemTable::init", "LogFile::load", "TableWriterMgr::init", "TableWriterMgr::shutdown",
          "DBMgr::init", "DB::open", "DBManifest::load", "DBManifest::create", "LogFile::loadMemTable",
          "TableStack::load",
          # handing the whole bitmap out or taking one over, while a filter is written or loaded
          "GenericBitmap::getPtr", "GenericBitmap::moveFrom")


def creation_only(P, f, line):
    """The acquisition at this line happens only after a pointer was seen null:
    the check before creating a singleton."""
    ok = set()
    hit = None
    for b, blk in f.blocks.items():
        for i in blk["e"]:
            n = f.nodes[i]
            if n and n.get("l") == line and n["k"] == "decl" and tname(n.get("t")).startswith(GUARDS):
                hit = b
    if hit is None:
        return False
    seen, work = {f.entry}, [f.entry]
    while work:
        b = work.pop()
        blk = f.blocks[b]
        for idx, to in enumerate(blk["s"]):
            if to is None or to < 0:
                continue
            if len(blk["s"]) == 2 and blk.get("tc") is not None and null_on(f, blk["tc"], idx == 0):
                continue
            if to not in seen:
                seen.add(to)
                work.append(to)
    return hit not in seen


def null_on(f, i, truth):
    n = f.nodes[i]
    while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1:
        n = f.nodes[n["args"][0]]
    if not n:
        return False
    if n["k"] == "un" and n["op"] == "!":
        return null_on(f, n["a"], not truth)
    if n["k"] == "bin" and n["op"] in ("==", "!="):
        for a, b in ((n["a"], n["b"]), (n["b"], n["a"])):
            m = f.nodes[b]
            if m and (m.get("null") or m.get("cv") == 0) and "*" in str(f.nodes[a].get("t")):
                return truth == (n["op"] == "==")
        return False
    return n["k"] in ("ref", "mem", "call") and "*" in str(n.get("t")) and not truth


def thread_entries(P):
    """[(class of the thread handle or of the creating function, entry function)]"""
    out = []
    for f in P.fns.values():
        for i, n in enumerate(f.nodes):
            if not n or n["k"] != "ctor" or not str(n.get("n", "")).startswith("std::thread::") or not n.get("args"):
                continue
            ent = set()
            for j in subtree(f, n["args"][0]):
                m = f.nodes[j]
                if m and m["k"] in ("fnref", "lambda") and m.get("fn") in P.fns:
                    ent.add(m["fn"])
            cls = set([f.cls]) if f.cls else set()
            for m in f.nodes:
                if m and m["k"] == "call" and m.get("n") == "std::thread::operator=" and i in m.get("args", ()):
                    o = f.nodes[m["obj"]]
                    if o["k"] == "mem":
                        cls.add(o["f"].rsplit("::", 1)[0])
            for e in ent:
                out.append((cls, e))
    return out


def order_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("lock order over all call paths: the acquired-while-held relation has no cycle, no lock is taken again "
                   "by its holder, and nobody waits for a thread while holding a lock that thread needs")
    A = analysis(P)
    succ = defaultdict(set)
    for a, b in A.edges:
        succ[a].add(b)
    # strongly connected components, small graph
    def reach(x):
        seen, work = set(), list(succ[x])
        while work:
            y = work.pop()
            if y not in seen:
                seen.add(y)
                work += succ[y]
        return seen
    R.obligations += len(A.acq_sites)
    R.functions |= set(P.fns[x[0]].name for x in A.acq_sites)
    cyc = set()
    for (a, b), sites in sorted(A.edges.items()):
        if a in reach(b):
            cyc.add((a, b))
    for a, b in sorted(cyc):
        f, line = A.edges[(a, b)][0]
        R.add("%s|order|%s|%s" % (pid, short(a), short(b)), f.where(line),
              "%s acquires %s while %s is held, and elsewhere they are acquired the other way round: two threads can wait "
              "for each other for ever" % (f.name, short(b), short(a)))
    for lk, (f, line) in sorted(A.selfs.items()):
        R.add("%s|self|%s" % (pid, short(lk)), f.where(line),
              "%s acquires %s on a path where its thread holds it already" % (f.name, short(lk)))
    for k, (where, msg, f) in sorted(A.bads.items()):
        if k.endswith("|unresolved") or k.endswith("|states"):
            R.coverage["undecided"] = R.coverage.get("undecided", 0) + 1
    ents = thread_entries(P)
    waits = 0
    for (fid, i), (f, line, held) in sorted(A.joins.items(), key=lambda x: x[1][0].where(x[1][1])):
        n = f.nodes[i]
        o = f.nodes[n["obj"]]
        cls = o["f"].rsplit("::", 1)[0] if o["k"] == "mem" else f.cls
        ent = [e for c, e in ents if cls in c] or [e for c, e in ents]
        body = P.reach_from(ent)
        if any(str(P.fns[e].cls).startswith("simple_thread_pool") for e in ent):
            body = body | P.reach_from(A.async_lambdas)
        waits += 1
        for x in sorted(A.acq_sites):
            if x[0] in body and x[2] in held and not creation_only(P, P.fns[x[0]], x[1]):
                g = P.fns[x[0]]
                R.add("%s|wait|%s|%s" % (pid, f.short, short(x[2])), f.where(line),
                      "%s waits for a thread to end while it holds %s, which that thread acquires in %s: both wait for "
                      "ever" % (f.name, short(x[2]), g.name))
    R.discharged += R.obligations - min(R.obligations, len(R.findings))
    R.coverage["acquisitions"] = len(A.acq_sites)
    R.coverage["lock pairs"] = len(A.edges)
    R.coverage["waits for threads under a lock"] = waits
    R.coverage["program points"] = A.points
    for (a, b), sites in sorted(A.edges.items())[:8]:
        R.samples.append("%s before %s (%s)" % (short(a), short(b), sites[0][0].where(sites[0][1])))
    return R


# data that several threads use, each with the class that owns it; the lock is whatever all accesses have in common
GUARDED = """
GenericBitmap::myBitmap
SimpleLoggerMgr::activeThreads
SimpleLoggerMgr::loggers
SimpleLoggerMgr::pendingCompElems
jungle::Compactor::lastCheckedFileIndex
jungle::Flusher::lastCheckedFileIndex
jungle::DB::DBInternal::asyncFlushJob
jungle::DBMgr::dbMap
jungle::DBMgr::debugParams
jungle::DBMgr::filesToRemove
jungle::DBWrap::snode
jungle::FlusherQueue::queue
jungle::LogManifest::cachedManifest
jungle::LogManifest::lenCachedManifest
jungle::LogManifest::fullBackupRequired
jungle::LogManifest::mFile
jungle::LogManifest::mBackupFile
jungle::LogMgr::globalBatchStatus
jungle::LogMgr::lastFlushTimer
jungle::LogMgr::minLogToFsync
jungle::LogMgr::sMap
jungle::MemTable::RecNode::recList
jungle::MemTable::checkpoints
jungle::MemTable::checkpointsDirty
jungle::MemTable::staleLogs
jungle::TableFile::chkMap
jungle::TableFile::latestSnapshot
jungle::TableFile::readers
jungle::TableFile::snapHandles
jungle::TableManifest::mFile
jungle::TableMgr::lockedLevels
jungle::TableMgr::lockedTables
jungle::TableMgr::sMap
jungle::TableStack::tables
jungle::TableLookupBooster::Elem::data
jungle::TableWriterMgr::tableWriters
jungle::TableWriterPkg::inUse
jungle::Timer::tCreated
jungle::WorkerBase::newGConfig
jungle::WorkerMgr::workers
simple_thread_pool::TaskHandle::intervalUs
simple_thread_pool::TaskHandle::tRegistered
simple_thread_pool::ThreadPoolMgr::idleThreads
simple_thread_pool::ThreadPoolMgr::normalTasks
simple_thread_pool::ThreadPoolMgr::timedTasks
"""


# plain values: their own methods also run on private copies
VALUES = (J + "TableLookupBooster::Elem",)


def null_test(f, i):
    """The access only asks whether a pointer is null."""
    n = f.nodes[i]
    if "*" not in str(n.get("t")):
        return False
    ups = [m for m in f.nodes if m and (m.get("a") == i or m.get("b") == i or m.get("obj") == i or
                                        i in (m.get("args") or ()) or m.get("i") == i)]
    if any(blk.get("tc") == i for blk in f.blocks.values()) and not ups:
        return True
    return bool(ups) and all(m["k"] == "un" and m["op"] == "!" or
                             m["k"] == "bin" and m["op"] in ("==", "!=") for m in ups)


def guarded_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("lockset over all call paths: every access to shared data, outside the construction and destruction of "
                   "its owner, holds one and the same lock")
    A = analysis(P)
    have = set(A.access)
    for fld in GUARDED.split():
        if fld not in have:
            R.coverage["not found"] = R.coverage.get("not found", 0) + 1
            continue
        cls = fld.rsplit("::", 1)[0]
        sites = defaultdict(list)
        for f, i, h in A.access[fld]:
            own = [x[4:] for x in h if x.startswith("own:")]
            if any(o == cls or o.rsplit("::", 1)[0] in (cls, short(cls)) for o in own):
                continue
            if null_test(f, i) or cls == f.cls and cls in VALUES:
                continue
            sites[(f.id, i)].append(frozenset(x for x in h if not x.startswith("own:")))
        if not sites:
            continue
        cnt = defaultdict(int)
        for hs in sites.values():
            for l in frozenset.intersection(*hs):
                cnt[l] += 1
        best = max(sorted(cnt), key=lambda l: cnt[l]) if cnt else None
        for (fid, i), hs in sorted(sites.items()):
            f = P.fns[fid]
            R.functions.add(f.name)
            ok = best is not None and all(best in h for h in hs)
            R.check(ok, "%s|%s|%s" % (pid, short(fld), f.short), f.where(f.nodes[i]["l"]),
                    "%s uses %s without %s, which protects it everywhere else: concurrent use corrupts it" %
                    (f.name, short(fld), short(best) if best else "any lock"))
    R.coverage["fields"] = len(GUARDED.split())
    R.coverage["program points"] = A.points
    return R


def needs_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("locks held at every call of an operation that relies on its caller's lock, over all call paths")
    A = analysis(P)
    for fn, locks in sorted(NEEDS.items()):
        ids = [f.id for f in P.fns.values() if f.short == fn]
        if not ids:
            R.coverage["not found"] = R.coverage.get("not found", 0) + 1
        for t in ids:
            sites = defaultdict(list)
            for f, i, h in A.calls[t]:
                if any(x.startswith("own:") for x in h) or excused(P, f, f.nodes[i], fn):
                    continue
                sites[(f.id, i)].append(h)
            for (fid, i), hs in sorted(sites.items()):
                f = P.fns[fid]
                R.functions.add(f.name)
                for l in locks:
                    ok = all(any(short(x) == l for x in h) for h in hs) or \
                        l in NEEDS.get(f.short, ())     # decided where that is called
                    R.check(ok, "%s|%s|%s|%s" % (pid, fn, f.short, l), f.where(f.nodes[i]["l"]),
                            "%s calls %s without %s on some path" % (f.name, fn, l))
    return R
