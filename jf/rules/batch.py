"""Atomic batches: what a batch across databases does in which order, and what
readers may see of a batch that is still being written."""
from ..core import Result
from ..cwalk import Budget, subtree
from .locks import last, short, tname
from .proto import Proto, enum_names

LOOPS = ("ForStmt", "WhileStmt", "CXXForRangeStmt")
STATUS = "GlobalBatchStatus::curStatus"


class StatusProto(Proto):
    """Follows the outcome of calls through Status variables."""

    def status(self, fn, n, a, e, nv, op, w):
        o = fn.nodes[n["obj"]] if n.get("obj") is not None else None
        if o and o["k"] == "ref" and o.get("v") and tname(o.get("t")).endswith("Status"):
            if op == "operator=" and n.get("args"):
                v = self.val_of(w, fn, e, nv, n["args"][0])
                return [(a, {**e, o["v"]: v}, v)]
            if op in ("operator bool", "ok"):
                v = e.get(o["v"])
                if v is not None:
                    return [(a, e, v)]
        return None


class BatchProto(StatusProto):
    """One generic database of the batch: every loop over the batch is taken
    exactly once. Automaton: (loops taken, locked, barrier, written,
    announced, visible)."""
    ret_dtors = True

    def start(self, fn):
        return (frozenset(), False, False, False, False, False)

    def keep(self, k):
        return k[:2] in ("G:", "F:", "L:")

    def inline(self, f):
        return f.cls is not None and f.cls == self.cls and not f.is_lambda

    def branch(self, w, fn, tc, want, a, e, nv, b):
        if b.get("tk") in LOOPS:
            key = (fn.id, b["id"] if "id" in b else tc)
            if want:
                if key in a[0]:
                    return False
                return (a[0] | {key},) + a[1:]
            return None if key in a[0] else False
        return None

    def lambda_of(self, fn, i):
        for j in subtree(fn, i):
            m = fn.nodes[j]
            if m["k"] == "lambda":
                return m["fn"]
            if m["k"] == "ctor":
                for x in m.get("args", ()):
                    r = self.lambda_of(fn, x)
                    if r:
                        return r
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "decl" and n.get("i") is not None:
            lam = self.lambda_of(fn, n["i"])
            if lam and lam in self.P.fns:
                return [(a, {**e, "L:" + n["v"]: (lam, tname(n.get("t")).endswith("GcFunc"))}, None)]
        run = None
        if k == "call" and n.get("obj") is not None and last(n.get("n", "")) in ("gcNow", "operator()"):
            o = fn.nodes[n["obj"]]
            if o and o["k"] == "ref" and ("L:" + str(o.get("v"))) in e:
                run = "L:" + o["v"]
                again = last(n["n"]) == "operator()"
        elif k == "dtor" and n.get("v") and ("L:" + n["v"]) in e and e["L:" + n["v"]][1]:
            run = "L:" + n["v"]
            again = False
        if run:
            e2 = dict(e)
            lam = e[run][0]
            if not again:
                del e2[run]
            return [(a2, e2, None) for a2, v in w.run(lam, a)]
        if k == "call" and n.get("n"):
            op = last(n["n"])
            r = self.status(fn, n, a, e, nv, op, w)
            if r is not None:
                return r
            r = self.step(w, fn, n, a, e, nv, op)
            if r is not None:
                return r
        return Proto.elem(self, w, fn, i, n, a, e, nv)

    def step(self, w, fn, n, a, e, nv, op):
        lp, locked, bar, wr, ann, vis = a
        args = n.get("args") or []

        def zero(i):
            if len(args) <= i:
                return False
            v = self.val_of(w, fn, e, nv, args[i])
            return v in (("int", 0), ("null",)) or fn.nodes[args[i]].get("null") or \
                any(fn.nodes[j].get("null") or fn.nodes[j].get("cv") == 0 for j in subtree(fn, args[i]))
        if op == "lockWriteMutex":
            if locked:
                self.bad(fn, n["l"], "twice", "takes the write lock of a database twice")
            if wr:
                self.bad(fn, n["l"], "late", "takes the write lock of a database after writing to another one")
            return [((lp, True, bar, wr, ann, vis), e, None)]
        if op == "unlockWriteMutex":
            if not locked:
                self.bad(fn, n["l"], "unlock", "gives back a write lock it does not hold")
            if bar:
                self.bad(fn, n["l"], "early", "lets other writers in before the visibility barrier is lifted")
            return [((lp, False, bar, wr, ann, vis), e, None)]
        if op == "setVisibleSeqBarrier":
            if not locked:
                self.bad(fn, n["l"], "nolock", "changes the visibility barrier of a database it has not locked")
            v = self.val_of(w, fn, e, nv, args[0])
            if v is not None and v == ("int", self.none) or fn.nodes[args[0]].get("cv") == self.none:
                if wr and not vis and self.many:
                    self.bad(fn, n["l"], "lift", "lifts the visibility barrier of one database before the whole batch is "
                                                 "made visible: readers see a part of it")
                return [((lp, locked, False, wr, ann, vis), e, None)]
            if wr:
                self.bad(fn, n["l"], "late", "raises the visibility barrier after writing a part of the batch")
            return [((lp, locked, True, wr, ann, vis), e, None)]
        if op in ("checkBatchValidity", "getMaxSeqNum") and not locked and n.get("obj") is not None:
            self.bad(fn, n["l"], "check", "looks at the sequence numbers of a database it has not locked")
        if op == "getMaxSeqNum" and args and fn.nodes[args[0]]["k"] == "ref":
            return [(a, {**e, fn.nodes[args[0]]["v"]: ("pos",)}, None), (a, e, None)]
        if op == "setMultiInternal":
            if len(args) > 1 and fn.nodes[args[1]]["k"] == "ref":
                e = {**e, fn.nodes[args[1]]["v"]: ("pos",)}
            if not locked:
                self.bad(fn, n["l"], "write", "writes to a database it has not locked")
            if not bar:
                self.bad(fn, n["l"], "hidden", "writes a part of the batch that is not hidden behind a visibility barrier")
            if vis:
                self.bad(fn, n["l"], "after", "writes a part of the batch after it was made visible")
            return [((lp, locked, bar, True, ann, vis), e, ("int", 1)), ((lp, locked, bar, wr, ann, vis), e, ("int", 0))]
        if op == "setGlobalBatch":
            if zero(0):
                if bar:
                    self.bad(fn, n["l"], "order", "forgets the batch of a database before its visibility barrier is lifted: "
                                                  "what was visible disappears again")
                return [((lp, locked, bar, wr, False, vis), e, None)]
            if not wr:
                self.bad(fn, n["l"], "announce", "announces a batch for a database before writing it")
            return [((lp, locked, bar, wr, True, vis), e, None)]
        return None

    def ev(self, w, fn, n, a, e, kind, place, val):
        lp, locked, bar, wr, ann, vis = a
        if kind in ("lock", "unlock") and place and place.endswith("LogMgr::writeMutex"):
            if kind == "unlock" and bar:
                self.bad(fn, n["l"], "early", "lets other writers in before the visibility barrier is lifted")
            return [((lp, kind == "lock", bar, wr, ann, vis), None)]
        if place and place.endswith(STATUS) and kind in ("store", "exchange"):
            if val and val[0] == "int" and self.names.get(val[1]) == "VISIBLE":
                if wr and not ann:
                    self.bad(fn, n["l"], "unknown", "makes the batch visible while a database that wrote its part does not know "
                                                    "the batch")
                return [((lp, locked, bar, wr, ann, True), None)]
            return [((lp, locked, bar, wr, ann, False), None)]
        return None

    def finish(self, w, fn, a, line):
        lp, locked, bar, wr, ann, vis = a
        if locked:
            self.bad(fn, line, "held", "returns with the write lock of a database held")
        if bar:
            self.bad(fn, line, "barrier", "returns with a visibility barrier in place: later writes stay invisible")
        if ann:
            self.bad(fn, line, "batch", "returns with a finished batch still announced")
        if wr and not vis and self.many:
            self.bad(fn, line, "invisible", "returns after writing a batch without having made it visible at once")


def no_barrier(P):
    """The value that means that there is no visibility barrier: what a new
    log manager starts with."""
    for f in P.fns.values():
        if f.is_ctor and f.cls and f.cls.endswith("LogMgr"):
            for n in f.nodes:
                if n and n["k"] == "finit" and n["f"].endswith("::visibleSeqBarrier"):
                    for j in subtree(f, n["i"]) if isinstance(n.get("i"), int) else ():
                        m = f.nodes[j]
                        if "cv" in m:
                            return m["cv"]
                        for x in m.get("args", ()):
                            if "cv" in f.nodes[x]:
                                return f.nodes[x]["cv"]
    return 0


def batch_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton of atomic batches, for one generic database of the batch: lock, barrier, write, announce, "
                   "make visible, lift the barrier, forget, unlock, on every path")
    none = no_barrier(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.is_lambda:
            continue
        names = set(last(n.get("n", "")) for g in [f] + [x for x in P.fns.values() if x.parent == f.id] for i, n in g.calls())
        if "setMultiInternal" not in names:
            continue
        pr = BatchProto(P, R, pid)
        pr.names = enum_names(P, "jungle::" + STATUS) or enum_names(P, STATUS) or {}
        pr.none = none
        pr.many = any(str(n.get("n", "")).endswith("lockWriteMutex") for i, n in f.calls())
        try:
            pr.check(f)
        except Budget:
            R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
        R.coverage["writers"] = R.coverage.get("writers", 0) + 1
    # databases of a batch are told apart and locked in one order
    for f in P.fns.values():
        if f.cls and f.cls.endswith("BatchPairLess") and last(f.name) == "operator()":
            R.functions.add(f.name)
            read = set()
            todo, seen = [f], set()
            while todo:
                g = todo.pop()
                if g.id in seen:
                    continue
                seen.add(g.id)
                for n in g.nodes:
                    if n and n["k"] == "mem":
                        read.add(n["f"].rsplit("::", 1)[-1])
                    if n and n["k"] == "call" and n.get("fn") in P.fns and len(seen) < 20:
                        todo.append(P.fns[n["fn"]])
            ids = {"path"} & read and ({"kvsID"} & read or {"kvsName"} & read)
            R.check(bool(ids) or len(read) == 1 and "db" in read, "%s|order|key" % pid, f.where(),
                    "databases of a batch that differ only in their %s count as one: the batch of the second is dropped"
                    % ("path" if "path" not in read else "name"))
    return R


# ---- what readers see ------------------------------------------------------------
BARRIER = "getVisibleSeqBarrier"
MAXSEQ = ("getMaxSeqNum", "getAvailSeqRange")
READS = ("get", "getNearest", "getPrefix")


class SeeProto(StatusProto):
    """Values: ("max", k) newest number, read in section k; ("bar", k);
    ("ok",) bounded by a barrier read later; ("snap",) number of a snapshot.
    Automaton: (section, barrier: None/"none"/"some", read after section,
    newest known to be below the barrier, snapshot)."""
    ret_dtors = True

    def start(self, fn):
        # newest number read so far?, barrier seen since then, newest <= barrier, in a snapshot
        return (False, None, False, None)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "mem" and ("M:" + n["f"]) in env:
            return env["M:" + n["f"]]
        return None

    def keep(self, k):
        return k[:2] in ("G:", "F:", "M:")

    def enter(self, w, fn, a, env):
        if fn is self.fn0:
            for p in fn.params:
                if p["n"] in ("chk",) or "uint64" in str(p["t"]) or "unsigned long" in str(p["t"]):
                    env[p["v"]] = ("arg",)
        return a

    def lub(self, a, x, y):
        """Smaller of two bounds."""
        if ("bar",) in (x, y) or ("ok",) in (x, y):
            return ("ok",)
        return x or y

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "asn" and self.kind == "newest" and fn is self.fn0 and fn.nodes[n["a"]]["k"] == "ref" and \
                fn.nodes[n["a"]].get("v") in [p["v"] for p in fn.params]:
            self.seen += 1
            self.use(fn, n["l"], a, self.val_of(w, fn, e, nv, n["b"]), "reports what is visible")
            return None
        if k == "asn" and fn.nodes[n["a"]] and fn.nodes[n["a"]]["k"] == "mem" and n["op"] == "=":
            v = self.val_of(w, fn, e, nv, n["b"])
            key = "M:" + fn.nodes[n["a"]]["f"]
            return [(a, {**e, key: v or ("any",)}, v)]
        if k != "call":
            return Proto.elem(self, w, fn, i, n, a, e, nv)
        op = last(n.get("n", ""))
        args = n.get("args") or []
        mx, bar, le, sn = a
        r = self.status(fn, n, a, e, nv, op, w)
        if r is not None:
            return r
        if n.get("oper"):
            return Proto.elem(self, w, fn, i, n, a, e, nv)
        if op == BARRIER:
            return [((mx, "none", le, sn), e, ("nobar",)), ((mx, "some", le, sn), e, ("bar",))]
        if op == "valid_number" and args:
            v = self.val_of(w, fn, e, nv, args[0])
            if v == ("nobar",):
                return [(a, e, ("int", 0))]
            if v == ("bar",):
                return [(a, e, ("int", 1))]
            if v == ("arg",):
                return [((mx, bar, le, True), e, ("int", 1)), ((mx, bar, le, False), e, ("int", 0))] if sn is None else \
                    [(a, e, ("int", 1 if sn else 0))]
        if op in MAXSEQ and (op != "getMaxSeqNum" or self.kind != "itr"):
            outs = [x for x in args if fn.nodes[x]["k"] in ("ref",)]
            e2 = dict(e)
            if op == "getAvailSeqRange" and len(args) >= 2:
                m = fn.nodes[args[1]]
                key = "M:" + m["f"] if m["k"] == "mem" else m.get("v")
                if key:
                    e2[key] = ("max",)
            elif outs and op == "getMaxSeqNum":
                e2[fn.nodes[outs[0]]["v"]] = ("max",)
            if op == "getAvailSeqRange":
                return [((True, None, False, sn), e2, ("int", 1)), (a, e, ("int", 0))]
            return [((True, None, False, sn), e2, ("max",))]
        if op == "min" and len(args) == 2:
            x, y = self.val_of(w, fn, e, nv, args[0]), self.val_of(w, fn, e, nv, args[1])
            return [(a, e, self.lub(a, x, y))]
        if op == "getSN" and str(n.get("n", "")).endswith("LogFile::getSN"):
            self.seen += 1
            if not (bar == "none" or bar == "some" and le):
                self.bad(fn, n["l"], "barrier", "reads a record by its number although it may belong to a batch in progress")
            return [(a, e, None)]
        if op in READS and str(n.get("n", "")).endswith("LogFile::" + op) and args:
            v = self.val_of(w, fn, e, nv, args[0])
            self.seen += 1
            if sn is True and v == ("arg",):
                return [(a, e, None)]
            self.use(fn, n["l"], a, v, "reads the log file")
            return [(a, e, None)]
        return Proto.elem(self, w, fn, i, n, a, e, nv)

    def leave(self, w, fn, a, env, val, line):
        if fn is self.fn0 and self.kind == "itr" and a[0]:
            vs = [y for x, y in env.items() if x.startswith("M:") and x.endswith("::maxSeqSnap")]
            v = vs[0] if vs else ("arg",)
            if a[1] is None:
                self.bad(fn, line, "barrier", "covers the log up to its newest number without asking, after reading that "
                                              "number, what of a batch in progress is visible")
            elif a[1] == "some" and not a[2] and v not in (("bar",), ("ok",)):
                self.bad(fn, line, "bound", "covers the log beyond the visibility barrier of a batch in progress")
        return Proto.leave(self, w, fn, a, env, val, line)

    def use(self, fn, line, a, v, what):
        mx, bar, le, sn = a
        if v == ("ok",) or le and v == ("max",):
            return
        if v == ("bar",):
            return
        if v == ("max",) and bar == "none":
            return
        if v == ("max",) and bar is None:
            self.bad(fn, line, "barrier", "%s up to its newest number without asking, after reading that number, what of a "
                                          "batch in progress is visible" % what)
        elif v == ("max",):
            self.bad(fn, line, "bound", "%s beyond the visibility barrier of a batch in progress" % what)
        else:
            self.bad(fn, line, "unbounded", "%s without a bound taken before the visibility barrier: a batch that starts "
                                            "meanwhile is partly visible" % what)

    def branch(self, w, fn, tc, want, a, e, nv, b):
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] in ("ref", "mem"):
            v = w.val(fn, e, nv, tc)
            if v == ("nobar",) and want and self.none == 0:
                return False
            if v == ("bar",) and not want and self.none == 0:
                return False
        if n and n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">="):
            x, y = w.val(fn, e, nv, n["a"]), w.val(fn, e, nv, n["b"])
            op = n["op"] if want else {"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[n["op"]]
            if y == ("bar",) and x is not None and op in ("<", "<=") or x == ("bar",) and y is not None and op in (">", ">="):
                return (a[0], a[1], True, a[3])
            if "nobar" in (x and x[0], y and y[0]) and self.none != 0:
                # no barrier is the greatest number
                gt = op in (">", ">=")
                if (x == ("nobar",)) != gt:
                    return False
        return None


def see_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("value tracking: the number up to which the log is read is that of a snapshot, or the newest one limited by "
                   "the visibility barrier asked for afterwards")
    none = no_barrier(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.is_lambda or not f.cls:
            continue
        calls = [(n, last(n.get("n", ""))) for i, n in f.calls()]
        rd = any(o in READS and str(n.get("n", "")).endswith("LogFile::" + o) for n, o in calls) and f.cls.endswith("LogMgr")
        newest = f.short == "LogMgr::getMaxSeqNum"
        sn = f.short == "LogMgr::getSN"
        itr = f.short.endswith("Iterator::initInternal") and any(o == "getAvailSeqRange" for n, o in calls)
        if not (rd or newest or sn or itr):
            continue
        pr = SeeProto(P, R, pid)
        pr.none = none
        pr.seen = 0
        pr.kind = "newest" if newest else "itr" if itr else "read"
        try:
            pr.check(f)
        except Budget:
            R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
        R.coverage["readers"] = R.coverage.get("readers", 0) + 1
        R.coverage["reads"] = R.coverage.get("reads", 0) + pr.seen
    return R
