"""Protocols over atomics, mutexes and condition variables, decided path by
path on the small explorer: wake-up events, background workers, the exclusive
sections of the log manager, and the counters that decide who destroys a file.

A subclass of Proto sees the synchronisation steps of one function, with its
private helpers followed in context, as a sequence of events and reports what
its protocol forbids."""
from ..core import Result
from ..cwalk import Walk, CRule, Budget
from .locks import GUARDS, MUTEX, J, last, short, tname


class Proto(CRule):
    """Events (kind, place, value): lock/unlock of a mutex member, wait and
    notify of a condition variable, load/store/add/sub/cas of an atomic
    member, get/set of a plain one, delete, call, lambda."""

    def __init__(self, P, R, pid):
        self.P = P
        self.R = R
        self.pid = pid
        self.bads = {}
        self.fn0 = None
        self.cls = None

    # protocol hooks --------------------------------------------------------
    def ev(self, w, fn, n, a, e, kind, place, val):
        """None: nothing special; else [(automaton, value)]."""
        return None

    def bad(self, fn, line, what, msg):
        self.bads.setdefault("%s|%s|%s" % (self.pid, self.fn0.short, what), (fn.where(line), "%s: %s" % (self.fn0.name, msg)))

    def inline(self, f):
        return f.cls is not None and f.cls == self.cls and not f.is_lambda

    def keep(self, k):
        return k[:2] in ("G:", "F:")

    def start(self, fn):
        return ()

    def finish(self, w, fn, a, line):
        pass

    def leave(self, w, fn, auto, env, val, line):
        if fn is self.fn0:
            self.finish(w, fn, auto, line)
        return auto

    def check(self, fn, limit=60000):
        self.fn0 = fn
        self.cls = fn.cls
        self.R.functions.add(fn.name)
        self.bads = {}
        w = Walk(self.P, self, limit)
        outs = w.run(fn.id, self.start(fn))
        for key, (where, msg) in sorted(self.bads.items()):
            self.R.add(key, where, msg)
        self.R.samples.append("%s: %d paths, %d states" % (fn.where(), w.paths, w.steps))
        self.R.obligations += max(1, w.paths)
        self.R.discharged += max(1, w.paths) - (1 if self.bads else 0)
        return outs

    # helpers ------------------------------------------------------------------
    def place(self, fn, i):
        """Member (with its class), or variable an expression denotes."""
        n = fn.nodes[i] if i is not None and i >= 0 else None
        for _ in range(8):
            if n is None:
                return None
            if n["k"] == "mem":
                return n["f"]
            if n["k"] == "ref":
                if n.get("g"):
                    return n["g"]
                # a reference or pointer to a member is that member
                for m in fn.nodes:
                    if m and m["k"] == "decl" and m.get("v") == n.get("v") and m.get("i") is not None and \
                            str(m.get("t")).rstrip().endswith(("&", "*")):
                        j = m["i"]
                        while fn.nodes[j]["k"] == "un" and fn.nodes[j]["op"] == "&":
                            j = fn.nodes[j]["a"]
                        if fn.nodes[j]["k"] == "mem":
                            return fn.nodes[j]["f"]
                return n.get("v")
            if n["k"] == "un" and n["op"] in ("&", "*"):
                n = fn.nodes[n["a"]]
            elif n["k"] == "idx":
                n = fn.nodes[n["a"]]
            elif n["k"] == "call" and n.get("oper") in ("[]", "*", "->") and (n.get("obj") is not None):
                n = fn.nodes[n["obj"]]
            elif n["k"] == "call" and n.get("oper") in ("[]", "*", "->") and n.get("args"):
                n = fn.nodes[n["args"][0]]
            elif n["k"] == "x" and len(n.get("args", ())) == 1:
                n = fn.nodes[n["args"][0]]
            else:
                return None
        return None

    def emit(self, w, fn, i, n, a, e, kind, place, val, dflt=None):
        r = self.ev(w, fn, n, a, e, kind, place, val)
        if r is None:
            return [(a, e, dflt)]
        return [(x[0], x[2] if len(x) > 2 else e, x[1]) for x in r]

    def elem(self, w, fn, i, n, a, e, nv):
        k = n["k"]
        if k == "decl" and n.get("i") is not None and tname(n.get("t")).startswith(GUARDS):
            c = fn.nodes[n["i"]]
            while c and c["k"] == "x" and c.get("args"):
                c = fn.nodes[c["args"][0]]
            if c and c["k"] == "ctor" and c.get("args"):
                lk = self.place(fn, c["args"][0])
                mode = [m for x in c["args"][1:] for m in ("try_to_lock", "defer_lock", "adopt_lock")
                        if m in str(fn.nodes[x].get("t"))]
                e = dict(e)
                key = "G:" + n["v"]
                if "try_to_lock" in mode:
                    on = self.emit(w, fn, i, n, a, {**e, key: ("lk", lk, 1)}, "lock", lk, None)
                    return on + [(a, {**e, key: ("lk", lk, 0)}, None)]
                if mode:
                    e[key] = ("lk", lk, 1 if mode[0] == "adopt_lock" else 0)
                    return [(a, e, None)]
                e[key] = ("lk", lk, 1)
                return self.emit(w, fn, i, n, a, e, "lock", lk, None)
            return None
        if k == "dtor" and n.get("v") and ("G:" + n["v"]) in e:
            g = e["G:" + n["v"]]
            e = dict(e)
            del e["G:" + n["v"]]
            if g[2]:
                return self.emit(w, fn, i, n, a, e, "unlock", g[1], None)
            return [(a, e, None)]
        if k == "call" and n.get("obj") is not None:
            o = fn.nodes[n["obj"]]
            op = last(n.get("n", ""))
            ot = tname(o.get("t")) if o else ""
            if o and o["k"] == "ref" and ("G:" + str(o.get("v"))) in e:
                key = "G:" + o["v"]
                g = e[key]
                if op in ("lock", "unlock"):
                    e = {**e, key: ("lk", g[1], 1 if op == "lock" else 0)}
                    return self.emit(w, fn, i, n, a, e, op, g[1], None)
                if op == "owns_lock":
                    return [(a, e, ("int", g[2]))]
            if ot in MUTEX and op in ("lock", "unlock", "try_lock"):
                lk = self.place(fn, n["obj"])
                if op == "try_lock":
                    return self.emit(w, fn, i, n, a, e, "lock", lk, None, ("int", 1)) + [(a, e, ("int", 0))]
                return self.emit(w, fn, i, n, a, e, op, lk, None)
            if "condition_variable" in ot:
                if op.startswith("wait"):
                    return self.emit(w, fn, i, n, a, e, "wait", self.place(fn, n["obj"]), None)
                if op.startswith("notify"):
                    return self.emit(w, fn, i, n, a, e, "notify", self.place(fn, n["obj"]), None)
            if "std::atomic" in str(o.get("t")) if o else False:
                return self.atomic(w, fn, i, n, a, e, nv, op)
        if k == "asn" and fn.nodes[n["a"]] and fn.nodes[n["a"]]["k"] == "mem":
            v = self.val_of(w, fn, e, nv, n["b"]) if n["op"] == "=" else None
            return self.emit(w, fn, i, n, a, e, "set", self.place(fn, n["a"]), v)
        if k == "del":
            return self.emit(w, fn, i, n, a, e, "delete", self.what(fn, n.get("a")), None)
        if k == "call":
            ids = list(self.P.targets(n)) if n.get("fn") or n.get("n") else []
            if not (len(ids) == 1 and ids[0] not in w.stack and self.inline(self.P.fns[ids[0]])):
                r = self.ev(w, fn, n, a, e, "call", last(n.get("n", "")), [self.what(fn, x) for x in n.get("args", ())])
                if r is not None:
                    return [(x[0], x[2] if len(x) > 2 else e, x[1]) for x in r]
        return None

    def what(self, fn, i):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if n is None:
            return None
        if n["k"] == "this":
            return "this"
        return self.place(fn, i)

    def val_of(self, w, fn, e, nv, i):
        return w.val(fn, e, nv, i)

    def atomic(self, w, fn, i, n, a, e, nv, op):
        place = self.place(fn, n["obj"])
        args = n.get("args") or []
        v = self.val_of(w, fn, e, nv, args[0]) if args else None
        if op in ("load",) or op.startswith("operator ") and len(op) > 9 or op not in (
                "store", "operator=", "exchange", "fetch_add", "fetch_sub", "operator++", "operator--", "operator+=",
                "operator-=", "compare_exchange_strong", "compare_exchange_weak"):
            return self.emit(w, fn, i, n, a, e, "load", place, None)
        if op in ("store", "operator="):
            return self.emit(w, fn, i, n, a, e, "store", place, v)
        if op == "exchange":
            return self.emit(w, fn, i, n, a, e, "exchange", place, v)
        if op in ("fetch_add", "operator++", "operator+="):
            return self.emit(w, fn, i, n, a, e, "add", place, v)
        if op in ("fetch_sub", "operator--", "operator-="):
            return self.emit(w, fn, i, n, a, e, "sub", place, (v, op != "fetch_sub"))
        # compare and exchange: the expected variable changes on failure
        des = self.val_of(w, fn, e, nv, args[1]) if len(args) > 1 else None
        x = fn.nodes[args[0]]
        e2 = dict(e)
        if x and x["k"] == "ref" and x.get("v"):
            e2[x["v"]] = None
        r = self.ev(w, fn, n, a, e, "cas", place, (v, des))
        if r is None:
            return [(a, e, ("int", 1)), (a, e2, ("int", 0))]
        return [(y[0], e if y[1] == ("int", 1) else e2, y[1]) for y in r]


def with_members(P, cls, *kinds):
    """The members of a class whose type mentions each of the given words."""
    c = P.classes.get(cls)
    out = []
    for k in kinds:
        out.append([cls + "::" + f["n"] for f in (c or {}).get("fields", []) if k in str(f["t"])])
    return out


# ---- events: a wake-up is never lost ------------------------------------------
class EventProto(Proto):
    """Automaton: (held, last status this thread put there while holding the
    lock or None, outcome)."""

    def __init__(self, P, R, pid, status, lock, cv, names, waiter):
        Proto.__init__(self, P, R, pid)
        self.status, self.lock, self.cv, self.names, self.waiter = status, lock, cv, names, waiter

    def start(self, fn):
        return (False, None, None)

    def name(self, v):
        return self.names.get(v[1]) if v and v[0] == "int" else None

    def ev(self, w, fn, n, a, e, kind, place, val):
        held, mine, out = a
        if kind in ("lock", "unlock") and place == self.lock:
            return [((kind == "lock", None if kind == "unlock" and mine == "waiting" else mine, out), None)]
        if place == self.cv and kind == "wait":
            if not held or mine != "waiting":
                self.bad(fn, n["l"], "wait", "sleeps without having announced it under the lock it sleeps with; "
                                             "a wake-up sent just before is lost")
            return [((held, "woken", out), None)]
        if place == self.cv and kind == "notify":
            if not held and not self.was_locked(a):
                self.bad(fn, n["l"], "notify", "notifies without having taken the lock after the sleeper announced itself")
            return [((held, mine, "woke"), None)]
        if place == self.status and kind == "cas":
            x, d = self.name(val[0]), self.name(val[1])
            ok, fail = a, a
            if self.waiter:
                if (x, d) == ("idle", "ready"):
                    return [((held, "ready", out), ("int", 1)), ((held, "gone", "done"), ("int", 0))]
                if (x, d) == ("ready", "waiting"):
                    if not held:
                        self.bad(fn, n["l"], "announce", "announces the wait without holding the lock")
                    return [((held, "waiting", out), ("int", 1)), ((held, "gone", "done"), ("int", 0))]
            else:
                if (x, d) == ("idle", "done"):
                    return [((held, mine, "early"), ("int", 1)), ((held, mine, out), ("int", 0))]
                if (x, d) == ("ready", "done"):
                    if not held:
                        self.bad(fn, n["l"], "handover", "marks the event done without the lock, while the waiter may be "
                                                         "about to sleep")
                    return [((held, mine, "late"), ("int", 1)), ((held, "asleep", out), ("int", 0))]
            self.bad(fn, n["l"], "move", "moves the event from %s to %s, which its protocol does not know" % (x, d))
            return [(a, ("int", 1)), (a, ("int", 0))]
        if place == self.status and kind in ("store", "exchange"):
            d = self.name(val)
            if self.waiter and d == "done" and mine == "woken" and held:
                return [((held, "over", "done"), None)]
            if self.waiter and d == "idle":
                return None
            self.bad(fn, n["l"], "overwrite", "overwrites the state of the event (%s), whatever the other side did meanwhile" % d)
            return None
        return None

    def was_locked(self, a):
        return False

    def finish(self, w, fn, a, line):
        held, mine, out = a
        if self.waiter:
            if mine in (None, "ready", "waiting"):
                self.bad(fn, line, "nowait", "returns although the event did not happen")
            if mine == "woken":
                self.bad(fn, line, "leave", "leaves the event marked as waited for")
        elif out is None:
            self.bad(fn, line, "lost", "returns without having marked the event done or woken the waiter")


def event_classes(P):
    """Classes that wrap one condition variable, one mutex and one atomic
    state."""
    for name, c in sorted(P.classes.items()):
        cv, mu, at = with_members(P, name, "std::condition_variable", "std::mutex", "std::atomic<")
        if len(cv) == 1 and len(mu) == 1 and len(at) == 1:
            yield name, at[0], mu[0], cv[0]


def enum_names(P, field):
    """value -> enumerator, for the enumeration an atomic member holds."""
    cls, fl = field.rsplit("::", 1)
    t = [str(x["t"]) for x in (P.classes.get(cls) or {}).get("fields", []) if x["n"] == fl]
    t = t[0].split("std::atomic<", 1)[1].rsplit(">", 1)[0] if t and "std::atomic<" in t[0] else None
    out = {}
    for f in P.fns.values():
        for n in f.nodes:
            if n and n.get("enum") and n.get("t") == t and "cv" in n:
                out[n["cv"]] = last(n["enum"])
    return out


def uses(P, f, word):
    """The function, or a helper of its class, makes this call."""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.id in seen:
            continue
        seen.add(g.id)
        for i, n in g.calls():
            o = g.nodes[n["obj"]] if n.get("obj") is not None else None
            if o and "condition_variable" in str(o.get("t")) and last(n.get("n", "")).startswith(word):
                return True
            for t in P.targets(n):
                if P.fns[t].cls == f.cls:
                    todo.append(P.fns[t])
    return False


def event_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate of each wake-up event on every path of its wait and invoke operations")
    cs = P.callers()
    for cls, status, lock, cv in event_classes(P):
        fns = [f for f in P.fns.values() if f.cls == cls]
        names = enum_names(P, status)
        if not names:
            continue
        R.coverage["events"] = R.coverage.get("events", 0) + 1
        for f in sorted(fns, key=lambda f: f.line):
            if f.is_ctor or f.is_dtor:
                continue
            wt, nt = uses(P, f, "wait"), uses(P, f, "notify")
            inner = cs.get(f.id, set()) and all(P.fns[c].cls == cls for c in cs[f.id])
            if not (wt or nt) or inner and f.short != cls.split("::")[-1] + "::wait_us":
                continue
            try:
                EventProto(P, R, pid, status, lock, cv, names, wt).check(f)
            except Budget:
                R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
    return R


# ---- users of the events --------------------------------------------------------
class SleepProto(Proto):
    """Between forgetting old wake-ups and sleeping again the thread looks at
    what it may have been woken for."""

    def __init__(self, P, R, pid, events):
        Proto.__init__(self, P, R, pid)
        self.events = events

    def start(self, fn):
        return frozenset()

    def ev(self, w, fn, n, a, e, kind, place, val):
        if kind == "call" and n.get("obj") is not None:
            o = fn.nodes[n["obj"]]
            if o and tname(o.get("t")) in self.events:
                who = self.place(fn, n["obj"])
                c = self.fn0.cls
                own = c and who and who.rsplit("::", 1)[0] == c
                if not own:
                    return None     # somebody else's: reset before the request it answers
                if place == "reset":
                    return [(a | {who}, None)]
                if place.startswith("wait"):
                    if who in a:
                        self.bad(fn, n["l"], "reset", "forgets earlier wake-ups (%s) and goes to sleep without looking "
                                                      "again at what it may have been woken for" % short(who))
                    return [(a, None)]
                return None
        if kind == "load" or kind == "call" and last(place) in ("isStopped",) or kind == "lock":
            return [(frozenset(), None)]
        return None


def sleep_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("after old wake-ups are forgotten, state is read again before sleeping")
    events = set(c for c, _, _, _ in event_classes(P))
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.cls in events or f.cls is None:
            continue
        if any(last(n.get("n", "")) == "reset" and n.get("obj") is not None and
               tname(f.nodes[n["obj"]].get("t")) in events and
               str(Proto(P, R, pid).place(f, n["obj"])).startswith(f.cls + "::") for i, n in f.calls()):
            try:
                SleepProto(P, R, pid, events).check(f)
            except Budget:
                R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
    return R


class AwakeProto(Proto):
    """A request to stay awake, made while working, is not wiped out between
    the work and the decision to sleep. Automaton: the flags cleared since."""

    def __init__(self, P, R, pid, flags, events=()):
        Proto.__init__(self, P, R, pid)
        self.events = events
        self.flags = flags          # member -> functions that may raise it

    def start(self, fn):
        return frozenset()

    def ev(self, w, fn, n, a, e, kind, place, val):
        if kind == "store" and place in self.flags and val in (("int", 0), ("bool", False)):
            return [(a | {place}, None)]
        if kind == "store" and place in self.flags:
            return [(a - {place}, None)]
        if kind == "call" and place.startswith("wait") and n.get("obj") is not None and \
                tname(fn.nodes[n["obj"]].get("t")) in self.events and str(self.place(fn, n["obj"])).startswith(self.fn0.cls + "::"):
            for x in self.flags:
                if ("low", x) not in a:
                    self.bad(fn, n["l"], "asleep", "goes to sleep without having seen that nobody asked it to go on (%s)" % short(x))
            return [(frozenset(x for x in a if x[0] != "low"), None)]
        if kind == "load" and place in self.flags and place not in a:
            a = a - {("low", place)}
            return [(a, ("int", 1)), (a | {("low", place)}, ("int", 0))]
        if kind == "load" and place in a:
            self.bad(fn, n["l"], "awake", "decides whether to sleep by %s, which it cleared after the work that may have "
                                          "set it: a request to go on is lost" % short(place))
        if kind == "call" and a:
            ids = set(self.P.targets(n))
            return [(frozenset(x for x in a if not ids & self.flags[x[1] if isinstance(x, tuple) else x]), None)]
        return None


def awake_flags(P):
    """Atomic booleans some function sets and a sleeper of the same class
    tests: flag -> functions that may set it."""
    out = {}
    for f in P.fns.values():
        for i, n in f.calls():
            o = f.nodes[n["obj"]] if n.get("obj") is not None else None
            if o and o["k"] == "mem" and tname(o.get("t")).replace(" ", "").startswith("std::atomic<bool") and \
                    last(n.get("n", "")) in ("store", "operator=", "exchange") and n.get("args") and \
                    f.nodes[n["args"][0]].get("cv") == 1:
                out.setdefault(o["f"], set()).add(f.id)
    return dict((k, set(P.reach_to(v)) | v) for k, v in out.items())


def awake_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("a flag that asks a sleeper to go on is cleared before the work that may set it, not after")
    events = set(c for c, _, _, _ in event_classes(P))
    flags = awake_flags(P)
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.cls in events or f.cls is None:
            continue
        if not any(n.get("obj") is not None and tname(f.nodes[n["obj"]].get("t")) in events and
                   last(n.get("n", "")).startswith("wait") for i, n in f.calls()):
            continue
        body = [f] + [P.fns[g] for i, n in f.calls() for g in P.targets(n) if P.fns[g].cls == f.cls]
        seen = set(b.nodes[n["obj"]].get("f") for b in body for i, n in b.calls() if n.get("obj") is not None and
                   n.get("args") and last(n.get("n", "")) in ("store", "operator=") and b.nodes[n["args"][0]].get("cv") == 0)
        mine = dict((k, v) for k, v in flags.items() if k.rsplit("::", 1)[0] == f.cls and k in seen)
        if not mine:
            continue
        R.coverage["sleepers"] = R.coverage.get("sleepers", 0) + 1
        try:
            AwakeProto(P, R, pid, mine, events).check(f)
        except Budget:
            R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
    return R


W = J + "WorkerBase"


class WorkerProto(Proto):
    """Automaton: (state claimed by this thread, state seen last, finished)."""

    def __init__(self, P, R, pid, names):
        Proto.__init__(self, P, R, pid)
        self.names = names

    def start(self, fn):
        return (None, None, False)

    def ev(self, w, fn, n, a, e, kind, place, val):
        mine, seen, fin = a
        nm = lambda v: self.names.get(v[1]) if v and v[0] == "int" else None
        if place == W + "::status":
            if kind == "load":
                return [((mine, s, fin), ("int", v)) for v, s in sorted(self.names.items())]
            if kind == "cas":
                x, d = nm(val[0]), nm(val[1])
                if (x, d) == ("IDLE", "WORKING"):
                    if mine == "WORKING":
                        self.bad(fn, n["l"], "busy", "claims the worker again without having turned it idle after the last "
                                                     "work: it never works again")
                    return [(("WORKING", None, fin), ("int", 1)), ((mine, None, fin), ("int", 0))]
                if (x, d) == ("WORKING", "IDLE"):
                    if mine != "WORKING":
                        self.bad(fn, n["l"], "idle", "turns the worker idle although this thread is not the one working")
                    return [((None, None, fin), ("int", 1)), ((None, None, fin), ("int", 0))]
                self.bad(fn, n["l"], "move", "moves the worker from %s to %s" % (x, d))
                return None
            if kind in ("store", "exchange"):
                d = nm(val)
                if d == "NO_INSTANCE":
                    if seen != "TERMINATING":
                        self.bad(fn, n["l"], "gone", "reports the worker gone although it was not asked to terminate")
                    return [((mine, seen, True), None)]
                self.bad(fn, n["l"], "overwrite", "overwrites the state of the worker with %s: a request to terminate "
                                                  "made meanwhile is lost" % d)
        if kind == "call" and place == "work":
            if mine != "WORKING":
                self.bad(fn, n["l"], "work", "works without having claimed the worker")
            if fin:
                self.bad(fn, n["l"], "late", "works after having reported the worker gone")
        if kind == "call" and place.startswith("wait") and fin:
            self.bad(fn, n["l"], "late", "sleeps after having reported the worker gone")
        return None

    def finish(self, w, fn, a, line):
        if not a[2]:
            self.bad(fn, line, "exit", "ends without reporting the worker gone: its owner waits for ever")


class StopProto(Proto):
    """destroy(): ask to terminate, then wake up or join."""

    def __init__(self, P, R, pid, names):
        Proto.__init__(self, P, R, pid)
        self.names = names

    def start(self, fn):
        return (False, None)        # asked, outcome

    def ev(self, w, fn, n, a, e, kind, place, val):
        asked, out = a
        if place == W + "::status" and kind in ("store", "exchange"):
            if not val or self.names.get(val[1]) != "TERMINATING":
                self.bad(fn, n["l"], "state", "does not ask the worker to terminate")
            return [((True, out), None)]
        if kind == "call" and place in ("invoke", "join"):
            if not asked:
                self.bad(fn, n["l"], "order", "wakes the worker up before asking it to terminate")
            return [((asked, place), None)]
        if kind == "call" and place == "joinable":
            return [(a, ("int", 1)), ((asked, "none"), ("int", 0))]
        return None

    def finish(self, w, fn, a, line):
        if not a[0]:
            self.bad(fn, line, "noask", "returns without having asked the worker to terminate")
        elif a[1] is None:
            self.bad(fn, line, "nowake", "neither wakes the worker up nor waits for it")


class ReapProto(Proto):
    """Owner: a worker is destroyed, joined, and only then freed."""

    def start(self, fn):
        return (False, False)

    def ev(self, w, fn, n, a, e, kind, place, val):
        asked, joined = a
        if kind == "call" and n.get("n") == W + "::destroy":
            return [((True, False), None)]
        if kind == "call" and place == "join":
            if not asked:
                self.bad(fn, n["l"], "join", "waits for a worker it has not asked to terminate")
            return [((asked, True), None)]
        if kind == "call" and place == "joinable":
            return [(a, ("int", 1)), ((asked, True), ("int", 0))]
        if kind == "delete" and "WorkerBase" in str(fn.nodes[n["a"]].get("t")):
            if not joined:
                self.bad(fn, n["l"], "free", "frees a worker whose thread may still be running")
            return [((False, False), None)]
        return None


T = "simple_thread_pool::TaskHandle"


class TaskProto(Proto):
    """A task's handler runs only for the thread that claimed the task."""

    def __init__(self, P, R, pid, names):
        Proto.__init__(self, P, R, pid)
        self.names = names

    def start(self, fn):
        return None

    def ev(self, w, fn, n, a, e, kind, place, val):
        nm = lambda v: self.names.get(v[1]) if v and v[0] == "int" else None
        if place == T + "::status":
            if kind == "cas":
                x, d = nm(val[0]), nm(val[1])
                if x == "WAITING" and d in ("RUNNING", "DONE"):
                    return [(d, ("int", 1)), (a, ("int", 0))]
                if (x, d) == ("RUNNING", "WAITING"):
                    if a not in ("RUNNING", "ran"):
                        self.bad(fn, n["l"], "rearm", "arms the task again without having claimed it")
                    return [("free", ("int", 1)), ("free", ("int", 0))]
                self.bad(fn, n["l"], "move", "moves the task from %s to %s" % (x, d))
            if kind in ("store", "exchange"):
                if nm(val) != "DONE":
                    self.bad(fn, n["l"], "overwrite", "overwrites the state of the task with %s, which may undo a "
                                                      "cancellation" % nm(val))
                return [("free", None)]
        if kind == "call" and n.get("obj") is not None and self.place(fn, n["obj"]) == T + "::handler" and \
                n.get("oper") == "()":
            if a not in ("RUNNING", "DONE"):
                self.bad(fn, n["l"], "handler", "runs the handler without having claimed the task: it may run twice, or "
                                                "after it was cancelled")
            return [("ran", None)]
        return None

    def finish(self, w, fn, a, line):
        if a == "RUNNING":
            self.bad(fn, line, "norun", "claims the task without running it")
        if a == "ran" and fn.short.endswith("execute"):
            self.bad(fn, line, "stuck", "leaves the task marked as running")


def worker_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate of background workers: claim, work, terminate, join, free; handlers of pool tasks run once claimed")
    fns = [f for f in P.fns.values() if f.cls == W]
    names = enum_names(P, W + "::status")

    def run(proto, f):
        try:
            proto.check(f)
        except Budget:
            R.add("%s|%s|budget" % (pid, f.short), f.where(), "too many paths to decide")
    thread = set()
    for f in P.fns.values():
        for n in f.nodes:
            if n and n["k"] == "fnref" and n.get("fn") in P.fns and P.fns[n["fn"]].cls == W:
                thread.add(n["fn"])
    for f in sorted(fns, key=lambda f: f.line):
        calls = [last(n.get("n", "")) for i, n in f.calls()]
        if "work" in calls and not f.short.endswith("::work"):
            run(WorkerProto(P, R, pid, names), f)
        if f.short == "WorkerBase::destroy":
            run(StopProto(P, R, pid, names), f)
    for f in sorted(P.fns.values(), key=lambda f: f.line):
        if any(n and n["k"] == "del" and "WorkerBase" in str(f.nodes[n["a"]].get("t")) for n in f.nodes if n and n["k"] == "del"):
            run(ReapProto(P, R, pid), f)
    tn = enum_names(P, T + "::status")
    for f in sorted(P.fns.values(), key=lambda f: f.line):
        if f.cls == T and f.short in ("TaskHandle::execute", "TaskHandle::cancel", T + "::execute", T + "::cancel"):
            run(TaskProto(P, R, pid, tn), f)
    R.coverage["state_names"] = sorted(names.values())
    return R


# ---- exclusive sections -------------------------------------------------------
S = J + "OpSemaWrapper"


class SemaProto(Proto):
    """Wrapper of an exclusive section, in one of its two modes. Automaton:
    (mutex held, flag: None/True/False as last written here)."""

    def __init__(self, P, R, pid, mode, acq):
        Proto.__init__(self, P, R, pid)
        self.mode, self.acq = mode, acq

    def start(self, fn):
        return (bool(self.mode and self.acq), None, False)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "mem" and n["f"] == S + "::lockMode":
            return ("int", self.mode)
        if n["k"] == "mem" and n["f"] == S + "::acquired":
            return env.get("F:acq", ("int", self.acq))
        return None

    def ev(self, w, fn, n, a, e, kind, place, val):
        held, flag, free = a
        if place == S + "::acquired" and kind == "set":
            return [(a, None, {**e, "F:acq": val})]
        if place and place.endswith("OpSema::lock"):
            if kind == "lock":
                if held:
                    self.bad(fn, n["l"], "twice", "locks the section twice")
                return [((True, flag, free), None)]
            if kind == "unlock":
                if not held:
                    self.bad(fn, n["l"], "unlock", "unlocks a section it does not hold")
                if flag is not False:
                    self.bad(fn, n["l"], "order", "unlocks the section before its flag is cleared: the next owner's flag "
                                                  "is cleared instead")
                return [((False, flag, free), None)]
        if place and place.endswith("OpSema::grabbed"):
            if kind == "cas":
                if val != (("int", 0), ("int", 1)):
                    self.bad(fn, n["l"], "claim", "does not claim the section from free to taken")
                return [((held, True, free), ("int", 1)), (a, ("int", 0))]
            if kind in ("store", "exchange"):
                if val == ("int", 1) and not held:
                    self.bad(fn, n["l"], "steal", "takes the section without asking whether it is free")
                if val == ("int", 0) and not self.acq:
                    self.bad(fn, n["l"], "clear", "frees a section it has not taken")
                return [((held, val == ("int", 1), free), None)]
        if place and place.endswith("OpSema::enabled") and kind == "load":
            return [(a, ("int", 1)), ((held, flag, True), ("int", 0))]
        return None

    def leave(self, w, fn, auto, env, val, line):
        if fn is not self.fn0:
            return auto
        held, flag, off = auto
        if fn.is_dtor:
            if self.acq and flag is not False:
                self.bad(fn, line, "kept", "leaves the section marked as taken")
            if held:
                self.bad(fn, line, "locked", "leaves the section locked")
        else:
            own = held if self.mode else flag is True
            said = env.get("F:acq", ("int", self.acq))
            if said != ("int", 1 if own else 0):
                self.bad(fn, line, "claimed", "remembers %s the section" % ("having" if not own else "not having"))
            if val is not None and val != ("int", 1 if own else 0):
                self.bad(fn, line, "told", "tells its caller it %s the section" % ("has" if not own else "does not have"))
            if off and own and not self.mode:
                self.bad(fn, line, "closed", "takes a section that was closed")
        return auto


def sema_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate of the exclusive sections in both modes; each section is always taken in the same mode; "
                   "hand-locked mutexes are unlocked on every path")
    for f in sorted(P.fns.values(), key=lambda f: f.line):
        if f.cls == S and (f.is_dtor or f.short == "OpSemaWrapper::acquire"):
            for mode in (0, 1):
                for acq in (0, 1) if f.is_dtor else (0,):
                    SemaProto(P, R, pid, mode, acq).check(f)
    # one mode per section
    from .locks import analysis
    A = analysis(P)
    modes = {}
    for f in P.fns.values():
        for n in f.nodes:
            if n and n["k"] == "decl" and tname(n.get("t")) == S and n.get("i") is not None:
                c = f.nodes[n["i"]]
                if not c or c["k"] != "ctor" or not c.get("args"):
                    continue
                sec = A.lock_of(f, c["args"][0])
                mode = "constant"
                if len(c["args"]) > 1:
                    m = f.nodes[c["args"][1]]
                    while m and m["k"] == "ref" and not m.get("parm"):
                        d = [x for x in f.nodes if x and x["k"] == "decl" and x.get("v") == m.get("v") and x.get("i") is not None]
                        if not d:
                            break
                        m = f.nodes[d[0]["i"]]
                    mode = last(m["f"]) if m and m["k"] == "mem" else "constant"
                modes.setdefault(sec, {}).setdefault(mode, []).append((f, n["l"]))
    for sec, by in sorted(modes.items(), key=lambda x: str(x[0])):
        main = max(sorted(by), key=lambda m: len(by[m]))
        for m, sites in by.items():
            for f, line in sites:
                R.check(m == main, "%s|%s|%s|mode" % (pid, f.short, short(str(sec))), f.where(line),
                        "%s takes %s in another mode (%s) than everybody else: the modes do not exclude each other" %
                        (f.name, short(str(sec)), m))
    # hand-locked mutexes
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        raw = [n for i, n in f.calls() if last(n.get("n", "")) in ("lock", "unlock") and n.get("obj") is not None and
               tname(f.nodes[n["obj"]].get("t")) in MUTEX]
        if not raw or f.cls == S:
            continue
        R.functions.add(f.name)
        eff = A.effects(f.id)
        kinds = set(last(n["n"]) for n in raw)
        pair = len(kinds) == 1      # a helper that only locks, or only unlocks
        ok = len(eff) == 1 if pair else eff == {(frozenset(), frozenset())}
        R.check(ok, "%s|%s|balance" % (pid, f.short), f.where(),
                "%s returns with a mutex locked on some paths and not on others" % f.name)
    return R


# ---- last reference destroys -----------------------------------------------------
class RefProto(Proto):
    """Releasing a reference of an object that destroys itself. Automaton:
    (removed: None/True/False, lock, dec, others, dead)."""

    def __init__(self, P, R, pid, counters, flags, mutexes):
        Proto.__init__(self, P, R, pid)
        self.counters, self.flags, self.mutexes = counters, flags, mutexes

    def start(self, fn):
        # removed, lock held, (counter, was last, lock at decrement, section no) or None, others seen zero, deleted, section
        return (None, None, None, frozenset(), False, 0)

    def ev(self, w, fn, n, a, e, kind, place, val):
        rem, lk, dec, zero, dead, sec = a
        if dead and kind in ("load", "store", "add", "sub", "lock", "set", "cas", "exchange") and place and \
                place.rsplit("::", 1)[0] == self.cls:
            self.bad(fn, n["l"], "dead", "uses the object after having destroyed it")
        if place in self.mutexes and kind in ("lock", "unlock"):
            if dead and kind == "unlock" and lk:
                self.bad(fn, n["l"], "dead", "unlocks a mutex of the object it has just destroyed")
            if kind == "lock" and dec and not dead and not dec[2]:
                self.bad(fn, n["l"], "after", "locks the object after having given its reference back: another thread may "
                                              "have destroyed it")
            if kind == "unlock":
                # what was seen under the lock is settled only there
                return [((rem, None, dec and (dec[0], dec[1], False, dec[3]), zero, dead, sec), None)]
            return [((rem, place, dec, zero, dead, sec + 1 if sec < 3 else sec), None)]
        if kind == "load" and place in self.flags:
            if dec and not dec[2] and not dec[1]:
                self.bad(fn, n["l"], "after", "looks at the object after having given its reference back")
            if place.endswith("::removed"):
                if rem is not None and not (rem is False and dec and not dec[2]):
                    return [(a, ("int", 1 if rem else 0))]
                late = dec is not None
                return [(("late" if late else True, lk, dec, zero, dead, sec), ("int", 1)),
                        ((False, lk, dec, zero, dead, sec), ("int", 0))]
            return None
        if place in self.counters:
            if kind == "sub":
                if dec:
                    self.bad(fn, n["l"], "twice", "gives back two references")
                delta = -1 if val[1] else 0         # operator-- gives the new value
                return [((rem, lk, (place, True, bool(lk), sec), zero, dead, sec), ("int", 1 + delta)),
                        ((rem, lk, (place, False, bool(lk), sec), zero, dead, sec), ("int", 2 + delta))]
            if kind == "add":
                self.bad(fn, n["l"], "take", "takes a reference while giving one back")
            if kind in ("store", "exchange", "cas"):
                self.bad(fn, n["l"], "overwrite", "overwrites the reference count")
            if kind == "load":
                if dec and dec[0] == place:
                    # not the decision of this decrement
                    if dec[2]:
                        return [(a, ("int", 0)), (a, ("int", 1))]
                    self.bad(fn, n["l"], "reread", "decides on a count read after its own decrement: two threads may both, "
                                                   "or neither, be the last")
                    return [(a, ("int", 0)), (a, ("int", 1))]
                if dec is None and place not in [c for c in self.counters] or fn is None:
                    return None
                return [((rem, lk, dec, zero | {(place, bool(lk), sec)}, dead, sec), ("int", 0)),
                        ((rem, lk, dec, zero, dead, sec), ("int", 1))]
        if kind == "delete" and place == "this":
            if rem is not True:
                self.bad(fn, n["l"], "removed", "destroys an object without having seen, before giving its reference back, "
                                                "that it was removed")
            if not dec or not dec[1]:
                self.bad(fn, n["l"], "last", "destroys an object others still refer to")
            else:
                for c in self.counters:
                    if c == dec[0]:
                        continue
                    z = [x for x in zero if x[0] == c]
                    if not z:
                        self.bad(fn, n["l"], "other", "destroys an object without looking at %s" % short(c))
                    elif not any(x[1] and x[2] == dec[3] for x in z):
                        self.bad(fn, n["l"], "race", "looks at %s and gives its own reference back in separate steps: two "
                                                     "threads may both be the last" % short(c))
            return [((rem, lk, dec, zero, True, sec), None)]
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        if n["k"] == "mem" and not n.get("meth") and n["f"].rsplit("::", 1)[0] == self.cls:
            rem, lk, dec, zero, dead, sec = a
            atomic = "std::atomic" in str(n.get("t")) or n["f"] in self.mutexes
            if dead:
                self.bad(fn, n["l"], "dead", "uses %s after having destroyed the object" % short(n["f"]))
            elif dec and not dec[1] and not dec[2]:
                self.bad(fn, n["l"], "after", "uses %s after having given its reference back: another thread may have "
                                              "destroyed the object" % short(n["f"]))
        return Proto.elem(self, w, fn, i, n, a, e, nv)

    def finish(self, w, fn, a, line):
        rem, lk, dec, zero, dead, sec = a
        if dec is None:
            self.bad(fn, line, "keep", "returns without having given the reference back")
        elif rem is True and dec[1] and not dead and \
                all(c == dec[0] or any(z[0] == c for z in zero) for c in self.counters):
            self.bad(fn, line, "leak", "gives the last reference of a removed object back without destroying it")


def last_ref_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate of releasing references: who takes the last one of a removed object destroys it, once, and "
                   "nobody touches it after giving his back")
    cs = P.callers()
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if not any(n and n["k"] == "del" and f.nodes[n["a"]] and f.nodes[n["a"]]["k"] == "this" for n in f.nodes):
            continue
        at, mu = with_members(P, f.cls, "std::atomic<", "std::mutex")
        cnt = sorted(set(c for c in at for g in P.fns.values() if g.cls == f.cls for i, n in g.calls()
                         if n.get("obj") is not None and last(n.get("n", "")) in ("fetch_sub", "operator--", "operator-=") and
                         g.nodes[n["obj"]] and g.nodes[n["obj"]].get("f") == c))
        if not cnt or f.cls + "::removed" not in at:
            continue
        # entry: the outermost methods of the class that reach it
        tops, seen, todo = [], set(), [f]
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen.add(g.id)
            up = [P.fns[c] for c in cs.get(g.id, ()) if P.fns[c].cls == f.cls]
            todo += up
            if not up:
                tops.append(g)
        for g in tops:
            try:
                RefProto(P, R, pid, cnt, [x for x in at if x not in cnt], mu).check(g)
            except Budget:
                R.add("%s|%s|budget" % (pid, g.short), g.where(), "too many paths to decide")
        R.coverage["objects"] = R.coverage.get("objects", 0) + 1
    return R
