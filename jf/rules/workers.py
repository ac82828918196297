"""W03, the registry of background workers: whoever is added is registered
once, and an invocation by name reaches the workers meant, and only those."""
from ..core import Result
from ..cwalk import Budget, truth
from .locks import J, last, tname
from .proto import Proto, W


def strip(fn, i):
    n = fn.nodes[i] if i is not None and i >= 0 else None
    while n and n["k"] in ("x", "cast", "paren") and len(n.get("args", ())) == 1:
        n = fn.nodes[n["args"][0]]
    return n


def resolve(fn, i, deep=0):
    n = strip(fn, i)
    if n and n["k"] == "ref" and n.get("v") and deep < 3:
        ds = [d for d in fn.nodes if d and d["k"] == "decl" and d.get("v") == n["v"] and d.get("i") is not None]
        ws = [x for x in fn.nodes if x and x["k"] == "asn" and fn.nodes[x["a"]].get("v") == n["v"]]
        if len(ds) == 1 and not ws:
            return resolve(fn, ds[0]["i"], deep + 1)
    return n


def match(fn, i):
    """True/False: the condition says that the names match / do not."""
    n = resolve(fn, i)
    if not n:
        return None
    if n["k"] == "un" and n["op"] == "!":
        m = match(fn, n["a"])
        return None if m is None else not m
    if n["k"] == "bin" and n["op"] in ("==", "!="):
        for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
            c, v = resolve(fn, x), fn.nodes[y]
            if c and c["k"] == "call" and last(c.get("n", "")) in ("find", "rfind", "compare") and \
                    "basic_string" in c.get("n", "") and v and "cv" in v:
                return (n["op"] == "!=") == (v["cv"] == -1)
    if n["k"] == "call" and n.get("oper") in ("==", "!=") and any("basic_string" in str((strip(fn, x) or {}).get("t")) for x in
                                                                  list(n["args"]) + [n.get("obj")] if x is not None):
        return n["oper"] == "=="
    return None


def more(fn, i):
    """True/False: the condition says that there is / is not another element."""
    n = resolve(fn, i)
    if n and n["k"] == "un" and n["op"] == "!":
        m = more(fn, n["a"])
        return None if m is None else not m
    if n and n["k"] == "call" and n.get("oper") in ("==", "!="):
        ts = [str((strip(fn, x) or {}).get("t")) for x in list(n["args"]) + [n.get("obj")] if x is not None]
        if any("_iterator" in t for t in ts):
            return n["oper"] == "!="
    return None


class CallByName(Proto):
    """(names match, invoked, asked for all)"""

    def start(self, fn):
        return (None, False, None)

    def elem(self, w, fn, i, n, a, e, nv):
        if n["k"] == "call" and n.get("n") == W + "::invoke":
            if fn is self.fn0 and a[0] is not True:
                self.bad(fn, n["l"], "other", "wakes up a worker of another name")
            return [((a[0], True, a[2]), e, None)]
        return super().elem(w, fn, i, n, a, e, nv)

    def branch(self, w, fn, tc, want, a, e, nv, b):
        if fn is not self.fn0:
            return None
        m = more(fn, tc)
        if m is not None:
            self.done(fn, a, fn.nodes[tc].get("l", fn.line))
            if want == m and a[1] and a[2] is False:
                self.bad(fn, fn.nodes[tc].get("l", fn.line), "goes on", "wakes up more workers than asked for")
            return (None, False, None if want == m else "end")
        m = match(fn, tc)
        if m is not None:
            return (want == m, a[1], a[2])
        n = fn.nodes[tc]
        while n and n["k"] == "un" and n["op"] == "!":
            want = not want
            n = fn.nodes[n["a"]]
        if n and n["k"] == "ref" and n.get("parm") and n.get("t") == "bool" and a[2] != "end":
            if a[2] is not None and a[2] != want:
                return False
            return (a[0], a[1], want)
        return None

    def done(self, fn, a, line):
        if a[0] is True and not a[1]:
            self.bad(fn, line, "skipped", "a worker whose name matches is not woken up")

    def finish(self, w, fn, a, line):
        self.done(fn, a, line)
        if a[1] and a[2] in (True, None) and any(p["t"] == "bool" for p in fn.params):
            self.bad(fn, line, "stops", "wakes up only the first worker although all were asked for")


class Add(Proto):
    """(already there, inserted)"""

    def start(self, fn):
        return (None, 0)

    def value(self, w, fn, env, nv, i, n):
        if n["k"] == "ctor" and n.get("cls") == J + "Status":
            if not n.get("args"):
                return ("st", 0)
            v = [strip(fn, x) for x in n["args"]]
            if v and v[0] and v[0].get("cv") is not None:
                return ("st", 1 if v[0]["cv"] else 0)
            if v and v[0] and v[0]["k"] == "ctor":
                return self.value(w, fn, env, nv, i, v[0])
        return None

    def elem(self, w, fn, i, n, a, e, nv):
        if n["k"] == "call" and last(n.get("n", "")) in ("insert", "emplace", "insert_or_assign", "try_emplace") and \
                n.get("obj") is not None and "WorkerBase *" in str(fn.nodes[n["obj"]].get("t")):
            return [((a[0], min(a[1] + 1, 2)), e, None)]
        if n["k"] == "asn" and n["op"] == "=":
            t = strip(fn, n["a"])
            if t and t["k"] == "call" and t.get("oper") == "[]" and "WorkerBase *" in str(t.get("t")):
                return [((a[0], min(a[1] + 1, 2)), e, None)]
        return super().elem(w, fn, i, n, a, e, nv)

    def branch(self, w, fn, tc, want, a, e, nv, b):
        m = more(fn, tc)
        if m is not None and fn is self.fn0:
            return (want == m, a[1])
        return None

    def leave(self, w, fn, auto, env, val, line):
        if fn is self.fn0 and val is not None and val[0] == "st":
            if val[1] == 0 and auto[1] != 1:
                self.bad(fn, line, "lost", "reports success although the worker was not registered: nobody will ever stop it")
            if val[1] == 0 and auto[0] is True:
                self.bad(fn, line, "twice", "reports success although a worker of that name was already there")
            if val[1] == 1 and (auto[1] or auto[0] is False):
                self.bad(fn, line, "refused", "refuses a worker although none of its name was there")
        return auto


def registry_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("the registry of workers: additions and calls by name, on every path")
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line)):
        if f.cls != J + "WorkerMgr" or f.is_lambda:
            continue
        p = None
        if any(n.get("n") == W + "::invoke" for i, n in f.calls()) or f.name.endswith("::invokeWorker"):
            p = CallByName(P, R, pid)
        elif any("WorkerBase *" in q["t"] for q in f.params) and "Status" in f.ret:
            p = Add(P, R, pid)
        if p is not None:
            try:
                p.check(f)
            except Budget:
                R.coverage["undecided"] = R.coverage.get("undecided", []) + [f.short]
    return R
