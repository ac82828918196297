"""Rule: an operation that failed makes its caller fail.

For every target function F and every call site c, in F or in a helper F runs,
of a fallible operation, assume c fails; on every path from there to an exit of
F that returns a Status, the returned Status must be an error (or F leaves by
an exception), unless the same operation was retried with success or its
result was handed over to the field that carries a worker's result."""
from .engine import Engine, Rule, OK, ERR, ZERO, is_status_type, Budget

SER = "jungle::RwSerializer"


def serializer_in_memory(P, fn, i, depth=0):
    """Is object node i a serializer over memory (not over a file)?  A
    parameter is in memory when every caller passes one in memory."""
    n = fn.nodes[i] if i is not None and i >= 0 else None
    hops = 0
    f = fn
    while n and hops < 6:
        hops += 1
        if n["k"] == "ref" and n.get("v"):
            v = n["v"]
            g = f
            for pi, p in enumerate(fn.params):
                if p["v"] == v:
                    if depth > 3:
                        return False
                    for c in P.callers().get(fn.id, ()):
                        C = P.fns[c]
                        for ci, cn in C.calls():
                            if fn.id in P.targets(cn):
                                if pi >= len(cn["args"]) or not serializer_in_memory(
                                        P, C, cn["args"][pi], depth + 1):
                                    return False
                    return True
            while g is not None:
                for m in g.nodes:
                    if m and m["k"] == "decl" and m.get("v") == v:
                        ini = g.nodes[m["i"]] if "i" in m else None
                        if ini and ini["k"] == "ctor":
                            c = P.fns.get(ini.get("fn"))
                            ps = [p["t"] for p in c.params] if c else []
                            if ps and "FileOps" in ps[0]:
                                return False
                            return True
                        return False
                g = P.fns.get(g.parent) if g.is_lambda else None
            return False
        return False
    return False


class ErrProp(Rule):
    def __init__(self, P, prims, scope, fallible, carriers=(), err=ERR, opaque=(), reads={}):
        """prims: callee name -> error value; fallible: fn ids of project
        functions (returning Status) treated as operations; scope: fn ids that
        are analysed / descended into; carriers: fields that hand a result to
        another thread."""
        self.P = P
        self.prims = prims
        self.scope = scope
        self.fallible = fallible
        self.top = None
        self.viol = {}
        self.sites = set()
        self.carriers = carriers
        self.memo_mem = {}
        self.err = err
        self.opaque = opaque
        self.reads = reads      # fn id -> error value

    def _inmem(self, fn, node):
        key = (fn.id, node.get("obj"))
        if key not in self.memo_mem:
            self.memo_mem[key] = serializer_in_memory(self.P, fn, node.get("obj"))
        return self.memo_mem[key]

    def call(self, eng, fn, i, node, st):
        nm = node.get("n", "")
        op = None
        errv = None
        if nm in self.prims:
            op = nm
            errv = self.prims[nm]
        elif node.get("fn") in self.fallible or any(t in self.fallible for t in self.P.targets(node)):
            op = nm
            errv = self.reads.get(node.get("fn"), self.err)
        elif nm.startswith(SER + "::") and node["k"] == "call" and self._inmem(fn, node):
            return [(st.auto, None, None)]
        if op is None:
            return None
        if nm.startswith(SER + "::") and self._inmem(fn, node):
            return [(st.auto, None, None)]
        self.sites.add((fn.id, i, op))
        if nm.startswith(SER + "::getU"):
            # the Status is delivered through the argument
            key = None
            if node["args"] and node["args"][0] >= 0:
                key = eng.lv(fn, node["args"][0])
            res = []
            for auto, v, thr in self.outcome(fn, node["l"], op, ERR, st):
                res.append((auto, None if v[1] == "OK" else ZERO, thr,
                            [(key, v)] if key is not None else None))
            return res
        return self.outcome(fn, node["l"], op, errv, st)

    def outcome(self, fn, line, op, errv, st):
        okv = OK if errv[0] == "st" else ZERO
        if errv == ERR:
            errv = self.err
        okauto = st.auto
        if st.auto and st.auto[0] == op:
            okauto = None          # retried with success
        out = [(okauto, okv, None)]
        if st.auto is None:
            out.append(((op, fn.id, line), errv, None))
        else:
            out.append((st.auto, errv, None))
        return out

    def _carrier(self, fn, i):
        n = fn.nodes[i] if i is not None and i >= 0 else None
        if n and n["k"] == "ctor" and n.get("cp") and n["args"]:
            return self._carrier(fn, n["args"][0])
        if n and n["k"] == "mem" and n["f"].rsplit("::", 1)[-1] in self.carriers and is_status_type(n.get("t", "")):
            return n["f"]
        return None

    def status_assign(self, eng, fn, i, node, st, v):
        if not self.carriers:
            return None
        if self._carrier(fn, node.get("obj")):
            if v is not None and v[0] == "st" and v[1] == "ERR":
                return [(None, None)]
            return None
        c = self._carrier(fn, node["args"][0])
        if c and v is None:
            self.sites.add((fn.id, i, "result of " + c))
            return [x[:2] for x in self.outcome(fn, node["l"], "result of " + c, ERR, st)]
        return None

    def descend(self, fid):
        if fid in self.fallible or fid in self.opaque:
            return False
        return fid in self.scope

    def exit(self, eng, fn, auto, kind, val, line):
        if auto is None:
            return None
        if kind == "throw":
            return auto
        if is_status_type(fn.ret):
            if val is not None and val[0] == "st" and val[1] == "ERR":
                return None if fn.id in self.fallible else auto
            if fn.id == self.top:
                self.viol.setdefault((fn.id, auto), set()).add(line)
                return None
            return auto
        if fn.id == self.top:
            # a target that does not return a Status cannot report
            self.viol.setdefault((fn.id, auto), set()).add(line)
        return auto


def run(P, prims, scope, fallible, targets, carriers=(), err=ERR, opaque=(), reads={}):
    res = {}
    sites = set()
    budget = []
    nstates = 0
    visited = set()
    for fid in targets:
        r = ErrProp(P, prims, scope, fallible, carriers, err, set(opaque) - {fid}, reads)
        r.top = fid
        e = Engine(P, r)
        try:
            e.summary(fid, None, frozenset())
        except Budget as b:
            budget.append(str(b))
            continue
        nstates += e.npaths
        sites |= r.sites
        visited |= e.visited
        for k, v in r.viol.items():
            res.setdefault(k, set()).update(v)
    return res, sites, budget, nstates, visited
