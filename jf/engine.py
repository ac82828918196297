"""Path-sensitive, interprocedural dataflow over the extracted flow graphs.

An abstract state is a pair (auto, env): `auto` is the state of the property
automaton of a rule, `env` a small map from locals to abstract values

    ('c', n)            integer / bool / enum constant
    ('st', 'OK')        Status known to be OK
    ('st', 'ERR', code) Status known to be an error (code may be None)
    ('nz',)             non-zero / non-null
    ('lam', id)         a closure
    ('gc', id)          a scope guard running closure `id` when destroyed

States are sets, never joined, so a branch on a tracked value prunes the
infeasible side.  Calls into functions for which the rule has an interest are
replaced by the set of outcomes of the callee, computed once per entry state
(functional summaries), so extracting or inlining a helper does not change the
result.
"""
import sys

sys.setrecursionlimit(20000)

OK = ("st", "OK")
ERR = ("st", "ERR", None)
NZ = ("nz",)
ZERO = ("c", 0)

STATUS = "jungle::Status"


class Budget(Exception):
    pass


def is_status_type(t):
    return t in ("jungle::Status", "const jungle::Status", "jungle::Status &",
                 "const jungle::Status &")


def is_log_node(n):
    m = n.get("m")
    return bool(m) and m.startswith("_log") or (m or "").startswith("_timed_log") or m in ("_s_warn",)


def truth(v):
    if v is None:
        return None
    if v[0] == "c":
        return v[1] != 0
    if v[0] == "nz":
        return True
    if v[0] == "st":          # converted through operator int / explicit bool
        return None
    if v[0] == "neg":
        return True
    if v[0] in ("lam", "gc", "new"):
        return True
    if v[0] in ("sysneg", "sysfull", "syspos"):
        return True
    return None


SYS = ("sysneg", "sysshort", "sysfull", "sysnonneg", "syspos")


def sys_cmp(op, a, b):
    """Result of `a op b` where a is the result of a system call:
    sysneg   -1
    sysshort fewer bytes than asked for, possibly 0
    sysfull  exactly what was asked for (or a valid descriptor / offset > 0)
    syspos   some positive number
    b: abstract value of the other side, None = an unknown non-negative size."""
    k = a[0]
    c = b[1] if b is not None and b[0] == "c" else None
    if k == "sysneg":
        a = ("c", -1)
        if c is None:
            return {"==": False, "!=": True, "<": True, "<=": True,
                    ">": False, ">=": False}.get(op)
        return {"==": c == -1, "!=": c != -1, "<": -1 < c, "<=": -1 <= c,
                ">": -1 > c, ">=": -1 >= c}.get(op)
    if k == "sysshort":
        if c is None:
            return {"==": False, "!=": True, "<": True, "<=": True,
                    ">": False, ">=": False}.get(op)
        if c < 0:
            return {"==": False, "!=": True, "<": False, "<=": False,
                    ">": True, ">=": True}.get(op)
        if c == 0:
            return {"<": False, ">=": True}.get(op)
        return None
    if k == "sysfull":
        if c is None:
            return {"==": True, "!=": False, "<": False, "<=": True,
                    ">": False, ">=": True}.get(op)
        if c <= 0:
            return {"==": False, "!=": True, "<": False, "<=": False,
                    ">": True, ">=": True}.get(op)
        return None
    if k == "syspos" and c is not None and c <= 0:
        return {"==": False, "!=": True, "<": False, "<=": False,
                ">": True, ">=": True}.get(op)
    if k == "syspos" and c == 1:
        return {"<": False, ">=": True}.get(op)
    if k == "sysnonneg" and c is not None and c <= 0:
        return {"<": False, ">=": True, "==": False if c < 0 else None,
                "!=": True if c < 0 else None, ">": True if c < 0 else None,
                "<=": False if c < 0 else None}.get(op)
    return None


MIRROR = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


class Rule:
    """Client of the engine."""
    name = "rule"

    def call(self, eng, fn, i, node, st):
        """None: no event; else list of (auto, value, threw)."""
        return None

    def elem(self, eng, fn, i, node, st):
        """Called for every non-call element; may return a new auto or None."""
        return None

    def branch(self, eng, fn, cond, truthv, st, blk):
        """Called on every two-way branch edge; may return a new auto."""
        return None

    def status_assign(self, eng, fn, i, node, st, v):
        """Status::operator=; None or list of (auto, value)."""
        return None

    def descend(self, fid):
        return False

    def enter(self, eng, fn, auto):
        return auto

    def exit(self, eng, fn, auto, kind, val, line):
        """Outcome filter: returns auto to report to the caller."""
        return auto

    # abstract value assumed for a member access, or None
    mem_value = None

    # may arithmetic on known constants be folded?
    fold = False

    # symbolic value of an expression nothing else is known about, or None
    sym = None

    # called when a comparison is assumed to be true / false; returns auto
    assume = None

    # called for every == / != that is not decided; returns auto
    compare = None

    # fields of *this survive calls that are not looked into
    keep_this = False

    track_classes = ()


class State:
    __slots__ = ("auto", "env")

    def __init__(self, auto, env):
        self.auto = auto
        self.env = env

    def copy(self):
        return State(self.auto, dict(self.env))


def fn_info(fn):
    """Per-function derived data: live-in locals, nodes used across blocks,
    captured locals."""
    if fn._cross is not None:
        return
    nodes = fn.nodes
    where = {}
    for b in fn.blocks.values():
        for e in b["e"]:
            where[e] = b["id"]
    cross = set()

    def kids(n):
        k = n["k"]
        for key in ("a", "b", "c", "i", "obj", "callee", "sz"):
            x = n.get(key)
            if isinstance(x, int) and x >= 0:
                yield x
        if k in ("ret", "throw"):
            x = n.get("v")
            if isinstance(x, int) and x >= 0:
                yield x
        for x in n.get("args", ()):
            if isinstance(x, int) and x >= 0:
                yield x

    fn._extra["kids"] = kids
    for b in fn.blocks.values():
        for e in b["e"]:
            stack = [e]
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x != e and x in where:
                    if where[x] != b["id"]:
                        cross.add(x)
                    continue
                n = nodes[x]
                if n:
                    stack.extend(kids(n))
        tc = b.get("tc")
        if tc is not None:
            stack = [tc]
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in where and where[x] != b["id"]:
                    cross.add(x)
                    continue
                n = nodes[x]
                if n and x not in where:
                    stack.extend(kids(n))
        tn = b.get("tn")
        if tn is not None:
            cross.add(tn)
            n = nodes[tn]
            if n and n["k"] == "cond":
                cross.add(n["a"])
                cross.add(n["b"])
    fn._cross = cross
    # captured variables are kept alive for the whole function
    captured = set()
    for n in nodes:
        if n and n["k"] == "lambda":
            for c in n.get("caps", ()):
                if c.endswith("&") or c.endswith("="):
                    captured.add(c[:-1])
    fn._extra["captured"] = captured
    # a closure's captured locals are used where the closure is
    lamcaps = {}
    for n in nodes:
        if n and n["k"] == "lambda":
            lamcaps[n["fn"]] = [c[:-1] for c in n.get("caps", ()) if c[-1] in "&="]
    holder = {}

    def lams_under(i, depth=0):
        r = set()
        m = nodes[i] if i is not None and i >= 0 else None
        if not m or depth > 8:
            return r
        if m["k"] == "lambda":
            r.update(lamcaps.get(m["fn"], ()))
        for x in kids(m):
            r |= lams_under(x, depth + 1)
        return r
    for n in nodes:
        if n and n["k"] == "decl" and n.get("v") and "i" in n:
            c = lams_under(n["i"])
            if c:
                holder[n["v"]] = c
    fn._extra["holder"] = holder
    fn._extra["lamcaps"] = lamcaps
    # liveness of locals
    use = {}
    defs = {}
    for b in fn.blocks.values():
        u, d = set(), set()
        for e in b["e"]:
            _vars(nodes, e, u, d, holder, lamcaps)
        tc = b.get("tc")
        if tc is not None:
            _vars(nodes, tc, u, d, holder, lamcaps)
        lb = b.get("lb") or {}
        if lb.get("v"):
            u.add(lb["v"])
        use[b["id"]] = u
        defs[b["id"]] = d
    live = {bid: set() for bid in fn.blocks}
    # exception edges: any block of a try body may go to its handlers
    eh = {}
    for b in fn.blocks.values():
        for e in b["e"]:
            n = nodes[e]
            t = n.get("tr") if n else None
            while t is not None and t >= 0:
                tb = fn.tries[t]["b"]
                if tb in fn.blocks:
                    eh.setdefault(b["id"], set()).update(x for x in fn.blocks[tb]["s"] if x >= 0)
                t = fn.tries[t]["p"]
    changed = True
    order = sorted(fn.blocks)
    while changed:
        changed = False
        for bid in order:
            out = set()
            for s in fn.blocks[bid]["s"]:
                if s >= 0:
                    out |= live[s]
            ehs = set()
            for s in eh.get(bid, ()):
                ehs |= live[s]
            new = use[bid] | (out - defs[bid]) | ehs
            if new != live[bid]:
                live[bid] = new
                changed = True
    fn._live = live
    # liveness of node values carried between blocks
    nuse, ndef = {}, {}
    for b in fn.blocks.values():
        u, d = set(), set()
        for e in b["e"]:
            n = nodes[e]
            stack = [e]
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen or x < 0:
                    continue
                seen.add(x)
                if x in cross and x not in d and (x != e or (n["k"] == "bin" and n["op"] in ("&&", "||"))):
                    u.add(x)
                if x != e and x in where:
                    continue
                m = nodes[x]
                if m:
                    stack.extend(kids(m))
            if e in cross:
                d.add(e)
        tc = b.get("tc")
        if tc is not None:
            stack = [tc]
            seen = set()
            while stack:
                x = stack.pop()
                if x in seen or x < 0:
                    continue
                seen.add(x)
                if x in cross and x not in d:
                    u.add(x)
                if x in where:
                    continue
                m = nodes[x]
                if m:
                    stack.extend(kids(m))
        nuse[b["id"]], ndef[b["id"]] = u, d
    nlive = {bid: set(nuse[bid]) for bid in fn.blocks}
    changed = True
    while changed:
        changed = False
        for bid in order:
            out = set()
            for s in fn.blocks[bid]["s"]:
                if s >= 0:
                    out |= nlive[s]
            new = nuse[bid] | (out - ndef[bid])
            if new != nlive[bid]:
                nlive[bid] = new
                changed = True
    fn._extra["nlive"] = nlive
    # how often is an lvalue / a condition tested?
    tests = {}
    conds = set()
    for b in fn.blocks.values():
        if b.get("tc") is not None and len(b["s"]) >= 2 and not is_log_node(nodes[b["tc"]]):
            conds.add(b["tc"])
    for n in nodes:
        if not n or is_log_node(n):
            continue
        if n["k"] == "cond":
            conds.add(n["c"])
        elif n["k"] in ("decl",) and n.get("t") in ("bool", "const bool") and "i" in n:
            conds.add(n["i"])
        elif n["k"] == "asn" and nodes[n["a"]] and nodes[n["a"]].get("t") == "bool":
            conds.add(n["b"])
        elif n["k"] == "ret" and n.get("v") is not None:
            conds.add(n["v"])
        elif n["k"] == "call":
            # arguments select a context of the callee
            for x in n.get("args", ()):
                if x >= 0 and nodes[x] and nodes[x]["k"] in ("ref", "mem"):
                    conds.add(x)
    for c in conds:
        stack = [c]
        while stack:
            x = stack.pop()
            m = nodes[x] if x >= 0 else None
            if not m:
                continue
            if m["k"] in ("ref", "mem"):
                tests.setdefault(_lvname(nodes, x), set()).add(c)
            stack.extend(kids(m))
    fn._extra["tests"] = {k: len(v) for k, v in tests.items()}
    fn._extra["conds"] = conds


def _lvname(nodes, i):
    n = nodes[i]
    if n["k"] == "ref":
        return n.get("v")
    if n["k"] == "mem":
        b = nodes[n["b"]]
        if b and b["k"] == "this":
            return ("this", n["f"])
        return (_lvname(nodes, n["b"]) if b and b["k"] in ("ref", "mem") else None, n["f"])
    return None


def _vars(nodes, e, use, defs, holder, lamcaps):
    """Collect variable uses / definitions of an element (use before def)."""
    n = nodes[e]
    if not n:
        return
    k = n["k"]
    if k == "decl":
        if n.get("v"):
            if n["v"] not in use:
                defs.add(n["v"])
        return
    if k in ("ref", "dtor"):
        v = n.get("v")
        if v and v not in defs:
            use.add(v)
        if v in holder:
            for c in holder[v]:
                if c not in defs:
                    use.add(c)
        return
    if k == "lambda":
        for c in lamcaps.get(n["fn"], ()):
            if c not in defs:
                use.add(c)


class Engine:
    MAX_STATES = 60000

    def __init__(self, prog, rule):
        self.P = prog
        self.rule = rule
        self.memo = {}
        self.active = {}
        self.nfuncs = 0
        self.npaths = 0
        self.visited = set()

    # ---- values ---------------------------------------------------------
    def lv(self, fn, i):
        """Key of the storage an lvalue node denotes, or None."""
        n = fn.nodes[i]
        if n is None:
            return None
        k = n["k"]
        if k == "ref":
            v = n.get("v")
            return v
        if k == "mem":
            b = n["b"]
            bn = fn.nodes[b] if b >= 0 else None
            if bn is None:
                return None
            if bn["k"] == "this":
                return ("this", n["f"])
            base = self.lv(fn, b)
            if base is None:
                return None
            return (base, n["f"])
        return None

    def val(self, fn, st, nv, i):
        v = self.val0(fn, st, nv, i)
        if v is None and self.rule.sym is not None and i is not None and i >= 0:
            v = self.rule.sym(self, fn, st, nv, i)
        return v

    def val0(self, fn, st, nv, i):
        if i is None or i < 0:
            return None
        if i in nv:
            return nv[i]
        n = fn.nodes[i]
        if n is None:
            return None
        if "cv" in n and n["k"] not in ("call",):
            return ("c", n["cv"])
        k = n["k"]
        if k in ("ref", "mem"):
            key = self.lv(fn, i)
            v = st.env.get(key) if key is not None else None
            if v is None and k == "mem" and self.rule.mem_value is not None:
                v = self.rule.mem_value(self, fn, n, st)
            return v
        if k == "this":
            return NZ
        if k == "str":
            return NZ
        if k == "lambda":
            return ("lam", n["fn"])
        if k == "new":
            return NZ
        if k == "un":
            return self.eval_un(fn, st, nv, n)
        if k == "bin":
            return self.eval_bin(fn, st, nv, n)
        if k == "ctor":
            return self.eval_ctor(fn, st, nv, n)
        if k == "init" and len(n["args"]) == 1:
            return self.val(fn, st, nv, n["args"][0])
        if k == "asn":
            return self.val(fn, st, nv, n["a"])
        if ("n", i) in st.env:
            return st.env[("n", i)]
        return None

    def eval_un(self, fn, st, nv, n):
        op = n["op"]
        if op == "!":
            t = self.as_bool(fn, st, nv, n["a"])
            if t is None:
                return None
            return ("c", 0 if t else 1)
        if op == "&":
            return NZ
        if op == "-":
            v = self.val(fn, st, nv, n["a"])
            if v and v[0] == "c":
                return ("c", -v[1])
        return None

    def as_bool(self, fn, st, nv, i):
        return truth(self.val(fn, st, nv, i))

    def eval_bin(self, fn, st, nv, n):
        op = n["op"]
        a = self.val(fn, st, nv, n["a"])
        b = self.val(fn, st, nv, n["b"])
        if op in MIRROR:
            if a is not None and a[0] in SYS:
                r = sys_cmp(op, a, b)
                return None if r is None else ("c", int(r))
            if b is not None and b[0] in SYS:
                r = sys_cmp(MIRROR[op], b, a)
                return None if r is None else ("c", int(r))
        if op in ("==", "!="):
            r = self.eq(a, b)
            if r is None:
                return None
            return ("c", int(r == (op == "==")))
        if a and b and a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            try:
                if op == "<":
                    return ("c", int(x < y))
                if op == "<=":
                    return ("c", int(x <= y))
                if op == ">":
                    return ("c", int(x > y))
                if op == ">=":
                    return ("c", int(x >= y))
                if self.rule.fold and op in ("+", "-", "*", "/", "%"):
                    if op == "+":
                        return ("c", x + y)
                    if op == "-":
                        return ("c", x - y)
                    if op == "*":
                        return ("c", x * y)
                    if op == "/":
                        return ("c", x // y)
                    return ("c", x % y)
                if op == "&":
                    return ("c", x & y)
                if op == "|":
                    return ("c", x | y)
                if op == "&&":
                    return ("c", int(bool(x) and bool(y)))
                if op == "||":
                    return ("c", int(bool(x) or bool(y)))
            except Exception:
                return None
        if op == "," :
            return b
        return None

    @staticmethod
    def eq(a, b):
        """Are two abstract values equal?  None: unknown."""
        if a is None or b is None:
            return None
        if a[0] == "code":
            a = a[1]
        if b[0] == "code":
            b = b[1]
        for x, y in ((a, b), (b, a)):
            if x[0] == "st" and y[0] == "c":
                if x[1] == "OK":
                    return y[1] == 0
                if y[1] == 0:
                    return False
                if x[2] is not None:
                    if isinstance(x[2], int):
                        return x[2] == y[1]
                return None
            if x[0] == "nz" and y == ZERO:
                return False
            if x[0] == "neg" and y[0] == "c" and y[1] >= 0:
                return False
            if x[0] == "nonneg" and y[0] == "c" and y[1] < 0:
                return False
        if a[0] == "c" and b[0] == "c":
            return a[1] == b[1]
        if a[0] == "st" and b[0] == "st":
            if a[1] != b[1]:
                return False
            if a[1] == "OK":
                return True
        return None

    def eval_ctor(self, fn, st, nv, n):
        if n.get("cls") == STATUS:
            args = [a for a in n["args"] if a >= 0]
            if not args:
                return OK
            v = self.val(fn, st, nv, args[0])
            if v is None:
                return None
            if v[0] == "st":
                return v
            if v[0] == "c":
                return OK if v[1] == 0 else ("st", "ERR", v[1])
            if v[0] == "code":
                return v[1]
            return None
        if n.get("cp") and n["args"]:
            return self.val(fn, st, nv, n["args"][0])
        if n.get("cls") == "std::function" or (n.get("cls") or "").startswith("std::function"):
            for a in n["args"]:
                v = self.val(fn, st, nv, a)
                if v and v[0] == "lam":
                    return v
        if n.get("cls") == "jungle::GcFunc" and n["args"]:
            v = self.val(fn, st, nv, n["args"][0])
            if v and v[0] == "lam":
                return ("gc", v[1])
        return None

    # ---- status method calls -------------------------------------------
    def status_call(self, fn, st, nv, n):
        """Value of a call to a Status member; (handled, value)."""
        nm = n.get("n", "")
        if not nm.startswith("jungle::Status::"):
            return False, None
        m = nm[len("jungle::Status::"):]
        v = self.val(fn, st, nv, n.get("obj"))
        if m in ("ok", "operator bool"):
            if v and v[0] == "st":
                return True, ("c", int(v[1] == "OK"))
            return True, None
        if m in ("operator int", "getValue"):
            if v and v[0] == "st":
                if v[1] == "OK":
                    return True, ZERO
                if isinstance(v[2], int):
                    return True, ("c", v[2])
                return True, NZ
            return True, None
        if m == "operator==":
            r = self.eq(v, self.val(fn, st, nv, n["args"][0]))
            return True, (None if r is None else ("c", int(r)))
        if m == "operator=":
            return True, self.val(fn, st, nv, n["args"][0])
        return True, None

    # ---- condition refinement ------------------------------------------
    def refine(self, fn, st, nv, i, want):
        """Constrain state so that node i has truth value `want`.
        Returns False when infeasible.  Mutates st."""
        if i is None or i < 0:
            return True
        n = fn.nodes[i]
        if n is None:
            return True
        t = self.as_bool(fn, st, nv, i)
        if t is not None:
            return t == want
        k = n["k"]
        if k == "un" and n["op"] == "!":
            return self.refine(fn, st, nv, n["a"], not want)
        if k == "call":
            nm = n.get("n", "")
            if nm in ("jungle::Status::ok", "jungle::Status::operator bool"):
                return self.bind(fn, st, nv, n["obj"], OK if want else ERR)
            if nm in ("jungle::Status::operator int", "jungle::Status::getValue"):
                return self.bind(fn, st, nv, n["obj"], ERR if want else OK)
            if nm == "jungle::Status::operator==":
                c = self.val(fn, st, nv, n["args"][0])
                return self.bind_eq(fn, st, nv, n["obj"], c, want)
            if nm.startswith("std::") and nm.endswith("::operator bool"):
                pass
        if k == "bin":
            op = n["op"]
            if op in ("==", "!="):
                w = want if op == "==" else not want
                a, b = n["a"], n["b"]
                va = self.val(fn, st, nv, a)
                vb = self.val(fn, st, nv, b)
                if self.rule.compare is not None:
                    x = self.rule.compare(self, fn, st, nv, n, want)
                    if x is not None:
                        st.auto = x
                if vb is not None and vb[0] == "c":
                    return self.bind_eq(fn, st, nv, a, vb, w)
                if va is not None and va[0] == "c":
                    return self.bind_eq(fn, st, nv, b, va, w)
                # fall through to the memo
            if op in ("<", ">=", ">", "<="):
                # rc < 0, fd >= 0 ... on a value split by the rule
                va = self.val(fn, st, nv, n["a"])
                vb = self.val(fn, st, nv, n["b"])
                r = self.cmp_neg(op, va, vb)
                if r is not None:
                    return r == want
            if op == "&&" and want:
                return (self.refine(fn, st, nv, n["a"], True) and
                        self.refine(fn, st, nv, n["b"], True))
            if op == "||" and not want:
                return (self.refine(fn, st, nv, n["a"], False) and
                        self.refine(fn, st, nv, n["b"], False))
        if k == "asn" or (k == "call" and n.get("oper") == "="):
            tgt = n["a"] if k == "asn" else n["obj"]
            return self.refine(fn, st, nv, tgt, want)
        if k in ("ref", "mem"):
            key = self.lv(fn, i)
            if key is not None:
                if is_status_type(n.get("t", "")):
                    return True
                if fn._extra["tests"].get(key, 0) >= 2:
                    if not (want and (self.val(fn, st, nv, i) or ("",))[0] == "lin"):
                        st.env[key] = NZ if want else ZERO
                return True
        if k == "bin" and n["op"] in MIRROR and self.rule.assume is not None:
            a = self.rule.assume(self, fn, st, nv, n, want)
            if a is not None:
                st.auto = a
        if i in nv or ("n", i) in st.env:
            nv[i] = NZ if want else ZERO
        ck = self.condkey(fn, i)
        if ck is not None and self.ckcount(fn, ck[0]) >= 2:
            key = ("k", ck[0])
            old = st.env.get(key)
            if old is not None:
                return (old == ("c", 1)) == want
            st.env[key] = ("c", int(want))
        return True

    @staticmethod
    def cmp_neg(op, a, b):
        # ('neg',) is "a negative error result", ('nonneg',) its complement
        if a is not None and a[0] in ("neg", "nonneg") and b is not None and b[0] == "c":
            neg = a[0] == "neg"
            c = b[1]
            if op == "<" and c == 0:
                return neg
            if op == ">=" and c == 0:
                return not neg
            if op == "<=" and c == -1:
                return neg
            if op == ">" and c == -1:
                return not neg
            if neg and op in (">", ">=") and c >= 0:
                return False
            if neg and op in ("<", "<=") and c >= 0:
                return True
        return None

    def bind(self, fn, st, nv, i, v):
        """Record that the Status lvalue/temporary i has value v."""
        n = fn.nodes[i]
        key = self.lv(fn, i)
        cur = self.val(fn, st, nv, i)
        if cur is not None and cur[0] == "st":
            if cur[1] != v[1]:
                return False
            return True
        if key is not None:
            st.env[key] = v
        elif n["k"] in ("asn",) :
            return self.bind(fn, st, nv, n["a"], v)
        elif n["k"] == "call" and n.get("oper") == "=":
            return self.bind(fn, st, nv, n["obj"], v)
        else:
            nv[i] = v
        return True

    def bind_eq(self, fn, st, nv, i, c, want):
        n = fn.nodes[i]
        if n is None:
            return True
        # Status compared through operator int
        if n["k"] == "call" and n.get("n") in ("jungle::Status::operator int",
                                               "jungle::Status::getValue"):
            return self.bind_eq(fn, st, nv, n["obj"], c, want)
        cur = self.val(fn, st, nv, i)
        r = self.eq(cur, c)
        if r is not None:
            return r == want
        if cur is not None and cur[0] in ("neg", "nonneg") and c is not None and c[0] == "c":
            if cur[0] == "neg" and c[1] >= 0:
                return not want
            if cur[0] == "neg" and c[1] == -1:
                return want
            if cur[0] == "nonneg" and c[1] < 0:
                return not want
        t = n.get("t", "")
        key = self.lv(fn, i)
        if is_status_type(t):
            if c[1] == 0:
                return self.bind(fn, st, nv, i, OK if want else ERR)
            if want:
                v = ("st", "ERR", c[1])
                if key is not None:
                    st.env[key] = v
                else:
                    nv[i] = v
            return True
        if key is not None and fn._extra["tests"].get(key, 0) < 2:
            return True
        if want:
            if key is not None:
                st.env[key] = c
            else:
                nv[i] = c
        elif c == ZERO:
            if key is not None:
                st.env[key] = NZ
            else:
                nv[i] = NZ
        if key is None:
            ck = self.condkey(fn, i)
            if ck is not None and self.ckcount(fn, ck[0], True) >= 2:
                k2 = ("k", "%s==%s" % (ck[0], c))
                old = st.env.get(k2)
                if old is not None:
                    return (old == ("c", 1)) == want
                st.env[k2] = ("c", int(want))
        return True

    PURE = {"size", "empty", "ok", "c_str", "load", "isReadOnly", "isNormal", "get",
            "getDbConfig", "length", "data", "count", "valid", "capacity"}

    def ckcount(self, fn, text, sub=False):
        cnt = fn._extra.get("ckcount")
        if cnt is None:
            cnt = {}
            for c in fn._extra["conds"]:
                seen = set()
                stack = [c]
                while stack:
                    x = stack.pop()
                    m = fn.nodes[x] if x >= 0 else None
                    if not m:
                        continue
                    if m["k"] in ("un", "bin", "call", "ref", "mem"):
                        k = self.condkey(fn, x)
                        if k is not None:
                            seen.add(k[0])
                    stack.extend(fn._extra["kids"](m))
                for t in seen:
                    cnt[t] = cnt.get(t, 0) + 1
            fn._extra["ckcount"] = cnt
        return cnt.get(text, 0)

    def condkey(self, fn, i):
        """Canonical text of a pure, stable condition plus the locals it reads;
        None when its value may change without an assignment to those."""
        if i in fn._ck:
            return fn._ck[i]
        deps = set()
        vol = [False]

        def go(i):
            n = fn.nodes[i] if i is not None and i >= 0 else None
            if n is None:
                raise KeyError
            k = n["k"]
            if "cv" in n:
                return "#%s" % n["cv"]
            if k == "ref":
                if n.get("v"):
                    deps.add(n["v"])
                    return n["v"]
                return "g:" + n.get("g", n["n"])
            if k == "this":
                return "this"
            if k == "mem":
                b = fn.nodes[n["b"]]
                bt = b.get("t", "")
                s = go(n["b"])
                if not bt.startswith("const "):
                    vol[0] = True
                return s + "." + n["f"]
            if k == "un":
                return n["op"] + "(" + go(n["a"]) + ")"
            if k == "bin":
                return "(" + go(n["a"]) + n["op"] + go(n["b"]) + ")"
            if k == "call":
                nm = n.get("n", "")
                base = nm.rsplit("::", 1)[-1]
                if n.get("kc") and base in ("getDbConfig", "isReadOnly"):
                    return base + "(" + go(n["obj"]) + ")"
                if n.get("oper") == "->" or base == "getDbConfig":
                    if "obj" in n:
                        return base + "(" + go(n["obj"]) + ")"
                if base == "operator basic_string_view":
                    raise KeyError
                if n.get("kc") and base in ("empty", "size"):
                    vol[0] = True
                    return base + "(" + go(n["obj"]) + ")"
                if nm == "std::min" or nm == "std::max":
                    return base + "(" + ",".join(go(a) for a in n["args"]) + ")"
                raise KeyError
            raise KeyError

        try:
            s = go(i)
            r = (s, frozenset(deps), vol[0])
        except KeyError:
            r = None
        fn._ck[i] = r
        if r is not None:
            reg = fn._extra.setdefault("ckdeps", {})
            reg[r[0]] = (r[1], r[2])
        return r

    def kill_var(self, fn, st, v):
        """Variable (or lvalue key) v may have changed."""
        env = st.env
        reg = fn._extra.get("ckdeps", {})
        dead = []
        for k in env:
            if k == v:
                dead.append(k)
            elif isinstance(k, tuple):
                if k[0] == "k":
                    nm = k[1].split("==(")[0]
                    d = reg.get(nm)
                    if d is None or v in d[0]:
                        dead.append(k)
                elif k[0] == v:
                    dead.append(k)
        for k in dead:
            if not (isinstance(env[k], tuple) and env[k][0] == "gc"):
                del env[k]

    def kill_volatile(self, fn, st):
        """A call with unknown effects on memory happened."""
        env = st.env
        reg = fn._extra.get("ckdeps", {})
        dead = []
        for k in env:
            if isinstance(k, tuple):
                if k[0] == "k":
                    d = reg.get(k[1].split("==(")[0])
                    if d is None or d[1]:
                        dead.append(k)
                elif k[0] == "this" and not self.rule.keep_this:
                    dead.append(k)
        for k in dead:
            del env[k]

    def assign(self, fn, st, nv, target, v):
        n = fn.nodes[target]
        key = self.lv(fn, target)
        if key is None:
            # write through a pointer or into a container: forget its base
            b = target
            hops = 0
            while b is not None and b >= 0 and hops < 8:
                m = fn.nodes[b]
                if m is None:
                    break
                if m["k"] in ("mem",):
                    b = m["b"]
                elif m["k"] in ("idx", "un"):
                    b = m["a"]
                elif m["k"] == "ref":
                    if m.get("v"):
                        self.kill_var(fn, st, m["v"])
                    break
                else:
                    break
                hops += 1
            return
        self.kill_var(fn, st, key)
        if v is not None and self.worth(fn, key, v):
            st.env[key] = v

    @staticmethod
    def worth(fn, key, v):
        if v[0] not in ("c", "nz"):
            return True
        if fn._extra["tests"].get(key, 0) >= 1 or fn.is_lambda:
            return True
        base = key
        while isinstance(base, tuple):
            base = base[0]
        return base in fn._extra["captured"]

    # ---- running a function --------------------------------------------
    def summary(self, fid, auto, env):
        """Outcomes of running function fid from `auto`.
        env: frozenset of (key, value) for parameters / captured locals.
        Returns a frozenset of (auto, kind, value, envout)."""
        key = (fid, auto, env)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            self.active[key][1] = True
            return self.active[key][0]
        self.active[key] = [frozenset(), False]
        while True:
            res = self.run(self.P.fns[fid], auto, env)
            ent = self.active[key]
            if not ent[1] or res == ent[0]:
                break
            ent[0] = res
            ent[1] = False
        del self.active[key]
        if not self.active or True:
            self.memo[key] = res
        return res

    def run(self, fn, auto, env0):
        fn_info(fn)
        self.nfuncs += 1
        self.visited.add(fn.id)
        auto = self.rule.enter(self, fn, auto)
        outcomes = set()
        entry = State(auto, dict(env0))
        work = [(fn.entry, entry)]
        seen = {}
        count = 0
        captured_keys = None
        if fn.is_lambda:
            captured_keys = set(k for k, _ in env0)
        while work:
            bid, st = work.pop()
            # prune dead locals
            live = fn._live.get(bid, ())
            nlive = fn._extra["nlive"].get(bid, ())
            env = st.env
            dead = None
            for k in env:
                if isinstance(k, str):
                    base = k
                elif isinstance(k, tuple) and k[0] == "n":
                    if k[1] not in nlive:
                        if dead is None:
                            dead = []
                        dead.append(k)
                    continue
                elif isinstance(k, tuple) and k[0] == "k":
                    d = fn._extra.get("ckdeps", {}).get(k[1].split("==(")[0])
                    if d is not None and d[0] and not (d[0] <= live):
                        if dead is None:
                            dead = []
                        dead.append(k)
                    continue
                else:
                    base = k
                    while isinstance(base, tuple):
                        base = base[0]
                if base in ("this", "ret", "rl", "live") or base in live:
                    continue
                if fn.is_lambda and captured_keys is not None and (
                        not self._local_to(fn, base)):
                    continue
                if dead is None:
                    dead = []
                dead.append(k)
            if dead:
                for k in dead:
                    if env[k] and env[k][0] == "gc":
                        continue
                    del env[k]
            sig = (st.auto, frozenset(env.items()))
            sb = seen.setdefault(bid, set())
            if sig in sb:
                continue
            sb.add(sig)
            count += 1
            if count > self.MAX_STATES:
                raise Budget("%s: more than %d abstract states" % (fn.name, self.MAX_STATES))
            if bid == fn.exit:
                self.finish(fn, st, outcomes)
                continue
            for nb, ns in self.block(fn, fn.blocks[bid], st, outcomes):
                work.append((nb, ns))
        self.npaths += count
        return frozenset(outcomes)

    def _local_to(self, fn, v):
        s = fn._extra.get("locals")
        if s is None:
            s = set(p["v"] for p in fn.params)
            for n in fn.nodes:
                if n and n["k"] == "decl" and n.get("v"):
                    s.add(n["v"])
            for b in fn.blocks.values():
                lb = b.get("lb") or {}
                if lb.get("v"):
                    s.add(lb["v"])
            fn._extra["locals"] = s
        return v in s

    def finish(self, fn, st, outcomes, kind="ret", val=None):
        if kind == "ret":
            val = st.env.get("ret")
        line = st.env.get("rl")
        a = self.rule.exit(self, fn, st.auto, kind, val, line[1] if line else fn.end)
        envout = frozenset()
        if fn.is_lambda:
            envout = frozenset((k, v) for k, v in st.env.items()
                               if isinstance(k, str) and k not in ("ret", "rl", "live")
                               and not self._local_to(fn, k))
        outcomes.add((a, kind, val, envout))

    # ---- one block -----------------------------------------------------
    def block(self, fn, b, st, outcomes):
        """Execute a block; yields (successor, state)."""
        res = []
        pending = [(0, st, {k[1]: v for k, v in st.env.items()
                            if isinstance(k, tuple) and k[0] == "n"})]
        elems = b["e"]
        if b.get("tk") == "CXXTryStmt" and not elems:
            # handler dispatch; only reached through throw()
            return res
        while pending:
            pos, st, nv = pending.pop()
            st = st.copy()
            nv = dict(nv)
            dead = False
            while pos < len(elems):
                i = elems[pos]
                n = fn.nodes[i]
                pos += 1
                k = n["k"]
                if k in ("call", "ctor") or (k in ("dtor", "del") ):
                    outs = self.do_call(fn, st, nv, i, n)
                    if outs is None:
                        continue
                    # fork
                    for (s2, nv2, threw) in outs[1:]:
                        if threw is not None:
                            self.throw(fn, s2, nv2, n, threw, res, outcomes)
                        else:
                            pending.append((pos, s2, nv2))
                    if not outs:
                        dead = True
                        break
                    s2, nv2, threw = outs[0]
                    if threw is not None:
                        self.throw(fn, s2, nv2, n, threw, res, outcomes)
                        dead = True
                        break
                    st, nv = s2, nv2
                    continue
                if k == "throw":
                    self.nv = nv
                    a = self.rule.elem(self, fn, i, n, st)
                    if a is not None:
                        st.auto = a
                    v = self.val(fn, st, nv, n.get("v"))
                    self.throw(fn, st, nv, n, (n.get("tt"), v), res, outcomes)
                    dead = True
                    break
                forks = self.do_elem(fn, st, nv, i, n)
                if forks:
                    for (s2, nv2) in forks:
                        pending.append((pos, s2, nv2))
                    dead = True
                    break
            if dead:
                continue
            if b.get("noret"):
                continue
            res.extend(self.succ(fn, b, st, nv))
        return res

    def keep(self, fn, st, nv):
        for k in [k for k in st.env if isinstance(k, tuple) and k[0] == "n"]:
            del st.env[k]
        for i, v in nv.items():
            if i in fn._cross and v is not None:
                st.env[("n", i)] = v

    def succ(self, fn, b, st, nv):
        succ = b["s"]
        out = []
        if len(succ) == 1:
            if succ[0] >= 0:
                self.keep(fn, st, nv)
                out.append((succ[0], st))
            return out
        tc = b.get("tc")
        if b.get("sw"):
            v = self.val(fn, st, nv, tc)
            cases = []
            dflt = None
            for s in succ:
                if s < 0:
                    continue
                lb = fn.blocks[s].get("lb") or {}
                if "case" in lb:
                    cases.append((s, lb["case"]))
                else:
                    dflt = s
            for s, c in cases:
                if v is not None and v[0] == "c" and v[1] != c:
                    continue
                s2 = st.copy()
                nv2 = dict(nv)
                if self.bind_eq(fn, s2, nv2, tc, ("c", c), True) is False:
                    continue
                a = self.rule.branch(self, fn, tc, ("case", c), s2, b)
                if a is not None:
                    s2.auto = a
                self.keep(fn, s2, nv2)
                out.append((s, s2))
            if dflt is not None:
                if not (v is not None and v[0] == "c" and any(c == v[1] for _, c in cases)):
                    s2 = st.copy()
                    self.keep(fn, s2, nv)
                    out.append((dflt, s2))
            return out
        if len(succ) == 2 and tc is not None:
            for idx, want in ((0, True), (1, False)):
                s = succ[idx]
                if s < 0:
                    continue
                s2 = st.copy()
                nv2 = dict(nv)
                if b.get("tk") == "CXXForRangeStmt":
                    ok = True
                else:
                    ok = self.refine(fn, s2, nv2, tc, want)
                if not ok:
                    continue
                tn = b.get("tn")
                if tn is not None and b.get("top") in ("&&", "||"):
                    if b["top"] == "&&" and not want:
                        nv2[tn] = ("c", 0)
                    elif b["top"] == "||" and want:
                        nv2[tn] = ("c", 1)
                self.nv = nv2
                a = self.rule.branch(self, fn, tc, want, s2, b)
                if a is not None:
                    s2.auto = a
                self.keep(fn, s2, nv2)
                out.append((s, s2))
            return out
        for s in succ:
            if s >= 0:
                s2 = st.copy()
                self.keep(fn, s2, nv)
                out.append((s, s2))
        return out

    # ---- exceptions ----------------------------------------------------
    def throw(self, fn, st, nv, n, exc, res, outcomes):
        st = st.copy()
        t = n.get("tr", -1)
        ttype, v = exc
        if ttype is None:
            ttype = ""
        while t is not None and t >= 0:
            tb = fn.tries[t]["b"]
            self.unwind(fn, st, t)
            if tb in fn.blocks:
                for h in fn.blocks[tb]["s"]:
                    if h < 0:
                        continue
                    lb = fn.blocks[h].get("lb") or {}
                    c = lb.get("catch")
                    if c is None:
                        continue
                    if c == "..." or self.catches(c, ttype):
                        s2 = st.copy()
                        if lb.get("v"):
                            if v is not None:
                                s2.env[lb["v"]] = v
                            elif c.replace("const ", "").replace(" &", "") == STATUS:
                                s2.env[lb["v"]] = ERR
                        self.keep(fn, s2, {})
                        res.append((h, s2))
                        return
            t = fn.tries[t]["p"]
        self.unwind(fn, st, -1)
        st.env["rl"] = ("l", n["l"])
        self.finish(fn, st, outcomes, "throw", (ttype, v))

    @staticmethod
    def catches(c, t):
        c = c.replace("const ", "").replace(" &", "").strip()
        t = t.replace("const ", "").replace(" &", "").strip()
        if c == t:
            return True
        if t == "" :
            return True
        if c == "std::exception" and t.startswith("std::"):
            return True
        return False

    def unwind(self, fn, st, t):
        """Destroy tracked automatic objects declared inside try t (or all)."""
        live = st.env.get("live")
        if not live:
            return
        keep = []
        for (v, typ, decl_tr) in reversed(live):
            inside = (t == -1)
            x = decl_tr
            while x is not None and x >= 0:
                if x == t:
                    inside = True
                    break
                x = fn.tries[x]["p"]
            if inside:
                g = st.env.get(v)
                if g is not None and g[0] == "gc":
                    outs = self.run_lambda(fn, st, g[1])
                    if outs:
                        st.auto = outs[0].auto
                        st.env = outs[0].env
                    st.env.pop(v, None)
                    continue
                node = {"k": "dtor", "v": v, "t": typ, "l": 0}
                self.nv = nv
                a = self.rule.elem(self, fn, -1, node, st)
                if a is not None:
                    st.auto = a
            else:
                keep.append((v, typ, decl_tr))
        keep.reverse()
        if keep:
            st.env["live"] = tuple(keep)
        else:
            st.env.pop("live", None)

    # ---- elements ------------------------------------------------------
    def do_elem(self, fn, st, nv, i, n):
        k = n["k"]
        rule = self.rule
        if k == "decl":
            v = None
            if "i" in n:
                v = self.val(fn, st, nv, n["i"])
            if n.get("v"):
                var = n["v"]
                # bool initialised from a testable condition: split on it
                if v is None and "i" in n and n.get("t") in ("bool", "const bool"):
                    forks = []
                    for want in (True, False):
                        s2 = st.copy()
                        nv2 = dict(nv)
                        if self.refine(fn, s2, nv2, n["i"], want):
                            self.kill_var(fn, s2, var)
                            s2.env[var] = ("c", int(want))
                            self.nv = nv
                            a = rule.elem(self, fn, i, n, s2)
                            if a is not None:
                                s2.auto = a
                            forks.append((s2, nv2))
                    return forks
                st.env.pop(var, None)
                self.kill_var(fn, st, var)
                if v is not None and self.worth(fn, var, v):
                    st.env[var] = v
                t = n.get("t", "")
                if (v is not None and v[0] == "gc") or t in rule.track_classes or (
                        t.startswith(tuple(rule.track_classes)) if rule.track_classes else False):
                    st.env["live"] = st.env.get("live", ()) + ((var, t, n.get("tr", -1)),)
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            return None
        if k == "asn":
            v = self.val(fn, st, nv, n["b"]) if n["op"] == "=" else None
            if n["op"] != "=" and rule.fold:
                v = self.eval_bin(fn, st, nv, {"op": n["op"][:-1], "a": n["a"], "b": n["b"]})
            tn = fn.nodes[n["a"]]
            if v is None and n["op"] == "=" and tn and tn.get("t") == "bool" and tn["k"] == "ref":
                forks = []
                for want in (True, False):
                    s2 = st.copy()
                    nv2 = dict(nv)
                    if self.refine(fn, s2, nv2, n["b"], want):
                        self.assign(fn, s2, nv2, n["a"], ("c", int(want)))
                        self.nv = nv
                        a = rule.elem(self, fn, i, n, s2)
                        if a is not None:
                            s2.auto = a
                        forks.append((s2, nv2))
                return forks
            self.assign(fn, st, nv, n["a"], v)
            if v is not None:
                nv[i] = v
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            return None
        if k == "incdec":
            self.assign(fn, st, nv, n["a"], None)
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            return None
        if k == "ret":
            v = None
            rv = n.get("v")
            if rv is not None and rv >= 0:
                v = self.val(fn, st, nv, rv)
                if v is None and fn.ret == "bool":
                    forks = []
                    for want in (True, False):
                        s2 = st.copy()
                        nv2 = dict(nv)
                        if self.refine(fn, s2, nv2, rv, want):
                            s2.env["ret"] = ("c", int(want))
                            s2.env["rl"] = ("l", n["l"])
                            self.nv = nv
                            a = rule.elem(self, fn, i, n, s2)
                            if a is not None:
                                s2.auto = a
                            forks.append((s2, nv2))
                    return forks
                if v is not None and v[0] == "c" and is_status_type(fn.ret):
                    v = OK if v[1] == 0 else ("st", "ERR", v[1])
            st.env.pop("ret", None)
            if v is not None:
                st.env["ret"] = v
            st.env["rl"] = ("l", n["l"])
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            return None
        if k == "bin":
            if i in nv and n["op"] in ("&&", "||"):
                pass   # short-circuited on the way here
            else:
                if n["op"] in ("&&", "||"):
                    v = self.val(fn, st, nv, n["b"])
                    t = truth(v)
                    v = None if t is None else ("c", int(t))
                    if v is None and i in fn._cross:
                        # split so that a later use of the value is exact
                        forks = []
                        for want in (True, False):
                            s2 = st.copy()
                            nv2 = dict(nv)
                            if self.refine(fn, s2, nv2, n["b"], want):
                                nv2[i] = ("c", int(want))
                                forks.append((s2, nv2))
                        return forks
                else:
                    v = self.eval_bin(fn, st, nv, n)
                if v is not None:
                    nv[i] = v
        elif k == "un":
            v = self.eval_un(fn, st, nv, n)
            if v is not None:
                nv[i] = v
        elif k == "cond":
            va = nv.get(n["a"])
            vb = nv.get(n["b"])
            if va is None and vb is None:
                na, nb = fn.nodes[n["a"]], fn.nodes[n["b"]]
                c = self.as_bool(fn, st, nv, n["c"])
                if c is True:
                    va = self.val(fn, st, nv, n["a"])
                elif c is False:
                    vb = self.val(fn, st, nv, n["b"])
            v = va if va is not None else vb
            if va is not None and vb is not None and va != vb:
                v = None
            if v is not None:
                nv[i] = v
        elif k in ("ref", "mem"):
            if i in fn._cross:
                v = self.val(fn, st, nv, i)
                # cross-block use of an lvalue: remember only constants of
                # conditional operands (reads happen at the use otherwise)
                if fn._extra.get("condops") is None:
                    s = set()
                    for m in fn.nodes:
                        if m and m["k"] == "cond":
                            s.add(m["a"])
                            s.add(m["b"])
                    fn._extra["condops"] = s
                if v is not None and i in fn._extra["condops"]:
                    nv[i] = v
        elif k == "lit":
            if i in fn._cross and "cv" in n:
                nv[i] = ("c", n["cv"])
        self.nv = nv
        a = rule.elem(self, fn, i, n, st)
        if a is not None:
            st.auto = a
        return None

    # ---- calls ---------------------------------------------------------
    def run_lambda(self, fn, st, lid, args=()):
        """Run a closure in the environment of its creator.
        Returns a list of states (None when nothing of interest)."""
        L = self.P.fns.get(lid)
        if L is None:
            return None
        if not self.rule.descend(lid):
            # only its effect on captured locals
            self.kill_captured(fn, st, lid)
            return [st]
        env = dict((k, v) for k, v in st.env.items()
                   if isinstance(k, str) and k not in ("ret", "rl", "live"))
        for p, a in zip(L.params, args):
            if a is not None:
                env[p["v"]] = a
        outs = self.summary(lid, st.auto, frozenset(env.items()))
        res = []
        for (auto, kind, val, envout) in outs:
            s2 = st.copy()
            s2.auto = auto
            caps = self.caps_of(lid)
            for c in caps:
                if c in s2.env and not (s2.env[c] and s2.env[c][0] == "gc"):
                    self.kill_var(fn, s2, c)
            for k, v in envout:
                if k in caps:
                    s2.env[k] = v
            s2.env["__lv"] = val if kind == "ret" else None
            if s2.env["__lv"] is None:
                del s2.env["__lv"]
            if kind == "throw":
                s2.env["__thr"] = val
            res.append(s2)
        return res

    def caps_of(self, lid):
        L = self.P.fns.get(lid)
        c = L._extra.get("caps")
        if c is None:
            c = set()
            P = self.P.fns.get(L.parent)
            if P:
                for n in P.nodes:
                    if n and n["k"] == "lambda" and n["fn"] == lid:
                        for x in n.get("caps", ()):
                            if x.endswith("&"):
                                c.add(x[:-1])
            # nested lambdas
            for n in L.nodes:
                if n and n["k"] == "lambda" and n["fn"] in self.P.fns:
                    for x in n.get("caps", ()):
                        if x.endswith("&"):
                            c.add(x[:-1])
            L._extra["caps"] = c
        return c

    def kill_captured(self, fn, st, lid):
        if lid not in self.P.fns:
            return
        L = self.P.fns[lid]
        w = L._extra.get("writes")
        if w is None:
            w = set()
            def lam_writes(L, w):
                for n in L.nodes:
                    if not n:
                        continue
                    tgt = None
                    if n["k"] in ("asn", "incdec"):
                        tgt = n["a"]
                    elif n["k"] == "call":
                        if n.get("obj") is not None and not n.get("kc"):
                            tgt = n["obj"]
                        for r in n.get("refs", ()):
                            if r < len(n["args"]):
                                x = n["args"][r]
                                while x is not None and x >= 0 and L.nodes[x] and L.nodes[x]["k"] in ("mem", "un", "idx"):
                                    x = L.nodes[x].get("b") if L.nodes[x]["k"] == "mem" else L.nodes[x]["a"]
                                if x is not None and x >= 0 and L.nodes[x] and L.nodes[x].get("v"):
                                    w.add(L.nodes[x]["v"] if L.nodes[x]["k"] == "ref" else None)
                    while tgt is not None and tgt >= 0 and L.nodes[tgt] and L.nodes[tgt]["k"] in ("mem", "un", "idx"):
                        tgt = L.nodes[tgt].get("b") if L.nodes[tgt]["k"] == "mem" else L.nodes[tgt]["a"]
                    if tgt is not None and tgt >= 0 and L.nodes[tgt] and L.nodes[tgt]["k"] == "ref" and L.nodes[tgt].get("v"):
                        w.add(L.nodes[tgt]["v"])
                    if n["k"] == "lambda" and n["fn"] in self.P.fns:
                        lam_writes(self.P.fns[n["fn"]], w)
            lam_writes(L, w)
            w.discard(None)
            L._extra["writes"] = w
        for v in w:
            self.kill_var(fn, st, v)

    def do_call(self, fn, st, nv, i, n):
        """Returns None (state updated in place) or list of
        (state, nv, threw-or-None); threw = (type, value)."""
        k = n["k"]
        rule = self.rule
        if k == "dtor":
            v = n["v"]
            g = st.env.get(v)
            live = st.env.get("live")
            if live:
                nl = tuple(x for x in live if x[0] != v)
                if nl:
                    st.env["live"] = nl
                else:
                    st.env.pop("live", None)
            if g is not None and g[0] == "gc":
                st.env.pop(v, None)
                outs = self.run_lambda(fn, st, g[1])
                if outs is None:
                    return None
                r = []
                for s in outs:
                    s.env.pop("__lv", None)
                    s.env.pop("__thr", None)
                    r.append((s, dict(nv), None))
                return r
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            if n.get("fn"):
                return self.invoke(fn, st, nv, i, n)
            return None
        if k == "del":
            self.nv = nv
            a = rule.elem(self, fn, i, n, st)
            if a is not None:
                st.auto = a
            if n.get("fn"):
                return self.invoke(fn, st, nv, i, n)
            return None
        # Status members
        if k == "call":
            nm = n.get("n", "")
            if nm.startswith("jungle::Status::"):
                h, v = self.status_call(fn, st, nv, n)
                if nm == "jungle::Status::operator=":
                    self.nv = nv
                    a = rule.elem(self, fn, i, n, st)
                    if a is not None:
                        st.auto = a
                    v = self.val(fn, st, nv, n["args"][0])
                    if v is not None and v[0] == "c":
                        v = OK if v[1] == 0 else ("st", "ERR", v[1])
                    if v is not None and v[0] == "code":
                        v = v[1]
                    fk = rule.status_assign(self, fn, i, n, st, v)
                    if fk is not None:
                        outs = []
                        for a2, v2 in fk:
                            s2 = st.copy()
                            nv2 = dict(nv)
                            s2.auto = a2
                            self.assign(fn, s2, nv2, n["obj"], v2)
                            nv2.pop(i, None)
                            if v2 is not None:
                                nv2[i] = v2
                            outs.append((s2, nv2, None))
                        return outs
                    self.assign(fn, st, nv, n["obj"], v)
                    # keep a link for later refinement
                if v is not None:
                    nv[i] = v
                else:
                    nv.pop(i, None)
                    if i in fn._cross and nm in ("jungle::Status::ok", "jungle::Status::operator bool",
                                                 "jungle::Status::operator=="):
                        pass
                return None
            # trivial assignment operators of other classes
            if nm.startswith("std::function") and nm.endswith("operator()"):
                v = self.val(fn, st, nv, n.get("obj"))
                if v and v[0] == "lam":
                    return self.finish_lambda(fn, st, nv, i, n, v[1])
            if n.get("lamcall") and n.get("fn") in self.P.fns:
                return self.finish_lambda(fn, st, nv, i, n, n["fn"])
            if nm == "jungle::GcFunc::gcNow":
                key = self.lv(fn, n["obj"])
                g = st.env.get(key) if key is not None else None
                if g and g[0] == "gc":
                    st.env.pop(key, None)
                    live = st.env.get("live")
                    if live:
                        nl = tuple(x for x in live if x[0] != key)
                        if nl:
                            st.env["live"] = nl
                        else:
                            st.env.pop("live", None)
                    return self.finish_lambda(fn, st, nv, i, n, g[1])
        else:
            v = self.eval_ctor(fn, st, nv, n)
            if n.get("cls") == STATUS:
                if v is not None:
                    nv[i] = v
                return None
            if v is not None:
                nv[i] = v
        self.nv = nv
        r = rule.call(self, fn, i, n, st)
        if r is not None:
            outs = []
            for item in r:
                auto, val, threw = item[:3]
                s2 = st.copy()
                s2.auto = auto
                nv2 = dict(nv)
                self.effects(fn, s2, nv2, i, n)
                nv2.pop(i, None)
                if val is not None:
                    nv2[i] = val
                if len(item) > 3 and item[3]:
                    for key, vv in item[3]:
                        s2.env[key] = vv
                outs.append((s2, nv2, threw))
            return outs
        return self.invoke(fn, st, nv, i, n)

    def finish_lambda(self, fn, st, nv, i, n, lid):
        args = [self.val(fn, st, nv, a) for a in n.get("args", ())]
        outs = self.run_lambda(fn, st, lid, args)
        if outs is None:
            return None
        r = []
        for s in outs:
            val = s.env.pop("__lv", None)
            thr = s.env.pop("__thr", None)
            nv2 = dict(nv)
            nv2.pop(i, None)
            if val is not None:
                nv2[i] = val
            r.append((s, nv2, thr))
        return r

    def effects(self, fn, st, nv, i, n):
        """Forget what the call may have changed."""
        k = n["k"]
        if is_log_node(n):
            return
        args = n.get("args", ())
        for r in n.get("refs", ()):
            if r < len(args) and args[r] >= 0:
                x = args[r]
                m = fn.nodes[x]
                if m is None:
                    continue
                if m["k"] == "un" and m["op"] == "&":
                    x = m["a"]
                    m = fn.nodes[x]
                elif m["k"] in ("ref", "mem") and m.get("t", "").endswith("*") :
                    # pointer passed by value: its own value is unchanged
                    fnp = self.P.fns.get(n.get("fn"))
                    if fnp is not None and r < len(fnp.params) and fnp.params[r]["t"].endswith("&"):
                        pass
                    elif fnp is None and not n.get("n", "").startswith("std::"):
                        continue
                    elif fnp is not None:
                        key = self.lv(fn, x)
                        if key is not None:
                            for kk in [q for q in st.env if isinstance(q, tuple) and q[0] == key]:
                                del st.env[kk]
                        continue
                key = self.lv(fn, x)
                if key is not None:
                    v0 = st.env.get(key)
                    if v0 is not None and v0[0] == "gc":
                        continue
                    self.kill_var(fn, st, key)
        for a in args:
            if a >= 0:
                v = self.val(fn, st, nv, a)
                if v and v[0] == "lam":
                    self.kill_captured(fn, st, v[1])
        obj = n.get("obj")
        if obj is not None and obj >= 0 and not n.get("kc"):
            key = self.lv(fn, obj)
            m = fn.nodes[obj]
            if key is not None and m and not m.get("t", "").endswith("*") and n.get("oper") not in ("->", "*"):
                if not (st.env.get(key) and st.env[key][0] == "gc"):
                    self.kill_var(fn, st, key)
        if k == "call" and not n.get("kc"):
            nm = n.get("n", "")
            if not nm.startswith("std::") or nm.endswith("operator()"):
                self.kill_volatile(fn, st)

    def invoke(self, fn, st, nv, i, n):
        tg = self.P.targets(n)
        tg = [t for t in tg if self.rule.descend(t)]
        # closures handed to a callee that is not descended into may run
        if not tg:
            lams = []
            for a in n.get("args", ()):
                v = self.val(fn, st, nv, a) if a >= 0 else None
                if v and v[0] == "lam" and self.rule.descend(v[1]) and n["k"] == "call":
                    lams.append(v[1])
            if lams and n.get("n") != "jungle::GcFunc::GcFunc":
                outs = []
                s0 = st.copy()
                nv0 = dict(nv)
                self.effects(fn, s0, nv0, i, n)
                nv0.pop(i, None)
                outs.append((s0, nv0, None))
                for lid in lams:
                    for s in (self.run_lambda(fn, st.copy(), lid) or []):
                        thr = s.env.pop("__thr", None)
                        s.env.pop("__lv", None)
                        nv2 = dict(nv)
                        self.effects(fn, s, nv2, i, n)
                        nv2.pop(i, None)
                        outs.append((s, nv2, thr))
                return outs
            if n["k"] == "call":
                self.effects(fn, st, nv, i, n)
                nv.pop(i, None)
            elif n["k"] == "ctor":
                self.effects(fn, st, nv, i, n)
            if "cv" in n:
                nv[i] = ("c", n["cv"])
            return None
        outs = []
        seen = set()
        argv = [self.val(fn, st, nv, a) if a >= 0 else None for a in n.get("args", ())]
        for t in tg:
            T = self.P.fns[t]
            env = {}
            for p, v in zip(T.params, argv):
                if v is None:
                    continue
                pt = p["t"]
                if pt.endswith("&") and not pt.startswith("const"):
                    if v[0] not in ("lam", "lin"):
                        continue
                env[p["v"]] = v
            for o in self.summary(t, st.auto, frozenset(env.items())):
                seen.add(o[:3])
        for (auto, kind, val) in sorted(seen, key=repr):
            s2 = st.copy()
            s2.auto = auto
            nv2 = dict(nv)
            self.effects(fn, s2, nv2, i, n)
            nv2.pop(i, None)
            if kind == "throw":
                outs.append((s2, nv2, val))
            else:
                if val is not None:
                    nv2[i] = val
                outs.append((s2, nv2, None))
        return outs
