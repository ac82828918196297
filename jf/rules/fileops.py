"""The file layer (F family): what each operation on a file must have done, or
must report, for every outcome of the system calls below it."""
from ..core import Result, require
from ..engine import Engine, Rule, OK, ERR, ZERO, NZ, is_status_type

J = "jungle::"
NEGV = ("sysneg",)
SHORT = ("sysshort",)
FULL = ("sysfull",)

# system call -> (values on failure, value on success)
SYS = {
    "open": ([NEGV], FULL), "open64": ([NEGV], FULL), "openat": ([NEGV], FULL),
    "close": ([NEGV], ZERO), "fsync": ([NEGV], ZERO), "fdatasync": ([NEGV], ZERO),
    "pread": ([NEGV, SHORT], FULL), "pread64": ([NEGV, SHORT], FULL),
    "pwrite": ([NEGV, SHORT], FULL), "pwrite64": ([NEGV, SHORT], FULL),
    "read": ([NEGV, SHORT], FULL), "write": ([NEGV, SHORT], FULL),
    "ftruncate": ([NEGV], ZERO), "ftruncate64": ([NEGV], ZERO),
    "mkdir": ([NEGV], ZERO), "remove": ([NEGV], ZERO), "unlink": ([NEGV], ZERO),
    "rmdir": ([NEGV], ZERO), "lseek": ([NEGV], ("sysnonneg",)),
    "lseek64": ([NEGV], ("sysnonneg",)), "fstat": ([NEGV], ZERO), "stat": ([NEGV], ZERO),
    "posix_memalign": ([NZ], ZERO),
}
GROUPS = {"open": ("open", "open64", "openat"), "close": ("close",),
          "pread": ("pread", "pread64", "read"), "pwrite": ("pwrite", "pwrite64", "write"),
          "append": ("pwrite", "pwrite64", "write"),
          "fsync": ("fsync", "fdatasync"), "ftruncate": ("ftruncate", "ftruncate64"),
          "mkdir": ("mkdir",), "remove": ("remove", "unlink"), "eof": ("lseek", "lseek64", "fstat")}


def impls(P):
    r = [c for c, d in P.classes.items() if J + "FileOps" in d["bases"]]
    require(len(r) >= 2, "implementations of the file layer not found")
    return sorted(r)


def handles(P):
    return [c for c, d in P.classes.items() if J + "FileHandle" in d["bases"]]


def methods(P, cls):
    """(short name, Fn) of the virtual operations of an implementation."""
    names = [m["n"] for m in P.classes[J + "FileOps"]["methods"]
             if m.get("virt") and not m["n"].startswith("~")]
    out = []
    for nm in dict.fromkeys(names):
        fs = [f for f in P.byname.get(cls + "::" + nm, []) if not f.is_lambda]
        require(fs, "%s::%s not found" % (cls, nm))
        out += [(nm, f) for f in fs]
    return out


class Base(Rule):
    def __init__(self, P, cls, fd=None, fail=None, fields=None, success=None):
        self.P = P
        self.cls = cls
        self.fd = fd
        self.fail = fail            # (syscall name, value)
        self.fields = fields or {}
        self.success = success or {}
        self.bad = {}
        self.exits = 0
        self.files = set(f.file for f in P.fns.values() if f.name.startswith(cls + "::"))
        self.seen = set()
        self.top = None

    def descend(self, fid):
        f = self.P.fns[fid]
        return (f.file in self.files or f.name.startswith(J + "FileOps::")) and \
            not f.name.startswith("SimpleLogger")

    def mem_value(self, eng, fn, n, st):
        f = n["f"].rsplit("::", 1)[-1]
        if f == "fd" and self.fd is not None:
            return self.fd
        return self.fields.get(f)

    def sysval(self, eng, fn, i, node, st):
        """list of (failed?, value)"""
        nm = node.get("n", "")
        if node["k"] != "call" or nm not in SYS:
            return None
        self.seen.add(nm)
        fails, okv = SYS[nm]
        okv = self.success.get(nm, okv)
        if nm in ("pread", "pwrite", "pread64", "pwrite64") and len(node["args"]) > 3:
            off = eng.val(fn, st, {}, node["args"][3])
            if off is not None and off[0] == "sysneg":
                return [(True, NEGV)]
        if self.fail and nm == self.fail[0]:
            return [(True, self.fail[1])]
        return [(False, okv)]

    def report(self, key, fn, line, msg):
        self.bad.setdefault(key, (fn.where(line), msg))


class Closed(Base):
    """The handle is null, or its descriptor is invalid."""
    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        if r is None:
            return None
        self.report("syscall", fn, node["l"], "%s() is called on a handle that is null or closed" % node["n"])
        return [(st.auto, r[0][1], None)]

    def elem(self, eng, fn, i, node, st):
        if node["k"] == "mem" and not node.get("meth") and node.get("ar"):
            v = eng.val(fn, st, {}, node["b"])
            if v == ZERO:
                self.report("deref", fn, node["l"], "null handle is dereferenced (%s)" % node["f"])
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret":
            self.exits += 1
            ok = False
            if val is not None:
                if is_status_type(fn.ret):
                    ok = val[0] == "st" and val[1] == "ERR"
                else:
                    ok = val[0] in ("sysneg",) or (val[0] == "c" and val[1] < 0)
            if not ok:
                self.report("exit", fn, line, "does not report an error for a null or closed handle")
        return None


class Fail(Base):
    """Every attempt of one system call fails.  Position bookkeeping must not
    move and the operation must not succeed."""
    POS = ("filePos", "flushedFilePos", "fsyncedFilePos")

    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        if r is None:
            return None
        return [((True if f else st.auto), v, None) for f, v in r]

    def elem(self, eng, fn, i, node, st):
        if st.auto and node["k"] == "asn" and self.fail[0] in ("pwrite", "pwrite64", "write", "fsync", "fdatasync"):
            t = fn.nodes[node["a"]]
            if t and t["k"] == "mem" and t["f"].rsplit("::", 1)[-1] in self.POS:
                self.report("pos", fn, node["l"], "%s moves although %s() failed"
                            % (t["f"].rsplit("::", 1)[-1], self.fail[0]))
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret" and auto:
            self.exits += 1
            if is_status_type(fn.ret):
                ok = val is not None and val[0] == "st" and val[1] == "ERR"
            elif fn.ret == "bool":
                ok = val == ZERO
            else:
                ok = val is not None and (val[0] == "sysneg" or (val[0] == "c" and val[1] < 0))
            if not ok:
                self.report("exit", fn, line, "%s() failed (%s) on every attempt, yet success is returned"
                            % (self.fail[0], {"sysneg": "-1", "sysshort": "short count"}.get(self.fail[1][0], "error")))
        return auto


class Done(Base):
    """Nothing fails.  auto: frozenset of system calls made so far."""
    def __init__(self, *a, need=(), order=(), **k):
        Base.__init__(self, *a, **k)
        self.need = need
        self.order = order

    fold = True

    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        if r is None:
            return None
        v = r[0][1]
        if node["n"] in GROUPS["eof"] and st.auto & set(GROUPS["ftruncate"]) and v[0] == "c":
            v = ("c", 100)      # the length the analysis truncates to
        return [(st.auto | {node["n"]}, v, None)]

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret" and not (
                val is not None and val[0] == "st" and val[1] == "ERR"):
            self.exits += 1
            if not (set(self.need) & auto):
                self.report("exit", fn, line, "returns success without having called %s()"
                            % "/".join(self.need[:2]))
        return auto


class Shut(Base):
    """close() leaves the handle closed.  auto: last value stored in fd."""
    def mem_value(self, eng, fn, n, st):
        if n["f"].rsplit("::", 1)[-1] == "fd":
            return FULL if st.auto is None else st.auto
        return None

    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        return None if r is None else [(st.auto, r[0][1], None)]

    def elem(self, eng, fn, i, node, st):
        if node["k"] == "asn" and node.get("op") == "=":
            t = fn.nodes[node["a"]]
            if t and t["k"] == "mem" and t["f"].rsplit("::", 1)[-1] == "fd":
                v = eng.val(fn, st, {}, node["b"])
                return v if v is not None else ("?",)
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret" and not (
                val is not None and val[0] == "st" and val[1] == "ERR"):
            self.exits += 1
            if auto is None or not (auto == NEGV or (auto[0] == "c" and auto[1] <= 0)):
                self.report("left open", fn, line, "succeeds but leaves the handle looking open: "
                            "its descriptor will be used, and closed, again")
        return auto


class Leak(Base):
    """open(): descriptor ownership.  auto = (state, out) with state
    none|fd|obj|gone."""
    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        if r is None:
            if node["k"] == "ctor" and node.get("cls") in handles(self.P) and st.auto[0] == "fd":
                return [(("obj", st.auto[1]), NZ, None)]
            return None
        f, v = r[0]
        nm = node["n"]
        a = st.auto
        if nm in GROUPS["open"]:
            outs = [(("fd", a[1]), FULL, None), (a, NEGV, None)]
            return outs
        if nm == "close":
            return [(("gone" if a[0] == "fd" else a[0], a[1]), ZERO, None)]
        # anything else may fail
        return [(a, SYS[nm][1], None)] + [(a, x, None) for x in SYS[nm][0]]

    def descend(self, fid):
        f = self.P.fns[fid]
        if f.name.rsplit("::", 1)[-1] == f.name.rsplit("::", 2)[-2]:
            return False            # constructors
        if "::~" in f.name:
            return False
        return Base.descend(self, fid)

    def elem(self, eng, fn, i, node, st):
        if node["k"] == "del":
            if st.auto[0] == "obj":
                return ("gone", st.auto[1])
        if node["k"] == "asn":
            t = fn.nodes[node["a"]]
            if t and t["k"] == "un" and t["op"] == "*":
                b = fn.nodes[t["a"]]
                if b and b["k"] == "ref" and b.get("parm") and "FileHandle **" in b.get("t", ""):
                    v = eng.val(fn, st, {}, node["b"])
                    if v == ZERO:
                        return None
                    return ("owned" if st.auto[0] == "obj" else st.auto[0], True)
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top:
            self.exits += 1
            err = val is not None and val[0] == "st" and val[1] == "ERR"
            if auto[0] in ("fd", "obj"):
                self.report("leak", fn, line, "the open descriptor%s is leaked on this path"
                            % ("" if auto[0] == "fd" else " (inside the new handle)"))
            elif not err and auto[0] != "owned":
                self.report("out", fn, line, "returns success without handing out a handle that owns the descriptor")
            elif err and auto[1]:
                self.report("out", fn, line, "hands out a handle although it fails")
        return auto


class Flags(Base):
    fold = True

    def __init__(self, *a, **k):
        Base.__init__(self, *a, **k)
        self.flags = []

    def call(self, eng, fn, i, node, st):
        if node["k"] == "call" and node.get("n") in GROUPS["open"]:
            a = node["args"][2 if node["n"] == "openat" else 1]
            self.flags.append((fn, node["l"], eng.val(fn, st, {}, a)))
            return [(st.auto, NEGV, None)]
        r = self.sysval(eng, fn, i, node, st)
        return None if r is None else [(st.auto, r[0][1], None)]


# O_* of the target this is analysed for (linux x86-64)
O_ACC, O_CREAT, O_TRUNC, O_RDWR, O_EXCL, O_APPEND = 3, 0o100, 0o1000, 2, 0o200, 0o2000

# fields that say that there is something to do, for operations that may skip it
DIRTY = {
    "fsync": [{"fsyncedFilePos": ("c", 512), "flushedFilePos": ("c", 1024)},
              {"fsyncedFilePos": ("c", 0), "flushedFilePos": ("c", 1)}],
    "flush": [{"bufPos": ("c", 24), "filePos": ("c", 1024), "flushedFilePos": ("c", 1024)},
              {"bufPos": ("c", 600), "filePos": ("c", 16384), "flushedFilePos": ("c", 16896)},
              {"bufPos": ("c", 512), "filePos": ("c", 0), "flushedFilePos": ("c", 0)}],
}
DIRTY["close"] = DIRTY["flush"]


def handle_param(fn):
    for p in fn.params:
        if p["t"] == J + "FileHandle *":
            return p["v"]
    return None


def _run(P, R, pid, rule, fn, env, auto, label, nm):
    rule.top = fn.id
    e = Engine(P, rule)
    e.summary(fn.id, auto, frozenset(env.items()))
    R.functions |= set(P.fns[v].name for v in e.visited)
    if not rule.bad:
        R.check(True, "%s|%s|%s" % (pid, fn.short, label), fn.where(), "")
    for key, (where, msg) in rule.bad.items():
        R.check(False, "%s|%s|%s|%s" % (pid, fn.short, label, key), where, "%s: %s" % (fn.short, msg))
    return rule


def handle_checks(P, pid, quick=True):
    R = Result()
    R.rules.append("an operation on a null or closed handle returns an error before any system call or dereference")
    for cls in impls(P):
        for nm, fn in methods(P, cls):
            hp = handle_param(fn)
            if hp is None:
                continue
            _run(P, R, pid, Closed(P, cls), fn, {hp: ZERO}, None, "null handle", nm)
            for v in (-1, 0):
                _run(P, R, pid, Closed(P, cls, fd=("c", v)), fn, {hp: NZ}, None, "fd=%d" % v, nm)
            if nm == "close":
                _run(P, R, pid, Shut(P, cls), fn, {hp: NZ}, None, "closed", nm)
    require(R.obligations >= 30, "only %d handle obligations" % R.obligations)
    return R


def failures(P, pid, quick=True):
    R = Result()
    R.rules.append("if every attempt of a system call fails (-1, or a short count) the operation returns an error "
                   "and its position bookkeeping does not move")
    n = 0
    for cls in impls(P):
        for nm, fn in methods(P, cls):
            hp = handle_param(fn)
            env = {hp: NZ} if hp else {}
            probe = Done(P, cls, fd=FULL)
            probe.top = fn.id
            Engine(P, probe).summary(fn.id, frozenset(), frozenset(env.items()))
            for sc in sorted(probe.seen):
                if nm == "close" and sc in ("lseek", "lseek64"):
                    continue    # the size is only logged
                for v in SYS[sc][0]:
                    r = Fail(P, cls, fd=FULL, fail=(sc, v))
                    e2 = dict(env)
                    for p in fn.params:
                        if p["n"] in ("buf",):
                            e2[p["v"]] = NZ
                    _run(P, R, pid, r, fn, e2, False, "%s=%s" % (sc, v[0]), nm)
                    r = Fail(P, cls, fd=FULL, fail=(sc, v))
                    for p in fn.params:
                        if p["t"] == "unsigned long":
                            e2[p["v"]] = ("c", 4096)
                    r.top = fn.id
                    Engine(P, r).summary(fn.id, False, frozenset(e2.items()))
                    R.check(r.exits > 0 or sc not in r.seen, "%s|%s|%s=%s|returns" % (pid, fn.short, sc, v[0]),
                            fn.where(), "%s: never returns if %s() keeps failing" % (fn.short, sc))
                    n += 1
    require(n >= 20, "only %d (operation, system call) pairs" % n)
    R.coverage["operation_syscall_pairs"] = n
    return R


def performed(P, pid, quick=True):
    R = Result()
    R.rules.append("an operation that returns success has made the system call it stands for, "
                   "except where its own bookkeeping shows that nothing is pending")
    for cls in impls(P):
        direct = any(f["n"] == "flushedFilePos" for h in handles(P)
                     for f in P.classes[h]["fields"]
                     if P.classes[h]["file"] in [x.file for x in P.byname.get(cls + "::open", [])])
        for nm, fn in methods(P, cls):
            hp = handle_param(fn)
            env = {hp: NZ} if hp else {}
            for p in fn.params:
                if p["n"] in ("count", "nbyte") or p["t"] == "unsigned long":
                    env[p["v"]] = ("c", 4096 if not direct else 1 << 20)
                if p["t"].endswith("void *"):
                    env[p["v"]] = NZ
                if p["t"] == "long":
                    env[p["v"]] = ("c", 100)
            need = GROUPS.get(nm)
            if nm == "flush" and direct:
                need = GROUPS["pwrite"]
            if need is None or nm in ("exist",):
                continue
            probe = Done(P, cls, fd=FULL, need=need)
            cases = [{"alignSize": ("c", 512), "bufferSize": ("c", 16384)}] if direct else [{}]
            if direct and nm in DIRTY:
                cases = DIRTY[nm]
            succ = {}
            if direct and nm in ("ftruncate", "pread"):
                succ = {"lseek": ("c", 10000), "lseek64": ("c", 10000)}
                for p in fn.params:
                    if p["t"] == "unsigned long":
                        env[p["v"]] = ("c", 600)
            if nm == "append" and direct:
                continue        # buffered: see flush
            if nm == "pwrite" and direct:
                continue        # not supported: returns an error on every path
            for k, fields in enumerate(cases):
                r = Done(P, cls, fd=FULL, need=need, fields=fields, success=succ)
                _run(P, R, pid, r, fn, env, frozenset(), "%s case %d" % ("/".join(need[:1]), k), nm)
                R.check(r.exits > 0 or bool(r.bad), "%s|%s|reaches success" % (pid, fn.short), fn.where(),
                        "%s: no successful exit is reachable when every system call succeeds" % fn.short)
            big = [p["v"] for p in fn.params if p["t"] == "unsigned long"]
            if big and nm in ("pread", "pwrite", "append") and not direct:
                # any number of bytes but none
                r = Done(P, cls, fd=FULL, need=need)
                _run(P, R, pid, r, fn, dict(env, **{v: NZ for v in big}), frozenset(), "any size", nm)
            if nm == "close" and direct:
                for k, fields in enumerate(DIRTY["flush"]):
                    r = Done(P, cls, fd=FULL, need=GROUPS["pwrite"], fields=fields)
                    _run(P, R, pid, r, fn, env, frozenset(), "pending data %d" % k, nm)
    return R


class Pos(Base):
    """Order of bookkeeping and system calls.  auto: set of system calls and
    assigned position fields."""
    def call(self, eng, fn, i, node, st):
        r = self.sysval(eng, fn, i, node, st)
        if r is None:
            return None
        if node["n"] in GROUPS["fsync"]:
            pass
        return [(st.auto | {node["n"]}, r[0][1], None)]

    def elem(self, eng, fn, i, node, st):
        if node["k"] == "asn" or node["k"] == "incdec":
            t = fn.nodes[node["a"]]
            if t and t["k"] == "mem":
                f = t["f"].rsplit("::", 1)[-1]
                if f in ("flushedFilePos", "filePos") and self.nm in ("append", "flush"):
                    if not (st.auto & set(GROUPS["pwrite"])):
                        self.report("order", fn, node["l"], "%s is advanced before the data is written" % f)
                if f == "fsyncedFilePos" and self.nm == "fsync":
                    if not (st.auto & set(GROUPS["fsync"])):
                        self.report("order", fn, node["l"], "%s is advanced before fsync()" % f)
                if f == "fsyncedFilePos" and self.nm in ("append", "flush"):
                    self.report("order", fn, node["l"], "%s is advanced without fsync()" % f)
                return st.auto | {"=" + f}
        if node["k"] == "bin" and node.get("op") in ("<", ">", "<=", ">="):
            # adjusted only if needed: "if (pos > length) pos = length;"
            fs = set()
            for x in (node["a"], node["b"]):
                t = fn.nodes[x] if x is not None else None
                if t and t["k"] == "mem":
                    fs.add("=" + t["f"].rsplit("::", 1)[-1])
            if fs - st.auto and set(GROUPS["ftruncate"]) & st.auto:
                return st.auto | fs
        return None

    def exit(self, eng, fn, auto, kind, val, line):
        if fn.id == self.top and kind == "ret" and not (
                val is not None and val[0] == "st" and val[1] == "ERR"):
            self.exits += 1
            if self.nm == "ftruncate" and "=flushedFilePos" in auto and "=fsyncedFilePos" not in auto:
                self.report("trunc", fn, line,
                            "lowers the flushed position but keeps the fsynced position: a later fsync is skipped")
            if self.nm == "ftruncate" and (auto & set(GROUPS["ftruncate"])):
                for f in ("filePos", "flushedFilePos", "bufPos"):
                    if "=" + f not in auto:
                        self.report("trunc " + f, fn, line,
                                    "%s is not adjusted after the truncation: it stays ahead of the file, and data "
                                    "appended later is not written" % f)
            if self.nm == "fsync" and (auto & set(GROUPS["fsync"])) and "=fsyncedFilePos" not in auto:
                self.report("mark", fn, line, "does not record what has been fsynced")
            if self.nm == "flush" and (auto & set(GROUPS["pwrite"])) and "=flushedFilePos" not in auto:
                self.report("mark", fn, line, "does not record what has been written")
        return auto


def positions(P, pid, quick=True):
    R = Result()
    R.rules.append("written/fsynced positions move only after the write/fsync that justifies them, and never "
                   "stay above the data after a truncation")
    n = 0
    for cls in impls(P):
        files = [x.file for x in P.byname.get(cls + "::open", [])]
        if not any(f["n"] == "fsyncedFilePos" for h in handles(P)
                   if P.classes[h]["file"] in files for f in P.classes[h]["fields"]):
            continue
        for nm, fn in methods(P, cls):
            if nm not in ("append", "flush", "fsync", "ftruncate", "close"):
                continue
            hp = handle_param(fn)
            r = Pos(P, cls, fd=FULL)
            r.nm = nm
            _run(P, R, pid, r, fn, {hp: NZ}, frozenset(), "positions", nm)
            n += 1
    R.coverage["buffered_operations"] = n
    return R


def linear(fn, i, depth=0):
    """{leaf: factor} of an integer or pointer expression; "" the constant."""
    n = fn.nodes[i] if i is not None else None
    if not n or depth > 12:
        return None
    if "cv" in n and n["k"] != "decl":
        return {"": n["cv"]} if n["cv"] else {}
    if n["k"] == "bin" and n["op"] in ("+", "-"):
        a, b = linear(fn, n["a"], depth + 1), linear(fn, n["b"], depth + 1)
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if n["op"] == "+" else -v)
        return {k: v for k, v in out.items() if v}
    if n["k"] == "ref" and n.get("v"):
        v = n["v"]
        w = [m for m in fn.nodes if m and m["k"] in ("asn", "incdec")
             and fn.nodes[m["a"]] and fn.nodes[m["a"]].get("v") == v]
        d = [m for m in fn.nodes if m and m["k"] == "decl" and m.get("v") == v and "i" in m]
        if not w and len(d) == 1:
            r = linear(fn, d[0]["i"], depth + 1)
            if r is not None:
                return r
        return {(v, bool(w)): 1}
    if n["k"] == "call":
        return {("call", n.get("n")): 1}
    return None


def arguments(P, pid, quick=True):
    """Unbuffered operations hand the caller's buffer, size and offset on."""
    R = Result()
    R.rules.append("the system call of an unbuffered read, write or truncation is given the caller's own buffer, size "
                   "and offset (moved on by the progress of a retry at most), and the end of a file is sought as such")
    for cls in impls(P):
        direct = any(f["n"] == "flushedFilePos" for h in handles(P)
                     for f in P.classes[h]["fields"]
                     if P.classes[h]["file"] in [x.file for x in P.byname.get(cls + "::open", [])])
        files = set(f.file for f in P.fns.values() if f.name.startswith(cls + "::"))
        for fn in P.fns.values():
            if fn.file not in files:
                continue
            for n in fn.nodes:
                if n and n["k"] == "call" and n.get("n") in ("lseek", "lseek64") and len(n["args"]) == 3:
                    off, wh = (fn.nodes[a].get("cv") for a in n["args"][1:])
                    if wh == 2:
                        R.check(off == 0, "%s|%s|lseek" % (pid, fn.short), fn.where(n["l"]),
                                "%s: the end of the file is taken %s bytes off" % (fn.short, off))
        if direct:
            continue
        for nm, fn in methods(P, cls):
            if nm not in ("pread", "pwrite", "append", "ftruncate"):
                continue
            role = {}
            for p in fn.params:
                if p["t"].endswith("void *"):
                    role[1] = p
                elif p["t"] == "unsigned long":
                    role[2] = p
                elif p["t"] == "long":
                    role[3 if nm != "ftruncate" else 1] = p
            for n in fn.nodes:
                if not n or n["k"] != "call" or n.get("n") not in GROUPS[nm]:
                    continue
                R.functions.add(fn.name)
                for j, p in role.items():
                    if j >= len(n["args"]):
                        continue
                    e = linear(fn, n["args"][j])
                    if e is None:
                        continue
                    own = [k for k in e if k and k[0] == p["v"]]
                    rest = [k for k in e if k and k[0] != p["v"] and (k[0] == "call" or not k[1])]
                    ok = len(own) == 1 and e[own[0]] == 1 and not e.get("") and not rest
                    R.check(ok, "%s|%s|%s" % (pid, fn.short, p["n"]), fn.where(n["l"]),
                            "%s: %s() is not given the caller's %s" % (fn.short, n["n"], p["n"]))
                if nm == "append" and len(n["args"]) > 3:
                    e = linear(fn, n["args"][3])
                    if e is not None:
                        ok = not e.get("") and all(v == 1 for k, v in e.items() if k)
                        R.check(ok, "%s|%s|offset" % (pid, fn.short), fn.where(n["l"]),
                                "%s: data is not written at the end of the file" % fn.short)
    require(R.obligations >= 8, "only %d system call arguments found" % R.obligations)
    return R


def open_contract(P, pid, quick=True):
    R = Result()
    R.rules.append("open() hands out an owning handle exactly when it succeeds and leaks no descriptor when it fails; "
                   "read-only mode never creates, truncates or opens for writing")
    for cls in impls(P):
        for nm, fn in methods(P, cls):
            if nm != "open":
                continue
            r = Leak(P, cls)
            _run(P, R, pid, r, fn, {}, ("none", False), "descriptor", nm)
            mp = [p["v"] for p in fn.params if p["t"].endswith("FileOps::Mode")]
            require(mp, "open() has no mode parameter")
            for mode in (0, 1):
                fr = Flags(P, cls)
                _run(P, R, pid, fr, fn, {mp[0]: ("c", mode)}, None, "mode %d" % mode, nm)
                require(fr.flags, "%s: no open(2) call reached" % fn.short)
                for f, line, v in fr.flags:
                    key = "%s|%s|flags mode %d" % (pid, fn.short, mode)
                    if v is None or v[0] != "c":
                        R.check(False, key, f.where(line), "flags of open(2) are not determined by the mode")
                        continue
                    x = v[1]
                    if mode == 1:
                        ok = (x & O_ACC) == 0 and not (x & (O_CREAT | O_TRUNC | O_APPEND))
                        msg = "read-only mode opens with flags 0x%x" % x
                    else:
                        ok = (x & O_ACC) == O_RDWR and (x & O_CREAT) and not (x & (O_TRUNC | O_EXCL | O_APPEND))
                        msg = "normal mode opens with flags 0x%x" % x
                    R.check(bool(ok), key, f.where(line), msg)
    return R


WIDTH = {"bool": 1, "char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16,
         "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64, "long long": 64,
         "unsigned long long": 64}


def narrowing(P, pid, quick=True):
    """File sizes and offsets are never stored in a narrower integer."""
    R = Result()
    R.rules.append("no value returned by lseek/pread/pwrite/eof, nor an offset or length parameter, is stored in a "
                   "narrower integer")
    SRC = set(("lseek", "lseek64", "pread", "pwrite", "pread64", "pwrite64"))
    for cls in impls(P):
        files = set(f.file for f in P.fns.values() if f.name.startswith(cls + "::"))
        for f in P.fns.values():
            if f.file not in files:
                continue
            for n in f.nodes:
                if not n or n["k"] not in ("decl", "asn"):
                    continue
                if n["k"] == "decl":
                    if "i" not in n:
                        continue
                    t, s = n.get("t", ""), f.nodes[n["i"]]
                else:
                    if not f.nodes[n["a"]]:
                        continue
                    t, s = f.nodes[n["a"]].get("t", ""), f.nodes[n["b"]]
                if not s:
                    continue
                src = None
                if s["k"] == "call" and (s.get("n") in SRC or s.get("n", "").endswith("::eof")):
                    src = s["n"] + "()"
                elif s["k"] == "ref" and s.get("parm") and s.get("t") in ("long", "unsigned long"):
                    src = s["n"]
                if src is None:
                    continue
                w = WIDTH.get(t.replace("const ", ""))
                if w is None:
                    continue
                R.check(w >= 64, "%s|%s|%s" % (pid, f.short, src), f.where(n["l"]),
                        "%s: %s is truncated to %s" % (f.short, src, t))
    require(R.obligations >= 8, "only %d offset stores found" % R.obligations)
    return R
