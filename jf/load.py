"""Build the fact extractor, run it over every translation unit of the tree
under analysis and load the result as one program."""
import concurrent.futures
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class AnalysisError(Exception):
    """The machinery could not decide (never a pass, never a violation)."""


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_tool():
    src = os.path.join(VERIF, "tool", "jfacts.cc")
    key = _hash([src])
    out = os.path.join(BUILD, "jfacts-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cxx = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True,
                         text=True, check=True).stdout.split()
    cxx = [f for f in cxx if not f.startswith("-std=")]
    tmp = out + ".tmp%d" % os.getpid()
    cmd = (["clang++", "-O1", "-std=c++17", "-fno-rtti", src, "-o", tmp] + cxx +
           ["-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("cannot build the extractor:\n" + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


BASE_FLAGS = ["-std=c++17", "-w", "-pthread"]


def flags(repo, variant):
    f = BASE_FLAGS + ["-I" + repo + "/src", "-I" + repo + "/include",
                      "-I" + repo + "/tools",
                      "-I" + os.path.join(VERIF, "stubs"),
                      "-DLOGGER_H=" + repo + "/src/logger.h"]
    if variant == "snappy":
        f += ["-DSNAPPY_AVAILABLE=1", "-I" + os.path.join(VERIF, "stubs", "snappy")]
    return f


def _extract(args):
    tool, repo, src, out, fl = args
    r = subprocess.run([tool, repo, out, src, "--"] + fl, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        return (src, r.stderr[-3000:])
    return (src, None)


class Fn:
    __slots__ = ("id", "name", "file", "line", "end", "ret", "params", "cls",
                 "virt", "const", "static", "is_lambda", "over", "acc", "is_ctor",
                 "is_dtor", "impl", "nodes", "blocks", "entry", "exit", "tries",
                 "_live", "_cross", "_order", "short", "parent", "_ck", "_extra")

    def __init__(self, d):
        self.id = d["id"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.end = d["end"]
        self.ret = d["ret"]
        self.params = d["params"]
        self.cls = d.get("cls")
        self.virt = bool(d.get("virt"))
        self.const = bool(d.get("const"))
        self.static = bool(d.get("static"))
        self.is_lambda = bool(d.get("lambda"))
        self.over = d.get("over", [])
        self.acc = d.get("acc")
        self.is_ctor = bool(d.get("ctor"))
        self.is_dtor = bool(d.get("dtor"))
        self.impl = bool(d.get("impl"))
        self.nodes = d["nodes"]
        # function-local statics are variables of the function
        st = {}
        for n in self.nodes:
            if n and n["k"] == "decl" and n.get("static") and n.get("v"):
                st[n["n"]] = n["v"]
        if st:
            for n in self.nodes:
                if n and n["k"] == "ref" and n.get("g") in st:
                    n["v"] = st[n.pop("g")]
        self.blocks = {b["id"]: b for b in d["blocks"]}
        self.entry = d["entry"]
        self.exit = d["exit"]
        self.tries = d["tries"]
        self._live = self._cross = self._order = None
        self._ck = {}
        self._extra = {}
        self.parent = None
        n = self.name
        if n.startswith("jungle::"):
            n = n[len("jungle::"):]
        if self.is_lambda:
            n = "lambda"
        self.short = n

    def where(self, line=None):
        return "%s:%d" % (self.file, line or self.line)

    def calls(self):
        for i, n in enumerate(self.nodes):
            if n and n["k"] in ("call", "ctor") and n.get("fn"):
                yield i, n


class Program:
    def __init__(self):
        self.fns = {}
        self.classes = {}
        self.enums = {}
        self.units = []
        self.repo = None
        self.variant = ""

    def finish(self):
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.name, []).append(f)
        self.overriders = {}
        direct = {}
        for f in self.fns.values():
            for o in f.over:
                direct.setdefault(o, []).append(f.id)
        def closure(x, seen):
            for y in direct.get(x, []):
                if y not in seen:
                    seen.add(y)
                    closure(y, seen)
            return seen
        for x in list(direct):
            self.overriders[x] = sorted(closure(x, set()))
        # lambda parents
        for f in self.fns.values():
            for n in f.nodes:
                if n and n["k"] == "lambda" and n["fn"] in self.fns:
                    self.fns[n["fn"]].parent = f.id
        for f in self.fns.values():
            if f.is_lambda:
                p = self.fns.get(f.parent)
                seen = 0
                while p is not None and p.is_lambda and seen < 20:
                    p = self.fns.get(p.parent)
                    seen += 1
                f.short = (p.short if p else "?") + "::lambda"
        self._callees = None
        self._callers = None
        # address-taken functions by class of use
        return self

    def fn(self, name):
        l = self.byname.get(name, [])
        return l

    def one(self, name):
        l = [f for f in self.byname.get(name, [])]
        if not l:
            raise AnalysisError("anchor function %s not found" % name)
        return l[0]

    def targets(self, node):
        """Bodies a call/ctor/dtor node may run (direct or virtual)."""
        fid = node.get("fn")
        if not fid:
            return []
        if node.get("virt") and not node.get("qual"):
            res = [x for x in self.overriders.get(fid, []) if x in self.fns]
            if fid in self.fns:
                res.append(fid)
            return res
        return [fid] if fid in self.fns else []

    def callees(self):
        """fn id -> set of fn ids it may run directly; lambdas created inside
        a function, and functions whose address it takes, count as run."""
        if self._callees is not None:
            return self._callees
        res = {}
        for f in self.fns.values():
            s = set()
            for n in f.nodes:
                if not n:
                    continue
                k = n["k"]
                if k in ("call", "ctor", "dtor", "del"):
                    s.update(self.targets(n))
                elif k == "lambda" or k == "fnref":
                    if n.get("fn") in self.fns:
                        s.add(n["fn"])
            res[f.id] = s
        self._callees = res
        return res

    def callers(self):
        if self._callers is None:
            r = {}
            for a, s in self.callees().items():
                for b in s:
                    r.setdefault(b, set()).add(a)
            self._callers = r
        return self._callers

    def reach_to(self, seeds):
        """All functions from which one of `seeds` is reachable."""
        cs = self.callers()
        seen = set(seeds)
        work = list(seeds)
        while work:
            x = work.pop()
            for y in cs.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen

    def reach_from(self, seeds):
        cs = self.callees()
        seen = set(seeds)
        work = list(seeds)
        while work:
            x = work.pop()
            for y in cs.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return seen


def parse_units(repo, sources, fl, root=None):
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix="jfacts.")
    try:
        jobs = []
        for i, s in enumerate(sources):
            jobs.append((tool, root or repo, s, os.path.join(tmp, "%d.json" % i), fl))
        errs = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            for src, err in ex.map(_extract, jobs):
                if err is not None:
                    errs.append((src, err))
        if errs:
            raise AnalysisError("%d translation unit(s) do not parse: %s\n%s" %
                                (len(errs), [e[0] for e in errs], errs[0][1]))
        P = Program()
        P.repo = repo
        for j in jobs:
            with open(j[3]) as f:
                d = json.load(f)
            if d["failed"]:
                raise AnalysisError("no flow graph for %s" % d["failed"][:5])
            P.units.append(os.path.relpath(j[2], repo))
            for fd in d["functions"]:
                if fd["id"] not in P.fns:
                    P.fns[fd["id"]] = Fn(fd)
            for c in d["classes"]:
                P.classes.setdefault(c["name"], c)
            for e in d["enums"]:
                P.enums.setdefault(e["name"], e["vals"])
        return P.finish()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load(variant=""):
    repo = REPO
    srcs = sorted(glob.glob(repo + "/src/*.cc"))
    if len(srcs) < 40:
        raise AnalysisError("only %d source files under %s/src" % (len(srcs), repo))
    hdrs = (glob.glob(repo + "/src/*.h") + glob.glob(repo + "/include/**/*.h", recursive=True) +
            glob.glob(repo + "/tools/*.h") +
            glob.glob(VERIF + "/stubs/**/*.h", recursive=True) +
            [os.path.join(VERIF, "tool", "jfacts.cc"), os.path.join(VERIF, "jf", "load.py")])
    key = _hash(srcs + hdrs, variant + repo)
    cache = os.path.join(BUILD, "prog-" + key + ".pickle")
    if os.path.exists(cache):
        try:
            sys.setrecursionlimit(100000)
            with open(cache, "rb") as f:
                return pickle.load(f)
        except Exception:
            pass
    P = parse_units(repo, srcs, flags(repo, variant))
    P.variant = variant
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, "prog-*.pickle")):
        try:
            if len(glob.glob(os.path.join(BUILD, "prog-*.pickle"))) > 6:
                os.unlink(old)
        except OSError:
            pass
    tmp = cache + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(P, f, protocol=4)
    os.rename(tmp, cache)
    return P
