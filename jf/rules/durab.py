"""Flush, rollback, table commit (D family) and filter completeness (B02)."""
from ..core import Result
from ..engine import OK, ERR, ZERO, NZ, truth
from .order import J, short, ev, ask, run_spec, strip, is_ok, root, cond_field

POS = ("syspos",)


def rec_list(fn, node):
    """The variable, when the node asks for the size of a list of records."""
    o = fn.nodes[node["obj"]] if node.get("obj") is not None else None
    if o and "jungle::Record" in o.get("t", "") and o.get("v"):
        return o["v"]
    return None


def list_events(P):
    out = {}

    def size(rule, eng, fn, i, node, st):
        v = rec_list(fn, node)
        if v is None:
            return None
        a = st.auto
        emp = node["n"].endswith("::empty")
        r = []
        if ("some", v) not in a:
            r.append((a | {("none", v)}, ("c", 1) if emp else ZERO))
        if ("none", v) not in a:
            r.append((a | {("some", v)}, ZERO if emp else POS))
        return r
    for f in P.fns.values():
        for i, n in f.calls():
            nm = n.get("n", "")
            if nm.startswith("std::") and nm.endswith(("::size", "::empty")):
                out[nm] = size
    return out


def is_ptr(fn, cond, cls):
    """(truth when pointer to `cls` non-null) or None."""
    n, neg = strip(fn, cond)
    if n and n["k"] == "bin" and n["op"] in ("==", "!="):
        for x, y in ((n["a"], n["b"]), (n["b"], n["a"])):
            a, b = fn.nodes[x], fn.nodes[y]
            if a and cls in a.get("t", "") and a.get("t", "").rstrip("const ").endswith("*") and b and (
                    b.get("cv") == 0 or b["k"] == "lit" or "nullptr" in b.get("t", "")):
                return (n["op"] == "!=") != neg
        return None
    if n and n["k"] in ("ref", "mem") and cls in n.get("t", "") and n.get("t", "").rstrip("const ").endswith("*"):
        return not neg
    return None


# ---- log -> table flush -----------------------------------------------------------
def sema_fields(P, name):
    """Semaphore members taken by a function."""
    out = set()
    for f in P.byname.get(J + name, []):
        for n in f.nodes:
            if n and n["k"] == "ctor" and n.get("cls", n.get("n", "")).find("OpSemaWrapper") >= 0:
                for x in n.get("args", ())[:1]:
                    m = f.nodes[x]
                    while m and m["k"] == "un":
                        m = f.nodes[m["a"]]
                    if m and m["k"] == "mem":
                        out.add(m["f"].rsplit("::", 1)[-1])
    return out


def flush_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton over every path of the log flush: records are committed to the tables and the table "
                   "manifest is stored before the log is marked as flushed or a log file is removed, and success is "
                   "reported only after the log manifest is stored durably")

    def safe(a):
        return "purge" in a or {"tables", "tstored"} <= a or any(isinstance(x, tuple) and x[0] == "none" for x in a)

    def gather(rule, eng, fn, i, node, st):
        a = frozenset(x for x in st.auto if not isinstance(x, tuple)) - {"tables", "tstored"}
        if "b1" in a:
            arg = eng.val(fn, st, eng.nv, node["args"][0])
            if "lt" in a and arg != POS:
                rule.bad("barrier", fn, node["l"], "records beyond the visible barrier of a batch in progress are flushed")
            if not a & {"lt", "le"}:
                rule.bad("barrier", fn, node["l"], "the barrier of a batch in progress is not compared with the sequence "
                         "number to flush up to")
        elif "b0" not in a:
            rule.bad("barrier", fn, node["l"], "records are taken without asking for the visible barrier")
        return [(a | {"gathered"}, OK), (a | {"gathered"}, ERR)]

    def barrier(rule, eng, fn, i, node, st):
        a = st.auto - {"b0", "b1"}
        return [(a | {"b0"}, ZERO), (a | {"b1"}, POS)]

    def batch(rule, eng, fn, i, node, st):
        return [((st.auto | {"tables"}) - {"tstored"}, OK), (st.auto, ERR)]

    def tstore(rule, eng, fn, i, node, st):
        a = st.auto
        if "tables" not in a:
            rule.bad("early table manifest", fn, node["l"], "the table manifest is stored before the records are written")
        return [(a | {"tstored"}, OK), (a, ERR)]

    def mark(what, add, fails=False):
        def h(rule, eng, fn, i, node, st):
            a = st.auto
            if not safe(a):
                rule.bad(what, fn, node["l"], "%s before the records are in the tables and the table manifest is stored" % what)
            return [(a | add, OK), (a, ERR)] if fails else [(a | add, OK)]
        return h

    def store(rule, eng, fn, i, node, st):
        a = st.auto
        v = eng.val(fn, st, eng.nv, node["args"][0]) if node.get("args") else None
        if v == ZERO:
            rule.bad("store without fsync", fn, node["l"], "the log manifest that no longer lists the removed log files is "
                     "not fsynced")
        return [((a - {"dirty"}) | {"stored"}, OK), (a, ERR)]

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if kind != "ret" or not is_ok(val):
            return
        if "dirty" in auto or "stored" not in auto:
            rule.bad("not stored", fn, line, "reports success without storing the log manifest after the change")
        if "last" not in auto:
            rule.bad("not advanced", fn, line, "reports success without advancing the last flushed log")

    def on_branch(rule, eng, fn, cond, want, st):
        p = cond_field(fn, cond, want, "purgeOnly")
        if p is True:
            return st.auto | {"purge"}
        n, neg = strip(fn, cond)
        if n and n["k"] == "bin" and n["op"] in ("<", "<=", ">", ">="):
            a, b = eng.val(fn, st, eng.nv, n["a"]), eng.val(fn, st, {}, n["b"])
            if (a == POS) == (b == POS):
                return None
            t = want != neg
            less = n["op"] in ("<", "<=")
            if b == POS:
                less = not less
            # `less` & t: barrier below the given number
            return (st.auto - {"lt", "le"}) | {"lt" if t == less else "le"}
        return None

    events = dict(list_events(P))
    events.update({
        J + "LogMgr::getVisibleSeqBarrier": barrier,
        J + "LogFile::getLogsToFlush": gather,
        J + "TableMgr::setBatch": batch,
        J + "TableMgr::storeManifest": tstore,
        J + "LogFile::setFlushedSeqNum": mark("the log file is marked as flushed", frozenset(), True),
        J + "LogManifest::setLastFlushedLog": mark("the last flushed log is advanced", frozenset({"last", "dirty"})),
        J + "LogManifest::removeLogFile": mark("a log file is removed", frozenset({"dirty"})),
        J + "LogManifest::store": store,
    })
    run_spec(P, R, pid, "log flush", "LogMgr::flush", events, on_exit, on_branch, min_sites=7)

    # TableMgr::storeManifest is durable
    def st2(rule, eng, fn, i, node, st):
        v = eng.val(fn, st, eng.nv, node["args"][0]) if node.get("args") else None
        if v == ZERO:
            rule.bad("store without fsync", fn, node["l"], "the table manifest is not fsynced")
        return [(st.auto | {"stored"}, OK), (st.auto, ERR)]

    def x2(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val) and "stored" not in auto:
            rule.bad("not stored", fn, line, "reports success without storing the manifest")
    run_spec(P, R, pid, "table manifest", "TableMgr::storeManifest", {J + "TableManifest::store": st2}, x2)
    return R


# ---- rollback -----------------------------------------------------------------------
def rollback_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("order automaton over every path of rollback: sync, flush and reclaim are blocked and new writes are "
                   "refused before the pending records are written; truncation, removal of the later files, durable "
                   "manifest, deletion of the files, and eviction of the memory table follow in this order")
    need = set()
    for nm in ("LogMgr::flush", "LogMgr::sync", "LogMgr::syncNoWait", "LogMgr::doLogReclaim"):
        need |= sema_fields(P, nm)
    need &= sema_fields(P, "LogMgr::rollback") | {"syncSema", "flushSema"}
    R.coverage["semaphores"] = sorted(need)

    semavar = {}
    for f in P.byname.get(J + "LogMgr::rollback", []):
        for n in f.nodes:
            if n and n["k"] == "decl" and "OpSemaWrapper" in n.get("t", "") and "i" in n:
                c = f.nodes[n["i"]]
                for x in (c or {}).get("args", ())[:1]:
                    m = f.nodes[x]
                    while m and m["k"] == "un":
                        m = f.nodes[m["a"]]
                    if m and m["k"] == "mem":
                        semavar[n["v"]] = m["f"].rsplit("::", 1)[-1]

    def acquire(rule, eng, fn, i, node, st):
        v = root(fn, node["obj"])
        v = semavar.get(v)
        return [(st.auto | {("sema", v)}, ("c", 1)), (st.auto, ZERO)]

    def held(rule, eng, fn, i, node, st, what):
        have = set(x[1] for x in st.auto if isinstance(x, tuple) and x[0] == "sema")
        if need - have:
            rule.bad("not blocked|" + what, fn, node["l"], "%s while %s may still be running" % (
                what, ", ".join(sorted(need - have)).replace("Sema", "")))

    def sync(rule, eng, fn, i, node, st):
        held(rule, eng, fn, i, node, st, "pending records are written")
        if "refusing" not in st.auto:
            rule.bad("writes not refused", fn, node["l"], "pending records are written before new writes are refused")
        return [(st.auto | {"synced"}, OK), (st.auto, ERR)]

    def trunc(rule, eng, fn, i, node, st):
        held(rule, eng, fn, i, node, st, "a log file is truncated")
        if "synced" not in st.auto:
            rule.bad("truncate before sync", fn, node["l"], "the log file is truncated before the pending records are written")
        return [(st.auto | {"trunc", "dirty"}, OK), (st.auto, ERR)]

    def remove(rule, eng, fn, i, node, st):
        if "trunc" not in st.auto:
            rule.bad("remove before truncate", fn, node["l"], "later log files are removed before the last one is truncated")
        return [(st.auto | {"dirty"}, OK)]

    def store(rule, eng, fn, i, node, st):
        v = eng.val(fn, st, eng.nv, node["args"][0]) if node.get("args") else None
        if v == ZERO:
            rule.bad("store without fsync", fn, node["l"], "the manifest is not fsynced")
        if "num" not in st.auto:
            rule.bad("log file number", fn, node["l"], "the manifest is stored with the old maximum log file number")
        if "last" not in st.auto:
            rule.bad("last synced", fn, node["l"], "the manifest is stored with a last synced log file that no longer exists")
        return [(st.auto - {"dirty"} | {"stored"}, OK), (st.auto, ERR)]

    def force(rule, eng, fn, i, node, st):
        if "stored" not in st.auto or "dirty" in st.auto:
            rule.bad("files deleted early", fn, node["l"], "removed log files are deleted before the manifest is stored")
        return [(st.auto | {"deleted"}, OK)]

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if kind != "ret" or not is_ok(val):
            return
        for k, m in (("trunc", "truncating the log file"), ("stored", "storing the manifest"),
                     ("evicted", "evicting the memory table that still has the records"),
                     ("deleted", "deleting the removed log files, which would be taken for valid ones")):
            if k not in auto:
                rule.bad("no " + k, fn, line, "reports success without %s" % m)

    def on_elem(rule, eng, fn, i, node, st):
        return None

    def flag(rule, eng, fn, i, node, st):
        o = fn.nodes[node["obj"]] if node.get("obj") is not None else None
        f = o["f"].rsplit("::", 1)[-1] if o and o["k"] == "mem" else ""
        if f != "rollbackInProgress" or not node["args"]:
            return None
        v = eng.val(fn, st, eng.nv, node["args"][0])
        if truth(v) is False:
            return [(st.auto - {"refusing"}, None)]
        return [(st.auto | {"refusing"}, None)]

    events = {
        J + "OpSemaWrapper::acquire": acquire, J + "LogMgr::syncInternal": sync, J + "LogFile::truncate": trunc,
        J + "LogManifest::removeLogFile": remove, J + "LogManifest::store": store,
        J + "LogManifest::rollbackLogFileNumber": lambda r, e, f, i, n, st: [(st.auto | {"num"}, OK)],
        J + "LogManifest::setLastSyncedLog": lambda r, e, f, i, n, st: [(st.auto | {"last"}, OK)],
        J + "DBMgr::forceRemoveFiles": force, J + "LogFileInfo::setEvicted": ev({"evicted"}, status=False),
    }
    for f in P.byname.get(J + "LogMgr::rollback", []):
        for i, n in f.calls():
            if n.get("n", "").startswith("std::atomic<bool>::") or n.get("n", "").startswith("std::__atomic_base<bool>::"):
                if n.get("oper") == "=" or n["n"].endswith(("::store", "::operator=")):
                    events[n["n"]] = flag
    run_spec(P, R, pid, "rollback", "LogMgr::rollback", events, on_exit, min_sites=8)

    # writes are refused while the flag is set
    refuse = []
    for f in P.byname.get(J + "DB::DBInternal::checkHandleValidity", []):
        for n in f.nodes:
            if n and n["k"] == "mem" and n["f"].endswith("::rollbackInProgress"):
                refuse.append(f)
    if P.byname.get(J + "DB::DBInternal::checkHandleValidity"):
        g = P.byname[J + "DB::DBInternal::checkHandleValidity"][0]
        R.functions.add(g.name)

        def x3(rule, eng, fn, auto, kind, val, line):
            if kind == "ret" and is_ok(val) and "rb" in auto:
                rule.bad("write allowed", fn, line, "a write is accepted while a rollback is in progress")

        def b3(rule, eng, fn, cond, want, st):
            return None

        wr = None
        for k, v in P.enums.items():
            if k.endswith("OpType") and "OPTYPE_WRITE" in v:
                wr = v["OPTYPE_WRITE"]

        def b4(rule, eng, fn, cond, want, st):
            n, neg = strip(fn, cond)
            f = None
            if n and n["k"] == "mem":
                f = n["f"]
            if n and n["k"] == "call" and n.get("obj") is not None:
                o = fn.nodes[n["obj"]]
                if o and o["k"] == "mem":
                    f = o["f"]
            if f and f.rsplit("::", 1)[-1] == "rollbackInProgress" and (want != neg):
                return st.auto | {"rb"}
            return None
        pn = g.params[0]["n"] if g.params else None
        run_spec(P, R, pid, "writes refused", "DB::DBInternal::checkHandleValidity", {}, x3, b4,
                 env=[(pn, ("c", wr))] if wr is not None else [], min_sites=0)
        R.check(bool(refuse), pid + "|checkHandleValidity|flag", g.where(),
                "checkHandleValidity: never looks at the rollback flag")
    return R


# ---- table commit --------------------------------------------------------------------
def commit_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate over every path of table writers: a table with records that are not committed does not "
                   "report success, and neither does one whose Bloom filter is not saved")

    def fset(rule, eng, fn, i, node, st):
        a = st.auto | {"uncommitted", "unsaved"}
        return [(a, ("c", 0)), (a, ("c", -1))]

    def commit(rule, eng, fn, i, node, st):
        return [(st.auto - {"uncommitted"}, ("c", 0)), (st.auto, ("c", -1))]

    def bf(rule, eng, fn, i, node, st):
        return [(st.auto - {"unsaved"}, OK), (st.auto, ERR)]


    def on_branch(rule, eng, fn, cond, want, st):
        p = is_ptr(fn, cond, "BloomFilter")
        if p is not None and p != want:
            return st.auto - {"unsaved"}
        return None

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val) and "uncommitted" in auto:
            rule.bad("not committed", fn, line, "reports success although records are not committed")
        if kind == "ret" and is_ok(val) and "unsaved" in auto:
            rule.bad("filter not saved", fn, line, "reports success although the Bloom filter that knows the new records is "
                     "not saved")

    ev1 = {"fdb_set": fset, "fdb_del": fset, "fdb_commit": commit,
           J + "TableFile::saveBloomFilter": bf,
           J + "BloomFilter::BloomFilter": lambda *a: None}
    for top in ("TableFile::compactTo", "TableFile::mergeCompactTo", "TableFile::setBatch"):
        run_spec(P, R, pid, "table commit", top, ev1, on_exit, on_branch, env=[("bulk_load_mode", ZERO)], min_sites=3)
    ev2 = {"fdb_set": fset, "fdb_del": fset, "fdb_commit": commit}
    for top in ("builder::Builder::finalizeFile",):
        def xb(rule, eng, fn, auto, kind, val, line):
            if kind == "ret" and is_ok(val) and "uncommitted" in auto:
                rule.bad("not committed", fn, line, "reports success although records are not committed")
        run_spec(P, R, pid, "table commit", top, ev2, xb, auto=frozenset({"uncommitted"}))
    for top in ("TableFile::FdbHandle::commit",):
        run_spec(P, R, pid, "table commit", top, ev2, on_exit, auto=frozenset({"uncommitted"}))

    # bulk writers end with a committing batch
    def sset(rule, eng, fn, i, node, st):
        if node["n"].endswith("setSingle"):
            return [(st.auto | {"uncommitted"}, OK), (st.auto, ERR)]
        f = P.fns.get(node.get("fn"))
        bulk = None
        for k, p in enumerate(f.params if f else ()):
            if p["t"] == "bool" and k < len(node["args"]):
                bulk = eng.val(fn, st, eng.nv, node["args"][k])
        if bulk == ("c", 1):
            return [(st.auto | {"uncommitted"}, OK), (st.auto, ERR)]
        if bulk == ZERO:
            return [(st.auto - {"uncommitted"}, OK), (st.auto, ERR)]
        return [(st.auto, OK), (st.auto, ERR)]
    ev3 = {J + "TableFile::setBatch": sset, J + "TableFile::setSingle": sset}
    for top in ("TableMgr::setTableFileOffset",):
        run_spec(P, R, pid, "bulk write", top, ev3, on_exit, min_sites=1)

    # opening a new table commits and the flush goes to disk
    return R


# ---- Bloom filter completeness ---------------------------------------------------------
def filter_rule(P, pid, quick=True):
    R = Result()
    R.rules.append("typestate: every record written to a table whose filter exists is added to the filter before the next "
                   "record is written or success is reported; the same for a new key of the memory table; a lookup "
                   "skips a table only on the answer of a full-key filter probe")

    def pend(rule, eng, fn, i, node, st):
        a = st.auto
        if "pend" in a:
            rule.bad("missed record", fn, node["l"], "the previous record was not added to the Bloom filter")
        return [((a - {"nobf"}) | {"pend"}, ("c", 0)), (a, ("c", -1))]

    def bset(rule, eng, fn, i, node, st):
        return [(st.auto - {"pend"}, None)]

    def on_branch(rule, eng, fn, cond, want, st):
        p = is_ptr(fn, cond, "BloomFilter")
        if p is not None and p != want:
            return st.auto - {"pend"}
        return None

    def on_exit(rule, eng, fn, auto, kind, val, line):
        if kind == "ret" and is_ok(val) and "pend" in auto:
            rule.bad("missed record", fn, line, "reports success although a record was not added to the Bloom filter")

    ev1 = {"fdb_set": pend, "BloomFilter::set": bset, J + "BloomFilter::set": bset}
    for top in ("TableFile::setSingle", "TableFile::compactTo", "TableFile::mergeCompactTo"):
        run_spec(P, R, pid, "filter of a table", top, ev1, on_exit, on_branch, min_sites=2)

    def ins(rule, eng, fn, i, node, st):
        return [(st.auto | {"pend"}, ("c", 0)), (st.auto, ("c", -1))]

    def x2(rule, eng, fn, auto, kind, val, line):
        if kind in ("ret", "end", None) or kind:
            if "pend" in auto and kind != "throw":
                rule.bad("missed key", fn, line, "a new key is not added to the Bloom filter")
    ev2 = {"skiplist_insert_nodup": ins, "skiplist_insert": ins, "BloomFilter::set": bset, J + "BloomFilter::set": bset}
    run_spec(P, R, pid, "filter of a memory table", "MemTable::addToByKeyIndex", ev2, x2, on_branch, min_sites=2)

    # the filter in use is filled from the start: it is replaced only by a load
    probes = {}

    def chk(rule, eng, fn, i, node, st):
        probes.setdefault(fn.name, fn)
        return [(st.auto | {"absent"}, ZERO), (st.auto, ("c", 1))]

    def hp(rule, eng, fn, i, node, st):
        f = P.fns.get(node.get("fn"))
        pre = None
        for k, p in enumerate(f.params if f else ()):
            if p["t"] == "bool" and k < len(node["args"]):
                pre = eng.val(fn, st, eng.nv, node["args"][k])
        a = st.auto - {"full", "custom"}
        if pre == ("c", 1):
            return [(a | {"custom"}, ("c", 1)), (a, ZERO)]
        return [(a | {"full"}, ("c", 1)), (a | {"full"}, ZERO)]
    for f in sorted(P.fns.values(), key=lambda f: f.id):
        if f.is_lambda or not f.file.startswith("src/"):
            continue
        if not any(n.get("n", "") in ("BloomFilter::check", J + "BloomFilter::check") for i, n in f.calls()):
            continue
        if f.name.startswith("BloomFilter"):
            continue

        def x3(rule, eng, fn, auto, kind, val, line):
            return None

        def chk2(rule, eng, fn, i, node, st):
            if not st.auto & {"full", "custom"}:
                rule.bad("probe", fn, node["l"], "the filter is probed with a hash that does not belong to the whole key "
                         "or to a custom prefix hash")
            return [(st.auto, ZERO), (st.auto, ("c", 1))]
        ev3 = {"BloomFilter::check": chk2, J + "BloomFilter::check": chk2}
        for g in P.byname:
            if g.rsplit("::", 1)[-1] in ("get_hash_pair", "get_data_to_hash"):
                ev3[g] = hp
        if f.name.startswith(J):
            run_spec(P, R, pid, "filter probe", f.name[len(J):], ev3, x3, min_sites=2)
    return R
