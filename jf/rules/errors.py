"""Error propagation (E family): which operations, in which functions."""
import json
import os

from ..core import Result, require
from ..engine import ERR, is_status_type
from .. import errprop

J = "jungle::"

PRIMS = {J + "FileOps::" + m: ERR for m in
         ("pwrite", "append", "flush", "fsync", "ftruncate", "pread", "open")}
for m in ("fdb_set", "fdb_del", "fdb_commit", "fdb_sync_file", "fdb_open",
          "fdb_open_custom_cmp", "fdb_kvs_open", "fdb_get", "fdb_get_metaonly",
          "fdb_get_byoffset_raw", "fdb_get_nearest", "fdb_snapshot_open",
          "fdb_iterator_init", "fdb_iterator_sequence_init", "fdb_traverse_index"):
    PRIMS[m] = ("c", -999999)      # a failure no code handles specially

TARGETS = {
    "E01": """MemTable::flush MemTable::appendFlushMarker MemTable::appendCheckpointMarker
        MemTable::sync LogFile::create LogFile::flushMemTable LogFile::sync LogFile::truncate
        LogFile::openFHandle
        LogMgr::sync LogMgr::syncNoWait LogMgr::syncInternal LogMgr::addNewLogFile
        LogMgr::setSN LogMgr::setMulti LogMgr::setMultiInternal LogMgr::checkBatchValidity
        LogMgr::checkpoint LogMgr::rollback LogMgr::discardDirty LogMgr::close
        DB::sync DB::syncNoWait DB::checkpoint DB::set DB::setSN DB::setRecord
        DB::setRecordByKey DB::setRecordBatch DB::del DB::delSN DB::delRecord
        DB::rollback DB::discardDirty GlobalBatch::execute GlobalBatchExecutor::execute
        RwSerializer::put RwSerializer::putSb RwSerializer::putU64 RwSerializer::putU32
        RwSerializer::putU16 RwSerializer::putU8
        append_file append_file_64 append_file_32 append_file_16 append_file_8""",
    "E02": """LogMgr::flush DB::flushLogs TableMgr::setBatch TableMgr::setBatchHash
        TableMgr::setTableFile TableMgr::storeManifest TableMgr::createNewTableFile
        TableFile::setBatch TableFile::setSingle TableFile::sync TableFile::setCheckpoint
        TableFile::saveBloomFilter TableFile::create TableFile::updateSnapshot
        TableFile::changeOptions
        TableFile::FdbHandle::commit TableFile::FdbHandle::open
        TableFile::FdbHandle::openCustomCmp TableFile::openFdbHandle""",
    "E03": """TableMgr::compactLevelItr TableMgr::compactInPlace TableMgr::compactL0
        TableMgr::migrateLevel TableMgr::splitLevel TableMgr::splitTableItr
        TableMgr::mergeLevel TableMgr::fixTable TableMgr::setTableFileOffset
        TableMgr::setTableFileItrFlush TableFile::compactTo TableFile::compactToManually
        TableFile::mergeCompactTo DB::compactL0 DB::compactLevel DB::compactInplace
        DB::splitLevel DB::mergeLevel TableMgr::adjustNumL0Partitions
        builder::Builder::set builder::Builder::commit builder::Builder::finalizeFile
        builder::Builder::buildFromTableFiles""",
    "E04": """DBManifest::create DBManifest::store LogManifest::create LogManifest::store
        LogManifest::storeInternal LogManifest::clone TableManifest::create
        TableManifest::store TableManifest::clone
        BackupRestore::backup BackupRestore::copyFile BackupRestore::restore
        LogMgr::cloneManifest TableMgr::cloneManifest DB::cloneManifest""",
    "E05": """DB::open DBGroup::open DBGroup::openDB LogMgr::init TableMgr::init
        DBManifest::load LogManifest::load TableManifest::load LogFile::load
        LogFile::loadMemTable MemTable::load MemTable::loadRecord
        MemTable::loadFlushMarker MemTable::loadCheckpoint MemTable::findOffsetOfSeq
        TableFile::load TableFile::loadBloomFilter
        RwSerializer::get RwSerializer::getSb read_file read_file_64 read_file_32
        read_file_16 read_file_8""",
    "E06": """DB::get DB::getSN DB::getRecord DB::getRecordByKey DB::getNearestRecordByKey
        DB::getRecordsByPrefix TableMgr::get TableMgr::getNearest TableMgr::getPrefix
        TableFile::get TableFile::getNearest TableFile::getPrefix TableFile::getByOffset
        TableFile::traverseIndex TableFile::getMinKey TableFile::getMaxKey
        TableFile::Iterator::init TableFile::Iterator::initSN TableFile::Iterator::get
        TableFile::Iterator::getMeta TableMgr::Iterator::init TableMgr::Iterator::initSN
        TableMgr::Iterator::initInternal TableMgr::Iterator::addTableItr
        LogMgr::Iterator::init LogMgr::Iterator::initSN LogMgr::Iterator::initInternal
        TableMgr::Iterator::get TableMgr::Iterator::next TableMgr::Iterator::prev
        Iterator::init Iterator::initSN Iterator::next Iterator::prev
        LogFileInfo::grab""",
}

# Not looked through: void functions that cannot report.  They are targets of
# their own, so what they drop is stated once.
OPAQUE = ["LogFileInfo::grab", "TableFile::getIdleHandle", "DB::DBInternal::destroy"]

# Operations whose failure the caller is free to ignore: they are not part of
# the target tables (closing handles, statistics, hints, removing files) and
# are looked through.

# Tolerated by design: (function, operation) -> (number of sites, reason)
TOLERATED = {
    ("LogMgr::addNewLogFile", "LogManifest::store"):
        (1, "deferred: the manifest is stored again by the next sync"),
    ("LogManifest::storeInternal", "BackupRestore::backup"):
        (1, "the manifest itself is stored; the backup is retried in full by the next store"),
    ("TableMgr::init", "TableMgr::adjustNumL0Partitions"):
        (1, "optional re-partitioning; the data stays where it is and the next open retries"),
    ("LogFile::truncate", "MemTable::findOffsetOfSeq"):
        (1, "offset 0 is then reported as SEQNUM_NOT_FOUND"),
    ("LogManifest::load", "LogFile::load"):
        (1, "incomplete log files are loaded up to the last complete record by design"),
    ("TableFile::load", "TableFile::loadBloomFilter"):
        (1, "a table without its Bloom filter is searched without it"),
    ("TableFile::loadBloomFilter", "FileOps::pread"):
        (2, "a table without its Bloom filter is searched without it"),
    ("TableManifest::load", "TableFile::getMaxKey"):
        (1, "only used to cross-check the order of the tables"),
    ("TableManifest::load", "TableFile::getMinKey"):
        (1, "only used to cross-check the order of the tables"),
    ("TableMgr::cloneManifest", "fdb_snapshot_open"):
        (2, "the newest table that has the checkpoint is used"),
    ("TableMgr::compactLevelItr", "TableMgr::createNewTableFile"):
        (1, "optional extra table in the old level"),
    ("TableFile::get", "fdb_get_byoffset_raw"):
        (1, "falls back to the regular search"),
    ("TableFile::getNearest", "fdb_get_byoffset_raw"):
        (1, "falls back to the regular search"),
    ("Iterator::init", "LogMgr::Iterator::init"):
        (1, "the log part is in memory: it can only say that nothing is in range"),
    ("Iterator::initSN", "LogMgr::Iterator::initSN"):
        (1, "the log part is in memory: it can only say that nothing is in range"),
    ("DB::getRecordsByPrefix", "LogMgr::Iterator::init"):
        (1, "the log part is in memory: it can only say that nothing is in range"),
    ("Iterator::init", "Iterator::next"):
        (1, "next() leaves the fatal error in the iterator, every later call returns it"),
    ("Iterator::init", "TableMgr::Iterator::get"):
        (1, "reads the record the table iterator has already loaded in init()"),
    ("Iterator::initSN", "TableMgr::Iterator::get"):
        (1, "reads the record the table iterator has already loaded in initSN()"),
    ("Iterator::next", "TableMgr::Iterator::next"):
        (1, "a fatal error is kept in the table iterator and returned by its get() that follows"),
    ("Iterator::prev", "TableMgr::Iterator::prev"):
        (1, "a fatal error is kept in the table iterator and returned by its get() that follows"),
    ("LogFile::flushMemTable", "FileOps::ftruncate"):
        (1, "the file is marked corrupted and never written again"),
}


def _signed(v):
    return v - (1 << 32) if v >= (1 << 31) else v


def names(pid):
    return TARGETS[pid].split()


def _resolve(P, shorts):
    ids = []
    missing = []
    for s in shorts:
        fs = [f for f in P.byname.get(J + s, []) if not f.is_lambda]
        if not fs:
            missing.append(s)
        ids += [f.id for f in fs]
    return ids, missing


def run(P, pid, quick=True):
    R = Result()
    fall = set()
    prims = dict(PRIMS)
    for p in TARGETS:
        ids, _ = _resolve(P, names(p))
        fall |= set(x for x in ids if is_status_type(P.fns[x].ret))
    for m in ("getU64", "getU32", "getU16", "getU8"):
        prims[J + "RwSerializer::" + m] = ERR
    direct = set()
    for f in P.fns.values():
        for i, n in f.calls():
            if n["n"] in prims:
                direct.add(f.id)
    for f in P.fns.values():
        for n in f.nodes:
            if n and n["k"] == "mem" and n["f"] == "result" and is_status_type(n.get("t", "")):
                direct.add(f.id)
    scope = P.reach_to(direct | fall)
    scope |= set(f.id for f in P.byname.get(J + "TableFile::toJungleStatus", []))
    # small helpers that classify a Status
    scope |= set(f.id for f in P.fns.values()
                 if any(is_status_type(p["t"]) for p in f.params)
                 and len(f.blocks) <= 12 and not f.name.startswith(J + "Status::"))
    targets, missing = _resolve(P, names(pid))
    require(len(missing) <= max(3, len(names(pid)) // 4),
            "%d of the functions this rule is about are gone: %s" % (len(missing), missing))
    opaque, _ = _resolve(P, OPAQUE)
    code = _signed(P.enums["jungle::Status::Value"]["CHECKSUM_ERROR"])
    err = ERR
    reads = {}
    if pid == "E03":
        # "not found" is an answer; what must not be dropped is a corruption
        ids, _ = _resolve(P, names("E06"))
        reads = dict((x, ("st", "ERR", code)) for x in ids)
    if pid == "E06":
        fcode = -15     # FDB_RESULT_CHECKSUM_ERROR of stubs/libforestdb
        for m in prims:
            if m.startswith("fdb_"):
                prims[m] = ("c", fcode)
        err = ("st", "ERR", code)
    res, sites, budget, ns, visited = errprop.run(P, prims, scope, fall, targets,
                                                  ("result", "fatalError"), err, opaque, reads)
    require(not budget, "state budget exceeded: %s" % budget)
    # group by (target, op)
    groups = {}
    for (fid, auto), lines in res.items():
        op = auto[0]
        op = op[len(J):] if op.startswith(J) else op
        groups.setdefault((P.fns[fid].short, op), []).append((auto, sorted(lines)))
    used_tol = []
    for (F, op), l in sorted(groups.items()):
        tol = TOLERATED.get((F, op))
        if tol and len(l) <= tol[0]:
            used_tol.append("%s in %s: %s" % (op, F, tol[1]))
            continue
        for (auto, lines) in l:
            sf = P.fns[auto[1]]
            R.add("%s|%s|%s" % (pid, F, op), sf.where(auto[2]),
                  "%s: failure of %s at %s is dropped; the function still returns success at line %s"
                  % (F, op, sf.where(auto[2]), ",".join(map(str, lines))))
    require(len(sites) >= 5, "only %d operations found" % len(sites))
    bad = set((a[1], a[2], a[0]) for (f, a) in res)
    R.obligations = len(sites)
    R.discharged = len(sites) - len(set(
        (s[0], s[1], s[2]) for s in sites
        if (s[0], P.fns[s[0]].nodes[s[1]]["l"], s[2]) in bad))
    R.functions |= set(P.fns[v].name for v in visited)
    R.rules.append("assume each operation fails; every Status-returning exit reached from there "
                   "without a successful retry must return an error or throw")
    R.coverage = {"operation_sites": len(sites), "target_functions": len(targets),
                  "abstract_states": ns, "tolerated": used_tol,
                  "missing_names": missing}
    R.samples = ["%s: %s at %s" % (P.fns[s[0]].short, s[2],
                                   P.fns[s[0]].where(P.fns[s[0]].nodes[s[1]]["l"]))
                 for s in sorted(sites)[:12]]
    return R
