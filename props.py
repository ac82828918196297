# Executed by meta.py.  P(id, title, statement, over, quantifier text, why tests can't, files, mechanism, technique, note, na)

P("E01", "A write or sync that failed to reach the log is never acknowledged",
  """If writing, flushing or fsyncing log data fails at any point, the user-visible operation (write, batch,
  sync, checkpoint, rollback, discard) that needed it returns an error. It never reports success for data
  that could not be written.""",
  "fault_sequences histories", "for every failing file operation, at every call of every history",
  "Tests run on a healthy file system; no test injects a failing write or fsync, so no failure path runs.",
  "src/memtable.cc src/log_file.cc src/log_mgr.cc src/jungle.cc src/global_batch.cc src/internal_helper.cc",
  [("Status checked after each write", "src/memtable.cc MemTable::flush"),
   ("append_file/RwSerializer::put", "src/internal_helper.cc")], ERRTECH, ERRNOTE)

P("E02", "A failed flush of log data into tables is reported",
  """If moving logged records into a table fails at any point (table write, commit, filter, manifest store),
  the flush returns an error, so that the log data is not considered persisted in a table.""",
  "fault_sequences", "for every failing table-file or manifest operation during a flush",
  "Tests never make a table write fail.",
  "src/table_set_batch.cc src/table_mgr.cc src/table_file.cc src/log_mgr.cc src/table_writer.cc",
  [("TC try-macro and result fields of table writers", "src/table_set_batch.cc, src/table_writer.cc")],
  ERRTECH, ERRNOTE)

P("E03", "A failed compaction, split, merge or bulk build is reported",
  """If reading a source table or writing a destination table fails during compaction, split, level migration,
  merge or bulk building, that operation returns an error instead of completing with the records it could
  not copy silently missing.""",
  "fault_sequences", "for every failing or corrupted read/write during table reorganisation",
  "Tests corrupt only a few log files and never fail table I/O in compaction.",
  "src/table_compaction.cc src/table_split.cc src/table_file_compaction.cc src/jungle_builder.cc src/table_append.cc",
  [("Status of setTableFileOffset/compactTo and worker result", "src/table_mgr.cc, src/table_file_compaction.cc")],
  ERRTECH, ERRNOTE)

P("E04", "A failed manifest or backup write is reported",
  """If creating, writing, truncating or fsyncing a manifest (or its backup or clone) fails, the store, clone
  or backup operation returns an error to its caller.""",
  "fault_sequences", "for every failing file operation while a manifest or backup is written",
  "Tests never fail a manifest write.",
  "src/log_manifest.cc src/table_manifest.cc src/db_manifest.cc src/internal_helper.cc",
  [("BackupRestore, *Manifest::store", "src/log_manifest.cc, src/table_manifest.cc, src/internal_helper.cc")],
  ERRTECH, ERRNOTE)

P("E05", "Opening a database reports unreadable or truncated metadata",
  """If a manifest, log file or table needed to open a database cannot be read, is truncated or fails to
  parse, the open (or the load of that component) returns an error or takes a documented recovery path, and
  never continues with partially read metadata as if it were complete.""",
  "fault_sequences inputs", "for every failing or short read during open",
  "Tests corrupt a handful of files by hand; they cannot fail each of the reads made during open.",
  "src/jungle.cc src/db_group.cc src/log_manifest.cc src/table_manifest.cc src/db_manifest.cc src/log_file.cc src/memtable.cc src/internal_helper.cc",
  [("load functions and RwSerializer reads", "src/*_manifest.cc, src/internal_helper.cc")], ERRTECH, ERRNOTE)

P("E06", "Reads and iterators report corruption instead of hiding it",
  """If a read of a table fails with a corruption or I/O error, the point lookup, prefix lookup, iterator
  initialisation or iterator step that performed it returns an error; it never answers 'not found' or simply
  ends early as if the data did not exist.""",
  "fault_sequences inputs", "for every failing table read below a lookup or iterator step",
  "Tests never corrupt a table file under a reader.",
  "src/jungle.cc src/table_mgr.cc src/table_file.cc src/table_iterator.cc src/table_file_iterator.cc src/iterator.cc src/log_iterator.cc",
  [("toJungleStatus, fatalError of iterators", "src/table_file.cc, src/iterator.cc")], ERRTECH, ERRNOTE)

P("F01", "File operations on a null or closed handle fail without touching anything",
  """Every operation of the file layer (buffered and direct I/O) that is given a null handle or a handle that
  is already closed returns an error. It neither dereferences the handle nor makes a system call.""",
  "inputs histories", "for every operation and every state of the handle",
  "The tests call operations on open handles only, plus a few single cases.",
  "src/fileops_posix.cc src/fileops_directio.cc src/fileops_base.h",
  [("null / fd check at the top of each operation", "src/fileops_posix.cc, src/fileops_directio.cc")],
  "interprocedural dataflow with an assumed null handle / invalid descriptor",
  """Conditional constant propagation over every path of every virtual operation of every FileOps
  implementation, entered with a null handle and with descriptors -1 and 0. Trusts the Clang CFG.""")

P("F02", "A file operation whose system call fails or is short reports an error",
  """If a system call made by a file-layer operation keeps failing, or keeps reading or writing fewer bytes
  than asked for, the operation returns an error. It never reports success, and never advances its record of
  what has been written or fsynced.""",
  "fault_sequences", "for every (operation, system call, kind of failure) and any number of retries",
  "Tests never make a system call fail or return short.",
  "src/fileops_posix.cc src/fileops_directio.cc",
  [("result compared with the requested size; bounded retries", "src/fileops_posix.cc, src/fileops_directio.cc")],
  "interprocedural dataflow with failing system calls as abstract values",
  """For each operation and each system call it can reach, all attempts are assumed to fail (-1, short count);
  every exit must return an error. Complete over the paths of the CFG.""")

P("F03", "A successful file operation has really reached the operating system",
  """When a read, write, truncate, close, remove or mkdir of the file layer returns success, the corresponding
  system call has been made. A flush or fsync may be skipped only when nothing is pending since the last one,
  also after a truncation.""",
  "histories crash_points", "for every order of appends, flushes, fsyncs and truncations",
  "Tests check contents read back, which come from the page cache or the write buffer whether or not fsync ran.",
  "src/fileops_posix.cc src/fileops_directio.cc",
  [("flushedFilePos / fsyncedFilePos bookkeeping", "src/fileops_directio.cc")],
  "must-happen typestate over all success paths, conditional constant propagation of positions",
  """Every success exit of each operation must have passed the system call it stands for; for buffered direct
  I/O the entry states assumed are ones in which data is pending. Position fields may only move after the call
  that justifies them. The arithmetic inside the direct-I/O buffer is not verified.""")

P("F04", "Opening a file honours its mode, and a failed open leaks nothing",
  """Opening a file read-only never creates, truncates or allows writing to it, and opening it normally never
  truncates it. When opening fails no descriptor stays open and no handle is handed out.""",
  "inputs fault_sequences", "for every mode and every failure during open",
  "Tests open files that exist with working descriptors; leaks are invisible to them.",
  "src/fileops_base.h src/fileops_posix.cc src/fileops_directio.cc",
  [("getFlags", "src/fileops_base.h"), ("open", "src/fileops_posix.cc, src/fileops_directio.cc")],
  "constant propagation of open flags; ownership typestate of the descriptor",
  "All paths of open() with every call in it both succeeding and failing; flags folded for both modes.")

P("F05", "File sizes and offsets are never truncated",
  """The file layer handles sizes and offsets of files larger than 2 GB (and 4 GB) exactly: no size or offset is
  stored in a narrower integer on its way to or from the operating system.""",
  "inputs", "for every file size and offset representable by the OS",
  "Tests use files of a few kilobytes to megabytes.",
  "src/fileops_posix.cc src/fileops_directio.cc",
  [("off_t / size_t variables", "src/fileops_posix.cc, src/fileops_directio.cc")],
  "type-based narrowing analysis of offset and size flows",
  "Direct stores of system-call results, eof() and offset parameters; flows through further arithmetic keep 64-bit types in C++.")

P("S01", "Reading or writing serialized data in memory never leaves the buffer",
  """Whatever bytes a memory buffer contains, deserializing from it never reads outside the buffer: a read that
  would do so returns an error instead. Serializing into a growable buffer never writes beyond it.""",
  "inputs", "for every buffer content, length and position",
  "The tests read back what was just written, never a truncated or corrupted buffer.",
  "src/internal_helper.cc src/internal_helper.h",
  [("curPos + size > len check; chkResize", "src/internal_helper.cc RwSerializer")],
  "symbolic-linear bounds analysis (facts from dominating comparisons)",
  """Every raw access through the serializer's buffer pointer, in every function its operations reach, needs a
  dominating comparison that bounds position + size, or a dominating resize. 64-bit wrap-around of
  position + size is not considered. Fixed buffers are written unchecked by contract and excluded.""")

P("S02", "Numbers are stored big-endian with their full width, and read back the same way",
  """Every fixed-width integer written to a log, manifest or table is stored in big-endian order with the exact
  width of its type, and reading is the exact inverse, so files are portable and every value round-trips.""",
  "inputs", "for every 16, 32 and 64 bit value",
  "Tests round-trip small values, for which swapped or dropped high bytes go unnoticed.",
  "src/internal_helper.h src/endian_encode.h",
  [("_enc/_dec, append_*_N/read_*_N", "src/endian_encode.h, src/internal_helper.h")],
  "bit-provenance abstract interpretation of the encoders",
  "Each output bit is traced to its input bit through masks and shifts; width from the constant transfer size.")

P("B01", "The Bloom filter never denies a key that was added to it",
  """Once a key has been added to a Bloom filter, every later query for that key on the filter, on a copy of its
  hash values or on a filter imported from its exported bitmap answers 'maybe present', for every filter size,
  hash count and key. Concurrent additions never lose each other's bits, and hashing a key reads no byte outside it.""",
  "inputs schedules", "for every key, filter size, hash count and bit position",
  "Tests add a few thousand keys to one filter size; a bit position that is addressed differently by one path shows up only for some sizes.",
  "src/bloomfilter.cc src/bloomfilter.h",
  [("get / set / check, setBitmap / isBitSet, import/export", "src/bloomfilter.cc")],
  "value-numbering equivalence of the add and query paths; interval analysis of bit positions",
  """The positions set and the positions tested are compared as symbolic terms after inlining (same hash
  functions, seeds, moduli, number of rounds). Bit set/test is compared bit by bit. Byte order of imported
  bitmaps is compared symbolically too.""")

P("B02", "A table's Bloom filter knows every record written to the table",
  """Every record written to a table file or memory table, tombstones included, is added to the filter of that
  table before the next record is written or the write is reported as successful, by every way a table is
  written: flush, point update, in-place compaction, merge compaction. A lookup skips a table only because the
  filter denies the whole key or a prefix hashed by the user's own prefix hash.""",
  "inputs histories", "for every record type, key and way of writing a table",
  "Tests read through the newest table, where a key missing in one filter still resolves to an older version or to the right answer by luck.",
  "src/table_file.cc src/table_file_compaction.cc src/memtable.cc",
  [("setSingle, compactTo, mergeCompactTo", "src/table_file.cc, src/table_file_compaction.cc"), ("addToByKeyIndex, getRecordByKey, getRecordsByPrefix", "src/memtable.cc")],
  "typestate analysis over every path (pending filter insertion)",
  "fdb_set is the write, BloomFilter::set the discharge, a null filter pointer the exemption; hash kind tracked to the probe.")

P("D01", "A successful sync has written and fsynced every log file it covers",
  """When sync reports success, every log file of the range up to the newest one has been written, then flushed
  and, when requested, fsynced, before its synced position was advanced and the manifest was stored. A failure
  of any step is reported, and files written by an earlier sync without fsync are covered by a later one with it.""",
  "crash_points histories schedules", "for every path through sync, including faults and concurrent removals",
  "Tests never lose power; without it an fsync that is skipped or done before the write is invisible.",
  "src/log_mgr.cc src/log_file.cc src/memtable.cc src/jungle.cc",
  [("syncInternal, sync, syncNoWait", "src/log_mgr.cc"), ("flushMemTable, sync", "src/log_file.cc"), ("sync", "src/memtable.cc")],
  "order automaton over every path of the interprocedural control flow graph",
  "Effects are the calls to the file layer and the setters of synced positions; failures of each are explored.")

P("D02", "What has been serialized is written out, once, before it is dropped",
  """Every buffer filled with serialized records, manifests, checkpoints or filters is handed to the file layer
  (or to the caller) before the buffer is reused or released and before success is reported, and it is not
  written twice.""",
  "inputs histories", "for every path through functions that serialize",
  "Losing the last partial buffer needs sizes that hit the flush threshold exactly.",
  "src/memtable.cc src/log_manifest.cc src/table_manifest.cc src/db_manifest.cc src/table_file.cc src/cmd_handler.cc",
  [("flush, appendFlushMarker, checkpoint", "src/memtable.cc"), ("store", "src/log_manifest.cc, src/table_manifest.cc, src/db_manifest.cc")],
  "linear-resource (must-use) analysis of serialized buffers over every path",
  "A value is born by a put on a serializer over a local buffer and consumed by passing the buffer on.")

P("D03", "Log records leave the log only after they are safe in the tables",
  """A log flush marks log records as flushed and removes log files only after the records have been committed to
  the tables and the table manifest is stored durably, never includes records beyond the visible barrier of an
  atomic batch still in progress, and reports success only after the log manifest is stored durably.""",
  "crash_points schedules", "for every path, fault and crash point of a flush",
  "A crash or fault exactly between two steps is needed to see a wrong order.",
  "src/log_mgr.cc src/table_mgr.cc",
  [("LogMgr::flush", "src/log_mgr.cc"), ("storeManifest", "src/table_mgr.cc")],
  "order automaton over every path of the interprocedural control flow graph",
  "Purge-only flushes and an empty record list are exempt from the table write.")

P("D04", "Manifests are replaced durably, with a backup, and describe what they contain",
  """Storing a log, table or DB manifest writes the whole content at the start, cuts the old tail, and when
  durability is requested fsyncs the file before the backup is made from it and fsyncs the backup; a counter
  stored in front of entries of a list that changes concurrently equals the number of entries written.""",
  "crash_points schedules", "for every path and fault of a store, every interleaving of list changes",
  "Needs a crash in the middle of a store, or a log file added between counting and writing.",
  "src/log_manifest.cc src/table_manifest.cc src/db_manifest.cc src/fileops_base.h",
  [("store", "src/log_manifest.cc, src/table_manifest.cc, src/db_manifest.cc"), ("backup, copyFile", "src/internal_helper.cc")],
  "order automaton over every path; count/enumerate consistency analysis",
  "Partial updates with a cached manifest are covered, including invalidation of the cache after a fault.")

P("D05", "Table reorganisation never drops a record: copy, add, remove, store, release",
  """Compaction, migration, split, merge, repair and re-partitioning copy the records, add the new tables, remove the
  old ones, store the manifest durably and only then release (delete) the old files; after a failed store the
  files the manifest on disk may still list are kept. A move commits its destination before its source.""",
  "crash_points schedules", "for every path, fault and crash point of eight kinds of reorganisation",
  "Tests run reorganisations without faults and crashes and look only at the final state.",
  "src/table_compaction.cc src/table_split.cc src/table_mgr.cc src/table_manifest.cc src/table_file.cc",
  [("compactLevelItr, migrateLevel, compactInPlace, compactL0", "src/table_compaction.cc"), ("splitLevel, mergeLevel", "src/table_split.cc"), ("adjustNumL0Partitions", "src/table_mgr.cc")],
  "order automaton over every path of the interprocedural control flow graph",
  "The calls on the table manifest and the release of table references are the effects; the file deletion guard is checked on its own.")

P("D06", "A table write reports success only when records and filter are committed",
  """Writing records to a table by a batch flush, in-place compaction, merge compaction or bulk copy reports success
  only after the table has been committed since the last record and the Bloom filter that knows these records
  has been saved.""",
  "crash_points", "for every path and fault of a table write",
  "The page cache hides a missing commit until the process or machine dies.",
  "src/table_file.cc src/table_file_compaction.cc src/table_set_batch.cc src/jungle_builder.cc",
  [("setBatch, FdbHandle::commit", "src/table_file.cc"), ("compactTo, mergeCompactTo", "src/table_file_compaction.cc"), ("setTableFileOffset", "src/table_set_batch.cc"), ("finalizeFile", "src/jungle_builder.cc")],
  "typestate analysis (uncommitted table, unsaved filter) over every path",
  "Bulk-load batches leave the commit to their last batch by contract; that last batch is checked.")

P("D07", "Rollback blocks other writers and is durable before files are deleted",
  """Rollback runs only while sync, flush and reclaim are blocked and new writes are refused; it writes pending
  records, truncates the log, removes the later files from the manifest, stores it durably, and only then deletes
  the files, and the memory table with the rolled back records is dropped before success is reported.""",
  "crash_points schedules", "for every path, fault and interleaving with other log operations",
  "Concurrent writers and crash points are not sampled by the tests.",
  "src/log_mgr.cc src/jungle.cc",
  [("rollback", "src/log_mgr.cc"), ("checkHandleValidity", "src/jungle.cc")],
  "order automaton over every path of the interprocedural control flow graph",
  "The semaphores needed are read off the flush, sync and reclaim functions themselves.")

P("K01", "In-memory list operations give back every element reference they take",
  """Every lookup, step, insertion and removal on the concurrent in-memory list releases each element reference it took
  exactly once, on every outcome and retry, except the single reference of an element it returns. So elements are
  neither freed while in use nor kept for ever.""",
  "schedules inputs", "for every interleaving and retry of list operations",
  "The retry paths need another thread to change the list between two steps.",
  "src/skiplist.cc src/skiplist.h",
  [("_sl_next, _sl_find, insert, erase", "src/skiplist.cc")],
  "reference-token dataflow over every path of each operation",
  "The references of the two end markers are ignored, they are never freed.")

P("K02", "A list link is changed only by the operation that owns both neighbourhoods",
  """Inserting into and removing from the in-memory list changes links only after claiming, on every level of the
  element, the predecessor and checking that it is still linked and adjacent; claims are given up on every outcome,
  the element is published and unpublished in the right order, and the entry count changes exactly on success.""",
  "schedules", "for every interleaving of concurrent insertions and removals",
  "Lost or duplicated elements need a precise interleaving of two writers.",
  "src/skiplist.cc",
  [("_skiplist_insert", "src/skiplist.cc"), ("skiplist_erase_node_passive", "src/skiplist.cc")],
  "typestate analysis of the claim protocol over every path",
  "Assumes the element being removed is in the list, and searches stop at the end marker.")

P("K03", "List links are followed and changed only under the element's spin lock",
  """A list link is read only under the shared lock of its element, after checking that the element is still linked, and
  its target is referenced before the lock is released; links of linked elements are changed only under the exclusive
  lock. Shared and exclusive access exclude each other, and every operation releases the locks it took.""",
  "schedules", "for every interleaving of readers and writers of the list",
  "Races on links show up under load only, usually as rare crashes.",
  "src/skiplist.cc",
  [("_sl_read_lock_an, _sl_write_lock_an", "src/skiplist.cc"), ("_sl_next", "src/skiplist.cc")],
  "lockset dataflow, and a guard analysis of the lock word",
  "Interleavings are not enumerated: the lock word is decided from its changes and the tests after them.")

P("K04", "A list element is freed only when nobody can be using it",
  """An element taken out of an in-memory list is declared free to delete only when it is marked removed and nobody
  follows it, modifies it or references it; code that frees such elements waits for that first, and never waits while
  holding a reference itself.""",
  "schedules", "for every interleaving of removals with readers",
  "The window between removal and free is a few instructions long.",
  "src/skiplist.cc src/db_mgr.cc src/log_manifest.cc src/table_manifest.cc src/memtable.cc",
  [("skiplist_is_safe_to_free, skiplist_wait_for_free", "src/skiplist.cc"), ("closeAll", "src/db_mgr.cc")],
  "path-condition analysis of the predicate, typestate of removed elements",
  "Elements shared by two lists are followed through the one the cursor came from.")

P("K05", "Code that walks the in-memory lists releases its cursors on every path",
  """Every function that walks the log, table, database or memory-table lists releases each cursor exactly once on every
  path, errors and exceptions included; an iterator keeps exactly one reference to its position, and never releases a
  null one.""",
  "schedules inputs", "for every path, error outcome and iterator position",
  "A leaked cursor hangs a later close, a doubly released one frees an element in use; both need error or boundary paths.",
  "src/memtable.cc src/memtable_iterator.cc src/log_manifest.cc src/table_manifest.cc src/db_mgr.cc src/compactor.cc src/flusher.cc src/log_reclaimer.cc src/cmd_handler.cc",
  [("MemTable::Iterator", "src/memtable_iterator.cc"), ("MemTable::flush, sendBatch, getRecordByKey", "src/memtable.cc"), ("closeAll", "src/db_mgr.cc")],
  "reference-token dataflow over every path, helpers followed in context",
  "")

P("K06", "The in-memory lists stay sorted; steps and searches return the right neighbour",
  """For every content and interleaving of insertions and removals, each element is linked between its neighbours on each
of its layers, equal elements are put in twice only when that is allowed, and only the element removed leaves. A new list
is empty, and a search for an equal, smaller or greater element, and a step forward or back, returns the neighbour the order defines.""",
  "inputs histories", "for every list content, layer and result of each comparison",
  "Misplaced elements show only with particular keys, layers drawn at random and removals met on the way.",
  "src/skiplist.cc",
  [("_sl_find, _sl_next, _sl_cmp", "src/skiplist.cc"), ("_skiplist_insert, skiplist_erase_node_passive", "src/skiplist.cc")],
  "order and adjacency facts along every path, helpers followed in context",
  "")

P("L01", "Locks are always taken in one global order",
  """No two operations take the same locks in opposite orders, none takes a lock it already holds, and no thread waits
  for another one, or for a free object, while holding a lock the other one needs. So no schedule of the public
  operations and the background work leaves threads waiting for each other for ever.""",
  "schedules", "for every combination of operations running at the same time",
  "A deadlock needs two threads at two exact places; the tests run one operation at a time.",
  "src/log_mgr.cc src/log_manifest.cc src/table_mgr.cc src/table_manifest.cc src/worker_mgr.cc src/db_mgr.cc src/logger.cc src/memtable.cc",
  [("workersLock", "src/worker_mgr.cc"), ("writeMutex, syncMutex", "src/log_mgr.cc"), ("L0Lock, stack lock", "src/table_mgr.cc")],
  "lock-order graph over the interprocedural control flow, cycles and self edges",
  "Locks are told apart by the field they are stored in; locks of different objects of a class count as one, except where taken in a fixed order.")

P("L02", "Exclusive sections of a database are entered by one operation at a time",
  """Flush, sync, reclaim and similar sections marked by a busy flag are entered only by the thread that turned the flag
  from free to taken, in one mode everywhere, and are left exactly once by the same thread, on every outcome. So two of
  them never run together, and none stays locked after an error.""",
  "schedules", "for every interleaving and outcome of the sections",
  "Two threads must ask at the same instant, or the section must fail half-way.",
  "src/log_mgr.h src/log_mgr.cc src/table_mgr.cc src/global_batch.cc",
  [("OpSema, OpSemaWrapper", "src/log_mgr.h"), ("doLogReclaim, flush, sync", "src/log_mgr.cc")],
  "typestate analysis of the section guard, balance analysis of hand-locked mutexes",
  "")

P("L03", "Shared data is used only under the lock that protects it",
  """Containers and plain fields shared between threads are read and written only while holding the lock that protects
  them, or before the object is visible to other threads.""",
  "schedules", "for every interleaving of threads using an object",
  "A data race shows as rare corruption; the tests are mostly single-threaded.",
  "src/memtable.cc src/db_mgr.cc src/table_mgr.cc src/log_manifest.cc src/table_manifest.cc src/worker_mgr.cc src/logger.cc src/table_file.cc src/bloomfilter.cc src/sampler.cc",
  [("guarded fields", "src/*.h")],
  "lockset dataflow over the interprocedural control flow, guards inferred from the majority of accesses",
  "The lock protecting a field is the one held by most of its accesses; initialisation and destruction are set aside, listed in the rule.")

P("L05", "Operations that rely on their caller's lock run only with it held",
  """Storing a manifest, flushing and syncing log data, removing logs and tables, moving data down and assigning log
  numbers run only while the lock or section that excludes conflicting work is held, on every call path.""",
  "schedules", "for every call path to each such operation",
  "The lock protects against an operation the test does not run at the same time.",
  "src/log_mgr.cc src/log_manifest.cc src/table_manifest.cc src/table_mgr.cc src/table_compaction.cc src/table_split.cc",
  [("syncInternal, addNewLogFile", "src/log_mgr.cc"), ("removeTableFile, getTablesRange", "src/table_compaction.cc"), ("storeInternal", "src/log_manifest.cc")],
  "must-held lockset analysis of every calling context",
  "The operations and the lock each needs are a table in the rule.")

P("W02", "A wake-up of a waiting thread is never lost",
  """A thread that waits for an event returns once the event has been signalled, whether before or after it began to
  wait, and the waker never misses a thread that is about to sleep; a wake-up is forgotten only before the waiter looks
  again at what it waits for.""",
  "schedules", "for every interleaving of waiter and waker",
  "The window between announcing the wait and sleeping is a few instructions.",
  "src/event_awaiter.h src/simple_thread_pool.h src/worker_mgr.cc",
  [("EventAwaiter", "src/event_awaiter.h"), ("loop", "src/worker_mgr.cc")],
  "typestate analysis of the event word over every path",
  "Assumes one waiter per event, which is how events are used.")

P("W03", "Background workers start, stop and run tasks exactly once",
  """Only the thread of a worker turns it busy and idle, a request to stop is never overwritten, the owner wakes the worker
  and waits for its end before freeing it, and a scheduled task runs or is cancelled, never both and never twice. A worker is
registered once, and waking workers by name reaches exactly those meant.""",
  "schedules", "for every interleaving of stopping, waking and running workers and tasks",
  "A stop request must arrive at the moment the worker goes idle.",
  "src/worker_mgr.cc src/worker_mgr.h src/simple_thread_pool.h",
  [("WorkerBase::loop, destroy", "src/worker_mgr.cc"), ("TaskHandle", "src/simple_thread_pool.h")],
  "typestate analysis of worker, registry and task states over every path",
  "")

P("R01", "Removed log and table files are destroyed once, by their last user",
  """A log or table that was removed while in use is destroyed by whoever gives the last reference back, exactly once, and
  nobody touches it after having given its reference back.""",
  "schedules", "for every interleaving of users giving references back",
  "Two users must finish at the same moment after a removal.",
  "src/log_manifest.h src/table_manifest.h",
  [("LogFileInfo::done", "src/log_manifest.h"), ("TableInfo::done", "src/table_manifest.h")],
  "reference-count typestate over every path of the release functions",
  "")

P("A01", "A batch over several databases becomes visible everywhere at once",
  """While an atomic batch is written, no other writer reaches any database of the batch, and each database hides the new
  records until all of the batch is in place in all databases. Then everything becomes visible at one instant, and every
  lock and barrier is taken back on every outcome, errors included.""",
  "schedules fault_sequences", "for every set of databases, interleaving of readers and writers, and failing step",
  "A reader must look in the middle of the batch; an error must strike after some databases are written.",
  "src/global_batch.cc src/log_mgr.cc include/libjungle/global_batch.h",
  [("GlobalBatchExecutor::execute", "src/global_batch.cc"), ("LogMgr::setMulti, setMultiInternal", "src/log_mgr.cc")],
  "typestate of lock, barrier and batch status over every path, order analysis of the comparator of databases",
  "One database of the batch is followed through the loops at a time; databases are told apart by the key of the container.")

P("A02", "Readers never see part of a batch that is still being written",
  """Point reads, nearest-key reads, iterators, snapshots and the reported newest number never reach past the barrier of a
  batch in progress, and each asks for the barrier only after it has read the newest number it would use.""",
  "schedules", "for every interleaving of a reader with a batch",
  "A reader must run between two records of the same batch.",
  "src/log_mgr.cc src/log_iterator.cc src/db_internal.h src/jungle.cc",
  [("getVisibleSeqBarrier users", "src/log_mgr.cc"), ("initInternal", "src/log_iterator.cc")],
  "bounded-value dataflow: every sequence number used for reading is the smaller of itself and the barrier",
  "Not decided: a number read before the barrier was set and used after it was lifted.")

P("T01", "The tree that merges iterators keeps order, links and balance",
  """Whatever was inserted and removed before, the tree holds exactly the inserted nodes that were not removed, in the order
  of its comparison, every parent link names the node above, and it is balanced. Exact, nearest-greater and nearest-smaller
  search, first, last, next and previous return the node that order defines, and none only if there is none; inserting an
  equal key changes nothing and returns the node already there.""",
  "inputs histories", "for every tree, key and history of insertions and removals",
  "Rotations at particular shapes deep in the tree; a wrong parent link shows only at a later step in the other direction.",
  "src/avltree.cc src/avltree.h",
  [("avl_insert, avl_remove", "src/avltree.cc"), ("avl_search_greater, avl_search_smaller, avl_next, avl_prev", "src/avltree.cc")],
  "shape analysis: abstract interpretation of trees with summaries for subtrees and paths, relative heights, in-order sequence",
  "The comparison is assumed to be a total order that does not change while nodes are in the tree; nodes inserted are not in a tree.")

P("O01", "Keys and records have one total order, and the user's comparator decides it",
  """Every comparison used by the ordered containers and merge steps is one consistent total order: exchanging the two
  elements reverses the result, equal means equal, the first difference decides and always in the same direction, for keys
  and sequence numbers of any size and content. Byte-wise comparison reads only bytes both keys have and puts a prefix
  first. Where the user set a comparator it alone decides between two keys.""",
  "inputs", "for every pair of keys, records, sizes and sequence numbers",
  "Sizes or numbers must be very far apart, or one key a prefix of the other, or a comparator set.",
  "include/libjungle/sized_buf.h src/memtable.cc src/log_manifest.h src/table_manifest.h src/table_iterator.cc src/log_iterator.cc src/iterator.cc src/global_batch.cc src/db_mgr.h",
  [("SizedBuf::cmp", "include/libjungle/sized_buf.h"), ("MemTable::RecNode::cmpKey", "src/memtable.cc"), ("cmpSizedBuf", "src/iterator.cc")],
  "evaluation of every comparison function on symbolic elements with case splitting, tested against the laws of an order",
  "Whether each caller picks a function that honours the comparator is not decided here.")

P("O02", "Keys, values and records own their memory exactly once",
  """A buffer that owns memory is released exactly once and by the allocator it came from; copying gives independent memory
  with the same size and bytes, referencing never takes ownership, moving leaves the source empty, and clearing leaves no
  pointer to released memory. Every part of a record (key, value, metadata, sequence number, type) goes along in a copy or move.""",
  "inputs histories", "for every state of the buffers involved and every member function",
  "A leak or a stale pointer is invisible until the memory is reused.",
  "include/libjungle/sized_buf.h include/libjungle/keyvalue.h include/libjungle/record.h",
  [("SizedBuf", "include/libjungle/sized_buf.h"), ("Record::copyTo, moveTo, free", "include/libjungle/record.h")],
  "symbolic execution of every member function from each ownership state against a contract",
  "Callers that forget to release a buffer are not decided here.")

P("M01", "A memory table iterator stays in its range and misses nothing in it",
  """An iterator over one memory table only ever stands on a record inside the range it was opened with and visible to its
  snapshot, and each step, seek or jump brings it to the nearest such record in the direction asked, deletions included.
  It reports the end only when no such record is left that way, and then has not moved. It returns the version the
  snapshot sees of the record it stands on.""".replace("asked, deletions included.\n  It reports", "asked, deletions included,\n  reporting"),
  "inputs histories", "for every table content, range, snapshot, comparator, position and sequence of moves",
  "Boundaries, invisible versions and the far end must coincide; tests open ranges that begin and end on visible records.",
  "src/memtable_iterator.cc src/memtable.h src/log_iterator.cc",
  [("MemTable::Iterator", "src/memtable_iterator.cc"), ("LogMgr::Iterator::next, prev", "src/log_iterator.cc")],
  "path-sensitive abstract interpretation with an order domain: where each node comes from, how it compares to the bounds",
  "The skip list search and step functions are taken at their contracts (K01 to K05 decide those); the merge over tables is M02.")

P("M02", "Merged iteration yields each key once, in order, at its newest version",
  """Each step of an iterator over the logs, the tables or the whole database goes to the nearest record beyond the position
  among all its sources, the newest version of that key, never a deleted key and never one already returned; no source is
  dropped, moved too far or left behind, also when the direction changes. A seek brings every source to what was asked for
  and stops at the nearest record in that direction, or at the other end if there is none.""",
  "inputs histories", "for every number of sources, content, position, flags left by earlier moves, and move",
  "Needs particular overlaps of keys between sources, and direction changes at their ends; tests step through few shapes.",
  "src/iterator.cc src/log_iterator.cc src/table_iterator.cc",
  [("Iterator::next, prev, seekInternal", "src/iterator.cc"), ("LogMgr::Iterator", "src/log_iterator.cc"), ("TableMgr::Iterator", "src/table_iterator.cc")],
  "path-sensitive abstract interpretation of the merge step: order domain, tree membership and flags of each source",
  "The sources are taken at their contracts (M01); the tree at its own (T01); which log and table files are opened is not decided here.")

P("C01", "Stored checksums are verified over all bytes read before anything is used",
  """Loading a log file, a log manifest, a table manifest or the database manifest compares every checksum stored with the
  content against one computed over all the bytes that were read, before any of it becomes visible. A difference makes the
  load fail; it is never taken for content. What is written carries checksums over exactly the bytes put next to them.""",
  "inputs fault_sequences", "for every file content, every field and length read from it, every path of load and store",
  "Needs a corrupted byte in one particular field; tests read back intact files.",
  "src/memtable.cc src/log_manifest.cc src/table_manifest.cc src/db_manifest.cc",
  [("MemTable::loadRecord, flush", "src/memtable.cc"), ("LogManifest::load, store", "src/log_manifest.cc"),
   ("TableManifest::load, store", "src/table_manifest.cc"), ("DBManifest::load, store", "src/db_manifest.cc")],
  "path automaton on every load: bytes read, bytes covered, comparison, use; syntactic coverage of the writers",
  "Decompression of a record runs before its data checksum is compared; the length fields are covered by their own checksum.")

P("C02", "The checksum is the CRC-32 of exactly the given bytes",
  """For every buffer, length and start value both checksum implementations return the CRC-32 (polynomial EDB88320) of
  exactly those bytes continued from the start value. Nothing outside the buffer is read.""",
  "inputs", "for every length, content, start value and implementation",
  "A wrong table entry or a lost tail shows for particular bytes or lengths only; tests use a few buffers.",
  "src/crc32.cc",
  [("crc32_1, crc32_8", "src/crc32.cc")],
  "abstract interpretation of the compiled loops: XOR-linear words per bit, affine counters, tables compared entry by entry",
  "The unused variant over the last eight bytes is not decided; alignment of 4-byte loads is the processor's.")

# ---- stated, but not claimed: static analysis does not decide them ----
P("Z01", "Concurrent reads and writes behave as if executed one at a time",
  """Every get and set takes effect at one moment between its call and its return, so a read returns the latest
acknowledged write to its key, whatever the interleaving with other readers, writers, flushes and compactions.""",
  "schedules histories", "for every interleaving of public operations and background work",
  "Interleavings are sampled by tests, never enumerated.",
  "src/log_mgr.cc src/table_mgr.cc src/memtable.cc src/db_internal.cc", [("DB::get, DB::set", "src/jungle.cc")],
  na="""The linearisation point of a read moves with the values met at run time (which log file or table still holds the key while
a flush retires one and creates the other). What a sound argument over the source can reach is claimed separately: lock
discipline (L01-L05), list ownership and order (K01-K06), batch visibility (A01, A02), and retirement order (D03, D05).""")

P("Z02", "After a crash the database equals its acknowledged, synced history",
  """Whatever instruction the process dies at, reopening yields every synced write, no write that was never made, and a
prefix of the unsynced ones in their order.""",
  "crash_points histories", "for every history and every crash point",
  "A test crashes at few points with few histories.",
  "src/log_file.cc src/log_mgr.cc src/memtable.cc src/table_mgr.cc", [("LogMgr::init", "src/log_mgr.cc"), ("MemTable::loadRecord", "src/memtable.cc")],
  na="""Equality of contents over histories quantifies over run-time data (file contents, sequence numbers and flush boundaries).
The static necessary conditions are claimed: write/sync/retire order (D01-D07), error reporting on reload (E05, E06),
checksums (C01), and the encodings (S01, S02).""")

P("Z03", "Flush, compaction, split and merge leave the visible contents unchanged",
  """No reorganisation of logs and tables changes the result of any read, snapshot or iterator: the newest version of every
live key stays, deleted keys stay deleted.""",
  "inputs histories", "for every content of the tables involved",
  "The contents that matter (tombstones across levels, equal keys at boundaries) are sampled.",
  "src/table_compaction.cc src/table_mgr.cc src/compactor.cc", [("TableMgr::compactLevelItr, splitLevel, mergeLevel", "src/table_compaction.cc")],
  na="""Which version of a key survives depends on the key ranges and sequence numbers of tables at run time and on ForestDB, which is
not part of this tree. Claimed instead: no record is dropped on any path by an error or an early exit (D05, D06, E03) and
merging takes the newest version of each key (M02).""")

P("Z04", "A snapshot or iterator keeps showing the state it was opened on",
  """Whatever is written, flushed, compacted or rolled back afterwards, a snapshot and an iterator show exactly the records
visible when they were opened.""",
  "schedules histories", "for every later history",
  "Later histories are sampled.",
  "src/jungle.cc src/iterator.cc src/log_manifest.cc src/table_manifest.cc", [("DB::openSnapshot", "src/jungle.cc")],
  na="""The set of versions shown is a function of sequence numbers and of ForestDB snapshots at run time. Claimed instead: the files
an iterator uses are held by references (R01), range limits are applied on every path (M01), and no half-visible batch is
shown (A02).""")

P("Z05", "Background work keeps levels, log files and stale space within their limits",
  """As long as background work runs, the number of log files, the sizes of levels and the share of stale data come back under
the configured limits, and throttling ends.""",
  "histories configurations", "for every workload and configuration",
  "Limits are reached only by long workloads.",
  "src/compactor.cc src/flusher.cc src/table_lookup_booster.cc src/db_config.cc", [("Compactor::work", "src/compactor.cc"), ("WriteBackFlusher", "src/flusher.cc")],
  na="""Sizes, ratios and durations are run-time quantities: progress and its bounds follow from arithmetic on measured sizes and from timing,
for which there is no sound static bound. That wake-ups are not lost and workers run is claimed (W02, W03).""")
