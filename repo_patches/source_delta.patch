From 06f030a417eee81239473ec585a3b1028812fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:29 +0000
Subject: [PATCH 01/50] fix: report ftruncate and fsync failures of backup
 files

---
 src/internal_helper.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 56157af..7f44684 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -287,9 +287,9 @@ Status BackupRestore::copyFile(FileOps* f_ops,
 
     TC( f_ops->pread(s_file, tmp_buf.data, tmp_buf.size, 0) );
     TC( f_ops->pwrite(d_file, tmp_buf.data, tmp_buf.size, 0) );
-    f_ops->ftruncate(d_file, file_size);
+    TC( f_ops->ftruncate(d_file, file_size) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
 
     f_ops->close(s_file);
@@ -339,9 +339,9 @@ Status BackupRestore::backup(FileOps* f_ops,
                            length - bytes_to_skip,
                            bytes_to_skip ) );
     }
-    f_ops->ftruncate(d_file, length);
+    TC( f_ops->ftruncate(d_file, length) );
     if (call_fsync) {
-        f_ops->fsync(d_file);
+        TC( f_ops->fsync(d_file) );
     }
     f_ops->close(d_file);
     delete d_file;
@@ -388,11 +388,11 @@ Status BackupRestore::backup(FileOps* f_ops,
                         bytes_to_skip ) );
     }
     if (file_size > length) {
-        f_ops->ftruncate(*file, length);
+        TC( f_ops->ftruncate(*file, length) );
     }
 
     if (call_fsync) {
-        f_ops->fsync(*file);
+        TC( f_ops->fsync(*file) );
     }
     return s;
    } catch (Status s) {
-- 
2.43.0


From e3101c98cbd30bab1c138a9075a8dd77e836b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:37 +0000
Subject: [PATCH 02/50] fix: report failures while creating and storing the DB
 manifest

---
 src/db_manifest.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index e0e5fb9..18df59a 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -58,9 +58,9 @@ Status DBManifest::create(const std::string& path,
     // Create a new file.
     Status s;
     _log_info(myLog, "Create new DB manifest %s", mFileName.c_str());
-    fOps->open(&mFile, mFileName.c_str());
+    EP( fOps->open(&mFile, mFileName.c_str()) );
 
-    store(false);
+    EP( store(false) );
 
     return Status();
 }
@@ -178,10 +178,10 @@ Status DBManifest::store(bool call_fsync)
     EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
 
     // Should truncate tail.
-    fOps->ftruncate(mFile, ss.pos());
+    EP( fOps->ftruncate(mFile, ss.pos()) );
 
     if (call_fsync) {
-        fOps->fsync(mFile);
+        EP( fOps->fsync(mFile) );
     }
 
     // After success, make a backup file one more time,
-- 
2.43.0


From ec87fba28ae217f4c760cc9ec42ac5eb52fb825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:41 +0000
Subject: [PATCH 03/50] fix: LogMgr reports manifest store and log file
 creation failures

---
 src/log_mgr.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index b881730..aca6bb8 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -160,13 +160,13 @@ Status LogMgr::init(const LogMgrOptions& lm_opt) {
        }
 
         // Sync manifest file.
-        mani->store(true);
+        TC( mani->store(true) );
     }
     mani->setLogger(myLog);
 
     logMgrSettings();
 
-    removeStaleFiles();
+    TC( removeStaleFiles() );
 
     if (mani->getNumLogFiles() == 0) {
         // No valid log file exists. Start from zero.
@@ -319,7 +319,7 @@ Status LogMgr::rollback(uint64_t seq_upto) {
 
     // Adjust manifest, and store.
     mani->setLastSyncedLog(linfo->logFileNum);
-    mani->store(true);
+    EP( mani->store(true) );
     _log_info(myLog, "[ROLLBACK] now %zu is the last seqnum", seq_upto);
 
     DBMgr::get()->forceRemoveFiles();
@@ -367,7 +367,8 @@ Status LogMgr::removeStaleFiles() {
 
     if (need_mani_sync) {
         // Should sync manifest file.
-        mani->store(true);
+        Status s;
+        EP( mani->store(true) );
         _log_info(myLog, "done manifest sync for stale file removal");
     }
 
@@ -512,12 +513,18 @@ Status LogMgr::addNewLogFile(LogFileInfoGuard& cur_log_file_info,
         LogFile* l_new_file = new LogFile(this);
         l_new_file->setLogger(myLog);
         uint64_t start_seqnum = cur_log_file_info->file->getMaxSeqNum() + 1;
-        l_new_file->create( l_filename,
-                            opt.dbConfig->directIoOpt.enabled
-                                && FileOps::supportDirectIO()
-                            ? opt.fDirectOps : opt.fOps,
-                            new_log_num,
-                            start_seqnum );
+        s = l_new_file->create( l_filename,
+                                opt.dbConfig->directIoOpt.enabled
+                                    && FileOps::supportDirectIO()
+                                ? opt.fDirectOps : opt.fOps,
+                                new_log_num,
+                                start_seqnum );
+        if (!s) {
+            _log_err(myLog, "failed to create log file %ld: %d",
+                     new_log_num, (int)s);
+            delete l_new_file;
+            return s;
+        }
         mani->addNewLogFile(new_log_num, l_new_file, start_seqnum);
         s = mani->setMaxLogFileNum(log_file_num, new_log_num);
         assert(s);
@@ -645,7 +652,7 @@ Status LogMgr::setSN(const Record& rec) {
     if ( !g_li->file->isValidToWrite() &&
          ( !getDbConfig()->allowOverwriteSeqNum ||
            !overwrite ) ) {
-        addNewLogFile(g_li, g_li);
+        EP( addNewLogFile(g_li, g_li) );
 
         DBMgr* dbm = DBMgr::getWithoutInit();
         if (dbm && dbm->isDebugCallbackEffective()) {
-- 
2.43.0


From 4e12134649f3a36f0a825494a940078f89e2d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:03 +0000
Subject: [PATCH 04/50] fix: release log file references of removed files in
 retry loops

---
 src/log_mgr.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index aca6bb8..4848f25 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -545,6 +545,10 @@ Status LogMgr::addNewLogFile(LogFileInfoGuard& cur_log_file_info,
 
     LogFileInfo* lf_info = nullptr;
     do {
+        // The file grabbed in the previous turn has been removed, release it.
+        if (lf_info) lf_info->done();
+        lf_info = nullptr;
+
         mani->getMaxLogFileNum(new_log_num);
         lf_info = mani->getLogFileInfoP(new_log_num);
     } while (!lf_info || lf_info->isRemoved());
@@ -625,6 +629,10 @@ Status LogMgr::setSN(const Record& rec) {
     // Get latest log file.
     LogFileInfo* lf_info = nullptr;
     do {
+        // The file grabbed in the previous turn has been removed, release it.
+        if (lf_info) lf_info->done();
+        lf_info = nullptr;
+
         EP(mani->getMaxLogFileNum(max_log_file_num));
         log_file_num = max_log_file_num;
 
@@ -813,6 +821,10 @@ Status LogMgr::setMultiInternal(const std::list<Record>& batch,
     uint64_t max_log_file_num = 0;
     LogFileInfo* lf_info = nullptr;
     do {
+        // The file grabbed in the previous turn has been removed, release it.
+        if (lf_info) lf_info->done();
+        lf_info = nullptr;
+
         EP(mani->getMaxLogFileNum(max_log_file_num));
         lf_info = mani->getLogFileInfoP(max_log_file_num);
     } while (!lf_info || lf_info->isRemoved());
@@ -1888,7 +1900,11 @@ Status LogMgr::getMinSeqNum(uint64_t& seq_num_out) {
     EP(mani->getLastFlushedLog(ln_min));
     // WARNING: Should avoid file loading due to this call.
     lf_info = mani->getLogFileInfoP(ln_min, true);
-    if (!lf_info || lf_info->isRemoved()) continue;
+    if (!lf_info) continue;
+    if (lf_info->isRemoved()) {
+        lf_info->done();
+        continue;
+    }
     min_seq = lf_info->file->getFlushedSeqNum();
     break;
    }
-- 
2.43.0


From 0f3b380160b3302ab2238843382a1facb35f1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:38 +0000
Subject: [PATCH 05/50] fix: report write, commit and read failures of table
 files and their compaction

---
 src/table_file.cc            | 39 +++++++++---------
 src/table_file_compaction.cc | 76 +++++++++++++++++++++++++++---------
 2 files changed, 79 insertions(+), 36 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 4742da0..8b1d66a 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -219,7 +219,7 @@ Status TableFile::FdbHandle::close() {
         db = nullptr;
     }
     if (dbFile) {
-        fdb_close(dbFile);
+        fs = fdb_close(dbFile);
         if (fs != FDB_RESULT_SUCCESS) return Status::FDB_CLOSE_FAIL;
         dbFile = nullptr;
     }
@@ -376,7 +376,7 @@ Status TableFile::create(size_t level,
         // Previous file exists, which means that there is a legacy log file.
         // We should overwrite it.
         _log_warn(myLog, "table %s already exists, remove it", filename.c_str());
-        fOps->remove(filename);
+        EP( fOps->remove(filename) );
     }
 
     const DBConfig* db_config = tableMgr->getDbConfig();
@@ -393,7 +393,7 @@ Status TableFile::create(size_t level,
         bfByKey = new BloomFilter(bf_bitmap_size, 3);
 
         // Initial save.
-        saveBloomFilter(filename + ".bf", bfByKey, true);
+        EP( saveBloomFilter(filename + ".bf", bfByKey, true) );
     }
 
     // Lookup booster.
@@ -401,7 +401,7 @@ Status TableFile::create(size_t level,
 
     // Initial commit.
     EP( writer->commit() );
-    updateSnapshot();
+    EP( updateSnapshot() );
 
     return Status();
 }
@@ -438,7 +438,7 @@ Status TableFile::load(size_t level,
     initBooster(level, db_config);
 
     // Pre-load snapshot.
-    updateSnapshot();
+    EP( updateSnapshot() );
 
     return Status();
 }
@@ -474,8 +474,11 @@ Status TableFile::loadBloomFilter(const std::string& filename,
     uint32_t ver = ss.getU32(s);
     (void)ver;
     uint32_t data_size = ss.getU32();
-    (void)data_size;
-    assert(data_size == buf.size);
+    if (data_size != buf.size) {
+        // Truncated or corrupted file: do not use it.
+        buf.free();
+        throw Status(Status::FILE_CORRUPTION);
+    }
 
     TC( fOps->pread(b_file, buf.data, data_size, header.size) );
     bf_out = new BloomFilter(0, 3);
@@ -513,16 +516,16 @@ Status TableFile::saveBloomFilter(const std::string& filename,
     ss.putU32(data_size);
     TC( fOps->pwrite(b_file, buf.data, buf.size, 0) );
     TC( fOps->pwrite(b_file, bf->getPtr(), data_size, buf.size) );
-    if (call_fsync) fOps->fsync(b_file);
+    if (call_fsync) { TC( fOps->fsync(b_file) ); }
 
     EP( fOps->close(b_file) );
     DELETE(b_file);
     return Status::OK;
 
    } catch (Status s) {
-    EP( fOps->close(b_file) );
+    fOps->close(b_file);
     DELETE(b_file);
-    return Status::OK;
+    return s;
    }
 }
 
@@ -944,6 +947,7 @@ Status TableFile::setBatch(std::list<Record*>& batch,
                            bool bulk_load_mode)
 {
     Timer tt;
+    Status s;
     const DBConfig* db_config = tableMgr->getDbConfig();
 
     uint64_t prev_seqnum = 0;
@@ -972,13 +976,12 @@ Status TableFile::setBatch(std::list<Record*>& batch,
 
         // Append all checkpoints that
         //  `record[n-1] seqnum <= chk < record[n] seqnum`
-        setCheckpoint(rec, prev_seqnum, checkpoints);
+        EP( setCheckpoint(rec, prev_seqnum, checkpoints) );
 
         if (rec->isCmd()) continue;
 
         uint64_t offset_out = 0;
-        Status s = setSingle(hash_val, *rec, offset_out);
-        if (!s) return s;
+        EP( setSingle(hash_val, *rec, offset_out) );
 
         if (rec->isDel()) del_count++;
         else set_count++;
@@ -989,27 +992,27 @@ Status TableFile::setBatch(std::list<Record*>& batch,
         if ( db_config->preFlushDirtySize &&
              db_config->preFlushDirtySize < total_dirty ) {
             Timer flush_time;
-            fdb_sync_file(writer->dbFile);
+            EP( sync() );
             total_dirty = 0;
             time_for_flush_us += flush_time.getUs();
         }
     }
 
     // Set all remaining (record[n] <= chk) checkpoints.
-    setCheckpoint(nullptr, prev_seqnum, checkpoints, true);
+    EP( setCheckpoint(nullptr, prev_seqnum, checkpoints, true) );
 
     // Save bloom filter.
     // WARNING: Writing bloom filter SHOULD BE DONE BEFORE COMMIT.
     Timer tt_bf;
-    if (bfByKey) saveBloomFilter(filename + ".bf", bfByKey, true);
+    if (bfByKey) { EP( saveBloomFilter(filename + ".bf", bfByKey, true) ); }
     uint64_t bf_elapsed = tt_bf.getUs();
 
     if (!bulk_load_mode) {
         // Commit and update index node (not in bulk load mode).
-        writer->commit();
+        EP( writer->commit() );
 
         // Pre-load & keep the snapshot of latest table file data.
-        updateSnapshot();
+        EP( updateSnapshot() );
     }
 
     SimpleLogger::Levels ll = SimpleLogger::INFO;
diff --git a/src/table_file_compaction.cc b/src/table_file_compaction.cc
index d204cc0..67856de 100644
--- a/src/table_file_compaction.cc
+++ b/src/table_file_compaction.cc
@@ -38,15 +38,13 @@ Status TableFile::compactTo(const std::string& dst_filename,
     const DBConfig* db_config = tableMgr->getDbConfig();
 
     FdbHandle* compact_handle = new FdbHandle(this, db_config, myOpt);
+    GcDelete<FdbHandle*> gc_compact_handle(compact_handle);
     EP( openFdbHandle(db_config, filename, compact_handle) );
 
-    s = compactToManually( compact_handle,
-                           dst_filename,
-                           options,
-                           dst_handle_out );
-
-    delete compact_handle;
-    return s;
+    return compactToManually( compact_handle,
+                              dst_filename,
+                              options,
+                              dst_handle_out );
 }
 
 // Check
@@ -205,7 +203,9 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
         } else {
             // WARNING: SHOULD KEEP THE SAME SEQUENCE NUMBER!
             ret_doc->flags = FDB_CUSTOM_SEQNUM;
-            fdb_set(dst_handle->db, ret_doc);
+            if (fdb_set(dst_handle->db, ret_doc) != FDB_RESULT_SUCCESS) {
+                s = Status::FDB_SET_FAIL;
+            }
             cnt++;
             total_dirty += ret_doc->keylen + ret_doc->metalen + ret_doc->bodylen;
 
@@ -220,6 +220,7 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
         free(ret_doc->key);
         free(ret_doc->meta);
         free(ret_doc->body);
+        if (!s) return false;
 
         if (!tableMgr->isCompactionAllowed()) {
             s = Status::COMPACTION_CANCELLED;
@@ -237,7 +238,10 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
             //   it makes the amount of IO (per second) higher again,
             //   which is against the purpose of pre-flushing.
             Timer flush_time;
-            fdb_sync_file(dst_handle->dbFile);
+            if (fdb_sync_file(dst_handle->dbFile) != FDB_RESULT_SUCCESS) {
+                s = Status::FDB_COMMIT_FAIL;
+                return false;
+            }
             sync_timer.reset();
             throttling_timer.reset();
             total_dirty = 0;
@@ -270,7 +274,8 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
             offsets.push_back(params.offset);
             return TableFile::IndexTraversalDecision::NEXT;
         };
-        traverseIndex(nullptr, SizedBuf(), it_cb);
+        s = traverseIndex(nullptr, SizedBuf(), it_cb);
+        if (!s) offsets.clear();
         uint64_t fs_us = std::max( tt.getUs(), (uint64_t)1 );
         _log_info( myLog, "fast scanning took %zu us, %.1f iops",
                    fs_us, offsets.size() * 1000000.0 / fs_us );
@@ -288,7 +293,11 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
             tmp_doc.offset = cur_offset;
 
             fs = fdb_get_byoffset_raw(compact_handle->db, &tmp_doc);
-            if (fs != FDB_RESULT_SUCCESS) break;
+            if (fs != FDB_RESULT_SUCCESS) {
+                // Should not drop the rest of records silently.
+                s = toJungleStatus(fs);
+                break;
+            }
 
             if (!write_to_new_file(&tmp_doc)) {
                 break;
@@ -315,7 +324,17 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
                 break;
             }
 
-        } while (fdb_iterator_next(itr) == FDB_RESULT_SUCCESS);
+            fs = fdb_iterator_next(itr);
+        } while (fs == FDB_RESULT_SUCCESS);
+
+        // Reaching the end is not an error, but the others are:
+        // should not drop the rest of records silently.
+        if ( s.ok() &&
+             fs != FDB_RESULT_SUCCESS &&
+             fs != FDB_RESULT_ITERATOR_FAIL &&
+             fs != FDB_RESULT_KEY_NOT_FOUND ) {
+            s = toJungleStatus(fs);
+        }
     }
 
     uint64_t elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
@@ -331,10 +350,14 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
 
     // WARNING: Should be done before commit.
     if (dst_bf) {
-        saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        if (s) {
+            s = saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        }
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    if (s) {
+        s = dst_handle->commit();
+    }
 
     if (itr) {
         fs = fdb_iterator_close(itr);
@@ -495,7 +518,9 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         } else {
             // WARNING: SHOULD KEEP THE SAME SEQUENCE NUMBER!
             doc_chosen->flags = FDB_CUSTOM_SEQNUM;
-            fdb_set(dst_handle->db, doc_chosen);
+            if (fdb_set(dst_handle->db, doc_chosen) != FDB_RESULT_SUCCESS) {
+                s = Status::FDB_SET_FAIL;
+            }
             (*cnt)++;
             final_cnt++;
 
@@ -508,6 +533,12 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         }
         fdb_doc_free(doc_chosen);
 
+        if (!s) {
+            if (my_doc) fdb_doc_free(my_doc);
+            if (merge_doc) fdb_doc_free(merge_doc);
+            break;
+        }
+
         // Move iterator of choosen doc.
         if (!my_doc) {
             my_fs = fdb_iterator_next(my_itr);
@@ -526,7 +557,12 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
         }
 
         if (sync_timer.timeout()) {
-            fdb_sync_file(dst_handle->dbFile);
+            if (fdb_sync_file(dst_handle->dbFile) != FDB_RESULT_SUCCESS) {
+                s = Status::FDB_COMMIT_FAIL;
+                if (my_doc) fdb_doc_free(my_doc);
+                if (merge_doc) fdb_doc_free(merge_doc);
+                break;
+            }
             sync_timer.reset();
         }
 
@@ -540,10 +576,14 @@ Status TableFile::mergeCompactTo(const std::string& file_to_merge,
 
     // WARNING: Should be done before commit.
     if (dst_bf) {
-        saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        if (s) {
+            s = saveBloomFilter(dst_filename + ".bf", dst_bf, true);
+        }
         DELETE(dst_bf);
     }
-    dst_handle->commit();
+    if (s) {
+        s = dst_handle->commit();
+    }
 
     // Close iterator first.
     gc_my_itr.gcNow();
-- 
2.43.0


From dae695a9dc061f211161c500f2ad896633ddda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:50 +0000
Subject: [PATCH 06/50] fix: log manifest rewrites the whole file after a
 failed write

---
 src/log_manifest.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 2d0708e..4d0394a 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -589,10 +589,17 @@ Status LogManifest::storeInternal(bool call_fsync) {
     }
 
     if (ss.pos() > first_diff_pos) {
-        EP( fOps->pwrite( mFile,
+        s = fOps->pwrite( mFile,
                           mani_buf.data + first_diff_pos,
                           ss.pos() - first_diff_pos,
-                          first_diff_pos ) );
+                          first_diff_pos );
+        if (!s) {
+            // The file may have been partially written,
+            // the next store should write the entire data.
+            lenCachedManifest = 0;
+            fullBackupRequired = true;
+            return s;
+        }
     }
     _log_trace(myLog, "new buffer size %zu, cached %zu, first diff %zu",
                ss.pos(), lenCachedManifest, first_diff_pos);
@@ -609,7 +616,13 @@ Status LogManifest::storeInternal(bool call_fsync) {
 
     // Should truncate tail.
     if (need_truncate) {
-        fOps->ftruncate(mFile, ss.pos());
+        s = fOps->ftruncate(mFile, ss.pos());
+        if (!s) {
+            // Same as above.
+            lenCachedManifest = 0;
+            fullBackupRequired = true;
+            return s;
+        }
     }
 
     bool backup_done = false;
-- 
2.43.0


From 31ee2d834876ebd6725de121730efab643621bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:50 +0000
Subject: [PATCH 07/50] fix: do not release the same log files twice on
 snapshot retry

---
 src/log_mgr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 4848f25..a9884e1 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -429,6 +429,7 @@ Status LogMgr::openSnapshot(DB* snap_handle,
                     item->done();
                 }
             }
+            l_list->clear();
             if (s) {
                 if (log_store_mode) {
                     l_info->doneForSnapshot();
-- 
2.43.0


From 463ba389e8f7ba75393303e19c8d880254e73d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:50 +0000
Subject: [PATCH 08/50] fix: table manifest reports write and table file load
 failures

---
 src/table_manifest.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index e52cc1b..d73f867 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -211,7 +211,14 @@ Status TableManifest::load(const std::string& path,
                                      ( dirPath, prefix_num, table_number );
 
             TableFileOptions t_opt;
-            t_file->load(ii, table_number, t_filename, fOps, t_opt);
+            s = t_file->load(ii, table_number, t_filename, fOps, t_opt);
+            if (!s) {
+                _log_fatal( myLog, "failed to load table file %s: %d",
+                            t_filename.c_str(), (int)s );
+                delete t_file;
+                delete t_info;
+                throw s;
+            }
 
             // Checkpoints.
             t_file->loadCheckpoints(ss);
@@ -286,7 +293,10 @@ Status TableManifest::store(bool call_fsync) {
 
     Status s;
 
-    RwSerializer ss(fOps, mFile);
+    SizedBuf mani_buf(4096);
+    SizedBuf::Holder h_mani_buf(mani_buf);
+    // Resizable serializer.
+    RwSerializer ss(&mani_buf);
 
     //   << Table manifest file format >>
     // Latest table file number,        8 bytes
@@ -374,19 +384,14 @@ Status TableManifest::store(bool call_fsync) {
     ss.putU32(TABMANI_VERSION);
 
     // CRC32
-    size_t ctx_size = ss.pos();
-
-    // Read whole file.
-    RwSerializer ss_read(fOps, mFile);
-    SizedBuf temp_buf(ctx_size);
-    SizedBuf::Holder h_temp_buf(temp_buf);
-    ss_read.get(temp_buf.data, temp_buf.size);
-    uint32_t crc_val = crc32_8(temp_buf.data, temp_buf.size, 0);
+    uint32_t crc_val = crc32_8(mani_buf.data, ss.pos(), 0);
 
     ss.putU32(crc_val);
 
+    EP( fOps->pwrite(mFile, mani_buf.data, ss.pos(), 0) );
+
     // Should truncate tail.
-    fOps->ftruncate(mFile, ss.pos());
+    EP( fOps->ftruncate(mFile, ss.pos()) );
 
     if (call_fsync) {
         s = fOps->fsync(mFile);
-- 
2.43.0


From 19213908601a7bc140eef137cf5d0e69b26a8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:50 +0000
Subject: [PATCH 09/50] fix: compaction, split and merge do not drop the victim
 after a failed write

---
 src/table_compaction.cc | 78 ++++++++++++++++++++++++++++----------
 src/table_mgr.cc        | 22 +++++++----
 src/table_mgr.h         | 36 +++++++++---------
 src/table_set_batch.cc  | 83 ++++++++++++++++++++++++-----------------
 src/table_split.cc      | 60 +++++++++++++++++++----------
 src/table_writer.cc     |  4 +-
 src/table_writer.h      |  3 ++
 7 files changed, 184 insertions(+), 102 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index 3f16ab5..a2b1cd0 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -363,7 +363,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     if (db_config->fastIndexScan) {
         // Fast scanning by index traversal.
         _log_info(myLog, "do fast scan by index traversal");
-        local_victim->file->traverseIndex(nullptr, empty_key, it_cb);
+        TC( local_victim->file->traverseIndex(nullptr, empty_key, it_cb) );
 
     } else {
         // Normal scanning by iterator.
@@ -406,6 +406,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     size_t max_writers = getDbConfig()->getMaxParallelWriters();
     std::list<uint64_t> dummy_chk;
     std::list<LsmFlushResult> results;
+    // The first error among all writers.
+    Status s_write;
 
     if (num_new_tables) {
         // Extend new level if needed.
@@ -432,7 +434,10 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             if (!new_tables[jj]->table) {
                 TableFileOptions t_opt;
                 s = createNewTableFile(level + 1, cur_file, t_opt);
-                if (!s) continue;
+                if (!s) {
+                    if (s_write) s_write = s;
+                    continue;
+                }
             } else {
                 cur_file = new_tables[jj]->table->file;
             }
@@ -444,6 +449,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             uint64_t count = (jj + 1 == num_new_tables)
                              ? offsets.size() - new_tables[jj]->index
@@ -468,6 +474,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (s_write) s_write = w_args->result;
             }
         }
 
@@ -479,6 +486,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (s_write) s_write = w_args->result;
         }
 
         if (!isCompactionAllowed()) {
@@ -487,6 +495,12 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             throw Status(Status::COMPACTION_CANCELLED);
         }
 
+        if (!s_write) {
+            // Some records are not written: should not remove the victim.
+            for (LsmFlushResult& rr: results) delete rr.tFile;
+            throw s_write;
+        }
+
         ii += leased_writers + 1;
     }
 
@@ -538,13 +552,16 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
         }
     }
 
+    // WARNING:
+    //   Manifest should be stored BEFORE releasing the victim table,
+    //   as its file will be removed once it is released.
+    s = mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
 
-    mani->store(true);
-
     // Update throttling rate.
     elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
     double write_rate = (double)num_records_read * 1000000 / elapsed_us;
@@ -559,7 +576,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
 
     for (TableInfo*& entry: tables) entry->done();
     for (RecGroupItr*& entry: new_tables) delete entry;
-    return Status();
+    return s;
 
    } catch (Status s) { // ------------------------------------------------
     _log_err(myLog, "compaction failed: %d", (int)s);
@@ -638,7 +655,7 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
         }
     }
 
-    mani->store(true);
+    s = mani->store(true);
 
     // Update throttling rate.
     uint64_t elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
@@ -647,7 +664,7 @@ Status TableMgr::migrateLevel(const CompactOptions& options,
                level, level+1, tables.size(), elapsed_us );
 
     for (TableInfo*& entry: tables) entry->done();
-    return Status();
+    return s;
 
    } catch (Status s) { // ------------------------------------------------
     _log_err(myLog, "compaction failed: %d", (int)s);
@@ -687,7 +704,7 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
 
     uint64_t dst_table_num = 0;
     std::string dst_filename;
-    EP( mani->issueTableNumber(dst_table_num) );
+    TC( mani->issueTableNumber(dst_table_num) );
     dst_filename = TableFile::getTableFileName(opt.path, opt.prefixNum, dst_table_num);
     _log_info(myLog, "destination table number %zu, filename %s",
               dst_table_num, dst_filename.c_str());
@@ -717,7 +734,11 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         delete newly_compacted_file;
         throw s;
     }
-    mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+    s = mani->addTableFile(level, 0, local_victim->minKey, newly_compacted_file);
+    if (!s) {
+        delete newly_compacted_file;
+        throw s;
+    }
 
     // Add special checkpoint 0, for base snapshot.
     uint64_t new_file_last_seqnum = 0;
@@ -732,17 +753,21 @@ Status TableMgr::compactInPlace(const CompactOptions& options,
         mani->removeTableFile(level, local_victim);
     }
 
+    // WARNING:
+    //   Manifest should be stored BEFORE releasing the victim table,
+    //   as its file will be removed once it is released.
+    s = mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
 
-    mani->store(true);
     _log_info(myLog, "in-place compaction at level %zu done, %zu us",
               level, tt.getUs());
 
     if (level == 1) numL1Compactions.fetch_sub(1);
-    return Status::OK;
+    return s;
 
    } catch (Status s) { // ------------------------------------
     // Close the destination handle.
@@ -779,6 +804,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     if (!compactStatus[hash_num]->compare_exchange_strong(exp, val)) {
         // Compaction is already in progress.
         _log_warn(myLog, "compaction hash %zu is in progress", hash_num);
+        for (TableInfo*& table: tables) table->done();
         return Status::OPERATION_IN_PROGRESS;
     }
 
@@ -847,8 +873,8 @@ Status TableMgr::compactL0(const CompactOptions& options,
                         TableFile::getBfSizeByLevel(db_config, 0);
                 }
             }
-            createNewTableFile(0, new_normal_file, t_opt);
-            EP( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
+            TC( createNewTableFile(0, new_normal_file, t_opt) );
+            TC( mani->addTableFile(0, hash_num, SizedBuf(), new_normal_file) );
             new_normal_table_num = new_normal_file->getNumber();
         }
 
@@ -913,7 +939,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     }
 
     // Store manifest file.
-    mani->store(true);
+    TC( mani->store(true) );
 
     if ( !dst_filename.empty() &&
          opt.fOps->exist(dst_filename) ) {
@@ -960,8 +986,17 @@ Status TableMgr::compactL0(const CompactOptions& options,
         // Open newly compacted file, and add it to manifest.
         TableFile* newly_compacted_file = new TableFile(this);
         newly_compacted_file->setLogger(myLog);
-        newly_compacted_file->load(0, dst_table_num, dst_filename, opt.fOps, t_opt);
-        mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
+        s = newly_compacted_file->load( 0, dst_table_num, dst_filename,
+                                        opt.fOps, t_opt );
+        if (s) {
+            s = mani->addTableFile(0, hash_num, SizedBuf(), newly_compacted_file);
+        }
+        if (!s) {
+            _log_err(myLog, "failed to load newly compacted file %s: %d",
+                     dst_filename.c_str(), (int)s);
+            delete newly_compacted_file;
+            throw s;
+        }
 
         // Add special checkpoint 0, for base snapshot.
         uint64_t new_file_last_seqnum = 0;
@@ -972,10 +1007,13 @@ Status TableMgr::compactL0(const CompactOptions& options,
         mani->removeTableFile(0, origin_table);
         if (merge_table) mani->removeTableFile(0, merge_table);
 
-        for (TableInfo*& table: tables) table->done();
-
         // Store manifest file.
-        mani->store(true);
+        // WARNING:
+        //   It should be done BEFORE releasing the old tables,
+        //   as their files will be removed once they are released.
+        s = mani->store(true);
+
+        for (TableInfo*& table: tables) table->done();
 
     } else {
         // Level-extension mode:
@@ -985,7 +1023,7 @@ Status TableMgr::compactL0(const CompactOptions& options,
     }
 
     compactStatus[hash_num]->store(false);
-    return Status();
+    return s;
 
    } catch (Status s) { // ========
 
diff --git a/src/table_mgr.cc b/src/table_mgr.cc
index 22e0f59..7edd168 100644
--- a/src/table_mgr.cc
+++ b/src/table_mgr.cc
@@ -74,7 +74,11 @@ Status TableMgr::createNewTableFile( size_t level,
     std::string t_filename =
         TableFile::getTableFileName(opt.path, opt.prefixNum, t_num);
 
-    EP( t_file->create(level, t_num, t_filename, opt.fOps, t_opt) );
+    s = t_file->create(level, t_num, t_filename, opt.fOps, t_opt);
+    if (!s) {
+        delete t_file;
+        return s;
+    }
     uint64_t bf_size = t_file->getBfSize();
     _log_info(myLog, "level %zu: created new table %zu_%zu, "
               "BF size %zu bytes (%zu bits)",
@@ -241,9 +245,11 @@ Status TableMgr::init(const TableMgrOptions& _options) {
                         std::max( t_opt.minBlockReuseFileSize,
                                   max_working_set_size *
                                       getDbConfig()->blockReuseFactor / 100 );
-                    t_info->file->changeOptions(t_opt);
+                    Status s_opt = t_info->file->changeOptions(t_opt);
+                    if (!s_opt) s = s_opt;
                     t_info->done();
                 }
+                if (!s) throw s;
             }
         }
 
@@ -271,8 +277,7 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         }
 
         // Create manifest file.
-        s = mani->create(opt.path, m_filename);
-        if (!s) return s;
+        TC( mani->create(opt.path, m_filename) );
 
         numL0Partitions = db_config->numL0Partitions;
         if ( !db_config->logSectionOnly &&
@@ -284,8 +289,8 @@ Status TableMgr::init(const TableMgrOptions& _options) {
                 // Set 1M bits as an initial size.
                 // It will be converging to some value as compaction happens.
                 t_opt.bloomFilterSize = 1024 * 1024;
-                EP( createNewTableFile(0, t_file, t_opt) );
-                EP( mani->addTableFile(0, ii, SizedBuf(), t_file) );
+                TC( createNewTableFile(0, t_file, t_opt) );
+                TC( mani->addTableFile(0, ii, SizedBuf(), t_file) );
             }
 
         } else {
@@ -294,7 +299,7 @@ Status TableMgr::init(const TableMgrOptions& _options) {
         }
 
         // Store manifest file.
-        mani->store(true);
+        TC( mani->store(true) );
     }
 
     compactStatus.resize(numL0Partitions);
@@ -315,6 +320,7 @@ Status TableMgr::init(const TableMgrOptions& _options) {
 
    } catch (Status s) {
     _log_err(myLog, "init manifest error: %d", s);
+    numL0Partitions = 0;
     DELETE(mani);
     return s;
    }
@@ -629,7 +635,7 @@ Status TableMgr::get(DB* snap_handle,
                 new_rec.kv.key.clear();
                 new_rec.free();
 
-                if (s != Status::KEY_NOT_FOUND) {
+                if (!s.ok() && s != Status::KEY_NOT_FOUND) {
                     // This is intolerable error.
                     found_intolerable_error = true;
                 }
diff --git a/src/table_mgr.h b/src/table_mgr.h
index e951111..01e9732 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -291,24 +291,24 @@ public:
         return allowCompaction || tableAdjInProgress;
     }
 
-    void setTableFile(std::list<Record*>& batch,
-                      std::list<uint64_t>& checkpoints,
-                      bool bulk_load_mode,
-                      TableFile* table_file,
-                      uint32_t target_hash,
-                      const SizedBuf& min_key,
-                      const SizedBuf& next_min_key);
-
-    void setTableFileOffset(std::list<uint64_t>& checkpoints,
-                            TableFile* src_file,
-                            TableFile* dst_file,
-                            std::vector<uint64_t>& offsets,
-                            uint64_t start_index,
-                            uint64_t count);
-
-    void setTableFileItrFlush(TableFile* dst_file,
-                              std::list<Record*>& recs_batch,
-                              bool without_commit);
+    Status setTableFile(std::list<Record*>& batch,
+                        std::list<uint64_t>& checkpoints,
+                        bool bulk_load_mode,
+                        TableFile* table_file,
+                        uint32_t target_hash,
+                        const SizedBuf& min_key,
+                        const SizedBuf& next_min_key);
+
+    Status setTableFileOffset(std::list<uint64_t>& checkpoints,
+                              TableFile* src_file,
+                              TableFile* dst_file,
+                              std::vector<uint64_t>& offsets,
+                              uint64_t start_index,
+                              uint64_t count);
+
+    Status setTableFileItrFlush(TableFile* dst_file,
+                                std::list<Record*>& recs_batch,
+                                bool without_commit);
 
     uint64_t getNumWrittenRecords() const { return numWrittenRecords; }
 
diff --git a/src/table_set_batch.cc b/src/table_set_batch.cc
index b8686aa..396451e 100644
--- a/src/table_set_batch.cc
+++ b/src/table_set_batch.cc
@@ -24,20 +24,21 @@ limitations under the License.
 namespace jungle {
 
 // Used for log -> L0 flush.
-void TableMgr::setTableFile( std::list<Record*>& batch,
-                             std::list<uint64_t>& checkpoints,
-                             bool bulk_load_mode,
-                             TableFile* table_file,
-                             uint32_t target_hash,
-                             const SizedBuf& min_key,
-                             const SizedBuf& next_min_key )
+Status TableMgr::setTableFile( std::list<Record*>& batch,
+                               std::list<uint64_t>& checkpoints,
+                               bool bulk_load_mode,
+                               TableFile* table_file,
+                               uint32_t target_hash,
+                               const SizedBuf& min_key,
+                               const SizedBuf& next_min_key )
 {
-    table_file->setBatch( batch,
-                          checkpoints,
-                          min_key,
-                          next_min_key,
-                          target_hash,
-                          bulk_load_mode );
+    Status s;
+    EP( table_file->setBatch( batch,
+                              checkpoints,
+                              min_key,
+                              next_min_key,
+                              target_hash,
+                              bulk_load_mode ) );
 
     if (myLog->debugAllowed()) {
         _log_debug( myLog,
@@ -47,15 +48,16 @@ void TableMgr::setTableFile( std::list<Record*>& batch,
                     min_key.toReadableString().c_str(),
                     next_min_key.toReadableString().c_str() );
     }
+    return Status();
 }
 
 // Used for in-place/inter-level compaction, split/merge.
-void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
-                                   TableFile* src_file,
-                                   TableFile* dst_file,
-                                   std::vector<uint64_t>& offsets,
-                                   uint64_t start_index,
-                                   uint64_t count) {
+Status TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
+                                     TableFile* src_file,
+                                     TableFile* dst_file,
+                                     std::vector<uint64_t>& offsets,
+                                     uint64_t start_index,
+                                     uint64_t count) {
     const DBConfig* db_config = getDbConfig();
     (void)db_config;
 
@@ -98,9 +100,9 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         Record::Holder h_rec_out(rec_out);
         s = src_file->getByOffset(nullptr, offsets[ii], rec_out);
         if (!s) {
+            // Should not skip the record silently.
             _log_fatal(myLog, "failed to read record at %zu", offsets[ii]);
-            assert(0);
-            continue;
+            throw s;
         }
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
@@ -109,8 +111,8 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         //   Since `rec_out` from `getByOffset` contains raw meta and
         //   compressed value (if enabled), we should skip processing
         //   meta and compression.
-        dst_file->setSingle(key_hash_val, rec_out, offset_out,
-                            true, dst_level + 1 == num_levels);
+        TC( dst_file->setSingle(key_hash_val, rec_out, offset_out,
+                                true, dst_level + 1 == num_levels) );
         total_dirty += rec_out.size();
 
         if (d_params.compactionItrScanDelayUs) {
@@ -124,7 +126,7 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
                db_config->preFlushDirtySize < total_dirty ) ||
              sync_timer.timeout() ) {
             Timer flush_time;
-            dst_file->sync();
+            TC( dst_file->sync() );
             // Resetting timer should be done after fsync,
             // as it may take long time.
             sync_timer.reset();
@@ -138,9 +140,10 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
     }
 
     // Final commit, and generate snapshot on it.
-    setTableFileItrFlush(dst_file, recs_batch, false);
+    TC( setTableFileItrFlush(dst_file, recs_batch, false) );
     _log_info(myLog, "(end of batch) set total %zu records, %zu us, %zu us for flush",
               count, elapsed_timer.getUs(), time_for_flush_us);
+    return Status();
 
    } catch (Status s) { // -----------------------------------
     _log_err(myLog, "got error: %d", (int)s);
@@ -150,24 +153,26 @@ void TableMgr::setTableFileOffset( std::list<uint64_t>& checkpoints,
         rr->free();
         delete rr;
     }
+    return s;
    }
 }
 
-void TableMgr::setTableFileItrFlush(TableFile* dst_file,
-                                    std::list<Record*>& recs_batch,
-                                    bool without_commit)
+Status TableMgr::setTableFileItrFlush(TableFile* dst_file,
+                                      std::list<Record*>& recs_batch,
+                                      bool without_commit)
 {
     SizedBuf empty_key;
     std::list<uint64_t> dummy_chk;
 
-    dst_file->setBatch( recs_batch, dummy_chk,
-                        empty_key, empty_key, _SCU32(-1),
-                        without_commit );
+    Status s = dst_file->setBatch( recs_batch, dummy_chk,
+                                   empty_key, empty_key, _SCU32(-1),
+                                   without_commit );
     for (Record* rr: recs_batch) {
         rr->free();
         delete rr;
     }
     recs_batch.clear();
+    return s;
 }
 
 Status TableMgr::setBatch(std::list<Record*>& batch,
@@ -201,6 +206,8 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                                bool bulk_load_mode )
 {
     Status s;
+    // The first error among all writers.
+    Status s_write;
     std::list<TableInfo*> target_tables;
 
     DBMgr* db_mgr = DBMgr::getWithoutInit();
@@ -235,16 +242,22 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             // Find target table for the given hash number.
             std::list<TableInfo*> tables;
             s = mani->getL0Tables(jj, tables);
-            if (!s) continue;
+            if (!s) {
+                // Records for this hash cannot be written.
+                if (s_write) s_write = s;
+                continue;
+            }
 
             TableInfo* target_table = getSmallestNormalTable(tables, jj);
             if (!target_table) {
-                // Target table does not exist, skip.
+                // Target table does not exist, ditto.
                 for (TableInfo*& entry: tables) entry->done();
+                if (s_write) s_write = Status::TABLE_NOT_FOUND;
                 continue;
             }
 
@@ -266,6 +279,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (s_write) s_write = w_args->result;
             }
         }
 
@@ -277,6 +291,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (s_write) s_write = w_args->result;
         }
 
         if ( db_mgr &&
@@ -292,7 +307,7 @@ Status TableMgr::setBatchHash( std::list<Record*>& batch,
     // Release all target tables.
     for (TableInfo*& entry: target_tables) entry->done();
 
-    return Status();
+    return s_write;
 }
 
 } // namespace jungle
diff --git a/src/table_split.cc b/src/table_split.cc
index 903bb87..13871e2 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -250,6 +250,8 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
 
     size_t max_writers = db_config->getMaxParallelWriters();
     std::list<uint64_t> dummy_chk;
+    // The first error among all writers.
+    Status s_write;
 
     for (size_t ii=0; ii<num_new_tables; ) {
         size_t upto_orig = std::min(ii + max_writers, num_new_tables);
@@ -270,7 +272,10 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             TableFile* cur_file = nullptr;
             TableFileOptions t_opt;
             s = createNewTableFile(level, cur_file, t_opt);
-            if (!s) continue;
+            if (!s) {
+                if (s_write) s_write = s;
+                continue;
+            }
 
             TableWriterArgs local_args;
             local_args.myLog = myLog;
@@ -279,6 +284,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
                                       ? &twh.leasedWriters[worker_idx]->writerArgs
                                       : &local_args;
             w_args->callerAwaiter.reset();
+            w_args->result = Status();
 
             uint64_t count = (jj + 1 == num_new_tables)
                              ? offsets.size() - start_indexes[jj]
@@ -298,6 +304,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             } else {
                 // This thread.
                 TableWriterMgr::doTableWrite(w_args);
+                if (s_write) s_write = w_args->result;
             }
         }
 
@@ -309,10 +316,14 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
                 w_args->callerAwaiter.wait_ms(1000);
                 w_args->callerAwaiter.reset();
             }
+            if (s_write) s_write = w_args->result;
         }
 
         if (!isCompactionAllowed()) throw Status(Status::COMPACTION_CANCELLED);
 
+        // Some records are not written: should not remove the victim.
+        if (!s_write) throw s_write;
+
         ii += leased_writers + 1;
     }
 
@@ -330,7 +341,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
         }
         mani->removeTableFile(level, victim_table);
     }
-    mani->store(true);
+    s = mani->store(true);
 
     elapsed_us = std::max( tt.getUs(), (uint64_t)1 );
     double split_rate = (double)num_records_read * 1000000 / elapsed_us;
@@ -344,7 +355,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
     for (SizedBuf& sb: min_keys) sb.free();
 
     if (level == 1) numL1Compactions.fetch_sub(1);
-    return Status();
+    return s;
 
    } catch (Status s) { // ---------------------------------------------------
     _log_err(myLog, "split failed: %d", (int)s);
@@ -463,19 +474,19 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
 
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels) );
         total_count++;
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit.
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     {   // Grab lock, add first, and then remove next.
         std::lock_guard<std::mutex> l(mani->getLock());
@@ -494,15 +505,18 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
                target_table->minKey.toReadableString().c_str(),
                total_count, elapsed_us, write_rate );
 
+    // WARNING:
+    //   Manifest should be stored BEFORE releasing the victim table,
+    //   as its file will be removed once it is released.
+    s = mani->store(true);
+
     // WARNING:
     //   Release it ONLY WHEN this table is not given by caller.
     //   If not, caller is responsible to release the table.
     if (!victim_table) local_victim->done();
     if (target_table) target_table->done();
 
-    mani->store(true);
-
-    return Status();
+    return s;
 
    } catch (Status ss) {
     _log_err(myLog, "merge failed: %d", (int)ss);
@@ -628,33 +642,39 @@ Status TableMgr::fixTable(const CompactOptions& options,
                 // Skip this key.
                 skip_record = true;
             }
+        } else if (s != Status::KEY_NOT_FOUND) {
+            // Cannot decide which one is newer.
+            throw s;
         }
 
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
         uint64_t offset_out = 0; // not used.
         if (!skip_record) {
-            local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
-                                          false, level + 1 == num_levels);
+            TC( local_victim->file->setSingle(key_hash_val, rec_out, offset_out,
+                                              false, level + 1 == num_levels) );
             total_moved_count++;
         }
         total_count++;
 
         // Should remove the key from target table.
-        target_table->file->setSingle(key_hash_val, rec_out, offset_out,
-                                      false, level + 1 == num_levels, true);
+        TC( target_table->file->setSingle(key_hash_val, rec_out, offset_out,
+                                          false, level + 1 == num_levels, true) );
 
     } while (itr->next().ok());
     itr->close();
-    delete itr;
+    DELETE(itr);
 
     // Set a dummy batch to trigger commit (for both).
+    // WARNING:
+    //   The destination of the move should be committed first. Otherwise,
+    //   moved records are lost if crash happens in the middle.
     std::list<Record*> dummy_batch;
     std::list<uint64_t> dummy_chk;
     SizedBuf empty_key;
-    target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
-    local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
-                                 _SCU32(-1), false);
+    TC( local_victim->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
+    TC( target_table->file->setBatch(dummy_batch, dummy_chk, empty_key, empty_key,
+                                     _SCU32(-1), false) );
 
     // There is no manifest change. Just remove the flag.
     local_victim->prevTableSearchRequired = false;
diff --git a/src/table_writer.cc b/src/table_writer.cc
index e3d3187..b801df0 100644
--- a/src/table_writer.cc
+++ b/src/table_writer.cc
@@ -154,7 +154,7 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
     if (args->payload.batch) {
         // Batch is given.
         SizedBuf empty_key;
-        args->payload.targetTableMgr->setTableFile
+        args->result = args->payload.targetTableMgr->setTableFile
             ( *args->payload.batch,
               *args->payload.checkpoints,
               args->payload.bulkLoadMode,
@@ -164,7 +164,7 @@ void TableWriterMgr::doTableWrite(TableWriterArgs* args) {
 
     } else if (args->payload.sourceTableFile) {
         // Offset is given.
-        args->payload.targetTableMgr->setTableFileOffset
+        args->result = args->payload.targetTableMgr->setTableFileOffset
             ( *args->payload.checkpoints,
               args->payload.sourceTableFile,
               args->payload.targetTableFile,
diff --git a/src/table_writer.h b/src/table_writer.h
index 34a0699..5e96e68 100644
--- a/src/table_writer.h
+++ b/src/table_writer.h
@@ -161,6 +161,9 @@ struct TableWriterArgs {
     EventAwaiter callerAwaiter;
     std::atomic<bool> stopSignal;
     TableWritePayload payload;
+
+    // Result of the last write, valid once `payload` becomes empty.
+    Status result;
     SimpleLogger* myLog;
 };
 
-- 
2.43.0


From 6662e8d7ae40ae9954d661865347224ecd14bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 10/50] fix: DB manifest load bounds the name length and
 reports truncated entries

---
 src/db_manifest.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index 18df59a..90ec395 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -116,15 +116,18 @@ Status DBManifest::load(const std::string& path,
 
     _log_debug(myLog, "Max KVS ID %ld, # KVS %d", maxKVSID.load(), num_kvs);
 
-    char kvs_name_buf[256];
     for (uint32_t ii=0; ii<num_kvs; ++ii) {
         uint64_t kvs_id = ss.getU64(s);
         uint32_t name_len = ss.getU32(s);
-        kvs_name_buf[name_len] = 0;
-        s = ss.get(kvs_name_buf, name_len);
+        if (!s) return s;
+        if (!ss.available(name_len)) return Status::FILE_CORRUPTION;
 
-        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_buf);
-        std::string kvs_name_str(kvs_name_buf);
+        // NOTE: The length of name is not limited.
+        std::string kvs_name_str(name_len, 0);
+        s = ss.get(&kvs_name_str[0], name_len);
+        if (!s) return s;
+
+        _log_debug(myLog, "ID %d, name %s", kvs_id, kvs_name_str.c_str());
         NameToID.insert( std::make_pair(kvs_name_str, kvs_id) );
         IDToName.insert( std::make_pair(kvs_id, kvs_name_str) );
     }
-- 
2.43.0


From 4d534a6f57e987d298e2df8d922bce24d8214b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 11/50] fix: log file reports read, truncate and remove
 failures

---
 src/log_file.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index e41e98b..7cce4d1 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -141,7 +141,8 @@ Status LogFile::create(const std::string& _filename,
         // Previous file exists, which means that there is a legacy log file.
         // We should overwrite it.
         _log_warn(myLog, "file %s already exists, remove it", filename.c_str());
-        fOps->remove(filename);
+        Status s_remove = fOps->remove(filename);
+        if (!s_remove) return s_remove;
     }
 
     // New created file is valid
@@ -230,7 +231,7 @@ Status LogFile::loadMemTable() {
     SizedBuf read_buf(fileSize);
     SizedBuf::Holder h_read_buf(read_buf);
 
-    fOps->pread(fHandle, read_buf.data, read_buf.size, 0);
+    EP( fOps->pread(fHandle, read_buf.data, read_buf.size, 0) );
 
     uint8_t footer_file[8];
     RwSerializer ss(read_buf);
@@ -308,7 +309,7 @@ Status LogFile::truncate(uint64_t seq_upto) {
         }
 
         // Truncate.
-        fOps->ftruncate(fHandle, offset_to_truncate);
+        TC( fOps->ftruncate(fHandle, offset_to_truncate) );
 
         if (okToCloseFHandle()) {
             EP( closeFHandle() );
-- 
2.43.0


From 0fbd0b7f5dd29aff3948447fdaacaf96ab85f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:51 +0000
Subject: [PATCH 12/50] fix: opening a DB or a DB group reports manifest and
 manager init failures

---
 src/db_group.cc | 23 +++++++++++++++++++----
 src/jungle.cc   | 21 ++++++++++++++++++---
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/db_group.cc b/src/db_group.cc
index 9d004da..403b5fe 100644
--- a/src/db_group.cc
+++ b/src/db_group.cc
@@ -64,7 +64,7 @@ Status DBGroup::close(DBGroup* db_group) {
 
         s = mgr->close(db_group->p->defaultDB);
     }
-    return Status();
+    return s;
 }
 
 // Static function.
@@ -123,7 +123,12 @@ Status DBGroup::openDB(DB** ptr_out,
         s = db->p->mani->getKVSID(db_name, db->p->kvsID);
         if (!s) return s;
 
-        db->p->mani->store(true);
+        s = db->p->mani->store(true);
+        if (!s) {
+            db->p->destroy();
+            delete db;
+            return s;
+        }
     }
 
     db->p->kvsName = db_name;
@@ -137,7 +142,12 @@ Status DBGroup::openDB(DB** ptr_out,
     log_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->logMgr = new LogMgr(db);
     db->p->logMgr->setLogger(db->p->myLog);
-    db->p->logMgr->init(log_mgr_opt);
+    s = db->p->logMgr->init(log_mgr_opt);
+    if (!s) {
+        db->p->destroy();
+        delete db;
+        return s;
+    }
 
     TableMgrOptions table_mgr_opt;
     table_mgr_opt.fOps = db->p->fOps;
@@ -146,7 +156,12 @@ Status DBGroup::openDB(DB** ptr_out,
     table_mgr_opt.dbConfig = &db->p->dbConfig;
     db->p->tableMgr = new TableMgr(db);
     db->p->tableMgr->setLogger(db->p->myLog);
-    db->p->tableMgr->init(table_mgr_opt);
+    s = db->p->tableMgr->init(table_mgr_opt);
+    if (!s) {
+        db->p->destroy();
+        delete db;
+        return s;
+    }
 
     // In case of previous crash,
     // sync table's last seqnum if log is lagging behind.
diff --git a/src/jungle.cc b/src/jungle.cc
index 36427be..f84938f 100644
--- a/src/jungle.cc
+++ b/src/jungle.cc
@@ -124,13 +124,28 @@ Status DB::open(DB** ptr_out,
         db->p->mani = new DBManifest(db->p->fOps);
         db->p->mani->setLogger(db->p->myLog);
         std::string m_filename = db->p->path + "/db_manifest";
-        db->p->mani->load(db->p->path, m_filename);
+        s = db->p->mani->load(db->p->path, m_filename);
+        if (!s && !db->p->dbConfig.readOnly) {
+            // Error happened, try again using backup file.
+            _log_err( db->p->myLog,
+                      "loading DB manifest error: %d, try again", (int)s );
+            DELETE(db->p->mani);
+            TC( BackupRestore::restore(db->p->fOps, m_filename) );
+            db->p->mani = new DBManifest(db->p->fOps);
+            db->p->mani->setLogger(db->p->myLog);
+            s = db->p->mani->load(db->p->path, m_filename);
+        }
+        if (!s) {
+            // Should not overwrite the manifest file by incomplete data.
+            DELETE(db->p->mani);
+            throw s;
+        }
     } else {
         // Create DB manifest.
         db->p->mani = new DBManifest(db->p->fOps);
         db->p->mani->setLogger(db->p->myLog);
         std::string m_filename = db->p->path + "/db_manifest";
-        db->p->mani->create(db->p->path, m_filename);
+        TC( db->p->mani->create(db->p->path, m_filename) );
     }
 
     // Main DB handle's ID is 0.
@@ -1027,7 +1042,7 @@ void DB::DBInternal::destroy() {
     }
 
     if (!kvsID) { // Only default DB.
-        if (!dbConfig.readOnly) {
+        if (mani && !dbConfig.readOnly) {
             mani->store(true);
         }
         DELETE(mani);
-- 
2.43.0


From 01ccd32dcaa8727bcec4444a20622c0a86e0c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:20 +0000
Subject: [PATCH 13/50] fix: builder reports failures of manifest, log and last
 table file

---
 src/jungle_builder.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jungle_builder.cc b/src/jungle_builder.cc
index bc6f704..d6277e3 100644
--- a/src/jungle_builder.cc
+++ b/src/jungle_builder.cc
@@ -44,6 +44,8 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     EP( t_mani.create(params.path, mani_filename) );
 
     t_mgr.mani = &t_mani;
+    // `t_mgr` does not own `t_mani`, detach it whenever this function returns.
+    GcFunc detach_mani([&t_mgr]() { t_mgr.mani = nullptr; });
 
     // Make level 1 (only when `tables` is not empty).
     if (!params.tables.empty()) {
@@ -96,7 +98,7 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     t_mani.adjustMaxTableNumber(max_table_num);
 
     // Flush manifest file.
-    t_mani.store(true);
+    EP( t_mani.store(true) );
 
     // Create the initial log file with the biggest sequence number + 1.
     LogMgr l_mgr(nullptr);
@@ -105,11 +107,10 @@ Status Builder::buildFromTableFiles(const BuildParams& params) {
     l_opt.fOps = f_ops.get();
     l_opt.dbConfig = &params.dbConfig;
     l_opt.startSeqnum = max_seqnum + 1;
-    l_mgr.init(l_opt);
-    l_mgr.sync(false);
-    l_mgr.close();
+    EP( l_mgr.init(l_opt) );
+    EP( l_mgr.sync(false) );
+    EP( l_mgr.close() );
 
-    t_mgr.mani = nullptr;
     return s;
 }
 
@@ -282,7 +283,8 @@ Status Builder::finalizeFile() {
 
 Status Builder::commit() {
     if (numDocs) {
-        finalizeFile();
+        Status s;
+        EP( finalizeFile() );
     }
 
     return buildFromTableFiles(buildParams);
-- 
2.43.0


From f0ed114f292080884fe18ca4077b3a6f3beae2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:20 +0000
Subject: [PATCH 14/50] fix: LogFile::sync reports sync failure of memtable

---
 src/log_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_file.cc b/src/log_file.cc
index 7cce4d1..a78e163 100644
--- a/src/log_file.cc
+++ b/src/log_file.cc
@@ -579,7 +579,7 @@ Status LogFile::sync() {
     if (!fHandle) {
         EP( openFHandle() );
     }
-    s = mTable->sync(fOps, fHandle);
+    EP( mTable->sync(fOps, fHandle) );
     if (okToCloseFHandle()) {
         EP( closeFHandle() );
     }
-- 
2.43.0


From 930e190d60bfdf02d7d6b888ded34cdc7821f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:19 +0000
Subject: [PATCH 15/50] fix: manifest load checks reads and parses the verified
 contents

---
 src/log_manifest.cc   | 25 ++++++++++++++++---------
 src/table_manifest.cc | 20 ++++++++++++--------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 4d0394a..950911c 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -261,29 +261,32 @@ Status LogManifest::load(const std::string& path,
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
     // Footer check
-    RwSerializer ss(fOps, mFile);
+    RwSerializer ss_file(fOps, mFile);
     uint8_t chk_footer[8];
-    ss.pos(file_size - 16);
-    ss.get(chk_footer, 8);
+    ss_file.pos(file_size - 16);
+    TC( ss_file.get(chk_footer, 8) );
     if (memcmp(LOGMANI_FOOTER, chk_footer, 8) != 0) {
         throw Status(Status::FILE_CORRUPTION);
     }
 
     // Version
-    uint32_t ver_file = ss.getU32(s);
+    uint32_t ver_file = ss_file.getU32(s);
+    if (!s) throw s;
     (void)ver_file;
 
     // CRC check
-    uint32_t crc_file = ss.getU32(s);
+    uint32_t crc_file = ss_file.getU32(s);
+    if (!s) throw s;
 
     SizedBuf chk_buf(file_size - 4);
     SizedBuf::Holder h_chk_buf(chk_buf);
-    ss.pos(0);
-    ss.get(chk_buf.data, chk_buf.size);
+    ss_file.pos(0);
+    TC( ss_file.get(chk_buf.data, chk_buf.size) );
     uint32_t crc_local = crc32_8(chk_buf.data, chk_buf.size, 0);
     if (crc_local != crc_file) throw Status(Status::CHECKSUM_ERROR);
 
-    ss.pos(0);
+    // Parse the contents that are just verified.
+    RwSerializer ss(chk_buf);
     maxLogFileNum.store(ss.getU64(s), MOR);
     lastFlushedLog.store(ss.getU64(s), MOR);
     lastSyncedLog.store(ss.getU64(s), MOR);
@@ -434,7 +437,11 @@ Status LogManifest::load(const std::string& path,
                 // NOTE: `start_seq_num` will be re-synced with tables
                 //       after table loading is done. So it is safe to
                 //       set it to 0 here.
-                l_file->create(l_filename, fLogOps, l_file_num, 0);
+                s = l_file->create(l_filename, fLogOps, l_file_num, 0);
+                if (!s) {
+                    delete l_file;
+                    throw s;
+                }
 
                 _log_warn(myLog, "no log file is found due to previous crash, "
                           "created new log file %zu", l_file_num);
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index d73f867..6665e6f 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -132,30 +132,34 @@ Status TableManifest::load(const std::string& path,
     if (file_size < 16) throw Status(Status::FILE_CORRUPTION);
 
     // Footer check
-    RwSerializer ss(fOps, mFile);
+    RwSerializer ss_file(fOps, mFile);
     uint8_t footer_file[8];
-    ss.pos(file_size - 16);
-    ss.get(footer_file, 8);
+    ss_file.pos(file_size - 16);
+    TC( ss_file.get(footer_file, 8) );
     if (memcmp(TABMANI_FOOTER, footer_file, 8) != 0) {
         throw Status(Status::FILE_CORRUPTION);
     }
 
     // Version check
-    uint32_t ver_file = ss.getU32(s);
+    uint32_t ver_file = ss_file.getU32(s);
+    if (!s) throw s;
     (void)ver_file;
 
     // CRC check
-    uint32_t crc_file = ss.getU32(s);
+    uint32_t crc_file = ss_file.getU32(s);
+    if (!s) throw s;
 
     SizedBuf chk_buf(file_size - 4);
     SizedBuf::Holder h_chk_buf(chk_buf);
-    ss.pos(0);
-    ss.get(chk_buf.data, chk_buf.size);
+    ss_file.pos(0);
+    TC( ss_file.get(chk_buf.data, chk_buf.size) );
     uint32_t crc_local = crc32_8(chk_buf.data, chk_buf.size, 0);
     if (crc_local != crc_file) throw Status(Status::CHECKSUM_ERROR);
 
+    // Parse the contents that are just verified.
+    RwSerializer ss(chk_buf);
+
     // Max (latest) table file number.
-    ss.pos(0);
     maxTableNum.store(ss.getU64(s), MOR);
 
     // Number of levels.
-- 
2.43.0


From 63d2ec41f742ca82f5123f1a99b0e876d0a02535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:11 +0000
Subject: [PATCH 16/50] fix: iterators and log scan report corrupted tables and
 read failures

---
 src/iterator.cc       | 8 ++++++++
 src/memtable.cc       | 8 +++++---
 src/table_iterator.cc | 7 ++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index d54a883..5bcd9fe 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -139,6 +139,14 @@ Status Iterator::initSN(DB* db,
                                      p->db->p->tableMgr,
                                      min_seq,
                                      max_seq );
+    if (s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION) {
+        // Intolerable error.
+        DELETE(ctx_table->tableItr);
+        DELETE(ctx_table);
+        close();
+        return s;
+    }
+
     if (s) s = ctx_table->tableItr->get(ctx_table->lastRec);
     if (s) {
         avl_node* ret =
diff --git a/src/memtable.cc b/src/memtable.cc
index 10c2195..6518772 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1155,7 +1155,7 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
             uint32_t v_size = len_buf_rw.getU32(s);
 
             uint32_t crc_data = 0;
-            TC_( crc_data = rws.getU32(s) );
+            EP_( crc_data = rws.getU32(s) );
             (void)crc_data;
 
             // Skip.
@@ -1176,7 +1176,8 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
                 m = "not enough bytes for flush marker";
                 break;
             }
-            uint64_t dummy = rws.getU64(s);
+            uint64_t dummy = 0;
+            EP_( dummy = rws.getU64(s) );
             (void)dummy;
             last_valid_size = rws.pos();
 
@@ -1186,7 +1187,8 @@ Status MemTable::findOffsetOfSeq(SimpleLogger* logger,
                 m = "not enough bytes for checkpoint";
                 break;
             }
-            uint64_t dummy = rws.getU64(s);
+            uint64_t dummy = 0;
+            EP_( dummy = rws.getU64(s) );
             (void)dummy;
             last_valid_size = rws.pos();
 
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index f6d2ebe..ced8f81 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -37,11 +37,12 @@ TableMgr::Iterator::~Iterator() {
 
 Status TableMgr::Iterator::addTableItr(DB* snap_handle, TableInfo* t_info) {
     // Open iterator.
+    Status s;
     TableFile::Iterator* t_itr = new TableFile::Iterator();
     if (type == BY_SEQ) {
-        t_itr->initSN(snap_handle, t_info->file, minSeqSnap, maxSeqSnap);
+        s = t_itr->initSN(snap_handle, t_info->file, minSeqSnap, maxSeqSnap);
     } else if (type == BY_KEY) {
-        t_itr->init(snap_handle, t_info->file, startKey, endKey);
+        s = t_itr->init(snap_handle, t_info->file, startKey, endKey);
     }
 
     ItrItem* ctx = new ItrItem();
@@ -50,7 +51,7 @@ Status TableMgr::Iterator::addTableItr(DB* snap_handle, TableInfo* t_info) {
     tables[t_info->level].push_back(ctx);
 
     // If this iterator is out-of-range, `lastRec` will be empty.
-    Status s = t_itr->get(ctx->lastRec);
+    if (s) s = t_itr->get(ctx->lastRec);
     if (s) {
         // Insert available iterator only.
         avl_cmp_func* cmp_func = (type == BY_SEQ)
-- 
2.43.0


From 372a78ec8a0481520001a8a99f9d11b77869e452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:19 +0000
Subject: [PATCH 17/50] fix: RwSerializer on memory does not keep an old error

---
 src/internal_helper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 7f44684..77ef715 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -199,6 +199,7 @@ uint64_t RwSerializer::getU64(Status& s_out) {
         if (curPos + sizeof(val) > len) {
             s_out = Status::READ_VIOLATION;
         } else {
+            s_out = Status::OK;
             read_mem_64(dstPtr, val, 0, off);
         }
     } else {
@@ -215,6 +216,7 @@ uint32_t RwSerializer::getU32(Status& s_out) {
         if (curPos + sizeof(val) > len) {
             s_out = Status::READ_VIOLATION;
         } else {
+            s_out = Status::OK;
             read_mem_32(dstPtr, val, 0, off);
         }
     } else {
@@ -231,6 +233,7 @@ uint16_t RwSerializer::getU16(Status& s_out) {
         if (curPos + sizeof(val) > len) {
             s_out = Status::READ_VIOLATION;
         } else {
+            s_out = Status::OK;
             read_mem_16(dstPtr, val, 0, off);
         }
     } else {
@@ -247,6 +250,7 @@ uint8_t RwSerializer::getU8(Status& s_out) {
         if (curPos + sizeof(val) > len) {
             s_out = Status::READ_VIOLATION;
         } else {
+            s_out = Status::OK;
             read_mem_8(dstPtr, val, 0, off);
         }
     } else {
-- 
2.43.0


From 011c84f79abe25fa3b26d62a82ddd5fc267267b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:19 +0000
Subject: [PATCH 18/50] fix: compaction, merge and split do not treat a
 corrupted record as the end of a table

---
 src/table_compaction.cc      | 7 +++++--
 src/table_file_compaction.cc | 4 ++++
 src/table_helper.h           | 6 ++++++
 src/table_split.cc           | 3 +++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/table_compaction.cc b/src/table_compaction.cc
index a2b1cd0..067d415 100644
--- a/src/table_compaction.cc
+++ b/src/table_compaction.cc
@@ -81,7 +81,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     SizedBuf min_key_victim = local_victim->minKey;
     SizedBuf max_key_victim;
     SizedBuf::Holder h_max_key_victim(max_key_victim);
-    local_victim->file->getMaxKey(max_key_victim);
+    s = local_victim->file->getMaxKey(max_key_victim);
+    if (is_corruption(s)) throw s;
 
     {   // WARNING: See the comment at `mani->removeTableFile` in `compactLevelItr`.
         std::lock_guard<std::mutex> l(mani->getLock());
@@ -117,7 +118,8 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
     SizedBuf max_key_table;
     SizedBuf::Holder h_max_key_table(max_key_table);
     if (max_table) {
-        max_table->file->getMaxKey(max_key_table);
+        s = max_table->file->getMaxKey(max_key_table);
+        if (is_corruption(s)) throw s;
         if (max_key_table.empty()) {
             _log_info(myLog, "Table is empty, setting table's min key as the max key");
             max_table->minKey.copyTo(max_key_table);
@@ -384,6 +386,7 @@ Status TableMgr::compactLevelItr(const CompactOptions& options,
             size_t value_size_out = 0;
             uint64_t offset_out = 0;
             s = itr->getMeta(rec_out, value_size_out, offset_out);
+            if (is_corruption(s)) throw s;
             if (!s) break;
 
             update_next_table_info(rec_out, offset_out, value_size_out);
diff --git a/src/table_file_compaction.cc b/src/table_file_compaction.cc
index 67856de..b2bba04 100644
--- a/src/table_file_compaction.cc
+++ b/src/table_file_compaction.cc
@@ -165,6 +165,10 @@ Status TableFile::compactToManually(FdbHandle* compact_handle,
             rec_out.free();
         } while (false); // dummy loop to use break;
         itr.close();
+        if (is_corruption(s)) {
+            DELETE(dst_bf);
+            return s;
+        }
     }
 
     // Flush block cache for every given second.
diff --git a/src/table_helper.h b/src/table_helper.h
index 3945e47..7810aa6 100644
--- a/src/table_helper.h
+++ b/src/table_helper.h
@@ -33,6 +33,12 @@ class TableFile;
 class TableMgr;
 struct TableInfo;
 
+// The record (or table) exists but cannot be read: it should not be
+// treated as if it does not exist.
+inline bool is_corruption(const Status& s) {
+    return s == Status::CHECKSUM_ERROR || s == Status::FILE_CORRUPTION;
+}
+
 void hex_dump_key(const SizedBuf& key, size_t maxlen, char** bp, size_t* len);
 
 std::string hex_dump_to_string(const SizedBuf& key, size_t max_len = 256);
diff --git a/src/table_split.cc b/src/table_split.cc
index 13871e2..b8465dd 100644
--- a/src/table_split.cc
+++ b/src/table_split.cc
@@ -145,6 +145,7 @@ Status TableMgr::splitTableItr(TableInfo* victim_table) {
             size_t value_size_out = 0;
             uint64_t offset_out = 0;
             s = itr->getMeta(rec_out, value_size_out, offset_out);
+            if (is_corruption(s)) throw s;
             if (!s) break;
 
             offsets.push_back(offset_out);
@@ -470,6 +471,7 @@ Status TableMgr::mergeLevel(const CompactOptions& options,
         Record rec_out;
         Record::Holder h(rec_out);
         s = itr->get(rec_out);
+        if (is_corruption(s)) throw s;
         if (!s) break;
 
         uint32_t key_hash_val = getKeyHash(rec_out.kv.key);
@@ -625,6 +627,7 @@ Status TableMgr::fixTable(const CompactOptions& options,
         Record rec_out;
         Record::Holder h(rec_out);
         s = itr->get(rec_out);
+        if (is_corruption(s)) throw s;
         if (!s) break;
 
         // Search the same key in victim table,
-- 
2.43.0


From 45d8a26268fa46cc79733ad5225af5ee1a4b3c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:32 +0000
Subject: [PATCH 19/50] fix: direct I/O reports the size of files over 2 GB

---
 src/fileops_directio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index cd6f3d3..97581f3 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -425,7 +425,7 @@ cs_off_t FileOpsDirectIO::eof(FileHandle* fhandle) {
     FileHandleDirectIO* phandle = getHandle(fhandle);
     if (!phandle) return -1;
     if (phandle->fd <= 0) return -1;
-    int r = ::lseek(phandle->fd, 0, SEEK_END);
+    cs_off_t r = ::lseek(phandle->fd, 0, SEEK_END);
     if (r < 0) {
         int n = errno;
         _log_err(myLog,
-- 
2.43.0


From 89e77ac5cdb593ce20482f1e3b5fe6fefff4c17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:32 +0000
Subject: [PATCH 20/50] fix: direct I/O does not skip fsync of data appended
 after truncation

---
 src/fileops_directio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 97581f3..2338b4d 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -575,6 +575,9 @@ Status FileOpsDirectIO::ftruncate(FileHandle* fhandle,
         phandle->flushedFilePos = length;
         phandle->bufPos = need_align;
     }
+    // Data beyond the new length is gone, data appended again has to be fsynced.
+    phandle->fsyncedFilePos = std::min(phandle->fsyncedFilePos,
+                                       phandle->flushedFilePos);
 
     // Double check file size
     file_size_tmp = eof(fhandle);
-- 
2.43.0


From 8ef161e7349b89de13a4fe6c64ca1882cf999455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:32 +0000
Subject: [PATCH 21/50] fix: direct I/O open does not leak the descriptor when
 it fails

---
 src/fileops_directio.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/fileops_directio.cc b/src/fileops_directio.cc
index 2338b4d..fda9977 100644
--- a/src/fileops_directio.cc
+++ b/src/fileops_directio.cc
@@ -198,14 +198,20 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
 
     void* aligned_buf = nullptr;
 
-    Status s;
-    EP(allocAlignedBuf(&aligned_buf));
+    Status s = allocAlignedBuf(&aligned_buf);
+    if (!s) {
+        ::close(r);
+        return s;
+    }
 
     auto* fhandle = new FileHandleDirectIO(pathname, r, this, aligned_buf);
 
     // Set the aligned write buffer
     cs_off_t file_size_tmp = eof(fhandle);
-    if (file_size_tmp < 0) return Status::ERROR;
+    if (file_size_tmp < 0) {
+        delete fhandle;
+        return Status::ERROR;
+    }
     auto file_size = static_cast<size_t>(file_size_tmp);
 
     size_t need_align = file_size % alignSize;
@@ -216,11 +222,15 @@ Status FileOpsDirectIO::open(FileHandle** fhandle_out,
         fhandle->bufPos = 0;
     } else {
         // Read the last un-aligned data
-        EP(readInternal(pathname,
-                        r,
-                        aligned_buf,
-                        need_align,
-                        file_size - need_align));
+        s = readInternal(pathname,
+                         r,
+                         aligned_buf,
+                         need_align,
+                         file_size - need_align);
+        if (!s) {
+            delete fhandle;
+            return s;
+        }
         fhandle->filePos = file_size - need_align;
         fhandle->flushedFilePos = file_size;
         fhandle->fsyncedFilePos = file_size;
-- 
2.43.0


From 3d8518bff9d7432de8b5acfa4b0c56f2f5d4449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:59 +0000
Subject: [PATCH 22/50] fix: RwSerializer::getSb without clone checks the
 length

---
 src/internal_helper.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/internal_helper.cc b/src/internal_helper.cc
index 77ef715..3c1cdeb 100644
--- a/src/internal_helper.cc
+++ b/src/internal_helper.cc
@@ -183,6 +183,8 @@ Status RwSerializer::getSb(SizedBuf& s_buf_out, bool clone) {
             s_buf_out.alloc(len);
             s = get(s_buf_out.data, len);
             if (!s) s_buf_out.free();
+        } else if (!dstPtr || curPos + len > this->len) {
+            s = Status::READ_VIOLATION;
         } else {
             s_buf_out.data = dstPtr + curPos;
             s_buf_out.size = len;
-- 
2.43.0


From f2cc9b35723d7cbdcef119e8caadca1eede6d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:51:09 +0000
Subject: [PATCH 23/50] fix: include tombstones in the Bloom filter of table
 files

A tombstone flushed into a L0 table was not added to the table's Bloom
filter, so that the lookup skipped the table and returned the older
(deleted) record from the lower level.
---
 src/table_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_file.cc b/src/table_file.cc
index 8b1d66a..25c7b59 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -922,8 +922,9 @@ Status TableFile::setSingle(uint32_t key_hash_val,
 
     offset_out = doc.offset;
 
-    if (rec.isIns()) {
-        // Set bloom filter if exists.
+    if (!deletion_executed) {
+        // Set bloom filter if exists. Tombstones should be included as well,
+        // otherwise they will not hide the older record in the other tables.
         if (bfByKey) {
             uint64_t hash_pair[2];
             get_hash_pair(db_config, rec.kv.key, false, hash_pair);
-- 
2.43.0


From ccf4cf59a49f8c391dbeb1b5b9c3469b8609f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:07 +0000
Subject: [PATCH 24/50] fix: do not advance the synced seqnum when nothing was
 written

If there was nothing to write for a log file, LogMgr::syncInternal() passed
NOT_INITIALIZED to setSyncedSeqNum(), which moves it to the current max.
A record appended by another thread in the meantime was then regarded as
synced and never written to the file.
---
 src/log_mgr.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index a9884e1..8c0c11e 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1298,7 +1298,11 @@ Status LogMgr::syncInternal(bool call_fsync) {
         //   risk that the manifest might write an incorrect syncedSeqNum in
         //   another call stack (e.g., addNewLogFile()). This could lead to
         //   data loss in the event of a crash.
-        li->file->setSyncedSeqNum(after_sync);
+        // If nothing has been written, should not update it: records appended
+        // in the meantime would be treated as if they were synced.
+        if (valid_number(after_sync)) {
+            li->file->setSyncedSeqNum(after_sync);
+        }
         _log_( log_level, myLog, "synced log file %zu, min seq %s, "
                "flush seq %s, sync seq %s -> %s, max seq %s",
                ii,
-- 
2.43.0


From 3c8aca5e6ac6c3a6fefd3b5cd9e2d41797f874b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:01:54 +0000
Subject: [PATCH 25/50] fix: log flush does not go beyond the visible barrier
 of an ongoing batch

---
 src/log_mgr.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 8c0c11e..65ea7c9 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -1467,7 +1467,6 @@ Status LogMgr::flush(const FlushOptions& options,
 
     } else {
         // Not all logs, need to adjust `ln_to`.
-        seq_num_local = seq_num;
         // If in purge only mode, don't need to load mem table.
         mani->getLogFileNumBySeq(seq_num_local, ln_to, options.purgeOnly);
     }
-- 
2.43.0


From c971c0e20794a3f2681032c3d0ac4d2e3e975adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:39 +0000
Subject: [PATCH 26/50] fix: sync with fsync covers log files that were written
 without it

---
 src/log_mgr.cc | 9 +++++++++
 src/log_mgr.h  | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 65ea7c9..2ef8d61 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -44,6 +44,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
     , needSkippedManiSync(false)
+    , minLogToFsync(NOT_INITIALIZED)
     , myLog(nullptr)
     , vlSync(VERBOSE_LOG_SUPPRESS_MS)
     {}
@@ -1278,6 +1279,10 @@ Status LogMgr::syncInternal(bool call_fsync) {
           num_suppressed);
 
     uint64_t last_synced_log = ln_from;
+    if (call_fsync && valid_number(minLogToFsync) && minLogToFsync < ln_from) {
+        // Earlier log files have been written without `fsync`.
+        ln_from = minLogToFsync;
+    }
     uint64_t seq_barrier = getVisibleSeqBarrier();
     for (uint64_t ii=ln_from; ii<=ln_to; ++ii) {
         // Write log file first
@@ -1290,6 +1295,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
                                      after_sync ) );
         if (call_fsync) {
             EP( li->file->sync() );
+        } else if (!valid_number(minLogToFsync) || ii < minLogToFsync) {
+            minLogToFsync = ii;
         }
 
         // WARNING:
@@ -1321,6 +1328,8 @@ Status LogMgr::syncInternal(bool call_fsync) {
         }
     }
 
+    if (call_fsync) minLogToFsync = NOT_INITIALIZED;
+
     // Sync up manifest file next
     mani->setLastSyncedLog(last_synced_log);
 
diff --git a/src/log_mgr.h b/src/log_mgr.h
index b08a888..085e22c 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -466,6 +466,12 @@ protected:
      */
     std::atomic<bool> needSkippedManiSync;
 
+    /**
+     * The first log file that has been written without calling `fsync`,
+     * `NOT_INITIALIZED` if there is no such file.
+     */
+    std::atomic<uint64_t> minLogToFsync;
+
     /**
      * Logger.
      */
-- 
2.43.0


From aefd6566dcdb83eb2d7daf4f0063ebd9bd4d54ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:20:09 +0000
Subject: [PATCH 27/50] fix: fsync the DB manifest when it is created

---
 src/db_manifest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/db_manifest.cc b/src/db_manifest.cc
index 90ec395..615253b 100644
--- a/src/db_manifest.cc
+++ b/src/db_manifest.cc
@@ -60,7 +60,7 @@ Status DBManifest::create(const std::string& path,
     _log_info(myLog, "Create new DB manifest %s", mFileName.c_str());
     EP( fOps->open(&mFile, mFileName.c_str()) );
 
-    EP( store(false) );
+    EP( store(true) );
 
     return Status();
 }
-- 
2.43.0


From 298e1a3e88c990fe6edeba6527045da3136dd5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:11 +0000
Subject: [PATCH 28/50] fix: number of log files in the manifest matches the
 entries written

---
 src/log_manifest.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index 950911c..fc264dd 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -526,16 +526,22 @@ Status LogManifest::storeInternal(bool call_fsync) {
     // Last flushed log file number, 8 bytes
     // Last synced log file number,  8 bytes
     // Number of log files,          4 bytes
-    uint32_t num_log_files = skiplist_get_size(&logFiles);
     ss.putU64(maxLogFileNum);
     ss.putU64(lastFlushedLog);
     ss.putU64(lastSyncedLog);
+
+    // WARNING:
+    //   Log files can be added or removed by other threads while we are
+    //   traversing the list. The number should match the number of entries
+    //   that are actually written below.
+    uint32_t num_log_files = 0;
+    const size_t NUM_LOG_FILES_POS = ss.pos();
     ss.putU32(num_log_files);
     _log_debug(myLog,
                "max log file num %ld, last flush %ld, last sync %ld, "
                "num log files %zu",
                maxLogFileNum.load(), lastFlushedLog.load(),
-               lastSyncedLog.load(), num_log_files);
+               lastSyncedLog.load(), skiplist_get_size(&logFiles));
 
     skiplist_node* cursor = skiplist_begin(&logFiles);
     while (cursor) {
@@ -561,6 +567,7 @@ Status LogManifest::storeInternal(bool call_fsync) {
                    "log %ld, min seq %ld, last flush %ld, last sync %ld",
                    info->logFileNum, l_file->getMinSeqNum(),
                    l_file->getFlushedSeqNum(), l_file->getSyncedSeqNum());
+        num_log_files++;
         info->done();
 
         cursor = skiplist_next(&logFiles, cursor);
@@ -568,6 +575,11 @@ Status LogManifest::storeInternal(bool call_fsync) {
     }
     if (cursor) skiplist_release_node(cursor);
 
+    const size_t END_OF_LIST_POS = ss.pos();
+    ss.pos(NUM_LOG_FILES_POS);
+    ss.putU32(num_log_files);
+    ss.pos(END_OF_LIST_POS);
+
     ss.put(LOGMANI_FOOTER, 8);
 
     // Version
-- 
2.43.0


From 742d78f59a0252d4f815764ac898e2548736e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:41 +0000
Subject: [PATCH 29/50] fix: keep removed table files when the manifest could
 not be stored

---
 src/table_file.cc     |  5 +++++
 src/table_manifest.cc |  6 ++++++
 src/table_manifest.h  | 13 +++++++++++++
 src/table_mgr.h       |  2 ++
 4 files changed, 26 insertions(+)

diff --git a/src/table_file.cc b/src/table_file.cc
index 25c7b59..2460f7b 100644
--- a/src/table_file.cc
+++ b/src/table_file.cc
@@ -1628,6 +1628,11 @@ Status TableFile::getCheckpointSeqnum(uint64_t chk, uint64_t& seqnum_out) {
 }
 
 Status TableFile::destroySelf() {
+    if (tableMgr->isManifestStoreFailed()) {
+        // The manifest on disk may still refer to this file.
+        // If it is stale, it will be removed by the next open.
+        return Status();
+    }
     if (fOps->exist(filename.c_str())) {
         // Instead removing it immediately,
         // put it into remove list.
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 6665e6f..ece406e 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -71,6 +71,7 @@ TableManifest::TableManifest(const TableMgr* table_mgr,
     , fOps(_f_ops)
     , mFile(nullptr)
     , maxTableNum(NOT_INITIALIZED)
+    , storeFailed(false)
     , myLog(nullptr)
 {
     levels.reserve(NUM_RESERVED_LEVELS);
@@ -294,7 +295,12 @@ Status TableManifest::store(bool call_fsync) {
     if (mFileName.empty() || !fOps) return Status::NOT_INITIALIZED;
 
     std::unique_lock<std::mutex> lg(mFileWriteLock);
+    Status s = storeInternal(call_fsync);
+    storeFailed.store(!s.ok(), MOR);
+    return s;
+}
 
+Status TableManifest::storeInternal(bool call_fsync) {
     Status s;
 
     SizedBuf mani_buf(4096);
diff --git a/src/table_manifest.h b/src/table_manifest.h
index 0606f57..a6a2237 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -180,6 +180,12 @@ public:
                 const std::string& filename);
     Status clone(const std::string& dst_path);
     Status store(bool call_fsync);
+
+    /**
+     * `true` if the latest attempt to store the manifest has failed: the
+     * manifest on disk may still refer to the tables removed in memory.
+     */
+    bool isStoreFailed() const { return storeFailed.load(MOR); }
     Status storeTableStack(RwSerializer& ss, TableInfo* base_table);
 
     Status extendLevel();
@@ -232,6 +238,8 @@ public:
 private:
     struct LevelInfo;
 
+    Status storeInternal(bool call_fsync);
+
     // Always open Table files belonging to level up to 1.
     static const size_t MAX_OPENED_FILE_LEVEL = 1;
     static const size_t NUM_RESERVED_LEVELS = 16;
@@ -293,6 +301,11 @@ private:
      */
     std::mutex mFileWriteLock;
 
+    /**
+     * `true` if the latest attempt to store the manifest has failed.
+     */
+    std::atomic<bool> storeFailed;
+
     /**
      * Logger.
      */
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 01e9732..3046bb2 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -291,6 +291,8 @@ public:
         return allowCompaction || tableAdjInProgress;
     }
 
+    bool isManifestStoreFailed() const { return mani && mani->isStoreFailed(); }
+
     Status setTableFile(std::list<Record*>& batch,
                         std::list<uint64_t>& checkpoints,
                         bool bulk_load_mode,
-- 
2.43.0


From a97fafd96d9bfd734e73be6301ca8b8cb400d813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:27:32 +0000
Subject: [PATCH 30/50] fix: release the node's lock when a unique insert finds
 a duplicate

---
 src/skiplist.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skiplist.cc b/src/skiplist.cc
index 0b765cf..68d71c2 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -464,6 +464,8 @@ insert_retry:
                 // Duplicate key is not allowed.
                 _sl_clr_flags(prevs, cur_layer+1, top_layer);
                 ATM_FETCH_SUB(cur_node->ref_count, 1);
+                // `node` remains unlinked, nobody should wait for it.
+                _sl_write_unlock_an(node);
                 return -1;
             }
 
-- 
2.43.0


From 5b4d30c4e7a32bb3c264c819c5837e031688d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:32:31 +0000
Subject: [PATCH 31/50] fix: closeAll released a list node it had just freed

---
 src/db_mgr.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/db_mgr.cc b/src/db_mgr.cc
index a9b87b8..2e1ab51 100644
--- a/src/db_mgr.cc
+++ b/src/db_mgr.cc
@@ -394,7 +394,6 @@ Status DBMgr::closeAll(const std::string& path) {
             skiplist_release_node(&db_wrap->snode);
             break;
         }
-        skiplist_release_node(&db_wrap->snode);
     }
     if (cursor) skiplist_release_node(cursor);
 
-- 
2.43.0


From ff5d4f369fca9a77ce05909b33c99720e41b8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:32:31 +0000
Subject: [PATCH 32/50] fix: do not release the flush cursor twice on write
 error

---
 src/memtable.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memtable.cc b/src/memtable.cc
index 6518772..10c6867 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -1427,6 +1427,8 @@ Status MemTable::flush(RwSerializer& rws, uint64_t upto, uint64_t& flushed_seq_o
         skiplist_release_node(&rec_node->snode);
     }
     if (cursor) skiplist_release_node(cursor);
+    // Should not be released again by exception handler below.
+    cursor = nullptr;
 
     {   // In case that only a checkpoint is appended without any new record.
         mGuard l(checkpointsLock);
-- 
2.43.0


From 9f6d6e4608830ef0f0956efad9e32d32101bf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:32:31 +0000
Subject: [PATCH 33/50] fix: check the cursor in memtable iterator gotoEnd

---
 src/memtable_iterator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index e2aee3d..891bb32 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -429,6 +429,7 @@ Status MemTable::Iterator::gotoBegin() {
 
 Status MemTable::Iterator::gotoEnd() {
     if (!mTable) return Status::NOT_INITIALIZED;
+    if (!cursor) return Status::KEY_NOT_FOUND;
     if (type == BY_KEY) {
         skiplist_node* node_to_release = cursor;
         skiplist_node* max_node = nullptr;
-- 
2.43.0


From c2664512b2f0024ac05259093394c506d6ddf54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:26:36 +0000
Subject: [PATCH 34/50] fix: do not hold the workers lock while waiting for
 workers to terminate

A worker may call invokeWorker() (through the background log reclaim), which
takes the same lock, so that the destructor waited for ever.
---
 src/worker_mgr.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worker_mgr.cc b/src/worker_mgr.cc
index 4169deb..36f1bc7 100644
--- a/src/worker_mgr.cc
+++ b/src/worker_mgr.cc
@@ -124,8 +124,14 @@ WorkerMgr::WorkerMgr() {
 }
 
 WorkerMgr::~WorkerMgr() {
-    std::lock_guard<std::mutex> ll(workersLock);
-    for (auto& entry: workers) {
+    // NOTE: Should not wait for workers while holding the lock,
+    //       as a worker may call `invokeWorker`.
+    std::unordered_map<std::string, WorkerBase*> workers_to_stop;
+    {
+        std::lock_guard<std::mutex> ll(workersLock);
+        workers_to_stop.swap(workers);
+    }
+    for (auto& entry: workers_to_stop) {
         WorkerBase* w = entry.second;
         WorkerBase::DestroyOptions d_opt;
         d_opt.wait = false;
-- 
2.43.0


From 550ee3ecdf6a886db44e98a62af7ccc3e003b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:08 +0000
Subject: [PATCH 35/50] fix: use the strong compare-exchange where a spurious
 failure is not retried

The skip list links, the worker status, DB reference count and the sequence
number allocation treat a failed exchange as a real conflict.
---
 src/db_mgr.cc         | 6 +++---
 src/log_manifest.cc   | 4 ++--
 src/memtable.cc       | 6 +++---
 src/skiplist.cc       | 2 +-
 src/table_manifest.cc | 2 +-
 src/worker_mgr.cc     | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/db_mgr.cc b/src/db_mgr.cc
index 2e1ab51..cfb666a 100644
--- a/src/db_mgr.cc
+++ b/src/db_mgr.cc
@@ -349,7 +349,7 @@ Status DBMgr::close(DB* db) {
 
     uint64_t expected = 1;
     uint64_t val = 0;
-    if (db_wrap->refCount.compare_exchange_weak(expected, val)) {
+    if (db_wrap->refCount.compare_exchange_strong(expected, val)) {
         // Destroy DB handle.
         _log_debug(db->p->myLog, "Destroy DB %p", db);
         std::lock_guard<std::mutex> l(dbMapLock);
@@ -473,7 +473,7 @@ void DBMgr::updateOpHistory(size_t amount) {
     if ( prev == -1 ) {
         int64_t exp = -1;
         int64_t des = (int64_t)amount;
-        if (opHistory[idx]->compare_exchange_weak(exp, des, MOR) ) {
+        if (opHistory[idx]->compare_exchange_strong(exp, des, MOR) ) {
             uint64_t next_idx = (idx + 1) % MAX_OP_HISTORY;
             opHistory[next_idx]->store(-1);
             return;
@@ -524,7 +524,7 @@ bool DBMgr::determineIdleStatus() {
 bool DBMgr::setIdleStatus(bool to) {
     bool prev = idleTraffic.load(MOR);
     if (prev != to) {
-        return idleTraffic.compare_exchange_weak(prev, to, MOR);
+        return idleTraffic.compare_exchange_strong(prev, to, MOR);
     }
     return false;
 }
diff --git a/src/log_manifest.cc b/src/log_manifest.cc
index fc264dd..ee51238 100644
--- a/src/log_manifest.cc
+++ b/src/log_manifest.cc
@@ -678,7 +678,7 @@ Status LogManifest::storeInternal(bool call_fsync) {
 Status LogManifest::issueLogFileNumber(uint64_t& new_log_file_number) {
     uint64_t expected = NOT_INITIALIZED;
     uint64_t val = 0;
-    if (maxLogFileNum.compare_exchange_weak(expected, val)) {
+    if (maxLogFileNum.compare_exchange_strong(expected, val)) {
         // The first log file, number 0.
     } else {
         // Otherwise: current max + 1.
@@ -904,7 +904,7 @@ Status LogManifest::getMaxLogFileNum(uint64_t& log_file_num_out) {
 }
 
 Status LogManifest::setMaxLogFileNum(uint64_t cur_num, uint64_t new_num) {
-    if (maxLogFileNum.compare_exchange_weak(cur_num, new_num)) {
+    if (maxLogFileNum.compare_exchange_strong(cur_num, new_num)) {
         return Status();
     }
     return Status::ERROR;
diff --git a/src/memtable.cc b/src/memtable.cc
index 10c6867..734be0a 100644
--- a/src/memtable.cc
+++ b/src/memtable.cc
@@ -350,7 +350,7 @@ Status MemTable::assignSeqNum(Record& rec_local) {
 
         // NOTE: seqnum should start from 1.
         if (!val) val = 1;
-        if (seqNumAlloc.compare_exchange_weak(expected, val)) {
+        if (seqNumAlloc.compare_exchange_strong(expected, val)) {
             // First insert.
             minSeqNum = val;
             rec_local.seqNum = val;
@@ -377,7 +377,7 @@ Status MemTable::assignSeqNum(Record& rec_local) {
             return Status::INVALID_SEQNUM;
         }
 
-        if (seqNumAlloc.compare_exchange_weak(expected, val)) {
+        if (seqNumAlloc.compare_exchange_strong(expected, val)) {
             if (expected == NOT_INITIALIZED) {
                 // First insert.
                 minSeqNum = rec_local.seqNum;
@@ -397,7 +397,7 @@ Status MemTable::updateMaxSeqNum(const uint64_t seq_num) {
     uint64_t expected = maxSeqNum;
     uint64_t val = seq_num;
     if (expected < seq_num || expected == NOT_INITIALIZED) {
-        maxSeqNum.compare_exchange_weak(expected, val);
+        maxSeqNum.compare_exchange_strong(expected, val);
     } // Otherwise, ignore it.
     return Status();
 }
diff --git a/src/skiplist.cc b/src/skiplist.cc
index 68d71c2..5dbdb98 100644
--- a/src/skiplist.cc
+++ b/src/skiplist.cc
@@ -58,7 +58,7 @@ limitations under the License.
     #define ATM_GET(var)                (var).load(MOR)
     #define ATM_LOAD(var, val)          (val) = (var).load(MOR)
     #define ATM_STORE(var, val)         (var).store((val), MOR)
-    #define ATM_CAS(var, exp, val)      (var).compare_exchange_weak((exp), (val))
+    #define ATM_CAS(var, exp, val)      (var).compare_exchange_strong((exp), (val))
     #define ATM_FETCH_ADD(var, val)     (var).fetch_add(val, MOR)
     #define ATM_FETCH_SUB(var, val)     (var).fetch_sub(val, MOR)
     #define ALLOC_(type, var, count)    (var) = new type[count]
diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index ece406e..6d3241e 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -459,7 +459,7 @@ Status TableManifest::extendLevel() {
 Status TableManifest::issueTableNumber(uint64_t& new_table_number) {
     uint64_t expected = NOT_INITIALIZED;
     uint64_t val = 0;
-    if (maxTableNum.compare_exchange_weak(expected, val)) {
+    if (maxTableNum.compare_exchange_strong(expected, val)) {
         // The first table file, number 0.
     } else {
         // Otherwise: current max + 1.
diff --git a/src/worker_mgr.cc b/src/worker_mgr.cc
index 36f1bc7..eceb368 100644
--- a/src/worker_mgr.cc
+++ b/src/worker_mgr.cc
@@ -82,7 +82,7 @@ void WorkerBase::loop() {
             // WORKING --> IDLE.
             exp = WORKING;
             val = IDLE;
-            worker->status.compare_exchange_weak(exp, val);
+            worker->status.compare_exchange_strong(exp, val);
         }
     }
     worker->status = NO_INSTANCE;
@@ -93,7 +93,7 @@ void WorkerBase::loop() {
 void WorkerBase::run() {
     WStatus exp = STOP;
     WStatus val = IDLE;
-    if (status.compare_exchange_weak(exp, val)) {
+    if (status.compare_exchange_strong(exp, val)) {
     } else {
     }
 }
-- 
2.43.0


From 2ef16bf9ca86a6b27ed7e85aa46471c1e0511eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:29:04 +0000
Subject: [PATCH 36/50] fix: keep a DB open while the log reclaimer or command
 handler works on it

Both used DB handles picked from the DB map after releasing the map lock,
without registering a background task, so that a concurrent close could free
the DB under them.
---
 src/cmd_handler.cc   | 3 +++
 src/log_reclaimer.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cmd_handler.cc b/src/cmd_handler.cc
index 85de4b6..bf17837 100644
--- a/src/cmd_handler.cc
+++ b/src/cmd_handler.cc
@@ -86,6 +86,8 @@ void CmdHandler::work() {
         for (DBWrap* dbw: dbs_to_check) {
             if (FileMgr::exist(dbw->path + "/jungle_cmd")) {
                 target_dbw = dbw;
+                // To prevent this DB from being closed by other thread.
+                target_dbw->db->p->incBgTask();
                 break;
             }
         }
@@ -94,6 +96,7 @@ void CmdHandler::work() {
     if (target_dbw) {
         handleCmd(target_dbw);
         FileMgr::remove(target_dbw->path + "/jungle_cmd");
+        target_dbw->db->p->decBgTask();
     }
 
     {   // Remove pending files if exist (spend up to 1 second).
diff --git a/src/log_reclaimer.cc b/src/log_reclaimer.cc
index 17e1684..3349263 100644
--- a/src/log_reclaimer.cc
+++ b/src/log_reclaimer.cc
@@ -62,6 +62,8 @@ void LogReclaimer::work() {
         while (cursor) {
             DBWrap* dbwrap = _get_entry(cursor, DBWrap, snode);
             if (dbwrap->db->p->dbConfig.logSectionOnly) {
+                // To prevent this DB from being closed during the reclaim.
+                dbwrap->db->p->incBgTask();
                 target_dbs.push_back(dbwrap->db);
             }
             cursor = skiplist_next(&dbm->dbMap, cursor);
@@ -75,6 +77,7 @@ void LogReclaimer::work() {
     for (auto& entry: target_dbs) {
         DB* db = entry;
         db->p->logMgr->doLogReclaim();
+        db->p->decBgTask();
     }
 }
 
-- 
2.43.0


From fc505abf552c0d3f43c4b317893a02156df5d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:31:55 +0000
Subject: [PATCH 37/50] fix: do not write logs while holding the lock of the
 thread list

The stack dump held activeThreadsLock while flushing loggers, which takes
loggersLock and may register the calling thread (activeThreadsLock again):
a lock order inversion with the flush thread, and a self-deadlock.
---
 src/logger.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/logger.cc b/src/logger.cc
index d0c241d..8587db2 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -293,12 +293,17 @@ void SimpleLoggerMgr::logStackBackTraceOtherThreads() {
             return;
         }
 
-        std::lock_guard<std::mutex> l(activeThreadsLock);
+        // NOTE: Should not write logs while holding `activeThreadsLock`,
+        //       as logging takes `loggersLock`, and then may register
+        //       this thread, which takes `activeThreadsLock` again.
+        std::unique_lock<std::mutex> l(activeThreadsLock);
         std::string msg = "captured ";
         msg += std::to_string(activeThreads.size()) + " active threads";
+        l.unlock();
         flushAllLoggers(2, msg);
         if (crashDumpFile.is_open()) crashDumpFile << msg << "\n\n";
 
+        l.lock();
         for (uint64_t _tid: activeThreads) {
             pthread_t tid = (pthread_t)_tid;
             if (_tid == crashOriginThread) continue;
@@ -316,6 +321,7 @@ void SimpleLoggerMgr::logStackBackTraceOtherThreads() {
             sigdelset(&_mask, SIGUSR2);
             sigsuspend(&_mask);
         }
+        l.unlock();
 
         msg = "got all stack traces, now flushing them";
         flushAllLoggers(2, msg);
-- 
2.43.0


From 391c1eb9e7000bdcf053990e02806bd5f3080872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:35:50 +0000
Subject: [PATCH 38/50] fix: do not let readers of the level list see an empty
 slot

extendLevel() made the new slot visible before filling it.
---
 src/table_manifest.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table_manifest.cc b/src/table_manifest.cc
index 6d3241e..ddeaf4b 100644
--- a/src/table_manifest.cc
+++ b/src/table_manifest.cc
@@ -441,8 +441,8 @@ Status TableManifest::extendLevel() {
     size_t new_level = 0;
     {   std::lock_guard<std::mutex> l(levelsLock);
         new_level = levels.size();
-        levels.resize(new_level + 1);
-        levels[new_level] = new LevelInfo();
+        // NOTE: Readers do not take the lock, they should not see an empty slot.
+        levels.push_back(new LevelInfo());
     }
     uint64_t level_limit = tableMgr->getLevelSizeLimit(new_level);
     uint64_t table_limit = tableMgr->getDbConfig()->getMaxTableSize(new_level);
-- 
2.43.0


From 15ec7a7e3ec404a9e299254ba1126bae0e08b1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:47:21 +0000
Subject: [PATCH 39/50] fix: release log file references under one lock once
 the file is removed or evicted

---
 src/log_manifest.h | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/log_manifest.h b/src/log_manifest.h
index 82a247b..f90e231 100644
--- a/src/log_manifest.h
+++ b/src/log_manifest.h
@@ -143,32 +143,26 @@ struct LogFileInfo {
             uint64_t snap_count = 0;
             uint64_t ref_count = 0;
             bool destroy_file = false;
-            if (snapshot) {
-                snap_count = snapCount.fetch_sub(1);
-                ref_count = refCount;
-                destroy_file = (snap_count == 1 && ref_count == 0);
-            } else {
-                snap_count = snapCount;
-                ref_count = refCount.fetch_sub(1);
-                destroy_file = (snap_count == 0 && ref_count == 1);
+            {   // WARNING:
+                //   Both counters should be decreased and checked under the same
+                //   lock. If not, the last reference and the last snapshot,
+                //   released at the same time, may both destroy the file.
+                //
+                //   Evicting memtable below is done by the same lock, so that
+                //   nobody is working on this file once we get both zero here.
+                std::lock_guard<std::mutex> l(evictionLock);
+                if (snapshot) {
+                    snap_count = snapCount.fetch_sub(1);
+                    ref_count = refCount;
+                    destroy_file = (snap_count == 1 && ref_count == 0);
+                } else {
+                    snap_count = snapCount;
+                    ref_count = refCount.fetch_sub(1);
+                    destroy_file = (snap_count == 0 && ref_count == 1);
+                }
             }
 
             if (destroy_file) {
-                // WARNING:
-                //   While reclaimer is evicting memtable below (in that case
-                //   refCount == 0 already), LogMgr::flush() may grab a file,
-                //   remove it, and then release, which will get into here.
-                //   In this case this file will not be protected and causes crash.
-                //   We should do busy-waiting for eviction here.
-                //
-                // * Note that opposite CANNOT happen, because
-                //   1) This node is already detached from skiplist, and
-                //   2) once `removed` flag is set, reclaimer cannot handle this file.
-                //
-                if (evicted) {
-                    while (!file->isMemTablePurged()) std::this_thread::yield();
-                    // Wait for other job done.
-                }
                 file->destroySelf();
                 delete file;
                 delete this;
@@ -177,9 +171,13 @@ struct LogFileInfo {
         }
 
         if (snapshot == false && evicted) {
+            // WARNING:
+            //   Should decrease the counter after grabbing the lock. If not,
+            //   other thread may remove and destroy this file before we
+            //   purge its Memtable.
+            std::lock_guard<std::mutex> l(evictionLock);
             uint64_t count = refCount.fetch_sub(1);
             if (count == 1) {
-                std::lock_guard<std::mutex> l(evictionLock);
                 // WARNING:
                 //   There shouldn't be another thread that called grab() before this.
                 uint64_t count_protected = refCount.load();
-- 
2.43.0


From a7573e8e04c6a7310c5350ffbce6bfb28cea35bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:58:34 +0000
Subject: [PATCH 40/50] fix: do not access a table info after releasing its
 reference

---
 src/table_manifest.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/table_manifest.h b/src/table_manifest.h
index a6a2237..134d844 100644
--- a/src/table_manifest.h
+++ b/src/table_manifest.h
@@ -91,17 +91,24 @@ struct TableInfo {
         assert(refCount);
         // WARNING: Refer to the comment in `LogFileInfo::done()`.
         if (removed) {
-            uint64_t count = refCount.fetch_sub(1);
+            // WARNING:
+            //   Once we decrease the counter, other thread may destroy this
+            //   object. Should not access it unless this is the last one.
             SimpleLogger* temp = file->getLogger();
+            size_t level_local = level;
+            uint64_t number_local = number;
+            int status_local = status.load();
+            bool migration_local = migration;
+            uint64_t count = refCount.fetch_sub(1);
             _log_info(temp, "removed level %zu file %zu "
                       "ref count %zu -> %zu status %d mflag %s",
-                      level, number, count, count-1, status.load(),
-                      get_on_off_str(migration) );
+                      level_local, number_local, count, count-1, status_local,
+                      get_on_off_str(migration_local) );
             if (count == 1) {
                 // NOTE: We should not remove file object if this
                 //       table is being migrated to next level, as
                 //       next level's table info will reuse it.
-                if (!migration) {
+                if (!migration_local) {
                     file->destroySelf();
                     delete file;
                 }
-- 
2.43.0


From 89ed45ce1afff1d9bfc8d83e252facb4ac835f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:04 +0000
Subject: [PATCH 41/50] fix: a global batch keeps DBs of the same group apart

---
 include/libjungle/jungle.h | 1 +
 src/global_batch.cc        | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libjungle/jungle.h b/include/libjungle/jungle.h
index 1f17753..29fa372 100644
--- a/include/libjungle/jungle.h
+++ b/include/libjungle/jungle.h
@@ -42,6 +42,7 @@ class DB {
     friend class Compactor;
     friend class DBMgr;
     friend class DBGroup;
+    friend class GlobalBatch;
     friend class GlobalBatchExecutor;
     friend class Iterator;
     friend class Flusher;
diff --git a/src/global_batch.cc b/src/global_batch.cc
index ba8492f..cebbd0a 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -23,7 +23,10 @@ namespace jungle {
 bool GlobalBatch::BatchPairLess::operator()
      (const BatchPair& ll, const BatchPair& rr) const
 {
-    return (ll.db->getPath() < rr.db->getPath());
+    // NOTE: DBs in the same group share the path.
+    int cmp = ll.db->getPath().compare(rr.db->getPath());
+    if (cmp) return cmp < 0;
+    return ll.db->p->kvsID < rr.db->p->kvsID;
 }
 
 GlobalBatch::GlobalBatch() {}
-- 
2.43.0


From ab8bf66f54ffdeb311f066d0bdabc145934412ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:04 +0000
Subject: [PATCH 42/50] fix: an atomic batch in progress is invisible to
 log-only reads, snapshots and on an empty log

---
 src/global_batch.cc |  2 +-
 src/log_iterator.cc |  2 +-
 src/log_mgr.cc      | 58 +++++++++++++++++++++++++++++++++------------
 src/log_mgr.h       |  2 +-
 4 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/src/global_batch.cc b/src/global_batch.cc
index cebbd0a..5b943bf 100644
--- a/src/global_batch.cc
+++ b/src/global_batch.cc
@@ -89,7 +89,7 @@ Status GlobalBatchExecutor::execute(const GlobalBatch& g_batch) {
             const GlobalBatch::BatchPair& pair = entry;
             // WARNING:
             //   Should clean-up visible seq barrier first.
-            pair.db->p->logMgr->setVisibleSeqBarrier(0);
+            pair.db->p->logMgr->setVisibleSeqBarrier(NOT_INITIALIZED);
             pair.db->p->logMgr->setGlobalBatch(0, nullptr);
             // Unlock should be done at the end.
             pair.db->p->logMgr->unlockWriteMutex();
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 0a65b40..f9d87aa 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -110,7 +110,7 @@ Status LogMgr::Iterator::initInternal(DB* snap_handle,
     //   fetching `visibleSeqBarrier` should be done AFTER
     //   fetching max seq number (`getAvailSeqRange` above).
     uint64_t visible_seq_barrier = log_mgr->getVisibleSeqBarrier();
-    if ( visible_seq_barrier &&
+    if ( valid_number(visible_seq_barrier) &&
          maxSeqSnap > visible_seq_barrier ) {
         maxSeqSnap = visible_seq_barrier;
     }
diff --git a/src/log_mgr.cc b/src/log_mgr.cc
index 2ef8d61..6add431 100644
--- a/src/log_mgr.cc
+++ b/src/log_mgr.cc
@@ -39,7 +39,7 @@ LogMgr::LogMgr(DB* parent_db, const LogMgrOptions& lm_opt)
     , throttlingRate(0)
     , lastFlushIntervalMs(0)
     , numSetRecords(0)
-    , visibleSeqBarrier(0)
+    , visibleSeqBarrier(NOT_INITIALIZED)
     , fwdVisibleSeqBarrier(0)
     , globalBatchStatus(nullptr)
     , numMemtables(0)
@@ -725,7 +725,7 @@ Status LogMgr::setMulti(const std::list<Record>& batch) {
     getMaxSeqNum(max_seq); // empty log should be tolerated.
     setVisibleSeqBarrier(max_seq);
     GcFunc gc_vs( [&]{
-        setVisibleSeqBarrier(0);
+        setVisibleSeqBarrier(NOT_INITIALIZED);
     } );
 
     EP( checkBatchValidity(batch) );
@@ -866,7 +866,7 @@ Status LogMgr::getSN(const uint64_t seq_num, Record& rec_out) {
     uint64_t max_seq = gg->file->getMaxSeqNum();
     uint64_t visible_seq_barrier = getVisibleSeqBarrier();
     if ( seq_num > max_seq ||
-         ( visible_seq_barrier &&
+         ( valid_number(visible_seq_barrier) &&
            seq_num > visible_seq_barrier ) ) {
         return Status::KEY_NOT_FOUND;
     }
@@ -913,6 +913,14 @@ Status LogMgr::get(const uint64_t chk,
             for (int64_t ii = max_log_num; ii >= (int64_t)min_log_num; --ii) {
                 LogFileInfoGuard li(mani->getLogFileInfoP(ii));
                 if (li.empty() || li.ptr->isRemoved()) continue;
+
+                // WARNING: The same as the comment below.
+                chk_local = li->file->getMaxSeqNum();
+                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
+                if (valid_number(visible_seq_barrier)) {
+                    chk_local = std::min(chk_local, visible_seq_barrier);
+                }
+
                 s = li->file->get(chk_local, key, rec_out_local, false, true);
                 if (s) {
                     rec_out_local.copyTo(rec_out);
@@ -939,7 +947,7 @@ Status LogMgr::get(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1028,6 +1036,14 @@ Status LogMgr::getNearest(const uint64_t chk,
             for (int64_t ii = max_log_num; ii >= (int64_t)min_log_num; --ii) {
                 LogFileInfoGuard li(mani->getLogFileInfoP(ii));
                 if (li.empty() || li.ptr->isRemoved()) continue;
+
+                // WARNING: The same as the comment below.
+                chk_local = li->file->getMaxSeqNum();
+                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
+                if (valid_number(visible_seq_barrier)) {
+                    chk_local = std::min(chk_local, visible_seq_barrier);
+                }
+
                 s = li->file->getNearest(chk_local, key, rec_out_local,
                                          false, true, s_opt);
                 if (s) {
@@ -1058,7 +1074,7 @@ Status LogMgr::getNearest(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1131,6 +1147,14 @@ Status LogMgr::getPrefix(const uint64_t chk,
             for (int64_t ii = max_log_num; ii >= (int64_t)min_log_num; --ii) {
                 LogFileInfoGuard li(mani->getLogFileInfoP(ii));
                 if (li.empty() || li.ptr->isRemoved()) continue;
+
+                // WARNING: The same as the comment below.
+                chk_local = li->file->getMaxSeqNum();
+                uint64_t visible_seq_barrier = getVisibleSeqBarrier();
+                if (valid_number(visible_seq_barrier)) {
+                    chk_local = std::min(chk_local, visible_seq_barrier);
+                }
+
                 s = li->file->getPrefix(chk_local, prefix, cb_func, false, true);
                 if (s == Status::OPERATION_STOPPED) return s;
             }
@@ -1154,7 +1178,7 @@ Status LogMgr::getPrefix(const uint64_t chk,
                 // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
                 //          fetching max seq number.
                 uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-                if (visible_seq_barrier) {
+                if (valid_number(visible_seq_barrier)) {
                     chk_local = std::min(chk_local, visible_seq_barrier);
                 }
 
@@ -1291,8 +1315,7 @@ Status LogMgr::syncInternal(bool call_fsync) {
 
         uint64_t before_sync = li->file->getSyncedSeqNum();
         uint64_t after_sync = NOT_INITIALIZED;
-        EP( li->file->flushMemTable( (seq_barrier ? seq_barrier : NOT_INITIALIZED),
-                                     after_sync ) );
+        EP( li->file->flushMemTable( seq_barrier, after_sync ) );
         if (call_fsync) {
             EP( li->file->sync() );
         } else if (!valid_number(minLogToFsync) || ii < minLogToFsync) {
@@ -1441,7 +1464,7 @@ Status LogMgr::flush(const FlushOptions& options,
 
     uint64_t seq_num_local = seq_num;
     uint64_t seq_barrier = getVisibleSeqBarrier();
-    if (seq_barrier && seq_barrier < seq_num_local) {
+    if (valid_number(seq_barrier) && seq_barrier < seq_num_local) {
         seq_num_local = seq_barrier;
     }
 
@@ -1871,12 +1894,6 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     uint64_t max_seq = NOT_INITIALIZED;
     const size_t MAX_TRY = 16;
 
-    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
-    if (visible_seq_barrier) {
-        seq_num_out = visible_seq_barrier;
-        return Status();
-    }
-
    for (size_t num_tries = 0; num_tries < MAX_TRY; num_tries++) {
     EP( mani->getMaxLogFileNum(ln_max) );
 
@@ -1895,6 +1912,17 @@ Status LogMgr::getMaxSeqNum(uint64_t& seq_num_out) {
     if (succ) break;
    }
 
+    // WARNING: Fetching `visibleSeqBarrier` should be done AFTER
+    //          fetching max seq number.
+    uint64_t visible_seq_barrier = getVisibleSeqBarrier();
+    if (visible_seq_barrier == 0) {
+        // The very first batch is in progress, nothing is visible yet.
+        return Status::LOG_NOT_EXIST;
+    }
+    if (valid_number(visible_seq_barrier)) {
+        max_seq = std::min(max_seq, visible_seq_barrier);
+    }
+
     if (max_seq == NOT_INITIALIZED) {
         return Status::LOG_NOT_EXIST;
     }
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 085e22c..19c9161 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -434,7 +434,7 @@ protected:
     std::atomic<int64_t> numSetRecords;
 
     /**
-     * If non-zero, records up to this number (inclusive) will be
+     * If valid, records up to this number (inclusive) will be
      * visible to user.
      */
     std::atomic<uint64_t> visibleSeqBarrier;
-- 
2.43.0


From 427419348299ececc1e67d5dbc76f0ebb4738377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:30:24 +0000
Subject: [PATCH 43/50] fix: keys longer than 2 GB compared as smaller than the
 prefix they extend

---
 include/libjungle/sized_buf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index d849ba4..4b00a3c 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -177,7 +177,7 @@ public:
             int cmp = memcmp(l.data, r.data, len);
             if (cmp != 0) return cmp;
             else {
-                return (int)((int)l.size - (int)r.size);
+                return (l.size < r.size) ? -1 : 1;
             }
         }
     }
-- 
2.43.0


From 7d73d16385920c26546074aa71ca51416bcf7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:30:24 +0000
Subject: [PATCH 44/50] fix: resizing a buffer to zero left it pointing to
 released memory

---
 include/libjungle/sized_buf.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libjungle/sized_buf.h b/include/libjungle/sized_buf.h
index 4b00a3c..3de819e 100644
--- a/include/libjungle/sized_buf.h
+++ b/include/libjungle/sized_buf.h
@@ -405,6 +405,12 @@ public:
             return;
         }
 
+        if (!_size) {
+            // `realloc` with zero size releases the memory.
+            free();
+            return;
+        }
+
         uint8_t* new_ptr = reinterpret_cast<uint8_t*>(::realloc(data, _size));
         if (new_ptr) {
             data = new_ptr;
-- 
2.43.0


From b9e140d76d22621e753aa41af5e973adcaad63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:42:13 +0000
Subject: [PATCH 45/50] fix: key range of a memory table iterator ignored the
 custom comparator

---
 src/memtable.h           |  2 ++
 src/memtable_iterator.cc | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/memtable.h b/src/memtable.h
index bf975f4..2044261 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -153,6 +153,8 @@ public:
             BY_SEQ = 1
         } type;
 
+        int cmpKeys(const SizedBuf& l, const SizedBuf& r) const;
+
         skiplist_node* findFirstValidNode(skiplist_node* seek_node,
                                           bool fwd_search);
 
diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 891bb32..dc213fd 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -31,6 +31,14 @@ MemTable::Iterator::~Iterator() {
     close();
 }
 
+int MemTable::Iterator::cmpKeys(const SizedBuf& l, const SizedBuf& r) const {
+    // Should be the same order as that of the index by key.
+    RecNode ll(&l);
+    RecNode rr(&r);
+    return mTable->idxByKey->cmp_func(&ll.snode, &rr.snode,
+                                      mTable->idxByKey->aux);
+}
+
 Status MemTable::Iterator::init(const MemTable* m_table,
                                 const SizedBuf& start_key,
                                 const SizedBuf& end_key,
@@ -45,7 +53,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     if (!cursor) return Status::ITERATOR_INIT_FAIL;
 
     RecNode* rn = _get_entry(cursor, RecNode, snode);
-    if (!end_key.empty() && SizedBuf::cmp(rn->key, end_key) > 0) {
+    if (!end_key.empty() && cmpKeys(rn->key, end_key) > 0) {
         skiplist_release_node(cursor);
         cursor = nullptr;
         return Status::OUT_OF_RANGE;
@@ -59,7 +67,7 @@ Status MemTable::Iterator::init(const MemTable* m_table,
     // Skip invalid keys.
     for (; cursor ;) {
         RecNode* rn = _get_entry(cursor, RecNode, snode);
-        if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+        if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
             // Greater than end key.
             skiplist_release_node(cursor);
             cursor = nullptr;
@@ -160,7 +168,7 @@ Status MemTable::Iterator::prev(bool allow_tombstone) {
             if (!prev_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(prev_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(prev_node);
                 return Status::OUT_OF_RANGE;
@@ -206,7 +214,7 @@ Status MemTable::Iterator::next(bool allow_tombstone) {
             if (!next_node) return Status::OUT_OF_RANGE;
 
             RecNode* rn = _get_entry(next_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(next_node);
                 return Status::OUT_OF_RANGE;
@@ -317,7 +325,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go forward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!endKey.empty() && SizedBuf::cmp(rn->key, endKey) > 0) {
+            if (!endKey.empty() && cmpKeys(rn->key, endKey) > 0) {
                 // Greater than end key.
                 skiplist_release_node(seek_node);
                 return nullptr;
@@ -337,7 +345,7 @@ skiplist_node* MemTable::Iterator::findFirstValidNode(skiplist_node* seek_node,
         // Go backward if no record belongs to the snapshot.
         for (; seek_node ;) {
             RecNode* rn = _get_entry(seek_node, RecNode, snode);
-            if (!startKey.empty() && SizedBuf::cmp(rn->key, startKey) < 0) {
+            if (!startKey.empty() && cmpKeys(rn->key, startKey) < 0) {
                 // Smaller than start key.
                 skiplist_release_node(seek_node);
                 return nullptr;
-- 
2.43.0


From 7790b4b9c50d16999bed929ccc09a8e3c40c952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:42:46 +0000
Subject: [PATCH 46/50] fix: seeking a memory table iterator could leave its
 key range or get stuck

---
 src/memtable_iterator.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index dc213fd..8f0d8ee 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -260,19 +260,19 @@ Status MemTable::Iterator::seek
     skiplist_node* node_to_release = cursor;
     skiplist_node* seek_node = nullptr;
 
+    // Search should be done within the given range.
     const SizedBuf* query_key_ptr = &key;
-    if (opt == GREATER && key.empty() && !startKey.empty()) {
-        // gotoBegin, and start key is given.
+    if (!startKey.empty() && cmpKeys(key, startKey) < 0) {
         query_key_ptr = &startKey;
+    } else if (!endKey.empty() && cmpKeys(key, endKey) > 0) {
+        query_key_ptr = &endKey;
     }
     RecNode query(query_key_ptr);
 
-    bool fwd_search = true;
-
     if (opt == GREATER) {
-        fwd_search = true; // Foward search.
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, true);
         if (!seek_node) {
             if (endKey.empty()) {
                 // End key is not given.
@@ -284,13 +284,13 @@ Status MemTable::Iterator::seek
                             ( mTable->idxByKey, &end_query.snode );
             }
             // If not found, backward search from the end.
-            fwd_search = false;
+            seek_node = findFirstValidNode(seek_node, false);
         }
 
     } else if (opt == SMALLER) {
-        fwd_search = false;
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxByKey, &query.snode );
+        seek_node = findFirstValidNode(seek_node, false);
         if (!seek_node) {
             if (startKey.empty()) {
                 // Start key is not given.
@@ -302,14 +302,13 @@ Status MemTable::Iterator::seek
                             ( mTable->idxByKey, &start_query.snode );
             }
             // If not found, forward search from the beginning.
-            fwd_search = true;
+            seek_node = findFirstValidNode(seek_node, true);
         }
 
     } else {
         assert(0);
     }
 
-    seek_node = findFirstValidNode(seek_node, fwd_search);
     if (!seek_node) return Status::OUT_OF_RANGE;
 
     cursor = seek_node;
-- 
2.43.0


From 5bc29e3d0111d46c8635d6fa4e3e7f887efd5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:21 +0000
Subject: [PATCH 47/50] fix: sequence iterator of a memory table could go
 beyond its range

---
 src/memtable_iterator.cc | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/memtable_iterator.cc b/src/memtable_iterator.cc
index 8f0d8ee..849715b 100644
--- a/src/memtable_iterator.cc
+++ b/src/memtable_iterator.cc
@@ -96,9 +96,14 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
     mTable = m_table;
     type = BY_SEQ;
 
-    if (mTable->maxSeqNum == NOT_INITIALIZED)
+    const uint64_t table_max_seq = mTable->maxSeqNum;
+    if (table_max_seq == NOT_INITIALIZED)
         return Status::NOT_INITIALIZED;
 
+    // All logs in this table are smaller than the given range.
+    if (valid_number(min_seq) && min_seq > table_max_seq)
+        return Status::OUT_OF_RANGE;
+
     // Doesn't allow to access logs already purged.
     uint64_t min_local = min_seq;
     if (mTable->minSeqNum != NOT_INITIALIZED &&
@@ -110,8 +115,8 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
          min_local < mTable->flushedSeqNum )
         min_local = mTable->flushedSeqNum;
 
-    if (min_local > mTable->maxSeqNum)
-        min_local = mTable->maxSeqNum;
+    if (min_local > table_max_seq)
+        min_local = table_max_seq;
 
     minSeq = min_local;
 
@@ -130,11 +135,19 @@ Status MemTable::Iterator::initSN(const MemTable* m_table,
         max_local < mTable->minSeqNum)
         max_local = mTable->minSeqNum;
 
-    if (max_local > mTable->maxSeqNum)
-        max_local = mTable->maxSeqNum;
+    if (max_local > table_max_seq)
+        max_local = table_max_seq;
 
     maxSeq = max_local;
 
+    RecNodeSeq* rn = _get_entry(cursor, RecNodeSeq, snode);
+    if (rn->rec->seqNum > maxSeq) {
+        // Greater than max seqnum.
+        skiplist_release_node(cursor);
+        cursor = nullptr;
+        return Status::OUT_OF_RANGE;
+    }
+
     return Status();
 }
 
@@ -378,19 +391,33 @@ Status MemTable::Iterator::seekSN
 
     if (opt == GREATER) {
         if (seqnum < minSeq) query.rec->seqNum = minSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_greater_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node &&
+            _get_entry(seek_node, RecNodeSeq, snode)->rec->seqNum > maxSeq) {
+            // Greater than max seqnum.
+            skiplist_release_node(seek_node);
+            seek_node = nullptr;
+        }
         if (!seek_node) {
             query.rec->seqNum = maxSeq;
             seek_node = skiplist_find_smaller_or_equal
                         ( mTable->idxBySeq, &query.snode );
         }
     } else if (opt == SMALLER) {
-        if (seqnum < maxSeq) query.rec->seqNum = maxSeq;
+        if (seqnum < minSeq) query.rec->seqNum = minSeq;
+        if (seqnum > maxSeq) query.rec->seqNum = maxSeq;
 
         seek_node = skiplist_find_smaller_or_equal
                     ( mTable->idxBySeq, &query.snode );
+        if (seek_node &&
+            _get_entry(seek_node, RecNodeSeq, snode)->rec->seqNum < minSeq) {
+            // Smaller than min seqnum.
+            skiplist_release_node(seek_node);
+            seek_node = nullptr;
+        }
         if (!seek_node) {
             query.rec->seqNum = minSeq;
             seek_node = skiplist_find_greater_or_equal
-- 
2.43.0


From 2315371d543dfe0855999c2b0fa2154edee2831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:53 +0000
Subject: [PATCH 48/50] fix: seeking backward picked a record after the given
 key or number

---
 src/db_internal.h     |  2 +-
 src/iterator.cc       | 40 +++++++++++++++-------------------------
 src/log_iterator.cc   | 38 ++++++++++++++------------------------
 src/log_mgr.h         |  2 +-
 src/table_iterator.cc | 38 ++++++++++++++------------------------
 src/table_mgr.h       |  2 +-
 6 files changed, 46 insertions(+), 76 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index 70742da..abd493f 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -264,7 +264,7 @@ public:
         Record lastRec;
     };
 
-    Status moveToLastValid();
+    Status moveToLastValid(uint8_t skip_flags = 0);
 
     Status seekInternal(const SizedBuf& key,
                         const uint64_t seqnum,
diff --git a/src/iterator.cc b/src/iterator.cc
index 5bcd9fe..7b1fc03 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -409,36 +409,25 @@ Status Iterator::gotoEnd() {
     return p->seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status Iterator::IteratorInternal::moveToLastValid() {
-    windowCursor = avl_last(&curWindow);
-    while (windowCursor) {
+Status Iterator::IteratorInternal::moveToLastValid(uint8_t skip_flags) {
+    windowCursor = nullptr;
+    avl_node* cursor = avl_last(&curWindow);
+    for (; cursor; cursor = avl_prev(cursor)) {
         // Find *LAST* valid item (only for BY_KEY).
         //
         // e.g.)
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
-        ItrInt::ItrItem* item = _get_entry(windowCursor, ItrInt::ItrItem, an);
-
-        if (type == ItrInt::BY_KEY) {
-            ItrInt::ItrItem* prev_item = nullptr;
-            avl_node* prev_cursor = avl_prev(windowCursor);
-            if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
-
-            if (prev_item) {
-                int cmp = cmpSizedBuf( item->lastRec.kv.key,
-                                       prev_item->lastRec.kv.key );
-                if (cmp == 0) {
-                    // Same key, should take previous one.
-                    windowCursor = prev_cursor;
-                    continue;
-                }
-            }
+        ItrInt::ItrItem* item = _get_entry(cursor, ItrInt::ItrItem, an);
+        if (item->flags & skip_flags) continue;
+
+        if (windowCursor) {
+            ItrInt::ItrItem* last = _get_entry(windowCursor, ItrInt::ItrItem, an);
+            if ( type == ItrInt::BY_SEQ ||
+                 cmpSizedBuf(item->lastRec.kv.key, last->lastRec.kv.key) != 0 ) break;
+            // Same key, should take previous one.
         }
-        break;
-#if 0
-        if (item->flags == ItrItem::none) break;
-        else windowCursor = avl_prev(windowCursor);
-#endif
+        windowCursor = cursor;
     }
     return Status();
 }
@@ -542,7 +531,8 @@ Status Iterator::IteratorInternal::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Skip items that have no record smaller than or equal to the given one.
+        moveToLastValid(ItrInt::ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index f9d87aa..72872cc 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -409,36 +409,25 @@ Status LogMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status LogMgr::Iterator::moveToLastValid() {
-    windowCursor = avl_last(&curWindow);
-    while (windowCursor) {
+Status LogMgr::Iterator::moveToLastValid(uint8_t skip_flags) {
+    windowCursor = nullptr;
+    avl_node* cursor = avl_last(&curWindow);
+    for (; cursor; cursor = avl_prev(cursor)) {
         // Find *LAST* valid item (only for BY_KEY).
         //
         // e.g.)
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
-        ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if (item->flags & skip_flags) continue;
 
-        if (type == BY_KEY) {
-            ItrItem* prev_item = nullptr;
-            avl_node* prev_cursor = avl_prev(windowCursor);
-            if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
-
-            if (prev_item) {
-                int cmp = cmpSizedBuf( item->lastRec.kv.key,
-                                       prev_item->lastRec.kv.key );
-                if (cmp == 0) {
-                    // Same key, should take previous one.
-                    windowCursor = prev_cursor;
-                    continue;
-                }
-            }
+        if (windowCursor) {
+            ItrItem* last = _get_entry(windowCursor, ItrItem, an);
+            if ( type == BY_SEQ ||
+                 cmpSizedBuf(item->lastRec.kv.key, last->lastRec.kv.key) != 0 ) break;
+            // Same key, should take previous one.
         }
-        break;
-#if 0
-        if (item->flags == ItrItem::none) break;
-        else windowCursor = avl_prev(windowCursor);
-#endif
+        windowCursor = cursor;
     }
     return Status();
 }
@@ -524,7 +513,8 @@ Status LogMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Skip items that have no record smaller than or equal to the given one.
+        moveToLastValid(ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 19c9161..92e1b46 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -356,7 +356,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(uint8_t skip_flags = 0);
 
         void addLogFileItr(LogFileInfo* l_info, bool is_log_store_snapshot);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index ced8f81..797f7e9 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -370,36 +370,25 @@ Status TableMgr::Iterator::gotoEnd() {
     return seekInternal(empty_key, 0, SMALLER, true);
 }
 
-Status TableMgr::Iterator::moveToLastValid() {
-    windowCursor = avl_last(&curWindow);
-    while (windowCursor) {
+Status TableMgr::Iterator::moveToLastValid(uint8_t skip_flags) {
+    windowCursor = nullptr;
+    avl_node* cursor = avl_last(&curWindow);
+    for (; cursor; cursor = avl_prev(cursor)) {
         // Find *LAST* valid item (only for BY_KEY).
         //
         // e.g.)
         //  ... Del K9 (seq 100), Ins K9 (seq 99)
         //  We should pick up `Del K9`.
-        ItrItem* item = _get_entry(windowCursor, ItrItem, an);
+        ItrItem* item = _get_entry(cursor, ItrItem, an);
+        if (item->flags & skip_flags) continue;
 
-        if (type == BY_KEY) {
-            ItrItem* prev_item = nullptr;
-            avl_node* prev_cursor = avl_prev(windowCursor);
-            if (prev_cursor) prev_item = _get_entry(prev_cursor, ItrItem, an);
-
-            if (prev_item) {
-                int cmp = cmpSizedBuf( item->lastRec.kv.key,
-                                       prev_item->lastRec.kv.key );
-                if (cmp == 0) {
-                    // Same key, should take previous one.
-                    windowCursor = prev_cursor;
-                    continue;
-                }
-            }
+        if (windowCursor) {
+            ItrItem* last = _get_entry(windowCursor, ItrItem, an);
+            if ( type == BY_SEQ ||
+                 cmpSizedBuf(item->lastRec.kv.key, last->lastRec.kv.key) != 0 ) break;
+            // Same key, should take previous one.
         }
-        break;
-#if 0
-        if (item->flags == ItrItem::none) break;
-        else windowCursor = avl_prev(windowCursor);
-#endif
+        windowCursor = cursor;
     }
     return Status();
 }
@@ -488,7 +477,8 @@ Status TableMgr::Iterator::seekInternal
             else windowCursor = avl_next(windowCursor);
         }
     } else { // SMALLER
-        moveToLastValid();
+        // Skip items that have no record smaller than or equal to the given one.
+        moveToLastValid(ItrItem::no_more_prev);
     }
 
     if (!windowCursor) {
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 3046bb2..93d6ac4 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -429,7 +429,7 @@ public:
                             const uint64_t seqnum,
                             SeekOption opt,
                             bool goto_end = false);
-        Status moveToLastValid();
+        Status moveToLastValid(uint8_t skip_flags = 0);
         inline int cmpSizedBuf(const SizedBuf& l, const SizedBuf& r);
         bool checkValidBySeq(ItrItem* item,
                              const uint64_t cur_seq,
-- 
2.43.0


From f623ff6497ebcc023e58a762c9b3b87d77f0ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:20 +0000
Subject: [PATCH 49/50] fix: iterator skipped records after changing its
 direction at either end

---
 src/db_internal.h     |  1 +
 src/iterator.cc       | 32 +++++++++++++++-----------------
 src/log_iterator.cc   | 32 +++++++++++++++-----------------
 src/log_mgr.h         |  1 +
 src/table_iterator.cc | 32 +++++++++++++++-----------------
 src/table_mgr.h       |  1 +
 6 files changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/db_internal.h b/src/db_internal.h
index abd493f..bd687d9 100644
--- a/src/db_internal.h
+++ b/src/db_internal.h
@@ -212,6 +212,7 @@ public:
             none = 0x0,
             no_more_prev = 0x1,
             no_more_next = 0x2,
+            invalid = 0x4,
         };
         inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
             ItrItem* aa = _get_entry(a, ItrItem, an);
diff --git a/src/iterator.cc b/src/iterator.cc
index 7b1fc03..6748078 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -510,7 +510,8 @@ Status Iterator::IteratorInternal::seekInternal
             }
         } else {
             item->flags = ItrInt::ItrItem::no_more_prev |
-                          ItrInt::ItrItem::no_more_next;
+                          ItrInt::ItrItem::no_more_next |
+                          ItrInt::ItrItem::invalid;
         }
 
         avl_cmp_func* cmp_func = (type == ItrInt::BY_SEQ)
@@ -574,28 +575,25 @@ bool Iterator::IteratorInternal::checkValidBySeq(ItrInt::ItrItem* item,
                                                  const uint64_t cur_seq,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // Item that failed to move does not have valid record.
+    if (item->flags & ItrInt::ItrItem::invalid) return false;
+
+    // NOTE: Item whose cursor stays at (or beyond) the current position
+    //       should be skipped. Note that flags are not enough for that,
+    //       as the item which cannot move further in one direction
+    //       may still be valid in that direction.
+    return (is_prev) ? (item->lastRec.seqNum < cur_seq)
+                     : (item->lastRec.seqNum > cur_seq);
 }
 
 bool Iterator::IteratorInternal::checkValidByKey(ItrInt::ItrItem* item,
                                                  const SizedBuf& cur_key,
                                                  const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrInt::ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrInt::ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrInt::ItrItem::invalid) return false;
+
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return (is_prev) ? (cmp < 0) : (cmp > 0);
 }
 
 Status Iterator::close() {
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 72872cc..36f5e92 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -493,7 +493,8 @@ Status LogMgr::Iterator::seekInternal
             }
         } else {
             item->flags = ItrItem::no_more_prev |
-                          ItrItem::no_more_next;
+                          ItrItem::no_more_next |
+                          ItrItem::invalid;
         }
 
         avl_cmp_func* cmp_func = (type == BY_SEQ)
@@ -556,28 +557,25 @@ bool LogMgr::Iterator::checkValidBySeq(ItrItem* item,
                                        const uint64_t cur_seq,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // Item that failed to move does not have valid record.
+    if (item->flags & ItrItem::invalid) return false;
+
+    // NOTE: Item whose cursor stays at (or beyond) the current position
+    //       should be skipped. Note that flags are not enough for that,
+    //       as the item which cannot move further in one direction
+    //       may still be valid in that direction.
+    return (is_prev) ? (item->lastRec.seqNum < cur_seq)
+                     : (item->lastRec.seqNum > cur_seq);
 }
 
 bool LogMgr::Iterator::checkValidByKey(ItrItem* item,
                                        const SizedBuf& cur_key,
                                        const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::invalid) return false;
+
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return (is_prev) ? (cmp < 0) : (cmp > 0);
 }
 
 Status LogMgr::Iterator::close() {
diff --git a/src/log_mgr.h b/src/log_mgr.h
index 92e1b46..2691bdf 100644
--- a/src/log_mgr.h
+++ b/src/log_mgr.h
@@ -307,6 +307,7 @@ public:
                 none = 0x0,
                 no_more_prev = 0x1,
                 no_more_next = 0x2,
+                invalid = 0x4,
             };
             inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
                 ItrItem* aa = _get_entry(a, ItrItem, an);
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 797f7e9..897239c 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -456,7 +456,8 @@ Status TableMgr::Iterator::seekInternal
             }
         } else {
             item->flags = ItrItem::no_more_prev |
-                          ItrItem::no_more_next;
+                          ItrItem::no_more_next |
+                          ItrItem::invalid;
         }
 
         avl_cmp_func* cmp_func = (type == BY_SEQ)
@@ -505,28 +506,25 @@ bool TableMgr::Iterator::checkValidBySeq(ItrItem* item,
                                          const uint64_t cur_seq,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (item->lastRec.seqNum == cur_seq) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    // Item that failed to move does not have valid record.
+    if (item->flags & ItrItem::invalid) return false;
+
+    // NOTE: Item whose cursor stays at (or beyond) the current position
+    //       should be skipped. Note that flags are not enough for that,
+    //       as the item which cannot move further in one direction
+    //       may still be valid in that direction.
+    return (is_prev) ? (item->lastRec.seqNum < cur_seq)
+                     : (item->lastRec.seqNum > cur_seq);
 }
 
 bool TableMgr::Iterator::checkValidByKey(ItrItem* item,
                                          const SizedBuf& cur_key,
                                          const bool is_prev)
 {
-    if ( ( !is_prev && (item->flags & ItrItem::no_more_next) ) ||
-         (  is_prev && (item->flags & ItrItem::no_more_prev) ) ) {
-        return false;
-    } else if (cmpSizedBuf(item->lastRec.kv.key, cur_key) == 0) {
-        // Duplicate item, skip.
-        return false;
-    }
-    return true;
+    if (item->flags & ItrItem::invalid) return false;
+
+    int cmp = cmpSizedBuf(item->lastRec.kv.key, cur_key);
+    return (is_prev) ? (cmp < 0) : (cmp > 0);
 }
 
 
diff --git a/src/table_mgr.h b/src/table_mgr.h
index 93d6ac4..3f05175 100644
--- a/src/table_mgr.h
+++ b/src/table_mgr.h
@@ -370,6 +370,7 @@ public:
                 none = 0x0,
                 no_more_prev = 0x1,
                 no_more_next = 0x2,
+                invalid = 0x4,
             };
             inline static int cmpSeq(avl_node *a, avl_node *b, void *aux) {
                 ItrItem* aa = _get_entry(a, ItrItem, an);
-- 
2.43.0


From a3bc356bbe863db79e4b43e6174663a8db458ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:48:20 +0000
Subject: [PATCH 50/50] fix: seeking past the last record returned an old
 version of it

---
 src/iterator.cc       | 2 +-
 src/log_iterator.cc   | 2 +-
 src/table_iterator.cc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iterator.cc b/src/iterator.cc
index 6748078..7306b57 100644
--- a/src/iterator.cc
+++ b/src/iterator.cc
@@ -538,7 +538,7 @@ Status Iterator::IteratorInternal::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/log_iterator.cc b/src/log_iterator.cc
index 36f5e92..6c49557 100644
--- a/src/log_iterator.cc
+++ b/src/log_iterator.cc
@@ -520,7 +520,7 @@ Status LogMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
 
diff --git a/src/table_iterator.cc b/src/table_iterator.cc
index 897239c..e5cd65c 100644
--- a/src/table_iterator.cc
+++ b/src/table_iterator.cc
@@ -484,7 +484,7 @@ Status TableMgr::Iterator::seekInternal
 
     if (!windowCursor) {
         // Reached the end.
-        if (opt == GREATER) windowCursor = avl_last(&curWindow);
+        if (opt == GREATER) moveToLastValid();
         if (opt == SMALLER) windowCursor = avl_first(&curWindow);
     }
     return Status();
-- 
2.43.0

