// Declaration-only stand-in for the ForestDB API, limited to what Jungle
// names.  It exists so that every translation unit of Jungle can be parsed
// and type-checked without ForestDB, which is not available here.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

typedef uint64_t fdb_seqnum_t;
typedef struct _fdb_file_handle fdb_file_handle;
typedef struct _fdb_kvs_handle fdb_kvs_handle;
typedef struct _fdb_iterator fdb_iterator;

typedef enum {
    FDB_RESULT_SUCCESS = 0,
    FDB_RESULT_INVALID_ARGS = -1,
    FDB_RESULT_OPEN_FAIL = -2,
    FDB_RESULT_NO_SUCH_FILE = -3,
    FDB_RESULT_WRITE_FAIL = -4,
    FDB_RESULT_READ_FAIL = -5,
    FDB_RESULT_CLOSE_FAIL = -6,
    FDB_RESULT_COMMIT_FAIL = -7,
    FDB_RESULT_ALLOC_FAIL = -8,
    FDB_RESULT_KEY_NOT_FOUND = -9,
    FDB_RESULT_RONLY_VIOLATION = -10,
    FDB_RESULT_COMPACTION_FAIL = -11,
    FDB_RESULT_ITERATOR_FAIL = -12,
    FDB_RESULT_CHECKSUM_ERROR = -15,
    FDB_RESULT_FILE_CORRUPTION = -16,
    FDB_RESULT_INVALID_HANDLE = -23,
    FDB_RESULT_NO_DB_HEADERS = -24,
    FDB_RESULT_COMPACTION_CANCELLATION = -44
} fdb_status;

enum { FDB_SEQTREE_NOT_USE = 0, FDB_SEQTREE_USE = 1 };
typedef uint8_t fdb_seqtree_opt_t;
enum { FDB_DRB_NONE = 0, FDB_DRB_ODIRECT = 1, FDB_DRB_ASYNC = 2,
       FDB_DRB_ODIRECT_ASYNC = 3 };
typedef uint8_t fdb_durability_opt_t;
enum { FDB_COMMIT_NORMAL = 0, FDB_COMMIT_MANUAL_WAL_FLUSH = 1 };
typedef uint8_t fdb_commit_opt_t;
enum { FDB_ITR_NONE = 0, FDB_ITR_NO_DELETES = 2, FDB_ITR_SKIP_MIN_KEY = 4,
       FDB_ITR_SKIP_MAX_KEY = 8 };
typedef uint16_t fdb_iterator_opt_t;
enum { FDB_ITR_SEEK_HIGHER = 0, FDB_ITR_SEEK_LOWER = 1 };
typedef uint8_t fdb_iterator_seek_opt_t;
enum { FDB_GET_GREATER = 1, FDB_GET_GREATER_OR_EQUAL = 2,
       FDB_GET_SMALLER = 3, FDB_GET_SMALLER_OR_EQUAL = 4 };
typedef uint8_t fdb_get_nearest_opt_t;
enum { FDB_CS_BEGIN = 1, FDB_CS_MOVE_DOC = 2, FDB_CS_BATCH_MOVE = 4,
       FDB_CS_FLUSH_WAL = 8, FDB_CS_END = 16, FDB_CS_COMPLETE = 32 };
typedef uint32_t fdb_compaction_status;
enum { FDB_CS_KEEP_DOC = 0, FDB_CS_DROP_DOC = 1 };
typedef int fdb_compact_decision;
enum { FDB_IT_NEXT = 0, FDB_IT_STOP = 1 };
typedef int fdb_index_traversal_decision;
enum { FDB_CUSTOM_SEQNUM = 0x1 };

typedef struct fdb_doc_struct {
    size_t keylen;
    size_t metalen;
    size_t bodylen;
    size_t size_ondisk;
    void* key;
    fdb_seqnum_t seqnum;
    uint64_t offset;
    void* meta;
    void* body;
    bool deleted;
    uint32_t flags;
} fdb_doc;

typedef int (*fdb_custom_cmp_variable)(void* a, size_t len_a,
                                       void* b, size_t len_b,
                                       void* user_param);
typedef void (*fdb_log_callback_ex)(int level, int ec, const char* file,
                                    const char* func, size_t line,
                                    const char* err_msg, void* ctx_data);
typedef fdb_compact_decision (*fdb_compaction_callback)(
    fdb_file_handle* fhandle, fdb_compaction_status status,
    const char* kv_store_name, fdb_doc* doc,
    uint64_t last_oldfile_offset, uint64_t last_newfile_offset, void* ctx);

typedef struct {
    uint64_t buffercache_size;
    uint64_t wal_threshold;
    bool wal_flush_before_commit;
    fdb_seqtree_opt_t seqtree_opt;
    fdb_durability_opt_t durability_opt;
    uint8_t compaction_threshold;
    uint32_t purging_interval;
    fdb_compaction_callback compaction_cb;
    uint32_t compaction_cb_mask;
    void* compaction_cb_ctx;
    size_t num_wal_partitions;
    size_t num_bcache_partitions;
    size_t block_reusing_threshold;
    size_t num_keeping_headers;
    size_t num_compactor_threads;
    bool do_not_move_to_compacted_file;
    bool enable_background_compactor;
    uint64_t min_block_reuse_filesize;
    size_t max_block_reusing_cycle;
    bool bulk_load_mode;
    bool bottom_up_index_build;
    bool do_not_search_wal;
    bool do_not_cache_doc_blocks;
    size_t num_blocks_readahead;
    int log_msg_level;
} fdb_config;

typedef struct {
    bool create_if_missing;
    fdb_custom_cmp_variable custom_cmp;
    void* custom_cmp_param;
} fdb_kvs_config;

typedef struct {
    const char* name;
    fdb_seqnum_t last_seqnum;
    uint64_t doc_count;
    uint64_t deleted_count;
    uint64_t space_used;
    fdb_file_handle* file;
} fdb_kvs_info;

typedef struct {
    const char* filename;
    const char* new_filename;
    uint64_t doc_count;
    uint64_t deleted_count;
    uint64_t space_used;
    uint64_t file_size;
    size_t num_kv_stores;
    uint64_t num_live_nodes;
    uint64_t sb_bmp_revnum;
} fdb_file_info;

typedef struct {
    char* kv_store_name;
    fdb_seqnum_t seqnum;
} fdb_kvs_commit_marker_t;

typedef struct {
    uint64_t marker;
    int64_t num_kvs_markers;
    fdb_kvs_commit_marker_t* kvs_markers;
} fdb_snapshot_info_t;
