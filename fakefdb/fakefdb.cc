// A small functional stand-in for ForestDB: just enough for Jungle's table
// files to work (ordered docs, commit points, snapshots, iterators, recovery
// to the last commit).  Used by demonstrations and to run upstream tests; no
// registered check depends on it.
#include <libforestdb/forestdb.h>
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

namespace {
struct Doc {
    std::string key, meta, body;
    uint64_t seq, off;
    bool del;
};
struct Cmp {
    fdb_custom_cmp_variable f = nullptr;
    void* p = nullptr;
    bool operator()(const std::string& a, const std::string& b) const {
        if (f) return f((void*)a.data(), a.size(), (void*)b.data(), b.size(), p) < 0;
        return a < b;
    }
};
struct Commit { uint64_t seq; uint64_t idx; };
struct File {
    std::recursive_mutex m;
    std::string path;
    int fd = -1;
    uint64_t off = 0;
    Cmp cmp;
    std::vector<std::shared_ptr<Doc>> docs;
    std::vector<Commit> commits;
    std::map<std::string, std::vector<uint64_t>, Cmp> idx;
    std::map<uint64_t, uint64_t> byoff;
    uint64_t seq = 0;
    File(const Cmp& c) : cmp(c), idx(c) {}
    ~File() { if (fd >= 0) ::close(fd); }
    void add(const std::shared_ptr<Doc>& d) {
        docs.push_back(d);
        idx[d->key].push_back(docs.size());
        byoff[d->off] = docs.size();
        seq = std::max(seq, d->seq);
    }
};
std::mutex reg_m;
std::map<std::string, std::weak_ptr<File>> reg;
typedef std::recursive_mutex RM;
typedef std::lock_guard<RM> G;

void put(std::string& b, uint64_t v) { b.append((char*)&v, 8); }
uint64_t get(const char*& p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
uint64_t sum(const char* p, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
    return h;
}
bool wr(File* f, const std::string& b) {
    size_t d = 0;
    while (d < b.size()) {
        ssize_t r = ::pwrite(f->fd, b.data() + d, b.size() - d, f->off + d);
        if (r <= 0) return false;
        d += r;
    }
    f->off += b.size();
    return true;
}
// record: magic(8) len(8) payload sum(8)
const uint64_t MD = 0x4644424f4b444f43ull, MC = 0x4644424f4b434d54ull;

bool load(File* f) {
    struct stat st;
    if (fstat(f->fd, &st)) return false;
    std::string b(st.st_size, 0);
    size_t d = 0;
    while (d < b.size()) {
        ssize_t r = ::pread(f->fd, &b[d], b.size() - d, d);
        if (r <= 0) break;
        d += r;
    }
    b.resize(d);
    std::vector<std::shared_ptr<Doc>> pend;
    uint64_t good = 0;
    size_t pos = 0;
    while (pos + 24 <= b.size()) {
        const char* p = b.data() + pos;
        uint64_t m = get(p), len = get(p);
        if ((m != MD && m != MC) || pos + 24 + len > b.size()) break;
        const char* pl = p;
        const char* e = p + len;
        uint64_t s = get(e);
        if (s != sum(pl, len)) break;
        if (m == MD) {
            auto x = std::make_shared<Doc>();
            x->off = pos;
            x->seq = get(p);
            x->del = get(p) != 0;
            uint64_t kl = get(p), ml = get(p), bl = get(p);
            x->key.assign(p, kl); p += kl;
            x->meta.assign(p, ml); p += ml;
            x->body.assign(p, bl);
            pend.push_back(x);
            pos += 24 + len;
        } else {
            for (auto& x : pend) f->add(x);
            pend.clear();
            uint64_t cs = get(p);
            f->seq = cs;
            f->commits.push_back({cs, f->docs.size()});
            pos += 24 + len;
            good = pos;
        }
    }
    f->off = good;
    if (::ftruncate(f->fd, good)) return false;
    return true;
}
}  // namespace

struct _fdb_file_handle { std::shared_ptr<File> f; fdb_config c; };
struct _fdb_kvs_handle {
    std::shared_ptr<File> f;
    uint64_t snap = UINT64_MAX;
    uint64_t sseq = 0;
};
struct _fdb_iterator {
    std::shared_ptr<File> f;
    std::vector<std::shared_ptr<Doc>> v;
    int64_t pos = 0;
    bool byseq = false;
};

template<typename L>
static fdb_status iseek(fdb_iterator* i, L less, fdb_iterator_seek_opt_t o) {
    // less(doc): -1 doc before target, 0 equal, 1 after
    int64_t n = i->v.size(), lo = 0;
    while (lo < n && less(*i->v[lo]) < 0) ++lo;
    if (o == FDB_ITR_SEEK_HIGHER) { i->pos = lo; }
    else { i->pos = (lo < n && less(*i->v[lo]) == 0) ? lo : lo - 1; }
    return (i->pos < 0 || i->pos >= n) ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS;
}
extern "C" {
fdb_config fdb_get_default_config(void) {
    fdb_config c; memset(&c, 0, sizeof c);
    c.wal_threshold = 4096; c.num_wal_partitions = 11; c.num_bcache_partitions = 11;
    c.num_keeping_headers = 5; c.buffercache_size = 128 << 20;
    return c;
}
fdb_kvs_config fdb_get_default_kvs_config(void) {
    fdb_kvs_config c; memset(&c, 0, sizeof c); c.create_if_missing = true; return c;
}
fdb_status fdb_shutdown(void) { return FDB_RESULT_SUCCESS; }
fdb_status fdb_open_custom_cmp(fdb_file_handle** ptr, const char* fn, fdb_config* c,
                               size_t n, char**, fdb_custom_cmp_variable* fs, void** ps) {
    Cmp cmp;
    if (n && fs) { cmp.f = fs[0]; cmp.p = ps ? ps[0] : nullptr; }
    std::lock_guard<std::mutex> l(reg_m);
    auto f = reg[fn].lock();
    if (f) {
        struct stat a, b;
        if (::stat(fn, &a) || fstat(f->fd, &b) || a.st_ino != b.st_ino) f.reset();
    }
    if (!f) {
        f = std::make_shared<File>(cmp);
        f->path = fn;
        f->fd = ::open(fn, O_RDWR | O_CREAT, 0644);
        if (f->fd < 0) return FDB_RESULT_OPEN_FAIL;
        if (!load(f.get())) return FDB_RESULT_READ_FAIL;
        reg[fn] = f;
    }
    *ptr = new _fdb_file_handle{f, *c};
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_open(fdb_file_handle** ptr, const char* fn, fdb_config* c) {
    return fdb_open_custom_cmp(ptr, fn, c, 0, nullptr, nullptr, nullptr);
}
fdb_status fdb_close(fdb_file_handle* h) { delete h; return FDB_RESULT_SUCCESS; }
fdb_status fdb_kvs_open(fdb_file_handle* fh, fdb_kvs_handle** p, const char*, fdb_kvs_config*) {
    auto* k = new _fdb_kvs_handle;
    k->f = fh->f;
    *p = k;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) { delete h; return FDB_RESULT_SUCCESS; }
fdb_status fdb_snapshot_open(fdb_kvs_handle* in, fdb_kvs_handle** out, fdb_seqnum_t seq) {
    G g(in->f->m);
    auto* k = new _fdb_kvs_handle;
    k->f = in->f;
    k->sseq = seq;
    if (in->snap != UINT64_MAX) {
        k->snap = in->snap; k->sseq = in->sseq; *out = k; return FDB_RESULT_SUCCESS;
    }
    for (size_t i = in->f->commits.size(); i-- > 0;)
        if (in->f->commits[i].seq == seq) {
            k->snap = in->f->commits[i].idx; *out = k; return FDB_RESULT_SUCCESS;
        }
    delete k;
    return FDB_RESULT_NO_DB_HEADERS;
}
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    File* f = h->f.get();
    G g(f->m);
    std::string pl, r;
    put(pl, f->seq);
    put(r, MC); put(r, pl.size()); r += pl; put(r, sum(pl.data(), pl.size()));
    if (!wr(f, r)) return FDB_RESULT_WRITE_FAIL;
    f->commits.push_back({f->seq, f->docs.size()});
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* h) {
    return ::fsync(h->f->fd) ? FDB_RESULT_WRITE_FAIL : FDB_RESULT_SUCCESS;
}
static fdb_status setdoc(fdb_kvs_handle* h, fdb_doc* d, bool del) {
    File* f = h->f.get();
    G g(f->m);
    if (h->snap != UINT64_MAX) return FDB_RESULT_RONLY_VIOLATION;
    auto x = std::make_shared<Doc>();
    x->key.assign((char*)d->key, d->keylen);
    if (d->metalen) x->meta.assign((char*)d->meta, d->metalen);
    if (d->bodylen && !del) x->body.assign((char*)d->body, d->bodylen);
    x->seq = (d->flags & FDB_CUSTOM_SEQNUM) ? d->seqnum : f->seq + 1;
    x->del = del;
    x->off = f->off;
    std::string pl, r;
    put(pl, x->seq); put(pl, del); put(pl, x->key.size()); put(pl, x->meta.size());
    put(pl, x->body.size());
    pl += x->key; pl += x->meta; pl += x->body;
    put(r, MD); put(r, pl.size()); r += pl; put(r, sum(pl.data(), pl.size()));
    if (!wr(f, r)) return FDB_RESULT_WRITE_FAIL;
    d->offset = x->off;
    f->add(x);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* d) { return setdoc(h, d, d->deleted); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* d) { return setdoc(h, d, true); }

static std::shared_ptr<Doc> vis(File* f, uint64_t snap, const std::vector<uint64_t>& v) {
    for (size_t i = v.size(); i-- > 0;)
        if (v[i] <= snap) return f->docs[v[i] - 1];
    return nullptr;
}
static void* sdup(const std::string& s) {
    if (s.empty()) return nullptr;
    void* p = malloc(s.size()); memcpy(p, s.data(), s.size()); return p;
}
static void fill(const Doc& x, fdb_doc* d, bool key, bool body, bool reuse) {
    if (key) {
        d->keylen = x.key.size();
        if (reuse && d->key) memcpy(d->key, x.key.data(), x.key.size()); else d->key = sdup(x.key);
    }
    d->metalen = x.meta.size();
    if (reuse && d->meta) memcpy(d->meta, x.meta.data(), x.meta.size()); else d->meta = sdup(x.meta);
    d->bodylen = x.body.size();
    if (body) {
        if (reuse && d->body) memcpy(d->body, x.body.data(), x.body.size()); else d->body = sdup(x.body);
    }
    d->seqnum = x.seq; d->offset = x.off; d->deleted = x.del;
    d->size_ondisk = x.key.size() + x.meta.size() + x.body.size();
}
static fdb_status getdoc(fdb_kvs_handle* h, fdb_doc* d, bool body) {
    File* f = h->f.get();
    G g(f->m);
    auto e = f->idx.find(std::string((char*)d->key, d->keylen));
    if (e == f->idx.end()) return FDB_RESULT_KEY_NOT_FOUND;
    auto x = vis(f, h->snap, e->second);
    if (!x || x->del) return FDB_RESULT_KEY_NOT_FOUND;
    fill(*x, d, false, body, false);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* d) { return getdoc(h, d, true); }
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* d) { return getdoc(h, d, false); }
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* d) {
    File* f = h->f.get();
    G g(f->m);
    auto e = f->byoff.find(d->offset);
    if (e == f->byoff.end()) return FDB_RESULT_KEY_NOT_FOUND;
    fill(*f->docs[e->second - 1], d, true, true, false);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_nearest(fdb_kvs_handle* h, void* key, size_t keylen, fdb_doc* d,
                           fdb_get_nearest_opt_t opt) {
    File* f = h->f.get();
    G g(f->m);
    std::string k((char*)key, keylen);
    bool up = opt == FDB_GET_GREATER || opt == FDB_GET_GREATER_OR_EQUAL;
    auto it = (opt == FDB_GET_GREATER || opt == FDB_GET_SMALLER_OR_EQUAL)
              ? f->idx.upper_bound(k) : f->idx.lower_bound(k);
    if (up) {
        for (; it != f->idx.end(); ++it) {
            auto x = vis(f, h->snap, it->second);
            if (x && !x->del) { fill(*x, d, true, true, false); return FDB_RESULT_SUCCESS; }
        }
    } else {
        while (it != f->idx.begin()) {
            --it;
            auto x = vis(f, h->snap, it->second);
            if (x && !x->del) { fill(*x, d, true, true, false); return FDB_RESULT_SUCCESS; }
        }
    }
    return FDB_RESULT_KEY_NOT_FOUND;
}
fdb_status fdb_doc_free(fdb_doc* d) {
    if (d) { free(d->key); free(d->meta); free(d->body); free(d); }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* s) {
    G g(h->f->m);
    *s = h->snap == UINT64_MAX ? h->f->seq : h->sseq;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* i) {
    G g(h->f->m);
    memset(i, 0, sizeof *i);
    for (auto& e : h->f->idx) {
        auto x = vis(h->f.get(), h->snap, e.second);
        if (!x) continue;
        if (x->del) i->deleted_count++; else i->doc_count++;
        i->space_used += x->key.size() + x->meta.size() + x->body.size();
    }
    i->last_seqnum = h->f->seq;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* i) {
    G g(h->f->m);
    memset(i, 0, sizeof *i);
    fdb_kvs_info k; _fdb_kvs_handle t; t.f = h->f;
    fdb_get_kvs_info(&t, &k);
    i->doc_count = k.doc_count; i->deleted_count = k.deleted_count;
    i->space_used = k.space_used; i->file_size = h->f->off;
    i->num_kv_stores = 1;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* num) {
    G g(h->f->m);
    auto& c = h->f->commits;
    if (c.empty()) return FDB_RESULT_NO_DB_HEADERS;
    *num = c.size();
    *out = (fdb_snapshot_info_t*)calloc(c.size(), sizeof **out);
    for (size_t i = 0; i < c.size(); ++i) {
        auto& o = (*out)[i];
        auto& s = c[c.size() - 1 - i];
        o.marker = s.idx;
        o.num_kvs_markers = 1;
        o.kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof *o.kvs_markers);
        o.kvs_markers[0].seqnum = s.seq;
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t n) {
    for (uint64_t i = 0; i < n; ++i) free(m[i].kvs_markers);
    free(m);
    return FDB_RESULT_SUCCESS;
}
size_t fdb_get_buffer_cache_used(void) { return 0; }
void fdb_print_cache_stats(void) {}
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) { return FDB_RESULT_SUCCESS; }

fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out, const void* mn, size_t mnl,
                             const void* mx, size_t mxl, fdb_iterator_opt_t opt) {
    File* f = h->f.get();
    G g(f->m);
    auto* it = new _fdb_iterator;
    it->f = h->f;
    auto a = mnl ? f->idx.lower_bound(std::string((char*)mn, mnl)) : f->idx.begin();
    std::string hi((char*)mx, mxl);
    for (; a != f->idx.end(); ++a) {
        if (mxl && f->cmp(hi, a->first)) break;
        auto x = vis(f, h->snap, a->second);
        if (!x || (x->del && (opt & FDB_ITR_NO_DELETES))) continue;
        it->v.push_back(x);
    }
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out, fdb_seqnum_t mn,
                                      fdb_seqnum_t mx, fdb_iterator_opt_t opt) {
    File* f = h->f.get();
    G g(f->m);
    auto* it = new _fdb_iterator;
    it->f = h->f;
    it->byseq = true;
    for (auto& a : f->idx) {
        auto x = vis(f, h->snap, a.second);
        if (!x || (x->del && (opt & FDB_ITR_NO_DELETES))) continue;
        if (x->seq < mn || (mx && x->seq > mx)) continue;
        it->v.push_back(x);
    }
    std::stable_sort(it->v.begin(), it->v.end(),
                     [](const std::shared_ptr<Doc>& a, const std::shared_ptr<Doc>& b) {
                         return a->seq < b->seq; });
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_prev(fdb_iterator* i) {
    if (i->pos < 0) return FDB_RESULT_ITERATOR_FAIL;
    return --i->pos < 0 ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_next(fdb_iterator* i) {
    if (i->pos >= (int64_t)i->v.size()) return FDB_RESULT_ITERATOR_FAIL;
    return ++i->pos >= (int64_t)i->v.size() ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS;
}
static fdb_status iget(fdb_iterator* i, fdb_doc** d, bool body) {
    if (i->pos < 0 || i->pos >= (int64_t)i->v.size()) return FDB_RESULT_ITERATOR_FAIL;
    if (!*d) *d = (fdb_doc*)calloc(1, sizeof **d);
    fill(*i->v[i->pos], *d, true, body, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* i, fdb_doc** d) { return iget(i, d, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* i, fdb_doc** d) { return iget(i, d, false); }
fdb_status fdb_iterator_seek(fdb_iterator* i, const void* key, size_t len, fdb_iterator_seek_opt_t o) {
    std::string k((char*)key, len);
    Cmp& c = i->f->cmp;
    return iseek(i, [&](const Doc& d) { return c(d.key, k) ? -1 : (c(k, d.key) ? 1 : 0); }, o);
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* i, fdb_seqnum_t s, fdb_iterator_seek_opt_t o) {
    return iseek(i, [&](const Doc& d) { return d.seq < s ? -1 : (d.seq > s ? 1 : 0); }, o);
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* i) {
    i->pos = 0;
    return i->v.empty() ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek_to_max(fdb_iterator* i) {
    i->pos = (int64_t)i->v.size() - 1;
    return i->v.empty() ? FDB_RESULT_ITERATOR_FAIL : FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_close(fdb_iterator* i) { delete i; return FDB_RESULT_SUCCESS; }
fdb_status fdb_traverse_index(fdb_kvs_handle* h, void* k, size_t len, fdb_index_traversal_cb cb, void* ctx) {
    std::vector<std::shared_ptr<Doc>> v;
    {   G g(h->f->m);
        auto a = len ? h->f->idx.lower_bound(std::string((char*)k, len)) : h->f->idx.begin();
        for (; a != h->f->idx.end(); ++a) {
            auto x = vis(h->f.get(), h->snap, a->second);
            if (x && !x->del) v.push_back(x);
        }
    }
    for (auto& x : v)
        if (cb(h, (void*)x->key.data(), x->key.size(), x->off, ctx) == FDB_IT_STOP) break;
    return FDB_RESULT_SUCCESS;
}
}
