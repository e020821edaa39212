// Stand-in for libpmemobj, linked into the systems under test that use it.  It keeps PMDK's interface semantics
// (transactions with undo, atomic allocation, locks, one opener per pool) on the simulated persistent memory: every
// flush and fence it makes is an event of the simulation, so a crash can hit it at any of them.  It is not
// instrumented and never reuses memory.  Checks: double free, free of what is no object, ranges outside objects.
#include <libpmemobj.h>
#include <initializer_list>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

extern "C"
{
    void sim_clflush(const void *p);
    void sim_sfence(void);
    int sim_self();
    [[noreturn]] void sim_fail(const char *kind, const char *msg);
    uint64_t sim_choice(uint64_t tag);
    int sim_pfail();
    void sim_lock_forget(const void *a);
    int sim_lockfail();
    int sim_rw_timedlock(void *m, const struct timespec *ts);
    int sim_rw_cond_wait(void *c, void *m, const struct timespec *ts);
    void sim_cond_notify(void *c, int all);
    void sim_stored(const void *p, size_t n);
    int sim_freed(uint64_t off, int linked);
    void sim_track();
    void sim_flush_bulk(const void *p, size_t n);
}
// The few lock functions used: only the address matters to the simulator.
#include <pthread.h>

#ifndef POBJ_SIZE
#define POBJ_SIZE (768 * 1024)
#endif

namespace
{
typedef uint64_t u64;
const u64 MAGIC = 0x50304f424a53494dull;
#ifndef POBJ_LANES
#define POBJ_LANES 24
#endif
#ifndef POBJ_LOG // longest transaction: entries, and bytes of log
#define POBJ_LOG 192
#endif
enum { LANES = POBJ_LANES, LANE_SZ = 64 * POBJ_LOG, LANE0 = 4096, HEAP0 = LANE0 + LANES * LANE_SZ, MAXR = POBJ_LOG };
struct Header
{
    u64 magic, uuid, size, rootOff, rootSize;
    char layout[64];
    u64 runId, pad[2];
    u64 top; // own line
};
const u64 O_LIVE = 0x5cc1e3a7914bd211ull, O_FREED = 0x8f14a5c3d6b7e922ull, O_ROOT = 0x3a9d42c86e15f733ull; // never ordinary data
struct Obj { u64 size, state; };           // in front of every object
struct Redo { u64 valid, hdrOff, state, oidOff, uuid, off; };
struct Lane { u64 gen, committed; u64 pad[6]; Redo redo; u64 pad2[2]; char log[LANE_SZ - 128]; };
static_assert(sizeof(Lane) == LANE_SZ, "lane");
struct Ent { u64 gen, sum, off; uint32_t size, type; }; // data follows; type 1: old contents, 2: object allocated, 3: object freed

struct Range { u64 off, size; u64 flags; };
enum { MAXDEPTH = 16, MAXL = 16 };
struct Tx
{
    int stage, depth, err[MAXDEPTH], lastErr;
    pmemobj_tx_callback cb;
    void *cbArg, *user;
    size_t used;
    int nr, na, nf, nl, nq;
    Range r[MAXR];      // snapshotted, or to be flushed
    u64 alloc[MAXR], free_[MAXR];
    void *lock[MAXL];
    struct { u64 at; u64 off; uint32_t size, type; } q[MAXR]; // log entries in order
};

enum { MAXKINDS = 1021 };
struct { const void *at; int kind; } kinds[MAXKINDS]; // of locks, as they were last used
char *pool;             // base address, while open
size_t poolSize;
void *userData;
Tx tx[LANES];
char msg[160] = "no error";

Header &H() { return *(Header *)pool; }
Lane &lane(int i) { return *(Lane *)(pool + LANE0 + (size_t)i * LANE_SZ); }
Tx &T()
{
    int i = sim_self();
    if (i < 0 || i >= LANES) sim_fail("harness", "libpmemobj called outside a simulated thread");
    return tx[i];
}
Lane &L() { return lane(sim_self()); }
Obj &obj(u64 off) { return *(Obj *)(pool + off - 16); }
bool inPool(const void *p) { return pool && (const char *)p >= pool && (const char *)p < pool + poolSize; }

void put(u64 &at, u64 v) { at = v; sim_stored(&at, 8); }
void flush(const void *p, size_t n)
{
    if (!n) return;
    if (n >= 32768) { sim_flush_bulk(p, n); return; }
    uintptr_t a = (uintptr_t)p & ~63ull, e = (uintptr_t)p + n;
    for (; a < e; a += 64) sim_clflush((void *)a);
}
void persist(const void *p, size_t n) { flush(p, n); sim_sfence(); }
u64 sum(const Ent &e, const char *d)
{
    u64 h = e.gen * 0x9E3779B97F4A7C15ull ^ e.off;
    for (u64 x : {(u64)e.size, (u64)e.type}) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
    for (u64 i = 0; i < e.size; i++) { h ^= (unsigned char)d[i]; h *= 0x100000001b3ull; }
    return h ? h : 1;
}
int error(int e, const char *m)
{
    snprintf(msg, sizeof msg, "%s: errno %d", m, e);
    errno = e;
    return e;
}

// ---- allocation ----
#ifdef POBJ_RELAXED
// Bucket arrays are used again (pools of this kind live for one era).
struct Big { u64 at; size_t unit; } bigFree[32];
int nBig;
#endif
u64 reserve(size_t n, bool zero)
{
    size_t unit = (n + 16 + 63) & ~63ull;
#ifdef POBJ_RELAXED
    if (n >= 32768)
        for (int i = 0; i < nBig; i++)
            if (bigFree[i].unit == unit)
            {
                u64 at = bigFree[i].at;
                bigFree[i] = bigFree[--nBig];
                memset(pool + at + 16, 0, unit - 16);
                sim_stored(pool + at + 16, unit - 16);
                return at + 16;
            }
#endif
    u64 at = H().top;
    if (at + unit > poolSize) sim_fail("exhausted", "simulated pool exhausted");
    put(H().top, at + unit);
    char *p = pool + at + 16;
    bool junk = !zero && n < 32768 && sim_choice(0x6a756e6b) % 2;
    memset(p, junk ? 0xA5 : 0, unit - 16);
    if (junk || zero) sim_stored(p, unit - 16);
    flush(&H().top, 8);
    return at + 16;
}
void setState(u64 off, u64 st)
{
    put(obj(off).state, st);
    flush(&obj(off), 16);
}
void poison(u64 off)
{
    if (sim_choice(0x706f) % 2) return;
    memset(pool + off, 0xDB, obj(off).size);
    sim_stored(pool + off, obj(off).size);
}
#ifdef POBJ_RELAXED
// Frees of what is freed already are not judged, only remembered: an entry freed while a word still refers to it,
// or freed twice, or placed in memory again afterwards.
bool linked(u64 off)
{
    u64 *w = (u64 *)(pool + HEAP0), *e = (u64 *)(pool + H().top);
    for (; w < e; w++) if ((*w & 0x0000FFFFFFFFFFFCull) == off && w[-1] != H().uuid) return true;
    return false;
}
#endif
void checkLive(u64 off, const char *what)
{
    if (off < HEAP0 + 16 || off >= poolSize || (off & 63) != 16) sim_fail("bad-free", what);
    if (obj(off).state == O_FREED) sim_fail("pm-double-free", what);
    if (obj(off).state != O_LIVE) sim_fail("bad-free", what);
}
void applyRedo(Lane &l)
{
    Redo &r = l.redo;
    Obj &o = *(Obj *)(pool + r.hdrOff);
    put(o.state, r.state);
    flush(&o, 16);
    if (r.oidOff)
    {
        u64 *q = (u64 *)(pool + r.oidOff);
        put(q[0], r.uuid);
        put(q[1], r.off);
        flush(q, 16);
    }
    sim_sfence();
    put(r.valid, 0);
    persist(&r.valid, 8);
}
void redo(u64 hdrOff, u64 state, PMEMoid *oidp, u64 uuid, u64 off)
{
    bool in = inPool(oidp);
    Lane &l = L();
    Redo &r = l.redo;
    put(r.hdrOff, hdrOff);
    put(r.state, state);
    put(r.oidOff, in ? (u64)((char *)oidp - pool) : 0);
    put(r.uuid, uuid);
    put(r.off, off);
    persist(&r, sizeof r);
    put(r.valid, 1);
    persist(&r.valid, 8);
#ifdef POBJ_RELAXED
    if (state == O_FREED && obj(hdrOff + 16).state == O_FREED && sim_freed(hdrOff + 16, 1)) {}
    else
#endif
    if (state == O_FREED && obj(hdrOff + 16).state == O_FREED) sim_fail("pm-double-free", "persistent object freed twice");
    applyRedo(l);
    if (oidp && !in) { oidp->pool_uuid_lo = uuid; oidp->off = off; }
}

// ---- undo log ----
bool logAdd(Tx &t, u64 off, u64 size, uint32_t type)
{
    Lane &l = L();
    u64 data = type == 1 ? size : 0, need = sizeof(Ent) + ((data + 7) & ~7ull);
    if (t.used + need + sizeof(Ent) > sizeof l.log || t.nq >= MAXR) sim_fail("exhausted", "simulated undo log full");
    Ent *e = (Ent *)(l.log + t.used);
    Ent x{l.gen, 0, off, (uint32_t)size, type};
    memcpy(e + 1, pool + off, data);
    if (type != 1) x.size = 0;
    x.sum = sum(x, (char *)(e + 1));
    *e = x;
    sim_stored(e, need);
    t.q[t.nq++] = {t.used, off, (uint32_t)size, type};
    t.used += need;
    persist(e, need);
    return true;
}
void undo(Lane &l, u64 at)
{
    Ent *e = (Ent *)(l.log + at);
    if (e->type == 1)
    {
        memcpy(pool + e->off, e + 1, e->size);
        sim_stored(pool + e->off, e->size);
        flush(pool + e->off, e->size);
    }
    else if (e->type == 2) { put(obj(e->off).state, O_FREED); flush(&obj(e->off), 16); }
}
void recover()
{
    for (int i = 0; i < LANES; i++)
    {
        Lane &l = lane(i);
        if (l.redo.valid == 1) applyRedo(l);
        u64 at[MAXR];
        int n = 0;
        size_t p = 0;
        while (p + sizeof(Ent) <= sizeof l.log && n < MAXR)
        {
            Ent *e = (Ent *)(l.log + p);
            if (e->gen != l.gen || (e->type < 1 || e->type > 3) || p + sizeof(Ent) + e->size > sizeof l.log) break;
            if (sum(*e, (char *)(e + 1)) != e->sum) break;
            at[n++] = p;
            p += sizeof(Ent) + ((e->size + 7) & ~7ull);
        }
        if (!n) continue;
        if (l.committed == l.gen)
        {
            for (int j = 0; j < n; j++)
            {
                Ent *e = (Ent *)(l.log + at[j]);
                if (e->type == 3) { put(obj(e->off).state, O_FREED); flush(&obj(e->off), 16); }
            }
        }
        else while (n > 0) undo(l, at[--n]);
        sim_sfence();
        put(l.gen, l.gen + 1);
        persist(&l.gen, 8);
    }
}
void clear(Tx &t) { t.used = 0; t.nr = t.na = t.nf = t.nq = 0; }

void callback(Tx &t)
{
    if (t.cb && t.depth == 1) t.cb((PMEMobjpool *)pool, (enum pobj_tx_stage)t.stage, t.cbArg);
}
void rollback(Tx &t)
{
    Lane &l = L();
    if (t.nq)
    {
        for (int i = t.nq; i-- > 0;) undo(l, t.q[i].at);
        sim_sfence();
        put(l.gen, l.gen + 1);
        persist(&l.gen, 8);
        for (int i = 0; i < t.na; i++) poison(t.alloc[i]);
    }
    clear(t);
}
void doAbort(int e)
{
    Tx &t = T();
    if (t.stage != TX_STAGE_WORK) sim_fail("tx-misuse", "transaction aborted outside its work stage");
    if (!e) e = ECANCELED;
    t.stage = TX_STAGE_ONABORT;
    if (t.depth == 1) rollback(t);
    t.lastErr = t.err[t.depth - 1] = e;
    errno = e;
    callback(t);
    errno = e;
}
int failTx(int e, const char *m, uint64_t flags)
{
    if (!(flags & POBJ_FLAG_TX_NO_ABORT)) doAbort(e);
    return error(e, m);
}
void needWork(Tx &t, const char *m)
{
    if (t.stage != TX_STAGE_WORK) sim_fail("tx-misuse", m);
}
int addRange(const void *p, size_t n, uint64_t flags)
{
    Tx &t = T();
    needWork(t, "range added outside a transaction");
    if (!n) return 0;
    if (!inPool(p) || !inPool((const char *)p + n - 1)) return failTx(EINVAL, "object outside of pool", flags);
    u64 off = (u64)((const char *)p - pool);
    for (int i = 0; i < t.na; i++)
        if (off >= t.alloc[i] && off + n <= t.alloc[i] + obj(t.alloc[i]).size) return 0; // flushed as a whole
    for (int i = 0; i < t.nr; i++)
        if (off >= t.r[i].off && off + n <= t.r[i].off + t.r[i].size && (!(t.r[i].flags & POBJ_FLAG_NO_SNAPSHOT) || (flags & POBJ_FLAG_NO_SNAPSHOT))) return 0;
    int e = sim_pfail();
    if (e) return failTx(ENOMEM, "no space for the undo log", flags);
    if (t.nr >= MAXR) sim_fail("exhausted", "too many ranges in a transaction");
    if (!(flags & POBJ_FLAG_NO_SNAPSHOT)) logAdd(t, off, n, 1);
    t.r[t.nr++] = {off, n, flags};
    return 0;
}
PMEMoid txAlloc(size_t n, uint64_t flags)
{
    Tx &t = T();
    needWork(t, "allocation outside a transaction");
    if (!n) { failTx(EINVAL, "allocation with size 0", flags); return OID_NULL; }
    if (sim_pfail()) { failTx(ENOMEM, "out of memory", flags); return OID_NULL; }
    if (t.na >= MAXR) sim_fail("exhausted", "too many allocations in a transaction");
    u64 off = reserve(n, flags & POBJ_XALLOC_ZERO);
    put(obj(off).size, n);
    flush(&obj(off), 16);
    t.alloc[t.na++] = off;
    logAdd(t, off, 0, 2);
    put(obj(off).state, O_LIVE);
    flush(&obj(off), 16);
    return PMEMoid{H().uuid, off};
}
// ---- pools ----
PMEMobjpool *map(int fd, size_t n)
{
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    int e = errno;
    close(fd);
    if (p == MAP_FAILED) { error(e, "mmap"); return nullptr; }
    return (PMEMobjpool *)p;
}
void opened(PMEMobjpool *p, size_t n)
{
    pool = (char *)p;
    poolSize = n;
    userData = nullptr;
    put(H().runId, H().runId + 2);
    persist(&H().runId, 8);
    _pobj_cache_invalidate++;
}
} // namespace

extern "C"
{
    int _pobj_cache_invalidate;
    __thread struct _pobj_pcache _pobj_cached_pool;

    static PMEMobjpool *of(PMEMobjpool *p)
    {
        if (!p || (char *)p != pool) sim_fail("pool-misuse", "a pool is used that is not open");
        return p;
    }
    static void range(const void *p, size_t n)
    {
        if (n && (!inPool(p) || !inPool((const char *)p + n - 1))) sim_fail("pool-misuse", "something outside of the pool is persisted");
    }
    const char *pmemobj_errormsg(void) { return msg; }

    PMEMobjpool *pmemobj_create(const char *path, const char *layout, size_t, mode_t)
    {
#ifdef POBJ_RELAXED
        sim_track();
#endif
        // Assumption: a pool appears under its name complete and durable, or not at all.
        if (pool) { error(EAGAIN, "a pool is open already"); return nullptr; }
        if (access(path, F_OK) == 0) { error(EEXIST, "pool file exists"); return nullptr; }
        char tmp[512];
        snprintf(tmp, sizeof tmp, "%s.creating", path);
        if (access(tmp, F_OK) == 0) unlink(tmp);
        int fd = open(tmp, O_CREAT | O_RDWR | O_EXCL, 0600);
        if (fd < 0) { error(errno, "open"); return nullptr; }
        if (ftruncate(fd, POBJ_SIZE)) { error(errno, "posix_fallocate"); close(fd); return nullptr; }
        PMEMobjpool *p = map(fd, POBJ_SIZE);
        if (!p) return nullptr;
        Header &h = *(Header *)p;
        h.uuid = sim_choice(0x75756964) | 1;
        h.size = POBJ_SIZE;
        h.rootOff = h.rootSize = 0;
        snprintf(h.layout, sizeof h.layout, "%s", layout ? layout : "");
        h.top = HEAP0;
        h.magic = MAGIC;
        sim_stored(&h, sizeof h);
        for (int i = 0; i < LANES; i++)
        {
            Lane &l = *(Lane *)((char *)p + LANE0 + (size_t)i * LANE_SZ);
            l.gen = 1;
            sim_stored(&l.gen, 8);
        }
        if (msync((void *)p, POBJ_SIZE, MS_SYNC) || rename(tmp, path))
        {
            error(errno, "rename");
            munmap((void *)p, POBJ_SIZE);
            return nullptr;
        }
        msync((void *)p, 4096, MS_SYNC); // commits the journal
        opened(p, POBJ_SIZE);
        return p;
    }
    PMEMobjpool *pmemobj_open(const char *path, const char *layout)
    {
        int fd = open(path, O_RDWR);
        if (fd < 0) { error(errno, "open"); return nullptr; }
        if (pool) { close(fd); error(EAGAIN, "pool is used already"); return nullptr; }
        struct stat st;
        if (fstat(fd, &st)) { error(errno, "fstat"); close(fd); return nullptr; }
        if ((size_t)st.st_size < HEAP0) { close(fd); error(EINVAL, "file too small"); return nullptr; }
        PMEMobjpool *p = map(fd, (size_t)st.st_size);
        if (!p) return nullptr;
        Header &h = *(Header *)p;
        if (h.magic != MAGIC || h.size != (u64)st.st_size || (layout && strcmp(layout, h.layout)))
        {
            munmap((void *)p, (size_t)st.st_size);
            error(EINVAL, "not a pool, or wrong layout");
            return nullptr;
        }
        opened(p, (size_t)st.st_size);
        recover();
        return p;
    }
    void pmemobj_close(PMEMobjpool *p)
    {
        if ((char *)p != pool || !p) sim_fail("pool-misuse", "close of a pool that is not open");
        munmap(pool, poolSize);
        pool = nullptr;
        _pobj_cache_invalidate++;
    }
    int pmemobj_check(const char *path, const char *) { return access(path, F_OK) == 0 ? 1 : -1; }
    void pmemobj_set_user_data(PMEMobjpool *, void *d) { userData = d; }
    void *pmemobj_get_user_data(PMEMobjpool *) { return userData; }

    PMEMoid pmemobj_root(PMEMobjpool *p, size_t n)
    {
        if ((char *)p != pool || !p) sim_fail("pool-misuse", "root object of a pool that is not open");
        Header &h = H();
        if (!h.rootOff)
        {
            static u64 pendingRoot; // nobody can come in between: one creator
            if (pendingRoot) sim_fail("harness", "two threads create the root object");
            pendingRoot = 1;
            u64 off = reserve(n, true);
            put(obj(off).size, n);
            put(obj(off).state, O_ROOT);
            persist(&obj(off), 16 + n);
            put(h.rootSize, n);
            persist(&h.rootSize, 8);
            put(h.rootOff, off);
            persist(&h.rootOff, 8);
            pendingRoot = 0;
        }
        if (h.rootSize < n) sim_fail("harness", "root object grows");
        return PMEMoid{h.uuid, h.rootOff};
    }
    size_t pmemobj_root_size(PMEMobjpool *) { return H().rootSize; }
    PMEMoid pmemobj_oid(const void *p)
    {
        if (!inPool(p)) return OID_NULL;
        return PMEMoid{H().uuid, (u64)((const char *)p - pool)};
    }
    PMEMobjpool *pmemobj_pool_by_ptr(const void *p) { return inPool(p) ? (PMEMobjpool *)pool : nullptr; }
    PMEMobjpool *pmemobj_pool_by_oid(PMEMoid o) { return pool && o.pool_uuid_lo == H().uuid ? (PMEMobjpool *)pool : nullptr; }
    size_t pmemobj_alloc_usable_size(PMEMoid o) { return o.off ? obj(o.off).size : 0; }

    void pmemobj_persist(PMEMobjpool *o, const void *p, size_t n) { of(o); range(p, n); persist(p, n); }
    int pmemobj_xpersist(PMEMobjpool *, const void *p, size_t n, unsigned) { persist(p, n); return 0; }
    void pmemobj_flush(PMEMobjpool *o, const void *p, size_t n) { of(o); range(p, n); flush(p, n); }
    int pmemobj_xflush(PMEMobjpool *, const void *p, size_t n, unsigned) { flush(p, n); return 0; }
    void pmemobj_drain(PMEMobjpool *o) { of(o); sim_sfence(); }
    // A value that belongs to the present opening is left alone; anybody else's is constructed anew by one caller.
    void *pmemobj_volatile(PMEMobjpool *p, struct pmemvlt *vlt, void *ptr, size_t, int (*constr)(void *, void *), void *arg)
    {
        of(p);
        u64 id = H().runId;
        volatile uint64_t *at = &vlt->runid;
        while (*at != id)
        {
            if (*at == id - 1) { sched_yield(); continue; }
            put(vlt->runid, id - 1);
            int bad = constr(ptr, arg);
            put(vlt->runid, bad ? 0 : id);
            if (bad) { error(ECANCELED, "the constructor failed"); return nullptr; }
        }
        return ptr;
    }
    void *pmemobj_memcpy_persist(PMEMobjpool *o, void *d, const void *s, size_t n)
    {
        of(o);
        range(d, n);
        memcpy(d, s, n);
        sim_stored(d, n);
        persist(d, n);
        return d;
    }
    void *pmemobj_memset_persist(PMEMobjpool *o, void *d, int c, size_t n)
    {
        of(o);
        range(d, n);
        memset(d, c, n);
        sim_stored(d, n);
        persist(d, n);
        return d;
    }

    int pmemobj_xalloc(PMEMobjpool *p, PMEMoid *oidp, size_t n, uint64_t, uint64_t flags, pmemobj_constr ctor, void *arg)
    {
        if (!n) { error(EINVAL, "allocation with size 0"); return -1; }
        if (sim_pfail()) { error(ENOMEM, "out of memory"); return -1; }
        u64 off = reserve(n, flags & POBJ_XALLOC_ZERO);
        put(obj(off).size, n);
        if (ctor && ctor(p, pool + off, arg)) { error(ECANCELED, "constructor cancelled the allocation"); return -1; }
        persist(&obj(off), 16 + n);
        if (oidp || ctor) redo(off - 16, O_LIVE, oidp, H().uuid, off);
        return 0;
    }
    int pmemobj_alloc(PMEMobjpool *p, PMEMoid *oidp, size_t n, uint64_t t, pmemobj_constr ctor, void *arg) { return pmemobj_xalloc(p, oidp, n, t, 0, ctor, arg); }
    int pmemobj_zalloc(PMEMobjpool *p, PMEMoid *oidp, size_t n, uint64_t t) { return pmemobj_xalloc(p, oidp, n, t, POBJ_XALLOC_ZERO, nullptr, nullptr); }
    void pmemobj_free(PMEMoid *oidp)
    {
        if (!oidp || !oidp->off) return;
        u64 off = oidp->off;
#ifdef POBJ_RELAXED
        if (off >= HEAP0 + 16 && off < poolSize && (off & 63) == 16 && obj(off).state == O_FREED && sim_freed(off, 1))
        {
            oidp->off = 0;
            return;
        }
        sim_freed(off, linked(off));
#endif
        checkLive(off, "persistent object freed twice");
        redo(off - 16, O_FREED, oidp, 0, 0);
        poison(off);
#ifdef POBJ_RELAXED
        size_t unit = (obj(off).size + 16 + 63) & ~63ull;
        if (obj(off).size >= 32768 && nBig < 32) bigFree[nBig++] = {off - 16, unit};
#endif
    }

    // Live objects that no live object, and not the root, refers to.
    uint64_t sim_unreachable()
    {
        if (!pool || !H().rootOff) return 0;
        static u64 todo[65536];
        static unsigned char seen[1 << 20];
        if (poolSize / 64 > sizeof seen) return 0;
        memset(seen, 0, poolSize / 64);
        int n = 0;
        todo[n++] = H().rootOff;
        while (n)
        {
            u64 o = todo[--n];
            for (u64 *w = (u64 *)(pool + o), *e = (u64 *)(pool + o + (obj(o).size & ~7ull)); w < e; w++)
            {
                u64 x = *w;
                if (x < HEAP0 + 16 || x >= H().top || (x & 63) != 16 || obj(x).state != O_LIVE || seen[x / 64]) continue;
                seen[x / 64] = 1;
                if (n < 65536) todo[n++] = x;
            }
        }
        u64 lost = 0;
        for (u64 at = HEAP0; at + 16 < H().top; at += 64) if (obj(at + 16).state == O_LIVE && !seen[(at + 16) / 64]) lost++;
        return lost;
    }

    // ---- locks ----
    static pthread_rwlock_t *known(const void *l, int kind)
    {
        // What is locked as one thing cannot be another.
        if (*(const u64 *)l) sim_fail("lock-uninitialised", "a lock is used in memory that holds something else");
        auto &k = kinds[((uintptr_t)l >> 3) % MAXKINDS];
        if (k.at == l && k.kind != kind) sim_fail("lock-kind", "a lock in persistent memory is used as a lock of another kind");
        k = {l, kind};
        return (pthread_rwlock_t *)l;
    }
    static void forget(void *l)
    {
        auto &k = kinds[((uintptr_t)l >> 3) % MAXKINDS];
        if (k.at == l) k.at = nullptr;
        put(*(u64 *)l, 0);
        persist(l, 8);
        sim_lock_forget(l);
    }
    int pmemobj_mutex_lock(PMEMobjpool *p, PMEMmutex *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_wrlock(known(m, TX_PARAM_MUTEX)); }
    int pmemobj_mutex_trylock(PMEMobjpool *p, PMEMmutex *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_trywrlock(known(m, TX_PARAM_MUTEX)); }
    int pmemobj_mutex_timedlock(PMEMobjpool *p, PMEMmutex *m, const struct timespec *ts)
    {
        of(p);
        if (int e = sim_lockfail()) return e;
        if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
        return sim_rw_timedlock(known(m, TX_PARAM_MUTEX), ts);
    }
    int pmemobj_mutex_unlock(PMEMobjpool *p, PMEMmutex *m) { of(p); return pthread_rwlock_unlock(known(m, TX_PARAM_MUTEX)); }
    void pmemobj_mutex_zero(PMEMobjpool *, PMEMmutex *m) { forget(m); }
    int pmemobj_rwlock_rdlock(PMEMobjpool *p, PMEMrwlock *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_rdlock(known(m, TX_PARAM_RWLOCK)); }
    int pmemobj_rwlock_wrlock(PMEMobjpool *p, PMEMrwlock *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_wrlock(known(m, TX_PARAM_RWLOCK)); }
    int pmemobj_rwlock_tryrdlock(PMEMobjpool *p, PMEMrwlock *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_tryrdlock(known(m, TX_PARAM_RWLOCK)); }
    int pmemobj_rwlock_trywrlock(PMEMobjpool *p, PMEMrwlock *m) { of(p); if (int e = sim_lockfail()) return e; return pthread_rwlock_trywrlock(known(m, TX_PARAM_RWLOCK)); }
    int pmemobj_rwlock_unlock(PMEMobjpool *p, PMEMrwlock *m) { of(p); return pthread_rwlock_unlock(known(m, TX_PARAM_RWLOCK)); }
    void pmemobj_rwlock_zero(PMEMobjpool *, PMEMrwlock *m) { forget(m); }
    enum { A_CONDITION = 77 };
    void pmemobj_cond_zero(PMEMobjpool *, PMEMcond *c) { forget(c); }
    int pmemobj_cond_signal(PMEMobjpool *p, PMEMcond *c) { of(p); sim_cond_notify(known(c, A_CONDITION), 0); return 0; }
    int pmemobj_cond_broadcast(PMEMobjpool *p, PMEMcond *c) { of(p); sim_cond_notify(known(c, A_CONDITION), 1); return 0; }
    int pmemobj_cond_wait(PMEMobjpool *p, PMEMcond *c, PMEMmutex *m) { of(p); return sim_rw_cond_wait(known(c, A_CONDITION), known(m, TX_PARAM_MUTEX), nullptr); }
    int pmemobj_cond_timedwait(PMEMobjpool *p, PMEMcond *c, PMEMmutex *m, const struct timespec *ts)
    {
        of(p);
        if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
        return sim_rw_cond_wait(known(c, A_CONDITION), known(m, TX_PARAM_MUTEX), ts);
    }

    // ---- transactions ----
    enum pobj_tx_stage pmemobj_tx_stage(void) { return (enum pobj_tx_stage)T().stage; }
    int pmemobj_tx_errno(void) { return T().lastErr; }
    void pmemobj_tx_set_user_data(void *d) { T().user = d; }
    void *pmemobj_tx_get_user_data(void) { return T().user; }
    int pmemobj_tx_lock(enum pobj_tx_param kind, void *l)
    {
        Tx &t = T();
        needWork(t, "lock taken outside a transaction");
        for (int i = 0; i < t.nl; i++) if (t.lock[i] == l) return 0;
        if (t.nl >= MAXL) sim_fail("harness", "too many locks in a transaction");
        if (kind != TX_PARAM_MUTEX && kind != TX_PARAM_RWLOCK) return EINVAL;
        if (int e = sim_lockfail()) return e;
        pthread_rwlock_wrlock(known(l, kind));
        t.lock[t.nl++] = l;
        return 0;
    }
    int pmemobj_tx_begin(PMEMobjpool *p, jmp_buf env, ...)
    {
        Tx &t = T();
        if ((char *)p != pool || !p) sim_fail("pool-misuse", "transaction on a pool that is not open");
        if (t.stage == TX_STAGE_NONE)
        {
            clear(t);
            t.user = nullptr;
            t.lastErr = 0;
            t.nl = t.depth = 0;
            t.cb = nullptr;
        }
        else if (t.stage != TX_STAGE_WORK) sim_fail("tx-misuse", "transaction begun in the wrong stage");
        if (t.depth >= MAXDEPTH) sim_fail("harness", "transactions nested too deeply");
        t.err[t.depth++] = 0;
        t.stage = TX_STAGE_WORK;
        va_list ap;
        va_start(ap, env);
        for (int k = va_arg(ap, int); k != TX_PARAM_NONE; k = va_arg(ap, int))
        {
            if (k == TX_PARAM_CB)
            {
                pmemobj_tx_callback cb = va_arg(ap, pmemobj_tx_callback);
                void *arg = va_arg(ap, void *);
                if (t.cb && (t.cb != cb || t.cbArg != arg)) sim_fail("tx-misuse", "transaction callback is already set");
                t.cb = cb;
                t.cbArg = arg;
            }
            else pmemobj_tx_lock((enum pobj_tx_param)k, va_arg(ap, void *));
        }
        va_end(ap);
        return 0;
    }
    void pmemobj_tx_abort(int e) { doAbort(e); }
    void pmemobj_tx_commit(void)
    {
        Tx &t = T();
        needWork(t, "transaction committed in the wrong stage");
        callback(t);
        if (t.depth == 1)
        {
            Lane &l = L();
            bool any = t.nr || t.na || t.nf;
            for (int i = 0; i < t.nr; i++) if (!(t.r[i].flags & POBJ_FLAG_NO_FLUSH)) flush(pool + t.r[i].off, t.r[i].size);
            for (int i = 0; i < t.na; i++) flush(pool + t.alloc[i], obj(t.alloc[i]).size);
            if (any) sim_sfence();
            for (int i = 0; i < t.nf; i++)
            {
                checkLive(t.free_[i], "persistent object freed twice");
                logAdd(t, t.free_[i], 0, 3);
            }
            if (t.nf)
            {
                put(l.committed, l.gen);
                persist(&l.committed, 8);
                for (int i = 0; i < t.nf; i++) setState(t.free_[i], O_FREED);
                sim_sfence();
            }
            if (t.nq)
            {
                put(l.gen, l.gen + 1);
                persist(&l.gen, 8);
            }
            for (int i = 0; i < t.nf; i++) poison(t.free_[i]);
            clear(t);
        }
        t.stage = TX_STAGE_ONCOMMIT;
        callback(t);
    }
    int pmemobj_tx_end(void)
    {
        Tx &t = T();
        if (t.stage == TX_STAGE_WORK) sim_fail("tx-misuse", "transaction ended without commit or abort");
        if (t.stage == TX_STAGE_NONE || !t.depth) sim_fail("tx-misuse", "no transaction to end");
        if (t.cb && (t.stage == TX_STAGE_ONCOMMIT || t.stage == TX_STAGE_ONABORT))
        {
            t.stage = TX_STAGE_FINALLY;
            callback(t);
        }
        int e = t.err[--t.depth];
        if (!t.depth)
        {
            for (int i = t.nl; i-- > 0;) pthread_rwlock_unlock((pthread_rwlock_t *)t.lock[i]);
            t.nl = 0;
            t.stage = TX_STAGE_NONE;
            if (t.cb)
            {
                pmemobj_tx_callback cb = t.cb;
                t.cb = nullptr;
                cb((PMEMobjpool *)pool, TX_STAGE_NONE, t.cbArg);
            }
        }
        else
        {
            t.stage = TX_STAGE_WORK;
            if (e) doAbort(e);
        }
        return e;
    }
    void pmemobj_tx_process(void) { sim_fail("harness", "pmemobj_tx_process is not simulated"); }
    int pmemobj_tx_add_range_direct(const void *p, size_t n) { return addRange(p, n, 0); }
    int pmemobj_tx_xadd_range_direct(const void *p, size_t n, uint64_t f) { return addRange(p, n, f); }
    int pmemobj_tx_add_range(PMEMoid o, uint64_t off, size_t n) { return addRange(pool + o.off + off, n, 0); }
    PMEMoid pmemobj_tx_alloc(size_t n, uint64_t) { return txAlloc(n, 0); }
    PMEMoid pmemobj_tx_zalloc(size_t n, uint64_t) { return txAlloc(n, POBJ_XALLOC_ZERO); }
    PMEMoid pmemobj_tx_xalloc(size_t n, uint64_t, uint64_t f) { return txAlloc(n, f); }
    int pmemobj_tx_xfree(PMEMoid o, uint64_t f)
    {
        Tx &t = T();
        needWork(t, "free outside a transaction");
        if (!o.off) return 0;
        if (o.pool_uuid_lo != H().uuid) return failTx(EINVAL, "invalid pool uuid", f);
        checkLive(o.off, "persistent object freed twice");
        for (int i = 0; i < t.nf; i++) if (t.free_[i] == o.off) sim_fail("pm-double-free", "persistent object freed twice in one transaction");
        if (t.nf >= MAXR) sim_fail("exhausted", "too many frees in a transaction");
        t.free_[t.nf++] = o.off;
        return 0;
    }
    int pmemobj_tx_free(PMEMoid o) { return pmemobj_tx_xfree(o, 0); }
    // Moves some of the objects and says so; each move is all or nothing.
    int pmemobj_defrag(PMEMobjpool *p, PMEMoid **at, size_t n, struct pobj_defrag_result *res)
    {
        of(p);
        if (T().stage != TX_STAGE_NONE) sim_fail("harness", "pmemobj_defrag inside a transaction is not simulated");
        struct pobj_defrag_result r = {0, 0};
        int rc = 0;
        for (size_t i = 0; i < n && !rc; i++)
        {
            u64 off = at[i]->off;
            if (!off) continue;
            if (at[i]->pool_uuid_lo != H().uuid) sim_fail("pool-misuse", "defragmentation of an object that is not in the pool");
            checkLive(off, "defragmentation of an object that does not exist");
            r.total++;
            if (sim_choice(0x6466) % 2) continue;
            pmemobj_tx_begin(p, nullptr, TX_PARAM_NONE);
            PMEMoid o = txAlloc(obj(off).size, POBJ_XALLOC_NO_ABORT);
            if (OID_IS_NULL(o) || (inPool(at[i]) && addRange(at[i], 16, POBJ_XADD_NO_ABORT)))
            {
                doAbort(ENOMEM);
                rc = -1;
            }
            else
            {
                memcpy(pool + o.off, pool + off, obj(off).size);
                sim_stored(pool + o.off, obj(off).size);
                put(at[i]->off, o.off);
                pmemobj_tx_xfree(PMEMoid{H().uuid, off}, 0);
                pmemobj_tx_commit();
                r.relocated++;
            }
            pmemobj_tx_end();
        }
        if (res) *res = r;
        if (rc) error(ENOMEM, "no room to move an object to");
        return rc;
    }
}
