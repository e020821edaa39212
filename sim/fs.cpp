// Simulated file system and persistent memory.
#include "core.hpp"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" void sim_settle();

namespace sim
{
static char *const PM = (char *)0x200000000000ull;
static const size_t PM_SZ = 1ull << 30;
static const size_t PG = 4096;
static size_t pmUsed = 0;
static int16_t *pgFile;     // page -> file id + 1
static uint8_t *pgMap;      // page -> mapping count
static uint8_t *pgRO;       // page -> mapped without permission to write
static bool pmReady = false;

struct Ent { u64 val; u32 next; uint8_t word; uint8_t fiber; uint16_t serial; };
struct Line { u32 head = 0, tail = 0, n = 0; };   // indices into log (0 = none)
struct File
{
    int id = 0;
    size_t size = 0;
    bool alive = true;                 // linked, or open
    std::vector<unsigned char> media;  // durable contents
    std::vector<unsigned char> shadow; // volatile contents as last logged
    std::vector<Line> lines;
    char *va = nullptr;                // this era's address
    size_t vaCap = 0;
};
struct Meta { int op; std::string a, b; int id; size_t size; }; // 0 link(a,id) 1 unlink(a) 2 rename(a->b) 3 size(id) 4 mkdir(a)

static std::vector<std::unique_ptr<File>> files;
static std::map<std::string, int> dir, durDir;   // volatile and durable name space
static std::set<std::string> dirs, durDirs;
static std::vector<size_t> durSize;              // durable size per file
static std::vector<Meta> journal;                // not yet durable
static std::vector<Ent> logv;
struct Pend { int file; u32 line; u32 upto; };
static std::vector<Pend> pend[MAXF + 1];
struct Fd { int kind = 0; int file = -1; std::string path; size_t pos = 0; int flags = 0; };
static std::map<int, Fd> fds;
static std::map<std::string, std::string> texts;
static std::vector<FILE *> openFiles;
struct DirStream { std::vector<std::string> names; size_t i; int fd; struct dirent ent; };
static std::set<DirStream *> streams;

static void settleMeta(size_t upto);
static File *file_at(const void *p, size_t &off);
// A compare-and-swap that removes the dirty flag although the word is not durable is only possible after an
// A-B-A change of the word between the helper's load and its compare-and-swap (it did flush in between).
struct Watch { const void *seen = nullptr; u64 val = 0; u32 seenAt = 0; const void *flushed = nullptr; u32 flushAt = 0; bool fenced = false; };
static Watch watch_[MAXF + 1];
struct Stale { int file; u32 line; u32 ent; };
static std::vector<Stale> stale_;
bool staleClearLost = false;
u64 staleClears = 0;
void pm_seen(const void *p, u64 v)
{
    Watch &w = watch_[S.cur];
    w.seen = p;
    w.val = v;
    w.seenAt = (u32)logv.size();
}
void pm_cleared(const void *p, u64 old)
{
    Watch &w = watch_[S.cur];
    size_t off;
    File *f = file_at(p, off);
    if (!f || !f->va) return;
    u32 line = (u32)(off / 64), last = 0;
    if (line >= f->lines.size()) return;
    for (u32 i = f->lines[line].head; i; i = logv[i].next) if (logv[i].word == off / 8 % 8) last = i;
    if (!last) return;
    const void *la = (const void *)((uintptr_t)p & ~63ull);
    if (w.seen == p && w.val == old && w.flushed == la && w.fenced && w.seenAt <= w.flushAt && last >= w.flushAt)
    {
        Host h;
        staleClears++;
        stale_.push_back({f->id, line, last});
    }
}

static void pm_init()
{
    if (pmReady) return;
    void *r = mmap(PM, PM_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != PM) { fprintf(stderr, "psim: cannot reserve pmem\n"); _exit(2); }
    pgFile = (int16_t *)mmap(nullptr, PM_SZ / PG * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pgMap = (uint8_t *)mmap(nullptr, PM_SZ / PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pgRO = (uint8_t *)mmap(nullptr, PM_SZ / PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pmReady = true;
}
bool is_pm(const void *p) { return (uintptr_t)p - (uintptr_t)PM < PM_SZ; }

static void drop_va()
{
    for (auto &f : files) { f->va = nullptr; f->vaCap = 0; }
    size_t pages = pmUsed / PG + 1;
    memset(pgFile, 0, pages * 2);
    memset(pgMap, 0, pages);
    memset(pgRO, 0, pages);
    pmUsed = 0;
}
void fs_shift(u64 pages) { pmUsed += pages * PG; } // mappings of this process start somewhere else
static void fs_process_end() // descriptors and mappings die with the process
{
    fds.clear();
    for (auto *d : streams) delete d;
    streams.clear();
    auto left = openFiles;
    for (FILE *f : left) fclose(f);
    openFiles.clear();
    for (auto &p : pend) p.clear();
    drop_va();
}

void fs_reset()
{
    pm_init();
    fs_process_end();
    files.clear();
    dir.clear(); durDir.clear();
    dirs = {"/", "/mnt", "/mnt/pmem", "/mnt/pmem/pm1", "/mnt/pmem/pm1/tables", "/tmp", "/cwd"};
    durDirs = dirs;
    durSize.clear();
    journal.clear();
    logv.clear();
    logv.push_back(Ent());
    stale_.clear();
    staleClearLost = false;
    for (auto &w : watch_) w = Watch();
    texts.clear();
}

static void log_word(File &f, u32 line, int word, u64 val)
{
    Line &l = f.lines[line];
    u32 idx = (u32)logv.size();
    Ent e;
    e.val = val;
    e.next = 0;
    e.word = (uint8_t)word;
    e.fiber = (uint8_t)(S.cur >= 0 && S.cur < MAXF ? S.cur : 0);
    e.serial = S.f[S.cur].serial;
    Host h;
    logv.push_back(e);
    if (l.tail) logv[l.tail].next = idx; else l.head = idx;
    l.tail = idx;
    l.n++;
}
static void apply_upto(File &f, u32 line, u32 upto)
{
    Line &l = f.lines[line];
    while (l.head && l.head <= upto)
    {
        Ent &e = logv[l.head];
        memcpy(&f.media[(size_t)line * 64 + e.word * 8], &e.val, 8);
        l.head = e.next;
        l.n--;
    }
    if (!l.head) l.tail = 0;
}
static void diff_line(File &f, u32 line)
{
    if (!f.va || S.lastEra) return;
    char *v = f.va + (size_t)line * 64;
    unsigned char *s = &f.shadow[(size_t)line * 64];
    if (!memcmp(v, s, 64)) return;
    for (int w = 0; w < 8; w++)
        if (memcmp(v + w * 8, s + w * 8, 8))
        {
            u64 x;
            memcpy(&x, v + w * 8, 8);
            memcpy(s + w * 8, &x, 8);
            log_word(f, line, w, x);
        }
}
static File *file_at(const void *p, size_t &off)
{
    size_t o = (char *)p - PM;
    int id = pgFile[o / PG];
    if (!id) return nullptr;
    File *f = files[id - 1].get();
    off = (char *)p - f->va;
    return f;
}
void pm_check(const void *p, size_t n, bool write)
{
    size_t o = (char *)p - PM;
    if (!pgMap[o / PG] || !pgMap[(o + n - 1) / PG])
        violate("unmapped-access", "%s of %zu bytes at pmem+0x%zx, which is not mapped", write ? "write" : "read", n, o);
    if (write && (pgRO[o / PG] || pgRO[(o + n - 1) / PG]))
        violate("read-only-write", "write of %zu bytes at pmem+0x%zx, which is mapped without permission to write", n, o);
    size_t off;
    File *f = file_at(p, off);
    // beyond the end of the file the real system delivers SIGBUS (page granular)
    if (f && off >= ((f->size + PG - 1) / PG) * PG) violate("sigbus", "access beyond the end of the mapped file");
}
void pm_store(const void *p, size_t n)
{
    if (!n || S.lastEra) return;
    size_t off;
    File *f = file_at(p, off);
    if (!f || !f->va) return;
    size_t last = off + n - 1;
    for (size_t w = off / 8; w <= last / 8; w++)
    {
        if (w * 8 + 8 > f->shadow.size()) break;
        u64 x;
        memcpy(&x, f->va + w * 8, 8);
        if (memcmp(&x, &f->shadow[w * 8], 8))
        {
            memcpy(&f->shadow[w * 8], &x, 8);
            log_word(*f, (u32)(w / 8), (int)(w % 8), x);
        }
    }
}
void pm_flush(const void *p)
{
    if (!is_pm(p) || S.lastEra) return;
    size_t off;
    File *f = file_at(p, off);
    if (!f || !f->va) return;
    u32 line = (u32)(off / 64);
    if (line >= f->lines.size()) return;
    diff_line(*f, line);
    Watch &w = watch_[S.cur];
    w.flushed = (const void *)((uintptr_t)p & ~63ull);
    w.flushAt = (u32)logv.size();
    w.fenced = false;
    Line &l = f->lines[line];
    if (!l.tail) return;
    Host h;
    pend[S.cur].push_back({f->id, line, l.tail});
}
void pm_fence()
{
    auto &v = pend[S.cur];
    watch_[S.cur].fenced = true;
    for (auto &x : v)
    {
        File &f = *files[x.file];
        if (x.line < f.lines.size()) apply_upto(f, x.line, x.upto);
    }
    v.clear();
}
void fs_dirty_sync_all()
{
    if (S.lastEra) return;
    for (auto &f : files)
        if (f->va)
            for (u32 i = 0; i < f->lines.size(); i++) diff_line(*f, i);
}

static void resize_file(File &f, size_t n)
{
    size_t r = (n + 63) & ~63ull;
    if (n < f.size)
    {
        // shrinking discards
        if (f.va) for (u32 i = 0; i < f.lines.size(); i++) diff_line(f, i);
        for (size_t i = n / 64; i < f.lines.size(); i++) apply_upto(f, (u32)i, ~0u);
        if (f.va) memset(f.va + n, 0, f.shadow.size() - n);
        for (size_t i = n; i < f.media.size(); i++) f.media[i] = 0;
        for (size_t i = n; i < f.shadow.size(); i++) f.shadow[i] = 0;
    }
    f.shadow.resize(r, 0);
    if (!S.lastEra)
    {
        f.media.resize(r, 0);
        f.lines.resize(r / 64);
    }
    if (f.va && r > f.vaCap) { fprintf(stderr, "psim: file outgrew its mapping slot\n"); _exit(2); }
    f.size = n;
}
static void ensure_va(File &f)
{
    if (f.va) return;
    size_t cap = std::max<size_t>(64 * 1024, ((f.size * 2 + PG - 1) / PG) * PG);
    if (pmUsed + cap + PG > PM_SZ) { fprintf(stderr, "psim: pmem exhausted\n"); _exit(2); }
    f.va = PM + pmUsed;
    f.vaCap = cap;
    pmUsed += cap + PG; // guard page
    for (size_t i = 0; i < cap / PG; i++) pgFile[(f.va - PM) / PG + i] = (int16_t)(f.id + 1);
    memcpy(f.va, f.shadow.data(), f.shadow.size());
    size_t end = std::max<size_t>(((f.size + PG - 1) / PG) * PG, PG);
    memset(f.va + f.shadow.size(), 0, end > f.shadow.size() ? end - f.shadow.size() : 0);
}
static File &new_file()
{
    files.emplace_back(new File());
    File &f = *files.back();
    f.id = (int)files.size() - 1;
    durSize.push_back(0);
    return f;
}

// ---- metadata journal ----
static void apply_meta(std::map<std::string, int> &d, std::set<std::string> &ds, std::vector<size_t> &sz, const Meta &m)
{
    switch (m.op)
    {
    case 0: d[m.a] = m.id; break;
    case 1: d.erase(m.a); break;
    case 2: { auto it = d.find(m.a); if (it != d.end()) { int id = it->second; d.erase(it); d[m.b] = id; } break; }
    case 3: sz[m.id] = m.size; break;
    case 4: ds.insert(m.a); break;
    case 5: ds.erase(m.a); break;
    }
}
static void settleMeta(size_t upto)
{
    for (size_t i = 0; i < upto; i++) apply_meta(durDir, durDirs, durSize, journal[i]);
    journal.erase(journal.begin(), journal.begin() + upto);
}
static void meta(Meta m)
{
    journal.push_back(std::move(m));
    if (!S.metaLazy) settleMeta(journal.size());
}

void fs_crash(int mode, u64 seed)
{
    if (S.lastEra) { fs_process_end(); return; }
    fs_dirty_sync_all();
    if (mode == CR_KILL)
    {
        for (auto &f : files)
            for (u32 i = 0; i < f->lines.size(); i++) apply_upto(*f, i, ~0u);
        settleMeta(journal.size());
        // unlinked files that were only open disappear with the process
    }
    else
    {
        // name space: an ordered journal, of which an arbitrary prefix made it
        size_t keep = journal.size() ? mix2(seed, 0x4d) % (journal.size() + 1) : 0;
        S.stats.metaLost += journal.size() - keep;
        settleMeta(keep);
        journal.clear();
        dir = durDir;
        dirs = durDirs;
        int pol = (int)(mix2(seed, 0x11) % 4); // 0 nothing more than the flushed, 1 everything, 2 random prefixes, 3 per-line coin
        for (auto &f : files)
        {
            for (u32 i = 0; i < f->lines.size(); i++)
            {
                Line &l = f->lines[i];
                if (!l.n) continue;
                u64 r = mix2(seed, ((u64)f->id << 32) | i);
                u32 k = pol == 0 ? 0 : pol == 1 ? l.n : pol == 2 ? (u32)(r % (l.n + 1)) : ((r & 1) ? l.n : 0);
                if (k < l.n) { S.stats.linesLost++; if (k) S.stats.linesTorn++; }
                u32 at = l.head;
                for (u32 j = 1; j < k; j++) at = logv[at].next;
                for (auto &x : stale_)
                    // The writer was still at work: whatever it completes, it has flushed.
                    if (x.file == f->id && x.line == i && x.ent >= l.head && (!k || x.ent > at) && S.f[logv[x.ent].fiber].serial == logv[x.ent].serial) staleClearLost = true;
                if (k) apply_upto(*f, i, at);
                l.head = l.tail = l.n = 0;
            }
            if (durSize[f->id] != f->size) { f->va = nullptr; size_t n = durSize[f->id]; f->shadow = f->media; resize_file(*f, n); }
        }
    }
    fs_process_end();
    for (auto &f : files) { f->shadow = f->media; for (auto &l : f->lines) l = Line(); }
    logv.resize(1);
    stale_.clear();
    for (auto &w : watch_) w = Watch();
}

// ---- host helpers ----
bool fs_write_file(const std::string &path, const void *data, size_t n)
{
    File &f = new_file();
    resize_file(f, n);
    if (n) memcpy(f.media.data(), data, n);
    f.shadow = f.media;
    dir[path] = f.id;
    durDir[path] = f.id;
    durSize[f.id] = n;
    return true;
}
bool fs_read_file(const std::string &path, std::string &out)
{
    auto it = dir.find(path);
    if (it == dir.end()) return false;
    File &f = *files[it->second];
    out.assign((char *)f.shadow.data(), f.size);
    return true;
}
std::vector<std::string> fs_list(const std::string &prefix)
{
    std::vector<std::string> r;
    for (auto &d : dir)
        if (d.first.compare(0, prefix.size(), prefix) == 0) r.push_back(d.first);
    return r;
}
int fs_open_fds() { return (int)fds.size(); }
void fs_mkdir(const std::string &p) { dirs.insert(p); durDirs.insert(p); }
void fs_set_text(const std::string &path, const std::string &t) { texts[path] = t; }
u64 fs_state_hash()
{
    u64 h = 1;
    for (auto &d : dir)
    {
        for (char c : d.first) h = mix2(h, (u64)(unsigned char)c);
        File &f = *files[d.second];
        for (size_t i = 0; i + 8 <= f.shadow.size(); i += 8) { u64 x; memcpy(&x, &f.shadow[i], 8); h = mix2(h, x); }
    }
    return h;
}

static std::string canon(const char *p)
{
    std::string s = p[0] == '/' ? p : std::string("/cwd/") + p;
    std::vector<std::string> parts;
    size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && s[i] == '/') i++;
        size_t j = i;
        while (j < s.size() && s[j] != '/') j++;
        std::string c = s.substr(i, j - i);
        if (c == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!c.empty() && c != ".") parts.push_back(c);
        i = j;
    }
    std::string r;
    for (auto &c : parts) r += "/" + c;
    return r.empty() ? "/" : r;
}
static std::string parent(const std::string &p)
{
    size_t k = p.rfind('/');
    return k == 0 ? "/" : p.substr(0, k);
}
static int fail(int e) { errno = e; return -1; }

static int new_fd(Fd f)
{
    if (S.fdLimit && (int)fds.size() >= S.fdLimit) return fail(EMFILE);
    int n = 1000;
    while (fds.count(n)) n++;
    fds[n] = std::move(f);
    return n;
}

static int do_open(const char *path, int flags)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_OPEN, e)) return fail(e);
    Host h;
    std::string p = canon(path);
    if (dirs.count(p))
    {
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)) return fail(EISDIR);
        Fd f;
        f.kind = 2;
        f.path = p;
        return new_fd(f);
    }
    if (flags & O_DIRECTORY) return fail(dir.count(p) ? ENOTDIR : ENOENT);
    if (dir.count(parent(p))) return fail(ENOTDIR);
    auto it = dir.find(p);
    Fd fd;
    fd.kind = 1;
    fd.path = p;
    fd.flags = flags;
    if (it == dir.end())
    {
        if (!(flags & O_CREAT)) return fail(ENOENT);
        if (!dirs.count(parent(p))) return fail(ENOENT);
        if (S.fdLimit && (int)fds.size() >= S.fdLimit) return fail(EMFILE);
        File &f = new_file();
        dir[p] = f.id;
        meta({0, p, "", f.id, 0});
        fd.file = f.id;
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
        fd.file = it->second;
        if (S.fdLimit && (int)fds.size() >= S.fdLimit) return fail(EMFILE);
        if (flags & O_TRUNC) { resize_file(*files[fd.file], 0); meta({3, "", "", fd.file, 0}); }
    }
    return new_fd(fd);
}
static int do_trunc(int file, size_t n)
{
    int e;
    if (inject(F_TRUNC, e)) return fail(e);
    Host h;
    resize_file(*files[file], n);
    meta({3, "", "", file, n});
    return 0;
}
static void fill_stat(struct stat *st, int file, bool isdir)
{
    memset(st, 0, sizeof *st);
    st->st_dev = 7;
    st->st_ino = isdir ? 1 : file + 100;
    st->st_nlink = 1;
    st->st_mode = isdir ? (S_IFDIR | 0755) : (S_IFREG | 0600);
    st->st_size = isdir ? 4096 : (off_t)files[file]->size;
    st->st_blksize = 4096;
    st->st_blocks = (st->st_size + 511) / 512;
}
static int do_stat(const char *path, struct stat *st)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_STAT, e)) return fail(e);
    Host h;
    std::string p = canon(path);
    if (dirs.count(p)) { fill_stat(st, 0, true); return 0; }
    auto it = dir.find(p);
    if (it == dir.end()) return fail(dir.count(parent(p)) ? ENOTDIR : ENOENT);
    fill_stat(st, it->second, false);
    return 0;
}
static int do_fstat(int fd, struct stat *st)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_STAT, e)) return fail(e);
    auto it = fds.find(fd);
    if (it == fds.end()) return fail(EBADF);
    fill_stat(st, it->second.file, it->second.kind == 2);
    return 0;
}
static int do_unlink(const char *path)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_UNLINK, e)) return fail(e);
    Host h;
    std::string p = canon(path);
    auto it = dir.find(p);
    if (it == dir.end()) return fail(dirs.count(p) ? EISDIR : ENOENT);
    dir.erase(it);
    meta({1, p, "", 0, 0});
    return 0;
}
static int do_rename(const char *a, const char *b)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_RENAME, e)) return fail(e);
    Host h;
    std::string p = canon(a), q = canon(b);
    auto it = dir.find(p);
    if (it == dir.end()) return fail(ENOENT);
    if (!dirs.count(parent(q))) return fail(ENOENT);
    if (dirs.count(q)) return fail(EISDIR);
    int id = it->second;
    dir.erase(it);
    dir[q] = id;
    meta({2, p, q, 0, 0});
    return 0;
}
static int do_mkdir(const char *a)
{
    sim_settle();
    point(K_SYS, nullptr);
    Host h;
    std::string p = canon(a);
    if (dirs.count(p) || dir.count(p)) return fail(EEXIST);
    if (!dirs.count(parent(p))) return fail(ENOENT);
    dirs.insert(p);
    meta({4, p, "", 0, 0});
    return 0;
}
static int do_fsync(int fd, bool)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_FSYNC, e)) return fail(e);
    auto it = fds.find(fd);
    if (it == fds.end()) return fail(EBADF);
    Host h;
    if (it->second.kind == 1)
    {
        File &f = *files[it->second.file];
        for (u32 i = 0; i < f.lines.size(); i++) { diff_line(f, i); apply_upto(f, i, ~0u); }
    }
    settleMeta(journal.size()); // one ordered journal: a commit carries everything before it
    return 0;
}
static void *do_mmap(size_t len, int prot, int flags, int fd, off_t off)
{
    sim_settle();
    point(K_SYS, nullptr);
    int e;
    if (inject(F_MMAP, e)) { errno = e; return MAP_FAILED; }
    auto it = fds.find(fd);
    if (it == fds.end() || it->second.kind != 1) { errno = EBADF; return MAP_FAILED; }
    if (len == 0 || (off & (PG - 1))) { errno = EINVAL; return MAP_FAILED; }
    bool shared = (flags & 3) != MAP_PRIVATE;
    int acc = it->second.flags & O_ACCMODE;
    if (acc == O_WRONLY || (shared && (prot & PROT_WRITE) && acc != O_RDWR)) { errno = EACCES; return MAP_FAILED; }
    Host h;
    File &f = *files[it->second.file];
    bool ro = !(prot & PROT_WRITE);
    if (!shared)
    {
        // a copy, which never reaches the file
        size_t cap = (len + PG - 1) / PG * PG;
        if (pmUsed + cap + PG > PM_SZ) { fprintf(stderr, "psim: pmem exhausted\n"); _exit(2); }
        char *v = PM + pmUsed;
        pmUsed += cap + PG;
        memset(v, 0, cap);
        const char *src = f.va ? f.va : (const char *)f.shadow.data();
        if ((size_t)off < f.size) memcpy(v, src + off, std::min(len, f.size - (size_t)off));
        for (size_t i = 0; i < cap / PG; i++) { pgFile[(v - PM) / PG + i] = 0; pgMap[(v - PM) / PG + i] = 1; pgRO[(v - PM) / PG + i] = ro; }
        return v;
    }
    ensure_va(f);
    if (off + len > f.vaCap)
    {
        // larger than the slot: only legal to touch what the file has
        len = f.vaCap - off;
    }
    size_t p0 = (f.va + off - PM) / PG;
    for (size_t i = 0; i < (len + PG - 1) / PG; i++) { pgMap[p0 + i]++; pgRO[p0 + i] = ro; }
    return f.va + off;
}
static int do_munmap(void *a, size_t len)
{
    sim_settle();
    point(K_SYS, nullptr);
    if ((uintptr_t)a & (PG - 1)) return fail(EINVAL);
    if (!len) return fail(EINVAL);
    if (!is_pm(a)) violate("bad-munmap", "munmap of memory that is not a mapping (heap or stack would be destroyed)");
    size_t p0 = ((char *)a - PM) / PG;
    for (size_t i = 0; i < (len + PG - 1) / PG; i++)
        if (pgMap[p0 + i]) pgMap[p0 + i]--;
    return 0;
}
} // namespace sim

using namespace sim;
static bool simfd(int fd) { return onFiber() && fd >= 1000; }
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))

extern "C"
{
    int open(const char *p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        if (!onFiber()) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
        return do_open(p, fl);
    }
    int open64(const char *p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        if (!onFiber()) return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
        return do_open(p, fl);
    }
    int openat(int d, const char *p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        if (!onFiber()) return (int)syscall(SYS_openat, d, p, fl, m);
        if (d >= 1000 && p[0] != '/')
        {
            std::string q;
            { Host h; auto it = fds.find(d); if (it == fds.end()) return fail(EBADF); q = it->second.path + "/" + p; }
            int r = do_open(q.c_str(), fl);
            { Host h; std::string().swap(q); }
            return r;
        }
        return do_open(p, fl);
    }
    int openat64(int d, const char *p, int fl, ...)
    {
        va_list ap;
        va_start(ap, fl);
        mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
        va_end(ap);
        if (!onFiber()) return (int)syscall(SYS_openat, d, p, fl, m);
        return openat(d, p, fl, m);
    }
    int __open_2(const char *p, int fl) { return open(p, fl, 0); }
    int __open64_2(const char *p, int fl) { return open(p, fl, 0); }
    int __openat_2(int d, const char *p, int fl) { return openat(d, p, fl, 0); }
    int __openat64_2(int d, const char *p, int fl) { return openat(d, p, fl, 0); }
    int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
    int close(int fd)
    {
        if (!simfd(fd)) return (int)syscall(SYS_close, fd);
        sim_settle();
        point(K_SYS, nullptr);
        Host h;
        if (!fds.erase(fd)) return fail(EBADF);
        return 0;
    }
    int ftruncate(int fd, off_t n) noexcept
    {
        if (!simfd(fd)) return (int)syscall(SYS_ftruncate, fd, n);
        sim_settle();
        point(K_SYS, nullptr);
        auto it = fds.find(fd);
        if (it == fds.end() || it->second.kind != 1) return fail(EBADF);
        return do_trunc(it->second.file, (size_t)n);
    }
    int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
    int truncate(const char *p, off_t n) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_truncate, p, n);
        sim_settle();
        point(K_SYS, nullptr);
        int id;
        { Host h; auto it = dir.find(canon(p)); if (it == dir.end()) return fail(ENOENT); id = it->second; }
        return do_trunc(id, (size_t)n);
    }
    int truncate64(const char *p, off64_t n) noexcept { return truncate(p, n); }
    static int do_fallocate(int fd, off_t off, off_t len)
    {
        sim_settle();
        point(K_SYS, nullptr);
        auto it = fds.find(fd);
        if (it == fds.end() || it->second.kind != 1) return fail(EBADF);
        size_t need = (size_t)(off + len), cur = files[it->second.file]->size;
        return do_trunc(it->second.file, need > cur ? need : cur);
    }
    int posix_fallocate(int fd, off_t off, off_t len)
    {
        static auto r = REAL(posix_fallocate);
        if (!simfd(fd)) return r(fd, off, len);
        int sv = errno;
        int e = do_fallocate(fd, off, len) ? errno : 0;
        errno = sv;
        return e;
    }
    int posix_fallocate64(int fd, off64_t off, off64_t len) { return posix_fallocate(fd, off, len); }
    int fallocate(int fd, int mode, off_t off, off_t len)
    {
        if (!simfd(fd)) return (int)syscall(SYS_fallocate, fd, mode, off, len);
        return do_fallocate(fd, off, len);
    }
    int fstat(int fd, struct stat *st) noexcept
    {
        if (!simfd(fd)) return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
        return do_fstat(fd, st);
    }
    int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
    int stat(const char *p, struct stat *st) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
        return do_stat(p, st);
    }
    int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
    int lstat(const char *p, struct stat *st) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
        return do_stat(p, st);
    }
    int lstat64(const char *p, struct stat64 *st) noexcept { return lstat(p, (struct stat *)st); }
    int fstatat(int d, const char *p, struct stat *st, int fl) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_newfstatat, d, p, st, fl);
        if (d >= 1000 && p[0] != '/')
        {
            char q[4096];
            { Host h; auto it = fds.find(d); if (it == fds.end()) return fail(EBADF); snprintf(q, sizeof q, "%s/%s", it->second.path.c_str(), p); }
            return do_stat(q, st);
        }
        return do_stat(p, st);
    }
    int fstatat64(int d, const char *p, struct stat64 *st, int fl) noexcept { return fstatat(d, p, (struct stat *)st, fl); }
    int access(const char *p, int m) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
        sim_settle();
        point(K_SYS, nullptr);
        Host h;
        std::string q = canon(p);
        if (dirs.count(q) || dir.count(q)) return 0;
        return fail(ENOENT);
    }
    int remove(const char *p) noexcept
    {
        static auto r = REAL(remove);
        if (!onFiber()) return r(p);
        return do_unlink(p);
    }
    int unlink(const char *p) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_unlink, p);
        return do_unlink(p);
    }
    int unlinkat(int d, const char *p, int fl) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_unlinkat, d, p, fl);
        if (d >= 1000 && p[0] != '/')
        {
            char q[4096];
            { Host h; auto it = fds.find(d); if (it == fds.end()) return fail(EBADF); snprintf(q, sizeof q, "%s/%s", it->second.path.c_str(), p); }
            return do_unlink(q);
        }
        return do_unlink(p);
    }
    int rename(const char *a, const char *b) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_rename, a, b);
        return do_rename(a, b);
    }
    int mkdir(const char *p, mode_t m) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_mkdir, p, m);
        return do_mkdir(p);
    }
    int rmdir(const char *p) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_rmdir, p);
        sim_settle();
        point(K_SYS, nullptr);
        Host h;
        std::string q = canon(p);
        if (!dirs.count(q)) return fail(ENOENT);
        dirs.erase(q);
        meta({5, q, "", 0, 0});
        return 0;
    }
    int fsync(int fd)
    {
        if (!simfd(fd)) return (int)syscall(SYS_fsync, fd);
        return do_fsync(fd, true);
    }
    int fdatasync(int fd)
    {
        if (!simfd(fd)) return (int)syscall(SYS_fdatasync, fd);
        return do_fsync(fd, false);
    }
    void sync(void) noexcept
    {
        if (!onFiber()) { return; }
        sim_settle();
        point(K_SYS, nullptr);
        Host h;
        for (auto &f : files) for (u32 i = 0; i < f->lines.size(); i++) { diff_line(*f, i); apply_upto(*f, i, ~0u); }
        settleMeta(journal.size());
    }
    int msync(void *a, size_t n, int fl)
    {
        if (!onFiber() || !is_pm(a)) return (int)syscall(SYS_msync, a, n, fl);
        sim_settle();
        point(K_SYS, nullptr);
        if ((uintptr_t)a & (PG - 1)) return fail(EINVAL);
        size_t off;
        File *f = file_at(a, off);
        if (!f) return fail(ENOMEM);
        Host h;
        for (u32 i = (u32)(off / 64); i < f->lines.size() && (size_t)i * 64 < off + n; i++) { diff_line(*f, i); apply_upto(*f, i, ~0u); }
        settleMeta(journal.size());
        return 0;
    }
    void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t off) noexcept
    {
        if (!simfd(fd)) return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, off);
        return do_mmap(n, pr, fl, fd, off);
    }
    void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t off) noexcept { return mmap(a, n, pr, fl, fd, off); }
    int munmap(void *a, size_t n) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_munmap, a, n);
        if (!is_pm(a) && !is_arena(a)) return (int)syscall(SYS_munmap, a, n);
        return do_munmap(a, n);
    }
    static size_t rw_fd(int fd, void *b, size_t n, off_t off, bool wr)
    {
        Fd &d = fds[fd];
        File &f = *files[d.file];
        Host h;
        ensure_va(f);
        if (!wr)
        {
            if ((size_t)off >= f.size) return 0;
            n = std::min(n, f.size - (size_t)off);
            memcpy(b, f.va + off, n);
            return n;
        }
        if (off + n > f.size) { resize_file(f, off + n); meta({3, "", "", f.id, f.size}); }
        memcpy(f.va + off, b, n);
        pm_store(f.va + off, n);
        return n;
    }
    ssize_t read(int fd, void *b, size_t n)
    {
        if (!simfd(fd)) return syscall(SYS_read, fd, b, n);
        sim_settle();
        point(K_SYS, nullptr);
        if (!fds.count(fd) || fds[fd].kind != 1) return fail(EBADF);
        size_t r = rw_fd(fd, b, n, (off_t)fds[fd].pos, false);
        fds[fd].pos += r;
        return (ssize_t)r;
    }
    ssize_t pread(int fd, void *b, size_t n, off_t off)
    {
        if (!simfd(fd)) return syscall(SYS_pread64, fd, b, n, off);
        sim_settle();
        point(K_SYS, nullptr);
        if (!fds.count(fd) || fds[fd].kind != 1) return fail(EBADF);
        return (ssize_t)rw_fd(fd, b, n, off, false);
    }
    ssize_t pwrite(int fd, const void *b, size_t n, off_t off)
    {
        if (!simfd(fd)) return syscall(SYS_pwrite64, fd, b, n, off);
        sim_settle();
        point(K_SYS, nullptr);
        if (!fds.count(fd) || fds[fd].kind != 1) return fail(EBADF);
        return (ssize_t)rw_fd(fd, (void *)b, n, off, true);
    }
    ssize_t write(int fd, const void *b, size_t n)
    {
        if (!simfd(fd)) return syscall(SYS_write, fd, b, n);
        sim_settle();
        point(K_SYS, nullptr);
        if (!fds.count(fd) || fds[fd].kind != 1) return fail(EBADF);
        size_t r = rw_fd(fd, (void *)b, n, (off_t)fds[fd].pos, true);
        fds[fd].pos += r;
        return (ssize_t)r;
    }
    off_t lseek(int fd, off_t off, int wh) noexcept
    {
        if (!simfd(fd)) return syscall(SYS_lseek, fd, off, wh);
        auto it = fds.find(fd);
        if (it == fds.end() || it->second.kind != 1) return fail(EBADF);
        size_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? it->second.pos : files[it->second.file]->size;
        it->second.pos = base + off;
        return (off_t)it->second.pos;
    }
    off64_t lseek64(int fd, off64_t off, int wh) noexcept { return lseek(fd, off, wh); }
    ssize_t readv(int fd, const struct iovec *v, int n)
    {
        if (!simfd(fd)) return syscall(SYS_readv, fd, v, n);
        ssize_t all = 0;
        for (int i = 0; i < n; i++)
        {
            ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return all ? all : r;
            all += r;
            if ((size_t)r < v[i].iov_len) break;
        }
        return all;
    }
    ssize_t writev(int fd, const struct iovec *v, int n)
    {
        if (!simfd(fd)) return syscall(SYS_writev, fd, v, n);
        ssize_t all = 0;
        for (int i = 0; i < n; i++)
        {
            ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
            if (r < 0) return all ? all : r;
            all += r;
        }
        return all;
    }
    // advice and locks have no effect here (nobody else opens these files)
    int madvise(void *a, size_t n, int w) noexcept
    {
        if (onFiber() && (is_pm(a) || is_arena(a))) return 0;
        return (int)syscall(SYS_madvise, a, n, w);
    }
    int posix_madvise(void *a, size_t n, int w) noexcept { return onFiber() && (is_pm(a) || is_arena(a)) ? 0 : madvise(a, n, w) ? errno : 0; }
    int posix_fadvise(int fd, off_t off, off_t n, int w) noexcept { return simfd(fd) ? 0 : (int)-syscall(SYS_fadvise64, fd, off, n, w); }
    int flock(int fd, int op) noexcept { return simfd(fd) ? 0 : (int)syscall(SYS_flock, fd, op); }
    int lockf(int fd, int, off_t) { return simfd(fd) ? 0 : fail(EINVAL); }
    // directories, listed in an order the environment chooses
    static DIR *mk_dir(const std::string &p, int fd)
    {
        DirStream *d = new DirStream();
        d->i = 0;
        d->fd = fd;
        std::vector<std::string> n;
        std::string pre = p == "/" ? "/" : p + "/";
        for (auto &e : dir)
            if (e.first.compare(0, pre.size(), pre) == 0 && e.first.find('/', pre.size()) == std::string::npos) n.push_back(e.first.substr(pre.size()));
        for (auto &e : dirs)
            if (e != p && e.compare(0, pre.size(), pre) == 0 && e.find('/', pre.size()) == std::string::npos && e.size() > pre.size()) n.push_back(e.substr(pre.size()));
        n.push_back(".");
        n.push_back("..");
        Rng r(mix2(S.cfg->envSeed, 0xD1));
        for (size_t i = n.size(); i > 1; i--) std::swap(n[i - 1], n[r.below(i)]);
        d->names = n;
        streams.insert(d);
        return (DIR *)d;
    }
    DIR *opendir(const char *p)
    {
        static auto r = REAL(opendir);
        if (!onFiber()) return r(p);
        int fd = do_open(p, O_RDONLY | O_DIRECTORY);
        if (fd < 0) return nullptr;
        Host h;
        return mk_dir(fds[fd].path, fd);
    }
    DIR *fdopendir(int fd)
    {
        static auto r = REAL(fdopendir);
        if (!simfd(fd)) return r(fd);
        Host h;
        if (!fds.count(fd) || fds[fd].kind != 2) { errno = ENOTDIR; return nullptr; }
        return mk_dir(fds[fd].path, fd);
    }
    struct dirent *readdir(DIR *dp)
    {
        static auto r = REAL(readdir);
        if (!onFiber()) return r(dp);
        sim_settle();
        point(K_SYS, nullptr);
        DirStream *d = (DirStream *)dp;
        Host h;
        if (!streams.count(d)) { errno = EBADF; return nullptr; }
        std::string base = fds[d->fd].path;
        while (d->i < d->names.size())
        {
            std::string &n = d->names[d->i++];
            std::string full = (base == "/" ? "" : base) + "/" + n;
            bool isd = n == "." || n == ".." || dirs.count(full);
            if (!isd && !dir.count(full)) continue; // removed meanwhile
            memset(&d->ent, 0, sizeof d->ent);
            d->ent.d_ino = 1;
            d->ent.d_type = isd ? DT_DIR : DT_REG;
            snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", n.c_str());
            return &d->ent;
        }
        return nullptr;
    }
    struct dirent64 *readdir64(DIR *dp)
    {
        static auto r = REAL(readdir64);
        if (!onFiber()) return r(dp);
        return (struct dirent64 *)readdir(dp);
    }
    int closedir(DIR *dp)
    {
        static auto r = REAL(closedir);
        if (!onFiber()) return r(dp);
        DirStream *d = (DirStream *)dp;
        Host h;
        if (!streams.erase(d)) return fail(EBADF);
        fds.erase(d->fd);
        delete d;
        return 0;
    }
    int dirfd(DIR *dp) noexcept
    {
        static auto r = REAL(dirfd);
        if (!onFiber()) return r(dp);
        return ((DirStream *)dp)->fd;
    }
    // stdio streams: text inputs are provided by the harness, outputs vanish
    static FILE *sim_fopen(const char *p, const char *mode)
    {
        sim_settle();
        point(K_SYS, nullptr);
        Host h;
        std::string c = canon(p);
        int fd = (int)syscall(SYS_memfd_create, "psim", 0);
        auto it = texts.find(c);
        if (mode[0] == 'r')
        {
            auto bin = dir.find(c);
            if (it == texts.end() && bin == dir.end()) { syscall(SYS_close, fd); errno = ENOENT; return nullptr; }
            if (it == texts.end())
            {
                File &b = *files[bin->second];
                ensure_va(b);
                if (syscall(SYS_write, fd, b.va, b.size) < 0) {}
            }
            else if (syscall(SYS_write, fd, it->second.data(), it->second.size()) < 0) {}
            syscall(SYS_lseek, fd, 0, SEEK_SET);
        }
        FILE *f = fdopen(fd, mode);
        openFiles.push_back(f);
        return f;
    }
    FILE *fopen(const char *p, const char *mode)
    {
        static auto r = REAL(fopen);
        if (!onFiber()) return r(p, mode);
        return sim_fopen(p, mode);
    }
    FILE *fopen64(const char *p, const char *mode)
    {
        static auto r = REAL(fopen64);
        if (!onFiber()) return r(p, mode);
        return sim_fopen(p, mode);
    }
    int fclose(FILE *f)
    {
        static auto r = REAL(fclose);
        auto it = std::find(openFiles.begin(), openFiles.end(), f);
        if (it != openFiles.end()) openFiles.erase(it);
        return r(f);
    }
    // captured console output (the SUT is linked with --wrap for these)
    static void out(const char *s, size_t n)
    {
        if (S.cur < 0) return;
        Host h;
        if (S.out.size() < (1u << 20)) S.out.append(s, n);
    }
    void sim_out(const char *s, size_t n) { out(s, n); }
    int __wrap_printf(const char *f, ...)
    {
        char b[2048];
        va_list ap;
        va_start(ap, f);
        int n = vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out(b, strlen(b));
        return n;
    }
    int __wrap_fprintf(FILE *, const char *f, ...)
    {
        char b[2048];
        va_list ap;
        va_start(ap, f);
        int n = vsnprintf(b, sizeof b, f, ap);
        va_end(ap);
        out(b, strlen(b));
        return n;
    }
    int __wrap_puts(const char *s) { out(s, strlen(s)); out("\n", 1); return 1; }
    int __wrap_putchar(int c) { char x = (char)c; out(&x, 1); return c; }
    size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *) { out((const char *)p, a * b); return b; }
    int __wrap_fputs(const char *s, FILE *) { out(s, strlen(s)); return 1; }
    int __wrap_fputc(int c, FILE *) { char x = (char)c; out(&x, 1); return c; }
    void __wrap_perror(const char *s) { out(s, strlen(s)); out("\n", 1); }
    void *__wrap_malloc(size_t n)
    {
        if (!onFiber()) return malloc(n);
        int e;
        if (inject(F_NEW, e)) { errno = ENOMEM; return nullptr; }
        return arena_alloc(n);
    }
    void *__wrap_calloc(size_t a, size_t b)
    {
        if (!onFiber()) return calloc(a, b);
        int e;
        if (inject(F_NEW, e)) { errno = ENOMEM; return nullptr; }
        void *p = arena_alloc(a * b);
        memset(p, 0, a * b);
        return p;
    }
    void *__wrap_realloc(void *o, size_t n)
    {
        if (!onFiber()) return realloc(o, n);
        void *p = arena_alloc(n);
        if (o) { size_t k = *(size_t *)((char *)o - 16); memcpy(p, o, k < n ? k : n); arena_free(o); }
        return p;
    }
    void __wrap_free(void *p)
    {
        if (!p) return;
        if (is_arena(p)) { if (S.cur >= 0) arena_free(p); return; }
        free(p);
    }
    int kill(pid_t p, int s) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_kill, p, s);
        violate("killed", "the program killed itself with signal %d", s);
    }
}
