#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sysinfo.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>
#include <pthread.h>
#include <linux/futex.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/time.h>
#include <unordered_map>

namespace sim
{
Global S;
const char *kindName[K_N] = {"load", "store", "rmw", "flush", "fence", "sys", "plain", "op", "lock", "yield", "exit"};
const char *faultName[F_N] = {"alloc", "open", "ftruncate", "fstat", "mmap", "rename", "fsync", "unlink", "pmalloc", "lock"};

extern "C" void sim_switch(void **save, void *load);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static const size_t STK = 512 * 1024;

// ---- SUT image: writable segments and TLS ----
struct Seg { char *p; size_t n; std::vector<char> snap; };
static std::vector<Seg> segs;
static char *tlsBlock = nullptr;
static size_t tlsSize = 0;
static std::vector<char> tlsInit;
static std::string sutPath;
static uintptr_t sutLo = 0, sutHi = 0;

static int phdr_cb(dl_phdr_info *info, size_t, void *)
{
    if (!info->dlpi_name || sutPath.empty() || sutPath != info->dlpi_name) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
    {
        const auto &ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD)
        {
            uintptr_t a = info->dlpi_addr + ph.p_vaddr;
            if (!sutLo || a < sutLo) sutLo = a;
            if (a + ph.p_memsz > sutHi) sutHi = a + ph.p_memsz;
            if (ph.p_flags & PF_W)
            {
                Seg s;
                s.p = (char *)a;
                s.n = ph.p_memsz;
                s.snap.assign(s.p, s.p + s.n);
                segs.push_back(std::move(s));
            }
        }
        if (ph.p_type == PT_TLS && ph.p_memsz)
        {
            tlsBlock = (char *)info->dlpi_tls_data;
            tlsSize = ph.p_memsz;
            tlsInit.assign(tlsSize, 0);
            memcpy(tlsInit.data(), (char *)info->dlpi_addr + ph.p_vaddr, ph.p_filesz);
        }
    }
    return 1;
}

void *load_sut(const char *path)
{
    char rp[4096];
    if (!realpath(path, rp)) { fprintf(stderr, "psim: no %s\n", path); exit(2); }
    void *h = dlopen(rp, RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "psim: dlopen: %s\n", dlerror()); exit(2); }
    typedef void *(*touch_t)();
    if (auto t = (touch_t)dlsym(h, "sut_touch_tls")) t(); // makes sure the TLS block exists
    sutPath = rp;
    dl_iterate_phdr(phdr_cb, nullptr);
    if (segs.empty()) { fprintf(stderr, "psim: SUT segments not found\n"); exit(2); }
    if (tlsSize && !tlsBlock) { fprintf(stderr, "psim: SUT TLS not found\n"); exit(2); }
    return h;
}

// ---- arena ----
static char *const ARENA = (char *)0x100000000000ull;
static const size_t ARENA_SZ = 256ull << 20;
static unsigned char *ash;          // shadow, one byte per 8 bytes: 0 never allocated, 1 live, 2 freed
static size_t arenaUsed = 0;
static unsigned char arenaFill = 0;
struct Hdr { u64 size; u64 magic; };

// Very large blocks (buffers sized for real workloads) get address space of their own, and pages only where they are touched.
static char *const HUGEMEM = (char *)0x1c0000000000ull;
static const size_t HUGE_SZ = 16ull << 30, HUGE_MIN = 8ull << 20;
static size_t hugeUsed = 0;
static bool hugeMapped = false;
static bool is_huge(const void *p) { return (uintptr_t)p - (uintptr_t)HUGEMEM < HUGE_SZ; }
static void *huge_alloc(size_t n)
{
    Host h;
    if (!hugeMapped)
    {
        void *r = (void *)syscall(SYS_mmap, HUGEMEM, HUGE_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (r != HUGEMEM) { fprintf(stderr, "psim: cannot reserve address space\n"); _exit(2); }
        hugeMapped = true;
    }
    size_t need = (n + 0xffffull) & ~0xffffull;
    if (hugeUsed + need > HUGE_SZ) return nullptr;
    char *p = HUGEMEM + hugeUsed;
    hugeUsed += need;
    return p;
}
static void huge_reset()
{
    if (hugeUsed) syscall(SYS_madvise, HUGEMEM, hugeUsed, MADV_DONTNEED);
    hugeUsed = 0;
}

bool is_arena(const void *p) { return (uintptr_t)p - (uintptr_t)ARENA < ARENA_SZ; }

void arena_reset(unsigned char fill)
{
    huge_reset();
    memset(ARENA, fill, arenaUsed);
    memset(ash, 0, arenaUsed / 8 + 8);
    if (fill != arenaFill)
    {
        // the untouched remainder is filled lazily at allocation
        arenaFill = fill;
    }
    arenaUsed = 0;
}
void *arena_alloc(size_t n)
{
    size_t need = ((n + 15) & ~15ull) + 32;
    if (arenaUsed + need > ARENA_SZ) violate("out-of-memory", "simulated heap exhausted (%zu bytes used)", arenaUsed);
    char *h = ARENA + arenaUsed;
    // 64-byte alignment for large objects is not required by the code under test
    Hdr *hd = (Hdr *)h;
    hd->size = n;
    hd->magic = 0x51AB51AB51AB51ABull;
    char *p = h + 16;
    memset(p, arenaFill, need - 32);
    memset(ash + (p - ARENA) / 8, 1, (n + 7) / 8);
    arenaUsed += need;
    return p;
}
static void *arena_alloc_aligned(size_t n, size_t al)
{
    if (al > 16)
    {
        size_t off = (arenaUsed + 16) & (al - 1);
        if (off) arenaUsed += al - off;
    }
    return arena_alloc(n);
}
bool arena_free(void *p)
{
    Hdr *hd = (Hdr *)((char *)p - 16);
    if (hd->magic != 0x51AB51AB51AB51ABull)
    {
        if (hd->magic == 0xDEADDEADDEADDEADull) violate("double-free", "heap object +0x%zx freed twice", (size_t)((char *)p - ARENA));
        violate("bad-free", "free of an address that was never allocated");
    }
    hd->magic = 0xDEADDEADDEADDEADull;
    memset(ash + ((char *)p - ARENA) / 8, 2, (hd->size + 7) / 8);
    return true;
}
void arena_check(const void *p, size_t n, bool write)
{
    size_t o = (char *)p - ARENA;
    unsigned char s = ash[o / 8], e = ash[(o + (n ? n - 1 : 0)) / 8];
    if (s == 1 && e == 1) return;
    if (s == 2 || e == 2) violate("use-after-free", "%s of %zu bytes in freed heap memory +0x%zx", write ? "write" : "read", n, o);
    violate("heap-out-of-bounds", "%s of %zu bytes outside any heap object +0x%zx", write ? "write" : "read", n, o);
}

u64 norm(const void *p)
{
    uintptr_t a = (uintptr_t)p;
    if (is_arena(p)) return a;
    if (is_pm(p)) return a;
    if (a >= sutLo && a < sutHi) return 0x300000000000ull + (a - sutLo);
    return 0;
}

// ---- process init ----
static char altstk[64 * 1024];
static void on_signal(int sig, siginfo_t *si, void *)
{
    if (S.cur < 0)
    {
        fprintf(stderr, "psim: signal %d in host code at %p\n", sig, si->si_addr);
        _exit(2);
    }
    if (S.hostMode)
    {
        fprintf(stderr, "psim: signal %d in host code on fiber %d\n", sig, S.cur);
        _exit(2);
    }
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL";
    uintptr_t a = (uintptr_t)si->si_addr;
    Fiber &f = S.f[S.cur];
    bool so = a >= f.lo - 4096 * 4 && a < f.lo + 4096;
    violate("crash", "%s%s", so ? "stack overflow, " : "", n);
}

// A loop without any scheduling point would never return to the simulator.
static u64 wdSteps = 0;
static int wdSeen = 0;
static void on_tick(int)
{
    if (!onFiber() || wdSteps != S.stats.steps)
    {
        wdSteps = S.stats.steps;
        wdSeen = 0;
        return;
    }
    if (++wdSeen < 6) return;
    wdSeen = 0;
    violate("no-progress", "a thread loops for ever without any access to shared memory or call of the system");
}

void init()
{
    void *r = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != ARENA) { fprintf(stderr, "psim: cannot reserve the arena\n"); exit(2); }
    ash = (unsigned char *)mmap(nullptr, ARENA_SZ / 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXF; i++)
    {
        Fiber &f = S.f[i];
        f.id = i;
        char *m = (char *)mmap((void *)(0x180000000000ull + (u64)i * (STK + 65536)), STK + 16384, PROT_READ | PROT_WRITE,
                               MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m == MAP_FAILED) { fprintf(stderr, "psim: cannot map stacks\n"); exit(2); }
        mprotect(m, 16384, PROT_NONE);
        f.stk = m;
        f.lo = (uintptr_t)m + 16384;
        f.hi = (uintptr_t)m + STK + 16384;
        f.minsp = f.hi;
    }
    stack_t ss;
    ss.ss_sp = altstk;
    ss.ss_size = sizeof altstk;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval tv = {{0, 500000}, {0, 500000}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr); // processor time of this process
    fs_reset();
}

// Where a free is checked against what the code under test still refers to (clevel): how often an object was put
// into a shared word, whether a background thread did so, and whether it was freed.
struct Placed { u32 n = 0; bool bg = false, freed = false; };
static std::unordered_map<u64, Placed> placedOffs;
static bool trackPlaces = false;
void run_begin()
{
    placedOffs.clear();
    trackPlaces = false;
    S.taint = false;
    fs_reset();
    S.hash = 0xcbf29ce484222325ull;
    S.stamp = 0;
    S.era = 0;
    S.now = 1000000000ull;
    S.violated = false;
    S.v = Violation();
    S.out.clear();
}

static void mutex_reset();

void era_begin(EraCfg *cfg)
{
    S.cfg = cfg;
    fs_shift(mix2(cfg->envSeed, 0x7661) % 512);
    static const u64 ticks[] = {50, 50, 1000, 20000};
    S.tick = cfg->tickNs ? cfg->tickNs : ticks[mix2(cfg->envSeed, 0x71c) & 3];
    for (auto &s : segs) memcpy(s.p, s.snap.data(), s.n);
    arena_reset((unsigned char)(cfg->envSeed % 3 == 0 ? 0xA5 : 0));
    mutex_reset();
    for (int i = 0; i < S.nf; i++)
    {
        Fiber &f = S.f[i];
        uintptr_t m = f.minsp > f.lo + 49152 ? f.minsp - 49152 : f.lo;
        memset((void *)m, 0, f.hi - m);
        f.st = FS_FREE;
    }
    for (int i = 0; i < MAXF; i++)
    {
        S.rec[i].clear();
        S.f[i].st = FS_FREE;
        S.f[i].minsp = S.f[i].hi;
    }
    S.recFaults.clear();
    S.recCrash = Point();
    S.recStall = Point();
    S.nf = 0;
    S.cur = -1;
    S.hostMode = 0;
    S.rng = Rng(cfg->schedSeed);
    S.gstep = 0;
    S.runLen = 0;
    S.marked = false;
    S.mark = 0;
    S.crashSeen = 0;
    memset(S.kindCount, 0, sizeof S.kindCount);
    S.fairMode = false;
    S.faultsOn = S.opening = false;
    S.end = END_DONE;
}

// ---- fibers ----
static void save_ctx(Fiber &f)
{
    f.err = errno;
    auto *g = abi::__cxa_get_globals();
    memcpy(f.eh, g, sizeof f.eh);
    if (tlsSize) memcpy(f.tls.data(), tlsBlock, tlsSize);
}
static void load_ctx(Fiber &f)
{
    errno = f.err;
    auto *g = abi::__cxa_get_globals();
    memcpy(g, f.eh, sizeof f.eh);
    if (tlsSize) memcpy(tlsBlock, f.tls.data(), tlsSize);
}
static Fiber hostCtx;

static void switch_to(int t)
{
    Fiber &a = S.f[S.cur];
    Fiber &b = S.f[t];
    save_ctx(a);
    S.cur = t;
    S.runLen = 0;
    S.stats.switches++;
    load_ctx(b);
    sim_switch(&a.sp, b.sp);
}
[[noreturn]] static void to_host()
{
    Fiber &a = S.f[S.cur];
    save_ctx(a);
    S.cur = -1;
    S.hostMode = 0;
    load_ctx(hostCtx);
    sim_switch(&a.sp, S.hostSp);
    __builtin_unreachable();
}

[[noreturn]] void violate(const char *kind, const char *fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (S.cur < 0)
    {
        fprintf(stderr, "psim: violation outside a fiber: %s: %s\n", kind, buf);
        _exit(2);
    }
    S.hostMode = 1;
    S.violated = true;
    S.v.kind = kind;
    S.v.detail = std::string(buf) + " [thread " + std::to_string(S.cur) + ", era " + std::to_string(S.era) + "]";
    S.end = END_VIOLATION;
    S.hostMode = 0;
    to_host();
}

static bool runnable(const Fiber &f)
{
    return f.st == FS_READY || (f.st == FS_SLEEP && f.wake <= S.now);
}

static int pick_default(int cur) // next runnable in cyclic order, or -1
{
    for (int d = 1; d <= S.nf; d++)
    {
        int t = (cur + d) % S.nf;
        if (t == cur) continue;
        if (runnable(S.f[t])) return t;
    }
    return -1;
}

static void rec_switch(Fiber &f, int t, bool forced)
{
    S.hostMode++;
    S.rec[f.id].push_back({f.lstep, t, forced});
    S.hostMode--;
}

static int explicit_target(Fiber &f, bool forced) // replay: is there a switch at this point?
{
    auto &v = S.cfg->sw[f.id];
    while (f.cursor < v.size() && v[f.cursor].lstep < f.lstep) f.cursor++;
    if (f.cursor < v.size() && v[f.cursor].lstep == f.lstep && v[f.cursor].forced == forced)
    {
        int t = v[f.cursor].target;
        f.cursor++;
        if (t >= 0 && t < S.nf && t != f.id && runnable(S.f[t])) return t;
    }
    return -1;
}

static int choose_other(int cur, bool forced) // record mode
{
    int cand[MAXF], n = 0;
    for (int i = 0; i < S.nf; i++)
        if (i != cur && runnable(S.f[i]) && S.f[i].frozenUntil <= S.gstep) cand[n++] = i;
    if (!n && forced)
        for (int i = 0; i < S.nf; i++)
            if (i != cur && runnable(S.f[i])) cand[n++] = i;
    if (!n) return -1;
    if (S.cfg->strategy == 1)
    {
        int b = cand[0];
        for (int i = 1; i < n; i++)
            if (S.f[cand[i]].prio > S.f[b].prio) b = cand[i];
        return b;
    }
    return cand[S.rng.below(n)];
}

// The current fiber cannot continue (blocked, done, stalled, sleeping).
static void forced_switch()
{
    Fiber &f = S.f[S.cur];
    for (;;)
    {
        int t = -1;
        if (S.cfg->explicitSched) { t = explicit_target(f, true); if (t < 0) t = pick_default(f.id); }
        else if (S.cfg->strategy == 3 || S.fairMode) t = pick_default(f.id);
        else t = choose_other(f.id, true);
        if (t >= 0)
        {
            rec_switch(f, t, true);
            switch_to(t);
            return;
        }
        // nobody else: perhaps sleepers (including this fiber)
        u64 w = ~0ull;
        for (int i = 0; i < S.nf; i++)
            if (S.f[i].st == FS_SLEEP) w = std::min(w, S.f[i].wake);
        if (w == ~0ull)
        {
            std::string who;
            S.hostMode++;
            for (int i = 0; i < S.nf; i++)
                if (S.f[i].st == FS_BLOCKED) who += " t" + std::to_string(i);
                else if (S.f[i].st == FS_STALLED) who += " t" + std::to_string(i) + "(suspended)";
            S.hostMode--;
            violate("deadlock", "no thread can run; blocked:%s", who.c_str());
        }
        if (w > S.now) S.now = w;
        if (f.st == FS_SLEEP && f.wake <= S.now) return;
    }
}

static void do_crash()
{
    Fiber &f = S.f[S.cur];
    S.recCrash.fiber = f.id;
    S.recCrash.lstep = f.lstep;
    S.end = END_CRASH;
    to_host();
}

static inline void hmix(u64 x)
{
    u64 h = S.hash ^ x;
    h *= 0x9E3779B97F4A7C15ull;
    S.hash = h ^ (h >> 29);
}

void point(Kind k, const void *addr)
{
    if (S.cur < 0 || S.hostMode) return;
    Fiber &f = S.f[S.cur];
    EraCfg &c = *S.cfg;
    S.gstep++;
    f.lstep++;
    S.runLen++;
    S.now += S.tick;
    S.stats.steps++;
    S.stats.kinds[k]++;
    ++S.kindCount[k];
    if (k == K_RMW || k == K_STORE || k == K_LOCK) f.announced = true;
    u64 rel = S.gstep - S.mark;
    hmix(((u64)f.id << 56) ^ ((u64)k << 48) ^ norm(addr));
    if (S.trace) fprintf(stderr, "%llu t%d.%u %s %llx\n", (unsigned long long)S.gstep, f.id, f.lstep, kindName[k], (unsigned long long)norm(addr));
    // crash?
    if (c.crashMode)
    {
        if (c.explicitSched || c.crashAt.fiber >= 0)
        {
            if (c.crashAt.fiber == f.id && c.crashAt.lstep == f.lstep) do_crash();
        }
        else
        {
            if (!c.crashRel || S.marked)
            {
                if (c.crashStep && rel >= c.crashStep) do_crash();
                if (c.crashKind == (int)k && ++S.crashSeen >= c.crashNth) do_crash();
            }
        }
    }
    // stall?
    if (f.worker && f.canStall && f.inOp && !f.noPreempt)
    {
        bool st = false;
        if (c.explicitSched || c.stallAt.fiber >= 0) st = c.stallAt.fiber == f.id && c.stallAt.lstep == f.lstep;
        else if (c.stallStep && rel >= c.stallStep && S.recStall.fiber < 0) st = true;
        if (st)
        {
            S.recStall.fiber = f.id;
            S.recStall.lstep = f.lstep;
            S.stats.stalls++;
            f.st = FS_STALLED;
            wake_all((void *)&S.nf); // main may be waiting for the workers
            forced_switch();
        }
    }
    if (S.gstep >= c.hangCap)
        violate("no-progress", "operations do not complete: %llu scheduling points, the last %llu of them under a fair schedule",
                (unsigned long long)S.gstep, (unsigned long long)(c.hangCap - c.adversarialCap));
    if (f.noPreempt) return;
    int t = -1;
    if (S.gstep >= c.adversarialCap)
    {
        S.fairMode = true;
        if (S.runLen >= 40) t = pick_default(f.id);
        if (t >= 0) { switch_to(t); return; }
        return;
    }
    if (c.explicitSched)
    {
        t = explicit_target(f, false);
        if (t < 0 && (S.runLen >= c.maxRun || k == K_YIELD)) t = pick_default(f.id);
        if (t >= 0) { rec_switch(f, t, false); switch_to(t); }
        return;
    }
    bool sw = false;
    switch (c.strategy)
    {
    case 0: sw = S.rng.chance(c.p[k]); break;
    case 1:
        if (std::binary_search(c.pctChange.begin(), c.pctChange.end(), rel))
        {
            f.prio = S.gstep < (1ull << 40) ? (1ull << 40) - S.gstep : 0; // below every initial priority
        }
        t = choose_other(f.id, false);
        if (t >= 0 && S.f[t].prio < f.prio) t = -1;
        break;
    case 2:
        sw = S.rng.chance(c.p[k]);
        if (f.worker && S.rng.chance(c.freezeP * (k == K_PLAIN ? 0.2 : 1)))
        {
            f.frozenUntil = S.gstep + S.rng.range(c.freezeMin, c.freezeMax);
            S.stats.freezes++;
            sw = true;
        }
        break;
    default: break;
    }
    if (sw) t = choose_other(f.id, false);
    if (t < 0 && (S.runLen >= c.maxRun || k == K_YIELD))
    {
        t = c.strategy == 3 ? pick_default(f.id) : choose_other(f.id, true);
    }
    if (t >= 0) { rec_switch(f, t, false); switch_to(t); }
}

void block_on(void *obj)
{
    Fiber &f = S.f[S.cur];
    f.st = FS_BLOCKED;
    f.waitOn = obj;
    forced_switch();
}
void wake_all(void *obj)
{
    for (int i = 0; i < S.nf; i++)
        if ((S.f[i].st == FS_BLOCKED || S.f[i].st == FS_SLEEP) && S.f[i].waitOn == obj) { S.f[i].st = FS_READY; S.f[i].waitOn = nullptr; }
}
static void sleep_ns(u64 ns)
{
    if (!onFiber()) return;
    point(K_YIELD, nullptr);
    Fiber &f = S.f[S.cur];
    f.wake = S.now + ns;
    f.st = FS_SLEEP;
    forced_switch();
    f.st = FS_READY;
}

static void fiber_exit()
{
    Fiber &f = S.f[S.cur];
    while (!f.atexit.empty()) // destructors of thread_local objects
    {
        Fiber::Dtor d = f.atexit.back();
        { Host h; f.atexit.pop_back(); }
        d.fn(d.obj);
    }
    if (f.id == 0) { S.end = END_DONE; to_host(); }
    point(K_EXIT, nullptr);
    f.st = FS_DONE;
    wake_all(&f);
    wake_all((void *)&S.nf);
    forced_switch();
    __builtin_unreachable();
}
static void fiber_entry()
{
    Fiber &f = S.f[S.cur];
    try { f.ret = f.fn(f.arg); }
    catch (std::exception &e) { violate("terminate", "uncaught exception in thread: %s", e.what()); }
    catch (...) { violate("terminate", "uncaught exception in thread"); }
    fiber_exit();
}

int spawn(void *(*fn)(void *), void *arg, bool worker)
{
    if (S.nf >= MAXF) { if (S.cur >= 0) violate("harness", "too many threads"); _exit(2); }
    Fiber &f = S.f[S.nf];
    f.fn = fn;
    f.arg = arg;
    f.ret = nullptr;
    f.worker = worker;
    f.background = false;
    f.plainLast = 0;
    f.plainRun = 0;
    f.inOp = false;
    f.canStall = true;
    f.announced = false;
    f.noPreempt = 0;
    f.st = FS_READY;
    f.lstep = 0;
    f.fidx = 0;
    f.cursor = 0;
    f.frozenUntil = 0;
    if (worker && !S.cfg->explicitSched && S.cfg->strategy == 2 && S.rng.chance(0.3)) f.frozenUntil = S.gstep + S.rng.range(50, 2000);
    f.err = 0;
    f.waitOn = nullptr;
    f.eh[0] = f.eh[1] = nullptr;
    f.atexit.clear();
    f.prio = (1ull << 41) + (mix2(S.cfg->schedSeed, 77 + S.nf) & 0xffffffff);
    S.hostMode++;
    f.tls = tlsInit;
    S.hostMode--;
    u64 *sp = (u64 *)(f.hi - 64);
    *--sp = 0;
    *--sp = (u64)(void *)fiber_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f.sp = sp;
    return S.nf++;
}

EndReason era_run()
{
    save_ctx(hostCtx.tls.size() || !tlsSize ? hostCtx : (hostCtx.tls.resize(tlsSize), hostCtx));
    Fiber &f = S.f[0];
    S.cur = 0;
    S.end = END_DONE;
    load_ctx(f);
    sim_switch(&S.hostSp, f.sp);
    S.stats.simTimeNs += S.gstep * S.tick;
    fs_dirty_sync_all();
    return S.end;
}

int wait_workers()
{
    for (;;)
    {
        bool all = true;
        int stalled = 0;
        for (int i = 1; i < S.nf; i++)
        {
            if (!S.f[i].worker || S.f[i].background) continue;
            if (S.f[i].st == FS_STALLED) stalled++;
            else if (S.f[i].st != FS_DONE) all = false;
        }
        if (all) return stalled;
        block_on((void *)&S.nf);
    }
}

u64 coin(u64 tag)
{
    Fiber &f = S.f[S.cur < 0 ? 0 : S.cur];
    return mix2(mix2(S.cfg->envSeed, tag), ((u64)f.id << 32) ^ f.lstep);
}

bool inject(Fault k, int &err)
{
    if (!S.faultsOn || S.cur < 0) return false;
    Fiber &f = S.f[S.cur];
    u32 idx = f.fidx++;
    EraCfg &c = *S.cfg;
    if (c.explicitSched)
    {
        for (auto &p : c.faults)
            if (p.fiber == f.id && p.idx == idx && p.kind == k)
            {
                err = p.err;
                S.hostMode++;
                S.recFaults.push_back(p);
                S.hostMode--;
                S.stats.faults[k]++;
                return true;
            }
        return false;
    }
    if (c.faultP[k] <= 0) return false;
    if (!S.rng.chance(c.faultP[k])) return false;
    static const int eo[] = {EMFILE, ENFILE, ENOSPC, ENOMEM}, et[] = {ENOSPC, EIO, EDQUOT}, em[] = {ENOMEM, EAGAIN};
    switch (k)
    {
    case F_OPEN: err = eo[S.rng.below(4)]; break;
    case F_TRUNC: err = et[S.rng.below(3)]; break;
    case F_MMAP: err = em[S.rng.below(2)]; break;
    case F_STAT: err = EIO; break;
    case F_RENAME: err = S.rng.below(2) ? ENOSPC : EIO; break;
    case F_FSYNC: err = EIO; break;
    case F_UNLINK: err = EIO; break;
    default: err = ENOMEM;
    }
    S.hostMode++;
    S.recFaults.push_back({f.id, idx, (int)k, err});
    S.hostMode--;
    S.stats.faults[k]++;
    return true;
}

// ---- locks ----
struct Mtx { void *a; int owner; int depth; };
static std::vector<Mtx> mtx;
static void mutex_reset() { mtx.clear(); }
static Mtx &mtx_get(void *a)
{
    for (auto &m : mtx) if (m.a == a) return m;
    Host h;
    mtx.push_back({a, -1, 0});
    return mtx.back();
}
struct RW { void *a; int writer; int readers; };
} // namespace sim

using namespace sim;

namespace std
{
void __glibcxx_assert_fail(const char *file, int line, const char *, const char *cond) noexcept
{
    const char *b = file ? strrchr(file, '/') : nullptr;
    if (S.cur < 0 || S.hostMode) { fprintf(stderr, "psim: library check failed: %s:%d %s\n", file ? file : "?", line, cond ? cond : "?"); _exit(2); }
    violate("library-check", "standard library precondition violated: %s (%s:%d)", cond ? cond : "?", b ? b + 1 : "?", line);
}
}
// ---- allocation ----
static void *real_alloc(size_t n)
{
    void *p = malloc(n ? n : 1);
    if (!p) { static const char m[] = "psim: out of memory\n"; if (write(2, m, sizeof m - 1)) {} _exit(2); }
    return p;
}
extern "C" char __executable_start, etext;
static inline bool own_code(void *ra) { return ra >= (void *)&__executable_start && ra < (void *)&etext; }
static inline __attribute__((always_inline)) void *sim_new(size_t n, size_t al, bool nothrow)
{
    if (!onFiber() || own_code(__builtin_return_address(0)))
    {
        if (al <= 16) return real_alloc(n);
        void *p = nullptr;
        if (posix_memalign(&p, al, n)) _exit(2);
        return p;
    }
    int e;
    // The C++ library's file system functions end the process when memory runs out: no fault of the map's.
    uintptr_t ra = (uintptr_t)__builtin_return_address(0);
    if ((!S.opening || (ra >= sutLo && ra < sutHi)) && inject(F_NEW, e))
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (n >= HUGE_MIN) return huge_alloc(n);
    return arena_alloc_aligned(n, al);
}
static void sim_delete(void *p)
{
    if (!p) return;
    if (is_huge(p)) return;
    if (is_arena(p))
    {
        if (S.cur < 0) return; // leftovers of an abandoned era
        arena_free(p);
        return;
    }
    free(p);
}
void *operator new(size_t n) { return sim_new(n, 16, false); }
void *operator new[](size_t n) { return sim_new(n, 16, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 16, true); }
void *operator new(size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim_new(n, (size_t)a, false); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_delete(p); }

static void placed2(u64 off)
{
    Host h;
    Placed &p = placedOffs[off];
    p.n++;
    if (S.f[S.cur].background) p.bg = true;
    if (p.freed && (p.bg || p.n > 1)) S.taint = true;
}
static inline void placed(u64 v)
{
    u64 off = v & 0x0000FFFFFFFFFFFCull;
    if (trackPlaces && off && S.cur >= 0) placed2(off);
}
extern "C"
{
    // ---- thread sanitizer interface, implemented by the simulator ----
    static void *pendP = nullptr; // plain store announced but not yet performed
    static size_t pendN = 0;
    static inline void settle()
    {
        if (pendP) { void *p = pendP; pendP = nullptr; pm_store(p, pendN); }
    }
    void sim_settle() { settle(); }
    // A long run of plain accesses to consecutive words (an array being constructed) stops being scheduling points.
    static inline bool bulk(const void *p)
    {
        Fiber &f = S.f[S.cur];
        uintptr_t a = (uintptr_t)p, d = a - f.plainLast;
        f.plainLast = a;
        if (d > 16) { f.plainRun = 0; return false; }
        return ++f.plainRun > 64;
    }
    static inline void plain(const void *p, size_t n, bool w)
    {
        if (S.cur < 0 || S.hostMode) return;
        if (is_arena(p))
        {
            settle();
            if (S.cfg->plainPoints && !bulk(p)) point(K_PLAIN, p);
            arena_check(p, n, w);
        }
        else if (is_pm(p))
        {
            settle();
            if (S.cfg->plainPoints && !bulk(p)) point(K_PLAIN, p);
            pm_check(p, n, w);
            if (w) { pendP = (void *)p; pendN = n; }
        }
        else if (S.cfg->plainPoints && (uintptr_t)p >= sutLo && (uintptr_t)p < sutHi) { settle(); point(K_PLAIN, p); }
    }
    void __tsan_init() {}
    void __tsan_func_entry(void *)
    {
        if (S.cur >= 0)
        {
            uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
            if (sp < S.f[S.cur].minsp) S.f[S.cur].minsp = sp;
        }
    }
    void __tsan_func_exit() {}
#define RW(n)                                                              \
    void __tsan_read##n(void *p) { plain(p, n, false); }                   \
    void __tsan_write##n(void *p) { plain(p, n, true); }                   \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, false); }         \
    void __tsan_unaligned_write##n(void *p) { plain(p, n, true); }         \
    void __tsan_volatile_read##n(void *p) { plain(p, n, false); }          \
    void __tsan_volatile_write##n(void *p) { plain(p, n, true); }          \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void *p, size_t n) { plain(p, n, false); }
    void __tsan_write_range(void *p, size_t n) { plain(p, n, true); }
    void __tsan_vptr_update(void **p, void *) { plain(p, 8, true); }
    void __tsan_vptr_read(void **p) { plain(p, 8, false); }

    static inline void pre(const void *p, size_t n, Kind k)
    {
        if (S.cur < 0 || S.hostMode) return;
        settle();
        point(k, p);
        if (is_arena(p)) arena_check(p, n, k != K_LOAD);
        else if (is_pm(p)) pm_check(p, n, k != K_LOAD);
    }
    static inline void post(const void *p, size_t n)
    {
        if (is_pm(p)) pm_store(p, n);
    }
    static inline void res(u64 v)
    {
        if (S.cur < 0 || S.hostMode) return;
        uintptr_t a = (uintptr_t)v;
        if (a >= sutLo && a < sutHi) v = a - sutLo;
        else if (a >= 0x500000000000ull && a < 0x800000000000ull) v = 1; // host address: never hashed
        hmix(v);
    }
#define ATOM(N, T)                                                                                     \
    T __tsan_atomic##N##_load(const volatile T *p, int)                                                \
    { pre((void *)p, sizeof(T), K_LOAD); T v = __atomic_load_n(p, 5); if (N == 64 && is_pm((void *)p) && onFiber()) pm_seen((void *)p, (u64)v); res((u64)v); return v; }          \
    void __tsan_atomic##N##_store(volatile T *p, T v, int)                                             \
    { pre((void *)p, sizeof(T), K_STORE); __atomic_store_n(p, v, 5); post((void *)p, sizeof(T)); }      \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int)                                             \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_exchange_n(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int)                                            \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_add(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int)                                            \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_sub(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int)                                            \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_and(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int)                                             \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_or(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int)                                            \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_xor(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int)                                           \
    { pre((void *)p, sizeof(T), K_RMW); T r = __atomic_fetch_nand(p, v, 5); post((void *)p, sizeof(T)); res((u64)r); return r; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int, int)                 \
    { pre((void *)p, sizeof(T), K_RMW); T e = *c; bool r = __atomic_compare_exchange_n(p, &e, v, false, 5, 5); if (!r) *c = e; else { if (N == 64) placed((u64)v); if (N == 64 && is_pm((void *)p) && onFiber() && ((u64)e ^ (u64)v) == 1 && ((u64)e & 1)) pm_cleared((void *)p, (u64)e); post((void *)p, sizeof(T)); if (N == 64 && is_pm((void *)p) && onFiber()) pm_seen((void *)p, (u64)v); } res((u64)e); res(r); return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int, int)                   \
    { pre((void *)p, sizeof(T), K_RMW); T e = *c; \
      if (S.cur >= 0 && !S.hostMode && coin(0x5F) % 16 == 0) { e = __atomic_load_n(p, 5); *c = e; res((u64)e); return 0; } \
      bool r = __atomic_compare_exchange_n(p, &e, v, false, 5, 5); if (!r) *c = e; else { if (N == 64) placed((u64)v); post((void *)p, sizeof(T)); } res((u64)e); res(r); return r; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int, int)                       \
    { pre((void *)p, sizeof(T), K_RMW); T e = c; if (__atomic_compare_exchange_n(p, &e, v, false, 5, 5)) { if (N == 64) placed((u64)v); post((void *)p, sizeof(T)); } res((u64)e); return e; }
    ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { if (onFiber()) { settle(); point(K_LOAD, nullptr); } }
    void __tsan_atomic_signal_fence(int) {}

    // ---- persistence instructions (seam.h maps the intrinsics here) ----
    void sim_clflush(const void *p)
    {
        if (!onFiber()) return;
        settle();
        point(K_FLUSH, p);
        pm_flush(p);
    }
    void sim_sfence()
    {
        if (!onFiber()) return;
        settle();
        point(K_FENCE, nullptr);
        pm_fence();
    }
    unsigned long sim_copy_chunk() { return S.chunk; }
    void sim_pause()
    {
        if (!onFiber()) return;
        settle();
        point(K_YIELD, nullptr);
    }

    // ---- threads ----
#define REAL(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
    static void lock_mtx(void *m, bool rec)
    {
        settle();
        point(K_LOCK, m);
        for (;;)
        {
            Mtx &x = mtx_get(m);
            if (x.owner < 0) { x.owner = S.cur; x.depth = 1; return; }
            if (x.owner == S.cur && rec) { x.depth++; return; }
            block_on(m);
        }
    }
    static bool try_mtx(void *m, bool rec)
    {
        settle();
        point(K_LOCK, m);
        Mtx &x = mtx_get(m);
        if (x.owner < 0) { x.owner = S.cur; x.depth = 1; return true; }
        if (x.owner == S.cur && rec) { x.depth++; return true; }
        return false;
    }
    static void unlock_mtx(void *m)
    {
        settle();
        point(K_LOCK, m);
        Mtx &x = mtx_get(m);
        if (x.owner != S.cur) violate("lock-misuse", "unlock of a mutex not held by this thread");
        if (--x.depth == 0) { x.owner = -1; wake_all(m); }
    }
    int pthread_mutex_lock(pthread_mutex_t *m)
    {
        static auto r = REAL(pthread_mutex_lock);
        if (!onFiber()) return r(m);
        lock_mtx(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t *m)
    {
        static auto r = REAL(pthread_mutex_trylock);
        if (!onFiber()) return r(m);
        return try_mtx(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY;
    }
    int pthread_mutex_unlock(pthread_mutex_t *m)
    {
        static auto r = REAL(pthread_mutex_unlock);
        if (!onFiber()) return r(m);
        unlock_mtx(m);
        return 0;
    }
    // condition variables
    int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
    {
        static auto r = REAL(pthread_cond_wait);
        if (!onFiber()) return r(c, m);
        unlock_mtx(m);
        block_on(c);
        lock_mtx(m, false);
        return 0;
    }
    // A signal wakes one waiter, and now and then more.
    static void wake_some(void *c)
    {
        int n = 0, w[MAXF];
        for (int i = 0; i < S.nf; i++)
            if ((S.f[i].st == FS_BLOCKED || S.f[i].st == FS_SLEEP) && S.f[i].waitOn == c) w[n++] = i;
        if (!n) return;
        u64 x = coin(0x516);
        if (x % 8 == 0) { wake_all(c); return; }
        Fiber &f = S.f[w[(x >> 8) % n]];
        f.st = FS_READY;
        f.waitOn = nullptr;
    }
    int pthread_cond_signal(pthread_cond_t *c)
    {
        static auto r = REAL(pthread_cond_signal);
        if (!onFiber()) return r(c);
        point(K_LOCK, c);
        wake_some(c);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t *c)
    {
        static auto r = REAL(pthread_cond_broadcast);
        if (!onFiber()) return r(c);
        point(K_LOCK, c);
        wake_all(c);
        return 0;
    }
    // The wall clock and the steady clock start at different, arbitrary points.
    static bool is_wall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
    static u64 wall() { return (1000000000ull + mix2(S.cfg->envSeed, 0x3A11) % 1000000000ull) * 1000000000ull + mix2(S.cfg->envSeed, 0x3A12) % 1000000000ull; }
    static u64 due(const struct timespec *ts, clockid_t c)
    {
        u64 t = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec, w = is_wall(c) ? wall() : 0;
        return t > w ? t - w : 0;
    }
    // Until somebody wakes the object or simulated time has passed the deadline: whether it was woken.
    static bool block_until(void *obj, u64 until)
    {
        Fiber &f = S.f[S.cur];
        if (S.now >= until) return false;
        f.wake = until;
        f.waitOn = obj;
        f.st = FS_SLEEP;
        forced_switch();
        f.st = FS_READY;
        bool woken = f.waitOn == nullptr;
        f.waitOn = nullptr;
        return woken;
    }
    static int timed_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, clockid_t k)
    {
        u64 until = due(ts, k);
        unlock_mtx(m);
        bool signalled = block_until(c, until);
        lock_mtx(m, false);
        return signalled ? 0 : ETIMEDOUT;
    }
    int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
    {
        static auto r = REAL(pthread_cond_timedwait);
        if (!onFiber()) return r(c, m, ts);
        return timed_wait(c, m, ts, CLOCK_REALTIME);
    }
    int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts)
    {
        static auto r = REAL(pthread_cond_clockwait);
        if (!onFiber()) return r(c, m, k, ts);
        return timed_wait(c, m, ts, k);
    }
    static int timed_lock(pthread_mutex_t *m, const struct timespec *ts, clockid_t k)
    {
        if (!onFiber()) return EINVAL;
        u64 until = due(ts, k);
        while (!try_mtx(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE))
            if (!block_until(m, until) && S.now >= until) return ETIMEDOUT;
        return 0;
    }
    int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return timed_lock(m, ts, CLOCK_REALTIME); }
    int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return timed_lock(m, ts, k); }
    int pthread_spin_init(pthread_spinlock_t *l, int) noexcept { *l = 1; return 0; }
    int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
    int pthread_spin_lock(pthread_spinlock_t *l) noexcept { if (onFiber()) lock_mtx((void *)l, false); return 0; }
    int pthread_spin_trylock(pthread_spinlock_t *l) noexcept { return !onFiber() || try_mtx((void *)l, false) ? 0 : EBUSY; }
    int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { if (onFiber()) unlock_mtx((void *)l); return 0; }
    // std::call_once
    int pthread_once(pthread_once_t *o, void (*fn)(void))
    {
        static auto r = REAL(pthread_once);
        if (!onFiber()) return r(o, fn);
        settle();
        point(K_LOCK, o);
        while (*o == 1) block_on(o);
        if (*o == 2) return 0;
        *o = 1;
        try { fn(); }
        catch (...) { *o = 0; wake_all(o); throw; }
        *o = 2;
        wake_all(o);
        return 0;
    }
    // barriers: count and waiting kept in the object
    struct Bar { u32 count, waiting, round; };
    int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) noexcept
    {
        Bar *x = (Bar *)b;
        x->count = n;
        x->waiting = x->round = 0;
        return 0;
    }
    int pthread_barrier_destroy(pthread_barrier_t *) noexcept { return 0; }
    int pthread_barrier_wait(pthread_barrier_t *b) noexcept
    {
        if (!onFiber()) return 0;
        settle();
        point(K_LOCK, b);
        Bar *x = (Bar *)b;
        if (++x->waiting == x->count)
        {
            x->waiting = 0;
            x->round++;
            wake_all(b);
            return PTHREAD_BARRIER_SERIAL_THREAD;
        }
        u32 r = x->round;
        while (x->round == r) block_on(b);
        return 0;
    }
    int sem_init(sem_t *s, int, unsigned v) noexcept { *(u32 *)s = v; return 0; }
    int sem_destroy(sem_t *) noexcept { return 0; }
    int sem_wait(sem_t *s)
    {
        if (!onFiber()) return 0;
        settle();
        point(K_LOCK, s);
        while (*(u32 *)s == 0) block_on(s);
        --*(u32 *)s;
        return 0;
    }
    int sem_trywait(sem_t *s) noexcept
    {
        if (!onFiber()) return 0;
        settle();
        point(K_LOCK, s);
        if (*(u32 *)s == 0) { errno = EAGAIN; return -1; }
        --*(u32 *)s;
        return 0;
    }
    int sem_post(sem_t *s) noexcept
    {
        if (!onFiber()) return 0;
        settle();
        point(K_LOCK, s);
        ++*(u32 *)s;
        wake_all(s);
        return 0;
    }
    // std::atomic::wait and notify
    long syscall(long nr, ...) noexcept
    {
        long a[6];
        va_list ap;
        va_start(ap, nr);
        for (long &x : a) x = va_arg(ap, long);
        va_end(ap);
        if (onFiber() && nr == SYS_futex)
        {
            void *p = (void *)a[0];
            int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            settle();
            point(K_LOCK, p);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                if (*(volatile u32 *)p != (u32)a[2]) { errno = EAGAIN; return -1; }
                block_on(p);
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake_all(p); return 1; }
        }
        long ret;
        register long r10 asm("r10") = a[3];
        register long r8 asm("r8") = a[4];
        register long r9 asm("r9") = a[5];
        asm volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
        return ret;
    }
    // reader/writer locks (shared_mutex): owner -1 free, >=0 writer, depth counts readers when owner == -2
    static bool rw_try(void *m, bool wr)
    {
        Mtx &x = mtx_get(m);
        if (wr) { if (x.owner != -1) return false; x.owner = S.cur; return true; }
        if (x.owner >= 0) return false;
        x.owner = -2;
        x.depth++;
        return true;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t *m)
    {
        static auto r = REAL(pthread_rwlock_rdlock);
        if (!onFiber()) return r(m);
        point(K_LOCK, m);
        while (!rw_try(m, false)) block_on(m);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t *m)
    {
        static auto r = REAL(pthread_rwlock_wrlock);
        if (!onFiber()) return r(m);
        point(K_LOCK, m);
        while (!rw_try(m, true)) block_on(m);
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
    {
        static auto r = REAL(pthread_rwlock_tryrdlock);
        if (!onFiber()) return r(m);
        point(K_LOCK, m);
        return rw_try(m, false) ? 0 : EBUSY;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t *m)
    {
        static auto r = REAL(pthread_rwlock_trywrlock);
        if (!onFiber()) return r(m);
        point(K_LOCK, m);
        return rw_try(m, true) ? 0 : EBUSY;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t *m)
    {
        static auto r = REAL(pthread_rwlock_unlock);
        if (!onFiber()) return r(m);
        point(K_LOCK, m);
        Mtx &x = mtx_get(m);
        if (x.owner == -1) violate("lock-misuse", "unlock of a lock that nobody holds");
        if (x.owner >= 0 && x.owner != S.cur) violate("lock-misuse", "unlock of a lock that another thread holds for writing");
        if (x.owner >= 0) x.owner = -1;
        else if (x.owner == -2 && --x.depth == 0) x.owner = -1;
        wake_all(m);
        return 0;
    }
    // For locks in persistent memory, which are all reader/writer locks here: by what time, on the wall clock.
    int sim_rw_timedlock(void *m, const struct timespec *ts)
    {
        u64 until = due(ts, CLOCK_REALTIME);
        point(K_LOCK, m);
        while (!rw_try(m, true))
            if (!block_until(m, until) && S.now >= until) return ETIMEDOUT;
        return 0;
    }
    int sim_rw_cond_wait(void *c, void *m, const struct timespec *ts)
    {
        u64 until = ts ? due(ts, CLOCK_REALTIME) : 0;
        bool signalled = true;
        pthread_rwlock_unlock((pthread_rwlock_t *)m); // what follows cannot be preempted
        if (!ts) block_on(c);
        else signalled = block_until(c, until);
        pthread_rwlock_wrlock((pthread_rwlock_t *)m);
        return signalled ? 0 : ETIMEDOUT;
    }
    void sim_cond_notify(void *c, int all)
    {
        point(K_LOCK, c);
        if (all) wake_all(c);
        else wake_some(c);
    }

    int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
    {
        static auto r = REAL(pthread_create);
        if (!onFiber()) return r(t, a, fn, arg);
        settle();
        if (!S.marked) { S.marked = true; S.mark = S.gstep; }
        if (S.nf >= MAXF) return EAGAIN;
        int id = spawn(fn, arg, true);
        *t = (pthread_t)(id + 1);
        point(K_SYS, nullptr);
        return 0;
    }
    int pthread_join(pthread_t t, void **ret)
    {
        static auto r = REAL(pthread_join);
        if (!onFiber()) return r(t, ret);
        settle();
        point(K_SYS, nullptr);
        int id = (int)t - 1;
        if (id < 0 || id >= S.nf) return ESRCH;
        while (S.f[id].st != FS_DONE) block_on(&S.f[id]);
        if (ret) *ret = S.f[id].ret;
        return 0;
    }
    int pthread_detach(pthread_t t)
    {
        static auto r = REAL(pthread_detach);
        if (!onFiber()) return r(t);
        return 0;
    }
    pthread_t pthread_self()
    {
        static auto r = REAL(pthread_self);
        if (!onFiber()) return r();
        return (pthread_t)(S.cur + 1);
    }
    int sched_yield()
    {
        if (!onFiber()) return (int)syscall(SYS_sched_yield);
        settle();
        point(K_YIELD, nullptr);
        return 0;
    }
    int usleep(useconds_t us)
    {
        if (!onFiber()) { struct timespec ts = {us / 1000000, (us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
        settle();
        sleep_ns((u64)us * 1000);
        return 0;
    }
    int nanosleep(const struct timespec *ts, struct timespec *rem)
    {
        if (!onFiber()) return (int)syscall(SYS_nanosleep, ts, rem);
        settle();
        sleep_ns((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
        return 0;
    }
    int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem)
    {
        if (!onFiber()) return (int)syscall(SYS_clock_nanosleep, c, fl, ts, rem);
        settle();
        u64 ns = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        if (fl & 1) { ns = due(ts, c); ns = ns > S.now ? ns - S.now : 0; }
        sleep_ns(ns);
        return 0;
    }
    int clock_gettime(clockid_t c, struct timespec *ts) noexcept
    {
        if (!onFiber()) return (int)syscall(SYS_clock_gettime, c, ts);
        u64 t = S.now + (is_wall(c) ? wall() : 0);
        ts->tv_sec = t / 1000000000ull;
        ts->tv_nsec = t % 1000000000ull;
        return 0;
    }
    int gettimeofday(struct timeval *tv, void *) noexcept
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return 0;
    }
    int timespec_get(struct timespec *ts, int base) noexcept
    {
        if (base != TIME_UTC) return 0;
        clock_gettime(CLOCK_REALTIME, ts);
        return base;
    }
    time_t time(time_t *t) noexcept
    {
        time_t r;
        if (!onFiber()) { struct timespec ts; syscall(SYS_clock_gettime, 0, &ts); r = ts.tv_sec; }
        else r = (S.now + wall()) / 1000000000ull;
        if (t) *t = r;
        return r;
    }
    int rand(void) noexcept
    {
        static auto r = REAL(rand);
        if (!onFiber()) return r();
        u64 v = coin(0x4a4d) & 0x7fffffff;
        return (int)(S.randMod ? v % (u64)S.randMod : v);
    }
    // the number of processors is part of the environment, too
    static unsigned cpus() { return 1u << (mix2(S.cfg->envSeed, 0x637075) & 3); }
    unsigned _ZNSt6thread20hardware_concurrencyEv()
    {
        static auto r = (unsigned (*)())dlsym(RTLD_NEXT, "_ZNSt6thread20hardware_concurrencyEv");
        return onFiber() ? cpus() : r ? r() : 1;
    }
    int get_nprocs()
    {
        static auto r = REAL(get_nprocs);
        return onFiber() ? (int)cpus() : r();
    }
    long sysconf(int name)
    {
        static auto r = REAL(sysconf);
        return onFiber() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) ? (long)cpus() : r(name);
    }
    // function-local statics
    int __cxa_guard_acquire(long long *g)
    {
        if (*(volatile char *)g) return 0;
        if (!onFiber()) { return 1; }
        settle();
        while (((volatile char *)g)[1]) block_on(g);
        if (*(volatile char *)g) return 0;
        ((char *)g)[1] = 1;
        return 1;
    }
    void __cxa_guard_release(long long *g)
    {
        ((char *)g)[1] = 0;
        ((char *)g)[0] = 1;
        if (onFiber()) wake_all(g);
    }
    void __cxa_guard_abort(long long *g)
    {
        ((char *)g)[1] = 0;
        if (onFiber()) wake_all(g);
    }
    int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) noexcept
    {
        static auto r = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
        if (!onFiber()) return r(fn, obj, dso);
        Host h;
        S.f[S.cur].atexit.push_back({fn, obj});
        return 0;
    }
    int __cxa_atexit(void (*fn)(void *), void *arg, void *dso) noexcept
    {
        if (onFiber()) return 0; // the simulated process does not outlive its run
        static auto r = (int (*)(void (*)(void *), void *, void *))dlsym(RTLD_NEXT, "__cxa_atexit");
        return r(fn, arg, dso);
    }
    // ---- helpers of the libpmemobj stand-in ----
    int sim_self() { return S.cur; }
    void sim_fail(const char *kind, const char *m) { violate(kind, "%s", m); }
    uint64_t sim_choice(uint64_t tag) { return coin(tag); }
    int sim_pfail() { int e; return inject(F_PMALLOC, e) ? e : 0; }
    int sim_lockfail() { int e; return inject(F_PLOCK, e) ? e : 0; }
    void sim_lock_forget(const void *a)
    {
        for (size_t i = 0; i < mtx.size(); i++) if (mtx[i].a == a) { mtx[i] = {(void *)a, -1, 0}; break; }
    }
    void sim_track() { trackPlaces = true; }
    // linked: a word still refers to the object, or it was freed already.  Returns whether the background copy
    // (or a repeated insertion) of the object is behind that; otherwise it is an error of its own.
    int sim_freed(uint64_t off, int linked)
    {
        Host h;
        Placed &p = placedOffs[off];
        p.freed = true;
        bool copied = p.bg || p.n > 1;
        if (linked && copied) S.taint = true;
        return copied;
    }
    void sim_flush_bulk(const void *p, size_t n)
    {
        settle();
        for (size_t i = 0; i < n; i += 64) pm_flush((const char *)p + i);
    }
    void sim_stored(const void *p, size_t n)
    {
        settle();
        pm_store(p, n);
    }
    // ---- process end ----
    void __assert_fail(const char *e, const char *file, unsigned line, const char *) noexcept
    {
        if (!onFiber()) { fprintf(stderr, "psim: host assertion %s %s:%u\n", e, file, line); _exit(2); }
        const char *b = strrchr(file, '/');
        (void)line;
        violate("assert", "assertion failed: %s (%s)", e, b ? b + 1 : file);
    }
    void abort(void) noexcept
    {
        if (!onFiber()) { static const char m[] = "psim: host abort\n"; if (write(2, m, sizeof m - 1)) {} _exit(2); }
        violate("abort", "abort() called (uncaught exception or failed check)");
    }
    void exit(int c) noexcept
    {
        if (!onFiber())
        {
            static auto r = REAL(exit);
            r(c);
            __builtin_unreachable();
        }
        violate("exit", "exit(%d) called", c);
    }
}
