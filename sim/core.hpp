// Deterministic simulator core: fibers, seeded scheduler, simulated file system and persistent memory.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{
typedef uint64_t u64;
typedef uint32_t u32;

inline u64 mix64(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix64(a * 0x9E3779B97F4A7C15ull ^ mix64(b)); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
    u64 next()
    {
        s += 0x9E3779B97F4A7C15ull;
        u64 x = s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

enum Kind
{
    K_LOAD, K_STORE, K_RMW, K_FLUSH, K_FENCE, K_SYS, K_PLAIN, K_OP, K_LOCK, K_YIELD, K_EXIT, K_N
};
extern const char *kindName[K_N];

enum Fault // fallible environment calls
{
    F_NEW, F_OPEN, F_TRUNC, F_STAT, F_MMAP, F_RENAME, F_FSYNC, F_UNLINK, F_PMALLOC, F_PLOCK, F_N
};
extern const char *faultName[F_N];

enum CrashMode { CR_NONE = 0, CR_KILL = 1, CR_POWER = 2 };

struct Switch { u32 lstep; int target; bool forced; };  // on the fiber owning the list, at its lstep-th point (forced: when it could not go on there)
struct FaultPoint { int fiber; u32 idx; int kind; int err; }; // fiber's idx-th fallible call fails
struct Point { int fiber = -1; u32 lstep = 0; };

enum { MAXF = 40 };

// How one era (one process lifetime) is driven.
struct EraCfg
{
    bool explicitSched = false;   // replay mode: only listed switches
    u64 schedSeed = 1;
    // strategy
    int strategy = 0;             // 0 random walk, 1 PCT, 2 random walk with freezes, 3 serial (no preemption)
    double p[K_N];                // preemption probability per kind
    std::vector<u64> pctChange;   // global steps for PCT priority changes
    u32 freezeMin = 20, freezeMax = 400;
    double freezeP = 0;
    bool plainPoints = false;     // plain accesses are scheduling points
    u64 tickNs = 0;               // simulated time per scheduling point (0: chosen from envSeed)
    u64 envSeed = 1;              // environment choices: directory order, spurious failures, fill bytes
    u64 adversarialCap = 150000;  // then fair round robin
    u64 hangCap = 900000;         // steps until "no progress"
    u32 maxRun = 20000;           // longest run of one fiber without a forced switch
    // crash
    int crashMode = CR_NONE;
    Point crashAt;                // explicit
    u64 crashStep = 0;            // record mode: at this global step (0: none)
    int crashKind = -1;           // record mode: at the crashNth event of this kind
    u64 crashNth = 0;
    bool crashRel = true;         // crashStep / crashNth / stallStep / pctChange count from the start of the workers
    // stall
    u64 stallStep = 0;            // record mode: stall running worker at this step
    Point stallAt;
    // faults (record mode: probability / nth; replay: list)
    double faultP[F_N];
    bool faultsInit = false;
    std::vector<FaultPoint> faults;
    // explicit switches per fiber
    std::vector<Switch> sw[MAXF];
    EraCfg()
    {
        for (auto &x : p) x = 0.05;
        for (auto &x : faultP) x = 0;
    }
};

enum EndReason { END_DONE, END_CRASH, END_VIOLATION };

struct Violation { std::string kind, detail; };

enum FStatus { FS_FREE, FS_READY, FS_BLOCKED, FS_SLEEP, FS_STALLED, FS_DONE };

struct Fiber
{
    int id = 0;
    void *sp = nullptr;
    char *stk = nullptr;
    uintptr_t lo = 0, hi = 0, minsp = 0;
    FStatus st = FS_FREE;
    void *waitOn = nullptr;
    u32 lstep = 0;
    u32 fidx = 0;
    u64 wake = 0, frozenUntil = 0;
    u64 prio = 0;
    u32 cursor = 0;
    int err = 0;
    void *eh[2];
    std::vector<char> tls;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    bool worker = false;
    bool background = false;    // started by the code under test itself and never joined
    uintptr_t plainLast = 0;    // last plain access, and how many before it were to neighbouring words
    u32 plainRun = 0;
    bool inOp = false; uint16_t serial = 0; // operations begun and ended
    bool canStall = true;
    bool announced = false;     // has written to shared memory atomically, or used a lock
    int noPreempt = 0;
    struct Dtor { void (*fn)(void *); void *obj; };
    std::vector<Dtor> atexit;
};

struct Stats
{
    u64 steps = 0, switches = 0, simTimeNs = 0;
    u64 kinds[K_N] = {0};
    u64 faults[F_N] = {0};
    u64 crashesKill = 0, crashesPower = 0, linesTorn = 0, linesLost = 0, stalls = 0, metaLost = 0, freezes = 0;
};

struct Global
{
    Fiber f[MAXF];
    int nf = 0;
    int cur = -1;               // running fiber, -1: host
    int hostMode = 0;           // >0: allocations etc. go to the real libc although a fiber runs
    void *hostSp = nullptr;
    EraCfg *cfg = nullptr;
    Rng rng;
    u64 gstep = 0, runLen = 0;
    bool marked = false;        // workers have started
    u64 mark = 0, crashSeen = 0;
    u64 now = 1000000000ull;    // simulated ns
    u64 tick = 50;              // that pass at every point of this era
    u64 hash = 0;
    u64 kindCount[K_N];
    bool fairMode = false;
    bool faultsOn = false;
    bool crashArmed = false;
    EndReason end = END_DONE;
    bool violated = false;
    Violation v;
    // recording
    std::vector<Switch> rec[MAXF];
    bool opening = false; // resources may fail while an object is created or recovered
    std::vector<FaultPoint> recFaults;
    Point recCrash, recStall;
    Stats stats;
    int era = 0;
    bool metaLazy = false;
    u64 chunk = 1024;
    bool lastEra = false;       // nothing is read back from the simulated media afterwards: durability is not tracked
    int randMod = 0;            // rand() of the code under test stays below this, if set
    int fdLimit = 0;
    std::string out;            // captured output
    bool trace = false;
    bool taint = false;         // a freed persistent object is still, or again, referred to (clevel only)
    // sequence stamps
    u64 stamp = 0;
};
extern Global S;

void init();                                   // once per process
void *load_sut(const char *path);              // dlopen and snapshot; returns handle
void run_begin();                              // wipes the simulated file system
void era_begin(EraCfg *cfg);                   // fresh process image
int spawn(void *(*fn)(void *), void *arg, bool worker);
EndReason era_run();                           // runs fiber 0 to completion, a crash or a violation
void apply_crash(int mode, u64 seed);          // decides what survives of the file system

void point(Kind k, const void *addr);
void block_on(void *obj);                      // block current fiber on obj
void wake_all(void *obj);
int wait_workers();                            // fiber 0: wait until every worker is done or stalled
[[noreturn]] void violate(const char *kind, const char *fmt, ...);
u64 coin(u64 tag);                             // environment choice, a function of envSeed and position
bool inject(Fault k, int &err);                // should this fallible call fail?
inline bool onFiber() { return S.nf > 0 && S.cur >= 0 && S.hostMode == 0; }

struct Host                                    // scope: real allocator while on a fiber
{
    Host() { S.hostMode++; }
    ~Host() { S.hostMode--; }
};

// file system / pmem
void fs_reset();
void fs_crash(int mode, u64 seed);
void fs_dirty_sync_all();
void fs_shift(u64 pages);
bool is_pm(const void *p);
bool is_arena(const void *p);
void pm_store(const void *p, size_t n);        // volatile store happened
void pm_flush(const void *p);
void pm_fence();
void pm_check(const void *p, size_t n, bool write);
void pm_seen(const void *p, u64 v);            // the current fiber read or placed v at p
void pm_cleared(const void *p, u64 old);       // a compare-and-swap removed only the dirty flag from old
extern bool staleClearLost;                    // a crash lost a store whose dirty flag had been removed by a stale helper
extern u64 staleClears;
bool fs_write_file(const std::string &path, const void *data, size_t n); // host helper
bool fs_read_file(const std::string &path, std::string &out);
std::vector<std::string> fs_list(const std::string &prefix);
int fs_open_fds();
void fs_mkdir(const std::string &p);
void fs_set_text(const std::string &path, const std::string &text); // for fopen() readers
u64 fs_state_hash();
void arena_reset(unsigned char fill);
void *arena_alloc(size_t n);
bool arena_free(void *p);
void arena_check(const void *p, size_t n, bool write);
u64 norm(const void *p);
} // namespace sim
