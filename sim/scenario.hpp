#pragma once
#include "api.hpp"
#include "core.hpp"

struct Op { int code; uint64_t k, a, b; };

enum Check { CK_LIN = 1, CK_SIZE = 2, CK_WORDS = 4 };

// When resources may fail: while the threads work; while the object is created or recovered; and whether
// a failed creation is repeated by the same process.
enum { FA_WORK = 1, FA_OPEN = 2, FA_RETRY = 4 };
struct Era
{
    int recover = 0;               // create(recover)
    std::vector<Op> head;          // on the main thread, before the workers
    std::vector<std::vector<Op>> thr;
    std::vector<Op> tail;          // on the main thread, at rest (size checked when present)
    sim::EraCfg cfg;
    uint64_t crashSeed = 1;
    int endMode = sim::CR_KILL;    // what happens to memory when the era ends without a crash point
    int faultsInWorkers = 0; // FA_*
    int noCrashInCreate = 0;
    // whole program: arguments (threads 0: no program); thr then holds the lines of the input files
    int progT = 0, progN = 0, progC = 3, progRec = 0, progRuns = 1, randMod = 0;
};
struct Scenario
{
    std::string prop;
    uint64_t seed = 0;
    int variant = 0;
    int cap = 3;
    int metaLazy = 0;
    uint64_t chunk = 1024;         // slots migrated at a time
    int fdLimit = 0;
    int stray = 0;                 // kinds of foreign files planted in the table directory
    std::vector<Era> eras;
};

enum { ST_PENDING = 0, ST_OK = 1, ST_THREW = 2 };
struct HOp
{
    Op op;
    uint64_t inv = 0, ret = 0, res = 0, aux = 0;
    int status = ST_PENDING;
    int fiber = 0, era = 0;
    bool quiet = false;            // executed at rest
};

struct RunResult
{
    bool violated = false;
    std::string kind, detail;
    uint64_t hash = 0;
    uint64_t steps = 0, switches = 0;
    std::vector<sim::Violation> v;
    bool crashed = false, grew = false, faulted = false;
    uint64_t opsDone = 0;
};

std::string scenario_text(const Scenario &s);
bool scenario_parse(const std::string &t, Scenario &s);
Scenario generate(const std::string &prop, uint64_t seed);

// linearizability
struct LinResult { bool ok; std::string why; };
LinResult check_history(const std::vector<HOp> &h, const std::vector<uint64_t> &crashStamp);
LinResult check_words(const std::vector<HOp> &h, const std::vector<uint64_t> &crashStamp);
LinResult check_membership(const std::vector<HOp> &h);
LinResult check_boxes(const std::vector<HOp> &h);
std::string op_text(const HOp &h);
