// Interface between the simulator and an instrumented system under test (one shared object).
#pragma once
#include <cstddef>
#include <cstdint>

enum OpCode
{
    // map operations (keys and values have their low three bits clear)
    OP_GET, OP_CONTAINS, OP_PUT, OP_PIA, OP_REPLACE, OP_REMOVE, OP_REMOVE_EQ, OP_INC,
    // container adapter operations
    OP_A_INSERT, OP_A_ERASE, OP_A_CONTAINS, OP_A_GET, OP_A_INC,
    // persistent words
    OP_W_CAS, OP_W_READ,
    // quiescent observers
    OP_SIZE, OP_EMPTY,
    // a line of an input file
    OP_EDGE,
    // the persistent concurrent hash map itself: insert and assign report whether the key is new
    OP_H_INSERT, OP_H_ASSIGN, OP_H_SCAN, OP_H_REHASH, OP_H_CLEAR,
    // persistent containers: a seeded step (k: domain, a: seed, b: mode and kinds), and a count of lost objects
    OP_X_DO, OP_X_LEAKS,
    // locks in persistent memory: a change and a look under one of many kinds of locking (a: which, and a seed)
    OP_L_ADD, OP_L_READ,
    // data persisted by hand, per-thread storage, volatile objects (a: what, and a seed; b: nobody else is there)
    OP_K_SAVE, OP_K_READ, OP_K_ADD, OP_K_USE,
    // the persistent concurrent hash map as a whole (a: what, and a seed), and its defragmentation (a, b: percent)
    OP_H_WHOLE, OP_H_DEFRAG,
    OP_N
};
extern const char *opName[OP_N];

static const uint64_t ABSENT = ~0ull;      // canonical "no value" (never a legal value: low bits set)
static const uint64_t RESERVED = ~0ull - 1; // a sentinel leaked to the caller
static const uint64_t REFUSED = ~0ull - 2;  // did nothing: a lock or a condition was not to be had

struct SutApi
{
    int variants;
    const char *(*variant_name)(int v);
    // All of these run on simulated threads and may throw.
    void *(*create)(int variant, size_t capLog2, int recover);
    // Result: values are returned as such or ABSENT; booleans as 0/1.
    // W_CAS: bit 63 of *aux tells success, result is the value reported back in the expected argument.
    uint64_t (*op)(void *h, int variant, int code, uint64_t k, uint64_t a, uint64_t b, uint64_t *aux);
    void (*thread_begin)(int threadNum);
    // Whole program: which workload (0: none), whether its container survives a restart, and its main().
    int workload;
    int persistent;
    int (*prog)(int argc, char **argv);
    int counts;   // increment counts (otherwise it only records that the key exists)
    int sized;    // count() is the number of elements
    int keeps;    // opens what is there even if it is not told to recover
};
enum { WL_NONE, WL_ALTERNATING, WL_DEGREE, WL_RANDOM, WL_YCSB, WL_REDDIT };
// Provided by the simulator to programs whose container calls are recorded.
enum { NOTE_OPEN, NOTE_READY, NOTE_CLOSE };
extern "C"
{
    int sim_rec_begin(int code, uint64_t key, uint64_t threadNum, uint64_t replaces);
    void sim_rec_end(int i, uint64_t res);
    void sim_rec_note(int what, uint64_t v);
    int sim_rec_probe(uint64_t i, uint64_t *key);
}
extern "C" const SutApi *sut_api();
