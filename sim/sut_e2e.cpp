// Whole program: the repository's runTest.cpp with its real main, workload and container.
// The container is wrapped so that every call and result is recorded; nothing else is replaced.
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "define.hpp"
#include "api.hpp"
#if defined(E2E_ucf)
#include "containers/ucfMap.hpp"
namespace e2e { typedef ucf::container_type Base; const int persistent = 1; }
#elif defined(E2E_stl)
#include "containers/stlMap.hpp"
namespace e2e { typedef stl::container_type Base; const int persistent = 0; }
#elif defined(E2E_pm)
#include "containers/pmemMap.hpp"
namespace e2e { typedef pm::container_type Base; const int persistent = 1; }
#define E2E_MARKS
#define E2E_KEEPS 1
#elif defined(E2E_clevel)
#include "containers/ucfMap.hpp"
#include "containers/levelMap.hpp"
namespace e2e { typedef clevel::container_type Base; const int persistent = 1; }
#define E2E_MARKS
#define E2E_KEEPS 1
#endif

#ifndef E2E_KEEPS
#define E2E_KEEPS 0
#endif
namespace e2e
{
// What the containers promise differs: only PMap and STL count, only PMap's insert replaces the value that is there.
#ifdef E2E_MARKS
const int incCode = OP_A_INSERT;
#else
const int incCode = OP_A_INC;
#endif
#ifdef E2E_ucf
const uint64_t replaces = 1;
#else
const uint64_t replaces = 0;
#endif
struct Recorded : Base
{
    Recorded(const TestOptions &o, bool rec = false) : Base((sim_rec_note(NOTE_OPEN, persistent && (rec || E2E_KEEPS)), o), rec) { sim_rec_note(NOTE_READY, 0); }
    ~Recorded()
    {
        uint64_t k;
        for (uint64_t i = 0; sim_rec_probe(i, &k); i++)
        {
            contains(k);
            get(k);
        }
        count();
        sim_rec_note(NOTE_CLOSE, 0);
    }
    template <class F> auto rec(int code, uint64_t k, F f)
    {
        int i = sim_rec_begin(code, k, localThreadNum, code == OP_A_INSERT ? replaces : 0);
        auto r = f();
        sim_rec_end(i, (uint64_t)r);
        return r;
    }
    bool insert(ValT e) { return rec(OP_A_INSERT, e, [&] { return Base::insert(e); }); }
    bool erase(ValT e) { return rec(OP_A_ERASE, e, [&] { return Base::erase(e); }); }
    bool contains(KeyT e) { return rec(OP_A_CONTAINS, e, [&] { return Base::contains(e); }); }
    ValT get(KeyT e) { return rec(OP_A_GET, e, [&] { return Base::get(e); }); }
    ValT increment(KeyT e) { return rec(incCode, e, [&] { return Base::increment(e); }); }
    size_t count() { return rec(OP_SIZE, 0, [&] { return Base::count(); }); }
};
}
using container_type = e2e::Recorded;
#define main pmap_main
#include "runTest.cpp"
#undef main

namespace
{
#if defined(alternatingTestDef)
const int wl = WL_ALTERNATING;
#elif defined(degreeTestDef)
const int wl = WL_DEGREE;
#elif defined(YCSBTestDef)
const int wl = WL_YCSB;
#elif defined(redditTestDef)
const int wl = WL_REDDIT;
#else
const int wl = WL_RANDOM;
#endif
const char *variant_name(int) { return E2E_NAME; }
void *create(int, size_t capLog2, int rec)
{
    TestOptions o;
    o.capacity = capLog2;
    o.recover = rec;
    return new e2e::Base(o, rec != 0);
}
uint64_t op(void *h, int, int code, uint64_t k, uint64_t, uint64_t, uint64_t *)
{
    e2e::Base &c = *(e2e::Base *)h;
    switch (code)
    {
    case OP_A_INSERT: return c.insert(k);
    case OP_A_ERASE: return c.erase(k);
    case OP_A_CONTAINS: return c.contains(k);
    case OP_A_GET: return c.get(k);
    case OP_A_INC: return c.increment(k);
    case OP_SIZE: return c.count();
    case OP_EMPTY: return c.count() == 0;
    }
    return RESERVED;
}
void thread_begin(int n) { localThreadNum = (size_t)n; }
const SutApi api = {1, variant_name, create, op, thread_begin, wl, e2e::persistent, pmap_main, e2e::incCode == OP_A_INC,
#ifdef E2E_clevel
                    0
#else
                    1
#endif
                    , E2E_KEEPS
};
}
extern "C" const SutApi *sut_api() { return &api; }
extern "C" void *sut_touch_tls() { return &localThreadNum; }
