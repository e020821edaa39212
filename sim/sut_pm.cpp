// Instrumented system under test: the PMDK-backed container over the simulated libpmemobj.
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cstring>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <map>
#include "define.hpp"
#include "containers/pmemMap.hpp"
#include "api.hpp"

TestOptions::TestOptions() {}
extern "C" uint64_t sim_unreachable();
extern "C" [[noreturn]] void sim_fail(const char *kind, const char *msg);

namespace
{
const char *variant_name(int) { return "pm-adapter"; }
void *create(int, size_t capLog2, int rec)
{
    TestOptions o;
    o.numthreads = 4;
    o.numops = 40;
    o.numruns = 1;
    o.capacity = capLog2;
    o.filename = "/mnt/pmem/pm1/persist.bin";
    o.recover = false;
    o.wipeFile = false;
    return new pm::container_type(o, rec == 2);
}
uint64_t op(void *h, int, int code, uint64_t k, uint64_t, uint64_t, uint64_t *)
{
    pm::container_type &c = *(pm::container_type *)h;
    switch (code)
    {
    case OP_A_INSERT: return c.insert(k);
    case OP_A_ERASE: return c.erase(k);
    case OP_A_CONTAINS: return c.contains(k);
    case OP_A_GET: return c.get(k);
    case OP_A_INC: return c.increment(k);
    case OP_X_LEAKS:
        if (uint64_t n = sim_unreachable()) { static char text[100]; snprintf(text, sizeof text, "%llu persistent objects are allocated but nothing refers to them", (unsigned long long)n); sim_fail("unreachable", text); }
        return 0;
    case OP_SIZE: return c.count();
    case OP_EMPTY: return c.count() == 0;
    }
    return RESERVED;
}
void thread_begin(int n) { localThreadNum = (size_t)n; }
const SutApi api = {1, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
extern "C" void *sut_touch_tls() { return &localThreadNum; }
