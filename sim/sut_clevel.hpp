// Instrumented systems under test: the level-hash container over the simulated libpmemobj.
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cstring>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <map>
#include "define.hpp"
#include "containers/levelMap.hpp"
#include "api.hpp"

TestOptions::TestOptions() {}

namespace
{
TestOptions mkopt()
{
    TestOptions o;
    o.numthreads = 6;
    o.numops = 40;
    o.numruns = 1;
    o.capacity = 3;
    o.filename = "/mnt/pmem/pm1/persist.bin";
    o.recover = false;
    o.wipeFile = false;
    return o;
}
// The adapter with a smaller first table, so that whole expansions fit in one run.
template <size_t HP> struct Small : Container
{
    using map_type = pmem::obj::experimental::clevel_hash<pmem::obj::p<KeyT>, pmem::obj::p<ValT>, std::hash<pmem::obj::p<KeyT>>, std::equal_to<pmem::obj::p<KeyT>>, HP>;
    struct root { pmem::obj::persistent_ptr<map_type> cons; };
    pmem::obj::pool<root> pop;
    Small()
    {
        pop = pmem::obj::pool<root>::create("/mnt/pmem/pm1/persist.bin", "small", PMEMOBJ_MIN_POOL, S_IWUSR | S_IRUSR);
        auto r = pop.root();
        pmem::obj::transaction::manual tx(pop);
        r->cons = pmem::obj::make_persistent<map_type>();
        r->cons->set_thread_num(8);
        pmem::obj::transaction::commit();
    }
    bool insert(ValT v) { return !pop.root()->cons->insert(typename map_type::value_type(v, v), localThreadNum + 1, v).found; }
    bool erase(KeyT k) { return pop.root()->cons->erase(typename map_type::key_type(k), localThreadNum + 1).found; }
    bool contains(KeyT k) { return pop.root()->cons->search(typename map_type::key_type(k)).found; }
    ValT get(KeyT k) { return contains(k) ? k : 0; }
    ValT increment(KeyT k) { return insert(k); }
    size_t count() { return pop.root()->cons->capacity(); }
    bool isConsistent() { return true; }
};
uint64_t op(void *h, int, int code, uint64_t k, uint64_t, uint64_t, uint64_t *)
{
    Container &c = *(Container *)h;
    switch (code)
    {
    case OP_A_INSERT: return c.insert(k);
    case OP_A_ERASE: return c.erase(k);
    case OP_A_CONTAINS: return c.contains(k);
    case OP_A_GET: return c.get(k);
    case OP_A_INC: return c.increment(k);
    case OP_SIZE: return c.count();
    case OP_EMPTY: return c.count() == 0;
    }
    return RESERVED;
}
void thread_begin(int n) { localThreadNum = (size_t)n; }
} // namespace
