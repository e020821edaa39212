// Instrumented system under test: the persistent hash map and the ucf and stl adapters.
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cstring>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <map>
#include "define.hpp"
#include "containers/ucfMap.hpp"
#include "containers/stlMap.hpp"
#include "hash.hpp"
#include "api.hpp"

TestOptions::TestOptions() {}

namespace
{
const char *TDIR = "/mnt/pmem/pm1/tables/";
struct ShiftHash { size_t operator()(size_t k) const { return k >> 3; } };
struct OneHash { size_t operator()(size_t) const { return 5; } };
struct HighHash { size_t operator()(size_t k) const { return (k >> 3) * 0x9E3779B97F4A7C15ull >> 20; } };

template <class H> struct M
{
    typedef ConcurrentHashMap<KeyT, ValT, H> Map;
    static void *create(size_t cap, int rec) { return new Map(TDIR, cap, rec != 0); }
    static uint64_t val(ValT v)
    {
        if (!Map::isValueReserved(v)) return v;
        if (v == (ValT)((((size_t)1 << 62) - 1) << 3)) return ABSENT;
        return RESERVED;
    }
    static uint64_t op(void *h, int code, uint64_t k, uint64_t a, uint64_t b)
    {
        Map &m = *(Map *)h;
        switch (code)
        {
        case OP_GET: return val(m.get(k));
        case OP_CONTAINS: return m.containsKey(k);
        case OP_PUT: return val(m.put(k, a));
        case OP_PIA: return val(m.putIfAbsent(k, a));
        case OP_REPLACE: return m.replace(k, a, b);
        case OP_REMOVE: return m.remove(k);
        case OP_REMOVE_EQ: return m.remove(k, a);
        case OP_INC: return val(m.update(k, a ? (ValT)a : ((((size_t)1 << 61) - 3) << 3), Map::Table::increment));
        case OP_SIZE: return m.size();
        case OP_EMPTY: return m.isEmpty();
        }
        return RESERVED;
    }
};

uint64_t aop(Container &c, int code, uint64_t k)
{
    switch (code)
    {
    case OP_A_INSERT: return c.insert(k);
    case OP_A_ERASE: return c.erase(k);
    case OP_A_CONTAINS: return c.contains(k);
    case OP_A_GET: return c.get(k);
    case OP_A_INC: return c.increment(k);
    case OP_SIZE: return c.count();
    case OP_EMPTY: return c.count() == 0;
    }
    return RESERVED;
}

struct Words { std::atomic<size_t> *w; };
const size_t NWORDS = 32;

void *words_create(int rec)
{
    int fd = open("/mnt/pmem/pm1/words.dat", rec ? O_RDWR : O_RDWR | O_CREAT, 0600);
    if (fd == -1) throw std::runtime_error("words file");
    if (!rec && ftruncate(fd, NWORDS * 8)) throw std::runtime_error("words size");
    Words *w = new Words();
    w->w = (std::atomic<size_t> *)mmap(nullptr, NWORDS * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (!rec)
    {
        for (size_t i = 0; i < NWORDS; i++) w->w[i].store(0 | DirtyFlag);
        PERSIST(w->w, NWORDS * 8);
    }
    fsync(fd);
    close(fd);
    return w;
}
uint64_t words_op(void *h, int code, uint64_t k, uint64_t a, uint64_t b, uint64_t *aux)
{
    Words &w = *(Words *)h;
    switch (code)
    {
    case OP_W_CAS:
    {
        size_t exp = a;
        bool ok = pcas<size_t>(&w.w[k], exp, (size_t)b);
        *aux = ok ? 1 : 0;
        return exp;
    }
    case OP_W_READ: return pcas_read<size_t>(&w.w[k]);
    }
    return RESERVED;
}

TestOptions mkopt(size_t capLog2)
{
    TestOptions o;
    o.numthreads = 4;
    o.numops = 40;
    o.numruns = 1;
    o.capacity = capLog2;
    o.filename = "/mnt/pmem/pm1/persist.bin";
    o.recover = false;
    o.wipeFile = false;
    return o;
}

const char *names[] = {"map-stdhash", "map-shifthash", "map-onehash", "map-mixhash", "map-xxhash", "ucf-adapter", "stl-adapter", "words"};
const char *variant_name(int v) { return names[v]; }

void *create(int v, size_t capLog2, int rec)
{
    size_t cap = (size_t)1 << capLog2;
    switch (v)
    {
    case 0: return M<std::hash<size_t>>::create(cap, rec);
    case 1: return M<ShiftHash>::create(cap, rec);
    case 2: return M<OneHash>::create(cap, rec);
    case 3: return M<HighHash>::create(cap, rec);
    case 4: return M<xxhash<size_t>>::create(cap, rec);
    case 5: { TestOptions o = mkopt(capLog2); return new ucf::container_type(o, rec != 0); }
    case 6: { TestOptions o = mkopt(capLog2); return new stl::container_type(o, rec != 0); }
    case 7: return words_create(rec);
    }
    return nullptr;
}
uint64_t op(void *h, int v, int code, uint64_t k, uint64_t a, uint64_t b, uint64_t *aux)
{
    switch (v)
    {
    case 0: return M<std::hash<size_t>>::op(h, code, k, a, b);
    case 1: return M<ShiftHash>::op(h, code, k, a, b);
    case 2: return M<OneHash>::op(h, code, k, a, b);
    case 3: return M<HighHash>::op(h, code, k, a, b);
    case 4: return M<xxhash<size_t>>::op(h, code, k, a, b);
    case 5: return aop(*(ucf::container_type *)h, code, k);
    case 6: return aop(*(stl::container_type *)h, code, k);
    case 7: return words_op(h, code, k, a, b, aux);
    }
    return RESERVED;
}
void thread_begin(int n) { localThreadNum = (size_t)n; }
const SutApi api = {8, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
extern "C" void *sut_touch_tls() { return &localThreadNum; }
