// Instrumented system under test: the persistent concurrent hash map's own interface (accessors, assignment, iteration),
// with plain and with string elements, over the simulated libpmemobj.
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstring>
#include <exception>
#include <list>
#include <string>
#include <thread>
#include <vector>
#include <mutex>
#include <map>
#include <sched.h>
#include <sys/stat.h>
#include <unistd.h>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/container/concurrent_hash_map.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/vector.hpp>
#include "api.hpp"
#include "boxes.hpp"

extern "C"
{
    [[noreturn]] void sim_fail(const char *kind, const char *msg);
    uint64_t sim_unreachable();
    int sim_self();
}
namespace
{
typedef uint64_t u64;
using pmem::obj::p;
namespace po = pmem::obj;

// Who holds which element, as the callers see it.  Not instrumented: no scheduling points.
#define QUIET __attribute__((no_sanitize("thread"), noinline))
struct Held { u64 key, since; int fiber; bool w; };
Held held[256];
u64 stamps;
QUIET u64 now() { return ++stamps; }
QUIET void enter(u64 k, bool w)
{
    int at = -1;
    for (int i = 0; i < 256; i++)
    {
        if (!held[i].since) { if (at < 0) at = i; continue; }
        if (held[i].key == k && (w || held[i].w)) sim_fail("element-lock", "two threads hold an element, one of them for writing");
    }
    held[at] = {k, ++stamps, sim_self(), w};
}
QUIET void leave(u64 k)
{
    int me = sim_self();
    for (auto &h : held) if (h.since && h.key == k && h.fiber == me) { h.since = 0; return; }
}
QUIET void erased(u64 k, u64 inv)
{
    for (auto &h : held) if (h.since && h.key == k && h.since < inv) sim_fail("element-lock", "an element was erased while a thread held it");
}
struct Hold
{
    u64 k;
    Hold(u64 k, bool w) : k(k) { enter(k, w); }
    ~Hold() { leave(k); }
};

struct Pair
{
    p<u64> a, b;
    Pair(u64 v = 0) : a(v), b(~v) {}
    Pair &operator=(u64 v) { a = v; b = ~v; return *this; }
    u64 get() const { return a == ~b ? u64(a) : RESERVED; }
    bool operator==(const Pair &x) const { return a == x.a && b == x.b; }
};
struct Spread { size_t operator()(const p<u64> &k) const { return (size_t)k; } };
struct Clash { size_t operator()(const p<u64> &k) const { return (size_t)k % 3 + ((size_t)k % 2 << 20); } };

std::string text(u64 v, size_t n)
{
    std::string s = std::to_string(v);
    while (s.size() < n) s += "." + s;
    return s;
}
template <class S> u64 number(const S &s, size_t n)
{
    u64 v = 0;
    const char *c = s.c_str();
    size_t len = s.size();
    for (size_t i = 0; i < len && c[i] >= '0' && c[i] <= '9'; i++) v = v * 10 + (c[i] - '0');
    std::string t = text(v, n);
    return t.size() == len && !memcmp(t.data(), c, len) ? v : RESERVED;
}
size_t klen(u64 k) { return k % 3 == 0 ? 1 : k % 3 == 1 ? 20 : 40; }
size_t vlen(u64 v) { return (v >> 3) % 3 == 0 ? 1 : (v >> 3) % 3 == 1 ? 22 : 70; }
struct StrEq
{
    template <class A, class B> bool operator()(const A &a, const B &b) const { return a.size() == b.size() && !memcmp(a.c_str(), b.c_str(), a.size()); }
};
struct StrHash
{
    using transparent_key_equal = StrEq;
    template <class S> size_t operator()(const S &s) const
    {
        u64 v = 0;
        const char *c = s.c_str();
        for (size_t i = 0; i < s.size() && c[i] >= '0' && c[i] <= '9'; i++) v = v * 10 + (c[i] - '0');
        return v;
    }
};
struct Text
{
    po::string s;
    Text() {}
    Text(u64 v) : s(text(v, vlen(v))) {}
    Text(const Text &) = default;
    Text &operator=(const Text &) = default;
    Text &operator=(u64 v) { s = text(v, vlen(v)); return *this; }
    bool operator==(const Text &t) const { return s == t.s; }
    void for_each_ptr(std::function<void(po::persistent_ptr_base &)> f) { s.for_each_ptr(f); }
    u64 get() const
    {
        u64 v = 0;
        const char *c = s.c_str();
        for (size_t i = 0; i < s.size() && c[i] >= '0' && c[i] <= '9'; i++) v = v * 10 + (c[i] - '0');
        return number(s, vlen(v));
    }
};
typedef po::concurrent_hash_map<p<u64>, Pair, Spread> M0;
typedef po::concurrent_hash_map<p<u64>, Pair, Clash> M1;
typedef po::concurrent_hash_map<po::string, Text, StrHash> M2;
template <class M> struct KeyOf { static p<u64> mk(u64 k) { return k; } static u64 of(const p<u64> &k) { return k; } };
template <> struct KeyOf<M2>
{
    static std::string mk(u64 k) { return text(k, klen(k)); }
    static u64 of(const po::string &s) { u64 v = 0; for (size_t i = 0; i < s.size() && s.c_str()[i] >= '0' && s.c_str()[i] <= '9'; i++) v = v * 10 + (s.c_str()[i] - '0'); return number(s, klen(v)); }
};

template <class M> using Two = po::persistent_ptr<M>[2]; // the map, and another one
struct Root
{
    Two<M0> m0;
    Two<M1> m1;
    Two<M2> m2;
};
struct Handle { po::pool<Root> pop; };
const char *FILE_NAME = "/mnt/pmem/pm1/persist.bin";

// The destructor of the repository's vector frees its memory in a transaction of its own and may not throw; when the
// snapshot it takes fails the program ends (a recorded defect, see known_findings.txt).
void ended()
{
    try { std::rethrow_exception(std::current_exception()); }
    catch (pmem::transaction_error &e)
    {
        if (strstr(e.what(), "Could not add")) sim_fail("destructor-throws", "a snapshot failed in a destructor");
    }
    catch (...) {}
    abort();
}

[[noreturn]] void fail(const char *kind, const char *m) { sim_fail(kind, m); }
// Each element once and sound, and as many as the size says.
template <class M> size_t sound(const M &m)
{
    size_t n = 0;
    std::vector<u64> keys;
    for (auto it = m.begin(); it != m.end(); it++)
    {
        n++;
        u64 k = KeyOf<M>::of(it->first);
        if (it->second.get() == RESERVED || k == RESERVED) fail("map-element", "an element was seen in an impossible state");
        keys.push_back(k);
    }
    // A search may move elements between buckets.
    if (pmemobj_tx_stage() == TX_STAGE_NONE)
        for (u64 k : keys) if (m.count(KeyOf<M>::mk(k)) != 1) fail("map-element", "an element that iteration meets is not found by its key");
    std::sort(keys.begin(), keys.end());
    for (size_t i = 1; i < keys.size(); i++) if (keys[i] == keys[i - 1]) fail("map-element", "iteration meets a key twice");
    if (n != m.size() || m.empty() != !n) fail("map-size", "the size of a map differs from the number of its elements");
    if (m.bucket_count() & (m.bucket_count() - 1) || m.max_size() < n) fail("map-size", "impossible number of buckets");
    return n;
}
template <class M> void prepare(po::pool<Root> &pop, Two<M> &t)
{
    if (t[0] == nullptr) po::transaction::run(pop, [&] { t[0] = po::make_persistent<M>(); });
    else t[0]->runtime_initialize();
    if (t[1] != nullptr) { t[1]->runtime_initialize(); sound(*t[1]); }
}
struct Stop {};
// The map is made anew, out of itself; its contents stay.
template <class M> void remake(po::pool<Root> &pop, Two<M> &t, u64 a)
{
    boxes::Dice d(a);
    constexpr bool plain = !std::is_same_v<M, M2>;
    using VT = typename M::value_type;
    auto gone = [&](po::persistent_ptr<M> &m, int how) {
        if (how) m->free_data();
        po::delete_persistent<M>(m);
        m = nullptr;
    };
    int kind = (int)d.below(10);
    bool stop = d.below(4) == 0;
    if (kind == 9)
    {
        // Several elements at once, into the other map.
        if (t[1] == nullptr) po::transaction::run(pop, [&] { t[1] = po::make_persistent<M>(); });
        M &m = *t[1];
        size_t n = m.size();
        u64 k = 1 + d.below(1000);
        bool had[3];
        for (u64 i = 0; i < 3; i++) had[i] = m.count(KeyOf<M>::mk(k + i));
        if constexpr (plain)
        {
            VT x[3] = {VT(k, 8 * k), VT(k + 1, 16), VT(k + 2, 24)};
            if (d.below(2)) m.insert(x, x + 3);
            else m.insert({x[0], x[1], x[2]});
        }
        else for (u64 i = 0; i < 3; i++) m.insert_or_assign(KeyOf<M>::mk(k + i), 8 * (k + i));
        for (u64 i = 0; i < 3; i++) { if (!m.count(KeyOf<M>::mk(k + i))) fail("map-insert", "an element of a range was not inserted"); n += !had[i]; }
        if (d.below(2)) { m.rehash(d.below(200)); }
        if (sound(m) != n) fail("map-insert", "a range was inserted otherwise than element by element");
        if (d.below(2)) n -= m.erase(KeyOf<M>::mk(k + d.below(3)));
        if (sound(m) != n) fail("map-insert", "a range was inserted otherwise than element by element");
        return;
    }
    size_t before = sound(*t[0]), other = t[1] == nullptr ? 0 : sound(*t[1]);
    auto both = [&](const M &x, const M &y) {
        std::map<u64, u64> v;
        for (auto &e : y) v[KeyOf<M>::of(e.first)] = e.second.get();
        if (sound(x) != before || x.size() != y.size()) fail("map-copy", "a copy has another size than the map it was made from");
        for (auto it = x.begin(); it != x.end(); ++it)
            if (!v.count(KeyOf<M>::of((*it).first)) || v[KeyOf<M>::of(it->first)] != it->second.get()) fail("map-copy", "a copy differs from the map it was made from");
    };
    try
    {
        po::transaction::run(pop, [&] {
            po::persistent_ptr<M> n, o = t[0];
            auto junk = [&](M &m) { if constexpr (plain) m = {VT(1, 8), VT(2, 16), VT(5, 24), VT(70, 32)}; else (void)m; };
            switch (kind)
            {
            case 0: n = po::make_persistent<M>(*o); both(*n, *o); break;
            case 1: n = po::make_persistent<M>(std::move(*o)); if (!o->empty() || o->begin() != o->end()) fail("map-copy", "a map still has elements after it was moved from"); break;
            case 2: n = po::make_persistent<M>(o->begin(), o->end()); both(*n, *o); break;
            case 3: n = po::make_persistent<M>((size_t)d.below(70)); *n = *o; both(*n, *o); break;
            case 4: n = po::make_persistent<M>(); junk(*n); if (d.below(2)) n->swap(*o); else swap(*n, *o); break;
            case 5: n = po::make_persistent<M>(*o); o->clear(); if (sound(*o)) fail("map-copy", "a cleared map has elements"); *o = *n; both(*o, *n); std::swap(n, o); break;
            case 6:
                if constexpr (plain) n = po::make_persistent<M>(std::initializer_list<VT>{VT(3, 8), VT(9, 16)});
                else n = po::make_persistent<M>();
                if (sound(*n) != (plain ? 2 : 0)) fail("map-copy", "a map does not have the elements it was made with");
                *n = *o;
                both(*n, *o);
                break;
            case 7: n = o; o = nullptr; *n = *n; break;
            case 8: // with the other one: there and back, or there and a copy back
                if (t[1] == nullptr) t[1] = po::make_persistent<M>();
                o->swap(*t[1]);
                if (d.below(2)) { n = po::make_persistent<M>(*t[1]); both(*n, *t[1]); }
                else { n = o; o = nullptr; n->swap(*t[1]); }
                break;
            }
            if (sound(*n) != before) fail("map-copy", "a map that was made anew has other elements");
            t[0] = n;
            if (o != nullptr && o != n)
            {
                if (d.below(2) && kind < 8) { if (t[1] != nullptr) gone(t[1], (int)d.below(2)); t[1] = o; }
                else gone(o, (int)d.below(2));
            }
            if (stop) throw Stop();
        });
    }
    catch (Stop &) { if (t[1] != nullptr ? sound(*t[1]) != other : other) fail("map-abort", "an aborted transaction has changed a map"); }
    if (sound(*t[0]) != before) fail("map-copy", "a map that was made anew has other elements");
    if (t[1] != nullptr) sound(*t[1]);
}
const char *variant_name(int) { return "concurrent-hash-map"; }
void *create(int variant, size_t, int rec)
{
    Handle *h = new Handle;
    try
    {
        if (rec != 2 && access(FILE_NAME, F_OK) != 0) h->pop = po::pool<Root>::create(FILE_NAME, "chm", PMEMOBJ_MIN_POOL, S_IWUSR | S_IRUSR);
        else h->pop = po::pool<Root>::open(FILE_NAME, "chm");
        auto r = h->pop.root();
        std::set_terminate(variant == 2 ? ended : abort);
        if (variant == 0) prepare<M0>(h->pop, r->m0);
        else if (variant == 1) prepare<M1>(h->pop, r->m1);
        else prepare<M2>(h->pop, r->m2);
    }
    catch (...) // resources ran out
    {
        if (h->pop.handle()) h->pop.close();
        delete h;
        try { throw; }
        catch (const pmem::pool_error &) { throw; }
        catch (const pmem::transaction_error &) { throw; }
        catch (const std::bad_alloc &) { throw; }
        catch (...) { sim_fail("exception", "opening the pool or making its first objects failed with an exception that is not documented"); }
    }
    return h;
}

// Where the contents of an element are.
template <class T> const void *behind(const T &x) { return &x; }
const void *behind(const po::string &s) { return s.c_str(); }
const void *behind(const Text &t) { return t.s.c_str(); }
template <class M> u64 look(M &m, u64 k, u64 how)
{
    const auto key = KeyOf<M>::mk(k);
    auto see = [&](auto &acc, bool w) -> u64 {
        Hold h(k, w);
        u64 x = acc->second.get();
        const void *at[2] = {behind(acc->first), behind(acc->second)};
        sched_yield();
        if (k % 2) usleep(20);
        if (at[0] != behind(acc->first) || at[1] != behind(acc->second)) sim_fail("element-moved", "the contents of an element were moved while a thread held it");
        u64 y = acc->second.get();
        if (x != y || KeyOf<M>::of(acc->first) != k) return RESERVED;
        return x;
    };
    if (how & 1)
    {
        typename M::accessor acc;
        if (!m.find(acc, key)) return ABSENT;
        return see(acc, true);
    }
    typename M::const_accessor acc;
    if (!m.find(acc, key)) return ABSENT;
    return see(acc, false);
}
template <class M> bool place(M &m, u64 k, u64 v, u64 how)
{
    using VT = typename M::value_type;
    const auto key = KeyOf<M>::mk(k);
    switch (how % 5)
    {
    case 0: { VT x(key, v); return m.insert(x); }
    case 1: return m.insert(VT(key, v));
    case 2:
    {
        typename M::accessor acc;
        bool r = m.insert(acc, VT(key, v));
        Hold h(k, true);
        if (KeyOf<M>::of(acc->first) != k || (r && acc->second.get() != v)) return RESERVED;
        return r;
    }
    case 3:
    {
        typename M::const_accessor acc;
        VT x(key, v);
        bool r = m.insert(acc, x);
        Hold h(k, false);
        u64 y = acc->second.get();
        sched_yield();
        if (KeyOf<M>::of(acc->first) != k || (r && y != v) || acc->second.get() != y) return RESERVED;
        return r;
    }
    default:
    {
        typename M::accessor acc;
        VT x(key, v);
        bool r = m.insert(acc, x);
        {
            Hold h(k, true);
            if (KeyOf<M>::of(acc->first) != k || (r && acc->second.get() != v)) return RESERVED;
        }
        acc.release();
        return r;
    }
    }
}
// The elements of the string map cannot be built outside of persistent memory.
template <> bool place<M2>(M2 &m, u64 k, u64 v, u64)
{
    sim_fail("harness", "not used");
}
// In a transaction the map refuses all that takes a lock.
template <class M> void inTransaction(po::pool<Root> &pop, M &m, u64 k, u64 seed)
{
    const auto key = KeyOf<M>::mk(k);
    constexpr bool plain = !std::is_same<M, M2>::value;
    bool ok = false;
    po::transaction::run(pop, [&] {
        try
        {
            switch (seed % 10)
            {
            case 0: m.count(key); break;
            case 1: { typename M::accessor acc; m.find(acc, key); break; }
            case 2: { typename M::const_accessor acc; m.find(acc, key); break; }
            case 3: m.erase(key); break;
            case 4: m.rehash(seed & 63); break;
            case 5: m.insert_or_assign(key, seed & 1023); break;
            default:
                if constexpr (plain)
                {
                    typedef typename M::value_type VT;
                    VT x(key, seed & 1023);
                    switch (seed % 4)
                    {
                    case 0: m.insert(x); break;
                    case 1: m.insert(VT(key, seed & 1023)); break;
                    case 2: m.insert({x}); break;
                    case 3: m.insert(&x, &x + 1); break;
                    }
                }
                else m.erase(key);
            }
        }
        catch (pmem::transaction_scope_error &) { ok = true; }
    });
    if (!ok) fail("misuse", "the map is used in a transaction without an exception");
}
template <class M> u64 doOp(po::pool<Root> &pop, Two<M> &both, int code, u64 k, u64 a, u64 b)
{
    M &m = *both[0];
    const auto key = KeyOf<M>::mk(k);
    switch (code)
    {
    case OP_GET: return look(m, k, b);
    case OP_CONTAINS: return m.count(key);
    case OP_H_INSERT: return place(m, k, a, b);
    case OP_H_ASSIGN: { M &c = m; return c.insert_or_assign(key, a); }
    case OP_REMOVE: { u64 inv = now(); bool r = m.erase(key); if (r) erased(k, inv); return r; }
    case OP_REPLACE:
    {
        typename M::accessor acc;
        if (!m.find(acc, key)) return false;
        Hold h(k, true);
        if (acc->second.get() != a) return false;
        sched_yield();
        po::transaction::run(pop, [&] { acc->second = b; });
        if (acc->second.get() != b) return RESERVED;
        return true;
    }
    case OP_INC:
    {
        typename M::accessor acc;
        if constexpr (std::is_same_v<M, M2>)
        {
            if (!m.find(acc, key)) return m.insert_or_assign(key, (u64)8) ? ABSENT : RESERVED;
        }
        else if (m.insert(acc, typename M::value_type(key, (u64)8))) return ABSENT;
        Hold h(k, true);
        u64 x = acc->second.get();
        sched_yield();
        if (x == RESERVED) return x;
        po::transaction::run(pop, [&] { acc->second = x + 8; });
        return x;
    }
    case OP_H_SCAN:
    {
        u64 r = ABSENT;
        size_t n = 0;
        for (auto it = m.begin(); it != m.end(); ++it)
        {
            n++;
            u64 v = it->second.get();
            if (v == RESERVED || KeyOf<M>::of(it->first) == RESERVED) return RESERVED;
            if (KeyOf<M>::of(it->first) != k) continue;
            if (r != ABSENT) return RESERVED;
            r = v;
        }
        return n == m.size() ? r : RESERVED;
    }
    case OP_H_WHOLE: remake<M>(pop, both, a); return 0;
    case OP_H_DEFRAG:
    {
        auto r = m.defragment((double)a, std::min((double)b, 100. - (double)a));
        if (r.relocated > r.total) fail("map-defrag", "more objects were moved than there are");
        return 0;
    }
    case OP_X_LEAKS:
        if (a) inTransaction(pop, m, k, a);
        if (u64 n = sim_unreachable()) { static char text[100]; snprintf(text, sizeof text, "%llu persistent objects are allocated but nothing refers to them", (unsigned long long)n); fail("unreachable", text); }
        return 0;
    case OP_H_REHASH: m.rehash(a); return 0;
    case OP_H_CLEAR: m.clear(); return 0;
    case OP_SIZE: return m.size();
    case OP_EMPTY: return m.empty();
    }
    return RESERVED;
}
u64 op(void *h, int variant, int code, u64 k, u64 a, u64 b, u64 *)
{
    Handle &x = *(Handle *)h;
    auto r = x.pop.root();
    if (variant == 0) return doOp<M0>(x.pop, r->m0, code, k, a, b);
    if (variant == 1) return doOp<M1>(x.pop, r->m1, code, k, a, b);
    return doOp<M2>(x.pop, r->m2, code, k, a, b);
}
void thread_begin(int) {}
const SutApi api = {3, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
static thread_local size_t tlsAnchor;
extern "C" void *sut_touch_tls() { return &tlsAnchor; }
