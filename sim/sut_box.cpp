// Instrumented system under test: the persistent containers, pointers and transactions of libpmemobj++, over the
// simulated libpmemobj.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/pext.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/defrag.hpp>
#include <libpmemobj++/allocator.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/make_persistent_array_atomic.hpp>
#include <libpmemobj++/container/array.hpp>
#include <libpmemobj++/container/vector.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include "api.hpp"
#include "boxes.hpp"

extern "C"
{
    [[noreturn]] void sim_fail(const char *kind, const char *msg);
    uint64_t sim_unreachable();
}
namespace
{
using boxes::Dice;
using boxes::add;
typedef uint64_t u64;
namespace po = pmem::obj;
using po::p;
template <class T> using Ptr = po::persistent_ptr<T>;

// An element that owns an object of its own.
struct Item
{
    Ptr<p<u64>> q;
    Item(u64 x = 5) : q(po::make_persistent<p<u64>>(x)) {}
    Item(const Item &o) : q(po::make_persistent<p<u64>>(o.get())) {}
    Item(Item &&o) : q(o.q) { o.q = nullptr; }
    Item &operator=(const Item &o)
    {
        if (this == &o) return *this;
        Ptr<p<u64>> n = po::make_persistent<p<u64>>(o.get());
        drop();
        q = n;
        return *this;
    }
    Item &operator=(Item &&o)
    {
        if (this == &o) return *this;
        drop();
        q = o.q;
        o.q = nullptr;
        return *this;
    }
    ~Item() { if (pmemobj_tx_stage() == TX_STAGE_WORK) drop(); }
    void drop()
    {
        if (!q.raw().off) return;
        if (!q) sim_fail("empty-element", "something that is no element is destroyed as one");
        po::delete_persistent<p<u64>>(q);
        if (!pmemobj_tx_xadd_range_direct(&q, sizeof q, POBJ_XADD_NO_ABORT)) ((volatile PMEMoid *)q.raw_ptr())->off = 0; // may not throw
    }
    void set(u64 x) { *q = x; }
    u64 get() const { if (!q) sim_fail("empty-element", "an element lost its contents"); return *q; }
};
struct Pair
{
    p<u64> a, b;
    Pair(u64 v) : a(v), b(~v) {}
};
struct Five
{
    u64 v;
    Five() : v(5) {}
};
// Made and ended through an allocator.
struct Big
{
    u64 w[6];
    Big(u64 v) { for (u64 &x : w) x = v++; }
    ~Big() { if (pmemobj_tx_stage() == TX_STAGE_WORK) for (u64 &x : w) x = 1; }
};
struct Node
{
    p<u64> v;
    Ptr<Node> next;
    Node(u64 v, Ptr<Node> n) : v(v), next(n) {}
};
typedef po::vector<u64> V0;
typedef po::segment_vector<u64, po::exponential_size_vector_policy<>> V1;
typedef po::segment_vector<u64, po::fixed_size_vector_policy<4>> V2;
typedef po::segment_vector<u64, po::exponential_size_array_policy<>> V3;
typedef po::string S0;
typedef po::wstring S1;
typedef po::vector<Item> VI;
typedef po::segment_vector<Item, po::fixed_size_vector_policy<4>> VJ;
enum { SPARE = 32 };
struct Stored
{
    Ptr<V0> a0, b0;
    Ptr<V1> a1, b1;
    Ptr<V2> a2, b2;
    Ptr<V3> a3, b3;
    Ptr<S0> s0, t0;
    Ptr<S1> s1, t1;
    Ptr<VI> i0, i1;
    Ptr<VJ> j0, j1;
    po::array<u64, 8> arr, arr2;
    p<u64> num;
    u64 raw, flushed;
    Ptr<Node> list;
    Ptr<u64[]> block;
    p<u64> blockN;
    Ptr<Pair> boxed;
    Ptr<Five[]> plain;
    Ptr<Five[4]> fixed;
    Ptr<Item[2][2]> trio;
    Ptr<Item[]> some;
    p<u64> someN;
    Ptr<Big> big;
    u64 spare[SPARE]; // nothing is ever built here
    template <class T> static void mk(Ptr<T> &x) { x = po::make_persistent<T>(); }
    Stored()
    {
        mk(a0); mk(b0); mk(a1); mk(b1); mk(a2); mk(b2); mk(a3); mk(b3);
        mk(s0); mk(t0); mk(s1); mk(t1); mk(i0); mk(i1); mk(j0); mk(j1);
        for (int i = 0; i < 8; i++) const_cast<u64 &>(arr.cdata()[i]) = const_cast<u64 &>(arr2.cdata()[i]) = 0;
        num = raw = flushed = blockN = someN = 0;
    }
};
enum { DOMAINS = 3 };
struct Root { Ptr<Stored> dom[DOMAINS]; };

// One domain while an operation works on it.
struct Domain
{
    po::pool<Root> &pop;
    Stored &x;
    Ptr<V0> &a0 = x.a0, &b0 = x.b0;
    Ptr<V1> &a1 = x.a1, &b1 = x.b1;
    Ptr<V2> &a2 = x.a2, &b2 = x.b2;
    Ptr<V3> &a3 = x.a3, &b3 = x.b3;
    Ptr<S0> &s0 = x.s0, &t0 = x.t0;
    Ptr<S1> &s1 = x.s1, &t1 = x.t1;
    Ptr<VI> &i0 = x.i0, &i1 = x.i1;
    Ptr<VJ> &j0 = x.j0, &j1 = x.j1;
    typedef pmem::manual_tx_abort Aborted;
    typedef pmem::transaction_error Failed;
    u64 called[3] = {0, 0, 0};
    int depth = 0;

    struct Deeper
    {
        int &d;
        Deeper(int &d) : d(d) { d++; }
        ~Deeper() { d--; }
    };
    void begin() {}
    void listen()
    {
        if (depth) return;
        using st = po::transaction::stage;
        po::transaction::register_callback(st::oncommit, [this] { called[0]++; });
        po::transaction::register_callback(st::onabort, [this] { called[1]++; });
        po::transaction::register_callback(st::finally, [this] { called[2]++; });
    }
    void tx(const std::function<void()> &f)
    {
        po::transaction::run(pop, [&] { listen(); Deeper d(depth); f(); });
    }
    void manual(const std::function<void()> &f, bool commit)
    {
        po::transaction::manual t(pop);
        listen();
        { Deeper d(depth); f(); }
        if (commit) po::transaction::commit();
    }
    void automatic(const std::function<void()> &f)
    {
        po::transaction::automatic t(pop);
        listen();
        Deeper d(depth);
        f();
    }
    void stop() { po::transaction::abort(35); }

    template <class C> void renewSeq(Ptr<C> &a, Ptr<C> &b, Dice &d)
    {
        u64 v[8];
        for (auto &q : v) q = d.next() >> 8;
        size_t n = d.below(9);
        po::delete_persistent<C>(a);
        switch (d.below(6))
        {
        case 0: a = po::make_persistent<C>(n, v[0]); break;
        case 1: a = po::make_persistent<C>(n); break;
        case 2: a = po::make_persistent<C>((const u64 *)v, (const u64 *)v + n % 8); break;
        case 3: a = po::make_persistent<C>(*b); break;
        case 4: a = po::make_persistent<C>(std::move(*b)); break;
        case 5: a = po::make_persistent<C>(std::initializer_list<u64>{v[1], v[2], v[3]}); break;
        }
    }
    template <class S> void renewText(Ptr<S> &a, Ptr<S> &b, Dice &d)
    {
        using Ch = typename S::value_type;
        Ch buf[64];
        for (auto &c : buf) c = (Ch)('a' + d.below(3));
        size_t n = d.below(40);
        buf[63] = 0;
        po::delete_persistent<S>(a);
        switch (d.below(7))
        {
        case 0: a = po::make_persistent<S>(n, buf[0]); break;
        case 1: a = po::make_persistent<S>((const Ch *)buf, n); break;
        case 2: a = po::make_persistent<S>((const Ch *)buf + 20 + n / 2); break;
        case 3: a = po::make_persistent<S>((const Ch *)buf, (const Ch *)buf + n); break;
        case 4: a = po::make_persistent<S>(*b); break;
        case 5: a = po::make_persistent<S>(std::move(*b)); b->clear(); break; // what a move leaves behind is unspecified
        case 6: { size_t q = d.below(b->size() + 1), m = d.below(30); a = po::make_persistent<S>(*b, q, m); break; }
        }
    }
    void words(Dice &d, u64 &h)
    {
        u64 v = d.next() >> 8;
        size_t i = d.below(8), n = d.below(9 - i);
        switch (d.below(9))
        {
        case 0: x.arr[i] = v; break;
        case 1: x.arr.at(i) = v; break;
        case 2: x.arr.fill(v); break;
        case 3: x.arr.swap(x.arr2); break;
        case 4: for (auto &e : x.arr.range(i, n)) e += v; break;
        case 5: x.num += v; add(h, x.num); break;
        case 6: x.num = v; break;
        case 7: po::transaction::snapshot(&x.raw); x.raw ^= v; break;
        case 8: x.arr2 = x.arr; x.arr.back() = v; break;
        }
    }
    void word(Dice &d, u64 &)
    {
        x.flushed = d.next() >> 8;
        pop.persist(&x.flushed, sizeof x.flushed);
    }
    template <class T> static void nothing() { po::delete_persistent<T>(Ptr<T>(nullptr)); }
    void objects(Dice &d, u64 &h)
    {
        u64 v = d.next() >> 8;
        po::allocator<Big> alloc;
        size_t len = 0;
        for (auto n = x.list; n; n = n->next) len++;
        size_t i = d.below(len + 1);
        Ptr<Node> *at = &x.list;
        for (size_t j = 0; j < i; j++) at = &(*at)->next;
        switch (d.below(14))
        {
        case 0: case 1: if (len < 12) *at = po::make_persistent<Node>(v, *at); break;
        case 2:
            if (i < len) { auto n = *at; add(h, n->v); *at = n->next; po::delete_persistent<Node>(n); }
            else { nothing<Item>(); nothing<Item[2]>(); po::delete_persistent<Item[]>(nullptr, 3); }
            break;
        case 3: if (i < len) (*at)->v = v; break;
        case 4:
            if (x.block) po::delete_persistent<u64[]>(x.block, x.blockN);
            x.blockN = v % 7;
            x.block = v % 7 ? po::make_persistent<u64[]>(v % 7) : nullptr;
            for (size_t j = 0; j < v % 7; j++) x.block[j] = v + j;
            break;
        case 5: if (x.block) { u64 &e = x.block[v % x.blockN]; po::transaction::snapshot(&e); e = v; } break;
        case 6:
            if (x.block) po::delete_persistent<u64[]>(x.block, x.blockN);
            x.block = nullptr;
            x.blockN = 0;
            break;
        case 7: if (!x.trio) x.trio = po::make_persistent<Item[2][2]>(); else { po::delete_persistent<Item[2][2]>(x.trio); x.trio = nullptr; } break;
        case 8: if (x.trio) x.trio[v / 2 % 2][v % 2].set(v); break;
        case 9:
            po::delete_persistent<Item[]>(x.some, x.someN);
            x.some = nullptr;
            x.someN = v % 4;
            if (x.someN) x.some = po::make_persistent<Item[]>(x.someN);
            break;
        case 10: if (x.someN) x.some[v % x.someN] = Item(v); break;
        case 11:
            if (x.big) break;
            x.big = alloc.allocate(2);
            alloc.construct(x.big, v);
            alloc.construct(x.big + 1, *x.big);
            break;
        case 12: if (x.big) { auto at = x.big + v % 2; alloc.destroy(at); alloc.construct(at, v); } break;
        case 13:
            if (!x.big) break;
            alloc.destroy(x.big);
            alloc.destroy(x.big + 1);
            alloc.deallocate(x.big, 2);
            x.big = nullptr;
            break;
        }
    }
    // Moves some of the memory behind the containers, which must not show.
    void compact(u64 which)
    {
        po::defrag f(pop);
        if (which & 1) { f.add(*a0); f.add(*b0); }
        if (which & 2) { f.add(*s0); f.add(*t0); }
        if (which & 4) { f.add(*s1); f.add(*t1); }
        if (which & 8) { f.add(*i0); f.add(*i1); f.add(x.num); }
        if (x.boxed && which & 16) f.add(x.boxed);
        auto r = f.run();
        if (r.relocated > r.total) sim_fail("defrag-count", "more objects were moved than there are");
    }
    void atomics(Dice &d, u64 &)
    {
        u64 v = d.next() >> 8;
        if (d.below(3) == 0) { compact(v); return; }
        u64 what = d.below(4);
        if (what > 1)
        {
            if (x.boxed) po::delete_persistent_atomic<Pair>(x.boxed);
            else po::make_persistent_atomic<Pair>(pop, x.boxed, v);
        }
        else if (what)
        {
            if (x.plain) po::delete_persistent_atomic<Five[]>(x.plain, 6);
            else po::make_persistent_atomic<Five[]>(pop, x.plain, 6);
        }
        else if (x.fixed) po::delete_persistent_atomic<Five[4]>(x.fixed);
        else po::make_persistent_atomic<Five[4]>(pop, x.fixed);
    }
    void readRest(u64 &h) const
    {
        const Stored &c = x;
        for (u64 v : c.arr) add(h, v);
        for (size_t i = 0; i < 8; i++) add(h, c.arr2.at(i));
        add(h, c.num); add(h, c.raw); add(h, c.flushed);
        size_t len = 0;
        for (auto n = c.list; n; n = n->next) len++;
        add(h, len);
        for (auto n = c.list; n; n = n->next) add(h, n->v);
        add(h, c.blockN);
        for (size_t j = 0; j < c.blockN; j++) add(h, c.block[j]);
        add(h, c.boxed != nullptr);
        if (c.boxed) { add(h, c.boxed->a); add(h, c.boxed->b); }
        add(h, c.plain != nullptr);
        if (c.plain) for (int i = 0; i < 6; i++) add(h, c.plain[i].v);
        add(h, c.fixed != nullptr);
        if (c.fixed) for (int i = 0; i < 4; i++) add(h, c.fixed[i].v);
        add(h, c.trio != nullptr);
        if (c.trio) for (int i = 0; i < 4; i++) add(h, c.trio[i / 2][i % 2].get());
        add(h, c.big != nullptr);
        if (c.big) for (int i = 0; i < 12; i++) add(h, c.big[i / 6].w[i % 6]);
        add(h, c.someN);
        for (size_t i = 0; i < c.someN; i++) add(h, c.some[i].get());
    }
};

struct Handle { po::pool<Root> pop; };
const char *FILE_NAME = "/mnt/pmem/pm1/persist.bin";
// See sut_chm.cpp.
void ended()
{
    try { std::rethrow_exception(std::current_exception()); }
    catch (pmem::transaction_error &e)
    {
        if (strstr(e.what(), "Could not add")) sim_fail("destructor-throws", "a snapshot failed in a destructor");
    }
    catch (...) {}
    abort();
}
const char *variant_name(int) { return "containers"; }
void *create(int, size_t, int rec)
{
    Handle *h = new Handle;
    try
    {
        if (rec != 2 && access(FILE_NAME, F_OK) != 0) h->pop = po::pool<Root>::create(FILE_NAME, "box", PMEMOBJ_MIN_POOL, S_IWUSR | S_IRUSR);
        else h->pop = po::pool<Root>::open(FILE_NAME, "box");
        std::set_terminate(ended);
        auto r = h->pop.root();
        bool all = true;
        for (auto &d : r->dom) all = all && d;
        if (!all)
        {
            for (auto &d : r->dom) if (d) sim_fail("half-created", "one of three objects made in a transaction is there without the others");
            po::transaction::run(h->pop, [&] { for (auto &d : r->dom) d = po::make_persistent<Stored>(); });
        }
    }
    catch (...) // resources ran out
    {
        if (h->pop.handle()) h->pop.close();
        delete h;
        try { throw; }
        catch (const pmem::pool_error &) { throw; }
        catch (const pmem::transaction_error &) { throw; }
        catch (const std::bad_alloc &) { throw; }
        catch (...) { sim_fail("exception", "opening the pool or making its first objects failed with an exception that is not documented"); }
    }
    return h;
}
// Uses that have to be refused by an exception, without any effect.
template <class E, class F> void refused(F f)
{
    bool ok = false;
    try { f(); }
    catch (E &) { ok = true; }
    catch (...) {}
    if (!ok || pmemobj_tx_stage() != TX_STAGE_NONE) sim_fail("misuse", "a use outside of a transaction, of ordinary memory or of an impossible size is not refused as it should be");
}
typedef pmem::transaction_scope_error Scope;
template <class C, class... A> void build(u64 *at, A &&...a) 
{
    if constexpr (sizeof(C) <= SPARE * 8) refused<Scope>([&] { new ((void *)at) C(std::forward<A>(a)...); });
}
template <class C> void many(po::pool<Root> &pop, u64 *at, Ptr<C> &c, Ptr<C> &other, Dice &d)
{
    typedef typename C::value_type T;
    switch (d.below(9))
    {
    case 0: build<C>(at); break;
    case 1: build<C>(at, (typename C::size_type)d.below(3), T(9)); break;
    case 2: build<C>(at, std::initializer_list<T>{T(1), T(2)}); break;
    case 3: build<C>(at, *other); break;
    case 4: build<C>(at, std::move(*other)); break;
    case 5: refused<pmem::pool_error>([&] { C x; }); break;
    case 6: refused<pmem::pool_error>([&] { po::transaction::run(pop, [&] { C x(*other); }); }); break;
    case 7: refused<std::length_error>([&] { c->reserve(c->max_size() + 1 + d.below(5)); }); break;
    case 8: refused<std::length_error>([&] { c->resize(c->max_size() + 1 + d.below(5)); }); break;
    }
}
// Places and sizes that are out of bounds.
template <class C> void beyond(C &c, const C &o, Dice &d)
{
    typedef typename C::value_type T;
    typedef std::out_of_range Out;
    const C &r = c;
    const size_t n = c.size(), far = d.below(4) ? n + d.below(3) : ~(size_t)0 - d.below(3);
    const size_t most = c.max_size(), many = d.below(3) ? most + 1 + d.below(3) : ~(size_t)0 - d.below(4);
    if constexpr (requires { C::npos; })
    {
        const size_t past = far + (far == n);
        const T *lit = o.c_str();
        const size_t from = d.below(n + 1);
        switch (d.below(22))
        {
        case 0: refused<Out>([&] { c.at(far); }); break;
        case 1: refused<Out>([&] { r.at(far); }); break;
        case 2: refused<Out>([&] { c.const_at(far); }); break;
        case 3: refused<Out>([&] { c.assign(o, o.size() + 1 + d.below(3), d.below(4)); }); break;
        case 4: refused<Out>([&] { c.append(o, o.size() + 1 + d.below(3), d.below(4)); }); break;
        case 5: refused<Out>([&] { c.erase(past); }); break;
        case 6: refused<Out>([&] { c.erase(past, 1); }); break;
        case 7: refused<Out>([&] { c.insert(past, (size_t)1, T(9)); }); break;
        case 8: refused<Out>([&] { c.insert(past, lit); }); break;
        case 9: refused<Out>([&] { c.insert(past, o); }); break;
        case 10: refused<Out>([&] { c.insert((size_t)0, o, o.size() + 1 + d.below(3), 1); }); break;
        case 11: refused<Out>([&] { c.replace(past, 1, lit); }); break;
        case 12: refused<Out>([&] { c.replace(past, 1, (size_t)2, T(9)); }); break;
        case 13: refused<Out>([&] { c.compare(past, 1, lit, (size_t)1); }); break;
        case 14: refused<Out>([&] { c.compare(past, 1, o); }); break;
        case 15: refused<Out>([&] { c.compare((size_t)0, 1, o, o.size() + 1 + d.below(3), 1); }); break;
        case 16: refused<Out>([&] { T b[4]; c.copy(b, 2, past); }); break;
        case 17: refused<std::length_error>([&] { c.append(many, T(9)); }); break;
        case 18: refused<std::length_error>([&] { c.insert(from, many, T(9)); }); break;
        case 19: refused<std::length_error>([&] { c.replace(from, 0, many, T(9)); }); break;
        case 20: refused<std::length_error>([&] { c.replace(from, d.below(3), lit, many); }); break;
        case 21: refused<std::length_error>([&] { c.assign(many, T(9)); }); break;
        }
    }
    else
    {
        const size_t from = d.below(n + 1), over = d.below(4) ? n - from + 1 + d.below(2) : ~(size_t)0 - d.below(from + 1);
        switch (d.below(12))
        {
        case 11: if constexpr (!std::is_same_v<C, V0>) refused<std::invalid_argument>([&] { (void)(r.cbegin() < o.cbegin()); }); break;
        case 0: refused<Out>([&] { c.at(far); }); break;
        case 1: refused<Out>([&] { r.at(far); }); break;
        case 2: refused<Out>([&] { c.const_at(far); }); break;
        case 3: refused<Out>([&] { c.range(from, over); }); break;
        case 4: refused<Out>([&] { r.range(from, over); }); break;
        case 5: refused<Out>([&] { c.crange(from, over); }); break;
        case 6: if constexpr (std::is_same_v<C, V0>) refused<Out>([&] { c.range(from, over, 2); }); break;
        case 7: refused<std::length_error>([&] { c.assign(many, T(9)); }); break;
        case 8: refused<std::length_error>([&] { c.resize(many); }); break;
        case 9: refused<std::length_error>([&] { c.reserve(many); }); break;
        case 10: refused<std::length_error>([&] { c.insert(c.cbegin() + from, many, T(9)); }); break;
        }
    }
}
template <class A> void beyond(A &c, Dice &d)
{
    typedef std::out_of_range Out;
    const size_t from = d.below(9), over = d.below(4) ? 8 - from + 1 + d.below(2) : ~(size_t)0 - d.below(from + 1), far = d.below(4) ? 8 + d.below(3) : ~(size_t)0 - d.below(3);
    const A &r = c;
    switch (d.below(6))
    {
    case 0: refused<Out>([&] { c.at(far); }); break;
    case 1: refused<Out>([&] { r.at(far); }); break;
    case 2: refused<Out>([&] { c.const_at(far); }); break;
    case 3: refused<Out>([&] { c.range(from, over); }); break;
    case 4: refused<Out>([&] { r.range(from, over); }); break;
    case 5: refused<Out>([&] { c.crange(from, over); }); break;
    }
}
void misuse(po::pool<Root> &pop, Stored &x, Dice d)
{
    switch (d.below(24))
    {
    case 16: beyond(*x.a0, *x.b0, d); break;
    case 17: beyond(*x.a1, *x.b1, d); break;
    case 18: beyond(*x.a2, *x.b2, d); break;
    case 19: beyond(*x.a3, *x.b3, d); break;
    case 20: beyond(*x.s0, *x.t0, d); break;
    case 21: beyond(*x.s1, *x.t1, d); break;
    case 22: beyond(x.arr, d); break;
    case 23: refused<Scope>([&] { po::transaction::register_callback(po::transaction::stage::oncommit, [] {}); }); break;
    case 0: refused<Scope>([&] { po::make_persistent<p<u64>>(d.next()); }); break;
    case 1: refused<Scope>([&] { po::make_persistent<u64[]>(d.below(4)); }); break;
    case 2: refused<Scope>([&] { po::make_persistent<u64[4]>(); }); break;
    case 3: refused<Scope>([&] { po::delete_persistent<Stored>(&x); }); break;
    case 4: refused<Scope>([&] { po::delete_persistent<u64[]>(x.block, x.blockN); }); break;
    case 5: refused<pmem::transaction_error>([&] { po::transaction::snapshot(&x.raw); }); break;
    case 6: refused<pmem::transaction_error>([&] { po::transaction::commit(); }); break;
    case 7: refused<pmem::transaction_error>([&] { po::transaction::abort(EINVAL); }); break;
    case 8: refused<Scope>([&] { po::allocator<u64>().allocate(1 + d.below(4)); }); break;
    case 9: refused<Scope>([&] { po::allocator<u64>().deallocate(Ptr<u64>(x.plain.raw()), 1); }); break;
    case 10: many(pop, x.spare, x.a0, x.b0, d); break;
    case 11: many(pop, x.spare, x.a1, x.b1, d); break;
    case 12: many(pop, x.spare, x.a2, x.b2, d); break;
    case 13: many(pop, x.spare, x.a3, x.b3, d); break;
    case 14: many(pop, x.spare, x.s0, x.t0, d); break;
    case 15: many(pop, x.spare, x.s1, x.t1, d); break;
    }
}
u64 op(void *hp, int, int code, u64 k, u64 a, u64 b, u64 *)
{
    Handle &h = *(Handle *)hp;
    auto r = h.pop.root();
    if (code == OP_X_LEAKS)
    {
        if (a) misuse(h.pop, *r->dom[k], Dice{a});
        return sim_unreachable();
    }
    Domain d{h.pop, *r->dom[k]};
    struct AtRest
    {
        ~AtRest() { if (pmemobj_tx_stage() != TX_STAGE_NONE) sim_fail("tx-left-open", "a transaction is still open after its scope"); }
    } rest;
    if (code == OP_X_DO)
    {
        try { return boxes::perform(d, a, b); }
        catch (std::bad_alloc &) { throw; }
        catch (pmem::defrag_error &) { throw; }
        catch (pmem::transaction_error &) { if ((b & 255) == boxes::M_CAUGHT) throw; }
        catch (...) { sim_fail("exception", "a failed allocation or snapshot is reported by an exception that is none of libpmemobj++"); }
        sim_fail("exception", "a failed allocation or snapshot is not reported as such");
    }
    return RESERVED;
}
void thread_begin(int) {}
const SutApi api = {1, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
static thread_local size_t tlsAnchor;
extern "C" void *sut_touch_tls() { return &tlsAnchor; }
