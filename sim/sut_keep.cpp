// Instrumented system under test: explicit persistence, volatile objects kept in persistent memory, state attached to
// persistent objects, per-thread storage and the opening and closing of pools, over the simulated libpmemobj.
#include <atomic>
#include <cstring>
#include <functional>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/detail/volatile_state.hpp>
#include <libpmemobj++/detail/enumerable_thread_specific.hpp>
#include <libpmemobj++/experimental/v.hpp>
#include "api.hpp"
#include "boxes.hpp"

extern "C"
{
    [[noreturn]] void sim_fail(const char *kind, const char *msg);
    int sim_self();
}
namespace
{
using boxes::Dice;
typedef uint64_t u64;
namespace po = pmem::obj;
using po::p;
template <class T> using Ptr = po::persistent_ptr<T>;
template <class T> using V = po::experimental::v<T>;
typedef pmem::detail::volatile_state State;
#define QUIET __attribute__((no_sanitize("thread"), noinline))

void pause(Dice &d)
{
    switch (d.below(6))
    {
    case 0: std::this_thread::yield(); break;
    case 1: usleep(1 + d.below(40)); break;
    }
}
[[noreturn]] void fail(const char *kind, const char *m) { sim_fail(kind, m); }

// ---- data that is persisted by hand: every word tells its place and the version it belongs to ----
struct Big { u64 w[21]; };
struct Words { u64 w[13]; };
enum { WORDS = 3, BIGS = 2, PTRS = 2, FILLS = 2, REFS = 2, OBJECTS = WORDS + BIGS + PTRS + FILLS + REFS, SUM = 16, USE = 17 };
constexpr int LEN[WORDS] = {1, 9, 40};
constexpr size_t FILL[FILLS] = {5, 200};
struct Local
{
    p<u64> sum;
    u64 room[3];
    Local() : sum(0) {}
};
typedef pmem::detail::enumerable_thread_specific<Local> Locals;

// ---- volatile objects ----
int made[4], stateMade, stateAlive;
struct Once
{
    u64 magic, arg;
    std::atomic<u64> hits;
    Once() : Once(0, 0) {}
    Once(u64 a, int which) : arg(a), hits(0)
    {
        made[which]++;
        magic = 1;
        std::this_thread::yield();
        usleep(5);
        magic = 0x5EED;
    }
};
struct First : Once { First() : Once(0, 0) {} First(u64 a) : Once(a, 0) {} };
struct Second : Once { Second() : Once(7, 1) {} };
struct Side
{
    u64 magic;
    std::atomic<u64> n;
    Side() : n(0)
    {
        stateMade++;
        stateAlive++;
        magic = 1;
        std::this_thread::yield();
        magic = 0x51DE;
    }
    ~Side() { stateAlive--; magic = 2; }
};

struct Stored
{
    u64 words0[LEN[0]];
    char fill0[5 + 3];
    p<Big> big0;
    u64 words1[LEN[1]];
    Ptr<u64> ref0;
    u64 words2[LEN[2]];
    p<Big> big1;
    char fill1[200];
    Ptr<u64> ref1;
    Ptr<Words> ptr[PTRS];
    V<First> first;
    V<Second> second;
    V<u64> number[2];
    V<int> little;
    Ptr<p<u64>> tag[3];
    p<u64> base;
    Locals locals;
};
struct Root { Ptr<Stored> x; };
struct Handle { po::pool<Root> pop; };

const char *FILE_NAME = "/mnt/pmem/pm1/persist.bin", *LAYOUT = "keep";

// What the callers know of the volatile objects since the pool was opened.
struct Known
{
    void *once[2];
    u64 hits[2];
    u64 number[2];
    int little;
    void *side[3];
    u64 sideHits[3];
};
Known known;
struct Owner { void *where; int thread; };
Owner owners[64];
// Whose the element is now: -1 somebody else's, -2 the thread had another one before.
QUIET int owned(void *where, int me, bool atRest)
{
    int free = -1, at = -1, moved = 0;
    for (int i = 0; i < 64; i++)
    {
        if (owners[i].where == where) at = i;
        if (!owners[i].where && free < 0) free = i;
        if (owners[i].thread == me && owners[i].where != where) moved = 1;
    }
    if (!atRest && at >= 0 && owners[at].thread && owners[at].thread != me) return -1;
    if (!atRest && moved) return -2;
    if (at < 0) at = free;
    if (at >= 0) { owners[at].where = where; owners[at].thread = me; }
    return 0;
}
QUIET void disown(int thread) { for (int i = 0; i < 64; i++) if (owners[i].thread == thread) owners[i].thread = 0; }
// When a thread ends, before its number is given back.
struct Bye
{
    int thread = 0;
    ~Bye() { disown(thread); }
};
thread_local Bye bye;
// How many elements the per-thread storage may need: those it had, or one for each thread that is alive.
u64 had, running, most;
QUIET void enter() { if (++running > most) most = running; }
QUIET void leave() { --running; }
QUIET u64 bound() { return had > most ? had : most; }
struct Alive
{
    Alive() { enter(); }
    ~Alive() { leave(); }
    int use = 0;
};
thread_local Alive alive_;
QUIET void *peek(void **p) { return *p; }
QUIET u64 bump(u64 *p) { return ++*p; }
QUIET u64 look(u64 *p) { return *p; }
// Everybody must get the same; the first one decides.
QUIET bool agree(void **p, void *v)
{
    if (*p && *p != v) return false;
    *p = v;
    return true;
}

struct Worker
{
    Handle &h;
    Stored &x;
    Dice d;
    po::pool<Root> &pop;

    u64 *at(int o, size_t &n)
    {
        if (o < WORDS) { n = (size_t)LEN[o]; return o == 0 ? x.words0 : o == 1 ? x.words1 : x.words2; }
        o -= WORDS;
        if (o < BIGS) { n = 21; return (u64 *)&(o ? x.big1 : x.big0).get_ro(); }
        o -= BIGS;
        if (o < PTRS) { n = 13; return x.ptr[o]->w; }
        o -= PTRS + FILLS;
        n = 2;
        return (u64 *)(o ? &x.ref1 : &x.ref0);
    }
    static u64 word(int o, size_t j, u64 v) { return v << 32 | (u64)(o + 1) << 16 | j; }
    static bool isFill(int o) { return o >= WORDS + BIGS + PTRS && o < WORDS + BIGS + PTRS + FILLS; }
    char *fill(int o) { return o == WORDS + BIGS + PTRS ? x.fill0 : x.fill1; }
    static size_t fillLen(int o) { return FILL[o - WORDS - BIGS - PTRS]; }
    // The version all of it belongs to; or, if some of it belongs to the one before: the later one, and torn.
    u64 version(int o, bool &torn)
    {
        u64 lo = ~0ull, hi = 0;
        if (isFill(o))
        {
            unsigned char *c = (unsigned char *)fill(o);
            for (size_t j = 0; j < fillLen(o); j++) { lo = std::min<u64>(lo, c[j]); hi = std::max<u64>(hi, c[j]); }
        }
        else
        {
            size_t n;
            u64 *w = at(o, n);
            for (size_t j = 0; j < n; j++)
            {
                u64 v = w[j] >> 32;
                if (w[j] != word(o, j, v)) fail("data-corrupt", "a word holds something that was never stored there");
                lo = std::min(lo, v);
                hi = std::max(hi, v);
            }
        }
        if (hi - lo > 1) fail("data-torn", "an object holds parts of versions that are not next to each other");
        torn = hi != lo;
        return hi;
    }
    void put(int o, u64 v)
    {
        if (isFill(o)) { for (size_t j = 0; j < fillLen(o); j++) fill(o)[j] = (char)v; return; }
        size_t n;
        u64 *w = at(o, n);
        for (size_t j = 0; j < n; j++) w[j] = word(o, j, v);
    }
    // After it returns, the new version must survive whatever comes.
    u64 save(int o)
    {
        bool torn;
        u64 v = version(o, torn) + 1;
        if (isFill(o))
        {
            char *c = fill(o);
            size_t n = fillLen(o);
            void *r = pop.memset_persist(c, (int)v, n);
            if (r != c) fail("data-result", "memset_persist returns something else than its destination");
            return (v - 1) * 8;
        }
        if (o < WORDS)
        {
            size_t n;
            u64 *w = at(o, n);
            u64 tmp[64];
            for (size_t j = 0; j < n; j++) tmp[j] = word(o, j, v);
            switch (d.below(4))
            {
            case 0: put(o, v); pause(d); pop.persist(w, n * 8); break;
            case 1:
                if (pop.memcpy_persist(w, tmp, n * 8) != w) fail("data-result", "memcpy_persist returns something else than its destination");
                break;
            case 2:
            {
                put(o, v);
                size_t a = d.below(n + 1);
                pop.flush(w, a * 8);
                pause(d);
                pop.flush(w + a, (n - a) * 8);
                pop.drain();
                break;
            }
            case 3:
                for (size_t j = 0; j < n; j++) { w[j] = tmp[j]; pop.flush(w + j, 8); }
                pause(d);
                pop.drain();
                break;
            }
            return (v - 1) * 8;
        }
        put(o, v);
        pause(d);
        po::pool_base pb = pop; // the class it derives from does the same
        if (o < WORDS + BIGS)
        {
            auto &b = o > WORDS ? x.big1 : x.big0;
            switch (d.below(3))
            {
            case 0: pop.persist(b); break;
            case 1: pop.flush(b); pb.drain(); break;
            case 2: pb.persist(&b, sizeof b); break;
            }
        }
        else if (o < WORDS + BIGS + PTRS)
        {
            auto &q = x.ptr[o - WORDS - BIGS];
            switch (d.below(4))
            {
            case 0: q.persist(); break;
            case 1: q.persist(pop); break;
            case 2: q.flush(); pop.drain(); break;
            case 3: q.flush(pb); pause(d); pb.drain(); break;
            }
        }
        else
        {
            auto &q = o == OBJECTS - 1 ? x.ref1 : x.ref0;
            if (d.below(2)) pop.persist(q);
            else { pop.flush(q); pop.drain(); }
        }
        return (v - 1) * 8;
    }
    // At rest.  What an interrupted operation has left behind is completed.
    u64 read(int o)
    {
        bool torn;
        u64 v = version(o, torn);
        if (!torn) return v * 8;
        put(o, v);
        size_t n = isFill(o) ? fillLen(o) : 0;
        void *w = isFill(o) ? (void *)fill(o) : at(o, n);
        pmemobj_persist(pop.handle(), w, isFill(o) ? n : n * 8);
        return v * 8 | 2;
    }

    // ---- per-thread storage ----
    Local &local(bool atRest)
    {
        alive_.use = 1; // made before the number, so it goes later
        Local &l = x.locals.local();
        bye.thread = sim_self() + 1; // made later than the number, so it goes earlier
        int r = owned(&l, sim_self() + 1, atRest);
        if (r == -1) fail("local-shared", "two threads that are alive share an element of the per-thread storage");
        if (r == -2) fail("local-moved", "a thread gets another element than before");
        return l;
    }
    void count(bool atRest)
    {
        Local &l = local(atRest);
        u64 v = l.sum.get_ro();
        pause(d);
        if (l.sum.get_ro() != v) fail("local-shared", "an element of the per-thread storage changed under its thread");
        l.sum.get_rw() = v + 8;
        pop.persist(&l.sum, 8);
    }
    void add(bool atRest)
    {
        static int others; // the simulation has room for 24 threads in one lifetime
        if (d.below(3) || others >= 10) { count(atRest); return; }
        // A thread of its own, which ends.
        others++;
        bool failed = false;
        std::thread t([&] {
            try { count(atRest); } catch (pmem::transaction_error &) { failed = true; } catch (std::bad_alloc &) { failed = true; }
        });
        t.join();
        if (failed) throw pmem::transaction_alloc_error("in the other thread");
    }
    u64 sum()
    {
        u64 s = x.base.get_ro(), n = 0, m = 0;
        for (auto &l : x.locals) { s += l.sum.get_ro(); n++; }
        const Locals &c = x.locals;
        for (auto it = c.begin(); it != c.end(); ++it) m++;
        if (n != m || n != c.size() || (n == 0) != c.empty()) fail("local-count", "the per-thread storage disagrees about its size");
        if (n > bound()) fail("local-room", "the per-thread storage has more elements than there ever were threads");
        return s;
    }
    // What the threads of earlier lifetimes left is collected, then the storage starts anew.
    void collect(int kind)
    {
        u64 before = x.locals.size(), seen = 0;
        po::transaction::run(pop, [&] {
            if (kind == 0)
                x.locals.initialize([&](Local &l) { seen++; x.base += l.sum.get_ro(); });
            else
            {
                for (auto &l : x.locals) { seen++; x.base += l.sum.get_ro(); }
                x.locals.clear();
            }
        });
        if (seen != before || !x.locals.empty()) fail("local-count", "collecting the per-thread storage does not meet every element once, or leaves some");
        for (Owner &o : owners) o = Owner{};
    }

    // ---- volatile objects ----
    template <class T> void once(int i, V<T> &v, T &got)
    {
        if (got.magic != 0x5EED) fail("volatile-raw", "a volatile object is used before it is constructed");
        if (made[i] != 1) fail("volatile-made", "a volatile object is not constructed exactly once since the pool was opened");
        if (i ? got.arg != 7 : got.arg != 0 && got.arg != 5) fail("volatile-argument", "a volatile object is not constructed from the arguments given");
        if (!agree(&known.once[i], &got) || &v.unsafe_get() != &got) fail("volatile-other", "two callers get different volatile objects");
        u64 n = bump(&known.hits[i]);
        u64 was = got.hits++;
        if (was >= look(&known.hits[i]) || n == 0) fail("volatile-lost", "a volatile object has a state nobody gave it");
    }
    void useVolatile()
    {
        switch (d.below(3))
        {
        case 0: once(0, x.first, x.first.get(5)); break;
        case 1: { First &f = x.first; once(0, x.first, f); break; }
        case 2: once(1, x.second, x.second.get()); break;
        }
    }
    // At rest: one thread.
    void numbers()
    {
        auto val = [&](int i) -> u64 & { return known.number[i]; };
        int i = (int)d.below(2);
        u64 a = d.next();
        switch (d.below(7))
        {
        case 0: x.number[i] = a; val(i) = a; break;
        case 1: x.number[i] = x.number[1 - i]; val(i) = val(1 - i); break;
        case 2: x.number[i] = x.little; val(i) = (u64)known.little; break;
        case 3: x.little = (int)a; known.little = (int)a; break;
        case 4: x.number[i].swap(x.number[1 - i]); std::swap(val(0), val(1)); break;
        case 5: swap(x.number[0], x.number[1]); std::swap(val(0), val(1)); break;
        case 6: x.number[i].get() += 3; val(i) += 3; break;
        }
        for (int j = 0; j < 2; j++) { u64 n = x.number[j]; if (n != val(j)) fail("volatile-value", "a volatile number differs from what was assigned to it since the pool was opened"); }
        if (x.little != known.little) fail("volatile-value", "a volatile number differs from what was assigned to it since the pool was opened");
    }

    // ---- state attached to persistent objects ----
    PMEMoid tag(int i) { return x.tag[i].raw(); }
    void side(bool atRest)
    {
        int i = (int)d.below(3);
        void *before = peek(&known.side[i]);
        Side *s = State::get_if_exists<Side>(tag(i));
        if (before && s != before) fail("state-lost", "state attached to a persistent object is gone or another one");
        if (atRest && !before && s) fail("state-stale", "state is attached to an object nobody attached it to");
        if (!s && d.below(6) == 0)
        {
            bool told = false;
            try { po::transaction::run(pop, [&] { s = State::get<Side>(tag(i)); }); } catch (pmem::transaction_scope_error &) { told = true; }
            if (told) return;
            // Another thread may have attached it meanwhile.
            if (atRest) fail("state-scope", "state is attached inside a transaction");
        }
        else if (s && d.below(5) == 0) po::transaction::run(pop, [&] { s = State::get<Side>(tag(i)); });
        else s = State::get<Side>(tag(i));
        if (!s || s->magic != 0x51DE) fail("state-raw", "state attached to a persistent object is used before it is constructed");
        if (!agree(&known.side[i], s)) fail("state-other", "two callers get different state for one persistent object");
        for (int j = 0; j < 3; j++) if (j != i && peek(&known.side[j]) == s) fail("state-other", "two persistent objects share their state");
        bump(&known.sideHits[i]);
        u64 was = s->n++;
        if (was >= look(&known.sideHits[i])) fail("state-lost", "state attached to a persistent object has a value nobody gave it");
        if (atRest && was + 1 != known.sideHits[i]) fail("state-lost", "state attached to a persistent object lost an update");
        if (s != State::get_if_exists<Side>(tag(i))) fail("state-lost", "state attached to a persistent object is not found");
    }
    void alive()
    {
        int n = 0;
        for (int i = 0; i < 3; i++) n += known.side[i] != nullptr;
        if (stateAlive != n) fail("state-count", "the number of states that are alive differs from the number of objects they were attached to");
    }
    void detach()
    {
        int i = (int)d.below(3), kind = (int)d.below(4);
        bool had = known.side[i] != nullptr, gone = true;
        struct Other {};
        switch (kind)
        {
        case 0: State::destroy(tag(i)); break;
        case 1: po::transaction::run(pop, [&] { State::destroy(tag(i)); if (had && State::get_if_exists<Side>(tag(i)) != known.side[i]) fail("state-early", "state is detached before its transaction commits"); }); break;
        case 2:
            try { po::transaction::run(pop, [&] { State::destroy(tag(i)); throw Other{}; }); } catch (Other &) {}
            gone = false;
            break;
        case 3:
        {
            po::transaction::manual tx(pop);
            State::destroy(tag(i));
            if (d.below(2)) po::transaction::commit();
            else gone = false;
        }
        }
        if (gone) { known.side[i] = nullptr; known.sideHits[i] = 0; }
        if (State::get_if_exists<Side>(tag(i)) != known.side[i]) fail("state-detach", "detaching state inside a transaction does not follow the transaction");
        alive();
    }

    // ---- pools ----
    template <class F> bool refused(F f)
    {
        try { f(); } catch (pmem::pool_error &) { return true; }
        return false;
    }
    void misuse()
    {
        bool ok = true;
        switch (d.below(7))
        {
        case 0: ok = refused([&] { auto q = po::pool<Root>::create(FILE_NAME, LAYOUT, PMEMOBJ_MIN_POOL, 0600); }); break;
        case 1: ok = refused([&] { auto q = po::pool<Root>::open(FILE_NAME, LAYOUT); }); break;
        case 2: ok = refused([&] { auto q = po::pool<Root>::open("/mnt/pmem/pm1/other", LAYOUT); }); break;
        case 3: { po::pool<Root> q; ok = refused([&] { q.root(); }); break; }
        case 4:
        {
            po::pool_base q;
            ok = false;
            try { q.close(); } catch (std::logic_error &) { ok = true; }
            break;
        }
        case 5: { Ptr<Words> q; ok = refused([&] { if (d.below(2)) q.persist(); else q.flush(); }); break; }
        case 6: // outside of a pool it is a plain object
        {
            V<u64> v;
            V<Second> w;
            u64 n = d.next();
            v = n;
            ok = (u64)v == n && &w.get() == &w.unsafe_get();
            break;
        }
        }
        if (!ok) fail("pool-refusal", "the wrong use of a pool is not reported");
    }
    static void fresh()
    {
        known = Known{};
        made[0] = made[1] = 0;
        for (Owner &o : owners) o = Owner{};
    }
    void reopen()
    {
        int kind = (int)d.below(3);
        alive();
        h.pop.close();
        if (stateAlive) fail("state-count", "state attached to persistent objects outlives the pool");
        fresh();
        bool told = false;
        try { h.pop.close(); } catch (std::logic_error &) { told = true; }
        if (!told) fail("pool-refusal", "a pool is closed twice");
        if (kind == 1 && !refused([&] { h.pop = po::pool<Root>::open(FILE_NAME, "other"); })) fail("pool-refusal", "a pool is opened with a wrong layout");
        if (kind == 2)
        {
            if (po::pool<Root>::check(FILE_NAME, LAYOUT) != 1) fail("pool-check", "a sound pool is not found so");
            if (!refused([&] { h.pop = po::pool<Root>::create(FILE_NAME, LAYOUT, PMEMOBJ_MIN_POOL, 0600); })) fail("pool-refusal", "a pool is created over another one");
        }
        h.pop = po::pool<Root>(po::pool_base::open(FILE_NAME, LAYOUT));
        if (!h.pop.root()->x) fail("pool-root", "the root object is empty after the pool was opened again");
    }
};

const char *variant_name(int) { return "keep"; }
void *create(int, size_t, int rec)
{
    Handle *h = new Handle;
    try
    {
        if (rec != 2 && access(FILE_NAME, F_OK) != 0) h->pop = po::pool<Root>::create(FILE_NAME, LAYOUT, PMEMOBJ_MIN_POOL, S_IWUSR | S_IRUSR);
        else h->pop = po::pool<Root>::open(FILE_NAME, LAYOUT);
        auto r = h->pop.root();
        if (!r->x)
            po::transaction::run(h->pop, [&] {
                r->x = po::make_persistent<Stored>();
                for (auto &q : r->x->ptr) q = po::make_persistent<Words>();
                for (auto &q : r->x->tag) q = po::make_persistent<p<u64>>(0);
                Worker w{*h, *r->x, Dice(1), h->pop};
                for (int o = 0; o < OBJECTS; o++) w.put(o, 0);
                r->x->base = 0;
            });
        had = r->x->locals.size();
    }
    catch (...) // resources ran out
    {
        if (h->pop.handle()) h->pop.close();
        delete h;
        try { throw; }
        catch (const pmem::pool_error &) { throw; }
        catch (const pmem::transaction_error &) { throw; }
        catch (const std::bad_alloc &) { throw; }
        catch (...) { sim_fail("exception", "opening the pool or making its first objects failed with an exception that is not documented"); }
    }
    return h;
}
// Keys: an object (0-10), the sum of the per-thread storage (16), anything else (17).  b: at rest.
u64 op(void *hp, int, int code, u64 k, u64 a, u64 b, u64 *)
{
    Handle &h = *(Handle *)hp;
    Ptr<Stored> x = h.pop.root()->x;
    Worker w{h, *x, Dice(a >> 8), h.pop};
    auto out = [](u64 v) { return v ? v : ABSENT; };
    switch (code)
    {
    case OP_K_SAVE: return out(w.save((int)k));
    case OP_K_READ: return out(k == SUM ? w.sum() : w.read((int)k));
    case OP_K_ADD: w.add(b); return 0;
    case OP_K_USE:
        switch (a & 15)
        {
        case 0: w.useVolatile(); break;
        case 1: w.side(b); break;
        case 2: w.misuse(); break;
        // at rest
        case 3: w.numbers(); break;
        case 4: w.detach(); break;
        case 5: w.reopen(); break;
        case 6: w.collect(w.d.below(2)); break;
        case 7: w.alive(); break;
        }
        return 0;
    }
    return 0;
}
void thread_begin(int) {}
const SutApi api = {1, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
static thread_local size_t tlsAnchor;
extern "C" void *sut_touch_tls() { return &tlsAnchor; }
