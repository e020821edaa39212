// Instrumented system under test: locks and condition variables in persistent memory, and transactions that hold locks,
// over the simulated libpmemobj.
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <functional>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/transaction.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/timed_mutex.hpp>
#include <libpmemobj++/condition_variable.hpp>
#include "api.hpp"
#include "boxes.hpp"

extern "C"
{
    [[noreturn]] void sim_fail(const char *kind, const char *msg);
    int sim_self();
}
namespace
{
using boxes::Dice;
typedef uint64_t u64;
namespace po = pmem::obj;
using po::p;
using namespace std::chrono_literals;
typedef std::chrono::steady_clock Steady;
typedef std::chrono::system_clock Wall;
template <class T> using Ptr = po::persistent_ptr<T>;
#define QUIET __attribute__((no_sanitize("thread"), noinline))

// Guarded by some of its locks: all of them to write, any of them to read.
struct Cell
{
    po::mutex m;
    po::shared_mutex s;
    po::timed_mutex t;
    p<u64> a, b;
    Cell() : a(0), b(~0ull) {}
};
enum { RING = 64 };
struct Queue
{
    po::mutex m;
    po::condition_variable notEmpty, notFull;
    p<u64> puts, takes, slot[RING];
    Queue() : puts(0), takes(0) {}
};
enum { CELLS = 5, QUEUES = 2, LM = 1, LS = 2, LT = 4 };
const int LOCKS[CELLS] = {LM, LS, LT, LM | LS, LM | LS | LT};
struct Stored
{
    Cell cell[CELLS];
    Queue queue[QUEUES];
    Stored() {} // nothing is cleared beforehand
};
struct Root { Ptr<Stored> x; };

// ---- what the callers know: who holds a lock, and who wanted it when ----
struct Lk { int writer, depth, readers, wantW, wantR; u64 evW, evR; };
Lk lk[CELLS * 3 + QUEUES];
int timedInside[CELLS];
QUIET void held(int l, bool w)
{
    Lk &x = lk[l];
    int me = sim_self() + 1;
    if (x.writer == me) { x.depth++; return; }
    if (x.writer) sim_fail("lock-shared", "a lock is held while another thread holds it exclusively");
    if (w && x.readers) sim_fail("lock-shared", "a lock is held exclusively while another thread holds it");
    if (w) { x.writer = me; x.depth = 1; }
    else x.readers++;
}
QUIET void dropped(int l, bool w)
{
    Lk &x = lk[l];
    if (!w) { x.readers--; return; }
    if (x.writer != sim_self() + 1) sim_fail("lock-shared", "a lock is released by a thread that does not hold it exclusively");
    if (!--x.depth) x.writer = 0;
}
QUIET void want(int l, bool w, int d)
{
    Lk &x = lk[l];
    (w ? x.wantW : x.wantR) += d;
    (w ? x.evW : x.evR)++;
}
struct Seen { u64 evW, evR; int wantW, wantR; };
QUIET Seen look(int l) { return {lk[l].evW, lk[l].evR, lk[l].wantW, lk[l].wantR}; }
// Refused although nobody else was anywhere near it?  (The caller's own interest was recorded before.)
QUIET void refused(int l, bool w, const Seen &s)
{
    Lk &x = lk[l];
    bool others = s.wantW - w > 0 || x.evW != s.evW;
    if (w) others = others || s.wantR > 0 || x.evR != s.evR;
    if (!others) sim_fail("lock-refused", w ? "a free lock was refused" : "a lock was refused to a reader although nobody wanted to write");
}
QUIET void timedEnter(int c, int d) { timedInside[c] += d; }
QUIET bool timedWaiter(int c) { return timedInside[c] > 0; }

struct Interest
{
    int c, mask;
    bool w;
    Interest(int c, int mask, bool w) : c(c), mask(mask), w(w) { for (int i = 0; i < 3; i++) if (mask >> i & 1) want(c * 3 + i, w, 1); }
    ~Interest() { for (int i = 0; i < 3; i++) if (mask >> i & 1) want(c * 3 + i, w, -1); }
};
struct Hold
{
    int c, mask;
    bool w;
    Hold(int c, int mask, bool w) : c(c), mask(mask), w(w) { for (int i = 0; i < 3; i++) if (mask >> i & 1) held(c * 3 + i, w); }
    ~Hold() { for (int i = 0; i < 3; i++) if (mask >> i & 1) dropped(c * 3 + i, w); }
};

struct Handle { po::pool<Root> pop; };
struct Stop {};

u64 out(u64 v) { return v ? v : ABSENT; }
void pause(Dice &d)
{
    switch (d.below(6))
    {
    case 0: std::this_thread::yield(); break;
    case 1: usleep(1 + d.below(40)); break;
    }
}

struct Worker
{
    po::pool<Root> &pop;
    Stored &x;
    Dice d;
    int c = 0;
    Cell &cell() { return x.cell[c]; }

    u64 look()
    {
        u64 v = cell().a;
        pause(d);
        if (cell().b != ~v) sim_fail("torn", "half of an update is seen under the lock");
        return v;
    }
    u64 change()
    {
        u64 v = look();
        cell().a = v + 8;
        pause(d);
        cell().b = ~(v + 8);
        return v;
    }
    // Holds the lock until nobody waits for it with a timeout.
    void outwait()
    {
        if (!(LOCKS[c] & LT) || d.below(3)) return;
        usleep(20);
        while (timedWaiter(c)) usleep(50);
    }
    u64 changeInTx()
    {
        u64 v = 0;
        po::transaction::run(pop, [&] { v = change(); });
        outwait();
        return v;
    }

    // ---- transactions that take the locks of the cell ----
    void listen()
    {
        int c = this->c, mask = LOCKS[c] & ~LT; // transactions take no timed locks
        for (int i = 0; i < 3; i++) if (mask >> i & 1) held(c * 3 + i, true);
        po::transaction::register_callback(po::transaction::stage::finally, [c, mask] { for (int i = 0; i < 3; i++) if (mask >> i & 1) dropped(c * 3 + i, true); });
    }
    template <class F> void locks(F f)
    {
        Cell &y = cell();
        switch (LOCKS[c])
        {
        case LM: f(y.m); break;
        case LS: f(y.s); break;
        case LT: f(); break;
        default: f(y.m, y.s); break;
        }
    }
    struct Timed // taken by hand, first of all
    {
        std::unique_lock<po::timed_mutex> l;
        int c;
        Timed(Worker &w) : c(w.c) { if (LOCKS[c] & LT) { l = std::unique_lock<po::timed_mutex>(w.cell().t); held(c * 3 + 2, true); } }
        ~Timed() { if (LOCKS[c] & LT) dropped(c * 3 + 2, true); }
    };
    void locked(const std::function<void()> &f)
    {
        locks([&](auto &... l) {
            switch (d.below(4))
            {
            case 0: po::transaction::run(pop, [&] { listen(); f(); }, l...); break;
            case 1: po::transaction::exec_tx(pop, [&] { listen(); f(); }, l...); break;
            case 2:
            {
                po::transaction::manual t(pop, l...);
                listen();
                f();
                po::transaction::commit();
                break;
            }
            case 3:
            {
                po::transaction::automatic t(pop, l...);
                listen();
                f();
                break;
            }
            }
        });
    }
    u64 addTx()
    {
        u64 v = 0;
        Interest in(c, LOCKS[c], true);
        Timed t(*this);
        switch (d.below(6))
        {
        case 5: // at the end of a scope that is left by an exception
        {
            struct AtEnd
            {
                std::function<void()> f;
                ~AtEnd() noexcept(false) { f(); }
            };
            std::exception_ptr bad;
            try
            {
                AtEnd e{[&] { try { locked([&] { v = change(); }); } catch (...) { bad = std::current_exception(); } }};
                throw Stop();
            }
            catch (Stop &) {}
            if (bad) std::rethrow_exception(bad);
            break;
        }
        case 0: case 1: locked([&] { v = change(); outwait(); }); break;
        case 2: po::transaction::run(pop, [&] { locked([&] { v = change(); }); pause(d); if (look() != v + 8) sim_fail("torn", "an update made by an inner transaction changed before the outer one ended"); }); break;
        case 3: locked([&] { u64 w = look(); locked([&] { v = change(); }); pause(d); if (v != w || look() != v + 8) sim_fail("torn", "an update was lost inside a transaction"); }); break;
        case 4: locked([&] { v = change(); po::transaction::run(pop, [&] { pause(d); look(); }); }); break;
        }
        return v;
    }
    // Changes everything, and then takes it back: what was there before.
    u64 abortTx()
    {
        u64 v = ~0ull;
        Interest in(c, LOCKS[c], true);
        Timed t(*this);
        int how = (int)d.below(7);
        try
        {
            switch (how)
            {
            case 0: locked([&] { v = change(); po::transaction::abort(ECANCELED); }); break;
            case 1: locked([&] { v = change(); throw Stop(); }); break;
            case 2: po::transaction::run(pop, [&] { locked([&] { v = change(); throw Stop(); }); }); break;
            case 3: po::transaction::run(pop, [&] { locked([&] { v = change(); }); pause(d); throw Stop(); }); break;
            case 5: case 6:
            {
                // An inner transaction fails, and nobody tells the outer one.
                auto inner = [&] { try { locked([&] { v = change(); throw Stop(); }); } catch (Stop &) {} };
                if (how == 5) po::transaction::run(pop, inner);
                else { po::transaction::automatic t(pop); inner(); }
                break;
            }
            case 4: locks([&](auto &... l) { po::transaction::manual t(pop, l...); listen(); v = change(); }); return v;
            }
        }
        catch (Stop &) { if (how < 5) return v; }
        catch (pmem::manual_tx_abort &) { if (!how) return v; }
        catch (pmem::transaction_error &) { if (how >= 5 && v + 1) return v; throw; }
        sim_fail("tx-not-aborted", "a transaction that was aborted returned as if it had not been");
    }

    // ---- locks taken by hand ----
    u64 add(int mode)
    {
        int mask = LOCKS[c];
        Cell &y = cell();
        if (mode >= 5) return addTx();
        Interest in(c, mask, true);
        u64 v = 0;
        switch (mode)
        {
        case 0:
        {
            std::unique_lock<po::mutex> lm;
            std::unique_lock<po::shared_mutex> ls;
            std::unique_lock<po::timed_mutex> lt;
            if (mask & LT) lt = std::unique_lock<po::timed_mutex>(y.t);
            if (mask & LM) lm = std::unique_lock<po::mutex>(y.m);
            if (mask & LS) ls = std::unique_lock<po::shared_mutex>(y.s);
            {
                Hold h(c, mask, true);
                v = changeInTx();
            }
            break;
        }
        case 1:
        {
            auto guarded = [&](auto &... l) {
                std::scoped_lock g(l...);
                Hold h(c, mask, true);
                v = changeInTx();
            };
            if (mask == (LM | LS | LT)) guarded(y.m, y.s, y.t);
            else if (mask == LT) guarded(y.t);
            else locks(guarded);
            break;
        }
        case 2: // all or nothing, without waiting
        {
            bool got = true;
            int n = 0;
            auto attempt = [&](auto &l, int i) {
                if (!(mask >> i & 1) || !got) return;
                Seen s = ::look(c * 3 + i);
                if (l.try_lock()) n |= 1 << i;
                else { refused(c * 3 + i, true, s); got = false; }
            };
            auto undo = [&] { if (n & LM) y.m.unlock(); if (n & LS) y.s.unlock(); if (n & LT) y.t.unlock(); };
            try
            {
                attempt(y.m, 0); attempt(y.s, 1); attempt(y.t, 2);
                if (got) { Hold h(c, mask, true); v = changeInTx(); }
            }
            catch (...) { undo(); throw; }
            undo();
            if (!got) return REFUSED;
            break;
        }
        case 3: case 4: // for a while
        {
            if (!(mask & LT)) return add(0);
            std::unique_lock<po::mutex> lm;
            std::unique_lock<po::shared_mutex> ls;
            std::unique_lock<po::timed_mutex> lt(y.t, std::defer_lock);
            if (!timed([&](auto how, auto when) { if constexpr (how.value) return lt.try_lock_until(when); else return lt.try_lock_for(when); }, [&] { timedEnter(c, 1); }, [&] { timedEnter(c, -1); })) return REFUSED;
            if (mask & LM) lm = std::unique_lock<po::mutex>(y.m);
            if (mask & LS) ls = std::unique_lock<po::shared_mutex>(y.s);
            Hold h(c, mask, true);
            v = changeInTx();
            break;
        }
        }
        return v;
    }
    template <bool B> struct Flag { static constexpr bool value = B; };
    // Runs an attempt with one of many kinds of deadlines.  False: the deadline has really passed.
    template <class F, class A, class B> bool timed(F f, A before, B after)
    {
        static const long us[] = {0, -5, 1, 20, 80, 300, 1500};
        auto dur = std::chrono::microseconds(us[d.below(7)]);
        struct Scope { B &b; ~Scope() { b(); } };
        Seen s = ::look(c * 3 + 2);
        auto t0 = Steady::now();
        bool ok;
        before();
        {
            Scope sc{after};
            switch (d.below(6))
            {
            case 0: ok = f(Flag<false>(), dur); break;
            case 1: ok = f(Flag<false>(), std::chrono::nanoseconds(dur)); break;
            case 2: ok = f(Flag<false>(), std::chrono::duration<double>(dur)); break;
            case 3: ok = f(Flag<true>(), Wall::now() + dur); break;
            case 4: ok = f(Flag<true>(), Steady::now() + dur); break;
            case 5: ok = f(Flag<true>(), std::chrono::time_point_cast<std::chrono::microseconds>(Steady::now()) + dur + 1us); break;
            }
        }
        if (!ok)
        {
            if (Steady::now() - t0 < dur - 1us) sim_fail("timeout-early", "an attempt with a deadline gave up before it");
            if (asLock) refused(c * 3 + 2, true, s);
        }
        return ok;
    }
    bool asLock = true;

    u64 read(int mode)
    {
        int mask = LOCKS[c];
        Cell &y = cell();
        if (mode == 7)
        {
            // Outside of a transaction there is nothing to commit, abort, save or listen to.
            int n = 0;
            try { po::transaction::commit(); } catch (pmem::transaction_error &) { n++; }
            try { po::transaction::abort(1); } catch (pmem::transaction_error &) { n++; }
            try { static u64 some; po::transaction::snapshot(&some); } catch (pmem::transaction_error &) { n++; }
            try { po::transaction::register_callback(po::transaction::stage::finally, [] {}); } catch (pmem::transaction_scope_error &) { n++; }
            if (n != 4) sim_fail("tx-outside", "a function of transactions did something outside of one");
            try { po::mutex a; (void)a; }
            catch (pmem::lock_error &)
            {
                try { po::shared_mutex a; (void)a; }
                catch (pmem::lock_error &)
                {
                    try { po::timed_mutex a; (void)a; }
                    catch (pmem::lock_error &)
                    {
                        try { po::condition_variable a; (void)a; }
                        catch (pmem::lock_error &) { return REFUSED; }
                    }
                }
            }
            sim_fail("lock-volatile", "a persistent lock was made outside persistent memory");
        }
        if (mode == 5 || mode == 6) return abortTx();
        if (mode == 4)
        {
            u64 v = 0;
            Interest in(c, mask, true);
            Timed t(*this);
            locked([&] { v = look(); });
            return v;
        }
        int one; // any of the locks will do
        do one = (int)d.below(3); while (!(mask >> one & 1));
        bool shared = one == 1 && mode != 3;
        Interest in(c, 1 << one, !shared);
        u64 v = 0;
        Seen s = ::look(c * 3 + one);
        auto with = [&](auto &l) {
            std::unique_lock g(l, std::defer_lock);
            if (mode == 1) { if (!g.try_lock()) { refused(c * 3 + one, true, s); return REFUSED; } }
            else g.lock();
            Hold h(c, 1 << one, true);
            return look();
        };
        if (!shared) return one == 0 ? with(y.m) : one == 1 ? with(y.s) : with(y.t);
        std::shared_lock g(y.s, std::defer_lock);
        if (mode == 1) { if (!g.try_lock()) { refused(c * 3 + 1, false, s); return REFUSED; } }
        else g.lock();
        Hold h(c, LS, false);
        v = look();
        return v;
    }

    // ---- a queue ----
    static u64 item(int q, u64 i) { return (i + 1) * 0x9E3779B97F4A7C15ull ^ (u64)q << 60; }
    u64 queue(int q, bool put, u64 room, bool bounded)
    {
        Queue &y = x.queue[q];
        int l = CELLS * 3 + q;
        po::condition_variable &cv = put ? y.notFull : y.notEmpty;
        auto ready = [&] {
            held(l, true);
            u64 n = y.puts - y.takes;
            pause(d);
            if (y.puts < y.takes || y.puts - y.takes != n) sim_fail("torn", "a queue changed under the lock");
            bool ok = put ? n < room : n > 0;
            if (!ok) dropped(l, true);
            return ok;
        };
        std::unique_lock<po::mutex> g(y.m);
        bool viaLock = d.below(2);
        // A timed wait tells whether its condition holds now, not whether it held when the time was up.
        auto told = [&](bool yes) {
            u64 n = y.puts - y.takes;
            if (yes != (put ? n < room : n > 0)) sim_fail("wait-result", yes ? "a wait returned true although its condition does not hold" : "a wait returned false although its condition holds");
            return yes;
        };
        if (bounded)
        {
            asLock = false;
            bool ok = timed([&](auto how, auto when) {
                bool plain = d.below(2), wasOver = false;
                int rounds = 0;
                for (;;)
                {
                    if (!plain)
                    {
                        if constexpr (how.value) return told(viaLock ? cv.wait_until(g, when, ready) : cv.wait_until(y.m, when, ready));
                        else return told(viaLock ? cv.wait_for(g, when, ready) : cv.wait_for(y.m, when, ready));
                    }
                    if (ready()) return true;
                    std::cv_status st;
                    if constexpr (how.value) st = viaLock ? cv.wait_until(g, when) : cv.wait_until(y.m, when);
                    else { st = viaLock ? cv.wait_for(g, when) : cv.wait_for(y.m, when); }
                    if (st == std::cv_status::timeout) return ready();
                    if constexpr (how.value)
                    {
                        // Whoever begins to wait after the deadline is told so.
                        bool over = std::remove_reference_t<decltype(when)>::clock::now() > when + 1us;
                        if (over && wasOver) sim_fail("timeout-ignored", "waiting until a time that has passed does not report it");
                        wasOver = over;
                    }
                    else if (++rounds > 200) sim_fail("timeout-ignored", "waiting for a time never reports that it has passed");
                }
            }, [] {}, [] {});
            if (!ok) return REFUSED;
        }
        else
            switch (d.below(4))
            {
            case 0: if (viaLock) cv.wait(g, ready); else cv.wait(y.m, ready); break;
            case 1: while (!ready()) if (viaLock) cv.wait(g); else cv.wait(y.m); break;
            case 2: while (!told(viaLock ? cv.wait_for(g, 700us, ready) : cv.wait_for(y.m, 2ms, ready))) {} break;
            case 3: while (!told(viaLock ? cv.wait_until(g, Steady::now() + 900us, ready) : cv.wait_until(y.m, Wall::now() + 1ms, ready))) {} break;
            }
        struct Leave { int l; ~Leave() { if (l >= 0) dropped(l, true); } } leave{l};
        u64 i = put ? y.puts : y.takes;
        po::transaction::run(pop, [&] {
            if (put)
            {
                y.slot[i % RING] = item(q, i);
                pause(d);
                y.puts = i + 1;
            }
            else
            {
                if (y.slot[i % RING] != item(q, i)) sim_fail("queue-item", "something was taken that was not put there");
                y.slot[i % RING] = 0;
                y.takes = i + 1;
            }
        });
        dropped(l, true);
        leave.l = -1;
        po::condition_variable &other = put ? y.notEmpty : y.notFull;
        bool late = d.below(2);
        if (late) g.unlock();
        if (d.below(4)) other.notify_one();
        else other.notify_all();
        return 8 * i;
    }
    u64 queueRead(int q, bool put)
    {
        Queue &y = x.queue[q];
        std::lock_guard<po::mutex> g(y.m);
        int l = CELLS * 3 + q;
        held(l, true);
        for (u64 i = y.takes; i != y.puts; i++) if (y.slot[i % RING] != item(q, i)) sim_fail("queue-item", "the queue holds something that was not put there");
        u64 v = put ? y.puts : y.takes;
        dropped(l, true);
        return 8 * v;
    }
};

const char *FILE_NAME = "/mnt/pmem/pm1/persist.bin";
const char *variant_name(int) { return "locks"; }
void *create(int, size_t, int rec)
{
    Handle *h = new Handle;
    try
    {
        if (rec != 2 && access(FILE_NAME, F_OK) != 0) h->pop = po::pool<Root>::create(FILE_NAME, "lock", PMEMOBJ_MIN_POOL, S_IWUSR | S_IRUSR);
        else h->pop = po::pool<Root>::open(FILE_NAME, "lock");
        auto r = h->pop.root();
        if (!r->x) po::transaction::run(h->pop, [&] { r->x = po::make_persistent<Stored>(); });
    }
    catch (...) // resources ran out
    {
        if (h->pop.handle()) h->pop.close();
        delete h;
        try { throw; }
        catch (const pmem::pool_error &) { throw; }
        catch (const pmem::transaction_error &) { throw; }
        catch (const std::bad_alloc &) { throw; }
        catch (...) { sim_fail("exception", "opening the pool or making its first objects failed with an exception that is not documented"); }
    }
    return h;
}
// k below 5: a cell; 8 + 2q: what was put into queue q, 9 + 2q: what was taken from it.  b: room in the queue.
u64 op(void *hp, int, int code, u64 k, u64 a, u64 b, u64 *)
{
    Handle &h = *(Handle *)hp;
    auto r = h.pop.root();
    struct AtRest
    {
        ~AtRest() { if (pmemobj_tx_stage() != TX_STAGE_NONE) sim_fail("tx-left-open", "a transaction is still open after its scope"); }
    } rest;
    Worker w{h.pop, *r->x, Dice(a >> 8)};
    int mode = (int)(a & 15);
    u64 v;
    if (k >= 8) v = code == OP_L_READ ? w.queueRead((int)(k - 8) / 2, !(k & 1)) : w.queue((int)(k - 8) / 2, !(k & 1), b & 255, b >> 8 & 1);
    else
    {
        w.c = (int)k;
        v = code == OP_L_READ ? w.read(mode) : w.add(mode);
    }
    return v == REFUSED ? v : out(v);
}
void thread_begin(int) {}
const SutApi api = {1, variant_name, create, op, thread_begin, WL_NONE, 1, nullptr};
} // namespace
extern "C" const SutApi *sut_api() { return &api; }
static thread_local size_t tlsAnchor;
extern "C" void *sut_touch_tls() { return &tlsAnchor; }
