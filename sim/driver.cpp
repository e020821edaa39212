// Executes scenarios, checks histories, gates and minimises violations, replays.
#include "scenario.hpp"
#include "prog.hpp"
#include <algorithm>
#include <chrono>
#include <dlfcn.h>
#include <map>
#include <set>
#include <sstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <unordered_set>
using namespace sim;

static const SutApi *api;

// ---------------------------------------------------------------- execution
static HOp H[20000];
static int HN;
struct Ctx { const Scenario *sc; const Era *era; int ei; void *handle; bool created; int rc, openFailed; bool everOpened; } X;
static ProgStats PS;

static int do_op(const Op &o, bool quiet)
{
    if (HN >= 20000) violate("harness", "history too long");
    int i = HN++;
    HOp &h = H[i];
    h.op = o;
    h.ret = h.res = h.aux = 0;
    h.status = ST_PENDING;
    h.fiber = S.cur;
    h.era = X.ei;
    h.quiet = quiet;
    h.inv = ++S.stamp;
    S.f[S.cur].inOp = true;
    S.f[S.cur].serial++;
    size_t faults = S.recFaults.size();
    point(K_OP, nullptr);
    try
    {
        uint64_t aux = 0;
        uint64_t r = api->op(X.handle, X.sc->variant, o.code, o.k, o.a, o.b, &aux);
        h.aux = aux;
        h.res = r;
        S.hash = mix2(S.hash, r);
        h.status = ST_OK;
        h.ret = ++S.stamp;
        S.f[S.cur].inOp = false;
        S.f[S.cur].serial++;
        point(K_OP, nullptr);
        return i;
    }
    catch (std::exception &e) { if (!(X.era->faultsInWorkers & FA_WORK)) violate("exception", "%s threw: %s", opName[o.code], e.what()); }
    catch (...) { if (!(X.era->faultsInWorkers & FA_WORK)) violate("exception", "%s threw", opName[o.code]); }
    if (!S.faultsOn) violate("exception", "%s threw although resources were available again", opName[o.code]);
    if (S.recFaults.size() == faults && X.sc->prop >= "C28") violate("exception", "%s threw although nothing had failed", opName[o.code]);
    h.status = ST_THREW;
    h.ret = ++S.stamp;
    S.f[S.cur].inOp = false;
    S.f[S.cur].serial++;
    point(K_OP, nullptr);
    return i;
}
static void *worker_fn(void *a)
{
    size_t t = (size_t)a;
    api->thread_begin((int)t);
    for (auto &o : X.era->thr[t]) do_op(o, false);
    return nullptr;
}
static void *main_fn(void *)
{
    api->thread_begin(0);
    if (X.era->progT)
    {
        const Era &e = *X.era;
        static char a[8][32];
        snprintf(a[0], 32, "%d", e.progT);
        snprintf(a[1], 32, "%d", e.progN);
        snprintf(a[2], 32, "%d", e.progRuns);
        snprintf(a[3], 32, "%d", e.progC);
        snprintf(a[4], 32, "%d", e.progRec);
        // The options may come in any order; a file of any name may be asked for.
        static const char *files[] = {"/mnt/pmem/pm1/persist.bin", "/mnt/pmem/pm1/persist.bin", "/mnt/pmem/pm1/p", "/mnt/pmem/pm1/the.pool-of_somebody-who-likes-long-names.0123456789.0123456789.bin"};
        const char *o[7][2] = {{"-t", a[0]}, {"-n", a[1]}, {"-p", a[2]}, {"-c", a[3]}, {"-f", files[mix2(X.sc->seed, 0xF11E) % 4]}, {"-r", a[4]}, {"-w", "0"}};
        Rng order(mix2(e.cfg.envSeed, 0x0DDE));
        if (order.chance(0.3))
            for (int i = 6; i > 0; i--) { int j = (int)order.below(i + 1); std::swap(o[i][0], o[j][0]); std::swap(o[i][1], o[j][1]); }
        const char *v[16] = {"runTest"};
        for (int i = 0; i < 7; i++) { v[1 + 2 * i] = o[i][0]; v[2 + 2 * i] = o[i][1]; }
        X.created = true;
        X.rc = api->prog(15, (char **)v);
        return nullptr;
    }
    // Creating or recovering may meet failing resources as well: it may then throw, and is tried again when they are back,
    // by the same process or by the next one.
    for (bool faults = X.era->faultsInWorkers & FA_OPEN;;)
    {
        size_t before = S.recFaults.size();
        char what[200] = "";
        S.faultsOn = S.opening = faults;
        try { X.handle = api->create(X.sc->variant, (size_t)X.sc->cap, X.era->recover && !X.everOpened ? 1 : X.era->recover); }
        catch (std::exception &e) { snprintf(what, sizeof what, "threw: %s", e.what()); }
        catch (...) { snprintf(what, sizeof what, "threw"); }
        S.faultsOn = S.opening = false;
        if (!what[0]) break;
        if (S.recFaults.size() == before) violate("create-failed", "%s %s", X.era->recover ? "recovery" : "creation", what);
        X.openFailed++;
        faults = false;
        if (!(X.era->faultsInWorkers & FA_RETRY)) return nullptr;
    }
    X.created = X.everOpened = true;
    S.f[S.cur].serial++;
    for (int i = 1; i < S.nf; i++) S.f[i].background = true; // started by the constructor, ends with the process
    for (auto &o : X.era->head) do_op(o, true);
    S.marked = true;
    S.mark = S.gstep;
    S.faultsOn = X.era->faultsInWorkers & FA_WORK;
    for (size_t t = 0; t < X.era->thr.size(); t++) spawn(worker_fn, (void *)t, true);
    wait_workers();
    S.faultsOn = false;
    for (auto &o : X.era->tail) do_op(o, true);
    return nullptr;
}

struct Reach
{
    u64 runs = 0, eras = 0, grew = 0, crashInFlight = 0, crashGrow = 0, crashRecover = 0, crashCreate = 0, threw = 0, ops = 0,
        pendingOps = 0, quietSizes = 0, recoveries = 0, overflow = 0, multiTableRecover = 0, stalledRuns = 0, faultRuns = 0, exhausted = 0, openFailed = 0;
} R;

static const char *TD = "/mnt/pmem/pm1/tables/";

static RunResult run(const Scenario &in, Scenario *rec, bool count = false)
{
    RunResult rr;
    run_begin();
    S.lastEra = false;
    S.metaLazy = in.metaLazy;
    S.chunk = in.chunk;
    S.fdLimit = in.fdLimit;
    if (in.stray & 1) fs_write_file(std::string(TD) + "notes.txt", "hello", 5);
    if (in.stray & 2) fs_mkdir("/mnt/pmem/pm1/tables/sub");
    HN = 0;
    prog_begin_scenario(api);
    X.sc = &in;
    X.everOpened = false;
    if (rec) *rec = in;
    std::vector<uint64_t> crashStamp;
    int base = 0; // first history entry that counts
    bool tainted = false;
    auto bad = [&](const std::string &k, const std::string &d) {
        if (rr.violated) return;
        rr.violated = true;
        rr.kind = k;
        rr.detail = d;
    };
    for (size_t ei = 0; ei < in.eras.size() && !rr.violated; ei++)
    {
        const Era &e = in.eras[ei];
        EraCfg cfg = e.cfg;
        S.era = (int)ei;
        X.ei = (int)ei;
        X.era = &e;
        X.handle = nullptr;
        X.created = false;
        X.openFailed = 0;
        X.rc = 0;
        if (!e.recover && !api->workload) base = HN;
        S.lastEra = ei + 1 == in.eras.size();
        prog_begin_era(&e, (int)ei);
        int tablesBefore = (int)fs_list(TD).size();
        era_begin(&cfg);
        spawn(main_fn, nullptr, false);
        EndReason er = era_run();
        rr.steps += S.gstep;
        for (int i = 0; i < MAXF; i++) for (auto &w : S.rec[i]) if (!w.forced) rr.switches++;
        if (!S.recFaults.empty()) rr.faulted = true;
        S.hash = mix2(S.hash, S.gstep);
        if (rec)
        {
            Era &re = rec->eras[ei];
            re.cfg = e.cfg;
            re.cfg.explicitSched = true;
            for (int i = 0; i < MAXF; i++) re.cfg.sw[i] = S.rec[i];
            if (!e.cfg.explicitSched) re.cfg.faults = S.recFaults;
            re.cfg.stallAt = S.recStall;
            re.cfg.crashAt = S.recCrash;
            if (er != END_CRASH) { re.cfg.crashMode = CR_NONE; }
            re.endMode = e.endMode;
        }
        if (er == END_VIOLATION) { bad(S.v.kind, S.v.detail); break; }
        int tables = 0;
        for (auto &f : fs_list(TD)) if (f.size() > 4 && f.substr(f.size() - 4) == ".dat") tables++;
        int mode = er == END_CRASH ? cfg.crashMode : e.endMode;
        bool inflight = false;
        for (int i = base; i < HN; i++) if (H[i].era == (int)ei && H[i].status == ST_PENDING) inflight = true;
        if (count)
        {
            R.eras++;
            if (e.recover) { R.recoveries++; if (tablesBefore > 1) R.multiTableRecover++; }
            if (tables > 1) { R.grew++; rr.grew = true; }
            if (er == END_CRASH)
            {
                if (mode == CR_KILL) S.stats.crashesKill++; else S.stats.crashesPower++;
                if (inflight) R.crashInFlight++;
                if (!X.created) { if (e.recover) R.crashRecover++; else R.crashCreate++; }
                else if (tables > tablesBefore && S.marked) R.crashGrow++;
            }
            if (S.recStall.fiber >= 0) R.stalledRuns++;
            if (!S.recFaults.empty()) R.faultRuns++;
            R.openFailed += X.openFailed;
        }
        if (!X.created && !e.recover && (er == END_CRASH || er == END_DONE) && ei > 0) tainted = true; // a reset that did not finish says nothing
        if (er == END_DONE && e.progT)
        {
            ProgStats dummy;
            prog_judge(in, (int)ei, X.rc, api->persistent, !rr.crashed, count ? PS : dummy, bad);
        }
        // quiescent size
        bool stalled = S.recStall.fiber >= 0;
        if (er == END_DONE && !stalled && !e.progT && in.prop != "C21" && in.prop < "C29") // clevel's count is a capacity
        {
            std::map<uint64_t, bool> present;
            bool any = false;
            uint64_t known = 0;
            (void)known;
            // replay the quiet operations of this era in order; a size is judged by the reads that follow or precede it without an update in between
            std::map<uint64_t, bool> cur;
            std::set<uint64_t> keysSeen;
            for (int i = base; i < HN; i++) keysSeen.insert(H[i].op.k);
            for (int i = base; i < HN; i++)
            {
                HOp &h = H[i];
                if (h.era != (int)ei || !h.quiet) continue;
                if (h.status != ST_OK) { cur.clear(); continue; }
                switch (h.op.code)
                {
                case OP_GET: case OP_H_SCAN: cur[h.op.k] = h.res != ABSENT; break;
                case OP_CONTAINS: case OP_A_CONTAINS: cur[h.op.k] = h.res == 1; break;
                case OP_A_GET: if (h.res) cur[h.op.k] = true; break;
                case OP_SIZE: case OP_EMPTY:
                {
                    any = true;
                    bool complete = true;
                    uint64_t n = 0;
                    for (int j = base; j < HN; j++)
                    {
                        int c = H[j].op.code;
                        if (c == OP_SIZE || c == OP_EMPTY || c == OP_W_CAS || c == OP_W_READ || c == OP_H_WHOLE || c == OP_H_DEFRAG || c == OP_X_LEAKS || H[j].era > (int)ei) continue;
                        bool upd = c != OP_GET && c != OP_CONTAINS && c != OP_A_GET && c != OP_A_CONTAINS && c != OP_H_SCAN && c != OP_H_REHASH && c != OP_H_CLEAR;
                        if (upd && H[j].inv < h.inv && !cur.count(H[j].op.k)) complete = false;
                    }
                    for (auto &kv : cur) n += kv.second;
                    if (complete)
                    {
                        if (count) R.quietSizes++;
                        if (h.op.code == OP_SIZE && h.res != n)
                            bad("size", "size() reported " + std::to_string(h.res) + " at rest but " + std::to_string(n) + " keys are present [era " + std::to_string(ei) + "]");
                        if (h.op.code == OP_EMPTY && (h.res != 0) != (n == 0))
                            bad("size", "isEmpty() disagrees with the " + std::to_string(n) + " keys present [era " + std::to_string(ei) + "]");
                    }
                    break;
                }
                case OP_H_CLEAR: cur.clear(); break;
                case OP_H_REHASH: case OP_H_WHOLE: case OP_H_DEFRAG: case OP_X_LEAKS: break;
                default: cur.erase(h.op.k);
                }
            }
            (void)any;
        }
        if (rr.violated) { /* linearizability first */ }
        crashStamp.resize(ei + 1, 0);
        crashStamp[ei] = ++S.stamp;
        fs_crash(mode, e.crashSeed);
        if (er == END_CRASH) rr.crashed = true;
        if (tainted) break;
    }
    rr.hash = S.hash;
    if ((!rr.violated || rr.kind == "size") && !tainted)
    {
        std::vector<HOp> h(H + base, H + HN);
        LinResult l = api->workload ? LinResult{true, ""} : in.prop == "C29" ? check_boxes(h) : in.prop == "C21" ? check_membership(h) : in.variant == 7 && h.size() && (h[0].op.code == OP_W_CAS || h[0].op.code == OP_W_READ) ? check_words(h, crashStamp) : check_history(h, crashStamp);
        if (api->workload && in.prop != "C20")
            for (auto &sg : prog_segments(HN))
            {
                l = check_history(std::vector<HOp>(H + sg.first, H + sg.second), crashStamp);
                if (!l.ok) break;
            }
        if (!l.ok)
        {
            rr.violated = false;
            bad("history", l.why);
        }
        else if (l.why == "overflow" && count) R.overflow++;
    }
    // A crash lost a value that looked durable because a stalled helper had cleared its dirty flag (A-B-A):
    // reported under a name of its own.
    if (rr.violated && staleClearLost && (rr.kind == "history" || rr.kind == "size")) rr.kind = "stale-dirty-clear";
    // The stand-in's pool is smaller than a real one and mostly does not reuse memory: such a run ends without a verdict.
    if (rr.violated && rr.kind == "exhausted") { rr.violated = false; if (count) R.exhausted++; }
    // Erase against the background rehash: an entry was freed while a slot still referred to it, or twice.
    if (rr.violated && S.taint) rr.kind = "freed-entry-linked";
    if (count)
    {
        R.runs++;
        R.ops += HN;
        for (int i = 0; i < HN; i++) { if (H[i].status == ST_PENDING) R.pendingOps++; if (H[i].status == ST_THREW) R.threw++; }
    }
    return rr;
}

// ---------------------------------------------------------------- text form
std::string scenario_text(const Scenario &s)
{
    std::ostringstream o;
    o << "psim-scenario 1\nprop " << s.prop << "\nseed " << s.seed << "\nvariant " << s.variant << "\ncap " << s.cap << "\nmetaLazy " << s.metaLazy << "\nchunk " << s.chunk
      << "\nfdLimit " << s.fdLimit << "\nstray " << s.stray << "\neras " << s.eras.size() << "\n";
    auto ops = [&](const char *n, const std::vector<Op> &v) {
        o << n << " " << v.size();
        for (auto &x : v) o << "  " << opName[x.code] << ":" << x.code << " " << x.k << " " << x.a << " " << x.b;
        o << "\n";
    };
    for (auto &e : s.eras)
    {
        const EraCfg &c = e.cfg;
        o << "era recover " << e.recover << " crashSeed " << e.crashSeed << " endMode " << e.endMode << " faults " << e.faultsInWorkers << " envSeed " << c.envSeed
          << " plain " << c.plainPoints << " advCap " << c.adversarialCap << " hangCap " << c.hangCap << " maxRun " << c.maxRun << " crashMode " << c.crashMode
          << " crashAt " << c.crashAt.fiber << " " << c.crashAt.lstep << " stallAt " << c.stallAt.fiber << " " << c.stallAt.lstep << "\n";
        if (c.tickNs) o << "tick " << c.tickNs << "\n";
        if (e.progT) o << "prog " << e.progT << " " << e.progN << " " << e.progC << " " << e.progRec << " " << e.progRuns << " " << e.randMod << "\n";
        ops("head", e.head);
        o << "threads " << e.thr.size() << "\n";
        for (auto &t : e.thr) ops("thread", t);
        ops("tail", e.tail);
        o << "faultlist " << c.faults.size();
        for (auto &f : c.faults) o << "  " << f.fiber << " " << f.idx << " " << f.kind << " " << f.err;
        o << "\n";
        for (int i = 0; i < MAXF; i++)
            if (!c.sw[i].empty())
            {
                o << "switches " << i << " " << c.sw[i].size();
                for (auto &w : c.sw[i]) o << "  " << w.lstep << (w.forced ? "!" : ">") << w.target;
                o << "\n";
            }
        o << "endera\n";
    }
    return o.str();
}
bool scenario_parse(const std::string &t, Scenario &s)
{
    std::istringstream in(t);
    std::string w;
    int ver;
    if (!(in >> w >> ver) || w != "psim-scenario" || ver != 1) return false;
    size_t ne = 0;
    auto ops = [&](std::vector<Op> &v) {
        size_t n;
        in >> n;
        for (size_t i = 0; i < n; i++)
        {
            std::string nm;
            Op x;
            in >> nm >> x.k >> x.a >> x.b;
            x.code = atoi(nm.substr(nm.find(':') + 1).c_str());
            v.push_back(x);
        }
    };
    while (in >> w)
    {
        if (w == "prop") in >> s.prop;
        else if (w == "seed") in >> s.seed;
        else if (w == "variant") in >> s.variant;
        else if (w == "cap") in >> s.cap;
        else if (w == "metaLazy") in >> s.metaLazy;
        else if (w == "chunk") in >> s.chunk;
        else if (w == "fdLimit") in >> s.fdLimit;
        else if (w == "stray") in >> s.stray;
        else if (w == "eras") in >> ne;
        else if (w == "era")
        {
            Era e;
            EraCfg &c = e.cfg;
            c.explicitSched = true;
            std::string k;
            in >> k >> e.recover >> k >> e.crashSeed >> k >> e.endMode >> k >> e.faultsInWorkers >> k >> c.envSeed >> k >> c.plainPoints >> k >> c.adversarialCap >>
                k >> c.hangCap >> k >> c.maxRun >> k >> c.crashMode >> k >> c.crashAt.fiber >> c.crashAt.lstep >> k >> c.stallAt.fiber >> c.stallAt.lstep;
            while (in >> w && w != "endera")
            {
                if (w == "head") ops(e.head);
                else if (w == "tick") in >> c.tickNs;
                else if (w == "prog") in >> e.progT >> e.progN >> e.progC >> e.progRec >> e.progRuns >> e.randMod;
                else if (w == "tail") ops(e.tail);
                else if (w == "threads") { size_t n; in >> n; }
                else if (w == "thread") { e.thr.emplace_back(); ops(e.thr.back()); }
                else if (w == "faultlist")
                {
                    size_t n;
                    in >> n;
                    for (size_t i = 0; i < n; i++) { FaultPoint f; in >> f.fiber >> f.idx >> f.kind >> f.err; c.faults.push_back(f); }
                }
                else if (w == "switches")
                {
                    int fi;
                    size_t n;
                    in >> fi >> n;
                    for (size_t i = 0; i < n; i++) { Switch sw; char gt; in >> sw.lstep >> gt >> sw.target; sw.forced = gt == '!'; c.sw[fi].push_back(sw); }
                }
                else return false;
            }
            s.eras.push_back(e);
        }
        else if (w[0] == '#') { std::string l; std::getline(in, l); }
        else return false;
    }
    return s.eras.size() == ne;
}

// ---------------------------------------------------------------- minimisation
typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

static bool same(const RunResult &r, const std::string &kind) { return r.violated && r.kind == kind; }

// Tries s as it is, then with fresh schedules; on success s becomes explicit.
// Would the calls of every process return?  Whatever waits for an item needs somebody who puts one there.
static bool sensible(const Scenario &s)
{
    for (auto &e : s.eras)
        for (uint64_t q = 8; q < 12; q += 2)
        {
            size_t puts = 0, takes = 0;
            bool full = false, waits = false;
            for (auto &t : e.thr)
                for (auto &o : t)
                    if (o.code == OP_L_ADD && (o.k | 1) == (q | 1)) { (o.k & 1 ? takes : puts)++; full = full || (o.b & 255) < 255; waits = waits || ((o.k & 1) && !(o.b >> 8 & 1)); }
            if ((takes > puts && waits) || (full && takes < puts)) return false;
        }
    return true;
}
static bool still(Scenario &s, const std::string &kind, const Scenario &orig, int tries, Rng &rng)
{
    if (s.prop == "C30" && !sensible(s)) return false;
    Scenario rec;
    if (same(run(s, &rec), kind)) { s = rec; return true; }
    for (int i = 0; i < tries; i++)
    {
        Scenario t = s;
        for (size_t e = 0; e < t.eras.size(); e++)
        {
            EraCfg &c = t.eras[e].cfg;
            const EraCfg &oc = orig.eras[std::min(e, orig.eras.size() - 1)].cfg;
            std::vector<FaultPoint> fl = c.faults;
            int cm = c.crashMode;
            EraCfg n = oc;
            n.schedSeed = rng.next();
            n.explicitSched = false;
            n.crashAt = Point();
            n.stallAt = Point();
            n.crashMode = cm;
            n.faults.clear();
            n.pctChange = oc.pctChange;
            if (cm && n.crashStep) n.crashStep = 1 + rng.below(n.crashStep + 5);
            c = n;
            if (!cm) { c.crashStep = 0; c.crashKind = -1; }
            if (rng.chance(0.5)) t.eras[e].crashSeed = rng.next();
        }
        if (same(run(t, &rec), kind)) { s = rec; return true; }
    }
    return false;
}

static size_t nops(const Scenario &s)
{
    size_t n = 0;
    for (auto &e : s.eras) { n += e.head.size() + e.tail.size(); for (auto &t : e.thr) n += t.size(); }
    return n;
}
static size_t nsw(const Scenario &s)
{
    size_t n = 0;
    for (auto &e : s.eras) for (auto &v : e.cfg.sw) n += v.size();
    return n;
}

static void minimise(Scenario &s, const std::string &kind, const Scenario &orig0, double budget)
{
    auto t0 = Clk::now();
    Rng rng(12345);
    Scenario orig = orig0;
    auto over = [&] { return since(t0) > budget; };
    // eras
    for (size_t n = 1; n < s.eras.size() && !over(); n++)
    {
        Scenario t = s;
        t.eras.resize(n);
        Scenario rec;
        if (same(run(t, &rec), kind)) { s = rec; break; }
    }
    bool progress = true;
    while (progress && !over())
    {
        progress = false;
        for (size_t e = 0; e < s.eras.size() && !over(); e++)
        {
            // whole threads
            for (size_t t = s.eras[e].thr.size(); t-- > 0 && !over();)
            {
                if (s.eras[e].thr[t].empty()) continue;
                Scenario c = s;
                c.eras[e].thr[t].clear();
                if (still(c, kind, orig, 20, rng)) { s = c; progress = true; }
            }
            auto shrink = [&](auto sel) {
                for (size_t i = sel(s).size(); i-- > 0 && !over();)
                {
                    Scenario c = s;
                    auto &v = sel(c);
                    if (i >= v.size()) continue;
                    v.erase(v.begin() + i);
                    if (still(c, kind, orig, 12, rng)) { s = c; progress = true; }
                }
            };
            shrink([e](Scenario &x) -> std::vector<Op> & { return x.eras[e].tail; });
            for (size_t t = 0; t < s.eras[e].thr.size(); t++)
                shrink([e, t](Scenario &x) -> std::vector<Op> & { return x.eras[e].thr[t]; });
            shrink([e](Scenario &x) -> std::vector<Op> & { return x.eras[e].head; });
        }
    }
    // fewer threads and operations of a whole program (the same in all eras)
    for (bool again = true; again && !over();)
    {
        again = false;
        for (int k = 0; k < 4 && !over(); k++)
        {
            Scenario c = s;
            bool ch = false;
            for (auto &e : c.eras)
                if (e.progT)
                {
                    if (k == 0 && e.progN > 1) { e.progN /= 2; ch = true; }
                    if (k == 1 && e.progN > 1) { e.progN--; ch = true; }
                    if (k == 2 && e.progT > 1) { e.progT--; ch = true; }
                    if (k == 3 && e.progRuns > 1) { e.progRuns--; ch = true; }
                }
            if (ch && still(c, kind, orig, 12, rng)) { s = c; again = true; }
        }
    }
    // remove simplifiable environment
    {
        Scenario c = s, rec;
        c.metaLazy = 0; c.stray = 0; c.fdLimit = 0; c.chunk = 1024;
        for (auto &e : c.eras) e.cfg.plainPoints = e.cfg.plainPoints;
        if (same(run(c, &rec), kind)) s = rec;
    }
    // faults, then switches (ddmin)
    for (size_t e = 0; e < s.eras.size(); e++)
        for (size_t i = s.eras[e].cfg.faults.size(); i-- > 0 && !over();)
        {
            Scenario c = s, rec;
            c.eras[e].cfg.faults.erase(c.eras[e].cfg.faults.begin() + i);
            if (same(run(c, &rec), kind)) s = rec;
        }
    for (int round = 0; round < 3 && !over(); round++)
    {
        size_t before = nsw(s);
        for (size_t e = 0; e < s.eras.size(); e++)
            for (int f = 0; f < MAXF; f++)
            {
                size_t chunk = std::max<size_t>(1, s.eras[e].cfg.sw[f].size() / 2);
                while (!over())
                {
                    for (size_t i = s.eras[e].cfg.sw[f].size(); i > 0 && !over();)
                    {
                        size_t lo = i > chunk ? i - chunk : 0;
                        Scenario c = s, rec;
                        auto &v = c.eras[e].cfg.sw[f];
                        if (i > v.size()) { i = v.size(); continue; }
                        v.erase(v.begin() + lo, v.begin() + i);
                        RunResult r = run(c, &rec);
                        if (same(r, kind) && nsw(c) < nsw(s))
                        {
                            s = c;
                        }
                        i = lo;
                    }
                    if (chunk == 1) break;
                    chunk /= 2;
                }
            }
        if (nsw(s) >= before) break;
    }
    Scenario rec;
    if (same(run(s, &rec), kind)) {}
}

// ---------------------------------------------------------------- main
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}
static std::string hex(u64 x)
{
    char b[32];
    snprintf(b, sizeof b, "%016llx", (unsigned long long)x);
    return b;
}

static void print_history()
{
    for (int i = 0; i < HN; i++) printf("    %s\n", op_text(H[i]).c_str());
}

int main(int argc, char **argv)
{
    std::set_terminate([] { abort(); });
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    std::map<std::string, std::string> a;
    std::string pos;
    for (int i = 2; i < argc; i++)
    {
        std::string s = argv[i];
        if (s.rfind("--", 0) == 0 && i + 1 < argc) { a[s.substr(2)] = argv[i + 1]; i++; }
        else pos = s;
    }
    auto num = [&](const char *k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    init();
    void *h = load_sut(a["sut"].c_str());
    typedef const SutApi *(*get_t)();
    get_t g = (get_t)dlsym(h, "sut_api");
    if (!g) { fprintf(stderr, "psim: no sut_api\n"); return 2; }
    api = g();
    prog_init(H, &HN);

    if (cmd == "replay")
    {
        FILE *f = fopen(pos.c_str(), "r");
        if (!f) { fprintf(stderr, "psim: cannot read %s\n", pos.c_str()); return 2; }
        std::string t;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n);
        fclose(f);
        Scenario s;
        if (!scenario_parse(t, s)) { fprintf(stderr, "psim: bad scenario file\n"); return 2; }
        S.trace = a.count("trace");
        RunResult r = run(s, nullptr);
        printf("hash %s violated %d kind %s\n", hex(r.hash).c_str(), r.violated, r.kind.c_str());
        if (r.violated) printf("detail %s\n", r.detail.c_str());
        if (!a.count("brief")) print_history();
        return r.violated ? 1 : 0;
    }
    std::string prop = a["prop"];
    u64 seed = (u64)num("seed", 1);
    if (cmd == "one")
    {
        u64 idx = strtoull(a["index"].c_str(), nullptr, 10);
        Scenario s = generate(prop, mix2(seed, idx)), rec;
        S.trace = a.count("trace");
        RunResult r = run(s, &rec);
        printf("hash %s violated %d kind %s\n%s\n", hex(r.hash).c_str(), r.violated, r.kind.c_str(), r.detail.c_str());
        print_history();
        printf("%s", scenario_text(rec).c_str());
        return r.violated;
    }
    if (cmd == "hash")
    {
        u64 from = (u64)num("from", 0), n = (u64)num("n", 1000), step = (u64)num("step", 1);
        for (u64 i = from; i < n; i += step)
        {
            Scenario s = generate(prop, mix2(seed, i));
            RunResult r = run(s, nullptr);
            printf("%llu %s %d\n", (unsigned long long)i, hex(r.hash).c_str(), r.violated);
        }
        return 0;
    }
    if (cmd != "run") return 2;
    u64 worker = (u64)num("worker", 0), workers = (u64)num("workers", 1);
    double tlimit = num("time", 10);
    u64 maxRuns = (u64)num("maxruns", 1e18);
    std::string out = a.count("out") ? a["out"] : ".";
    auto t0 = Clk::now();
    std::unordered_set<u64> distinct; // executions with a context switch, a crash or an injected fault
    u64 trivial = 0;
    std::string sample;
    u64 i = worker, nruns = 0;
    int rc = 0;
    std::string vjson;
    double minBudget = num("minimise", 8);
    std::map<std::string, u64> kinds;
    std::set<std::string> known;
    {
        std::stringstream ks(a["known"]);
        std::string k;
        while (std::getline(ks, k, ',')) if (k.size()) known.insert(k);
    }
    u64 knownHits = 0;
    u64 undecided = 0; // runs that gave no usable answer: the search goes on, but without a violation the outcome is an error
    bool keep = a.count("keep"); // development: count violations, do not stop
    for (; nruns < maxRuns && since(t0) < tlimit; i += workers, nruns++)
    {
        Scenario s = generate(prop, mix2(seed, i));
        RunResult r = run(s, nullptr, true);
        if (r.switches || r.crashed || r.faulted) distinct.insert(r.hash);
        else trivial++;
        if (nruns < 2 || (nruns < 50 && r.crashed && sample.size() < 1500))
            sample += (sample.empty() ? "" : ",\n") + std::string("{\"run\":") + std::to_string(i) + ",\"variant\":" + jstr(api->variant_name(s.variant)) + ",\"eras\":" +
                      std::to_string(s.eras.size()) + ",\"ops\":" + std::to_string(HN) + ",\"points\":" + std::to_string(r.steps) + ",\"crashed\":" + (r.crashed ? "true" : "false") +
                      ",\"first_ops\":" + jstr(HN > 2 ? op_text(H[0]) + "; " + op_text(H[HN / 2]) : "") + ",\"hash\":" + jstr(hex(r.hash)) + "}";
        if (!r.violated) continue;
        if (known.count(r.kind)) { knownHits++; continue; }
        kinds[r.kind]++;
        if (keep) { if (kinds[r.kind] == 1) { printf("run %llu: %s: %s\n", (unsigned long long)i, r.kind.c_str(), r.detail.c_str()); } continue; }
        if (r.kind == "harness")
        {
            fprintf(stderr, "psim: harness error: %s\n", r.detail.c_str());
            if (++undecided < 20) continue;
            return 2;
        }
        // gate: the same seed again, then the recorded schedule
        Scenario rec, rec2;
        RunResult r1 = run(s, &rec);
        RunResult r2 = run(s, &rec2);
        if (r1.hash != r.hash || r2.hash != r.hash || !same(r1, r.kind))
        {
            fprintf(stderr, "psim: run %llu is not repeatable (%s)\n", (unsigned long long)i, r.kind.c_str());
            if (++undecided < 20) continue;
            return 2;
        }
        RunResult r3 = run(rec, &rec2);
        if (!same(r3, r.kind) || r3.hash != r.hash)
        {
            fprintf(stderr, "psim: run %llu: recorded schedule does not reproduce %s\n", (unsigned long long)i, r.kind.c_str());
            if (++undecided < 20) continue;
            return 2;
        }
        Scenario m = rec2;
        size_t o0 = nops(m), w0 = nsw(m);
        minimise(m, r.kind, s, minBudget);
        RunResult rm = run(m, nullptr);
        if (!same(rm, r.kind)) { m = rec; rm = run(m, nullptr); }
        std::string path = out + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(i) + ".replay";
        FILE *f = fopen(path.c_str(), "w");
        if (!f) { fprintf(stderr, "psim: cannot write %s\n", path.c_str()); return 2; }
        std::string d = rm.detail;
        std::string cd;
        for (char c : d) { cd += c; if (c == '\n') cd += "# "; }
        fprintf(f, "%s# run index %llu of seed %llu; minimised from %zu operations, %zu switches to %zu operations, %zu switches\n# violation %s hash %s\n# %s\n", scenario_text(m).c_str(),
                (unsigned long long)i, (unsigned long long)seed, o0, w0, nops(m), nsw(m), rm.kind.c_str(), hex(rm.hash).c_str(), cd.c_str());
        fclose(f);
        vjson = "{\"kind\":" + jstr(rm.kind) + ",\"detail\":" + jstr(rm.detail) + ",\"replay\":" + jstr(path) + ",\"hash\":" + jstr(hex(rm.hash)) + ",\"run\":" + std::to_string(i) + "}";
        rc = 1;
        nruns++;
        break;
    }
    if (!rc && undecided) return 2;
    double wall = since(t0);
    if (a.count("hashes"))
        if (FILE *f = fopen(a["hashes"].c_str(), "wb"))
        {
            std::vector<u64> v(distinct.begin(), distinct.end());
            fwrite(v.data(), 8, v.size(), f);
            fclose(f);
        }
    std::ostringstream o;
    Stats &st = S.stats;
    o << "{\"runs\":" << R.runs << ",\"wall\":" << wall << ",\"distinct\":" << distinct.size() << ",\"trivial\":" << trivial << ",\"steps\":" << st.steps << ",\"switches\":" << st.switches
      << ",\"sim_ns\":" << st.simTimeNs << ",\"kinds\":{";
    for (int k = 0; k < K_N; k++) o << (k ? "," : "") << "\"" << kindName[k] << "\":" << st.kinds[k];
    o << "},\"faults\":{";
    for (int k = 0; k < F_N; k++) o << (k ? "," : "") << "\"" << faultName[k] << "\":" << st.faults[k];
    o << "},\"crash_kill\":" << st.crashesKill << ",\"crash_power\":" << st.crashesPower << ",\"lines_lost\":" << st.linesLost << ",\"lines_torn\":" << st.linesTorn
      << ",\"meta_lost\":" << st.metaLost << ",\"stalls\":" << st.stalls << ",\"freezes\":" << st.freezes << ",\"reach\":{\"eras\":" << R.eras << ",\"eras_with_growth\":" << R.grew
      << ",\"crash_with_ops_in_flight\":" << R.crashInFlight << ",\"crash_during_growth\":" << R.crashGrow << ",\"crash_during_recovery\":" << R.crashRecover
      << ",\"crash_during_creation\":" << R.crashCreate << ",\"recoveries\":" << R.recoveries << ",\"recoveries_of_several_tables\":" << R.multiTableRecover << ",\"ops\":" << R.ops
      << ",\"ops_in_flight_at_crash\":" << R.pendingOps << ",\"ops_failed_by_fault\":" << R.threw << ",\"sizes_checked\":" << R.quietSizes << ",\"stalled_runs\":" << R.stalledRuns
      << ",\"runs_with_faults\":" << R.faultRuns << ",\"openings_that_failed\":" << R.openFailed << ",\"runs_out_of_simulated_memory\":" << R.exhausted << ",\"checker_overflow\":" << R.overflow << ",\"stale_dirty_clears\":" << staleClears << ",\"program_runs\":" << PS.runs << ",\"program_contents_compared\":" << PS.probes << ",\"program_sizes_compared\":" << PS.sizes << ",\"worker_shares_compared\":" << PS.shares
      << ",\"load_phases_compared\":" << PS.loads << ",\"count_reports_compared\":" << PS.prints << ",\"runs_after_a_crash\":" << PS.resumed
      << ",\"runs_hitting_a_known_finding\":" << knownHits << "}";
    if (keep) { o << ",\"kindcount\":{"; bool f = true; for (auto &k : kinds) { o << (f ? "" : ",") << jstr(k.first) << ":" << k.second; f = false; } o << "}"; }
    o << ",\"samples\":[" << sample << "]";
    if (rc) o << ",\"violation\":" << vjson;
    o << "}";
    printf("%s\n", o.str().c_str());
    return rc;
}
