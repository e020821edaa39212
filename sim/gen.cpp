// Scenario generation: one seed and one property name determine one scenario.
#include <set>
#include "scenario.hpp"
#include <algorithm>
#include <string.h>
#include <map>
using namespace sim;

namespace
{
struct W { int code; double w; };
struct Prof
{
    std::vector<W> mix;
    int thrMin = 2, thrMax = 3, opsMin = 2, opsMax = 5;
    int hotMin = 1, hotMax = 3;
    double fillP = 0.15;           // an operation goes to a filler key (insert-like)
    double growP = 0.4;            // the run is set up so that the table grows
    std::vector<int> variants = {0, 1, 1, 2, 3, 4};
    double crashP = 0, powerP = 0.7;
    int crashEras = 1;             // eras that may end in a crash
    double recWorkP = 0.2;         // a recovered era runs workers
    double recCrashP = 0.15;       // a recovery itself is hit
    double stallP = 0, plainP = 0.1;
    double faultP = 0;
    double openFaultP = 0;         // resources fail while the map is created or recovered
    bool headPut = true;
    bool fresh = false;            // C13
    bool lazyMeta = true;
    int extraReopen = 0;
    double deepP = 0;              // very many growths
    bool tailOps = false;          // updates at rest after recovery
};

struct Gen
{
    Rng r;
    Scenario sc;
    Prof p;
    u64 nextVal = 1, valUp = 0;
    std::vector<u64> hot, fill;
    std::vector<std::pair<u64, u64>> written; // key, value
    size_t fillNext = 0;
    bool adapter = false, chm = false;
    std::vector<u64> counters;
    Gen(u64 s) : r(s) {}

    u64 newVal(u64 k)
    {
        u64 v = (nextVal++) << 3 | (r.chance(0.5) ? valUp : 0);
        written.push_back({k, v});
        return v;
    }
    u64 someVal(u64 k) // a value that may well be current
    {
        std::vector<u64> c;
        for (auto &w : written) if (w.first == k) c.push_back(w.second);
        if (c.empty() || r.chance(0.1)) return (nextVal++) << 3;
        if (r.chance(0.6)) return c[c.size() - 1 - r.below(std::min<size_t>(c.size(), 3))];
        return c[r.below(c.size())];
    }
    int pickCode()
    {
        double t = 0;
        for (auto &m : p.mix) t += m.w;
        double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * t;
        for (auto &m : p.mix) { if (x < m.w) return m.code; x -= m.w; }
        return p.mix.back().code;
    }
    Op mk(int code, u64 k)
    {
        Op o{code, k, 0, 0};
        switch (code)
        {
        case OP_PUT: case OP_PIA: o.a = (code == OP_PUT && r.chance(0.08)) ? someVal(k) : newVal(k); break;
        case OP_H_INSERT: o.a = newVal(k); o.b = r.below(5); break;
        case OP_H_ASSIGN: o.a = newVal(k); break;
        case OP_GET: if (chm) o.b = r.below(2); break;
        case OP_REPLACE: o.a = someVal(k); o.b = r.chance(0.05) ? o.a : newVal(k); break;
        case OP_REMOVE_EQ: o.a = someVal(k); break;
        case OP_INC:
            // The value given along with the function: increment takes no notice of it, whichever it is.
            if (!chm && !adapter && r.chance(0.25)) o.a = r.chance(0.5) ? someVal(k) : (1 + r.below(6)) * 8;
            break;
        default: break;
        }
        return o;
    }
    Op randomOp()
    {
        if (chm)
        {
            if (r.chance(p.fillP) && fillNext < fill.size()) return mk(r.pick({OP_H_INSERT, OP_H_ASSIGN}), fill[fillNext++]);
            if (r.chance(0.08) && fillNext > 0) return mk(r.pick({OP_GET, OP_REMOVE, OP_CONTAINS, OP_H_ASSIGN}), fill[r.below(fillNext)]);
            return mk(pickCode(), hot[r.below(hot.size())]);
        }
        if (r.chance(p.fillP) && fillNext < fill.size())
        {
            u64 k = fill[fillNext++];
            int code = adapter ? (r.chance(0.5) ? OP_A_INSERT : OP_A_INC) : r.pick({OP_PUT, OP_PUT, OP_PIA, OP_INC});
            if (adapter && code == OP_A_INC) { if (std::find(counters.begin(), counters.end(), k) == counters.end()) code = OP_A_INSERT; }
            return mk(code, k);
        }
        if (r.chance(0.05) && fillNext > 0)
        {
            u64 k = fill[r.below(fillNext)];
            if (adapter) return mk(r.pick({OP_A_CONTAINS, OP_A_ERASE, OP_A_GET}), k);
            return mk(r.pick({OP_GET, OP_REMOVE, OP_CONTAINS}), k);
        }
        u64 k = hot[r.below(hot.size())];
        int code = pickCode();
        if (adapter)
        {
            bool ctr = std::find(counters.begin(), counters.end(), k) != counters.end();
            if (ctr && code == OP_A_INSERT) code = OP_A_INC;
            if (!ctr && code == OP_A_INC) code = OP_A_INSERT;
        }
        return mk(code, k);
    }
    void strategy(EraCfg &c, int thr, u64 est)
    {
        c.schedSeed = r.next();
        c.envSeed = r.next();
        double base = r.pick({0.005, 0.02, 0.05, 0.12, 0.3});
        for (int k = 0; k < K_N; k++)
        {
            double f = r.pick({0.2, 1.0, 1.0, 3.0});
            c.p[k] = std::min(0.8, base * f);
        }
        if (r.chance(0.5)) c.p[K_STORE] *= 0.05; // table initialisation
        if (r.chance(0.5)) c.p[K_FLUSH] *= 0.3;
        c.p[K_YIELD] = std::max(c.p[K_YIELD], 0.3);
        c.plainPoints = r.chance(p.plainP);
        c.p[K_PLAIN] = base * 0.3;
        int s = (int)r.below(10);
        if (thr <= 1) c.strategy = 3;
        else if (s < 5) c.strategy = 0;
        else if (s < 8) { c.strategy = 2; c.freezeP = r.pick({0.003, 0.01, 0.03}); c.freezeMin = 10; c.freezeMax = (u32)r.pick({60, 300, 1500}); }
        else
        {
            c.strategy = 1;
            int d = (int)r.range(1, 4);
            for (int i = 0; i < d; i++) c.pctChange.push_back(1 + r.below(est));
            std::sort(c.pctChange.begin(), c.pctChange.end());
            c.maxRun = 3000;
        }
    }
    u64 est(const Era &e, bool grow)
    {
        u64 ops = 0;
        for (auto &t : e.thr) ops += t.size();
        return 20 + ops * 30 + (grow ? 350 : 0);
    }
    void crash(Era &e, u64 es, bool atCreate)
    {
        e.cfg.crashMode = r.chance(p.powerP) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        e.cfg.crashRel = !atCreate;
        if (r.chance(0.55)) e.cfg.crashStep = 1 + r.below(es);
        else
        {
            e.cfg.crashKind = r.pick({(int)K_FLUSH, (int)K_FENCE, (int)K_RMW, (int)K_RMW, (int)K_OP, (int)K_SYS});
            u64 m = e.cfg.crashKind == K_RMW ? es / 5 : e.cfg.crashKind == K_SYS ? 8 : e.cfg.crashKind == K_OP ? 16 : es / 14;
            e.cfg.crashNth = 1 + r.below(m + 2);
        }
    }
    void readAll(std::vector<Op> &v, bool size)
    {
        std::vector<u64> ks(hot);
        ks.insert(ks.end(), fill.begin(), fill.begin() + fillNext);
        if (chm && r.chance(0.6)) for (u64 k : ks) if (ks.size() <= 24 || r.chance(0.02)) v.push_back({OP_H_SCAN, k, 0, 0});
        for (u64 k : ks) v.push_back({adapter ? OP_A_GET : OP_GET, k, 0, 0});
        if (adapter) for (u64 k : ks) v.push_back({OP_A_CONTAINS, k, 0, 0});
        if (size) { v.push_back({OP_SIZE, 0, 0, 0}); v.push_back({OP_EMPTY, 0, 0, 0}); }
    }
};

Prof profile(const std::string &id)
{
    Prof p;
    p.mix = {{OP_GET, 3}, {OP_CONTAINS, 1}, {OP_PUT, 3}, {OP_PIA, 2}, {OP_REPLACE, 2}, {OP_REMOVE, 2}, {OP_REMOVE_EQ, 1}, {OP_INC, 1.5}};
    if (id == "C01") { p.growP = 0.25; p.thrMax = 4; }
    else if (id == "C02") { p.deepP = 0.002; p.growP = 1; p.fillP = 0.3; p.thrMax = 4; p.opsMax = 6; }
    else if (id == "C03")
    {
        p.mix = {{OP_INC, 8}, {OP_GET, 1.5}, {OP_REMOVE, 0.6}, {OP_PUT, 0.3}};
        p.growP = 0.6; p.thrMax = 4; p.hotMax = 2;
    }
    else if (id == "C04")
    {
        p.mix = {{OP_PIA, 3}, {OP_REPLACE, 3}, {OP_REMOVE, 2}, {OP_REMOVE_EQ, 3}, {OP_PUT, 1}, {OP_GET, 0.7}};
        p.growP = 0.45; p.thrMax = 4; p.hotMax = 2;
    }
    else if (id == "C05") { p.crashP = 1; p.growP = 0.4; p.mix = {{OP_GET, 1}, {OP_PUT, 4}, {OP_PIA, 2}, {OP_REPLACE, 2}, {OP_REMOVE, 2}, {OP_REMOVE_EQ, 1}, {OP_INC, 2}}; p.thrMin = 1; }
    else if (id == "C06") { p.crashP = 1; p.growP = 0.35; p.mix[0].w = 5; p.mix[1].w = 2; p.crashEras = 2; }
    else if (id == "C07") { p.deepP = 0.002; p.crashP = 1; p.growP = 1; p.fillP = 0.35; p.thrMin = 1; p.recCrashP = 0.2; p.recWorkP = 0.15; }
    else if (id == "C08") { p.openFaultP = 0.25; p.deepP = 0.002; p.crashP = 0.9; p.growP = 0.8; p.fillP = 0.3; p.recCrashP = 0.8; p.crashEras = 2; p.extraReopen = 2; p.recWorkP = 0.1; p.thrMin = 1; }
    else if (id == "C09") { p.openFaultP = 0.15; p.deepP = 0.002; p.crashP = 1; p.growP = 0.8; p.fillP = 0.3; p.recWorkP = 1; p.crashEras = 3; p.recCrashP = 0.1; p.tailOps = true; p.opsMax = 4; }
    else if (id == "C10") { p.crashP = 0.35; p.growP = 0.5; p.fillP = 0.25; p.mix[5].w = 3; p.thrMax = 4; }
    else if (id == "C11") { p.stallP = 0.8; p.growP = 0.75; p.fillP = 0.3; p.thrMin = 2; p.thrMax = 4; p.plainP = 0.2; }
    else if (id == "C12") { p.openFaultP = 0.3; p.faultP = 1; p.growP = 1; p.fillP = 0.5; p.thrMin = 1; p.crashP = 0.25; p.tailOps = true; p.lazyMeta = true; }
    else if (id == "C13") { p.openFaultP = 0.3; p.fresh = true; p.growP = 0.7; p.fillP = 0.3; p.crashP = 0.7; p.recWorkP = 0.2; }
    return p;
}
}

static Scenario gen_words(u64 seed, const std::string &prop)
{
    Gen g(mix2(seed, 0x57));
    Scenario sc;
    sc.prop = prop;
    sc.seed = seed;
    sc.variant = 7;
    sc.metaLazy = 0;
    int words = (int)g.r.range(1, 3), eras = (int)g.r.range(2, 3);
    // two words may share a cache line or not
    std::vector<u64> ws;
    for (int i = 0; i < words; i++) ws.push_back(g.r.chance(0.5) ? (u64)i : (u64)i * 8);
    std::vector<std::vector<u64>> vals(64);
    for (int e = 0; e < eras; e++)
    {
        Era er;
        er.recover = e > 0;
        for (u64 w : ws) er.head.push_back({OP_W_READ, w, 0, 0});
        if (e + 1 < eras)
        {
            int thr = (int)g.r.range(2, 4);
            for (int t = 0; t < thr; t++)
            {
                std::vector<Op> ops;
                int n = (int)g.r.range(2, 6);
                for (int i = 0; i < n; i++)
                {
                    u64 w = ws[g.r.below(ws.size())];
                    if (g.r.chance(0.35)) ops.push_back({OP_W_READ, w, 0, 0});
                    else
                    {
                        auto &v = vals[w];
                        u64 exp = 0;
                        if (!v.empty() && g.r.chance(0.85)) exp = v[v.size() - 1 - g.r.below(std::min<size_t>(v.size(), 3))];
                        u64 nv = (g.nextVal++) << 3;
                        v.push_back(nv);
                        ops.push_back({OP_W_CAS, w, exp, nv});
                    }
                }
                er.thr.push_back(ops);
            }
            g.strategy(er.cfg, thr, 200);
            for (u64 w : ws) er.tail.push_back({OP_W_READ, w, 0, 0});
            g.p.powerP = 0.85;
            if (g.r.chance(0.85)) g.crash(er, 150, false);
            else { er.endMode = g.r.chance(0.7) ? CR_POWER : CR_KILL; er.crashSeed = g.r.next(); }
        }
        else g.strategy(er.cfg, 1, 100);
        sc.eras.push_back(er);
    }
    return sc;
}

static Scenario gen_adapter(u64 seed, const std::string &prop)
{
    Gen g(mix2(seed, 0x58));
    g.sc.prop = prop;
    g.sc.seed = seed;
    g.adapter = true;
    Rng &r = g.r;
    g.sc.variant = r.chance(0.7) ? 5 : 6;
    bool stl = g.sc.variant == 6;
    g.p.mix = {{OP_A_INSERT, 3}, {OP_A_ERASE, 2.5}, {OP_A_CONTAINS, 1.5}, {OP_A_GET, 1.5}, {OP_A_INC, 3}};
    g.p.growP = 0.5;
    g.p.thrMax = 4;
    g.p.fillP = 0.25;
    g.p.plainP = stl ? 0.9 : 0.1;
    int nh = (int)r.range(1, 3);
    u64 base = r.pick({(u64)0, (u64)0, (u64)1, (u64)100});
    u64 up = r.chance(0.25) ? 1ull << r.range(28, 59) : 0;
    for (int i = 0; i < nh; i++)
    {
        u64 k = up && i && r.chance(0.5) ? g.hot[i - 1] ^ up : (base + i) | (r.chance(0.5) ? up : 0);
        g.hot.push_back(k);
        if (r.chance(0.5)) g.counters.push_back(k);
    }
    for (int i = 0; i < 24; i++)
    {
        u64 k = (base + 8 + i) | (r.chance(0.5) ? up : 0);
        g.fill.push_back(k);
        if (r.chance(0.3)) g.counters.push_back(k);
    }
    bool grow = r.chance(g.p.growP);
    g.sc.cap = grow ? 3 : (int)r.pick({4, 6});
    Era e;
    int pre = grow ? (int)r.range(4, 8) : (int)r.range(0, 3);
    for (int i = 0; i < pre; i++)
    {
        u64 k = r.chance(0.3) ? g.hot[r.below(g.hot.size())] : g.fill[g.fillNext++];
        bool ctr = std::find(g.counters.begin(), g.counters.end(), k) != g.counters.end();
        e.head.push_back(g.mk(r.chance(0.1) ? OP_A_ERASE : ctr ? OP_A_INC : OP_A_INSERT, k));
    }
    int thr = r.chance(0.03) ? (int)r.range(5, 12) : (int)r.range(2, g.p.thrMax);
    for (int t = 0; t < thr; t++)
    {
        std::vector<Op> ops;
        int n = thr > 4 ? (int)r.range(1, 3) : (int)r.range(2, 6);
        for (int i = 0; i < n; i++) ops.push_back(g.randomOp());
        e.thr.push_back(ops);
    }
    g.readAll(e.tail, true);
    g.strategy(e.cfg, thr, 300);
    g.sc.eras.push_back(e);
    if (!stl && r.chance(0.4))
    {
        g.sc.eras[0].endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        Era e2;
        e2.recover = 1;
        g.readAll(e2.tail, true);
        g.strategy(e2.cfg, 1, 100);
        g.sc.eras.push_back(e2);
    }
    return g.sc;
}

// The PMDK-backed container over the simulated libpmemobj: C15 (schedules), C16 (crashes).
static Scenario gen_pm(u64 seed, const std::string &prop)
{
    Gen g(mix2(seed, prop == "C15" ? 0x5A : 0x5B));
    g.sc.prop = prop;
    g.sc.seed = seed;
    g.adapter = true;
    Rng &r = g.r;
    bool crash = prop == "C16";
    g.p.mix = {{OP_A_INSERT, 3}, {OP_A_ERASE, 2.5}, {OP_A_CONTAINS, 1}, {OP_A_GET, 2}};
    if (crash) { g.p.mix[2].w = 0.5; g.p.mix[3].w = 0.7; }
    g.p.fillP = r.pick({0.1, 0.25, 0.5});
    g.p.plainP = 0.15;
    g.p.powerP = 0.75;
    g.sc.metaLazy = r.chance(0.4);
    // Keys that share a bucket, or share a parent bucket that has to be split, or neither.
    u64 base = 1 + r.below(4), stride = r.pick({(u64)1, (u64)2, (u64)64, (u64)128, (u64)256, (u64)512});
    u64 up = r.chance(0.2) ? 1ull << r.range(31, 62) : 0;
    auto key = [&](u64 i) { return (r.chance(0.75) ? base + i * stride : base + i) | (r.chance(0.5) ? up : 0); };
    auto add = [&](std::vector<u64> &v, u64 k) { if (std::find(g.hot.begin(), g.hot.end(), k) == g.hot.end() && std::find(g.fill.begin(), g.fill.end(), k) == g.fill.end()) v.push_back(k); };
    int nh = (int)r.range(1, 3);
    for (int i = 0; i < nh; i++) add(g.hot, key((u64)i));
    bool big = r.chance(crash ? 0.02 : 0.03); // enough keys for the second growth
    for (u64 i = 0; g.fill.size() < (big ? 262 : 16); i++) add(g.fill, big ? 1 + i : key(4 + i));
    int eras = crash ? (int)r.range(1, 3) : 1;
    for (int ei = 0; ei < eras; ei++)
    {
        Era e;
        e.recover = ei > 0 ? (r.chance(0.5) ? 1 : 2) : 0;
        if (ei == 0)
        {
            int pre = big ? (int)r.range(249, 256) : (int)r.range(0, 5);
            for (int i = 0; i < pre; i++)
            {
                u64 k = r.chance(0.3) && !big ? g.hot[r.below(g.hot.size())] : g.fill[g.fillNext < g.fill.size() ? g.fillNext++ : 0];
                e.head.push_back(g.mk(r.chance(0.1) && !big ? OP_A_ERASE : OP_A_INSERT, k));
            }
        }
        else if (r.chance(0.6)) g.readAll(e.head, r.chance(0.5));
        int thr = r.chance(0.03) ? (int)r.range(5, 12) : (int)r.range(crash ? 1 : 2, 4);
        if (ei > 0 && r.chance(0.2)) thr = 0;
        for (int t = 0; t < thr; t++)
        {
            std::vector<Op> ops;
            int n = thr > 4 ? (int)r.range(1, 3) : (int)r.range(2, thr > 2 ? 5 : 7);
            for (int i = 0; i < n; i++) ops.push_back(g.randomOp());
            e.thr.push_back(ops);
        }
        g.readAll(e.tail, true);
        if (r.chance(0.3))
        {
            for (int j = 0; j < 4; j++) e.tail.push_back(g.randomOp());
            g.readAll(e.tail, true);
        }
        e.tail.push_back({OP_X_LEAKS, 0, 0, 0});
        u64 es = 30 + (u64)thr * 5 * 60;
        g.strategy(e.cfg, thr, es);
        if (r.chance(0.15)) { e.faultsInWorkers = 1; e.cfg.faultP[F_PMALLOC] = r.pick({0.05, 0.2, 0.5}); }
        if (crash)
        {
            if (r.chance(0.1)) g.crash(e, ei ? 150 : 700, true);
            else if (r.chance(0.9)) g.crash(e, es, false);
        }
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        if (e.crashSeed == 1) e.crashSeed = r.next();
        g.sc.eras.push_back(e);
    }
    int n = crash ? (int)r.range(1, 2) : r.chance(0.2) ? 1 : 0;
    for (int i = 0; i < n; i++)
    {
        Era e;
        e.recover = r.chance(0.5) ? 1 : 2;
        g.readAll(e.tail, true);
        if (r.chance(0.5))
        {
            for (int j = 0; j < 6; j++) e.tail.push_back(g.randomOp());
            g.readAll(e.tail, true);
        }
        e.tail.push_back({OP_X_LEAKS, 0, 0, 0});
        g.strategy(e.cfg, 1, 200);
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        if (crash && i + 1 < n && r.chance(0.5)) g.crash(e, 150, true);
        g.sc.eras.push_back(e);
    }
    // Whether the pool exists is certain only when no earlier creation was cut short.
    for (size_t i = 1; i < g.sc.eras.size(); i++)
        if (g.sc.eras[i].recover == 2 && g.sc.eras[0].cfg.crashMode && !g.sc.eras[0].cfg.crashRel) g.sc.eras[i].recover = 1;
    return g.sc;
}

// The persistent concurrent hash map's own interface: C28, with and without crashes.
static Scenario gen_chm(u64 seed)
{
    Gen g(mix2(seed, 0x5E));
    g.sc.prop = "C28";
    g.sc.seed = seed;
    g.chm = true;
    Rng &r = g.r;
    g.sc.variant = r.pick({0, 0, 1, 2});
    bool text = g.sc.variant == 2, crash = r.chance(0.5);
    g.p.mix = {{OP_GET, 2}, {OP_CONTAINS, 0.7}, {OP_H_INSERT, 2}, {OP_H_ASSIGN, 2.5}, {OP_REMOVE, 2}, {OP_REPLACE, 2}, {OP_INC, 2}};
    if (r.chance(0.6))
    {
        std::vector<W> m;
        for (auto &x : g.p.mix) if (r.chance(0.65)) m.push_back(x);
        bool in = false;
        for (auto &x : m) if (x.code == OP_H_INSERT || x.code == OP_H_ASSIGN || x.code == OP_INC) in = true;
        if (in && m.size() > 1) g.p.mix = m;
    }
    if (text) for (auto &x : g.p.mix) if (x.code == OP_H_INSERT || x.code == OP_INC) x.code = OP_H_ASSIGN;
    g.p.fillP = r.pick({0.1, 0.25, 0.5});
    g.p.plainP = 0.3;
    g.p.powerP = 0.75;
    g.sc.metaLazy = r.chance(0.4);
    u64 base = 1 + r.below(4), stride = r.pick({(u64)1, (u64)2, (u64)64, (u64)128, (u64)256, (u64)512});
    u64 up = !text && r.chance(0.2) ? 1ull << r.range(31, 62) : 0;
    std::vector<u64> keys;
    bool big = !text && r.chance(0.02);
    for (u64 i = 0; keys.size() < (big ? 266 : 18); i++)
    {
        u64 k = big ? 1 + i : (base + i * (r.chance(0.75) ? stride : 1)) | (r.chance(0.5) ? up : 0);
        if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
    }
    int nh = (int)r.range(1, 3);
    g.hot.assign(keys.begin(), keys.begin() + nh);
    g.fill.assign(keys.begin() + nh, keys.end());
    auto fixup = [&](std::vector<Op> &v) { if (text) for (auto &o : v) if (o.code == OP_H_INSERT || o.code == OP_INC) { o.code = OP_H_ASSIGN; if (!o.a) o.a = g.newVal(o.k); o.b = 0; } };
    auto rest = [&](Era &e) {
        if (r.chance(0.3)) e.tail.push_back({OP_X_LEAKS, g.hot[0], r.chance(0.5) ? r.next() | 1 << 20 : 0, 0});
        g.readAll(e.tail, true);
        if (r.chance(0.35))
        {
            if (r.chance(0.2)) e.tail.push_back({OP_H_REHASH, 0, r.pick({(u64)0, (u64)1, (u64)64, (u64)255}), 0});
            if (r.chance(0.2)) e.tail.push_back({OP_H_CLEAR, 0, 0, 0});
            if (r.chance(0.4) && !big) for (int n = (int)r.range(1, 3); n > 0; n--) e.tail.push_back({OP_H_WHOLE, 0, r.next(), 0});
            if (r.chance(0.5)) for (int j = 0; j < 5; j++) e.tail.push_back(g.randomOp());
            g.readAll(e.tail, true);
        }
        e.tail.push_back({OP_X_LEAKS, 0, 0, 0});
        fixup(e.tail);
    };
    int eras = crash ? (int)r.range(1, 3) : 1;
    for (int ei = 0; ei < eras; ei++)
    {
        Era e;
        e.recover = ei > 0 ? (r.chance(0.5) ? 1 : 2) : 0;
        if (ei == 0)
        {
            int pre = big ? (int)r.range(249, 256) : (int)r.range(0, 5);
            for (int i = 0; i < pre; i++)
            {
                u64 k = r.chance(0.3) && !big ? g.hot[r.below(g.hot.size())] : g.fill[g.fillNext < g.fill.size() ? g.fillNext++ : 0];
                e.head.push_back(g.mk(r.pick({OP_H_INSERT, OP_H_ASSIGN}), k));
            }
        }
        else if (r.chance(0.6)) g.readAll(e.head, r.chance(0.5));
        int thr = r.chance(0.03) ? (int)r.range(5, 10) : (int)r.range(crash ? 1 : 2, 4);
        if (ei > 0 && r.chance(0.2)) thr = 0;
        for (int t = 0; t < thr; t++)
        {
            std::vector<Op> ops;
            int n = thr > 4 ? (int)r.range(1, 3) : (int)r.range(2, thr > 2 ? 5 : 7);
            for (int i = 0; i < n; i++) ops.push_back(g.randomOp());
            if (r.chance(text ? 0.35 : 0.12)) ops.insert(ops.begin() + (long)r.below(ops.size() + 1), Op{OP_H_DEFRAG, 0, r.pick({(u64)0, (u64)0, (u64)0, (u64)20}), r.pick({(u64)100, (u64)100, (u64)50, (u64)1})});
            fixup(ops);
            e.thr.push_back(ops);
        }
        fixup(e.head);
        rest(e);
        u64 es = 30 + (u64)thr * 5 * 60;
        g.strategy(e.cfg, thr, es);
        if (r.chance(0.15)) { e.faultsInWorkers = 1; e.cfg.faultP[F_PMALLOC] = r.pick({0.05, 0.2, 0.5}); }
        if (crash)
        {
            if (r.chance(0.1)) g.crash(e, ei ? 150 : 700, true);
            else if (r.chance(0.9)) g.crash(e, es, false);
        }
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        if (e.crashSeed == 1) e.crashSeed = r.next();
        g.sc.eras.push_back(e);
    }
    int n = crash ? (int)r.range(1, 2) : r.chance(0.2) ? 1 : 0;
    for (int i = 0; i < n; i++)
    {
        Era e;
        e.recover = r.chance(0.5) ? 1 : 2;
        rest(e);
        g.strategy(e.cfg, 1, 200);
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        if (crash && r.chance(0.3)) g.crash(e, r.chance(0.5) ? 150 : 600, true);
        g.sc.eras.push_back(e);
    }
    if (g.sc.eras.back().cfg.crashMode)
    {
        Era e;
        e.recover = 1;
        g.readAll(e.tail, true);
        g.strategy(e.cfg, 1, 200);
        g.sc.eras.push_back(e);
    }
    for (size_t i = 1; i < g.sc.eras.size(); i++)
        if (g.sc.eras[i].recover == 2 && g.sc.eras[0].cfg.crashMode && !g.sc.eras[0].cfg.crashRel) g.sc.eras[i].recover = 1;
    return g.sc;
}

// Persistent containers and transactions: C29.  Each worker has a domain of its own.
static Scenario gen_box(u64 seed)
{
    enum { KINDS = 10, MODES = 11, READ = 12 };
    Gen g(mix2(seed, 0x5F));
    g.sc.prop = "C29";
    g.sc.seed = seed;
    g.p.plainP = 0.25;
    g.p.powerP = 0.75;
    Rng &r = g.r;
    g.sc.metaLazy = r.chance(0.4);
    u64 mask = 0;
    if (r.chance(0.3)) mask = (1 << KINDS) - 1;
    else for (int n = (int)r.range(1, 3); n > 0; n--) mask |= 1 << r.below(KINDS);
    double w[MODES] = {4, 4, 1.5, 1, 1.5, 0.7, 0.7, 0.7, 0.7, 0.7, 0.5}, sum = 0;
    for (int i = 1; i < MODES; i++) if (r.chance(0.3)) w[i] = 0;
    if (r.chance(0.2)) w[0] = 0.5;
    for (double x : w) sum += x;
    auto step = [&](u64 dom) {
        double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * sum;
        u64 m = 0;
        while (m + 1 < MODES && x >= w[m]) x -= w[m++];
        return Op{OP_X_DO, dom, r.next(), m | mask << 8};
    };
    int doms = r.chance(0.5) ? 1 : (int)r.range(2, 3);
    bool crash = r.chance(0.7);
    auto rest = [&](Era &e) {
        auto look = [&] {
            for (int d = 0; d < 3; d++) if (d < doms || r.chance(0.05)) e.tail.push_back({OP_X_DO, (u64)d, 0, READ | mask << 8});
            e.tail.push_back({OP_X_LEAKS, r.below((u64)doms), r.chance(0.5) ? r.next() | 1 << 20 : 0, 0});
        };
        look();
        if (r.chance(0.5))
        {
            for (int n = (int)r.range(1, 6); n > 0; n--) e.tail.push_back(step(r.below(doms)));
            look();
        }
    };
    auto era = [&](int ei, bool mayCrash, bool last) {
        Era e;
        e.recover = ei ? (r.chance(0.5) ? 1 : 2) : 0;
        if (ei == 0 || r.chance(0.3)) for (int d = 0; d < doms; d++) for (int n = (int)r.below(ei ? 2 : 6); n > 0; n--) e.head.push_back({OP_X_DO, (u64)d, r.next(), (r.chance(0.5) ? 0 : 1) | mask << 8});
        else if (r.chance(0.5)) for (int d = 0; d < doms; d++) e.head.push_back({OP_X_DO, (u64)d, 0, READ | mask << 8});
        int thr = last ? 0 : doms;
        for (int t = 0; t < thr; t++)
        {
            std::vector<Op> ops;
            for (int n = (int)r.range(1, thr > 1 ? 4 : 8); n > 0; n--) ops.push_back(step(t));
            e.thr.push_back(ops);
        }
        rest(e);
        u64 es = 40 + (u64)thr * 4 * 80;
        g.strategy(e.cfg, thr, es);
        if (!last && r.chance(0.2)) { e.faultsInWorkers = 1; e.cfg.faultP[F_PMALLOC] = r.pick({0.02, 0.05, 0.2, 0.5}); }
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        if (mayCrash && crash)
        {
            if (last ? r.chance(0.2) : r.chance(0.1)) g.crash(e, ei ? 150 : 900, true);
            else if (!last && r.chance(0.9)) g.crash(e, es, false);
        }
        g.sc.eras.push_back(e);
    };
    int work = crash ? (int)r.range(1, 3) : 1, more = crash ? (int)r.range(1, 2) : (int)r.below(2), ei = 0;
    for (; ei < work; ei++) era(ei, true, false);
    for (int i = 0; i < more; i++) era(ei++, true, true);
    if (g.sc.eras.back().cfg.crashMode) era(ei++, false, true);
    for (size_t i = 1; i < g.sc.eras.size(); i++)
        if (g.sc.eras[i].recover == 2 && g.sc.eras[0].cfg.crashMode && !g.sc.eras[0].cfg.crashRel) g.sc.eras[i].recover = 1;
    return g.sc;
}

// Locks in persistent memory, and transactions that hold them: C30.
static Scenario gen_lock(u64 seed)
{
    Gen g(mix2(seed, 0x10C));
    g.sc.prop = "C30";
    g.sc.seed = seed;
    g.p.plainP = 0.3;
    g.p.powerP = 0.75;
    Rng &r = g.r;
    g.sc.metaLazy = r.chance(0.4);
    bool crash = r.chance(0.6), queues = r.chance(0.35), cells = !queues || r.chance(0.3);
    std::vector<u64> cs;
    for (int n = (int)r.range(1, 2); n > 0; n--) cs.push_back(r.below(5));
    double wait = r.chance(0.3) ? 0.6 : 0.15, look = r.pick({0.1, 0.3, 0.6});
    auto step = [&] {
        u64 c = cs[r.below(cs.size())], m;
        if (r.chance(look)) m = r.chance(0.04) ? 7 : r.chance(0.5) ? r.below(4) : r.below(7);
        else m = 0;
        if (m || r.chance(look / 3)) return Op{OP_L_READ, c, m | r.next() << 8, 0};
        m = r.chance(wait) ? 3 + r.below(2) : r.chance(0.5) ? r.below(3) : 5;
        return Op{OP_L_ADD, c, m | r.next() << 8, 0};
    };
    auto rest = [&](Era &e) {
        for (u64 c : cs) if (cells) e.tail.push_back({OP_L_READ, c, r.below(4) | r.next() << 8, 0});
        if (cells && r.chance(0.4)) for (int n = (int)r.range(1, 5); n > 0; n--) e.tail.push_back(step());
        for (u64 q = 0; q < 4; q++) if (queues && r.chance(0.7)) e.tail.push_back({OP_L_READ, 8 + q, 0, 0});
    };
    // A queue holds so many at most, or (0) as many as there are; what is taken with a deadline may not be taken at all.
    u64 room[2] = {r.chance(0.7) ? r.range(1, 3) : 0, r.chance(0.5) ? r.range(1, 2) : 0};
    auto era = [&](int ei, bool mayCrash, bool last) {
        Era e;
        e.recover = ei ? (r.chance(0.5) ? 1 : 2) : 0;
        if (ei == 0 || r.chance(0.3)) for (int n = (int)r.below(3); cells && n > 0; n--) e.head.push_back(step());
        int thr = last ? 0 : (int)r.range(2, queues ? 5 : 4);
        e.thr.resize((size_t)thr);
        bool faults = !queues && !last && r.chance(0.15);
        if (cells) for (auto &t : e.thr) for (int n = (int)r.range(queues ? 0 : 1, thr > 2 ? 3 : 5); n > 0; n--) t.push_back(step());
        // Some threads only put and some only take; no fewer are put than taken, and as many if the room is limited.
        if (queues && thr)
            for (u64 q = 0; q < (r.chance(0.3) ? 2u : 1u); q++)
            {
                std::vector<int> from, to;
                for (int t = 0; t < thr; t++) (t * 2 < thr ? from : to).push_back(t);
                int n = (int)r.range(1, 6), m = room[q] ? n : (int)r.range(0, n);
                bool all = !room[q] && r.chance(0.3); // all with a deadline: then there may be too few to take
                if (all) m += (int)r.range(1, 3);
                u64 space = room[q] ? room[q] : 255;
                auto where = [&](const std::vector<int> &v) -> std::vector<Op> & { return e.thr[(size_t)v[r.below(v.size())]]; };
                for (; n > 0; n--) where(from).push_back({OP_L_ADD, 8 + 2 * q, r.next() << 8, space});
                for (; m > 0; m--) where(to).push_back({OP_L_ADD, 9 + 2 * q, r.next() << 8, space | (all || (!room[q] && r.chance(0.4)) ? 256u : 0u)});
                if (r.chance(0.3)) where(to).push_back({OP_L_READ, 8 + 2 * q + r.below(2), 0, 0});
            }
        rest(e);
        u64 es = 60 + (u64)thr * 3 * 60;
        g.strategy(e.cfg, thr, es);
        e.cfg.stallStep = 0;
        if (faults) { e.faultsInWorkers = 1; e.cfg.faultP[F_PLOCK] = r.pick({0.03, 0.1, 0.3}); if (r.chance(0.3)) e.cfg.faultP[F_PMALLOC] = 0.1; }
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        if (mayCrash && crash)
        {
            if (last ? r.chance(0.2) : r.chance(0.1)) g.crash(e, ei ? 150 : 500, true);
            else if (!last && r.chance(0.9)) g.crash(e, es, false);
        }
        g.sc.eras.push_back(e);
    };
    int work = crash ? (int)r.range(1, 3) : 1, more = crash ? (int)r.range(1, 2) : (int)r.below(2), ei = 0;
    for (; ei < work; ei++) era(ei, true, false);
    for (int i = 0; i < more; i++) era(ei++, true, true);
    if (g.sc.eras.back().cfg.crashMode) era(ei++, false, true);
    for (size_t i = 1; i < g.sc.eras.size(); i++)
        if (g.sc.eras[i].recover == 2 && g.sc.eras[0].cfg.crashMode && !g.sc.eras[0].cfg.crashRel) g.sc.eras[i].recover = 1;
    return g.sc;
}

// Explicit persistence, volatile objects, per-thread storage, opening and closing.
static Scenario gen_keep(u64 seed)
{
    Gen g(mix2(seed, 0x4EE9));
    g.sc.prop = "C31";
    g.sc.seed = seed;
    g.p.plainP = 0.3;
    g.p.powerP = 0.8;
    Rng &r = g.r;
    g.sc.metaLazy = r.chance(0.4);
    bool crash = r.chance(0.7);
    enum { OBJ = 11, SUM = 16, USE = 17 };
    double wSave = r.pick({0.2, 1., 3.}), wLocal = r.pick({0.1, 1., 3.}), wOnce = r.pick({0.1, 0.5, 2.}), wSide = r.pick({0.1, 0.5, 2.});
    auto use = [&](u64 what, u64 rest) { return Op{OP_K_USE, USE, what | r.next() << 8, rest}; };
    // What one thread does, or (at rest) the main one.
    auto step = [&](std::vector<u64> &own, bool rest) {
        double x = (double)r.below(1000000) / 1e6 * (wSave + wLocal + wOnce + wSide + 0.1);
        if ((x -= wSave) < 0 && own.size()) return Op{OP_K_SAVE, own[r.below(own.size())], r.next() << 8, 0};
        if ((x -= wLocal) < 0) return Op{OP_K_ADD, SUM, r.next() << 8, rest};
        if ((x -= wOnce) < 0) return use(rest && r.chance(0.5) ? 3 : 0, rest);
        if ((x -= wSide) < 0) return use(rest && r.chance(0.3) ? 4 : 1, rest);
        return use(2, rest);
    };
    auto readAll = [&](std::vector<Op> &v) {
        for (u64 o = 0; o < OBJ; o++) v.push_back({OP_K_READ, o, 0, 1});
        v.push_back({OP_K_READ, SUM, 0, 1});
    };
    auto era = [&](int ei, bool mayCrash, bool last) {
        Era e;
        e.recover = ei ? (r.chance(0.5) ? 1 : 2) : 0;
        std::vector<u64> all;
        for (u64 o = 0; o < OBJ; o++) all.push_back(o);
        if (ei) readAll(e.head);
        if (r.chance(ei ? 0.4 : 0.2)) e.head.push_back(use(6, 1));
        if (r.chance(0.4)) for (int n = (int)r.range(1, 4); n > 0; n--) e.head.push_back(step(all, true));
        int thr = last && r.chance(0.8) ? 0 : r.chance(0.1) ? (int)r.range(5, 12) : (int)r.range(2, 4);
        e.thr.resize((size_t)thr);
        for (int t = 0; t < thr; t++)
        {
            std::vector<u64> own;
            for (u64 o = 0; o < OBJ; o++) if ((int)((o + (u64)ei) % (u64)thr) == t) own.push_back(o);
            for (int n = (int)r.range(1, thr > 4 ? 2 : 6); n > 0; n--) e.thr[(size_t)t].push_back(step(own, false));
        }
        if (thr && r.chance(0.5)) readAll(e.tail);
        if (r.chance(0.6)) e.tail.push_back(use(7, 1));
        if (r.chance(0.5)) for (int n = (int)r.range(1, 5); n > 0; n--) e.tail.push_back(step(all, true));
        if (r.chance(0.35))
        {
            e.tail.push_back(use(5, 1));
            if (r.chance(0.5)) readAll(e.tail);
            for (int n = (int)r.below(5); n > 0; n--) e.tail.push_back(step(all, true));
            if (r.chance(0.2)) e.tail.push_back(use(5, 1));
        }
        u64 es = 60 + (u64)thr * 3 * 60;
        g.strategy(e.cfg, thr, es);
        e.cfg.stallStep = 0;
        if (!last && r.chance(0.12)) { e.faultsInWorkers = 1; e.cfg.faultP[F_PMALLOC] = r.pick({0.05, 0.2}); }
        e.endMode = r.chance(0.7) ? CR_POWER : CR_KILL;
        e.crashSeed = r.next();
        if (mayCrash && crash)
        {
            if (last ? r.chance(0.2) : r.chance(0.1)) g.crash(e, ei ? 250 : 700, true);
            else if (!last && r.chance(0.85)) g.crash(e, es, false);
        }
        g.sc.eras.push_back(e);
    };
    int work = crash ? (int)r.range(1, 3) : (int)r.range(1, 2), more = crash ? (int)r.range(1, 2) : (int)r.below(2), ei = 0;
    for (; ei < work; ei++) era(ei, true, false);
    for (int i = 0; i < more; i++) era(ei++, true, true);
    if (g.sc.eras.back().cfg.crashMode) era(ei++, false, true);
    for (size_t i = 1; i < g.sc.eras.size(); i++)
        if (g.sc.eras[i].recover == 2 && g.sc.eras[0].cfg.crashMode && !g.sc.eras[0].cfg.crashRel) g.sc.eras[i].recover = 1;
    return g.sc;
}

// The level hash: C21 drives the container with a small first table, C21a the repository's adapter.
static Scenario gen_clevel(u64 seed, bool adapter)
{
    Gen g(mix2(seed, adapter ? 0x5D : 0x5C));
    g.sc.prop = "C21";
    g.sc.seed = seed;
    g.adapter = true;
    Rng &r = g.r;
    g.sc.variant = adapter ? 0 : r.pick({0, 0, 1, 1, 2});
    double er = r.pick({0.0, 0.0, 1.0, 2.5});
    g.p.mix = {{OP_A_INSERT, 3}, {OP_A_ERASE, er}, {OP_A_CONTAINS, 1.5}, {OP_A_GET, 1}};
    g.p.fillP = r.pick({0.2, 0.4, 0.7});
    g.p.plainP = 0.85;
    u64 stride = adapter ? 1ull << 20 : r.pick({(u64)1, (u64)2, (u64)4, (u64)16});
    u64 base = adapter ? 4096 + r.below(6) : 1 + r.below(4);
    int nh = (int)r.range(1, 3);
    std::vector<u64> all;
    u64 tags = r.pick({(u64)1, (u64)1, (u64)2, (u64)3}); // the upper 16 bits are kept in the slots
    for (u64 i = 0; i < 100; i++) all.push_back(base + (r.chance(0.9) ? i : 200 + i) * stride + ((i % tags) << 49));
    for (int i = 0; i < nh; i++) { u64 j = r.below(all.size()); g.hot.push_back(all[j]); all.erase(all.begin() + j); }
    g.fill = all;
    Era e;
    // slots that the colliding keys can use: 2 buckets in each of 2 levels; more when they do not collide
    int full = adapter ? 32 : g.sc.variant == 0 ? r.pick({32, 48}) : r.pick({32, 48, 64});
    int pre = r.chance(0.2) ? (int)r.range(0, 20) : full - 8 + (int)r.range(0, 12);
    for (int i = 0; i < pre; i++)
    {
        u64 k = r.chance(0.1) ? g.hot[r.below(g.hot.size())] : g.fill[g.fillNext++];
        e.head.push_back(g.mk(r.chance(0.05) && er > 0 ? OP_A_ERASE : OP_A_INSERT, k));
    }
    int thr = (int)r.range(2, 4);
    for (int t = 0; t < thr; t++)
    {
        std::vector<Op> ops;
        int n = (int)r.range(2, 8);
        for (int i = 0; i < n; i++)
        {
            Op o = g.randomOp();
            if (o.code == OP_A_ERASE && er == 0) o.code = OP_A_CONTAINS;
            if (o.code == OP_A_INC) o.code = OP_A_INSERT;
            ops.push_back(o);
        }
        e.thr.push_back(ops);
    }
    for (u64 k : g.hot) e.tail.push_back({OP_A_CONTAINS, k, 0, 0});
    for (size_t i = 0; i < g.fillNext; i++) e.tail.push_back({OP_A_CONTAINS, g.fill[i], 0, 0});
    if (r.chance(0.3)) for (u64 k : g.hot) { e.tail.push_back({OP_A_INSERT, k, 0, 0}); e.tail.push_back({er > 0 ? OP_A_ERASE : OP_A_GET, k, 0, 0}); e.tail.push_back({OP_A_GET, k, 0, 0}); }
    g.strategy(e.cfg, thr + 1, 400 + (u64)pre * 60);
    e.cfg.maxRun = (u32)r.pick({200, 1000, 3000});
    e.cfg.p[K_PLAIN] = std::min(0.3, e.cfg.p[K_PLAIN] * r.pick({1.0, 3.0, 6.0}));
    e.cfg.tickNs = r.pick({(u64)20000, (u64)100000, (u64)500000, (u64)2000000});
    if (e.cfg.strategy == 2) e.cfg.freezeMax = (u32)r.pick({300, 1500, 6000});
    g.sc.eras.push_back(e);
    return g.sc;
}

// Whole programs. The generator's name carries the workload: C18 (alternating), C19 (degree), C20a/d/r.
static Scenario gen_prog(uint64_t seed, const std::string &name)
{
    u64 ph = 0;
    for (char c : name) ph = ph * 131 + c;
    Gen g(mix2(seed, ph));
    Rng &r = g.r;
    Scenario sc;
    sc.prop = name.substr(0, 3);
    sc.seed = seed;
    sc.metaLazy = r.chance(0.4);
    // the workload: alternating, degree, random, ycsb, reddit
    char w = sc.prop == "C18" ? 'a' : sc.prop == "C19" ? 'd' : sc.prop == "C25" ? 'y' : sc.prop == "C27" ? 'e' : name[3];
    bool start = sc.prop == "C20", cut = sc.prop == "C26";
    Era e;
    e.progT = (int)(r.chance(0.75) ? r.range(1, 4) : r.range(5, start ? 12 : 8));
    bool crowd = r.chance(start ? 0.08 : 0.03);
    if (crowd) e.progT = (int)r.range(9, 32);
    e.progN = (int)(r.chance(0.3) ? r.range(1, 12) : r.range(8, 70));
    if (start) e.progN = (int)r.range(1, 30);
    e.progC = (int)r.pick({3, 3, 4, 7});
    e.progRuns = !cut && e.progT <= 6 && r.chance(name.back() == 'c' ? 0.02 : 0.15) ? 2 : 1;
    bool growing = r.chance(0.5);
    // The last letter: r reopens what an earlier process left behind, p does so rarely, v has nothing to reopen, c opens its pool only once.
    const bool reopen = !start && !cut && (name.back() == 'r' ? r.chance(w == 'a' ? 0.6 : 0.35) : name.back() == 'p' && r.chance(0.03));
    if (w == 'd')
    {
        e.progN = (int)r.range(1, 40);
        int nodes = (int)r.range(1, 14);
        bool longer = !start && !cut && r.chance(0.03);
        u64 base = r.pick({(u64)0, (u64)0, (u64)5, (u64)1000});
        for (int t = 0; t < 4; t++)
        {
            std::vector<Op> f;
            int n = (int)(r.chance(0.1) ? 0 : r.range(1, start || cut || reopen ? 6 : longer ? 200 : 14));
            for (int i = 0; i < n; i++)
            {
                u64 to = r.chance(0.5) ? base + r.below(std::min(nodes, 3)) : base + r.below(nodes);
                f.push_back({OP_EDGE, base + r.below(nodes), to, r.chance(0.8) ? 0 : r.below(16)});
            }
            e.thr.push_back(f);
        }
    }
    else if (w == 'y')
    {
        e.progN = (int)r.range(1, 40);
        int nk = (int)(growing ? r.range(6, 14) : r.range(1, 5));
        u64 base = r.pick({(u64)0, (u64)1, (u64)5, (u64)1000, (u64)1 << 33, (u64)1 << 60});
        u64 mul = r.pick({(u64)1, (u64)1, (u64)8, (u64)1001});
        std::map<u64, int> used;
        int eras = cut || reopen ? 3 : e.progRuns;
        auto k = [&]() -> u64 {
            for (int i = 0; i < 30; i++)
            {
                u64 x = base + (r.chance(0.4) ? r.below(std::min(nk, 2)) : r.below(nk)) * mul;
                if ((used[x] += eras) <= 36) return x;
            }
            return base + mul * (100 + r.below(20000));
        };
        double noise = r.chance(0.25) ? 0.15 : 0;
        int nl = (int)(r.chance(0.1) ? 0 : r.range(0, growing ? 12 : 5));
        for (int i = 0; i < nl; i++) e.head.push_back(r.chance(noise) ? Op{OP_EDGE, r.below(2), 0, 0} : Op{OP_A_INSERT, k(), 0, 0});
        std::vector<Op> f;
        int n = (int)(r.chance(0.05) ? 0 : r.range(1, start ? 20 : growing ? 50 : 30));
        double pi = r.pick({0.2, 0.5, 0.8}), pe = r.pick({0.1, 0.25, 0.5});
        for (int i = 0; i < n; i++)
        {
            if (r.chance(noise)) { f.push_back({OP_EDGE, r.below(2), 0, 0}); continue; }
            u64 x = k();
            if (r.chance(pi)) f.push_back({OP_A_INSERT, x, r.chance(0.5), 0});
            else if (r.chance(pe)) f.push_back({OP_A_ERASE, x, 0, 0});
            else f.push_back({OP_A_CONTAINS, x, 0, 0});
        }
        e.thr.push_back(f);
    }
    else if (w == 'e')
    {
        e.progN = (int)r.range(1, 40);
        int nk = (int)r.range(1, 14);
        u64 base = r.pick({(u64)0, (u64)0, (u64)1, (u64)5, (u64)1000});
        std::vector<Op> f;
        int n = (int)(r.chance(0.05) ? 0 : r.range(1, 45));
        bool longer = r.chance(0.04);
        if (longer) n = (int)r.range(100, 700);
        std::map<u64, int> used;
        for (int i = 0; i < n; i++)
        {
            u64 x = base + (r.chance(0.4) ? r.below(std::min(nk, 3)) : r.below(nk));
            if (r.chance(0.05)) x = (1ull << 33) + r.below(3);
            if ((used[x] += reopen ? 3 : e.progRuns) <= 40 || longer) f.push_back({OP_EDGE, 0, x, r.chance(0.8) ? 0 : r.below(4)});
        }
        e.thr.push_back(f);
    }
    else if (w == 'r' && !start)
    {
        e.randMod = (int)r.pick({6, 9, 14, 24});
        e.progN = (int)r.range(2, 40);
    }
    if (w == 'y' || w == 'e') e.crashSeed = r.next();
    u64 lines = (u64)e.progN;
    if (w != 'a' && w != 'r') { lines = e.head.size(); for (auto &f : e.thr) lines += f.size(); }
    auto strat = [&](Era &x) {
        g.strategy(x.cfg, x.progT + 1, 400 + lines * 40);
        x.cfg.maxRun = (u32)r.pick({200, 1000, 3000});
        if (x.cfg.strategy == 2) { x.cfg.freezeP = r.pick({0.001, 0.004, 0.02}); }
        x.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        if (w != 'y' && w != 'e') x.crashSeed = r.next();
    };
    strat(e);
    if (cut)
    {
        // The first run is cut short, or one of those that resume it.
        int n = (int)r.range(2, 3);
        for (int i = 0; i < n; i++)
        {
            Era x = e;
            x.recover = i > 0;
            x.progRec = i > 0;
            x.cfg = EraCfg();
            strat(x);
            if (i == 0 || (i + 1 < n && r.chance(0.7)))
            {
                u64 cs = x.crashSeed;
                g.crash(x, 60 + lines * 60, r.chance(i ? 0.4 : name.back() == 'k' ? 0 : 0.15));
                if (w == 'y') x.crashSeed = (x.crashSeed & ~4ull) | (cs & 4);
            }
            sc.eras.push_back(x);
        }
        return sc;
    }
    sc.eras.push_back(e);
    if (reopen)
    {
        int n = (int)r.range(1, 2);
        for (int i = 0; i < n; i++)
        {
            Era x = e;
            x.recover = 1;
            x.progRec = 1;
            x.cfg = EraCfg();
            strat(x);
            sc.eras.push_back(x);
        }
    }
    return sc;
}

static Scenario scenarioOf(const std::string &prop, uint64_t seed)
{
    if ((prop.substr(0, 3) >= "C18" && prop.substr(0, 3) <= "C20") || (prop.substr(0, 3) >= "C25" && prop.substr(0, 3) <= "C27")) return gen_prog(seed, prop);
    if (prop == "C21" || prop == "C21a") return gen_clevel(seed, prop == "C21a");
    if (prop == "C28") return gen_chm(seed);
    if (prop == "C29") return gen_box(seed);
    if (prop == "C30") return gen_lock(seed);
    if (prop == "C31") return gen_keep(seed);
    if (prop == "C17") return gen_words(seed, prop);
    if (prop == "C15" || prop == "C16") return gen_pm(seed, prop);
    if (prop == "C14") return gen_adapter(seed, prop);
    u64 ph = 0;
    for (char c : prop) ph = ph * 131 + c;
    Gen g(mix2(seed, ph));
    g.p = profile(prop);
    g.sc.prop = prop;
    g.sc.seed = seed;
    Rng &r = g.r;
    Prof &p = g.p;
    // swarm: drop some operation kinds
    if (r.chance(0.6))
    {
        std::vector<W> m;
        for (auto &x : p.mix) if (r.chance(0.6)) m.push_back(x);
        bool upd = false;
        for (auto &x : m) if (x.code == OP_PUT || x.code == OP_PIA || x.code == OP_INC) upd = true;
        if (upd && m.size() >= 2) p.mix = m;
    }
    bool grow = r.chance(p.growP);
    g.sc.variant = p.variants[r.below(p.variants.size())];
    g.sc.cap = grow ? (r.chance(0.85) ? 3 : 4) : (int)r.pick({4, 5, 6});
    if (!grow && g.sc.variant == 0) g.sc.cap = 6;
    int nh = (int)r.range(p.hotMin, p.hotMax);
    u64 kb = r.pick({(u64)0, (u64)1, (u64)3, (u64)40});
    // Keys far up, and keys that differ in one upper bit only.
    u64 up = r.chance(0.2) ? 1ull << r.range(31, 62) : 0;
    for (int i = 0; i < nh; i++) g.hot.push_back(up && i && r.chance(0.5) ? g.hot[i - 1] ^ up : (kb + i) << 3 | (r.chance(0.5) ? up : 0));
    for (int i = 0; i < 30; i++) g.fill.push_back((kb + 8 + i) << 3 | (r.chance(0.5) ? up : 0));
    if (r.chance(0.15)) g.valUp = 1ull << r.range(31, 62);
    // Many growths in a row: a dozen tables, the last of them of several thousand slots.
    Rng rare(mix2(seed, ph ^ 0xDEE9));
    bool deep = rare.chance(p.deepP);
    std::vector<u64> climb;
    if (deep)
    {
        grow = true;
        g.sc.variant = 1;
        g.sc.cap = 3;
        g.fill.clear();
        int last = (int)rare.range(11, 12);
        u64 n = 0;
        for (int b = 3; b <= last; b++)
        {
            for (; n < (1u << b) / 4 + 10; n++) climb.push_back((64 + n) << 3); // fills a quarter of the table
            climb.push_back((u64)(64 + ((u64)b << 20)) << 3);                     // meets all of them
        }
        for (u64 i = 0; i < 8; i++) climb.push_back((u64)(64 + ((40 + i) << 20)) << 3);
        g.fill = climb;
        p.fillP = 0.4;
    }
    if (p.lazyMeta && r.chance(0.4)) g.sc.metaLazy = 1;
    if (r.chance(0.1)) g.sc.stray = (int)r.range(1, 3);

    int workEras = p.crashP > 0 ? (int)r.range(1, p.crashEras) : 1;
    int total = workEras;
    bool crashRun = r.chance(p.crashP);
    for (int i = 0; i < total; i++)
    {
        Era e;
        e.recover = i > 0;
        if (p.fresh && i == 0 && total == 1) {}
        // prefill
        if (i == 0)
        {
            int pre = grow ? (int)r.range(4, 8) : (int)r.range(0, 3);
            if (grow && r.chance(0.15)) pre = (int)r.range(9, 14);
            bool churn = grow && r.chance(0.12); // a table full of removed keys
            if (deep)
            {
                pre = 0;
                for (size_t n = climb.size() - rare.range(8, 12); g.fillNext < n;) e.head.push_back(g.mk(OP_PUT, climb[g.fillNext++]));
            }
            for (int j = 0; j < pre; j++)
            {
                u64 k = !churn && r.chance(0.3) ? g.hot[r.below(g.hot.size())] : g.fill[g.fillNext < g.fill.size() ? g.fillNext++ : r.below(g.fill.size())];
                int code = r.pick({OP_PUT, OP_PUT, OP_PIA, OP_INC});
                if (churn && r.chance(0.9))
                {
                    e.head.push_back(g.mk(code, k));
                    e.head.push_back(g.mk(OP_REMOVE, k));
                    continue;
                }
                if (r.chance(0.12)) code = OP_REMOVE;
                if (prop == "C03" && std::find(g.hot.begin(), g.hot.end(), k) != g.hot.end()) code = OP_INC;
                e.head.push_back(g.mk(code, k));
            }
        }
        else if (r.chance(0.5)) g.readAll(e.head, r.chance(0.5));
        bool work = i == 0 || r.chance(p.recWorkP);
        int thr = 0;
        if (work)
        {
            thr = (int)r.range(p.thrMin, p.thrMax);
            bool crowd = r.chance(0.03);
            if (crowd) thr = (int)r.range(5, 12);
            for (int t = 0; t < thr; t++)
            {
                std::vector<Op> ops;
                int n = crowd ? (int)r.range(1, 3) : (int)r.range(p.opsMin, p.opsMax);
                for (int j = 0; j < n; j++) ops.push_back(g.randomOp());
                e.thr.push_back(ops);
            }
        }
        if (p.tailOps && i > 0) for (int j = 0; j < 3; j++) e.tail.push_back(g.randomOp());
        g.readAll(e.tail, true);
        u64 es = g.est(e, grow) * (deep ? 50 : 1);
        g.strategy(e.cfg, thr, es);
        if (r.chance(p.stallP)) e.cfg.stallStep = 1 + r.below(es);
        if (p.faultP > 0)
        {
            e.faultsInWorkers = 1;
            double b = r.pick({0.02, 0.1, 0.3, 0.7});
            for (int k = 0; k < F_N; k++) if (r.chance(0.45)) e.cfg.faultP[k] = b * r.pick({0.3, 1.0});
            if (r.chance(0.5)) g.sc.fdLimit = (int)r.range(1, 3);
        }
        if (crashRun)
        {
            if (i > 0 && (!work || r.chance(p.recCrashP))) { if (r.chance(p.recCrashP)) g.crash(e, 250, true); }
            else if (r.chance(0.9)) g.crash(e, es, i == 0 && r.chance(0.06));
        }
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        if (e.crashSeed == 1) e.crashSeed = r.next();
        g.sc.eras.push_back(e);
    }
    if (p.fresh)
    {
        Era e;
        e.recover = 0;
        g.readAll(e.head, true);
        int thr = (int)r.range(1, 3);
        for (int t = 0; t < thr; t++)
        {
            std::vector<Op> ops;
            int n = (int)r.range(1, 5);
            for (int j = 0; j < n; j++) ops.push_back(g.randomOp());
            e.thr.push_back(ops);
        }
        g.readAll(e.tail, true);
        u64 es = g.est(e, grow);
        g.strategy(e.cfg, thr, es);
        if (r.chance(0.5)) g.crash(e, es, false);
        e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
        g.sc.eras.push_back(e);
    }
    if (crashRun || p.fresh || r.chance(0.3) || p.extraReopen)
    {
        int n = 1 + (p.extraReopen ? (int)r.range(0, p.extraReopen) : r.chance(0.15) ? 1 : 0);
        for (int i = 0; i < n; i++)
        {
            Era e;
            e.recover = 1;
            if (p.tailOps || r.chance(0.25))
            {
                g.readAll(e.tail, true);
                for (int j = 0; j < 4; j++) e.tail.push_back(g.randomOp());
                for (int j = 0; j < 3 && g.fillNext < g.fill.size(); j++) e.tail.push_back(g.mk(OP_PUT, g.fill[g.fillNext++]));
            }
            g.readAll(e.tail, true);
            g.strategy(e.cfg, 1, 200);
            e.endMode = r.chance(0.5) ? CR_POWER : CR_KILL;
            e.crashSeed = r.next();
            if (i + 1 < n && crashRun && r.chance(p.recCrashP)) g.crash(e, 250, true);
            g.sc.eras.push_back(e);
        }
    }
    if (rare.chance(p.openFaultP))
        for (size_t i = 0; i < g.sc.eras.size(); i++)
        {
            Era &e = g.sc.eras[i];
            if (!rare.chance(i || p.fresh ? 0.5 : 0.1)) continue;
            if (!e.faultsInWorkers)
            {
                double b = rare.pick({0.02, 0.1, 0.3, 0.7});
                for (int k = 0; k < F_N; k++) if (rare.chance(0.45)) e.cfg.faultP[k] = b;
            }
            e.faultsInWorkers |= FA_OPEN;
            if (i + 1 == g.sc.eras.size() || rare.chance(0.4)) e.faultsInWorkers |= FA_RETRY;
        }
    if (deep) for (auto &e : g.sc.eras) { e.cfg.adversarialCap = 1000000; e.cfg.hangCap = 20000000; }
    return g.sc;
}

Scenario generate(const std::string &prop, uint64_t seed)
{
    Scenario s = scenarioOf(prop, seed);
    // Slots the map under test migrates at a time (all of a small table with the shipped constant).
    Rng r(mix2(seed, 0xC4));
    static const std::set<std::string> pools = {"C28", "C29", "C30", "C31"};
    Rng o(mix2(seed, 0x09E4));
    if (pools.count(prop) && o.chance(0.12))
        for (size_t i = 0; i < s.eras.size(); i++)
        {
            Era &e = s.eras[i];
            if (!o.chance(0.6)) continue;
            double b = o.pick({0.02, 0.1, 0.3});
            for (int k : {F_OPEN, F_TRUNC, F_STAT, F_MMAP, F_RENAME, F_FSYNC, F_PMALLOC}) if (!e.cfg.faultP[k] && o.chance(0.4)) e.cfg.faultP[k] = b;
            e.faultsInWorkers |= FA_OPEN;
            if (i + 1 == s.eras.size() || o.chance(0.5)) e.faultsInWorkers |= FA_RETRY;
        }
    // The adapter of the PMDK container leaves its pool open when it cannot be made: the next process has to try again.
    if ((prop == "C15" || prop == "C16") && o.chance(0.1))
        for (size_t i = 0; i + 1 < s.eras.size(); i++)
        {
            Era &e = s.eras[i];
            if (!o.chance(0.5)) continue;
            if (!e.cfg.faultP[F_PMALLOC]) e.cfg.faultP[F_PMALLOC] = o.pick({0.1, 0.4});
            e.faultsInWorkers |= FA_OPEN;
        }
    if (r.chance(0.45)) s.chunk = r.pick({(u64)1, (u64)2, (u64)2, (u64)4, (u64)4, (u64)8});
    return s;
}
