// Whole-program runs: arguments, input files, recorded container calls, captured output, and their judgement.
#include "prog.hpp"
#include <algorithm>
#include <iostream>
#include <set>
#include <string.h>
using namespace sim;

namespace
{
struct Report { bool elapsed; long value; u64 at; };
struct Run                        // one run_test of the program
{
    int era, h0, firstFiber;
    bool rec;
    u64 open = 0;
    u64 firstCall[MAXF], lastEnd = 0, lastFirst = 0, lastStart = 0;
    std::vector<Report> reports;
    std::map<u64, std::vector<u64>> nodes; // "Node i: value" lines
    int close = -1;               // H index at the end of the final probe
    int probe = -1;               // H index at its start
    Run() { memset(firstCall, 0, sizeof firstCall); }
};
std::vector<Run> *runs;
const Era *E;
int eraNo;
HOp *H;
int *HN;
std::vector<uint64_t> keys;       // probed at the end
std::string line;
bool inProbe;
int workload;
const SutApi *A;

struct Cap : std::streambuf
{
    int overflow(int c) override { char x = (char)c; put(&x, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { put(s, (size_t)n); return n; }
    void put(const char *s, size_t n) { prog_output(s, n); }
};
struct CapErr : std::streambuf
{
    int overflow(int c) override { char x = (char)c; put(&x, 1); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { put(s, (size_t)n); return n; }
    void put(const char *s, size_t n) { Host h; if (S.out.size() < (1u << 16)) S.out.append(s, n); }
};
Run *cur() { return runs->empty() ? nullptr : &runs->back(); }
} // namespace

void prog_init(HOp *h, int *hn)
{
    runs = new std::vector<Run>();
    H = h;
    HN = hn;
    static Cap c;
    static CapErr e;
    std::cout.rdbuf(&c);
    std::cerr.rdbuf(&e);
}
void prog_begin_scenario(const SutApi *a) { runs->clear(); A = a; workload = a->workload; }
void prog_begin_era(const Era *e, int ei)
{
    E = e;
    eraNo = ei;
    line.clear();
    S.out.clear();
    keys.clear();
    inProbe = false;
    S.randMod = 0;
    if (!e->progT) return;
    if (workload == WL_RANDOM) S.randMod = e->randMod;
    else if (workload == WL_YCSB)
    {
        std::set<uint64_t> ks{0, 1, 7777};
        auto text = [&](const std::vector<Op> &v, bool load) {
            std::string t;
            size_t i = 0;
            for (auto &o : v)
            {
                if (o.code == OP_EDGE) t += o.k & 1 ? "[OVERALL], RunTime(ms), 17" : "";
                else
                {
                    ks.insert(o.k);
                    t += load || (o.code == OP_A_INSERT && !o.a) ? "INSERT " : o.code == OP_A_INSERT ? "UPDATE " : o.code == OP_A_ERASE ? "DELETE " : "READ ";
                    t += std::to_string(o.k);
                }
                if (++i < v.size() || !(e->crashSeed & 4)) t += "\n";
            }
            return t;
        };
        fs_set_text("/home/kenneth/PMap/data/YCSB/outputLoada.txt", text(e->head, true));
        fs_set_text("/home/kenneth/PMap/data/YCSB/outputRuna.txt", text(e->thr.empty() ? std::vector<Op>() : e->thr[0], false));
        keys.assign(ks.begin(), ks.end());
    }
    else if (workload == WL_REDDIT)
    {
        std::set<uint64_t> ks{0, 1, 7777};
        std::string t;
        size_t i = 0, n = e->thr.empty() ? 0 : e->thr[0].size();
        if (n)
            for (auto &o : e->thr[0])
            {
                ks.insert(o.a);
                t += (o.b & 1 ? " " : "") + std::to_string(o.a) + (o.b & 2 ? " " : "");
                if (++i < n || !(e->crashSeed & 4)) t += "\n";
            }
        fs_set_text("/home/kenneth/PMap/data/reddit_author_hash.uint64_t", t);
        keys.assign(ks.begin(), ks.end());
    }
    if (workload == WL_ALTERNATING)
    {
        int maxops = e->progN / e->progT + e->progN % e->progT;
        for (int i = 0; i < maxops * e->progT + 3; i++) keys.push_back((uint64_t)i);
    }
    else if (workload == WL_DEGREE)
    {
        std::set<uint64_t> ks{0, 1, 7777};
        for (size_t t = 0; t < e->thr.size(); t++)
        {
            std::string txt;
            size_t i = 0;
            for (auto &o : e->thr[t])
            {
                ks.insert(o.k);
                ks.insert(o.a);
                const char *sep = o.b & 1 ? "\t" : o.b & 2 ? "  " : " ";
                txt += std::to_string(o.k) + sep + std::to_string(o.a) + (o.b & 4 ? " " : "");
                if (++i < e->thr[t].size() || !(o.b & 8)) txt += "\n";
            }
            fs_set_text("/home/kenneth/PMap/data/rmat/edge_list_rmat_s10_" + std::to_string(t) + "_of_4", txt);
        }
        keys.assign(ks.begin(), ks.end());
    }
}

// The text the program prints, line by line.
void prog_output(const char *s, size_t n)
{
    int bad = 0;
    {
        Host hh;
        if (S.out.size() < (1u << 16)) S.out.append(s, n);
        for (size_t i = 0; i < n; i++)
        {
            if (s[i] != '\n') { line += s[i]; continue; }
            bool el = line.rfind("elapsed time = ", 0) == 0, sz = line.rfind("container size = ", 0) == 0;
            if ((el || sz) && cur())
            {
                Run &r = *cur();
                r.reports.push_back({el, atol(line.c_str() + (el ? 15 : 17)), S.now});
                int created = 0, done = 0;
                for (int f = r.firstFiber; f < S.nf; f++) { created++; done += S.f[f].st == FS_DONE; }
                if (E && (created < E->progT || done < created)) bad = 1 + done;
                if (sz && !bad) // the size that is reported must have been taken when they had finished
                    for (int i = *HN - 1; i >= r.h0; i--)
                        if (H[i].fiber == 0 && H[i].op.code == OP_SIZE) { if (!H[i].quiet) bad = -1; break; }
            }
            if (line.rfind("Node  ", 0) == 0 && cur())
            {
                char *rest;
                u64 node = strtoull(line.c_str() + 6, &rest, 10);
                cur()->nodes[node].push_back(rest[0] == ':' && rest[1] == '\t' ? strtoull(rest + 2, nullptr, 10) : ~0ull);
            }
            line.clear();
        }
    }
    if (bad < 0 && S.cur >= 0) violate("early-report", "the run reported a container size that was taken before all workers had finished");
    if (bad && S.cur >= 0) violate("early-report", "the run reported its result when only %d of %d workers had finished", bad - 1, E->progT);
}

extern "C"
{
    void sim_rec_note(int what, uint64_t v)
    {
        Host h;
        if (what == NOTE_OPEN)
        {
            Run r;
            r.era = eraNo;
            r.h0 = *HN;
            r.firstFiber = S.nf;
            r.rec = v != 0;
            r.open = S.now;
            runs->push_back(r);
            inProbe = false;
        }
        else if (what == NOTE_READY && cur())
        {
            // threads started by the constructor are none of the workload's
            for (int f = cur()->firstFiber; f < S.nf; f++) S.f[f].background = true;
            if (S.nf > cur()->firstFiber) S.marked = false;
            cur()->firstFiber = S.nf;
        }
        else if (cur())
        {
            cur()->close = *HN;
            inProbe = false;
        }
    }
    int sim_rec_probe(uint64_t i, uint64_t *k)
    {
        if (i == 0 && cur())
        {
            cur()->probe = *HN;
            inProbe = true;
            if (workload == WL_RANDOM)
            {
                Host h;
                std::set<uint64_t> ks;
                for (int j = 0; j < *HN; j++) if (H[j].op.code != OP_SIZE) ks.insert(H[j].op.k);
                keys.assign(ks.begin(), ks.end());
            }
        }
        if (i >= keys.size()) return 0;
        *k = keys[i];
        return 1;
    }
    int sim_rec_begin(int code, uint64_t k, uint64_t tn, uint64_t replaces)
    {
        if (!cur()) violate("harness", "container call without a container");
        if (S.f[S.cur].inOp) return -1; // part of the call that is going on
        if (*HN >= 20000) violate("harness", "history too long");
        Run &r = *cur();
        if (S.cur > 0)
        {
            if (S.cur < r.firstFiber) violate("late-worker", "a worker of an earlier run is still calling the container");
            int there = 0;
            for (int f = r.firstFiber; f < S.nf; f++) there += S.f[f].announced;
            if (there < E->progT)
                violate("early-start", "worker %d started its work when only %d of %d workers had reached the start line", S.cur - r.firstFiber, there, E->progT);
            if (!r.firstCall[S.cur])
            {
                r.firstCall[S.cur] = S.now;
                r.lastFirst = std::max(r.lastFirst, S.now);
            }
        }
        int i = (*HN)++;
        HOp &h = H[i];
        h.op = Op{code, k, 0, replaces};
        h.ret = h.res = 0;
        h.aux = tn;
        h.status = ST_PENDING;
        h.fiber = S.cur;
        h.era = eraNo;
        bool alone = S.cur == 0;
        for (int f = 1; f < S.nf; f++) if (S.f[f].st != FS_DONE && !S.f[f].background) alone = false;
        h.quiet = alone;
        h.inv = ++S.stamp;
        S.f[S.cur].inOp = true;
        S.f[S.cur].serial++;
        point(K_OP, nullptr);
        return i;
    }
    void sim_rec_end(int i, uint64_t res)
    {
        if (i < 0) return;
        HOp &h = H[i];
        h.res = res;
        S.hash = mix2(S.hash, res);
        h.status = ST_OK;
        h.ret = ++S.stamp;
        S.f[S.cur].inOp = false;
        S.f[S.cur].serial++;
        if (S.cur > 0 && cur()) cur()->lastEnd = std::max(cur()->lastEnd, S.now);
        point(K_OP, nullptr);
    }
}

namespace
{
// The workloads, as specified: what each worker does with the container.
void share(const Era &e, int t, std::vector<Op> &out)
{
    if (workload == WL_ALTERNATING)
    {
        long max = e.progN / e.progT + e.progN % e.progT;
        long ops = t == 0 ? max : e.progN / e.progT;
        long pre = ops / 10, ins = pre, del = pre / 2;
        for (long i = ops - pre; i > 0; i--)
        {
            if (i & 1) out.push_back({OP_A_INSERT, (uint64_t)(t * max + ins++), 0, 0});
            else out.push_back({OP_A_ERASE, (uint64_t)(t * max + del++), 0, 0});
        }
    }
    else if (workload == WL_DEGREE && t < (int)e.thr.size() && t < 4)
        for (auto &o : e.thr[t]) out.push_back({A->counts ? OP_A_INC : OP_A_INSERT, o.a, 0, 0});
    else if (workload == WL_REDDIT && t == 0 && e.thr.size())
        for (auto &o : e.thr[0]) out.push_back({A->counts ? OP_A_INC : OP_A_INSERT, o.a, 0, 0});
    else if (workload == WL_YCSB && e.thr.size())
        for (size_t i = (size_t)t; i < e.thr[0].size(); i += (size_t)e.progT)
            if (e.thr[0][i].code != OP_EDGE) out.push_back({e.thr[0][i].code, e.thr[0][i].k, 0, 0});
}
// Whether the workload alone determines what is in the container afterwards.
bool determined() { return workload == WL_ALTERNATING || workload == WL_DEGREE || workload == WL_REDDIT; }
void expected(const Era &e, std::map<uint64_t, uint64_t> &st)
{
    if (workload == WL_ALTERNATING)
    {
        long max = e.progN / e.progT + e.progN % e.progT;
        for (long i = 0; i < max / 10; i++) st[(uint64_t)i] = (uint64_t)i;
    }
    for (int t = 0; t < e.progT; t++)
    {
        std::vector<Op> o;
        share(e, t, o);
        for (auto &x : o)
        {
            if (x.code == OP_A_INSERT) st[x.k] = x.k;
            else if (x.code == OP_A_ERASE) st.erase(x.k);
            else st[x.k]++;
        }
    }
}
std::string show(const std::map<uint64_t, uint64_t> &m)
{
    std::string s = "{";
    int n = 0;
    for (auto &kv : m)
    {
        if (n++ == 24) { s += " ..."; break; }
        s += (n > 1 ? " " : "") + std::to_string(kv.first) + (kv.first == kv.second ? "" : "=" + std::to_string(kv.second));
    }
    return s + "}";
}
bool found(const Run &r, std::map<uint64_t, uint64_t> &m, uint64_t &cnt)
{
    if (r.close < 0 || r.probe < 0) return false;
    std::map<uint64_t, bool> in;
    for (int i = r.probe; i < r.close; i++)
    {
        if (H[i].status != ST_OK) return false;
        if (H[i].op.code == OP_A_CONTAINS && H[i].res) m[H[i].op.k] = 0;
        if (H[i].op.code == OP_A_GET && (H[i].res || m.count(H[i].op.k))) m[H[i].op.k] = H[i].res;
        if (H[i].op.code == OP_SIZE) cnt = H[i].res;
    }
    return true;
}
} // namespace

// Which runs of the program share their contents, for the history checker.
std::vector<std::pair<int, int>> prog_segments(int hn)
{
    std::vector<std::pair<int, int>> v;
    for (auto &r : *runs)
        if (!r.rec || v.empty())
        {
            if (!v.empty()) v.back().second = r.h0;
            v.push_back({r.h0, hn});
        }
    return v;
}

void prog_judge(const Scenario &sc, int ei, int rc, bool persistent, bool exact, ProgStats &ps, const std::function<void(const std::string &, const std::string &)> &bad)
{
    const Era &e = sc.eras[ei];
    bool contents = sc.prop != "C20", work = sc.prop == "C20" || workload == WL_YCSB || workload == WL_REDDIT;
    if (!exact) ps.resumed++;
    std::string where = " [era " + std::to_string(ei) + "]";
    auto num = [](uint64_t x) { return std::to_string(x); };
    if (rc != 0) bad("exit-status", "the program ended with status " + std::to_string(rc) + where);
    if (S.out.find("pool is used already") != std::string::npos)
    {
        // Known for containers that keep the pool open, and for the alternating workload's own check.
        bool clv = A->keeps && !A->sized, own = A->keeps && A->sized && workload == WL_ALTERNATING && e.progRec;
        bad(clv ? "pool-still-open-clevel" : own ? "pool-still-open-check" : "pool-still-open", "the program opened its pool a second time while it still had it open" + where);
        return;
    }
    // contents before this era
    std::map<uint64_t, uint64_t> st;
    if (e.progRec && persistent)
        for (int i = 0; i < ei; i++)
            for (int k = 0; k < std::max(1, sc.eras[i].progRuns); k++)
            {
                if (!sc.eras[i].progRec && !A->keeps) st.clear();
                if (sc.eras[i].progT) expected(sc.eras[i], st);
            }
    std::vector<Run *> rs;
    for (auto &r : *runs) if (r.era == ei) rs.push_back(&r);
    bool failedCheck = S.out.find("error in test") != std::string::npos || S.out.find("not consistent") != std::string::npos;
    size_t want = (size_t)e.progRuns;
    size_t pos = 0;
    if (e.progRec)
    {
        // the recovery test opens the container (and, for this workload, once more)
        size_t n = rs.size() > want ? rs.size() - want : 0;
        if (failedCheck) n = rs.size();
        for (; pos < n; pos++)
        {
            std::map<uint64_t, uint64_t> m;
            uint64_t cnt = 0;
            if (!found(*rs[pos], m, cnt) || !contents) continue;
            ps.probes++;
            if (exact && determined() && m != st) bad("contents", "the reopened container holds " + show(m) + " instead of " + show(st) + where);
        }
    }
    if (failedCheck)
    {
        // The check assumes that every worker has prefilled elements, but only the first one's are, and those only from ten operations on.
        bool unprefilled = workload == WL_ALTERNATING && e.progRec && (e.progT > 1 || e.progN < 10);
        if (contents) bad(unprefilled ? "own-check-unprefilled" : "own-check", "the workload's own consistency check failed on a container that holds exactly the expected elements" + where);
        return;
    }
    if (rs.size() - pos != want) { bad("runs", "the program ran the workload " + num(rs.size() - pos) + " times instead of " + num(want) + where); return; }
    for (; pos < rs.size(); pos++)
    {
        Run &r = *rs[pos];
        if ((!e.progRec && !A->keeps) || !persistent) st.clear();
        expected(e, st);
        ps.runs++;
        // reports
        int ne = 0, ns = 0;
        for (auto &p : r.reports)
        {
            if (p.elapsed)
            {
                ne++;
                u64 started = 0;
                int began = 0;
                for (int f = 0; f < MAXF; f++) if (r.firstCall[f]) { started = std::max(started, r.firstCall[f]); began++; }
                if (began < e.progT) started = 0; // a worker without work may take its time
                long hi = (long)((p.at - r.open) / 1000000) + 1;
                long lo = started && r.lastEnd > started ? (long)((r.lastEnd - started) / 1000000) - 1 : 0;
                if (work && (p.value < lo || p.value > hi))
                    bad("elapsed", "the run reported " + std::to_string(p.value) + " ms although it took between " + std::to_string(lo) + " and " + std::to_string(hi) + " ms" + where);
            }
            else
            {
                ns++;
                std::map<uint64_t, uint64_t> m;
                uint64_t cnt = 0;
                if (contents && A->sized && found(r, m, cnt))
                {
                    ps.sizes++;
                    if ((uint64_t)p.value != m.size()) bad("reported-size", "the run reported a container size of " + std::to_string(p.value) + " but " + num(m.size()) + " elements are present" + where);
                    if (cnt != m.size()) bad("reported-size", "count() is " + num(cnt) + " but " + num(m.size()) + " elements are present" + where);
                }
            }
        }
        if (work && (ne != 1 || ns != 1)) bad("missing-report", "the run reported its elapsed time " + std::to_string(ne) + " times and the container size " + std::to_string(ns) + " times" + where);
        // contents
        std::map<uint64_t, uint64_t> m;
        uint64_t cnt = 0;
        if (contents)
        {
            if (!found(r, m, cnt)) bad("contents", "the container was not closed" + where);
            else
            {
                ps.probes++;
                if (exact && determined() && m != st) bad("contents", "the container holds " + show(m) + " instead of " + show(st) + where);
            }
        }
        int endH = r.probe >= 0 ? r.probe : r.close;
        // the load phase: done by the main thread, in order, before the workers start
        if (workload == WL_YCSB)
        {
            std::vector<uint64_t> did, todo;
            bool workers = false;
            for (int i = r.h0; i < endH; i++)
            {
                if (H[i].fiber != 0) { workers = true; continue; }
                if (H[i].op.code != OP_A_INSERT) continue;
                if (workers) { bad("load", "key " + num(H[i].op.k) + " was loaded after a worker had started" + where); break; }
                did.push_back(H[i].op.k);
            }
            for (auto &o : e.head) if (o.code != OP_EDGE) todo.push_back(o.k);
            if (did != todo) bad("load", "the load phase made " + num(did.size()) + " insertions that are not the " + num(todo.size()) + " of the input file" + where);
            ps.loads++;
        }
        // the report of the counts
        if (workload == WL_REDDIT && contents && A->sized && r.probe >= 0)
        {
            std::map<uint64_t, uint64_t> now;
            uint64_t c2 = 0;
            if (found(r, now, c2))
            {
                std::map<u64, std::vector<u64>> want;
                for (auto &kv : now) if (kv.first < c2) want[kv.first].push_back(kv.second);
                if (r.nodes != want) bad("report", "the report lists " + num(r.nodes.size()) + " nodes that are not the " + num(want.size()) + " nodes below the container's size with their counts" + where);
                ps.prints++;
            }
        }
        // shares
        if (work)
        {
            std::map<int, std::vector<Op>> by;
            std::map<int, uint64_t> num_of;
            for (int i = r.h0; i < endH; i++)
            {
                HOp &h = H[i];
                if (h.fiber == 0) continue;
                by[h.fiber].push_back(h.op);
                if (num_of.count(h.fiber) && num_of[h.fiber] != h.aux) bad("share", "a worker changed its thread number" + where);
                num_of[h.fiber] = h.aux;
            }
            std::set<uint64_t> seen;
            // Workloads read from a file are carried out in the order of the file.
            bool ordered = workload != WL_ALTERNATING;
            auto key = [&](std::vector<Op> v) {
                std::vector<std::pair<int, uint64_t>> k;
                for (auto &o : v) k.push_back({o.code == OP_A_GET ? OP_A_CONTAINS : o.code, o.k});
                if (!ordered) std::sort(k.begin(), k.end());
                return k;
            };
            std::vector<std::pair<int, uint64_t>> todo, did;
            if (workload == WL_YCSB && e.thr.size())
            {
                std::vector<Op> v;
                for (auto &o : e.thr[0]) if (o.code != OP_EDGE) v.push_back(o);
                todo = key(v);
            }
            for (auto &b : by)
            {
                uint64_t t = num_of[b.first];
                if (t >= (uint64_t)e.progT) bad("share", "a worker ran with thread number " + num(t) + where);
                else if (!seen.insert(t).second) bad("share", "two workers ran with thread number " + num(t) + where);
                else if (workload == WL_RANDOM)
                {
                    uint64_t max = e.progN / e.progT + (t == 0 ? e.progN % e.progT : 0);
                    if (b.second.size() > max) bad("share", "worker " + num(t) + " called the container " + num(b.second.size()) + " times, its share is " + num(max) + where);
                }
                else if (workload == WL_YCSB)
                {
                    // which worker gets a line is not promised, but each keeps to the order of the file
                    std::vector<Op> v;
                    for (auto &o : b.second) if (o.code != OP_SIZE) v.push_back(o);
                    auto mine = key(v);
                    size_t j = 0;
                    for (size_t l = 0; l < todo.size() && j < mine.size(); l++) if (todo[l] == mine[j]) j++;
                    if (j < mine.size()) bad("share", "worker " + num(t) + " did not keep to the order of the input file" + where);
                    did.insert(did.end(), mine.begin(), mine.end());
                }
                else
                {
                    std::vector<Op> w;
                    share(e, (int)t, w);
                    if (key(w) != key(b.second))
                        bad("share", "worker " + num(t) + " made " + num(b.second.size()) + " calls that are not its share of " + num(w.size()) + where);
                }
                ps.shares++;
            }
            if (workload == WL_YCSB)
            {
                std::sort(todo.begin(), todo.end());
                std::sort(did.begin(), did.end());
                if (todo != did) bad("share", "the workers made " + num(did.size()) + " calls that are not the " + num(todo.size()) + " of the input file" + where);
            }
            else if (workload != WL_RANDOM)
                for (int t = 0; t < e.progT; t++)
                {
                    std::vector<Op> w;
                    share(e, t, w);
                    if (!w.empty() && !seen.count((uint64_t)t)) bad("share", "nobody did the share of worker " + std::to_string(t) + where);
                }
        }
    }
}
