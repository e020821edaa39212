// History checkers: per-key linearizability with operations pending at a crash, and the persistent word chain.
#include "scenario.hpp"
#include <algorithm>
#include <map>
#include <set>
#include <stdio.h>
#include <unordered_set>

const char *opName[OP_N] = {"get", "containsKey", "put", "putIfAbsent", "replace", "remove", "removeIfEqual", "increment",
                            "insert", "erase", "contains", "get", "increment", "pcas", "pcas_read", "size", "isEmpty", "edge",
                            "insert", "insert_or_assign", "iterate_for", "rehash", "clear", "step", "unreachable", "add", "read", "save", "check", "count", "use", "remake", "defragment"};

static std::string vs(uint64_t v)
{
    if (v == ABSENT) return "absent";
    if (v == REFUSED) return "refused";
    if (v == RESERVED) return "reserved-sentinel";
    char b[32];
    snprintf(b, sizeof b, "%llu", (unsigned long long)v);
    return b;
}
std::string op_text(const HOp &h)
{
    char b[256];
    const Op &o = h.op;
    std::string args;
    switch (o.code)
    {
    case OP_SIZE: case OP_EMPTY: break;
    case OP_PUT: case OP_PIA: case OP_REMOVE_EQ: case OP_H_INSERT: case OP_H_ASSIGN: args = vs(o.k) + ", " + vs(o.a); break;
    case OP_REPLACE: case OP_W_CAS: args = vs(o.k) + ", " + vs(o.a) + ", " + vs(o.b); break;
    case OP_X_DO:
    {
        static const char *mode[] = {"plain", "transaction", "aborted", "throws", "nested", "inner throws", "manual", "manual not committed", "automatic", "automatic throws", "inner failure swallowed", "", "read"};
        args = "domain " + vs(o.k) + ", seed " + vs(o.a) + ", " + ((o.b & 255) < 13 ? mode[o.b & 255] : "?") + ", kinds " + vs(o.b >> 8);
        break;
    }
    case OP_X_LEAKS: break;
    case OP_L_ADD: case OP_L_READ: args = vs(o.k) + ", mode " + vs(o.a & 15) + ", seed " + vs(o.a >> 8) + ", room " + vs(o.b & 255) + (o.b >> 8 & 1 ? ", with a deadline" : ""); break;
    case OP_K_USE: args = vs(o.k) + ", what " + vs(o.a & 15) + ", seed " + vs(o.a >> 8) + (o.b ? ", at rest" : ""); break;
    case OP_K_SAVE: case OP_K_ADD: args = vs(o.k) + ", seed " + vs(o.a >> 8) + (o.b ? ", at rest" : ""); break;
    default: args = vs(o.k);
    }
    std::string r = h.status == ST_PENDING ? "(in flight)" : h.status == ST_THREW ? "threw" : vs(h.res);
    if (h.status == ST_OK && o.code == OP_W_CAS) r = (h.aux ? "success" : "failed, saw ") + (h.aux ? "" : vs(h.res));
    snprintf(b, sizeof b, "era%d t%d [%llu,%s] %s(%s) -> %s", h.era, h.fiber, (unsigned long long)h.inv,
             h.ret ? std::to_string(h.ret).c_str() : "-", opName[o.code], args.c_str(), r.c_str());
    return b;
}

// Sequential model of one key. Returns false if the recorded result is impossible in state st.
static bool step(const Op &o, bool known, uint64_t res, uint64_t st, uint64_t &nst)
{
    nst = st;
    uint64_t exp = 0;
    bool present = st != ABSENT;
    switch (o.code)
    {
    case OP_GET: exp = st; break;
    case OP_CONTAINS: exp = present; break;
    case OP_PUT: exp = st; nst = o.a; break;
    case OP_PIA: exp = st; if (!present) nst = o.a; break;
    case OP_REPLACE: exp = present && st == o.a; if (exp) nst = o.b; break;
    case OP_REMOVE: exp = present; nst = ABSENT; break;
    case OP_REMOVE_EQ: exp = present && st == o.a; if (exp) nst = ABSENT; break;
    case OP_INC: exp = st; nst = (present ? st : 0) + 8; break;
    case OP_A_INSERT: exp = !present; if (!present || o.b) nst = o.k; break;
    case OP_A_ERASE: exp = present; nst = ABSENT; break;
    case OP_A_CONTAINS: exp = present; break;
    case OP_A_GET: exp = present ? st : 0; break;
    case OP_H_INSERT: exp = !present; if (!present) nst = o.a; break;
    case OP_H_ASSIGN: exp = !present; nst = o.a; break;
    case OP_H_SCAN: exp = st; break;
    case OP_H_CLEAR: exp = res; nst = ABSENT; break;
    case OP_L_ADD: if (known && res == REFUSED) exp = res; else { exp = st; nst = (present ? st : 0) + 8; } break;
    // Bit 1: parts of it may be missing, because the operation was cut off.
    case OP_K_SAVE: exp = present ? st & ~2ull : st; nst = ((present ? st & ~2ull : 0) + 8) | (known ? 0 : 2); break;
    case OP_K_READ:
        if (!known) break;
        exp = present && !(res != ABSENT && res & 2) ? st & ~2ull : st;
        nst = present ? st & ~2ull : st;
        break;
    case OP_K_ADD: exp = res; nst = (present ? st : 0) + 8; break;
    case OP_K_USE: exp = res; break;
    case OP_L_READ: exp = known && res == REFUSED ? res : st; break;
    case OP_A_INC: nst = (present ? st : 0) + 1; exp = nst; break;
    }
    return !known || exp == res;
}

namespace
{
struct Solver
{
    const std::vector<const HOp *> &h;
    const std::vector<uint64_t> &crash;
    std::unordered_set<uint64_t> seen;
    std::vector<uint64_t> deadline; // optional ops may not be linearized after this
    size_t n;
    uint64_t mandatory = 0;
    uint64_t nodes = 0;
    bool overflow = false;
    std::set<uint64_t> *finals = nullptr; // collect every state the history can end in
    bool dfs(uint64_t done, uint64_t st)
    {
        if ((done & mandatory) == mandatory)
        {
            if (!finals) return true;
            finals->insert(st);
        }
        if (++nodes > 2000000) { overflow = true; return true; }
        uint64_t key = sim::mix2(done, st);
        if (!seen.insert(key).second) return false;
        // earliest return among the mandatory ones not yet linearized
        uint64_t minRet = ~0ull;
        for (size_t i = 0; i < n; i++)
            if (!(done >> i & 1) && (mandatory >> i & 1)) minRet = std::min(minRet, h[i]->ret);
        uint64_t maxInvDone = 0;
        for (size_t i = 0; i < n; i++)
            if (done >> i & 1) maxInvDone = std::max(maxInvDone, h[i]->inv);
        for (size_t i = 0; i < n; i++)
        {
            if (done >> i & 1) continue;
            if (h[i]->inv > minRet) continue;
            bool opt = !(mandatory >> i & 1);
            if (opt && maxInvDone > deadline[i]) continue; // a later process lifetime has already been observed
            uint64_t ns;
            if (!step(h[i]->op, h[i]->status == ST_OK, h[i]->res, st, ns)) continue;
            if (opt && ns == st) continue;
            if (dfs(done | 1ull << i, ns)) return true;
        }
        return false;
    }
};
}

LinResult check_history(const std::vector<HOp> &h, const std::vector<uint64_t> &crash)
{
    std::map<uint64_t, std::vector<const HOp *>> byKey;
    std::vector<const HOp *> everywhere; // acts on all keys
    bool overflowed = false;
    for (auto &o : h)
    {
        if (o.op.code == OP_SIZE || o.op.code == OP_EMPTY || o.op.code == OP_H_REHASH || o.op.code == OP_H_DEFRAG || o.op.code == OP_H_WHOLE || o.op.code == OP_X_LEAKS) continue;
        if (o.status == ST_OK && o.res == RESERVED && o.op.code >= OP_H_INSERT)
            return {false, "an element was seen in an impossible state: " + op_text(o)};
        if (o.op.code == OP_H_CLEAR) { everywhere.push_back(&o); continue; }
        if (o.status == ST_OK && (o.op.code == OP_GET || o.op.code == OP_PUT || o.op.code == OP_PIA || o.op.code == OP_INC) && o.res == RESERVED)
            return {false, "a reserved sentinel was returned to the caller: " + op_text(o)};
        byKey[o.op.k].push_back(&o);
    }
    for (auto *o : everywhere) for (auto &kv : byKey) kv.second.push_back(o);
    for (auto &kv : byKey)
    {
        auto &v = kv.second;
        std::stable_sort(v.begin(), v.end(), [](const HOp *a, const HOp *b) { return a->inv < b->inv; });
        bool over = false;
        auto deadline = [&](const HOp *o) {
            uint64_t d = o->era < (int)crash.size() ? crash[o->era] : ~0ull;
            return o->status == ST_THREW ? std::min(d, o->ret) : d;
        };
        // Long histories are cut where nothing is going on; each piece starts from every state the one before can end in.
        std::set<uint64_t> states{ABSENT};
        bool solved = true;
        for (size_t from = 0, to; from < v.size() && solved; from = to)
        {
            to = v.size();
            if (v.size() > 64)
            {
                uint64_t end = 0;
                for (to = from; to < v.size() && (to == from || v[to]->inv < end || to - from < 8); to++)
                    end = std::max(end, v[to]->status == ST_OK ? v[to]->ret : deadline(v[to]));
                // the last one may reach over the cut
                while (to < v.size() && v[to]->inv < end) { end = std::max(end, v[to]->status == ST_OK ? v[to]->ret : deadline(v[to])); to++; }
            }
            if (to - from > 64) { over = true; break; }
            std::vector<const HOp *> part(v.begin() + from, v.begin() + to);
            std::set<uint64_t> next;
            bool last = to == v.size(), any = false;
            for (uint64_t st : states)
            {
                Solver s{part, crash, {}, {}, part.size()};
                if (!last) s.finals = &next;
                s.deadline.assign(part.size(), ~0ull);
                for (size_t i = 0; i < part.size(); i++)
                {
                    if (part[i]->status == ST_OK) s.mandatory |= 1ull << i;
                    else s.deadline[i] = deadline(part[i]);
                }
                if (s.dfs(0, st)) any = true;
                if (s.overflow && !last) { over = true; break; }
                if (last && any) break;
            }
            if (over) break;
            solved = last ? any : !next.empty();
            states = next;
        }
        if (over) { overflowed = true; continue; }
        if (!solved)
        {
            std::string why = "no atomic order explains the operations on key " + std::to_string(kv.first) + ":";
            for (auto *o : v) why += "\n    " + op_text(*o);
            return {false, why};
        }
    }
    return {true, overflowed ? "overflow" : ""};
}

// Membership only: a key inserted stays until an erase, a key erased stays away until an insert.  Which of two
// overlapping inserts or erases "wins" is not judged.
LinResult check_membership(const std::vector<HOp> &h)
{
    std::map<uint64_t, std::vector<const HOp *>> byKey;
    for (auto &o : h)
        if (o.op.code != OP_SIZE && o.op.code != OP_EMPTY) byKey[o.op.k].push_back(&o);
    for (auto &kv : byKey)
    {
        auto fail = [&](const std::string &m, const HOp *r) {
            std::string why = m + " (key " + std::to_string(kv.first) + "): " + op_text(*r) + "; all calls on the key:";
            for (auto *o : kv.second) why += "\n    " + op_text(*o);
            return LinResult{false, why};
        };
        auto ins = [](const HOp *o) { return o->op.code == OP_A_INSERT || o->op.code == OP_A_INC; };
        for (auto *r : kv.second)
        {
            if (r->status != ST_OK) continue;
            bool present = ins(r) ? r->res == 0 : r->res != 0;
            if (r->op.code == OP_A_GET && r->res && r->res != r->op.k) return fail("a value nobody stored was returned", r);
            if (present)
            {
                bool just = false;
                for (auto *i : kv.second)
                {
                    if (!ins(i) || i == r || i->inv > r->ret) continue;
                    bool gone = false;
                    if (i->status != ST_PENDING)
                        for (auto *e : kv.second)
                            if (e->op.code == OP_A_ERASE && e != r && e->status == ST_OK && e->inv > i->ret && e->ret < r->inv) gone = true;
                    if (!gone) { just = true; break; }
                }
                if (!just) return fail("reported present although no insertion since the last completed erase explains it", r);
            }
            else
                for (auto *i : kv.second)
                {
                    if (!ins(i) || i == r || i->status != ST_OK || i->ret >= r->inv) continue;
                    bool maybe = false;
                    for (auto *e : kv.second)
                        if (e->op.code == OP_A_ERASE && e != r && e->inv < r->ret && (e->status == ST_PENDING || e->ret > i->inv)) maybe = true;
                    if (!maybe) return fail("reported absent although an insertion had completed and no erase had begun", r);
                }
        }
    }
    return {true, ""};
}

// Persistent words: every value is used once, so successful swaps form a chain.
LinResult check_words(const std::vector<HOp> &h, const std::vector<uint64_t> &crash)
{
    std::map<uint64_t, std::vector<const HOp *>> byKey;
    for (auto &o : h) byKey[o.op.k].push_back(&o);
    for (auto &kv : byKey)
    {
        auto fail = [&](const std::string &m) {
            std::string why = m + " (word " + std::to_string(kv.first) + "):";
            for (auto *o : kv.second) why += "\n    " + op_text(*o);
            return LinResult{false, why};
        };
        std::map<uint64_t, const HOp *> writer; // value -> CAS installing it (completed or in flight)
        std::map<std::pair<int, uint64_t>, const HOp *> next;   // value -> successful CAS replacing it
        for (auto *o : kv.second)
            if (o->op.code == OP_W_CAS)
            {
                if (o->status == ST_OK && !o->aux)
                {
                    if (o->res == o->op.a) return fail("a failed swap reported the expected value as the one it found");
                    if (o->res & 7) return fail("a failed swap reported a value with marker bits");
                    continue;
                }
                writer[o->op.b] = o;
                if (o->status == ST_OK)
                {
                    if (next.count({o->era, o->op.a})) return fail("two swaps replaced the same value");
                    next[{o->era, o->op.a}] = o;
                }
            }
        // chain position: walk predecessors
        auto pos = [&](uint64_t v) -> int {
            int n = 0;
            while (v != 0)
            {
                auto it = writer.find(v);
                if (it == writer.end()) return -1;
                v = it->second->op.a;
                if (++n > 10000) return -1;
            }
            return n;
        };
        // anc(a,b): a is b or an ancestor of b
        auto anc = [&](uint64_t a, uint64_t b) {
            int n = 0;
            while (n++ < 10000)
            {
                if (a == b) return true;
                if (b == 0) return false;
                auto it = writer.find(b);
                if (it == writer.end()) return false;
                b = it->second->op.a;
            }
            return false;
        };
        // Values observed durable: returned by a read, seen by a failed swap's report is not durable, replaced by a success.
        std::vector<const HOp *> ord(kv.second);
        std::stable_sort(ord.begin(), ord.end(), [](const HOp *a, const HOp *b) { return (a->ret ? a->ret : ~0ull) < (b->ret ? b->ret : ~0ull); });
        for (auto *o : ord)
        {
            if (o->status != ST_OK) continue;
            uint64_t v;
            if (o->op.code == OP_W_READ) v = o->res;
            else if (o->aux) v = o->op.b;
            else v = o->res;
            if (v & 7) return fail("a value with marker bits was returned");
            if (pos(v) < 0) return fail("a value was returned that nobody wrote");
            // everything durable before o was invoked in a LATER era must be an ancestor-or-equal of what o saw
            for (auto *q : kv.second)
            {
                if (q == o || q->status != ST_OK || q->ret == 0 || q->ret >= o->inv) continue;
                uint64_t d;
                bool sameEra = q->era == o->era;
                if (q->op.code == OP_W_READ) d = q->res;
                else if (q->aux) d = sameEra ? q->op.b : q->op.a;
                else { if (!sameEra) continue; d = q->res; }
                if (!anc(d, v))
                    return fail(sameEra ? "an older value was seen after a newer one" : "a value that was already durable was lost by the crash");
            }
        }
        // successful swaps must really lie on the chain of what was seen last in their era
        uint64_t last = ABSENT;
        for (auto *o : ord) if (o->status == ST_OK && o->quiet && o->op.code == OP_W_READ) last = o->res;
        (void)last;
        for (auto *o : kv.second)
            if (o->op.code == OP_W_CAS && o->status == ST_OK && o->aux)
                for (auto *q : kv.second)
                    if (q->quiet && q->op.code == OP_W_READ && q->status == ST_OK && q->era == o->era && q->inv > o->ret && !anc(o->op.b, q->res))
                        return fail("a successful swap left no trace");
    }
    return {true, ""};
}
