// The model of C29: the same steps on the standard library's containers.
#pragma once
#include "boxes.hpp"
#include <array>
#include <functional>
#include <memory>

namespace boxes
{
struct Model
{
    struct Aborted {};
    struct Failed {};
    template <class C> struct Box
    {
        C c;
        C &operator*() { return c; }
        const C &operator*() const { return c; }
    };
    struct Item
    {
        u64 v;
        Item(u64 x = 5) : v(x) {}
        void set(u64 x) { v = x; }
        u64 get() const { return v; }
    };
    typedef std::vector<u64> Seq;
    struct Data
    {
        Box<Seq> a0, b0, a1, b1, a2, b2, a3, b3;
        Box<std::string> s0, t0;
        Box<std::wstring> s1, t1;
        Box<std::vector<Item>> i0, i1, j0, j1;
        std::array<u64, 8> arr{}, arr2{};
        u64 num = 0, raw = 0, flushed = 0;
        std::vector<u64> list;
        std::vector<u64> block;
        bool has = false;
        u64 boxed = 0;
        bool hasArr = false, hasFixed = false, hasTrio = false, hasBig = false;
        u64 big[2] = {0, 0};
        u64 trio[4] = {0, 0, 0, 0};
        std::vector<u64> some;
    };
    Data x;
    // names the steps use
    Box<Seq> &a0 = x.a0, &b0 = x.b0, &a1 = x.a1, &b1 = x.b1, &a2 = x.a2, &b2 = x.b2, &a3 = x.a3, &b3 = x.b3;
    Box<std::string> &s0 = x.s0, &t0 = x.t0;
    Box<std::wstring> &s1 = x.s1, &t1 = x.t1;
    Box<std::vector<Item>> &i0 = x.i0, &i1 = x.i1, &j0 = x.j0, &j1 = x.j1;
    Model() {}
    Model(const Data &d) : x(d) {}
    Model(const Model &) = delete;
    u64 called[3] = {0, 0, 0};
    int depth = 0;
    bool dead = false;

    void begin() { called[0] = called[1] = called[2] = 0; depth = 0; dead = false; }
    void run(const std::function<void()> &f, bool commit, bool report)
    {
        Data before;
        if (!depth) before = x;
        depth++;
        bool ok = false;
        auto end = [&] {
            if (!ok) dead = true;
            if (--depth) return;
            if (dead) x = before;
            called[dead ? 1 : 0]++;
            called[2]++;
        };
        try { f(); }
        catch (...) { end(); throw; }
        ok = commit && !dead;
        bool fail = report && !ok;
        end();
        if (fail) throw Failed();
    }
    void tx(const std::function<void()> &f) { run(f, true, true); }
    void manual(const std::function<void()> &f, bool commit) { run(f, commit, false); }
    void automatic(const std::function<void()> &f) { run(f, true, true); }
    void stop() { throw Aborted(); }

    template <class C> void renewSeq(Box<C> &a, Box<C> &b, Dice &d)
    {
        u64 v[8];
        for (auto &q : v) q = d.next() >> 8;
        size_t n = d.below(9);
        switch (d.below(6))
        {
        case 0: a.c = C(n, v[0]); break;
        case 1: a.c = C(n); break;
        case 2: a.c = C(v, v + n % 8); break;
        case 3: a.c = b.c; break;
        case 4: a.c = std::move(b.c); b.c.clear(); break;
        case 5: a.c = C{v[1], v[2], v[3]}; break;
        }
    }
    template <class S> void renewText(Box<S> &a, Box<S> &b, Dice &d)
    {
        using Ch = typename S::value_type;
        Ch buf[64];
        for (auto &c : buf) c = (Ch)('a' + d.below(3));
        size_t n = d.below(40);
        buf[63] = 0;
        switch (d.below(7))
        {
        case 0: a.c = S(n, buf[0]); break;
        case 1: a.c = S(buf, n); break;
        case 2: a.c = S((const Ch *)buf + 20 + n / 2); break;
        case 3: a.c = S(buf, buf + n); break;
        case 4: a.c = b.c; break;
        case 5: a.c = std::move(b.c); b.c.clear(); break;
        case 6: { size_t p = d.below(b.c.size() + 1), m = d.below(30); a.c = S(b.c, p, m); break; }
        }
    }
    void words(Dice &d, u64 &h)
    {
        u64 v = d.next() >> 8;
        size_t i = d.below(8), n = d.below(9 - i);
        switch (d.below(9))
        {
        case 0: x.arr[i] = v; break;
        case 1: x.arr.at(i) = v; break;
        case 2: x.arr.fill(v); break;
        case 3: x.arr.swap(x.arr2); break;
        case 4: for (size_t j = i; j < i + n; j++) x.arr[j] += v; break;
        case 5: x.num += v; add(h, x.num); break;
        case 6: x.num = v; break;
        case 7: x.raw ^= v; break;
        case 8: x.arr2 = x.arr; x.arr.back() = v; break;
        }
    }
    void word(Dice &d, u64 &) { x.flushed = d.next() >> 8; }
    void objects(Dice &d, u64 &h)
    {
        u64 v = d.next() >> 8;
        size_t i = d.below(x.list.size() + 1);
        switch (d.below(14))
        {
        case 0: case 1: if (x.list.size() < 12) x.list.insert(x.list.begin() + i, v); break;
        case 2: if (i < x.list.size()) { add(h, x.list[i]); x.list.erase(x.list.begin() + i); } break;
        case 3: if (i < x.list.size()) x.list[i] = v; break;
        case 4: x.block.assign(v % 7, 0); for (size_t j = 0; j < x.block.size(); j++) x.block[j] = v + j; break;
        case 5: if (x.block.size()) x.block[v % x.block.size()] = v; break;
        case 6: x.block.clear(); break;
        case 7: x.hasTrio = !x.hasTrio; for (u64 &e : x.trio) e = 5; break;
        case 8: if (x.hasTrio) x.trio[v % 4] = v; break;
        case 9: x.some.assign(v % 4, 5); break;
        case 10: if (x.some.size()) x.some[v % x.some.size()] = v; break;
        case 11: if (!x.hasBig) { x.hasBig = true; x.big[0] = x.big[1] = v; } break;
        case 12: if (x.hasBig) x.big[v % 2] = v; break;
        case 13: x.hasBig = false; break;
        }
    }
    void atomics(Dice &d, u64 &)
    {
        u64 v = d.next() >> 8;
        if (d.below(3) == 0) return; // compaction
        u64 what = d.below(4);
        if (what > 1) { if (x.has) x.has = false; else { x.has = true; x.boxed = v; } }
        else if (what) x.hasArr = !x.hasArr;
        else x.hasFixed = !x.hasFixed;
    }
    void readRest(u64 &h) const
    {
        for (u64 v : x.arr) add(h, v);
        for (u64 v : x.arr2) add(h, v);
        add(h, x.num); add(h, x.raw); add(h, x.flushed);
        add(h, x.list.size());
        for (u64 v : x.list) add(h, v);
        add(h, x.block.size());
        for (u64 v : x.block) add(h, v);
        add(h, x.has);
        if (x.has) { add(h, x.boxed); add(h, ~x.boxed); }
        add(h, x.hasArr);
        if (x.hasArr) for (int i = 0; i < 6; i++) add(h, 5);
        add(h, x.hasFixed);
        if (x.hasFixed) for (int i = 0; i < 4; i++) add(h, 5);
        add(h, x.hasTrio);
        if (x.hasTrio) for (u64 v : x.trio) add(h, v);
        add(h, x.hasBig);
        if (x.hasBig) for (int i = 0; i < 12; i++) add(h, x.big[i / 6] + i % 6);
        add(h, x.some.size());
        for (u64 v : x.some) add(h, v);
    }
};
} // namespace boxes
