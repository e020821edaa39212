// The workload of C29, written once for two kinds of containers: the repository's persistent ones (sut_box.cpp) and the
// standard library's, which serve as the model (box_model.cpp).  Everything a step does follows from its seed and the
// contents it finds.
#pragma once
#include <algorithm>
#include <cstdint>
#include <iterator>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace boxes
{
typedef uint64_t u64;
struct Dice
{
    u64 s;
    u64 next()
    {
        u64 z = s += 0x9E3779B97F4A7C15ull;
        z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ z >> 27) * 0x94D049BB133111EBull;
        return z ^ z >> 31;
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
};
inline void add(u64 &h, u64 x)
{
    h = (h ^ x) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
}
// Only the persistent containers have these.
template <class C> auto constAt(const C &v, size_t i)
{
    if constexpr (requires { v.const_at(i); }) return v.const_at(i);
    else return v.at(i);
}
template <class C> u64 ends(const C &v)
{
    if constexpr (requires { v.cfront(); v.cback(); }) return (u64)v.cfront() * 3 + (u64)v.cback();
    else return (u64)v.front() * 3 + (u64)v.back();
}
enum { MAX_SEQ = 28, MAX_STR = 70 };
struct Stop {}; // thrown by the workload itself

// One step on v (and w), whose elements are numbers.  Elements may be written in place: needs a transaction.
template <class C> void seqStep(C &v, C &w, Dice &d, u64 &h, bool inTx)
{
    using T = typename C::value_type;
    size_t n = v.size(), pos = d.below(n + 1), cnt = d.below(8) ? d.below(4) : d.below(12);
    auto x = [&] { return T(d.next() >> 8); };
    T arr[12];
    for (auto &a : arr) a = x();
    int kind = (int)d.below(inTx ? 42 : 30);
    if (n > MAX_SEQ && kind < 20) kind = d.below(2) ? 9 : 10;
    size_t at = n ? d.below(n) : 0, upto = n ? at + d.below(n - at + 1) : 0;
    typedef typename C::difference_type D;
    auto ret = [&](auto it) { add(h, (u64)(it - v.begin())); };
    switch (kind)
    {
    case 0: v.push_back(arr[0]); break;
    case 1: v.push_back(x()); break;
    case 2: v.emplace_back(arr[1]); break;
    case 3: ret(v.insert(v.cbegin() + (D)pos, arr[2])); break;
    case 4: ret(v.insert(v.cbegin() + (D)pos, cnt, arr[3])); break;
    case 5: ret(v.insert(v.cbegin() + (D)pos, arr, arr + cnt)); break;
    case 6: ret(v.insert(v.cbegin() + (D)pos, {arr[0], arr[1], arr[2]})); break;
    case 7: ret(v.emplace(v.cbegin() + (D)pos, arr[4])); break;
    case 8: ret(v.insert(v.cbegin() + (D)pos, x())); break;
    case 9: if (n) ret(v.erase(v.cbegin() + (D)at)); break;
    case 10: ret(v.erase(v.cbegin() + (D)at, v.cbegin() + (D)upto)); break;
    case 11: v.resize(d.below(MAX_SEQ)); break;
    case 12: { size_t k = d.below(MAX_SEQ); if (n && d.below(2)) v.resize(k, std::as_const(v)[at]); else v.resize(k, arr[5]); break; }
    case 13: v.reserve(d.below(2 * MAX_SEQ)); break;
    case 14: v.shrink_to_fit(); break;
    case 15: if (d.below(3) == 0) v.clear(); else if (n) v.pop_back(); break;
    case 16: v.assign(cnt, arr[6]); break;
    case 17: v.assign(arr + 2, arr + 2 + cnt % 10); break;
    case 18: v.assign({arr[7], arr[8]}); break;
    case 19: v = {arr[9], arr[10], arr[11], arr[0]}; break;
    case 20: if (n) v.pop_back(); break;
    case 21: v = w; break;
    case 22: v = std::move(w); if constexpr (std::is_same_v<C, std::vector<T>>) w.clear(); break;
    case 23: v.swap(w); break;
    case 24:
    {
        std::vector<T> s(arr, arr + cnt);
        if constexpr (requires { v.assign(s); }) { if (d.below(2)) v.assign(s); else v = s; }
        else { d.next(); v = s; }
        break;
    }
    case 25:
        if constexpr (requires { v.free_data(); }) v.free_data();
        else v.clear();
        break;
    case 26: if (n && n <= MAX_SEQ) v.push_back(std::as_const(v)[at]); break;
    case 27: if (n && n <= MAX_SEQ) v.insert(v.cbegin() + (D)pos, std::as_const(v)[at]); break;
    case 28:
        try { (void)std::as_const(v).at(n + d.below(3)); add(h, 1); }
        catch (std::out_of_range &) { add(h, 2); }
        if (n) add(h, std::as_const(v).at(at));
        try { if (d.below(2)) v.at(n + d.below(3)) = x(); else (void)constAt(v, n + d.below(3)); add(h, 1); }
        catch (std::out_of_range &) { add(h, 2); }
        break;
    case 29:
        if (d.below(4) == 0) v = (const C &)v;
        add(h, v > w);
        add(h, v <= w);
        add(h, v == w);
        add(h, v != w);
        add(h, v < w);
        add(h, v >= w);
        break;
    case 30: if (n) v.at(at) = x(); break;
    case 31: if (n) v[at] = x(); break;
    case 32: if (n) { v.front() = x(); v.back() = x(); } break;
    case 33: for (auto it = v.begin() + (D)at, e = v.begin() + (D)upto; it != e; ++it) *it = *it + 3; break;
    case 34:
    case 35:
        if constexpr (requires { v.range(at, upto - at); })
        {
            if (n) for (auto &e : v.range(at, upto - at)) e = e * 5 + 1;
        }
        else for (size_t i = at; i < upto; i++) v[i] = v[i] * 5 + 1;
        break;
    case 36:
    {
        size_t step = 1 + d.below(5);
        if constexpr (requires { v.range(at, upto - at, step); })
        {
            if (n && upto > at) { auto r = v.range(at, upto - at, step); for (auto it = r.begin(); it != r.end(); ++it) *it = *it * 7 + 2; }
        }
        else for (size_t i = at; i < upto; i++) v[i] = v[i] * 7 + 2;
        break;
    }
    case 37: std::reverse(v.begin(), v.end()); break;
    case 38: if (n) { auto it = v.begin() + (D)at; *it = x(); if (at + 1 < n) { it++; *it = x(); } if (at) *(it - (D)at) = arr[1]; } break;
    case 39: if (n) *v.rbegin() = x(); break;
    case 40: if (n > 1) std::swap(v[0], v[n - 1]); break;
    case 41:
        if constexpr (requires { v.data(); })
        {
            if (n) { T *p = v.data(); p[at] = x(); p[n - 1] = arr[3]; }
        }
        else if (n) { v[at] = x(); v[n - 1] = arr[3]; }
        break;
    }
}
template <class C> void seqRead(const C &v, u64 &h)
{
    add(h, v.size());
    add(h, v.empty());
    for (auto it = v.begin(); it != v.end(); ++it) add(h, (u64)*it);
    if (!v.empty()) { add(h, (u64)v.front()); add(h, (u64)v.back()); add(h, (u64)*v.crbegin()); add(h, ends(v)); add(h, (u64)constAt(v, v.size() / 2)); }
}

// Elements that own memory of their own.  Elements are made of numbers and can only be copied inside transactions.
template <class C> void itemStep(C &v, C &w, Dice &d, u64 &h, bool inTx)
{
    typedef typename C::difference_type D;
    size_t n = v.size(), pos = d.below(n + 1), cnt = d.below(4);
    int kind = (int)d.below(inTx ? 17 : 15);
    if (n > MAX_SEQ / 2 && kind < 8) kind = 9;
    size_t at = n ? d.below(n) : 0, upto = n ? at + d.below(n - at + 1) : 0;
    auto ret = [&](auto it) { add(h, (u64)(it - v.begin())); };
    const C &cv = v, &cw = w;
    u64 x = d.next() >> 8;
    switch (kind)
    {
    case 0: case 1: case 2: v.emplace_back(x); break;
    case 3: ret(v.emplace(v.cbegin() + (D)pos, x)); break;
    case 4: if (!cw.empty()) ret(v.insert(v.cbegin() + (D)pos, cw[d.below(cw.size())])); break;
    case 5: if (!cw.empty()) ret(v.insert(v.cbegin() + (D)pos, cnt, cw[0])); break;
    case 6: if (!cw.empty()) ret(v.insert(v.cbegin() + (D)pos, cw.begin(), cw.end())); break;
    case 7: if (n) v.push_back(cv[at]); break;
    case 8: if (n) ret(v.erase(v.cbegin() + (D)at)); break;
    case 9: ret(v.erase(v.cbegin() + (D)at, v.cbegin() + (D)upto)); break;
    case 10: { size_t k = d.below(MAX_SEQ / 2); if (n && d.below(2)) v.resize(k, cv[at]); else v.resize(k); break; }
    case 11: if (d.below(2)) v.clear(); else v.shrink_to_fit(); break;
    case 12: v = w; break;
    case 13: v = std::move(w); if constexpr (requires { typename C::allocator_type; }) w.clear(); break;
    case 14: v.swap(w); break;
    case 15: if (n) v[at].set(x); break;
    case 16: for (size_t i = at; i < upto; i++) v[i].set(x + i); break;
    }
}
template <class C> void itemRead(const C &v, u64 &h)
{
    add(h, v.size());
    for (auto it = v.begin(); it != v.end(); ++it) add(h, it->get());
}

template <class S> void textStep(S &s, S &t, Dice &d, u64 &h, bool inTx)
{
    using Ch = typename S::value_type;
    typedef typename S::difference_type D;
    Ch buf[64];
    // Lengths around the size of the short string.
    size_t n = s.size(), len = d.below(3) ? d.below(9) : d.below(48);
    for (size_t i = 0; i < 63; i++) buf[i] = (Ch)('a' + d.below(3));
    buf[63] = 0;
    Ch cz[64];
    std::copy(buf, buf + 64, cz);
    cz[len] = 0;
    std::basic_string<Ch> str(buf, len);
    size_t pos = d.below(n + 1), cnt = d.below(5) ? d.below(n + 3) : d.below(4), tp = d.below(t.size() + 1), tc = d.below(t.size() + 2);
    size_t at = n ? d.below(n) : 0, upto = n ? at + d.below(n - at + 1) : 0;
    Ch c = buf[5];
    auto ret = [&](auto it) { add(h, (u64)(it - s.begin())); };
    const S &cs = s, &ct = t;
    const Ch *zs = d.below(6) ? cz : ct.c_str() + tp;
    int kind = (int)d.below(inTx ? 62 : 56);
    if (n > MAX_STR && kind >= 12) kind = d.below(3);
    switch (kind)
    {
    case 0: if (d.below(3)) s.resize(d.below(40)); else s.clear(); break;
    case 1: s.erase(pos, cnt); break;
    case 2: s = str; break;
    case 3: s.resize(d.below(50), c); break;
    case 4: if (n) ret(s.erase(s.cbegin() + (D)at)); break;
    case 5: ret(s.erase(s.cbegin() + (D)at, s.cbegin() + (D)upto)); break;
    case 6: if (n) s.pop_back(); break;
    case 7: s.reserve(d.below(90)); break;
    case 8: s.shrink_to_fit(); break;
    case 9: s.assign(buf, len); break;
    case 10: s.assign(ct, tp, tc); break;
    case 11: s = zs; break;
    case 12: s.push_back(c); break;
    case 13: s += c; break;
    case 14: s += zs; break;
    case 15: s += ct; break;
    case 16: s.append(len, c); break;
    case 17: s.append(ct, tp, tc); break;
    case 18: s.append(buf, len); break;
    case 19: s.append(buf, buf + len); break;
    case 20: s.append({c, buf[6], buf[7]}); break;
    case 21: s.insert(pos, len, c); break;
    case 22: s.insert(pos, zs); break;
    case 23: s.insert(pos, (const Ch *)buf, len); break;
    case 24: s.insert(pos, ct); break;
    case 25: s.insert(pos, ct, tp, tc); break;
    case 26: ret(s.insert(s.cbegin() + (D)pos, c)); break;
    case 27: ret(s.insert(s.cbegin() + (D)pos, len, c)); break;
    case 28: ret(s.insert(s.cbegin() + (D)pos, buf, buf + len)); break;
    case 29: ret(s.insert(s.cbegin() + (D)pos, {c, buf[8]})); break;
    case 30: s.replace(pos, cnt, ct); break;
    case 31: s.replace(s.cbegin() + (D)at, s.cbegin() + (D)upto, ct); break;
    case 32: s.replace(pos, cnt, ct, tp, tc); break;
    case 33: s.replace(s.cbegin() + (D)at, s.cbegin() + (D)upto, buf, buf + len); break;
    case 34: s.replace(s.cbegin() + (D)at, s.cbegin() + (D)upto, (const Ch *)buf, len); break;
    case 35: s.replace(pos, cnt, len, c); break;
    case 36: s.replace(pos, cnt, (const Ch *)buf, len); break;
    case 37: s.replace(pos, cnt, zs); break;
    case 38: s.replace(s.cbegin() + (D)at, s.cbegin() + (D)upto, len, c); break;
    case 39: s = ct; break;
    case 40: if (inTx) { s = std::move(t); t.clear(); } else s = ct; break; // what a move leaves in a string is unspecified
    case 41: s.assign(len, c); break;
    case 42: s.assign(buf, buf + len); break;
    case 43: s = c; break;
    case 44: s = {c, buf[9], buf[10]}; break;
    case 45: s.assign(str); break;
    case 46: s.assign(str, d.below(len + 1), d.below(10)); break;
    case 47:
    {
        auto sg = [](int x) { return (u64)(x < 0 ? 1 : x > 0 ? 2 : 0); };
        add(h, sg(cs.compare(ct)));
        add(h, sg(cs.compare((const Ch *)cz)));
        add(h, sg(cs.compare(pos, cnt, ct)));
        add(h, sg(cs.compare(pos, cnt, ct, tp, tc)));
        add(h, sg(cs.compare(pos, cnt, (const Ch *)buf, len)));
        add(h, cs == ct);
        add(h, cs < ct);
        add(h, cs == str);
        break;
    }
    case 48:
        add(h, cs.find(ct, pos));
        add(h, cs.find((const Ch *)buf, pos, d.below(4)));
        add(h, cs.find(c, pos));
        add(h, cs.find_first_of((const Ch *)buf, pos, d.below(3)));
        add(h, cs.find_first_not_of(c, pos));
        add(h, cs.find_first_not_of((const Ch *)buf, pos, d.below(3)));
        break;
    case 49:
        add(h, cs.rfind(ct, pos));
        add(h, cs.rfind((const Ch *)buf, pos, d.below(4)));
        add(h, cs.rfind(c, pos));
        add(h, cs.find_last_of((const Ch *)buf, pos, d.below(3)));
        add(h, cs.find_last_not_of(c, pos));
        add(h, cs.find_last_not_of((const Ch *)buf, pos, d.below(3)));
        break;
    case 50:
    {
        Ch out[128];
        size_t k = cs.copy(out, cnt, pos);
        add(h, k);
        for (size_t i = 0; i < k; i++) add(h, (u64)out[i]);
        break;
    }
    case 51:
        try { s.erase(n + 1 + d.below(3), 1); add(h, 1); }
        catch (std::out_of_range &) { add(h, 2); }
        break;
    case 52:
        try { (void)cs.at(n + d.below(3)); add(h, 1); }
        catch (std::out_of_range &) { add(h, 2); }
        try { if (d.below(2)) s.at(n + d.below(3)) = c; else (void)constAt(s, n + d.below(3)); add(h, 1); }
        catch (std::out_of_range &) { add(h, 2); }
        break;
    case 53: s.insert(pos, (const Ch *)buf, len % 4); break;
    case 54: s.push_back(c); break;
    case 55: s.erase(pos); break;
    case 56: if (n) s[at] = c; break;
    case 57: if (n) s.at(at) = c; break;
    case 58: if (n) { s.front() = c; s.back() = buf[11]; } break;
    case 59: for (auto it = s.begin() + (D)at, e = s.begin() + (D)upto; it != e; ++it) *it = c; break;
    case 60: std::reverse(s.begin(), s.end()); break;
    case 61: if (n) { Ch *p = s.data(); p[at] = c; } break;
    }
}
template <class S> void textRead(const S &s, u64 &h)
{
    add(h, s.size());
    const auto *c = s.c_str();
    for (size_t i = 0; i < s.size(); i++) add(h, (u64)c[i]);
    add(h, (u64)c[s.size()]);
    for (auto it = s.cbegin(); it != s.cend(); ++it) add(h, (u64)*it);
    if (!s.empty()) { add(h, (u64)s.front()); add(h, (u64)s.back()); add(h, ends(s)); add(h, (u64)constAt(s, s.size() / 2)); }
}

enum { NSEQ = 4, NTEXT = 2, KINDS = 10 }; // kinds: 0-3 sequences, 4-5 texts, 6 and 9 elements owning memory, 7 array and words, 8 objects
enum Mode { M_PLAIN, M_RUN, M_ABORT, M_THROW, M_NESTED, M_INNER_THROW, M_MANUAL, M_MANUAL_DROP, M_AUTO, M_AUTO_THROW, M_CAUGHT, M_N, M_READ };

// A step of a domain D, of one of the kinds in the mask.  D supplies the containers.
template <class D> void domStep(D &o, u64 mask, Dice &d, u64 &h, bool inTx)
{
    int kind;
    do kind = (int)d.below(KINDS); while (!(mask >> kind & 1));
    bool renew = inTx && d.below(12) == 0, sw = d.below(2);
    switch (kind)
    {
    case 0: if (renew) o.renewSeq(o.a0, o.b0, d); else sw ? seqStep(*o.a0, *o.b0, d, h, inTx) : seqStep(*o.b0, *o.a0, d, h, inTx); break;
    case 1: if (renew) o.renewSeq(o.a1, o.b1, d); else sw ? seqStep(*o.a1, *o.b1, d, h, inTx) : seqStep(*o.b1, *o.a1, d, h, inTx); break;
    case 2: if (renew) o.renewSeq(o.a2, o.b2, d); else sw ? seqStep(*o.a2, *o.b2, d, h, inTx) : seqStep(*o.b2, *o.a2, d, h, inTx); break;
    case 3: if (renew) o.renewSeq(o.a3, o.b3, d); else sw ? seqStep(*o.a3, *o.b3, d, h, inTx) : seqStep(*o.b3, *o.a3, d, h, inTx); break;
    case 4: if (renew) o.renewText(o.s0, o.t0, d); else textStep(sw ? *o.s0 : *o.t0, sw != (d.below(6) == 0) ? *o.t0 : *o.s0, d, h, inTx); break; // sometimes the string itself
    case 5: if (renew) o.renewText(o.s1, o.t1, d); else textStep(sw ? *o.s1 : *o.t1, sw != (d.below(6) == 0) ? *o.t1 : *o.s1, d, h, inTx); break; // sometimes the string itself
    case 6: sw ? itemStep(*o.i0, *o.i1, d, h, inTx) : itemStep(*o.i1, *o.i0, d, h, inTx); break;
    case 7: if (inTx) o.words(d, h); else o.word(d, h); break;
    case 8: if (inTx) o.objects(d, h); else o.atomics(d, h); break;
    case 9: sw ? itemStep(*o.j0, *o.j1, d, h, inTx) : itemStep(*o.j1, *o.j0, d, h, inTx); break;
    }
}
template <class D> u64 domRead(const D &o)
{
    u64 h = 1;
    seqRead(*o.a0, h); seqRead(*o.b0, h);
    seqRead(*o.a1, h); seqRead(*o.b1, h);
    seqRead(*o.a2, h); seqRead(*o.b2, h);
    seqRead(*o.a3, h); seqRead(*o.b3, h);
    textRead(*o.s0, h); textRead(*o.t0, h);
    textRead(*o.s1, h); textRead(*o.t1, h);
    itemRead(*o.i0, h); itemRead(*o.i1, h);
    itemRead(*o.j0, h); itemRead(*o.j1, h);
    o.readRest(h);
    return h;
}
} // namespace boxes

namespace boxes
{
// One operation on a domain.  D::tx, D::manual and D::automatic run a function in a transaction; D::stop aborts one.
template <class D> u64 perform(D &o, u64 seed, u64 b)
{
    Dice d{seed};
    u64 h = 7, mask = b >> 8;
    auto some = [&](int most) { for (int k = 1 + (int)d.below(most); k > 0; k--) domStep(o, mask, d, h, true); };
    bool stopped = false;
    o.begin();
    switch ((int)(b & 255))
    {
    case M_PLAIN: domStep(o, mask, d, h, false); break;
    case M_RUN: o.tx([&] { some(3); }); break;
    case M_ABORT:
        try { o.tx([&] { some(3); o.stop(); }); add(h, 90); }
        catch (typename D::Aborted &) { add(h, 11); }
        break;
    case M_THROW:
        try { o.tx([&] { some(3); throw Stop(); }); add(h, 91); }
        catch (Stop &) { add(h, 12); }
        break;
    case M_NESTED:
        o.tx([&] {
            some(2);
            o.tx([&] { some(2); });
            if (d.below(2)) o.manual([&] { some(1); }, true);
            if (d.below(2)) o.automatic([&] { some(1); });
            some(1);
        });
        break;
    case M_INNER_THROW:
        try { o.tx([&] { some(2); o.tx([&] { some(2); throw Stop(); }); add(h, 92); }); }
        catch (Stop &) { add(h, 13); }
        break;
    case M_CAUGHT:
        try
        {
            o.tx([&] {
                some(2);
                try { o.tx([&] { some(1); stopped = true; throw Stop(); }); }
                catch (Stop &) { add(h, 14); }
            });
            add(h, 93);
        }
        catch (typename D::Failed &)
        {
            if (!stopped) throw;
            add(h, 15);
        }
        break;
    case M_MANUAL: o.manual([&] { some(3); }, true); break;
    case M_MANUAL_DROP: o.manual([&] { some(3); }, false); break;
    case M_AUTO: o.automatic([&] { some(3); }); break;
    case M_AUTO_THROW:
        try { o.automatic([&] { some(3); throw Stop(); }); add(h, 94); }
        catch (Stop &) { add(h, 16); }
        break;
    }
    for (u64 c : {o.called[0], o.called[1], o.called[2]}) add(h, c);
    add(h, domRead(o));
    return h;
}
} // namespace boxes
