// C22: nearest neighbour dictionaries and succinct sorted stacks against ordered sets / vectors
#include "vf.hpp"
#include "derive.hpp"
#include "gen_bv.hpp"
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <set>
using namespace sdsl;
using vf::Case;

template <uint8_t D> static void nnd(Case& c)
{
    typedef nearest_neighbour_dictionary<D> T;
    uint64_t n = c.rng.size(c.thorough ? 40000 : 6000);
    bit_vector bv(n, 0);
    unsigned sh = c.rng.below(6);
    uint64_t den = 1 + (1ULL << c.rng.below(12));
    for (uint64_t i = 0; i < n; ++i) {
        switch (sh) {
            case 0: bv[i] = c.rng.below(2); break;
            case 1: bv[i] = c.rng.chance(1, den); break;
            case 2: bv[i] = 1; break;
            case 3: bv[i] = 0; break;
            case 4: bv[i] = (i / (den + 3)) & 1; break;
            default: bv[i] = i % (D ? D : 1) == (uint64_t)D - 1;
        }
    }
    if (n && c.rng.chance(1, 3)) bv[n - 1] = 1;
    if (n && c.rng.chance(1, 3)) bv[0] = 1;
    std::vector<uint64_t> ones;
    for (uint64_t i = 0; i < n; ++i) if (bv[i]) { ones.push_back(i); c.mixfp(i); }
    c.desc("%llu bits, %zu ones, shape %u", (unsigned long long)n, ones.size(), sh);
    c.trivial_if(n < 3);
    std::unique_ptr<T> t(new T(bv));
    const char* how = "built"; t = derive(c, std::move(t), &how); c.desc("%s", how);
    const T& d = *t;
    VF_EQ("size", d.size(), n, "%s", how);
    VF_EQ("ones", d.ones(), ones.size(), "%s", how);
    uint64_t r = 0;
    for (uint64_t i = 0; i <= n; ++i) {
        VF_EQ("rank", d.rank(i), r, "rank(%llu)", (unsigned long long)i);
        if (i < n) {
            if (r < ones.size()) VF_EQ("next", d.next(i), ones[r], "next(%llu)", (unsigned long long)i);
            if (bv[i]) ++r;
            if (r > 0) VF_EQ("prev", d.prev(i), ones[r - 1], "prev(%llu)", (unsigned long long)i);
        }
    }
    for (uint64_t i = 1; i <= ones.size(); ++i) VF_EQ("select", d.select(i), ones[i - 1], "select(%llu)", (unsigned long long)i);
}
VF_SUITE("nearest_neighbour_dictionary<1>", 60, 800) { nnd<1>(c); }
VF_SUITE("nearest_neighbour_dictionary<2>", 60, 800) { nnd<2>(c); }
VF_SUITE("nearest_neighbour_dictionary<7>", 60, 800) { nnd<7>(c); }
VF_SUITE("nearest_neighbour_dictionary<30>", 60, 800) { nnd<30>(c); }
VF_SUITE("nearest_neighbour_dictionary<64>", 60, 800) { nnd<64>(c); }
VF_SUITE("nearest_neighbour_dictionary<255>", 60, 800) { nnd<255>(c); }

static void dyn(Case& c)
{
    uint64_t n = 1;
    switch (c.rng.below(5)) {
        case 0: n = 1 + c.rng.below(130); break;
        case 1: n = (c.rng.chance(1, 2) ? 64 : 4096) + c.rng.below(5) - 2; break;
        case 2: n = 262144 + c.rng.below(5) - 2; break;
        case 3: n = 1 + c.rng.below(300000); break;
        default: n = 1 + c.rng.size(20000);
    }
    std::unique_ptr<nn_dict_dynamic> t(new nn_dict_dynamic(n));
    std::set<uint64_t> m;
    int steps = c.thorough ? 3000 : 1000;
    c.desc("%llu bits, %d steps", (unsigned long long)n, steps);
    c.trivial_if(n < 3);
    uint64_t lim = c.rng.chance(1, 3) ? std::min<uint64_t>(n, 200) : n;
    uint64_t base = c.rng.below(n - lim + 1);
    std::vector<uint64_t> recent;
    for (int s = 0; s < steps; ++s) {
        uint64_t i = base + c.rng.below(lim);
        if (c.rng.chance(1, 10)) i = c.rng.chance(1, 2) ? 0 : n - 1;
        if (!recent.empty() && c.rng.chance(1, 3)) { i = c.rng.pick(recent) + c.rng.below(3); if (i) --i; if (i >= n) i = n - 1; }
        c.mixfp(i);
        nn_dict_dynamic& d = *t;
        const nn_dict_dynamic& cd = d;
        switch (c.rng.below(12)) {
            case 0: case 1: case 2: d[i] = 1; m.insert(i); recent.push_back(i); break;
            case 3: case 4: d[i] = 0; m.erase(i); break;
            case 5: VF_EQ("get", (bool)cd[i], m.count(i) > 0, "[%llu]", (unsigned long long)i);
                    VF_EQ("get-ref", (bool)d[i], m.count(i) > 0, "[%llu]", (unsigned long long)i); break;
            case 6: case 7: { auto it = m.lower_bound(i); VF_EQ("next", cd.next(i), it == m.end() ? n : *it, "next(%llu)", (unsigned long long)i); break; }
            case 8: case 9: { auto it = m.upper_bound(i); uint64_t e = it == m.begin() ? n : *--it; VF_EQ("prev", cd.prev(i), e, "prev(%llu)", (unsigned long long)i); break; }
            case 10: {
                uint64_t j = c.rng.below(n);
                VF_EQ("ref==", d[i] == d[j], (m.count(i) > 0) == (m.count(j) > 0), "refs");
                VF_EQ("ref<", d[i] < d[j], (m.count(i) > 0) < (m.count(j) > 0), "refs");
                bool b = m.count(j) > 0;
                d[i] = d[j];
                if (b) m.insert(i); else m.erase(i);
                break;
            }
            default:
                if (c.rng.chance(1, 12)) { const char* how; t = derive(c, std::move(t), &how); }
                else if (c.rng.chance(1, 60)) { util::set_zero_bits(d); m.clear(); }
                else if (c.rng.chance(1, 12)) { nn_dict_dynamic copy(d); copy[i] = !(m.count(i) > 0); VF_EQ("independent-copy", (bool)cd[i], m.count(i) > 0, "[%llu]", (unsigned long long)i); }
        }
        if (s % 100 == 99) {        // walk over all elements in both directions
            uint64_t p = 0, cnt = 0;
            while (p < n && (p = t->next(p)) < n) { VF_TRUE("walk", m.count(p), "next reports %llu", (unsigned long long)p); ++cnt; ++p; if (cnt > m.size()) break; }
            VF_EQ("walk-count", cnt, m.size(), "elements by next()");
            p = n - 1; cnt = 0;
            while ((p = t->prev(p)) < n) { ++cnt; if (p == 0 || cnt > m.size()) break; --p; }
            VF_EQ("walk-back-count", cnt, m.size(), "elements by prev()");
            VF_EQ("size", t->size(), n, "size");
        }
    }
}
VF_SUITE("nn_dict_dynamic", 250, 4000) { dyn(c); }

template <class S> struct St {
    static bool push(S& s, uint64_t x, bool) { s.push(x); return true; }
    static bool pop(S& s, bool) { s.pop(); return true; }
    enum { dup = 0, over = 0 };
};
template <> struct St<sorted_int_stack> {
    static bool push(sorted_int_stack& s, uint64_t x, bool) { s.push(x); return true; }
    static bool pop(sorted_int_stack& s, bool) { s.pop(); return true; }
    enum { dup = 0, over = 1 };
};
template <> struct St<sorted_multi_stack_support> {
    static bool push(sorted_multi_stack_support& s, uint64_t x, bool e) { bool r = s.push(x); VF_EQ("push-result", r, e, "push(%llu)", (unsigned long long)x); return r; }
    static bool pop(sorted_multi_stack_support& s, bool e) { bool r = s.pop(); VF_EQ("pop-result", r, e, "pop"); return r; }
    enum { dup = 1, over = 0 };
};
template <class S> static void stk(Case& c)
{
    uint64_t n = c.rng.chance(1, 8) ? c.rng.below(4) : c.rng.size(c.rng.chance(1, 2) ? 300 : 20000);
    std::unique_ptr<S> t(new S(n));
    std::vector<uint64_t> m;
    int steps = c.thorough ? 4000 : 1500;
    unsigned gap = c.rng.below(4);
    c.desc("maximum %llu, %d steps, gaps %u", (unsigned long long)n, steps, gap);
    c.trivial_if(n < 3);
    uint64_t depth_goal = 1 + c.rng.below(n + 2);
    bool up = true;
    for (int s = 0; s < steps; ++s) {
        VF_EQ("size", t->size(), m.size(), "step %d", s);
        VF_EQ("empty", t->empty(), m.empty(), "step %d", s);
        if (!m.empty()) VF_EQ("top", t->top(), m.back(), "step %d, %zu elements", s, m.size());
        if (m.size() >= depth_goal) up = false;
        if (m.empty()) { up = true; depth_goal = 1 + c.rng.below(n + 2); }
        bool pu = c.rng.chance(up ? 4 : 1, 5);
        if (c.rng.chance(1, 60)) {
            S* nw = nullptr;
            switch (c.rng.below(5)) {
                case 0: nw = new S(*t); break;
                case 1: nw = new S(c.rng.below(50)); *nw = *t; break;
                case 2: nw = new S(std::move(*t)); break;
                case 3: nw = new S(c.rng.below(50)); *nw = std::move(*t); break;
                default: { std::stringstream ss; t->serialize(ss); nw = new S(c.rng.below(50)); nw->load(ss); }
            }
            t.reset(nw);
            continue;
        }
        if (pu) {
            uint64_t lo = m.empty() ? 0 : m.back() + 1, x;
            uint64_t hi = n;
            if (St<S>::over && c.rng.chance(1, 10)) hi = n + 1 + c.rng.below(1000);
            if (St<S>::dup && !m.empty() && c.rng.chance(1, 3) && m.size() < n) x = m.back();
            else {
                if (lo > hi) { if (!St<S>::over) continue; hi = lo + c.rng.below(100); if (hi > (1ULL << 40)) continue; }
                uint64_t span = hi - lo + 1;
                switch (gap) { case 0: span = 1; break; case 1: span = std::min<uint64_t>(span, 3); break; case 2: span = std::min<uint64_t>(span, 200); break; default: break; }
                if (c.rng.chance(1, 8)) span = hi - lo + 1;
                x = lo + c.rng.below(span);
                if (c.rng.chance(1, 40)) x = hi;
            }
            if (St<S>::dup && m.size() >= n) continue;
            bool fresh = m.empty() || m.back() != x;
            c.mixfp(x);
            St<S>::push(*t, x, fresh); m.push_back(x);
        } else {
            if (m.empty()) { St<S>::pop(*t, false); continue; }
            uint64_t old = m.back(); m.pop_back(); c.mixfp(s);
            bool changed = m.empty() || m.back() != old;
            St<S>::pop(*t, changed);
        }
    }
}
VF_SUITE("sorted_int_stack", 150, 3000) { stk<sorted_int_stack>(c); }
VF_SUITE("sorted_stack_support", 150, 3000) { stk<sorted_stack_support>(c); }
VF_SUITE("sorted_multi_stack_support", 150, 3000) { stk<sorted_multi_stack_support>(c); }
