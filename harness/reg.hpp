// One registry of data structures used by C23 (serialization), C24 (value semantics), C25 (memory hygiene),
// C27 (concurrent use) and C29 (size reporting).  Every family says how to make an object from random content and
// how to observe its complete answer as one number.
#pragma once
#include "vf.hpp"
#include "gen_bv.hpp"
#include "gen_seq.hpp"
#include <memory>
#include <sstream>
#include <thread>
#include <atomic>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
using namespace sdsl;
using vf::Case;
struct H { uint64_t h = 0; void operator()(uint64_t v) { h = vf::mix64(h ^ v) + 1; } };

// "large" objects (superblocks of every kind, several levels of blocks) are observed at sampled places only
static bool reg_large = false;
static std::vector<uint64_t> samp(uint64_t n)
{
    std::vector<uint64_t> r; const uint64_t cap = 400;
    if (!reg_large || n <= cap) { for (uint64_t i = 0; i < n; ++i) r.push_back(i); return r; }
    for (uint64_t i = 0; i < 20; ++i) { r.push_back(i); r.push_back(n - 1 - i); }
    for (uint64_t k = 0; k < cap; ++k) r.push_back(vf::mix64(k * 77 + n) % n);
    return r;
}
static inline bit_vector reg_bits(Case& c)
{
    if (reg_large) {    // dense and sparse stretches: short and long superblocks side by side
        uint64_t n = 150000 + c.rng.below(200000); bit_vector b(n, 0); bool inv = c.rng.chance(1, 2);
        for (uint64_t i = 0; i < n;) { uint64_t len = 8000 + c.rng.below(120000), gap = c.rng.pick(std::vector<uint64_t>{1, 2, 5, 20, 40, 60, 90}); for (uint64_t e = std::min(n, i + len); i < e; ++i) b[i] = c.rng.below(gap) == 0; }
        if (inv) b.flip();
        c.mixfp(n); c.mixfp(b.get_int(n / 2)); return b;
    }
    std::vector<bool> b = gen_bits(c, c.thorough ? 5000 : 700);
    for (bool x : b) c.mixfp(x);
    return to_bv(b, false);
}
static inline uint64_t reg_n(Case& c) { return reg_large ? 8000 + c.rng.below(30000) : c.rng.chance(1, 12) ? c.rng.below(3) : 1 + c.rng.below(c.thorough ? 600 : 160); }
template <class BV, class R1 = typename BV::rank_1_type, class R0 = typename BV::rank_0_type, class S1 = typename BV::select_1_type, class S0 = typename BV::select_0_type>
struct BvRS {    // a bit vector together with its supports, wired the way every user of the library wires them
    BV b; R1 r1; R0 r0; S1 s1; S0 s0; uint64_t ones = 0;
    void wire() { r1.set_vector(&b); r0.set_vector(&b); s1.set_vector(&b); s0.set_vector(&b); }
    BvRS() { wire(); }
    explicit BvRS(const bit_vector& v) : b(v) { util::init_support(r1, &b); util::init_support(r0, &b); util::init_support(s1, &b); util::init_support(s0, &b); for (uint64_t i = 0; i < v.size(); ++i) ones += v[i]; }
    BvRS(const BvRS& o) : b(o.b), r1(o.r1), r0(o.r0), s1(o.s1), s0(o.s0), ones(o.ones) { wire(); }
    BvRS(BvRS&& o) : b(std::move(o.b)), r1(std::move(o.r1)), r0(std::move(o.r0)), s1(std::move(o.s1)), s0(std::move(o.s0)), ones(o.ones) { wire(); }
    BvRS& operator=(const BvRS& o) { if (this != &o) { b = o.b; r1 = o.r1; r0 = o.r0; s1 = o.s1; s0 = o.s0; ones = o.ones; wire(); } return *this; }
    BvRS& operator=(BvRS&& o) { if (this != &o) { b = std::move(o.b); r1 = std::move(o.r1); r0 = std::move(o.r0); s1 = std::move(o.s1); s0 = std::move(o.s0); ones = o.ones; wire(); } return *this; }
    void swap(BvRS& o) { b.swap(o.b); util::swap_support(r1, o.r1, &b, &o.b); util::swap_support(r0, o.r0, &b, &o.b); util::swap_support(s1, o.s1, &b, &o.b); util::swap_support(s0, o.s0, &b, &o.b); std::swap(ones, o.ones); }
    typedef uint64_t size_type;
    size_type serialize(std::ostream& out, structure_tree_node* v = nullptr, std::string name = "") const
    {
        structure_tree_node* ch = structure_tree::add_child(v, name, "BvRS");
        size_type w = b.serialize(out, ch, "b"); w += r1.serialize(out, ch, "r1"); w += r0.serialize(out, ch, "r0"); w += s1.serialize(out, ch, "s1"); w += s0.serialize(out, ch, "s0");
        w += write_member(ones, out, ch, "ones"); structure_tree::add_size(ch, w); return w;
    }
    void load(std::istream& in) { b.load(in); r1.load(in, &b); r0.load(in, &b); s1.load(in, &b); s0.load(in, &b); read_member(ones, in); }
};
struct FBv {
    template <class T> static std::unique_ptr<T> make(Case& c) { return std::unique_ptr<T>(new T(reg_bits(c))); }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t n = t.b.size(); h(n); h(t.ones);
        for (uint64_t i : samp(n)) { h(t.b[i] | t.r1(i) << 1); h(t.r0(i)); h(t.b.get_int(i, std::min<uint64_t>(n - i, 1 + i % 64))); }
        if (n) { h(t.r1(n)); h(t.r0(n)); }
        for (uint64_t i : samp(t.ones)) h(t.s1(i + 1));
        for (uint64_t i : samp(n - t.ones)) h(t.s0(i + 1));
        return h.h;
    }
};
struct HybRS {      // hybrid bit vector with rank supports
    typedef hyb_vector<> BV; BV b; BV::rank_1_type r1; BV::rank_0_type r0;
    void wire() { r1.set_vector(&b); r0.set_vector(&b); }
    HybRS() { wire(); }
    explicit HybRS(const bit_vector& v) : b(v) { util::init_support(r1, &b); util::init_support(r0, &b); }
    HybRS(const HybRS& o) : b(o.b), r1(o.r1), r0(o.r0) { wire(); }
    HybRS(HybRS&& o) : b(std::move(o.b)), r1(std::move(o.r1)), r0(std::move(o.r0)) { wire(); }
    HybRS& operator=(const HybRS& o) { if (this != &o) { b = o.b; r1 = o.r1; r0 = o.r0; wire(); } return *this; }
    HybRS& operator=(HybRS&& o) { if (this != &o) { b = std::move(o.b); r1 = std::move(o.r1); r0 = std::move(o.r0); wire(); } return *this; }
    void swap(HybRS& o) { b.swap(o.b); util::swap_support(r1, o.r1, &b, &o.b); util::swap_support(r0, o.r0, &b, &o.b); }
    typedef uint64_t size_type;
    size_type serialize(std::ostream& out, structure_tree_node* v = nullptr, std::string name = "") const
    { structure_tree_node* ch = structure_tree::add_child(v, name, "HybRS"); size_type w = b.serialize(out, ch, "b"); w += r1.serialize(out, ch, "r1"); w += r0.serialize(out, ch, "r0"); structure_tree::add_size(ch, w); return w; }
    void load(std::istream& in) { b.load(in); r1.load(in, &b); r0.load(in, &b); }
};
struct FHyb {
    template <class T> static std::unique_ptr<T> make(Case& c) { return std::unique_ptr<T>(new T(reg_bits(c))); }
    template <class T> static uint64_t obs(const T& t) { H h; uint64_t n = t.b.size(); h(n); for (uint64_t i : samp(n)) { h(t.b[i]); h(t.r1(i)); h(t.r0(i)); } h(t.r1(n)); return h.h; }
};
struct FBvPlain {   // without select
    template <class T> static std::unique_ptr<T> make(Case& c) { return std::unique_ptr<T>(new T(reg_bits(c))); }
    template <class T> static uint64_t obs(const T& t) { H h; h(t.size()); for (uint64_t i : samp(t.size())) h(t[i]); uint64_t k = 0; for (auto x : t) { h(x); if (++k >= 3000) break; } return h.h; }
};
template <unsigned BITS> struct FVec {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        uint64_t n = reg_n(c); unsigned w = BITS ? BITS : 1 + c.rng.below(64); int_vector<64> v(n);
        for (uint64_t i = 0; i < n; ++i) { v[i] = c.rng.next() >> (64 - (c.rng.chance(1, 4) ? w : 1 + c.rng.below(w))); c.mixfp(v[i]); }
        return build<T>(v, w, (T*)nullptr);
    }
    template <class T> static auto more(H& h, const T& t, int) -> decltype(t.get_inter_sampled_values(0, (uint64_t*)nullptr), t.sample(0), void()) { for (uint64_t i : samp(t.size() ? (t.size() - 1) / t.get_sample_dens() + 1 : 0)) h(t.sample(i)); }
    template <class T> static void more(H&, const T&, long) {}
    template <class T, uint8_t W> static std::unique_ptr<T> build(const int_vector<64>& v, unsigned w, int_vector<W>*)
    { std::unique_ptr<T> t(new T(v.size(), 0, W ? W : w)); for (uint64_t i = 0; i < v.size(); ++i) (*t)[i] = v[i]; return t; }
    template <class T> static std::unique_ptr<T> build(const int_vector<64>& v, unsigned, void*) { return std::unique_ptr<T>(new T(v)); }
    template <class T> static uint64_t obs(const T& t) { H h; h(t.size()); for (uint64_t i : samp(t.size())) h(t[i]); more(h, t, 0); uint64_t k = 0; for (auto x : t) { h(x); if (++k > t.size()) break; } return h.h; }
};
static inline std::vector<uint64_t> reg_seq(Case& c, uint64_t lim)
{
    uint64_t n = reg_n(c), sig = 1 + c.rng.below(c.rng.chance(1, 2) ? 5 : 90); if (reg_large && c.rng.chance(1, 2)) sig = 300 + c.rng.below(4000); std::vector<uint64_t> s(n), alpha(sig);
    for (auto& a : alpha) { a = 1 + c.rng.below(std::min<uint64_t>(lim, c.rng.chance(1, 2) ? 255 : lim)); if (a > lim) a = lim; }
    for (auto& x : s) { x = c.rng.pick(alpha); c.mixfp(x); }
    return s;
}
template <uint64_t LIM, uint8_t NB> struct FWt {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        auto s = reg_seq(c, LIM); std::unique_ptr<T> t(new T()); int_vector<NB == 1 ? 8 : 0> v(s.size(), 0, NB == 1 ? 8 : 13);
        for (size_t i = 0; i < s.size(); ++i) v[i] = s[i];
        construct_im(*t, v, 0); return t;
    }
    template <class T> static auto lex(H& h, const T& t, uint64_t i, uint64_t j, uint64_t s, int) -> decltype(t.lex_count(0, 0, 1), void()) { auto r = t.lex_count(i, j, s); h(std::get<0>(r)); h(std::get<1>(r)); h(std::get<2>(r)); auto q = t.lex_smaller_count(i, s); h(std::get<0>(q)); h(std::get<1>(q)); }
    template <class T> static void lex(H&, const T&, uint64_t, uint64_t, uint64_t, long) {}
    template <class T> static auto r2d(H& h, const T& t, uint64_t i, uint64_t j, uint64_t s, int) -> decltype(t.range_search_2d(0, 0, 0, 0, true), void()) { if (i < j) h(t.range_search_2d(i, j - 1, s / 2, s, false).first); }
    template <class T> static void r2d(H&, const T&, uint64_t, uint64_t, uint64_t, long) {}
    template <class T> static void intervals(H& h, const T& t, uint64_t i, uint64_t j, std::true_type) {
        std::vector<typename T::value_type> cs(t.sigma + 1); std::vector<typename T::size_type> a(t.sigma + 1), b(t.sigma + 1); typename T::size_type k = 0;
        interval_symbols(t, i, j, k, cs, a, b); h(k); uint64_t sum = 0; for (uint64_t z = 0; z < k; ++z) sum += vf::mix64(cs[z] * 31 + a[z] * 7 + b[z]); h(sum); }
    template <class T> static void intervals(H&, const T&, uint64_t, uint64_t, std::false_type) {}
    template <class T> static void ranges(H& h, const T& t, uint64_t i, uint64_t j, uint64_t s) { lex(h, t, i, j, s, 0); r2d(h, t, i, j, s, 0); intervals(h, t, i, j, std::integral_constant<bool, has_node_type<T>::value>()); }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t n = t.size(); h(n); h(t.sigma);
        std::vector<uint64_t> sy; uint64_t x = 0;
        for (uint64_t i : samp(n)) {
            uint64_t s = t[i]; h(s); auto p = t.inverse_select(i); h(p.first); h(p.second); h(t.rank(n, s)); h(t.select(p.first + 1, s));
            x = vf::mix64(x + i); if (x % 5 == 0) sy.push_back(s);
            if (sy.size()) { uint64_t q = sy[x / 5 % sy.size()]; h(t.rank(x / 64 % (n + 1), q)); uint64_t ab = (q ^ 1) ? q ^ 1 : q; h(t.rank(x / 3 % (n + 1), ab)); }
        }
        for (uint64_t k = 0; n && k < 12; ++k) { x = vf::mix64(x + k); uint64_t i = x % (n + 1), j = i + x / 256 % (n - i + 1); if (sy.size()) ranges(h, t, i, j, sy[x % sy.size()]); }
        return h.h;
    }
};
static inline std::string reg_text(Case& c)
{
    uint64_t n = 1 + (c.rng.chance(1, 6) && !reg_large ? 600 + c.rng.below(700) : reg_n(c)); unsigned sig = c.rng.chance(1, 3) ? 2 : 1 + c.rng.below(20); std::string s;
    for (uint64_t i = 0; i < n; ++i) s += (i > 12 && c.rng.chance(1, 2)) ? s[i - 1 - c.rng.below(12)] : (char)('a' + c.rng.below(sig));
    for (char ch : s) c.mixfp(ch);
    return s;
}
template <class T> static uint64_t obs_csa(const T& t)
{
    H h; uint64_t n = t.size(); h(n); h(t.sigma);
    for (uint64_t i : samp(n)) { h(t[i]); h(t.isa[i]); h(t.psi[i]); h(t.lf[i]); h((uint64_t)t.bwt[i]); h((uint64_t)t.F[i]); if (i % 3 == 0) h((uint64_t)t.text[i]); }
    for (uint64_t k = 0; k <= t.sigma; ++k) { h(t.C[k]); if (k < t.sigma) { h((uint64_t)t.comp2char[k]); h(t.char2comp[t.comp2char[k]]); } }
    for (uint64_t k = 0; n > 8 && k < 4; ++k) { uint64_t b = vf::mix64(n + k) % (n - 8); auto p = extract(t, b, b + k + 1); h(count(t, p.begin(), p.end())); uint64_t s = 0; for (auto o : locate(t, p.begin(), p.end())) s += vf::mix64(o); h(s); }
    if (n > 1) { auto e = extract(t, n > 5000 ? n - 4000 : 0, n - 2); for (auto x : e) h((uint64_t)x); uint64_t l = 0, r = n - 1; for (int k = 0; k < 3 && k + 2 < (int)n; ++k) { uint64_t ll, rr; h(backward_search(t, l, r, (typename T::char_type)e[e.size() - 1 - k], ll, rr)); l = ll; r = rr; if (l > r) break; } h(l); h(r); }
    uint64_t step = n > 4000 ? n / 60 : n > 400 ? 7 : 1, ns = std::min<uint64_t>(t.sigma, 6);
    for (uint64_t k = 0; k < ns; ++k) { auto sym = t.comp2char[k]; for (uint64_t i = 0; i <= n; i += step) h(t.bwt.rank(i, sym)); }
    return h.h;
}
template <uint8_t NB> struct FCsa {
    template <class T> static std::unique_ptr<T> make(Case& c) { return mk<T>(c); }
    template <class T> static std::unique_ptr<T> mk(Case& c)
    {
        std::string s = reg_text(c); std::unique_ptr<T> t(new T());
        if (NB == 1) construct_im(*t, s, 1);
        else { int_vector<> v(s.size(), 0, 32); uint64_t st = 1 + c.rng.below(40); for (size_t i = 0; i < s.size(); ++i) v[i] = 1 + (s[i] - 'a') * st; util::bit_compress(v); construct_im(*t, v, 0); }
        return t;
    }
    template <class T> static uint64_t obs(const T& t) { return obs_csa(t); }
};
template <class T> static void obs_node(H& h, const T& t, const typename T::node_type& v, unsigned lvl, unsigned& budget)
{
    if (!budget) return;
    --budget;
    h(t.lb(v)); h(t.rb(v)); h(t.is_leaf(v)); h(t.depth(v)); h(t.node_depth(v));
    if (lvl) { h((uint64_t)t.edge(v, t.depth(t.parent(v)) + 1)); if (t.rb(v)) { auto u = t.sl(v); h(t.lb(u)); h(t.rb(u)); } }
    if (!t.is_leaf(v)) { h(t.degree(v)); for (auto w : t.children(v)) obs_node(h, t, w, lvl + 1, budget); }
}
template <uint8_t NB> struct FCst {
    template <class T> static auto ids(H& h, const T& t, const typename T::node_type& v, int) -> decltype(t.id(v), void()) { auto i = t.id(v); h(i); auto w = const_cast<T&>(t).inv_id(i); h(t.lb(w)); h(t.rb(w)); }
    template <class T> static void ids(H&, const T&, const typename T::node_type&, long) {}
    template <class T> static std::unique_ptr<T> make(Case& c) { return FCsa<NB>::template mk<T>(c); }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t n = t.size(); h(n); h(t.nodes());
        for (uint64_t i : samp(n)) { h(t.lcp[i]); }
        unsigned budget = 60; obs_node(h, t, t.root(), 0, budget);
        uint64_t x = n;
        for (uint64_t k = 0; n > 2 && k < 24; ++k) {
            x = vf::mix64(x + k); auto a = t.select_leaf(1 + x % n), b = t.select_leaf(k ? std::min<uint64_t>(n, 1 + x % n + x / 4096 % 9) : n); auto l = t.lca(a, b);
            unsigned one = 1; obs_node(h, t, l, l == t.root() ? 0 : 1, one); h(t.sn(a));
            auto p = t.parent(a); h(t.lb(p)); h(t.rb(p)); { auto y = t.leftmost_leaf(p), z = t.rightmost_leaf(p); h(t.lb(y)); h(t.lb(z)); }
            { auto s = t.sibling(a); h(t.lb(s)); h(t.rb(s)); } h(t.size(p));
            if (t.rb(a)) { auto cc = t.edge(a, t.depth(p) + 1); if (cc) { auto w = t.child(p, cc); h(t.lb(w)); auto y = t.wl(l, cc); h(t.lb(y)); h(t.rb(y)); } }
            ids(h, t, l, 0);
        }
        { uint64_t k = 0; for (auto it = t.begin(), e = t.end(); it != e && k < 80; ++it, ++k) { h(t.lb(*it)); h(t.rb(*it)); h(it.visit()); } }
        return h.h;
    }
};
struct FLcp {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        std::string s = reg_text(c); std::unique_ptr<T> t(new T());
        cache_config cfg(true, "@", "reglcp"); 
        { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (uint8_t)s[i]; append_zero_symbol(v); store_to_cache(v, conf::KEY_TEXT, cfg); }
        construct_sa<8>(cfg); construct_lcp_PHI<8>(cfg);
        *t = T(cfg);
        util::delete_all_files(cfg.file_map);
        return t;
    }
    template <class T> static uint64_t obs(const T& t) { H h; h(t.size()); for (uint64_t i : samp(t.size())) h(t[i]); uint64_t k = 0; for (auto x : t) { h(x); if (++k >= 600) break; } return h.h; }
};
