// C20: k2_treap: construction from every source, top_k / range_3d / count / navigation against a point list
#include "vf.hpp"
#include "derive.hpp"
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <array>
#include <map>
using namespace sdsl;
using vf::Case;
typedef std::array<uint64_t,3> P3;
typedef k2_treap_ns::point_type PT;

struct Pts { std::vector<P3> v; uint64_t maxc = 0; };

static Pts gen_points(Case& c, uint64_t coord_cap, uint64_t w_cap)
{
    Pts p;
    uint64_t n = 0;
    switch (c.rng.below(10)) {
        case 0: n = 0; break;
        case 1: n = 1; break;
        case 2: n = 2; break;
        default: n = c.rng.size(c.thorough ? 4000 : 700);
    }
    uint64_t lim = 0;   // inclusive coordinate limit
    switch (c.rng.below(6)) {
        case 0: lim = c.rng.below(4); break;
        case 1: lim = c.rng.below(40); break;
        case 2: lim = (1ULL << c.rng.range(1, 12)) - c.rng.below(2); break;
        case 3: lim = c.rng.below(100000); break;
        case 4: lim = c.rng.next() >> c.rng.range(1, 60); break;
        default: lim = coord_cap;
    }
    if (lim > coord_cap) lim = coord_cap;
    uint64_t wl = 0;
    switch (c.rng.below(5)) { case 0: wl = c.rng.below(3); break; case 1: wl = 255; break;
        case 2: wl = n; break; case 3: wl = 0xffffffffULL; break; default: wl = w_cap; }
    if (wl > w_cap) wl = w_cap;
    unsigned shape = c.rng.below(6);
    std::map<std::pair<uint64_t,uint64_t>, bool> seen;
    uint64_t cx = c.rng.below(lim + 1 ? lim + 1 : ~0ULL), cy = c.rng.below(lim + 1);
    if (c.rng.chance(15, 100)) { cx = 0; cy = 0; }
    for (uint64_t i = 0, tries = 0; i < n && tries < 4 * n + 10; ++tries) {
        uint64_t x, y;
        switch (shape) {
            case 0: case 1: x = c.rng.below(lim + 1); y = c.rng.below(lim + 1); break;
            case 2: x = y = c.rng.below(lim + 1); break;                                   // diagonal
            case 3: x = (cx + c.rng.below(8)) % (lim + 1); y = (cy + c.rng.below(8)) % (lim + 1); break;  // cluster
            case 4: x = cx; y = c.rng.below(lim + 1); break;                               // column
            default: x = i % (lim + 1); y = c.rng.below(lim + 1);                              // one per row, as for the CST arrays
        }
        if (seen.emplace(std::make_pair(x, y), true).second) {
            p.v.push_back(P3{{x, y, c.rng.chance(10, 100) ? wl : c.rng.below(wl + 1)}});
            ++i;
        }
    }
    if (!p.v.empty() && c.rng.chance(30, 100) && seen.emplace(std::make_pair(lim, lim), true).second) p.v.push_back(P3{{lim, lim, c.rng.below(wl + 1)}});
    if (!p.v.empty() && c.rng.chance(30, 100) && seen.emplace(std::make_pair((uint64_t)0, (uint64_t)0), true).second) p.v.push_back(P3{{0, 0, c.rng.below(wl + 1)}});
    for (auto& q : p.v) p.maxc = std::max(p.maxc, std::max(q[0], q[1]));
    c.desc("%zu points, coordinates <=%llu, weights <=%llu, shape %u", p.v.size(), (unsigned long long)lim, (unsigned long long)wl, shape);
    for (auto& q : p.v) { c.mixfp(q[0]); c.mixfp(q[1]); c.mixfp(q[2]); }
    return p;
}

template <class T> static uint64_t walk(const T& t, k2_treap_ns::node_type v, std::vector<P3>& out, Case& c, bool& ok)
{
    out.push_back(P3{{(uint64_t)std::real(v.max_p), (uint64_t)std::imag(v.max_p), v.max_v}});
    if (out.size() > 20000) { ok = false; return 0; }
    uint64_t n = 1;
    if (t.is_leaf(v)) return n;
    for (auto ch : t.children(v)) {
        if (ch.max_v > v.max_v) ok = false;
        if (ch.t + 1 != v.t) ok = false;
        n += walk(t, ch, out, c, ok);
    }
    return n;
}

static std::string p3s(const std::vector<P3>& v)
{
    std::string s;
    for (size_t i = 0; i < v.size() && i < 6; ++i) s += vf::strf("(%llu,%llu,%llu)", (unsigned long long)v[i][0], (unsigned long long)v[i][1], (unsigned long long)v[i][2]);
    if (v.size() > 6) s += "...";
    return s;
}

template <class T> static void one(Case& c, uint64_t coord_cap, uint64_t w_cap_vec, uint64_t w_cap_buf)
{
    unsigned src = c.rng.below(5);
    Pts p = gen_points(c, coord_cap, src <= 1 ? w_cap_buf : w_cap_vec);
    std::vector<P3>& pv = p.v;
    std::unique_ptr<T> t(new T());
    const char* srcn = "";
    if (src <= 1) {     // files
        std::string f = src == 0 ? vf::scratch_dir() + "/treap" : std::string(c.rng.chance(1, 2) ? "@treap" : "@dir/treap");
        srcn = src == 0 ? "disk files" : "RAM files";
        const char* ext[3] = {".x", ".y", ".w"};
        for (int d = 0; d < 3; ++d) {
            int_vector<> v(pv.size(), 0, 64);
            for (size_t i = 0; i < pv.size(); ++i) v[i] = pv[i][d];
            if (c.rng.chance(70, 100)) util::bit_compress(v);
            store_to_file(v, f + ext[d]);
        }
        construct(*t, f);
        for (int d = 0; d < 3; ++d) sdsl::remove(f + ext[d]);
    } else if (src == 2) {
        srcn = "construct_im";
        construct_im(*t, pv);
    } else if (src == 3) {
        srcn = "vector of 64-bit tuples";
        std::vector<std::tuple<uint64_t,uint64_t,uint64_t>> d;
        for (auto& q : pv) d.emplace_back(q[0], q[1], q[2]);
        t.reset(new T(d, vf::scratch_dir() + "/tt"));
    } else {
        bool fits = p.maxc < (1u << 30);
        for (auto& q : pv) fits = fits && q[2] <= 0xffffffffULL;
        if (fits) {
            srcn = "vector of 32-bit tuples";
            std::vector<std::tuple<uint32_t,uint32_t,uint32_t>> d;
            for (auto& q : pv) d.emplace_back(q[0], q[1], q[2]);
            t.reset(new T(d, ram_file_name("tt")));
        } else { srcn = "construct_im"; construct_im(*t, pv); }
    }
    c.desc("from %s", srcn);
    const char* how = "built";
    t = derive(c, std::move(t), &how);
    c.desc("%s", how);
    const T& tr = *t;
    c.trivial_if(pv.size() < 2);
    VF_EQ("size", tr.size(), pv.size(), "%s %s", srcn, how);
    std::vector<P3> all(pv); std::sort(all.begin(), all.end());
    if (!pv.empty()) {
        std::vector<P3> got; bool ok = true;
        uint64_t n = walk(tr, tr.root(), got, c, ok);
        VF_TRUE("heap-order", ok, "a child with larger weight than its parent, or of a wrong level");
        std::sort(got.begin(), got.end());
        VF_EQ("nodes", n, pv.size(), "%s", srcn);
        VF_TRUE("nodes-set", got == all, "points reached by navigation %s, stored %s", p3s(got).c_str(), p3s(all).c_str());
    }
    int nq = c.thorough ? 25 : 10;
    for (int q = 0; q < nq; ++q) {
        uint64_t x1, y1, x2, y2;
        auto coord = [&]() -> uint64_t {
            switch (c.rng.below(5)) {
                case 0: return pv.empty() ? 0 : c.rng.pick(pv)[c.rng.below(2)];
                case 1: return 0;
                case 2: return p.maxc;
                case 3: return c.rng.below(p.maxc + 1) ^ c.rng.below(2);
                default: return c.rng.below(p.maxc + 1);
            }
        };
        x1 = coord(); x2 = coord(); y1 = coord(); y2 = coord();
        if (x1 > x2) std::swap(x1, x2);
        if (y1 > y2) std::swap(y1, y2);
        if (q == 0) { x1 = y1 = 0; x2 = y2 = p.maxc; }
        if (q == 1 && !pv.empty()) { auto& z = c.rng.pick(pv); x1 = x2 = z[0]; y1 = y2 = z[1]; }
        uint64_t w1, w2;
        auto wt = [&]() -> uint64_t { return pv.empty() || c.rng.chance(10, 100) ? 0 : c.rng.pick(pv)[2] + (c.rng.chance(20, 100) ? 1 : 0); };
        w1 = wt(); w2 = wt(); if (w1 > w2) std::swap(w1, w2);
        std::vector<P3> in, inw;
        for (auto& z : all) if (z[0] >= x1 && z[0] <= x2 && z[1] >= y1 && z[1] <= y2) { in.push_back(z); if (z[2] >= w1 && z[2] <= w2) inw.push_back(z); }
        PT a(x1, y1), b(x2, y2);
        auto rect = vf::strf("[%llu..%llu]x[%llu..%llu]", (unsigned long long)x1, (unsigned long long)x2, (unsigned long long)y1, (unsigned long long)y2);
        VF_EQ("count", count(tr, a, b), in.size(), "%s", rect.c_str());
        {
            std::vector<P3> got; uint64_t last = ~0ULL; bool mono = true;
            auto it = top_k(tr, a, b);
            // a copied iterator goes on independently of the original
            bool copied = c.rng.chance(30, 100);
            size_t guard = 0;
            while (it && guard++ <= pv.size() + 1) {
                auto pr = *it;
                if (pr.second > last) mono = false;
                last = pr.second;
                got.push_back(P3{{(uint64_t)std::real(pr.first), (uint64_t)std::imag(pr.first), pr.second}});
                if (copied && c.rng.chance(10, 100)) { auto it2 = it; auto old = it2++; (void)old; ++it; if (it2) { if (it) { VF_EQ("iterator-copy", (*it2).second, (*it).second, "%s", rect.c_str()); } } it = it2; }
                else ++it;
            }
            VF_TRUE("top_k-order", mono, "weights not decreasing in %s", rect.c_str());
            std::sort(got.begin(), got.end());
            VF_TRUE("top_k-set", got == in, "%s: got %zu %s, expected %zu %s", rect.c_str(), got.size(), p3s(got).c_str(), in.size(), p3s(in).c_str());
        }
        {
            std::vector<P3> got; uint64_t last = ~0ULL; bool mono = true;
            auto it = range_3d(tr, a, b, k2_treap_ns::range_type(w1, w2));
            size_t guard = 0;
            while (it && guard++ <= pv.size() + 1) {
                auto pr = *it;
                if (pr.second > last) mono = false;
                last = pr.second;
                got.push_back(P3{{(uint64_t)std::real(pr.first), (uint64_t)std::imag(pr.first), pr.second}});
                ++it;
            }
            VF_TRUE("range_3d-order", mono, "weights not decreasing in %s", rect.c_str());
            std::sort(got.begin(), got.end());
            VF_TRUE("range_3d-set", got == inw, "%s weights [%llu..%llu]: got %zu %s, expected %zu %s", rect.c_str(), (unsigned long long)w1, (unsigned long long)w2, got.size(), p3s(got).c_str(), inw.size(), p3s(inw).c_str());
        }
    }
}
#define K2(name, q, t, coordcap, wcapb, ...) VF_SUITE(name, q, t) { one<__VA_ARGS__>(c, coordcap, ~0ULL >> 1, wcapb); }
static const uint64_t B60 = (1ULL << 60) - 1;
K2("k2_treap<2>",           120, 3000, (1ULL << 62) - 1, (1ULL << 62) - 1, k2_treap<2>)
K2("k2_treap<3>",           120, 3000, B60, B60, k2_treap<3>)
K2("k2_treap<4,rrr>",       120, 3000, (1ULL << 62) - 1, (1ULL << 61), k2_treap<4, rrr_vector<63>>)
K2("k2_treap<5,sd>",        100, 2000, B60, B60, k2_treap<5, sd_vector<>>)
K2("k2_treap<8,v5>",        100, 2000, B60, B60, k2_treap<8, bit_vector, rank_support_v5<>, vlc_vector<>>)
K2("k2_treap<16>",          100, 2000, B60, B60, k2_treap<16, bit_vector, rank_support_v<>, dac_vector_dp<>>)
