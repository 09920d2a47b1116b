// C21: k2_tree and louds_tree against explicit graphs / trees
#include "vf.hpp"
#include "derive.hpp"
#include <sdsl/k2_tree.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/suffix_trees.hpp>
#include <set>
#include <map>
#include <queue>
using namespace sdsl;
using vf::Case;
typedef std::pair<uint64_t,uint64_t> E;

// the largest power of k reachable by the tree for `size` nodes (queries are within [0,size))
template <class T, unsigned K> static void graph(Case& c)
{
    typedef typename T::idx_type idx;
    uint64_t cap = (uint64_t)std::numeric_limits<idx>::max() >> 8;      // k^height has to fit the index type
    unsigned src = c.rng.below(4);
    uint64_t n, ne;
    if (src == 0) { n = 1 + c.rng.size(70); ne = c.rng.chance(10, 100) ? 0 : c.rng.below(n * n + 1); if (c.rng.chance(60, 100)) ne = std::min<uint64_t>(ne, 3 * n); }
    else {
        switch (c.rng.below(6)) {
            case 0: n = 1 + c.rng.below(5); break;
            case 1: n = 1 + c.rng.below(300); break;
            case 2: { n = 1; unsigned e = c.rng.range(1, 12); while (e-- && n * K < cap) n *= K; n = n + c.rng.below(3) - (n > 1 ? 1 : 0); if (!n) n = 1; break; }
            case 3: n = 1 + c.rng.below(1000000); break;
            case 4: n = 1 + (c.rng.next() >> c.rng.range(4, 50)); break;
            default: n = cap;
        }
        if (n > cap) n = cap;
        ne = 1 + c.rng.size(c.thorough ? 2000 : 400);
    }
    if (src != 0 && ne > 60 && n > 1000000) ne = 60;
    std::set<E> es;
    unsigned shape = c.rng.below(4);
    uint64_t cx = c.rng.below(n), cy = c.rng.below(n);
    for (uint64_t i = 0; i < ne; ++i) {
        uint64_t a = c.rng.below(n), b = c.rng.below(n);
        if (shape == 1) { a = (cx + c.rng.below(6)) % n; b = (cy + c.rng.below(6)) % n; }
        if (shape == 2) { a = cx; }
        if (shape == 3 && c.rng.chance(30, 100)) { a = n - 1 - c.rng.below(std::min<uint64_t>(n, 3)); }
        if (c.rng.chance(5, 100)) a = b = n - 1;
        es.insert(E(a, b));
    }
    c.desc("%llu nodes, %zu edges, source %u", (unsigned long long)n, es.size(), src);
    for (auto& e : es) { c.mixfp(e.first); c.mixfp(e.second); }
    std::unique_ptr<T> t;
    auto build = [&](unsigned s) -> std::unique_ptr<T> {
        if (s == 0) {
            std::vector<std::vector<int>> m(n, std::vector<int>(n, 0));
            for (auto& e : es) m[e.first][e.second] = 1;
            return std::unique_ptr<T>(new T(m));
        }
        std::vector<E> v(es.begin(), es.end());
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[c.rng.below(i)]);
        if (c.rng.chance(20, 100)) v.push_back(v[c.rng.below(v.size())]);      // the same edge twice
        if (s == 1) {
            std::vector<std::tuple<idx, idx>> ed;
            for (auto& e : v) ed.emplace_back(e.first, e.second);
            return std::unique_ptr<T>(new T(ed, n));
        }
        std::string f = s == 2 ? std::string(c.rng.chance(1, 2) ? "@k2t" : "@dir/k2t") : vf::scratch_dir() + "/k2t";
        int_vector<> x(v.size(), 0, 64), y(v.size(), 0, 64);
        for (size_t i = 0; i < v.size(); ++i) { x[i] = v[i].first; y[i] = v[i].second; }
        if (c.rng.chance(50, 100)) { util::bit_compress(x); util::bit_compress(y); }
        store_to_file(x, f + ".x"); store_to_file(y, f + ".y");
        uint64_t mx = 0; for (auto& e : v) mx = std::max(mx, std::max<uint64_t>(e.first, e.second));
        std::unique_ptr<T> r(mx + 1 == n && c.rng.chance(1, 2) ? new T(f) : new T(f, n));      // the size may be left to the files
        sdsl::remove(f + ".x"); sdsl::remove(f + ".y");
        return r;
    };
    t = build(src);
    const char* how = "built";
    if (c.rng.chance(30, 100) && !es.empty()) {     // another source gives an equal tree
        std::unique_ptr<T> o = build(1);
        VF_TRUE("equal", *o == *t, "built from source %u and from an edge vector", src);
    }
    if (es.size() > 1 && c.rng.chance(30, 100)) {   // another graph gives an unequal tree
        auto it = es.begin(); std::advance(it, c.rng.below(es.size())); E moved = *it, now = c.rng.chance(1, 2) ? E(moved.second, moved.first) : E(moved.first, c.rng.chance(1, 2) ? moved.second ^ 1 : c.rng.below(n));
        if (now.second < n && !es.count(now)) {
            std::vector<std::tuple<idx, idx>> ed; for (auto& e : es) if (e != moved) ed.emplace_back(e.first, e.second);
            ed.emplace_back(now.first, now.second); T o(ed, n);
            VF_TRUE("unequal", !(o == *t) && !(*t == o), "edge (%llu,%llu) replaced by (%llu,%llu)", (unsigned long long)moved.first, (unsigned long long)moved.second, (unsigned long long)now.first, (unsigned long long)now.second);
        }
    }
    t = derive(c, std::move(t), &how);
    c.desc("%s", how);
    const T& g = *t;
    c.trivial_if(es.size() < 2);
    std::map<uint64_t, std::vector<uint64_t>> out, in;
    for (auto& e : es) { out[e.first].push_back(e.second); in[e.second].push_back(e.first); }
    std::set<uint64_t> ask;
    uint64_t full = 70;
    if (n <= full) for (uint64_t i = 0; i < n; ++i) ask.insert(i);
    else {
        for (int i = 0; i < 12; ++i) ask.insert(c.rng.below(n));
        for (int i = 0; i < 10 && !es.empty(); ++i) { auto it = es.begin(); std::advance(it, c.rng.below(es.size())); ask.insert(c.rng.chance(50, 100) ? it->first : it->second); }
        ask.insert(0); ask.insert(n - 1);
    }
    for (uint64_t i : ask) {
        auto ng = g.neigh(i);
        std::vector<uint64_t> got(ng.begin(), ng.end());
        std::sort(got.begin(), got.end());
        auto exp = out.count(i) ? out[i] : std::vector<uint64_t>(); std::sort(exp.begin(), exp.end());
        VF_EQ("neigh", got, exp, "node %llu of %llu", (unsigned long long)i, (unsigned long long)n);
        auto rn = g.reverse_neigh(i);
        got.assign(rn.begin(), rn.end()); std::sort(got.begin(), got.end());
        exp = in.count(i) ? in[i] : std::vector<uint64_t>(); std::sort(exp.begin(), exp.end());
        VF_EQ("reverse_neigh", got, exp, "node %llu of %llu", (unsigned long long)i, (unsigned long long)n);
        for (uint64_t j : ask) VF_EQ("adj", g.adj(i, j), es.count(E(i, j)) > 0, "(%llu,%llu)", (unsigned long long)i, (unsigned long long)j);
    }
    size_t lim = 0;
    for (auto& e : es) { if (lim++ > 500) break; VF_TRUE("adj-edge", g.adj(e.first, e.second), "edge (%llu,%llu)", (unsigned long long)e.first, (unsigned long long)e.second); }
    for (int q = 0; q < 6; ++q) {
        uint64_t r1 = c.rng.below(n), r2 = c.rng.below(n), c1 = c.rng.below(n), c2 = c.rng.below(n);
        if (q == 0) { r1 = c1 = 0; r2 = c2 = n - 1; }
        if (q == 1 && !es.empty()) { auto it = es.begin(); std::advance(it, c.rng.below(es.size())); r1 = r2 = it->first; c1 = c2 = it->second; }
        if (q == 2) { r2 = std::min(n - 1, r1 + c.rng.below(9)); }
        if (r1 > r2) std::swap(r1, r2);
        if (c1 > c2) std::swap(c1, c2);
        // range() visits every quadrant of every non-empty submatrix in the rectangle: fine
        auto got0 = g.range(r1, r2, c1, c2);
        std::vector<E> got; for (auto& e : got0) got.emplace_back(e.first, e.second);
        std::sort(got.begin(), got.end());
        std::vector<E> exp; for (auto& e : es) if (e.first >= r1 && e.first <= r2 && e.second >= c1 && e.second <= c2) exp.push_back(e);
        VF_TRUE("range", got == exp, "[%llu..%llu]x[%llu..%llu]: %zu edges reported, %zu expected", (unsigned long long)r1, (unsigned long long)r2, (unsigned long long)c1, (unsigned long long)c2, got.size(), exp.size());
    }
    T empty;
    VF_EQ("empty", empty.neigh(0).size() + empty.reverse_neigh(0).size() + empty.adj(0, 0) + empty.range(0, 0, 0, 0).size(), 0u, "default object");
}
#define G(name, q, t, K, ...) VF_SUITE(name, q, t) { graph<__VA_ARGS__, K>(c); }
G("k2_tree<2>",        200, 4000, 2, k2_tree<2>)
G("k2_tree<3>",        150, 3000, 3, k2_tree<3>)
G("k2_tree<4,rrr>",    150, 3000, 4, k2_tree<4, rrr_vector<63>>)
G("k2_tree<5,v5>",     120, 2000, 5, k2_tree<5, bit_vector, rank_support_v5<>>)
G("k2_tree<8,sd>",     120, 2000, 8, k2_tree<8, sd_vector<>>)
G("k2_tree<16>",       100, 2000, 16, k2_tree<16>)

// ---- LOUDS ----
struct BfsT {       // an explicit ordered tree in BFS order, with the interface louds_tree's constructor expects
    std::vector<std::vector<uint64_t>> ch;      // children lists by node id
    std::vector<uint64_t> par;
    typedef uint64_t node_type;
    uint64_t degree(uint64_t v) const { return ch[v].size(); }
    uint64_t nodes() const { return ch.size(); }
    uint64_t size() const { return ch.size(); }
};
static BfsT gen_tree(Case& c)
{
    BfsT t; uint64_t n = 1 + c.rng.size(c.thorough ? 20000 : 3000); unsigned shape = c.rng.below(5);
    std::vector<uint64_t> parent(n, 0);
    for (uint64_t i = 1; i < n; ++i) {
        switch (shape) {
            case 0: parent[i] = c.rng.below(i); break;
            case 1: parent[i] = i - 1; break;
            case 2: parent[i] = 0; break;
            case 3: parent[i] = (i - 1) / 2; break;
            default: parent[i] = i - 1 - c.rng.below(std::min<uint64_t>(i, 4));
        }
    }
    std::vector<std::vector<uint64_t>> kids(n);
    for (uint64_t i = 1; i < n; ++i) kids[parent[i]].push_back(i);
    // renumber in BFS order
    std::vector<uint64_t> order{0}, id(n); t.ch.resize(n); t.par.assign(n, 0);
    for (size_t i = 0; i < order.size(); ++i) { id[order[i]] = i; for (auto k : kids[order[i]]) order.push_back(k); }
    for (size_t i = 0; i < order.size(); ++i) for (auto k : kids[order[i]]) { t.ch[i].push_back(id[k]); t.par[id[k]] = i; }
    c.desc("ordered tree of %llu nodes, shape %u", (unsigned long long)n, shape);
    for (auto p : parent) c.mixfp(p);
    return t;
}
template <class L> static void check_louds(Case& c, const L& l, const BfsT& t)
{
    VF_EQ("nodes", l.nodes(), t.nodes(), "nodes");
    bit_vector exp(2 * t.nodes() - 1, 0);
    { uint64_t p = 0; for (auto& q : t.ch) { exp[p] = 1; p += 1 + q.size(); } }
    // louds node positions
    std::vector<typename L::node_type> node(t.nodes());
    node[0] = l.root();
    for (uint64_t v = 0; v < t.nodes(); ++v) {
        VF_EQ("degree", l.degree(node[v]), t.ch[v].size(), "node %llu", (unsigned long long)v);
        VF_EQ("is_leaf", l.is_leaf(node[v]), t.ch[v].empty(), "node %llu", (unsigned long long)v);
        VF_EQ("id", l.id(node[v]), v, "node %llu", (unsigned long long)v);
        for (size_t i = 0; i < t.ch[v].size(); ++i) {
            node[t.ch[v][i]] = l.child(node[v], i + 1);
            VF_TRUE("parent", l.parent(node[t.ch[v][i]]) == node[v], "child %zu of node %llu", i + 1, (unsigned long long)v);
        }
    }
    VF_EQ("bv-size", (uint64_t)l.bv.size(), exp.size(), "bits");
    for (uint64_t i = 0; i < exp.size(); ++i) VF_EQ("bv", (bool)l.bv[i], (bool)exp[i], "bit %llu", (unsigned long long)i);
}
typedef louds_tree<> L0;
typedef louds_tree<bit_vector, select_support_mcl<1>, select_support_mcl<0>> L1;
typedef louds_tree<rrr_vector<63>, rrr_vector<63>::select_1_type, rrr_vector<63>::select_0_type> L2;
struct BfsIt {
    const BfsT* t = nullptr; std::deque<uint64_t> q;
    uint64_t size() const { return q.size(); }
    uint64_t operator*() const { return q.front(); }
    BfsIt& operator++() { uint64_t v = q.front(); q.pop_front(); for (auto k : t->ch[v]) q.push_back(k); return *this; }
    bool operator==(const BfsIt& o) const { return q == o.q; }
    bool operator!=(const BfsIt& o) const { return !(*this == o); }
};
struct SizedT { uint64_t n; uint64_t size(uint64_t) const { return n; } };
template <class L> static void louds(Case& c)
{
    BfsT t = gen_tree(c);
    BfsIt b, e; b.t = e.t = &t; b.q.push_back(0);
    std::unique_ptr<L> l(new L(SizedT{t.nodes()}, b, e));
    const char* how = "built";
    l = derive(c, std::move(l), &how);
    c.desc("%s", how);
    c.trivial_if(t.nodes() < 2);
    check_louds(c, *l, t);
}
template <class CST> static void louds_cst(Case& c)
{
    CST cst; std::string s;
    unsigned sig = c.rng.range(1, 5); uint64_t n = 1 + c.rng.size(300);
    for (uint64_t i = 0; i < n; ++i) s += (char)('a' + c.rng.below(sig));
    construct_im(cst, s, 1);
    c.desc("suffix tree of %llu symbols over %u", (unsigned long long)n, sig);
    for (char ch : s) c.mixfp(ch);
    // model: own breadth-first traversal by children()
    BfsT t; std::vector<typename CST::node_type> order{cst.root()};
    t.ch.emplace_back(); t.par.push_back(0);
    for (size_t i = 0; i < order.size(); ++i)
        for (auto w : cst.children(order[i])) { t.ch[i].push_back(order.size()); t.par.push_back(i); t.ch.emplace_back(); order.push_back(w); }
    typedef cst_bfs_iterator<CST> it_t;
    it_t b(&cst, cst.root()), e(&cst, cst.root(), true, true);
    std::unique_ptr<L0> l(new L0(cst, b, e));
    const char* how = "built";
    l = derive(c, std::move(l), &how);
    c.trivial_if(t.nodes() < 3);
    check_louds(c, *l, t);
}
VF_SUITE("louds_tree",           200, 3000) { louds<L0>(c); }
VF_SUITE("louds_tree mcl",       150, 2000) { louds<L1>(c); }
VF_SUITE("louds_tree rrr",       150, 2000) { louds<L2>(c); }
VF_SUITE("louds of cst_sct3",    60, 1000) { louds_cst<cst_sct3<>>(c); }
VF_SUITE("louds of cst_sada",    60, 1000) { louds_cst<cst_sada<>>(c); }
