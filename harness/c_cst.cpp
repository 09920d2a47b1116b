// C17: suffix tree navigation compared with the tree of lcp-intervals of the model
#define WHAT 17
#include "cst_types.hpp"
#include "derive.hpp"
#include <map>
#include <set>
#include <cmath>
typedef uint64_t u64;
struct TreeModel {
    const TextModel& m;
    u64 n;
    struct Node { u64 lb, rb, depth, parent, nd; std::vector<u64> ch; };
    std::vector<Node> v; // 0 is the root; preorder
    std::vector<u64> leaf; // node of each leaf
    std::map<std::pair<u64, u64>, u64> at;
    u64 depth_of(u64 a, u64 b) const // lcp of the interval
    {
        u64 d = ~0ULL;
        for (u64 i = a + 1; i <= b; ++i) d = std::min(d, m.lcp[i]);
        return d;
    }
    explicit TreeModel(const TextModel& t) : m(t), n(t.n), leaf(t.n)
    {
        // iterative construction: stack of open nodes along the rightmost path
        struct Tmp { u64 lb, rb, depth; std::vector<u64> ch; };
        std::vector<Tmp> tmp;
        std::vector<u64> st;
        auto node = [&](u64 lb, u64 d) { tmp.push_back({lb, 0, d, {}}); return (u64)tmp.size() - 1; };
        if (n == 1) { node(0, 1); tmp[0].rb = 0; st = {0}; }
        else {
            st.push_back(node(0, 0));
            for (u64 i = 0; i < n; ++i) {
                u64 l = i ? m.lcp[i] : 0, last = ~0ULL;
                while (tmp[st.back()].depth > l) {
                    u64 x = st.back();
                    st.pop_back();
                    tmp[x].rb = i - 1;
                    last = x;
                    if (tmp[st.back()].depth >= l) { tmp[st.back()].ch.push_back(x); last = ~0ULL; }
                }
                if (last != ~0ULL) { // new inner node between
                    u64 y = node(tmp[last].lb, l);
                    tmp[y].ch.push_back(last);
                    st.push_back(y);
                }
                u64 y = node(i, n - m.sa[i]);
                st.push_back(y);
            }
            u64 x = ~0ULL;
            while (!st.empty()) {
                if (x != ~0ULL) tmp[st.back()].ch.push_back(x);
                x = st.back();
                tmp[x].rb = n - 1;
                st.pop_back();
            }
            st = {x};
        }
        // renumber in preorder
        std::vector<std::pair<u64, u64>> todo{{st[0], ~0ULL}};
        while (!todo.empty()) {
            auto [t0, p] = todo.back();
            todo.pop_back();
            u64 id = v.size();
            v.push_back({tmp[t0].lb, tmp[t0].rb, tmp[t0].depth, p == ~0ULL ? 0 : p, p == ~0ULL ? 0 : v[p].nd + 1, {}});
            if (p != ~0ULL) v[p].ch.push_back(id);
            for (size_t k = tmp[t0].ch.size(); k--;) todo.push_back({tmp[t0].ch[k], id});
            at[{v[id].lb, v[id].rb}] = id;
            if (v[id].lb == v[id].rb) leaf[v[id].lb] = id;
        }
    }
    bool is_leaf(u64 x) const { return v[x].lb == v[x].rb; }
    u64 sym(u64 x, u64 d) const { return m.t[m.sa[v[x].lb] + d]; } // d-th (0-based) symbol of the path label
    u64 lca(u64 a, u64 b) const
    {
        u64 lo = std::min(v[a].lb, v[b].lb), hi = std::max(v[a].rb, v[b].rb);
        while (v[a].lb > lo || v[a].rb < hi) a = v[a].parent;
        return a;
    }
    u64 of_interval(u64 lb, u64 rb) const { return at.at({lb, rb}); }
};
// bp_interval caches positions; two handles of one node must be interchangeable, so nodes are drawn from handles obtained on many ways
template <class T> struct Handle { typename T::node_type v; u64 id; const char* src; };

template <class T, class = void> struct has_wl_i : std::false_type {};
template <class T> struct has_wl_i<T, decltype((void)std::declval<const T&>().sl(std::declval<typename T::node_type>(), (size_t)1))> : std::true_type {};
template <class T, class = void> struct has_inv_id : std::false_type {};
template <class T> struct has_inv_id<T, decltype((void)std::declval<T&>().inv_id((size_t)1))> : std::true_type {};
template <class T, class = void> struct has_bu : std::false_type {};
template <class T> struct has_bu<T, decltype((void)std::declval<const T&>().begin_bottom_up())> : std::true_type {};
template <class T, class = void> struct has_child_pos : std::false_type {};
template <class T> struct has_child_pos<T, decltype((void)std::declval<const T&>().child(std::declval<typename T::node_type>(), std::declval<typename T::char_type>(), std::declval<typename T::size_type&>()))> : std::true_type {};
template <class X> struct is_fully : std::false_type {};
template <class A, uint32_t d, class S, class B, class D, bool l> struct is_fully<cst_fully<A, d, S, B, D, l>> : std::true_type {};

template <class T> static void whole_tree(vf::Case& c, T& t, const TreeModel& M)
{
    auto& r = c.rng;
    typedef typename T::node_type node;
    // depth first
    {
        std::vector<std::pair<u64, int>> want;
        std::vector<std::pair<u64, size_t>> st{{0, 0}};
        while (!st.empty()) {
            auto& [x, k] = st.back();
            if (k == 0) want.push_back({x, 1});
            if (k < M.v[x].ch.size()) { u64 y = M.v[x].ch[k++]; st.push_back({y, 0}); }
            else { if (!M.is_leaf(x) || M.n == 1) want.push_back({x, 2}); st.pop_back(); }
        }
        size_t i = 0;
        for (auto it = t.begin(); it != t.end(); ++it, ++i) {
            VF_TRUE("dfs", i < want.size(), "more than %zu visits", want.size());
            node v = *it;
            VF_EQ("dfs", (u64)t.lb(v), M.v[want[i].first].lb, "lb at visit %zu", i);
            VF_EQ("dfs", (u64)t.rb(v), M.v[want[i].first].rb, "rb at visit %zu", i);
            VF_EQ("dfs", (int)it.visit(), want[i].second, "visit() at visit %zu", i);
            if (i + 1 < want.size() && r.chance(1, 60) && !(M.n == 1)) { // a copy continues on its own
                auto jt = it;
                size_t j = i;
                for (unsigned k = 0; k < 5 && j + 1 < want.size(); ++k) { ++jt; ++j; VF_EQ("dfs", (u64)t.lb(*jt), M.v[want[j].first].lb, "copied iterator, visit %zu", j); }
            }
        }
        VF_EQ("dfs", i, want.size(), "number of visits");
        // pruned traversal: no proper descendants of a skipped node
        std::set<u64> seen;
        u64 skip = r.below(M.v.size()), cnt = 0;
        for (auto it = t.begin(); it != t.end(); ++it) {
            u64 id = M.of_interval(t.lb(*it), t.rb(*it));
            if (it.visit() == 1) { seen.insert(id); ++cnt; if (id == skip && !M.is_leaf(id)) it.skip_subtree(); }
        }
        u64 below = 0;
        for (u64 x = 0; x < M.v.size(); ++x) below += M.v[x].lb >= M.v[skip].lb && M.v[x].rb <= M.v[skip].rb;
        VF_EQ("dfs-skip", cnt, M.v.size() - (M.is_leaf(skip) ? 0 : below - 1), "visits with node %zu skipped", (size_t)skip);
        auto a = t.begin();
        auto e = t.end();
        a = e;
        VF_TRUE("dfs", a == t.end(), "assigned iterator");
    }
    // breadth first
    {
        std::vector<u64> q{0};
        cst_bfs_iterator<T> it(&t, t.root()), e(&t, t.root(), true, true);
        size_t i = 0;
        for (; it != e; ++it, ++i) {
            VF_TRUE("bfs", i < q.size(), "more than %zu nodes", q.size());
            VF_EQ("bfs", (u64)t.lb(*it), M.v[q[i]].lb, "lb of node %zu", i);
            VF_EQ("bfs", (u64)t.rb(*it), M.v[q[i]].rb, "rb of node %zu", i);
            for (u64 y : M.v[q[i]].ch) q.push_back(y);
        }
        VF_EQ("bfs", i, M.v.size(), "number of nodes");
    }
    if constexpr (has_bu<T>::value) {
        std::vector<u64> post;
        std::vector<std::pair<u64, size_t>> st{{0, 0}};
        while (!st.empty()) {
            auto& [x, k] = st.back();
            if (k < M.v[x].ch.size()) { u64 y = M.v[x].ch[k++]; st.push_back({y, 0}); }
            else { post.push_back(x); st.pop_back(); }
        }
        size_t i = 0;
        for (auto it = t.begin_bottom_up(); it != t.end_bottom_up(); ++it, ++i) {
            VF_TRUE("bottom-up", i < post.size(), "more than %zu nodes", post.size());
            VF_EQ("bottom-up", (u64)t.lb(*it), M.v[post[i]].lb, "lb of node %zu", i);
            VF_EQ("bottom-up", (u64)t.rb(*it), M.v[post[i]].rb, "rb of node %zu", i);
        }
        VF_EQ("bottom-up", i, post.size(), "number of nodes");
        u64 x = r.below(M.v.size());
        node v = t.node(M.v[x].lb, M.v[x].rb);
        u64 cnt = 0, below = 0;
        for (auto it = t.begin(v); it != t.end(v); ++it) {
            if (it.visit() == 1) ++cnt;
            VF_TRUE("dfs-sub", t.lb(*it) >= M.v[x].lb && t.rb(*it) <= M.v[x].rb, "left the subtree");
        }
        for (u64 y = 0; y < M.v.size(); ++y) below += M.v[y].lb >= M.v[x].lb && M.v[y].rb <= M.v[x].rb;
        VF_EQ("dfs-sub", cnt, below, "nodes below node %zu", (size_t)x);
    }
    if constexpr (has_inv_id<T>::value) {
        std::vector<char> used(M.v.size());
        for (u64 x = 0; x < M.v.size(); ++x) {
            if (M.v.size() > 600 && !r.chance(300, M.v.size())) continue;
            node v = t.node(M.v[x].lb, M.v[x].rb);
            u64 id = t.id(v);
            VF_TRUE("id", id < M.v.size() && !used[id], "id %zu of node %zu is out of range or used twice", (size_t)id, (size_t)x);
            used[id] = 1;
            auto w = t.inv_id(id);
            VF_EQ("inv_id", (u64)t.lb(w), M.v[x].lb, "lb of inv_id(%zu)", (size_t)id);
            VF_EQ("inv_id", (u64)t.rb(w), M.v[x].rb, "rb of inv_id(%zu)", (size_t)id);
        }
    }
}
template <class T> static void algorithms(vf::Case& c, const T& t, const TreeModel& M)
{
    auto& r = c.rng;
    const TextModel& m = M.m;
    typedef typename T::char_type ch;
    u64 n = M.n;
    // forward search, count, locate
    for (unsigned q = 0; q < 6; ++q) {
        Seq p;
        u64 a = r.below(n), l = r.chance(1, 3) ? n : r.size(40);
        for (u64 i = a; i + 1 < n && p.size() < l; ++i) p.push_back(m.t[i]);
        if (!p.empty() && r.chance(1, 3)) p[r.below(p.size())] = m.t[r.below(n)];
        if (r.chance(1, 5)) p.push_back(m.t[r.below(n)]);
        if (std::find(p.begin(), p.end(), 0) != p.end()) for (auto& x : p) if (!x) x = 1;
        u64 lo = 0, hi = 0;
        auto less = [&](u64 i, bool upper) { // suffix i < p (or <= p as a prefix)
            u64 s = m.sa[i];
            for (u64 k = 0; k < p.size(); ++k) { if (s + k >= n) return true; if (m.t[s + k] != p[k]) return m.t[s + k] < p[k]; }
            return upper;
        };
        u64 L = 0, R = n;
        while (L < R) { u64 mid = (L + R) / 2; if (less(mid, false)) L = mid + 1; else R = mid; }
        lo = L; R = n;
        while (L < R) { u64 mid = (L + R) / 2; if (less(mid, true)) L = mid + 1; else R = mid; }
        hi = L;
        std::vector<ch> pat(p.begin(), p.end());
        VF_EQ("count", (u64)count(t, pat.begin(), pat.end()), hi - lo, "pattern of length %zu", pat.size());
        if (hi - lo < 500) {
            auto occ = locate(t, pat.begin(), pat.end());
            std::vector<u64> got(occ.begin(), occ.end()), want(m.sa.begin() + lo, m.sa.begin() + hi);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            VF_TRUE("locate", got == want, "pattern of length %zu: %zu occurrences, expected %zu", pat.size(), got.size(), want.size());
        }
        if constexpr (has_child_pos<T>::value) if (n > 1) {
            auto v = t.root();
            typename T::size_type pos = 0;
            u64 sz = forward_search(t, v, 0, pat.begin(), pat.end(), pos);
            VF_EQ("forward_search", sz, hi - lo, "pattern of length %zu", pat.size());
            if (hi > lo && !pat.empty()) { VF_EQ("forward_search", (u64)t.lb(v), lo, "lb"); VF_EQ("forward_search", (u64)t.rb(v), hi - 1, "rb"); }
        }
    }
    // extract
    for (unsigned q = 0; q < 6; ++q) {
        u64 x = r.below(M.v.size());
        auto v = t.node(M.v[x].lb, M.v[x].rb);
        u64 d = M.v[x].depth;
        if (n == 1 || d > 3000) continue;
        auto e = extract(t, v);
        VF_EQ("extract", (u64)e.size(), d, "length of the label of node %zu", (size_t)x);
        for (u64 i = 0; i < d; ++i) VF_EQ("extract", (u64)(ch)e[i], M.sym(x, i), "symbol %zu of node %zu", (size_t)i, (size_t)x);
        typename T::csa_type::string_type buf; // at least one element, as for the root
        buf.resize(std::max<u64>(1, d));
        u64 len = extract(t, v, buf.begin());
        VF_EQ("extract-buf", len, d, "length of the label of node %zu", (size_t)x);
        for (u64 i = 0; i < d; ++i) VF_EQ("extract-buf", (u64)(ch)buf[i], M.sym(x, i), "symbol %zu of node %zu", (size_t)i, (size_t)x);
    }
    // empirical entropy
    auto h0 = [&](u64 x) { double h = 0, s = M.v[x].rb - M.v[x].lb + 1; for (u64 y : M.v[x].ch) { double p = (M.v[y].rb - M.v[y].lb + 1) / s; h -= p * std::log2(p); } return h; };
    u64 x = r.below(M.v.size());
    VF_TRUE("H0", std::fabs(H0<T>(t.node(M.v[x].lb, M.v[x].rb), t) - h0(x)) < 1e-9, "of node %zu", (size_t)x);
    u64 k = r.below(std::min<u64>(n, r.chance(1, 2) ? 5 : 300)), ctx = 0;
    double hk = 0;
    for (u64 y = 0; y < M.v.size(); ++y) {
        if (!M.is_leaf(y) && M.v[y].depth == k) hk += (M.v[y].rb - M.v[y].lb + 1) * h0(y);
        if (M.v[y].depth >= k && (y == 0 || M.v[M.v[y].parent].depth < k)) ++ctx;
    }
    auto got = Hk(t, k);
    if (n > 1 && k) {
        VF_TRUE("Hk", std::fabs(got.first - hk / n) < 1e-9, "H_%zu is %f, expected %f", (size_t)k, got.first, hk / n);
        VF_EQ("Hk", (u64)got.second, ctx, "contexts of length %zu", (size_t)k);
    }
}
template <class T> static void navigate(vf::Case& c, const char* name, u64 lim)
{
    auto& r = c.rng;
    u64 l = lim > 255 ? (r.chance(1, 2) ? 12 : r.chance(1, 2) ? 300 : 5000) : r.chance(1, 2) ? 4 + r.below(10) : lim;
    u64 maxn = r.chance(1, 12) ? (c.thorough ? 6000 : 2500) : r.chance(1, 2) ? 400 : r.chance(1, 4) ? 4 : 60;
    if (is_fully<T>::value) maxn = std::min<u64>(maxn, 150);
    Seq s = l >= 255 && !is_fully<T>::value && r.chance(1, 8) ? gen_fan(c, l > 300 ? 1500 : 700, l) : gen_text(c, maxn, l, !r.chance(1, 20));
    bool ram = r.chance(1, 2);
    std::unique_ptr<T> a(new T());
    VF_TRUE("empty", a->empty() && a->size() == 0 && a->begin() == a->end(), "default constructed tree");
    build_file(c, *a, s, ram, T::alphabet_category::WIDTH);
    const char* how;
    a = derive(c, std::move(a), &how);
    T& t = *a;
    TextModel m(s, true);
    TreeModel M(m);
    u64 n = m.n, N = M.v.size();
    c.desc("%s n=%zu nodes=%zu %s %s %s", name, (size_t)n, (size_t)N, ram ? "ram" : "disk", how, n < 60 ? vf::show(s).c_str() : "");
    c.trivial_if(n < 3);
    VF_EQ("size", (u64)t.size(), n, " ");
    VF_TRUE("empty", !t.empty(), "built tree is empty");
    VF_EQ("nodes", (u64)t.nodes(), N, " ");
    bool slow = is_fully<T>::value;
    whole_tree(c, t, M);
    algorithms<T>(c, t, M);
    // walk
    typedef typename T::node_type node;
    typedef typename T::char_type ch;
    std::vector<Handle<T>> pool{{t.root(), 0, "root"}};
    auto add = [&](const char* op, const node& v, u64 id) {
        VF_EQ(op, (u64)t.lb(v), M.v[id].lb, "lb of node %zu", (size_t)id);
        VF_EQ(op, (u64)t.rb(v), M.v[id].rb, "rb of node %zu", (size_t)id);
        if (pool.size() < 60) pool.push_back({v, id, op}); else pool[r.below(60)] = {v, id, op};
    };
    unsigned steps = slow ? 120 : 400;
    for (unsigned k = 0; k < steps; ++k) {
        if (r.chance(1, 4)) {
            u64 x = r.below(N);
            if (M.is_leaf(x) && r.chance(1, 2)) add("select_leaf", t.select_leaf(M.v[x].lb + 1), x);
            else add("node", t.node(M.v[x].lb, M.v[x].rb), x);
        }
        const Handle<T> h = pool[r.below(pool.size())];
        const TreeModel::Node& x = M.v[h.id];
        const node& v = h.v;
        const char* f = h.src; // how this handle was obtained
        bool leaf = M.is_leaf(h.id);
        size_t id = h.id;
        switch (r.below(14)) {
            case 0:
                VF_EQ("is_leaf", (bool)t.is_leaf(v), leaf, "node %zu (from %s)", id, f);
                VF_EQ("size(v)", (u64)t.size(v), x.rb - x.lb + 1, "node %zu (from %s)", id, f);
                if (n > 1) VF_EQ("depth", (u64)t.depth(v), x.depth, "node %zu (from %s)", id, f);
                VF_EQ("node_depth", (u64)t.node_depth(v), x.nd, "node %zu (from %s)", id, f);
                VF_TRUE("equality", (v == t.root()) == (id == 0), "node %zu (from %s) == root()", id, f);
                break;
            case 1: add("parent", t.parent(v), x.parent); break;
            case 2: {
                if (id == 0) { if (n == 1) break; VF_TRUE("sibling", t.sibling(v) == t.root(), "of the root"); break; }
                auto& ps = M.v[x.parent].ch;
                size_t j = std::find(ps.begin(), ps.end(), id) - ps.begin();
                add("sibling", t.sibling(v), j + 1 < ps.size() ? ps[j + 1] : 0);
                break;
            }
            case 3: case 4: {
                VF_EQ("degree", (u64)t.degree(v), (u64)x.ch.size(), "node %zu (from %s)", id, f);
                if (leaf) { VF_TRUE("select_child", t.select_child(v, 1) == t.root(), "child of leaf %zu", id); break; }
                u64 j = r.below(x.ch.size());
                add("select_child", t.select_child(v, j + 1), x.ch[j]);
                if (r.chance(1, 3)) {
                    u64 q = 0;
                    auto cs = t.children(v);
                    VF_EQ("children", (u64)cs.size(), (u64)x.ch.size(), "size, node %zu (from %s)", id, f);
                    for (auto w : cs) { VF_TRUE("children", q < x.ch.size(), "too many children of node %zu (from %s)", id, f); add("children", w, x.ch[q]); ++q; if (q > 300) break; }
                    VF_TRUE("children", q > 300 || q == x.ch.size(), "%zu children of node %zu (from %s), expected %zu", (size_t)q, id, f, x.ch.size());
                    add("children[]", cs[j], x.ch[j]);
                }
                break;
            }
            case 5: case 6: {
                u64 sy = r.chance(1, 8) ? r.below(lim > 255 ? 6000 : 256) : r.chance(1, 2) || leaf ? m.t[r.below(n)] : M.sym(x.ch[r.below(x.ch.size())], x.depth);
                u64 want = 0;
                for (u64 y : x.ch) if (M.sym(y, x.depth) == sy) want = y;
                if constexpr (has_child_pos<T>::value) {
                    typename T::size_type pos = ~0ULL;
                    node w = t.child(v, (ch)sy, pos);
                    add("child", w, want);
                    if (want) {
                        VF_TRUE("child-pos", pos < n, "char_pos %zu of child of node %zu", (size_t)pos, id);
                        u64 from = m.isa[(m.sa[pos] + n - x.depth) % n];
                        VF_TRUE("child-pos", from >= M.v[want].lb && from <= M.v[want].rb, "char_pos %zu: not a suffix below the child of node %zu", (size_t)pos, id);
                    }
                }
                add("child", t.child(v, (ch)sy), want);
                break;
            }
            case 7: {
                if (x.depth == 0) break;
                u64 d = 1 + (r.chance(1, 2) ? r.below(x.depth) : r.chance(1, 2) ? x.depth - 1 : r.below(std::min<u64>(x.depth, 10)));
                if (n == 1) break;
                VF_EQ("edge", (u64)t.edge(v, d), M.sym(h.id, d - 1), "edge(node %zu (from %s), %zu) of depth %zu", id, f, (size_t)d, (size_t)x.depth);
                break;
            }
            case 8: case 9: {
                const Handle<T> g = pool[r.below(pool.size())];
                add("lca", t.lca(v, g.v), M.lca(h.id, g.id));
                if constexpr (is_fully<T>::value) VF_EQ("ancestor", (bool)t.ancestor(v, g.v), x.lb <= M.v[g.id].lb && x.rb >= M.v[g.id].rb, " ");
                break;
            }
            case 10: { // suffix link; the leaf of the empty suffix is left out (classes differ: root or the cyclic successor)
                if (id && x.lb == 0 && x.rb == 0) break;
                if (n == 1) break;
                u64 want = 0;
                if (id) {
                    u64 p = m.isa[m.sa[x.lb] + 1], q = m.isa[m.sa[x.rb] + 1];
                    want = M.lca(M.leaf[p], M.leaf[q]);
                }
                add("sl", t.sl(v), want);
                if constexpr (has_wl_i<T>::value) {
                    u64 i = r.below(std::min<u64>(x.depth, 40) + (leaf ? 0 : 1));
                    u64 wi = 0;
                    if (id) wi = M.lca(M.leaf[m.isa[m.sa[x.lb] + i]], M.leaf[m.isa[m.sa[x.rb] + i]]);
                    add("sl^i", t.sl(v, i), wi);
                }
                break;
            }
            case 11: case 12: { // Weiner link: the node reached by the string c.label(v)
                u64 sy = r.chance(1, 8) ? 1 + r.below(lim > 255 ? 6000 : 255) : m.bwt[x.lb + r.below(x.rb - x.lb + 1)];
                if (sy == 0 || n == 1) break;
                u64 lo = ~0ULL, hi = 0;
                for (u64 i = x.lb; i <= x.rb; ++i) if (m.bwt[i] == sy) { u64 p = m.isa[m.sa[i] - 1]; if (lo == ~0ULL) lo = p; hi = p; }
                add("wl", t.wl(v, (ch)sy), lo == ~0ULL ? 0 : M.of_interval(lo, hi));
                break;
            }
            case 13: {
                if (n > 1 || !leaf) { add("leftmost_leaf", t.leftmost_leaf(v), M.leaf[x.lb]); add("rightmost_leaf", t.rightmost_leaf(v), M.leaf[x.rb]); }
                if (leaf) VF_EQ("sn", (u64)t.sn(v), m.sa[x.lb], "leaf %zu", (size_t)x.lb);
                break;
            }
        }
    }
}
template <class> struct vf_t; template <class T> struct vf_t<void(T)> { static T* p; };
#define R(T, N, L) static vf::Reg VF_CAT(r_, __COUNTER__)("navigate " N, is_fully<std::decay<decltype(*(vf_t<void T>::p))>::type>::value ? 40 : 140, \
    is_fully<std::decay<decltype(*(vf_t<void T>::p))>::type>::value ? 1500 : 4000, [](vf::Case& c) { navigate<std::decay<decltype(*(vf_t<void T>::p))>::type>(c, N, L); });
CST_TYPES(R)
