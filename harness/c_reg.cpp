// C23 serialization, C24 value semantics, C25 memory hygiene, C27 concurrent use, C29 size reporting over one registry of types
#include "reg.hpp"
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <set>
#ifdef VF_VG
#include <valgrind/memcheck.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

// ---- families that live only here ----
template <class S> struct BpS {   // balanced parentheses support with its sequence
    bit_vector b; S s;
    BpS() {}
    explicit BpS(bit_vector v) : b(std::move(v)) { S x(&b); s = x; s.set_vector(&b); }
    BpS(const BpS& o) : b(o.b), s(o.s) { s.set_vector(&b); }
    BpS(BpS&& o) : b(std::move(o.b)), s(std::move(o.s)) { s.set_vector(&b); }
    BpS& operator=(const BpS& o) { if (this != &o) { b = o.b; s = o.s; s.set_vector(&b); } return *this; }
    BpS& operator=(BpS&& o) { if (this != &o) { b = std::move(o.b); s = std::move(o.s); s.set_vector(&b); } return *this; }
    void swap(BpS& o) { b.swap(o.b); util::swap_support(s, o.s, &b, &o.b); }
    typedef uint64_t size_type;
    size_type serialize(std::ostream& out, structure_tree_node* v = nullptr, std::string name = "") const
    { structure_tree_node* ch = structure_tree::add_child(v, name, "BpS"); size_type w = b.serialize(out, ch, "b"); w += s.serialize(out, ch, "s"); structure_tree::add_size(ch, w); return w; }
    void load(std::istream& in) { b.load(in); s.load(in, &b); }
};
static bit_vector reg_bp(Case& c)
{
    uint64_t n = 1 + reg_n(c); bit_vector b(2 * n, 0); uint64_t open = 0, left = n; unsigned p = 1 + c.rng.below(9);
    for (uint64_t i = 0; i < 2 * n; ++i) { bool o = left && (open == 0 || (i > 0 && open == 1 && left) || c.rng.chance(p, 10)); if (open == 1 && left) o = true; b[i] = o; c.mixfp(o); if (o) { ++open; --left; } else --open; }
    return b;
}
struct FBp {
    template <class S> static auto up(H& h, const S& s, uint64_t i, uint64_t ex, int) -> decltype(s.level_anc(0, 0), void()) { h(s.level_anc(i, ex / 2)); }
    template <class S> static void up(H&, const S&, uint64_t, uint64_t, long) {}
    template <class T> static std::unique_ptr<T> make(Case& c) { return std::unique_ptr<T>(new T(reg_bp(c))); }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t n = t.b.size(); h(n);
        for (uint64_t i : samp(n)) {
            h(t.s.excess(i)); h(t.s.rank(i)); h(t.s.preceding_closing_parentheses(i));
            if (!t.b[i]) { h(t.s.find_open(i)); continue; }
            uint64_t cl = t.s.find_close(i); h(cl); h(t.s.enclose(i)); up(h, t.s, i, t.s.excess(i), 0);
            if (cl + 1 < n && t.b[cl + 1]) { h(t.s.double_enclose(i, cl + 1)); h(t.s.rr_enclose(i, cl + 1)); }
        }
        for (uint64_t i : samp(n / 2)) h(t.s.select(i + 1));
        uint64_t x = n;
        for (int k = 0; n && k < 20; ++k) { x = vf::mix64(x + k); uint64_t l = x % n, r = l + x / 65536 % (n - l); h(t.s.rmq(l, r)); }
        if (n) h(t.s.rmq(0, n - 1));
        return h.h;
    }
};
template <uint8_t W> struct FAlpha { // alphabet of a text (0 occurs once)
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        uint64_t n = 1 + reg_n(c), al = 1 + c.rng.below(W == 8 ? 255 : 3000), st = W == 8 ? 1 : 1 + c.rng.below(30); int_vector<W> v(n, 0, W ? W : 20);
        for (uint64_t i = 0; i + 1 < n; ++i) { v[i] = (1 + c.rng.below(al)) * st; c.mixfp(v[i]); }
        std::string f = ram_file_name("alphabet" + std::to_string(c.rng.next())); store_to_file(v, f);
        std::unique_ptr<T> t; { int_vector_buffer<W> b(f); t.reset(new T(b, n)); b.close(true); }
        return t;
    }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t s = t.sigma; h(s);
        for (uint64_t k = 0; k < s; ++k) { uint64_t y = t.comp2char[k]; h(y); h((uint64_t)t.char2comp[y]); h((uint64_t)t.C[k]); }
        if (s) h((uint64_t)t.C[s]);
        return h.h;
    }
};
struct FRmq {
    template <class T> static std::unique_ptr<T> make(Case& c) { uint64_t n = 1 + reg_n(c); int_vector<> v(n, 0, 20); for (uint64_t i = 0; i < n; ++i) { v[i] = c.rng.below(30); c.mixfp(v[i]); } return std::unique_ptr<T>(new T(&v)); }
    template <class T> static uint64_t obs(const T& t) { H h; uint64_t n = t.size(); h(n); for (uint64_t i : samp(n)) for (uint64_t j = i; j < n; j += 1 + (j - i) / 4) h(t(i, j)); return h.h; }
};
struct FRmqSada {
    template <class T> static std::unique_ptr<T> make(Case& c) { return FRmq::make<T>(c); }
    template <class T> static uint64_t obs(const T& t) { return FRmq::obs(t); }
};
struct SparseT {    // sparse table with its vector
    int_vector<> v; rmq_support_sparse_table<int_vector<>> r;
    SparseT() {}
    explicit SparseT(int_vector<> x) : v(std::move(x)) { r = rmq_support_sparse_table<int_vector<>>(&v); r.set_vector(&v); }
    SparseT(const SparseT& o) : v(o.v), r(o.r) { r.set_vector(&v); }
    SparseT(SparseT&& o) : v(std::move(o.v)), r(std::move(o.r)) { r.set_vector(&v); }
    SparseT& operator=(const SparseT& o) { if (this != &o) { v = o.v; r = o.r; r.set_vector(&v); } return *this; }
    SparseT& operator=(SparseT&& o) { if (this != &o) { v = std::move(o.v); r = std::move(o.r); r.set_vector(&v); } return *this; }
    void swap(SparseT& o) { v.swap(o.v); util::swap_support(r, o.r, &v, &o.v); }
    typedef uint64_t size_type;
    size_type serialize(std::ostream& out, structure_tree_node* n = nullptr, std::string name = "") const
    { structure_tree_node* ch = structure_tree::add_child(n, name, "SparseT"); size_type w = v.serialize(out, ch, "v"); w += r.serialize(out, ch, "r"); structure_tree::add_size(ch, w); return w; }
    void load(std::istream& in) { v.load(in); r.load(in, &v); }
};
struct FSparse {
    template <class T> static std::unique_ptr<T> make(Case& c) { uint64_t n = 1 + reg_n(c); int_vector<> v(n, 0, 20); for (uint64_t i = 0; i < n; ++i) { v[i] = c.rng.below(30); c.mixfp(v[i]); } return std::unique_ptr<T>(new T(v)); }
    template <class T> static uint64_t obs(const T& t) { H h; uint64_t n = t.v.size(); h(n); for (uint64_t i : samp(n)) for (uint64_t j = i; j < n; j += 1 + (j - i) / 4) h(t.r(i, j)); return h.h; }
};
struct FNnd {
    template <class T> static std::unique_ptr<T> make(Case& c) { return std::unique_ptr<T>(new T(reg_bits(c))); }
    template <class T> static uint64_t obs(const T& t) { H h; h(t.size()); h(t.ones()); for (uint64_t i : samp(t.ones())) h(t.select(i + 1)); for (uint64_t i : samp(t.size())) { uint64_t r = t.rank(i); h(r); if (r) h(t.prev(i)); if (r < t.ones()) h(t.next(i)); } return h.h; }
};
struct FDyn {
    template <class T> static std::unique_ptr<T> make(Case& c) { bit_vector b = reg_bits(c); b.resize(b.size() + 1); std::unique_ptr<T> t(new T(b.size())); for (uint64_t i = 0; i < b.size(); ++i) if (b[i]) (*t)[i] = 1; return t; }
    template <class T> static uint64_t obs(const T& t) { H h; uint64_t n = t.size(); h(n); for (uint64_t i : samp(n)) { h(t[i]); h(t.next(i)); h(t.prev(i)); } return h.h; }
};
struct FTreap {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        std::set<std::pair<uint64_t,uint64_t>> s; uint64_t n = reg_large ? 2000 : reg_n(c), l = 1 + c.rng.below(1000); for (uint64_t i = 0; i < n; ++i) s.emplace(c.rng.below(l), c.rng.below(l));
        std::vector<std::array<uint64_t,3>> v; for (auto& p : s) { v.push_back({{p.first, p.second, c.rng.below(100000)}}); c.mixfp(v.back()[2] ^ p.first << 30); }
        std::unique_ptr<T> t(new T()); construct_im(*t, v); return t;
    }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; h(t.size()); uint64_t sum = 0;
        for (auto it = top_k(t, {0, 0}, {700, 2000}); it; ++it) { auto p = *it; h(p.second); sum += vf::mix64(std::real(p.first) * 4099 + std::imag(p.first)); }
        h(sum); h(count(t, {10, 10}, {300, 300}));
        sum = 0; for (auto it = range_3d(t, {5, 0}, {900, 500}, {100, 60000}); it; ++it) { auto p = *it; sum += vf::mix64(std::real(p.first) * 4099 + std::imag(p.first)) ^ p.second; } h(sum);
        if (t.size()) { std::vector<k2_treap_ns::node_type> q{t.root()}; for (size_t i = 0; i < q.size() && i < 300; ++i) { h(q[i].max_v); h(t.is_leaf(q[i])); if (!t.is_leaf(q[i])) for (auto ch : t.children(q[i])) q.push_back(ch); } }
        return h.h;
    }
};
struct FTree {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        uint64_t n = 1 + c.rng.below(200), m = 1 + c.rng.below(200); std::vector<std::tuple<typename T::idx_type, typename T::idx_type>> e;
        for (uint64_t i = 0; i < m; ++i) { e.emplace_back(c.rng.below(n), c.rng.below(n)); c.mixfp(std::get<0>(e.back()) * 1000 + std::get<1>(e.back())); }
        return std::unique_ptr<T>(new T(e, 200));
    }
    template <class T> static uint64_t obs(const T& t) { H h; for (uint64_t i = 0; i < 200; i += 3) { for (auto x : t.neigh(i)) h(x); h(~0); for (auto x : t.reverse_neigh(i)) h(x); h(t.adj(i, 199 - i)); } h(t.range(3, 90, 0, 199).size()); return h.h; }
};
struct FLouds {
    struct It { std::vector<uint64_t> d; size_t i = 0; uint64_t q = 1; uint64_t size() const { return q; } uint64_t operator*() const { return i; }
        It& operator++() { q += d[i]; --q; ++i; return *this; } bool operator!=(const It& o) const { return q != o.q; } bool operator==(const It& o) const { return q == o.q; } };
    struct Tr { uint64_t n; uint64_t size(uint64_t) const { return n; } };
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        It b, e; e.q = 0; uint64_t q = 1, lim = reg_n(c);
        while (q) { uint64_t d = b.d.size() < lim ? c.rng.below(4) : 0; if (q == 1 && b.d.size() < lim) d = std::max<uint64_t>(d, 1); b.d.push_back(d); c.mixfp(d); q += d; --q; }
        return std::unique_ptr<T>(new T(Tr{b.d.size()}, b, e));
    }
    template <class T> static uint64_t obs(const T& t)
    {
        H h; uint64_t n = t.nodes(); h(n); if (!n || t.bv.size() == 0) return h.h;
        std::vector<typename T::node_type> q{t.root()};
        for (size_t i = 0; i < q.size() && i < 2 * n; ++i) { auto v = q[i]; uint64_t d = t.degree(v); h(d); h(t.id(v)); h(t.id(t.parent(v))); h(t.is_leaf(v)); for (uint64_t k = 1; k <= d; ++k) q.push_back(t.child(v, k)); }
        return h.h;
    }
};
template <class T> struct PermS {
    int_vector<> v; T s;
    PermS() { s.set_vector(&v); }
    explicit PermS(int_vector<> x) : v(std::move(x)), s(&v) {}
    PermS(const PermS& o) : v(o.v), s(o.s) { s.set_vector(&v); }
    PermS(PermS&& o) : v(std::move(o.v)), s(std::move(o.s)) { s.set_vector(&v); }
    PermS& operator=(const PermS& o) { if (this != &o) { v = o.v; s = o.s; s.set_vector(&v); } return *this; }
    PermS& operator=(PermS&& o) { if (this != &o) { v = std::move(o.v); s = std::move(o.s); s.set_vector(&v); } return *this; }
    void swap(PermS& o) { v.swap(o.v); s.swap(o.s); s.set_vector(&v); o.s.set_vector(&o.v); }
    typedef uint64_t size_type;
    size_type serialize(std::ostream& out, structure_tree_node* n = nullptr, std::string name = "") const
    { structure_tree_node* ch = structure_tree::add_child(n, name, "PermS"); size_type w = v.serialize(out, ch, "v"); w += s.serialize(out, ch, "s"); structure_tree::add_size(ch, w); return w; }
    void load(std::istream& in) { v.load(in); s.load(in); s.set_vector(&v); }
};
struct FPerm {
    template <class T> static std::unique_ptr<T> make(Case& c)
    { uint64_t n = 1 + reg_n(c); int_vector<> v(n, 0, bits::hi(n) + 1); util::set_to_id(v); for (uint64_t i = n; i > 1; --i) { uint64_t j = c.rng.below(i); uint64_t x = v[i-1]; v[i-1] = v[j]; v[j] = x; } for (uint64_t i = 0; i < n; ++i) c.mixfp(v[i]); return std::unique_ptr<T>(new T(v)); }
    template <class T> static uint64_t obs(const T& t) { H h; uint64_t n = t.v.size(); h(n); for (uint64_t i : samp(n)) { h(t.v[i]); h(t.s[i]); } return h.h; }
};

// ---- the monitors ----
struct SlowBuf : std::streambuf {   // a source handing out a few bytes at a time, as a pipe does
    std::string s; size_t p = 0, step; explicit SlowBuf(std::string x, size_t st) : s(std::move(x)), step(st) {}
    int_type underflow() override { if (p >= s.size()) return traits_type::eof(); size_t n = std::min(step, s.size() - p); setg(&s[p], &s[p], &s[p] + n); p += n; return traits_type::to_int_type(*gptr()); }
};
template <class T> static std::string bytes(const T& t, const char* key)
{
    std::ostringstream o; o << "pre"; uint64_t w = t.serialize(o); std::string s = o.str().substr(3);
    VF_TRUE(key, !o.fail(), "stream failed");
    VF_EQ("reported-bytes", w, s.size(), "serialize() returned another number than it wrote");
    return s;
}
template <class T> static void reload(const T&, T& into, std::istream& in, const std::string& s, const char* what)
{
    into.load(in);
    VF_TRUE("load-stream", !in.fail() && !in.bad(), "%s: stream failed while loading", what);
    std::string rest(64, 0); in.read(&rest[0], 64); rest.resize(in.gcount());
    VF_EQ("load-position", rest, std::string("@@sentinel@@"), "%s: load() did not stop at the end of the object (%zu bytes)", what, s.size());
}
template <class T, class F> static void m_serial(Case& c)
{
    auto a = F::template make<T>(c), b = F::template make<T>(c);
    c.desc("two objects");
    uint64_t oa = F::obs(*a), ob = F::obs(*b);
    std::string sa = bytes(*a, "write"), sb = bytes(*b, "write");
    VF_TRUE("deterministic", bytes(*a, "write") == sa, "serializing twice gave different bytes");
    VF_EQ("const", F::obs(*a), oa, "observations changed by serialize()");
    T x;
    { std::istringstream in(sa + "@@sentinel@@"); reload(*a, x, in, sa, "fresh object"); }
    VF_EQ("answers", F::obs(x), oa, "loaded object answers differently");
    VF_TRUE("rewrite", bytes(x, "write") == sa, "serialization of the loaded object differs");
    { std::istringstream in(sb + "@@sentinel@@"); reload(*b, x, in, sb, "used object"); }
    VF_EQ("answers-used", F::obs(x), ob, "object loaded over another one answers differently");
    { SlowBuf bf(sa + "@@sentinel@@", 1 + c.rng.below(13)); std::istream in(&bf); reload(*a, x, in, sa, "slow stream"); }
    VF_EQ("answers-slow", F::obs(x), oa, "object loaded from a slow stream answers differently");
    {   // several objects in one stream
        std::stringstream ss; b->serialize(ss); a->serialize(ss); b->serialize(ss); T p, q, r; p.load(ss); q.load(ss); r.load(ss);
        VF_TRUE("stream-of-objects", F::obs(p) == ob && F::obs(q) == oa && F::obs(r) == ob, "three objects in one stream");
    }
    {   // an empty object replaces the content of a used one
        T e; std::string se = bytes(e, "write-default"); std::istringstream in(se + "@@sentinel@@"); reload(e, x, in, se, "default object");
        VF_TRUE("rewrite-default", bytes(x, "write") == se, "loading a default object does not give a default object");
        std::istringstream in2(sa + "@@sentinel@@"); reload(*a, x, in2, sa, "after default object");
        VF_EQ("answers-after-default", F::obs(x), oa, "object loaded over a default one answers differently");
    }
    std::string f = c.rng.chance(1, 2) ? std::string("@reg.sdsl") : vf::scratch_dir() + "/reg.sdsl";
    VF_TRUE("store", store_to_file(*a, f), "store_to_file(%s)", f.c_str());
    T y; if (c.rng.chance(1, 2)) y = *b;
    VF_TRUE("load", load_from_file(y, f), "load_from_file(%s)", f.c_str());
    VF_EQ("answers-file", F::obs(y), oa, "object loaded from %s answers differently", f.c_str());
    VF_TRUE("store", store_to_file(*b, f), "store_to_file(%s) over an existing file", f.c_str());
    VF_TRUE("load", load_from_file(y, f), "load_from_file(%s)", f.c_str());
    VF_EQ("answers-file", F::obs(y), ob, "object loaded from an overwritten file answers differently");
    VF_TRUE("store-checked", store_to_checked_file(*a, f), "store_to_checked_file(%s)", f.c_str());
    VF_TRUE("load-checked", load_from_checked_file(y, f), "load_from_checked_file(%s)", f.c_str());
    VF_EQ("answers-checked", F::obs(y), oa, "object loaded from a checked file answers differently");
    { nn_dict_dynamic other; VF_TRUE("wrong-type", (std::is_same<T, nn_dict_dynamic>::value || !load_from_checked_file(other, f)), "a file holding another type was accepted"); }
    sdsl::remove(f);
}
// pool of objects with known content; every operation of a value type in random order
template <class T, class F> static void m_value(Case& c)
{
    const int N = 4;
    std::unique_ptr<T> pool[N]; int content[N];     // -1 default constructed, -2 moved from, >=0 content id
    std::vector<uint64_t> want; std::vector<std::unique_ptr<T>> src;
    for (int i = 0; i < 3; ++i) { src.push_back(F::template make<T>(c)); want.push_back(F::obs(*src.back())); }
    for (int i = 0; i < N; ++i) { pool[i].reset(new T()); content[i] = -1; }
    int steps = c.thorough ? 60 : 24;
    std::string hist;
    auto verify = [&](int i, const char* op) {
        if (content[i] >= 0) VF_EQ("answers", F::obs(*pool[i]), want[content[i]], "slot %d after %s; history %s", i, op, hist.c_str());
    };
    for (int s = 0; s < steps; ++s) {
        int i = c.rng.below(N), j = c.rng.below(N); if (c.rng.chance(1, 2) && content[j] == -2) j = c.rng.below(N);
        unsigned op = c.rng.below(12); const char* nm = "";
        if (content[j] == -2 && (op == 2 || op == 3 || op == 4 || op == 5 || op == 8)) op = 1;   // the content of a moved-from object is unspecified
        if (i == j && (op == 4 || op == 5)) op = 7;
        switch (op) {
            case 0: case 1: { int k = c.rng.below(want.size()); nm = "=copy of original"; *pool[i] = *src[k]; content[i] = k; break; }
            case 2: { nm = "copy construct"; std::unique_ptr<T> p(new T(*pool[j])); if (i != j) { pool[i] = std::move(p); content[i] = content[j]; } else pool[i] = std::move(p); break; }
            case 3: { nm = "copy assign"; *pool[i] = *pool[j]; content[i] = content[j]; break; }
            case 4: { nm = "move construct"; std::unique_ptr<T> p(new T(std::move(*pool[j]))); pool[i] = std::move(p); content[i] = content[j]; content[j] = -2; break; }
            case 5: { nm = "move assign"; *pool[i] = std::move(*pool[j]); content[i] = content[j]; content[j] = -2; break; }
            case 6: case 7: { nm = "swap"; pool[i]->swap(*pool[j]); std::swap(content[i], content[j]); break; }
            case 8: { nm = "self assign"; T& r = *pool[j]; r = *pool[j]; break; }
            case 9: { nm = "recreate"; pool[i].reset(new T()); content[i] = -1; break; }
            case 10: { int k = c.rng.below(want.size()); nm = "load"; std::stringstream ss; src[k]->serialize(ss); pool[i]->load(ss); content[i] = k; break; }
            default: { int k = c.rng.below(want.size()); nm = "move of a copy"; T tmp(*src[k]); *pool[i] = std::move(tmp); content[i] = k; }
        }
        hist += vf::strf("%s(%d,%d) ", nm, i, j); if (hist.size() > 400) hist = "..." + hist.substr(hist.size() - 350);
        verify(i, nm); verify(j, nm);
        c.mixfp(op * 16 + i * 4 + j);
    }
    for (int i = 0; i < N; ++i) verify(i, "end");
    for (size_t k = 0; k < want.size(); ++k) VF_EQ("original", F::obs(*src[k]), want[k], "an original changed; history %s", hist.c_str());
    c.desc("%d operations on %d objects: %s", steps, N, hist.c_str());
}
template <class T, class F> static void hygiene_ops(Case& c)
{
    auto a = F::template make<T>(c), b = F::template make<T>(c);
    H h; h(F::obs(*a));
    std::unique_ptr<T> hd(new T), hd2(new T(*hd)), hd3(new T(std::move(*hd2))); T &d = *hd, &d2 = *hd2, &d3 = *hd3; d2 = *a; d3 = d; d3 = std::move(d2); d2 = *b; d3.swap(d2); std::swap(d3, d2);
    h(F::obs(d2)); h(F::obs(d3));
    std::stringstream ss; d.serialize(ss); a->serialize(ss); std::unique_ptr<T> he(new T); T& e = *he; e.load(ss); e.load(ss); h(F::obs(e));
    e = d; h(size_in_bytes(e)); d.swap(*a); h(F::obs(d));
    std::vector<T> v; v.push_back(d); v.push_back(*b); v.push_back(T()); v.erase(v.begin()); h(F::obs(v[0]));
    c.mixfp(h.h);
}
template <class T, class F> static void m_mem(Case& c)
{
    c.desc("life cycle of a dozen objects");
#if defined(VF_VG)
    unsigned e0 = VALGRIND_COUNT_ERRORS;
    hygiene_ops<T, F>(c);
    auto a = F::template make<T>(c);
    std::unique_ptr<T> d(new T), d2(new T(*d)); // fresh heap blocks: a stack slot may be defined by an object which was there before
    std::ostringstream o; a->serialize(o); d->serialize(o); d2->serialize(o); std::string s = o.str();
    if (RUNNING_ON_VALGRIND) {
        if (VALGRIND_COUNT_ERRORS == e0) VF_EQ("written-undefined", (uint64_t)VALGRIND_CHECK_MEM_IS_DEFINED(s.data(), s.size()) != 0, false, "serialize() wrote uninitialised bytes (%zu written)", s.size());
        VF_TRUE("uninitialised", VALGRIND_COUNT_ERRORS == e0, "memcheck reported %u errors (see parent.err)", (unsigned)VALGRIND_COUNT_ERRORS - e0);
    }
#elif defined(__SANITIZE_ADDRESS__)
    uint64_t s0 = c.rng.s; hygiene_ops<T, F>(c); 
    uint64_t live[4];
    for (int r = 0; r < 4; ++r) { c.rng.s = s0; hygiene_ops<T, F>(c); live[r] = __sanitizer_get_current_allocated_bytes(); }
    VF_TRUE("leak", live[3] <= live[2] || live[2] <= live[1], "memory grows with every repetition: %llu %llu %llu bytes in use", (unsigned long long)live[1], (unsigned long long)live[2], (unsigned long long)live[3]);
#endif
}
template <class T, class F> static void m_conc(Case& c)
{
    auto a = F::template make<T>(c); const T& t = *a;
    uint64_t want = F::obs(t); std::string ser = bytes(t, "write");
    const int NT = 4; std::atomic<int> go(0), bad(0); std::atomic<uint64_t> answers(0); std::vector<std::thread> th;
    for (int k = 0; k < NT; ++k) th.emplace_back([&, k] {
        ++go; while (go < NT) std::this_thread::yield();
        for (int r = 0; r < 3; ++r) { if (F::obs(t) != want) ++bad; ++answers; }
        if (k == 1) { T cp(t); if (F::obs(cp) != want) ++bad; }
        if (k == 2) { std::ostringstream o; t.serialize(o); if (o.str() != ser) ++bad; }
    });
    for (auto& x : th) x.join();
    c.desc("%d threads, %llu complete observations", NT, (unsigned long long)answers.load());
    VF_EQ("answers", bad.load(), 0, "answers under concurrent use differ");
}
static uint64_t sum_check(const structure_tree_node* n, Case& c, unsigned& nodes)
{
    ++nodes; uint64_t s = 0;
    for (auto& ch : n->children) s += sum_check(ch.second.get(), c, nodes);
    if (!n->children.empty()) VF_TRUE("tree-sum", s <= n->size, "children of %s (%s) sum to %llu, the node says %llu", n->name.c_str(), n->type.c_str(), (unsigned long long)s, (unsigned long long)n->size);
    return n->size;
}
template <class T, class F> static void m_size(Case& c)
{
    auto a = F::template make<T>(c);
    if (c.rng.chance(1, 6)) { a.reset(new T()); c.mixfp(c.idx); }
    std::string s = bytes(*a, "write");
    c.desc("%zu bytes", s.size());
    VF_EQ("size_in_bytes", size_in_bytes(*a), s.size(), "%s", "size_in_bytes");
    VF_TRUE("size_in_mega_bytes", std::abs(size_in_mega_bytes(*a) - s.size() / (1024.0 * 1024.0)) < 1e-9 + 1e-9 * s.size(), "%f", size_in_mega_bytes(*a));
    std::unique_ptr<structure_tree_node> root(new structure_tree_node("name", "type"));
    std::ostringstream o; uint64_t w = a->serialize(o, root.get(), "obj");
    VF_TRUE("same-bytes", o.str() == s, "serialize() with a structure tree writes other bytes");
    VF_EQ("reported-bytes", w, s.size(), "%s", "with a structure tree");
    VF_EQ("tree-children", root->children.size(), 1u, "%s", "one child under the given node");
    unsigned nodes = 0;
    VF_EQ("tree-size", sum_check(root->children.begin()->second.get(), c, nodes), s.size(), "%s", "root of the structure tree");
    VF_EQ("tree-name", root->children.begin()->second->name, std::string("obj"), "%s", "node name");
    std::ostringstream j; write_structure<JSON_FORMAT>(*a, j);
    // every node of the tree appears in the report with its size, and no other number does; the HTML report contains the same text
    std::vector<std::string> want, got; std::function<void(const structure_tree_node*)> walk = [&](const structure_tree_node* n) { want.push_back(std::to_string(n->size)); for (auto& ch : n->children) walk(ch.second.get()); };
    walk(root->children.begin()->second.get());
    { std::string t; for (char ch : j.str()) if (ch != ' ' && ch != '\t' && ch != '\n') t += ch; const std::string key = "\"size\":\""; for (size_t p = t.find(key); p != std::string::npos; p = t.find(key, p)) { p += key.size(); got.push_back(t.substr(p, t.find('"', p) - p)); } }
    VF_TRUE("json", !got.empty() && got[0] == std::to_string(s.size()), "JSON report starts with size %s, %zu bytes are written", got.empty() ? "none" : got[0].c_str(), s.size());
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); VF_TRUE("json", want == got, "JSON report has %zu sizes, the tree has %zu nodes, or they differ", got.size(), want.size());
    if (c.idx % 4 == 0) { std::ostringstream h; write_structure<HTML_FORMAT>(*a, h); VF_TRUE("html", h.str().find(j.str()) != std::string::npos, "the HTML report does not contain the JSON report"); }
    int depth = 0, mind = 0; bool inq = false; for (char ch : j.str()) { if (ch == '"') inq = !inq; if (inq) continue; if (ch == '{' || ch == '[') ++depth; if (ch == '}' || ch == ']') --depth; mind = std::min(mind, depth); }
    VF_TRUE("json-balance", depth == 0 && mind == 0 && !inq, "unbalanced JSON");
}
struct Large { Large() { reg_large = true; } ~Large() { reg_large = false; } };
#if defined(VF_VG)
#define R(name, F, ...) static vf::Reg VF_CAT(rg5, __LINE__)("C25:" name, 1, 12, [](Case& c) { m_mem<__VA_ARGS__, F>(c); });
#define RL(name, F, ...) R(name, F, __VA_ARGS__)
#elif defined(__SANITIZE_THREAD__)
#define R(name, F, ...) static vf::Reg VF_CAT(rg7, __LINE__)("C27:" name, 4, 120, [](Case& c) { m_conc<__VA_ARGS__, F>(c); });
#define RL(name, F, ...) R(name, F, __VA_ARGS__) \
    static vf::Reg VF_CAT(rl7, __LINE__)("C27:" name " large", 1, 12, [](Case& c) { Large g; m_conc<__VA_ARGS__, F>(c); });
#else
#define RL(name, F, ...) R(name, F, __VA_ARGS__) \
    static vf::Reg VF_CAT(rl3, __LINE__)("C23:" name " large", 2, 40, [](Case& c) { Large g; m_serial<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rl4, __LINE__)("C24:" name " large", 3, 60, [](Case& c) { Large g; m_value<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rl5, __LINE__)("C25:" name " large", 1, 8, [](Case& c) { Large g; m_mem<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rl9, __LINE__)("C29:" name " large", 1, 20, [](Case& c) { Large g; m_size<__VA_ARGS__, F>(c); });
#define R(name, F, ...) \
    static vf::Reg VF_CAT(rg3, __LINE__)("C23:" name, 30, 600, [](Case& c) { m_serial<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rg4, __LINE__)("C24:" name, 40, 800, [](Case& c) { m_value<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rg5, __LINE__)("C25:" name, 6, 100, [](Case& c) { m_mem<__VA_ARGS__, F>(c); }); \
    static vf::Reg VF_CAT(rg9, __LINE__)("C29:" name, 20, 400, [](Case& c) { m_size<__VA_ARGS__, F>(c); });
#endif
#if PART == 0
R("bit_vector",            FBvPlain, bit_vector)
RL("bit_vector v/mcl",      FBv, BvRS<bit_vector>)
R("bit_vector v5/scan",    FBv, BvRS<bit_vector, rank_support_v5<1>, rank_support_v5<0>, select_support_scan<1>, select_support_scan<0>>)
R("bit_vector scan/mcl",   FBv, BvRS<bit_vector, rank_support_scan<1>, rank_support_scan<0>>)
R("bit_vector_il<64>",     FBv, BvRS<bit_vector_il<64>>)
RL("bit_vector_il<512>",    FBv, BvRS<bit_vector_il<512>>)
RL("rrr_vector<15>",        FBv, BvRS<rrr_vector<15>>)
RL("rrr_vector<63>",        FBv, BvRS<rrr_vector<63>>)
R("rrr_vector<127,u,7>",   FBv, BvRS<rrr_vector<127, int_vector<>, 7>>)
R("rrr_vector<200>",       FBv, BvRS<rrr_vector<200>>)
RL("sd_vector",             FBv, BvRS<sd_vector<>>)
RL("sd_vector<rrr>",        FBv, BvRS<sd_vector<rrr_vector<63>>>)
R("hyb_vector plain",      FBvPlain, hyb_vector<>)
RL("hyb_vector",           FHyb, HybRS)
#elif PART == 1
#if !defined(VF_VG) && !defined(__SANITIZE_THREAD__)
// vectors and plain files longer than the blocks in which they are written and read
VF_SUITE("C23:int_vector blocks", 3, 20)
{
    const uint64_t B = conf::SDSL_BLOCK_SIZE; uint64_t words = std::vector<uint64_t>{B, B + 1, B + 2, 2 * B + 1, 2 * B, B - 1, B + 777}[c.rng.below(7)]; if (c.idx == 0) words = B + 1 + c.rng.below(3);
    unsigned w = 1 + c.rng.below(64); uint64_t bits = words * 64 - c.rng.below(64), n = bits / w; int_vector<> v(n, 0, w); uint64_t* d = (uint64_t*)v.data();
    for (uint64_t i = 0; i < (n * w) / 64; ++i) d[i] = vf::mix64(i + c.seed);
    c.desc("n=%zu w=%u, %zu words", (size_t)n, w, (size_t)words); c.mixfp(n * w);
    std::string f = c.idx % 3 == 2 ? std::string("@c23blocks") : vf::scratch_dir() + "/blocks";
    VF_TRUE("store", store_to_file(v, f), "%s", f.c_str());
    VF_EQ("file-size", (uint64_t)util::file_size(f), (uint64_t)(9 + (n * w + 63) / 64 * 8), "%s", f.c_str());
    VF_EQ("size_in_bytes", (uint64_t)size_in_bytes(v), (uint64_t)util::file_size(f), "%s", f.c_str());
    int_vector<> x(5, 3, 7); VF_TRUE("load", load_from_file(x, f), "%s", f.c_str());
    VF_TRUE("header", x.size() == n && x.width() == w, "size %zu width %u", (size_t)x.size(), (unsigned)x.width());
    uint64_t bad = 0; for (uint64_t i = 0; i < n; i += 1 + i % 5) if (x[i] != v[i]) { bad = i + 1; break; }
    VF_EQ("content", bad, 0u, "first difference + 1"); VF_TRUE("equal", x == v, "operator==");
    { int_vector_buffer<> b(f, std::ios::in, 1 << 20); VF_EQ("buffer", (uint64_t)b.size(), n, "size"); for (uint64_t k = 0; k < 300; ++k) { uint64_t i = c.rng.below(n); VF_EQ("buffer", (uint64_t)b[i], (uint64_t)v[i], "at %zu", (size_t)i); } VF_EQ("buffer", (uint64_t)b[n - 1], (uint64_t)v[n - 1], "last"); }
    sdsl::remove(f);
}
template <uint8_t W> static void plain_file(Case& c, uint8_t nb, uint64_t n, const std::string& f)
{
    { std::ofstream o; osfstream out(f, std::ios::binary | std::ios::trunc | std::ios::out); std::string s(n * nb, 0); for (uint64_t i = 0; i < n; ++i) { uint64_t x = vf::mix64(i ^ c.seed); memcpy(&s[i * nb], &x, nb); } out.write(s.data(), s.size()); out.close(); }
    int_vector<W> v(3, 1, W ? W : 9); VF_TRUE("load-plain", load_vector_from_file(v, f, nb), "%s", f.c_str());
    VF_EQ("load-plain-size", (uint64_t)v.size(), n, "num_bytes=%u", (unsigned)nb);
    uint64_t bad = 0; for (uint64_t i = 0; i < n; ++i) if (v[i] != (vf::mix64(i ^ c.seed) & bits::lo_set[8 * nb])) { bad = i + 1; break; }
    VF_EQ("load-plain", bad, 0u, "first difference + 1, num_bytes=%u W=%u", (unsigned)nb, (unsigned)W);
}
VF_SUITE("C23:plain file blocks", 4, 24)
{
    uint8_t nb = 1 << (c.idx % 4); const uint64_t B = conf::SDSL_BLOCK_SIZE; uint64_t n = std::vector<uint64_t>{B + 1, B, B - 1, B + 5000, 2 * B + 3}[c.idx / 4 % 5 ? c.rng.below(5) : c.rng.below(4)];
    std::string f = c.rng.chance(1, 2) ? std::string("@c23plain") : vf::scratch_dir() + "/plain";
    c.desc("n=%zu num_bytes=%u %s", (size_t)n, (unsigned)nb, f.c_str()); c.mixfp(n * 16 + nb);
    plain_file<0>(c, nb, n, f); if (nb == 1) plain_file<8>(c, nb, n, f); if (nb == 8) plain_file<64>(c, nb, n, f);
    sdsl::remove(f);
}
#endif
// a structure of a user: members of every kind, serialized the way the library serializes its own
struct Composite {
    typedef uint64_t size_type;
    std::string s, t; uint64_t x = 0; double d = 0; uint8_t b = 0; bool f = false; int_vector<> v; enc_vector<> e; std::vector<int> raw;
    size_type serialize(std::ostream& out, structure_tree_node* p = nullptr, std::string name = "") const
    {
        structure_tree_node* ch = structure_tree::add_child(p, name, util::class_name(*this));
        size_type w = write_member(s, out, ch, "s"); w += write_member(x, out, ch, "x"); w += v.serialize(out, ch, "v"); w += write_member(d, out, ch, "d"); w += write_member(b, out, ch, "b");
        w += write_member(t, out, ch, "t"); w += write_member(f, out, ch, "f"); w += sdsl::serialize(e, out, ch, "e"); w += write_member((uint64_t)raw.size(), out, ch, "n"); for (int i : raw) w += write_member(i, out, ch, "raw");
        structure_tree::add_size(ch, w); return w;
    }
    void load(std::istream& in)
    {
        uint64_t n; read_member(s, in); read_member(x, in); v.load(in); read_member(d, in); read_member(b, in); read_member(t, in); read_member(f, in); sdsl::load(e, in); read_member(n, in); raw.resize(n); for (int& i : raw) read_member(i, in);
    }
    void swap(Composite& o) { if (this != &o) { s.swap(o.s); t.swap(o.t); std::swap(x, o.x); std::swap(d, o.d); std::swap(b, o.b); std::swap(f, o.f); v.swap(o.v); e.swap(o.e); raw.swap(o.raw); } }
};
struct FComp {
    template <class T> static std::unique_ptr<T> make(Case& c)
    {
        std::unique_ptr<T> p(new T); auto str = [&] { std::string r; for (uint64_t n = c.rng.chance(1, 5) ? 0 : c.rng.size(300); n; --n) r += (char)c.rng.next(); return r; };
        p->s = str(); p->t = str(); p->x = c.rng.next(); p->d = c.rng.next() / 3.0; p->b = c.rng.next(); p->f = c.rng.chance(1, 2); p->v = int_vector<>(c.rng.size(100), 5, 9);
        int_vector<> z(c.rng.size(100), 5); for (uint64_t i = 0; i < z.size(); ++i) z[i] = c.rng.next() >> 9; p->e = enc_vector<>(z); for (uint64_t n = c.rng.below(9); n; --n) p->raw.push_back((int)c.rng.next());
        c.mixfp(p->x); return p;
    }
    template <class T> static uint64_t obs(const T& a)
    {
        H h; for (auto* q : {&a.s, &a.t}) { h(q->size()); for (unsigned char ch : *q) h(ch); } uint64_t dd; memcpy(&dd, &a.d, 8); h(a.x); h(dd); h(a.b); h(a.f); h(a.v.size()); for (uint64_t i = 0; i < a.v.size(); ++i) h(a.v[i]);
        h(a.e.size()); for (uint64_t i = 0; i < a.e.size(); ++i) h(a.e[i]); for (int i : a.raw) h(i); return h.h;
    }
};
R("user structure",        FComp, Composite)
R("int_vector<>",          FVec<0>, int_vector<>)
R("int_vector<1>",         FVec<1>, int_vector<1>)
R("int_vector<7>",         FVec<7>, int_vector<7>)
R("int_vector<8>",         FVec<8>, int_vector<8>)
R("int_vector<16>",        FVec<16>, int_vector<16>)
R("int_vector<32>",        FVec<32>, int_vector<32>)
R("int_vector<64>",        FVec<64>, int_vector<64>)
RL("enc_vector<delta>",     FVec<50>, enc_vector<>)
R("enc_vector<gamma,3>",   FVec<40>, enc_vector<coder::elias_gamma, 3>)
R("enc_vector<fib>",       FVec<50>, enc_vector<coder::fibonacci>)
RL("vlc_vector<delta>",     FVec<50>, vlc_vector<>)
R("vlc_vector<gamma,7>",   FVec<40>, vlc_vector<coder::elias_gamma, 7>)
R("vlc_vector<fib>",       FVec<50>, vlc_vector<coder::fibonacci>)
R("vlc_vector<comma>",     FVec<40>, vlc_vector<coder::comma<2>>)
RL("dac_vector",            FVec<60>, dac_vector<>)
R("dac_vector<8,rrr>",     FVec<60>, dac_vector<8, rank_support_v5<>>)
RL("dac_vector_dp",         FVec<60>, dac_vector_dp<>)
RL("inv_perm_support",      FPerm, PermS<inv_perm_support<4>>)
#elif PART == 2
typedef FWt<255, 1> WB;
typedef FWt<5000, 8> WI;
RL("wt_blcd",               WB, wt_blcd<>)
RL("wt_huff<rrr>",          WB, wt_huff<rrr_vector<63>>)
R("wt_hutu<il>",           WB, wt_hutu<bit_vector_il<>>)
R("wt_huff_int",           WI, wt_huff_int<>)
RL("wt_int",                WI, wt_int<>)
R("wt_int<rrr15>",         WI, wt_int<rrr_vector<15>>)
RL("wm_int",                WI, wm_int<>)
#elif PART == 7
typedef FWt<255, 1> WB;
typedef FWt<5000, 8> WI;
RL("wt_gmr",                WI, wt_gmr<>)
RL("wt_gmr_rs",             WI, wt_gmr_rs<>)
RL("wt_ap",                 WI, wt_ap<>)
RL("wt_rlmn",               WB, wt_rlmn<>)
R("wt_rlmn<bv>",           WB, wt_rlmn<bit_vector>)
R("wt_rlmn_int",           WI, wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>)
#elif PART == 3
RL("csa_wt",                FCsa<1>, csa_wt<>)
R("csa_wt textorder",      FCsa<1>, csa_wt<wt_blcd<>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>>)
RL("csa_wt fuzzy",          FCsa<1>, csa_wt<wt_huff<>, 5, 5, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>)
R("csa_wt bwt sba",        FCsa<1>, csa_wt<wt_rlmn<>, 7, 9, sa_bwt_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>)
RL("csa_sada",              FCsa<1>, csa_sada<>)
R("csa_sada fuzzy",        FCsa<1>, csa_sada<enc_vector<coder::elias_delta, 16>, 8, 8, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>)
#elif PART == 8
RL("csa_bitcompressed",     FCsa<1>, csa_bitcompressed<>)
R("csa_wt_int",            FCsa<0>, csa_wt<wt_int<>, 6, 7>)
R("csa_wt_int ap fuzzy",   FCsa<0>, csa_wt<wt_ap<>, 6, 6, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>)
R("csa_sada_int",          FCsa<0>, csa_sada<enc_vector<>, 3, 5, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>)
R("csa_bitcompressed_int", FCsa<0>, csa_bitcompressed<int_alphabet<>>)
R("lcp_bitcompressed",     FLcp, lcp_bitcompressed<>)
RL("lcp_byte",              FLcp, lcp_byte<>)
RL("lcp_dac",               FLcp, lcp_dac<>)
RL("lcp_vlc",               FLcp, lcp_vlc<>)
RL("lcp_wt",                FLcp, lcp_wt<>)
R("byte_alphabet",          FAlpha<8>, byte_alphabet)
R("succinct_byte_alphabet", FAlpha<8>, succinct_byte_alphabet<>)
R("int_alphabet",           FAlpha<0>, int_alphabet<>)
#elif PART == 4
RL("cst_sct3",              FCst<1>, cst_sct3<>)
RL("cst_sct3 tree2",        FCst<1>, cst_sct3<csa_sada<enc_vector<>, 8, 8>, lcp_support_tree2<5>, bp_support_gg<>>)
R("cst_sct3 sada",         FCst<1>, cst_sct3<csa_wt<wt_huff<>, 4, 6>, lcp_support_sada<>>)
#elif PART == 5
RL("cst_sada",              FCst<1>, cst_sada<>)
R("cst_sada tree",         FCst<1>, cst_sada<csa_wt<wt_huff<>, 4, 6>, lcp_support_tree<>>)
R("cst_sada byte",         FCst<1>, cst_sada<csa_bitcompressed<>, lcp_byte<>, bp_support_g<>>)
#elif PART == 9
R("cst_fully",             FCst<1>, cst_fully<csa_wt<wt_huff<>, 4, 4>, 8>)
R("cst_sct3_int",          FCst<0>, cst_sct3<csa_wt<wt_int<>, 6, 7>, lcp_bitcompressed<>>)
#elif PART == 6
RL("bp_support_g",          FBp, BpS<bp_support_g<>>)
RL("bp_support_gg",         FBp, BpS<bp_support_gg<>>)
RL("bp_support_sada",       FBp, BpS<bp_support_sada<>>)
R("bp_support_sada<16,4>", FBp, BpS<bp_support_sada<16, 4, rank_support_v5<>, select_support_mcl<>>>)
RL("rmq_succinct_sct",      FRmq, rmq_succinct_sct<>)
R("rmq_succinct_sct max",  FRmq, rmq_succinct_sct<false, bp_support_gg<>>)
RL("rmq_succinct_sada",     FRmqSada, rmq_succinct_sada<>)
RL("rmq sparse table",      FSparse, SparseT)
RL("nearest_neighbour",     FNnd, nearest_neighbour_dictionary<30>)
RL("nn_dict_dynamic",       FDyn, nn_dict_dynamic)
RL("k2_treap",              FTreap, k2_treap<2, bit_vector>)
R("k2_treap<4,rrr>",       FTreap, k2_treap<4, rrr_vector<63>>)
RL("k2_tree",               FTree, k2_tree<3>)
R("k2_tree<rrr>",          FTree, k2_tree<2, rrr_vector<63>>)
R("louds_tree",            FLouds, louds_tree<>)
R("louds_tree<rrr>",       FLouds, louds_tree<rrr_vector<63>, rrr_vector<63>::select_1_type, rrr_vector<63>::select_0_type>)
#endif
