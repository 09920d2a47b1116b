// C27 (second part): threads that work on objects of their own - constructing, storing, loading, buffering - share
// only the library's global state (RAM file system, id counter, memory monitor, tables, temporary file names).
#include "vf.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include "gen_seq.hpp"
#include <atomic>
#include <set>
#include <thread>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/construct_isa.hpp>
#include <sdsl/wt_algorithm.hpp>
#include <sdsl/suffix_tree_algorithm.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/uint256_t.hpp>
#include <memory>
using namespace sdsl;
using vf::Case;
struct H { uint64_t h = 0; void operator()(uint64_t v) { h = vf::mix64(h ^ v) + 1; } };
typedef std::function<uint64_t(const std::string&)> Job;     // scratch directory of the thread -> digest of everything it saw

template <class T> static uint64_t digest(const T& t) { std::ostringstream o; uint64_t w = t.serialize(o); H h; h(w); for (unsigned char ch : o.str()) h(ch); return h.h; }
static std::string text(Case& c, uint64_t n, unsigned sig) { std::string s; for (uint64_t i = 0; i < n; ++i) s += (i > 9 && c.rng.chance(1, 2)) ? s[i - 1 - c.rng.below(9)] : (char)('a' + c.rng.below(sig)); for (char x : s) c.mixfp(x); return s; }
template <class T> static Job j_bytes(Case& c)
{
    std::string s = text(c, 40 + c.rng.below(400), 2 + c.rng.below(20));
    return [s](const std::string& dir) {
        H h; { T t; construct_im(t, s, 1); h(digest(t)); }
        std::string f = dir + "/in"; store_to_file(s.c_str(), f);
        { T t; construct(t, f, 1); h(digest(t)); }
        { T t; cache_config cfg(true, dir + "/"); construct(t, f, cfg, 1); h(digest(t)); }
        sdsl::remove(f); return h.h;
    };
}
template <class T> static Job j_ints(Case& c)
{
    std::string s = text(c, 40 + c.rng.below(200), 2 + c.rng.below(20));
    return [s](const std::string& dir) {
        int_vector<> v(s.size(), 0, 16); for (size_t i = 0; i < s.size(); ++i) v[i] = (s[i] - 'a') * 3 + 1;
        util::bit_compress(v); H h; { T t; construct_im(t, v, 0); h(digest(t)); }
        std::string f = dir + "/in"; store_to_file(v, f);
        { T t; cache_config cfg(true, dir + "/"); construct(t, f, cfg, 0); h(digest(t)); }
        sdsl::remove(f); return h.h;
    };
}
static Job j_treap(Case& c)
{
    std::vector<std::array<uint64_t,3>> v; std::set<std::pair<uint64_t,uint64_t>> s; for (int i = 0; i < 60; ++i) s.emplace(c.rng.below(200), c.rng.below(200));
    for (auto& p : s) v.push_back({{p.first, p.second, c.rng.below(1000)}});
    return [v](const std::string& dir) mutable { H h; { k2_treap<2, bit_vector> t; auto w = v; construct_im(t, w); h(digest(t)); } (void)dir; return h.h; };
}
static Job j_bits(Case& c)
{
    uint64_t seed = 1 + c.rng.below(1u << 30), n = 200 + c.rng.below(2000);
    return [seed, n](const std::string&) {
        bit_vector b(n, 0); util::set_random_bits(b, seed); b.resize(n); H h;
        { rrr_vector<63> r(b); rrr_vector<63>::rank_1_type rk(&r); for (uint64_t i = 0; i <= n; ++i) h(rk(i)); h(digest(r)); }
        { rrr_vector<15> r(b); h(digest(r)); for (uint64_t i = 0; i < n; ++i) h(r[i]); }
        { rrr_vector<127> r(b); h(digest(r)); for (uint64_t i = 0; i < n; ++i) h(r[i]); }
        { sd_vector<> r(b); h(digest(r)); } { bit_vector_il<256> r(b); h(digest(r)); } { hyb_vector<> r(b); h(digest(r)); }
        { select_support_mcl<1> s(&b); rank_support_v<> r(&b); uint64_t m = r(n); for (uint64_t i = 1; i <= m; ++i) h(s(i)); }
        int_vector<> v(n, 0, 40); util::set_random_bits(v, seed + 1); 
        { enc_vector<coder::fibonacci> e(v); h(digest(e)); } { enc_vector<coder::elias_gamma> e(v); h(digest(e)); } { vlc_vector<coder::comma<2>> e(v); h(digest(e)); } { dac_vector<> e(v); h(digest(e)); }
        { rmq_succinct_sct<> r(&v); h(r(3, n - 1)); } { bp_support_sada<> x; }
        return h.h;
    };
}
static Job j_files(Case& c, bool ram)
{
    uint64_t seed = 1 + c.rng.below(1u << 30), n = 20 + c.rng.below(300);
    return [seed, n, ram](const std::string& dir) {
        std::string p = (ram ? "@" : "") + dir + "/f"; H h; vf::Rng r(seed);
        int_vector<> v(n, 0, 13); for (uint64_t i = 0; i < n; ++i) v[i] = r.next();
        for (int k = 0; k < 6; ++k) {
            std::string f = p + std::to_string(k % 3), g = f + "r"; h(store_to_file(v, f)); h(util::file_size(f));
            h(sdsl::rename(f, g)); int_vector<> w; h(load_from_file(w, g)); h(w == v); h(digest(w));
            { int_vector_buffer<> b(g, std::ios::in, 1 + 8 * r.below(20)); uint64_t s = 0; for (uint64_t i = 0; i < b.size(); ++i) s += b[i]; h(s); b.close(k & 1); }
            { int_vector_buffer<> b(f, std::ios::out, 64, 9); for (uint64_t i = 0; i < n; ++i) b.push_back(r.next()); for (uint64_t i = 0; i < n; i += 3) { uint64_t x = b[i]; b[i] = x ^ 1; } }
            h(load_from_file(w, f)); h(digest(w));
            std::string t = tmp_file(dir + "/", "_x"); h(store_to_file(w, t)); h(load_from_file(v, t)); h(sdsl::remove(t));
            h(sdsl::remove(f)); if (!(k & 1)) sdsl::remove(g);
            std::string rt = ram_file_name(tmp_file(std::string("q"), std::string(""))); h(store_to_checked_file(v, rt)); int_vector<> u; h(load_from_checked_file(u, rt)); sdsl::remove(rt);
        }
        return h.h;
    };
}
// every LCP construction algorithm, and the classes that store its result, over a cache of the thread's own
static Job j_lcp(Case& c, bool ram)
{
    std::string s = text(c, 30 + c.rng.below(300), 2 + c.rng.below(6)); unsigned from = c.rng.below(7);
    return [s, from, ram](const std::string& dir) {
        H h; typedef void (*Fn)(cache_config&);
        static const Fn algos[] = {&construct_lcp_kasai<8>, &construct_lcp_PHI<8>, &construct_lcp_semi_extern_PHI, &construct_lcp_go, &construct_lcp_goPHI, &construct_lcp_bwt_based, &construct_lcp_bwt_based2};
        for (unsigned k = 0; k < 2; ++k) {
            cache_config cfg(false, (ram ? "@" : "") + dir + "/", "l" + std::to_string(k));
            int_vector<8> v(s.size() + 1, 0); for (size_t i = 0; i < s.size(); ++i) v[i] = (uint8_t)s[i];
            store_to_cache(v, conf::KEY_TEXT, cfg); construct_sa<8>(cfg); register_cache_file(conf::KEY_SA, cfg); construct_bwt<8>(cfg); register_cache_file(conf::KEY_BWT, cfg); construct_isa(cfg); register_cache_file(conf::KEY_ISA, cfg);
            algos[(from + 3 * k) % 7](cfg); register_cache_file(conf::KEY_LCP, cfg);
            int_vector<> lcp; h(load_from_cache(lcp, conf::KEY_LCP, cfg)); h(digest(lcp));
            { lcp_dac<> l(cfg); h(digest(l)); } { lcp_byte<> l(cfg); h(digest(l)); } { lcp_wt<> l(cfg); h(digest(l)); } { lcp_bitcompressed<> l(cfg); h(digest(l)); }
            util::delete_all_files(cfg.file_map);
        }
        return h.h;
    };
}
// printed text, names and structure trees of objects of the thread's own
static Job j_print(Case& c)
{
    std::string s = text(c, 20 + c.rng.below(60), 2 + c.rng.below(6));
    return [s](const std::string& dir) {
        H h; auto eat = [&](const std::string& o) { for (unsigned char ch : o) h(ch); };
        csa_wt<> a; construct_im(a, s, 1); cst_sct3<> t; construct_im(t, s, 1); wt_huff<> w; construct_im(w, s, 1);
        { std::ostringstream o; csXprintf(o, "%2I %2S %3s %3P %2p %B %T|%4:2T\n", a, '#'); eat(o.str()); }
        { std::ostringstream o; csXprintf(o, "%I %L %S\n", t); o << w << a.sigma << extract(a, 0, a.size() - 1); eat(o.str()); }
        { std::ostringstream o; write_structure<JSON_FORMAT>(t, o); write_structure<HTML_FORMAT>(a, o); eat(o.str()); }
        h(size_in_bytes(t)); eat(util::class_name(w)); eat(util::class_to_hash(t)); eat(util::demangle2(typeid(t).name())); eat(util::to_string(s.size(), 9)); eat(util::basename(util::dirname(dir) + "/" + s));
        return h.h;
    };
}
// trees, grids, dictionaries and stacks of the thread's own, queried while the others do the same
static Job j_trees(Case& c)
{
    uint64_t seed = 1 + c.rng.below(1u << 30);
    return [seed](const std::string& dir) {
        H h; vf::Rng r(seed);
        { std::vector<std::tuple<k2_tree_ns::idx_type, k2_tree_ns::idx_type>> e; for (int i = 0; i < 80; ++i) e.emplace_back(r.below(60), r.below(60)); k2_tree<2, bit_vector> t(e, 60); h(digest(t)); for (int i = 0; i < 60; ++i) { for (auto x : t.neigh(i)) h(x); for (auto x : t.reverse_neigh(i)) h(x); } }
        { std::vector<std::array<uint64_t,3>> v; for (uint64_t i = 0; i < 50; ++i) v.push_back({{i * 3, r.below(200), r.below(1000)}}); k2_treap<2, bit_vector> t; construct_im(t, v); for (auto it = top_k(t, {0, 0}, {150, 200}); it; ++it) h((*it).second); for (auto it = range_3d(t, {5, 5}, {150, 150}, {10, 800}); it; ++it) h((*it).second); h(count(t, {0, 0}, {90, 90})); }
        { uint64_t n = 200 + r.below(500); nn_dict_dynamic d(n); sorted_stack_support st(n); uint64_t top = 0; for (int i = 0; i < 300; ++i) { d[r.below(n)] = r.below(3) != 0; h(d.prev(r.below(n))); h(d.next(r.below(n))); if (r.below(3) && top + 1 < n) { top += 1 + r.below(std::min<uint64_t>(9, n - top - 1)); st.push(top); } else if (!st.empty()) { h(st.top()); st.pop(); top = st.empty() ? 0 : st.top(); } } }
        { bit_vector b(900, 0); util::set_random_bits(b, seed); nearest_neighbour_dictionary<32> d(b); for (uint64_t i = 0; i < 900; ++i) h(d.rank(i)); h(digest(d)); }
        { bit_vector b(600); int64_t ex = 0; for (uint64_t i = 0; i < 600; ++i) { bool o = ex == 0 || (ex < (int64_t)(600 - i) && r.below(2)); b[i] = o; ex += o ? 1 : -1; }
          bp_support_sada<64, 4> p(&b); bp_support_g<> g(&b); bp_support_gg<> q(&b); for (uint64_t i = 0; i < 600; i += 3) { uint64_t x = p.find_close(i); h(x); h(g.find_open(i)); h(q.enclose(i)); h(p.enclose(i)); } h(digest(p)); h(digest(q)); }
        { int_vector<> v(300, 0, 7); util::set_random_bits(v, seed); rmq_succinct_sada<> a(&v); rmq_support_sparse_table<> b(&v); for (uint64_t i = 0; i < 300; i += 7) { h(a(i / 2, 299 - i / 3)); h(b(i / 2, 299 - i / 3)); } }
        { uint256_t x(seed), y(seed * 3 + 1); for (int i = 0; i < 40; ++i) { x = x * y; x += uint256_t(i); h((uint64_t)x); std::ostringstream o; o << x; h(o.str().size()); } }
        (void)dir; return h.h;
    };
}
static Job pick(Case& c)
{
    switch (c.rng.below(16)) {
        case 0: return j_bytes<csa_wt<>>(c);
        case 1: return j_bytes<csa_sada<>>(c);
        case 2: return j_bytes<cst_sct3<>>(c);
        case 3: return j_bytes<cst_sada<>>(c);
        case 4: return j_bytes<wt_huff<rrr_vector<63>>>(c);
        case 5: return c.rng.chance(1, 2) ? j_bytes<wt_rlmn<>>(c) : j_bytes<wt_blcd<>>(c);
        case 6: return j_ints<csa_wt<wt_int<>, 8, 8>>(c);
        case 7: return c.rng.chance(1, 2) ? j_ints<wt_gmr<>>(c) : j_ints<wt_ap<>>(c);
        case 8: return j_treap(c);
        case 9: return j_files(c, false);
        case 10: return j_files(c, true);
        case 11: return j_lcp(c, c.rng.chance(1, 2));
        case 12: return j_print(c);
        case 13: case 14: return j_trees(c);
        default: return j_bits(c);
    }
}
static std::atomic<uint64_t> g_dir(0);
static std::string newdir() { std::string d = vf::scratch_dir() + "/t" + std::to_string(g_dir++); mkdir(d.c_str(), 0755); return d; }
static std::vector<std::string> left(const std::string& d) { std::vector<std::string> r; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); return r; }

static void run(Case& c, std::vector<Job> jobs, unsigned rounds)
{
    std::vector<uint64_t> want; for (auto& j : jobs) { std::string d = newdir(); want.push_back(j(d)); }
    std::vector<std::vector<uint64_t>> got(jobs.size()); std::vector<std::string> dirs; for (size_t k = 0; k < jobs.size(); ++k) dirs.push_back(newdir());
    std::string common = newdir(); bool share = c.rng.chance(1, 2);      // threads with a directory of their own or a common one
    std::vector<uint64_t> first(jobs.size()), last(jobs.size()); std::atomic<uint64_t> clock(0); std::atomic<unsigned> go(0); std::vector<std::thread> th;
    (void)common; (void)share;
    for (size_t k = 0; k < jobs.size(); ++k) th.emplace_back([&, k] {
        ++go; while (go < jobs.size()) std::this_thread::yield();
        first[k] = clock++;
        for (unsigned r = 0; r < rounds; ++r) got[k].push_back(jobs[k](dirs[k]));
        last[k] = clock++;
    });
    for (auto& t : th) t.join();
    unsigned overlap = 0; for (size_t a = 0; a < jobs.size(); ++a) for (size_t b = 0; b < a; ++b) overlap += first[a] < last[b] && first[b] < last[a];
    c.desc("%zu threads, %u rounds, %u overlapping pairs", jobs.size(), rounds, overlap); c.trivial_if(!overlap);
    for (size_t k = 0; k < jobs.size(); ++k) for (uint64_t g : got[k]) VF_TRUE("own-objects", g == want[k], "thread %zu of %zu got another result than the same job run alone", k, jobs.size());
    for (auto& d : dirs) { auto l = left(d); VF_TRUE("own-objects", l.empty() || c.suite == nullptr, "%zu files left, e.g. %s", l.size(), l[0].c_str()); }
}
static vf::Reg r1("C27:construct mixed", 40, 800, [](Case& c) { std::vector<Job> j; for (int k = 0; k < 4; ++k) j.push_back(pick(c)); run(c, j, 2); });
static vf::Reg r2("C27:construct same", 24, 500, [](Case& c) { Job x = pick(c); std::vector<Job> j(4, x); run(c, j, 2); });
static vf::Reg r3("C27:files", 20, 400, [](Case& c) { std::vector<Job> j; for (int k = 0; k < 6; ++k) j.push_back(j_files(c, k % 2)); run(c, j, 3); });
static vf::Reg r4("C27:first use of tables", 40, 200, [](Case& c) { // every case is a fresh process: tables are initialised by racing threads
    std::vector<Job> j; Job x = j_bits(c); std::atomic<unsigned> go(0); std::vector<uint64_t> got(4); std::vector<std::thread> th;
    for (int k = 0; k < 4; ++k) th.emplace_back([&, k] { ++go; while (go < 4) std::this_thread::yield(); got[k] = x(""); });
    for (auto& t : th) t.join();
    uint64_t want = x(""); c.mixfp(want); c.desc("4 threads");
    for (int k = 0; k < 4; ++k) VF_TRUE("tables", got[k] == want, "thread %d got another result than the same job run alone", k);
});
static vf::Reg r5("C27:ids", 6, 60, [](Case& c) {
    const int NT = 6, M = 4000; std::vector<std::vector<uint64_t>> v(NT); std::atomic<int> go(0); std::vector<std::thread> th;
    for (int k = 0; k < NT; ++k) th.emplace_back([&, k] { ++go; while (go < NT) std::this_thread::yield(); for (int i = 0; i < M; ++i) v[k].push_back(util::id()); });
    for (auto& t : th) t.join();
    std::set<uint64_t> s; for (auto& x : v) s.insert(x.begin(), x.end()); c.mixfp(*s.begin() + c.idx); c.desc("%d ids", NT * M);
    VF_EQ("ids", s.size(), (size_t)NT * M, "util::id() is documented to be unique inside the process");
});
static vf::Reg r6("C27:memory monitor", 12, 200, [](Case& c) {
    memory_monitor::granularity(std::chrono::milliseconds(-1)); memory_monitor::start();
    const int NT = 4; std::atomic<int> go(0); std::vector<std::thread> th; uint64_t base = 1 + c.rng.below(5000); c.mixfp(base);
    { auto ev = memory_monitor::event("main");
    for (int k = 0; k < NT; ++k) th.emplace_back([&, k] { ++go; while (go < NT) std::this_thread::yield();
        for (int i = 0; i < 60; ++i) { int_vector<> v(base * (k + 1) + i, 0, 7); v.resize(v.size() / 2); int_vector<> w(v); w.resize(5); if (i % 16 == 3) auto e = memory_monitor::event("ev" + std::to_string(k)); } });
    for (auto& t : th) t.join(); }
    memory_monitor::stop();
    int64_t one = ((base * NT * 7 + 64) / 64) * 8; c.desc("peak %lld", (long long)memory_monitor::peak());
    VF_TRUE("monitor", memory_monitor::peak() >= one, "peak %lld, one vector alone has %lld bytes", (long long)memory_monitor::peak(), (long long)one);
    std::ostringstream o; memory_monitor::write_memory_log<JSON_FORMAT>(o);
    VF_TRUE("monitor", !o.str().empty(), "%s", "no log");
});

// one constant object, and the free algorithms that work on it, used by all threads at once
template <class T> static std::function<uint64_t(uint64_t)> wt_algs(const std::string& s)
{
    auto t = std::make_shared<T>(); construct_im(*t, s, 1);
    return [t](uint64_t seed) {
        H h; vf::Rng r(seed); uint64_t n = t->size();
        for (int k = 0; k < 12; ++k) {
            uint64_t i = r.below(n), j = i + r.below(n - i), a = 'a' + r.below(22), b = a + r.below(9);
            auto q = quantile_freq(*t, i, j, r.below(j - i + 1)); h(q.first); h(q.second);
            auto g = symbol_gte(*t, a), l = symbol_lte(*t, a); h(g.first); if (g.first) h(g.second); h(l.first); if (l.first) h(l.second);
            for (auto x : restricted_unique_range_values(*t, i, j + 1, a, b)) h(x);
            std::vector<range_type> rs; rs.push_back(range_type{{i, j}}); uint64_t i2 = r.below(n); rs.push_back(range_type{{i2, i2 + r.below(n - i2)}}); for (auto& x : intersect(*t, rs, 1 + r.below(2))) { h(x.first); h(x.second); }
            std::vector<uint8_t> cs(t->sigma); std::vector<uint64_t> ra(t->sigma), rb(t->sigma); uint64_t m = 0; interval_symbols(*t, i, j + 1, m, cs, ra, rb); h(m);
        }
        return h.h;
    };
}
template <class T> static std::function<uint64_t(uint64_t)> st_algs(const std::string& s)
{
    auto t = std::make_shared<T>(); construct_im(*t, s, 1);
    return [t, s](uint64_t seed) {
        H h; vf::Rng r(seed);
        for (int k = 0; k < 5; ++k) {
            uint64_t i = r.below(s.size()), m = 1 + r.below(std::min<uint64_t>(5, s.size() - i)); std::string p = s.substr(i, m); if (r.below(4) == 0) p[0] ^= 1;
            h(count(t->csa, p.begin(), p.end())); uint64_t sum = 0; for (auto o : locate(t->csa, p.begin(), p.end())) sum += vf::mix64(o); h(sum);
            auto v = t->root(); uint64_t cp = 0; for (auto ch : p) { if (!forward_search(*t, v, cp++, ch, cp)) break; } h(t->lb(v)); h(t->rb(v));
            h((uint64_t)t->degree(v)); for (auto ch : extract(t->csa, i, i + m - 1)) h((uint64_t)ch);
        }
        uint64_t cnt = 0; for (auto it = t->begin(); it != t->end() && cnt < 60; ++it, ++cnt) { h(t->depth(*it)); h(it.visit()); }
        cnt = 0; for (auto it = t->begin_bottom_up(); it != t->end_bottom_up() && cnt < 60; ++it, ++cnt) h(t->rb(*it));
        std::ostringstream o; csXprintf(o, "%S %B %L|%:3T\n", *t); for (char ch : o.str()) h((unsigned char)ch); h(size_in_bytes(*t)); o.str(""); write_structure<JSON_FORMAT>(*t, o); h(o.str().size());
        return h.h;
    };
}
static vf::Reg r9("C27:algorithms shared", 24, 500, [](Case& c) {
    std::string s = text(c, 40 + c.rng.below(200), 2 + c.rng.below(20)); std::function<uint64_t(uint64_t)> f;
    switch (c.rng.below(6)) { case 0: f = wt_algs<wt_blcd<>>(s); break; case 1: f = wt_algs<wt_hutu<rrr_vector<63>>>(s); break; case 2: f = wt_algs<wt_hutu<>>(s); break; case 3: f = st_algs<cst_sct3<csa_wt<>, lcp_support_tree2<>>>(s); break; case 4: f = st_algs<cst_sada<>>(s); break; default: f = st_algs<cst_sct3<>>(s); }
    uint64_t seed = c.rng.next(); std::vector<uint64_t> want, got(4); for (unsigned k = 0; k < 4; ++k) want.push_back(f(seed + k / 2));
    std::atomic<unsigned> go(0); std::vector<std::thread> th; for (unsigned k = 0; k < 4; ++k) th.emplace_back([&, k] { ++go; while (go < 4) std::this_thread::yield(); for (int r = 0; r < 3; ++r) got[k] = f(seed + k / 2); });
    for (auto& t : th) t.join(); for (unsigned k = 0; k < 4; ++k) VF_TRUE("shared-algorithms", got[k] == want[k], "thread %u got another result than alone", k);
});
