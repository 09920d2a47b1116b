// C30: failures are reported - file errors, memory exhaustion and unusable input end in the documented return value or
// exception, and leave objects that can be used and destroyed.
#include "vf.hpp"
#include "gen_seq.hpp"
#include <csignal>
#include <dirent.h>
#include <fstream>
#include <memory>
#include <new>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
using namespace sdsl;
using vf::Case;

// ---- fault injection ----
static int64_t g_left = -1;          // allocations until one fails; -1: never
static uint64_t g_allocs = 0, g_failed = 0; static bool g_on = false, g_from = false;
static bool fails_now()
{
    if (!g_on) return false;
    ++g_allocs;
    if (g_left < 0) return false;
    if (g_left == 0) { ++g_failed; if (!g_from) g_left = -1; return true; }
    --g_left; return false;
}
extern "C" { void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
void* __wrap_realloc(void* p, size_t n) { if (fails_now()) return nullptr; return __real_realloc(p, n); }
void* __wrap_calloc(size_t a, size_t b) { if (fails_now()) return nullptr; return __real_calloc(a, b); } }
void* operator new(size_t n) { if (fails_now()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
struct Inject { Inject(int64_t k, bool from = false) { g_left = k; g_allocs = g_failed = 0; g_from = from; g_on = true; } ~Inject() { g_on = false; g_left = -1; } };
struct FileLimit { rlimit o; FileLimit(uint64_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &o); rlimit l = o; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } ~FileLimit() { setrlimit(RLIMIT_FSIZE, &o); } };
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() { b = std::cerr.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(b); } };

static std::string text(Case& c, uint64_t n) { std::string s; unsigned sig = 1 + c.rng.below(20); for (uint64_t i = 0; i < n; ++i) s += (char)('a' + c.rng.below(sig)); for (char x : s) c.mixfp(x); return s; }
template <class T> static std::string bytes(const T& t) { std::ostringstream o; sdsl::serialize(t, o); return o.str(); }
static std::string slurp(const std::string& f) { std::ifstream in(f, std::ios::binary); std::ostringstream o; o << in.rdbuf(); return o.str(); }
static bool there(const std::string& f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static unsigned fds() { unsigned n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }

// ---- a) storing ----
struct Str { std::string s; };
static std::string expected(const std::string& s) { return s; }
template <class T> static std::string expected(const T& t) { return bytes(t); }
template <class T> static bool to_cache(const T& t, cache_config& cfg) { return store_to_cache(t, "key", cfg); }
static bool to_cache(const std::string&, cache_config&) { return false; }    // there is no such overload
template <class T> static bool to_checked(const T& t, const std::string& f) { return store_to_checked_file(t, f); }
static bool to_checked(const std::string& t, const std::string& f) { return store_to_checked_file(t.c_str(), f); }
template <class T> static void store_case(Case& c, const T& t, bool cstr = false, const char* cs = nullptr)
{
    std::string want = cstr ? std::string(cs) : expected(t), d = vf::scratch_dir() + "/st"; mkdir(d.c_str(), 0755); Quiet q;
    util::verbose = c.rng.chance(1, 4);
    for (int k = 0; k < 6; ++k) {
        unsigned kind = c.rng.below(6); std::string f = d + "/f"; std::unique_ptr<FileLimit> lim;
        switch (kind) { case 0: f = d + "/no/such/f"; break; case 1: f = d; break; case 2: f = "/dev/full"; break;
            case 3: case 4: lim.reset(new FileLimit(c.rng.chance(1, 3) ? want.size() : c.rng.below(want.size() + 20))); break; default: f = c.rng.chance(1, 2) ? "@fault" : d + "/f"; }
        bool checked = c.rng.chance(1, 3) && kind != 2, cache = c.rng.chance(1, 6) && kind != 2 && kind != 1; bool r;
        cache_config cfg(false, kind == 0 ? d + "/no/dir" : d, "id");
        if (cache && !cstr && !std::is_same<T, std::string>::value) { r = to_cache(t, cfg); f = cache_file_name("key", cfg); VF_EQ("store", cfg.file_map.count("key") == 1, r, "registered iff stored, kind %u", kind); checked = false; }
        else if (checked) r = cstr ? store_to_checked_file(cs, f) : to_checked(t, f);
        else r = cstr ? store_to_file(cs, f) : store_to_file(t, f);
        lim.reset();
        bool ok; if (f[0] == '@') { ok = true; std::string got(ram_fs::content(f).begin(), ram_fs::content(f).end()); VF_TRUE("store", got == want, "content of the file"); }
        else ok = kind != 2 && there(f) && kind != 1 && slurp(f) == want;
        if (checked && f[0] != '@') ok = ok && there(f + "_check") && slurp(f + "_check").size() == 8;
        // a prefix may be all there was to write: an empty object into /dev/full
        if (kind == 2 && want.empty()) ok = true;
        VF_EQ("store", r, ok, "%s of %zu bytes, kind %u, verbose %d", checked ? "store_to_checked_file" : cache ? "store_to_cache" : "store_to_file", want.size(), kind, (int)util::verbose);
        if (kind != 1 && kind != 2) { sdsl::remove(f); sdsl::remove(f + "_check"); }
    }
    c.desc("%zu bytes", want.size()); util::verbose = false;
}
#define ST(name, ...) static vf::Reg VF_CAT(rs, __LINE__)("store " name, 30, 600, [](Case& c) __VA_ARGS__);
ST("int_vector", { int_vector<> v(c.rng.size(6000), 0, 1 + c.rng.below(64)); util::set_to_id(v); c.mixfp(v.bit_size()); store_case(c, v); })
ST("bit_vector", { bit_vector v(c.rng.size(60000), c.rng.below(2)); c.mixfp(v.size() * 2 + (v.size() ? v[0] : 0)); store_case(c, v); })
ST("int_vector<8>", { int_vector<8> v(c.rng.size(9000), c.rng.below(255)); c.mixfp(v.size()); store_case(c, v); })
ST("string", { store_case(c, text(c, c.rng.size(9000))); })
ST("chars", { std::string s = text(c, c.rng.size(9000)); store_case(c, s, true, s.c_str()); })
ST("rrr_vector", { bit_vector b(c.rng.size(30000), 0); for (uint64_t i = 0; i < b.size(); ++i) b[i] = c.rng.chance(1, 9); c.mixfp(b.size()); store_case(c, rrr_vector<>(b)); })
ST("wt_huff", { wt_huff<> w; construct_im(w, text(c, c.rng.size(3000)), 1); store_case(c, w); })
ST("csa_wt", { csa_wt<> w; construct_im(w, text(c, 1 + c.rng.size(2000)), 1); store_case(c, w); })
ST("dac_vector", { int_vector<> v(c.rng.size(2000), 300, 20); c.mixfp(v.size()); store_case(c, dac_vector<>(v)); })

// ---- b) loading what is not there ----
static vf::Reg l1("load", 60, 1000, [](Case& c) {
    std::string d = vf::scratch_dir() + "/ld"; mkdir(d.c_str(), 0755); Quiet q; std::string pre = c.rng.chance(1, 2) ? d + "/" : "@ld/"; util::verbose = c.rng.chance(1, 4);
    int_vector<> v(c.rng.size(500), 5, 13); c.mixfp(v.size() * 2 + pre.size()); int_vector<> w(7, 3, 9), w0 = w; bit_vector b; rrr_vector<63> r; wt_huff<> wt; csa_wt<> cs;
    std::string f = pre + "f"; cache_config cfg(false, pre.substr(0, pre.size() - 1), "nope");
    VF_TRUE("load", !load_from_file(w, f) && w == w0, "missing file"); VF_TRUE("load", !load_from_file(r, f), "missing file"); VF_TRUE("load", !load_from_file(cs, f), "missing file");
    VF_TRUE("load", !load_from_checked_file(w, f) && w == w0, "missing checked file"); VF_TRUE("load", !load_from_cache(w, "k", cfg) && w == w0, "missing cache file"); VF_TRUE("load", !load_from_cache(w, "k", cfg, true) && w == w0, "missing cache file");
    VF_TRUE("load", !cache_file_exists("k", cfg) && !cache_file_exists<int_vector<>>("k", cfg), "cache_file_exists"); register_cache_file("k", cfg); VF_TRUE("load", cfg.file_map.empty(), "missing file registered");
    for (int pat = 0; pat < 256; pat += 51) { auto dirty = [&] { volatile uint8_t a[2048]; for (auto& x : a) x = pat; return a[pat]; }; volatile uint8_t y = dirty(); (void)y; VF_EQ("file_size", (uint64_t)util::file_size(f + "none"), (uint64_t)0, "%s", "missing file"); }
    for (int nb : {0, 1, 2, 4, 8, (int)'d'}) { int_vector<> x; VF_TRUE("load", !load_vector_from_file(x, f, nb), "load_vector_from_file(num_bytes=%d) of a missing file", nb); }
    VF_TRUE("load", store_to_checked_file(v, f), "store"); VF_TRUE("load", load_from_checked_file(w, f) && w == v, "checked file");
    VF_TRUE("load", !load_from_checked_file(b, f) && b.size() == 0, "int_vector accepted as bit_vector"); VF_TRUE("load", !load_from_checked_file(r, f), "int_vector accepted as rrr_vector"); VF_TRUE("load", !load_from_checked_file(wt, f), "int_vector accepted as wt");
    w = w0; sdsl::remove(f); VF_TRUE("load", !load_from_checked_file(w, f) && w == w0, "checked file without data"); sdsl::remove(f + "_check");
    { std::string s = text(c, c.rng.size(200)); store_to_file(s, f); for (int nb : {2, 4, 8}) { int_vector<> x; bool thrown = false, ret = false; try { ret = load_vector_from_file(x, f, nb); } catch (std::logic_error&) { thrown = true; } VF_EQ("load", thrown, s.size() % nb != 0, "%zu bytes as %d-byte integers", s.size(), nb); if (!thrown) VF_TRUE("load", ret && x.size() == s.size() / nb, "%s", "size"); } sdsl::remove(f); }
    for (int nb : {1, 2, 4, 8, (int)'d'}) { int_vector<> x(3, 1, 7); int_vector<8> y(3, 1); VF_TRUE("load", !load_vector_from_file(x, d, nb) && x.empty(), "load_vector_from_file(num_bytes=%d) of a directory", nb); if (nb == 1) VF_TRUE("load", !load_vector_from_file(y, d, nb) && y.empty(), "bytes of %s", "a directory"); }
    for (const std::string& nf : {f + "none", d}) for (int nb : {1, 2, 4, (int)'d'}) {
        bool thrown = false, ints = nb != 1; std::string cd = vf::scratch_dir() + "/ldc"; mkdir(cd.c_str(), 0755); cache_config cc(true, cd, "q");
        try { if (ints) { if (c.rng.chance(1, 2)) { csa_wt<wt_int<>> x; construct(x, nf, cc, nb); } else { cst_sct3<csa_wt<wt_int<>>> x; construct(x, nf, cc, nb); } } else if (c.rng.chance(1, 2)) { csa_sada<> x; construct(x, nf, cc, nb); } else { cst_sada<> x; construct(x, nf, cc, nb); } } catch (std::exception&) { thrown = true; }
        VF_TRUE("load", thrown, "construct(num_bytes=%d) from an unreadable file gave an index", nb); VF_TRUE("load", !cache_file_exists(conf::KEY_TEXT, cc) && !cache_file_exists(conf::KEY_TEXT_INT, cc), "%s", "a text was cached"); }
    { int_vector_buffer<> ib(f + "none"); VF_TRUE("load", !ib.is_open(), "buffer on a missing file is open"); }
    { isfstream in(d); (void)in; } util::verbose = false; c.desc("%zu elements", (size_t)v.size());
});

// the same for plain arrays
template <class I> static void plain_case(Case& c)
{
    int_vector<> v(c.rng.size(6000), 0, 1 + c.rng.below(8 * sizeof(I))); for (uint64_t i = 0; i < v.size(); ++i) v[i] = c.rng.next(); c.mixfp(v.bit_size()); std::string want; for (auto x : v) { I y = x; want.append((char*)&y, sizeof y); }
    std::string d = vf::scratch_dir() + "/pl"; mkdir(d.c_str(), 0755);
    for (unsigned kind = 0; kind < 6; ++kind) {
        std::string f = kind == 0 ? d + "/no/f" : kind == 1 ? d : kind == 2 ? "/dev/full" : kind == 5 ? "@plain" : d + "/f"; std::unique_ptr<FileLimit> lim; if (kind == 3) lim.reset(new FileLimit(c.rng.chance(1, 3) ? want.size() : c.rng.below(want.size() + 20)));
        bool r = store_to_plain_array<I>(v, f); lim.reset(); bool ok = kind == 5 ? std::string(ram_fs::content(f).begin(), ram_fs::content(f).end()) == want : kind == 2 ? want.empty() : kind > 2 && slurp(f) == want;
        VF_EQ("store", r, ok, "store_to_plain_array of %zu bytes, kind %u", want.size(), kind); if (kind > 2) sdsl::remove(f);
    }
    c.desc("%zu bytes", want.size());
}
ST("plain array", { if (c.rng.chance(1, 2)) plain_case<uint8_t>(c); else if (c.rng.chance(1, 2)) plain_case<uint32_t>(c); else plain_case<uint64_t>(c); })

// ---- c) memory exhaustion in int_vector ----
template <uint8_t W> static void iv_alloc(Case& c)
{
    unsigned w = W ? W : 1 + c.rng.below(64); int_vector<W> v(c.rng.size(2000), 0, w); for (auto x : v) { (void)x; } for (uint64_t i = 0; i < v.size(); ++i) v[i] = c.rng.next(); c.mixfp(v.size() * 64 + w);
    unsigned thrown = 0, tried = 0; int_vector<W> src(c.rng.size(2000), c.rng.next(), w);
    for (int s = 0; s < 40; ++s) {
        std::vector<uint64_t> before; for (uint64_t i = 0; i < v.size(); ++i) before.push_back(v[i]); uint64_t bw = v.width(); int_vector<W> other; bool t = false, unchanged = true; unsigned op = c.rng.below(7); uint64_t n = c.rng.size(4000);
        { Inject in(0); ++tried;
          try { switch (op) {
            case 0: v.resize(n); break;
            case 1: v.bit_resize(n * v.width()); break;
            case 2: { int_vector<W> x(n, 1, w); } break;
            case 3: { int_vector<W> x(v); } break;
            case 4: other = v; break;
            case 5: { int_vector<W> x(std::move(src)); src = std::move(x); } break;
            default: unchanged = false; v = src; } } catch (std::bad_alloc&) { t = true; ++thrown; } }
        VF_TRUE("alloc", t || g_failed == 0, "operation %u swallowed a failed allocation", op);
        if (t) { VF_TRUE("alloc", v.capacity() >= v.bit_size(), "%s", "capacity");
            if (unchanged) { VF_EQ("alloc", v.size(), before.size(), "size after failed operation %u", op); VF_EQ("alloc", (uint64_t)v.width(), bw, "width after failed operation %u", op); for (uint64_t i = 0; i < v.size(); ++i) VF_EQ("alloc", (uint64_t)v[i], before[i], "element %llu after failed operation %u", (unsigned long long)i, op); }
            else { volatile uint64_t s = 0; for (uint64_t i = 0; i < v.size(); ++i) s += v[i]; for (uint64_t i = 0; i < v.size(); ++i) v[i] = i; } }
        if (c.rng.chance(1, 2)) { v.resize(c.rng.size(2000)); for (uint64_t i = 0; i < v.size(); ++i) v[i] = c.rng.next(); }
    }
    c.desc("%u operations, %u thrown", tried, thrown); c.trivial_if(!thrown);
}
static vf::Reg m1("alloc int_vector<>", 80, 2000, [](Case& c) { iv_alloc<0>(c); });
static vf::Reg m2("alloc bit_vector", 80, 2000, [](Case& c) { iv_alloc<1>(c); });
static vf::Reg m3("alloc int_vector<8>", 60, 1500, [](Case& c) { iv_alloc<8>(c); });

// ---- d) memory exhaustion in structures: std::bad_alloc arrives, nothing else goes wrong, the library stays usable ----
template <class T> static void st_alloc(Case& c, std::function<void(T&)> make, bool own = true)
{
    (void)own; T ref; uint64_t total; { Inject in(-1); make(ref); total = g_allocs; } std::string want = bytes(ref); unsigned thrown = 0, N = c.thorough ? 60 : 25;
    c.mixfp(vf::mix64(total) ^ want.size()); 
    for (unsigned k = 0; k < N; ++k) {
        int64_t at = total <= N ? k : c.rng.below(total); bool t = false; Quiet q;
        { T x; { Inject in(at, c.rng.chance(1, 3)); try { make(x); } catch (std::bad_alloc&) { t = true; } catch (std::exception& e) { g_on = false; vf::fail("alloc", "allocation %lld of %llu failed: exception %s instead of bad_alloc", (long long)at, (unsigned long long)total, e.what()); } }
          bool f = g_failed > 0; VF_TRUE("alloc", t == f || !t, "%s", "bad_alloc without a failed allocation"); thrown += t;
          if (t) { make(x); VF_TRUE("alloc", bytes(x) == want, "object constructed into the target of a failed construction differs (allocation %lld)", (long long)at); } }
        if (t) { T y; make(y); VF_TRUE("alloc", bytes(y) == want, "object constructed after a failed construction differs (allocation %lld)", (long long)at); }
    }
    c.desc("%llu allocations, %u failures", (unsigned long long)total, thrown); c.trivial_if(!thrown);
}
static bit_vector rb(Case& c) { bit_vector b(c.rng.size(5000), 0); unsigned p = 1 + c.rng.below(9); for (uint64_t i = 0; i < b.size(); ++i) b[i] = c.rng.chance(p, 10); return b; }
static int_vector<64> ri(Case& c) { int_vector<64> v(c.rng.size(800)); for (uint64_t i = 0; i < v.size(); ++i) v[i] = c.rng.next() >> (14 + c.rng.below(50)); return v; }
template <class T> static void bits_case(Case& c) { bit_vector b = rb(c); st_alloc<T>(c, [b](T& t) { T x(b); t = std::move(x); }); }
template <class T> static void ints_case(Case& c) { int_vector<64> b = ri(c); st_alloc<T>(c, [b](T& t) { T x(b); t = std::move(x); }); }
template <class T> static void support_case(Case& c) { static bit_vector b; b = rb(c); st_alloc<T>(c, [](T& t) { T x(&b); t = std::move(x); t.set_vector(&b); }); }
#define AL(name, ...) static vf::Reg VF_CAT(ra, __LINE__)("alloc " name, 12, 300, [](Case& c) { __VA_ARGS__; });
AL("rrr_vector<63>", bits_case<rrr_vector<63>>(c))
AL("sd_vector", bits_case<sd_vector<>>(c))
AL("bit_vector_il", bits_case<bit_vector_il<128>>(c)) 
AL("hyb_vector", bits_case<hyb_vector<>>(c))
AL("enc_vector", ints_case<enc_vector<>>(c))
AL("vlc_vector", ints_case<vlc_vector<>>(c))
AL("dac_vector", ints_case<dac_vector<>>(c))
AL("dac_vector_dp", ints_case<dac_vector_dp<>>(c))
AL("rank_support_v", support_case<rank_support_v<>>(c))
AL("rank_support_v5", support_case<rank_support_v5<>>(c))
AL("select_support_mcl", support_case<select_support_mcl<>>(c))
AL("select_support_mcl<0>", support_case<select_support_mcl<0>>(c))

AL("bp_support_sada", static bit_vector b; b = bit_vector(2 * (1 + c.rng.below(900)), 0); for (uint64_t i = 0; i < b.size() / 2; ++i) b[i] = 1; st_alloc<bp_support_sada<>>(c, [](bp_support_sada<>& t) { bp_support_sada<> x(&b); t = std::move(x); t.set_vector(&b); }))
AL("bp_support_gg", static bit_vector b; b = bit_vector(2 * (1 + c.rng.below(900)), 0); for (uint64_t i = 0; i < b.size(); i += 2) b[i] = 1; st_alloc<bp_support_gg<>>(c, [](bp_support_gg<>& t) { bp_support_gg<> x(&b); t = std::move(x); t.set_vector(&b); }))
AL("rmq_succinct_sct", int_vector<64> v = ri(c); v.resize(v.size() + 1); st_alloc<rmq_succinct_sct<>>(c, [v](rmq_succinct_sct<>& t) { rmq_succinct_sct<> x(&v); t = std::move(x); }))
AL("k2_tree", std::vector<std::tuple<uint64_t, uint64_t>> e; for (int i = 0; i < 60; ++i) e.emplace_back(c.rng.below(90), c.rng.below(90)); typedef k2_tree<2> K; std::vector<std::tuple<K::idx_type, K::idx_type>> ee; for (auto& x : e) ee.emplace_back(std::get<0>(x), std::get<1>(x)); st_alloc<K>(c, [ee](K& t) { auto z = ee; K x(z, 90); t = std::move(x); }))
// ---- e) input that is refused ----
static vf::Reg i1("refused input", 60, 600, [](Case& c) {
    Quiet q; std::string s = text(c, 3 + c.rng.below(60)), z = s; z[c.rng.below(z.size())] = 0; bool thrown = false; std::string d = vf::scratch_dir() + "/in"; mkdir(d.c_str(), 0755);
#define THROWS(E, what, ...) thrown = false; try { __VA_ARGS__; } catch (E&) { thrown = true; } VF_TRUE("refused", thrown, "%s", what);
#define ACCEPTS(what, ...) thrown = false; try { __VA_ARGS__; } catch (std::exception&) { thrown = true; } VF_TRUE("refused", !thrown, "%s refused", what);
    THROWS(std::logic_error, "csa_wt of a text with a 0 byte", csa_wt<> x; construct_im(x, z, 1)) ACCEPTS("csa_wt", csa_wt<> x; construct_im(x, s, 1))
    THROWS(std::logic_error, "cst_sct3 of a text with a 0 byte", cst_sct3<> x; construct_im(x, z, 1)) ACCEPTS("cst_sct3", cst_sct3<> x; construct_im(x, s, 1))
    { int_vector<> v(s.size(), 3, 8); v[c.rng.below(v.size())] = 0; THROWS(std::logic_error, "csa_wt_int of a sequence with a 0", csa_wt<wt_int<>> x; construct_im(x, v, 0)) }
    { int_vector_buffer<8> b("@wb", std::ios::out); for (char ch : s) b.push_back((uint8_t)ch); b.close(); uint64_t more = s.size() + 1 + c.rng.below(9);
      int_vector_buffer<8> r("@wb"); THROWS(std::logic_error, "wt_huff of more symbols than in the file", wt_huff<> w(r, more)) THROWS(std::logic_error, "wt_blcd of more symbols than in the file", wt_blcd<> w(r, more)) r.close(true); }
    { int_vector_buffer<> b("@wi", std::ios::out, 1 << 12, 20); for (char ch : s) b.push_back((uint8_t)ch * 7); b.close(); uint64_t more = s.size() + 1 + c.rng.below(9);
      int_vector_buffer<> r("@wi"); THROWS(std::logic_error, "wt_int of more symbols than in the file", wt_int<> w(r, more)) THROWS(std::logic_error, "wm_int of more symbols than in the file", wm_int<> w(r, more)) THROWS(std::logic_error, "wt_ap of more symbols than in the file", wt_ap<> w(r, more)) r.close(true); }
    { std::vector<uint64_t> v; for (char ch : s) v.push_back((uint8_t)ch); bool sorted = std::is_sorted(v.begin(), v.end()); if (!sorted) { THROWS(std::runtime_error, "sd_vector of an unsorted list", sd_vector<> x(v.begin(), v.end())) } }
    { uint64_t n = c.rng.below(50); THROWS(std::runtime_error, "sd_vector_builder with more ones than bits", sd_vector_builder b(n, n + 1 + c.rng.below(9))) }
    { uint64_t n = 10 + c.rng.below(50), m = 1 + c.rng.below(9); sd_vector_builder b(n, m); uint64_t k = c.rng.below(m); for (uint64_t i = 0; i < k; ++i) b.set(i); THROWS(std::runtime_error, "sd_vector of a builder that is not full", sd_vector<> x(b)) }
    { int_vector<> v(5 + c.rng.below(50), 1, 1 + c.rng.below(64)); uint64_t bs = v.bit_size(), len = 1 + c.rng.below(64), idx = bs - std::min<uint64_t>(bs, len) + 1 + c.rng.below(70);
      if (idx + len > bs) { THROWS(std::out_of_range, "get_int beyond the end", v.get_int(idx, len)) THROWS(std::out_of_range, "set_int beyond the end", v.set_int(idx, 1, len)) } 
      THROWS(std::out_of_range, "get_int of more than 64 bits", v.get_int(0, 65 + c.rng.below(100))) if (bs >= len) { ACCEPTS("get_int up to the end", v.get_int(bs - len, len)) ACCEPTS("set_int up to the end", v.set_int(bs - len, 1, len)) } }
    { THROWS(std::logic_error, "k2_tree of an empty matrix", std::vector<std::vector<int>> em; k2_tree<2> t(em)) }
    { int_vector<64> v(5, 3); v[c.rng.below(5)] = ~0ULL; THROWS(std::logic_error, "vlc_vector of 2^64-1", vlc_vector<> x(v)) }
    c.desc("%zu symbols", s.size());
});
// ---- f) file mappings ----
static vf::Reg p1("mapper faults", 60, 1000, [](Case& c) {
    Quiet q; bool thrown; std::string d = vf::scratch_dir() + "/mp"; mkdir(d.c_str(), 0755); std::string f = d + "/f"; unlink(f.c_str()); uint64_t n = 1 + c.rng.size(3000); c.mixfp(n);
    unsigned before = fds();
    THROWS(std::runtime_error, "mapper of a missing file", int_vector_mapper<> m(f)) THROWS(std::runtime_error, "plain mapper of a missing file", int_vector_mapper<8> m(f, true))
    THROWS(std::runtime_error, "temporary mapper in a missing directory", auto m = temp_file_buffer<8>::create(cache_config(true, d + "/nodir")))
    store_to_file(std::string(n, 'x'), f); THROWS(std::runtime_error, "plain mapper of width 7", int_vector_mapper<7> m(f, true))
    if (n % 8) { THROWS(std::runtime_error, "plain mapper of a file of odd size", int_vector_mapper<64> m(f, true)) } else { ACCEPTS("plain mapper", int_vector_mapper<64> m(f, true)) }
    store_to_file(std::string(), f); thrown = false; try { int_vector_mapper<8> m(f, true); VF_EQ("mapper", m.size(), 0u, "%s", "empty plain file"); } catch (std::runtime_error&) { thrown = true; }
    VF_EQ("mapper", fds(), before, "file descriptors after refused mappings (empty file %s)", thrown ? "refused" : "accepted");
    { int_vector<> v(n, 0, 17); for (uint64_t i = 0; i < n; ++i) v[i] = c.rng.next(); store_to_file(v, f); uint64_t sz = util::file_size(f);
      { int_vector_mapper<> m(f); uint64_t big = n + 1000 + c.rng.below(9000); thrown = false; { FileLimit l(sz + c.rng.below(100)); try { m.resize(big); } catch (std::runtime_error&) { thrown = true; } } VF_TRUE("mapper", thrown, "growing over the file size limit succeeded");
        VF_TRUE("mapper", m.size() == 0 || m.size() == n, "size %llu after a failed resize of %llu", (unsigned long long)m.size(), (unsigned long long)n); volatile uint64_t s = 0; for (uint64_t i = 0; i < m.size(); ++i) s += m[i];
        void* p[8]; std::string again = d + "/g"; store_to_file(v, again); { std::vector<std::unique_ptr<int_vector_mapper<>>> o; for (auto& x : p) { (void)x; o.emplace_back(new int_vector_mapper<>(again)); }   // mappings that may get the freed addresses
          { int_vector_mapper<> gone(std::move(m)); } for (auto& x : o) for (uint64_t i = 0; i < n; i += 97) VF_EQ("mapper", (uint64_t)(*x)[i], (uint64_t)v[i], "%s", "another mapping"); } }
      int_vector<> w; VF_TRUE("mapper", load_from_file(w, f) && w == v, "file after a failed resize: %llu elements, expected %llu", (unsigned long long)w.size(), (unsigned long long)n); }
    VF_EQ("mapper", fds(), before, "%s", "file descriptors at the end"); c.desc("%llu elements", (unsigned long long)n);
});
