// int_vector_mapper histories against a bit-string model; closed file bytes, descriptors and mappings
#include "util_model.hpp"
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>
#include <memory>
#ifndef VW
#define VW 0
#endif
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace sdsl;
namespace
{
typedef int_vector_mapper<VW> B;
typedef int_vector_mapper<VW, std::ios_base::in> R;
struct M {
    std::vector<bool> b;
    unsigned w = 0;
    bool plain = false, del = false;
    uint64_t mask() const { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
    uint64_t size() const { return b.size() / w; }
    uint64_t bits(uint64_t at, unsigned len) const { uint64_t x = 0; for (unsigned j = 0; j < len; ++j) x |= (uint64_t)b[at + j] << j; return x; }
    uint64_t get(uint64_t i) const { return bits(i * w, w); }
    void put(uint64_t at, uint64_t x, unsigned len) { for (unsigned j = 0; j < len; ++j) b[at + j] = x >> j & 1; }
};
std::string hist;
void H(const std::string& s) { hist += s + " "; if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 600); }
size_t fds() { return ls("/proc/self/fd").size(); }
size_t mapped(const std::string& f)
{
    size_t n = 0; std::ifstream in("/proc/self/maps"); std::string l;
    while (std::getline(in, l)) n += l.find(f) != std::string::npos;
    return n;
}
template <class T> void full(const T& x, const M& m)
{
    VF_EQ("size", x.size(), m.size(), "after %s", hist.c_str());
    VF_EQ("bit_size", x.bit_size(), m.b.size(), "after %s", hist.c_str());
    VF_EQ("width", (unsigned)x.width(), m.w, "after %s", hist.c_str());
    VF_EQ("empty", x.empty(), m.b.empty(), "after %s", hist.c_str());
    VF_TRUE("capacity", x.capacity() >= x.size(), "capacity %zu size %zu after %s", (size_t)x.capacity(), (size_t)x.size(), hist.c_str());
    size_t i = 0;
    for (auto it = x.cbegin(); it != x.cend(); ++it, ++i) {
        VF_EQ("iteration", (uint64_t)*it, m.get(i), "i=%zu after %s", i, hist.c_str());
        VF_EQ("operator[]", (uint64_t)x[i], m.get(i), "i=%zu after %s", i, hist.c_str());
    }
    VF_EQ("iteration length", i, m.size(), "after %s", hist.c_str());
}
void file_check(const std::string& f, const M& m)
{
    std::string d = slurp(f);
    size_t off = m.plain ? 0 : VW == 0 ? 9 : 8;
    VF_EQ("closed file size", d.size(), off + (m.plain ? (m.b.size() + 7) / 8 : (m.b.size() + 63) / 64 * 8), "bits=%zu plain=%d after %s", m.b.size(), m.plain, hist.c_str());
    if (!m.plain) {
        uint64_t n; memcpy(&n, d.data(), 8);
        VF_EQ("closed file header", n, m.b.size(), "after %s", hist.c_str());
        if (VW == 0) VF_EQ("closed file width", (unsigned)(uint8_t)d[8], m.w, "after %s", hist.c_str());
    }
    for (size_t i = 0; i < m.b.size(); ++i)
        VF_EQ("closed file content", (d[off + i / 8] >> (i % 8)) & 1, (int)m.b[i], "bit %zu of %zu after %s", i, m.b.size(), hist.c_str());
    if (!m.plain) {
        int_vector<VW> v;
        VF_TRUE("load", load_from_file(v, f), "after %s", hist.c_str());
        VF_EQ("load size", v.size(), m.size(), "after %s", hist.c_str());
        const R r(f);
        full(r, m);
        VF_TRUE("== int_vector", r == v, "after %s", hist.c_str());
        std::vector<uint64_t> sv; for (size_t i = 0; i < m.size(); ++i) sv.push_back(m.get(i));
        VF_TRUE("== container", r == sv && !(r != sv), "after %s", hist.c_str());
        std::vector<uint64_t> lv(sv); lv.push_back(0);
        VF_TRUE("== longer container", !(r == lv) && r != lv, "after %s", hist.c_str());
        if (!sv.empty()) {
            lv.assign(sv.begin(), sv.end() - 1); // exactly allocated, so that a read behind it is seen
            VF_TRUE("== shorter container", !(r == lv) && r != lv, "after %s", hist.c_str());
            size_t q = sv.size() / 2; lv = sv; lv[q] ^= 1;
            VF_TRUE("== changed container", !(r == lv) && r != lv, "after %s", hist.c_str());
            int_vector<VW> iv(v); iv[q] = iv[q] ^ 1;
            VF_TRUE("== changed int_vector", !(r == iv) && r != iv, "after %s", hist.c_str());
        }
        if (m.size() > 1) { // same bits, other length
            int_vector<VW> iv(v); iv.resize(m.size() - 1);
            VF_TRUE("== shorter int_vector", !(r == iv) && r != iv, "after %s", hist.c_str());
        }
    } else if (m.b.size()) {
        const R r(f, true);
        full(r, m);
    }
}
template <class T> void flip(T& x, std::true_type) { x.flip(); }
template <class T> void flip(T&, std::false_type) {}
void history(vf::Case& c)
{
    hist.clear();
    std::string dir = vf::scratch_dir() + "/";
    size_t fd0 = fds();
    const int NB = 2;
    std::unique_ptr<B> b[NB];
    M m[NB];
    std::string fn[NB];
    auto open = [&](int i, bool fresh) {
        if (fresh) {
            M n;
            n.w = VW ? VW : c.rng.range(1, 64);
            n.plain = (VW == 8 || VW == 16 || VW == 32 || VW == 64) && c.rng.chance(1, 3);
            uint64_t sz = c.rng.size(300);
            if (n.plain && !sz) sz = 1; // empty files cannot be mapped
            n.b.resize(sz * n.w);
            for (size_t k = 0; k < n.b.size(); ++k) n.b[k] = c.rng.chance(1, 2);
            fn[i] = dir + "map" + std::to_string(i) + "_" + std::to_string(c.rng.next() % 100000);
            if (n.plain) { std::string s(n.b.size() / 8, 0); for (size_t k = 0; k < n.b.size(); ++k) if (n.b[k]) s[k / 8] |= 1 << (k % 8); spit(fn[i], s); }
            else {
                int_vector<VW> v(sz, 0, n.w);
                for (size_t k = 0; k < sz; ++k) v[k] = n.get(k);
                VF_TRUE("store", store_to_file(v, fn[i]), "%s", fn[i].c_str());
            }
            m[i] = n;
        }
        m[i].del = c.rng.chance(1, 5);
        b[i].reset(new B(fn[i], m[i].plain, m[i].del));
        H("open" + std::to_string(i) + "(n=" + std::to_string(m[i].size()) + ",w=" + std::to_string(m[i].w) + (m[i].plain ? ",plain" : "") + (m[i].del ? ",del" : "") + ")");
        VF_EQ("file_name", b[i]->file_name(), fn[i], "after %s", hist.c_str());
    };
    auto close = [&](int i) {
        H("close" + std::to_string(i));
        b[i].reset();
        VF_EQ("mapping left", mapped(fn[i]), (size_t)0, "%s after %s", fn[i].c_str(), hist.c_str());
        if (m[i].del) { VF_EQ("delete_on_close", disk_size(fn[i]), (int64_t)-1, "after %s", hist.c_str()); return false; }
        file_check(fn[i], m[i]);
        return true;
    };
    for (int i = 0; i < NB; ++i) { open(i, true); full(*b[i], m[i]); c.mixfp(m[i].b.size() * 64 + m[i].w); }
    int pushes = c.rng.chance(1, 4) ? 3 : 1; // growing maps 10^6 elements: bounded number of remaps per case
    for (int op = 0; op < 40; ++op) {
        int i = c.rng.below(NB);
        B& x = *b[i]; M& y = m[i];
        uint64_t o = c.rng.below(15);
        c.mixfp(o);
        switch (o) {
            case 0: case 1: {
                if (y.b.size() % y.w) break; // elements are appended at a multiple of the width only
                if (x.capacity() < x.size() + 1) { if (pushes-- <= 0) break; }
                for (int k = c.rng.range(1, 30); k--;) {
                    if (x.capacity() < x.size() + 1) { if (pushes-- <= 0) break; }
                    uint64_t v = c.rng.word() & y.mask();
                    x.push_back(v);
                    y.b.resize(y.b.size() + y.w);
                    y.put((y.size() - 1) * y.w, v, y.w);
                }
                H("push" + std::to_string(i) + "->" + std::to_string(y.size()));
                break;
            }
            case 2: case 3: if (y.size()) { uint64_t k = c.rng.below(y.size()), v = c.rng.word() & y.mask(); x[k] = v; y.put(k * y.w, v, y.w); H("set" + std::to_string(i)); } break;
            case 4: if (y.size()) { const B& cx = x; uint64_t k = c.rng.below(y.size()); VF_EQ("const []", (uint64_t)cx[k], y.get(k), "k=%zu after %s", (size_t)k, hist.c_str()); } break;
            case 5: if (y.b.size()) {
                    unsigned lim = VW && VW < 64 ? (VW == 8 || VW == 16 || VW == 32 ? VW : 64) : 64; // value_type width
                    uint64_t at = c.rng.below(y.b.size()); unsigned len = c.rng.range(1, std::min<uint64_t>(lim, y.b.size() - at));
                    VF_EQ("get_int", (uint64_t)x.get_int(at, len), y.bits(at, len), "at=%zu len=%u after %s", (size_t)at, len, hist.c_str());
                    if (VW != 1 || true) { uint64_t v = c.rng.word(); if (len < 64) v &= (1ULL << len) - 1; x.set_int(at, v, len); y.put(at, v, len); H("set_int" + std::to_string(i)); }
                } break;
            case 6: {
                uint64_t n = c.rng.size(400); if (y.plain && !n) n = 1;
                size_t old = y.b.size();
                x.resize(n); y.b.resize(n * y.w);
                for (size_t k = old; k < y.b.size(); ++k) y.b[k] = x.get_int(k, 1); // grown part: content unspecified
                H("resize" + std::to_string(i) + "=" + std::to_string(n));
                break;
            }
            case 7: if (!y.plain) {
                    uint64_t n = c.rng.size(3000); if (VW == 8 || VW == 16 || VW == 32 || VW == 64) n = n / VW * VW;
                    size_t old = y.b.size();
                    x.bit_resize(n); y.b.resize(n);
                    for (size_t k = old; k < y.b.size(); ++k) y.b[k] = x.get_int(k, 1);
                    H("bit_resize" + std::to_string(i) + "=" + std::to_string(n));
                } break;
            case 8: if (VW == 0) { unsigned w = c.rng.range(1, 64); x.width(w); y.w = w; H("width" + std::to_string(i) + "=" + std::to_string(w)); } break;
            case 9: if (VW == 1 && c.rng.chance(1, 3)) { flip(x, std::integral_constant<bool, VW == 1>()); for (size_t k = 0; k < y.b.size(); ++k) y.b[k] = !y.b[k]; H("flip" + std::to_string(i)); } break;
            case 10: if (y.size()) { // iterator writes
                    std::sort(x.begin(), x.end());
                    std::vector<uint64_t> v; for (size_t k = 0; k < y.size(); ++k) v.push_back(y.get(k));
                    std::sort(v.begin(), v.end());
                    for (size_t k = 0; k < v.size(); ++k) y.put(k * y.w, v[k], y.w);
                    H("sort" + std::to_string(i));
                } break;
            case 11: { bool alive = close(i); open(i, !alive); break; }
            case 12: { // move construction: the target takes over the file, the source owns nothing
                std::unique_ptr<B> n(new B(std::move(x)));
                b[i].reset();
                VF_TRUE("moved mapping", disk_size(fn[i]) >= 0, "file vanished after move %s", hist.c_str());
                b[i] = std::move(n);
                H("move" + std::to_string(i));
                break;
            }
            case 13: { // move assignment: old file is completed, new one taken over
                int j = 1 - i;
                H("assign" + std::to_string(i) + "<-" + std::to_string(j));
                *b[i] = std::move(*b[j]);
                b[j].reset();
                VF_EQ("mapping left by assignment", mapped(fn[i]), (size_t)0, "after %s", hist.c_str());
                if (m[i].del) VF_EQ("delete_on_close", disk_size(fn[i]), (int64_t)-1, "after %s", hist.c_str());
                else file_check(fn[i], m[i]);
                m[i] = m[j]; fn[i] = fn[j];
                open(j, true);
                full(*b[j], m[j]);
                break;
            }
            default: VF_EQ("data words", y.size() ? x.data()[0] & (y.b.size() < 64 ? (1ULL << y.b.size()) - 1 : ~0ULL) : 0, y.size() ? y.bits(0, std::min<size_t>(64, y.b.size())) : 0, "after %s", hist.c_str());
        }
        full(*b[i], m[i]);
    }
    c.desc("%s", hist.c_str());
    for (int i = 0; i < NB; ++i) close(i);
    VF_EQ("open descriptors", fds(), fd0, "after %s", hist.c_str());
    clean_dir(dir);
}
vf::Reg r1("history/w" + std::to_string(VW), 60, 1500, history);
void helpers(vf::Case& c)
{
    std::string dir = vf::scratch_dir();
    clean_dir(dir);
    size_t fd0 = fds();
    cache_config cfg(true, dir, "id");
    M m; m.w = VW ? VW : 64;
    hist = "write_out/temp";
    auto fill = [&](B& b, M& y) { for (int k = c.rng.range(0, 50); k--;) { uint64_t v = c.rng.word() & y.mask(); b.push_back(v); y.b.resize(y.b.size() + y.w); y.put(y.b.size() - y.w, v, y.w); } };
    {
        M y = m;
        auto b = write_out_buffer<VW>::create("key", cfg);
        VF_TRUE("registered", cache_file_exists("key", cfg), "write_out_buffer did not register its file");
        VF_EQ("file_name", b.file_name(), cache_file_name("key", cfg), "write_out_buffer");
        VF_EQ("fresh size", b.size(), (uint64_t)0, "write_out_buffer");
        m.w = y.w = b.width();
        fill(b, y);
        full(b, y);
        m = y;
    }
    file_check(cache_file_name("key", cfg), m);
    VF_EQ("files", ls(dir).size(), (size_t)1, "write_out_buffer");
    {
        M y; y.w = VW ? VW : 64;
        auto t = temp_file_buffer<VW>::create(cfg);
        y.w = t.width();
        VF_EQ("temp file in cache dir", ls(dir).size(), (size_t)2, "temp_file_buffer::create(config)");
        fill(t, y); full(t, y);
        auto t2 = temp_file_buffer<VW>::create(cfg);
        VF_TRUE("temp names", t2.file_name() != t.file_name(), "two live temporaries share %s", t.file_name().c_str());
        std::vector<B> v; v.push_back(std::move(t)); v.push_back(std::move(t2)); v.push_back(temp_file_buffer<VW>::create(cfg)); // reallocations move the mappers
        VF_EQ("temp files alive", ls(dir).size(), (size_t)4, "after moves");
        full(v[0], y);
    }
    VF_EQ("temp files removed", ls(dir).size(), (size_t)1, "temp_file_buffer left %zu files", ls(dir).size());
    VF_EQ("open descriptors", fds(), fd0, "helpers");
    // missing file: error, not a crash and no leak
    bool thrown = false;
    try { B b(dir + "/missing"); } catch (const std::runtime_error&) { thrown = true; }
    VF_TRUE("missing file", thrown, "opening a missing file did not throw");
    VF_EQ("open descriptors", fds(), fd0, "missing file");
    // heap balance
    std::string f = cache_file_name("key", cfg);
    for (int round = 0; round < 2; ++round) {
        size_t a0 = __sanitizer_get_current_allocated_bytes();
        { B b(f); B d(std::move(b)); B e(temp_file_buffer<VW>::create(cfg)); e = std::move(d); }
        size_t a1 = __sanitizer_get_current_allocated_bytes();
        if (round) VF_EQ("heap balance", a1, a0, "open/move/close cycle");
    }
    c.mixfp(c.rng.next());
    c.desc("write_out_buffer/temp_file_buffer n=%zu", (size_t)m.size());
    clean_dir(dir);
}
vf::Reg r2("helpers/w" + std::to_string(VW), 10, 100, helpers);
}
