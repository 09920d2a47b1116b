// int_vector_buffer histories against a vector model, disk and in-memory files
#include "util_model.hpp"
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/io.hpp>
#include <sdsl/ram_fs.hpp>
#include <memory>
#include <map>
#ifndef VW
#define VW 0
#endif
using namespace sdsl;
namespace
{
typedef int_vector_buffer<VW> B;
struct M {
    std::vector<uint64_t> a;
    unsigned w = 64;
    bool plain = false;
    uint64_t mask() const { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
};
std::string hist;
void H(const std::string& s) { hist += s + " "; if (hist.size() > 700) hist = "..." + hist.substr(hist.size() - 600); }

void file_check(const std::string& f, const M& m, bool ram)
{
    std::string data;
    if (ram) { VF_TRUE("file exists", ram_fs::exists(f), "%s after %s", f.c_str(), hist.c_str()); auto& c = ram_fs::content(f); data.assign(c.begin(), c.end()); }
    else data = slurp(f);
    uint64_t bits_ = m.a.size() * m.w;
    std::vector<uint8_t> want;
    if (!m.plain) {
        for (int i = 0; i < 8; ++i) want.push_back(bits_ >> (8 * i));
        if (VW == 0) want.push_back(m.w);
    }
    size_t off = want.size();
    want.resize(off + (m.plain ? (bits_ + 7) / 8 : (bits_ + 63) / 64 * 8), 0);
    for (size_t i = 0; i < m.a.size(); ++i)
        for (unsigned j = 0; j < m.w; ++j) if (m.a[i] >> j & 1) want[off + (i * m.w + j) / 8] |= 1 << ((i * m.w + j) % 8);
    VF_EQ("closed file size", data.size(), want.size(), "n=%zu w=%u plain=%d after %s", m.a.size(), m.w, m.plain, hist.c_str());
    for (size_t i = 0; i < want.size(); ++i) {
        unsigned char got = data[i];
        if (i + 1 == want.size() && m.plain && bits_ % 8) break;
        VF_EQ("closed file content", (int)got, (int)want[i], "byte %zu n=%zu w=%u plain=%d after %s", i, m.a.size(), m.w, m.plain, hist.c_str());
    }
    if (!m.plain) {
        int_vector<VW> v;
        VF_TRUE("load", load_from_file(v, f), "load_from_file false after %s", hist.c_str());
        VF_EQ("load size", v.size(), m.a.size(), "after %s", hist.c_str());
        for (size_t i = 0; i < m.a.size(); ++i) VF_EQ("load content", (uint64_t)v[i], m.a[i], "i=%zu after %s", i, hist.c_str());
    }
}
void full(B& b, const M& m)
{
    VF_EQ("size", b.size(), m.a.size(), "after %s", hist.c_str());
    VF_EQ("width", (unsigned)b.width(), m.w, "after %s", hist.c_str());
    size_t i = 0;
    for (auto it = b.begin(); it != b.end(); ++it) { VF_EQ("iteration", (uint64_t)*it, m.a[i], "i=%zu after %s", i, hist.c_str()); ++i; }
    VF_EQ("iteration length", i, m.a.size(), "after %s", hist.c_str());
}
uint64_t bufsz(vf::Case& c) { return c.rng.chance(1, 6) ? 0 : c.rng.chance(1, 2) ? c.rng.range(1, 20) : c.rng.range(1, 600); }

void history(vf::Case& c)
{
    hist.clear();
    bool ram = c.idx % 3 == 1;
    std::string dir = ram ? std::string("@") : vf::scratch_dir() + "/";
    const int NB = 2;
    std::unique_ptr<B> b[NB];
    M m[NB];
    std::string fn[NB];
    uint64_t maxn = c.rng.chance(1, 4) ? 3000 : 400;
    for (int i = 0; i < NB; ++i) {
        m[i].w = VW ? VW : c.rng.range(1, 64);
        m[i].plain = (VW == 8 || VW == 16 || VW == 32 || VW == 64) && c.rng.chance(1, 3);
        fn[i] = dir + "buf" + std::to_string(i) + "_" + std::to_string(c.idx);
        uint64_t bs = bufsz(c);
        if (c.rng.chance(1, 2)) { // leftovers of an older, longer file must not shine through
            std::string junk(c.rng.range(1, 3000), (char)0xAB);
            if (ram) { ram_fs::content_type t(junk.begin(), junk.end()); ram_fs::store(fn[i], t); } else spit(fn[i], junk);
        }
        b[i].reset(new B(fn[i], std::ios::out, bs, m[i].w, m[i].plain));
        H("B" + std::to_string(i) + "(w=" + std::to_string(m[i].w) + ",bs=" + std::to_string(bs) + ",plain=" + std::to_string(m[i].plain) + ")");
        c.mixfp(m[i].w * 1000 + bs);
    }
    c.desc("%s %s + 60 ops", ram ? "ram" : "disk", hist.c_str());
    c.mixfp(c.seed);
    for (int op = 0; op < 60; ++op) {
        int i = c.rng.below(NB), j = 1 - i;
        B& A = *b[i];
        M& MA = m[i];
        std::string who = "B" + std::to_string(i);
        switch (c.rng.below(18)) {
            case 0: case 1: case 2: {
                int n = c.rng.range(1, 60);
                for (int k = 0; k < n && MA.a.size() < maxn; ++k) { uint64_t x = c.rng.word(); if (VW == 1) x &= 1; A.push_back(x); MA.a.push_back(x & MA.mask()); }
                H(who + ".push_back*" + std::to_string(n));
                break;
            }
            case 3: case 4: case 5:
                for (int k = 0; k < 10 && MA.a.size(); ++k) { size_t p = c.rng.below(MA.a.size()); uint64_t x = c.rng.word(); if (VW == 1) x &= 1; A[p] = x; MA.a[p] = x & MA.mask(); if (c.rng.chance(1, 3)) { size_t q = c.rng.below(MA.a.size()); VF_EQ("read", (uint64_t)A[q], MA.a[q], "i=%zu n=%zu after %s write[%zu]", q, MA.a.size(), hist.c_str(), p); } }
                H(who + ".writes");
                break;
            case 6: case 7:
                for (int k = 0; k < 10 && MA.a.size(); ++k) { size_t q = c.rng.below(MA.a.size()); VF_EQ("read", (uint64_t)A[q], MA.a[q], "i=%zu n=%zu after %s", q, MA.a.size(), hist.c_str()); }
                break;
            case 8: if (MA.a.size() < maxn) { size_t p = MA.a.size() + c.rng.below(c.rng.chance(1, 2) ? 10 : 500); uint64_t x = c.rng.word(); if (VW == 1) x &= 1; A[p] = x; MA.a.resize(p + 1, 0); MA.a[p] = x & MA.mask(); H(who + "[" + std::to_string(p) + "]=x (gap)"); } break;
            case 9: { uint64_t bs = bufsz(c); A.buffersize(bs); VF_TRUE("buffersize", A.buffersize() >= std::max<uint64_t>(bs, 1), "asked %lu got %lu", bs, A.buffersize()); H(who + ".buffersize(" + std::to_string(bs) + ")"); break; }
            case 10: if (c.rng.chance(1, 3)) { A.reset(); MA.a.clear(); H(who + ".reset"); } break;
            case 11: { // close and reopen
                if (MA.plain && (MA.a.size() * MA.w) % 8) break;
                A.close();
                VF_EQ("is_open", A.is_open(), false, "after close");
                H(who + ".close");
                file_check(fn[i], MA, ram);
                uint64_t bs = bufsz(c);
                b[i].reset(new B(fn[i], std::ios::in, bs, MA.w, MA.plain));
                H(who + ".reopen(bs=" + std::to_string(bs) + ")");
                break;
            }
            case 12: { // move construction, moved-from object destroyed first
                std::unique_ptr<B> t(new B(std::move(A)));
                VF_EQ("moved-from size", A.size(), 0u, "after move");
                b[i] = std::move(t);
                H(who + ".movector");
                break;
            }
            case 13: { // move assignment over an open buffer: the overwritten one is written out
                if (c.rng.chance(2, 3)) break;
                B tmp(dir + "tmpbuf", std::ios::out, 16, MA.w, MA.plain);
                M tm = MA;
                tm.a.clear();
                for (int k = 0; k < 20; ++k) { uint64_t x = c.rng.next() & (VW == 1 ? 1 : ~0ULL); tmp.push_back(x); tm.a.push_back(x & tm.mask()); }
                tmp = std::move(A);
                H("tmp=move(" + who + ")");
                file_check(dir + "tmpbuf", tm, ram);
                full(tmp, MA);
                VF_TRUE("filename", tmp.filename() == fn[i], "%s", tmp.filename().c_str());
                *b[i] = std::move(tmp);
                sdsl::remove(dir + "tmpbuf");
                break;
            }
            case 14: A.swap(*b[j]); std::swap(m[i], m[j]); std::swap(fn[i], fn[j]); H(who + ".swap"); break;
            case 15: if (MA.a.size()) {
                size_t p = c.rng.below(MA.a.size());
                uint64_t x = c.rng.word() & MA.mask();
                if (VW == 1) break;
                switch (c.rng.below(6)) {
                    case 0: ++A[p]; MA.a[p] = (MA.a[p] + 1) & MA.mask(); break;
                    case 1: --A[p]; MA.a[p] = (MA.a[p] - 1) & MA.mask(); break;
                    case 2: VF_EQ("post++", (uint64_t)(A[p]++), MA.a[p], "p=%zu", p); MA.a[p] = (MA.a[p] + 1) & MA.mask(); break;
                    case 3: VF_EQ("post--", (uint64_t)(A[p]--), MA.a[p], "p=%zu", p); MA.a[p] = (MA.a[p] - 1) & MA.mask(); break;
                    case 4: A[p] += x; MA.a[p] = (MA.a[p] + x) & MA.mask(); break;
                    default: A[p] -= x; MA.a[p] = (MA.a[p] - x) & MA.mask(); break;
                }
                H(who + ".arith");
                size_t q = c.rng.below(MA.a.size());
                VF_EQ("ref ==", A[p] == A[q], MA.a[p] == MA.a[q], "p=%zu q=%zu", p, q);
                VF_EQ("ref <", A[p] < A[q], MA.a[p] < MA.a[q], "p=%zu q=%zu", p, q);
                auto r = A[q];
                A[p] = r;
                MA.a[p] = MA.a[q];
                break;
            }
            // fall through
            case 16: { // iterators
                size_t n = MA.a.size(), p = c.rng.below(n + 1), q = c.rng.below(n + 1);
                auto x = A.begin() + p, y = A.begin() + q;
                VF_EQ("it diff", (int64_t)(x - y), (int64_t)p - (int64_t)q, "p=%zu q=%zu", p, q);
                VF_EQ("it ==", x == y, p == q, "p=%zu q=%zu", p, q);
                x += (int64_t)q - (int64_t)p;
                VF_TRUE("it +=", x == y, "p=%zu q=%zu", p, q);
                x -= (int64_t)q - (int64_t)p; VF_TRUE("it -=", x == A.begin() + (int64_t)p, "p=%zu q=%zu", p, q);
                auto z = A.end() - (int64_t)(n - p);
                VF_TRUE("it -", z == A.begin() + p, "p=%zu", p);
                if (p < n) { VF_EQ("*it", (uint64_t)*z, MA.a[p], "p=%zu", p); auto o = z++; VF_EQ("*it++", (uint64_t)*o, MA.a[p], "p=%zu", p); --z; VF_EQ("*--it", (uint64_t)*z, MA.a[p], "p=%zu", p); }
                break;
            }
            default: full(A, MA);
        }
        VF_EQ("size", b[i]->size(), m[i].a.size(), "after %s", hist.c_str());
    }
    for (int i = 0; i < NB; ++i) {
        full(*b[i], m[i]);
        if (c.rng.chance(1, 2)) b[i]->close(); else b[i].reset(); // the destructor closes too
        file_check(fn[i], m[i], ram);
        if (b[i]) b[i].reset();
        sdsl::remove(fn[i]);
    }
    { // close(true) removes the file
        B t(fn[0], std::ios::out, 8, m[0].w);
        t.push_back(1);
        t.close(true);
        VF_EQ("removed", ram ? ram_fs::exists(fn[0]) : disk_size(fn[0]) >= 0, false, "file left after close(true)");
        B d; // default object is destroyed without effect
    }
}
// Handles in every state - default, open, closed, file removed - are moved, swapped, relocated and destroyed.
void handles(vf::Case& c)
{
    hist.clear();
    bool ram = c.idx % 3 == 1;
    std::string dir = ram ? std::string("@") : vf::scratch_dir() + "/";
    struct S { int st = 0; int f = -1; M m; }; // st: 0 default, 1 open, 2 closed, 3 file removed
    const size_t NB = 4;
    std::vector<B> b(NB); // default objects
    std::vector<S> s(NB);
    std::map<int, M> closed; // file -> content
    int nf = 0;
    auto name = [&](int f) { return f < 0 ? std::string() : dir + "hb" + std::to_string(c.idx) + "_" + std::to_string(f); };
    auto check = [&](size_t i) {
        VF_EQ("is_open", b[i].is_open(), s[i].st == 1, "handle %zu after %s", i, hist.c_str());
        VF_EQ("filename", b[i].filename(), name(s[i].f), "handle %zu after %s", i, hist.c_str());
        if (s[i].st < 2) VF_EQ("size", b[i].size(), s[i].m.a.size(), "handle %zu after %s", i, hist.c_str());
        if (s[i].st == 1) full(b[i], s[i].m);
    };
    size_t steps = c.rng.range(5, 40);
    for (size_t t = 0; t < steps; ++t) {
        size_t i = c.rng.below(s.size()), j = c.rng.below(s.size());
        std::string who = std::to_string(i);
        switch (c.rng.below(9)) {
            case 0: case 1: // (re)open by move assignment
                if (s[i].st == 1) closed[s[i].f] = s[i].m; // the overwritten buffer is written out
                s[i] = S(); s[i].st = 1; s[i].f = nf++; s[i].m.w = VW ? VW : c.rng.range(1, 64); s[i].m.plain = false;
                b[i] = B(name(s[i].f), std::ios::out, bufsz(c), s[i].m.w);
                H("open" + who); break;
            case 2: if (s[i].st == 1) { for (uint64_t k = c.rng.below(60); k-- > 0;) { uint64_t x = c.rng.next() & (s[i].m.w == 64 ? ~0ULL : (1ULL << s[i].m.w) - 1); b[i].push_back(x); s[i].m.a.push_back(x); } H("push" + who); } break;
            case 3: b[i].close(); if (s[i].st == 1) { s[i].st = 2; closed[s[i].f] = s[i].m; } H("close" + who); break;
            case 4: if (s[i].st == 1) { b[i].close(true); s[i].st = 3; H("remove" + who); } break;
            case 5: b[i].swap(b[j]); std::swap(s[i], s[j]); H("swap" + who + "," + std::to_string(j)); break;
            case 6: if (i != j) {
                if (s[i].st == 1) closed[s[i].f] = s[i].m;
                b[i] = std::move(b[j]); s[i] = s[j]; s[j] = S();
                H("move" + who + "=" + std::to_string(j));
                } break;
            case 7: { B x(std::move(b[i])); S sx = s[i]; s[i] = S(); check(i); b[j].swap(x); std::swap(sx, s[j]); if (sx.st == 1) closed[sx.f] = sx.m; H("movector" + who + "->" + std::to_string(j)); } break; // x is destroyed here
            case 8: if (b.size() < 12) { b.emplace_back(); s.emplace_back(); b.reserve(b.capacity() + 1); H("grow"); } break; // relocates the handles
        }
        check(i); check(j);
    }
    for (size_t i = 0; i < b.size(); ++i) check(i);
    b.clear();
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i].st == 1) closed[s[i].f] = s[i].m;
        if (s[i].st == 3) VF_EQ("removed", ram ? ram_fs::exists(name(s[i].f)) : disk_size(name(s[i].f)) >= 0, false, "file %d after %s", s[i].f, hist.c_str());
    }
    for (auto& kv : closed) { file_check(name(kv.first), kv.second, ram); sdsl::remove(name(kv.first)); }
    VF_EQ("empty name", ram_fs::exists(""), false, "after %s", hist.c_str());
}
static vf::Reg r2("handles/w" + std::to_string(VW), 150, 3000, handles);
static vf::Reg r1("history/w" + std::to_string(VW), VW == 0 ? 600 : 200, VW == 0 ? 9000 : 3000, history);
} // namespace
