// C26: the in-memory file system and the sdsl file streams against a byte-vector model; every history is run on a
// RAM file and on a disk file.
#include "vf.hpp"
#include <map>
#include <set>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/io.hpp>
#include <sdsl/sfstream.hpp>
using namespace sdsl;
using vf::Case;
typedef std::string Bytes;

static Bytes rnd(Case& c, size_t n) { Bytes b(n, 0); for (auto& x : b) x = (char)(c.rng.chance(1, 6) ? (c.rng.chance(1, 2) ? 0 : 0xFF) : c.rng.next()); return b; }
static Bytes slurp(const std::string& f) { isfstream in(f, std::ios::in | std::ios::binary); std::ostringstream o; if (util::file_size(f)) o << in.rdbuf(); return o.str(); }

// ---- histories of whole files ----
struct Model { std::map<std::string, Bytes> f; };
static void write_session(Case& c, const std::string& pre, const std::string& name, Bytes& m, bool existed, bool big)
{
    std::string f = pre + name;
    unsigned mode = c.rng.below(existed ? 6 : 4); std::ios_base::openmode om = std::ios::binary; uint64_t pos = 0; bool app = false;
    switch (mode) {
        case 0: om |= std::ios::out; m.clear(); break;
        case 1: om |= std::ios::out | std::ios::trunc; m.clear(); break;
        case 2: om |= std::ios::out | std::ios::app; pos = m.size(); app = true; break;
        case 3: om |= std::ios::in | std::ios::out | std::ios::trunc; m.clear(); break;
        case 4: om |= std::ios::in | std::ios::out; break;
        default: om |= std::ios::in | std::ios::out | std::ios::ate; pos = m.size(); break;
    }
    osfstream o(f, om);
    VF_TRUE("open", o.is_open() && !o.fail(), "cannot open %s mode %u", f.c_str(), mode);
    unsigned steps = 1 + c.rng.below(big ? 30 : 10);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned op = c.rng.below(app ? 5 : 9);
        if (op < 4) {
            Bytes b = rnd(c, c.rng.chance(1, 8) ? c.rng.below(big ? 70000 : 3000) : c.rng.below(20));
            o.write(b.data(), b.size()); if (m.size() < pos + b.size()) m.resize(pos + b.size(), 0); m.replace(pos, b.size(), b); pos += b.size();
        } else if (op == 4) {
            char ch = (char)c.rng.next(); o.put(ch); if (m.size() < pos + 1) m.resize(pos + 1, 0); m[pos++] = ch;
            if (c.rng.chance(1, 3)) o.flush();
        } else {
            uint64_t to; bool ok = true;
            if (op == 5) { to = c.rng.below(m.size() + 1); o.seekp((std::streamoff)to); }
            else if (op == 6) { to = c.rng.below(m.size() + 1); o.seekp((std::streamoff)to - (std::streamoff)pos, std::ios::cur); }
            else if (op == 7) { to = c.rng.below(m.size() + 1); o.seekp((std::streamoff)to - (std::streamoff)m.size(), std::ios::end); }
            else if (c.rng.chance(1, 3)) {   // beyond the end, followed by a write
                to = m.size() + c.rng.below(50); o.seekp((std::streamoff)to); Bytes b = rnd(c, 1 + c.rng.below(9)); o.write(b.data(), b.size());
                m.resize(to, 0); m += b; to += b.size();
            } else {  // before the begin: refused, stream failed
                if (c.rng.chance(1, 2)) o.seekp(-1 - (std::streamoff)c.rng.below(5), std::ios::beg); else o.seekp(-1 - (std::streamoff)pos, std::ios::cur);
                VF_TRUE("seekp", o.fail(), "%s", "seek before the begin of the file did not fail"); o.clear(); ok = false; to = pos; o.seekp((std::streamoff)pos);
            }
            pos = to; VF_TRUE("seekp", !o.fail(), "seek to %llu of %zu failed", (unsigned long long)to, m.size()); (void)ok;
        }
        if (!app && c.rng.chance(1, 3)) VF_EQ("tellp", (int64_t)o.tellp(), (int64_t)pos, "after step %u", s);
        if (pre == "@" && c.rng.chance(1, 4)) VF_EQ("size", util::file_size(f), m.size(), "while writing, step %u", s);
    }
    if (c.rng.chance(2, 3)) { o.close(); VF_TRUE("close", !o.fail(), "%s", "close failed"); VF_TRUE("close", !o.is_open() , "%s", "open after close"); }
}
static void read_session(Case& c, const std::string& f, const Bytes& m)
{
    isfstream in(f, c.rng.chance(1, 2) ? std::ios::in | std::ios::binary : std::ios::in);
    VF_TRUE("open", in.is_open() && !in.fail(), "cannot open %s", f.c_str());
    uint64_t pos = 0;
    for (unsigned s = 0, e = 1 + c.rng.below(12); s < e; ++s) {
        switch (c.rng.below(6)) {
            case 0: { uint64_t k = c.rng.below(m.size() + 10); Bytes b(k, 'x'); in.read(&b[0], k); uint64_t got = std::min<uint64_t>(k, m.size() - pos);
                VF_EQ("read", (uint64_t)in.gcount(), got, "read(%llu) at %llu of %zu", (unsigned long long)k, (unsigned long long)pos, m.size());
                VF_TRUE("read", b.substr(0, got) == m.substr(pos, got), "bytes read at %llu differ", (unsigned long long)pos);
                VF_EQ("eof", in.eof(), got < k, "%s", "eof"); VF_EQ("eof", in.fail(), got < k, "%s", "fail"); pos += got;
                if (got < k) { in.clear(); if (c.rng.chance(1, 2)) { pos = c.rng.below(m.size() + 1); in.seekg((std::streamoff)pos); } } break; }
            case 1: pos = c.rng.below(m.size() + 1); in.seekg((std::streamoff)pos); break;
            case 2: { uint64_t to = c.rng.below(m.size() + 1); in.seekg((std::streamoff)to - (std::streamoff)pos, std::ios::cur); pos = to; break; }
            case 3: { uint64_t to = c.rng.below(m.size() + 1); in.seekg((std::streamoff)to - (std::streamoff)m.size(), std::ios::end); pos = to; break; }
            case 4: { int ch = in.get(); if (pos < m.size()) VF_EQ("get", ch, (int)(unsigned char)m[pos++], "at %llu", (unsigned long long)pos); else { VF_EQ("get", ch, -1, "%s", "past the end"); in.clear(); } break; }
            default: if (c.rng.chance(1, 3)) { in.seekg(-1 - (std::streamoff)c.rng.below(9), std::ios::beg); VF_TRUE("seekg", in.fail(), "%s", "seek before the begin did not fail"); in.clear(); in.seekg((std::streamoff)pos); }
                else { int ch = in.peek(); if (pos < m.size()) VF_EQ("peek", ch, (int)(unsigned char)m[pos], "at %llu", (unsigned long long)pos); else { VF_EQ("peek", ch, -1, "%s", "past the end");
                    // seeking clears the end-of-file state, as for every istream
                    pos = c.rng.below(m.size() + 1); in.seekg((std::streamoff)pos); VF_TRUE("seekg", in.good(), "%s", "stream not good after seek from the end"); } }
        }
        if (c.rng.chance(1, 2)) VF_EQ("tellg", (int64_t)in.tellg(), (int64_t)pos, "step %u", s);
        VF_TRUE("state", !in.fail(), "stream failed at step %u", s);
    }
}
static void histories(Case& c, const std::string& pre, bool big)
{
    Model m; std::vector<std::string> names = {"a", "b", "ab", "c.sdsl", "x_y"}; uint64_t ops = 0, bytes = 0;
    unsigned steps = (big ? 60 : 25); std::string d = pre;
    for (unsigned s = 0; s < steps; ++s, ++ops) {
        const std::string n = c.rng.pick(names), f = d + n; bool ex = m.f.count(n);
        switch (c.rng.below(10)) {
            case 0: case 1: case 2: { Bytes b = ex ? m.f[n] : Bytes(); c.mixfp(c.rng.s); write_session(c, d, n, b, ex, big); m.f[n] = b; bytes += b.size(); break; }
            case 3: case 4: if (ex) read_session(c, f, m.f[n]); else { isfstream in(f); VF_TRUE("open", !in.is_open() && in.fail(), "opened missing file %s", f.c_str()); osfstream o(f, std::ios::in | std::ios::out | std::ios::binary); VF_TRUE("open", !o.is_open() && o.fail(), "opened missing file %s for update", f.c_str()); } break;
            case 5: { int r = sdsl::remove(f); VF_EQ("remove", r == 0, ex, "%s", f.c_str()); m.f.erase(n); break; }
            case 6: { std::string n2 = c.rng.pick(names); int r = sdsl::rename(f, d + n2); VF_EQ("rename", r == 0, ex, "%s -> %s", f.c_str(), n2.c_str()); if (ex && n != n2) { m.f[n2] = m.f[n]; m.f.erase(n); } break; }
            case 7: VF_EQ("size", util::file_size(f), ex ? m.f[n].size() : 0, "%s", f.c_str()); break;
            case 8: if (c.rng.chance(1, 2)) { Bytes b = rnd(c, c.rng.below(200)); for (auto& ch : b) if (!ch) ch = 1; if (c.rng.chance(1, 2)) { VF_TRUE("store", store_to_file(b, f), "%s", f.c_str()); } else VF_TRUE("store", store_to_file(b.c_str(), f), "%s", f.c_str()); m.f[n] = b; }
                else { Bytes b = rnd(c, 8 * c.rng.below(40)); VF_TRUE("store", store_to_file(b, f), "%s", f.c_str()); m.f[n] = b; int_vector<8> v; VF_TRUE("load", load_vector_from_file(v, f, 1), "%s", f.c_str()); VF_EQ("load", v.size(), b.size(), "%s", f.c_str()); for (size_t i = 0; i < b.size(); ++i) VF_EQ("load", (unsigned)v[i], (unsigned)(unsigned char)b[i], "byte %zu", i);
                       int_vector<> w; VF_TRUE("load", load_vector_from_file(w, f, 4), "%s", f.c_str()); VF_EQ("load", w.size(), b.size() / 4, "%s", f.c_str()); for (size_t i = 0; i < w.size(); ++i) { uint32_t x; memcpy(&x, &b[4 * i], 4); VF_EQ("load", (uint64_t)w[i], (uint64_t)x, "4-byte integer %zu", i); } } break;
            default: { int_vector<> v; bool r = load_vector_from_file(v, f + "_missing", 1); VF_TRUE("load", !r, "load_vector_from_file of a missing file succeeded"); VF_TRUE("load", !load_from_file(v, f + "_missing"), "load_from_file of a missing file succeeded"); }
        }
        if (c.rng.chance(1, 3)) for (auto& k : names) { bool e = m.f.count(k); if (pre[0] == '@') VF_EQ("exists", ram_fs::exists(d + k), e, "%s", k.c_str()); if (e) VF_TRUE("content", slurp(d + k) == m.f[k], "content of %s differs (%zu bytes expected, %zu there)", k.c_str(), m.f[k].size(), slurp(d + k).size()); }
    }
    for (auto& k : names) { if (m.f.count(k)) { VF_TRUE("content", slurp(d + k) == m.f[k], "content of %s differs at the end", k.c_str()); VF_EQ("size", util::file_size(d + k), m.f[k].size(), "%s", k.c_str()); sdsl::remove(d + k); } }
    c.desc("%llu operations, %llu bytes", (unsigned long long)ops, (unsigned long long)bytes);
}
static vf::Reg a1("ram files", 400, 8000, [](Case& c) { histories(c, "@d" + std::to_string(c.idx) + "/", false); });
static vf::Reg a2("ram files big", 40, 800, [](Case& c) { histories(c, "@", true); });
static vf::Reg a3("disk files", 200, 4000, [](Case& c) { std::string d = vf::scratch_dir() + "/fs"; mkdir(d.c_str(), 0755); histories(c, d + "/", c.rng.chance(1, 6)); DIR* p = opendir(d.c_str()); int k = 0; while (dirent* e = readdir(p)) k += e->d_name[0] != '.'; closedir(p); VF_EQ("left", k, 0, "%s", "files left"); });
// ---- the raw stream buffer through std streams ----
static vf::Reg a4("ram_filebuf", 200, 4000, [](Case& c) {
    std::string f = "@raw"; Bytes m = rnd(c, c.rng.below(300)); c.mixfp(c.rng.s); store_to_file(m, f);
    ram_fs::content_type& ct = ram_fs::content(f); VF_TRUE("content", Bytes(ct.begin(), ct.end()) == m, "%s", "ram_fs::content");
    { ram_filebuf b(ct); std::istream in(&b); Bytes g((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); VF_TRUE("content", g == m, "ram_filebuf over the content reads %zu of %zu bytes", g.size(), m.size()); }
    ram_filebuf b; VF_TRUE("open", !b.is_open(), "%s", "open before open()"); VF_TRUE("open", b.close() == nullptr, "%s", "close of a closed buffer");
    VF_TRUE("open", b.open("@none", std::ios::in) == nullptr && !b.is_open(), "%s", "missing file opened");
    VF_TRUE("open", b.open(f, std::ios::in | std::ios::out) == &b && b.is_open(), "%s", "not opened");
    // one buffer, reads and writes; positions are set explicitly between reading and writing
    uint64_t n = 0; 
    for (int s = 0; s < 30; ++s, ++n) {
        uint64_t p = c.rng.below(m.size() + 1); VF_EQ("seek", (int64_t)b.pubseekpos(p, std::ios::in | std::ios::out), (int64_t)p, "%s", "pubseekpos");
        if (c.rng.chance(1, 2)) { Bytes w = rnd(c, c.rng.below(40)); VF_EQ("put", (uint64_t)b.sputn(w.data(), w.size()), w.size(), "%s", "sputn"); if (m.size() < p + w.size()) m.resize(p + w.size()); m.replace(p, w.size(), w);
            VF_EQ("seek", (int64_t)b.pubseekoff(0, std::ios::cur, std::ios::out), (int64_t)(p + w.size()), "%s", "put position"); }
        else { uint64_t k = c.rng.below(60); Bytes r(k, 0); uint64_t g = std::min<uint64_t>(k, m.size() - p); VF_EQ("get", (uint64_t)b.sgetn(&r[0], k), g, "sgetn(%llu) at %llu of %zu", (unsigned long long)k, (unsigned long long)p, m.size()); VF_TRUE("get", r.substr(0, g) == m.substr(p, g), "%s", "bytes differ"); VF_EQ("seek", (int64_t)b.pubseekoff(0, std::ios::cur, std::ios::in), (int64_t)(p + g), "%s", "get position"); }
        VF_EQ("sync", b.pubsync(), 0, "%s", "sync");
    }
    VF_TRUE("close", b.close() == &b && !b.is_open(), "%s", "close"); VF_EQ("size", ram_fs::file_size(f), m.size(), "%s", "ram_fs::file_size");
    VF_TRUE("content", Bytes(ram_fs::content(f).begin(), ram_fs::content(f).end()) == m, "%s", "content at the end"); sdsl::remove(f); c.desc("%llu operations", (unsigned long long)n);
});
// ---- streams that were closed or never opened: in memory as on disk ----
static std::string closed_trace(Case& c, const std::string& f, vf::Rng r)
{
    std::string t; auto st = [&](std::ios& s) { t += s.eof() ? 'e' : '-'; t += s.fail() ? 'f' : '-'; t += s.bad() ? 'b' : '-'; t += ' '; }; (void)c;
    store_to_file(std::string("some content of the file"), f);
    if (r.chance(1, 2)) {
        isfstream in; unsigned how = r.below(3); char b[20];
        if (how) { in.open(f, std::ios::in | std::ios::binary); st(in); if (how == 2) { in.read(b, 5); } in.close(); st(in); }
        for (unsigned k = 1 + r.below(6); k--;) {
            switch (r.below(8)) {
                case 0: in.seekg((std::streamoff)r.below(30)); t += 'S'; break;
                case 1: in.seekg((std::streamoff)r.below(5), r.chance(1, 2) ? std::ios::cur : std::ios::end); t += 'C'; break;
                case 2: t += "T" + std::to_string((long)in.tellg()); break;
                case 3: in.read(b, 4); t += "R" + std::to_string(in.gcount()); break;
                case 4: t += "G" + std::to_string(in.get()); break;
                case 5: in.close(); t += 'X'; break;
                case 6: in.clear(); t += 'c'; break;
                default: t += in.is_open() ? 'O' : 'o';
            }
            st(in);
        }
        if (r.chance(1, 2)) { in.open(f, std::ios::in | std::ios::binary); st(in); in.read(b, 10); t += std::string(b, in.gcount()); st(in); }
    } else {
        osfstream o; unsigned how = r.below(3);
        if (how) { o.open(f, std::ios::out | std::ios::binary); st(o); if (how == 2) o.write("abc", 3); o.close(); st(o); }
        for (unsigned k = 1 + r.below(6); k--;) {
            switch (r.below(8)) {
                case 0: o.seekp((std::streamoff)r.below(30)); t += 'S'; break;
                case 1: o.seekp((std::streamoff)r.below(5), r.chance(1, 2) ? std::ios::cur : std::ios::end); t += 'C'; break;
                case 2: t += "T" + std::to_string((long)o.tellp()); break;
                case 3: o.write("wxyz", 4); t += 'W'; break;
                case 4: o.put('p'); t += 'P'; break;
                case 5: o.close(); t += 'X'; break;
                case 6: o.clear(); t += 'c'; break;
                default: t += o.is_open() ? 'O' : 'o';
            }
            st(o);
        }
        if (r.chance(1, 2)) { o.open(f, std::ios::out | std::ios::binary); st(o); o.write("again", 5); st(o); o.close(); }
    }
    return t + "|" + slurp(f);
}
static vf::Reg a6("closed streams", 400, 6000, [](Case& c) {
    vf::Rng r(c.rng.next()); c.mixfp(r.s); std::string d = vf::scratch_dir() + "/closed", a = closed_trace(c, "@closed", r), b = closed_trace(c, d, r);
    VF_EQ("closed stream", a, b, "%s", "in memory (first) and on disk"); sdsl::remove("@closed"); sdsl::remove(d); c.desc("%s", b.c_str());
});
// ---- names ----
static vf::Reg a5("names", 60, 600, [](Case& c) {
    static const char* P[] = {"", "a", "/x/y", "../z", "@q", "a@b", " ", "dir/sub.dir/file.tar.gz"}; std::string s = P[c.rng.below(8)]; for (unsigned i = c.rng.below(6); i; --i) s += "ab/.@_9"[c.rng.below(7)];
    for (char ch : s) c.mixfp(ch); c.desc("%s", s.c_str()); bool r = !s.empty() && s[0] == '@';
    VF_EQ("is_ram_file", is_ram_file(s), r, "%s", s.c_str()); VF_EQ("ram_file_name", ram_file_name(s), r ? s : "@" + s, "%s", s.c_str()); VF_EQ("disk_file_name", disk_file_name(s), r ? s.substr(1) : s, "%s", s.c_str());
    std::string b = disk_file_name(s); while (b.size() > 1 && b.back() == '/') b.pop_back(); size_t p = b.rfind('/'); 
    std::string base = b.empty() ? "." : b == "/" ? "/" : p == std::string::npos ? b : b.substr(p + 1);
    VF_EQ("basename", util::basename(s), base, "%s", s.c_str());
    std::string dir; if (b.empty() || p == std::string::npos) dir = b == "/" ? "/" : "."; else { dir = b.substr(0, p); while (dir.size() > 1 && dir.back() == '/') dir.pop_back(); if (dir.empty()) dir = "/"; }
    std::string got = util::dirname(s); 
    VF_TRUE("dirname", got == (r ? "@" + dir : dir) || (r && dir == "." && got == "@"), "dirname of %s is %s, expected %s", s.c_str(), got.c_str(), dir.c_str());
    std::set<std::string> t; cache_config cfg(true, "@td"); for (int i = 0; i < 20; ++i) { t.insert(tmp_file(cfg, "_p")); std::string z = c.rng.pick(std::vector<std::string>{"@zz/a", "@a", "@/zz/b/c", "/x/y"}), u = tmp_file(z, std::string("_p")); t.insert(u); VF_TRUE("tmp_file", is_ram_file(u) == is_ram_file(z) && u.compare(0, z.rfind('/') == std::string::npos ? 1 : z.rfind('/') + 1, z, 0, z.rfind('/') == std::string::npos ? 1 : z.rfind('/') + 1) == 0, "temporary file %s next to %s", u.c_str(), z.c_str()); } VF_EQ("tmp_file", t.size(), 40u, "%s", "names of temporary files are distinct");
});
