#include "vf.hpp"
#include <atomic>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>

namespace vf
{
Case* cur = nullptr;
std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }

struct Slot {
    std::atomic<uint64_t> gid;     // global case number + 1 (0: idle)
    std::atomic<uint64_t> started; // wall seconds
    char desc[1024];
};
struct SuiteStat { std::atomic<uint64_t> cases, checks, nontrivial; };
struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> stop;
    std::atomic<uint64_t> skipped;
    Slot slot[64];
    SuiteStat st[4096];
};
static Shared* sh;
static int my_slot = 0;
static std::string out_dir, scratch;
static bool thorough = false;
static uint64_t base_seed = 1;
static double cpu_limit = 60;
static uint64_t budget = 0, t_start = 0;       // seconds after which no case beyond those of the quick tier is begun (0: no limit)
static int fd_fail = -1, fd_fp = -1, fd_sample = -1;

std::string scratch_dir() { return scratch; }
std::string workdir() { return out_dir; }

void Case::desc(const char* fmt, ...)
{
    char b[900];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (d.size() < 900) { if (!d.empty()) d += "; "; d += b; }
    if (sh) { strncpy(sh->slot[my_slot].desc, d.c_str(), sizeof(sh->slot[0].desc) - 1); }
}
void fail(const std::string& key, const char* fmt, ...)
{
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Failure{key, b};
}
static std::string jesc(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void put(int fd, const std::string& s) { if (fd >= 0 && write(fd, s.data(), s.size()) < 0) {} }
static void record(const std::string& suite, uint64_t idx, const std::string& key, const std::string& msg, const std::string& d, const std::string& log = "")
{
    std::ostringstream o;
    o << "{\"suite\":" << jesc(suite) << ",\"case\":" << idx << ",\"seed\":" << base_seed << ",\"key\":" << jesc(key) << ",\"msg\":" << jesc(msg)
      << ",\"desc\":" << jesc(d) << ",\"log\":" << jesc(log) << "}\n";
    put(fd_fail, o.str());
}
struct Plan { std::vector<std::pair<uint32_t, uint64_t>> cases; };
static Plan plan;

static void arm(double s)
{
    struct itimerval t;
    memset(&t, 0, sizeof t);
    t.it_value.tv_sec = (long)s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void on_prof(int) { _exit(97); }

// returns true if it failed
static bool run_one(uint32_t si, uint64_t idx)
{
    Suite& s = suites()[si];
    uint64_t seed = base_seed;
    for (unsigned char ch : s.name) seed = mix64(seed ^ ch);
    seed = mix64(seed + idx * 0x1234567ULL + 77);
    Case c(s.name.c_str(), idx, thorough, seed);
    cur = &c;
    sh->slot[my_slot].desc[0] = 0;
    sh->slot[my_slot].started = (uint64_t)time(nullptr);
    arm(cpu_limit);
    bool bad = false;
    std::string key, msg;
    try {
        s.fn(c);
    } catch (const Failure& f) {
        bad = true; key = f.key; msg = f.msg;
    } catch (const std::exception& e) {
        bad = true;
        int st;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        key = std::string("exception:") + (n ? n : "?");
        msg = e.what();
        free(n);
    } catch (...) {
        bad = true; key = "exception:unknown"; msg = "unknown exception";
    }
    arm(0);
    sh->st[si].cases++;
    sh->st[si].checks += c.checks;
    if (c.nontriv && c.checks) sh->st[si].nontrivial++;
    if (c.nontriv && c.checks) {
        uint64_t f = c.fp ? c.fp : c.seed;
        for (unsigned char ch : s.name) f = mix64(f ^ ch);
        put(fd_fp, std::string((char*)&f, 8));
    }
    if (idx < 2) put(fd_sample, "{\"suite\":" + jesc(s.name) + ",\"case\":" + std::to_string(idx) + ",\"input\":" + jesc(c.d) + ",\"checks\":" + std::to_string(c.checks) + "}\n");
    if (bad) record(s.name, idx, key, msg, c.d);
    cur = nullptr;
    return bad;
}
static void open_log(const std::string& log)
{
    int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
}
static void worker(int slot, int64_t solo)
{
    my_slot = slot;
    signal(SIGPROF, on_prof);
    std::string pre = out_dir + "/w" + std::to_string(slot);
    scratch = out_dir + "/scratch" + std::to_string(slot);
    mkdir(scratch.c_str(), 0755);
    fd_fp = open((pre + ".fp").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    fd_sample = open((pre + ".samples").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (solo >= 0) {
        sh->slot[slot].gid = solo + 1;
        run_one(plan.cases[solo].first, plan.cases[solo].second);
        sh->slot[slot].gid = 0;
    } else {
        uint64_t fails = 0;
        for (;;) {
            if (sh->stop) break;
            uint64_t g = sh->next++;
            if (g >= plan.cases.size()) break;
            if (budget && (uint64_t)time(nullptr) > t_start + budget && (!thorough || plan.cases[g].second >= suites()[plan.cases[g].first].quick)) { sh->skipped++; continue; }
            sh->slot[slot].gid = g + 1;
            if (run_one(plan.cases[g].first, plan.cases[g].second) && ++fails >= 25) { sh->slot[slot].gid = 0; sh->stop = 1; break; }
            sh->slot[slot].gid = 0;
        }
    }
    fflush(stdout);
    fflush(stderr);
    _exit(0);
}
} // namespace vf
using namespace vf;

static void usage() { fprintf(stderr, "usage: harness --out DIR [--seed N] [--tier quick|thorough] [--jobs N] [--suite S [--case I]] [--scale PCT] [--list]\n"); exit(2); }

int main(int argc, char** argv)
{
    std::string only;
    int64_t only_case = -1;
    int jobs = 8;
    uint64_t scale = 100;
    double wall_case = 400;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
        if (a == "--out") out_dir = val();
        else if (a == "--seed") base_seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--suite") only = val();
        else if (a == "--case") only_case = atoll(val().c_str());
        else if (a == "--scale") scale = strtoull(val().c_str(), 0, 10);
        else if (a == "--cpu") cpu_limit = atof(val().c_str());
        else if (a == "--budget") budget = strtoull(val().c_str(), 0, 10);
        else if (a == "--wall") wall_case = atof(val().c_str());
        else if (a == "--list") { for (auto& s : suites()) printf("%s %llu %llu\n", s.name.c_str(), (unsigned long long)s.quick, (unsigned long long)s.thorough); return 0; }
        else usage();
    }
    if (out_dir.empty()) usage();
    t_start = time(nullptr);
    std::sort(suites().begin(), suites().end(), [](const Suite& a, const Suite& b) { return a.name < b.name; });
    if (suites().size() > 4096) return 2;
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) return 2;
    // interleave suites so that slow ones do not end up at the tail
    std::vector<uint64_t> cnt(suites().size());
    uint64_t mx = 0;
    for (size_t i = 0; i < suites().size(); ++i) {
        uint64_t n = thorough ? suites()[i].thorough : suites()[i].quick;
        if (scale != 100 && n) n = std::max<uint64_t>(1, n * scale / 100);
        if (!only.empty() && suites()[i].name != only && !(only.back() == '*' && suites()[i].name.compare(0, only.size() - 1, only, 0, only.size() - 1) == 0)) n = 0;
        cnt[i] = n;
        mx = std::max(mx, n);
    }
    if (only_case >= 0) {
        for (size_t i = 0; i < cnt.size(); ++i) if (cnt[i]) plan.cases.push_back({(uint32_t)i, (uint64_t)only_case});
    } else {
        for (uint64_t k = 0; k < mx; ++k)
            for (size_t i = 0; i < cnt.size(); ++i)
                if (k < cnt[i]) plan.cases.push_back({(uint32_t)i, k});
    }
    fd_fail = open((out_dir + "/fails.jsonl").c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (fd_fail < 0) { perror("out dir"); return 2; }
    if (jobs > 60) jobs = 60;
    std::map<pid_t, int> slot_of;
    std::map<pid_t, int64_t> solo_of;
    std::vector<std::string> log_of(64);
    std::vector<int64_t> confirm; // cases to re-run alone after a hang
    int gen = 0, crashes = 0, hangs = 0, harness_err = 0;
    auto spawn = [&](int slot, int64_t solo) {
        std::string log = out_dir + "/log." + std::to_string(slot) + "." + std::to_string(gen++) + ".txt";
        pid_t p = fork();
        if (p < 0) { perror("fork"); exit(2); }
        if (p == 0) { open_log(log); worker(slot, solo); }
        slot_of[p] = slot;
        solo_of[p] = solo;
        log_of[slot] = log;
    };
    for (int i = 0; i < jobs && (size_t)i < std::max<size_t>(1, plan.cases.size()); ++i) spawn(i, -1);
    while (!slot_of.empty()) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p < 0) break;
        if (p == 0) {
            usleep(3000);
            uint64_t now = time(nullptr);
            for (auto& kv : slot_of) {
                Slot& s = sh->slot[kv.second];
                if (s.gid && s.started && now > s.started + (uint64_t)wall_case) kill(kv.first, SIGALRM); // reported as hang
            }
            continue;
        }
        auto it = slot_of.find(p);
        if (it == slot_of.end()) continue;
        int slot = it->second;
        int64_t solo = solo_of[p];
        slot_of.erase(it);
        solo_of.erase(p);
        uint64_t g = sh->slot[slot].gid;
        bool hang = (WIFEXITED(st) && WEXITSTATUS(st) == 97) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            if (solo >= 0 && !sh->stop) spawn(slot, -1);
            continue;
        }
        if (!g) { // died outside any case
            fprintf(stderr, "worker died outside a case, status %d, log %s\n", st, log_of[slot].c_str());
            harness_err++;
            if (harness_err > 3) break;
            spawn(slot, -1);
            continue;
        }
        auto pc = plan.cases[g - 1];
        const std::string& sn = suites()[pc.first].name;
        std::string d = sh->slot[slot].desc;
        sh->slot[slot].gid = 0;
        if (hang) {
            if (solo < 0) { spawn(slot, g - 1); continue; } // inconclusive: re-run once, alone in its process
            record(sn, pc.second, "hang", "no result within the CPU/wall limit, twice", d, log_of[slot]);
            ++hangs;
            sh->stop = 1;
            continue;
        }
        char m[100];
        if (WIFSIGNALED(st)) snprintf(m, sizeof m, "killed by signal %d", WTERMSIG(st));
        else snprintf(m, sizeof m, "exit status %d", WEXITSTATUS(st));
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // memory guard of the machine, not the code under test's own verdict: re-run once
            if (solo < 0) { spawn(slot, g - 1); continue; }
        }
        sh->st[pc.first].cases++;
        record(sn, pc.second, "crash", m, d, log_of[slot]);
        if (++crashes >= 16) sh->stop = 1;
        if (!sh->stop) spawn(slot, -1);
    }
    // summary
    std::set<uint64_t> fps;
    std::ostringstream samples;
    for (int i = 0; i < jobs; ++i) {
        std::ifstream f(out_dir + "/w" + std::to_string(i) + ".fp", std::ios::binary);
        uint64_t v;
        while (f.read((char*)&v, 8)) fps.insert(v);
        std::ifstream s(out_dir + "/w" + std::to_string(i) + ".samples");
        std::string line;
        while (std::getline(s, line)) samples << line << "\n";
    }
    std::ofstream so(out_dir + "/samples.jsonl");
    so << samples.str();
    std::ofstream o(out_dir + "/summary.json");
    o << "{\"distinct\":" << fps.size() << ",\"planned\":" << plan.cases.size() << ",\"skipped\":" << sh->skipped << ",\"crashes\":" << crashes << ",\"hangs\":" << hangs << ",\"stopped\":" << sh->stop << ",\"suites\":{";
    bool first = true;
    for (size_t i = 0; i < suites().size(); ++i) {
        if (!cnt[i]) continue;
        o << (first ? "" : ",") << jesc(suites()[i].name) << ":[" << sh->st[i].cases << "," << sh->st[i].checks << "," << sh->st[i].nontrivial << "]";
        first = false;
    }
    o << "}}\n";
    o.close();
    return harness_err ? 2 : 0;
}
