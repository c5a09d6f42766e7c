// Bounded exhaustive exploration harness: bookkeeping shared by all checks.
//
// A check program enumerates *scenarios* (one input, one configuration or one
// history of operations), executes the real code of /repo in each of them and
// compares what is observed with a reference model. This header keeps count of
// the distinct states visited, of the transitions (executed operations /
// evaluated obligations), records violations with a replayable scenario id,
// and leaves the id of the scenario under execution in a shared page, so that
// a crash or an abort is attributed to it by the driver.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

namespace mc {

struct violation { std::string key, scenario, detail; };

struct context {
    std::string out, only, prop;
    bool        thorough = false;
    uint64_t    seed = 1, shard = 0, shards = 1, seen = 0;
    std::unordered_set<uint64_t> states;
    uint64_t    transitions = 0, traces = 0, scenarios = 0, skipped = 0;
    std::map<std::string, uint64_t> counters;
    std::vector<violation> viols;
    std::map<std::string, int> perkey;
    std::vector<std::string> samples;
    char*       progress = nullptr;
    std::string current;
    int         real_stdout = 1;
};

inline context& ctx() { static context c; return c; }

inline uint64_t hash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}

inline bool thorough() { return ctx().thorough; }
inline bool quick() { return !ctx().thorough; }

inline std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

inline void init(int argc, char** argv)
{
    auto& c = ctx();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) c.out = argv[++i];
        else if (a == "--only" && i + 1 < argc) c.only = argv[++i];
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--shard" && i + 1 < argc) { std::string q = argv[++i]; c.shard = atoi(q.c_str()); c.shards = atoi(q.c_str() + q.find('/') + 1); }
        else if (a == "--seed" && i + 1 < argc) c.seed = strtoull(argv[++i], nullptr, 10);
    }
    std::string pg = c.out.empty() ? std::string("/dev/null") : c.out + ".progress";
    if (!c.out.empty()) {
        int fd = open(pg.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.progress = (char*)p;
            close(fd);
        }
        // Chatter of the code under test is of no interest: the verdict goes
        // through the --out file.
        if (!getenv("MC_VERBOSE")) {
            int dn = open("/dev/null", O_WRONLY);
            dup2(dn, 1);
            if (dn > 2) close(dn);
        }
    }
}

inline void mark(const std::string& s)
{
    auto& c = ctx();
    c.current = s;
    if (c.progress) {
        size_t n = std::min<size_t>(s.size(), 4090);
        memcpy(c.progress, s.data(), n);
        c.progress[n] = 0;
    }
}

// a distinct state of the explored space, identified by its fingerprint
inline bool state(const std::string& fp) { return ctx().states.insert(hash(fp)).second; }
inline void trans(uint64_t n = 1) { ctx().transitions += n; }
inline void trace(uint64_t n = 1) { ctx().traces += n; }
inline void count(const std::string& k, uint64_t n = 1) { ctx().counters[k] += n; }

inline void sample(const std::string& s)
{
    auto& c = ctx();
    if (c.samples.size() < 6) c.samples.push_back(s);
}

inline void fail(const std::string& key, const std::string& detail)
{
    auto& c = ctx();
    if (++c.perkey[key] > 3 && c.viols.size() > 40) return;
    if (c.perkey[key] > 25) return;
    c.viols.push_back({key, c.current, detail});
}

inline bool check(bool ok, const std::string& key, const std::string& detail = "")
{
    ctx().transitions++;
    if (!ok) fail(key, detail);
    return ok;
}

// |a-b| <= tol * max(1, scale). NaN fails.
template<typename T, typename U>
inline bool close_to(T a, U b, double tol, double scale = 1.0)
{
    double d = std::abs((double)a - (double)b);
    double s = std::max(1.0, std::abs(scale));
    return d <= tol * s;
}

template<typename T, typename U>
inline bool near(T a, U b, double tol, const std::string& key, const std::string& detail = "", double scale = 0.0)
{
    double s = scale == 0.0 ? std::max(std::abs((double)a), std::abs((double)b)) : scale;
    bool ok = close_to(a, b, tol, s);
    ctx().transitions++;
    if (!ok) {
        std::ostringstream os; os.precision(17);
        os << detail << " got " << (double)a << " expected " << (double)b << " tol " << tol;
        fail(key, os.str());
    }
    return ok;
}

template<typename... Ts>
inline std::string str(const Ts&... ts)
{
    std::ostringstream os; os.precision(12);
    (os << ... << ts);
    return os.str();
}

// Executes one scenario on the real code. Uncaught exceptions are violations.
template<typename F>
inline void scenario(const std::string& id, F&& f)
{
    auto& c = ctx();
    if (!c.only.empty() && c.only != id) { c.skipped++; return; }
    if (c.only.empty() && c.seen++ % c.shards != c.shard) { c.skipped++; return; }
    mark(id);
    c.scenarios++;
    state(id);
    trace();
    if (c.scenarios <= 3 || (c.scenarios & (c.scenarios - 1)) == 0) sample(id);
    try { f(); }
    catch (const std::exception& e) { fail("exception", std::string("unexpected exception: ") + e.what()); }
    catch (const char* e) { fail("exception", std::string("unexpected exception: ") + e); }
    catch (...) { fail("exception", "unexpected exception of unknown type"); }
    mark("(between scenarios)");
}

// Runs f in a child process with a CPU limit; returns: 0..125 exit status of
// f, -1 crashed by a signal (sig is set), -2 CPU limit exceeded (hang).
template<typename F>
inline int isolated(F&& f, int cpu_seconds, int* sig = nullptr, size_t mem_mb = 4096)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { fail("harness", "fork failed"); return 126; }
    if (p == 0) {
        struct rlimit rl; rl.rlim_cur = cpu_seconds; rl.rlim_max = cpu_seconds + 1;
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = mem_mb << 20;
        setrlimit(RLIMIT_AS, &rl);
        rl.rlim_cur = rl.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &rl);
        int r = 99;
        int dn = open("/dev/null", O_WRONLY);
        if (!getenv("MC_VERBOSE")) { dup2(dn, 2); dup2(dn, 1); }
        try { r = f(); } catch (...) { r = 98; }
        _exit(r);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(st)) return WEXITSTATUS(st);
    int s = WTERMSIG(st);
    if (sig) *sig = s;
    if (s == SIGXCPU || s == SIGKILL) return -2;
    return -1;
}

inline int finish()
{
    auto& c = ctx();
    mark("(finished)");
    std::ostringstream os;
    os << "{\"states\":" << c.states.size() << ",\"transitions\":" << c.transitions
       << ",\"traces\":" << c.traces << ",\"scenarios\":" << c.scenarios << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : c.counters) { os << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    os << "},\"samples\":[";
    first = true;
    for (auto& s : c.samples) { os << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
    os << "],\"violations\":[";
    first = true;
    for (auto& v : c.viols) {
        os << (first ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"scenario\":\"" << jesc(v.scenario)
           << "\",\"detail\":\"" << jesc(v.detail) << "\"}";
        first = false;
    }
    os << "]}\n";
    if (!c.out.empty()) {
        FILE* f = fopen((c.out + ".tmp").c_str(), "w");
        if (!f) return 3;
        fputs(os.str().c_str(), f);
        fclose(f);
        rename((c.out + ".tmp").c_str(), c.out.c_str());
    } else {
        fputs(os.str().c_str(), stdout);
    }
    return 0;
}

} // namespace mc
