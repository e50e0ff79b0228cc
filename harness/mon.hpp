// Runtime monitor support: every oracle evaluation goes through Mon, which counts what was observed,
// remembers the distinct (abstracted) situations seen, and records violations with enough to replay them.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <random>
#include <functional>
#include <csignal>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

inline std::uint64_t mix64(std::uint64_t z) {
    z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
inline std::uint64_t hash_str(const std::string& s) {
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return mix64(h);
}

// Deterministic generator: the whole case is a function of (seed, group, case index).
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t x = 1) : s(mix64(x)) {}
    std::uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    std::uint64_t below(std::uint64_t n) { return n ? u64() % n : 0; }
    long long range(long long a, long long b) { return a + (long long)below((std::uint64_t)(b - a + 1)); }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

struct MonState { volatile unsigned long long idx; char group[64]; char what[1024]; };

class Mon {
public:
    std::string prop, tier, out; std::uint64_t seed = 1; double scale = 1; 
    std::string only_group; long long only_case = -1;
    std::string scratch;
    std::uint64_t evals = 0, cases = 0;
    std::map<std::string, std::uint64_t> per_rule;
private:
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, std::string> violations; // rule -> first occurrence (json)
    std::map<std::string, std::uint64_t> violation_counts;
    std::map<std::string, std::string> findings;
    MonState* st; MonState local;
    std::string group; std::uint64_t idx = 0;
    static MonState*& gst() { static MonState* p = nullptr; return p; }
    static void on_timeout(int) {
        const char m[] = "\nMON-TIMEOUT: case used up its CPU budget without finishing\n";
        ssize_t r = ::write(2, m, sizeof m - 1); (void)r;
        ::_exit(97);
    }
public:
    static Mon*& self() { static Mon* p = nullptr; return p; }
    Mon(int argc, char** argv) {
        self() = this;
        std::memset(&local, 0, sizeof local); st = &local;
        std::string state;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--prop") prop = v; else if (k == "--tier") tier = v; else if (k == "--out") out = v;
            else if (k == "--seed") seed = std::strtoull(v.c_str(), 0, 10);
            else if (k == "--scale") scale = std::atof(v.c_str());
            else if (k == "--group") only_group = v; else if (k == "--case") only_case = std::atoll(v.c_str());
            else if (k == "--state") state = v; else if (k == "--scratch") scratch = v;
        }
        if (!state.empty()) {
            int fd = ::open(state.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ::ftruncate(fd, sizeof(MonState)) == 0) {
                void* p = ::mmap(0, sizeof(MonState), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) st = (MonState*)p;
            }
        }
        struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_timeout; sigaction(SIGPROF, &sa, 0);
    }
    bool wants(const std::string& p) const { return prop == p; }
    void cpu_budget(int seconds) {
        struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &t, 0);
    }
    // Runs n cases of one group; every case gets its own generator.
    void run(const std::string& g, std::uint64_t n, const std::function<void(Rng&, std::uint64_t)>& body, int budget = 60) {
        if (!only_group.empty() && only_group != g) return;
        n = (std::uint64_t)(n * scale) + (n ? 1 : 0);
        std::uint64_t first = only_case >= 0 ? only_case : 0;
        if (only_case >= 0) n = first + 1;
        for (std::uint64_t i = first; i < n; ++i) {
            group = g; idx = i; st->idx = i; std::strncpy(st->group, g.c_str(), 63); st->what[0] = 0;
            Rng r(mix64(seed) ^ hash_str(g) ^ mix64(i + 77));
            if (budget) cpu_budget(budget);
            ++cases;
            try { body(r, i); }
            catch (const std::exception& e) { fail("unexpected-exception/" + g, std::string("escaped the workload: ") + e.what()); }
            catch (...) { fail("unexpected-exception/" + g, "escaped the workload: unknown type"); }
        }
        cpu_budget(0);
    }
    void note(const std::string& w) { std::strncpy(st->what, w.c_str(), sizeof(st->what) - 1); }
    // one oracle evaluation; cover: abstraction of the situation (what made this evaluation different)
    bool check(const std::string& rule, bool ok, const std::string& cover, const std::function<std::string()>& detail) {
        ++evals; ++per_rule[rule];
        distinct.insert(hash_str(rule + "|" + cover));
        if (per_rule[rule] <= 2 && samples.size() < 60) {
            std::string d = ok ? "" : detail();
            samples.push_back("{\"rule\":\"" + jesc(rule) + "\",\"group\":\"" + jesc(group) + "\",\"case\":" + std::to_string(idx) +
                ",\"situation\":\"" + jesc(cover.substr(0, 160)) + "\",\"held\":" + (ok ? "true" : "false") + "}");
        }
        if (!ok) fail(rule, detail());
        return ok;
    }
    void fail(const std::string& rule, const std::string& detail) {
        ++violation_counts[rule];
        if (violations.count(rule) || violations.size() > 40) return;
        violations[rule] = "{\"rule\":\"" + jesc(rule) + "\",\"group\":\"" + jesc(group) + "\",\"case\":" + std::to_string(idx) +
            ",\"detail\":\"" + jesc(detail.substr(0, 1500)) + "\"}";
    }
    // probe of a catalogued defect: present = the defective behaviour was observed
    void finding(const std::string& id, bool present, const std::string& detail) {
        ++evals; ++per_rule["finding-probe/" + id];
        if (present) findings[id] = detail;
    }
    int finish() {
        std::string j = "{\"prop\":\"" + prop + "\",\"evaluations\":" + std::to_string(evals) + ",\"cases\":" + std::to_string(cases) +
            ",\"distinct\":" + std::to_string(distinct.size()) + ",\"per_rule\":{";
        bool f = true;
        for (auto& p : per_rule) { if (!f) j += ","; f = false; j += "\"" + jesc(p.first) + "\":" + std::to_string(p.second); }
        j += "},\"samples\":["; f = true;
        for (auto& s : samples) { if (!f) j += ","; f = false; j += s; }
        j += "],\"violations\":["; f = true;
        for (auto& v : violations) { if (!f) j += ","; f = false; j += v.second; }
        j += "],\"violation_counts\":{"; f = true;
        for (auto& v : violation_counts) { if (!f) j += ","; f = false; j += "\"" + jesc(v.first) + "\":" + std::to_string(v.second); }
        j += "},\"findings\":{"; f = true;
        for (auto& v : findings) { if (!f) j += ","; f = false; j += "\"" + jesc(v.first) + "\":\"" + jesc(v.second) + "\""; }
        j += "}}\n";
        if (!out.empty()) { std::ofstream o(out, std::ios::binary); o << j; } else std::cout << j;
        return 0;
    }
};

template <class T> std::string str(const T& v) { std::ostringstream o; o.imbue(std::locale::classic()); o.precision(17); o << v; return o.str(); }
template <class A, class B> std::string exp_got(const A& e, const B& g) { return "expected " + str(e) + ", got " + str(g); }
#endif
