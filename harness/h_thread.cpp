// P14: threads working on their own objects, or only reading common ones, never race and get the results they get alone.
// Deciding oracles: the race detector this is compiled with, and the comparison of every result with the one computed alone.
#include "jobs2.hpp"
#include <thread>
#include <atomic>
// values common to all threads, read only (a card remembers the last conversion asked of it, sharing one is the user's affair)
struct common { C a; SP b; E e; };
static S read_job(const common& k) { S d; d += v17(vec(SP(k.a))) + v17(vec(C(k.b))) + v17(vec(bc::sum(k.a, k.e))) + str(bc::dot(k.b, k.e).value()) + str(k.a == k.b) + rawpt(bc::cross(k.a, k.b)); return d; }
static std::string dir(Mon& m, int t) { return m.scratch + "/t" + std::to_string(t); }
int main(int argc, char** argv) {
    Mon m(argc, argv); const int N = 4; std::map<S, unsigned> orders;
    m.run("threads", 120, [&](Rng& r, std::uint64_t) {
        std::vector<fg::file> files(N); std::uint64_t base = r.u64(); bool same = r.chance(.3); common k; fg::opts o; o.max_ext = 3;
        for (int t = 0; t < N; ++t) { if (same && t) files[t] = files[0]; else { Rng q(base + t); files[t] = fg::make_file(q, o); } fg::dump(dir(m, t) + ".in", files[t].bytes); }
        S cc; k.a = gen<C>(r, cc, true); k.b = gen<SP>(r, cc, true); k.e = gen<E>(r, cc, true);
        std::vector<std::vector<int>> plan(N); for (auto& p : plan) for (int i = 0; i < 6; ++i) p.push_back((int)r.below(6));
        auto job = [&](int t, int i, int kind) -> S { Rng q(base * 31 + (same ? 0 : t) * 1000 + i); switch (kind) { case 0: return file_job(files[t], dir(m, t) + ".in", dir(m, t) + ".out"); case 1: return card_job(q); case 2: return coord_job(q); case 3: return read_job(k); case 4: return sky_job(q); default: return odd_job(files[t], dir(m, t) + ".in", dir(m, t) + ".odd", q); } };
        std::vector<std::vector<S>> alone(N, std::vector<S>(6)), got = alone; std::vector<std::vector<unsigned>> when(N, std::vector<unsigned>(6));
        // the threads go first: whatever is set up on first use is set up by several threads at once
        std::atomic<int> ready(0); std::atomic<unsigned> clock(0); std::vector<std::thread> ts;
        for (int t = 0; t < N; ++t) ts.emplace_back([&, t] { ++ready; while (ready < N) std::this_thread::yield(); for (int i = 0; i < 6; ++i) { when[t][i] = clock++; try { got[t][i] = job(t, i, plan[t][i]); } catch (const std::exception& e) { got[t][i] = S("exception ") + e.what(); } if ((base >> (i + t)) & 1) std::this_thread::yield(); } });
        for (auto& t : ts) t.join();
        for (int t = 0; t < N; ++t) for (int i = 0; i < 6; ++i) { try { alone[t][i] = job(t, i, plan[t][i]); } catch (const std::exception& e) { alone[t][i] = S("exception ") + e.what(); } }
        // the order in which the jobs of the threads began: the interleavings seen
        std::vector<std::pair<unsigned, int>> w; for (int t = 0; t < N; ++t) for (int i = 0; i < 6; ++i) w.push_back({when[t][i], t}); std::sort(w.begin(), w.end()); S ord; for (auto& x : w) ord += (char)('0' + x.second);
        static const char* names[] = {"files", "cards", "coordinates", "shared-reading", "sky", "odd"};
        for (int t = 0; t < N; ++t) for (int i = 0; i < 6; ++i) m.check(S("same-result-as-alone/") + names[plan[t][i]], got[t][i] == alone[t][i], ord + (same ? "s" : "d"), [&] { std::size_t p = 0; while (p < got[t][i].size() && p < alone[t][i].size() && got[t][i][p] == alone[t][i][p]) ++p; return "thread " + fg::num(t) + " got ..." + got[t][i].substr(p > 10 ? p - 10 : 0, 80) + " instead of ..." + alone[t][i].substr(p > 10 ? p - 10 : 0, 80); });
    }, 120);
    return m.finish();
}
