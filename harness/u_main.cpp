// P16: what a program observes does not depend on the source file the library is used from, the order of the headers, the compiler,
// the optimisation or whether assertions are on. Every build is a library of its own, loaded here with its symbols kept apart.
#include "fitsgen.hpp"
#include <dlfcn.h>
#include <algorithm>
typedef std::string S; typedef void (*job_t)(int, std::uint64_t, const fg::file*, const char*, const char*, std::string*); typedef void (*step_t)(int, void**, const fg::file*, const char*, std::string*);
struct unit { S name; int no; void* lib; job_t job; step_t step; };
static S brief(const S& a, const S& b) { std::size_t p = 0; while (p < a.size() && p < b.size() && a[p] == b[p]) ++p; return "..." + a.substr(p > 20 ? p - 20 : 0, 90); }
// numbers of the same segment are compared on the scale of the largest of them; angles and hours may be a turn apart
static bool alike(const S& a, const S& b) {
    if (a == b) return true; std::size_t i = 0, j = 0; auto seg = [](const S& s, std::size_t& p) { std::size_t e = s.find(';', p); S t = s.substr(p, e == S::npos ? e : e - p); p = e == S::npos ? s.size() : e + 1; return t; };
    while (i < a.size() || j < b.size()) { S x = seg(a, i), y = seg(b, j); if (x == y) continue; S tx, ty; auto nums = [](const S& s, S& text) { std::vector<double> v; const char* p = s.c_str(); while (*p) { char* e; bool start = std::isdigit((unsigned char)*p) || ((*p == '-' || *p == '+') && (std::isdigit((unsigned char)p[1]))); if (start) { v.push_back(std::strtod(p, &e)); p = e; text += '#'; } else text += *p++; } return v; };
        auto u = nums(x, tx), w = nums(y, ty); if (tx != ty || u.size() != w.size()) return false; double big = 0; for (double q : u) big = std::max(big, std::fabs(q)); for (std::size_t k = 0; k < u.size(); ++k) { double d = std::fabs(u[k] - w[k]), tol = 1e-6 * big + 1e-300; bool turn = false; for (double t : {24.0, 360.0, 2 * M_PI}) turn |= std::fabs(d - t) < 1e-6; if (d > tol && !turn) return false; } }
    return true;
}
int main(int argc, char** argv) {
    Mon m(argc, argv); std::vector<unit> us; S libs; for (int i = 1; i + 1 < argc; i += 2) if (S(argv[i]) == "--libs") libs = argv[i + 1];
    for (std::size_t p = 0; p < libs.size();) { std::size_t e = std::min(libs.find(',', p), libs.size()); S one = libs.substr(p, e - p); p = e + 1; std::size_t q = one.find('='); void* l = dlopen(one.substr(q + 1).c_str(), RTLD_NOW | RTLD_LOCAL); if (!l) { std::fprintf(stderr, "%s\n", dlerror()); return 3; }
        for (int k = 1; k <= 3; ++k) { auto j = (job_t)dlsym(l, ("job_" + std::to_string(k)).c_str()); auto s = (step_t)dlsym(l, ("step_" + std::to_string(k)).c_str()); if (j && s) us.push_back({one.substr(0, q) + "/" + std::to_string(k), k, l, j, s}); } }
    if (us.size() < 3) return 3;
    static const char* names[] = {"files", "cards", "coordinates"}; S in = m.scratch + "/in.fits", out = m.scratch + "/out.fits";
    for (int kind = 0; kind < 3; ++kind) m.run(names[kind], kind == 2 ? 600 : 200, [&](Rng& r, std::uint64_t) {
        fg::file f; fg::opts o; o.max_ext = 3; o.names = r.chance(.7); if (kind == 0) { f = fg::make_file(r, o); fg::dump(in, f.bytes); } std::uint64_t key = r.u64(); std::size_t first = r.below(us.size()); S ref;
        for (std::size_t k = 0; k < us.size(); ++k) { unit& u = us[(first + k) % us.size()]; S got; m.note(u.name); u.job(kind, key, &f, in.c_str(), out.c_str(), &got); if (!k) { ref = got; continue; }
            m.check(S("same-result-in-every-build/") + names[kind], kind == 2 ? alike(ref, got) : ref == got, us[first].name + u.name, [&] { return u.name + " gives " + brief(got, ref) + " where " + us[first].name + " gives " + brief(ref, got); }); }
    });
    std::vector<unit> prog; for (auto& u : us) if (u.lib == us[0].lib) prog.push_back(u);
    m.run("shared-work", 200, [&](Rng& r, std::uint64_t) {      // one program: what one of its source files began another goes on with
        fg::opts o; o.max_ext = 3; fg::file f = fg::make_file(r, o); fg::dump(in, f.bytes); auto work = [&](bool mixed) { S d, c; void* p = 0; std::size_t k = r.below(prog.size()); c += std::to_string(prog[k].no); prog[k].step(0, &p, &f, in.c_str(), &d); for (int s = 1; p && s <= 4; ++s) { if (mixed) k = r.below(prog.size()); c += std::to_string(prog[k].no); prog[k].step(s, &p, &f, out.c_str(), &d); } return std::make_pair(d, c); };
        auto ref = work(false); for (int i = 0; i < 3; ++i) { auto got = work(true); m.check("work-shared-between-source-files", got.first == ref.first, got.second, [&] { return "source files " + got.second + " give " + brief(got.first, ref.first) + " where " + ref.second + " gives " + brief(ref.first, got.first); }); } });
    return m.finish();
}
