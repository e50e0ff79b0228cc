// P15: the same input gives the same result whatever surrounds it: locale, time zone, working directory, what ran before, what memory held.
#include "jobs2.hpp"
#include <clocale>
#include <locale>
#include <ctime>
struct punct : std::numpunct<char> { char d, t; S g; bool words; punct(char a, char b, S c, bool w) : d(a), t(b), g(c), words(w) {}
    char do_decimal_point() const override { return d; } char do_thousands_sep() const override { return t; } S do_grouping() const override { return g; } S do_truename() const override { return words ? "wahr" : "true"; } S do_falsename() const override { return words ? "falsch" : "false"; } };
static const std::vector<std::locale>& locales() { static std::vector<std::locale> v; if (v.empty()) for (auto& p : std::vector<punct*>{new punct(',', '.', "\3", false), new punct('.', ',', "\3", true), new punct(',', ' ', "\3\2", true), new punct('.', '\'', "\3", false), new punct('/', '.', "", true), new punct('E', '-', "\4", false)}) v.push_back(std::locale(std::locale::classic(), p)); return v; }
struct surroundings { // restored when left
    std::locale old; S tz; surroundings() : old(std::locale()) {}
    ~surroundings() { std::locale::global(old); std::setlocale(LC_ALL, "C"); setenv("TZ", "UTC", 1); tzset(); }
};
static void zone(const char* z) { setenv("TZ", z, 1); tzset(); }
static void scribble(Rng& r) { // leave marks on the stack and in freed memory
    volatile unsigned char junk[20000]; unsigned char c = (unsigned char)r.u64(); for (auto& x : junk) x = c; std::vector<std::unique_ptr<char[]>> v; for (int i = 0; i < 200; ++i) { std::size_t n = 1 + r.below(r.chance(.1) ? 20000 : 400); v.emplace_back(new char[n]); std::memset(v.back().get(), c, n); }
}
// real locales, compiled into the scratch directory (none where that is not possible)
static const std::vector<S>& real_locales(Mon& m) {
    static std::vector<S> v; static bool done = false; if (done) return v; done = true; S dir = m.scratch + "/locales"; setenv("LOCPATH", dir.c_str(), 1); int rc = std::system(("mkdir -p '" + dir + "'").c_str()); (void)rc;
    for (S n : {"de_DE", "tr_TR"}) { rc = std::system(("localedef -i " + n + " -f UTF-8 '" + dir + "/" + n + ".utf8' >/dev/null 2>&1").c_str()); if (std::setlocale(LC_ALL, (n + ".utf8").c_str())) v.push_back(n + ".utf8"); } std::setlocale(LC_ALL, "C"); return v;
}
// many similar questions: each answer is the same in whatever order and however often they are asked
static void questions(Mon& m, Rng& r) {
    typedef std::pair<const char*, std::function<S()>> Q; std::vector<Q> q; namespace bt = boost::astronomy::time; using boost::gregorian::date; using boost::posix_time::ptime; auto add = [&](const char* n, std::function<S()> f) { q.emplace_back(n, [f] { S d; part(d, f); return d; }); };
    date d0((int)r.range(1600, 2400), r.chance(.5) ? 12 : (int)r.range(1, 12), (int)r.range(1, 28)); if (r.chance(.6)) d0 = d0.end_of_month(); if (r.chance(.3)) d0 = date((int)r.range(400, 600) * 4, 12, 31);
    for (date d : {d0, d0 + boost::gregorian::days(1), d0 - boost::gregorian::days(1), d0 + boost::gregorian::days(30), d0 + boost::gregorian::days(31), d0 + boost::gregorian::days(365), d0 + boost::gregorian::days(366), d0 + boost::gregorian::days(1461)}) for (int h : {0, 12}) { ptime t(d, boost::posix_time::hours(h)); add("julian-date", [t] { return str(bt::julian_date(t)); }); add("sidereal-time", [t] { return str(bt::GST(t).get()); }); if (!h) add("obliquity", [d] { return str(bc::obliquity_of_ecliptic(d).get().value()); }); double lg = r.chance(.3) ? 15 : r.real(-180, 180); add("local-sidereal-time", [t, lg] { return str(bt::LST(lg, bt::DIRECTION::EAST, t).get()) + str(bt::LST(lg, bt::DIRECTION::WEST, t).get()); }); }
    S c; double base[3] = {r.real(-80, 80), r.real(0, 360), r.real(1, 100)}; for (int k = 0; k < 6; ++k) { double x[3] = {base[0], base[1], base[2]}; if (k) x[k % 3] += k > 3 ? 1 : r.real(.001, 1); SP a(from_deg<Qd>(x[0]), from_deg<Qr>(x[1]), Qm::from_value(x[2])); SP b0(from_deg<Qd>(base[0]), from_deg<Qr>(base[1]), Qm::from_value(base[2]));
        add("convert", [a] { return v17(vec(C(a))) + v17(vec(E(a))); }); add("there-and-back", [a] { return v17(vec(SP(C(a)))); }); add("arithmetic", [a, b0] { return v17(vec(bc::sum(a, b0))) + str(bc::dot(a, b0).value()) + rawpt(bc::cross(a, b0)) + str(bc::magnitude(a).value()); });
        add("motion", [x] { SD s(from_deg<Qr>(x[0]), from_deg<Qr>(x[1]), Vm::from_value(x[2])); return v17(vec(CD(s))) + v17(vec(KD(s))) + v17(vec(SD(CD(s)))); });
        add("rotation", [x] { auto h = bc::ha_dec_horizon<double, Qd, double>(Qd::from_value(x[0])).get(); auto t = bc::ha_dec_ra_dec<double, Qd, double>(Qd::from_value(x[1])).get(); auto e = bc::ra_dec_to_ecliptic<double, Qd, double>(Qd::from_value(x[2])).get(); S d; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d += str(h(i, j)) + str(t(i, j)) + str(e(i, j)); return d; });
        add("separation", [a, b0] { typedef bc::icrs<SP, bc::spherical_coslat_differential<double, Qd, Qr, Vm>> F; bc::sky_point<F> p(F(a, bc::spherical_coslat_differential<double, Qd, Qr, Vm>())), o(F(b0, bc::spherical_coslat_differential<double, Qd, Qr, Vm>())); return str(p.separation(o).value()) + str(p.positional_angle(o).value()); }); }
    long n = (long)r.below(100000); for (S t : {std::to_string(n), std::to_string(n) + ".", std::to_string(n) + ".5", std::to_string(n) + "E1", std::to_string(n) + "D1", "-" + std::to_string(n), "x" + std::to_string(n), S("1E999"), S(), S("T"), "'" + std::to_string(n) + "'", "(" + std::to_string(n) + ", 2)"}) {
        add("number", [t] { S d; part(d, [&] { return cell(io::ascii_converter::deserialize_to<double>(t, 0)); }); part(d, [&] { return cell(io::ascii_converter::deserialize_to<int>(t, 0)); }); part(d, [&] { return cell(io::ascii_converter::deserialize_to<float>(t, 0)); }); part(d, [&] { return io::ascii_converter::deserialize_to<S>(t, 0); }); return d; });
        add("card", [t] { S w = "KEY     = " + t; w.resize(80, ' '); card_t k(w); S d; part(d, [&] { return cell(k.value<double>()); }); part(d, [&] { return cell(k.value<long long>()); }); part(d, [&] { return k.value<S>(); }); part(d, [&] { return cell(k.value<bool>()); }); part(d, [&] { return cell(k.value<std::complex<double>>()); }); return d + k.keyword() + k.raw_card(); });
        add("text", [n] { return io::ascii_converter::serialize((double)n / 7) + io::ascii_converter::serialize((int)n) + io::ascii_converter::serialize((float)n); });
        add("creation", [t] { card_t k; k.create_card("K" + std::to_string(t.size()), t, "c"); return k.raw_card() + k.value<S>(); }); }
    std::vector<S> ref; for (auto& f : q) ref.push_back(f.second()); std::vector<std::size_t> o; for (std::size_t i = 0; i < q.size(); ++i) o.push_back(i);
    for (int round = 0; round < 4; ++round) { if (round == 1) std::reverse(o.begin(), o.end()); else if (round) for (std::size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]); if (round == 3) { auto copy = o; o.clear(); for (auto i : copy) { o.push_back(i); o.push_back(i); } }
        S before = "the start"; for (auto i : o) { S got = q[i].second(); m.check(S("same-answer-in-any-order/") + q[i].first, got == ref[i], std::to_string(round) + before, [&] { return got + " after " + before + " instead of " + ref[i]; }); before = q[i].first; } }
}
int main(int argc, char** argv) {
    Mon m(argc, argv); setenv("TZ", "UTC", 1); tzset();
    m.run("surroundings", 400, [&](Rng& r, std::uint64_t) {
        fg::opts o; o.max_ext = 3; o.names = r.chance(.7); fg::file f = fg::make_file(r, o), g = fg::make_file(r, o); S in = m.scratch + "/in.fits", out = m.scratch + "/out.fits", gin = m.scratch + "/gin.fits"; fg::dump(in, f.bytes); fg::dump(gin, g.bytes); std::uint64_t key = r.u64(); int kind = (int)r.below(5);
        static const char* names[] = {"files", "cards", "coordinates", "sky", "odd"}; bool relative = false;
        auto job = [&](int k) -> S { Rng q(key); switch (k) { case 0: return file_job(f, relative ? "in.fits" : in, relative ? "out.fits" : out); case 1: return card_job(q); case 2: return coord_job(q); case 3: return sky_job(q); default: return odd_job(f, relative ? "in.fits" : in, relative ? "odd.fits" : m.scratch + "/odd.fits", q); } };
        m.note(S("alone ") + names[kind]); S ref = job(kind);
        for (int way = 0; way < 8; ++way) {
            surroundings back; S what;
            switch (way) {
            case 0: { std::size_t n = r.below(locales().size()); std::locale::global(locales()[n]); what = "locale " + std::to_string(n); break; }
            case 1: { static const char* cl[] = {"C.utf8", "POSIX", ""}; auto& real = real_locales(m); int n = (int)r.below(3); if (!real.empty() && r.chance(.8)) { S l = real[r.below(real.size())]; std::setlocale(LC_ALL, l.c_str()); what = "C locale " + l; } else { std::setlocale(LC_ALL, cl[n]); what = "C locale " + std::to_string(n); } break; }
            case 7: { auto& real = real_locales(m); if (real.empty()) continue; S l = real[r.below(real.size())]; std::locale::global(std::locale(l.c_str())); what = "locale " + l; break; }
            case 2: { static const char* z[] = {"XYZ-14", "ABC+12", "America/New_York", "Asia/Kolkata", "EST5EDT"}; int n = (int)r.below(5); zone(z[n]); what = S("zone ") + z[n]; break; }
            case 3: { scribble(r); what = "memory"; break; }
            case 4: { int n = (int)r.range(1, 4); for (int i = 0; i < n; ++i) { Rng q(r.u64()); int k = (int)r.below(5); what += S("after ") + names[k] + " "; if (k == 0) file_job(g, gin, m.scratch + "/gout.fits"); else if (k == 1) card_job(q); else if (k == 2) coord_job(q); else if (k == 3) sky_job(q); else odd_job(g, gin, m.scratch + "/godd.fits", q); } break; }
            case 5: { char was[4096]; if (!getcwd(was, sizeof was) || chdir(m.scratch.c_str()) != 0) break; relative = true; S got = job(kind); relative = false; int rc = chdir(was); (void)rc; m.check(S("same-result/") + names[kind], got == ref, "relative path", [&] { return S("relative path"); }); continue; }
            default: { scribble(r); std::locale::global(locales()[r.below(locales().size())]); zone("ABC+12"); what = "all"; }
            }
            m.note(names[kind] + S(" ") + what); S got; try { got = job(kind); } catch (const std::exception& e) { got = S("exception ") + e.what(); }
            m.check(S("same-result/") + names[kind], got == ref, what, [&] { std::size_t p = 0; while (p < got.size() && p < ref.size() && got[p] == ref[p]) ++p; return what + ": ..." + got.substr(p > 30 ? p - 30 : 0, 110) + " instead of ..." + ref.substr(p > 30 ? p - 30 : 0, 110); });
        }
    }, 120);
    m.run("questions", 400, [&](Rng& r, std::uint64_t) { questions(m, r); });
    return m.finish();
}
