// P26 Julian date, P27 sidereal time and decimal hours, P28 units of length, P29 printed forms.
#include "coordgen.hpp"
#include <boost/astronomy/time/time_conversions.hpp>
#include <boost/astronomy/time/parser.hpp>
#include <boost/astronomy/units/length.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
namespace bt = boost::astronomy::time; namespace au = boost::astronomy::units; using boost::gregorian::date; using boost::posix_time::ptime;
// day numbers by integer arithmetic, in the calendar in use on that day
static double jd0(int y, int m, int d) { bool greg = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15))); long a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; long n = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4; n += greg ? -yy / 100 + yy / 400 - 32045 : -32083; return n - 0.5; }
static bool gap(int y, int m, int d) { return y == 1582 && m == 10 && d > 4 && d < 15; }        // days that did not exist
static ptime tod(date d, Rng& r) { switch (r.below(5)) { case 0: return ptime(d); case 1: return ptime(d, boost::posix_time::microseconds(86399999999ll)); case 2: return ptime(d, boost::posix_time::seconds((long)r.below(86400))); default: return ptime(d, boost::posix_time::microseconds((long long)r.below(86400000000ull))); } }
static date any_date(Rng& r) { return r.chance(.1) ? date((int)r.range(1581, 1584), (int)r.range(1, 12), (int)r.range(1, 28)) : r.chance(.5) ? date((int)r.range(1900, 2100), (int)r.range(1, 12), (int)r.range(1, 28)) : date((int)r.range(1400, 9999), (int)r.range(1, 12), (int)r.range(1, 28)); }
static void years(Mon& m, Rng& r, int y0, int n) {
    double prev = 0; bool have = false;
    for (int y = y0; y < y0 + n && y <= 9999; ++y) for (int mo = 1; mo <= 12; ++mo) { int last = boost::gregorian::gregorian_calendar::end_of_month_day(y, mo); for (int d = 1; d <= last; ++d) {
        if (gap(y, mo, d)) continue; ptime t = tod(date(y, mo, d), r); double j = bt::julian_date(t), w = jd0(y, mo, d); S c = std::to_string(y / 100) + "." + std::to_string(mo) + (d == last ? "last" : d == 1 ? "first" : "");
        m.check("day-number", j == w, c, [&] { return boost::posix_time::to_simple_string(t) + ": " + str(j) + " instead of " + str(w); });
        if (y < 1582 && mo == 2 && d == 28 && y % 4 == 0 && y % 100 == 0) have = false;     // 29 February of the Julian calendar, which the date type cannot name
        else { if (have) m.check("next-day-is-one-more", j == prev + 1, c, [&] { return boost::posix_time::to_simple_string(t) + ": " + str(prev) + " then " + str(j); }); have = true; } prev = j; } }
}
static L wrap24(L h) { h = fmodl(h, 24); return h < 0 ? h + 24 : h; }
static L hdiff(L a, L b) { L d = fabsl(wrap24(a) - wrap24(b)); return d > 12 ? 24 - d : d; }
static L ut(ptime t) { return (L)t.time_of_day().total_microseconds() / 3600e6L; }
static L meeus(ptime t, L& tol) { date d = t.date(); L j = jd0(d.year(), d.month(), d.day()) + ut(t) / 24, T = (j - 2451545.0L) / 36525; tol = 1e-7L + 1.2e-6L * fabsl(T) + 1.1L * fabsl(T * T * T) / 38710000 / 15; return (280.46061837L + 360.98564736629L * (j - 2451545.0L) + 0.000387933L * T * T - T * T * T / 38710000) / 15; }
// day after day, forwards or backwards, as a program that prints an almanac asks
static void almanac(Mon& m, Rng& r) {
    bool up = r.chance(.5); date d((int)r.range(1405, 9990), up ? 10 : 3, 1); int n = (int)r.range(150, 500), step = r.chance(.7) ? 1 : (int)r.range(2, 40); bool noon = r.chance(.5);
    for (int i = 0; i < n; i += step) { if (!gap(d.year(), d.month(), d.day())) { ptime t(d, boost::posix_time::hours(noon ? 12 : 0)); double g = bt::GST(t).get(); L tol, w = meeus(t, tol); m.check("gst-day-after-day", hdiff(g, w) <= tol, (up ? "+" : "-") + std::to_string(step) + (d.day_of_year() == 1 ? "first" : d.day_of_year() == 366 ? "leap" : ""), [&] { return boost::posix_time::to_simple_string(t) + ": " + str(g) + " h instead of " + str((double)wrap24(w)); }); } d += boost::gregorian::days(up ? step : -step); }
}
static void sidereal(Mon& m, Rng& r) {
    date d = any_date(r); { int k = (int)r.range(0, 3); if (d.year() < 9990) d += boost::gregorian::days(k); } if (gap(d.year(), d.month(), d.day())) return; ptime t = tod(d, r); S in = boost::posix_time::to_simple_string(t), c = std::to_string(d.year() / 200) + "." + std::to_string(d.month()) + (t.time_of_day().fractional_seconds() ? "f" : ""); double g = bt::GST(t).get(); L tol, w = meeus(t, tol); m.note(in);
    m.check("gst", hdiff(g, w) <= tol, c, [&] { return in + ": " + str(g) + " h instead of " + str((double)wrap24(w)); }); m.check("gst-range", g >= 0 && g <= 24, c, [&] { return in + ": " + str(g); });
    // the sidereal clock runs at 1.002737909 of the civil one
    ptime t2 = ptime(d, boost::posix_time::microseconds((long long)r.below(86400000000ull))); L dt = ut(t2) - ut(t); m.check("gst-rate", hdiff(bt::GST(t2).get(), g + dt * 1.00273790935L) <= 3e-8L, c, [&] { return in + " and " + boost::posix_time::to_simple_string(t2); });
    S cl; double lg = r.chance(.1) ? 0 : r.chance(.2) ? (double)(15 * r.range(-24, 24)) : r.chance(.05) ? r.real(-3000, 3000) : r.real(-180, 360); bool west = r.chance(.5); double l = bt::LST(lg, west ? bt::DIRECTION::WEST : bt::DIRECTION::EAST, t).get(); L e = g + (west ? -1 : 1) * (L)lg / 15; S cc = c + (west ? "W" : "E") + (lg == 0 ? "0" : lg < 0 ? "-" : "+");
    m.check("lst", hdiff(l, e) <= 1e-9L, cc + (std::fabs(lg) > 360 ? "turns" : ""), [&] { return in + " at " + str(lg) + (west ? "W" : "E") + ": " + str(l) + " instead of " + str((double)wrap24(e)); }); m.check("lst-range", l >= 0 && l <= 24, cc, [&] { return in + " at " + str(lg) + ": " + str(l); });
    // a point half a turn away is 12 sidereal hours apart; the same meridian named from the other side has the same time
    double o = bt::LST(360 - lg, west ? bt::DIRECTION::EAST : bt::DIRECTION::WEST, t).get(); m.check("lst-same-meridian", hdiff(l, o) <= 1e-9L, cc, [&] { return in + " at " + str(lg) + ": " + str(l) + " and " + str(o); });
}
static void hours(Mon& m, Rng& r) {
    auto judge = [&](const decimal_hour& h, L v, const S& c) { L back = (L)h.get_hours() + (L)h.get_minutes() / 60 + (L)h.get_seconds() / 3600; m.check("value-kept", fabsl(h.get() - v) <= 1e-12L * (1 + fabsl(v)), c, [&] { return str((double)v) + " -> " + str(h.get()); }); m.check("parts-add-up", fabsl(back - v) <= 1e-11L * (1 + fabsl(v)), c, [&] { return str((double)v) + " -> " + std::to_string(h.get_hours()) + " " + std::to_string(h.get_minutes()) + " " + str(h.get_seconds()); });
        m.check("parts-in-range", std::labs(h.get_minutes()) < 60 && std::fabs(h.get_seconds()) <= 60 && (v < 0 ? h.get_hours() <= 0 && h.get_minutes() <= 0 && h.get_seconds() <= 0 : h.get_hours() >= 0 && h.get_minutes() >= 0 && h.get_seconds() >= 0), c, [&] { return str((double)v) + " -> " + std::to_string(h.get_hours()) + " " + std::to_string(h.get_minutes()) + " " + str(h.get_seconds()); });
        std::ostringstream o; o << h; long a = 0, b = 0; double s = -1; m.check("printed-parts", std::sscanf(o.str().c_str(), "Hours: %ldh %ldm %lfs", &a, &b, &s) == 3 && a == h.get_hours() && b == h.get_minutes() && std::fabs(s - h.get_seconds()) < 1e-5, c, [&] { return o.str(); }); };
    double d = r.chance(.2) ? (double)r.range(-30, 30) : r.chance(.2) ? r.range(-2000, 2000) / 60.0 : r.real(-30, 30); judge(decimal_hour(d), d, d < 0 ? "neg" : d == std::floor(d) ? "whole" : "pos");
    int h = (int)r.range(0, 23), mi = (int)r.range(0, 59); double s = r.chance(.2) ? 0 : r.chance(.2) ? 59.999 : r.real(0, 59.99); decimal_hour x(h, mi, s); judge(x, h + mi / 60.0L + s / 3600.0L, "hms"); L tot = x.get_hours() * 3600.0L + x.get_minutes() * 60 + x.get_seconds(); m.check("hms-read-back", fabsl(tot - (h * 3600.0L + mi * 60 + s)) <= 1e-8L, "hms", [&] { return std::to_string(h) + " " + std::to_string(mi) + " " + str(s); });
}
// ---- P28
template <class U> struct un { static L metres; static S name; };
static const L c_ = 299792458.0L, au_ = 149597870700.0L;
// digits of the constants in use: astronomical unit and parsec have ten, the others are exact
static L prec(L fa, L fb) { L e = 1e-12L; for (L f : {fa, fb}) if (f == au_ || f == au_ * 648000 / PIl) e = 2e-10L; return e; }
template <class A, class B> void uconv(Mon& m, Rng& r, L fa, L fb, const S& n) { double x = r.chance(.1) ? 0 : coord(r); bu::quantity<A> a = x * A(); bu::quantity<B> b(a); L w = (L)x * fa / fb; m.check("length/" + n, fabsl(b.value() - w) <= prec(fa, fb) * fabsl(w), x < 0 ? "neg" : x == 0 ? "zero" : "pos", [&] { return str(x) + " is " + str(b.value()) + " instead of " + str((double)w); }); bu::quantity<A> back(b); m.check("length-round-trip/" + n, std::fabs(back.value() - x) <= 1e-12 * std::fabs(x), x < 0 ? "neg" : "pos", [&] { return str(x) + " came back as " + str(back.value()); }); }
template <class A> void uall(Mon& m, Rng& r, L f, const S& n) { uconv<A, au::length_meter>(m, r, f, 1, n + ">m"); uconv<A, au::length_centimeter>(m, r, f, .01L, n + ">cm"); uconv<A, au::length_astronomical_unit>(m, r, f, au_, n + ">au"); uconv<A, au::length_parsec>(m, r, f, au_ * 648000 / PIl, n + ">pc"); uconv<A, au::length_light_year>(m, r, f, c_ * 31557600, n + ">ly"); uconv<A, au::length_light_day>(m, r, f, c_ * 86400, n + ">ld"); uconv<A, au::length_light_hour>(m, r, f, c_ * 3600, n + ">lh"); uconv<A, au::length_light_minute>(m, r, f, c_ * 60, n + ">lm"); uconv<A, au::length_light_second>(m, r, f, c_, n + ">ls"); }
static void lengths(Mon& m, Rng& r) { uall<au::length_meter>(m, r, 1, "m"); uall<au::length_centimeter>(m, r, .01L, "cm"); uall<au::length_astronomical_unit>(m, r, au_, "au"); uall<au::length_parsec>(m, r, au_ * 648000 / PIl, "pc"); uall<au::length_light_year>(m, r, c_ * 31557600, "ly"); uall<au::length_light_day>(m, r, c_ * 86400, "ld"); uall<au::length_light_hour>(m, r, c_ * 3600, "lh"); uall<au::length_light_minute>(m, r, c_ * 60, "lm"); uall<au::length_light_second>(m, r, c_, "ls"); }
template <class Q> L inm(Q q) { return (L)static_cast<Qm>(q).value(); }
static void constants(Mon& m) {
    auto same = [&](const char* n, L v, L w) { m.check(S("unit-constant/") + n, fabsl(v - w) <= prec(w, 1) * w, n, [&] { return str((double)v) + " m instead of " + str((double)w); }); };
#define U(N, W) same(#N, inm(1.0 * au::N), W);
    U(meter, 1) U(meters, 1) U(metre, 1) U(metres, 1) U(centimeter, .01L) U(centimeters, .01L) U(centimetre, .01L) U(centimetres, .01L) U(astronomical_unit, au_) U(astronomical_units, au_) U(parsec, au_ * 648000 / PIl) U(parsecs, au_ * 648000 / PIl) U(light_year, c_ * 31557600) U(light_years, c_ * 31557600) U(light_day, c_ * 86400) U(light_days, c_ * 86400) U(light_hour, c_ * 3600) U(light_hours, c_ * 3600) U(light_minute, c_ * 60) U(light_minutes, c_ * 60) U(light_second, c_) U(light_seconds, c_)
}
// ---- P29
static std::vector<double> numbers(const S& s) { std::vector<double> v; const char* p = s.c_str(); while (*p) { if ((*p >= '0' && *p <= '9') || ((*p == '-' || *p == '+') && p[1] >= '0' && p[1] <= '9')) { char* e; v.push_back(std::strtod(p, &e)); p = e; } else ++p; } return v; }
template <class T> void printed_as(Mon& m, Rng& r, const T& x, const S& head, std::vector<double> want);
static Rng* print_rng;
template <class T> void printed(Mon& m, const T& x, const S& head, std::vector<double> want, std::vector<S> parts) {
    std::ostringstream o; o.precision(17); o << x; S s = o.str(); auto v = numbers(s); m.check("numbers-printed/" + head, v == want, want[0] < 0 ? "neg" : "pos", [&] { return s; }); std::size_t at = 0; bool ok = s.compare(0, head.size(), head) == 0; for (auto& p : parts) { at = s.find(p, at); ok = ok && at != S::npos; if (!ok) break; at += p.size(); } m.check("labels-printed/" + head, ok, head, [&] { return s; });
    std::ostringstream two; two.precision(17); two << x << x; m.check("printing-leaves-the-stream-usable/" + head, two.str() == s + s, head, [&] { return two.str(); }); printed_as(m, *print_rng, x, head, want); }
// the same under other stream settings: numbers as that stream prints them, in order, settings untouched
template <class T> void printed_as(Mon& m, Rng& r, const T& x, const S& head, std::vector<double> want) {
    std::ostringstream o; o.precision((int)r.range(1, 20)); S c; switch (r.below(4)) { case 0: o << std::fixed; c = "fixed"; break; case 1: o << std::scientific; c = "sci"; break; case 2: o << std::uppercase << std::showpos; c = "pos"; break; default: c = "plain"; } if (r.chance(.2)) { o.fill('*'); o << std::left; }
    auto fl = o.flags(); auto pr = o.precision(); auto fi = o.fill(); o << x; S s = o.str(); std::size_t at = head.size(); bool ok = true; S miss; for (double w : want) { std::ostringstream q; q.copyfmt(o); q << w; S n = q.str(); std::size_t k = s.find(n, at); if (k == S::npos || (k && (std::isdigit((unsigned char)s[k - 1]) || s[k - 1] == '.')) || std::isdigit((unsigned char)s[k + n.size()])) { ok = false; miss = n; break; } at = k + n.size(); }
    m.check("numbers-as-the-stream-prints-them/" + head, ok, c, [&] { return s + " lacks " + miss; }); m.check("stream-settings-untouched/" + head, o.flags() == fl && o.precision() == pr && o.fill() == fi && o.good() && o.width() == 0, c, [&] { return s; });
}
static void printing(Mon& m, Rng& r) {
    print_rng = &r;
    S c; { auto p = bc::make_cartesian_representation(coord(r) * bu::si::meters, coord(r) * bu::cgs::centimeters, coord(r) * bu::si::meters); printed(m, p, "Cartesian Representation", {p.get_x().value(), p.get_y().value(), p.get_z().value()}, {" m ", " cm ", " m "}); }
    Qd a = from_deg<Qd>(angle_deg(r, false, false, c)); Qr b = from_deg<Qr>(angle_deg(r, true, false, c)); Qm d = posnum(r) * bu::si::meters; { auto p = bc::make_spherical_representation(a, b, d); printed(m, p, "Spherical Representation", {p.get_lat().value(), p.get_lon().value(), d.value()}, {" deg ", " rad ", " m "}); auto q = bc::make_spherical_equatorial_representation(a, b, d); printed(m, q, "Spherical Equatorial Representation", {q.get_lat().value(), q.get_lon().value(), d.value()}, {" deg ", " rad ", " m "}); }
    { bc::horizon_coord<double, Qd, Qr> p(a, b); printed(m, p, "Horizon Coordinate", {p.get_altitude().value(), p.get_azimuth().value()}, {"Altitude", "deg", "Azimuth", "rad"}); } { bc::ecliptic_coord<double, Qd, Qr> p(a, b); printed(m, p, "Ecliptic Coordinate", {p.get_lat().value(), p.get_lon().value()}, {"Latitude", "deg", "Longitude", "rad"}); } { bc::galactic_coord<double, Qd, Qr> p(a, b); printed(m, p, "Galactic Coordinate", {p.get_lat().value(), p.get_lon().value()}, {"Latitude", "deg", "Longitude", "rad"}); }
    { bc::equatorial_ra_coord<double, Qd, Qr> p(a, b); printed(m, p, "Equatorial Coordinate", {p.get_ra().value(), p.get_dec().value()}, {"Right Ascension", "deg", "Declination", "rad"}); } { bc::equatorial_ha_coord<double, Qd, Qr> p(a, b); printed(m, p, "Equatorial Coordinate", {p.get_ha().value(), p.get_dec().value()}, {"Hour Angle", "deg", "Declination", "rad"}); }
}
int main(int argc, char** argv) {
    Mon m(argc, argv);
    if (m.wants("P26")) { if (m.scale > 0) { double s = m.scale; m.scale = 1; m.run("every-day", 85, [&](Rng& r, std::uint64_t i) { years(m, r, 1400 + (int)i * 100, 101); }, 300); m.scale = s; } }
    if (m.wants("P27")) { m.run("sidereal", 40000, [&](Rng& r, std::uint64_t) { sidereal(m, r); }); m.run("day-after-day", 1200, [&](Rng& r, std::uint64_t) { almanac(m, r); }); m.run("decimal-hours", 40000, [&](Rng& r, std::uint64_t) { hours(m, r); }); }
    if (m.wants("P28")) { m.run("constants", 1, [&](Rng&, std::uint64_t) { constants(m); }); m.run("conversions", 2000, [&](Rng& r, std::uint64_t) { lengths(m, r); }); }
    if (m.wants("P29")) m.run("printing", 6000, [&](Rng& r, std::uint64_t) { printing(m, r); });
    return m.finish();
}
