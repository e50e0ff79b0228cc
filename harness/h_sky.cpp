// P23 rotations between sky coordinate systems, P24 coordinate and frame objects keep what they are given, P25 separation and position angle.
#include "coordgen.hpp"
#include <boost/units/systems/temperature/celsius.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/coordinate.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/ref_frame/icrs.hpp>
#include <boost/astronomy/coordinate/ref_frame/cirs.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
namespace ub = boost::numeric::ublas; typedef ub::matrix<double> M;
static L wrap(L a) { a = fmodl(a, 2 * PIl); if (a < 0) a += 2 * PIl; return a; }
static L adiff(L a, L b) { L d = fabsl(wrap(a) - wrap(b)); return d > PIl ? 2 * PIl - d : d; }
static V3 lv(L lon, L lat) { return {cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)}; }
static V3 mv(const M& m) { return {m(0, 0), m(1, 0), m(2, 0)}; }
static double lon(Rng& r, S& c) { return angle_deg(r, false, false, c); }
static double lat(Rng& r, S& c) { switch (r.below(6)) { case 0: c += "p"; return r.chance(.5) ? 90 : -90; case 1: c += "q"; return (r.chance(.5) ? 1 : -1) * (90 - std::ldexp(1.0, -(int)r.range(0, 45))); case 2: c += "0"; return 0; default: c += "i"; return r.real(-90, 90); } }
static L rad(double d) { return (L)d * PIl / 180; }
// spherical trigonometry of each conversion
struct LL { L lon, lat; };
static LL of_xyz(L x, L y, L z) { return {atan2l(y, x), atan2l(z, hypotl(x, y))}; }
static LL to_hor(LL p, L phi) { return of_xyz(sinl(p.lat) * cosl(phi) - cosl(p.lat) * cosl(p.lon) * sinl(phi), -cosl(p.lat) * sinl(p.lon), sinl(p.lat) * sinl(phi) + cosl(p.lat) * cosl(phi) * cosl(p.lon)); }
static LL to_ecl(LL p, L e) { return of_xyz(cosl(p.lon) * cosl(p.lat), sinl(p.lon) * cosl(p.lat) * cosl(e) + sinl(p.lat) * sinl(e), sinl(p.lat) * cosl(e) - cosl(p.lat) * sinl(e) * sinl(p.lon)); }
static LL to_gal(LL p) { L ap = rad(192.25), dp = rad(27.4), l0 = rad(33); L sb = cosl(p.lat) * cosl(dp) * cosl(p.lon - ap) + sinl(p.lat) * sinl(dp); LL g = of_xyz(cosl(p.lat) * sinl(p.lon - ap), sinl(p.lat) * cosl(dp) - cosl(p.lat) * sinl(dp) * cosl(p.lon - ap), sb); return {g.lon + l0, g.lat}; }
template <class Q> void rot(Mon& m, Rng& r, const S& un) {
    typedef bc::column_vector<double, Q, double> CV; S c; double a = lon(r, c), b = lat(r, c), ph = lat(r, c), st = lon(r, c), ob = r.chance(.5) ? r.real(22, 25) : r.real(0, 90);
    // directions that become a pole: the zenith, the ecliptic and the galactic pole and their antipodes
    switch (r.below(14)) { case 0: a = 0; b = ph = r.real(-90, 90); c += "Z"; break; case 1: a = 180; ph = r.real(-90, 90); b = -ph; c += "N"; break; case 2: a = r.chance(.5) ? 270 : 90; b = a == 270 ? 90 - ob : ob - 90; c += "E"; break; case 3: a = r.chance(.5) ? 90 : 270; b = a == 90 ? 90 - ob : ob - 90; c += "Q"; break;
    case 4: { bool n = r.chance(.5); a = (n ? 192.25 : 12.25) + r.real(-1, 1) * std::ldexp(1.0, -(int)r.range(10, 50)); b = (n ? 27.4 : -27.4) + r.real(-1, 1) * std::ldexp(1.0, -(int)r.range(10, 50)); c += "G"; break; }
    case 5: { bool n = r.chance(.5); a = n ? 123.0 : 303.0; b = n ? 27.4 : -27.4; c += "g"; break; } default: break; }
    LL p{si(from_deg<Q>(a)), si(from_deg<Q>(b))}; m.note(str(a) + " " + str(b) + " " + str(ph) + " " + str(st) + " " + str(ob));
    CV cv(from_deg<Q>(a), from_deg<Q>(b)); V3 v = lv(p.lon, p.lat); S in = str(a) + "," + str(b);
    m.check("direction-vector/" + un, near3(mv(cv.get()), v, 1e-11L), c, [&] { return in + " -> " + vs(mv(cv.get())); });
    auto judge = [&](const S& rule, const M& conv, LL want, L tol) {
        M res = ub::prod(conv, cv.get()); V3 w = lv(want.lon, want.lat); m.check(rule + "/" + un, near3(mv(res), w, tol), c, [&] { return in + " -> " + vs(mv(res)) + " instead of " + vs(w); });
        auto e = bc::extract_coordinates(res).get_coordinates(); V3 x = lv(si(e.first), si(e.second)); L at = std::max(std::min(3e-7L, 1e-9L / std::max(cosl(want.lat), 1e-9L)), tol < 1e-9L ? 0 : 4 * tol / std::max(cosl(want.lat), sqrtl(tol))); /* the arc sine magnifies the error of the tabulated matrix next to the pole */ bool ok = near3(x, w, at) && fabsl(si(e.second)) <= PIl / 2 + 1e-12L && fabsl(si(e.first)) <= PIl + 1e-12L; m.check("angles-of-result/" + rule + "/" + un, ok, c, [&] { return in + " -> " + str((double)si(e.first)) + "," + str((double)si(e.second)) + " instead of " + str((double)want.lon) + "," + str((double)want.lat); }); };
    { auto e = bc::extract_coordinates(cv.get()).get_coordinates(); bool pole = fabsl(cosl(p.lat)) < 1e-6L; m.check("angles-read-back/" + un, fabsl(si(e.second) - p.lat) < std::min(3e-8L, 1e-10L / std::max(cosl(p.lat), 1e-9L)) && (pole || adiff(si(e.first), p.lon) < 1e-9L), c, [&] { return in + " -> " + str((double)si(e.first)) + "," + str((double)si(e.second)); }); }
    Q qp = from_deg<Q>(ph), qs = from_deg<Q>(st), qo = from_deg<Q>(ob);
    M h = bc::ha_dec_horizon<double, Q, double>(qp).get(), t = bc::ha_dec_ra_dec<double, Q, double>(qs).get(), ec = bc::ra_dec_to_ecliptic<double, Q, double>(qo).get(), ce = bc::ecliptic_to_ra_dec<double, Q, double>(qo).get(), rg = bc::ra_dec_to_galactic<double>().get(), gr = bc::galactic_to_ra_dec<double>().get();
    judge("hour-angle-to-horizon", h, to_hor(p, si(qp)), 1e-10L); judge("hour-angle-to-right-ascension", t, LL{si(qs) - p.lon, p.lat}, 1e-10L); judge("equatorial-to-ecliptic", ec, to_ecl(p, si(qo)), 1e-10L); judge("equatorial-to-galactic", rg, to_gal(p), 3e-7L);
    // the way back, and rotations keep angles: M^T M = 1
    judge("ecliptic-to-equatorial", ce, to_ecl(p, -si(qo)), 1e-10L);
    auto inv = [&](const S& n, const M& x, const M& y, L tol) { M id = ub::prod(x, y); L worst = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) worst = std::max(worst, fabsl((L)id(i, j) - (i == j))); m.check("there-and-back/" + n, worst < tol, c, [&] { return "deviation from identity " + str((double)worst); }); };
    inv("horizon", h, h, 1e-12L); inv("sidereal", t, t, 1e-12L); inv("ecliptic", ec, ce, 1e-12L); inv("galactic", rg, gr, 3e-7L); inv("orthogonal-horizon", h, ub::trans(h), 1e-12L); inv("orthogonal-galactic", gr, ub::trans(gr), 3e-7L); inv("orthogonal-ecliptic", ec, ub::trans(ec), 1e-12L);
}
// directions exactly along the axes and in the coordinate planes
static void axes(Mon& m, Rng& r) {
    for (int i = 0; i < 27; ++i) { L x = i % 3 - 1, y = i / 3 % 3 - 1, z = i / 9 - 1, n = sqrtl(x * x + y * y + z * z); if (n == 0) continue; M v(3, 1); v(0, 0) = (double)(x / n); v(1, 0) = (double)(y / n); v(2, 0) = (double)(z / n); if (r.chance(.3)) for (int k = 0; k < 3; ++k) if (v(k, 0) == 0) v(k, 0) = -0.0;
        auto e = bc::extract_coordinates(v).get_coordinates(); V3 w{x / n, y / n, z / n}, g = lv(si(e.first), si(e.second)); m.check("angles-of-axis-direction", near3(g, w, 1e-9L) && fabsl(si(e.second)) <= PIl / 2 + 1e-12L && fabsl(si(e.first)) <= PIl + 1e-12L, std::to_string(i), [&] { return vs(w) + " -> " + str((double)si(e.first)) + "," + str((double)si(e.second)); }); }
}
static void obliq(Mon& m, Rng& r) {
    int y = (int)r.range(1400, 9999), mo = (int)r.range(1, 12), d = (int)r.range(1, 28); boost::gregorian::date dt(y, mo, d); if (y < 9990) dt += boost::gregorian::days((long)r.below(4)); L jd = (L)dt.julian_day(), T = (jd - 2451545.0L) / 36525; L e = 23.439292L - (46.815L * T + 0.0006L * T * T - 0.00181L * T * T * T) / 3600; L got = si(bc::obliquity_of_ecliptic(dt).get());
    m.check("obliquity", fabsl(got - e * PIl / 180) < 5e-9L /* the time of day is not part of the date */, std::to_string(y / 500), [&] { return boost::gregorian::to_simple_string(dt) + ": " + str((double)(got * 180 / PIl)) + " instead of " + str((double)e); });
}
// ---- P24
template <class A> bool rel(const A& a, const A& b) { return std::fabs((double)(a.value() - b.value())) <= 4 * std::numeric_limits<typename A::value_type>::epsilon() * std::fabs((double)b.value()); }
#define PAIRCOORD(NAME, TYPE, SETA, SETB, SETAB, GETA, GETB, GETAB, MAKE) \
template <class Q1, class Q2> void NAME(Mon& m, Rng& r, const S& un) { typedef typename Q1::value_type T; typedef bc::TYPE<T, Q1, Q2> A; S n = S(#TYPE) + "/" + un, c; Q1 a = from_deg<Q1>(lon(r, c)); Q2 b = from_deg<Q2>(lon(r, c)); A p(a, b); \
    auto ok = [&](const A& z) { auto t = z.GETAB(); return rel(z.GETA(), a) && rel(z.GETB(), b) && std::get<0>(t) == z.GETA() && std::get<1>(t) == z.GETB() && fabsl((L)bg::get<0>(z.get_point()) - si(a)) <= 1e-6L * fabsl(si(a)) && fabsl((L)bg::get<1>(z.get_point()) - si(b)) <= 1e-6L * fabsl(si(b)); }; \
    m.check("components-kept/" + n, ok(p), c, [&] { return n; }); S g; for (int i = 0; i < 5; ++i) { int k = (int)r.below(3); if (k != 1) a = from_deg<Q1>(lon(r, g)); if (k != 0) b = from_deg<Q2>(lon(r, g)); if (k == 0) p.SETA(a); else if (k == 1) p.SETB(b); else p.SETAB(a, b); m.check("setter-changes-only-its-component/" + n, ok(p), std::to_string(k) + std::to_string(i), [&] { return n; }); } \
    A cp(p), as; as = p; auto mk = bc::MAKE(a, b); m.check("copy-has-the-components/" + n, ok(cp) && ok(as) && ok(mk), c, [&] { return n; }); }
PAIRCOORD(c_hor, horizon_coord, set_altitude, set_azimuth, set_altitude_azimuth, get_altitude, get_azimuth, get_altitude_azimuth, make_horizon_coord)
PAIRCOORD(c_gal, galactic_coord, set_lat, set_lon, set_lat_lon, get_lat, get_lon, get_lat_lon, make_galactic_coord)
PAIRCOORD(c_ecl, ecliptic_coord, set_lat, set_lon, set_lat_lon, get_lat, get_lon, get_lat_lon, make_ecliptic_coord)
PAIRCOORD(c_ra, equatorial_ra_coord, set_ra, set_dec, set_ra_dec, get_ra, get_dec, get_ra_dec, make_equatorial_ra_coord)
PAIRCOORD(c_ha, equatorial_ha_coord, set_ha, set_dec, set_ha_dec, get_ha, get_dec, get_ha_dec, make_equatorial_ha_coord)
typedef bc::spherical_representation<double, Qd, Qd, Qm> Rp; typedef bc::spherical_coslat_differential<double, Qd, Qr, Vm> Df;
typedef bc::spherical_representation<double, Qr, Qr, Qpc> Rp2; typedef bc::spherical_coslat_differential<double, Qr, Qd, Vcm> Df2;
static bool rl(L a, L b) { return fabsl(a - b) <= 1e-12L * (fabsl(b) + 1e-300L); }
template <class A> struct other_frame { typedef bc::galactic<typename A::representation, typename A::differential> type; };
template <class R, class D> struct other_frame<bc::galactic<R, D>> { typedef bc::supergalactic<R, D> type; };
#define FRAME(NAME, TYPE, LAT, LON, LATLON, PLAT, PLON, PALL) \
template <class Re, class Di> void NAME(Mon& m, Rng& r, const S& un) { typedef bc::TYPE<Re, Di> A; S n = S(#TYPE) + "/" + un, c; typedef typename Re::quantity1 Q1; typedef typename Re::quantity2 Q2; typedef typename Re::quantity3 Q3; typedef typename Di::quantity1 D1; typedef typename Di::quantity2 D2; typedef typename Di::quantity3 D3; \
    Q1 a = from_deg<Q1>(lat(r, c)); Q2 b = from_deg<Q2>(lon(r, c)); Q3 d = Q3::from_value(r.chance(.06) ? 0 : posnum(r)); D1 pa = from_deg<D1>(lon(r, c)); D2 pb = from_deg<D2>(lon(r, c)); D3 v = D3::from_value(coord(r)); \
    auto pos = [&](const A& z) { auto t = z.get_##LATLON(); return rel(z.get_##LAT(), a) && rel(z.get_##LON(), b) && z.get_distance() == d && std::get<0>(t) == z.get_##LAT() && std::get<1>(t) == z.get_##LON() && std::get<2>(t) == d && rl(si(z.get_data().get_lat()), si(a)) && rl(si(z.get_data().get_lon()), si(b)) && z.get_data().get_dist() == d; }; \
    auto mot = [&](const A& z) { auto t = z.get_##PALL(); auto g = z.get_proper_motion(); auto f = z.get_differential(); const bc::base_frame<Re, Di>& base = z; return base.get_radial_velocity() == v && rel(z.get_##PLAT(), pa) && rel(z.get_##PLON(), pb) && z.get_radial_velocity() == v && std::get<0>(t) == z.get_##PLAT() && std::get<1>(t) == z.get_##PLON() && std::get<2>(t) == v && rel(std::get<0>(g), pa) && rel(std::get<1>(g), pb) && rel(f.get_dlat(), pa) && rel(f.get_dlon_coslat(), pb) && f.get_ddist() == v; }; \
    A p(a, b, d), q(a, b, d, pa, pb, v); m.check("position-kept/" + n, pos(p) && pos(q), c, [&] { return n; }); m.check("motion-kept/" + n, mot(q), c, [&] { return n; }); \
    { auto still = [](const A& z) { return si(z.get_##PLAT()) == 0 && si(z.get_##PLON()) == 0 && si(z.get_radial_velocity()) == 0; }; A none; m.check("not-given-is-zero/" + n, still(p) && still(none) && si(none.get_##LAT()) == 0 && si(none.get_##LON()) == 0 && si(none.get_distance()) == 0, c, [&] { return n; }); } \
    { Rp2 o(static_cast<typename Rp2::quantity1>(a), static_cast<typename Rp2::quantity2>(b), static_cast<typename Rp2::quantity3>(d)); Df2 od(static_cast<typename Df2::quantity1>(pa), static_cast<typename Df2::quantity2>(pb), static_cast<typename Df2::quantity3>(v)); A x(o), y(o, od), e(bc::make_spherical_equatorial_representation(o)); bc::sky_point<A> sy(o, od); const A yy = sy.get_point(); typedef bc::sky_point<typename other_frame<A>::type> Oth; m.check("frames-told-apart/" + n, sy.is_equivalent_system(bc::sky_point<A>(y)) && !sy.is_equivalent_system(Oth()), c, [&] { return n; }); \
      auto approx = [&](const A& z) { return rl(si(z.get_##LAT()), si(a)) && rl(si(z.get_##LON()), si(b)) && rl(si(z.get_distance()), si(d)); }; m.check("sky-point-built-from-representation/" + n, approx(yy) && rl(si(yy.get_##PLAT()), si(pa)) && rl(si(yy.get_##PLON()), si(pb)) && rl(si(yy.get_radial_velocity()), si(v)), c, [&] { return n; }); { auto u = bc::make_cartesian_representation(e.get_data()), w = bc::make_cartesian_representation(x.get_data()); L k = 1e-7L * fabsl(si(d)); m.check("built-from-equatorial-representation/" + n, fabsl(si(u.get_x()) - si(w.get_x())) <= k && fabsl(si(u.get_y()) - si(w.get_y())) <= k && fabsl(si(u.get_z()) - si(w.get_z())) <= k, c, [&] { return n + " at " + str((double)si(a)) + ", " + str((double)si(b)); }); } \
      m.check("built-from-representation/" + n, approx(x) && approx(y) && rl(si(y.get_##PLAT()), si(pa)) && rl(si(y.get_##PLON()), si(pb)) && rl(si(y.get_radial_velocity()), si(v)), c, [&] { return n; }); } \
    S g; for (int i = 0; i < 7; ++i) { int k = (int)r.below(9); if (k == 0 || k == 3) a = from_deg<Q1>(lat(r, g)); if (k == 1 || k == 3) b = from_deg<Q2>(lon(r, g)); if (k == 2 || k == 3) d = Q3::from_value(posnum(r)); if (k == 4 || k >= 7) pa = from_deg<D1>(lon(r, g)); if (k == 5 || k >= 7) pb = from_deg<D2>(lon(r, g)); if (k == 6 || k >= 7) v = D3::from_value(coord(r)); \
        switch (k) { case 0: q.set_##LAT(a); break; case 1: q.set_##LON(b); break; case 2: q.set_distance(d); break; case 3: q.set_##LATLON(a, b, d); break; case 4: q.set_##PLAT(pa); break; case 5: q.set_##PLON(pb); break; case 6: q.set_radial_velocity(v); break; case 7: q.set_##PALL(pa, pb, v); break; default: q.set_differential(Di(pa, pb, v)); } \
        m.check("setter-changes-only-its-component/" + n, pos(q) && mot(q), std::to_string(k), [&] { return n + " after setter " + std::to_string(k); }); } \
    A cp(q), as; as = q; m.check("copy-has-the-components/" + n, pos(cp) && mot(cp) && pos(as) && mot(as), c, [&] { return n; }); \
    /* several objects, set, copied, assigned and passed through sky points in any order, against a plain model */ \
    { struct Mo { Q1 a; Q2 b; Q3 d; D1 pa; D2 pb; D3 v; }; Mo zero{Q1::from_value(0), Q2::from_value(0), Q3::from_value(0), D1::from_value(0), D2::from_value(0), D3::from_value(0)}; Mo mo[3] = {zero, zero, zero}; A ob[3]; S h; \
      auto same = [&](const A& z, const Mo& w) { return rel(z.get_##LAT(), w.a) && rel(z.get_##LON(), w.b) && z.get_distance() == w.d && rel(z.get_##PLAT(), w.pa) && rel(z.get_##PLON(), w.pb) && z.get_radial_velocity() == w.v; }; \
      for (int i = 0; i < 12; ++i) { int k = (int)r.below(12), j = (int)r.below(3), o = (int)r.below(3); A& z = ob[j]; Mo& w = mo[j]; S junk; h += char('a' + k); \
        switch (k) { case 0: w.a = from_deg<Q1>(lat(r, junk)); z.set_##LAT(w.a); break; case 1: w.b = from_deg<Q2>(lon(r, junk)); z.set_##LON(w.b); break; case 2: w.d = Q3::from_value(posnum(r)); z.set_distance(w.d); break; case 3: w.pa = from_deg<D1>(lon(r, junk)); z.set_##PLAT(w.pa); break; case 4: w.pb = from_deg<D2>(lon(r, junk)); z.set_##PLON(w.pb); break; case 5: w.v = D3::from_value(coord(r)); z.set_radial_velocity(w.v); break; \
          case 6: z = A(w.a, w.b, w.d); w.pa = zero.pa; w.pb = zero.pb; w.v = zero.v; break; case 7: z = ob[o]; w = mo[o]; break; case 8: { A t(ob[o]); z = t; w = mo[o]; break; } case 9: { bc::sky_point<A> t(ob[o]), u(t), x; x = u; z = x.get_point(); w = mo[o]; break; } case 10: { bc::sky_point<A> t; t.set_point(ob[o]); t.set_point(ob[o]); z = t.get_point(); w = mo[o]; break; } default: { Di t(z.get_differential()); z = A(w.a, w.b, w.d, w.pa, w.pb, w.v); z.set_differential(t); } } \
        m.check("history/" + n, same(ob[0], mo[0]) && same(ob[1], mo[1]) && same(ob[2], mo[2]), std::to_string(k) + (j == o ? "s" : ""), [&] { return n + " after " + h; }); } } \
    bc::sky_point<A> sp(q), sq(a, b, d), sr(a, b, d, pa, pb, v), ss; ss.set_point(q); m.check("sky-point-holds-the-frame/" + n, pos(sp.get_point()) && mot(sp.get_point()) && pos(sq.get_point()) && pos(sr.get_point()) && mot(sr.get_point()) && pos(ss.get_point()) && mot(ss.get_point()) && sp.is_equivalent_system(sq), c, [&] { return n; }); }
FRAME(f_icrs, icrs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(f_cirs, cirs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(f_geo, geocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(f_hel, heliocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(f_gal, galactic, b, l, b_l_dist, pm_b, pm_l_cosb, pm_b_l_radial)
FRAME(f_sgal, supergalactic, sgb, sgl, sgb_sgl_dist, pm_sgb, pm_sgl_cossgb, pm_sgb_sgl_radial)
FRAME(f_aa, alt_az, alt, az, alt_az_dist, pm_alt, pm_az_cosalt, pm_alt_az_radial)
static boost::posix_time::ptime when(Rng& r) { return boost::posix_time::ptime(boost::gregorian::date((int)r.range(1400, 9999), (int)r.range(1, 12), (int)r.range(1, 28)), boost::posix_time::microseconds((long long)r.below(86400000000ull))); }
// observation parameters: several objects, every subset of the parameters set in any order, copied and assigned
static void params(Mon& m, Rng& r) {
    typedef bc::alt_az<Rp, Df> A; typedef bc::spherical_equatorial_representation<double, Qd, Qd> Loc; typedef bu::quantity<bu::si::pressure> P; typedef bu::quantity<bu::celsius::temperature> T; typedef bu::quantity<bu::si::dimensionless> H; S c;
    struct Mo { Loc l; P p; T t; boost::posix_time::ptime w; H h; Qd la, lo; Qm d; Vm v; }; Mo zero{Loc(), P(0.0 * bu::si::pascals), T(0.0 * bu::celsius::degrees), boost::posix_time::ptime(), H(0), Qd::from_value(0), Qd::from_value(0), Qm::from_value(0), Vm::from_value(0)}; Mo mo[3] = {zero, zero, zero}; A ob[3];
    auto loc = [](const Loc& a, const Loc& b) { return a.get_lat() == b.get_lat() && a.get_lon() == b.get_lon() && a.get_dist() == b.get_dist(); };
    auto same = [&](const A& z, const Mo& w) { auto f = z.get_frame_parameters(); return loc(z.get_location(), w.l) && z.get_pressure() == w.p && z.get_temprature() == w.t && z.get_obs_time() == w.w && z.get_relative_humidity() == w.h && loc(std::get<0>(f), w.l) && std::get<1>(f) == w.p && std::get<2>(f) == w.t && std::get<3>(f) == w.w && std::get<4>(f) == w.h && rel(z.get_alt(), w.la) && rel(z.get_az(), w.lo) && z.get_distance() == w.d && z.get_radial_velocity() == w.v; };
    m.check("parameters-start-at-zero", same(ob[0], zero), "alt_az", [] { return S("alt_az"); }); S h;
    auto num = [&] { return r.chance(.1) ? 0.0 : coord(r); };
    for (int i = 0; i < 14; ++i) { int k = (int)r.below(14), j = (int)r.below(3), o = (int)r.below(3); A& z = ob[j]; Mo& w = mo[j]; h += char('a' + k);
        switch (k) { case 0: w.p = num() * bu::si::pascals; z.set_pressure(w.p); break; case 1: w.t = T(num() * bu::celsius::degrees); z.set_temprature(w.t); break; case 2: w.w = r.chance(.1) ? boost::posix_time::ptime() : when(r); z.set_obs_time(w.w); break; case 3: w.h = H(r.chance(.2) ? 0 : r.unit() * (r.chance(.3) ? 100 : 1)); z.set_relative_humidity(w.h); break;
            case 4: w.l = Loc(from_deg<Qd>(lon(r, c)), from_deg<Qd>(lat(r, c)), H(num())); z.set_location(w.l); break; case 5: w.l = Loc(from_deg<Qd>(lon(r, c)), from_deg<Qd>(lat(r, c)), H(posnum(r))); w.p = num() * bu::si::pascals; w.t = T(num() * bu::celsius::degrees); w.w = when(r); w.h = H(r.unit()); z.set_frame_parameters(w.l, w.p, w.t, w.w, w.h); break;
            case 6: w.la = from_deg<Qd>(lat(r, c)); w.lo = from_deg<Qd>(lon(r, c)); w.d = Qm::from_value(posnum(r)); z.set_alt_az_dist(w.la, w.lo, w.d); break; case 7: w.v = Vm::from_value(num()); z.set_radial_velocity(w.v); break;
            case 8: z = ob[o]; w = mo[o]; break; case 9: { A t(ob[o]); z = t; w = mo[o]; break; } case 10: { bc::sky_point<A> t(ob[o]), u; u = t; z = u.get_point(); w = mo[o]; break; } case 11: { std::vector<A> v(2, ob[o]); v.push_back(v[0]); z = v[2]; w = mo[o]; break; } case 12: { Loc t(z.get_location()); z.set_location(t); break; } default: { Qd a = from_deg<Qd>(lat(r, c)), b = from_deg<Qd>(lon(r, c)); z = A(a, b, 2.0 * bu::si::meters); w = zero; w.la = a; w.lo = b; w.d = 2.0 * bu::si::meters; } }
        m.check("parameters-history", same(ob[0], mo[0]) && same(ob[1], mo[1]) && same(ob[2], mo[2]), std::to_string(k) + (j == o ? "s" : "") + (w.w.is_not_a_date_time() ? "n" : "t"), [&] { return "alt_az after " + h; }); }
    auto t = r.chance(.1) ? boost::posix_time::ptime() : when(r), t2 = when(r); bc::cirs<Rp, Df> ci(from_deg<Qd>(1), from_deg<Qd>(2), 1.0 * bu::si::meters); bc::geocentric<Rp, Df> ge(from_deg<Qd>(1), from_deg<Qd>(2), 1.0 * bu::si::meters); bc::heliocentric<Rp, Df> he(from_deg<Qd>(1), from_deg<Qd>(2), 1.0 * bu::si::meters);
    m.check("epoch-not-given", ci.get_obs_time().is_not_a_date_time() && ge.get_equinox().is_not_a_date_time() && he.get_equinox().is_not_a_date_time(), "epoch", [] { return S("an epoch that was never set"); });
    ci.set_obs_time(t); ge.set_equinox(t); he.set_equinox(t); auto ci2 = ci; auto ge2 = ge; decltype(he) he2; he2 = he; ci.set_obs_time(t2); ge.set_equinox(t2); he.set_equinox(t2); ci.set_ra(from_deg<Qd>(3)); ge.set_lon(from_deg<Qd>(3)); he.set_radial_velocity(Vm::from_value(1));
    m.check("epoch-kept", ci.get_obs_time() == t2 && ci2.get_obs_time() == t && ge.get_equinox() == t2 && ge2.get_equinox() == t && he.get_equinox() == t2 && he2.get_equinox() == t && rel(ci2.get_ra(), from_deg<Qd>(2)) && rel(ge2.get_lon(), from_deg<Qd>(2)), t.is_not_a_date_time() ? "none" : "epoch", [&] { return boost::posix_time::to_simple_string(t); });
}
// ---- P25
static L trueSep(LL a, LL b) { V3 x = lv(a.lon, a.lat), y = lv(b.lon, b.lat); return atan2l(norm(cross3(x, y)), dot3(x, y)); }
template <class F> void sep(Mon& m, Rng& r, const S& n) {
    typedef typename F::representation Re; typedef typename Re::quantity1 Q1; typedef typename Re::quantity2 Q2; typedef typename Re::quantity3 Q3; S c; auto mk = [&](double la, double lo) { return F(from_deg<Q1>(la), from_deg<Q2>(lo), Q3::from_value(posnum(r))); };
    double la = lat(r, c), lo = lon(r, c), lb, lp; switch (r.below(6)) { case 0: lb = la; lp = lo; c += "same"; break; case 1: lb = -la; lp = lo + 180; c += "anti"; break; case 2: { double e = std::ldexp(1.0, -(int)r.range(1, 40)); lb = la > 0 ? la - e : la + e; lp = lo; c += "close"; break; } case 3: lb = la; lp = lo + std::ldexp(1.0, -(int)r.range(1, 40)); c += "closelon"; break; default: lb = lat(r, c); lp = lon(r, c); }
    F f = mk(la, lo), g = mk(lb, lp); auto read = [](const F& z) { return LL{si(z.get_data().get_lon()), si(z.get_data().get_lat())}; }; LL p = read(f), q = read(g); bc::sky_point<F> a(f), b(g); L s = si(a.separation(b)), w = trueSep(p, q); S in = str(la) + "," + str(lo) + " " + str(lb) + "," + str(lp); m.note(in);
    m.check("separation/" + n, fabsl(s - w) <= 1e-10L, c, [&] { return in + ": " + str((double)s) + " instead of " + str((double)w); }); m.check("separation-range/" + n, s >= 0 && s <= PIl + 1e-12L, c, [&] { return in + ": " + str((double)s); });
    m.check("separation-symmetric/" + n, fabsl(s - si(b.separation(a))) <= 1e-11L && fabsl(s - si(f.get_angular_separation(g))) <= 1e-12L, c, [&] { return in; }); m.check("separation-self/" + n, si(a.separation(a)) <= 1e-11L, c, [&] { return in; });
    F h = mk(lat(r, c), lon(r, c)); bc::sky_point<F> d(h); m.check("triangle-inequality/" + n, si(a.separation(d)) <= s + si(b.separation(d)) + 1e-10L, c, [&] { return in; });
    // bearing: direction of the great circle from a to b, from north through east
    V3 nn{-sinl(p.lat) * cosl(p.lon), -sinl(p.lat) * sinl(p.lon), cosl(p.lat)}, ee{-sinl(p.lon), cosl(p.lon), 0}, t = lv(q.lon, q.lat); L x = dot3(nn, t), y = dot3(ee, t), got = si(a.positional_angle(b)); 
    m.check("position-angle-range/" + n, std::isfinite(got) && fabsl(got) <= PIl + 1e-12L, c, [&] { return in + ": " + str((double)got); }); if (hypotl(x, y) > 1e-5L) m.check("position-angle/" + n, adiff(got, atan2l(y, x)) <= 1e-9L + 1e-11L / hypotl(x, y), c, [&] { return in + ": " + str((double)got) + " instead of " + str((double)atan2l(y, x)); });
}
int main(int argc, char** argv) {
    Mon m(argc, argv);
    if (m.wants("P23")) { m.run("rotations", 8000, [&](Rng& r, std::uint64_t i) { if (i & 1) rot<Qd>(m, r, "deg"); else rot<Qr>(m, r, "rad"); }); m.run("axes", 200, [&](Rng& r, std::uint64_t) { axes(m, r); }); m.run("obliquity", 8000, [&](Rng& r, std::uint64_t) { obliq(m, r); }); }
    if (m.wants("P24")) {
        m.run("coords", 3000, [&](Rng& r, std::uint64_t) { c_hor<Qd, Qr>(m, r, "deg,rad"); c_hor<Qrf, Qdf>(m, r, "float"); c_gal<Qr, Qd>(m, r, "rad,deg"); c_gal<Qdf, Qdf>(m, r, "float"); c_ecl<Qd, Qd>(m, r, "deg"); c_ecl<Qr, Qr>(m, r, "rad"); c_ra<Qd, Qr>(m, r, "deg,rad"); c_ra<Qr, Qd>(m, r, "rad,deg"); c_ha<Qd, Qr>(m, r, "deg,rad"); c_ha<Qr, Qd>(m, r, "rad,deg"); });
        m.run("frames", 2000, [&](Rng& r, std::uint64_t) { f_icrs<Rp, Df>(m, r, "deg"); f_cirs<Rp, Df>(m, r, "deg"); f_geo<Rp, Df>(m, r, "deg"); f_hel<Rp, Df>(m, r, "deg"); f_gal<Rp, Df>(m, r, "deg"); f_sgal<Rp, Df>(m, r, "deg"); f_aa<Rp, Df>(m, r, "deg"); f_icrs<Rp2, Df2>(m, r, "rad"); f_gal<Rp2, Df2>(m, r, "rad"); f_geo<Rp2, Df2>(m, r, "rad"); });
        m.run("parameters", 2000, [&](Rng& r, std::uint64_t) { params(m, r); });
    }
    if (m.wants("P25")) m.run("separation", 6000, [&](Rng& r, std::uint64_t) { sep<bc::icrs<Rp, Df>>(m, r, "icrs"); sep<bc::galactic<Rp2, Df2>>(m, r, "galactic"); sep<bc::alt_az<Rp, Df>>(m, r, "alt_az"); sep<bc::geocentric<Rp2, Df>>(m, r, "geocentric"); });
    return m.finish();
}
