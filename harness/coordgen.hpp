// Independent model of the coordinate types: every object is read back through its plain accessors and turned into a
// vector in SI units with long double arithmetic; all oracles compare such vectors.
#ifndef VERIF_COORDGEN_HPP
#define VERIF_COORDGEN_HPP
#include "mon.hpp"
#include <boost/units/quantity.hpp>
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/units/systems/cgs/velocity.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/base_units/astronomical/astronomical_unit.hpp>
#include <boost/units/base_units/astronomical/light_year.hpp>
#include <boost/units/base_units/astronomical/parsec.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include <tuple>
namespace bu = boost::units; namespace bc = boost::astronomy::coordinate; namespace bg = boost::geometry;
typedef long double L; typedef std::string S;
template <class U> struct fac;                      // SI units per unit, from the definitions (not from the library under test)
typedef bu::astronomical::astronomical_unit_base_unit::unit_type u_au; typedef bu::astronomical::light_year_base_unit::unit_type u_ly; typedef bu::astronomical::parsec_base_unit::unit_type u_pc;
#define FAC(U, V) template <> struct fac<U> { static L f() { return V; } };
FAC(bu::si::length, 1) FAC(bu::cgs::length, 0.01L) FAC(bu::si::plane_angle, 1) FAC(bu::si::dimensionless, 1) FAC(bu::si::velocity, 1) FAC(bu::cgs::velocity, 0.01L)
FAC(u_au, (L)bu::conversion_factor(u_au(), bu::si::length())) FAC(u_ly, (L)bu::conversion_factor(u_ly(), bu::si::length())) FAC(u_pc, (L)bu::conversion_factor(u_pc(), bu::si::length()))
static const L PIl = 3.141592653589793238462643383279502884L;
FAC(bu::degree::plane_angle, PIl / 180)
template <class U, class T> L si(const bu::quantity<U, T>& q) { return (L)q.value() * fac<U>::f(); }
typedef bu::quantity<bu::si::length> Qm; typedef bu::quantity<bu::cgs::length> Qcm; typedef bu::quantity<u_au> Qau; typedef bu::quantity<u_ly> Qly; typedef bu::quantity<u_pc> Qpc;
typedef bu::quantity<bu::si::plane_angle> Qr; typedef bu::quantity<bu::degree::plane_angle> Qd; typedef bu::quantity<bu::si::length, float> Qmf; typedef bu::quantity<bu::si::plane_angle, float> Qrf; typedef bu::quantity<bu::degree::plane_angle, float> Qdf;
typedef bu::quantity<bu::si::length, long double> Qml; typedef bu::quantity<bu::si::plane_angle, long double> Qrl; typedef bu::quantity<bu::degree::plane_angle, long double> Qdl; typedef bu::quantity<u_pc, long double> Qpcl;
typedef bu::quantity<bu::si::velocity> Vm; typedef bu::quantity<bu::cgs::velocity> Vcm; typedef bu::quantity<bu::si::time> Ts;
struct V3 { L x, y, z; };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, L k) { return {a.x * k, a.y * k, a.z * k}; }
inline L dot3(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross3(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline L norm(V3 a) { return sqrtl(dot3(a, a)); }
inline bool fin(V3 a) { return std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(a.z); }
inline bool near3(V3 a, V3 b, L tol) { return fin(a) && norm(a - b) <= tol; }
inline S vs(V3 a) { return "(" + str((double)a.x) + ", " + str((double)a.y) + ", " + str((double)a.z) + ")"; }
inline V3 sph(L phi, L theta, L r) { return {r * cosl(phi) * sinl(theta), r * sinl(phi) * sinl(theta), r * cosl(theta)}; }
inline V3 equ(L a, L b, L r) { return {r * cosl(a) * cosl(b), r * sinl(a) * cosl(b), r * sinl(b)}; }
// kinds
template <class... A> V3 vec(const bc::cartesian_representation<A...>& p) { return {si(p.get_x()), si(p.get_y()), si(p.get_z())}; }
template <class... A> V3 vec(const bc::spherical_representation<A...>& p) { return sph(si(p.get_lat()), si(p.get_lon()), si(p.get_dist())); }
template <class... A> V3 vec(const bc::spherical_equatorial_representation<A...>& p) { return equ(si(p.get_lat()), si(p.get_lon()), si(p.get_dist())); }
template <class... A> V3 vec(const bc::cartesian_differential<A...>& p) { return {si(p.get_dx()), si(p.get_dy()), si(p.get_dz())}; }
template <class... A> V3 vec(const bc::spherical_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon()), si(p.get_ddist())); }
template <class... A> V3 vec(const bc::spherical_equatorial_differential<A...>& p) { return equ(si(p.get_dlat()), si(p.get_dlon()), si(p.get_ddist())); }
template <class... A> V3 vec(const bc::spherical_coslat_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon_coslat()) / cosl(si(p.get_dlat())), si(p.get_ddist())); }
template <class R> struct is_cart : std::false_type {};
template <class... A> struct is_cart<bc::cartesian_representation<A...>> : std::true_type {};
template <class... A> struct is_cart<bc::cartesian_differential<A...>> : std::true_type {};
template <class R> struct is_coslat : std::false_type {};
template <class... A> struct is_coslat<bc::spherical_coslat_differential<A...>> : std::true_type {};
template <class R> struct is_equ : std::false_type {};
template <class... A> struct is_equ<bc::spherical_equatorial_representation<A...>> : std::true_type {};
template <class... A> struct is_equ<bc::spherical_equatorial_differential<A...>> : std::true_type {};
// numbers: many magnitudes, exact zeros, signs, boundary angles
inline double coord(Rng& r) { switch (r.below(8)) { case 0: return 0; case 1: return (double)r.range(-5, 5); case 2: return r.real(-1, 1); default: { int e = (int)r.range(-20, 20); return std::ldexp(r.real(-1, 1), e); } } }
inline double posnum(Rng& r) { if (r.chance(.1)) return 1.0; int e = (int)r.range(-20, 20); return std::ldexp(r.real(.5, 1), e); }
inline double angle_deg(Rng& r, bool polar, bool equatorial, S& c) {
    double lo = equatorial ? -90 : 0, hi = equatorial ? 90 : 180; if (!polar) { lo = -180; hi = 360; }
    switch (r.below(6)) { case 0: c += "b"; return (double)(90 * r.range((long long)lo / 90, (long long)hi / 90)); case 1: { c += "n"; double e = std::ldexp(1.0, -(int)r.range(3, 40)); double b = (double)(90 * r.range((long long)lo / 90, (long long)hi / 90)); return b >= hi ? b - e : b + e; } case 2: c += "w"; return r.real(-720, 720); default: c += "i"; return r.real(lo, hi); }
}
template <class Q> Q from_deg(double d) { typedef typename Q::value_type T; return Q::from_value((T)(d * (double)((PIl / 180) / fac<typename Q::unit_type>::f()))); }
template <class R, typename std::enable_if<is_cart<R>::value, int>::type = 0> R gen(Rng& r, S& c, bool nonzero = false) {
    double x = coord(r), y = coord(r), z = coord(r); if (r.chance(.1)) { x = y = 0; } if (r.chance(.03)) z = 0; if (nonzero && x == 0 && y == 0 && z == 0) x = 1;
    c += S("c") + (x == 0 ? "0" : x < 0 ? "-" : "+") + (y == 0 ? "0" : y < 0 ? "-" : "+") + (z == 0 ? "0" : z < 0 ? "-" : "+");
    return R(R::quantity1::from_value(x), R::quantity2::from_value(y), R::quantity3::from_value(z)); }
template <class R, typename std::enable_if<!is_cart<R>::value && !is_coslat<R>::value, int>::type = 0> R gen(Rng& r, S& c, bool nonzero = false) {
    c += is_equ<R>::value ? "e" : "s"; double a = angle_deg(r, false, false, c), b = angle_deg(r, true, is_equ<R>::value, c); double d = !nonzero && r.chance(.05) ? 0 : posnum(r); if (d == 0) c += "0";
    return R(from_deg<typename R::quantity1>(a), from_deg<typename R::quantity2>(b), R::quantity3::from_value(d)); }
template <class R, typename std::enable_if<is_coslat<R>::value, int>::type = 0> R gen(Rng& r, S& c, bool nonzero = false) {
    c += "l"; double a; do a = r.real(-180, 180); while (std::fabs(std::cos(a * 3.14159265358979 / 180)) < .05); if (r.chance(.1)) { a = r.chance(.5) ? 0 : 180; c += "b"; } else c += a > 90 || a < -90 ? "f" : "i";
    double th = r.real(0, 180); double m = th * std::cos(a * 3.14159265358979 / 180); c += m < 0 ? "-" : "+"; double d = !nonzero && r.chance(.05) ? 0 : posnum(r);
    return R(from_deg<typename R::quantity1>(a), from_deg<typename R::quantity2>(m), R::quantity3::from_value(d)); }
// an object of the spherical kinds loses sqrt(epsilon) near its axis
template <class R> L eps_of() { bool f = std::is_same<typename R::type, float>::value; return is_cart<R>::value ? (f ? 1e-5L : 1e-11L) : (f ? 4e-3L : 1e-7L); }
// the same, knowing the vector: away from the axis the spherical kinds are as good as the Cartesian ones
template <class R> L acc(V3 v) { bool f = std::is_same<typename R::type, float>::value; L e = f ? 1e-5L : 1e-12L, n = norm(v); if (is_cart<R>::value || n == 0) return e; L s = sqrtl(v.x * v.x + v.y * v.y) / n, w = f ? 4e-3L : 1e-7L; return s * w <= e ? w : e / s; }
template <class R> bool readable(const R&, V3) { return true; }
template <class... A> bool readable(const bc::spherical_coslat_differential<A...>& p, V3) { return fabsl(cosl(si(p.get_dlat()))) > 1e-3L; }   // cos(lat) too small to divide the angle back
#endif
