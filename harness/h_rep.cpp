// P20: a representation names the same point in space in every system and unit it is converted to.
// P21: vector arithmetic on representations obeys the laws of vectors, whatever systems and units are mixed.
#include "coordgen.hpp"
using namespace bc;
typedef cartesian_representation<double, Qm, Qm, Qm> C1; typedef cartesian_representation<double, Qau, Qcm, Qly> C2;
typedef spherical_representation<double, Qr, Qr, Qm> S1; typedef spherical_representation<double, Qd, Qr, Qly> S2;
typedef spherical_equatorial_representation<double, Qr, Qr, Qm> E1; typedef spherical_equatorial_representation<double, Qd, Qr, Qpc> E2;
typedef spherical_representation<double, Qr, Qd, Qpc> S3; typedef spherical_equatorial_representation<double, Qr, Qd, Qcm> E3;
typedef cartesian_representation<float, Qmf, Qmf, Qmf> Cf; typedef spherical_representation<float, Qdf, Qrf, Qmf> Sf; typedef spherical_equatorial_representation<float, Qrf, Qdf, Qmf> Ef;
template <class T> struct nm; 
#define N(T) template <> struct nm<T> { static const char* n() { return #T; } };
typedef cartesian_representation<long double, Qml, Qpcl, Qml> Cl; typedef spherical_representation<long double, Qrl, Qdl, Qml> Sl; typedef spherical_equatorial_representation<long double, Qdl, Qrl, Qpcl> El;
N(C1) N(C2) N(S1) N(S2) N(S3) N(E3) N(E1) N(E2) N(Cf) N(Sf) N(Ef) N(Cl) N(Sl) N(El)
template <class A, class B> S pr() { return S(nm<A>::n()) + ">" + nm<B>::n(); }
template <class A> auto mk(std::integral_constant<int, 0>, const A& a) { return make_cartesian_representation(a); }
template <class A> auto mk(std::integral_constant<int, 1>, const A& a) { return make_spherical_representation(a); }
template <class A> auto mk(std::integral_constant<int, 2>, const A& a) { return make_spherical_equatorial_representation(a); }
template <class B> using kind = std::integral_constant<int, is_cart<B>::value ? 0 : is_equ<B>::value ? 2 : 1>;
template <class R> void canon(Mon& m, const R& p, const S& cov, std::true_type) {}
template <class R> void canon(Mon& m, const R& p, const S& cov, std::false_type) {
    L a = si(p.get_lat()), b = si(p.get_lon()), d = si(p.get_dist()), e = std::is_same<typename R::type, float>::value ? 1e-5L : 1e-13L, lo = is_equ<R>::value ? -PIl / 2 : 0, hi = is_equ<R>::value ? PIl / 2 : PIl;
    m.check(S("canonical-range/") + nm<R>::n(), a >= -PIl - e && a <= 2 * PIl + e && b >= lo - e && b <= hi + e && d >= 0, cov, [&] { return str((double)a) + " " + str((double)b) + " " + str((double)d); }); }
template <class A, class B> void conv(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c); V3 v = vec(a); L s = norm(v); S p = pr<A, B>(), cov = c; m.note(p + " " + vs(v)); L big = is_cart<A>::value || kind<A>::value != kind<B>::value ? 0 : 2e-11L; /* same kind: the angle keeps its whole turns, and Boost's degree is 6.28318530718/360 radians */ L t = (acc<B>(v) + big + (std::is_same<typename A::type, float>::value ? 1e-5L : 0)) * s + 1e-300L;
    B b(a); m.check("same-point/ctor/" + p, near3(vec(b), v, t), cov, [&] { return vs(v) + " became " + vs(vec(b)); }); if (kind<A>::value != kind<B>::value) canon(m, b, cov, is_cart<B>());
    auto k = mk(kind<B>(), a); m.check("same-point/make/" + p, near3(vec(k), v, t), cov, [&] { return vs(v) + " became " + vs(vec(k)); });
    B as; as = B(a); A back(b); L t2 = (acc<A>(v) + acc<B>(v) + big) * s * 3 + 1e-300L; m.check("round-trip/" + p, near3(vec(back), v, t2) && near3(vec(as), v, t), cov, [&] { return vs(v) + " came back as " + vs(vec(back)); });
    B cp(b); m.check(S("copy/") + nm<B>::n(), vec(cp).x == vec(b).x && vec(cp).y == vec(b).y && vec(cp).z == vec(b).z && cp == b, cov, [&] { return vs(vec(cp)); });
}
template <class A, class B> void torep(Mon& m, Rng& r) {      // same length unit on both sides
    S c; A a = gen<A>(r, c); V3 v = vec(a); B b = a.template to_representation<B>(); m.check("same-point/to_representation/" + pr<A, B>(), near3(vec(b), v, acc<B>(v) * norm(v) + 1e-300L), c, [&] { return vs(v) + " became " + vs(vec(b)); });
    bool z = norm(v) == 0; m.check("equality-reflexive/" + pr<A, B>(), a == a && b == b, c, [&] { return vs(v); });
    V3 w = vec(b); S c2; B o = gen<B>(r, c2, true); V3 u = vec(o); if (norm(u - v) > 1e-5L * (norm(u) + norm(v))) m.check("different-points-differ/" + pr<A, B>(), !(a == o) && !(o == a), c + c2, [&] { return vs(v) + " == " + vs(u); }); (void)z; (void)w;
}
// equality of objects of one type that differ in one component only, by much or by little
template <class A> A bump(const A& a, int k, double f, double add, std::true_type) { typedef typename A::type T; A b(a); if (k == 0) b.set_x(A::quantity1::from_value((T)(a.get_x().value() * f + add))); else if (k == 1) b.set_y(A::quantity2::from_value((T)(a.get_y().value() * f + add))); else b.set_z(A::quantity3::from_value((T)(a.get_z().value() * f + add))); return b; }
template <class A> A bump(const A& a, int k, double f, double add, std::false_type) { typedef typename A::type T; A b(a); if (k == 0) b.set_lat(A::quantity1::from_value((T)(a.get_lat().value() * f + add))); else if (k == 1) b.set_lon(A::quantity2::from_value((T)(a.get_lon().value() * f + add))); else b.set_dist(A::quantity3::from_value((T)(a.get_dist().value() * f + add))); return b; }
template <class A> void equality(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c, true); int k = (int)r.below(3); double step = std::is_same<typename A::type, float>::value ? 1e-3 : r.chance(.5) ? 1e-8 : .25; A b = bump(a, k, 1 + step, r.chance(.5) ? step : 0, is_cart<A>()); V3 u = vec(a), v = vec(b); if (norm(u) < 1e-30L) return;
    L gap = norm(u - v) / norm(u); S cov = c + str(k) + (gap == 0 ? "=" : gap < 1e-6L ? "n" : "f"); if (gap > step * .01) m.check(S("one-component-differs/") + nm<A>::n(), !(a == b) && !(b == a), cov, [&] { return vs(u) + " == " + vs(v) + " component " + str(k); });
    A e(a); m.check(S("equal-to-its-copy/") + nm<A>::n(), a == e && e == a, cov, [&] { return vs(u); });
}
inline S fgi(int i) { return std::to_string(i); }
template <class A, class B, class C> auto make_like(std::integral_constant<int, 1>, A a, B b, C c) { return make_spherical_representation(a, b, c); }
template <class A, class B, class C> auto make_like(std::integral_constant<int, 2>, A a, B b, C c) { return make_spherical_equatorial_representation(a, b, c); }
template <class A> bool rel(const A& a, const A& b) { return std::fabs((double)(a.value() - b.value())) <= 4 * std::numeric_limits<typename A::value_type>::epsilon() * std::fabs((double)b.value()); }
template <class A> void access_sph(Mon& m, Rng& r) {
    S n = nm<A>::n(), c; double x = angle_deg(r, false, false, c), y = angle_deg(r, false, false, c); auto q1 = from_deg<typename A::quantity1>(x); auto q2 = from_deg<typename A::quantity2>(y); auto q3 = A::quantity3::from_value((typename A::type)coord(r));
    A a(q1, q2, q3); auto ok = [&](const A& z, decltype(q1) e1, decltype(q2) e2, decltype(q3) e3) { auto t = z.get_lat_lon_dist(); return rel(z.get_lat(), e1) && rel(z.get_lon(), e2) && z.get_dist() == e3 && std::get<0>(t) == z.get_lat() && std::get<1>(t) == z.get_lon() && std::get<2>(t) == z.get_dist(); };
    m.check("components-kept/" + n, ok(a, q1, q2, q3), c, [&] { return str(x) + " " + str(y); });
    for (int i = 0; i < 5; ++i) { S d; switch (r.below(4)) { case 0: q1 = from_deg<decltype(q1)>(angle_deg(r, false, false, d)); a.set_lat(q1); break; case 1: q2 = from_deg<decltype(q2)>(angle_deg(r, false, false, d)); a.set_lon(q2); break; case 2: q3 = decltype(q3)::from_value((typename A::type)coord(r)); a.set_dist(q3); break; default: q1 = from_deg<decltype(q1)>(angle_deg(r, false, false, d)); q3 = decltype(q3)::from_value((typename A::type)coord(r)); a.set_lat_lon_dist(q1, q2, q3); }
        m.check("setter-changes-only-its-component/" + n, ok(a, q1, q2, q3), d + fgi(i), [&] { return str(i); }); }
    A cp(a), as; as = a; m.check("copy-has-the-components/" + n, ok(cp, q1, q2, q3) && ok(as, q1, q2, q3), c, [&] { return n; });
    auto mkd = make_like(kind<A>(), q1, q2, q3); m.check("make-from-components/" + n, ok(mkd, q1, q2, q3), c, [&] { return n; });
}
template <class A> void access_cart(Mon& m, Rng& r) {
    typedef typename A::type T; S n = nm<A>::n(); auto q1 = A::quantity1::from_value((T)coord(r)); auto q2 = A::quantity2::from_value((T)coord(r)); auto q3 = A::quantity3::from_value((T)coord(r)); A a(q1, q2, q3);
    auto ok = [&](const A& z) { auto t = z.get_x_y_z(); return z.get_x() == q1 && z.get_y() == q2 && z.get_z() == q3 && std::get<0>(t) == q1 && std::get<1>(t) == q2 && std::get<2>(t) == q3; };
    m.check("components-kept/" + n, ok(a), "ctor", [&] { return n; });
    for (int i = 0; i < 5; ++i) { int k = (int)r.below(4); if (k == 0 || k == 3) q1 = decltype(q1)::from_value((T)coord(r)); if (k == 1 || k == 3) q2 = decltype(q2)::from_value((T)coord(r)); if (k == 2 || k == 3) q3 = decltype(q3)::from_value((T)coord(r)); if (k == 0) a.set_x(q1); else if (k == 1) a.set_y(q2); else if (k == 2) a.set_z(q3); else a.set_x_y_z(q1, q2, q3);
        m.check("setter-changes-only-its-component/" + n, ok(a), str(k) + str(i), [&] { return n; }); }
    A cp(a), as; as = a; auto mkd = make_cartesian_representation(q1, q2, q3); m.check("copy-has-the-components/" + n, ok(cp) && ok(as) && ok(mkd), "copy", [&] { return n; });
}
static void rescale(Mon& m, Rng& r) {           // make_x<new types>(x): same point in other units
    { S c; C1 a = gen<C1>(r, c); auto b = make_cartesian_representation<double, Qpc, Qau, Qcm>(a); m.check("same-point/new-units/cartesian", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(a)) + " " + vs(vec(b)); }); C2 d = gen<C2>(r, c); auto e = make_cartesian_representation<double, Qm, Qm, Qm>(d); m.check("same-point/new-units/cartesian", near3(vec(e), vec(d), 1e-11L * norm(vec(d)) + 1e-300L), c, [&] { return vs(vec(d)) + " " + vs(vec(e)); }); }
    { S c; S2 a = gen<S2>(r, c); auto b = make_spherical_representation<double, Qr, Qd, Qcm>(a); m.check("same-point/new-units/spherical", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(a)) + " " + vs(vec(b)); }); }
    { S c; E2 a = gen<E2>(r, c); auto b = make_spherical_equatorial_representation<double, Qr, Qd, Qau>(a); m.check("same-point/new-units/equatorial", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(a)) + " " + vs(vec(b)); }); }
    // geometry points, in their own systems
    { bg::model::point<double, 3, bg::cs::cartesian> p(coord(r), coord(r), coord(r)); V3 v{bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)}; auto c1 = make_cartesian_representation<double, Qm, Qm, Qm>(p); auto s1 = make_spherical_representation<double, Qd, Qd, Qm>(p); auto e1 = make_spherical_equatorial_representation<double, Qd, Qr, Qm>(p); L t = 1e-7L * norm(v) + 1e-300L;
      S c = S(v.x < 0 ? "-" : "+") + (v.y < 0 ? "-" : "+") + (v.z < 0 ? "-" : "+") + (norm(v) == 0 ? "0" : ""); m.check("same-point/from-geometry-point", near3(vec(c1), v, t) && near3(vec(s1), v, t) && near3(vec(e1), v, t), "cartesian" + c, [&] { return vs(v) + ": " + vs(vec(c1)) + vs(vec(s1)) + vs(vec(e1)); });
      S cc; double a = angle_deg(r, false, false, cc), b = angle_deg(r, true, false, cc), d = posnum(r); bg::model::point<double, 3, bg::cs::spherical<bg::degree>> q(a, b, d); V3 w = sph(a * PIl / 180, b * PIl / 180, d); C1 c2(q); S1 s2(q); E1 e2(q); t = 1e-7L * d;
      m.check("same-point/from-geometry-point", near3(vec(c2), w, t) && near3(vec(s2), w, t) && near3(vec(e2), w, t), "spherical" + cc, [&] { return vs(w) + ": " + vs(vec(c2)) + vs(vec(s2)) + vs(vec(e2)); }); }
}
template <class A> void self(Mon& m, Rng& r) { conv<A, C1>(m, r); conv<A, C2>(m, r); conv<A, S1>(m, r); conv<A, S2>(m, r); conv<A, E1>(m, r); conv<A, E2>(m, r); }
// ---- P21
typedef bu::quantity<bu::si::area> Qa;
template <class Q> L area(const Q& q) { return (L)static_cast<Qa>(q).value(); }
template <class Q> L len(const Q& q) { return (L)static_cast<Qm>(q).value(); }
template <class... A> V3 vec2(const cartesian_representation<A...>& p) { return {area(p.get_x()), area(p.get_y()), area(p.get_z())}; }
template <class... A> V3 vec2(const spherical_representation<A...>& p) { return sph(si(p.get_lat()), si(p.get_lon()), area(p.get_dist())); }
template <class... A> V3 vec2(const spherical_equatorial_representation<A...>& p) { return equ(si(p.get_lat()), si(p.get_lon()), area(p.get_dist())); }
template <class A> constexpr bool isf() { return std::is_same<typename A::type, float>::value; }
template <class A, class B> void pairlaws(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c); B b = gen<B>(r, c); if constexpr (std::is_same<typename A::type, typename B::type>::value) if (r.chance(.15)) { b = B(a); c += "="; } V3 u = vec(a), v = vec(b); L su = norm(u), sv = norm(v), fl = isf<A>() || (isf<B>() && !is_cart<B>::value) ? 1e-5L : 0, /* the result has the precision of the more precise operand, as far as its own type holds it */ fd = (isf<A>() && isf<B>()) || (isf<A>() && !is_cart<A>::value) || (isf<B>() && !is_cart<B>::value) ? 1e-5L : 0, e = fl + 1e-11L, e1 = acc<A>(u + v) + fl + 1e-11L; S p = pr<A, B>(); m.note(p + vs(u) + vs(v));
    L tiny = 1e-300L;
    auto s = sum(a, b); m.check("sum/" + p, near3(vec(s), u + v, e1 * (su + sv) + tiny), c, [&] { return vs(u) + "+" + vs(v) + " = " + vs(vec(s)); });
    auto pl = a + b; m.check("operator+/" + p, near3(vec(pl), u + v, e1 * (su + sv) + tiny), c, [&] { return vs(u) + "+" + vs(v) + " = " + vs(vec(pl)); });
    auto me = mean(a, b); m.check("mean/" + p, near3(vec(me), (u + v) * .5L, e1 * (su + sv) + tiny), c, [&] { return vs(u) + "," + vs(v) + " -> " + vs(vec(me)); });
    L d = area(dot(a, b)); m.check("dot/" + p, fabsl(d - dot3(u, v)) <= (fd + 1e-11L) * su * sv + tiny, c, [&] { return vs(u) + "." + vs(v) + " = " + str((double)d) + " not " + str((double)dot3(u, v)); });
    V3 x = vec2(cross(a, b)), y = cross3(u, v); if (fl == 0 || norm(y) > 1e-12L) /* single precision underflows when squared */ m.check("cross/" + p, near3(x, y, e * su * sv + acc<A>(y) * norm(y) + tiny), c, [&] { return vs(u) + "x" + vs(v) + " = " + vs(x) + " not " + vs(y); });
}
template <class A> V3 numbers(const A& n, std::true_type) { return {(L)n.get_x().value(), (L)n.get_y().value(), (L)n.get_z().value()}; }
template <class A> V3 numbers(const A& n, std::false_type) { return vec(n) * (1 / fac<typename A::quantity3::unit_type>::f()); }
// length one in its own units, along the vector
template <class A> void unitv(Mon& m, Rng& r) { S c; A a = gen<A>(r, c, true); V3 u = vec(a); if (norm(u) < 1e-30L) return; A n = unit_vector(a); V3 w = numbers(n, is_cart<A>()); m.check(S("unit-vector/") + nm<A>::n(), near3(w, u * (1 / norm(u)), std::is_same<typename A::type, float>::value ? 1e-5L : 1e-12L), c, [&] { return vs(u) + " -> " + vs(w); }); }
template <class A> void mags(Mon& m, Rng& r) { S c; A a = gen<A>(r, c); V3 u = vec(a); L g = len(magnitude(a)); m.check(S("magnitude/") + nm<A>::n(), fabsl(g - norm(u)) <= (std::is_same<typename A::type, float>::value ? 1e-5L : 1e-12L) * norm(u), c, [&] { return vs(u) + " has magnitude " + str((double)g); }); }
template <class A> void laws(Mon& m, Rng& r) { pairlaws<A, C1>(m, r); pairlaws<A, C2>(m, r); pairlaws<A, S1>(m, r); pairlaws<A, S2>(m, r); pairlaws<A, E1>(m, r); pairlaws<A, E2>(m, r); mags<A>(m, r); unitv<A>(m, r); }
int main(int argc, char** argv) {
    Mon m(argc, argv);
#ifndef ARITH
    if (m.wants("P20")) {
        m.run("convert", 6000, [&](Rng& r, std::uint64_t i) { switch (i % 6) { case 0: self<C1>(m, r); break; case 1: self<C2>(m, r); break; case 2: self<S1>(m, r); break; case 3: self<S2>(m, r); break; case 4: self<E1>(m, r); break; default: self<E2>(m, r); } });
        m.run("mixed-angles", 3000, [&](Rng& r, std::uint64_t) { conv<S3, S1>(m, r); conv<S3, S2>(m, r); conv<S1, S3>(m, r); conv<S2, S3>(m, r); conv<E3, E1>(m, r); conv<E3, E2>(m, r); conv<E1, E3>(m, r); conv<E2, E3>(m, r); conv<S3, E3>(m, r); conv<E3, S3>(m, r); conv<S3, C2>(m, r); conv<E3, C2>(m, r); conv<C2, S3>(m, r); conv<C2, E3>(m, r); access_sph<S3>(m, r); access_sph<E3>(m, r); equality<S3>(m, r); equality<E3>(m, r); });
        m.run("float", 3000, [&](Rng& r, std::uint64_t) { conv<Cf, Sf>(m, r); conv<Sf, Cf>(m, r); conv<Cf, Ef>(m, r); conv<Ef, Cf>(m, r); conv<Sf, Ef>(m, r); conv<Ef, Sf>(m, r); });
        m.run("long-double", 2000, [&](Rng& r, std::uint64_t) { conv<Cl, Sl>(m, r); conv<Sl, El>(m, r); conv<El, Cl>(m, r); conv<Cl, El>(m, r); conv<Sl, Cl>(m, r); conv<El, Sl>(m, r); });
        m.run("equality", 3000, [&](Rng& r, std::uint64_t) { equality<C1>(m, r); equality<C2>(m, r); equality<S1>(m, r); equality<S2>(m, r); equality<E1>(m, r); equality<E2>(m, r); equality<Cf>(m, r); equality<Sf>(m, r); equality<Ef>(m, r); });
        m.run("to_representation", 3000, [&](Rng& r, std::uint64_t) { torep<C1, S1>(m, r); torep<C1, E1>(m, r); torep<S1, C1>(m, r); torep<E1, C1>(m, r); torep<S1, S1>(m, r); torep<S1, E1>(m, r); torep<E1, S1>(m, r); torep<C1, C1>(m, r); });
        m.run("components", 3000, [&](Rng& r, std::uint64_t) { access_cart<C1>(m, r); access_cart<C2>(m, r); access_cart<Cf>(m, r); access_sph<S1>(m, r); access_sph<S2>(m, r); access_sph<Sf>(m, r); access_sph<E1>(m, r); access_sph<E2>(m, r); access_sph<Ef>(m, r); });
        m.run("catalogued", 1, [&](Rng&, std::uint64_t) { typedef cartesian_representation<double, Qcm, Qcm, Qcm> Cc; C1 a(1.0 * bu::si::meters, 2.0 * bu::si::meters, 3.0 * bu::si::meters); Cc b(Qcm::from_value(1), Qcm::from_value(2), Qcm::from_value(3)), c(a);
            m.finding("KF-equality-ignores-units", a == b || !(a == c), "(1,2,3) m compares " + S(a == b ? "equal" : "different") + " to (1,2,3) cm and " + (a == c ? "equal" : "different") + " to (100,200,300) cm");
            Cc t = a.to_representation<Cc>(); m.finding("KF-to-representation-ignores-units", !near3(vec(t), vec(a), 1e-9L), "(1,2,3) m turned into centimetres is " + vs(vec(t)) + " m"); });
        m.run("units", 3000, [&](Rng& r, std::uint64_t) { rescale(m, r); });
    }
#else
    if (m.wants("P21")) {
        m.run("mixed-precision", 3000, [&](Rng& r, std::uint64_t) { pairlaws<Cf, Cf>(m, r); pairlaws<C1, Cf>(m, r); pairlaws<C2, Cf>(m, r); pairlaws<S1, Cf>(m, r); pairlaws<E2, Cf>(m, r); { S c; Cf a = gen<Cf>(r, c); C1 b = gen<C1>(r, c); V3 u = vec(a), v = vec(b); L d = area(dot(a, b)); m.check("dot/single-with-double", fabsl(d - dot3(u, v)) <= 1e-11L * norm(u) * norm(v) + 1e-300L, c, [&] { return vs(u) + "." + vs(v) + " = " + str((double)d); }); } pairlaws<Sf, Ef>(m, r); pairlaws<Ef, Cf>(m, r); mags<Cf>(m, r); mags<Sf>(m, r); mags<Ef>(m, r); unitv<Cf>(m, r); });
        m.run("mixed-angles", 2000, [&](Rng& r, std::uint64_t) { pairlaws<S3, E3>(m, r); pairlaws<E3, S3>(m, r); pairlaws<S3, S1>(m, r); pairlaws<S2, S3>(m, r); pairlaws<E3, E1>(m, r); pairlaws<C1, E3>(m, r); pairlaws<C2, S3>(m, r); mags<S3>(m, r); mags<E3>(m, r); unitv<S3>(m, r); unitv<E3>(m, r); });
        m.run("laws", 6000, [&](Rng& r, std::uint64_t i) { switch (i % 6) { case 0: laws<C1>(m, r); break; case 1: laws<C2>(m, r); break; case 2: laws<S1>(m, r); break; case 3: laws<S2>(m, r); break; case 4: laws<E1>(m, r); break; default: laws<E2>(m, r); } });
    }
#endif
    return m.finish();
}
