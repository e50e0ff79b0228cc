// P22: a differential is the same vector in every system and unit; adding differentials and multiplying by a quantity act on that vector.
#include "coordgen.hpp"
using namespace bc;
typedef cartesian_differential<double, Vm, Vm, Vm> C1; typedef cartesian_differential<double, Vcm, Vm, Vcm> C2;
typedef spherical_differential<double, Qr, Qr, Vm> S1; typedef spherical_differential<double, Qd, Qr, Vcm> S2;
typedef spherical_equatorial_differential<double, Qr, Qr, Vm> E1; typedef spherical_equatorial_differential<double, Qd, Qr, Vcm> E2;
typedef spherical_coslat_differential<double, Qr, Qr, Vm> K1; typedef spherical_coslat_differential<double, Qd, Qd, Vcm> K2;
typedef spherical_differential<double, Qr, Qd, Vm> S3; typedef spherical_equatorial_differential<double, Qr, Qd, Vcm> E3; typedef spherical_coslat_differential<double, Qr, Qd, Vm> K3;
template <class T> struct nm;
#define N(T) template <> struct nm<T> { static const char* n() { return #T; } };
N(C1) N(C2) N(S1) N(S2) N(E1) N(E2) N(K1) N(K2) N(S3) N(E3) N(K3)
template <class A, class B> S pr() { return S(nm<A>::n()) + ">" + nm<B>::n(); }
template <class B> using kind = std::integral_constant<int, is_cart<B>::value ? 0 : is_equ<B>::value ? 2 : is_coslat<B>::value ? 3 : 1>;
template <class A> auto mk(std::integral_constant<int, 0>, const A& a) { return make_cartesian_differential(a); }
template <class A> auto mk(std::integral_constant<int, 1>, const A& a) { return make_spherical_differential(a); }
template <class A> auto mk(std::integral_constant<int, 2>, const A& a) { return make_spherical_equatorial_differential(a); }
template <class A> auto mk(std::integral_constant<int, 3>, const A& a) { return make_spherical_coslat_differential(a); }
#define FLT(A, B) (std::is_same<typename A::type, float>::value || std::is_same<typename B::type, float>::value ? 1e-5L : 1e-11L)
// cos(lat)-scaled forms divide by cos(lat), so they keep the wide bound
template <class R> L tight(V3 v) { return is_coslat<R>::value ? eps_of<R>() : acc<R>(v) + 1e-11L; }
template <class A, class B> void conv(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c); V3 v = vec(a); L s = norm(v), t = (tight<B>(v) + FLT(A, B)) * s + 1e-300L; S p = pr<A, B>(); m.note(p + vs(v)); if (s == 0) c += "z";
    B b(a); auto k = mk(kind<B>(), a); if (!readable(b, v) || !readable(k, v)) return;
    m.check("same-vector/ctor/" + p, s == 0 ? norm(vec(b)) == 0 : near3(vec(b), v, t), c, [&] { return vs(v) + " became " + vs(vec(b)); });
    m.check("same-vector/make/" + p, s == 0 ? norm(vec(k)) == 0 : near3(vec(k), v, t), c, [&] { return vs(v) + " became " + vs(vec(k)); });
    A back(b); if (readable(back, v)) m.check("round-trip/" + p, near3(vec(back), v, 3 * (tight<A>(v) + tight<B>(v)) * s + 1e-300L), c, [&] { return vs(v) + " came back as " + vs(vec(back)); });
    B cp(b), as; as = b; m.check(S("copy/") + nm<B>::n(), norm(vec(cp) - vec(b)) == 0 && norm(vec(as) - vec(b)) == 0 && cp == b, c, [&] { return vs(vec(cp)); });
}
template <class A, class B> void add(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c); B b = gen<B>(r, c); V3 u = vec(a), v = vec(b); m.note(pr<A, B>() + vs(u) + vs(v)); auto s = a + b; if (!readable(s, u)) return; static_assert(std::is_same<decltype(s), A>::value, "sum has the type of its first operand");
    m.check("sum/" + pr<A, B>(), near3(vec(s), u + v, (tight<A>(u + v) + FLT(A, B)) * (norm(u) + norm(v)) + 1e-300L), c, [&] { return vs(u) + "+" + vs(v) + " = " + vs(vec(s)); });
}
template <class Q> L len(const Q& q) { return (L)static_cast<Qm>(q).value(); }
template <class... A> V3 vecl(const cartesian_differential<A...>& p) { return {len(p.get_dx()), len(p.get_dy()), len(p.get_dz())}; }
template <class... A> V3 vecl(const spherical_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon()), len(p.get_ddist())); }
template <class... A> V3 vecl(const spherical_equatorial_differential<A...>& p) { return equ(si(p.get_dlat()), si(p.get_dlon()), len(p.get_ddist())); }
template <class... A> V3 vecl(const spherical_coslat_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon_coslat()) / cosl(si(p.get_dlat())), len(p.get_ddist())); }
template <class Q> L vel(const Q& q) { return (L)static_cast<Vm>(q).value(); }
template <class... A> V3 vecv(const cartesian_differential<A...>& p) { return {vel(p.get_dx()), vel(p.get_dy()), vel(p.get_dz())}; }
template <class... A> V3 vecv(const spherical_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon()), vel(p.get_ddist())); }
template <class... A> V3 vecv(const spherical_equatorial_differential<A...>& p) { return equ(si(p.get_dlat()), si(p.get_dlon()), vel(p.get_ddist())); }
template <class... A> V3 vecv(const spherical_coslat_differential<A...>& p) { return sph(si(p.get_dlat()), si(p.get_dlon_coslat()) / cosl(si(p.get_dlat())), vel(p.get_ddist())); }
template <class A> void times(Mon& m, Rng& r) {
    S c; A a = gen<A>(r, c); V3 u = vec(a); double t = r.chance(.1) ? 0 : coord(r); auto d = a * (t * bu::si::seconds); V3 w = vecl(d); m.check(S("product-with-time/") + nm<A>::n(), near3(w, u * t, tight<A>(u) * norm(u) * fabsl(t) + 1e-300L), c + (t < 0 ? "-" : t == 0 ? "0" : "+"), [&] { return vs(u) + " * " + str(t) + " s = " + vs(w); });
}
template <class A> void scaled(Mon& m, Rng& r) {       // product with a pure number keeps the kind and the unit
    S c; A a = gen<A>(r, c); V3 u = vec(a); double t = r.chance(.1) ? 0 : coord(r); auto d = a * bu::quantity<bu::si::dimensionless>(t); V3 w = vecv(d); m.check(S("product-with-number/") + nm<A>::n(), near3(w, u * t, tight<A>(u) * norm(u) * fabsl(t) + 1e-300L), c + (t < 0 ? "-" : t == 0 ? "0" : "+"), [&] { return vs(u) + " * " + str(t) + " = " + vs(w); });
}
template <class A> void lengths(Mon& m, Rng& r) {       // one unit for all components
    S c; A a = gen<A>(r, c, true); V3 u = vec(a); L k = fac<typename A::quantity3::unit_type>::f(); m.check(S("magnitude/") + nm<A>::n(), fabsl(a.magnitude() * k - norm(u)) <= 1e-11L * norm(u), c, [&] { return vs(u) + " has magnitude " + str(a.magnitude()); });
    V3 w = vec(a.template unit_vector<C1>()); m.check(S("unit-vector/") + nm<A>::n(), near3(w, u * (1 / norm(u)), 1e-11L), c, [&] { return vs(u) + " -> " + vs(w); });
    C1 tc = a.template to_differential<C1>(); E1 te = a.template to_differential<E1>(); S1 ts = a.template to_differential<S1>(); V3 n = u * (1 / k); L e = 1e-7L * norm(n); m.check(S("to_differential/") + nm<A>::n(), near3(vec(tc), n, e) && near3(vec(te), n, e) && near3(vec(ts), n, e), c, [&] { return vs(u) + " -> " + vs(vec(tc)) + vs(vec(te)) + vs(vec(ts)); });
}
template <class A> bool rel(const A& a, const A& b) { return std::fabs((double)(a.value() - b.value())) <= 4 * std::numeric_limits<typename A::value_type>::epsilon() * std::fabs((double)b.value()); }
#define ACC(NAME, SETA, SETB, SETD, SETALL, GETA, GETB, GETD, GETALL, MAKE) \
template <class A> void NAME(Mon& m, Rng& r) { S n = nm<A>::n(), c; typedef typename A::quantity1 Q1; typedef typename A::quantity2 Q2; typedef typename A::quantity3 Q3; \
    auto n1 = [&] { return is_cart<A>::value ? Q1::from_value(coord(r)) : ang<Q1>(angle_deg(r, false, false, c)); }; auto n2 = [&] { return is_cart<A>::value ? Q2::from_value(coord(r)) : ang<Q2>(angle_deg(r, false, false, c)); }; auto n3 = [&] { return Q3::from_value(coord(r)); }; \
    Q1 q1 = n1(); Q2 q2 = n2(); Q3 q3 = n3(); A a(q1, q2, q3); auto ok = [&](const A& z) { auto t = z.GETALL(); return rel(z.GETA(), q1) && rel(z.GETB(), q2) && rel(z.GETD(), q3) && std::get<0>(t) == z.GETA() && std::get<1>(t) == z.GETB() && std::get<2>(t) == z.GETD(); }; \
    m.check("components-kept/" + n, ok(a), c, [&] { return n; }); \
    for (int i = 0; i < 5; ++i) { int k = (int)r.below(4); if (k == 0 || k == 3) q1 = n1(); if (k == 1 || k == 3) q2 = n2(); if (k == 2 || k == 3) q3 = n3(); if (k == 0) a.SETA(q1); else if (k == 1) a.SETB(q2); else if (k == 2) a.SETD(q3); else a.SETALL(q1, q2, q3); m.check("setter-changes-only-its-component/" + n, ok(a), std::to_string(k) + std::to_string(i), [&] { return n; }); } \
    A cp(a), as; as = a; m.check("copy-has-the-components/" + n, ok(cp) && ok(as) && ok(MAKE(q1, q2, q3)), c, [&] { return n; }); }
template <class Q> typename std::enable_if<std::is_same<typename bu::get_dimension<Q>::type, bu::plane_angle_dimension>::value, Q>::type ang(double d) { return from_deg<Q>(d); }
template <class Q> typename std::enable_if<!std::is_same<typename bu::get_dimension<Q>::type, bu::plane_angle_dimension>::value, Q>::type ang(double d) { return Q::from_value(d); }
ACC(acc_c, set_dx, set_dy, set_dz, set_dx_dy_dz, get_dx, get_dy, get_dz, get_dx_dy_dz, make_cartesian_differential)
ACC(acc_s, set_dlat, set_dlon, set_ddist, set_dlat_dlon_ddist, get_dlat, get_dlon, get_ddist, get_dlat_dlon_ddist, make_spherical_differential)
ACC(acc_e, set_dlat, set_dlon, set_ddist, set_dlat_dlon_ddist, get_dlat, get_dlon, get_ddist, get_dlat_dlon_ddist, make_spherical_equatorial_differential)
ACC(acc_k, set_dlat, set_dlon_coslat, set_ddist, set_dlat_dlon_coslat_ddist, get_dlat, get_dlon_coslat, get_ddist, get_dlat_dlon_coslat_ddist, make_spherical_coslat_differential)
static void rescale(Mon& m, Rng& r) {
    { S c; C1 a = gen<C1>(r, c); auto b = make_cartesian_differential<double, Vcm, Vm, Vcm>(a); m.check("new-units/cartesian", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(b)); }); }
    { S c; S2 a = gen<S2>(r, c); auto b = make_spherical_differential<double, Qr, Qd, Vm>(a); m.check("new-units/spherical", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(b)); }); }
    { S c; E2 a = gen<E2>(r, c); auto b = make_spherical_equatorial_differential<double, Qr, Qd, Vm>(a); m.check("new-units/equatorial", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(b)); }); }
    { S c; K2 a = gen<K2>(r, c); auto b = make_spherical_coslat_differential<double, Qr, Qr, Vm>(a); m.check("new-units/coslat", near3(vec(b), vec(a), 1e-11L * norm(vec(a)) + 1e-300L), c, [&] { return vs(vec(b)); }); }
    { bg::model::point<double, 3, bg::cs::cartesian> p(coord(r), coord(r), coord(r)); V3 v{bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)}; auto c1 = make_cartesian_differential<double, Vm, Vm, Vm>(p); auto s1 = make_spherical_differential<double, Qd, Qd, Vm>(p); auto e1 = make_spherical_equatorial_differential<double, Qd, Qr, Vm>(p); L t = 1e-7L * norm(v) + 1e-300L; m.check("from-geometry-point", near3(vec(c1), v, t) && near3(vec(s1), v, t) && near3(vec(e1), v, t), S(v.x < 0 ? "-" : "+") + (v.y < 0 ? "-" : "+") + (v.z < 0 ? "-" : "+"), [&] { return vs(v) + vs(vec(c1)) + vs(vec(s1)) + vs(vec(e1)); });
      { C1 c2(p); S1 s2(p); E1 e2(p); m.check("constructed-from-geometry-point", near3(vec(c2), v, t) && near3(vec(s2), v, t) && near3(vec(e2), v, t), S(v.x == 0 ? "0" : "+") + (v.y == 0 ? "0" : "+") + (v.z == 0 ? "0" : "+"), [&] { return vs(v) + vs(vec(c2)) + vs(vec(s2)) + vs(vec(e2)); }); }
      // whether the longitude of the point is taken to include cos(lat) is not said; either way it is this vector
      { K1 k1(p), k2 = make_spherical_coslat_differential<double, Qr, Qr, Vm>(p); auto plain = [](const K1& k) { return sph(si(k.get_dlat()), si(k.get_dlon_coslat()), si(k.get_ddist())); }; auto ok = [&](const K1& k) { return near3(plain(k), v, t) || near3(vec(k), v, 1e-5L * norm(v) + 1e-300L); }; m.check("constructed-from-geometry-point/coslat", ok(k1) && ok(k2), S(v.x == 0 ? "0" : "+") + (v.y == 0 ? "0" : "+") + (v.z == 0 ? "0" : "+"), [&] { return vs(v) + vs(plain(k1)) + vs(plain(k2)); }); }
      S cc; double a = angle_deg(r, false, false, cc), b = angle_deg(r, true, false, cc), d = posnum(r); bg::model::point<double, 3, bg::cs::spherical<bg::degree>> q(a, b, d); V3 w = sph(a * PIl / 180, b * PIl / 180, d); C1 c3(q); S1 s3(q); E1 e3(q); t = 1e-7L * d;
      m.check("constructed-from-geometry-point", near3(vec(c3), w, t) && near3(vec(s3), w, t) && near3(vec(e3), w, t), "spherical" + cc, [&] { return vs(w) + ": " + vs(vec(c3)) + vs(vec(s3)) + vs(vec(e3)); }); }
}
template <class A> void all(Mon& m, Rng& r) { conv<A, C1>(m, r); conv<A, C2>(m, r); conv<A, S1>(m, r); conv<A, S2>(m, r); conv<A, E1>(m, r); conv<A, E2>(m, r); conv<A, K1>(m, r); conv<A, K2>(m, r); times<A>(m, r); scaled<A>(m, r);
    add<A, C1>(m, r); add<A, C2>(m, r); add<A, S1>(m, r); add<A, S2>(m, r); add<A, E1>(m, r); add<A, E2>(m, r); add<A, K1>(m, r); add<A, K2>(m, r); }
int main(int argc, char** argv) {
    Mon m(argc, argv);
    m.run("vectors", 6400, [&](Rng& r, std::uint64_t i) { switch (i % 8) { case 0: all<C1>(m, r); lengths<C1>(m, r); break; case 1: all<C2>(m, r); break; case 2: all<S1>(m, r); lengths<S1>(m, r); break; case 3: all<S2>(m, r); lengths<S2>(m, r); break; case 4: all<E1>(m, r); lengths<E1>(m, r); break; case 5: all<E2>(m, r); lengths<E2>(m, r); break; case 6: all<K1>(m, r); break; default: all<K2>(m, r); } });
    m.run("mixed-angles", 3000, [&](Rng& r, std::uint64_t) { conv<S3, S1>(m, r); conv<S2, S3>(m, r); conv<E3, E1>(m, r); conv<E2, E3>(m, r); conv<S3, E3>(m, r); conv<E3, S3>(m, r); conv<S3, C2>(m, r); conv<E3, C2>(m, r); conv<C2, S3>(m, r); conv<C2, E3>(m, r); conv<K3, K1>(m, r); conv<K2, K3>(m, r); conv<K3, S3>(m, r); conv<S3, K3>(m, r); conv<E3, K3>(m, r); conv<K3, C1>(m, r); add<S3, E3>(m, r); add<E3, S3>(m, r); add<K3, S3>(m, r); times<S3>(m, r); times<E3>(m, r); times<K3>(m, r); scaled<S3>(m, r); scaled<E3>(m, r); scaled<K3>(m, r); acc_s<S3>(m, r); acc_e<E3>(m, r); acc_k<K3>(m, r); });
    m.run("components", 3000, [&](Rng& r, std::uint64_t) { acc_c<C1>(m, r); acc_c<C2>(m, r); acc_s<S1>(m, r); acc_s<S2>(m, r); acc_e<E1>(m, r); acc_e<E2>(m, r); acc_k<K1>(m, r); acc_k<K2>(m, r); });
    m.run("units", 3000, [&](Rng& r, std::uint64_t) { rescale(m, r); });
    return m.finish();
}
