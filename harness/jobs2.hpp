// Further jobs: frames, coordinates, rotations, printing, times and lengths; headers alone, encodings, edits and what is refused.
#pragma once
#include "jobs.hpp"
#include <boost/astronomy/coordinate/ref_frame/cirs.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/units/length.hpp>
template <class T> S shown(const T& x) { std::ostringstream o; o.imbue(std::locale::classic()); o.precision(17); o << x; return o.str() + ";"; }
template <class F> S frame_job(Rng& r) {
    typedef typename F::representation Re; typedef typename F::differential Di; S c; auto a = Re::quantity1::from_value(r.real(-80, 80)); auto b = Re::quantity2::from_value(r.real(0, 360)); auto d = Re::quantity3::from_value(r.real(1, 100)); auto pa = Di::quantity1::from_value(r.real(-1, 1)); auto pb = Di::quantity2::from_value(r.real(-1, 1)); auto v = Di::quantity3::from_value(r.real(-9, 9));
    F f(a, b, d, pa, pb, v), g(f), h; h = g; h.set_differential(Di(pb, pa, v)); bc::sky_point<F> p(f), q(F(Re(b, a, d))), n; n.set_point(h); auto t = n.get_point(); auto pm = t.get_proper_motion(); auto dt = t.get_data();
    return shown(p.separation(q).value()) + shown(q.positional_angle(p).value()) + shown(std::get<0>(pm).value()) + shown(std::get<1>(pm).value()) + shown(t.get_radial_velocity().value()) + shown(dt.get_lat().value()) + shown(dt.get_lon().value()) + shown(dt.get_dist().value()) + shown(p.is_equivalent_system(q));
}
template <class M> S mat(M m) { S d; for (std::size_t i = 0; i < m.size1(); ++i) for (std::size_t j = 0; j < m.size2(); ++j) d += shown((double)m(i, j)); return d; }
static S sky_job(Rng& r) {
    typedef bc::spherical_representation<double, Qd, Qd, Qm> Re; typedef bc::spherical_coslat_differential<double, Qd, Qd, Vm> Di; S d; namespace bt = boost::astronomy::time;
    part(d, [&] { return frame_job<bc::icrs<Re, Di>>(r) + frame_job<bc::cirs<Re, Di>>(r); }); part(d, [&] { return frame_job<bc::galactic<Re, Di>>(r) + frame_job<bc::supergalactic<Re, Di>>(r); }); part(d, [&] { return frame_job<bc::geocentric<Re, Di>>(r) + frame_job<bc::heliocentric<Re, Di>>(r) + frame_job<bc::alt_az<Re, Di>>(r); });
    double x = r.real(-180, 180), y = r.real(-90, 90), z = r.real(0, 360); Qd p = Qd::from_value(x), q = Qd::from_value(y), s = Qd::from_value(z);
    part(d, [&] { bc::horizon_coord<double, Qd, Qd> a(q, s); bc::galactic_coord<double, Qd, Qd> b(s, q); bc::ecliptic_coord<double, Qd, Qd> c(q, s); bc::equatorial_ra_coord<double, Qd, Qd> e(s, q); bc::equatorial_ha_coord<double, Qd, Qd> f(p, q); S t = shown(a) + shown(b) + shown(c) + shown(e) + shown(f); a.set_azimuth(p); b.set_lat(p); return t + shown(a) + shown(b); });
    part(d, [&] { return mat(bc::ha_dec_horizon<double, Qd, double>(q).get()) + mat(bc::ha_dec_ra_dec<double, Qd, double>(s).get()) + mat(bc::ecliptic_to_ra_dec<double, Qd, double>(q).get()) + mat(bc::ra_dec_to_ecliptic<double, Qd, double>(q).get()) + mat(bc::galactic_to_ra_dec<>().get()) + mat(bc::ra_dec_to_galactic<>().get()) + mat(bc::column_vector<double, Qd, double>(p, q).get()); });
    int ye = (int)r.range(1400, 9999), mo = (int)r.range(1, 12), da = (int)r.range(1, 28); long se = (long)r.below(86400), us = (long)r.below(1000000); boost::posix_time::ptime t(boost::gregorian::date(ye, mo, da), boost::posix_time::seconds(se) + boost::posix_time::microseconds(us));
    part(d, [&] { auto g = bt::GST(t); return shown(bt::julian_date(t)) + shown(g.get()) + shown(g.get_hours()) + shown(g.get_minutes()) + shown(g.get_seconds()) + shown(g) + shown(bt::LST(x, bt::DIRECTION::WEST, t).get()) + shown(bt::LST(0, bt::DIRECTION::EAST, t).get()) + shown(bt::LST(x, bt::DIRECTION::EAST, t).get()) + shown(decimal_hour((double)(se % 24), (double)(se % 60), x).get()) + shown(bc::obliquity_of_ecliptic(t.date()).get().value()); });
    part(d, [&] { namespace bu = boost::units; namespace bau = boost::astronomy::units; bu::quantity<bu::si::length> m = z * bu::si::meters; bu::quantity<bau::length_parsec> pc(m); bu::quantity<bau::length_light_year> ly(pc); bu::quantity<bau::length_astronomical_unit> au(ly); bu::quantity<bau::length_light_day> ld(au); bu::quantity<bau::length_light_hour> lh(ld); bu::quantity<bau::length_light_minute> lm(lh); bu::quantity<bau::length_light_second> ls(lm); return shown(pc.value()) + shown(ly.value()) + shown(au.value()) + shown(ld.value()) + shown(lh.value()) + shown(lm.value()) + shown(ls.value()) + shown(bu::quantity<bu::si::length>(ls).value()); });
    part(d, [&] { S c; SD m1 = gen<SD>(r, c, true); CD m2 = gen<CD>(r, c, true); KD m3(m1); return shown(m1.magnitude()) + shown(m2.magnitude()) + v17(vec(m2.unit_vector<CD>())) + v17(vec(m3 + m1)) + shown(m2 == m2) + shown(m1 == SD(m2)); });
    part(d, [&] { S c; C a = gen<C>(r, c, true); SP b = gen<SP>(r, c, true); E e = gen<E>(r, c, true); return v17(vec(bc::unit_vector(a))) + v17(vec(bc::unit_vector(b))) + rawpt(bc::cross(e, b)) + shown(bc::magnitude(a).value()) + v17(vec(bc::mean(e, a))) + v17(vec(bc::sum(b, e))) + shown(bc::dot(a, e).value()) + shown(b == SP(a)); });
    return d;
}
struct names_of : boost::static_visitor<S> {
    const hdu& h; names_of(const hdu& x) : h(x) {}
    S operator()(boost::blank&) const { return "-"; }
    S operator()(io::primary_hdu& p) const { S d; auto hd = p.get_header(); part(d, [&] { return shown(hd.card_count()) + shown(hd.data_size()) + hd.get_hdu_name(); }); part(d, [&] { return hd.template value_of<S>("NOSUCHKW"); }); part(d, [&] { return shown(hd.naxis(99)); }); part(d, [&] { return shown(p.template get_data<io::bitpix::_B64>().size()); }); part(d, [&] { return shown(p.template get_data<io::bitpix::B8>().size()); }); return d; }
    template <class T> S table(T& t) const { S d; for (auto& c : h.cols) part(d, [&] { auto m = t.get_column_metadata(c.ttype); return m.TTYPE() + m.TFORM() + m.TUNIT() + m.TDISP() + m.comment() + shown(m.TBCOL()) + shown(m.TSCAL()) + shown(m.TZERO()) + shown(m.index()); }); part(d, [&] { t.get_column_metadata("absent" + fg::num(h.rows)); return S(); }); part(d, [&] { T u(t), w; w = u; w.set_data(""); w.set_data("short"); return S(); }); return d; }
    S operator()(io::binary_table& t) const { S d = table(t); part(d, [&] { t.template get_column<double>("no such column"); return S(); }); return d; }
    S operator()(io::ascii_table& t) const { S d = table(t); part(d, [&] { t.template get_column<double>("no such column"); return S(); }); return d; }
};
template <class T> S both(T v, std::size_t n) { typedef io::binary_data_converter B; S d; part(d, [&] { S b = B::serialize(v); return H(b) + cell(B::deserialize_to<T>(b, n)); }); return d; }
static S odd_job(const fg::file& f, const S& in, const S& out, Rng& r) {
    S d; part(d, [&] { reader_t a = io::fits::open(in, io::reading_options::read_only_headers); S s; std::size_t n = a.get_hdu_list().size(); for (std::size_t i = 0; i < n && i < f.hdus.size(); ++i) s += boost::apply_visitor(names_of(f.hdus[i]), a[(int)i]); auto b = a.get_control_block_info(); for (auto& x : b.hdus_info) s += x.first + shown(x.second.header_location) + shown(x.second.data_location) + shown(x.second.hdu_index); part(s, [&] { a["no such unit"]; return S(); }); part(s, [&] { a[99]; return S(); }); return s; });
    part(d, [&] { reader_t a = io::fits::open(in); S s; std::size_t n = a.get_hdu_list().size(); for (std::size_t i = 0; i < n && i < f.hdus.size(); ++i) s += boost::apply_visitor(names_of(f.hdus[i]), a[(int)i]); return s; });
    std::size_t cut = r.below(f.bytes.size()); part(d, [&] { fg::dump(out, f.bytes.substr(0, cut)); reader_t a = io::fits::open(out); return shown(a.get_hdu_list().size()); }); part(d, [&] { io::fits::open(in + ".missing"); return S(); }); part(d, [&] { reader_t a = io::fits::open(in); a.write_to(in + "/no/such/place"); return S(); });
    part(d, [&] { io::fits_stream s; s.set_file(in); S t; for (int i = 0; i < 5; ++i) { s.set_reading_pos(r.below(f.bytes.size())); t += shown((int)s.get()) + shown(s.get_current_pos()) + shown(s.find_unit_end()); s.set_unit_end(); t += shown(s.at_end()); } return t; });
    std::size_t n = 1 + r.below(4); std::vector<double> vd; std::vector<float> vf; std::vector<std::int16_t> vs2; std::vector<std::int32_t> vi; std::vector<bool> vb; std::vector<std::complex<float>> vc; std::vector<std::complex<double>> vz; std::vector<char> vt; std::vector<std::uint8_t> vu; std::vector<std::pair<std::int32_t, std::int32_t>> vp; for (std::size_t i = 0; i < n; ++i) { double x = r.real(-1e6, 1e6); vd.push_back(x); vf.push_back((float)x); vs2.push_back((std::int16_t)x); vi.push_back((int)x); vb.push_back(x > 0); vc.emplace_back((float)x, 2.f); vz.emplace_back(x, -x); vt.push_back((char)('a' + i)); vu.push_back((std::uint8_t)(200 + i)); vp.emplace_back((int)x, (int)i); }
    d += both(vd, n) + both(vf, n) + both(vs2, n) + both(vi, n) + both(vb, n) + both(vc, n) + both(vz, n) + both(vt, n) + both(vu, n) + both(vp, n) + both(vd[0], 1) + both(vf[0], 1) + both(vs2[0], 1) + both(vi[0], 1) + both(vc[0], 1) + both(vz[0], 1) + both(vt[0], 1) + both(vu[0], 1) + both(vp[0], 1); part(d, [&] { return cell(io::binary_data_converter::deserialize_to<std::vector<double>>("short", 3)); });
    for (S t : {S("(1 2)"), S("(1.5,  -2)"), S("T"), S("x"), S("1E400"), S("inf"), S("'text'"), S("'open")}) part(d, [&] { S w = "KEY     = " + t; w.resize(80, ' '); card_t k(w); S e; part(e, [&] { return cell(k.value<std::complex<double>>()); }); part(e, [&] { return cell(k.value<std::complex<float>>()); }); part(e, [&] { return cell(k.value<bool>()); }); part(e, [&] { return cell(k.value<double>()); }); part(e, [&] { return k.value<S>(); }); return e; });
    for (S t : {S("1,5"), S("1.5"), S("12.345"), S("12,345"), S("1.000,5"), S("1,000.5"), S("1'000"), S("1 000"), S("-,5"), S("1,5E3"), S("1,5D3"), S("t"), S("i"), S("INF"), S("nan")}) part(d, [&] { S w = "KEY     = " + t, e; w.resize(80, ' '); part(e, [&] { return cell(io::ascii_converter::deserialize_to<double>(t, 0)); }); part(e, [&] { return cell(io::ascii_converter::deserialize_to<float>(t, 0)); }); part(e, [&] { return cell(io::ascii_converter::deserialize_to<int>(t, 0)); }); part(e, [&] { return cell(io::ascii_converter::deserialize_to<long long>(t, 0)); }); card_t k(w); part(e, [&] { return cell(k.value<double>()); }); part(e, [&] { return cell(k.value<int>()); }); part(e, [&] { return cell(k.value<bool>()); }); return e; });
    part(d, [&] { card_t k; k.create_card("KEYWORDTOOLONG", 1, ""); return k.raw_card(); }); part(d, [&] { card_t k; k.create_card("KEY", S("'") + S(90, 'x') + "'", ""); return k.raw_card(); }); part(d, [&] { card_t k(S(81, 'x')); return k.raw_card(); }); part(d, [&] { card_t k; k.create_card("CPLX", std::complex<double>(vd[0], 1), "c"); return k.raw_card() + cell(k.value<std::complex<double>>()); });
    return d;
}
