// Jobs on files, cards, coordinates and times that give all they observe as text, for monitors that compare runs of the same job.
#pragma once
#include <iomanip>
#include "fitsgen.hpp"
#include "coordgen.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/io/image_extension.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/ref_frame/icrs.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/time/time_conversions.hpp>
using namespace boost::astronomy; typedef decltype(io::fits::open("")) reader_t; typedef io::card<io::card_policy> card_t; typedef io::header<io::card_policy> header_t; using fg::hdu;
static S H(const S& s) { std::ostringstream o; o.imbue(std::locale::classic()); o << std::hex << hash_str(s); return o.str(); }
template <class F> void part(S& d, F f) { try { d += f() + "|"; } catch (const std::exception& e) { d += S("!") + e.what() + "|"; } }
template <class T> S cell(const T& v) { std::ostringstream o; o.imbue(std::locale::classic()); o.precision(17); o << v; return o.str(); }
inline S cell(const std::uint8_t& v) { return std::to_string((int)v); }
inline S cell(const char& v) { return std::to_string((int)(unsigned char)v); }
inline S cell(const std::pair<std::int32_t, std::int32_t>& v) { return std::to_string(v.first) + ":" + std::to_string(v.second); }
template <class T> S cell(const std::vector<T>& v) { S s; for (std::size_t i = 0; i < v.size(); ++i) s += cell((T)v[i]) + ","; return s; }
template <class T, class Tab> S scan(Tab& t, const S& n) { auto& v = t.template get_column<T>(n); S d; for (auto x : v) { T y = x; d += cell(y) + ";"; } if (v.get_row_count()) { T y = v[(int)v.get_row_count() - 1]; v[0] = y; T z = v[0]; d += cell(z); } return d; }
struct look : boost::static_visitor<S> {
    const hdu& h; look(const hdu& x) : h(x) {}
    S operator()(boost::blank&) const { return ""; }
    template <io::bitpix B, class P> S im(P& p) const { auto i = p.template get_data<B>(); S d = i.write_image(); if (i.size()) d += str(i.mean()) + str(i.median()) + str(i.std_dev()) + str((double)i.max()) + str((double)i.min()); return d; }
    S operator()(io::primary_hdu& p) const { S d; part(d, [&] { switch (h.bitpix) { case 8: return im<io::bitpix::B8>(p); case 16: return im<io::bitpix::B16>(p); case 32: return im<io::bitpix::B32>(p); case -32: return im<io::bitpix::_B32>(p); default: return im<io::bitpix::_B64>(p); } }); return d; }
    S operator()(io::binary_table& t) const { S d; for (auto& c : h.cols) part(d, [&]() -> S { bool one = c.repeat == 1; auto& n = c.ttype; switch (c.type) {
        case 'L': return one ? scan<bool>(t, n) : scan<std::vector<bool>>(t, n); case 'I': return one ? scan<std::int16_t>(t, n) : scan<std::vector<std::int16_t>>(t, n); case 'J': return one ? scan<std::int32_t>(t, n) : scan<std::vector<std::int32_t>>(t, n);
        case 'E': return one ? scan<float>(t, n) : scan<std::vector<float>>(t, n); case 'D': return one ? scan<double>(t, n) : scan<std::vector<double>>(t, n); case 'C': return one ? scan<std::complex<float>>(t, n) : scan<std::vector<std::complex<float>>>(t, n); case 'M': return one ? scan<std::complex<double>>(t, n) : scan<std::vector<std::complex<double>>>(t, n);
        case 'A': return one ? scan<char>(t, n) : scan<std::vector<char>>(t, n); case 'P': return one ? scan<std::pair<std::int32_t, std::int32_t>>(t, n) : scan<std::vector<std::pair<std::int32_t, std::int32_t>>>(t, n); default: return scan<std::vector<std::uint8_t>>(t, n); } }); return d; }
    S operator()(io::ascii_table& t) const { S d; for (auto& c : h.cols) part(d, [&]() -> S { switch (c.type) { case 'I': return scan<long long>(t, c.ttype); case 'A': return scan<S>(t, c.ttype); case 'F': return scan<float>(t, c.ttype); default: return scan<double>(t, c.ttype); } }); return d; }
};
static S file_job(const fg::file& f, const S& in, const S& out) {
    S d; part(d, [&] { reader_t a = io::fits::open(in); S s; std::size_t n = a.get_hdu_list().size(); for (std::size_t i = 0; i < n && i < f.hdus.size(); ++i) { s += boost::apply_visitor(look(f.hdus[i]), a[(int)i]); } a.write_to(out); s += fg::slurp(out); s += std::to_string(a.get_control_block_info().total_hdus()); return s; });
    part(d, [&] { io::fits_stream s; s.set_file(in); S t; while (!s.at_end() && t.size() < 4000) { header_t h; h.read_header(s); s.set_unit_end(); t += h.get_hdu_name() + std::to_string(h.card_count()) + std::to_string(h.data_size()); for (auto& k : f.hdus[0].keys) if (h.contains_keyword(k.key)) t += h.value_of<S>(k.key); std::size_t len = h.data_size() * std::abs((int)h.value_of<int>("BITPIX")) / 8; s.read(len); s.set_unit_end(); } return t; });
    return d;
}
static S card_job(Rng& r) { S d; for (int i = 0; i < 20; ++i) part(d, [&] { card_t c; S k = fg::word(r, (int)r.range(1, 8)); S t; switch (r.below(5)) { case 0: { double v = r.real(-1e9, 1e9); c.create_card(k, v, "c"); t = str(c.value<double>()); break; } case 1: c.create_card(k, (int)r.u64(), "x"); t = str(c.value<int>()) + str(c.value<double>()); break; case 2: c.create_card(k, S("'" + fg::word(r, 12) + "'"), "y"); t = c.value<S>(); break; case 3: c.create_card(k, r.chance(.5), "z"); t = str(c.value<bool>()); break; default: c.create_commentary_card("COMMENT", fg::word(r, 30)); t = c.value<S>(); } t += c.raw_card(); switch (r.below(4)) { case 0: c.set_value((int)r.u64()); break; case 1: c.set_value(r.real(-1e7, 1e7)); break; case 2: c.set_value(std::complex<double>(r.real(-1e5, 1e5), 1e6)); break; default: c.set_value((int)r.below(1000)); } return t + c.raw_card() + c.keyword(); });
    // what other software wrote
    for (int i = 0; i < 10; ++i) part(d, [&] { char b[120]; int kind = (int)r.below(5), n1 = (int)r.range(1, 17), n2 = (int)r.range(-40, 40), t1 = (int)r.below(999), t2 = (int)r.below(999), t3 = (int)r.below(999); double u1 = r.real(-1, 1), u2 = r.real(-1, 1); switch (kind) { case 0: std::snprintf(b, 120, "FOREIGN = %.*g", n1, std::ldexp(u1, n2)); break; case 1: std::snprintf(b, 120, "FOREIGN = %lld / x", (long long)(r.u64() >> (n2 + 40) % 64) / 2); break; case 2: std::snprintf(b, 120, "FOREIGN = (%.6f, %.3E)", u1 * 1e4, u2 * 1e9); break; case 3: std::snprintf(b, 120, "FOREIGN = %d.%03d", t1, t2); break; default: std::snprintf(b, 120, "FOREIGN = %d,%03d,%03d", t1, t2, t3); }
        S text = b; if (kind == 0) for (auto& ch : text) if (ch == ',') ch = '.'; if (kind == 2) { std::ostringstream z; z.imbue(std::locale::classic()); z << std::fixed << std::setprecision(6) << "FOREIGN = (" << u1 * 1e4 << ", " << std::scientific << std::uppercase << std::setprecision(3) << u2 * 1e9 << ")"; text = z.str(); } text.resize(80, ' '); card_t c(text); S t; part(t, [&] { return cell(c.value<double>()); }); part(t, [&] { return cell(c.value<int>()); }); part(t, [&] { return cell(c.value<long long>()); }); part(t, [&] { return cell(c.value<float>()); }); part(t, [&] { return cell(c.value<std::complex<double>>()); }); part(t, [&] { return cell(c.value<std::size_t>()); }); return t; });
    for (int i = 0; i < 10; ++i) part(d, [&] { int n = (int)r.range(-30, 30); double v = std::ldexp(r.real(-1, 1), n); long long w = (long long)r.u64(); int x = (int)r.u64(); return io::ascii_converter::serialize(v) + io::ascii_converter::serialize((float)v) + io::ascii_converter::serialize(w) + io::ascii_converter::serialize(x); });
    return d; }
typedef bc::cartesian_representation<double, Qm, Qcm, Qm> C; typedef bc::spherical_representation<double, Qd, Qr, Qm> SP; typedef bc::spherical_equatorial_representation<double, Qr, Qd, Qcm> E;
typedef bc::spherical_differential<double, Qr, Qr, Vm> SD; typedef bc::spherical_coslat_differential<double, Qr, Qr, Vm> KD; typedef bc::cartesian_differential<double, Vm, Vm, Vm> CD;
template <class R> S rawpt(const R& x) { auto p = x.get_point(); return str(bg::get<0>(p)) + "," + str(bg::get<1>(p)) + "," + str(bg::get<2>(p)) + ";"; }
static S v17(V3 v) { return vs(v) + ";"; }
static S coord_job(Rng& r) {
    S c, d; C a = gen<C>(r, c, true); SP b = gen<SP>(r, c, true); E e = gen<E>(r, c, true); d += v17(vec(SP(a))) + v17(vec(E(b))) + v17(vec(C(e))) + v17(vec(SP(E(a)))); S size = str((double)norm(vec(a))) + " " + str((double)norm(vec(b))) + " " + str((double)norm(vec(e))) + " " + str((double)(norm(vec(a)) * norm(vec(b)) * 100)) + ",";
    d += "b" + size + rawpt(bc::cross(a, b)) + "b" + size + str(bc::dot(b, e).value()) + ";" + v17(vec(bc::sum(a, e))) + v17(vec(bc::mean(b, a))) + str(bc::magnitude(b).value()) + ";" + str(a == a) + ";";
    SD s = gen<SD>(r, c, true); CD q = gen<CD>(r, c, true); d += v17(vec(CD(s))) + v17(vec(SD(q))) + v17(vec(s + q)) + v17(vec(q + s)) + v17(vec(KD(s)));
    std::ostringstream o; o.imbue(std::locale::classic()); o.precision(17); o << a << b << e; d += o.str() + ";";
    typedef bc::column_vector<double, Qd, double> CV; double lo = r.real(0, 360), la = r.real(-90, 90), at = r.real(-90, 90); CV cv(from_deg<Qd>(lo), from_deg<Qd>(la)); auto m1 = bc::ra_dec_to_galactic<>().get(); auto m2 = bc::ha_dec_horizon<double, Qd, double>(from_deg<Qd>(at)).get(); boost::numeric::ublas::matrix<double> x = boost::numeric::ublas::prod(m1, cv.get()), y = boost::numeric::ublas::prod(m2, cv.get()); auto g = bc::extract_coordinates(x).get_coordinates(), h = bc::extract_coordinates(y).get_coordinates(); for (double v : {(double)g.first.value(), (double)g.second.value(), (double)h.first.value(), (double)h.second.value()}) d += str(v) + ";";
    int ye = (int)r.range(1600, 2200), mo = (int)r.range(1, 12), da = (int)r.range(1, 28); long se = (long)r.below(86400); double lg = r.real(-180, 180); boost::posix_time::ptime t(boost::gregorian::date(ye, mo, da), boost::posix_time::seconds(se)); d += str(boost::astronomy::time::julian_date(t)) + ";" + str(boost::astronomy::time::GST(t).get()) + ";" + str(boost::astronomy::time::LST(lg, boost::astronomy::time::DIRECTION::EAST, t).get()) + ";" + str(bc::obliquity_of_ecliptic(t.date()).get().value()) + ";";
    typedef bc::icrs<SP, bc::spherical_coslat_differential<double, Qd, Qr, Vm>> F; F f1(b, bc::spherical_coslat_differential<double, Qd, Qr, Vm>()), f2(gen<SP>(r, c, true), bc::spherical_coslat_differential<double, Qd, Qr, Vm>()); bc::sky_point<F> p1(f1), p2(f2); d += str(p1.separation(p2).value()) + ";" + str(p1.positional_angle(p2).value()) + ";";
    return d;
}
