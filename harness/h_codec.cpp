// P07: the binary codec is big-endian, lossless and total on every bit pattern, and refuses data that is too short.
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>
using namespace boost::astronomy;
using fg::S; typedef io::binary_data_converter C;
template <class T> struct nm; 
#define N(T, s) template <> struct nm<T> { static const char* n() { return s; } };
typedef std::complex<float> cf; typedef std::complex<double> cd; typedef std::pair<std::int32_t, std::int32_t> pr;
N(bool, "bool") N(std::int16_t, "int16") N(std::int32_t, "int32") N(float, "float32") N(double, "float64") N(cf, "complex32") N(cd, "complex64") N(std::uint8_t, "byte") N(char, "char") N(pr, "descriptor")
template <class T> std::size_t W() { return sizeof(T); }
template <class T> T dec(const S& s, std::size_t at) { return fg::be_as<T>(s, at); }
// bytes of a value as the standard lays them out, independent of the library
template <class T> S bytes_of(const T& v) { S s(sizeof(T), '\0'); std::uint64_t b = 0; std::memcpy(&b, &v, sizeof(T)); for (std::size_t i = 0; i < sizeof(T); ++i) s[i] = (char)(b >> (8 * (sizeof(T) - 1 - i))); return s; }
template <> S bytes_of(const bool& v) { return v ? "T" : "F"; }
template <> S bytes_of(const cf& v) { return bytes_of(v.real()) + bytes_of(v.imag()); }
template <> S bytes_of(const cd& v) { return bytes_of(v.real()) + bytes_of(v.imag()); }
template <> S bytes_of(const pr& v) { return bytes_of(v.first) + bytes_of(v.second); }
template <class T> bool throws_(T f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static S cls(const S& b) { bool ff = true, z = true, ws = false; for (unsigned char c : b) { ff = ff && c == 0xff; z = z && !c; ws = ws || c == 32 || (c >= 9 && c <= 13); } return ff ? "ones" : z ? "zero" : (unsigned char)b[0] >= 0x80 ? (ws ? "high,ws" : "high") : ws ? "low,ws" : "low"; }
// bit patterns whose identity a float type may not preserve (signalling NaN) are made quiet
template <class T> void quiet(S& b, std::size_t at) {}
template <> void quiet<float>(S& b, std::size_t at) { if ((b[at] & 0x7f) == 0x7f && (b[at + 1] & 0x80)) b[at + 1] |= 0x40; }
template <> void quiet<double>(S& b, std::size_t at) { if ((b[at] & 0x7f) == 0x7f && (b[at + 1] & 0xf0) == 0xf0) b[at + 1] |= 0x08; }
template <> void quiet<cf>(S& b, std::size_t at) { quiet<float>(b, at); quiet<float>(b, at + 4); }
template <> void quiet<cd>(S& b, std::size_t at) { quiet<double>(b, at); quiet<double>(b, at + 8); }
template <> void quiet<bool>(S& b, std::size_t at) { b[at] = (b[at] & 1) ? 'T' : 'F'; }
static S patterned(Rng& r, std::size_t n) { S s = fg::random_bytes(r, n); if (r.chance(.1)) s.assign(n, '\xff'); if (r.chance(.1)) s.assign(n, '\0'); if (r.chance(.2)) { s.assign(n, '\0'); s[r.below(n)] = (char)(1 << r.below(8)); } return s; }

template <class T> void one(Mon& m, Rng& r) {
    S b = patterned(r, W<T>()); quiet<T>(b, 0); S n = nm<T>::n(), cov = cls(b); m.note(n);
    T v = C::deserialize_to<T>(b, 1); m.check("decode/" + n, bytes_of(v) == b && bytes_of(dec<T>(b, 0)) == b, cov, [&] { return "bytes " + b + " decoded as a value with bytes " + bytes_of(v); });
    T w = v; S e = C::serialize(w); m.check("encode/" + n, e == b, cov, [&] { return b + " -> " + e; });
    if (W<T>() > 1) { S sh = b.substr(0, r.below(W<T>())); m.check("too-short-reported/" + n, throws_([&] { C::deserialize_to<T>(sh, 1); }), fg::num(sh.size()), [&] { return fg::num(sh.size()) + " bytes accepted"; }); }
}
template <class T> void many(Mon& m, Rng& r) {
    std::size_t k = r.chance(.1) ? 0 : (std::size_t)r.range(1, r.chance(.1) ? 300 : 9); S b = k ? patterned(r, k * W<T>()) : S(); for (std::size_t i = 0; i < k; ++i) quiet<T>(b, i * W<T>()); S n = nm<T>::n(), cov = k > 9 ? "many" : "n" + fg::num(k);
    auto v = C::deserialize_to<std::vector<T>>(b, (int)k); bool ok = v.size() == k; for (std::size_t i = 0; ok && i < k; ++i) ok = bytes_of((T)v[i]) == b.substr(i * W<T>(), W<T>());
    m.check("decode-array/" + n, ok, cov, [&] { return fg::num(k) + " elements"; }); S e = C::serialize(v); m.check("encode-array/" + n, e == b, cov, [&] { return fg::num(k) + " elements"; });
    if (k && !std::is_same<T, bool>::value) { S sh = b.substr(0, r.below(b.size())); m.check("too-short-array-reported/" + n, throws_([&] { C::deserialize_to<std::vector<T>>(sh, (int)k); }), cov, [&] { return fg::num(sh.size()) + " bytes for " + fg::num(k); }); }
}
template <class T> void both(Mon& m, Rng& r) { for (int i = 0; i < 20; ++i) one<T>(m, r); for (int i = 0; i < 5; ++i) many<T>(m, r); }
template <class I> void exhaustive16(Mon& m) { }
// text codec of ASCII tables
template <class F> void text_float(Mon& m, Rng& r, const char* n) {
    double x = r.chance(.3) ? r.range(-99999, 99999) / 100.0 : std::ldexp(r.real(-1, 1), (int)r.range(-100, 100)); char b[64]; std::snprintf(b, 64, "%.*g", 6, x); F v = sizeof(F) == 4 ? (F)std::strtof(b, 0) : (F)std::strtod(b, 0); S s = io::ascii_converter::serialize(v);
    F back = io::ascii_converter::deserialize_to<F>(s, 0); m.check(S("text-number-survives/") + n, back == v, b[0] == '-' ? "neg" : "pos", [&] { return S(b) + " -> " + s + " -> " + str(back); });
}
static void text(Mon& m, Rng& r) {
    for (int i = 0; i < 10; ++i) { long long v = r.chance(.1) ? std::numeric_limits<long long>::min() : r.chance(.1) ? std::numeric_limits<long long>::max() : (long long)(r.u64() >> r.below(63)) * (r.chance(.5) ? 1 : -1); S s = io::ascii_converter::serialize(v); m.check("text-integer", s == std::to_string(v) && io::ascii_converter::deserialize_to<long long>(s, 0) == v, v < 0 ? "neg" : "pos", [&] { return s; });
        text_float<double>(m, r, "double"); text_float<float>(m, r, "float"); S t = fg::trim(fg::random_bytes(r, r.below(20))); bool printable = true; for (char c : t) printable = printable && c >= 32 && c < 127; if (printable) m.check("text-string", io::ascii_converter::deserialize_to<S>(t, 0) == t && io::ascii_converter::serialize(t) == t, "len" + fg::num(t.size()), [&] { return t; });
        S junk = "x" + t; m.check("text-junk-reported", throws_([&] { io::ascii_converter::deserialize_to<long long>(junk, 0); }) && throws_([&] { io::ascii_converter::deserialize_to<double>(junk, 0); }), "junk", [&] { return junk; }); }
}
int main(int argc, char** argv) {
    Mon m(argc, argv);
    m.run("codec", 4000, [&](Rng& r, std::uint64_t i) { switch (i % 10) { case 0: both<bool>(m, r); break; case 1: both<std::int16_t>(m, r); break; case 2: both<std::int32_t>(m, r); break; case 3: both<float>(m, r); break; case 4: both<double>(m, r); break; case 5: both<cf>(m, r); break; case 6: both<cd>(m, r); break; case 7: both<std::uint8_t>(m, r); break; case 8: both<char>(m, r); break; default: both<pr>(m, r); } });
    m.run("int16-exhaustive", 1, [&](Rng&, std::uint64_t) { bool ok = true; int bad = 0; for (int v = -32768; v < 32768; ++v) { std::int16_t x = (std::int16_t)v; S s = C::serialize(x); if (s != bytes_of(x) || C::deserialize_to<std::int16_t>(s, 1) != x) { ok = false; bad = v; } } m.check("int16-all-values", ok, "all", [&] { return fg::num(bad); });
        for (int v = 0; v < 256; ++v) { std::uint8_t x = (std::uint8_t)v; S s = C::serialize(x); m.check("byte-all-values", s == S(1, (char)v) && C::deserialize_to<std::uint8_t>(s, 1) == x && C::deserialize_to<char>(s, 1) == (char)v, fg::num(v), [&] { return fg::num(v); }); } });
    m.run("text", 2000, [&](Rng& r, std::uint64_t) { text(m, r); });
    m.run("findings", 1, [&](Rng&, std::uint64_t) { double v = 3.14159265358979, b = io::ascii_converter::deserialize_to<double>(io::ascii_converter::serialize(v), 0); m.finding("KF-ascii-six-digits", b != v, "3.14159265358979 written as an ASCII field reads back as " + fg::num6(b)); });
    return m.finish();
}
