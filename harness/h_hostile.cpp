// P11: whatever bytes a file holds, reading and using it ends, stays inside memory, and fails only by exceptions.
// The deciding oracles are the sanitizers (memory, undefined behaviour), the CPU budget per file (termination),
// the resident-set limit, and the monitor below (only std::exception leaves the library).
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/io/image_extension.hpp>
#include <sys/resource.h>
using namespace boost::astronomy; using fg::S;
typedef decltype(io::fits::open("")) reader_t; typedef io::header<io::card_policy> header_t;
// memory accounting: every allocation of the process passes here; the peak while one file is in use is judged
#if defined(__SANITIZE_ADDRESS__) && !defined(VERIF_LIBFUZZER)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
extern "C" std::size_t __sanitizer_get_allocated_size(const volatile void*);
static std::size_t live, peak, largest;
static void on_malloc(const volatile void*, std::size_t n) { live += n; if (live > peak) peak = live; if (n > largest) largest = n; }
static void on_free(const volatile void* p) { if (p) { std::size_t n = __sanitizer_get_allocated_size(p); live -= n < live ? n : live; } }
static void account_start() { static int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; live = peak = largest = 0; }
#define ACCOUNTING 1
#else
static std::size_t peak, largest; static void account_start() {}
#define ACCOUNTING 0
#endif
static std::map<S, unsigned long> outcomes; // what the monitor saw: result class of every library call sequence
static volatile unsigned long long sink;
template <class F> bool guarded(const char* what, F f) {
    try { f(); ++outcomes[S(what) + ":returned"]; return true; }
    catch (const std::exception& e) { ++outcomes[S(what) + ":" + typeid(e).name()]; return false; }
}
template <class T> void view(io::binary_table& t, const S& n) { guarded("binary-view", [&] { auto& v = t.get_column<T>(n); std::size_t k = 0; for (auto x : v) { T y = x; if (++k > 50) break; } if (v.get_row_count()) { T y = v[(int)v.get_row_count() - 1]; v[0] = y; } }); }
template <class T> void aview(io::ascii_table& t, const S& n) { guarded("ascii-view", [&] { auto& v = t.get_column<T>(n); std::size_t k = 0; for (auto x : v) { T y = x; if (++k > 50) break; } }); }
template <class V> void all_types(V& b, const S& n, int pick) {
    switch (pick % 20) {
    case 0: view<bool>(b, n); break; case 1: view<std::vector<bool>>(b, n); break; case 2: view<std::int16_t>(b, n); break; case 3: view<std::vector<std::int16_t>>(b, n); break;
    case 4: view<std::int32_t>(b, n); break; case 5: view<std::vector<std::int32_t>>(b, n); break; case 6: view<float>(b, n); break; case 7: view<std::vector<float>>(b, n); break;
    case 8: view<double>(b, n); break; case 9: view<std::vector<double>>(b, n); break; case 10: view<std::pair<std::int32_t, std::int32_t>>(b, n); break; case 11: view<std::vector<std::pair<std::int32_t, std::int32_t>>>(b, n); break;
    case 12: view<std::complex<float>>(b, n); break; case 13: view<std::vector<std::complex<float>>>(b, n); break; case 14: view<std::complex<double>>(b, n); break; case 15: view<std::vector<std::complex<double>>>(b, n); break;
    case 16: view<std::uint8_t>(b, n); break; case 17: view<std::vector<std::uint8_t>>(b, n); break; case 18: view<char>(b, n); break; default: view<std::vector<char>>(b, n); }
}
static void use_header(header_t h) {
    for (const char* k : {"SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "TFIELDS", "TFORM1", "TTYPE1", "EXTNAME", "COMMENT", "END", ""}) { guarded("value/int", [&] { sink += h.value_of<int>(k); }); guarded("value/string", [&] { sink += h.value_of<S>(k).size(); }); guarded("value/double", [&] { sink += h.value_of<double>(k) > 0; }); guarded("value/bool", [&] { sink += h.value_of<bool>(k); }); guarded("value/complex", [&] { h.value_of<std::complex<double>>(k); }); sink += h.contains_keyword(k); }
    guarded("header/data_size", [&] { sink += h.data_size(); }); guarded("header/naxis", [&] { sink += h.naxis(1) + h.naxis(2); }); guarded("header/naxis0", [&] { sink += h.naxis(); }); guarded("header/name", [&] { sink += h.get_hdu_name().size(); }); sink += h.card_count();
}
template <io::bitpix B, class H> void img(H& h) { guarded("image", [&] { auto im = h.template get_data<B>(); sink += im.size(); sink += im.mean() > 0; sink += im.std_dev() > 0; sink += im.max() > 0; sink += im.min() > 0; sink += im.median() > 0; sink += im.write_image().size(); if (im.size()) sink += im(0, 0) > 0; }); }
template <class H> void images(H& h) { img<io::bitpix::B8>(h); img<io::bitpix::B16>(h); img<io::bitpix::B32>(h); img<io::bitpix::_B32>(h); img<io::bitpix::_B64>(h); }
struct use : boost::static_visitor<> {
    unsigned pick; use(unsigned p) : pick(p) {}
    void operator()(boost::blank&) const {}
    void operator()(io::primary_hdu& p) const { use_header(p.get_header()); images(p); sink += p.is_simple() + p.is_extended(); }
    template <class T> S name(T& t, int c) const { S n; try { n = t.get_header().template value_of<S>("TTYPE" + fg::num(c)); } catch (const std::exception&) {} return n; }
    void operator()(io::binary_table& t) const { use_header(t.get_header()); for (int c = 1; c < 6; ++c) { S n = name(t, c); guarded("metadata", [&] { auto md = t.get_column_metadata(n); sink += md.index() + md.TBCOL() + (md.TSCAL() > 0) + (md.TZERO() > 0) + md.total_elements(); }); all_types(t, n, pick + c * 7); } guarded("copy", [&] { io::binary_table u(t); sink += u.get_data().size(); }); }
    void operator()(io::ascii_table& t) const { use_header(t.get_header()); for (int c = 1; c < 6; ++c) { S n = name(t, c); guarded("metadata", [&] { auto md = t.get_column_metadata(n); sink += md.index() + md.TBCOL() + (md.TSCAL() > 0) + (md.TZERO() > 0); }); switch ((pick + c) % 4) { case 0: aview<S>(t, n); break; case 1: aview<long long>(t, n); break; case 2: aview<float>(t, n); break; default: aview<double>(t, n); } } guarded("copy", [&] { io::ascii_table u(t); sink += u.get_data().size(); }); }
};
static void exercise(const S& path, const S& out, unsigned pick, const S& bytes) {
    guarded("open/entire", [&] { reader_t a = io::fits::open(path); auto l = a.get_hdu_list(); for (std::size_t i = 0; i < l.size() && i < 12; ++i) boost::apply_visitor(use(pick), a[(int)i]); guarded("by-name", [&] { a["BINTABLE"]; a["TABLE"]; a["primary_hdu"]; }); guarded("write", [&] { a.write_to(out); }); });
    guarded("open/headers", [&] { reader_t a = io::fits::open(path, io::reading_options::read_only_headers); auto l = a.get_hdu_list(); for (std::size_t i = 0; i < l.size() && i < 12; ++i) boost::apply_visitor(use(pick + 3), a[(int)i]); sink += a.get_control_block_info().total_hdus(); guarded("write", [&] { a.write_to(out); }); });
    // header with data that does not belong to it
    guarded("parts", [&] { io::fits_stream s; s.set_file(path); while (!s.at_end()) { header_t h; h.read_header(s); s.set_unit_end(); S data = bytes.substr(0, (pick * 977) % (bytes.size() + 1)); guarded("parts/binary", [&] { io::binary_table t(h, data); use u(pick); u(t); t.set_data(data + "x"); u(t); }); guarded("parts/ascii", [&] { io::ascii_table t(h, data); use u(pick); u(t); t.set_data(data + "x"); u(t); }); guarded("parts/primary", [&] { io::primary_hdu t(h, data); use u(pick); u(t); }); guarded("parts/image", [&] { io::image_extension t(h, data); images(t); }); } });
    guarded("raw-card", [&] { io::card<io::card_policy> c(bytes.substr(0, pick % 90)); sink += c.keyword().size() + c.value<S>().size() + c.value_with_comment().size(); });
    guarded("format/binary", [&] { S f = bytes.substr(bytes.size() / 2, pick % 12); sink += io::binary_table::column_size(f); });
    guarded("format/ascii", [&] { S f = bytes.substr(bytes.size() / 3, pick % 12); sink += io::ascii_table::column_size(f); sink += io::ascii_table::get_type(f); });
}

static const char* numbers[] = {"0", "-1", "1", "2", "3", "7", "8", "16", "32", "-32", "-64", "64", "255", "999", "1000", "65535", "1048576", "2147483647", "2147483648", "4294967296", "-2147483648", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "12297829382473034411", "1E3", "", "T", "'8'", "1.5", "-0", "+4", "0x10", "576460752303423488", "1152921504606846976"};
static const char* forms[] = {"", " ", "A", "0A", "J", "0J", "1J", "-1J", "J1", "99999999999999999999J", "4611686018427387904J", "4611686018427387905J", "18446744073709551615B", "9223372036854775807X", "18446744073709551615X", "9X", "1PE(", "1PE(5)", "PJ", "1P", "Q", "1QE(3)", "K", "12", "123456789B", "2147483648B", "4294967297B", "I", "I0", "I-5", "I5", "A999999", "A4294967296", "A18446744073709551615", "A18446744073709551616", ".5", "E10.", "E.3", "F5.9.9", "D25.17", "'", "''", "2C", "3M", "1000M", "I3J", "b"};
static S mutate(Rng& r, S b, S& kind) {
    int n = (int)r.range(1, r.chance(.2) ? 6 : 2);
    for (int i = 0; i < n && !b.empty(); ++i) {
        std::size_t cards = b.size() / 80; int op = (int)r.below(12);
        auto find_card = [&](const std::vector<S>& keys) -> std::size_t { std::vector<std::size_t> hit; for (std::size_t c = 0; c < cards; ++c) for (auto& k : keys) if (b.compare(c * 80, k.size(), k) == 0) hit.push_back(c); return hit.empty() ? S::npos : hit[r.below(hit.size())] * 80; };
        auto set_value = [&](std::size_t at, const S& v) { S c = b.substr(at, 8) + "= " + v; c.resize(80, ' '); b.replace(at, 80, c); };
        if (op <= 2) { std::size_t at = find_card({"NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "BITPIX", "PCOUNT", "GCOUNT", "TFIELDS", "TBCOL", "TSCAL", "TZERO"}); if (at != S::npos) { S v = r.chance(.7) ? S(numbers[r.below(sizeof numbers / sizeof *numbers)]) : fg::num(r.range(-5, 5000)); kind += "n:" + b.substr(at, 6) + v.substr(0, 5) + " "; set_value(at, v[0] == '\'' ? v : S(v.size() < 20 ? 20 - v.size() : 0, ' ') + v); } }
        else if (op == 3) { std::size_t at = find_card({"TFORM"}); if (at != S::npos) { S v = forms[r.below(sizeof forms / sizeof *forms)]; kind += "f:" + v + " "; set_value(at, "'" + v + "'"); } }
        else if (op == 4) { std::size_t at = find_card({"BITPIX", "NAXIS", "TFORM", "TTYPE", "TBCOL", "TFIELDS", "PCOUNT", "GCOUNT", "EXTNAME", "END", "XTENSION", "SIMPLE"}); if (at != S::npos) { kind += "x:" + b.substr(at, 5) + " "; b.erase(at, 80); b.insert(std::min(b.size(), (at / 2880 + 1) * 2880 - 80), S(80, ' ')); } }
        else if (op == 5) { std::size_t at = r.below(cards + 1) * 80; S end = "END"; end.resize(80, ' '); if (at + 80 <= b.size()) b.replace(at, 80, end); kind += "end "; }
        else if (op == 6) { b.resize(r.below(b.size())); kind += "cut" + S(b.size() % 2880 == 0 ? "@2880 " : b.size() % 80 == 0 ? "@80 " : " "); }
        else if (op == 7) { b += r.chance(.5) ? fg::random_bytes(r, r.below(6000)) : S(r.below(6000), " \0"[r.below(2)]); kind += "tail "; }
        else if (op == 8) { int k = (int)r.range(1, 8); for (int j = 0; j < k; ++j) b[r.below(std::min<std::size_t>(b.size(), r.chance(.7) ? 2880 * 2 : b.size()))] = (char)r.u64(); kind += "flip "; }
        else if (op == 9) { std::size_t a = r.below(cards + 1) * 80, c = r.below(cards + 1) * 80; if (a + 80 <= b.size() && c + 80 <= b.size()) { S t = b.substr(a, 80); b.replace(c, 80, t); kind += "dup "; } }
        else if (op == 10) { std::size_t at = find_card({"XTENSION"}); if (at != S::npos) { set_value(at, r.pick(std::vector<S>{"'TABLE   '", "'BINTABLE'", "'IMAGE   '", "'", "5", "''", "'OTHER'", "T"})); kind += "xt "; } }
        else { std::size_t at = find_card({"SIMPLE", "EXTEND", "TTYPE", "EXTNAME", "TDIM", "TUNIT"}); if (at != S::npos) { set_value(at, r.pick(std::vector<S>{"'", "", "/", "'a", "'a''", "T", "F", "X", "' / '", "'NAXIS1'", "'END'"})); kind += "v:" + b.substr(at, 6) + " "; } }
    }
    return b;
}
static S seed_file(Rng& r) { fg::opts o; o.names = r.chance(.5); o.max_ext = 3; return fg::make_file(r, o).bytes; }

#ifdef VERIF_LIBFUZZER
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* d, std::size_t n) {
    static const S base = S(std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp") + "/fz" + fg::num(getpid()); S b((const char*)d, n); fg::dump(base + ".fits", b); exercise(base + ".fits", base + ".out", (unsigned)(hash_str(b) & 0xffff), b); return 0; }
extern "C" std::size_t LLVMFuzzerMutate(std::uint8_t*, std::size_t, std::size_t);
extern "C" std::size_t LLVMFuzzerCustomMutator(std::uint8_t* d, std::size_t n, std::size_t max, unsigned seed) {
    Rng r(seed); if (r.chance(.5)) return LLVMFuzzerMutate(d, n, max); S kind, b = mutate(r, S((const char*)d, n), kind); if (b.size() > max) b.resize(max); std::memcpy(d, b.data(), b.size()); return b.size(); }
#else
int main(int argc, char** argv) {
    Mon m(argc, argv);
    if (m.prop == "CORPUS") { m.run("corpus", 60, [&](Rng& r, std::uint64_t i) { S k; S b = seed_file(r); if (b.size() < 40000) fg::dump(m.scratch + "/seed" + fg::num(i), b); }); return 0; }
    S p = m.scratch + "/in.fits", q = m.scratch + "/out.fits";
    auto go = [&](const S& b, unsigned pick, const S& kind) {
        fg::dump(p, b); m.note(kind); auto before = outcomes; bool std_only = true; S what;
        account_start(); try { exercise(p, q, pick, b); } catch (...) { std_only = false; } std::size_t top = peak;
        S seen; for (auto& o : outcomes) if (before[o.first] != o.second) seen += o.first + ";"; // which outcomes this file produced
        m.check("only-standard-exceptions-leave-the-library", std_only, seen, [&] { return kind; });
        if (ACCOUNTING) { static std::size_t worst = 0; if (std::getenv("VERIF_SHOW_PEAK") && top > worst) { worst = top; std::fprintf(stderr, "PEAK %zu largest %zu file %zu %s\n", top, largest, b.size(), kind.c_str()); } m.check("memory-in-proportion-to-the-file", top <= (24u << 20) + 400 * b.size(), "x" + fg::num((long long)std::log2(1 + top / (1.0 + b.size()))), [&] { return fg::num(top) + " bytes in use for a file of " + fg::num(b.size()) + ": " + kind; }); }
        struct rusage u; getrusage(RUSAGE_SELF, &u); m.check("memory-bounded", u.ru_maxrss < 3000000, kind.substr(0, 12), [&] { return fg::num(u.ru_maxrss) + " KiB resident for a file of " + fg::num(b.size()) + " bytes: " + kind; });
    };
    m.run("mutated", 4000, [&](Rng& r, std::uint64_t) { S kind, b = mutate(r, seed_file(r), kind); go(b, (unsigned)r.below(100000), kind); }, 30);
    m.run("valid", 300, [&](Rng& r, std::uint64_t) { go(seed_file(r), (unsigned)r.below(100000), "valid"); }, 30);
    m.run("junk", 500, [&](Rng& r, std::uint64_t) { S b = r.chance(.2) ? S(r.below(9000), ' ') : r.chance(.2) ? S() : fg::random_bytes(r, r.below(9000)); if (r.chance(.5) && b.size() > 80) { S c = fg::card("SIMPLE", "T"); b.replace(0, 80, c); } go(b, (unsigned)r.below(100000), "junk"); }, 30);
    return m.finish();
}
#endif
