// P12: the byte stream delivers exactly the bytes of the file; P13: failures of the file system are reported, never swallowed.
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace boost::astronomy; using fg::S;
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

static void random_access(Mon& m, Rng& r) {
    std::size_t n = r.chance(.2) ? 2880 * (std::size_t)r.range(0, 4) : (std::size_t)r.below(r.chance(.1) ? 3000000 : 20000); S b = fg::random_bytes(r, n), p = m.scratch + "/f.bin"; fg::dump(p, b); io::fits_stream s; s.set_file(p); m.check("stream/open", s.is_open(), "open", [] { return S("not open"); });
    std::size_t pos = 0; S prev = "start";
    for (int i = 0; i < 25; ++i) {
        int op = (int)r.below(6); S cov;
        if (op == 0) { pos = r.chance(.3) ? std::min(n, 2880 * (std::size_t)r.below(n / 2880 + 1)) : r.below(n + 1); s.set_reading_pos(pos); cov = "seek"; }
        else if (op == 1) { std::size_t k = r.chance(.2) ? n - pos : std::min<std::size_t>(n - pos, r.below(r.chance(.2) ? 2500000 : 200)); S g = s.read(k); m.check("stream/read-delivers-file-bytes", g == b.substr(pos, k), prev + ">read" + (k == 0 ? "0" : pos + k == n ? "end" : ""), [&] { return fg::num(k) + " at " + fg::num(pos); }); pos += k; cov = "read"; }
        else if (op == 2) { if (pos < n) { unsigned char g = s.get(); m.check("stream/get", g == (unsigned char)b[pos], prev + ">get", [&] { return exp_got((int)(unsigned char)b[pos], (int)g); }); ++pos; } cov = "get"; }
        else if (op == 3) { std::size_t e = (pos + 2879) / 2880 * 2880; std::size_t g = s.find_unit_end(); m.check("stream/unit-end", g == e, prev + (pos % 2880 == 0 ? ",boundary" : ""), [&] { return "at " + fg::num(pos) + " " + exp_got(e, g); }); if (e <= n && r.chance(.5)) { s.set_unit_end(); pos = e; } cov = "unit"; }
        else if (op == 4) { bool e = s.at_end(); m.check("stream/at-end", e == (pos >= n), prev + (pos >= n ? ",end" : ""), [&] { return fg::num(pos) + "/" + fg::num(n); }); if (e) { s.set_file(p); pos = 0; } cov = "end?"; }
        else { std::size_t g = s.get_current_pos(); m.check("stream/position", g == pos, prev + ">pos", [&] { return exp_got(pos, g); }); cov = "pos"; }
        prev = cov;
    }
    std::size_t over = n - pos + 1 + r.below(5000); m.check("stream/read-beyond-end-reported", throws([&] { s.read(over); }), over > 100000 ? "far" : "near", [&] { return fg::num(over); });
    // the same object on another file
    S b2 = fg::random_bytes(r, 1 + r.below(500)), q = m.scratch + "/g.bin"; fg::dump(q, b2); s.set_file(q); m.check("stream/reusable-after-failure", s.read(b2.size()) == b2 && s.at_end(), "reuse", [] { return S("second file not read"); });
    s.close(); m.check("stream/closed", !s.is_open(), "close", [] { return S("open"); });
    m.check("stream/missing-file-reported", throws([&] { s.set_file(m.scratch + "/none"); }), "missing", [] { return S("opened"); }); s.set_file(p); m.check("stream/usable-after-missing-file", n == 0 || s.read(1) == b.substr(0, 1), "recover", [] { return S("not readable"); });
}
static void random_write(Mon& m, Rng& r) {
    S p = m.scratch + "/w.bin", model; if (r.chance(.5)) fg::dump(p, S(5000, 'o')); else ::unlink(p.c_str()); io::fits_stream s; m.check("stream/create", s.create_file(p), "create", [] { return S("failed"); }); std::size_t pos = 0;
    for (int i = 0; i < 20; ++i) { S d = fg::random_bytes(r, r.below(r.chance(.1) ? 20000 : 300)); bool ok;
        if (r.chance(.3)) { std::size_t at = r.below(model.size() + 1); ok = s.write(d, at); pos = at; } else ok = s.write(d);
        if (model.size() < pos + d.size()) model.resize(pos + d.size()); model.replace(pos, d.size(), d); pos += d.size(); m.check("stream/write-succeeds", ok, "write", [] { return S("false"); });
        m.check("stream/position-after-write", s.get_current_pos() == pos, "pos", [&] { return exp_got(pos, s.get_current_pos()); }); m.check("stream/unit-end-when-writing", s.find_unit_end() == (pos + 2879) / 2880 * 2880, pos % 2880 ? "" : "boundary", [&] { return fg::num(pos); }); }
    // what was written can be read through the same stream, and writing goes on at the position reading left
    for (int i = 0; i < 4; ++i) { std::size_t at = r.below(model.size() + 1), k = r.below(std::min<std::size_t>(model.size() - at, 5000) + 1); s.set_reading_pos(at); S g = s.read(k); m.check("stream/read-back-what-was-written", g == model.substr(at, k) && s.get_current_pos() == at + k, "back", [&] { return fg::num(k) + " bytes at " + fg::num(at); });
        S d = fg::random_bytes(r, r.below(200)); std::size_t to = r.below(model.size() + 1); if (!m.check("stream/write-after-read", s.write(d, to), "again", [] { return S("false"); })) break; if (model.size() < to + d.size()) model.resize(to + d.size()); model.replace(to, d.size(), d); }
    s.close(); S got = fg::slurp(p); m.check("stream/file-holds-what-was-written", got == model, "content", [&] { return exp_got(model.size(), got.size()) + " bytes"; });
}
// positions that need more than 32 bits (sparse files)
static void far(Mon& m, Rng& r) {
    S p = m.scratch + "/far.bin"; std::size_t base = (std::size_t)r.pick(std::vector<long long>{1LL << 31, 1LL << 32, (1LL << 33) + 2880, 3 * (1LL << 31)}) + r.below(6000) - 3000, n = 1 + r.below(9000); S b = fg::random_bytes(r, n);
    { io::fits_stream w; w.create_file(p); m.check("stream/far-write", w.write(b, base) && w.get_current_pos() == base + n, "write", [&] { return fg::num(w.get_current_pos()); }); m.check("stream/far-unit-end", w.find_unit_end() == (base + n + 2879) / 2880 * 2880, "writing", [&] { return fg::num(w.find_unit_end()); }); m.check("stream/far-close", w.close(), "close", [] { return S("false"); }); }
    io::fits_stream s; s.set_file(p); std::size_t pos = 0;
    for (int i = 0; i < 10; ++i) { pos = base + r.below(n); s.set_reading_pos(pos); m.check("stream/far-position", s.get_current_pos() == pos, "seek", [&] { return exp_got(pos, s.get_current_pos()); }); std::size_t e = (pos + 2879) / 2880 * 2880, u = s.find_unit_end(); m.check("stream/far-unit-end", u == e, "reading", [&] { return exp_got(e, u); }); std::size_t k = r.below(base + n - pos + 1); S g = s.read(k); m.check("stream/far-read", g == b.substr(pos - base, k), "read", [&] { return fg::num(k) + " bytes at " + fg::num(pos); }); s.set_reading_pos(pos); s.set_unit_end(); m.check("stream/far-aligned", s.get_current_pos() == e, "align", [&] { return exp_got(e, s.get_current_pos()); }); m.check("stream/far-end", s.at_end() == (e >= base + n), e >= base + n ? "end" : "inside", [&] { return fg::num(e); }); if (e >= base + n) s.set_file(p); }
    m.note("far"); ::unlink(p.c_str());
}
typedef decltype(io::fits::open("")) reader_t;
static void failures(Mon& m, Rng& r) {
    fg::opts o; o.allow_image = false; fg::file f = fg::make_file(r, o); S p = m.scratch + "/x.fits"; fg::dump(p, f.bytes); reader_t a = io::fits::open(p); S sz = f.bytes.size() > 16384 ? "large" : "small";
    io::fits_stream s; bool c = s.create_file(m.scratch + "/no/such/dir/f.fits"); m.check("failure/create-in-missing-directory", !c, "stream", [] { return S("reported success"); });
    m.check("failure/write-to-missing-directory-reported", throws([&] { a.write_to(m.scratch + "/no/such/dir/f.fits"); }), sz, [] { return S("no error"); });
    m.check("failure/write-to-directory-reported", throws([&] { a.write_to(m.scratch); }), sz, [] { return S("no error"); });
    m.check("failure/device-full-reported", throws([&] { a.write_to("/dev/full"); }), sz, [] { return S("no error"); });
    // the file system fills up part way: the size limit makes writes beyond it fail with EFBIG
    std::size_t limit = r.chance(.2) ? 0 : r.below(f.bytes.size()); S q = m.scratch + "/lim.fits"; int st = 0; pid_t pid = ::fork();
    if (pid == 0) { struct rlimit rl = {limit, limit}; ::signal(SIGXFSZ, SIG_IGN); ::setrlimit(RLIMIT_FSIZE, &rl); int rc = 0; try { a.write_to(q); rc = 3; } catch (const std::exception&) { rc = 7; } catch (...) { rc = 8; } ::_exit(rc); }
    ::waitpid(pid, &st, 0); m.check("failure/disk-full-part-way-reported", WIFEXITED(st) && WEXITSTATUS(st) == 7, sz + (limit == 0 ? ",at0" : limit < 8192 ? ",early" : ",late"), [&] { return "limit " + fg::num(limit) + " of " + fg::num(f.bytes.size()) + ", status " + fg::num(st); });
    // after a failure the same object still writes elsewhere
    a.write_to(q); std::vector<fg::raw_hdu> hs; S why; m.check("failure/usable-afterwards", fg::parse_structure(fg::slurp(q), hs, why) && hs.size() == f.hdus.size(), sz, [&] { return why; });
    // a table that cannot be written completely
    for (std::size_t i = 1; i < f.hdus.size(); ++i) { const fg::hdu& d = f.hdus[i]; if (!d.rows || d.cols.empty()) continue; auto& cell = d.kind == fg::ASCII ? boost::get<io::ascii_table>(a[(int)i]).get_data()[r.below(d.rows)][0] : boost::get<io::binary_table>(a[(int)i]).get_data()[r.below(d.rows)][0]; S old = cell; cell = S(d.cols[0].width + 1 + r.below(5), 'x');
        m.check("failure/unwritable-table-reported", throws([&] { a.write_to(q); }), d.kind == fg::ASCII ? "ascii" : "binary", [&] { return "a cell wider than its field of " + fg::num(d.cols[0].width); }); cell = old; a.write_to(q); hs.clear(); m.check("failure/usable-afterwards", fg::parse_structure(fg::slurp(q), hs, why) && hs.size() == f.hdus.size(), "after unwritable table", [&] { return why; }); break; }
    m.check("failure/open-directory-reported", throws([&] { io::fits::open(m.scratch); }), "dir", [] { return S("opened"); });
    m.check("failure/open-missing-reported", throws([&] { io::fits::open(m.scratch + "/nonesuch", r.chance(.5) ? io::reading_options::read_only_headers : io::reading_options::read_entire_hdus); }), "missing", [] { return S("opened"); });
    // failed re-initialisation does not disguise itself as the new file
    m.check("failure/reinitialize-missing-reported", throws([&] { a.initialize(m.scratch + "/nonesuch"); }), "init", [] { return S("accepted"); });
}
// The reader takes its file access as a parameter: every single operation of it is made to fail in turn.
struct faulty : io::fits_stream {
    static long& left() { static long n = -1; return n; } static long& seen() { static long n = 0; return n; }
    static bool hit() { ++seen(); return left() >= 0 && left()-- == 0; }
    S read(std::size_t n) { if (hit()) { get_internal_stream().setstate(std::ios::failbit); throw file_reading_exception("injected"); } return io::fits_stream::read(n); }
    bool write(const S& d) { if (hit()) { get_internal_stream().setstate(std::ios::badbit); return false; } return io::fits_stream::write(d); }
};
typedef io::basic_fits<faulty, io::default_hdu_manager<io::card_policy, io::ascii_converter, io::binary_data_converter>> faulty_fits;
static void injected(Mon& m, Rng& r) {
    fg::opts o; o.allow_image = false; o.max_ext = 2; fg::file f = fg::make_file(r, o); S p = m.scratch + "/i.fits", q = m.scratch + "/iw.fits"; fg::dump(p, f.bytes); bool all = r.chance(.7); auto opt = all ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers;
    faulty::left() = -1; faulty::seen() = 0; auto a = faulty_fits::open(p, opt); long n = faulty::seen(); m.check("injected/no-fault-no-error", a.get_hdu_list().size() == f.hdus.size(), all ? "read" : "headers", [&] { return fg::shape(f); });
    for (int i = 0; i < 12 && n > 0; ++i) { long k = i == 0 ? 0 : i == 1 ? n - 1 : (long)r.below(n); faulty::left() = k; bool t = throws([&] { faulty_fits::open(p, opt); }); faulty::left() = -1; m.check("injected/read-fault-reported", t, S(all ? "read" : "headers") + (k == 0 ? ",first" : k == n - 1 ? ",last" : ""), [&] { return "read " + fg::num(k) + " of " + fg::num(n) + " failed unnoticed"; });
        if (r.chance(.3)) { faulty::left() = k; throws([&] { a.initialize(p); if (all) a.read_entire_hdus(); else a.read_only_headers(); }); faulty::left() = -1; a.initialize(p); if (all) a.read_entire_hdus(); else a.read_only_headers(); m.check("injected/usable-after-read-fault", a.get_hdu_list().size() == f.hdus.size(), all ? "read" : "headers", [&] { return fg::shape(f); }); } }
    if (!all) return; faulty::seen() = 0; a.write_to(q); n = faulty::seen(); S good = fg::slurp(q);
    for (int i = 0; i < 12 && n > 0; ++i) { long k = i == 0 ? 0 : i == 1 ? n - 1 : (long)r.below(n); faulty::left() = k; bool t = throws([&] { a.write_to(q); }); faulty::left() = -1; m.check("injected/write-fault-reported", t, k == 0 ? "first" : k == n - 1 ? "last" : "", [&] { return "write " + fg::num(k) + " of " + fg::num(n) + " failed unnoticed"; });
        if (r.chance(.3)) { a.write_to(q); m.check("injected/usable-after-write-fault", fg::slurp(q) == good, "write", [&] { return fg::shape(f); }); } }
}
int main(int argc, char** argv) {
    Mon m(argc, argv);
    if (m.wants("P12")) { m.run("random-access", 1500, [&](Rng& r, std::uint64_t) { random_access(m, r); }); m.run("random-write", 1500, [&](Rng& r, std::uint64_t) { random_write(m, r); }); m.run("far", 100, [&](Rng& r, std::uint64_t) { far(m, r); }); }
    if (m.wants("P13")) { m.run("failures", 800, [&](Rng& r, std::uint64_t) { failures(m, r); }); m.run("injected", 800, [&](Rng& r, std::uint64_t) { injected(m, r); }); }
    return m.finish();
}
