// P09: histories of reads, edits, copies, reloads and writes on tables, judged cell by cell against a model.
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <memory>
using namespace boost::astronomy; using fg::S; using fg::hdu;
typedef decltype(io::fits::open("")) reader_t;
typedef std::vector<std::vector<S>> cells; // what the table has to hold: bytes (binary) or text (ASCII)

template <class T> S enc(const T& v) { S s(sizeof(T), '\0'); std::uint64_t b = 0; std::memcpy(&b, &v, sizeof(T)); for (std::size_t i = 0; i < sizeof(T); ++i) s[i] = (char)(b >> (8 * (sizeof(T) - 1 - i))); return s; }
inline S enc(const bool& v) { return v ? "T" : "F"; }
template <class T> S enc(const std::complex<T>& v) { return enc(v.real()) + enc(v.imag()); }
inline S enc(const std::pair<std::int32_t, std::int32_t>& v) { return enc(v.first) + enc(v.second); }
template <class T> S enc(const std::vector<T>& v) { S s; for (std::size_t i = 0; i < v.size(); ++i) s += enc((T)v[i]); return s; }

// floating point values without NaN, so that values compare
template <class T> struct mk { static T go(Rng& r) { return (T)r.u64(); } };
template <> struct mk<bool> { static bool go(Rng& r) { return r.chance(.5); } };
template <> struct mk<float> { static float go(Rng& r) { return (float)r.real(-1e6, 1e6); } };
template <> struct mk<double> { static double go(Rng& r) { return r.real(-1e9, 1e9); } };
template <class T> struct mk<std::complex<T>> { static std::complex<T> go(Rng& r) { T a = mk<T>::go(r), b = mk<T>::go(r); return {a, b}; } };
template <> struct mk<std::pair<std::int32_t, std::int32_t>> { static std::pair<std::int32_t, std::int32_t> go(Rng& r) { return {(std::int32_t)r.u64(), (std::int32_t)r.u64()}; } };

// numbers may be spelled differently, text has to be the same
static bool cell_same(const S& a, const S& b, bool binary) {
    if (a == b) return true; if (binary || a.empty() || b.empty()) return false; S x = a, y = b; for (auto& c : x) if (c == 'D') c = 'E'; for (auto& c : y) if (c == 'D') c = 'E';
    char *e, *f; double p = std::strtod(x.c_str(), &e), q = std::strtod(y.c_str(), &f); return !*e && !*f && std::fabs(p - q) <= 5.1e-6 * std::fabs(q);
}
struct held { std::function<S(const cells&)> differs; std::function<void(Rng&, cells&)> put; };   // a view the caller keeps while other things happen to the table
struct ctx { Mon& m; Rng& r; S trace; reader_t* rd; void* own; std::vector<held> views; };
static const char* kinds = "";

template <class Tab> bool table_is(ctx& x, Tab& t, const cells& c, bool binary, const S& cov) {
    auto& d = t.get_data(); bool ok = d.size() == c.size(); S why = exp_got(c.size(), d.size()) + " rows";
    for (std::size_t y = 0; ok && y < c.size(); ++y) for (std::size_t k = 0; ok && k < c[y].size(); ++k) { S got = binary ? d[y][k] : fg::trim(d[y][k]); if (!cell_same(got, c[y][k], binary)) { ok = false; why = "row " + fg::num(y) + " column " + fg::num(k) + " holds '" + got + "' instead of '" + c[y][k] + "'"; } }
    return x.m.check("table-holds-exactly-the-edits", ok, cov, [&] { return why + " after" + x.trace; });
}
// one operation on one cell / column through a typed view
template <class T, class Tab> void op_view(ctx& x, Tab& t, const hdu& d, cells& c, std::size_t k, std::function<S(const T&)> encode, std::function<T(Rng&)> make, std::function<bool(const T&, const S&)> equal, const S& ty, std::function<bool(Rng&, T&)> unfit = nullptr) {
    auto& v = t.template get_column<T>(d.cols[k].ttype); if (c.empty()) return; std::size_t y = x.r.below(c.size()); int op = (int)x.r.below(11); S cov = ty + ",op" + fg::num(op);
    if (op <= 1) { T got = v[(int)y]; x.trace += " read(" + fg::num(y) + "," + fg::num(k) + ")"; x.m.check("read-gives-current-value", equal(got, c[y][k]), cov, [&] { return "row " + fg::num(y) + " column " + fg::num(k) + x.trace; }); }
    else if (op == 2) { T nv = make(x.r); x.trace += " assign(" + fg::num(y) + "," + fg::num(k) + ")"; T ret = (v[(int)y] = nv); c[y][k] = encode(nv); x.m.check("assignment-yields-value", equal(ret, c[y][k]), cov, [&] { return x.trace; }); T got = v[(int)y]; x.m.check("read-gives-current-value", equal(got, c[y][k]), cov, [&] { return x.trace; }); }
    else if (op == 3) { T nv = make(x.r); x.trace += " update(" + fg::num(y) + "," + fg::num(k) + ")"; v.update_value((int)y, nv); c[y][k] = encode(nv); T got = v[(int)y]; x.m.check("read-gives-current-value", equal(got, c[y][k]), cov, [&] { return x.trace; }); }
    else if (op == 4) { x.trace += " scan(" + fg::num(k) + ")"; std::size_t n = 0; for (auto e : v) { T got = e; x.m.check("iteration-gives-current-values", n < c.size() && equal(got, c[n][k]), cov, [&] { return "row " + fg::num(n) + x.trace; }); if (++n > c.size()) break; } x.m.check("iteration-visits-every-row-once", n == c.size(), cov, [&] { return exp_got(c.size(), n); }); }
    else if (op == 6) { // a view taken by value, as most callers do, beside the one the table keeps
        auto w = v; x.trace += " twoviews(" + fg::num(y) + "," + fg::num(k) + ")"; T a = w[(int)y]; x.m.check("second-view-gives-current-value", equal(a, c[y][k]), cov, [&] { return x.trace; });
        T nv = make(x.r); v[(int)y] = nv; c[y][k] = encode(nv); T b = w[(int)y]; x.m.check("second-view-gives-current-value", equal(b, c[y][k]), cov, [&] { return x.trace; });
        nv = make(x.r); w[(int)y] = nv; c[y][k] = encode(nv); T e = v[(int)y], f = t.template get_column<T>(d.cols[k].ttype)[(int)y]; x.m.check("edit-through-second-view-seen", equal(e, c[y][k]) && equal(f, c[y][k]), cov, [&] { return x.trace; }); }
    else if (op == 7 && x.r.chance(.4)) { // from a cell of another table, often of the same row
        Tab u(t); auto& uv = u.template get_column<T>(d.cols[k].ttype); std::size_t z = x.r.chance(.5) ? y : x.r.below(c.size()); x.trace += " cellfrom(" + fg::num(y) + "<-" + fg::num(z) + "," + fg::num(k) + ")"; T nv = make(x.r); uv[(int)z] = nv; v[(int)y] = uv[(int)z]; c[y][k] = encode(nv); T got = v[(int)y], there = uv[(int)z]; x.m.check("cell-assigned-from-cell-of-another-table", equal(got, c[y][k]) && equal(there, encode(nv)), cov + (z == y ? ",same row" : ""), [&] { return x.trace; }); }
    else if (op == 7) { std::size_t z = x.r.below(c.size()); x.trace += " cellcopy(" + fg::num(y) + "<-" + fg::num(z) + "," + fg::num(k) + ")"; T src = v[(int)z]; v[(int)y] = v[(int)z]; c[y][k] = encode(src); T got = v[(int)y]; x.m.check("cell-assigned-from-cell", equal(got, c[y][k]), cov, [&] { return x.trace; }); }
    else if (op == 8) { std::size_t z = x.r.below(c.size()); x.trace += " rawcell(" + fg::num(y) + "<-" + fg::num(z) + "," + fg::num(k) + ")"; S raw = t.get_data()[z][k]; t.get_data()[y][k] = raw; c[y][k] = c[z][k]; T got = v[(int)y]; x.m.check("view-follows-table", equal(got, c[y][k]), cov, [&] { return x.trace; }); }
    else if (op == 9) { T bad = make(x.r); if (!unfit || !unfit(x.r, bad)) return; x.trace += " unfit(" + fg::num(y) + "," + fg::num(k) + ")"; bool reported = false; S why; try { v[(int)y] = bad; if ((void*)&t == x.own) x.rd->write_to(x.m.scratch + "/unfit.fits"); else { io::fits_stream s; s.create_file(x.m.scratch + "/unfit.fits"); t.write_to(s); s.close(); } } catch (const std::exception& e) { reported = true; why = e.what(); }
        x.m.check("value-that-does-not-fit-reported", reported, cov, [&] { return "row " + fg::num(y) + " column " + fg::num(k) + " of width " + fg::num(d.cols[k].width) + " written," + x.trace; }); T nv = make(x.r); v.update_value((int)y, nv); c[y][k] = encode(nv); }
    else if (op == 10) { if ((void*)&t != x.own || x.views.size() >= 4) return; auto w = std::make_shared<typename std::decay<decltype(v)>::type>(v); x.trace += " hold(" + fg::num(k) + ")";
        x.views.push_back({[w, k, equal](const cells& cc) -> S { std::size_t n = 0; for (auto e : *w) { T got = e; if (n >= cc.size() || !equal(got, cc[n][k])) return "row " + fg::num(n) + " column " + fg::num(k); ++n; } if (n != cc.size()) return fg::num(n) + " rows"; if (n) { T got = (*w)[(int)(n - 1)]; if (!equal(got, cc[n - 1][k])) return S("last row"); } return S(); },
            [w, k, encode, make](Rng& r, cells& cc) { if (cc.empty()) return; std::size_t y = r.below(cc.size()); T nv = make(r); (*w)[(int)y] = nv; cc[y][k] = encode(nv); }}); }
    else { x.trace += " fill(" + fg::num(k) + ")"; std::size_t n = 0; for (auto it = v.begin(); it != v.end(); ++it) { T nv = make(x.r); *it = nv; if (n < c.size()) c[n][k] = encode(nv); ++n; if (n > c.size()) break; } }
}
template <class T> void bin_scalar(ctx& x, io::binary_table& t, const hdu& d, cells& c, std::size_t k, const S& ty) { op_view<T>(x, t, d, c, k, [](const T& v) { return enc(v); }, [](Rng& r) { return mk<T>::go(r); }, [](const T& v, const S& s) { return enc(v) == s; }, ty); }
template <class T> void bin_vector(ctx& x, io::binary_table& t, const hdu& d, cells& c, std::size_t k, const S& ty, std::size_t n) { typedef std::vector<T> V; op_view<V>(x, t, d, c, k, [](const V& v) { return enc(v); }, [n](Rng& r) { V v; for (std::size_t i = 0; i < n; ++i) v.push_back(mk<T>::go(r)); return v; }, [](const V& v, const S& s) { return enc(v) == s; }, ty + "*", [n](Rng& r, V& v) { if (n > 0 && r.chance(.5)) v.resize(r.below(n)); else v.resize(n + 1 + r.below(3)); return true; }); }
static void bin_op(ctx& x, io::binary_table& t, const hdu& d, cells& c, std::size_t k) {
    const fg::col& q = d.cols[k]; bool one = q.repeat == 1; S ty(1, q.type); std::size_t n = q.repeat;
    switch (q.type) {
    case 'L': one ? bin_scalar<bool>(x, t, d, c, k, ty) : bin_vector<bool>(x, t, d, c, k, ty, n); break; case 'X': bin_vector<std::uint8_t>(x, t, d, c, k, ty, q.width); break;
    case 'B': one ? bin_scalar<std::uint8_t>(x, t, d, c, k, ty) : bin_vector<std::uint8_t>(x, t, d, c, k, ty, n); break; case 'A': one ? bin_scalar<char>(x, t, d, c, k, ty) : bin_vector<char>(x, t, d, c, k, ty, n); break;
    case 'I': one ? bin_scalar<std::int16_t>(x, t, d, c, k, ty) : bin_vector<std::int16_t>(x, t, d, c, k, ty, n); break; case 'J': one ? bin_scalar<std::int32_t>(x, t, d, c, k, ty) : bin_vector<std::int32_t>(x, t, d, c, k, ty, n); break;
    case 'E': one ? bin_scalar<float>(x, t, d, c, k, ty) : bin_vector<float>(x, t, d, c, k, ty, n); break; case 'D': one ? bin_scalar<double>(x, t, d, c, k, ty) : bin_vector<double>(x, t, d, c, k, ty, n); break;
    case 'C': one ? bin_scalar<std::complex<float>>(x, t, d, c, k, ty) : bin_vector<std::complex<float>>(x, t, d, c, k, ty, n); break; case 'M': one ? bin_scalar<std::complex<double>>(x, t, d, c, k, ty) : bin_vector<std::complex<double>>(x, t, d, c, k, ty, n); break;
    case 'P': bin_scalar<std::pair<std::int32_t, std::int32_t>>(x, t, d, c, k, ty); break; }
}
static double txt(const S& s) { S t = fg::trim(s); for (auto& c : t) if (c == 'D') c = 'E'; return std::strtod(t.c_str(), 0); }
// canonical text the model keeps for a number: what a plain stream prints
static S stream_text(double v) { std::ostringstream o; o << v; return o.str(); }
static void ascii_op(ctx& x, io::ascii_table& t, const hdu& d, cells& c, std::size_t k) {
    const fg::col& q = d.cols[k]; std::size_t w = q.width; S ty = S("ascii") + q.type;
    if (q.type == 'A') op_view<S>(x, t, d, c, k, [](const S& v) { return fg::trim(v); }, [w](Rng& r) { return fg::trim(fg::word(r, (int)r.range(0, (long long)w), "abcXYZ 019.-'/+")); }, [](const S& v, const S& s) { return fg::trim(v) == s; }, ty, [w](Rng& r, S& v) { v = fg::word(r, (int)(w + 1 + r.below(5)), "abcXYZ"); return true; });
    else if (q.type == 'I') op_view<long long>(x, t, d, c, k, [](const long long& v) { return std::to_string(v); }, [w](Rng& r) { long long lim = 1; for (std::size_t i = 1; i < w && i < 15; ++i) lim *= 10; return r.range(-(lim - 1) / 10, lim - 1); }, [](const long long& v, const S& s) { return v == std::atoll(s.c_str()); }, ty);
    else if (q.type == 'E') op_view<float>(x, t, d, c, k, [](const float& v) { std::ostringstream o; o << v; return o.str(); }, [](Rng& r) { return (float)(r.range(-7999, 7999) / 8.0); }, [](const float& v, const S& s) { return std::fabs(v - (float)txt(s)) <= 5.1e-6f * std::fabs(v); }, ty);
    else op_view<double>(x, t, d, c, k, [](const double& v) { return stream_text(v); }, [](Rng& r) { return r.range(-7999, 7999) / 8.0; }, [](const double& v, const S& s) { return std::fabs(v - txt(s)) <= 5.1e-6 * std::fabs(v); }, ty);
}
static cells cells_of(const hdu& d) { cells c; for (std::size_t y = 0; y < d.rows; ++y) { c.emplace_back(); for (std::size_t k = 0; k < d.cols.size(); ++k) c.back().push_back(d.kind == fg::ASCII ? fg::trim(d.cell(y, k)) : d.cell(y, k)); } return c; }
// numbers read from text may be spelled differently from what an edit writes, but unedited text has to stay
struct op_one { template <class Tab> static void go(ctx& x, Tab& t, const hdu& d, cells& c, std::size_t k); };
template <> void op_one::go(ctx& x, io::binary_table& t, const hdu& d, cells& c, std::size_t k) { bin_op(x, t, d, c, k); }
template <> void op_one::go(ctx& x, io::ascii_table& t, const hdu& d, cells& c, std::size_t k) { ascii_op(x, t, d, c, k); }

template <class Tab> void history(ctx& x, const fg::file& f, std::size_t hi, reader_t& rd, bool binary, int most = 25) {
    const hdu& d = f.hdus[hi]; cells base = cells_of(d), cur = base; Tab& t = boost::get<Tab>(rd[(int)hi]); x.own = (void*)&t;
    struct shadow { std::unique_ptr<Tab> t; cells c; }; std::vector<shadow> copies; int steps = (int)x.r.range(4, most); S kind = binary ? "bin" : "asc", last = "start";
    auto edit = [&](Tab& tt, cells& cc) { std::size_t k = x.r.below(d.cols.size()); op_one::go(x, tt, d, cc, k); };
    for (int i = 0; i < steps; ++i) {
        int op = (int)x.r.below(20); if (most < 25 && i == steps - 1) op = 18; x.m.note(x.trace.size() > 900 ? x.trace.substr(x.trace.size() - 900) : x.trace); S now;
        if (op < 12) { edit(t, cur); now = "edit"; }
        else if (op == 12 && copies.size() < 3) { copies.push_back({std::unique_ptr<Tab>(new Tab(t)), cur}); x.trace += " copy"; now = "copy"; }
        else if (op == 13 && !copies.empty()) { auto& s = copies[x.r.below(copies.size())]; x.trace += " [on copy:"; edit(*s.t, s.c); x.trace += "]"; now = "copyedit"; }
        else if (op == 14 && !copies.empty()) { auto& s = copies[x.r.below(copies.size())]; if (x.r.chance(.5)) { t = *s.t; cur = s.c; x.trace += " restore"; } else { *s.t = t; s.c = cur; x.trace += " overwritecopy"; } now = "assign"; }
        else if (op == 15 && !copies.empty()) { copies.erase(copies.begin() + x.r.below(copies.size())); x.trace += " dropcopy"; now = "drop"; }
        else if (op == 16 && d.rows) { t.set_data(d.data + d.heap); cur = base; x.trace += " reload"; now = "reload"; }
        else if (op == 17) { auto l = rd.get_hdu_list(); Tab& u = boost::get<Tab>(l[hi]); cells cc = cur; x.trace += " [on list copy:"; edit(u, cc); edit(u, cc); x.trace += "]"; table_is(x, u, cc, binary, kind + ",listcopy"); now = "list"; }
        else { S q = x.m.scratch + "/e.fits"; rd.write_to(q); x.trace += " write"; now = "write"; S got = fg::slurp(q), why; std::vector<fg::raw_hdu> hs; if (x.m.check("written-file-well-formed", fg::parse_structure(got, hs, why) && hs.size() == f.hdus.size(), kind + "," + last, [&] { return why + x.trace; })) { hdu e = d; e.data = hs[hi].data.substr(0, d.data.size()); cells wc = cells_of(e); bool ok = e.data.size() == d.data.size() && wc.size() == cur.size(); for (std::size_t y = 0; ok && y < cur.size(); ++y) for (std::size_t k = 0; ok && k < cur[y].size(); ++k) ok = cell_same(wc[y][k], cur[y][k], binary); x.m.check("written-file-holds-the-edits", ok, kind + "," + last, [&] { return S("cells differ after") + x.trace; }); bool hp = binary ? hs[hi].data == e.data + d.heap : fg::outside_difference(d, hs[hi].data) == S::npos; x.m.check("written-file-keeps-the-rest", hp && hs[hi].cards == d.cards, kind, [&] { return x.trace; });
                for (std::size_t j = 0; j < hs.size(); ++j) { x.m.check("written-headers-unchanged", hs[j].cards == f.hdus[j].cards, kind, [&] { return "unit " + fg::num(j) + x.trace; }); if (j == hi) { x.m.check("written-heap-unchanged", !binary || hs[j].data.substr(std::min(hs[j].data.size(), d.data.size())) == d.heap, kind, [&] { return x.trace; }); continue; }
                    if (f.hdus[j].kind == fg::ASCII) { hdu e = f.hdus[j]; e.data = hs[j].data; x.m.check("other-units-unchanged", e.data.size() == f.hdus[j].data.size() && cells_of(e) == cells_of(f.hdus[j]), kind + ",asc", [&] { return "unit " + fg::num(j) + x.trace; }); } else x.m.check("other-units-unchanged", hs[j].data == f.hdus[j].data + f.hdus[j].heap, kind, [&] { return "unit " + fg::num(j) + x.trace; }); }
                reader_t again = io::fits::open(q); Tab& u = boost::get<Tab>(again[(int)hi]); table_is(x, u, cur, binary, kind + ",reread"); } }
        if (now.empty()) continue;
        if (now == "assign" || now == "reload") x.views.clear();
        if (!x.views.empty() && x.r.chance(.4)) { x.trace += " heldedit"; x.views[x.r.below(x.views.size())].put(x.r, cur); }
        for (auto& h : x.views) { S why = h.differs(cur); x.m.check("held-view-gives-current-values", why.empty(), kind + "," + now, [&] { return why + x.trace; }); }
        table_is(x, t, cur, binary, kind + "," + last + ">" + now); for (auto& s : copies) table_is(x, *s.t, s.c, binary, kind + ",copy," + last + ">" + now);
        last = now;
    }
    // through every column once more, in the typed views
    for (std::size_t k = 0; k < d.cols.size(); ++k) op_one::go(x, t, d, cur, k); table_is(x, t, cur, binary, kind + ",end");
}
int main(int argc, char** argv) {
    Mon m(argc, argv);
    m.run("edits", 1600, [&](Rng& r, std::uint64_t i) {
        fg::opts o; o.names = true; o.allow_image = false; o.max_ext = 2; o.force_first = i % 2 ? fg::BINARY : fg::ASCII; fg::file f = fg::make_file(r, o);
        for (auto& h : f.hdus) if (h.kind == fg::BINARY) for (auto& c : h.cols) for (std::size_t y = 0; y < h.rows; ++y) { if (c.type == 'L') for (std::size_t k = 0; k < c.width; ++k) { char& b = h.data[y * h.naxis[0] + c.offset + k]; if (!b) b = 'F'; } /* avoid NaN patterns */ if (c.type == 'E' || c.type == 'D' || c.type == 'C' || c.type == 'M') for (std::size_t k = 0; k < c.width; k += (c.type == 'E' || c.type == 'C') ? 4 : 8) h.data[y * h.naxis[0] + c.offset + k] &= (char)0xbf; }
        fg::assemble(r, f); S p = m.scratch + "/src.fits"; fg::dump(p, f.bytes); reader_t rd = io::fits::open(p); ctx x{m, r, "", &rd, nullptr, {}};
        std::size_t hi = 1 + r.below(f.hdus.size() - 1); if (f.hdus[hi].kind == fg::BINARY) history<io::binary_table>(x, f, hi, rd, true); else history<io::ascii_table>(x, f, hi, rd, false);
    });
    m.run("vast", 12, [&](Rng& r, std::uint64_t i) { // more rows than 16 bits count, more columns than 8 bits count
        fg::opts o, small; o.names = true; bool wide = i / 2 % 2; if (wide) o.columns = (int)r.range(300, 999); else o.tall = true; fg::file f; f.hdus.push_back(fg::make_primary(r, small)); f.hdus.push_back(i % 2 ? fg::make_binary(r, o) : fg::make_ascii(r, o)); hdu& h = f.hdus[1]; if (h.kind == fg::BINARY) for (auto& c : h.cols) for (std::size_t y = 0; y < h.rows; ++y) { if (c.type == 'L') for (std::size_t k = 0; k < c.width; ++k) { char& b = h.data[y * h.naxis[0] + c.offset + k]; if (!b) b = 'F'; } if (std::strchr("EDCM", c.type)) for (std::size_t k = 0; k < c.width; k += (c.type == 'E' || c.type == 'C') ? 4 : 8) h.data[y * h.naxis[0] + c.offset + k] &= (char)0xbf; }
        fg::assemble(r, f); S p = m.scratch + "/tall.fits"; fg::dump(p, f.bytes); reader_t rd = io::fits::open(p); ctx x{m, r, "", &rd, nullptr, {}}; if (i % 2) history<io::binary_table>(x, f, 1, rd, true, wide ? 20 : 7); else history<io::ascii_table>(x, f, 1, rd, false, wide ? 20 : 7); }, 300);
    m.run("findings", 1, [&](Rng& r, std::uint64_t) {
        typedef std::vector<S> V; V cards = {fg::card("XTENSION", "'TABLE   '", ""), fg::card("BITPIX", "8", ""), fg::card("NAXIS", "2", ""), fg::card("NAXIS1", "25", ""), fg::card("NAXIS2", "1", ""), fg::card("PCOUNT", "0", ""), fg::card("GCOUNT", "1", ""), fg::card("TFIELDS", "1", ""), fg::card("TTYPE1", "'X'", ""), fg::card("TFORM1", "'D25.17'", ""), fg::card("TBCOL1", "1", "")};
        S h; for (auto& c : cards) h += c; h += "END"; h.resize((h.size() + 2879) / 2880 * 2880, ' '); S p = m.scratch + "/k.hdr"; fg::dump(p, h); io::fits_stream s; s.set_file(p); io::header<io::card_policy> hd; hd.read_header(s); io::ascii_table t(hd, fg::trim("1.0") + S(22, ' '));
        auto v = t.get_column<double>("X"); v[0] = 3.14159265358979; double b = t.get_column<double>("X")[0]; m.finding("KF-ascii-edit-six-digits", b != 3.14159265358979, "3.14159265358979 assigned to a D25.17 field is held as " + fg::num6(b)); });
    return m.finish();
}
