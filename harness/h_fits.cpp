// Monitors over whole FITS files: every file is generated together with a model of its content.
// P03 headers  P04 file structure and reading modes  P05 writing  P06 binary tables  P08 ASCII tables  P10 images
#include "fitsgen.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/io/image_extension.hpp>
using namespace boost::astronomy;
using fg::S; using fg::hdu; using fg::file;
typedef io::header<io::card_policy> header_t;
typedef decltype(io::fits::open("")) reader_t;
typedef std::decay<decltype(std::declval<reader_t>()[0])>::type ext_t;

static io::bitpix lib_bitpix(int b) { switch (b) { case 8: return io::bitpix::B8; case 16: return io::bitpix::B16; case 32: return io::bitpix::B32; case -32: return io::bitpix::_B32; } return io::bitpix::_B64; }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static S path(Mon& m, const char* n) { return m.scratch + "/" + n; }

static void check_header(Mon& m, header_t h, const hdu& d, const S& tag) {
    S cov = tag + "," + fg::shape(d);
    auto bad = [&](const S& w) { return [=] { return w + " in " + cov; }; };
    m.check("header/card-count", h.card_count() == d.cards.size() - 1, cov + ",n" + fg::num(d.cards.size()), [&] { return exp_got(d.cards.size() - 1, h.card_count()); });
    m.check("header/bitpix", h.bitpix() == lib_bitpix(d.bitpix), cov, bad("bitpix"));
    m.check("header/axes", h.all_naxis() == d.naxis && h.total_dimensions() == d.naxis.size(), cov, bad("axes"));
    for (std::size_t i = 0; i < d.naxis.size(); ++i) m.check("header/axis", h.naxis(i + 1) == d.naxis[i], cov, [&] { return exp_got(d.naxis[i], h.naxis(i + 1)); });
    m.check("header/axis-out-of-range-reported", throws([&] { h.naxis(d.naxis.size() + 1); }) && throws([&] { h.naxis(0); }), cov, bad("axis beyond the last"));
    std::size_t n = (d.data.size() + d.heap.size()) / fg::bytes_of(d.bitpix);
    m.check("header/data-size", h.data_size() == n, cov, [&] { return exp_got(n, h.data_size()); });
    m.check("header/name", h.get_hdu_name() == d.name(), cov, [&] { return h.get_hdu_name(); });
    for (auto& k : d.keys) {
        m.check("header/contains", h.contains_keyword(k.key), cov, [&] { return k.key; });
        if (k.type == 'i') { int v = h.value_of<int>(k.key); m.check("header/value/int", v == k.i, cov, [&] { return k.key + ": " + exp_got(k.i, v); });
            double x = h.value_of<double>(k.key); m.check("header/value/int-as-double", x == k.i, cov, [&] { return k.key + ": " + exp_got(k.i, x); }); }
        else if (k.type == 'l') { long long v = h.value_of<long long>(k.key); m.check("header/value/long long", v == k.i, cov, [&] { return k.key + ": " + exp_got(k.i, v); }); S t = h.value_of<S>(k.key); m.check("header/value/integer-as-text", t == fg::num(k.i), cov, [&] { return k.key + ": " + t; }); }
        else if (k.type == 'd') { double v = h.value_of<double>(k.key); m.check("header/value/double", v == k.d, cov, [&] { return k.key + ": " + exp_got(k.d, v); }); }
        else if (k.type == 'b') { bool v = h.value_of<bool>(k.key); m.check("header/value/bool", v == k.b, cov, [&] { return k.key; }); }
        else { S v = h.value_of<S>(k.key); m.check("header/value/string", v == k.s, cov, [&] { return k.key + ": " + exp_got(k.s, v); }); }
    }
    m.check("header/value/naxis-in-other-types", h.value_of<int>("NAXIS") == (int)d.naxis.size() && h.value_of<long long>("NAXIS") == (long long)d.naxis.size() && h.value_of<S>("NAXIS") == fg::num(d.naxis.size()), cov, bad("NAXIS"));
    for (int i = 0; i < 3; ++i) { S k = fg::trim(d.cards[(i * 7 + d.cards.size() / 2) % d.cards.size()].substr(0, 8)), a = i == 0 ? k.substr(0, k.size() / 2 + 1) : i == 1 ? k + "Q" : boost::algorithm::to_lower_copy(k); bool there = a.empty(); for (auto& c : d.cards) there = there || fg::trim(c.substr(0, 8)) == a; if (!there) m.check("header/similar-keyword-not-confused", !h.contains_keyword(a) && throws([&] { h.value_of<S>(a); }), i == 0 ? "beginning" : i == 1 ? "longer" : "lower case", [&] { return a + " taken for " + k; }); }
    for (std::size_t i = 0, step = d.cards.size() / 24 + 1; i + 1 < d.cards.size(); i += step) { S k = fg::trim(d.cards[i].substr(0, 8)); if (!k.empty()) m.check("header/contains-keyword-of-its-card", h.contains_keyword(k), k, [&] { return k; }); }
    m.check("header/absent-keyword-reported", !h.contains_keyword("NOSUCHKW") && throws([&] { h.value_of<int>("NOSUCHKW"); }), cov, bad("NOSUCHKW"));
}

// ---------------- P03 ----------------
static void headers(Mon& m, Rng& r, std::uint64_t index) {
    if (index == 3) { // as many axes as the standard allows
        hdu d; d.kind = fg::PRIMARY; d.bitpix = 8; d.naxis.assign(999, 1); d.naxis[r.below(999)] = 7; d.data = S(7, 'x'); d.cards.push_back(fg::card("SIMPLE", "T")); fg::std_cards(d); d.cards.push_back(fg::plain_card("END", "")); file f; f.hdus.push_back(d); fg::assemble(r, f);
        S p = path(m, "h.fits"); fg::dump(p, f.bytes); m.note("999 axes"); reader_t a = io::fits::open(p); check_header(m, io::fits::convert_to<io::primary_hdu>(a[0]).get_header(), d, "axes"); return; }
    if (index % 16 == 9) { // axes of any length: a header alone, its data part would be larger than any disk
        hdu d; d.kind = fg::PRIMARY; d.bitpix = r.pick(std::vector<int>{8, 16, 32, -32, -64}); int n = (int)r.range(1, 4), bits = 58; std::size_t total = 1; for (int i = 0; i < n; ++i) { int b = (int)r.range(0, r.chance(.5) ? std::min(bits, 34) : bits); std::size_t x = (std::size_t)1 << b; if (b && r.chance(.5)) x -= r.below(std::min<std::size_t>(x, 1000)); if (r.chance(.05)) x = 0; d.naxis.push_back(x); total *= x; bits -= b; }
        d.cards.push_back(fg::card("SIMPLE", "T")); fg::std_cards(d); d.cards.push_back(fg::plain_card("END", "")); S t; for (auto& c : d.cards) t += c; t.resize((t.size() + 2879) / 2880 * 2880, ' '); S p = path(m, "h.fits"); fg::dump(p, t); m.note("long axes"); io::fits_stream s; s.set_file(p); header_t h; h.read_header(s); S cov = "long axes," + fg::num(n);
        m.check("header/long-axes", h.all_naxis() == d.naxis && h.total_dimensions() == d.naxis.size(), cov, [&] { S w; for (auto x : d.naxis) w += " " + fg::num((long long)x); return w; });
        for (std::size_t i = 0; i < d.naxis.size(); ++i) m.check("header/long-axis", h.naxis(i + 1) == d.naxis[i], cov, [&] { return exp_got(d.naxis[i], h.naxis(i + 1)); });
        m.check("header/long-data-size", h.data_size() == total, cov, [&] { return exp_got(total, h.data_size()); }); return; }
    if (index % 250 == 11) { // thousands of cards
        bool huge = index == 11; int n = (int)(huge ? r.range(66000, 70000) : r.range(1100, 6000)); double share = huge ? .004 : .05;
        hdu d; d.kind = fg::PRIMARY; d.bitpix = 8; d.naxis = {3, 2}; d.data = "abcdef"; d.cards.push_back(fg::card("SIMPLE", "T")); fg::std_cards(d);
        for (int i = 0; i < n; ++i) { if (!r.chance(share) && i + 2 < n) { if (r.chance(.02)) fg::filler(r, d); else d.cards.push_back(fg::plain_card("COMMENT", "line " + fg::num(i))); } else { fg::kv k; k.key = "K" + fg::num(i); k.type = 'i'; k.i = (int)r.below(1000000); d.keys.push_back(k); d.cards.push_back(fg::card(k.key, fg::num(k.i))); } }
        d.cards.push_back(fg::plain_card("END", "")); file f; f.hdus.push_back(d); fg::assemble(r, f); S p = path(m, "h.fits"); fg::dump(p, f.bytes); m.note("thousands of cards"); io::fits_stream s; s.set_file(p); header_t h; h.read_header(s); check_header(m, h, d, "thousands"); return; }
    fg::opts o; file f = fg::make_file(r, o); S p = path(m, "h.fits"); fg::dump(p, f.bytes); m.note("headers " + fg::shape(f));
    io::fits_stream s; s.set_file(p); header_t reused;
    for (auto& d : f.hdus) {
        s.set_reading_pos(d.header_loc); header_t h; h.read_header(s); check_header(m, h, d, "direct");
        m.check("header/reader-stops-after-END", s.get_current_pos() == d.header_loc + 80 * d.cards.size(), fg::shape(d), [&] { return exp_got(d.header_loc + 80 * d.cards.size(), s.get_current_pos()); });
        // a header object that held another header before
        s.set_reading_pos(d.header_loc); reused.read_header(s); check_header(m, reused, d, "reused"); m.check("header/equality", reused == h, fg::shape(d), [&] { return S("two readings of one header differ"); });
        // queries leave no trace, copies are equal, and a header with one other card is another header
        if (r.chance(.5)) { (r.chance(.5) ? h : reused).get_hdu_name(); m.check("header/queries-leave-it-equal", reused == h && h == reused, fg::shape(d), [&] { return S("asking for the name changed the comparison"); }); }
        { header_t copy = h; m.check("header/copy-equal", copy == h, fg::shape(d), [&] { return S("a copy differs"); }); hdu e = d; S& c = e.cards[r.below(e.cards.size() - 1)]; if (c.size() == 80 && c[79] == ' ' && (c.find('/') != S::npos || c.compare(0, 7, "COMMENT") == 0 || c.compare(0, 7, "HISTORY") == 0)) { c[79] = 'x'; S t; for (auto& k : e.cards) t += k; fg::dump(path(m, "one.fits"), t); io::fits_stream o; o.set_file(path(m, "one.fits")); header_t other; other.read_header(o); m.check("header/different-text-differs", !(other == h) && !(h == other), fg::shape(d), [&] { return "card " + c; }); } }
        // written back it is the same text
        io::fits_stream w; S q = path(m, "hw.fits"); w.create_file(q); h.write_header(w); w.close(); S got = fg::slurp(q), want; for (auto& c : d.cards) want += c; while (want.size() % 2880) want += ' ';
        m.check("header/written-as-read", got == want, fg::shape(d), [&] { return exp_got(want.size(), got.size()) + " bytes"; });
    }
    // header lacking a mandatory keyword must not be accepted
    hdu d = f.hdus[r.below(f.hdus.size())]; std::vector<S> keys = {"BITPIX  ", "NAXIS   "}; for (std::size_t i = 0; i < d.naxis.size(); ++i) keys.push_back(("NAXIS" + fg::num(i + 1) + "    ").substr(0, 8));
    S victim = keys[r.below(keys.size())], b; for (auto& c : d.cards) if (c.compare(0, 8, victim)) b += c; b.resize((b.size() + 2879) / 2880 * 2880, ' ');
    S q = path(m, "bad.fits"); fg::dump(q, b); io::fits_stream s2; s2.set_file(q); header_t h;
    m.check("header/missing-mandatory-keyword-reported", throws([&] { h.read_header(s2); }), victim.substr(0, 5), [&] { return victim; });
    // unusable BITPIX
    S b2; for (auto& c : d.cards) b2 += c.compare(0, 8, "BITPIX  ") ? c : fg::card("BITPIX", fg::num(r.pick(std::vector<long long>{0, 7, -8, 12, -16, 128, 9, -63, 264, 272, 288, 224, 192, -248, -240, -224, 65544, 65552, -65504, 4294967304LL, 4294967312LL, -4294967264LL, -4294967360LL}))); b2.resize((b2.size() + 2879) / 2880 * 2880, ' ');
    fg::dump(q, b2); io::fits_stream s3; s3.set_file(q); header_t h3;
    m.check("header/unusable-bitpix-reported", throws([&] { h3.read_header(s3); }), "bitpix", [&] { return S("accepted"); });
    // cut anywhere before END
    S b3 = f.bytes.substr(d.header_loc, r.below(80 * d.cards.size())); fg::dump(q, b3); io::fits_stream s4; s4.set_file(q); header_t h4;
    m.check("header/truncated-header-reported", throws([&] { h4.read_header(s4); }), b3.size() % 80 ? "mid-card" : "card-boundary", [&] { return fg::num(b3.size()) + " bytes accepted"; });
}

struct header_visitor : boost::static_visitor<header_t> {
    template <class T> header_t operator()(const T& t) const { return t.get_header(); }
    header_t operator()(const boost::blank&) const { throw std::runtime_error("no hdu"); }
};
static int expected_kind(const hdu& d) { switch (d.kind) { case fg::PRIMARY: return 1; case fg::BINARY: return 2; case fg::ASCII: return 3; default: return 0; } }
static int kind_of(ext_t& e) { if (boost::get<io::primary_hdu>(&e)) return 1; if (boost::get<io::binary_table>(&e)) return 2; if (boost::get<io::ascii_table>(&e)) return 3; return 0; }

// ---------------- P04 ----------------
static void check_reader(Mon& m, reader_t& rd, const file& f, const S& p, bool entire, const S& tag, bool distinct) {
    S cov = tag + (entire ? ",entire" : ",headers") + "," + fg::shape(f); auto list = rd.get_hdu_list();
    if (!m.check("file/number-of-hdus", list.size() == f.hdus.size(), cov, [&] { return cov + " " + exp_got(f.hdus.size(), list.size()); })) return;
    auto cb = rd.get_control_block_info(); m.check("file/path-recorded", cb.filepath == p, tag, [&] { return cb.filepath; });
    m.check("file/index-beyond-last-reported", throws([&] { rd[(int)f.hdus.size()]; }), cov, [&] { return cov; });
    m.check("file/unknown-name-reported", throws([&] { rd["NOSUCHHDU"]; }), cov, [&] { return cov; });
    if (distinct) m.check("file/control-block-count", cb.total_hdus() == f.hdus.size(), cov, [&] { return exp_got(f.hdus.size(), cb.total_hdus()); });
    for (std::size_t i = 0; i < f.hdus.size(); ++i) {
        const hdu& d = f.hdus[i]; S c2 = tag + "," + fg::shape(d) + ",i" + fg::num(i);
        m.check("file/kind-of-hdu", kind_of(list[i]) == expected_kind(d) && kind_of(rd[(int)i]) == expected_kind(d), c2, [&] { return cov + " hdu " + fg::num(i); });
        std::size_t namesakes = 0; for (auto& e : f.hdus) namesakes += e.name() == d.name();
        if (namesakes > 1) { // the name stands for one of them, wholly
            bool one = false; auto it = cb.hdus_info.find(d.name()); if (it != cb.hdus_info.end()) for (std::size_t k = 0; k < f.hdus.size(); ++k) one = one || (f.hdus[k].name() == d.name() && it->second.hdu_index == k && it->second.header_location == f.hdus[k].header_loc && it->second.data_location == f.hdus[k].data_loc && &rd[d.name()] == &rd[(int)k]);
            m.check("file/shared-name-reaches-one-of-its-units", one, c2, [&] { return cov + " " + d.name(); }); }
        else {
            bool have = cb.hdus_info.count(d.name()) > 0; m.check("file/control-block-entry", have, c2, [&] { return d.name(); });
            if (have) { auto in = cb.hdus_info[d.name()]; m.check("file/locations", in.header_location == d.header_loc && in.data_location == d.data_loc && in.hdu_index == i, c2, [&] { return cov + " hdu " + fg::num(i) + ": header " + exp_got(d.header_loc, in.header_location) + ", data " + exp_got(d.data_loc, in.data_location) + ", index " + exp_got(i, in.hdu_index); });
                m.check("file/name-and-index-agree", &rd[d.name()] == &rd[(int)i], c2, [&] { return d.name(); }); }
        }
        if (d.kind == fg::IMAGE || kind_of(rd[(int)i]) == 0) continue;
        check_header(m, boost::apply_visitor(header_visitor(), rd[(int)i]), d, tag);
        if (d.kind == fg::PRIMARY) { auto& pr = io::fits::convert_to<io::primary_hdu>(rd[(int)i]); m.check("file/simple-and-extend", pr.is_simple() == d.simple && pr.is_extended() == d.extend, c2 + (d.has_extend ? "" : ",noextend") + (d.simple ? "" : ",notsimple"), [&] { return c2; }); }
        else { std::size_t rows = d.kind == fg::ASCII ? boost::get<io::ascii_table>(rd[(int)i]).get_data().size() : boost::get<io::binary_table>(rd[(int)i]).get_data().size();
            if (entire && rows == d.rows) { bool same = true; for (std::size_t y = 0; same && y < rows; ++y) for (std::size_t k = 0; same && k < d.cols.size(); ++k) { if (d.kind == fg::ASCII) same = fg::trim(boost::get<io::ascii_table>(rd[(int)i]).get_data()[y].at(k)) == fg::trim(d.cell(y, k)); else same = boost::get<io::binary_table>(rd[(int)i]).get_data()[y].at(k) == d.cell(y, k); } m.check("file/data-of-the-unit", same, c2, [&] { return cov + " hdu " + fg::num(i); }); }
            m.check(entire ? "file/all-rows-read" : "file/no-data-read-in-header-mode", rows == (entire ? d.rows : 0), c2, [&] { return exp_got(entire ? d.rows : 0, rows); }); }
    }
}
static void structure(Mon& m, Rng& r) {
    fg::opts o; o.distinct = r.chance(.5); o.max_ext = 6; o.big = true; file f = fg::make_file(r, o); S p = path(m, "s.fits"); fg::dump(p, f.bytes); m.note("structure " + fg::shape(f));
    reader_t a = io::fits::open(p); check_reader(m, a, f, p, true, "open", o.distinct);
    reader_t b = io::fits::open(p, io::reading_options::read_only_headers); check_reader(m, b, f, p, false, "open", o.distinct);
    // same object, other file
    fg::opts o2; o2.distinct = true; file g = fg::make_file(r, o2); S q = path(m, "s2.fits"); fg::dump(q, g.bytes); bool ent = r.chance(.5);
    a.initialize(q); if (ent) a.read_entire_hdus(); else a.read_only_headers(); check_reader(m, a, g, q, ent, "reinitialized", true);
    m.check("file/missing-file-reported", throws([&] { io::fits::open(m.scratch + "/none.fits"); }), "missing", [] { return S("opened"); });
    { // a data part larger than any file: sizes that come back to something small when they are multiplied out in 64 bits
        hdu d; d.kind = fg::PRIMARY; d.bitpix = r.pick(std::vector<int>{8, 16, 32, -32, -64}); int w = d.bitpix < 0 ? -d.bitpix / 8 : d.bitpix / 8, sh = w == 8 ? 3 : w == 4 ? 2 : w == 2 ? 1 : 0, mode = (int)r.below(4); std::size_t one = 1;
        if (mode == 0) { int a = (int)r.range(1, 63); d.naxis = {one << a, one << (64 - a)}; } else if (mode == 1) { int a = (int)r.range(1, 60); d.naxis = {one << a, (one << (64 - sh - a)) + (sh == 0 ? 0 : 1)}; if (sh == 0) d.naxis = {one << 22, one << 21, one << 21}; }
        else if (mode == 2) d.naxis = {0xFFFFFFFFull, 0x100000001ull, (std::size_t)r.range(2, 9)}; else d.naxis = {one << 32, one << 31, (std::size_t)r.range(1, 3), 2};
        d.cards.push_back(fg::card("SIMPLE", "T")); fg::std_cards(d); d.cards.push_back(fg::plain_card("END", "")); S t; for (auto& c : d.cards) t += c; t.resize((t.size() + 2879) / 2880 * 2880, ' '); t += S(2880 * r.below(3), '\0'); S q2 = path(m, "huge.fits"); fg::dump(q2, t); m.note("size that wraps around");
        m.check("file/impossible-size-reported", throws([&] { io::fits::open(q2); }), "huge" + fg::num(mode) + "," + fg::num(d.bitpix), [&] { S n; for (auto x : d.naxis) n += " " + std::to_string(x); return n + " BITPIX " + fg::num(d.bitpix) + " accepted"; }); }
    // data cut off
    const hdu& last = f.hdus.back(); std::size_t len = last.data.size() + last.heap.size();
    if (len) { S t = path(m, "cut.fits"); std::size_t keep = last.data_loc + r.below(len); fg::dump(t, f.bytes.substr(0, keep)); m.check("file/truncated-data-reported", throws([&] { io::fits::open(t); }), fg::shape(last), [&] { return fg::num(keep) + " of " + fg::num(last.data_loc + len); }); 
        fg::dump(t, f.bytes.substr(0, last.data_loc + len)); reader_t u = io::fits::open(t); m.check("file/missing-final-fill-accepted", u.get_hdu_list().size() == f.hdus.size(), fg::shape(last), [&] { return fg::shape(f); }); }
}
// units behind data parts beyond 2 and 4 GB (a sparse file, its headers read only)
// a table whose heap is beyond 2 and 4 GB, and a table behind it
static void large_heap(Mon& m, Rng& r) {
    fg::opts o; hdu e = fg::make_ascii(r, o); S p = path(m, "heap.fits"); std::size_t heap = (r.chance(.5) ? (1ull << 31) : (1ull << 32)) + r.below(1 << 20), rows = (std::size_t)r.range(1, 50);
    auto block = [](std::vector<S> c) { S h; for (auto& k : c) h += k; h += "END"; h.resize((h.size() + 2879) / 2880 * 2880, ' '); return h; };
    S h0 = block({fg::card("SIMPLE", "T"), fg::card("BITPIX", "8"), fg::card("NAXIS", "0"), fg::card("EXTEND", "T")}), h1 = block({fg::card("XTENSION", "'BINTABLE'"), fg::card("BITPIX", "8"), fg::card("NAXIS", "2"), fg::card("NAXIS1", "8"), fg::card("NAXIS2", fg::num((long long)rows)), fg::card("PCOUNT", fg::num((long long)heap)), fg::card("GCOUNT", "1"), fg::card("TFIELDS", "1"), fg::card("TFORM1", "'1PE(9)  '"), fg::card("TTYPE1", "'V'")}); S eh; for (auto& k : e.cards) eh += k; eh.resize((eh.size() + 2879) / 2880 * 2880, ' '); S ed = e.data; ed.resize((ed.size() + 2879) / 2880 * 2880, ' ');
    std::size_t at = h0.size() + h1.size() + (rows * 8 + heap + 2879) / 2880 * 2880; { std::ofstream w(p, std::ios::binary | std::ios::trunc); w << h0 << h1; w.seekp((std::streamoff)at); w << eh << ed; w.close(); if (!w) { std::remove(p.c_str()); return; } }
    S cov = heap >> 32 ? "heap,4GB" : "heap,2GB"; m.note("large " + cov); S why; try { reader_t a = io::fits::open(p, io::reading_options::read_only_headers); auto cb = a.get_control_block_info(); if (a.get_hdu_list().size() != 3) why = fg::num(a.get_hdu_list().size()) + " units"; else if (kind_of(a[2]) != expected_kind(e)) why = "other kind"; else if (cb.hdus_info.at(e.name()).header_location != at) why = "at " + fg::num((long long)cb.hdus_info.at(e.name()).header_location); } catch (const std::exception& x) { why = x.what(); }
    std::remove(p.c_str()); m.check("file/unit-behind-large-heap", why.empty(), cov, [&] { return "a binary table with " + fg::num((long long)heap) + " bytes behind its rows, then a table at " + fg::num((long long)at) + ": " + why; });
}
static void large(Mon& m, Rng& r) {
    fg::opts o; file f; f.hdus.push_back(fg::make_primary(r, o)); hdu e = r.chance(.5) ? fg::make_binary(r, o) : fg::make_ascii(r, o); S p = path(m, "large.fits"); int bp = r.pick(std::vector<int>{8, 16, 32, -32, -64}); std::size_t size = std::abs(bp) / 8, want = (r.chance(.5) ? (1ull << 31) : (1ull << 32)) + r.below(1 << 20), nx = (std::size_t)r.range(1, 100000), ny = want / size / nx + 1, bytes = nx * ny * size;
    std::vector<S> c = {fg::card("SIMPLE", "T"), fg::card("BITPIX", fg::num(bp)), fg::card("NAXIS", "2"), fg::card("NAXIS1", fg::num((long long)nx)), fg::card("NAXIS2", fg::num((long long)ny)), fg::card("EXTEND", "T"), fg::card("END", "")}; c.back() = S("END").append(77, ' ');
    S h; for (auto& k : c) h += k; h.resize(2880, ' '); std::size_t at = 2880 + (bytes + 2879) / 2880 * 2880; S eh; for (auto& k : e.cards) eh += k; eh.resize((eh.size() + 2879) / 2880 * 2880, ' '); S ed = e.data + e.heap; ed.resize((ed.size() + 2879) / 2880 * 2880, ' ');
    { std::ofstream w(p, std::ios::binary | std::ios::trunc); w << h; w.seekp((std::streamoff)at); w << eh << ed; w.close(); if (!w) { std::remove(p.c_str()); return; } }
    S cov = fg::num(bp) + (bytes >> 32 ? ",4GB" : ",2GB"); m.note("large " + cov); S why; try { reader_t a = io::fits::open(p, io::reading_options::read_only_headers); auto cb = a.get_control_block_info(); if (a.get_hdu_list().size() != 2) why = fg::num(a.get_hdu_list().size()) + " units"; else if (kind_of(a[1]) != expected_kind(e)) why = "other kind"; else if (cb.hdus_info.at(e.name()).header_location != at) why = "at " + fg::num((long long)cb.hdus_info.at(e.name()).header_location); } catch (const std::exception& x) { why = x.what(); }
    std::remove(p.c_str()); m.check("file/unit-behind-large-data", why.empty(), cov, [&] { return "a " + fg::num((long long)nx) + " x " + fg::num((long long)ny) + " image with BITPIX " + fg::num(bp) + ", then an extension at " + fg::num((long long)at) + ": " + why; });
}
static void p04_findings(Mon& m) {
    Rng r(99); fg::opts o; file f; f.hdus.push_back(fg::make_primary(r, o)); f.hdus.push_back(fg::make_binary(r, o)); f.hdus.push_back(fg::make_binary(r, o)); fg::assemble(r, f);
    S p = path(m, "dup.fits"); fg::dump(p, f.bytes); reader_t a = io::fits::open(p, io::reading_options::read_only_headers);
    m.finding("KF-control-block-duplicates", a.get_hdu_list().size() == 3 && a.get_control_block_info().total_hdus() == 2, "a file with two BINTABLE extensions has 3 HDUs, the control block lists 2");
}

// ---------------- P05 ----------------
static void compare_written(Mon& m, const S& got, const file& f, const S& tag) {
    S cov = tag + "," + fg::shape(f), why; std::vector<fg::raw_hdu> hs;
    if (!m.check("write/well-formed-file", fg::parse_structure(got, hs, why), cov, [&] { return cov + ": " + why; })) return;
    if (!m.check("write/number-of-hdus", hs.size() == f.hdus.size(), cov, [&] { return cov + " " + exp_got(f.hdus.size(), hs.size()); })) return;
    for (std::size_t i = 0; i < hs.size(); ++i) {
        const hdu& d = f.hdus[i]; S c2 = tag + "," + fg::shape(d);
        m.check("write/header-text-kept", hs[i].cards == d.cards, c2, [&] { for (std::size_t k = 0; k < d.cards.size() && k < hs[i].cards.size(); ++k) if (d.cards[k] != hs[i].cards[k]) return "card " + fg::num(k) + ": " + exp_got(d.cards[k], hs[i].cards[k]); return exp_got(d.cards.size(), hs[i].cards.size()) + " cards"; });
        char fill = d.kind == fg::ASCII ? ' ' : '\0'; m.check("write/fill", hs[i].fill == S(hs[i].fill.size(), fill), c2, [&] { return c2; });
        if (d.kind == fg::ASCII) {
            if (!m.check("write/table-size", hs[i].data.size() == d.data.size(), c2, [&] { return exp_got(d.data.size(), hs[i].data.size()); })) continue;
            hdu e = d; e.data = hs[i].data;
            for (std::size_t y = 0; y < d.rows; ++y) for (std::size_t c = 0; c < d.cols.size(); ++c) m.check("write/ascii-field-kept", fg::trim(e.cell(y, c)) == fg::trim(d.cell(y, c)), c2 + "," + d.cols[c].type, [&] { return "row " + fg::num(y) + " field " + fg::num(c) + " " + exp_got(d.cell(y, c), e.cell(y, c)); });
            std::size_t lost = fg::outside_difference(d, e.data); m.check("write/characters-between-fields-kept", lost == S::npos, c2, [&] { return "row " + fg::num(lost / d.naxis[0]) + " character " + fg::num(lost % d.naxis[0]) + " " + exp_got(d.data[lost], e.data[lost]); });
            for (std::size_t y = 0; y < d.rows; ++y) for (std::size_t c = 0; c < d.cols.size(); ++c) { S w = d.cell(y, c); if (!w.empty() && w.back() != ' ') m.check("write/right-justified-field-kept-in-place", e.cell(y, c) == w, c2 + "," + d.cols[c].type, [&] { return "row " + fg::num(y) + " field " + fg::num(c) + " " + exp_got(w, e.cell(y, c)); }); }
        } else m.check("write/data-bytes-kept", hs[i].data == d.data + d.heap, c2 + (d.rows ? ",rows" : ""), [&] { std::size_t k = 0; S w = d.data + d.heap; while (k < w.size() && k < hs[i].data.size() && w[k] == hs[i].data[k]) ++k; return c2 + ": first difference at byte " + fg::num(k) + " of " + fg::num(w.size()); });
    }
}
struct vis : boost::static_visitor<> { io::fits_stream& s; vis(io::fits_stream& x) : s(x) {} void operator()(boost::blank&) const {} template <class T> void operator()(T& t) const { t.write_to(s); } };
static void writing(Mon& m, Rng& r) {
    fg::opts o; o.allow_image = false; o.max_ext = 5; o.big = true; file f = fg::make_file(r, o); S p = path(m, "w.fits"), q = path(m, "w2.fits"), q3 = path(m, "w3.fits"); fg::dump(p, f.bytes); m.note("writing " + fg::shape(f));
    reader_t a = io::fits::open(p);
    // reading the content before writing must not matter
    if (r.chance(.5)) for (std::size_t i = 1; i < f.hdus.size(); ++i) for (auto& c : f.hdus[i].cols) { if (c.ttype.empty() || !f.hdus[i].rows) continue; if (f.hdus[i].kind == fg::BINARY && c.type == 'J' && c.repeat > 1) { auto& v = boost::get<io::binary_table>(a[(int)i]).get_column<std::vector<std::int32_t>>(c.ttype); v[0]; } else if (f.hdus[i].kind == fg::ASCII && c.type == 'A') { auto& v = boost::get<io::ascii_table>(a[(int)i]).get_column<S>(c.ttype); v[0]; } }
    a.write_to(q); S w = fg::slurp(q); compare_written(m, w, f, "rewrite");
    a.write_to(q3); m.check("write/repeatable", fg::slurp(q3) == w, fg::shape(f), [&] { return fg::shape(f); });
    reader_t b = io::fits::open(q); b.write_to(q3); m.check("write/stable-under-rereading", fg::slurp(q3) == w, fg::shape(f), [&] { return fg::shape(f); });
    m.check("write/source-untouched", fg::slurp(p) == f.bytes, "source", [&] { return fg::shape(f); });
    // over the file it was read from, and over a longer one
    if (r.chance(.3)) { fg::dump(q3, S(w.size() + 2880 * 3, 'Z')); a.write_to(q3); m.check("write/replaces-previous-content", fg::slurp(q3) == w, fg::shape(f), [&] { return fg::num(fg::slurp(q3).size()); }); }
    if (r.chance(.3)) { b.write_to(q); m.check("write/in-place", fg::slurp(q) == w, fg::shape(f), [&] { return fg::shape(f); }); }
    // one HDU on its own through its own write operation
    std::size_t k = r.below(f.hdus.size()); io::fits_stream s; s.create_file(q3); boost::apply_visitor(vis(s), a[(int)k]); s.close();
    hdu d = f.hdus[k]; S one = fg::slurp(q3); std::size_t hlen = (80 * d.cards.size() + 2879) / 2880 * 2880, dlen = (d.data.size() + d.heap.size() + 2879) / 2880 * 2880;
    m.check("write/single-hdu-size", one.size() == hlen + dlen, fg::shape(d), [&] { return fg::shape(d) + " " + exp_got(hlen + dlen, one.size()); });
}
static void p05_findings(Mon& m) {
    Rng r(5); fg::opts o; o.foreign = false; file f; f.hdus.push_back(fg::make_primary(r, o)); f.hdus.push_back(fg::make_image_ext(r, o)); fg::assemble(r, f); S p = path(m, "img.fits"), q = path(m, "imgw.fits"); fg::dump(p, f.bytes);
    reader_t a = io::fits::open(p); a.write_to(q); std::vector<fg::raw_hdu> hs; S why; bool ok = fg::parse_structure(fg::slurp(q), hs, why);
    m.finding("KF-image-extension-dropped", ok && hs.size() == 1, "a primary HDU followed by an IMAGE extension is written back without the extension");
}

// ---------------- P06 ----------------
template <class T> bool same(const T& a, const T& b) { return a == b; }
template <> bool same(const float& a, const float& b) { return std::memcmp(&a, &b, 4) == 0 || (a != a && b != b); }
template <> bool same(const double& a, const double& b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
template <class T> bool same(const std::complex<T>& a, const std::complex<T>& b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
template <class T> bool same(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!same((T)a[i], (T)b[i])) return false; return true; }
template <class T> void scalar_col(Mon& m, io::binary_table& t, const hdu& d, std::size_t c, const S& cov) {
    auto& v = t.get_column<T>(d.cols[c].ttype); m.check("binary/row-count", v.get_row_count() == d.rows, cov, [&] { return exp_got(d.rows, v.get_row_count()); }); m.check("binary/column-number", v.get_column_number() == (int)c + 1, cov, [&] { return exp_got(c + 1, v.get_column_number()); });
    for (int pass = 0; pass < 2; ++pass) for (std::size_t y = 0; y < d.rows; ++y) { T got = v[(int)y], want = fg::be_as<T>(d.cell(y, c), 0); m.check("binary/cell/scalar", same(got, want), cov + (pass ? ",again" : ""), [&] { return cov + " row " + fg::num(y); }); }
    std::size_t n = 0; for (auto x : v) { T got = x, want = n < d.rows ? fg::be_as<T>(d.cell(n, c), 0) : T(); m.check("binary/iteration", same(got, want), cov, [&] { return cov + " row " + fg::num(n); }); ++n; if (n > d.rows) break; }
    m.check("binary/iteration-complete", n == d.rows, cov, [&] { return exp_got(d.rows, n); });
}
template <class T> void vector_col(Mon& m, io::binary_table& t, const hdu& d, std::size_t c, const S& cov) {
    auto& v = t.get_column<std::vector<T>>(d.cols[c].ttype); m.check("binary/row-count", v.get_row_count() == d.rows, cov, [&] { return exp_got(d.rows, v.get_row_count()); });
    for (int pass = 0; pass < 2; ++pass) for (std::size_t y = 0; y < d.rows; ++y) { std::vector<T> got = v[(int)y], want = fg::be_vec<T>(d.cell(y, c)); m.check("binary/cell/array", same(got, want), cov + (pass ? ",again" : ""), [&] { return cov + " row " + fg::num(y) + ": " + exp_got(want.size(), got.size()) + " elements"; }); }
    std::size_t n = 0; for (auto x : v) { std::vector<T> got = x; if (n < d.rows) m.check("binary/iteration", same(got, fg::be_vec<T>(d.cell(n, c))), cov, [&] { return cov + " row " + fg::num(n); }); ++n; if (n > d.rows) break; }
    m.check("binary/iteration-complete", n == d.rows, cov, [&] { return exp_got(d.rows, n); });
}
template <class Tab> void check_metadata(Mon& m, Tab& t, const hdu& d, std::size_t c, const S& kind) {
    const fg::col& k = d.cols[c]; io::column md = t.get_column_metadata(k.ttype); S cov = kind + "," + k.type + (k.has_scal ? ",scal" : "") + (k.has_zero ? ",zero" : "") + (k.tunit.empty() ? "" : ",unit") + (k.tdim.empty() ? "" : ",dim");
    m.check(kind + "/metadata/name-format-unit", md.TTYPE() == k.ttype && md.TFORM() == k.tform && md.TUNIT() == k.tunit, cov, [&] { return md.TTYPE() + "|" + md.TFORM() + "|" + md.TUNIT() + " expected " + k.ttype + "|" + k.tform + "|" + k.tunit; });
    m.check(kind + "/metadata/scale-zero", md.TSCAL() == k.tscal && md.TZERO() == k.tzero, cov, [&] { return "scale " + exp_got(k.tscal, md.TSCAL()) + " zero " + exp_got(k.tzero, md.TZERO()); });
    m.check(kind + "/metadata/position", md.index() == c + 1 && md.TBCOL() == (kind == "ascii" ? k.tbcol : k.offset), cov, [&] { return "index " + exp_got(c + 1, md.index()) + " start " + exp_got(k.offset, md.TBCOL()); });
    m.check(kind + "/metadata/display-dimension", md.TDISP() == k.tdisp && md.TDIM() == k.tdim, cov, [&] { return md.TDISP() + "|" + md.TDIM(); });
}
static void read_binary_column(Mon& m, io::binary_table& t, const hdu& d, std::size_t c) {
    const fg::col& k = d.cols[c]; S cov = S(1, k.type) + (k.repeat > 12 ? ",rL" : ",r" + fg::num(k.repeat)) + (c ? "" : ",first") + (c + 1 == d.cols.size() ? ",last" : "");
    m.check("binary/width", io::binary_table::column_size(k.tform) == k.width, cov, [&] { return k.tform + " " + exp_got(k.width, io::binary_table::column_size(k.tform)); });
    m.check("binary/format", io::binary_table::get_type(k.tform) == k.type && io::binary_table::element_count(k.tform) == k.repeat, cov, [&] { return k.tform; });
    bool one = k.repeat == 1;
    switch (k.type) {
    case 'L': one ? scalar_col<bool>(m, t, d, c, cov) : vector_col<bool>(m, t, d, c, cov); break;
    case 'X': vector_col<std::uint8_t>(m, t, d, c, cov); break;
    case 'B': one ? scalar_col<std::uint8_t>(m, t, d, c, cov) : vector_col<std::uint8_t>(m, t, d, c, cov); break;
    case 'A': one ? scalar_col<char>(m, t, d, c, cov) : vector_col<char>(m, t, d, c, cov); break;
    case 'I': one ? scalar_col<std::int16_t>(m, t, d, c, cov) : vector_col<std::int16_t>(m, t, d, c, cov); break;
    case 'J': one ? scalar_col<std::int32_t>(m, t, d, c, cov) : vector_col<std::int32_t>(m, t, d, c, cov); break;
    case 'E': one ? scalar_col<float>(m, t, d, c, cov) : vector_col<float>(m, t, d, c, cov); break;
    case 'D': one ? scalar_col<double>(m, t, d, c, cov) : vector_col<double>(m, t, d, c, cov); break;
    case 'C': one ? scalar_col<std::complex<float>>(m, t, d, c, cov) : vector_col<std::complex<float>>(m, t, d, c, cov); break;
    case 'M': one ? scalar_col<std::complex<double>>(m, t, d, c, cov) : vector_col<std::complex<double>>(m, t, d, c, cov); break;
    case 'P': scalar_col<std::pair<std::int32_t, std::int32_t>>(m, t, d, c, cov); break;
    }
}
// the file with the value of one integer card of one HDU replaced
static S with_card(const file& f, const hdu& d, const S& key, long long value) {
    S k = key; k.resize(8, ' '); k += "= "; char buf[81]; std::snprintf(buf, sizeof buf, "%s%20lld", k.c_str(), value); S card = buf; card.resize(80, ' ');
    S b = f.bytes; for (std::size_t at = d.header_loc; at + 80 <= b.size() && at < d.data_loc; at += 80) if (b.compare(at, 10, k) == 0) { b.replace(at, 80, card); return b; }
    return S();
}
static void binary(Mon& m, Rng& r, std::uint64_t index) {
    fg::opts o; o.force_first = fg::BINARY; o.max_ext = 2; if (index == 7) { o.columns = 999; o.max_ext = 0; } // as many columns as the standard allows
    file f = fg::make_file(r, o); S p = path(m, "b.fits"); fg::dump(p, f.bytes); m.note("binary " + fg::shape(f)); reader_t a = io::fits::open(p);
    for (std::size_t i = 1; i < f.hdus.size(); ++i) { const hdu& d = f.hdus[i]; if (d.kind != fg::BINARY) continue; auto& t = io::fits::convert_to<io::binary_table>(a[(int)i]);
        if (!m.check("binary/rows", t.get_data().size() == d.rows, fg::shape(d), [&] { return exp_got(d.rows, t.get_data().size()); })) continue;
        std::vector<std::size_t> order; for (std::size_t c = 0; c < d.cols.size(); ++c) order.push_back(c); for (std::size_t c = order.size(); c > 1; --c) std::swap(order[c - 1], order[r.below(c)]);
        for (std::size_t c : order) { if (d.cols[c].ttype.empty()) continue; check_metadata(m, t, d, c, "binary"); read_binary_column(m, t, d, c); }
        for (std::size_t y = 0; y < d.rows; ++y) for (std::size_t c = 0; c < d.cols.size(); ++c) m.check("binary/raw-cell", t.get_data()[y][c] == d.cell(y, c), S(1, d.cols[c].type), [&] { return "row " + fg::num(y) + " col " + fg::num(c); });
        if (d.rows && !d.cols.empty() && d.naxis[0] > 0 && d.heap.empty()) for (long long k : {-1LL, 1LL, -(long long)(1 + r.below(d.naxis[0])), (long long)(1 + r.below(9))}) { // the fields fill the row
            long long row = (long long)d.naxis[0] + k; if (row <= 0) continue; S b = with_card(f, d, "NAXIS1", row); if (b.empty()) continue; fg::dump(p, b); m.note("binary row of another width"); m.check("binary/row-of-another-width-reported", throws([&] { io::fits::open(p); }), k < 0 ? "narrower" : "wider", [&] { return "NAXIS1 = " + fg::num(row) + ", fields " + fg::num(d.naxis[0]); }); }
        m.check("binary/unknown-column-reported", throws([&] { t.get_column<std::int32_t>("no such column"); }) && throws([&] { t.get_column_metadata("no such column"); }), "unknown", [] { return S("found"); });
        for (char c = '!'; c < 127; ++c) if (!std::strchr("LXBAIJEDCMP0123456789'", c)) { S t = (r.chance(.5) ? "" : fg::num(r.range(1, 20))) + c; std::size_t w = 0; bool th = throws([&] { w = io::binary_table::column_size(t) / io::binary_table::element_count(t); }); m.check("binary/unknown-format-reported", th || (c == 'K' && w == 8) || (c == 'Q' && w == 16), S(1, c), [&] { return t; }); } // K and Q are formats of later editions of the standard
        // a table built by hand from header and data
        io::binary_table u(t.get_header(), d.data + d.heap); m.check("binary/constructed-from-parts", u.get_data() == t.get_data(), fg::shape(d), [&] { return fg::shape(d); });
        if (d.rows && d.data.size() > 1) { m.check("binary/short-data-reported", throws([&] { io::binary_table v(t.get_header(), d.data.substr(0, 1 + r.below(d.data.size() - 1))); }), fg::shape(d), [&] { return S("accepted"); }); }
    }
}
// one table object that is given other tables: nothing of the earlier ones may show
template <class T, class Read> void reassigned(Mon& m, Rng& r, fg::kind_t kind, const S& what, Read read) {
    fg::opts o; o.common = true; std::vector<hdu> ds; std::vector<S> heads, whole; std::vector<T> ts; file f; f.hdus.push_back(fg::make_primary(r, o)); int n = (int)r.range(2, 4);
    for (int i = 0; i < n; ++i) { f = file(); f.hdus.push_back(fg::make_primary(r, o)); f.hdus.push_back(kind == fg::BINARY ? fg::make_binary(r, o) : fg::make_ascii(r, o)); fg::assemble(r, f); S p = path(m, "r.fits"); fg::dump(p, f.bytes); m.note("reassigned " + what); reader_t a = io::fits::open(p); ts.push_back(io::fits::convert_to<T>(a[1])); ds.push_back(f.hdus[1]); heads.push_back(f.bytes.substr(0, f.hdus[1].header_loc)); whole.push_back(f.bytes.substr(f.hdus[1].header_loc)); }
    T t; if (r.chance(.5)) t = ts[0]; else { T u(ts[0]); t = u; } std::size_t at = 0; S how = "first";
    for (int step = 0; step < 5; ++step) {
        for (std::size_t c = 0; c < ds[at].cols.size(); ++c) if (r.chance(.7)) { check_metadata(m, t, ds[at], c, what.c_str()); read(t, ds[at], c); }
        bool present[9] = {}; for (auto& c : ds[at].cols) if (c.ttype.size() == 2 && c.ttype[0] == 'N') present[c.ttype[1] - '0'] = true; for (int k = 0; k < 9; ++k) if (!present[k]) m.check(what + "/columns-of-an-earlier-table-gone", throws([&] { t.get_column_metadata("N" + fg::num(k)); }), how, [&] { return how; });
        if (r.chance(.4)) { S q = path(m, "rw.fits"); { io::fits_stream w; w.create_file(q); t.write_to(w); w.close(); } S got = fg::slurp(q); m.note(what + " written " + how); if (kind == fg::BINARY) m.check(what + "/written-after-assignment", got == whole[at], how + (ds[at].heap.empty() ? "" : ",heap"), [&] { return how + " " + exp_got(whole[at].size(), got.size()); });
            else m.check(what + "/characters-between-fields-after-assignment", got.size() == whole[at].size() && fg::outside_difference(ds[at], got.substr(ds[at].data_loc - ds[at].header_loc)) == S::npos, how, [&] { return how; });
            fg::dump(q, heads[at] + got); reader_t b = io::fits::open(q); auto& u = io::fits::convert_to<T>(b[1]); for (std::size_t c = 0; c < ds[at].cols.size(); ++c) { check_metadata(m, u, ds[at], c, what.c_str()); read(u, ds[at], c); } }
        if (r.chance(.3)) { T e(t); m.note(what + " data set again " + how); for (auto& c : ds[at].cols) (void)e.get_column_metadata(c.ttype); auto bytes = [&] { S q = path(m, "re.fits"); { io::fits_stream w; w.create_file(q); e.write_to(w); w.close(); } return fg::slurp(q); };
            e.set_data(""); m.check(what + "/no-rows-after-empty-data", bytes().size() == ds[at].data_loc - ds[at].header_loc, how + (ds[at].heap.empty() ? "" : ",heap"), [&] { return how + " " + exp_got(ds[at].data_loc - ds[at].header_loc, bytes().size()); });
            e.set_data(ds[at].data + ds[at].heap); S got = bytes(); m.check(what + "/data-set-again", kind == fg::BINARY ? got == whole[at] : got.size() == whole[at].size() && fg::outside_difference(ds[at], got.substr(ds[at].data_loc - ds[at].header_loc)) == S::npos, how, [&] { return how; }); for (std::size_t c = 0; c < ds[at].cols.size(); ++c) { check_metadata(m, e, ds[at], c, what.c_str()); read(e, ds[at], c); } }
        std::size_t to = r.below(ds.size()); switch (r.below(4)) { case 0: t = ts[to]; how = "assigned"; break; case 1: { T u(ts[to]); t = u; how = "copy assigned"; break; } case 2: { T u(ts[to]); t = std::move(u); how = "moved"; break; } default: t = T(ts[to].get_header(), ds[to].data + ds[to].heap); how = "constructed"; } at = to; m.note(what + " " + how);
    }
}
// ---------------- P08 ----------------
static double txt(const S& s) { S t = fg::trim(s); for (auto& c : t) if (c == 'D') c = 'E'; return std::strtod(t.c_str(), 0); }
template <class T> void ascii_col(Mon& m, io::ascii_table& t, const hdu& d, std::size_t c, const S& cov, std::function<T(const S&)> want) {
    auto& v = t.get_column<T>(d.cols[c].ttype); m.check("ascii/row-count", v.get_row_count() == d.rows, cov, [&] { return exp_got(d.rows, v.get_row_count()); });
    for (int pass = 0; pass < 2; ++pass) for (std::size_t y = 0; y < d.rows; ++y) { T got = v[(int)y], w = want(d.cell(y, c)); m.check("ascii/cell", got == w, cov + (pass ? ",again" : ""), [&] { return cov + " row " + fg::num(y) + " text '" + d.cell(y, c) + "' " + exp_got(w, got); }); }
    std::size_t n = 0; for (auto x : v) { T got = x; m.check("ascii/iteration", n < d.rows && got == want(d.cell(n, c)), cov, [&] { return cov + " row " + fg::num(n); }); if (++n > d.rows) break; }
    m.check("ascii/iteration-complete", n == d.rows, cov, [&] { return exp_got(d.rows, n); });
}
static void read_ascii_column(Mon& m, io::ascii_table& t, const hdu& d, std::size_t c, const S& cov, bool single) {
    const fg::col& k = d.cols[c];
    if (k.type == 'A') ascii_col<S>(m, t, d, c, cov, [](const S& s) { return fg::trim(s); });
    else if (k.type == 'I') ascii_col<long long>(m, t, d, c, cov, [](const S& s) { return std::atoll(fg::trim(s).c_str()); });
    else if (single) ascii_col<float>(m, t, d, c, cov, [](const S& s) { S t = fg::trim(s); for (auto& c : t) if (c == 'D') c = 'E'; return std::strtof(t.c_str(), 0); });
    else ascii_col<double>(m, t, d, c, cov, [](const S& s) { return txt(s); });
}
static void ascii(Mon& m, Rng& r, std::uint64_t index) {
    fg::opts o; o.force_first = fg::ASCII; o.max_ext = 2; if (index == 7) { o.columns = 999; o.max_ext = 0; } // as many columns as the standard allows
    file f = fg::make_file(r, o); S p = path(m, "a.fits"); fg::dump(p, f.bytes); m.note("ascii " + fg::shape(f)); reader_t a = io::fits::open(p);
    for (std::size_t i = 1; i < f.hdus.size(); ++i) { const hdu& d = f.hdus[i]; if (d.kind != fg::ASCII) continue; auto& t = io::fits::convert_to<io::ascii_table>(a[(int)i]);
        if (!m.check("ascii/rows", t.get_data().size() == d.rows, fg::shape(d), [&] { return exp_got(d.rows, t.get_data().size()); })) continue;
        for (std::size_t y = 0; y < d.rows; ++y) for (std::size_t c = 0; c < d.cols.size(); ++c) m.check("ascii/raw-cell", t.get_data()[y][c] == fg::trim(d.cell(y, c)), S(1, d.cols[c].type), [&] { return exp_got(d.cell(y, c), t.get_data()[y][c]); });
        bool ordered = true; for (std::size_t c = 1; c < d.cols.size(); ++c) if (d.cols[c].offset < d.cols[c - 1].offset) ordered = false;
        for (std::size_t c = 0; c < d.cols.size(); ++c) { const fg::col& k = d.cols[c]; if (k.ttype.empty()) continue; S cov = S(1, k.type) + ",w" + fg::num(k.width) + (ordered ? "" : ",unordered"); check_metadata(m, t, d, c, "ascii");
            m.check("ascii/format", io::ascii_table::column_size(k.tform) == k.width && io::ascii_table::get_type(k.tform) == k.type, cov, [&] { return k.tform; });
            read_ascii_column(m, t, d, c, cov, k.type == 'E' || (k.type == 'F' && r.chance(.5))); }
        if (d.rows && !d.cols.empty()) { // a field must lie inside the row: up to its last character, and not a character more
            std::size_t c = r.below(d.cols.size()); const fg::col& k = d.cols[c]; std::size_t row = d.naxis[0], last = row - k.width + 1, past[] = {0, last + 1, last + 1 + r.below(5), last + r.below(row + 10) + 1, row + 1}; S key = "TBCOL" + fg::num(c + 1);
            S b = with_card(f, d, key, (long long)last); if (!b.empty()) { fg::dump(p, b); m.note("ascii field at the end of the row"); reader_t z = io::fits::open(p); auto& u = io::fits::convert_to<io::ascii_table>(z[(int)i]); bool ok = u.get_data().size() == d.rows; for (std::size_t y = 0; ok && y < d.rows; ++y) ok = u.get_data()[y][c] == fg::trim(d.data.substr(y * row + last - 1, k.width)); m.check("ascii/field-at-the-end-of-the-row", ok, S(1, k.type), [&] { return key + " = " + fg::num(last); }); }
            for (std::size_t at : past) { b = with_card(f, d, key, (long long)at); if (b.empty()) continue; fg::dump(p, b); m.note("ascii field outside the row"); m.check("ascii/field-outside-the-row-reported", throws([&] { io::fits::open(p); }), at == 0 ? S("zero") : at == last + 1 ? S("by one") : S("by more"), [&] { return key + " = " + fg::num(at) + ", width " + fg::num(k.width) + ", row " + fg::num(row); }); } }
        m.check("ascii/unknown-column-reported", throws([&] { t.get_column<S>("no such column"); }) && throws([&] { t.get_column_metadata("no such column"); }), "unknown", [] { return S("found"); });
        if (d.rows && d.data.size() > 1) m.check("ascii/short-data-reported", throws([&] { io::ascii_table v(t.get_header(), d.data.substr(0, 1 + r.below(d.data.size() - 1))); }), fg::shape(d), [&] { return S("accepted"); });
    }
}
// tables beyond the sizes that fit in 8 and 16 bits: rows, columns, elements of a cell
static void vast(Mon& m, Rng& r, std::uint64_t i, const S& prop) {
    fg::opts o; o.names = true; bool bin = prop == "P06" || (prop != "P08" && i % 2); int what = (int)(i / (prop == "P06" || prop == "P08" ? 1 : 2) % (bin ? 3 : 2)); if (what == 0) o.tall = true; else if (what == 1) o.columns = r.chance(.3) ? 999 : (int)r.range(256, 999); else o.elements = 65536 + r.below(9000);
    file f; fg::opts small; f.hdus.push_back(fg::make_primary(r, small)); f.hdus.push_back(bin ? fg::make_binary(r, o) : fg::make_ascii(r, o)); f.hdus.push_back(bin ? fg::make_ascii(r, small) : fg::make_binary(r, small)); fg::assemble(r, f); S p = path(m, "v.fits"), tag = what == 0 ? "tall" : what == 1 ? "wide" : "long"; fg::dump(p, f.bytes); m.note("vast " + tag); const hdu& d = f.hdus[1];
    if (prop == "P05") { reader_t a = io::fits::open(p); S q = path(m, "vw.fits"); a.write_to(q); compare_written(m, fg::slurp(q), f, tag); return; }
    if (prop == "P04") { for (bool entire : {true, false}) { reader_t a = io::fits::open(p, entire ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers); check_reader(m, a, f, p, entire, tag, true); } return; }
    reader_t a = io::fits::open(p);
    if (bin) { auto& t = io::fits::convert_to<io::binary_table>(a[1]); if (m.check("binary/rows", t.get_data().size() == d.rows, tag, [&] { return exp_got(d.rows, t.get_data().size()); })) for (std::size_t c = 0; c < d.cols.size(); ++c) { check_metadata(m, t, d, c, "binary"); read_binary_column(m, t, d, c); } }
    else { auto& t = io::fits::convert_to<io::ascii_table>(a[1]); if (m.check("ascii/rows", t.get_data().size() == d.rows, tag, [&] { return exp_got(d.rows, t.get_data().size()); })) for (std::size_t c = 0; c < d.cols.size(); ++c) { check_metadata(m, t, d, c, "ascii"); read_ascii_column(m, t, d, c, S(1, d.cols[c].type) + "," + tag, d.cols[c].type == 'E'); } }
}
// ---------------- P10 ----------------
template <io::bitpix B, class T, class H> void image_of(Mon& m, Rng& r, H& h, const hdu& d, const S& what) {
    S cov = what + ",bp" + fg::num(d.bitpix) + ",dim" + fg::num(d.naxis.size()) + (d.data.empty() ? ",empty" : d.data.size() == sizeof(T) ? ",one" : d.data.size() / sizeof(T) % 2 ? ",odd" : ",even");
    auto im = h.template get_data<B>(); std::size_t n = d.data.size() / sizeof(T); std::vector<T> px; for (std::size_t i = 0; i < n; ++i) px.push_back(fg::be_as<T>(d.data, i * sizeof(T)));
    m.check("image/size", im.size() == n, cov, [&] { return exp_got(n, im.size()); });
    m.check("image/bytes", im.write_image() == d.data, cov, [&] { return cov; });
    if (n) { std::size_t w = d.naxis[0], hh = d.naxis.size() > 1 ? d.naxis[1] : 1; bool all = true; std::size_t bx = 0, by = 0; for (std::size_t y = 0; y < hh; ++y) for (std::size_t x = 0; x < w; ++x) if (T v = im(x, y); std::memcmp(&v, &px[y * w + x], sizeof v)) { all = false; bx = x; by = y; }
        m.check("image/pixel-by-position", all, cov + (w == hh ? ",square" : w < hh ? ",tall" : ",wide"), [&] { return cov + " at (" + fg::num(bx) + "," + fg::num(by) + ")"; }); }
    bool finite = true; for (T v : px) if (!std::isfinite((double)v)) finite = false; if (!finite) { m.note("image with special values"); bool same = true; std::size_t w = d.naxis[0]; for (std::size_t i = 0; i < n; ++i) { T v = d.naxis.size() > 1 && i >= w * d.naxis[1] ? px[i] : im(i % w, i / w); if (std::memcmp(&v, &px[i], sizeof v)) same = false; } m.check("image/special-values", same, cov, [&] { return cov; }); return; } // statistics of infinities and NaN are not specified
    if (!n) { m.check("image/statistics-of-nothing", im.mean() == 0 && im.std_dev() == 0 && im.max() == T() && im.min() == T() && im.median() == T(), cov, [&] { return cov; }); return; }
    std::vector<T> s = px; std::sort(s.begin(), s.end());
    m.check("image/max", im.max() == s.back(), cov, [&] { return exp_got(+s.back(), +im.max()); }); m.check("image/min", im.min() == s.front(), cov, [&] { return exp_got(+s.front(), +im.min()); });
    m.check("image/median", im.median() == s[n / 2], cov, [&] { return cov + exp_got(+s[n / 2], +im.median()); });
    // reference statistics in extended precision; pixels so large that doubles overflow are left out
    long double big = 0, sum = 0; for (T v : px) { big = std::max<long double>(big, std::fabs((long double)v)); sum += (long double)v; } long double mean = sum / n, ss = 0; for (T v : px) ss += ((long double)v - mean) * ((long double)v - mean);
    if (big < 1e150L) { double tol = (double)(1e-12L * (big + 1e-300L) * std::sqrt((long double)n)); m.check("image/mean", std::fabs(im.mean() - (double)mean) <= tol, cov, [&] { return exp_got((double)mean, im.mean()); });
        double sd = n > 1 ? (double)std::sqrt(ss / (n - 1)) : 0; m.check("image/standard-deviation", std::fabs(im.std_dev() - sd) <= 1e-9 * sd + (double)((long double)n * 1e-15L * big) + 1e-150, cov, [&] { return cov + " " + exp_got(sd, im.std_dev()); }); }
    m.check("image/statistics-leave-the-image-alone", im.size() == n && im.write_image() == d.data && im.median() == s[n / 2] && im.max() == s.back(), cov, [&] { return cov; });
    if (n < 100000) { // the same object given other pixels, and then none
        auto o = im; std::size_t w2 = d.naxis.size() > 1 ? d.naxis[1] : n, k = w2 ? n / w2 : 0; if (r.chance(.5)) { w2 = n; k = 1; } S back; for (std::size_t i = n; i-- > 0;) back += d.data.substr(i * sizeof(T), sizeof(T)); back.resize(w2 * k * sizeof(T)); o.read_image(back, w2, k); bool ok = o.size() == w2 * k && o.write_image() == back; for (std::size_t y = 0; ok && y < k; ++y) for (std::size_t x = 0; ok && x < w2; ++x) { T v = o(x, y); ok = std::memcmp(&v, &px[n - 1 - (y * w2 + x)], sizeof v) == 0; }
        m.check("image/read-again", ok, cov + (k == 1 ? ",line" : ""), [&] { return cov + " read again as " + fg::num(w2) + " x " + fg::num(k); });
        o.read_image("", 0, 1); m.check("image/read-again-empty", o.size() == 0 && o.write_image().empty() && o.max() == T() && o.mean() == 0, cov, [&] { return cov + ": still " + fg::num(o.size()) + " pixels"; }); m.check("image/copies-apart", im.write_image() == d.data, cov, [&] { return cov; }); }
    m.check("image/other-pixel-type-reported", throws([&] { h.template get_data<B == io::bitpix::B16 ? io::bitpix::B32 : io::bitpix::B16>(); }), cov, [&] { return cov; });
}
template <class H> void image_any(Mon& m, Rng& r, H& h, const hdu& d, const S& w) {
    switch (d.bitpix) { case 8: image_of<io::bitpix::B8, std::uint8_t>(m, r, h, d, w); break; case 16: image_of<io::bitpix::B16, std::int16_t>(m, r, h, d, w); break; case 32: image_of<io::bitpix::B32, std::int32_t>(m, r, h, d, w); break; case -32: image_of<io::bitpix::_B32, float>(m, r, h, d, w); break; default: image_of<io::bitpix::_B64, double>(m, r, h, d, w); }
}
// pixels of one sign, close together around a base that is large against their differences
static void near_constant(Rng& r, hdu& h) {
    int w = fg::bytes_of(h.bitpix); bool neg = r.chance(.5); long long base = w == 1 ? 100 : w == 2 ? 30000 : 2000000000LL - (long long)r.below(1000000000); if (h.bitpix == -32) base = 8000000; if (h.bitpix == -64) base *= 1000; if (neg && w > 1) base = -base; unsigned spread = r.chance(.2) ? 1 : 2 + r.below(5);
    for (std::size_t i = 0; i * w < h.data.size(); ++i) { long long v = base + (long long)r.below(spread); std::uint64_t b = (std::uint64_t)v; if (h.bitpix == -32) { float q = (float)v; std::uint32_t u; std::memcpy(&u, &q, 4); b = u; } if (h.bitpix == -64) { double q = (double)v; std::memcpy(&b, &q, 8); } for (int k = 0; k < w; ++k) h.data[i * w + k] = (char)(b >> (8 * (w - 1 - k))); }
}
static void images(Mon& m, Rng& r, std::uint64_t index) {
    fg::opts o; o.big = true; o.foreign = false; file f; f.hdus.push_back(fg::make_primary(r, o)); f.hdus.push_back(fg::make_image_ext(r, o)); if (r.chance(.5)) for (auto& h : f.hdus) if (!h.naxis.empty() && h.bitpix < 0) { /* moderate values, so that statistics are meaningful */ int w = fg::bytes_of(h.bitpix); for (std::size_t i = 0; i * w < h.data.size(); ++i) { double v = r.real(-1000, 1000); if (w == 4) { float q = (float)v; std::uint32_t b; std::memcpy(&b, &q, 4); for (int k = 0; k < 4; ++k) h.data[i * 4 + k] = (char)(b >> (24 - 8 * k)); } else { std::uint64_t b; std::memcpy(&b, &v, 8); for (int k = 0; k < 8; ++k) h.data[i * 8 + k] = (char)(b >> (56 - 8 * k)); } } }
    if (index % 100 == 7) { hdu& h = f.hdus[r.below(2)]; bool ext = &h == &f.hdus[1]; h = hdu(); h.kind = ext ? fg::IMAGE : fg::PRIMARY; static const int bp[] = {8, 16, 32, -32, -64}; h.bitpix = bp[r.below(5)]; std::size_t big = 65536 + r.below(5000); switch (r.below(4)) { case 0: h.naxis = {1, big}; break; case 1: h.naxis = {big}; break; case 2: h.naxis = {big, 1}; break; default: h.naxis = {2, big}; } std::size_t n = 1; for (auto a : h.naxis) n *= a; h.data = fg::random_bytes(r, n * fg::bytes_of(h.bitpix)); if (h.bitpix < 0) for (std::size_t i = 0; i < n; ++i) h.data[i * fg::bytes_of(h.bitpix)] &= (char)0xbf; h.simple = true; h.has_extend = false; h.extend = false; // beyond 65535 lines or pixels in a line
        h.cards.push_back(ext ? fg::card("XTENSION", "'IMAGE   '") : fg::card("SIMPLE", "T")); fg::std_cards(h); if (ext) { h.cards.push_back(fg::card("PCOUNT", "0")); h.cards.push_back(fg::card("GCOUNT", "1")); } fg::finish_header(r, h); }
    if (r.chance(.3)) for (auto& h : f.hdus) near_constant(r, h);
    if (r.chance(.1)) for (auto& h : f.hdus) if (h.bitpix < 0) { int w = fg::bytes_of(h.bitpix); for (std::size_t i = 0; i * w < h.data.size(); ++i) if (r.chance(.3)) { std::uint64_t inf = w == 4 ? 0x7f800000ull : 0x7ff0000000000000ull, b = inf; if (r.chance(.7)) b |= w == 4 ? 0x400000ull | r.below(0x400000) : 0x8000000000000ull | r.below(1ull << 40); if (r.chance(.5)) b |= w == 4 ? 0x80000000ull : 1ull << 63; if (r.chance(.2)) b = w == 4 ? 0x80000000ull : 1ull << 63; for (int k = 0; k < w; ++k) h.data[i * w + k] = (char)(b >> (8 * (w - 1 - k))); } }
    fg::assemble(r, f); S p = path(m, "i.fits"); fg::dump(p, f.bytes); m.note("image " + fg::shape(f)); reader_t a = io::fits::open(p); auto& pr = io::fits::convert_to<io::primary_hdu>(a[0]); image_any(m, r, pr, f.hdus[0], "primary");
    io::fits_stream s; s.set_file(p); s.set_reading_pos(f.hdus[1].header_loc); header_t h; h.read_header(s); io::image_extension e(h, f.hdus[1].data); image_any(m, r, e, f.hdus[1], "extension");
    S q = path(m, "iw.fits"); io::fits_stream w; w.create_file(q); e.write_to(w); w.close(); S got = fg::slurp(q); const hdu& d = f.hdus[1]; S want = f.bytes.substr(d.header_loc); m.check("image/extension-written-as-read", got == want, fg::shape(d), [&] { return exp_got(want.size(), got.size()); });
}

int main(int argc, char** argv) {
    Mon m(argc, argv);
    for (S v : {"P04", "P05", "P06", "P08"}) if (m.wants(v)) m.run("vast", v == "P08" ? 4 : v == "P06" ? 8 : 20, [&](Rng& r, std::uint64_t i) { vast(m, r, i + mix64(m.seed) % 60, v); });
    if (m.wants("P05")) { m.run("reassigned", 200, [&](Rng& r, std::uint64_t i) { if (i % 2) reassigned<io::binary_table>(m, r, fg::BINARY, "binary", [&](io::binary_table&, const hdu&, std::size_t) {}); else reassigned<io::ascii_table>(m, r, fg::ASCII, "ascii", [&](io::ascii_table&, const hdu&, std::size_t) {}); }); }
    if (m.wants("P03")) m.run("headers", 1500, [&](Rng& r, std::uint64_t i) { headers(m, r, i); });
    if (m.wants("P04")) { m.run("structure", 1500, [&](Rng& r, std::uint64_t) { structure(m, r); }); m.run("large", 8, [&](Rng& r, std::uint64_t) { large(m, r); }); m.run("large-heap", 4, [&](Rng& r, std::uint64_t) { large_heap(m, r); }); if (m.only_group.empty()) p04_findings(m); }
    if (m.wants("P05")) { m.run("writing", 1500, [&](Rng& r, std::uint64_t) { writing(m, r); }); if (m.only_group.empty()) p05_findings(m); }
    if (m.wants("P06")) m.run("binary", 1500, [&](Rng& r, std::uint64_t i) { if (i % 8 == 5) reassigned<io::binary_table>(m, r, fg::BINARY, "binary", [&](io::binary_table& t, const hdu& d, std::size_t c) { read_binary_column(m, t, d, c); }); else binary(m, r, i); });
    if (m.wants("P08")) m.run("ascii", 1500, [&](Rng& r, std::uint64_t i) { if (i % 8 == 5) reassigned<io::ascii_table>(m, r, fg::ASCII, "ascii", [&](io::ascii_table& t, const hdu& d, std::size_t c) { read_ascii_column(m, t, d, c, S(1, d.cols[c].type) + ",reassigned", d.cols[c].type == 'E'); }); else ascii(m, r, i); });
    if (m.wants("P10")) m.run("images", 2500, [&](Rng& r, std::uint64_t i) { images(m, r, i); });
    return m.finish();
}
