// Independent model of FITS files: generates files together with what a correct reader has to find in them,
// and parses files back without using the library (used as oracle for written files).
#ifndef VERIF_FITSGEN_HPP
#define VERIF_FITSGEN_HPP
#include "mon.hpp"
#include <complex>
#include <limits>

namespace fg {
typedef std::string S;
inline S trim(const S& s) { // white space as in C isspace
    const char* ws = " \t\n\v\f\r"; std::size_t a = s.find_first_not_of(ws), b = s.find_last_not_of(ws);
    return a == S::npos ? "" : s.substr(a, b - a + 1);
}
inline S in_quotes(const S& s) { S o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
inline S card(const S& key, const S& value, const S& comment = "") {
    S c = (key + "        ").substr(0, 8) + "= " + (value[0] == '\'' || value.size() >= 20 ? value : S(20 - value.size(), ' ') + value);
    if (!comment.empty()) c += " / " + comment;
    c.resize(80, ' '); return c;
}
inline S plain_card(const S& key, const S& text) { S c = (key + "        ").substr(0, 8) + " " + text; c.resize(80, ' '); return c; }
inline S num(long long v) { return std::to_string(v); }
inline S num6(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

struct kv { S key; char type; long long i = 0; double d = 0; bool b = false; S s; };
struct col {
    char type = 'J'; std::size_t repeat = 1, width = 0, offset = 0; // offset: bytes from row start
    S tform, ttype, tunit, tdisp, tdim; bool has_scal = false, has_zero = false; double tscal = 1, tzero = 0; std::size_t tbcol = 0;
};
enum kind_t { PRIMARY, ASCII, BINARY, IMAGE };
struct hdu {
    kind_t kind = PRIMARY; int bitpix = 8; std::vector<std::size_t> naxis; std::vector<S> cards; // including END
    std::vector<kv> keys; S extname; bool has_extname = false, extend = true, has_extend = true;
    std::vector<col> cols; std::size_t rows = 0; S data, heap; // data without padding and heap
    std::size_t header_loc = 0, data_loc = 0; bool simple = true;
    S xname; S name() const { if (!xname.empty()) return xname; return kind == PRIMARY ? "primary_hdu" : kind == ASCII ? "TABLE" : kind == BINARY ? "BINTABLE" : "IMAGE"; }
    S cell(std::size_t r, std::size_t c) const { return data.substr(r * naxis[0] + cols[c].offset, cols[c].width); }
};
// the first character outside the fields of a table in which the given rows differ from its own
inline std::size_t outside_difference(const hdu& d, const S& rows) { if (d.data.empty()) return S::npos; S in(d.naxis[0], '\0'); for (auto& c : d.cols) in.replace(c.offset, c.width, S(c.width, '\1')); for (std::size_t k = 0; k < d.data.size() && k < rows.size(); ++k) if (!in[k % in.size()] && rows[k] != d.data[k]) return k; return S::npos; }
struct file { std::vector<hdu> hdus; S bytes; };

inline int bytes_of(int bitpix) { return (bitpix < 0 ? -bitpix : bitpix) / 8; }
inline std::size_t type_bytes(char t) { switch (t) { case 'L': case 'B': case 'A': return 1; case 'I': return 2; case 'J': case 'E': return 4; case 'D': case 'C': case 'P': return 8; case 'M': return 16; } return 0; }

struct opts { bool allow_image = true, distinct = false, dup = false; int max_ext = 4; bool big = false; int force_first = -1; bool names = false; int columns = 0; bool foreign = true; bool common = false; /* column names from one pool, the same type under the same name */ bool tall = false; /* more than 65535 rows */ std::size_t elements = 0; /* of the first column */ };

inline S word(Rng& r, int n, const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ") { S s; std::size_t l = std::strlen(al); for (int i = 0; i < n; ++i) s += al[r.below(l)]; return s; }

inline void random_keys(Rng& r, hdu& h, std::set<S>& used, int n) {
    for (int i = 0; i < n; ++i) {
        kv k; k.key = word(r, 1) + word(r, (int)r.range(0, 7), "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_");
        // names that only begin like one with a meaning
        static const std::vector<S> lookalike = {"ENDTIME", "END-OBS", "ENDX", "ENDING", "NAXISA", "NAXIS_1", "BITPIXEL", "SIMPLER", "EXTENDED", "EXTENDX", "XTENSIO", "PCOUNTER", "GCOUNT2", "TFIELDSX", "EXTNAMEX", "EXTNAM", "COMMENTS", "HISTORYX", "TFORMAT", "TTYPE", "TBCOL", "TUNITS", "TSCALE", "TZERO", "TDISPLAY", "NAXIS999", "SIMPL", "E", "EN", "COMMEN"};
        bool look = r.chance(.2); if (look) k.key = r.pick(lookalike);
        // stay clear of keywords with a meaning for the reader
        static const char* reserved[] = {"NAXIS", "BITPIX", "TFORM", "TTYPE", "TBCOL", "TUNIT", "TSCAL", "TZERO", "TDISP", "TDIM", "END", "SIMPLE", "EXTEND", "XTENSION", "PCOUNT", "GCOUNT", "TFIELDS", "EXTNAME"};
        bool bad = used.count(k.key) > 0; for (auto x : reserved) if (!look && k.key.compare(0, std::strlen(x), x) == 0) bad = true;
        if (bad) continue;
        used.insert(k.key); k.type = "idbsl"[r.below(5)];
        S v;
        if (k.type == 'i') { k.i = r.range(-1000000, 1000000); if (r.chance(.1)) k.i = r.chance(.5) ? 2147483647LL : -2147483647LL - 1; v = num(k.i); }
        else if (k.type == 'd') { k.d = std::ldexp(r.real(-1, 1), (int)r.range(-60, 60)); char b[40]; std::snprintf(b, 40, r.chance(.5) ? "%.17g" : "%.17E", k.d); v = b; if (r.chance(.2)) { std::size_t e = v.find('E'); if (e != S::npos) v[e] = 'D'; } }
        else if (k.type == 'l') { k.i = (long long)(r.u64() >> r.below(50)) * (r.chance(.5) ? 1 : -1); if (k.i == 0) k.i = 1; v = num(k.i); }
        else if (k.type == 'b') { k.b = r.chance(.5); v = k.b ? "T" : "F"; }
        else { k.s = word(r, (int)r.range(0, 30), "abcXYZ019 /'=.-:"); k.s = trim(k.s); if (!k.s.empty() && r.chance(.2)) k.s = S(r.range(1, 4), ' ') + k.s; v = in_quotes(k.s); if (r.chance(.2)) v.insert(v.size() - 1, (std::size_t)r.range(1, 8), ' '); /* leading blanks count, trailing ones do not */ }
        h.cards.push_back(fg::card(k.key, v, r.chance(.5) ? "note / with 'marks'" : "")); h.keys.push_back(k);
    }
}
inline void filler(Rng& r, hdu& h) {
    int c = (int)r.below(4);
    if (c == 0) h.cards.push_back(plain_card("COMMENT", "some = text / here")); else if (c == 1) h.cards.push_back(plain_card("HISTORY", "step " + num((long long)r.below(1000))));
    else if (c == 2) { S t = r.chance(.5) ? S(80, ' ') : r.chance(.5) ? S("HISTORY without a gap, as other programs write it") : "COMMENT " + S(72, '-'); t.resize(80, ' '); h.cards.push_back(t); } else h.cards.push_back(plain_card("", "blank keyword"));
}
inline void finish_header(Rng& r, hdu& h) {
    std::set<S> used; std::size_t first = h.cards.size(); random_keys(r, h, used, (int)r.below(8));
    if (r.chance(.3)) { // keywords may stand anywhere after the mandatory ones
        std::size_t fixed = 3 + h.naxis.size() + (h.kind == PRIMARY ? 0 : h.kind == IMAGE ? 2 : 3);
        for (std::size_t i = h.cards.size(); i > fixed + 1; --i) std::swap(h.cards[i - 1], h.cards[fixed + r.below(i - fixed)]); (void)first; }
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i) filler(r, h);
    double p = r.unit();
    std::size_t want = 0; // cards including END
    if (p < .25) want = 36; else if (p < .35) want = 72; else if (p < .45) want = 37; else if (p < .5) want = 35;
    while (want && h.cards.size() + 1 < want) filler(r, h);
    S end = "END"; end.resize(80, ' '); h.cards.push_back(end);
}
inline S random_bytes(Rng& r, std::size_t n) {
    S s(n, '\0'); int mode = (int)r.below(4); static const unsigned char special[] = {0x20, 0x09, 0x0a, 0x0d, 0x0b, 0x0c, 0x00, 0xff, 0x7f, 0x80, 0x01, '\'', '/'};
    for (auto& c : s) { if (mode == 0) c = (char)r.u64(); else if (mode == 1) c = (char)special[r.below(13)]; else if (mode == 2) c = (char)(r.chance(.5) ? special[r.below(6)] : r.u64()); else c = (char)r.range(32, 126); }
    return s;
}
inline std::size_t pick_len(Rng& r, bool big) { // sizes around the record length matter
    (void)big; return 0;
}

inline void make_image(Rng& r, hdu& h, bool big) {
    static const int bp[] = {8, 16, 32, -32, -64}; h.bitpix = bp[r.below(5)];
    int dims = (int)r.pick(std::vector<int>{0, 1, 2, 2, 2, 3, 4}); h.naxis.clear(); std::size_t n = 1;
    for (int i = 0; i < dims; ++i) { std::size_t d = (std::size_t)r.range(1, dims > 2 ? 6 : 20); h.naxis.push_back(d); n *= d; }
    if (dims && r.chance(.05)) { h.naxis[r.below(dims)] = 0; n = 0; }
    if (dims == 2 && r.chance(.25)) { // data that exactly fills records
        std::size_t tot = 2880 / bytes_of(h.bitpix) * (std::size_t)r.range(1, 2); h.naxis = {tot / 4, 4}; n = tot; }
    if (big && dims == 2 && r.chance(.1)) { h.naxis = {(std::size_t)r.range(50, 200), (std::size_t)r.range(50, 200)}; n = h.naxis[0] * h.naxis[1]; }
    if (!dims) n = 0;
    h.data = random_bytes(r, n * bytes_of(h.bitpix));
    // no NaN and no infinity among floating point pixels: comparisons stay exact
    if (h.bitpix < 0) for (std::size_t i = 0; i < n; ++i) { std::size_t w = bytes_of(h.bitpix); unsigned char* p = (unsigned char*)&h.data[i * w]; if ((p[0] & 0x7f) == 0x7f && (p[1] & (w == 4 ? 0x80 : 0xf0)) == (w == 4 ? 0x80 : 0xf0)) p[0] = (p[0] & 0x80) | 0x40; }
}
inline void std_cards(hdu& h) {
    h.cards.push_back(card("BITPIX", num(h.bitpix), "bits")); h.cards.push_back(card("NAXIS", num((long long)h.naxis.size())));
    for (std::size_t i = 0; i < h.naxis.size(); ++i) h.cards.push_back(card("NAXIS" + num((long long)i + 1), num((long long)h.naxis[i]), i ? "" : "axis"));
}
inline hdu make_primary(Rng& r, const opts& o) {
    hdu h; h.kind = PRIMARY; make_image(r, h, o.big); h.simple = !r.chance(.06); h.cards.push_back(card("SIMPLE", h.simple ? "T" : "F", "conforms")); std_cards(h);
    h.has_extend = !r.chance(.15); h.extend = h.has_extend && r.chance(.8); if (h.has_extend) h.cards.push_back(card("EXTEND", h.extend ? "T" : "F"));
    finish_header(r, h); return h;
}
inline void ext_tail(Rng& r, hdu& h) {
    h.has_extname = !r.chance(.2); if (h.has_extname) { h.extname = word(r, (int)r.range(1, 12)); h.cards.push_back(card("EXTNAME", in_quotes(h.extname))); }
}
inline hdu make_image_ext(Rng& r, const opts& o) {
    hdu h; h.kind = IMAGE; make_image(r, h, o.big); if (o.foreign && r.chance(.2)) h.xname = r.pick(std::vector<S>{"FOREIGN", "A3DTABLE", "DUMP", "TABLE2", "BINTABLES", "TABLES", "XBINTABLE"}); h.cards.push_back(h.xname.empty() ? card("XTENSION", "'IMAGE   '") : card("XTENSION", in_quotes(h.xname))); std_cards(h);
    // conforming extensions of other kinds may have parameters and groups: BITPIX/8 * GCOUNT * (PCOUNT + elements) bytes
    std::size_t pc = 0, gc = 1; if (!h.xname.empty() && !h.naxis.empty() && r.chance(.6)) { pc = r.chance(.5) ? 0 : (std::size_t)r.range(1, 700); gc = (std::size_t)r.range(r.chance(.2) ? 0 : 1, 5); std::size_t w = bytes_of(h.bitpix), tot = gc * (pc * w + h.data.size()); if (tot < h.data.size()) h.data.resize(tot); h.heap = random_bytes(r, tot - h.data.size()); }
    h.cards.push_back(card("PCOUNT", num((long long)pc))); h.cards.push_back(card("GCOUNT", num((long long)gc))); ext_tail(r, h); finish_header(r, h); return h;
}
inline void col_cards(Rng& r, hdu& h, std::size_t i, bool binary) {
    col& c = h.cols[i]; S n = num((long long)i + 1);
    S f = c.tform; if (binary && r.chance(.3) && f.size() < 8) f.resize(8, ' ');
    h.cards.push_back(card("TFORM" + n, in_quotes(f)));
    if (!binary) h.cards.push_back(card("TBCOL" + n, num((long long)c.tbcol)));
    if (!c.ttype.empty()) h.cards.push_back(card("TTYPE" + n, in_quotes(c.ttype), "name"));
    if (r.chance(.4)) { c.tunit = word(r, (int)r.range(1, 8), "kmsadeg/"); h.cards.push_back(card("TUNIT" + n, in_quotes(c.tunit))); }
    if (r.chance(.3)) { c.has_scal = true; c.tscal = r.chance(.5) ? r.range(-999, 999) / 8.0 : std::ldexp(r.real(-1, 1), (int)r.range(-60, 60)); char b[40]; std::snprintf(b, 40, "%.17g", c.tscal); h.cards.push_back(card("TSCAL" + n, b)); }
    if (r.chance(.3)) { c.has_zero = true; c.tzero = r.chance(.5) ? (double)r.range(-100000, 100000) : r.chance(.3) ? 2147483648.0 : r.real(-1e10, 1e10); char b[40]; std::snprintf(b, 40, "%.17g", c.tzero); h.cards.push_back(card("TZERO" + n, b)); }
    if (binary && r.chance(.2)) { c.tdisp = "E12.4"; h.cards.push_back(card("TDISP" + n, in_quotes(c.tdisp))); }
    if (binary && r.chance(.2)) { c.tdim = "(" + num((long long)r.range(1, 9)) + ",2)"; h.cards.push_back(card("TDIM" + n, in_quotes(c.tdim))); }
}
inline S colname(Rng& r, std::size_t i) {
    S s = word(r, (int)r.range(1, 8), "abcdefXYZ_0189 -"); s = trim(s); if (r.chance(.15)) s = "a common beginning of many names"; return (s.empty() ? "c" : s) + "_" + num((long long)i);
}
inline hdu make_binary(Rng& r, const opts& o) {
    hdu h; h.kind = BINARY; h.bitpix = 8; int nc = (int)r.range(1, 8); std::size_t off = 0; bool any_p = false;
    if (r.chance(.1)) nc = (int)r.range(10, 40); else if (r.chance(.02)) nc = (int)r.range(100, 130); if (o.columns) nc = o.columns; if (o.tall) nc = (int)r.range(1, 3);
    std::vector<int> pool = {0, 1, 2, 3, 4, 5, 6, 7, 8}; if (o.common) { for (int i = 8; i > 0; --i) std::swap(pool[i], pool[r.below(i + 1)]); nc = (int)r.range(1, 9); }
    for (int i = 0; i < nc; ++i) {
        col c; c.type = "LXBIJAEDCMP"[r.below(11)]; c.repeat = r.chance(.4) ? 1 : (std::size_t)r.range(0, 12); if (r.chance(.05)) c.repeat = (std::size_t)r.range(20, 300); else if (r.chance(.005)) c.repeat = (std::size_t)r.range(1000, 3000);
        if (o.common) { c.type = "JEDIBALCM"[pool[i]]; c.repeat = 1; } if (o.tall || o.columns) c.repeat = c.repeat ? 1 + c.repeat % 3 : 1; if (o.elements && i == 0) c.repeat = o.elements;
        if (c.type == 'P') { c.repeat = 1; any_p = true; }
        c.width = c.type == 'X' ? (c.repeat + 7) / 8 : c.repeat * type_bytes(c.type); c.offset = off; off += c.width;
        c.tform = (c.repeat == 1 && r.chance(.5) ? S() : num((long long)c.repeat)) + c.type;
        if (c.type == 'P') c.tform += S(1, "JEBD"[r.below(4)]) + "(" + num((long long)r.range(0, 50)) + ")";
        if (o.names || r.chance(.9)) c.ttype = colname(r, i); if (o.common) c.ttype = "N" + num(pool[i]);
        h.cols.push_back(c);
    }
    if (!off) { col c; c.width = 4; c.tform = "J"; c.ttype = "only_" + num(nc); h.cols.push_back(c); off = 4; }
    if (!o.tall && r.chance(.15) && off && off < 1400) { std::size_t want = 2880 / (std::size_t)r.range(1, 4), pad = want > off ? want - off : 0; if (pad) { col c; c.type = 'B'; c.repeat = c.width = pad; c.offset = off; off += pad; c.tform = num((long long)pad) + "B"; c.ttype = "pad_" + num(nc); h.cols.push_back(c); } }
    h.rows = r.chance(.1) ? 0 : (std::size_t)r.range(1, r.chance(.01) ? 1200 : r.chance(.2) ? 60 : 6); if (2880 % (off ? off : 1) == 0 && r.chance(.4)) h.rows = 2880 / (off ? off : 1);
    if (h.rows * off > 200000) h.rows = 1 + 100000 / off; if (o.tall) h.rows = 65536 + (std::size_t)r.below(3000);
    h.naxis = {off, h.rows}; h.data = random_bytes(r, off * h.rows);
    for (auto& c : h.cols) if (c.type == 'L') for (std::size_t y = 0; y < h.rows; ++y) for (std::size_t k = 0; k < c.width; ++k) h.data[y * off + c.offset + k] = r.chance(.1) ? '\0' /* undefined */ : "TF"[r.below(2)];
    if (off && h.rows && (any_p || r.chance(.1)) && r.chance(.6)) h.heap = random_bytes(r, (std::size_t)r.range(1, r.chance(.2) ? 4000 : 100));
    h.cards.push_back(card("XTENSION", "'BINTABLE'", "binary table")); std_cards(h);
    h.cards.push_back(card("PCOUNT", num((long long)h.heap.size()))); h.cards.push_back(card("GCOUNT", "1")); h.cards.push_back(card("TFIELDS", num((long long)h.cols.size())));
    ext_tail(r, h); for (std::size_t i = 0; i < h.cols.size(); ++i) col_cards(r, h, i, true);
    finish_header(r, h); return h;
}
// text of a numeric cell and its value, fitting w characters
inline S num_text(Rng& r, char type, std::size_t w) {
    for (int t = 0; t < 20; ++t) {
        char b[64];
        if (type == 'I') { long long v = r.chance(.3) ? r.range(-999999999999999999LL, 999999999999999999LL) / (long long)std::pow(10, r.below(18)) : r.range(-9999999, 9999999) / (long long)std::pow(10, r.below(8)); std::snprintf(b, 64, "%lld", v); }
        else if (type == 'F') std::snprintf(b, 64, "%.*f", (int)r.below(5), r.real(-1000, 1000) / std::pow(10, r.below(4)));
        else std::snprintf(b, 64, "%.*E", (int)r.below(17), std::ldexp(r.real(-1, 1), (int)r.range(-60, 60)));
        S s = b; if (type == 'D' && r.chance(.5)) { auto e = s.find('E'); if (e != S::npos) s[e] = 'D'; }
        // other spellings of the same kinds of number
        bool neg = s[0] == '-'; S body = neg ? s.substr(1) : s; if (!neg && r.chance(.15)) s = "+" + s; else if (r.chance(.1)) s = (neg ? "-" : "") + S(r.range(1, 3), '0') + body; else if (type != 'I' && body.compare(0, 2, "0.") == 0 && body.size() > 2 && std::isdigit((unsigned char)body[2]) && r.chance(.3)) s = (neg ? "-" : "") + body.substr(1); else if (type == 'F' && body.find('.') == S::npos && r.chance(.3)) s += ".";
        if (s.size() <= w) return s;
    }
    return "7";
}
inline hdu make_ascii(Rng& r, const opts& o) {
    hdu h; h.kind = ASCII; h.bitpix = 8; int nc = (int)r.range(1, 7); std::size_t pos = 0; if (r.chance(.08)) nc = (int)r.range(8, 30); else if (r.chance(.02)) nc = (int)r.range(100, 130); if (o.columns) nc = o.columns; if (o.tall) nc = (int)r.range(1, 3);
    std::vector<int> pool = {0, 1, 2, 3, 4, 5, 6, 7, 8}; if (o.common) { for (int i = 8; i > 0; --i) std::swap(pool[i], pool[r.below(i + 1)]); nc = (int)r.range(1, 9); }
    for (int i = 0; i < nc; ++i) {
        col c; c.type = "AIFED"[o.common ? pool[i] % 5 : r.below(5)]; c.repeat = 1;
        c.width = c.type == 'A' ? (std::size_t)r.range(1, 20) : c.type == 'I' ? (std::size_t)r.range(2, 20) : (std::size_t)r.range(10, 25);
        if (!o.tall && r.chance(.04)) c.width = (std::size_t)r.range(90, r.chance(.1) ? 1200 : 150);
        if (r.chance(.5)) pos += (std::size_t)r.range(1, 4); // gap before the field
        c.offset = pos; c.tbcol = pos + 1; pos += c.width;
        c.tform = S(1, c.type) + num((long long)c.width) + (c.type == 'A' || c.type == 'I' ? S() : "." + num((long long)r.range(1, 6)));
        if (o.names || r.chance(.9)) c.ttype = colname(r, i); if (o.common) c.ttype = "N" + num(pool[i]); h.cols.push_back(c);
    }
    if (r.chance(.3)) pos += (std::size_t)r.range(1, 6);
    if (!o.tall && r.chance(.2)) for (std::size_t w : {2880, 1440, 720, 480, 288, 144, 96}) if (w >= pos && r.chance(.5)) { pos = w; break; }
    if (r.chance(.3)) { for (std::size_t i = h.cols.size(); i > 1; --i) std::swap(h.cols[i - 1], h.cols[r.below(i)]); } // fields need not be in order
    h.rows = r.chance(.1) ? 0 : (std::size_t)r.range(1, r.chance(.01) ? 700 : r.chance(.2) ? 40 : 6); if (2880 % pos == 0 && r.chance(.5)) h.rows = 2880 / pos; if (o.tall) h.rows = 65536 + (std::size_t)r.below(3000);
    h.naxis = {pos, h.rows}; h.data = S(pos * h.rows, ' ');
    if (r.chance(.4)) { S in(pos, '\0'); for (auto& c : h.cols) in.replace(c.offset, c.width, S(c.width, '\1')); bool rule = r.chance(.5); for (std::size_t i = 0; i < h.data.size(); ++i) if (!in[i % pos] && r.chance(.7)) h.data[i] = rule ? '|' : (char)r.range(33, 126); } // the characters between the fields may be anything
    for (std::size_t y = 0; y < h.rows; ++y) for (auto& c : h.cols) {
        S t = c.type == 'A' ? word(r, (int)r.range(0, (long long)c.width), "abcXYZ 019.-'/+") : num_text(r, c.type, c.width);
        std::size_t lead = r.chance(.5) ? c.width - t.size() : r.chance(.5) ? 0 : r.below(c.width - t.size() + 1);
        h.data.replace(y * pos + c.offset + lead, t.size(), t);
    }
    h.cards.push_back(card("XTENSION", r.chance(.5) ? "'TABLE   '" : "'TABLE'", "ascii table")); std_cards(h);
    h.cards.push_back(card("PCOUNT", "0")); h.cards.push_back(card("GCOUNT", "1")); h.cards.push_back(card("TFIELDS", num((long long)h.cols.size())));
    ext_tail(r, h); for (std::size_t i = 0; i < h.cols.size(); ++i) col_cards(r, h, i, false);
    finish_header(r, h); return h;
}
inline void assemble(Rng& r, file& f, bool junk_fill = true) {
    f.bytes.clear();
    for (auto& h : f.hdus) {
        h.header_loc = f.bytes.size(); for (auto& c : h.cards) f.bytes += c;
        while (f.bytes.size() % 2880) f.bytes += ' ';
        h.data_loc = f.bytes.size(); f.bytes += h.data + h.heap;
        char fill = h.kind == ASCII ? ' ' : '\0';
        while (f.bytes.size() % 2880) f.bytes += fill;
    }
}
inline file make_file(Rng& r, const opts& o) {
    file f; f.hdus.push_back(make_primary(r, o)); std::vector<int> kinds;
    if (o.distinct) { kinds = {ASCII, BINARY}; if (o.allow_image) kinds.push_back(IMAGE); for (std::size_t i = kinds.size(); i > 1; --i) std::swap(kinds[i - 1], kinds[r.below(i)]); kinds.resize(r.below(kinds.size() + 1)); }
    else { int n = (int)r.below(o.max_ext + 1); for (int i = 0; i < n; ++i) kinds.push_back(o.allow_image ? (int)r.range(1, 3) : (int)r.range(1, 2)); }
    if (o.force_first >= 0) kinds.insert(kinds.begin(), o.force_first);
    for (int k : kinds) f.hdus.push_back(k == ASCII ? make_ascii(r, o) : k == BINARY ? make_binary(r, o) : make_image_ext(r, o));
    assemble(r, f); return f;
}
inline S shape(const file& f) { S s; for (auto& h : f.hdus) { s += "PABI"[h.kind]; s += h.cards.size() % 36 == 0 ? "=" : ""; std::size_t d = h.data.size() + h.heap.size(); s += d == 0 ? "0" : d % 2880 == 0 ? "!" : ""; } return s; }
inline S shape(const hdu& h) { std::size_t d = h.data.size() + h.heap.size(); return S(1, "PABI"[h.kind]) + ",bp" + num(h.bitpix) + ",dim" + num((long long)h.naxis.size()) + (h.cards.size() % 36 == 0 ? ",fullhdr" : "") + (d == 0 ? ",nodata" : d % 2880 == 0 ? ",fulldata" : "") + (h.heap.empty() ? "" : ",heap"); }

inline void dump(const S& path, const S& bytes) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(bytes.data(), (std::streamsize)bytes.size()); }
inline S slurp(const S& path) { std::ifstream i(path, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// ---- independent big-endian decoding ----
inline std::uint64_t be(const S& s, std::size_t at, int n) { std::uint64_t v = 0; for (int i = 0; i < n; ++i) v = (v << 8) | (unsigned char)s[at + i]; return v; }
template <class T> T be_as(const S& s, std::size_t at);
template <> inline std::uint8_t be_as(const S& s, std::size_t at) { return (std::uint8_t)s[at]; }
template <> inline char be_as(const S& s, std::size_t at) { return s[at]; }
template <> inline bool be_as(const S& s, std::size_t at) { return s[at] == 'T'; }
template <> inline std::int16_t be_as(const S& s, std::size_t at) { return (std::int16_t)be(s, at, 2); }
template <> inline std::int32_t be_as(const S& s, std::size_t at) { return (std::int32_t)be(s, at, 4); }
template <> inline std::int64_t be_as(const S& s, std::size_t at) { return (std::int64_t)be(s, at, 8); }
template <> inline float be_as(const S& s, std::size_t at) { std::uint32_t b = (std::uint32_t)be(s, at, 4); float f; std::memcpy(&f, &b, 4); return f; }
template <> inline double be_as(const S& s, std::size_t at) { std::uint64_t b = be(s, at, 8); double f; std::memcpy(&f, &b, 8); return f; }
template <> inline std::complex<float> be_as(const S& s, std::size_t at) { return {be_as<float>(s, at), be_as<float>(s, at + 4)}; }
template <> inline std::complex<double> be_as(const S& s, std::size_t at) { return {be_as<double>(s, at), be_as<double>(s, at + 8)}; }
template <> inline std::pair<std::int32_t, std::int32_t> be_as(const S& s, std::size_t at) { return {be_as<std::int32_t>(s, at), be_as<std::int32_t>(s, at + 4)}; }
template <class T> struct width_of { static const std::size_t v = sizeof(T); };
template <class T> std::vector<T> be_vec(const S& s) { std::vector<T> v; for (std::size_t i = 0; i + width_of<T>::v <= s.size(); i += width_of<T>::v) v.push_back(be_as<T>(s, i)); return v; }

// ---- independent reader of the physical structure of a written file ----
struct raw_hdu { std::vector<S> cards; S data; std::size_t header_loc, data_loc, end; S fill; std::map<S, S> values; };
inline bool parse_structure(const S& b, std::vector<raw_hdu>& out, S& why) {
    std::size_t p = 0; if (b.size() % 2880) { why = "size " + num((long long)b.size()) + " is no multiple of 2880"; return false; }
    while (p < b.size()) {
        raw_hdu h; h.header_loc = p; bool end = false;
        while (!end) { if (p + 80 > b.size()) { why = "no END card"; return false; } S c = b.substr(p, 80); p += 80; h.cards.push_back(c); if (c.compare(0, 8, "END     ") == 0) end = true; else if (c.compare(8, 2, "= ") == 0 && !h.values.count(trim(c.substr(0, 8)))) h.values[trim(c.substr(0, 8))] = trim(c.substr(10, c[10] == '\'' ? 70 : 20)); }
        while (p % 2880) { if (b[p] != ' ') { why = "header fill is not blank"; return false; } ++p; }
        h.data_loc = p; S first = h.cards[0].substr(0, 8);
        if (out.empty() ? first != "SIMPLE  " : first != "XTENSION") { why = "HDU " + num((long long)out.size()) + " starts with " + first; return false; }
        long long n = 1, ax = std::atoll(h.values["NAXIS"].c_str()); if (!ax) n = 0; for (long long i = 1; i <= ax; ++i) n *= std::atoll(h.values["NAXIS" + num(i)].c_str());
        if (!out.empty()) n = (n + std::atoll(h.values["PCOUNT"].c_str())) * std::atoll(h.values["GCOUNT"].c_str());
        std::size_t bytes = (std::size_t)n * bytes_of(std::atoi(h.values["BITPIX"].c_str()));
        if (p + bytes > b.size()) { why = "data of HDU " + num((long long)out.size()) + " is cut off"; return false; }
        h.data = b.substr(p, bytes); p += bytes; std::size_t f = p; p = (p + 2879) / 2880 * 2880; h.fill = b.substr(f, p - f); h.end = p; out.push_back(h);
    }
    return true;
}
} // namespace fg
#endif
