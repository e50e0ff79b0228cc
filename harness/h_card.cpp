// P01: what a card is given is what it holds.   P02: a card answers the same whatever happened before.
#include "mon.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <limits>
using namespace boost::astronomy;
typedef io::card<io::card_policy> card_t;
typedef std::complex<int> ci; typedef std::complex<float> cf; typedef std::complex<double> cd; typedef std::complex<std::size_t> cz;

// ---- independent model of the text of a card (FITS standard, section 4) ----
static std::string trim(const std::string& s) {
    std::size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static std::string rtrim(const std::string& s) { std::size_t b = s.find_last_not_of(' '); return b == std::string::npos ? "" : s.substr(0, b + 1); } // leading blanks of a text count, trailing ones do not
struct parsed { bool ok = false; std::string key, value, comment; bool is_string = false; bool has_comment = false; };
static parsed parse_card(const std::string& raw) {
    parsed p; if (raw.size() != 80 || raw.compare(8, 2, "= ") != 0) return p;
    p.key = trim(raw.substr(0, 8));
    std::size_t i = 10; while (i < 80 && raw[i] == ' ') ++i;
    if (i < 80 && raw[i] == '\'') {
        p.is_string = true; ++i;
        for (;;) {
            if (i >= 80) return p; // unterminated
            if (raw[i] == '\'') { if (i + 1 < 80 && raw[i + 1] == '\'') { p.value += '\''; i += 2; continue; } ++i; break; }
            p.value += raw[i++];
        }
        while (i < 80 && raw[i] == ' ') ++i;
        if (i < 80 && raw[i] != '/') return p;
    } else {
        std::size_t e = raw.find('/', i); if (e == std::string::npos) e = 80;
        p.value = trim(raw.substr(i, e - i)); i = e;
    }
    if (i < 80) { p.has_comment = true; p.comment = raw.substr(i + 1); }
    p.ok = true; return p;
}

static std::string rand_key(Rng& r, int maxlen = 8) {
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    int n = r.chance(0.3) ? maxlen : (int)r.range(1, maxlen); std::string k;
    for (int i = 0; i < n; ++i) k += al[r.below(i ? 38 : 26)];
    if (k == "COMMENT" || k == "HISTORY" || k == "END") k[0] = 'X';
    return k;
}
static std::string rand_text(Rng& r, int len) {
    std::string s; int mode = (int)r.below(5);
    for (int i = 0; i < len; ++i) {
        if (mode == 0) s += (char)r.range(33, 126);
        else if (mode == 1) s += "ab/' "[r.below(5)];
        else if (mode == 2) s += (char)r.range(32, 126);
        else if (mode == 3) s += "'/= .T"[r.below(6)];
        else s += (char)r.range('a', 'z');
    }
    return s;
}
static std::string in_quotes(const std::string& s) { std::string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }

template <class T> struct gen;
template <> struct gen<bool> { static const char* name() { return "bool"; } static bool make(Rng& r) { return r.chance(.5); } };
template <class I> I gint(Rng& r) {
    switch (r.below(6)) {
    case 0: return std::numeric_limits<I>::max();
    case 1: return std::numeric_limits<I>::min();
    case 2: return (I)r.below(100);
    case 3: return (I)(std::numeric_limits<I>::is_signed ? -(long long)r.below(1000) : 0);
    case 4: return (I)(r.u64() >> r.below(64));
    default: return (I)r.u64();
    }
}
template <> struct gen<int> { static const char* name() { return "int"; } static int make(Rng& r) { return gint<int>(r); } };
template <> struct gen<unsigned> { static const char* name() { return "unsigned"; } static unsigned make(Rng& r) { return gint<unsigned>(r); } };
template <> struct gen<long long> { static const char* name() { return "long long"; } static long long make(Rng& r) { return gint<long long>(r); } };
template <> struct gen<std::size_t> { static const char* name() { return "size_t"; } static std::size_t make(Rng& r) { return gint<std::size_t>(r); } };
template <class F> F gflt(Rng& r) {
    switch (r.below(8)) {
    case 0: return 0; case 1: return std::numeric_limits<F>::max(); case 2: return -std::numeric_limits<F>::min();
    case 3: return (F)(r.range(-100000, 100000) / 1000.0); case 4: return (F)(1.0 / (1 + r.below(1000)));
    case 5: return std::ldexp((F)r.real(-1, 1), (int)r.range(-sizeof(F) * 12, sizeof(F) * 12));
    case 6: return (F)r.real(-360, 360);
    default: return std::ldexp((F)r.real(.5, 1), (int)r.range(std::numeric_limits<F>::min_exponent + 2, std::numeric_limits<F>::max_exponent - 1)) * (r.chance(.5) ? 1 : -1);
    }
}
template <> struct gen<float> { static const char* name() { return "float"; } static float make(Rng& r) { return gflt<float>(r); } };
template <> struct gen<double> { static const char* name() { return "double"; } static double make(Rng& r) { return gflt<double>(r); } };
template <class T> struct gen<std::complex<T>> {
    static const char* name() { static std::string n = std::string("complex ") + gen<T>::name(); return n.c_str(); }
    static std::complex<T> make(Rng& r) { T a = gen<T>::make(r), b = gen<T>::make(r); return std::complex<T>(a, b); }
};

static std::string cover_len(std::size_t v, std::size_t c) { return "vlen=" + std::to_string(v) + ",clen=" + (c == 0 ? "0" : c < 10 ? "s" : c < 40 ? "m" : "l"); }

// fixed format: numbers and logicals end in column 30 (the imaginary part in column 50), text starts in column 11
template <class T> bool fixed_format(const std::string& raw, const parsed& p, T*) { return p.value.size() > 20 || raw.substr(10, 20) == std::string(20 - p.value.size(), ' ') + p.value; }
template <class T> bool fixed_format(const std::string& raw, const parsed& p, std::complex<T>*) {
    std::size_t s = p.value.find(' '); std::string a = p.value.substr(0, s), b = s == std::string::npos ? "" : trim(p.value.substr(s)); if (a.size() > 20 || b.size() > 19) return true;
    return raw.substr(10, 40) == std::string(20 - a.size(), ' ') + a + std::string(20 - b.size(), ' ') + b;
}
template <class T> void roundtrip(Mon& m, Rng& r) {
    T v = gen<T>::make(r); std::string key = rand_key(r), comment = r.chance(.5) ? rand_text(r, (int)r.range(1, 15)) : "";
    std::string n = gen<T>::name();
    card_t c; int how = (int)r.below(3);
    if (how == 1) c.create_card(rand_key(r), gen<double>::make(r), "previous content");
    if (how == 2) { c.create_card(key, 1, "old"); c.set_value(v); comment.clear(); }
    else c.create_card(key, v, comment);
    std::string raw = c.raw_card(); m.note(n + " " + raw);
    parsed p = parse_card(raw);
    m.check("card-is-80-characters", raw.size() == 80, n, [&] { return "length " + str(raw.size()) + ": " + raw; });
    std::string cov = n + (how == 2 ? ",set_value" : "") + "," + cover_len(p.value.size(), comment.size());
    m.check("card-text-well-formed", p.ok && p.key == key && raw.substr(0, 8) == (key + "        ").substr(0, 8), cov, [&] { return raw; });
    if (!comment.empty()) m.check("comment-kept", p.has_comment && trim(p.comment) == trim(comment), cov, [&] { return raw + " comment=" + comment; });
    m.check("card-in-fixed-format", fixed_format(raw, p, (T*)0), cov, [&] { return raw; });
    m.check("keyword-read-back", c.keyword() == key && c.keyword(true) == raw.substr(0, 8), cov, [&] { return c.keyword(); });
    T got = c.template value<T>();
    m.check("value-read-back/" + n, got == v, cov, [&] { return raw + " " + exp_got(v, got); });
    card_t d(raw);
    T got2 = d.template value<T>();
    m.check("value-read-from-raw/" + n, got2 == v, cov, [&] { return raw + " " + exp_got(v, got2); });
    m.check("card-equality", d == c && d.raw_card() == raw, cov, [&] { return raw; });
    card_t e(d);
    m.check("value-of-copy", e.template value<T>() == v, cov, [&] { return raw; });
}

static void string_roundtrip(Mon& m, Rng& r) {
    std::string key = rand_key(r); int vl = (int)(r.chance(.2) ? r.below(3) : r.range(0, 66));
    std::string v = rand_text(r, vl); int room = 68 - (int)in_quotes(v).size();
    std::string comment = r.chance(.5) && room > 0 ? rand_text(r, r.chance(.3) ? room : (int)r.range(1, room)) : "";
    int how = (int)r.below(5); card_t c;
    bool fits = in_quotes(v).size() <= 70;
    std::string cov = std::string(v.find('/') != v.npos ? "slash," : "") + (v.find('\'') != v.npos ? "quote," : "") + (v.find(' ') != v.npos ? "blank," : "") +
        cover_len(v.size(), comment.size()) + ",how" + std::to_string(how);
    m.note("string card " + v);
    try {
        if (how == 0) c.create_card(key, v, comment);
        else if (how == 1) c = card_t(key, v, comment);
        else if (how == 2) c.create_card(key, v.c_str(), comment);
        else if (how == 3) { c.create_card(key, 5, "x"); c.set_value(v); comment.clear(); }
        else { c.create_card(key, 5, "x"); c.value<int>(); c.set_value(v.c_str()); comment.clear(); }
    } catch (const fits_exception&) {
        m.check("string-card-refused-only-when-too-long", !fits, cov, [&] { return "refused: " + v + " / " + comment; });
        return;
    }
    m.check("string-card-accepted-only-when-it-fits", fits, cov, [&] { return v; });
    std::string raw = c.raw_card(); parsed p = parse_card(raw);
    m.check("card-is-80-characters", raw.size() == 80, "string", [&] { return "length " + str(raw.size()) + ": " + raw; });
    m.check("card-text-well-formed", p.ok && p.is_string && raw[10] == '\'' && p.key == key && rtrim(p.value) == rtrim(v), cov, [&] { return raw + " for " + v; });
    if (!comment.empty()) m.check("comment-kept", p.has_comment && trim(p.comment) == trim(comment), cov, [&] { return raw + " comment=" + comment; });
    m.check("keyword-read-back", c.keyword() == key, cov, [&] { return c.keyword(); });
    std::string got = c.value<std::string>();
    m.check("value-read-back/string", got == rtrim(v), cov, [&] { return raw + " " + exp_got(rtrim(v), got); });
    std::string got2 = card_t(raw).value<std::string>();
    m.check("value-read-from-raw/string", got2 == rtrim(v), cov, [&] { return raw + " " + exp_got(rtrim(v), got2); });
}

// cards as other FITS writers lay them out
static void foreign(Mon& m, Rng& r) {
    std::string key = rand_key(r), text, expect; int kind = (int)r.below(5); cd cv; bool whole = r.chance(.5); long long iv = 0; double dv = 0; bool bv = false;
    if (kind == 0) { iv = gen<long long>::make(r); text = std::to_string(iv); }
    else if (kind == 1) { dv = r.chance(.5) ? r.real(-1e6, 1e6) : std::ldexp(r.real(-1, 1), (int)r.range(-300, 300)); char b[64]; std::snprintf(b, 64, r.chance(.5) ? "%.16E" : "%.17g", dv); text = b; }
    else if (kind == 2) { bv = r.chance(.5); text = bv ? "T" : "F"; }
    else if (kind == 4) {
        char b[120]; static const char* form[] = {"(%s, %s)", "(%s,%s)", "( %s , %s )", "(%s,   %s)", "%s %s", "%s    %s"}; std::string a, c2;
        if (whole) { cv = cd((double)gen<int>::make(r), (double)gen<int>::make(r)); a = std::to_string((long long)cv.real()); c2 = std::to_string((long long)cv.imag()); }
        else { char x[40]; double u = gflt<double>(r), w = r.real(-1e3, 1e3); std::snprintf(x, 40, "%.16E", u); a = x; std::snprintf(x, 40, "%.17g", w); c2 = x; cv = cd(u, w); if (r.chance(.2)) std::replace(a.begin(), a.end(), 'E', 'D'); }
        std::snprintf(b, 120, form[r.below(6)], a.c_str(), c2.c_str()); text = b;
    }
    else { expect = rand_text(r, (int)r.range(0, 30)); text = in_quotes(expect); if (text.size() > 60) { expect = "x"; text = "'x'"; } }
    int pad = (int)r.below(4); std::string body;
    if (kind != 3 && pad == 0 && text.size() < 20) body = std::string(20 - text.size(), ' ') + text;
    else if (pad == 1) body = std::string(r.below(5), ' ') + text;
    else if (pad == 2 && text.size() < 20) body = text + std::string(20 - text.size(), ' ');
    else body = text;
    int room = 70 - (int)body.size(); int sep = (int)r.below(4); std::string tail;
    if (sep == 0 && room > 4) tail = " / " + rand_text(r, (int)r.range(0, room - 3));
    else if (sep == 1 && room > 4) tail = "/" + rand_text(r, (int)r.range(0, room - 1));
    else if (sep == 2 && room > 4) tail = " /" + rand_text(r, (int)r.range(0, room - 2));
    std::string raw = (key + "        ").substr(0, 8) + "= " + body + tail; raw.resize(80, ' ');
    m.note("foreign card " + raw);
    card_t c(raw); std::string cov = "kind" + std::to_string(kind) + ",pad" + std::to_string(pad) + ",sep" + std::to_string(tail.empty() ? 9 : sep) + (tail.find('\'') != tail.npos ? ",q" : "");
    m.check("foreign-keyword", c.keyword() == key, cov, [&] { return raw; });
    if (kind == 0) {
        long long g = c.value<long long>(); m.check("foreign-value/integer", g == iv, cov, [&] { return raw + " " + exp_got(iv, g); });
        double g2 = c.value<double>(); m.check("foreign-value/integer-as-double", g2 == (double)iv, cov, [&] { return raw + " " + exp_got(iv, g2); });
        std::string s = c.value<std::string>(); m.check("foreign-value/integer-as-text", s == text, cov, [&] { return raw + " " + exp_got(text, s); });
        if (iv >= std::numeric_limits<int>::min() && iv <= std::numeric_limits<int>::max()) {
            int g3 = c.value<int>(); m.check("foreign-value/int", g3 == iv, cov, [&] { return raw + " " + exp_got(iv, g3); });
        } else {
            bool thrown = false; try { c.value<int>(); } catch (const fits_exception&) { thrown = true; }
            m.check("foreign-value/int-overflow-reported", thrown, cov, [&] { return raw; });
        }
        { bool thrown = false; std::size_t g4 = 0; try { g4 = c.value<std::size_t>(); } catch (const fits_exception&) { thrown = true; }
          m.check("foreign-value/negative-number-is-not-unsigned", thrown == (iv < 0) && (thrown || g4 == (std::size_t)iv), cov, [&] { return raw + " gave " + str(g4); }); }
        { bool thrown = false; unsigned g4 = 0; try { g4 = c.value<unsigned>(); } catch (const fits_exception&) { thrown = true; }
          m.check("foreign-value/unsigned-in-range", thrown == (iv < 0 || iv > (long long)std::numeric_limits<unsigned>::max()) && (thrown || g4 == iv), cov, [&] { return raw + " gave " + str(g4); }); }
    } else if (kind == 1) {
        double g = c.value<double>(); m.check("foreign-value/double", g == dv, cov, [&] { return raw + " " + exp_got(dv, g); });
        bool thrown = false; try { c.value<bool>(); } catch (const fits_exception&) { thrown = true; }
        m.check("foreign-value/wrong-type-reported", thrown, cov, [&] { return raw; });
    } else if (kind == 2) {
        bool g = c.value<bool>(); m.check("foreign-value/bool", g == bv, cov, [&] { return raw; });
        bool thrown = false; try { c.value<double>(); } catch (const fits_exception&) { thrown = true; }
        m.check("foreign-value/wrong-type-reported", thrown, cov, [&] { return raw; });
    } else if (kind == 4) {
        cd g = c.value<cd>(); m.check("foreign-value/complex", g == cv, cov, [&] { return raw + " " + exp_got(cv, g); });
        if (whole) { ci h = c.value<ci>(); m.check("foreign-value/complex-int", h == ci((int)cv.real(), (int)cv.imag()), cov, [&] { return raw + " " + str(h); }); }
        bool thrown = false; try { c.value<double>(); } catch (const fits_exception&) { thrown = true; }
        m.check("foreign-value/wrong-type-reported", thrown, cov, [&] { return raw; });
    } else {
        std::string s = c.value<std::string>(); m.check("foreign-value/string", s == rtrim(expect), cov, [&] { return raw + " " + exp_got(rtrim(expect), s); });
    }
    m.check("raw-card-kept", c.raw_card() == raw, cov, [&] { return c.raw_card(); });
    m.check("value-with-comment", c.value_with_comment() == trim(raw.substr(10)), cov, [&] { return c.value_with_comment() + "|" + raw; });
}

static void limits(Mon& m, Rng& r) {
    // exactly what fits is accepted, one more is refused and leaves the card as it was
    int kl = (int)r.range(1, 10), vl = (int)r.range(0, 75), cl = (int)(r.chance(.4) ? 0 : r.range(1, 75));
    if (r.chance(.5)) { int tot = (int)r.range(66, 70); vl = (int)r.range(0, tot); cl = tot - vl; }
    std::string key(kl, 'K'), v(vl, 'v'), com(cl, 'c'); card_t c; c.create_card("KEEP", 42, "kept"); std::string before = c.raw_card();
    bool fits = kl <= 8 && (cl == 0 ? vl + 2 <= 70 : vl + 2 + cl <= 68); bool ok = true;
    try { c.create_card(key, v, com); } catch (const fits_exception&) { ok = false; }
    std::string cov = "k" + std::to_string(kl) + (cl ? ",c" : "") + ",room" + std::to_string(std::max(-3, std::min(3, (cl ? 66 : 68) - vl - cl)));
    m.check("create-accepts-exactly-what-fits", ok == fits, cov, [&] { return "key " + str(kl) + " value " + str(vl) + " comment " + str(cl) + (ok ? " accepted" : " refused"); });
    m.check("card-is-80-characters", c.raw_card().size() == 80, cov, [&] { return c.raw_card(); });
    if (!ok) m.check("refused-creation-leaves-card", c.raw_card() == before && c.value<int>() == 42, cov, [&] { return c.raw_card(); });
    // commentary
    std::string ck = std::vector<std::string>{"COMMENT", "HISTORY", "", "END", "CONTINUE", "TOOLONGKEY"}[r.below(6)];
    int tl = (int)(r.chance(.3) ? r.range(68, 73) : r.range(0, 73)); std::string text = rand_text(r, tl);
    card_t d; d.create_card("KEEP", 42, "kept"); bool okc = true;
    try { d.create_commentary_card(ck, text); } catch (const fits_exception&) { okc = false; }
    std::string cov2 = "commentary," + ck + ",len" + std::to_string(tl);
    m.check("commentary-accepts-exactly-what-fits", okc == (ck.size() <= 8 && tl <= 70), cov2, [&] { return ck + " " + str(tl); });
    m.check("card-is-80-characters", d.raw_card().size() == 80, cov2, [&] { return d.raw_card(); });
    if (okc) {
        m.check("commentary-keyword", d.keyword() == ck, cov2, [&] { return d.raw_card(); });
        if (!(text.size() > 1 && ck.size() == 8)) // an 8 character keyword followed by '= ' is a value card
            m.check("commentary-text", d.value_with_comment() == trim(text) || text.find("= ") == 0, cov2, [&] { return d.raw_card() + "|" + text + "|" + d.value_with_comment(); });
        if (ck == "COMMENT" || ck == "HISTORY" || ck == "END") { card_t e(d.raw_card()); m.check("commentary-reparsed", e == d && e.keyword() == ck, cov2, [&] { return d.raw_card(); }); }
    } else m.check("refused-creation-leaves-card", d.keyword() == "KEEP", cov2, [&] { return d.raw_card(); });
    // commentary as other programs write it: the text starts right behind the keyword field and may fill the card
    { std::string kw = std::vector<std::string>{"COMMENT", "HISTORY", ""}[r.below(3)], body = rand_text(r, (int)(r.chance(.3) ? 72 : r.range(0, 72))); if (r.chance(.3)) body = " " + body.substr(0, 71); body.resize(72, ' '); if (body.compare(0, 2, "= ") != 0) {
        card_t e((kw + "        ").substr(0, 8) + body); std::string cov3 = "read-commentary," + kw + (body[0] == ' ' ? ",gap" : ",tight") + (body[71] == ' ' ? "" : ",full");
        m.check("commentary-read", e.keyword() == kw && e.value_with_comment() == trim(body) && e.raw_card() == (kw + "        ").substr(0, 8) + body, cov3, [&] { return e.raw_card() + "|" + e.keyword() + "|" + e.value_with_comment(); }); } }
    // raw text that is no card
    std::string bad(80, ' '); for (auto& ch : bad) ch = (char)r.range('A', 'Z'); bool refused = false;
    int bl = (int)r.range(9, 90); bad.resize(bl, 'Q'); if (r.chance(.5) && bl > 80) bad.replace(8, 2, "= ");
    try { card_t e(bad); } catch (const fits_exception&) { refused = true; }
    m.check("malformed-text-refused", refused, "len" + std::to_string(bl), [&] { return bad; });
    // almost a complex number
    { static const char* broken[] = {"(1, 2", "1, 2)", "(1 2)", "()", "(1,)", "(,2)", "(1,2,3)", "(1, 2) 3", "1 2 3", "(1, x)", "1,2", "((1, 2)", "(", ")", "1"}; std::string bc = broken[r.below(15)];
      card_t e((rand_key(r) + "        ").substr(0, 8) + "= " + (bc + std::string(70, ' ')).substr(0, 70)); bool thrown = false; try { e.value<cd>(); } catch (const fits_exception&) { thrown = true; }
      m.check("broken-complex-reported", thrown, bc, [&] { return bc; }); }
    // almost a logical
    { static const char* broken[] = {"TRUE", "FALSE", "TF", "FT", "T F", "t", "f", "true", "1", "0", "T.", "'T'", "'F'", "T1", "F0", "TT"}; std::string bc = broken[r.below(16)];
      card_t e((rand_key(r) + "        ").substr(0, 8) + "= " + (std::string(r.below(21), ' ') + bc + (r.chance(.3) ? " / T" : "") + std::string(70, ' ')).substr(0, 70)); bool thrown = false; try { e.value<bool>(); } catch (const fits_exception&) { thrown = true; }
      m.check("broken-logical-reported", thrown, bc, [&] { return bc; }); }
    // one character away from a card: the value indicator must be there, whole and in its place
    std::string near = (rand_key(r) + "        ").substr(0, 8) + "= " + std::to_string(r.below(1000)) + " / near"; near.resize(80, ' '); int how = (int)r.below(6);
    if (near.substr(0, 7) != "COMMENT" && near.substr(0, 7) != "HISTORY" && near.substr(0, 7) != "END    ") {
        if (how == 0) near[9] = (char)r.range(33, 126);
        else if (how == 1) near[8] = (char)r.range(62, 126);
        else if (how == 2) { near.insert(8, 1, ' '); near.resize(80); }      // "KEYWORD  = 5"
        else if (how == 3) { near.erase(9, 1); near.resize(80, ' '); }       // "KEYWORD =5"
        else if (how == 4) { near.resize(9); }
        else { near.resize(81 + r.below(5), ' '); }
        if (near.size() != 80 || near.substr(8, 2) != "= ") {
            refused = false; try { card_t e(near); } catch (const std::exception&) { refused = true; }
            m.check("almost-a-card-refused", refused, "how" + std::to_string(how), [&] { return near; });
        }
    }
}

// ---- P02 ----
template <class T> std::string ask(const card_t& c) {
    try { return "= " + str(c.template value<T>()); }
    catch (const boost::astronomy::invalid_cast&) { return "invalid_cast"; }
    catch (const std::exception& e) { return std::string("exception ") + typeid(e).name(); }
}
static std::string ask(const card_t& c, int t) {
    switch (t) {
    case 0: return ask<bool>(c); case 1: return ask<int>(c); case 2: return ask<float>(c); case 3: return ask<double>(c); case 4: return ask<unsigned>(c);
    case 5: return ask<long long>(c); case 6: return ask<std::size_t>(c); case 7: return ask<std::string>(c); case 8: return ask<ci>(c); case 9: return ask<cd>(c);
    case 10: return ask<cf>(c); case 11: return ask<cz>(c); case 12: return c.keyword(); case 13: return c.keyword(true); default: return c.value_with_comment();
    }
}
static void put(card_t& c, Rng& r, bool set, std::string& key) {
    std::string k = rand_key(r); if (!set) key = k;
    switch (r.below(9)) {
#define V(T) { T v = gen<T>::make(r); if (set) c.set_value(v); else c.create_card(k, v); }
    case 0: V(bool) break; case 1: V(int) break; case 2: V(double) break; case 3: V(long long) break; case 4: V(std::size_t) break; case 5: V(ci) break; case 6: V(float) break; case 7: V(cd) break;
#undef V
    default: { std::string v = rand_text(r, (int)r.below(30)); if (set) c.set_value(v); else c.create_card(k, v); }
    }
}
static void history(Mon& m, Rng& r) {
    card_t c; std::string key; put(c, r, false, key); std::string trace;
    int steps = (int)r.range(5, 40); std::string prev = "created"; std::vector<card_t> others; std::vector<std::pair<std::string, std::string>> was;
    for (int i = 0; i < steps; ++i) {
        int op = (int)r.below(13);
        if (op < 8) {
            int t = (int)r.below(15); trace += " ask" + std::to_string(t);
            m.note(trace);
            std::string got = ask(c, t), fresh = ask(card_t(c.raw_card()), t);
            m.check("answer-independent-of-history", got == fresh, prev + ">ask" + std::to_string(t), [&] { return c.raw_card() + trace + ": a fresh card answers " + fresh + ", this one " + got; });
            prev = "ask" + std::to_string(t);
        } else if (op == 8) { put(c, r, false, key); trace += " create"; prev = "created"; }
        else if (op == 8 + 4) { std::string t = r.chance(.5) ? rand_text(r, (int)r.below(40)) : std::to_string(r.below(100000)); key = r.chance(.5) ? "COMMENT" : "HISTORY"; c.create_commentary_card(key, t); trace += " commentary"; prev = "commentary"; std::string fresh = card_t(c.raw_card()).value_with_comment(); m.check("commentary-replaces-the-value", c.value_with_comment() == fresh, prev, [&] { return c.raw_card(); }); }
        else if (op == 9) { put(c, r, true, key); trace += " set"; prev = "set"; }
        else if (op == 10) { others.push_back(c); was.push_back({key, c.raw_card()}); trace += " copy"; if (r.chance(.5)) { std::size_t o = r.below(others.size()); c = others[o]; key = was[o].first; trace += " assign"; prev = "assigned"; } }
        else { std::string raw = c.raw_card(); c.keyword(); c.value_with_comment(); m.check("queries-leave-the-card", c.raw_card() == raw, prev, [&] { return raw; });
               if (r.chance(.3)) { try { c.create_card("WAYTOOLONG", 1); } catch (const fits_exception&) {} trace += " refused"; prev = "refused"; } }
        if (r.chance(.4)) m.check("keyword-is-that-given-last", c.keyword() == key, prev, [&] { return c.raw_card() + trace + ": keyword " + c.keyword() + " instead of " + key; });
        m.check("card-is-80-characters", c.raw_card().size() == 80, prev, [&] { return c.raw_card(); });
        // every card ever copied still answers as its own text says
        if (!others.empty() && r.chance(.2)) { std::size_t w = r.below(others.size()); auto& o = others[w]; m.check("copy-keeps-its-text", o.raw_card() == was[w].second && o.keyword() == was[w].first, prev, [&] { return o.raw_card() + trace; }); int t = (int)r.below(15); std::string g = ask(o, t), f = ask(card_t(o.raw_card()), t);
            m.check("copies-independent", g == f, "copy>ask" + std::to_string(t), [&] { return o.raw_card() + trace + ": " + f + " / " + g; }); }
    }
}
// the value set last is the one read
template <class T> void last_set(Mon& m, Rng& r) {
    card_t c; std::string k = rand_key(r); c.create_card(k, gen<T>::make(r)); if (r.chance(.5)) c.template value<T>();
    T last = T(); int n = (int)r.range(1, 5); std::string how;
    for (int i = 0; i < n; ++i) { last = gen<T>::make(r); if (r.chance(.5)) { c.set_value(last); how = "set"; } else { c.create_card(k, last, "c"); how = "create"; } if (r.chance(.5)) { T g = c.template value<T>(); m.check("last-value-read/" + std::string(gen<T>::name()), g == last, how, [&] { return c.raw_card() + exp_got(last, g); }); } if (r.chance(.3)) ask(c, (int)r.below(12)); }
    T g = c.template value<T>();
    m.check("last-value-read/" + std::string(gen<T>::name()), g == last, how, [&] { return c.raw_card() + exp_got(last, g); });
    m.check("keyword-survives", c.keyword() == k, how, [&] { return c.raw_card(); });
}

int main(int argc, char** argv) {
    Mon m(argc, argv);
    if (m.wants("P01")) {
        m.run("numeric", 20000, [&](Rng& r, std::uint64_t i) {
            switch (i % 10) { case 0: roundtrip<bool>(m, r); break; case 1: roundtrip<int>(m, r); break; case 2: roundtrip<unsigned>(m, r); break; case 3: roundtrip<long long>(m, r); break;
            case 4: roundtrip<std::size_t>(m, r); break; case 5: roundtrip<float>(m, r); break; case 6: roundtrip<double>(m, r); break; case 7: roundtrip<ci>(m, r); break;
            case 8: roundtrip<cd>(m, r); break; default: if (r.chance(.5)) roundtrip<cf>(m, r); else roundtrip<cz>(m, r); } });
        m.run("string", 10000, [&](Rng& r, std::uint64_t) { string_roundtrip(m, r); });
        m.run("foreign", 10000, [&](Rng& r, std::uint64_t) { foreign(m, r); });
        m.run("limits", 6000, [&](Rng& r, std::uint64_t) { limits(m, r); });
    }
    if (m.wants("P02")) {
        m.run("history", 3000, [&](Rng& r, std::uint64_t) { history(m, r); });
        m.run("last", 6000, [&](Rng& r, std::uint64_t i) { switch (i % 6) { case 0: last_set<int>(m, r); break; case 1: last_set<double>(m, r); break; case 2: last_set<bool>(m, r); break; case 3: last_set<long long>(m, r); break; case 4: last_set<cd>(m, r); break; default: last_set<std::size_t>(m, r); } });
    }
    return m.finish();
}
