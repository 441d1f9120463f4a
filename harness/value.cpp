// C18: conversion of texts to the declared type.
#include "cmdspaces.hpp"
#include <boost/optional.hpp>
#include <optional>
#include <cmath>
#include <limits>
#include <cfloat>
using namespace cm;
using mc::Run;
const char* mc::property = "C18";
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
template<class F> static void texts(const string& al, int lo, int hi, const F& f)
{
    for (int n = lo; n <= hi; ++n) { std::vector<int> ix(n, 0); string s(n, al[0]);
        for (;;) { f(s); int i = n - 1; while (i >= 0 && ix[i] == (int)al.size() - 1) { ix[i] = 0; s[i] = al[0]; --i; } if (i < 0) break; s[i] = al[++ix[i]]; } }
}
// user types
struct Word { string s; bool operator==(const Word& b) const { return s == b.s; } };                   // own validate: lower-case words only
static void validate(boost::any& v, const Strs& xs, Word*, int)
{
    po::validators::check_first_occurrence(v); const string& s = po::validators::get_single_string(xs);
    if (s.empty()) throw po::invalid_option_value(s);
    for (size_t i = 0; i < s.size(); ++i) if (s[i] < 'a' || s[i] > 'z') throw po::invalid_option_value(s);
    Word w; w.s = s; v = boost::any(w);
}
struct Pt { int x, y; bool operator==(const Pt& b) const { return x == b.x && y == b.y; } };            // own stream extraction: x:y
static std::istream& operator>>(std::istream& i, Pt& p) { char c = 0; i >> p.x >> c >> p.y; if (c != ':') i.setstate(std::ios::failbit); return i; }

// -------- independent readers: 1 value, 0 not a value of the type, -1 not asserted
template<class T> static int readInt(const string& s, T& out)
{
    size_t i = 0; bool neg = false; if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; i = 1; }
    if (i == s.size()) return 0;
    for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return 0;
    if (neg && !std::numeric_limits<T>::is_signed) return -1;             // "-1" for an unsigned type
    string d = s.substr(i); size_t z = d.find_first_not_of('0'); d = z == string::npos ? "0" : d.substr(z);
    string lim = neg ? std::to_string(std::numeric_limits<T>::min()).substr(1) : std::to_string(std::numeric_limits<T>::max());
    if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return 0;
    T v = 0; for (size_t k = 0; k < d.size(); ++k) v = neg ? T(v * 10 - (d[k] - '0')) : T(v * 10 + (d[k] - '0'));
    out = v; return 1;
}
static int read(const string& s, short& o) { return readInt(s, o); }
static int read(const string& s, unsigned short& o) { return readInt(s, o); }
static int read(const string& s, int& o) { return readInt(s, o); }
static int read(const string& s, unsigned& o) { return readInt(s, o); }
static int read(const string& s, long& o) { return readInt(s, o); }
static int read(const string& s, unsigned long& o) { return readInt(s, o); }
static int read(const string& s, long long& o) { return readInt(s, o); }
static int read(const string& s, char& o) { if (s.size() != 1) return 0; o = s[0]; return 1; }
static int read(const string& s, string& o) { o = s; return 1; }
static int read(const string& s, bool& o)
{
    string l; for (size_t i = 0; i < s.size(); ++i) l += s[i] >= 'A' && s[i] <= 'Z' ? char(s[i] + 32) : s[i];
    if (l == "" || l == "1" || l == "on" || l == "yes" || l == "true") { o = true; return 1; }
    if (l == "0" || l == "off" || l == "no" || l == "false") { o = false; return 1; }
    return 0;
}
template<class T> static int readFloat(const string& s, T& o)
{   // decimal notation; words and out of range values are not asserted
    size_t i = 0, d = 0, e = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i < s.size() && strchr("iInN", s[i]) && s[i]) return -1;
    while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; }
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++d; } }
    if (!d) return 0;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++e; } if (!e) return 0; }
    if (i != s.size()) return 0;
    if (s.find_first_of("eE") != string::npos && s.find('.') == 0) {}
    long double v = strtold(s.c_str(), 0); o = sizeof(T) == 4 ? (T)strtof(s.c_str(), 0) : (T)strtod(s.c_str(), 0);
    if (v != 0 && (fabsl(v) > (long double)std::numeric_limits<T>::max() || fabsl(v) < (long double)std::numeric_limits<T>::min())) return -1;
    return 1;
}
static int read(const string& s, double& o) { return readFloat(s, o); }
static int read(const string& s, float& o) { return readFloat(s, o); }
static int read(const string& s, Word& o) { if (s.empty()) return 0; for (size_t i = 0; i < s.size(); ++i) if (s[i] < 'a' || s[i] > 'z') return 0; o.s = s; return 1; }
static int read(const string& s, Pt& o) { size_t c = s.find(':'); if (c == string::npos) return 0; int a = readInt(s.substr(0, c), o.x), b = readInt(s.substr(c + 1), o.y); for (size_t i = 0; i < s.size(); ++i) if (isspace((unsigned char)s[i])) return -1; return a == 1 && b == 1; }
template<class T> struct tname;
#define N(T, n) template<> struct tname<T> { static const char* s() { return n; } };
N(short, "short") N(unsigned short, "unsigned short") N(int, "int") N(unsigned, "unsigned") N(long, "long") N(unsigned long, "unsigned long") N(long long, "long long") N(char, "char") N(string, "string") N(bool, "bool") N(double, "double") N(float, "float") N(Word, "user validated") N(Pt, "user streamed")
template<class T> static string show(const T& v) { std::ostringstream o; o.precision(20); o << v; return o.str(); }
static string show(const string& v) { return mc::q(v); }
static string show(char v) { return mc::q(string(1, v)); }
static string show(const Word& v) { return v.s; }
static string show(const Pt& v) { return show(v.x) + ":" + show(v.y); }
template<class T> static string show(const std::vector<T>& v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) { T x = v[i]; s += (i ? ", " : "") + show(x); } return s + "]"; }
template<class T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static bool same(float a, float b) { return memcmp(&a, &b, sizeof a) == 0; }

static po::parsed_options parsed(const po::options_description& d, const std::vector<Strs>& occ)
{
    po::parsed_options p(&d, st::allow_long); for (size_t i = 0; i < occ.size(); ++i) { po::option o; o.string_key = "opt"; o.value = occ[i]; o.original_tokens.push_back("--opt"); p.options.push_back(o); } return p;
}
struct Out { bool ok; string text, err; };
// stores into holder H (T, optional<T>, ...); `get` reads the T back
template<class H, class G> static string value(Run& R, const std::vector<Strs>& occ, bool line, bool& ok, const G& get)
{
    H target = H(); po::options_description d; po::typed_value<H>* v = po::value<H>(&target); if (occ.size() && occ[0].size() != 1) v->multitoken(); d.add_options()("opt,o", v, ""); R.trace(); ok = false;
    try {
        po::variables_map m;
        if (line) { Strs t; for (size_t i = 0; i < occ.size(); ++i) { if (i & 1) { t.push_back("-o"); t.push_back(occ[i][0]); } else t.push_back("--opt=" + occ[i][0]); } po::store(po::command_line_parser(t).options(d).run(), m); }
        else po::store(parsed(d, occ), m);
        po::notify(m); ok = true; string a = get(m["opt"].template as<H>()), b = get(target);
        if (a != b) return "map " + a + " target " + b;
        if (m["opt"].defaulted()) return a + " marked as defaulted";
        return a;
    } catch (const po::error_with_option_name& e) { return string(dynamic_cast<const po::validation_error*>(&e) ? "rejected " : "error ") + e.what(); }
    catch (const std::exception& e) { return string("unexpected error ") + e.what(); }
}
// rejection must be a validation error that names the option and the text
static bool rejected(const string& r, const string& text) { return starts(r, "rejected ") && r.find(text.empty() ? string("the argument") : "('" + text + "')") != string::npos && r.find("'--opt'") != string::npos; }
template<class T> static void one(Run& R, const string& s, bool more = false)
{
    if (!R.begin()) return;
    T w = T(); int k = read(s, w); string key = string(tname<T>::s()) + " from " + mc::q(s); R.state(mc::mix(mc::hstr(s), mc::hstr(tname<T>::s()))); R.transitions(1);
    string cs(s.c_str()), want = k == 1 ? show(w) : "rejected naming '--opt' and '" + s + "'"; u64 h = 0;
    std::vector<Strs> occ(1, Strs(1, s)); bool ok; string r;
    auto judge = [&](const char* how) { h = mc::mix(h, mc::hstr(r)); if (k < 0) return; if (k == 1 ? !ok || r != want : ok || cs.size() != s.size() ? ok : !rejected(r, s)) R.fail(key, want, r, how); };
    r = value<T>(R, occ, false, ok, [&](const T& x) { return show(x); }); judge("value");
    if (!s.empty()) { r = value<T>(R, occ, true, ok, [&](const T& x) { return show(x); }); judge("from a command line"); }
    if (more) {
        r = value<boost::optional<T> >(R, occ, false, ok, [&](const boost::optional<T>& x) { return x ? show(*x) : string("none"); }); judge("boost::optional");
        r = value<std::optional<T> >(R, occ, false, ok, [&](const std::optional<T>& x) { return x ? show(*x) : string("none"); }); judge("std::optional");
        r = value<std::vector<T> >(R, occ, false, ok, [&](const std::vector<T>& x) { return x.size() == 1 ? show(T(x[0])) : "size " + mc::num(x.size()); }); judge("vector of one");
    }
    if (R.want_sample()) R.sample(key + " -> " + r);
    R.end(h);
}
// the same through wide declarations and wide command lines
template<class T, class H, class G> static string wvalue(Run& R, const std::vector<std::wstring>& toks, bool& ok, const G& get)
{
    H target = H(); po::options_description d; po::typed_value<H, wchar_t>* v = po::wvalue<H>(&target); if (toks.size() > 1) v->multitoken(); d.add_options()("opt,o", v, ""); R.trace(); ok = false;
    try {
        po::variables_map m; std::vector<std::wstring> t; t.push_back(L"--opt"); t.insert(t.end(), toks.begin(), toks.end()); if (toks.size() == 1) { t.resize(1); t[0] += L"=" + toks[0]; }
        po::store(po::wcommand_line_parser(t).options(d).run(), m); po::notify(m); ok = true; string a = get(m["opt"].template as<H>()), b = get(target); return a != b ? "map " + a + " target " + b : a;
    } catch (const po::error_with_option_name& e) { return string(dynamic_cast<const po::validation_error*>(&e) ? "rejected " : "error ") + e.what(); }
    catch (const std::exception& e) { return string("unexpected error ") + e.what(); }
}
template<class T> static void wone(Run& R, const string& s)
{
    if (s.empty()) return; for (size_t i = 0; i < s.size(); ++i) if ((signed char)s[i] <= 0) return;
    if (!R.begin()) return;
    T w = T(); int k = read(s, w); string key = string("wide ") + tname<T>::s() + " from " + mc::q(s); R.state(mc::mix(mc::hstr(s), mc::hstr(tname<T>::s()) + 1)); R.transitions(1);
    string want = k == 1 ? show(w) : "rejected naming '--opt' and '" + s + "'"; u64 h = 0; bool ok; string r; std::vector<std::wstring> one(1, std::wstring(s.begin(), s.end())), two(one);
    auto judge = [&](const char* how, const string& want2) { h = mc::mix(h, mc::hstr(r)); if (k < 0) return; if (k == 1 ? !ok || r != want2 : ok || !rejected(r, s)) R.fail(key, want2, r, how); };
    r = wvalue<T, T>(R, one, ok, [&](const T& x) { return show(x); }); judge("value", want);
    r = wvalue<T, boost::optional<T> >(R, one, ok, [&](const boost::optional<T>& x) { return x ? show(*x) : string("none"); }); judge("boost::optional", want);
    r = wvalue<T, std::vector<T> >(R, one, ok, [&](const std::vector<T>& x) { return x.size() == 1 ? show(T(x[0])) : "size " + mc::num(x.size()); }); judge("vector", want);
    if (s[0] != '-') { two.push_back(std::wstring(L"1")); T x = T(); read(string("1"), x); r = wvalue<T, std::vector<T> >(R, two, ok, [&](const std::vector<T>& v) { return show(v); }); judge("vector of two", k == 1 ? "[" + show(w) + ", " + show(x) + "]" : want); }
    R.end(h);
}
template<class T> static void ints(Run& R)
{
    typedef std::numeric_limits<T> L; Strs v;
    // decimal strings around the limits, powers of two and ten, computed by string arithmetic in 128 bits
    std::vector<__int128> base; base.push_back(L::max()); base.push_back(L::min()); for (int b = 0; b <= 70; ++b) base.push_back((__int128)1 << b); __int128 p = 1; for (int i = 0; i < 22; ++i) { base.push_back(p); p *= 10; }
    auto dec = [](__int128 x) { bool n = x < 0; if (n) x = -x; string s; do { s += char('0' + int(x % 10)); x /= 10; } while (x); if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; };
    for (size_t i = 0; i < base.size(); ++i) for (int d = -3; d <= 3; ++d) { __int128 x = base[i] + d; v.push_back(dec(x)); v.push_back(dec(-x)); v.push_back(dec(x) + "0"); v.push_back(dec(base[i] * 10 + d)); }
    for (size_t i = 0; i < v.size(); ++i) { one<T>(R, v[i], true); if (v[i][0] != '-') { one<T>(R, "+" + v[i]); one<T>(R, "000" + v[i]); one<T>(R, v[i] + " "); one<T>(R, " " + v[i]); one<T>(R, v[i] + "."); one<T>(R, v[i] + "x"); one<T>(R, v[i] + "L"); } }
    for (int n = 1; n <= 60; ++n) { one<T>(R, string(n, '9')); one<T>(R, "1" + string(n, '0')); one<T>(R, string(n, '0') + "7"); one<T>(R, "-" + string(n, '8')); one<T>(R, string(n, '1') + "-"); }
}
template<class T> static void seqs(Run& R, const Strs& al, int maxn)
{   // every sequence of elements, every way of distributing it over occurrences
    sequences(al, 0, maxn, [&](const std::vector<int>& ix) {
        Strs e = pick(al, ix); int n = (int)e.size();
        for (int cut = 0; cut < (n ? 1 << (n - 1) : 1); ++cut) {
            if (!R.begin()) continue;
            std::vector<Strs> occ; for (int i = 0; i < n; ++i) { if (i == 0 || cut >> (i - 1) & 1) occ.push_back(Strs()); occ.back().push_back(e[i]); }
            if (!n) occ.push_back(Strs());
            std::vector<T> w; int bad = -1; for (int i = 0; i < n && bad < 0; ++i) { T x = T(); if (read(e[i], x) == 1) w.push_back(x); else bad = i; }
            string key = string("vector of ") + tname<T>::s() + " from"; for (size_t i = 0; i < occ.size(); ++i) key += " " + mc::q(occ[i]);
            bool ok; string r = value<std::vector<T> >(R, occ, false, ok, [&](const std::vector<T>& x) { return show(x); }); R.state(mc::hstr(key)); R.transitions(n);
            if (bad < 0 ? !ok || r != show(w) : ok || !rejected(r, e[bad])) R.fail(key, bad < 0 ? show(w) : "rejected naming '" + e[bad] + "'", r);
            // a single-valued option accepts exactly one token in one occurrence
            T x = T(); string q = value<T>(R, occ, false, ok, [&](const T& y) { return show(y); }); bool single = occ.size() == 1 && n == 1, none = n == 0 && string(tname<T>::s()) == "bool";
            if (single && bad < 0) { read(e[0], x); if (!ok || q != show(x)) R.fail(key + " single-valued", show(x), q); }
            else if (!none && ok) R.fail(key + " single-valued", "an error", q);
            else if (!none && q.find("'--opt'") == string::npos) R.fail(key + " single-valued", "an error naming '--opt'", q);
            if (none && (!ok || q != "1")) R.fail(key + " single-valued", "true", q);
            if (occ.size() > 1 && !ok && bad != 0 && occ[0].size() == 1 && q.find("more than once") == string::npos) R.fail(key + " single-valued", "an error: more than once", q);
            R.end(mc::mix(mc::hstr(r), mc::hstr(q)));
        }
    });
}
template<class A, class B> static void wrong(Run& R, const A& a, const char* an, const char* bn, bool sameType)
{
    if (!R.begin()) return;
    po::options_description d; d.add_options()("opt", po::value<A>()->default_value(a, "x"), ""); po::variables_map m; po::store(po::parsed_options(&d), m); string r;
    try { m["opt"].as<B>(); r = "read"; } catch (const boost::bad_any_cast&) { r = "bad_any_cast"; } catch (const std::exception& e) { r = e.what(); }
    R.trace(); if (r != (sameType ? "read" : "bad_any_cast")) R.fail(string(an) + " read as " + bn, sameType ? "read" : "bad_any_cast", r); R.end(mc::hstr(r));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("every short", "every text of the numbers -66000..66000 (thorough -140000..140000) as short and unsigned short, all holders");
    for (long i = T ? -140000 : -66000; i <= (T ? 140000 : 66000); ++i) { one<short>(R, std::to_string(i), T || i % 64 == 0); one<unsigned short>(R, std::to_string(i), T || i % 64 == 0); }
    R.space("integer limits", "numbers around the limits of every type, every power of two up to 2^70 and of ten up to 10^21, with signs, zeros, blanks and letters around, as 7 types");
    ints<short>(R); ints<unsigned short>(R); ints<int>(R); ints<unsigned>(R); ints<long>(R); ints<unsigned long>(R); ints<long long>(R);
    R.space("short texts", T ? "every text of length 0..5 over 12 letters as int, unsigned, long, double, float, char, bool, string, user types" : "every text of length 0..4 over 12 letters as int, unsigned, double, char, bool, string, user types");
    texts("019-+. xe:tn", 0, T ? 5 : 4, [&](const string& s) { bool m = s.size() <= 3; one<int>(R, s, m); one<unsigned>(R, s); one<double>(R, s, m); one<char>(R, s, m); one<bool>(R, s, m); one<string>(R, s, m); one<Word>(R, s, m); one<Pt>(R, s, m); if (T) { one<long>(R, s); one<float>(R, s); one<unsigned long>(R, s); } });
    R.space("two bytes", "every text of 1..2 bytes (thorough: also a digit between and around) as int, double, char, bool, string");
    for (int a = 0; a < 256; ++a) { string x(1, char(a)); one<int>(R, x, true); one<double>(R, x, true); one<char>(R, x, true); one<bool>(R, x, true); one<string>(R, x, true); one<Word>(R, x, true);
        for (int b = 0; b < 256; ++b) { string y = x + char(b); one<int>(R, y); one<double>(R, y); one<bool>(R, y); one<char>(R, y); one<string>(R, y); if (T) { one<int>(R, x + "1" + char(b)); one<int>(R, "1" + y); one<bool>(R, "o" + y); } } }
    one<int>(R, string("1\0", 2)); one<int>(R, string("\0", 1)); one<string>(R, string("a\0b", 3)); one<char>(R, string(1, '\0'));
    R.space("boolean words", "every letter case of the 8 words, every change, loss or insertion of one byte");
    Strs wd = S({"on", "off", "yes", "no", "true", "false", "1", "0"});
    for (size_t i = 0; i < wd.size(); ++i) {
        const string& w = wd[i]; for (unsigned m = 0; m < 1u << w.size(); ++m) { string c = w; for (size_t k = 0; k < c.size(); ++k) if (m >> k & 1) c[k] = (char)toupper(c[k]); one<bool>(R, c, true); for (size_t k = 0; k < c.size(); ++k) { string e = c; e.erase(k, 1); one<bool>(R, e); } one<bool>(R, c + "x"); one<bool>(R, " " + c); }
        for (size_t k = 0; k <= w.size(); ++k) for (int b = 0; b < 256; ++b) { string e = w; e.insert(k, 1, char(b)); one<bool>(R, e); if (k < w.size()) { e = w; e[k] = char(b); one<bool>(R, e); } }
        for (size_t k = 0; k < wd.size(); ++k) { one<bool>(R, w + wd[k]); one<bool>(R, w + "," + wd[k]); }
    }
    R.space("floating point", "every sign, mantissa of 1..3 digits with the point anywhere, exponent -20..20; exact printed forms of 4000 values around powers of two and ten");
    for (int m = 0; m < 1000; m += (T ? 1 : 7)) for (int e = -20; e <= 20; ++e) for (int k = 0; k < 4; ++k) { string s = mc::num(m); if (k) s.insert(s.size() - std::min<size_t>(k - 1, s.size()), "."); s = (k & 1 ? "-" : "") + s; if (e) s += (e & 1 ? "e" : "E") + std::to_string(e); one<double>(R, s); one<float>(R, s); }
    for (int b = -1021; b <= 1023; b += (T ? 1 : 3)) for (int k = 0; k < 3; ++k) { double v = ldexp(1.0, b); v = k == 0 ? v : k == 1 ? nextafter(v, 0) : nextafter(v, 1e308); if (!(v >= DBL_MIN)) continue; char t[64]; snprintf(t, sizeof t, "%.17g", v); one<double>(R, t); snprintf(t, sizeof t, "-%.25e", v); one<double>(R, t); }
    for (int b = -125; b <= 127; ++b) for (int k = 0; k < 3; ++k) { float v = ldexpf(1.0f, b); v = k == 0 ? v : k == 1 ? nextafterf(v, 0) : nextafterf(v, 3e38f); if (!(v >= FLT_MIN)) continue; char t[64]; snprintf(t, sizeof t, "%.9g", v); one<float>(R, t); }
    R.space("sequences", "every sequence of 0..4 (thorough 5) of 4..6 element texts, one or two of them invalid, in every distribution over occurrences, into vectors and into single values");
    int n = T ? 6 : 5;
    seqs<int>(R, S({"1", "-2", "2147483647", "x", "2147483648"}), n); seqs<string>(R, S({"a", "", "b c", "-x"}), n); seqs<double>(R, S({"0.5", "1e3", "1.x", "-7"}), n); seqs<bool>(R, S({"1", "off", "maybe", "YES"}), n); seqs<char>(R, S({"a", " ", "ab"}), n); seqs<Word>(R, S({"ab", "cd", "X"}), n); seqs<Pt>(R, S({"1:2", "3:-4", "5"}), n); seqs<unsigned short>(R, S({"65535", "65536", "0"}), n); seqs<unsigned long>(R, S({"18446744073709551615", "18446744073709551616"}), n);
    R.space("wide values", "the boolean words in every letter case with one letter changed, every text of length 1..3 (thorough 4) over 12 letters, integers around the limits and powers of two, as wide bool, short, int, unsigned, long, double, read from wide command lines into values, optionals and vectors");
    for (size_t i = 0; i < wd.size(); ++i) { const string& w = wd[i]; for (unsigned m = 0; m < 1u << w.size(); ++m) { string c = w; for (size_t k = 0; k < c.size(); ++k) if (m >> k & 1) c[k] = (char)toupper(c[k]); wone<bool>(R, c); wone<bool>(R, c + "x"); wone<bool>(R, c + c); for (size_t k = 0; k < c.size(); ++k) { string e = c; e.erase(k, 1); wone<bool>(R, e); e = c; e[k] ^= 0x20; wone<bool>(R, e); e[k] ^= 0x21; wone<bool>(R, e); } } }
    texts("019-+. xe:tn", 1, T ? 4 : 3, [&](const string& s) { wone<bool>(R, s); wone<int>(R, s); wone<short>(R, s); wone<double>(R, s); wone<unsigned>(R, s); });
    for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) { unsigned long v = (1ul << b) + d; string x = std::to_string(v); wone<int>(R, x); wone<short>(R, x); wone<long>(R, x); wone<unsigned>(R, x); wone<int>(R, "-" + x); wone<short>(R, "-" + x); wone<long>(R, "-" + x); wone<bool>(R, x); wone<double>(R, x + ".5"); wone<double>(R, "-" + x + "e3"); }
    R.space("long sequences", "vectors of 0..300 elements (thorough 3000), in one or many occurrences, an invalid one at every tenth place");
    for (int c = 0; c <= (T ? 3000 : 300); ++c) for (int how = 0; how < 4; ++how) {
        if (!R.begin()) continue;
        std::vector<Strs> occ; std::vector<int> w; int bad = how == 3 && c ? (c * 7) % c : -1; string bt;
        for (int i = 0; i < c; ++i) { int v = i * 7919 - 100000; if (how == 0 ? occ.empty() : how == 1 ? true : i % 7 == 0) occ.push_back(Strs()); occ.back().push_back(i == bad ? bt = "bad" + mc::num(i) : std::to_string(v)); w.push_back(v); }
        bool ok; string r = value<std::vector<int> >(R, occ, false, ok, [&](const std::vector<int>& x) { return show(x); }); if (!c) { R.end(0); continue; }
        if (bad < 0 ? !ok || r != show(w) : ok || !rejected(r, bt)) R.fail("vector of " + mc::num(c) + " numbers, form " + mc::num(how), bad < 0 ? show(w) : "rejected naming " + bt, r);
        R.end(mc::hstr(r));
    }
    R.space("long texts", "texts of every length 0..300 and around powers of two up to 8192 as string, rejected int, bool and char");
    std::vector<int> sz; for (int i = 0; i <= 300; ++i) sz.push_back(i); for (int p = 512; p <= 8192; p *= 2) for (int d = -1; d <= 1; ++d) sz.push_back(p + d);
    for (size_t i = 0; i < sz.size(); ++i) { string s; for (int k = 0; k < sz[i]; ++k) s += "abc %'\n\\\xe9"[(k * k + sz[i]) % 9]; one<string>(R, s, true); one<int>(R, s + "x", true); one<bool>(R, s + "x", true); one<char>(R, s + "xy"); one<Word>(R, s + "9", true); one<int>(R, string(sz[i], '0') + "5"); one<double>(R, "0." + string(sz[i] % 310, '0') + "5"); one<double>(R, string(sz[i] % 300 + 1, '3')); }
    R.space("reading back as another type", "every ordered pair of 9 types");
#define P(A, a) wrong<A, int>(R, a, #A, "int", std::is_same<A, int>::value); wrong<A, unsigned>(R, a, #A, "unsigned", std::is_same<A, unsigned>::value); wrong<A, long>(R, a, #A, "long", std::is_same<A, long>::value); wrong<A, string>(R, a, #A, "string", std::is_same<A, string>::value); wrong<A, bool>(R, a, #A, "bool", std::is_same<A, bool>::value); wrong<A, double>(R, a, #A, "double", std::is_same<A, double>::value); wrong<A, char>(R, a, #A, "char", std::is_same<A, char>::value); wrong<A, Strs>(R, a, #A, "vector<string>", std::is_same<A, Strs>::value); wrong<A, boost::optional<int> >(R, a, #A, "optional<int>", std::is_same<A, boost::optional<int> >::value);
    typedef boost::optional<int> OI; P(int, 1) P(unsigned, 1u) P(long, 1l) P(string, string("x")) P(bool, true) P(double, 1.0) P(char, 'c') P(Strs, Strs(2, "x")) P(OI, OI(1))
}
