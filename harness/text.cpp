// C23 split_unix, C24 split_winmain, C25 UTF-8 conversion.
#include "cmdspaces.hpp"
#include <boost/program_options/detail/convert.hpp>
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
#include <locale>
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
typedef std::wstring W; typedef std::vector<W> Ws;
static W widen(const string& s) { W r; for (size_t i = 0; i < s.size(); ++i) r += (wchar_t)(unsigned char)s[i]; return r; }
static Ws widen(const Strs& s) { Ws r; for (size_t i = 0; i < s.size(); ++i) r.push_back(widen(s[i])); return r; }
template<class F> static void words(const string& al, int lo, int hi, const F& f)
{
    string s; std::vector<int> ix;
    for (int n = lo; n <= hi; ++n) { ix.assign(n, 0); s.assign(n, al[0]);
        for (;;) { f(s); int i = n - 1; while (i >= 0 && ix[i] == (int)al.size() - 1) { ix[i] = 0; s[i] = al[0]; --i; } if (i < 0) break; s[i] = al[++ix[i]]; } }
}
template<class F> static void lists(const Strs& al, int lo, int hi, const F& f)
{
    for (int n = lo; n <= hi; ++n) { std::vector<int> ix(n, 0); Strs v(n, al[0]);
        for (;;) { f(v); int i = n - 1; while (i >= 0 && ix[i] == (int)al.size() - 1) { ix[i] = 0; v[i] = al[0]; --i; } if (i < 0) break; v[i] = al[++ix[i]]; } }
}
template<class S> static u64 hashv(const std::vector<S>& v) { u64 h = v.size(); for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k <= v[i].size(); ++k) h = mc::mix(h, k < v[i].size() ? (u64)v[i][k] : 0x10000); return h; }

#if PROP == 23
const char* mc::property = "C23";
struct Cfg { string sep, quo, esc; string str() const { return "sep " + mc::q(sep) + " quote " + mc::q(quo) + " escape " + mc::q(esc); } };
// transition function of the documented splitter; false: error
static bool model(const string& s, const Cfg& c, Strs& out, u64& visited)
{
    bool inq = false; string cur;
    for (size_t i = 0; i < s.size(); ++i) {
        char x = s[i];
        if (c.esc.find(x) != string::npos) {
            if (++i == s.size()) return false;
            if (s[i] == 'n') cur += '\n';
            else if ((c.esc + c.quo + c.sep).find(s[i]) != string::npos) cur += s[i];
            else return false;
        } else if (c.sep.find(x) != string::npos) { if (inq) cur += x; else { if (!cur.empty()) out.push_back(cur); cur.clear(); } }
        else if (c.quo.find(x) != string::npos) inq = !inq;
        else cur += x;
        visited = mc::mix(visited, (inq ? 2 : 0) + (cur.empty() ? 1 : 0));
    }
    if (!cur.empty()) out.push_back(cur);
    return true;
}
static string show(bool ok, const Strs& v) { return ok ? mc::q(v) : "error"; }
static void one(Run& R, const string& s, const Cfg& c, bool defaults)
{
    if (!R.begin()) return;
    Strs w; u64 vis = 0; bool ok = model(s, c, w, vis), g = true, gw = true; Strs r; Ws rw; R.state(vis); R.transitions(s.size());
    try { r = defaults ? po::split_unix(s) : po::split_unix(s, c.sep, c.quo, c.esc); } catch (const std::exception&) { g = false; }
    try { rw = defaults ? po::split_unix(widen(s)) : po::split_unix(widen(s), widen(c.sep), widen(c.quo), widen(c.esc)); } catch (const std::exception&) { gw = false; }
    R.trace(); R.trace();
    string key = "split " + mc::q(s) + (defaults ? " with defaults" : " " + c.str());
    if (ok != g || (ok && w != r)) R.fail(key, show(ok, w), show(g, r), "narrow");
    if (ok != gw || (ok && widen(w) != rw)) R.fail(key, show(ok, w), gw ? mc::q(rw) : "error", "wide");
    if (R.want_sample()) R.sample(key + " -> " + show(g, r));
    R.end(mc::mix(hashv(r), g));
}
// writes one argument so that splitting gives it back
static string quoted(const string& a, const Cfg& c, int how)
{
    string r; char q = c.quo.empty() ? 0 : c.quo[how % c.quo.size()];
    auto special = [&](char x) { return (c.esc + c.quo + c.sep).find(x) != string::npos; };
    for (size_t i = 0; i < a.size(); ++i) {
        bool sp = special(a[i]); bool e = c.esc.find(a[i]) != string::npos, qq = c.quo.find(a[i]) != string::npos;
        switch (how / 2) {
        case 0: if (sp) r += c.esc[i % c.esc.size()]; r += a[i]; break;                                            // escape everything special
        case 1: if (i == 0) r += q; if (e || qq) r += c.esc[0]; r += a[i]; if (i + 1 == a.size()) r += q; break;     // whole argument in quotes
        case 2: if (e || qq) { r += c.esc[0]; r += a[i]; } else if (sp) { r += q; r += a[i]; r += q; } else r += a[i]; break;   // only separators in quotes
        default: if (a[i] == '\n') { r += c.esc[0]; r += 'n'; } else { if (i % 2) r += q; if (sp) r += c.esc[0]; r += a[i]; if (i % 2) r += q; } break;
        }
    }
    return r;
}
static void round(Run& R, const Strs& v, const Cfg& c)
{
    if (!R.begin()) return;
    u64 h = 0;
    for (int how = 0; how < 8; ++how) {
        if (c.quo.empty() && how / 2) continue;
        for (int k = 0; k < 3; ++k) {
            string s; if (k == 2) s += string(2, c.sep[0]);
            for (size_t i = 0; i < v.size(); ++i) { if (i) { s += c.sep[(i + k) % c.sep.size()]; if (k) s += c.sep[0]; } s += quoted(v[i], c, how); }
            if (k == 2) s += *c.sep.rbegin();
            Strs r; Ws rw; string e;
            try { r = po::split_unix(s, c.sep, c.quo, c.esc); rw = po::split_unix(widen(s), widen(c.sep), widen(c.quo), widen(c.esc)); } catch (const std::exception& x) { e = x.what(); }
            R.trace(); h = mc::mix(h, hashv(r)); R.transitions(s.size());
            if (!e.empty() || r != v || rw != widen(v)) R.fail("arguments " + mc::q(v) + " written as " + mc::q(s) + " " + c.str(), mc::q(v), e.empty() ? mc::q(r) + " / " + mc::q(rw) : "error " + e);
        }
    }
    R.state(hashv(v)); R.end(h);
}
void mc::explore(Run& R)
{
    const bool T = R.thorough; Cfg def = { " \t", "'\"", "\\" };
    R.space("default rules", T ? "every string of length 0..8 over a b n space tab ' \" \\ newline" : "every string of length 0..6 over a n space tab ' \" \\ newline");
    words(T ? "an \t'\"\\\nb" : "an \t'\"\\\n", 0, T ? 7 : 6, [&](const string& s) { one(R, s, def, true); one(R, s, def, false); });
    R.space("deep", T ? "every string of length 0..11 over a space ' \\" : "every string of length 0..9 over a space ' \\");
    words("a '\\", 7, T ? 11 : 9, [&](const string& s) { one(R, s, def, true); });
    R.space("chosen rules", "every choice of disjoint separator, quote and escape sets out of 4 characters (0..2 each), every string of length 0..4 (thorough 6) over these, a letter and n");
    string al = ",;|^";
    for (int m = 0; m < 256; ++m) {
        Cfg c; for (int i = 0; i < 4; ++i) { int k = m >> (2 * i) & 3; if (k == 1) c.sep += al[i]; if (k == 2) c.quo += al[i]; if (k == 3) c.esc += al[i]; }
        words(al + "xn", 0, T ? 6 : 5, [&](const string& s) { one(R, s, c, false); });
    }
    std::vector<Cfg> cs; cs.push_back(def); { Cfg c = { ",", "\"", "^" }; cs.push_back(c); Cfg d = { " ;\n", "|", "\\~" }; cs.push_back(d); Cfg e = { "\t", "'", "\x80" }; cs.push_back(e); Cfg f = { " ", "", "\\" }; cs.push_back(f); }
    R.space("round trip", "every list of 0..3 arguments (thorough 4) of 24, 8 ways of quoting, 3 ways of joining, 5 rule sets");
    Strs args = S({"a", "n", "\\", "'", "\"", " ", "\t", "\n", ",", "^", "a b", "a'b", "\\n", "--x=1 2", "''", " a ", "\\\\", "\"\\\" '", "a,b;c", "~|^", "\x80\xff", "/path\\to", "x\\", "\\'"});
    for (size_t k = 0; k < cs.size(); ++k) lists(args, 0, T ? 4 : 3, [&](const Strs& v) { round(R, v, cs[k]); });
    R.space("round trip of short arguments", "every argument of length 1..6 (thorough 8) over a space \\ ' \"");
    words("a \\'\"", 1, T ? 8 : 6, [&](const string& s) { round(R, Strs(1, s), def); });
    words("a \\'", 1, 4, [&](const string& s) { words("a \\'", 1, T ? 4 : 3, [&](const string& t) { Strs v; v.push_back(s); v.push_back(t); round(R, v, def); }); });
    R.space("bytes", "every byte as text, separator, quote and escape character; every pair of bytes as text");
    for (int a = 0; a < 256; ++a) { string x(1, char(a)); one(R, x, def, true); one(R, "p" + x + "q " + x + " '" + x + x + "'", def, true);
        for (int role = 0; role < 3; ++role) { Cfg c = { " ", "\"", "\\" }; (role == 0 ? c.sep : role == 1 ? c.quo : c.esc) = x; if (c.sep == c.quo || c.quo == c.esc || c.sep == c.esc) continue; one(R, "aa" + x + "b c" + x + x + "d " + x, c, false); one(R, x + x + "\"" + x + "b\" \\" + x, c, false); one(R, "m" + x + "n" + x, c, false); }
        for (int b = 0; b < 256; ++b) one(R, x + string(1, char(b)), def, true); }
    R.space("sizes", "arguments, gaps and numbers of arguments at every length 0..300 and around powers of two up to 4096");
    std::vector<int> sz; for (int i = 0; i <= 300; ++i) sz.push_back(i); for (int p = 512; p <= 4096; p *= 2) for (int d = -1; d <= 1; ++d) sz.push_back(p + d);
    for (size_t i = 0; i < sz.size(); ++i) { int n = sz[i]; one(R, string(n, 'a'), def, true); one(R, "a" + string(n, ' ') + "b", def, true); one(R, "'" + string(n, ' ') + "' c", def, true); string m; for (int k = 0; k < n; ++k) m += "a" + mc::num(k) + (k & 1 ? " " : " \t"); one(R, m, def, true); string e; for (int k = 0; k < n; ++k) e += "\\ "; one(R, e, def, true); string qq; for (int k = 0; k < n; ++k) qq += k & 1 ? "'x" : "\" "; one(R, qq, def, true); one(R, string(n, '\\') + "x", def, true); one(R, "b " + string(n, 'y') + "\\q", def, true); }
}
#endif

#if PROP == 24
#undef _WIN32
#define _WIN32 1
#include MC_WINMAIN
#undef _WIN32
const char* mc::property = "C24";
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the rules as documented: an argument starts with any character that is not white space
static Strs model(const string& s, u64& vis)
{
    Strs r; string cur; bool started = false, inq = false; size_t i = 0;
    while (i < s.size()) {
        if (s[i] == '\\') { size_t n = 0; while (i < s.size() && s[i] == '\\') { ++n; ++i; } started = true;
            if (i < s.size() && s[i] == '"') { cur += string(n / 2, '\\'); if (n % 2) { cur += '"'; ++i; } } else cur += string(n, '\\'); continue; }
        if (s[i] == '"') { inq = !inq; started = true; }
        else if (ws(s[i]) && !inq) { if (started) r.push_back(cur); cur.clear(); started = false; }
        else { cur += s[i]; started = true; }
        vis = mc::mix(vis, inq + 2 * started + 4 * cur.empty()); ++i;
    }
    if (started) r.push_back(cur);
    return r;
}
static void check(Run& R, const string& s, const Strs& w, const string& key, Strs* out = 0)
{
    Strs r; string e; try { r = po::split_winmain(s); } catch (const std::exception& x) { e = string("error ") + x.what(); }
    R.trace(); R.transitions(s.size());
    if (!e.empty() || r != w) R.fail(key, mc::q(w), e.empty() ? mc::q(r) : e, "narrow");
    if (out) *out = r;
    bool ascii = true; for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] > 127) ascii = false;
    if (!ascii) return;
    Ws rw; e.clear(); try { rw = po::split_winmain(widen(s)); } catch (const std::exception& x) { e = string("error ") + x.what(); }
    R.trace();
    if (!e.empty() || rw != widen(w)) R.fail(key, mc::q(w), e.empty() ? mc::q(rw) : e, "wide");
}
static void one(Run& R, const string& s)
{
    if (!R.begin()) return;
    u64 vis = 0; Strs r; Strs w = model(s, vis); R.state(vis); check(R, s, w, "split " + mc::q(s), &r);
    if (R.want_sample()) R.sample(mc::q(s) + " -> " + mc::q(r));
    R.end(hashv(r));
}
static string quoted(const string& a, int how)
{
    bool need = a.empty(); for (size_t i = 0; i < a.size(); ++i) if (ws(a[i])) need = true;
    bool q = how == 0 ? need : true; string r; if (q) r += '"';
    for (size_t i = 0; ; ++i) {
        size_t n = 0; while (i < a.size() && a[i] == '\\') { ++n; ++i; }
        if (i == a.size()) { r += string(q ? 2 * n : n, '\\'); break; }
        if (a[i] == '"') r += string(2 * n + 1, '\\') + "\""; else { r += string(n, '\\'); r += a[i]; }
    }
    if (q) r += '"'; return r;
}
static void round(Run& R, const Strs& v)
{
    if (!R.begin()) return;
    Strs r; R.state(hashv(v));
    for (int how = 0; how < 3; ++how) for (int k = 0; k < 3; ++k) {
        string s; if (k == 2) s = " \t"; for (size_t i = 0; i < v.size(); ++i) { if (i) s += k == 0 ? " " : k == 1 ? "\t" : "  \n "; s += quoted(v[i], how == 2 ? (int)(i & 1) : how); } if (k == 2) s += "  ";
        check(R, s, v, "arguments " + mc::q(v) + " written as " + mc::q(s), &r);
    }
    R.end(hashv(r));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("short strings", T ? "every string of length 0..10 over a space tab \" \\" : "every string of length 0..8 over a space tab \" \\");
    words("a \t\"\\", 0, T ? 10 : 8, [&](const string& s) { one(R, s); });
    R.space("deep", T ? "every string of length 9..12 over a space \" \\" : "every string of length 9..10 over a space \" \\");
    words("a \"\\", T ? 11 : 9, T ? 12 : 10, [&](const string& s) { one(R, s); });
    R.space("quotes and backslashes", T ? "every string of length 0..18 over \" \\ " : "every string of length 0..15 over \" \\ ; over \" \\ space up to 11");
    words("\"\\", 0, T ? 18 : 15, [&](const string& s) { one(R, s); });
    words("\"\\ ", 9, T ? 14 : 11, [&](const string& s) { one(R, s); });
    R.space("round trip", "every list of 0..3 arguments (thorough 4) of 18, 3 ways of quoting x 3 ways of joining");
    Strs al = S({"", "a", " ", "\\", "\"", "a b", "a\\", "\\\"", "\"a", "\\\\", "a\\\"b", "c:\\dir name\\", "\\\\srv\\x", "\"\"", " \\", "\\ ", "x\ty", "--o=\"v w\""});
    lists(al, 0, T ? 4 : 3, [&](const Strs& v) { round(R, v); });
    R.space("round trip of short arguments", "every argument of length 0..7 (thorough 9), every pair of length 0..3 (thorough 4), over a space \" \\");
    words("a \"\\", 0, T ? 9 : 7, [&](const string& s) { round(R, Strs(1, s)); });
    words("a \"\\", 0, T ? 4 : 3, [&](const string& s) { words("a \"\\", 0, T ? 4 : 3, [&](const string& t) { Strs v; v.push_back(s); v.push_back(t); round(R, v); }); });
    R.space("bytes", "every byte at every place of 8 templates, every pair of bytes");
    Strs tpl = S({"", "ab", "a b", "\"a b\" c", "\\\"", "\\\\\"a", "\"\" x", " "});
    for (size_t k = 0; k < tpl.size(); ++k) for (size_t p = 0; p <= tpl[k].size(); ++p) for (int c = 0; c < 256; ++c) { string t = tpl[k]; t.insert(p, 1, char(c)); one(R, t); }
    for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { string t; t += char(a); t += char(b); one(R, "\"" + t + "\\" + t + "\""); one(R, t); }
    R.space("sizes", "runs of backslashes, quotes, blanks and letters of every length 0..300 in 12 places, numbers of arguments up to 300");
    for (int n = 0; n <= 300; ++n) { string b(n, '\\'), qq(n, '"'), s(n, ' '), x(n, 'x'); Strs t; t.push_back(b); t.push_back(b + "\""); t.push_back("\"" + b + "\" a"); t.push_back("a" + b + "b"); t.push_back(qq); t.push_back("a" + qq + " b"); t.push_back("a" + s + "b"); t.push_back("\"" + s + "\"" + s + "c"); t.push_back(x); t.push_back("\"" + x + "\""); t.push_back(x + b + "\"" + x + " y\""); string m; for (int k = 0; k < n; ++k) m += k & 1 ? " \"\"" : " z"; t.push_back(m); for (size_t k = 0; k < t.size(); ++k) one(R, t[k]); }
    R.space("wide characters", "every list of 1..2 arguments built from 7 characters of all UTF-8 lengths, through the wide form");
    W wc = L"a \"\\\u00e9\u6f22"; wc += (wchar_t)0x1f600;
    std::vector<W> args; for (size_t i = 0; i < wc.size(); ++i) for (size_t j = 0; j < wc.size(); ++j) for (size_t k = 0; k < wc.size(); ++k) { W x; x += wc[i]; x += wc[j]; x += wc[k]; args.push_back(x); }
    for (size_t i = 0; i < args.size(); ++i) for (size_t j = 0; j < args.size(); j += (T ? 1 : 7)) {
        if (!R.begin()) continue;
        Ws v; v.push_back(args[i]); v.push_back(args[j]); W s;
        for (int k = 0; k < 2; ++k) { if (k) s += L' '; s += L'"'; for (size_t p = 0; ; ++p) { size_t n = 0; while (p < v[k].size() && v[k][p] == '\\') { ++n; ++p; } if (p == v[k].size()) { s += W(2 * n, L'\\'); break; } if (v[k][p] == '"') s += W(2 * n + 1, L'\\') + L"\""; else s += W(n, L'\\') + v[k][p]; } s += L'"'; }
        Ws r; string e; try { r = po::split_winmain(s); } catch (const std::exception& x) { e = string("error ") + x.what(); }
        R.trace(); if (!e.empty() || r != v) R.fail("wide arguments " + mc::q(v), mc::q(v), e.empty() ? mc::q(r) : e); R.end(hashv(r));
    }
}
#endif

#if PROP == 25
const char* mc::property = "C25";
static string enc(unsigned long c)
{
    string r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    return r;
}
static string enc(const W& w) { string r; for (size_t i = 0; i < w.size(); ++i) r += enc((unsigned long)w[i]); return r; }
static string utf(const W& w, string& e) { try { return boost::to_utf8(w); } catch (const std::exception& x) { e = string("error ") + x.what(); return ""; } }
static W unutf(const string& s, string& e) { try { return boost::from_utf8(s); } catch (const std::exception& x) { e = string("error ") + x.what(); return W(); } }
static void valid(Run& R, const W& w, const string& key)
{
    string e, f, u = enc(w), g = utf(w, e); W b = unutf(u, f); R.trace(); R.transitions(w.size());
    if (!e.empty() || g != u) R.fail(key, "UTF-8 " + mc::q(u), e.empty() ? mc::q(g) : e, "to UTF-8");
    if (!f.empty() || b != w) R.fail(key, mc::q(w), f.empty() ? mc::q(b) : f, "from UTF-8");
}
// 0 well formed (out = characters), 1 malformed (stray, missing or cut bytes), 2 not asserted (overlong, surrogates, beyond the range, obsolete forms)
static int classify(const string& s, W& out)
{
    bool odd = false; out.clear();
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i]; int n;
        if (c < 0x80) n = 0; else if (c < 0xc0) return 1; else if (c < 0xe0) n = 1; else if (c < 0xf0) n = 2; else if (c < 0xf8) n = 3; else if (c < 0xfc) n = 4; else if (c < 0xfe) n = 5; else return 1;
        unsigned long v = n == 0 ? c : c & (0x3f >> n); ++i;
        for (int k = 0; k < n; ++k, ++i) { if (i == s.size() || ((unsigned char)s[i] & 0xc0) != 0x80) return 1; v = v << 6 | ((unsigned char)s[i] & 0x3f); }
        static const unsigned long low[6] = { 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
        if (v < low[n] || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) odd = true; out += (wchar_t)v;
    }
    return odd ? 2 : 0;
}
static void bytes(Run& R, const string& s)
{
    if (!R.begin()) return;
    W w; int k = classify(s, w); string e; W g = unutf(s, e); R.trace(); R.transitions(s.size()); R.state(mc::mix(k, s.size()));
    if (k == 0 && (!e.empty() || g != w)) R.fail("bytes " + mc::q(s), mc::q(w), e.empty() ? mc::q(g) : e);
    if (k == 1 && e.empty()) R.fail("bytes " + mc::q(s), "an error: malformed UTF-8", mc::q(g));
    if (R.want_sample()) R.sample("bytes " + mc::q(s) + (k == 0 ? " valid" : k == 1 ? " malformed" : " not asserted") + " -> " + (e.empty() ? mc::q(g) : e));
    R.end(mc::mix(k, e.empty()));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("every character", T ? "every character 0..10ffff without surrogates, alone and after 1..70 ASCII characters" : "every character 0..10ffff without surrogates, alone and after 14, 15, 28..33, 63 ASCII characters");
    for (unsigned long blk = 0; blk < 0x110000; blk += 64) {
        if (!R.begin()) continue;
        for (unsigned long c = blk; c < blk + 64; ++c) {
            if (c >= 0xd800 && c < 0xe000) continue;
            R.state(c);
            static const int offs[] = { 0, 14, 15, 28, 29, 30, 31, 32, 33, 63 };
            for (int o = 0; o < (T ? 71 : 10); ++o) { W w(T ? o : offs[o], L'x'); w += (wchar_t)c; w += L"yz"; valid(R, w, "character " + mc::num(c) + " after " + mc::num(w.size() - 3) + " letters"); }
            W all(blk & 64 ? 32 : 33, (wchar_t)c); valid(R, all, "character " + mc::num(c) + " repeated " + mc::num(all.size()) + " times");
        }
        R.end(blk / 64 % 512);
    }
    R.space("mixtures", T ? "every sequence of 0..8 of 7 characters (1..4 byte forms and their limits) after 0..34 letters" : "every sequence of 0..5 of 7 characters (1..4 byte forms and their limits) after 0..34 letters, 0..6 after none");
    const unsigned long al[7] = { 'a', 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff };
    words("0123456", 0, T ? 8 : 6, [&](const string& s) {
        if (!R.begin()) return;
        W t; for (size_t i = 0; i < s.size(); ++i) t += (wchar_t)al[s[i] - '0'];
        int last = s.size() <= (T ? 6u : 5u) ? 34 : 0;
        for (int o = 0; o <= last; ++o) valid(R, W(o, L'q') + t, "letters " + mc::num(o) + " then " + mc::q(t));
        R.state(mc::hstr(s)); R.end(enc(t).size());
    });
    R.space("lengths", "every length 0..1100 of one character (7 kinds), and of every pair of kinds alternating");
    for (int a = 0; a < 7; ++a) for (int b = 0; b < 7; ++b) for (int n = 0; n <= (T ? 4200 : 1100); ++n) {
        if (!R.begin()) continue;
        W w; for (int i = 0; i < n; ++i) w += (wchar_t)al[i & 1 ? b : a]; valid(R, w, "length " + mc::num(n) + " of characters " + mc::num(al[a]) + ", " + mc::num(al[b])); R.end(mc::mix(a * 7 + b, n));
    }
    R.space("among other characters", "one character of 4 kinds at every place of 5 lengths, one ASCII byte 1..127 at every other place, 2 fillers");
    {
        static const int ln[] = {17, 24, 33, 48, 65}; static const unsigned long od[] = {0xe9, 0x6f22, 0x1f600, 0x416};
        for (int l = 0; l < (T ? 5 : 4); ++l) for (int p = 0; p < ln[l]; ++p) for (int q = 0; q < ln[l]; ++q) {
            if (p == q || !R.begin()) continue; u64 h = 0;
            for (int c = 1; c < 128; ++c) for (int f = 0; f < 2; ++f) { W w(ln[l], f ? L'.' : L'k'); w[q] = (wchar_t)c; w[p] = (wchar_t)od[(p + q + c) % 4]; valid(R, w, "length " + mc::num(ln[l]) + " of " + (f ? "." : "k") + " with ASCII " + mc::num(c) + " at " + mc::num(q) + " and character " + mc::num(w[p]) + " at " + mc::num(p)); h = mc::mix(h, w[p]); }
            R.state(mc::mix(h, p * 100 + q)); R.end(h);
        }
    }
    R.space("short byte strings", T ? "every byte string of length 0..3, of length 4 over 40 bytes" : "every byte string of length 0..2, of length 3 over 64 bytes, of length 4 over 20 bytes");
    string all; for (int i = 0; i < 256; ++i) all += char(i);
    words(all, 0, T ? 3 : 2, [&](const string& s) { bytes(R, s); });
    string some; for (int i = 0; i < 256; ++i) if (i < 2 || i == 'a' || i == 0x7f || (i >= 0x80 && (i % 8 == 0 || i % 8 == 7)) || i == 0xfe || i == 0xc1 || i == 0xc2 || i == 0xe1 || i == 0xed || i == 0xf1 || i == 0xf4 || i == 0xf5) some += char(i);
    if (!T) words(some, 3, 3, [&](const string& s) { bytes(R, s); });
    string few; for (size_t i = 0; i < some.size(); i += (T ? 1 : 2)) few += some[i]; few += "a";
    words(few, 4, 4, [&](const string& s) { bytes(R, s); });
    R.space("malformed pieces", "8 malformed pieces (stray continuation, each truncation, FE/FF, missing continuation) after 0..140 characters of 4 kinds, followed by 4 endings");
    Strs bad; for (int i = 0; i < 64; i += 9) bad.push_back(string(1, char(0x80 + i))); bad.push_back("\xc3"); bad.push_back("\xe6"); bad.push_back("\xe6\xbc"); bad.push_back("\xf0"); bad.push_back("\xf0\x9f"); bad.push_back("\xf0\x9f\x98"); bad.push_back("\xfe"); bad.push_back("\xff"); bad.push_back("\xc3\xc3"); bad.push_back("\xf8\x88\x80\x80"); bad.push_back("\xfc\x84\x80\x80\x80"); bad.push_back("\xdf"); bad.push_back("\xef\xbf"); bad.push_back("\xf4\x8f\xbf");
    Strs endings = S({"", "x", "\xc3\xa9", " and some more text after it, long enough to fill a second buffer"});
    const unsigned long kinds[4] = { 'a', 0xe9, 0x6f22, 0x1f600 };
    for (int k = 0; k < 4; ++k) for (int n = 0; n <= (T ? 600 : 140); ++n) { string p; for (int i = 0; i < n; ++i) p += enc(kinds[k]); for (size_t b = 0; b < bad.size(); ++b) for (size_t e = 0; e < endings.size(); ++e) { bytes(R, p + bad[b] + endings[e]); bytes(R, "q" + p + bad[b] + endings[e]); } }
    R.space("every cut", "every prefix and every single lost byte of texts of 1..70 characters of each kind");
    for (int k = 0; k < 4; ++k) for (int n = 1; n <= 70; n += (T ? 1 : 3)) { string p; for (int i = 0; i < n; ++i) p += enc(kinds[(k + (i % 5 == 4)) % 4]); for (size_t c = 0; c < p.size(); ++c) { bytes(R, p.substr(0, c)); string d = p; d.erase(c, 1); bytes(R, d); } }
    R.space("embedded in wide parsing", "tokens and configuration texts of 7 kinds of characters at lengths 0..140 through the wide interfaces");
    po::options_description d; d.add_options()("k", po::wvalue<W>(), "");
    for (int a = 0; a < 7; ++a) for (int n = 1; n <= 140; ++n) {
        if (!R.begin()) continue;
        W v(n, (wchar_t)al[a]); string e; W g1, g2, g3, g4;
        try { Ws tok; tok.push_back(L"--k=" + v); po::wparsed_options p = po::wcommand_line_parser(tok).options(d).run(); g1 = p.options.at(0).value.at(0); g2 = p.options.at(0).original_tokens.at(0).substr(4); po::variables_map vm; po::store(p, vm); g3 = vm["k"].as<W>();
              std::wistringstream is(L"k=" + v + L"\n"); g4 = po::parse_config_file(is, d).options.at(0).value.at(0); } catch (const std::exception& x) { e = string("error ") + x.what(); }
        R.trace(); if (!e.empty() || g1 != v || g2 != v || g3 != v || g4 != v) R.fail("wide value of " + mc::num(n) + " characters " + mc::num(al[a]), mc::q(v), e.empty() ? mc::q(g1) + mc::q(g2) + mc::q(g3) + mc::q(g4) : e); R.end(a * 1000 + n);
    }
}
#endif
