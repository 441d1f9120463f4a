// C11: the wide interfaces against the narrow ones on the UTF-8 form of the same input.
#include "cfgmodel.hpp"
#include "u8.hpp"
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
#include <boost/optional.hpp>
#include <locale>
using namespace cm;
using mc::Run;
const char* mc::property = "C11";
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
typedef std::vector<W> Ws;
static Ws dec(const Strs& v) { Ws r; for (size_t i = 0; i < v.size(); ++i) r.push_back(dec(v[i])); return r; }
static Strs enc(const Ws& v) { Strs r; for (size_t i = 0; i < v.size(); ++i) r.push_back(enc(v[i])); return r; }

static Res toRes(const po::wparsed_options& p)
{
    Res r; r.prefix = p.m_options_prefix;
    for (size_t i = 0; i < p.options.size(); ++i) { const po::woption& o = p.options[i]; ROpt x; x.key = o.string_key; x.pos = o.position_key; x.val = enc(o.value); x.orig = enc(o.original_tokens); x.unreg = o.unregistered; x.ci = o.case_insensitive; r.opts.push_back(x); }
    return r;
}
static string showW(const boost::any& a)
{
    using boost::any_cast;
    if (a.empty()) return "empty";
    if (const string* x = any_cast<string>(&a)) return "text " + mc::q(*x);
    if (const W* x = any_cast<W>(&a)) return "text " + mc::q(enc(*x));
    if (const Strs* x = any_cast<Strs>(&a)) return "texts " + mc::q(*x);
    if (const Ws* x = any_cast<Ws>(&a)) return "texts " + mc::q(enc(*x));
    if (const int* x = any_cast<int>(&a)) return "int " + std::to_string(*x);
    if (const bool* x = any_cast<bool>(&a)) return *x ? "true" : "false";
    if (const double* x = any_cast<double>(&a)) { char b[40]; snprintf(b, sizeof b, "%.17g", *x); return b; }
    if (const char* x = any_cast<char>(&a)) return string("char ") + *x;
    if (const wchar_t* x = any_cast<wchar_t>(&a)) return "char " + enc(W(1, *x));
    if (const std::vector<int>* x = any_cast<std::vector<int> >(&a)) { string s = "ints"; for (size_t i = 0; i < x->size(); ++i) s += " " + std::to_string((*x)[i]); return s; }
    if (const boost::optional<int>* x = any_cast<boost::optional<int> >(&a)) return *x ? "opt " + std::to_string(**x) : "opt none";
    return "unexpected type";
}
static string render(const po::variables_map& m) { string s; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) s += mc::q(i->first) + (i->second.defaulted() ? " default " : " ") + showW(i->second.value()) + "; "; return s; }
template<class F> static string stored(const F& parse)
{
    try { po::variables_map m; po::store(parse(), m); po::notify(m); return render(m); }
    catch (...) { Res r = current(); return "error " + r.kind + " " + mc::q(r.what); }
}
// the same declarations with narrow and with wide value types
struct Both { po::options_description n, w; po::positional_options_description pos; string name;
    template<class T, class U> void both(const char* k, bool multi = false, bool comp = false) { po::typed_value<T>* a = po::value<T>(); po::typed_value<U, wchar_t>* b = po::wvalue<U>(); if (multi) { a->multitoken(); b->multitoken(); } if (comp) { a->composing(); b->composing(); } n.add_options()(k, a, ""); w.add_options()(k, b, ""); } };
static void flags(Both& b) { b.n.add_options()("help,h", ""); b.w.add_options()("help,h", ""); }
static std::vector<std::shared_ptr<Both> > build()
{
    std::vector<std::shared_ptr<Both> > r; std::shared_ptr<Both> b(new Both); b->name = "texts"; flags(*b);
    b->both<string, W>("name,n"); b->both<Strs, Ws>("list,l", true, true); b->both<string, W>("gr\xc3\xb6\xc3\x9f" "e"); b->both<Strs, Ws>("rest"); b->pos.add("rest", -1);
    b->n.add_options()("opt,o", po::value<string>()->implicit_value("\xc3\xa9")->default_value("d\xc3\xa9"), ""); b->w.add_options()("opt,o", po::wvalue<W>()->implicit_value(L"\u00e9", "x")->default_value(L"d\u00e9", "x"), "");
    r.push_back(b);
    b.reset(new Both); b->name = "numbers"; flags(*b); b->both<int, int>("name,n"); b->both<std::vector<int>, std::vector<int> >("list,l", true); b->both<bool, bool>("gr\xc3\xb6\xc3\x9f" "e"); b->both<double, double>("rest"); b->both<boost::optional<int>, boost::optional<int> >("opt,o"); b->pos.add("rest", 1).add("opt", 1); r.push_back(b);
    b.reset(new Both); b->name = "narrow text from wide values"; flags(*b); b->both<string, string>("name,n"); b->both<Strs, Strs>("list,l", true); b->both<Strs, Strs>("rest"); b->pos.add("name", 1).add("rest", -1); r.push_back(b);
    return r;
}
// both declaration forms, both input widths: one typed result
static void store4(Run& R, const Both& b, const std::function<po::parsed_options(const po::options_description&)>& pn, const std::function<po::wparsed_options(const po::options_description&)>& pw, const string& key)
{
    string a[4] = { stored([&] { return pn(b.n); }), stored([&] { return pn(b.w); }), stored([&] { return pw(b.n); }), stored([&] { return pw(b.w); }) };
    R.trace(); R.trace(); R.trace(); R.trace();
    const char* what[4] = { "narrow", "narrow input, wide values", "wide input, narrow values", "wide input, wide values" };
    for (int i = 1; i < 4; ++i) if (a[i] != a[0]) R.fail(key, "as narrow: " + a[0], string(what[i]) + ": " + a[i], "stored values");
}
static void cmd(Run& R, const Both& b, const Strs& t, int style, bool unreg, bool pos, bool typed, const string& as = "")
{
    if (!R.begin()) return;
    string key = as.empty() ? b.name + " style " + mc::num(style) + (unreg ? " unregistered allowed" : "") + (pos ? "" : " no positionals") + " args " + mc::q(t) : as;
    Ws w = dec(t); Res x, y, z; R.state(mc::hstr(mc::q(t))); R.transitions(t.size());
    auto pn = [&](const po::options_description& d) { po::command_line_parser p(t); p.options(d); if (style) p.style(style); if (unreg) p.allow_unregistered(); if (pos) p.positional(b.pos); return p.run(); };
    auto pw = [&](const po::options_description& d) { po::wcommand_line_parser p(w); p.options(d); if (style) p.style(style); if (unreg) p.allow_unregistered(); if (pos) p.positional(b.pos); return p.run(); };
    Strs cn, cw; const po::options_description* back = 0;
    try { po::parsed_options p = pn(b.n); x = cm::toRes(p); cn = po::collect_unrecognized(p.options, po::include_positional); } catch (...) { x = current(); }
    try { po::wparsed_options p = pw(b.n); y = toRes(p); cw = enc(po::collect_unrecognized(p.options, po::include_positional)); z = cm::toRes(p.utf8_encoded_options); back = p.description; } catch (...) { y = current(); }
    R.trace();
    if (!(x == y)) R.fail(key, "as narrow: " + x.str(), y.str());
    else if (!x.err && !(z == x)) R.fail(key, "UTF-8 form " + x.str(), z.str());
    else if (!x.err && back != &b.n) R.fail(key, "the description", "another description");
    if (cn != cw) R.fail(key, mc::q(cn), mc::q(cw), "unrecognized");
    bool nul = false; for (size_t i = 0; i < t.size(); ++i) if (t[i].find('\0') != string::npos) nul = true;
    if (!nul && !unreg && pos) {   // argv form
        std::vector<const wchar_t*> av; av.push_back(L"prog"); for (size_t i = 0; i < w.size(); ++i) av.push_back(w[i].c_str()); av.push_back(0); Res v;
        try { v = toRes(po::basic_command_line_parser<wchar_t>((int)av.size() - 1, &av[0]).options(b.n).positional(b.pos).style(style ? style : (int)st::default_style).run()); } catch (...) { v = current(); }
        R.trace(); if (!(x == v)) R.fail(key, "argv as narrow: " + x.str(), v.str());
        Res nx, nv; try { po::command_line_parser p(t); p.options(b.n); if (style) p.style(style); nx = cm::toRes(p.run()); } catch (...) { nx = current(); }
        try { nv = toRes(po::parse_command_line((int)av.size() - 1, &av[0], b.n, style)); } catch (...) { nv = current(); }
        R.trace(); if (!(nx == nv)) R.fail(key, "parse_command_line as narrow: " + nx.str(), nv.str());
    }
    if (typed) store4(R, b, pn, pw, key);
    if (R.want_sample()) R.sample(key + " -> " + y.str());
    R.end(x.hash());
}
static void cfg(Run& R, const Both& b, const string& text, bool unreg, bool typed)
{
    if (!R.begin()) return;
    string key = b.name + (unreg ? " unregistered allowed" : "") + " text " + mc::q(text); Res x, y; R.state(mc::hstr(text)); R.transitions(1);
    auto pn = [&](const po::options_description& d) { std::istringstream is(text); return po::parse_config_file(is, d, unreg); };
    auto pw = [&](const po::options_description& d) { std::wistringstream is(dec(text)); return po::parse_config_file(is, d, unreg); };
    try { x = cm::toRes(pn(b.n)); } catch (...) { x = current(); } try { y = toRes(pw(b.n)); } catch (...) { y = current(); }
    R.trace(); if (!(x == y)) R.fail(key, "as narrow: " + x.str(), y.str());
    if (typed) store4(R, b, pn, pw, key);
    if (R.want_sample()) R.sample(key + " -> " + y.str());
    R.end(x.hash());
}
static void file(Run& R, const Both& b, const string& text)
{
    if (!R.begin()) return;
    char name[] = "/tmp/mcC11-XXXXXX"; int fd = mkstemp(name); if (fd < 0) abort(); if (write(fd, text.data(), text.size()) != (ssize_t)text.size()) abort(); close(fd);
    Res x, y; try { x = cm::toRes(po::parse_config_file<char>(name, b.n, true)); } catch (...) { x = current(); } try { y = toRes(po::parse_config_file<wchar_t>(name, b.n, true)); } catch (...) { y = current(); }
    unlink(name); R.trace(); if (!(x == y)) R.fail("file " + mc::q(text), "as narrow: " + x.str(), y.str()); R.end(x.hash());
}
// local encodings other than UTF-8: one byte per character, and two bytes of which the second may look like ASCII
struct OneByte : std::codecvt<wchar_t, char, std::mbstate_t> {
    result do_out(state_type&, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const { for (fn = f, tn = t; fn != fe; ++fn) { if (tn == te) return partial; if ((unsigned long)*fn > 255) return error; *tn++ = (char)*fn; } return ok; }
    result do_in(state_type&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const { for (fn = f, tn = t; fn != fe; ++fn) { if (tn == te) return partial; *tn++ = (unsigned char)*fn; } return ok; }
    result do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return ok; }
    bool do_always_noconv() const throw() { return false; } int do_encoding() const throw() { return 1; } int do_max_length() const throw() { return 1; }
};
struct TwoByte : std::codecvt<wchar_t, char, std::mbstate_t> {
    result do_out(state_type&, const wchar_t* f, const wchar_t* fe, const wchar_t*& fn, char* t, char* te, char*& tn) const { for (fn = f, tn = t; fn != fe; ++fn) { unsigned long c = *fn; if (c >= 0x4000) return error; if (te - tn < (c < 128 ? 1 : 2)) return partial; if (c >= 128) *tn++ = (char)(0x80 | (c >> 7)); *tn++ = (char)(c & 0x7f); } return ok; }
    result do_in(state_type&, const char* f, const char* fe, const char*& fn, wchar_t* t, wchar_t* te, wchar_t*& tn) const { for (fn = f, tn = t; fn != fe;) { if (tn == te) return partial; unsigned char b = *fn; if (b < 128) { *tn++ = b; ++fn; continue; } if (fe - fn < 2) return partial; if (b == 0x80 || (unsigned char)fn[1] > 0x7f) return error; *tn++ = (wchar_t)((b & 0x7f) << 7 | fn[1]); fn += 2; } return ok; }
    result do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return ok; }
    bool do_always_noconv() const throw() { return false; } int do_encoding() const throw() { return 0; } int do_max_length() const throw() { return 2; }
};
static bool local(int e, const W& w, string& r)
{
    r.clear();
    for (size_t i = 0; i < w.size(); ++i) { unsigned long c = w[i]; if (c >= (e ? 0x4000u : 256u)) return false; if (e && c >= 128) { r += (char)(0x80 | (c >> 7)); r += (char)(c & 0x7f); } else r += (char)c; }
    return true;
}
static void encoded(Run& R, int e, const Both& b, const W& v, bool config)
{
    if (!R.begin()) return;
    string lv; bool fits = local(e, v, lv); string key = string(e ? "two-byte" : "one-byte") + " local encoding, value " + mc::q(enc(v)) + (config ? " in a configuration text" : ""); R.state(mc::hstr(key)); R.transitions(1);
    for (int wi = 0; wi < 2; ++wi) for (int wd = 0; wd < 2; ++wd) {
        if (!wi && !fits) continue;
        const po::options_description& d = wd ? b.w : b.n; string got, want; bool err = false, werr = wi && !wd && !fits; R.trace();
        try {
            po::variables_map m;
            if (config && wi) { std::wistringstream is(L"name=" + v + L"\nlist=" + v + L"\nlist=x\n"); po::store(po::parse_config_file(is, d), m); }
            else if (config) { std::istringstream is("name=" + lv + "\nlist=" + lv + "\nlist=x\n"); po::store(po::parse_config_file(is, d), m); }
            else if (wi) { Ws a; a.push_back(L"--name=" + v); a.push_back(v); a.push_back(L"-l"); a.push_back(L"y" + v); a.push_back(L"-h"); po::store(po::wcommand_line_parser(a).options(d).positional(b.pos).run(), m); }
            else { Strs a; a.push_back("--name=" + lv); a.push_back(lv); a.push_back("-l"); a.push_back("y" + lv); a.push_back("-h"); po::store(po::command_line_parser(a).options(d).positional(b.pos).run(), m); }
            const char* ks[] = {"name", "list", "rest"};
            for (int k = 0; k < 3; ++k) { if (!m.count(ks[k])) continue; got += string(ks[k]) + "="; if (wd) { if (k) { const Ws& x = m[ks[k]].as<Ws>(); for (size_t i = 0; i < x.size(); ++i) got += mc::q(enc(x[i])) + ","; } else got += mc::q(enc(m[ks[k]].as<W>())); } else { if (k) { const Strs& x = m[ks[k]].as<Strs>(); for (size_t i = 0; i < x.size(); ++i) got += mc::q(x[i]) + ","; } else got += mc::q(m[ks[k]].as<string>()); } got += ";"; }
        } catch (std::exception& x) { err = true; got = x.what(); }
        string one = wd ? enc(v) : lv;
        want = config ? "name=" + mc::q(one) + ";list=" + mc::q(one) + "," + mc::q("x") + ",;" : "name=" + mc::q(one) + ";list=" + mc::q("y" + one) + ",;rest=" + mc::q(one) + ",;";
        if (err != werr || (!err && got != want)) R.fail(key, werr ? "a conversion error" : want, (err ? "error " : "") + got, string(wi ? "wide" : "narrow") + " input, " + (wd ? "wide" : "narrow") + " value type");
    }
    R.end(mc::hstr(key));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    std::locale::global(std::locale(std::locale::classic(), new po::detail::utf8_codecvt_facet));
    std::vector<std::shared_ptr<Both> > bs = build();
    const int all = st::default_style, dis = all | st::allow_long_disguise, sl = all | st::allow_slash_for_short | st::case_insensitive;
    Strs al = S({"--name=\xc3\xa9", "--name", "-n", "-n\xe6\xbc\xa2", "-hn\xf0\x9f\x98\x80=x", "--gr\xc3\xb6\xc3\x9f" "e=1", "--gr\xc3\xb6=yes", "-l", "\xe6\xbc\xa2\xe5\xad\x97", "12", "7\xc3\xa9", "--", "-h", "--opt", "-o\xc3\xa9", "--opt=", "--list=3", "", "--unk\xc3\xb6wn=\xf0\x9f\x98\x80", "plain", "/n\xc3\xa9", "--NAME=1", "-name=\xc2\x85"});
    R.space("command lines", T ? "every sequence of 0..3 of 23 tokens x 3 value type sets x 3 styles x unregistered allowed or not, typed values from both widths" : "every sequence of 0..2 of 23 tokens x 3 value type sets x 3 styles x unregistered allowed or not, of 3 tokens for one combination each, typed values from both widths");
    for (size_t k = 0; k < bs.size(); ++k) for (int s = 0; s < 3; ++s) for (int u = 0; u < 2; ++u) { int style = s == 0 ? 0 : s == 1 ? dis : sl; sequences(al, 0, T || (s == (int)k % 3 && u == (int)k % 2) ? 3 : 2, [&](const std::vector<int>& ix) { cmd(R, *bs[k], pick(al, ix), style, u, true, true); }); }
    R.space("no positionals, custom styles", "every sequence of 0..2 (thorough 3) of 23 tokens under 40 valid styles");
    std::vector<int> ss = styles(0, { st::allow_long, st::long_allow_adjacent, st::long_allow_next, st::allow_short, st::allow_dash_for_short, st::allow_slash_for_short, st::short_allow_adjacent, st::short_allow_next, st::allow_guessing, st::long_case_insensitive, st::allow_sticky, st::allow_long_disguise });
    for (size_t s = 0; s < ss.size(); s += (ss.size() / (T ? 400 : 80)) | 1) sequences(al, 0, T ? 2 : 2, [&](const std::vector<int>& ix) { cmd(R, *bs[0], pick(al, ix), ss[s], s & 1, false, false); });
    R.space("configuration texts", T ? "every sequence of 0..4 of 20 lines x 3 value type sets, with and without final newline" : "every sequence of 0..3 of 20 lines x 3 value type sets, with and without final newline");
    Strs ln = S({"name=\xc3\xa9", " name = \xc2\x85x\xc2\xa0 ", "list=1", "list=\xf0\x9f\x98\x80 # \xe6\xbc\xa2", "gr\xc3\xb6\xc3\x9f" "e=on", "[\xc3\xa9]", "\xc3\xa4=1", "# \xe2\x80\xa8", "junk \xc3\xa9", "", "opt=\xe2\x80\xa8", "rest=1.5", "name=\xe3\x80\x80", "[s]", "help=", "\xc2\xa0=2", "[ \xe3\x80\x80 ]", "rest=\xc3\xa9=\xc3\xa9", "name=7\r", "opt=3"});
    for (size_t k = 0; k < bs.size(); ++k) sequences(ln, 0, T ? 4 : 3, [&](const std::vector<int>& ix) { Strs p = pick(ln, ix); string t; for (size_t i = 0; i < p.size(); ++i) t += p[i] + "\n"; cfg(R, *bs[k], t, ix.size() & 1, ix.size() < 4); if (!t.empty()) { t.erase(t.size() - 1); cfg(R, *bs[k], t, true, ix.size() < 3); } });
    R.space("every character", "every character 1..10ffff without surrogates (quick: all below 3000 hex, then every 16th plus block ends) in values, names, positionals and configuration entries");
    for (unsigned long c = 1; c < 0x110000; ++c) {
        if (c >= 0xd800 && c < 0xe000) continue; if (!T && c >= 0x3000 && c % 16 != 5 && (c & 0xff) > 1 && (c & 0xff) < 0xfe) continue;
        string e = enc1(c); Strs t; t.push_back("--name=" + e + "x" + e); t.push_back("p" + e); t.push_back("--l\xc3\xb6" + e + "ng=1"); t.push_back("-n" + e); cmd(R, *bs[0], t, 0, true, true, false);
        t.resize(2); cmd(R, *bs[0], t, 0, false, true, true);
        cfg(R, *bs[0], "n" + e + "=1\nname=v" + e + "w\n[" + e + "]\nk=" + e + "\n", true, false); cfg(R, *bs[0], "name=a" + e + "\nlist=" + e + e + "\n", false, true);
    }
    R.space("lengths", "texts of 7 kinds of characters of every length 0..300, and mixed ones, as value, name, positional and configuration entry");
    const unsigned long kinds[7] = { 'a', 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff };
    for (int k = 0; k < 14; ++k) for (int n = 0; n <= (T ? 1100 : 300); ++n) {
        string v; for (int i = 0; i < n; ++i) v += enc1(kinds[k < 7 ? k : (i + k) % 7 == 0 ? k - 7 : (i * k) % 7]);
        Strs t; t.push_back("--name=" + v); t.push_back("q" + v); t.push_back("-l"); t.push_back("x" + v); cmd(R, *bs[0], t, 0, false, true, n < 140); t.push_back("--z" + v + "=" + v); cmd(R, *bs[0], t, 0, true, true, false);
        cfg(R, *bs[0], "name=" + v + "\nq" + v + "=" + v + "\n#" + v + "\n[s" + v + "]\na=1\n", true, false); cfg(R, *bs[0], "list=x" + v + "x\nname=y" + v, false, n < 140);
    }
    for (int n = 1; n <= 260; ++n) for (int at = 0; at < n; at += (T ? 1 : 1 + n / 16)) { Strs t(n, "p"); t[at] = "\xc3\xa9"; cmd(R, *bs[0], t, 0, false, true, n < 70); string x; for (int i = 0; i < n; ++i) x += i == at ? "list=\xc3\xa9\n" : "list=p\n"; cfg(R, *bs[0], x, false, n < 70); }
    R.space("numbers of tokens", "1..80 and sizes to 600 of: values of one option, occurrences, positionals, unknown options, configuration entries, in 3 declarations, with and without unregistered options");
    { std::vector<int> ns; for (int n = 1; n <= 80; ++n) ns.push_back(n); for (int b = 128; b <= 512; b *= 2) for (int k = -2; k <= 2; ++k) ns.push_back(b + k); ns.push_back(100); ns.push_back(600);
      for (size_t b = 0; b < bs.size(); ++b) for (size_t i = 0; i < ns.size(); ++i) for (int f = 0; f < 7; ++f) for (int u = 0; u < 2; ++u) {
        int n = ns[i]; Strs t; string x; if (f == 0) t.push_back("--list"); if (f == 5) t.push_back("--list=1");
        for (int k = 0; k < n; ++k) { string v = b == 1 ? mc::num(k) : (k % 3 ? "v" : "\xc3\xa9") + mc::num(k); t.push_back(f == 0 || f == 1 || f == 5 ? v : f == 2 ? "--list=" + v : f == 3 ? "-l" + v : f == 4 ? (k % 2 ? v : "--z" + v) : k % 4 == 3 ? "--z" + v : k % 4 ? v : "--list"); x += (f == 4 && k % 2 ? "z" + v : "list") + "=" + v + "\n"; }
        if (f == 1 && b == 1 && n > 2) { } cmd(R, *bs[b], t, 0, u, f % 2 || b == 0, n < 90); if (f == 2 || f == 4) cfg(R, *bs[b], x, u, n < 90);
      } }
    R.space("numbers and words", "every text of length 0..4 over 0 1 - + . x e space (thorough 5) and 40 words as typed values of either width");
    auto typed = [&](const string& v) { Strs t; t.push_back("--name=" + v); cmd(R, *bs[1], t, 0, false, true, true); t[0] = "--gr\xc3\xb6\xc3\x9f" "e=" + v; cmd(R, *bs[1], t, 0, false, true, true); t[0] = "--rest=" + v; cmd(R, *bs[1], t, 0, false, true, true); t[0] = "--opt=" + v; cmd(R, *bs[1], t, 0, false, true, true); t[0] = "-l"; t.push_back("5"); t.push_back(v); cmd(R, *bs[1], t, 0, false, true, true); };
    texts("01-+.xe ", 0, T ? 5 : 4, typed);
    Strs ws = S({"2147483647", "2147483648", "-2147483648", "-2147483649", "true", "TRUE", "Yes", "oN", "off", "NO", "false", "fAlSe", "truex", "\xc3\xa9", "1\xc3\xa9", "\xd9\xa1", "\xef\xbc\x91", "0x10", "1e3", "1e400", "inf", "nan", "1.5", ".5", "5.", "1,000", "1 ", " 1", "\t1", "tr\xc3\xbc" "e", "%value%", "'", "\\"});
    for (size_t i = 0; i < ws.size(); ++i) typed(ws[i]);
    R.space("embedded zero", "values and names with a zero character, vector form and configuration");
    for (int k = 0; k < 3; ++k) { string z("a\0b", 3); Strs t; t.push_back("--name=" + z); t.push_back(z); cmd(R, *bs[2 * (k & 1)], t, 0, k == 2, true, true); cfg(R, *bs[0], "name=" + z + "\n" + z + "=" + z + "\n", true, false); }
    R.space("files", "files of 0..2 of 20 lines, read through the wide and the narrow file name interface");
    sequences(ln, 0, 2, [&](const std::vector<int>& ix) { Strs p = pick(ln, ix); string t; for (size_t i = 0; i < p.size(); ++i) t += p[i] + "\n"; file(R, *bs[0], t); });
    for (int n = 0; n < 40; ++n) { string v; for (int i = 0; i < n * 700; ++i) v += enc1(kinds[(i * 3 + n) % 7]); file(R, *bs[0], "name=" + v + "\nlist=" + v + "\n"); }
    R.space("unregistered short options", "groups of letters and a non-ASCII character with unregistered options allowed");
    Strs sh = S({"-\xc3\xa9", "-h\xc3\xa9", "-\xe6\xbc\xa2x", "-z\xc3\xa9"});
    for (size_t i = 0; i < sh.size(); ++i) for (int u = 0; u < 2; ++u) cmd(R, *bs[0], Strs(1, sh[i]), 0, u, true, false, "non-ASCII short option " + sh[i].substr(0, 1) + mc::q(sh[i].substr(1)) + (u ? " unregistered allowed" : ""));
    R.space("classic locale", "every sequence of 0..2 (thorough 3) of 16 ASCII tokens under the classic locale");
    std::locale::global(std::locale::classic());
    Strs as = S({"--name=x", "--name", "-n", "-n5", "-hn", "-l", "12", "a b", "--", "--opt", "-o7", "--list=3", "", "--unknown=2", "-h", "--gr"});
    for (size_t k = 0; k < bs.size(); ++k) for (int u = 0; u < 2; ++u) sequences(as, 0, T ? 3 : 2, [&](const std::vector<int>& ix) { cmd(R, *bs[k], pick(as, ix), 0, u, true, k > 0); });
    R.space("other local encodings", "a one-byte and a two-byte local encoding: every character they hold and the ones just beyond, alone and in texts of 1..3 (thorough 4) of 8 characters, of every length 1..200; both input widths, both value widths, command line and configuration text");
    for (int e = 0; e < 2; ++e) {
        if (e) std::locale::global(std::locale(std::locale::classic(), new TwoByte)); else std::locale::global(std::locale(std::locale::classic(), new OneByte));
        for (unsigned long c = 1; c < (e ? 0x4100ul : 0x180ul); ++c) {
            bool odd = c == '\n' || c == '\r' || c == '#' || c == ' ' || c == '\t' || (e && c >= 128); 
            W w = L"v"; w += (wchar_t)c; encoded(R, e, *bs[0], w, false); w += L"w"; encoded(R, e, *bs[0], w, false); if (!odd) encoded(R, e, *bs[0], w, true);
            w.assign(1, (wchar_t)c); if (c != '-' && !(e && c >= 128)) encoded(R, e, *bs[0], w, false);
        }
        const wchar_t cs[8] = { L'a', L'%', 0xe9, 0xa0, 0x7f, 0xff, wchar_t(e ? 0x2022 : 0x80), wchar_t(e ? 0x5001 : 0x100) };
        for (int n = 1; n <= (T ? 5 : 4); ++n) { long k = 1; for (int i = 0; i < n; ++i) k *= 8; for (long x = 0; x < k; ++x) { W w; long y = x; for (int i = 0; i < n; ++i, y /= 8) w += cs[y % 8]; encoded(R, e, *bs[0], w, false); bool hi = false; for (size_t i = 0; i < w.size(); ++i) hi |= (unsigned long)w[i] >= 128; if (!e || !hi) encoded(R, e, *bs[0], w, w.find(L'\xa0') != 0 ); } }
        for (int n = 1; n <= 200; ++n) for (int k = 0; k < 3; ++k) { W w; for (int i = 0; i < n; ++i) w += k == 0 ? wchar_t(0xe9) : k == 1 ? cs[i % 3] : i == n - 1 ? wchar_t(0xfe) : L'b'; encoded(R, e, *bs[0], w, false); if (!e) encoded(R, e, *bs[0], w, true); }
    }
    std::locale::global(std::locale::classic());
}
