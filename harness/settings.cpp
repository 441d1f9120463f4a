// C33 parser settings and entry points, C34 option settings.
#include "cmdspaces.hpp"
#include "vmmodel.hpp"
#include <unistd.h>
extern char** environ;
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static std::vector<std::wstring> W(const Strs& t) { std::vector<std::wstring> r; for (size_t i = 0; i < t.size(); ++i) r.push_back(std::wstring(t[i].begin(), t[i].end())); return r; }
static const int UNIX = st::unix_style;
static string label(const std::vector<string>& names, const std::vector<int>& ix) { string s; for (size_t i = 0; i < ix.size(); ++i) s += (i ? " " : "") + names[ix[i]]; return s; }

#if PROP == 33
const char* mc::property = "C33";
static Res narrowOf(const po::wparsed_options& p)
{   // the probes are ASCII
    Res r; r.prefix = p.m_options_prefix;
    for (size_t i = 0; i < p.options.size(); ++i) { const po::woption& o = p.options[i]; ROpt x; x.key = o.string_key; x.pos = o.position_key; x.unreg = o.unregistered; x.ci = o.case_insensitive; for (size_t k = 0; k < o.value.size(); ++k) x.val.push_back(string(o.value[k].begin(), o.value[k].end())); for (size_t k = 0; k < o.original_tokens.size(); ++k) x.orig.push_back(string(o.original_tokens[k].begin(), o.original_tokens[k].end())); r.opts.push_back(x); }
    return r;
}
struct Set { string name; char kind; int n; };
static std::pair<string, string> extra0(const string& t) { return t == "@x" ? std::make_pair(string("foo"), string("X")) : std::make_pair(string(), string()); }
static std::pair<string, string> extra1(const string& t) { return t == "@y" || t == "--fo" ? std::make_pair(string("bar"), string()) : std::make_pair(string(), string()); }
static void list0(Strs& a, std::vector<ROpt>& o) { if (a[0] == "@y") { ROpt r; r.key = "foo"; r.val.push_back("Y"); r.orig.push_back(a[0]); o.push_back(r); a.erase(a.begin()); } }
static void list1(Strs& a, std::vector<ROpt>& o) { if ((a[0] == "@z" || a[0] == "--bar") && a.size() > 1) { ROpt r; r.key = "many"; r.val.push_back(a[1]); r.orig.assign(a.begin(), a.begin() + 2); o.push_back(r); a.erase(a.begin(), a.begin() + 2); } }
typedef std::function<std::vector<po::option>(Strs&)> LP;
static LP realList(void (*f)(Strs&, std::vector<ROpt>&)) { return [f](Strs& a) { std::vector<ROpt> o; f(a, o); std::vector<po::option> r(o.size()); for (size_t i = 0; i < o.size(); ++i) { r[i].string_key = o[i].key; r[i].position_key = o[i].pos; r[i].value = o[i].val; r[i].original_tokens = o[i].orig; } return r; }; }
struct Eff { int o, p, s, u, e, y; Eff() : o(-1), p(-1), s(0), u(0), e(-1), y(-1) {} bool operator<(const Eff& b) const { return std::make_tuple(o, p, s, u, e, y) < std::make_tuple(b.o, b.p, b.s, b.u, b.e, b.y); } };
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    const int STY[3] = {0, UNIX | st::allow_slash_for_short | st::allow_long_disguise, (UNIX & ~st::allow_guessing & ~st::allow_sticky) | st::case_insensitive};
    Gram A, B; A.o("foo,f", "str").o("bar,b", "flag").o("many,m", "multi").o("opt,o", "impl"); B.o("food,f", "str").o("many", "multi").o("bar,x", "str").o("foo", "impl").o("last,l", "vec");
    Gram base[2] = {A, B}; std::unique_ptr<Real> real[2]; for (int i = 0; i < 2; ++i) real[i].reset(new Real(base[i]));
    po::positional_options_description P[3]; std::vector<std::pair<string, int> > PM[3];
    P[0].add("many", -1); PM[0].push_back(std::make_pair("many", -1)); P[1].add("foo", 1).add("bar", 1); PM[1].push_back(std::make_pair("foo", 1)); PM[1].push_back(std::make_pair("bar", 1));
    Set L[] = { {"options(A)", 'O', 0}, {"options(B)", 'O', 1}, {"positional(many*)", 'P', 0}, {"positional(foo,bar)", 'P', 1}, {"positional()", 'P', 2}, {"style(0)", 'S', 0}, {"style(slash,disguise)", 'S', 1}, {"style(exact,caseless)", 'S', 2}, {"allow_unregistered", 'U', 0},
        {"extra_parser(a)", 'E', 0}, {"extra_parser(b)", 'E', 1}, {"extra_parser(none)", 'E', 2}, {"extra_style_parser(a)", 'Y', 0}, {"extra_style_parser(b)", 'Y', 1}, {"extra_style_parser(none)", 'Y', 2}, {"style(invalid)", 'S', 3} };
    const int NL = sizeof L / sizeof *L; std::vector<string> names; for (int i = 0; i < NL; ++i) names.push_back(L[i].name);
    std::vector<Strs> probe = { S({"--foo=1", "p", "q"}), S({"-f", "1", "/b"}), S({"--FOO=1", "r"}), S({"--fo", "1"}), S({"--nope=1", "p"}), S({"@x", "@y", "p"}), S({"@z", "p", "--foo", "2"}), S({"-bfv", "--", "--foo=1"}), S({"p", "--bar", "q", "r"}), S({"-many", "1", "--opt", "2"}), S({}) };
    std::map<std::pair<Eff, int>, Res> memo;
    auto expect = [&](const Eff& e, int k) -> const Res& {
        auto it = memo.find(std::make_pair(e, k)); if (it != memo.end()) return it->second;
        Gram g = base[e.o]; g.style = STY[e.s]; g.unreg = e.u; if (e.p >= 0) { g.usepos = true; g.pos = PM[e.p]; }
        Model m(g, &R, g.hash()); if (e.e == 0) m.extra = extra0; if (e.e == 1) m.extra = extra1; if (e.y == 0) m.sp = list0; if (e.y == 1) m.sp = list1;
        return memo[std::make_pair(e, k)] = m.parse(probe[k]);
    };
    auto effect = [&](const std::vector<int>& ix) { Eff e; for (size_t i = 0; i < ix.size(); ++i) { const Set& s = L[ix[i]]; switch (s.kind) { case 'O': e.o = s.n; break; case 'P': e.p = s.n; break; case 'S': if (s.n < 3) e.s = s.n; break; case 'U': e.u = 1; break; case 'E': e.e = s.n == 2 ? -1 : s.n; break; case 'Y': e.y = s.n == 2 ? -1 : s.n; break; } } return e; };
    LP lp[2] = { realList(list0), realList(list1) };
    string odd;
    auto apply = [&](auto& p, const Set& s) {
        typedef typename std::remove_reference<decltype(p)>::type Parser; Parser* r = &p;
        switch (s.kind) {
        case 'O': r = &p.options(real[s.n]->desc); break; case 'P': r = &p.positional(P[s.n]); break;
        case 'S': if (s.n == 3) { try { p.style(st::allow_long); odd = "style(allow_long) alone was accepted"; } catch (const po::invalid_command_line_style&) {} } else r = &p.style(STY[s.n]); break;
        case 'U': r = &p.allow_unregistered(); break;
        case 'E': if (s.n == 2) r = &p.extra_parser(po::ext_parser()); else r = &p.extra_parser(s.n ? extra1 : extra0); break;
        case 'Y': if (s.n == 2) r = &p.extra_style_parser(typename Parser::style_parser()); else r = &p.extra_style_parser(lp[s.n]); break; }
        if (r != &p) odd = s.name + " returned another parser";
    };
    auto hasO = [&](const std::vector<int>& ix) { for (size_t i = 0; i < ix.size(); ++i) if (L[ix[i]].kind == 'O') return true; return false; };
    auto one = [&](const std::vector<int>& ix, int k, int way) {
        if (!R.begin()) return; Eff e = effect(ix); const Res& w = expect(e, k); Res x; const void* d = 0; const void* wd = &real[e.o]->desc; odd.clear();
        try {
            const Strs& t = probe[k]; std::vector<const char*> av(1, "prog"); std::vector<std::wstring> wt; std::vector<const wchar_t*> wav(1, L"prog");
            if (way == 1) { for (size_t i = 0; i < t.size(); ++i) av.push_back(t[i].c_str()); av.push_back(0); } if (way > 1) { wt = W(t); if (way == 3) { for (size_t i = 0; i < t.size(); ++i) wav.push_back(wt[i].c_str()); wav.push_back(0); } }
            if (way < 2) { po::command_line_parser p = way ? po::command_line_parser((int)t.size() + 1, &av[0]) : po::command_line_parser(t); for (size_t i = 0; i < ix.size(); ++i) apply(p, L[ix[i]]); po::parsed_options r = p.run(); d = r.description; x = toRes(r); }
            else { po::wcommand_line_parser p = way == 3 ? po::wcommand_line_parser((int)t.size() + 1, &wav[0]) : po::wcommand_line_parser(wt); for (size_t i = 0; i < ix.size(); ++i) apply(p, L[ix[i]]); po::wparsed_options r = p.run(); d = r.description; x = narrowOf(r); if (r.utf8_encoded_options.description != d) odd = "the two descriptions of a wide result differ"; }
        } catch (...) { x = current(); }
        static const char* WAY[4] = {"", " (argc, argv)", " (wide)", " (wide argc, argv)"};
        R.trace(); R.transitions(ix.size() + probe[k].size()); R.state(mc::mix(mc::hstr(label(names, ix)), k * 4 + way));
        string what = label(names, ix) + WAY[way] + " args=" + mc::q(probe[k]);
        if (!odd.empty()) R.fail(what, "every setting returns the parser it was applied to and nothing else", odd);
        else if (!(x == w)) R.fail(what, w.str(), x.str()); else if (!x.err && d != wd) R.fail(what, "result refers to the last description given", "another description");
        if (R.want_sample()) R.sample(what + " -> " + x.str());
        R.end(x.hash());
    };
    R.space("settings in any order", T ? "every sequence of 1..5 of 16 parser settings (2 descriptions, 3 positional declarations, 4 styles (one invalid), unregistered, extra parsers set and cleared) with a description in it: the last of each kind counts; 11 token lists, vector and argc/argv, narrow and wide"
                                     : "every sequence of 1..4 of 16 parser settings (2 descriptions, 3 positional declarations, 4 styles (one invalid), unregistered, extra parsers set and cleared) with a description in it: the last of each kind counts; 11 token lists, vector and argc/argv, narrow and wide");
    Strs dummy(NL, "");
    sequences(dummy, 1, T ? 5 : 4, [&](const std::vector<int>& ix) { if (!hasO(ix)) return; size_t l = ix.size(); for (int k = 0; k < (int)probe.size(); ++k) for (int way = 0; way < (l < 4 ? 4 : 1); ++way) one(ix, k, l < 4 ? way : (ix[0] + ix[1] + ix[2] + ix[3] + k) % 4); });
    R.space("all orders of a full set", "every order of 6 settings, one of each kind, for every choice of them (2 x 3 x 4 x 1 x 3 x 3), 11 token lists");
    {
        std::vector<int> byKind[6]; const char kinds[] = "OPSUEY"; for (int i = 0; i < NL; ++i) for (int k = 0; k < 6; ++k) if (L[i].kind == kinds[k]) byKind[k].push_back(i);
        int c[6] = {0, 0, 0, 0, 0, 0};
        for (;;) {
            std::vector<int> ix; for (int k = 0; k < 6; ++k) ix.push_back(byKind[k][c[k]]);
            std::sort(ix.begin(), ix.end());
            do { int h = 0; for (size_t i = 0; i < 6; ++i) h = h * 7 + ix[i]; for (int k = 0; k < (int)probe.size(); ++k) { if (!T && (k + h) % 2) continue; one(ix, k, (h + k) % 5 == 0 ? 2 : (h + k) % 7 == 0 ? 1 : 0); } } while (std::next_permutation(ix.begin(), ix.end()));
            int k = 5; while (k >= 0 && ++c[k] == (int)byKind[k].size()) c[k--] = 0; if (k < 0) break;
        }
    }
    // ---- parse_command_line against the parser object
    R.space("the shorthand", "parse_command_line with 3, 4 and 5 arguments, narrow and wide, const and non-const argv, a temporary and a named parser, against the model: every list of 0..3 of 18 tokens, 3 styles, 3 extra parsers, 2 descriptions");
    {
        Strs al = S({"--foo=1", "--foo", "-f", "-fv", "/f", "p", "--", "-b", "--bar", "@x", "@y", "--fo", "--nope", "-many", "--FOO=2", "", "-bfz", "--opt"});
        for (int o = 0; o < 2; ++o) for (int s = 0; s < 3; ++s) for (int e = -1; e < 2; ++e) {
            Gram g = base[o]; g.style = STY[s]; u64 gh = mc::mix(g.hash(), e + 5); const po::options_description& d = real[o]->desc; po::ext_parser ep; if (e >= 0) ep = e ? extra1 : extra0;
            sequences(al, 0, T ? 4 : 3, [&](const std::vector<int>& ix) {
                if (!R.begin()) return; Strs t = pick(al, ix); Model m(g, &R, gh); if (e >= 0) m.extra = e ? TokParser(extra1) : TokParser(extra0); Res w = m.parse(t);
                std::vector<const char*> av(1, "--foo"); for (size_t i = 0; i < t.size(); ++i) av.push_back(t[i].c_str()); av.push_back(0); int argc = (int)t.size() + 1; std::vector<std::wstring> wt = W(t); std::vector<const wchar_t*> wav(1, L"--foo"); for (size_t i = 0; i < t.size(); ++i) wav.push_back(wt[i].c_str()); wav.push_back(0);
                R.trace(); R.transitions(t.size());
                auto check = [&](const char* how, auto f) { Res x; try { x = f(); } catch (...) { x = current(); } if (!(x == w)) { R.fail(string(how) + " " + g.str() + " args=" + mc::q(t) + (e >= 0 ? " with extra parser" : ""), w.str(), x.str()); return false; } return true; };
                const char* const* ca = &av[0]; char** ma = const_cast<char**>(&av[0]);
                check("parse_command_line", [&] { return toRes(po::parse_command_line(argc, ca, d, STY[s], ep)); })
                && check("parse_command_line, char**", [&] { return toRes(po::parse_command_line(argc, ma, d, STY[s], ep)); })
                && check("wide parse_command_line", [&] { return narrowOf(po::parse_command_line(argc, &wav[0], d, STY[s], ep)); })
                && (e >= 0 || check("parse_command_line without extra parser", [&] { return toRes(po::parse_command_line(argc, ca, d, STY[s])); }))
                && (e >= 0 || s || check("parse_command_line without style", [&] { return toRes(po::parse_command_line(argc, ca, d)); }))
                && (e >= 0 || s || check("wide parse_command_line without style", [&] { return narrowOf(po::parse_command_line(argc, &wav[0], d)); }))
                && check("chained temporary", [&] { return toRes(po::command_line_parser(t).style(STY[s]).extra_parser(ep).options(d).run()); })
                && check("named parser", [&] { po::basic_command_line_parser<char> p(argc, ca); p.options(d); p.extra_parser(ep); p.style(STY[s]); return toRes(p.run()); })
                && check("named wide parser", [&] { po::basic_command_line_parser<wchar_t> p(wt); p.extra_parser(ep); p.style(STY[s]); p.options(d); return narrowOf(p.run()); });
                if (R.want_sample()) R.sample(g.str() + " args=" + mc::q(t) + " -> " + w.str());
                R.end(w.hash());
            });
        }
    }
    R.space("configuration and environment entry points", "parse_config_file from a stream and from a file, narrow and wide, with and without the last argument, on every sequence of 0..3 of 9 lines; parse_environment with a character array, a string and a mapper as prefix, every subset of 5 variables and 4 prefixes");
    {
        char dir[] = "/tmp/mc33-XXXXXX"; if (!mkdtemp(dir)) { perror("mkdtemp"); exit(2); } string name = string(dir) + "/f"; struct Clean { string f, d; ~Clean() { unlink(f.c_str()); rmdir(d.c_str()); } } clean = {name, dir};
        Strs al = S({"foo = 1", "[s]", "bar", "nope=2", "many = x", "# c", "s.a=3", "", "bar=1"}); po::options_description d; d.add_options()("foo", po::value<string>(), "")("bar", po::value<string>(), "")("many", po::value<Strs>(), "")("s.a", po::value<string>(), "");
        sequences(al, 0, 3, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; Strs t = pick(al, ix); string x; for (size_t i = 0; i < t.size(); ++i) x += t[i] + "\n"; { FILE* f = fopen(name.c_str(), "w"); fwrite(x.data(), 1, x.size(), f); fclose(f); }
            R.trace(); R.transitions(t.size()); u64 out = 0;
            for (int u = 0; u < 2; ++u) {
                Res w = parseCfg(x, d, u != 0); out = mc::mix(out, w.hash()); const std::wstring wx(x.begin(), x.end()); const void* dd = &d;
                auto check = [&](const char* how, auto f) { Res g; const void* gd = dd; try { auto p = f(); gd = p.description; if constexpr (sizeof(p.options[0].value[0][0]) == 1) g = toRes(p); else g = narrowOf(p); } catch (...) { g = current(); } if (!(g == w)) R.fail(string(how) + (u ? ", unregistered allowed" : "") + " text " + mc::q(x), w.str(), g.str()); else if (gd != dd) R.fail(string(how) + " text " + mc::q(x), "result refers to the description", "another"); };
                check("file", [&] { return po::parse_config_file(name.c_str(), d, u != 0); }); check("file as narrow", [&] { return po::parse_config_file<char>(name.c_str(), d, u != 0); }); check("file as wide", [&] { return po::parse_config_file<wchar_t>(name.c_str(), d, u != 0); });
                check("wide stream", [&] { std::wistringstream is(wx); return po::parse_config_file(is, d, u != 0); });
                if (!u) { check("stream without last argument", [&] { std::istringstream is(x); return po::parse_config_file(is, d); }); check("file without last argument", [&] { return po::parse_config_file(name.c_str(), d); }); check("wide file without last argument", [&] { return po::parse_config_file<wchar_t>(name.c_str(), d); }); check("wide stream without last argument", [&] { std::wistringstream is(wx); return po::parse_config_file(is, d); }); }
            }
            R.end(out);
        });
        static char v[5][16] = {"MC_FOO=1", "MC_=2", "mc_foo=3", "MC_BAR=x=y", "XMC_A="}; static char* env[6]; char** was = environ;
        const char* pre[4] = {"MC_", "", "MC_F", "mc"};
        for (int mk = 0; mk < 32; ++mk) for (int q = 0; q < 4; ++q) {
            if (!R.begin()) continue; int n = 0; for (int i = 0; i < 5; ++i) if (mk >> i & 1) env[n++] = v[i]; env[n] = 0; environ = env; string pf = pre[q]; Res a, b, c, w; R.trace();
            for (int i = 0; i < n; ++i) { string k = env[i], val = k.substr(k.find('=') + 1); k = k.substr(0, k.find('=')); if (k.compare(0, pf.size(), pf)) continue; ROpt o; for (size_t j = pf.size(); j < k.size(); ++j) o.key += (char)tolower(k[j]); o.val.push_back(val); if (!o.key.empty()) w.opts.push_back(o); }
            try { a = toRes(po::parse_environment(d, pre[q])); b = toRes(po::parse_environment(d, pf)); c = toRes(po::parse_environment(d, boost::function1<string, string>([&](const string& s) { string r; if (s.compare(0, pf.size(), pf) == 0) for (size_t j = pf.size(); j < s.size(); ++j) r += (char)tolower(s[j]); return r; }))); } catch (...) { a = current(); }
            environ = was; string what = "prefix " + mc::q(pf) + " variables " + mc::num(mk); if (!(a == b) || !(a == c) || a.err || !(a.opts == w.opts)) R.fail(what, w.str(), a.str() + " / " + b.str() + " / " + c.str()); R.end(a.hash());
        }
    }
}
#endif

#if PROP == 34
const char* mc::property = "C34";
struct Cfg { string type; int def, impl, nm, fn; bool comp, multi, zero, req, wide; Cfg() : def(-1), impl(-1), nm(-1), fn(-1), comp(false), multi(false), zero(false), req(false), wide(false) {} };
// values and texts of the two defaults and the two implicit values per type
struct Val4 { const char* v[4]; const char* t[4]; };
static const char* LET[] = {"default_value(1)", "default_value(2,text)", "implicit_value(1)", "implicit_value(2,text)", "value_name(one)", "value_name(two)", "composing", "multitoken", "zero_tokens", "required", "notifier(one)", "notifier(two)"};
static const int NLET = 12;
static Val4 vals(const string& ty)
{
    if (ty == "int") return Val4{{"11", "22", "33", "44"}, {"11", "dtext", "33", "itext"}};
    if (ty == "oint") return Val4{{"11", "22", "33", "44"}, {" 11", "dtext", " 33", "itext"}};   // as boost::optional prints
    if (ty == "str") return Val4{{"da", "db", "ia", "ib"}, {"da", "dtext", "ia", "itext"}};
    if (ty == "bool") return Val4{{"1", "0", "0", "1"}, {"1", "dtext", "0", "itext"}};
    if (ty == "vint") return Val4{{"11|12", "22", "33|34", "44"}, {"d1", "dtext", "i1", "itext"}};
    return Val4{{"da|dz", "db", "ia|iz", "ib"}, {"d1", "dtext", "i1", "itext"}};
}
template<class T> struct Plain { template<class V> static void def(V* v, const T& x, const char*) { v->default_value(x); } template<class V> static void impl(V* v, const T& x, const char*) { v->implicit_value(x); } };
template<class E> struct Plain<std::vector<E> > { typedef std::vector<E> T; template<class V> static void def(V* v, const T& x, const char* t) { v->default_value(x, t); } template<class V> static void impl(V* v, const T& x, const char* t) { v->implicit_value(x, t); } };
static Strs g_log; static string g_odd;
template<class V, class T> static void set(V* v, int l, const string& ty)
{
    Val4 x = vals(ty); V* r = v;
    switch (l) {
    case 0: Plain<T>::def(v, fromText<T>(x.v[0]), x.t[0]); break; case 1: r = v->default_value(fromText<T>(x.v[1]), x.t[1]); break;
    case 2: Plain<T>::impl(v, fromText<T>(x.v[2]), x.t[2]); break; case 3: r = v->implicit_value(fromText<T>(x.v[3]), x.t[3]); break;
    case 4: r = v->value_name("one"); break; case 5: r = v->value_name("two"); break; case 6: r = v->composing(); break; case 7: r = v->multitoken(); break; case 8: r = v->zero_tokens(); break; case 9: r = v->required(); break;
    case 10: r = v->notifier([](const T& a) { g_log.push_back("one " + show(a)); }); break; case 11: r = v->notifier([](const T& a) { g_log.push_back("two " + show(a)); }); break; }
    if (r != v) g_odd = string(LET[l]) + " returned another object";
}
static void note(Cfg& c, int l) { switch (l) { case 0: case 1: c.def = l; break; case 2: case 3: c.impl = l; break; case 4: case 5: c.nm = l - 4; break; case 6: c.comp = true; break; case 7: c.multi = true; break; case 8: c.zero = true; break; case 9: c.req = true; break; case 10: case 11: c.fn = l - 10; break; } }
struct Source { bool cmd; Strs tok; };
static const std::vector<std::vector<Source> >& inputs()
{
    static std::vector<std::vector<Source> > r; if (!r.empty()) return r;
    auto c = [](std::initializer_list<const char*> l) { Source s; s.cmd = true; s.tok = S(l); return s; }; auto f = [](std::initializer_list<const char*> l) { Source s; s.cmd = false; s.tok = S(l); return s; };
    r.push_back({}); r.push_back({c({})}); r.push_back({c({"--opt"})}); r.push_back({c({"--opt=5"})}); r.push_back({c({"--opt", "5", "6"})}); r.push_back({c({"--opt=5", "--opt=6"})}); r.push_back({c({"-o0", "-o"})}); r.push_back({c({"--opt=x", "y"})});
    r.push_back({f({"opt=7"})}); r.push_back({f({"opt=7", "opt=8"})}); r.push_back({c({"--opt=5"}), f({"opt=7"})}); r.push_back({c({}), f({"opt=7"})}); r.push_back({c({"--opt"}), c({"--opt=1"})}); r.push_back({c({"--opt="})}); r.push_back({c({"-o", "-o", "1"}), c({})});
    return r;
}
template<class T, class C> static po::typed_value<T, C>* fresh(T* to) { return new po::typed_value<T, C>(to); }
template<class T, class C> static void run(Run& R, const string& ty, bool sw, int lo, int hi)
{
    typedef po::typed_value<T, C> V; const Strs dummy(NLET, ""); const std::vector<std::vector<Source> >& in = inputs(); std::vector<string> names(LET, LET + NLET); const string tag = ty + (sizeof(C) > 1 ? " wide" : "") + (sw ? " switch" : "");
    std::map<string, std::vector<Res> > memo; static T target;
    sequences(dummy, lo, hi, [&](const std::vector<int>& ix) {
        if (!R.begin()) return; g_odd.clear();
        Cfg c; c.type = ty; if (sw) { c.def = 1; c.zero = true; } bool ownDef = !sw; for (size_t i = 0; i < ix.size(); ++i) { note(c, ix[i]); if (ix[i] < 2) ownDef = true; }
        const bool to = !ix.empty() && ix.back() % 2; Val4 x = vals(ty); string swText = "0";
        V* v; if (sw) v = (V*)(void*)po::bool_switch(to ? (bool*)(void*)&target : (bool*)0); else v = fresh<T, C>(to ? &target : 0);
        po::options_description d; d.add_options()("opt,o", v, "text"); for (size_t i = 0; i < ix.size(); ++i) set<V, T>(v, ix[i], ty);
        string what = tag + ": " + label(names, ix); R.trace(); R.transitions(ix.size());
        // the declared properties
        Decl D; D.names = "opt,o"; D.type = ty; D.comp = c.comp; D.multi = c.multi; D.zero = c.zero; D.req = c.req; D.hasDef = c.def >= 0; D.hasImpl = c.impl >= 0; if (D.hasDef) D.def = ownDef ? x.v[c.def] : "0"; if (D.hasImpl) D.impl = x.v[c.impl];
        string nm = c.nm < 0 ? "arg" : c.nm ? "two" : "one"; string dt = D.hasDef ? (ownDef ? x.t[c.def] : swText) : "", w = c.impl >= 0 ? "[=" + nm + "(=" + x.t[c.impl] + ")]" : nm; if (D.hasDef) w += " (=" + dt + ")";
        unsigned mn = c.zero || c.impl >= 0 ? 0 : 1, mx = c.multi ? INF : c.zero ? 0 : 1; 
        auto facts = [](const string& n, unsigned a, unsigned b, bool comp, bool req, const string& def) { std::ostringstream s; s << "name " << n << ", tokens " << a << ".." << b << (comp ? ", composing" : "") << (req ? ", required" : "") << ", default " << def; return s.str(); };
        VModel::Cell dc; dc.has = D.hasDef; dc.v = D.vec() ? splitBar(D.def) : Strs(1, D.def); boost::any def; bool has = v->apply_default(def);
        string wf = facts(w, mn, mx, c.comp, c.req, D.hasDef ? VModel::render(D, dc) : "none"), gf = facts(v->name(), v->min_tokens(), v->max_tokens(), v->is_composing(), v->is_required(), has ? showAny(def) : "none");
        u64 out = mc::hstr(gf); R.state(mc::hstr(tag + wf + mc::num(c.fn) + mc::num(to)));
        if (!g_odd.empty()) R.fail(what, "each setting returns the same object", g_odd); else if (wf != gf) R.fail(what, wf, gf); else if (v->value_type() != typeid(T)) R.fail(what, "value type as declared", "another");
        // what the option does with every input
        string sem = mc::num(mn) + "-" + (mx == INF ? string("inf") : mc::num(mx)); Gram g; g.o("opt,o", sem); std::vector<Res>& parsedAs = memo[sem];
        if (parsedAs.empty()) for (size_t i = 0; i < in.size(); ++i) for (size_t k = 0; k < in[i].size(); ++k) { Res r; if (in[i][k].cmd) { Model m(g, &R, g.hash()); r = m.parse(in[i][k].tok); } parsedAs.push_back(r); }
        size_t at = 0; Decls ds(1, D);
        for (size_t i = 0; i < in.size(); ++i) {
            VModel m; po::variables_map vm; string want, got; target = fromText<T>("0"); const T before = target; g_log.clear(); string desc;
            size_t at0 = at; at += in[i].size();
            for (size_t k = 0; k < in[i].size() && want.empty(); ++k) {
                const Source& s = in[i][k]; std::vector<Item> items; const Res& pr = parsedAs[at0 + k]; desc += (s.cmd ? " command line " : " file ") + mc::q(s.tok);
                if (s.cmd) { if (pr.err) want = pr.kind; else for (size_t q = 0; q < pr.opts.size(); ++q) items.push_back(Item(pr.opts[q].key, pr.opts[q].val, pr.opts[q].unreg)); } else for (size_t q = 0; q < s.tok.size(); ++q) items.push_back(Item("opt", Strs(1, s.tok[q].substr(4))));
                bool sure = true; if (want.empty()) { Outcome o = m.store(ds, items, st::allow_long, sure); if (o.kind != "ok") want = o.kind; }
                try { if (s.cmd) po::store(po::command_line_parser(s.tok).options(d).run(), vm); else { string t; for (size_t q = 0; q < s.tok.size(); ++q) t += s.tok[q] + "\n"; std::istringstream is(t); po::store(po::parse_config_file(is, d), vm); } } catch (...) { got = current().kind; }
                if (!got.empty()) break;
            }
            if (want.empty() && got.empty()) {
                string a, b; if (!sameMap(m, ds, vm, a, b)) { want = a; got = b; }
                else {
                    bool missing = c.req && !in[i].empty() && !m.m.count("opt"); Strs calls; string tw = to ? show(before) : "";
                    if (missing) want = "required"; else if (m.m.count("opt")) { string val = VModel::render(D, m.m["opt"]); if (c.fn >= 0) calls.push_back(string(c.fn ? "two " : "one ") + val); if (to) tw = val; }
                    try { po::notify(vm); } catch (...) { got = current().kind; }
                    want += " notified " + mc::q(calls) + " target " + tw; got += " notified " + mc::q(g_log) + " target " + (to ? show(target) : string());
                }
            }
            R.transitions(in[i].size() + 1); out = mc::mix(out, mc::hstr(got));
            if (want != got) { R.fail(what + desc, want, got); break; }
        }
        if (R.want_sample()) R.sample(what + " -> " + gf);
        R.end(out);
    });
}
void mc::explore(Run& R)
{
    const bool T = R.thorough; int hi = T ? 5 : 4;
    const char* b = T ? "every sequence of 0..5 of 12 settings (two defaults, two implicit values, two value names, two notifiers, composing, multitoken, zero_tokens, required): declared facts and 15 input histories each"
                      : "every sequence of 0..4 of 12 settings (two defaults, two implicit values, two value names, two notifiers, composing, multitoken, zero_tokens, required): declared facts and 15 input histories each";
    R.space("value<int>", b); run<int, char>(R, "int", false, 0, hi);
    R.space("value<string>", b); run<string, char>(R, "str", false, 0, hi);
    R.space("value<bool>", b); run<bool, char>(R, "bool", false, 0, hi);
    R.space("bool_switch", b); run<bool, char>(R, "bool", true, 0, hi);
    R.space("value<vector<int>>", b); run<std::vector<int>, char>(R, "vint", false, 0, hi);
    R.space("value<vector<string>>", b); run<Strs, char>(R, "vstr", false, 0, hi);
    R.space("value<optional<int>>", b); run<OI, char>(R, "oint", false, 0, hi);
    R.space("wvalue<int>", b); run<int, wchar_t>(R, "int", false, 0, hi);
    R.space("wvalue<bool>", b); run<bool, wchar_t>(R, "bool", false, 0, hi);
    R.space("wvalue<vector<int>>", b); run<std::vector<int>, wchar_t>(R, "vint", false, 0, T ? 4 : 3);
}
#endif
