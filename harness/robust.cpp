// C08: any input ends in a result or a library error. Built with address and undefined behaviour
// sanitizers; every allocation of a case must be released; every case must terminate.
#include "cfgmodel.hpp"
#include "helpmodel.hpp"
#include <boost/optional.hpp>
#include <boost/token_functions.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <new>
using namespace cm;
using mc::Run;
const char* mc::property = "C08";
extern char** environ;
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

#undef _WIN32
#define _WIN32 1
#include MC_WINMAIN
#undef _WIN32

static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
typedef std::wstring W; typedef std::vector<W> Ws;
struct Verdict { string kind; size_t len; u_long h; };
static size_t g_bound; static char g_kind[64]; static u_long g_hash; static bool g_bad; static char g_why[600];
static void good(u_long h) { snprintf(g_kind, sizeof g_kind, "ok"); g_hash = h; }
template<class E> static void message(const E& e, const char* kind)
{   // the message can be obtained, again, from a copy, and is finite
    snprintf(g_kind, sizeof g_kind, "%s", kind);
    string a = e.what(), b = e.what(); E c(e); string d = c.what(); E f(e); f = c; string g = f.what();
    if (a != b || a != d || a != g) { g_bad = true; snprintf(g_why, sizeof g_why, "message changes: %.150s / %.150s / %.150s", a.c_str(), b.c_str(), d.c_str()); }
    if (a.size() > g_bound) { g_bad = true; snprintf(g_why, sizeof g_why, "message of %zu characters: %.200s", a.size(), a.c_str()); }
    g_hash = mc::hstr(a);
}
template<class F> static void attempt(const F& f)
{
    try { f(); }
    catch (const po::ambiguous_option& e) { message(e, "ambiguous"); (void)e.alternatives(); }
    catch (const po::unknown_option& e) { message(e, "unknown"); } catch (const po::invalid_config_file_syntax& e) { message(e, "config syntax"); (void)e.tokens(); }
    catch (const po::invalid_command_line_syntax& e) { message(e, "syntax"); (void)e.tokens(); } catch (const po::required_option& e) { message(e, "required"); }
    catch (const po::invalid_bool_value& e) { message(e, "bool"); } catch (const po::invalid_option_value& e) { message(e, "value"); }
    catch (const po::validation_error& e) { message(e, "validation"); } catch (const po::error_with_option_name& e) { message(e, "option"); }
    catch (const po::error& e) { message(e, "error"); } catch (const boost::escaped_list_error& e) { message(e, "escape"); }
    catch (const boost::bad_any_cast& e) { snprintf(g_kind, sizeof g_kind, "bad_any_cast"); g_hash = 1; }
    catch (const std::logic_error& e) { message(e, "conversion"); if (string(e.what()) != "character conversion failed") { g_bad = true; snprintf(g_why, sizeof g_why, "unexpected std::logic_error %.300s", e.what()); } }
    catch (const std::exception& e) { g_bad = true; snprintf(g_why, sizeof g_why, "foreign exception %.400s", e.what()); snprintf(g_kind, sizeof g_kind, "foreign"); g_hash = 2; }
    catch (...) { g_bad = true; snprintf(g_why, sizeof g_why, "unknown exception"); snprintf(g_kind, sizeof g_kind, "foreign"); g_hash = 3; }
}
// size: bytes of user input in the case
template<class K, class F> static void run(Run& R, size_t size, const K& key, const F& f)
{
    if (!R.begin()) return;
    R.describe(key());
    g_bad = false; g_bound = 4000 + 40 * size; g_kind[0] = 0; g_hash = 0;
    long before = g_live; attempt(f); long leak = g_live - before;
    for (int i = 0; i < 3 && leak > 0 && !g_bad; ++i) { before = g_live; attempt(f); leak = g_live - before; }   // lazily built statics are allocated once only
    R.trace(); R.transitions(1); R.state(mc::mix(mc::hstr(g_kind), g_hash));
    if (g_bad) R.fail(key(), "a result or an error of the library with a finite message", g_why);
    else if (leak > 0) R.fail(key(), "all memory released", mc::num(leak) + " allocations lost each time (" + g_kind + ")", "leak");
    if (R.want_sample()) R.sample(key() + " -> " + g_kind);
    R.end(mc::mix(mc::hstr(g_kind), g_hash));
}
static u_long walk(const po::variables_map& m)
{
    u_long h = 0; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) { h = mc::mix(h, mc::hstr(i->first)); h = mc::mix(h, i->second.defaulted() + 2 * i->second.empty()); if (const string* s = boost::any_cast<string>(&i->second.value())) h = mc::mix(h, mc::hstr(*s)); h = mc::mix(h, m.count(i->first)); }
    return h;
}
template<class C> static u_long walk(const po::basic_parsed_options<C>& p)
{
    u_long h = 0; for (size_t i = 0; i < p.options.size(); ++i) { h = mc::mix(h, mc::hstr(p.options[i].string_key)); for (size_t k = 0; k < p.options[i].value.size(); ++k) for (size_t x = 0; x < p.options[i].value[k].size(); ++x) h = mc::mix(h, p.options[i].value[k][x]); h = mc::mix(h, p.options[i].original_tokens.size()); h = mc::mix(h, p.options[i].position_key); }
    h = mc::mix(h, po::collect_unrecognized(p.options, po::include_positional).size()); h = mc::mix(h, po::collect_unrecognized(p.options, po::exclude_positional).size()); return h;
}
// ---- declarations
struct Gr { string name; po::options_description d; po::positional_options_description pos; bool usepos; Gr() : usepos(false) {} };
typedef std::vector<std::shared_ptr<Gr> > Grs;
static Grs grammars()
{
    Grs r; Gr* g;
    g = new Gr; g->name = "usual"; r.push_back(std::shared_ptr<Gr>(g));
    g->d.add_options()("help,h", "h")("a", po::value<string>(), "")("ab,b", po::value<int>(), "")("multi,m", po::value<Strs>()->multitoken(), "")("impl,i", po::value<string>()->implicit_value("I"), "")("flag,f", po::bool_switch(), "")("bool", po::value<bool>(), "")("rest", po::value<Strs>(), "")("def", po::value<double>()->default_value(1.5), ""); g->pos.add("a", 1).add("rest", -1); g->usepos = true;
    g = new Gr; g->name = "odd names"; r.push_back(std::shared_ptr<Gr>(g));
    g->d.add_options()(",a", po::value<int>(), "")("w*", po::value<string>(), "")("*", po::value<Strs>(), "")("x=y", "")("%option%", po::value<int>(), "")("\xff\xfe,\xff", po::value<string>(), "")("a b", "")("-", po::value<int>(), "")("d,d", "");
    g = new Gr; g->name = "clashes"; r.push_back(std::shared_ptr<Gr>(g));
    g->d.add_options()("aa,a", po::value<string>(), "")("aa", po::value<int>(), "")("ab,a", "")("ab,aa", po::value<int>()->required(), "")("abc", po::value<Strs>()->composing()->zero_tokens(), ""); g->pos.add("aa", 2).add("nosuch", 1); g->usepos = true;
    g = new Gr; g->name = "nothing declared"; r.push_back(std::shared_ptr<Gr>(g)); g->usepos = true;
    g = new Gr; g->name = "values"; r.push_back(std::shared_ptr<Gr>(g));
    g->d.add_options()("a", po::wvalue<W>(), "")("ab,b", po::value<char>()->multitoken()->implicit_value('c'), "")("o,o", po::value<boost::optional<int> >(), "")("v,v", po::wvalue<Ws>()->multitoken()->zero_tokens(), "")("n", po::wvalue<int>(), "")("wb", po::wvalue<bool>(), "")("s,s", po::wvalue<string>(), "")("req", po::value<int>()->required()->default_value(1), ""); g->pos.add("v", -1); g->usepos = true;
    return r;
}
static void line(Run& R, const Gr& g, int style, bool unreg, const Strs& t, bool wide)
{
    size_t n = 0; for (size_t i = 0; i < t.size(); ++i) n += t[i].size() + 1;
    run(R, n, [&] { return g.name + " style " + mc::num(style) + (unreg ? " unregistered allowed" : "") + " args " + (n < 400 ? mc::q(t) : mc::q(t[0].substr(0, 60)) + "... " + mc::num(t.size()) + " tokens, " + mc::num(n) + " bytes"); }, [&] {
        po::command_line_parser p(t); p.options(g.d); if (style) p.style(style); if (g.usepos) p.positional(g.pos); if (unreg) p.allow_unregistered();
        po::parsed_options r = p.run(); u_long h = walk(r); g_kind[0] = 'p'; po::variables_map m; po::store(r, m); po::notify(m); po::store(r, m); h = mc::mix(h, walk(m)); good(h);
    });
    if (wide) run(R, n * 2, [&] { return "wide " + g.name + " style " + mc::num(style) + " args " + mc::q(t); }, [&] {
        Ws w; for (size_t i = 0; i < t.size(); ++i) { W x; for (size_t k = 0; k < t[i].size(); ++k) x += (wchar_t)(t[i][k] == '\xff' ? 0xfffff : t[i][k] == '\xc3' ? 0x110000 : (unsigned char)t[i][k]); w.push_back(x); }
        po::wcommand_line_parser p(w); p.options(g.d); if (style) p.style(style); if (g.usepos) p.positional(g.pos); if (unreg) p.allow_unregistered();
        po::wparsed_options r = p.run(); u_long h = walk(r); po::variables_map m; po::store(r, m); po::notify(m); good(mc::mix(h, walk(m))); });
}
static void config(Run& R, const Gr& g, const string& t, bool unreg)
{
    run(R, t.size(), [&] { return g.name + (unreg ? " unregistered allowed" : "") + " text " + (t.size() < 400 ? mc::q(t) : mc::q(t.substr(0, 60)) + "... " + mc::num(t.size()) + " bytes"); }, [&] { std::istringstream is(t); po::parsed_options r = po::parse_config_file(is, g.d, unreg); u_long h = walk(r); po::variables_map m; po::store(r, m); po::notify(m); good(mc::mix(h, walk(m))); });
    if (t.size() < 60) run(R, t.size(), [&] { return "wide " + g.name + " text " + mc::q(t); }, [&] { W x; for (size_t k = 0; k < t.size(); ++k) x += (wchar_t)(t[k] == '\xff' ? -1 : (unsigned char)t[k]); std::wistringstream is(x); po::wparsed_options r = po::parse_config_file(is, g.d, unreg); u_long h = walk(r); po::variables_map m; po::store(r, m); good(mc::mix(h, walk(m))); });
}
template<class E> static void errors(Run& R, const string& what, const std::function<E()>& mk, const string& in)
{
    // a template of k placeholders may repeat a text k times
    run(R, what == "error_with_option_name" ? in.size() * in.size() : in.size() * 4, [&] { return what + " with " + mc::q(in); }, [&] { E e = mk(); message(e, "made"); e.set_option_name(in); message(e, "made"); e.set_original_token(in); message(e, "made"); e.set_prefix(po::command_line_style::allow_long); message(e, "made"); (void)e.get_option_name(); e.add_context(in, in, po::command_line_style::allow_dash_for_short); message(e, "made"); e.set_substitute("value", in); e.set_substitute("x", in); message(e, "made"); e.set_substitute_default("canonical_option", in.empty() ? string("q") : in, in + "%option%"); message(e, "made"); throw e; });
}
void mc::explore(Run& R)
{
    const bool T = R.thorough; R.case_timeout = 10;
    Grs gs = grammars();
    std::vector<int> ss; ss.push_back(0); { const int a = st::default_style; int x[] = { a | st::allow_long_disguise, a | st::allow_slash_for_short | st::case_insensitive, st::allow_long | st::long_allow_adjacent, st::allow_short | st::allow_slash_for_short | st::short_allow_next, st::allow_long_disguise | st::long_allow_next, st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::allow_sticky, st::unix_style | st::case_insensitive | st::allow_long_disguise | st::allow_slash_for_short }; ss.insert(ss.end(), x, x + 7); }
    Strs al = S({"", "-", "--", "---", "--=", "--=x", "-=", "/", "//", "/=", "--a", "--a=", "--a=x", "-a", "-ax", "-b", "-ba", "-ab=", "--ab", "--m", "-m", "\xff", "-\xff", "--\xff=\xff", "--%option%", "%value%", "--a=%canonical_option%", "--*", "-*", "/a", " ", "1", "--b\n", "--w%x%=1", "-v", "--n=\xc3"}); al.push_back(string("--a\0=x", 6)); al.push_back(string("\0", 1));
    R.space("hostile command lines", T ? "every sequence of 0..3 of 38 tokens x 5 declarations x 8 styles x unregistered or not, narrow and wide" : "every sequence of 0..2 of 38 tokens x 5 declarations x 8 styles x unregistered or not, narrow and wide; of 3 tokens for 5 combinations");
    for (size_t g = 0; g < gs.size(); ++g) for (size_t s = 0; s < ss.size(); ++s) for (int u = 0; u < 2; ++u) sequences(al, 0, T || (s == g && u == (int)g % 2) ? 3 : 2, [&](const std::vector<int>& ix) { line(R, *gs[g], ss[s], u, pick(al, ix), ix.size() < 3); });
    R.space("token shapes", T ? "every token of length 0..5 over - = / a b * % \\xff, before and after a known option x 5 declarations x 8 styles" : "every token of length 0..4 over - = / a b * % \\xff, alone and before a value x 5 declarations x 8 styles");
    for (size_t g = 0; g < gs.size(); ++g) for (size_t s = 0; s < ss.size(); ++s) texts("-=/ab*%\xff", 0, T ? 5 : 4, [&](const string& x) { Strs t(1, x); line(R, *gs[g], ss[s], g & 1, t, false); if (x.size() < 4 || T) { t.push_back("-1"); line(R, *gs[g], ss[s], !(g & 1), t, false); } });
    R.space("all styles", "all 8192 combinations of style bits with two command lines");
    Strs l1 = S({"--a=1", "-b2", "/a", "x"}), l2 = S({"-ab", "--", "-x"}); for (int s = 0; s < 8192; ++s) { line(R, *gs[0], s, s & 1, l1, false); line(R, *gs[1], s, !(s & 1), l2, false); }
    R.space("long command lines", "tokens of up to 200000 bytes of 14 shapes, up to 20000 tokens of 12 shapes (quick: a tenth)");
    std::vector<int> sz; for (int i = 1; i < 70; i += 3) sz.push_back(i); for (int p = 128; p <= (T ? 262144 : 32768); p *= 2) { sz.push_back(p - 1); sz.push_back(p); sz.push_back(p + 1); }
    for (size_t i = 0; i < sz.size(); ++i) for (size_t g = 0; g < gs.size(); ++g) for (int s = 0; s < 3; ++s) { int n = sz[i]; string x(n, 'a'); if (n > 4096 && s) continue; string tk[] = { x, "-" + x, "--" + x, "--a=" + x, "-a" + x, string(n, '-'), string(n, '='), "--" + string(n, '%'), "--a" + string(n, '*'), "-" + string(n, 'h'), "/" + x, "--" + x + "=" + x, "-b" + string(n, '9'), "--%" + x + "%" }; for (int k = 0; k < 14; ++k) line(R, *gs[g], ss[s], k & 1, Strs(1, tk[k]), false); }
    for (int n = 100; n <= (T ? 20000 : 3000); n = n * 3 / 2) for (size_t g = 0; g < gs.size(); ++g) { const char* tk[] = { "x", "-a", "--a", "--a=1", "--", "-m", "-hhh", "--nosuch", "-", "--m", "1", "" }; for (int k = 0; k < 12; ++k) line(R, *gs[g], 0, true, Strs(n, tk[k]), false); }
    R.space("configuration texts", T ? "every text of length 0..6 over 11 letters x 5 declarations, narrow and wide" : "every text of length 0..5 over 11 letters (to length 4 for every declaration), narrow and wide");
    string cl = string("a=[]#.\n*\xff \r", 11); for (size_t g = 0; g < gs.size(); ++g) texts(cl, 0, T ? 5 : (g == 0 ? 5 : 4), [&](const string& x) { config(R, *gs[g], x, g & 1); if (x.size() < 4) config(R, *gs[g], x, !(g & 1)); });
    if (T) texts(cl, 6, 6, [&](const string& x) { config(R, *gs[0], x, true); });
    { std::vector<std::pair<string, string> > wr; wr.push_back(std::make_pair("ab*", "a*")); for (int k = 0; k < 4; ++k) { Gr g; g.name = "wildcards " + mc::num(k); const char* sets[4][3] = { {"a*", "ab*", "b"}, {"*", "a*", "b*"}, {"a*", "a*", "b"}, {"a.*", "a*b", "**"} }; for (int i = 0; i < 3; ++i) g.d.add_options()(sets[k][i], po::value<string>(), ""); texts("ab=.\n*[", 0, 4, [&](const string& x) { config(R, g, x, k & 1); }); } }
    { string z("a=\0b\n\0=1\n[\0]\nx=1", 17); for (size_t g = 0; g < gs.size(); ++g) config(R, *gs[g], z, true); }
    R.space("long configuration texts", "lines, names, sections, comments of up to 200000 bytes, up to 20000 lines (quick: a tenth)");
    for (size_t i = 0; i < sz.size(); ++i) for (size_t g = 0; g < gs.size(); ++g) { int n = sz[i]; string x(n, 'a'); string t[] = { x, x + "=1", "a=" + x, "[" + x + "]", "[" + x + "]\na=1\n", "#" + x, string(n, '\n'), string(n, '='), string(n, '['), string(n, ']'), string(n, ' ') + "a=1", "a=" + string(n, '#'), "\n" + string(n, '%') + "\n", string(n, '*') + "=1" }; for (int k = 0; k < 14; ++k) config(R, *gs[g], t[k], (k + g) & 1); }
    for (int n = 100; n <= (T ? 20000 : 2000); n *= 2) for (size_t g = 0; g < gs.size(); ++g) { const char* t[] = { "a=1\n", "[s]\n", "#\n", "\n", "x=1\n", "m=1\n", "multi=1\nrest=2\n" }; for (int k = 0; k < 7; ++k) { string x; for (int i = 0; i < n; ++i) x += t[k]; config(R, *gs[g], x, true); } }
    R.space("files", "names that cannot be opened, a directory, an empty and a binary file");
    { string nul(5000, 'p'); Strs fn = S({"", "/nonexistent/file", "/", "/dev/null", "/proc/self/mem", "%option%", "\xff"}); fn.push_back("/tmp/" + nul); for (size_t i = 0; i < fn.size(); ++i) for (int w = 0; w < 2; ++w) run(R, fn[i].size(), [&] { return "file " + mc::q(fn[i].substr(0, 100)); }, [&] { if (w) good(walk(po::parse_config_file<wchar_t>(fn[i].c_str(), gs[0]->d, true))); else good(walk(po::parse_config_file<char>(fn[i].c_str(), gs[0]->d, true))); }); }
    R.space("environments", "every environment of 0..2 of 24 hostile variables x 5 declarations x 9 mappings");
    Strs ev = S({"A=1", "a=1", "A=", "=", "=x", "==", "A==", "%OPTION%=1", "\xff=\xff", "AB=z", "M=1", "-=1", "--A=1", "*=1", "W*=2", "W1=%value%", "N=\xc3", "FLAG=x", " = ", "BOOL=%", "REST=1", "A B=2", "A=2", "AA=x"});
    for (size_t g = 0; g < gs.size(); ++g) sequences(ev, 0, 2, [&](const std::vector<int>& ix) { Strs e = pick(ev, ix); for (int m = 0; m < 9; ++m) run(R, 40, [&] { return gs[g]->name + " environment " + mc::q(e) + " mapping " + mc::num(m); }, [&] {
        std::vector<char*> v; for (size_t i = 0; i < e.size(); ++i) v.push_back(&e[i][0]); v.push_back(0); struct Env { char** o; explicit Env(char** n) : o(environ) { environ = n; } ~Env() { environ = o; } } env(&v[0]);
        po::parsed_options r = m == 0 ? po::parse_environment(gs[g]->d, "") : m == 1 ? po::parse_environment(gs[g]->d, "A") : m == 2 ? po::parse_environment(gs[g]->d, "%") : m == 3 ? po::parse_environment(gs[g]->d, string("--")) : po::parse_environment(gs[g]->d, [m](const string& n) -> string { return m == 4 ? n : m == 5 ? "%option%" : m == 6 ? string(3000, 'x') : m == 7 ? "a" : n + "*"; });
        u_long h = walk(r); po::variables_map vm; po::store(r, vm); po::notify(vm); good(mc::mix(h, walk(vm))); }); });
    R.space("splitting", T ? "every string of length 0..7 over 7 letters, 12 rule sets (overlapping and empty ones included), narrow and wide, unix and windows" : "every string of length 0..5 over 7 letters, 12 rule sets (overlapping and empty ones included), narrow and wide, unix and windows");
    { const char* rs[12][3] = { {" \t", "'\"", "\\"}, {"", "", ""}, {" ", " ", " "}, {"a", "a", "\\"}, {"\\", "'", "\\"}, {" ", "\"", "\""}, {"n", "'", "\\"}, {" ", "n", "\\"}, {" ", "'", "n"}, {"\xff", "\xff", "\\"}, {" '", "'\\", "\\ "}, {"aaaa", "''''", "\\\\\\"} };
      texts("a '\"\\n\xff", 0, T ? 7 : 5, [&](const string& x) { for (int k = 0; k < 12; ++k) { if (x.size() == 5 && !T && k % 3) continue; run(R, 20, [&] { return "split_unix " + mc::q(x) + " rules " + mc::num(k); }, [&] { u_long h = po::split_unix(x, rs[k][0], rs[k][1], rs[k][2]).size(); W w(x.begin(), x.end()); string a = rs[k][0], b = rs[k][1], c = rs[k][2]; h = mc::mix(h, po::split_unix(w, W(a.begin(), a.end()), W(b.begin(), b.end()), W(c.begin(), c.end())).size()); good(h); }); }
        run(R, 20, [&] { return "split_winmain " + mc::q(x); }, [&] { u_long h = po::split_winmain(x).size(); W w(x.begin(), x.end()); h = mc::mix(h, po::split_winmain(w).size()); good(h); }); });
      for (size_t i = 0; i < sz.size(); ++i) { int n = sz[i]; string t[] = { string(n, 'a'), string(n, ' '), string(n, '\\'), string(n, '"'), string(n, '\''), "\"" + string(n, '\\'), string(n, '\\') + "\"" }; for (int k = 0; k < 7; ++k) { run(R, 20, [&] { return "split_unix length " + mc::num(n) + " shape " + mc::num(k); }, [&] { good(po::split_unix(t[k]).size()); }); run(R, 20, [&] { return "split_winmain length " + mc::num(n) + " shape " + mc::num(k); }, [&] { good(po::split_winmain(t[k]).size()); }); } } }
    R.space("declarations", T ? "every name string of length 1..5 over a b , * - = %, looked up, printed, parsed" : "every name string of length 1..4 over a b , * - = %, looked up, printed, parsed");
    texts("ab,*-=%", 1, T ? 5 : 4, [&](const string& x) { run(R, 60, [&] { return "declaration " + mc::q(x); }, [&] {
        po::options_description d("c"); d.add_options()(x.c_str(), po::value<string>(), "text")("zz,z", "flag"); std::ostringstream o; o << d; u_long h = mc::hstr(o.str());
        const po::option_description& q = *d.options()[0]; static const int px[] = { 0, 1, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short, -1 };
        for (int i = 0; i < 7; ++i) h = mc::mix(h, mc::hstr(q.canonical_display_name(px[i]))); h = mc::mix(h, q.long_names().second); h = mc::mix(h, mc::hstr(q.long_name())); h = mc::mix(h, mc::hstr(q.key(x))); h = mc::mix(h, mc::hstr(q.format_name()));
        const char* n[] = { "", "a", "b", "-a", "*", ",", "a*", "ab", "zz", "-", "=" }; for (int i = 0; i < 11; ++i) for (int f = 0; f < 8; ++f) { try { h = mc::mix(h, d.find_nothrow(n[i], f & 1, f & 2, f & 4) != 0); } catch (const po::ambiguous_option&) { h = mc::mix(h, 9); } h = mc::mix(h, q.match(n[i], f & 1, f & 2, f & 4)); }
        const char* tk[] = { "--a=1", "-a", "--", "--*", "-b1", "--=1", "-=", "a" }; for (int i = 0; i < 8; ++i) attempt([&] { po::parsed_options p = po::command_line_parser(Strs(2, tk[i])).options(d).allow_unregistered().run(); po::variables_map m; po::store(p, m); po::notify(m); });
        attempt([&] { std::istringstream is("a=1\n*=2\n=3\n"); po::parse_config_file(is, d, true); }); good(h); }); });
    for (int n = 1; n < 200; ++n) for (int k = 0; k < 3; ++k) { string x; for (int i = 0; i < n; ++i) x += k == 0 ? "a" : k == 1 ? "a," : ","; run(R, 400, [&] { return "declaration of " + mc::num(n) + " names, form " + mc::num(k); }, [&] { po::options_description d; d.add_options()(x.c_str(), po::value<int>(), "x"); std::ostringstream o; o << d; d.find_nothrow("a", true); good(o.str().size()); }); }
    R.space("help", T ? "every description of length 0..8 over 4 letters x 5 layouts" : "every description of length 0..7 over 4 letters x 4 layouts");
    texts("a \n\t", 0, T ? 8 : 7, [&](const string& x) { for (unsigned a = 2; a <= (T ? 6u : 5u); ++a) run(R, 60, [&] { return "description " + mc::q(x) + " width " + mc::num(a); }, [&] { po::options_description d(a + 3, a); d.add_options()("x,y", po::value<int>()->default_value(3), x.c_str()); std::ostringstream o; o << d; good(mc::hstr(o.str())); }); });
    for (unsigned L = 5; L < 200; L += 3) for (unsigned m = 2; m + 1 < L; m += 5) for (int n = 0; n < 300; n += 23) run(R, 600, [&] { return "layout " + mc::num(L) + " " + mc::num(m) + " text " + mc::num(n); }, [&] { po::options_description d("c", L, m), e(L, m); d.add_options()(text(n + 1).c_str(), po::value<string>(), text(n, "ab c\n").c_str()); e.add_options()("q", text(n, "abc d\te f g h").substr(0, 30).c_str()); d.add(e); std::ostringstream o; o << d; d.print(o, 1 + n % (L - 2)); good(o.str().size()); });
    R.space("values", "every text of length 0..3 over 16 letters (thorough 4) as 10 types, in 0..2 tokens, twice");
    texts(string("01-+.eExnaft \xff\xc3%", 16), 0, T ? 4 : 3, [&](const string& x) {
        for (int k = 0; k < (x.size() < 3 || T ? 3 : 1); ++k) run(R, 60, [&] { return "value " + mc::q(x) + " form " + mc::num(k); }, [&] {
            po::options_description d; d.add_options()("i", po::value<int>(), "")("u", po::value<unsigned long>(), "")("d", po::value<double>(), "")("c", po::value<char>(), "")("b", po::value<bool>(), "")("s", po::value<string>(), "")("vi", po::value<std::vector<int> >(), "")("w", po::wvalue<W>(), "")("wi", po::wvalue<int>(), "")("wb", po::wvalue<bool>(), "")("o", po::value<boost::optional<double> >(), "");
            u_long h = 0; for (size_t i = 0; i < d.options().size(); ++i) attempt([&] { po::parsed_options p(&d, st::allow_long); for (int n = 0; n < (k == 2 ? 2 : 1); ++n) { po::option o; o.string_key = d.options()[i]->long_name(); if (k != 1 || x.empty()) o.value.assign(x.empty() && k == 1 ? 0 : 1, x); else o.value.assign(2, x); p.options.push_back(o); } po::variables_map m; po::store(p, m); po::notify(m); h = mc::mix(h, walk(m)); });
            g_hash = mc::mix(g_hash, h); }); });
    R.space("conversion", "every byte string of length 0..2, of 3 over 48 bytes (thorough 64, 4 over 32); wide strings of 0..3 of 24 characters, out of range ones included, after 0, 30, 31, 32 letters");
    string by; for (int i = 0; i < 256; ++i) by += char(i); texts(by, 0, 2, [&](const string& x) { for (int o = 0; o < 2; ++o) run(R, 80, [&] { return "from_utf8 " + mc::q(x) + (o ? " after 31 letters" : ""); }, [&] { good(boost::from_utf8(string(o * 31, 'x') + x).size()); }); });
    string b3; for (int i = 0; i < 256; i += T ? 4 : 5) b3 += char(i | 1); b3 += '\xc0'; b3 += '\xe0'; b3 += '\xf8'; texts(b3, 3, 3, [&](const string& x) { run(R, 80, [&] { return "from_utf8 " + mc::q(x); }, [&] { good(boost::from_utf8(x).size() + boost::from_utf8(x + x).size()); }); run(R, 80, [&] { return "from_local_8_bit " + mc::q(x); }, [&] { good(boost::from_local_8_bit(x).size()); }); });
    { static const unsigned wc[] = { 0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0xd800, 0xdfff, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xff, 0x100, 0xfeff, 0xe000, 0xfffe }; string ix; for (int i = 0; i < 24; ++i) ix += char('A' + i);
      texts(ix, 0, 3, [&](const string& x) { for (int o = 0; o < 4; ++o) { if (x.size() == 3 && o) continue; run(R, 80, [&] { return "to_utf8 of characters " + x + " form " + mc::num(o); }, [&] { W w(o ? 29 + o : 0, L'x'); for (size_t i = 0; i < x.size(); ++i) w += (wchar_t)wc[x[i] - 'A']; string u = boost::to_utf8(w); attempt([&] { boost::to_local_8_bit(w); }); attempt([&] { boost::from_utf8(u); }); good(mc::hstr(u)); }); } }); }
    R.space("error objects", "every error class with 40 hostile texts as option, token, value, prefix, context");
    Strs h = S({"", "%", "%%", "%option%", "%canonical_option%", "%value%", "%prefix%", "%original_token%", "%invalid_line%", "%x%", "%option", "option%", "%%option%%", "a%value%b%option%c", "'", "''", "'%option%'", "--%prefix%", "\n", "\xff", "%error%", "%s%n%d", "* ", "-", "/"}); h.push_back(string("a\0b", 3)); h.push_back(string(3000, '%')); h.push_back(string(3000, 'o')); { string x; for (int i = 0; i < 200; ++i) x += "%value%"; h.push_back(x); x.clear(); for (int i = 0; i < 200; ++i) x += "%canonical_option%"; h.push_back(x); }
    static const int px[] = { 0, st::allow_long, st::allow_dash_for_short, st::allow_slash_for_short, st::allow_long_disguise };
    for (size_t i = 0; i < h.size(); ++i) for (size_t k = 0; k < h.size(); ++k) { const string &a = h[i], &b = h[k]; if (i && k && i != k && (i + k) % 5) continue; string in = a + b;
        errors<po::error_with_option_name>(R, "error_with_option_name", [&] { return po::error_with_option_name(a, b, a, 1); }, in); errors<po::unknown_option>(R, "unknown_option", [&] { return po::unknown_option(a); }, in); errors<po::ambiguous_option>(R, "ambiguous_option", [&] { Strs v(3, a); v.push_back(b); po::ambiguous_option e(v); e.add_context(b, a, k & 1 ? st::allow_long : 0); return e; }, in);
        errors<po::validation_error>(R, "validation_error", [&] { return po::validation_error(po::validation_error::kind_t(30 + k % 12), a, b, px[i % 5]); }, in); errors<po::invalid_option_value>(R, "invalid_option_value", [&] { return po::invalid_option_value(a); }, in); errors<po::invalid_bool_value>(R, "invalid_bool_value", [&] { return po::invalid_bool_value(a); }, in);
        errors<po::required_option>(R, "required_option", [&] { return po::required_option(a); }, in); errors<po::multiple_occurrences>(R, "multiple_occurrences", [&] { return po::multiple_occurrences(); }, in); errors<po::invalid_syntax>(R, "invalid_syntax", [&] { return po::invalid_syntax(po::invalid_syntax::kind_t(30 + k % 8), a, b, px[i % 5]); }, in); errors<po::invalid_config_file_syntax>(R, "invalid_config_file_syntax", [&] { return po::invalid_config_file_syntax(a, po::invalid_syntax::unrecognized_line); }, in); errors<po::invalid_command_line_syntax>(R, "invalid_command_line_syntax", [&] { return po::invalid_command_line_syntax(po::invalid_syntax::missing_parameter, a, b); }, in); }
    R.space("maps", "hand built options with 9 keys, 5 value lists and every flag combination, in sequences of 1..2; reading as wrong types, missing names, chains");
    Strs keys = S({"", "a", "ab", "nosuch", "multi", "-h", "help", "%option%", "w*"}); std::vector<Strs> vals; vals.push_back(Strs()); vals.push_back(Strs(1, "")); vals.push_back(Strs(1, "1")); vals.push_back(Strs(3, "x")); vals.push_back(Strs(1, "\xff%value%"));
    int nk = (int)keys.size() * 5 * 4; for (size_t g = 0; g < gs.size(); ++g) for (int i = 0; i < nk; ++i) for (int k = -1; k < nk; k += (T ? 1 : 7)) run(R, 80, [&] { return gs[g]->name + " options " + mc::num(i) + " " + mc::num(k); }, [&] {
        po::parsed_options p(&gs[g]->d, px[i % 5]); for (int n = 0; n < (k < 0 ? 1 : 2); ++n) { int c = n ? k : i; po::option o; o.string_key = keys[c % 9]; o.value = vals[c / 9 % 5]; o.unregistered = c / 45 & 1; o.position_key = c / 45 & 2 ? 0 : -1; if (c & 1) o.original_tokens.push_back("%option%" + o.string_key); p.options.push_back(o); }
        po::variables_map m, m2(&m); u_long x = 0; attempt([&] { po::store(p, m); }); attempt([&] { po::store(p, m2, i & 1); }); attempt([&] { po::notify(m); }); attempt([&] { po::notify(m2); }); attempt([&] { m2["a"].as<int>(); }); attempt([&] { m["nosuch"].as<string>(); }); x = mc::mix(walk(m), walk(m2)); m2.next(0); x = mc::mix(x, m2["a"].empty()); m.clear(); m.notify(); attempt([&] { walk(p); }); good(x); });
    R.space("positional descriptions", "every sequence of 0..4 of 12 additions, queried at every position");
    sequences(Strs(12, ""), 0, 4, [&](const std::vector<int>& ix) { for (size_t i = 0; i + 1 < ix.size(); ++i) if (ix[i] % 4 == 3) return; run(R, 20, [&] { string s = "positions"; for (size_t i = 0; i < ix.size(); ++i) s += " " + mc::num(ix[i]); return s; }, [&] { po::positional_options_description p; static const int c[] = { 1, 2, 40, -1 }; u_long x = 0; for (size_t i = 0; i < ix.size(); ++i) p.add(ix[i] / 4 == 0 ? "" : ix[i] / 4 == 1 ? "a" : "rest", c[ix[i] % 4]); unsigned n = p.max_total_count(); for (unsigned i = 0; i < n && i < 200; ++i) x = mc::mix(x, mc::hstr(p.name_for_position(i))); if (n == 0xffffffffu) p.name_for_position(0xfffffffeu); for (int len = 0; len < 6; ++len) attempt([&] { po::parsed_options r = po::command_line_parser(Strs(len, "7")).options(gs[0]->d).positional(p).run(); po::variables_map m; po::store(r, m); x = mc::mix(x, walk(m)); }); good(x); }); });
    R.space("self reference", "a description added to itself, a map chained to itself through another, repeatedly");
    for (int n = 0; n < 6; ++n) run(R, 20, [&] { return "added to itself " + mc::num(n) + " times"; }, [&] { po::options_description d("x"); d.add_options()("a", po::value<int>(), "t"); for (int i = 0; i < n; ++i) d.add(d); std::ostringstream o; o << d; attempt([&] { d.find_nothrow("a", false); }); good(o.str().size()); });
}
