// The operations whose interleavings threads.cpp explores. This file and the library are compiled
// with -fsanitize=thread, so that every memory access calls the scheduler of threads.cpp.
#include <boost/program_options.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <boost/optional.hpp>
#include <sstream>
#include <cstdio>
namespace po = boost::program_options; namespace st = po::command_line_style;
#undef _WIN32
#define _WIN32 1
#include MC_WINMAIN
#undef _WIN32
typedef std::string string; typedef std::vector<string> Strs; typedef std::wstring W; typedef std::vector<W> Ws;
void (*ops_hook)() = 0;                 // called from every function the user supplies
static inline void hook() { if (ops_hook) ops_hook(); }
static thread_local string* tl_log;
struct Logging { string* old; explicit Logging(string* n) : old(tl_log) { tl_log = n; } ~Logging() { tl_log = old; } };
static void note(const char* s, const string& v) { hook(); if (tl_log) *tl_log += string(s) + ":" + v + ";"; hook(); }
struct Point { int x, y; };
static void validate(boost::any& v, const Strs& t, Point*, int) { hook(); po::validators::check_first_occurrence(v); const string& s = po::validators::get_single_string(t); hook(); size_t c = s.find('x'); if (c == string::npos) throw po::invalid_option_value(s); Point p = { atoi(s.c_str()), atoi(s.c_str() + c + 1) }; v = boost::any(p); }
static string n2s(long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return b; }
struct Shared {
    po::options_description d, g; po::positional_options_description pos;
    Shared() : d("Shared"), g("Group")
    {
        g.add_options()("level,l", po::value<int>()->default_value(3)->notifier([](int v) { note("level", n2s(v)); }), "the level of something, with a text that is broken into lines in the help output")
            ("list", po::value<Strs>()->composing()->multitoken()->notifier([](const Strs& v) { note("list", n2s((long)v.size())); }), "list of\nvalues\tindented");
        d.add_options()("help,h", "help text")("long-enough-name,alias-of-the-name,n", po::value<string>()->notifier([](const string& v) { note("name", v); }), "name")("long-enough-other", po::value<double>(), "other")
            ("opt,o", po::value<boost::optional<int> >(), "")("wide,w", po::wvalue<W>(), "")("impl,i", po::value<string>()->implicit_value("I"), "")("bool,b", po::bool_switch(), "")("point", po::value<Point>(), "")("prefix-*", po::value<string>(), "wild")("need", po::value<int>()->required(), "r")("text", po::value<string>()->default_value("a default that is longer than fifteen"), "");
        d.add(g); pos.add("long-enough-name", 1).add("list", -1);
    }
};
static Shared& S() { static Shared* s = new Shared; return *s; }
void ops_prepare() { S(); }
int ops_count() { return 25; }
const char* ops_name(int i) { static const char* n[] = { "parse a command line", "parse a wide command line", "parse, store and notify", "an unknown option", "an ambiguous option", "read a configuration", "print help", "look up names", "an invalid value", "split and convert", "read an environment", "look up in chained maps", "copy the description", "store wide and collect", "a missing required option", "custom parser and other style", "a rejected user type", "custom style parser", "a missing value under custom parsers", "read a wide configuration and notify", "read an environment by prefix", "values of many types", "declare options and print them", "configuration files by name", "error objects" }; return n[i]; }
static string show(const po::variables_map& m)
{
    string r; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) { r += i->first; r += i->second.defaulted() ? "(d)=" : "="; const boost::any& a = i->second.value(); if (const string* s = boost::any_cast<string>(&a)) r += *s; else if (const int* s = boost::any_cast<int>(&a)) r += n2s(*s); else if (const Point* s = boost::any_cast<Point>(&a)) r += n2s(s->x) + "x" + n2s(s->y); else if (const Strs* s = boost::any_cast<Strs>(&a)) for (size_t k = 0; k < s->size(); ++k) r += (*s)[k] + ","; else if (const W* s = boost::any_cast<W>(&a)) r += boost::to_utf8(*s); else if (const bool* s = boost::any_cast<bool>(&a)) r += *s ? "yes" : "no"; else if (const boost::optional<int>* s = boost::any_cast<boost::optional<int> >(&a)) r += *s ? n2s(**s) : string("none"); r += " "; }
    return r;
}
template<class C> static string show(const po::basic_parsed_options<C>& p)
{
    string r; for (size_t i = 0; i < p.options.size(); ++i) { const po::basic_option<C>& o = p.options[i]; r += o.string_key + "/" + n2s(o.position_key) + (o.unregistered ? "u" : ""); for (size_t k = 0; k < o.value.size(); ++k) { r += "'"; for (size_t x = 0; x < o.value[k].size(); ++x) { if (o.value[k][x] < 128 && o.value[k][x] > 0) r += char(o.value[k][x]); else r += "#" + n2s((long)o.value[k][x]); } } r += n2s((long)o.original_tokens.size()) + " "; } return r;
}
static Strs tk(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static std::pair<string, string> custom(const string& s) { hook(); if (s == "@x") return std::make_pair(string("opt"), string("4")); return std::pair<string, string>(); }
// variant: 0 or 1, so that two threads running the same operation use different data
static string body(int op, int v)
{
    const po::options_description& d = S().d; string r;
    switch (op) {
    case 0: r = show(po::command_line_parser(v ? tk({"-l", "5", "--alias-of-the-name=second", "x", "--", "-y"}) : tk({"--long-enough-name=first value", "-bh", "-i", "--list", "a", "b", "-l7", "--unknown=1"})).options(d).positional(S().pos).allow_unregistered().run()); break;
    case 1: { Ws w; w.push_back(v ? L"--wide=\x6f22\x5b57" : L"-w\xe9\xe9\xe9"); w.push_back(L"--list"); w.push_back(L"one"); w.push_back(v ? L"--opt=3" : L"-o4"); r = show(po::wcommand_line_parser(w).options(d).positional(S().pos).run()); break; }
    case 2: { po::variables_map m; po::store(po::command_line_parser(v ? tk({"--need=1", "--list", "p", "q", "--impl", "--opt=8"}) : tk({"--need", "2", "-n", "name", "-l", "9", "-b", "--wide=w", "--point=3x4"})).options(d).run(), m); string log; { Logging l(&log); po::notify(m); } r = show(m) + log; break; }
    case 3: po::command_line_parser(v ? tk({"--no-such-thing=1"}) : tk({"-Z"})).options(d).run(); break;
    case 4: po::command_line_parser(v ? tk({"--long-enough=1"}) : tk({"--long-e=2"})).options(d).run(); break;
    case 5: { std::istringstream is(v ? "level=4\n[prefix-section]\nx = y # c\n" : "long-enough-name = from file # comment\nlist=a\nlist=b\n[other]\nunknown=1\n"); po::parsed_options p = po::parse_config_file(is, d, true); po::variables_map m; po::store(p, m); r = show(p) + show(m); break; }
    case 6: { std::ostringstream o; if (v) o << S().g; else o << d; r = o.str(); break; }
    case 7: { const char* n[] = { "level", "-l", "alias-of-the-name", "prefix-abc", "LEVEL", "nope", "lev" }; for (int i = v; i < 7; ++i) { const po::option_description* q = d.find_nothrow(n[i], i == 6, i == 4, false); r += q ? q->key(n[i]) + q->canonical_display_name(st::allow_long) + q->format_parameter() : string("none"); r += " "; } break; }
    case 8: { po::variables_map m; po::store(po::command_line_parser(v ? tk({"--level=abc"}) : tk({"--point=1x1", "--long-enough-other", "1x"})).options(d).run(), m); break; }
    case 9: { Strs s = po::split_unix(v ? "a 'b c' \"d\\\"e\" f" : "one\\ two three 'four five'"); for (size_t i = 0; i < s.size(); ++i) r += s[i] + "|"; r += boost::to_utf8(boost::from_utf8(v ? "caf\xc3\xa9 and a text of more than thirty-two characters" : "\xe6\xbc\xa2\xe5\xad\x97")); r += boost::to_local_8_bit(boost::from_local_8_bit(v ? "plain" : "text of the other thread")); break; }
    case 10: { r = show(po::parse_environment(d, [v](const string& n) -> string { hook(); return n == (v ? "MCA" : "MCB") ? "long-enough-name" : ""; })); break; }
    case 11: { po::variables_map a, b; a.next(&b); po::store(po::command_line_parser(tk({v ? "--impl=x" : "--text=y"})).options(d).run(), a); po::store(po::command_line_parser(tk({"--level=8", "--text=z"})).options(d).run(), b); const char* n[] = { "impl", "text", "level", "missing", "list" }; for (int i = 0; i < 5; ++i) { const po::variable_value& x = a[n[i]]; r += x.empty() ? "-" : x.defaulted() ? "d" : "v"; if (const string* q = boost::any_cast<string>(&x.value())) r += *q; } r += n2s((long)a.count("missing")); break; }
    case 12: { po::options_description e(v ? "Copy" : "Another copy"); e.add(d); e.add_options()("extra", "x"); std::ostringstream o; o << e; r = o.str() + show(po::command_line_parser(tk({"--extra", "-h"})).options(e).run()); break; }
    case 13: { Ws w; w.push_back(v ? L"--wide=\xe9" : L"--need=5"); w.push_back(L"--zzz"); w.push_back(L"pos"); po::wparsed_options p = po::wcommand_line_parser(w).options(d).allow_unregistered().run(); Ws u = po::collect_unrecognized(p.options, v ? po::include_positional : po::exclude_positional); po::variables_map m; po::store(p, m); r = show(m); for (size_t i = 0; i < u.size(); ++i) r += boost::to_utf8(u[i]) + "|"; break; }
    case 14: { po::variables_map m; po::store(po::command_line_parser(v ? tk({"-h"}) : Strs()).options(d).run(), m); po::notify(m); break; }
    case 15: r = show(po::command_line_parser(v ? tk({"@x", "-opt", "3", "/l", "4"}) : tk({"/h", "-opt=5", "@x", "--LEVEL", "6"})).options(d).style(st::unix_style | st::allow_long_disguise | st::allow_slash_for_short | st::case_insensitive).extra_parser(custom).run()); break;
    case 16: { po::variables_map m; std::istringstream is(v ? "point=7y7\n" : "level=1\npoint=zz\n"); po::store(po::parse_config_file(is, d), m); break; }
    case 17: r = show(po::command_line_parser(v ? tk({"+a", "-l", "1", "+b", "p"}) : tk({"+q", "--bool", "x"})).options(d).positional(S().pos).extra_style_parser([](Strs& a) { hook(); std::vector<po::option> o; if (a[0][0] == '+') { po::option x; x.string_key = "opt"; x.value.push_back("5"); x.original_tokens.push_back(a[0]); a.erase(a.begin()); o.push_back(x); } return o; }).run()); break;
    case 18: { auto sp = [](Strs& a) { hook(); std::vector<po::option> o; if (a[0] == "+") a.erase(a.begin()); hook(); return o; }; if (v) r = show(po::command_line_parser(tk({"+", "-n", "-x", "-l", "-h"})).options(d).extra_style_parser(sp).extra_parser(custom).run()); else r = show(po::command_line_parser(tk({"--need", "12", "+", "-o", "4", "--prefix-z", "-b"})).options(d).extra_style_parser(sp).run()); break; }
    case 19: { std::wistringstream is(v ? L"need=4\nwide=\x6f22\x5b57\nlong-enough-name=n\n" : L"[prefix-\xe9]\na=\xe9t\xe9 # c\n[]\n"); po::wparsed_options p = po::parse_config_file(is, d, true); po::variables_map m; po::store(p, m); string log; { Logging l(&log); po::notify(m); } r = show(p) + show(m) + log; break; }
    case 20: r = show(po::parse_environment(d, v ? "PRA_" : "PRB_")) + show(po::parse_environment(d, string(v ? "PRB_L" : "PRA_L"))); for (const string& x : po::split_winmain(v ? "a \"b c\" d\\\\\"e f\"" : "one \"two three\" four\\\"")) r += x + "|"; break;
    case 21: {
        po::options_description e; e.add_options()("vi", po::value<std::vector<int> >()->multitoken(), "")("vd", po::value<std::vector<double> >()->composing(), "")("c", po::value<char>(), "")("u", po::value<unsigned short>(), "")("yes", po::value<bool>(), "")("vb", po::value<std::vector<bool> >()->multitoken(), "")("wv", po::wvalue<Ws>()->multitoken(), "")("f", po::value<float>()->implicit_value(2.5f), "");
        po::variables_map m; po::store(po::command_line_parser(v ? tk({"--vi", "1", "22", "333", "--c=q", "--yes=on", "--vb", "yes", "no", "1", "--f"}) : tk({"--vd", "1.5", "--vd=2.25", "--u=65535", "--yes=off", "--wv", "w1", "w2\xc3\xa9", "--vi", "4", "5", "--vb=0"})).options(e).run(), m);
        for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) { r += i->first + "="; const boost::any& a = i->second.value(); if (const std::vector<int>* q = boost::any_cast<std::vector<int> >(&a)) for (int x : *q) r += n2s(x) + ","; else if (const std::vector<double>* q = boost::any_cast<std::vector<double> >(&a)) for (double x : *q) r += n2s((long)(x * 100)) + ","; else if (const char* q = boost::any_cast<char>(&a)) r += *q; else if (const unsigned short* q = boost::any_cast<unsigned short>(&a)) r += n2s(*q); else if (const bool* q = boost::any_cast<bool>(&a)) r += *q ? "yes" : "no"; else if (const float* q = boost::any_cast<float>(&a)) r += n2s((long)(*q * 100)); else if (const std::vector<bool>* q = boost::any_cast<std::vector<bool> >(&a)) for (bool x : *q) r += x ? "T" : "F"; else if (const Ws* q = boost::any_cast<Ws>(&a)) for (const W& x : *q) r += boost::to_utf8(x) + ","; r += " "; }
        try { po::variables_map n; po::store(po::command_line_parser(v ? tk({"--vb", "yes", "maybe"}) : tk({"--vi", "1", "x2"})).options(e).run(), n); } catch (const std::exception& x) { r += x.what(); }
        break; }
    case 22: {
        po::options_description e(v ? "Declared" : "", v ? 60 : 90, v ? 20 : 40), q("Sub group"); e.add_options()("first,a,f", po::value<int>()->default_value(5, "five")->value_name("N"), "a first text of some length, which is folded at the end of the line because it is long")("plain", "")("s,s", po::value<string>()->implicit_value("imp", "implied"), "text\n\ttabbed text that is continued under the tab"); q.add_options()("in-the-group", po::bool_switch(), v ? "x" : "y"); e.add(q);
        po::positional_options_description p; p.add("first", 2).add("in-the-group", v ? 1 : -1); std::ostringstream o; o << e; r = o.str() + n2s((long)p.max_total_count()); for (unsigned i = 0; i < 3; ++i) r += p.name_for_position(i) + " "; for (const boost::shared_ptr<po::option_description>& x : e.options()) r += x->key("") + x->long_name() + x->format_name() + x->format_parameter() + x->description().substr(0, 5) + n2s(x->match("firs", true, false, false)) + n2s(x->match(v ? "plain" : "PLAIN", false, true, true)) + n2s((long)x->long_names().second);
        try { p.add("again", 1).name_for_position(v ? 1 : 9); e.find(v ? "none" : "fi", true, true, true); } catch (const std::exception& x) { r += x.what(); }
        break; }
    case 23: { po::parsed_options p = po::parse_config_file("/dev/null", d, true); r = show(p); try { show(po::parse_config_file(v ? "/nonexistent-a" : "/nonexistent-b/c", d)); } catch (const std::exception& x) { r += x.what(); } std::istringstream is(v ? " level = 5 \n\n[ g ]\n" : "list = \"quoted\"  # c\n#only\nbool=\nlist\n"); r += show(po::parse_config_file(is, d, v)); break; }
    case 24: {
        po::validation_error a(po::validation_error::invalid_option_value, v ? "one" : "two", v ? "a" : "b", st::allow_long); a.set_original_token("--tok"); po::validation_error b(a); b.set_option_name("other"); b.set_prefix(st::allow_slash_for_short); r = string(a.what()) + b.what() + a.what() + a.get_option_name();
        po::ambiguous_option am(tk({"alpha", "beta", v ? "gamma" : "delta", "alpha"})); am.set_option_name("a"); am.set_prefix(st::allow_long); r += am.what(); for (const string& x : am.alternatives()) r += x;
        po::unknown_option u(v ? "first" : "second"); u.add_context(v ? "ctx" : "txc", "--ctx", st::allow_dash_for_short); r += u.what(); po::multiple_occurrences mo; mo.set_option_name("m"); r += mo.what(); po::required_option q(v ? "r1" : "r2"); q.set_prefix(st::allow_long_disguise); r += q.what(); po::invalid_command_line_syntax sy(po::invalid_syntax::extra_parameter, v ? "e1" : "e2", "--e", st::allow_long); r += sy.what() + sy.tokens(); po::invalid_config_file_syntax cs(v ? "l1" : "l2", po::invalid_syntax::unrecognized_line); r += cs.what() + cs.tokens(); break; }
    }
    return r;
}
void ops_run(int op, int v, char* out, size_t cap)
{
    string r;
    try { r = body(op, v); } catch (const std::exception& e) { r = string("error: ") + e.what(); }
    size_t n = r.size() < cap - 1 ? r.size() : cap - 1; memcpy(out, r.data(), n); out[n] = 0;
}

// one map used for history a, cleared, then used for history b (a < 0: a fresh map)
static string history(int i, po::variables_map& m)
{
    static const char* lines[12][5] = { {"--need=1", "--list", "a", "b", 0}, {"--need=2", "--impl=x", 0}, {"--level=5", 0}, {0}, {"--need=3", "--long-enough-name=nm", "--bool", 0}, {"--need=4", "--prefix-q=1", "--text=", 0}, {"--level=zz", 0}, {"--other=1", 0}, {"--other=2", "--need=9", 0}, {"--list", "z", "--point=1x2", 0}, {"--need=7", "--other=zz", 0}, {"--must=here", 0} };
    po::options_description e; e.add_options()("other", po::value<int>()->default_value(6)->notifier([](int v) { note("other", n2s(v)); }), "")("need", po::value<string>(), "")("must", po::value<string>()->required(), "");
    string r, log;
    try { Strs t; for (int k = 0; lines[i][k]; ++k) t.push_back(lines[i][k]); bool own = i == 7 || i == 8 || i == 10 || i == 11; po::store(po::command_line_parser(t).options(own ? e : S().d).run(), m); } catch (const std::exception& x) { r += string("store error: ") + x.what() + "; "; }
    { Logging l(&log); try { po::notify(m); } catch (const std::exception& x) { r += string("notify error: ") + x.what() + "; "; } }
    return r + show(m) + log + n2s((long)m.size());
}
int ops_histories() { return 12; }
void ops_reuse(const int* a, int n, int b, int how, char* out, size_t cap)
{
    po::variables_map m, other; string r;
    for (int i = 0; i < n; ++i) { history(a[i], m); if (how == 0) m.clear(); else if (how == 1) m = po::variables_map(); else { other = m; other.clear(); m = other; } }
    r = history(b, m); size_t k = r.size() < cap - 1 ? r.size() : cap - 1; memcpy(out, r.data(), k); out[k] = 0;
}
