// C29: a failure at every call-out and at every allocation of every scenario.
// The allocation function is replaced; while a scenario's operation runs the k-th allocation fails.
#include "cmdmodel.hpp"
#include <boost/optional.hpp>
#include <boost/program_options/detail/convert.hpp>
#include <new>
#include <fcntl.h>
#include <sys/stat.h>
using namespace cm;
using mc::Run;
const char* mc::property = "C29";
extern char** environ;
static long g_live = 0, g_allocs = 0, g_failat = 0, g_calls = 0, g_callat = 0; static bool g_armed = false, g_fired = false;
static bool fault_now() { if (g_armed) { ++g_allocs; if (g_failat && g_allocs == g_failat) { g_fired = true; return true; } } return false; }
void* operator new(size_t n) { if (fault_now()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

#undef _WIN32
#define _WIN32 1
#include MC_WINMAIN
#undef _WIN32

typedef std::wstring W; typedef std::vector<W> Ws;
struct Boom { long n; const void* cookie; };
static char g_cookie;
// every function the user supplies passes through here
static void callout() { if (!g_armed) return; ++g_calls; if (g_callat && g_calls == g_callat) { g_fired = true; Boom b = { g_calls, &g_cookie }; throw b; } }
struct Pause { bool a; Pause() : a(g_armed) { g_armed = false; } ~Pause() { g_armed = a; } };   // the harness's own work inside a call-out is not part of the scenario

// ---- user types
struct Point { int x, y; Point(int a = 0, int b = 0) : x(a), y(b) {} };
static void validate(boost::any& v, const Strs& t, Point*, int)
{
    callout(); po::validators::check_first_occurrence(v); const string& s = po::validators::get_single_string(t); size_t c = s.find(':');
    if (c == string::npos) throw po::validation_error(po::validation_error::invalid_option_value);
    v = boost::any(Point(atoi(s.c_str()), atoi(s.c_str() + c + 1))); callout();
}
struct Streamed { int n; };
static std::istream& operator>>(std::istream& i, Streamed& s) { callout(); return i >> s.n; }
static std::ostream& operator<<(std::ostream& o, const Streamed& s) { return o << s.n; }
class Own : public po::value_semantic {      // a semantic of the user's own: every virtual function is a call-out
public:
    unsigned lo, hi; bool req; string* target; const void* tag;
    Own(unsigned l, unsigned h, bool r, string* t) : lo(l), hi(h), req(r), target(t), tag(0) {}
    string name() const { callout(); return "own"; }
    unsigned min_tokens() const { callout(); return lo; } unsigned max_tokens() const { callout(); return hi; }
    bool adjacent_tokens_only() const { return false; }
    bool is_composing() const { callout(); return false; } bool is_required() const { callout(); return req; }
    void parse(boost::any& v, const Strs& t, bool) const { callout(); string r; for (size_t i = 0; i < t.size(); ++i) r += "<" + t[i] + ">"; v = boost::any(r); callout(); }
    bool apply_default(boost::any& v) const { callout(); v = boost::any(string("own default")); return true; }
    void notify(const boost::any& v) const { callout(); if (target) *target = boost::any_cast<const string&>(v); callout(); }
};
static string show(const boost::any& a)
{
    if (a.empty()) return "-";
    if (const string* s = boost::any_cast<string>(&a)) return mc::q(*s);
    if (const W* s = boost::any_cast<W>(&a)) return mc::q(*s);
    if (const int* s = boost::any_cast<int>(&a)) return "int " + mc::num(*s);
    if (const bool* s = boost::any_cast<bool>(&a)) return *s ? "true" : "false";
    if (const Strs* s = boost::any_cast<Strs>(&a)) return mc::q(*s);
    if (const Ws* s = boost::any_cast<Ws>(&a)) return mc::q(*s);
    if (const std::vector<int>* s = boost::any_cast<std::vector<int> >(&a)) { string r; for (size_t i = 0; i < s->size(); ++i) r += mc::num((*s)[i]) + ","; return r; }
    if (const Point* p = boost::any_cast<Point>(&a)) return "(" + mc::num(p->x) + ":" + mc::num(p->y) + ")";
    if (const Streamed* p = boost::any_cast<Streamed>(&a)) return "s" + mc::num(p->n);
    if (const boost::optional<int>* p = boost::any_cast<boost::optional<int> >(&a)) return *p ? "opt " + mc::num(**p) : string("none");
    return a.type().name();
}
static string show(const po::variables_map& m) { string r; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) r += i->first + "=" + show(i->second.value()) + (i->second.defaulted() ? "(d) " : " "); return r; }
template<class C> static string show(const po::basic_parsed_options<C>& p)
{
    string r; for (size_t i = 0; i < p.options.size(); ++i) { const po::basic_option<C>& o = p.options[i]; r += o.string_key + "@" + mc::num(o.position_key + 1) + mc::q(o.value) + mc::q(o.original_tokens) + (o.unregistered ? "u" : "") + (o.case_insensitive ? "i" : "") + " "; }
    return r;
}
static string show(const po::options_description& d)
{
    std::ostringstream o; o << d; string r = o.str(); for (size_t i = 0; i < d.options().size(); ++i) { const po::option_description& q = *d.options()[i]; r += "|" + q.canonical_display_name(po::command_line_style::allow_long) + mc::num(q.long_names().second) + q.description(); } return r;
}

// ---- scenarios. op() is the only part that runs with faults; it must be repeatable after reset().
struct World {
    virtual ~World() {}
    virtual void reset() {}                 // drop all results
    virtual void op() = 0;
    virtual string result() { return ""; }
    virtual string inputs() { return ""; }  // what a failure must leave as it was
    virtual void tidy() {}                  // after a failure: release what the user still owns
    virtual string usable() { return ""; }  // after a failure: exercised for crashes, and its result must not depend on the fault
    virtual bool reported(const string&) { return false; }   // standard file streams turn exhaustion into a failed read, which must be reported as one
    virtual bool bad_stream() { return false; }   // the caller's stream reports the failure (standard streams keep exceptions to themselves)
};
static const st::style_t ALLST = st::style_t(st::unix_style | st::allow_long_disguise);
struct Decl {
    po::options_description d, g1, g2; po::positional_options_description pos; string own, text; int num; std::vector<int> many; int notified;
    Decl() : d("Main"), g1("First group"), g2("Second"), num(0), notified(0)
    {
        g1.add_options()("long-enough-name,l", po::value<string>(&text)->notifier([this](const string&) { callout(); ++notified; }), "a description which is long enough to be broken over two lines, or even three of them, in the second column")
            ("number,n", po::value<int>(&num)->default_value(7)->notifier([this](int) { callout(); ++notified; }), "num")("many", po::value<std::vector<int> >(&many)->multitoken()->composing(), "list\nsecond\tline");
        g2.add_options()("implicit-value,i", po::value<string>()->implicit_value("an implicit value of some length"), "")("point", po::value<Point>()->notifier([this](const Point&) { callout(); ++notified; }), "p")("streamed", po::value<Streamed>()->default_value(Streamed()), "s")("opt", po::value<boost::optional<int> >(), "")("wide", po::wvalue<W>(), "")("wides", po::wvalue<Ws>()->multitoken(), "")("flag,f", po::bool_switch(), "")("own,y", new Own(1, 2, false, &own), "own")("prefix-*", po::value<string>(), "wild")("files", po::value<Strs>(), "");
        d.add_options()("help,h", "show help");
        d.add(g1).add(g2); pos.add("own", 1).add("files", -1);
    }
    string shown() { return show(d) + mc::num(pos.max_total_count()); }
};
static Strs toks() { const char* t[] = { "--long-enough-name=some value that needs memory", "-n", "5", "-fh", "--many", "1", "2", "3", "--implicit-value", "--point=3:4", "--streamed", "12", "--opt=9", "--wide=w\xc3\xa9 and some more characters here", "--wides", "a", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb", "--prefix-of-something=x", "--unknown-option-with-long-name=1", "-y", "own value", "@custom:long-enough-name", "+style", "positional argument number one", "--", "--last" }; return Strs(t, t + sizeof t / sizeof *t); }
static std::pair<string, string> custom(const string& s) { callout(); if (s.compare(0, 8, "@custom:") == 0) { Pause p; return std::make_pair(string("opt"), string("33")); } return std::pair<string, string>(); }
static std::vector<po::option> styled(Strs& a) { callout(); std::vector<po::option> r; Pause p; if (!a.empty() && a[0] == "+style") { po::option o; o.string_key = "number"; o.value.push_back("8"); o.original_tokens.push_back(a[0]); a.erase(a.begin()); r.push_back(o); } return r; }

struct CmdLine : World {
    Decl& D; Strs t; bool wide, extra, unreg; std::shared_ptr<po::parsed_options> p; std::shared_ptr<po::wparsed_options> w; Ws wt;
    CmdLine(Decl& d, bool wd, bool ex, bool un) : D(d), t(toks()), wide(wd), extra(ex), unreg(un) { if (!ex) { t.erase(std::find(t.begin(), t.end(), "@custom:long-enough-name")); t.erase(std::find(t.begin(), t.end(), "+style")); } if (!un) t.erase(std::find(t.begin(), t.end(), "--unknown-option-with-long-name=1")); for (size_t i = 0; i < t.size(); ++i) wt.push_back(boost::from_utf8(t[i])); }
    void reset() { p.reset(); w.reset(); }
    void op()
    {
        if (wide) { po::wcommand_line_parser q(wt); q.options(D.d).positional(D.pos).style(ALLST); if (unreg) q.allow_unregistered(); if (extra) { q.extra_parser(custom); q.extra_style_parser(styled); } w.reset(new po::wparsed_options(q.run())); }
        else { po::command_line_parser q(t); q.options(D.d).positional(D.pos).style(ALLST); if (unreg) q.allow_unregistered(); if (extra) { q.extra_parser(custom); q.extra_style_parser(styled); } p.reset(new po::parsed_options(q.run())); }
    }
    string result() { return wide ? show(*w) : show(*p); }
    string inputs() { return D.shown() + mc::q(t) + mc::q(wt); }
};
static po::parsed_options hand(const po::options_description* d, std::initializer_list<std::pair<const char*, const char*> > l)
{
    po::parsed_options p(d, st::allow_long); for (auto i = l.begin(); i != l.end(); ++i) { po::option o; o.string_key = i->first; if (*i->second) o.value.push_back(i->second); o.original_tokens.push_back("--" + o.string_key); p.options.push_back(o); } return p;
}
struct Store : World {      // second store into a map that already holds final values
    Decl& D; po::parsed_options a, b; int kind; po::variables_map m, base; string fin; std::shared_ptr<po::wparsed_options> wb;
    Store(Decl& d, int k) : D(d), a(hand(&d.d, { {"long-enough-name", "first value, which is long"}, {"many", "1"}, {"point", "1:2"}, {"flag", ""} })),
        b(hand(&d.d, { {"long-enough-name", "ignored"}, {"many", "22"}, {"opt", "4"}, {"streamed", "6"}, {"wide", k == 2 ? "wide text of some length \xc3\xa9" : "wide text of some length"}, {"wides", "x"}, {"wides", "yyyyyyyyyyyyyyyyyyyyyyyyyyy"}, {"own", "first token of own"}, {"implicit-value", ""}, {"files", "f1"}, {"files", "f2222222222222222222222222222"}, {"number", "12"}, {"point", "8:9"} })), kind(k), base(&m) { if (k == 2) wb.reset(new po::wparsed_options(b)); reset(); }
    void reset() { m.clear(); if (kind != 0) po::store(a, m); }
    void op() { if (kind == 2) po::store(*wb, m); else po::store(b, m); }
    string result() { return show(m); }
    string inputs()
    {
        string r = D.shown() + show(b); if (kind) { const char* f[] = { "long-enough-name", "point", "flag" }; for (int i = 0; i < 3; ++i) r += show(m[f[i]].value()) + (m[f[i]].defaulted() ? "d" : "f"); } return r;
    }
};
struct Notify : World {
    Decl& D; po::variables_map m; bool miss; Notify(Decl& d, bool x) : D(d), miss(x) { Store s(d, 1); s.op(); m = s.m; }
    void reset() { D.text = ""; D.num = 0; D.many.clear(); D.own = ""; D.notified = 0; }
    void op() { po::notify(m); }
    string result() { return D.text + mc::num(D.num) + mc::num(D.many.size()) + D.own + mc::num(D.notified); }
    string inputs() { return D.shown() + show(m); }
};
static const char* CFG = "# comment\nlong-enough-name = a value of some length # c\nnumber=5\n[prefix-section]\nname=in the section, long\n[]\nmany=1\n\nmany = 2\r\nunknown.option.in.file=some text\npoint=4:5";
struct Config : World {
    po::options_description d; string t, f; int kind; std::istringstream is; std::wistringstream ws; std::shared_ptr<po::parsed_options> p; std::shared_ptr<po::wparsed_options> w;
    explicit Config(int k) : t(CFG), kind(k)
    {
        d.add_options()("long-enough-name", po::value<string>(), "")("number", po::value<int>(), "")("many", po::value<std::vector<int> >(), "")("prefix-section*", po::value<string>(), "")("point", po::value<Point>(), "");
        if (k == 4 || k == 5) { f = string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/mc-fault-" + mc::num(getpid()) + "-" + mc::num(k) + ".cfg"; std::ofstream(f.c_str()) << t; }
    }
    ~Config() { if (!f.empty()) unlink(f.c_str()); }
    void reset() { p.reset(); w.reset(); is.clear(); is.str(t); ws.clear(); ws.str(W(t.begin(), t.end())); }
    void op()
    {
        switch (kind) {
        case 0: case 1: p.reset(new po::parsed_options(po::parse_config_file(is, d, true))); break;
        case 2: w.reset(new po::wparsed_options(po::parse_config_file(ws, d, true))); break;
        case 4: p.reset(new po::parsed_options(po::parse_config_file(f.c_str(), d, true))); break;
        case 5: w.reset(new po::wparsed_options(po::parse_config_file<wchar_t>(f.c_str(), d, true))); break;
        }
    }
    bool reported(const string& e) { return kind >= 4 && e.find("reading_file") != string::npos && e.find(f) != string::npos; }
    bool bad_stream() { return kind < 2 ? is.bad() : kind == 2 ? ws.bad() : false; }
    string result() { return p ? show(*p) : show(*w); }
    string inputs() { return show(d); }
};
struct Env : World {
    Decl& D; int kind; Strs e; std::vector<char*> v; std::shared_ptr<po::parsed_options> p;
    Env(Decl& d, int k) : D(d), kind(k) { const char* t[] = { "MC_long-enough-name=value of a certain length", "MC_NUMBER=4", "OTHER=x", "MC_MANY=", "MC_POINT=1:1", "Z=3" }; e.assign(t, t + 6); for (size_t i = 0; i < e.size(); ++i) v.push_back(&e[i][0]); v.push_back(0); }
    void reset() { p.reset(); }
    void op()
    {
        struct Sw { char** o; explicit Sw(char** n) : o(environ) { environ = n; } ~Sw() { environ = o; } } sw(&v[0]);
        if (kind == 0) p.reset(new po::parsed_options(po::parse_environment(D.d, "MC_")));
        else p.reset(new po::parsed_options(po::parse_environment(D.d, boost::function1<string, string>([](const string& n) -> string { callout(); Pause q; return n == "OTHER" ? string("files") : n == "Z" ? string("implicit-value") : string(); }))));
    }
    string result() { return show(*p); }
    string inputs() { string r = D.shown() + mc::q(e); for (char** x = environ; *x && x < environ + 3; ++x) r += *x; return r; }
};
struct Split : World {
    int kind; Strs r; Ws w; explicit Split(int k) : kind(k) {}
    void reset() { r.clear(); w.clear(); }
    void op()
    {
        const string s = "first 'second argument with some length' third\\ one \"quoted \\\" text of some length\" last_argument_without_blanks"; const W ws(s.begin(), s.end());
        switch (kind) { case 0: r = po::split_unix(s); break; case 1: w = po::split_unix(ws); break; case 2: r = po::split_winmain(s); break; case 3: w = po::split_winmain(ws); break; case 4: r = po::split_unix(s, " ", "'\"", "\\"); break; }
    }
    string result() { return mc::q(r) + mc::q(w); }
};
struct Collect : World {
    Decl& D; std::shared_ptr<po::parsed_options> p; std::shared_ptr<po::wparsed_options> w; Strs r; Ws q; bool wide;
    Collect(Decl& d, bool wd) : D(d), wide(wd) { CmdLine c(d, false, true, true); c.op(); p = c.p; w.reset(new po::wparsed_options(*p)); }
    void reset() { r.clear(); q.clear(); }
    void op() { if (wide) q = po::collect_unrecognized(w->options, po::include_positional); else { r = po::collect_unrecognized(p->options, po::exclude_positional); po::parsed_options c(*p); po::wparsed_options x(c); if (x.options.size() != p->options.size()) r.clear(); } }
    string result() { return mc::q(r) + mc::q(q); }
    string inputs() { return show(*p) + show(*w); }
};
struct Declare : World {    // each declaration either happens or does not
    int kind; std::shared_ptr<po::options_description> d; std::vector<po::value_semantic*> s; std::vector<bool> given; size_t done; int notes;
    explicit Declare(int k) : kind(k), done(0), notes(0) {}
    ~Declare() { tidy(); }
    void tidy() { for (size_t i = 0; i < s.size(); ++i) if (!given[i]) delete s[i]; s.clear(); given.clear(); }
    void reset()
    {
        tidy(); done = 0; d.reset(new po::options_description("Declared options"));
        s.push_back(po::value<string>()->default_value("the default value of some length")); s.push_back(po::value<std::vector<int> >()->multitoken()); s.push_back(po::value<int>()->required()->value_name("a long name of the value")); s.push_back(new Own(0, 1, false, 0)); s.push_back(po::bool_switch()); s.push_back(po::value<int>()->default_value(1)->implicit_value(2)); given.assign(s.size(), false);
    }
    po::value_semantic* take(size_t i) { given[i] = true; return s[i]; }
    void op()
    {
        if (kind == 1) { boost::shared_ptr<po::option_description> o(new po::option_description("shared-option-of-some-length,s", take(0), "text of the option")); d->add(o); done = 1; o.reset(new po::option_description("without-description-text", take(1))); d->add(o); done = 2; return; }
        po::options_description_easy_init e = d->add_options();
        e("first-option-with-a-long-name,first-alias-which-is-long,f", take(0), "some description of the first option"); done = 1;
        e("second-option-with-a-long-name", take(1)); done = 2;
        e("third,third-alias-with-a-long-name,x", take(2), "some description of the third option, long enough"); done = 3;
        e("help-without-value-of-long-name,h", "show this text and exit, please"); done = 4;
        e(",o", take(3), "only a letter and a description of it"); done = 5; e("switch-with-a-name-of-some-length", take(4), ""); done = 6; e("both-values-of-an-option,b", take(5), "implicit and default"); done = 7;
    }
    string result() { return show(*d); }
    string usable()
    {   // the options declared so far are there, completely; one that failed is not there in part
        string r = show(*d); if (d->options().size() != done) return "declared " + mc::num(done) + " but there are " + mc::num(d->options().size());
        Declare full(kind); full.reset(); full.op(); for (size_t i = 0; i < done; ++i) if (d->options()[i]->format_name() != full.d->options()[i]->format_name() || d->options()[i]->description() != full.d->options()[i]->description() || d->options()[i]->format_parameter() != full.d->options()[i]->format_parameter()) return "option " + mc::num(i) + " differs";
        po::options_description more("More"); more.add_options()("added-later", po::value<int>(), "added later"); d->add(more); std::ostringstream o; o << *d; r = o.str(); size_t a = r.find("added-later"); if (a == string::npos || r.find("--added-later", a + 12) != string::npos || r.find("More:") == string::npos || r.find("More:") > a) return "an option added afterwards is not shown once: " + r;
        return "";
    }
};
struct Group : World {
    Decl& D; std::shared_ptr<po::options_description> d; explicit Group(Decl& x) : D(x) {}
    void reset() { d.reset(new po::options_description("Outer")); d->add_options()("outer-option-of-some-length", "x"); }
    void op() { d->add(D.g1); d->add(D.g2); po::options_description c(D.g2); d->add(c); }
    string result() { return show(*d); }
    string inputs() { return show(D.g1) + show(D.g2) + D.shown(); }
    string usable() { show(*d); d->find_nothrow("outer-option-of-some-length", false); return ""; }
};
struct Print : World {
    Decl& D; std::shared_ptr<std::ostringstream> o; string r; int kind; Print(Decl& d, int k) : D(d), kind(k) {}
    void reset() { o.reset(new std::ostringstream); r = ""; if (kind == 1) o->exceptions(std::ios::badbit); }
    void op() { if (kind < 2) *o << D.d; else for (size_t i = 0; i < D.d.options().size(); ++i) { const po::option_description& q = *D.d.options()[i]; r += q.format_name() + q.format_parameter() + q.canonical_display_name(st::allow_long) + q.canonical_display_name(st::allow_dash_for_short) + q.key("x") + q.description(); } }
    bool bad_stream() { return kind == 0 && o->bad(); }
    string result() { return r + o->str(); }
    string inputs() { return D.shown(); }
};
struct Find : World {
    Decl& D; string r; explicit Find(Decl& d) : D(d) {}
    void reset() { r = ""; }
    void op() { r += D.d.find("long-enough-name", true, true, true).description(); r += D.d.find("-n", false).description(); const po::option_description* q = D.d.find_nothrow("there-is-no-such-option", true, true); r += q ? "found" : "none"; r += D.d.find("prefix-of-an-option-that-is-long", false).long_name(); r += D.d.find("long-en", true).long_name(); }
    string result() { return r; }
    string inputs() { return D.shown(); }
};
struct Erring : World {     // operations that end in an error of the library when memory suffices
    Decl& D; int kind; string r; po::variables_map m; std::istringstream is; Erring(Decl& d, int k) : D(d), kind(k) {}
    void reset() { r = ""; m.clear(); is.clear(); is.str("long-enough-name=x\nthis line has no meaning at all, and is long\n"); }
    void parse(const char* a, const char* b = 0, const char* c = 0) { Strs t; { Pause p; t.push_back(a); if (b) t.push_back(b); if (c) t.push_back(c); } po::parsed_options p = po::command_line_parser(t).options(D.d).style(ALLST).run(); po::store(p, m); po::notify(m); }
    void op()
    {
        try {
            switch (kind) {
            case 0: parse("--there-is-no-such-option-here=1"); break; case 1: parse("--pre"); break; case 2: parse("--number=not a number at all, certainly"); break;
            case 3: parse("--point=1:2", "--point=3:4"); break; case 4: parse("--long-enough-name"); break; case 5: parse("--help=argument that is not taken"); break; case 6: parse("-Zunknown letters of some length"); break;
            case 7: { po::options_description d; d.add_options()("required-option-of-some-length", (Pause(), po::value<int>()->required()), "x"); po::parsed_options p(&d); po::store(p, m); po::notify(m); break; }
            case 8: po::parse_config_file(is, D.g1); break;
            case 9: { po::options_description d; d.add_options()("option-a-of-some-length*", "x")("option-a-of-some-length-longer*", "y"); po::parse_config_file(is, d); break; }
            case 10: boost::from_utf8(string("some text of some length, and then \xff\xfe")); break; case 11: po::split_unix("an unfinished 'escape of some length \\q"); break;
            case 12: m["there-is-no-such-value-here"].as<int>(); break; case 13: { po::options_description d; d.add_options()("flag-of-some-length", (Pause(), po::value<bool>()), ""); po::parsed_options p = hand(&d, { {"flag-of-some-length", "neither yes nor no, but long"} }); po::store(p, m); break; }
            case 14: parse("--opt", "not an optional integer, but long"); break; case 15: parse("--wides", "\xff\xfe not proper text"); break; case 16: { po::options_description d; d.add_options()("ambiguous-one-of-some-length", "x")("ambiguous-two-of-some-length", "y"); d.find("ambiguous", true); break; }
            case 17: po::parse_config_file("/nonexistent/directory/file-of-some-length.cfg", D.g1); break;
            case 18: { Strs t; { Pause p; t.push_back("-x"); } po::command_line_parser(t).options(D.d).style(st::allow_long).run(); break; } case 19: { Strs t; { Pause p; t.assign(3, "one positional argument too many"); } po::positional_options_description q; q.add("files", 2); po::command_line_parser(t).options(D.d).positional(q).run(); break; }
            }
        } catch (const std::bad_alloc&) { throw; } catch (const Boom&) { throw; }
        catch (const std::exception& e) { g_armed = false; r = string(typeid(e).name()) + ": " + e.what(); std::exception_ptr p = std::current_exception(); try { std::rethrow_exception(p); } catch (const std::exception& f) { r += f.what(); } }
    }
    bool bad_stream() { return kind == 8 && is.bad(); }
    bool reported(const string&) { return false; }
    string result() { return r; }
    string inputs() { return D.shown(); }
};
struct Maps : World {
    Decl& D; po::variables_map m, n, own; string r; Maps(Decl& d) : D(d) { Store s(d, 1); m = s.m; s.op(); n = s.m; m.next(&n); own.next(&m); }
    void reset() { r = ""; }
    void op() { po::variables_map c(m), e; e = n; const char* k[] = { "long-enough-name", "implicit-value", "there-is-no-such-name-here", "opt" }; for (int i = 0; i < 4; ++i) { const po::variable_value& v = own[k[i]]; r += v.empty() ? "-" : v.defaulted() ? "d" : "v"; } r += c["long-enough-name"].as<string>() + e["implicit-value"].as<string>(); r += c.count("number") ? "1" : "0"; }
    string result() { return r; }
    string inputs() { return show(m) + show(n); }
};
struct Text : World {
    string r; W w; int kind; explicit Text(int k) : kind(k) {}
    void reset() { r = ""; w.clear(); }
    void op() { const string u = "text with \xc3\xa9 and \xe6\xbc\xa2 and \xf0\x9f\x98\x80, longer than one chunk of the conversion loop, twice"; switch (kind) { case 0: w = boost::from_utf8(u); break; case 1: r = boost::to_utf8(W(80, L'\x6f22')); break; case 2: w = boost::from_local_8_bit(string(70, 'a')); break; case 3: r = boost::to_local_8_bit(W(70, L'b')); break; case 4: r = po::to_internal(W(50, L'\xe9')); { Strs v(3, u); Ws x = po::to_internal(v).size() ? Ws(1, boost::from_utf8(v[0])) : Ws(); w = x[0]; } break; } }
    string result() { return mc::q(r) + mc::q(w); }
};
struct Positions : World {
    std::shared_ptr<po::positional_options_description> p; string r;
    void reset() { p.reset(new po::positional_options_description); r = ""; }
    void op() { p->add("first-positional-of-some-length", 3).add("second-positional-of-some-length", 1).add("trailing-positional-of-some-length", -1); for (int i = 0; i < 6; ++i) r += p->name_for_position(i) + ","; po::positional_options_description q(*p); r += q.name_for_position(1); }
    string result() { return r; }
    string usable() { unsigned n = p->max_total_count(); for (unsigned i = 0; i < n && i < 9; ++i) p->name_for_position(i); return ""; }
};
struct Whole : World {      // declaration, parsing, storing from three sources, notification
    string r; Strs t; std::shared_ptr<po::variables_map> m; std::istringstream is; std::vector<po::value_semantic*> s; std::vector<bool> given; int num; string own;
    Whole() : t(toks()), num(0) { t.resize(7); t.push_back("--point=3:4"); }
    ~Whole() { tidy(); }
    void tidy() { for (size_t i = 0; i < s.size(); ++i) if (!given[i]) delete s[i]; s.clear(); given.clear(); }
    po::value_semantic* take(size_t i) { given[i] = true; return s[i]; }
    void reset() { tidy(); r = own = ""; num = 0; m.reset(); is.clear(); is.str("many=17\nlong-enough-name=from the file\nown-option=xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\n"); s.push_back(po::value<string>()->notifier([](const string&) { callout(); })); s.push_back(po::value<int>(&num)->default_value(7)); s.push_back(po::value<std::vector<int> >()->multitoken()->composing()); s.push_back(po::value<Point>()->required()); s.push_back(new Own(1, 1, true, &own)); given.assign(s.size(), false); }
    void op()
    {
        po::options_description d("Whole"), g("Group"); po::options_description_easy_init e = g.add_options(); e("long-enough-name,l", take(0), "text"); e("number,n", take(1), "n"); e("many", take(2), "many"); d.add_options()("flag,f", "f")("help,h", "h"); po::options_description_easy_init f = d.add_options(); f("point", take(3)); f("own-option", take(4), "o"); d.add(g);
        po::variables_map v; po::store(po::command_line_parser(t).options(d).style(ALLST).run(), v); po::parsed_options c = po::parse_config_file(is, d); if (is.bad()) throw std::bad_alloc(); po::store(c, v); po::notify(v); m.reset(new po::variables_map(v));
    }
    string result() { return show(*m) + own + mc::num(num); }
};
typedef std::function<World*()> Mk;
struct Verdict { string problem, actual; };
static string g_ended;
static void arm(long f, long c) { g_allocs = g_calls = 0; g_failat = f; g_callat = c; g_fired = false; g_armed = true; }
// one run of the operation; false: ended by the injected fault
static bool attempt(World& w, long f, long c, bool& same)
{
    g_ended = "normal"; same = true; bool ok = true; char text[300];
    w.reset();
    arm(f, c);
    try { w.op(); g_armed = false; }
    catch (const Boom& b) { g_armed = false; ok = false; same = c && b.n == c && b.cookie == &g_cookie; g_ended = "the thrown object"; }
    catch (const std::bad_alloc&) { g_armed = false; ok = false; same = f != 0; g_ended = "bad_alloc"; }
    catch (const std::exception& e) { g_armed = false; ok = false; same = false; snprintf(text, sizeof text, "%s: %.200s", typeid(e).name(), e.what()); g_ended = text; }
    catch (...) { g_armed = false; ok = false; same = false; g_ended = "another exception"; }
    return ok;
}
struct Scene { string name; Mk mk; long na, nc; };
static string once(const Scene& s, long f1, long c1, long f2, long c2, const string& normal, bool& fired)
{
    string bad; bool same;
    std::shared_ptr<World> w(s.mk());
    w->reset(); string in0 = w->inputs();
    for (int k = 0; k < 2 && bad.empty(); ++k) {
        long f = k ? f2 : f1, c = k ? c2 : c1; if (!f && !c) continue;
        bool ok = attempt(*w, f, c, same); if (k == 0) fired = g_fired;
        if (!g_fired) { if (!ok) bad = "ended by " + g_ended + " without a fault"; else if (w->result() != normal) bad = "without a fault the result is " + w->result(); }
        else if (ok) { if (!w->bad_stream()) bad = "the failure did not reach the caller; the operation ended normally with " + w->result(); }
        else if (!same && !(f && w->reported(g_ended))) bad = "the caller received " + g_ended + " instead";
        if (bad.empty() && g_fired) { string u = w->usable(); if (!u.empty()) bad = "afterwards: " + u; }
        w->tidy();
        if (bad.empty()) { string in1 = w->inputs(); if (in1 != in0) bad = "inputs changed to " + in1 + " from " + in0; }
    }
    if (bad.empty()) { bool ok = attempt(*w, 0, 0, same); if (!ok) bad = "repeating the operation ends by " + g_ended; else if (w->result() != normal) bad = "repeating the operation gives " + w->result(); }
    return bad;
}
static void one(Run& R, const Scene& s, const string& normal, long f1, long c1, long f2, long c2)
{
    if (!R.begin()) return;
    string what = s.name + (f1 ? " allocation " + mc::num(f1) : " call-out " + mc::num(c1)) + " fails" + (f2 ? ", then allocation " + mc::num(f2) : c2 ? ", then call-out " + mc::num(c2) : "");
    R.describe(what);
    bool fired = false; long before = g_live, leak = 0; string bad;
    for (int k = 0; k < 3; ++k) { before = g_live; { string b = once(s, f1, c1, f2, c2, normal, fired); if (!b.empty()) { bad = b; break; } } leak = g_live - before; if (leak <= 0) break; }
    R.trace(); R.transitions(1); R.state(mc::mix(mc::hstr(what), mc::hstr(g_ended)));
    if (!bad.empty()) R.fail(what, "the failure reaches the caller unchanged, inputs and final values stay, the repeated operation gives " + normal.substr(0, 400), bad);
    else if (leak > 0) R.fail(what, "nothing leaked", mc::num(leak) + " allocations lost each time", "leak");
    if (R.want_sample()) R.sample(what + " -> " + g_ended);
    R.end(mc::mix(mc::hstr(s.name), mc::mix(fired, f1 ? 1 : 2)));
}
void mc::explore(Run& R)
{
    static Decl D; R.case_timeout = 20;
    std::vector<Scene> S; auto add = [&](const string& n, Mk m) { Scene s; s.name = n; s.mk = m; s.na = s.nc = 0; S.push_back(s); };
    add("parsing a command line", [] { return new CmdLine(D, false, false, false); }); add("parsing a command line with unknown options", [] { return new CmdLine(D, false, false, true); }); add("parsing with custom parsers", [] { return new CmdLine(D, false, true, true); });
    add("parsing a wide command line", [] { return new CmdLine(D, true, false, true); }); add("parsing a wide command line with custom parsers", [] { return new CmdLine(D, true, true, false); });
    add("storing", [] { return new Store(D, 0); }); add("storing over final values", [] { return new Store(D, 1); }); add("storing wide over final values", [] { return new Store(D, 2); });
    add("notifying", [] { return new Notify(D, false); });
    add("reading a configuration stream", [] { return new Config(0); }); add("reading a wide configuration stream", [] { return new Config(2); }); add("reading a configuration file", [] { return new Config(4); }); add("reading a wide configuration file", [] { return new Config(5); });
    add("the environment by prefix", [] { return new Env(D, 0); }); add("the environment by mapping", [] { return new Env(D, 1); });
    for (int k = 0; k < 5; ++k) add("splitting, form " + mc::num(k), [k] { return new Split(k); });
    add("collecting unrecognized", [] { return new Collect(D, false); }); add("collecting unrecognized, wide", [] { return new Collect(D, true); });
    add("declaring options", [] { return new Declare(0); }); add("declaring shared options", [] { return new Declare(1); }); add("adding groups", [] { return new Group(D); });
    add("printing", [] { return new Print(D, 0); }); add("printing to a stream that throws", [] { return new Print(D, 1); }); add("formatting names", [] { return new Print(D, 2); }); add("finding", [] { return new Find(D); });
    for (int k = 0; k < 20; ++k) add("an operation that is in error, form " + mc::num(k), [k] { return new Erring(D, k); });
    add("maps", [] { return new Maps(D); }); for (int k = 0; k < 5; ++k) add("converting text, form " + mc::num(k), [k] { return new Text(k); }); add("positional descriptions", [] { return new Positions; }); add("everything", [] { return new Whole; });
    for (size_t i = 0; i < S.size(); ++i) {
        string normal;
        for (int k = 0; k < 3; ++k) { std::shared_ptr<World> w(S[i].mk()); bool same; if (!attempt(*w, 0, 0, same)) { fprintf(stderr, "scenario %s ends by %s\n", S[i].name.c_str(), g_ended.c_str()); _exit(96); } S[i].na = g_allocs; S[i].nc = g_calls; normal = w->result(); }
        R.space(S[i].name, "a failure at each of " + mc::num(S[i].na) + " allocations and " + mc::num(S[i].nc) + " call-outs");
        for (long f = 1; f <= S[i].na + 1; ++f) one(R, S[i], normal, f, 0, 0, 0);
        for (long c = 1; c <= S[i].nc + 1; ++c) one(R, S[i], normal, 0, c, 0, 0);
        // two failures in a row before the operation is repeated
        R.space("two failures: " + S[i].name, R.thorough ? "every pair (every third allocation of operations with more than 1500)" : "every pair of call-outs, every pair of allocations for operations with at most 300, else on a grid of 100 x 100");
        for (long a = 1; a <= S[i].nc; ++a) { for (long b = 1; b <= S[i].nc; ++b) one(R, S[i], normal, 0, a, 0, b); }
        long st = R.thorough ? (S[i].na > 1500 ? 3 : 1) : S[i].na <= 300 ? 1 : S[i].na / 100;
        for (long a = 1; a <= S[i].na; a += st) { for (long b = 1; b <= S[i].na; b += st) one(R, S[i], normal, a, 0, b, 0); for (long b = 1; b <= S[i].nc; ++b) one(R, S[i], normal, a, 0, 0, b); }
    }
}
