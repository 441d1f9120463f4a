// C36: what is only read stays as it is, and every operation can be repeated with the same result.
#include "vmmodel.hpp"
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
#include <iomanip>
#include <unistd.h>
#include <sys/wait.h>
using namespace cm;
using mc::Run;
const char* mc::property = "C36";
typedef std::wstring W; typedef std::vector<W> Ws;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static W wide(const string& s) { return W(s.begin(), s.end()); }
static string narrow(const W& w) { string s; for (size_t i = 0; i < w.size(); ++i) s += (unsigned long)w[i] < 128 ? string(1, char(w[i])) : "<" + std::to_string((unsigned long)w[i]) + ">"; return s; }
static string q(const Ws& w) { Strs s; for (size_t i = 0; i < w.size(); ++i) s.push_back(narrow(w[i])); return mc::q(s); }
template<class O> static string fields(const O& o) { std::ostringstream s; s << mc::q(o.string_key) << "@" << o.position_key << "u" << o.unregistered << "c" << o.case_insensitive; return s.str(); }
static string text(const po::option& o) { return fields(o) + mc::q(o.value) + mc::q(o.original_tokens); }
static string text(const po::woption& o) { return fields(o) + q(o.value) + q(o.original_tokens); }
template<class P> static string opts(const P& p) { string s; for (size_t i = 0; i < p.options.size(); ++i) s += text(p.options[i]) + ";"; return s; }
static string held(const boost::any& a) { if (const W* w = boost::any_cast<W>(&a)) return "w:" + narrow(*w); if (const Ws* w = boost::any_cast<Ws>(&a)) return "ws:" + q(*w); if (const double* d = boost::any_cast<double>(&a)) { std::ostringstream s; s.precision(17); s << *d; return "d:" + s.str(); } return showAny(a); }
static string map(const po::variables_map& m) { string s; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) s += i->first + "=" + held(i->second.value()) + (i->second.defaulted() ? "(d)" : "") + ";"; return s; }
static string printed(const po::options_description& d, unsigned w = 0) { std::ostringstream s; if (w) d.print(s, w); else s << d; return s.str(); }

// everything an operation may read: built anew for every history
struct Target36 { int i; string s; Strs v; W w; std::vector<int> n; void reset() { i = -5; s = "untouched"; v.assign(2, "untouched"); w = L"untouched"; n.assign(1, -1); } };
struct World {
    int kind; po::options_description group, hidden, desc; po::positional_options_description pos; Strs args; Ws wargs; string cfg, unix_; Target36 tg; Strs calls;
    std::unique_ptr<po::parsed_options> pr; std::unique_ptr<po::wparsed_options> wpr; po::variables_map vm, other; std::vector<const char*> argv; std::vector<const wchar_t*> wargv; po::variable_value loose; std::unique_ptr<po::error_with_option_name> err; std::unique_ptr<World> twin;
    // twin: descriptions made by the same recipe, from which the stored maps and the parse results come, so that every operation of a history is the first that uses desc
    World(int k, World* t = 0) : kind(k), group(k == 2 ? "A group whose caption is long enough to need the whole of a line of the help text" : "Group", k == 1 ? 40 : 80, k == 1 ? 18 : 40), hidden(k ? "Second" : ""), desc(k == 3 ? "" : "All options", k == 1 ? 40 : 80, k == 1 ? 18 : 40), twin(t)
    {
        tg.reset(); Strs* c = &calls;
        if (k == 0) {
            group.add_options()("help,h", "show help")("num,n", po::value<int>(&tg.i)->default_value(7)->notifier([c](int x) { c->push_back("num " + std::to_string(x)); }), "a number")("name", po::value<string>(&tg.s)->required(), "a name");
            desc.add(group); desc.add_options()("list,l", po::value<Strs>(&tg.v)->multitoken()->composing()->notifier([c](const Strs& x) { c->push_back("list " + mc::q(x)); }), "many values");
            pos.add("list", -1); args = S({"--num=3", "-l", "a", "b", "--name", "x y", "p", "-h"}); cfg = "num=4\n# note\nname = n\nlist=1\nlist=2\n"; unix_ = "--num=5 'a b' \"c\\\"d\" e\\ f";
        } else if (k == 1) {
            hidden.add_options()("secret", po::value<string>()->implicit_value("imp"), "hidden"); group.add_options()("flag,f", po::bool_switch(), "a switch that is described by more words than fit on one line of forty columns")("sect.*", po::value<string>(), "wildcard\nsecond paragraph\ttab stop and more words that wrap")("sect.known,k", po::value<double>()->default_value(1.5, "one and a half"), "");
            desc.add(group).add(hidden); pos.add("sect.known", 1).add("secret", 2); args = S({"-f", "--sect.x=1", "2.5", "s1", "--secret"}); cfg = "[sect]\ny=1\nz=2\n[]\n"; cfg = "[sect]\ny=1\nz=2\nknown=3\n"; unix_ = "  -f   '' 'x'";
        } else if (k == 2) {
            group.add_options()("w\xc3\xafde,w", po::wvalue<W>(&tg.w)->default_value(L"d\x00e9" L"f", "def")->notifier([c](const W& x) { c->push_back("wide " + narrow(x)); }), "wide")("ws", po::wvalue<Ws>()->composing(), "list of wide")("one,alias-one,o", po::value<int>()->implicit_value(9)->value_name("INT"), "aliased")("one-more,alias-two", po::value<boost::optional<int> >(), "optional");
            desc.add(group); pos.add("ws", 3).add("one", 1); args = S({"--one=1", "--alias-two=5", "a", "b", "c", "--ws=\xc3\xa9"}); cfg = "one=1\nws=a\nws=b\none-more=2\n"; unix_ = "\"a\\nb\" 'c'd\"e\"";
        } else if (k == 3) {
            desc.add_options()("req,r", po::value<int>()->required(), "required")("many", po::value<std::vector<int> >()->composing()->default_value(std::vector<int>(2, 8), "8 8"), "")("plain", new po::untyped_value(), "untyped")("sw", po::bool_switch()->default_value(true), "")("short-one,s", po::value<string>(&tg.s), "short");
            pos.add("many", 2); args = S({"-s", "v", "--many", "1", "2", "--plain=x", "-r4", "--sw"}); args.erase(args.begin() + 3); cfg = "req=1\nmany=5\nplain=q\n"; unix_ = "a  b\tc";
        } else {
            static const char* const n[] = {"zeta,z", "alpha,a", "mid-one,m", "beta", "omega,w", "mid-two,t", "gamma,g", "delta,d", "mid-three", "epsilon,e", "theta", "iota,i"};
            for (int i = 0; i < 12; ++i) { po::typed_value<string>* v = po::value<string>(); if (i % 3 == 1) v->implicit_value("imp" + mc::num(i)); if (i % 4 == 2) v->default_value("def" + mc::num(i)); desc.add_options()(n[i], v, i % 2 ? "text" : ""); }
            desc.add_options()("numbers,N", po::value<std::vector<int> >(&tg.n)->composing()->default_value(std::vector<int>(3, 4), "4 4 4")->notifier([c](const std::vector<int>& x) { c->push_back("numbers " + mc::num(x.size())); }), "")("level,l", po::value<int>(&tg.i)->implicit_value(3)->default_value(1), "");
            pos.add("zeta", 1).add("numbers", -1); args = S({"-z", "1", "--alpha", "--mid-one=x", "--omega=y", "--level", "-dD", "--numbers=7", "--iota", "v", "--mid-th=q"}); cfg = "mid-one=c\nomega=\nnumbers=8\nnumbers=9\nlevel=4\n"; unix_ = "'one two' \"three four\" fi\"ve s\"ix";
        }
        if (!twin) return;
        for (size_t i = 0; i < args.size(); ++i) wargs.push_back(boost::from_utf8(args[i]));
        argv.push_back("prog"); wargv.push_back(L"prog"); for (size_t i = 0; i < args.size(); ++i) { argv.push_back(args[i].c_str()); wargv.push_back(wargs[i].c_str()); }
        pr.reset(new po::parsed_options(po::command_line_parser(args).options(twin->desc).positional(twin->pos).run())); wpr.reset(new po::wparsed_options(po::wcommand_line_parser(wargs).options(twin->desc).positional(twin->pos).run()));
        po::store(*pr, vm); pr->description = wpr->description = wpr->utf8_encoded_options.description = &desc; po::option u; u.string_key = "unknown-one"; u.unregistered = true; u.value.push_back("uv"); u.original_tokens = S({"--unknown-one", "uv"}); pr->options.push_back(u);
        { std::istringstream is(cfg); po::store(po::parse_config_file(is, twin->desc), other); } other.next(&vm);
        loose = po::variable_value(boost::any(string("loose")), true);
        try { Strs bad = S({"--no-such-option-anywhere"}); po::command_line_parser(bad).options(twin->desc).run(); } catch (const po::unknown_option& e) { err.reset(new po::unknown_option(e)); }
    }
    World(const World&) = delete;
    static World* make(int k) { return new World(k, new World(k)); }
    string snapshot() const
    {
        string s; s.reserve(4000);
        const po::options_description* ds[3] = { &desc, &group, &hidden };
        for (int k = 0; k < 3; ++k) {
            s += printed(*ds[k]); s += mc::num(ds[k]->get_option_column_width()) + "|";
            for (size_t i = 0; i < ds[k]->options().size(); ++i) {
                const po::option_description& o = *ds[k]->options()[i]; std::pair<const string*, size_t> ln = o.long_names(); s += mc::q(Strs(ln.first, ln.first + ln.second)) + o.format_name() + o.format_parameter() + o.description();
                const po::value_semantic& v = *o.semantic(); boost::any def; bool d = v.apply_default(def); s += v.name() + "/" + mc::num(v.min_tokens()) + "/" + mc::num(v.max_tokens()) + (v.is_composing() ? "c" : "") + (v.is_required() ? "r" : "") + (d ? held(def) : "") + ";";
            }
        }
        s += mc::num(pos.max_total_count()) + ":"; for (unsigned i = 0; i < 4 && i < pos.max_total_count(); ++i) s += pos.name_for_position(i) + ",";
        s += mc::q(args) + q(wargs) + mc::q(cfg) + mc::q(unix_); for (size_t i = 0; i < argv.size(); ++i) { s += argv[i]; s += narrow(wargv[i]); if (i && argv[i] != args[i - 1].c_str()) s += "!"; }
        s += opts(*pr) + mc::num(pr->m_options_prefix) + (pr->description == &desc ? "" : "!desc"); s += opts(*wpr) + opts(wpr->utf8_encoded_options);
        s += map(vm) + "|" + map(other) + "|" + held(loose.value()) + (loose.defaulted() ? "(d)" : "") + (err ? string(err->what()) + err->get_option_name() : "");
        return s;
    }
};
// ---- the operations: none of them may change anything but what it returns
struct Op36 { const char* name; std::function<string(World&)> f; };
static string seen(World& w) { return std::to_string(w.tg.i) + w.tg.s + mc::q(w.tg.v) + narrow(w.tg.w) + mc::num(w.tg.n.size()) + ":" + std::to_string(w.tg.n.empty() ? 0 : w.tg.n.back()) + mc::q(w.calls); }
static string guarded(const std::function<string(World&)>& f, World& w)
{
    World* both[2] = { &w, w.twin.get() }; for (World* x : both) if (x) { x->tg.reset(); x->calls.clear(); }
    string r; try { r = f(w); } catch (const po::error& e) { r = string("error ") + e.what(); } catch (const std::exception& e) { r = string("exception ") + e.what(); }
    return r + " targets " + seen(w) + (w.twin ? seen(*w.twin) : string());
}
static string g_file; static const char* const TEXT = "num=5\nunknown.entry=1\n[sect]\nx=2\n";
static std::vector<Op36> operations()
{
    std::vector<Op36> o; auto add = [&](const char* n, std::function<string(World&)> f) { Op36 x; x.name = n; x.f = f; o.push_back(x); };
    add("parse tokens", [](World& w) { return opts(po::command_line_parser(w.args).options(w.desc).positional(w.pos).run()); });
    add("parse argc/argv", [](World& w) { po::variables_map m; po::parsed_options p = po::command_line_parser((int)w.argv.size(), &w.argv[0]).options(w.desc).positional(w.pos).style(po::command_line_style::default_style | po::command_line_style::allow_slash_for_short).run(); return opts(p); });
    add("parse wide tokens", [](World& w) { po::wparsed_options p = po::wcommand_line_parser(w.wargs).options(w.desc).positional(w.pos).run(); return opts(p) + opts(p.utf8_encoded_options); });
    add("parse_command_line", [](World& w) { return opts(po::parse_command_line((int)w.argv.size(), &w.argv[0], w.desc)); });
    add("parse with unregistered and custom parser", [](World& w) { Strs a = w.args; a.push_back("--nix=1"); a.push_back("@x"); struct F { static std::pair<string, string> f(const string& s) { return s[0] == '@' ? std::make_pair(string("at"), s) : std::make_pair(string(), string()); } }; po::parsed_options p = po::command_line_parser(a).options(w.desc).allow_unregistered().extra_parser(F::f).run(); return opts(p) + mc::q(po::collect_unrecognized(p.options, po::include_positional)) + mc::q(a); });
    add("failing parse", [](World& w) { Strs a(1, "--no-such=1"); return opts(po::command_line_parser(a).options(w.desc).run()); });
    add("ambiguous parse", [](World& w) { Strs a(1, w.kind == 2 ? "--alias=1" : "--n=1"); return opts(po::command_line_parser(a).options(w.desc).run()); });
    add("parse configuration", [](World& w) { std::istringstream is(w.cfg); return opts(po::parse_config_file(is, w.desc)); });
    add("parse wide configuration", [](World& w) { std::wistringstream is(wide(w.cfg)); return opts(po::parse_config_file(is, w.desc, true)); });
    add("parse configuration file", [](World& w) { return opts(po::parse_config_file(g_file.c_str(), w.desc, true)); });
    add("failing configuration", [](World& w) { std::istringstream is(w.cfg + "no such option=1\n"); return opts(po::parse_config_file(is, w.desc)); });
    add("parse environment", [](World& w) { return opts(po::parse_environment(w.desc, "PURE_")); });
    add("store narrow", [](World& w) { po::variables_map m; po::store(*w.pr, m); return map(m); });
    add("store wide", [](World& w) { po::variables_map m; po::store(*w.wpr, m); return map(m); });
    add("store and notify", [](World& w) { po::variables_map m; po::store(*w.pr, m); string s = map(m); po::notify(m); return map(m) == s ? s : "CHANGED by notification: " + map(m); });
    add("store twice", [](World& w) { po::variables_map m; std::istringstream is(w.cfg); po::store(po::parse_config_file(is, w.desc), m); po::store(*w.pr, m); po::notify(m); return map(m); });
    add("store nothing and notify", [](World& w) { po::variables_map m; Strs none; po::store(po::command_line_parser(none).options(w.desc).run(), m); string s = map(m); po::notify(m); return map(m) == s ? s : "CHANGED by notification: " + map(m); });
    add("failing store", [](World& w) { po::variables_map m; po::parsed_options p = *w.pr; for (size_t i = 0; i < p.options.size(); ++i) p.options[i].value = S({"b", "a", "d"}); po::store(p, m); return map(m); });
    add("notify the map", [](World& w) { po::notify(w.vm); return map(w.vm); });
    add("notify the chained map", [](World& w) { po::notify(w.other); return map(w.other); });
    add("notify a copy", [](World& w) { po::variables_map m = w.vm; po::notify(m); m.clear(); return map(m); });
    add("look up", [](World& w) { string s; const char* n[] = {"num", "name", "list", "sect.x", "sect.known", "one", "ws", "many", "req", "sw", "level", "numbers", "mid-one", "nope", "", "-s"}; for (const char* k : n) { s += mc::num(w.vm.count(k)) + held(w.vm[k].value()) + held(w.other[k].value()) + (w.other[k].defaulted() ? "d" : "") + (w.vm[k].empty() ? "e" : ""); } return s; });
    add("read values as types", [](World& w) { string s; for (po::variables_map::const_iterator i = w.vm.begin(); i != w.vm.end(); ++i) { try { s += "i" + std::to_string(i->second.as<int>()); } catch (const std::exception&) { s += "-"; } try { s += "s" + i->second.as<string>(); } catch (const std::exception&) { s += "-"; } } try { s += w.loose.as<string>() + std::to_string(w.loose.as<int>()); } catch (const std::exception&) { s += "x"; } return s; });
    add("print", [](World& w) { return printed(w.desc); });
    add("print narrow", [](World& w) { return printed(w.desc, 30) + printed(w.group, 26) + printed(w.desc); });
    add("print to a stream with settings", [](World& w) { std::ostringstream os; os << std::hex << std::setfill('*') << std::left << std::showbase << std::boolalpha; std::ios::fmtflags f = os.flags(); os << w.desc; string s; if (os.flags() != f || os.fill() != '*' || os.width() != 0 || os.precision() != 6 || !os.good()) s = "CHANGED settings of the stream "; os << 255; return s + os.str(); });
    add("find", [](World& w) { string s; const char* n[] = {"num", "nu", "NUM", "sect.q", "sect.known", "alias-o", "one", "-h", "-S", "m", "mid-one", "delta", "MID-t", "iota", ""}; for (const char* k : n) for (int f = 0; f < 8; ++f) { try { const po::option_description* d = w.desc.find_nothrow(k, f & 1, f & 2, f & 4); s += d ? d->format_name() + d->key(k) + d->canonical_display_name(f) : "none"; } catch (const po::error& e) { s += e.what(); } } return s; });
    add("unrecognized", [](World& w) { return mc::q(po::collect_unrecognized(w.pr->options, po::include_positional)) + mc::q(po::collect_unrecognized(w.pr->options, po::exclude_positional)) + q(po::collect_unrecognized(w.wpr->options, po::include_positional)); });
    add("copy and edit results", [](World& w) { po::parsed_options p = *w.pr; po::wparsed_options x = *w.wpr; if (!p.options.empty()) p.options[0].string_key = "edited"; p.options.clear(); x.options.clear(); x.utf8_encoded_options.options.clear(); return mc::num(p.options.size()); });
    add("copy and extend the description", [](World& w) { po::options_description c(w.desc); c.add_options()("added-to-the-copy", po::value<int>(), ""); return printed(c) + mc::num(w.desc.options().size()); });
    add("add to another description", [](World& w) { po::options_description c("outer", w.kind == 1 ? 40 : 80, w.kind == 1 ? 18 : 40); c.add_options()("own", ""); c.add(w.desc).add(w.group); return printed(c) + mc::num(c.options().size()); });
    add("copy and extend positionals", [](World& w) { po::positional_options_description p = w.pos; try { p.add("extra", 1); } catch (...) {} return mc::num(p.max_total_count()); });
    add("copy and edit the map", [](World& w) { po::variables_map m = w.vm; for (po::variables_map::iterator i = m.begin(); i != m.end(); ++i) i->second.value() = boost::any(1); string s = map(m); m.clear(); return s; });
    add("split", [](World& w) { return mc::q(po::split_unix(w.unix_)) + q(po::split_unix(wide(w.unix_))); });
    add("split with another quote", [](World& w) { return mc::q(po::split_unix(w.unix_, " \t", "'", "\\")) + q(po::split_unix(wide(w.unix_), W(L" \t"), W(L"'"), W(L"\\"))); });
    add("split with other separators", [](World& w) { return mc::q(po::split_unix(w.unix_, " \te", "\"'", "\\")) + q(po::split_unix(wide(w.unix_), W(L" \te"), W(L"\"'"), W(L"\\"))); });
    add("split with another escape", [](World& w) { return mc::q(po::split_unix(w.unix_, " \t", "\"'", "x")) + q(po::split_unix(wide(w.unix_), W(L" \t"), W(L"\"'"), W(L"x"))); });
    add("convert values directly", [](World& w) { string s; for (size_t i = 0; i < w.desc.options().size(); ++i) { boost::any v; try { w.desc.options()[i]->semantic()->parse(v, Strs(1, "12"), true); s += held(v); w.desc.options()[i]->semantic()->notify(v); } catch (const std::exception& e) { s += "x"; } boost::any d; if (w.desc.options()[i]->semantic()->apply_default(d)) { s += held(d); w.desc.options()[i]->semantic()->notify(d); } } return s; });
    add("ask for the error", [](World& w) { return string(w.err->what()) + w.err->get_option_name(); });
    add("copy of the error in another context", [](World& w) { po::unknown_option c(static_cast<po::unknown_option&>(*w.err)); c.add_context("k", "--tok", po::command_line_style::allow_long); string s = c.what(); c.set_option_name("named"); return s + c.what(); });
    add("copy of the error with another prefix", [](World& w) { po::unknown_option c; c = static_cast<po::unknown_option&>(*w.err); c.set_prefix(po::command_line_style::allow_slash_for_short); c.set_original_token("/tok"); return string(c.what()) + c.get_option_name(); });
    add("error of a store, twice", [](World& w) { Strs a(1, w.kind == 4 ? "--level=x" : "--one=x"); string s; try { po::variables_map m; po::store(po::command_line_parser(a).options(w.desc).allow_unregistered().run(), m); } catch (const po::error& e) { s = e.what(); if (s != e.what()) s += " CHANGED " + string(e.what()); } return s; });
    add("parse and store implicit values", [](World& w) { Strs a; a.push_back("--alpha"); a.push_back("--level"); a.push_back("--omega"); a.push_back("--secret"); a.push_back("--one"); po::variables_map m; po::store(po::command_line_parser(a).options(w.desc).allow_unregistered().run(), m); string s = map(m); po::notify(m); return map(m) == s ? s : "CHANGED by notification: " + map(m); });
    return o;
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    std::locale::global(std::locale(std::locale::classic(), new po::detail::utf8_codecvt_facet));
    setenv("PURE_NUM", "6", 1); setenv("PURE_ONE", "2", 1); setenv("PURE_REQ", "3", 1); setenv("PURE_FLAG", "on", 1); setenv("PURE_UNKNOWN", "3", 1);
    { char t[] = "/tmp/pureXXXXXX"; int fd = mkstemp(t); g_file = t; const char* x = TEXT; if (fd < 0 || write(fd, x, strlen(x)) < 0) abort(); close(fd); }
    struct Gone { ~Gone() { unlink(g_file.c_str()); } } gone;
    std::vector<Op36> ops = operations(); int n = (int)ops.size(); string E0; for (char** e = environ; *e; ++e) { E0 += *e; E0 += '\n'; }
    // what each operation gives the first time, in a world of its own
    // each in a process of its own, before any other operation ran in it
    const int K = 5; std::vector<Strs> first(K, Strs(n)); Strs snap(K);
    auto apart = [](const std::function<string()>& f) { int p[2]; if (pipe(p)) abort(); pid_t c = fork(); if (c < 0) abort(); if (!c) { close(p[0]); string r = f(); for (size_t d = 0; d < r.size();) { ssize_t k = write(p[1], r.data() + d, r.size() - d); if (k <= 0) break; d += k; } _exit(0); } close(p[1]); string r; char b[4096]; for (ssize_t k; (k = read(p[0], b, sizeof b)) > 0;) r.append(b, k); close(p[0]); int st; waitpid(c, &st, 0); return st ? "crash, status " + mc::num(st) : r; };
    for (int k = 0; k < K; ++k) { snap[k] = apart([k] { std::unique_ptr<World> w(World::make(k)); return w->snapshot(); }); for (int i = 0; i < n; ++i) first[k][i] = apart([&, k, i] { std::unique_ptr<World> w(World::make(k)); return guarded(ops[i].f, *w); }); }
    if (getenv("MC_STATS") && R.shard == 0) for (int k = 0; k < K; ++k) for (int i = 0; i < n; ++i) fprintf(stderr, "%d %s: %s\n", k, ops[i].name, first[k][i].substr(0, 260).c_str());
    auto history = [&](int k, const std::vector<int>& ix) {
        if (!R.begin()) return;
        std::unique_ptr<World> own(World::make(k)); World& w = *own; string key = "objects " + mc::num(k) + ":", bad; u64 h = k;
        for (size_t s = 0; s < ix.size() && bad.empty(); ++s) {
            key += string(s ? ", " : " ") + ops[ix[s]].name; string r = guarded(ops[ix[s]].f, w); R.transitions(1); h = mc::mix(h, mc::hstr(r)); R.state(mc::mix(mc::hstr(snap[k]), h));
            if (r != first[k][ix[s]] || r.find("CHANGED") != string::npos) { R.fail(key, first[k][ix[s]], r); bad = "x"; break; }
            if (s + 1 == ix.size() || ix.size() < 3) { string x = w.snapshot(); if (x != snap[k]) { size_t d = 0; while (d < x.size() && d < snap[k].size() && x[d] == snap[k][d]) ++d; size_t b = d > 60 ? d - 60 : 0; R.fail(key, "unchanged: ..." + snap[k].substr(b, 160), "..." + x.substr(b, 160)); bad = "x"; } }
        }
        R.trace(); if (R.want_sample()) R.sample(key); R.end(h);
    };
    auto seqs = [&](int lo, int hi, int k) { for (int l = lo; l <= hi; ++l) { std::vector<int> ix(l, 0); for (;;) { history(k, ix); int p = l - 1; while (p >= 0 && ++ix[p] == n) ix[p--] = 0; if (p < 0) break; } } };
    string N = mc::num(n);
    R.space("histories of reading operations", T ? "5 sets of objects (description with groups, positional description, argument vectors, results, maps, an error), every history of 1..3 of " + N + " operations that only read them; of 4 of every second operation, and of all for the last set" : "5 sets of objects (description with groups, positional description, argument vectors, results, maps, an error), every history of 1..2 of " + N + " operations that only read them, and of 3 for the first and the last");
    for (int k = 0; k < K; ++k) seqs(1, T ? 3 : k == 0 || k == 4 ? 3 : 2, k);
    if (T) for (int k = 0; k < K; ++k) { int st = k == 4 ? 1 : 2, b = k == 4 ? 0 : k % 2; std::vector<int> ix(4, b); for (;;) { history(k, ix); int p = 3; while (p >= 0 && (ix[p] += st) >= n) ix[p--] = b; if (p < 0) break; } }
    R.space("many repetitions", "each operation 50 times (thorough 400), and each pair of operations in turn 20 times");
    for (int k = 0; k < K; ++k) for (int i = 0; i < n; ++i) { history(k, std::vector<int>(T ? 400 : 50, i)); for (int j = 0; j < n; ++j) { if (!T && (i + j + k) % 4) continue; std::vector<int> ix; for (int r = 0; r < 20; ++r) { ix.push_back(i); ix.push_back(j); } history(k, ix); } }
    R.space("surroundings", "the environment and the file after each operation");
    for (int k = 0; k < K; ++k) for (int i = 0; i < n; ++i) { if (R.begin()) { std::unique_ptr<World> own(World::make(k)); World& w = *own; guarded(ops[i].f, w); string e; for (char** x = environ; *x; ++x) { e += *x; e += '\n'; } std::ifstream f(g_file.c_str()); string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); if (e != E0 || t != TEXT) R.fail("objects " + mc::num(k) + ": " + ops[i].name, "environment and file as before", e == E0 ? "file " + mc::q(t) : "environment " + mc::q(e)); R.trace(); R.transitions(1); R.end(i * 8 + k); } }

}
