// C09 styles, C10 custom parsers, C28 error messages.
#include "cmdspaces.hpp"
#include "u8.hpp"
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static const int UNIX = st::unix_style;

#if PROP == 9
const char* mc::property = "C09";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, Extra());
    // the documented enumerators have their documented meaning
    Gram g; g.o("foo,f", "str").o("foobar", "str").o("bar,b", "flag").o("cat,c", "flag").o("Opt,o", "impl").o("many,m", "multi");
    Real base(g);
    std::vector<Strs> probes;
    Strs one = S({"--foo=v", "--foo", "--fo=v", "--foob=v", "--FOO=v", "-f", "-fv", "-F", "-Fv", "/f", "/fv", "/F", "-foo=v", "-foo", "/foo=v", "-fo=v", "-FOO=v", "-bc", "-bcfv", "-b", "-BC", "-bC", "--bar", "--ba", "-bar", "/bar", "/bc", "/b",
                  "--opt=v", "--Opt", "-Opt=v", "--", "-", "/", "p", "--foo=", "--f=v", "-o", "-ov", "/ov", "--many", "-m", "--nope", "-x", "/x", "-nope"});
    probes.push_back(Strs());
    for (size_t i = 0; i < one.size(); ++i) { probes.push_back(Strs(1, one[i])); Strs t(1, one[i]); t.push_back("w"); probes.push_back(t); Strs u(1, one[i]); u.push_back("-b"); probes.push_back(u); Strs x(1, "q"); x.push_back(one[i]); probes.push_back(x); }
    for (size_t i = 0; T && i < one.size(); ++i) for (size_t j = 0; j < one.size(); ++j) { Strs t(1, one[i]); t.push_back(one[j]); probes.push_back(t); }
    R.space("all styles", "every one of the 2^13 style masks: accepted or rejected, canonical prefix, and every probe token list, via the parser object and via parse_command_line");
    for (int style = 0; style < 8192; ++style) {
        bool ok = style == 0 || validStyle(style);
        // acceptance
        if (R.begin()) {
            string w = ok ? "accepted" : "style", h; bool touched = false;
            try { po::command_line_parser p(S({"--foo=v"})); p.options(base.desc).style(style); h = "accepted"; } catch (...) { Res r = current(); h = r.kind; if (r.what.empty()) h += " without message"; }
            if (w == h) try { po::basic_command_line_parser<wchar_t> p(std::vector<std::wstring>(1, L"--foo=v")); p.options(base.desc).style(style); h = "accepted"; } catch (...) { h = current().kind; }
            if (w == h && !ok) try { const char* av[] = {"prog", "--foo=v"}; po::parse_command_line(2, av, base.desc, style, [&](const string&) { touched = true; return std::make_pair(string(), string()); }); h = "accepted"; } catch (...) { h = current().kind; if (touched) h = "parsed before rejecting"; }
            // a parser whose style was rejected keeps its previous style
            if (w == h && !ok) try { po::command_line_parser p(S({"--foo=v"})); p.options(base.desc); try { p.style(style); } catch (const po::invalid_command_line_style&) {} Res r = toRes(p.run()); Gram d = g; Model m(d); Res e = m.parse(S({"--foo=v"})); if (!(r == e)) h = "previous style lost: " + r.str(); } catch (...) { h = "previous style lost: " + current().str(); }
            R.trace(); R.transitions(1); R.state(mc::mix(7, style));
            if (w != h) R.fail("style " + mc::num(style), w, h);
            R.end(mc::hstr(h));
        }
        if (!ok) continue;
        Gram h = g; h.style = style; Real real(h);
        for (int un = 0; un < 2; ++un) {
            real.g.unreg = un;
            for (size_t i = 0; i < probes.size(); ++i) { if (un && probes[i].size() > 1) continue; if (R.begin()) step(R, real, probes[i], Extra()); }
        }
    }
    R.space("command line entry points", "parse_command_line and both parser constructors with 0..3 arguments, all valid masks over the 6 main flags plus zero");
    for (int style = 0; style < 8192; ++style) {
        if (style && !validStyle(style)) continue;
        if (style && !T && (style & (st::long_case_insensitive | st::short_case_insensitive))) continue;
        Gram h = g; h.style = style; Real real(h);
        Strs a = S({"--foo=v", "-bc", "/f", "p"});
        for (int n = -1; n <= 3; ++n) {
            if (!R.begin()) continue;
            Strs t; for (int i = 0; i < n; ++i) t.push_back(a[(style + i) % 4]);
            const char* av[6] = {"--prog", 0, 0, 0, 0, 0}; for (size_t i = 0; i < t.size(); ++i) av[i + 1] = t[i].c_str();
            int argc = n < 0 ? 0 : n + 1;
            Model m(h); Res w = m.parse(t), x[2];
            try { x[0] = toRes(po::parse_command_line(argc, av, real.desc, style)); } catch (...) { x[0] = current(); }
            try { po::command_line_parser p(argc, av); p.options(real.desc).style(style); x[1] = toRes(p.run()); } catch (...) { x[1] = current(); }
            R.trace(); R.transitions(n < 0 ? 0 : n);
            for (int k = 0; k < 2; ++k) if (!(x[k] == w)) R.fail(h.str() + " argc=" + mc::num(argc) + " args=" + mc::q(t) + (k ? " (parser)" : " (parse_command_line)"), w.str(), x[k].str());
            R.end(x[0].hash());
        }
    }
    R.space("style set twice", "every ordered pair of 12 styles: the last one counts; zero restores the default");
    {
        int v[12] = {0, UNIX, st::allow_long | st::long_allow_adjacent, st::allow_short | st::allow_dash_for_short | st::short_allow_next, UNIX | st::case_insensitive, UNIX & ~st::allow_guessing, st::allow_long_disguise | st::long_allow_next,
            UNIX | st::allow_slash_for_short, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent, UNIX & ~st::allow_sticky, UNIX | st::allow_long_disguise, st::allow_long | st::long_allow_next | st::allow_guessing};
        for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) for (size_t k = 0; k < one.size(); ++k) {
            if (!R.begin()) continue;
            Gram h = g; h.style = v[j]; Model m(h, &R, mc::mix(i, j)); Strs t(1, one[k]); t.push_back("w"); Res w = m.parse(t), x;
            try { po::command_line_parser p(t); p.options(base.desc).style(v[i]).style(v[j]); x = toRes(p.run()); } catch (...) { x = current(); }
            R.trace(); if (!(x == w)) R.fail("styles " + mc::num(v[i]) + " then " + mc::num(v[j]) + " args=" + mc::q(t), w.str(), x.str()); R.end(x.hash());
        }
    }
}
#endif

#if PROP == 10
const char* mc::property = "C10";
// what a custom token parser does with one kind of token
struct Act { const char* name; const char* key; const char* val; };
static const Act ACT[] = { {"decline", "", ""}, {"flag", "bar", ""}, {"str+v", "foo", "X"}, {"str bare", "foo", ""}, {"unknown", "zzz", ""}, {"value only", "", "Y"}, {"flag+v", "bar", "X"}, {"short", "-f", "S"}, {"multi", "many", "M"}, {"guess", "ba", ""}, {"impl", "opt", ""}, {"two", "two", "1"}, {"unknown+v", "zzz", "V"} };
static void offeredOk(Run& R, const string& what, Strs want, Strs have)
{   // look-ahead may show a token again; compare the runs of distinct tokens
    want.erase(std::unique(want.begin(), want.end()), want.end()); have.erase(std::unique(have.begin(), have.end()), have.end());
    if (want != have) R.fail("tokens offered: " + what, mc::q(want), mc::q(have));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    const int NA = sizeof ACT / sizeof *ACT;
    Gram g; g.o("foo,f", "str").o("bar,b", "flag").o("opt,o", "impl").o("many,m", "multi").o("two", "2-2");
    std::vector<int> sty = {0, UNIX | st::allow_long_disguise | st::allow_slash_for_short, st::allow_short | st::allow_dash_for_short | st::short_allow_next, UNIX & ~st::allow_guessing};
    Strs key = S({"@a", "--bar", "p", "-f"});     // tokens the parser treats specially
    Strs al = S({"@a", "--bar", "p", "-f", "--", "q", "-bf"});
    R.space("token parsers", T ? "every assignment of 13 actions to {@a,--bar} x 6 actions to {p,-f}, every list of 0..4 of 7 tokens, 4 styles" : "every assignment of 13 actions to {@a,--bar} x 4 actions to {p,-f}, every list of 0..3 of 7 tokens, 4 styles");
    int NB = T ? 6 : 4;
    for (size_t s = 0; s < sty.size(); ++s) for (int un = 0; un < 2; ++un) { Gram h = g; h.style = sty[s]; h.unreg = un; Real real(h);
        for (int a = 0; a < NA; ++a) for (int b = 0; b < NA; ++b) for (int c = 0; c < NB; ++c) for (int d = 0; d < NB; ++d) {
            if (un && !T && (c > 1 || d > 1)) continue;
            int as[4] = {a, b, c, d}; Strs seen;
            TokParser tp = [&](const string& t) { for (int i = 0; i < 4; ++i) if (t == key[i]) return std::make_pair(string(ACT[as[i]].key), string(ACT[as[i]].val)); return std::make_pair(string(), string()); };
            TokParser rec = [&](const string& t) { seen.push_back(t); return tp(t); };
            string nm = string("@a:") + ACT[a].name + " --bar:" + ACT[b].name + " p:" + ACT[c].name + " -f:" + ACT[d].name;
            sequences(al, 0, T ? (s == 0 ? 4 : 3) : 3, [&](const std::vector<int>& ix) {
                if (!R.begin()) return;
                Strs t = pick(al, ix); seen.clear();
                Model m(real.g, &R, mc::mix(real.gh, a + b * 16 + c * 256 + d * 4096)); m.extra = tp; Res w = m.parse(t), x = run(real, t, rec);
                R.trace();
                if (!(w == x)) R.fail(nm + " " + real.g.str() + " args=" + mc::q(t), w.str(), x.str()); else offeredOk(R, nm + " " + real.g.str() + " args=" + mc::q(t), m.offered, seen);
                if (R.want_sample()) R.sample(nm + " args=" + mc::q(t) + " -> " + x.str());
                R.end(x.hash());
            });
        } }
    R.space("any token may be special", "each of 79 corner-case tokens (empty, '-', '--', '=', non-ASCII, ...) given to the custom parser's 8 actions, alone and with 0..2 of 14 tokens around it, 4 styles, with and without unregistered options");
    {
        Strs cor = cornerTokens(), ar = S({"", "p", "-b", "--foo", "-f", "--", "-m", "--opt", "-bf", "--foo=v", "--two", "-x", "@", "-"}); int AC[8] = {0, 1, 2, 4, 9, 10, 7, 12};
        for (size_t s = 0; s < sty.size(); ++s) for (int un = 0; un < 2; ++un) { Gram h = g; h.style = sty[s]; h.unreg = un; Real real(h);
            for (size_t u = 0; u < cor.size(); ++u) for (int a = 0; a < 8; ++a) { const Act& A = ACT[AC[a]];
                TokParser tp = [&](const string& t) { return t == cor[u] ? std::make_pair(string(A.key), string(A.val)) : std::make_pair(string(), string()); };
                Strs seen; TokParser rec = [&](const string& t) { seen.push_back(t); return tp(t); };
                auto go = [&](const Strs& t) {
                    if (!R.begin()) return; seen.clear();
                    Model m(real.g, &R, mc::mix(real.gh, u * 16 + a)); m.extra = tp; Res w = m.parse(t), x = run(real, t, rec); R.trace();
                    string nm = mc::q(cor[u]) + ":" + A.name + " " + real.g.str() + " args=" + mc::q(t);
                    if (!(w == x)) R.fail(nm, w.str(), x.str()); else offeredOk(R, nm, m.offered, seen);
                    R.end(x.hash()); };
                go(Strs(1, cor[u]));
                for (size_t i = 0; i < ar.size(); ++i) { Strs t; t.push_back(ar[i]); t.push_back(cor[u]); go(t); std::swap(t[0], t[1]); go(t);
                    if (T || s == 0) for (size_t j = 0; j < ar.size(); ++j) { Strs v; v.push_back(ar[i]); v.push_back(cor[u]); v.push_back(ar[j]); go(v); } }
            } }
    }
    R.space("list parsers", "a list parser triggered by '@', taking 1..3 tokens when available (or all, or none), returning 0..2 options of 10 kinds; every list of 0..4 of 7 tokens; 3 styles");
    {
        Strs al2 = S({"@", "p", "--foo=v", "-b", "--foo", "--", "q"});
        const char* OK[][3] = { {"", "", ""}, {"bar", "", ""}, {"foo", "V", ""}, {"foo", "", ""}, {"many", "m1", "m2"}, {"opt", "", ""}, {"zzz", "", ""}, {"bar", "x", ""}, {"-b", "", ""}, {"two", "t1", ""} };
        for (size_t s = 0; s < 3; ++s) for (int take = 0; take <= 4; ++take) for (int n = 0; n <= 2; ++n) for (int k1 = 0; k1 < (n > 0 ? 10 : 1); ++k1) for (int k2 = 0; k2 < (n > 1 ? 10 : 1); ++k2) for (int un = 0; un < (T ? 2 : 1); ++un) {
            if (take == 0 && n) continue;      // an option without consuming anything is not a parse of anything
            if ((n > 0 && k1 == 0) || (n > 1 && k2 == 0)) { }
            Gram h = g; h.style = sty[s]; h.unreg = un || (k1 + k2) % 3 == 2; Real real(h);
            ListParser lp = [&](Strs& a, std::vector<ROpt>& out) {
                if (a.empty() || a[0] != "@") return;
                size_t c = take == 4 ? a.size() : (size_t)take; if (c > a.size()) return;
                if (take == 0) return;
                Strs tok(a.begin(), a.begin() + c); a.erase(a.begin(), a.begin() + c);
                int ks[2] = {k1, k2};
                for (int i = 0; i < n; ++i) { ROpt o; o.key = OK[ks[i]][0]; for (int j = 1; j < 3; ++j) if (*OK[ks[i]][j]) o.val.push_back(OK[ks[i]][j]);
                    if (o.key.empty()) { o.val.push_back("pos"); o.orig.push_back("@"); } else o.orig = tok; out.push_back(o); }
            };
            sequences(al2, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
                bool any = false; for (size_t i = 0; i < ix.size(); ++i) any |= ix[i] == 0; if (!any) return;
                if (!R.begin()) return;
                Strs t = pick(al2, ix); string nm = "list parser takes " + mc::num(take) + " returns " + mc::num(n) + " (" + OK[k1][0] + "," + OK[k2][0] + ")";
                Model m(real.g, &R, mc::mix(real.gh, take + n * 8 + k1 * 64 + k2 * 1024)); m.sp = lp; Res w = m.parse(t), x = run(real, t, TokParser(), lp);
                R.trace(); if (!(w == x)) R.fail(nm + " " + real.g.str() + " args=" + mc::q(t), w.str(), x.str());
                if (R.want_sample()) R.sample(nm + " args=" + mc::q(t) + " -> " + x.str());
                R.end(x.hash());
            });
        }
    }
    R.space("list parsers that return many options", T ? "a list parser that takes 1..3 tokens and returns 3..34 options (sizes 3..9, 16, 17, 32, 33, 34), all of one of 10 kinds but one of each other kind at each place; 12 token lists; unregistered allowed or not" : "a list parser that takes 1..3 tokens and returns 3..33 options (3, 4, 5, 6, 9, 17, 33), all of one of 10 kinds but one of each other kind at each place; 7 token lists; unregistered allowed or not");
    {
        const char* OK[][3] = { {"", "", ""}, {"bar", "", ""}, {"foo", "V", ""}, {"foo", "", ""}, {"many", "m1", "m2"}, {"opt", "", ""}, {"zzz", "w", ""}, {"bar", "x", ""}, {"-b", "", ""}, {"two", "t1", "t2"} };
        int NS[] = {3, 4, 5, 6, 9, 17, 33, 7, 8, 16, 32, 34}; std::vector<Strs> L = {S({"@"}), S({"@", "p"}), S({"@", "--foo=v", "q"}), S({"p", "@", "-b", "q"}), S({"@", "x", "@", "y"}), S({"@", "--", "p"}), S({"--foo", "@", "p"}), S({"@", "p", "q", "r"}), S({"@", "--foo", "--bar"}), S({"-m", "@", "q"}), S({"@", "@", "@"}), S({"@", "zzz", "--zzz"})};
        for (int un = 0; un < 2; ++un) { Gram h = g; h.unreg = un; Real real(h);
            for (int q = 0; q < (T ? 12 : 7); ++q) for (int take = 1; take <= 3; ++take) for (int k1 = 0; k1 < 10; ++k1) for (int k2 = 0; k2 < 10; ++k2) for (int at = 0; at < NS[q]; ++at) {
                int n = NS[q]; if (k1 == k2 && at) break; if (!T && n > 9 && at > 2 && at < n - 2) continue;
                ListParser lp = [&](Strs& a, std::vector<ROpt>& out) { if (a.size() < (size_t)take || a[0] != "@") return; Strs tok(a.begin(), a.begin() + take); a.erase(a.begin(), a.begin() + take); for (int i = 0; i < n; ++i) { ROpt o; int k = i == at ? k2 : k1; o.key = OK[k][0]; for (int j = 1; j < 3; ++j) if (*OK[k][j]) o.val.push_back(OK[k][j]); if (o.key.empty()) { o.val.push_back("pos"); o.orig.push_back("@"); } else o.orig = tok; out.push_back(o); } };
                for (size_t l = 0; l < (T ? L.size() : 7); ++l) {
                    if (!R.begin()) continue; string nm = "list parser takes " + mc::num(take) + " returns " + mc::num(n) + " " + OK[k1][0] + " but " + OK[k2][0] + " at " + mc::num(at);
                    Model m(real.g, &R, mc::mix(real.gh, take + n * 8 + k1 * 512 + k2 * 8192 + at * 65536)); m.sp = lp; Res w = m.parse(L[l]), x = run(real, L[l], TokParser(), lp); R.trace();
                    if (!(w == x)) R.fail(nm + " " + real.g.str() + " args=" + mc::q(L[l]), w.str(), x.str()); R.end(x.hash());
                }
            }
        }
    }
    R.space("both parsers", "token parser and list parser installed together, every list of 0..4 of 6 tokens, 9 action pairs");
    for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
        Gram h = g; Real real(h); int act[3] = {1, 2, 4};
        TokParser tp = [&](const string& t) { if (t == "@a" || t == "@") return std::make_pair(string(ACT[act[a]].key), string(ACT[act[a]].val)); return std::make_pair(string(), string()); };
        ListParser lp = [&](Strs& v, std::vector<ROpt>& out) { if (v.size() < (size_t)b || v.empty() || v[0] != "@") return; size_t c = b ? b : 1; ROpt o; o.key = "many"; o.val.assign(v.begin(), v.begin() + c); o.orig = o.val; v.erase(v.begin(), v.begin() + c); out.push_back(o); };
        Strs al3 = S({"@", "@a", "p", "--foo", "-b", "--"});
        sequences(al3, 0, T ? 5 : 4, [&](const std::vector<int>& ix) { if (!R.begin()) return; Strs t = pick(al3, ix); Model m(real.g, &R, mc::mix(real.gh, a * 3 + b)); m.extra = tp; m.sp = lp; Res w = m.parse(t), x = run(real, t, tp, lp); R.trace(); if (!(w == x)) R.fail("both parsers " + mc::num(a) + mc::num(b) + " args=" + mc::q(t), w.str(), x.str()); R.end(x.hash()); });
    }
    R.space("documented uses", "@file and --no-name parsers on every list of 0..4 of 8 tokens; names and values of lengths 1..70 and every byte");
    {
        Gram h = g; h.o("file", "str").o("no", "str"); Real real(h);
        TokParser at = [](const string& t) { if (!t.empty() && t[0] == '@') return std::make_pair(string("file"), t.substr(1)); if (t.compare(0, 5, "--no-") == 0) return std::make_pair(string("no"), t.substr(5)); return std::make_pair(string(), string()); };
        Strs a = S({"@resp", "--no-x", "@", "p", "-b", "--foo", "--", "--no-"});
        auto go = [&](const Strs& t) { Model m(real.g, &R, real.gh); m.extra = at; Res w = m.parse(t), x = run(real, t, at); R.trace(); if (!(w == x)) R.fail("@file/--no- parser args=" + mc::q(t), w.str(), x.str()); R.end(x.hash()); };
        sequences(a, 0, T ? 5 : 4, [&](const std::vector<int>& ix) { if (R.begin()) go(pick(a, ix)); });
        std::vector<int> n = sizes(300); for (size_t i = 0; i < n.size(); ++i) for (int k = 0; k < 3; ++k) { if (!R.begin()) continue; Strs t; for (int j = 0; j < k; ++j) t.push_back("-b"); t.push_back((k == 1 ? "--no-" : "@") + text(n[i])); t.push_back("p"); go(t); }
        for (int c = 0; c < 256; ++c) for (int k = 0; k < 2; ++k) { if (!R.begin()) continue; Strs t(1, (k ? "@a" : "--no-") + string(1, char(c))); t.push_back("p"); go(t); }
        for (int n = 1; n <= 70; ++n) for (int at_ = 0; at_ < n; ++at_) for (int k = 0; k < 3; ++k) { if (!R.begin()) continue; Strs t(n, k == 0 ? "p" : k == 1 ? "-b" : "@r"); t[at_] = k == 2 ? "-b" : "@odd"; go(t); }
    }
}
#endif

#if PROP == 28
const char* mc::property = "C28";
static Strs hostile()
{
    Strs v = S({"v", "%", "%%", "%value%", "%canonical_option%", "%prefix%", "%option%", "%original_token%", "%invalid_line%", "x%value%y%value%", "%value", "value%", "%%value%%", "'%value%'", "option '%canonical_option%'", "argument ('%value%')", "%s", "%n%s", "-", "--", "/", "-/-", "'", "\"", "\\", "a b", " ", "\t", "\n", "\xff", "\xc3\xa9", "%foo%", "%a%b%c%", "option", "argument"});
    std::vector<int> n = sizes(300); for (size_t i = 0; i < n.size(); i += 3) if (n[i]) v.push_back(text(n[i], "stuvwxyz"));
    for (int c = 1; c < 256; ++c) v.push_back(string("k") + char(c));
    return v;
}
static string subst(string tpl, const string& opt_, const string& val)
{   // messages are assembled from literal parts, never re-scanned
    string r; for (size_t i = 0; i < tpl.size(); ++i) { if (tpl[i] == '\1') r += opt_.empty() ? "option" : "option '" + opt_ + "'"; else if (tpl[i] == '\2') r += val.empty() ? "argument" : "argument ('" + val + "')"; else r += tpl[i]; } return r;
}
// a value whose validator logs the error of the inner conversion and passes it on
struct Logged { int n; };
static std::vector<string> logged;
static void validate(boost::any& v, const Strs& t, Logged*, int)
{
    boost::any in; try { po::validate(in, t, (int*)0, 0); } catch (const po::error_with_option_name& e) { logged.assign(1, e.what()); logged.push_back(e.get_option_name()); throw; }
    Logged l; l.n = boost::any_cast<int>(in); v = l;
}
static const char* MSG[] = { "\1 cannot be specified more than once", "\1 only takes a single argument", "\1 requires at least one argument", "the \2 for \1 is invalid", "the \2 for \1 is invalid. Valid choices are 'on|off', 'yes|no', '1|0' and 'true|false'" };
struct Got { string kind, what, name; bool stable; };
static Got take(const std::function<void()>& f)
{
    Got g; g.stable = true;
    try { f(); g.kind = "no error"; }
    catch (const po::error_with_option_name& e) {
        Res r = current(); g.kind = r.kind; g.what = e.what(); g.name = e.get_option_name();
        po::error_with_option_name c(e); const std::exception& b = e;
        if (g.what != e.what() || g.what != b.what() || g.name != e.get_option_name()) g.stable = false;
        if (g.kind != "ambiguous" && g.what != c.what()) g.stable = false;
        if (const po::ambiguous_option* a = dynamic_cast<const po::ambiguous_option*>(&e)) { po::ambiguous_option d(*a); if (d.what() != g.what || d.alternatives() != a->alternatives()) g.stable = false; }
    } catch (...) { Res r = current(); g.kind = r.kind; g.what = r.what; }
    return g;
}
static void want(Run& R, const string& in, const string& kind, const string& what, const string& name, const Got& g)
{
    R.trace(); R.transitions(1); R.state(mc::hstr(kind + "|" + in));
    if (g.kind != kind || g.what != what || g.name != name || !g.stable) R.fail(in, kind + ": " + what + " [" + name + "]", g.kind + ": " + g.what + " [" + g.name + "]" + (g.stable ? "" : " (changes when read again or copied)"));
    if (R.want_sample()) R.sample(in + " -> " + g.kind + ": " + g.what);
    R.end(mc::hstr(g.kind + g.what));
}
static void parseCase(Run& R, const Real& real, const Strs& t)
{
    if (!R.begin()) return;
    Model m(real.g, &R, real.gh); Res w = m.parse(t);
    Got g = take([&] { po::command_line_parser p(t); setup(p, real); p.run(); });
    if (!w.err) { w.kind = "no error"; w.what.clear(); w.name.clear(); }
    want(R, real.g.str() + " args=" + mc::q(t), w.kind, w.what, w.name, g);
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs hs = hostile();
    std::vector<int> sty = {0, UNIX | st::allow_long_disguise | st::allow_slash_for_short | st::case_insensitive, st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent | st::allow_sticky,
        st::allow_short | st::allow_slash_for_short | st::short_allow_next | st::short_allow_adjacent, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing, st::allow_long | st::long_allow_adjacent | st::allow_guessing};
    Gram g; g.o("foo,f", "str").o("foobar", "str").o("flag,g", "flag").o("int,i", "str").o("dup,d", "flag").o("dupe,d", "flag").o(",q", "str").o("two,t", "2-2").o("Case", "str").o("case", "str").o("wild*", "str");
    R.space("parse errors", T ? "every list of 1..3 of 28 tokens, 6 styles" : "every list of 1..2 of 28 tokens and 3 of 12, 6 styles");
    { Strs al = S({"--foo", "--foo=", "--flag=v", "--fo", "--nope", "--nope=v", "-d", "-f", "-q", "-x", "-gx", "-gd", "-gv", "--two", "-t", "p", "/f", "/x", "-fo", "-foo=", "--du", "--C", "--CASE", "-ta", "--", "-gq", "/d", "--wildly"});
      Strs sm = S({"--foo", "--foo=", "--flag=v", "--nope", "-d", "-q", "-gx", "--two", "-t", "p", "/d", "-foo="});
      for (size_t s = 0; s < sty.size(); ++s) { Gram h = g; h.style = sty[s]; Real real(h);
        sequences(al, 1, T ? 3 : 2, [&](const std::vector<int>& ix) { parseCase(R, real, pick(al, ix)); });
        sequences(sm, 3, T ? 4 : 3, [&](const std::vector<int>& ix) { parseCase(R, real, pick(sm, ix)); }); } }
    R.space("hostile names and values in parse errors", "each of ~330 texts (placeholders, every byte, lengths to 300) as unknown name, value, following token, ambiguous wildcard match; 6 styles");
    for (size_t s = 0; s < sty.size(); ++s) {
        Gram h = g; h.style = sty[s]; Real real(h);
        Gram a; a.o("amb*", "str").o("am*", "str").o("amb,z", "flag"); a.style = sty[s]; Real ra(a);
        for (size_t i = 0; i < hs.size(); ++i) {
            const string& x = hs[i];
            Strs one = {"--" + x, "-" + x, "/" + x, "--" + x + "=1", "--flag=" + x, "--foobar" + x, "--nope=" + x, "-g" + x, "-flag=" + x, "/flag=" + x, "-x" + x};
            for (size_t k = 0; k < one.size(); ++k) parseCase(R, real, Strs(1, one[k]));
            parseCase(R, ra, Strs(1, "--amb" + x)); parseCase(R, ra, Strs(1, "-amb" + x)); parseCase(R, ra, Strs(1, "--am" + x + "=v"));
            Strs two = {"--two", x}; parseCase(R, real, two); Strs th = {x, "--nope"}; parseCase(R, real, th);
        }
    }
    R.space("option name lengths", "missing, extra and ambiguous errors for names of length 1..70 and boundary sizes to 300");
    { std::vector<int> n = sizes(300); for (int i = 1; i <= 70; ++i) n.push_back(i);
      for (size_t i = 0; i < n.size(); ++i) { if (!n[i]) continue; string nm = text(n[i]); for (size_t s = 0; s < sty.size(); ++s) { Gram h; h.style = sty[s]; h.o(nm + ",s", "str").o(nm + "x,w", "flag").o("zz" + nm, "str").o("zz" + nm + "y", "str"); Real real(h);
        Strs t = {"--" + nm, "--" + nm + "=", "--" + nm + "x=v", "--zz" + nm.substr(0, nm.size() - 1), "-" + nm, "-zz" + nm.substr(0, nm.size() / 2), "-s", "-wv", "--" + nm + "xx", "/" + nm, "/s"}; for (size_t k = 0; k < t.size(); ++k) parseCase(R, real, Strs(1, t[k])); } } }
    R.space("ambiguity lists", "2..30 tied alternatives, duplicates among them, 6 styles");
    for (int n = 2; n <= 30; ++n) for (int v = 0; v < 4; ++v) for (size_t s = 0; s < sty.size(); ++s) { Gram h; h.style = sty[s]; for (int i = 0; i < n; ++i) h.o(v == 0 ? "amb" + mc::num((i * 7) % n) : v == 1 ? "amb" + mc::num(i % 3) : v == 2 ? "key" + mc::num(i) + ",amb" : "n" + mc::num(i) + ",a", "flag"); Real real(h); Strs t = S({"--amb", "-a", "--am", "-amb", "/a", "/amb"}); for (size_t k = 0; k < t.size(); ++k) parseCase(R, real, Strs(1, t[k])); }
    R.space("store errors", "6 kinds of conversion error x ~330 values x 6 styles, configuration, environment; short and long spelling");
    {
        struct C { const char* kind; int msg; };
        for (size_t s = 0; s < sty.size() + 2; ++s) for (size_t i = 0; i < hs.size(); ++i) for (int k = 0; k < 5; ++k) for (int sh = 0; sh < 2; ++sh) {
            bool cmd = s < sty.size(); if (!cmd && sh) continue;
            Gram gg; gg.style = cmd ? sty[s] : 0; Model m(gg); int p = cmd ? m.prefix() : 0;
            bool lng = p == st::allow_long || p == st::allow_long_disguise;
            if (cmd && !lng && !sh) continue;            // long spelling is not available
            if (cmd && sh && !(gg.style == 0 || (gg.style & st::allow_short))) continue;
            string x = hs[i];
            if (!cmd) { if (s == sty.size()) { bool plain = true; for (size_t c = 0; c < x.size(); ++c) if (x[c] == '#' || x[c] == '\n' || x[c] == '\r') plain = false; if (!plain || x[0] == ' ' || x[x.size() - 1] == ' ' || x[0] == '\t' || x[x.size() - 1] == '\t') continue; } }
            if (!R.begin()) continue;
            // options: num,n : int; bol,b : bool; one,o : string; vec,v : vector<int>; opt,p : float
            const char* nm[5] = {"num", "bol", "one", "vec", "flo"}; const char* shn[5] = {"n", "b", "o", "v", "p"};
            po::options_description d; d.add_options()("num,n", po::value<int>(), "")("bol,b", po::value<bool>(), "")("one,o", po::value<string>(), "")("vec,v", po::value<std::vector<int> >(), "")("flo,p", po::value<double>(), "");
            string kind = k == 1 ? "bad_bool" : k == 2 ? "multiple_occurrences" : "bad_value";
            string sl = gg.style && !(gg.style & st::allow_dash_for_short) ? "/" : "-";
            string tok = !cmd ? nm[k] : sh ? sl + shn[k] + x : (p == st::allow_long ? "--" : "-") + string(nm[k]) + "=" + x;
            string can = !cmd ? nm[k] : m.canon(nm[k], tok);
            string what = subst(MSG[k == 1 ? 4 : k == 2 ? 0 : 3], can, k == 2 ? "" : x);
            Got g;
            if (cmd) { Strs t(1, tok); if (k == 2) t.push_back(tok); g = take([&] { po::variables_map vm; po::store(po::command_line_parser(t).options(d).style(gg.style).run(), vm); }); }
            else if (s == sty.size()) { string l = string(nm[k]) + "=" + x + "\n"; if (k == 2) l += l; std::istringstream is(l); g = take([&] { po::variables_map vm; po::store(po::parse_config_file(is, d), vm); }); }
            else { po::parsed_options q(&d); po::option o; o.string_key = nm[k]; o.value.push_back(x); q.options.push_back(o); if (k == 2) q.options.push_back(o); g = take([&] { po::variables_map vm; po::store(q, vm); }); }
            want(R, string("store ") + (cmd ? "cmdline style " + mc::num(gg.style) : s == sty.size() ? "config" : "environment") + " " + mc::q(tok) + " value " + mc::q(x), kind, what, can, g);
        }
    }
    R.space("wide and narrow value errors", "4 kinds of conversion error x ~100 texts (all lengths 1..40 and sizes to 300, ASCII and other characters at every place of short ones) x both input widths x both value widths, command line and configuration, under a UTF-8 and the classic locale");
    { std::vector<W> ws; for (size_t i = 0; i < 35 && i < hs.size(); ++i) if (hs[i].find_first_of("\xff\xc3") == string::npos) ws.push_back(W(hs[i].begin(), hs[i].end()));
      std::vector<int> ls = sizes(300); for (int n = 1; n <= 40; ++n) ls.push_back(n);
      for (size_t i = 0; i < ls.size(); ++i) if (ls[i]) { string a = text(ls[i], "stuvwxyz"); W w(a.begin(), a.end()); ws.push_back(w); for (size_t at = 0; at < w.size(); at += 1 + w.size() / 4) { W x = w; x[at] = at % 3 == 0 ? 0xe9 : at % 3 == 1 ? 0x6f22 : 0x1f600; ws.push_back(x); } ws.push_back(W(w.size(), wchar_t(0x20ac))); }
      for (int loc = 0; loc < 2; ++loc) {
        std::locale::global(loc ? std::locale::classic() : std::locale(std::locale::classic(), new po::detail::utf8_codecvt_facet));
        for (size_t i = 0; i < ws.size(); ++i) for (int k = 0; k < 4; ++k) for (int f = 0; f < 8; ++f) {
            const W& v = ws[i]; bool wi = f & 1, wd = f & 2, cfg = f & 4, ascii = true; for (size_t c = 0; c < v.size(); ++c) if ((unsigned long)v[c] >= 128) ascii = false;
            if (loc && !ascii && !(wi && wd)) continue;            // the text has no narrow form there
            if (cfg && (v.find_first_of(L"#\n") != W::npos || v[0] == L' ' || v[0] == L'\t' || v[v.size() - 1] == L' ')) continue;
            if (!R.begin()) continue;
            static const char* nm[4] = {"num", "bol", "vec", "flo"}; po::options_description d; string u = enc(v), tok = "--" + string(nm[k]) + "=" + u;
            if (wd) d.add_options()("num", po::wvalue<int>(), "")("bol", po::wvalue<bool>(), "")("vec", po::wvalue<std::vector<int> >(), "")("flo", po::wvalue<double>(), ""); else d.add_options()("num", po::value<int>(), "")("bol", po::value<bool>(), "")("vec", po::value<std::vector<int> >(), "")("flo", po::value<double>(), "");
            string line = string(nm[k]) + "=" + u + "\n", can = cfg ? string(nm[k]) : "--" + string(nm[k]);
            string what = subst(MSG[k == 1 ? 4 : 3], can, ascii || !loc ? u : "<unrepresentable unicode string>");
            Got g = take([&] { po::variables_map vm;
                if (cfg && wi) { std::wistringstream is(dec(line)); po::store(po::parse_config_file(is, d), vm); } else if (cfg) { std::istringstream is(line); po::store(po::parse_config_file(is, d), vm); }
                else if (wi) { std::vector<W> t(1, dec(tok)); po::store(po::wcommand_line_parser(t).options(d).run(), vm); } else { Strs t(1, tok); po::store(po::command_line_parser(t).options(d).run(), vm); } });
            want(R, string(loc ? "classic" : "UTF-8") + (wi ? " wide" : " narrow") + (cfg ? " config " : " command line ") + (wd ? "wide" : "narrow") + " value " + mc::q(tok), k == 1 ? "bad_bool" : "bad_value", what, can, g);
        }
      }
      std::locale::global(std::locale::classic());
    }
    R.space("other store and notify errors", "at-least-one, single-argument, unknown name, required option: every style and source");
    for (size_t s = 0; s < sty.size() + 1; ++s) for (int k = 0; k < 8; ++k) {
        if (!R.begin()) continue;
        bool cmd = s < sty.size(); Gram gg; gg.style = cmd ? sty[s] : 0; Model m(gg); int p = cmd ? m.prefix() : 0;
        po::options_description d; d.add_options()("str,s", po::value<string>(), "")("req,r", po::value<int>()->required(), "")(",c", po::value<int>()->required(), "")("num,n", po::value<int>()->multitoken(), "")("unt,u", new po::untyped_value(false), "")("alias-long,other", po::value<int>()->required(), "");
        po::parsed_options q(&d, p); po::option o; string kind, what, name;
        auto pre = [&](const string& l, const string& t) { return m.canon(l, t); };
        Model m0(gg); if (!cmd) { }
        auto canonP = [&](const string& l, const string& t) { return cmd ? m.canon(l, t) : strip(l); };
        if (k == 0) { o.string_key = "str"; o.original_tokens.push_back("-s"); name = canonP("str", "-s"); kind = "validation:31"; what = subst(MSG[2], name, ""); }
        if (k == 1) { o.string_key = "num"; o.original_tokens.push_back("-n"); o.value.push_back("1"); o.value.push_back("2"); name = canonP("num", "-n"); kind = "validation:30"; what = subst(MSG[1], name, ""); }
        if (k == 2) { o.string_key = "unt"; o.original_tokens.push_back("-u"); o.value.push_back("1"); o.value.push_back("2"); name = canonP("unt", "-u"); kind = "multiple_values"; what = subst(MSG[1], name, ""); }
        if (k == 3) { o.string_key = "nope"; o.original_tokens.push_back("tok"); o.value.push_back("1"); name = "tok"; kind = "unknown"; what = "unrecognised option 'tok'"; }
        if (k == 4) { if (cmd) { o.string_key = "str"; o.value.push_back("x"); kind = "no error"; } else { o.string_key = "envname"; o.value.push_back("1"); name = "envname"; kind = "unknown"; what = "unrecognised option 'envname'"; } }
        bool notify = k >= 5;
        Got g;
        if (!notify) { q.options.push_back(o); g = take([&] { po::variables_map vm; po::store(q, vm); }); }
        else {
            // required options missing: 5 nothing given, 6 all but ",c", 7 all but the aliased one
            auto addv = [&](const char* key) { po::option x; x.string_key = key; x.value.push_back("1"); x.original_tokens.push_back("x"); q.options.push_back(x); };
            if (k >= 6) addv("req"); if (k == 6) addv("alias-long"); if (k == 7) addv("-c");
            string key = k == 6 ? "-c" : k == 5 ? "-c" : "alias-long";
            Opt O = k == 7 ? opt("alias-long,other", "str") : opt(",c", "str");
            if (!O.longs.empty()) name = p == st::allow_long ? "--alias-long" : p == st::allow_long_disguise ? "-alias-long" : "alias-long"; else name = p == st::allow_slash_for_short ? "/c" : "-c";
            kind = "required"; what = "the option '" + name + "' is required but missing";
            g = take([&] { po::variables_map vm; po::store(q, vm); po::notify(vm); });
        }
        want(R, "case " + mc::num(k) + (cmd ? " style " + mc::num(gg.style) : " no style"), kind, what, name, g);
    }
    R.space("error objects", "every error class built directly with every hostile name, token and value, every prefix style, context replaced up to twice, the message read or not before each");
    { int P[5] = {0, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short};
      for (size_t i = 0; i < hs.size(); ++i) for (int p = 0; p < 5; ++p) for (int c = 0; c < 9; ++c) for (int e2 = 0; e2 < 3; ++e2) for (int rd = 0; rd < 4; ++rd) {
        if (!R.begin()) continue;
        Gram gg; gg.style = p == 0 ? 8192 : p == 1 ? (int)st::allow_long : p == 2 ? (int)st::allow_long_disguise : p == 3 ? st::allow_short | st::allow_dash_for_short : st::allow_short | st::allow_slash_for_short; Model m(gg);
        string nm = e2 == 2 ? hs[i] : "name", tok = e2 == 1 ? "-" + hs[i] : "--name", val = e2 == 0 ? hs[i] : "val";
        string can = m.canon(nm, tok), kind, what, name = can; Got g;
        auto ctx = [&](po::error_with_option_name& e) { if (rd & 1) e.what(); if (i & 1) e.add_context("first", "--first", st::allow_long); if (rd & 2) e.what(); e.add_context(nm, tok, P[p]); };
        switch (c) {
        case 0: g = take([&] { po::invalid_option_value e(val); ctx(e); throw e; }); kind = "bad_value"; what = subst(MSG[3], can, val); break;
        case 1: g = take([&] { po::invalid_bool_value e(val); ctx(e); throw e; }); kind = "bad_bool"; what = subst(MSG[4], can, val); break;
        case 2: g = take([&] { po::multiple_occurrences e; ctx(e); throw e; }); kind = "multiple_occurrences"; what = subst(MSG[0], can, ""); break;
        case 3: g = take([&] { po::multiple_values e; ctx(e); throw e; }); kind = "multiple_values"; what = subst(MSG[1], can, ""); break;
        case 4: g = take([&] { po::unknown_option e; ctx(e); throw e; }); kind = "unknown"; what = "unrecognised option '" + tok + "'"; name = tok; break;
        case 5: g = take([&] { po::invalid_command_line_syntax e(po::invalid_syntax::missing_parameter); ctx(e); throw e; }); kind = "syntax:missing"; what = subst("the required argument for \1 is missing", can, ""); break;
        case 6: g = take([&] { po::required_option e(nm); throw e; }); kind = "required"; what = "the option '" + nm + "' is required but missing"; name = nm; break;
        case 7: g = take([&] { po::validation_error e(po::validation_error::at_least_one_value_required, nm, tok, P[p]); throw e; }); kind = "validation:31"; what = subst(MSG[2], can, ""); break;
        case 8: g = take([&] { Strs al; al.push_back(val); al.push_back(nm + "2"); al.push_back(val); po::ambiguous_option e(al); ctx(e); throw e; }); kind = "ambiguous"; name = tok;
            { Strs al; al.push_back(val); al.push_back(nm + "2"); al.push_back(val); try { m.ambiguous(al, tok); } catch (Error& er) { what = er.r.what; } } break;
        }
        want(R, "error class " + mc::num(c) + " prefix " + mc::num(P[p]) + " name " + mc::q(nm) + " token " + mc::q(tok) + " value " + mc::q(val), kind, what, name, g);
      } }
    R.space("histories of one error object", T ? "every sequence of 1..5 of 15 operations (read, copy, assign, throw, set name, token, prefix, value) on 3 error classes" : "every sequence of 1..4 of 15 operations (read, copy, assign, throw, set name, token, prefix, value) on 3 error classes");
    { static const char* op[15] = {"read", "copy", "assign", "throw", "name one", "name other-one", "token --one", "token /x", "prefix 0", "prefix --", "prefix - long", "prefix - short", "prefix /", "value %value%", "value w"};
      int P[5] = {0, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short}; Strs al; for (int i = 0; i < 15; ++i) al.push_back(op[i]);
      for (int c = 0; c < 3; ++c) sequences(al, 1, T ? 5 : 4, [&](const std::vector<int>& ix) {
        if (!R.begin()) return;
        string nm, tok, val = "v"; int p = 0; bool same = true; string key = "error class " + mc::num(c) + ":";
        auto expect = [&](string& can) { Gram gg; gg.style = p == 0 ? 8192 : p == 1 ? (int)st::allow_long : p == 2 ? (int)st::allow_long_disguise : p == 3 ? st::allow_short | st::allow_dash_for_short : st::allow_short | st::allow_slash_for_short; Model m(gg); can = c == 1 ? tok : m.canon(nm, tok); return c == 0 ? subst(MSG[3], can, val) : c == 1 ? subst("unrecognised \1", can, "") : subst(MSG[0], can, ""); };
        string can, seen;
        auto run = [&](auto e) {
            typedef decltype(e) E;
            for (size_t i = 0; i < ix.size(); ++i) { int o = ix[i];
                if (o == 0) { string w = expect(can); if (e.what() != w || e.get_option_name() != can) { same = false; seen = e.what(); } }
                else if (o == 1) { E f(e); e.set_option_name("gone"); e.set_substitute("value", "gone"); E h(f); e = h; } else if (o == 2) { E f(e); f.set_original_token("gone"); f.what(); f = e; e.set_prefix(st::allow_long); e = f; }
                else if (o == 3) { try { throw e; } catch (const E& f) { e = f; } } else if (o < 6) { nm = o == 4 ? "one" : "other-one"; e.set_option_name(nm); } else if (o < 8) { tok = o == 6 ? "--one" : "/x"; e.set_original_token(tok); }
                else if (o < 13) { p = o - 8; e.set_prefix(P[p]); } else { val = o == 13 ? "%value%" : "w"; e.set_substitute("value", val); } }
            return take([&] { throw e; });
        };
        for (size_t i = 0; i < ix.size(); ++i) key += string(" ") + op[ix[i]] + ";";
        Got g = c == 0 ? run(po::invalid_option_value("v")) : c == 1 ? run(po::unknown_option()) : run(po::multiple_occurrences());
        string w = expect(can); if (!same) R.fail(key, "the message of the state at each reading", mc::q(seen), "read between");
        want(R, key, c == 0 ? "bad_value" : c == 1 ? "unknown" : "multiple_occurrences", w, can, g);
      }); }
    R.space("messages read before they are complete", "a user validator that reads and rethrows a conversion error, each hostile value, 6 styles and a configuration, narrow and nested validators");
    for (size_t s = 0; s <= sty.size(); ++s) for (size_t i = 0; i < hs.size(); ++i) for (int k = 0; k < 2; ++k) {
        const string& x = hs[i]; bool cmd = s < sty.size(); Gram gg; gg.style = cmd ? sty[s] : 0; Model m(gg); int p = cmd ? m.prefix() : 0; bool lng = p == st::allow_long || p == st::allow_long_disguise; if (cmd && !lng) continue;
        if (!cmd) { bool plain = true; for (size_t c = 0; c < x.size(); ++c) if (x[c] == '#' || isspace((unsigned char)x[c])) plain = false; if (!plain) continue; }
        if (!R.begin()) continue;
        po::options_description d; if (k) d.add_options()("num", po::value<std::vector<Logged> >(), ""); else d.add_options()("num", po::value<Logged>(), "");
        string tok = cmd ? (p == st::allow_long ? "--num=" : "-num=") + x : "num", can = cmd ? m.canon("num", tok) : "num"; Got g;
        if (cmd) g = take([&] { po::variables_map vm; po::store(po::command_line_parser(Strs(1, tok)).options(d).style(gg.style).run(), vm); }); else { std::istringstream is("num=" + x + "\n"); g = take([&] { po::variables_map vm; po::store(po::parse_config_file(is, d), vm); }); }
        want(R, string("validator that reads the message, ") + (cmd ? "style " + mc::num(gg.style) : "configuration") + (k ? " vector" : "") + " value " + mc::q(x), "bad_value", subst(MSG[3], can, x), can, g);
    }
    R.space("configuration and file errors", "invalid lines and unknown names of every hostile text; unreadable file names");
    for (size_t i = 0; i < hs.size(); ++i) for (int k = 0; k < 3; ++k) {
        const string& x = hs[i]; bool plain = true; for (size_t c = 0; c < x.size(); ++c) if (x[c] == '#' || x[c] == '\n' || x[c] == '\r' || x[c] == '=' || x[c] == '[' ) plain = false;
        if (!plain || isspace((unsigned char)x[0]) || isspace((unsigned char)x[x.size() - 1])) continue;
        if (!R.begin()) continue;
        po::options_description d; d.add_options()("zzz", po::value<string>(), ""); Got g;
        if (k == 0) { std::istringstream is(x + "\n"); g = take([&] { po::parse_config_file(is, d); }); want(R, "config line " + mc::q(x), "config-syntax:line", "the options configuration file contains an invalid line '" + x + "'", "", g); }
        else if (k == 1) { std::istringstream is("[sec]\n" + x + " = 1\n"); g = take([&] { po::parse_config_file(is, d); }); want(R, "config name " + mc::q(x), "unknown", "unrecognised option 'sec." + x + "'", "sec." + x, g); }
        else { string f = "/nonexistent-dir-for-check/" + x; g = take([&] { po::parse_config_file(f.c_str(), d); }); want(R, "config file " + mc::q(f), "reading_file", "can not read options configuration file '" + f + "'", "", g); }
    }
}
#endif
