// C21 option groups, C22 help layout.
#include "cfgmodel.hpp"
#include "helpmodel.hpp"
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }

#if PROP == 22
const char* mc::property = "C22";
static HOpt H(const string& n, const string& p, const string& d) { HOpt o; o.names = n; o.param = p; o.desc = d; return o; }
static string firstDiff(const string& a, const string& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return " (first difference at character " + mc::num(i) + ")"; }
static u64 judge(Run& R, const HOpt& o, unsigned L, unsigned m, unsigned width = 0)
{
    HGroup g("", L, m); g.own.push_back(o); unsigned col = width ? width : column(g);
    string want = help(g, width); R.state(mc::mix(mc::hstr(o.desc), mc::mix(L, col))); R.transitions(1);
    po::options_description d(L, m); declareH(d, o); string have = printed(d, width); R.trace();
    string key = "option " + mc::q(o.names) + " " + mc::q(o.param) + " description " + mc::q(o.desc) + " line length " + mc::num(L) + " minimum description " + mc::num(m) + (width ? " width " + mc::num(width) : "");
    if (want != have) R.fail(key, mc::q(want), mc::q(have) + firstDiff(want, have));
    else if (want != "error") { string inv = helpInvariant(have, o, col, L); if (!inv.empty()) R.fail(key, "complete, aligned, wrapped help", inv + ": " + mc::q(have), "invariant"); }
    if (R.want_sample()) R.sample(key + " -> " + mc::q(have));
    return mc::hstr(have);
}
static void one(Run& R, const HOpt& o, unsigned L, unsigned m, unsigned width = 0) { if (!R.begin()) return; u64 h = judge(R, o, L, m, width); R.end(h); }
static void group(Run& R, const HGroup& g, const std::function<void(po::options_description&)>& fill, const string& key)
{
    if (!R.begin()) return;
    po::options_description d(g.caption, g.L, g.m); fill(d); string want = help(g), have = printed(d); R.trace(); R.state(mc::hstr(have));
    if (want != have) R.fail(key, mc::q(want), mc::q(have) + firstDiff(want, have)); if (d.get_option_column_width() != column(g)) R.fail(key, "column " + mc::num(column(g)), mc::num(d.get_option_column_width())); R.end(mc::hstr(have));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("short descriptions", T ? "every description of length 0..10 over a blank newline tab x available widths 2..9" : "every description of length 0..8 over a blank newline tab x available widths 2..8");
    texts("a \n\t", 0, T ? 10 : 8, [&](const string& s) { for (unsigned a = 2; a <= (T ? 9u : 8u); ++a) one(R, H("x", "", s), a + 3, a); });
    R.space("blanks and letters", T ? "every description of length 9..15 over a blank x widths 2..9" : "every description of length 9..12 over a blank x widths 2..9");
    texts("a ", 9, T ? 15 : 12, [&](const string& s) { for (unsigned a = 2; a <= 9; ++a) one(R, H("x", "", s), a + 3, a); });
    texts("a \t", 8, T ? 11 : 9, [&](const string& s) { for (unsigned a = 2; a <= 9; ++a) one(R, H("x", "", s), a + 3, a); });
    R.space("stream formatting", "every description of length 0..5 over a blank newline tab x 4 available widths x 3 names, with and without a parameter, on streams with 8 combinations of formatting flags, fill character and precision, and appended to earlier text: the same help, the flags left as they were");
    texts("a \n\t", 0, 5, [&](const string& s) { for (unsigned a = 2; a <= 11; a += 3) for (int n = 0; n < 6; ++n) {
        if (!R.begin()) continue; HOpt o = H(n % 3 == 0 ? "x" : n % 3 == 1 ? "name,n" : ",q", n < 3 ? "" : "value", s); HGroup g(n & 1 ? "Caption" : "", a + 14, a); g.own.push_back(o); string want = help(g); po::options_description d(g.caption, g.L, g.m); declareH(d, o); string key = "option " + mc::q(o.names) + " description " + mc::q(s) + " line length " + mc::num(g.L); u64 out = 0; R.trace(); R.state(mc::hstr(key));
        for (int k = 0; k < 8; ++k) {
            std::ostringstream os; os << "before "; if (k & 1) { os << std::left << std::hex << std::showbase << std::boolalpha << std::uppercase; os.fill('*'); os.precision(1); } if (k & 2) { os << std::internal << std::showpos << std::scientific << std::unitbuf; os.fill('0'); } if (k & 4) { os << std::right << std::skipws << std::oct; os.exceptions(std::ios::badbit | std::ios::failbit); }
            std::ios::fmtflags f = os.flags(); char fill = os.fill(); string have; try { std::ostream& r = k % 3 ? os << d : (d.print(os), os); have = &r == &os ? os.str() : "another stream"; } catch (const po::error&) { have = "error"; } catch (...) { have = "unexpected exception"; }
            if (have != "error" && have.compare(0, 7, "before ") == 0) have.erase(0, 7); R.transitions(1);
            if (have != want) { R.fail(key + " stream format " + mc::num(k), mc::q(want), mc::q(have)); break; } if (os.flags() != f || os.fill() != fill || os.width()) { R.fail(key + " stream format " + mc::num(k), "flags of the stream unchanged", "changed"); break; } out = mc::mix(out, mc::hstr(have)); }
        R.end(out); } });
    R.space("words", T ? "every sequence of 1..6 of 9 word lengths with 3 kinds of separators x 9 widths" : "every sequence of 1..5 of 7 word lengths with 4 kinds of separators x 5 widths");
    std::vector<int> wl = T ? std::vector<int>{ 1, 2, 4, 5, 6, 9, 10, 11, 21 } : std::vector<int>{ 1, 4, 5, 6, 10, 11, 21 }; Strs sep = S({" ", "  ", "\n", " \t"});
    for (size_t sp = 0; sp < sep.size(); ++sp) sequences(Strs(wl.size(), ""), 1, T ? 6 : 5, [&](const std::vector<int>& ix) {
        string s; char c = 'a'; for (size_t i = 0; i < ix.size(); ++i) { if (i) s += sp == 3 && i > 1 ? " " : sp == 2 && i % 2 ? " " : sep[sp]; for (int k = 0; k < wl[ix[i]]; ++k) s += c + (k % 5); c += 5; if (c > 'u') c = 'A'; }
        static const int av[] = { 10, 9, 11, 12, 20, 7, 22, 5, 31 }; for (int a = 0; a < (T ? 9 : 5); ++a) one(R, H("opt", "", s), av[a] + 10, av[a]); });
    R.space("every width", "a text of words, paragraphs and tabs at every line length 5..140 and 8 minimum description widths, 5 texts, 3 names");
    Strs tx; { string w; for (int i = 0; i < 60; ++i) w += (i ? " " : "") + text(1 + (i * 7) % 13); tx.push_back(w); tx.push_back("First paragraph here.\nSecond one, " + w.substr(0, 90) + "\n\n  Value1: \tdoes this and that, " + w.substr(0, 120) + "\n  Value2: \tdoes something else"); tx.push_back(text(200)); tx.push_back("short"); tx.push_back("   leading  double  spaces  and a trailing one \n" + w.substr(0, 100) + " "); }
    Strs nm = S({"help,h", "a-fairly-long-option-name-to-see", "x"});
    for (unsigned L = 5; L <= (T ? 300u : 140u); ++L) for (unsigned m = 2; m + 1 < L; m += m < 6 ? 1 : L / 7 + 1) for (size_t t = 0; t < tx.size(); ++t) for (size_t n = 0; n < nm.size(); ++n) one(R, H(nm[n], n == 2 ? "" : "arg", tx[t]), L, m);
    R.space("given width", "print with an explicit column 1..60 x line lengths x texts");
    for (unsigned w = 1; w <= 60; ++w) for (unsigned L = 62; L <= 100; L += 4) for (size_t t = 0; t < tx.size(); ++t) one(R, H("name,n", "v", tx[t]), L, 30, w);
    R.space("names", "names of every length 1..130 in 5 forms, parameters of 5 lengths, 3 layouts");
    for (int n = 1; n <= (T ? 300 : 130); ++n) for (int f = 0; f < 5; ++f) for (int p = 0; p < 5; ++p) for (int l = 0; l < 3; ++l) {
        string x = text(n + (f == 4)), nmx = f == 0 ? x + "z" : f == 1 ? x + ",s" : f == 2 ? x + ",alias" : f == 3 ? x + ",alias,other,q" : ",s";
        one(R, H(nmx, p == 0 ? "" : text(p * p * 3), "some description of it, long enough to wrap in a narrow place"), l == 0 ? 80 : l == 1 ? 50 : 120, l == 0 ? 40 : l == 1 ? 12 : 60); }
    R.space("parameters", "displayed parameters of default and implicit values of every kind, value names, flags");
    for (int k = 0; k < 64; ++k) {
        if (!R.begin()) continue;
        po::options_description d; string want; po::typed_value<string>* v = po::value<string>(); bool named = k & 1, def = k & 2, imp = k & 4, et = k & 8, zero = k & 16, conv = k & 32;
        if (named) v->value_name("NAME"); if (def) { if (conv) v->default_value("d"); else v->default_value("d", et ? "" : "dt"); } if (imp) { if (conv) v->implicit_value("i"); else v->implicit_value("i", et ? "" : "it"); } if (zero) v->zero_tokens();
        string n = named ? "NAME" : "arg", ds = def ? (conv ? "d" : et ? "" : "dt") : "", is = imp ? (conv ? "i" : et ? "" : "it") : "";
        string p = !is.empty() ? "[=" + n + "(=" + is + ")]" + (ds.empty() ? "" : " (=" + ds + ")") : !ds.empty() ? n + " (=" + ds + ")" : n; if (zero) p = "";
        d.add_options()("opt", v, "text"); HGroup g; HOpt o = H("opt", p, "text"); g.own.push_back(o); string have = printed(d); R.trace();
        if (have != help(g)) R.fail("parameter form " + mc::num(k), mc::q(help(g)), mc::q(have)); R.end(mc::hstr(have));
    }
    R.space("bytes", "every byte at 4 places of a wrapped description, in names and in captions");
    for (int b = 1; b < 256; ++b) for (int p = 0; p < 60; p += (T ? 1 : 5)) { string s = tx[0].substr(0, 100); s.insert(p, 1, char(b)); one(R, H("name", "", s), 50, 25); s[p + 3] = char(b); one(R, H("name", "", s), 40, 16); if (b != ',') one(R, H(string("n") + char(b) + "m", b == 'x' ? "p" : string(1, char(b)), "d"), 80, 40); }
    R.space("lengths", "descriptions of one word, of one letter words and of mixed words at every length 0..400, 4 layouts; paragraphs in numbers up to 130");
    for (int n = 0; n <= (T ? 1500 : 400); ++n) for (int l = 0; l < 4; ++l) { unsigned L = l == 0 ? 80 : l == 1 ? 30 : l == 2 ? 45 : 121, m = l == 0 ? 40 : l == 1 ? 8 : l == 2 ? 30 : 17; one(R, H("opt,o", "arg", text(n)), L, m); string s; for (int i = 0; i < n; ++i) s += i % 2 ? ' ' : char('a' + i % 26); one(R, H("opt,o", "arg", s), L, m); s.clear(); while ((int)s.size() < n) s += (s.empty() ? "" : " ") + text(1 + (s.size() * 11) % 17); one(R, H("opt,o", "arg", s.substr(0, n)), L, m); s = "ab: \t" + s; one(R, H("o", "", s), L, m); if (n <= 130) { s.clear(); for (int i = 0; i < n; ++i) s += "line " + mc::num(i) + (i % 3 ? "\n" : "\n\n"); one(R, H("o", "", s), L, m); } }
    R.space("every printable byte in short descriptions", T ? "descriptions of length 1..7 over one printable byte, a letter and a blank x widths 2..8" : "descriptions of length 1..6 over one printable byte, a letter and a blank x widths 2..7");
    for (int b = 33; b < 127; ++b) { if (b == 'a') continue; string al = "a "; al += char(b); texts(al.c_str(), 1, T ? 7 : 6, [&](const string& s) { if (s.find(char(b)) == string::npos) return; for (unsigned a = 2; a <= (T ? 8u : 7u); ++a) one(R, H("x", "", s), a + 3, a); }); }
    R.space("lines filled exactly", "every printable byte first or last in a word, or alone, in lines of exactly the width and one less or more, 4 widths, 1..3 lines, with and without a break or tab after it");
    for (int b = 33; b < 127; ++b) for (unsigned w = 9; w <= 36; w += 9) for (int dl = -1; dl <= 1; ++dl) for (int pl = 0; pl < 4; ++pl) for (int e = 0; e < 5; ++e) for (int k = 1; k <= 3; ++k) {
        string line = pl < 2 ? text(w + dl) : text(w / 2) + " " + text(w - w / 2 + dl - 1), s; if (pl % 2 == 0) line[0] = char(b); else line[line.size() - 1] = char(b); if (pl == 3) line[w / 2 + 1] = char(b);
        for (int i = 0; i < k; ++i) s += line + (e == 1 ? "\n" : e == 2 ? " " : e == 3 ? " \n" : e == 4 ? "\n\n" : i + 1 < k ? "\n" : ""); one(R, H("opt", "", s), 30 + w, w); if (b % 8 == 5) one(R, H("opt", "", "x: \t" + s), 30 + w, w); }
    R.space("wide layouts", "a short and a long named option, line lengths around powers of two from 128 to 65536, column widths and padding around the same sizes");
    {
        std::vector<unsigned> Ls; for (unsigned b = 128; b <= 65536; b *= 2) for (int k = -1; k <= 3; k += 1) Ls.push_back(b + k); Ls.push_back(200); Ls.push_back(400); Ls.push_back(100000);
        static const unsigned tail[] = {2, 3, 20, 40, 126, 128, 254, 255, 256, 257, 260, 300, 511, 513};
        for (size_t l = 0; l < Ls.size(); ++l) for (size_t t = 0; t < sizeof tail / sizeof *tail; ++t) for (int k = 0; k < 12; ++k) {
            unsigned L = Ls[l], m = tail[t]; if (m + 1 >= L || (L > 5000 && t % 3)) continue; static const int nl[12] = {0, 20, 100, 121, 122, 123, 245, 249, 250, 251, 300, 507};
            HGroup g("", L, m); g.own.push_back(H(text(nl[k] + 1) + "z", "", "long one: " + tx[0].substr(0, 300))); g.own.push_back(H("b", "", "short one")); g.own.push_back(H("c,d", "arg", tx[1]));
            group(R, g, [&](po::options_description& d) { for (size_t i = 0; i < g.own.size(); ++i) declareH(d, g.own[i]); }, "line length " + mc::num(L) + " minimum description " + mc::num(m) + " first name of " + mc::num(nl[k] + 2) + " characters");
        }
    }
    R.space("several options", "every sequence of 1..4 (thorough 5) of 6 options in one group, with and without caption; long lists up to 200");
    std::vector<HOpt> al; al.push_back(H("help,h", "", "produce help")); al.push_back(H("a-long-option-name-that-widens-the-column", "value", "its description is long enough to be wrapped over two lines here")); al.push_back(H(",v", "", "")); al.push_back(H("opt", "arg", "two\nparagraphs")); al.push_back(H("name,alias", "N", "  x: \ttabbed text that is wrapped with a hanging indent")); al.push_back(H("extremely-long-option-name-that-does-not-fit-into-the-column-at-all-whatever", "parameter", "d"));
    sequences(Strs(al.size(), ""), 1, T ? 5 : 4, [&](const std::vector<int>& ix) { for (int c = 0; c < 2; ++c) { HGroup g(c ? "Caption" : "", 80, c ? 30 : 40); for (size_t i = 0; i < ix.size(); ++i) g.own.push_back(al[ix[i]]); group(R, g, [&](po::options_description& d) { for (size_t i = 0; i < ix.size(); ++i) declareH(d, al[ix[i]]); }, "options " + mc::num(ix.size()) + " of the list, indices as enumerated, caption " + mc::num(c)); } });
    for (int n = 1; n <= 200; ++n) { HGroup g("Many", 80, 40); for (int i = 0; i < n; ++i) g.own.push_back(H("option-" + mc::num(i) + (i == n / 2 ? "-which-is-longer" : ""), i % 3 ? "" : "arg", "description number " + mc::num(i))); group(R, g, [&](po::options_description& d) { for (size_t i = 0; i < g.own.size(); ++i) declareH(d, g.own[i]); }, mc::num(n) + " options"); }
}
#endif

#if PROP == 21
const char* mc::property = "C21";
// ---- model of description objects
struct Tree; typedef std::vector<Tree> Trees;
struct Item2 { string names, param, desc; };
struct Tree { string caption; std::vector<HOpt> own; std::vector<std::pair<HOpt, bool> > all; Trees sub; };   // all: every option in order of addition, from a group or not
static HGroup toH(const Tree& t) { HGroup g(t.caption); g.own = t.own; for (size_t i = 0; i < t.sub.size(); ++i) g.sub.push_back(toH(t.sub[i])); return g; }
static void addOpt(Tree& t, const HOpt& o) { t.own.push_back(o); t.all.push_back(std::make_pair(o, false)); }
static void addGroup(Tree& t, const Tree& s) { Tree c = s; t.sub.push_back(c); for (size_t i = 0; i < c.all.size(); ++i) t.all.push_back(std::make_pair(c.all[i].first, true)); }
static string listed(const po::options_description& d) { string s; for (size_t i = 0; i < d.options().size(); ++i) s += d.options()[i]->format_name() + " " + d.options()[i]->format_parameter() + " " + d.options()[i]->description() + ";"; return s; }
static string listed(const Tree& t) { string s; for (size_t i = 0; i < t.all.size(); ++i) { const HOpt& o = t.all[i].first; s += displayed(o).substr(2) + " " + o.desc + ";"; } return s; }
static string lookups(const po::options_description& d, const Strs& names)
{
    string s; for (size_t i = 0; i < names.size(); ++i) for (int f = 0; f < 2; ++f) { try { const po::option_description* o = d.find_nothrow(names[i], f); s += o ? o->format_name() + "|" : "-|"; } catch (const po::ambiguous_option& e) { Strs a = e.alternatives(); std::sort(a.begin(), a.end()); s += "?" + mc::q(a) + "|"; } } return s;
}
static string uses(const po::options_description& d, const std::vector<Strs>& lines, const Strs& cfgs)
{
    string s;
    for (size_t i = 0; i < lines.size(); ++i) for (int u = 0; u < 2; ++u) {
        try { po::command_line_parser p(lines[i]); p.options(d); if (u) p.allow_unregistered(); po::parsed_options r = p.run(); s += toRes(r).str(); po::variables_map m; po::store(r, m); po::notify(m); for (po::variables_map::iterator k = m.begin(); k != m.end(); ++k) s += k->first + (k->second.defaulted() ? "~" : "=") + (k->second.value().type() == typeid(string) ? k->second.as<string>() : "?") + ","; }
        catch (...) { s += current().str(); }
    }
    for (size_t i = 0; i < cfgs.size(); ++i) { std::istringstream is(cfgs[i]); try { po::parsed_options r = po::parse_config_file(is, d, i & 1); s += toRes(r).str(); po::variables_map m; po::store(r, m); for (po::variables_map::iterator k = m.begin(); k != m.end(); ++k) s += k->first + ","; } catch (...) { s += current().str(); } }
    return s;
}
static void declareAll(po::options_description& d, const Tree& t) { for (size_t i = 0; i < t.all.size(); ++i) declareH(d, t.all[i].first); }
// all three views of one object against the model
static void verify(Run& R, const po::options_description& d, const Tree& t, const string& key, const Strs& names, const std::vector<Strs>& lines, const Strs& cfgs)
{
    string w = listed(t), h = listed(d); if (w != h) R.fail(key, "options " + w, h, "options"); R.trace();
    string hw = help(toH(t)), hh = printed(d); if (hw != hh) R.fail(key, mc::q(hw), mc::q(hh), "help"); R.trace();
    po::options_description flat(t.caption); declareAll(flat, t);
    string lw = lookups(flat, names), lh = lookups(d, names); if (lw != lh) R.fail(key, "as declared directly: " + lw, lh, "lookup"); R.trace();
    if (!lines.empty()) { string uw = uses(flat, lines, cfgs), uh = uses(d, lines, cfgs); if (uw != uh) R.fail(key, "as declared directly: " + uw, uh, "parse and store"); R.trace(); }
    // every option is shown exactly once
    size_t shown = 0; for (size_t p = 0; (p = hh.find("\n  -", p)) != string::npos; ++p) ++shown; if (hh.compare(0, 3, "  -") == 0) ++shown;
    if (shown != t.all.size()) R.fail(key, mc::num(t.all.size()) + " options shown", mc::num(shown), "help");
}
static HOpt O(int i)
{
    static const char* n[] = { "alpha,a", "alpine", "beta,b", "be", "gamma,other", ",z", "al", "Beta" }; HOpt o;
    if (i < 8) o.names = n[i]; else o.names = "opt" + mc::num(i); o.param = i % 2 ? "" : "v" + mc::num(i); o.desc = "text " + mc::num(i); return o;
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs names = S({"alpha", "al", "alp", "be", "b", "beta", "-a", "-b", "-z", "gamma", "other", "o", "opt", "", "Beta", "opt9"});
    std::vector<Strs> lines; lines.push_back(S({"--alpha=1", "--beta", "2", "-z"})); lines.push_back(S({"--al", "-b3", "--be"})); lines.push_back(S({"-a", "x", "--gamma=1", "--unknown", "pos"})); lines.push_back(S({"--other=2", "--alph=3", "--opt8=1"})); lines.push_back(S({"-zab"}));
    Strs cfgs = S({"alpha=1\nbeta=2\n", "gamma=3\nunknown=4\n", "alpine=1\n", "al=1\nBeta=2\n[s]\nx=1\n"});
    // 1. every nesting of a list of options
    R.space("nestings", T ? "every ordered tree over 0..6 options (each position own, or opening/closing groups up to depth 3), with and without captions" : "every ordered tree over 0..5 options (each position own, or opening/closing groups up to depth 3), with and without captions");
    // word over: o = option, ( = open group, ) = close group (added to the parent when closed)
    std::function<void(string, int, int, int)> gen;
    auto build = [&](const string& w) {
        for (int rot = 0; rot < (T ? 6 : 3); ++rot) { if (!R.begin()) continue;
            std::vector<std::shared_ptr<po::options_description> > ds; Trees ts; int next = rot, ng = 0; string cap = rot % 2 ? "Top" : "";
            ds.push_back(std::make_shared<po::options_description>(cap)); ts.push_back(Tree()); ts[0].caption = cap;
            for (size_t i = 0; i < w.size(); ++i) {
                if (w[i] == 'o') { HOpt o = O(next++ % 8); declareH(*ds.back(), o); addOpt(ts.back(), o); }
                else if (w[i] == '(') { string c = ++ng % 3 ? "Group " + mc::num(ng) : ""; ds.push_back(std::make_shared<po::options_description>(c)); ts.push_back(Tree()); ts.back().caption = c; }
                else { Tree s = ts.back(); std::shared_ptr<po::options_description> d = ds.back(); ts.pop_back(); ds.pop_back(); ds.back()->add(*d); addGroup(ts.back(), s); }
            }
            string key = "nesting " + w + " from option " + mc::num(rot); R.state(mc::hstr(key)); R.transitions(w.size());
            verify(R, *ds[0], ts[0], key, names, lines, cfgs); if (R.want_sample()) R.sample(key + " -> " + mc::q(printed(*ds[0]))); R.end(mc::hstr(printed(*ds[0]))); }
    };
    int maxo = T ? 6 : 5, maxg = 3;
    gen = [&](string w, int o, int g, int depth) { if (depth == 0) build(w); if (o < maxo) gen(w + "o", o + 1, g, depth); if (g < maxg && depth < 3) gen(w + "(", o, g + 1, depth + 1); if (depth) gen(w + ")", o, g, depth - 1); };
    gen("", 0, 0, 0);
    // 2. every history of operations on three objects
    R.space("histories", T ? "every history of 1..6 operations (add an option, add one object to another, itself included, copy an object) on 3 objects" : "every history of 1..5 operations (add an option, add one object to another, itself included, copy an object) on 3 objects");
    Strs ops; for (int i = 0; i < 3; ++i) ops.push_back("o" + mc::num(i)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { ops.push_back("g" + mc::num(i) + mc::num(j)); if (i != j && i < 2) ops.push_back("c" + mc::num(i) + mc::num(j)); }
    int depth = T ? 6 : 5;
    sequences(ops, 1, depth, [&](const std::vector<int>& ix) {
        // prune histories that only rename objects: the first operation is on object 0
        if (ops[ix[0]] != "o0") return;
        if (!R.begin()) return;
        std::shared_ptr<po::options_description> d[3]; Tree t[3]; static const char* cap[3] = { "", "Second", "Third" }; int next = 0; string key = "history"; u64 h = 0;
        for (int i = 0; i < 3; ++i) { d[i] = std::make_shared<po::options_description>(cap[i]); t[i].caption = cap[i]; }
        for (size_t i = 0; i < ix.size(); ++i) {
            const string& op = ops[ix[i]]; int a = op[1] - '0', b = op.size() > 2 ? op[2] - '0' : 0; key += " " + op; R.transitions(1);
            if (op[0] == 'o') { HOpt o = O(next++ % 8); declareH(*d[a], o); addOpt(t[a], o); }
            else if (op[0] == 'g') { d[a]->add(*d[b]); Tree s = t[b]; addGroup(t[a], s); }
            else { d[b] = std::make_shared<po::options_description>(*d[a]); t[b] = t[a]; }
            h = mc::mix(h, mc::hstr(op)); R.state(h);
        }
        bool deep = ix.size() <= 3 || R.index() % 16 == 0;
        for (int i = 0; i < 3; ++i) { verify(R, *d[i], t[i], key + " object " + mc::num(i), names, deep ? lines : std::vector<Strs>(), cfgs); }
        R.end(mc::mix(mc::hstr(printed(*d[0])), mc::hstr(printed(*d[1]))));
    });
    // 3. size
    R.space("sizes", "groups in numbers 0..70, nesting depths 0..40, group sizes 0..130 with every one before, between and after own options");
    for (int n = 0; n <= 130; ++n) for (int k = 0; k < 3; ++k) {
        if (k < 2 && n > (k ? 40 : 70)) continue;
        if (!R.begin()) continue;
        std::vector<std::shared_ptr<po::options_description> > keep; Tree t; po::options_description d("Top"); t.caption = "Top"; int id = 8;
        declareH(d, O(0)); addOpt(t, O(0));
        if (k == 0) for (int i = 0; i < n; ++i) { po::options_description g("G" + mc::num(i)); Tree s; s.caption = "G" + mc::num(i); for (int j = 0; j < i % 3; ++j) { HOpt o = O(id++); declareH(g, o); addOpt(s, o); } d.add(g); addGroup(t, s); if (i % 5 == 4) { HOpt o = O(id++); declareH(d, o); addOpt(t, o); } }
        else if (k == 1) { std::shared_ptr<po::options_description> in(new po::options_description("leaf")); Tree s; s.caption = "leaf"; HOpt o = O(id++); declareH(*in, o); addOpt(s, o); for (int i = 0; i < n; ++i) { std::shared_ptr<po::options_description> out(new po::options_description("L" + mc::num(i))); Tree u; u.caption = "L" + mc::num(i); HOpt p = O(id++); if (i & 1) { declareH(*out, p); addOpt(u, p); } out->add(*in); addGroup(u, s); if (!(i & 1)) { declareH(*out, p); addOpt(u, p); } in = out; s = u; } d.add(*in); addGroup(t, s); }
        else { po::options_description g("Big"); Tree s; s.caption = "Big"; for (int i = 0; i < n; ++i) { HOpt o = O(id++); declareH(g, o); addOpt(s, o); } d.add(g); addGroup(t, s); declareH(g, O(1)); }
        declareH(d, O(2)); addOpt(t, O(2));
        Strs nm = names; for (int i = 8; i < id; i += 7) nm.push_back("opt" + mc::num(i)); R.state(mc::mix(n, k)); R.transitions(1);
        verify(R, d, t, "size " + mc::num(n) + " form " + mc::num(k), nm, lines, cfgs); R.end(mc::hstr(printed(d)));
    }
}
#endif
