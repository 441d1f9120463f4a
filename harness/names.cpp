// Name resolution (C02) and declared names (C27).
#include "cmdspaces.hpp"
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }

static string show(int r, const std::vector<Opt>& os, Strs alts)
{
    if (r == NONE) return "none";
    if (r == AMBIG) { std::sort(alts.begin(), alts.end()); return "ambiguous " + mc::q(alts); }
    return "option #" + mc::num(r) + " " + os[r].decl();
}
static string ask(const po::options_description& d, const std::vector<Opt>& os, const string& name, bool ap, bool l, bool s)
{
    try {
        const po::option_description* o = d.find_nothrow(name, ap, l, s);
        if (!o) return "none";
        for (size_t i = 0; i < d.options().size(); ++i) if (d.options()[i].get() == o) return "option #" + mc::num(i) + " " + os[i].decl();
        return "an option that was not declared";
    } catch (const po::ambiguous_option& e) { Strs a = e.alternatives(); std::sort(a.begin(), a.end()); return "ambiguous " + mc::q(a); }
    catch (...) { return "error " + current().kind; }
}
static string askThrow(const po::options_description& d, const std::vector<Opt>& os, const string& name, bool ap, bool l, bool s)
{
    try {
        const po::option_description& o = d.find(name, ap, l, s);
        for (size_t i = 0; i < d.options().size(); ++i) if (d.options()[i].get() == &o) return "option #" + mc::num(i) + " " + os[i].decl();
        return "an option that was not declared";
    } catch (const po::unknown_option&) { return "none"; }
    catch (const po::ambiguous_option& e) { Strs a = e.alternatives(); std::sort(a.begin(), a.end()); return "ambiguous " + mc::q(a); }
    catch (...) { return "error " + current().kind; }
}

struct Set { std::vector<Opt> os; po::options_description d; u64 h; string txt;
    explicit Set(const Strs& decls, int nest = 0) {
        Gram g; for (size_t i = 0; i < decls.size(); ++i) g.o(decls[i], "flag");
        os = g.opts; txt = g.str(); h = mc::hstr(txt);
        if (!nest) declare(os, d);
        else { po::options_description a, b; std::vector<Opt> x(os.begin(), os.begin() + os.size() / 2), y(os.begin() + os.size() / 2, os.end()); declare(x, a); declare(y, b); d.add(a).add(b); }
    } };
static void look(Run& R, const Set& s, const string& name, int fl)
{
    if (!R.begin()) return;
    bool ap = fl & 1, l = fl & 2, sh = fl & 4; Strs alts;
    int r = resolve(s.os, name, ap, l, sh, &alts); string w = show(r, s.os, alts), h = ask(s.d, s.os, name, ap, l, sh), h2 = askThrow(s.d, s.os, name, ap, l, sh);
    R.trace(); R.transitions(2); R.state(mc::mix(s.h, mc::mix(mc::hstr(name), fl)));
    if (w != h || w != h2) R.fail(s.txt + " find " + mc::q(name) + " approx=" + mc::num(ap) + " long_ci=" + mc::num(l) + " short_ci=" + mc::num(sh), w, h + " / " + h2);
    if (R.want_sample()) R.sample(s.txt + " find " + mc::q(name) + " flags=" + mc::num(fl) + " -> " + h);
    R.end(mc::hstr(h));
}

#if PROP == 2
const char* mc::property = "C02";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs pool = S({"a", "ab", "abc", "Ab", "AB", "b", "ab,x", "a*", "ab*", "*", "abc,ab", ",a", "abc,a", "b,A", "aB,b", ",A", "A*", "Abc,X", "ba,abb,a", "ac"});
    Strs look1; sequences(S({"a", "b", "c", "A", "B", "x", "*"}), 0, 3, [&](const std::vector<int>& ix) { string s; for (size_t i = 0; i < ix.size(); ++i) s += S({"a", "b", "c", "A", "B", "x", "*"})[ix[i]]; look1.push_back(s); });
    Strs sh = S({"-a", "-A", "-b", "-x", "-X", "-c", "-", "-ab", "--ab", "abcd", "abb", "abbc", "-*"}); look1.insert(look1.end(), sh.begin(), sh.end());
    // names of interest only, for the bigger products
    Strs look2 = S({"", "a", "A", "ab", "AB", "aB", "Ab", "abc", "ABC", "abcd", "b", "B", "ba", "abb", "ac", "x", "*", "a*", "ab*", "-a", "-A", "-b", "-B", "-x", "-X", "-", "c"});
    R.space("sets of 1..2 options", "every ordered pair from 20 declarations, every name of length 0..3 over 7 letters plus 13 dashed and longer names, all 8 flag combinations");
    for (size_t i = 0; i < pool.size(); ++i) for (int j = -1; j < (int)pool.size(); ++j) { Strs d(1, pool[i]); if (j >= 0) d.push_back(pool[j]); Set s(d); for (size_t n = 0; n < look1.size(); ++n) for (int f = 0; f < 8; ++f) look(R, s, look1[n], f); }
    R.space("sets of 3 options", "every ordered triple from 20 declarations, 27 names, all 8 flag combinations");
    for (size_t i = 0; i < pool.size(); ++i) for (size_t j = 0; j < pool.size(); ++j) for (size_t k = 0; k < pool.size(); ++k) { Set s(Strs{pool[i], pool[j], pool[k]}); for (size_t n = 0; n < look2.size(); ++n) for (int f = 0; f < 8; ++f) look(R, s, look2[n], f); }
    Strs p4 = S({"a", "ab", "abc,a", "Ab", "ab*", "*", ",a", "b,A", "ab,x"});
    R.space("sets of 4 options", T ? "every ordered choice of 4 from 20 declarations, 27 names, all flags" : "every ordered choice of 4 from 9 declarations, 27 names, all flags");
    const Strs& q4 = T ? pool : p4;
    for (size_t i = 0; i < q4.size(); ++i) for (size_t j = 0; j < q4.size(); ++j) for (size_t k = 0; k < q4.size(); ++k) for (size_t l = 0; l < q4.size(); ++l) { Set s(Strs{q4[i], q4[j], q4[k], q4[l]}); for (size_t n = 0; n < look2.size(); n += 1) for (int f = 0; f < 8; ++f) look(R, s, look2[n], f); }
    R.space("options with several names", T ? "every declaration of 2..4 names from 7 stems alone, before and after each of 8 others, 34 names, all flags" : "every declaration of 2..4 names from 6 stems alone, before and after each of 4 others, 30 names, all flags");
    { Strs st6 = S({"co", "col", "colo", "tin", "Co", "co*"}); if (T) st6.push_back("t"); Strs oth = S({"coa", "tint", "co", "x,c"}); if (T) { Strs m = S({"c*", "col", "CO", "t"}); oth.insert(oth.end(), m.begin(), m.end()); }
      Strs nm = S({"", "c", "co", "col", "colo", "color", "cola", "co*", "t", "ti", "tin", "tint", "tints", "C", "Co", "CO", "Col", "COL", "COLO", "COLOR", "T", "TIN", "TINT", "x", "-c", "-C", "coa", "coax", "tinc", "*"});
      sequences(st6, 2, 4, [&](const std::vector<int>& ix) { string d; for (size_t i = 0; i < ix.size(); ++i) d += (i ? "," : "") + st6[ix[i]]; for (int o = -1; o < 2 * (int)oth.size(); ++o) { Strs v(1, d); if (o >= 0) v.insert(o % 2 ? v.begin() : v.end(), oth[o / 2]); Set s(v); for (size_t n = 0; n < nm.size(); ++n) for (int f = 0; f < 8; ++f) { if (ix.size() == 4 && !T && (f & 4)) continue; look(R, s, nm[n], f); } } }); }
    R.space("lengths", "names sharing a stem of length 1..200 (every to 70, boundary sizes beyond): exact, every shorter name, one longer, each case, wildcard on the stem; declared before or after, nested or flat");
    { std::vector<int> L = range(1, 70), b = sizes(T ? 1100 : 300); L.insert(L.end(), b.begin(), b.end());
      for (size_t i = 0; i < L.size(); ++i) { if (!L[i]) continue; string st_ = text(L[i]), up = st_; for (size_t k = 0; k < up.size(); ++k) up[k] = (char)toupper(up[k]);
        Strs decl[6] = {{st_, st_ + "x"}, {st_ + "x", st_}, {st_ + "*", st_ + "x"}, {st_ + "x", st_ + "y", st_ + "z"}, {up, st_}, {"q," + st_ + ",r," + st_ + "x,z", st_ + "xy"}};
        for (int v = 0; v < 6; ++v) for (int nest = 0; nest < 2; ++nest) { Set s(decl[v], nest);
            Strs nm = {st_, st_ + "x", st_ + "xy", st_ + "q", up, up + "X", st_ + "y"}; for (int c = 0; c < L[i]; ++c) if (L[i] <= 40 || c < 3 || c > L[i] - 4 || c % 16 == 0) { nm.push_back(st_.substr(0, c)); nm.push_back(up.substr(0, c)); }
            for (size_t n = 0; n < nm.size(); ++n) for (int f = 0; f < 8; ++f) look(R, s, nm[n], f); } } }
    R.space("many options", "1..120 options (every size), each looked up exactly, abbreviated and in other case; duplicates and shared stems at every place");
    for (int n = 1; n <= (T ? 300 : 120); ++n) for (int v = 0; v < 3; ++v) {
        if (n > 40 && !T && n % 8 > 1) continue;
        Strs d; for (int i = 0; i < n; ++i) d.push_back(v == 0 ? "n" + mc::num(i) + "x" : v == 1 ? "Stem" + mc::num(i) + ",alias" + mc::num(i) : "k" + mc::num(i % 13) + "v" + mc::num(i / 13));
        Set s(d, n % 2);
        for (int i = 0; i < n; ++i) { string nm = s.os[i].longs[0], lo = lower(nm); string up = nm; for (size_t k = 0; k < up.size(); ++k) up[k] = (char)toupper(up[k]);
            Strs a = {nm, nm.substr(0, nm.size() - 1), up, s.os[i].longs.back(), nm + "0"}; for (size_t k = 0; k < a.size(); ++k) for (int f = 0; f < 4; ++f) look(R, s, a[k], f); }
        for (int f = 0; f < 8; ++f) { look(R, s, "nope", f); look(R, s, "", f); look(R, s, "S", f); look(R, s, "k1", f); look(R, s, "n1", f); }
    }
    R.space("how many match", "2..40 options tied at the same name (duplicate names, common abbreviation, wildcards, shared alias, shared letter), among 0..3 unrelated ones");
    for (int n = 2; n <= 40; ++n) for (int v = 0; v < 5; ++v) for (int un = 0; un < 4; ++un) {
        Strs d; for (int i = 0; i < n; ++i) d.push_back(v == 0 ? "same" : v == 1 ? "same" + mc::num(i) : v == 2 ? string("same").substr(0, i % 5) + "*" : v == 3 ? "u" + mc::num(i) + ",same" : "u" + mc::num(i) + ",s");
        for (int i = 0; i < un; ++i) d.insert(d.begin() + (i * 7) % d.size(), "other" + mc::num(i));
        Set s(d); Strs nm = S({"same", "sam", "samey", "SAME", "-s", "-S", "s"}); for (size_t k = 0; k < nm.size(); ++k) for (int f = 0; f < 8; ++f) look(R, s, nm[k], f);
    }
    R.space("names of stored options", "every ordered pair from 20 declarations, 27 names as key of an option that no command line parser has seen (as an environment or a hand-made result gives them), marked as of either case or not, with and without a source prefix: stored under that name exactly if the name is one declared option");
    for (size_t i = 0; i < pool.size(); ++i) for (int j = -1; j < (int)pool.size(); ++j) { Strs dl(1, pool[i]); if (j >= 0) dl.push_back(pool[j]); Set s(dl); for (size_t n = 0; n < look2.size(); ++n) for (int f = 0; f < 4; ++f) {
        const string& nm = look2[n]; if (nm.empty()) continue; if (!R.begin()) continue;
        Strs alts; int r = resolve(s.os, nm, false, false, false, &alts); string w = r == NONE ? "unknown" : r == AMBIG ? "ambiguous" : "stored", h;
        po::parsed_options q(&s.d, f & 1 ? st::allow_long : 0); po::option o(nm, Strs()); o.case_insensitive = f & 2; q.options.push_back(o); po::variables_map vm;
        try { po::store(q, vm); h = vm.count(nm) == 1 && vm.size() == 1 ? "stored" : "size " + mc::num(vm.size()); } catch (...) { h = current().kind; }
        R.trace(); R.transitions(1); R.state(mc::mix(s.h, mc::mix(mc::hstr(nm), 100 + f))); if (w != h) R.fail(s.txt + " store of " + mc::q(nm) + (f & 2 ? " either case" : "") + (f & 1 ? " prefix --" : ""), w, h); R.end(mc::hstr(h + nm));
    } }
    R.space("letters", "every printable character as letter of a long name and as short name, looked up in its own and the other case, both flags");
    for (int c = 33; c < 256; ++c) { if (c == ',') continue; string C(1, char(c)), U(1, (c < 127) ? char(isupper(c) ? tolower(c) : toupper(c)) : char(c));
        Set s(Strs{"l" + C + "m", "zz," + C, "wild" + C + "*"}); Strs nm = {"l" + C + "m", "l" + U + "m", "L" + C + "M", "l" + C, "l" + U, "-" + C, "-" + U, C, U, "wild" + C + "x", "wild" + U + "x", "WILD" + C}; for (size_t k = 0; k < nm.size(); ++k) for (int f = 0; f < 8; ++f) look(R, s, nm[k], f); }
    R.space("long names while parsing", "names of boundary sizes to 2100 (thorough 4200) that differ in the last character, or of which one extends the other, and a wildcard on the stem: each spelled in full, less one and plus one character, 4 styles");
    { std::vector<int> L = sizes(T ? 4200 : 2100); int ss[4] = {0, (int)st::unix_style & ~st::allow_guessing, (int)st::unix_style | st::allow_long_disguise | st::long_case_insensitive, st::allow_long | st::long_allow_adjacent | st::long_allow_next};
      for (size_t i = 1; i < L.size(); ++i) { string b = text(L[i]); Strs decl[4] = {{b + "x", b + "y"}, {b, b + "x"}, {b + "*", "q," + b + "y"}, {b + "xx"}};
        for (int v = 0; v < 4; ++v) for (int k = 0; k < 4; ++k) { Gram g; g.style = ss[k]; for (size_t j = 0; j < decl[v].size(); ++j) g.o(decl[v][j], "impl"); Real real(g); Strs nm = {b, b + "x", b + "y", b + "xx", b + "z", b.substr(0, b.size() - 1)}; for (size_t n = 0; n < nm.size(); ++n) { if (R.begin()) step(R, real, Strs(1, "--" + nm[n]), Extra()); if (R.begin()) step(R, real, Strs{"--" + nm[n] + "=v", "-" + nm[n] + "=w"}, Extra()); } } } }
    R.space("resolution while parsing", "every ordered pair of 12 declarations parsed with each of 14 option tokens, 16 styles");
    { Strs p2 = S({"a", "ab", "abc", "Ab", "ab,x", "abc,ab", ",a", "b,A", "abb,a", "ac", "ab*", "abc,y"}); Strs tok = S({"--a", "--ab", "--abc", "--AB", "--Ab", "--abx", "-a", "-A", "-x", "-X", "--b", "--ac", "--abb", "-y"});
      std::vector<int> ss; for (int m = 0; m < 16; ++m) ss.push_back(((int)st::unix_style & ~st::allow_guessing) | (m & 1 ? st::allow_guessing : 0) | (m & 2 ? st::long_case_insensitive : 0) | (m & 4 ? st::short_case_insensitive : 0) | (m & 8 ? st::allow_long_disguise : 0));
      for (size_t i = 0; i < p2.size(); ++i) for (size_t j = 0; j < p2.size(); ++j) for (size_t k = 0; k < p2.size(); ++k) { if (!T && (i + j + k) % 3) continue; for (size_t y = 0; y < ss.size(); ++y) { Gram g; g.style = ss[y]; g.o(p2[i], "flag").o(p2[j], "flag").o(p2[k], "flag"); Real real(g); for (size_t t = 0; t < tok.size(); ++t) { if (!R.begin()) continue; step(R, real, Strs(1, tok[t]), Extra()); } } } }
}
#endif

#if PROP == 27
const char* mc::property = "C27";
static string canonicalName(const Opt& o, int p)
{
    if (!o.longs.empty()) { if (p == st::allow_long) return "--" + o.longs[0]; if (p == st::allow_long_disguise) return "-" + o.longs[0]; }
    if (o.shrt) { if (p == st::allow_slash_for_short) return string("/") + o.shrt; if (p == st::allow_dash_for_short) return string("-") + o.shrt; }
    return o.longs.empty() ? string("-") + o.shrt : o.longs[0];
}
static void one(Run& R, const string& decl, const Strs& probes)
{
    if (!R.begin()) return;
    // reference reading of the declaration
    Opt o = opt(decl, "str");
    std::ostringstream w, h;
    w << "long=" << (o.longs.empty() ? "" : o.longs[0]) << " all=" << mc::q(o.longs) << " fmt=" << (o.shrt ? string("-") + o.shrt + (o.longs.empty() ? "" : " [ --" + o.longs[0] + " ]") : "--" + o.longs[0]);
    int P[5] = {0, st::allow_long, st::allow_long_disguise, st::allow_dash_for_short, st::allow_slash_for_short};
    for (int i = 0; i < 5; ++i) w << " c" << i << "=" << canonicalName(o, P[i]);
    std::vector<Opt> os(1, o);
    for (size_t i = 0; i < probes.size(); ++i) { w << " " << (resolve(os, probes[i], false, false, false) == 0 ? "+" : "-"); w << keyOf(o, probes[i]); }
    w << " par=arg desc=text";
    try {
        po::options_description d; d.add_options()(decl.c_str(), po::value<string>(), "text"); const po::option_description& x = *d.options()[0];
        std::pair<const string*, size_t> ln = x.long_names(); Strs all(ln.first, ln.first + ln.second);
        h << "long=" << x.long_name() << " all=" << mc::q(all) << " fmt=" << x.format_name();
        for (int i = 0; i < 5; ++i) h << " c" << i << "=" << x.canonical_display_name(P[i]);
        for (size_t i = 0; i < probes.size(); ++i) { h << " " << (d.find_nothrow(probes[i], false) ? "+" : "-"); h << x.key(probes[i]); }
        h << " par=" << x.format_parameter() << " desc=" << x.description();
    } catch (...) { h << "error " << current().str(); }
    R.trace(); R.transitions(1 + probes.size()); R.state(mc::hstr(decl));
    if (w.str() != h.str()) R.fail("declaration " + mc::q(decl), w.str(), h.str());
    if (R.want_sample()) R.sample("declaration " + mc::q(decl) + " -> " + h.str());
    R.end(mc::hstr(h.str()));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs probes = S({"a", "b", "ab", "ba", "aa", "abb", "-a", "-b", "-*", "a*", "aab", "*", "bb"});
    Strs al = S({"a", "b", ",", "*", "-"});
    R.space("all short declarations", T ? "every string of length 1..8 over {a,b,comma,*,-} that declares a name" : "every string of length 1..7 over {a,b,comma,*,-} that declares a name");
    sequences(al, 1, T ? 8 : 7, [&](const std::vector<int>& ix) {
        string s; for (size_t i = 0; i < ix.size(); ++i) s += al[ix[i]];
        // outside the documented form: empty names other than the leading one of ",c"
        if (s[s.size() - 1] == ',' || s.find(",,") != string::npos || (s[0] == ',' && s.size() != 2)) return;
        one(R, s, probes);
    });
    R.space("lengths", "1..6 names of lengths 1..70 each, with and without short letter");
    for (int n = 1; n <= 6; ++n) for (int L = 2; L <= 70; ++L) for (int sh = 0; sh < 3; ++sh) {
        string d; Strs pr; for (int i = 0; i < n; ++i) { string nm = text(L + (i * 3) % 5) + mc::num(i); if (i) d += ","; d += nm; pr.push_back(nm); pr.push_back(nm.substr(0, nm.size() - 1)); pr.push_back(nm + "x"); } if (sh) { d += ","; d += sh == 1 ? 'q' : '?'; pr.push_back(sh == 1 ? "-q" : "-?"); pr.push_back("q"); }
        one(R, d, pr);
    }
    R.space("many aliases", "1..60 aliases, each found, and the boundaries of name length to 300");
    for (int n = 1; n <= 60; ++n) for (int sh = 0; sh < 2; ++sh) { string d; Strs pr; for (int i = 0; i < n; ++i) { if (i) d += ","; d += "al" + mc::num(i); pr.push_back("al" + mc::num(i)); } if (sh) { d += ",s"; pr.push_back("-s"); } pr.push_back("al" + mc::num(n)); one(R, d, pr); }
    { std::vector<int> L = sizes(600); for (size_t i = 0; i < L.size(); ++i) if (L[i] > 1) for (int sh = 0; sh < 2; ++sh) one(R, text(L[i]) + (sh ? ",s" : ""), S({"-s", "s"})); }
    R.space("every character", "every byte except the comma as short name and inside long names");
    for (int c = 1; c < 256; ++c) { if (c == ',') continue; string C(1, char(c)); Strs pr = {C, "-" + C, "x" + C, C + "x", "-x", "xx" + C}; one(R, "," + C, pr); one(R, "xx," + C, pr); one(R, "x" + C, pr); one(R, C + "x", pr); one(R, "yy,x" + C + ",z", pr); one(R, C, pr); }
    R.space("parameter display", "format_parameter and value_name, default and implicit text for every kind of value and name lengths 0..40");
    for (int L = 0; L <= 40; ++L) for (int k = 0; k < 24; ++k) {
        if (!R.begin()) continue;
        string vn = text(L), w, h, def = text(L % 7 + 1, "uvw"), imp = text(L % 5 + 1, "xyz");
        po::typed_value<string>* v = po::value<string>(); bool D = k & 1, I = k & 2, N = k & 4; int z = k >> 3;
        if (D) v->default_value(def); if (I) v->implicit_value(imp); if (N) v->value_name(vn); if (z == 1) v->zero_tokens(); if (z == 2) v->multitoken();
        string a = N && L ? vn : "arg";
        if (I) w = "[=" + a + "(=" + imp + ")]" + (D ? " (=" + def + ")" : ""); else w = a + (D ? " (=" + def + ")" : "");
        if (z == 1) w = "";
        po::option_description o("name", v, "d"); h = o.format_parameter();
        R.trace(); R.transitions(1); R.state(mc::hstr(w));
        if (w != h) R.fail("parameter display L=" + mc::num(L) + " kind=" + mc::num(k), w, h);
        R.end(mc::hstr(h));
    }
}
#endif
