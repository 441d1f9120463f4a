// C12 configuration grammar, C13 configuration names, C15 environment.
#include "cfgmodel.hpp"
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
extern char** environ;

#if PROP == 12
const char* mc::property = "C12";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs none, decl = S({"a", "b", "s.a", "s.t.a", "aa", "s.", ".a", "name", "long_name", "sec.name"});
    po::options_description dn, dd; declare(dd, decl);
    auto go = [&](const string& t) { if (!R.begin()) return; Res g; checkCfg(R, dn, none, true, t, &g); checkCfg(R, dd, decl, false, t); R.end(g.hash()); };
    R.space("short texts", T ? "every text of length 0..7 over 10 letters" : "every text of length 0..6 over 10 letters (a = [ ] # space newline return tab dot)");
    texts("a=[]# \n\r\t.", 0, T ? 7 : 6, go);
    R.space("entry texts", T ? "every text of length 0..9 over a = space # newline" : "every text of length 0..8 over a = space # newline");
    texts("a= #\n", 7, T ? 10 : 8, go);
    R.space("section texts", T ? "every text '[' x ']\\n' y over 5 letters, x,y of length 0..4" : "x of length 0..4 over a . space ] =, y of length 0..3");
    texts("a. ]=", 0, 4, [&](const string& x) { texts("a= \n[", 0, T ? 4 : 3, [&](const string& y) { go("[" + x + "]\n" + y + "\na=1\n"); }); });
    Strs shape = S({"", "   ", "# c", "a=1", "a = 1", " \ta\t=\t1 \t", "a=", "=v", "=", "a=b=c", "a=[x]", "[s]", "[s.]", "[s.t]", " [ s ] ", "[s]#c", "[s] x", "[]", "[", "]", "junk", "a=1#c", "a=#c", "#a=1", "a=\"1 # 2\"", "b=1\r", "[s]\r", "\r", "a b=1 2", "name=x", "[sec]", "[s]=1", "a[1]=2", "#", "##", "a\t b =", "[[s]]", ".a=1", "a==", "\\"});
    R.space("line sequences", T ? "every sequence of 1..4 of 40 line shapes, with and without final newline" : "every sequence of 1..3 of 40 line shapes, with and without final newline, LF and CRLF");
    sequences(shape, 1, T ? 4 : 3, [&](const std::vector<int>& ix) {
        for (int fin = 0; fin < 2; ++fin) for (int cr = 0; cr < (ix.size() < 3 ? 2 : 1); ++cr) { string t; for (size_t i = 0; i < ix.size(); ++i) { t += shape[ix[i]]; if (i + 1 < ix.size() || fin) t += cr ? "\r\n" : "\n"; } go(t); }
    });
    R.space("long sequences", "every block of 1..2 of 18 shapes repeated to 4..300 lines; a run of one shape with one other line at every place");
    Strs sh2 = S({"", "# c", "a=1", " a = 2 ", "b=", "[s]", "[s.t]", "[x.]", "a=#c", "=v", "a=b=c", "name = some longer value", "[]", "\r", "aa=[s]", "junk", "  ", "a=1\r"});
    std::vector<int> lens = T ? sizes(1100) : sizes(300);
    sequences(sh2, 1, 2, [&](const std::vector<int>& ix) { for (size_t l = 0; l < lens.size(); ++l) { if (lens[l] < 4) continue; string t; for (int i = 0; i < lens[l]; ++i) t += sh2[ix[i % ix.size()]] + "\n"; go(t); } });
    for (size_t h = 0; h < sh2.size(); ++h) for (size_t n = 0; n < sh2.size(); ++n) for (int len = 5; len <= (T ? 80 : 40); len += 5) for (int at = 0; at < len; ++at) { string t; for (int i = 0; i < len; ++i) t += (i == at ? sh2[n] : sh2[h]) + "\n"; go(t); }
    R.space("sizes", "name, value, section, comment, blanks before/after, at every length 0..130 and around powers of two up to 8192");
    std::vector<int> sz = sizes(2100); for (int p = 2048; p <= 16384; p *= 2) for (int d = -2; d <= 2; ++d) sz.push_back(p + d); for (int i = 0; i <= 260; ++i) sz.push_back(i);
    for (size_t i = 0; i < sz.size(); ++i) {
        int n = sz[i]; string x = text(n), b = rep(" ", n), tb = rep(" \t", n);
        string t[16] = { x + "=1", "a=" + x, "[" + x + "]\na=1", "#" + x + "\na=1", b + "a=1", "a" + tb + "=1", "a=" + tb + "1", "a=1" + b, "a=1 #" + x, "[" + b + "s" + b + "]\na=1", "[s]" + tb + "\na=1", x, "a=" + rep("x ", n) + "y", "a=" + rep("=", n), rep("\n", n) + "a=1", "a=" + rep("[", n) + "]" };
        for (int k = 0; k < 16; ++k) { go(t[k]); go(t[k] + "\n"); go(t[k] + "\r\nb=2"); go("b=0\n[s]\n" + t[k] + "\n"); }
    }
    R.space("bytes", "every byte 0..255 at each place of 9 line templates");
    Strs tpl = S({"a=1\n", " a = b c \n", "[s]\na=1\n", "[s.t]\nb=2\na=1", "# c\na=1\n", "a=1 # c\n", "name=some value\r\n", "=\n", "ab\n"});
    for (size_t k = 0; k < tpl.size(); ++k) for (size_t p = 0; p <= tpl[k].size(); ++p) for (int c = 0; c < 256; ++c) { string t = tpl[k]; t.insert(p, 1, char(c)); go(t); if (p < tpl[k].size()) { t = tpl[k]; t[p] = char(c); go(t); } }
    R.space("other streams", T ? "wide streams, streams positioned after a first part and read-write streams: every text of length 0..6 over 10 letters, every sequence of 1..3 of 40 line shapes, the sizes"
                             : "wide streams, streams positioned after a first part and read-write streams: every text of length 0..5 over 10 letters, every sequence of 1..2 of 40 line shapes, the sizes");
    {
        auto narrowRes = [](const po::wparsed_options& p) { Res r; r.prefix = p.m_options_prefix; for (size_t i = 0; i < p.options.size(); ++i) { const po::woption& o = p.options[i]; ROpt x; x.key = o.string_key; x.pos = o.position_key; x.unreg = o.unregistered; x.ci = o.case_insensitive; for (size_t k = 0; k < o.value.size(); ++k) x.val.push_back(string(o.value[k].begin(), o.value[k].end())); for (size_t k = 0; k < o.original_tokens.size(); ++k) x.orig.push_back(string(o.original_tokens[k].begin(), o.original_tokens[k].end())); r.opts.push_back(x); } return r; };
        auto other = [&](const string& t) {
            if (!R.begin()) return; u64 out = 0;
            for (int k = 0; k < 2; ++k) {
                const po::options_description& d = k ? dd : dn; CfgModel m(k ? decl : none, !k, &R, k); Res w = m.parse(t), x[3]; w.what = w.what.c_str(); if (m.unsure) continue;
                try { std::wistringstream is(std::wstring(t.begin(), t.end())); x[0] = narrowRes(po::parse_config_file(is, d, !k)); } catch (...) { x[0] = current(); }
                try { std::istringstream is("[sec]\nskipped = 1\n" + t); string l; std::getline(is, l); std::getline(is, l); std::istream& b = is; x[1] = toRes(po::parse_config_file(b, d, !k)); } catch (...) { x[1] = current(); }
                try { std::stringstream is; is << t; x[2] = toRes(po::parse_config_file<char>(is, d, !k)); if (is.bad()) x[2].kind = "bad stream"; } catch (...) { x[2] = current(); }
                R.trace();
                for (int q = 0; q < 3; ++q) if (!(x[q] == w)) { R.fail(string(q == 0 ? "wide stream" : q == 1 ? "positioned stream" : "read-write stream") + (k ? "" : " unregistered allowed") + " text " + mc::q(t), w.str(), x[q].str()); break; }
                out = mc::mix(out, w.hash());
            }
            R.end(out);
        };
        texts("a=[]# \n\r\t.", 0, T ? 6 : 5, other);
        sequences(shape, 1, T ? 3 : 2, [&](const std::vector<int>& ix) { for (int fin = 0; fin < 2; ++fin) for (int cr = 0; cr < 2; ++cr) { string t; for (size_t i = 0; i < ix.size(); ++i) { t += shape[ix[i]]; if (i + 1 < ix.size() || fin) t += cr ? "\r\n" : "\n"; } other(t); } });
        for (size_t i = 0; i < sz.size(); ++i) { int n = sz[i]; string x = text(n), b = rep(" ", n); other(x + "=1"); other("a=" + x + "\nb=" + x + "\n"); other("[" + x + "]\na=1\n" + b + "b" + b + "=" + b + "2" + b); other("#" + x + "\na=1"); }
    }
    R.space("byte pairs", "every pair of bytes before, inside and after an entry (quick: 40 x 256)");
    for (int c = 0; c < 256; ++c) for (int e = 0; e < 256; ++e) { if (!T && !(c < 48 && c % 1 == 0)) continue; string p; p += char(c); p += char(e); go(p + "a=1\n"); go("a=1" + p); go("a" + p + "=" + p + "1\nb=2"); }
}
#endif

#if PROP == 13
const char* mc::property = "C13";
// what the declared set itself allows: two different overlapping wildcards are an error
static bool overlap(const Strs& n, std::set<string>& pairs)
{
    bool bad = false;
    for (size_t i = 0; i < n.size(); ++i) for (size_t j = 0; j < n.size(); ++j) {
        if (i == j || n[i] == n[j] || *n[i].rbegin() != '*' || *n[j].rbegin() != '*') continue;
        if (starts(n[i].substr(0, n[i].size() - 1), n[j].substr(0, n[j].size() - 1))) { bad = true;
            pairs.insert("options '" + n[i] + "' and '" + n[j] + "' will both match the same arguments from the configuration file");
            pairs.insert("options '" + n[j] + "' and '" + n[i] + "' will both match the same arguments from the configuration file"); }
    }
    return bad;
}
static Strs permutation(Strs v, int k) { Strs r; while (!v.empty()) { int i = k % (int)v.size(); k /= (int)v.size(); r.push_back(v[i]); v.erase(v.begin() + i); } return r; }
// one declared set against all entries; the text holds a single entry
static void one(Run& R, const Strs& names, const po::options_description& d, const string& text, bool unreg)
{
    if (!R.begin()) return;
    std::set<string> pr; Res g;
    if (overlap(names, pr)) {
        g = parseCfg(text, d, unreg); R.trace();
        if (!g.err || !pr.count(g.what)) R.fail("declared " + mc::q(names) + " text " + mc::q(text), pr.size() ? "error " + *pr.begin() + " (or another overlapping pair)" : "", g.str());
    } else checkCfg(R, d, names, unreg, text, &g);
    R.end(g.hash());
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    Strs pref; texts("ab", 0, 3, [&](const string& s) { pref.push_back(s + "*"); if (!s.empty()) pref.push_back(s); });
    Strs ent; texts("ab", 0, 4, [&](const string& s) { ent.push_back(s); }); Strs more = S({"a*", "b*", "*", "a*b", "A", "a.b", "ba.", "ab*"}); ent.insert(ent.end(), more.begin(), more.end());
    R.space("declared sets", T ? "every set of 0..3 of 29 names and wildcards over {a,b}, each entry of 39, unregistered allowed or not, every declaration order" : "every set of 0..2 of 29 names and wildcards over {a,b} in both orders, 39 entries, unregistered allowed or not");
    int P = (int)pref.size();
    auto sets = [&](const Strs& names) { po::options_description d; declare(d, names); for (size_t e = 0; e < ent.size(); ++e) for (int u = 0; u < 2; ++u) one(R, names, d, ent[e] + "=v\n", u); };
    sets(Strs());
    for (int i = 0; i < P; ++i) { Strs n(1, pref[i]); sets(n); for (int j = 0; j < P; ++j) { Strs m = n; m.push_back(pref[j]); sets(m); } }
    R.space("wildcard triples", T ? "every set of 3 of 29 names, 6 orders" : "every set of 3 of 29 names, 2 orders");
    for (int i = 0; i < P; ++i) for (int j = i + 1; j < P; ++j) for (int k = j + 1; k < P; ++k) {
        Strs m; m.push_back(pref[i]); m.push_back(pref[j]); m.push_back(pref[k]);
        for (int o = 0; o < 6; ++o) { if (!T && o != 0 && o != 5) continue; Strs n = permutation(m, o); po::options_description d; declare(d, n); for (size_t e = 0; e < ent.size(); ++e) { one(R, n, d, ent[e] + "=v\n", (int)(e + o) & 1); if (T) one(R, n, d, ent[e] + "=v\n", !((int)(e + o) & 1)); } }
    }
    R.space("disjoint wildcards", "every antichain of up to 5 prefixes from 12 neighbouring ones (with ordering neighbours such as . - _ digits), 60 entries");
    {
        Strs pr = S({"a*", "b*", "ab*", "a.*", "a-*", "a_*", "aa*", "ba*", "a0*", "s.a*", "s.b*", "Z*"}), names = S({"a", "a.b", "s.c", "zz"});
        Strs e; for (size_t i = 0; i < pr.size(); ++i) { string p = pr[i].substr(0, pr[i].size() - 1); e.push_back(p); e.push_back(p + "x"); e.push_back(p + "."); e.push_back(p + "zz"); e.push_back(p.substr(0, p.size() - 1) + "x"); e.push_back(p.substr(0, p.size() - 1) + char(*p.rbegin() + 1)); e.push_back(p + "*"); e.push_back(p.substr(0, p.size() - 1) + char(*p.rbegin() - 1) + "~"); }
        e.push_back("zz"); e.push_back("s.c"); e.push_back("s."); e.push_back("zzz");
        for (unsigned mk = 0; mk < (1u << pr.size()); ++mk) {
            if (__builtin_popcount(mk) > 5) continue;
            Strs n = names; for (size_t i = 0; i < pr.size(); ++i) if (mk >> i & 1) n.push_back(pr[i]);
            po::options_description d; declare(d, n);
            for (size_t i = 0; i < e.size(); ++i) if (!e[i].empty()) one(R, n, d, e[i] + " = 1\n", (mk + i) % 3 == 0);
        }
    }
    R.space("characters that sort before the star", T ? "every set of 1..3 of 20 wildcards and 4 names over a b with ! # and space inside, 34 entries" : "every set of 1..2 of 20 wildcards and 4 names over a b with ! # and space inside, every set of 3 wildcards, 34 entries");
    {
        Strs pr = S({"*", "a*", "a!*", "a!b*", "a!!*", "a b*", "a $*", "a%b*", "a)*", "b*", "b(b*", "ab*", "ab!*", "a.b*", "a+*", "a**", "a*b*", "!*", "$a*", "a b!*", "a", "a!b", "b(b", "a*b"}), e;
        for (size_t i = 0; i < pr.size(); ++i) { string p = pr[i]; if (*p.rbegin() == '*') p.erase(p.size() - 1); if (!p.empty() && *p.rbegin() != ' ') e.push_back(p); if (i % 2 == 0) e.push_back(p + "x"); }
        e.push_back("a\x1fz"); e.push_back("a~"); e.push_back("`");
        for (size_t i = 0; i < pr.size(); ++i) for (size_t j = i; j < pr.size(); ++j) for (size_t k = j; k < pr.size(); ++k) {
            if ((i == j) != (i == k) && (i == j || j == k) && i == j) continue;
            Strs n(1, pr[i]); if (j != i) n.push_back(pr[j]); if (k != j) n.push_back(pr[k]);
            po::options_description d, r; declare(d, n); std::reverse(n.begin(), n.end()); declare(r, n); std::reverse(n.begin(), n.end());
            for (size_t x = 0; x < e.size(); ++x) { if (e[x].empty()) continue; bool u = (x + i + j + k) & 1; one(R, n, d, e[x] + "=v\n", u); if (T || n.size() < 3) { one(R, n, d, e[x] + "=v\n", !u); one(R, n, r, e[x] + "=v\n", u); } }
        }
    }
    R.space("many names", "1..130 declared names and wildcards, each looked up, plus neighbours");
    for (int n = 1; n <= (T ? 260 : 130); n += (n < 20 ? 1 : 7)) {
        Strs nm; for (int i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, "n%03d%s", i * 7 % 1000, i % 3 == 0 ? "*" : ""); nm.push_back(b); }
        po::options_description d; declare(d, nm);
        for (int i = 0; i < n; ++i) { string b = nm[i].substr(0, 4); one(R, nm, d, b + "x=1\n", false); one(R, nm, d, b + "=1\n", true); one(R, nm, d, b.substr(0, 3) + "=1\n", i & 1); }
    }
    R.space("sections", "declared s.a, s.*, t.u.* etc. reached through section headers or full names; every pair of lines of 16");
    {
        Strs ds[4]; ds[0] = S({"s.a", "a"}); ds[1] = S({"s.*", "a"}); ds[2] = S({"s.a*", "s.b", "t.u.*"}); ds[3] = S({"s.t.a", "s.*", "[x]", "a b"});
        Strs ln = S({"[s]", "[s.t]", "[t.u]", "[]", "a=1", "ab=2", "b=3", "s.a=4", "s.x=5", "t.u.q=6", "t.a=7", "[x]=8", "a b=9", "A=1", "S.a=2", ".a=3"});
        for (int k = 0; k < 4; ++k) { po::options_description d; declare(d, ds[k]); sequences(ln, 1, T ? 4 : 3, [&](const std::vector<int>& ix) { Strs t = pick(ln, ix); string x; for (size_t i = 0; i < t.size(); ++i) x += t[i] + "\n"; one(R, ds[k], d, x, false); one(R, ds[k], d, x, true); }); }
    }
    R.space("declaration forms", "aliases and short names: only the first long name counts; options with no long name are rejected; nested groups count; storing keeps unregistered entries out");
    {
        const char* dc[] = {"foo", "foo,f", "foo,alias", "foo,alias,f", ",f", "bar*", "bar*,b", "foo,bar*", "s.foo,f"};
        Strs en = S({"foo", "alias", "f", "-f", "bar", "barx", "s.foo", "bar*", ""});
        for (int i = 0; i < 9; ++i) for (int j = -1; j < 9; ++j) for (size_t e = 0; e < en.size(); ++e) for (int u = 0; u < 2; ++u) for (int nest = 0; nest < 2; ++nest) {
            if (!R.begin()) continue;
            po::options_description in, d; Strs names; bool shortOnly = i == 4 || j == 4;
            (nest ? in : d).add_options()(dc[i], po::value<string>(), ""); if (nest) d.add(in);
            if (j >= 0) d.add_options()(dc[j], po::value<string>(), "");
            int ids[2] = {i, j}; for (int k = 0; k < 2; ++k) if (ids[k] >= 0) { string s = dc[ids[k]]; names.push_back(s.substr(0, s.find(','))); }
            string text = en[e] + "=v\n", key = string("declared ") + dc[i] + (j >= 0 ? string(" ") + dc[j] : "") + (nest ? " nested" : "") + " entry " + mc::q(text) + (u ? " unregistered" : "");
            Res x = parseCfg(text, d, u), w; R.trace(); std::set<string> pr; bool skip = false;
            if (shortOnly) { w.err = true; w.kind = "po::error"; w.what = "abbreviated option names are not permitted in options configuration files"; }
            else if (overlap(names, pr)) skip = true;
            else { CfgModel m(names, u, &R, i * 16 + j); w = m.parse(text); skip = m.unsure; }
            if (!skip && !(w == x)) R.fail(key, w.str(), x.str());
            bool clash = false; if (j >= 0) { std::stringstream ss(string(dc[j])); string t; while (std::getline(ss, t, ',')) clash |= (("," + string(dc[i]) + ",").find("," + t + ",") != string::npos); }
            if (!skip && !w.err && !clash) {        // what reaches the map
                std::istringstream is(text); po::variables_map vm; string h; 
                try { po::store(po::parse_config_file(is, d, u), vm); h = mc::num(vm.size()); if (vm.size()) h += " " + vm.begin()->first + "=" + vm.begin()->second.as<string>(); } catch (...) { h = current().str(); }
                string want = w.opts.empty() || w.opts[0].unreg ? "0" : "1 " + w.opts[0].key + "=v";
                if (h != want) R.fail(key + " stored", want, h);
            }
            R.end(x.hash());
        }
    }
    R.space("unregistered entries", "every subset of 6 known/unknown entries in every rotation: flagged, in place, collectable");
    {
        Strs nm = S({"a", "s.b", "w*"}), el = S({"a=1", "x=2", "wz=3", "[s]\nb=4", "[s]\nc = 5 6", "[]\nq="});
        po::options_description d; declare(d, nm);
        for (int mask = 0; mask < 64; ++mask) for (int rot = 0; rot < 6; ++rot) {
            string t; for (int i = 0; i < 6; ++i) { int k = (i + rot) % 6; if (mask >> k & 1) t += el[k] + "\n"; }
            one(R, nm, d, t, true); one(R, nm, d, t, false);
            if (!R.begin()) continue;
            CfgModel m(nm, true); Res w = m.parse(t); Strs want, have;
            for (size_t i = 0; i < w.opts.size(); ++i) if (w.opts[i].unreg) { want.push_back(w.opts[i].key); want.push_back(w.opts[i].val[0]); }
            std::istringstream is(t); 
            try { have = po::collect_unrecognized(po::parse_config_file(is, d, true).options, rot & 1 ? po::include_positional : po::exclude_positional); } catch (...) { have.push_back(current().str()); }
            R.trace(); if (have != want) R.fail("collect from " + mc::q(t), mc::q(want), mc::q(have)); R.end(have.size());
        }
    }
}
#endif

#if PROP == 15
const char* mc::property = "C15";
struct EnvSet {                     // installs an environment for one call and verifies that it was left alone
    std::vector<string> copy; std::vector<char*> ptr; char** old; Strs ent; std::vector<char*> before;
    EnvSet(const Strs& e) : copy(e), old(environ), ent(e) { for (size_t i = 0; i < copy.size(); ++i) ptr.push_back(&copy[i][0]); ptr.push_back(0); before = ptr; environ = &ptr[0]; }
    bool intact() { bool ok = environ == &ptr[0] && ptr == before; for (size_t i = 0; i < ent.size(); ++i) ok = ok && copy[i] == ent[i]; return ok; }
    ~EnvSet() { environ = old; }
};
static string low(const string& s) { return lower(s); }
typedef std::function<string(const string&)> Map;
static Res model(Run& R, const Strs& env, const Map& f, Strs& asked)
{
    Res r; u64 h = 3;
    for (size_t i = 0; i < env.size(); ++i) {
        size_t e = env[i].find('='); string n = env[i].substr(0, e); asked.push_back(n); string k = f(n);
        R.state(h); h = mc::mix(h, mc::hstr(env[i])); R.transitions(1);
        if (!k.empty()) { ROpt o; o.key = k; o.val.push_back(env[i].substr(e + 1)); r.opts.push_back(o); }
    }
    R.state(h); return r;
}
static Map prefixMap(const string& p) { return [p](const string& n) { return starts(n, p) ? low(n.substr(p.size())) : string(); }; }
static void checkEnv(Run& R, const po::options_description& d, const Strs& env, const string* prefix, const Map& f, const string& what)
{
    if (!R.begin()) return;
    Strs asked, heard; Res w = model(R, env, f, asked), x; bool ok = true;
    for (int form = 0; form < (prefix ? 2 : 1); ++form) {
        { EnvSet es(env);
          try {
            if (!prefix) x = toRes(po::parse_environment(d, [&](const string& n) { heard.push_back(n); return f(n); }));
            else if (form == 0) x = toRes(po::parse_environment(d, *prefix)); else x = toRes(po::parse_environment(d, prefix->c_str()));
          } catch (...) { x = current(); }
          ok = es.intact(); }
        R.trace();
        if (!(w == x)) R.fail(what + " environment " + mc::q(env), w.str(), x.str());
        if (!ok) R.fail(what + " environment " + mc::q(env), "environment unchanged", "environment modified");
    }
    if (!prefix && heard != asked) R.fail(what + " environment " + mc::q(env), "mapping asked for " + mc::q(asked), mc::q(heard));
    if (R.want_sample()) R.sample(what + " environment " + mc::q(env) + " -> " + x.str());
    R.end(x.hash());
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    po::options_description d; d.add_options()("foo", po::value<string>(), "")("bar", po::value<string>(), "")("b_c", po::value<string>(), "")("n", po::value<int>(), "");
    Strs al = S({"P_FOO=1", "P_BAR=", "P_=x", "P=y", "PX=z", "FOO=2", "p_foo=3", "P_b_C=a=b", "P_FOO==", "=v", "Q_P_FOO=4", "P_Foo Bar=5", "PP_FOO=6", "P_P_FOO=7", "_=8", "P_\xc3\x84=9", "P_FOO= v w ", "P_N=12"});
    Strs pre = S({"", "P", "P_", "P_F", "P_FOO", "P_FOOX", "p_", "Q_P_", "_", "=", "P_FOO=", "PP", "P_P_", " "});
    R.space("prefix", T ? "every environment of 0..4 of 18 variables x 14 prefixes, std::string and char* forms" : "every environment of 0..3 of 18 variables x 14 prefixes, std::string and char* forms");
    sequences(al, 0, T ? 4 : 3, [&](const std::vector<int>& ix) { Strs e = pick(al, ix); for (size_t p = 0; p < pre.size(); ++p) checkEnv(R, d, e, &pre[p], prefixMap(pre[p]), "prefix " + mc::q(pre[p])); });
    R.space("mapping", "every environment of 0..3 (thorough 4) of 18 variables x 8 mappings (identity, none, fixed, by table, name-length, last letter, one letter, declined first)");
    std::vector<std::pair<string, Map> > maps;
    maps.push_back(std::make_pair("identity", Map([](const string& n) { return n; })));
    maps.push_back(std::make_pair("none", Map([](const string&) { return string(); })));
    maps.push_back(std::make_pair("fixed", Map([](const string&) { return string("foo"); })));
    maps.push_back(std::make_pair("table", Map([](const string& n) { return n == "P_FOO" ? string("foo") : n == "FOO" ? string("bar") : string(); })));
    maps.push_back(std::make_pair("length", Map([](const string& n) { return string(n.size() > 2 ? n.size() - 2 : 0, 'x'); })));
    maps.push_back(std::make_pair("last", Map([](const string& n) { return n.empty() ? n : string(1, n[n.size() - 1]); })));
    maps.push_back(std::make_pair("unnamed only", Map([](const string& n) { return n.empty() ? string("bar") : string(); })));
    maps.push_back(std::make_pair("undeclared", Map([](const string& n) { return "zz" + n; })));
    sequences(al, 0, T ? 4 : 3, [&](const std::vector<int>& ix) { Strs e = pick(al, ix); for (size_t m = 0; m < maps.size(); ++m) checkEnv(R, d, e, 0, maps[m].second, "mapping " + maps[m].first); });
    R.space("bytes", "every byte in the name after the prefix, in the prefix and in the value");
    for (int c = 1; c < 256; ++c) { if (c == '=') continue; string b(1, char(c)); Strs e; e.push_back("P_" + b + "A=1"); e.push_back("P_A" + b + "=2"); e.push_back(b + "P_X=3"); e.push_back("P_V=" + b); e.push_back("P" + b + "Z=4"); e.push_back(b + "=5");
        for (size_t p = 0; p < pre.size(); ++p) checkEnv(R, d, e, &pre[p], prefixMap(pre[p]), "prefix " + mc::q(pre[p])); string pb = "P" + b, pc = b; checkEnv(R, d, e, &pb, prefixMap(pb), "prefix " + mc::q(pb)); checkEnv(R, d, e, &pc, prefixMap(pc), "prefix " + mc::q(pc)); checkEnv(R, d, e, 0, maps[0].second, "identity"); }
    for (int a = 1; a < 256; ++a) for (int b = 1; b < 256; ++b) { if (a == '=' || (!T && a > 127 && b > 127 && (a ^ b) & 7)) continue; string x; x += char(a); string y(1, char(b)); Strs e; e.push_back("P_" + x + "=" + y + "=" + y); string p = "P_"; checkEnv(R, d, e, &p, prefixMap(p), "prefix P_"); }
    R.space("sizes", "names, values and prefixes of lengths 0..130 and around powers of two, environments of boundary sizes to 1100 variables, of up to 70 variables with an odd one at every place (up to 70)");
    std::vector<int> sz = sizes(1100);
    for (size_t i = 0; i < sz.size(); ++i) for (int k = 0; k < 4; ++k) {
        string t = text(sz[i], "ABCDEFGHIJKLMNOPQ_"); Strs e; e.push_back("P_" + t + "=" + (k & 1 ? text(sz[i]) : "v")); e.push_back(t + "=w"); e.push_back("P_X=" + text(sz[i], "ab=")); if (k & 2) std::reverse(e.begin(), e.end());
        string p = k == 3 ? "P_" + t : k == 2 ? t : "P_"; checkEnv(R, d, e, &p, prefixMap(p), "prefix " + mc::q(p));
    }
    for (size_t i = 0; i < sz.size(); ++i) { for (int k = 0; k < 3; ++k) { Strs e; for (int j = 0; j < sz[i]; ++j) e.push_back((k == 0 ? "P_V" : k == 1 ? "Q_V" : j & 1 ? "P_W" : "QW") + mc::num(j) + "=" + mc::num(j)); string p = "P_"; checkEnv(R, d, e, &p, prefixMap(p), "prefix P_"); checkEnv(R, d, e, 0, maps[0].second, "identity"); } }
    for (int n = 1; n <= 70; ++n) for (int at = 0; at < n; ++at) for (int k = 0; k < 2; ++k) { Strs e(n, k ? "P_FOO=1" : "X=1"); e[at] = k ? "P_=1" : "P_BAR=2"; string p = "P_"; checkEnv(R, d, e, &p, prefixMap(p), "prefix P_"); }
    R.space("store", "what reaches the map: every environment of 0..3 of 8 variables; undeclared names are errors naming them");
    Strs al2 = S({"P_FOO=1", "P_BAR=two", "P_B_C=", "P_N=7", "P_N=x", "P_ZZ=1", "FOO=9", "P_=3"});
    sequences(al2, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
        if (!R.begin()) return;
        Strs e = pick(al2, ix); string h, w; std::map<string, string> mv; bool err = false;
        for (size_t i = 0; i < e.size() && !err; ++i) { size_t q = e[i].find('='); string n = prefixMap("P_")(e[i].substr(0, q)), v = e[i].substr(q + 1); if (n.empty()) continue;
            if (n == "zz") { err = true; w = "unrecognised option 'zz'"; } else if (mv.count(n)) { err = true; w = "option '" + n + "' cannot be specified more than once"; }
            else if (n == "n" && v == "x") { err = true; w = "the argument ('x') for option 'n' is invalid"; } else mv[n] = v; }
        if (!err) for (std::map<string, string>::iterator i = mv.begin(); i != mv.end(); ++i) w += i->first + "=" + i->second + ";";
        try { po::variables_map vm; { EnvSet es(e); po::store(po::parse_environment(d, "P_"), vm); } for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) h += i->first + "=" + (i->first == "n" ? mc::num(i->second.as<int>()) : i->second.as<string>()) + ";"; } catch (...) { h = current().what; }
        R.trace(); if (h != w) R.fail("stored environment " + mc::q(e), w, h); R.end(mc::hstr(h));
    });
}
#endif
