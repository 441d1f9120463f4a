// Command line parsing: C01 C03 C04 C05 C06 C07, selected by -DPROP=<n>.
#include "cmdspaces.hpp"
using namespace cm;
using mc::Run;

#define STR2(x) #x
#define STR(x) STR2(x)

static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static const int UNIX = st::unix_style;

// values that stress the places where a value is cut out of a token
static Strs specialValues()
{
    Strs v = S({"v", "=", "==", "a=b", "=v", "-", "--", "-f", "--foo", "--foo=1", "/", "/f", " ", "a b", "\"q\"", "'", "\\", "%", "#", "[x]", ",", "*", "\t", "\n", "\xc3\xa9", "\xff", "0", "-1"});
    for (int c = 0; c < 256; ++c) { v.push_back(string(1, char(c))); v.push_back(string("x") + char(c)); v.push_back(string(1, char(c)) + "x="); }
    return v;
}

// -------------------------------------------------------------------------------------------- C01
#if PROP == 1
const char* mc::property = "C01";
static string upper(string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = char(s[i] - 32); return s; }
static string alt(string s, int par) { for (size_t i = 0; i < s.size(); ++i) if ((int)(i & 1) == par && s[i] >= 'a' && s[i] <= 'z') s[i] = char(s[i] - 32); return s; }

// one spelling of (name,value): must parse to exactly key/value, whatever stands around it
static void spelled(Run& R, const Real& real, const Strs& before, const Strs& sp, const Strs& after, const string& key, const string& val)
{
    if (!R.begin()) return;
    Strs t = before; t.insert(t.end(), sp.begin(), sp.end()); t.insert(t.end(), after.begin(), after.end());
    Res got;
    if (compare(R, real, t, TokParser(), &got)) {
        bool found = false;
        for (size_t i = 0; i < got.opts.size(); ++i)
            if (got.opts[i].key == key && got.opts[i].val == Strs(1, val)) found = true;
        if (got.err || !found) R.fail(real.g.str() + " args=" + mc::q(t), "option " + mc::q(key) + " with value " + mc::q(val), got.str());
        R.end(got.hash());
    } else R.end(0);
}

void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, Extra());
    Gram g1; g1.o("foo,f", "str").o("foobar", "str").o("bar", "flag").o("alpha,beta,gamma", "str").o("Case", "str").o("opt,o", "impl").o("lst", "multi").o("eins,zwei", "str");
    Strs al = S({"--foo", "--foo=v", "v", "--foo=", "--foo=a=b", "--foo==", "--foo=--bar", "--fo", "--fo=v", "--foob", "--foob=w", "--FOO", "--Foo=v", "-foo", "-foo=v", "/foo", "/foo=v",
                 "-FOO=v", "--bar", "--bar=v", "--ba", "-bar", "/bar", "--beta=v", "--gamma", "--GAM=v", "-beta=v", "/al=v", "--case=v", "--Case=v", "--C=v", "--opt", "--opt=v", "--op=v",
                 "-opt", "-opt=v", "--lst", "--lst=v", "--nope", "--nope=v", "--", "-", "/", "--fooo=v", "--f=v", "-f", "-fv", "--zw=v", "--ei", "--zwei", "--Zwe=v", "-zw=v", "/zw=v"});
    Strs small = S({"--foo", "--foo=v", "v", "--fo=v", "--FOO=v", "-foo=v", "/foo", "--bar", "--beta=v", "--gamma", "--case=v", "--opt", "--opt=v", "--lst=v", "--nope=v", "--", "--foo="});
    std::vector<int> fl = {st::allow_long, st::allow_long_disguise, st::long_allow_adjacent, st::long_allow_next, st::allow_guessing, st::long_case_insensitive, st::allow_slash_for_short};
    std::vector<int> ss = styles(0, fl), s2 = styles(st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent | st::allow_sticky, fl);
    ss.insert(ss.end(), s2.begin(), s2.end());
    R.space("spelling tokens x styles", "8-option grammar, 53-token alphabet, every style over 7 long-form flags with and without short options, length 0..2");
    for (size_t i = 0; i < ss.size(); ++i) { Gram g = g1; g.style = ss[i]; spaceX(R, g, al, 0, 2, Extra()); }
    R.space("spelling sequences x styles", T ? "17-token alphabet, all those styles, length 3, and length 4 for the 4 main ones" : "17-token alphabet, all those styles, length 3");
    for (size_t i = 0; i < ss.size(); ++i) { Gram g = g1; g.style = ss[i]; spaceX(R, g, small, 3, 3, Extra()); }
    if (T) {
        int main4[4] = {0, UNIX & ~st::allow_guessing, UNIX | st::allow_long_disguise | st::allow_slash_for_short | st::long_case_insensitive, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing};
        for (int i = 0; i < 4; ++i) { Gram g = g1; g.style = main4[i]; spaceX(R, g, small, 4, 5, Extra()); }
        for (size_t i = 0; i < ss.size(); ++i) { Gram g = g1; g.style = ss[i]; spaceX(R, g, al, 3, 3, Extra()); }
    }
    const int full = UNIX | st::allow_long_disguise | st::allow_slash_for_short | st::long_case_insensitive;
    const int dis = st::allow_long_disguise | st::allow_slash_for_short | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing | st::long_case_insensitive;

    R.space("value content", "every 1-byte value, every byte after and before a letter, special shapes; every spelling of option and alias; 3 styles; with unrelated options around");
    {
        Strs v = specialValues();
        int sty[3] = {UNIX, full, dis};
        for (int k = 0; k < 3; ++k) {
            Gram g = g1; g.style = sty[k]; Real real(g);
            Strs before[3] = {Strs(), S({"--bar"}), S({"p", "q"})}; Strs after[3] = {Strs(), S({"--bar"}), S({"z"})};
            if (!(sty[k] & st::allow_long)) { before[1] = after[1] = S({"-bar"}); }
            for (size_t i = 0; i < v.size(); ++i) for (int c = 0; c < 3; ++c) {
                string n[4] = {"foo", "alpha", "gamma", "foob"};
                for (int j = 0; j < 4; ++j) {
                    string key = j == 0 ? "foo" : j == 3 ? "foobar" : "alpha";
                    if (sty[k] & st::allow_long) spelled(R, real, before[c], S({}).size() ? Strs() : Strs(1, "--" + n[j] + "=" + v[i]), after[c], key, v[i]);
                    if (sty[k] & st::allow_long_disguise) {
                        spelled(R, real, before[c], Strs(1, "-" + n[j] + "=" + v[i]), after[c], key, v[i]);
                        spelled(R, real, before[c], Strs(1, "/" + n[j] + "=" + v[i]), after[c], key, v[i]);
                    }
                }
            }
        }
    }
    R.space("value strings", T ? "every value of length 1..6 over f = - / and a blank, in 7 spellings, 3 styles" : "every value of length 1..5 over f = - / and a blank, in 7 spellings, 3 styles");
    for (int k = 0; k < 3; ++k) { static const int sty[3] = {UNIX, full, dis}; Gram g = g1; g.style = sty[k]; Real real(g); Strs pre = S({"--foo=", "--alpha=", "-foo=", "/foo=", "--fo=", "--opt=", "--FOO="});
        sequences(S({"f", "=", "-", "/", " "}), 1, T ? 6 : 5, [&](const std::vector<int>& ix) { string v; for (size_t i = 0; i < ix.size(); ++i) v += "f=-/ "[ix[i]]; for (size_t p = 0; p < pre.size(); ++p) { if (!R.begin()) continue; step(R, real, Strs(1, pre[p] + v), Extra()); } }); }
    R.space("lengths", "name length 1..70 (every) and boundary sizes to 300, value length 1..300 boundary sizes, every spelling, alias position 1..3, all abbreviation lengths");
    {
        std::vector<int> ns = range(1, T ? 140 : 70), big = sizes(300); ns.insert(ns.end(), big.begin(), big.end());
        std::vector<int> vs = T ? sizes(2100) : S({}).size() ? std::vector<int>() : std::vector<int>{1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
        int sty[2] = {full, dis};
        for (int k = 0; k < 2; ++k) for (size_t a = 0; a < ns.size(); ++a) {
            if (ns[a] == 0) continue;
            string n = text(ns[a]);
            for (int pos = 0; pos < 3; ++pos) {
                Gram g; g.style = sty[k];
                string d = pos == 0 ? n + ",zz1,zz2" : pos == 1 ? "zz1," + n + ",zz2" : "zz1,zz2," + n;
                if (pos == 2 && n.size() == 1) d += ",_";
                g.o(d, "str").o("0flag", "flag").o("9other", "str");
                string key = pos == 0 ? n : "zz1";
                Real real(g);
                for (size_t b = 0; b < vs.size(); ++b) {
                    if (b > 4 && ns[a] > 40 && ns[a] % 16 > 2 && !T) continue;
                    if (!vs[b]) continue;
                    string v = text(vs[b], "uvwxyz");
                    Strs names; names.push_back(n); names.push_back(upper(n)); names.push_back(alt(n, 0)); names.push_back(alt(n, 1));
                    if (b == 3) for (size_t c = 1; c < n.size(); ++c) { names.push_back(n.substr(0, c)); names.push_back(upper(n.substr(0, c))); }
                    for (size_t c = 0; c < names.size(); ++c) {
                        if (names[c].compare(0, 1, "z") == 0 || names[c].compare(0, 1, "Z") == 0) { if (names[c].size() < 4 && names[c].size() < n.size()) continue; }
                        Strs none, tail = sty[k] & st::allow_long ? S({"--0flag", "x"}) : S({"-0flag", "x"});
                        if (sty[k] & st::allow_long) { spelled(R, real, none, Strs(1, "--" + names[c] + "=" + v), tail, key, v); Strs two; two.push_back("--" + names[c]); two.push_back(v); spelled(R, real, none, two, tail, key, v); }
                        spelled(R, real, none, Strs(1, "-" + names[c] + "=" + v), tail, key, v);
                        spelled(R, real, none, Strs(1, "/" + names[c] + "=" + v), tail, key, v);
                        Strs two; two.push_back("-" + names[c]); two.push_back(v); spelled(R, real, none, two, tail, key, v);
                    }
                }
            }
        }
    }
    R.space("very long names and values", "names of boundary sizes to 2100 and values of boundary sizes to 8300, spelled in full without guessing, declared first and as alias, registered or not; a name that differs only in its last character declared too; 5 styles");
    {
        std::vector<int> ns = sizes(2100), vs = sizes(8300); int sty[5] = {UNIX & ~st::allow_guessing, UNIX, full & ~st::allow_guessing, dis & ~st::allow_guessing, st::allow_long | st::long_allow_adjacent | st::long_allow_next};
        for (int k = 0; k < 5; ++k) for (size_t a = 1; a < ns.size(); ++a) for (int al = 0; al < 3; ++al) {
            string n = text(ns[a]), n2 = n.substr(0, n.size() - 1) + (n[n.size() - 1] == 'z' ? 'y' : 'z'); Gram g; g.style = sty[k]; g.unreg = al == 2; if (n.size() > 1) { if (al == 0) g.o(n, "str").o(n2, "str"); else if (al == 1) g.o(n2, "str").o("zz1," + n, "str"); } g.o("0other", "impl"); Real real(g); Strs pre = S({"--", "-", "/"});
            for (size_t p = 0; p < pre.size(); ++p) { if (R.begin()) step(R, real, Strs{pre[p] + n + "=v" + mc::num(a), "x"}, Extra()); if (R.begin()) step(R, real, Strs{pre[p] + n, "v", "x"}, Extra()); if (R.begin()) step(R, real, Strs{"x", pre[p] + n2 + "=" + n, pre[p] + n + "=" + n2}, Extra()); }
        }
        for (int k = 0; k < 5; ++k) { Gram g = g1; g.style = sty[k]; g.unreg = k & 1; Real real(g); for (size_t b = 0; b < vs.size(); ++b) for (int u = 0; u < 2; ++u) { string v = u ? text(vs[b], "=-/ ab") : text(vs[b]); Strs pre = S({"--foo", "--foo ", "-foo", "/foo", "--nope", "--opt", "--lst"}); for (size_t p = 0; p < pre.size(); ++p) { string o = pre[p]; bool two = o[o.size() - 1] == ' '; if (two) o.resize(o.size() - 1); if (R.begin()) step(R, real, two ? Strs{o, v, "x"} : Strs{o + "=" + v, "x"}, Extra()); } } }
    }
    R.space("many declared options", "1..60 options with a common stem, each spelled every way, first, middle and last declared");
    for (int n = 1; n <= (T ? 130 : 60); ++n) for (int k = 0; k < 2; ++k) {
        Gram g; g.style = k ? dis : full;
        for (int i = 0; i < n; ++i) g.o("stem-" + string(1, char('a' + i % 26)) + mc::num(i) + "-x", i % 5 == 4 ? "impl" : "str");
        Real real(g);
        for (int i = 0; i < n; ++i) {
            if (i > 3 && i < n - 3 && i != n / 2 && n > 20 && !T) continue;
            string nm = "stem-" + string(1, char('a' + i % 26)) + mc::num(i) + "-x"; Strs none;
            string pre = k ? "-" : "--";
            spelled(R, real, none, Strs(1, pre + nm + "=val" + mc::num(i)), none, nm, "val" + mc::num(i));
            spelled(R, real, none, Strs(1, pre + nm.substr(0, nm.size() - 1) + "=val" + mc::num(i)), none, nm, "val" + mc::num(i));
            spelled(R, real, none, Strs(1, pre + upper(nm) + "=val" + mc::num(i)), none, nm, "val" + mc::num(i));
            Strs two; two.push_back(pre + nm); two.push_back("val"); spelled(R, real, none, two, none, nm, "val");
        }
    }
    R.space("long token lists", "every repetition of a block of 1..2 (thorough 3) of 9 spellings, up to 70 tokens, 3 styles");
    {
        Strs pa = S({"--foo=v", "--fo=w", "--FOO=u", "--beta=t", "--bar", "--opt", "--opt=s", "p", "--lst=r"});
        int sty[3] = {UNIX | st::long_case_insensitive, full, st::allow_long | st::long_allow_adjacent | st::long_case_insensitive | st::allow_guessing};
        for (int k = 0; k < 3; ++k) { Gram g = g1; g.style = sty[k]; periodicX(R, g, pa, T ? 3 : 2, T ? range(5, 70) : sizes(70), Extra()); }
    }
}
#endif

// -------------------------------------------------------------------------------------------- C03
#if PROP == 3
const char* mc::property = "C03";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, Extra());
    Gram g; g.o("aaa,a", "flag").o("bbb,b", "flag").o(",c", "str").o("iii,i", "impl").o("mmm,m", "multi").o(",d", "flag").o("Case,A", "str").o("num,1", "flag");
    std::vector<int> fl = {st::allow_dash_for_short, st::allow_slash_for_short, st::short_allow_adjacent, st::short_allow_next, st::allow_sticky, st::short_case_insensitive};
    std::vector<int> ss = styles(st::allow_short, fl), s2;
    { std::vector<int> x = styles(st::allow_short | st::allow_long | st::long_allow_adjacent | st::long_allow_next, fl); ss.insert(ss.end(), x.begin(), x.end());
      x = styles(st::allow_short | st::allow_long | st::long_allow_adjacent | st::allow_guessing | st::long_case_insensitive, fl); ss.insert(ss.end(), x.begin(), x.end());
      x = styles(st::allow_short | st::allow_long_disguise | st::long_allow_adjacent, fl); ss.insert(ss.end(), x.begin(), x.end()); }
    // every token "-" + letters
    Strs letters = S({"a", "b", "c", "i", "m", "x", "A", "=", "-"});
    R.space("one group token", T ? "'-' or '/' followed by every string of length 1..5 over 9 letters, all short styles (with none, long, disguised long)" : "'-' or '/' followed by every string of length 1..4 over 9 letters, all short styles (with none, long, disguised long)");
    for (size_t i = 0; i < ss.size(); ++i) for (int un = 0; un < 2; ++un) {
        Gram h = g; h.style = ss[i]; h.unreg = un; Real real(h);
        for (int pre = 0; pre < 2; ++pre)
            sequences(letters, 1, T ? 5 : (un ? 3 : 4), [&](const std::vector<int>& ix) {
                if (!R.begin()) return;
                string t = pre ? "/" : "-"; for (size_t k = 0; k < ix.size(); ++k) t += letters[ix[k]];
                step(R, real, Strs(1, t), Extra());
            });
    }
    R.space("group then tokens", "every '-'+1..3 letters over {a,b,c,i,m,x,A} followed by every list of 0..2 of 8 tokens, 14 styles");
    {
        Strs l2 = S({"a", "b", "c", "i", "m", "x", "A"});
        Strs tail = S({"v", "-a", "-cv", "-c", "--", "-iv", "/a", "-ab"});
        std::vector<int> sty = {0, UNIX, UNIX & ~st::allow_sticky, UNIX | st::short_case_insensitive, UNIX | st::case_insensitive, UNIX | st::allow_slash_for_short,
            st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent, st::allow_short | st::allow_dash_for_short | st::short_allow_next,
            st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::allow_sticky, st::allow_short | st::allow_slash_for_short | st::short_allow_next | st::short_allow_adjacent,
            st::allow_short | st::allow_slash_for_short | st::short_allow_next | st::allow_sticky | st::short_case_insensitive,
            UNIX | st::allow_long_disguise, UNIX | st::allow_long_disguise | st::allow_slash_for_short, st::unix_style & ~st::allow_guessing};
        for (size_t i = 0; i < sty.size(); ++i) {
            Gram h = g; h.style = sty[i]; Real real(h);
            for (int pre = 0; pre < (h.style & st::allow_slash_for_short ? 2 : 1); ++pre)
                sequences(l2, 1, 3, [&](const std::vector<int>& ix) {
                    string t = pre ? "/" : "-"; for (size_t k = 0; k < ix.size(); ++k) t += l2[ix[k]];
                    sequences(tail, 0, T ? 3 : 2, [&](const std::vector<int>& jx) {
                        if (!R.begin()) return;
                        Strs v(1, t); for (size_t k = 0; k < jx.size(); ++k) v.push_back(tail[jx[k]]);
                        step(R, real, v, Extra());
                    });
                });
        }
    }
    R.space("token lists", T ? "every list of 0..5 of 11 tokens, 6 styles" : "every list of 0..4 of 11 tokens, 6 styles");
    {
        Strs al = S({"-a", "-c", "-cv", "v", "-ab", "-abcv", "-i", "-iv", "-x", "--", "-m"});
        std::vector<int> sty = {0, UNIX | st::case_insensitive, st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent, st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent | st::allow_sticky, UNIX | st::allow_slash_for_short, UNIX | st::allow_long_disguise};
        for (size_t i = 0; i < sty.size(); ++i) for (int un = 0; un < 2; ++un) { Gram h = g; h.style = sty[i]; h.unreg = un; spaceX(R, h, al, 0, (T || un) ? (T ? 5 : 4) : 4, Extra()); }
    }
    R.space("long groups", "groups of 1..70 flags (periodic with period 1..2 and one different letter at every place), attached values of every byte and of boundary lengths to 300");
    {
        std::vector<int> sty = {0, UNIX | st::allow_slash_for_short | st::short_case_insensitive, st::allow_short | st::allow_dash_for_short | st::short_allow_adjacent | st::allow_sticky};
        Strs fla = S({"a", "b", "d", "1"}), ins = S({"c", "i", "x", "m", "A", "B"});
        for (size_t s = 0; s < sty.size(); ++s) for (int un = 0; un < 2; ++un) {
            Gram h = g; h.style = sty[s]; h.unreg = un; Real real(h);
            for (int n = 1; n <= (T ? 140 : 70); ++n) {
                for (size_t f = 0; f < fla.size(); ++f) for (size_t f2 = 0; f2 < fla.size(); ++f2) { if (!R.begin()) continue; string t = "-"; for (int k = 0; k < n; ++k) t += k & 1 ? fla[f2] : fla[f]; step(R, real, Strs(1, t), Extra()); }
                for (int at = 0; at < n; ++at) for (size_t x = 0; x < ins.size(); ++x) for (int nx = 0; nx < 2; ++nx) {
                    if (!R.begin()) continue;
                    string t = "-"; for (int k = 0; k < n; ++k) t += k == at ? ins[x] : fla[k % 2];
                    Strs v(1, t); if (nx) v.push_back("val");
                    step(R, real, v, Extra());
                }
            }
            Strs vals = specialValues(); std::vector<int> vs = sizes(300);
            for (size_t k = 0; k < vs.size(); ++k) vals.push_back(text(vs[k]));
            Strs pre = S({"-c", "-i", "-m", "-abc", "/c", "-ai", "-x", "-Cc"});
            for (size_t k = 0; k < vals.size(); ++k) for (size_t p = 0; p < pre.size(); ++p) { if (!R.begin()) continue; Strs v(1, pre[p] + vals[k]); v.push_back("p"); step(R, real, v, Extra()); }
        }
    }
    R.space("value strings", T ? "every text of length 1..6 over c x / - = after each of 8 beginnings of a token, 5 styles" : "every text of length 1..5 over c x / - = after each of 8 beginnings of a token, 5 styles");
    { std::vector<int> sty = {0, UNIX | st::allow_slash_for_short, UNIX | st::allow_slash_for_short | st::allow_long_disguise, UNIX | st::short_case_insensitive | st::allow_slash_for_short, st::allow_short | st::allow_slash_for_short | st::short_allow_adjacent}; Strs pre = S({"-c", "/c", "-ac", "-i", "/i", "-m", "/a", "/C"});
      for (size_t s = 0; s < sty.size(); ++s) { Gram h = g; h.style = sty[s]; Real real(h); sequences(S({"c", "x", "/", "-", "="}), 1, T ? 6 : 5, [&](const std::vector<int>& ix) { string v; for (size_t i = 0; i < ix.size(); ++i) v += "cx/-="[ix[i]]; for (size_t p = 0; p < pre.size(); ++p) { if (!R.begin()) continue; step(R, real, Strs(1, pre[p] + v), Extra()); } }); } }
    R.space("every option letter", "every printable letter declared as flag and as valued option, used alone, grouped, attached, separate and in slash form, with either case");
    for (int c = 33; c < 127; ++c) {
        if (c == ',' || c == '-' || c == '*') continue;
        for (int kind = 0; kind < 3; ++kind) for (int ls = 0; ls < 2; ++ls) for (int si = 0; si < 4; ++si) {
            int sty[4] = {UNIX, UNIX | st::allow_slash_for_short, UNIX | st::case_insensitive, UNIX | st::short_case_insensitive | st::allow_slash_for_short};
            Gram h; h.style = sty[si];
            char z = c == 'z' ? 'y' : 'z';
            h.o(string(ls ? "long" : "") + "," + char(c), kind == 0 ? "flag" : kind == 1 ? "str" : "impl").o(string("zlong,") + z, "flag");
            Real real(h); string C(1, char(c)), U(1, char(isupper(c) ? tolower(c) : toupper(c)));
            Strs toks[8] = {Strs(1, "-" + C), Strs(1, "-" + C + "v"), Strs(1, "/" + C), Strs(1, "/" + C + "v"), Strs(1, string("-") + z + C), Strs(1, string("-") + z + C + "v"), Strs(1, "-" + U), Strs(1, string("-") + z + U + "=v")};
            for (int k = 0; k < 8; ++k) for (int nx = 0; nx < 3; ++nx) {
                if (!R.begin()) continue;
                Strs v = toks[k]; if (nx == 1) v.push_back("next"); if (nx == 2) v.push_back(string("-") + z);
                step(R, real, v, Extra());
            }
        }
    }
    R.space("mixed token lists, long", "every repetition of a block of 1..3 of 8 tokens, boundary sizes to 70");
    { Gram h = g; Strs al = S({"-a", "-c", "-cv", "v", "-ab", "-i", "-iw", "-m"}); periodicX(R, h, al, 3, T ? range(4, 70) : sizes(70), Extra()); h.style = UNIX | st::allow_slash_for_short | st::case_insensitive; h.unreg = true; al.push_back("-x"); al.push_back("/a"); periodicX(R, h, al, T ? 3 : 2, sizes(70), Extra()); }
}
#endif

// -------------------------------------------------------------------------------------------- C04
#if PROP == 4
const char* mc::property = "C04";
// independent reading of the numbering rules on the observed result
static void numbered(Run& R, const Real& real, const Strs& t, const Res& got)
{
    if (got.err) return;
    int n = 0; string bad;
    for (size_t i = 0; i < got.opts.size(); ++i) {
        const ROpt& o = got.opts[i];
        if (o.pos != -1) { if (o.pos != n) bad = "numbering"; ++n; if (o.val.size() != 1) bad = "value count"; }
    }
    // everything after the first top-level terminator is positional and in order at the end
    if (bad.empty() && real.g.usepos) {
        int left = n; for (size_t i = 0; i < real.g.pos.size() && left > 0; ++i) left = real.g.pos[i].second == -1 ? 0 : left - real.g.pos[i].second;
        if (left > 0) bad = "more positionals than declared were accepted";
    }
    if (!bad.empty()) R.fail(real.g.str() + " args=" + mc::q(t), "consecutive positions", bad + ": " + got.str());
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, numbered);
    typedef std::vector<std::pair<string, int> > PD;
    std::vector<PD> pds; PD e; pds.push_back(e);
    for (int a = 0; a <= 3; ++a) { PD p; p.push_back({"one", a}); pds.push_back(p);
        for (int b = 0; b <= 3; ++b) { PD p2 = p; p2.push_back({"two", b}); pds.push_back(p2); PD p4 = p2; p4.push_back({"one", 1}); pds.push_back(p4); PD p3 = p2; p3.push_back({"rest", -1}); pds.push_back(p3); }
        PD p5 = p; p5.push_back({"rest", -1}); pds.push_back(p5); }
    { PD p; p.push_back({"rest", -1}); pds.push_back(p); PD p2 = p; p2.push_back({"late", 2}); pds.push_back(p2); }
    Gram g0; g0.o("foo,f", "str").o("flag,g", "flag").o("opt,o", "impl").o("many,m", "multi").o("one", "str").o("two", "str").o("rest", "vec").o("late", "vec");
    Strs al = S({"p", "--", "-g", "--foo", "--foo=v", "q", "-", "-m", "--opt", "-x", "", "--many=w"});
    Strs al5 = S({"p", "--", "-g", "--foo", "-", "-m", "--opt"});
    std::vector<int> sty = {0, UNIX | st::allow_long_disguise | st::allow_slash_for_short, st::allow_short | st::allow_dash_for_short | st::short_allow_next, st::allow_long | st::long_allow_adjacent};
    R.space("lists x positional declarations", T ? "every list of 0..4 of 12 tokens and 0..6 of 7, 58 positional declarations (counts 0..3, repeated names, trailing), 4 styles" : "every list of 0..3 of 12 tokens and 0..4 of 7, 58 positional declarations (counts 0..3, repeated names, trailing), 4 styles");
    for (size_t s = 0; s < sty.size(); ++s) for (size_t p = 0; p <= pds.size(); ++p) {
        Gram g = g0; g.style = sty[s]; if (p) { g.usepos = true; g.pos = pds[p - 1]; } 
        for (int un = 0; un < 2; ++un) {
            g.unreg = un;
            if (un || T) spaceX(R, g, al, 0, T ? 4 : 3, numbered); else spaceX(R, g, al, 0, 2, numbered);
            if (!un) spaceX(R, g, al5, T ? 5 : 3, T ? 6 : 4, numbered);
        }
    }
    if (!T) { R.space("longer lists", "every list of 0..5 of 7 tokens and 4 of 12, 6 positional declarations, default style");
        size_t k[6] = {0, 3, 7, 12, 20, pds.size() - 2};
        for (int i = 0; i < 6; ++i) { Gram g = g0; g.usepos = k[i] != 0; if (k[i]) g.pos = pds[k[i]]; spaceX(R, g, al5, 5, 5, numbered); spaceX(R, g, al, 4, 4, numbered); } }
    R.space("everything after the terminator", "'--' at every place 0..9 of every-token lists up to 10 long, after-tokens of 14 option-like shapes; also a second '--'");
    {
        Strs shapes = S({"--foo", "--foo=v", "-f", "-fv", "-g", "--", "--nope", "-x", "/g", "p", "", "--foo=", "-", "--opt"});
        for (size_t s = 0; s < sty.size(); ++s) for (int pd = 0; pd < 4; ++pd) {
            Gram g = g0; g.style = sty[s]; if (pd == 1) g.nopos(); if (pd == 2) g.p("one", 2).p("rest", -1); if (pd == 3) g.p("one", 3);
            Real real(g);
            for (int before = 0; before <= 3; ++before) sequences(shapes, 0, T ? 4 : 3, [&](const std::vector<int>& ix) {
                if (!R.begin()) return;
                Strs t; for (int k = 0; k < before; ++k) t.push_back(k == 1 ? "-g" : "p"); t.push_back("--");
                for (size_t k = 0; k < ix.size(); ++k) t.push_back(shapes[ix[k]]);
                step(R, real, t, numbered);
            });
        }
    }
    R.space("long lists", "repetitions of blocks of 1..3 of 6 tokens and one odd token at every place, lengths to 70 (boundary sizes to 300), counts to 70");
    {
        Strs pa = S({"p", "q", "-g", "--foo=v", "-", "--many=w"});
        for (int pd = 0; pd < 3; ++pd) {
            Gram g = g0; if (pd == 1) g.p("one", 2).p("rest", -1); if (pd == 2) g.p("one", 1).p("two", 30);
            periodicX(R, g, pa, T ? 3 : 2, T ? range(3, 70) : sizes(70), numbered);
            periodicX(R, g, pa, 1, sizes(300), numbered);
            needleX(R, g, S({"p"}), S({"-g", "--", "--foo", "--foo=v", "-x", "--opt", "-m"}), T ? range(1, 70) : sizes(70), numbered);
            needleX(R, g, S({"-g"}), S({"p", "--", "--foo"}), sizes(70), numbered);
        }
        for (int c = 0; c <= 70; ++c) for (int n = c > 3 ? c - 3 : 0; n <= c + 3; ++n) for (int tr = 0; tr < 3; ++tr) {
            Gram g = g0; g.p("one", c); if (tr == 1) g.p("rest", -1); if (tr == 2) g.p("two", 2);
            Real real(g);
            for (int x = 0; x < 3; ++x) { if (!R.begin()) continue; Strs t(n, "p"); for (int i = 0; i < n; ++i) t[i] += mc::num(i); if (x == 1) t.insert(t.begin() + n / 2, "--"); if (x == 2) t.insert(t.begin() + n / 2, "-g"); step(R, real, t, numbered); }
        }
        // counts beyond the sizes a narrow counter holds
        { static const int big[] = {100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 100000};
          for (size_t b = 0; b < sizeof big / sizeof *big; ++b) for (int tr = 0; tr < 3; ++tr) {
            int c = big[b]; if (R.begin()) { string key = "position name with count " + mc::num(c) + (tr == 1 ? " and a trailing name" : tr == 2 ? " in two parts" : "");
            po::positional_options_description pd; if (tr == 2) pd.add("one", c / 2).add("one", c - c / 2).add("two", 3); else pd.add("one", c).add("two", 3); if (tr == 1) pd.add("rest", -1); R.trace(); R.transitions(1); R.state(mc::hstr(key));
            unsigned tot = tr == 1 ? UINT_MAX : c + 3; if (pd.max_total_count() != tot) R.fail(key, "total " + mc::num(tot), mc::num(pd.max_total_count()));
            else { string h, w; for (int i = 0; i < c + 3; ++i) { const string& x = pd.name_for_position(i); if (x != (i < c ? "one" : "two")) { h = "position " + mc::num(i) + " is " + x; break; } } if (!h.empty()) R.fail(key, "the declared names", h); if (tr == 1 && pd.name_for_position(c + 1000) != "rest") R.fail(key, "rest", pd.name_for_position(c + 1000)); }
            R.end(mc::mix(c, tr)); }
            if (c > 1100) continue;
            Gram g = g0; if (tr == 2) g.p("one", c / 2).p("one", c - c / 2).p("two", 3); else g.p("one", c).p("two", 3); if (tr == 1) g.p("rest", -1); Real real(g);
            for (int n = c - 1; n <= c + 4; ++n) for (int x = 0; x < 3; ++x) { if (!R.begin()) continue; Strs t(n, "p"); for (int i = 0; i < n; ++i) t[i] += mc::num(i); if (x == 1) t.insert(t.begin() + n / 2, "--"); if (x == 2) t.insert(t.begin() + n - 1, "-g"); step(R, real, t, numbered); }
          } }
        // many declared names
        for (int c = 1; c <= 60; ++c) {
            Gram g = g0; for (int i = 0; i < c; ++i) g.p("n" + mc::num(i), 1 + (i % 3 == 2)); Real real(g);
            for (int n = 0; n <= c + c / 3 + 1; ++n) { if (!R.begin()) continue; Strs t(n, "p"); step(R, real, t, numbered); }
        }
    }
    R.space("stored positionals", "0..40 positionals stored into single, vector and trailing options");
    for (int n = 0; n <= 40; ++n) for (int pd = 0; pd < 3; ++pd) for (int dd = 0; dd <= 1; ++dd) {
        if (!R.begin()) continue;
        po::options_description d; d.add_options()("one", po::value<string>(), "")("rest", po::value<Strs>(), "")("foo", po::value<string>(), "");
        po::positional_options_description pos; pos.add("one", 1); if (pd == 0) pos.add("rest", -1); else if (pd == 1) pos.add("rest", 5); else pos.add("rest", n);
        Strs t, exp; for (int i = 0; i < n; ++i) { string s = "v" + mc::num(i * 7 % 41); t.push_back(s); if (i) exp.push_back(s); }
        if (dd) { t.insert(t.begin() + n / 2, "--foo"); t.insert(t.begin() + n / 2 + 1, "F"); }
        string w = "one=" + (n ? mc::q(string("v0")) : "") + " rest=" + mc::q(exp) + (dd ? " foo=F" : ""), h;
        if (pd == 1 && n > 6) w = "toomany";
        try {
            po::variables_map vm; po::store(po::command_line_parser(t).options(d).positional(pos).run(), vm);
            h = "one=" + (vm.count("one") ? mc::q(vm["one"].as<string>()) : "") + " rest=" + mc::q(vm.count("rest") ? vm["rest"].as<Strs>() : Strs()) + (vm.count("foo") ? " foo=" + vm["foo"].as<string>() : "");
        } catch (...) { Res r = current(); h = r.kind; }
        R.trace(); R.transitions(n);
        if (w != h) R.fail("store " + mc::num(n) + " positionals, declaration " + mc::num(pd) + (dd ? " with --foo F in the middle" : ""), w, h);
        R.end(mc::hstr(h));
    }
}
#endif

// -------------------------------------------------------------------------------------------- C05
#if PROP == 5
const char* mc::property = "C05";
static void conserved(Run& R, const Real& real, const Strs& t, const Res& got)
{
    if (got.err) return;
    Strs cat; string bad;
    for (size_t i = 0; i < got.opts.size(); ++i) cat.insert(cat.end(), got.opts[i].orig.begin(), got.opts[i].orig.end());
    bool ok = cat == t;
    for (size_t i = 0; !ok && i < t.size(); ++i) if (t[i] == "--") { Strs u = t; u.erase(u.begin() + i); if (u == cat) ok = true; }
    if (!ok) R.fail(real.g.str() + " args=" + mc::q(t), "original tokens " + mc::q(t) + " (less one \"--\")", mc::q(cat));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, conserved);
    Gram g; g.o("foo,f", "str").o("bar,b", "flag").o("cat,c", "flag").o("opt,o", "impl").o("many,m", "multi").o("two,t", "2-2").o("rng,r", "1-3");
    Strs al = S({"--foo", "--foo=v", "-fv", "-f", "p", "--bar", "-bc", "-bcfv", "-bcx", "--opt", "-ov", "-m", "--many=w", "-t", "--", "--rng", "-x", "-foo=v", "/foo=v", "/fv", "--nope=1", "-bar"});
    Strs sm = S({"--foo", "-fv", "p", "-bc", "-bcf", "--opt", "-m", "-t", "--", "-rng=v", "-x"});
    std::vector<int> sty = {0, UNIX | st::allow_long_disguise | st::allow_slash_for_short, UNIX & ~st::allow_sticky, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next | st::allow_guessing,
        st::allow_short | st::allow_dash_for_short | st::allow_slash_for_short | st::short_allow_next | st::short_allow_adjacent | st::allow_sticky, UNIX | st::case_insensitive};
    R.space("token lists", T ? "every list of 0..4 of 22 tokens and 0..6 of 11, 6 styles, with and without unregistered options" : "every list of 0..3 of 22 tokens and 4 of 11, 6 styles, with and without unregistered options; length 5 in 2 styles");
    for (size_t s = 0; s < sty.size(); ++s) for (int un = 0; un < 2; ++un) {
        Gram h = g; h.style = sty[s]; h.unreg = un;
        spaceX(R, h, al, 0, T ? 4 : 3, conserved);
        spaceX(R, h, sm, 4, T ? 6 : (un && s < 2 ? 5 : 4), conserved);
    }
    R.space("long lists", "repetitions of blocks of 1..3 of 10 tokens at boundary sizes to 70; one odd token at every place");
    {
        Strs pa = S({"--foo=v", "-bc", "p", "--opt", "-bcfv", "-m", "-x", "--nope=1", "-fw", "-bcx"});
        for (int k = 0; k < 2; ++k) { Gram h = g; h.style = sty[k]; h.unreg = true; periodicX(R, h, pa, T ? 3 : 2, T ? range(3, 70) : sizes(70), conserved); needleX(R, h, S({"p", "-bc", "--foo=v"}), S({"--", "-bcfv", "--opt", "-m", "-x", "--rng", "-t", "-bar"}), sizes(70), conserved); }
    }
    R.space("token content", "tokens carrying every byte and boundary lengths to 8300 in every token shape");
    {
        Strs v = specialValues(); std::vector<int> n = sizes(8300); for (size_t i = 0; i < n.size(); ++i) v.push_back(text(n[i]));
        Strs pre = S({"--foo=", "-f", "-bcf", "", "--", "-", "/", "-foo=", "/foo=", "--nope=", "-x", "-bcx", "-m", "--FOO="});
        for (size_t s = 0; s < sty.size(); ++s) for (int un = 0; un < 2; ++un) { Gram h = g; h.style = sty[s]; h.unreg = un; Real real(h);
            for (size_t i = 0; i < v.size(); ++i) for (size_t p = 0; p < pre.size(); ++p) for (int x = 0; x < 2; ++x) { if (!R.begin()) continue; Strs t; if (x) t.push_back("p"); t.push_back(pre[p] + v[i]); if (x) t.push_back("-b"); step(R, real, t, conserved); } }
    }
}
#endif

// -------------------------------------------------------------------------------------------- C06
#if PROP == 6
const char* mc::property = "C06";
// every successful parse respects every option's maximum and minimum
static void withinArity(Run& R, const Real& real, const Strs& t, const Res& got)
{
    if (got.err) return;
    for (size_t i = 0; i < got.opts.size(); ++i) {
        const ROpt& o = got.opts[i]; if (o.unreg || o.pos != -1) continue;
        for (size_t k = 0; k < real.g.opts.size(); ++k) if (real.g.opts[k].decl().find('*') == std::string::npos && keyOf(real.g.opts[k], o.key) == o.key)
            if (o.val.size() < real.g.opts[k].mn || o.val.size() > real.g.opts[k].mx)
                R.fail(real.g.str() + " args=" + mc::q(t), "between " + mc::num(real.g.opts[k].mn) + " and " + mc::num(real.g.opts[k].mx) + " values", got.str());
    }
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, withinArity);
    Strs ar = S({"flag", "str", "impl", "multi", "implmulti", "zeromulti", "2-2", "1-2", "0-2", "2-3", "3-5", "0-i", "2-i", "untyped", "switch", "0-0", "1-1"});
    Strs al = S({"--aa", "--aa=v", "-a", "-av", "p", "--bb", "--bb=w", "-b", "-bw", "--", "q", "--cc", "-c"});
    R.space("two options of every arity", T ? "every pair of 17 arities plus a flag, every list of 0..4 of 13 tokens, 2 styles" : "every pair of 17 arities plus a flag, every list of 0..3 of 13 tokens (4 of 13 for one of a kind), 2 styles");
    for (size_t x = 0; x < ar.size(); ++x) for (size_t y = 0; y < ar.size(); ++y) for (int s = 0; s < 2; ++s) {
        Gram g; g.o("aa,a", ar[x]).o("bb,b", ar[y]).o("cc,c", "flag"); g.style = s ? st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent : 0;
        spaceX(R, g, al, 0, T ? 4 : (x == y ? 4 : 3), withinArity);
    }
    R.space("counting", "each arity with 0..12 plain tokens before, between and after, attached value or not, interrupted by each of 7 tokens at each place");
    for (size_t x = 0; x < ar.size(); ++x) for (int s = 0; s < 3; ++s) {
        Gram g; g.o("aa,a", ar[x]).o("bb,b", "str").o("cc,c", "flag").o("dd", "multi"); g.style = s == 1 ? UNIX | st::allow_slash_for_short | st::allow_long_disguise : s == 2 ? st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent : 0;
        if (s == 1) g.p("bb", 1).p("dd", -1);
        Real real(g);
        Strs head = S({"--aa", "--aa=v", "-a", "-av", "-ca", "-cav"}), cut = S({"", "--bb", "-b", "-c", "--", "--dd", "-x", "--bb=w", "--aa", "/c"});
        for (size_t h = 0; h < head.size(); ++h) for (int n = 0; n <= 12; ++n) for (int before = 0; before < 2; ++before) for (size_t c = 0; c < cut.size(); ++c)
            for (int at = 0; at <= (cut[c].empty() ? 0 : n); ++at) for (int un = 0; un < 1; ++un) {
                if (!R.begin()) continue;
                Strs t; for (int i = 0; i < before; ++i) t.push_back("z" + mc::num(i)); t.push_back(head[h]);
                for (int i = 0; i < n; ++i) { if (!cut[c].empty() && i == at) t.push_back(cut[c]); t.push_back("p" + mc::num(i)); }
                if (!cut[c].empty() && at == n) t.push_back(cut[c]);
                step(R, real, t, withinArity);
            }
    }
    R.space("large arities", "custom minimum and maximum 0..20 each, with 0..22 tokens available; multi-token with up to 300 tokens");
    for (int a = 0; a <= 20; ++a) for (int b = a; b <= 20; ++b) {
        Gram g; g.o("aa,a", mc::num(a) + "-" + mc::num(b)).o("cc,c", "flag"); Real real(g);
        for (int n = 0; n <= 22; ++n) for (int adj = 0; adj < 2; ++adj) for (int tail = 0; tail < 3; ++tail) { if (!R.begin()) continue; Strs t(1, adj ? "--aa=v" : "--aa"); for (int i = 0; i < n; ++i) t.push_back("p" + mc::num(i)); if (tail == 1) t.push_back("-c"); if (tail == 2) t.push_back("--"); step(R, real, t, withinArity); }
    }
    { Strs kinds = S({"multi", "implmulti", "0-i", "2-i", "1-3", "zeromulti"}); std::vector<int> n = sizes(300);
      for (size_t k = 0; k < kinds.size(); ++k) { Gram g; g.o("aa,a", kinds[k]).o("cc,c", "flag"); Real real(g); for (size_t i = 0; i < n.size(); ++i) for (int x = 0; x < 4; ++x) { if (!R.begin()) continue; Strs t(1, x & 1 ? "-av" : "--aa"); for (int j = 0; j < n[i]; ++j) t.push_back("p" + mc::num(j)); if (x & 2) t.insert(t.begin() + 1 + n[i] / 2, "-c"); step(R, real, t, withinArity); } } }
    R.space("many options in a row", "repetitions of blocks of 1..3 of 8 tokens over 6 arities, boundary sizes to 70");
    { Gram g; g.o("aa,a", "str").o("bb,b", "impl").o("cc,c", "flag").o("dd,d", "multi").o("ee,e", "2-3").o("ff,f", "0-2"); Strs pa = S({"--aa=v", "-b", "-c", "--dd", "p", "-d", "--ff", "-bw"}); periodicX(R, g, pa, 3, T ? range(4, 70) : sizes(40), withinArity); Strs p2 = S({"--ee", "p", "q", "-c"}); periodicX(R, g, p2, T ? 5 : 4, sizes(40), withinArity); }
    R.space("what is stored", "every list of 0..4 of 8 tokens stored; values compared with declared meaning (implicit value when none is given)");
    {
        po::options_description d;
        d.add_options()("str,s", po::value<string>(), "")("imp,i", po::value<string>()->implicit_value("IMP"), "")("num,n", po::value<int>()->implicit_value(7), "")("multi,m", po::value<Strs>()->multitoken(), "")("flag,f", po::bool_switch(), "")("plain,p", "");
        Gram g; g.o("str,s", "str").o("imp,i", "impl").o("num,n", "impl").o("multi,m", "multi").o("flag,f", "switch").o("plain,p", "flag");
        Strs a = S({"--str=x", "-i", "--imp=y", "-n", "-n5", "-m", "t", "-fp"});
        sequences(a, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return;
            Strs t = pick(a, ix); string w, h;
            Model m(g, &R); Res e = m.parse(t);
            std::map<string, string> mp; 
            if (e.err) w = e.kind;
            else {
                std::map<string, Strs> multi; std::set<string> seen;
                for (size_t i = 0; i < e.opts.size() && w.empty(); ++i) {
                    const ROpt& o = e.opts[i]; if (o.key.empty()) continue;
                    bool once = true; string v;
                    if (o.key == "imp") { if (o.val.empty()) { v = "IMP"; once = false; } else v = o.val[0]; }
                    else if (o.key == "num") { if (o.val.empty()) { v = "7"; once = false; } else if (o.val[0].find_first_not_of("0123456789") != string::npos) { w = seen.count("num") ? "multiple_occurrences" : "bad_value"; break; } else v = o.val[0]; }
                    else if (o.key == "multi") { multi["multi"].insert(multi["multi"].end(), o.val.begin(), o.val.end()); mp["multi"] = mc::q(multi["multi"]); continue; }
                    else if (o.key == "flag") v = "1"; else if (o.key == "plain") v = ""; else v = o.val[0];
                    if (once && seen.count(o.key)) { w = "multiple_occurrences"; break; }
                    seen.insert(o.key); mp[o.key] = v;
                }
                if (w.empty()) { if (!mp.count("flag")) mp["flag"] = "0(def)"; for (std::map<string, string>::iterator i = mp.begin(); i != mp.end(); ++i) w += i->first + "=" + i->second + ";"; }
            }
            try {
                po::variables_map vm; po::store(po::command_line_parser(t).options(d).run(), vm);
                for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) {
                    h += i->first + "=";
                    if (i->first == "num") h += mc::num(i->second.as<int>()); else if (i->first == "multi") h += mc::q(i->second.as<Strs>()); else if (i->first == "flag") h += i->second.as<bool>() ? "1" : "0"; else h += i->second.as<string>();
                    if (i->second.defaulted()) h += "(def)"; h += ";";
                }
            } catch (...) { h = current().kind; }
            R.trace();
            if (w != h) R.fail("store " + mc::q(t), w, h);
            R.end(mc::hstr(h));
        });
    }
}
#endif

// -------------------------------------------------------------------------------------------- C07
#if PROP == 7
const char* mc::property = "C07";
static string vmStr(const po::variables_map& vm)
{
    string s;
    for (po::variables_map::const_iterator i = vm.begin(); i != vm.end(); ++i) {
        s += i->first + "=";
        if (const string* p = boost::any_cast<string>(&i->second.value())) s += mc::q(*p); else if (const Strs* p = boost::any_cast<Strs>(&i->second.value())) s += mc::q(*p); else s += "?";
        s += ";";
    }
    return s;
}
static void passed(Run& R, const Real& real, const Strs& t, const Res& got)
{
    if (got.err || !real.g.unreg) return;
    // collect_unrecognized, both modes, against the definition
    Strs w[2];
    for (size_t i = 0; i < got.opts.size(); ++i) {
        const ROpt& o = got.opts[i];
        if (o.unreg) w[0].insert(w[0].end(), o.orig.begin(), o.orig.end());
        if (o.unreg || o.pos != -1) w[1].insert(w[1].end(), o.orig.begin(), o.orig.end());
    }
    po::command_line_parser p(t); setup(p, real); po::parsed_options po_ = p.run();
    Strs h0 = po::collect_unrecognized(po_.options, po::exclude_positional), h1 = po::collect_unrecognized(po_.options, po::include_positional);
    if (h0 != w[0] || h1 != w[1]) { R.fail(real.g.str() + " collect args=" + mc::q(t), mc::q(w[0]) + " / " + mc::q(w[1]), mc::q(h0) + " / " + mc::q(h1)); return; }
    // the unregistered options do not influence what is stored
    string s[2];
    for (int k = 0; k < 2; ++k) {
        try {
            po::parsed_options q = po_; if (k) { q.options.clear(); for (size_t i = 0; i < po_.options.size(); ++i) if (!po_.options[i].unregistered) q.options.push_back(po_.options[i]); }
            po::variables_map vm; po::store(q, vm); s[k] = vmStr(vm);
            for (size_t i = 0; k == 0 && i < got.opts.size(); ++i) if (got.opts[i].unreg) for (po::variables_map::const_iterator j = vm.begin(); j != vm.end(); ++j) {
                bool decl = false; for (size_t n = 0; n < real.g.opts.size(); ++n) if (keyOf(real.g.opts[n], j->first) == j->first) decl = true;
                if (!decl) R.fail(real.g.str() + " store args=" + mc::q(t), "no entry for the unregistered option", s[0]);
            }
        } catch (...) { s[k] = current().kind; }
    }
    if (s[0] != s[1]) R.fail(real.g.str() + " store args=" + mc::q(t), s[1], s[0]);
}
// pass the collected tokens on to a second parser that knows them
static void relay(Run& R, const Strs& t, int style)
{
    // first parser knows --known/-k and -z, second knows the rest
    po::options_description d1, d2, all;
    d1.add_options()("known,k", po::value<string>(), "")("zap,z", "");
    d2.add_options()("other,o", po::value<string>(), "")("why,y", "")("multi,m", po::value<Strs>(), "");
    all.add(d1).add(d2);
    string a, b;
    try {
        po::parsed_options p1 = po::command_line_parser(t).options(d1).style(style).allow_unregistered().run();
        Strs restv = po::collect_unrecognized(p1.options, po::include_positional);
        po::variables_map v1; po::store(p1, v1);
        po::variables_map v2; po::store(po::command_line_parser(restv).options(d2).style(style).run(), v2);
        a = vmStr(v1) + "|" + vmStr(v2);
    } catch (...) { a = "error " + current().kind; }
    try {
        po::variables_map v; po::parsed_options p = po::command_line_parser(t).options(all).style(style).run(); po::store(p, v);
        po::variables_map v1, v2; string s1, s2;
        for (po::variables_map::const_iterator i = v.begin(); i != v.end(); ++i) { po::variables_map one; one.insert(*i); (i->first == "known" || i->first == "zap" ? s1 : s2) += vmStr(one); }
        b = s1 + "|" + s2;
    } catch (...) { b = "error " + current().kind; }
    if (a != b) R.fail("relay style=" + mc::num(style) + " args=" + mc::q(t), b, a);
    R.trace();
    R.end(mc::hstr(a));
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    corner(R, passed);
    Gram g; g.o("foo,f", "str").o("foobar", "str").o("bar,b", "flag").o("opt,o", "impl").o("many,m", "vec");
    Strs al = S({"--foo=v", "--nope", "--nope=1", "-x", "-xv", "p", "-f", "--foo", "--fo=v", "--foob=w", "-b", "-bx", "-bxv", "-xb", "--", "--opt", "--NOPE", "/x", "-nope=1", "--n", "--no=a=b", "--nope=", "-m"});
    Strs sm = S({"--foo=v", "--nope", "--nope=1", "-xv", "p", "-f", "-bx", "--", "--opt", "-xb"});
    std::vector<int> sty = {0, UNIX & ~st::allow_guessing, UNIX | st::allow_long_disguise | st::allow_slash_for_short, UNIX | st::case_insensitive, UNIX & ~st::allow_sticky, st::allow_long | st::long_allow_adjacent,
        st::allow_short | st::allow_dash_for_short | st::short_allow_next | st::short_allow_adjacent | st::allow_sticky, st::allow_long_disguise | st::long_allow_next | st::long_allow_adjacent, UNIX | st::allow_slash_for_short};
    R.space("mixed token lists", T ? "every list of 0..4 of 23 tokens and 5..6 of 10, 9 styles, unregistered allowed and not; positional declaration or none" : "every list of 0..3 of 23 tokens and 4 of 10, 9 styles, unregistered allowed and not; positional declaration or none");
    for (size_t s = 0; s < sty.size(); ++s) for (int k = 0; k < 3; ++k) {
        Gram h = g; h.style = sty[s]; h.unreg = k != 2; if (k == 1) h.p("foobar", 1).p("many", -1);
        spaceX(R, h, al, 0, T ? 4 : (k == 0 ? 3 : 2), passed);
        spaceX(R, h, sm, T ? 5 : k ? 3 : 4, T ? 6 : k == 1 ? 3 : 4, passed);
    }
    R.space("relay to a second parser", T ? "every list of 0..5 of 12 tokens without separate unknown values, 3 styles: two-stage parsing equals one-stage parsing" : "every list of 0..4 of 12 tokens without separate unknown values, 3 styles: two-stage parsing equals one-stage parsing");
    {
        Strs a = S({"--known=v", "-k", "-kw", "-z", "--other=x", "-oy", "-y", "--why", "-m1", "--multi=2", "-z", "--zap"});
        // "-k" needs a following token, which must not be an option: pair it
        int sy[3] = {UNIX & ~st::allow_guessing, (UNIX & ~st::allow_guessing) | st::long_case_insensitive, UNIX & ~st::allow_guessing & ~st::allow_sticky};
        for (int s = 0; s < 3; ++s) sequences(a, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return;
            Strs t; for (size_t i = 0; i < ix.size(); ++i) { t.push_back(a[ix[i]]); if (a[ix[i]] == "-k") t.push_back("sep"); }
            R.transitions(t.size());
            relay(R, t, sy[s]);
        });
    }
    R.space("long lists", "repetitions of blocks of 1..3 of 8 tokens, one odd token at every place, boundary sizes to 70");
    { Strs pa = S({"--nope=1", "-xv", "p", "--foo=v", "-bx", "--nope", "-b", "-m"}); pa.pop_back();
      for (int k = 0; k < 3; ++k) { Gram h = g; h.style = sty[k]; h.unreg = true; periodicX(R, h, pa, T ? 3 : 2, T ? range(3, 70) : sizes(70), passed); needleX(R, h, S({"--nope", "p", "-xv", "-b"}), S({"--nope=1", "--foo=v", "--", "-xb", "--foo", "p", "--opt"}), sizes(70), passed); } }
    R.space("unknown token content", "unknown tokens carrying every byte and boundary lengths to 300, in every shape, between known ones");
    { Strs v = specialValues(); std::vector<int> n = sizes(300); for (size_t i = 0; i < n.size(); ++i) if (n[i]) v.push_back(text(n[i]));
      Strs pre = S({"--nope=", "--no", "-x", "-bx", "/x", "-nope=", "--x-"});
      for (size_t s = 0; s < 4; ++s) { Gram h = g; h.style = sty[s]; h.unreg = true; Real real(h);
        for (size_t i = 0; i < v.size(); ++i) for (size_t p = 0; p < pre.size(); ++p) { if (!R.begin()) continue; Strs t; t.push_back("--foo=a"); t.push_back(pre[p] + v[i]); t.push_back("-b"); t.push_back("z"); step(R, real, t, passed); } } }
    R.space("wide form", "the same collection on wide parsed options, every list of 0..3 of 10 tokens");
    { Gram h = g; h.unreg = true; Real real(h);
      sequences(sm, 0, 3, [&](const std::vector<int>& ix) {
        if (!R.begin()) return; Strs t = pick(sm, ix); string a, b;
        try { po::command_line_parser p(t); setup(p, real); po::parsed_options r = p.run(); a = mc::q(po::collect_unrecognized(r.options, po::include_positional)) + mc::q(po::collect_unrecognized(r.options, po::exclude_positional)); } catch (...) { a = current().kind; }
        try { std::vector<std::wstring> w; for (size_t i = 0; i < t.size(); ++i) w.push_back(std::wstring(t[i].begin(), t[i].end())); po::basic_command_line_parser<wchar_t> p(w); p.options(real.desc); p.allow_unregistered(); po::wparsed_options r = p.run();
            std::vector<std::wstring> x = po::collect_unrecognized(r.options, po::include_positional), y = po::collect_unrecognized(r.options, po::exclude_positional); Strs xs, ys; for (size_t i = 0; i < x.size(); ++i) xs.push_back(string(x[i].begin(), x[i].end())); for (size_t i = 0; i < y.size(); ++i) ys.push_back(string(y[i].begin(), y[i].end())); b = mc::q(xs) + mc::q(ys); } catch (...) { b = current().kind; }
        R.trace(); R.transitions(t.size());
        if (a != b) R.fail("wide collect " + mc::q(t), a, b); R.end(mc::hstr(a)); }); }
    R.space("unregistered configuration entries", "collect_unrecognized over parsed configuration text: every list of 0..4 of 6 lines");
    { Strs a = S({"foo=v\n", "nope=1\n", "[s]\n", "x = a b \n", "bar=\n", "# c\n"});
      sequences(a, 0, 4, [&](const std::vector<int>& ix) {
        if (!R.begin()) return; string txt, sec; Strs w; for (size_t i = 0; i < ix.size(); ++i) { txt += a[ix[i]]; switch (ix[i]) { case 0: if (!sec.empty()) { w.push_back(sec + "foo"); w.push_back("v"); } break; case 1: w.push_back(sec + "nope"); w.push_back("1"); break; case 2: sec = "s."; break; case 3: w.push_back(sec + "x"); w.push_back("a b"); break; case 4: if (!sec.empty()) { w.push_back(sec + "bar"); w.push_back(""); } break; } }
        Real real(g); Strs h; try { std::istringstream is(txt); po::parsed_options r = po::parse_config_file(is, real.desc, true); h = po::collect_unrecognized(r.options, po::include_positional); } catch (...) { h = Strs(1, current().str()); }
        R.trace(); R.transitions(ix.size());
        if (w != h) R.fail("config " + mc::q(txt), mc::q(w), mc::q(h)); R.end(mc::hstr(mc::q(h))); }); }
}
#endif
