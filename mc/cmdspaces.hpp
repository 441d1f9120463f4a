// Space builders shared by the command line harnesses.
#ifndef CMDSPACES_HPP
#define CMDSPACES_HPP
#include "cmdmodel.hpp"
namespace cm {

// every combination of the given flags or-ed to `base`, keeping valid styles only
inline bool validStyle(int s)
{
    bool l = (s & st::allow_long) || (s & st::allow_long_disguise);
    if (l && !(s & (st::long_allow_adjacent | st::long_allow_next))) return false;
    if ((s & st::allow_short) && !(s & (st::short_allow_adjacent | st::short_allow_next))) return false;
    if ((s & st::allow_short) && !(s & (st::allow_dash_for_short | st::allow_slash_for_short))) return false;
    return true;
}
inline std::vector<int> styles(int base, const std::vector<int>& flags)
{
    std::vector<int> r;
    for (unsigned m = 0; m < (1u << flags.size()); ++m) {
        int s = base; for (size_t i = 0; i < flags.size(); ++i) if (m >> i & 1) s |= flags[i];
        if (s && validStyle(s)) r.push_back(s);
    }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
// every sequence that repeats a block of length <= maxPeriod, at the given lengths
template<class F> inline void periodicWith(const Strs& alpha, int maxPeriod, const std::vector<int>& lens, F f)
{
    sequences(alpha, 1, maxPeriod, [&](const std::vector<int>& ix) {
        for (size_t l = 0; l < lens.size(); ++l) {
            if (lens[l] <= (int)ix.size()) continue;
            Strs t; t.reserve(lens[l]);
            f(ix, lens[l]);
        }
    });
}
inline std::vector<int> range(int a, int b, int step = 1) { std::vector<int> r; for (int i = a; i <= b; i += step) r.push_back(i); return r; }
// sizes around every power of two and every small number
inline std::vector<int> sizes(int upto)
{
    std::vector<int> r;
    for (int i = 0; i <= upto; ++i) {
        bool k = i <= 20; for (int p = 16; p <= 4096; p *= 2) if (i >= p - 2 && i <= p + 2) k = true;
        if (i % 10 <= 1) k = k || i <= 130; if (i % 100 <= 1) k = true;
        if (k) r.push_back(i);
    }
    return r;
}
inline Strs repeat(const Strs& alpha, const std::vector<int>& ix, int n) { Strs t(n); for (int i = 0; i < n; ++i) t[i] = alpha[ix[i % ix.size()]]; return t; }

typedef std::function<void(mc::Run&, const Real&, const Strs&, const Res&)> Extra;   // additional oracle on one case

inline void step(mc::Run& Rn, const Real& real, const Strs& t, const Extra& ex)
{
    Res got;
    if (compare(Rn, real, t, TokParser(), &got)) { if (ex) ex(Rn, real, t, got); Rn.end(got.hash()); }
    else Rn.end(0);
}
inline void spaceX(mc::Run& Rn, const Gram& g, const Strs& alpha, int lo, int hi, const Extra& ex)
{
    Real real(g);
    sequences(alpha, lo, hi, [&](const std::vector<int>& ix) { if (Rn.begin()) step(Rn, real, pick(alpha, ix), ex); });
}
inline void periodicX(mc::Run& Rn, const Gram& g, const Strs& alpha, int maxPeriod, const std::vector<int>& lens, const Extra& ex)
{
    Real real(g);
    periodicWith(alpha, maxPeriod, lens, [&](const std::vector<int>& ix, int n) { if (Rn.begin()) step(Rn, real, repeat(alpha, ix, n), ex); });
}
// a long run of one token with one different token at every place in it
inline void needleX(mc::Run& Rn, const Gram& g, const Strs& hay, const Strs& needles, const std::vector<int>& lens, const Extra& ex)
{
    Real real(g);
    for (size_t h = 0; h < hay.size(); ++h) for (size_t l = 0; l < lens.size(); ++l) for (size_t n = 0; n < needles.size(); ++n)
        for (int at = 0; at < lens[l]; ++at) {
            if (!Rn.begin()) continue;
            Strs t(lens[l], hay[h]); t[at] = needles[n];
            step(Rn, real, t, ex);
        }
}
inline string rep(const string& unit, size_t n) { string s; while (s.size() < n) s += unit; s.resize(n); return s; }
// text of length n without two equal neighbours and without a short period, so that lost or doubled pieces show
inline string text(size_t n, const string& letters = "abcdefghijklmnopqrstuvwxyz")
{
    string s; unsigned x = 7; for (size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s += letters[(x >> 16) % letters.size()]; } return s;
}

// ---- a space shared by all command line checks: corner-case tokens that no single property asks for, over a
// grammar with every arity, an alias, a wildcard, a common stem and a short-only option
inline Strs cornerTokens()
{
    const char* a[] = {"", "-", "--", "---", "=", "--=", "--=x", "-=", "-=x", "/", "/=", "//", "/-", "p", "v=1", " ", "--aa", "--aa=", "--aa=v", "--aa=v=w", "--aa==", "--aa= ", "-a", "-av", "-a=v", "-a=", "-a ", "-a:v", "-b", "-ba", "-bav", "-bx",
        "-bb", "-b=", "-b-", "-c", "-cv", "--many", "-m", "--ma=", "-mw", "/a", "/av", "/a=v", "/a:v", "-aa", "-aa=v=w", "/aa=v", "-aa=", "-AA=v", "--AA=v", "--A", "-A", "-B", "--nope", "--nope=x=y", "--nope=", "-x", "-x=", "--wild", "--wildx=1", "--two", "--rng=1", "--al2=q",
        "--aab=1", "--cc", "--cc=", "--flag=1", "-fl", "--many=", "-q", "-qv", "/q", "--two=1", "\xc3\xa9", "-\xc3\xa9", "--\xc3\xa9=\xff", "@x"};
    return Strs(a, a + sizeof a / sizeof *a);
}
inline Gram cornerGram(int v)
{
    Gram g; g.o("aa,a", "str").o("aab,al2", "str").o("flag,b", "flag").o("cc,c", "impl").o("many,m", "multi").o("wild*", "str").o("two,t", "2-2").o("rng,r", "1-3").o(",q", "str").o("opt,o", "0-2");
    if (v == 1) g.p("aa", 1).p("many", -1);
    if (v == 2) g.p("flag", 2);
    return g;
}
inline void corner(mc::Run& R, const Extra& ex, bool lists3 = true)
{
    const int U = st::unix_style, SH = st::allow_short | st::short_allow_next | st::short_allow_adjacent;
    int sty[] = {0, U & ~st::allow_guessing, U & ~st::allow_sticky, U | st::case_insensitive, U | st::allow_slash_for_short, U | st::allow_long_disguise | st::allow_slash_for_short | st::case_insensitive,
        SH | st::allow_dash_for_short, SH | st::allow_slash_for_short | st::allow_sticky, st::allow_long | st::long_allow_adjacent, st::allow_long | st::long_allow_next | st::allow_guessing, st::allow_long_disguise | st::long_allow_adjacent | st::long_allow_next,
        st::allow_long_disguise | st::long_allow_next | st::allow_slash_for_short | st::allow_guessing, SH | st::allow_dash_for_short | st::allow_slash_for_short | st::allow_sticky | st::short_case_insensitive, U | st::allow_long_disguise};
    Strs al = cornerTokens(), sm; const char* s3[] = {"", "-", "--", "p", "=", "--aa", "--aa=v", "-a", "-bav", "-cv", "--many", "-m", "--opt", "-b", "--two", "/a", "-aa=v", "-x", "--rng=1", "-o1"};
    sm.assign(s3, s3 + sizeof s3 / sizeof *s3);
    R.space("corner tokens", "every list of 0..2 of 79 corner-case tokens (empty, bare prefixes, '=' everywhere, non-ASCII) and 3 of 20 (thorough: 3 of 79 and 4 of 20), 14 styles, with and without unregistered options, 3 positional declarations");
    for (size_t s = 0; s < sizeof sty / sizeof *sty; ++s) for (int un = 0; un < 2; ++un) for (int v = 0; v < 3; ++v) {
        Gram g = cornerGram(v); g.style = sty[s]; g.unreg = un;
        spaceX(R, g, al, 0, R.thorough ? 3 : 2, ex);
        if (lists3) spaceX(R, g, sm, R.thorough ? 4 : 3, R.thorough ? 4 : 3, ex);
    }
}
} // namespace cm
#endif
