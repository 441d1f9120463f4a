// Reference model of configuration texts and the environment.
#ifndef CFGMODEL_HPP
#define CFGMODEL_HPP
#include "cmdspaces.hpp"
#include <fstream>
namespace cm {
inline bool blank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
inline string trim(string s)
{
    while (!s.empty() && blank(s[s.size() - 1])) s.erase(s.size() - 1);
    size_t i = 0; while (i < s.size() && blank(s[i])) ++i;
    return s.substr(i);
}
inline Strs linesOf(const string& text)
{   // pieces ended by a newline, plus a last piece without one when it is not empty
    Strs r; string cur; for (size_t i = 0; i < text.size(); ++i) { if (text[i] == '\n') { r.push_back(cur); cur.clear(); } else cur += text[i]; }
    if (!cur.empty()) r.push_back(cur);
    return r;
}
struct Names {                     // declared names, wildcards end in '*'
    Strs names;
    // 1 declared, 0 not, -1 not asserted (exactly the prefix of a wildcard)
    int allowed(const string& n) const
    {
        bool edge = false;
        for (size_t i = 0; i < names.size(); ++i) {
            const string& d = names[i];
            if (d == n) return 1;
            if (!d.empty() && d[d.size() - 1] == '*') { string p = d.substr(0, d.size() - 1); if (starts(n, p)) { if (n.size() > p.size()) return 1; edge = true; } }
        }
        return edge ? -1 : 0;
    }
};
struct CfgModel {
    Names nm; bool unreg; mc::Run* R; u64 gh; bool unsure;
    CfgModel(const Strs& n, bool u, mc::Run* r = 0, u64 h = 0) : unreg(u), R(r), gh(h), unsure(false) { nm.names = n; }
    Res parse(const string& text)
    {
        Res res; string section; Strs ls = linesOf(text); u64 h = gh; unsure = false;
        for (size_t i = 0; i < ls.size(); ++i) {
            string l = ls[i];
            if (R) { R->state(h); R->transitions(1); h = mc::mix(h, mc::hstr(l)); }
            size_t c = l.find('#'); if (c != string::npos) l.erase(c);
            l = trim(l);
            if (l.empty()) continue;
            size_t n = l.size();
            if (n >= 2 && l[0] == '[' && l[n - 1] == ']') { section = l.substr(1, n - 2); if (section.empty() || section[section.size() - 1] != '.') section += "."; continue; }
            size_t e = l.find('=');
            if (e == string::npos) { Res r; r.err = true; r.kind = "config-syntax:line"; r.what = "the options configuration file contains an invalid line '" + l + "'"; return r; }
            ROpt o; o.key = section + trim(l.substr(0, e)); o.val.push_back(trim(l.substr(e + 1))); o.orig.push_back(o.key); o.orig.push_back(o.val[0]);
            int a = nm.allowed(o.key);
            if (a < 0) { unsure = true; return res; }
            if (!a) { if (!unreg) { Res r; r.err = true; r.kind = "unknown"; r.what = o.key.empty() ? "unrecognised option" : "unrecognised option '" + o.key + "'"; r.name = o.key; return r; } o.unreg = true; }
            res.opts.push_back(o);
        }
        if (R) R->state(h);
        return res;
    }
};
inline void declare(po::options_description& d, const Strs& names) { for (size_t i = 0; i < names.size(); ++i) d.add_options()(names[i].c_str(), po::value<string>(), ""); }
inline Res parseCfg(const string& text, const po::options_description& d, bool unreg)
{
    try { std::istringstream is(text); po::parsed_options p = po::parse_config_file(is, d, unreg); Res r = toRes(p); if (p.description != &d) { r.err = true; r.kind = "description lost"; } return r; }
    catch (...) { return current(); }
}
inline bool checkCfg(mc::Run& R, const po::options_description& d, const Strs& names, bool unreg, const string& text, Res* got = 0)
{
    CfgModel m(names, unreg, &R, mc::mix(unreg, names.size())); Res w = m.parse(text), x = parseCfg(text, d, unreg);
    R.trace(); if (got) *got = x;
    w.what = w.what.c_str();          // what() is a C string
    if (m.unsure) return true;
    if (!(w == x)) { R.fail("declared " + mc::q(names) + (unreg ? " unregistered allowed" : "") + " text " + mc::q(text), w.str(), x.str()); return false; }
    if (R.want_sample()) R.sample("declared " + mc::q(names) + " text " + mc::q(text) + " -> " + x.str());
    return true;
}
template<class F> inline void texts(const string& letters, int lo, int hi, F f)
{
    for (int n = lo; n <= hi; ++n) {
        std::vector<int> ix(n, 0); string s(n, letters[0]);
        for (;;) { f(s); int k = n - 1; while (k >= 0 && ++ix[k] == (int)letters.size()) { ix[k] = 0; s[k] = letters[0]; --k; } if (k < 0) break; s[k] = letters[ix[k]]; }
    }
}
} // namespace cm
#endif
