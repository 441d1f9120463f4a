// Reference layout of help output.
#ifndef HELPMODEL_HPP
#define HELPMODEL_HPP
#include "cmdspaces.hpp"
namespace cm {
struct HOpt { string names, param, desc; };                       // param: displayed parameter, empty for none
struct HGroup { string caption; unsigned L, m; std::vector<HOpt> own; std::vector<HGroup> sub; HGroup(const string& c = "", unsigned l = 80, unsigned mm = 40) : caption(c), L(l), m(mm) {} };
inline string displayed(const HOpt& o)
{
    Strs p; string c; for (size_t i = 0; i <= o.names.size(); ++i) if (i == o.names.size() || o.names[i] == ',') { p.push_back(c); c.clear(); } else c += o.names[i];
    string s; if (p.size() > 1 && p.back().size() == 1) { s = "-" + p.back(); p.pop_back(); if (p.size() == 1 && p[0].empty()) p.clear(); }
    string n = s.empty() ? "--" + p[0] : p.empty() ? s : s + " [ --" + p[0] + " ]";
    return "  " + n + " " + o.param;
}
inline unsigned column(const HGroup& g)
{
    size_t w = 23;
    for (size_t i = 0; i < g.own.size(); ++i) w = std::max(w, displayed(g.own[i]).size());
    for (size_t i = 0; i < g.sub.size(); ++i) { w = std::max<size_t>(w, column(g.sub[i])); }
    return (unsigned)std::min<size_t>(w, g.L - g.m - 1) + 1;
}
// one paragraph as lines (without the common indent); false: more than one tab
inline bool wrap(string p, unsigned avail, Strs& lines)
{
    size_t tab = p.find('\t'), hang = 0;
    if (tab != string::npos) { p.erase(tab, 1); if (p.find('\t') != string::npos) return false; if (tab < avail) hang = tab; }
    if (p.size() <= avail && p.size() < avail) { lines.push_back(p); return true; }
    size_t pos = 0; unsigned room = avail;
    for (bool first = true; pos < p.size(); first = false) {
        if (!first && p[pos] == ' ' && pos + 1 < p.size() && p[pos + 1] != ' ') ++pos;
        size_t end = std::min<size_t>(p.size(), pos + room);
        if (end < p.size() && p[end] != ' ' && p[end - 1] != ' ') { size_t s = p.rfind(' ', end - 1); if (s != string::npos && s >= pos && end - s - 1 < room / 2) end = s + 1; }
        lines.push_back((first ? string() : string(hang, ' ')) + p.substr(pos, end - pos));
        if (first) room -= (unsigned)hang;
        pos = end;
    }
    return true;
}
inline bool layoutDesc(const string& d, unsigned avail, Strs& lines)
{
    string par; for (size_t i = 0; i <= d.size(); ++i) if (i == d.size() || d[i] == '\n') { if (!wrap(par, avail, lines)) return false; par.clear(); } else par += d[i];
    return true;
}
inline bool layoutOpt(const HOpt& o, unsigned col, unsigned L, string& out)
{
    string c = displayed(o); out += c;
    if (!o.desc.empty()) {
        out += c.size() >= col ? "\n" + string(col, ' ') : string(col - c.size(), ' ');
        Strs l; if (!layoutDesc(o.desc, L - 1 - col, l)) return false;
        for (size_t i = 0; i < l.size(); ++i) out += (i ? "\n" + string(col, ' ') : "") + l[i];
    }
    out += "\n"; return true;
}
inline bool layout(const HGroup& g, unsigned col, string& out)
{
    if (!g.caption.empty()) out += g.caption + ":\n";
    for (size_t i = 0; i < g.own.size(); ++i) if (!layoutOpt(g.own[i], col, g.L, out)) return false;
    for (size_t i = 0; i < g.sub.size(); ++i) { out += "\n"; if (!layout(g.sub[i], col, out)) return false; }
    return true;
}
inline string help(const HGroup& g, unsigned width = 0) { string s; return layout(g, width ? width : column(g), s) ? s : "error"; }
inline string printed(const po::options_description& d, unsigned width = 0)
{
    try { std::ostringstream o; if (width) d.print(o, width); else o << d; return o.str(); } catch (const po::error& e) { return "error"; } catch (const std::exception& e) { return string("unexpected ") + e.what(); }
}
inline void declareH(po::options_description& d, const HOpt& o) { if (o.param.empty()) d.add_options()(o.names.c_str(), o.desc.c_str()); else d.add_options()(o.names.c_str(), po::value<string>()->value_name(o.param), o.desc.c_str()); }

// the property itself, on a text that claims to be the help line(s) of one option; empty if it holds
inline string helpInvariant(const string& text, const HOpt& o, unsigned col, unsigned L)
{
    const string& d = o.desc; string c = displayed(o);
    if (text.compare(0, c.size(), c) || text.empty() || text[text.size() - 1] != '\n') return "names and parameter are not shown as declared";
    string t = text.substr(c.size(), text.size() - c.size() - 1);
    if (d.empty()) return t.empty() ? "" : "text after an option without description";
    unsigned avail = L - 1 - col;
    Strs lines; string cur; for (size_t i = 0; i <= t.size(); ++i) if (i == t.size() || t[i] == '\n') { lines.push_back(cur); cur.clear(); } else cur += t[i];
    if (c.size() >= col) { if (!lines[0].empty()) return "long names are followed by text on the same line"; lines.erase(lines.begin()); if (lines.empty()) return "description missing"; }
    else lines[0] = string(c.size(), ' ') + lines[0];
    for (size_t i = 0; i < lines.size(); ++i) {
        if (lines[i].size() > L) return "line wider than the line length";
        if (lines[i].substr(0, col).find_first_not_of(' ') != string::npos || lines[i].size() < col) return "line does not start in the description column";
        lines[i].erase(0, col);
    }
    // paragraphs: consume lines; every paragraph must end at a line end
    string par; std::vector<string> pars; for (size_t i = 0; i <= d.size(); ++i) if (i == d.size() || d[i] == '\n') { pars.push_back(par); par.clear(); } else par += d[i];
    string why; std::function<bool(size_t, size_t)> match = [&](size_t k, size_t li) -> bool {
        if (k == pars.size()) { if (li == lines.size()) return true; why = "extra lines"; return false; }
        string p = pars[k]; size_t tab = p.find('\t'), hang = 0; if (tab != string::npos) { p.erase(tab, 1); if (tab < avail) hang = tab; }
        string want; for (size_t i = 0; i < p.size(); ++i) if (p[i] != ' ') want += p[i];
        string got; size_t first = li; std::set<size_t> breaks;
        do {
            if (li >= lines.size()) { why = "text missing at the end"; return false; }
            string l = lines[li]; bool ink = l.find_first_not_of(' ') != string::npos, twice = p.find("  ") != string::npos;
            if (li > first) {
                if (l.substr(0, hang).find_first_not_of(' ') != string::npos) { why = "hanging indent not kept"; return false; }
                if (l.size() > hang && l[hang] == ' ' && !twice && ink) { why = "wrapped line indented too far"; return false; }
            } else if (!p.empty() && p[0] == ' ' && p.size() <= avail && l.compare(0, 1, " ")) { why = "leading blanks of a paragraph lost"; return false; }
            bool inword = false; for (size_t i = 0; i < l.size(); ++i) { if (l[i] == ' ') inword = false; else { if (!inword) breaks.insert(got.size()); inword = true; got += l[i]; } }
            ++li;
        } while (got.size() < want.size());
        if (got != want) { why = "text of a paragraph changed, lost or joined with the next"; return false; }
        size_t n = 0; for (size_t i = 0; i < p.size(); ++i) { if (p[i] == ' ') continue; size_t b = i; while (i < p.size() && p[i] != ' ') ++i; size_t w = i - b; if (!breaks.count(n)) { why = "two words joined"; return false; } for (size_t x = n + 1; x < n + w; ++x) if (breaks.count(x) && w < (avail - hang) / 2) { why = "short word split"; return false; } n += w; }
        // lines of blanks may follow a paragraph that was wrapped
        for (;;) { if (match(k + 1, li)) return true; if (p.size() < avail || li >= lines.size() || lines[li].find_first_not_of(' ') != string::npos) return false; ++li; }
    };
    return match(0, 0) ? "" : why;
}
}
#endif
