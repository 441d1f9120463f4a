// Reference model of command line parsing, plus an adapter to the real library.
// The model works on plain strings and vectors and states the rules one by one; it shares no code
// with the library.
#ifndef CMDMODEL_HPP
#define CMDMODEL_HPP
#include "mc.hpp"
#include <boost/program_options.hpp>
#include <climits>

namespace cm {
namespace po = boost::program_options;
namespace st = boost::program_options::command_line_style;
using mc::u64;
typedef std::vector<std::string> Strs;
using std::string;

const unsigned INF = UINT_MAX;

// ------------------------------------------------------------------ grammar
struct Opt {
    Strs longs; char shrt; unsigned mn, mx; string sem;   // sem selects the real value_semantic
    string decl() const { string s; for (size_t i = 0; i < longs.size(); ++i) { if (i) s += ','; s += longs[i]; } if (shrt) { s += ','; s += shrt; } return s; }
};
inline Opt opt(const string& names, const string& sem)
{   // names "long,alias,c" as in a declaration
    Opt o; o.shrt = 0; o.sem = sem; o.mn = 1; o.mx = 1;
    std::stringstream ss(names); string t; Strs v; while (std::getline(ss, t, ',')) v.push_back(t);
    if (v.size() > 1 && v.back().size() == 1) { o.shrt = v.back()[0]; v.pop_back(); if (v.size() == 1 && v[0].empty()) v.clear(); }
    o.longs = v;
    if (sem == "flag" || sem == "switch") { o.mn = 0; o.mx = 0; }
    else if (sem == "str" || sem == "vec" || sem == "untyped") { o.mn = 1; o.mx = 1; }
    else if (sem == "impl") { o.mn = 0; o.mx = 1; }
    else if (sem == "multi") { o.mn = 1; o.mx = INF; }
    else if (sem == "implmulti" || sem == "zeromulti") { o.mn = 0; o.mx = INF; }
    else { // "MIN-MAX" custom arity
        o.mn = (unsigned)strtoul(sem.c_str(), 0, 10); o.mx = sem[sem.find('-') + 1] == 'i' ? INF : (unsigned)strtoul(sem.c_str() + sem.find('-') + 1, 0, 10); }
    return o;
}
struct Gram {
    std::vector<Opt> opts; bool usepos; std::vector<std::pair<string, int> > pos; int style; bool unreg;
    Gram() : usepos(false), style(0), unreg(false) {}
    Gram& o(const string& n, const string& s) { opts.push_back(opt(n, s)); return *this; }
    Gram& p(const string& n, int c) { usepos = true; pos.push_back(std::make_pair(n, c)); return *this; }
    Gram& nopos() { usepos = true; return *this; }
    string str() const
    {
        std::ostringstream s; s << "{";
        for (size_t i = 0; i < opts.size(); ++i) s << (i ? " " : "") << "(" << opts[i].decl() << ":" << opts[i].sem << ")";
        if (usepos) { s << " pos["; for (size_t i = 0; i < pos.size(); ++i) s << (i ? "," : "") << pos[i].first << "*" << pos[i].second; s << "]"; }
        s << " style=" << style << (unreg ? " unreg" : "") << "}";
        return s.str();
    }
    u64 hash() const { return mc::hstr(str()); }
};

// ------------------------------------------------------------------ results
struct ROpt {
    string key; int pos; Strs val, orig; bool unreg, ci;
    ROpt() : pos(-1), unreg(false), ci(false) {}
    bool operator==(const ROpt& b) const { return key == b.key && pos == b.pos && val == b.val && orig == b.orig && unreg == b.unreg && ci == b.ci; }
    string str() const { std::ostringstream s; s << "{" << mc::q(key) << " pos=" << pos << " val=" << mc::q(val) << " orig=" << mc::q(orig) << (unreg ? " unreg" : "") << (ci ? " ci" : "") << "}"; return s.str(); }
};
struct Res {
    bool err; string kind, what, name; Strs alts; std::vector<ROpt> opts; int prefix;
    Res() : err(false), prefix(0) {}
    static Strs sorted(Strs v) { std::sort(v.begin(), v.end()); return v; }
    bool operator==(const Res& b) const
    {
        if (err != b.err) return false;
        if (err) return kind == b.kind && !strcmp(what.c_str(), b.what.c_str()) /* what() ends at a zero byte */ && (alts == b.alts || sorted(alts) == sorted(b.alts));
        return opts == b.opts && prefix == b.prefix;
    }
    string str() const
    {
        if (err) return "error " + kind + " " + mc::q(what) + (alts.empty() ? "" : " alternatives=" + mc::q(alts));
        string s = "ok["; for (size_t i = 0; i < opts.size(); ++i) s += (i ? " " : "") + opts[i].str(); return s + "] prefix=" + mc::num(prefix);
    }
    u64 hash() const
    {
        u64 h = err;
        if (err) { h = mc::mix(h, mc::hstr(kind)); return mc::mix(h, mc::hstr(what)); }
        for (size_t i = 0; i < opts.size(); ++i) {
            const ROpt& o = opts[i]; h = mc::mix(h, mc::hstr(o.key)); h = mc::mix(h, o.pos * 4 + o.unreg * 2 + o.ci);
            for (size_t k = 0; k < o.val.size(); ++k) h = mc::mix(h, mc::hstr(o.val[k]));
            h = mc::mix(h, 77);
            for (size_t k = 0; k < o.orig.size(); ++k) h = mc::mix(h, mc::hstr(o.orig[k]));
        }
        return h;
    }
};
struct Error { Res r; };

// ------------------------------------------------------------------ model
inline string lower(const string& s) { string r = s; for (size_t i = 0; i < r.size(); ++i) if (r[i] >= 'A' && r[i] <= 'Z') r[i] = char(r[i] + 32); return r; }
inline bool starts(const string& s, const string& p) { return s.size() >= p.size() && s.compare(0, p.size(), p) == 0; }
inline string strip(const string& s) { size_t i = 0; while (i < s.size() && (s[i] == '-' || s[i] == '/')) ++i; return i == s.size() ? s : s.substr(i); }

// what an option calls itself when it was found under `typed`
inline string keyOf(const Opt& o, const string& typed)
{
    if (o.longs.empty()) return string("-") + o.shrt;
    if (o.longs[0].find('*') != string::npos) return typed;
    return o.longs[0];
}
enum { NONE = -1, AMBIG = -2 };
// resolve a name among the declared options; alts receives the keys of the tied options
inline int resolve(const std::vector<Opt>& os, const string& name, bool approx, bool lci, bool sci, Strs* alts = 0)
{
    std::vector<int> exact, near;
    const string ln = lci ? lower(name) : name, sn = sci ? lower(name) : name;
    for (size_t i = 0; i < os.size(); ++i) {
        bool e = false, a = false;
        for (size_t k = 0; k < os[i].longs.size(); ++k) {
            string l = lci ? lower(os[i].longs[k]) : os[i].longs[k];
            if (l.empty()) continue;
            if (l == ln) e = true;
            if (l[l.size() - 1] == '*' && starts(ln, l.substr(0, l.size() - 1))) a = true;
            if (approx && starts(l, ln)) a = true;
        }
        if (os[i].shrt) { string s = string("-") + os[i].shrt; if ((sci ? lower(s) : s) == sn) e = true; }
        if (e) exact.push_back((int)i); else if (a) near.push_back((int)i);
    }
    const std::vector<int>& w = exact.empty() ? near : exact;
    if (w.empty()) return NONE;
    if (w.size() == 1) return w[0];
    if (alts) { alts->clear(); for (size_t i = 0; i < w.size(); ++i) alts->push_back(keyOf(os[w[i]], name)); }
    return AMBIG;
}

// a custom parser for single tokens: token -> (name, value); empty name = declined
typedef std::function<std::pair<string, string>(const string&)> TokParser;

// a custom parser for token lists: may remove tokens at the front and return options
typedef std::function<void(Strs&, std::vector<ROpt>&)> ListParser;

struct Model {
    const Gram& g; int style; TokParser extra; ListParser sp; mc::Run* R; u64 gh;
    std::vector<string> offered;   // every token shown to the custom parser
    Model(const Gram& g, mc::Run* R = 0, u64 gh = 0) : g(g), style(g.style ? g.style : (int)st::unix_style), R(R), gh(gh) {}
    bool on(int f) const { return (style & f) != 0; }
    int prefix() const
    {
        if (on(st::allow_long)) return st::allow_long;
        if (on(st::allow_long_disguise)) return st::allow_long_disguise;
        if (on(st::allow_short) && on(st::allow_dash_for_short)) return st::allow_dash_for_short;
        if (on(st::allow_short) && on(st::allow_slash_for_short)) return st::allow_slash_for_short;
        return 0;
    }
    string pfx() const { int p = prefix(); return p == st::allow_long ? "--" : p == st::allow_slash_for_short ? "/" : p == 0 ? "" : "-"; }
    // the way messages name an option
    string canon(const string& key, const string& tok) const
    {
        if (key.empty()) return tok;
        int p = prefix();
        if (p == st::allow_long || p == st::allow_long_disguise) return pfx() + strip(key);
        if (p && !strip(tok).empty()) return pfx() + strip(tok)[0];
        return strip(key);
    }
    void syntax(const string& kind, const string& key, const string& tok) const
    {
        Error e; e.r.err = true; e.r.kind = "syntax:" + kind; e.r.name = canon(key, tok);
        string n = canon(key, tok), o = n.empty() ? "option" : "option '" + n + "'";
        if (kind == "empty") e.r.what = "the argument for " + o + " should follow immediately after the equal sign";
        if (kind == "missing") e.r.what = "the required argument for " + o + " is missing";
        if (kind == "extra") e.r.what = o + " does not take any arguments";
        throw e;
    }
    void ambiguous(const Strs& alts, const string& tok) const
    {
        Error e; e.r.err = true; e.r.kind = "ambiguous"; e.r.alts = alts; e.r.name = tok;
        string w = tok.empty() ? "option is ambiguous" : "option '" + tok + "' is ambiguous"; int p = prefix();
        if (p != st::allow_dash_for_short && p != st::allow_slash_for_short) {
            std::set<string> u(alts.begin(), alts.end()); Strs v(u.begin(), u.end());
            w += " and matches ";
            for (size_t i = 0; i + 1 < v.size(); ++i) w += "'" + pfx() + v[i] + "', ";
            if (v.size() > 1) w += "and ";
            if (alts.size() > 1 && v.size() == 1) w += "different versions of ";
            w += "'" + pfx() + v.back() + "'";
        }
        e.r.what = w; throw e;
    }
    int find(const string& name, const string& tokForErr) const
    {
        Strs alts; int r = resolve(g.opts, name, on(st::allow_guessing), on(st::long_case_insensitive), on(st::short_case_insensitive), &alts);
        if (r == AMBIG) ambiguous(alts, tokForErr);
        return r;
    }

    // ---- recognition of one token; true if it is an option form. Fills `out` (one or more options).
    bool longForm(const string& body, const string& orig, std::vector<ROpt>& out) const
    {   // body is "--name[=value]"
        size_t e = body.find('='); ROpt o; o.orig.push_back(orig);
        o.key = e == string::npos ? body.substr(2) : body.substr(2, e - 2);
        if (e != string::npos) {
            if (e + 1 == body.size()) syntax("empty", o.key, o.key);
            o.val.push_back(body.substr(e + 1));
        }
        out.push_back(o); return true;
    }
    bool recognise(const string& t, std::vector<ROpt>& out)
    {
        if (extra) {
            offered.push_back(t);
            std::pair<string, string> r = extra(t);
            if (!r.first.empty()) { ROpt o; o.key = r.first; if (!r.second.empty()) o.val.push_back(r.second); out.push_back(o); return true; }
        }
        if (on(st::allow_long) && t.size() >= 3 && starts(t, "--")) return longForm(t, t, out);
        bool dash1 = t.size() >= 2 && t[0] == '-' && t[1] != '-', slash = t.size() >= 2 && t[0] == '/';
        if (on(st::allow_long_disguise) && (dash1 || (slash && on(st::allow_slash_for_short)))) {
            size_t e = t.find('='); string n = e == string::npos ? t.substr(1) : t.substr(1, e - 1);
            if (find(n, t) >= 0) {
                string body = "--" + t.substr(1);
                if (body.size() >= 3) return longForm(body, t, out);
            }
        }
        if (on(st::allow_short) && on(st::allow_dash_for_short) && dash1) {
            string rest = t.substr(1);      // letters still to be read
            for (;;) {
                string n = string("-") + rest[0]; rest.erase(0, 1);
                Strs alts; int d = resolve(g.opts, n, false, false, on(st::short_case_insensitive), &alts);
                if (d == AMBIG) ambiguous(alts, n);
                ROpt o; o.key = n;
                if (d >= 0 && on(st::allow_sticky) && g.opts[d].mx == 0 && !rest.empty()) { out.push_back(o); continue; }
                o.orig.push_back(t); if (!rest.empty()) o.val.push_back(rest);
                out.push_back(o); return true;
            }
        }
        if (on(st::allow_short) && on(st::allow_slash_for_short) && slash) {
            ROpt o; o.key = string("-") + t[1]; if (t.size() > 2) o.val.push_back(t.substr(2)); o.orig.push_back(t);
            out.push_back(o); return true;
        }
        return false;
    }

    // ---- give an option its declared name and the value tokens it must have
    void complete(ROpt& o, Strs& rest, bool last)
    {
        if (o.key.empty()) return;
        string tok = o.orig.empty() ? o.key : o.orig[0];
        int d = find(o.key, tok);
        if (d < 0) {
            if (g.unreg) { o.unreg = true; return; }
            Error e; e.r.err = true; e.r.kind = "unknown"; e.r.name = tok; e.r.what = "unrecognised option '" + tok + "'"; throw e;
        }
        const Opt& D = g.opts[d];
        o.key = keyOf(D, o.key);
        Strs none; Strs& src = last ? rest : none;
        if (o.val.size() + src.size() < D.mn) syntax("missing", o.key, tok);
        if (!o.val.empty() && D.mx == 0) syntax("extra", o.key, tok);
        while (o.val.size() < D.mn && !src.empty()) {
            std::vector<ROpt> look;
            if (sp) { Strs one(1, src[0]); sp(one, look); }
            if (!look.empty() || recognise(src[0], look)) {
                // looks like an option: refuse it if the token as typed is a declared name
                if (find(src[0], src[0]) >= 0) syntax("missing", o.key, tok);
            }
            o.val.push_back(src[0]); o.orig.push_back(src[0]); src.erase(src.begin());
        }
    }

    static u64 hopt(const ROpt& o) { u64 h = mc::mix(mc::hstr(o.key), o.pos * 2 + o.unreg); return mc::mix(h, o.val.size() * 16 + o.orig.size()); }

    Res parse(const Strs& in)
    {
        Res res; res.prefix = prefix();
        try {
            Strs rest = in; std::vector<ROpt> v; u64 sh = gh;
            while (!rest.empty()) {
                if (R) { R->transitions(1); R->state(mc::mix(sh, mc::hstr(rest[0]))); }
                std::vector<ROpt> out; string t = rest[0];
                if (sp) {
                    size_t n = rest.size(); sp(rest, out); bool took = rest.size() != n;
                    for (size_t i = 0; i < out.size(); ++i) complete(out[i], rest, i + 1 == out.size());
                    v.insert(v.end(), out.begin(), out.end());
                    if (took) { if (R && !v.empty()) sh = mc::mix(sh, hopt(v.back())); continue; }
                    out.clear();
                }
                if (recognise(t, out)) {
                    rest.erase(rest.begin());
                    for (size_t i = 0; i < out.size(); ++i) complete(out[i], rest, i + 1 == out.size());
                    v.insert(v.end(), out.begin(), out.end());
                } else if (t == "--") {
                    for (size_t i = 1; i < rest.size(); ++i) { ROpt o; o.val.push_back(rest[i]); o.orig.push_back(rest[i]); o.pos = INT_MAX; v.push_back(o); }
                    if (R) R->transitions(rest.size() - 1);
                    rest.clear();
                } else {
                    ROpt o; o.val.push_back(t); o.orig.push_back(t); v.push_back(o); rest.erase(rest.begin());
                }
                if (R && !v.empty()) sh = mc::mix(sh, hopt(v.back()));
            }
            // options with room for more values take the plain tokens right after them
            std::vector<ROpt> w;
            for (size_t i = 0; i < v.size(); ++i) {
                w.push_back(v[i]); ROpt& o = w.back();
                if (o.key.empty()) continue;
                int d = find(o.key, o.orig.empty() ? o.key : o.orig[0]);
                if (d < 0) continue;
                const Opt& D = g.opts[d];
                if (D.mn >= D.mx) continue;
                while (o.val.size() < D.mx && i + 1 < v.size() && v[i + 1].key.empty() && v[i + 1].pos != INT_MAX) {
                    ++i; o.val.push_back(v[i].val[0]); o.orig.push_back(v[i].orig[0]);
                }
            }
            // number and name the rest
            int n = 0;
            for (size_t i = 0; i < w.size(); ++i) if (w[i].key.empty()) w[i].pos = n++;
            if (g.usepos) {
                Strs names; string trail; bool has = false;
                for (size_t i = 0; i < g.pos.size(); ++i)
                    if (g.pos[i].second == -1) { trail = g.pos[i].first; has = true; } else for (int k = 0; k < g.pos[i].second; ++k) names.push_back(g.pos[i].first);
                size_t p = 0;
                for (size_t i = 0; i < w.size(); ++i) if (w[i].pos != -1) {
                    if (p < names.size()) w[i].key = names[p]; else if (has) w[i].key = trail;
                    else { Error e; e.r.err = true; e.r.kind = "toomany"; e.r.what = "too many positional options have been specified on the command line"; throw e; }
                    ++p;
                }
            }
            for (size_t i = 0; i < w.size(); ++i) {
                const string& k = w[i].key;
                bool isLong = k.size() > 2 || (k.size() == 2 && k[0] != '-');
                w[i].ci = on(isLong ? st::long_case_insensitive : st::short_case_insensitive);
            }
            res.opts = w;
            if (R) R->state(mc::mix(sh, res.hash()));
        } catch (Error& e) { return e.r; }
        return res;
    }
};

// ------------------------------------------------------------------ real library
class ArityValue : public po::value_semantic {   // a user-defined semantic with any arity
    unsigned a, b;
public:
    ArityValue(unsigned a, unsigned b) : a(a), b(b) {}
    string name() const { return "arg"; }
    unsigned min_tokens() const { return a; }
    unsigned max_tokens() const { return b; }
    bool is_composing() const { return false; }
    bool is_required() const { return false; }
    void parse(boost::any& s, const Strs& t, bool) const { s = boost::any(t); }
    bool apply_default(boost::any&) const { return false; }
    void notify(const boost::any&) const {}
};
inline const po::value_semantic* makeSem(const Opt& o)
{
    if (o.sem == "flag") return new po::untyped_value(true);
    if (o.sem == "untyped") return new po::untyped_value(false);
    if (o.sem == "switch") return po::bool_switch();
    if (o.sem == "str") return po::value<string>();
    if (o.sem == "impl") return po::value<string>()->implicit_value("IMPL");
    if (o.sem == "vec") return po::value<Strs>();
    if (o.sem == "multi") return po::value<Strs>()->multitoken();
    if (o.sem == "implmulti") return po::value<Strs>()->multitoken()->implicit_value(Strs(1, "IMPL"), "IMPL");
    if (o.sem == "zeromulti") return po::value<Strs>()->multitoken()->zero_tokens();
    return new ArityValue(o.mn, o.mx);
}
inline void declare(const std::vector<Opt>& os, po::options_description& d)
{
    for (size_t i = 0; i < os.size(); ++i) d.add_options()(os[i].decl().c_str(), makeSem(os[i]), "");
}
struct Real {
    Gram g; u64 gh; po::options_description desc; po::positional_options_description pos;
    explicit Real(const Gram& g) : g(g), gh(g.hash())
    {
        declare(g.opts, desc);
        for (size_t i = 0; i < g.pos.size(); ++i) pos.add(g.pos[i].first.c_str(), g.pos[i].second);
    }
};
inline const char* kindName(int k)
{
    switch (k) {
    case po::invalid_syntax::empty_adjacent_parameter: return "syntax:empty";
    case po::invalid_syntax::missing_parameter: return "syntax:missing";
    case po::invalid_syntax::extra_parameter: return "syntax:extra";
    case po::invalid_syntax::long_not_allowed: return "syntax:longnot";
    case po::invalid_syntax::long_adjacent_not_allowed: return "syntax:longadj";
    case po::invalid_syntax::short_adjacent_not_allowed: return "syntax:shortadj";
    case po::invalid_syntax::unrecognized_line: return "syntax:line";
    }
    return "syntax:?";
}
// classifies the exception currently being handled
inline Res current()
{
    Res r; r.err = true;
    try { throw; }
    catch (const po::ambiguous_option& e) { r.kind = "ambiguous"; r.what = e.what(); r.alts = e.alternatives(); r.name = e.get_option_name(); }
    catch (const po::unknown_option& e) { r.kind = "unknown"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::invalid_config_file_syntax& e) { r.kind = string("config-") + kindName(e.kind()); r.what = e.what(); r.name = e.tokens(); }
    catch (const po::invalid_command_line_syntax& e) { r.kind = kindName(e.kind()); r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::required_option& e) { r.kind = "required"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::multiple_occurrences& e) { r.kind = "multiple_occurrences"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::multiple_values& e) { r.kind = "multiple_values"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::invalid_bool_value& e) { r.kind = "bad_bool"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::invalid_option_value& e) { r.kind = "bad_value"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::validation_error& e) { r.kind = "validation:" + mc::num(e.kind()); r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::error_with_option_name& e) { r.kind = "error_with_option_name"; r.what = e.what(); r.name = e.get_option_name(); }
    catch (const po::too_many_positional_options_error& e) { r.kind = "toomany"; r.what = e.what(); }
    catch (const po::invalid_command_line_style& e) { r.kind = "style"; r.what = e.what(); }
    catch (const po::reading_file& e) { r.kind = "reading_file"; r.what = e.what(); }
    catch (const po::error& e) { r.kind = "po::error"; r.what = e.what(); }
    catch (const std::bad_alloc& e) { r.kind = "std::bad_alloc"; r.what = e.what(); }
    catch (const std::exception& e) { r.kind = "std::exception"; r.what = e.what(); }
    catch (...) { r.kind = "unknown exception"; }
    return r;
}
inline ROpt fromOption(const po::option& o)
{
    ROpt r; r.key = o.string_key; r.pos = o.position_key; r.val = o.value; r.orig = o.original_tokens; r.unreg = o.unregistered; r.ci = o.case_insensitive;
    return r;
}
inline Res toRes(const po::parsed_options& p)
{
    Res r; r.prefix = p.m_options_prefix;
    r.opts.reserve(p.options.size());
    for (size_t i = 0; i < p.options.size(); ++i) r.opts.push_back(fromOption(p.options[i]));
    return r;
}
inline void setup(po::command_line_parser& p, const Real& R)
{
    p.options(R.desc);
    if (R.g.style) p.style(R.g.style);
    if (R.g.usepos) p.positional(R.pos);
    if (R.g.unreg) p.allow_unregistered();
}
inline Res run(const Real& R, const Strs& t, const TokParser& extra = TokParser(), const ListParser& sp = ListParser())
{
    try {
        po::command_line_parser p(t);
        setup(p, R);
        if (extra) p.extra_parser(extra);
        if (sp) p.extra_style_parser([&sp](Strs& a) {
            std::vector<ROpt> o; sp(a, o); std::vector<po::option> r(o.size());
            for (size_t i = 0; i < o.size(); ++i) { r[i].string_key = o[i].key; r[i].position_key = o[i].pos; r[i].value = o[i].val; r[i].original_tokens = o[i].orig; }
            return r; });
        return toRes(p.run());
    } catch (...) { return current(); }
}

// ------------------------------------------------------------------ enumeration helpers
// calls f(tokens) for every sequence over `alpha` with length lo..hi, shortest first
template<class F> inline void sequences(const Strs& alpha, int lo, int hi, F f)
{
    for (int n = lo; n <= hi; ++n) {
        std::vector<int> ix(n, 0);
        if (n > 0 && alpha.empty()) return;
        for (;;) {
            f(ix);
            int k = n - 1;
            while (k >= 0 && ++ix[k] == (int)alpha.size()) ix[k--] = 0;
            if (k < 0) break;
        }
    }
}
inline Strs pick(const Strs& alpha, const std::vector<int>& ix) { Strs t(ix.size()); for (size_t i = 0; i < ix.size(); ++i) t[i] = alpha[ix[i]]; return t; }

// the standard step: compare model and library on one token list
inline bool compare(mc::Run& Rn, const Real& real, const Strs& t, const TokParser& extra = TokParser(), Res* got = 0)
{
    Model m(real.g, &Rn, real.gh); m.extra = extra;
    Res want = m.parse(t);
    Res have = run(real, t, extra);
    Rn.trace();
    if (got) *got = have;
    if (!(want == have)) { Rn.fail(real.g.str() + " args=" + mc::q(t), want.str(), have.str()); return false; }
    if (Rn.want_sample()) Rn.sample(real.g.str() + " args=" + mc::q(t) + " -> " + have.str());
    return true;
}
// all sequences over alpha under one grammar
inline void space(mc::Run& Rn, const Gram& g, const Strs& alpha, int lo, int hi)
{
    Real real(g);
    sequences(alpha, lo, hi, [&](const std::vector<int>& ix) {
        if (!Rn.begin()) return;
        Strs t = pick(alpha, ix);
        Res got;
        if (compare(Rn, real, t, TokParser(), &got)) Rn.end(got.hash()); else Rn.end(0);
    });
}
} // namespace cm
#endif
