// Reference model of variables_map: stores, finality, defaults, notification.
#ifndef VMMODEL_HPP
#define VMMODEL_HPP
#include "cfgmodel.hpp"
#include <boost/optional.hpp>
#include <boost/optional/optional_io.hpp>
#include <memory>
namespace cm {
struct Decl {
    string names, type; bool comp, multi, zero, req, sw, hasDef, hasImpl; string def, impl;
    Decl() : comp(false), multi(false), zero(false), req(false), sw(false), hasDef(false), hasImpl(false) {}
    string key() const { string k = names.substr(0, names.find(',')); return k; }
    bool vec() const { return type[0] == 'v'; }
    string str() const { return "(" + names + ":" + type + (comp ? " composing" : "") + (multi ? " multitoken" : "") + (zero ? " zero_tokens" : "") + (req ? " required" : "") + (sw ? " bool_switch" : "") + (hasDef ? " default=" + def : "") + (hasImpl ? " implicit=" + impl : "") + ")"; }
};
inline Decl D(const string& names, const string& spec)
{   // "type flag flag def=.. impl=.."
    Decl d; d.names = names; std::stringstream ss(spec); string t; ss >> d.type;
    while (ss >> t) { if (t == "comp") d.comp = true; else if (t == "multi") d.multi = true; else if (t == "zero") d.zero = true; else if (t == "req") d.req = true;
        else if (t == "switch") { d.sw = true; d.hasDef = true; d.def = "0"; d.zero = true; } else if (starts(t, "def=")) { d.hasDef = true; d.def = t.substr(4); } else if (starts(t, "impl=")) { d.hasImpl = true; d.impl = t.substr(5); } }
    return d;
}
typedef boost::optional<int> OI;
// rendering of a held value; the element separator cannot occur in the values used
inline string show(const string& v) { return "s:" + v; }
inline string show(int v) { return "i:" + std::to_string(v); }
inline string show(bool v) { return v ? "b:1" : "b:0"; }
inline string show(const Strs& v) { string r = "vs:"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "|" : "") + v[i]; return r + "(" + mc::num(v.size()) + ")"; }
inline string show(const std::vector<int>& v) { string r = "vi:"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "|" : "") + std::to_string(v[i]); return r + "(" + mc::num(v.size()) + ")"; }
inline string show(const OI& v) { return v ? "o:" + std::to_string(*v) : "o:none"; }
inline string showAny(const boost::any& a)
{
    if (a.empty()) return "empty";
    if (const string* s = boost::any_cast<string>(&a)) return show(*s);
    if (const int* s = boost::any_cast<int>(&a)) return show(*s);
    if (const bool* s = boost::any_cast<bool>(&a)) return show(*s);
    if (const Strs* s = boost::any_cast<Strs>(&a)) return show(*s);
    if (const std::vector<int>* s = boost::any_cast<std::vector<int> >(&a)) return show(*s);
    if (const OI* s = boost::any_cast<OI>(&a)) return show(*s);
    return "?type";
}
struct Target { string s; int i; bool b; Strs vs; std::vector<int> vi; OI oi; Target() { reset(); } void reset() { s = "untouched"; i = -12345; b = false; vs.assign(3, "untouched"); vi.assign(3, -12345); oi = -12345; btouched = false; } bool btouched;
    string text(const Decl& d) const { if (d.type == "str") return show(s); if (d.type == "int") return show(i); if (d.type == "bool") return show(b); if (d.type == "vstr") return show(vs); if (d.type == "vint") return show(vi); if (d.type == "oint") return show(oi); return "none"; } };
struct Log { Strs calls; };
template<class T> inline T fromText(const string& s);
template<> inline string fromText<string>(const string& s) { return s; }
template<> inline int fromText<int>(const string& s) { return atoi(s.c_str()); }
template<> inline bool fromText<bool>(const string& s) { return s == "1"; }
inline Strs splitBar(const string& s) { Strs r; string c; std::stringstream ss(s); while (std::getline(ss, c, '|')) r.push_back(c); return r; }
template<> inline Strs fromText<Strs>(const string& s) { return splitBar(s); }
template<> inline std::vector<int> fromText<std::vector<int> >(const string& s) { std::vector<int> r; Strs v = splitBar(s); for (size_t i = 0; i < v.size(); ++i) r.push_back(atoi(v[i].c_str())); return r; }
template<> inline OI fromText<OI>(const string& s) { return OI(atoi(s.c_str())); }

template<class T> inline po::value_semantic* makeT(const Decl& d, T* to, Log* log)
{
    po::typed_value<T>* v = po::value<T>(to);
    if (d.comp) v->composing(); if (d.multi) v->multitoken(); if (d.zero) v->zero_tokens(); if (d.req) v->required();
    if (d.hasDef) v->default_value(fromText<T>(d.def), d.def); if (d.hasImpl) v->implicit_value(fromText<T>(d.impl), d.impl);
    if (log) { string k = d.key(); v->notifier([k, log](const T& x) { log->calls.push_back(k + "=" + show(x)); }); }
    return v;
}
inline po::value_semantic* make(const Decl& d, Target* t = 0, Log* log = 0)
{
    if (d.type == "str") return makeT<string>(d, t ? &t->s : 0, log);
    if (d.type == "int") return makeT<int>(d, t ? &t->i : 0, log);
    if (d.type == "bool") { if (d.sw) { po::typed_value<bool>* v = po::bool_switch(t ? &t->b : 0); if (d.hasDef && d.def == "1") v->default_value(true); if (d.req) v->required(); if (log) { string k = d.key(); v->notifier([k, log](const bool& x) { log->calls.push_back(k + "=" + show(x)); }); } return v; } return makeT<bool>(d, t ? &t->b : 0, log); }
    if (d.type == "vstr") return makeT<Strs>(d, t ? &t->vs : 0, log);
    if (d.type == "vint") return makeT<std::vector<int> >(d, t ? &t->vi : 0, log);
    if (d.type == "oint") return makeT<OI>(d, t ? &t->oi : 0, log);
    if (d.type == "none") return new po::untyped_value(d.zero);
    abort();
}
typedef std::vector<Decl> Decls;
inline string str(const Decls& ds) { string s; for (size_t i = 0; i < ds.size(); ++i) s += ds[i].str(); return s; }

struct Val { bool in, def; string text; bool any; Val() : in(false), def(false), any(false) {} };   // in: key present; any: value held
struct Item { string key; Strs tok; bool unreg; Item(const string& k = "", const Strs& t = Strs(), bool u = false) : key(k), tok(t), unreg(u) {} };
struct Outcome { string kind, name; Outcome(const string& k = "ok", const string& n = "") : kind(k), name(n) {} bool operator==(const Outcome& b) const { return kind == b.kind && name == b.name; } string str() const { return kind + (name.empty() ? "" : " " + name); } };

class VModel {
public:
    struct Cell { bool has, def; std::vector<string> v; Cell() : has(false), def(false) {} };   // v: element texts
    std::map<string, Cell> m; std::set<string> fin, taint; std::map<string, string> req; bool dirty;
    VModel() : dirty(false) {}
    void clear() { m.clear(); fin.clear(); taint.clear(); req.clear(); dirty = false; }
    static bool isInt(const string& s, string& norm)
    {
        size_t i = 0; bool neg = false; if (s.size() > 1 && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
        if (i == s.size()) return false; long long v = 0;
        for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + (s[i] - '0'); if (v > 4000000000ll) return false; }
        if (neg) v = -v; if (v > 2147483647ll || v < -2147483648ll) return false; norm = std::to_string(v); return true;
    }
    static bool element(const Decl& d, const string& t, string& out, string& kind)
    {
        string ty = d.type == "vstr" ? "str" : (d.type == "vint" || d.type == "oint") ? "int" : d.type;
        if (ty == "str" || ty == "none") { out = t; return true; }
        if (ty == "int") { if (isInt(t, out)) return true; kind = "bad_value"; return false; }
        string l = lower(t);
        if (l == "" || l == "1" || l == "true" || l == "yes" || l == "on") { out = "1"; return true; }
        if (l == "0" || l == "false" || l == "no" || l == "off") { out = "0"; return true; }
        kind = "bad_bool"; return false;
    }
    // empty string on success, otherwise the kind of error
    static string put(const Decl& d, Cell& c, const Strs& tok)
    {
        if (d.type != "none" && tok.empty() && d.hasImpl) { c.has = true; c.v = d.vec() ? splitBar(d.impl) : Strs(1, d.impl); return ""; }
        if (d.vec()) { c.has = true; for (size_t i = 0; i < tok.size(); ++i) { string o, k; if (!element(d, tok[i], o, k)) return k; c.v.push_back(o); } return ""; }
        if (c.has) return "multiple_occurrences";
        if (tok.size() > 1) return d.type == "none" ? "multiple_values" : "validation:" + mc::num(po::validation_error::multiple_values_not_allowed);
        if (tok.empty() && d.type != "bool" && d.type != "none") return "validation:" + mc::num(po::validation_error::at_least_one_value_required);
        string o, k; if (!element(d, tok.empty() ? "" : tok[0], o, k)) return k;
        c.has = true; c.v.assign(1, o); return "";
    }
    static const Decl* find(const Decls& ds, const string& key, string& err)
    {
        const Decl* r = 0; int n = 0;
        for (size_t i = 0; i < ds.size(); ++i) { Opt o = opt(ds[i].names, "str"); bool hit = false; for (size_t k = 0; k < o.longs.size(); ++k) if (o.longs[k] == key || (*o.longs[k].rbegin() == '*' && starts(key, o.longs[k].substr(0, o.longs[k].size() - 1)))) hit = true; if (o.shrt && key == string("-") + o.shrt) hit = true; if (hit) { r = &ds[i]; ++n; } }
        if (n == 0) err = "unknown"; if (n > 1) err = "ambiguous"; return n == 1 ? r : 0;
    }
    static string keyOfDecl(const Decl& d) { Opt o = opt(d.names, "str"); if (o.longs.empty()) return string("-") + o.shrt; return o.longs[0].find('*') != string::npos ? "" : o.longs[0]; }
    // asserted: whether the outcome can be asserted
    Outcome store(const Decls& ds, const std::vector<Item>& items, int prefix, bool& asserted)
    {
        asserted = true;
        for (size_t i = 0; i < items.size(); ++i) if (!items[i].unreg && !fin.count(items[i].key) && taint.count(items[i].key)) asserted = false;
        std::set<string> newFin; string kind, name;
        for (size_t i = 0; i < items.size() && kind.empty(); ++i) {
            const Item& it = items[i]; if (it.key.empty() || it.unreg || fin.count(it.key)) continue;
            const Decl* d = find(ds, it.key, kind); name = it.key; if (!d) break;
            Cell& c = m[it.key]; if (c.def) c = Cell();
            kind = put(*d, c, it.tok); if (!kind.empty()) break;
            if (!d->comp) newFin.insert(it.key);
        }
        if (!asserted || !kind.empty()) { dirty = true; for (size_t i = 0; i < items.size(); ++i) if (!items[i].key.empty() && !items[i].unreg && !fin.count(items[i].key)) taint.insert(items[i].key); }
        if (!asserted) { for (size_t i = 0; i < ds.size(); ++i) if (!fin.count(keyOfDecl(ds[i]))) taint.insert(keyOfDecl(ds[i])); return Outcome("?"); }
        if (!kind.empty()) return Outcome(kind, name);
        fin.insert(newFin.begin(), newFin.end());
        for (size_t i = 0; i < ds.size(); ++i) {
            string k = keyOfDecl(ds[i]); if (k.empty()) continue;
            if (!m.count(k) && ds[i].hasDef) { Cell c; c.has = c.def = true; c.v = ds[i].vec() ? splitBar(ds[i].def) : Strs(1, ds[i].def); m[k] = c; }
            if (ds[i].req) { string n = k; if (prefix == st::allow_long && k[0] != '-') n = "--" + k; else if (prefix == st::allow_long_disguise && k[0] != '-') n = "-" + k; if (n.size() > req[k].size()) req[k] = n; }
        }
        return Outcome();
    }
    static string render(const Decl& d, const Cell& c)
    {
        if (!c.has) return "empty";
        if (d.type == "str" || d.type == "none") return show(c.v[0]); if (d.type == "int") return "i:" + c.v[0]; if (d.type == "bool") return "b:" + c.v[0]; if (d.type == "oint") return "o:" + c.v[0];
        string r = d.type == "vstr" ? "vs:" : "vi:"; for (size_t i = 0; i < c.v.size(); ++i) r += (i ? "|" : "") + c.v[i]; return r + "(" + mc::num(c.v.size()) + ")";
    }
    u64 hash() const { u64 h = dirty; for (std::map<string, Cell>::const_iterator i = m.begin(); i != m.end(); ++i) { h = mc::mix(h, mc::hstr(i->first)); h = mc::mix(h, i->second.has * 2 + i->second.def); for (size_t k = 0; k < i->second.v.size(); ++k) h = mc::mix(h, mc::hstr(i->second.v[k])); } for (std::set<string>::const_iterator i = fin.begin(); i != fin.end(); ++i) h = mc::mix(h, mc::hstr(*i) + 1); for (std::set<string>::const_iterator i = taint.begin(); i != taint.end(); ++i) h = mc::mix(h, mc::hstr(*i) + 2); return h; }
};
inline po::parsed_options parsed(const po::options_description& d, const std::vector<Item>& items, int prefix)
{
    po::parsed_options p(&d, prefix); for (size_t i = 0; i < items.size(); ++i) { po::option o(items[i].key, items[i].tok); o.unregistered = items[i].unreg; o.original_tokens.push_back(items[i].key); p.options.push_back(o); } return p;
}
inline Outcome doStore(const po::parsed_options& p, po::variables_map& vm)
{
    try { po::store(p, vm); return Outcome(); }
    catch (...) { Res r = current(); return Outcome(r.kind, strip(r.name)); }
}
// state of the real map against the model
inline bool sameMap(const VModel& m, const Decls& all, const po::variables_map& vm, string& want, string& have)
{
    std::map<string, const Decl*> byKey; for (size_t i = 0; i < all.size(); ++i) byKey[VModel::keyOfDecl(all[i])] = &all[i];
    std::set<string> keys; for (std::map<string, VModel::Cell>::const_iterator i = m.m.begin(); i != m.m.end(); ++i) keys.insert(i->first);
    for (po::variables_map::const_iterator i = vm.begin(); i != vm.end(); ++i) keys.insert(i->first);
    for (size_t i = 0; i < all.size(); ++i) keys.insert(VModel::keyOfDecl(all[i]));
    for (std::set<string>::iterator k = keys.begin(); k != keys.end(); ++k) {
        if (m.taint.count(*k) && !m.fin.count(*k)) continue;
        std::map<string, VModel::Cell>::const_iterator c = m.m.find(*k); const Decl* d = byKey.count(*k) ? byKey[*k] : 0;
        if (!d) for (size_t i = 0; i < all.size(); ++i) { string e; if (VModel::find(all, *k, e) == &all[i]) d = &all[i]; }
        string w = c == m.m.end() ? "absent" : (d ? VModel::render(*d, c->second) : "?") + (c->second.def ? " defaulted" : "");
        string h = vm.count(*k) ? showAny(vm[*k].value()) + (vm[*k].defaulted() ? " defaulted" : "") : "absent";
        if (h == "absent" && !(vm[*k].empty() && !vm[*k].defaulted())) h = "absent but not empty";
        if (w != h) { want = *k + " " + w; have = *k + " " + h; return false; }
    }
    return true;
}
} // namespace cm
#endif
