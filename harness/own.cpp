// C31 copies are independent values; C32 results own their data in every order of construction, use and destruction.
#include "vmmodel.hpp"
#include <boost/program_options.hpp>
#include <functional>
#include <fstream>
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
extern char** environ;
template<class F> static void histories(int n, int lo, int hi, F f)
{
    for (int l = lo; l <= hi; ++l) { std::vector<int> ix(l, 0); for (;;) { f(ix); int k = l - 1; while (k >= 0 && ++ix[k] == n) ix[k--] = 0; if (k < 0) break; } }
}

#if PROP == 31
const char* mc::property = "C31";
typedef std::vector<Item> Items;
// ---- maps -------------------------------------------------------------------------------------
// two descriptions declare the same options: maps with an even number are filled through the first, the others through the second
struct Env { Decls all; po::options_description real[2]; std::vector<Target> tg; Log log[2]; std::vector<Items> stores;
    Env(const Decls& a) : all(a), tg(a.size()) { for (int k = 0; k < 2; ++k) for (size_t i = 0; i < a.size(); ++i) real[k].add_options()(a[i].names.c_str(), make(a[i], &tg[i], &log[k]), ""); }
    Env(const Env&) = delete; };
struct MM : VModel { std::map<string, int> from;       // which description declared the value held for a key
    Outcome store2(const Env& E, const Items& it, int desc, bool& as)
    {
        std::set<string> had; for (std::map<string, Cell>::iterator c = m.begin(); c != m.end(); ++c) had.insert(c->first);
        for (size_t k = 0; k < it.size(); ++k) if (!fin.count(it[k].key)) from[it[k].key] = desc;
        Outcome o = store(E.all, it, st::allow_long, as);
        for (std::map<string, Cell>::iterator c = m.begin(); c != m.end(); ++c) if (!had.count(c->first)) from[c->first] = desc;
        return o;
    } };
struct MOp { int kind, i, j, s; };      // 0 store s into i, 1 clear i, 2 notify i, 3 edit i, 4 i = j, 5 swap, 6 i replaced by a copy of j, 7 i = i, 8 temporary copy of i used and dropped, 9 copy edited, source intact, 10 i = move(copy of j), 11 every entry that both have assigned from j to i
static string str(const Env& E, const MOp& o)
{
    string x = mc::num(o.i), y = mc::num(o.j);
    switch (o.kind) {
    case 0: { string s = "store(m" + x; const Items& t = E.stores[o.s]; for (size_t k = 0; k < t.size(); ++k) s += " " + t[k].key + "=" + mc::q(t[k].tok); return s + ")"; }
    case 1: return "m" + x + ".clear()"; case 2: return "notify(m" + x + ")"; case 3: return "edit(m" + x + ")"; case 4: return "m" + x + "=m" + y; case 5: return "swap(m" + x + ",m" + y + ")"; case 6: return "m" + x + "=new copy of m" + y;
    case 7: return "m" + x + "=m" + x; case 8: return "use copy of m" + x; case 11: return "entries of m" + x + "=entries of m" + y; case 10: return "m" + x + "=move(copy of m" + y + ")"; }
    return "?";
}
static Outcome doNotify(po::variables_map& vm, bool freeFunction) { try { if (freeFunction) po::notify(vm); else vm.notify(); return Outcome(); } catch (...) { Res r = current(); return Outcome(r.kind, r.name); } }
static void editReal(po::variables_map& vm)
{
    for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) {
        boost::any& a = i->second.value();
        if (string* s = boost::any_cast<string>(&a)) *s += "e"; else if (Strs* v = boost::any_cast<Strs>(&a)) v->push_back("e"); else if (boost::any_cast<int>(&a)) i->second.as<int>() = i->second.as<int>() + 1; else if (boost::any_cast<std::vector<int> >(&a)) i->second.as<std::vector<int> >().push_back(9);
    }
}
static void editModel(const Env& E, VModel& m)
{
    for (size_t i = 0; i < E.all.size(); ++i) { std::map<string, VModel::Cell>::iterator c = m.m.find(VModel::keyOfDecl(E.all[i])); if (c == m.m.end() || !c->second.has) continue;
        const string& t = E.all[i].type; if (t == "str" || t == "none") c->second.v[0] += "e"; else if (t == "vstr") c->second.v.push_back("e"); else if (t == "int") c->second.v[0] = std::to_string(atoi(c->second.v[0].c_str()) + 1); else if (t == "vint") c->second.v.push_back("9"); }
}
// required and notifier behaviour of one map
static bool checkNotify(Env& E, const MM& m, po::variables_map& vm, bool ff, string& w, string& g)
{
    E.log[0].calls.clear(); E.log[1].calls.clear(); Outcome x = doNotify(vm, ff); if (m.dirty) return true;
    std::set<string> missing; for (std::map<string, string>::const_iterator r = m.req.begin(); r != m.req.end(); ++r) if (!m.m.count(r->first) || !m.m.find(r->first)->second.has) missing.insert(r->second);
    if (missing.empty() ? x.kind != "ok" : x.kind != "required" || !missing.count(x.name)) { w = missing.empty() ? "notify ok" : "required option " + *missing.begin() + " missing"; g = x.str(); return false; }
    if (!missing.empty()) return true;
    Strs want; for (size_t i = 0; i < E.all.size(); ++i) { std::map<string, VModel::Cell>::const_iterator c = m.m.find(VModel::keyOfDecl(E.all[i])); if (c != m.m.end() && c->second.has && E.all[i].type != "none") want.push_back(mc::num(m.from.find(c->first)->second) + ":" + E.all[i].key() + "=" + VModel::render(E.all[i], c->second)); }
    Strs got; for (int k = 0; k < 2; ++k) for (size_t i = 0; i < E.log[k].calls.size(); ++i) got.push_back(mc::num(k) + ":" + E.log[k].calls[i]); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (want != got) { w = "notifier calls " + mc::q(want); g = mc::q(got); return false; } return true;
}
static bool runMaps(Run& R, Env& E, int n, const std::vector<MOp>& ops, const std::vector<int>& ix, u64& out)
{
    std::vector<MM> m(n); std::vector<std::unique_ptr<po::variables_map> > v; for (int i = 0; i < n; ++i) v.emplace_back(new po::variables_map);
    string key; for (size_t s = 0; s < ix.size(); ++s) key += (s ? " " : "") + str(E, ops[ix[s]]);
    string w, g; u64 h = mc::hstr(cm::str(E.all));
    for (size_t s = 0; s < ix.size(); ++s) {
        const MOp& o = ops[ix[s]]; R.transitions(1);
        switch (o.kind) {
        case 0: { bool as; Outcome a = m[o.i].store2(E, E.stores[o.s], o.i % 2, as), x = doStore(parsed(E.real[o.i % 2], E.stores[o.s], st::allow_long), *v[o.i]); a.name = strip(a.name); if (as && !(a == x)) { R.fail(key + " step " + mc::num(s + 1), a.str(), x.str()); return false; } out = mc::mix(out, mc::hstr(x.kind)); break; }
        case 1: m[o.i].clear(); m[o.i].from.clear(); v[o.i]->clear(); break;
        case 2: if (!checkNotify(E, m[o.i], *v[o.i], true, w, g)) { R.fail(key + " step " + mc::num(s + 1), w, g); return false; } break;
        case 3: editModel(E, m[o.i]); editReal(*v[o.i]); break;
        case 4: m[o.i] = m[o.j]; *v[o.i] = *v[o.j]; break;
        case 5: std::swap(m[o.i], m[o.j]); std::swap(*v[o.i], *v[o.j]); break;
        case 6: { m[o.i] = m[o.j]; std::unique_ptr<po::variables_map> c(new po::variables_map(*v[o.j])); v[o.i].swap(c); break; }
        case 7: { po::variables_map& self = *v[o.i]; *v[o.i] = self; break; }
        case 8: { po::variables_map c(*v[o.i]); editReal(c); doStore(parsed(E.real[1], E.stores[o.s], st::allow_long), c); c.clear(); doStore(parsed(E.real[1], E.stores[0], st::allow_long), c); break; }
        case 11: for (po::variables_map::iterator k = v[o.j]->begin(); k != v[o.j]->end(); ++k) { po::variables_map::iterator to = v[o.i]->find(k->first); if (to == v[o.i]->end()) continue; to->second = k->second; m[o.i].m[k->first] = m[o.j].m[k->first]; m[o.i].from[k->first] = m[o.j].from[k->first]; if (m[o.j].taint.count(k->first) && !m[o.j].fin.count(k->first)) { m[o.i].taint.insert(k->first); m[o.i].fin.erase(k->first); m[o.i].dirty = true; } } break;
        case 10: { m[o.i] = m[o.j]; po::variables_map c(*v[o.j]); *v[o.i] = std::move(c); break; }
        }
        for (int i = 0; i < n; ++i) { if (!sameMap(m[i], E.all, *v[i], w, g)) { R.fail(key + " step " + mc::num(s + 1), "m" + mc::num(i) + ": " + w, g); return false; } h = mc::mix(h, m[i].hash()); }
        R.state(h);
    }
    // what a map will do next is part of its value: notify every map, then store again into every map
    for (int i = 0; i < n; ++i) if (!checkNotify(E, m[i], *v[i], i & 1, w, g)) { R.fail(key + " then notify(m" + mc::num(i) + ")", w, g); return false; }
    for (int i = 0; i < n; ++i) {
        Items it; for (size_t k = 0; k < E.all.size(); ++k) it.push_back(Item(VModel::keyOfDecl(E.all[k]), Strs(1, "3")));
        bool as; Outcome a = m[i].store2(E, it, 1 - i % 2, as), x = doStore(parsed(E.real[1 - i % 2], it, st::allow_long), *v[i]); a.name = strip(a.name);
        if (as && !(a == x)) { R.fail(key + " then store into m" + mc::num(i), a.str(), x.str()); return false; }
        if (!checkNotify(E, m[i], *v[i], true, w, g)) { R.fail(key + " then store into m" + mc::num(i) + " and notify", w, g); return false; }
        for (int k = 0; k < n; ++k) if (!sameMap(m[k], E.all, *v[k], w, g)) { R.fail(key + " then store into m" + mc::num(i), "m" + mc::num(k) + ": " + w, g); return false; }
    }
    out = mc::mix(out, h); return true;
}
static void maps(Run& R, Env& E, int n, const std::vector<MOp>& ops, int lo, int hi)
{
    histories((int)ops.size(), lo, hi, [&](const std::vector<int>& ix) {
        if (!R.begin()) return; u64 out = 1; runMaps(R, E, n, ops, ix, out); R.trace();
        if (R.want_sample()) { string s; for (size_t k = 0; k < ix.size(); ++k) s += str(E, ops[ix[k]]) + " "; R.sample(s); } R.end(out);
    });
}
static MOp mop(int k, int i, int j = 0, int s = 0) { MOp o = {k, i, j, s}; return o; }
static std::vector<MOp> mapOps(int n, int nstores)
{
    std::vector<MOp> r;
    for (int i = 0; i < n; ++i) { for (int s = 0; s < nstores; ++s) r.push_back(mop(0, i, 0, s)); r.push_back(mop(1, i)); r.push_back(mop(2, i)); r.push_back(mop(3, i)); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) { r.push_back(mop(4, i, j)); r.push_back(mop(6, i, j)); if (n == 2) { r.push_back(mop(10, i, j)); r.push_back(mop(11, i, j)); } if (i < j) r.push_back(mop(5, i, j)); }
    r.push_back(mop(7, 0)); r.push_back(mop(8, 0, 0, 1));
    return r;
}
// ---- linked maps ------------------------------------------------------------------------------
struct LCell { int kind; string v; };     // 0 absent, 1 default, 2 explicit
struct LMap { LCell c; int next; };
static string lookup(const std::vector<LMap>& m, int i)
{
    const LMap& x = m[i]; if (x.c.kind == 2) return x.c.v; string d = x.c.kind == 1 ? x.c.v : "";
    for (int j = x.next; j >= 0;) { string r = lookup(m, j); if (x.c.kind == 0) return r; if (r != "" && r[0] == 'e') return r; return d; }
    return d;
}
static bool cyclic(const std::vector<LMap>& m) { for (size_t i = 0; i < m.size(); ++i) { int j = m[i].next, n = 0; while (j >= 0 && n++ < 9) j = m[j].next; if (j >= 0) return true; } return false; }

// ---- reading as a type ------------------------------------------------------------------------
struct Base { virtual ~Base() {} int x; Base() : x(1) {} }; struct Derived : Base { int y; Derived() : y(2) {} };
enum Color { red, green }; typedef unsigned long ulong_t; typedef signed char schar_t; typedef unsigned char uchar_t; typedef const char* cstr_t; typedef long long llong_t;
template<class T> static string readAs(po::variable_value& v, const T& expect, bool same)
{
    const po::variable_value& c = v; string r;
    try { const T& x = c.as<T>(); r += x == expect ? "1" : "x"; } catch (const boost::bad_any_cast&) { r += "0"; } catch (...) { r += "?"; }
    try { T& x = v.as<T>(); r += x == expect ? "1" : "x"; } catch (const boost::bad_any_cast&) { r += "0"; } catch (...) { r += "?"; }
    return r == (same ? "11" : "00") ? "" : r;
}
#define TYPES(X) X(int, 5) X(unsigned, 5u) X(long, 5l) X(ulong_t, 5ul) X(short, 5) X(char, 'a') X(schar_t, 5) X(uchar_t, 5) X(bool, true) X(double, 0.5) X(float, 0.5f) X(string, string("s")) X(std::wstring, std::wstring(L"s")) X(cstr_t, 0) X(Strs, Strs(1, "s")) X(std::vector<int>, std::vector<int>(1, 5)) X(std::vector<Strs>, std::vector<Strs>(1)) X(std::vector<std::wstring>, std::vector<std::wstring>(1, L"s")) X(OI, OI(5)) X(Color, green) X(llong_t, 5ll) X(boost::optional<string>, boost::optional<string>("s"))
static std::vector<boost::any> anyOf() { std::vector<boost::any> r;
#define X(...) ANYOF(__VA_ARGS__)
#define ANYOF(T, ...) r.push_back(boost::any(T(__VA_ARGS__)));
    TYPES(X)
#undef ANYOF
    return r; }
static string readEvery(po::variable_value& v, int held, int& n)
{
    int k = 0; string bad, r;
#define ANYOF(T, ...) if ((r = readAs<T>(v, T(__VA_ARGS__), k == held)) != "") bad += mc::num(k) + ":" + r + " "; ++k; ++n;
    TYPES(X)
#undef ANYOF
#undef X
    return bad;
}
// ---- descriptions -----------------------------------------------------------------------------
struct DNode { Strs names; std::vector<DNode> groups; string cap; };
static void buildNode(po::options_description& d, const DNode& n)
{
    for (size_t i = 0; i < n.names.size(); ++i) d.add_options()(n.names[i].c_str(), po::value<string>(), ("text of " + n.names[i]).c_str());
    for (size_t i = 0; i < n.groups.size(); ++i) { po::options_description g(n.groups[i].cap); buildNode(g, n.groups[i]); d.add(g); }
}
// own options and groups keep the order of addition only within their kind: help shows own options first
static void allNames(const DNode& n, Strs& r) { for (size_t i = 0; i < n.names.size(); ++i) r.push_back(n.names[i]); for (size_t i = 0; i < n.groups.size(); ++i) allNames(n.groups[i], r); }
struct DOp { int kind, i, j; };     // 0 add an option to i, 1 add j to i, 2 copy i to the end, 3 destroy i, 4 print i, 5 add two options through one add_options object
static string str(const DOp& o) { string x = mc::num(o.i), y = mc::num(o.j); return o.kind == 0 ? "d" + x + "+option" : o.kind == 1 ? "d" + x + ".add(d" + y + ")" : o.kind == 2 ? "new copy of d" + x : o.kind == 3 ? "destroy d" + x : o.kind == 4 ? "print d" + x : "d" + x + "+two options"; }
static bool runDesc(Run& R, const std::vector<DOp>& ops, const std::vector<int>& ix, u64& out)
{
    struct D1 { std::unique_ptr<po::options_description> d; DNode n; std::vector<string> late; };
    std::vector<D1> v(2); for (int i = 0; i < 2; ++i) { v[i].n.cap = i ? "One" : "Zero"; v[i].d.reset(new po::options_description(v[i].n.cap)); }
    int fresh = 0; string key; for (size_t s = 0; s < ix.size(); ++s) key += (s ? " " : "") + str(ops[ix[s]]);
    Strs every;
    for (size_t s = 0; s < ix.size(); ++s) {
        const DOp& o = ops[ix[s]]; if (o.i >= (int)v.size() || o.j >= (int)v.size() || !v[o.i].d || (o.kind == 1 && !v[o.j].d)) return false;
        if (o.kind == 3 && s + 1 == ix.size()) return false;
        if (v.size() >= 4 && o.kind == 2) return false;
        R.transitions(1);
        if (o.kind == 0 || o.kind == 5) { po::options_description_easy_init e = v[o.i].d->add_options(); for (int t = 0; t < (o.kind ? 2 : 1); ++t) { string n = string("n") + char('a' + fresh) + char('a' + s); ++fresh; every.push_back(n); e(n.c_str(), po::value<string>(), ("text of " + n).c_str()); v[o.i].n.names.push_back(n); } }
        else if (o.kind == 1) { DNode c = v[o.j].n; if (o.i == o.j) c = v[o.i].n; v[o.i].d->add(*v[o.j].d); v[o.i].n.groups.push_back(c); }
        else if (o.kind == 2) { D1 c; c.d.reset(new po::options_description(*v[o.i].d)); c.n = v[o.i].n; v.push_back(std::move(c)); }
        else if (o.kind == 3) v[o.i].d.reset();
        else { std::ostringstream os; os << *v[o.i].d; (void)v[o.i].d->find_nothrow("zz", true); }
    }
    for (size_t i = 0; i < v.size(); ++i) if (v[i].d) {
        po::options_description f(v[i].n.cap); buildNode(f, v[i].n);
        std::ostringstream a, b; a << f; b << *v[i].d;
        if (a.str() != b.str()) { R.fail(key + " help of d" + mc::num(i), a.str(), b.str()); return false; }
        Strs have; allNames(v[i].n, have); std::map<string, int> cnt; for (size_t k = 0; k < have.size(); ++k) ++cnt[have[k]];
        if (v[i].d->options().size() != have.size()) { R.fail(key + " number of options of d" + mc::num(i), mc::num(have.size()), mc::num(v[i].d->options().size())); return false; }
        for (size_t k = 0; k < every.size(); ++k) {
            string w = cnt[every[k]] == 0 ? "none" : cnt[every[k]] == 1 ? "found" : "ambiguous", g;
            try { const po::option_description* od = v[i].d->find_nothrow(every[k], false); g = od ? (od->long_name() == every[k] && od->description() == "text of " + every[k] ? "found" : "other") : "none"; } catch (const po::ambiguous_option&) { g = "ambiguous"; }
            if (w != g) { R.fail(key + " look up " + every[k] + " in d" + mc::num(i), w, g); return false; }
        }
        out = mc::mix(out, mc::hstr(b.str())); R.state(out);
    }
    return true;
}

void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("copies of maps", T ? "2 maps x 4 sets of declarations x every history of 1..4 (first set 5) of about 28 operations (store, failing store, clear, notify, edit, assign, assign entries, move, swap, copy, self-assign, use of a temporary copy)" : "2 maps x 4 sets of declarations x every history of 1..3 (first set 4) of about 28 operations (store, failing store, clear, notify, edit, assign, assign entries, move, swap, copy, self-assign, use of a temporary copy)");
    const char* SETS[4][4] = { { "a:str", "b:int def=7", "c:vstr comp", "d:str req" }, { "a:vint comp def=5", "b:bool switch", "c:str impl=i", "d:int req" }, { "a:none", "b:vstr def=x", "c:int comp", "d:oint" }, { "a:str def=q req", "b:vint", "c:int def=1 impl=2", "d,long*:vstr" } };
    std::vector<std::unique_ptr<Env> > envs;
    for (int k = 0; k < 4; ++k) { Decls d; for (int i = 0; i < 4; ++i) { string s = SETS[k][i]; size_t c = s.find(':'); d.push_back(D(k == 3 && i == 3 ? "d" : s.substr(0, c), s.substr(c + 1))); } envs.emplace_back(new Env(d)); Env& E = *envs.back();
        auto one = [&](std::initializer_list<const char*> l) { Items it; for (const char* x : l) { string s = x; it.push_back(Item(s.substr(0, 1), s.size() > 1 ? Strs(1, s.substr(2)) : Strs())); } E.stores.push_back(it); };
        if (k == 0) { one({"a=1", "d=1"}); one({"b=5", "c=x"}); one({"a=2", "c=y"}); one({}); one({"b=bad"}); }
        else if (k == 1) { one({"a=1", "d=1"}); one({"b", "c"}); one({"c=2", "a=6"}); one({}); one({"d=bad"}); }
        else if (k == 2) { one({"a=1", "c=1"}); one({"b=5", "d=4"}); one({"d=2", "a=7"}); one({}); one({"c=bad"}); }
        else { one({"a=1"}); one({"b=5", "c"}); one({"c=2", "d=7"}); one({}); one({"b=bad"}); }
        maps(R, E, 2, mapOps(2, 5), 1, (T ? 4 : 3) + (k == 0));
    }
    R.space("three maps", T ? "3 maps, 2 stores each, notify, clear, edit, all assignments, copies and swaps: every history of 1..4 for the first set of declarations, 1..3 for the others" : "3 maps, 2 stores each, notify, clear, edit, all assignments, copies and swaps: every history of 1..3; sets of declarations as above");
    for (int k = 0; k < 4; ++k) maps(R, *envs[k], 3, mapOps(3, 2), 1, T && k == 0 ? 4 : 3);
    R.space("copies of linked maps", T ? "3 maps: every history of 1..6 of link, unlink, store default or explicit value, assign, swap (never forming a ring); lookup from every map after each" : "3 maps: every history of 1..5 of link, unlink, store default or explicit value, assign, swap (never forming a ring); lookup from every map after each");
    {
        struct LOp { int k, i, j; }; std::vector<LOp> ops;
        for (int i = 0; i < 3; ++i) { for (int j = -1; j < 3; ++j) if (j != i && (j == -1 ? i == 0 : true)) ops.push_back({0, i, j}); ops.push_back({1, i, 1}); ops.push_back({1, i, 2}); for (int j = 0; j < 3; ++j) if (i != j) { if (i + j < 3) ops.push_back({2, i, j}); } }
        ops.push_back({3, 0, 1}); ops.push_back({3, 1, 2});
        histories((int)ops.size(), 1, T ? 6 : 5, [&](const std::vector<int>& ix) {
            // keep only histories that copy or swap something and never form a ring
            bool copies = false; for (size_t s = 0; s < ix.size(); ++s) copies |= ops[ix[s]].k >= 2; if (!copies) return;
            std::vector<LMap> m(3); for (int i = 0; i < 3; ++i) { m[i].c.kind = 0; m[i].next = -1; }
            std::vector<std::vector<LMap> > steps; 
            for (size_t s = 0; s < ix.size(); ++s) { const LOp& o = ops[ix[s]]; if (o.k == 0) m[o.i].next = o.j; else if (o.k == 1) { m[o.i].c.kind = o.j; m[o.i].c.v = (o.j == 1 ? "d" : "e") + mc::num(o.i) + mc::num(s); } else if (o.k == 2) m[o.i] = m[o.j]; else std::swap(m[o.i], m[o.j]); if (cyclic(m)) return; steps.push_back(m); }
            if (!R.begin()) return;
            std::vector<po::variables_map> v(3); u64 out = 1; string key; for (size_t s = 0; s < ix.size(); ++s) { const LOp& o = ops[ix[s]]; key += string(s ? " " : "") + (o.k == 0 ? "m" + mc::num(o.i) + ".next(" + (o.j < 0 ? string("0") : "m" + mc::num(o.j)) + ")" : o.k == 1 ? string(o.j == 1 ? "default" : "explicit") + "(m" + mc::num(o.i) + ")" : (o.k == 2 ? "m" : "swap m") + mc::num(o.i) + (o.k == 2 ? "=m" : " m") + mc::num(o.j)); }
            for (size_t s = 0; s < ix.size(); ++s) {
                const LOp& o = ops[ix[s]]; R.transitions(1);
                if (o.k == 0) v[o.i].next(o.j < 0 ? 0 : &v[o.j]);
                else if (o.k == 1) static_cast<std::map<string, po::variable_value>&>(v[o.i])["x"] = po::variable_value(boost::any(steps[s][o.i].c.v), o.j == 1);
                else if (o.k == 2) v[o.i] = v[o.j]; else { po::variables_map t(v[o.i]); v[o.i] = v[o.j]; v[o.j] = t; }
                u64 h = 7; for (int i = 0; i < 3; ++i) { string w = lookup(steps[s], i), g = v[i]["x"].empty() ? "" : v[i]["x"].as<string>(); if (w != g) { R.fail(key + " step " + mc::num(s + 1) + " lookup in m" + mc::num(i), w, g); R.end(0); return; } h = mc::mix(h, mc::hstr(w) + steps[s][i].next); }
                out = mc::mix(out, h); R.state(h);
            }
            R.trace(); R.end(out);
        });
    }
    R.space("reading as a type", "values of 22 types and the empty value, read as each of the 22 types, const and not, from the value, from a copy, through a map, before and after an assignment; the value is the same afterwards");
    {
        std::vector<boost::any> a = anyOf(); int N = (int)a.size();
        for (int held = -1; held < N; ++held) for (int was = -1; was < N; ++was) for (int def = 0; def < 2; ++def) if (R.begin()) {
            po::variable_value v; if (was >= 0) v = po::variable_value(a[was], !def); po::variable_value w = held < 0 ? po::variable_value() : po::variable_value(a[held], def); v = w; int n = 0; string bad;
            bad += readEvery(v, held, n); po::variable_value c(v); bad += readEvery(c, held, n);
            v.value() = was < 0 ? boost::any() : a[was]; bad += readEvery(c, held, n); bad += readEvery(v, was, n); bad += readEvery(w, held, n);
            po::variables_map m; m.insert(std::make_pair(string("k"), c)); bad += readEvery(m.at("k"), held, n); if (m["k"].defaulted() != (held >= 0 && def)) bad += "defaulted"; if (m["k"].empty() != (held < 0)) bad += "empty";
            R.transitions(n); R.state(held * 100 + was * 2 + def + 5000); R.trace(); if (!bad.empty()) R.fail("value of type " + std::to_string(held) + " over " + std::to_string(was), "", bad); R.end(held * 31 + was + 1000);
        }
    }
    R.space("parsed values read as a type", "20 kinds of declaration x absent, default, implicit, explicit: read as each of the 22 types after storing and through a linked map");
    {
        const char* K[] = { "str", "str def=s", "int", "int def=5", "bool", "bool switch", "vstr", "vstr comp def=s", "vint multi", "vint def=5", "oint", "none", "str impl=s", "int impl=5" }; int HELD[] = { 11, 11, 0, 0, 8, 8, 14, 14, 15, 15, 18, 11, 11, 0 }; const char* TXT[] = { "s", "s", "5", "5", "1", "", "s", "s", "5", "5", "5", "s", "s", "5" };
        for (int k = 0; k < 14; ++k) for (int occ = 0; occ < 3; ++occ) for (int link = 0; link < 2; ++link) if (R.begin()) {
            Decl d = D("a", K[k]); po::options_description od; od.add_options()("a", make(d), ""); Items it; if (occ == 1) it.push_back(Item("a", d.zero ? Strs() : Strs(1, TXT[k]))); if (occ == 2) it.push_back(Item("a", Strs()));
            po::variables_map base, top(&base); Outcome x = doStore(parsed(od, it, st::allow_long), link ? base : top); int n = 0;
            po::variables_map& m = link ? top : base; po::variables_map& holder = link ? base : top; bool present = holder.count("a") && !holder["a"].empty();
            bool want = occ == 1 || d.hasDef || (occ == 2 && d.hasImpl) || (occ == 2 && (d.type == "bool")); string bad;
            if (d.type == "bool" && !d.sw && occ == 2 && !d.hasImpl) want = true;
            if (x.kind == "ok" && occ == 2 && (d.type == "vstr" || d.type == "vint" || d.type == "none")) { R.end(1); } else {
                if (x.kind == "ok" && want != present) bad = want ? "absent" : "present";
                if (x.kind == "ok" && present && !(d.type == "bool" && d.sw && occ == 0)) { po::variable_value c(holder["a"]); bad += readEvery(c, HELD[k], n); if (link && m["a"].empty()) bad += " not seen through the link"; }
                R.transitions(n); R.trace(); if (!bad.empty()) R.fail(d.str() + " occurrence " + mc::num(occ) + " link " + mc::num(link), "", bad); R.end(mc::hstr(x.kind) + k); }
        }
    }
    R.space("copies of descriptions", T ? "2 descriptions, copies of them up to 4: every history of 1..6 of add option, add two, add group, copy, destroy, print" : "2 descriptions, copies of them up to 4: every history of 1..5 of add option, add two, add group, copy, destroy, print; help, lookup and number of options of each compared with a description built directly");
    {
        std::vector<DOp> ops; for (int i = 0; i < 4; ++i) { ops.push_back({0, i, 0}); if (i < 3) { ops.push_back({2, i, 0}); ops.push_back({3, i, 0}); } for (int j = 0; j < 4; ++j) if (j != i && i + j < 5) ops.push_back({1, i, j}); } ops.push_back({4, 0, 0}); ops.push_back({5, 2, 0});
        histories((int)ops.size(), 1, T ? 6 : 5, [&](const std::vector<int>& ix) {
            int n = 2; bool alive[4] = { true, true, false, false }; bool copy = false;
            for (size_t s = 0; s < ix.size(); ++s) { const DOp& o = ops[ix[s]]; if (!alive[o.i] || (o.kind == 1 && !alive[o.j])) return; if (o.kind == 2) { if (n == 4) return; alive[n++] = true; copy = true; } if (o.kind == 3) { alive[o.i] = false; if (s + 1 == ix.size()) return; } }
            if (!copy) return;
            if (!R.begin()) return; u64 out = 1; runDesc(R, ops, ix, out); R.trace(); R.end(out);
        });
    }
    R.space("copies of positional descriptions", T ? "3 positional descriptions: every history of 1..6 of adding one, two or all, assigning, copying; every position read" : "3 positional descriptions: every history of 1..5 of adding one, two or all, assigning, copying; every position read");
    {
        struct POp { int k, i, j; }; std::vector<POp> ops; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) { ops.push_back({0, i, j}); if (i != j) ops.push_back({1, i, j}); } ops.push_back({2, i, (i + 1) % 3}); }
        histories((int)ops.size(), 1, T ? 6 : 5, [&](const std::vector<int>& ix) {
            struct PM { Strs n; string trail; }; std::vector<PM> m(3); for (size_t s = 0; s < ix.size(); ++s) { const POp& o = ops[ix[s]]; if (o.k == 0) { if (!m[o.i].trail.empty()) return; if (o.j == 2) m[o.i].trail = "all"; else for (int c = 0; c <= o.j; ++c) m[o.i].n.push_back(o.j ? "two" : "one"); } else m[o.i] = m[o.j]; }
            if (!R.begin()) return; std::vector<std::unique_ptr<po::positional_options_description> > v; for (int i = 0; i < 3; ++i) v.emplace_back(new po::positional_options_description);
            for (size_t s = 0; s < ix.size(); ++s) { const POp& o = ops[ix[s]]; R.transitions(1); if (o.k == 0) v[o.i]->add(o.j == 2 ? "all" : o.j ? "two" : "one", o.j == 2 ? -1 : o.j + 1); else if (o.k == 1) *v[o.i] = *v[o.j]; else v[o.i].reset(new po::positional_options_description(*v[o.j])); }
            u64 out = 1; string key; for (size_t s = 0; s < ix.size(); ++s) key += mc::num(ops[ix[s]].k) + mc::num(ops[ix[s]].i) + mc::num(ops[ix[s]].j) + " ";
            for (int i = 0; i < 3; ++i) { string w, g; w = m[i].trail.empty() ? mc::num(m[i].n.size()) : "any"; g = v[i]->max_total_count() == (std::numeric_limits<unsigned>::max)() ? "any" : mc::num(v[i]->max_total_count());
                for (size_t p = 0; p < m[i].n.size() + (m[i].trail.empty() ? 0 : 3); ++p) { w += " " + (p < m[i].n.size() ? m[i].n[p] : m[i].trail); g += " " + v[i]->name_for_position((unsigned)p); }
                out = mc::mix(out, mc::hstr(g)); R.state(out); if (w != g) { R.fail(key + "positions of p" + mc::num(i), w, g); break; } }
            R.trace(); R.end(out);
        });
    }
    R.space("copies of parse results", T ? "2 narrow and 2 wide results: every history of 1..5 of parse (4 inputs), assign, copy, edit, clear, store" : "2 narrow and 2 wide results: every history of 1..4 of parse (4 inputs), assign, copy, edit, clear, store; both contents compared after each");
    {
        po::options_description d; d.add_options()("a", po::value<Strs>()->composing(), "")("w", po::wvalue<std::vector<std::wstring> >()->composing(), ""); Strs in[4] = { S({}), S({"--a=1"}), S({"--a=2", "--w=x", "p"}), S({"--a=3", "--a=4"}) };
        struct RM { Strs o; }; struct ROp { int k, i, j; }; std::vector<ROp> ops; for (int i = 0; i < 2; ++i) { for (int j = 0; j < 4; ++j) ops.push_back({0, i, j}); ops.push_back({1, i, 1 - i}); ops.push_back({2, i, 1 - i}); ops.push_back({3, i, 0}); ops.push_back({4, i, 0}); ops.push_back({5, i, 0}); }
        for (int wide = 0; wide < 2; ++wide) histories((int)ops.size(), 1, T ? 5 : 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; std::vector<RM> m(2); u64 out = 1; string key = wide ? "wide " : "", bad;
            std::vector<std::unique_ptr<po::parsed_options> > n; std::vector<std::unique_ptr<po::wparsed_options> > w; auto nfresh = [&] { return new po::parsed_options(po::command_line_parser(Strs()).options(d).run()); }; auto wfresh = [&] { return new po::wparsed_options(po::wcommand_line_parser(std::vector<std::wstring>()).options(d).run()); };
            for (int i = 0; i < 2; ++i) { if (wide) w.emplace_back(wfresh()); else n.emplace_back(nfresh()); }
            std::vector<Strs> mapm(1); po::variables_map vm; Strs stored;
            for (size_t s = 0; s < ix.size() && bad.empty(); ++s) {
                const ROp& o = ops[ix[s]]; key += mc::num(o.k) + mc::num(o.i) + mc::num(o.j) + " "; R.transitions(1);
                if (o.k == 0) { std::vector<std::wstring> wi; m[o.i].o.clear(); for (size_t k = 0; k < in[o.j].size(); ++k) { const string& t = in[o.j][k]; m[o.i].o.push_back(t[0] == '-' ? t.substr(2) : "=" + t); wi.push_back(std::wstring(t.begin(), t.end())); } if (wide) *w[o.i] = po::wcommand_line_parser(wi).options(d).run(); else *n[o.i] = po::command_line_parser(in[o.j]).options(d).run(); }
                else if (o.k == 1) { m[o.i] = m[o.j]; if (wide) *w[o.i] = *w[o.j]; else *n[o.i] = *n[o.j]; }
                else if (o.k == 2) { m[o.i] = m[o.j]; if (wide) w[o.i].reset(new po::wparsed_options(*w[o.j])); else n[o.i].reset(new po::parsed_options(*n[o.j])); }
                else if (o.k == 3) { if (m[o.i].o.empty()) continue; if (wide) { if (w[o.i]->options[0].value.empty()) continue; w[o.i]->options[0].value[0] += L"e"; } else n[o.i]->options[0].value[0] += "e"; m[o.i].o[0] += "e"; }
                else if (o.k == 4) { m[o.i].o.clear(); if (wide) w[o.i].reset(wfresh()); else n[o.i]->options.clear(); }
                else if (!wide) { po::store(*n[o.i], vm); for (size_t k = 0; k < m[o.i].o.size(); ++k) if (m[o.i].o[k][0] == 'a') stored.push_back(m[o.i].o[k].substr(2)); Strs got; if (vm.count("a")) got = vm["a"].as<Strs>(); if (got != stored) bad = "stored " + mc::q(got) + " want " + mc::q(stored); }
                for (int i = 0; i < 2; ++i) { Strs g; if (wide) for (size_t k = 0; k < w[i]->options.size(); ++k) { const po::woption& x = w[i]->options[k]; g.push_back(x.string_key + "=" + (x.value.empty() ? string() : string(x.value[0].begin(), x.value[0].end()))); } else for (size_t k = 0; k < n[i]->options.size(); ++k) g.push_back(n[i]->options[k].string_key + "=" + n[i]->options[k].value[0]); if (g != m[i].o) bad = "r" + mc::num(i) + " is " + mc::q(g) + " want " + mc::q(m[i].o); out = mc::mix(out, mc::hstr(mc::q(g))); R.state(out); }
            }
            R.trace(); if (!bad.empty()) R.fail(key, "", bad); R.end(out);
        });
    }
}
#endif

#if PROP == 32
#include <boost/version.hpp>
const char* mc::property = "C32";
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// An event may happen once all the events in 'after' have; every order that respects this is executed.
struct Ev { string name; unsigned after; std::function<void()> f; };
typedef std::map<string, string> Obs;
struct Scene {
    std::vector<Ev> ev; Obs got; std::vector<std::shared_ptr<void> > keep;
    // "after" names events; an unknown name is an error of the harness
    void on(const string& name, const Strs& after, std::function<void()> f)
    {
        unsigned m = 0; for (size_t i = 0; i < after.size(); ++i) { size_t k = 0; while (k < ev.size() && ev[k].name != after[i]) ++k; if (k == ev.size()) { fprintf(stderr, "scene: %s?\n", after[i].c_str()); abort(); } m |= 1u << k; }
        Ev e = { name, m, f }; ev.push_back(e);
    }
    void see(const string& k, const string& v) { got[k] = v; }
};
struct Scenario { string name; std::function<void(Scene&, int)> make; int variants; Obs want; };
template<class T> struct Box { std::unique_ptr<T> p; T& operator*() { return *p; } T* operator->() { return p.get(); } template<class... A> void make(A&&... a) { p.reset(new T(std::forward<A>(a)...)); } void kill() { p.reset(); } };
// wipes the bytes of a string vector before it is destroyed, so that an alias that survives by luck shows other text
static void wipe(Strs& v) { for (size_t i = 0; i < v.size(); ++i) std::fill(v[i].begin(), v[i].end(), '!'); v.clear(); v.shrink_to_fit(); }
static void wipe(std::vector<std::wstring>& v) { for (size_t i = 0; i < v.size(); ++i) std::fill(v[i].begin(), v[i].end(), L'!'); v.clear(); v.shrink_to_fit(); }
static string showMap(const po::variables_map& m) { string r; for (po::variables_map::const_iterator i = m.begin(); i != m.end(); ++i) r += i->first + "=" + showAny(i->second.value()) + (i->second.defaulted() ? "?" : "") + " "; return r; }
static string showParsed(const po::parsed_options& p) { string r; for (size_t i = 0; i < p.options.size(); ++i) { r += p.options[i].string_key + (p.options[i].unregistered ? "?" : "") + mc::q(p.options[i].value) + mc::q(p.options[i].original_tokens); } return r; }
static string help(const po::options_description& d) { std::ostringstream os; os << d; return os.str(); }
static const char* LONG = "a value that is longer than any short string buffer";
static std::wstring widen(const string& s) { return std::wstring(s.begin(), s.end()); }
struct Tg { string s; int n; Strs v; Tg() : n(0) {} };

static std::vector<Scenario> scenarios()
{
    std::vector<Scenario> r; string L = LONG;
    r.push_back({"command line", [=](Scene& s, int var) {
        struct St { Box<Strs> args; Box<po::options_description> d, g; Box<po::positional_options_description> pos; Box<po::command_line_parser> p; Box<po::parsed_options> r; Box<po::variables_map> m; Tg t; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("args", {}, [=] { q->args.make(var ? S({"--name", "short", "-n", "7", "pos1", "pos2"}) : Strs{"--name=" + L, "-n7", L + "1", L + "2"}); });
        s.on("desc", {}, [=] { q->d.make(string("Options")); string n = "name,x", h = "help text of the name"; q->d->add_options()(n.c_str(), po::value<string>(&q->t.s)->required(), h.c_str()); std::fill(n.begin(), n.end(), '!'); std::fill(h.begin(), h.end(), '!'); });
        s.on("group", {}, [=] { q->g.make(string("Group")); q->g->add_options()("number,n", po::value<int>(&q->t.n), "")("rest", po::value<Strs>(&q->t.v), "")("dflt", po::value<string>()->default_value(L), ""); });
        s.on("add", {"desc", "group"}, [=] { q->d->add(*q->g); });
        s.on("~group", {"add"}, [=] { q->g.kill(); });
        s.on("pos", {}, [=] { q->pos.make(); string n = "rest"; q->pos->add(n.c_str(), -1); n[0] = '!'; });
        s.on("parser", {"args"}, [=] { Strs before = *q->args; q->p.make(*q->args); if (before != *q->args) c->see("arguments", "changed"); });
        s.on("~args", {"parser"}, [=] { wipe(*q->args); q->args.kill(); });
        s.on("run", {"parser", "add", "pos"}, [=] { string h = help(*q->d); q->r.make(q->p->options(*q->d).positional(*q->pos).run()); if (help(*q->d) != h) c->see("description", "changed"); });
        s.on("~parser", {"run"}, [=] { q->p.kill(); });
        s.on("~pos", {"run"}, [=] { q->pos.kill(); });
        s.on("store", {"run"}, [=] { q->m.make(); po::store(*q->r, *q->m); });
        s.on("~parsed", {"store"}, [=] { c->see("parsed", showParsed(*q->r)); q->r.kill(); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("notify", {"store"}, [=] { po::notify(*q->m); c->see("targets", q->t.s + " " + mc::num(q->t.n) + mc::q(q->t.v)); });
        s.on("read", {"notify"}, [=] { c->see("map", showMap(*q->m)); q->m.kill(); });
    }, 2, Obs()});
    r.push_back({"wide command line", [=](Scene& s, int var) {
        typedef std::vector<std::wstring> WS; struct St { Box<WS> args; Box<po::options_description> d; Box<po::wcommand_line_parser> p; Box<po::wparsed_options> r, r2; Box<po::variables_map> m; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("args", {}, [=] { q->args.make(); q->args->push_back(var ? L"--w=v\x4e00" : L"--w=" + widen(L)); q->args->push_back(L"--s"); q->args->push_back(widen(L)); q->args->push_back(L"p"); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("w", po::wvalue<std::wstring>(), "")("s", po::value<string>(), "")("d", po::wvalue<std::wstring>()->default_value(L"x", "x"), ""); });
        s.on("parser", {"args"}, [=] { q->p.make(*q->args); });
        s.on("~args", {"parser"}, [=] { wipe(*q->args); q->args.kill(); });
        s.on("run", {"parser", "desc"}, [=] { q->r.make(q->p->options(*q->d).run()); });
        s.on("~parser", {"run"}, [=] { q->p.kill(); });
        s.on("copy", {"run"}, [=] { q->r2.make(*q->r); });
        s.on("~parsed", {"copy"}, [=] { string o; for (size_t i = 0; i < q->r->options.size(); ++i) { const po::woption& w = q->r->options[i]; o += w.string_key + ":"; for (size_t k = 0; k < w.value.size(); ++k) o += mc::q(w.value[k]); for (size_t k = 0; k < w.original_tokens.size(); ++k) o += mc::q(w.original_tokens[k]); } c->see("parsed", o); q->r.kill(); });
        s.on("store", {"copy"}, [=] { q->m.make(); po::store(*q->r2, *q->m); });
        s.on("~copy", {"store"}, [=] { q->r2.kill(); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("notify", {"store"}, [=] { q->m->notify(); });
        s.on("read", {"notify"}, [=] { c->see("map", mc::q((*q->m)["w"].as<std::wstring>()) + (*q->m)["s"].as<string>() + mc::q((*q->m)["d"].as<std::wstring>())); q->m.kill(); });
    }, 2, Obs()});
    r.push_back({"configuration text", [=](Scene& s, int var) {
        struct St { Box<string> text; Box<std::istringstream> is; Box<std::wistringstream> wis; Box<po::options_description> d; Box<po::parsed_options> r; Box<po::wparsed_options> wr; Box<po::variables_map> m; Box<Strs> un; Tg t; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s; bool wide = var & 1, file = var & 2;
        s.on("text", {}, [=] { q->text.make("name = " + L + "\n[sec]\nnumber=5\nw.one=x\nother = " + L + "\n"); });
        s.on("stream", {"text"}, [=] { if (wide) q->wis.make(widen(*q->text)); else q->is.make(*q->text); });
        s.on("~text", {"stream"}, [=] { q->text.kill(); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("name", po::value<string>(&q->t.s), "")("sec.number", po::value<int>(&q->t.n)->required(), "")("sec.w.*", po::value<string>(), ""); });
        s.on("parse", {"stream", "desc"}, [=] { if (wide) q->wr.make(po::parse_config_file(*q->wis, *q->d, true)); else if (file) { q->r.make(po::parse_config_file<char>(*q->is, *q->d, true)); } else q->r.make(po::parse_config_file(*q->is, *q->d, true)); });
        s.on("~stream", {"parse"}, [=] { q->is.kill(); q->wis.kill(); });
        s.on("unrecognized", {"parse"}, [=] { if (wide) { std::vector<std::wstring> u = po::collect_unrecognized(q->wr->options, po::include_positional); q->un.make(); for (size_t i = 0; i < u.size(); ++i) q->un->push_back(string(u[i].begin(), u[i].end())); } else q->un.make(po::collect_unrecognized(q->r->options, po::include_positional)); });
        s.on("store", {"parse"}, [=] { q->m.make(); if (wide) po::store(*q->wr, *q->m); else po::store(*q->r, *q->m); });
        s.on("~parsed", {"store", "unrecognized"}, [=] { q->r.kill(); q->wr.kill(); });
        s.on("read unrecognized", {"unrecognized"}, [=] { c->see("unrecognized", mc::q(*q->un)); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("notify", {"store"}, [=] { po::notify(*q->m); c->see("targets", q->t.s + mc::num(q->t.n)); });
        s.on("read", {"notify"}, [=] { c->see("map", showMap(*q->m)); q->m.kill(); });
    }, 3, Obs()});
    r.push_back({"configuration file", [=](Scene& s, int var) {
        struct St { Box<string> path; Box<po::options_description> d; Box<po::parsed_options> r; Box<po::variables_map> m; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("file", {}, [=] { char t[] = "/tmp/c32.XXXXXX"; int f = mkstemp(t); string b = "name = " + L + "\n"; if (write(f, b.data(), b.size()) < 0) abort(); close(f); q->path.make(t); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("name", po::value<string>(), ""); });
        s.on("parse", {"file", "desc"}, [=] { q->r.make(po::parse_config_file(q->path->c_str(), *q->d)); });
        s.on("~file", {"parse"}, [=] { unlink(q->path->c_str()); q->path.kill(); });
        s.on("store", {"parse"}, [=] { q->m.make(); po::store(*q->r, *q->m); });
        s.on("~parsed", {"store"}, [=] { c->see("parsed", showParsed(*q->r)); q->r.kill(); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("read", {"store"}, [=] { c->see("map", showMap(*q->m)); });
        s.on("~map", {"read"}, [=] { q->m.kill(); });
    }, 1, Obs()});
    r.push_back({"environment", [=](Scene& s, int var) {
        struct Mapper { std::shared_ptr<string> pre; string operator()(const string& n) const { return n.compare(0, pre->size(), *pre) == 0 ? (n == *pre + "NAME" ? "name" : n == *pre + "NUMBER" ? "number" : "") : ""; } };
        struct St { Box<string> prefix; Box<po::options_description> d; Box<po::parsed_options> r; Box<po::variables_map> m; char** saved; std::vector<string> buf; std::vector<char*> ptr; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("environment", {}, [=] { q->saved = environ; q->buf = Strs{"C32_NAME=" + L, "C32_NUMBER=12", "OTHER=1"}; for (size_t i = 0; i < q->buf.size(); ++i) q->ptr.push_back(&q->buf[i][0]); q->ptr.push_back(0); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("name", po::value<string>(), "")("number", po::value<int>(), ""); });
        s.on("prefix", {}, [=] { q->prefix.make("C32_"); });
        s.on("parse", {"environment", "desc", "prefix"}, [=] { environ = &q->ptr[0]; try { if (var == 0) q->r.make(po::parse_environment(*q->d, *q->prefix)); else if (var == 1) q->r.make(po::parse_environment(*q->d, q->prefix->c_str())); else { Mapper m; m.pre.reset(new string(*q->prefix)); q->r.make(po::parse_environment(*q->d, boost::function1<string, string>(m))); } } catch (...) { environ = q->saved; throw; } environ = q->saved; for (size_t i = 0; i < q->buf.size(); ++i) if (q->buf[i] != (i == 0 ? "C32_NAME=" + L : i == 1 ? "C32_NUMBER=12" : "OTHER=1")) c->see("environment", "changed"); });
        s.on("~environment", {"parse"}, [=] { wipe(q->buf); });
        s.on("~prefix", {"parse"}, [=] { q->prefix.kill(); });
        s.on("store", {"parse"}, [=] { q->m.make(); po::store(*q->r, *q->m); });
        s.on("~parsed", {"store"}, [=] { c->see("parsed", showParsed(*q->r)); q->r.kill(); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("read", {"store"}, [=] { c->see("map", showMap(*q->m)); });
        s.on("~map", {"read"}, [=] { q->m.kill(); });
    }, 3, Obs()});
    r.push_back({"two descriptions, one map", [=](Scene& s, int var) {
        struct St { Box<po::options_description> d[2]; Box<po::parsed_options> r[2]; Box<po::variables_map> m; Tg t; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("map", {}, [=] { q->m.make(); });
        for (int i = 0; i < 2; ++i) {
            string n = mc::num(i);
            s.on("desc" + n, {}, [=] { q->d[i].make(); string nm = i ? "second option name" : "first option name"; q->d[i]->add_options()(nm.c_str(), po::value<string>(i ? 0 : &q->t.s)->required(), "")("both", po::value<Strs>(&q->t.v)->composing(), "")(i ? "deflt1" : "deflt0", po::value<string>()->default_value(LONG), ""); });
            s.on("parse" + n, {"desc" + n}, [=] { Strs a; if (var != 1 || i == 0) a.push_back(string("--") + (i ? "second option name" : "first option name") + "=" + L + mc::num(i)); a.push_back("--both=" + mc::num(i)); q->r[i].make(po::command_line_parser(a).options(*q->d[i]).run()); });
            Strs st; st.push_back("parse" + n); st.push_back("map"); if (i) st.push_back("store0");
            s.on("store" + n, st, [=] { po::store(*q->r[i], *q->m); });
            s.on("~parsed" + n, {"store" + n}, [=] { q->r[i].kill(); });
            s.on("~desc" + n, {"store" + n}, [=] { q->d[i].kill(); });
        }
        s.on("notify", {"store1"}, [=] { string e = "ok"; try { po::notify(*q->m); } catch (const po::error& x) { e = x.what(); } c->see("notify", e); c->see("targets", q->t.s + mc::q(q->t.v)); });
        s.on("read", {"notify"}, [=] { c->see("map", showMap(*q->m)); q->m.kill(); });
    }, 2, Obs()});
    r.push_back({"shared option descriptions", [=](Scene& s, int var) {
        struct St { Box<po::options_description> d, e; Box<string> name, text, arg; boost::shared_ptr<po::option_description> od, od2; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("strings", {}, [=] { q->name.make("option name that is long,second-alias,o"); q->text.make(L); q->arg.make("argument name, a long one"); });
        s.on("option", {"strings"}, [=] { po::typed_value<string>* v = po::value<string>(); v->value_name(*q->arg); v->default_value(L, "shown"); q->od.reset(new po::option_description(q->name->c_str(), v, q->text->c_str())); });
        s.on("~strings", {"option"}, [=] { std::fill(q->name->begin(), q->name->end(), '!'); std::fill(q->text->begin(), q->text->end(), '!'); std::fill(q->arg->begin(), q->arg->end(), '!'); q->name.kill(); q->text.kill(); q->arg.kill(); });
        s.on("desc", {}, [=] { q->d.make(string("D")); });
        s.on("add", {"desc", "option"}, [=] { q->d->add(q->od); });
        s.on("~option", {"add"}, [=] { q->od.reset(); });
        s.on("desc2", {}, [=] { q->e.make(string("E")); });
        s.on("add2", {"desc2", "add"}, [=] { if (var) q->e->add(*q->d); else q->e->add(q->d->options()[0]); });
        s.on("share", {"add"}, [=] { q->od2 = q->d->options()[0]; });
        s.on("help1", {"add"}, [=] { c->see("help1", help(*q->d)); });
        s.on("~desc", {"help1", "add2", "share"}, [=] { q->d.kill(); });
        s.on("read shared", {"share"}, [=] { c->see("shared", q->od2->long_name() + "/" + q->od2->description() + "/" + q->od2->format_name() + "/" + q->od2->format_parameter() + "/" + q->od2->semantic()->name() + "/" + q->od2->canonical_display_name(0)); });
        s.on("~share", {"read shared"}, [=] { q->od2.reset(); });
        s.on("help2", {"add2"}, [=] { c->see("help2", help(*q->e)); });
        s.on("~desc2", {"help2"}, [=] { q->e.kill(); });
    }, 2, Obs()});
    r.push_back({"linked maps", [=](Scene& s, int var) {
        struct St { Box<po::options_description> d; Box<po::variables_map> base, top, copy; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("a", po::value<string>()->default_value(L), "")("b", po::value<string>(), ""); });
        s.on("base", {}, [=] { q->base.make(); });
        s.on("top", {"base"}, [=] { if (var) { q->top.make(); q->top->next(&*q->base); } else q->top.make(&*q->base); });
        s.on("store base", {"base", "desc"}, [=] { po::store(po::command_line_parser(Strs{"--a=" + L + "base", "--b=base"}).options(*q->d).run(), *q->base); });
        s.on("store top", {"top", "desc"}, [=] { po::store(po::command_line_parser(Strs()).options(*q->d).run(), *q->top); });
        s.on("~desc", {"store base", "store top"}, [=] { q->d.kill(); });
        s.on("copy", {"store top"}, [=] { q->copy.make(*q->top); });
        s.on("read top", {"store top", "store base"}, [=] { c->see("top", (*q->top)["a"].as<string>() + (*q->top)["b"].as<string>()); });
        s.on("~top", {"read top", "copy"}, [=] { q->top.kill(); });
        s.on("read copy", {"copy", "store base"}, [=] { c->see("copy", (*q->copy)["a"].as<string>() + (*q->copy)["b"].as<string>()); });
        s.on("~copy", {"read copy"}, [=] { q->copy.kill(); });
        s.on("~base", {"read copy", "read top"}, [=] { c->see("base", showMap(*q->base)); q->base.kill(); });
    }, 2, Obs()});
    r.push_back({"errors outlive their causes", [=](Scene& s, int var) {
        struct St { Box<Strs> args; Box<po::options_description> d; Box<po::parsed_options> r; Box<po::variables_map> m; std::exception_ptr e; Box<string> text; const char* first; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("args", {}, [=] { Strs A[8] = { Strs{"--unknown" + L}, Strs{"--ab"}, Strs{"--number"}, Strs{"--number=" + L}, Strs{"--flag=" + L}, Strs(), Strs{"--number=1", "--number=2"}, Strs{L + "positional"} }; q->args.make(A[var]); });
        s.on("desc", {}, [=] { q->d.make(); string n = "number and a long option name"; q->d->add_options()("number", po::value<int>(), "")("flag", "")("abc", "")("abd", "")("req", po::value<string>()->required(), ""); });
        s.on("map", {}, [=] { q->m.make(); });
        s.on("fail", {"args", "desc", "map"}, [=] { try { po::positional_options_description none; if (var == 7) q->r.make(po::command_line_parser(*q->args).options(*q->d).positional(none).run()); else q->r.make(po::command_line_parser(*q->args).options(*q->d).run()); po::store(*q->r, *q->m); po::notify(*q->m); } catch (...) { q->e = std::current_exception(); } });
        s.on("~args", {"fail"}, [=] { wipe(*q->args); q->args.kill(); });
        s.on("~desc", {"fail"}, [=] { q->d.kill(); });
        s.on("~map", {"fail"}, [=] { q->m.kill(); });
        s.on("~parsed", {"fail"}, [=] { q->r.kill(); });
        s.on("what", {"fail"}, [=] { string a, b; try { std::rethrow_exception(q->e); } catch (const po::error& x) { q->first = x.what(); a = x.what(); b = x.what(); if (a != b) a += " then " + b; if (const po::error_with_option_name* o = dynamic_cast<const po::error_with_option_name*>(&x)) a += " for " + o->get_option_name(); } c->see("message", a); });
        s.on("again", {"what"}, [=] { string a; try { std::rethrow_exception(q->e); } catch (const po::error& x) { a = x.what(); } c->see("message again", q->first == a ? a : a + ", but the first call gave " + q->first); });
        s.on("~error", {"again"}, [=] { q->e = std::exception_ptr(); });
    }, 8, Obs()});
    r.push_back({"custom parsers", [=](Scene& s, int var) {
        struct Ex { std::shared_ptr<string> k; std::pair<string, string> operator()(const string& t) const { return t.size() && t[0] == '@' ? std::make_pair(*k, t.substr(1)) : std::make_pair(string(), string()); } };
        struct Sty { std::shared_ptr<string> k; std::vector<po::option> operator()(Strs& a) const { std::vector<po::option> r; if (!a.empty() && a[0][0] == '@') { po::option o; o.string_key = *k; o.value.push_back(a[0].substr(1)); o.original_tokens.push_back(a[0]); r.push_back(o); a.erase(a.begin()); } return r; } };
        struct St { Box<Strs> args; Box<po::options_description> d; Box<po::command_line_parser> p; Box<Ex> ex; Box<Sty> sty; Box<po::parsed_options> r; Box<po::variables_map> m; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("args", {}, [=] { q->args.make(Strs{"@" + L, "--b=1", "x"}); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("a", po::value<Strs>(), "")("b", po::value<int>(), ""); });
        s.on("functor", {}, [=] { q->ex.make(); q->sty.make(); q->ex->k.reset(new string("a")); q->sty->k.reset(new string("a")); });
        s.on("parser", {"args", "functor", "desc"}, [=] { q->p.make(*q->args); if (var) q->p->options(*q->d).extra_style_parser(*q->sty); else q->p->options(*q->d).extra_parser(*q->ex); });
        s.on("~functor", {"parser"}, [=] { q->ex.kill(); q->sty.kill(); });
        s.on("~args", {"parser"}, [=] { wipe(*q->args); q->args.kill(); });
        s.on("run", {"parser"}, [=] { q->r.make(q->p->run()); });
        s.on("~parser", {"run"}, [=] { q->p.kill(); });
        s.on("store", {"run"}, [=] { q->m.make(); po::store(*q->r, *q->m); });
        s.on("~parsed", {"store"}, [=] { string o; for (size_t k = 0; k < q->r->options.size(); ++k) o += q->r->options[k].string_key + mc::q(q->r->options[k].value); c->see("parsed", o); q->r.kill(); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("read", {"store"}, [=] { c->see("map", showMap(*q->m)); });
        s.on("~map", {"read"}, [=] { q->m.kill(); });
    }, 2, Obs()});
    r.push_back({"notifiers and values", [=](Scene& s, int var) {
        struct St { Box<po::options_description> d; Box<po::variables_map> m, m2; Box<string> dv; std::shared_ptr<Strs> calls; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("default", {}, [=] { q->dv.make(L); q->calls.reset(new Strs); });
        s.on("desc", {"default"}, [=] { q->d.make(); std::shared_ptr<Strs> k = q->calls; q->d->add_options()("a", po::value<string>()->default_value(*q->dv)->notifier([k](const string& v) { k->push_back(v); }), "")("i", po::value<string>()->implicit_value(*q->dv)->notifier([k](const string& v) { k->push_back(v); }), ""); });
        s.on("~default", {"desc"}, [=] { std::fill(q->dv->begin(), q->dv->end(), '!'); q->dv.kill(); });
        s.on("store", {"desc"}, [=] { q->m.make(); po::store(po::command_line_parser(var ? S({"--i"}) : S({})).options(*q->d).run(), *q->m); });
        s.on("~desc", {"store"}, [=] { q->d.kill(); });
        s.on("copy", {"store"}, [=] { q->m2.make(*q->m); });
        s.on("edit", {"copy"}, [=] { q->m2->at("a").as<string>() += "edited"; });
        s.on("notify", {"copy"}, [=] { q->calls->clear(); po::notify(*q->m); c->see("calls", mc::q(*q->calls)); });
        s.on("~map", {"notify"}, [=] { q->m.kill(); });
        s.on("notify copy", {"edit"}, [=] { q->calls->clear(); po::notify(*q->m2); c->see("calls of the copy", mc::q(*q->calls)); });
        s.on("~copy", {"notify copy"}, [=] { q->m2.kill(); });
    }, 2, Obs()});
    r.push_back({"split strings", [=](Scene& s, int var) {
        struct St { Box<string> text, sep; Box<std::wstring> wtext; Box<Strs> out; Box<std::vector<std::wstring> > wout; Box<po::options_description> d; Box<po::parsed_options> r; };
        std::shared_ptr<St> x(new St); s.keep.push_back(x); St* q = x.get(); Scene* c = &s;
        s.on("text", {}, [=] { q->text.make("--a='" + L + "' b"); q->sep.make(" "); q->wtext.make(widen(*q->text)); });
        s.on("desc", {}, [=] { q->d.make(); q->d->add_options()("a", po::value<string>(), ""); });
        s.on("split", {"text"}, [=] { q->out.make(po::split_unix(*q->text, *q->sep, "'", "\\")); q->wout.make(po::split_unix(*q->wtext)); });
        s.on("~text", {"split"}, [=] { std::fill(q->text->begin(), q->text->end(), '!'); q->text.kill(); q->sep.kill(); q->wtext.kill(); });
        s.on("parse", {"split", "desc"}, [=] { q->r.make(po::command_line_parser(*q->out).options(*q->d).run()); });
        s.on("~pieces", {"parse"}, [=] { c->see("wide", string((*q->wout)[0].begin(), (*q->wout)[0].end())); wipe(*q->out); q->out.kill(); q->wout.kill(); });
        s.on("read", {"parse"}, [=] { c->see("parsed", showParsed(*q->r)); });
        s.on("~parsed", {"read"}, [=] { q->r.kill(); });
        s.on("~desc", {"parse"}, [=] { q->d.kill(); });
    }, 1, Obs()});
    return r;
}
// what each scenario must show, whatever the order ("$" stands for LONG)
static string wanted(const string& n, int var)
{
    static const char* W[][2] = {
        {"command line 0", "map: dflt=s:$? name=s:$ number=i:7 rest=vs:$1|$2(2) \nparsed: name[\"$\"][\"--name=$\"]number[\"7\"][\"-n7\"]rest[\"$1\"][\"$1\"]rest[\"$2\"][\"$2\"]\ntargets: $ 7[\"$1\", \"$2\"]\n"},
        {"command line 1", "map: dflt=s:$? name=s:short number=i:7 rest=vs:pos1|pos2(2) \nparsed: name[\"short\"][\"--name\", \"short\"]number[\"7\"][\"-n\", \"7\"]rest[\"pos1\"][\"pos1\"]rest[\"pos2\"][\"pos2\"]\ntargets: short 7[\"pos1\", \"pos2\"]\n"},
        {"wide command line 0", "map: L\"$\"$L\"x\"\nparsed: w:L\"$\"L\"--w=$\"s:L\"$\"L\"--s\"L\"$\":L\"p\"L\"p\"\n"},
        {"wide command line 1", "map: L\"v\\u{4e00}\"$L\"x\"\nparsed: w:L\"v\\u{4e00}\"L\"--w=v\\u{4e00}\"s:L\"$\"L\"--s\"L\"$\":L\"p\"L\"p\"\n"},
        {"configuration text 0", "map: name=s:$ sec.number=i:5 sec.w.one=s:x \ntargets: $5\nunrecognized: [\"sec.other\", \"$\"]\n"},
        {"configuration text 1", "map: name=s:$ sec.number=i:5 sec.w.one=s:x \ntargets: $5\nunrecognized: [\"sec.other\", \"$\"]\n"},
        {"configuration text 2", "map: name=s:$ sec.number=i:5 sec.w.one=s:x \ntargets: $5\nunrecognized: [\"sec.other\", \"$\"]\n"},
        {"configuration file 0", "map: name=s:$ \nparsed: name[\"$\"][\"name\", \"$\"]\n"},
        {"environment 0", "map: name=s:$ number=i:12 \nparsed: name[\"$\"][]number[\"12\"][]\n"},
        {"environment 1", "map: name=s:$ number=i:12 \nparsed: name[\"$\"][]number[\"12\"][]\n"},
        {"environment 2", "map: name=s:$ number=i:12 \nparsed: name[\"$\"][]number[\"12\"][]\n"},
        {"two descriptions, one map 0", "map: both=vs:0|1(2) deflt0=s:$? deflt1=s:$? first option name=s:$0 second option name=s:$1 \nnotify: ok\ntargets: $0[\"0\", \"1\"]\n"},
        {"two descriptions, one map 1", "map: both=vs:0|1(2) deflt0=s:$? deflt1=s:$? first option name=s:$0 \nnotify: the option '--second option name' is required but missing\ntargets: []\n"},
        {"linked maps 0", "base: a=s:$base b=s:base \ncopy: $basebase\ntop: $basebase\n"},
        {"linked maps 1", "base: a=s:$base b=s:base \ncopy: $basebase\ntop: $basebase\n"},
        {"errors outlive their causes 0", "message: unrecognised option '--unknown$' for --unknown$\nmessage again: unrecognised option '--unknown$'\n"},
        {"errors outlive their causes 1", "message: option '--ab' is ambiguous and matches '--abc', and '--abd' for --ab\nmessage again: option '--ab' is ambiguous and matches '--abc', and '--abd'\n"},
        {"errors outlive their causes 2", "message: the required argument for option '--number' is missing for --number\nmessage again: the required argument for option '--number' is missing\n"},
        {"errors outlive their causes 3", "message: the argument ('$') for option '--number' is invalid for --number\nmessage again: the argument ('$') for option '--number' is invalid\n"},
        {"errors outlive their causes 4", "message: option '--flag' does not take any arguments for --flag\nmessage again: option '--flag' does not take any arguments\n"},
        {"errors outlive their causes 5", "message: the option '--req' is required but missing for --req\nmessage again: the option '--req' is required but missing\n"},
        {"errors outlive their causes 6", "message: option '--number' cannot be specified more than once for --number\nmessage again: option '--number' cannot be specified more than once\n"},
        {"errors outlive their causes 7", "message: too many positional options have been specified on the command line\nmessage again: too many positional options have been specified on the command line\n"},
        {"custom parsers 0", "map: a=vs:$(1) b=i:1 \nparsed: a[\"$\"]b[\"1\"][\"x\"]\n"},
        {"custom parsers 1", "map: a=vs:$(1) b=i:1 \nparsed: a[\"$\"]b[\"1\"][\"x\"]\n"},
        {"notifiers and values 0", "calls: [\"$\"]\ncalls of the copy: [\"$edited\"]\n"},
        {"notifiers and values 1", "calls: [\"$\", \"$\"]\ncalls of the copy: [\"$edited\", \"$\"]\n"},
        {"split strings 0", "parsed: a[\"$\"][\"--a=$\"][\"b\"][\"b\"]\nwide: --a=$\n"},
    };
    for (size_t i = 0; i < sizeof W / sizeof *W; ++i) if (n + " " + mc::num(var) == W[i][0]) { string r; for (const char* p = W[i][1]; *p; ++p) if (*p == '$') r += LONG; else r += *p; return r; }
    return "";
}
// runs one order of one scene; the observations as text
static string play(const Scenario& sc, int var, const std::vector<int>& order)
{
    Scene s; sc.make(s, var); string err;
    try { for (size_t k = 0; k < order.size(); ++k) s.ev[order[k]].f(); } catch (const std::exception& e) { err = e.what(); } catch (...) { err = "unknown exception"; }
    if (!err.empty()) s.got["exception"] = err;
    string r; for (Obs::iterator k = s.got.begin(); k != s.got.end(); ++k) r += k->first + ": " + k->second + "\n"; return r;
}
// the reference: nothing is destroyed before everything that can be done has been done
static string refOrder(const Strs& names, const std::vector<unsigned>& after, const Scenario& sc, int var)
{
    int n = (int)names.size(); std::vector<int> o; unsigned done = 0;
    while ((int)o.size() < n) { int best = -1; for (int pass = 0; pass < 2 && best < 0; ++pass) for (int k = 0; k < n && best < 0; ++k) if (!(done >> k & 1) && !(after[k] & ~done) && (pass || names[k][0] != '~')) best = k; o.push_back(best); done |= 1u << best; }
    return play(sc, var, o);
}
void mc::explore(Run& R)
{
    std::vector<Scenario> sc = scenarios();
    for (size_t i = 0; i < sc.size(); ++i) for (int var = 0; var < sc[i].variants; ++var) {
        Strs names; std::vector<unsigned> after; { Scene probe; sc[i].make(probe, var); for (size_t k = 0; k < probe.ev.size(); ++k) { names.push_back(probe.ev[k].name); after.push_back(probe.ev[k].after); } }
        int n = (int)names.size();
        // Events that need nothing only create objects of their own: they run first, in the order listed or reversed.
        unsigned first = 0; for (int k = 0; k < n; ++k) if (!after[k]) first |= 1u << k;
        std::map<unsigned, u64> memo; std::function<u64(unsigned)> orders = [&](unsigned done) -> u64 { if (done == (1u << n) - 1) return 1; u64& r = memo[done]; if (r) return r; u64 t = 0; for (int k = 0; k < n; ++k) if (!(done >> k & 1) && !(after[k] & ~done)) t += orders(done | 1u << k); return memo[done] = t; };
        u64 total = orders(first); if (getenv("C32_COUNT")) fprintf(stderr, "%s %d: %llu\n", sc[i].name.c_str(), var, (unsigned long long)total);
        R.space(sc[i].name + " " + mc::num(var), "every order of the " + mc::num(n) + " events of construction, use and destruction that respects what each needs: " + mc::num(total));
        string want = wanted(sc[i].name, var); bool known = !want.empty();
        std::vector<int> order; bool ref = false;
        std::function<void(unsigned)> go = [&](unsigned done) {
            if ((int)order.size() == n) {
                if (!known && !ref) { ref = true; want = refOrder(names, after, sc[i], var); }
                if (!R.begin()) return;
                string key = sc[i].name + " " + mc::num(var) + ":"; for (int k = 0; k < n; ++k) key += " " + names[order[k]]; R.describe(key);
                string got; long leak = 0;
                for (int rep = 0; rep < 3; ++rep) { got.clear(); got.shrink_to_fit(); long before = g_live; got = play(sc[i], var, order); leak = g_live - before - (got.capacity() > 15 ? 1 : 0); if (leak <= 0) break; }
                R.transitions(n);
                { unsigned d = 0; for (int k = 0; k < n; ++k) { d |= 1u << order[k]; R.state(mc::mix(i * 16 + var, d)); } }
                if (got != want) R.fail(key, want, got); else if (leak > 0) R.fail(key, "all memory released", mc::num(leak) + " allocations lost each time", "leak");
                R.trace(); if (R.want_sample()) R.sample(key); R.end(mc::hstr(got)); return;
            }
            for (int k = 0; k < n; ++k) if (!(done >> k & 1) && !(after[k] & ~done)) { order.push_back(k); go(done | 1u << k); order.pop_back(); }
        };
        for (int rev = 0; rev < 2; ++rev) { order.clear(); for (int k = 0; k < n; ++k) { int e = rev ? n - 1 - k : k; if (first >> e & 1) order.push_back(e); } go(first); }
    }
}
#endif
