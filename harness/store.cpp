// C16 store histories, C17 notification, C19 defaults and implicit values, C20 chained maps, C30 sources.
#include "vmmodel.hpp"
using namespace cm;
using mc::Run;
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
typedef std::vector<Item> Items;
extern char** environ;

// one kind of declaration together with the ways it can occur in a store
struct Kind { Decl d; std::vector<std::vector<Strs> > occ; };
static Kind kind(const string& names, const string& spec, const std::vector<std::vector<Strs> >& extra = std::vector<std::vector<Strs> >())
{
    Kind k; k.d = D(names, spec); string a = "1", b = "2";
    typedef std::vector<Strs> V; Strs bare, one(1, a), two(1, b), both; both.push_back(a); both.push_back(b);
    k.occ.push_back(V());                       // absent
    if (k.d.zero) { k.occ.push_back(V(1, bare)); V v(2, bare); k.occ.push_back(v); }
    else {
        k.occ.push_back(V(1, one)); k.occ.push_back(V(1, two));
        V v; v.push_back(one); v.push_back(two); k.occ.push_back(v);
        k.occ.push_back(V(1, both)); if (k.d.type == "str" || k.d.type == "vstr" || k.d.type == "none") k.occ.push_back(V(1, Strs(1, "")));
        if (k.d.hasImpl || k.d.multi) { k.occ.push_back(V(1, bare)); V w; w.push_back(one); w.push_back(bare); k.occ.push_back(w); }
        if (k.d.type == "int" || k.d.type == "vint" || k.d.type == "oint" || k.d.type == "bool") k.occ.push_back(V(1, Strs(1, "bad")));
    }
    for (size_t i = 0; i < extra.size(); ++i) k.occ.push_back(extra[i]);
    return k;
}
static const char* SPEC[] = { "str", "str def=d", "int", "int def=7", "vstr comp", "vstr", "vint comp def=5|6", "bool switch", "str impl=i", "vstr multi comp", "none", "none zero", "str req", "oint", "str def=d impl=i", "vint", "bool", "int comp", "vstr def=x", "str def=d req" };
static const int NS = sizeof SPEC / sizeof *SPEC;

struct Op { int kind; Items items; int desc; };    // kind 0 store, 1 notify, 2 clear, 3 lookups only; desc: bit set of declared options
static string str(const Op& o)
{
    if (o.kind == 1) return "notify"; if (o.kind == 2) return "clear"; if (o.kind == 3) return "lookup";
    string s = "store("; for (size_t i = 0; i < o.items.size(); ++i) s += (i ? " " : "") + o.items[i].key + "=" + mc::q(o.items[i].tok) + (o.items[i].unreg ? "?" : ""); return s + " desc=" + mc::num(o.desc) + ")";
}
static string str(const std::vector<Op>& h, const std::vector<int>& ix) { string s; for (size_t i = 0; i < ix.size(); ++i) s += (i ? " " : "") + str(h[ix[i]]); return s; }

struct World {                     // declarations and the real descriptions for every subset
    Decls all; std::vector<Decls> sub; std::vector<std::shared_ptr<po::options_description> > real; std::vector<Target> tg; Log log; int prefix; u64 h;
    World(const Decls& a, int pf = st::allow_long) : all(a), tg(a.size()), prefix(pf), h(mc::hstr(cm::str(a)))
    {
        for (unsigned m = 0; m < (1u << a.size()); ++m) { Decls d; std::shared_ptr<po::options_description> r(new po::options_description); for (size_t i = 0; i < a.size(); ++i) if (m >> i & 1) { d.push_back(a[i]); r->add_options()(a[i].names.c_str(), make(a[i], &tg[i], &log), ""); } sub.push_back(d); real.push_back(r); }
    }
    World(const World&) = delete;
};
// runs one history on model and library; compares outcomes of every step and the map at the end
static bool runHistory(Run& R, World& W, const std::vector<Op>& ops, const std::vector<int>& ix, u64& out)
{
    VModel m; po::variables_map vm; string key = cm::str(W.all) + " history " + str(ops, ix);
    for (size_t i = 0; i < W.tg.size(); ++i) W.tg[i].reset();
    u64 h = W.h; R.state(h); std::map<string, string> target; bool unsureTarget = false;
    for (size_t s = 0; s < ix.size(); ++s) {
        const Op& o = ops[ix[s]]; R.transitions(1);
        if (o.kind == 2) { m.clear(); vm.clear(); }
        else if (o.kind == 0) {
            bool as; Outcome w = m.store(W.sub[o.desc], o.items, W.prefix, as), x = doStore(parsed(*W.real[o.desc], o.items, W.prefix), vm);
            w.name = strip(w.name);
            if (as && !(w == x)) { R.fail(key + " step " + mc::num(s + 1), w.str(), x.str()); return false; }
            out = mc::mix(out, mc::hstr(x.kind));
        } else if (o.kind == 1) {
            W.log.calls.clear(); Outcome x; 
            try { po::notify(vm); } catch (...) { Res r = current(); x = Outcome(r.kind, r.name); }
            if (!m.dirty) {
                std::set<string> missing; for (std::map<string, string>::iterator r = m.req.begin(); r != m.req.end(); ++r) if (!m.m.count(r->first) || !m.m[r->first].has) missing.insert(r->second);
                Strs want; std::map<string, const Decl*> by; for (size_t i = 0; i < W.all.size(); ++i) by[VModel::keyOfDecl(W.all[i])] = &W.all[i];
                if (missing.empty()) for (std::map<string, VModel::Cell>::iterator c = m.m.begin(); c != m.m.end(); ++c) { const Decl* d = by[c->first]; if (d && d->type != "none") { want.push_back(c->first + "=" + VModel::render(*d, c->second)); target[c->first] = VModel::render(*d, c->second); } }
                bool ok = missing.empty() ? x.kind == "ok" : x.kind == "required" && missing.count(x.name);
                if (!ok) { R.fail(key + " step " + mc::num(s + 1), missing.empty() ? "ok" : "required option " + *missing.begin() + " missing", x.str()); return false; }
                Strs got = W.log.calls; std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
                if (got != want) { R.fail(key + " step " + mc::num(s + 1) + " notifier calls", mc::q(want), mc::q(got)); return false; }
            } else unsureTarget = true;
            if (!unsureTarget) for (size_t i = 0; i < W.all.size(); ++i) { if (W.all[i].type == "none") continue; string k = VModel::keyOfDecl(W.all[i]), w = target.count(k) ? target[k] : Target().text(W.all[i]), g = W.tg[i].text(W.all[i]); if (w != g) { R.fail(key + " step " + mc::num(s + 1) + " target of " + k, w, g); return false; } }
            out = mc::mix(out, mc::hstr(x.kind));
        } else { for (size_t i = 0; i < W.all.size(); ++i) { (void)vm[W.all[i].names]; (void)vm[VModel::keyOfDecl(W.all[i])].empty(); (void)vm.count("nope"); (void)vm["nope"]; } }
        h = mc::mix(h, m.hash()); R.state(mc::mix(W.h, m.hash()));
    }
    string w, g;
    if (!sameMap(m, W.all, vm, w, g)) { R.fail(key, w, g); return false; }
    for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) out = mc::mix(out, mc::hstr(i->first + showAny(i->second.value())));
    return true;
}
template<class F> static void histories(int n, int lo, int hi, F f)
{
    for (int l = lo; l <= hi; ++l) { std::vector<int> ix(l, 0); for (;;) { f(ix); int k = l - 1; while (k >= 0 && ++ix[k] == n) ix[k--] = 0; if (k < 0) break; } }
}
static void explore(Run& R, World& W, const std::vector<Op>& ops, int lo, int hi)
{
    histories((int)ops.size(), lo, hi, [&](const std::vector<int>& ix) {
        if (!R.begin()) return; u64 out = 1; runHistory(R, W, ops, ix, out); R.trace();
        if (R.want_sample()) R.sample(cm::str(W.all) + ": " + str(ops, ix)); R.end(out);
    });
}
static Op st_(const Items& it, int desc) { Op o; o.kind = 0; o.items = it; o.desc = desc; return o; }
static Op simple(int k) { Op o; o.kind = k; o.desc = 0; return o; }
static void occ(Items& it, const Kind& k, size_t n) { for (size_t j = 0; j < k.occ[n].size(); ++j) it.push_back(Item(VModel::keyOfDecl(k.d), k.occ[n][j])); }

#if PROP == 16
const char* mc::property = "C16";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("single option", T ? "each of 20 kinds of option: every history of 1..5 operations (all occurrence forms, clear, notify, lookup)" : "each of 20 kinds of option: every history of 1..4 operations (all occurrence forms, clear, notify, lookup)");
    for (int i = 0; i < NS; ++i) {
        Kind k = kind("a", SPEC[i]); Decls d(1, k.d); World W(d); std::vector<Op> ops;
        for (size_t n = 0; n < k.occ.size(); ++n) { Items it; occ(it, k, n); ops.push_back(st_(it, 1)); }
        ops.push_back(simple(1)); ops.push_back(simple(2)); ops.push_back(simple(3));
        ::explore(R, W, ops, 1, T ? 5 : 4);
    }
    R.space("pairs of options", T ? "every ordered pair of 20 kinds: every history of 1..3 stores, each any combination of occurrences in either order, clear, notify" : "every ordered pair of 20 kinds: every history of 1..2 stores with any combination of occurrences; 3 stores for 10 kinds");
    for (int i = 0; i < NS; ++i) for (int j = 0; j < NS; ++j) {
        Kind a = kind("a", SPEC[i]), b = kind("b", SPEC[j]); Decls d; d.push_back(a.d); d.push_back(b.d); World W(d); std::vector<Op> ops;
        for (size_t x = 0; x < a.occ.size(); ++x) for (size_t y = 0; y < b.occ.size(); ++y) { Items it, ti; occ(it, a, x); occ(it, b, y); ops.push_back(st_(it, 3)); if (x && y && T) { occ(ti, b, y); occ(ti, a, x); ops.push_back(st_(ti, 3)); } }
        for (size_t x = 0; x < 3 && x < a.occ.size(); ++x) { Items it; occ(it, a, x); ops.push_back(st_(it, 1)); }
        ops.push_back(simple(2));
        ::explore(R, W, ops, 1, 2);
        if (T || (i % 2 == 0 && j % 2 == 1 && i < 12 && j < 12)) ::explore(R, W, ops, 3, 3);
    }
    R.space("three options, parts", "three options of 8 triples of kinds declared in different descriptions (every subset): every history of 1..3 stores from 24");
    for (int t = 0; t < 8; ++t) {
        Kind k[3]; Decls d; const char* nm[3] = {"a", "b", "c"}; for (int i = 0; i < 3; ++i) { k[i] = kind(nm[i], SPEC[(t * 3 + i * 7) % NS]); d.push_back(k[i].d); }
        World W(d); std::vector<Op> ops;
        for (int desc = 1; desc < 8; ++desc) for (int v = 1; v < 4; ++v) { Items it; for (int i = 0; i < 3; ++i) if (desc >> i & 1) occ(it, k[i], std::min<size_t>(v == 3 ? (i == 1 ? 0 : 1) : v, k[i].occ.size() - 1)); ops.push_back(st_(it, desc)); }
        { Items it; it.push_back(Item("zz", Strs(1, "1"))); occ(it, k[0], 1); ops.push_back(st_(it, 7)); it.clear(); occ(it, k[0], 1); it.push_back(Item("zz", Strs(1, "1"), true)); it.push_back(Item("", Strs(1, "pos"))); occ(it, k[1], 1); ops.push_back(st_(it, 7)); it.clear(); occ(it, k[2], 1); ops.push_back(st_(it, 3)); }
        ops.push_back(simple(2)); ops.push_back(simple(1));
        ::explore(R, W, ops, 1, T ? 4 : 3);
    }
    R.space("interleaved occurrences", "occurrences of composing and single options interleaved inside one store in every order (up to 6 items), then a second store");
    {
        Decls d; d.push_back(D("a", "vstr comp")); d.push_back(D("b", "str")); d.push_back(D("c", "vint")); World W(d); std::vector<Op> ops; Strs al = S({"a=1", "a=2", "b=1", "c=3", "c=4"});
        sequences(al, 1, T ? 6 : 5, [&](const std::vector<int>& ix) { Items it; for (size_t i = 0; i < ix.size(); ++i) it.push_back(Item(al[ix[i]].substr(0, 1), Strs(1, al[ix[i]].substr(2)))); ops.push_back(st_(it, 7)); });
        int n = (int)ops.size(); { Items it; it.push_back(Item("a", Strs(1, "9"))); it.push_back(Item("b", Strs(1, "9"))); it.push_back(Item("c", Strs(1, "9"))); ops.push_back(st_(it, 7)); }
        for (int i = 0; i < n; ++i) for (int f = 0; f < 3; ++f) { if (!R.begin()) continue; std::vector<int> ix; if (f == 1) ix.push_back(n); ix.push_back(i); if (f == 2) ix.push_back(n); u64 o = 1; runHistory(R, W, ops, ix, o); R.trace(); R.end(o); }
    }
    R.space("long histories", "every block of 1..2 of 8 operations repeated to 5..200 stores; one deviating store at every place of up to 40");
    for (int t = 0; t < 10; ++t) {
        Kind a = kind("a", SPEC[t * 2]), b = kind("b", SPEC[(t * 2 + 5) % NS]); Decls d; d.push_back(a.d); d.push_back(b.d); World W(d); std::vector<Op> ops;
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { Items it; occ(it, a, x); occ(it, b, y); ops.push_back(st_(it, 3)); }
        { Items it; occ(it, a, a.occ.size() - 1); ops.push_back(st_(it, 3)); occ(it, b, 1); ops.push_back(st_(it, 1)); } ops.push_back(simple(2)); ops.push_back(simple(1));
        histories((int)ops.size(), 1, 2, [&](const std::vector<int>& ix) { for (int len = 5; len <= (T ? 400 : 200); len = len * 3 / 2) { if (!R.begin()) continue; std::vector<int> h; for (int i = 0; i < len; ++i) h.push_back(ix[i % ix.size()]); u64 o = 1; runHistory(R, W, ops, h, o); R.trace(); R.end(o); } });
        for (int base = 0; base < 4; ++base) for (size_t odd = 0; odd < ops.size(); ++odd) for (int len = 4; len <= 40; len += 6) for (int at = 0; at < len; ++at) { if (!R.begin()) continue; std::vector<int> h(len, base); h[at] = (int)odd; u64 o = 1; runHistory(R, W, ops, h, o); R.trace(); R.end(o); }
    }
    R.space("many options", "stores of 1..130 options of mixed kinds in two halves, an explicit one at every place");
    for (int n = 1; n <= 130; n += n < 10 ? 1 : 17) {
        po::options_description d; Decls ds; for (int i = 0; i < n; ++i) { ds.push_back(D("o" + mc::num(i), SPEC[i * 3 % 12])); d.add_options()(ds.back().names.c_str(), make(ds.back()), ""); }
        for (int at = 0; at < n; ++at) for (int f = 0; f < 3; ++f) {
            if (!R.begin()) continue; VModel m; po::variables_map vm; bool as; Items i1, i2; i1.push_back(Item(ds[at].key(), ds[at].zero ? Strs() : Strs(1, "1"))); for (int i = 0; i < n; ++i) i2.push_back(Item(ds[i].key(), ds[i].zero ? Strs() : Strs(1, "2")));
            Outcome w, x; for (int s = 0; s < 2; ++s) { const Items& it = (s ^ (f == 1)) ? i2 : i1; w = m.store(ds, it, 1, as); x = doStore(parsed(d, it, 1), vm); R.transitions(it.size()); if (as && !(w == x)) R.fail("many options " + mc::num(n) + " at " + mc::num(at), w.str(), x.str()); if (f == 2) break; }
            string a, b; if (!sameMap(m, ds, vm, a, b)) R.fail("many options " + mc::num(n) + " at " + mc::num(at) + " form " + mc::num(f), a, b); R.state(m.hash()); R.trace(); R.end(m.hash());
        }
    }
    R.space("many options, several occurrences", "stores of 1..300 options that collect values or hold one, every option occurring 1..3 times round by round or one after another, then a second and a third store");
    static const int many[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300};
    for (size_t q = 0; q < sizeof many / sizeof *many; ++q) {
        int n = many[q]; static const char* sp[] = {"vstr", "vstr comp", "vint", "str", "vint comp", "vstr def=d|e"}; po::options_description d; Decls ds;
        for (int i = 0; i < n; ++i) { ds.push_back(D("o" + mc::num(i), sp[i % 6])); d.add_options()(ds.back().names.c_str(), make(ds.back()), ""); }
        for (int rounds = 1; rounds <= 3; ++rounds) for (int order = 0; order < 3; ++order) for (int part = 0; part < 3; ++part) {
            if (!R.begin()) continue; VModel m; po::variables_map vm; string key = "many options " + mc::num(n) + " rounds " + mc::num(rounds) + " order " + mc::num(order) + " part " + mc::num(part);
            for (int st = 0; st < 3; ++st) {
                Items it; auto add = [&](int i, int r) { if (r && i % 6 == 3) return; if (st == 0 && part && i % (part + 1) == 0) return; it.push_back(Item(ds[i].key(), Strs(1, mc::num(1 + st * 10 + r)))); };
                if (order == 0) { for (int r = 0; r < rounds; ++r) for (int i = 0; i < n; ++i) add(i, r); } else if (order == 1) { for (int i = 0; i < n; ++i) for (int r = 0; r < rounds; ++r) add(i, r); } else for (int r = 0; r < rounds; ++r) for (int i = n; i-- > 0;) add(i, r);
                bool as; Outcome w = m.store(ds, it, 1, as), x = doStore(parsed(d, it, 1), vm); R.transitions(it.size()); if (as && !(w == x)) R.fail(key, w.str(), x.str());
                string a, b; if (!sameMap(m, ds, vm, a, b)) { R.fail(key + " after store " + mc::num(st), a, b); break; } R.state(m.hash());
            }
            R.trace(); R.end(m.hash());
        }
    }
}
#endif

#if PROP == 17
const char* mc::property = "C17";
// stores may fail: what a notification must do as far as the successful stores settle it
static u64 failedThenNotify(Run& R, World& W, const std::vector<Op>& ops, const std::vector<int>& ix)
{
    po::variables_map vm; std::map<string, const Decl*> by; std::map<string, string> given; std::set<string> maybe, req; string key = cm::str(W.all) + " history " + str(ops, ix); u64 o = 1;
    for (size_t i = 0; i < W.all.size(); ++i) { by[VModel::keyOfDecl(W.all[i])] = &W.all[i]; W.tg[i].reset(); }
    for (size_t s = 0; s < ix.size(); ++s) {
        const Op& op = ops[ix[s]]; R.transitions(1);
        if (op.kind == 0) {
            bool ok = doStore(parsed(*W.real[op.desc], op.items, W.prefix), vm).kind == "ok", wrong = false; o = mc::mix(o, ok);
            for (size_t i = 0; i < op.items.size(); ++i) {
                const string& k = op.items[i].key; VModel::Cell c; bool good = VModel::put(*by[k], c, op.items[i].tok).empty(); if (given.count(k)) continue;
                if (ok) { if (good) { given[k] = VModel::render(*by[k], c); } else wrong = true; } else if (good) maybe.insert(k);
            }
            if (wrong) { R.fail(key + " step " + mc::num(s + 1), "an error for the invalid value", "ok"); return o; }
            if (ok) for (size_t i = 0; i < W.all.size(); ++i) if ((op.desc >> i & 1) && W.all[i].req) req.insert(VModel::keyOfDecl(W.all[i]));
        } else {
            W.log.calls.clear(); Outcome x; try { po::notify(vm); } catch (...) { Res r = current(); x = Outcome(r.kind, strip(r.name)); }
            bool must = false, may = false; for (std::set<string>::iterator k = req.begin(); k != req.end(); ++k) if (!given.count(*k)) { if (maybe.count(*k)) may = true; else must = true; }
            string all; for (size_t i = 0; i < W.log.calls.size(); ++i) all += W.log.calls[i] + ";";
            if (must && (x.kind != "required" || !req.count(x.name) || given.count(x.name) || !all.empty())) { R.fail(key + " step " + mc::num(s + 1), "required option missing, no notifier called", x.str() + " " + all); return o; }
            if (!must && !may && x.kind != "ok") { R.fail(key + " step " + mc::num(s + 1), "ok", x.str()); return o; }
            if (x.kind == "ok") for (std::map<string, string>::iterator g = given.begin(); g != given.end(); ++g) { if (by[g->first]->type == "none") continue; int n = 0; for (size_t i = 0; i < W.log.calls.size(); ++i) if (starts(W.log.calls[i], g->first + "=")) { ++n; if (W.log.calls[i] != g->first + "=" + g->second) n = 99; } if (n != 1) { R.fail(key + " step " + mc::num(s + 1), "one call " + g->first + "=" + g->second, all); return o; } }
            o = mc::mix(o, mc::hstr(x.kind + all));
        }
        R.state(mc::mix(W.h, o));
    }
    return o;
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    static const char* SP[] = { "str", "str req", "int def=7", "int def=7 req", "vint comp", "vstr comp req", "bool switch", "none", "str impl=i", "oint req", "bool switch req", "vint def=5|6" };
    const int N = 12;
    int pf[] = {st::allow_long, 0, st::allow_long_disguise};
    R.space("one and two options", "every pair of 12 kinds (required, defaulted, composing, implicit, switch, untyped): every history of 1..3 (thorough 4) of stores of any subset, notify, clear, under 3 prefix styles");
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) {
        Kind a = kind("a", SP[i]), b = kind("b", SP[j]); Decls d; d.push_back(a.d); d.push_back(b.d); World W(d, pf[(i + j) % 3]); std::vector<Op> ops;
        for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { Items it; occ(it, a, x); occ(it, b, y); ops.push_back(st_(it, 3)); }
        { Items it; occ(it, a, 1); ops.push_back(st_(it, 1)); ops.push_back(st_(Items(), 2)); it.clear(); occ(it, b, std::min<size_t>(2, b.occ.size() - 1)); ops.push_back(st_(it, 3)); it.clear(); occ(it, a, a.occ.size() - 1); ops.push_back(st_(it, 3)); }
        ops.push_back(simple(1)); ops.push_back(simple(2));
        ::explore(R, W, ops, 1, T ? 5 : 4);
    }
    R.space("failed stores before notification", "every pair of 7 kinds with failing and successful stores that know the first option, the second or both: every history of 1..4 (thorough 5) of 8 operations that ends in notify after a store that succeeds");
    { static const char* FK[] = {"int req", "str req", "bool req", "oint req", "int", "int def=7", "int impl=3 req"};
      for (int i = 0; i < 7; ++i) for (int j = 0; j < 7; ++j) {
        Kind a = kind("a", FK[i]), b = kind("b", FK[j]); Decls d; d.push_back(a.d); d.push_back(b.d); World W(d, pf[(i * 7 + j) % 3]); std::vector<Op> ops; Items it;
        it.push_back(Item("a", Strs(1, "bad"))); ops.push_back(st_(it, 1)); it.clear(); it.push_back(Item("b", Strs(1, "1"))); it.push_back(Item("a", Strs(1, "bad"))); ops.push_back(st_(it, 3)); it.clear();
        it.push_back(Item("b", Strs(1, "bad"))); ops.push_back(st_(it, 3)); it.clear();
        ops.push_back(st_(Items(), 3)); it.push_back(Item("a", Strs(1, "1"))); ops.push_back(st_(it, 3)); it.clear(); it.push_back(Item("b", Strs(1, "1"))); ops.push_back(st_(it, 2)); it[0].tok[0] = "0"; ops.push_back(st_(it, 3)); ops.push_back(simple(1));
        ::histories(8, 1, T ? 5 : 4, [&](const std::vector<int>& ix) { if (!R.begin()) return; R.trace(); R.end(failedThenNotify(R, W, ops, ix)); });
    } }
    R.space("sets of required options", "every assignment of 12 kinds to 3 options, stored in every subset, then notified twice, before/after another store");
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) for (int l = 0; l < N; ++l) {
        Kind k[3] = { kind("m", SP[i]), kind("long-name,x", SP[j]), kind("b", SP[l]) }; Decls d; for (int q = 0; q < 3; ++q) d.push_back(k[q].d); World W(d, pf[(i + j + l) % 3]); std::vector<Op> ops;
        for (int mk = 0; mk < 8; ++mk) { Items it; for (int q = 0; q < 3; ++q) if (mk >> q & 1) occ(it, k[q], 1); ops.push_back(st_(it, 7)); }
        ops.push_back(simple(1));
        for (int a = 0; a < 8; ++a) for (int f = 0; f < (T ? 9 : 3); ++f) { if (!R.begin()) continue; std::vector<int> h; h.push_back(a); h.push_back(8); if (f == 1) h.push_back(8); if (f >= 2) { h.push_back((a * 3 + f) & 7); h.push_back(8); } u64 o = 1; runHistory(R, W, ops, h, o); R.trace(); R.end(o); }
    }
    R.space("precedence of names", "required option seen by stores with different prefix styles: named with the longest form; every sequence of 1..4 of 4 styles");
    {
        int ps[4] = {st::allow_long, st::allow_long_disguise, 0, st::allow_dash_for_short}; const char* nmv[] = {"req", "req,r", ",r", "r"};
        for (int n = 0; n < 4; ++n) histories(4, 1, 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; po::options_description d; d.add_options()(nmv[n], po::value<int>()->required(), ""); po::variables_map vm; string want, got; bool hasShort = strchr(nmv[n], ',') != 0, hasLong = nmv[n][0] != ',';
            for (size_t i = 0; i < ix.size(); ++i) { po::store(po::parsed_options(&d, ps[ix[i]]), vm); string l = hasLong ? string(nmv[n]).substr(0, strcspn(nmv[n], ",")) : "-r", x = ps[ix[i]] == st::allow_long && hasLong ? "--" + l : ps[ix[i]] == st::allow_long_disguise && hasLong ? "-" + l : ps[ix[i]] == st::allow_dash_for_short && hasShort ? "-r" : l; if (x.size() > want.size()) want = x; }
            try { po::notify(vm); got = "ok"; } catch (const po::required_option& e) { got = e.get_option_name(); if (string(e.what()) != "the option '" + want + "' is required but missing") got = e.what(); } catch (...) { got = current().str(); }
            R.trace(); R.transitions(ix.size()); R.state(mc::hstr(want)); if (got != want) R.fail(string("required ") + nmv[n] + " styles " + mc::num(ix.size()), want, got); R.end(mc::hstr(got));
        });
    }
    R.space("values without semantics", "entries added by hand, notified among declared ones: every subset of 3 hand-made and 3 declared");
    for (int mk = 0; mk < 64; ++mk) for (int rep = 0; rep < 2; ++rep) {
        if (!R.begin()) continue; po::options_description d; Log log; int t[3] = {-1, -1, -1}; po::variables_map vm; Strs want;
        const char* hn[3] = {"h1", "zz", "m0"}, *dn[3] = {"a", "m", "z"}; Items it;
        for (int i = 0; i < 3; ++i) { int* p = &t[i]; string k = dn[i]; d.add_options()(dn[i], po::value<int>(p)->notifier([k, &log](int v) { log.calls.push_back(k + "=" + std::to_string(v)); }), ""); if (mk >> i & 1) { it.push_back(Item(dn[i], Strs(1, std::to_string(i + 1)))); for (int r = 0; r <= rep; ++r) want.push_back(k + "=" + std::to_string(i + 1)); } }
        for (int i = 0; i < 3; ++i) if (mk >> (3 + i) & 1) vm.insert(std::make_pair(string(hn[i]), po::variable_value(boost::any(i), i == 1)));
        po::store(parsed(d, it, 1), vm); string got; try { for (int r = 0; r <= rep; ++r) po::notify(vm); } catch (...) { got = current().str(); }
        std::sort(want.begin(), want.end()); std::sort(log.calls.begin(), log.calls.end()); R.trace(); R.transitions(1); R.state(mk);
        if (!got.empty() || log.calls != want) R.fail("hand-made entries mask " + mc::num(mk), mc::q(want), got + mc::q(log.calls));
        for (int i = 0; i < 3; ++i) if (t[i] != (mk >> i & 1 ? i + 1 : -1)) R.fail("hand-made entries mask " + mc::num(mk) + " target", "value copied only for stored options", std::to_string(t[i]));
        R.end(mk);
    }
    R.space("many options", "1..130 options, all required, one missing at every place; all present");
    for (int n = 1; n <= 130; n += n < 10 ? 1 : 13) for (int at = -1; at < n; ++at) {
        if (!R.begin()) continue; po::options_description d; std::vector<int> t(n, -1); int calls = 0; Items it; for (int i = 0; i < n; ++i) { d.add_options()(("o" + mc::num(i)).c_str(), po::value<int>(&t[i])->required()->notifier([&calls](int) { ++calls; }), ""); if (i != at) it.push_back(Item("o" + mc::num(i), Strs(1, std::to_string(i)))); }
        po::variables_map vm; po::store(parsed(d, it, st::allow_long), vm); string got = "ok"; try { po::notify(vm); } catch (const po::required_option& e) { got = e.get_option_name(); }
        string want = at < 0 ? "ok" : "--o" + mc::num(at); bool tok = calls == (at < 0 ? n : 0); for (int i = 0; i < n; ++i) tok = tok && t[i] == (at < 0 ? i : -1);
        R.trace(); R.transitions(n); if (got != want || !tok) R.fail("many required " + mc::num(n) + " missing " + std::to_string(at), want, got + (tok ? "" : " targets or notifiers wrong, calls " + mc::num(calls))); R.end(mc::hstr(got));
    }
    R.space("very many options", "descriptions of boundary sizes to 700 (thorough 2100) options, plain, required, defaulted, composing in 3 patterns, in one description or nested groups, notified twice; the last required one missing or not");
    { std::vector<int> sz = sizes(T ? 2100 : 700); for (size_t z = 1; z < sz.size(); ++z) for (int pat = 0; pat < 3; ++pat) for (int miss = 0; miss < 2; ++miss) {
        if (!R.begin()) continue; int n = sz[z]; po::options_description top, sub[4]; std::vector<int> t(n, -1), c(n, 0), w(n, -1), wc(n, 0); Items it; int lastReq = -1; static const char* P[3] = {"p", "pdra", "ddrp"};
        auto kd = [&](int i) { return P[pat][i % strlen(P[pat])]; }; for (int i = 0; i < n; ++i) if (kd(i) == 'r') lastReq = i;
        for (int i = 0; i < n; ++i) {
            string nm = "o" + mc::num(i); po::typed_value<int>* v = po::value<int>(&t[i]); int* pc = &c[i]; v->notifier([pc](int) { ++*pc; }); char k = kd(i); if (k == 'r') v->required(); if (k == 'd') v->default_value(5000 + i); (pat == 1 ? sub[i % 4] : top).add_options()(nm.c_str(), v, "");
            if ((k == 'p' || k == 'r') && !(miss && i == lastReq)) it.push_back(Item(nm, Strs(1, std::to_string(i)))); w[i] = k == 'a' ? -1 : k == 'd' ? 5000 + i : i; wc[i] = k == 'a' ? 0 : 2; }
        if (pat == 1) for (int q = 0; q < 4; ++q) top.add(sub[q]);
        std::fill(t.begin(), t.end(), -1); po::variables_map vm; po::store(parsed(top, it, 1), vm); string got; for (int r = 0; r < 2; ++r) { try { po::notify(vm); got += "ok;"; } catch (const po::required_option& e) { got += e.get_option_name() + ";"; } catch (...) { got += current().str(); } }
        bool bad = miss && lastReq >= 0; string m = "--o" + mc::num(lastReq) + ";", want = bad ? m + m : "ok;ok;", diff; if (bad) { w.assign(n, -1); wc.assign(n, 0); }
        for (int i = 0; i < n && diff.size() < 200; ++i) if (t[i] != w[i] || c[i] != wc[i]) diff += " o" + mc::num(i) + ": target " + std::to_string(t[i]) + " calls " + mc::num(c[i]);
        R.trace(); R.transitions(n); R.state(mc::hstr(want, n * 6 + pat * 2 + miss)); if (got != want || !diff.empty()) R.fail("very many options " + mc::num(n) + " pattern " + P[pat] + (miss ? " one missing" : ""), want, got + diff); R.end(mc::hstr(got, n));
    } }
    R.space("mixed options, one missing", "2..40 options that are required, plain, defaulted or absent in 6 patterns, names in and against declaration order, one required value missing at every place or none");
    for (int n = 2; n <= 40; n += n < 14 ? 1 : 5) for (int pat = 0; pat < 6; ++pat) for (int rev = 0; rev < 2; ++rev) for (int at = -1; at < n; ++at) {
        static const char* P[6] = {"rp", "rpda", "ppr", "rrp", "dapr", "parrpd"}; size_t pl = strlen(P[pat]); auto kd = [&](int i) { return P[pat][i % pl]; }; if (at >= 0 && kd(at) != 'r') continue;
        if (!R.begin()) continue; po::options_description d; std::vector<int> t(n, -1); Log log; Items it; std::vector<string> nm(n); Strs want;
        for (int i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, "k%03d", rev ? n - i : i); nm[i] = b; }
        for (int i = 0; i < n; ++i) {
            string k = nm[i]; po::typed_value<int>* v = po::value<int>(&t[i]); v->notifier([k, &log](int x) { log.calls.push_back(k + "=" + std::to_string(x)); });
            if (kd(i) == 'r') v->required(); if (kd(i) == 'd') v->default_value(1000 + i); d.add_options()(k.c_str(), v, "");
            if (i != at && (kd(i) == 'r' || kd(i) == 'p')) it.push_back(Item(k, Strs(1, std::to_string(i))));
        }
        std::fill(t.begin(), t.end(), -1); po::variables_map vm; po::store(parsed(d, it, st::allow_long), vm); string got = "ok"; try { po::notify(vm); } catch (const po::required_option& e) { got = e.get_option_name(); } catch (...) { got = current().str(); }
        string w = at < 0 ? "ok" : "--" + nm[at], diff; if (at < 0) for (int i = 0; i < n; ++i) if (kd(i) != 'a') want.push_back(nm[i] + "=" + std::to_string(kd(i) == 'd' ? 1000 + i : i));
        std::sort(want.begin(), want.end()); std::sort(log.calls.begin(), log.calls.end()); if (want != log.calls) diff = " notified " + mc::q(log.calls);
        for (int i = 0; i < n; ++i) { int x = at >= 0 || kd(i) == 'a' ? -1 : kd(i) == 'd' ? 1000 + i : i; if (t[i] != x) diff += " target of " + nm[i] + " is " + std::to_string(t[i]); }
        R.trace(); R.transitions(n); R.state(mc::hstr(w + P[pat], n)); if (got != w || !diff.empty()) R.fail("mixed options " + mc::num(n) + " pattern " + P[pat] + (rev ? " reversed" : "") + " missing " + std::to_string(at), w, got + diff); R.end(mc::hstr(got + P[pat], n));
    }
}
#endif

#if PROP == 19
const char* mc::property = "C19";
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("every declaration", "6 types x default/none x implicit/none x composing x multitoken x zero_tokens x required, plus switches: every history of 1..3 (thorough 4) stores over all occurrence forms, clear, notify");
    std::vector<string> specs; const char* ty[] = {"str", "int", "bool", "vstr", "vint", "oint"}; const char* df[] = {"d", "7", "1", "d|e", "7|8", "7"}; const char* im[] = {"i", "3", "0", "i", "3|4", "3"};
    for (int t = 0; t < 6; ++t) for (int b = 0; b < 64; ++b) { string s = ty[t]; if (b & 1) s += string(" def=") + df[t]; if (b & 2) s += string(" impl=") + im[t]; if (b & 4) s += " comp"; if (b & 8) s += " multi"; if (b & 16) s += " zero"; if (b & 32) s += " req"; specs.push_back(s); }
    specs.push_back("bool switch"); specs.push_back("bool switch req"); specs.push_back("bool switch def=1"); specs.push_back("none"); specs.push_back("none zero");
    for (size_t s = 0; s < specs.size(); ++s) for (int nm = 0; nm < 3; ++nm) {
        const char* names[] = {"a", "alpha,x", "alpha,beta,x"}; Kind k = kind(names[nm], specs[s]); Decls d(1, k.d); World W(d); std::vector<Op> ops;
        for (size_t n = 0; n < k.occ.size(); ++n) { Items it; occ(it, k, n); ops.push_back(st_(it, 1)); }
        if (k.d.zero) { Items it; it.push_back(Item(k.d.key(), Strs(1, "1"))); ops.push_back(st_(it, 1)); }
        ops.push_back(simple(1)); ops.push_back(simple(2));
        ::explore(R, W, ops, 1, nm == 0 ? (T ? 4 : 3) : 2);
    }
    R.space("odd values", "the declarations of the first space with values that are empty, that equal the default or the implicit text, that look like options, in lists of 0..2 of 9 words: every history of 1..2 stores (thorough 3 for lists of one)");
    {
        Strs wd = S({"", "d", "i", "0", "7", "3", "--a", "=", " "}); std::vector<Strs> ls; ls.push_back(Strs()); for (size_t i = 0; i < wd.size(); ++i) ls.push_back(Strs(1, wd[i])); for (size_t i = 0; i < wd.size(); ++i) for (size_t j = 0; j < wd.size(); ++j) { Strs v(1, wd[i]); v.push_back(wd[j]); ls.push_back(v); }
        for (size_t s = 0; s < specs.size(); ++s) for (int form = 0; form < 2; ++form) {
            Decls d(1, D("a", specs[s])); if (form) d[0].names = "alpha,a"; World W(d); std::vector<Op> ops;
            for (size_t n = 0; n < ls.size(); ++n) { Items it(1, Item(d[0].key(), ls[n])); ops.push_back(st_(it, 1)); }
            ::explore(R, W, ops, 1, form ? 1 : 2); if (!form) { ops.resize(1 + wd.size()); ops.push_back(simple(1)); if (T) ::explore(R, W, ops, 3, 3); }
        }
    }
    R.space("very many options", "descriptions of boundary sizes to 700 (thorough 2100) options with and without defaults in 3 patterns, in one description or groups; the given ones are none, every third, every one or only the last; stored twice");
    { std::vector<int> sz = sizes(T ? 2100 : 700); for (size_t z = 1; z < sz.size(); ++z) for (int pat = 0; pat < 3; ++pat) for (int give = 0; give < 4; ++give) {
        if (!R.begin()) continue; int n = sz[z]; po::options_description top, sub[3]; Items it; static const char* P[3] = {"d", "dp", "pdis"}; string w, h;
        for (int i = 0; i < n; ++i) {
            string nm = "o" + mc::num(i); char k = P[pat][i % strlen(P[pat])]; po::value_semantic* v; if (k == 's') v = po::bool_switch(); else { po::typed_value<int>* x = po::value<int>(); if (k == 'd') x->default_value(5000 + i); if (k == 'i') x->implicit_value(9000 + i); v = x; }
            (pat == 2 ? sub[i % 3] : top).add_options()(nm.c_str(), v, ""); bool g = give == 1 ? i % 3 == 0 : give == 2 ? true : give == 3 ? i == n - 1 : false;
            if (g) it.push_back(Item(nm, k == 'i' || k == 's' ? Strs() : Strs(1, std::to_string(i))));
            w += g ? nm + "=" + (k == 'i' ? "i:" + std::to_string(9000 + i) : k == 's' ? "b:1" : "i:" + std::to_string(i)) + ";" : k == 'd' ? nm + "=i:" + std::to_string(5000 + i) + "d;" : k == 's' ? nm + "=b:0d;" : ""; }
        if (pat == 2) for (int q = 0; q < 3; ++q) top.add(sub[q]);
        po::variables_map vm; po::store(parsed(top, it, 1), vm); if (give & 1) po::store(parsed(top, Items(), 1), vm); for (int i = 0; i < n; ++i) { string nm = "o" + mc::num(i); if (vm.count(nm)) h += nm + "=" + showAny(vm[nm].value()) + (vm[nm].defaulted() ? "d;" : ";"); }
        R.trace(); R.transitions(n); R.state(mc::hstr(w)); size_t p = 0; while (p < w.size() && p < h.size() && w[p] == h[p]) ++p; size_t f = p > 30 ? p - 30 : 0;
        if (w != h) R.fail("very many options " + mc::num(n) + " pattern " + P[pat] + " given " + mc::num(give), "..." + w.substr(f, 80), "..." + h.substr(f, 80)); R.end(mc::hstr(h));
    } }
    R.space("through the command line", "12 declarations x every token list of 0..3 of 7 forms (absent, bare, '=v', separate, repeated, neighbour), value read from the map");
    const char* cs[] = { "str def=d", "str impl=i", "str def=d impl=i", "int def=7 impl=3", "bool switch", "bool def=1", "vstr multi def=x", "vstr comp impl=q", "str", "vint def=7|8", "oint", "none zero", "bool switch def=1", "str zero impl=z def=y" };
    Strs al = S({"--foo", "--foo=1", "-f", "-f2", "3", "--bar", "--baz=4"});
    for (int c = 0; c < 14; ++c) {
        Decls d; d.push_back(D("foo,f", cs[c])); d.push_back(D("bar", "bool switch")); d.push_back(D("baz", "int def=9")); Gram g; 
        for (int i = 0; i < 3; ++i) { const Decl& x = d[i]; unsigned mn = x.type == "none" ? (x.zero ? 0 : 1) : (x.zero || x.hasImpl) ? 0 : 1, mx = x.multi ? INF : x.zero ? 0 : 1; g.o(x.names, mc::num(mn) + "-" + (mx == INF ? "inf" : mc::num(mx))); }
        po::options_description desc; for (int i = 0; i < 3; ++i) desc.add_options()(d[i].names.c_str(), make(d[i]), "");
        sequences(al, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; Strs t = pick(al, ix); Model m(g, &R, mc::mix(g.hash(), c)); Res pr = m.parse(t); string w, h; VModel vmod; po::variables_map vm; bool as;
            try { po::store(po::command_line_parser(t).options(desc).run(), vm); h = "ok"; } catch (...) { h = current().kind; }
            if (pr.err) w = pr.kind; else { Items it; for (size_t i = 0; i < pr.opts.size(); ++i) it.push_back(Item(pr.opts[i].key, pr.opts[i].val, pr.opts[i].unreg)); w = vmod.store(d, it, 1, as).kind; }
            R.trace(); string a, b; string key = cm::str(d) + " args " + mc::q(t);
            if (w != h) R.fail(key, w, h); else if (w == "ok" && !sameMap(vmod, d, vm, a, b)) R.fail(key, a, b);
            R.end(mc::mix(mc::hstr(h), vmod.hash()));
        });
    }
    R.space("typed defaults", "defaults and implicit values of every int in -300..300 and texts of length 0..130, value and text form, shown and held");
    for (int v = -300; v <= 300; ++v) for (int f = 0; f < 4; ++f) {
        if (!R.begin()) continue; po::options_description d; po::typed_value<int>* tv = po::value<int>(); if (f & 1) tv->default_value(v); if (f & 2) tv->implicit_value(v * 2 + 1); d.add_options()("foo", tv, ""); string w, h;
        for (int occ_ = 0; occ_ < 2; ++occ_) { po::variables_map vm; Items it; if (occ_) it.push_back(Item("foo", f & 2 ? Strs() : Strs(1, "77"))); doStore(parsed(d, it, 1), vm); h += vm.count("foo") ? showAny(vm["foo"].value()) + (vm["foo"].defaulted() ? "d" : "") : "-"; w += occ_ ? (f & 2 ? "i:" + std::to_string(v * 2 + 1) : "i:77") : f & 1 ? "i:" + std::to_string(v) + "d" : "-"; }
        string def = std::to_string(v), imp = std::to_string(v * 2 + 1); w += " " + string(f & 2 ? "[=arg(=" + imp + ")]" : "arg") + (f & 1 ? " (=" + def + ")" : ""); h += " " + tv->name(); R.trace(); R.transitions(2);
        if (w != h) R.fail("int default " + def + " form " + mc::num(f), w, h); R.end(mc::hstr(h));
    }
    for (int n = 0; n <= 130; ++n) for (int f = 0; f < 8; ++f) {
        if (!R.begin()) continue; string x = text(n), y = text(n, "xyz"), vn = f & 4 ? text(n, "NAME") : ""; po::typed_value<string>* tv = po::value<string>(); if (f & 1) tv->default_value(x); if (f & 2) tv->implicit_value(y); if (f & 4) tv->value_name(vn); po::options_description d; d.add_options()("foo", tv, "");
        string arg = vn.empty() ? "arg" : vn, w = (f & 2) && n ? "[=" + arg + "(=" + y + ")]" : arg, h = tv->name(); if ((f & 1) && n) w += " (=" + x + ")";
        po::variables_map vm; po::store(parsed(d, Items(), 1), vm); w += f & 1 ? "|" + x : "|-"; h += vm.count("foo") ? "|" + vm["foo"].as<string>() : "|-"; R.trace(); R.transitions(1); if (w != h) R.fail("string default length " + mc::num(n) + " form " + mc::num(f), w, h); R.end(mc::hstr(h));
    }
}
#endif

#if PROP == 20
const char* mc::property = "C20";
// entry states of one map: absent, empty entry, defaulted, explicit, empty entry marked defaulted
struct Entry { int kind; int id; };
static string want(const std::vector<int>& kinds, size_t from)
{   // own explicit, else explicit further down, else nearest default, else empty
    for (size_t i = from; i < kinds.size(); ++i) if (kinds[i] == 3) return "explicit" + mc::num(i);
    for (size_t i = from; i < kinds.size(); ++i) if (kinds[i] == 2) return "default" + mc::num(i);
    return "empty";
}
static string have(const po::variable_value& v)
{
    if (v.empty()) return v.defaulted() ? "empty defaulted" : "empty";
    int id = v.as<int>(); return (v.defaulted() ? "default" : "explicit") + mc::num((id % 1000));
}
static void fill(po::variables_map& m, int kind, int id, const string& name) { if (kind == 0) return; if (kind == 1) ((std::map<string, po::variable_value>&)m)[name]; else m.insert(std::make_pair(name, po::variable_value(boost::any(id), kind == 2))); }
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    R.space("chains", T ? "every chain of 1..6 maps, each absent/empty/defaulted/explicit for the name; looked up twice from every map" : "every chain of 1..5 maps, each absent/empty/defaulted/explicit for the name; looked up twice from every map, linked by constructor or by next()");
    for (int n = 1; n <= (T ? 7 : 6); ++n) histories(4, n, n, [&](const std::vector<int>& k) {
        for (int how = 0; how < 2; ++how) {
            if (!R.begin()) continue;
            std::vector<std::unique_ptr<po::variables_map> > m(n);
            for (int i = n - 1; i >= 0; --i) { if (how == 0 && i + 1 < n) m[i].reset(new po::variables_map(m[i + 1].get())); else m[i].reset(new po::variables_map); fill(*m[i], k[i], i, "x"); fill(*m[i], (k[i] + 1) % 4, 500, "other"); }
            if (how == 1) for (int i = 0; i + 1 < n; ++i) m[i]->next(m[i + 1].get());
            u64 h = how; for (int i = 0; i < n; ++i) { h = mc::mix(h, k[i]); R.state(h); } R.transitions(n);
            string key = "chain kinds"; for (int i = 0; i < n; ++i) key += " " + mc::num(k[i]);
            std::vector<size_t> sz; for (int i = 0; i < n; ++i) sz.push_back(m[i]->size());
            for (int round = 0; round < 2; ++round) for (int i = 0; i < n; ++i) {
                const po::abstract_variables_map& a = *m[i]; string w = want(k, i), x = have(a["x"]), y = have((*m[i])["x"]);
                if (w != x || w != y) R.fail(key + " lookup from map " + mc::num(i) + " round " + mc::num(round), w, x + " / " + y);
                if (have(a["nope"]) != "empty") R.fail(key + " unknown name", "empty", have(a["nope"]));
            }
            for (int i = 0; i < n; ++i) if (m[i]->size() != sz[i] || m[i]->count("nope")) R.fail(key, "maps unchanged by lookups", "map " + mc::num(i) + " changed");
            R.trace(); if (R.want_sample()) R.sample(key + " -> " + want(k, 0)); R.end(mc::hstr(want(k, 0)));
        }
    });
    R.space("values of any type", T ? "chains of 1..5 maps x entry kinds x the type of each value (int, text, empty text, false, empty list, double, or zero)" : "chains of 1..4 maps x entry kinds x the type of each value (int, text, empty text, false, empty list, or zero)");
    {
        const int NT = T ? 7 : 6;
        auto val = [](int t, int i) -> boost::any { return t == 0 ? boost::any(i + 1) : t == 1 ? boost::any("text" + mc::num(i)) : t == 2 ? boost::any(string()) : t == 3 ? boost::any(false) : t == 4 ? boost::any(Strs()) : t == 5 ? boost::any(0) : boost::any(i + 0.5); };
        auto show = [](const po::variable_value& v) -> string { if (v.empty()) return v.defaulted() ? "empty defaulted" : "empty"; string p = v.defaulted() ? "default " : "explicit "; const boost::any& a = v.value();
            if (const int* x = boost::any_cast<int>(&a)) return p + "int " + mc::num(*x); if (const string* x = boost::any_cast<string>(&a)) return p + "text " + *x; if (const bool* x = boost::any_cast<bool>(&a)) return p + (*x ? "true" : "false"); if (const Strs* x = boost::any_cast<Strs>(&a)) return p + "list " + mc::num(x->size()); if (const double* x = boost::any_cast<double>(&a)) return p + "double " + mc::num((long)(*x * 2)); return p + "another type"; };
        for (int n = 1; n <= (T ? 5 : 4); ++n) histories(4, n, n, [&](const std::vector<int>& k) { histories(NT, n, n, [&](const std::vector<int>& ty) {
            for (int i = 0; i < n; ++i) if (k[i] < 2 && ty[i]) return;     // no value, no type
            if (!R.begin()) return;
            std::vector<std::unique_ptr<po::variables_map> > m(n); for (int i = n - 1; i >= 0; --i) { m[i].reset(i + 1 < n ? new po::variables_map(m[i + 1].get()) : new po::variables_map); if (k[i] == 1) ((std::map<string, po::variable_value>&)*m[i])["x"]; else if (k[i]) m[i]->insert(std::make_pair(string("x"), po::variable_value(val(ty[i], i), k[i] == 2))); }
            string key = "chain"; u64 h = 0; for (int i = 0; i < n; ++i) { key += " " + mc::num(k[i]) + "/" + mc::num(ty[i]); h = mc::mix(h, k[i] * 8 + ty[i]); } R.state(h); R.transitions(n); string last;
            for (int i = 0; i < n; ++i) { string w = want(k, i); if (w != "empty") { size_t q = w.find_last_not_of("0123456789") + 1; int j = atoi(w.c_str() + q); w = show(po::variable_value(val(ty[j], j), w[0] == 'd')); } string x = show((*m[i])["x"]), y = show((*(const po::abstract_variables_map*)m[i].get())["x"]); if (x != w || y != w) R.fail(key + " lookup from map " + mc::num(i), w, x + " / " + y); if (!i) last = w; }
            R.trace(); if (R.want_sample()) R.sample(key + " -> " + last); R.end(mc::hstr(last));
        }); });
    }
    R.space("re-linking", "4 maps with every entry kind: every sequence of 1..3 (thorough 4) link operations next(i -> j or none), acyclic; lookup from every map after each");
    {
        std::vector<std::pair<int, int> > links; for (int i = 0; i < 4; ++i) for (int j = -1; j < 4; ++j) if (i != j) links.push_back(std::make_pair(i, j));
        histories(4, 4, 4, [&](const std::vector<int>& k) {
            if (!T && k[3] == 1 && k[0] == 1) return;
            histories((int)links.size(), 1, T ? 3 : 2, [&](const std::vector<int>& ix) {
                int nx[4] = {-1, -1, -1, -1}; for (size_t s = 0; s < ix.size(); ++s) nx[links[ix[s]].first] = links[ix[s]].second;
                for (size_t s = 0; s < ix.size(); ++s) { int t[4] = {-1, -1, -1, -1}; for (size_t q = 0; q <= s; ++q) t[links[ix[q]].first] = links[ix[q]].second; for (int i = 0; i < 4; ++i) { int c = i, l = 0; while (c >= 0 && l < 9) { c = t[c]; ++l; } if (l >= 9) return; } }
                if (!R.begin()) return;
                po::variables_map m[4]; for (int i = 0; i < 4; ++i) fill(m[i], k[i], i, "x"); int cur[4] = {-1, -1, -1, -1};
                for (size_t s = 0; s < ix.size(); ++s) { int a = links[ix[s]].first, b = links[ix[s]].second; cur[a] = b; m[a].next(b < 0 ? 0 : &m[b]); R.transitions(1); R.state(mc::mix(mc::mix(k[0] + 4 * k[1] + 16 * k[2] + 64 * k[3], cur[0] + 5 * cur[1]), cur[2] + 5 * cur[3]));
                    for (int i = 0; i < 4; ++i) { std::vector<int> kk, id; for (int c = i; c >= 0; c = cur[c]) { kk.push_back(k[c]); id.push_back(c); } string w = want(kk, 0); if (w != "empty") { size_t p = w.find_last_not_of("0123456789") + 1; w = w.substr(0, p) + mc::num(id[atoi(w.c_str() + p)]); } string x = have(m[i]["x"]); if (w != x) R.fail("re-linking step " + mc::num(s) + " from map " + mc::num(i), w, x); } }
                R.trace(); R.end(mc::mix(ix[0], k[0]));
            });
        });
    }
    R.space("custom maps in the chain", "a user-defined abstract map at every place of chains of 1..4: consulted through get, same rules; every entry kind");
    {
        struct User : po::abstract_variables_map { po::variable_value v, none; mutable int asked; User() : asked(0) {} const po::variable_value& get(const string& n) const { ++asked; return n == "x" ? v : none; } };
        for (int n = 1; n <= 4; ++n) histories(4, n, n, [&](const std::vector<int>& k) { for (int at = 0; at < n; ++at) {
            if (!R.begin()) continue; std::vector<std::unique_ptr<po::variables_map> > m(n); User u; if (k[at] >= 2) u.v = po::variable_value(boost::any(at), k[at] == 2);
            std::vector<po::abstract_variables_map*> a(n); for (int i = 0; i < n; ++i) { m[i].reset(new po::variables_map); fill(*m[i], k[i], i, "x"); a[i] = i == at ? (po::abstract_variables_map*)&u : m[i].get(); } for (int i = 0; i + 1 < n; ++i) a[i]->next(a[i + 1]);
            for (int i = 0; i < n; ++i) { string w = want(k, i), x = have((*a[i])["x"]); if (w != x) R.fail("custom map at " + mc::num(at) + " of " + mc::num(n) + " from " + mc::num(i), w, x); if (have((*a[i])["y"]) != "empty") R.fail("custom map unknown name", "empty", "not empty"); } R.trace(); R.transitions(n); R.end(mc::mix(at, k[0]));
        } });
    }
    R.space("chains filled by stores", "two to three linked maps, each stored from its own source: every combination of absent/explicit per source and default or none, over 3 option kinds; stores in either order; later stores into one map never change another");
    {
        const char* sp[] = {"int", "int def=70", "vint comp def=70"};
        for (int kd = 0; kd < 3; ++kd) histories(3, 3, 3, [&](const std::vector<int>& src) { for (int order = 0; order < 6; ++order) for (int dmask = 0; dmask < 8; ++dmask) {
            if (!R.begin()) continue; int p[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            po::options_description with, without; with.add_options()("x", make(D("x", sp[kd])), ""); without.add_options()("x", make(D("x", kd == 2 ? "vint comp" : "int")), "");
            po::variables_map m[3]; m[0].next(&m[1]); m[1].next(&m[2]); string exp[3]; std::vector<int> k(3);
            for (int s = 0; s < 3; ++s) { int i = p[order][s]; Items it; if (src[i]) it.push_back(Item("x", Strs(1, mc::num(src[i] * 10 + i)))); po::store(parsed(dmask >> i & 1 ? with : without, it, 1), m[i]); }
            for (int i = 0; i < 3; ++i) { bool d = (dmask >> i & 1) && kd > 0; k[i] = src[i] ? 3 : d ? 2 : 0; exp[i] = src[i] ? mc::num(src[i] * 10 + i) : "70"; }
            for (int i = 0; i < 3; ++i) { string w = want(k, i); if (w != "empty") { size_t q = w.find_last_not_of("0123456789") + 1; string v = exp[atoi(w.c_str() + q)]; w = (kd == 2 ? "vi:" + v + "(1)" : "i:" + v) + (w[0] == 'd' ? " d" : ""); } const po::variable_value& v = m[i]["x"]; string x = v.empty() ? "empty" : showAny(v.value()) + (v.defaulted() ? " d" : ""); if (w != x) R.fail("stored chain kind " + mc::num(kd) + " sources " + mc::num(src[0]) + mc::num(src[1]) + mc::num(src[2]) + " defaults " + mc::num(dmask) + " from " + mc::num(i), w, x); }
            R.trace(); R.transitions(3); R.end(mc::mix(dmask, src[0] * 9 + src[1] * 3 + src[2]));
        } });
    }
    R.space("long chains", "chains of up to 200 maps with one non-empty entry at every place");
    for (int n = 1; n <= 200; n += n < 10 ? 1 : 19) for (int at = 0; at < n; ++at) for (int kd = 1; kd < 4; ++kd) { if (!R.begin()) continue; std::vector<po::variables_map> m(n); for (int i = 0; i + 1 < n; ++i) m[i].next(&m[i + 1]); fill(m[at], kd, at, "x"); fill(m[n - 1], 2, n - 1, "x"); std::vector<int> k(n, 0); k[n - 1] = 2; k[at] = kd; if (at == n - 1) k[at] = kd; string w = want(k, 0), x = have(m[0]["x"]); R.trace(); R.transitions(n); if (w != x) R.fail("long chain " + mc::num(n) + " at " + mc::num(at) + " kind " + mc::num(kd), w, x); R.end(mc::hstr(w)); }
}
#endif

#if PROP == 30
const char* mc::property = "C30";
struct EnvSet { Strs copy; std::vector<char*> p; char** old; EnvSet(const Strs& e) : copy(e), old(environ) { for (size_t i = 0; i < copy.size(); ++i) p.push_back(&copy[i][0]); p.push_back(0); environ = &p[0]; } ~EnvSet() { environ = old; } };
// texts an option is given by one source, in order
typedef std::vector<Strs> Given;     // per option
static const char* keyName(int i) { static const char* k[] = {"alpha", "beta", "gamma"}; return k[i]; }
static po::parsed_options viaCmd(const po::options_description& d, const Given& g, const Decls& ds, int form, bool unreg)
{
    Strs t; if (unreg) { t.push_back("--unknown=1"); t.push_back("stray"); }
    for (size_t i = 0; i < g.size(); ++i) for (size_t k = 0; k < g[i].size(); ++k) { if (ds[i].zero) { t.push_back(string("--") + keyName(i)); continue; } if (g[i][k].empty() || (form && !ds[i].hasImpl)) { t.push_back(string("--") + keyName(i)); t.push_back(g[i][k]); } else t.push_back(string("--") + keyName(i) + "=" + g[i][k]); }
    po::command_line_parser p(t); p.options(d); if (unreg) p.allow_unregistered(); return p.run();
}
static po::parsed_options viaCfg(const po::options_description& d, const Given& g, const Decls& ds, int form, bool unreg)
{
    string t; if (unreg) t += "unknown = 1\n"; if (form) t += "# comment\n\n";
    for (size_t i = 0; i < g.size(); ++i) for (size_t k = 0; k < g[i].size(); ++k) t += string(keyName(i)) + (form ? " = " : "=") + (ds[i].zero ? "1" : g[i][k]) + (form ? " # c\n" : "\n");
    std::istringstream is(t); return po::parse_config_file(is, d, unreg);
}
static po::parsed_options viaEnv(const po::options_description& d, const Given& g, const Decls& ds, int, bool unreg)
{
    Strs e; e.push_back("HOME=/x"); for (size_t i = 0; i < g.size(); ++i) for (size_t k = 0; k < g[i].size(); ++k) { string n = keyName(i); for (size_t c = 0; c < n.size(); ++c) n[c] = char(toupper(n[c])); e.push_back("T_" + n + "=" + (ds[i].zero ? "1" : g[i][k])); }
    (void)unreg; EnvSet s(e); return po::parse_environment(d, "T_");
}
static Outcome storeFrom(int src, const po::options_description& d, const Given& g, const Decls& ds, int form, bool unreg, po::variables_map& vm)
{
    try { po::store(src == 0 ? viaCmd(d, g, ds, form, unreg) : src == 1 ? viaCfg(d, g, ds, form, unreg) : viaEnv(d, g, ds, form, unreg), vm); return Outcome(); }
    catch (...) { Res r = current(); return Outcome(r.kind, strip(r.name)); }
}
static Items itemsOf(int src, const Given& g, const Decls& ds) { Items it; for (size_t i = 0; i < g.size(); ++i) for (size_t k = 0; k < g[i].size(); ++k) it.push_back(Item(keyName(i), ds[i].zero ? (src == 0 ? Strs() : Strs(1, "1")) : Strs(1, g[i][k]))); return it; }
void mc::explore(Run& R)
{
    const bool T = R.thorough; const char* srcN[] = {"command line", "config", "environment"};
    R.space("one value, each source", "every declaration of 14 kinds x 40 value texts (plus every printable byte, lengths 1..130): same typed value or same rejection from every source and form");
    const char* sp[] = {"str", "str def=d", "int", "int def=7", "vstr comp", "vstr", "vint comp def=5|6", "bool", "str impl=i", "vstr multi comp", "none", "oint", "vint", "str def=d impl=i"};
    Strs vals = S({"1", "0", "-1", "+1", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "x", "a b", "a=b", "=", "==a", "yes", "NO", "True", "off", "ON", "maybe", "--alpha", "-a", "a'b", "\"q\"", "[s]", "a.b", "%value%", "\xc3\xa4", "\xff", "a\tb", "1 ", "99999999999", "1.5", "0x10", "1e3", "*", "@f", "a,b", "\\n", "~"});
    std::vector<Strs> vv(1, Strs(1, "")); for (size_t i = 0; i < vals.size(); ++i) if (trim(vals[i]) == vals[i]) vv.push_back(Strs(1, vals[i]));
    for (int c = 33; c < 127; ++c) if (c != '#') { vv.push_back(Strs(1, string(1, char(c)))); vv.push_back(Strs(1, "a" + string(1, char(c)) + "b")); } for (int c = 128; c < 256; ++c) vv.push_back(Strs(1, "v" + string(1, char(c)))); for (int n = 1; n <= 130; ++n) vv.push_back(Strs(1, text(n)));
    for (int k = 0; k < 14; ++k) for (size_t v = 0; v < vv.size(); ++v) {
        if (!R.begin()) continue; Decls ds(1, D("alpha", sp[k])); po::options_description d; d.add_options()("alpha", make(ds[0]), ""); Given g(1, vv[v]);
        VModel m; bool as; Outcome w = m.store(ds, itemsOf(1, g, ds), 0, as);
        for (int src = 0; src < 3; ++src) for (int form = 0; form < 2; ++form) {
            // a separate command line token that looks like an option is a different input
            if (src == 0 && form && starts(vv[v][0], "-")) continue;
            po::variables_map vm; Outcome x = storeFrom(src, d, g, ds, form, false, vm); string a, b; string key = ds[0].str() + " value " + mc::q(vv[v][0]) + " from " + srcN[src] + " form " + mc::num(form); R.transitions(1);
            if (!(w == x)) R.fail(key, w.str(), x.str()); else if (w.kind == "ok" && !sameMap(m, ds, vm, a, b)) R.fail(key, a, b);
        }
        R.trace(); R.state(mc::mix(k, v)); R.end(mc::mix(m.hash(), k));
    }
    R.space("all assignments", T ? "three sources in every order x every assignment of 6 and 5 value lists per source to two options of 10x10 kinds, with and without unregistered entries" : "three sources in every order x every assignment of 4 value lists per source to one option and 3 to a second, 10x10 kinds");
    const char* sp2[] = {"str", "int def=7", "vstr comp", "vint", "bool switch", "str impl=i", "vint comp def=5|6", "str req", "oint", "none"};
    std::vector<Strs> lists; lists.push_back(Strs()); lists.push_back(S({"1"})); lists.push_back(S({""})); lists.push_back(S({"1", "0"})); lists.push_back(S({"bad word"})); lists.push_back(S({"0"}));
    int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int a = 0; a < 10; ++a) for (int b = 0; b < 10; ++b) {
        Decls ds; ds.push_back(D("alpha", sp2[a])); ds.push_back(D("beta", sp2[b])); po::options_description d; for (int i = 0; i < 2; ++i) d.add_options()(ds[i].names.c_str(), make(ds[i]), "");
        int na = T ? 6 : 4, nb = T ? 5 : 3;
        for (int va = 0; va < na * na * na; ++va) for (int vb = 0; vb < nb * nb * nb; ++vb) for (int o = 0; o < 6; ++o) {
            if (!R.begin()) continue; VModel m; po::variables_map vm; bool bad = false; string key;
            for (int s = 0; s < 3; ++s) { int src = ord[o][s]; int xa = src == 0 ? va % na : src == 1 ? va / na % na : va / na / na, xb = src == 0 ? vb % nb : src == 1 ? vb / nb % nb : vb / nb / nb; Given g; g.push_back(lists[xa]); g.push_back(lists[xb]);
                int pfx = src == 0 ? st::allow_long : 0; bool as; Outcome w = m.store(ds, itemsOf(src, g, ds), pfx, as), x = storeFrom(src, d, g, ds, (va + o) & 1, (vb + o) & 1, vm); R.transitions(1);
                key += string(s ? ", " : "") + srcN[src] + " " + mc::q(lists[xa]) + mc::q(lists[xb]); if (as && !(w == x)) { R.fail(cm::str(ds) + ": " + key, w.str(), x.str()); bad = true; break; } }
            string x, y; if (!bad && !sameMap(m, ds, vm, x, y)) R.fail(cm::str(ds) + ": " + key, x, y);
            if (!bad) for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) if (i->first != "alpha" && i->first != "beta") R.fail(cm::str(ds) + ": " + key, "only declared options in the map", i->first);
            R.trace(); R.state(mc::mix(mc::mix(a, b), m.hash())); if (R.want_sample()) R.sample(cm::str(ds) + ": " + key); R.end(mc::mix(m.hash(), a * 10 + b));
        }
    }
    R.space("same source twice", "two config texts, two environments or two command lines in sequence: every pair of 5 value lists, 10 kinds");
    for (int a = 0; a < 10; ++a) for (int s1 = 0; s1 < 3; ++s1) for (int s2 = 0; s2 < 3; ++s2) for (int s3 = -1; s3 < 3; ++s3) for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) {
        if (!R.begin()) continue; Decls ds(1, D("alpha", sp2[a])); po::options_description d; d.add_options()("alpha", make(ds[0]), ""); VModel m; po::variables_map vm; int ss[3] = {s1, s2, s3}, vv2[3] = {x, y, (x + y) % 3}; bool as;
        for (int s = 0; s < 3 && ss[s] >= 0; ++s) { Given g(1, lists[vv2[s]]); Outcome w = m.store(ds, itemsOf(ss[s], g, ds), ss[s] ? 0 : 1, as), h = storeFrom(ss[s], d, g, ds, s & 1, false, vm); R.transitions(1); if (as && !(w == h)) R.fail(ds[0].str() + " sources " + mc::num(s1) + mc::num(s2) + std::to_string(s3) + " values " + mc::num(x) + mc::num(y), w.str(), h.str()); }
        string p, q; if (!sameMap(m, ds, vm, p, q)) R.fail(ds[0].str() + " sources " + mc::num(s1) + mc::num(s2) + std::to_string(s3) + " values " + mc::num(x) + mc::num(y), p, q); R.trace(); R.state(m.hash()); R.end(m.hash());
    }
    R.space("unregistered and unnamed", "every mix of 6 unknown/unnamed entries around two known ones, from the command line and config: the map holds only the known ones");
    for (int mask = 0; mask < 64; ++mask) for (int rot = 0; rot < 8; ++rot) for (int src = 0; src < 2; ++src) for (int pos = 0; pos < 2; ++pos) {
        if (!R.begin()) continue; po::options_description d; d.add_options()("alpha", po::value<string>(), "")("beta", po::value<std::vector<string> >()->composing(), ""); po::variables_map vm; string h;
        Strs c = S({"--zz=1", "-q", "--alp-x", "--z", "-w7", "--y=alpha", "--alpha=A", "--beta=B"}), f = S({"zz=1", "q=2", "alph=3", "[s]\nalpha=4\n[s.t]\nbeta=1", "x y=5", "alpha2=9", "alpha=A", "beta=B"}); Strs t; string text;
        for (int i = 0; i < 8; ++i) { int k = (i + rot) % 8; if (k >= 6 || (mask >> k & 1)) { if (src == 0) t.push_back(c[k]); else text += (k == 3 ? f[k] + "\n" : "[]\n") + (k == 3 ? "" : f[k] + "\n"); } }
        // a text without sections: keep known entries before the first header
        if (src == 1) { text.clear(); for (int i = 0; i < 8; ++i) { int k = (i + rot) % 8; if (k != 3 && (k >= 6 || (mask >> k & 1))) text += f[k] + "\n"; } if (mask >> 3 & 1) text += f[3] + "\n"; }
        try { if (src == 0) po::store(po::command_line_parser(t).options(d).allow_unregistered().run(), vm); else { std::istringstream is(text); po::store(po::parse_config_file(is, d, true), vm); } h = "ok"; } catch (...) { h = current().str(); }
        for (po::variables_map::iterator i = vm.begin(); i != vm.end(); ++i) h += " " + i->first + "=" + showAny(i->second.value()); string w = "ok alpha=s:A beta=vs:B(1)"; R.trace(); R.transitions(1); if (h != w) R.fail(src ? "config " + mc::q(text) : "args " + mc::q(t), w, h); R.end(mc::mix(mask, rot));
    }
}
#endif
