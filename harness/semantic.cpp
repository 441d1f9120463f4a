// C35: value semantics and validators written by the user get exactly the documented calls.
#include "vmmodel.hpp"
#include "cmdspaces.hpp"
#include <boost/program_options/detail/utf8_codecvt_facet.hpp>
#include <boost/lexical_cast.hpp>
#include <locale>
#include <optional>
using namespace cm;
using mc::Run;
const char* mc::property = "C35";
static Strs S(std::initializer_list<const char*> l) { return Strs(l.begin(), l.end()); }
static Strs g_log;
static std::string join(const Strs& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i]; return s; }
static string hex(const std::wstring& w) { string s; for (size_t i = 0; i < w.size(); ++i) { unsigned long c = w[i]; if (c >= 32 && c < 127) s += char(c); else s += "<" + std::to_string(c) + ">"; } return s; }
static string label(const std::vector<int>& ix, const std::function<string(int)>& f) { string s; for (size_t i = 0; i < ix.size(); ++i) s += (i ? " " : "") + f(ix[i]); return s; }

// ------------------------------------------------------------------ a semantic that records its calls
struct Attr { unsigned mn, mx; bool comp, req; int def, mode; string nm; Attr() : mn(1), mx(1), comp(false), req(false), def(0), mode(0), nm("arg") {}
    string str() const { return mc::num(mn) + ".." + (mx == INF ? string("inf") : mc::num(mx)) + (comp ? " composing" : "") + (req ? " required" : "") + (def == 1 ? " default" : def ? " refused default" : "") + (mode == 1 ? " last wins" : mode == 2 ? " stores nothing" : ""); } };
static string showHeld(const boost::any& a) { if (a.empty()) return "nothing"; const Strs* s = boost::any_cast<Strs>(&a); return s ? "(" + join(*s) + ")" : "?"; }
class Rec : public po::value_semantic {
    string who; Attr a;
public:
    Rec(const string& w, const Attr& a) : who(w), a(a) {}
    string name() const { return a.nm; }
    unsigned min_tokens() const { return a.mn; }
    unsigned max_tokens() const { return a.mx; }
    bool is_composing() const { return a.comp; }
    bool is_required() const { return a.req; }
    void parse(boost::any& v, const Strs& t, bool utf8) const
    {
        g_log.push_back("parse " + who + " " + showHeld(v) + " <- " + mc::q(t) + (utf8 ? " utf8" : ""));
        for (size_t i = 0; i < t.size(); ++i) { if (t[i] == "bad") throw po::validation_error(po::validation_error::invalid_option_value); if (t[i] == "odd") throw 42; }
        if (a.mode == 2) return;
        Strs r; if (a.mode == 0 && !v.empty()) r = *boost::any_cast<Strs>(&v);
        r.insert(r.end(), t.begin(), t.end()); v = boost::any(r);
    }
    bool apply_default(boost::any& v) const { if (!v.empty()) g_log.push_back("default " + who + " " + showHeld(v)); if (a.def) v = boost::any(Strs(1, "DEF")); return a.def == 1; }
    void notify(const boost::any& v) const { g_log.push_back("notify " + who + " " + showHeld(v)); }
};
struct Decl5 { string names; Attr a; string key() const { return names.substr(0, names.find(',')); } bool wild() const { return names[names.size() - 1] == '*'; } };
struct It { string key; Strs tok; bool unreg; It(const string& k, const Strs& t, bool u = false) : key(k), tok(t), unreg(u) {} };
struct Op5 { int kind; std::vector<It> items; bool wide; unsigned mask; string str() const { if (kind == 1) return "notify"; if (kind == 2) return "clear"; string s = wide ? "wide store(" : "store("; for (size_t i = 0; i < items.size(); ++i) s += (i ? " " : "") + items[i].key + "=" + mc::q(items[i].tok) + (items[i].unreg ? "?" : ""); return s + ")" + (mask == 7 ? "" : " of part " + mc::num(mask)); } };
static Op5 st5(std::initializer_list<It> l, bool wide = false, unsigned mask = 7) { Op5 o; o.kind = 0; o.items.assign(l.begin(), l.end()); o.wide = wide; o.mask = mask; return o; }

// what must happen, call by call
struct Model5 {
    struct Cell { bool has, def; Strs v; int decl; Cell() : has(false), def(false), decl(-1) {} string held() const { return has ? "(" + join(v) + ")" : "nothing"; } };
    std::map<string, Cell> m; std::set<string> fin, req; Strs log;
    const Decl5* find(const std::vector<Decl5>& ds, unsigned mask, const string& n, int& at) { at = -1; for (size_t i = 0; i < ds.size(); ++i) if (mask >> i & 1) { if (ds[i].wild() ? starts(n, ds[i].names.substr(0, ds[i].names.size() - 1)) : ds[i].key() == n) at = (int)i; } return at < 0 ? 0 : &ds[at]; }
    string store(const std::vector<Decl5>& ds, const Op5& o)
    {
        std::set<string> nf;
        for (size_t i = 0; i < o.items.size(); ++i) {
            const It& it = o.items[i]; if (it.key.empty() || it.unreg || fin.count(it.key)) continue;
            int at; const Decl5* d = find(ds, o.mask, it.key, at); if (!d) return "unknown";
            Cell& c = m[it.key]; if (c.def) c = Cell();
            log.push_back("parse " + d->names + " " + c.held() + " <- " + mc::q(it.tok) + (o.wide ? " utf8" : ""));
            for (size_t k = 0; k < it.tok.size(); ++k) { if (it.tok[k] == "bad") return "validation"; if (it.tok[k] == "odd") return "int"; }
            if (d->a.mode != 2) { if (d->a.mode == 1) c.v.clear(); c.v.insert(c.v.end(), it.tok.begin(), it.tok.end()); c.has = true; }
            c.decl = at; if (!d->a.comp) nf.insert(it.key);
        }
        fin.insert(nf.begin(), nf.end());
        for (size_t i = 0; i < ds.size(); ++i) if (o.mask >> i & 1) {
            if (ds[i].wild()) continue; string k = ds[i].key();
            if (!m.count(k)) { if (ds[i].a.def == 1) { Cell& c = m[k]; c.has = c.def = true; c.v.assign(1, "DEF"); c.decl = (int)i; } }
            if (ds[i].a.req) req.insert(k);
        }
        return "ok";
    }
    string notify(const std::vector<Decl5>& ds)
    {
        for (std::set<string>::iterator r = req.begin(); r != req.end(); ++r) if (!m.count(*r) || !m[*r].has) return "required";
        for (std::map<string, Cell>::iterator c = m.begin(); c != m.end(); ++c) if (c->second.decl >= 0) log.push_back("notify " + ds[c->second.decl].names + " " + c->second.held());
        return "ok";
    }
    string show() const { string s; for (std::map<string, Cell>::const_iterator c = m.begin(); c != m.end(); ++c) s += c->first + "=" + c->second.held() + (c->second.def ? "d" : "") + " "; return s; }
};
static string guard(const std::function<void()>& f)
{
    try { f(); return "ok"; } catch (int i) { return i == 42 ? "int" : "other int"; } catch (...) { Res r = current(); return starts(r.kind, "validation") ? "validation" : r.kind; }
}
static string showMap(const po::variables_map& vm) { string s; for (po::variables_map::const_iterator i = vm.begin(); i != vm.end(); ++i) s += i->first + "=" + showHeld(i->second.value()) + (i->second.defaulted() ? "d" : "") + " "; return s; }
// the order of the notifications is not promised; when defaults are asked for shows only in the map
static Strs ordered(const Strs& l) { Strs r = l; for (size_t i = 0; i < r.size();) { size_t j = i; string w = r[i].substr(0, r[i].find(' ')); while (j < r.size() && starts(r[j], w + " ")) ++j; if (w != "parse") std::sort(r.begin() + i, r.begin() + j); i = j; } return r; }

static void protocol(Run& R, bool T)
{
    R.space("calls over histories", T ? "three recorded options (one a wildcard) with every composing/required/default/storing behaviour: every history of 1..4 of 14 stores (narrow, wide, partial descriptions, failing), notify and clear" : "three recorded options (one a wildcard) with every composing/required/default/storing behaviour: every history of 1..3 of 14 stores (narrow, wide, partial descriptions, failing), notify and clear");
    std::vector<Op5> ops;
    ops.push_back(st5({})); ops.push_back(st5({It("a", S({"1"}))})); ops.push_back(st5({It("a", S({"1"})), It("b", S({})), It("a", S({"2", "3"}))})); ops.push_back(st5({It("b", S({"4"})), It("a", Strs())})); ops.push_back(st5({It("", S({"p"})), It("b", S({"5"})), It("zz", S({"u"}), true), It("a", S({"u"}), true)}));
    ops.push_back(st5({It("a", S({"6", "bad", "7"}))})); ops.push_back(st5({It("b", S({"8"})), It("a", S({"odd"}))})); ops.push_back(st5({It("a", S({"\xc3\xa9"})), It("w1", S({"9"}))}, true)); ops.push_back(st5({It("w1", S({"1"})), It("w2", S({"2"})), It("w1", S({"3"}))}));
    ops.push_back(st5({It("b", S({"x"}))}, false, 2)); ops.push_back(st5({It("a", S({"y"}))}, false, 5)); ops.push_back(st5({It("a", S({"z"}))}, false, 2));
    Op5 n; n.kind = 1; n.wide = false; n.mask = 7; ops.push_back(n); n.kind = 2; ops.push_back(n);
    std::vector<Attr> as, bs; for (int c = 0; c < 2; ++c) for (int q = 0; q < 2; ++q) for (int d = 0; d < 4; d += d ? 2 : 1) for (int m = 0; m < 3; ++m) { if (d == 2) continue; Attr a; a.comp = c; a.req = q; a.def = d; a.mode = m; as.push_back(a); if ((c + q + d + m) % 2 == 0) bs.push_back(a); }
    for (size_t x = 0; x < as.size(); ++x) for (size_t y = 0; y < bs.size(); ++y) {
        std::vector<Decl5> ds(3); ds[0].names = "a"; ds[0].a = as[x]; ds[1].names = "b,x"; ds[1].a = bs[y]; ds[2].names = "w*"; ds[2].a = as[(x * 5 + y) % as.size()];
        std::vector<std::shared_ptr<po::options_description> > real(8); for (unsigned k = 1; k < 8; ++k) { real[k].reset(new po::options_description); for (int i = 0; i < 3; ++i) if (k >> i & 1) real[k]->add_options()(ds[i].names.c_str(), new Rec(ds[i].names, ds[i].a), ""); }
        string world = "a " + ds[0].a.str() + "; b " + ds[1].a.str() + "; w* " + ds[2].a.str(); mc::u64 wh = mc::hstr(world); Strs dummy(ops.size(), "");
        sequences(dummy, 1, T ? 4 : 3, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; Model5 m; po::variables_map vm; mc::u64 out = 1; R.state(wh);
            for (size_t s = 0; s < ix.size(); ++s) {
                const Op5& o = ops[ix[s]]; string w, g; g_log.clear(); m.log.clear(); R.transitions(1);
                if (o.kind == 1) { w = m.notify(ds); g = guard([&] { po::notify(vm); }); }
                else if (o.kind == 2) { m = Model5(); vm.clear(); w = g = "ok"; }
                else {
                    w = m.store(ds, o); po::parsed_options po_(real[o.mask].get(), st::allow_long); for (size_t i = 0; i < o.items.size(); ++i) { po::option x2(o.items[i].key, o.items[i].tok); x2.unregistered = o.items[i].unreg; po_.options.push_back(x2); }
                    g = guard([&] { if (o.wide) po::store(po::wparsed_options(po_), vm); else po::store(po_, vm); });
                }
                Strs a = ordered(m.log), b = ordered(g_log); bool stop = w != "ok" && w != "required"; w += " calls " + mc::q(a); g += " calls " + mc::q(b); if (!stop) { w += " map " + m.show(); g += " map " + showMap(vm); }
                out = mc::mix(out, mc::hstr(g)); R.state(mc::mix(wh, mc::hstr(w)));
                if (w != g) { R.fail(world + " history " + label(ix, [&](int i) { return ops[i].str(); }) + " step " + mc::num(s + 1), w, g); break; }
                if (stop) break;      // a failed store may leave any part of its values behind
            }
            R.trace(); if (R.want_sample()) R.sample(world + ": " + label(ix, [&](int i) { return ops[i].str(); })); R.end(out);
        });
    }
}
static void arities(Run& R, bool T)
{
    R.space("tokens from the command line", T ? "two recorded options of every pair of 10 arities and a positional: every list of 0..5 of 9 tokens: the tokens of each call" : "two recorded options of every pair of 10 arities and a positional: every list of 0..4 of 9 tokens: the tokens of each call");
    const char* ar[] = {"0-0", "0-1", "1-1", "1-2", "2-2", "0-inf", "1-inf", "3-3", "2-4", "0-2"}; Strs al = S({"--a", "--a=v", "-b", "-bw", "p", "q", "--", "-c", "--bee=x"});
    for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) {
        Gram g; g.o("a", ar[i]).o("bee,b", ar[j]).o("cee,c", "0-0").o("pos", "0-inf").p("pos", -1); po::options_description d; for (size_t k = 0; k < g.opts.size(); ++k) { Attr a; a.mn = g.opts[k].mn; a.mx = g.opts[k].mx; a.def = k == 1; d.add_options()(g.opts[k].decl().c_str(), new Rec(g.opts[k].longs[0], a), ""); }
        po::positional_options_description pd; pd.add("pos", -1); string gs = g.str();
        sequences(al, 0, T ? 5 : 4, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; Strs t = pick(al, ix); Model m(g, &R, mc::hstr(gs)); Res pr = m.parse(t); g_log.clear(); Strs want; string w = "ok", h; std::map<string, Strs> held; po::variables_map vm;
            if (pr.err) w = pr.kind; else { for (size_t k = 0; k < pr.opts.size(); ++k) { const ROpt& o = pr.opts[k]; want.push_back("parse " + o.key + " " + (held.count(o.key) ? "(" + join(held[o.key]) + ")" : "nothing") + " <- " + mc::q(o.val)); held[o.key].insert(held[o.key].end(), o.val.begin(), o.val.end()); } }
            try { po::store(po::command_line_parser(t).options(d).positional(pd).run(), vm); h = "ok"; } catch (...) { h = current().kind; }
            R.trace(); string e, q; if (w == "ok") { for (std::map<string, Strs>::iterator k = held.begin(); k != held.end(); ++k) e += k->first + "=(" + join(k->second) + ") "; if (!held.count("bee")) e = e.insert(held.count("a") ? e.find(") ") + 2 : 0, "bee=(DEF)d "); q = showMap(vm); } w += " " + e; h += " " + q; Strs got = ordered(g_log); if (w != h || want != got) R.fail(gs + " args " + mc::q(t), w + " " + mc::q(want), h + " " + mc::q(got)); R.end(mc::hstr(h + join(got)));
        });
    }
}

// ------------------------------------------------------------------ the converting helpers
class NarrowRec : public po::value_semantic_codecvt_helper<char> {
public:
    string name() const { return "n"; } unsigned min_tokens() const { return 0; } unsigned max_tokens() const { return INF; } bool is_composing() const { return true; } bool is_required() const { return false; } bool apply_default(boost::any&) const { return false; } void notify(const boost::any&) const {}
    void xparse(boost::any& v, const Strs& t) const { g_log.push_back("narrow " + mc::q(t)); v = boost::any(t); }
};
class WideRec : public po::value_semantic_codecvt_helper<wchar_t> {
public:
    string name() const { return "w"; } unsigned min_tokens() const { return 0; } unsigned max_tokens() const { return INF; } bool is_composing() const { return true; } bool is_required() const { return false; } bool apply_default(boost::any&) const { return false; } void notify(const boost::any&) const {}
    void xparse(boost::any& v, const std::vector<std::wstring>& t) const { Strs s; for (size_t i = 0; i < t.size(); ++i) s.push_back(hex(t[i])); g_log.push_back("wide " + mc::q(s)); v = boost::any(s); }
};
static void helpers(Run& R, bool T)
{
    R.space("converting helpers", "helpers of both widths given narrow and UTF-8 tokens under a local encoding that is ASCII or UTF-8: every list of 0..3 (thorough 4) of 9 texts (ASCII, 2..4 byte characters, malformed); lengths to 4200");
    Strs al = S({"x", "", "a=b", "\xc3\xa9", "\xe2\x82\xacz", "\xf0\x9f\x98\x80", "z\xc3", "\xff", "-q"}); std::vector<std::wstring> wd = {L"x", L"", L"a=b", L"\u00e9", L"\u20acz", L"\U0001F600", L"", L"", L"-q"}; bool ascii[9] = {1, 1, 1, 0, 0, 0, 0, 0, 1}, good[9] = {1, 1, 1, 1, 1, 1, 0, 0, 1};
    for (int loc = 0; loc < 2; ++loc) {
        std::locale was; if (loc) std::locale::global(std::locale(std::locale(), new po::detail::utf8_codecvt_facet));
        else std::locale::global(std::locale::classic());
        po::options_description dn, dw; dn.add_options()("o", new NarrowRec, ""); dw.add_options()("o", new WideRec, "");
        auto one = [&](const Strs& t, const string& wantN, const string& wantW, const string& wantN8, const string& wantW8, const string& key) {
            for (int w = 0; w < 2; ++w) for (int u = 0; u < 2; ++u) {
                g_log.clear(); po::variables_map vm; po::parsed_options p(w ? &dw : &dn, st::allow_long); p.options.push_back(po::option("o", t)); string g = "ok"; 
                try { if (u) { po::wparsed_options wp(p); po::store(wp, vm); } else po::store(p, vm); } catch (const std::exception& e) { g = strcmp(e.what(), "character conversion failed") ? e.what() : "conversion failed"; }
                if (g == "ok") g = g_log.size() == 1 ? g_log[0] : mc::q(g_log); else if (!g_log.empty()) g += " after " + mc::q(g_log);
                const string& want = w ? (u ? wantW8 : wantW) : u ? wantN8 : wantN; R.transitions(1);
                if (g != want) { R.fail(key + (w ? " wide helper" : " narrow helper") + (u ? " utf8" : " local") + (loc ? " local encoding UTF-8" : " local encoding ASCII"), want, g); return; }
            }
        };
        sequences(al, 0, T ? 4 : 3, [&](const std::vector<int>& ix) {
            if (!R.begin()) return; Strs t = pick(al, ix), h; bool a = true, gd = true; for (size_t i = 0; i < ix.size(); ++i) { a = a && ascii[ix[i]]; gd = gd && good[ix[i]]; h.push_back(hex(wd[ix[i]])); }
            string n = "narrow " + mc::q(t), w = "wide " + mc::q(h), f = "conversion failed"; R.trace(); R.state(mc::hstr(n, loc)); one(t, n, (loc ? gd : a) ? w : f, (gd && (loc || a)) ? n : f, gd ? w : f, "tokens " + mc::q(t)); R.end(mc::hstr(n, loc));
        });
        std::vector<int> sz = sizes(4200); for (size_t i = 1; i < sz.size(); ++i) for (int k = 0; k < 3; ++k) {
            if (!R.begin()) continue; string unit = k == 0 ? "q" : k == 1 ? "\xc3\xa9" : "\xf0\x9f\x98\x80", x, hx; for (int j = 0; j < sz[i]; ++j) { x += unit; hx += k == 0 ? "q" : k == 1 ? "<233>" : "<128512>"; } Strs t{x, "end"}, h{hx, "end"};
            string n = "narrow " + mc::q(t), w = "wide " + mc::q(h), f = "conversion failed"; R.trace(); R.state(mc::hstr(n, loc)); one(t, n, loc || !k ? w : f, loc || !k ? n : f, w, "length " + mc::num(sz[i]) + " of kind " + mc::num(k)); R.end(mc::hstr(n, loc));
        }
        std::locale::global(was);
    }
}

// ------------------------------------------------------------------ validators for types of the user
struct U { string s; bool operator==(const U& b) const { return s == b.s; } };
struct V { std::wstring s; };
static std::ostream& operator<<(std::ostream& o, const U& u) { return o << u.s; }
static void react(const string& t) { if (t == "bad") throw po::invalid_option_value(t); if (t == "vld") throw po::validation_error(po::validation_error::invalid_option); if (t == "odd") throw 42; if (t == "blc") throw boost::bad_lexical_cast(); }
static void validate(boost::any& v, const Strs& xs, U*, int)
{
    string before = v.empty() ? "nothing" : boost::any_cast<U>(&v) ? boost::any_cast<U>(v).s : "?"; g_log.push_back("validate " + before + " <- " + mc::q(xs));
    for (size_t i = 0; i < xs.size(); ++i) react(xs[i]);
    U u; u.s = (v.empty() ? "" : before + "+") + join(xs); v = boost::any(u);
}
static void validate(boost::any& v, const std::vector<std::wstring>& xs, V*, int)
{
    Strs t; for (size_t i = 0; i < xs.size(); ++i) t.push_back(hex(xs[i])); string before = v.empty() ? "nothing" : boost::any_cast<V>(&v) ? hex(boost::any_cast<V>(v).s) : "?"; g_log.push_back("validate " + before + " <- " + mc::q(t));
    for (size_t i = 0; i < t.size(); ++i) react(t[i]);
    string r = (v.empty() ? "" : before + "+") + join(t); V x; x.s.assign(r.begin(), r.end()); v = boost::any(x);
}
static string sv(const U& u) { return u.s; } static string sv(const V& v) { return hex(v.s); }
template<class X> static string sv(const std::vector<X>& v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ";" : "") + sv(v[i]); return s + "]"; }
template<class X> static string sv(const boost::optional<X>& v) { return v ? "o:" + sv(*v) : "none"; }
template<class X> static string sv(const std::optional<X>& v) { return v ? "o:" + sv(*v) : "none"; }
template<class X> static X mk(const string& t, X*) { X x; x.s.assign(t.begin(), t.end()); return x; }
template<class X> static std::vector<X> mk(const string& t, std::vector<X>*) { return std::vector<X>(2, mk(t, (X*)0)); }
template<class X> static boost::optional<X> mk(const string& t, boost::optional<X>*) { return mk(t, (X*)0); }
template<class X> static std::optional<X> mk(const string& t, std::optional<X>*) { return mk(t, (X*)0); }
template<class H> static string heldAs(const boost::any& a) { const H* h = boost::any_cast<H>(&a); return h ? sv(*h) : a.empty() ? "nothing" : "?"; }
enum { PLAIN, VEC, OPT };
template<class H, class C> static void validators(Run& R, bool T, int holder, const string& tag)
{
    std::vector<Strs> oc = {S({}), S({"1"}), S({"2", "3"}), S({"bad"}), S({"4", "odd", "5"}), S({"6", "blc"}), S({"vld"}), S({""})}; Strs dummy(oc.size(), "");
    for (int cfg = 0; cfg < 8; ++cfg) {
        bool comp = cfg & 1, impl = cfg & 2, def = cfg & 4; Strs calls; po::options_description d; po::typed_value<H, C>* v = new po::typed_value<H, C>(0); if (comp) v->composing(); if (impl) v->implicit_value(mk("IMP", (H*)0), "imp"); if (def) v->default_value(mk("DEF", (H*)0), "def"); v->multitoken()->notifier([](const H& h) { g_log.push_back("notifier " + sv(h)); }); d.add_options()("opt,o", v, "");
        string what = tag + (comp ? " composing" : "") + (impl ? " implicit" : "") + (def ? " default" : "");
        sequences(dummy, 0, T ? 4 : 3, [&](const std::vector<int>& ix) { for (size_t cut = 0; cut <= ix.size(); ++cut) for (int wide = 0; wide < 2; ++wide) {
            if (!R.begin()) continue; g_log.clear(); po::variables_map vm; string w = "ok", g = "ok"; Strs log; bool has = false, isDef = false; string val; std::vector<string> elems; R.trace();
            auto fresh_ = [&](const string& t) { elems.clear(); if (holder == VEC) { elems.assign(2, t); } val = t; has = true; };
            auto shown = [&]() { if (holder == VEC) { string s = "["; for (size_t i = 0; i < elems.size(); ++i) s += (i ? ";" : "") + elems[i]; return s + "]"; } return (holder == OPT ? "o:" : "") + val; };
            for (int part = 0; part < 2 && w == "ok"; ++part) {
                size_t b = part ? cut : 0, e = part ? ix.size() : cut; bool skip = part && !comp && cut > 0;
                for (size_t i = b; i < e && !skip && w == "ok"; ++i) {
                    const Strs& t = oc[ix[i]]; if (isDef) { isDef = has = false; }
                    if (t.empty() && impl) { fresh_("IMP"); continue; }
                    if (holder == PLAIN) { string bf = has ? val : "nothing"; log.push_back("validate " + bf + " <- " + mc::q(t)); for (size_t k = 0; k < t.size() && w == "ok"; ++k) w = t[k] == "bad" ? "bad_value" : t[k] == "odd" ? "int" : t[k] == "blc" ? "std::exception" : t[k] == "vld" ? "vld" : "ok"; if (w == "ok") { val = (has ? bf + "+" : "") + join(t); has = true; } }
                    else if (holder == VEC) { if (!has) { elems.clear(); has = true; } for (size_t k = 0; k < t.size() && w == "ok"; ++k) { log.push_back("validate nothing <- " + mc::q(Strs(1, t[k]))); w = t[k] == "bad" ? "bad_value" : t[k] == "odd" ? "int" : t[k] == "blc" ? "bad_value blc" : t[k] == "vld" ? "vld" : "ok"; if (w == "ok") elems.push_back(t[k]); } }
                    else { if (has) { w = "multiple_occurrences"; break; } if (t.size() > 1) { w = "multiple"; break; } if (t.empty()) { w = "atleast"; break; } log.push_back("validate nothing <- " + mc::q(t)); w = t[0] == "bad" ? "bad_value" : t[0] == "odd" ? "int" : t[0] == "blc" ? "std::exception" : t[0] == "vld" ? "vld" : "ok"; if (w == "ok") { val = t[0]; has = true; } }
                }
                if (w == "ok" && !has && def) { fresh_("DEF"); isDef = true; }
                po::parsed_options p(&d, st::allow_long); for (size_t i = b; i < e; ++i) p.options.push_back(po::option("opt", oc[ix[i]]));
                try { if (wide) po::store(po::wparsed_options(p), vm); else po::store(p, vm); } catch (int i) { g = "int"; } catch (const po::validation_error& x) { Res r = current(); g = r.kind; if (x.kind() == po::validation_error::invalid_option) g = "vld"; if (x.kind() == po::validation_error::multiple_values_not_allowed) g = "multiple"; if (x.kind() == po::validation_error::at_least_one_value_required) g = "atleast"; if (x.get_option_name() != "--opt") g += " for " + x.get_option_name(); if (r.what.find("('blc')") != string::npos) g += " blc"; } catch (...) { g = current().kind; }
                if (g != "ok") break;
            }
            if (w == "ok" && has) log.push_back("notifier " + shown()); 
            if (g == "ok") g = guard([&] { po::notify(vm); });
            if (w == "ok") { w += has ? " held " + shown() + (isDef ? " default" : "") : " held nothing"; g += vm.count("opt") ? " held " + heldAs<H>(vm["opt"].value()) + (vm["opt"].defaulted() ? " default" : "") : " held nothing"; }
            w += " " + mc::q(log); g += " " + mc::q(g_log); R.transitions(ix.size() + 1); R.state(mc::hstr(what + w));
            if (w != g) R.fail(what + (wide ? " wide source" : "") + " occurrences " + label(ix, [&](int i) { return mc::q(oc[i]); }) + " first " + mc::num(cut) + " in one store, the rest in another", w, g);
            R.end(mc::hstr(g));
        } });
    }
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    protocol(R, T); arities(R, T); helpers(R, T);
    R.space("user written validators", T ? "every list of 0..4 of 8 occurrences (empty, one and several tokens, four ways to throw) cut anywhere into two stores, narrow and wide, for plain, vector, boost and std optional of a user type of either width; composing, implicit, default" : "every list of 0..3 of 8 occurrences (empty, one and several tokens, four ways to throw) cut anywhere into two stores, narrow and wide, for plain, vector, boost and std optional of a user type of either width; composing, implicit, default");
    validators<U, char>(R, T, PLAIN, "value<U>"); validators<std::vector<U>, char>(R, T, VEC, "value<vector<U>>"); validators<boost::optional<U>, char>(R, T, OPT, "value<boost::optional<U>>"); validators<std::optional<U>, char>(R, T, OPT, "value<std::optional<U>>");
    validators<V, wchar_t>(R, T, PLAIN, "wvalue<V>"); validators<std::vector<V>, wchar_t>(R, T, VEC, "wvalue<vector<V>>"); validators<boost::optional<V>, wchar_t>(R, T, OPT, "wvalue<boost::optional<V>>"); validators<std::optional<V>, wchar_t>(R, T, OPT, "wvalue<std::optional<V>>");
    R.space("in help and messages", "6 parameter names x 8 arities x 3 declarations: the parameter is shown exactly when a value can be given, in the name's own words; required and ambiguous errors name the option");
    const char* nms[] = {"arg", "", "FILE", "<a b>", "%value%", "x\xc3\xa9"}; unsigned ar[8][2] = {{0, 0}, {0, 1}, {1, 1}, {0, INF}, {1, 2}, {2, 2}, {3, 9}, {5, INF}}; const char* dn[] = {"foo", "foo,f", ",f"};
    for (int n = 0; n < 6; ++n) for (int a = 0; a < 8; ++a) for (int k = 0; k < 3; ++k) for (int rq = 0; rq < 2; ++rq) {
        if (!R.begin()) continue; Attr t; t.mn = ar[a][0]; t.mx = ar[a][1]; t.nm = nms[n]; t.req = rq; po::options_description d; d.add_options()(dn[k], new Rec("o", t), "text"); string par = t.mx ? t.nm : "", nm = k == 0 ? "--foo" : k == 1 ? "-f [ --foo ]" : "-f", line = "  " + nm + " " + par; if (line.size() < 24) line.resize(24, ' '); line += "text\n"; std::ostringstream os; os << d; string got = os.str() + d.options()[0]->format_parameter(), want = line + par; g_log.clear(); po::variables_map vm; po::store(po::parsed_options(&d, st::allow_long), vm); got += guard([&] { po::notify(vm); }); want += rq ? "required" : "ok";
        R.trace(); R.transitions(2); R.state(mc::hstr(want)); if (want != got) R.fail(string("custom semantic named ") + mc::q(string(nms[n])) + " " + t.str() + " " + dn[k], want, got); R.end(mc::hstr(got));
    }
}
