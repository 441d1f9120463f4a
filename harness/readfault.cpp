// C14: a configuration file is read completely or its failure is reported.
// read() and fopen() are replaced by versions that follow a script, so every split of the file into
// short reads, every interruption point and every failing call can be enumerated.
#include "cfgmodel.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace cm;
using mc::Run;

namespace script {
    static bool on = false; static std::vector<int> acts; static size_t calls = 0; static int fd = -1; static bool eio = false; static size_t given = 0, total = 0; static int openErr = 0; static int opens = 0;
    enum { EINTR_ = -1, EIO_ = -2, EAGAIN_ = -3, EISDIR_ = -4, EINVAL_ = -5, LAST = -6 };   // otherwise: at most n bytes; beyond the script: the last entry repeats when it is positive
}
static bool isfail(int a) { return a <= script::EIO_; }
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    using namespace script;
    if (on && fd == script::fd) {
        int a = calls < acts.size() ? acts[calls] : (!acts.empty() && acts.back() > 0 ? acts.back() : INT_MAX);
        ++calls;
        if (a == EINTR_) { errno = EINTR; return -1; }
        if (isfail(a)) { eio = true; errno = a == EIO_ ? EIO : a == EAGAIN_ ? EAGAIN : a == EISDIR_ ? EISDIR : EINVAL; return -1; }
        if ((size_t)a < n) n = (size_t)a;
        ssize_t r = syscall(SYS_read, fd, b, n); if (r > 0) given += r; return r;
    }
    return syscall(SYS_read, fd, b, n);
}
static FILE* opened(const char* name, const char* mode, const char* sym)
{
    typedef FILE* (*F)(const char*, const char*); static F f = 0; if (!f) f = (F)dlsym(RTLD_NEXT, sym);
    if (script::on) { ++script::opens; if (script::openErr) { errno = script::openErr; return 0; } }
    FILE* r = f(name, mode); if (script::on && r) script::fd = fileno(r); return r;
}
extern "C" FILE* fopen(const char* n, const char* m) { return opened(n, m, "fopen"); }
extern "C" FILE* fopen64(const char* n, const char* m) { return opened(n, m, "fopen64"); }

const char* mc::property = "C14";
static string dir;
static int freeFd() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
static string put(const string& text, const string& name = "f.cfg") { string p = dir + "/" + name; FILE* f = fopen(p.c_str(), "wb"); if (!f) _exit(96); fwrite(text.data(), 1, text.size(), f); fclose(f); return p; }
static void arm(const std::vector<int>& a, int oe = 0) { script::acts = a; script::calls = 0; script::fd = -1; script::eio = false; script::given = 0; script::openErr = oe; script::opens = 0; script::on = true; }
template<class C> static Res load(const string& file, const po::options_description& d, bool un, const std::vector<int>& a, int oe = 0)
{
    Res r; arm(a, oe);
    try { po::basic_parsed_options<C> p = po::parse_config_file<C>(file.c_str(), d, un); script::on = false;
        if constexpr (sizeof(C) == 1) r = toRes(p); else { r = toRes(p.utf8_encoded_options);
            for (size_t i = 0; i < p.options.size(); ++i) { std::wstring v = p.options[i].value.at(0); if (string(v.begin(), v.end()) != r.opts[i].val[0]) r.kind = "wide text differs"; } } }
    catch (...) { script::on = false; r = current(); }
    return r;
}
static std::vector<string> names; static std::vector<po::options_description*> descs;
static Strs decl() { Strs s; s.push_back("a"); s.push_back("s.a"); s.push_back("long.*"); s.push_back("b"); return s; }
// one run of the script against one file
static void one(Run& R, const string& file, const string& text, bool un, const std::vector<int>& acts, const po::options_description& d, const string& tag, bool wide)
{
    int f0 = freeFd();
    CfgModel m(decl(), un); Res w = m.parse(text);
    Res x = wide ? load<wchar_t>(file, d, un, acts) : load<char>(file, d, un, acts);
    u64 h = mc::hstr(text); for (size_t i = 0; i < script::calls; ++i) { int a = i < acts.size() ? acts[i] : 0; R.state(h); h = mc::mix(h, a); } R.state(h);
    R.trace(); R.transitions(script::calls);
    string key = tag + (wide ? " wide" : "") + (un ? " unregistered" : "") + " text " + mc::q(text.size() > 300 ? text.substr(0, 300) : text) + " length " + mc::num(text.size()) + " reads [";
    for (size_t i = 0; i < acts.size() && i < 40; ++i) { char b[16]; snprintf(b, sizeof b, "%d ", acts[i]); key += b; } key += "]";
    Res fail; fail.err = true; fail.kind = "reading_file"; fail.what = "can not read options configuration file '" + file + "'";
    if (script::eio) {
        bool ok = x == fail; string part = text.substr(0, script::given); size_t nl = part.rfind('\n'); part = nl == string::npos ? "" : part.substr(0, nl + 1);
        if (!ok) { Res e = m.parse(part); ok = e.err && e == x; }
        if (!ok) R.fail(key, fail.str(), x.str());
    } else if (!(w == x)) R.fail(key, w.str(), x.str());
    int f1 = freeFd(); if (f1 != f0) R.fail(key, "file closed", "file descriptor left open");
    if (R.want_sample()) R.sample(key + " -> " + x.str());
}
void mc::explore(Run& R)
{
    const bool T = R.thorough;
    { char t[] = "/tmp/mc-c14-XXXXXX"; if (!mkdtemp(t)) _exit(96); dir = t; }
    struct Clean { ~Clean() { DIRclean(); } static void DIRclean() { string n[] = {"f.cfg", "empty", "pct%value%", "%option%", "with space", "q'uote"}; for (string& x : n) unlink((dir + "/" + x).c_str()); string l = dir + "/" + text(200); unlink(l.c_str()); rmdir((dir + "/sub").c_str()); rmdir(dir.c_str()); } } clean;
    po::options_description d; declare(d, decl());
    Strs small; const char* sm[] = {"", "a=1", "a=1\n", "a=1\nb=2", "\n\na=1", "[s]\na=1", "#x\na=1", "a=1\r\n", "bad", "zz=1", "a=1\nbad\n", "a=\n\nb=", "[s]\nz=1\n", "a=12345\nb", "a=1#\nb=2"};
    for (const char* s : sm) small.push_back(s);
    R.space("all splits", T ? "every file of 15 small texts and every text of length <= 6 over (a = newline [): every composition of its length into short reads, and an interruption, I/O error, EAGAIN, EISDIR or EINVAL at every read call" : "15 small texts and every text of length <= 4 over (a = newline [): every composition of the length into short reads, and an interruption or failure at every read call");
    texts("a=\n[", 1, T ? 6 : 4, [&](const string& s) { small.push_back(s); });
    for (size_t k = 0; k < small.size(); ++k) {
        const string& t = small[k]; int n = (int)t.size(); bool wrote = false;
        for (int mask = 0; mask < (n > 1 ? 1 << (n - 1) : 1); ++mask) {
            std::vector<int> cut; int run = 1; for (int i = 0; i + 1 < n; ++i) { if (mask >> i & 1) { cut.push_back(run); run = 1; } else ++run; } if (n) cut.push_back(run);
            for (size_t at = 0; at <= cut.size() + 1; ++at) for (int f = (at == cut.size() + 1 ? 0 : 1); f <= (at == cut.size() + 1 ? 0 : 5); ++f) {
                if (!R.begin()) continue;
                string file = dir + "/f.cfg"; if (!wrote) { put(t); wrote = true; }
                std::vector<int> a = cut; if (f) a.insert(a.begin() + at, f == 1 ? script::EINTR_ : f == 2 ? script::EIO_ : f == 3 ? script::EAGAIN_ : f == 4 ? script::EISDIR_ : script::EINVAL_);
                one(R, file, t, true, a, d, "small", false); one(R, file, t, false, a, d, "small", false); one(R, file, t, true, a, d, "small", true); one(R, file, t, false, a, d, "small", true);
                R.end(mc::mix(mask, at * 8 + f));
            }
        }
    }
    R.space("double faults", "every pair of interruption/failure positions over one-byte reads of 15 texts");
    for (int k = 0; k < 15; ++k) { const string& t = small[k]; int n = (int)t.size(); bool wrote = false; for (int i = 0; i <= n + 1; ++i) for (int j = i; j <= n + 1; ++j) for (int f = 0; f < 4; ++f) { if (!R.begin()) continue; if (!wrote) { put(t); wrote = true; } std::vector<int> a(n + 2, 1); if (n) a[n] = a[n + 1] = 1; a[i] = f & 1 ? script::EINTR_ : script::EIO_; a[j] = f & 2 ? script::EINTR_ : script::EIO_; one(R, dir + "/f.cfg", t, true, a, d, "double", false); one(R, dir + "/f.cfg", t, true, a, d, "double", true); R.end(mc::mix(i, j * 4 + f)); } }
    R.space("large files", "files of 8 shapes with sizes around 1k..64k (buffer boundaries +-2): every read size of 12, a failure or interruption at every read call (first 70 and last 5)");
    std::vector<int> sz; for (int p = 512; p <= (T ? 65536 : 32768); p *= 2) for (int i = -2; i <= 2; ++i) sz.push_back(p + i); sz.push_back(8192 + 8191); sz.push_back(3 * 8191);
    int chunk[] = {1, 2, 3, 5, 7, 64, 511, 1024, 4095, 4096, 8191, INT_MAX};
    for (size_t z = 0; z < sz.size(); ++z) for (int shape = 0; shape < 8; ++shape) {
        string t; int n = sz[z];
        switch (shape) { case 0: while ((int)t.size() < n - 4) t += "a=1\n"; t += text(n - t.size() - 0 > 0 ? n - t.size() : 0, "=").substr(0, 0); t += "a=" + text(n > (int)t.size() + 2 ? n - t.size() - 2 : 0); break;
            case 1: t = "a=" + text(n - 2); break; case 2: t = "#" + text(n - 5) + "\nb=2"; break; case 3: t = rep(" ", n - 3) + "a=1"; break; case 4: t = "[s]\n"; while ((int)t.size() < n - 5) t += "a=12\n"; t += "a=3\n"; break;
            case 5: while ((int)t.size() < n - 20) t += "long." + text(7 + t.size() % 90) + " = " + text(t.size() % 60) + "\r\n"; t += "b=end"; break; case 6: t = rep("\n", n - 4) + "b=2\n"; break; case 7: t = rep("a=1\n#x\n", n - 5) + "\njunk"; break; }
        bool wrote = false;
        for (int c = 0; c < 12; ++c) {
            if (chunk[c] <= 7 && n > 5000 && !T) continue; if (chunk[c] < 64 && n > 20000) continue;
            size_t reads = t.size() / std::min(chunk[c], 8191) + 2;
            for (size_t at = 0; at <= reads + 1; ++at) for (int f = 0; f < (at > reads ? 1 : 2); ++f) {
                if (at <= reads && at >= 70 && at + 5 < reads) continue;
                if (!R.begin()) continue; if (!wrote) { put(t); wrote = true; }
                std::vector<int> a; if (at > reads) a.push_back(chunk[c]); else { a.assign(at, chunk[c]); a.push_back(f ? script::EINTR_ : script::EIO_); a.push_back(chunk[c]); }
                one(R, dir + "/f.cfg", t, true, a, d, "large", at & 1); R.end(mc::mix(mc::hstr(t), at * 2 + f));
            }
        }
    }
    R.space("unopenable files", "missing files, directories, empty names, odd names, and every open error of 9, narrow and wide");
    Strs nm; nm.push_back("f.cfg"); nm.push_back("empty"); nm.push_back("pct%value%"); nm.push_back("%option%"); nm.push_back("with space"); nm.push_back("q'uote"); nm.push_back(text(200));
    int er[] = {0, ENOENT, EACCES, EMFILE, ENFILE, EINTR, ENOMEM, EIO, ELOOP, EISDIR};
    for (size_t i = 0; i < nm.size(); ++i) for (int e = 0; e < 10; ++e) for (int w = 0; w < 2; ++w) for (int un = 0; un < 2; ++un) {
        if (!R.begin()) continue;
        string f = put(nm[i] == "empty" ? "" : "a=1\n", nm[i]); int f0 = freeFd();
        Res x = w ? load<wchar_t>(f, d, un, std::vector<int>(), er[e]) : load<char>(f, d, un, std::vector<int>(), er[e]), want;
        if (er[e] && script::opens) { want.err = true; want.kind = "reading_file"; want.what = "can not read options configuration file '" + f + "'"; } else { CfgModel m(decl(), un); want = m.parse(nm[i] == "empty" ? "" : "a=1\n"); }
        R.trace(); R.transitions(1); R.state(mc::mix(i, e)); if (!(x == want)) R.fail("open error " + mc::num(er[e]) + " file " + mc::q(f), want.str(), x.str());
        if (freeFd() != f0) R.fail("open error " + mc::num(er[e]) + " file " + mc::q(f), "file closed", "file descriptor left open");
        R.end(x.hash());
    }
    mkdir((dir + "/sub").c_str(), 0700);
    string bad[] = {dir + "/none", dir + "/sub", dir + "/sub/none", dir + "/f.cfg/x", "", dir + "/none%value%", dir + "/" + text(300), dir + "/" + text(5000), dir + "/sub/"};
    for (const string& b : bad) for (int w = 0; w < 2; ++w) for (int un = 0; un < 2; ++un) {
        if (!R.begin()) continue; int f0 = freeFd();
        Res x = w ? load<wchar_t>(b, d, un, std::vector<int>()) : load<char>(b, d, un, std::vector<int>()), want; want.err = true; want.kind = "reading_file"; want.what = "can not read options configuration file '" + b + "'";
        R.trace(); R.transitions(1); if (!(x == want)) R.fail("file " + mc::q(b), want.str(), x.str()); if (freeFd() != f0) R.fail("file " + mc::q(b), "file closed", "file descriptor left open"); R.end(x.hash());
    }
    R.space("stored result", "reading, storing and looking up under every read size 1..40 of a 60-byte file");
    { string t = "a = one # c\n[s]\na = two\n[long]\nx = 3\n[long.y]\nz=4\n"; for (int c = 1; c <= 40; ++c) for (int off = 0; off < 40; ++off) { if (!R.begin()) continue; put(t); std::vector<int> a; if (off) a.push_back(off); a.push_back(c); one(R, dir + "/f.cfg", t, false, a, d, "stored", false); 
        po::variables_map vm; arm(a); string h; try { po::store(po::parse_config_file<char>((dir + "/f.cfg").c_str(), d), vm); script::on = false; for (auto& kv : vm) h += kv.first + "=" + kv.second.as<string>() + ";"; } catch (...) { script::on = false; h = current().str(); }
        string want = "a=one;long.x=3;long.y.z=4;s.a=two;"; if (h != want) R.fail("stored file, reads of " + mc::num(c), want, h); R.end(mc::hstr(h)); } }
}
