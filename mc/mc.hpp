// Explicit enumeration runtime shared by all harnesses.
//
// A harness defines   const char* mc::property   and   void mc::explore(mc::Run&).
// explore() walks a finite space in a fixed order and brackets every case:
//
//     if (!R.begin()) continue;          // case belongs to another shard
//     ... run model and implementation, R.fail(...) on disagreement ...
//     R.end(outcome_hash);
//
// Cases are numbered in walking order; shard of a case is a fixed function of its number, so
// any case (or any history of cases inside one shard) can be replayed in a fresh process.
#ifndef MC_HPP
#define MC_HPP
#include <algorithm>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#endif

namespace mc {

typedef uint64_t u64;

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
inline u64 hstr(const std::string& s, u64 h = 1469598103934665603ull)
{
    for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
    return mix(h, s.size());
}

// printable rendering of arbitrary bytes
inline std::string q(const std::string& s)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c >= 32 && c < 127) r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}
inline std::string q(const std::wstring& s)
{
    std::string r = "L\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned long c = (unsigned long)s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { char b[20]; snprintf(b, sizeof b, "\\u{%lx}", c); r += b; }
    }
    return r + "\"";
}
template<class S> inline std::string q(const std::vector<S>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ", "; r += q(v[i]); }
    return r + "]";
}
inline std::string json(const std::string& s)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c >= 32 && c < 127) r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    }
    return r + "\"";
}
inline std::string num(u64 v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }

// open-addressing set of 64-bit hashes
class HashSet {
    std::vector<u64> t; size_t n; bool zero;
public:
    bool capped; size_t cap;
    HashSet() : t(1 << 12), n(0), zero(false), capped(false), cap(24u << 20) {}
    bool insert(u64 h)
    {
        if (h == 0) { bool r = !zero; zero = true; return r; }
        if (n * 2 >= t.size()) {
            if (t.size() >= cap * 2) { size_t i = h & (t.size() - 1); for (int k = 0; k < 64; ++k, i = (i + 1) & (t.size() - 1)) { if (t[i] == h) return false; if (!t[i]) break; } capped = true; return false; }
            std::vector<u64> o; o.swap(t); t.resize(o.size() * 4); n = 0;
            for (size_t i = 0; i < o.size(); ++i) if (o[i]) put(o[i]);
        }
        return put(h);
    }
    bool put(u64 h)
    {
        size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
        t[i] = h; ++n; return true;
    }
    size_t size() const { return n + zero; }
    void all(std::vector<u64>& o) const { for (size_t i = 0; i < t.size(); ++i) if (t[i]) o.push_back(t[i]); if (zero) o.push_back(0); }
};

struct Slot {                 // one per worker, in shared memory
    volatile u64 cur;         // case being executed
    volatile u64 beat;        // bumped at begin/end
    volatile int running;     // inside a case
    volatile int done;
    char desc[4096];          // description of the case being executed (when the harness gave one early)
};
struct Shared {
    volatile int stop;
    volatile int failures;
    Slot slot[64];
};

struct Failure { u64 idx; int shard; std::string desc, expected, actual, how; };

class Run {
public:
    bool thorough;
    // fixed per harness: seconds a single case may take before it is treated as a hang
    double case_timeout;

    Run() : thorough(false), case_timeout(20), shard(0), nshards(1), only(0), hist_from(0), hist_to(0), mode(0),
            idx_(0), mine(0), cases(0), transitions_(0), traces(0), sh(0), slot(0), cur_space(-1), in_case(false), deadline(0), capped(false), nknown(0), ffd(-1) {}

    // ---- space labelling
    void space(const std::string& name, const std::string& bounds = "")
    {
        for (size_t i = 0; i < spaces.size(); ++i) if (spaces[i].name == name) { cur_space = (int)i; return; }
        Space s; s.name = name; s.bounds = bounds; s.cases = 0; spaces.push_back(s); cur_space = (int)spaces.size() - 1;
    }

    // ---- case bracketing
    bool begin()
    {
        u64 i = ++idx_;
        if (mode == 0) {
            if ((i >> 4) % (u64)nshards != (u64)shard) return false;
            if (sh && sh->stop) { capped = true; throw Stop(); }
            if (deadline && (i & 255) == 0 && now() > deadline) { capped = true; throw Stop(); }
        } else if (mode == 1) {
            if (i != only) return false;
        } else {
            if ((i >> 4) % (u64)nshards != (u64)shard) return false;
            if (i < hist_from) return false;
            if (i > hist_to) throw Stop();
        }
        if (slot) { slot->cur = i; slot->beat = slot->beat + 1; slot->desc[0] = 0; slot->running = 1; }
        in_case = true; mine = i;
        return true;
    }
    // optional: make the description visible to the parent before running, so crashes are explained
    void describe(const std::string& d)
    {
        if (slot) { size_t n = std::min(d.size(), sizeof slot->desc - 1); memcpy(slot->desc, d.data(), n); slot->desc[n] = 0; }
        cur_desc = d;
    }
    void end(u64 outcome = 0)
    {
        outcomes.insert(outcome); ++cases; if (cur_space >= 0) spaces[cur_space].cases++;
        if (slot) { slot->running = 0; slot->beat = slot->beat + 1; }
        in_case = false;
        if (mode == 1) throw Stop();
    }
    void state(u64 h) { states.insert(h); }
    void transitions(u64 n) { transitions_ += n; }
    void trace() { ++traces; }
    bool want_sample() const { return cases < 1 || ((cases & (cases - 1)) == 0 && cases >= 64); }
    void sample(const std::string& s) { if (samples.size() < 40) samples.push_back(s); }
    bool single() const { return mode != 0; }
    u64 index() const { return mine; }

    // ---- failure of the current case. `key` identifies the failing input for the known-findings file
    void fail(const std::string& key, const std::string& expected, const std::string& actual, const std::string& how = "mismatch")
    {
        if (known.count(key)) { knownhit.insert(key); return; }
        Failure f; f.idx = mine; f.shard = shard; f.desc = key; f.expected = expected; f.actual = actual; f.how = how;
        fails.push_back(f);
        emit(f);
        if (mode == 0) { if (sh) { sh->failures = sh->failures + 1; if (sh->failures >= 8) sh->stop = 1; } if (fails.size() >= 3) { capped = true; throw Stop(); } }
    }

    struct Stop {};
    struct Space { std::string name, bounds; u64 cases; };

    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    // internal
    int shard, nshards; u64 only, hist_from, hist_to; int mode; u64 idx_, mine;
    u64 cases, transitions_, traces;
    Shared* sh; Slot* slot; int cur_space; bool in_case; double deadline; bool capped;
    u64 nknown; int ffd;
    std::vector<Space> spaces; HashSet states, outcomes; std::vector<std::string> samples;
    std::set<std::string> known, knownhit; std::vector<Failure> fails; std::string cur_desc;

    void emit(const Failure& f)
    {
        if (ffd < 0) return;
        std::string s = "{\"idx\":" + num(f.idx) + ",\"shard\":" + num(f.shard) + ",\"how\":" + json(f.how) + ",\"desc\":" + json(f.desc) +
                        ",\"expected\":" + json(f.expected.substr(0, 20000)) + ",\"actual\":" + json(f.actual.substr(0, 20000)) + "}\n";
        ssize_t r = write(ffd, s.data(), s.size()); (void)r;
    }
};

extern const char* property;   // defined by the harness
void explore(Run& R);          // defined by the harness

inline int run_explore(Run& R)
{
    try { explore(R); }
    catch (Run::Stop&) {}
    return R.fails.empty() ? 0 : 1;
}

// line-oriented per-shard result file
inline void dump(const Run& R, const std::string& f)
{
    FILE* o = fopen(f.c_str(), "w"); if (!o) _exit(97);
    fprintf(o, "cases %llu\ntransitions %llu\ntraces %llu\ncapped %d\nhcapped %d\ntotal %llu\n", (unsigned long long)R.cases, (unsigned long long)R.transitions_,
            (unsigned long long)R.traces, (int)R.capped, (int)(R.states.capped || R.outcomes.capped), (unsigned long long)R.idx_);
    for (size_t i = 0; i < R.spaces.size(); ++i) fprintf(o, "space %llu %s\t%s\n", (unsigned long long)R.spaces[i].cases, R.spaces[i].name.c_str(), R.spaces[i].bounds.c_str());
    for (size_t i = 0; i < R.samples.size(); ++i) fprintf(o, "sample %s\n", json(R.samples[i]).c_str());
    for (std::set<std::string>::const_iterator k = R.knownhit.begin(); k != R.knownhit.end(); ++k) fprintf(o, "known %s\n", json(*k).c_str());
    fclose(o);
    std::vector<u64> v; R.states.all(v);
    o = fopen((f + ".st").c_str(), "wb"); if (!v.empty()) fwrite(&v[0], 8, v.size(), o); fclose(o);
    v.clear(); R.outcomes.all(v);
    o = fopen((f + ".oc").c_str(), "wb"); if (!v.empty()) fwrite(&v[0], 8, v.size(), o); fclose(o);
}

inline void load_known(Run& R, const std::string& f)
{
    std::ifstream i(f.c_str()); std::string l;
    while (std::getline(i, l)) if (!l.empty()) R.known.insert(l);
}

inline int driver(int argc, char** argv)
{
    Run R; std::string out, known; u64 only = 0, hf = 0, ht = 0; int sh = -1; double maxwall = 0; int nworkers = 8;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") R.thorough = true;
        else if (a == "--out") out = argv[++i];
        else if (a == "--known") known = argv[++i];
        else if (a == "--only") only = strtoull(argv[++i], 0, 10);
        else if (a == "--hist") { sh = atoi(argv[++i]); hf = strtoull(argv[++i], 0, 10); ht = strtoull(argv[++i], 0, 10); }
        else if (a == "--max-wall") maxwall = atof(argv[++i]);
    }
    if (!known.empty()) load_known(R, known);
#ifndef MC_ASAN
    rlimit rl; rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
    rlimit rc; rc.rlim_cur = rc.rlim_max = 0; setrlimit(RLIMIT_CORE, &rc);
    R.nshards = nworkers;
    if (only || sh >= 0) {    // replay in this process; failures on stdout as JSON lines
        R.ffd = 1; R.mode = only ? 1 : 2; R.only = only; R.shard = sh < 0 ? int((only >> 4) % nworkers) : sh; R.hist_from = hf; R.hist_to = ht;
        int r = run_explore(R);
        fflush(0);
        _exit(r);
    }
    Shared* S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(S, 0, sizeof *S);
    pid_t pid[64];
    fflush(0);
    for (int w = 0; w < nworkers; ++w) {
        pid[w] = fork();
        if (pid[w] == 0) {
            R.sh = S; R.slot = &S->slot[w]; R.shard = w;
            if (maxwall > 0) R.deadline = Run::now() + maxwall;
            std::string ff = out + ".fail." + num(w);
            FILE* f = fopen(ff.c_str(), "w"); R.ffd = fileno(f);
            run_explore(R);
            dump(R, out + ".sh." + num(w));
            S->slot[w].done = 1;
            fflush(0);
            _exit(0);
        }
    }
    // supervise
    u64 beat[64]; double since[64]; bool alive[64]; int left = nworkers;
    std::string ev;
    for (int w = 0; w < nworkers; ++w) { beat[w] = 0; since[w] = Run::now(); alive[w] = true; }
    while (left) {
        usleep(20000);
        for (int w = 0; w < nworkers; ++w) if (alive[w]) {
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            Slot& s = S->slot[w];
            if (r == pid[w]) {
                alive[w] = false; --left;
                if (!s.done) {   // died: crash inside (or outside) a case
                    std::string why = WIFSIGNALED(st) ? "signal " + num(WTERMSIG(st)) : "exit " + num(WEXITSTATUS(st));
                    ev += "crash " + num(w) + " " + num(s.cur) + " " + num(s.running) + " " + json(why) + " " + json(s.desc) + "\n";
                    S->stop = 1;
                }
                continue;
            }
            double t = Run::now();
            if (s.beat != beat[w] || !s.running) { beat[w] = s.beat; since[w] = t; }
            else if (t - since[w] > R.case_timeout * 1.0 + 10) {
                ev += "hang " + num(w) + " " + num(s.cur) + " 1 \"no progress\" " + json(s.desc) + "\n";
                kill(pid[w], SIGKILL); S->stop = 1;
                waitpid(pid[w], &st, 0); alive[w] = false; --left;
            }
        }
    }
    FILE* o = fopen((out + ".events").c_str(), "w"); fputs(ev.c_str(), o); fclose(o);
    // union of the state and outcome sets
    const char* ext[2] = { ".st", ".oc" }; u64 cnt[2];
    for (int k = 0; k < 2; ++k) {
        std::vector<u64> all;
        for (int w = 0; w < nworkers; ++w) {
            std::ifstream f((out + ".sh." + num(w) + ext[k]).c_str(), std::ios::binary); u64 v;
            while (f.read((char*)&v, 8)) all.push_back(v);
        }
        std::sort(all.begin(), all.end()); cnt[k] = std::unique(all.begin(), all.end()) - all.begin();
        for (int w = 0; w < nworkers; ++w) unlink((out + ".sh." + num(w) + ext[k]).c_str());
    }
    o = fopen((out + ".sets").c_str(), "w"); fprintf(o, "%llu %llu\n", (unsigned long long)cnt[0], (unsigned long long)cnt[1]); fclose(o);
    return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::driver(argc, argv); }
#endif
#endif
