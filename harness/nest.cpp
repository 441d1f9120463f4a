// C26, one thread: every order of calls and every nesting of one use inside a callback of another.
#include "mc.hpp"
const char* mc::property = "C26";
using std::string; using mc::Run; using mc::u64;
void ops_prepare(); int ops_count(); const char* ops_name(int); void ops_run(int, int, char*, size_t); extern void (*ops_hook)();
int ops_histories(); void ops_reuse(const int*, int, int, int, char*, size_t);
extern char** environ;
static string label(int x) { return string(ops_name(x / 2)) + (x & 1 ? " (b)" : " (a)"); }
static char g_buf[8][1 << 14];
static string call(int x, int depth) { ops_run(x / 2, x & 1, g_buf[depth], sizeof g_buf[depth]); return g_buf[depth]; }
// ---- nesting: at the k-th callback of the operation at depth i, operation plan[i + 1] runs
static std::vector<int> g_plan; static std::vector<long> g_at; static std::vector<string> g_res; static long g_calls[8]; static int g_depth; static bool g_ran[8];
static void hook()
{
    int d = g_depth; long k = ++g_calls[d]; if (d + 1 >= (int)g_plan.size() || k != g_at[d]) return;
    g_depth = d + 1; g_calls[d + 1] = 0; g_ran[d + 1] = true; g_res[d + 1] = call(g_plan[d + 1], d + 1); g_depth = d;
}
static char* g_page;
static string fresh(int x, long* calls)     // alone, in a fresh process
{
    fflush(0); pid_t p = fork();
    if (p == 0) { g_plan.assign(1, x); g_depth = 0; g_calls[0] = 0; ops_hook = hook; string r = call(x, 0); memcpy(g_page, r.c_str(), r.size() + 1); *(long*)(g_page + (1 << 15)) = g_calls[0]; _exit(0); }
    int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "%s alone ends badly\n", label(x).c_str()); _exit(96); }
    *calls = *(long*)(g_page + (1 << 15)); return g_page;
}
void mc::explore(Run& R)
{
    R.case_timeout = 30; const bool T = R.thorough;
    static char* env[] = { (char*)"MCA=environment value a", (char*)"MCB=environment value b", (char*)"OTHER=1", (char*)"PRA_LEVEL=7", (char*)"PRB_LIST=element of b", 0 }; environ = env;
    g_page = (char*)mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ops_prepare(); int n = ops_count() * 2; std::vector<string> solo(n); std::vector<long> calls(n);
    for (int x = 0; x < n; ++x) solo[x] = fresh(x, &calls[x]);
    g_res.resize(8);
    auto order = [&](const std::vector<int>& s, bool cold) {
        if (!R.begin()) return; string what; for (size_t i = 0; i < s.size(); ++i) what += (i ? ", then " : "") + label(s[i]); R.describe(what);
        int bad = -1; string got;
        if (cold) {
            fflush(0); pid_t p = fork();
            if (p == 0) { alarm(20); ops_hook = 0; for (size_t i = 0; i < s.size(); ++i) { string r = call(s[i], 0); if (r != solo[s[i]]) { memcpy(g_page, r.c_str(), r.size() + 1); _exit(10 + (int)i); } } _exit(0); }
            int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { bad = 0; got = "signal " + mc::num(WTERMSIG(st)); } else if (WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) < 20) { bad = WEXITSTATUS(st) - 10; got = g_page; } else if (WEXITSTATUS(st)) { bad = 0; got = "exit " + mc::num(WEXITSTATUS(st)); }
        } else { ops_hook = 0; for (size_t i = 0; i < s.size() && bad < 0; ++i) { string r = call(s[i], 0); if (r != solo[s[i]]) { bad = (int)i; got = r; } } }
        R.trace(); R.transitions(s.size()); u64 h = mc::hstr(what); R.state(h);
        if (bad >= 0) R.fail(what, "call " + mc::num(bad + 1) + " gives " + solo[s[bad]], got);
        if (R.want_sample()) R.sample(what);
        R.end(mc::hstr(solo[s.back()]));
    };
    R.space("a map cleared and used again", "every sequence of 2..3 (thorough 4) of 12 histories of store and notify (with failing stores and missing required options), the map cleared, assigned from a new one, or assigned from a cleared copy after each but the last; the last gives what it gives in a new map");
    {
        int h = ops_histories(); std::vector<string> alone(h); static char b1[1 << 14]; for (int b = 0; b < h; ++b) { ops_reuse(0, 0, b, 0, b1, sizeof b1); alone[b] = b1; }
        for (int l = 1; l <= (T ? 3 : 2); ++l) { int a[4] = {0, 0, 0, 0}; for (;;) { for (int how = 0; how < 3; ++how) for (int b = 0; b < h; ++b) {
            if (!R.begin()) continue; string what = "a map used for history"; for (int i = 0; i < l; ++i) what += " " + mc::num(a[i]); what += string(how == 0 ? " and cleared" : how == 1 ? " and assigned a new map" : " and assigned a cleared copy") + " each time, then history " + mc::num(b); R.describe(what);
            ops_reuse(a, l, b, how, b1, sizeof b1); R.trace(); R.transitions(l + 1); R.state(mc::hstr(what)); if (alone[b] != b1) R.fail(what, alone[b], b1); R.end(mc::hstr(b1)); }
            int k = l - 1; while (k >= 0 && ++a[k] == h) a[k--] = 0; if (k < 0) break; } }
    }
    R.space("call orders in a fresh process", T ? "every sequence of 1..3 of 50 operations, each sequence in a process of its own" : "every sequence of 1..2 of 50 operations, and every one of 3 that starts with an even one, each in a process of its own");
    for (int a = 0; a < n; ++a) { order(std::vector<int>(1, a), true); for (int b = 0; b < n; ++b) { std::vector<int> s(2); s[0] = a; s[1] = b; order(s, true); if (T || a % 2 == 0) for (int c = 0; c < n; ++c) { s.resize(3); s[2] = c; order(s, true); } } }
    R.space("call orders", T ? "every sequence of 3 and of 4 of 50 operations, one after the other in one process" : "every sequence of 3 of 50 operations, one after the other in one process");
    { std::vector<int> s(3); for (s[0] = 0; s[0] < n; ++s[0]) for (s[1] = 0; s[1] < n; ++s[1]) for (s[2] = 0; s[2] < n; ++s[2]) order(s, false); }
    if (T) { std::vector<int> s(4); for (s[0] = 0; s[0] < n; ++s[0]) for (s[1] = 0; s[1] < n; ++s[1]) for (s[2] = 0; s[2] < n; ++s[2]) for (s[3] = 0; s[3] < n; ++s[3]) order(s, false); }
    auto nest = [&](const std::vector<int>& plan, const std::vector<long>& at, bool cold) {
        if (!R.begin()) return; string what = label(plan[0]); for (size_t i = 1; i < plan.size(); ++i) what += "; in its callback " + mc::num(at[i - 1]) + ": " + label(plan[i]); R.describe(what);
        auto go = [&]() -> int { g_plan = plan; g_at = at; g_depth = 0; memset(g_calls, 0, sizeof g_calls); memset(g_ran, 0, sizeof g_ran); ops_hook = hook; g_res[0] = call(plan[0], 0); ops_hook = 0; for (size_t i = 0; i < plan.size(); ++i) { if (i && !g_ran[i]) { g_res[i] = "not reached"; return (int)i; } if (g_res[i] != solo[plan[i]]) return (int)i; } return -1; };
        int bad = -1; string got;
        if (cold) { fflush(0); pid_t p = fork(); if (p == 0) { alarm(20); int b = go(); if (b >= 0) { memcpy(g_page, g_res[b].c_str(), g_res[b].size() + 1); _exit(10 + b); } _exit(0); } int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { bad = 0; got = "signal " + mc::num(WTERMSIG(st)); } else if (WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) < 20) { bad = WEXITSTATUS(st) - 10; got = g_page; } else if (WEXITSTATUS(st)) { bad = 0; got = "exit " + mc::num(WEXITSTATUS(st)); } }
        else { bad = go(); if (bad >= 0) got = g_res[bad]; }
        R.trace(); R.transitions(plan.size()); u64 h = mc::hstr(what); R.state(h);
        if (bad >= 0) R.fail(what, "use " + mc::num(bad + 1) + " gives " + solo[plan[bad]], got);
        if (R.want_sample()) R.sample(what);
        R.end(mc::hstr(solo[plan.back()]));
    };
    R.space("nesting in a fresh process", "every operation in every callback of every operation");
    for (int a = 0; a < n; ++a) for (long k = 1; k <= calls[a]; ++k) for (int b = 0; b < n; ++b) { std::vector<int> p(2); p[0] = a; p[1] = b; nest(p, std::vector<long>(1, k), true); }
    R.space("nesting, three deep", T ? "every operation in every callback of every operation in every callback of every operation" : "as two deep, in the callbacks of the inner operation (innermost operation of one data set)");
    for (int a = 0; a < n; ++a) for (long k = 1; k <= calls[a]; ++k) for (int b = 0; b < n; ++b) for (long l = 1; l <= calls[b]; ++l) for (int c = 0; c < n; c += T ? 1 : 2) { std::vector<int> p(3); p[0] = a; p[1] = b; p[2] = c; std::vector<long> at(2); at[0] = k; at[1] = l; nest(p, at, false); }
    if (T) { R.space("nesting, four deep", "every operation, at the last callback"); for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = 0; c < n; ++c) for (int d = 0; d < n; ++d) { if (!calls[a] || !calls[b] || !calls[c]) continue; std::vector<int> p(4); p[0] = a; p[1] = b; p[2] = c; p[3] = d; std::vector<long> at(3); at[0] = calls[a]; at[1] = calls[b]; at[2] = calls[c]; nest(p, at, false); } }
}
