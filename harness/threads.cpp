// C26, threads: a controlled scheduler for real threads, a race monitor, and the exploration.
//
// The library and the operations are compiled with -fsanitize=thread; the __tsan_* functions they
// call are defined here. Exactly one thread runs at a time; a thread gives up its turn only at an
// access to memory that is not its own, and only where the schedule says so. Each schedule runs in
// a fresh process. Happens-before is tracked through locks, once-guards and atomics, and two
// unordered conflicting accesses are reported whether or not they changed a result.
#include "mc.hpp"
#include <atomic>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
const char* mc::property = "C26";
using mc::u64; using std::string;
void ops_prepare(); int ops_count(); const char* ops_name(int); void ops_run(int, int, char*, size_t);
extern char** environ;

enum { MAXT = 3 };
typedef unsigned char uchar;
// ---- allocation: each thread has a region of its own, so that an address tells whose memory it is
static const size_t REGION = 256u << 20, STACK = 2u << 20;
static char* g_region[MAXT + 1]; static size_t g_top[MAXT + 1]; static void* g_free[MAXT + 1][64]; static bool g_ready = false;
static char* g_stack[MAXT];
static __thread int t_id = -1;          // which exploring thread this is
static std::atomic_flag g_heap_lock = ATOMIC_FLAG_INIT;
struct Head { unsigned cls, region; size_t size; };
static char g_boot[1 << 16]; static size_t g_boottop = 0;
static unsigned cls(size_t n) { unsigned c = 0; size_t s = 32; while (s < n) { s = c & 1 ? s / 3 * 4 : s / 2 * 3; ++c; } return c; }
static size_t clsize(unsigned c) { size_t s = 32; for (unsigned i = 0; i < c; ++i) s = i & 1 ? s / 3 * 4 : s / 2 * 3; return s; }
static void regions() { if (g_ready) return; g_ready = true; for (int i = 0; i <= MAXT; ++i) g_region[i] = (char*)mmap((void*)(0x500000000000ull + i * 0x10000000ull * 4), REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int i = 0; i < MAXT; ++i) g_stack[i] = (char*)mmap((void*)(0x510000000000ull + i * 0x10000000ull), STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static void* region_alloc(size_t n)
{
    regions(); unsigned r = t_id >= 0 ? t_id : MAXT; size_t need = n + sizeof(Head);
    if (need > (64u << 20)) { errno = ENOMEM; return 0; }
    unsigned c = cls(need);
    while (g_heap_lock.test_and_set()) sched_yield();
    void* p = g_free[r][c]; if (p) g_free[r][c] = *(void**)((char*)p + sizeof(Head));
    else { size_t s = (clsize(c) + 15) & ~15ull; if (g_top[r] + s > REGION) { g_heap_lock.clear(); errno = ENOMEM; return 0; } p = g_region[r] + g_top[r]; g_top[r] += s; }
    Head* h = (Head*)p; h->cls = c; h->region = r; h->size = n;
    g_heap_lock.clear();
    return (char*)p + sizeof(Head);
}
extern "C" {
void* malloc(size_t n) { return region_alloc(n); }
void free(void* p) { if (!p) return; Head* h = (Head*)((char*)p - sizeof(Head)); if ((char*)p < g_region[0] || h->region > MAXT) return; while (g_heap_lock.test_and_set()) sched_yield(); *(void**)p = g_free[h->region][h->cls]; g_free[h->region][h->cls] = h; g_heap_lock.clear(); }
void* calloc(size_t a, size_t b) { void* p = region_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { if (!p) return region_alloc(n); Head* h = (Head*)((char*)p - sizeof(Head)); if (n <= h->size) return p; void* q = region_alloc(n); if (q) { memcpy(q, p, h->size); free(p); } return q; }
void* memalign(size_t a, size_t n) { char* p = (char*)region_alloc(n + a + sizeof(Head)); if (!p) return 0; if (((uintptr_t)p & (a - 1)) == 0) return p; char* q = (char*)(((uintptr_t)p + sizeof(Head) + a - 1) & ~(uintptr_t)(a - 1)); Head* h = (Head*)(q - sizeof(Head)); h->cls = 0; h->region = 99; h->size = n; return q; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
}
// ---- shared report page, written by the process that runs one schedule
struct Event { u64 a; unsigned n; uchar w, at; unsigned short pad; };
struct Page {
    int status;                    // 0 running, 1 finished
    char race[600]; char stuck[200];
    u64 visible[MAXT], switches, conflicts;
    char out[MAXT][1 << 14];
    size_t nlog; Event log[1 << 18];
};
static Page* g_page;
// ---- scheduler
struct Pre { int thread; u64 at; int to; };
static Pre g_pre[8]; static int g_npre; static int g_nt; static volatile int g_turn; static volatile bool g_armed; static volatile bool g_done[MAXT]; static u64 g_count[MAXT], g_slice; static bool g_logging;
static void fwait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, 0, 0, 0); }
static void fwake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE, 64, 0, 0, 0); }
static void await(int me) { for (;;) { int t = __atomic_load_n(&g_turn, __ATOMIC_ACQUIRE); if (t == me) return; fwait(&g_turn, t); } }
static void give(int to) { __atomic_store_n(&g_turn, to, __ATOMIC_RELEASE); fwake(&g_turn); }
static int other(int me) { for (int i = 1; i < g_nt; ++i) { int t = (me + i) % g_nt; if (!g_done[t]) return t; } return -1; }
static void finish_stuck(const char* why) { snprintf(g_page->stuck, sizeof g_page->stuck, "%s", why); g_page->status = 1; _exit(0); }
static void yield_to(int to) { int me = t_id; g_slice = 0; g_page->switches++; give(to); await(me); }
static void forced(const char* why) { int o = other(t_id); if (o < 0) finish_stuck(why); yield_to(o); }
// ---- happens-before
struct VC { unsigned c[MAXT]; };
static VC g_vc[MAXT];
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
struct Shadow { u64 a; unsigned wc; int wt; unsigned r[MAXT]; };
static Shadow* g_sh; static const size_t SH = 1 << 19; static size_t g_nsh;
struct Sync { u64 a; VC v; }; static Sync* g_sy; static const size_t SY = 1 << 14;
static VC& sync_of(u64 a) { size_t i = (a * 0x9e3779b97f4a7c15ull >> 40) & (SY - 1); while (g_sy[i].a && g_sy[i].a != a) i = (i + 1) & (SY - 1); g_sy[i].a = a; return g_sy[i].v; }
static void acquire(void* p) { if (t_id < 0 || !g_armed) return; join(g_vc[t_id], sync_of((u64)p)); }
static void release(void* p) { if (t_id < 0 || !g_armed) return; join(sync_of((u64)p), g_vc[t_id]); g_vc[t_id].c[t_id]++; }
static void race(u64 a, int t, int u, bool w, bool uw, void* pc) { if (g_page->race[0]) return; snprintf(g_page->race, sizeof g_page->race, "thread %d %s and thread %d %s the same memory (%p, %s) without synchronisation", t, w ? "writes" : "reads", u, uw ? "writes" : "reads", (void*)a, a >= 0x500000000000ull && a < 0x520000000000ull ? "heap or stack" : "a global"); }
static void check(u64 b, size_t n, bool w, bool at, void* pc)
{
    int t = t_id; VC& c = g_vc[t];
    for (u64 a = b; a < b + n; ++a) {
        size_t i = (a ^ (a >> 21) * 0x9e370) & (SH - 1); while (g_sh[i].a && (g_sh[i].a >> 1) != a) i = (i + 1) & (SH - 1);
        Shadow& s = g_sh[i]; if (!s.a) { if (g_nsh > SH * 3 / 4) return; ++g_nsh; s.a = a << 1; s.wt = -1; }
        bool wasat = s.a & 1;     // last write was atomic
        if (s.wt >= 0 && s.wt != t && s.wc > c.c[s.wt] && !(at && wasat)) race(a, t, s.wt, w, true, pc);
        if (w) { for (int u = 0; u < MAXT; ++u) if (u != t && s.r[u] > c.c[u]) race(a, t, u, true, false, pc); s.wt = t; s.wc = c.c[t]; s.a = a << 1 | (at ? 1 : 0); }
        else if (!at) s.r[t] = c.c[t];
    }
}
static inline bool own(u64 a, int t) { return (a >= (u64)g_region[t] && a < (u64)g_region[t] + REGION) || (a >= (u64)g_stack[t] && a < (u64)g_stack[t] + STACK); }
static void visible(u64 a, size_t n, bool w, bool at, void* pc)
{
    int t = t_id; u64 k = ++g_count[t];
    for (int i = 0; i < g_npre; ++i) if (g_pre[i].thread == t && g_pre[i].at == k) { int to = g_pre[i].to; if (to == t || to >= g_nt || g_done[to]) to = other(t); if (to >= 0 && to != t) yield_to(to); }
    if (at && ++g_slice > 20000) { int o = other(t); if (o >= 0) yield_to(o); else if (g_slice > 20000000) finish_stuck("a thread waits for ever"); }
    if (g_logging && g_page->nlog < (1 << 18)) { Event& e = g_page->log[g_page->nlog++]; e.a = a; e.n = (unsigned)n; e.w = w; e.at = at; }
    check(a, n, w, at, pc);
}
static inline void access(const void* p, size_t n, bool w, bool at = false) { int t = t_id; if (t < 0 || !g_armed || own((u64)p, t)) return; visible((u64)p, n, w, at, 0); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } void __tsan_read##n##_pc(void* p, void*) { access(p, n, false); } void __tsan_write##n##_pc(void* p, void*) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); } void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
static inline bool acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T* p, int m) { access((void*)p, n / 8, false, true); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (acq(m)) acquire((void*)p); return v; } \
void __tsan_atomic##n##_store(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (rel(m)) release((void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_exchange(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int m) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); if (rel(m)) release((void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int m, int) { access((void*)p, n / 8, true, true); if (acq(m)) acquire((void*)p); int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r && rel(m)) release((void*)p); return r; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// memory functions called by instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); void* __real_memchr(const void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_armed && t_id >= 0 && n) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_armed && t_id >= 0 && n) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_armed && t_id >= 0 && n) access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (g_armed && t_id >= 0 && n) { access(a, n, false); access(b, n, false); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (g_armed && t_id >= 0 && n) access(a, r ? (char*)r - (char*)a + 1 : n, false); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (g_armed && t_id >= 0) access(s, n + 1, false); return n; }
// locks
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (t_id < 0 || !g_armed) return __real_pthread_mutex_lock(m); visible((u64)m, 1, true, true, 0); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) forced("threads block each other"); if (!r) acquire(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (t_id >= 0 && g_armed) { visible((u64)m, 1, true, true, 0); release(m); } return __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (t_id < 0 || !g_armed) return __real_pthread_rwlock_rdlock(m); visible((u64)m, 1, true, true, 0); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) forced("threads block each other"); if (!r) acquire(m); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (t_id < 0 || !g_armed) return __real_pthread_rwlock_wrlock(m); visible((u64)m, 1, true, true, 0); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) forced("threads block each other"); if (!r) acquire(m); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (t_id >= 0 && g_armed) { visible((u64)m, 1, true, true, 0); release(m); } return __real_pthread_rwlock_unlock(m); }
// once: 0 not yet, 1 running, 2 done
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { volatile int* s = (volatile int*)o; if (t_id >= 0 && g_armed) visible((u64)o, 1, true, true, 0); while (*s == 1) forced("threads block each other"); if (*s == 0) { *s = 1; try { f(); } catch (...) { *s = 0; throw; } *s = 2; release((void*)o); } else acquire((void*)o); return 0; }
int __cxa_guard_acquire(u64* g) { volatile uchar* b = (volatile uchar*)g; if (t_id >= 0 && g_armed) visible((u64)g, 1, true, true, 0); if (b[0]) { acquire(g); return 0; } while (b[1]) forced("threads block each other"); if (b[0]) { acquire(g); return 0; } b[1] = 1; return 1; }
void __cxa_guard_release(u64* g) { volatile uchar* b = (volatile uchar*)g; release(g); b[1] = 0; b[0] = 1; }
void __cxa_guard_abort(u64* g) { ((volatile uchar*)g)[1] = 0; }
}
// ---- one schedule in a fresh process
struct Job { int op, v; };
static Job g_job[MAXT];
static void* body(void* p)
{
    int me = (int)(long)p; t_id = me; await(me);
    ops_run(g_job[me].op, g_job[me].v, g_page->out[me], sizeof g_page->out[me]);
    g_done[me] = true; g_page->visible[me] = g_count[me]; int o = other(me); t_id = -1; give(o >= 0 ? o : MAXT);
    return 0;
}
// result: false if the process died
static bool execute(const std::vector<Job>& jobs, int first, const std::vector<Pre>& pre, bool log, int& st)
{
    g_page->status = 0; g_page->race[0] = g_page->stuck[0] = 0; g_page->nlog = 0; g_page->switches = 0; for (int i = 0; i < MAXT; ++i) { g_page->out[i][0] = 0; g_page->visible[i] = 0; }
    fflush(0); pid_t p = fork();
    if (p == 0) {
        alarm(30); g_nt = (int)jobs.size(); for (int i = 0; i < g_nt; ++i) g_job[i] = jobs[i]; g_npre = (int)pre.size(); for (int i = 0; i < g_npre; ++i) g_pre[i] = pre[i]; g_logging = log; g_turn = -1;
        g_sh = (Shadow*)mmap(0, SH * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_sy = (Sync*)mmap(0, SY * sizeof(Sync), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (int i = 0; i < MAXT; ++i) g_vc[i].c[i] = 1;
        pthread_t th[MAXT]; for (int i = 0; i < g_nt; ++i) { pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, g_stack[i], STACK); if (pthread_create(&th[i], &a, body, (void*)(long)i)) _exit(95); }
        g_armed = true; give(first); await(MAXT); g_armed = false; g_page->status = 1; _exit(0);
    }
    int r; while ((r = waitpid(p, &st, 0)) < 0 && errno == EINTR) {}
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_page->status == 1;
}
static string text(const std::vector<Job>& j, int first, const std::vector<Pre>& p)
{
    string s; for (size_t i = 0; i < j.size(); ++i) s += (i ? " || " : "") + string(ops_name(j[i].op)) + (j[i].v ? " (b)" : " (a)"); s += "; thread " + mc::num(first) + " first"; for (size_t i = 0; i < p.size(); ++i) s += ", thread " + mc::num(p[i].thread) + " is stopped before its access " + mc::num(p[i].at) + " to shared memory and thread " + mc::num(p[i].to) + " goes on"; return s;
}
static std::map<std::pair<int, int>, string> g_solo;
static string died(int st) { return WIFSIGNALED(st) ? WTERMSIG(st) == SIGALRM ? "no end within 30 s" : "signal " + mc::num(WTERMSIG(st)) : "exit " + mc::num(WEXITSTATUS(st)); }
static u64 run(mc::Run& R, const std::vector<Job>& j, int first, const std::vector<Pre>& p)
{
    R.describe(text(j, first, p));
    int st = 0; bool ok = execute(j, first, p, false, st); string bad, exp = "each thread gets the result it gets alone, without unordered conflicting accesses"; u64 h = 0;
    if (!ok) bad = "the process ended by " + died(st);
    else if (g_page->stuck[0]) bad = g_page->stuck;
    else if (g_page->race[0]) bad = g_page->race;
    else for (size_t i = 0; i < j.size() && bad.empty(); ++i) { string o = g_page->out[i], e = g_solo[std::make_pair(j[i].op, j[i].v)]; h = mc::mix(h, mc::hstr(o)); if (o != e) { bad = "thread " + mc::num(i) + " gets " + o; exp = "thread " + mc::num(i) + " gets " + e; } }
    R.trace(); R.transitions(g_page->switches + 1); R.state(mc::mix(mc::hstr(text(j, first, p)), h));
    if (!bad.empty()) R.fail(text(j, first, p), exp, bad);
    return h;
}
struct Log { std::vector<Event> e; };
// indices (1-based) of the visible accesses of `a` that conflict with some access of a log in `b`
struct Acc { bool r, w; };
static std::vector<u64> conflicts(const Log& a, const std::vector<const Log*>& bs)
{
    std::map<u64, Acc> m; for (size_t k = 0; k < bs.size(); ++k) for (size_t i = 0; i < bs[k]->e.size(); ++i) { const Event& e = bs[k]->e[i]; for (u64 x = e.a >> 3; x <= (e.a + e.n - 1) >> 3; ++x) { Acc& c = m[x]; if (e.w) c.w = true; else c.r = true; } }
    std::vector<u64> r; for (size_t i = 0; i < a.e.size(); ++i) { const Event& e = a.e[i]; bool c = false; for (u64 x = e.a >> 3; x <= (e.a + e.n - 1) >> 3 && !c; ++x) { std::map<u64, Acc>::const_iterator q = m.find(x); c = q != m.end() && (q->second.w || (e.w && q->second.r)); } if (c) r.push_back(i + 1); }
    return r;
}
static Pre pre(int t, u64 at, int to) { Pre p; p.thread = t; p.at = at; p.to = to; return p; }
void mc::explore(mc::Run& R)
{
    R.case_timeout = 60;
    const bool stats = getenv("MC_STATS") != 0; static char* env[] = { (char*)"MCA=environment value a", (char*)"MCB=environment value b", (char*)"OTHER=1", (char*)"PRA_LEVEL=7", (char*)"PRB_LIST=element of b", 0 }; environ = env;
    g_page = (Page*)mmap(0, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    regions(); ops_prepare();
    // only one thread of a schedule runs at a time: a hand-over is faster when all share one processor
    { cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one); int k = 0, n = 0; if (!getenv("MC_NOPIN") && sched_getaffinity(0, sizeof all, &all) == 0 && (n = CPU_COUNT(&all)) > 0) for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k++ == R.shard % n) { CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } }
    const bool T = R.thorough; int n = ops_count();
    // each operation alone, in a fresh process, as each of two threads
    std::vector<Log> log[2]; log[0].resize(n * 2); log[1].resize(n * 2);
    for (int o = 0; o < n; ++o) for (int v = 0; v < 2; ++v) for (int t = 0; t < 2; ++t) {
        // the other thread runs nothing: a job list of one, or of two with an idle first one
        std::vector<Job> j; Job x = { o, v }; int st = 0; if (t) { Job idle = { -1, 0 }; j.push_back(idle); } j.push_back(x);
        if (!execute(j, t, std::vector<Pre>(), true, st)) { fprintf(stderr, "%s alone: %s\n", ops_name(o), died(st).c_str()); _exit(96); }
        g_solo[std::make_pair(o, v)] = g_page->out[t]; log[t][o * 2 + v].e.assign(g_page->log, g_page->log + g_page->nlog);
    }
    if (stats) { for (int o = 0; o < n; ++o) { fprintf(stderr, "%-32s visible %zu %zu | %s\n", ops_name(o), log[0][o * 2].e.size(), log[1][o * 2 + 1].e.size(), g_solo[std::make_pair(o, 0)].substr(0, 150).c_str()); } }
    for (int v = 0; v < 2; ++v) for (int a = 0; a < n; ++a) for (int b = a; b < n; ++b) {
        std::vector<Job> j(2); j[0].op = a; j[0].v = v; j[1].op = b; j[1].v = 1 - v;
        const Log* L[2] = { &log[0][a * 2 + v], &log[1][b * 2 + 1 - v] };
        std::vector<u64> C[2]; for (int t = 0; t < 2; ++t) C[t] = conflicts(*L[t], std::vector<const Log*>(1, L[1 - t]));
        if (stats) fprintf(stderr, "%d %d: %zu/%zu %zu/%zu\n", a, b, C[0].size(), L[0]->e.size(), C[1].size(), L[1]->e.size());
        R.space("two threads, no preemption", "25 operations x 25 operations x 2 data sets, both orders");
        for (int f = 0; f < 2; ++f) { if (!R.begin()) continue; u64 h = run(R, j, f, std::vector<Pre>()); if (R.want_sample()) R.sample(text(j, f, std::vector<Pre>())); R.end(h); }
        R.space("two threads, one preemption", T ? "at every access to memory that is not the thread's own" : "at every access that conflicts with one of the other thread, and at every 6th access to memory that is not the thread's own");
        for (int f = 0; f < 2; ++f) { size_t c = 0; for (u64 i = 1; i <= L[f]->e.size(); ++i) { while (c < C[f].size() && C[f][c] < i) ++c; bool con = c < C[f].size() && C[f][c] == i; if (!con && !T && (i + a + b) % 6) continue; if (!R.begin()) continue; std::vector<Pre> p(1, pre(f, i, 1 - f)); u64 h = run(R, j, f, p); if (R.want_sample()) R.sample(text(j, f, p)); R.end(h); } }
        R.space("two threads, two preemptions", T ? "every pair of conflicting accesses (a grid of at most 40 x 40)" : "pairs of conflicting accesses (a grid of at most 16 x 16)");
        size_t lim = T ? 40 : 16; for (int f = 0; f < 2; ++f) { size_t sa = C[f].size() / lim + 1, sb = C[1 - f].size() / lim + 1; for (size_t x = 0; x < C[f].size(); x += sa) for (size_t y = 0; y < C[1 - f].size(); y += sb) { if (!R.begin()) continue; std::vector<Pre> p; p.push_back(pre(f, C[f][x], 1 - f)); p.push_back(pre(1 - f, C[1 - f][y], f)); R.end(run(R, j, f, p)); } }
    }
    R.space("three threads", T ? "every ordered triple of operations, and one preemption at a grid of 8 conflicting accesses" : "every triple of operations of which the last two are neighbours, no preemption and a grid of 4");
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int c = T ? 0 : b; c < (T ? n : std::min(n, b + 2)); ++c) {
        std::vector<Job> j(3); j[0].op = a; j[0].v = 0; j[1].op = b; j[1].v = 1; j[2].op = c; j[2].v = (a + b) & 1;
        if (R.begin()) R.end(run(R, j, (a + c) % 3, std::vector<Pre>()));
        std::vector<u64> C = conflicts(log[0][a * 2], std::vector<const Log*>(1, &log[1][b * 2 + 1])); size_t lim = T ? 8 : 4, s = C.size() / lim + 1; for (size_t x = 0; x < C.size(); x += s) for (int to = 1; to < 3; ++to) { if (!R.begin()) continue; std::vector<Pre> p(1, pre(0, C[x], to)); R.end(run(R, j, 0, p)); }
    }
}
