// C21: stateless exploration of all interleavings of threads asking for a singleton. Real threads run one at a
// time; every shared memory access (compiler instrumentation), lock, once, guard and atomic operation is a
// scheduling point. A forked child runs one schedule; the parent enumerates the schedule tree depth first,
// with growing preemption bounds. Happens-before (vector clocks) detects unsynchronised accesses.
#include "vk.hpp"
#include "sched.hpp"
#include "EllipticForestApp.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#include <unordered_map>
#include <array>
#include <algorithm>
using namespace vk; namespace ef = EllipticForest;
enum { MAXT = 4, MAXS = 3000 };
enum Kind : unsigned char { NONE, RD, WR, LOCK, UNLOCK };
struct Op { const char* lo = nullptr; const char* hi = nullptr; Kind k = NONE; };
struct Step { unsigned char chosen, enabled, sleep; Op pend[MAXT]; };     // pend[chosen] is the operation this step executes
struct Log { int n; int bad; char what[400]; int done; bool pruned; Step s[MAXS]; int npre; unsigned char pre[MAXS]; unsigned char presleep; int fails; long points; void* reg; };
static Log* L;
static __thread int me = -1; static int NT;
static bool dependent(const Op& a, const Op& b) { return a.k != NONE && b.k != NONE && !(a.k == RD && b.k == RD) && a.lo < b.hi && b.lo < a.hi; }
// ---- handoff ---------------------------------------------------------------------------------------------
static std::atomic<int> turn{-1};
static void wait_turn() { for (;;) { int t = turn.load(); if (t == me) return; syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, t, nullptr, nullptr, 0); } }
static void give(int t) { turn.store(t); syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 99, nullptr, nullptr, 0); }
using VC = std::array<int, MAXT>;
struct Th { VC vc{}; bool finished = false; std::function<bool()> can; long streak = 0; int same = 0; long spinver = -1; Op pend, last; void* lo; void* hi; bool yielded = false; };
static Th T[MAXT]; static unsigned g_sleep = 0; static long g_ver = 0; static int g_woken = 0;   // g_ver counts steps that may change something
static void fail(const std::string& w) { if (!L->bad) { L->bad = 1; snprintf(L->what, sizeof L->what, "%s", w.c_str()); } L->done = 1; _exit(0); }
// Choose who runs next; called by the running thread at a scheduling point or when it has finished.
static void pick() {
    int en = 0, spin = 0; for (int t = 0; t < NT; t++) if (!T[t].finished && (!T[t].can || T[t].can())) { if (T[t].same >= 4 && T[t].spinver == g_ver) spin |= 1 << t; else en |= 1 << t; }
    if (!en && spin) { if (++g_woken > 60) fail("threads wait for each other forever (busy waiting without progress)"); en = spin; for (int t = 0; t < NT; t++) T[t].same = 0; }
    if (!en) { bool all = true; for (int t = 0; t < NT; t++) all &= T[t].finished; if (all) { give(-2); return; } fail("threads wait for each other forever"); }
    int k = L->n++; if (k >= MAXS) fail("threads do not finish although they are scheduled fairly");
    int ch;
    if (k < L->npre) { ch = L->pre[k]; if (!(en >> ch & 1)) { L->bad = 2; snprintf(L->what, sizeof L->what, "schedule does not replay"); L->done = 1; _exit(0); } }
    else {
        int ok = en & ~g_sleep; if (!ok) { L->n--; L->pruned = true; L->done = 1; _exit(0); }
        int cur = me < 0 ? 0 : me; bool tired = me >= 0 && (T[me].yielded || T[me].streak > 400); ch = cur; if (!(ok >> ch & 1) || (tired && (ok & ~(1 << cur)))) do ch = (ch + 1) % NT; while (!(ok >> ch & 1));
    }
    if (k == L->npre - 1 || (L->npre == 0 && k == 0)) g_sleep = L->presleep;
    Step& s = L->s[k]; s.chosen = ch; s.enabled = en; s.sleep = g_sleep; for (int t = 0; t < MAXT; t++) s.pend[t] = t < NT && !T[t].finished ? T[t].pend : Op();
    if (k >= L->npre - 1) { unsigned z = 0; for (int t = 0; t < NT; t++) if (t != ch && (g_sleep >> t & 1) && !dependent(T[t].pend, T[ch].pend)) z |= 1 << t; g_sleep = z; }
    // repeated identical operations are a spin: the thread is set aside until someone else does something
    Th& c = T[ch]; if (c.pend.lo == c.last.lo && c.pend.k == c.last.k && c.pend.k != NONE) { c.same++; } else { c.same = 0; } c.last = c.pend; c.yielded = false;
    if (c.same < 3) { g_ver++; if (!c.same) g_woken = 0; } c.spinver = g_ver; if (c.same == 3) c.spinver = g_ver;
    if (ch == me) T[me].streak++; else { T[ch].streak = 0; give(ch); if (me >= 0 && !T[me].finished) wait_turn(); }
}
static void op(const void* p, int n, Kind k, std::function<bool()> can = nullptr) { if (me < 0) return; L->points++; T[me].pend = {(const char*) p, (const char*) p + n, k}; T[me].can = std::move(can); pick(); T[me].can = nullptr; }
// ---- happens-before ----------------------------------------------------------------------------------------
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static void rel(VC& s) { join(s, T[me].vc); T[me].vc[me]++; }
struct Cell { int wt = -1, wc = 0; VC r{}; bool watomic = false; };
struct Model { std::unordered_map<const void*, Cell> cells; struct Mu { int owner = -1, n = 0, readers = 0; VC vc{}; }; std::unordered_map<const void*, Mu> mu; struct On { int st = 0; VC vc{}; }; std::unordered_map<const void*, On> once; std::unordered_map<const void*, VC> at; struct Cv { std::vector<int> w, ready; VC vc{}; }; std::unordered_map<const void*, Cv> cv; };
static Model* M;
static bool g_noop = false;                // the scheduling point was already taken (compare-exchange)
static void access(const char* p, int n, bool w, bool at) {
    if (me < 0) return; if (p >= (char*) T[me].lo && p < (char*) T[me].hi) return;     // own stack
    if (!g_noop) op(p, n, w ? WR : RD);
    for (int i = 0; i < n; i++) { Cell& c = M->cells[p + i]; bool race = false;
        if (c.wt >= 0 && c.wt != me && c.wc > T[me].vc[c.wt] && !(at && c.watomic)) race = true;
        if (w && !at) for (int t = 0; t < NT; t++) if (t != me && c.r[t] > T[me].vc[t]) race = true;
        if (race) fail("unsynchronised access: threads read and write the same shared data (the pointer or the object under construction) without ordering");
        if (w) { c.wt = me; c.wc = T[me].vc[me]; c.watomic = at; } else if (!at) c.r[me] = T[me].vc[me]; }
}
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access((char*) p, n, false, false); } void __tsan_write##n(void* p) { access((char*) p, n, true, false); } void __tsan_volatile_read##n(void* p) { access((char*) p, n, false, false); } void __tsan_volatile_write##n(void* p) { access((char*) p, n, true, false); } void __tsan_unaligned_read##n(void* p) { access((char*) p, n, false, false); } void __tsan_unaligned_write##n(void* p) { access((char*) p, n, true, false); } void __tsan_read_write##n(void* p) { access((char*) p, n, false, false); access((char*) p, n, true, false); } void __tsan_unaligned_volatile_read##n(void* p) { access((char*) p, n, false, false); } void __tsan_unaligned_volatile_write##n(void* p) { access((char*) p, n, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access((char*) p, n, false, false); } void __tsan_write_range(void* p, unsigned long n) { access((char*) p, n, true, false); }
void __tsan_vptr_update(void** p, void* v) { access((char*) p, 8, true, false); } void __tsan_vptr_read(void** p) { access((char*) p, 8, false, false); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access((char*) s, n, false, false); access((char*) d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access((char*) d, n, true, false); return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access((char*) s, n, false, false); access((char*) d, n, true, false); return memmove(d, s, n); }
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rls(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
template <class A> static void aload(volatile A* p, int mo) { access((char*) p, sizeof(A), false, true); if (me >= 0 && acq(mo) && M->at.count((void*) p)) join(T[me].vc, M->at[(void*) p]); }
template <class A> static void astore(volatile A* p, int mo) { access((char*) p, sizeof(A), true, true); if (me < 0) return; if (rls(mo)) { VC v{}; rel(v); M->at[(void*) p] = v; } else M->at.erase((void*) p); }
template <class A> static void armw(volatile A* p, int mo) { access((char*) p, sizeof(A), true, true); if (me < 0) return; if (acq(mo) && M->at.count((void*) p)) join(T[me].vc, M->at[(void*) p]); if (rls(mo)) rel(M->at[(void*) p]); }
extern "C" {
#define AT(B, A) A __tsan_atomic##B##_load(const volatile A* p, int mo) { aload(p, mo); return *p; } void __tsan_atomic##B##_store(volatile A* p, A v, int mo) { astore(p, mo); *p = v; } \
 A __tsan_atomic##B##_exchange(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = v; return o; } A __tsan_atomic##B##_fetch_add(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = o + v; return o; } A __tsan_atomic##B##_fetch_sub(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = o - v; return o; } \
 A __tsan_atomic##B##_fetch_or(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = o | v; return o; } A __tsan_atomic##B##_fetch_and(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = o & v; return o; } A __tsan_atomic##B##_fetch_xor(volatile A* p, A v, int mo) { armw(p, mo); A o = *p; *p = o ^ v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile A* p, A* e, A v, int mo, int fmo) { if (me >= 0) op((void*) p, sizeof(A), WR); if (*p == *e) { g_noop = true; armw(p, mo); g_noop = false; *p = v; return 1; } g_noop = true; aload(p, fmo); g_noop = false; *e = *p; return 0; } int __tsan_atomic##B##_compare_exchange_weak(volatile A* p, A* e, A v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo); } \
 A __tsan_atomic##B##_compare_exchange_val(volatile A* p, A e, A v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
static VC g_fence{};
void __tsan_atomic_thread_fence(int mo) { if (me < 0) return; op(&g_fence, 1, WR); join(T[me].vc, g_fence); for (auto& [k, v] : M->at) if (acq(mo)) join(T[me].vc, v); if (rls(mo)) rel(g_fence); }
void __tsan_atomic_signal_fence(int) {}
// ---- synchronisation objects -------------------------------------------------------------------------------
#define REAL(f) ((decltype(&f)) dlsym(RTLD_NEXT, #f))
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static const auto& mu(const void* m) { return M->mu[m]; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (me < 0) { static decltype(&pthread_mutex_lock) f = nullptr; if (!f) f = REAL(pthread_mutex_lock); return f(m); } auto& u = M->mu[m]; if (u.owner == me && recursive(m)) { u.n++; return 0; } op(m, 1, LOCK, [m] { return mu(m).owner < 0; }); auto& x = M->mu[m]; x.owner = me; x.n = 1; join(T[me].vc, x.vc); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (me < 0) { static decltype(&pthread_mutex_trylock) f = nullptr; if (!f) f = REAL(pthread_mutex_trylock); return f(m); } op(m, 1, WR); auto& x = M->mu[m]; if (x.owner == me && recursive(m)) { x.n++; return 0; } if (x.owner >= 0) { T[me].yielded = true; return EBUSY; } x.owner = me; x.n = 1; join(T[me].vc, x.vc); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (me < 0) { static decltype(&pthread_mutex_unlock) f = nullptr; if (!f) f = REAL(pthread_mutex_unlock); return f(m); } if (M->mu[m].owner != me) fail("a thread unlocks a mutex it does not hold"); if (M->mu[m].n > 1) { M->mu[m].n--; return 0; } op(m, 1, UNLOCK); auto& x = M->mu[m]; x.n = 0; rel(x.vc); x.owner = -1; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (me < 0) { static decltype(&pthread_rwlock_rdlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_rdlock); return f(m); } op(m, 1, LOCK, [m] { return mu(m).owner < 0; }); M->mu[m].readers++; join(T[me].vc, M->mu[m].vc); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (me < 0) { static decltype(&pthread_rwlock_wrlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_wrlock); return f(m); } op(m, 1, LOCK, [m] { return mu(m).owner < 0 && !mu(m).readers; }); M->mu[m].owner = me; join(T[me].vc, M->mu[m].vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (me < 0) { static decltype(&pthread_rwlock_unlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_unlock); return f(m); } op(m, 1, UNLOCK); auto& x = M->mu[m]; rel(x.vc); if (x.owner == me) x.owner = -1; else x.readers--; return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (me < 0) return 0; op((void*) m, 1, LOCK, [m] { return mu((void*) m).owner < 0; }); M->mu[(void*) m].owner = me; join(T[me].vc, M->mu[(void*) m].vc); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (me < 0) return 0; op((void*) m, 1, UNLOCK); auto& x = M->mu[(void*) m]; rel(x.vc); x.owner = -1; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (me < 0) { static decltype(&pthread_cond_wait) f = nullptr; if (!f) f = REAL(pthread_cond_wait); return f(c, m); } op(c, 1, WR); int t = me; M->cv[c].w.push_back(t); pthread_mutex_unlock(m); op(c, 1, WR, [c, t] { auto& w = M->cv[c].w; return std::find(w.begin(), w.end(), t) == w.end(); }); return pthread_mutex_lock(m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t* c) { if (me < 0) { static decltype(&pthread_cond_signal) f = nullptr; if (!f) f = REAL(pthread_cond_signal); return f(c); } op(c, 1, WR); auto& w = M->cv[c].w; if (w.size()) w.erase(w.begin()); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (me < 0) { static decltype(&pthread_cond_broadcast) f = nullptr; if (!f) f = REAL(pthread_cond_broadcast); return f(c); } op(c, 1, WR); M->cv[c].w.clear(); return 0; }
int pthread_once(pthread_once_t* o, void (*init)()) { if (me < 0) { static decltype(&pthread_once) f = nullptr; if (!f) f = REAL(pthread_once); return f(o, init); } op(o, 1, LOCK, [o] { return M->once[o].st != 1; }); if (M->once[o].st == 2) { join(T[me].vc, M->once[o].vc); return 0; } M->once[o].st = 1; join(T[me].vc, M->once[o].vc); try { init(); } catch (...) { op(o, 1, UNLOCK); M->once[o].st = 0; rel(M->once[o].vc); throw; } op(o, 1, UNLOCK); M->once[o].st = 2; rel(M->once[o].vc); return 0; }
int __cxa_guard_acquire(long long* g) { if (me < 0) { static decltype(&__cxa_guard_acquire) f = nullptr; if (!f) f = REAL(__cxa_guard_acquire); return f(g); } op(g, 1, LOCK, [g] { return M->once[g].st != 1; }); join(T[me].vc, M->once[g].vc); if (*(char*) g || M->once[g].st == 2) return 0; M->once[g].st = 1; return 1; }
void __cxa_guard_release(long long* g) { if (me < 0) { static decltype(&__cxa_guard_release) f = nullptr; if (!f) f = REAL(__cxa_guard_release); f(g); return; } op(g, 1, UNLOCK); M->once[g].st = 2; rel(M->once[g].vc); M->at[(void*) g] = M->once[g].vc; *(char*) g = 1; }
void __cxa_guard_abort(long long* g) { if (me < 0) { static decltype(&__cxa_guard_abort) f = nullptr; if (!f) f = REAL(__cxa_guard_abort); f(g); return; } op(g, 1, UNLOCK); M->once[g].st = 0; rel(M->once[g].vc); }
int sched_yield() { if (me >= 0) { T[me].yielded = true; } return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) { if (me >= 0) { T[me].yielded = true; return 0; } static decltype(&nanosleep) f = nullptr; if (!f) f = REAL(nanosleep); return f(a, b); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) { if (me >= 0) { T[me].yielded = true; return 0; } static decltype(&clock_nanosleep) f = nullptr; if (!f) f = REAL(clock_nanosleep); return f(c, fl, a, b); }
// ---- observations --------------------------------------------------------------------------------------------
static const void* g_inst[8]; static const void* g_done[8]; static int g_begun[8], g_completed[8], g_failed[8], g_threw[8];
void hk_ctor_begin(const void*, int c) { op(&g_begun[c], 1, WR); g_begun[c]++; }
void hk_ctor_end(const void* p, int c) { op(&g_begun[c], 1, WR); g_done[c] = p; if (++g_completed[c] > 1) fail("the object is constructed more than once"); }
void hk_dtor(const void*, int) {}
void hk_got(const void* p, int c) { if (c == 5) { if (p != L->reg) fail("a caller does not get the registered application object"); return; } op(&g_begun[c], 1, RD); if (!p) fail("a caller gets no object"); if (g_done[c] != p) fail("a caller gets an object that is not (yet) fully constructed"); if (g_inst[c] && g_inst[c] != p) fail("two callers get different objects"); g_inst[c] = p; }
void hk_bad(const char* w) { fail(w); }
void hk_threw(int c) { g_threw[c]++; }
int hk_should_throw(int c) { op(&g_begun[c], 1, WR); if (g_failed[c] < L->fails) { g_failed[c]++; return 1; } return 0; }
}
void operator delete(void* p) noexcept { if (me < 0) free(p); } void operator delete(void* p, size_t) noexcept { if (me < 0) free(p); } void operator delete[](void* p) noexcept { if (me < 0) free(p); } void operator delete[](void* p, size_t) noexcept { if (me < 0) free(p); }
static const Scenario* g_sc;
static void* thread_main(void* a) {
    int id = (int) (long) a; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); T[id].lo = lo; T[id].hi = (char*) lo + sz;
    struct sched_param sp; me = id; wait_turn(); g_sc->body(id); T[id].finished = true; T[id].can = nullptr; T[id].pend = Op(); pick(); me = -1; return nullptr;
}
static void child() {
    struct rlimit rl = {10, 10}; setrlimit(RLIMIT_CPU, &rl); alarm(30);
    M = new Model; M->cells.reserve(4096); NT = g_sc->nthreads; pthread_t th[MAXT];
    for (int t = 0; t < NT; t++) { T[t].vc[t] = 1; pthread_create(&th[t], nullptr, thread_main, (void*) (long) t); }
    pick();
    for (;;) { int t = turn.load(); if (t == -2) break; syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, t, nullptr, nullptr, 0); }
    for (int c = 0; c < 5; c++) { if (g_begun[c] && g_completed[c] != 1 && g_failed[c] != g_begun[c]) fail("the number of completed constructions is not one"); if (g_failed[c] != g_threw[c]) fail("a failed construction is not reported to exactly one caller"); if (g_failed[c] > 0 && g_failed[c] < L->fails && g_completed[c]) fail("unexpected construction"); }
    L->done = 1; _exit(0);
}
static int run_schedule(const std::vector<unsigned char>& pre, unsigned sleep) {
    L->n = 0; L->bad = 0; L->done = 0; L->pruned = false; L->what[0] = 0; L->npre = pre.size(); L->presleep = sleep; std::copy(pre.begin(), pre.end(), L->pre);
    pid_t p = fork(); if (p == 0) child(); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) return 3;
    if (!L->done) { L->bad = 1; snprintf(L->what, sizeof L->what, "the program dies (status %d)", st); }
    return L->bad;
}
static std::string enc(const std::vector<unsigned char>& v) { std::string s; for (auto c : v) s += '0' + c; return s; }
static bool g_noanswer = false; static double g_deadline;
static double now() { struct timespec t; ::clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// Dynamic partial-order reduction (Flanagan & Godefroid) with sleep sets: one execution per class of
// interleavings that differ only in the order of independent operations.
static void explore(const std::string& id) {
    struct Node { unsigned char chosen; unsigned enabled, done = 0, todo = 0, sleep = 0; };
    std::vector<Node> st; std::vector<unsigned char> pre; unsigned sleep = 0;
    for (;;) {
        if (now() > g_deadline) { ctx().exhaustive = false; ctx().extra["scenarios_cut_by_time"]++; return; }
        int r = run_schedule(pre, sleep);
        if (r == 3 || r == 2) { g_noanswer = true; fprintf(stderr, "no answer: %s\n", r == 2 ? L->what : "a thread blocks outside the modelled operations"); return; }
        int n = std::min<int>(L->n, MAXS);
        ctx().states += n; ctx().transitions += L->points; L->points = 0; ctx().extra[L->pruned ? "schedules_pruned_as_redundant" : "schedules_complete"]++; if (!L->pruned) ctx().traces++;
        if (r == 1) { std::vector<unsigned char> f; for (int k = 0; k < n; k++) f.push_back(L->s[k].chosen); violation(id + ": " + L->what, std::string(L->what) + "; schedule (thread per step) " + enc(f).substr(0, 900)); return; }
        for (int k = st.size(); k < n; k++) { Node d; d.chosen = L->s[k].chosen; d.enabled = L->s[k].enabled; d.sleep = k < (int) pre.size() ? 0 : L->s[k].sleep; d.done = d.todo = 1u << d.chosen; st.push_back(d); }
        // races of this execution -> where another thread has to be tried first
        std::vector<VC> C(n); std::array<int, MAXT> lastof; lastof.fill(-1);
        for (int j = 0; j < n; j++) { int t = L->s[j].chosen; const Op& o = L->s[j].pend[t]; VC before{}; before.fill(-1); if (lastof[t] >= 0) before = C[lastof[t]];
            for (int i = j - 1; i >= 0; i--) { int u = L->s[i].chosen; const Op& p = L->s[i].pend[u]; if (u == t || !dependent(o, p)) continue; if ((o.k == LOCK && p.k == UNLOCK) || (o.k == UNLOCK && p.k == LOCK) || (o.k == UNLOCK && p.k == UNLOCK)) continue; if (before[u] >= i) continue;
                if (st[i].enabled >> t & 1) st[i].todo |= 1u << t; else st[i].todo |= st[i].enabled; break; }
            VC c = before; for (int i = 0; i < j; i++) { int u = L->s[i].chosen; if (u != t && dependent(o, L->s[i].pend[u])) for (int q = 0; q < MAXT; q++) c[q] = std::max(c[q], C[i][q]); } c[t] = j; C[j] = c; lastof[t] = j; }
        int k = (int) st.size() - 1; for (; k >= 0; k--) if (st[k].todo & ~st[k].done & ~st[k].sleep) break;
        if (k < 0) return;
        st.resize(k + 1); unsigned c = st[k].todo & ~st[k].done & ~st[k].sleep; int t = __builtin_ctz(c); sleep = st[k].sleep | st[k].done; st[k].done |= 1u << t; st[k].chosen = t;
        pre.clear(); for (auto& d : st) pre.push_back(d.chosen);
    }
}
int main(int argc, char** argv) {
    vk::init(argc, argv); bool th = ctx().thorough(); g_deadline = now() + (th ? 2400 : 90);
    L = (Log*) mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool mpi = false;
    for (int i = 0; i < n_scenarios; i++) { g_sc = &scenarios[i]; std::string nm = g_sc->name; if (nm.find("(deep)") != std::string::npos && !th) continue; bool isapp = nm.find("application") == 0, fl = nm.find("fail") != std::string::npos;
        for (int fails = fl ? 1 : 0; fails <= (fl ? 2 : 0); fails++) {
            std::string id = nm + (fl ? cat(", ", fails, " failing") : ""); if (!vk::begin(id)) continue;
            if (isapp && !mpi) { mpi = true; static int c = 2; static char a0[] = "harness", a1[] = "--given=1"; static char* av[] = {a0, a1, nullptr}; static char** pav = av; setenv("PETSC_OPTIONS", "", 1); std::cout.setstate(std::ios::failbit); L->reg = new ef::EllipticForestApp(&c, &pav); std::cout.clear(); }
            L->fails = fails; sample(id + ", all interleavings up to reordering of independent operations"); ctx().distinct++;
            explore(id);
        }
    }
    if (g_noanswer) { if (ctx().crash) ctx().crash[0] = 0; return 3; }
    vk::finish(); fflush(nullptr); _exit(0);
}
