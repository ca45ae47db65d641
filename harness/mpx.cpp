#include "mpx.hpp"
#include <array>
#include <time.h>
#include <mpi.h>
#include <pthread.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unordered_set>
#include <unordered_map>
#include <p4est_extended.h>
#include <p4est_vtk.h>
#include <p4est_algorithms.h>
using std::string;
namespace mpx {
enum Kind { NONE, BARRIER, BCAST, ALLREDUCE, REDUCE, ALLGATHER, ALLGATHERV, GATHER, GATHERV, SCATTER, ALLTOALL, CREATE_GROUP, CREATE, SPLIT, DUP, SEND, RECV, P4EST };
static const char* kname[] = {"none", "Barrier", "Bcast", "Allreduce", "Reduce", "Allgather", "Allgatherv", "Gather", "Gatherv", "Scatter", "Alltoall", "Comm_create_group", "Comm_create", "Comm_split", "Comm_dup", "Send", "Recv", "p4est"};
static const int MAXR = 12, MAXT = 60000;
enum { RUN, POSTED, DONE };
static const int IDLE = 150;   // seconds without any event on any rank
struct Slot { int st; int go; int inbar; int chosen; Op op; int n; int nf; char msg[24000]; int mlen; pthread_cond_t cv; Op trace[MAXT]; };
struct Shared { pthread_mutex_t m; pthread_cond_t bar; int nbar, gen; int dead, writer, written; unsigned long beat; int opaque, overflow; long matches; int prio[MAXR]; char deadmsg[4000]; int anyfail; Slot s[MAXR]; };
static Shared* sh = nullptr; static int R = 0, N = 1; static bool active = false; static long total_matches = 0;
static std::map<MPI_Comm, int> gid; static std::map<int, int> created;
int rank() { return R; } int size() { return N; } long matches() { return total_matches; }
static int full() { return (1 << N) - 1; }
static void die();
static string text(const Op& o) {
    string c = "{"; int mask = o.comm >> 12; for (int r = 0; r < N; r++) if (mask >> r & 1) c += (c.size() > 1 ? "," : "") + std::to_string(r); c += "}"; if (o.comm & 4095) c += "#" + std::to_string(o.comm & 4095);
    string s = string(kname[o.kind]) + " on " + c; if (o.kind == BCAST || o.kind == REDUCE || o.kind == GATHER || o.kind == GATHERV || o.kind == SCATTER) s += vk::cat(" root ", o.a); if (o.kind == SEND) s += vk::cat(" to ", o.a, " tag ", o.tag); if (o.kind == RECV) s += vk::cat(" from ", o.a, " tag ", o.tag); if (o.bytes) s += vk::cat(" ", o.bytes, " bytes"); if (o.kind == P4EST) s = vk::cat("p4est call ", o.a); return s;
}
string str(const std::vector<Op>& t) { string s; for (auto& o : t) s += text(o) + "; "; return s; }
void fail(const string& key, const string& what) { auto& s = sh->s[R]; string t = key + "\x01" + what.substr(0, 1500) + "\x02"; s.nf++; if (s.mlen + t.size() < sizeof s.msg) { memcpy(s.msg + s.mlen, t.data(), t.size()); s.mlen += t.size(); } }
static void errh(MPI_Comm*, int* code, ...) { char b[MPI_MAX_ERROR_STRING]; int l = 0; MPI_Error_string(*code, b, &l); if (active) fail("mpi error " + vk::ctx().cur, vk::cat("rank ", R, ": an MPI call reports ", string(b, l))); }
static long made = 0;   // communicators created by the code under test
long comms_made() { return made; }
static void reg(MPI_Comm c) {
    if (c == MPI_COMM_NULL) return; made++; if (!sh) return; MPI_Group g, w; PMPI_Comm_group(c, &g); PMPI_Comm_group(MPI_COMM_WORLD, &w); int n; PMPI_Group_size(g, &n); std::vector<int> a(n), b(n); for (int i = 0; i < n; i++) a[i] = i; PMPI_Group_translate_ranks(g, n, a.data(), w, b.data()); PMPI_Group_free(&g); PMPI_Group_free(&w);
    int mask = 0; for (int x : b) mask |= 1 << x; gid[c] = mask << 12 | (created[mask]++ & 4095);
}
void forget(MPI_Comm c) { gid.erase(c); }
static std::map<MPI_Comm, int> harness_comms;
void know(MPI_Comm c) { reg(c); harness_comms[c] = gid[c]; }
void open() {
    vk::ctx().shared = true; PMPI_Comm_rank(MPI_COMM_WORLD, &R); PMPI_Comm_size(MPI_COMM_WORLD, &N); prctl(PR_SET_PDEATHSIG, SIGKILL);
    string f = vk::ctx().scratch + "/mpx.shm"; size_t sz = sizeof(Shared); if (R == 0) { int fd = ::open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, sz)) {} close(fd); } PMPI_Barrier(MPI_COMM_WORLD);
    int fd = ::open(f.c_str(), O_RDWR); sh = (Shared*) mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    if (R == 0) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->m, &a); pthread_condattr_t c; pthread_condattr_init(&c); pthread_condattr_setpshared(&c, PTHREAD_PROCESS_SHARED); pthread_cond_init(&sh->bar, &c); for (auto& s : sh->s) pthread_cond_init(&s.cv, &c); }
    MPI_Errhandler h; MPI_Comm_create_errhandler(errh, &h); MPI_Comm_set_errhandler(MPI_COMM_WORLD, h); gid[MPI_COMM_WORLD] = full() << 12; created[full()] = 1; PMPI_Barrier(MPI_COMM_WORLD);
}
static void lock() { pthread_mutex_lock(&sh->m); } static void unlock() { pthread_mutex_unlock(&sh->m); }
static void stuck(int secs);
// wait for cv; if nothing at all happened on any rank for a long time, give up
static void wait(pthread_cond_t* cv, unsigned long& beat, int& idle) { timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 5; int e = pthread_cond_timedwait(cv, &sh->m, &t); if (e == ETIMEDOUT) { if (beat == sh->beat) { idle += 5; if (idle >= IDLE && !sh->dead) stuck(idle); } else { beat = sh->beat; idle = 0; } } }
static void barrier() { lock(); int g = sh->gen; sh->beat++; sh->s[R].inbar = 1; if (++sh->nbar == N) { sh->nbar = 0; sh->gen++; pthread_cond_broadcast(&sh->bar); } else { unsigned long b = sh->beat; int idle = 0; while (g == sh->gen && !sh->dead) wait(&sh->bar, b, idle); } sh->s[R].inbar = 0; bool d = sh->dead; unlock(); if (d) die(); }
static void wake_all() { for (int r = 0; r < N; r++) pthread_cond_signal(&sh->s[r].cv); pthread_cond_broadcast(&sh->bar); }
static void deadlock(const string& what) { string m = what + ":"; for (int r = 0; r < N; r++) m += vk::cat(" [rank ", r, ": ", sh->s[r].st == DONE ? string("finished") : sh->s[r].st == POSTED ? text(sh->s[r].op) + vk::cat(" as its operation ", sh->s[r].n) : string("running"), "]"); strncpy(sh->deadmsg, m.c_str(), sizeof sh->deadmsg - 1); sh->dead = 1; wake_all(); }
static void stuck(int secs) { string m = vk::cat("does not finish: no rank has done anything visible for ", secs, " s:"); sh->writer = -1; for (int r = 0; r < N; r++) { auto& s = sh->s[r]; bool waiting = s.st == POSTED || s.inbar; if (waiting && sh->writer < 0) sh->writer = r; m += vk::cat(" [rank ", r, ": ", s.inbar ? string("finished") : s.st == POSTED ? text(s.op) : string("busy or inside a library call"), "]"); } strncpy(sh->deadmsg, m.c_str(), sizeof sh->deadmsg - 1); sh->dead = 1; wake_all(); }
static void die() {
    if (R == sh->writer) { string m = sh->deadmsg; vk::ctx().exhaustive = false; vk::violation("communication " + vk::ctx().cur, m);
        for (int r = 0; r < N; r++) { string t(sh->s[r].msg, sh->s[r].mlen); size_t p = 0; while (p < t.size()) { size_t q = t.find('\x02', p); if (q == string::npos) break; string e = t.substr(p, q - p); size_t k = e.find('\x01'); vk::violation(e.substr(0, k), e.substr(k + 1)); p = q + 1; } }
        vk::finish(); sh->written = 1; }
    else for (int i = 0; i < 3000 && !sh->written; i++) usleep(10000);
    _exit(3);
}
static bool collective(int k) { return k != SEND && k != RECV && k != NONE; }
static void schedule() {   // with the lock held
    int done = 0; for (int r = 0; r < N; r++) { if (sh->s[r].st == RUN) return; done += sh->s[r].st == DONE; }
    if (done == N || sh->opaque || sh->dead) return;
    int best = -1, besta = -1, bestb = -1, bestmask = 0; auto pr = [&](int mask) { int m = 99; for (int r = 0; r < N; r++) if (mask >> r & 1) m = std::min(m, sh->prio[r]); return m; };
    for (int r = 0; r < N; r++) { auto& s = sh->s[r]; if (s.st != POSTED) continue; auto& o = s.op;
        if (collective(o.kind)) {
            int mask = o.kind == CREATE_GROUP ? o.b : o.comm >> 12; bool all = true, lead = true;
            for (int q = 0; q < N; q++) if (mask >> q & 1) { auto& t = sh->s[q]; if (t.st != POSTED || !collective(t.op.kind) || (t.op.comm != o.comm) || ((t.op.kind == CREATE_GROUP) != (o.kind == CREATE_GROUP)) || (o.kind == CREATE_GROUP && t.op.b != o.b)) all = false; if (q < r) lead = false; }
            if (!all || !lead) continue;
            for (int q = 0; q < N; q++) if (mask >> q & 1) { auto& t = sh->s[q].op; bool same = t.kind == o.kind; if (o.kind == BCAST || o.kind == REDUCE || o.kind == GATHER || o.kind == GATHERV || o.kind == SCATTER || o.kind == P4EST) same = same && t.a == o.a; if (o.kind == BCAST || o.kind == ALLREDUCE || o.kind == REDUCE || o.kind == ALLGATHER) same = same && t.bytes == o.bytes; if (o.kind == ALLREDUCE || o.kind == REDUCE) same = same && t.b == o.b; if (o.kind == CREATE_GROUP) same = same && t.tag == o.tag; if (!same) return deadlock("mismatched collective operations"); }
            if (best < 0 || pr(mask) < pr(bestmask)) { best = 0; bestmask = mask; besta = bestb = -1; }
        } else if (o.kind == RECV) {
            for (int q = 0; q < N; q++) { auto& t = sh->s[q]; if (t.st != POSTED || t.op.kind != SEND || t.op.comm != o.comm || t.op.a != r || (o.a != q && o.a != -1) || (o.tag != -1 && o.tag != t.op.tag)) continue;
                if (t.op.bytes > o.bytes) return deadlock(vk::cat("message of ", t.op.bytes, " bytes is received into ", o.bytes));
                int mask = 1 << r | 1 << q; if (best < 0 || pr(mask) < pr(bestmask)) { best = 1; bestmask = mask; besta = q; bestb = r; } }
        }
    }
    if (best < 0) return deadlock("no communication can proceed");
    sh->matches++;
    for (int r = 0; r < N; r++) if (bestmask >> r & 1) { auto& s = sh->s[r]; s.st = RUN; s.go = 1; s.chosen = best == 1 && r == bestb ? besta : -1; pthread_cond_signal(&s.cv); }
}
// announce an operation and wait for its turn; returns the chosen source of a receive
static int post(const Op& o) {
    lock(); auto& s = sh->s[R]; if (sh->dead) { unlock(); die(); } if (sh->opaque) { unlock(); return -1; }
    s.op = o; s.st = POSTED; s.go = 0; sh->beat++; schedule(); unsigned long b = sh->beat; int idle = 0; while (!s.go && !sh->dead && !sh->opaque) wait(&s.cv, b, idle);
    bool d = sh->dead; s.st = RUN; int c = s.chosen; if (s.n < MAXT) s.trace[s.n] = o; else sh->overflow = 1; s.n++; if (c >= 0 && s.n <= MAXT) s.trace[s.n - 1].a = c; unlock(); if (d) die(); return c;
}
// an operation the coordinator does not control: stop coordinating this run
static void opaque() { lock(); sh->opaque = 1; wake_all(); unlock(); }
static int comm_id(MPI_Comm c, bool& on) { on = false; if (!active || sh->opaque) return 0; int n = 1; if (c == MPI_COMM_NULL) return 0; PMPI_Comm_size(c, &n); if (n == 1) return 0; auto it = gid.find(c); if (it == gid.end()) { opaque(); return 0; } on = true; return it->second; }
static int world_rank(int id, int r) { int mask = id >> 12; for (int q = 0, k = 0; q < N; q++) if (mask >> q & 1) { if (k == r) return q; k++; } return -2; }
static int tsize(MPI_Datatype t) { int s = 0; PMPI_Type_size(t, &s); return s; }
static int opid(MPI_Op o) { MPI_Op v[] = {MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR, MPI_MAXLOC, MPI_MINLOC}; for (int i = 0; i < 10; i++) if (v[i] == o) return i; return 99; }
// ---- exploration of the recorded operations ---------------------------------------------------------
struct Model { int n; std::vector<std::vector<Op>> t; std::vector<std::vector<std::vector<std::pair<int, int>>>> need; };   // need[r][k]: (rank, position) that must have been reached / passed
static long explore(const std::vector<std::vector<Op>>& t, int mode, long limit, long& trans, string& err, bool& cut) {
    // mode bit 0: sends are buffered; bit 1: broadcasts, reductions and gathers do not synchronize
    int n = t.size(); std::map<std::vector<int>, std::vector<std::vector<int>>> inst;   // (comm,k) -> position per rank
    struct Need { std::vector<std::pair<int, int>> reach, pass; }; std::vector<std::vector<Need>> need(n);
    std::map<std::pair<int, std::pair<int, int>>, std::map<int, int>> coll; std::map<std::vector<int>, std::vector<int>> sends, recvs; std::vector<std::vector<int>> kth(n);
    for (int r = 0; r < n; r++) { std::map<std::pair<int, int>, int> cnt; need[r].resize(t[r].size()); for (size_t i = 0; i < t[r].size(); i++) { auto& o = t[r][i]; if (o.kind == SEND) sends[{r, o.a, o.comm, o.tag}].push_back(i); else if (o.kind == RECV) recvs[{o.a, r, o.comm, o.tag}].push_back(i); else { std::pair<int, int> key(o.comm, o.kind == CREATE_GROUP ? o.b : 0); int k = cnt[key]++; coll[{key.first, {key.second, k}}][r] = i; } } }
    for (auto& [key, pos] : coll) { int mask = key.second.first ? key.second.first : key.first >> 12; for (int r = 0; r < n; r++) if ((mask >> r & 1) != (int) pos.count(r)) { err = "ranks disagree about the operations on a communicator"; return 0; }
        for (auto& [r, i] : pos) { auto& o = t[r][i]; auto& nd = need[r][i]; bool sync = !(mode & 2); int root = o.a;
            if (!sync && o.kind == BCAST) { if (r != root) nd.pass.push_back({root, pos[root]}); } else if (!sync && (o.kind == REDUCE || o.kind == GATHER || o.kind == GATHERV)) { if (r == root) for (auto& [q, j] : pos) if (q != r) nd.pass.push_back({q, j}); } else for (auto& [q, j] : pos) if (q != r) nd.reach.push_back({q, j}); } }
    for (auto& [key, rv] : recvs) { auto& sv = sends[key]; if (sv.size() < rv.size()) { err = "a message is received that was not sent"; return 0; } for (size_t k = 0; k < rv.size(); k++) { int src = key[0], dst = key[1]; if (mode & 1) need[dst][rv[k]].pass.push_back({src, sv[k]}); else { need[dst][rv[k]].reach.push_back({src, sv[k]}); need[src][sv[k]].reach.push_back({dst, rv[k]}); } } }
    for (auto& [key, sv] : sends) if (recvs[key].size() != sv.size()) { err = "a message is sent and never received"; return 0; }
    using St = std::array<unsigned short, MAXR>; auto hash = [](const St& s) { size_t h = 1469598103934665603ull; for (auto x : s) h = (h ^ x) * 1099511628211ull; return h; };
    // Every operation stays enabled once it is, and operations of different ranks commute: one enabled operation alone is a
    // persistent set.  The reduced search below decides deadlock for all interleavings; the full search is done as well
    // where it fits the limit.
    { St s{}; for (;;) { bool any = false, end = true; for (int r = 0; r < n; r++) while (s[r] < t[r].size()) { end = false; auto& nd = need[r][s[r]]; bool ok = true; for (auto& [q, j] : nd.reach) ok = ok && s[q] >= j; for (auto& [q, j] : nd.pass) ok = ok && s[q] > j; if (!ok) break; any = true; trans++; s[r]++; } if (end) break; if (!any) { err = "reachable deadlock:"; for (int r = 0; r < n; r++) err += vk::cat(" [rank ", r, ": ", s[r] < t[r].size() ? text(t[r][s[r]]) : string("finished"), "]"); return 0; } } }
    std::unordered_set<St, decltype(hash)> seen(1024, hash); std::vector<St> todo; St z{}; seen.insert(z); todo.push_back(z); long states = 0;
    while (todo.size()) { St s = todo.back(); todo.pop_back(); states++; bool any = false, end = true; if (states > limit) { cut = true; return states; }
        for (int r = 0; r < n; r++) { if (s[r] >= t[r].size()) continue; end = false; auto& nd = need[r][s[r]]; bool ok = true; for (auto& [q, j] : nd.reach) ok = ok && s[q] >= j; for (auto& [q, j] : nd.pass) ok = ok && s[q] > j; if (!ok) continue; any = true; trans++; St u = s; u[r]++; if (seen.insert(u).second) todo.push_back(u); }
        if (!any && !end) { err = "reachable deadlock:"; for (int r = 0; r < n; r++) err += vk::cat(" [rank ", r, ": ", s[r] < t[r].size() ? text(t[r][s[r]]) : string("finished"), "]"); return states; } }
    return states;
}
static std::set<size_t> explored; static std::vector<Op> mine; static bool lastfail = false;
bool failed() { return lastfail; }
const std::vector<Op>& run(const std::function<void()>& f, const string& prio, bool do_explore) {
    barrier(); if (R == 0) { sh->opaque = 0; sh->matches = 0; sh->anyfail = 0; for (int r = 0; r < N; r++) { sh->prio[r] = r; auto& s = sh->s[r]; s.st = RUN; s.go = 0; s.chosen = -1; s.n = 0; s.nf = 0; s.mlen = 0; } for (size_t i = 0; i < prio.size() && i < (size_t) N; i++) sh->prio[prio[i] - '0'] = i; }
    created.clear(); created[full()] = 1; barrier(); active = true;
    try { f(); } catch (std::exception& e) { fail("throws " + vk::ctx().cur, vk::cat("rank ", R, " throws: ", e.what())); }
    active = false; lock(); sh->s[R].st = DONE; schedule(); unlock(); barrier();
    mine.assign(sh->s[R].trace, sh->s[R].trace + std::min(sh->s[R].n, MAXT));
    if (R == 0) { total_matches += sh->matches; vk::ctx().transitions += sh->matches; if (sh->opaque) vk::ctx().extra["runs_with_uncontrolled_operations"]++; if (do_explore && sh->overflow) { vk::ctx().exhaustive = false; vk::ctx().extra["traces_too_long"]++; }
        for (int r = 0; r < N; r++) { sh->anyfail += sh->s[r].nf; string t(sh->s[r].msg, sh->s[r].mlen); size_t p = 0; while (p < t.size()) { size_t q = t.find('\x02', p); if (q == string::npos) break; string e = t.substr(p, q - p); size_t k = e.find('\x01'); vk::violation(e.substr(0, k), e.substr(k + 1)); p = q + 1; } }
        if (do_explore && !sh->opaque && !sh->overflow) { std::vector<std::vector<Op>> t(N); size_t h = N; long len = 0; for (int r = 0; r < N; r++) { t[r].assign(sh->s[r].trace, sh->s[r].trace + sh->s[r].n); len += t[r].size(); for (auto& o : t[r]) for (int x : {o.kind, o.comm, o.a, o.b, o.bytes, o.tag}) h = h * 1000003 + x; h = h * 31 + 7; }
            if (explored.insert(h).second) for (int mode = 0; mode < 4; mode++) { string err; bool cut = false; long tr = 0; long st = explore(t, mode, vk::ctx().thorough() ? 400000 : 30000, tr, err, cut); vk::ctx().states += st; vk::ctx().extra["model_transitions"] += tr; if (cut) vk::ctx().extra["models_with_reduced_search_only"]++; if (err != "") { vk::violation(vk::cat("model mode ", mode, " ", vk::ctx().cur), err); sh->anyfail++; break; } } } }
    barrier(); lastfail = sh->anyfail; static int failures = 0; failures += lastfail; if (failures > 12 && !vk::ctx().thorough()) vk::ctx().stop = true; barrier(); return mine;
}
int finish() { barrier(); if (R == 0) vk::finish(); PMPI_Barrier(MPI_COMM_WORLD); PMPI_Finalize(); fflush(nullptr); _exit(0); }
} // namespace
using namespace mpx;
#define COORD(c) bool on; int id = comm_id(c, on)
extern "C" {
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, MPI_Barrier, MPI_Comm); REAL(int, MPI_Bcast, void*, int, MPI_Datatype, int, MPI_Comm);
int __wrap_MPI_Barrier(MPI_Comm c) { COORD(c); if (on) post({BARRIER, id}); return PMPI_Barrier(c); }
int __wrap_MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { COORD(c); if (on) post({BCAST, id, world_rank(id, root), 0, n * tsize(t)}); return PMPI_Bcast(b, n, t, root, c); }
int __wrap_MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { COORD(c); if (on) post({ALLREDUCE, id, 0, opid(o), n * tsize(t)}); return PMPI_Allreduce(s, r, n, t, o, c); }
int __wrap_MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { COORD(c); if (on) post({REDUCE, id, world_rank(id, root), opid(o), n * tsize(t)}); return PMPI_Reduce(s, r, n, t, o, root, c); }
int __wrap_MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c) { COORD(c); if (on) post({ALLGATHER, id, 0, 0, m * tsize(u)}); return PMPI_Allgather(s, n, t, r, m, u, c); }
int __wrap_MPI_Allgatherv(const void* s, int n, MPI_Datatype t, void* r, const int* m, const int* d, MPI_Datatype u, MPI_Comm c) { COORD(c); if (on) post({ALLGATHERV, id, 0, 0, n * tsize(t)}); return PMPI_Allgatherv(s, n, t, r, m, d, u, c); }
int __wrap_MPI_Gather(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, int root, MPI_Comm c) { COORD(c); if (on) post({GATHER, id, world_rank(id, root), 0, n * tsize(t)}); return PMPI_Gather(s, n, t, r, m, u, root, c); }
int __wrap_MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* r, const int* m, const int* d, MPI_Datatype u, int root, MPI_Comm c) { COORD(c); if (on) post({GATHERV, id, world_rank(id, root), 0, n * tsize(t)}); return PMPI_Gatherv(s, n, t, r, m, d, u, root, c); }
int __wrap_MPI_Scatter(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, int root, MPI_Comm c) { COORD(c); if (on) post({SCATTER, id, world_rank(id, root), 0, m * tsize(u)}); return PMPI_Scatter(s, n, t, r, m, u, root, c); }
int __wrap_MPI_Alltoall(const void* s, int n, MPI_Datatype t, void* r, int m, MPI_Datatype u, MPI_Comm c) { COORD(c); if (on) post({ALLTOALL, id, 0, 0, n * tsize(t)}); return PMPI_Alltoall(s, n, t, r, m, u, c); }
int __wrap_MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* out) {
    int me; PMPI_Group_rank(g, &me); COORD(c);
    if (on && me != MPI_UNDEFINED) { int n; PMPI_Group_size(g, &n); std::vector<int> a(n), b(n); for (int i = 0; i < n; i++) a[i] = i; MPI_Group w; PMPI_Comm_group(MPI_COMM_WORLD, &w); PMPI_Group_translate_ranks(g, n, a.data(), w, b.data()); PMPI_Group_free(&w); int mask = 0; for (int x : b) mask |= 1 << x; if (n > 1) post({CREATE_GROUP, id, 0, mask, 0, tag}); }
    int e = PMPI_Comm_create_group(c, g, tag, out); if (me != MPI_UNDEFINED) reg(*out); return e; }
int __wrap_MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* out) { COORD(c); if (on) post({CREATE, id}); int e = PMPI_Comm_create(c, g, out); reg(*out); return e; }
int __wrap_MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* out) { COORD(c); if (on) post({SPLIT, id}); int e = PMPI_Comm_split(c, color, key, out); reg(*out); return e; }
int __wrap_MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { COORD(c); if (on) post({DUP, id}); int e = PMPI_Comm_dup(c, out); reg(*out); return e; }
int __wrap_MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { COORD(c); if (on && d != MPI_PROC_NULL) post({SEND, id, world_rank(id, d), 0, n * tsize(t), tag}); return PMPI_Send(b, n, t, d, tag, c); }
int __wrap_MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { COORD(c); if (on && d != MPI_PROC_NULL) post({SEND, id, world_rank(id, d), 0, n * tsize(t), tag}); return PMPI_Ssend(b, n, t, d, tag, c); }
int __wrap_MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { COORD(c); if (on && s != MPI_PROC_NULL) { int from = post({RECV, id, s == MPI_ANY_SOURCE ? -1 : world_rank(id, s), 0, n * tsize(t), tag == MPI_ANY_TAG ? -1 : tag}); if (s == MPI_ANY_SOURCE && from >= 0) { int k = 0; for (int q = 0; q < from; q++) if (id >> 12 >> q & 1) k++; s = k; } } return PMPI_Recv(b, n, t, s, tag, c, st); }
// nonblocking and probing operations are not controlled
int __wrap_MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { COORD(c); if (on) opaque(); return PMPI_Isend(b, n, t, d, tag, c, r); }
int __wrap_MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) { COORD(c); if (on) opaque(); return PMPI_Irecv(b, n, t, s, tag, c, r); }
int __wrap_MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* st) { COORD(c); if (on) opaque(); return PMPI_Probe(s, tag, c, st); }
int __wrap_MPI_Iprobe(int s, int tag, MPI_Comm c, int* f, MPI_Status* st) { COORD(c); if (on) opaque(); return PMPI_Iprobe(s, tag, c, f, st); }
int __wrap_MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* stat) { COORD(c); if (on) opaque(); return PMPI_Sendrecv(sb, sn, st, d, stag, rb, rn, rt, s, rtag, c, stat); }
int __wrap_MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) { COORD(c); if (on) opaque(); return PMPI_Ibcast(b, n, t, root, c, r); }
// p4est's collective calls
static void p4(int k) { bool on; int id = comm_id(MPI_COMM_WORLD, on); if (on) post({P4EST, id, k}); }
p4est_t* __real_p4est_new_ext(sc_MPI_Comm, p4est_connectivity_t*, p4est_locidx_t, int, int, size_t, p4est_init_t, void*); p4est_t* __wrap_p4est_new_ext(sc_MPI_Comm c, p4est_connectivity_t* n, p4est_locidx_t m, int l, int f, size_t d, p4est_init_t i, void* u) { p4(1); return __real_p4est_new_ext(c, n, m, l, f, d, i, u); }
void __real_p4est_refine(p4est_t*, int, p4est_refine_t, p4est_init_t); void __wrap_p4est_refine(p4est_t* p, int r, p4est_refine_t f, p4est_init_t i) { p4(2); __real_p4est_refine(p, r, f, i); }
void __real_p4est_refine_ext(p4est_t*, int, int, p4est_refine_t, p4est_init_t, p4est_replace_t); void __wrap_p4est_refine_ext(p4est_t* p, int r, int m, p4est_refine_t f, p4est_init_t i, p4est_replace_t x) { p4(3); __real_p4est_refine_ext(p, r, m, f, i, x); }
void __real_p4est_balance(p4est_t*, p4est_connect_type_t, p4est_init_t); void __wrap_p4est_balance(p4est_t* p, p4est_connect_type_t b, p4est_init_t i) { p4(4); __real_p4est_balance(p, b, i); }
void __real_p4est_partition(p4est_t*, int, p4est_weight_t); void __wrap_p4est_partition(p4est_t* p, int a, p4est_weight_t w) { p4(5); __real_p4est_partition(p, a, w); }
p4est_gloidx_t __real_p4est_partition_given(p4est_t*, const p4est_locidx_t*); p4est_gloidx_t __wrap_p4est_partition_given(p4est_t* p, const p4est_locidx_t* n) { p4(6); return __real_p4est_partition_given(p, n); }
p4est_vtk_context_t* __real_p4est_vtk_write_header(p4est_vtk_context_t*); p4est_vtk_context_t* __wrap_p4est_vtk_write_header(p4est_vtk_context_t* c) { p4(7); return __real_p4est_vtk_write_header(c); }
int __real_p4est_vtk_write_footer(p4est_vtk_context_t*); int __wrap_p4est_vtk_write_footer(p4est_vtk_context_t* c) { p4(8); return __real_p4est_vtk_write_footer(c); }
}
