// C24: the application object's life cycle, options, log and timers; every case is a process (or mpirun) of its own.
#include "hps.hpp"
#include <ctime>
#include <sys/wait.h>
#include <signal.h>
#include <cstdarg>
#include <sys/syscall.h>
using namespace vk; using S = std::string; template <class T> using SV = std::vector<T>;
// the process's steady clock (and sleeping on it) is scripted while g_script is set
static bool g_script = false; static long g_now = 1000; static long g_slept = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (g_script && c == CLOCK_MONOTONIC) { t->tv_sec = g_now; t->tv_nsec = 0; return 0; }
    return syscall(228, c, t);
}
extern "C" int nanosleep(const struct timespec* r, struct timespec* rem) { if (g_script) { g_slept += r->tv_sec * 1000 + r->tv_nsec / 1000000; if (rem) *rem = {0, 0}; return 0; } return syscall(35, r, rem); }
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec* r, struct timespec* rem) { if (g_script) { g_slept += r->tv_sec * 1000 + r->tv_nsec / 1000000; return 0; } return syscall(230, c, f, r, rem); }
// ---- messages ----
static const int NMSG = 9;
static S lng() { S s; for (int i = 0; i < 3000; i++) s += char('a' + i % 26); return s; }
template <class L> static void say(int k, L log) {
    switch (k) { case 0: log("plain"); break; case 1: log("number %i", 7); break; case 2: log("text '%s'", "a b"); break; case 3: log("%5.2f|%e|%g", 3.14159, -1e-300, 1e10); break; case 4: log("100%%"); break; case 5: log(""); break; case 6: log("%i %s %c%c %lu", -1, "x", 'y', 'z', (unsigned long) -1); break; case 7: log(lng()); break; case 8: log("%s", "%d %s %n"); break; }
}
static S said(int k) { char b[200]; switch (k) { case 0: return "plain"; case 1: return "number 7"; case 2: return "text 'a b'"; case 3: snprintf(b, 200, "%5.2f|%e|%g", 3.14159, -1e-300, 1e10); return b; case 4: return "100%"; case 5: return ""; case 6: return cat("-1 x yz ", (unsigned long) -1); case 7: return lng(); default: return "%d %s %n"; } }
// ---- one process of a case ----
static const char* TN[] = {"alpha", "stage two", "app-lifetime"};
static int child(int argc, char** argv) {
    // --child pre end ops report [args...]
    int pre = atoi(argv[2]), end = atoi(argv[3]); S ops = argv[4], rep = argv[5]; const char* e = getenv("OMPI_COMM_WORLD_RANK"); S me = e ? e : "0";
    int fd = ::open((rep + ".out" + me).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); FILE* r = fopen((rep + ".rep" + me).c_str(), "w");
    SV<char*> av{argv[0]}; for (int i = 6; i < argc; i++) av.push_back(argv[i]); av.push_back(nullptr); int ac = av.size() - 1; char** pv = av.data(); auto orig = av;
    int f; auto flags = [&](const char* w) { MPI_Initialized(&f); int i = f; MPI_Finalized(&f); PetscBool a, b; PetscInitialized(&a); PetscFinalized(&b); fprintf(r, "state %s %d %d %d %d\n", w, i, f, (int) a, (int) b); fflush(r); };
    if (pre == 1 || pre == 2) MPI_Init(&ac, &pv); if (pre == 2 || pre == 3) PetscInitialize(&ac, &pv, NULL, NULL); if (pre == 4) PetscInitializeNoArguments();
    if (pre == 5) ef::EllipticForestApp::getInstance().options["early"] = 1;
    flags("before");
    {
        g_script = true; ef::EllipticForestApp app(&ac, &pv); g_script = false;
        flags("inside"); fprintf(r, "same %d\n", &ef::EllipticForestApp::getInstance() == &app); int rk = -1, sz = -1; MPI_Comm_rank(MPI_COMM_WORLD, &rk); MPI_Comm_size(MPI_COMM_WORLD, &sz); fprintf(r, "rank %d %d\n", rk, sz);
        SV<S> names; for (int i = 6; i < argc; i++) { S a = argv[i]; while (a.size() && a[0] == '-') a.erase(0, 1); names.push_back(a.substr(0, a.find('='))); } names.push_back("absent");
        auto opts = [&] { for (auto& n : names) { fprintf(r, "option %s %d ", n.c_str(), app.options.optionExists(n)); if (app.options.optionExists(n)) { auto v = app.options[n]; std::visit([&](auto& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, S>) fprintf(r, "s %s", x.c_str()); else if constexpr (std::is_same_v<X, double>) fprintf(r, "d %.17g", x); else fprintf(r, "%c %d", std::is_same_v<X, int> ? 'i' : 'b', (int) x); }, v); } fprintf(r, "\n"); } };
        opts();
        for (size_t i = 0; i + 1 < ops.size(); i += 2) {
            int k = ops[i + 1] - '0'; g_script = true;
            switch (ops[i]) {
                case 'l': say(k, [&](auto... a) { app.log(a...); }); break; case 'h': say(k, [&](auto... a) { app.logHead(a...); }); break;
                case 'g': say(k, [&](auto... a) { ef::EllipticForestApp::getInstance().log(a...); }); break;
                case 'a': app.addTimer(TN[k]); break; case 's': app.timers[TN[k]].start(); break; case 'e': app.timers[TN[k]].stop(); break; case 't': g_now += k; break;
                case 'm': for (int j = 0; j < 8 * k; j++) { S nm = cat("many ", j); app.addTimer(nm); app.timers[nm].start(); g_now += 1 + j % 3; app.timers[nm].stop(); } break;
                case 'z': { long b = g_slept; app.sleep(k); fprintf(r, "slept %ld\n", g_slept - b); break; }
                case 'o': app.options["set"] = k; app.options.setOption("by call", S("v")); fprintf(r, "set %d\n", std::get<int>(ef::EllipticForestApp::getInstance().options["set"])); opts(); break;
            }
            g_script = false; fflush(r);
        }
        fflush(stdout); MPI_Barrier(MPI_COMM_WORLD);
        if (end == 1) { PetscFinalize(); if (pre != 3 && pre != 4) MPI_Finalize(); }
        if (end == 2) PetscFinalize();
        flags("late"); g_script = true;
    }
    g_script = false; fflush(stdout); flags("after"); fprintf(r, "args %d\n", (int) (ac == (int) orig.size() - 1)); fprintf(r, "done\n"); fclose(r); _exit(0);
}
// ---- expectation ----
static SV<S> lines(const S& f) { std::ifstream i(f); SV<S> v; S l; while (std::getline(i, l)) v.push_back(l); return v; }
static S norm(S v) { // independent reading of plain values
    if (v == "") return "s "; if (v == "true" || v == "True") return "b 1"; if (v == "false" || v == "False") return "b 0"; char* e; long i = strtol(v.c_str(), &e, 10); if (!*e) return cat("i ", i); double d = strtod(v.c_str(), &e); char b[40]; snprintf(b, 40, "d %.17g", d); return *e ? "s " + v : S(b);
}
static S spawn(const SV<S>& cmd, const S& log, int limit) {
    pid_t p = fork(); if (!p) { setsid(); int fd = ::open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); int n = ::open("/dev/null", O_RDONLY); dup2(n, 0); SV<char*> a; for (auto& c : cmd) a.push_back((char*) c.c_str()); a.push_back(nullptr); execvp(a[0], a.data()); _exit(127); }
    int st = 0; for (int t = 0; t < limit * 200; t++) { if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "" : WIFEXITED(st) ? cat("exit status ", WEXITSTATUS(st)) : cat("signal ", WTERMSIG(st)); usleep(5000); }
    kill(-p, SIGKILL); waitpid(p, &st, 0); return "does not end";
}
static S self;
static void one(int n, int pre, int end, const SV<S>& args, const S& ops) {
    S id = cat("app ", n, " ranks before=", pre, " end=", end, " ops=", ops, " args="); for (auto& a : args) id += " " + a;
    if (!vk::begin(id)) return; ctx().distinct++; ctx().states++; ctx().traces++; ctx().transitions += 3 + ops.size() / 2; sample(id);
    S rep = ctx().scratch + "/case"; for (int r = 0; r < n; r++) { ::unlink(cat(rep, ".out", r).c_str()); ::unlink(cat(rep, ".rep", r).c_str()); }
    SV<S> cmd; if (n > 1) cmd = {"mpirun", "--oversubscribe", "--bind-to", "none", "-n", cat(n)}; for (auto& x : SV<S>{self, "--child", cat(pre), cat(end), ops, rep}) cmd.push_back(x); for (auto& a : args) cmd.push_back(a);
    if (n > 1) unsetenv("OMPI_MCA_ess_singleton_isolated"); else setenv("OMPI_MCA_ess_singleton_isolated", "1", 1);
    S res = spawn(cmd, rep + ".log", 60);
    if (res != "") { S first; for (auto& l : lines(rep + ".log")) if (l != "" && l[0] != '-' && first.size() < 200) first += l + " | "; violation(id, "the program ends with " + res + (first == "" ? "" : ": " + first)); return; }
    for (int r = 0; r < n; r++) {
        SV<S> want; auto add = [&](const S& s) { want.push_back(s); }; bool pt = pre >= 2 && pre <= 4; std::map<S, double> tm, run; std::map<S, bool> on; long now = 1000; auto k0 = [](long x) { return double(x); };
        add(cat("state before ", pre && pre < 5 ? 1 : 0, " 0 ", pt ? 1 : 0, " 0")); add("state inside 1 0 1 0"); add("same 1"); add(cat("rank ", r, " ", n));
        std::map<S, S> ov; for (auto& a : args) if (a[0] == '-') { S b = a; while (b[0] == '-') b.erase(0, 1); size_t q = b.find('='); ov[b.substr(0, q)] = q == S::npos ? "s " : norm(b.substr(q + 1)); }
        auto opts = [&] { for (auto& a : args) { S b = a; while (b.size() && b[0] == '-') b.erase(0, 1); b = b.substr(0, b.find('=')); if (ov.count(b)) add(cat("option ", b, " 1 ", ov[b])); else add(cat("option ", b, " 0 ")); } add("option absent 0 "); };
        opts(); SV<S> out; tm["app-lifetime"] = 0; run["app-lifetime"] = now;
        for (size_t i = 0; i + 1 < ops.size(); i += 2) { int k = ops[i + 1] - '0'; switch (ops[i]) { case 'l': case 'g': out.push_back(cat("[EllipticForest ", r, "] ", said(k))); break; case 'h': if (r == 0) out.push_back("[EllipticForest 0] " + said(k)); break; case 'a': tm[TN[k]] = 0; run.erase(TN[k]); break; case 's': tm[TN[k]]; run[TN[k]] = now; break; case 'e': if (run.count(TN[k])) tm[TN[k]] += now - run[TN[k]]; else tm[TN[k]]; run.erase(TN[k]); break; case 't': now += k; break; case 'm': for (int j = 0; j < 8 * k; j++) { tm[cat("many ", j)] = 1 + j % 3; now += 1 + j % 3; } break; case 'z': add(cat("slept ", k * 1000)); break; case 'o': add(cat("set ", k)); opts(); break; } }
        if (run.count("app-lifetime")) tm["app-lifetime"] += now - run["app-lifetime"];
        add(cat("state late 1 ", end == 1 ? 1 : 0, end ? " 0 1" : " 1 0")); add("state after 1 1 0 1"); add("args 1"); add("done");
        auto got = lines(cat(rep, ".rep", r)); for (size_t i = 0; i < std::max(got.size(), want.size()); i++) { S g = i < got.size() ? got[i] : "nothing", w = i < want.size() ? want[i] : "nothing"; if (g != w) { violation(id, cat("rank ", r, ": found '", g, "', expected '", w, "'")); break; } }
        // the log: on ranks other than 0 exactly the lines logged; on rank 0 with the greeting before and the report after
        auto o = lines(cat(rep, ".out", r)); if (r) { if (o != out) violation(id + " log", cat("rank ", r, " prints ", show(o), ", expected ", show(out))); continue; }
        size_t p = 0; SV<S> mine; for (auto& l : o) if (l.compare(0, 18, "[EllipticForest 0]") == 0) mine.push_back(l); if (mine != out) violation(id + " log", cat("rank 0 prints ", show(mine), ", expected ", show(out)));
        std::map<S, double> rp; int nrep = 0; size_t last = 0; for (size_t i = 0; i < o.size(); i++) { auto& l = o[i]; if (l.compare(0, 18, "[EllipticForest 0]") == 0) { last = i; continue; } size_t c = l.rfind(" : "); if (c == S::npos) continue; S nm = l.substr(0, c); size_t b = nm.find("] "); if (b == S::npos) continue; nm = nm.substr(b + 2); nm.erase(0, nm.find_first_not_of(' ')); if (last > i) violation(id + " report", "a log line follows the report"); rp[nm] = atof(l.c_str() + c + 3); nrep++; }
        if (nrep != (int) tm.size() || rp.size() != tm.size()) violation(id + " report", cat("the report names ", nrep, " timers, expected ", tm.size())); for (auto& [k, v] : tm) if (!rp.count(k) || fabs(rp[k] - v) > 1e-4 * (1 + v)) violation(id + " report", cat("timer '", k, "' is reported with ", rp.count(k) ? rp[k] : -1, ", expected ", v));
    }
}
int main(int argc, char** argv) {
    if (argc > 5 && S(argv[1]) == "--child") return child(argc, argv);
    { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, 4095); self = S(b, k); }
    vk::init(argc, argv); vk::quiet(); bool th = ctx().thorough(); setenv("TMPDIR", ctx().scratch.c_str(), 1);
    SV<S> al = {"--alpha=3", "-b=1e-3", "--flag", "-f", "--name=some text", "word", "--neg=-4", "--alpha=true", "-k=x=y"};
    SV<SV<S>> lists{{}}; for (auto& a : al) lists.push_back({a}); SV<SV<S>> small = {{}, {"--alpha=3", "-f"}, {"word", "--neg=-4", "--name=some text"}}; for (auto& a : al) for (auto& b : al) if (a != b) lists.push_back({a, b});
    // life cycles
    for (int pre = 0; pre <= 5; pre++) for (int end = 0; end <= 2; end++) { if ((pre == 3 || pre == 4) && end == 2) continue; for (auto& l : small) for (S ops : {"", "l0s0t3e0h1"}) one(1, pre, end, l, ops); for (int n : {2, 3}) for (auto& l : small) { if (!th && (n == 3) != (l.size() == 3)) continue; one(n, pre, end, l, "l1h2s0t5e0a1"); } }
    // options: every list of up to two arguments
    for (auto& l : lists) { one(1, 0, 0, l, "o5"); if (l.size() < 2 || th) one(2, 0, 0, l, "o7"); }
    // messages and timers: every history up to a length
    for (int k = 1; k <= 9; k++) for (S b : {"", "a1s1", "h1"}) { S m = cat("m", k); one(1, 0, 0, {}, b + m + "t1"); one(1, 0, 0, {}, b + m + m + "l0t1"); one(1, 0, 0, {}, m + b + "m1t2" + m); if (k < 3) one(2, 0, 0, {}, m + b + m); }
    for (int k = 0; k < NMSG; k++) for (S c : {"l", "h", "g"}) { one(1, 0, 0, {}, c + cat(k)); one(k % 2 ? 2 : 3, 0, 0, {}, c + cat(k) + "h0" + c + cat(k)); }
    SV<S> ab = {"a0", "s0", "e0", "a1", "s1", "e1", "s2", "t2", "t5", "z1", "l1"}; int L = th ? 4 : 3; SV<int> ix(L, 0);
    for (;;) { S s; std::set<S> on{"2"}; bool ok = true; for (int i : ix) { S o = ab[i]; s += o; S k = o.substr(1); if (o[0] == 's') on.insert(k); if (o[0] == 'a') on.erase(k); if (o[0] == 'e') { ok = ok && on.count(k); on.erase(k); } } if (ok && (th || s.find('t') != S::npos)) one(1, 0, 0, {}, s + "t1"); int p = L - 1; while (p >= 0 && ++ix[p] == (int) ab.size()) ix[p--] = 0; if (p < 0) break; }
    vk::finish(); return 0;
}
