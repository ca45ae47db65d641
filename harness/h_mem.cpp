// C27: repeating stages does not consume memory or communicators.  --part serial | par (ranks under the coordinator)
#include <malloc.h>
#include <new>
#include <atomic>
// live memory of C++ objects, exactly
static std::atomic<long> live_bytes{0};
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live_bytes += malloc_usable_size(p); return p; }
static void give(void* p) { if (p) { live_bytes -= malloc_usable_size(p); free(p); } }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
#include "hps.hpp"
#include "mesh.hpp"
#include "mpx.hpp"
#include <p4est_algorithms.h>
using namespace vk;
using S = std::string; template <class T> using SV = std::vector<T>;
// communicators and groups that are alive
static long live_comms = 0, live_groups = 0;
extern "C" {
int MPI_Comm_free(MPI_Comm* c) { live_comms--; mpx::forget(*c); return PMPI_Comm_free(c); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { live_comms++; return PMPI_Comm_dup(c, o); }   // called by other libraries
int MPI_Comm_split(MPI_Comm c, int k, int q, MPI_Comm* o) { live_comms++; return PMPI_Comm_split(c, k, q, o); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* o) { live_comms++; return PMPI_Comm_create(c, g, o); }
int MPI_Group_free(MPI_Group* g) { live_groups--; return PMPI_Group_free(g); }
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { live_groups++; return PMPI_Comm_group(c, g); }
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) { live_groups++; return PMPI_Group_incl(g, n, r, o); }
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group* o) { live_groups++; return PMPI_Group_range_incl(g, n, r, o); }
}
static bool par = false;
static void bad(const S& key, const S& what) { if (par) mpx::fail(key, what); else violation(key, what); }
static const int WARM = 3, REP = 6, MORE = 40;
struct Use { long v[4]; };
static Use use() { auto m = mallinfo2(); return {{live_bytes.load(), (long) (m.uordblks + m.hblkhd), live_comms + mpx::comms_made(), live_groups}}; }
static const char* USE[4] = {"bytes of objects", "bytes of the heap", "communicators", "groups"};
// f is repeated; after a warm-up nothing may grow with every repetition.  What seems to grow is watched much longer: the heap
// also moves with fragmentation, which settles.
static void steady(const S& key, const std::function<void()>& f) {
    for (int i = 0; i < WARM; i++) f();
    bool grows[4] = {true, true, true, true}; Use first = use(), last = first; int done = 0;
    auto watch = [&](int n) { for (int i = 0; i < n; i++) { f(); Use u = use(); for (int k = 0; k < 4; k++) grows[k] = grows[k] && u.v[k] > last.v[k]; last = u; done++; } };
    watch(REP); int any = grows[0] || grows[1] || grows[2] || grows[3], all = any; if (par) MPI_Allreduce(&any, &all, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    if (all) watch(MORE); ctx().states++; ctx().transitions += WARM + done; ctx().traces++;
    for (int k = 0; k < 4; k++) if (grows[k]) { bad(key + " " + USE[k], cat(par ? cat("rank ", mpx::rank(), ": ") : S(), "every repetition of ", key, " leaves more ", USE[k], ", ", (last.v[k] - first.v[k]) / done, " each time")); if (k == 0) break; }
}
static void opt(const char* name, int v) { auto& m = the_app()->options.optionsMap; if (v == 0) m.erase(name); else the_app()->options.setOption(name, v == 2); }
static std::function<double(int, double, double, double*, double*)> bcf(const S& kinds, int k, Box q) { return [kinds, k, q](int s, double x, double y, double* a, double* b) { bc_ab(kinds[s], s, side_t(q, s, x, y), a, b); return bc_fn(k, s, x, y); }; }
struct MW {
    S shape; int n, dom; p4est_t* p4; Grid grid; Patch root; ef::FiniteVolumeNodeFactory nf; Mesh* mesh; Solver solver; HPS* hps;
    MW(const S& shape, const SV<int>& cnt, int n, int dom, int coef) : shape(shape), n(n), dom(dom), grid(MPI_COMM_WORLD, n, box().x0, box().x1, n, box().y0, box().y1), root(MPI_COMM_WORLD, grid), nf(MPI_COMM_WORLD) {
        p4 = make_p4est(shape, box()); if (cnt.size() > 1) { SV<p4est_locidx_t> c(cnt.begin(), cnt.end()); p4est_partition_given(p4, c.data()); }
        mesh = new Mesh(MPI_COMM_WORLD, p4, root, nf); solver.solver_type = ef::FiniteVolumeSolverType::FivePointStencil; set(coef); hps = new HPS(MPI_COMM_WORLD, *mesh, solver);
    }
    Box box() const { return domains()[dom].second; }
    void set(int c) { auto& k = coefs()[c]; solver.alpha_function = k.alpha; solver.beta_function = k.beta; solver.lambda_function = k.lambda; }
    ~MW() { delete hps; drop_nodes(mesh->quadtree); delete mesh; free_p4est(p4); }
    void op(char c) {
        auto& q = mesh->quadtree;
        switch (c) {
            case 'B': hps->buildStage(); break;
            case 'U': hps->upwardsStage(std::function<double(double, double)>([](double x, double y) { return rhs_fn(1, x, y); })); break;
            case 'u': hps->upwardsStage(std::function<void(Patch&)>([&](Patch& p) { SV<double> v(n * n); for (int i = 0; i < n * n; i++) v[i] = 1 + i; p.vectorF() = ef::Vector<double>(v); })); break;
            case 'S': hps->solveStage(bcf("NVRM", 1, box())); break;
            case 's': hps->solveStage(std::function<void(Patch&)>([&](Patch& p) { int M = p.grid().nx(); SV<double> v(4 * M); for (int i = 0; i < 4 * M; i++) v[i] = 1 - i; p.vectorG() = ef::Vector<double>(v); })); break;
            case 'm': q.merge([](Node*) { return 1; }, [](Node*, SV<Node*>) { return 1; }); break;
            case 'd': q.split([](Node*) { return 1; }, [](Node*, SV<Node*>) { return 1; }); break;
            case 't': q.traversePreOrder(std::function<int(Node*)>([](Node*) { return 1; })); q.traversePostOrder(std::function<void(Patch&)>([](Patch&) {})); break;
            case 'c': { double a = 0; mesh->iterateCells([&](double x, double y) { a += x + y; }); mesh->iteratePatches([&](Patch& p) { a += p.grid().nx(); }); break; }
            case 'i': hps->setupStage(); break;
            case 'h': { HPS h(MPI_COMM_WORLD, *mesh, solver); break; }
            case 'X': { HPS h(MPI_COMM_WORLD, *mesh, solver); h.setupStage(); h.buildStage(); h.upwardsStage(std::function<double(double, double)>([](double x, double y) { return rhs_fn(2, x, y); })); h.solveStage(bcf("DDDD", 2, box())); break; }
        }
        ctx().transitions++;
    }
};
// B build  U u load by function / by patch  S s boundary data by function / by patch  m d merge / split with callbacks of one's own
// t traversals  c cells and patches  i setup  h another solver object  X a whole pass of another solver object
static const S OPS = "BUuSsmdtcihX";
static SV<S> words(int lo, int hi) { SV<S> w = {""}, r; for (int l = 1; l <= hi; l++) { SV<S> n; for (auto& a : w) for (char c : OPS) n.push_back(a + c); w = n; if (l >= lo) r.insert(r.end(), w.begin(), w.end()); } return r; }
static void stages(const S& id, const S& shape, const SV<int>& cnt, int n, int dom, int coef, int mode, const SV<S>& W, bool life) {
    opt("cache-operators", mode & 1 ? 2 : 1); opt("homogeneous-rhs", mode & 2 ? 2 : 1);
    { MW w(shape, cnt, n, dom, coef); for (char c : S("iBUS")) w.op(c); for (auto& a : W) steady(id + " " + a, [&] { for (char c : a) w.op(c); }); }
    if (life) steady(id + " life", [&] { MW w(shape, cnt, n, dom, coef); for (char c : S("iBUS")) w.op(c); });
    opt("cache-operators", 1); opt("homogeneous-rhs", 1);
}
static void serial_stages() {
    bool th = ctx().thorough(); int k = 0; auto W1 = words(1, 1); SV<S> T; for (auto& s : trees::all(2)) T.push_back(s); for (auto& s : trees::all(3)) if (trees::depth(s) == 3 && trees::splits_at(s, 2) <= (th ? 2 : 1)) T.push_back(s);
    for (auto& s : T) for (int mode = 0; mode < 4; mode++) { k++; int n = trees::count_leaves(s) > 12 ? 2 : 2 + 2 * (k % 2); S id = cat("serial ", s, " n=", n, " mode ", mode); if (!vk::begin(id)) continue; ctx().distinct++; if (k % 50 == 9) sample(id); stages(id, s, {}, n, k % 2, mode & 1 ? 1 : k % 4, mode, W1, true); }
    // all words of two operations, of three on the smallest trees
    for (S s : {"L", "SLLLL", "SLLSLLLLL", "SSLLLLSLLLLLL"}) for (int mode = 0; mode < 4; mode++) for (char a : OPS) { S id = cat("serial words ", s, " mode ", mode, " ", a); if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        SV<S> W; for (auto& w : words(2, th || s.size() <= 5 ? 3 : 2)) if (w[0] == a) W.push_back(w); stages(id, s, {}, 2, 0, mode & 1 ? 1 : 2, mode, W, false); }
}
using Vd = ef::Vector<double>; using Md = ef::Matrix<double>;
static void serial_objects() {
    bool th = ctx().thorough();
    for (int n = 1; n <= (th ? 24 : 12); n++) { S id = cat("algebra ", n); if (!vk::begin(id)) continue; ctx().distinct++; sample(id); Md A(n, n, 0.25), B(n, n); for (int i = 0; i < n; i++) { A(i, i) = n + i; for (int j = 0; j < n; j++) B(i, j) = i - j; } Vd x(n), z; for (int i = 0; i < n; i++) x[i] = i + 1; Vd y(x), w(n, 1.0);
        SV<std::pair<S, std::function<void()>>> F = {{"matrix by vector", [&] { z = A * x; }}, {"matrix by matrix", [&] { auto C = A * B; }}, {"solve", [&] { z = ef::solve(A, x); }}, {"solve matrix", [&] { auto C = ef::solve(A, B); }}, {"block diagonal", [&] { auto C = ef::blockDiagonalMatrix<double>({A, B}); }}, {"concatenate", [&] { z = ef::concatenate<double>({x, y}); }},
            {"sums", [&] { z = x + y; z = x - y; z = 2.0 * x; auto C = A + B; C = A - B; C *= 2.0; }}, {"copies", [&] { Md C(A); B = C; B = A; Vd q(x); y = q; Md D = std::move(C); Vd r = std::move(q); }}, {"row and column", [&] { z = A.getRow(0); z = A.getCol(n - 1); A.setRow(0, w); A.setColumn(n - 1, w); }}, {"permute", [&] { ef::Vector<int> I(1, 0); auto q = x.blockPermute(I, {n}); auto C = A.blockPermute(I, I, {n}, {n}); }},
            {"block", [&] { auto C = A.getBlock(0, 0, n, n); A.setBlock(0, 0, C); }}, {"errors", [&] { Vd q(n + 1, 1.0); for (int k = 0; k < 3; k++) try { if (k == 0) z = A * q; else if (k == 1) z = ef::solve(A, q); else x + q; } catch (std::exception&) {} }}};
        for (auto& [nm, f] : F) { try { f(); } catch (std::exception& e) { continue; } steady(id + " " + nm, f); } A = Md(n, n, 1.0); steady(id + " singular", [&] { try { z = ef::solve(A, x); } catch (std::exception&) {} }); }
    for (int n = 2; n <= (th ? 16 : 8); n++) for (size_t c = 0; c < coefs().size(); c++) { S id = cat("leaf ", n, " ", coefs()[c].name); if (!vk::begin(id)) continue; ctx().distinct++; Solver sv; sv.solver_type = ef::FiniteVolumeSolverType::FivePointStencil; auto& k = coefs()[c]; sv.alpha_function = k.alpha; sv.beta_function = k.beta; sv.lambda_function = k.lambda; Grid g(MPI_COMM_SELF, n, -1, 1, n, 0, 1); Vd d(4 * n, 1.0), f(n * n, 2.0);
        steady(id + " solve", [&] { auto u = sv.solve(g, d, f); }); steady(id + " map", [&] { auto u = sv.mapD2N(g, d, f); }); steady(id + " operator", [&] { auto T = sv.buildD2N(g); }); steady(id + " particular", [&] { auto h = sv.particularNeumannData(g, f); });
        steady(id + " patch", [&] { Patch p(MPI_COMM_SELF, g); p.vectorF() = f; p.matrixT() = sv.buildD2N(g); Patch q(p); auto t = q.str(); }); }
}
// distributed vectors and matrices: their whole life
static void distributed() {
    using PV = ef::ParallelVector<double>; using PM = ef::ParallelMatrix<double>; int N = mpx::size();
    for (int n = 1; n <= 6; n++) for (int kind = 0; kind < 4; kind++) { S id = cat("distributed ", N, " ranks ", n, " kind ", kind); if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        mpx::run([&] { int me = mpx::rank(), l = n / N + (n % N > me);
            steady(id, [&] {
                if (kind == 0) { PV v(MPI_COMM_WORLD, l, n); for (int i = 0; i < n; i++) if (me == 0) v.setValue(i, i, INSERT_VALUES); v.beginAssembly(); v.endAssembly(); PV w(v); }
                if (kind == 1) { Vd s(n, 1.5); PV v(MPI_COMM_WORLD, s); PV w(v); }
                if (kind == 2) { PM A(MPI_COMM_WORLD, l, l, n, n); for (int i = 0; i < n; i++) if (me == 0) A.setValue(i, n - 1 - i, 2.0, INSERT_VALUES); A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY); PM B(A); }
                if (kind == 3) { Md s(n, n, 1.5); PM A(MPI_COMM_WORLD, s); PM B(A); ef::ParallelIdentityMatrix<double> I(MPI_COMM_WORLD, n); }
            }); }, "", false); }
}
static SV<SV<int>> parts(int L, int n) { SV<SV<int>> r; SV<int> c; std::function<void(int)> go = [&](int left) { if ((int) c.size() == n - 1) { c.push_back(left); r.push_back(c); c.pop_back(); return; } for (int i = left; i >= 0; i--) { c.push_back(i); go(left - i); c.pop_back(); } }; go(L); return r; }
static void par_stages() {
    bool th = ctx().thorough(); int k = 0, N = mpx::size();
    auto one = [&](const S& s, const SV<int>& c, int mode, const SV<S>& W) { S id = cat("ranks ", s, " ", show(c), " mode ", mode, W.size() > 1 ? S() : " " + W[0]); if (!vk::begin(id)) return; k++; ctx().distinct++; if (k % 50 == 9) sample(id); mpx::run([&] { stages(id, s, c, 2, k % 2, mode & 1 ? 1 : k % 4, mode, W, W.size() > 1); }, "", false); };
    for (auto& s : trees::all(2)) { int L = trees::count_leaves(s); if (L > (N == 2 ? th ? 16 : 13 : th ? 10 : 7)) continue; for (auto& c : parts(L, N)) { int z = 0; for (int x : c) z += x == 0; if (!th && N > 3 && (c[0] + 2 * c[1]) % 3 != z % 3) continue; one(s, c, (c[0] + L) % 4, words(1, 1)); } }
    for (S s : {"SLLLL", "SLLSLLLLL"}) for (auto& c : parts(trees::count_leaves(s), N)) { bool full = true; for (int x : c) full = full && x; if (!full || !th && (c[0] != 1 || N > 2 && c[1] != 1 || N > 3)) continue; for (int mode = 0; mode < 4; mode++) for (auto& w : words(2, 2)) one(s, c, mode, {w}); }
}
int main(int argc, char** argv) {
    S part; for (int i = 1; i + 1 < argc; i++) if (S(argv[i]) == "--part") part = argv[i + 1];
    start(argc, argv); mallopt(M_MXFAST, 0);
    if (part == "serial") { serial_stages(); serial_objects(); return stop(); }
    par = true; mpx::open(); if (part == "par") { par_stages(); distributed(); } else return 9;
    return mpx::finish();
}
