// C25: the method on a user's own grid, patch, node factory and solver classes with arbitrary leaf operators.
#include "hps.hpp"
#include "mpx.hpp"
#include <p4est_extended.h>
#include <p4est_algorithms.h>
using namespace vk;
// parts: serial; par (real ranks under the coordinator, all partitions of the leaves)
static bool PAR = false;
static void bad(const std::string& key, const std::string& what) { if (PAR) mpx::fail(key, cat("rank ", mpx::rank(), ": ", what)); else violation(key, what); }
template <class T> using SV = std::vector<T>;
namespace user {
// cells are not evenly spaced, so the algorithm must ask the grid for its points
static double node(size_t i, size_t n) { return 0.5 - 0.5 * cos(M_PI * (i + 0.5) / n); }
struct UGrid : ef::PatchGridBase<double> {
    size_t m = 0; Box b{0, 0, 0, 0};
    UGrid() {}
    UGrid(MPI_Comm, size_t nx, double x0, double x1, size_t, double y0, double y1) : m(nx), b{x0, x1, y0, y1} {}
    std::string name() override { return "UGrid"; }
    size_t nx() override { return m; } size_t ny() override { return m; }
    double xLower() override { return b.x0; } double xUpper() override { return b.x1; } double yLower() override { return b.y0; } double yUpper() override { return b.y1; }
    double dx() override { return (b.x1 - b.x0) / m; } double dy() override { return (b.y1 - b.y0) / m; }
    double operator()(size_t d, size_t i) override { return d == 0 ? b.x0 + (b.x1 - b.x0) * node(i, m) : b.y0 + (b.y1 - b.y0) * node(i, m); }
};
struct USolver;
struct UPatch : ef::PatchBase<UPatch, UGrid, USolver, double> {
    UGrid g; ef::Matrix<double> M[4]; ef::Vector<double> V[6]; std::string tag; int mine = 0;
    std::string name() override { return "UPatch"; }
    UGrid& grid() override { return g; }
    ef::Matrix<double>& matrixX() override { return M[0]; } ef::Matrix<double>& matrixH() override { return M[1]; } ef::Matrix<double>& matrixS() override { return M[2]; } ef::Matrix<double>& matrixT() override { return M[3]; }
    ef::Vector<double>& vectorU() override { return V[0]; } ef::Vector<double>& vectorG() override { return V[1]; } ef::Vector<double>& vectorV() override { return V[2]; } ef::Vector<double>& vectorF() override { return V[3]; } ef::Vector<double>& vectorH() override { return V[4]; } ef::Vector<double>& vectorW() override { return V[5]; }
};
// how a user makes patches travel between ranks
[[maybe_unused]] static int broadcast(UPatch& p, int root, MPI_Comm c) {
    namespace M = ef::MPI; M::broadcast(p.n_coarsens, root, c); M::broadcast(p.g.m, root, c); M::broadcast(p.g.b.x0, root, c); M::broadcast(p.g.b.x1, root, c); M::broadcast(p.g.b.y0, root, c); M::broadcast(p.g.b.y1, root, c);
    for (auto& x : p.M) M::broadcast(x, root, c); for (auto& x : p.V) M::broadcast(x, root, c); M::broadcast(p.tag, root, c); M::broadcast(p.mine, root, c); return 0;
}
struct UFactory : ef::AbstractNodeFactory<UPatch> {
    using N = ef::Node<UPatch>;
    N* createNode(UPatch d, std::string path, int level, int a, int z) override { d.tag = path; return new N(MPI_COMM_WORLD, d, path, level, a, z); }
    N* createChildNode(N* p, int s, int a, int z) override {
        auto& b = p->data.g.b; double xm = (b.x0 + b.x1) / 2, ym = (b.y0 + b.y1) / 2; UPatch c; c.tag = p->data.tag + char('0' + s); c.mine = p->data.mine + 1;
        c.g = UGrid(MPI_COMM_SELF, p->data.g.m, s & 1 ? xm : b.x0, s & 1 ? b.x1 : xm, p->data.g.m, s & 2 ? ym : b.y0, s & 2 ? b.y1 : ym);
        return new N(MPI_COMM_WORLD, c, p->path + char('0' + s), p->level + 1, a, z);
    }
    N* createParentNode(SV<N*> ch, int a, int z) override {
        UPatch p; p.tag = ch[0]->data.tag.substr(0, ch[0]->data.tag.size() - 1); p.mine = ch[0]->data.mine - 1;
        p.g = UGrid(MPI_COMM_SELF, ch[0]->data.g.m, ch[0]->data.g.b.x0, ch[1]->data.g.b.x1, ch[0]->data.g.m, ch[0]->data.g.b.y0, ch[2]->data.g.b.y1);
        return new N(MPI_COMM_WORLD, p, p.tag, ch[0]->level - 1, a, z);
    }
};
// Leaf operators: any matrices.  Entry (i, j) of operator o of the leaf with key k; the flux rows have a dominant diagonal so that
// every merged problem is solvable.
static double noise(const std::string& k, int o, int i, int j) { unsigned h = 2166136261u; for (char c : k) h = (h ^ (unsigned char) c) * 16777619u; h = (h ^ (o * 131 + 7)) * 16777619u; h = (h ^ (i * 31 + 1)) * 16777619u; h = (h ^ (j * 17 + 3)) * 16777619u; h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; return (h % 20001) / 10000.0 - 1; }
static Dense leaf_op(int n, const std::string& k, int o) { // 0 T, 1 H, 2 XG, 3 XF
    int r = o < 2 ? 4 * n : n * n, c = o % 2 ? n * n : 4 * n; Dense A(r, c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { double s = (i / n) % 2 ? 1.0 : -1.0; A(i, j) = o == 0 ? (i == j ? s * (6 + noise(k, o, i, j)) : noise(k, o, i, j) * 2.0 / n) : noise(k, o, i, j); }
    return A;
}
static std::string path_of(const Box& dom, const Box& b) { // of the leaf patch with these bounds
    std::string p = "0"; Box c = dom; auto eq = [&](double u, double v) { return fabs(u - v) < 1e-9; };
    for (int l = 0; l < 12; l++) { if (eq(c.x0, b.x0) && eq(c.x1, b.x1) && eq(c.y0, b.y0) && eq(c.y1, b.y1)) return p; double xm = (c.x0 + c.x1) / 2, ym = (c.y0 + c.y1) / 2, x = (b.x0 + b.x1) / 2, y = (b.y0 + b.y1) / 2; int q = (x > xm) + 2 * (y > ym); p += char('0' + q); (q & 1 ? c.x0 : c.x1) = xm; (q & 2 ? c.y0 : c.y1) = ym; }
    return "?";
}
struct USolver : ef::PatchSolverBase<double> {
    Box dom; int n; int seed = 0; bool per_level = false; std::set<std::string> leaves; std::map<std::string, int> asked; std::string bad; std::map<std::string, Dense> memo;
    std::string name() override { return "USolver"; }
    std::string key(const std::string& path) { return cat(seed, per_level ? cat("level", path.size()) : path); }
    const Dense& op(const std::string& path, int o) { auto k = cat(key(path), "/", o); auto it = memo.find(k); if (it == memo.end()) it = memo.emplace(k, leaf_op(n, key(path), o)).first; return it->second; }
    std::string who(ef::PatchGridBase<double>& g, const char* what) { auto p = path_of(dom, Box{g.xLower(), g.xUpper(), g.yLower(), g.yUpper()}); if (!leaves.count(p) || (int) g.nx() != n) throw std::runtime_error(cat(what, " is called for a patch that is no leaf: ", p, " with ", g.nx(), " cells a side")); asked[cat(what, " ", p)]++; return p; }
    static void add(std::vector<double>& r, const Dense& A, ef::Vector<double>& v) { if ((int) v.size() != A.m) throw std::runtime_error(cat("data of ", v.size(), " entries where ", A.m, " are needed")); for (int j = 0; j < A.m; j++) for (int i = 0; i < A.n; i++) r[i] += A(i, j) * v[j]; }
    ef::Vector<double> both(const std::string& p, int o, ef::Vector<double>& g, ef::Vector<double>& f) { std::vector<double> r(op(p, o).n, 0.0); add(r, op(p, o), g); add(r, op(p, o + 1), f); return ef::Vector<double>(r); }
    ef::Vector<double> solve(ef::PatchGridBase<double>& gr, ef::Vector<double>& g, ef::Vector<double>& f) override { return both(who(gr, "solve"), 2, g, f); }
    ef::Vector<double> mapD2N(ef::PatchGridBase<double>& gr, ef::Vector<double>& g, ef::Vector<double>& f) override { return both(who(gr, "mapD2N"), 0, g, f); }
    ef::Matrix<double> buildD2N(ef::PatchGridBase<double>& gr) override { auto& A = op(who(gr, "buildD2N"), 0); ef::Matrix<double> T(A.n, A.m, 0); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) T(i, j) = A(i, j); return T; }
};
struct USolver2 : USolver { // a solver that also overrides the default
    ef::Vector<double> particularNeumannData(ef::PatchGridBase<double>& gr, ef::Vector<double>& f) override { auto p = who(gr, "particular"); std::vector<double> r(4 * n, 0.0); add(r, op(p, 1), f); return ef::Vector<double>(r); }
    ef::Vector<double> mapD2N(ef::PatchGridBase<double>&, ef::Vector<double>&, ef::Vector<double>&) override { throw std::runtime_error("mapD2N is called although particularNeumannData is overridden"); }
};
template <class ST> struct UHPS : ef::HPSAlgorithm<UGrid, ST, UPatch, double> { // steps overridden by the user: record, then do as the library does
    using Base = ef::HPSAlgorithm<UGrid, ST, UPatch, double>; using Base::Base; SV<std::string> log;
    void rec(const char* s, UPatch& t, UPatch* a, UPatch* b, UPatch* c, UPatch* d) { std::string e = cat(s, " ", t.tag); if (a) { UPatch* q[4] = {a, b, c, d}; for (int i = 0; i < 4; i++) if (q[i]->tag != t.tag + char('0' + i)) e += cat(" child ", i, " is ", q[i]->tag); } log.push_back(e); }
    void merge4to1(UPatch& t, UPatch& a, UPatch& b, UPatch& c, UPatch& d) override { rec("merge", t, &a, &b, &c, &d); Base::merge4to1(t, a, b, c, d); }
    void upwards4to1(UPatch& t, UPatch& a, UPatch& b, UPatch& c, UPatch& d) override { rec("up", t, &a, &b, &c, &d); Base::upwards4to1(t, a, b, c, d); }
    void split1to4(UPatch& t, UPatch& a, UPatch& b, UPatch& c, UPatch& d) override { rec("split", t, &a, &b, &c, &d); Base::split1to4(t, a, b, c, d); }
    void leafSolve(UPatch& p) override { rec("leaf", p, nullptr, nullptr, nullptr, nullptr); Base::leafSolve(p); }
};
}
using namespace user;
static const double TOL = 1e-7;
static void option(const char* name, bool v) { the_app()->options.setOption(name, v); }
struct Cfg { std::string shape; int n, dom, solver; std::string kinds, ops; int seed; SV<int> cnt; };
// operations: B build  U load 1 by point  u load 2 by patch  S solve by function  s solve by patch (Dirichlet)  O new leaf operators and build
//             C caching on, operators equal per level, build   H homogeneous shortcut with zero load
static double fval(int k, const std::string& path, int i, int j) { return noise(path, 10 + k, i, j); }
static double bval(int k, int s, int i) { return noise("bc", 20 + k, s, i); }
template <class ST> static void run(const std::string& id, const Cfg& c) {
    Box q = domains()[c.dom].second; Problem P{c.shape, c.n, q, coefs()[0], c.kinds}; auto cells = trees::preorder(c.shape), post = trees::postorder(c.shape); auto L = trees::leaves(c.shape); int n = c.n;
    // the leaves and the branches above them of this rank
    std::set<std::string> own; { int k = 0, r = 0; for (auto& x : cells) if (x.leaf) { while (PAR && k >= c.cnt[r]) { r++; k = 0; } k++; if (!PAR || r == mpx::rank()) for (size_t l = 1; l <= x.path.size(); l++) own.insert(x.path.substr(0, l)); } } auto mine = [&](const std::string& p) { return own.count(p) > 0; };
    p4est_t* p4 = make_p4est(c.shape, q); if (PAR) { SV<p4est_locidx_t> cn(c.cnt.begin(), c.cnt.end()); p4est_partition_given(p4, cn.data()); } UFactory nf; UPatch root; root.g = UGrid(MPI_COMM_SELF, n, q.x0, q.x1, n, q.y0, q.y1); root.mine = 5;
    std::unique_ptr<USolver> sp; if (c.solver == 1) sp = std::make_unique<USolver2>(); else sp = std::make_unique<USolver>(); USolver& S = *sp; S.dom = q; S.n = n; S.seed = c.seed; for (auto& l : L) S.leaves.insert(l.path);
    ef::Mesh<UPatch> mesh(MPI_COMM_WORLD, p4, root, nf); UHPS<ST> hps(MPI_COMM_WORLD, mesh, dynamic_cast<ST&>(S));
    for (auto& [p, nd] : mesh.quadtree.map) if (nd) { if (nd->data.tag != p || nd->data.mine != 5 + (int) p.size() - 1) bad(id + " factory", cat("node ", p, " was not made by the user's factory from its parent")); }
    std::map<std::string, std::unique_ptr<Reference>> refs; auto ref = [&]() -> Reference& { auto& r = refs[cat(S.seed, S.per_level)]; if (!r) r = std::make_unique<Reference>(P, [&](const trees::Cell& l, Dense& T, Dense& H, Dense& XG, Dense& XF) { T = S.op(l.path, 0); H = S.op(l.path, 1); XG = S.op(l.path, 2); XF = S.op(l.path, 3); }); return *r; };
    auto expect = [&](const SV<std::string>& want, const char* when) { if (hps.log != want) { size_t k = 0; while (k < want.size() && k < hps.log.size() && want[k] == hps.log[k]) k++; bad(id + " steps", cat(when, ": step ", k, " is ", k < hps.log.size() ? hps.log[k] : "missing", ", expected ", k < want.size() ? want[k] : "nothing")); } hps.log.clear(); };
    auto steps = [&](const char* s, const char* leaf, bool up) { SV<std::string> w; for (auto& x : up ? post : cells) if (mine(x.path)) if (x.leaf ? leaf != nullptr : true) w.push_back(cat(x.leaf ? leaf : s, " ", x.path)); return w; };
    int load = -1; std::string done;
    auto build = [&] { hps.setupStage(); hps.buildStage(); expect(steps("merge", nullptr, true), "build"); };
    auto solve = [&](bool by_patch) {
        int M = ref().M; std::vector<double> r(4 * M); for (int s = 0; s < 4; s++) for (int i = 0; i < M; i++) r[s * M + i] = bval(load, s, i); std::string ill; int calls = 0;
        if (by_patch) hps.solveStage(std::function<void(UPatch&)>([&](UPatch& p) { calls++; if (p.tag != "0" || (int) p.grid().nx() != M) ill = cat("the boundary callback gets patch ", p.tag, " of ", p.grid().nx(), " cells a side, expected the root of ", M); p.vectorG() = ef::Vector<double>(r); }));
        else hps.solveStage(std::function<double(int, double, double, double*, double*)>([&](int s, double x, double y, double* a, double* b) {
            double t = side_t(q, s, x, y); int k = -1; for (int i = 0; i < M; i++) if (fabs(t - node(i, M)) < 1e-9) k = i; double off = s == 0 ? x - q.x0 : s == 1 ? x - q.x1 : s == 2 ? y - q.y0 : y - q.y1;
            if (s < 0 || s > 3 || k < 0 || fabs(off) > 1e-9) { ill = cat("boundary data of side ", s, " are asked for at (", x, ",", y, "), which is no point of the root's grid on that side"); *a = 1; *b = 0; return 0.0; }
            calls++; bc_ab(c.kinds[s], s, (k + .5) / M, a, b); return r[s * M + k]; }));
        if (ill != "") bad(id + " boundary", ill); if (by_patch && calls != (int) mine("0")) bad(id + " boundary", cat("the boundary callback is called ", calls, " times"));
        expect(steps("split", "leaf", false), "solve");
        std::map<std::string, std::vector<double>> f; for (auto& l : L) { auto& v = f[l.path]; v.resize(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[j + i * n] = load ? fval(load, l.path, i, j) : 0.0; }
        Sol got; for (auto& [p, nd] : mesh.quadtree.map) if (nd && nd->leaf) got[p] = nd->data.vectorU().data();
        Problem* pp = nullptr; (void) pp; std::string wh; Sol want = by_patch && c.kinds != "DDDD" ? [&] { Problem PD = P; PD.kinds = "DDDD"; Reference R(PD, [&](const trees::Cell& l, Dense& T, Dense& H, Dense& XG, Dense& XF) { T = S.op(l.path, 0); H = S.op(l.path, 1); XG = S.op(l.path, 2); XF = S.op(l.path, 3); }); return R.solve(f, r); }() : ref().solve(f, r); for (auto it = want.begin(); it != want.end();) if (mine(it->first)) it++; else it = want.erase(it); double e = diff(got, want, &wh);
        ctx().extra["solves_checked"]++; if (!(e < TOL)) bad(id, cat("after ", done, ": the solution differs from that of the coupled problem: relative error ", e, " at ", wh));
    };
    auto upwards = [&](bool by_patch) {
        if (by_patch) { SV<std::string> seen; hps.upwardsStage(std::function<void(UPatch&)>([&](UPatch& p) { seen.push_back(p.tag); std::vector<double> v(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[j + i * n] = load ? fval(load, p.tag, i, j) : 0.0; p.vectorF() = ef::Vector<double>(v); })); SV<std::string> want; for (auto& x : post) if (x.leaf && mine(x.path)) want.push_back(x.path); std::sort(seen.begin(), seen.end()); std::sort(want.begin(), want.end()); if (seen != want) bad(id + " load callback", cat("the load callback is called for ", seen.size(), " patches, not once for each of the ", want.size(), " leaves")); }
        else { std::string ill; hps.upwardsStage(std::function<double(double, double)>([&](double x, double y) {
            for (auto& l : L) { double x0, y0, dx, dy; leaf_geom(P, l, x0, y0, dx, dy); double u = (x - x0) / (dx * n), v = (y - y0) / (dy * n); if (u < 0 || u > 1 || v < 0 || v > 1) continue; for (int i = 0; i < n; i++) if (fabs(u - node(i, n)) < 1e-7) for (int j = 0; j < n; j++) if (fabs(v - node(j, n)) < 1e-7) return load ? fval(load, l.path, i, j) : 0.0; }
            ill = cat("the load is asked for at (", x, ",", y, "), which is no point of a leaf's grid"); return 0.0; })); if (ill != "") bad(id + " load points", ill); }
        SV<std::string> w = steps("up", nullptr, true); expect(w, "upwards");
    };
    build();
    for (char o : c.ops) { done += o; ctx().transitions++; switch (o) {
        case 'B': build(); break; case 'U': load = 1; upwards(false); break; case 'u': load = 2; upwards(true); break; case 'S': solve(false); break; case 's': solve(true); break;
        case 'O': S.seed++; build(); if (load >= 0) upwards(load == 2); break;
        case 'C': S.per_level = true; option("cache-operators", true); build(); if (load >= 0) upwards(load == 2); break;
        case 'H': option("homogeneous-rhs", true); load = 0; upwards(true); break; } }
    option("cache-operators", false); option("homogeneous-rhs", false);
    ctx().states += cells.size(); ctx().traces++;
    for (auto& [p, nd] : mesh.quadtree.map) delete nd; mesh.quadtree.map.clear(); free_p4est(p4);
}
static void dispatch(const std::string& id, const Cfg& c) { if (c.solver == 2) run<ef::PatchSolverBase<double>>(id, c); else if (c.solver == 1) run<USolver2>(id, c); else run<USolver>(id, c); }
static void one(const Cfg& c) {
    std::string id = cat("user types: tree=", c.shape, " n=", c.n, " dom=", c.dom, " bc=", c.kinds, " solver=", c.solver, " seed=", c.seed, " ops=", c.ops, PAR ? " on ranks" : ""); for (int x : c.cnt) id += cat(" ", x); if (!vk::begin(id)) return; sample(id); ctx().distinct++;
    if (PAR) { ctx().traces++; mpx::run([&] { option("cache-operators", false); option("homogeneous-rhs", false); dispatch(id, c); }); return; }
    try { dispatch(id, c); } catch (std::exception& e) { option("cache-operators", false); option("homogeneous-rhs", false); bad(id, cat("exception: ", e.what())); }
}
static int par_part() {
    mpx::open(); bool th = ctx().thorough(); int N = mpx::size(), k = 0;
    auto parts = [&](int L) { SV<SV<int>> r; SV<int> c; std::function<void(int)> go = [&](int left) { if ((int) c.size() == N - 1) { c.push_back(left); r.push_back(c); c.pop_back(); return; } for (int i = left; i >= 0; i--) { c.push_back(i); go(left - i); c.pop_back(); } }; go(L); return r; };
    SV<std::string> T = {"L", "SLLLL", "SSLLLLLLL", "SLLSLLLLL", "SLLLSLLLL", "SSLLLLLLSLLLL", "SLSSLLLLLLLLL"}; static const char* H[] = {"US", "uSOS", "USus", "CUS", "HSs", "OuSBS"};
    for (auto& t : T) { int L = trees::count_leaves(t); auto P = parts(L); int i = 0; for (auto& c : P) { int one = 0, ne = 0; for (int x : c) { one += x == 1; ne += x > 0; } i++; if (!th && ((int) P.size() > 300) && one < N - 1 && !(ne <= 2 && i % 3 == 0)) continue;
        for (int h = 0; h < (th ? 6 : N == 2 ? 4 : 2); h++) { k++; ::one({t, k % 3 ? 2 : 3, k % 2, k % 3, k % 4 ? "NVRM" : "DDDD", H[(k + h) % 6], k % 5, c}); } } }
    return mpx::finish();
}
int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--part") && !strcmp(argv[i + 1], "par")) PAR = true;
    start(argc, argv); if (PAR) return par_part(); bool th = ctx().thorough(); auto T2 = trees::all(2);
    // every tree of depth 2, all sizes, solvers and side kinds
    for (auto& t : T2) for (int n : {1, 2, 3, 4, 5, 6}) for (int d = 0; d < 2; d++) for (int s = 0; s < 3; s++) for (std::string k : {"DDDD", "NVRM", "WDRN", "NNNN", "RRRR"}) for (int seed = 0; seed < (th ? 4 : 2); seed++) {
        if (!th && n > 4 && (s || d)) continue; if (!th && trees::count_leaves(t) > 10 && (n > 4 || seed)) continue; if (n == 1 && t.size() > 5) continue;
        one({t, n, d, s, k, "US", seed}); }
    // deeper trees
    for (auto& t : trees::all(3)) { if (trees::depth(t) < 3) continue; int k2 = trees::splits_at(t, 2); if (k2 > (th ? 4 : 2) && k2 < 15) continue; one({t, 2, k2 % 2, k2 % 3, "DDDD", "uS", 7}); if (th || k2 == 1) one({t, 3, 1, 0, "NVRM", "Us", 8}); }
    for (int i = 0; i < 256; i++) { int l[4] = {i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6}, n3 = 0; for (int q = 0; q < 4; q++) n3 += l[q] == 3; if (n3 > (th ? 2 : 1)) continue; std::string t = "S"; for (int q = 0; q < 4; q++) t += trees::uniform(l[q]); one({t, 2, i % 2, i % 3, n3 ? "DDDD" : "VRNM", "uS", 9}); }
    // histories of stages
    const std::string A = "BUuSsOCH"; int D = th ? 6 : 5; SV<std::string> TH = {"L", "SLLLL", "SSLLLLLLL", "SLLSLLLLL", "SLSSLLLLLLLLL"};
    for (size_t ti = 0; ti < TH.size(); ti++) { SV<int> ix(D, 0); for (;;) {
        std::string s; for (int i : ix) s += A[i]; bool ok = s.back() == 'S' || s.back() == 's', u = false, h = false; int solves = 0;
        for (char c : s) { if (c == 'U' || c == 'u') { u = true; if (h) ok = false; } if (c == 'H') u = h = true; if (c == 'S' || c == 's') { solves++; if (!u) ok = false; } }   // once the shortcut is on the load stays zero
        if (ok && solves) one({TH[ti], ti % 2 ? 2 : 3, (int) ti % 2, (int) ti % 3, "NVRM", s, 0});
        int p = D - 1; while (p >= 0 && ++ix[p] == (int) A.size()) ix[p--] = 0; if (p < 0) break; } }
    return stop();
}
