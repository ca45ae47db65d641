// Driving the real HPS solver on an arbitrary quadtree, and the independent reference solutions.
#pragma once
#include "vk.hpp"
#include "trees.hpp"
#include <EllipticForest.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <p4est_bits.h>
namespace ef = EllipticForest;
using Grid = ef::FiniteVolumeGrid; using Patch = ef::FiniteVolumePatch; using Solver = ef::FiniteVolumeSolver;
using HPS = ef::HPSAlgorithm<Grid, Solver, Patch, double>;
using Mesh = ef::Mesh<Patch>;
using Node = ef::Node<Patch>;

// ---- p4est of a given shape -------------------------------------------------------------------
inline std::set<std::string>& split_paths() { static std::set<std::string> s; return s; }
inline std::string quad_path(const p4est_quadrant_t* q) {
    std::string p = "0";
    for (int l = 1; l <= q->level; l++) {
        int sh = P4EST_MAXLEVEL - l;
        p += char('0' + (((q->x >> sh) & 1) | (((q->y >> sh) & 1) << 1)));
    }
    return p;
}
struct Box { double x0, x1, y0, y1; };
inline p4est_t* make_p4est(const std::string& shape, Box b, MPI_Comm comm = MPI_COMM_WORLD) {
    auto& S = split_paths(); S.clear();
    for (auto& c : trees::preorder(shape)) if (!c.leaf) S.insert(c.path);
    p4est_connectivity_t* conn = ef::p4est::p4est_connectivity_new_square_domain(b.x0, b.x1, b.y0, b.y1);
    p4est_t* p = p4est_new_ext(comm, conn, 0, 0, 1, 0, NULL, NULL);
    p4est_refine(p, 1, [](p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) { return (int) split_paths().count(quad_path(q)); }, NULL);
    return p;
}
inline void free_p4est(p4est_t* p) { auto* c = p->connectivity; p4est_destroy(p); p4est_connectivity_destroy(c); }

// ---- problem alphabet --------------------------------------------------------------------------
using F2 = std::function<double(double, double)>;
struct Coef { std::string name; F2 alpha, beta, lambda; bool constant; };
inline double bump(double t) { double s = sin(2 * M_PI * t); return s * s; }
inline const std::vector<Coef>& coefs() {
    static std::vector<Coef> c = {
        {"const", [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [](double, double) { return 0.0; }, true},
        {"helm", [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [](double, double) { return -2.5; }, true},
        {"var", [](double x, double y) { return 1.3 + 0.3 * sin(x + 2 * y); }, [](double x, double y) { return 1.5 + 0.5 * sin(2 * x) * cos(y) + 0.2 * x; }, [](double x, double y) { return -1.0 - 0.4 * cos(x - y); }, false},
        {"scaled", [](double, double) { return 0.5; }, [](double, double) { return 3.0; }, [](double, double) { return -0.7; }, true},
        {"strip", [](double, double) { return 1.0; }, [](double x, double) { return x < 0.6 ? 1.0 : 2.5; }, [](double, double) { return 0.0; }, false},
        {"lambda", [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [](double, double y) { return y < 0 ? 0.0 : -4 * y; }, false},
        {"alpha", [](double, double y) { return 1 + 0.5 * y * y; }, [](double, double) { return 2.0; }, [](double, double) { return -0.5; }, false},
        // equal at the corners, the centre and the middles of the sides of the unit domain and its larger parts, different in between
        {"bumpa", [](double x, double y) { return 1 + 0.7 * bump(x) + 0.3 * bump(y); }, [](double, double) { return 1.0; }, [](double, double) { return 0.0; }, false},
        {"bumpb", [](double, double) { return 1.0; }, [](double x, double y) { return 1 + 0.9 * bump(x) + 0.4 * bump(y); }, [](double, double) { return 0.0; }, false},
        {"bumpl", [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [](double x, double y) { return -6 * bump(x) - 2 * bump(y); }, false},
        // the same problems multiplied by a negative factor
        {"nega", [](double x, double y) { return -1.2 - 0.3 * cos(2 * x - y); }, [](double x, double y) { return 1.4 + 0.5 * sin(x + y); }, [](double x, double) { return 0.8 + 0.5 * x * x; }, false},
        {"negb", [](double, double) { return 0.7; }, [](double x, double y) { return -2.0 - 0.6 * sin(x) * y; }, [](double, double) { return 1.5; }, false},
    };
    return c;
}
inline const std::vector<std::pair<std::string, Box>>& domains() {
    static std::vector<std::pair<std::string, Box>> d = {{"unit", {-1, 1, -1, 1}}, {"rect", {0.5, 2.5, -1, 0.25}}, {"tiny", {1e-6, 4e-6, -2e-6, 0}}, {"huge", {-3e6, 1e6, 0, 2.5e6}}, {"sliver", {0, 1, 3, 3 + 1.0 / 64}}, {"small", {1e-3, 4e-3, -2e-3, 0}}};
    return d;
}
// right-hand sides and boundary data: number 0 zero, 3 constant, others generic smooth functions
inline double rhs_fn(int k, double x, double y) { return k == 0 ? 0.0 : k == 3 ? 2.0 : sin(1.7 * x + 0.3 * k) + 0.5 * k * cos(2.1 * y - 0.2) + 0.7 * x * y - 0.25 * k; }
inline double bc_fn(int k, int side, double x, double y) { return k == 0 ? 0.0 : k == 3 ? 1.0 : cos(0.9 * x - 0.4 * k) + 0.6 * sin(1.3 * y + side) + 0.35 * side * (k == 2 ? -1 : 1) + 0.1 * k; }
// Special data: values that a shortcut might single out.  Loads are given per leaf cell (number l of the leaf among nl, cell i, j of
// n), traces per face (side s, face k of m).
struct Load { std::string name; std::function<double(int l, int nl, int i, int j, int n)> v; };
struct Trace { std::string name; std::function<double(int s, int k, int m)> v; };
inline const std::vector<Load>& loads() {
    static std::vector<Load> L = {
        {"zero", [](int, int, int, int, int) { return 0.0; }}, {"one", [](int, int, int, int, int) { return 1.0; }}, {"negative", [](int, int, int, int, int) { return -2.5; }},
        {"checkerboard", [](int, int, int i, int j, int) { return (i + j) % 2 ? -1.5 : 1.5; }}, {"antisymmetric", [](int, int, int i, int j, int n) { return 2.0 * (2 * i + 1 - n) + 3.0 * (2 * j + 1 - n); }},
        {"all but the first cell", [](int, int, int i, int j, int) { return i + j ? 1.0 + i - 2 * j : 0.0; }}, {"all but the last cell", [](int, int, int i, int j, int n) { return i + j < 2 * n - 2 ? 2.0 - i + j : 0.0; }},
        {"first cell", [](int, int, int i, int j, int) { return i + j ? 0.0 : 4.0; }}, {"last cell", [](int, int, int i, int j, int n) { return i + j < 2 * n - 2 ? 0.0 : -4.0; }},
        {"tiny", [](int, int, int i, int j, int) { return 1e-20 * (1 + i + 2 * j); }}, {"huge", [](int, int, int i, int j, int) { return 1e20 * (1 + i + 2 * j); }},
        {"per column", [](int, int, int i, int, int) { return 1.0 + i * i; }}, {"per row", [](int, int, int, int j, int) { return 3.0 - j; }},
        {"first leaf", [](int l, int, int i, int j, int) { return l ? 0.0 : 1.0 + i - j; }}, {"last leaf", [](int l, int nl, int i, int j, int) { return l + 1 < nl ? 0.0 : 1.0 + i - j; }}, {"all but the first leaf", [](int l, int, int i, int j, int) { return l ? 2.0 + i - j : 0.0; }},
        {"sign per leaf", [](int l, int, int, int, int) { return l % 2 ? -1.0 : 1.0; }},
    };
    return L;
}
inline const std::vector<Trace>& traces() {
    static std::vector<Trace> T = {
        {"zero", [](int, int, int) { return 0.0; }}, {"one", [](int, int, int) { return 1.0; }}, {"constant", [](int, int, int) { return -2.5; }}, {"per side", [](int s, int, int) { return 1.0 - s; }},
        {"W only", [](int s, int k, int) { return s == 0 ? 1.0 + k : 0.0; }}, {"N only", [](int s, int k, int) { return s == 3 ? 2.0 - k : 0.0; }}, {"W and E equal", [](int s, int k, int) { return s < 2 ? 1.0 + k * k : 0.0; }},
        {"alternating", [](int, int k, int) { return k % 2 ? -1.0 : 1.0; }}, {"zero sum", [](int s, int k, int m) { return (2 * k + 1 - m) * (s % 2 ? 1.0 : -1.0) ; }}, {"same on every side", [](int, int k, int) { return 0.5 + k; }},
        {"all but the first face", [](int s, int k, int) { return s + k ? 1.0 + s - k : 0.0; }}, {"all but the last face", [](int s, int k, int m) { return s < 3 || k + 1 < m ? 1.0 - s + 2 * k : 0.0; }}, {"first face", [](int s, int k, int) { return s + k ? 0.0 : 3.0; }}, {"last face", [](int s, int k, int m) { return s < 3 || k + 1 < m ? 0.0 : 3.0; }},
        {"tiny", [](int s, int k, int) { return 1e-20 * (1 + s + k); }}, {"huge", [](int s, int k, int) { return 1e20 * (1 + s - k); }}, {"symmetric", [](int, int k, int m) { return 1.0 + (2 * k + 1 - m) * (2 * k + 1 - m); }},
    };
    return T;
}
// boundary kinds per side: Dirichlet, Neumann, Robin; V: Robin with coefficients varying along the side; M: Dirichlet on the
// first part of the side and Neumann on the rest; W: the other way round; T, n: Robin with a very small b or a; G, g, d, o: Dirichlet
// and Neumann with a factor; H, h: Robin with a large or small factor.  t in (0,1) is the position along the side.
// a u + b (du/dx or du/dy along the axis) = r;  the sign of b keeps Robin problems well posed.
inline void bc_ab(char kind, int side, double t, double* a, double* b) {
    double s = (side == 0 || side == 2) ? -1.0 : 1.0;   // outward direction along the axis
    if (kind == 'M') kind = t < 0.4719 ? 'D' : 'N'; else if (kind == 'W') kind = t < 0.4719 ? 'N' : 'D';
    if (kind == 'D') { *a = 1; *b = 0; }
    else if (kind == 'N') { *a = 0; *b = 1; }
    else if (kind == 'V') { *a = 1.1 + 0.9 * t - 0.4 * t * t; *b = (0.2 + 1.3 * t * t) * s; }
    else if (kind == 'T') { *a = 1; *b = 1e-4 * s; }
    else if (kind == 'n') { *a = 1e-4; *b = s; }
    else if (kind == 'G') { *a = -2; *b = 0; }
    else if (kind == 'd') { *a = 3e-3; *b = 0; }
    else if (kind == 'g') { *a = 0; *b = -3; }
    else if (kind == 'o') { *a = 0; *b = 400; }
    else if (kind == 'H') { *a = 1500; *b = 800 * s; }
    else if (kind == 'h') { *a = -1.5e-3; *b = -0.8e-3 * s; }
    else { *a = 1.5; *b = 0.8 * s; }
}
inline double side_t(const Box& b, int side, double x, double y) { return side < 2 ? (y - b.y0) / (b.y1 - b.y0) : (x - b.x0) / (b.x1 - b.x0); }

inline ef::EllipticForestApp*& the_app() { static ef::EllipticForestApp* a = nullptr; return a; }
inline void quiet_libs() {
    vk::quiet();
    fflush(stdout);
    if (!getenv("VK_VERBOSE")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }
}
inline void start(int argc, char** argv) {
    vk::init(argc, argv);
    static int c = 1; static char name[] = "harness"; static char* av[] = {name, nullptr}; static char** pav = av;
    quiet_libs();
    sc_set_log_defaults(NULL, NULL, SC_LP_ERROR);
    the_app() = new ef::EllipticForestApp(&c, &pav);
    the_app()->options.setOption("cache-operators", false);
    the_app()->options.setOption("homogeneous-rhs", false);
    p4est_init(NULL, SC_LP_ERROR);
}
inline int stop() { vk::finish(); fflush(nullptr); _exit(0); }

using Sol = std::map<std::string, std::vector<double>>;   // leaf path -> cell values, index j + i*n

// A mesh and solver built on a shape.
inline ef::FiniteVolumeSolverType world_solver = ef::FiniteVolumeSolverType::FivePointStencil;
struct World {
    p4est_t* p4; Grid grid; Patch root; ef::FiniteVolumeNodeFactory nf; Mesh* mesh; Solver solver; HPS* hps; int n;
    World(const std::string& shape, int n, Box b, const Coef& c) : grid(MPI_COMM_WORLD, n, b.x0, b.x1, n, b.y0, b.y1), root(MPI_COMM_WORLD, grid), nf(MPI_COMM_WORLD), n(n) {
        p4 = make_p4est(shape, b);
        mesh = new Mesh(MPI_COMM_WORLD, p4, root, nf);
        solver.solver_type = world_solver;
        set_coef(c);
        hps = new HPS(MPI_COMM_WORLD, *mesh, solver);
    }
    void set_coef(const Coef& c) { solver.alpha_function = c.alpha; solver.beta_function = c.beta; solver.lambda_function = c.lambda; }
    ~World() {
        delete hps;
        for (auto& [k, v] : mesh->quadtree.map) delete v;
        mesh->quadtree.map.clear();
        delete mesh; free_p4est(p4);
    }
    Sol solution() {
        Sol s;
        for (auto& [path, node] : mesh->quadtree.map) if (node && node->leaf) s[path] = node->data.vectorU().data();
        return s;
    }
};

// ---- reference: dense helpers ------------------------------------------------------------------
struct Dense {
    int n, m; std::vector<double> a;               // column major
    Dense(int n = 0, int m = 0) : n(n), m(m), a((size_t) n * m, 0.0) {}
    double& operator()(int i, int j) { return a[(size_t) j * n + i]; }
    double operator()(int i, int j) const { return a[(size_t) j * n + i]; }
};
inline Dense mul(const Dense& A, const Dense& B) {
    Dense C(A.n, B.m);
    for (int j = 0; j < B.m; j++) for (int k = 0; k < A.m; k++) { double v = B(k, j); if (v != 0) for (int i = 0; i < A.n; i++) C(i, j) += A(i, k) * v; }
    return C;
}
inline Dense lu_solve(Dense A, Dense B) {
    int n = A.n, nr = B.m, info = 0; std::vector<int> ip(n);
    if (n == 0) return B;
    ::dgesv_(&n, &nr, A.a.data(), &n, ip.data(), B.a.data(), &n, &info);
    if (info) throw std::runtime_error("reference system singular");
    return B;
}
// Finite-volume system of one patch [x0,x0+n*dx]x..: A u = f - 2*c*g ; returns A (n^2 x n^2) and G (n^2 x 4n): A u = f + G g
inline void patch_system(int n, double x0, double y0, double dx, double dy, const Coef& c, Dense& A, Dense& G) {
    A = Dense(n * n, n * n); G = Dense(n * n, 4 * n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        double x = x0 + (i + 0.5) * dx, y = y0 + (j + 0.5) * dy, al = c.alpha(x, y);
        int I = j + i * n;
        double w[4] = {al * c.beta(x - dx / 2, y) / (dx * dx), al * c.beta(x + dx / 2, y) / (dx * dx), al * c.beta(x, y - dy / 2) / (dy * dy), al * c.beta(x, y + dy / 2) / (dy * dy)};
        A(I, I) += c.lambda(x, y);
        int ii[4] = {i - 1, i + 1, i, i}, jj[4] = {j, j, j - 1, j + 1};
        for (int d = 0; d < 4; d++) {
            if (ii[d] < 0 || jj[d] < 0 || ii[d] >= n || jj[d] >= n) { // face value g at distance h/2
                A(I, I) -= 2 * w[d]; G(I, d * n + (d < 2 ? j : i)) -= 2 * w[d];
            } else { A(I, I) -= w[d]; A(I, jj[d] + ii[d] * n) += w[d]; }
        }
    }
}
// derivative along the axis on each boundary face from u and g: row s*n+k ; D = Du*u + Dg*g
inline void patch_flux(int n, double dx, double dy, Dense& Du, Dense& Dg) {
    Du = Dense(4 * n, n * n); Dg = Dense(4 * n, 4 * n);
    for (int k = 0; k < n; k++) {
        Du(0 * n + k, k) = 2 / dx;                  Dg(k, k) = -2 / dx;
        Du(1 * n + k, k + (n - 1) * n) = -2 / dx;   Dg(n + k, n + k) = 2 / dx;
        Du(2 * n + k, k * n) = 2 / dy;              Dg(2 * n + k, 2 * n + k) = -2 / dy;
        Du(3 * n + k, (n - 1) + k * n) = -2 / dy;   Dg(3 * n + k, 3 * n + k) = 2 / dy;
    }
}
// one-sided transfer on one side with n fine cells
inline Dense ref_f2c(int nf) { Dense L(nf / 2, nf); for (int i = 0; i < nf / 2; i++) L(i, 2 * i) = L(i, 2 * i + 1) = 0.5; return L; }
inline Dense ref_c2f(int nf) {
    int nc = nf / 2; Dense L(nf, nc);
    for (int i = 1; i + 1 < nf; i++) { int j = i / 2; int o = i % 2 ? j + 1 : j - 1; L(i, j) = 0.75; L(i, o) = 0.25; }
    if (nc >= 3) { double e[3] = {1.40625, -0.5625, 0.15625}; for (int k = 0; k < 3; k++) { L(0, k) = e[k]; L(nf - 1, nc - 1 - k) = e[k]; } }
    else if (nc == 2) { L(0, 0) = L(3, 1) = 1.25; L(0, 1) = L(3, 0) = -0.25; }
    else { L(0, 0) = L(1, 0) = 1; }
    return L;
}
inline Dense block4(const Dense& L) { Dense B(4 * L.n, 4 * L.m); for (int s = 0; s < 4; s++) for (int i = 0; i < L.n; i++) for (int j = 0; j < L.m; j++) B(s * L.n + i, s * L.m + j) = L(i, j); return B; }

// Composite reference: one global linear system for all interface traces and the boundary trace; no recursion of
// Schur complements.  data: rhs per leaf (by path), boundary r per root face, kinds per side.
struct Problem { std::string shape; int n; Box box; Coef coef; std::string kinds; };
struct Reference {
    const Problem& P; std::vector<trees::Cell> cells; std::map<std::string, int> id;
    std::map<std::string, int> size;          // own trace resolution per side
    std::map<std::string, Dense> g;           // own trace as linear map of unknowns
    std::map<std::string, Dense> T, Hmap;     // leaf: flux = T g + (flux of f)
    std::map<std::string, Dense> solA, solG;
    int nu = 0, M = 0; std::map<std::string, int> off;
    Dense K; std::map<std::string, Dense> Fl; // flux rows linear in unknowns
    // the leaves' operators are those of the finite-volume scheme unless given (T: trace to flux, H: load to flux, XG: trace to solution, XF: load to solution)
    using LeafOps = std::function<void(const trees::Cell&, Dense& T, Dense& H, Dense& XG, Dense& XF)>;
    Reference(const Problem& P, LeafOps ops = nullptr) : P(P) {
        cells = trees::preorder(P.shape);
        for (int k = (int) cells.size() - 1; k >= 0; k--) {
            auto& c = cells[k];
            if (c.leaf) size[c.path] = P.n;
            else size[c.path] = 2 * coarse(c.path);
        }
        M = size["0"]; nu = 4 * M;
        for (auto& c : cells) if (!c.leaf) { off[c.path] = nu; nu += 4 * coarse(c.path); }
        Dense g0(4 * M, nu); for (int i = 0; i < 4 * M; i++) g0(i, i) = 1;
        g["0"] = g0;
        for (auto& c : cells) if (!c.leaf) push(c.path);
        for (auto& c : cells) if (c.leaf && ops) { ops(c, T[c.path], Hmap[c.path], solG[c.path], solA[c.path]); Fl[c.path] = mul(T[c.path], g[c.path]); }
        else if (c.leaf) {
            double h = P.box.x1 - P.box.x0, v = P.box.y1 - P.box.y0;
            double dx = h * c.s / (double) trees::ROOT / P.n, dy = v * c.s / (double) trees::ROOT / P.n, x0 = P.box.x0 + h * c.x / (double) trees::ROOT, y0 = P.box.y0 + v * c.y / (double) trees::ROOT;
            Dense A, G, Du, Dg; patch_system(P.n, x0, y0, dx, dy, P.coef, A, G); patch_flux(P.n, dx, dy, Du, Dg);
            int N = P.n * P.n; Dense R(N, 4 * P.n + N);
            for (int i = 0; i < N; i++) { for (int j = 0; j < 4 * P.n; j++) R(i, j) = G(i, j); R(i, 4 * P.n + i) = 1; }
            Dense X = lu_solve(A, R); Dense XG(N, 4 * P.n), XF(N, N);
            for (int i = 0; i < N; i++) { for (int j = 0; j < 4 * P.n; j++) XG(i, j) = X(i, j); for (int j = 0; j < N; j++) XF(i, j) = X(i, 4 * P.n + j); }
            Dense TT = mul(Du, XG); for (size_t k = 0; k < TT.a.size(); k++) TT.a[k] += Dg.a[k];
            T[c.path] = TT; Hmap[c.path] = mul(Du, XF); solA[c.path] = XF; solG[c.path] = XG;
            Fl[c.path] = mul(TT, g[c.path]);
        }
        // fluxes bottom-up, equations
        K = Dense(nu, nu);
        for (int k = (int) cells.size() - 1; k >= 0; k--) if (!cells[k].leaf) {
            auto& p = cells[k].path; int s = coarse(p);
            std::vector<Dense> cf; for (int q = 0; q < 4; q++) cf.push_back(to_coarse(p + char('0' + q), s, Fl.at(p + char('0' + q))));
            static const int ifc[4][4] = {{0, 3, 2, 2}, {1, 3, 3, 2}, {0, 1, 1, 0}, {2, 1, 3, 0}}; // child,side | child,side
            for (int e = 0; e < 4; e++) for (int i = 0; i < s; i++) for (int u = 0; u < nu; u++)
                K(off[p] + e * s + i, u) = cf[ifc[e][0]](ifc[e][1] * s + i, u) - cf[ifc[e][2]](ifc[e][3] * s + i, u);
            Fl[p] = assemble(s, cf, nu);
        }
        for (int sd = 0; sd < 4; sd++) { double a, b; for (int i = 0; i < M; i++) { bc_ab(P.kinds[sd], sd, (i + .5) / M, &a, &b); int r = sd * M + i; for (int u = 0; u < nu; u++) K(r, u) = a * g["0"](r, u) + b * Fl["0"](r, u); } }
    }
    int coarse(const std::string& p) { int s = 1 << 30; for (int q = 0; q < 4; q++) s = std::min(s, size.at(p + char('0' + q))); return s; }
    // child's flux averaged down to resolution s
    Dense to_coarse(const std::string& c, int s, Dense f) { for (int r = size.at(c); r > s; r /= 2) f = mul(block4(ref_f2c(r)), f); return f; }
    static Dense assemble(int s, const std::vector<Dense>& c, int cols) {
        // parent's side order W E S N from the children's exterior sides
        static const int ext[8][2] = {{0, 0}, {2, 0}, {1, 1}, {3, 1}, {0, 2}, {1, 2}, {2, 3}, {3, 3}};
        Dense r(8 * s, cols);
        for (int b = 0; b < 8; b++) for (int i = 0; i < s; i++) for (int u = 0; u < cols; u++) r(b * s + i, u) = c[ext[b][0]](ext[b][1] * s + i, u);
        return r;
    }
    void push(const std::string& p) {
        int s = coarse(p); const Dense& gp = g.at(p); int o = off.at(p);
        // trace sources for child q, side d: >=0: parent block, <0: interface -(e+1)
        static const int src[4][4] = {{0, -3, 4, -1}, {-3, 2, 5, -2}, {1, -4, -1, 6}, {-4, 3, -2, 7}};
        for (int q = 0; q < 4; q++) {
            Dense c(4 * s, nu);
            for (int d = 0; d < 4; d++) for (int i = 0; i < s; i++) {
                int k = src[q][d];
                if (k < 0) c(d * s + i, o + (-k - 1) * s + i) = 1;
                else for (int u = 0; u < nu; u++) c(d * s + i, u) = gp(k * s + i, u);
            }
            std::string cp = p + char('0' + q);
            for (int r = s; r < size.at(cp); r *= 2) c = mul(block4(ref_c2f(2 * r)), c);
            g[cp] = c;
        }
    }
    // f: per leaf vector n*n ; r: 4*M boundary data
    Sol solve(const std::map<std::string, std::vector<double>>& f, const std::vector<double>& r) {
        Dense b(nu, 1); std::map<std::string, Dense> h;
        for (auto& c : cells) if (c.leaf) { Dense fv(P.n * P.n, 1); fv.a = f.at(c.path); h[c.path] = mul(Hmap[c.path], fv); }
        for (int k = (int) cells.size() - 1; k >= 0; k--) if (!cells[k].leaf) {
            auto& p = cells[k].path; int s = coarse(p); std::vector<Dense> cf;
            for (int q = 0; q < 4; q++) cf.push_back(to_coarse(p + char('0' + q), s, h.at(p + char('0' + q))));
            static const int ifc[4][4] = {{0, 3, 2, 2}, {1, 3, 3, 2}, {0, 1, 1, 0}, {2, 1, 3, 0}};
            for (int e = 0; e < 4; e++) for (int i = 0; i < s; i++) b(off[p] + e * s + i, 0) = -(cf[ifc[e][0]](ifc[e][1] * s + i, 0) - cf[ifc[e][2]](ifc[e][3] * s + i, 0));
            h[p] = assemble(s, cf, 1);
        }
        for (int sd = 0; sd < 4; sd++) { double a, bb; for (int i = 0; i < M; i++) bc_ab(P.kinds[sd], sd, (i + .5) / M, &a, &bb), b(sd * M + i, 0) = r[sd * M + i] - bb * h["0"](sd * M + i, 0); }
        Dense X = lu_solve(K, b); Sol out;
        for (auto& c : cells) if (c.leaf) {
            Dense gl = mul(g[c.path], X); Dense u = mul(solG[c.path], gl);
            Dense fv(P.n * P.n, 1); fv.a = f.at(c.path); Dense uf = mul(solA[c.path], fv);
            for (size_t i = 0; i < u.a.size(); i++) u.a[i] += uf.a[i];
            out[c.path] = u.a;
        }
        return out;
    }
};
inline void leaf_geom(const Problem& P, const trees::Cell& c, double& x0, double& y0, double& dx, double& dy) {
    double h = P.box.x1 - P.box.x0, v = P.box.y1 - P.box.y0;
    dx = h * c.s / (double) trees::ROOT / P.n; dy = v * c.s / (double) trees::ROOT / P.n; x0 = P.box.x0 + h * c.x / (double) trees::ROOT; y0 = P.box.y0 + v * c.y / (double) trees::ROOT;
}
inline std::map<std::string, std::vector<double>> leaf_rhs(const Problem& P, F2 f) {
    std::map<std::string, std::vector<double>> r;
    for (auto& c : trees::leaves(P.shape)) {
        double x0, y0, dx, dy; leaf_geom(P, c, x0, y0, dx, dy);
        std::vector<double> v(P.n * P.n);
        for (int i = 0; i < P.n; i++) for (int j = 0; j < P.n; j++) v[j + i * P.n] = f(x0 + (i + .5) * dx, y0 + (j + .5) * dy);
        r[c.path] = v;
    }
    return r;
}
// boundary data r at the M faces of each side
inline std::vector<double> root_bc(const Problem& P, int M, std::function<double(int, double, double)> r) {
    std::vector<double> v(4 * M); double dx = (P.box.x1 - P.box.x0) / M, dy = (P.box.y1 - P.box.y0) / M;
    for (int i = 0; i < M; i++) {
        v[i] = r(0, P.box.x0, P.box.y0 + (i + .5) * dy); v[M + i] = r(1, P.box.x1, P.box.y0 + (i + .5) * dy);
        v[2 * M + i] = r(2, P.box.x0 + (i + .5) * dx, P.box.y0); v[3 * M + i] = r(3, P.box.x0 + (i + .5) * dx, P.box.y1);
    }
    return v;
}
inline double diff(const Sol& a, const Sol& b, std::string* where = nullptr, double scale0 = 1) {
    double e = 0, sc = scale0;
    if (a.size() != b.size()) return 1e300;
    for (auto& [k, v] : b) for (double x : v) sc = std::max(sc, fabs(x));
    for (auto& [k, v] : b) {
        auto it = a.find(k);
        if (it == a.end() || it->second.size() != v.size()) { if (where) *where = k + " (missing or wrong size)"; return 1e300; }
        for (size_t i = 0; i < v.size(); i++) {
            double d = fabs(it->second[i] - v[i]);
            if (!(d <= e)) { e = std::isnan(d) ? 1e300 : d; if (where) *where = vk::cat(k, " cell ", i, ": got ", it->second[i], ", expected ", v[i]); }
        }
    }
    return sc > 0 ? e / sc : e;
}
