// C04 (--part leaf), C19 (--part transfer), C20 (--part grid).
#include "hps.hpp"
using namespace vk;
static const std::vector<std::pair<std::string, Box>>& boxes() {
    static std::vector<std::pair<std::string, Box>> b = {{"unit", {-1, 1, -1, 1}}, {"rect", {0.5, 2.5, -1, 0.25}}, {"tiny", {0.3, 0.301, -0.2, -0.198}}, {"wide", {-100, 140, 5, 45}},
        {"micro", {1e-6, 1.5e-6, -2e-6, 1e-6}}, {"nano", {-1e-9, 1e-9, 0, 6e-9}}, {"flat", {0, 64, 2, 2.001}}, {"tall", {-3, -2.99, -8e3, 8e3}}, {"giga", {-1e9, 2e9, 1e8, 9e8}}};
    return b;
}
static const std::vector<Coef>& lcoefs() {
    static std::vector<Coef> c = [] {
        auto v = coefs();
        v.push_back({"steep", [](double x, double y) { return 2.0 + sin(5 * x) * 0.9; }, [](double x, double y) { return exp(0.02 * x) * (1.2 + cos(3 * y + x)); }, [](double x, double y) { return -fabs(x * y) - 0.1; }, false});
        v.push_back({"pos", [](double, double) { return 1.0; }, [](double x, double) { return x < 0.1234567 ? 1.0 : 7.0; }, [](double, double) { return 0.03; }, false});
        return v;
    }();
    return c;
}
static ef::Vector<double> vec(const std::vector<double>& v) { ef::Vector<double> r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static double mx(const std::vector<double>& v) { double m = 0; for (double x : v) m = std::max(m, fabs(x)); return m; }
static double err(const ef::Vector<double>& gotc, const std::vector<double>& want, double scale) {
    auto& got = const_cast<ef::Vector<double>&>(gotc);
    if (got.size() != want.size()) return 1e300;
    double e = 0; auto& d = got.data();
    for (size_t i = 0; i < want.size(); i++) { double x = fabs(d[i] - want[i]); if (!(x <= e)) e = std::isnan(x) ? 1e300 : x; }
    return e / (scale > 0 ? scale : 1);
}
struct LeafRef {
    int n; Box b; Dense A, G, Du, Dg, XG, XF, T, H;
    LeafRef(int n, Box b, const Coef& c) : n(n), b(b) {
        double dx = (b.x1 - b.x0) / n, dy = (b.y1 - b.y0) / n; int N = n * n;
        patch_system(n, b.x0, b.y0, dx, dy, c, A, G); patch_flux(n, dx, dy, Du, Dg);
        Dense R(N, 4 * n + N);
        for (int i = 0; i < N; i++) { for (int j = 0; j < 4 * n; j++) R(i, j) = G(i, j); R(i, 4 * n + i) = 1; }
        Dense X = lu_solve(A, R); XG = Dense(N, 4 * n); XF = Dense(N, N);
        for (int i = 0; i < N; i++) { for (int j = 0; j < 4 * n; j++) XG(i, j) = X(i, j); for (int j = 0; j < N; j++) XF(i, j) = X(i, 4 * n + j); }
        T = mul(Du, XG); for (size_t k = 0; k < T.a.size(); k++) T.a[k] += Dg.a[k];
        H = mul(Du, XF);
    }
    std::vector<double> u(const std::vector<double>& g, const std::vector<double>& f) const { return lin(XG, g, XF, f); }
    std::vector<double> flux(const std::vector<double>& g, const std::vector<double>& f) const { return lin(T, g, H, f); }
    static std::vector<double> lin(const Dense& P, const std::vector<double>& g, const Dense& Q, const std::vector<double>& f) {
        std::vector<double> r(P.n, 0.0);
        for (int j = 0; j < P.m; j++) if (g[j] != 0) for (int i = 0; i < P.n; i++) r[i] += P(i, j) * g[j];
        for (int j = 0; j < Q.m; j++) if (f[j] != 0) for (int i = 0; i < Q.n; i++) r[i] += Q(i, j) * f[j];
        return r;
    }
    double residual(const std::vector<double>& u, const std::vector<double>& g, const std::vector<double>& f) const {   // relative
        double e = 0, s = 1e-300;
        for (int i = 0; i < A.n; i++) { double r = -f[i], m = fabs(f[i]); for (int j = 0; j < A.m; j++) { r += A(i, j) * u[j]; m += fabs(A(i, j) * u[j]); } for (int j = 0; j < G.m; j++) { r -= G(i, j) * g[j]; m += fabs(G(i, j) * g[j]); } e = std::max(e, fabs(r)); s = std::max(s, m); if (std::isnan(r)) return 1e300; }
        return e / s;
    }
};
extern long hstcrt_calls, hstcrt_errors;
static Solver make_solver(const Coef& c, bool fish = false) { Solver s; s.solver_type = fish ? ef::FiniteVolumeSolverType::FISHPACK90 : ef::FiniteVolumeSolverType::FivePointStencil; s.alpha_function = c.alpha; s.beta_function = c.beta; s.lambda_function = c.lambda; return s; }
static const double TOL = 1e-8;
static void one_input(const std::string& key, Solver& S, Grid& grid, const LeafRef& R, const std::vector<double>& g, const std::vector<double>& f, const char* what, bool flux) {
    auto gv = vec(g), fv = vec(f); ctx().transitions++;
    auto u = S.solve(grid, gv, fv);
    auto want = R.u(g, f); double sc = mx(want);
    double e = err(u, want, sc);
    if (!(e < TOL)) violation(key + " solve", cat("solve: ", what, ": relative error ", e));
    else { double r = R.residual(u.data(), g, f); if (!(r < TOL)) violation(key + " residual", cat("solve: ", what, ": the stencil equations leave a relative residual ", r)); }
    if (gv.data() != g || fv.data() != f) violation(key + " input", cat("solve changed its input: ", what));
    if (flux) {
        auto h = S.mapD2N(grid, gv, fv); auto hw = R.flux(g, f); double hs = std::max(mx(hw), (mx(want) + mx(g)) * std::max(2 / grid.dx(), 2 / grid.dy()));
        e = err(h, hw, hs); ctx().transitions++;
        if (!(e < TOL)) violation(key + " mapD2N", cat("mapD2N: ", what, ": relative error ", e));
        if (mx(g) == 0) { auto p = S.particularNeumannData(grid, fv); e = err(p, hw, hs); if (!(e < TOL)) violation(key + " particular", cat("particularNeumannData: ", what, ": relative error ", e)); ctx().transitions++; }
        if (gv.data() != g || fv.data() != f) violation(key + " input", cat("mapD2N changed its input: ", what));
    }
}
static void check_T(const std::string& key, Solver& S, Grid& grid, const LeafRef& R, const char* when) {
    auto T = S.buildD2N(grid); ctx().transitions++;
    int m = 4 * R.n;
    if (T.nRows() != m || T.nCols() != m) { violation(key + " T shape", "buildD2N has the wrong shape"); return; }
    double sc = 0, e = 0; std::string w;
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { sc = std::max(sc, fabs(R.T(i, j))); double d = fabs(T(i, j) - R.T(i, j)); if (!(d <= e)) { e = std::isnan(d) ? 1e300 : d; w = cat("(", i, ",", j, "): got ", T(i, j), ", expected ", R.T(i, j)); } }
    if (!(e / sc < TOL)) violation(key + " buildD2N", cat("Dirichlet-to-Neumann matrix ", when, ": relative error ", e / sc, " at ", w));
}
static void leaf_case(int n, const std::string& bn, const Box& b, const Coef& c, bool fish) {
    bool th = ctx().thorough();
    std::string id = cat(fish ? "fishpack n=" : "leaf n=", n, " box=", bn, " coef=", c.name);
    if (!vk::begin(id)) return;
    sample(id); ctx().states++; ctx().traces++; hstcrt_calls = hstcrt_errors = 0;
    try {
        LeafRef R(n, b, c); Solver S = make_solver(c, fish); Grid grid(MPI_COMM_SELF, n, b.x0, b.x1, n, b.y0, b.y1);
        std::vector<double> g0(4 * n, 0.0), f0(n * n, 0.0);
        int sk = n <= 12 || th ? 1 : 7;   // large leaves: every seventh unit input in the quick tier
        for (int j = 0; j < 4 * n; j += sk) { auto g = g0; g[j] = 1; one_input(id, S, grid, R, g, f0, cat("unit trace ", j).c_str(), true); ctx().distinct++; }
        for (int j = 0; j < n * n; j += sk * sk) { auto f = f0; f[j] = 1; one_input(id, S, grid, R, g0, f, cat("unit load ", j).c_str(), n <= 8 || th || j % 7 == 0); ctx().distinct++; }
        for (int k = 0; k < 4; k++) { // combinations (linearity), different magnitudes, zero
            auto g = g0, f = f0; double sg[4] = {1, 1e6, 1e-6, 0}, sf[4] = {1, 1e-6, 1e6, 0};
            for (int j = 0; j < 4 * n; j++) g[j] = sg[k] * sin(1 + 3.7 * j + k); for (int j = 0; j < n * n; j++) f[j] = sf[k] * cos(2.3 * j - k);
            one_input(id, S, grid, R, g, f, cat("combination ", k).c_str(), true); ctx().distinct++;
        }
        for (size_t a = 0; a < traces().size(); a++) for (size_t l = 0; l < loads().size(); l++) { // data a shortcut might single out
            if (n > 5 && !th && a > 2 && l > 2 && (a + l) % 5) continue;
            if (n > 12 && !th && a + l > 2) continue;
            auto g = g0, f = f0; for (int s = 0; s < 4; s++) for (int k = 0; k < n; k++) g[s * n + k] = traces()[a].v(s, k, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) f[j + i * n] = loads()[l].v(0, 1, i, j, n);
            one_input(id, S, grid, R, g, f, cat("trace ", traces()[a].name, ", load ", loads()[l].name).c_str(), true); ctx().distinct++;
        }
        check_T(id, S, grid, R, "after other solves"); Solver S2 = make_solver(c, fish); check_T(id, S2, grid, R, "from a fresh solver");
        if (fish && (!hstcrt_calls || hstcrt_errors)) violation(id + " call", cat("FISHPACK90 was called ", hstcrt_calls, " times, ", hstcrt_errors, " of them with arguments it rejects"));
    } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
}
// histories: operators depend only on the grid given and the current coefficient functions and solver type
//  a/b/c: solve on grid a/b/c; A/B: buildD2N on grid a/b; p: particularNeumannData on b; k: switch coefficients; n: new solver object copied from the old; f: the other solver type
static void leaf_histories(const std::string& ops, int D, const std::vector<Coef>& cf, const char* tag) {
    std::vector<Box> gb = {boxes()[0].second, boxes()[1].second, {-1, 0, -1, 0}}; std::vector<int> gn = {4, 3, 4};
    std::map<int, std::unique_ptr<LeafRef>> refs;
    auto ref = [&](int g, int c) -> LeafRef& { auto& r = refs[g * 10 + c]; if (!r) r = std::make_unique<LeafRef>(gn[g], gb[g], cf[c]); return *r; };
    std::vector<int> ix(D, 0); std::string prev;
    for (;;) {
        std::string s; for (int i : ix) s += ops[i];
        char l = s.back();
        if (l != 'k' && l != 'n' && l != 'f') {
            std::string id = cat(tag, s);
            if (ctx().shard == 0 && !ctx().have_only) { size_t c = 0; while (c < prev.size() && prev[c] == s[c]) c++; ctx().states += s.size() - c; prev = s; }
            if (vk::begin(id)) {
                if (ctx().samples.size() < 5) sample(id);
                ctx().distinct++; ctx().traces++;
                try {
                    size_t c = 0; auto S = std::make_unique<Solver>(make_solver(cf[0]));
                    std::vector<Grid> G; for (int g = 0; g < 3; g++) G.emplace_back(MPI_COMM_SELF, gn[g], gb[g].x0, gb[g].x1, gn[g], gb[g].y0, gb[g].y1);
                    for (size_t i = 0; i < s.size(); i++) {
                        char o = s[i]; std::string key = cat(tag, s.substr(0, i + 1));
                        if (o == 'k') { c = (c + 1) % cf.size(); auto& q = cf[c]; S->alpha_function = q.alpha; S->beta_function = q.beta; S->lambda_function = q.lambda; continue; }
                        if (o == 'n') { S = std::make_unique<Solver>(*S); continue; }
                        if (o == 'f') { S->solver_type = S->solver_type == ef::FiniteVolumeSolverType::FISHPACK90 ? ef::FiniteVolumeSolverType::FivePointStencil : ef::FiniteVolumeSolverType::FISHPACK90; continue; }
                        int g = (o == 'a' || o == 'A') ? 0 : (o == 'c' ? 2 : 1); LeafRef& R = ref(g, c); int n = gn[g];
                        std::vector<double> gv(4 * n), fv(n * n); for (int j = 0; j < 4 * n; j++) gv[j] = sin(1 + j + i); for (int j = 0; j < n * n; j++) fv[j] = cos(j * 2.0 + i);
                        if (o == 'A' || o == 'B') check_T(key, *S, G[g], R, "in a history");
                        else if (o == 'p') one_input(key, *S, G[g], R, std::vector<double>(4 * n, 0.0), fv, "in a history", true);
                        else one_input(key, *S, G[g], R, gv, fv, "in a history", i % 2);
                    }
                } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
            }
        }
        int p = D - 1; while (p >= 0 && ++ix[p] == (int) ops.size()) ix[p--] = 0;
        if (p < 0) break;
    }
}
static void leaf_part() {
    bool th = ctx().thorough();
    for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24}) for (auto& [bn, b] : boxes()) for (auto& c : lcoefs()) {
        if (!th && n > 12 && (bn != "rect" || (c.name != "var" && c.name != "steep"))) continue;
        if (bn == "giga" && c.name != "const") continue;   // the other coefficient functions overflow there
        if (c.name.compare(0, 4, "bump") == 0 && b.x1 - b.x0 > 10) continue;   // not resolved there
        leaf_case(n, bn, b, c, false);
    }
    // FISHPACK90: alpha = beta = 1 and constant lambda, at least 3 cells per side
    auto con = [](const char* nm, double l) { return Coef{nm, [](double, double) { return 1.0; }, [](double, double) { return 1.0; }, [l](double, double) { return l; }, true}; };
    std::vector<Coef> fc = {con("poisson", 0), con("minus1", -1), con("minus30", -30), con("plus", 0.03)};
    for (int n : {3, 4, 5, 6, 7, 8, 10, 12, 16, 20}) for (auto& [bn, b] : boxes()) for (auto& c : fc) if ((th || n <= 12 || (bn == "rect" && c.name == "minus1")) && (bn != "giga" || c.name == "poisson")) leaf_case(n, bn, b, c, true);
    leaf_histories("abcABpkn", th ? 5 : 4, {lcoefs()[2], lcoefs()[1], lcoefs()[12]}, "leafhist ");
    leaf_histories("fabABpkn", th ? 5 : 4, {fc[1], fc[0], fc[2]}, "fishhist ");
}
// ---- C19 -------------------------------------------------------------------------------------------
template <class T> static void transfer(const std::string& id, int nf) {
    int nc = nf / 2; double tol = sizeof(T) == 4 ? 1e-5 : 1e-12; ctx().transitions += (long) nf * nc;
    ef::InterpolationMatrixFine2Coarse<T> D(nc); ef::InterpolationMatrixCoarse2Fine<T> U(nf);
    if (D.nRows() != nc || D.nCols() != nf) { violation(id, "fine-to-coarse has the wrong shape"); return; }
    if (U.nRows() != nf || U.nCols() != nc) { violation(id, "coarse-to-fine has the wrong shape"); return; }
    for (int i = 0; i < nc; i++) for (int j = 0; j < nf; j++) { T w = (j / 2 == i) ? 0.5 : 0; if (D(i, j) != w) { violation(id, cat("fine-to-coarse entry (", i, ",", j, ") is ", D(i, j))); return; } }
    for (int i = 0; i < nf; i++) {
        double s0 = 0, s1 = 0, xi = (i + 0.5) / 2; int nz = 0;
        for (int j = 0; j < nc; j++) { double v = U(i, j); s0 += v; s1 += v * (j + 0.5); if (v != 0) {
            nz++;
            int lo, hi; // admissible stencil
            if (i == 0) { lo = 0; hi = 2; } else if (i == nf - 1) { lo = nc - 3; hi = nc - 1; } else { int c = i / 2; lo = i % 2 ? c : c - 1; hi = lo + 1; }
            if (j < lo || j > hi) { violation(id, cat("coarse-to-fine entry (", i, ",", j, ") = ", v, " lies outside the stencil")); return; }
        } }
        if (!(fabs(s0 - 1) < tol)) { violation(id, cat("coarse-to-fine row ", i, " does not reproduce constants: ", s0)); return; }
        if (nc >= 2 && !(fabs(s1 - xi) < tol * nf)) { violation(id, cat("coarse-to-fine row ", i, " does not reproduce linear functions: ", s1, " instead of ", xi)); return; }
    }
    if constexpr (sizeof(T) == 8) {
    // through the library's own product: coarsen(refine(linear)) = linear, coarsen = average of each pair
    ef::Vector<T> c(nc), fine(nf); for (int j = 0; j < nc; j++) c[j] = T(1.25 - 0.5 * (nc == 1 ? 0 : j)); for (int j = 0; j < nf; j++) fine[j] = T(sin(1.0 + j));
    ef::Matrix<T> Dm = D, Um = U; ef::Vector<T> up = Um * c; ef::Vector<T> back = Dm * up; ef::Vector<T> avg = Dm * fine;
    for (int j = 0; j < nc; j++) if (!(fabs(back[j] - c[j]) < tol * (nf + 4))) { violation(id, cat("coarsening the refined linear data changes cell ", j)); return; }
    for (int j = 0; j < nf; j++) { double w = nc == 1 ? c[0] : 1.25 - 0.5 * ((j + 0.5) / 2 - 0.5); if (!(fabs(up[j] - w) < tol * (nf + 4))) { violation(id, cat("refined linear data differ at cell ", j)); return; } }
    for (int j = 0; j < nc; j++) if (!(fabs(avg[j] - (fine[2 * j] + fine[2 * j + 1]) / 2) < tol)) { violation(id, cat("coarsened data are not the pair average at ", j)); return; }
    }
}
static void transfer_part() {
    int mxn = ctx().thorough() ? 768 : 256;
    std::vector<int> sizes; for (int nf = 2; nf <= mxn; nf += 2) sizes.push_back(nf);
    for (int nf : {300, 384, 500, 510, 512, 514, 516, 640, 768, 1000, 1022, 1024, 1026, 1028, 1536, 2048, 2050}) if (nf > mxn) sizes.push_back(nf);
    for (int nf : sizes) for (int t = 0; t < 2; t++) {
        std::string id = cat("transfer nfine=", nf, t ? " float" : " double");
        if (!vk::begin(id)) continue;
        sample(id); ctx().distinct++; ctx().states++; ctx().traces++;
        try {
            if (!t) transfer<double>(id, nf);
#ifdef VK_GENERIC
            else transfer<float>(id, nf);
#endif
        } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
    }
    // the transfers the solver performs: a parent whose children have sizes s*2^k; every tag combination, through a real merge
    for (int n : {2, 3, 4, 6, 8}) for (int m = 1; m < 16; m++) for (int deep = 1; deep <= 2; deep++) {
        std::string t = "S", d = deep == 1 ? "SLLLL" : "SSLLLLSLLLLSLLLLSLLLL"; for (int q = 0; q < 4; q++) t += (m >> q & 1) ? d : std::string("L");
        if (deep == 2 && (n > 3 || (m & (m - 1)))) continue;
        std::string id = cat("merge transfer ", t, " n=", n);
        if (!vk::begin(id)) continue;
        ctx().distinct++; ctx().states++; ctx().traces++;
        try {
            World w(t, n, domains()[1].second, coefs()[0]); w.hps->setupStage(); w.hps->buildStage();
            // linear data u: T maps its trace to its flux, also after coarsening; every branch
            for (auto& [path, nd] : w.mesh->quadtree.map) {
                auto& T = nd->data.matrixT(); int s = T.nRows() / 4; auto& g = nd->data.grid(); ctx().transitions++;
                if (s != nd->data.size() || T.nRows() != T.nCols()) { violation(id, cat("operator of ", path, " has ", T.nRows(), " rows for a patch of size ", nd->data.size())); continue; }
                std::vector<double> tr(4 * s), fl(4 * s); double dx = (g.xUpper() - g.xLower()) / s, dy = (g.yUpper() - g.yLower()) / s;
                auto u = [](double x, double y) { return 0.7 - 1.3 * x + 2.1 * y; };
                for (int i = 0; i < s; i++) { tr[i] = u(g.xLower(), g.yLower() + (i + .5) * dy); tr[s + i] = u(g.xUpper(), g.yLower() + (i + .5) * dy); tr[2 * s + i] = u(g.xLower() + (i + .5) * dx, g.yLower()); tr[3 * s + i] = u(g.xLower() + (i + .5) * dx, g.yUpper()); fl[i] = fl[s + i] = -1.3; fl[2 * s + i] = fl[3 * s + i] = 2.1; }
                auto v = vec(tr); ef::Vector<double> h = T * v; double e = err(h, fl, 2.1);
                if (!(e < 1e-7)) violation(id, cat("the merged and coarsened operator of ", path, " does not map a linear trace to its flux: error ", e));
            }
        } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
    }
}
// ---- C20 -------------------------------------------------------------------------------------------
static bool close(double a, double b, double s = 1) { return fabs(a - b) <= 1e-12 * std::max({s, fabs(a), fabs(b)}); }
static std::string grid_diff(Grid& g, int nx, int ny, Box b, bool exact = true) {
    auto eq = [&](double a, double c) { return exact ? a == c : close(a, c, std::max(fabs(b.x1 - b.x0), fabs(b.y1 - b.y0))); };
    if (g.nx() != nx || g.ny() != ny) return cat("size ", g.nx(), "x", g.ny(), " instead of ", nx, "x", ny);
    if (!eq(g.xLower(), b.x0) || !eq(g.xUpper(), b.x1) || !eq(g.yLower(), b.y0) || !eq(g.yUpper(), b.y1)) return cat("bounds [", g.xLower(), ",", g.xUpper(), "]x[", g.yLower(), ",", g.yUpper(), "] instead of [", b.x0, ",", b.x1, "]x[", b.y0, ",", b.y1, "]");
    double dx = (b.x1 - b.x0) / nx, dy = (b.y1 - b.y0) / ny;
    if (!close(g.dx(), dx, 0) || !close(g.dy(), dy, 0)) return cat("spacing ", g.dx(), ",", g.dy());
    for (int i = -1; i <= std::max(nx, ny); i++) {
        double x = b.x0 + (i + .5) * dx, y = b.y0 + (i + .5) * dy;
        if (i <= nx && !close(g.point(ef::DimensionIndex::X, i), x, fabs(b.x1 - b.x0))) return cat("x point ", i, " is ", g.point(ef::DimensionIndex::X, i));
        if (i <= ny && !close(g.point(ef::DimensionIndex::Y, i), y, fabs(b.y1 - b.y0))) return cat("y point ", i, " is ", g.point(ef::DimensionIndex::Y, i));
        if (i >= 0 && i < nx && g(0, i) != g.point(ef::DimensionIndex::X, i)) return "operator() and point differ in x";
        if (i >= 0 && i < ny && g(1, i) != g.point(ef::DimensionIndex::Y, i)) return "operator() and point differ in y";
    }
    return "";
}
// patch data: 4 matrices, 6 vectors, n_coarsens
static ef::Matrix<double>& pm(Patch& p, int k) { switch (k) { case 0: return p.matrixX(); case 1: return p.matrixH(); case 2: return p.matrixS(); default: return p.matrixT(); } }
static ef::Vector<double>& pv(Patch& p, int k) { switch (k) { case 0: return p.vectorU(); case 1: return p.vectorG(); case 2: return p.vectorV(); case 3: return p.vectorF(); case 4: return p.vectorH(); default: return p.vectorW(); } }
struct PModel { std::vector<std::vector<double>> m = std::vector<std::vector<double>>(10); int nr[4] = {0, 0, 0, 0}; int nc = 0, nx = 0, ny = 0; Box b{0, 0, 0, 0}; };
static std::string patch_diff(Patch& p, const PModel& M) {
    for (int k = 0; k < 4; k++) { auto& A = pm(p, k); if (A.nRows() != M.nr[k] || A.nRows() * A.nCols() != M.m[k].size()) return cat("matrix ", k, " has the wrong shape"); auto D = A.data(); for (size_t i = 0; i < M.m[k].size(); i++) if (D[i] != M.m[k][i]) return cat("matrix ", k, " entry ", i); }
    for (int k = 0; k < 6; k++) if (pv(p, k).data() != M.m[4 + k] || pv(p, k).size() != M.m[4 + k].size()) return cat("vector ", k, " differs");
    if (p.n_coarsens != M.nc) return "n_coarsens differs";
    if (M.nx && p.size() != (M.nx >> M.nc)) return cat("size() is ", p.size());
    if (p.grid().nx() != M.nx || p.grid().ny() != M.ny || p.grid().xLower() != M.b.x0 || p.grid().xUpper() != M.b.x1 || p.grid().yLower() != M.b.y0 || p.grid().yUpper() != M.b.y1) return "grid differs";
    return "";
}
static void fill(Patch& p, PModel& M, int k, double base) { // set datum k
    if (k < 4) { int r = 2 + (int) base % 2, c = 3; ef::Matrix<double> A(r, c, 0); std::vector<double> v; for (int i = 0; i < r * c; i++) { A(i / c, i % c) = base * 10 + i; v.push_back(base * 10 + i); } pm(p, k) = A; M.m[k] = v; M.nr[k] = r; }
    else if (k < 10) { std::vector<double> v; for (int i = 0; i < 2 + (int) base % 3; i++) v.push_back(base + i * .5 + k); pv(p, k - 4) = ef::Vector<double>(v); M.m[k] = v; }
    else if (k == 10) { p.n_coarsens = M.nc = (int) base % 3; }
    else { Box b{base, base + 2, -base, -base + 1}; p.grid() = Grid(MPI_COMM_SELF, 8, b.x0, b.x1, 12, b.y0, b.y1); M.nx = 8; M.ny = 12; M.b = b; }
}
static void grid_part() {
    bool th = ctx().thorough();
    std::vector<Box> bx; for (auto& b : boxes()) bx.push_back(b.second); bx.push_back({0, 1, 0, 1}); bx.push_back({-3, -2.9, 1e6, 1e6 + 8});
    int mx = th ? 24 : 14;
    std::vector<std::pair<int, int>> sizes; for (int nx = 1; nx <= mx; nx++) for (int ny = 1; ny <= mx; ny++) sizes.push_back({nx, ny});
    for (int n : {31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 5000}) for (int m : {n, 1, 2, 7, 64, 130, 5000 - n / 2}) { sizes.push_back({n, m}); if (m != n) sizes.push_back({m, n}); }
    for (auto [nx, ny] : sizes) for (size_t k = 0; k < bx.size(); k++) {
        std::string id = cat("grid ", nx, "x", ny, " box", k);
        if (!vk::begin(id)) continue;
        sample(id); ctx().distinct++; ctx().states += 4; ctx().traces++; ctx().transitions += 4;
        Box b = bx[k]; Grid g(MPI_COMM_SELF, nx, b.x0, b.x1, ny, b.y0, b.y1); std::string d;
        if ((d = grid_diff(g, nx, ny, b)) != "") violation(id, "constructed: " + d);
        Grid h(g); if ((d = grid_diff(h, nx, ny, b)) != "") violation(id, "copied: " + d);
        Grid m; m = g; if ((d = grid_diff(m, nx, ny, b)) != "") violation(id, "assigned: " + d);
        h = Grid(MPI_COMM_SELF, 3, 0, 1, 5, 2, 4); if ((d = grid_diff(g, nx, ny, b)) != "") violation(id, "original after its copy was changed: " + d);
        bool thrown = false; try { g.point((ef::DimensionIndex) 2, 0); } catch (std::exception&) { thrown = true; } if (!thrown) violation(id, "an invalid dimension is accepted");
        if (nx == ny) { Patch p(MPI_COMM_SELF, g); if ((d = grid_diff(p.grid(), nx, ny, b)) != "") violation(id, "patch: " + d);
            ef::FiniteVolumeNodeFactory nf(MPI_COMM_SELF); auto* nd = nf.createNode(p, "0", 0, 0, 0); if ((d = grid_diff(nd->data.grid(), nx, ny, b)) != "") violation(id, "node: " + d); if (nd->path != "0" || nd->level != 0 || nd->pfirst != 0 || nd->plast != 0 || nd->leaf) violation(id, "createNode: wrong metadata"); delete nd; }
    }
    // node factory: every path up to a depth, all four children, parent rebuilt
    int depth = th ? 7 : 5;
    for (int nx : {2, 4, 5}) for (int ny : {4, 7}) for (size_t k = 0; k < bx.size(); k++) for (int q0 = 0; q0 < 4; q0++) {
        std::string id = cat("factory ", nx, "x", ny, " box", k, " first=", q0);
        if (!vk::begin(id)) continue;
        sample(id); ctx().distinct++; ctx().traces++;
        ef::FiniteVolumeNodeFactory nf(MPI_COMM_SELF); Box b = bx[k];
        Patch root(MPI_COMM_SELF, Grid(MPI_COMM_SELF, nx, b.x0, b.x1, ny, b.y0, b.y1)); root.vectorU() = ef::Vector<double>(3, 7.0);
        auto* r = nf.createNode(root, "0", 0, 3, 9);
        std::function<void(Node*, Box, int)> go = [&](Node* n, Box b, int lev) {
            double xm = (b.x0 + b.x1) / 2, ym = (b.y0 + b.y1) / 2; Box q[4] = {{b.x0, xm, b.y0, ym}, {xm, b.x1, b.y0, ym}, {b.x0, xm, ym, b.y1}, {xm, b.x1, ym, b.y1}};
            std::vector<Node*> ch; std::string d; ctx().states++;
            for (int c = 0; c < 4; c++) {
                auto* x = nf.createChildNode(n, c, c + lev, c + lev + 2); ch.push_back(x); ctx().transitions++;
                if ((d = grid_diff(x->data.grid(), nx, ny, q[c], false)) != "") violation(id + " child", cat("child ", c, " of ", n->path, ": ", d));
                if (x->path != n->path + char('0' + c) || x->level != lev + 1 || x->pfirst != c + lev || x->plast != c + lev + 2 || x->leaf) violation(id + " child meta", cat("child ", c, " of ", n->path, " has path ", x->path, " level ", x->level, " ranks ", x->pfirst, "-", x->plast));
                if (x->data.n_coarsens != 0) violation(id + " child meta", "a new child is marked as coarsened");
            }
            // siblings share their common corners exactly
            auto ex = [&](double u, double v) { return !close(u, v, std::max(fabs(b.x1 - b.x0), fabs(b.y1 - b.y0))); };
            for (int c = 0; c < 4; c++) { auto& g = ch[c]->data.grid(); auto& p = n->data.grid(); if ((c & 1 ? ex(g.xUpper(), p.xUpper()) || ex(g.xLower(), ch[c - 1]->data.grid().xUpper()) : ex(g.xLower(), p.xLower())) || (c & 2 ? ex(g.yUpper(), p.yUpper()) || ex(g.yLower(), ch[c - 2]->data.grid().yUpper()) : ex(g.yLower(), p.yLower()))) violation(id + " tile", cat("the children of ", n->path, " do not tile it")); }
            auto* p = nf.createParentNode(ch, 1, 4); ctx().transitions++;
            auto& pg = n->data.grid(); Box pb{pg.xLower(), pg.xUpper(), pg.yLower(), pg.yUpper()};
            if ((d = grid_diff(p->data.grid(), nx, ny, pb, false)) != "") violation(id + " parent", cat("parent rebuilt from the children of ", n->path, ": ", d));
            if (p->path != n->path || p->level != n->level || p->pfirst != 1 || p->plast != 4) violation(id + " parent meta", cat("parent of the children of ", n->path, " has path ", p->path, " level ", p->level));
            if ((d = grid_diff(n->data.grid(), nx, ny, b, false)) != "") violation(id + " parent intact", "creating children changed the parent");
            delete p;
            if (lev < depth) { for (int c = 0; c < 4; c++) if (lev > 0 || c == q0) go(ch[c], q[c], lev + 1); }
            else if (lev < 29 && nx == 4) { int c = (n->path.back() - '0' + (lev % 3 == q0 % 3)) & 3; bool chain = true; for (size_t i = 2; i < n->path.size() && i <= (size_t) depth; i++) chain = chain && n->path[i] == n->path[1]; if (chain) go(ch[c], q[c], lev + 1); }
            for (auto* x : ch) delete x;
        };
        try { go(r, b, 0); } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
        delete r;
    }
    // copies of patches with data of everyday and large sizes, each datum's size different
    for (int n : {1, 4, 8, 16, 31, 32, 33, 64, 65, 128, 200}) {
        std::string id = cat("large copies ", n); if (!vk::begin(id)) continue;
        sample(id); ctx().distinct++; ctx().traces++; ctx().states += 6; ctx().transitions += 6;
        PModel M; Patch p(MPI_COMM_SELF); M.nx = n; M.ny = n + 1; M.b = {0, 1, 2, 4}; p.grid() = Grid(MPI_COMM_SELF, n, 0, 1, n + 1, 2, 4);
        for (int k = 0; k < 4; k++) { int r = 4 * n + k, c = 2 * n + 3 * k; ef::Matrix<double> A(r, c, 0); M.m[k].resize(r * c); for (int i = 0; i < r * c; i++) A(i / c, i % c) = M.m[k][i] = k * 1e6 + i; pm(p, k) = A; M.nr[k] = r; }
        for (int k = 4; k < 10; k++) { for (int i = 0; i < n * n + k; i++) M.m[k].push_back(k * 1e6 + i); pv(p, k - 4) = ef::Vector<double>(M.m[k]); }
        std::string d; Patch c(p), e(c);
        if ((d = patch_diff(c, M)) != "") violation(id, "copy: " + d);
        for (int k = 0; k < 4; k++) pm(c, k)(pm(c, k).nRows() - 1, 0) = -1; for (int k = 0; k < 6; k++) pv(c, k)[pv(c, k).size() - 1] = -1;
        if ((d = patch_diff(p, M)) != "") violation(id, "original after its copy was changed: " + d);
        if ((d = patch_diff(e, M)) != "") violation(id, "copy of the copy: " + d);
        std::vector<Patch> v; for (int i = 0; i < 5; i++) v.push_back(p); for (auto& x : v) if ((d = patch_diff(x, M)) != "") violation(id, "in a container: " + d);
        Node nd(MPI_COMM_SELF, p, "012", 2, 0, 0), ne(nd); if ((d = patch_diff(ne.data, M)) != "" || ne.path != "012" || ne.level != 2) violation(id, "in a node: " + d);
    }
    // copies: every sequence of set / copy / assign over three patches
    // ops: set datum k of patch i (12*2), copy-construct j from i, assign j = i, self-assign, move into container and back
    struct Op { int kind, i, k; }; std::vector<Op> ops;
    for (int k : {0, 3, 4, 9, 10, 11}) for (int i = 0; i < 2; i++) ops.push_back({0, i, k});
    for (int i = 0; i < 2; i++) { ops.push_back({1, i, 0}); ops.push_back({2, i, 0}); ops.push_back({3, i, 0}); ops.push_back({4, i, 0}); }
    int D = th ? 5 : 4; std::vector<int> ix(D, 0);
    for (;;) {
        std::string s; for (int i : ix) s += char('a' + i);
        std::string id = "copies " + s;
        if (vk::begin(id)) {
            ctx().distinct++; ctx().traces++; ctx().states += 1; if (ctx().samples.size() < 6) sample(id);
            PModel M[2]; auto P0 = std::make_unique<Patch>(MPI_COMM_SELF), P1 = std::make_unique<Patch>(MPI_COMM_SELF); std::unique_ptr<Patch>* P[2] = {&P0, &P1};
            for (int i = 0; i < 2; i++) for (int k = 0; k < 12; k++) fill(**P[i], M[i], k, 1 + i + k % 4);
            int t = 0;
            for (int o : ix) {
                auto& op = ops[o]; int i = op.i, j = 1 - i; ctx().transitions++; t++;
                if (op.kind == 0) fill(**P[i], M[i], op.k, 3 + t + i);
                else if (op.kind == 1) { *P[j] = std::make_unique<Patch>(**P[i]); M[j] = M[i]; }
                else if (op.kind == 2) { Patch c(**P[i]); c.vectorW() = ef::Vector<double>(2, 9.0); Patch d(**P[i]); *P[j] = std::make_unique<Patch>(d); M[j] = M[i]; }
                else if (op.kind == 3) { std::vector<Patch> v; v.push_back(**P[i]); v.push_back(v[0]); v[0].matrixT() = ef::Matrix<double>(1, 1, 2); v[0].n_coarsens = 9; v.push_back(v[1]); *P[i] = std::make_unique<Patch>(v[2]); }
                else { Node a(MPI_COMM_SELF, **P[i], "0", 0, 0, 0); Node c(a); c.data.vectorU() = ef::Vector<double>(1, -5.0); c.data.grid() = Grid(MPI_COMM_SELF, 1, 0, 1, 1, 0, 1); Node e(a); e.data.matrixT() = ef::Matrix<double>(1, 1, 3); *P[j] = std::make_unique<Patch>(a.data); M[j] = M[i]; }
                for (int q = 0; q < 2; q++) { std::string d = patch_diff(**P[q], M[q]); if (d != "") violation(id, cat("after step ", t, " patch ", q, ": ", d)); }
            }
        }
        int p = D - 1; while (p >= 0 && ++ix[p] == (int) ops.size()) ix[p--] = 0;
        if (p < 0) break;
    }
}
int main(int argc, char** argv) {
    start(argc, argv);
    std::string mode = "leaf"; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "leaf") leaf_part(); else if (mode == "transfer") transfer_part(); else grid_part();
    return stop();
}
