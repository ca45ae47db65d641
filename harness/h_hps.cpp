// C01 / C02: the HPS solution on every mesh of the bounded space equals an independent reference.
#include "hps.hpp"
using namespace vk;
static std::vector<std::string> kinds_all() { std::vector<std::string> r; const char* k = "DNR"; for (int i = 0; i < 81; i++) { std::string s; int x = i; for (int j = 0; j < 4; j++) { s += k[x % 3]; x /= 3; } r.push_back(s); } return r; }
// words with kinds that vary along the side
static std::vector<std::string> kinds_varying(const std::string& abc) { std::vector<std::string> r; int b = abc.size(); for (int i = 0; i < b * b * b * b; i++) { std::string s; int x = i; for (int j = 0; j < 4; j++) { s += abc[x % b]; x /= b; } if (s.find_first_of("VMW") != std::string::npos) r.push_back(s); } return r; }

// Monolithic five-point system on the uniform global grid with face unknowns on the boundary eliminated per row.
static Sol monolithic(const Problem& P, int level, F2 f, std::function<double(int, double, double)> r) {
    int m = P.n << level; double dx = (P.box.x1 - P.box.x0) / m, dy = (P.box.y1 - P.box.y0) / m;
    int N = m * m, U = N + 4 * m; Dense A(U, U), b(U, 1);
    auto& c = P.coef;
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
        double x = P.box.x0 + (i + .5) * dx, y = P.box.y0 + (j + .5) * dy; int I = j + i * m;
        b(I, 0) = f(x, y); A(I, I) += c.lambda(x, y);
        int di[4] = {-1, 1, 0, 0}, dj[4] = {0, 0, -1, 1};
        for (int d = 0; d < 4; d++) {
            double h = d < 2 ? dx : dy; double w = c.alpha(x, y) * c.beta(x + di[d] * dx / 2, y + dj[d] * dy / 2) / (h * h);
            int i2 = i + di[d], j2 = j + dj[d];
            if (i2 >= 0 && i2 < m && j2 >= 0 && j2 < m) { A(I, I) -= w; A(I, j2 + i2 * m) += w; }
            else { int fI = N + d * m + (d < 2 ? j : i); A(I, I) -= 2 * w; A(I, fI) += 2 * w; }
        }
    }
    for (int d = 0; d < 4; d++) for (int k = 0; k < m; k++) {
        int row = N + d * m + k; double a, bb; bc_ab(P.kinds[d], d, (k + .5) / m, &a, &bb);
        double h = d < 2 ? dx : dy, sg = (d == 0 || d == 2) ? 1 : -1;
        int I = d == 0 ? k : d == 1 ? k + (m - 1) * m : d == 2 ? k * m : (m - 1) + k * m;
        A(row, row) = a - bb * sg * 2 / h; A(row, I) = bb * sg * 2 / h;
        double x = d == 0 ? P.box.x0 : d == 1 ? P.box.x1 : P.box.x0 + (k + .5) * dx, y = d == 2 ? P.box.y0 : d == 3 ? P.box.y1 : P.box.y0 + (k + .5) * dy;
        b(row, 0) = r(d, x, y);
    }
    Dense X = lu_solve(A, b); Sol s;
    for (auto& l : trees::leaves(P.shape)) {
        int i0 = (int) (l.x * (m / P.n) / trees::ROOT) * P.n, j0 = (int) (l.y * (m / P.n) / trees::ROOT) * P.n;
        std::vector<double> v(P.n * P.n);
        for (int i = 0; i < P.n; i++) for (int j = 0; j < P.n; j++) v[j + i * P.n] = X((j0 + j) + (i0 + i) * m, 0);
        s[l.path] = v;
    }
    return s;
}
// The same system for larger grids: the face unknowns eliminated, the rest banded.
extern "C" void dgbsv_(int* N, int* KL, int* KU, int* NRHS, double* AB, int* LDAB, int* IPIV, double* B, int* LDB, int* INFO);
static Sol monolithic_banded(const Problem& P, int level, F2 f, std::function<double(int, double, double)> r) {
    int m = P.n << level; double dx = (P.box.x1 - P.box.x0) / m, dy = (P.box.y1 - P.box.y0) / m; int N = m * m, ld = 3 * m + 1; auto& c = P.coef;
    std::vector<double> AB((size_t) ld * N, 0.0), b(N); auto A = [&](int i, int j) -> double& { return AB[(size_t) j * ld + 2 * m + i - j]; };
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) {
        double x = P.box.x0 + (i + .5) * dx, y = P.box.y0 + (j + .5) * dy; int I = j + i * m; b[I] = f(x, y); A(I, I) += c.lambda(x, y);
        int di[4] = {-1, 1, 0, 0}, dj[4] = {0, 0, -1, 1};
        for (int d = 0; d < 4; d++) {
            double h = d < 2 ? dx : dy; double w = c.alpha(x, y) * c.beta(x + di[d] * dx / 2, y + dj[d] * dy / 2) / (h * h); int i2 = i + di[d], j2 = j + dj[d];
            if (i2 >= 0 && i2 < m && j2 >= 0 && j2 < m) { A(I, I) -= w; A(I, j2 + i2 * m) += w; continue; }
            // a u_F + b du/dn = r with du/dx (du/dy) = +-(u_I - u_F) / (h/2)
            double a, bb; bc_ab(P.kinds[d], d, ((d < 2 ? j : i) + .5) / m, &a, &bb); double sg = (d == 0 || d == 2) ? 1 : -1, q = a - bb * sg * 2 / h;
            double fx = d == 0 ? P.box.x0 : d == 1 ? P.box.x1 : x, fy = d == 2 ? P.box.y0 : d == 3 ? P.box.y1 : y;
            A(I, I) += -2 * w - 2 * w * bb * sg * 2 / h / q; b[I] -= 2 * w * r(d, fx, fy) / q;
        }
    }
    int nr = 1, info = 0; std::vector<int> ip(N); dgbsv_(&N, &m, &m, &nr, AB.data(), &ld, ip.data(), b.data(), &N, &info); if (info) throw std::runtime_error("reference system singular");
    Sol s; for (auto& l : trees::leaves(P.shape)) { int i0 = (int) (l.x * (m / P.n) / trees::ROOT) * P.n, j0 = (int) (l.y * (m / P.n) / trees::ROOT) * P.n; std::vector<double> v(P.n * P.n); for (int i = 0; i < P.n; i++) for (int j = 0; j < P.n; j++) v[j + i * P.n] = b[(j0 + j) + (i0 + i) * m]; s[l.path] = v; }
    return s;
}
static Sol run(const Problem& P, F2 f, std::function<double(int, double, double)> r) {
    World w(P.shape, P.n, P.box, P.coef);
    ctx().states += w.mesh->quadtree.map.size(); ctx().transitions += 4;
    w.hps->setupStage(); w.hps->buildStage();
    w.hps->upwardsStage(std::function<double(double, double)>(f));
    w.hps->solveStage(std::function<double(int, double, double, double*, double*)>([&](int s, double x, double y, double* a, double* b) { bc_ab(P.kinds[s], s, side_t(P.box, s, x, y), a, b); return r(s, x, y); }));
    return w.solution();
}
static const double TOL = 1e-7;
// the load of the standard problem, of a size that it counts on small domains too
static F2 load1(const Box& q) { double g = 1 / ((q.x1 - q.x0) * (q.y1 - q.y0)), t = g > 16 ? g : 1; return [t](double x, double y) { return t * rhs_fn(1, x, y); }; }
static std::string pid(const char* t, const Problem& P, const std::string& dom) { return cat(t, " tree=", P.shape, " n=", P.n, " dom=", dom, " coef=", P.coef.name, " bc=", P.kinds); }
static void check(const std::string& id, const Problem& P, const Sol& got, const Sol& want, const char* what) {
    std::string w; double e = diff(got, want, &w);
    ctx().extra["leaves_compared"] += want.size(); ctx().traces++;
    if (!(e < TOL)) violation(id, cat(what, ": relative error ", e, " at leaf ", w));
}
template <class F> static void guarded(const std::string& id, F f) {
    try { f(); } catch (std::exception& e) { violation(id, cat("exception: ", e.what())); }
}
static void one_uniform(int level, int n, size_t d, const Coef& c, const std::string& k, const char* tag = "") {
    Problem P{trees::uniform(level), n, domains()[d].second, c, k};
    std::string id = cat(tag, "uniform level=", level, " ", pid("", P, domains()[d].first));
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++;
    guarded(id, [&] {
        auto f = load1(P.box); auto r = [](int s, double x, double y) { return bc_fn(1, s, x, y); };
        check(id, P, run(P, f, r), (n << level) > 24 || *tag == 'l' ? monolithic_banded(P, level, f, r) : monolithic(P, level, f, r), "solution differs from the global five-point system");
    });
}
static void uniform_part() {
    bool th = ctx().thorough();
    for (int level = 0; level <= (th ? 4 : 3); level++)
        for (int n : {2, 3, 4, 5, 6, 8, 10, 16}) {
            int m = n << level;
            if (m > (th ? 48 : 24)) continue;
            for (size_t d = 0; d < 2; d++) for (auto& c : coefs()) for (auto& k : kinds_all()) {
                if (k == "NNNN" && (c.name == "const" || c.name == "strip")) continue;         // singular
                bool allD = k == "DDDD", mixed = k == "NDRN" || k == "DNND" || k == "RRDD" || k == "DRNR";
                if (!(allD || mixed)) { // every kind assignment on the small meshes, selected ones on the larger
                    if (m > (th ? 16 : 8) || (!th && c.name != "var" && c.name != "const") || (!th && d && c.name != "var")) continue;
                }
                if (!th && m > 16 && c.name != "var" && !allD) continue;
                one_uniform(level, n, d, c, k);
            }
            for (size_t d = 0; d < 2; d++) for (auto& c : coefs()) for (auto& k : kinds_varying(th ? "DNRVMW" : m <= 8 ? "DNVMW" : "DMW")) {
                if (m > (th ? 32 : 16) || (!th && m > 8 && c.name != "alpha") || (!th && m <= 8 && c.name != "var" && (c.name != "const" || d))) continue;
                one_uniform(level, n, d, c, k);
            }
        }
}
// sizes people use: few problems, large patches or many levels
static void large_part() {
    bool th = ctx().thorough(); struct LN { int l, n; };
    std::vector<LN> L{{0, 3}, {2, 6}, {0, 20}, {0, 24}, {1, 17}, {2, 10}, {2, 12}, {3, 5}, {3, 8}, {4, 2}, {4, 3}, {4, 4}, {1, 20}, {2, 16}, {3, 10}, {5, 2}};
    if (th) for (LN x : {LN{0, 32}, LN{0, 33}, LN{1, 24}, LN{4, 6}, LN{5, 3}}) L.push_back(x);
    for (auto [l, n] : L)
        for (size_t d = 0; d < 2; d++) for (auto& c : coefs()) for (std::string k : {"DDDD", "VMDR", "NDRN"}) {
            if ((!th || n > 17 || l > 4) && ((c.name != "var" && c.name != "const") || (c.name == "const") != (k == "NDRN") || (d && (k != "VMDR" || n > 12)))) continue;
            one_uniform(l, n, d, c, k, "large ");
        }
}
static void one_adaptive(const Problem& P, const std::string& dom, bool linear, const char* tag = "") {
    std::string id = tag + pid("adaptive", P, dom) + (linear ? " linear" : "");
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++;
    if (trees::depth(P.shape) == 3) { ctx().extra["meshes_of_depth_3"]++; if (!trees::balanced(P.shape)) ctx().extra["of_these_not_2to1_balanced"]++; }
    guarded(id, [&] {
        if (linear) {
            auto u = [](double x, double y) { return 0.7 - 1.3 * x + 2.1 * y; };
            auto r = [&](int s, double x, double y) { double a, b; bc_ab(P.kinds[s], s, side_t(P.box, s, x, y), &a, &b); return a * u(x, y) + b * (s < 2 ? -1.3 : 2.1); };
            auto lam = P.coef.lambda;
            auto f = [&](double x, double y) { return lam(x, y) * u(x, y); };
            check(id, P, run(P, f, r), leaf_rhs(P, u), "linear solution not reproduced");
        } else {
            auto f = load1(P.box); auto r = [](int s, double x, double y) { return bc_fn(1, s, x, y); };
            Reference R(P);
            check(id, P, run(P, f, r), R.solve(leaf_rhs(P, f), root_bc(P, R.M, r)), "solution differs from the composite reference system");
        }
    });
}
static void adaptive_part() {
    bool th = ctx().thorough();
    auto T2 = trees::all(2);
    auto D = domains();
    // every tree of depth <= 2, every assignment of boundary kinds
    for (auto& t : T2) for (int n : {2, 3, 4, 6, 8}) for (size_t d = 0; d < 2; d++) for (auto& c : coefs()) for (auto& k : kinds_all()) {
        if (k == "NNNN" && (c.name == "const" || c.name == "strip")) continue;
        bool allD = k == "DDDD";
        if (!th && !allD) { if (!(n == 4 && ((d == 0 && c.name == "var") || (d == 1 && c.name == "const"))) && !(n == 3 && c.name == "helm" && (k == "NRDN" || k == "RNND" || k == "NDRR"))) continue; }
        Problem P{t, n, D[d].second, c, k};
        one_adaptive(P, D[d].first, false);
        if ((c.name == "const" || c.name == "helm") && (th || n == 4 || allD)) one_adaptive(P, D[d].first, true);
    }
    for (auto& t : T2) for (int n : {2, 4}) for (size_t d = 0; d < 2; d++) for (auto& c : coefs()) for (auto& k : kinds_varying(th ? "DNVMW" : "DVM")) {
        if (!th && !((n == 2 && d == 1 && (c.name == "var" || c.name == "strip")) || (n == 4 && d == 0 && c.name == "lambda" && k[0] == 'M'))) continue;
        Problem P{t, n, D[d].second, c, k}; one_adaptive(P, D[d].first, false);
    }
    // trees of depth 3 (also unbalanced ones)
    auto T3 = trees::all(3);
    for (auto& t : T3) {
        if (trees::depth(t) < 3) continue;
        int k2 = trees::splits_at(t, 2);
        if (!th && k2 > 2 && !(k2 >= 15)) continue;
        bool bal = trees::balanced(t);
        Problem P{t, 4, D[k2 % 2].second, coefs()[2], "DDDD"};
        one_adaptive(P, D[k2 % 2].first, false);
        if (k2 <= (th ? 3 : 1)) { P.kinds = "NVRM"; one_adaptive(P, D[k2 % 2].first, false); P.n = 3; P.kinds = "DDDD"; one_adaptive(P, D[k2 % 2].first, false); }
        P.n = 4; P.kinds = "DDDD"; P.coef = coefs()[0];
        if (bal && k2 <= (th ? 4 : 1)) one_adaptive(P, D[k2 % 2].first, true);
    }
    // children of every resolution side by side: each child of the root (or of one of its children) uniformly refined by 0..3 levels
    for (int i = 0; i < 256; i++) {
        int l[4] = {i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6}, n3 = 0, mx = 0; for (int q = 0; q < 4; q++) { n3 += l[q] == 3; mx = std::max(mx, l[q]); }
        if (mx < 2 || (!th && n3 > 1)) continue;
        std::string t = "S"; for (int q = 0; q < 4; q++) t += trees::uniform(l[q]);
        for (int n : {2, 3, 4}) {
            if ((n3 && n > 2 && !th) || (n3 > 1 && n > 2) || (n == 4 && mx == 2 && !th && i % 3)) continue;
            Problem P{t, n, D[i % 2].second, coefs()[n == 3 ? 0 : 2], n == 3 ? "RNDV" : "DDDD"}; one_adaptive(P, D[i % 2].first, false);
            if (n == 2) { P.coef = coefs()[0]; one_adaptive(P, D[i % 2].first, true); }
            if (n3 == 0 && i % 4 == 1) { std::string in[4] = {"S" + t + "LLL", "SL" + t + "LL", "SLL" + t + "L", "SLLL" + t}; P = {in[i / 4 % 4], n, D[0].second, coefs()[2], "DDDD"}; one_adaptive(P, D[0].first, false); }
        }
    }
    // a sibling four (thorough: five) levels finer than the other three
    for (int L = 4; L <= (th ? 5 : 4); L++) for (int q = 0; q < 4; q++) {
        std::string t = "S"; for (int k = 0; k < 4; k++) t += k == q ? trees::uniform(L) : "L";
        Problem P{t, 2, D[q % 2].second, coefs()[q % 2 ? 0 : 2], q % 2 ? "NVRM" : "DDDD"}; one_adaptive(P, D[q % 2].first, false);
    }
    // selected depth 4/5 staircases: refine towards each corner / path, balanced and not
    for (int L = 4; L <= (th ? 6 : 5); L++) for (int q = 0; q < 4; q++) for (int q2 = 0; q2 < 4; q2++) {
        std::string t = "L";
        for (int l = L; l >= 1; l--) { std::string s = "S"; int qq = l % 2 ? q : q2; for (int k = 0; k < 4; k++) s += k == qq ? t : "L"; t = s; }
        Problem P{t, 4, D[0].second, coefs()[2], "DDDD"};
        one_adaptive(P, D[0].first, false);
    }
    // full basis of right-hand sides and boundary data on small trees (operator equality, by linearity)
    for (auto& t : T2) for (int n : {2, 4}) {
        if (trees::count_leaves(t) > (th ? 16 : 10) || (n == 4 && trees::count_leaves(t) > (th ? 16 : 7))) continue;
        Problem P{t, n, D[1].second, coefs()[2], "VMDR"};
        std::string id = pid("basis", P, D[1].first);
        if (!vk::begin(id)) continue;
        sample(id);
        guarded(id, [&] {
            Reference R(P); World w(P.shape, P.n, P.box, P.coef);
            w.hps->setupStage(); w.hps->buildStage();
            auto L = trees::leaves(t);
            long nb = 4 * R.M, nf = (long) L.size() * n * n;
            for (long e = 0; e < nb + nf; e++) {
                auto f = leaf_rhs(P, [](double, double) { return 0.0; }); std::vector<double> r(nb, 0.0);
                if (e < nb) r[e] = 1; else f[L[(e - nb) / (n * n)].path][(e - nb) % (n * n)] = 1;
                std::map<const void*, std::string> who;
                for (auto& [p, nd] : w.mesh->quadtree.map) who[&nd->data] = p;
                w.hps->upwardsStage(std::function<void(Patch&)>([&](Patch& p) { p.vectorF() = ef::Vector<double>(f.at(who.at(&p))); }));
                w.hps->solveStage(std::function<double(int, double, double, double*, double*)>([&](int s, double x, double y, double* a, double* b) { double tt = side_t(P.box, s, x, y); bc_ab(P.kinds[s], s, tt, a, b); return r.at(s * R.M + std::min(R.M - 1, (int) (tt * R.M))); }));
                Sol want = R.solve(f, r);
                check(cat(id), P, w.solution(), want, cat("basis vector ", e).c_str()); ctx().states += w.mesh->quadtree.map.size(); ctx().transitions += 2;
                ctx().distinct++;
            }
        });
    }
}
// boundary conditions with factors, very small or very large coefficients; domains of very small, very large and unequal extents
static const char* SCALED[] = {"TTTT", "nDnT", "GgGg", "HHHH", "hhhh", "oGnT", "dodo", "DTnR", "TnTn", "gGHh", "ddDD", "dHoG", "NThD", "RnnR", "nnnn", "VgMG"};
static void extreme_part(bool uniform) {
    bool th = ctx().thorough(); std::vector<std::string> T; if (uniform) T = {"L", trees::uniform(1), trees::uniform(2)}; else for (auto& t : trees::all(2)) T.push_back(t);
    auto go = [&](const std::string& t, int n, int d, int c, const std::string& k) {
        if (uniform) one_uniform(trees::depth(t), n, d, coefs()[c], k, "extreme ");
        else { Problem P{t, n, domains()[d].second, coefs()[c], k}; one_adaptive(P, domains()[d].first, false, "extreme "); }
    };
    for (auto& t : T) for (int n : {2, 3, 4}) {
        if (!th && !uniform && n == 3) continue;
        for (auto k : SCALED) for (int d = 0; d < (th ? 2 : 1); d++) for (int c : {1, 2}) if (th || uniform || (c == 2) == (n == 2)) go(t, n, d, c, k);
        for (int d = 2; d < 6; d++) for (int c : {0, 1, 2}) for (auto k : {"DDDD", "NDRN"}) if ((d != 2 || *k == 'D') && (th || uniform || (c + n + (k[0] == 'N')) % 2 == 0)) go(t, n, d, c, k);
    }
    if (uniform) return;
    // long chains: refined towards a corner or an inner point
    for (int L : {6, 7, 8, 9, 10, 12, 14, 16, 17}) for (int q = 0; q < 4; q++) for (int q2 : {q, 3 - q, (q + 1) % 4}) for (int n : {2, 4}) {
        if (!th && (L + q + q2) % 2 && n == 4) continue;
        std::string t = "L"; for (int l = L; l >= 1; l--) { std::string s = "S"; for (int k = 0; k < 4; k++) s += k == (l % 2 ? q : q2) ? t : "L"; t = s; }
        go(t, n, (L + q) % 2, L % 2 ? 0 : 2, n == 2 ? "DDDD" : "NVRM");
    }
}
// special data, on one solver per mesh (many solves in a row), through both overloads of both stages
static void special_part(bool uniform) {
    bool th = ctx().thorough(); auto D = domains();
    std::vector<std::string> T; if (uniform) T = {"L", trees::uniform(1), trees::uniform(2)}; else for (auto& t : trees::all(2)) T.push_back(t);
    for (auto& t : T) for (int n : {2, 3, 4}) for (std::string k : {"DDDD", "VMDR", "NDRN"}) for (int c : {0, 1, 2, 8}) {
        if (!th && trees::count_leaves(t) > 10 && (n > 2 || k == "NDRN") && !uniform) continue;
        Problem P{t, n, D[(n + c) % 2].second, coefs()[c], k}; std::string id = pid("special", P, D[(n + c) % 2].first); if (!vk::begin(id)) continue; sample(id);
        guarded(id, [&] {
            Reference R(P); World w(P.shape, P.n, P.box, P.coef); w.hps->setupStage(); w.hps->buildStage();
            auto L = trees::leaves(t); long NX = trees::ROOT * n * 2; auto key = [&](double x, double y) { return llround((x - P.box.x0) / (P.box.x1 - P.box.x0) * NX) * (4 * NX) + llround((y - P.box.y0) / (P.box.y1 - P.box.y0) * NX); };
            std::map<const void*, std::string> who; for (auto& [p, nd] : w.mesh->quadtree.map) who[&nd->data] = p;
            for (size_t l = 0; l < loads().size(); l++) {
                std::map<std::string, std::vector<double>> f; std::map<long, double> at;
                for (size_t q = 0; q < L.size(); q++) { auto& v = f[L[q].path]; v.resize(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double x = loads()[l].v(q, L.size(), i, j, n); v[j + i * n] = x; at[(2 * n * L[q].x + (2 * i + 1) * L[q].s) * (4 * NX) + 2 * n * L[q].y + (2 * j + 1) * L[q].s] = x; } }
                for (size_t a = 0; a < traces().size(); a++) {
                    if (!th && a > 2 && l > 2 && (a + l) % 4) continue;
                    std::vector<double> r(4 * R.M); for (int s = 0; s < 4; s++) for (int i = 0; i < R.M; i++) r[s * R.M + i] = traces()[a].v(s, i, R.M);
                    if ((a + l) % 2) w.hps->upwardsStage(std::function<void(Patch&)>([&](Patch& p) { p.vectorF() = ef::Vector<double>(f.at(who.at(&p))); }));
                    else w.hps->upwardsStage(std::function<double(double, double)>([&](double x, double y) { auto it = at.find(key(x, y)); if (it == at.end()) throw std::runtime_error(cat("the load is asked for at (", x, ",", y, "), which is no cell centre")); return it->second; }));
                    if (k == "DDDD" && a % 2) w.hps->solveStage(std::function<void(Patch&)>([&](Patch& p) { p.vectorG() = ef::Vector<double>(r); }));
                    else w.hps->solveStage(std::function<double(int, double, double, double*, double*)>([&](int s, double x, double y, double* aa, double* bb) { double tt = side_t(P.box, s, x, y); bc_ab(k[s], s, tt, aa, bb); return r.at(s * R.M + std::min(R.M - 1, (int) (tt * R.M))); }));
                    std::string wh; double e = diff(w.solution(), R.solve(f, r), &wh, 0);
                    ctx().traces++; ctx().distinct++; ctx().states += w.mesh->quadtree.map.size(); ctx().transitions += 2;
                    if (!(e < TOL)) violation(id, cat("load ", loads()[l].name, ", boundary data ", traces()[a].name, ": relative error ", e, " at leaf ", wh));
                }
            }
        });
    }
}
// the same merges over leaves solved by FISHPACK90 (alpha = beta = 1, constant lambda)
static void fish_part(bool uniform) {
    bool th = ctx().thorough(); world_solver = ef::FiniteVolumeSolverType::FISHPACK90;
    if (uniform) for (int level = 0; level <= 2; level++) for (int n : {3, 4, 5, 8}) for (size_t d = 0; d < 2; d++) for (int c : {0, 1}) for (auto& k : kinds_all()) {
        if ((k == "NNNN" && c == 0) || (n << level) > (th ? 20 : 12) || ((n << level) > 8 && !th && k != "DDDD" && k != "NDRN" && k != "RRDD")) continue;
        one_uniform(level, n, d, coefs()[c], k, "fishpack ");
    }
    else for (auto& t : trees::all(2)) for (int n : {3, 4, 6}) for (size_t d = 0; d < 2; d++) for (int c : {0, 1}) for (std::string k : {"DDDD", "NDRN", "VMDW", "RRNN"}) {
        if (!th && n == 6 && k != "DDDD") continue;
        Problem P{t, n, domains()[d].second, coefs()[c], k}; one_adaptive(P, domains()[d].first, false, "fishpack ");
    }
    world_solver = ef::FiniteVolumeSolverType::FivePointStencil;
}
int main(int argc, char** argv) {
    start(argc, argv);
    std::string mode = "uniform"; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "uniform") { uniform_part(); large_part(); } else adaptive_part();
    extreme_part(mode == "uniform"); special_part(mode == "uniform"); fish_part(mode == "uniform");
    return stop();
}
