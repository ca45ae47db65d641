// C03 (--part hist): every sequence of stage calls up to a depth, each solve compared with a reference for the latest data.
// C05 (--part opts): every sequence of runs under every admissible option setting.
#include "hps.hpp"
using namespace vk;
static const double TOL = 1e-7;
// loads of a size that counts on small domains too
static double scale1(double hx, double hy) { double g = 1 / (hx * hy); return g > 16 ? g : 1; }
static std::function<double(int, double, double, double*, double*)> bcf(const std::string& kinds, int k, Box q) {
    return [kinds, k, q](int s, double x, double y, double* a, double* b) { bc_ab(kinds[s], s, side_t(q, s, x, y), a, b); return bc_fn(k, s, x, y); };
}
// ---- cached reference solutions: independent of the implementation -----------------------------
static const Sol& ref(const std::string& shape, int n, int dom, int coef, const std::string& kinds, int rhs, int bc) {
    static std::map<std::string, Sol> memo;
    static std::map<std::string, std::pair<Problem*, Reference*>> sys;
    std::string k0 = cat(shape, n, "/", dom, "/", coef, kinds), k = cat(k0, "/", rhs, "/", bc);
    auto it = memo.find(k); if (it != memo.end()) return it->second;
    auto& s = sys[k0];
    if (!s.first) { s.first = new Problem{shape, n, domains()[dom].second, coefs()[coef], kinds}; s.second = new Reference(*s.first); }
    Box q = s.first->box; double g = scale1(q.x1 - q.x0, q.y1 - q.y0); auto f = leaf_rhs(*s.first, [&](double x, double y) { return g * rhs_fn(rhs, x, y); });
    auto r = root_bc(*s.first, s.second->M, [&](int sd, double x, double y) { return bc_fn(bc, sd, x, y); });
    return memo[k] = s.second->solve(f, r);
}
// apply data through the two overloads of each stage
static void upwards(World& w, int rhs, bool by_patch) {
    double g1 = scale1(w.grid.xUpper() - w.grid.xLower(), w.grid.yUpper() - w.grid.yLower()); auto f = [rhs, g1](double x, double y) { return g1 * rhs_fn(rhs, x, y); };
    if (!by_patch) w.hps->upwardsStage(std::function<double(double, double)>(f));
    else w.hps->upwardsStage(std::function<void(Patch&)>([&](Patch& p) {
        auto& g = p.grid(); int n = w.n; double dx = (g.xUpper() - g.xLower()) / n, dy = (g.yUpper() - g.yLower()) / n;
        std::vector<double> v(n * n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[j + i * n] = f(g.xLower() + (i + .5) * dx, g.yLower() + (j + .5) * dy);
        p.vectorF() = ef::Vector<double>(v);
    }));
}
static void solve(World& w, const std::string& kinds, int bc, bool by_patch) {
    if (!by_patch) { Box q{w.grid.xLower(), w.grid.xUpper(), w.grid.yLower(), w.grid.yUpper()}; w.hps->solveStage(bcf(kinds, bc, q)); }
    else w.hps->solveStage(std::function<void(Patch&)>([&](Patch& p) {
        auto& g = p.grid(); int M = g.nx(); std::vector<double> v(4 * M);
        double dx = (g.xUpper() - g.xLower()) / M, dy = (g.yUpper() - g.yLower()) / M;
        for (int i = 0; i < M; i++) {
            v[i] = bc_fn(bc, 0, g.xLower(), g.yLower() + (i + .5) * dy); v[M + i] = bc_fn(bc, 1, g.xUpper(), g.yLower() + (i + .5) * dy);
            v[2 * M + i] = bc_fn(bc, 2, g.xLower() + (i + .5) * dx, g.yLower()); v[3 * M + i] = bc_fn(bc, 3, g.xLower() + (i + .5) * dx, g.yUpper());
        }
        p.vectorG() = ef::Vector<double>(v);
    }));
}
static void set_opt(const char* name, int v) {   // 0 unset, 1 false, 2 true
    auto& m = the_app()->options.optionsMap;
    if (v == 0) m.erase(name); else the_app()->options.setOption(name, v == 2);
}
// ---- C03 -------------------------------------------------------------------------------------------
//  B: build again   U/u: new rhs 1/2 (u by patch callback)   Z: zero rhs   S: solve bc 1 mixed   s: solve bc 2 Dirichlet by patch callback
//  K: constant rhs   E: solve with constant Dirichlet data
//  D: solve bc 1 Dirichlet   C: next coefficients, build, upwards again   X: full pass of another solver on another mesh
//  Y: solve only, of that other solver
static const char* OTHER[3] = {"SLLSLLLLL", "L", "SSLLLLLLL"};
static void hist(const std::string& shape, int n, int dom, int coef0, const std::string& seq, int other) {
    World w(shape, n, domains()[dom].second, coefs()[coef0]);
    bool need_o = seq.find('X') != std::string::npos;
    World o(need_o ? OTHER[other] : "L", n == 4 ? 6 : 4, domains()[dom == 0].second, coefs()[3]);
    int coef = coef0, rhs = -1; bool ob = false; int orhs = 1;
    auto other_check = [&](const char* when) {
        std::string wh; double e = diff(o.solution(), ref(OTHER[other], o.n, dom == 0, 3, "DNDD", orhs, 2), &wh);
        if (!(e < TOL)) violation(cat("hist other ", shape, " ", seq), cat("the other solver's solution is wrong ", when, ": relative error ", e, " at ", wh));
    };
    w.hps->setupStage(); w.hps->buildStage();
    ctx().transitions++;
    for (size_t i = 0; i < seq.size(); i++) {
        char c = seq[i]; ctx().transitions++;
        std::string k; int b = 0;
        switch (c) {
            case 'B': w.hps->buildStage(); break;
            case 'U': rhs = 1; upwards(w, rhs, false); break;
            case 'u': rhs = 2; upwards(w, rhs, true); break;
            case 'Z': rhs = 0; upwards(w, rhs, false); break;
            case 'K': rhs = 3; upwards(w, rhs, false); break;
            case 'E': k = "DDDD"; b = 3; break;
            case 'S': k = "NVRM"; b = 1; break;
            case 's': k = "DDDD"; b = 2; break;
            case 'D': k = "DDDD"; b = 1; break;
            case 'C': coef = coef == 2 ? 1 : 2; w.set_coef(coefs()[coef]); w.hps->buildStage(); if (rhs >= 0) upwards(w, rhs, false); break;
            case 'X': o.hps->buildStage(); upwards(o, orhs, false); solve(o, "DNDD", 2, false); ob = true; other_check("after its own pass"); break;
            case 'Y': solve(o, "DNDD", 2, false); other_check("when solved again"); break;
        }
        if (b) {
            solve(w, k, b, c == 's');
            std::string wh; double e = diff(w.solution(), ref(shape, n, dom, coef, k, rhs, b), &wh);
            ctx().extra["solves_checked"]++;
            if (!(e < TOL)) violation(cat("hist ", shape, " n=", n, " ", seq.substr(0, i + 1)), cat("solve ", i, " of the history ", seq, " differs from a fresh solver's result: relative error ", e, " at ", wh));
        }
    }
    if (ob) other_check("at the end");
}
static void hist_part() {
    bool th = ctx().thorough();
    std::vector<std::string> T = {"L", "SLLLL", "SSLLLLLLL", "SLLLSLLLL", "SLSLLLLSLLLLL", trees::uniform(2), "SSLSLLLLLLLLL", "SSLLLSLLLLLLLL"};
    if (th) for (auto& t : trees::all(2)) T.push_back(t);
    const std::string ops = "BUuZKSsDECXY";
    int depth = th ? 5 : 4;
    for (size_t ti = 0; ti < T.size(); ti++) {
        std::string prev;
        int D = depth; if (trees::count_leaves(T[ti]) > 10) D = th ? 4 : 3;
        if (th && ti >= 8) D = 4;
        std::vector<int> ix(D, 0);
        for (;;) {
            std::string s; for (int i : ix) s += ops[i];
            // only well-formed histories: a solve needs a right-hand side, Y needs X; the last call is a solve
            bool ok = true, u = false, x = false; int solves = 0;
            for (char c : s) { if (c == 'U' || c == 'u' || c == 'Z' || c == 'K') u = true; if (c == 'X') x = true; if (c == 'S' || c == 's' || c == 'D' || c == 'E') { solves++; if (!u) ok = false; } if (c == 'Y' && !x) ok = false; }
            char l = s.back(); if (!(l == 'S' || l == 's' || l == 'D' || l == 'E' || l == 'Y')) ok = false;
            if (ok && solves == 0) ok = false;
            if (ok) {
                if (ctx().shard == 0 && !ctx().have_only) { size_t c = 0; while (c < prev.size() && prev[c] == s[c]) c++; ctx().states += s.size() - c; prev = s; }
                int n = ti % 3 == 1 ? 3 : 4; if (trees::count_leaves(T[ti]) > 10) n = 4;
                std::string id = cat("hist ", T[ti], "#", ti, " n=", n, " ", s);
                if (vk::begin(id)) {
                    sample(id); ctx().distinct++; ctx().traces++;
                    try { hist(T[ti], n, ti % 2, ti % 2 ? 1 : 2, s, ti % 3); } catch (std::exception& e) { violation(cat("hist ", T[ti], " ", s), cat("exception: ", e.what())); }
                }
            }
            int p = D - 1; while (p >= 0 && ++ix[p] == (int) ops.size()) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
// long trees, finer patches
static void hist_more() {
    bool th = ctx().thorough();
    std::string c9 = "L", c12 = "L"; for (int l = 9; l >= 1; l--) c9 = l % 2 ? "S" + c9 + "LLL" : "SLLL" + c9; for (int l = 12; l >= 1; l--) c12 = "SL" + c12 + "LL";
    std::vector<std::string> T = {"SSLLLLLLL", "SLLLSLLLL", "SSSLLLLLLLLLL", "SSLLLSLLLLLLLL", c9, c12};
    const char* H[] = {"UDBUS", "UBBUD", "UDsuS", "CUDCS", "BUDXS", "USBBuD", "UXDYs", "UDZEKS", "BBBUD", "uSCBUs", "UDCuDCS", "UDCDCS"};
    for (auto& t : T) for (int n : {2, 4, 8}) for (auto h : H) {
        if (n == 8 && trees::count_leaves(t) > 12 && !th) continue;
        std::string s = h; std::string id = cat("long hist ", t, " n=", n, " ", s); if (!vk::begin(id)) continue; sample(id); ctx().distinct++; ctx().traces++; ctx().states += s.size();
        try { hist(t, n, n == 4, n == 8 ? 2 : 1, s, n % 3); } catch (std::exception& e) { violation(cat("hist ", t, " ", s), cat("exception: ", e.what())); }
    }
}
// ---- C05 -------------------------------------------------------------------------------------------
struct Run { int cache, homog, rhs, bc, coef, flags; };   // flags: 1 rebuild, 2 skip upwards (homogeneous only), 4 other solver in between, 8 patch callbacks
static std::string rs(const Run& r) { return cat("c", "-01"[r.cache], "h", "-01"[r.homog], "f", r.rhs, "b", r.bc, "k", r.coef, "x", r.flags); }
static const char* KB[4] = {"DDDD", "NVRM", "DDDD", "DDDD"};
static void opts(const std::string& shape, int n, int dom, const std::vector<Run>& runs) {
    int coef = runs[0].coef;
    World w(shape, n, domains()[dom].second, coefs()[coef]);
    std::unique_ptr<World> op;
    std::string h; bool built = false;
    for (auto& r : runs) {
        h += (h.empty() ? "" : " ") + rs(r);
        set_opt("cache-operators", r.cache); set_opt("homogeneous-rhs", r.homog);
        if (r.flags & 4) { if (!op) op = std::make_unique<World>("SLLLSLLLL", n, domains()[dom == 0].second, coefs()[3]); World& o = *op; o.hps->buildStage(); upwards(o, r.rhs, false); solve(o, "DDDD", 1, false); ctx().transitions += 3;
            std::string wh; double e = diff(o.solution(), ref("SLLLSLLLL", n, dom == 0, 3, "DDDD", r.rhs, 1), &wh);
            if (!(e < TOL)) violation(cat("opts other ", shape, " n=", n, " ", h), cat("another solver's solution is wrong: relative error ", e, " at ", wh)); }
        if (r.coef != coef) { coef = r.coef; w.set_coef(coefs()[coef]); built = false; }
        if (!built || (r.flags & 1)) { w.hps->setupStage(); w.hps->buildStage(); built = true; ctx().transitions++; }
        if (!(r.flags & 2)) { upwards(w, r.rhs, r.flags & 8); ctx().transitions++; }
        solve(w, KB[r.bc], r.bc, (r.flags & 8) && r.bc != 1); ctx().transitions++;
        std::string wh; double e = diff(w.solution(), ref(shape, n, dom, coef, KB[r.bc], r.rhs, r.bc), &wh);
        ctx().extra["solves_checked"]++;
        if (!(e < TOL)) violation(cat("opts ", shape, " n=", n, " ", h), cat("run ", h, " (c cache-operators, h homogeneous-rhs, - unset 0 false 1 true): relative error ", e, " at ", wh));
    }
    set_opt("cache-operators", 1); set_opt("homogeneous-rhs", 1);
}
static std::vector<Run> run_alphabet(int level) {
    std::vector<Run> R;
    for (int c = 0; c < 3; c++) for (int h = 0; h < 3; h++) for (int rhs = 0; rhs < 2; rhs++) for (int bc = 1; bc < 4; bc++) for (int k : {0, 1, 2}) for (int x : {0, 1, 2, 3, 4, 5, 8, 9, 12}) {
        if (c == 2 && k == 2) continue;                        // caching needs constant coefficients
        if (bc == 3 && ((x && x != 2) || (k == 2 && level))) continue;
        if (h == 2 && rhs) continue;                           // homogeneous shortcut needs f = 0
        if ((x & 2) && h != 2) continue;                       // only the shortcut may leave the upwards stage out
        if (level == 0 && (x > 4 || bc == 2 || (x && x != 4 && h != 2))) continue;
        if (level == 1 && (x == 9 || x == 12 || x == 5 || (k == 2 && bc == 2))) continue;
        R.push_back({c, h, rhs, bc, k, x});
    }
    return R;
}
static void opts_part() {
    bool th = ctx().thorough();
    auto T = trees::all(2);
    auto go = [&](const std::string& t, int n, int dom, const std::vector<Run>& runs) {
        std::string h; for (auto& r : runs) h += (h.empty() ? "" : " ") + rs(r);
        std::string id = cat("opts ", t, " n=", n, " dom=", dom, " ", h);
        if (!vk::begin(id)) return;
        sample(id); ctx().distinct++; ctx().traces++; ctx().states += runs.size();
        try { opts(t, n, dom, runs); } catch (std::exception& e) {
            set_opt("cache-operators", 1); set_opt("homogeneous-rhs", 1);
            violation(cat("opts ", t, " n=", n, " ", h), cat("exception: ", e.what()));
        }
    };
    auto A0 = run_alphabet(0), A1 = run_alphabet(1), A2 = run_alphabet(2);
    std::vector<Run> AA, AB;                         // A0 without the second solver; AA reduced to two coefficient sets
    for (auto& r : A0) if (!(r.flags & 4)) { if (r.bc < 3) AB.push_back(r); if (r.coef != 1 && (r.flags == 0 || r.flags == 2)) AA.push_back(r); }
    std::vector<std::string> D3 = {"SSLSLLLLLLLLL", "SLLLSLLSLLLLL", "SSSLLLLLLLLLL"};
    // single runs on every tree of depth <= 2 and some deeper ones, several sizes
    for (auto& t : T) for (int n : {2, 3, 4, 6}) for (int d = 0; d < 2; d++) {
        if (!th && (d != (n == 3) || n == 6)) continue;
        for (auto& r : (th || (n == 2 && trees::count_leaves(t) <= 7) ? A2 : A0)) go(t, n, d, {r});
    }
    for (auto& t : D3) for (int n : {2, 4}) if (th || n == 2) for (auto& r : (th ? A2 : A0)) go(t, n, 0, {r});
    // trees whose parts differ in depth only somewhere below: every choice of four subtrees
    std::vector<std::string> SUB = {"L", "SLLLL", "SSLLLLLLL", "SLLLSLLLL", "SSSLLLLLLLLLL"};
    for (int i = 0; i < 625; i++) {
        int q[4] = {i % 5, i / 5 % 5, i / 25 % 5, i / 125}, deep = 0; for (int k : q) deep += k > 1; if (deep < 2 || (!th && deep == 4)) continue;
        std::string t = "S"; for (int k : q) t += SUB[k];
        for (Run r : {Run{2, 0, 1, 1, 0, 0}, Run{2, 2, 0, 1, 1, 0}}) if (th || (i % 2 == r.coef)) go(t, 2, i % 2, {r});
    }
    // small, large and flat domains; long chains of patches
    std::vector<Run> E = {{2, 0, 1, 1, 0, 0}, {2, 0, 1, 3, 0, 0}, {2, 0, 1, 2, 1, 0}, {2, 2, 0, 1, 1, 0}, {2, 2, 0, 2, 0, 2}, {1, 0, 1, 1, 2, 0}, {2, 0, 1, 3, 0, 4}};
    for (auto& t : T) for (int n : {2, 4}) for (int d = 2; d < 6; d++) for (auto& r : E) { if ((r.flags & 4) || (d == 2 && r.bc == 1 && r.rhs)) continue; if (!th && n == 4 && (d + r.coef) % 2) continue; go(t, n, d, {r}); }
    for (int L : {5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 17}) for (int q = 0; q < 4; q++) for (int q2 : {q, 3 - q}) for (auto& r : E) {
        std::string t = "L"; for (int l = L; l >= 1; l--) { std::string s = "S"; for (int k = 0; k < 4; k++) s += k == (l % 2 ? q : q2) ? t : "L"; t = s; }
        go(t, 2, q % 2, {r}); if (th || L % 4 == 1) go(t, 4, q % 2, {r});
    }
    // pairs of runs
    std::vector<std::string> TP = {"SSLLLLLLL", "L", "SLLLL", "SLLLSLLLL"};
    for (auto& t : TP) {
        for (auto& a : (th ? A2 : AA)) for (auto& b : (th ? A2 : A0)) go(t, th ? 4 : 2, 0, {a, b});
        if (!th) for (auto& a : A0) for (auto& b : AA) go(t, 2, 0, {a, b});
    }
    if (th) for (auto& t : T) for (auto& a : A0) for (auto& b : A0) go(t, 4, 1, {a, b});
    // triples
    std::vector<Run> AC; for (auto& r : AA) if (r.bc < 3 && r.cache != 1 && r.homog != 0) AC.push_back(r);
    for (auto& a : (th ? AB : AC)) for (auto& b : (th ? AB : AC)) for (auto& c : (th ? AB : AC)) {
        go("SSLLLLLLL", 2, 0, {a, b, c});
        if (th) go("SLLLL", 2, 0, {a, b, c});
    }
}
int main(int argc, char** argv) {
    start(argc, argv);
    std::string mode = "hist"; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "hist") { hist_part(); hist_more(); } else opts_part();
    return stop();
}
