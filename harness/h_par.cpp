// C10: the parallel solver against the model, on real ranks whose communication is controlled (mpx).
// parts: solve (all partitions), hist (stage histories), mesh (refinement, arrays, files), sched (all rank priorities)
// and, for the parallel side of other properties: tree (C06), walk (C07), refine (C08), cells (C09), files (C18)
#include "mesh.hpp"
#include "xmlread.hpp"
#include "mpx.hpp"
#include <p4est_algorithms.h>
#include <p4est_extended.h>
#include <sys/stat.h>
using namespace vk;
static const double TOL = 1e-7;
enum { TREE = 1, REFINE = 2, CELLS = 4, FILES = 8, SOLVE = 16, WALK = 32, ALL = 63 }; static int focus = ALL;   // what a run checks
static int N() { return mpx::size(); } static int R() { return mpx::rank(); }
static std::function<double(int, double, double, double*, double*)> bcf(const S& kinds, int k, Box q) { return [kinds, k, q](int s, double x, double y, double* a, double* b) { bc_ab(kinds[s], s, side_t(q, s, x, y), a, b); return bc_fn(k, s, x, y); }; }
static const Sol& ref(const S& shape, int n, int dom, int coef, const S& kinds, int rhs, int bc) {
    static std::map<S, Sol> memo; static std::map<S, std::pair<Problem*, Reference*>> sys; S k0 = cat(shape, n, "/", dom, "/", coef, kinds), k = cat(k0, "/", rhs, "/", bc);
    auto it = memo.find(k); if (it != memo.end()) return it->second; if (sys.size() > 60) { for (auto& [x, p] : sys) { delete p.second; delete p.first; } sys.clear(); }
    auto& s = sys[k0]; if (!s.first) { s.first = new Problem{shape, n, domains()[dom].second, coefs()[coef], kinds}; s.second = new Reference(*s.first); }
    auto f = leaf_rhs(*s.first, [&](double x, double y) { return rhs_fn(rhs, x, y); }); auto r = root_bc(*s.first, s.second->M, [&](int sd, double x, double y) { return bc_fn(bc, sd, x, y); });
    return memo[k] = s.second->solve(f, r);
}
// ---- model of a partitioned tree ------------------------------------------------------------------
struct Own { int first, last; bool mine; };
static std::map<S, Own> owners(const S& shape, const SV<int>& cnt) {
    SV<int> of; for (size_t r = 0; r < cnt.size(); r++) for (int i = 0; i < cnt[r]; i++) of.push_back(r);
    std::map<S, Own> m; size_t k = 0; for (auto& c : trees::preorder(shape)) if (c.leaf) { int o = of[k++]; for (size_t l = 1; l <= c.path.size(); l++) { S p = c.path.substr(0, l); auto it = m.find(p); if (it == m.end()) m[p] = {o, o, o == R()}; else { it->second.last = o; it->second.mine |= o == R(); } } }
    return m;
}
static S node_diff(Node& m, const trees::Cell& c, const Root& r, const Own* o) {
    auto& g = m.data.grid(); Rect e = rect_of(c.path, r.b); double sc = scale_of(r.b);
    if (m.path != c.path || m.level != c.level || m.leaf != c.leaf) return cat("node ", c.path, " has path ", m.path, ", level ", m.level, ", leaf ", m.leaf);
    if (o && (m.pfirst != o->first || m.plast != o->last)) return cat("node ", c.path, " has owners ", m.pfirst, "-", m.plast, ", expected ", o->first, "-", o->last);
    if (r.nx && ((int) g.nx() != r.nx || (int) g.ny() != r.ny)) return cat("node ", c.path, " has ", g.nx(), "x", g.ny(), " cells");
    if (!nearly(g.xLower(), e.x0, sc) || !nearly(g.xUpper(), e.x1, sc) || !nearly(g.yLower(), e.y0, sc) || !nearly(g.yUpper(), e.y1, sc)) return cat("node ", c.path, " covers [", g.xLower(), ",", g.xUpper(), "]x[", g.yLower(), ",", g.yUpper(), "]");
    return "";
}
static S part_diff(ef::Quadtree<Patch>& q, const S& shape, const SV<int>& cnt, const Root& r) {
    auto own = owners(shape, cnt);
    for (auto& [k, v] : q.map) if (v && !own.count(k)) return "there is a node " + k;
    for (auto& c : trees::preorder(shape)) { auto& o = own[c.path]; auto it = q.map.find(c.path); Node* m = it == q.map.end() ? nullptr : it->second;
        if (!o.mine && m) return cat("rank ", R(), " holds node ", c.path, " of the ranks ", o.first, "-", o.last, " without a leaf in it");
        if (o.mine && !m) return cat("rank ", R(), " lacks node ", c.path); if (!m) continue;
        auto d = node_diff(*m, c, r, &o); if (d != "") return cat("rank ", R(), ": ", d); }
    return "";
}
// the walks of one rank: the nodes with a leaf of that rank
static void walks(const S& key, ef::Quadtree<Patch>& q, const S& shape, const SV<int>& cnt, const Root& r, bool post) {
    auto own = owners(shape, cnt); std::map<S, trees::Cell> cell; for (auto& c : trees::preorder(shape)) cell[c.path] = c; S err;
    auto model = [&](const SV<trees::Cell>& v, bool mark) { SV<S> w; for (auto& c : v) if (own[c.path].mine) w.push_back((mark ? c.leaf ? "leaf " : "family " : "") + c.path); return w; };
    SV<S> got; auto chk = [&](const char* what, const SV<S>& want) { if (err != "") mpx::fail(key + " " + what, cat("rank ", R(), ": ", err)); if (got != want) mpx::fail(key + " " + what, cat("rank ", R(), ": ", what, " visits ", show(got), ", expected ", show(want))); got.clear(); err = ""; };
    std::function<int(Node*)> vn = [&](Node* n) { got.push_back(n->path); return 1; };
    std::map<Patch*, S> of; for (auto& [k, v] : q.map) if (v) of[&v->data] = k; std::function<void(Patch&)> vd = [&](Patch& p) { got.push_back(of.count(&p) ? of[&p] : S("foreign")); };
    q.traversePreOrder(vn); chk("pre-order", model(trees::preorder(shape), false)); q.traversePostOrder(vn); chk("post-order", model(trees::postorder(shape), false));
    q.traversePreOrder(vd); chk("pre-order of data", model(trees::preorder(shape), false)); q.traversePostOrder(vd); chk("post-order of data", model(trees::postorder(shape), false));
    std::function<int(Node*)> vl = [&](Node* n) { got.push_back("leaf " + n->path); if (!n->leaf) err = "leaf callback for branch " + n->path; return 1; };
    std::function<int(Node*, SV<Node*>)> vf = [&](Node* n, SV<Node*> ch) { got.push_back("family " + n->path); if (ch.size() != 4) { err = cat("family with ", ch.size(), " children"); return 1; }
        for (int i = 0; i < 4; i++) { S p = n->path + char('0' + i); if (!ch[i]) { err = "null child " + p; continue; } auto d = node_diff(*ch[i], cell[p], r, &own[p]); if (d != "") err = "child " + d; if (own[p].mine && ch[i] != q.map[p]) err = "child " + p + " is not the rank's node"; } return 1; };
    if (post) { q.merge(vl, vf); chk("merge", model(trees::postorder(shape), true)); } else { q.split(vl, vf); chk("split", model(trees::preorder(shape), true)); }
}
struct PW {   // mesh, tree and solver on a partitioned forest
    S shape; SV<int> cnt; int dom, coef, n; p4est_t* p4; Grid grid; Patch root; ef::FiniteVolumeNodeFactory nf; Mesh* mesh; Solver solver; HPS* hps;
    PW(const S& shape, const SV<int>& cnt, int n, int dom, int coef) : shape(shape), cnt(cnt), dom(dom), coef(coef), n(n), grid(MPI_COMM_WORLD, n, box().x0, box().x1, n, box().y0, box().y1), root(MPI_COMM_WORLD, grid), nf(MPI_COMM_WORLD) {
        p4 = make_p4est(shape, box()); SV<p4est_locidx_t> c(cnt.begin(), cnt.end()); p4est_partition_given(p4, c.data());
        mesh = new Mesh(MPI_COMM_WORLD, p4, root, nf); solver.solver_type = ef::FiniteVolumeSolverType::FivePointStencil; set(coef); hps = new HPS(MPI_COMM_WORLD, *mesh, solver);
    }
    Box box() const { return domains()[dom].second; } Root r() const { return {n, n, box()}; }
    void set(int c) { coef = c; auto& k = coefs()[c]; solver.alpha_function = k.alpha; solver.beta_function = k.beta; solver.lambda_function = k.lambda; }
    ~PW() { delete hps; drop_nodes(mesh->quadtree); delete mesh; free_p4est(p4); }
    void up(int rhs, bool by_patch) {
        auto f = [rhs](double x, double y) { return rhs_fn(rhs, x, y); }; if (!by_patch) { hps->upwardsStage(std::function<double(double, double)>(f)); return; }
        hps->upwardsStage(std::function<void(Patch&)>([&](Patch& p) { auto& g = p.grid(); double dx = (g.xUpper() - g.xLower()) / n, dy = (g.yUpper() - g.yLower()) / n; SV<double> v(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v[j + i * n] = f(g.xLower() + (i + .5) * dx, g.yLower() + (j + .5) * dy); p.vectorF() = ef::Vector<double>(v); }));
    }
    void down(const S& kinds, int bc, bool by_patch) {
        if (!by_patch) { hps->solveStage(bcf(kinds, bc, box())); return; }
        hps->solveStage(std::function<void(Patch&)>([&](Patch& p) { auto& g = p.grid(); int M = g.nx(); SV<double> v(4 * M); double dx = (g.xUpper() - g.xLower()) / M, dy = (g.yUpper() - g.yLower()) / M;
            for (int i = 0; i < M; i++) { v[i] = bc_fn(bc, 0, g.xLower(), g.yLower() + (i + .5) * dy); v[M + i] = bc_fn(bc, 1, g.xUpper(), g.yLower() + (i + .5) * dy); v[2 * M + i] = bc_fn(bc, 2, g.xLower() + (i + .5) * dx, g.yLower()); v[3 * M + i] = bc_fn(bc, 3, g.xLower() + (i + .5) * dx, g.yUpper()); } p.vectorG() = ef::Vector<double>(v); }));
    }
    void check(const S& key, const S& kinds, int rhs, int bc) {
        const Sol& all = ref(shape, n, dom, coef, kinds, rhs, bc); auto own = owners(shape, cnt); Sol mine, want; for (auto& [k, v] : all) if (own[k].mine) want[k] = v;
        for (auto& [p, nd] : mesh->quadtree.map) if (nd && nd->leaf) mine[p] = nd->data.vectorU().data();
        S wh; double e = diff(mine, want, &wh); if (!(e < TOL)) mpx::fail(key, cat("rank ", R(), ": solution differs from the serial one: relative error ", e, " at ", wh));
    }
};
static S show_cnt(const SV<int>& c) { S s; for (int x : c) s += (s.empty() ? "" : "+") + std::to_string(x); return s; }
static SV<SV<int>> parts(int L, int n) { SV<SV<int>> r; SV<int> c; std::function<void(int)> go = [&](int left) { if ((int) c.size() == n - 1) { c.push_back(left); r.push_back(c); c.pop_back(); return; } for (int i = left; i >= 0; i--) { c.push_back(i); go(left - i); c.pop_back(); } }; go(L); return r; }
static void opt(const char* name, int v) { auto& m = the_app()->options.optionsMap; if (v == 0) m.erase(name); else the_app()->options.setOption(name, v == 2); }
static void base_opts() { opt("cache-operators", 1); opt("homogeneous-rhs", 1); }
// ---- one pass over one partition ------------------------------------------------------------------
static const SV<S> KINDS = {"DDDD", "NDRD", "MVWD", "RRRR", "DRNV"};
static void pass(const S& id, const S& shape, const SV<int>& cnt, int n, int dom, int coef, const S& kinds, bool by_patch) {
    base_opts(); PW w(shape, cnt, n, dom, coef); auto d = part_diff(w.mesh->quadtree, shape, cnt, w.r()); if (d != "" && (focus & TREE)) mpx::fail(id + " tree", d);
    if (d == "" && (focus & WALK)) walks(id, w.mesh->quadtree, shape, cnt, w.r(), true);
    if (d == "" && focus == WALK) for (bool post : {false, true, false}) walks(id, w.mesh->quadtree, shape, cnt, w.r(), post);
    if (focus == TREE) { ef::Quadtree<Patch> q(MPI_COMM_WORLD, w.p4, w.root, w.nf); d = part_diff(q, shape, cnt, w.r()); if (d != "") mpx::fail(id + " second tree", d); ef::Quadtree<Patch> t; t = std::move(q); d = part_diff(t, shape, cnt, w.r()); if (d != "") mpx::fail(id + " moved tree", d); drop_nodes(t); }
    if (!(focus & SOLVE)) return;
    w.hps->setupStage(); w.hps->buildStage(); w.up(1, by_patch); w.down(kinds, 1, by_patch && kinds == "DDDD"); w.check(id + " solve", kinds, 1, 1);
    d = part_diff(w.mesh->quadtree, shape, cnt, w.r()); if (d != "" && trees::uniform(0) == shape) mpx::fail(id + " tree after", d);
}
static void solve_part() {
    bool th = ctx().thorough(); int k = 0; auto all2 = trees::all(2);
    auto run = [&](const S& shape, const SV<int>& c, int n) {
        k++; S kinds = KINDS[k % KINDS.size()]; int dom = k % 2, coef = k % 4; bool pf = k % 3 == 0; S id = cat(focus == ALL ? "solve " : focus == TREE ? "tree " : "walk ", N(), " ranks ", shape, " ", show_cnt(c), " n=", n, " ", dom, coef, kinds, pf ? "p" : ""); if (!vk::begin(id)) return;
        ctx().distinct++; ctx().traces++; if (trees::count_leaves(shape) > 7) sample(id);
        mpx::run([&] { pass(id, shape, c, n, dom, coef, kinds, pf); });
    };
    auto sweep = [&](const S& s, int n, int maxparts) { int L = trees::count_leaves(s); auto P = parts(L, N()); if ((int) P.size() <= maxparts) { for (auto& c : P) run(s, c, n); return; }
        // too many: the even one, all with at most two non-empty ranks, all with every non-empty part at the ends
        for (auto& c : P) { int ne = 0, one = 0; for (int x : c) { ne += x > 0; one += x == 1; } if (ne <= 2 ? (L <= 10 || c[0] % 3 == 1) : one >= N() - 1) run(s, c, n); } };
    if (focus != ALL) { for (auto& s : all2) for (auto& c : parts(trees::count_leaves(s), N())) { int z = 0; for (int x : c) z += x == 0; int L = trees::count_leaves(s); if (N() > 2 && L > (th ? 13 : N() == 3 ? 10 : N() == 4 ? 7 : 4) && (c[0] + 2 * c[1]) % 3 != z % 3) continue; if (!th && N() > 3 && L > (N() == 4 ? 10 : 7)) continue; if (N() > 4 && L > 10) continue; run(s, c, 2 + k % 3); } for (S s : {"SSSLLLLLLLLLL", "SLLLSLLLSLLLL", "SLSLLSLLLLLLL"}) if (N() < 4 || th) for (auto& c : parts(10, N())) if (N() == 2 || c[0] % 3 == c[1] % 3) run(s, c, 2); return; }
    int big = th ? 1200 : N() == 2 ? 40 : N() == 3 ? 80 : 130;
    for (auto& s : all2) if (N() <= 3 || N() == 4 && trees::count_leaves(s) <= (th ? 16 : 7)) sweep(s, 4, big);
    if (N() >= 5) { for (auto& s : {S("L"), S("SLLLL"), S("SLLSLLLLL")}) { int L = trees::count_leaves(s); for (auto& c : parts(L, N())) { int mx = 0; for (int x : c) mx = std::max(mx, x); if (L < 5 || th || mx <= 2) run(s, c, 2); } } return; }
    if (N() == 4 && !th) { sweep("SSLLLLLLSLLLL", 2, 1); sweep(trees::uniform(2), 2, 1); }
    SV<S> deep = {"SLLSLLLSLLLLL", "SSLLLSLLLLLLL", "SLSLLSLLLLLLL", "SSSLLLLLLLLLL"}; for (auto& s : deep) sweep(s, th ? 4 : 2, th ? 1200 : N() <= 3 ? 70 : 1);
    if (th) for (auto& s : trees::all(3)) if (trees::depth(s) == 3 && trees::splits_at(s, 2) == 1 && trees::count_leaves(s) <= 13) sweep(s, 2, N() == 2 ? 40 : 1);
}
// ---- histories ------------------------------------------------------------------------------------
static void history(const S& id, const S& shape, const SV<int>& cnt, int n, int dom, int coef, const S& seq) {
    // cached leaf operators need constant coefficients
    int c1 = seq.find('K') == S::npos ? 2 : 3; if (coef == 2) coef = c1; base_opts(); PW w(shape, cnt, n, dom, coef); w.hps->setupStage(); w.hps->buildStage(); int rhs = -1, i = 0;
    for (char c : seq) { i++; S kinds; int bc = 0; S key = cat(id, " at ", i);
        switch (c) {
            case 'B': w.hps->buildStage(); break; case 'U': rhs = 1; w.up(1, false); break; case 'u': rhs = 2; w.up(2, true); break; case 'Z': rhs = 0; w.up(0, false); break;
            case 'S': kinds = "NVRM"; bc = 1; break; case 's': kinds = "DDDD"; bc = 2; break;
            case 'C': w.set(w.coef == 1 ? c1 : 1); w.hps->buildStage(); if (rhs >= 0) w.up(rhs, false); break;
            case 'K': opt("cache-operators", 2); w.hps->buildStage(); break;
            case 'H': opt("homogeneous-rhs", 2); w.hps->buildStage(); w.up(0, false); w.down("DNRD", 1, false); w.check(key, "DNRD", 0, 1); opt("homogeneous-rhs", 1); rhs = -1; w.hps->buildStage(); break;
            case 'W': walks(key, w.mesh->quadtree, shape, cnt, {0, 0, w.box()}, false); break;
        }
        if (bc) { w.down(kinds, bc, c == 's'); w.check(key, kinds, rhs, bc); } }
    base_opts();
}
static void hist_part() {
    bool th = ctx().thorough(); struct C { S shape; SV<SV<int>> cnt; };
    SV<C> cs; if (N() == 2) cs = {{"SLLSLLLLL", {{3, 4}, {2, 5}, {0, 7}}}, {"SSLLLLLLL", {{2, 5}, {6, 1}}}, {"SLSLLLLSLLLLL", {{5, 5}, {3, 7}}}};
    else if (N() == 3) cs = {{"SLLSLLLLL", {{2, 2, 3}, {3, 0, 4}}}, {"SSLLLLSLLLLLL", {{2, 4, 4}, {0, 5, 5}}}};
    else cs = {{"SLLSLLLLL", {{1, 2, 2, 2}, {2, 0, 3, 2}}}};
    const S ops = "BUuZSsCKH" + S("W"); int D = th ? 5 : N() == 2 ? 4 : 3;
    for (auto& c : cs) for (size_t p = 0; p < c.cnt.size(); p++) { int d = D; if (p && !th) d = 3;
        if (th && N() > 2) d = 4;
        SV<int> ix(d, 0); for (;;) { S s; for (int i : ix) s += ops[i];
            bool ok = true, u = false; for (char x : s) { if (x == 'U' || x == 'u' || x == 'Z') u = true; if (x == 'H') u = false; if ((x == 'S' || x == 's') && !u) ok = false; } char l = s.back(); ok = ok && (l == 'S' || l == 's' || l == 'H');
            if (ok && !th && d == 4) { bool same = false; for (size_t i = 1; i < s.size(); i++) same |= s[i] == s[i - 1]; ok = !same; }
            if (ok) { S id = cat("hist ", N(), " ranks ", c.shape, " ", show_cnt(c.cnt[p]), " ", s); if (vk::begin(id)) { sample(id); ctx().distinct++; ctx().traces++; mpx::run([&] { history(id, c.shape, c.cnt[p], 4, p % 2, p % 2 ? 1 : 2, s); }); } }
            int q = d - 1; while (q >= 0 && ++ix[q] == (int) ops.size()) ix[q--] = 0; if (q < 0) break; } }
}
// ---- every priority order of the ranks ------------------------------------------------------------
static void sched_part() {
    bool th = ctx().thorough(); SV<S> prios; { S p; for (int i = 0; i < N(); i++) p += char('0' + i); do prios.push_back(p); while (std::next_permutation(p.begin(), p.end())); }
    SV<S> sh = {"SLLLL", "SLLSLLLLL", "SSLLLLLLL", "SSLLLLLLSLLLL"}; if (th) for (auto& t : trees::all(2)) sh.push_back(t);
    for (size_t si = 0; si < sh.size(); si++) { auto& s = sh[si]; int L = trees::count_leaves(s); auto P = parts(L, N());
        for (auto& c : P) { int ne = 0, mx = 0; for (int x : c) ne += x > 0, mx = std::max(mx, x); if (!th && N() > 2 && (ne < N() - 1 || mx > (L + N() - 1) / N() + (L < 10 && N() < 4))) continue; if (th && N() > 2 && (ne < N() - 1 || mx > L / 2 + 1)) continue;
            S id = cat("sched ", N(), " ranks ", s, " ", show_cnt(c)); if (!vk::begin(id)) continue; ctx().distinct++; sample(id); SV<mpx::Op> base; int differ = 0;
            for (S prog : {"WuKs", "USZS"}) { base.clear(); for (auto& pr : prios) { ctx().traces++; S key = cat(id, " ", prog, " priority ", pr); auto& t = mpx::run([&] { history(key, s, c, 2, prog[0] == 'U', 2, prog); }, pr, true);
                if (base.empty()) base = t; else if (!mpx::failed() && !(t == base)) differ = 1; int any = 0; PMPI_Allreduce(&differ, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (any && R() == 0) violation(key, "the operations of a rank depend on the schedule"); differ = 0; } } } }
}
// ---- parallel meshes ------------------------------------------------------------------------------
static void files(const S& id, const S& dir, Mesh& m, const SV<CellQ>& mine, const std::function<double(double, double)>& fn, int number);
static void mesh_case(const S& id, const S& want_raw, int lo, int hi, const Root& r, bool again, bool vtk, int coef) {
    auto sp = splits_of(want_raw); double w = r.b.x1 - r.b.x0, h = r.b.y1 - r.b.y0;
    // the criterion: the first cell of each split quadrant, told from others by its exact position
    SV<std::pair<double, double>> pts; for (auto& p : sp) { Rect e = rect_of(p, r.b); pts.push_back({e.x0 + 0.5 * (e.x1 - e.x0) / r.nx, e.y0 + 0.5 * (e.y1 - e.y0) / r.ny}); }
    auto crit = [=](double x, double y) { for (auto& q : pts) if (std::abs(q.first - x) < w / r.nx / 4096 && std::abs(q.second - y) < h / r.ny / 4096) return true; return false; };
    S shape = refined(crit, lo, hi, r); auto L = trees::leaves(shape);
    base_opts(); Mesh m; ef::FiniteVolumeNodeFactory nf(MPI_COMM_WORLD); Grid g(MPI_COMM_WORLD, r.nx, r.b.x0, r.b.x1, r.ny, r.b.y0, r.b.y1); Patch root(MPI_COMM_WORLD, g); p4est_t* p4 = nullptr;
    if (again) { m.refineByFunction([&](double x, double y) { return x < r.b.x0 + w / 2; }, 0.5, 1, 2, root, nf); p4 = m.quadtree.p4est; drop_nodes(m.quadtree); free_p4est(p4); }
    m.refineByFunction(crit, 0.5, lo, hi, root, nf); p4 = m.quadtree.p4est;
    // which leaves are here: contiguous, and what p4est says
    SV<int> cnt(N()); for (int i = 0; i < N(); i++) cnt[i] = p4->global_first_quadrant[i + 1] - p4->global_first_quadrant[i]; int tot = 0, mn = 1 << 30, mx = 0; for (int c : cnt) { tot += c; mn = std::min(mn, c); mx = std::max(mx, c); }
    if (tot != (int) L.size()) { if (focus & REFINE) mpx::fail(id + " shape", cat("the forest has ", tot, " leaves, expected ", L.size())); } else {
        if (mx - mn > 1 && focus == ALL) mpx::fail(id + " partition", cat("uneven partition ", show_cnt(cnt)));
        size_t first = 0; for (int i = 0; i < R(); i++) first += cnt[i];
        auto d = part_diff(m.quadtree, shape, cnt, r); if (d != "" && focus == ALL) mpx::fail(id + " tree", d);
        if (focus == REFINE) { SV<S> have, want; for (auto& [k, v] : m.quadtree.map) if (v && v->leaf) have.push_back(k); for (int i = 0; i < cnt[R()]; i++) want.push_back(L[first + i].path); std::sort(want.begin(), want.end()); if (have != want) mpx::fail(id + " leaves", cat("rank ", R(), " has the leaves ", show(have), ", expected ", show(want))); d = "x"; }
        if (focus == CELLS || focus == FILES) d = "";
        if (d == "") { auto all = cells_of(shape, r); size_t per = r.nx * r.ny; SV<CellQ> mine(all.begin() + first * per, all.begin() + (first + cnt[R()]) * per); size_t n = mine.size(); double sc = scale_of(r.b); S err;
            if (m.npoints != (int) (4 * n) || m.ncells != (int) n || m.points.size() != 12 * n || m.connectivity.size() != 4 * n || m.offsets.size() != n || m.types.size() != n) err = cat("counts ", m.npoints, " ", m.ncells, " ", m.points.size(), " ", m.connectivity.size(), " ", m.offsets.size(), " ", m.types.size(), " for ", n, " cells");
            else for (size_t k = 0; k < n && err == ""; k++) { double X[4] = {mine[k].x0, mine[k].x1, mine[k].x1, mine[k].x0}, Y[4] = {mine[k].y0, mine[k].y0, mine[k].y1, mine[k].y1}; if (m.offsets[k] != (int) (4 * (k + 1)) || m.types[k] != 9) err = cat("offset or type of cell ", k); for (int c = 0; c < 4 && err == ""; c++) { int p = m.connectivity[4 * k + c]; if (p < 0 || p >= (int) (4 * n)) err = cat("connectivity of cell ", k); else if (!nearly(m.points[3 * p], X[c], sc) || !nearly(m.points[3 * p + 1], Y[c], sc) || m.points[3 * p + 2] != 0) err = cat("corner ", c, " of cell ", k); } }
            if (err != "" && (focus & CELLS)) mpx::fail(id + " arrays", cat("rank ", R(), ": ", err));
            auto fx = [](double x, double y) { return 3 * x - 7 * y + x * y; }; m.addMeshFunction(fx, "f"); auto& v = *m.mesh_functions.back(); bool ok = v.size() == n && v.name() == "f"; for (size_t k = 0; k < n && ok; k++) ok = std::abs(v[k] - fx((mine[k].x0 + mine[k].x1) / 2, (mine[k].y0 + mine[k].y1) / 2)) < 1e-9 * (1 + sc * sc); if (!ok && (focus & CELLS)) mpx::fail(id + " function", cat("rank ", R(), ": a mesh function has wrong values"));
            if (vtk && (focus & FILES) && err == "" && ok) { S dir = ctx().scratch + "/vtk"; if (R() == 0) mkdir(dir.c_str(), 0755); MPI_Barrier(MPI_COMM_WORLD); files(id, dir, m, mine, fx, L.size() % 2 ? 3 : -1); }
            m.clearMeshFunctions();
            if (r.nx == r.ny && r.nx >= 2 && coef >= 0 && (focus & SOLVE)) { Solver s; s.solver_type = ef::FiniteVolumeSolverType::FivePointStencil; auto& k = coefs()[coef]; s.alpha_function = k.alpha; s.beta_function = k.beta; s.lambda_function = k.lambda; HPS hps(MPI_COMM_WORLD, m, s); hps.buildStage(); hps.upwardsStage(std::function<double(double, double)>([](double x, double y) { return rhs_fn(1, x, y); })); hps.solveStage(bcf("DNRD", 1, r.b));
                const Sol& all = ref(shape, r.nx, r.b.x0 < 0 ? 0 : 1, coef, "DNRD", 1, 1); auto own = owners(shape, cnt); Sol got, want; for (auto& [p, x] : all) if (own[p].mine) want[p] = x; for (auto& [p, nd] : m.quadtree.map) if (nd && nd->leaf) got[p] = nd->data.vectorU().data(); S wh; double e = diff(got, want, &wh); if (!(e < TOL)) mpx::fail(id + " solve", cat("rank ", R(), ": error ", e, " at ", wh)); }
        }
    }
    drop_nodes(m.quadtree); free_p4est(p4);
}
static bool readable(const S& f) { return access(f.c_str(), R_OK) == 0; }
static SV<double> numbers(const S& t) { SV<double> v; std::istringstream i(t); double d; while (i >> d) v.push_back(d); return v; }
static void files(const S& id, const S& dir, Mesh& m, const SV<CellQ>& mine, const std::function<double(double, double)>& fn, int number) {
    S base = dir + "/out"; m.toVTK(base, number); S mb = base + "-mesh" + (number == -1 ? "" : cat("-000", number)); MPI_Barrier(MPI_COMM_WORLD);
    auto kid = [](const xr::Node& n, const S& k) -> const xr::Node& { static xr::Node none; auto v = n.all(k); return v.empty() ? none : *v[0]; };
    xr::Node h; S err; if (!xr::read(mb + ".pvtu", h, err)) mpx::fail(id + " header", "header: " + err);
    else {
        SV<S> src; for (auto* c : kid(h, "PUnstructuredGrid").all("Piece")) src.push_back(c->at("Source"));
        std::set<S> u(src.begin(), src.end()); if ((int) src.size() != N() || u.size() != src.size()) mpx::fail(id + " pieces", cat("header names the pieces ", show(src), " on ", N(), " ranks"));
        else { SV<double> all; int nmine = 0; bool have = false; xr::Node p;
            // every piece has to exist; this rank's cells have to be those of exactly one piece
            for (auto& f : src) { if (!xr::read(dir + "/" + f, p, err)) { mpx::fail(id + " pieces", "piece " + f + ": " + err); continue; }
                auto& pc = kid(kid(p, "UnstructuredGrid"), "Piece"); auto pts = numbers(kid(kid(pc, "Points"), "DataArray").text), v = numbers(kid(kid(pc, "CellData"), "DataArray").text); nmine++;
                bool ok = pc.at("NumberOfCells") == std::to_string(mine.size()) && pc.at("NumberOfPoints") == std::to_string(4 * mine.size()) && pts.size() == 12 * mine.size() && v.size() == mine.size();
                for (size_t k = 0; ok && k < mine.size(); k++) { double e = fn((mine[k].x0 + mine[k].x1) / 2, (mine[k].y0 + mine[k].y1) / 2); ok = std::abs(pts[12 * k] - mine[k].x0) < 1e-9 && std::abs(pts[12 * k + 1] - mine[k].y0) < 1e-9 && std::abs(pts[12 * k + 6] - mine[k].x1) < 1e-9 && std::abs(pts[12 * k + 7] - mine[k].y1) < 1e-9 && std::abs(v[k] - e) < 1e-9 * (1 + std::abs(e)); }
                have |= ok; }
            if (!have) mpx::fail(id + " piece", cat("rank ", R(), ": no piece holds this rank's cells and data")); } }
    S q = base + "-quadtree" + (number == -1 ? "" : cat("-000", number)) + ".pvtu"; if (!readable(q)) mpx::fail(id + " quadtree file", "no file " + q);
    MPI_Barrier(MPI_COMM_WORLD); if (R() == 0) { S c = "rm -f '" + dir + "'/out-*"; if (system(c.c_str())) {} } MPI_Barrier(MPI_COMM_WORLD);
}
// the parallel writer on every way of dividing the ranks into communicators, ranks in order or reversed
struct UCells : ef::UnstructuredGridNodeBase { ef::Vector<double> p; ef::Vector<int> c, o, t; int nc = 0; S getNumberOfPoints() override { return std::to_string(4 * nc); } S getNumberOfCells() override { return std::to_string(nc); } ef::DataArrayNodeBase& getPoints() override { return p; } ef::DataArrayNodeBase& getConnectivity() override { return c; } ef::DataArrayNodeBase& getOffsets() override { return o; } ef::DataArrayNodeBase& getTypes() override { return t; }
    UCells(int nc) : nc(nc) { SV<double> P; SV<int> C, O, T; for (int k = 0; k < nc; k++) { for (double v : {k + 0., 0., 0., k + 1., 0., 0., k + 1., 1., 0., k + 0., 1., 0.}) P.push_back(v); for (int i = 0; i < 4; i++) C.push_back(4 * k + i); O.push_back(4 * k + 4); T.push_back(9); } p = ef::Vector<double>(P); c = ef::Vector<int>(C); o = ef::Vector<int>(O); t = ef::Vector<int>(T); p.name() = "points"; p.setNumberOfComponents("3"); c.name() = "connectivity"; c.setType("Int64"); o.name() = "offsets"; o.setType("Int64"); t.name() = "types"; t.setType("Int64"); } };
static void sub_files(const S& id, const SV<int>& color, bool rev, bool dflt) {
    S dir = ctx().scratch + "/sub"; if (R() == 0) mkdir(dir.c_str(), 0755); MPI_Barrier(MPI_COMM_WORLD);
    MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, color[R()], rev ? N() - R() : R(), &c); int me, n; MPI_Comm_rank(c, &me); MPI_Comm_size(c, &n); S base = cat(dir, "/g", color[R()]);
    { UCells u(R() + 1); ef::Vector<double> d(SV<double>(R() + 1, 0.5 + R())); d.name() = "rank"; auto w = dflt ? std::make_unique<ef::PUnstructuredGridVTK>() : std::make_unique<ef::PUnstructuredGridVTK>(c); w->buildMesh(u); w->addCellData(d); w->toVTK(base); }
    MPI_Barrier(MPI_COMM_WORLD);
    auto kid = [](const xr::Node& n, const S& k) -> const xr::Node& { static xr::Node none; auto v = n.all(k); return v.empty() ? none : *v[0]; };
    xr::Node h; S err; if (!xr::read(base + ".pvtu", h, err)) mpx::fail(id + " header", "header: " + err);
    else { SV<S> src; for (auto* q : kid(h, "PUnstructuredGrid").all("Piece")) src.push_back(q->at("Source")); std::multiset<S> have, want; for (int i = 0; i < N(); i++) if (color[i] == color[R()]) want.insert(std::to_string(i + 1));
        for (auto& f : src) { xr::Node p; if (!xr::read(dir + "/" + f, p, err)) { mpx::fail(id + " pieces", "piece " + f + ": " + err); continue; } have.insert(kid(kid(p, "UnstructuredGrid"), "Piece").at("NumberOfCells")); }
        if (have != want) mpx::fail(id + " pieces", cat("the header names the pieces ", show(src), " for a communicator of ", n, " ranks, which do not hold these ranks' cells")); }
    MPI_Comm_free(&c); MPI_Barrier(MPI_COMM_WORLD); if (R() == 0) { S q = "rm -f '" + dir + "'/g*"; if (system(q.c_str())) {} } MPI_Barrier(MPI_COMM_WORLD);
}
static void sub_part() {
    if (N() > 4) return; SV<int> c(N(), 0);
    for (;;) { bool canon = true; int mx = -1; for (int x : c) { if (x > mx + 1) canon = false; mx = std::max(mx, x); }
        if (canon) for (int k = 0; k < 3; k++) { if (k == 2 && mx) continue; S id = cat("communicators ", N(), " ranks ", show_cnt(c), k == 1 ? " reversed" : k == 2 ? " default" : ""); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().states += mx + 1; ctx().transitions += N(); sample(id); mpx::run([&] { sub_files(id, c, k == 1, k == 2); }); }
        int i = N() - 1; while (i >= 0 && ++c[i] == N()) c[i--] = 0; if (i < 0) break; }
}
static void mesh_part() {
    bool th = ctx().thorough(); int k = 0; SV<Root> roots; for (auto& d : SV<std::pair<S, Box>>(domains().begin(), domains().begin() + 2)) for (auto p : SV<std::pair<int, int>>{{2, 2}, {4, 4}, {3, 2}, {1, 1}}) roots.push_back({p.first, p.second, d.second});
    auto go = [&](const S& t, int lo, int hi, int ri, bool again, bool vtk) { auto& r = roots[ri % roots.size()]; S id = cat(focus == ALL ? "mesh " : focus == REFINE ? "refine " : focus == CELLS ? "cells " : "files ", N(), " ranks ", t, " ", lo, "..", hi, " ", r.nx, "x", r.ny, ri % 8 < 4 ? " unit" : " rect", again ? " again" : "", vtk ? " files" : "", " coef", k % 4); if (!vk::begin(id)) return; ctx().distinct++; ctx().traces++; sample(id); mpx::run([&] { mesh_case(id, t, lo, hi, r, again, vtk, k % 4); }); };
    for (auto& t : trees::all(2)) { k++; if (N() > 8 && k % 5 != 1 && k != 17) continue; go(t, 0, 2, k, k % 3 == 0, true); go(t, 1, 2, k + 3, false, k % 2 || focus == FILES); if (th) for (int ri = 0; ri < 8; ri++) go(t, ri % 2, 2, ri, ri % 3 == 0, true); }
    if (N() > 8) { return; }
    int c = 0; for (auto& t : trees::all(3)) if (trees::depth(t) == 3) { int sp = trees::splits_at(t, 2); if (sp > (th ? 2 : 1)) continue; k++; if (!th && c++ % 3) continue; go(t, 0, 3, k, k % 5 == 0, k % 4 == 0); }
    for (int l = 0; l <= 3; l++) go("L", l, l, 0, false, l == 2);
}
int main(int argc, char** argv) {
    S part; for (int i = 1; i + 1 < argc; i++) if (S(argv[i]) == "--part") part = argv[i + 1];
    start(argc, argv); mpx::open();
    if (part == "solve") solve_part(); else if (part == "hist") hist_part(); else if (part == "sched") sched_part(); else if (part == "mesh") mesh_part();
    else if (part == "tree" || part == "walk") { focus = part == "tree" ? TREE : WALK; solve_part(); }
    else if (part == "refine" || part == "cells" || part == "files") { focus = part == "refine" ? REFINE : part == "cells" ? CELLS : FILES; mesh_part(); if (focus == FILES) sub_part(); } else return 9;
    return mpx::finish();
}
