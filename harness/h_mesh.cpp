// C06 (--part tree), C07 (--part walk), C08 (--part refine), C09 (--part arrays), C18 (--part vtk).
#include "mesh.hpp"
#include "xmlread.hpp"
#include <list>
#include <memory>
#include <climits>
#include <sys/stat.h>
#include <dirent.h>
using namespace vk;
using QT = ef::Quadtree<Patch>;
static SV<SV<int>> tuples(int n, int k) { SV<SV<int>> r; SV<int> t(n, 0); if (k == 0 && n) return r; for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] >= k) t[i--] = 0; if (i < 0) break; } return r; }
static const SV<Root>& roots() {
    static SV<Root> r; if (r.empty()) { SV<Box> bs = {{-1, 1, -1, 1}, {0.5, 2.5, -1, 0.25}, {1e3, 1e3 + 1e-2, -7, 93}, {-3e-4, 1e-4, -5, -4.5}};
        SV<std::pair<int, int>> ns = {{2, 2}, {1, 1}, {3, 2}, {1, 4}, {5, 5}, {4, 3}, {2, 7}}; for (auto& b : bs) for (auto& n : ns) r.push_back({n.first, n.second, b}); }
    return r;
}
static S rname(const Root& r) { return cat(r.nx, "x", r.ny, " on [", r.b.x0, ",", r.b.x1, "]x[", r.b.y0, ",", r.b.y1, "]"); }
// staircases: from the root follow a path of child indices, splitting only along it
static S stair(const SV<int>& p, size_t k = 0) { if (k == p.size()) return "L"; S s = "S"; for (int c = 0; c < 4; c++) s += c == p[k] ? stair(p, k + 1) : S("L"); return s; }
static SV<S> family(bool all3, int few = 2, int many = 15) { SV<S> r = trees::all(2); for (auto& t : trees::all(3)) if (trees::depth(t) == 3) { int n = trees::splits_at(t, 2); if (all3 || n <= few || n >= many) r.push_back(t); } return r; }
static SV<S> stairs(int lo, int hi) { SV<S> r; for (int d = lo; d <= hi; d++) for (auto& ab : tuples(2, 4)) { SV<int> p; for (int k = 0; k < d; k++) p.push_back(ab[k % 2]); r.push_back(stair(p)); } return r; }
struct TW {   // forest, root patch, factory, tree
    p4est_t* p4; Grid grid; Patch root; ef::FiniteVolumeNodeFactory nf; SV<QT*> q;
    TW(const S& shape, const Root& r, int ntrees = 1) : grid(MPI_COMM_WORLD, r.nx, r.b.x0, r.b.x1, r.ny, r.b.y0, r.b.y1), root(MPI_COMM_WORLD, grid), nf(MPI_COMM_WORLD) { p4 = make_p4est(shape, r.b); for (int i = 0; i < ntrees; i++) q.push_back(make()); }
    QT make_value() { return QT(MPI_COMM_WORLD, p4, root, nf); }
    QT* make() { return new QT(MPI_COMM_WORLD, p4, root, nf); }
    ~TW() { for (auto* t : q) { drop_nodes(*t); delete t; } free_p4est(p4); }
};

// ================================ C06 =================================================================
static void tree_case(const S& shape, const Root& r, int mode) {
    S id = cat(shape.size() < 90 ? shape : cat("stair#", shape.size(), shape.substr(0, 60)), " ", rname(r), mode ? cat(" mode", mode) : ""); if (!vk::begin(id)) return;
    ctx().distinct++; ctx().traces++; ctx().states += trees::preorder(shape).size(); if (trees::count_leaves(shape) > 4) sample(id);
    try {
        TW w(shape, r, 0);
        int tag = 0; w.p4->user_pointer = mode & 1 ? &tag : nullptr; void* up = w.p4->user_pointer;
        w.q.push_back(w.make()); ctx().transitions++;
        if (w.p4->user_pointer != up) violation(id + " pointer", "building a tree leaves the forest's user pointer changed");
        auto d = tree_diff(*w.q[0], shape, r); if (d != "") violation(id, d);
        std::set<Node*> uniq; for (auto& [k, v] : w.q[0]->map) if (v) uniq.insert(v); if (uniq.size() != trees::preorder(shape).size()) violation(id + " shared", "nodes are shared between paths");
        if (w.q[0]->map.count("0") && &w.q[0]->root() != &w.q[0]->map["0"]->data) violation(id + " root", "root() is not the root's patch");
        if (mode) {   // a second tree on the same forest; move it over; both must be right
            w.q.push_back(w.make()); ctx().transitions++; d = tree_diff(*w.q[1], shape, r); if (d != "") violation(id + " second", d); d = tree_diff(*w.q[0], shape, r); if (d != "") violation(id + " first after second", d);
            auto* t = new QT(); *t = std::move(*w.q[1]); w.q.push_back(t); d = tree_diff(*t, shape, r); if (d != "") violation(id + " moved", d);
            auto* u = w.make(); drop_nodes(*t); *t = std::move(*u); d = tree_diff(*t, shape, r); if (d != "") violation(id + " moved over", d); delete u; ctx().transitions += 2;
        }
    } catch (std::exception& e) { violation(id + " throws", e.what()); }
}
// a tree moved over another one replaces it completely; the tree moved from may be filled again
static void move_case(const SV<S>& shapes, const SV<int>& moves) {
    S id = "moves"; for (auto& s : shapes) id += " " + s; for (int m : moves) id += cat(" ", m / 8, "<-", m % 8); if (!vk::begin(id)) return;
    ctx().distinct++; ctx().traces++; if (shapes[0].size() > 5) sample(id);
    try {
        SV<std::unique_ptr<TW>> w; SV<Root> r; SV<int> holds; for (size_t i = 0; i < shapes.size(); i++) { r.push_back(roots()[(7 * i + shapes[i].size()) % roots().size()]); w.push_back(std::make_unique<TW>(shapes[i], r[i], 0)); holds.push_back(i); }
        SV<QT*> q; for (auto& x : w) q.push_back(x->make());
        std::set<Node*> all; for (auto* t : q) for (auto& [k, v] : t->map) all.insert(v);
        for (int m : moves) { int to = m / 8, from = m % 8; ctx().transitions++; ctx().states++;
            if (holds[from] < 0) { *q[from] = w[from]->make_value(); holds[from] = from; for (auto& [k, v] : q[from]->map) all.insert(v); }
            *q[to] = std::move(*q[from]); if (to != from) { holds[to] = holds[from]; holds[from] = -1; }
            for (size_t i = 0; i < q.size(); i++) { if (holds[i] < 0) continue; auto d = tree_diff(*q[i], shapes[holds[i]], r[holds[i]]); if (d == "" && q[i]->map.size() != trees::preorder(shapes[holds[i]]).size()) d = "paths of another tree remain"; if (d == "" && &q[i]->root() != &q[i]->map.at("0")->data) d = "root() is not the root's patch"; if (d == "" && q[i]->p4est != w[holds[i]]->p4) d = "the forest is not that of the tree moved"; if (d != "") violation(cat(id, " tree ", i), d); } }
        for (auto* n : all) delete n; for (auto* t : q) { t->map.clear(); delete t; }
    } catch (std::exception& e) { violation(id + " throws", e.what()); }
}
static void tree_part() {
    bool th = ctx().thorough();
    for (auto& a : trees::all(2)) for (auto& b : trees::all(2)) { for (int m : {1, 8, 0}) for (int m2 : {1, 8}) move_case({a, b}, {m, m2}); }
    for (auto& c : {"L", "SLLLL", "SLLSLLLLL"}) for (auto& ms : tuples(th ? 4 : 3, 9)) { SV<int> mv; for (int x : ms) mv.push_back(x / 3 * 8 + x % 3); move_case({c, "SSLLLLLLL", stair({1, 2, 3})}, mv); }
    for (auto& t : trees::all(2)) for (auto& r : roots()) tree_case(t, r, 1 + (t.size() > 5));
    auto f = family(true); int k = 0; for (auto& t : f) if (trees::depth(t) == 3) { tree_case(t, roots()[k++ % roots().size()], k % 7 == 0); }
    for (int d : {11, 12, 13, 15, 16, 17, 18, 20, 24, 28, 29}) for (auto& t : stairs(d, d)) tree_case(t, roots()[k++ % 14], k % 3 == 0);
    for (auto& t : stairs(4, th ? 16 : 10)) tree_case(t, roots()[k++ % roots().size()], k % 3 == 0);
    for (int l = 3; l <= (th ? 6 : 4); l++) tree_case(trees::uniform(l), roots()[l], 1);
    for (auto& p : tuples(th ? 6 : 4, 4)) tree_case(stair(p), roots()[k++ % roots().size()], 0);
}

// ================================ C07 =================================================================
// model of the walks: sequences of events
static SV<S> m_pre(const S& shape, const std::set<S>& prune) { SV<S> r; std::vector<S> stop; for (auto& c : trees::preorder(shape)) { bool cut = false; for (auto& p : stop) cut |= c.path.size() > p.size() && c.path.compare(0, p.size(), p) == 0; if (cut) continue; r.push_back(c.path); if (prune.count(c.path)) stop.push_back(c.path); } return r; }
static SV<S> m_post(const S& shape) { SV<S> r; for (auto& c : trees::postorder(shape)) r.push_back(c.path); return r; }
static S mark(const S& shape, const S& path, bool leaf) { return (leaf ? "leaf " : "family ") + path; }
static SV<S> m_marked(const SV<S>& v, const S& shape) { std::map<S, bool> lf; for (auto& c : trees::preorder(shape)) lf[c.path] = c.leaf; SV<S> r; for (auto& p : v) r.push_back(mark(shape, p, lf[p])); return r; }
enum { PRE, PRED, POST, POSTD, MERGE, SPLIT, NKIND };
static const char* kname[] = {"pre", "pre-data", "post", "post-data", "merge", "split"};
static SV<S> real_walk(QT& q, int kind, const std::set<S>& prune, S& err) {
    SV<S> got; std::map<Patch*, S> of; for (auto& [k, v] : q.map) if (v) of[&v->data] = k;
    auto node = [&](Node* n) { auto it = of.find(&n->data); S p = it == of.end() ? "foreign node " + n->path : it->second; return p; };
    std::function<int(Node*)> vn = [&](Node* n) { S p = node(n); got.push_back(p); return prune.count(p) ? 0 : 1; };
    std::function<void(Patch&)> vd = [&](Patch& d) { auto it = of.find(&d); got.push_back(it == of.end() ? S("foreign data") : it->second); };
    std::function<int(Node*)> vl = [&](Node* n) { S p = node(n); if (!n->leaf) err = "leaf callback for branch " + p; got.push_back("leaf " + p); return prune.count(p) ? 0 : 1; };
    std::function<int(Node*, SV<Node*>)> vf = [&](Node* n, SV<Node*> ch) { S p = node(n); got.push_back("family " + p); if (ch.size() != 4) err = cat("family ", p, " has ", ch.size(), " children"); else for (int i = 0; i < 4; i++) { auto it = q.map.find(p + std::to_string(i)); if (it == q.map.end() || it->second != ch[i]) err = cat("child ", i, " of family ", p, " is not its child node"); } return prune.count(p) ? 0 : 1; };
    switch (kind) { case PRE: q.traversePreOrder(vn); break; case PRED: q.traversePreOrder(vd); break; case POST: q.traversePostOrder(vn); break; case POSTD: q.traversePostOrder(vd); break; case MERGE: q.merge(vl, vf); break; default: q.split(vl, vf); }
    return got;
}
static SV<S> model_walk(const S& shape, int kind, const std::set<S>& prune) { switch (kind) { case PRE: return m_pre(shape, prune); case PRED: return m_pre(shape, {}); case POST: case POSTD: return m_post(shape); case MERGE: return m_marked(m_post(shape), shape); default: return m_marked(m_pre(shape, prune), shape); } }
static void walk_check(const S& key, QT& q, const S& shape, int kind, const std::set<S>& prune) {
    S err; ctx().transitions++; auto got = real_walk(q, kind, prune, err), want = model_walk(shape, kind, prune); ctx().states += want.size();
    if (err != "") violation(key + " callback", err); if (got != want) violation(key, cat(kname[kind], " visits ", show(got).substr(0, 400), ", expected ", show(want).substr(0, 400)));
}
static void walk_part() {
    bool th = ctx().thorough(); Root r{2, 2, {-1, 1, -1, 1}};
    auto fam = family(th, 1, 16); auto st = stairs(4, th ? 12 : 8); fam.insert(fam.end(), st.begin(), st.end()); fam.push_back(trees::uniform(4));
    for (auto& shape : fam) {
        auto cells = trees::preorder(shape); int n = cells.size(); S nm = shape.size() < 90 ? shape : cat("tree of ", n, " nodes ", shape.substr(0, 60), " #", std::hash<S>{}(shape) % 100000);
        S id = "walks " + nm; if (vk::begin(id)) { TW w(shape, r); ctx().distinct++; ctx().traces++; for (int k = 0; k < NKIND; k++) walk_check(id + " " + kname[k], *w.q[0], shape, k, {}); }
        // prune sets: all for small trees, all single nodes and pairs for larger ones
        id = "prune " + nm; if (!vk::begin(id)) continue; ctx().distinct++; if (n > 10) sample(id);
        TW w(shape, r); auto run = [&](const std::set<S>& pr) { ctx().traces++; for (int k : {PRE, SPLIT}) { S key = cat(id, " ", kname[k], " stopping at ", show(pr)); walk_check(key, *w.q[0], shape, k, pr); } };
        int full = th ? 17 : 13;
        if (n <= full) for (long m = 1; m < (1L << n); m++) { std::set<S> pr; for (int i = 0; i < n; i++) if (m >> i & 1) pr.insert(cells[i].path); run(pr); }
        else if (n <= (th ? 85 : 33)) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) run({cells[i].path, cells[j].path});
        else for (int i = 0; i < n; i++) run({cells[i].path});
    }
    // histories: two trees on one forest, a third on its own, any sequence of walks, rebuilds and moves
    SV<S> sh = {"L", "SLLLL", "SLSLLLLLL", "SSLLLLLLSLLLL"}; if (th) { sh.push_back(stair({3, 0, 3})); sh.push_back(trees::uniform(2)); }
    struct Op { int kind, tree; std::set<S> prune; S name; }; SV<Op> ops;
    for (int k = 0; k < NKIND; k++) for (int t = 0; t < 2; t++) ops.push_back({k, t, {}, cat(kname[k], " ", t)});
    for (int k : {PRE, POST, MERGE}) ops.push_back({k, 2, {}, cat(kname[k], " 2")});
    ops.push_back({PRE, 0, {"00"}, "pruned pre 0"}); ops.push_back({SPLIT, 1, {"0"}, "pruned split 1"}); ops.push_back({PRE, 1, {"0"}, "pruned pre 1"});
    ops.push_back({100, 0, {}, "rebuild 0"}); ops.push_back({101, 1, {}, "move new into 1"}); ops.push_back({102, 0, {}, "forest pointer"}); ops.push_back({103, 0, {}, "one-node pre 0"}); ops.push_back({104, 1, {}, "destroy and rebuild 1"});
    int D = th ? 4 : 3;
    for (auto& shape : sh) for (auto& first : tuples(D - 1, ops.size())) {
        if (shape == sh[3] && !th && first[0] % 3) continue;
        S id = "history on " + shape; for (int i : first) id += " | " + ops[i].name; if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        S shape2 = shape == "L" ? "SLLLL" : "SLLSLLLLL";
        for (size_t last = 0; last < 15; last++) { ctx().traces++; ctx().states += D;
            TW w(shape, r, 2), v(shape2, r); auto seq = first; seq.push_back(last); int step = 0; int tag = 0;
            for (int i : seq) { auto& o = ops[i]; step++;
                if (o.kind < NKIND) walk_check(cat(id, " | ", ops[last].name, " step ", step), o.tree == 2 ? *v.q[0] : *w.q[o.tree], o.tree == 2 ? shape2 : shape, o.kind, o.prune);
                else if (o.kind == 100) { auto* x = w.q[0]; w.q[0] = w.make(); drop_nodes(*x); delete x; }
                else if (o.kind == 101) { auto* x = w.make(); drop_nodes(*w.q[1]); *w.q[1] = std::move(*x); delete x; }
                else if (o.kind == 102) { w.p4->user_pointer = &tag; }
                else if (o.kind == 103) { std::function<int(Node*)> f = [&](Node* n) { return 0; }; w.q[0]->traversePreOrder(f); }
                else { drop_nodes(*w.q[1]); delete w.q[1]; w.q[1] = w.make(); }
            }
        }
    }
}

// ================================ C08 / C09 ============================================================
using Fn = std::function<bool(double, double)>;
// criterion that holds exactly at the given cell of each quadrant in D
static Fn trigger(const std::set<S>& D, const Root& r, const std::map<S, std::pair<int, int>>& cell) {
    auto pts = std::make_shared<SV<std::pair<double, double>>>(); double tx = 0, ty = 0; int dep = 0; for (auto& p : D) dep = std::max(dep, (int) p.size());
    for (auto& p : D) { Rect e = rect_of(p, r.b); auto [i, j] = cell.at(p); pts->push_back({e.x0 + (i + 0.5) * (e.x1 - e.x0) / r.nx, e.y0 + (j + 0.5) * (e.y1 - e.y0) / r.ny}); }
    tx = (r.b.x1 - r.b.x0) / r.nx / std::pow(2.0, dep + 8); ty = (r.b.y1 - r.b.y0) / r.ny / std::pow(2.0, dep + 8);
    return [=](double x, double y) { for (auto& q : *pts) if (std::abs(q.first - x) < tx && std::abs(q.second - y) < ty) return true; return false; };
}
struct MW {   // a mesh that is refined, possibly repeatedly
    Mesh* m; ef::FiniteVolumeNodeFactory nf; std::list<Patch> roots; p4est_t* own = nullptr;
    MW() : m(new Mesh()), nf(MPI_COMM_WORLD) {}
    p4est_t* last = nullptr;
    void refine(const Fn& f, double thr, int lo, int hi, const Root& r) {
        auto old = m->quadtree.map; Grid g(MPI_COMM_WORLD, r.nx, r.b.x0, r.b.x1, r.ny, r.b.y0, r.b.y1); roots.emplace_back(MPI_COMM_WORLD, g);
        m->refineByFunction(f, thr, lo, hi, roots.back(), nf); for (auto& [k, v] : old) delete v;
        if (last && last != m->quadtree.p4est) free_p4est(last); last = m->quadtree.p4est;
    }
    ~MW() { drop_nodes(m->quadtree); delete m; if (last) free_p4est(last); }
};
static S mesh_diff(Mesh& m, const S& shape, const Root& r) { auto d = tree_diff(m.quadtree, shape, r); if (d == "") d = arrays_diff(m, shape, r); return d; }
static SV<std::pair<int, int>> cells(const Root& r) { SV<std::pair<int, int>> c; for (int i = 0; i < r.nx; i++) for (int j = 0; j < r.ny; j++) c.push_back({i, j}); return c; }
static std::map<S, std::pair<int, int>> rotating(const std::set<S>& D, const Root& r, int k0) { auto c = cells(r); std::map<S, std::pair<int, int>> m; int k = k0; for (auto& p : D) m[p] = c[(k++) % c.size()]; return m; }
static void refine_case(const S& id, const Fn& f, int lo, int hi, const Root& r) {
    if (!vk::begin(id)) return; ctx().distinct++; ctx().traces++; ctx().transitions++;
    try { S want = refined(f, lo, hi, r); ctx().states += want.size(); if (want.size() > 5) sample(id); MW w; w.refine(f, 0.5, lo, hi, r); auto d = mesh_diff(*w.m, want, r); if (d != "") violation(id, d + " (expected mesh " + want.substr(0, 200) + ")"); }
    catch (std::exception& e) { violation(id + " throws", e.what()); }
}
static void refine_part() {
    bool th = ctx().thorough(); auto& R = roots(); int k = 0;
    // every tree of depth <= 2 as the demand, every trigger cell, every pair of levels
    for (size_t ri : {0, 1, 3, 9, 16, 26}) for (auto& t : trees::all(2)) { auto D = splits_of(t); auto cs = cells(R[ri]); auto pairs = [&] { SV<std::pair<int, int>> v; for (int lo = 0; lo <= 3; lo++) for (int hi = lo; hi <= 3; hi++) v.push_back({lo, hi}); return v; }();
        for (size_t c = 0; c < cs.size(); c++) for (auto [lo, hi] : pairs) { if (D.empty() && c) continue; std::map<S, std::pair<int, int>> m; int q = 0; for (auto& p : D) { m[p] = cs[(c + q) % cs.size()]; q++; } refine_case(cat("demand ", t, " cell ", c, " levels ", lo, "-", hi, " ", rname(R[ri])), trigger(D, R[ri], m), lo, hi, R[ri]); } }
    // patches of many sizes: the criterion holds in exactly one cell of the domain, every cell in turn
    { SV<std::pair<int, int>> ns; for (int n = 6; n <= 20; n++) ns.push_back({n, n}); for (auto& x : SV<std::pair<int, int>>{{32, 32}, {13, 2}, {2, 13}, {1, 17}, {16, 9}, {24, 5}, {1, 64}, {100, 1}, {33, 3}}) ns.push_back(x); if (th) for (int n : {24, 25, 31, 33, 48, 64}) ns.push_back({n, n});
      for (auto [nx, ny] : ns) { Root r{nx, ny, {-1, 1, -1, 1}}; auto cs = cells(r); for (size_t c = 0; c < cs.size(); c++) { refine_case(cat("one cell ", c, " levels 0-1 ", rname(r)), trigger({"0"}, r, {{"0", cs[c]}}), 0, 1, r); if (c % 5 == 0 && nx * ny < 200) refine_case(cat("one cell ", c, " of quadrant 02 levels 1-2 ", rname(r)), trigger({"02"}, r, {{"02", cs[c]}}), 1, 2, r); } } }
    // depth-3 demands, levels 0-3, 1-3 and cut at 2
    for (auto& t : family(true)) if (trees::depth(t) == 3) { auto D = splits_of(t); auto& r = R[(k++) % 14]; refine_case(cat("demand ", t, " ", rname(r)), trigger(D, r, rotating(D, r, k)), k % 5 == 0, k % 11 == 0 ? 2 : 3 + k % 2, r); }
    // demands that are no subtrees: any set of quadrants, also below quadrants that do not ask to be split
    for (auto& p : tuples(3, 4)) for (auto& q : tuples(2, 4)) for (int m = 1; m < 8; m++) { S full = cat("0", p[0], p[1], p[2]); std::set<S> D; for (int l = 1; l <= 3; l++) if (m >> (l - 1) & 1) D.insert(full.substr(0, l)); D.insert(cat("0", q[0], q[1])); auto& r = R[(k++) % 14]; int lo = m % 3; refine_case(cat("set ", show(D), " from level ", lo, " ", rname(r)), trigger(D, r, rotating(D, r, k)), lo, 4, r); }
    // deep demands: balance ripples across the domain
    for (int d = 4; d <= (th ? 8 : 6); d++) for (auto& ab : tuples(d == 4 || (th && d == 5) ? d : 2, 4)) { SV<int> p; for (int i = 0; i < d; i++) p.push_back(ab[i % ab.size()]); auto D = splits_of(stair(p)); auto& r = R[(k++) % 7]; refine_case(cat("stair ", show(p), " ", rname(r)), trigger(D, r, rotating(D, r, k)), k % 2, d - (k % 3 == 0), r); }
    // ordinary criteria
    struct Cr { S n; Fn f; }; SV<Cr> cr = {{"never", [](double, double) { return false; }}, {"always", [](double, double) { return true; }}, {"disc", [](double x, double y) { return x * x + y * y < 0.3; }}, {"circle", [](double x, double y) { return std::abs(std::hypot(x - 0.1, y + 0.2) - 0.6) < 0.05; }}, {"half", [](double x, double) { return x > 0.37; }}, {"strip", [](double, double y) { return y > 0.1 && y < 0.2; }}, {"corner", [](double x, double y) { return x > 0.9 && y > 0.9; }}};
    for (auto& c : cr) for (auto& n : SV<std::pair<int, int>>{{4, 4}, {8, 8}, {3, 5}}) for (int lo = 0; lo <= 3; lo++) for (int hi = lo; hi <= (th ? 6 : 5) - (c.n == "always") * 2; hi++) { Root r{n.first, n.second, {-1, 1, -1, 1}}; refine_case(cat(c.n, " levels ", lo, "-", hi, " ", rname(r)), c.f, lo, hi, r); }
    // histories of refinements of one mesh
    struct L { S n; Fn f; int lo, hi; Root r; }; SV<L> ls; Root a{2, 2, {-1, 1, -1, 1}}, b{3, 2, {0.5, 2.5, -1, 0.25}};
    ls.push_back({"never 0-3", cr[0].f, 0, 3, a}); ls.push_back({"always 0-2", cr[1].f, 0, 2, a}); ls.push_back({"half 1-3", cr[4].f, 1, 3, a}); ls.push_back({"half 1-1", cr[4].f, 1, 1, a}); ls.push_back({"disc 0-4", cr[2].f, 0, 4, a}); ls.push_back({"never 2-2 b", cr[0].f, 2, 2, b}); ls.push_back({"always 1-2 b", cr[1].f, 1, 2, b}); ls.push_back({"corner 0-4", cr[6].f, 0, 4, a});
    for (int len = 2; len <= (th ? 4 : 3); len++) for (auto& t : tuples(len, ls.size())) for (int start : {0, 1}) { if (start && len == 3 && !th && t[0] % 2) continue;
        S id = start ? "history from a built mesh" : "history"; for (int i : t) id += " | " + ls[i].n; if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; sample(id);
        try { MW w; if (start) { TW z("SLSLLLLLL", b, 0); z.p4->user_pointer = nullptr; auto* p = make_p4est("SLSLLLLLL", b.b); w.roots.emplace_back(z.root); delete w.m; w.m = new Mesh(MPI_COMM_WORLD, p, w.roots.back(), w.nf); w.last = p; auto d = mesh_diff(*w.m, "SLSLLLLLL", b); if (d != "") violation(id + " built", d); }
            int step = 0; for (int i : t) { auto& l = ls[i]; step++; ctx().transitions++; ctx().states++; w.refine(l.f, 0.1 * step, l.lo, l.hi, l.r); auto d = mesh_diff(*w.m, refined(l.f, l.lo, l.hi, l.r), l.r); if (d != "") violation(cat(id, " step ", step), d); } }
        catch (std::exception& e) { violation(id + " throws", e.what()); }
    }
}
static double mf(int k, double x, double y) { return k == 0 ? x + 2 * y : k == 1 ? sin(x) * y - 3 : k == 2 ? 1.0 : x * y * y + 0.125; }
// meshes of everyday size: many cells per patch, many patches
struct BigMesh { S shape; int nx, ny; };
static SV<BigMesh> big_meshes(bool th) {
    SV<BigMesh> v; auto U = [](int l) { return trees::uniform(l); };
    for (int n : {8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129}) { v.push_back({"L", n, n}); v.push_back({"SLLLL", n, n / 2 + 1}); if (n <= 64) v.push_back({"SLSLLLLLL", n, 3}); if (n <= 32) v.push_back({U(2), 5, n}); if (n <= 17) v.push_back({U(3), n, n}); }
    for (int l : {4, 5}) for (int n : {1, 2, 3, 4, 8}) v.push_back({U(l), n, n}); v.push_back({"L", 257, 250}); v.push_back({U(3), 32, 32}); v.push_back({"L", 1, 1000}); v.push_back({"L", 3000, 1}); v.push_back({stair({0, 3, 0, 3, 0, 3, 0, 3}), 16, 16}); v.push_back({stair({1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}), 8, 8});
    if (th) for (int l : {1, 2, 3, 4}) for (int n : {40, 48, 64}) v.push_back({U(l), n, n}); if (th) { v.push_back({U(6), 4, 4}); v.push_back({U(7), 1, 2}); }
    return v;
}
static void arrays_part() {
    bool th = ctx().thorough(); auto& R = roots(); int k = 0;
    auto fam = family(th, 2, 15); auto st = stairs(4, 6); fam.insert(fam.end(), st.begin(), st.end());
    auto with_mesh = [&](const S& shape, const Root& r, const std::function<void(Mesh&)>& f) { Grid g(MPI_COMM_WORLD, r.nx, r.b.x0, r.b.x1, r.ny, r.b.y0, r.b.y1); Patch root(MPI_COMM_WORLD, g); ef::FiniteVolumeNodeFactory nf(MPI_COMM_WORLD); auto* p = make_p4est(shape, r.b); { Mesh m(MPI_COMM_WORLD, p, root, nf); f(m); drop_nodes(m.quadtree); } free_p4est(p); };
    auto iterates = [&](const S& id, Mesh& m, const S& shape, const Root& r) {
        auto C = cells_of(shape, r); double sc = scale_of(r.b); size_t n = 0; S err; m.iterateCells([&](double x, double y) { if (n < C.size() && (!nearly(x, 0.5 * (C[n].x0 + C[n].x1), sc) || !nearly(y, 0.5 * (C[n].y0 + C[n].y1), sc))) err = cat("cell ", n, " is visited at (", x, ",", y, ")"); n++; });
        if (err == "" && n != C.size()) err = cat(n, " cells visited, expected ", C.size()); if (err != "") violation(id + " iterateCells", err);
        auto L = trees::leaves(shape); size_t q = 0; err = ""; m.iteratePatches([&](Patch& p) { if (q < L.size() && &p != &m.quadtree.map[L[q].path]->data) err = cat("patch ", q, " is not that of leaf ", L[q].path); q++; }); if (err == "" && q != L.size()) err = cat(q, " patches visited, expected ", L.size()); if (err != "") violation(id + " iteratePatches", err); };
    auto fn_diff = [&](Mesh& m, const SV<std::pair<S, SV<double>>>& want) -> S { if (m.mesh_functions.size() != want.size()) return cat(m.mesh_functions.size(), " mesh functions, expected ", want.size()); for (size_t i = 0; i < want.size(); i++) { auto& v = *m.mesh_functions[i]; if (v.getName() != want[i].first) return "mesh function is called " + v.getName() + ", expected " + want[i].first; if (v.size() != want[i].second.size()) return cat("mesh function has ", v.size(), " values, expected ", want[i].second.size()); for (size_t j = 0; j < v.size(); j++) if (!(std::abs(v[j] - want[i].second[j]) <= 1e-8 * (1 + std::abs(want[i].second[j])))) return cat("value ", j, " of '", want[i].first, "' is ", v[j], ", expected ", want[i].second[j]); } return ""; };
    auto sampled = [&](int f, const S& shape, const Root& r) { SV<double> v; for (auto& c : cells_of(shape, r)) v.push_back(mf(f, 0.5 * (c.x0 + c.x1), 0.5 * (c.y0 + c.y1))); return v; };
    for (auto& shape : fam) for (size_t q = 0; q < (shape.size() <= 21 ? R.size() : th ? 3 : 1); q++) { auto& r = shape.size() <= 21 ? R[q] : R[(k++) % R.size()];
        S id = cat(shape.substr(0, 90), " ", rname(r)); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().transitions += 6; ctx().states += cells_of(shape, r).size(); if (shape.size() > 5) sample(id);
        try { with_mesh(shape, r, [&](Mesh& m) { auto d = mesh_diff(m, shape, r); if (d != "") violation(id, d); iterates(id, m, shape, r);
            m.addMeshFunction([](double x, double y) { return mf(0, x, y); }, "first"); ef::Vector<double> v(sampled(1, shape, r)); v.name() = "given"; m.addMeshFunction(v); m.addMeshFunction([](double x, double y) { return mf(3, x, y); }, "third one");
            d = fn_diff(m, {{"first", sampled(0, shape, r)}, {"given", sampled(1, shape, r)}, {"third one", sampled(3, shape, r)}}); if (d != "") violation(id + " functions", d); d = arrays_diff(m, shape, r); if (d != "") violation(id + " after functions", d);
            m.setMeshFromQuadtree(); d = mesh_diff(m, shape, r); if (d != "") violation(id + " set again", d); m.clearMeshFunctions(); d = fn_diff(m, {}); if (d != "") violation(id + " cleared", d); }); }
        catch (std::exception& e) { violation(id + " throws", e.what()); } }
    for (auto& [shape, nx, ny] : big_meshes(th)) { Root r{nx, ny, R[7 * (k++ % 4)].b}; S id = cat("big ", shape.substr(0, 60), "#", shape.size(), " ", rname(r)); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().transitions += 25; auto nc = cells_of(shape, r).size(); ctx().states += nc; ctx().extra["cells_in_large_meshes"] += nc; sample(id);
        try { with_mesh(shape, r, [&](Mesh& m) { auto d = mesh_diff(m, shape, r); if (d != "") violation(id, d); iterates(id, m, shape, r); SV<std::pair<S, SV<double>>> want; std::list<ef::Vector<double>> vs;
            for (int i = 0; i < (nc > 5000 ? 4 : 20); i++) { S nm = cat("function number ", i); if (i % 4 == 3) { vs.emplace_back(sampled(i % 4, shape, r)); vs.back().name() = nm; m.addMeshFunction(vs.back()); } else m.addMeshFunction([=](double x, double y) { return mf(i % 4, x, y); }, nm); want.push_back({nm, sampled(i % 4, shape, r)}); }
            d = fn_diff(m, want); if (d != "") violation(id + " functions", d); d = arrays_diff(m, shape, r); if (d != "") violation(id + " after functions", d);
            m.setMeshFromQuadtree(); d = mesh_diff(m, shape, r); if (d != "") violation(id + " set again", d); }); }
        catch (std::exception& e) { violation(id + " throws", e.what()); } }
    // a solver has worked on the mesh: the merged patches of the branches are finer than the leaves
    for (auto& shape : trees::all(2)) for (int n : {2, 3, 4}) for (int st = 1; st <= 4; st++) { Root r{n, n, n == 3 ? roots()[7].b : roots()[0].b}; S id = cat("after solver stages ", st, " ", shape, " ", rname(r)); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().transitions += st + 4; ctx().states += cells_of(shape, r).size();
        try { World w(shape, n, r.b, coefs()[1]); auto& m = *w.mesh; w.hps->setupStage(); w.hps->buildStage(); if (st > 1) w.hps->upwardsStage(std::function<double(double, double)>([](double x, double y) { return x - y; })); if (st > 2) w.hps->solveStage(std::function<double(int, double, double, double*, double*)>([](int, double x, double y, double* a, double* b) { *a = 1; *b = 0; return x * y; })); if (st > 3) { w.hps->buildStage(); }
            auto d = arrays_diff(m, shape, r); if (d != "") violation(id, d); iterates(id, m, shape, r); m.addMeshFunction([](double x, double y) { return mf(1, x, y); }, "f"); d = fn_diff(m, {{"f", sampled(1, shape, r)}}); if (d != "") violation(id + " function", d); m.setMeshFromQuadtree(); d = arrays_diff(m, shape, r); if (d != "") violation(id + " set again", d); iterates(id + " again", m, shape, r); }
        catch (std::exception& e) { violation(id + " throws", e.what()); } }
    // histories of attaching, clearing, setting and refining
    SV<S> on = {"add f0", "add f1", "add vector", "clear", "set again", "refine half", "refine none", "refine other root", "iterate", "merge"};
    for (int len = 1; len <= (th ? 5 : 4); len++) for (auto& t : tuples(len, on.size())) { S id = "history"; for (int i : t) id += " | " + on[i]; if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().states += len; if (len == 4) sample(id);
        try { MW w; Root a{2, 3, {-1, 1, -1, 1}}, b{3, 1, {0.5, 2.5, -1, 0.25}}, cur = a; Fn half = [](double x, double) { return x > 0.4; }, none = [](double, double) { return false; };
            w.refine(none, 0, 1, 2, a); S shape = refined(none, 1, 2, a); SV<std::pair<S, SV<double>>> want; std::list<ef::Vector<double>> vs; int step = 0; bool merged = false;
            for (int i : t) { step++; ctx().transitions++; auto& m = *w.m; if (i >= 5 && i <= 7) merged = false;
                if (i == 0 || i == 1) { m.addMeshFunction([=](double x, double y) { return mf(i, x, y); }, cat("f", i)); want.push_back({cat("f", i), sampled(i, shape, cur)}); }
                else if (i == 2) { vs.emplace_back(sampled(3, shape, cur)); vs.back().name() = cat("v", step); m.addMeshFunction(vs.back()); want.push_back({cat("v", step), sampled(3, shape, cur)}); }
                else if (i == 9) { std::function<int(Node*)> lf = [](Node*) { return 1; }; std::function<int(Node*, SV<Node*>)> ff = [](Node* n, SV<Node*> ch) { auto &g = n->data.grid(), &h = ch[0]->data.grid(); g = Grid(MPI_COMM_WORLD, 2 * h.nx(), g.xLower(), g.xUpper(), 2 * h.ny(), g.yLower(), g.yUpper()); return 1; }; m.quadtree.merge(lf, ff); merged = true; }
                else if (i == 3) { m.clearMeshFunctions(); want.clear(); } else if (i == 4) m.setMeshFromQuadtree();
                else if (i <= 7) { m.clearMeshFunctions(); want.clear(); cur = i == 7 ? b : a; auto& f = i == 5 ? half : none; int lo = i == 6 ? 2 : 1, hi = i == 6 ? 2 : 3; w.refine(f, 0.5, lo, hi, cur); shape = refined(f, lo, hi, cur); }
                else iterates(cat(id, " step ", step), m, shape, cur);
                auto d = merged ? arrays_diff(m, shape, cur) : mesh_diff(m, shape, cur); if (d == "") d = fn_diff(m, want); if (d != "") violation(cat(id, " step ", step), d); } }
        catch (std::exception& e) { violation(id + " throws", e.what()); } }
}

// ================================ C18 =================================================================
struct Arr { S name; int comp; SV<double> v; };
static bool numbers(const S& t, SV<double>& out) { const char* p = t.c_str(); out.clear(); for (;;) { while (isspace((unsigned char) *p)) p++; if (!*p) return true; char* e; double d = strtod(p, &e); if (e == p) return false; out.push_back(d); p = e; } }
static bool integral(const S& ty) { return ty.compare(0, 3, "Int") == 0 || ty.compare(0, 4, "UInt") == 0; }
static S arr_diff(const xr::Node& n, const Arr& a, bool declared_only = false) {
    S me = "array '" + a.name + "'"; static const std::set<S> ty = {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64"};
    if (n.name != (declared_only ? "PDataArray" : "DataArray")) return me + " is an element " + n.name; if (n.at("Name") != a.name) return me + " is called '" + n.at("Name") + "'"; if (!ty.count(n.at("type"))) return me + " has type " + n.at("type");
    if (n.at("NumberOfComponents") != std::to_string(a.comp)) return me + " declares " + n.at("NumberOfComponents") + " components"; if (declared_only) return ""; if (n.at("format") != "ascii") return me + " has format " + n.at("format");
    SV<double> v; if (!numbers(n.text, v)) return me + " holds something that is no number"; if (v.size() != a.v.size()) return cat(me, " holds ", v.size(), " numbers, expected ", a.v.size());
    for (size_t i = 0; i < v.size(); i++) { if (!(std::abs(v[i] - a.v[i]) <= 1e-6 * std::abs(a.v[i])) && v[i] != a.v[i]) return cat(me, " value ", i, " is ", v[i], ", expected ", a.v[i]); if (integral(n.at("type")) && v[i] != std::floor(v[i])) return cat(me, " of type ", n.at("type"), " holds ", v[i]); if (n.at("type") == "Float32" && std::abs(a.v[i]) > 3.5e38) return cat(me, " of type Float32 holds ", v[i]); }
    if (v.size()) { double lo = *std::min_element(a.v.begin(), a.v.end()), hi = *std::max_element(a.v.begin(), a.v.end()); SV<double> x, y; if (!numbers(n.at("RangeMin"), x) || !numbers(n.at("RangeMax"), y) || x.size() != 1 || y.size() != 1) return me + " has no range"; double tol = 1e-5 * std::max(std::abs(lo), std::abs(hi)); if (std::abs(x[0] - lo) > tol || std::abs(y[0] - hi) > tol) return cat(me, " has range ", x[0], "..", y[0], ", expected ", lo, "..", hi); }
    return "";
}
static S data_diff(const xr::Node& parent, const S& tag, const SV<Arr>& want, bool declared_only = false) {
    auto v = parent.all(tag); if (want.empty() && v.empty()) return ""; if (v.size() != 1) return cat(v.size(), " elements ", tag, ", expected one"); auto& ch = v[0]->ch; if (ch.size() != want.size()) return cat(tag, " holds ", ch.size(), " arrays, expected ", want.size());
    for (size_t i = 0; i < want.size(); i++) { auto d = arr_diff(ch[i], want[i], declared_only); if (d != "") return tag + ": " + d; } return "";
}
static S head_diff(const S& file, const S& type, xr::Node& n) {
    S err; if (!xr::read(file, n, err)) return err; if (n.name != "VTKFile") return "root element is " + n.name; if (n.at("type") != type) return "file type is " + n.at("type"); if (n.at("version") == "\x01missing" || n.at("byte_order") != "LittleEndian") return "version or byte order is missing"; if (n.ch.size() != 1 || n.ch[0].name != type) return "the file does not hold one " + type; return "";
}
// a grid to write: points, cells and data
struct UMesh : ef::UnstructuredGridNodeBase { ef::Vector<double> p; ef::Vector<int> c, o, t; int np = 0, nc = 0; S getNumberOfPoints() override { return std::to_string(np); } S getNumberOfCells() override { return std::to_string(nc); } ef::DataArrayNodeBase& getPoints() override { return p; } ef::DataArrayNodeBase& getConnectivity() override { return c; } ef::DataArrayNodeBase& getOffsets() override { return o; } ef::DataArrayNodeBase& getTypes() override { return t; } };
static void umake(UMesh& m, int nc, double sc) {
    SV<double> p; SV<int> c, o, t; for (int k = 0; k < nc; k++) { double x = k * sc; for (double v : {x, 0., 0., x + sc, 0., 0., x + sc, sc / 3, 0., x, sc / 3, 0.}) p.push_back(v); for (int i = 0; i < 4; i++) c.push_back(4 * k + i); o.push_back(4 * (k + 1)); t.push_back(9); }
    m.p = ef::Vector<double>(p); m.c = ef::Vector<int>(c); m.o = ef::Vector<int>(o); m.t = ef::Vector<int>(t); m.np = 4 * nc; m.nc = nc; m.p.name() = "points"; m.p.setNumberOfComponents("3"); m.c.name() = "connectivity"; m.c.setType("Int64"); m.o.name() = "offsets"; m.o.setType("Int64"); m.t.name() = "types"; m.t.setType("Int64");
}
static SV<double> asd(ef::Vector<int>& v) { SV<double> r; for (size_t i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
static S piece_diff(const S& file, size_t np, size_t nc, const Arr& P, const Arr& C, const Arr& O, const Arr& T, const SV<Arr>& cd, const SV<Arr>& pd) {
    xr::Node n; auto d = head_diff(file, "UnstructuredGrid", n); if (d != "") return d; auto& g = n.ch[0]; if (g.ch.size() != 1 || g.ch[0].name != "Piece") return "no single Piece"; auto& p = g.ch[0];
    if (p.at("NumberOfPoints") != std::to_string(np) || p.at("NumberOfCells") != std::to_string(nc)) return "piece declares " + p.at("NumberOfPoints") + " points and " + p.at("NumberOfCells") + cat(" cells, expected ", np, " and ", nc);
    d = data_diff(p, "Points", {P}); if (d == "") d = data_diff(p, "Cells", {C, O, T}); if (d == "") d = data_diff(p, "CellData", cd); if (d == "") d = data_diff(p, "PointData", pd); return d;
}
static S umesh_piece(const S& f, UMesh& m, const SV<Arr>& cd, const SV<Arr>& pd) { return piece_diff(f, m.np, m.nc, {"points", 3, m.p.data()}, {"connectivity", 1, asd(m.c)}, {"offsets", 1, asd(m.o)}, {"types", 1, asd(m.t)}, cd, pd); }
static S header_diff(const S& base, const S& pieces_base, const Arr& P, const SV<Arr>& cd, const SV<Arr>& pd, int nranks, SV<S>* files = nullptr) {
    xr::Node n; auto d = head_diff(base + ".pvtu", "PUnstructuredGrid", n); if (d != "") return "header: " + d; auto& g = n.ch[0]; d = data_diff(g, "PPoints", {P}, true); if (d == "") d = data_diff(g, "PCellData", cd, true); if (d == "") d = data_diff(g, "PPointData", pd, true); if (d != "") return "header: " + d;
    auto pc = g.all("Piece"); if ((int) pc.size() != nranks) return cat("header names ", pc.size(), " pieces, expected ", nranks); S dir = base.find('/') == S::npos ? "" : base.substr(0, base.rfind('/') + 1);
    for (size_t i = 0; i < pc.size(); i++) { S src = pc[i]->at("Source"); S f = src[0] == '/' ? src : dir + src; struct stat sb; if (stat(f.c_str(), &sb)) return "header names the piece " + src + ", which is no file beside it"; if (f.compare(0, base.size(), base)) return "piece " + src + " is not named after the base name"; if (files) files->push_back(f); }
    return "";
}
static void clean(const S& dir) { DIR* d = opendir(dir.c_str()); if (!d) return; while (auto* e = readdir(d)) { S n = e->d_name; if (n == "." || n == "..") continue; S f = dir + "/" + n; struct stat sb; if (!lstat(f.c_str(), &sb)) { if (S_ISDIR(sb.st_mode)) { clean(f); rmdir(f.c_str()); } else unlink(f.c_str()); } } closedir(d); }
static SV<S> listing(const S& dir) { SV<S> r; DIR* d = opendir(dir.c_str()); if (!d) return r; while (auto* e = readdir(d)) { S n = e->d_name; if (n != "." && n != "..") r.push_back(n); } closedir(d); std::sort(r.begin(), r.end()); return r; }
struct RMesh : ef::RectilinearGridNodeBase { S w, e; S getWholeExtent() override { return w; } S getExtent() override { return e; } };
static void vtk_part() {
    bool th = ctx().thorough(); S dir = ctx().scratch + "/v"; mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) return; mkdir("sub", 0755);
    // 1. histories of add / write / rebuild on the three writers
    SV<double> odd = {0.1, -1e-7, 1234567.891, 1e300, -3.0000001e-290, 1.0 / 3, 0, -0.0, 123456.789, 99999.95}; S alpha[] = {"u", "a b", "x<y&\"z\""};
    for (int w = 0; w < 3; w++) { SV<S> on = {"write A", "write B", "add cell", "add point", "change data", "use other mesh", "add int cell"}; int len0 = th ? 5 : 4;
        for (int len = 1; len <= len0; len++) for (auto& t : tuples(len, on.size())) { bool wr = t.back() <= 1; if (!wr) continue; S id = S(w == 0 ? "unstructured" : w == 1 ? "parallel" : "rectilinear"); for (int i : t) id += " | " + on[i]; if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().states += len; if (len == 4) sample(id);
            clean(dir); mkdir("sub", 0755);
            try { UMesh m1, m2; umake(m1, 2, 0.7); umake(m2, 5, 1e5 / 7); UMesh* um = &m1; RMesh g1, g2; g1.w = g1.e = "0 2 0 1 0 0"; g2.w = "0 5 0 1 0 0"; g2.e = "1 3 0 1 0 0"; RMesh* rm = &g1; ef::Vector<double> rx({0., 0.5, 2.25}), ry({-1., 1. / 3}), rz({0.}); rx.name() = "x"; ry.name() = "y"; rz.name() = "z"; ef::Vector<double> rx2({3., 4., 4.5, 1e6}); rx2.name() = "x2"; ef::Vector<double> *X = &rx, *X2 = &rx2;
                ef::UnstructuredGridVTK U; ef::PUnstructuredGridVTK PU(MPI_COMM_SELF); ef::RectilinearGridVTK RV; U.buildMesh(m1); PU.buildMesh(m1); RV.buildMesh(g1, &rx, &ry, &rz); std::list<ef::Vector<double>> ds; std::list<ef::Vector<int>> is; SV<Arr> cd, pd; std::map<S, std::function<S()>> written; int step = 0;
                for (int i : t) { step++; ctx().transitions++;
                    if (i == 2 || i == 3) { int n = i == 2 ? (w == 2 ? 2 : um->nc) : (w == 2 ? 6 : um->np); int comp = i == 3 && step % 2 ? 3 : 1; SV<double> v; for (int k = 0; k < n * comp; k++) v.push_back(odd[(k + step) % odd.size()]); ds.emplace_back(v); ds.back().name() = alpha[step % 3]; ds.back().setNumberOfComponents(std::to_string(comp)); ds.back().setType("Float64"); (i == 2 ? cd : pd).push_back({alpha[step % 3], comp, v}); if (w == 0) i == 2 ? U.addCellData(ds.back()) : U.addPointData(ds.back()); else if (w == 1) i == 2 ? PU.addCellData(ds.back()) : PU.addPointData(ds.back()); else i == 2 ? RV.addCellData(ds.back()) : RV.addPointData(ds.back()); }
                    else if (i == 6) { SV<int> v; for (int k = 0; k < (w == 2 ? 2 : um->nc); k++) v.push_back(k * 1000003 - 7); is.emplace_back(v); is.back().name() = "ids"; is.back().setType("Int32"); SV<double> x(v.begin(), v.end()); cd.push_back({"ids", 1, x}); if (w == 0) U.addCellData(is.back()); else if (w == 1) PU.addCellData(is.back()); else RV.addCellData(is.back()); }
                    else if (i == 4) { if (ds.size()) { auto& v = ds.back(); auto before = v.data(); v[0] = 42.5; for (auto* c : {&cd, &pd}) for (auto& a : *c) if (a.name == v.getName() && a.v == before) { a.v[0] = 42.5; break; } } else um->p[0] = 0.03125; }
                    else if (i == 5) { if (w == 2) { rm = rm == &g1 ? &g2 : &g1; std::swap(X, X2); RV.buildMesh(*rm, X, &ry, X == &rx ? &rz : nullptr); } else if (cd.empty() && pd.empty()) { um = um == &m1 ? &m2 : &m1; if (w == 0) U.buildMesh(*um); else PU.buildMesh(*um); } }
                    else { S base = i == 0 ? "A" : "sub/b.1"; S f = w == 0 ? base + ".vtu" : w == 1 ? base : base + ".vtr"; if (w == 0) U.toVTK(f); else if (w == 1) PU.toVTK(f); else RV.toVTK(f); S d;
                        if (w == 0) d = umesh_piece(f, *um, cd, pd); else if (w == 1) { SV<S> fs; d = header_diff(f, f, {"points", 3, um->p.data()}, cd, pd, 1, &fs); if (d == "") d = umesh_piece(fs[0], *um, cd, pd); }
                        else { xr::Node n; d = head_diff(f, "RectilinearGrid", n); if (d == "") { auto& g = n.ch[0]; if (g.at("WholeExtent") != rm->w || g.ch.size() != 1 || g.ch[0].at("Extent") != rm->e) d = "extents are wrong"; else { bool first = X == &rx; d = data_diff(g.ch[0], "Coordinates", {{first ? "x" : "x2", 1, X->data()}, {"y", 1, ry.data()}, first ? Arr{"z", 1, rz.data()} : Arr{"Empty", 1, {0}}}); if (d == "") d = data_diff(g.ch[0], "CellData", cd); if (d == "") d = data_diff(g.ch[0], "PointData", pd); } } }
                        if (d != "") violation(cat(id, " step ", step), d); } } }
            catch (std::exception& e) { violation(id + " throws", e.what()); } } }
    // 2. not built yet: refused
    { S id = "not built"; if (vk::begin(id)) { clean(dir); int t = 0; ef::UnstructuredGridVTK U; try { U.toVTK("n"); } catch (std::invalid_argument&) { t++; } ef::RectilinearGridVTK V; try { V.toVTK("n"); } catch (std::invalid_argument&) { t++; } ctx().distinct++; ctx().transitions += 2; if (t != 2) violation(id, "a writer without a mesh writes instead of refusing"); } }
    { S id = "missing coordinates"; if (vk::begin(id)) { clean(dir); ctx().distinct++; RMesh g; g.w = g.e = "0 2 0 0 0 0"; ef::Vector<double> x({0., 1., 2.}); x.name() = "x"; ef::RectilinearGridVTK V; V.buildMesh(g, &x, nullptr, nullptr); for (int k = 0; k < 2; k++) { V.toVTK("m.vtr"); xr::Node n; auto d = head_diff("m.vtr", "RectilinearGrid", n); if (d == "") d = data_diff(n.ch[0].ch[0], "Coordinates", {{"x", 1, {0, 1, 2}}, {"Empty", 1, {0}}, {"Empty", 1, {0}}}); if (d != "") violation(id, d); ctx().transitions++; } } }
    // 3. base names
    SV<S> bases = {"a", "name", "with space", "per%cent", "%s%n", "%04i", "sub/x", "./sub/y", dir + "/abs", "sub/../z", "dots.in.name", "a-b_c", "trail.vtu", "quote'", "amp&lt<", S(100, 'l'), S(180, 'k'), "sub/" + S(150, 'm'), "a.pvtu", "a.pvtu.b", "b.vtr", ".hidden", "m_0000", "m_0000.vtu", "UPPER", "7", "-", "-mesh", "x-mesh", "sub/x-quadtree", "sub/deep.er/x", "sub/deep.er/../y", "a\\b", "tab\there", "uml\xc3\xa4ut", "a;b", "a$HOME", "*", "a?", "a:b", "#1", "x=\"y\"", "<b>", "a>b"};
    { SV<S> al = {"a", "%", " ", "/", "."}; for (auto& t : tuples(3, 5)) { S b = "sub/s"; for (int i : t) b += al[i]; if (b.find('/', 4) == S::npos) bases.push_back(b); } }
    for (auto& b : bases) for (int kind = 0; kind < 3; kind++) { S id = cat(kind == 0 ? "parallel" : kind == 1 ? "mesh" : "mesh 7", " base ", b.size() > 60 ? cat("#", b.size()) : b); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; ctx().transitions++; sample(id); clean(dir); mkdir("sub", 0755); mkdir("sub/deep.er", 0755);
        try { UMesh m; umake(m, 3, 0.5); SV<S> fs; S d; if (kind == 0) { ef::PUnstructuredGridVTK P(MPI_COMM_SELF); P.buildMesh(m); P.toVTK(b); d = header_diff(b, b, {"points", 3, m.p.data()}, {}, {}, 1, &fs); if (d == "") d = umesh_piece(fs[0], m, {}, {}); }
            else { Root r{2, 2, {-1, 1, -1, 1}}; MW w; w.refine([](double x, double) { return x > 0.3; }, 0, 1, 2, r); S full = kind == 1 ? b + "-mesh" : b + "-mesh-0007"; if (kind == 1) w.m->toVTK(b); else w.m->toVTK(b, 7); d = header_diff(full, full, {"points", 3, {}}, {}, {}, 1); S qf = (kind == 1 ? b + "-quadtree" : b + "-quadtree-0007"); struct stat sb; if (d == "" && b.size() < 200 && stat((qf + ".pvtu").c_str(), &sb)) d = "quadtree file " + qf + ".pvtu is missing"; }
            if (d != "") violation(id, d); } catch (std::exception& e) { violation(id + " throws", e.what()); } }
    // 4. meshes of all shapes, with functions, written twice, refined and written again
    auto fam = family(false, th ? 1 : 0, th ? 15 : 16); auto st = stairs(4, 5); fam.insert(fam.end(), st.begin(), st.end()); int k = 0; auto& R = roots();
    auto mesh_files = [&](const S& id, const S& base, Mesh& m, const S& shape, const Root& r, const SV<Arr>& cd) {
        SV<double> P, C, O, T; auto cs = cells_of(shape, r); for (size_t i = 0; i < cs.size(); i++) { auto& c = cs[i]; for (double v : {c.x0, c.y0, 0., c.x1, c.y0, 0., c.x1, c.y1, 0., c.x0, c.y1, 0.}) P.push_back(v); for (int q = 0; q < 4; q++) C.push_back(4 * i + q); O.push_back(4 * (i + 1)); T.push_back(9); }
        // tiny coordinates that are differences of larger ones: use the mesh's own points, which were compared with the model
        auto d = arrays_diff(m, shape, r); if (d != "") return violation(id + " mesh", d); SV<double> PP; for (size_t i = 0; i < m.points.size(); i++) PP.push_back(m.points[i]);
        SV<S> fs; d = header_diff(base, base, {"points", 3, PP}, cd, {}, 1, &fs); if (d == "") d = piece_diff(fs[0], 4 * cs.size(), cs.size(), {"points", 3, PP}, {"connectivity", 1, C}, {"offsets", 1, O}, {"types", 1, T}, cd, {}); if (d != "") violation(id, d); };
    auto quad_files = [&](const S& id, const S& base, const S& shape) { xr::Node n; S err; size_t nl = trees::count_leaves(shape); struct stat sb; if (stat((base + ".pvtu").c_str(), &sb)) return violation(id + " quadtree", "the quadtree header is missing"); if (!xr::read(base + "_0000.vtu", n, err)) return violation(id + " quadtree", err); if (n.ch.empty() || n.ch[0].ch.empty() || n.ch[0].ch[0].at("NumberOfCells") != std::to_string(nl)) violation(id + " quadtree", cat("the quadtree file does not hold ", nl, " cells")); };
    for (auto& shape : fam) { auto& r = shape.size() <= 21 ? R[k++ % 28] : R[k++ % 7]; S id = cat("mesh ", shape.substr(0, 90), " ", rname(r)); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; if (shape.size() > 5) sample(id); clean(dir); mkdir("sub", 0755);
        try { MW w; auto D = splits_of(shape); auto f = trigger(D, r, rotating(D, r, k)); int dep = trees::depth(shape); w.refine(f, 0, 0, dep, r); S sh = refined(f, 0, dep, r);
            auto vals = [&](int q, const S& s) { SV<double> v; for (auto& c : cells_of(s, r)) v.push_back(mf(q, 0.5 * (c.x0 + c.x1), 0.5 * (c.y0 + c.y1))); return v; };
            auto own = [&](int q) { auto* v = w.m->mesh_functions[q]; SV<double> x; for (size_t i = 0; i < v->size(); i++) x.push_back((*v)[i]); return x; };
            SV<Arr> cd; auto write = [&](const S& base, int number, const S& what) { ctx().transitions++; ctx().states++; w.m->toVTK(base, number); char b[16]; snprintf(b, 16, "-%04i", number); S suf = number < 0 ? "" : b; mesh_files(id + " " + what, base + "-mesh" + suf, *w.m, sh, r, cd); quad_files(id + " " + what, base + "-quadtree" + suf, sh); };
            write("m", -1, "plain"); w.m->addMeshFunction([](double x, double y) { return mf(1, x, y); }, "f & g"); cd.push_back({"f & g", 1, own(0)}); write("m", -1, "with a function"); write("sub/m", 0, "number 0");
            ef::Vector<double> v(vals(0, sh)); v.name() = "vec"; w.m->addMeshFunction(v); cd.push_back({"vec", 1, v.data()}); write("m", 3, "two functions"); write("m", -1, "over an older file"); w.m->clearMeshFunctions(); cd.clear(); write("m", -1, "cleared"); write("m", 12345, "five digits");
            w.refine([](double x, double y) { return false; }, 0, 1, 1, r); sh = "SLLLL"; write("m", -1, "after refining again"); w.m->addMeshFunction([](double x, double y) { return mf(2, x, y); }, "one"); cd.push_back({"one", 1, own(0)}); write("m", 1, "with a function after refining again"); }
        catch (std::exception& e) { violation(id + " throws", e.what()); } }
    // 5. meshes of everyday size with many functions
    for (auto& [shape, nx, ny] : big_meshes(false)) { if (nx * ny * trees::count_leaves(shape) > (th ? 70000 : 17000)) continue; Root r{nx, ny, R[7 * (k++ % 2)].b}; S id = cat("big mesh ", shape.substr(0, 60), "#", shape.size(), " ", rname(r)); if (!vk::begin(id)) continue; ctx().distinct++; ctx().traces++; sample(id); clean(dir);
        auto* p = make_p4est(shape, r.b); try { Grid g(MPI_COMM_WORLD, nx, r.b.x0, r.b.x1, ny, r.b.y0, r.b.y1); Patch root(MPI_COMM_WORLD, g); ef::FiniteVolumeNodeFactory nf(MPI_COMM_WORLD); Mesh m(MPI_COMM_WORLD, p, root, nf); SV<Arr> cd; size_t nc = cells_of(shape, r).size(); ctx().states += nc; ctx().extra["cells_in_large_meshes"] += nc;
            for (int q = 0; q < (nc > 3000 ? 2 : 12); q++) { S nm = cat("f", q); m.addMeshFunction([=](double x, double y) { return mf(q % 4, x, y); }, nm); auto* v = m.mesh_functions.back(); SV<double> x; for (size_t i = 0; i < v->size(); i++) x.push_back((*v)[i]); cd.push_back({nm, 1, x}); if (v->size() != nc) violation(id + " function", cat("function has ", v->size(), " values for ", nc, " cells")); }
            for (int q = 0; q < 2; q++) { m.toVTK("big", q ? 7 : -1); ctx().transitions++; S suf = q ? "-0007" : ""; mesh_files(id + suf, "big-mesh" + suf, m, shape, r, cd); quad_files(id + suf, "big-quadtree" + suf, shape); } drop_nodes(m.quadtree); }
        catch (std::exception& e) { violation(id + " throws", e.what()); } free_p4est(p); }
    if (chdir("/")) {}
}
int main(int argc, char** argv) {
    start(argc, argv);
    S mode = "tree"; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "tree") tree_part(); else if (mode == "walk") walk_part(); else if (mode == "refine") refine_part(); else if (mode == "arrays") arrays_part(); else vtk_part();
    return stop();
}
