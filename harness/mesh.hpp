// Model of meshes over quadtree shapes, and comparison of the real tree and mesh with it.
#pragma once
#include "hps.hpp"
#include <algorithm>
using S = std::string; template <class T> using SV = std::vector<T>;
struct Root { int nx, ny; Box b; };
inline bool nearly(double a, double b, double scale) { return std::abs(a - b) <= 1e-11 * scale; }
struct Rect { double x0, x1, y0, y1; };
// rectangle of a path of child indices, in long arithmetic on the path (exact up to depth 40), then scaled
inline Rect rect_of(const S& path, const Box& b) {
    double x = 0, y = 0, s = 1; for (size_t i = 1; i < path.size(); i++) { int c = path[i] - '0'; s /= 2; x += (c & 1) * s; y += (c >> 1) * s; }
    double w = b.x1 - b.x0, h = b.y1 - b.y0; return {b.x0 + x * w, b.x0 + (x + s) * w, b.y0 + y * h, b.y0 + (y + s) * h};
}
inline double scale_of(const Box& b) { return std::max({std::abs(b.x0), std::abs(b.x1), std::abs(b.y0), std::abs(b.y1)}); }
// "" or what differs between the real tree and the shape
inline S tree_diff(ef::Quadtree<Patch>& q, const S& shape, const Root& r, int pfirst = 0, int plast = 0) {
    auto cells = trees::preorder(shape); size_t n = 0; double sc = scale_of(r.b);
    for (auto& [k, v] : q.map) if (v) n++;
    if (n != cells.size()) return vk::cat(n, " nodes, expected ", cells.size());
    for (auto& c : cells) {
        auto it = q.map.find(c.path); if (it == q.map.end() || !it->second) return "node " + c.path + " is missing";
        auto& m = *it->second; auto& g = m.data.grid(); Rect e = rect_of(c.path, r.b);
        if (m.path != c.path) return "node " + c.path + " has path " + m.path;
        if (m.level != c.level) return vk::cat("node ", c.path, " has level ", m.level);
        if (m.leaf != c.leaf) return vk::cat("node ", c.path, " has leaf flag ", m.leaf);
        if (m.pfirst != pfirst || m.plast != plast) return vk::cat("node ", c.path, " has owners ", m.pfirst, "-", m.plast);
        if ((int) g.nx() != r.nx || (int) g.ny() != r.ny) return vk::cat("node ", c.path, " has ", g.nx(), "x", g.ny(), " cells");
        if (!nearly(g.xLower(), e.x0, sc) || !nearly(g.xUpper(), e.x1, sc) || !nearly(g.yLower(), e.y0, sc) || !nearly(g.yUpper(), e.y1, sc))
            return vk::cat("node ", c.path, " covers [", g.xLower(), ",", g.xUpper(), "]x[", g.yLower(), ",", g.yUpper(), "], expected [", e.x0, ",", e.x1, "]x[", e.y0, ",", e.y1, "]");
        double dx = (e.x1 - e.x0) / r.nx, dy = (e.y1 - e.y0) / r.ny;
        if (std::abs(g.dx() - dx) > 1e-9 * std::abs(dx) + 1e-13 * sc || std::abs(g.dy() - dy) > 1e-9 * std::abs(dy) + 1e-13 * sc) return "node " + c.path + " has wrong cell sizes";
    }
    return "";
}
// the same domain rectangles tile: exact comparison of shared edges is by the model above; leaves' areas must add up
struct CellQ { double x0, x1, y0, y1; };
inline SV<CellQ> cells_of(const S& shape, const Root& r) {
    SV<CellQ> v; for (auto& c : trees::leaves(shape)) { Rect e = rect_of(c.path, r.b); double dx = (e.x1 - e.x0) / r.nx, dy = (e.y1 - e.y0) / r.ny;
        for (int i = 0; i < r.nx; i++) for (int j = 0; j < r.ny; j++) v.push_back({e.x0 + i * dx, e.x0 + (i + 1) * dx, e.y0 + j * dy, e.y0 + (j + 1) * dy}); }
    return v;
}
inline S arrays_diff(Mesh& m, const S& shape, const Root& r) {
    auto C = cells_of(shape, r); size_t n = C.size(); double sc = scale_of(r.b);
    if (m.npoints != (int) (4 * n) || m.ncells != (int) n) return vk::cat("counts are ", m.npoints, " points and ", m.ncells, " cells, expected ", 4 * n, " and ", n);
    if (m.getNumberOfPoints() != std::to_string(4 * n) || m.getNumberOfCells() != std::to_string(n)) return "reported counts are wrong";
    if (m.points.size() != 12 * n || m.connectivity.size() != 4 * n || m.offsets.size() != n || m.types.size() != n) return vk::cat("array lengths ", m.points.size(), " ", m.connectivity.size(), " ", m.offsets.size(), " ", m.types.size(), " for ", n, " cells");
    if (&m.getPoints() != &m.points || &m.getConnectivity() != &m.connectivity || &m.getOffsets() != &m.offsets || &m.getTypes() != &m.types) return "accessors give other arrays";
    for (size_t k = 0; k < n; k++) {
        if (m.offsets[k] != (int) (4 * (k + 1))) return vk::cat("offset ", k, " is ", m.offsets[k]);
        if (m.types[k] != 9) return vk::cat("type ", k, " is ", m.types[k]);
        double X[4] = {C[k].x0, C[k].x1, C[k].x1, C[k].x0}, Y[4] = {C[k].y0, C[k].y0, C[k].y1, C[k].y1};
        for (int c = 0; c < 4; c++) {
            int p = m.connectivity[4 * k + c]; if (p < 0 || p >= (int) (4 * n)) return vk::cat("connectivity of cell ", k, " names point ", p);
            if (!nearly(m.points[3 * p], X[c], sc) || !nearly(m.points[3 * p + 1], Y[c], sc) || m.points[3 * p + 2] != 0) return vk::cat("corner ", c, " of cell ", k, " is (", m.points[3 * p], ",", m.points[3 * p + 1], ",", m.points[3 * p + 2], "), expected (", X[c], ",", Y[c], ",0)");
        }
    }
    return "";
}
// smallest corner-balanced refinement of a set of splits
inline void balance_splits(std::set<S>& sp) {
    // represent by splits; a leaf of side s may not touch a leaf of side < s/2
    for (bool again = true; again;) {
        again = false; S shape; std::function<void(const S&)> build = [&](const S& p) { if (sp.count(p)) { shape += 'S'; for (char k = '0'; k < '4'; k++) build(p + k); } else shape += 'L'; };
        build("0"); SV<trees::Cell> L; { size_t p = 0; SV<trees::Cell> pre; std::function<void(const S&, long, long, long, int)> w = [&](const S& path, long x, long y, long s, int lev) { if (shape[p++] == 'S') for (int k = 0; k < 4; k++) w(path + char('0' + k), x + (k & 1) * (s / 2), y + (k >> 1) * (s / 2), s / 2, lev + 1); else L.push_back({path, lev, x, y, s, true}); }; w("0", 0, 0, 1L << 30, 0); }
        for (auto& a : L) for (auto& b : L) if (a.s > 2 * b.s && a.x <= b.x + b.s && b.x <= a.x + a.s && a.y <= b.y + b.s && b.y <= a.y + a.s) { sp.insert(a.path); again = true; break; }
    }
}
inline S shape_of(const std::set<S>& sp) { S shape; std::function<void(const S&)> build = [&](const S& p) { if (sp.count(p)) { shape += 'S'; for (char k = '0'; k < '4'; k++) build(p + k); } else shape += 'L'; }; build("0"); return shape; }
inline std::set<S> splits_of(const S& shape) { std::set<S> s; for (auto& c : trees::preorder(shape)) if (!c.leaf) s.insert(c.path); return s; }
// what refining by fn between the levels has to give
inline S refined(const std::function<bool(double, double)>& fn, int lo, int hi, const Root& r) {
    std::set<S> sp; std::function<void(const S&, int)> go = [&](const S& p, int lev) {
        bool split = lev < lo; if (!split && lev < hi) { Rect e = rect_of(p, r.b); double dx = (e.x1 - e.x0) / r.nx, dy = (e.y1 - e.y0) / r.ny; for (int i = 0; i < r.nx && !split; i++) for (int j = 0; j < r.ny && !split; j++) split = fn(e.x0 + (i + 0.5) * dx, e.y0 + (j + 0.5) * dy); }
        if (split) { sp.insert(p); for (char k = '0'; k < '4'; k++) go(p + k, lev + 1); } };
    go("0", 0); balance_splits(sp); return shape_of(sp);
}
inline void drop_nodes(ef::Quadtree<Patch>& q) { for (auto& [k, v] : q.map) { delete v; v = nullptr; } q.map.clear(); }
