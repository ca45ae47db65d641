// Small helpers for the demonstrations.
#pragma once
#include <EllipticForest.hpp>
#include <Patches/FiniteVolume/FiniteVolume.hpp>
#include <p4est_bits.h>
#include <p4est_algorithms.h>
#include <set>
#include <map>
#include <cmath>
#include <unistd.h>
namespace ef = EllipticForest;
using Grid = ef::FiniteVolumeGrid; using Patch = ef::FiniteVolumePatch; using Solver = ef::FiniteVolumeSolver;
using HPS = ef::HPSAlgorithm<Grid, Solver, Patch, double>; using Mesh = ef::Mesh<Patch>; using Node = ef::Node<Patch>;
static int bad = 0;
#define CHECK(c, ...) do { if (!(c)) { bad++; fprintf(stderr, "DEMO wrong: %s  ", #c); fprintf(stderr, "" __VA_ARGS__); fprintf(stderr, "\n"); } } while (0)
static ef::EllipticForestApp* app;
static void begin(int argc, char** argv) {
    sc_set_log_defaults(NULL, NULL, SC_LP_ERROR);
    app = new ef::EllipticForestApp(&argc, &argv);
    app->options.setOption("cache-operators", false);
    app->options.setOption("homogeneous-rhs", false);
    p4est_init(NULL, SC_LP_ERROR);
}
static int end() { fflush(nullptr); _exit(bad ? 1 : 0); }
static std::set<std::string> splits;
// forest in which exactly the quadrants with the given paths ("0" is the root) are split
static p4est_t* forest(std::set<std::string> s, double x0, double x1, double y0, double y1, bool partition = false) {
    splits = s;
    auto* conn = ef::p4est::p4est_connectivity_new_square_domain(x0, x1, y0, y1);
    auto* p = p4est_new_ext(MPI_COMM_WORLD, conn, 0, 0, 1, 0, NULL, NULL);
    p4est_refine(p, 1, [](p4est_t*, p4est_topidx_t, p4est_quadrant_t* q) {
        std::string path = "0";
        for (int l = 1; l <= q->level; l++) { int sh = P4EST_MAXLEVEL - l; path += char('0' + (((q->x >> sh) & 1) | (((q->y >> sh) & 1) << 1))); }
        return (int) splits.count(path); }, NULL);
    if (partition) p4est_partition(p, 0, NULL);
    return p;
}
struct World {
    p4est_t* p4; Grid grid; Patch root; ef::FiniteVolumeNodeFactory nf; Mesh* mesh; Solver solver; HPS* hps;
    World(std::set<std::string> s, int n, double x0, double x1, double y0, double y1, bool partition = false) : grid(MPI_COMM_WORLD, n, x0, x1, n, y0, y1), root(MPI_COMM_WORLD, grid), nf(MPI_COMM_WORLD) {
        p4 = forest(s, x0, x1, y0, y1, partition);
        mesh = new Mesh(MPI_COMM_WORLD, p4, root, nf);
        solver.solver_type = ef::FiniteVolumeSolverType::FivePointStencil;
        solver.alpha_function = [](double, double) { return 1.0; };
        solver.beta_function = [](double, double) { return 1.0; };
        solver.lambda_function = [](double, double) { return 0.0; };
        hps = new HPS(MPI_COMM_WORLD, *mesh, solver);
    }
    std::map<std::string, std::vector<double>> solution() {
        std::map<std::string, std::vector<double>> s;
        for (auto& [path, node] : mesh->quadtree.map) if (node && node->leaf) s[path] = node->data.vectorU().data();
        return s;
    }
    // largest difference between the solution and a function at the cell centres
    double error(std::function<double(double, double)> u) {
        double e = 0;
        for (auto& [path, node] : mesh->quadtree.map) if (node && node->leaf) {
            auto& g = node->data.grid(); int n = g.nx();
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = fabs(node->data.vectorU()[j + i * n] - u(g(0, i), g(1, j))); if (!(d <= e)) e = std::isnan(d) ? 1e300 : d; }
        }
        return e;
    }
};
static double distance(const std::map<std::string, std::vector<double>>& a, const std::map<std::string, std::vector<double>>& b) {
    double e = 0; if (a.size() != b.size()) return 1e300;
    for (auto& [k, v] : b) { auto it = a.find(k); if (it == a.end() || it->second.size() != v.size()) return 1e300;
        for (size_t i = 0; i < v.size(); i++) { double d = fabs(it->second[i] - v[i]); if (!(d <= e)) e = std::isnan(d) ? 1e300 : d; } }
    return e;
}
