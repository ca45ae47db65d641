// C26: printed forms (streams, str(), dataSize) show the object's contents and leave it alone.
#include "hps.hpp"
#include <regex>
using namespace vk;
using S = std::string; template <class T> using SV = std::vector<T>;
using PNode = ef::Node<Patch>;
// every number of a text, in order
static SV<double> nums(const S& t) { SV<double> r; const char* p = t.c_str(); while (*p) { bool sign = (*p == '-' || *p == '+') && (isdigit((unsigned char) p[1]) || p[1] == '.'); bool word = p != t.c_str() && (isalpha((unsigned char) p[-1]) || p[-1] == '_'); if ((isdigit((unsigned char) *p) || sign) && !word) { char* e; r.push_back(strtod(p, &e)); p = e; } else p++; } return r; }
// printed to at least four digits; magnitudes below 1e-14 may be shown as 0
static bool shows(double p, double v) { return std::abs(p - v) <= 6e-4 * std::abs(v) || (std::abs(v) < 1.0000001e-14 && std::abs(p) < 1.1e-14); }
template <class T> static S text(T& x) { std::ostringstream o; o << x; return o.str(); }
static S listed(const SV<double>& got, const SV<double>& want) { if (got.size() != want.size()) return cat("shows ", got.size(), " numbers, expected ", want.size()); for (size_t i = 0; i < got.size(); i++) if (!shows(got[i], want[i])) return cat("number ", i, " is ", got[i], ", expected ", want[i]); return ""; }
template <class T> static void vector_case(const S& id, const SV<T>& v) {
    ef::Vector<T> x(v); SV<double> w{(double) v.size()}; for (T a : v) w.push_back(a); S t = text(x); auto d = listed(nums(t), w); ctx().states++; ctx().transitions += 2; ctx().traces++;
    if (d != "") violation(id, "printed vector " + show(v) + " " + d); if (x.data() != v || x.size() != v.size()) violation(id + " changed", "printing changes the vector " + show(v)); if (text(x) != t) violation(id + " again", "printing " + show(v) + " again gives another text");
    // two of them and a number into one stream
    std::ostringstream o; o << 0.5 << "\n" << x << "\n" << x << "\n" << 7 << "\n"; SV<double> ww{0.5}; for (int k = 0; k < 2; k++) ww.insert(ww.end(), w.begin(), w.end()); ww.push_back(7); d = listed(nums(o.str()), ww); if (d != "") violation(id + " twice", "printed twice, the vector " + show(v) + " " + d);
}
template <class T> static void matrix_case(const S& id, int r, int c, const SV<T>& v) {
    ef::Matrix<T> A(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) A(i, j) = v[i * c + j]; SV<double> w{(double) r, (double) c}; for (T a : v) w.push_back(a); S t = text(A); auto d = listed(nums(t), w); ctx().states++; ctx().transitions += 2; ctx().traces++;
    if (d != "") violation(id, cat("printed ", r, "x", c, " matrix ", show(v), " ", d)); if (A.data() != v || (int) A.nRows() != r || (int) A.nCols() != c) violation(id + " changed", "printing changes the matrix " + show(v)); if (text(A) != t) violation(id + " again", "printing a matrix again gives another text");
    // one line for each row, after the first
    std::istringstream is(t); S l; SV<SV<double>> rows; while (std::getline(is, l)) { auto n = nums(l); if (!n.empty()) rows.push_back(n); } if (r && c) { bool ok = (int) rows.size() == r + 1; for (int i = 1; ok && i <= r; i++) ok = (int) rows[i].size() == c; if (!ok) violation(id + " rows", cat("the printed ", r, "x", c, " matrix does not have one line for each row")); }
}
template <class T> static void numbers_part(const S& tn, const SV<T>& alpha) {
    bool th = ctx().thorough(); int A = alpha.size();
    for (int a = -1; a < A; a++) { S id = cat(tn, " vectors ", a); if (!vk::begin(id)) continue; sample(id); ctx().distinct++; if (a < 0) { vector_case<T>(id, {}); continue; }
        for (int n = 1; n <= (th ? 5 : 4); n++) { SV<int> ix(n, 0); ix[0] = a; for (;;) { SV<T> v; for (int i : ix) v.push_back(alpha[i]); vector_case(id, v); int p = n - 1; while (p >= 1 && ++ix[p] == A) ix[p--] = 0; if (p < 1) break; } }
        for (int n = 5; n <= 66; n++) { SV<T> v; for (int i = 0; i < n; i++) v.push_back(alpha[(a + i * (1 + n % 3)) % A]); vector_case(id, v); SV<T> u(n, alpha[a]); u[n - 1] = alpha[(a + 1) % A]; vector_case(id, u); }
        for (int n : {99, 100, 101, 128, 129, 200, 256, 257, 1000, 1025, 4000}) { SV<T> v; for (int i = 0; i < n; i++) v.push_back(alpha[(a + i * (1 + n % 3)) % A]); vector_case(id, v); } }
    for (int r = 0; r <= 6; r++) for (int c = 0; c <= 10; c++) { S id = cat(tn, " matrices ", r, "x", c); if (!vk::begin(id)) continue; sample(id); ctx().distinct++; if ((r == 0) != (c == 0)) continue;
        int n = r * c; for (int a = 0; a < A; a++) { SV<T> v; for (int i = 0; i < n; i++) v.push_back(alpha[(a + i * (1 + c % 3)) % A]); matrix_case(id, r, c, v); for (int k = 0; k < n; k++) { SV<T> u(n, T(1)); u[k] = alpha[a]; matrix_case(id, r, c, u); } }
        if (n && n <= 4) { SV<int> ix(n, 0); for (;;) { SV<T> v; for (int i : ix) v.push_back(alpha[i]); matrix_case(id, r, c, v); int p = n - 1; while (p >= 0 && ++ix[p] == A) ix[p--] = 0; if (p < 0) break; } } }
    // long rows, many rows
    static const int big[][2] = {{21, 21}, {33, 2}, {2, 33}, {65, 64}, {101, 3}, {3, 101}, {100, 100}, {1, 300}, {300, 1}, {1025, 2}, {2, 1025}};
    for (auto& b : big) for (int a = 0; a < A; a++) { int r = b[0], c = b[1]; S id = cat(tn, " matrices ", r, "x", c, " ", a); if (!vk::begin(id)) continue; ctx().distinct++; SV<T> v; for (int i = 0; i < r * c; i++) v.push_back(alpha[(a + i * (1 + c % 3)) % A]); matrix_case(id, r, c, v); }
}
static void options_part() {
    using OV = ef::Options::OptionTypes; SV<OV> vals = {OV(S("text")), OV(S("")), OV(S("a b")), OV(true), OV(false), OV(7), OV(-3), OV(2147483647), OV(0.5), OV(-1.25e-7), OV(1e20)};
    auto shown = [](const S& t, const OV& v) { switch (v.index()) { case 0: return t == std::get<S>(v); case 1: return t == (std::get<bool>(v) ? "1" : "0") || t == (std::get<bool>(v) ? "true" : "false"); case 2: return t == std::to_string(std::get<int>(v)); default: return nums(t).size() == 1 && shows(nums(t)[0], std::get<double>(v)); } };
    SV<S> keys = {"alpha", "b", "mid-level", "zz_top"};
    for (size_t a = 0; a < vals.size(); a++) for (int present = 0; present < 16; present++) { S id = cat("options ", a, " keys ", present); if (!vk::begin(id)) continue; sample(id); ctx().distinct++;
        for (size_t b = 0; b < vals.size(); b++) for (size_t c = 0; c < vals.size(); c++) { ef::Options o; std::map<S, OV> m; for (int k = 3; k >= 0; k--) if (present >> k & 1) { const OV& v = vals[k == 0 ? a : k == 1 ? b : k == 2 ? c : (a + b + c) % vals.size()]; o.setOption(keys[k], v); m[keys[k]] = v; }
            S t = text(o); ctx().states++; ctx().transitions++; ctx().traces++; std::istringstream is(t); S l; std::map<S, S> got; size_t lines = 0;
            while (std::getline(is, l)) { if (l.find_first_not_of(' ') == S::npos) continue; lines++; size_t p = l.find(" : "); if (p == S::npos) continue; S k = l.substr(0, p); k = k.substr(k.find_last_of(' ') + 1); got[k] = l.substr(p + 3); }
            if (got.size() != m.size() || lines != m.size()) violation(id, cat("printed options: ", lines, " lines, ", got.size(), " options, expected ", m.size())); else for (auto& [k, v] : m) if (!got.count(k) || !shown(got[k], v)) violation(id, cat("printed options show ", k, " as '", got.count(k) ? got[k] : S("nothing"), "'"));
            if (o.optionsMap != m) violation(id + " changed", "printing changes the options"); } }
}
static void tree_part() {
    SV<S> paths = {"0"}; for (size_t i = 0; i < paths.size() && paths[i].size() < 5; i++) for (char q : S("0123")) paths.push_back(paths[i] + q); paths.push_back(S(29, '3')); paths.push_back("0" + S(12, '2'));
    for (auto& p : paths) { S id = "node " + p; if (!vk::begin(id)) continue; if (p.size() == 3) sample(id); ctx().distinct++;
        for (int f : {0, 1, 12}) for (int l : {0, 3, 17, 255}) if (l >= f) { Patch pt(MPI_COMM_SELF, Grid(MPI_COMM_SELF, 2, 0, 1, 2, 0, 1)); PNode n(MPI_COMM_SELF, pt, p, (int) p.size() - 1, f, l); ctx().states++; ctx().transitions += 2; ctx().traces++;
            for (S t : {n.str(), text(n)}) { std::smatch m; bool ok = std::regex_search(t, m, std::regex("path = ([0-9]+)")) && m[1] == p; ok = ok && std::regex_search(t, m, std::regex("level = ([0-9]+)")) && m[1] == std::to_string(p.size() - 1); ok = ok && std::regex_search(t, m, std::regex("ranks = \\[([0-9]+)-([0-9]+)\\]")) && m[1] == std::to_string(f) && m[2] == std::to_string(l); if (!ok) violation(id, cat("node ", p, " of ranks ", f, "-", l, " is described as '", t, "'")); }
            if (n.path != p || n.level != (int) p.size() - 1 || n.pfirst != f || n.plast != l) violation(id + " changed", "describing a node changes it"); } }
    SV<Box> bx = {{0, 1, 0, 1}, {-2, 3, 0.5, 0.75}, {10, 1034, -7, -6}}; for (int d = 0; d < 2; d++) bx.push_back(domains()[d].second);
    for (int nx = 1; nx <= 12; nx++) for (int ny = 1; ny <= 12; ny++) for (size_t k = 0; k < bx.size(); k++) { S id = cat("grid ", nx, "x", ny, " ", k); if (!vk::begin(id)) continue; ctx().distinct++; ctx().states++; ctx().transitions += 2; ctx().traces++; Box b = bx[k];
        Grid g(MPI_COMM_SELF, nx, b.x0, b.x1, ny, b.y0, b.y1); SV<double> want = {b.x0, b.x1, (double) nx, (b.x1 - b.x0) / nx, b.y0, b.y1, (double) ny, (b.y1 - b.y0) / ny}, got = nums(g.str()); bool ok = got.size() == 8; for (int i = 0; ok && i < 8; i++) ok = std::abs(got[i] - want[i]) < 1e-6 * (1 + std::abs(want[i])); if (!ok) violation(id, cat("the grid is described as '", g.str(), "'")); }
}
// the sizes of a patch's data, one datum at a time and several
static void patch_part() {
    for (int set = 0; set < 1024; set++) { S id = cat("patch ", set); if (!vk::begin(id)) continue; if (set % 300 == 7) sample(id); ctx().distinct++;
        for (int base : {1, 3, 600, 2051}) { Patch p(MPI_COMM_SELF, Grid(MPI_COMM_SELF, 4, -1, 2, 4, 0.5, 1)); p.n_coarsens = set % 4; double d0 = Patch(p).dataSize(), entries = 0; std::map<S, SV<double>> want; ctx().states++; ctx().transitions += 3; ctx().traces++;
            ef::Matrix<double>* M[4] = {&p.matrixX(), &p.matrixS(), &p.matrixT(), &p.matrixH()}; const char* mn[4] = {"X", "S", "T", "H"}; ef::Vector<double>* V[6] = {&p.vectorU(), &p.vectorG(), &p.vectorV(), &p.vectorF(), &p.vectorH(), &p.vectorW()}; const char* vn[6] = {"u", "g", "v", "f", "h", "w"};
            for (int k = 0; k < 4; k++) { if (set >> k & 1) { int r = base % 7 + k + (base > 2000 ? 60 : 0), c = base % 5 + 2 * k + 1 + (base > 2000 ? 40 : 0); *M[k] = ef::Matrix<double>(r, c, 1.5); entries += r * c; if (k < 3) want[mn[k]] = {(double) r, (double) c}; } else if (k < 3) want[mn[k]] = {0, 0}; }
            for (int k = 0; k < 6; k++) { int n = set >> (4 + k) & 1 ? base + k : 0; if (n) *V[k] = ef::Vector<double>(n, 2.5); entries += n; want[vn[k]] = {(double) n}; }
            double mb = p.dataSize() - d0; if (std::abs(mb - entries * sizeof(double) / 1048576) > 1e-9) violation(id + " dataSize", cat("the data of ", entries, " numbers count as ", mb * 1048576, " bytes"));
            S t = p.str(); std::istringstream is(t); S l; std::map<S, SV<double>> got; while (std::getline(is, l)) { size_t e = l.find('='); if (e == S::npos) continue; S k = l.substr(0, e); k.erase(0, k.find_first_not_of(' ')); k.erase(k.find_last_not_of(' ') + 1); got[k] = nums(l.substr(e + 1)); }
            want["n_coarsens"] = {(double) (set % 4)}; want["nx"] = want["ny"] = {4}; want["x_lower"] = {-1}; want["x_upper"] = {2}; want["y_lower"] = {0.5}; want["y_upper"] = {1};
            for (auto& [k, w] : want) if (!got.count(k) || got[k] != w) violation(id + " " + k, cat("the patch is described with ", k, " = ", got.count(k) ? show(got[k]) : S("nothing"), ", expected ", show(w)));
            if (p.str() != t) violation(id + " again", "describing a patch again gives another text"); } }
}
int main(int argc, char** argv) {
    start(argc, argv);
    numbers_part<double>("double", {0, 1, -2.5, 1e-15, 1e-13, 123456.789, -1e-300, 1e300, 3.14159e-5, -1.2346e-100, 99999.5, 3e-12, -7e-14}); numbers_part<float>("float", {0.f, -1.f, 0.33333334f, 1e-20f, 3e38f, 16777217.f}); numbers_part<int>("int", {0, 1, -1, 42, 2147483647, -2147483647 - 1, 100000});
    options_part(); tree_part(); patch_part();
    return stop();
}
