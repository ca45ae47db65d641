// C23: distributed vectors and matrices on real ranks: every layout, filling and copying history within the bounds.
#include "hps.hpp"
#include "mpx.hpp"
#include <optional>
using namespace vk; using S = std::string; template <class T> using SV = std::vector<T>;
using PV = ef::ParallelVector<double>; using PM = ef::ParallelMatrix<double>; using PI = ef::ParallelIdentityMatrix<double>;
static int N() { return mpx::size(); } static int R() { return mpx::rank(); }
static int perr = 0; static S pmsg;
static PetscErrorCode on_error(MPI_Comm, int, const char* f, const char*, PetscErrorCode n, PetscErrorType p, const char* m, void*) { if (!perr++) pmsg = cat(f, ": ", m ? m : "?"); return n; }
static SV<SV<int>> tuples(int n, int k) { SV<SV<int>> r; SV<int> t(n, 0); for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] >= k) t[i--] = 0; if (i < 0) break; } return r; }
static SV<SV<int>> compositions(int n, int k) { SV<SV<int>> r; for (auto& t : tuples(k, n + 1)) { int s = 0; for (int x : t) s += x; if (s == n) r.push_back(t); } return r; }
static double val(int i, int k) { return (i * 7 + k * 13) % 19 - 9 + 0.25 * (i % 3); }
// communicators: all ranks, each rank alone, the ranks but the first, the ranks but the last
struct Cm { S name; MPI_Comm c; int me, n; };
static SV<Cm> comms() {
    SV<Cm> r; auto add = [&](S nm, MPI_Comm c) { Cm x{nm, c, -1, 0}; if (c != MPI_COMM_NULL) { PMPI_Comm_rank(c, &x.me); PMPI_Comm_size(c, &x.n); } r.push_back(x); };
    add("world", MPI_COMM_WORLD); add("self", MPI_COMM_SELF);
    for (int w = 0; w < 2 && N() > 2; w++) { MPI_Comm c; PMPI_Comm_split(MPI_COMM_WORLD, (w ? R() == N() - 1 : R() == 0) ? MPI_UNDEFINED : 1, R(), &c); add(w ? "all but the last" : "all but the first", c); }
    return r;
}
static int width(const Cm& c) { return c.name == "self" ? 1 : c.name == "world" ? N() : N() - 1; }
static SV<int> split(int n, int k) { SV<int> r; for (int i = 0; i < k; i++) r.push_back(n / k + (n % k > i)); return r; }   // PETSc's documented default layout
static SV<int> starts(const SV<int>& l) { SV<int> s(1, 0); for (int x : l) s.push_back(s.back() + x); return s; }
// all ranks of the communicator go on together or not at all
static bool agree(const S& key, const Cm& c, bool ok) { if (perr) { mpx::fail(key, cat("rank ", R(), ": PETSc reports: ", pmsg)); ok = false; } int a = ok, b; PMPI_Allreduce(&a, &b, 1, MPI_INT, MPI_MIN, c.c); if (!b) perr = 0; return b; }
static bool vsame(const S& key, PV& v, const SV<int>& lay, const Cm& c, const SV<double>& m) {
    PetscInt g = -1, l = -1, a = -1, b = -1; VecGetSize(v.vec, &g); VecGetLocalSize(v.vec, &l); VecGetOwnershipRange(v.vec, &a, &b); auto st = starts(lay); bool ok = true;
    if (g != (int) m.size() || l != lay[c.me] || a != st[c.me] || b != st[c.me + 1]) { mpx::fail(key + " layout", cat("rank ", R(), " owns ", a, "..", b, " of ", g, ", expected ", st[c.me], "..", st[c.me + 1], " of ", m.size())); ok = false; }
    if (ok) { const double* d; VecGetArrayRead(v.vec, &d); for (int i = a; i < b; i++) if (d[i - a] != m[i]) { mpx::fail(key, cat("entry ", i, " is ", d[i - a], ", expected ", m[i])); ok = false; break; } VecRestoreArrayRead(v.vec, &d); }
    if (v.getComm() != c.c || v.getRank() != c.me || v.getSize() != c.n) { mpx::fail(key + " comm", "the vector reports another communicator"); ok = false; }
    return agree(key, c, ok);
}
static bool msame(const S& key, PM& A, const SV<int>& rl, const SV<int>* cl, const Cm& c, int nr, int nc, const SV<double>& m, bool read = true) {
    PetscInt g = -1, h = -1, l = -1, k = -1, a = -1, b = -1; MatGetSize(A.mat, &g, &h); MatGetLocalSize(A.mat, &l, &k); MatGetOwnershipRange(A.mat, &a, &b); auto st = starts(rl); bool ok = true;
    if (g != nr || h != nc || l != rl[c.me] || a != st[c.me] || b != st[c.me + 1] || (cl && k != (*cl)[c.me])) { mpx::fail(key + " layout", cat("rank ", R(), " owns rows ", a, "..", b, " of ", g, "x", h, ", expected ", st[c.me], "..", st[c.me + 1], " of ", nr, "x", nc)); ok = false; }
    if (A.globalRows() != nr || A.globalCols() != nc || A.localRows() != l || A.localCols() != k) { mpx::fail(key + " sizes", cat("rank ", R(), ": reported sizes ", A.localRows(), "x", A.localCols(), " of ", A.globalRows(), "x", A.globalCols(), ", expected ", l, "x", k, " of ", nr, "x", nc)); ok = false; }
    if (A.getComm() != c.c || A.getRank() != c.me || A.getSize() != c.n) { mpx::fail(key + " comm", "the matrix reports another communicator"); ok = false; }
    if (!agree(key, c, ok)) return false;
    if (read) {
        for (int i = a; ok && i < b; i++) for (int j = 0; j < nc; j++) { double x = 1e9; A.getValue(i, j, x); if (x != m[i * nc + j]) { mpx::fail(key, cat("entry (", i, ",", j, ") is ", x, ", expected ", m[i * nc + j])); ok = false; break; } }
        if (b > a && nc) { // some rows in descending order, all columns rotated, into both containers
            SV<int> ri, ci; for (int i = b - 1; i >= a; i--) ri.push_back(i); for (int j = 0; j < nc; j++) ci.push_back((j + 1) % nc);
            ef::Matrix<double> B(ri.size(), nc, -77); ef::Vector<double> w(ri.size() * nc, -77); A.getValues(ef::Vector<int>(ri), ef::Vector<int>(ci), B); A.getValues(ef::Vector<int>(ri), ef::Vector<int>(ci), w);
            for (size_t i = 0; ok && i < ri.size(); i++) for (int j = 0; j < nc; j++) { double e = m[ri[i] * nc + ci[j]]; if (B(i, j) != e || w[i * nc + j] != e) { mpx::fail(key + " block", cat("entry (", ri[i], ",", ci[j], ") is read as ", B(i, j), " and ", w[i * nc + j], ", expected ", e)); ok = false; break; } }
        }
        if (!agree(key, c, ok)) return false;
    }
    // as an operator, on every unit vector
    Vec x, y; MatCreateVecs(A.mat, &x, &y); for (int j = 0; j < nc; j++) { VecSet(x, 0); if (c.me == 0) VecSetValue(x, j, 1, INSERT_VALUES); VecAssemblyBegin(x); VecAssemblyEnd(x); MatMult(A.mat, x, y); const double* d; VecGetArrayRead(y, &d); for (int i = a; i < b; i++) if (d[i - a] != m[i * nc + j]) { mpx::fail(key + " operator", cat("product with unit vector ", j, ": entry ", i, " is ", d[i - a], ", expected ", m[i * nc + j])); ok = false; break; } VecRestoreArrayRead(y, &d); }
    VecDestroy(&x); VecDestroy(&y); return agree(key, c, ok);
}
static bool start_case(const S& id) { if (!vk::begin(id)) return false; ctx().distinct++; ctx().states++; ctx().traces++; sample(id); perr = 0; return true; }
template <class F> static void go(const Cm& c, const S& id, F f) { if (!start_case(id)) return; mpx::run([&] { if (c.me >= 0) try { f(); } catch (std::exception& e) { mpx::fail(id, cat("exception: ", e.what())); } if (perr) { mpx::fail(id, cat("rank ", R(), ": PETSc reports: ", pmsg)); perr = 0; } }, "", false); }
// who sets what: each step is (mode, who, how): 0 insert, 1 add; who: 0 owner 1 first rank 2 last rank 3 everybody; how: 0 one at a time 1 all at once 2 all at once, backwards
static int owner(const SV<int>& st, int i) { int q = 0; while (st[q + 1] <= i) q++; return q; }
static bool sets(int who, int own, const Cm& c) { return who == 3 || c.me == (who == 0 ? own : who == 1 ? 0 : c.n - 1); }
static S word(const SV<int>& w) { S s; for (int x : w) s += cat(" ", x / 12 ? "add" : "insert", "-", (const char*[]) {"owner", "first", "last", "all"}[x / 3 % 4], "-", x % 3); return s; }
static void vfill(PV& v, const SV<int>& w, const SV<int>& lay, const Cm& c, SV<double>& m) {
    auto st = starts(lay); int n = m.size();
    for (size_t k = 0; k < w.size(); k++) { int mode = w[k] / 12, who = w[k] / 3 % 4, how = w[k] % 3; SV<int> ix; for (int i = 0; i < n; i++) if (sets(who, owner(st, i), c)) ix.push_back(i); if (how == 2) std::reverse(ix.begin(), ix.end());
        SV<double> x; for (int i : ix) x.push_back(val(i, k)); auto im = mode ? ADD_VALUES : INSERT_VALUES; ctx().transitions++;
        if (how == 0) for (size_t i = 0; i < ix.size(); i++) v.setValue(ix[i], x[i], im); else v.setValues(ef::Vector<int>(ix), ef::Vector<double>(x), im);
        v.beginAssembly(); v.endAssembly(); for (int i = 0; i < n; i++) { double t = val(i, k) * (mode && who == 3 ? c.n : 1); m[i] = mode ? m[i] + t : t; } }
}
static void mfill(PM& A, const SV<int>& w, const SV<int>& rl, const Cm& c, int nc, SV<double>& m) {
    auto st = starts(rl); int nr = st.back();
    for (size_t k = 0; k < w.size(); k++) { int mode = w[k] / 12, who = w[k] / 3 % 4, how = w[k] % 3; SV<int> ri, ci; for (int i = 0; i < nr; i++) if (sets(who, owner(st, i), c)) ri.push_back(i); for (int j = 0; j < nc; j++) ci.push_back(j); if (how == 2) std::reverse(ri.begin(), ri.end()), std::rotate(ci.begin(), ci.begin() + (nc > 1), ci.end());
        auto im = mode ? ADD_VALUES : INSERT_VALUES; ef::Matrix<double> B(ri.size(), nc, 0); ef::Vector<double> x(ri.size() * nc, 0.0); for (size_t i = 0; i < ri.size(); i++) for (int j = 0; j < nc; j++) B(i, j) = x[i * nc + j] = val(ri[i] * nc + ci[j], k); ctx().transitions++;
        if (how == 0) for (size_t i = 0; i < ri.size(); i++) for (int j = 0; j < nc; j++) A.setValue(ri[i], ci[j], B(i, j), im);
        else if (how == 1) A.setValues(ef::Vector<int>(ri), ef::Vector<int>(ci), B, im); else A.setValues(ef::Vector<int>(ri), ef::Vector<int>(ci), x, im);
        A.beginAssembly(MAT_FINAL_ASSEMBLY); A.endAssembly(MAT_FINAL_ASSEMBLY); for (int i = 0; i < nr * nc; i++) { double t = val(i, k) * (mode && who == 3 ? c.n : 1); m[i] = mode ? m[i] + t : t; } }
}
// for larger sizes: everything on the first, on the last rank, uneven
static SV<SV<int>> ends(int n, int k) { SV<SV<int>> r; SV<int> a(k, 0), b(k, 0), u(k, 0); a[0] = n; b[k - 1] = n; r.push_back(a); if (k > 1) { r.push_back(b); u[0] = 1; u[k - 1] += n - 1; r.push_back(u); } return r; }
static void vectors() {
    bool th = ctx().thorough(); int mx = th ? 7 : 5; auto W = tuples(1, 24); for (auto& t : tuples(2, 24)) W.push_back(t);
    SV<int> NS; for (int n = 0; n <= mx; n++) NS.push_back(n); for (int n : {8, 9, 16, 17, 40, 100, 129, 1000}) NS.push_back(n); if (th) for (int n : {33, 64, 256, 5000}) NS.push_back(n);
    for (auto& c : comms()) { int k = width(c); for (int n : NS) {
        SV<double> m(n); for (int i = 0; i < n; i++) m[i] = val(i, 3); ef::Vector<double> ser(m); auto d = split(n, k);
        for (int ty = 0; ty < 3; ty++) go(c, cat("vector from serial ", n, " ", c.name, " type ", ty, " of ", N()), [&, id = cat("vector from serial ", n, " ", c.name, " of ", N())] {
            auto p = ty == 0 ? std::make_unique<PV>(c.c, ser) : std::make_unique<PV>(c.c, ser, ty == 1 ? VECSTANDARD : c.n == 1 ? VECSEQ : VECMPI); p->beginAssembly(); p->endAssembly(); vsame(id, *p, d, c, m);
            for (int i = 0; i < n; i++) if (ser[i] != m[i]) mpx::fail(id + " serial", "the serial vector changed");
            for (int q = 0; q < 24; q += 5) { auto m2 = m; vfill(*p, {q}, d, c, m2); vsame(id + word({q}), *p, d, c, m2); auto m3 = m; vfill(*p, {3 * 3 + 1}, d, c, m3); p->setValues(ef::Vector<int>({}), ef::Vector<double>({}), INSERT_VALUES); p->beginAssembly(); p->endAssembly(); m = SV<double>(n); for (int i = 0; i < n; i++) m[i] = val(i, 0); vsame(id + " again", *p, d, c, m); }
            m = SV<double>(n); for (int i = 0; i < n; i++) m[i] = val(i, 3); });
        auto L = n <= mx ? compositions(n, k) : ends(n, k); L.push_back(d);
        for (size_t l = 0; l < L.size(); l++) { bool dec = l + 1 == L.size(); for (int ty = 0; ty < 3; ty++) { if (n > 3 && n <= mx && ty && !th) continue; S id = cat("vector ", n, " ", c.name, " of ", N(), dec ? " default layout" : " layout " + vk::show(L[l]), " type ", ty);
            go(c, id, [&] { for (auto& w : W) { if (w.size() == 2 && (!th && (n > 2 || ty) && (w[0] * 24 + w[1]) % 7)) continue; if (n > mx && w.size() == 2 && (w[0] * 24 + w[1]) % 11) continue; int loc = dec ? PETSC_DECIDE : L[l][c.me];
                int glob = dec || l % 2 ? n : PETSC_DETERMINE; auto p = ty == 0 ? std::make_unique<PV>(c.c, loc, glob) : ty == 1 ? std::make_unique<PV>(c.c, loc, glob, VECSTANDARD) : [&] { auto x = std::make_unique<PV>(c.c); x->create(); x->setSizes(loc, glob); x->setType(c.n == 1 ? VECSEQ : VECMPI); return x; }();
                SV<double> m(n, 0.0); vfill(*p, w, L[l], c, m); if (!vsame(id + word(w), *p, L[l], c, m)) return; } }); } }
    } }
}
static void matrices() {
    bool th = ctx().thorough(); int mx = th ? 5 : 4; auto W = tuples(1, 24); for (int a = 0; a < 24; a++) for (int b = 0; b < 24; b++) if (th || (a * 24 + b) % 5 == 0) W.push_back({a, b});
    SV<std::pair<int, int>> RC; for (int nr = 1; nr <= mx; nr++) for (int nc = 1; nc <= mx; nc++) RC.push_back({nr, nc}); for (auto x : SV<std::pair<int, int>>{{8, 8}, {9, 7}, {16, 17}, {33, 5}, {5, 33}, {1, 40}, {40, 1}, {32, 32}}) RC.push_back(x); if (th) for (auto x : SV<std::pair<int, int>>{{64, 64}, {100, 3}, {3, 100}, {65, 33}}) RC.push_back(x);
    for (auto& c : comms()) { int k = width(c); for (auto [nr, nc_] : RC) { int nc = nc_; bool lg = nr > mx || nc > mx;
        SV<double> m(nr * nc); ef::Matrix<double> ser(nr, nc, 0); for (int i = 0; i < nr * nc; i++) ser(i / nc, i % nc) = m[i] = val(i, 3); auto rd = split(nr, k), cd = split(nc, k);
        for (int ty = 0; ty < 3; ty++) { S id = cat("matrix from serial ", nr, "x", nc, " ", c.name, " type ", ty, " of ", N()); go(c, id, [&] { auto p = ty == 0 ? std::make_unique<PM>(c.c, ser) : std::make_unique<PM>(c.c, ser, ty == 1 ? MATDENSE : MATAIJ); p->beginAssembly(MAT_FINAL_ASSEMBLY); p->endAssembly(MAT_FINAL_ASSEMBLY); msame(id, *p, rd, &cd, c, nr, nc, m); }); }
        auto L = !lg ? compositions(nr, k) : ends(nr, k); L.push_back(rd);
        for (size_t l = 0; l < L.size(); l++) { bool dec = l + 1 == L.size(); for (int ty = 0; ty < 3; ty++) { if (!lg && nr * nc > 6 && ty == 1 && !th) continue; if (!lg && !th && N() > 2 && nr * nc > 9) continue; S id = cat("matrix ", nr, "x", nc, " ", c.name, " of ", N(), dec ? " default layout" : " layout " + vk::show(L[l]), " type ", ty); auto& cl = nr == nc && !dec ? L[l] : cd;
            go(c, id, [&] { for (size_t q = 0; q < W.size(); q++) { auto& w = W[q]; if (!th && nr * nc > 4 && w.size() > 1 && (q + nr + nc) % 6) continue; if (lg && w.size() > 1 && (q + nr + nc) % 25) continue; if (lg && !th && N() > 2 && w.size() == 1 && (q + ty) % 3) continue; int lr = dec ? PETSC_DECIDE : L[l][c.me], lc = dec ? PETSC_DECIDE : cl[c.me], gr = dec || l % 2 ? nr : PETSC_DETERMINE, gc = dec || l % 2 ? nc : PETSC_DETERMINE;
                auto p = ty == 0 ? std::make_unique<PM>(c.c, lr, lc, gr, gc) : ty == 1 ? std::make_unique<PM>(c.c, lr, lc, gr, gc, MATDENSE) : [&] { auto x = std::make_unique<PM>(c.c); x->create(); x->setSizes(lr, lc, gr, gc); x->setType(MATAIJ); return x; }();
                SV<double> m(nr * nc, 0.0); mfill(*p, w, L[l], c, nc, m); if (!msame(id + word(w), *p, L[l], &cl, c, nr, nc, m)) return; } }); } }
    } }
    // a matrix taken over from PETSc; the identity; sub-matrices
    for (auto& c : comms()) { int k = width(c); for (int n = 0; n <= (th ? 9 : 6); n++) for (int ty = 0; ty < 5; ty++) { if (n == 0 && ty) continue; S id = cat("identity ", n, " ", c.name, " of ", N(), " made ", (const char*[]) {"plainly", "for a communicator", "as AIJ", "as dense", "as constant diagonal"}[ty]); auto d = split(n, k);
        if (ty == 0 && c.name != "world") continue;
        go(c, id, [&] { auto p = ty == 0 ? std::make_unique<PI>(n) : ty == 1 ? std::make_unique<PI>(c.c, n) : std::make_unique<PI>(c.c, n, ty == 2 ? MATAIJ : ty == 3 ? MATDENSE : MATCONSTANTDIAGONAL); SV<double> m(n * n, 0.0); for (int i = 0; i < n; i++) m[i * n + i] = 1; msame(id, *p, d, &d, c, n, n, m, ty == 2 || ty == 3); }); } }
    for (auto& c : comms()) { int k = width(c); if (c.me < 0 && false) continue; for (int nr = 1; nr <= 3; nr++) for (int nc = 1; nc <= 3; nc++) for (int ty = 0; ty < 2; ty++) {
        SV<double> m(nr * nc); for (int i = 0; i < nr * nc; i++) m[i] = val(i, 0); auto rd = split(nr, k);
        S id = cat("sub-matrix of ", nr, "x", nc, " ", c.name, " of ", N(), ty ? " dense" : " AIJ");
        go(c, id, [&] { PM A(c.c, PETSC_DECIDE, PETSC_DECIDE, nr, nc, ty ? MATDENSE : MATAIJ); SV<double> z(nr * nc, 0.0); mfill(A, {1}, rd, c, nc, z);
            PM own(c.c, [&] { Mat x; MatDuplicate(A.mat, MAT_COPY_VALUES, &x); return x; }()); if (!msame(id + " taken over", own, rd, nullptr, c, nr, nc, m)) return;
            for (auto& as : tuples(nr, k + 1)) for (auto& cs : tuples(nc, k + 1)) { if (k > 2 && (nr > 2 || nc > 2) && !th) { int h = 0; for (int x : as) h = h * 5 + x; for (int x : cs) h = h * 5 + x; if (h % 9) continue; }
                // row i goes to rank as[i]-1 (0: nowhere), column j belongs to rank cs[j]-1; the rows of a rank in ascending order
                SV<int> rl(k, 0), cl(k, 0), rows, cols; for (int q = 0; q < k; q++) { for (int i = 0; i < nr; i++) if (as[i] == q + 1) { rows.push_back(i); rl[q]++; } for (int j = 0; j < nc; j++) if (cs[j] == q + 1) { cols.push_back(j); cl[q]++; } }
                if (!std::is_sorted(cols.begin(), cols.end()) || !std::is_sorted(rows.begin(), rows.end())) continue;
                if (ty) { bool own = true; auto st = starts(rd); for (int i = 0; i < nr; i++) own &= as[i] == 0 || owner(st, i) == as[i] - 1; if (!own) continue; }   // PETSc's dense sub-matrices take a rank's own rows
                SV<int> mr, mc; for (int i = 0; i < nr; i++) if (as[i] == c.me + 1) mr.push_back(i); for (int j = 0; j < nc; j++) if (cs[j] == c.me + 1) mc.push_back(j);
                IS a, b; ISCreateGeneral(c.c, mr.size(), mr.data(), PETSC_COPY_VALUES, &a); ISCreateGeneral(c.c, mc.size(), mc.data(), PETSC_COPY_VALUES, &b); ctx().transitions++;
                bool ok; { PM B(c.c, A, a, b); SV<double> w; for (int i : rows) for (int j : cols) w.push_back(m[i * nc + j]); ok = msame(cat(id, " rows ", vk::show(as), " columns ", vk::show(cs)), B, rl, &cl, c, rows.size(), cols.size(), w); }
                ISDestroy(&a); ISDestroy(&b); if (!ok) return; }
            msame(id + " afterwards", A, rd, nullptr, c, nr, nc, m); });
    } }
}
// histories over two or three variables: make, copy, move, replace, destroy, change; every live one is compared after each step
template <class X> struct H { std::unique_ptr<X> o; int data = -1; };   // data: index of the shared contents
static void copies() {
    bool th = ctx().thorough();
    for (auto& c : comms()) { if (c.name != "world" && c.name != "self") continue; int k = width(c);
        for (int kind = 0; kind < 2; kind++) { int L = th || N() == 2 ? 5 : 4, K = 10; const char* nm[] = {"make0", "make1", "1=copy(0)", "0=copy(1)", "1<-move(0)", "0<-move(1)", "drop0", "drop1", "change0", "list"};
        for (auto& w : tuples(L, K)) { bool ok = w[0] < 2; bool l0 = false, l1 = false; for (int x : w) switch (x) { case 0: l0 = true; break; case 1: l1 = true; break; case 2: ok &= l0; l1 = true; break; case 3: ok &= l1; l0 = true; break; case 4: ok &= l0 && l1; break; case 5: ok &= l0 && l1; break; case 6: ok &= l0; l0 = false; break; case 7: ok &= l1; l1 = false; break; case 8: case 9: ok &= l0; }
            if (!ok) continue; S id = cat(kind ? "matrix copies " : "vector copies ", c.name, " of ", N(), ":"); for (int x : w) id += cat(" ", nm[x]);
            go(c, id, [&] {
                int n = 3; auto lay = split(n, k), cl = split(2, k); SV<SV<double>> store; int step = 0;
                auto test = [&](auto& h) { bool ok = true; for (int i = 0; i < 2; i++) if (h[i].o && h[i].data >= 0) { if constexpr (std::is_same_v<std::decay_t<decltype(*h[i].o)>, PV>) ok &= vsame(cat(id, " step ", step, " variable ", i), *h[i].o, lay, c, store[h[i].data]); else ok &= msame(cat(id, " step ", step, " variable ", i), *h[i].o, lay, &cl, c, n, 2, store[h[i].data]); } return ok; };
                auto play = [&](auto h, auto make, auto change) { using X = typename std::decay_t<decltype(h[0])>; for (int x : w) { step++; ctx().transitions++; int i = x % 2;
                    switch (x) { case 0: case 1: h[i].o = make(step, store); h[i].data = store.size() - 1; break;
                        case 2: case 3: { auto q = std::make_unique<std::decay_t<decltype(*h[0].o)>>(*h[x == 2 ? 0 : 1].o); h[x == 2 ? 1 : 0].o = std::move(q); h[x == 2 ? 1 : 0].data = h[x == 2 ? 0 : 1].data; break; }
                        case 4: case 5: { int from = x == 4 ? 0 : 1, to = 1 - from; *h[to].o = std::move(*h[from].o); h[to].data = h[from].data; h[from].data = -1; break; }   // the source is not used any more but may be destroyed, replaced or assigned to
                        case 6: case 7: h[i].o.reset(); h[i].data = -1; break;
                        case 8: if (h[0].data >= 0) change(*h[0].o, store[h[0].data]); break;
                        default: if (h[0].data >= 0) { std::vector<std::decay_t<decltype(*h[0].o)>> v; for (int r = 0; r < 3; r++) v.push_back(*h[0].o); v.erase(v.begin() + 2); } }
                    if ((x == 2 || x == 3) && h[x == 2 ? 0 : 1].data < 0) h[x == 2 ? 1 : 0].data = -1; 
                    if (!test(h)) return; } };
                if (kind) { std::array<H<PM>, 2> h; play(std::move(h), [&](int s, auto& st) { auto p = std::make_unique<PM>(c.c, PETSC_DECIDE, PETSC_DECIDE, n, 2, s % 2 ? MATDENSE : MATAIJ); SV<double> m(n * 2, 0.0); mfill(*p, {s % 12}, lay, c, 2, m); st.push_back(m); return p; }, [&](PM& A, SV<double>& m) { mfill(A, {13}, lay, c, 2, m); }); }
                else { std::array<H<PV>, 2> h; play(std::move(h), [&](int s, auto& st) { auto p = std::make_unique<PV>(c.c, PETSC_DECIDE, n); SV<double> m(n, 0.0); vfill(*p, {s % 12}, lay, c, m); st.push_back(m); return p; }, [&](PV& A, SV<double>& m) { vfill(A, {13}, lay, c, m); }); }
            }); } } }
}
int main(int argc, char** argv) {
    S part; for (int i = 1; i + 1 < argc; i++) if (S(argv[i]) == "--part") part = argv[i + 1];
    start(argc, argv); mpx::open(); PetscPushErrorHandler(on_error, nullptr);
    if (part == "vectors") vectors(); else if (part == "matrices") matrices(); else if (part == "copies") copies(); else return 9;
    return mpx::finish();
}
