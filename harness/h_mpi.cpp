// C11: every transfer of every payload type, on real ranks whose communication is controlled (mpx).
#include "hps.hpp"
#include "mpx.hpp"
#include <limits>
#include <algorithm>
using namespace vk; using S = std::string; template <class T> using SV = std::vector<T>;
namespace M = ef::MPI;
static int N() { return mpx::size(); } static int R() { return mpx::rank(); }
// ---- payloads: make(k): the k-th value; eq; text --------------------------------------------------
template <class T> struct P { static const int count = 6;
    static T make(int k) { using L = std::numeric_limits<T>; switch (k % 6) { case 0: return T(0); case 1: return L::max(); case 2: return L::lowest(); case 3: return T(1); case 4: return L::has_infinity ? L::infinity() : T(L::max() / 3); default: return T(37); } }
    static bool eq(const T& a, const T& b) { return a == b; } static S show(const T& a) { return cat(+a); } };
static char ch(int i, int k) { return (char) (i % 5 == 3 ? 0 : (i * 37 + k * 11 + 65) % 256); }
static int big(int k) { static const int sz[] = {0, 1, 2, 3, 4, 5, 8, 15, 16, 40, 1000, 9000, 33001, 70000}; return sz[k]; }
template <> struct P<S> { static const int count = 14; static S make(int k) { S s(big(k), ' '); for (size_t i = 0; i < s.size(); i++) s[i] = ch(i, k); return s; } static bool eq(const S& a, const S& b) { return a == b; } static S show(const S& a) { return cat("text of ", a.size(), " bytes"); } };
template <class T> static T num(int i, int k) { return (T) ((i * 7 + k * 13) % 101 - (std::is_signed<T>::value ? 50 : 0)); }
template <class T> struct P<SV<T>> { static const int count = 14; static SV<T> make(int k) { SV<T> s(big(k)); for (size_t i = 0; i < s.size(); i++) s[i] = num<T>(i, k); return s; } static bool eq(const SV<T>& a, const SV<T>& b) { return a == b; } static S show(const SV<T>& a) { return cat("vector of ", a.size()); } };
template <class T> struct P<ef::Vector<T>> { using V = ef::Vector<T>; static const int count = 14; static V make(int k) { V v(big(k)); for (size_t i = 0; i < v.size(); i++) v[i] = num<T>(i, k); return v; } static bool eq(V& a, V& b) { if (a.size() != b.size() || a.dataNoConst().size() != a.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; } static S show(V& a) { return cat("Vector of ", a.size()); } };
template <class T> struct P<ef::Matrix<T>> { using X = ef::Matrix<T>; static const int count = 13; static X make(int k) { static const int r[] = {0, 0, 3, 1, 1, 4, 2, 3, 5, 7, 1, 40, 200}, c[] = {0, 4, 0, 1, 3, 1, 3, 2, 5, 9, 300, 33, 331}; X m(r[k], c[k]); for (int i = 0; i < r[k]; i++) for (int j = 0; j < c[k]; j++) m(i, j) = num<T>(i * 64 + j, k); return m; }
    static bool eq(X& a, X& b) { if (a.nrows() != b.nrows() || a.ncols() != b.ncols() || a.dataNoConst().size() != a.nrows() * a.ncols()) return false; for (size_t i = 0; i < a.nrows(); i++) for (size_t j = 0; j < a.ncols(); j++) if (a(i, j) != b(i, j)) return false; return true; } static S show(X& a) { return cat("Matrix ", a.nrows(), "x", a.ncols()); } };
template <> struct P<Grid> { static const int count = 6; static Grid make(int k) { static const int n[] = {1, 4, 2, 8, 3, 100}; static const double b[][4] = {{-1, 1, -1, 1}, {0, 1e-3, 5, 6}, {0.1, 0.3, -7, 1e4}, {-1e300, 1e300, 0, 1}, {1. / 3, 2. / 3, 1. / 7, 1}, {0, 1, 0, 1}}; return Grid(MPI_COMM_SELF, n[k], b[k][0], b[k][1], n[(k + 2) % 6], b[k][2], b[k][3]); }
    static bool eq(Grid& a, Grid& b) { return a.nx() == b.nx() && a.ny() == b.ny() && a.xLower() == b.xLower() && a.xUpper() == b.xUpper() && a.yLower() == b.yLower() && a.yUpper() == b.yUpper() && a.dx() == b.dx() && a.dy() == b.dy() && a(0, 1) == b(0, 1) && a(1, 0) == b(1, 0); } static S show(Grid& a) { return cat("grid ", a.nx(), "x", a.ny(), " on ", a.xLower(), "..", a.xUpper(), " ", a.yLower(), "..", a.yUpper()); } };
template <> struct P<Patch> { static const int count = 6; static Patch make(int k) { Patch p(MPI_COMM_SELF, P<Grid>::make(k)); p.n_coarsens = k * 3 % 4; if (k) { using A = P<ef::Matrix<double>>; using V = P<ef::Vector<double>>; p.matrixX() = A::make(k); p.matrixH() = A::make(k + 1); p.matrixS() = A::make(k + 2); p.matrixT() = A::make(k + 3); p.vectorU() = V::make(k); p.vectorG() = V::make(k + 1); p.vectorV() = V::make(k + 2); p.vectorF() = V::make(k + 3); p.vectorH() = V::make(k + 4); p.vectorW() = V::make(k + 5); } return p; }
    static S bad(Patch& a, Patch& b) { using A = P<ef::Matrix<double>>; using V = P<ef::Vector<double>>; S r; if (a.n_coarsens != b.n_coarsens) r += " n_coarsens"; if (!P<Grid>::eq(a.grid(), b.grid())) r += " grid"; if (!A::eq(a.matrixX(), b.matrixX())) r += " X"; if (!A::eq(a.matrixH(), b.matrixH())) r += " H"; if (!A::eq(a.matrixS(), b.matrixS())) r += " S"; if (!A::eq(a.matrixT(), b.matrixT())) r += " T"; if (!V::eq(a.vectorU(), b.vectorU())) r += " u"; if (!V::eq(a.vectorG(), b.vectorG())) r += " g"; if (!V::eq(a.vectorV(), b.vectorV())) r += " v"; if (!V::eq(a.vectorF(), b.vectorF())) r += " f"; if (!V::eq(a.vectorH(), b.vectorH())) r += " h"; if (!V::eq(a.vectorW(), b.vectorW())) r += " w"; return r; }
    static bool eq(Patch& a, Patch& b) { return bad(a, b) == ""; } static S show(Patch& a) { return "patch with " + P<Grid>::show(a.grid()); } };
template <class T> struct P<ef::Node<T>> { using X = ef::Node<T>; static const int count = 10; static X make(int k) { static const std::string p[] = {"0", "03", "021", "0123012301230123", "00", "0312", "012301230", "02" + std::string(10, '3'), "0" + std::string(17, '1'), "0" + std::string(29, '2')}; X n(MPI_COMM_WORLD, P<T>::make(k % P<T>::count), p[k], k < 5 ? k * 5 % 7 : (int) p[k].size() - 1, k, k + 2); n.leaf = k % 3 != 1 && k != 6 && k != 8; return n; }
    static bool eq(X& a, X& b) { return P<T>::eq(a.data, b.data) && a.path == b.path && a.level == b.level && a.pfirst == b.pfirst && a.plast == b.plast && a.leaf == b.leaf && !a.node_comm_set; } static S show(X& a) { return "node " + a.path + " with " + P<T>::show(a.data); } };
// receiver's objects: every value, and fresh
template <class T> static T fresh(int k) { return P<T>::make(k); }
template <class T> static void expect(const S& key, T& got, T& want) { if (!P<T>::eq(got, want)) mpx::fail(key, cat("rank ", R(), " has ", P<T>::show(got), " where ", P<T>::show(want), " was sent")); }
// ---- broadcast: every root, value and prior value of the receiver ---------------------------------
template <class T> static void bcasts(const S& name, MPI_Comm comm, const S& cn) {
    int me = -1, n = 0; if (comm != MPI_COMM_NULL) { PMPI_Comm_rank(comm, &me); PMPI_Comm_size(comm, &n); } int nmax = 0; PMPI_Allreduce(&n, &nmax, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    for (int root = 0; root < nmax; root++) { S id = cat("bcast ", name, " ", N(), " ranks ", cn, " root ", root); if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        mpx::run([&] { if (me >= 0) for (int k = 0; k < P<T>::count; k++) for (int q = 0; q < P<T>::count; q++) { T want = P<T>::make(k); T x = P<T>::make(me == root ? k : (q + me) % P<T>::count);
            M::broadcast(x, root, comm); expect(cat(id, " value ", k), x, want); } }); ctx().traces++; }
}
// ---- point to point -------------------------------------------------------------------------------
template <class T> static void p2p(const S& name) {
    for (int s = 0; s < N(); s++) for (int d = 0; d < N(); d++) if (s != d) { S id = cat("send ", name, " ", N(), " ranks from ", s, " to ", d); if (!vk::begin(id)) continue; ctx().distinct++;
        mpx::run([&] { for (int k = 0; k < P<T>::count; k++) for (int q = 0; q < P<T>::count; q++) { T want = P<T>::make(k); int tag = (k * 5 + q) % 3 * 10; if (R() == s) { T x = P<T>::make(k); M::send(x, d, tag, MPI_COMM_WORLD); expect(cat(id, " sender ", k), x, want); } else if (R() == d) { T x = P<T>::make(q); MPI_Status st; M::receive(x, s, tag, MPI_COMM_WORLD, &st); expect(cat(id, " value ", k), x, want); if (st.MPI_SOURCE != s) mpx::fail(id + " status", "status names another source"); } } }); ctx().traces++; }
    // a ring, neighbours first sending or receiving by parity, and two messages under way
    if (N() >= 2) for (int shift = 1; shift < N(); shift++) { S id = cat("ring ", name, " ", N(), " ranks by ", shift); if (!vk::begin(id)) continue; ctx().distinct++;
        mpx::run([&] { for (int k = 0; k < P<T>::count; k++) { int to = (R() + shift) % N(), from = (R() + N() - shift) % N(); int c = P<T>::count; T mine = P<T>::make((k + R()) % c), want = P<T>::make((k + from) % c), x = P<T>::make((k + 3) % c); MPI_Status st;
            // ranks send in an order in which synchronous sends cannot block: rank 0 of each cycle receives first
            int g = shift, b = N(); while (b) { int t = g % b; g = b; b = t; } if (R() < g) { M::receive(x, from, 0, MPI_COMM_WORLD, &st); M::send(mine, to, 0, MPI_COMM_WORLD); } else { M::send(mine, to, 0, MPI_COMM_WORLD); M::receive(x, from, 0, MPI_COMM_WORLD, &st); } expect(cat(id, " value ", k), x, want); } }); ctx().traces++; }
}
// Vector has no iterator constructor
struct DV : ef::Vector<double> { DV() {} template <class I> DV(I a, I b) : ef::Vector<double>(SV<double>(a, b)) {} DV(const DV&) = default; DV& operator=(const DV& o) { ef::Vector<double>::operator=(o); return *this; } };
namespace EllipticForest { namespace MPI { inline int allgather(DV& s, DV& r, int c, Communicator m) { return allgather((ef::Vector<double>&) s, (ef::Vector<double>&) r, c, m); } inline int allgatherv(DV& s, DV& r, SV<int> c, SV<int> d, Communicator m) { return allgatherv((ef::Vector<double>&) s, (ef::Vector<double>&) r, c, d, m); } } }
// ---- gathers --------------------------------------------------------------------------------------
static SV<SV<int>> tuples(int n, int k) { SV<SV<int>> r; SV<int> t(n, 0); for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] >= k) t[i--] = 0; if (i < 0) break; } return r; }
template <class C, class E> static void gathers(const S& name) {   // C: container with operator[] and size
    int mx = ctx().thorough() ? 5 : N() <= 2 ? 5 : N() == 3 ? 4 : 3;
    for (int c = 0; c <= 6; c++) { S id = cat("allgather ", name, " ", N(), " ranks count ", c); if (!vk::begin(id)) continue; ctx().distinct++;
        mpx::run([&] { for (int extra : {0, 2}) { SV<E> v(c); for (int i = 0; i < c; i++) v[i] = num<E>(i + 10 * R(), c); C s(v.begin(), v.end()); SV<E> pr(N() * c + extra); for (size_t i = 0; i < pr.size(); i++) pr[i] = num<E>(i, 77); C r(pr.begin(), pr.end());
            M::allgather(s, r, c, MPI_COMM_WORLD); bool ok = r.size() == pr.size() && (int) s.size() == c; for (int q = 0; ok && q < N(); q++) for (int i = 0; i < c; i++) ok = ok && r[q * c + i] == num<E>(i + 10 * q, c); for (int i = 0; ok && i < extra; i++) ok = r[N() * c + i] == pr[N() * c + i]; for (int i = 0; ok && i < c; i++) ok = s[i] == num<E>(i + 10 * R(), c); if (!ok) mpx::fail(id, cat("rank ", R(), ": wrong contents after the gather")); } }); ctx().traces++; }
    for (auto& cnt : tuples(N(), mx)) { S id = cat("allgatherv ", name, " ", N(), " ranks counts ", show(cnt)); if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        mpx::run([&] { for (int lay = 0; lay < 4; lay++) { SV<int> d(N()); int t = 0; auto place = [&](int q) { d[q] = t; t += cnt[q] + (lay >= 2 ? 1 + q % 2 : 0); }; if (lay % 2) for (int q = N() - 1; q >= 0; q--) place(q); else for (int q = 0; q < N(); q++) place(q);
            SV<E> v(cnt[R()]), pr(t + lay); for (size_t i = 0; i < v.size(); i++) v[i] = num<E>(i + 9 * R(), lay); for (size_t i = 0; i < pr.size(); i++) pr[i] = num<E>(i, 55); C s(v.begin(), v.end()), r(pr.begin(), pr.end()); SV<E> want = pr; for (int q = 0; q < N(); q++) for (int i = 0; i < cnt[q]; i++) want[d[q] + i] = num<E>(i + 9 * q, lay);
            M::allgatherv(s, r, cnt, d, MPI_COMM_WORLD); bool ok = r.size() == want.size(); for (size_t i = 0; ok && i < want.size(); i++) ok = r[i] == want[i]; if (!ok) mpx::fail(cat(id, " layout ", lay), cat("rank ", R(), ": wrong contents after the gather")); } }); ctx().traces++; }
}
// ---- reductions -----------------------------------------------------------------------------------
template <class T> static void reduces(const S& name) {
    struct O { const char* n; MPI_Op op; }; O ops[] = {{"sum", MPI_SUM}, {"max", MPI_MAX}, {"min", MPI_MIN}, {"prod", MPI_PROD}};
    for (auto& o : ops) { S id = cat("allreduce ", name, " ", o.n, " ", N(), " ranks"); if (!vk::begin(id)) continue; ctx().distinct++;
        auto red = [&](SV<T> v) { T a = v[0]; for (size_t i = 1; i < v.size(); i++) a = o.n[0] == 's' ? a + v[i] : o.n[0] == 'p' ? a * v[i] : o.n[1] == 'a' ? std::max(a, v[i]) : std::min(a, v[i]); return a; };
        mpx::run([&] { for (auto& t : tuples(N(), N() > 3 ? 3 : 4)) { T s = T(t[R()] + 1), r = T(99); M::allreduce(s, r, o.op, MPI_COMM_WORLD); SV<T> all; for (int x : t) all.push_back(T(x + 1)); if (r != red(all) || s != T(t[R()] + 1)) mpx::fail(id, cat("rank ", R(), ": values ", show(t), " give ", +r)); }
            for (int n : {0, 1, 2, 3, 4, 5, 6, 16, 17, 64, 255, 1000, 5001, 70000}) { SV<T> s(n), r(n, T(5)); for (int i = 0; i < n; i++) s[i] = T((i + 2 * R()) % 5 + 1); M::allreduce(s, r, o.op, MPI_COMM_WORLD); bool ok = (int) r.size() == n; for (int i = 0; ok && i < n; i++) { SV<T> all; for (int q = 0; q < N(); q++) all.push_back(T((i + 2 * q) % 5 + 1)); ok = r[i] == red(all); } if (!ok) mpx::fail(id + " vector", cat("rank ", R(), ": wrong reduction of ", n, " values")); } }); ctx().traces++; }
    // extreme values: every tuple of them over the ranks for max and min; sums and products at the ends of the range
    using L = std::numeric_limits<T>; SV<T> X = {T(0), T(1), L::max(), L::lowest(), T(L::max() / 2 + T(1)), T(37)};
    for (auto& o : ops) { S id = cat("allreduce ", name, " ", o.n, " ", N(), " ranks extreme"); if (!vk::begin(id)) continue; ctx().distinct++;
        auto red = [&](SV<T> v) { T a = v[0]; for (size_t i = 1; i < v.size(); i++) a = o.n[0] == 's' ? T(a + v[i]) : o.n[0] == 'p' ? T(a * v[i]) : o.n[1] == 'a' ? std::max(a, v[i]) : std::min(a, v[i]); return a; };
        mpx::run([&] { for (auto& t : tuples(N(), X.size())) { SV<T> all; int big = 0; for (int x : t) { all.push_back(X[x]); big += x > 1; } if (o.n[0] != 'm' && big > 1) continue; T s = X[t[R()]], r = T(99); M::allreduce(s, r, o.op, MPI_COMM_WORLD); if (r != red(all) || s != X[t[R()]]) mpx::fail(id, cat("rank ", R(), ": values number ", show(t), " give ", +r));
                SV<T> sv(3, X[t[R()]]), rv(3, T(5)); sv[1] = T(2); M::allreduce(sv, rv, o.op, MPI_COMM_WORLD); if (rv.size() != 3 || rv[0] != red(all) || rv[2] != red(all) || rv[1] != red(SV<T>(N(), T(2)))) mpx::fail(id + " vector", cat("rank ", R(), ": values number ", show(t), " in a vector are reduced wrongly")); } }); ctx().traces++; }
}
static void bools() { struct O { const char* n; MPI_Op op; }; O ops[] = {{"and", MPI_LAND}, {"or", MPI_LOR}}; for (auto& o : ops) { S id = cat("allreduce bool ", o.n, " ", N(), " ranks"); if (!vk::begin(id)) continue; ctx().distinct++; mpx::run([&] { for (auto& t : tuples(N(), 2)) { bool s = t[R()], r = false; M::allreduce(s, r, o.op, MPI_COMM_WORLD); int c = 0; for (int x : t) c += x; if (r != (o.n[0] == 'a' ? c == N() : c > 0)) mpx::fail(id, cat("rank ", R(), ": values ", show(t), " give ", r)); } }); ctx().traces++; } }
// ---- communicators --------------------------------------------------------------------------------
static void comms() {
    for (int a = 0; a < N(); a++) for (int b = a; b < N(); b++) { S id = cat("range ", a, "..", b, " of ", N(), " ranks"); if (!vk::begin(id)) continue; ctx().distinct++; bool in = a <= R() && R() <= b;
        mpx::run([&] { for (int rep = 0; rep < 2; rep++) { MPI_Comm c = MPI_COMM_WORLD; M::communicatorSubsetRange(MPI_COMM_WORLD, a, b, rep * 7, &c); if (!in) { if (c != MPI_COMM_NULL) mpx::fail(id, cat("rank ", R(), " is outside and gets a communicator")); continue; } if (c == MPI_COMM_NULL || c == MPI_COMM_WORLD) { mpx::fail(id, cat("rank ", R(), " gets no communicator")); continue; }
            int r, n; PMPI_Comm_rank(c, &r); PMPI_Comm_size(c, &n); if (r != R() - a || n != b - a + 1) mpx::fail(id, cat("rank ", R(), " is ", r, " of ", n)); M::communicatorSetName(c, cat("name ", a, b)); if (M::communicatorGetName(c) != cat("name ", a, b)) mpx::fail(id + " name", "the name of a communicator is lost"); for (int root = 0; root < n; root++) { int x = r == root ? 100 + root : -1; M::broadcast(x, root, c); if (x != 100 + root) mpx::fail(id, "broadcast on the communicator is wrong"); } } }); ctx().traces++; }
}
// ---- histories of mixed messages on the same objects ----------------------------------------------
// VK_GENERIC: nodes around any payload, not only patches (build.py leaves it out when the node templates do not compile for these)
#ifdef VK_GENERIC
using NodeD = ef::Node<double>; static NodeD new_node() { return NodeD(MPI_COMM_WORLD, 0.0, "0", 0, 0, 0); }
#else
using NodeD = float; static NodeD new_node() { return 0; }
#endif
template <class T> static void put(T& o, T& w) { if constexpr (requires { o.path; }) { o.data = w.data; o.path = w.path; o.level = w.level; o.pfirst = w.pfirst; o.plast = w.plast; o.leaf = w.leaf; } else o = w; }
struct Objs { int i = 0; double d = 0; S s; SV<double> v; ef::Vector<double> V; ef::Matrix<double> A; NodeD n = new_node(); };
static void mixed() {
    const int K = 6; int first = 0, last = N() - 1; int L = ctx().thorough() ? 3 : 2; int letters = K * 4;
    for (auto& w : tuples(L, letters)) { S id = cat("messages ", N(), " ranks"); for (int x : w) id += cat(" ", "idsvVAn"[x % K + (x % K >= 1)], x / K); if (!vk::begin(id)) continue; ctx().distinct++; sample(id);
        mpx::run([&] { Objs o; int k = 0; for (int rep = 0; rep < 2; rep++) for (int x : w) { k++; int ty = x % K, how = x / K, from = how % 2 ? last : first, to = how % 2 ? first : last; S key = cat(id, " message ", k); MPI_Status st;
            auto go = [&](auto& obj) { using T = std::decay_t<decltype(obj)>; int q = (k * 5 + ty) % std::min(P<T>::count, 9); T want = P<T>::make(q); if (R() == from) put(obj, want);
                if (how < 2) M::broadcast(obj, from, MPI_COMM_WORLD); else if (R() == from) M::send(obj, to, k % 2, MPI_COMM_WORLD); else if (R() == to) M::receive(obj, from, k % 2, MPI_COMM_WORLD, &st); if (how < 2 || R() == from || R() == to) expect(key, obj, want); };
            switch (ty) { case 0: go(o.i); break; case 1: go(o.s); break; case 2: go(o.v); break; case 3: go(o.V); break; case 4: go(o.A); break; default: go(o.n); } } }, R() >= 0 && w[0] % 2 ? "10" : ""); ctx().traces++; }
}
template <class T> static void both(const S& n) { bcasts<T>(n, MPI_COMM_WORLD, "world"); p2p<T>(n); }
int main(int argc, char** argv) {
    S part; for (int i = 1; i + 1 < argc; i++) if (S(argv[i]) == "--part") part = argv[i + 1];
    start(argc, argv); mpx::open();
    if (part == "types") {
        both<int>("int"); both<double>("double"); both<char>("char"); both<wchar_t>("wchar_t"); both<short>("short"); both<long>("long"); both<signed char>("signed char"); both<unsigned char>("unsigned char"); both<unsigned short>("unsigned short"); both<unsigned>("unsigned"); both<unsigned long>("unsigned long"); both<unsigned long long>("unsigned long long"); both<float>("float"); both<long double>("long double"); both<bool>("bool");
        both<S>("string"); both<SV<double>>("std::vector<double>"); both<SV<int>>("std::vector<int>"); both<SV<char>>("std::vector<char>"); both<SV<long double>>("std::vector<long double>"); both<SV<unsigned short>>("std::vector<unsigned short>");
        both<ef::Vector<double>>("Vector<double>"); both<ef::Vector<int>>("Vector<int>"); both<ef::Vector<float>>("Vector<float>"); both<ef::Matrix<double>>("Matrix<double>"); both<ef::Matrix<int>>("Matrix<int>"); both<ef::Matrix<float>>("Matrix<float>");
#ifdef VK_GENERIC
        both<ef::Node<double>>("Node<double>"); both<ef::Node<ef::Vector<double>>>("Node<Vector>");
#endif
        bcasts<Grid>("grid", MPI_COMM_WORLD, "world"); bcasts<Patch>("patch", MPI_COMM_WORLD, "world"); bcasts<ef::Node<Patch>>("Node<patch>", MPI_COMM_WORLD, "world");
        for (int a = 0; a < N(); a++) for (int b = a; b < N(); b++) if (b - a + 1 < N()) { MPI_Comm c; MPI_Group g, w; PMPI_Comm_group(MPI_COMM_WORLD, &w); int rg[1][3] = {{a, b, 1}}; PMPI_Group_range_incl(w, 1, rg, &g); PMPI_Comm_create(MPI_COMM_WORLD, g, &c); if (c != MPI_COMM_NULL) mpx::know(c); S cn = cat("ranks ", a, "-", b); bcasts<S>("string", c, cn); bcasts<ef::Matrix<double>>("Matrix<double>", c, cn); bcasts<Patch>("patch", c, cn); bcasts<ef::Node<Patch>>("Node<patch>", c, cn); bcasts<SV<int>>("std::vector<int>", c, cn); }
    } else if (part == "groups") {
        gathers<SV<double>, double>("std::vector<double>"); gathers<SV<int>, int>("std::vector<int>"); gathers<DV, double>("Vector<double>"); gathers<S, char>("string");
        reduces<int>("int"); reduces<double>("double"); reduces<float>("float"); reduces<long>("long"); reduces<unsigned>("unsigned"); reduces<short>("short"); reduces<unsigned long long>("unsigned long long"); reduces<long double>("long double"); reduces<unsigned short>("unsigned short"); reduces<signed char>("signed char"); reduces<unsigned char>("unsigned char"); reduces<unsigned long>("unsigned long"); bools(); comms();
    } else if (part == "mixed") mixed(); else return 9;
    return mpx::finish();
}
