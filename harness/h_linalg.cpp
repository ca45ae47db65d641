// C12 (--part vector), C13 (--part matrix), C14 (--part misuse, address sanitizer).
#include "hps.hpp"
#include <algorithm>
#include <array>
#include <numeric>
#include <climits>
using namespace vk;
template <class T> using V = ef::Vector<T>;
template <class T> using M = ef::Matrix<T>;
template <class T> using SV = std::vector<T>;
static const char* tn(double) { return "double"; } static const char* tn(float) { return "float"; } static const char* tn(int) { return "int"; }
// distinct, irregular, never-zero test values (exactly representable, small products exact in every type)
template <class T> static T val(int k) { static const int p[] = {3, -7, 11, 2, -5, 13, -1, 17, 6, -19, 8, 23, -4, 29, 10, -31}; return (T) (p[(k % 16 + 16) % 16] + 40 * (k / 16) * (k % 2 ? 1 : -1)); }
template <class T> static SV<T> gen(int n, int seed) { SV<T> v(n); for (int i = 0; i < n; i++) v[i] = val<T>(i * 3 + seed); return v; }
template <class T> static std::string same(const V<T>& v, const SV<T>& m) {
    if (v.size() != m.size() || v.data().size() != m.size()) return cat("has size ", v.size(), "/", v.data().size(), ", expected ", m.size());
    for (size_t i = 0; i < m.size(); i++) if (!(v.data()[i] == m[i]) || !(v[i] == m[i])) return cat("entry ", i, " is ", v.data()[i], ", expected ", m[i]);
    return "";
}
template <class T> static void expect(const std::string& key, const V<T>& v, const SV<T>& m) { ctx().transitions++; auto d = same(v, m); if (d != "") violation(key, d); }
template <class F> static void ok(const std::string& key, F f) { try { f(); } catch (std::exception& e) { violation(key, cat("a call inside the valid range throws: ", std::string(e.what()).substr(0, 120))); } }
static SV<SV<int>> perms(int n) { SV<int> p(n); std::iota(p.begin(), p.end(), 0); SV<SV<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static SV<SV<int>> tuples(int n, int lo, int hi) { SV<SV<int>> r; SV<int> t(n, lo); for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] > hi) t[i--] = lo; if (i < 0) break; } return r; }
#ifdef VK_GENERIC
#define GENERIC(x) x
#else
#define GENERIC(x)
#endif
template <class T> static SV<T> mperm(const SV<T>& a, const SV<int>& I, const SV<int>& S) { SV<T> r; for (int b : I) { int s = 0; for (int k = 0; k < b; k++) s += S[k]; for (int k = 0; k < S[b]; k++) r.push_back(a[s + k]); } return r; }

// ---- C12: every operation with every argument ---------------------------------------------------------
template <class T> static void vector_ops(int n, int seed) {
    std::string id = cat("vector ", tn(T()), " n=", n, " seed=", seed);
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++; ctx().states++; ctx().traces++;
    ok(id, [&] {
        const SV<T> m = gen<T>(n, seed), m2 = gen<T>(n, seed + 5); V<T> v(m), w(m2);
        auto K = [&](const char* op) { return id + " " + op; };
        expect(K("construct"), v, m);
        { V<T> e; expect(K("empty"), e, {}); V<T> f(n, T(7)); expect(K("fill"), f, SV<T>(n, 7)); V<T> z(n); expect(K("zero"), z, SV<T>(n, 0)); if (n == 3) { V<T> il{m[0], m[1], m[2]}; expect(K("list"), il, m); } }
        for (int i = 0; i < n; i++) {
            ctx().transitions += 4; const V<T>& cv = v;
            if (v.getEntry(i) != m[i] || v[i] != m[i] || cv[i] != m[i] || v(i) != m[i] || v.dataPointer()[i] != m[i] || v.dataNoConst()[i] != m[i]) violation(K("entry"), cat("entry ", i, " read wrongly"));
            V<T> a(v), b(v); a[i] = 99; b(i) = 98; auto ma = m, mb = m; ma[i] = 99; mb[i] = 98; expect(K("write []"), a, ma); expect(K("write ()"), b, mb); expect(K("copy independent"), v, m);
        }
        for (int a = 0; a < n; a++) for (int b = a; b < n; b++) { SV<T> r(m.begin() + a, m.begin() + b + 1); expect(K("getRange"), v.getRange(a, b), r); expect(K("(a,b)"), v(a, b), r); }
        for (int a = 0; a <= n; a++) for (int l = 0; a + l <= n; l++) {
            expect(K("getSegment"), v.getSegment(a, l), SV<T>(m.begin() + a, m.begin() + a + l));
            auto s = gen<T>(l, seed + 9); V<T> t(v), sv(s); t.setSegment(a, sv); auto mt = m; for (int k = 0; k < l; k++) mt[a + k] = s[k]; expect(K("setSegment"), t, mt); expect(K("setSegment source"), sv, s);
        }
        for (int l = 0; l <= 3; l++) { auto s = gen<T>(l, seed + 2); V<T> t(v), sv(s); t.append(sv); auto mt = m; mt.insert(mt.end(), s.begin(), s.end()); expect(K("append"), t, mt); expect(K("append source"), sv, s); t.append(V<T>(sv)); mt.insert(mt.end(), s.begin(), s.end()); expect(K("append twice"), t, mt); }
        { V<T> t(v); t.append(t); auto mt = m; mt.insert(mt.end(), m.begin(), m.end()); expect(K("append itself"), t, mt); }
        for (int l = 0; l <= std::min(n, 4); l++) for (auto& I : tuples(l, 0, n - 1)) { if (n == 0 && l) continue; SV<T> r; for (int i : I) r.push_back(m[i]); V<int> vi(I); expect(K("getFromIndexSet"), v.getFromIndexSet(vi), r); expect(K("(I)"), v(vi), r); }
        if (n <= 6) for (int nb = 1; nb <= 4; nb++) for (auto& S : tuples(nb, 0, 3)) { if (std::accumulate(S.begin(), S.end(), 0) != n) continue; for (auto& I : perms(nb)) { V<int> vi(I), vs(S); expect(K("blockPermute"), v.blockPermute(vi, vs), mperm(m, I, S)); } }
        auto map1 = [&](auto f) { SV<T> r(n); for (int i = 0; i < n; i++) r[i] = f(m[i]); return r; };
        auto map2 = [&](auto f) { SV<T> r(n); for (int i = 0; i < n; i++) r[i] = f(m[i], m2[i]); return r; };
        expect(K("unary -"), -v, map1([](T x) { return -x; }));
        expect(K("+"), v + w, map2([](T x, T y) { return x + y; })); expect(K("-"), v - w, map2([](T x, T y) { return x - y; }));
        expect(K("elementwise *"), ef::operator*<T>(V<T>(v), V<T>(w)), map2([](T x, T y) { return x * y; })); expect(K("elementwise /"), v / w, map2([](T x, T y) { return x / y; }));
        { T d = 0; for (int i = 0; i < n; i++) d += m[i] * m2[i]; T g = v.operator*(w); ctx().transitions++; if (g != d) violation(K("dot"), cat("dot product is ", g, ", expected ", d)); }
        { V<T> a(v); a += w; expect(K("+="), a, map2([](T x, T y) { return x + y; })); V<T> b(v); b -= w; expect(K("-="), b, map2([](T x, T y) { return x - y; })); expect(K("+= operand"), w, m2); V<T> c(v); c += c; expect(K("+= itself"), c, map1([](T x) { return x + x; })); V<T> d(v); d -= d; expect(K("-= itself"), d, SV<T>(n, 0)); V<T> e(v); e = e; expect(K("= itself"), e, m); }
        for (T s : {T(2), T(-3), T(1), T(0)}) {
            expect(K("+ s"), v + s, map1([s](T x) { return x + s; })); expect(K("- s"), v - s, map1([s](T x) { return x - s; })); expect(K("s *"), ef::operator*<T>(s, V<T>(v)), map1([s](T x) { return s * x; }));
            V<T> a(v), b(v), c(v), d(v); a += s; b -= s; c *= s; expect(K("+= s"), a, map1([s](T x) { return x + s; })); expect(K("-= s"), b, map1([s](T x) { return x - s; })); expect(K("*= s"), c, map1([s](T x) { return x * s; }));
            if (s != 0) { d /= s; expect(K("/= s"), d, map1([s](T x) { return x / s; })); }
            V<T> ch(v); (ch += s) -= s; expect(K("update returns its object"), ch, m);
        }
        for (int i = 0; i < n; i++) { T s = m[i]; V<T> a(v), b(v), c(v), d(v); a += a[i]; b -= b[i]; c *= c[i]; d /= d[i]; expect(K("+= own entry"), a, map1([s](T x) { return x + s; })); expect(K("-= own entry"), b, map1([s](T x) { return x - s; })); expect(K("*= own entry"), c, map1([s](T x) { return x * s; })); expect(K("/= own entry"), d, map1([s](T x) { return x / s; })); }
        { double mx = 0, l2 = 0; for (int i = 0; i < n; i++) { double x = double(m[i]) - double(m2[i]); mx = std::max(mx, fabs(x)); l2 += x * x; } ctx().transitions += 2;
          if (fabs(ef::vectorInfNorm(v, w) - mx) > 1e-6 * (1 + mx)) violation(K("vectorInfNorm"), cat("infinity norm of the difference is ", ef::vectorInfNorm(v, w), ", expected ", mx));
          if (fabs(ef::vectorL2Norm(v, w) - sqrt(l2)) > 1e-6 * (1 + sqrt(l2))) violation(K("vectorL2Norm"), cat("2-norm of the difference is ", ef::vectorL2Norm(v, w), ", expected ", sqrt(l2))); if (ef::vectorInfNorm(v, v) != 0) violation(K("vectorInfNorm"), "distance to itself is not zero"); }
        for (int k = 0; k <= 3; k++) for (auto& L : tuples(k, 0, 2)) { SV<V<T>> vs; SV<T> r; for (int q = 0; q < k; q++) { auto s = gen<T>(L[q], seed + q * 4); vs.push_back(V<T>(s)); r.insert(r.end(), s.begin(), s.end()); } vs.push_back(v); r.insert(r.end(), m.begin(), m.end()); expect(K("concatenate"), ef::concatenate(vs), r); if (k == 1) expect(K("concatenate list"), ef::concatenate({vs[0], vs[1]}), r); }
        { std::ostringstream o; o << v; std::ostringstream o2; o2 << v; if (o.str() != o2.str()) violation(K("<<"), "printing is not repeatable"); std::istringstream is(o.str()); std::string hd; is >> hd; if (hd != cat("[", n, "]")) violation(K("<<"), "wrong header " + hd); for (int i = 0; i < n; i++) { double x; if (!(is >> x) || fabs(x - m[i]) > 1e-3 * (1 + fabs((double) m[i]))) { violation(K("<<"), cat("printed entry ", i, " reads ", x)); break; } } }
        expect(K("operands unchanged"), v, m); expect(K("operands unchanged"), w, m2);
    });
}
// all sequences of operations on two vectors in lockstep with plain sequences
static const int NVOP = 22;
template <class T> static bool vstep(int op, V<T>* v, SV<T>* m, int t, std::string* d) {
    int i = op & 1, j = 1 - i; V<T>&a = v[i], &b = v[j]; SV<T>&x = m[i], &y = m[j]; size_t n = x.size();
    auto cap = [&](size_t k) { return k <= 10; };
    switch (op >> 1) {
        case 0: a = b; x = y; break;
        case 1: if (!cap(x.size() + y.size())) return false; a.append(b); x.insert(x.end(), y.begin(), y.end()); break;
        case 2: if (n != y.size()) return false; a += b; for (size_t k = 0; k < n; k++) x[k] += y[k]; break;
        case 3: if (n != y.size()) return false; b -= a; for (size_t k = 0; k < n; k++) y[k] -= x[k]; break;
        case 4: if (n < 1) return false; a *= a[n - 1] > 3 ? T(-1) : T(2); { T s = x[n - 1] > 3 ? T(-1) : T(2); for (auto& e : x) e *= s; } break;
        case 5: if (n < 2) return false; a = a.getSegment(1, n - 1); x.erase(x.begin()); break;
        case 6: if (n < y.size()) return false; a.setSegment(n - y.size(), b); for (size_t k = 0; k < y.size(); k++) x[n - y.size() + k] = y[k]; break;
        case 7: { if (n < 2) return false; V<int> I(n); for (size_t k = 0; k < n; k++) I[k] = n - 1 - k; V<T> r = a(I); a = r; std::reverse(x.begin(), x.end()); break; }
        case 8: { if (n < 1) return false; V<T> r(a); r[0] = T(t + 5); b = V<T>(r); y = x; y[0] = T(t + 5); break; }
        case 9: { if (n < 2) return false; int h = n / 2; V<T> r = a.blockPermute({1, 0}, {h, (int) n - h}); a = r; std::rotate(x.begin(), x.begin() + h, x.end()); break; }
        case 10: { if (!cap(2 * n) || n != y.size()) return false; a = ef::concatenate({b, a + b}); SV<T> r = y; for (size_t k = 0; k < n; k++) r.push_back(x[k] + y[k]); x = r; break; }
    }
    return true;
}
template <class T> static void vector_hist(int D) {
    std::vector<int> ix(D, 0); std::string prev;
    for (;;) {
        std::string s; for (int i : ix) s += char('a' + i);
        for (int l0 = 0; l0 <= 2; l0++) {
            std::string id = cat("vhist ", tn(T()), " ", s, " l=", l0);
            if (!vk::begin(id)) continue;
            V<T> v[2]; SV<T> m[2]; m[0] = gen<T>(l0, 1); m[1] = gen<T>(2, 8); v[0] = V<T>(m[0]); v[1] = V<T>(m[1]);
            bool full = true; ctx().traces++;
            ok(id, [&] { int t = 0; for (int o : ix) { std::string d; if (!vstep(o, v, m, ++t, &d)) { full = false; break; } ctx().transitions++; for (int q = 0; q < 2; q++) { d = same(v[q], m[q]); if (d != "") { violation(cat("vhist ", tn(T()), " ", s.substr(0, t), " l=", l0), cat("after step ", t, " vector ", q, " ", d)); return; } } } });
            if (full) { ctx().distinct++; ctx().states++; if (ctx().samples.size() < 6) sample(id); }
        }
        int p = D - 1; while (p >= 0 && ++ix[p] == NVOP) ix[p--] = 0;
        if (p < 0) break;
    }
}
// ---- larger sizes: every index, and every pair of places around the ends, the middle and the powers of two ----
template <class T> static T wide(long k) { unsigned long h = (unsigned long) (k + 1) * 2654435761ul; int v = int((h >> 13) % 199) - 99; return T(v ? v : 101); }
template <class T> static SV<T> wgen(int n, int seed) { SV<T> v(n); for (int i = 0; i < n; i++) v[i] = wide<T>(i + 100003l * seed); return v; }
static SV<int> places(int n) { std::set<int> s; auto add = [&](int k) { if (k >= 0 && k <= n) s.insert(k); }; for (int k : {0, 1, 2, n / 3, n / 2, n - 2, n - 1, n}) add(k); for (int p = 4; p <= n; p *= 2) if (p >= n / 4 || p <= 8) { add(p - 1); add(p); add(p + 1); } return SV<int>(s.begin(), s.end()); }
template <class T> static void vector_large(int n) {
    std::string id = cat("vector large ", tn(T()), " n=", n);
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++; ctx().states++; ctx().traces++;
    ok(id, [&] {
        const SV<T> m = wgen<T>(n, 1), m2 = wgen<T>(n, 2); V<T> v(m), w(m2); auto K = [&](const char* op) { return id + " " + op; }; auto P = places(n);
        expect(K("construct"), v, m); { V<T> f(n, T(7)); expect(K("fill"), f, SV<T>(n, 7)); V<T> c(v), a; a = v; expect(K("copy"), c, m); expect(K("assign"), a, m); a = w; expect(K("assign over"), a, m2); V<T> q(3, T(1)); a = q; expect(K("assign shorter"), a, SV<T>(3, 1)); q = v; expect(K("assign longer"), q, m); }
        { V<T> c(v); auto mc = m; for (int i = 0; i < n; i++) { ctx().transitions++; if (v.getEntry(i) != m[i] || v(i) != m[i]) violation(K("entry"), cat("entry ", i, " read wrongly")); c[i] = T(i % 50 - 20); mc[i] = T(i % 50 - 20); } expect(K("write all"), c, mc); expect(K("copy independent"), v, m); }
        for (int a : P) for (int b : P) { if (b < a) continue; if (b < n) { SV<T> r(m.begin() + a, m.begin() + b + 1); expect(K("getRange"), v.getRange(a, b), r); expect(K("(a,b)"), v(a, b), r); }
            int l = b - a; expect(K("getSegment"), v.getSegment(a, l), SV<T>(m.begin() + a, m.begin() + b)); auto s = wgen<T>(l, 3); V<T> t(v); t.setSegment(a, V<T>(s)); auto mt = m; std::copy(s.begin(), s.end(), mt.begin() + a); expect(K("setSegment"), t, mt); }
        for (int l : P) { auto s = wgen<T>(l, 4); V<T> t(v), sv(s), u(sv); t.append(sv); auto mt = m; mt.insert(mt.end(), s.begin(), s.end()); expect(K("append"), t, mt); u.append(v); auto mu = s; mu.insert(mu.end(), m.begin(), m.end()); expect(K("append to shorter"), u, mu); expect(K("concatenate"), ef::concatenate({sv, v, sv}), [&] { auto r = mu; r.insert(r.end(), s.begin(), s.end()); return r; }()); }
        { V<T> t(v); t.append(t); auto mt = m; mt.insert(mt.end(), m.begin(), m.end()); expect(K("append itself"), t, mt); }
        for (int st : {1, n - 1, 3, n / 2 + 1}) for (int off : {0, 1, n - 1}) { SV<int> I(n); SV<T> r(n); for (int i = 0; i < n; i++) { I[i] = int(((long) i * st + off) % n); r[i] = m[I[i]]; } V<int> vi(I); expect(K("getFromIndexSet"), v.getFromIndexSet(vi), r); expect(K("(I)"), v(vi), r); }
        for (auto& S : SV<SV<int>>{{n}, {n / 2, n - n / 2}, {1, n - 1}, {n - 1, 1}, {n / 4, n / 4, n / 4, n - 3 * (n / 4)}, {n / 3, 1, n - n / 3 - 1}, {0, n, 0}}) for (auto& I : perms(S.size())) expect(K("blockPermute"), v.blockPermute(V<int>(I), V<int>(S)), mperm(m, I, S));
        if (n >= 8) { SV<int> S(8, n / 8), I(8); S[7] = n - 7 * (n / 8); for (int sh = 0; sh < 8; sh++) for (int dir : {1, 3, 5, 7}) { for (int i = 0; i < 8; i++) I[i] = (i * dir + sh) % 8; expect(K("blockPermute 8"), v.blockPermute(V<int>(I), V<int>(S)), mperm(m, I, S)); } }
        for (int nb = 9; nb <= 20; nb++) if (n >= 2 * nb) for (int st = 0; st < 3; st++) { SV<int> S(nb), I(nb); int left = n; for (int k = 0; k + 1 < nb; k++) { S[k] = st == 0 ? k % 3 : st == 1 ? 2 - k % 2 : k == nb / 2 ? n / 2 : 1; if (st == 2 && k > nb / 2) S[k] = 0; left -= S[k]; } S[nb - 1] = left; if (left < 0) continue; for (int dir : {1, 5, nb - 1}) { if (std::gcd(dir, nb) != 1) continue; for (int i = 0; i < nb; i++) I[i] = (i * dir + st) % nb; expect(K("blockPermute of many blocks"), v.blockPermute(V<int>(I), V<int>(S)), mperm(m, I, S)); } }
        auto map1 = [&](auto f) { SV<T> r(n); for (int i = 0; i < n; i++) r[i] = f(m[i]); return r; };
        auto map2 = [&](auto f) { SV<T> r(n); for (int i = 0; i < n; i++) r[i] = f(m[i], m2[i]); return r; };
        expect(K("unary -"), -v, map1([](T x) { return -x; })); expect(K("+"), v + w, map2([](T x, T y) { return x + y; })); expect(K("-"), v - w, map2([](T x, T y) { return x - y; })); expect(K("elementwise *"), ef::operator*<T>(V<T>(v), V<T>(w)), map2([](T x, T y) { return x * y; })); expect(K("elementwise /"), v / w, map2([](T x, T y) { return x / y; }));
        { V<T> a(v), b(v); a += w; b -= w; expect(K("+="), a, map2([](T x, T y) { return x + y; })); expect(K("-="), b, map2([](T x, T y) { return x - y; })); }
        for (T s : {T(2), T(-3), T(0)}) { V<T> a(v), b(v), c(v), d(v); a += s; b -= s; c *= s; expect(K("+= s"), a, map1([s](T x) { return x + s; })); expect(K("-= s"), b, map1([s](T x) { return x - s; })); expect(K("*= s"), c, map1([s](T x) { return x * s; })); expect(K("+ s"), v + s, map1([s](T x) { return x + s; })); expect(K("- s"), v - s, map1([s](T x) { return x - s; })); expect(K("s *"), ef::operator*<T>(s, V<T>(v)), map1([s](T x) { return s * x; })); if (s != 0) { d /= s; expect(K("/= s"), d, map1([s](T x) { return x / s; })); } }
        for (int i : P) if (i < n) { T s = m[i]; V<T> a(v), b(v), c(v), d(v); a += a[i]; b -= b[i]; c *= c[i]; d /= d[i]; expect(K("+= own entry"), a, map1([s](T x) { return x + s; })); expect(K("-= own entry"), b, map1([s](T x) { return x - s; })); expect(K("*= own entry"), c, map1([s](T x) { return x * s; })); expect(K("/= own entry"), d, map1([s](T x) { return x / s; })); }
        { T d = 0; for (int i = 0; i < n; i++) d += m[i] * m2[i]; T g = v.operator*(w); if (g != d) violation(K("dot"), cat("dot product is ", g, ", expected ", d)); }
        for (int i = 0; i < n; i++) for (T s : {T(3), T(-4)}) { ctx().transitions += 3; V<T> e(n, T(0)); e[i] = s; V<T> u(v); u[i] = m[i] + s; if (T g = v.operator*(e); g != m[i] * s) violation(K("dot"), cat("product with ", s, " times unit vector ", i, " is ", g)); if (double g = ef::vectorInfNorm(u, v); fabs(g - fabs((double) s)) > 1e-5) violation(K("vectorInfNorm"), cat("vectors that differ by ", s, " at ", i, " have distance ", g)); if (double g = ef::vectorL2Norm(u, v); fabs(g - fabs((double) s)) > 1e-5) violation(K("vectorL2Norm"), cat("vectors that differ by ", s, " at ", i, " have distance ", g)); }
        expect(K("operands unchanged"), v, m); expect(K("operands unchanged"), w, m2);
    });
}
static void vector_part() {
    bool th = ctx().thorough();
    for (int n = 0; n <= (th ? 9 : 7); n++) for (int s = 0; s < (th ? 6 : 3); s++) { vector_ops<double>(n, s); GENERIC(vector_ops<float>(n, s)); vector_ops<int>(n, s); }
    for (int n : {16, 17, 33}) { if (!th && n > 17) continue; vector_ops<double>(n, 1); }
    for (int n = 1; n <= (th ? 140 : 70); n++) { vector_large<double>(n); vector_large<int>(n); GENERIC(if (th) vector_large<float>(n);) }
    for (int n : {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025}) vector_large<double>(n);
    for (int a = -4; a <= 4; a++) for (int b = a - 1; b <= a + 6; b++) { std::string id = cat("vectorRange ", a, " ", b); if (!vk::begin(id)) continue; ctx().states++; ctx().traces++; SV<int> r; for (int i = a; i <= b; i++) r.push_back(i); ok(id, [&] { expect(id, ef::vectorRange(a, b), r); }); }
    vector_hist<double>(th ? 5 : 4); vector_hist<int>(th ? 4 : 3);
}
// ---- C13 ---------------------------------------------------------------------------------------------
template <class T> struct MM { int r = 0, c = 0; SV<T> a; MM() {} MM(int r, int c, T v = 0) : r(r), c(c), a((size_t) r * c, v) {} T& operator()(int i, int j) { return a[i * c + j]; } const T& operator()(int i, int j) const { return a[i * c + j]; } };
template <class T> static MM<T> mgen(int r, int c, int seed) { MM<T> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = val<T>(i * 5 + j * 3 + seed) + T(i); return m; }
template <class T> static M<T> mk(const MM<T>& m) { return M<T>(m.r, m.c, m.a); }
template <class T> static std::string same(const M<T>& Ac, const MM<T>& m, double tol = 0) {
    auto& A = const_cast<M<T>&>(Ac);
    if ((int) A.nrows() != m.r || (int) A.ncols() != m.c || (int) A.nRows() != m.r || (int) A.nCols() != m.c) return cat("has shape ", A.nrows(), "x", A.ncols(), ", expected ", m.r, "x", m.c);
    if (A.data().size() != m.a.size()) return cat("holds ", A.data().size(), " values for shape ", m.r, "x", m.c);
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { double d = fabs(double(A(i, j)) - double(m(i, j))); if (!(d <= tol) || A.data()[i * m.c + j] != A(i, j)) return cat("entry (", i, ",", j, ") is ", A(i, j), ", expected ", m(i, j)); }
    return "";
}
template <class T> static void expect(const std::string& key, const M<T>& A, const MM<T>& m, double tol = 0) { ctx().transitions++; auto d = same(A, m, tol); if (d != "") violation(key, d); }
template <class T> static MM<T> tr(const MM<T>& m) { MM<T> r(m.c, m.r); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) r(j, i) = m(i, j); return r; }
template <class T> static MM<T> mmul(const MM<T>& a, const MM<T>& b) { MM<T> r(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> static MM<T> sub(const MM<T>& a, int r0, int c0, int rl, int cl) { MM<T> r(rl, cl); for (int i = 0; i < rl; i++) for (int j = 0; j < cl; j++) r(i, j) = a(r0 + i, c0 + j); return r; }
template <class T> static void matrix_ops(int R, int C, int seed) {
    std::string id = cat("matrix ", tn(T()), " ", R, "x", C, " seed=", seed);
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++; ctx().states++; ctx().traces++;
    ok(id, [&] {
        const MM<T> m = mgen<T>(R, C, seed), m2 = mgen<T>(R, C, seed + 7); M<T> A = mk(m), B = mk(m2);
        auto K = [&](const char* op) { return id + " " + op; };
        expect(K("construct"), A, m); { M<T> e; expect(K("empty"), e, MM<T>(0, 0)); M<T> f(R, C, T(4)); expect(K("fill"), f, MM<T>(R, C, 4)); M<T> z(R, C); expect(K("zero"), z, MM<T>(R, C, 0)); M<T> c(A); expect(K("copy"), c, m); M<T> as; as = A; expect(K("assign"), as, m); as = as; expect(K("assign itself"), as, m); if (R == 1 && C == 2) { M<T> il(1, 2, {m(0, 0), m(0, 1)}); expect(K("list"), il, m); } }
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { ctx().transitions += 2; if (A.getEntry(i, j) != m(i, j) || A(i, j) != m(i, j) || A.dataPointer()[i * C + j] != m(i, j)) violation(K("entry"), cat("entry (", i, ",", j, ") read wrongly")); M<T> c(A); c(i, j) = 77; auto mc = m; mc(i, j) = 77; expect(K("write"), c, mc); }
        for (int i = 0; i < R && C; i++) { expect(K("getRow"), A.getRow(i), sub(m, i, 0, 1, C).a); auto s = gen<T>(C, seed + 3); V<T> v(s); M<T> c(A); c.setRow(i, v); auto mc = m; for (int j = 0; j < C; j++) mc(i, j) = s[j]; expect(K("setRow"), c, mc); expect(K("setRow source"), v, s); }
        for (int j = 0; j < C && R; j++) { expect(K("getCol"), A.getCol(j), sub(m, 0, j, R, 1).a); auto s = gen<T>(R, seed + 3); V<T> v(s); M<T> c(A); c.setColumn(j, v); auto mc = m; for (int i = 0; i < R; i++) mc(i, j) = s[i]; expect(K("setColumn"), c, mc); expect(K("setColumn source"), v, s); }
        for (int a = 0; a < R; a++) for (int b = a; b < R; b++) for (int c = 0; c < C; c++) for (int d = c; d < C; d++) expect(K("(a,b,c,d)"), A(a, b, c, d), sub(m, a, c, b - a + 1, d - c + 1));
        for (int a = 0; a <= R; a++) for (int rl = 0; a + rl <= R; rl++) for (int c = 0; c <= C; c++) for (int cl = 0; c + cl <= C; cl++) {
            expect(K("getBlock"), A.getBlock(a, c, rl, cl), sub(m, a, c, rl, cl));
            auto bm = mgen<T>(rl, cl, seed + 11); M<T> b = mk(bm), t(A); t.setBlock(a, c, b); auto mt = m; for (int i = 0; i < rl; i++) for (int j = 0; j < cl; j++) mt(a + i, c + j) = bm(i, j); expect(K("setBlock"), t, mt); expect(K("setBlock source"), b, bm);
        }
        if (R * C <= 16) for (int a = 0; a <= std::min(R, 2); a++) for (auto& I : tuples(a, 0, R - 1)) for (int b = 0; b <= std::min(C, 2); b++) for (auto& J : tuples(b, 0, C - 1)) { if ((!R && a) || (!C && b)) continue; MM<T> r(a, b); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) r(i, j) = m(I[i], J[j]); V<int> vi(I), vj(J); expect(K("getFromIndexSet"), A.getFromIndexSet(vi, vj), r); expect(K("(I,J)"), A(vi, vj), r); }
        for (auto& I : perms(std::min(R, 4))) for (auto& J : perms(std::min(C, 4))) { MM<T> r(I.size(), J.size()); for (size_t i = 0; i < I.size(); i++) for (size_t j = 0; j < J.size(); j++) r(i, j) = m(I[i], J[j]); expect(K("(I,J)"), A(V<int>(I), V<int>(J)), r); }
        for (int nr = 1; nr <= 3; nr++) for (auto& Rs : tuples(nr, 0, 3)) { if (std::accumulate(Rs.begin(), Rs.end(), 0) != R) continue; for (int nc = 1; nc <= 3; nc++) for (auto& Cs : tuples(nc, 0, 3)) { if (std::accumulate(Cs.begin(), Cs.end(), 0) != C) continue;
            if (R * C > 12 && (Rs[0] + 2 * Cs[0] + nr + nc) % 3) continue;
            for (auto& I : perms(nr)) for (auto& J : perms(nc)) {
            MM<T> r(R, C); SV<int> ri, ci; { SV<int> q(R); std::iota(q.begin(), q.end(), 0); ri = mperm(q, I, Rs); } { SV<int> q(C); std::iota(q.begin(), q.end(), 0); ci = mperm(q, J, Cs); } for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) r(i, j) = m(ri[i], ci[j]);
            expect(K("blockPermute"), A.blockPermute(V<int>(I), V<int>(J), V<int>(Rs), V<int>(Cs)), r); } } }
        expect(K("T"), A.T(), tr(m));
        auto map1 = [&](auto f) { MM<T> r(R, C); for (size_t k = 0; k < r.a.size(); k++) r.a[k] = f(m.a[k]); return r; };
        auto map2 = [&](auto f) { MM<T> r(R, C); for (size_t k = 0; k < r.a.size(); k++) r.a[k] = f(m.a[k], m2.a[k]); return r; };
        expect(K("unary -"), -A, map1([](T x) { return -x; }));
        expect(K("+"), A + B, map2([](T x, T y) { return x + y; })); expect(K("-"), A - B, map2([](T x, T y) { return x - y; }));
        { M<T> a(A), b(A), c(A), d(A); a += B; b -= B; c += c; d -= d; expect(K("+="), a, map2([](T x, T y) { return x + y; })); expect(K("-="), b, map2([](T x, T y) { return x - y; })); expect(K("+= itself"), c, map1([](T x) { return x + x; })); expect(K("-= itself"), d, MM<T>(R, C, 0)); }
        for (T s : {T(2), T(-3), T(0), T(1)}) { M<T> a(A), b(A), c(A); a += s; b -= s; c *= s; expect(K("+= s"), a, map1([s](T x) { return x + s; })); expect(K("-= s"), b, map1([s](T x) { return x - s; })); expect(K("*= s"), c, map1([s](T x) { return x * s; })); expect(K("s *"), s * A, map1([s](T x) { return s * x; })); M<T> d(A); (d += s) -= s; expect(K("update returns its object"), d, m); }
        if (R && C) { T s = m(R - 1, 0); M<T> a(A), b(A), c(A); a += a(R - 1, 0); b -= b(R - 1, 0); c *= c(R - 1, 0); expect(K("+= own entry"), a, map1([s](T x) { return x + s; })); expect(K("-= own entry"), b, map1([s](T x) { return x - s; })); expect(K("*= own entry"), c, map1([s](T x) { return x * s; })); }
        { double mx = 0; for (size_t k = 0; k < m.a.size(); k++) mx = std::max(mx, fabs(double(m.a[k]) - double(m2.a[k]))); ctx().transitions++; if (fabs(ef::matrixInfNorm(A, B) - mx) > 1e-6 * (1 + mx)) violation(K("matrixInfNorm"), cat("largest difference is ", ef::matrixInfNorm(A, B), ", expected ", mx)); }
        for (int r2 = 0; r2 <= 2; r2++) for (int c2 = 0; c2 <= 2; c2++) for (int n3 = 0; n3 < 2; n3++) { auto x = mgen<T>(r2, c2, 4); SV<M<T>> dg{A, mk(x)}; MM<T> r(R + r2 + (n3 ? R : 0), C + c2 + (n3 ? C : 0)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { r(i, j) = m(i, j); if (n3) r(R + r2 + i, C + c2 + j) = m2(i, j); } for (int i = 0; i < r2; i++) for (int j = 0; j < c2; j++) r(R + i, C + j) = x(i, j); if (n3) dg.push_back(B); expect(K("blockDiagonalMatrix"), ef::blockDiagonalMatrix(dg), r); }
        if (R == C) { MM<T> e(R, R); for (int i = 0; i < R; i++) e(i, i) = 1; expect(K("IdentityMatrix"), (M<T>) ef::IdentityMatrix<T>(R), e); auto s = gen<T>(R, seed); V<T> dv(s); for (int i = 0; i < R; i++) e(i, i) = s[i]; expect(K("DiagonalMatrix"), (M<T>) ef::DiagonalMatrix<T>(dv), e); }
        { std::ostringstream o; o << A; std::istringstream is(o.str()); std::string x; is >> x >> x >> x; for (int i = 0; i < R * C; i++) { double d; if (!(is >> d) || fabs(d - m.a[i]) > 1e-3 * (1 + fabs((double) m.a[i]))) { is.clear(); violation(K("<<"), cat("printed entry ", i, " reads ", d)); break; } } }
        expect(K("operands unchanged"), A, m); expect(K("operands unchanged"), B, m2);
        if constexpr (std::is_same_v<T, double>) if (R && C) {
            for (int n = 1; n <= 5; n++) { auto xm = mgen<T>(C, n, seed + 2); M<T> X = mk(xm); M<T> P = A * X; expect(K("A*B"), P, mmul(m, xm)); expect(K("A*B operand"), X, xm); }
            for (int k = 0; k < C; k++) { SV<T> e(C, 0.0); e[k] = 1; V<T> x(e); expect(K("A*e"), A * x, sub(m, 0, k, R, 1).a); expect(K("A*x operand"), x, e); }
            { auto s = gen<T>(C, 6); V<T> x(s); MM<T> xm(C, 1); xm.a = s; expect(K("A*x"), A * x, mmul(m, xm).a); }
            if (R == C) { M<T> S = A * A; expect(K("A*A"), S, mmul(m, m)); M<T> G = A; G = G * G; expect(K("A=A*A"), G, mmul(m, m)); }
            expect(K("product operands"), A, m);
        }
    });
}
template <class T> static MM<T> wmat(int r, int c, int seed) { MM<T> m(r, c); for (int i = 0; i < r * c; i++) m.a[i] = wide<T>(i + 1000003l * seed); return m; }
template <class T> static void matrix_large(int R, int C) {
    std::string id = cat("matrix large ", tn(T()), " ", R, "x", C);
    if (!vk::begin(id)) return;
    sample(id); ctx().distinct++; ctx().states++; ctx().traces++;
    ok(id, [&] {
        const MM<T> m = wmat<T>(R, C, 1), m2 = wmat<T>(R, C, 2); M<T> A = mk(m), B = mk(m2); auto K = [&](const char* op) { return id + " " + op; }; auto PR = places(R), PC = places(C); int N = R * C;
        expect(K("construct"), A, m); { M<T> f(R, C, T(4)); expect(K("fill"), f, MM<T>(R, C, 4)); M<T> c(A), a; a = A; expect(K("copy"), c, m); expect(K("assign"), a, m); M<T> q(2, 3, T(1)); a = q; expect(K("assign smaller"), a, MM<T>(2, 3, 1)); q = A; expect(K("assign larger"), q, m); }
        { M<T> c(A); auto mc = m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { ctx().transitions++; if (A.getEntry(i, j) != m(i, j)) violation(K("entry"), cat("entry (", i, ",", j, ") read wrongly")); c(i, j) = mc(i, j) = T((i * C + j) % 90); } expect(K("write all"), c, mc); expect(K("copy independent"), A, m); }
        for (int i = 0; i < R; i++) { expect(K("getRow"), A.getRow(i), sub(m, i, 0, 1, C).a); auto s = wgen<T>(C, 3); M<T> c(A); V<T> sv(s); c.setRow(i, sv); auto mc = m; for (int j = 0; j < C; j++) mc(i, j) = s[j]; expect(K("setRow"), c, mc); }
        for (int j = 0; j < C; j++) { expect(K("getCol"), A.getCol(j), sub(m, 0, j, R, 1).a); auto s = wgen<T>(R, 3); M<T> c(A); V<T> sv(s); c.setColumn(j, sv); auto mc = m; for (int i = 0; i < R; i++) mc(i, j) = s[i]; expect(K("setColumn"), c, mc); }
        SV<std::array<int, 2>> pr, pc; auto pairs = [](SV<int> P, auto& o) { if (P.size() > 9) { SV<int> q; for (size_t i = 0; i < P.size(); i++) if (i < 3 || i + 3 > P.size() || i % 2) q.push_back(P[i]); P = q; } for (int a : P) for (int b : P) if (b > a) o.push_back({a, b}); }; pairs(PR, pr); pairs(PC, pc); size_t q = 0;
        for (auto& x : pr) for (auto& y : pc) { if (N > 400 && q++ % 7) continue; int a = x[0], rl = x[1] - a, c = y[0], cl = y[1] - c; expect(K("getBlock"), A.getBlock(a, c, rl, cl), sub(m, a, c, rl, cl)); expect(K("(a,b,c,d)"), A(a, a + rl - 1, c, c + cl - 1), sub(m, a, c, rl, cl));
            auto bm = wmat<T>(rl, cl, 5); M<T> t(A); M<T> bb = mk(bm); t.setBlock(a, c, bb); auto mt = m; for (int i = 0; i < rl; i++) for (int j = 0; j < cl; j++) mt(a + i, c + j) = bm(i, j); expect(K("setBlock"), t, mt); }
        for (int s1 : {1, R - 1}) for (int s2 : {1, C - 1}) for (int o : {0, 1}) { SV<int> I(R), J(C); for (int i = 0; i < R; i++) I[i] = (i * s1 + o) % R; for (int j = 0; j < C; j++) J[j] = (j * s2 + 2 * o) % C; MM<T> r(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) r(i, j) = m(I[i], J[j]); expect(K("(I,J)"), A(V<int>(I), V<int>(J)), r); expect(K("getFromIndexSet"), A.getFromIndexSet(V<int>(I), V<int>(J)), r); }
        auto parts = [](int n) { SV<SV<int>> r{{n}, {n / 2, n - n / 2}, {1, n - 1}, {n - n / 3, n / 3}, {n / 4, n / 4, n - 2 * (n / 4)}}; if (n >= 8) { SV<int> e(8, n / 8); e[7] = n - 7 * (n / 8); r.push_back(e); } return r; };
        { auto many = [](int n, int st) { SV<int> s; for (int k = 0; n > 0 && k < 11; k++) { int b = k == 10 ? n : std::min(n, st ? 2 - k % 2 : k % 3); s.push_back(b); n -= b; } return s; }; auto order = [](int nb, int st) { SV<int> I(nb); for (int i = 0; i < nb; i++) I[i] = st ? nb - 1 - i : (i + 2) % nb; return I; };
          for (int st = 0; st < 4; st++) { auto Rs = many(R, st & 1), Cs = many(C, st >> 1); auto I = order(Rs.size(), st >> 1), J = order(Cs.size(), st & 1); SV<int> qr(R), qc(C); std::iota(qr.begin(), qr.end(), 0); std::iota(qc.begin(), qc.end(), 0); auto ri = mperm(qr, I, Rs), ci = mperm(qc, J, Cs); MM<T> r(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) r(i, j) = m(ri[i], ci[j]); expect(K("blockPermute of many blocks"), A.blockPermute(V<int>(I), V<int>(J), V<int>(Rs), V<int>(Cs)), r); } }
        for (auto& Rs : parts(R)) for (auto& Cs : parts(C)) { SV<SV<int>> PI = Rs.size() < 4 ? perms(Rs.size()) : SV<SV<int>>{{0, 4, 1, 5, 3, 7, 2, 6}, {7, 6, 5, 4, 3, 2, 1, 0}}, PJ = Cs.size() < 4 ? perms(Cs.size()) : SV<SV<int>>{{0, 4, 1, 5, 3, 7, 2, 6}, {7, 6, 5, 4, 3, 2, 1, 0}}; if (N > 400) { PI = {PI.back()}; PJ = {PJ.back()}; }
            for (auto& I : PI) for (auto& J : PJ) { SV<int> qr(R), qc(C); std::iota(qr.begin(), qr.end(), 0); std::iota(qc.begin(), qc.end(), 0); auto ri = mperm(qr, I, Rs), ci = mperm(qc, J, Cs); MM<T> r(R, C); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) r(i, j) = m(ri[i], ci[j]); expect(K("blockPermute"), A.blockPermute(V<int>(I), V<int>(J), V<int>(Rs), V<int>(Cs)), r); } }
        expect(K("T"), A.T(), tr(m));
        auto map1 = [&](auto f) { MM<T> r(R, C); for (size_t k = 0; k < r.a.size(); k++) r.a[k] = f(m.a[k]); return r; };
        auto map2 = [&](auto f) { MM<T> r(R, C); for (size_t k = 0; k < r.a.size(); k++) r.a[k] = f(m.a[k], m2.a[k]); return r; };
        expect(K("unary -"), -A, map1([](T x) { return -x; })); expect(K("+"), A + B, map2([](T x, T y) { return x + y; })); expect(K("-"), A - B, map2([](T x, T y) { return x - y; }));
        { M<T> a(A), b(A); a += B; b -= B; expect(K("+="), a, map2([](T x, T y) { return x + y; })); expect(K("-="), b, map2([](T x, T y) { return x - y; })); }
        for (T s : {T(2), T(-3)}) { M<T> a(A), b(A), c(A); a += s; b -= s; c *= s; expect(K("+= s"), a, map1([s](T x) { return x + s; })); expect(K("-= s"), b, map1([s](T x) { return x - s; })); expect(K("*= s"), c, map1([s](T x) { return x * s; })); expect(K("s *"), s * A, map1([s](T x) { return s * x; })); }
        for (int k = 0; k < N; k++) for (T s : {T(3), T(-4)}) { ctx().transitions++; A.dataNoConst()[k] += s; M<T> O = mk(m); if (N > 1100 && k % 13) { A.dataNoConst()[k] -= s; continue; } double g = ef::matrixInfNorm(A, O); A.dataNoConst()[k] -= s; if (g != fabs((double) s)) violation(K("matrixInfNorm"), cat("matrices that differ by ", s, " at ", k, " have distance ", g)); }
        { auto x = wmat<T>(3, 2, 4); MM<T> r(2 * R + 3, 2 * C + 2); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { r(i, j) = m(i, j); r(R + 3 + i, C + 2 + j) = m2(i, j); } for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) r(R + i, C + j) = x(i, j); SV<M<T>> dg{A, mk(x), B}; expect(K("blockDiagonalMatrix"), ef::blockDiagonalMatrix(dg), r); }
        if (R == C) { MM<T> e(R, R); for (int i = 0; i < R; i++) e(i, i) = 1; expect(K("IdentityMatrix"), (M<T>) ef::IdentityMatrix<T>(R), e); auto s = wgen<T>(R, 6); V<T> dv(s); for (int i = 0; i < R; i++) e(i, i) = s[i]; expect(K("DiagonalMatrix"), (M<T>) ef::DiagonalMatrix<T>(dv), e); }
        expect(K("operands unchanged"), A, m); expect(K("operands unchanged"), B, m2);
        if constexpr (std::is_same_v<T, double>) {
            for (int k = 0; k < C; k++) { SV<T> e(C, 0.0); e[k] = 1; V<T> x(e); expect(K("A*e"), A * x, sub(m, 0, k, R, 1).a); } { auto s = wgen<T>(C, 7); MM<T> xm(C, 1); xm.a = s; V<T> x(s); expect(K("A*x"), A * x, mmul(m, xm).a); }
            for (int n : {1, 2, 7, R, 33}) { auto xm = wmat<T>(C, n, 8); M<T> X = mk(xm); expect(K("A*B"), A * X, mmul(m, xm)); expect(K("A*B operand"), X, xm); }
            expect(K("product operands"), A, m);
        }
    });
}
static SV<double> gauss(MM<double> A, SV<double> b) { int n = A.r; SV<long double> a(A.a.begin(), A.a.end()), x(b.begin(), b.end()); for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(a[i * n + k]) > fabsl(a[p * n + k])) p = i; for (int j = 0; j < n; j++) std::swap(a[k * n + j], a[p * n + j]); std::swap(x[k], x[p]); for (int i = k + 1; i < n; i++) { long double f = a[i * n + k] / a[k * n + k]; for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j]; x[i] -= f * x[k]; } } for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) x[i] -= a[i * n + j] * x[j]; x[i] /= a[i * n + i]; } return SV<double>(x.begin(), x.end()); }
static void solve_cases() {
    SV<int> sizes{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33}; if (ctx().thorough()) for (int n : {20, 31, 48, 63, 64, 65, 100}) sizes.push_back(n);
    for (int n : sizes) for (auto& p : n <= 9 ? perms(std::min(n, 4)) : SV<SV<int>>{{0}, {3, 1, 0, 2}, {1, 2, 3, 4, 5, 6, 7, 0}}) for (int kind = 0; kind < 3; kind++) {
        // permuted rows (pivoting), dominated / triangular / dense nonsymmetric
        MM<double> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int r = i < (int) p.size() ? p[i] : i; double v = kind == 0 ? (i == j ? 40 + i : val<double>(i * 5 + j * 2) / 8) : kind == 1 ? (j > i ? val<double>(i + 3 * j) : i == j ? 2 + i : 0) : val<double>(i * 3 + j * 7) / (1 + i + j) + (i == j ? 3 * n : 0); m(r, j) = v; }
        std::string id = cat("solve n=", n, " kind=", kind, " perm=", show(p)); if (!vk::begin(id)) continue;
        ctx().distinct++; ctx().states++; ctx().traces++; sample(id);
        ok(id, [&] {
            M<double> A = mk(m); auto rhs = gen<double>(n, 4); V<double> b(rhs); auto x = ef::solve(A, b); auto w = gauss(m, rhs); ctx().transitions++;
            double sc = 0; for (double v : w) sc = std::max(sc, fabs(v)); bool bad = x.size() != (size_t) n; for (int i = 0; i < n && !bad; i++) bad = !(fabs(x[i] - w[i]) <= 1e-9 * (1 + sc)); if (bad) violation(id, cat("solution ", show(x.data()), " expected ", show(w)));
            expect(id + " operands", A, m); expect(id + " operands", b, rhs);
            for (int k = 1; k <= 4; k++) { auto bm = mgen<double>(n, k, 2); M<double> B = mk(bm); auto X = ef::solve(A, B); MM<double> want(n, k); for (int j = 0; j < k; j++) { auto c = gauss(m, sub(bm, 0, j, n, 1).a); for (int i = 0; i < n; i++) want(i, j) = c[i]; } double s2 = 0; for (double v : want.a) s2 = std::max(s2, fabs(v)); expect(id + " matrix", X, want, 1e-9 * (1 + s2)); expect(id + " matrix operands", A, m); expect(id + " matrix operands", B, bm); }
        });
    }
}
static const int NMOP = 11;
static bool mstep(int op, M<double>* A, MM<double>* m, int t) {
    switch (op) {
        case 0: A[0] = A[1]; m[0] = m[1]; break;
        case 1: A[0] = A[0].T(); m[0] = tr(m[0]); break;
        case 2: if (m[0].r != m[1].r || m[0].c != m[1].c) return false; A[1] += A[0]; for (size_t k = 0; k < m[0].a.size(); k++) m[1].a[k] += m[0].a[k]; break;
        case 3: if (m[0].c != m[1].r) return false; { auto P = A[0] * A[1]; A[1] = P; m[1] = mmul(m[0], m[1]); } break;
        case 4: A[0] = -A[1]; m[0] = m[1]; for (auto& x : m[0].a) x = -x; break;
        case 5: { if (m[0].r < 2) return false; auto B = A[0].getBlock(1, 0, m[0].r - 1, m[0].c); A[1] = B; m[1] = sub(m[0], 1, 0, m[0].r - 1, m[0].c); break; }
        case 6: { if (m[1].r > m[0].r || m[1].c > m[0].c) return false; int r = m[0].r - m[1].r, c = m[0].c - m[1].c; A[0].setBlock(r, c, A[1]); auto s = m[1]; for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) m[0](r + i, c + j) = s(i, j); break; }
        case 7: { if (m[0].r < 1 || m[0].c < 1) return false; M<double> c(A[0]); c(0, m[0].c - 1) = t; A[1] = M<double>(c); m[1] = m[0]; m[1](0, m[0].c - 1) = t; break; }
        case 8: { if (m[0].r < 2) return false; V<double> r = A[0].getRow(0); A[0].setRow(m[0].r - 1, r); for (int j = 0; j < m[0].c; j++) m[0](m[0].r - 1, j) = m[0](0, j); break; }
        case 9: { if (m[0].c < 2) return false; V<int> I(m[0].r), J(m[0].c); for (int i = 0; i < m[0].r; i++) I[i] = i; for (int j = 0; j < m[0].c; j++) J[j] = (j + 1) % m[0].c; auto r = A[0](I, J); A[0] = r; auto q = m[0]; for (int i = 0; i < q.r; i++) for (int j = 0; j < q.c; j++) m[0](i, j) = q(i, J[j]); break; }
        case 10: A[0] *= -2.0; for (auto& x : m[0].a) x *= -2; break;
    }
    return true;
}
static void matrix_part() {
    bool th = ctx().thorough(); int mx = th ? 6 : 5;
    for (int r = 0; r <= mx; r++) for (int c = 0; c <= mx; c++) for (int s = 0; s < (th ? 3 : 1); s++) { matrix_ops<double>(r, c, s); GENERIC(matrix_ops<int>(r, c, s); if (r < 4 && c < 4) matrix_ops<float>(r, c, s);) }
    for (auto& rc : SV<SV<int>>{{5, 3}, {6, 2}, {3, 6}, {7, 5}}) matrix_ops<double>(rc[0], rc[1], 2);
    for (auto& rc : SV<SV<int>>{{8, 8}, {9, 9}, {8, 9}, {16, 16}, {17, 17}, {16, 17}, {10, 20}, {20, 10}, {24, 8}, {31, 33}, {32, 32}, {33, 31}, {1, 40}, {40, 1}, {3, 50}, {50, 3}, {1, 129}, {129, 1}, {64, 16}, {16, 64}, {64, 64}, {65, 33}, {2, 300}, {300, 2}}) { matrix_large<double>(rc[0], rc[1]); GENERIC(if (th || rc[0] * rc[1] <= 300) matrix_large<int>(rc[0], rc[1]);) }
    solve_cases();
    int D = th ? 6 : 5; SV<int> ix(D, 0);
    for (;;) {
        std::string s; for (int i : ix) s += char('a' + i);
        for (int sh = 0; sh < 4; sh++) {
            std::string id = cat("mhist ", s, " shape=", sh); if (!vk::begin(id)) continue;
            static const int S[4][4] = {{2, 3, 3, 2}, {2, 2, 2, 2}, {3, 2, 2, 2}, {1, 3, 3, 3}}; MM<double> m[2] = {mgen<double>(S[sh][0], S[sh][1], 1), mgen<double>(S[sh][2], S[sh][3], 9)}; M<double> A[2] = {mk(m[0]), mk(m[1])};
            bool full = true; ctx().traces++;
            ok(id, [&] { int t = 0; for (int o : ix) { if (!mstep(o, A, m, ++t)) { full = false; break; } ctx().transitions++; for (int q = 0; q < 2; q++) { auto d = same(A[q], m[q], 0); if (d != "") { violation(cat("mhist ", s.substr(0, t), " shape=", sh), cat("after step ", t, " matrix ", q, " ", d)); return; } } } });
            if (full) { ctx().distinct++; ctx().states++; if (ctx().samples.size() < 6) sample(id); }
        }
        int p = D - 1; while (p >= 0 && ++ix[p] == NMOP) ix[p--] = 0;
        if (p < 0) break;
    }
}
// ---- C14 ---------------------------------------------------------------------------------------------
// f must throw a std::exception (and the object must keep its contents) exactly when bad
template <class F> static void must(const std::string& key, bool bad, F f) {
    ctx().transitions++; bool thrown = false;
    try { f(); } catch (std::exception&) { thrown = true; }
    if (bad && !thrown) violation(key, "an access outside the valid range or with non-conforming sizes is accepted");
    if (!bad && thrown) violation(key, "a valid access is rejected");
}
static SV<size_t> around(size_t n) { SV<size_t> r; for (size_t k = 0; k <= n + 2; k++) r.push_back(k); for (size_t x : {(size_t) -1, (size_t) -2, (size_t) -(long) n, (size_t) INT_MAX, (size_t) 1 << 32, (size_t) 1 << 62, (size_t) 1 << 63}) if (x > n + 2) r.push_back(x); return r; }
template <class T> static void vmisuse(int n) {
    const SV<T> m = gen<T>(n, 2); volatile double sink = 0; std::string base = cat("vmisuse ", tn(T()), " n=", n);
    auto run = [&](const std::string& op, std::function<bool(const std::string&)> body) { std::string id = base + " " + op; if (!vk::begin(id)) return; ctx().distinct++; ctx().states++; ctx().traces++; if (ctx().samples.size() < 6) sample(id); body(id); };
    for (size_t i : around(n)) run(cat("index ", (long) i), [&](const std::string& id) { V<T> v(m); const V<T>& cv = v; bool bad = i >= (size_t) n;
        must(id + " getEntry", bad, [&] { sink = sink + v.getEntry(i); }); must(id + " []", bad, [&] { sink = sink + v[i]; }); must(id + " const []", bad, [&] { sink = sink + cv[i]; }); must(id + " ()", bad, [&] { sink = sink + v(i); });
        if (bad) { must(id + " []=", bad, [&] { v[i] = 5; }); must(id + " ()=", bad, [&] { v(i) = 5; }); } expect(id + " contents", v, m); return true; });
    for (size_t a : around(n)) for (size_t b : around(n)) run(cat("range ", (long) a, " ", (long) b), [&](const std::string& id) { V<T> v(m); bool bad = a >= (size_t) n || b >= (size_t) n || a > b;
        if (a > b || (a == b + 1)) { if (a == b + 1) return true; }            // an empty range may be given or rejected
        if (n == 0 && a == 0 && b + 1 == 0) return true;
        must(id + " getRange", bad, [&] { v.getRange(a, b); }); must(id + " (a,b)", bad, [&] { v(a, b); }); expect(id + " contents", v, m); return true; });
    for (size_t a : around(n)) for (size_t l : around(n)) run(cat("segment ", (long) a, " ", (long) l), [&](const std::string& id) { V<T> v(m); bool bad = a > (size_t) n || l > (size_t) n - a; if (l == 0 && a > (size_t) n) return true; // nothing is accessed
        must(id + " getSegment", bad, [&] { v.getSegment(a, l); }); if (l <= (size_t) n + 2) { V<T> s(gen<T>(l, 5)); must(id + " setSegment", bad, [&] { v.setSegment(a, s); }); if (bad) expect(id + " contents", v, m); } return true; });
    if (n <= 4) for (int l = 0; l <= 3; l++) { SV<int> al; for (int x = -2; x <= n + 1; x++) al.push_back(x); al.push_back(INT_MIN); al.push_back(INT_MAX);
        for (auto& t : tuples(l, 0, al.size() - 1)) { SV<int> I; bool bad = l > n; for (int x : t) { I.push_back(al[x]); bad |= al[x] < 0 || al[x] >= n; } run("indexset " + show(I), [&](const std::string& id) { V<T> v(m); V<int> vi(I); must(id + " getFromIndexSet", bad, [&] { v.getFromIndexSet(vi); }); must(id + " (I)", bad, [&] { v(vi); }); expect(id + " contents", v, m); return true; }); } }
    if (n <= 4) for (int ni = 1; ni <= 3; ni++) for (auto& I : tuples(ni, -1, 3)) for (int ns = 1; ns <= 3; ns++) for (auto& S : tuples(ns, 0, 2)) run("blockPermute " + show(I) + show(S), [&](const std::string& id) { V<T> v(m); bool bad = std::accumulate(S.begin(), S.end(), 0) != n; int tot = 0; for (int i : I) { if (i < 0 || i >= ns) { bad = true; break; } tot += S[i]; } if (!bad && tot != n) bad = true;
        must(id, bad, [&] { v.blockPermute(V<int>(I), V<int>(S)); }); expect(id + " contents", v, m); return true; });
    for (int k = 0; k <= n + 2; k++) run(cat("operand ", k), [&](const std::string& id) { V<T> v(m); auto m2 = gen<T>(k, 6); V<T> w(m2); bool bad = k != n;
        must(id + " +", bad, [&] { v + w; }); must(id + " -", bad, [&] { v - w; }); must(id + " dot", bad, [&] { sink = sink + v.operator*(w); }); must(id + " elementwise *", bad, [&] { ef::operator*<T>(V<T>(v), V<T>(w)); }); must(id + " elementwise /", bad, [&] { v / w; }); must(id + " InfNorm", bad, [&] { sink = sink + ef::vectorInfNorm(v, w); }); must(id + " L2Norm", bad, [&] { sink = sink + ef::vectorL2Norm(v, w); });
        if (bad) { must(id + " +=", bad, [&] { v += w; }); must(id + " -=", bad, [&] { v -= w; }); } expect(id + " contents", v, m); expect(id + " contents of operand", w, m2); return true; });
}
template <class T> static void mmisuse(int R, int C) {
    const MM<T> m = mgen<T>(R, C, 3); volatile double sink = 0; std::string base = cat("mmisuse ", tn(T()), " ", R, "x", C);
    auto run = [&](const std::string& op, std::function<void(const std::string&, M<T>&)> body) { std::string id = base + " " + op; if (!vk::begin(id)) return; ctx().distinct++; ctx().states++; ctx().traces++; if (ctx().samples.size() < 6) sample(id); M<T> A = mk(m); body(id, A); };
    size_t r = R, c = C;
    for (size_t i : around(r)) for (size_t j : around(c)) run(cat("entry ", (long) i, " ", (long) j), [&](const std::string& id, M<T>& A) { bool bad = i >= r || j >= c; must(id + " getEntry", bad, [&] { sink = sink + A.getEntry(i, j); }); must(id + " ()", bad, [&] { sink = sink + A(i, j); }); if (bad) must(id + " ()=", bad, [&] { A(i, j) = 5; }); expect(id + " contents", A, m); });
    if (R <= 3 && C <= 3) { SV<size_t> ar, ac; for (size_t k = 0; k <= r + 1; k++) ar.push_back(k); ar.push_back(-1); for (size_t k = 0; k <= c + 1; k++) ac.push_back(k); ac.push_back(-1);
        for (size_t a : ar) for (size_t b : ar) for (size_t cc : ac) for (size_t d : ac) { bool emptyr = b + 1 <= a, emptyc = d + 1 <= cc; if (emptyr || emptyc) continue; run(cat("range ", (long) a, " ", (long) b, " ", (long) cc, " ", (long) d), [&](const std::string& id, M<T>& A) { bool bad = a >= r || b >= r || cc >= c || d >= c; must(id, bad, [&] { A(a, b, cc, d); }); expect(id + " contents", A, m); }); }
        for (size_t a : around(r)) for (size_t b : around(c)) for (size_t rl = 0; rl <= r + 1; rl++) for (size_t cl = 0; cl <= c + 1; cl++) run(cat("block ", (long) a, " ", (long) b, " ", rl, "x", cl), [&](const std::string& id, M<T>& A) { bool bad = a > r || rl > r - a || b > c || cl > c - b; if (rl == 0 || cl == 0) { if (bad) return; } must(id + " getBlock", bad, [&] { A.getBlock(a, b, rl, cl); }); M<T> B = mk(mgen<T>(rl, cl, 7)); must(id + " setBlock", bad, [&] { A.setBlock(a, b, B); }); if (bad) expect(id + " contents", A, m); });
        for (size_t rl : {(size_t) -1, (size_t) -2, (size_t) 1 << 63}) run(cat("block huge ", (long) rl), [&](const std::string& id, M<T>& A) { if (!R || !C) return; must(id + " rows", true, [&] { A.getBlock(1, 0, rl, 1); }); must(id + " cols", true, [&] { A.getBlock(0, 1, 1, rl); }); expect(id + " contents", A, m); });
        for (int a = 0; a <= R + 1; a++) for (auto& I : tuples(std::min(a, 3), -1, R)) for (int b = 0; b <= C + 1; b++) for (auto& J : tuples(std::min(b, 2), -1, C)) { if (a > 2 && b > 1) continue; run("indexset " + show(I) + show(J), [&](const std::string& id, M<T>& A) { bool bad = (int) I.size() > R || (int) J.size() > C; if (I.size() && J.size()) { for (int x : I) bad |= x < 0 || x >= R; for (int x : J) bad |= x < 0 || x >= C; } else if (!bad) return; must(id + " getFromIndexSet", bad, [&] { A.getFromIndexSet(V<int>(I), V<int>(J)); }); must(id + " (I,J)", bad, [&] { A(V<int>(I), V<int>(J)); }); expect(id + " contents", A, m); }); }
        for (auto& I : tuples(2, -1, 2)) for (auto& Rs : tuples(2, 0, 2)) for (auto& J : tuples(2, -1, 2)) for (auto& Cs : tuples(2, 0, 2)) { if (R == 0 || C == 0) continue; bool bi = Rs[0] + Rs[1] != R || I[0] < 0 || I[0] > 1 || I[1] < 0 || I[1] > 1 || Rs[I[0]] + Rs[I[1]] != R, bj = Cs[0] + Cs[1] != C || J[0] < 0 || J[0] > 1 || J[1] < 0 || J[1] > 1 || Cs[J[0]] + Cs[J[1]] != C; if (bi && bj) continue; run("blockPermute " + show(I) + show(J) + show(Rs) + show(Cs), [&](const std::string& id, M<T>& A) { must(id, bi || bj, [&] { A.blockPermute(V<int>(I), V<int>(J), V<int>(Rs), V<int>(Cs)); }); expect(id + " contents", A, m); }); }
        for (auto& I : SV<SV<int>>{{0}, {1}, {0, 1}, {1, 0}, {0, 1, 0}, {}}) for (auto& Rs : tuples(2, 0, 2)) { if (R == 0 || C == 0) continue; run("blockPermute rows " + show(I) + show(Rs), [&](const std::string& id, M<T>& A) { bool bad = Rs[0] + Rs[1] != R; int t = 0; for (int i : I) t += Rs[i]; bad |= t != R; must(id, bad, [&] { A.blockPermute(V<int>(I), V<int>({0}), V<int>(Rs), V<int>({C})); }); expect(id + " contents", A, m); }); }
    }
    for (size_t i : around(r)) for (int k = 0; k <= C + 2; k++) run(cat("row ", (long) i, " len ", k), [&](const std::string& id, M<T>& A) { if (k == 0 && C == 0) return; V<T> v(gen<T>(k, 4)); bool bad = i >= r || k != C; must(id + " setRow", bad, [&] { A.setRow(i, v); }); if (bad) expect(id + " contents", A, m); if (C) must(id + " getRow", i >= r, [&] { A.getRow(i); }); });
    for (size_t j : around(c)) for (int k = 0; k <= R + 2; k++) run(cat("col ", (long) j, " len ", k), [&](const std::string& id, M<T>& A) { if (k == 0 && R == 0) return; V<T> v(gen<T>(k, 4)); bool bad = j >= c || k != R; must(id + " setColumn", bad, [&] { A.setColumn(j, v); }); if (bad) expect(id + " contents", A, m); if (R) must(id + " getCol", j >= c, [&] { A.getCol(j); }); });
    for (int r2 = 0; r2 <= R + 1; r2++) for (int c2 = 0; c2 <= C + 1; c2++) run(cat("operand ", r2, "x", c2), [&](const std::string& id, M<T>& A) { auto m2 = mgen<T>(r2, c2, 5); M<T> B = mk(m2); bool bad = r2 != R || c2 != C; must(id + " +", bad, [&] { A + B; }); must(id + " -", bad, [&] { A - B; }); must(id + " InfNorm", bad, [&] { sink = sink + ef::matrixInfNorm(A, B); }); if (bad) { must(id + " +=", bad, [&] { A += B; }); must(id + " -=", bad, [&] { A -= B; }); }
        if constexpr (std::is_same_v<T, double>) { if (R && C && r2 && c2) { must(id + " *", C != r2, [&] { A * B; }); if (R != C || R != r2) must(id + " solve matrix", true, [&] { ef::solve(A, B); }); } }
        expect(id + " contents", A, m); expect(id + " operand contents", B, m2); });
    if constexpr (std::is_same_v<T, double>) for (int k = 1; k <= std::max(R, C) + 1; k++) if (R && C) run(cat("vector operand ", k), [&](const std::string& id, M<T>& A) { auto s = gen<T>(k, 4); V<T> x(s); must(id + " *", k != C, [&] { A * x; }); if (R != C || k != R) must(id + " solve", true, [&] { ef::solve(A, x); }); expect(id + " contents", A, m); expect(id + " operand", x, s); });
}
static void misuse_part() {
    bool th = ctx().thorough();
    for (int n = 0; n <= (th ? 6 : 4); n++) { vmisuse<double>(n); vmisuse<int>(n); }
    for (int r = 0; r <= (th ? 4 : 3); r++) for (int c = 0; c <= (th ? 4 : 3); c++) { mmisuse<double>(r, c); GENERIC(if (th) mmisuse<int>(r, c);) }
    if (th) for (int n : {17, 33}) GENERIC(vmisuse<float>(n));
}
int main(int argc, char** argv) {
    start(argc, argv);
    std::string mode = "vector"; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "vector") vector_part(); else if (mode == "matrix") matrix_part(); else misuse_part();
    return stop();
}
