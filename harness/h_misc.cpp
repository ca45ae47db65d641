// C15 (--part interp), C16 (--part options), C17 (--part xml), C22 (--part record).
#include "hps.hpp"
#include <algorithm>
#include <charconv>
#include <climits>
#include <ctime>
#include <expat.h>
#include <list>
#include <regex>
#include <sys/syscall.h>
using namespace vk;
template <class T> using SV = std::vector<T>;
using S = std::string;
static SV<SV<int>> tuples(int n, int k) { SV<SV<int>> r; SV<int> t(n, 0); if (k == 0 && n) return r; for (;;) { r.push_back(t); int i = n - 1; while (i >= 0 && ++t[i] >= k) t[i--] = 0; if (i < 0) break; } return r; }
static SV<S> strings(const SV<S>& alpha, int maxlen) { SV<S> r{""}; size_t lo = 0; for (int l = 1; l <= maxlen; l++) { size_t hi = r.size(); for (size_t i = lo; i < hi; i++) for (auto& a : alpha) r.push_back(r[i] + a); lo = hi; } return r; }
static S vis(const S& s) { S r; for (unsigned char c : s) if (c < 33 || c > 126) r += cat("\\", (int) c); else r += c; return r; }

// ================================ C15 =================================================================
static double lin(const SV<double>& x, const SV<double>& y, double q) {
    int n = x.size(), j = 0; bool up = x[n - 1] > x[0];
    while (j < n - 2 && (up ? q >= x[j + 1] : q <= x[j + 1])) j++;
    if (q == x[j]) return y[j]; if (q == x[j + 1]) return y[j + 1];
    return y[j] + (q - x[j]) / (x[j + 1] - x[j]) * (y[j + 1] - y[j]);
}
static bool close15(double a, double b, double sc) { return std::abs(a - b) <= 1e-11 * (std::abs(b) + sc); }
static SV<double> queries(const SV<double>& x, bool dense) {
    SV<double> q; int n = x.size(); double lo = std::min(x[0], x[n - 1]), hi = std::max(x[0], x[n - 1]), h = (hi - lo);
    for (int i = 0; i < n; i++) { q.push_back(x[i]); if (dense) { q.push_back(std::nextafter(x[i], 1e300)); q.push_back(std::nextafter(x[i], -1e300)); } }
    for (int i = 0; i + 1 < n; i++) { q.push_back(0.5 * (x[i] + x[i + 1])); if (dense) { q.push_back(0.9 * x[i] + 0.1 * x[i + 1]); } }
    q.push_back(lo - 0.25 * h); q.push_back(hi + 0.25 * h); if (dense) { q.push_back(lo - 3 * h); q.push_back(hi + 3 * h); }
    return q;
}
static void interp_case(const S& name, const SV<double>& x, const SV<SV<double>>& ys, int seqlen, bool dense) {
    if (!vk::begin(name)) return;
    ctx().distinct++; sample(name);
    auto q = queries(x, dense); int nq = q.size();
    for (auto& y : ys) {
        double sc = 0; for (double v : y) sc = std::max(sc, std::abs(v)); double mg = 1e300; for (size_t i = 0; i + 1 < x.size(); i++) mg = std::min(mg, std::abs(x[i + 1] - x[i])); sc *= 4 * std::abs(x.back() - x[0]) / mg;
        ef::Vector<double> vx(x), vy(y); SV<double> want(nq); for (int i = 0; i < nq; i++) want[i] = lin(x, y, q[i]);
        auto check = [&](int i, double got, const S& when) { ctx().transitions++; if (!close15(got, want[i], sc)) violation(name + " " + when, cat("value at ", q[i], " is ", got, ", expected ", want[i], " (x=", show(x), " y=", show(y), ")")); };
        try {
            for (auto& s : tuples(seqlen, nq)) {                       // every query sequence, one interpolant each
                ef::LinearInterpolant f(vx, vy); ctx().traces++; ctx().states += s.size();
                for (size_t k = 0; k < s.size(); k++) check(s[k], f(q[s[k]]), k ? "after other queries" : "first query");
            }
            for (auto& s : tuples(std::max(1, seqlen - 1), nq)) {      // bulk, alone and after single queries, and followed by one
                SV<double> qs; for (int i : s) qs.push_back(q[i]); ef::Vector<double> vq(qs);
                ef::LinearInterpolant f(vx, vy); auto r = f(vq); if (r.size() != s.size()) { violation(name + " bulk size", "bulk result has the wrong size"); continue; }
                for (size_t k = 0; k < s.size(); k++) check(s[k], r[k], "in bulk");
                check(s[0], f(q[s[0]]), "after a bulk query"); auto r2 = f(vq); for (size_t k = 0; k < s.size(); k++) check(s[k], r2[k], "in bulk after other queries");
            }
            { ef::LinearInterpolant f(vx, vy), g(vx, vy); ef::Vector<double> vq(q); auto r = f(vq); for (int i = 0; i < nq; i++) check(i, r[i], "whole list in bulk"); for (int i = nq - 1; i >= 0; i--) check(i, g(q[i]), "whole list backwards"); ef::Vector<double> e(SV<double>{}); if (f(e).size() != 0) violation(name + " empty bulk", "empty bulk query gives values"); }
            if (vx.data() != x || vy.data() != y) violation(name + " data changed", "interpolating changes the data");
        } catch (std::exception& e) { violation(name + " throws", e.what()); }
    }
}
static void interp_part() {
    bool th = ctx().thorough();
    for (int n = 2; n <= (th ? 8 : 6); n++) for (auto& g : tuples(n - 1, 2)) for (int dir : {1, -1}) for (double x0 : {0., -2.}) {
        if (n > 4 && x0 != 0) continue;
        SV<double> x{x0}; for (int b : g) x.push_back(x.back() + dir * (b ? 2.5 : 1.));
        SV<SV<double>> ys; SV<double> a, b, c; for (int i = 0; i < n; i++) { a.push_back(i * i - 3. + 0.5 * (i % 3)); b.push_back(i % 2 ? -4 : 7); c.push_back(2 * x[i] - 1); } ys = {a}; if (n <= 4) { ys.push_back(b); ys.push_back(c); }
        interp_case(cat("grid n=", n, " gaps=", show(g), " dir=", dir, " x0=", x0), x, ys, n <= 3 ? 4 : n <= (th ? 6 : 5) ? 3 : 2, n <= 3);
    }
    // the same shapes on tiny, huge and far away scales, with tiny and huge values
    for (int n = 2; n <= 5; n++) for (auto& g : tuples(n - 1, 2)) for (int dir : {1, -1}) for (double s : {1e-20, 1e-9, 1e-150, 1e12, 1e150}) for (double off : {0., 1., 1e6}) for (double ysc : {1., 1e-30, 1e30}) {
        if ((off == 1e6 && ysc != 1) || (n == 5 && ysc != 1)) continue;
        SV<double> x{off * s * dir}, y; for (int b : g) x.push_back(x.back() + dir * (b ? 2.5 : 1.) * s); for (int i = 0; i < n; i++) y.push_back((i % 2 ? -4 : 7 + i) * ysc);
        interp_case(cat("scaled grid n=", n, " gaps=", show(g), " dir=", dir, " scale=", s, " offset=", off, " values=", ysc), x, {y}, n <= 3 ? 3 : 2, n <= 3 && off < 2);
    }
    for (int n : th ? SV<int>{7, 9, 12, 16, 17, 20, 33, 50, 64, 100, 130, 200, 300} : SV<int>{8, 12, 17, 20, 33, 50, 64, 100, 130, 200}) for (int dir : {1, -1}) for (int kind = 0; kind < 2; kind++) {
        SV<double> x{1}, y; for (int i = 1; i < n; i++) x.push_back(x.back() + dir * (kind ? 0.25 + (i * i) % 5 : 1.)); for (int i = 0; i < n; i++) y.push_back(std::sin(1. * i) * 10);
        interp_case(cat("grid n=", n, " kind=", kind, " dir=", dir), x, {y}, n <= 20 ? (n <= 8 || (th && n <= 12) ? 3 : 2) : 2, false);
    }
}

// ================================ C16 =================================================================
using OV = ef::Options::OptionTypes;
static S tstr(const OV& v) { switch (v.index()) { case 0: return "text \"" + vis(std::get<S>(v)) + "\""; case 1: return cat("switch ", std::get<bool>(v)); case 2: return cat("integer ", std::get<int>(v)); default: return cat("real ", std::get<double>(v)); } }
// admissible values of a spelling, by an independent reading of the grammar
static SV<OV> denotes(const S& s) {
    static const std::regex rint("[+-]?[0-9]+"), rreal("[+-]?([0-9]+\\.[0-9]*|\\.[0-9]+|[0-9]+)([eE][+-]?[0-9]+)?");
    if (s == "true") return {OV(true)}; if (s == "false") return {OV(false)};
    S u = s.size() && s[0] == '+' ? s.substr(1) : s;
    if (std::regex_match(s, rint)) { int i; auto r = std::from_chars(u.data(), u.data() + u.size(), i); if (r.ec == std::errc()) return {OV(i)}; double d; std::from_chars(u.data(), u.data() + u.size(), d); return {OV(s), OV(d)}; }
    if (std::regex_match(s, rreal)) { double d = 0; auto r = std::from_chars(u.data(), u.data() + u.size(), d); if (r.ec == std::errc()) return {OV(d)}; double e = strtod(s.c_str(), nullptr); return {OV(s), OV(e)}; }
    SV<OV> r{OV(s)};
    char* e; double d = strtod(s.c_str(), &e); if (s.size() && !isspace((unsigned char) s[0]) && !*e) r.push_back(OV(d));   // hexadecimal, inf, nan: either reading
    return r;
}
static bool oeq(const OV& a, const OV& b) { if (a.index() != b.index()) return false; if (a.index() == 3) { double x = std::get<3>(a), y = std::get<3>(b); return x == y || (x != x && y != y) || std::abs(x - y) <= 1e-15 * std::abs(y); } return a == b; }
static S bad(const OV& got, const SV<OV>& adm) { for (auto& a : adm) if (oeq(got, a)) return ""; return "is " + tstr(got) + ", expected " + tstr(adm[0]); }
static void cmdline(ef::Options& o, const SV<S>& args) { SV<S> a{"prog"}; a.insert(a.end(), args.begin(), args.end()); SV<char*> p; for (auto& s : a) p.push_back(s.data()); p.push_back(nullptr); int argc = a.size(); char** argv = p.data(); ef::InputParser ip(argc, argv); ip.parse(o); }
static S trim(const S& s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == S::npos) return ""; return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1); }
static void put(const S& f, const S& t) { std::ofstream o(f, std::ios::binary); o << t; }
using Model = std::map<S, SV<OV>>;
static void compare(const S& key, ef::Options& o, const Model& m, const SV<S>& absent = {}) {
    ctx().transitions++;
    for (auto& [k, v] : m) { if (!o.optionExists(k) || !o.optionsMap.count(k)) { violation(key + " lost", "option '" + vis(k) + "' is not there"); continue; } auto d = bad(o[k], v); if (d != "") violation(key + " value", "option '" + vis(k) + "' " + d); }
    for (auto& a : absent) if (!m.count(a) && o.optionExists(a)) violation(key + " extra", "option '" + a + "' exists but was never given");
    if (o.optionsMap.size() != m.size()) violation(key + " count", cat(o.optionsMap.size(), " options, expected ", m.size()));
}
template <class F> static void nothrow(const S& key, F f) { try { f(); } catch (std::exception& e) { violation(key + " throws", S("reading options fails: ") + e.what()); } }
// command line argument -> effect on the model
static void apply_arg(Model& m, const S& a) { if (a.empty() || a[0] != '-') return; S r = a.substr(a.size() > 1 && a[1] == '-' ? 2 : 1); size_t p = r.find('='); if (p == S::npos) m[r] = {OV(S())}; else m[r.substr(0, p)] = denotes(r.substr(p + 1)); }
struct Ini { S section; void line(Model& m, const S& raw) { S l = trim(raw); if (l.empty() || l[0] == ';') return; if (l[0] == '[' && l.back() == ']') { section = l.substr(1, l.size() - 2); return; } if (section != "EllipticForest") return; size_t p = l.find('='); if (p == S::npos) return; m[trim(l.substr(0, p))] = denotes(trim(l.substr(p + 1))); } };
static void options_part() {
    bool th = ctx().thorough(); S ini = ctx().scratch + "/o.ini";
    SV<S> vals = strings({"0", "5", "-", "+", ".", "e", "E", "t", " ", "a", "x", "="}, th ? 6 : 5);
    for (S w : {"true", "false", "True", "FALSE", "truex", "xtrue", " true", "2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999999999999", "-99999999999999999999", "1e3", "-1e-3", "1.5e10", "1E+5", "-1.25E-7", "3.", ".5", "-.5", "+.5", "+3", "007", "-0", "0.1", "123456.789", "1e400", "1e-400", "1.2.3", "1.2.3e4", "v1.2", "192.168.0.1", "file.txt", "./out/x.vtk", "../a", "path/to file", "a,b,c", "1,2", "1 2", "5cm", "--5", "+-5", "5-", "5+", "1e5e5", "e5", ".e5", "1e", "1e+", "nan", "inf", "-inf", "0x1F", "1f", "1.0f", "1d3", "12345678901234567890.5", "\xc3\xa9", "tab\there", "#x", "a;b", "a ;b", "a ; b", "1 ; one", "2.5 # half", "a # b", "5 // five", "[x]", "a]", "${HOME}", "$HOME", "%d", "%s%n", "'q'", "a\\b", "a\\nb", "~/x", "yes", "no", "on", "off", "true;", "true ;", "null", "none", "1:2", "12:30", "a:b", "http://x/y?z=1&w=2", "*", "x*", "\"q\"", "100", "-100", "1000000", "3.141592653589793", "2.2250738585072014e-308", "4.9e-324"}) vals.push_back(w);
    for (int n : {15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 5000}) { S w; for (int i = 0; i < n; i++) w += char('a' + i % 26); vals.push_back(w); w[n / 2] = ' '; vals.push_back(w); w[n / 2] = ';'; vals.push_back(w); }   // long texts
    // 1. every spelling through every channel
    size_t B = 200;
    for (size_t b = 0; b < vals.size(); b += B) { S id = cat("values ", b); if (!vk::begin(id)) continue; sample(cat(id, " e.g. --o=", vis(vals[b + B / 2 < vals.size() ? b + B / 2 : b]), ", -o=..., ini file"));
        S file = "[EllipticForest]\n"; Model fm; SV<size_t> used; int k = 0;
        for (size_t i = b; i < std::min(b + B, vals.size()); i++) { const S& v = vals[i]; ctx().distinct++; ctx().states += 3; ctx().traces += 3;
            for (S dash : {"--", "-"}) { S key = "command line " + dash + "o=" + vis(v); nothrow(key, [&] { ef::Options o; o.setOption("keep", 7); cmdline(o, {dash + "o=" + v}); compare(key, o, {{"keep", {OV(7)}}, {"o", denotes(v)}}); }); }
            { S kk = cat("k", k++); file += kk + "=" + v + "\n"; fm[kk] = denotes(trim(v)); }
            nothrow("checkValue " + vis(v), [&] { ef::Options o; auto d = bad(o.checkValue(v), denotes(v)); if (d != "") violation("checkValue " + vis(v), d); }); }
        put(ini, file); nothrow(id + " in file", [&] { ef::Options o; o.setFromFile(ini); compare(id + " in file", o, fm); }); }
    // 1b. every short name through every channel
    SV<S> names = strings({"a", "A", "5", "-", "_", ".", ";", "[", "]", " ", "#", ":", "\t"}, th ? 4 : 3);
    for (S w : {"nonuniform-grid", "a_rather_long_name_of_an_option_with_more_than_thirty_one_characters", "EllipticForest", "true", "1.5", "-5", "min-level", "min_level", "help", "vtk-out", "h", "v", "D"}) names.push_back(w);
    names.push_back(S(300, 'n'));
    for (size_t b = 0; b < names.size(); b += 100) { S id = cat("names ", b); if (!vk::begin(id)) continue; sample(cat(id, " e.g. --", vis(names[b + 50 < names.size() ? b + 50 : b]), "=4, ini file")); S file = "[EllipticForest]\n"; Model fm, cm; SV<S> all;
        for (size_t i = b; i < std::min(b + 100, names.size()); i++) { const S& v = names[i]; ctx().distinct++; ctx().states += 4; ctx().traces += 4;
            for (S dash : {"--", "-"}) for (S tail : {"=4", "=-1.5", "=true", "=a b", "", "="}) { S a = dash + v + tail; S key = "command line " + vis(a); Model m{{"keep", {OV(7)}}}; apply_arg(m, a); nothrow(key, [&] { ef::Options o; o.setOption("keep", 7); cmdline(o, {a}); compare(key, o, m); }); if (tail == "=4") { all.push_back(a); apply_arg(cm, a); } }
            if (trim(v) == v && v != "" && v[0] != ';' && v[0] != '[') for (S sep : {"=", " = "}) { S val = sep == "=" ? "a;b" : "7"; file += v + sep + val + "\n"; fm[v] = denotes(val); } }
        nothrow(id + " command line", [&] { ef::Options o; cmdline(o, all); compare(id + " command line", o, cm); });
        put(ini, file); nothrow(id + " in file", [&] { ef::Options o; o.setFromFile(ini); compare(id + " in file", o, fm); }); }
    // 2. all short argument lists
    SV<S> args = {"--x=1", "--x=-2.5", "-x=3", "--y=true", "--x=false", "-y=text", "--x", "-x", "--y=a=b", "file", "", "--long-name=some text", "-5", "--x=", "x=9", "---x=4", "--xy=6", "-xy=6", "-xy", "--w=1=2"};
    for (int l = 0; l <= (th ? 4 : 3); l++) for (auto& t : tuples(l, args.size())) { SV<S> a; S id = "args"; for (int i : t) { a.push_back(args[i]); id += " '" + args[i] + "'"; } if (!vk::begin(id)) continue; ctx().distinct++; ctx().states += l + 1; ctx().traces++; if (l == 3) sample(id);
        Model m{{"y", {OV(S("before"))}}, {"z", {OV(1.5)}}}; for (auto& s : a) apply_arg(m, s); nothrow(id, [&] { ef::Options o(std::map<S, OV>{{"y", S("before")}, {"z", 1.5}}); cmdline(o, a); compare(id, o, m, {"x", "xy", "long-name", "file", "-x", "5"}); }); }
    // 3. all short option files
    SV<S> lines = {"[EllipticForest]", "[Other]", "x=1", "x = 2.5", "y=true", "; x=9", "", "garbage", "  [EllipticForest] ", "z=my long name", "\tx\t=\t-3\t", "y = a=b", "x=;", "y ="};
    lines[12] = "[EllipticForestX]";
    for (int l = 0; l <= (th ? 5 : 4); l++) for (auto& t : tuples(l, lines.size())) { if (l == 4 && t[0] != 0 && t[0] != 1 && t[0] != 8 && !th) continue; S id = "file"; for (int i : t) id += " '" + vis(lines[i]) + "'"; if (!vk::begin(id)) continue; ctx().distinct++; ctx().states += l + 1; ctx().traces++; if (l == 3) sample(id);
        int var = l <= 3 ? 4 : 1; for (int e = 0; e < var; e++) { S txt; Ini p; Model m{{"y", {OV(S("before"))}}}; for (int k = 0; k < l; k++) { p.line(m, lines[t[k]]); txt += lines[t[k]]; if (k + 1 < l || !(e & 1)) txt += e & 2 ? "\r\n" : "\n"; }
            put(ini, txt); S key = cat(id, e & 2 ? " CRLF" : "", e & 1 ? " no final newline" : ""); nothrow(key, [&] { ef::Options o; o.setOption("y", S("before")); o.setFromFile(ini); compare(key, o, m, {"x", "z", "garbage"}); }); } }
    // 4. all sequences of operations on two option objects
    put(ctx().scratch + "/1.ini", "[EllipticForest]\na = 5\nb = text\n"); put(ctx().scratch + "/2.ini", "[Other]\na=1\n[EllipticForest]\n a=-1.5\n");
    struct Op { S n; std::function<void(ef::Options&, ef::Options&, Model&, Model&)> f; };
    SV<Op> ops = {
        {"set a int", [](auto& o, auto&, auto& m, auto&) { o.setOption("a", 3); m["a"] = {OV(3)}; }}, {"set a bool", [](auto& o, auto&, auto& m, auto&) { o.setOption("a", true); m["a"] = {OV(true)}; }},
        {"set b real", [](auto& o, auto&, auto& m, auto&) { o.setOption("b", 2.5); m["b"] = {OV(2.5)}; }}, {"set b text", [](auto& o, auto&, auto& m, auto&) { o.setOption("b", "t"); m["b"] = {OV(S("t"))}; }},
        {"assign a", [](auto& o, auto&, auto& m, auto&) { o["a"] = S("10"); m["a"] = {OV(S("10"))}; }}, {"assign b", [](auto& o, auto&, auto& m, auto&) { o["b"] = 10; m["b"] = {OV(10)}; }},
        {"exists", [](auto& o, auto&, auto& m, auto&) { for (S k : {"a", "b", "c", ""}) if (o.optionExists(k) != (m.count(k) > 0)) violation("exists " + k, "optionExists is wrong"); }},
        {"args", [](auto& o, auto&, auto& m, auto&) { cmdline(o, {"--a=-7", "-c=x y", "rest"}); m["a"] = {OV(-7)}; m["c"] = {OV(S("x y"))}; }}, {"args switch", [](auto& o, auto&, auto& m, auto&) { cmdline(o, {"--b=false", "-a"}); m["b"] = {OV(false)}; m["a"] = {OV(S())}; }},
        {"file 1", [](auto& o, auto&, auto& m, auto&) { o.setFromFile(ctx().scratch + "/1.ini"); m["a"] = {OV(5)}; m["b"] = {OV(S("text"))}; }}, {"file 2", [](auto& o, auto&, auto& m, auto&) { o.setFromFile(ctx().scratch + "/2.ini"); m["a"] = {OV(-1.5)}; }},
        {"copy to other", [](auto& o, auto& p, auto& m, auto& n) { p = o; n = m; }}, {"copy construct", [](auto& o, auto&, auto& m, auto&) { ef::Options c(o); compare("copy", c, m); c.setOption("a", 99); c["c"] = 1; }},
        {"from map", [](auto& o, auto&, auto& m, auto&) { o = ef::Options(std::map<S, OV>{{"a", 1.0}, {"c", false}}); m = {{"a", {OV(1.0)}}, {"c", {OV(false)}}}; }}, {"other set a", [](auto&, auto& p, auto&, auto& n) { p.setOption("a", -4); n["a"] = {OV(-4)}; }},
        {"print", [](auto& o, auto&, auto&, auto&) { std::ostringstream s; s << o; }}, {"bad file name", [](auto& o, auto&, auto&, auto&) { for (S f : {"x.txt", "x", "", "in"}) { bool t = false; try { o.setFromFile(f); } catch (std::invalid_argument&) { t = true; } if (!t) violation("file name '" + f + "'", "a name that is no option file is not rejected"); } }} };
    for (int l = 1; l <= (th ? 5 : 4); l++) for (auto& t : tuples(l, ops.size())) { S id = "history"; for (int i : t) id += " | " + ops[i].n; if (!vk::begin(id)) continue; ctx().distinct++; ctx().states += l; ctx().traces++; if (l == 4) sample(id);
        nothrow(id, [&] { ef::Options o, p; Model m, n; for (int i : t) { ops[i].f(o, p, m, n); compare(id, o, m, {"a", "b", "c"}); compare(id + " (other)", p, n, {"a", "b", "c"}); } }); }
}

// ================================ C17 =================================================================
struct PN { S name; SV<std::pair<S, S>> attr; S text; SV<PN> ch; bool textlate = false; };
struct PS { SV<PN*> st; PN root; bool seen = false; };
static bool parse(const S& file, PN& out, S& err) {
    std::ifstream f(file, std::ios::binary); S t((std::istreambuf_iterator<char>(f)), {}); PS ps; XML_Parser p = XML_ParserCreate(nullptr); XML_SetUserData(p, &ps);
    XML_SetElementHandler(p, [](void* u, const char* n, const char** a) { auto& s = *(PS*) u; PN* x; if (s.st.empty()) { x = &s.root; s.seen = true; } else { s.st.back()->ch.emplace_back(); x = &s.st.back()->ch.back(); } x->name = n; for (int i = 0; a[i]; i += 2) x->attr.push_back({a[i], a[i + 1]}); s.st.push_back(x); }, [](void* u, const char*) { ((PS*) u)->st.pop_back(); });
    XML_SetCharacterDataHandler(p, [](void* u, const char* c, int l) { auto& s = *(PS*) u; if (!s.st.empty()) { S d(c, l); if (s.st.back()->ch.size() && trim(d) != "") s.st.back()->textlate = true; s.st.back()->text += d; } });
    bool ok = XML_Parse(p, t.data(), t.size(), 1) == XML_STATUS_OK; if (!ok) err = cat("line ", XML_GetCurrentLineNumber(p), ": ", XML_ErrorString(XML_GetErrorCode(p))); XML_ParserFree(p); out = ps.root; return ok;
}
static S differs(const PN& a, const PN& b) {   // got, expected
    if (a.name != b.name) return "tag '" + a.name + "', expected '" + b.name + "'"; if (a.attr != b.attr) { S s = "attributes of '" + a.name + "':"; for (auto& [k, v] : a.attr) s += " " + k + "='" + vis(v) + "'"; s += ", expected"; for (auto& [k, v] : b.attr) s += " " + k + "='" + vis(v) + "'"; return s; }
    if (trim(a.text) != trim(b.text)) return "text '" + vis(trim(a.text)) + "', expected '" + vis(trim(b.text)) + "'"; if (a.ch.size() != b.ch.size()) return cat(a.ch.size(), " children, expected ", b.ch.size());
    for (size_t i = 0; i < a.ch.size(); i++) { auto d = differs(a.ch[i], b.ch[i]); if (d != "") return d; } return "";
}
static S slurp(const S& f) { std::ifstream i(f, std::ios::binary); return S((std::istreambuf_iterator<char>(i)), {}); }
static int count(const PN& p) { int k = 1; for (auto& c : p.ch) k += count(c); return k; }
static void xbuild(const PN& p, std::list<ef::XMLNode>& pool, ef::XMLNode& n, int& k) { for (auto& [a, v] : p.attr) n.addAttribute(a, v); n.data = p.text; for (auto& c : p.ch) { ef::XMLNode* x; if (k++ % 2) { pool.emplace_back(c.name); x = &pool.back(); } else { pool.emplace_back(); x = &pool.back(); x->name = c.name; } if (k % 3) { xbuild(c, pool, *x, k); n.addChild(x); } else { n.addChild(*x); xbuild(c, pool, *x, k); } } }
static S xsame(const ef::XMLNode& n, const PN& p) { if (n.name != p.name || n.attributes != p.attr || n.data != p.text || n.children.size() != p.ch.size()) return "writing changes node '" + p.name + "'"; for (size_t i = 0; i < p.ch.size(); i++) { auto d = xsame(*n.children[i], p.ch[i]); if (d != "") return d; } return ""; }
static void xml_check(const S& id, const PN& p) {
    ctx().transitions++; ctx().states += count(p); ctx().traces++; ctx().distinct++;
    S f = ctx().scratch + "/t.xml", g = ctx().scratch + "/u.xml"; std::list<ef::XMLNode> pool; int k = 0; pool.emplace_back(p.name); auto& root = pool.back(); PN got; S err;
    put(g, S(3000, 'x'));
    ef::XMLTree t(root); xbuild(p, pool, root, k); t.write(f); S s1 = slurp(f); t.write(g); S s2 = slurp(g); t.write(f); S s3 = slurp(f); ef::XMLTree t2(root); t2.write(g); S s4 = slurp(g);
    if (s1 != s2 || s1 != s3 || s1 != s4) violation(id + " repeat", "writing the same tree again gives a different file");
    if (!parse(f, got, err)) return violation(id + " form", "not well-formed: " + err); auto d = differs(got, p); if (d != "") violation(id + " content", d); d = xsame(root, p); if (d != "") violation(id + " tree", d);
}
static SV<PN> shapes(int n); static SV<SV<PN>> forests(int n) { SV<SV<PN>> r; if (n == 0) { r.push_back({}); return r; } for (int k = 1; k <= n; k++) for (auto& a : shapes(k)) for (auto& b : forests(n - k)) { auto c = b; c.insert(c.begin(), a); r.push_back(c); } return r; }
static SV<PN> shapes(int n) { SV<PN> r; for (auto& f : forests(n - 1)) { PN p; p.name = "n"; p.ch = f; r.push_back(p); } return r; }
static void decorate(PN& p, const SV<int>& d, size_t& k, const SV<PN>& kinds) { auto ch = p.ch; p = kinds[d[k++]]; p.ch = ch; for (auto& c : p.ch) decorate(c, d, k, kinds); }
static void xml_part() {
    bool th = ctx().thorough();
    auto ss = strings({"a", " ", "<", ">", "&", "\"", "'", "\n", "\t", "\r", "]", ";", "\xc3\xa9"}, 3); for (S w : {"&amp;", "&lt;b&gt;", "<a b=\"c\">", "</n>", "<!-- c -->", "]]>", "<![CDATA[x]]>", "&#10;", "a & b < c > d \"e\" 'f'", "0 1 2\n3 4 5", "  lead", "trail  ", "%d %s", "\\n", "\xe2\x82\xac"}) ss.push_back(w); ss.push_back(S(5000, 'y')); { S n; for (int i = 0; i < 3000; i++) n += cat(i * 0.37, i % 10 == 9 ? "\n" : " "); ss.push_back(n); }
    if (th) { auto s4 = strings({"a", " ", "<", ">", "&", "\"", "\n", "\r", ";", "#"}, 4); ss.insert(ss.end(), s4.begin(), s4.end()); }
    for (size_t i = 0; i < ss.size(); i++) { S id = "string " + vis(ss[i]).substr(0, 60) + cat(" #", i); if (!vk::begin(id)) continue; if (i % 300 == 0) sample(id);
        PN a; a.name = "n"; a.attr = {{"k", ss[i]}}; xml_check(id + " as attribute", a); PN b; b.name = "n"; b.text = ss[i]; xml_check(id + " as text", b);
        PN c; c.name = "VTKFile"; c.attr = {{"type", "x"}, {"k2", ss[i]}, {"z", "<"}}; c.text = ss[i]; PN d; d.name = "Data.Array_1-b"; d.text = ss[ss.size() - 1 - i]; d.attr = {{"v", ss[i]}}; PN e; e.name = "c"; c.ch = {d, e}; xml_check(id + " in a small tree", c); }
    SV<PN> kinds(5); kinds[0].name = "p"; kinds[1].name = "q"; kinds[1].attr = {{"a", "1<2"}}; kinds[2].name = "r"; kinds[2].text = "x & y"; kinds[3].name = "s"; kinds[3].attr = {{"a", ""}, {"b", "\"v\""}}; kinds[3].text = "1 2\n3"; kinds[4].name = "p"; kinds[4].attr = {{"b", "\n"}}; kinds[4].text = "<p>";
    for (int n = 1; n <= (th ? 6 : 5); n++) { auto sh = shapes(n); SV<PN> ks(kinds.begin(), kinds.begin() + (n <= 4 ? 5 : th && n == 5 ? 5 : 3)); auto ds = tuples(n, ks.size()); for (size_t s = 0; s < sh.size(); s++) for (auto& d : ds) { S id = cat("tree n=", n, " shape=", s, " nodes=", show(d)); if (!vk::begin(id)) continue; if (n == 4) sample(id); PN p = sh[s]; size_t k = 0; decorate(p, d, k, ks); xml_check(id, p); } }
    { SV<S> nm; for (int len = 1; len <= 4; len++) for (int c = 0; c < 1 << len; c++) { S t; for (int i = 0; i < len; i++) t += c >> i & 1 ? 'b' : 'a'; nm.push_back(t); } for (S t : {"A", "x:y", "_", "a-b", "a.b", "n1", "xml-", "name", "Name", "data", "\xc3\xa9"}) nm.push_back(t);
      for (auto& x : nm) for (auto& y : nm) if (x != y) { S id = "names " + x + " " + y; if (!vk::begin(id)) continue; PN p; p.name = y; p.attr = {{x, "1"}, {y, "1"}}; PN q; q.name = x; q.attr = {{y, x}, {x, y}}; q.ch = {p, p}; xml_check(id, q); PN u; u.name = x; u.ch = {q, p}; xml_check(id + " nested", u); } }
    for (int m = 3; m <= (th ? 80 : 40); m++) { S id = cat("attributes ", m); if (vk::begin(id)) { PN p = kinds[2]; p.attr.clear(); for (int i = 0; i < m; i++) p.attr.push_back({cat("a", i), i % 7 == 3 ? S("<&>\"") : i % 5 == 2 ? S() : S(i, 'v')}); xml_check(id, p); PN q = kinds[3]; q.ch = {p, kinds[0], p}; xml_check(id + " nested", q); } }
    for (int d1 = 1; d1 <= 12; d1++) for (int w = 1; w <= 12; w += d1 > 6 ? 5 : 1) { S id = cat("comb ", d1, "x", w); if (vk::begin(id)) { PN p = kinds[2]; for (int i = 0; i < d1; i++) { PN q = kinds[(i + w) % 5]; for (int k = 0; k < w; k++) q.ch.push_back(k == w / 2 ? p : kinds[(k + i) % 5]); p = q; } xml_check(id, p); } }
    for (int depth : {20, 200}) { S id = cat("chain ", depth); if (vk::begin(id)) { PN p = kinds[1]; for (int i = 0; i < depth; i++) { PN q = kinds[i % 5]; q.ch = {p}; p = q; } xml_check(id, p); } id = cat("fan ", depth); if (vk::begin(id)) { PN p = kinds[1]; for (int i = 0; i < depth; i++) p.ch.push_back(kinds[i % 5]); xml_check(id, p); } }
}

// ================================ C22 =================================================================
static bool g_fake = false; static long long g_now = 0;                 // scripted clock, nanoseconds
extern "C" int clock_gettime(clockid_t id, struct timespec* t) { if (g_fake) { t->tv_sec = g_now / 1000000000LL; t->tv_nsec = g_now % 1000000000LL; return 0; } return syscall(SYS_clock_gettime, id, t); }
template <class T> static void cache_hist(const S& tn, const SV<T>& v, std::function<bool(const T&, const T&)> eq, int depth) {
    SV<S> keys = {"a", "ab", ""}; using C = ef::DataCache<T>; using Mo = std::map<S, T>;
    struct St { C c, d; Mo m, n; };
    struct Op { S name; std::function<void(St&)> f; }; SV<Op> ops; static SV<S> err; err.clear();
    for (size_t k = 0; k < keys.size(); k++) { auto key = keys[k]; ops.push_back({"store '" + key + "'", [=](St& s) { s.c[key] = v[k]; s.m[key] = v[k]; }}); ops.push_back({"read '" + key + "'", [=](St& s) { if (!eq(s.c[key], s.m[key])) err.push_back("reading '" + key + "' gives another value"); }}); ops.push_back({"contains '" + key + "'", [=](St& s) { if (s.c.contains(key) != (s.m.count(key) > 0)) err.push_back("containment of '" + key + "' is wrong"); }}); }
    ops.push_back({"store other 'a'", [=](St& s) { s.d["a"] = v[3]; s.n["a"] = v[3]; }}); ops.push_back({"overwrite 'a'", [=](St& s) { s.c["a"] = v[3]; s.m["a"] = v[3]; }}); ops.push_back({"other=cache", [=](St& s) { s.d = s.c; s.n = s.m; }}); ops.push_back({"cache=copy(other)", [=](St& s) { s.c = C(s.d); s.m = s.n; }});
    ops.push_back({"cache=from map", [=](St& s) { Mo x{{"ab", v[3]}, {"b", v[0]}}; s.c = C(x); x["ab"] = v[1]; s.m = {{"ab", v[3]}, {"b", v[0]}}; }}); ops.push_back({"modify in place", [=](St& s) { T& r = s.c["ab"]; r = v[2]; s.m["ab"] = v[2]; }}); ops.push_back({"clear", [=](St& s) { s.c = C(); s.m.clear(); }});
    std::function<void(const St&, int, const S&)> go = [&](const St& s, int left, const S& h) {
        if (!left) return;
        for (auto& op : ops) { St t = s; err.clear(); op.f(t); ctx().transitions++; ctx().states++; S h2 = h + " | " + op.name; for (auto& e : err) violation("cache<" + tn + ">" + h2, e);
            for (int w = 0; w < 2; w++) { auto& c = w ? t.d : t.c; auto& m = w ? t.n : t.m; for (S k : {"a", "ab", "", "b", "A", "a "}) { bool has = m.count(k); if (c.contains(k) != has) { violation("cache<" + tn + ">" + h2, "containment of '" + k + "' is wrong"); } } C cc(c); for (auto& [k, x] : m) if (!eq(cc[k], x)) violation("cache<" + tn + ">" + h2, "value of '" + k + "' is not the last one stored"); }
            if (left == 1) ctx().traces++; go(t, left - 1, h2); }
    };
    for (size_t i = 0; i < ops.size(); i++) for (size_t j = 0; j < ops.size(); j++) { S id = cat("cache<", tn, "> ", ops[i].name, " | ", ops[j].name, " ..."); if (!vk::begin(id)) continue; ctx().distinct++; sample(id); St s; ops[i].f(s); ops[j].f(s); go(s, depth - 2, " | " + ops[i].name + " | " + ops[j].name); }
}
// many names: every order of insertion, overwriting, removing by replacement, copies
static void cache_large(int N) {
    SV<S> names; for (int i = 0; i < N; i++) names.push_back(i % 4 == 0 ? cat("T", i) : i % 4 == 1 ? cat("operator_", i / 4, "_level") : i % 4 == 2 ? S(i / 4 + 1, 'x') : cat(i));
    for (int order = 0; order < 6; order++) { S id = cat("cache with ", N, " names, order ", order); if (!vk::begin(id)) continue; ctx().distinct++; sample(id); ef::DataCache<int> c; std::map<S, int> m; S e;
        SV<int> ix; for (int i = 0; i < N; i++) ix.push_back(i); if (order == 1) std::reverse(ix.begin(), ix.end()); if (order >= 2) { static const int st[4] = {7, 37, 101, 211}; ix.clear(); int k = 0; SV<bool> in(N); for (int i = 0; i < N; i++) { k = (k + st[order - 2]) % N; while (in[k]) k = (k + 1) % N; in[k] = true; ix.push_back(k); } }
        auto all = [&](ef::DataCache<int>& d, const char* when) { for (auto& n : names) { bool h = m.count(n); if (d.contains(n) != h) e = cat(when, ": containment of '", n.substr(0, 40), "' is wrong"); else if (h && d[n] != m[n]) e = cat(when, ": value of '", n.substr(0, 40), "' is not the last one stored"); ctx().transitions++; } };
        int step = 0; for (int i : ix) { c[names[i]] = i * 3 + 1; m[names[i]] = i * 3 + 1; ctx().states++; if (step < 40 || step % 64 == 0) all(c, "after storing"); step++; }
        all(c, "filled"); for (int i = 0; i < N; i += 3) { c[names[i]] = -i; m[names[i]] = -i; ctx().states++; } all(c, "overwritten");
        ef::DataCache<int> d(c), f; f = c; all(d, "copied"); all(f, "assigned"); d["T0"] = 77777; f["T4"] = 88888; all(c, "after changing copies"); ef::DataCache<int> g(m); all(g, "from a map"); ctx().traces++; if (e != "") violation(id, e); }
}
static void timer_long() {
    for (int n : {1, 10, 100, 1000, 5000}) for (long long step : {1LL, 999LL, 1000000007LL, 3600000000000LL}) for (int mode = 0; mode < 3; mode++) { S id = cat("timer ", n, " intervals of ", step, "ns mode ", mode); if (!vk::begin(id)) continue; ctx().distinct++; ef::Timer t; g_fake = true; g_now = 4000000000000LL; double tot = 0; S e;
        for (int i = 0; i < n; i++) { t.start(); long long d = step * (mode == 1 ? 1 + i % 5 : 1); g_now += d; double r = t.stop(); tot += d * 1e-9; ctx().transitions++; ctx().states++; if (std::abs(r - d * 1e-9) > 1e-12 * (1 + d * 1e-9)) e = cat("interval ", i, ": stop returns ", r); if (std::abs(t.time() - tot) > 1e-12 * (1 + tot) + 1e-13 * tot) e = cat("after ", i + 1, " intervals the total is ", t.time(), ", expected ", tot); if (mode != 2) g_now += 17 * step; if (mode == 2 && i % 100 == 99) { t.restart(); tot = 0; if (t.time() != 0) e = "restart does not reset"; } }
        g_fake = false; ctx().traces++; if (e != "") violation(id, e); }
}
static void timer_hist(int depth) {
    // two named timers of the application object and a scripted clock
    struct TM { bool started = false; long long st = 0; bool since = false; double tot = 0; };
    struct St { std::map<S, ef::Timer> real; TM m[2]; long long now; };
    enum { START, STOP, RESTART, N1, N2, N3 }; static const long long D[3] = {500000000LL, 3000000001LL, 7LL};
    std::function<void(const St&, int, const S&)> go = [&](const St& s, int left, const S& h) {
        if (!left) return;
        for (int op = 0; op < 13; op++) {
            int w = op / 5, o = op % 5; St t = s; S nm = w == 0 ? "t0" : "t1"; g_fake = true; g_now = t.now; S h2 = h; S e;
            if (op >= 10) { t.now += D[op - 10]; h2 += cat(" | wait ", D[op - 10], "ns"); }
            else {
                auto& r = t.real[nm]; auto& m = t.m[w];
                if (o == 0) { r.start(); m.started = true; m.since = true; m.st = t.now; h2 += " | start " + nm; }
                else if (o == 1) { if (!m.since) { g_fake = false; continue; } double d = r.stop(), x = (t.now - m.st) * 1e-9; m.tot += x; h2 += " | stop " + nm; if (std::abs(d - x) > 1e-12 * (1 + x)) e = cat("stop returns ", d, ", the interval is ", x); }
                else if (o == 2) { r.restart(); m.tot = 0; m.since = false; h2 += " | restart " + nm; }
                else if (o == 3) { r = ef::Timer(); m = TM(); h2 += " | replace " + nm; }
                else { r.time(); ef::Timer c = r; if (c.time() != r.time()) e = "a copied timer has another total"; h2 += " | read+copy " + nm; }
            }
            for (int k = 0; k < 2; k++) { double a = t.real[k ? "t1" : "t0"].time(); if (std::abs(a - t.m[k].tot) > 1e-12 * (1 + t.m[k].tot)) e = cat("total of t", k, " is ", a, ", expected ", t.m[k].tot); }
            g_fake = false; ctx().transitions++; ctx().states++; if (e != "") violation("timer" + h2, e); if (left == 1) ctx().traces++;
            go(t, left - 1, h2);
        }
    };
    // shard over the first two operations by replaying prefixes
    St s0; s0.now = 1000000000000LL; s0.real["t0"]; s0.real["t1"]; s0.real["app"];
    for (int pre = 0; pre < 8; pre++) { S id = cat("timer prefix ", pre); if (!vk::begin(id)) continue; ctx().distinct++; sample(cat(id, ": all histories of ", depth, " more operations (start/stop/restart/replace/copy on two timers, three waits)")); St s = s0; S h; g_fake = true; g_now = s.now;
        if (pre & 1) { s.real["t0"].start(); s.m[0] = {true, s.now, true, 0}; h += " | start t0"; } if (pre & 2) { s.now += D[0]; g_now = s.now; h += " | wait"; } if (pre & 4) { s.real["t1"].start(); s.m[1] = {true, s.now, true, 0}; h += " | start t1"; s.now += 250000000LL; h += " | wait"; } g_fake = false; go(s, depth, h); }
}
static void app_timers() {
    S id = "timers of the application object"; if (!vk::begin(id)) return; sample(id); ctx().distinct++;
    auto* app = new ef::EllipticForestApp();       // never destroyed: its destructor finalizes MPI
    for (auto& t : tuples(5, 6)) { app->timers.clear(); g_fake = true; g_now = 5000000000LL; double tot[2] = {0, 0}; bool run[2] = {}, has[2] = {}; long long st[2]; S h; ctx().traces++;
        for (int o : t) { ctx().transitions++; ctx().states++; int w = o & 1; S n = w ? "y" : "x"; if (o < 2) { app->addTimer(n); has[w] = true; run[w] = false; tot[w] = 0; h += " | add " + n; } else if (!has[w]) continue; else if (o < 4) { app->timers[n].start(); run[w] = true; st[w] = g_now; h += " | start " + n; } else if (run[w]) { double d = app->timers[n].stop(); tot[w] += (g_now - st[w]) * 1e-9; if (std::abs(d - (g_now - st[w]) * 1e-9) > 1e-12) violation(id + h + " | stop " + n, "wrong interval"); run[w] = false; h += " | stop " + n; } g_now += 125000000LL;
            for (int k = 0; k < 2; k++) if (has[k] && (!app->timers.count(k ? "y" : "x") || std::abs(app->timers[k ? "y" : "x"].time() - tot[k]) > 1e-12)) violation(id + h, "wrong total or missing timer"); }
        g_fake = false; }
    // many timers at once: each keeps its own total, adding again starts one over and leaves the rest alone
    for (int n : {5, 12, 13, 20, 64, 65, 300}) { S id2 = cat("many timers ", n); ctx().states++; ctx().traces++; app->timers.clear(); g_fake = true; g_now = 5000000000LL; SV<double> tot(n, 0.); auto name = [](int i) { return cat("timer ", i * 37 % 1000); };
        auto look = [&](const S& w) { ctx().transitions++; if ((int) app->timers.size() != n) violation(id2 + w, cat(app->timers.size(), " timers")); for (int i = 0; i < n; i++) if (!app->timers.count(name(i)) || std::abs(app->timers[name(i)].time() - tot[i]) > 1e-12 * (1 + tot[i])) { violation(id2 + w, cat("timer ", i, " has a wrong total or is missing, expected ", tot[i])); return; } };
        for (int i = 0; i < n; i++) app->addTimer(name(i)); look(" after adding"); for (int i = 0; i < n; i++) { app->timers[name(i)].start(); g_now += 1000000LL * (i + 1); } for (int i = n - 1; i >= 0; i--) { g_now += 3000000LL; app->timers[name(i)].stop(); tot[i] = 0; for (int j = i; j < n; j++) tot[i] += 0.001 * (j + 1); tot[i] += 0.003 * (n - i); } look(" after running");
        for (int i = 0; i < n; i += n > 100 ? 17 : 1) { app->addTimer(name(i)); tot[i] = 0; look(cat(" adding ", i, " again")); app->timers[name(i)].start(); g_now += 5000000LL; app->timers[name(i)].stop(); tot[i] = 0.005; look(cat(" running ", i, " again")); } g_fake = false; }
}
static void record_part() {
    bool th = ctx().thorough();
    cache_hist<int>("int", {11, 22, 33, 44}, [](const int& a, const int& b) { return a == b; }, th ? 6 : 5);
    cache_hist<S>("string", {"p", "q", "", "s"}, [](const S& a, const S& b) { return a == b; }, th ? 5 : 4);
    using MM = ef::Matrix<double>; cache_hist<MM>("Matrix", {MM(1, 2, 3.0), MM(2, 1, 4.0), MM(2, 2, 5.0), MM(1, 1, 6.0)}, [](const MM& a, const MM& b) { return a.nRows() == b.nRows() && a.nCols() == b.nCols() && const_cast<MM&>(a).data() == const_cast<MM&>(b).data(); }, th ? 4 : 4);
    for (int n : {5, 17, 64, 300, 1000}) cache_large(n);
    timer_hist(th ? 6 : 5); timer_long(); app_timers();
}
int main(int argc, char** argv) {
    S mode; for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) mode = argv[i + 1];
    if (mode == "interp") { start(argc, argv); interp_part(); return stop(); }          // vectors need MPI
    if (mode == "record") start(argc, argv); else { vk::init(argc, argv); vk::quiet(); }
    if (mode == "options") options_part(); else if (mode == "xml") xml_part(); else { record_part(); return stop(); }
    vk::finish(); return 0;
}
