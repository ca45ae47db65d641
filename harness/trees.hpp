// Enumeration of quadtree shapes.  A shape is a string in preorder: 'L' leaf, 'S' split followed by 4 shapes.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cstdio>
namespace trees {
constexpr long ROOT = 1L << 18;   // trees up to this depth
struct Cell { std::string path; int level; long x, y, s; bool leaf; };  // integer coordinates on a root of size ROOT
inline void walk_(const std::string& t, size_t& p, const std::string& path, long x, long y, long s, int lev, std::vector<Cell>& pre, std::vector<Cell>* post) {
    char c = t[p++];
    Cell me{path, lev, x, y, s, c == 'L'};
    pre.push_back(me);
    if (c == 'S') for (int k = 0; k < 4; k++) walk_(t, p, path + char('0' + k), x + (k & 1) * (s / 2), y + (k >> 1) * (s / 2), s / 2, lev + 1, pre, post);
    if (post) post->push_back(me);
}
inline std::vector<Cell> preorder(const std::string& t) { std::vector<Cell> v; size_t p = 0; walk_(t, p, "0", 0, 0, ROOT, 0, v, nullptr); return v; }
inline std::vector<Cell> postorder(const std::string& t) { std::vector<Cell> v, w; size_t p = 0; walk_(t, p, "0", 0, 0, ROOT, 0, v, &w); return w; }
inline std::vector<Cell> leaves(const std::string& t) { std::vector<Cell> r; for (auto& c : preorder(t)) if (c.leaf) r.push_back(c); return r; }
inline std::vector<std::string> all(int depth) {
    if (depth == 0) return {"L"};
    auto sub = all(depth - 1);
    std::vector<std::string> r = {"L"};
    for (auto& a : sub) for (auto& b : sub) for (auto& c : sub) for (auto& d : sub) r.push_back("S" + a + b + c + d);
    return r;
}
inline bool balanced(const std::string& t) {
    auto L = leaves(t);
    for (auto& a : L) for (auto& b : L)
        if (a.s > 2 * b.s && a.x <= b.x + b.s && b.x <= a.x + a.s && a.y <= b.y + b.s && b.y <= a.y + a.s) return false;
    return true;
}
inline std::string uniform(int level) { if (level == 0) return "L"; auto s = uniform(level - 1); return "S" + s + s + s + s; }
inline int depth(const std::string& t) { int d = 0; for (auto& c : preorder(t)) d = std::max(d, c.level); return d; }
inline int count_leaves(const std::string& t) { int n = 0; for (char c : t) n += c == 'L'; return n; }
// number of splits at the given level
inline int splits_at(const std::string& t, int level) { int n = 0; for (auto& c : preorder(t)) n += !c.leaf && c.level == level; return n; }
}
