// Reading XML files back with expat.
#pragma once
#include "vk.hpp"
#include <expat.h>
namespace xr {
using S = std::string; template <class T> using SV = std::vector<T>;
struct Node { S name; SV<std::pair<S, S>> attr; S text; SV<Node> ch; S at(const S& k) const { for (auto& [a, v] : attr) if (a == k) return v; return "\x01missing"; } SV<const Node*> all(const S& n) const { SV<const Node*> r; for (auto& c : ch) if (c.name == n) r.push_back(&c); return r; } };
struct State { SV<Node*> st; Node root; };
inline bool read(const S& file, Node& out, S& err) {
    std::ifstream f(file, std::ios::binary); if (!f) { err = "file is missing"; return false; }
    S t((std::istreambuf_iterator<char>(f)), {}); State ps; XML_Parser p = XML_ParserCreate(nullptr); XML_SetUserData(p, &ps);
    XML_SetElementHandler(p, [](void* u, const char* n, const char** a) { auto& s = *(State*) u; Node* x; if (s.st.empty()) x = &s.root; else { s.st.back()->ch.emplace_back(); x = &s.st.back()->ch.back(); } x->name = n; for (int i = 0; a[i]; i += 2) x->attr.push_back({a[i], a[i + 1]}); s.st.push_back(x); },
        [](void* u, const char*) { ((State*) u)->st.pop_back(); });
    XML_SetCharacterDataHandler(p, [](void* u, const char* c, int l) { auto& s = *(State*) u; if (!s.st.empty()) s.st.back()->text += S(c, l); });
    bool ok = XML_Parse(p, t.data(), t.size(), 1) == XML_STATUS_OK; if (!ok) err = vk::cat("line ", XML_GetCurrentLineNumber(p), ": ", XML_ErrorString(XML_GetErrorCode(p)));
    XML_ParserFree(p); out = ps.root; return ok;
}
}
