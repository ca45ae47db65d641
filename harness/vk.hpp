// Common support for the exhaustive harnesses: case identity, sharding, reporting.
// A "case" is one execution of the code under test, identified by a string that determines it
// completely, so that   harness --only <id>   replays exactly that execution.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <stdexcept>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vk {

struct Violation { std::string key, what, id; };

struct Ctx {
    std::string out = "/dev/stdout";
    std::string tier = "quick";
    std::string only;
    bool have_only = false;
    bool stop = false, shared = false;   // no further cases; cases are run by several processes in step
    long seed = 1;
    int shard = 0, nshards = 1;
    std::string scratch = "/tmp";
    char* crash = nullptr;            // shared memory: id of the running case
    long index = 0;
    // measured coverage
    long cases = 0;                   // executions of the code under test
    long states = 0, transitions = 0; // explored states / transitions (operations, messages, ...)
    long distinct = 0;                // distinct non-trivial cases
    long traces = 0;                  // model traces replayed against the implementation
    std::vector<std::string> samples;
    std::vector<Violation> viol;
    std::map<std::string,long> extra;
    std::set<std::string> vkeys;
    std::string cur;
    bool exhaustive = true;
    bool thorough() const { return tier == "thorough"; }
};
inline Ctx& ctx() { static Ctx c; return c; }

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

inline void init(int argc, char** argv) {
    Ctx& c = ctx();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") c.out = next();
        else if (a == "--tier") c.tier = next();
        else if (a == "--only") { c.only = next(); c.have_only = true; }
        else if (a == "--seed") c.seed = atol(next().c_str());
        else if (a == "--scratch") c.scratch = next();
        else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%d/%d", &c.shard, &c.nshards); }
        else if (a == "--crash") {
            std::string f = next();
            int fd = open(f.c_str(), O_RDWR | O_CREAT, 0644);
            if (ftruncate(fd, 8192)) {}
            void* m = mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            c.crash = m == MAP_FAILED ? nullptr : (char*)m;
            if (c.crash) c.crash[0] = 0;
        }
    }
}

// Announce a case; returns true if this process has to run it.
inline bool begin(const std::string& id) {
    Ctx& c = ctx();
    long k = c.index++;
    if (c.have_only) { if (id != c.only) return false; }
    else if (k % c.nshards != c.shard) return false;
    else if (c.stop || (!c.shared && c.vkeys.size() > 40 && c.tier == "quick")) { c.exhaustive = false; return false; }   // enough failing cases are known
    c.cur = id;
    c.cases++;
    if (c.crash) { strncpy(c.crash, id.c_str(), 8000); c.crash[8000] = 0; }
    return true;
}
inline void sample(const std::string& s) { if (ctx().samples.size() < 6) ctx().samples.push_back(s); }

inline void violation(const std::string& key, const std::string& what) {
    Ctx& c = ctx();
    c.extra["violating_cases"]++;
    // one report per key per process (keys name the failing input / call site / history)
    if (c.vkeys.size() > 40 || !c.vkeys.insert(key).second) return;
    c.viol.push_back({key, what, c.cur});
}

inline void finish() {
    Ctx& c = ctx();
    if (c.crash) c.crash[0] = 0;
    std::ofstream f(c.out);
    f << "{\"cases\":" << c.cases << ",\"states\":" << c.states << ",\"transitions\":" << c.transitions
      << ",\"distinct\":" << c.distinct << ",\"traces\":" << c.traces << ",\"exhaustive\":" << (c.exhaustive ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < c.samples.size(); i++) f << (i ? "," : "") << "\"" << jesc(c.samples[i]) << "\"";
    f << "],\"extra\":{";
    bool first = true;
    for (auto& [k, v] : c.extra) { f << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
    f << "},\"violations\":[";
    for (size_t i = 0; i < c.viol.size(); i++)
        f << (i ? "," : "") << "{\"key\":\"" << jesc(c.viol[i].key) << "\",\"what\":\"" << jesc(c.viol[i].what) << "\",\"id\":\"" << jesc(c.viol[i].id) << "\"}";
    f << "]}" << std::endl;
    f.close();
}

template<class... A> std::string cat(A&&... a) { std::ostringstream o; o.precision(17); (o << ... << a); return o.str(); }
template<class V> std::string show(const V& v) { std::ostringstream o; o.precision(10); o << "["; bool f = true; for (auto& x : v) { o << (f ? "" : ",") << x; f = false; } o << "]"; return o.str(); }

// Silence stdout/stderr chatter of the code under test.
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
inline void quiet() { static NullBuf nb; std::cerr.rdbuf(&nb); std::cout.rdbuf(&nb); }

} // namespace vk
