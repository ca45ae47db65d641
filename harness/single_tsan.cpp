// Clients of GenericSingleton, compiled with -fsanitize=thread so that every memory access calls into the
// controlled scheduler of h_single.cpp (no ThreadSanitizer runtime is linked).
#include "GenericSingleton.hpp"
#include "EllipticForestApp.hpp"
#include "sched.hpp"
#include <stdexcept>
namespace ef = EllipticForest;
template <int K> struct Obj : ef::GenericSingleton<Obj<K>> {
    int a = 1; int* heap; int b;
    Obj() { hk_ctor_begin(this, K); heap = new int[2]; heap[0] = 7; b = 2; heap[1] = 8; if (K == 1 && hk_should_throw(K)) { delete[] heap; throw std::runtime_error("construction fails"); } if constexpr (K == 2) { auto& o = Obj<0>::getInstance(); hk_got(&o, 0); a = o.a; } hk_ctor_end(this, K); }
    void check() { if (a != 1 || b != 2 || heap[0] != 7 || heap[1] != 8) hk_bad("a caller sees an object that is not fully constructed"); }
};
template <int K> static Obj<K>* get() {
    try { Obj<K>& o = Obj<K>::getInstance(); hk_got(&o, K); o.check(); return &o; } catch (std::runtime_error&) { hk_threw(K); return nullptr; }
}
template <int K> static void twice() { auto* p = get<K>(); auto* q = get<K>(); if (p && q && p != q) hk_bad("the same thread gets two different objects"); }
static void app(int) { auto& a = ef::EllipticForestApp::getInstance(); hk_got(&a, 5); if (!a.options.optionExists("given")) hk_bad("the application object has lost its options"); auto& b = ef::EllipticForestApp::getInstance(); hk_got(&b, 5); }
const Scenario scenarios[] = {
    {"two threads, once", 2, [](int) { get<0>(); }}, {"two threads, twice", 2, [](int) { twice<0>(); }},
    {"three threads, once", 3, [](int) { get<0>(); }}, {"four threads, once", 4, [](int) { get<0>(); }}, {"three threads, twice", 3, [](int) { twice<0>(); }},
    {"two threads, first constructions fail", 2, [](int) { get<1>(); get<1>(); get<1>(); }}, {"three threads, first constructions fail", 3, [](int) { get<1>(); get<1>(); }},
    {"two objects in opposite order", 2, [](int t) { if (t) { get<0>(); get<3>(); } else { get<3>(); get<0>(); } }},
    {"one object's constructor uses another", 2, [](int t) { get<2>(); get<0>(); }}, {"one object's constructor uses another, opposite order", 2, [](int t) { if (t) { get<0>(); get<2>(); } else { get<2>(); get<0>(); } }},
    {"one object's constructor uses another, three threads", 3, [](int t) { if (t) get<2>(); else get<0>(); }},
    {"four threads, twice (deep)", 4, [](int) { twice<0>(); }}, {"four threads, first constructions fail (deep)", 4, [](int) { get<1>(); get<1>(); }}, {"nested constructions, four threads (deep)", 4, [](int t) { if (t % 2) { get<2>(); get<3>(); } else { get<0>(); get<2>(); } }},
    {"application object, two threads", 2, app}, {"application object, three threads", 3, app},
};
const int n_scenarios = sizeof(scenarios) / sizeof(*scenarios);
