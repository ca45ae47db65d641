#pragma once
// Interface between the instrumented singleton clients (single_tsan.cpp) and the controlled scheduler (h_single.cpp).
struct Scenario { const char* name; int nthreads; void (*body)(int tid); };
extern "C" {
void hk_ctor_begin(const void* p, int cls); void hk_ctor_end(const void* p, int cls); void hk_dtor(const void* p, int cls);
void hk_got(const void* p, int cls); void hk_bad(const char* what); void hk_threw(int cls);
int hk_should_throw(int cls);      // scripted: this construction attempt fails
}
extern const Scenario scenarios[]; extern const int n_scenarios;
