/* p4est_search_reorder exists in newer p4est releases than the installed one; the library's headers call it.
   Force-included so that /repo's headers parse as they are; defined in shim.cpp. */
#pragma once
#include <functional>
#include <stdexcept>
#include <cassert>
#include <p4est_extended.h>
#include <p4est_search.h>
#ifdef __cplusplus
extern "C" {
#endif
void p4est_search_reorder(p4est_t* p4est, int skip_levels, sc_array_t* reorder, p4est_search_local_t pre, p4est_search_local_t post, p4est_search_local_t point, sc_array_t* points);
#ifdef __cplusplus
}
#endif
