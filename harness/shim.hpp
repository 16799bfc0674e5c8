// Stand-ins for two external routines this sandbox does not have; force-included everywhere.
//  * p4est_search_reorder: newer p4est than the installed 2.3.6.
//  * hstcrt_: FISHPACK90.  Declared weak here, defined in shim.cpp.
#ifndef VERIF_SHIM_HPP_
#define VERIF_SHIM_HPP_
#include <cassert>
#include <functional>
#include <cstring>
#include <limits>
#include <p4est.h>
#include <p4est_bits.h>
#include <p4est_extended.h>
#include <p4est_search.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*verif_reorder_t)(p4est_t*, p4est_topidx_t, p4est_quadrant_t*, p4est_quadrant_t**, void*);
void p4est_search_reorder(p4est_t* p4est, int skip_levels, verif_reorder_t reorder_fn,
                          p4est_search_local_t pre_quadrant_fn, p4est_search_local_t post_quadrant_fn,
                          p4est_search_local_t point_fn, sc_array_t* points);
#ifdef __cplusplus
}
#endif
#endif
