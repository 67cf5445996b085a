// Included before every translation unit of the harness builds.
// p4est 2.3.6 (installed here) lacks p4est_search_reorder, which the tree traversals call; shim.cpp supplies it
// with the semantics documented for newer p4est: depth-first over the quadrants that contain local leaves,
// from the tree root (after skip_levels), pre callback (0 prunes), children in Morton order, post callback.
#pragma once
#ifdef __cplusplus
#include <p4est.h>
#include <p4est_extended.h>
#include <p4est_search.h>
#include <p4est_bits.h>
extern "C" void p4est_search_reorder(p4est_t* p4est, int skip_levels, void* reorder, p4est_search_local_t pre_fn,
                                     p4est_search_local_t post_fn, p4est_search_local_t point_fn, sc_array_t* points);
#endif
