// p4est 2.3.6 lacks p4est_search_reorder (used by Quadtree traversals); declared here, modelled in sym_models.cpp / sym_native.cpp.
#pragma once
#include <p4est.h>
#include <p4est_search.h>
extern "C" void p4est_search_reorder(p4est_t* p4est,int skip_levels,void* reorder,p4est_search_local_t pre,p4est_search_local_t post,void* point,sc_array_t* points);
