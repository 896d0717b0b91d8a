#include "mut_common.h"
DEF(flip, [](ManifoldSurfaceMesh& m) { size_t e = sym("edge", liveE(m)); ckFlip(m, e, gs_bool("prevent")); })
