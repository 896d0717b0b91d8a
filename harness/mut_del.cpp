#include "mut_common.h"
DEF(collapse, [](ManifoldSurfaceMesh& m) { ckCollapse(m, pick("edge", liveE(m))); })
DEF(removeEdge, [](ManifoldSurfaceMesh& m) { ckRemoveEdge(m, sym("edge", liveE(m))); })
DEF(removeFace, [](ManifoldSurfaceMesh& m) { ckRemoveFace(m, pick("face", liveF(m))); })
DEF(removeVertex, [](ManifoldSurfaceMesh& m) { ckRemoveVertex(m, pick("vertex", liveV(m))); })
