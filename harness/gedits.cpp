#include "gedits.h"
GS_HARNESS(one_tri2) { SurfaceMesh m(growPolys({3, 3}, true)); go(m, 1, 0); }
GS_HARNESS(one_book) { SurfaceMesh m(book()); go(m, 1, 0); }
GS_HARNESS(one_zoo) { SurfaceMesh m(zoo()[gs_choose("mesh", zoo().size())]); go(m, 1, 0); }
GS_HARNESS(one_tri3) { std::vector<int> d{3, 3, 3}; SurfaceMesh m(growPolys(d, true, gs_tier() ? 1 : 2)); go(m, 1, 0, gs_tier() ? 0 : 1); }
GS_HARNESS(two_zoo) { SurfaceMesh m(zoo()[gs_choose("mesh", gs_tier() ? zoo().size() : 4)]); go(m, 2, gs_tier() ? 6 : 2); }
GS_HARNESS(three_zoo) { if (!gs_tier()) { SurfaceMesh m(zoo()[10 + gs_choose("mesh", 2)]); go(m, 3, 1, 1); } else { SurfaceMesh m(zoo()[gs_choose("mesh", zoo().size())]); go(m, 3, 2); } }
