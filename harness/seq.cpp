#include "track.h"
static void run(const VS& meshes, size_t steps, size_t lim1) {
  auto pm = catMesh(meshes[gs_choose("mesh", meshes.size())]);
  ManifoldSurfaceMesh& m = *pm;
  Track t(m);
  t.sync(takeValid(m, "start"), "start");
  for (size_t s = 0; s < steps; s++) {
    op(m, gs_choose(s ? "op2" : "op1", NOPS), s + 1 < steps ? lim1 : (gs_tier() ? 0 : 4), s ? "el2" : "el1");
    Abs a = takeValid(m, "after step");
    t.sync(a, "after step");
    if (s + 1 == steps || gs_choose("compress", 2)) { t.compress(a); gs_cover("compressed"); }
  }
}
GS_HARNESS(seq_one) { run({0, 1, 2, 5, 7, 9, 10, 14}, 1, 0); }
GS_HARNESS(seq_two) { if (gs_tier()) run({0, 1, 2, 5, 6, 7, 9, 10}, 2, 6); else run({2, 5, 10}, 2, 2); }
GS_HARNESS(seq_three) { if (gs_tier()) run({0, 2, 5, 9}, 3, 2); else run({0}, 3, 1); }
