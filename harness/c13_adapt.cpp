// C13: adaptation always leaves a valid mesh of the same domain.
// C14 (c14_guarantee.cpp): and keeps the quality and length it promises.
// C15 (c15_transfer.cpp): and transfers fields as each kind of transfer says.
// The three explore the same space and check different aspects of it.
#ifndef ASPECT
#define ASPECT VALID
#define ID "C13"
#endif
#include "adaptrun.hpp"
using namespace ak;

// every vertex gets one of the given sizes
static void sizes(mc::Ctx& c, vector<char const*> names, vector<double> h, int split_at, bool aniso) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  for (int v = 0; v < st.s.nverts; ++v) {
    k.h.push_back(h[size_t(c.choose(int(h.size())))]);
    if (v == split_at) c.split();
  }
  k.aniso = aniso;
  k.opts = 0;
  run_serial(c, k);
}
// few size fields, every combination of options, whole operation sequences
static void sequences(mc::Ctx& c, vector<char const*> names, int depth) {
  Case k;
  k.start = names[size_t(c.choose(int(names.size())))];
  auto& st = start(k.start);
  int f = c.choose(NFIELDS);
  k.h = field(st, f);
  k.aniso = c.flip();
  k.opts = c.choose(NOPTS);
  c.split();
  int n = 1 + c.choose(depth);
  k.ops.clear();
  for (int i = 0; i < n; ++i) k.ops.push_back(c.choose(NOPS));
  // conserved quantities are set up by adapt() as a whole
  k.conserve = false;
  run_serial(c, k);
}

int main(int argc, char** argv) {
  aspects = ASPECT;
  return mc::main(argc, argv, ID,
      {
          {"line", [](mc::Ctx& c) { sizes(c, {"line2", "line4"}, {0.13, 0.3, 1, 3}, 2, false); }, 60, false,
              "1D meshes of 2 and 4 edges, every choice of 4 sizes per vertex"},
          {"square", [](mc::Ctx& c) { sizes(c, {"sq1", "two", "poked"}, {0.2, 0.45, 1, 3}, 3, c.flip()); }, 60, false,
              "2D meshes of 2-6 triangles (one and two regions, interior vertices), every choice of 4 sizes per vertex, isotropic and anisotropic"},
          {"grid", [](mc::Ctx& c) { sizes(c, {"sq2", "sq2x", "flat"}, {0.3, 2.5}, 5, c.flip()); }, 60, false,
              "2D meshes of 4-8 triangles, every choice of 2 sizes per vertex, isotropic and anisotropic"},
          {"ell", [](mc::Ctx& c) { sizes(c, {"ell"}, {0.35, 1, 4}, 3, false); }, 60, false, "an L of three regions, every choice of 3 sizes per vertex"},
          {"cube", [](mc::Ctx& c) { sizes(c, {"cube1"}, {0.5, 2.5}, 4, c.flip()); }, 60, false,
              "six tetrahedra, every choice of 2 sizes per vertex, isotropic and anisotropic"},
          {"seq2", [](mc::Ctx& c) { sequences(c, {"sq2x", "two2", "ell2", "poked"}, c.thorough() ? 4 : 2); }, 60, false,
              "4 2D meshes x 6 size fields x isotropy x 4 option sets x every sequence of up to 2 (4) of refine, coarsen, swap, coarsen slivers, adapt, warp, approach, change the metric"},
          {"seq3", [](mc::Ctx& c) { sequences(c, c.thorough() ? vector<char const*>{"cube1", "slab", "cubes2", "thin", "pokedcube"} : vector<char const*>{"cube1", "pokedcube", "thin"}, c.thorough() ? 3 : 2); }, 60, false,
              "3 (5) 3D meshes x the same, sequences of up to 2 (3)"},
      });
}
