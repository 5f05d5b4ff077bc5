// small named meshes
#ifndef VERIF_SOUPS_HPP
#define VERIF_SOUPS_HPP
#include "meshkit.hpp"
namespace mk {
using std::vector;
struct Base {
  char const* name;
  Soup s;
};
inline Soup soup(bool simplex, int dim, VV elems) {
  Soup s;
  s.simplex = simplex;
  s.dim = dim;
  s.elems = elems;
  for (auto& e : elems)
    for (int v : e) s.nverts = std::max(s.nverts, v + 1);
  return s;
}
static vector<Base> bases = {
    {"edges4", soup(true, 1, {{0, 1}, {1, 2}, {2, 3}, {3, 4}})},
    {"ring3", soup(true, 1, {{2, 0}, {0, 1}, {1, 2}})},
    {"strip4", soup(true, 2, {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}, {4, 3, 5}})},
    {"fan4", soup(true, 2, {{4, 0, 1}, {4, 1, 2}, {4, 2, 3}, {4, 3, 0}})},
    {"bowtie", soup(true, 2, {{0, 1, 2}, {2, 3, 4}, {4, 5, 6}})},
    {"tets3", soup(true, 3, {{0, 1, 2, 3}, {0, 2, 1, 4}, {1, 2, 5, 4}})},
    {"tetring4", soup(true, 3, {{0, 1, 2, 3}, {0, 1, 3, 4}, {0, 1, 4, 5}, {0, 1, 5, 2}})},
    {"quads4", soup(false, 2, {{0, 1, 4, 3}, {1, 2, 5, 4}, {3, 4, 7, 6}, {4, 5, 8, 7}})},
    {"hexes2", soup(false, 3, {{0, 1, 4, 3, 6, 7, 10, 9}, {1, 2, 5, 4, 7, 8, 11, 10}})},
    {"strip6", soup(true, 2, {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}, {4, 3, 5}, {4, 5, 6}, {6, 5, 7}})},
};
inline Base const& base(char const* n) {
  for (auto& b : bases)
    if (!strcmp(b.name, n)) return b;
  abort();
}
}  // namespace mk
#endif
