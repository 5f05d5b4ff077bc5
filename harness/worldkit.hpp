// entities of a known global mesh by their sorted vertices, and the
// entities of the distributed copies in those terms
#ifndef VERIF_WORLDKIT_HPP
#define VERIF_WORLDKIT_HPP
#include "distkit.hpp"
#include "soups.hpp"
namespace wk {
using namespace mk;
using namespace dk;
using Key = vector<int>;  // sorted vertices
struct World {
  Soup s;
  vector<Key> ents[4];
  std::map<Key, int> id[4];
  explicit World(Soup const& s_) : s(s_) {
    for (int d = 0; d <= s.dim; ++d)
      for (auto& k : s.ents(d)) {
        id[d][k] = int(ents[d].size());
        ents[d].push_back(k);
      }
  }
  // which high entities contain which low ones
  bool in(int ld, int l, int hd, int h) const {
    auto& a = ents[ld][size_t(l)];
    auto& b = ents[hd][size_t(h)];
    return std::includes(b.begin(), b.end(), a.begin(), a.end());
  }
};
// quadrilaterals share vertex sets with no other entity but containment by
// vertices is not containment of diagonals: entities come from the soup only
inline vector<int> ids_of(World const& w, oh::Mesh& m, int d) {
  vector<int> r;
  auto vg = m.globals(0);
  for (auto& e : mk::verts_of(m, d)) {
    Key k;
    for (int v : e) k.push_back(int(vg[v]));
    std::sort(k.begin(), k.end());
    r.push_back(w.id[d].at(k));
  }
  return r;
}
inline oh::Read<I8> spread(vector<int> const& ids, vector<int> const& marks) {
  vector<I8> a;
  for (int i : ids) a.push_back(I8(marks[size_t(i)]));
  return arr(a);
}
inline void part(oh::Mesh& m, int how) {
  if (how == 1) m.set_parting(OMEGA_H_VERT_BASED);
  if (how == 2) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  if (how == 3) m.set_parting(OMEGA_H_GHOSTED, 2, false);
}
static char const* const parting_name[] = {"element-based", "vertex-based", "ghosted", "doubly ghosted"};
}  // namespace wk
#endif
