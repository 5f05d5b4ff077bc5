// distributed meshes: building them, recording them, and the conditions any
// distributed copy of a known global mesh has to meet
#ifndef VERIF_DISTKIT_HPP
#define VERIF_DISTKIT_HPP
#include <cstdarg>
#include <Omega_h_migrate.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_tag.hpp>
#include <Omega_h_array_ops.hpp>
#include "meshkit.hpp"

namespace dk {
using std::vector;
using mk::Soup;
using mk::VV;

struct Ent {
  vector<GO> verts;  // global numbers, in the stored order
  I32 orank = -1;
  LO oidx = -1;
  GO global = -1;
};
struct RankSnap {
  bool has = false;
  int rank = -1, size = 0;
  int parting = -1, layers = -1;
  vector<Ent> ents[4];
  // tag values per entity, printed
  std::map<std::string, vector<vector<double>>> tags[4];
};
struct Snap {
  std::string what;
  vector<RankSnap> r;  // indexed by rank in the mesh's communicator
};

inline double tag_value(vector<GO> verts, int kind, int comp) {
  std::sort(verts.begin(), verts.end());
  uint64_t h = 1469598103934665603ull;
  for (auto v : verts) h = (h ^ uint64_t(v + 17)) * 1099511628211ull;
  h = (h ^ uint64_t(kind * 31 + comp)) * 1099511628211ull;
  h ^= h >> 29;
  int k = kind % 4;
  if (k == 0) return double(int(h % 251) - 125);
  if (k == 1) return double(int64_t(h % 2000000001ull) - 1000000000);
  if (k == 2) return double(int64_t(h % (1ull << 51)) - (1ll << 50));
  return double(int64_t(h % 1000003)) / 1024.0 + 0.1;
}

template <class T>
inline void add_one_tag(oh::Mesh& m, int d, char const* name, int ncomps, int kind, VV const& lv, oh::GOs vg) {
  vector<T> a;
  for (auto& e : lv) {
    vector<GO> g;
    for (int v : e) g.push_back(vg[v]);
    for (int c = 0; c < ncomps; ++c) a.push_back(T(tag_value(g, kind + 4 * d, c)));
  }
  m.add_tag<T>(d, name, ncomps, arr(a));
}
// tags of every type on every dimension, computed from the entity's identity
inline void add_identity_tags(oh::Mesh& m) {
  auto vg = m.globals(0);
  for (int d = 0; d <= m.dim(); ++d) {
    auto lv = mk::verts_of(m, d);
    add_one_tag<I8>(m, d, "b", 1, 0, lv, vg);
    add_one_tag<I32>(m, d, "i", 2, 1, lv, vg);
    add_one_tag<I64>(m, d, "l", 1, 2, lv, vg);
    add_one_tag<Real>(m, d, "r", 3, 3, lv, vg);
  }
}
inline void put_tag(oh::Mesh& m, int d, oh::TagBase const* t, RankSnap& s) {
  auto& out = s.tags[d][t->name()];
  int n = t->ncomps();
  auto fill = [&](auto a) {
    for (LO i = 0; i < m.nents(d); ++i) {
      out.push_back({});
      for (int c = 0; c < n; ++c) out.back().push_back(double(a[i * n + c]));
    }
  };
  if (oh::is<I8>(t)) fill(oh::as<I8>(t)->array());
  if (oh::is<I32>(t)) fill(oh::as<I32>(t)->array());
  if (oh::is<I64>(t)) fill(oh::as<I64>(t)->array());
  if (oh::is<Real>(t)) fill(oh::as<Real>(t)->array());
}
inline RankSnap snapshot(oh::Mesh& m) {
  RankSnap s;
  s.has = true;
  s.rank = m.comm()->rank();
  s.size = m.comm()->size();
  s.parting = m.parting();
  s.layers = m.nghost_layers();
  auto vg = m.globals(0);
  for (int d = 0; d <= m.dim(); ++d) {
    auto lv = mk::verts_of(m, d);
    auto own = m.ask_owners(d);
    auto g = m.globals(d);
    MKREQ(own.ranks.size() == m.nents(d) && own.idxs.size() == m.nents(d), "owners-size", "owner arrays of dimension %d", d);
    MKREQ(g.size() == m.nents(d), "globals-size", "global numbers of dimension %d", d);
    for (LO i = 0; i < m.nents(d); ++i) {
      Ent e;
      for (int v : lv[size_t(i)]) e.verts.push_back(vg[v]);
      e.orank = own.ranks[i];
      e.oidx = own.idxs[i];
      e.global = g[i];
      s.ents[d].push_back(e);
    }
    for (int i = 0; i < m.ntags(d); ++i) put_tag(m, d, m.get_tag(d, i), s);
  }
  return s;
}
template <class T>
inline vector<T> sortv(vector<T> v) {
  std::sort(v.begin(), v.end());
  return v;
}

struct Expect {
  bool identity_tags = true;
  bool coords = false;
  bool sorted_local = true;   // local order follows global numbers
  bool owner_rule = false;
};

// the union of the parts is exactly the soup; ownership is consistent; the
// parting is what it claims
inline void check_global(Snap const& sn, Soup const& soup, Expect const& x) {
  int n = int(sn.r.size());
  int dim = soup.dim;
  for (int d = 0; d <= dim; ++d) {
    std::map<vector<GO>, vector<std::pair<int, int>>> where;
    for (int r = 0; r < n; ++r) {
      std::set<vector<GO>> here;
      GO last = -1;
      for (size_t i = 0; i < sn.r[size_t(r)].ents[d].size(); ++i) {
        auto& e = sn.r[size_t(r)].ents[d][i];
        auto key = sortv(e.verts);
        MKREQ(here.insert(key).second, "duplicate", "%s: rank %d holds %d-entity %s twice", sn.what.c_str(), r, d, str(key).c_str());
        where[key].push_back({r, int(i)});
        if (x.sorted_local)
          MKREQ(e.global > last, "local-order", "%s: rank %d: local order of %d-entities does not follow global numbers (%lld after %lld)",
              sn.what.c_str(), r, d, (long long)e.global, (long long)last);
        last = e.global;
      }
    }
    auto want = soup.ents(d);
    std::set<int> used;
    if (d == 0) {
      for (auto& e : soup.elems) used.insert(e.begin(), e.end());
    }
    size_t nw = 0;
    for (auto& w : want) {
      if (d == 0 && !used.count(w[0])) continue;
      ++nw;
      vector<GO> k(w.begin(), w.end());
      MKREQ(where.count(k), "lost", "%s: %d-entity %s is on no rank", sn.what.c_str(), d, str(k).c_str());
    }
    MKREQ(where.size() == nw, "invented", "%s: there are %zu %d-entities, expected %zu", sn.what.c_str(), where.size(), d, nw);
    std::set<GO> globals;
    for (auto& p : where) {
      auto& f = sn.r[size_t(p.second[0].first)].ents[d][size_t(p.second[0].second)];
      MKREQ(globals.insert(f.global).second, "global-dup", "%s: two %d-entities have global number %lld", sn.what.c_str(), d, (long long)f.global);
      MKREQ(f.global >= 0 && (f.global < GO(nw) || d == 0), "global-range", "%s: %d-entity %s has global number %lld of %zu", sn.what.c_str(), d,
          str(p.first).c_str(), (long long)f.global, nw);
      for (auto& c : p.second) {
        auto& e = sn.r[size_t(c.first)].ents[d][size_t(c.second)];
        MKREQ(e.global == f.global, "global-differs", "%s: copies of %d-entity %s have global numbers %lld and %lld", sn.what.c_str(), d,
            str(p.first).c_str(), (long long)e.global, (long long)f.global);
        MKREQ(e.orank == f.orank && e.oidx == f.oidx, "owner-differs", "%s: copies of %d-entity %s name owners %d.%d and %d.%d", sn.what.c_str(), d,
            str(p.first).c_str(), e.orank, e.oidx, f.orank, f.oidx);
        MKREQ(e.verts == f.verts, "order-differs", "%s: copies of %d-entity have vertex orders %s and %s", sn.what.c_str(), d,
            str(e.verts).c_str(), str(f.verts).c_str());
      }
      MKREQ(f.orank >= 0 && f.orank < n, "owner-rank", "%s: %d-entity %s has owner rank %d", sn.what.c_str(), d, str(p.first).c_str(), f.orank);
      auto& home = sn.r[size_t(f.orank)].ents[d];
      MKREQ(f.oidx >= 0 && f.oidx < int(home.size()) && sortv(home[size_t(f.oidx)].verts) == p.first, "owner-wrong",
          "%s: the owner %d.%d of %d-entity %s is not a copy of it", sn.what.c_str(), f.orank, f.oidx, d, str(p.first).c_str());
    }
    if (d == dim) {
      for (size_t e = 0; e < soup.elems.size(); ++e) {
        vector<GO> k(soup.elems[e].begin(), soup.elems[e].end());
        auto& f = where[sortv(k)][0];
        MKREQ(sn.r[size_t(f.first)].ents[d][size_t(f.second)].verts == k, "elem-verts", "%s: element %s has vertex order %s", sn.what.c_str(),
            str(k).c_str(), str(sn.r[size_t(f.first)].ents[d][size_t(f.second)].verts).c_str());
      }
    }
    if (x.identity_tags)
      for (int r = 0; r < n; ++r) {
        auto& s = sn.r[size_t(r)];
        char const* names[4] = {"b", "i", "l", "r"};
        int nc[4] = {1, 2, 1, 3};
        for (int k = 0; k < 4; ++k) {
          MKREQ(s.tags[d].count(names[k]), "tag-lost", "%s: rank %d lost tag %s on dimension %d", sn.what.c_str(), r, names[k], d);
          auto& t = s.tags[d].at(names[k]);
          for (size_t i = 0; i < t.size(); ++i) {
            MKREQ(int(t[i].size()) == nc[k], "tag-width", "tag %s", names[k]);
            for (int c = 0; c < nc[k]; ++c)
              MKREQ(t[i][size_t(c)] == tag_value(s.ents[d][i].verts, k + 4 * d, c), "tag-value",
                  "%s: rank %d: tag %s of %d-entity %s is %.17g, expected %.17g", sn.what.c_str(), r, names[k], d,
                  str(s.ents[d][i].verts).c_str(), t[i][size_t(c)], tag_value(s.ents[d][i].verts, k + 4 * d, c));
          }
        }
      }
  }
  // the parting
  auto elems_of = [&](int r) {
    std::set<vector<GO>> s;
    for (auto& e : sn.r[size_t(r)].ents[dim]) s.insert(sortv(e.verts));
    return s;
  };
  std::map<vector<GO>, int> elem_owner;
  std::map<GO, int> vert_owner;
  for (int r = 0; r < n; ++r) {
    for (auto& e : sn.r[size_t(r)].ents[dim]) elem_owner[sortv(e.verts)] = e.orank;
    for (auto& e : sn.r[size_t(r)].ents[0]) vert_owner[e.verts[0]] = e.orank;
  }
  for (int r = 0; r < n; ++r) {
    auto& s = sn.r[size_t(r)];
    std::set<vector<GO>> want;
    if (s.parting == OMEGA_H_ELEM_BASED) {
      for (auto& p : elem_owner)
        if (p.second == r) want.insert(p.first);
    } else if (s.parting == OMEGA_H_VERT_BASED) {
      for (auto& p : elem_owner)
        for (auto v : p.first)
          if (vert_owner.at(v) == r) want.insert(p.first);
    } else {
      for (auto& p : elem_owner)
        if (p.second == r) want.insert(p.first);
      for (int l = 0; l < s.layers; ++l) {
        std::set<GO> verts;
        for (auto& e : want) verts.insert(e.begin(), e.end());
        // vertices owned here but not touched by owned elements do not seed ghosts
        std::set<vector<GO>> more;
        for (auto& p : elem_owner)
          for (auto v : p.first)
            if (verts.count(v)) more.insert(p.first);
        want.insert(more.begin(), more.end());
      }
    }
    auto got = elems_of(r);
    MKREQ(got == want, "parting", "%s: rank %d holds %zu elements, a %s parting (%d layers) has %zu (or different ones)", sn.what.c_str(), r,
        got.size(), s.parting == OMEGA_H_ELEM_BASED ? "element-based" : s.parting == OMEGA_H_VERT_BASED ? "vertex-based" : "ghosted", s.layers,
        want.size());
  }
}

// builds the distributed mesh from the parts that `owner` gives to each rank
inline oh::Mesh build_parted(oh::Library& lib, oh::CommPtr comm, Soup const& s, vector<int> const& owner) {
  int r = comm->rank();
  std::map<int, int> l;
  vector<GO> vg;
  vector<LO> ev;
  for (size_t e = 0; e < s.elems.size(); ++e)
    if (owner[e] == r)
      for (int v : s.elems[e]) l[v] = 0;
  for (auto& p : l) {
    p.second = int(vg.size());
    vg.push_back(p.first);
  }
  for (size_t e = 0; e < s.elems.size(); ++e)
    if (owner[e] == r)
      for (int v : s.elems[e]) ev.push_back(l[v]);
  oh::Mesh m(&lib);
  oh::build_from_elems2verts(&m, comm, s.family(), s.dim, arr(ev), arr(vg));
  return m;
}
// a migration target: each rank lists (current rank, current index) of the
// elements it is to have; by element vertex key
inline oh::Dist dist_to(oh::Mesh& m, Soup const& s, vector<int> const& owner, Snap const& now) {
  int me = m.comm()->rank();
  vector<std::array<GO, 3>> l;
  for (size_t e = 0; e < s.elems.size(); ++e) {
    if (owner[e] != me) continue;
    vector<GO> k(s.elems[e].begin(), s.elems[e].end());
    k = sortv(k);
    for (auto& rs : now.r)
      for (size_t i = 0; i < rs.ents[s.dim].size(); ++i) {
        auto& en = rs.ents[s.dim][i];
        if (en.orank == rs.rank && sortv(en.verts) == k) l.push_back({{en.global, rs.rank, GO(i)}});
      }
  }
  std::sort(l.begin(), l.end());
  vector<I32> ranks;
  vector<LO> idxs;
  for (auto& x : l) {
    ranks.push_back(I32(x[1]));
    idxs.push_back(LO(x[2]));
  }
  return oh::Dist(m.comm(), oh::Remotes(arr(ranks), arr(idxs)), m.nelems());
}
}  // namespace dk
#endif
