// C21: a Gmsh .msh file is read as exactly the mesh, classification and
// physical groups it describes, in every supported version, encoding,
// numbering and order; and written meshes describe themselves.
#include <Omega_h_file.hpp>
#include <Omega_h_class.hpp>
#include <fstream>
#include <sstream>
#include "adaptkit.hpp"
using namespace ak;
using std::string;

// ---- source meshes ---------------------------------------------------------
static Start hyper(string name, Model m, std::array<int, 3> per) {
  // the hexahedra (quads) of a grid
  Start st;
  st.name = name;
  st.model = m;
  int dim = m.dim;
  vector<double> lines[3];
  int n[3] = {1, 1, 1};
  for (int a = 0; a < 3; ++a) {
    if (a >= dim) {
      lines[a] = {0};
      continue;
    }
    auto& p = m.planes[a];
    for (size_t k = 0; k + 1 < p.size(); ++k)
      for (int i = 0; i < per[size_t(a)]; ++i) lines[a].push_back(p[k] + (p[k + 1] - p[k]) * i / per[size_t(a)]);
    lines[a].push_back(p.back());
    n[a] = int(lines[a].size()) - 1;
  }
  std::map<std::array<int, 3>, int> vid;
  auto vert = [&](int i, int j, int k) {
    auto r = vid.insert({{{i, j, k}}, int(st.x.size())});
    if (r.second) st.x.push_back({{lines[0][size_t(i)], lines[1][size_t(j)], lines[2][size_t(k)]}});
    return r.first->second;
  };
  st.s.simplex = false;
  st.s.dim = dim;
  for (int k = 0; k < n[2]; ++k)
    for (int j = 0; j < n[1]; ++j)
      for (int i = 0; i < n[0]; ++i) {
        vector<int> e;
        for (int z = 0; z < (dim > 2 ? 2 : 1); ++z) {
          e.push_back(vert(i, j, k + z));
          e.push_back(vert(i + 1, j, k + z));
          e.push_back(vert(i + 1, j + 1, k + z));
          e.push_back(vert(i, j + 1, k + z));
        }
        st.s.elems.push_back(e);
      }
  st.s.nverts = int(st.x.size());
  return st;
}
static vector<Start> const& starts() {
  static vector<Start> s;
  if (s.empty()) {
    for (auto n : {"line2", "line4", "sq1", "two", "ell2", "cube1", "cubes2"}) s.push_back(start(n));
    s.push_back(hyper("quad1", box_model(2, {0, 1}, {0, 1}), {{1, 1, 0}}));
    s.push_back(hyper("quads", box_model(2, {0, 1, 3}, {0, 1}), {{2, 2, 0}}));
    s.push_back(hyper("hex1", box_model(3, {0, 1}, {0, 1}, {0, 1}), {{1, 1, 1}}));
    s.push_back(hyper("hexes", box_model(3, {0, 1, 3}, {0, 1}, {0, 1}), {{1, 1, 2}}));
    // awkward coordinates
    for (auto& st : s)
      for (auto& p : st.x)
        for (auto& v : p) v = v * (1.0 / 3) + (v > 0 ? 1e-17 : 0);
    for (auto& st : s)
      for (auto& ax : st.model.planes)
        for (auto& v : ax) v = v * (1.0 / 3) + (v > 0 ? 1e-17 : 0);
  }
  return s;
}
using Key = vector<P3>;  // sorted points of an entity
struct Desc {
  std::map<Key, std::pair<int, int>> ents[4];  // class dim and id
  std::multiset<vector<P3>> elems;             // ordered points
  std::map<string, std::multiset<std::pair<int, int>>> sets;
};
static Key key_of(vector<P3> p) {
  std::sort(p.begin(), p.end());
  return p;
}
struct LowEnt {
  int dim, id;
  vector<int> verts;
};
// all entities of the soup with their classification
static vector<LowEnt> entities(Start const& st, Desc& d) {
  vector<LowEnt> out;
  auto cls = [&](vector<int> const& v) {
    vector<std::array<int, 3>> cs;
    for (int i : v) cs.push_back(st.model.code(st.x[size_t(i)]));
    std::array<int, 3> c;
    if (!st.model.join(cs, c)) abort();
    return std::make_pair(st.model.cdim(c), Model::id(c));
  };
  auto add = [&](int dim, vector<int> const& v) {
    auto k = cls(v);
    Key key;
    for (int i : v) key.push_back(st.x[size_t(i)]);
    if (!d.ents[dim].insert({key_of(key), k}).second) return;
    if (k.first == dim) out.push_back({dim, k.second, v});
  };
  for (int v = 0; v < st.s.nverts; ++v) add(0, {v});
  for (int dd = 1; dd < st.s.dim; ++dd)
    for (auto& e : st.s.elems)
      for (auto& t : mk::down_template(st.s.simplex, st.s.dim, dd)) {
        vector<int> v;
        for (int i : t) v.push_back(e[size_t(i)]);
        add(dd, v);
      }
  for (auto& e : st.s.elems) {
    add(st.s.dim, e);
    vector<P3> p;
    for (int i : e) p.push_back(st.x[size_t(i)]);
    d.elems.insert(p);
  }
  return out;
}
static string dump(Key const& k) {
  string s;
  for (auto& p : k) s += str(vector<double>(p.begin(), p.end()));
  return s;
}
// the mesh that the parts describe together
static void describe(oh::Mesh& m, Desc& d) {
  auto co = m.coords();
  auto pt = [&](int v) {
    P3 p{{0, 0, 0}};
    for (int a = 0; a < m.dim(); ++a) p[size_t(a)] = co[v * m.dim() + a];
    return p;
  };
  for (int dd = 0; dd <= m.dim(); ++dd) {
    auto cd = m.get_array<I8>(dd, "class_dim");
    auto ci = m.get_array<I32>(dd, "class_id");
    auto vs = mk::verts_of(m, dd);
    auto own = m.owned(dd);
    for (size_t i = 0; i < vs.size(); ++i) {
      vector<P3> p;
      for (int v : vs[i]) p.push_back(pt(v));
      std::pair<int, int> k{cd[LO(i)], ci[LO(i)]};
      auto it = d.ents[dd].insert({key_of(p), k});
      MKREQ(it.first->second == k, "class-copies", "copies of a %d-entity disagree about its classification", dd);
      if (own[LO(i)] && dd == m.dim()) d.elems.insert(p);
    }
  }
}
static void compare(Desc const& want, Desc const& got, int dim) {
  for (int d = 0; d <= 3; ++d) {
    MKREQ(want.ents[d].size() == got.ents[d].size(), "entities", "%zu %d-entities, the file describes %zu", got.ents[d].size(), d, want.ents[d].size());
    for (auto& e : want.ents[d]) {
      auto it = got.ents[d].find(e.first);
      MKREQ(it != got.ents[d].end(), "entities", "the %d-entity %s is missing", d, dump(e.first).c_str());
      MKREQ(it->second == e.second, "class", "the %d-entity %s is classified on %d:%d, not %d:%d", d, dump(e.first).c_str(), it->second.first, it->second.second,
          e.second.first, e.second.second);
    }
  }
  MKREQ(want.elems == got.elems, "elements", "the elements are not those of the file (%zu, %zu)", got.elems.size(), want.elems.size());
  (void)dim;
}
static string sets_text(std::map<string, std::multiset<std::pair<int, int>>> const& s) {
  string t;
  for (auto& p : s) {
    t += "\"" + p.first + "\":";
    for (auto& q : p.second) t += " " + std::to_string(q.first) + "." + std::to_string(q.second);
    t += "; ";
  }
  return t;
}
static void compare_sets(Desc const& want, oh::Mesh& m) {
  std::map<string, std::multiset<std::pair<int, int>>> got;
  for (auto& s : m.class_sets) {
    got[s.first];
    for (auto& p : s.second) got[s.first].insert({p.dim, p.id});
  }
  MKREQ(want.sets == got, "sets", "class sets %s instead of %s", sets_text(got).c_str(), sets_text(want.sets).c_str());
}

// ---- an independent writer -------------------------------------------------
struct Form {
  int format = 0;     // 22a 22b 22b-swapped 40 41
  int groups = 0;     // none, per dimension, sides one by one
  int names = 0;      // all, none, awkward, first only
  int numbering = 0;  // nodes: in order, backwards, with gaps
  bool shuffled = false, parametric = false, extra = false, ranked = false;
  string text() const {
    static char const* f[] = {"2.2 ascii", "2.2 binary", "2.2 swapped", "4.0 ascii", "4.1 ascii"};
    return string(f[format]) + " groups=" + std::to_string(groups) + " names=" + std::to_string(names) + " numbering=" + std::to_string(numbering) +
           (shuffled ? " shuffled" : "") + (parametric ? " parametric" : "") + (extra ? " extra" : "");
  }
};
struct Group {
  int dim, number;
  string name;
  bool named;
};
struct Out {
  string s;
  bool swap = false;
  template <class T>
  void bin(T x) {
    char b[sizeof(T)];
    memcpy(b, &x, sizeof x);
    if (swap) std::reverse(b, b + sizeof x);
    s.append(b, sizeof x);
  }
  void num(double x) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    s += b;
  }
  void i(long x) { s += std::to_string(x); }
};
static int type_of(bool simplex, int dim) {
  if (dim == 0) return 15;
  if (dim == 1) return 1;
  if (dim == 2) return simplex ? 2 : 3;
  return simplex ? 4 : 5;
}
static string emit(Start const& st, Form const& f, Desc& want) {
  auto ents = entities(st, want);
  int dim = st.s.dim;
  // physical groups of the model entities
  vector<Group> groups;
  std::map<std::pair<int, int>, vector<int>> phys;  // (dim,id) -> group indices
  auto awkward = [&](int g) { return f.names == 2 ? string(g % 2 ? "a  b" : "x-$1 (wall)") : "group" + std::to_string(g + 1); };
  if (f.groups == 1) {
    for (int d : {dim, dim - 1, 0}) {
      if (d == 0 && dim == 1) continue;
      int g = int(groups.size());
      groups.push_back({d, g + 1, awkward(g) + (f.names == 2 ? std::to_string(g) : ""), true});
      for (auto& e : ents)
        if (e.dim == d) phys[{d, e.id}] = {g};
    }
  }
  if (f.groups == 2) {
    int g0 = 0;
    for (auto& e : ents)
      if (e.dim == dim && !phys.count({dim, e.id})) {
        int g = int(groups.size());
        groups.push_back({dim, g + 1, "r" + awkward(g) + std::to_string(g), true});
        phys[{dim, e.id}] = {g};
        g0 = g;
      }
    int k = 0;
    for (auto& e : ents)
      if (e.dim == dim - 1 && !phys.count({dim - 1, e.id})) {
        if (k++ % 3 == 2) {
          phys[{dim - 1, e.id}] = {};  // in no group
          continue;
        }
        int g = int(groups.size());
        groups.push_back({dim - 1, g + 1, awkward(g) + std::to_string(g), true});
        phys[{dim - 1, e.id}] = {g};
      }
    // entities in two groups (not expressible before version 4)
    if (f.format >= 3) {
      int g = int(groups.size());
      groups.push_back({dim, g + 1, "all" + awkward(g), true});
      for (auto& p : phys)
        if (p.first.first == dim) p.second.push_back(g);
    }
    (void)g0;
  }
  int nnamed = f.names == 1 ? 0 : f.names == 3 ? std::min<int>(1, int(groups.size())) : int(groups.size());
  for (size_t g = 0; g < groups.size(); ++g)
    if (int(g) >= nnamed) {
      groups[g].named = false;
      groups[g].name = std::to_string(groups[g].number);
    }
  want.sets.clear();
  for (auto& p : phys)
    for (int g : p.second) want.sets[groups[size_t(g)].name].insert(p.first);

  int nv = st.s.nverts;
  bool v4 = f.format >= 3, bin = f.format == 1 || f.format == 2;
  auto tag = [&](int v) { return !v4 || f.numbering == 0 ? v + 1 : f.numbering == 1 ? nv - v : 7 * ((v * 5 + 2) % 97) + 3 + 679 * (v / 97); };
  // elements in the file's order
  auto order = ents;
  if (f.shuffled) {
    std::reverse(order.begin(), order.end());
    for (auto& e : order) {
      if (e.dim == 1 && dim > 1) std::swap(e.verts[0], e.verts[1]);
      if (e.dim == 2 && dim > 2) std::rotate(e.verts.begin(), e.verts.begin() + 1, e.verts.end());
      if (e.dim == 2 && dim > 2 && e.id % 2) std::reverse(e.verts.begin(), e.verts.end());
    }
  }
  Out o;
  o.swap = f.format == 2;
  o.s = "$MeshFormat\n";
  o.s += f.format == 3 ? "4" : f.format == 4 ? "4.1" : "2.2";
  o.s += bin ? " 1 8\n" : " 0 8\n";
  if (bin) {
    o.bin(int32_t(1));
    o.s += "\n";
  }
  o.s += "$EndMeshFormat\n";
  if (nnamed) {
    // always text
    o.s += "$PhysicalNames\n" + std::to_string(nnamed) + "\n";
    for (int g = 0; g < nnamed; ++g) o.s += std::to_string(groups[size_t(g)].dim) + " " + std::to_string(groups[size_t(g)].number) + " \"" + groups[size_t(g)].name + "\"\n";
    o.s += "$EndPhysicalNames\n";
  }
  // model entities by dimension
  std::map<std::pair<int, int>, int> model;
  for (auto& e : ents) ++model[{e.dim, e.id}];
  if (v4) {
    o.s += "$Entities\n";
    for (int d = 0; d < 4; ++d) {
      int n = 0;
      for (auto& m : model) n += m.first.first == d;
      o.s += (d ? " " : "") + std::to_string(n);
    }
    o.s += "\n";
    for (auto& m : model) {
      int d = m.first.first;
      o.i(m.first.second);
      int n = d == 0 ? (f.format == 3 ? 6 : 3) : 6;
      for (int i = 0; i < n; ++i) {
        o.s += " ";
        o.num(0.1 * i - 0.3);
      }
      auto& ph = phys[m.first];
      o.s += " " + std::to_string(ph.size());
      for (int g : ph) o.s += " " + std::to_string(groups[size_t(g)].number);
      if (d) {
        o.s += " 2 5 -7";
      }
      o.s += f.extra ? "\n" : " \n";
    }
    o.s += "$EndEntities\n";
  }
  // nodes
  o.s += "$Nodes\n";
  if (v4) {
    // blocks per model entity
    std::map<std::pair<int, int>, vector<int>> blocks;
    for (int v = 0; v < nv; ++v) blocks[want.ents[0].at({st.x[size_t(v)]})].push_back(v);
    int lo = 1 << 30, hi = 0;
    for (int v = 0; v < nv; ++v) {
      lo = std::min(lo, tag(v));
      hi = std::max(hi, tag(v));
    }
    o.s += std::to_string(blocks.size() + (f.extra ? 1 : 0)) + " " + std::to_string(nv);
    if (f.format == 4) o.s += " " + std::to_string(lo) + " " + std::to_string(hi);
    o.s += "\n";
    if (f.extra) o.s += f.format == 4 ? "2 99 0 0\n" : "99 2 0 0\n";  // an empty block
    vector<std::pair<std::pair<int, int>, vector<int>>> bl(blocks.begin(), blocks.end());
    if (f.shuffled) std::reverse(bl.begin(), bl.end());
    for (auto& b : bl) {
      bool par = f.parametric && b.first.first > 0 && b.first.first < 3;
      if (f.format == 4)
        o.s += std::to_string(b.first.first) + " " + std::to_string(b.first.second);
      else
        o.s += std::to_string(b.first.second) + " " + std::to_string(b.first.first);
      o.s += string(par ? " 1 " : " 0 ") + std::to_string(b.second.size()) + "\n";
      auto coords = [&](int v) {
        for (int a = 0; a < 3; ++a) {
          if (a) o.s += " ";
          o.num(st.x[size_t(v)][size_t(a)]);
        }
        if (par)
          for (int a = 0; a < b.first.first; ++a) {
            o.s += " ";
            o.num(0.25 * (a + 1));
          }
        o.s += "\n";
      };
      if (f.format == 4) {
        for (int v : b.second) o.s += std::to_string(tag(v)) + "\n";
        for (int v : b.second) coords(v);
      } else {
        for (int v : b.second) {
          o.s += std::to_string(tag(v)) + " ";
          coords(v);
        }
      }
    }
    o.s += "$EndNodes\n";
  } else {
    o.s += std::to_string(nv) + "\n";
    for (int v = 0; v < nv; ++v) {
      if (bin) {
        o.bin(int32_t(v + 1));
        for (int a = 0; a < 3; ++a) o.bin(st.x[size_t(v)][size_t(a)]);
      } else {
        o.s += std::to_string(v + 1);
        for (int a = 0; a < 3; ++a) {
          o.s += " ";
          o.num(st.x[size_t(v)][size_t(a)]);
        }
        o.s += "\n";
      }
    }
    if (bin) o.s += "\n";
    o.s += "$EndNodes\n";
  }
  if (f.extra) o.s += "$Comments\nNodes are above\n$EndComments\n";
  // elements
  o.s += "$Elements\n";
  if (v4) {
    vector<std::pair<std::pair<int, int>, vector<LowEnt>>> bl;
    for (auto& e : order) {
      std::pair<int, int> k{e.dim, e.id};
      auto it = std::find_if(bl.begin(), bl.end(), [&](std::pair<std::pair<int, int>, vector<LowEnt>> const& b) { return b.first == k; });
      if (it == bl.end()) it = bl.insert(bl.end(), {k, {}});
      it->second.push_back(e);
    }
    o.s += std::to_string(bl.size()) + " " + std::to_string(order.size());
    if (f.format == 4) o.s += " 1 " + std::to_string(order.size());
    o.s += "\n";
    int n = 0;
    for (auto& b : bl) {
      if (f.format == 4)
        o.s += std::to_string(b.first.first) + " " + std::to_string(b.first.second);
      else
        o.s += std::to_string(b.first.second) + " " + std::to_string(b.first.first);
      o.s += " " + std::to_string(type_of(st.s.simplex, b.first.first)) + " " + std::to_string(b.second.size()) + "\n";
      for (auto& e : b.second) {
        o.s += std::to_string(++n);
        for (int v : e.verts) o.s += " " + std::to_string(tag(v));
        o.s += f.extra ? "\n" : " \n";
      }
    }
  } else {
    o.s += std::to_string(order.size()) + "\n";
    int ntags = f.extra ? 3 : 2, n = 0;
    for (size_t i = 0; i < order.size();) {
      // runs of one type follow one header
      size_t j = i + 1;
      if (f.parametric)  // (binary only) blocks as long as possible
        while (j < order.size() && order[j].dim == order[i].dim) ++j;
      if (bin) {
        o.bin(int32_t(type_of(st.s.simplex, order[i].dim)));
        o.bin(int32_t(j - i));
        o.bin(int32_t(ntags));
      }
      for (; i < j; ++i) {
        auto& e = order[i];
        auto& ph = phys[{e.dim, e.id}];
        int p = ph.empty() ? 0 : groups[size_t(ph[0])].number;
        vector<int> w = {++n};
        if (!bin) {
          w.push_back(type_of(st.s.simplex, e.dim));
          w.push_back(ntags);
        }
        w.push_back(p);
        w.push_back(e.id);
        if (ntags > 2) w.push_back(12345);
        for (int v : e.verts) w.push_back(v + 1);
        for (size_t q = 0; q < w.size(); ++q) {
          if (bin)
            o.bin(int32_t(w[q]));
          else
            o.s += (q ? " " : "") + std::to_string(w[q]);
        }
        if (!bin) o.s += "\n";
      }
    }
    if (bin) o.s += "\n";
  }
  o.s += "$EndElements\n";
  if (f.extra) o.s += "$Periodic\n0\n$EndPeriodic\n";
  return o.s;
}

static Form choose_form(mc::Ctx& c, bool all) {
  Form f;
  f.format = c.choose(5);
  f.groups = c.choose(3);
  f.names = f.groups ? c.choose(4) : 0;
  if (all) c.split();
  f.numbering = f.format >= 3 ? c.choose(3) : 0;
  f.shuffled = c.flip();
  if (all) {
    f.parametric = f.format == 0 ? false : c.flip();
    f.extra = c.flip();
  }
  return f;
}
static void serial(mc::Ctx& c) {
  auto& st = starts()[size_t(c.choose(int(starts().size())))];
  auto f = choose_form(c, true);
  c.note("%s %s", st.name.c_str(), f.text().c_str());
  Desc want, got;
  auto text = emit(st, f, want);
  c.state(mc::Hash().add(text).h);
  oh::Library lib;
  std::istringstream in(text);
  auto m = oh::gmsh::read(in, lib.world());
  MKREQ(m.dim() == st.s.dim && (m.family() == OMEGA_H_SIMPLEX) == st.s.simplex, "kind", "dimension %d", m.dim());
  describe(m, got);
  compare(want, got, m.dim());
  compare_sets(want, m);
  mk::check_adjacencies(m);
  c.outcome(mc::Hash().add(sets_text(want.sets)).add(st.name).h);
}
// ranks: the file is read by one and the mesh spread
static void parallel(mc::Ctx& c, int n, int devs) {
  auto& st = starts()[size_t(c.choose(int(starts().size())))];
  auto f = choose_form(c, false);
  c.split();
  c.note("%s %s on %d ranks", st.name.c_str(), f.text().c_str(), n);
  Desc want;
  auto text = emit(st, f, want);
  minimpi::Options o;
  o.nranks = n;
  c.deviation_bound = devs;
  o.config = mc::Hash().add(text).add(n).h;
  c.state(o.config);
  Desc got;
  minimpi::run(c, o, [&](int) {
    oh::Library lib;
    bool w = minimpi::explore(false);
    std::istringstream in(text);
    minimpi::explore(w);
    auto m = oh::gmsh::read(in, lib.world());
    minimpi::explore(false);
    MKREQ(m.dim() == st.s.dim && (m.family() == OMEGA_H_SIMPLEX) == st.s.simplex, "kind", "dimension %d", m.dim());
    describe(m, got);
    compare_sets(want, m);
    MKREQ(m.parting() == OMEGA_H_ELEM_BASED, "parting", "a mesh read in parallel is not element-based");
  });
  compare(want, got, st.s.dim);
  c.outcome(mc::Hash().add(sets_text(want.sets)).add(st.name).h);
}
// what the library writes describes the mesh (read independently) and reads back
static void written(mc::Ctx& c) {
  auto& st = starts()[size_t(c.choose(int(starts().size())))];
  bool file = c.flip();
  bool reversed = c.flip();
  c.split();
  c.note("%s written %s%s", st.name.c_str(), file ? "to a file" : "to a stream", reversed ? ", elements reversed" : "");
  Desc want, got, back;
  auto ents = entities(st, want);
  Start s2 = st;
  if (reversed) std::reverse(s2.s.elems.begin(), s2.s.elems.end());
  oh::Library lib;
  auto m = mk::build(lib, s2.s);
  dress(m, s2);
  string text;
  string path = c.scratch() + "/m.msh";
  if (file) {
    oh::gmsh::write(path, &m);
    std::ifstream i(path.c_str());
    text.assign(std::istreambuf_iterator<char>(i), {});
  } else {
    std::ostringstream o;
    oh::gmsh::write(o, &m);
    text = o.str();
  }
  c.state(mc::Hash().add(text).h);
  // a strict reading of version 2.2
  std::istringstream i(text);
  string w;
  auto expect = [&](string s) {
    i >> w;
    MKREQ(w == s, "format", "\"%s\" where \"%s\" should be", w.c_str(), s.c_str());
  };
  expect("$MeshFormat");
  expect("2.2");
  expect("0");
  expect("8");
  expect("$EndMeshFormat");
  expect("$Nodes");
  size_t n = 0;
  i >> n;
  vector<P3> x;
  for (size_t k = 0; k < n && i; ++k) {
    size_t num;
    P3 p;
    i >> num >> p[0] >> p[1] >> p[2];
    MKREQ(num == k + 1, "format", "node %zu is numbered %zu", k, num);
    x.push_back(p);
  }
  expect("$EndNodes");
  expect("$Elements");
  i >> n;
  std::map<std::pair<int, Key>, int> seen;
  vector<vector<P3>> elems;
  for (size_t k = 0; k < n && i; ++k) {
    int num, type, ntags, p, e;
    i >> num >> type >> ntags >> p >> e;
    MKREQ(num == int(k) + 1 && ntags == 2, "format", "element %zu", k);
    int d = type == 15 ? 0 : type == 1 ? 1 : type == 2 || type == 3 ? 2 : 3;
    MKREQ(type == type_of(st.s.simplex, d), "format", "element type %d", type);
    vector<P3> q;
    for (int j = 0; j < mk::degree(st.s.simplex, d); ++j) {
      size_t v = 0;
      i >> v;
      MKREQ(v >= 1 && v <= x.size(), "format", "node %zu of %zu", v, x.size());
      q.push_back(x[v - 1]);
    }
    MKREQ(seen.insert({{d, key_of(q)}, e}).second, "written-twice", "a %d-entity is written twice", d);
    if (d == st.s.dim) elems.push_back(q);
  }
  expect("$EndElements");
  MKREQ(bool(i), "format", "the file ends early");
  MKREQ(std::multiset<vector<P3>>(elems.begin(), elems.end()) == want.elems, "elements", "the elements written are not those of the mesh");
  std::map<std::pair<int, Key>, int> should;
  for (int d = 0; d <= st.s.dim; ++d)
    for (auto& e : want.ents[d])
      if (e.second.first == d) should[{d, e.first}] = e.second.second;
  for (auto& e : should)
    if (!seen.count(e.first) || seen[e.first] != e.second) c.note("%d %s should be on %d, is on %d", e.first.first, dump(e.first.second).c_str(), e.second, seen.count(e.first) ? seen[e.first] : -99);
  MKREQ(should == seen, "written-class", "%zu classified entities written, the mesh has %zu (or others)", seen.size(), should.size());
  // and back
  std::istringstream again(text);
  auto b = file ? oh::gmsh::read(path, lib.world()) : oh::gmsh::read(again, lib.world());
  describe(b, back);
  compare(want, back, st.s.dim);
  c.outcome(mc::Hash().add(text).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C21",
      {
          {"read", serial, 60, false,
              "11 meshes (line, triangle, tet, quad, hex; 1-3 regions) x {2.2 ascii, 2.2 binary, 2.2 binary of the other byte order, 4.0, 4.1} x 3 kinds of physical groups x "
              "{all named, unnamed, names with spaces, some named} x 3 node numberings x order and orientation of boundary elements x parametric nodes / block lengths x extra sections, tags and spaces"},
          {"read2", [](mc::Ctx& c) { parallel(c, 2, c.thorough() ? 1 : 0); }, 60, false, "the same meshes and formats read by 2 ranks (thorough: <=1 schedule deviation)"},
          {"read4", [](mc::Ctx& c) { parallel(c, 4, 0); }, 60, false, "the same read by 4 ranks"},
          {"write", written, 60, false, "11 meshes, 2 element orders, stream or file: read by an independent parser and by the library"},
      });
}
