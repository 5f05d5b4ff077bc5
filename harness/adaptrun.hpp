// One adaptation scenario: a start mesh, a size field, options and a sequence
// of operations, run on one rank or many, checked after every step.
#ifndef VERIF_ADAPTRUN_HPP
#define VERIF_ADAPTRUN_HPP
#include <Omega_h_coarsen.hpp>
#include <Omega_h_refine.hpp>
#include <Omega_h_swap.hpp>
#include <Omega_h_quality.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_ghost.hpp>
#include <Omega_h_conserve.hpp>
#include "adaptkit.hpp"

namespace ak {
enum { REFINE, COARSEN, SWAP, SLIVERS, ADAPT, WARP, APPROACH, METRIC, NOPS };
// which of the promises this run checks (all inputs and operations are the same)
enum { VALID = 1, GUARANTEE = 2, FIELDS = 4 };
static unsigned aspects = 7;
static char const* op_names[] = {"refine", "coarsen", "swap", "slivers", "adapt", "warp", "approach", "metric"};
enum { NFIELDS = 6, NOPTS = 4 };

struct Case {
  std::string start;
  vector<double> h;   // size per vertex
  bool aniso = false;
  int opts = 0;
  vector<int> ops = {ADAPT};
  bool conserve = true;  // carry a conserved density
  int nranks = 1;
  vector<int> owner;
  int order = 0;  // permutation of the elements of the input (ordering independence)
  int reduce_order = 0;
  std::string text() const {
    std::string t = start + " h=" + str(h) + (aniso ? " aniso" : "") + " opts=" + std::to_string(opts) + " ops=";
    for (int o : ops) t += std::string(" ") + op_names[o];
    if (nranks > 1) t += " parts=" + str(owner);
    if (order) t += " order=" + std::to_string(order);
    return t;
  }
};

inline vector<double> field(Start const& st, int f) {
  vector<double> h;
  for (auto& x : st.x) {
    bool left = x[0] < 0.6;
    switch (f) {
      case 0: h.push_back(0.34); break;
      case 1: h.push_back(3); break;
      case 2: h.push_back(left ? 0.3 : 1.5); break;
      case 3: h.push_back(h.size() == 1 ? 0.2 : 0.9); break;
      case 4: h.push_back(0.3 + x[1] + x[2]); break;
      case 5: h.push_back(h.size() % 2 ? 0.35 : 2); break;
      // graded along x: the edges get short one by one (not among the NFIELDS)
      case 6: h.push_back(0.25 * std::exp(1.5 * x[0])); break;
      case 7: h.push_back(0.25 * std::exp(3 - 1.5 * x[0])); break;
      case 8: h.push_back(0.4 * std::exp(1.2 * x[0])); break;
    }
  }
  return h;
}
// the metric tensor of a size, per vertex: isotropic (1 component) or a
// rotated 1:3 stretch
inline vector<Real> metric_of(int dim, double h, bool aniso) {
  if (!aniso || dim == 1) return {1 / (h * h)};
  double a = 1 / (h * h), b = a / 4;
  if (dim == 2) {
    double c = 0.8, s = 0.6;  // rotation
    double xx = c * c * a + s * s * b, yy = s * s * a + c * c * b, xy = c * s * (a - b);
    return {xx, yy, xy};
  }
  double c = 0.8, s = 0.6;
  double xx = c * c * a + s * s * b, yy = s * s * a + c * c * b, xy = c * s * (a - b);
  return {xx, yy, a, xy, 0, 0};
}
inline int metric_ncomps(int dim, bool aniso) { return !aniso || dim == 1 ? 1 : (dim == 2 ? 3 : 6); }

inline int inherit_value(int cdim, int cid) { return cdim * 1000 + cid * 7; }
inline double linear_value(P3 x, int comp) { return 1 + comp + x[0] * (2 - comp) - 3 * x[1] + 0.5 * x[2] * (comp + 1); }

inline void add_fields(oh::Mesh& m, Case const& k, Start const& st) {
  int dim = m.dim();
  auto vg = m.globals(0);
  auto co = m.coords();
  vector<Real> met, lin;
  for (LO v = 0; v < m.nverts(); ++v) {
    auto t = metric_of(dim, k.h[size_t(vg[v])], k.aniso);
    met.insert(met.end(), t.begin(), t.end());
    P3 x{{0, 0, 0}};
    for (int a = 0; a < dim; ++a) x[size_t(a)] = co[v * dim + a];
    for (int c = 0; c < 2; ++c) lin.push_back(linear_value(x, c));
  }
  m.add_tag<Real>(0, "metric", metric_ncomps(dim, k.aniso), arr(met));
  if (!(aspects & FIELDS)) return;
  m.add_tag<Real>(0, "lin", 2, arr(lin));
  for (int d = 0; d <= dim; ++d) {
    auto cd = m.get_array<I8>(d, "class_dim");
    auto ci = m.get_array<I32>(d, "class_id");
    vector<I32> v;
    vector<Real> r;
    vector<I8> b;
    vector<I64> l;
    for (LO i = 0; i < m.nents(d); ++i) {
      int x = inherit_value(cd[i], ci[i]);
      v.push_back(x);
      v.push_back(-x);
      r.push_back(x / 8.0);
      b.push_back(I8(x % 100));
      l.push_back(I64(x) << 33);
    }
    m.add_tag<I32>(d, "inh", 2, arr(v));
    m.add_tag<Real>(d, "inhr", 1, arr(r));
    m.add_tag<I8>(d, "inhb", 1, arr(b));
    m.add_tag<I64>(d, "inhl", 1, arr(l));
  }
  auto eg = m.globals(dim);
  vector<Real> dens, pw, cons;
  for (LO e = 0; e < m.nelems(); ++e) {
    double g = double(eg[e]);
    dens.push_back(1 + std::fmod(g * 0.37, 1.0));
    dens.push_back(5);  // constant densities stay constant
    pw.push_back(1000 + g);
    cons.push_back(0.5 + std::fmod(g * 0.61, 2.0));
  }
  m.add_tag<Real>(dim, "dens", 2, arr(dens));
  m.add_tag<Real>(dim, "pw", 1, arr(pw));
  if (k.conserve) {
    m.add_tag<Real>(dim, "cons", 1, arr(cons));
    vector<Real> vel;
    for (LO v = 0; v < m.nverts(); ++v)
      for (int c = 0; c < dim; ++c) vel.push_back(std::sin(double(vg[v]) + 0.3 * c));
    m.add_tag<Real>(0, "vel", dim, arr(vel));
  }
  (void)st;
}
inline oh::AdaptOpts make_opts(oh::Mesh& m, Case const& k) {
  oh::AdaptOpts o(&m);
  o.verbosity = oh::SILENT;
  if (k.opts == 1) o.should_swap = o.should_coarsen_slivers = false;
  if (k.opts == 2) o.should_prevent_coarsen_flip = true;
  if (k.opts == 3) {
    o.min_quality_allowed = m.dim() == 1 ? 0 : 0.1;
    o.min_quality_desired = m.dim() == 1 ? 0 : 0.75;
    o.nsliver_layers = 1;
  }
  if (!(aspects & FIELDS)) return o;
  auto& x = o.xfer_opts;
  x.type_map["lin"] = OMEGA_H_LINEAR_INTERP;
  x.type_map["inh"] = OMEGA_H_INHERIT;
  x.type_map["inhr"] = OMEGA_H_INHERIT;
  x.type_map["inhb"] = OMEGA_H_INHERIT;
  x.type_map["inhl"] = OMEGA_H_INHERIT;
  x.type_map["dens"] = OMEGA_H_DENSITY;
  x.type_map["pw"] = OMEGA_H_POINTWISE;
  if (k.conserve) {
    x.type_map["cons"] = OMEGA_H_CONSERVE;
    x.integral_map["cons"] = "mass";
    x.integral_diffuse_map["mass"] = oh::VarCompareOpts{oh::VarCompareOpts::RELATIVE, 0.9, 0.0};
    x.type_map["vel"] = OMEGA_H_MOMENTUM_VELOCITY;
    x.velocity_density_map["vel"] = "cons";
    x.velocity_momentum_map["vel"] = "momentum";
    x.integral_diffuse_map["momentum"] = oh::VarCompareOpts::none();
  }
  return o;
}

// ---- naive measures -------------------------------------------------------
inline double quality_iso(int dim, vector<P3> const& p, double m) {
  // mean ratio in the metric m * I
  double v = volume(dim, p) * std::pow(m, dim / 2.0);
  double msl = 0;
  int n = 0;
  for (size_t i = 0; i < p.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      double l = 0;
      for (int a = 0; a < 3; ++a) l += (p[i][size_t(a)] - p[j][size_t(a)]) * (p[i][size_t(a)] - p[j][size_t(a)]);
      msl += l * m;
      ++n;
    }
  msl /= n;
  double eq = dim == 1 ? 1 : dim == 2 ? std::sqrt(3.0) / 4 : 1 / (6 * std::sqrt(2.0));
  if (v < 0) return v;
  return std::pow(v / eq, 2.0 / dim) / msl;
}

// watches every cavity that the library rebuilds
struct Watcher : public oh::UserTransfer {
  oh::AdaptOpts const* o = nullptr;
  uint64_t cavities = 0;
  Real floor_quality = 0;
  Watcher() {}
  static double sum_size(oh::Mesh& m, vector<LO> const& es) {
    double s = 0;
    auto sz = m.ask_sizes();
    for (auto e : es) s += sz[e];
    return s;
  }
  static double min_quality(oh::Mesh& m, vector<LO> const& es) {
    if (es.empty()) return 1;
    return oh::get_min(oh::measure_qualities(&m, arr(es)));
  }
  void cavity(char const* what, oh::Mesh& om, oh::Mesh& nm, vector<LO> const& olds, vector<LO> const& news, bool improve) {
    ++cavities;
    double a = sum_size(om, olds), b = sum_size(nm, news);
    MKREQ(std::fabs(a - b) <= 1e-9 * a, "cavity-volume", "%s: a cavity of size %.17g is refilled with size %.17g", what, a, b);
    if (!(aspects & GUARANTEE)) return;
    double q = min_quality(nm, news), oq = min_quality(om, olds);
    MKREQ(q >= o->min_quality_allowed - 1e-12 || what[0] == 's', "quality-floor", "%s: a new element has quality %g, %g is the minimum allowed", what, q, o->min_quality_allowed);
    if (improve) MKREQ(q > oq, "no-improvement", "%s: a cavity of quality %g is replaced by one of quality %g", what, oq, q);
  }
  static vector<vector<LO>> by_key(oh::Graph g, oh::LOs keys) {
    vector<vector<LO>> r;
    for (LO k = 0; k < keys.size(); ++k) {
      r.push_back({});
      for (LO j = g.a2ab[keys[k]]; j < g.a2ab[keys[k] + 1]; ++j) r.back().push_back(g.ab2b[j]);
    }
    return r;
  }
  static vector<vector<LO>> prods(oh::LOs k2p, oh::LOs p2n) {
    vector<vector<LO>> r;
    for (LO k = 0; k + 1 < k2p.size(); ++k) {
      r.push_back({});
      for (LO j = k2p[k]; j < k2p[k + 1]; ++j) r.back().push_back(p2n[j]);
    }
    return r;
  }
  void same(oh::Mesh& om, oh::Mesh& nm, int d, oh::LOs s2o, oh::LOs s2n, oh::LOs p2n) {
    if (!(aspects & FIELDS)) return;
    MKREQ(s2o.size() == s2n.size(), "same-map", "%d: %d old, %d new", d, s2o.size(), s2n.size());
    std::set<LO> seen;
    for (LO i = 0; i < s2n.size(); ++i) MKREQ(s2n[i] >= 0 && s2n[i] < nm.nents(d) && seen.insert(s2n[i]).second, "same-map", "new %d-entity %d is mapped twice", d, s2n[i]);
    for (LO i = 0; i < p2n.size(); ++i) MKREQ(p2n[i] >= 0 && p2n[i] < nm.nents(d) && seen.insert(p2n[i]).second, "prod-map", "new %d-entity %d is mapped twice", d, p2n[i]);
    MKREQ(LO(seen.size()) == nm.nents(d), "all-mapped", "%zu of %d new %d-entities come from somewhere", seen.size(), nm.nents(d), d);
    // kept entities keep their points
    if (d == om.dim()) {
      auto oev = om.ask_verts_of(d);
      auto nev = nm.ask_verts_of(d);
      auto oc = om.coords(), nc = nm.coords();
      int n = d + 1, dim = om.dim();
      for (LO i = 0; i < s2o.size(); ++i)
        for (int j = 0; j < n; ++j)
          for (int a = 0; a < dim; ++a)
            MKREQ(oc[oev[s2o[i] * n + j] * dim + a] == nc[nev[s2n[i] * n + j] * dim + a], "kept-moved", "kept element %d changed", s2o[i]);
    }
  }
  void refine(oh::Mesh& om, oh::Mesh& nm, oh::LOs k2e, oh::LOs, int d, oh::LOs k2p, oh::LOs p2n, oh::LOs s2o, oh::LOs s2n) override {
    same(om, nm, d, s2o, s2n, p2n);
    if (d != om.dim()) return;
    auto olds = by_key(om.ask_graph(1, d), k2e);
    auto news = prods(k2p, p2n);
    for (size_t i = 0; i < olds.size(); ++i) cavity("refine", om, nm, olds[i], news[i], false);
  }
  void coarsen(oh::Mesh& om, oh::Mesh& nm, oh::LOs k2v, oh::Adj k2d, int d, oh::LOs p2n, oh::LOs s2o, oh::LOs s2n) override {
    same(om, nm, d, s2o, s2n, p2n);
    if (d == 1 && (aspects & GUARANTEE)) {
      auto len = oh::measure_edges_metric(&nm, p2n);
      for (LO i = 0; i < len.size(); ++i)
        MKREQ(len[i] < o->max_length_allowed + 1e-12, "length-ceiling", "coarsen: a new edge has length %g, %g is the maximum allowed", len[i], o->max_length_allowed);
    }
    if (d != om.dim()) return;
    auto olds = by_key(om.ask_graph(0, d), k2v);
    auto news = prods(k2d.a2ab, p2n);
    for (size_t i = 0; i < olds.size(); ++i) cavity("coarsen", om, nm, olds[i], news[i], slivers);
  }
  void swap(oh::Mesh& om, oh::Mesh& nm, int d, oh::LOs k2e, oh::LOs k2p, oh::LOs p2n, oh::LOs s2o, oh::LOs s2n) override {
    same(om, nm, d, s2o, s2n, p2n);
    if (d == 1 && (aspects & GUARANTEE)) {
      auto len = oh::measure_edges_metric(&nm, p2n);
      for (LO i = 0; i < len.size(); ++i)
        MKREQ(len[i] <= o->max_length_allowed + 1e-12, "length-ceiling", "swap: a new edge has length %g, %g is the maximum allowed", len[i], o->max_length_allowed);
    }
    if (d != om.dim()) return;
    auto olds = by_key(om.ask_graph(1, d), k2e);
    auto news = prods(k2p, p2n);
    for (size_t i = 0; i < olds.size(); ++i) cavity("swap", om, nm, olds[i], news[i], true);
  }
  void swap_copy_verts(oh::Mesh& om, oh::Mesh& nm) override {
    MKREQ(om.nverts() == nm.nverts(), "swap-verts", "a swap changes the number of vertices");
  }
  bool slivers = false;
};

struct Totals {
  std::map<int, double> dens, one, cons;  // per region
  P3 mom{{0, 0, 0}};
  double pwmin = 1e300, pwmax = -1e300, cmin = 1e300, cmax = -1e300;
};
inline Totals totals(Global const& g, bool conserve) {
  Totals t;
  int dim = g.dim;
  for (auto& e : g.ents[dim]) {
    int id = int(e.second.tags.at("class_id")[0]);
    double v = g.vol(e.second);
    auto& d = e.second.tags.at("dens");
    t.dens[id] += d[0] * v;
    t.one[id] += d[1] * v;
    t.cmin = std::min(t.cmin, d[1]);
    t.cmax = std::max(t.cmax, d[1]);
    if (e.second.tags.count("pw")) {
      double p = e.second.tags.at("pw")[0];
      t.pwmin = std::min(t.pwmin, p);
      t.pwmax = std::max(t.pwmax, p);
    }
    if (conserve) {
      double c = e.second.tags.at("cons")[0];
      t.cons[id] += c * v;
      for (auto vv : e.second.verts) {
        auto& vel = g.ents[0].at({vv}).tags.at("vel");
        for (int a = 0; a < dim; ++a) t.mom[size_t(a)] += vel[size_t(a)] * c * v / (dim + 1);
      }
    }
  }
  return t;
}
// transferred fields are what their kind of transfer promises
inline void check_fields(Global const& g, Case const& k, Totals const& before, char const* w, bool moved, bool corrected, std::set<double> const& pw_values) {
  int dim = g.dim;
  auto now = totals(g, k.conserve);
  if (!moved) {
    for (auto& p : before.dens)
      MKREQ(std::fabs(p.second - now.dens[p.first]) <= 1e-9 * std::fabs(p.second), "density-integral", "%s: the integral of a density over region %d was %.17g, is %.17g", w,
          p.first, p.second, now.dens[p.first]);
    MKREQ(std::fabs(now.cmin - 5) < 1e-9 && std::fabs(now.cmax - 5) < 1e-9, "density-constant", "%s: a constant density 5 is now in [%.17g,%.17g]", w, now.cmin, now.cmax);
    if (k.conserve && corrected) {
      double s = 0, t = 0;
      for (auto& p : before.cons) {
        s += p.second;
        t += now.cons[p.first];
        MKREQ(std::fabs(p.second - now.cons[p.first]) <= 1e-9 * std::fabs(p.second), "conserved", "%s: the conserved integral over region %d was %.17g, is %.17g", w,
            p.first, p.second, now.cons[p.first]);
      }
      for (int a = 0; a < dim; ++a)
        MKREQ(std::fabs(before.mom[size_t(a)] - now.mom[size_t(a)]) <= 1e-6, "momentum", "%s: momentum component %d was %.17g, is %.17g", w, a, before.mom[size_t(a)],
            now.mom[size_t(a)]);
    }
  }
  for (auto& v : g.ents[0]) {
    auto& l = v.second.tags.at("lin");
    if (!moved)
      for (int c = 0; c < 2; ++c)
        MKREQ(std::fabs(l[size_t(c)] - linear_value(g.x.at(v.second.verts[0]), c)) < 1e-12, "linear-field", "%s: a linear field is %.17g where it should be %.17g", w,
            l[size_t(c)], linear_value(g.x.at(v.second.verts[0]), c));
    auto& m = v.second.tags.at("metric");
    MKREQ(int(m.size()) == metric_ncomps(dim, k.aniso), "metric", "%s: the metric has %zu components", w, m.size());
    bool pos = m[0] > 0;
    if (m.size() == 3) pos = pos && m[0] * m[1] - m[2] * m[2] > 0;
    if (m.size() == 6) pos = pos && m[0] * m[1] - m[3] * m[3] > 0 && m[2] > 0;
    MKREQ(pos, "metric", "%s: a metric is not positive definite: %s", w, str(m).c_str());
  }
  for (int d = 0; d <= dim; ++d)
    for (auto& e : g.ents[d]) {
      int x = inherit_value(int(e.second.tags.at("class_dim")[0]), int(e.second.tags.at("class_id")[0]));
      auto& t = e.second.tags;
      MKREQ(t.at("inh")[0] == x && t.at("inh")[1] == -x && t.at("inhr")[0] == x / 8.0 && t.at("inhb")[0] == I8(x % 100) && t.at("inhl")[0] == double(I64(x) << 33),
          "inherit", "%s: %d-entity %s inherited %s, its classification has %d", w, d, str(e.second.verts).c_str(), str(t.at("inh")).c_str(), x);
    }
  if (dim > 1)
    for (auto& e : g.ents[dim])
      MKREQ(pw_values.count(e.second.tags.at("pw")[0]), "pointwise", "%s: a pointwise value %g is not one of the old ones", w, e.second.tags.at("pw")[0]);
}
// quality and length tags that the mesh keeps are those of its elements
inline void check_cached(oh::Mesh& m, Case const& k, char const* w) {
  int dim = m.dim();
  auto close = [&](oh::Reals a, oh::Reals b, char const* what) {
    MKREQ(a.size() == b.size(), "cached", "%s: %s has the wrong size", w, what);
    for (LO i = 0; i < a.size(); ++i)
      MKREQ(std::fabs(a[i] - b[i]) <= 1e-13 * std::max(1.0, std::fabs(b[i])), "cached", "%s: the stored %s of entity %d is %.17g, measuring gives %.17g", w, what, i, a[i], b[i]);
  };
  if (m.has_tag(1, "length")) close(m.get_array<Real>(1, "length"), oh::measure_edges_metric(&m), "length");
  if (m.has_tag(dim, "quality")) close(m.get_array<Real>(dim, "quality"), oh::measure_qualities(&m), "quality");
  if (m.has_tag(dim, "size")) close(m.get_array<Real>(dim, "size"), oh::measure_elements_real(&m), "size");
  // the measures themselves, naively, in isotropic metrics
  auto co = m.coords();
  auto me = m.get_array<Real>(0, "metric");
  if (metric_ncomps(dim, k.aniso) != 1) return;
  auto ev = m.ask_verts_of(dim);
  auto q = m.ask_qualities();
  auto sz = m.ask_sizes();
  for (LO e = 0; e < m.nelems(); ++e) {
    vector<P3> p;
    double mm = 0;
    for (int j = 0; j <= dim; ++j) {
      P3 x{{0, 0, 0}};
      LO v = ev[e * (dim + 1) + j];
      for (int a = 0; a < dim; ++a) x[size_t(a)] = co[v * dim + a];
      p.push_back(x);
      mm = std::max(mm, me[v]);
    }
    if (dim > 1) {
      double want = quality_iso(dim, p, mm);
      MKREQ(std::fabs(q[e] - want) < 1e-9, "quality", "%s: the quality of element %d is %.17g, its definition gives %.17g", w, e, q[e], want);
    }
    MKREQ(std::fabs(sz[e] - volume(dim, p)) < 1e-12, "size", "%s: size of element %d", w, e);
  }
  auto ee = m.ask_verts_of(1);
  auto len = m.ask_lengths();
  for (LO e = 0; e < m.nedges(); ++e) {
    double l = 0;
    for (int a = 0; a < dim; ++a) {
      double d = co[ee[2 * e] * dim + a] - co[ee[2 * e + 1] * dim + a];
      l += d * d;
    }
    l = std::sqrt(l);
    double h0 = 1 / std::sqrt(me[ee[2 * e]]), h1 = 1 / std::sqrt(me[ee[2 * e + 1]]);
    // any sensible measure lies between the two sizes
    double lo = l / std::max(h0, h1), hi = l / std::min(h0, h1);
    MKREQ(len[e] >= lo - 1e-9 && len[e] <= hi + 1e-9, "length", "%s: edge %d has length %.17g, its end sizes bound it by [%.17g,%.17g]", w, e, len[e], lo, hi);
  }
}

struct Step {
  bool ret = false, threw = false;
  std::string what;
};
struct Result {
  vector<Snap> snaps;  // after each op; snaps[0] is the input
  vector<Step> steps;
  uint64_t cavities = 0;
};

inline Soup ordered(Start const& st, int order) {
  Soup s = st.s;
  if (order == 1) std::reverse(s.elems.begin(), s.elems.end());
  return s;
}

inline Step do_op(oh::Mesh& m, Case const& k, Start const& st, oh::AdaptOpts const& o, Watcher* w, int op) {
  Step r;
  auto min_q = oh::get_min(m.comm(), m.ask_qualities());
  w->slivers = op == SLIVERS;
  int dim = m.dim();
  switch (op) {
    case REFINE: r.ret = oh::refine_by_size(&m, o); break;
    case COARSEN: r.ret = oh::coarsen_by_size(&m, o); break;
    case SWAP:
      if (min_q < o.min_quality_desired) r.ret = oh::swap_edges(&m, o);
      break;
    case SLIVERS:
      if (min_q < o.min_quality_desired) r.ret = oh::coarsen_slivers(&m, o);
      break;
    case ADAPT: {
      // (which low qualities count as fixable is left to the library)
      bool lengths = oh::get_min(m.comm(), m.ask_lengths()) >= o.min_length_desired && oh::get_max(m.comm(), m.ask_lengths()) <= o.max_length_desired;
      bool good = min_q >= o.min_quality_desired;
      r.ret = oh::adapt(&m, o);
      MKREQ(r.ret ? !lengths || !good : lengths, "adapt-reports", "adapt says %d of a mesh whose lengths were %s", r.ret, lengths ? "fine" : "to be adapted");
      break;
    }
    case WARP: {
      auto cd = m.get_array<I8>(0, "class_dim");
      auto co = m.coords();
      vector<Real> warp;
      for (LO v = 0; v < m.nverts(); ++v)
        for (int a = 0; a < dim; ++a) warp.push_back(cd[v] == dim ? 0.11 * (a ? -1 : 1) * (1 + co[v * dim]) : 0.0);
      m.add_tag<Real>(0, "warp", dim, arr(warp));
      bool okay = min_q >= o.min_quality_allowed && m.max_length() <= o.max_length_allowed;
      if (!okay) {
        m.remove_tag(0, "warp");
        break;
      }
      r.ret = oh::warp_to_limit(&m, o, true, 20);
      auto q = oh::get_min(m.comm(), m.ask_qualities());
      MKREQ(!m.has_tag(0, "warp") || (q >= o.min_quality_allowed && m.max_length() <= o.max_length_allowed), "warp-limit", "warp: quality %g", q);
      if (m.has_tag(0, "warp")) {
        // the part of the warp not yet done is kept
        auto rest = m.get_array<Real>(0, "warp");
        auto nc = m.coords();
        for (LO i = 0; i < rest.size(); ++i)
          MKREQ(std::fabs(nc[i] + rest[i] - (co[i] + warp[size_t(i)])) < 1e-12, "warp-rest", "warp: %.17g done and %.17g left of %.17g", nc[i] - co[i], rest[i], warp[size_t(i)]);
        m.remove_tag(0, "warp");
      }
      break;
    }
    case APPROACH: {
      auto me = m.get_array<Real>(0, "metric");
      vector<Real> t;
      for (LO i = 0; i < me.size(); ++i) t.push_back(me[i] * 6);
      int nc = me.size() / std::max(1, m.nverts());
      m.add_tag<Real>(0, "target_metric", metric_ncomps(dim, k.aniso), arr(t));
      (void)nc;
      if (min_q >= o.min_quality_allowed && m.max_length() <= o.max_length_allowed) {
        try {
          r.ret = oh::approach_metric(&m, o);
          auto q = oh::get_min(m.comm(), m.ask_qualities());
          MKREQ(q >= o.min_quality_allowed && m.max_length() <= o.max_length_allowed, "approach-limit", "approach: quality %g length %g", q, m.max_length());
        } catch (oh::exception const&) {
          r.threw = true;  // stalled
        }
      }
      if (m.has_tag(0, "target_metric")) m.remove_tag(0, "target_metric");
      break;
    }
    case METRIC: {
      // the user asks for another metric after everything has been measured
      m.ask_lengths();
      m.ask_qualities();
      m.ask_sizes();
      auto co = m.coords();
      auto me = m.get_array<Real>(0, "metric");
      int nc = metric_ncomps(dim, k.aniso);
      vector<Real> t;
      for (LO v = 0; v < m.nverts(); ++v) {
        Real const* a = me.data() + v * nc;
        Real f = co[v * dim] > 0.4501 ? 3 : 1;
        if (nc == 1) t.push_back(a[0] * f);
        if (nc == 3) for (Real x : {a[1], a[0], -a[2]}) t.push_back(x * f);
        if (nc == 6) for (Real x : {a[1], a[0], a[2], -a[3], a[5], -a[4]}) t.push_back(x * f);
      }
      m.set_tag(0, "metric", arr(t));
      break;
    }
  }
  (void)st;
  return r;
}

inline void check_step(Case const& k, Start const& st, Global const& was, Global const& now, Step const& s, int op, oh::AdaptOpts const& o, char const* w) {
  (void)k; (void)st; (void)o;
  size_t a = was.ents[0].size(), b = now.ents[0].size();
  size_t ea = was.ents[was.dim].size(), eb = now.ents[now.dim].size();
  if (op == REFINE) MKREQ(s.ret ? b > a : (a == b && ea == eb), "progress", "%s: refinement says %d, %zu vertices become %zu", w, s.ret, a, b);
  if (op == ADAPT && !s.ret) MKREQ(a == b && ea == eb, "progress", "%s: nothing to adapt, but %zu vertices become %zu", w, a, b);
  if (op == COARSEN || op == SLIVERS) MKREQ(s.ret ? b < a : (a == b && ea == eb), "progress", "%s: coarsening says %d, %zu vertices become %zu", w, s.ret, a, b);
  if (op == SWAP) MKREQ(a == b, "progress", "%s: swapping turns %zu vertices into %zu", w, a, b);
}

inline void run_serial(mc::Ctx& c, Case k) {
  if (!(aspects & FIELDS)) k.conserve = false;
  auto& st = start(k.start);
  c.note("%s", k.text().c_str());
  mc::Hash hs;
  hs.add(k.text());
  c.state(hs.h);
  minimpi::Options mo;
  mo.nranks = 1;
  mo.explore = false;
  minimpi::run(c, mo, [&](int) {
    oh::Library lib;
    oh::Mesh m = mk::build(lib, ordered(st, k.order));
    dress(m, st);
    add_fields(m, k, st);
    auto o = make_opts(m, k);
    auto w = std::make_shared<Watcher>();
    o.xfer_opts.user_xfer = w;
    w->o = &o;
    bool all_adapt = true;
    for (int op : k.ops) all_adapt = all_adapt && op == ADAPT;
    auto snap = [&](std::string what) {
      Snap s;
      s.what = what;
      s.r = {dk::snapshot(m)};
      return s;
    };
    Global g = check_model_mesh(snap("input"), st.model);
    Totals t0;
    std::set<double> pw;
    if (aspects & FIELDS) t0 = totals(g, k.conserve);
    if (aspects & FIELDS) for (auto& e : g.ents[g.dim]) pw.insert(e.second.tags.at("pw")[0]);
    bool moved = false;
    // an input below the floor may stay below it
    double q0 = oh::get_min(m.ask_qualities());
    std::string what = "input";
    for (int op : k.ops) {
      what += std::string(" ") + op_names[op];
      auto s = do_op(m, k, st, o, w.get(), op);
      moved = moved || (op == WARP && s.ret);
      Global n = (aspects & VALID) ? check_model_mesh(snap(what), st.model) : gather(snap(what), m.dim());
      if (aspects & VALID) check_step(k, st, g, n, s, op, o, what.c_str());
      if (aspects & FIELDS) check_fields(n, k, t0, what.c_str(), moved, all_adapt, pw);
      if (aspects & GUARANTEE) check_cached(m, k, what.c_str());
      if (aspects & VALID) mk::check_adjacencies(m);
      double q = oh::get_min(m.ask_qualities());
      if ((aspects & GUARANTEE) && op != WARP && op != APPROACH && op != METRIC)
        MKREQ(q >= std::min(q0, o.min_quality_allowed) - 1e-12, "quality-floor", "%s: the worst quality was %g and is %g, %g is allowed", what.c_str(), q0, q, o.min_quality_allowed);
      q0 = q;
      g = n;
      c.outcome(n.hash());
    }
    c.exec(k.ops.size() - 1);
    c.step(w->cavities + 1);
  });
}
}  // namespace ak
#endif
