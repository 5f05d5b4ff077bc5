// Everything a mesh holds, as plain data: for round trips and for an
// independent reading and writing of the .osh format (all its versions).
#ifndef VERIF_IMAGE_HPP
#define VERIF_IMAGE_HPP
#include <Omega_h_inertia.hpp>
#include <Omega_h_mesh.hpp>
#include <Omega_h_tag.hpp>
#include <zlib.h>
#include "meshkit.hpp"

namespace im {
using std::string;
using std::vector;
using Bytes = string;  // raw memory of an array

template <class T>
inline Bytes raw(oh::Read<T> a) {
  Bytes b;
  for (LO i = 0; i < a.size(); ++i) {
    T x = a[i];
    b.append(reinterpret_cast<char const*>(&x), sizeof x);
  }
  return b;
}
template <class T>
inline oh::Read<T> unraw(Bytes const& b) {
  vector<T> v(b.size() / sizeof(T));
  if (!b.empty()) memcpy(v.data(), b.data(), v.size() * sizeof(T));
  return arr(v);
}
struct TagImage {
  string name;
  int ncomps, type;
  Bytes data;
  bool operator==(TagImage const& o) const { return name == o.name && ncomps == o.ncomps && type == o.type && data == o.data; }
};
struct Image {
  int family = 0, dim = 0, size = 1, rank = 0, parting = 0, layers = 0;
  bool hints = false;
  vector<double> axes;
  int nents[4] = {0, 0, 0, 0};
  Bytes ab2b[4], codes[4];
  vector<TagImage> tags[4];
  Bytes oranks[4], oidxs[4];
  vector<std::pair<string, vector<std::pair<int, int>>>> sets;
  bool parents = false;
  Bytes pidx[4], pcodes[4];
};
inline int type_size(int t) { return t == OMEGA_H_I8 ? 1 : t == OMEGA_H_I32 ? 4 : 8; }

inline Image take(oh::Mesh& m) {
  Image x;
  x.family = m.family();
  x.dim = m.dim();
  x.size = m.comm()->size();
  x.rank = m.comm()->rank();
  x.parting = m.parting();
  x.layers = m.nghost_layers();
  if (auto h = m.rib_hints()) {
    x.hints = true;
    for (auto& a : h->axes)
      for (int i = 0; i < 3; ++i) x.axes.push_back(a[i]);
  }
  for (int d = 0; d <= x.dim; ++d) {
    x.nents[d] = m.nents(d);
    if (d) {
      auto a = m.ask_down(d, d - 1);
      x.ab2b[d] = raw(a.ab2b);
      if (d > 1) x.codes[d] = raw(a.codes);
    }
    for (int i = 0; i < m.ntags(d); ++i) {
      auto t = m.get_tag(d, i);
      TagImage ti{t->name(), t->ncomps(), t->type(), ""};
      if (oh::is<I8>(t)) ti.data = raw(oh::as<I8>(t)->array());
      if (oh::is<I32>(t)) ti.data = raw(oh::as<I32>(t)->array());
      if (oh::is<I64>(t)) ti.data = raw(oh::as<I64>(t)->array());
      if (oh::is<Real>(t)) ti.data = raw(oh::as<Real>(t)->array());
      x.tags[d].push_back(ti);
    }
    if (x.size > 1) {
      auto o = m.ask_owners(d);
      x.oranks[d] = raw(o.ranks);
      x.oidxs[d] = raw(o.idxs);
    }
  }
  for (auto& s : m.class_sets) {
    x.sets.push_back({s.first, {}});
    for (auto& p : s.second) x.sets.back().second.push_back({p.dim, p.id});
  }
  x.parents = m.has_any_parents();
  if (x.parents)
    for (int d = 0; d <= x.dim; ++d) {
      auto p = m.ask_parents(d);
      x.pidx[d] = raw(p.parent_idx);
      x.pcodes[d] = raw(p.codes);
    }
  return x;
}
// "" when equal
inline string diff(Image const& a, Image const& b, bool tag_order = true) {
  std::ostringstream s;
#define IMD(f) \
  if (a.f != b.f) s << #f << " " << a.f << " became " << b.f << "; "
  IMD(family);
  IMD(dim);
  IMD(size);
  IMD(rank);
  IMD(parting);
  IMD(layers);
  IMD(hints);
  IMD(parents);
#undef IMD
  if (a.axes.size() != b.axes.size() || (a.axes.size() && memcmp(a.axes.data(), b.axes.data(), a.axes.size() * 8))) s << "hint axes differ; ";
  if (a.sets != b.sets) s << "class sets differ; ";
  for (int d = 0; d < 4; ++d) {
    if (a.nents[d] != b.nents[d]) s << d << "-entities: " << a.nents[d] << " became " << b.nents[d] << "; ";
    if (a.ab2b[d] != b.ab2b[d]) s << "down adjacency of dimension " << d << " differs; ";
    if (a.codes[d] != b.codes[d]) s << "alignment codes of dimension " << d << " differ; ";
    if (a.oranks[d] != b.oranks[d] || a.oidxs[d] != b.oidxs[d]) s << "owners of dimension " << d << " differ; ";
    if (a.pidx[d] != b.pidx[d] || a.pcodes[d] != b.pcodes[d]) s << "parents of dimension " << d << " differ; ";
    auto ta = a.tags[d], tb = b.tags[d];
    auto less = [](TagImage const& x, TagImage const& y) { return x.name < y.name; };
    if (!tag_order) {
      std::sort(ta.begin(), ta.end(), less);
      std::sort(tb.begin(), tb.end(), less);
    }
    if (ta.size() != tb.size()) {
      s << "dimension " << d << " has " << tb.size() << " tags instead of " << ta.size() << "; ";
      continue;
    }
    for (size_t i = 0; i < ta.size(); ++i)
      if (!(ta[i] == tb[i]))
        s << "tag " << i << " of dimension " << d << " (" << ta[i].name << ", " << ta[i].ncomps << " comps, type " << ta[i].type << ") became ("
          << tb[i].name << ", " << tb[i].ncomps << " comps, type " << tb[i].type << (ta[i].data != tb[i].data ? ", other values" : "") << "); ";
  }
  return s.str();
}

// ---- independent .osh writer and reader
struct Out {
  string s;
  template <class T>
  void val(T v) {
    s.append(reinterpret_cast<char const*>(&v), sizeof v);
  }
  void str(string const& x) {
    val(I32(x.size()));
    s += x;
  }
  void arr(Bytes const& b, int item, bool zip) {
    val(I32(b.size() / size_t(item)));
    if (!zip) {
      s += b;
      return;
    }
    uLong n = compressBound(uLong(b.size()));
    vector<Bytef> z(n);
    compress2(z.data(), &n, reinterpret_cast<Bytef const*>(b.data()), uLong(b.size()), 6);
    val(I64(n));
    s.append(reinterpret_cast<char*>(z.data()), n);
  }
};
inline string emit(Image const& x, int version, bool zip, bool version_in_stream) {
  Out o;
  o.s = "\xa1\x1a";
  if (version_in_stream) o.val(I32(version));
  o.val(I8(zip));
  if (version >= 7) o.val(I8(x.family));
  o.val(I8(x.dim));
  o.val(I32(x.size));
  o.val(I32(x.rank));
  o.val(I8(x.parting));
  if (version >= 3) o.val(I32(x.layers));
  o.val(I8(x.hints));
  if (x.hints) {
    o.val(I32(x.axes.size() / 3));
    for (double a : x.axes) o.val(a);
  }
  if (version < 6) o.val(I8(1));
  o.val(I32(x.nents[0]));
  for (int d = 1; d <= x.dim; ++d) {
    o.arr(x.ab2b[d], 4, zip);
    if (d > 1) o.arr(x.codes[d], 1, zip);
  }
  for (int d = 0; d <= x.dim; ++d) {
    o.val(I32(x.tags[d].size()));
    for (auto& t : x.tags[d]) {
      o.str(t.name);
      o.val(I8(t.ncomps));
      o.val(I8(t.type));
      if (version < 5) {
        o.val(I8(3));
        if (version >= 2) o.val(I8(7));
      }
      o.arr(t.data, type_size(t.type), zip);
    }
    if (x.size > 1) {
      o.arr(x.oranks[d], 4, zip);
      o.arr(x.oidxs[d], 4, zip);
    }
  }
  if (version >= 8) {
    o.val(I32(x.sets.size()));
    for (auto& s : x.sets) {
      o.str(s.first);
      o.val(I32(s.second.size()));
      for (auto& p : s.second) {
        o.val(I32(p.first));
        o.val(I32(p.second));
      }
    }
  }
  if (version >= 9) {
    o.val(I8(x.parents));
    if (x.parents)
      for (int d = 0; d <= x.dim; ++d) {
        o.arr(x.pidx[d], 4, zip);
        o.arr(x.pcodes[d], 1, zip);
      }
  }
  return o.s;
}
struct In {
  string const& s;
  size_t p = 0;
  bool zip = false;
  explicit In(string const& x) : s(x) {}
  void need(size_t n) { MKREQ(p + n <= s.size(), "osh-format", "the .osh stream is shorter than its format requires (at byte %zu)", p); }
  template <class T>
  T val() {
    need(sizeof(T));
    T v;
    memcpy(&v, s.data() + p, sizeof v);
    p += sizeof v;
    return v;
  }
  string str() {
    auto n = val<I32>();
    MKREQ(n >= 0, "osh-format", "negative string length");
    need(size_t(n));
    string r = s.substr(p, size_t(n));
    p += size_t(n);
    return r;
  }
  Bytes arr(int item) {
    auto n = val<I32>();
    MKREQ(n >= 0 && n < 100000, "osh-format", "array length %d", n);
    size_t bytes = size_t(n) * size_t(item);
    if (!zip) {
      need(bytes);
      p += bytes;
      return s.substr(p - bytes, bytes);
    }
    auto z = val<I64>();
    MKREQ(z >= 0, "osh-format", "negative compressed size");
    need(size_t(z));
    Bytes out(bytes, '\0');
    uLong got = uLong(bytes);
    Bytef dummy = 0;
    int r = uncompress(bytes ? reinterpret_cast<Bytef*>(&out[0]) : &dummy, &got, reinterpret_cast<Bytef const*>(s.data() + p), uLong(z));
    MKREQ(r == Z_OK && got == bytes, "osh-format", "array does not decompress (%d)", r);
    p += size_t(z);
    return out;
  }
};
inline Image parse(string const& text) {  // latest version (9)
  Image x;
  In i(text);
  MKREQ(i.val<unsigned char>() == 0xa1 && i.val<unsigned char>() == 0x1a, "osh-format", "magic number");
  i.zip = i.val<I8>() != 0;
  x.family = i.val<I8>();
  x.dim = i.val<I8>();
  x.size = i.val<I32>();
  x.rank = i.val<I32>();
  x.parting = i.val<I8>();
  x.layers = i.val<I32>();
  x.hints = i.val<I8>() != 0;
  if (x.hints) {
    int n = i.val<I32>();
    for (int k = 0; k < 3 * n; ++k) x.axes.push_back(i.val<double>());
  }
  x.nents[0] = i.val<I32>();
  MKREQ(x.dim >= 1 && x.dim <= 3, "osh-format", "dimension %d", x.dim);
  for (int d = 1; d <= x.dim; ++d) {
    x.ab2b[d] = i.arr(4);
    x.nents[d] = int(x.ab2b[d].size() / 4 / mk::down_template(x.family == OMEGA_H_SIMPLEX, d, d - 1).size());
    if (d > 1) x.codes[d] = i.arr(1);
  }
  for (int d = 0; d <= x.dim; ++d) {
    int n = i.val<I32>();
    for (int k = 0; k < n; ++k) {
      TagImage t;
      t.name = i.str();
      t.ncomps = i.val<I8>();
      t.type = i.val<I8>();
      MKREQ(t.type == OMEGA_H_I8 || t.type == OMEGA_H_I32 || t.type == OMEGA_H_I64 || t.type == OMEGA_H_F64, "osh-format", "tag type %d", t.type);
      t.data = i.arr(type_size(t.type));
      x.tags[d].push_back(t);
    }
    if (x.size > 1) {
      x.oranks[d] = i.arr(4);
      x.oidxs[d] = i.arr(4);
    }
  }
  int n = i.val<I32>();
  for (int k = 0; k < n; ++k) {
    auto name = i.str();
    x.sets.push_back({name, {}});
    int m = i.val<I32>();
    for (int q = 0; q < m; ++q) {
      int a = i.val<I32>();
      int b = i.val<I32>();
      x.sets.back().second.push_back({a, b});
    }
  }
  x.parents = i.val<I8>() != 0;
  if (x.parents)
    for (int d = 0; d <= x.dim; ++d) {
      x.pidx[d] = i.arr(4);
      x.pcodes[d] = i.arr(1);
    }
  MKREQ(i.p == text.size(), "osh-format", "%zu bytes follow the end of the mesh", text.size() - i.p);
  return x;
}

// ---- files of a private directory
inline string slurp(string const& p) {
  string s;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return s;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
  fclose(f);
  return s;
}
inline void spit(string const& p, string const& s) {
  FILE* f = fopen(p.c_str(), "wb");
  MKREQ(f, "scratch", "cannot write %s", p.c_str());
  if (!s.empty()) fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
}  // namespace im
#endif
