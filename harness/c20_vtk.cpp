// C20: VTK files say exactly what the mesh holds (read by an independent
// parser) and read back as it, serially, in parallel and as a time series.
#include <Omega_h_base64.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_vtk.hpp>
#include <Omega_h_xml_lite.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <limits>
#include "distkit.hpp"
#include "image.hpp"
#include "soups.hpp"
using namespace mk;
using namespace dk;
using namespace minimpi;
using im::Image;
using std::string;

static vector<double> const reals = {0.1, -0.0, 1e308 * 10, -1e308 * 10, std::numeric_limits<double>::quiet_NaN(), 4.9e-324, 1.7976931348623157e308, -1.0 / 3};
static vector<I64> const longs = {0, -1, INT64_MAX, INT64_MIN, 1ll << 32, 0x0102030405060708ll};
static vector<I32> const ints = {0, -1, INT32_MAX, INT32_MIN, 0x01020304, 256};
static vector<I8> const bytes = {0, -1, 127, -128, 26, 10};

// ---- a strict XML parser ----------------------------------------------------
struct Node {
  string name, text;
  std::map<string, string> at;
  vector<Node> sub;
  Node const& child(string const& n) const {
    Node const* f = nullptr;
    for (auto& s : sub)
      if (s.name == n) {
        MKREQ(!f, "xml", "two <%s> in <%s>", n.c_str(), name.c_str());
        f = &s;
      }
    MKREQ(f, "xml", "no <%s> in <%s>", n.c_str(), name.c_str());
    return *f;
  }
  string get(string const& k) const {
    auto it = at.find(k);
    MKREQ(it != at.end(), "xml", "<%s> has no %s", name.c_str(), k.c_str());
    return it->second;
  }
};
struct Xml {
  string const& s;
  size_t i = 0;
  [[noreturn]] void bad(char const* what) {
    MKREQ(false, "xml", "not well-formed at byte %zu: %s (...%s...)", i, what, s.substr(i > 30 ? i - 30 : 0, 60).c_str());
    abort();
  }
  void blank() {
    while (i < s.size() && strchr(" \n\t\r", s[i])) ++i;
  }
  string ident() {
    string n;
    while (i < s.size() && (isalnum(s[i]) || s[i] == '_' || s[i] == '-' || s[i] == '.' || s[i] == ':')) n += s[i++];
    if (n.empty()) bad("a name");
    return n;
  }
  Node element() {
    Node n;
    if (i >= s.size() || s[i] != '<') bad("'<'");
    ++i;
    n.name = ident();
    for (;;) {
      size_t j = i;
      blank();
      if (i >= s.size()) bad("end of file in a tag");
      if (s[i] == '>') {
        ++i;
        break;
      }
      if (s[i] == '/') {
        if (++i >= s.size() || s[i] != '>') bad("'/>'");
        ++i;
        return n;
      }
      if (i == j) bad("a blank");
      auto k = ident();
      if (s[i] != '=') bad("'='");
      char q = s[++i];
      if (q != '"' && q != '\'') bad("a quote");
      auto e = s.find(q, ++i);
      if (e == string::npos) bad("an unclosed quote");
      if (!n.at.insert({k, s.substr(i, e - i)}).second) bad("an attribute given twice");
      i = e + 1;
    }
    for (;;) {
      while (i < s.size() && s[i] != '<') n.text += s[i++];
      if (i + 1 >= s.size()) bad("end of file");
      if (s[i + 1] == '/') {
        i += 2;
        if (ident() != n.name) bad("another closing tag");
        blank();
        if (s[i] != '>') bad("'>'");
        ++i;
        return n;
      }
      n.sub.push_back(element());
    }
  }
  static Node parse(string const& s) {
    Xml x{s};
    x.blank();
    auto n = x.element();
    x.blank();
    if (x.i != s.size()) x.bad("the end");
    return n;
  }
};
static int b64(char c) {
  static string const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  auto p = a.find(c);
  return p == string::npos ? -1 : int(p);
}
// strict base64 of a whole text
static string from64(string const& t) {
  MKREQ(t.size() % 4 == 0, "base64", "%zu characters", t.size());
  string o;
  for (size_t i = 0; i < t.size(); i += 4) {
    bool last = i + 4 == t.size();
    int pad = last ? (t[i + 3] == '=') + (t[i + 3] == '=' && t[i + 2] == '=') : 0;
    unsigned v = 0;
    for (size_t k = 0; k < 4; ++k) {
      int d = int(k) < 4 - pad ? b64(t[i + k]) : 0;
      MKREQ(d >= 0, "base64", "character %d", int(t[i + k]));
      v = v << 6 | unsigned(d);
    }
    if (pad) MKREQ((v & (pad == 1 ? 0xffu : 0xffffu)) == 0, "base64", "bits after the end");
    o += char(v >> 16);
    if (pad < 2) o += char(v >> 8 & 255);
    if (pad < 1) o += char(v & 255);
  }
  return o;
}
static string to64(string const& s) {
  static string const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (i + k < s.size() ? (unsigned char)s[i + k] : 0u);
    for (int k = 0; k < 4; ++k) o += size_t(k) > s.size() - i ? '=' : a[v >> (18 - 6 * k) & 63];
  }
  return o;
}
static string swapped(string s, size_t item) {
  for (size_t i = 0; i + item <= s.size(); i += item) std::reverse(s.begin() + long(i), s.begin() + long(i + item));
  return s;
}
static uint64_t u64(string const& s, size_t at) {
  uint64_t x;
  MKREQ(s.size() >= 8 * at + 8, "header", "the header of an array is cut");
  memcpy(&x, s.data() + 8 * at, 8);
  return x;
}
static size_t width(string const& type) {
  if (type == "Int8" || type == "UInt8") return 1;
  if (type == "Int32") return 4;
  if (type == "Int64" || type == "Float64") return 8;
  MKREQ(false, "vtk-type", "array type %s", type.c_str());
  return 0;
}
struct Array {
  string name, type;
  int ncomps;
  string data;
};
static Array array_of(Node const& n, bool zip) {
  MKREQ(n.name == "DataArray" && n.get("format") == "binary", "vtk", "<%s> where an array should be", n.name.c_str());
  Array a;
  a.name = n.get("Name");
  a.type = n.get("type");
  a.ncomps = atoi(n.get("NumberOfComponents").c_str());
  string t = n.text;
  while (!t.empty() && strchr(" \n", t.back())) t.pop_back();
  while (!t.empty() && strchr(" \n", t[0])) t.erase(0, 1);
  if (!zip) {
    MKREQ(t.size() >= 12, "header", "array %s is empty", a.name.c_str());
    auto h = from64(t.substr(0, 12));
    a.data = from64(t.substr(12));
    MKREQ(u64(h, 0) == a.data.size(), "header", "array %s says it has %zu bytes and has %zu", a.name.c_str(), size_t(u64(h, 0)), a.data.size());
  } else {
    MKREQ(t.size() >= 44, "header", "array %s is empty", a.name.c_str());
    auto h = from64(t.substr(0, 44));
    auto z = from64(t.substr(44));
    MKREQ(h.size() == 32 && u64(h, 0) == 1 && u64(h, 1) == u64(h, 2) && u64(h, 3) == z.size(), "header", "block header of array %s: %zu bytes, %zu %zu %zu %zu, %zu", a.name.c_str(), h.size(), size_t(u64(h,0)), size_t(u64(h,1)), size_t(u64(h,2)), size_t(u64(h,3)), z.size());
    string o = string(size_t(u64(h, 1)) + 1, char(0));
    uLong got = uLong(o.size());
    int rc = uncompress(reinterpret_cast<Bytef*>(&o[0]), &got, reinterpret_cast<Bytef const*>(z.data()), uLong(z.size()));
    MKREQ(rc == Z_OK && got == u64(h, 1), "zlib", "array %s inflates to %zu bytes, not %zu", a.name.c_str(), size_t(got), size_t(u64(h, 1)));
    o.resize(size_t(got));
    a.data = o;
  }
  return a;
}
// ---- what a piece has to say ------------------------------------------------
static string pad(string const& raw, int from, int to) {
  string o;
  size_t n = raw.size() / 8 / size_t(from);
  for (size_t i = 0; i < n; ++i) {
    o += raw.substr(i * size_t(from) * 8, size_t(from) * 8);
    o.append(size_t(to - from) * 8, 0);
  }
  return o;
}
// symmetric matrices are stored xx yy zz xy yz xz
static string pad_symm(string const& raw) {
  string o;
  for (size_t i = 0; i + 24 <= raw.size(); i += 24) {
    o += raw.substr(i, 16);
    o.append(8, 0);
    o += raw.substr(i + 16, 8);
    o.append(16, 0);
  }
  return o;
}
static vector<Array> data_of(oh::Mesh& m, int d, oh::TagSet const* only, bool cells = false) {
  static char const* tn[] = {"Int8", "", "Int32", "Int64", "", "Float64"};
  vector<Array> r;
  auto put = [&](oh::TagBase const* t) {
    Array a;
    a.name = t->name();
    a.ncomps = t->ncomps();
    a.type = tn[t->type()];
    if (oh::is<I8>(t)) a.data = im::raw(oh::as<I8>(t)->array());
    if (oh::is<I32>(t)) a.data = im::raw(oh::as<I32>(t)->array());
    if (oh::is<I64>(t)) a.data = im::raw(oh::as<I64>(t)->array());
    if (oh::is<Real>(t)) a.data = im::raw(oh::as<Real>(t)->array());
    if (a.type == "Float64" && m.dim() == 2) {
      if (a.ncomps == 2) {
        a.data = pad(a.data, 2, 3);
        a.ncomps = 3;
      } else if (a.ncomps == 3) {
        a.data = pad_symm(a.data);
        a.ncomps = 6;
      }
    }
    r.push_back(a);
  };
  auto has = [&](string const& n) { return !only || (*only)[size_t(d)].count(n); };
  int n = m.nents(d);
  string l, o, g;
  auto own = m.ask_owners(d);
  for (I32 i = 0; i < n; ++i) {
    I32 k = own.ranks[i];
    l.append(reinterpret_cast<char*>(&i), 4);
    o.append(reinterpret_cast<char*>(&k), 4);
    g += char(k != m.comm()->rank());
  }
  if (has("local")) r.push_back({"local", "Int32", 1, l});
  if (m.comm()->size() > 1 && has("owner")) r.push_back({"owner", "Int32", 1, o});
  if (m.comm()->size() > 1 && m.parting() == OMEGA_H_GHOSTED && cells && has("vtkGhostType")) r.push_back({"vtkGhostType", "UInt8", 1, g});
  for (int i = 0; i < m.ntags(d); ++i)
    if ((cells || m.get_tag(d, i)->name() != "coordinates") && has(m.get_tag(d, i)->name())) put(m.get_tag(d, i));
  return r;
}
static void same(vector<Array> want, vector<Array> got, char const* where) {
  auto by = [](Array const& a, Array const& b) { return a.name < b.name; };
  std::sort(want.begin(), want.end(), by);
  std::sort(got.begin(), got.end(), by);
  auto names = [](vector<Array> const& v) {
    string s;
    for (auto& a : v) s += " " + a.name;
    return s;
  };
  MKREQ(names(want) == names(got), "arrays", "%s: arrays%s instead of%s", where, names(got).c_str(), names(want).c_str());
  for (size_t i = 0; i < want.size(); ++i) {
    auto &w = want[i], &g = got[i];
    MKREQ(w.type == g.type && w.ncomps == g.ncomps, "array-type", "%s: array %s is %s x %d instead of %s x %d", where, w.name.c_str(), g.type.c_str(), g.ncomps,
        w.type.c_str(), w.ncomps);
    MKREQ(w.data == g.data, "array-data", "%s: array %s has other values", where, w.name.c_str());
  }
}
static void check_piece(string const& text, oh::Mesh& m, int cd, bool zip, oh::TagSet const* only) {
  auto x = Xml::parse(text);
  MKREQ(x.name == "VTKFile" && x.get("type") == "UnstructuredGrid" && x.get("byte_order") == "LittleEndian" && x.get("header_type") == "UInt64", "vtk", "file tag");
  MKREQ(x.at.count("compressor") == size_t(zip) && (!zip || x.get("compressor") == "vtkZLibDataCompressor"), "vtk", "compressor");
  auto& p = x.child("UnstructuredGrid").child("Piece");
  MKREQ(p.get("NumberOfPoints") == std::to_string(m.nverts()) && p.get("NumberOfCells") == std::to_string(m.nents(cd)), "vtk-count", "piece of %s points, %s cells",
      p.get("NumberOfPoints").c_str(), p.get("NumberOfCells").c_str());
  std::map<string, Array> cells;
  for (auto& s : p.child("Cells").sub) {
    auto a = array_of(s, zip);
    MKREQ(cells.insert({a.name, a}).second, "vtk", "array %s twice", a.name.c_str());
  }
  bool simplex = m.family() == OMEGA_H_SIMPLEX;
  int deg = cd ? mk::degree(simplex, cd) : 1;
  string conn, off, types;
  int type = cd == 0 ? 1 : cd == 1 ? 3 : cd == 2 ? (simplex ? 5 : 9) : (simplex ? 10 : 12);
  auto vs = mk::verts_of(m, cd);
  I32 end = 0;
  for (auto& e : vs) {
    MKREQ(int(e.size()) == deg, "degree", "internal");
    for (I32 v : e) conn.append(reinterpret_cast<char*>(&v), 4);
    end += deg;
    off.append(reinterpret_cast<char*>(&end), 4);
    types += char(type);
  }
  vector<Array> have, want = {{"connectivity", "Int32", 1, conn}, {"offsets", "Int32", 1, off}, {"types", "Int8", 1, types}};
  for (auto& c : cells) have.push_back(c.second);
  same(want, have, "cells");
  MKREQ(p.child("Points").sub.size() == 1, "vtk", "points");
  same({{"coordinates", "Float64", 3, m.dim() == 3 ? im::raw(m.coords()) : pad(im::raw(m.coords()), m.dim(), 3)}}, {array_of(p.child("Points").sub[0], zip)}, "points");
  vector<Array> pd, cdv;
  for (auto& s : p.child("PointData").sub) pd.push_back(array_of(s, zip));
  for (auto& s : p.child("CellData").sub) cdv.push_back(array_of(s, zip));
  same(data_of(m, 0, only), pd, "point data");
  same(data_of(m, cd, only, true), cdv, "cell data");
}
// the same file with every number in the other byte order
static string other_endian(Node const& x, bool zip) {
  string o;
  std::function<void(Node const&)> out = [&](Node const& n) {
    o += "<" + n.name;
    for (auto& a : n.at) o += " " + a.first + "=\"" + (a.first == "byte_order" ? "BigEndian" : a.second) + "\"";
    o += ">\n";
    if (n.name == "DataArray") {
      auto a = array_of(n, zip);
      auto d = swapped(a.data, width(a.type));
      auto num = [](uint64_t v) { return swapped(string(reinterpret_cast<char*>(&v), 8), 8); };
      if (zip) {
        uLong len = compressBound(uLong(d.size()));
        string z = string(len, char(0));
        if (compress(reinterpret_cast<Bytef*>(&z[0]), &len, reinterpret_cast<Bytef const*>(d.data()), uLong(d.size())) != Z_OK) abort();
        z.resize(len);
        o += to64(num(1) + num(d.size()) + num(d.size()) + num(z.size())) + to64(z);
      } else
        o += to64(num(d.size())) + to64(d);
      o += "\n";
    }
    for (auto& s : n.sub) out(s);
    o += "</" + n.name + ">\n";
  };
  out(x);
  return o;
}
// what reading has to restore: vertices, elements, their data
static void same_mesh(oh::Mesh& a, oh::Mesh& b, oh::TagSet const* only, bool serial) {
  MKREQ(a.dim() == b.dim() && a.family() == b.family(), "back-kind", "dimension %d instead of %d, or family", b.dim(), a.dim());
  MKREQ(a.nverts() == b.nverts() && a.nelems() == b.nelems(), "back-size", "%d vertices and %d elements instead of %d and %d", b.nverts(), b.nelems(), a.nverts(),
      a.nelems());
  MKREQ(mk::verts_of(a, a.dim()) == mk::verts_of(b, b.dim()), "back-elems", "other elements");
  for (int d : {0, a.dim()}) {
    std::map<string, im::TagImage> x, y;
    for (int s = 0; s < 2; ++s) {
      auto i = im::take(s ? b : a);
      for (auto& t : i.tags[d]) (s ? y : x)[t.name] = t;
    }
    if (only)
      for (auto it = x.begin(); it != x.end();)
        if (it->first != "coordinates" && it->first != "global" && !(*only)[size_t(d)].count(it->first))
          it = x.erase(it);
        else
          ++it;
    string nx, ny;
    for (auto& t : x) nx += " " + t.first;
    for (auto& t : y) ny += " " + t.first;
    if (only && serial && x.count("global") && !(*only)[size_t(d)].count("global")) continue;
    MKREQ(nx == ny, "back-tags", "dimension %d has the tags%s instead of%s", d, ny.c_str(), nx.c_str());
    for (auto& t : x) {
      auto& u = y[t.first];
      MKREQ(t.second.type == u.type && t.second.ncomps == u.ncomps, "back-tag-type", "tag %s of dimension %d is now of type %d x %d", t.first.c_str(), d, u.type, u.ncomps);
      MKREQ(t.second.data == u.data, "back-tag", "tag %s of dimension %d has other values", t.first.c_str(), d);
    }
  }
}

// ---- base64 -----------------------------------------------------------------
static void base64_suite(mc::Ctx& c) {
  // every byte value at every pair of positions of strings of up to 7 bytes
  int n = c.choose(8);
  int p = n ? c.choose(n) : 0;
  int hi = n ? c.choose(16) : 0;
  c.split();
  c.note("%d bytes, byte %d in %d..%d", n, p, hi * 16, hi * 16 + 15);
  auto one = [&](string const& s) {
    auto e = oh::base64::encode(s.data(), s.size());
    MKREQ(e == to64(s) && e.size() == oh::base64::encoded_size(s.size()), "encode", "%zu bytes become %s, not %s", s.size(), e.c_str(), to64(s).c_str());
    string o = string(s.size() + 2, char(126));
    oh::base64::decode(e, &o[1], s.size());
    MKREQ(o == "~" + s + "~", "decode", "%s is not decoded into what it encodes (or beyond)", e.c_str());
    std::istringstream i(e + "\n<next");
    auto r = oh::base64::read_encoded(i);
    string bare = e;
    while (!bare.empty() && bare.back() == '=') bare.pop_back();
    MKREQ(r == e || r == bare, "read_encoded", "%s is read as %s", e.c_str(), r.c_str());
    c.exec();
  };
  if (!n) {
    one("");
    return;
  }
  for (int v = hi * 16; v < hi * 16 + 16; ++v)
    for (int q = 0; q < n; ++q)
      for (int w = 0; w < 256; ++w)
        for (int fill : {0, 0xff, 0x5a}) {
          string s = string(size_t(n), char(fill));
          s[size_t(p)] = char(v);
          if (q != p) s[size_t(q)] = char(w);
          one(s);
          if (q == p) w = 256;
        }
  c.state(mc::Hash().add(n).add(p).add(hi).h);
}
// ---- tags of XML ------------------------------------------------------------
static void xml_suite(mc::Ctx& c) {
  static char const* names[] = {"a", "Piece", "VTKFile"};
  static char const* ks[] = {"k", "Name", "NumberOfComponents"};
  static char const* vs[] = {"", "x", "two words", "a=b", "</>", "it's", "say \"hi\"", "/", ">"};
  string name = names[c.choose(3)];
  int kind = c.choose(3);
  int nat = kind == 1 ? 0 : c.choose(c.thorough() ? 4 : 3);
  int before = c.choose(2), inside = c.choose(2), after = c.choose(2), trailing = c.choose(2);
  c.split();
  std::map<string, string> want;
  string t = string(size_t(before) * 2, char(32));
  t += "<";
  if (kind == 1) t += "/";
  if (inside) t += " ";
  t += name;
  for (int a = 0; a < nat; ++a) {
    string v = vs[c.choose(9)];
    bool single = c.flip();
    char q = single ? '\'' : '"';
    if (v.find(q) != string::npos) c.prune();
    t += string(inside ? "  " : " ") + ks[a] + "=" + q + v + q;
    want[ks[a]] = v;
  }
  if (after) t += " ";
  t += kind == 2 ? "/>" : ">";
  if (trailing) t += " ";
  c.note("%s", t.c_str());
  c.state(mc::Hash().add(t).h);
  oh::xml_lite::Tag tag;
  MKREQ(oh::xml_lite::parse_tag(t, &tag), "xml-refused", "refused: %s", t.c_str());
  auto type = kind == 0 ? oh::xml_lite::Tag::START : kind == 1 ? oh::xml_lite::Tag::END : oh::xml_lite::Tag::SELF_CLOSING;
  MKREQ(tag.elem_name == name && tag.type == type, "xml-tag", "%s is an element %s of kind %d", t.c_str(), tag.elem_name.c_str(), int(tag.type));
  MKREQ(want.size() == tag.attribs.size() && std::equal(want.begin(), want.end(), tag.attribs.begin(), [](auto& a, auto& b) { return a.first == b.first && a.second == b.second; }),
      "xml-attributes", "%s has other attributes", t.c_str());
  // no proper prefix is a tag
  size_t end = t.rfind('>');
  for (size_t k = 0; k < end; ++k) MKREQ(!oh::xml_lite::parse_tag(t.substr(0, k), &tag), "xml-prefix", "%s is taken for a tag", t.substr(0, k).c_str());
}

// ---- one rank ---------------------------------------------------------------
template <class T>
static void add_special(oh::Mesh& m, int d, string const& name, int nc, vector<T> const& values, int shift) {
  vector<T> v;
  for (LO i = 0; i < m.nents(d) * nc; ++i) v.push_back(values[size_t(i + shift) % values.size()]);
  m.add_tag<T>(d, name, nc, arr(v));
}
static char const* meshes[] = {"edges4", "strip4", "tets3", "quads4", "hexes2", "tetring4"};
static void coords(oh::Mesh& m, int kind) {
  auto vg = m.globals(0);
  vector<Real> co;
  for (LO v = 0; v < m.nverts(); ++v)
    for (int k = 0; k < m.dim(); ++k) co.push_back(kind ? reals[size_t(vg[v] + k) % reals.size()] : Real(vg[v] * (k + 3) % 5) / 3);
  m.add_coords(arr(co));
}
static void serial(mc::Ctx& c) {
  auto& b = base(meshes[c.choose(6)]);
  int cd = c.choose(b.s.dim + 1);
  bool zip = c.flip();
  int which = c.choose(6), nc = 1 + c.choose(9);
  int subset = c.choose(4), how = c.choose(2);
  c.split();
  if (b.s.dim == 2 && (nc == 6 || nc == 5) && (which == 4 || which == 5)) nc = 7;  // six-component fields are 3D tensors to VTK
  oh::Library lib;
  auto m = mk::build(lib, b.s);
  coords(m, how);
  for (int d = 0; d <= m.dim(); ++d) {
    if (which == 1 || which == 5) add_special<I8>(m, d, "b", nc, bytes, d);
    if (which == 2 || which == 5) add_special<I32>(m, d, "two words", nc + (which == 5), ints, d);
    if (which == 3 || which == 5) add_special<I64>(m, d, "\xc3\xa9.(x=1)/'a'", nc, longs, d);
    if (which == 4 || which == 5) add_special<Real>(m, d, string(300, 'n'), nc, reals, d);
  }
  c.note("%s cells of dimension %d, tags %d x %d, %s, subset %d, %s", b.name, cd, which, nc, zip ? "compressed" : "plain", subset, how ? "file" : "stream");
  oh::TagSet ts = oh::vtk::get_all_vtk_tags(&m, cd);
  auto all = ts;
  if (subset == 1) ts[size_t(cd)].erase("local");
  if (subset == 2) {
    ts[0].erase("b");
    ts[size_t(cd)].erase("two words");
  }
  if (subset == 3) {
    ts = {};
    ts[0].insert("global");
    ts[size_t(cd)].insert("global");
  }
  auto before = im::take(m);
  string text, path = c.scratch() + "/m.vtu";
  if (how) {
    if (subset)
      oh::vtk::write_vtu(oh::filesystem::path(path), &m, cd, ts, zip);
    else if (cd == m.dim())
      oh::vtk::write_vtu(path, &m, zip);
    else
      oh::vtk::write_vtu(path, &m, cd, zip);
    text = im::slurp(path);
  } else {
    std::ostringstream o;
    oh::vtk::write_vtu(o, &m, cd, ts, zip);
    text = o.str();
  }
  auto d0 = im::diff(before, im::take(m));
  MKREQ(d0.empty(), "written-mesh", "writing changed the mesh: %s", d0.c_str());
  c.state(mc::Hash().add(text).h);
  check_piece(text, m, cd, zip, &ts);
  if (cd != m.dim()) return;
  // a tag that is not there cannot be asked for
  auto wrong = ts;
  wrong[size_t(cd)].insert("nosuch");
  bool refused = false;
  try {
    std::ostringstream o;
    oh::vtk::write_vtu(o, &m, cd, wrong, zip);
  } catch (oh::exception const&) {
    refused = true;
  }
  MKREQ(refused, "missing-tag", "writing a tag that does not exist was accepted");
  for (int e = 0; e < 2; ++e) {
    string t = e ? other_endian(Xml::parse(text), zip) : text;
    std::istringstream i(t);
    oh::Mesh r(&lib);
    oh::vtk::read_vtu(i, lib.world(), &r);
    same_mesh(m, r, &ts, true);
    check_adjacencies(r, false);
    c.exec();
  }
  c.outcome(mc::Hash().add(text).h);
}

// ---- several ranks ----------------------------------------------------------
static void wipe(string const& p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    if (auto* d = opendir(p.c_str())) {
      while (auto* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) wipe(p + "/" + e->d_name);
      closedir(d);
    }
    rmdir(p.c_str());
  } else
    unlink(p.c_str());
}
// the index file: arrays and pieces
static void check_index(string const& text, string const& dir, int n, int layers) {
  auto x = Xml::parse(text);
  MKREQ(x.name == "VTKFile" && x.get("type") == "PUnstructuredGrid", "pvtu", "file tag");
  auto& g = x.child("PUnstructuredGrid");
  MKREQ(atoi(g.get("GhostLevel").c_str()) == layers, "pvtu-ghosts", "ghost level %s, the mesh has %d", g.get("GhostLevel").c_str(), layers);
  auto list = [](Node const& n, char const* el) {
    vector<string> l;
    for (auto& s : n.sub) {
      MKREQ(s.name == el, "pvtu", "<%s> in <%s>", s.name.c_str(), n.name.c_str());
      l.push_back(s.get("Name") + ":" + s.get("type") + ":" + s.get("NumberOfComponents"));
    }
    return l;
  };
  int pieces = 0;
  for (auto& s : g.sub)
    if (s.name == "Piece") {
      string src = s.get("Source");
      MKREQ(src == "pieces/piece_" + std::to_string(pieces) + ".vtu", "pvtu-piece", "piece %d is %s", pieces, src.c_str());
      auto t = im::slurp(dir + "/" + src);
      MKREQ(!t.empty(), "pvtu-piece", "piece %s is not there", src.c_str());
      auto p = Xml::parse(t);
      auto& pc = p.child("UnstructuredGrid").child("Piece");
      for (auto part : {"Points", "PointData", "CellData"})
        MKREQ(list(pc.child(part), "DataArray") == list(g.child(string("P") + part), "PDataArray"), "pvtu-arrays", "the arrays of %s differ from those of piece %d", part,
            pieces);
      ++pieces;
    }
  MKREQ(pieces == n, "pvtu-piece", "%d pieces of %d", pieces, n);
}
struct Scn {
  Soup s;
  int n, readers, shape;
  bool zip;
  vector<int> owner;
};
static void play(mc::Ctx& c, Scn const& sc, Options o) {
  string text = sc.s.text() + str(sc.owner) + " writers=" + std::to_string(sc.n) + " readers=" + std::to_string(sc.readers) + " shape=" + std::to_string(sc.shape);
  c.note("%s", text.c_str());
  o.config = mc::Hash().add(text).add(o.eager).add(sc.zip).h;
  c.state(o.config);
  o.nranks = std::max(sc.n, sc.readers);
  string dir = c.scratch() + "/v";
  wipe(dir);
  Snap s1, s2, s3;
  s1.what = "before writing";
  s2.what = "after reading";
  s3.what = "after reading and balancing owners";
  s1.r.resize(size_t(sc.n));
  s2.r.resize(size_t(sc.readers));
  s3.r.resize(size_t(sc.readers));
  bool explored = o.explore;
  minimpi::run(c, o, [&](int me) {
    explore(false);
    oh::Library lib;
    auto world = lib.world();
    auto comm = world->split(me < sc.n ? 0 : 1, me);
    std::unique_ptr<oh::Mesh> a;
    if (me < sc.n) {
      a.reset(new oh::Mesh(build_parted(lib, comm, sc.s, sc.owner)));
      auto& m = *a;
      add_identity_tags(m);
      coords(m, 0);
      if (sc.shape == 3) m.set_parting(OMEGA_H_VERT_BASED);
      if (sc.shape == 1 || sc.shape == 2) m.set_parting(OMEGA_H_GHOSTED, sc.shape, false);
      auto s = snapshot(m);
      s1.r[size_t(s.rank)] = s;
      comm->barrier();
      explore(explored);
      oh::vtk::write_parallel(dir, &m, sc.zip);
      explore(false);
      check_piece(im::slurp(dir + "/pieces/piece_" + std::to_string(me) + ".vtu"), m, m.dim(), sc.zip, nullptr);
      comm->barrier();
      if (me == 0) check_index(im::slurp(dir + "/pieces.pvtu"), dir, sc.n, sc.shape == 3 ? 0 : sc.shape);
    }
    world->barrier();
    if (sc.readers < sc.n || sc.shape == 3) return;
    auto rc = world->split(me < sc.readers ? 0 : 1, me);
    if (me < sc.readers) {
      explore(explored);
      oh::Mesh b(&lib);
      oh::vtk::read_parallel(dir + "/pieces.pvtu", rc, &b);
      explore(false);
      require(b.comm() == rc, "read-comm", "the mesh is not on the reader's communicator");
      auto s = snapshot(b);
      s2.r[size_t(s.rank)] = s;
      check_adjacencies(b, false);
      if (me < sc.n && sc.shape == 0)
        same_mesh(*a, b, nullptr, false);
      else if (me >= sc.n)
        require(b.nverts() == 0 && b.nelems() == 0, "extra-rank", "rank %d is beyond the pieces but has entities", me);
      rc->barrier();
      b.set_parting(OMEGA_H_ELEM_BASED);
      s3.r[size_t(s.rank)] = snapshot(b);
    }
    world->barrier();
  });
  Expect x;
  x.sorted_local = false;
  check_global(s1, sc.s, x);
  c.step(mpi_calls());
  if (sc.readers < sc.n || sc.shape == 3) return;
  x.identity_tags = false;
  for (int r = 0; r < sc.n; ++r)
    for (int d : {0, sc.s.dim}) {
      using Row = std::tuple<vector<GO>, GO, int, std::map<string, vector<double>>>;
      auto rows = [&](RankSnap const& s) {
        std::map<vector<GO>, Row> m;
        for (size_t i = 0; i < s.ents[d].size(); ++i) {
          auto& e = s.ents[d][i];
          std::map<string, vector<double>> t;
          for (auto& p : s.tags[d]) t[p.first] = p.second[i];
          m[sortv(e.verts)] = Row(e.verts, e.global, d && sc.shape ? e.orank : 0, t);
        }
        return m;
      };
      auto a = rows(s1.r[size_t(r)]), b = rows(s2.r[size_t(r)]);
      MKREQ(a.size() == b.size(), "back-count", "part %d has %zu %d-entities after reading, not %zu", r, b.size(), d, a.size());
      MKREQ(a == b, "back-part", "part %d: the %d-entities, their owners, numbers or data differ after reading", r, d);
    }
  for (auto& r : s2.r) MKREQ(r.parting == s1.r[0].parting && r.layers == s1.r[0].layers, "back-parting", "parting %d with %d layers after reading", r.parting, r.layers);
  check_global(s2, sc.s, x);
  check_global(s3, sc.s, x);
  mc::Hash out;
  for (auto& r : s2.r)
    for (int d = 0; d <= sc.s.dim; ++d) out.add(r.ents[d].size());
  c.outcome(out.h);
}
static void parallel(mc::Ctx& c, vector<char const*> which, int n) {
  Scn sc;
  sc.n = n;
  sc.s = base(which[size_t(c.choose(int(which.size())))]).s;
  sc.owner = choose_digits(c, int(sc.s.elems.size()), n);
  c.split();
  sc.readers = n + c.choose(3);
  sc.shape = c.choose(4);
  sc.zip = c.flip();
  Options o;
  o.explore = false;
  play(c, sc, o);
}
static void schedules(mc::Ctx& c, int n, int bound) {
  Scn sc;
  sc.n = n;
  sc.s = base("strip4").s;
  for (size_t e = 0; e < sc.s.elems.size(); ++e) sc.owner.push_back(int(e) % n);
  sc.readers = n + c.choose(2);
  sc.shape = c.choose(2);
  sc.zip = false;
  Options o;
  o.eager = !c.flip();
  c.split();
  c.deviation_bound = bound;
  play(c, sc, o);
}

// ---- time series: every sequence of steps and restarts -----------------------
static void series(mc::Ctx& c) {
  static double const deltas[] = {1, 1e-9, 1.0 / 3, 1e17};
  int n = 1 + c.choose(2);
  int len = c.thorough() ? 4 : 3;
  struct Op {
    int kind;  // 0: write(), 1: write(time), 2: write(step, time), 3: restart from the time given
    double t;
    I64 step;
  };
  vector<Op> ops;
  double t = 0;
  string text;
  vector<double> past = {0.0};
  int cell = c.choose(2);
  I64 step = 0;
  for (int k = 0; k < len; ++k) {
    int kind = c.choose(5);
    if (kind == 4) break;
    Op op{kind, 0, 0};
    if (kind == 1 || kind == 2) {
      t += deltas[c.choose(4)];
      op.t = t;
      past.push_back(t);
    }
    if (kind == 2) {
      step += 7;
      op.step = step;
    }
    if (kind == 3) {
      int w = c.choose(int(past.size()) + 1);
      op.t = w < int(past.size()) ? past[size_t(w)] : past.back() + 0.5;
    }
    ops.push_back(op);
    text += " " + std::to_string(kind) + ":" + std::to_string(op.t);
  }
  c.split();
  c.note("%d ranks, cells %d:%s", n, cell, text.c_str());
  c.state(mc::Hash().add(text).add(n).add(cell).h);
  Options o;
  o.nranks = n;
  o.explore = false;
  o.config = mc::Hash().add(text).add(n).h;
  string root = c.scratch() + "/s";
  wipe(root);
  // the record that has to be on disk
  vector<std::pair<double, I64>> want;
  minimpi::run(c, o, [&](int me) {
    oh::Library lib;
    auto world = lib.world();
    auto& b = base("strip4");
    vector<int> owner;
    for (size_t e = 0; e < b.s.elems.size(); ++e) owner.push_back(int(e) % n);
    auto m = build_parted(lib, world, b.s, owner);
    coords(m, 0);
    oh::vtk::Writer w(root, &m, cell ? 1 : -1);
    I64 next = 0;
    auto record = [&](double time, I64 s) {
      if (me == 0) want.push_back({time, s});
    };
    auto check = [&] {
      if (me) return;
      vector<Real> times;
      vector<oh::filesystem::path> paths;
      oh::vtk::read_pvd(oh::filesystem::path(root + "/steps.pvd"), &times, &paths);
      MKREQ(times.size() == want.size() && paths.size() == want.size(), "series", "the series lists %zu steps of %zu", times.size(), want.size());
      auto x = Xml::parse(im::slurp(root + "/steps.pvd"));
      auto& col = x.child("Collection");
      MKREQ(x.get("type") == "Collection" && col.sub.size() == want.size(), "series", "the file lists %zu steps of %zu", col.sub.size(), want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        string rel = "steps/step_" + std::to_string(want[i].second) + "/pieces.pvtu";
        MKREQ(times[i] == want[i].first && strtod(col.sub[i].get("timestep").c_str(), nullptr) == want[i].first, "series-time", "step %zu has time %.17g, not %.17g", i,
            times[i], want[i].first);
        MKREQ(paths[i].string() == root + "/" + rel && col.sub[i].get("file") == rel, "series-path", "step %zu is %s", i, paths[i].string().c_str());
        MKREQ(!im::slurp(root + "/" + rel).empty(), "series-missing", "%s is listed and not there", rel.c_str());
      }
    };
    for (auto& op : ops) {
      if (op.kind == 0) {
        record(double(next), next);
        w.write();
        ++next;
      }
      if (op.kind == 1) {
        record(op.t, next);
        w.write(op.t);
        ++next;
      }
      if (op.kind == 2) {
        record(op.t, op.step);
        w.write(op.step, op.t, oh::vtk::get_all_vtk_tags(&m, cell ? 1 : 2));
        next = op.step;
      }
      if (op.kind == 3) {
        if (me == 0)
          for (size_t i = 0; i < want.size(); ++i)
            if (want[i].first >= op.t) {
              want.resize(i);
              break;
            }
        w = oh::vtk::Writer(root, &m, cell ? 1 : -1, op.t);
        next = 0;
      }
      world->barrier();
      check();
      world->barrier();
    }
  });
  c.step(mpi_calls());
  c.outcome(mc::Hash().add(text).h);
}

// every dimension of cells at once
static void full(mc::Ctx& c) {
  auto& b = base(meshes[c.choose(6)]);
  int n = 1 + c.choose(2), steps = 1 + c.choose(3), ghosts = n > 1 ? c.choose(2) : 0, timed = c.choose(2);
  bool zip = c.flip();
  c.split();
  c.note("%s on %d ranks, %d steps, %d ghost layers", b.name, n, steps, ghosts);
  Options o;
  o.nranks = n;
  o.explore = false;
  o.config = mc::Hash().add(string(b.name)).add(n * 100 + steps * 10 + ghosts * 4 + zip * 2 + timed).h;
  c.state(o.config);
  string root = c.scratch() + "/f";
  wipe(root);
  minimpi::run(c, o, [&](int me) {
    oh::Library lib;
    auto world = lib.world();
    vector<int> owner;
    for (size_t e = 0; e < b.s.elems.size(); ++e) owner.push_back(int(e) % n);
    auto m = build_parted(lib, world, b.s, owner);
    coords(m, 0);
    add_identity_tags(m);
    if (ghosts) m.set_parting(OMEGA_H_GHOSTED, ghosts, false);
    oh::vtk::FullWriter w(root, &m, 0.0, zip);
    for (int s = 0; s < steps; ++s) {
      if (timed)
        w.write(s * 0.1 + 0.05);
      else
        w.write();
      for (int d = 1; d <= b.s.dim; ++d) {
        string at = root + "/" + oh::dimensional_plural_name(d), step = at + "/steps/step_" + std::to_string(s);
        check_piece(im::slurp(step + "/pieces/piece_" + std::to_string(me) + ".vtu"), m, d, zip, nullptr);
        world->barrier();
        if (me == 0) {
          check_index(im::slurp(step + "/pieces.pvtu"), step, n, ghosts);
          vector<Real> times;
          vector<oh::filesystem::path> paths;
          oh::vtk::read_pvd(oh::filesystem::path(at + "/steps.pvd"), &times, &paths);
          MKREQ(int(times.size()) == s + 1 && times.back() == (timed ? s * 0.1 + 0.05 : double(s)) && paths.back().string() == step + "/pieces.pvtu", "series",
              "dimension %d lists %zu steps after step %d", d, times.size(), s);
        }
        world->barrier();
      }
    }
  });
  c.step(mpi_calls());
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C20",
      {
          {"base64", base64_suite, 60, false, "every value of every byte, and every pair of values of every two bytes, of strings of up to 7 bytes"},
          {"xml", xml_suite, 60, false, "tags of 3 kinds with up to 2 (thorough 3) attributes of 9 values x quotes x blanks, and all their prefixes"},
          {"serial", serial, 60, false, "6 meshes x cells of every dimension x 6 tag sets x up to 9 components x compressed x subsets of tags; read back in both byte orders"},
          {"par2", [](mc::Ctx& c) { parallel(c, {"edges4", "strip4", "tets3", "quads4", "hexes2"}, 2); }, 60, false, "5 meshes, every assignment to 2 parts, 2-4 readers, 4 partings"},
          {"par3", [](mc::Ctx& c) { c.thorough() ? parallel(c, {"edges4", "strip4", "tets3", "quads4"}, 3) : parallel(c, {"tets3", "hexes2"}, 3); }, 60, false,
              "2 (thorough 4) meshes, every assignment to 3 parts, 3-5 readers, 4 partings"},
          {"sched2", [](mc::Ctx& c) { schedules(c, 2, c.thorough() ? 2 : 1); }, 60, false, "2 writers, all schedules with <=1 (thorough 2) deviations"},
          {"full", full, 60, false, "6 meshes x all cell dimensions at once x 1-3 steps on 1-2 ranks, ghosted or not"},
          {"series", series, 60, false, "all sequences of up to 3 (thorough 4) steps and restarts of a time series on 1-2 ranks"},
      });
}
