// C24: input files and command lines.  Oracle: structures are enumerated and
// written down by an independent emitter in every style; block scalars, numbers
// and command lines have their definitions written out here.
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <regex>
#include <sstream>
#include <Omega_h_cmdline.hpp>
#include <Omega_h_input.hpp>
#include <Omega_h_library.hpp>
#include "files.hpp"
#include "../mc/mc.hpp"
namespace oh = Omega_h;
using std::map;
using std::string;
using std::vector;

struct T {
  enum { SCALAR, MAP, LIST } kind = SCALAR;
  string str;
  vector<std::pair<string, T>> kids;  // names are empty in lists
  bool flow = false;
};
static void write_file(string const& path, string const& s) {
  FILE* f = fopen(path.c_str(), "wb");
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
template <class F>
static bool attempt(F f, string* why = nullptr) {
  try {
    f();
    return true;
  } catch (mc::Failure&) {
    throw;
  } catch (std::exception& e) {
    if (why) *why = e.what();
    return false;
  }
}
static string quiet_cout(std::function<void()> f) {
  std::ostringstream o;
  auto old = std::cout.rdbuf(o.rdbuf());
  try {
    f();
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  return o.str();
}
static string nocr(string s) {
  s.erase(std::remove(s.begin(), s.end(), '\r'), s.end());
  return s;
}
static string esc(string const& s) {
  string r;
  for (char x : s) r += x == '\n' ? "\\n" : x == '\r' ? "\\r" : x == '\t' ? "\\t" : string(1, x);
  return r;
}
// the first difference, or ""
static string differ(T const& t, oh::Input& in, string const& at) {
  if (t.kind == T::SCALAR) {
    if (!oh::is_type<oh::InputScalar>(in)) return at + " is no scalar";
    auto got = nocr(oh::as_type<oh::InputScalar>(in).str);
    if (got != t.str) return at + " is \"" + esc(got) + "\" instead of \"" + esc(t.str) + "\"";
    return "";
  }
  if (t.kind == T::MAP) {
    if (!oh::is_type<oh::InputMap>(in)) return at + " is no map";
    auto& m = oh::as_type<oh::InputMap>(in);
    vector<string> have, want;
    for (auto& n : m) have.push_back(n);
    for (auto& k : t.kids) want.push_back(k.first);
    std::sort(want.begin(), want.end());
    if (have != want) {
      string s = at + " has names";
      for (auto& n : have) s += " \"" + esc(n) + "\"";
      return s;
    }
    for (auto& k : t.kids) {
      auto& x = m.find_named_input(k.first);
      if (x.parent != &m) return at + "." + k.first + " has the wrong parent";
      auto d = differ(k.second, x, at + "." + k.first);
      if (!d.empty()) return d;
    }
    return "";
  }
  if (!oh::is_type<oh::InputList>(in)) return at + " is no list";
  auto& l = oh::as_type<oh::InputList>(in);
  if (l.size() != int(t.kids.size())) return at + " has " + std::to_string(l.size()) + " entries";
  for (int i = 0; i < l.size(); ++i) {
    if (l.at(i).parent != &l) return at + "[" + std::to_string(i) + "] has the wrong parent";
    auto d = differ(t.kids[size_t(i)].second, l.at(i), at + "[" + std::to_string(i) + "]");
    if (!d.empty()) return d;
  }
  return "";
}
static void expect(mc::Ctx& c, string const& text, T const& t, string const& key) {
  auto p = c.scratch() + "/in.yaml";
  write_file(p, text);
  if (c.describing()) c.note("%s", esc(text).c_str());
  string why, diff;
  bool ok = attempt([&]() {
    auto m = oh::read_input(p);
    diff = differ(t, m, "");
  }, &why);
  c.exec();
  c.state(mc::Hash().add(text).h);
  c.require(ok, key + "-refused", "refused: %s\n%s", esc(text).c_str(), why.c_str());
  c.require(diff.empty(), key, "%s in: %s", diff.c_str(), esc(text).c_str());
}
static bool readable(mc::Ctx& c, string const& text) {
  auto p = c.scratch() + "/in.yaml";
  write_file(p, text);
  c.exec();
  return attempt([&]() { auto m = oh::read_input(p); });
}

// ---- structures in every style
struct Style {
  string nl = "\n";
  int width = 2;
  int deco = 0;      // 0 nothing, 1 comment lines, 2 blank lines, 3 trailing comments, 4 comments at the margin
  string dash = "-";
  bool quotes = false, tight = false, tagged = false;
};
static string q(Style const& y, string const& s) { return y.quotes ? "'" + s + "'" : s; }
static string flow(Style const& y, T const& t) {
  string sp = y.tight ? "" : " ";
  if (t.kind == T::SCALAR) return q(y, t.str);
  string r = t.kind == T::MAP ? "{" : "[";
  r += sp;
  for (size_t i = 0; i < t.kids.size(); ++i) {
    if (i) r += "," + sp;
    if (t.kind == T::MAP) r += t.kids[i].first + ": ";
    r += flow(y, t.kids[i].second);
  }
  return r + sp + (t.kind == T::MAP ? "}" : "]");
}
static void block(Style const& y, T const& t, int indent, string& out) {
  auto pad = string(size_t(indent), ' ');
  auto end = [&]() { return y.deco == 3 ? " # c: [x" + y.nl : y.nl; };
  for (size_t i = 0; i < t.kids.size(); ++i) {
    auto& k = t.kids[i].second;
    if (y.deco == 1 && i) out += pad + "# a comment: 'with" + y.nl;
    if (y.deco == 2) out += out.empty() ? "" : y.nl;
    if (y.deco == 4 && !out.empty()) out += "# margin" + y.nl;
    out += pad;
    if (t.kind == T::MAP) out += q(y, t.kids[i].first) + ":";
    else out += y.dash;
    string tag = y.tagged ? "!!str " : "";
    if (k.kind == T::SCALAR) out += (y.dash == "-" || t.kind == T::MAP ? " " : "") + tag + q(y, k.str) + end();
    else if (k.flow) out += (y.dash == "-" || t.kind == T::MAP ? " " : "") + tag + flow(y, k) + end();
    else if (k.kids.empty()) out += end();  // an empty map
    else {
      out += end();
      block(y, k, indent + y.width, out);
    }
  }
}
static T gen(mc::Ctx& c, int& budget, int depth, bool in_flow, int& counter) {
  T t;
  --budget;
  int kind = depth && (budget <= 0 || depth > 3) ? c.choose(2) * 3 : depth ? c.choose(4) : 1;
  // 0 scalar, 1 map, 2 list, 3 empty container
  static char const* words[] = {"1", "two words", "-3.5", "true", "x=y", ".5e1"};
  if (kind == 0) {
    t.str = words[counter++ % 6];
    return t;
  }
  t.flow = depth && (in_flow || c.flip());
  if (kind == 3) {
    t.kind = t.flow && c.flip() ? T::LIST : T::MAP;
    return t;
  }
  t.kind = kind == 1 ? T::MAP : T::LIST;
  if (t.kind == T::LIST && !depth) c.prune();
  static char const* names[] = {"b", "a long name", "a", "c-1"};
  for (int i = 0; i < 4; ++i) {
    if (i && (budget <= 0 || !c.flip())) break;
    if (budget <= 0) c.prune();
    t.kids.push_back({t.kind == T::MAP ? names[i] : "", gen(c, budget, depth + 1, t.flow, counter)});
    // an empty block map as a list entry has no spelling
    auto& k = t.kids.back().second;
    if (t.kind == T::LIST && k.kind == T::MAP && k.kids.empty() && !k.flow) c.prune();
  }
  return t;
}
static void trees(mc::Ctx& c) {
  Style y;
  int variant = c.choose(c.thorough() ? 14 : 10);
  if (variant >= 1 && variant <= 4) y.deco = variant;
  if (variant == 5) y.nl = "\r\n";
  if (variant == 6) y.quotes = true;
  if (variant == 7) y.tight = true, y.width = 1;
  if (variant == 8) y.dash = "- ", y.width = 4;
  if (variant == 9) y.tagged = true;
  if (variant == 10) y.nl = "\r\n", y.deco = 4;
  if (variant == 11) y.quotes = true, y.deco = 3;
  if (variant == 12) y.deco = 2, y.tight = true, y.width = 3;
  if (variant == 13) y.deco = 1, y.nl = "\r\n", y.tagged = true;
  int budget = c.thorough() ? 7 : 6, counter = c.choose(2) * 2;
  c.split();
  auto t = gen(c, budget, 0, false, counter);
  string s;
  block(y, t, 0, s);
  expect(c, s, t, "structure");
}
// what may stand around a document
static void documents(mc::Ctx& c) {
  T t;
  t.kind = T::MAP;
  vector<string> head = {"", "\n", "# c\n", "---\n", "%YAML 1.1\n---\n", "# c\n---\n", "---\n# c\n", "%YAML 1.1\n# c\n---\n\n", "\n\n# d\n\n"};
  vector<string> tail = {"", "...\n", "# e\n", "\n\n", "...\n# e\n", " # e\n\n"};
  auto h = head[size_t(c.choose(9))];
  auto e = tail[size_t(c.choose(6))];
  c.split();
  int n = 1 + c.choose(2);
  string body;
  for (int i = 0; i < n; ++i) {
    T k;
    string name = i ? "b" : "a";
    switch (c.choose(6)) {
      case 0: k.str = "1"; body += name + ": 1\n"; break;
      case 1: k.kind = T::MAP; body += name + ":\n"; break;
      case 2: k.kind = T::LIST; body += name + ": []\n"; break;
      case 3: k.str = "x\n"; body += name + ": |\n  x\n"; break;
      case 4: k.kind = T::MAP; k.kids.push_back({"c", T()}); k.kids[0].second.str = "2"; body += name + ":\n  c: 2\n"; break;
      case 5: k.kind = T::LIST; k.kids.push_back({"", T()}); k.kids[0].second.str = "2"; body += name + ":\n  - 2\n"; break;
    }
    t.kids.push_back({name, k});
  }
  auto s = h + body + e;
  if (c.flip()) {
    string r;
    for (char x : s) r += x == '\n' ? "\r\n" : string(1, x);
    s = r;
  }
  expect(c, s, t, "document");
}

// ---- scalars in quotes or plain, at every place
static void scalars(mc::Ctx& c) {
  string alphabet = "a1'\"\\:,-.{]|>%! ";
  int quote = c.choose(3);
  int place = c.choose(6);
  int max = c.thorough() ? 4 : 3;
  string s;
  for (int i = 0; i < max; ++i) {
    int k = c.choose(int(alphabet.size()) + 1);
    if (!k) break;
    s += alphabet[size_t(k - 1)];
    if (i == 0) c.split();
  }
  string w;
  if (quote == 0) {
    for (char x : s) w += x == '\'' ? string("''") : string(1, x);
    w = "'" + w + "'";
  } else if (quote == 1) {
    for (char x : s) w += x == '"' || x == '\\' ? string("\\") + x : string(1, x);
    w = "\"" + w + "\"";
  } else {
    // plain: the characters that mean nothing anywhere
    if (s.empty() || s[0] == ' ' || s.back() == ' ' || s[0] == '\'' || s.find_first_of("\"\\:,{]|>%!") != string::npos) c.prune();
    if (s[0] == '-' && (s.size() < 2 || !isalnum(s[1]))) c.prune();
    if (s[0] == '.' && (s.size() < 2 || !isalnum(s[1]))) c.prune();
    w = s;
  }
  T v;
  v.str = s;
  T t;
  t.kind = T::MAP;
  string text;
  auto list = [&]() {
    T l;
    l.kind = T::LIST;
    l.kids = {{"", v}, {"", v}};
    return l;
  };
  if (place == 0) t.kids = {{"k", v}}, text = "k: " + w + "\n";
  if (place == 1) t.kids = {{"k", list()}}, text = "k:\n  - " + w + "\n  - " + w + "  # c\n";
  if (place == 2) t.kids = {{"k", list()}}, text = "k: [" + w + ", " + w + " ]\n";
  if (place == 3) {
    T m;
    m.kind = T::MAP;
    m.kids = {{"x", v}};
    t.kids = {{"k", m}};
    text = "k: {x: " + w + "}\n";
  }
  if (place == 4) {
    T one;
    one.str = "1";
    t.kids = {{s, one}}, text = w + ": 1\n";
    if (s == "include") c.prune();
  }
  if (place == 5) {
    t.kids = {{"k", v}, {"l", v}};
    text = "k:   " + w + " \t # c\nl: " + w + "\n";
  }
  expect(c, text, t, "scalar");
}

// ---- block scalars
static void blocks(mc::Ctx& c) {
  int chomp = c.choose(3);        // clip, strip, keep
  int explicit_ = c.choose(3);    // no indicator, before, after the chomping
  int where = c.choose(3);        // map value, nested map value, list entry
  bool crlf = c.flip();
  c.split();
  vector<string> lines = {"a", "", "  b", "# c", "d # e", "- f", "k: 'v"};
  int n = c.choose(c.thorough() ? 5 : 4) + 1;
  vector<string> body;
  for (int i = 0; i < n; ++i) {
    int k = c.choose(i + 1 < n || n == 1 ? 7 : 3);
    body.push_back(lines[size_t(k)]);
  }
  int after = c.choose(4);  // end of file, sibling, comment and sibling, blank and sibling
  bool comment = after == 0 && c.flip();
  bool some = false;
  for (auto& b : body) some = some || (!b.empty() && b[0] != '#');
  if (!some) c.prune();  // nothing but empty lines and what the lexer takes for comments
  size_t first = 0;
  while (body[first].empty()) ++first;
  if (body[first][0] == ' ' && !explicit_) c.prune();  // would set the indentation
  size_t real = first;
  while (body[real].empty() || body[real][0] == '#') ++real;
  if (body[real][0] == ' ')
    for (size_t i = real; i < body.size(); ++i)
      if (!body[i].empty() && body[i][0] != ' ') c.prune();  // less than the first line: refused by the grammar
  if (explicit_ == 2 && !chomp) c.prune();
  int parent = where == 0 ? 0 : 2, indent = parent + (explicit_ ? 2 : c.choose(2) * 2 + 1);
  string ch = chomp == 1 ? "-" : chomp == 2 ? "+" : "";
  string head = "|" + (explicit_ == 1 ? "2" + ch : explicit_ == 2 ? ch + "2" : ch);
  if (comment) head += " # comment";
  string text = where == 0 ? "k: " + head + "\n" : where == 1 ? "m:\n  k: " + head + "\n" : "m:\n  - " + head + "\n";
  for (auto& b : body) text += (b.empty() ? string() : string(size_t(indent), ' ')) + b + "\n";
  // the value by definition
  string value;
  for (auto& b : body) value += b + "\n";
  size_t trailing = 0;
  while (trailing < body.size() && body[body.size() - 1 - trailing].empty()) ++trailing;
  T t, one, v;
  t.kind = T::MAP;
  one.str = "1";
  size_t extra = 0;
  if (after) {
    if (after == 2) text += string(size_t(parent), ' ') + "# x: y\n";
    if (after == 3) text += "\n", extra = 1;
    text += where == 0 ? "z: 1\n" : where == 1 ? "  z: 1\n" : "  - 1\n";
  }
  string core = value.substr(0, value.size() - trailing - 1);
  v.str = chomp == 0 ? core + "\n" : chomp == 1 ? core : core + string(1 + trailing + extra, '\n');
  if (where == 0) t.kids = {{"k", v}};
  T m;
  if (where == 1) m.kind = T::MAP, m.kids = {{"k", v}};
  if (where == 2) m.kind = T::LIST, m.kids = {{"", v}};
  if (after && where == 1) m.kids.push_back({"z", one});
  if (after && where == 2) m.kids.push_back({"", one});
  if (where) t.kids = {{"m", m}};
  else if (after) t.kids.push_back({"z", one});
  if (crlf) {
    string r;
    for (char x : text) r += x == '\n' ? "\r\n" : string(1, x);
    text = r;
  }
  expect(c, text, t, "block");
}

// ---- names given twice, tabs and other refusals
static void refusals(mc::Ctx& c) {
  vector<string> bad = {"a: 1\na: 2\n", "m:\n  a: 1\n  a: 2\n", "m: {a: 1, a: 2}\n", "a: 1\n b: 2\n", "a: [1, 2\n", "a: {x: 1\n", "a: 'x\n", "a: \"x\n", "- 1\n", "a\n", ": 1\n", "a: b: c\n",
      "a: 1\n- 2\n", "a:\n  - 1\n  b: 2\n", "", "\n", "# c\n", "---\n", "a: [1 2]]\n", "a: |\nb: 1\n", "a: |4\n  x\n", "a:\n  - b: 1\n    c\n"};
  int i = c.choose(int(bad.size()));
  c.split();
  c.require(!readable(c, bad[size_t(i)]), "accepted", "accepted: %s", esc(bad[size_t(i)]).c_str());
  c.state(mc::Hash().add(bad[size_t(i)]).h);
  c.require(!attempt([&]() { oh::read_input(c.scratch() + "/none.yaml"); }), "accepted", "read a file that is not there");
}

// ---- numbers
static bool is_int(string const& s, long long lo, long long hi, long long* out) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
  if (i == s.size()) return false;
  __int128 v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
    if (v > (__int128(1) << 70)) return false;
  }
  if (neg) v = -v;
  if (v < lo || v > hi) return false;
  *out = (long long)v;
  return true;
}
static void numbers(mc::Ctx& c) {
  string alphabet = "05-+.e x";
  string s;
  vector<string> extra = {"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1e308", "1e309", "-1e309", "1e-320", "true",
      "false", "True", "0.1", "123456789.125", "inf", "nan", "0x1p3", "1e5", "true ", "1,000"};
  int k = c.choose(int(extra.size()) + 1);
  if (k) {
    c.split();
    s = extra[size_t(k - 1)];
  } else {
    int max = c.thorough() ? 6 : 5;
    for (int i = 0; i < max; ++i) {
      int x = c.choose(int(alphabet.size()) + 1);
      if (i == 1) c.split();
      if (!x) break;
      s += alphabet[size_t(x - 1)];
    }
  }
  if (c.describing()) c.note("\"%s\"", s.c_str());
  auto in = std::make_shared<oh::InputScalar>(s);
  oh::InputMap m;
  m.add("k", std::shared_ptr<oh::Input>(in));
  long long want, gotl = 77;
  int goti = 77;
  double gotd = 77;
  bool gotb = false;
  string gots;
  bool ok = is_int(s, INT_MIN, INT_MAX, &want);
  c.require(m.is<int>("k") == ok, "int", "\"%s\" %s an int", s.c_str(), ok ? "is not" : "is");
  c.require(attempt([&]() { goti = m.get<int>("k"); }) == ok, "int", "get<int> of \"%s\"", s.c_str());
  if (ok) c.require(goti == want, "int", "\"%s\" is %d", s.c_str(), goti);
  ok = is_int(s, LLONG_MIN, LLONG_MAX, &want);
  c.require(m.is<long long>("k") == ok, "long", "\"%s\" %s a long long", s.c_str(), ok ? "is not" : "is");
  c.require(attempt([&]() { gotl = m.get<long long>("k"); }) == ok, "long", "get<long long> of \"%s\"", s.c_str());
  if (ok) c.require(gotl == want, "long", "\"%s\" is %lld", s.c_str(), gotl);
  // doubles: [+-] digits [. digits] [e [+-] digits]
  size_t i = 0, digits = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  while (i < s.size() && isdigit(s[i])) ++i, ++digits;
  if (i < s.size() && s[i] == '.') {
    ++i;
    while (i < s.size() && isdigit(s[i])) ++i, ++digits;
  }
  ok = digits > 0;
  if (ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    size_t d = i;
    while (i < s.size() && isdigit(s[i])) ++i;
    ok = i > d;
  }
  ok = ok && i == s.size();
  double x = ok ? strtod(s.c_str(), nullptr) : 0;
  if (ok && std::isinf(x)) ok = false;
  if (s.find_first_of("inpx") == string::npos && s != "1e-320") {
    c.require(m.is<double>("k") == ok, "double", "\"%s\" %s a double", s.c_str(), ok ? "is not" : "is");
    c.require(attempt([&]() { gotd = m.get<double>("k"); }) == ok, "double", "get<double> of \"%s\"", s.c_str());
    if (ok) c.require(gotd == x, "double", "\"%s\" is %.17g", s.c_str(), gotd);
  }
  ok = s == "true" || s == "false";
  c.require(m.is<bool>("k") == ok && attempt([&]() { gotb = m.get<bool>("k"); }) == ok, "bool", "bool of \"%s\"", s.c_str());
  if (ok) c.require(gotb == (s == "true"), "bool", "\"%s\"", s.c_str());
  c.require(m.is<string>("k") && m.get<string>("k") == s, "string", "\"%s\"", s.c_str());
  c.exec(6);
  c.state(mc::Hash().add(s).h);
}

// ---- histories of access, with what remains unused
struct Model {
  int kind;  // 0 scalar, 1 map, 2 list
  string str;
  bool used = false;
  map<string, std::shared_ptr<Model>> names;
  vector<std::shared_ptr<Model>> items;
};
using MP = std::shared_ptr<Model>;
static bool all_used(Model const& m) {
  if (!m.used) return false;
  for (auto& k : m.names)
    if (!all_used(*k.second)) return false;
  for (auto& k : m.items)
    if (!all_used(*k)) return false;
  return true;
}
static void accesses(mc::Ctx& c) {
  int doc = c.choose(3);
  int len = c.thorough() ? 5 : 4;
  auto scalar = [](string s) { return MP(new Model{0, s, false, {}, {}}); };
  MP root(new Model{1, "", true, {}, {}});
  string text;
  if (doc == 0) {
    text = "a: 5\nm: {}\nl: []\n";
    root->names["a"] = scalar("5");
    root->names["m"] = MP(new Model{1, "", false, {}, {}});
    root->names["l"] = MP(new Model{2, "", false, {}, {}});
  } else if (doc == 1) {
    text = "m:\n  a: 1.5\n";
    root->names["m"] = MP(new Model{1, "", false, {{"a", scalar("1.5")}}, {}});
  } else {
    text = "l:\n  - 5\n  - {a: x}\n  - [true]\n";
    root->names["l"] = MP(new Model{2, "", false, {}, {scalar("5"), MP(new Model{1, "", false, {{"a", scalar("x")}}, {}}), MP(new Model{2, "", false, {}, {scalar("true")}})}});
  }
  auto p = c.scratch() + "/in.yaml";
  write_file(p, text);
  auto in = oh::read_input(p);
  string log = esc(text);
  auto names = vector<string>{"a", "m", "l"};
  // where we stand: a map or list of the structure
  oh::Input* at = &in;
  MP mat = root;
  for (int step = 0; step < len; ++step) {
    if (step == 1) c.split();
    if (mat->kind == 1) {
      auto& m = oh::as_type<oh::InputMap>(*at);
      auto name = names[size_t(c.choose(3))];
      auto it = mat->names.find(name);
      auto has = it != mat->names.end();
      int op = c.choose(8);
      log += " " + std::to_string(op) + name;
      bool ok, want;
      if (op == 0) {  // typed test
        int i;
        double d;
        (void)i, (void)d;
        bool s = has && it->second->kind == 0;
        c.require(m.is<string>(name) == s, "is", "%s", log.c_str());
        c.require(m.is<int>(name) == (s && (it->second->str == "5" || it->second->str == "9")), "is", "int %s", log.c_str());
        c.require(m.is_map(name) == (has && it->second->kind == 1), "is", "map %s", log.c_str());
        c.require(m.is_list(name) == (has && it->second->kind == 2), "is", "list %s", log.c_str());
      } else if (op == 1 || op == 2) {  // get with and without a default
        int got = -1;
        bool fits = has && it->second->kind == 0 && (it->second->str == "5" || it->second->str == "9");
        want = fits || (op == 2 && !has);
        ok = attempt([&]() { got = op == 1 ? m.get<int>(name) : m.get<int>(name, "9"); });
        c.require(ok == want, "get", "%s: %d", log.c_str(), ok);
        if (op == 1 && has) it->second->used = true;
        if (ok && !has) mat->names[name] = scalar("9"), mat->names[name]->used = true;
        if (ok) mat->names[name]->used = true;
        if (ok) c.require(std::to_string(got) == mat->names[name]->str, "get", "%s: %d", log.c_str(), got);
        if (!ok) return;
      } else if (op == 3 || op == 4) {  // go into a map or list, made when missing
        int kind = op == 3 ? 1 : 2;
        want = !has || it->second->kind == kind;
        oh::Input* next = nullptr;
        ok = attempt([&]() { next = op == 3 ? static_cast<oh::Input*>(&m.get_map(name)) : &m.get_list(name); });
        c.require(ok == want, "go", "%s: %d", log.c_str(), ok);
        if (!ok) return;
        if (!has) mat->names[name] = MP(new Model{kind, "", false, {}, {}});
        mat = mat->names[name];
        mat->used = true;
        at = next;
      } else if (op == 5) {
        ok = attempt([&]() { m.set(name, "5"); });
        c.require(ok == !has, "set", "%s: %d", log.c_str(), ok);
        if (!ok) return;
        mat->names[name] = scalar("5");
      } else if (op == 6) {
        ok = attempt([&]() { m.remove(name); });
        c.require(ok == has, "remove", "%s: %d", log.c_str(), ok);
        if (!ok) return;
        mat->names.erase(name);
      } else {  // back to the top
        at = &in;
        mat = root;
      }
    } else {
      auto& l = oh::as_type<oh::InputList>(*at);
      int n = int(mat->items.size());
      c.require(l.size() == n, "size", "%s", log.c_str());
      int op = c.choose(5), i = c.choose(n + 1);
      log += " " + std::to_string(op) + "[" + std::to_string(i) + "]";
      auto kid = i < n ? mat->items[size_t(i)] : nullptr;
      bool ok;
      if (op == 0) {
        bool is1 = false, is2 = false, is3 = false;
        ok = attempt([&]() { is1 = l.is<string>(i), is2 = l.is_map(i), is3 = l.is_list(i); });
        c.require(ok == !!kid, "at", "%s", log.c_str());
        if (kid) c.require(is1 == (kid->kind == 0) && is2 == (kid->kind == 1) && is3 == (kid->kind == 2), "is", "%s", log.c_str());
      } else if (op == 1) {
        string s;
        ok = attempt([&]() { s = l.get<string>(i); });
        c.require(ok == (kid && kid->kind == 0), "get", "%s", log.c_str());
        if (!ok) return;
        kid->used = true;
        c.require(s == kid->str, "get", "%s", log.c_str());
      } else if (op == 2 || op == 3) {
        oh::Input* next = nullptr;
        ok = attempt([&]() { next = op == 2 ? static_cast<oh::Input*>(&l.get_map(i)) : &l.get_list(i); });
        c.require(ok == (kid && kid->kind == op - 1), "go", "%s", log.c_str());
        if (!ok) return;
        mat = kid;
        mat->used = true;
        at = next;
      } else {
        at = &in;
        mat = root;
      }
    }
    bool ok = attempt([&]() { oh::check_unused(in); });
    c.require(ok == all_used(*root), "unused", "check_unused %s after%s", ok ? "passed" : "failed", log.c_str());
    c.exec();
  }
  c.state(mc::Hash().add(log).h);
}

// ---- included files
static void includes(mc::Ctx& c) {
  int place = c.choose(4), twice = c.choose(3), inner = c.choose(3);
  c.split();
  auto d = c.scratch();
  string f = d + "/inc1.yaml", g = d + "/inc2.yaml";
  auto leaf = [](string s) {
    T t;
    t.str = s;
    return t;
  };
  auto mapof = [](vector<std::pair<string, T>> k) {
    T t;
    t.kind = T::MAP;
    t.kids = k;
    return t;
  };
  write_file(g, "deep: 7\n");
  string body = "x: 1\ny:\n  z: 2\n";
  auto y = mapof({{"z", leaf("2")}});
  vector<std::pair<string, T>> got = {{"x", leaf("1")}};
  if (inner == 1) body += "include: '" + g + "'\n", got.push_back({"deep", leaf("7")});
  if (inner == 2) body = "x: 1\ny:\n  z: 2\n  include: '" + g + "'\n", y.kids.push_back({"deep", leaf("7")});
  got.push_back({"y", y});
  write_file(f, body);
  string inc = "include: '" + f + "'\n", text;
  T t;
  if (place == 0) text = "a: 0\n" + inc, t = mapof(got), t.kids.push_back({"a", leaf("0")});
  if (place == 1) text = "a: 0\nm:\n  " + inc, t = mapof({{"a", leaf("0")}, {"m", mapof(got)}});
  if (place == 2) text = "l:\n  -\n    b: 1\n    " + inc, t = mapof({}), got.push_back({"b", leaf("1")});
  if (place == 3) text = "m: {p: {" + inc.substr(0, inc.size() - 1) + ", q: 3}}\n", got.push_back({"q", leaf("3")}), t = mapof({{"m", mapof({{"p", mapof(got)}})}});
  if (place == 2) {
    T l;
    l.kind = T::LIST;
    l.kids = {{"", mapof(got)}};
    t.kids = {{"l", l}};
  }
  if (twice == 1) {
    text += "n:\n  " + inc;
    auto again = got;
    if (place > 1) again.pop_back();
    t.kids.push_back({"n", mapof(again)});
  }
  if (twice == 2) {  // a name in both
    if (place) c.prune();
    c.require(!readable(c, text + "x: 5\n"), "accepted", "a name both included and given was accepted");
    return;
  }
  expect(c, text, t, "include");
  // nothing counts as used but the top
  auto in = oh::read_input(d + "/in.yaml");
  std::function<void(oh::Input&, bool)> walk = [&](oh::Input& x, bool top) {
    c.require(top || !x.used, "used", "%s is marked used right after reading %s", oh::get_full_name(x).c_str(), esc(text).c_str());
    if (oh::is_type<oh::InputMap>(x))
      for (auto& k : oh::as_type<oh::InputMap>(x).map) walk(*k.second, false);
    if (oh::is_type<oh::InputList>(x))
      for (auto& k : oh::as_type<oh::InputList>(x).entries) walk(*k, false);
  };
  walk(in, true);
}

// ---- echoing gives the same input back
static void echoes(mc::Ctx& c) {
  int budget = c.thorough() ? 6 : 5, counter = 0;
  vector<string> words = {"1", "it's", "say \"x\"", "a\nb\n", " a\n\n  b", "x\n", "-", "", "a: b", "{", "a\n\n"};
  size_t w = size_t(c.choose(int(words.size())));
  c.split();
  auto t = gen(c, budget, 0, false, counter);
  std::function<void(T&)> fill = [&](T& x) {
    if (x.kind == T::SCALAR) x.str = words[w++ % words.size()];
    for (auto& k : x.kids) fill(k.second);
  };
  fill(t);
  std::function<std::shared_ptr<oh::Input>(T const&)> build = [&](T const& x) -> std::shared_ptr<oh::Input> {
    if (x.kind == T::SCALAR) return std::make_shared<oh::InputScalar>(x.str);
    if (x.kind == T::MAP) {
      auto m = std::make_shared<oh::InputMap>();
      for (auto& k : x.kids) m->add(k.first, build(k.second));
      return m;
    }
    auto l = std::make_shared<oh::InputList>();
    for (auto& k : x.kids) l->add(build(k.second));
    return l;
  };
  auto in = build(t);
  std::ostringstream o;
  oh::echo_input(o, *in);
  expect(c, o.str(), t, "echo");
}

// ---- class sets
static void class_sets(mc::Ctx& c) {
  int n = c.choose(3), kind = c.choose(4);
  c.split();
  string text;
  oh::ClassSets want;
  want["old"].push_back({3, 9});
  for (int i = 0; i < n; ++i) {
    string name = i ? "top" : "old";
    text += name + ": [";
    int m = c.choose(3);
    for (int j = 0; j < m; ++j) {
      int d = c.choose(3), id = 5 * j - 1;
      text += (j ? ", [" : "[") + std::to_string(d) + ", " + std::to_string(id) + "]";
      want[name].push_back({oh::Int(d), oh::LO(id)});
    }
    if (!m) want[name];
    text += "]\n";
  }
  if (!n) c.prune();
  bool bad = kind > 0;
  if (kind == 1) text += "q: [[1]]\n";
  if (kind == 2) text += "q: [[1, x]]\n";
  if (kind == 3) text += "q: [1, 2]\n";
  auto p = c.scratch() + "/in.yaml";
  write_file(p, text);
  oh::ClassSets sets;
  sets["old"].push_back({3, 9});
  bool ok = attempt([&]() {
    auto m = oh::read_input(p);
    oh::update_class_sets(&sets, m);
    oh::check_unused(m);
  });
  c.exec();
  c.state(mc::Hash().add(text).h);
  c.require(ok == !bad, "sets", "%s: %d", esc(text).c_str(), ok);
  if (!bad) {
    for (auto& s : want)
      if (!s.second.empty()) c.require(sets.count(s.first) == 1, "sets", "%s lost", s.first.c_str());
    for (auto& s : sets) {
      auto& a = s.second;
      auto& b = want[s.first];
      c.require(a.size() == b.size(), "sets", "%s", esc(text).c_str());
      for (size_t i = 0; i < a.size(); ++i) c.require(a[i].dim == b[i].dim && a[i].id == b[i].id, "sets", "%s", esc(text).c_str());
    }
  }
}

// ---- command lines
struct Flag {
  string name;
  vector<int> args;  // 0 int, 1 double, 2 string
};
static oh::CommPtr self() {
  static oh::Library lib;
  return lib.self();
}
static void cmdline(mc::Ctx& c) {
  // --f takes nothing, --g a string, --h an int and a double; positional arguments as chosen
  vector<Flag> flags = {{"--f", {}}, {"--g", {2}}, {"--h", {0, 1}}};
  int order = c.choose(2);
  if (order) std::swap(flags[0], flags[2]);
  int npos = c.choose(3);  // string, int
  bool final_ = c.flip();
  vector<string> pool = {"--f", "--g", "--h", "7", "2.5", "in", "--help"};
  vector<string> words;
  int max = c.thorough() ? 6 : 5;
  for (int i = 0; i < max; ++i) {
    int k = c.choose(int(pool.size()) + 1);
    if (i == 0) c.split();
    if (!k) break;
    words.push_back(pool[size_t(k - 1)]);
  }
  string log;
  for (auto& w : words) log += " " + w;
  if (c.describing()) c.note("%d positional, order %d, final %d:%s", npos, order, final_, log.c_str());
  // the definition: from left to right, a flag takes its arguments, the next positional argument takes anything else
  bool error = false, help = false;
  map<string, vector<string>> seen;
  vector<string> pos, left;
  size_t i = 0;
  while (i < words.size()) {
    Flag const* f = nullptr;
    for (auto& x : flags)
      if (x.name == words[i]) f = &x;
    if (f) {
      if (seen.count(f->name) || i + f->args.size() >= words.size()) {
        error = true;
        break;
      }
      auto& v = seen[f->name];
      for (size_t j = 0; j < f->args.size(); ++j) v.push_back(words[i + 1 + j]);
      i += 1 + f->args.size();
    } else if (words[i] == "--help") help = true, left.push_back(words[i]), ++i;
    else if (int(pos.size()) < npos) pos.push_back(words[i++]);
    else left.push_back(words[i++]);
  }
  if (int(pos.size()) < npos) error = true;
  oh::CmdLine cl;
  for (auto& f : flags) {
    auto& x = cl.add_flag(f.name, "about");
    if (f.args.size() == 1) x.add_arg<string>("s", "sdef");
    if (f.args.size() == 2) x.add_arg<int>("i", -1), x.add_arg<double>("d", -1.5);
  }
  if (npos > 0) cl.add_arg<string>("p0");
  if (npos > 1) cl.add_arg<int>("p1", 3);
  vector<string> store = {"prog"};
  for (auto& w : words) store.push_back(w);
  vector<char*> argv;
  for (auto& s : store) argv.push_back(&s[0]);
  int argc = int(argv.size());
  argv.push_back(nullptr);
  auto comm = self();
  bool ok = false;
  auto printed = quiet_cout([&]() { ok = final_ ? cl.parse_final(comm, &argc, argv.data()) : cl.parse(comm, &argc, argv.data()); });
  c.exec();
  c.state(mc::Hash().add(log).add(npos).add(order).add(final_).h);
  bool want = !error && (!final_ || (!help && left.empty()));
  c.require(ok == want, "cmdline", "command line%s (%d positional, order %d, final %d) was %s", log.c_str(), npos, order, final_, ok ? "accepted" : "refused");
  bool usage = final_ ? !want : (error || help);
  c.require((printed.find("usage:") != string::npos) == usage, "usage", "usage %s for%s", usage ? "not printed" : "printed", log.c_str());
  if (error) return;
  c.require(argc == int(left.size()) + 1, "rest", "%d words left of%s", argc - 1, log.c_str());
  for (size_t j = 0; j < left.size(); ++j) c.require(left[j] == argv[j + 1], "rest", "word %d left of%s is %s", int(j), log.c_str(), argv[j + 1]);
  for (auto& f : flags) {
    bool p = seen.count(f.name);
    c.require(cl.parsed(f.name) == p, "flag", "%s of%s %s parsed", f.name.c_str(), log.c_str(), p ? "not" : "");
    if (f.args.size() == 1) {
      c.require(cl.get<string>(f.name, "s") == (p ? seen[f.name][0] : "sdef"), "flag", "%s of%s is %s", f.name.c_str(), log.c_str(), cl.get<string>(f.name, "s").c_str());
      c.require(cl.parsed(f.name, 0) == p, "flag", "%s argument of%s", f.name.c_str(), log.c_str());
    }
    if (f.args.size() == 2) {
      c.require(cl.get<int>(f.name, "i") == (p ? atoi(seen[f.name][0].c_str()) : -1), "flag", "%s i of%s", f.name.c_str(), log.c_str());
      c.require(cl.get<double>(f.name, "d") == (p ? atof(seen[f.name][1].c_str()) : -1.5), "flag", "%s d of%s", f.name.c_str(), log.c_str());
    }
  }
  if (npos > 0) c.require(cl.get<string>("p0") == pos[0] && cl.parsed(0), "positional", "p0 of%s", log.c_str());
  if (npos > 1) c.require(cl.get<int>("p1") == atoi(pos[1].c_str()) && cl.parsed(1), "positional", "p1 of%s", log.c_str());
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C24",
      {
          {"structures", trees, 60, false, "every structure of up to 6 (thorough 7) nodes in every mix of block and flow styles x 10 (14) ways of layout"},
          {"documents", documents, 60, false, "9 beginnings x 6 endings x bodies of 1-2 entries of 6 kinds, both newlines"},
          {"scalars", scalars, 60, false, "every string of up to 3 (4) of 16 characters, plain or in either quotes, at 6 places"},
          {"blocks", blocks, 60, false, "block scalars of up to 4 (5) lines x chomping x indentation x what follows, both newlines"},
          {"refusals", refusals, 60, false, "malformed documents"},
          {"numbers", numbers, 60, false, "every string of up to 5 (6) of 8 characters as each type"},
          {"access", accesses, 60, false, "every history of 4 (5) accesses"},
          {"includes", includes, 60, false, "included files at 4 places, nested and repeated"},
          {"echo", echoes, 60, false, "every structure of up to 5 (6) nodes x 11 scalars"},
          {"class_sets", class_sets, 60, false, "class sets"},
          {"cmdline", cmdline, 60, false, "every command line of up to 5 (6) words against 3 flags and 0-2 arguments"},
      });
}
