// C23: expression evaluation.  Oracle: a tree evaluator working one point at a
// time on plain doubles; expressions are enumerated as trees, printed, and
// evaluated by both readers, with inputs uniform or varying from point to point.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <Omega_h_expr.hpp>
#include <Omega_h_math_lang.hpp>
#include <Omega_h_matrix.hpp>
#include <Omega_h_vector.hpp>
#include "../mc/mc.hpp"
namespace oh = Omega_h;
using std::map;
using std::string;
using std::vector;

enum Kind { S, V, M, B, Y, NONE };  // scalar, vector, matrix, condition, packed symmetric
static int ncomps(int k, int d) { return k == V ? d : k == M ? d * d : k == Y ? d * (d + 1) / 2 : 1; }
struct Node {
  string op;   // "c" constant, "v" variable, "neg", "call", binary operators, "?:"
  string text; // of constants, names
  vector<std::shared_ptr<Node>> kids;
};
using P = std::shared_ptr<Node>;
static P mk(string op, vector<P> kids, string text = "") { return P(new Node{op, text, kids}); }
static P con(string t) { return mk("c", {}, t); }
static P var(string t) { return mk("v", {}, t); }

// ---- the environment: every variable has a kind and a value per point
struct Var {
  int kind;
  bool array;
  vector<double> vals;  // n * ncomps if array, else ncomps; matrices by rows
};
struct World {
  int d, n;
  map<string, Var> vars;
};
static World world(int d, int n, int which) {
  World w{d, n, {}};
  auto put = [&](string name, int k, bool array, double seed) {
    Var v{k, array, {}};
    int m = ncomps(k, d) * (array ? n : 1);
    for (int i = 0; i < m; ++i) {
      double x = seed + 0.5 * ((i * 7 + 3) % 11) - 2.25;
      v.vals.push_back(x == 0 ? 1.5 : x);
    }
    w.vars[name] = v;
  };
  // the second world has the same names with the roles of uniform and varying swapped
  bool f = which & 1;
  put("s", S, f, 5.25);
  put("a", S, !f, 4.0);
  put("v", V, f, 3.0);
  put("w", V, !f, -1.0);
  put("M", M, f, 2.0);
  put("N", M, !f, 6.0);
  Var id{M, false, vector<double>(size_t(d * d))};
  for (int i = 0; i < d; ++i) id.vals[size_t(i * d + i)] = 1;
  w.vars["I"] = id;
  for (auto name : {"Q", "R"}) {  // symmetric
    Var q = w.vars[string(name) == "Q" ? "M" : "N"];
    for (size_t p = 0; p < q.vals.size(); p += size_t(d * d))
      for (int i = 0; i < d; ++i)
        for (int j = 0; j < i; ++j) q.vals[p + size_t(i * d + j)] = q.vals[p + size_t(j * d + i)];
    w.vars[name] = q;
  }
  w.vars["pi"] = Var{S, false, {3.14159265358979323846264338327950288}};
  w.vars["d"] = Var{S, false, {double(d)}};
  return w;
}
template <int d>
static oh::any to_any(World const& w, Var const& v) {
  if (v.array) {
    oh::Write<oh::Real> a(int(v.vals.size()));
    for (int i = 0; i < a.size(); ++i) a[i] = v.vals[size_t(i)];
    return oh::Reals(a);
  }
  if (v.kind == S) return v.vals[0];
  if (v.kind == V) {
    oh::Vector<d> x;
    for (int i = 0; i < d; ++i) x[i] = v.vals[size_t(i)];
    return x;
  }
  oh::Matrix<d, d> x;
  for (int i = 0; i < d; ++i)
    for (int j = 0; j < d; ++j) x(i, j) = v.vals[size_t(i * d + j)];
  (void)w;
  return x;
}
static oh::any to_any(World const& w, Var const& v) { return w.d == 1 ? to_any<1>(w, v) : w.d == 2 ? to_any<2>(w, v) : to_any<3>(w, v); }

// ---- the oracle
enum Status { FINE, REFUSE, ANY };
struct Type {
  int kind = NONE;
  bool array = false;
  bool matrix0 = false;
  Status status = FINE;
};
static bool integer(P const& p, int* out) {
  int sign = 1;
  auto q = p;
  if (q->op == "neg") sign = -1, q = q->kids[0];
  if (q->op != "c") return false;
  *out = sign * atoi(q->text.c_str());
  return true;
}
static Type type_of(World const& w, P const& p) {
  Type t;
  vector<Type> k;
  for (auto& x : p->kids) {
    k.push_back(type_of(w, x));
    t.array = t.array || k.back().array;
    t.status = std::max(t.status, k.back().status);
  }
  auto bad = [&](Status s) { t.status = std::max(t.status, s); };
  for (auto& x : k)
    if (x.kind == Y) bad(ANY);
  auto& o = p->op;
  bool exact = w.d > 1 && w.n > 0;  // otherwise kinds cannot be told apart
  if (o == "c") t.kind = S;
  else if (o == "v") {
    auto it = w.vars.find(p->text);
    if (it == w.vars.end()) bad(REFUSE);
    else t.kind = it->second.kind, t.array = it->second.array;
  } else if (o == "neg") {
    t.kind = k[0].kind;
  } else if (o == "+" || o == "-") {
    t.kind = k[0].kind;
    if (k[0].kind != k[1].kind) bad(exact ? REFUSE : ANY);
  } else if (o == "*") {
    int a = k[0].kind, b = k[1].kind;
    if (a == S) t.kind = b;
    else if (b == S) t.kind = a;
    else if (a == V && b == V) t.kind = S;
    else if (a == M) t.kind = b;
    else bad(exact ? REFUSE : ANY);
  } else if (o == "/") {
    t.kind = k[0].kind;
    if (k[1].kind != S) bad(ANY);
  } else if (o == "^") {
    t.kind = S;
    if (k[0].kind != S || k[1].kind != S) bad(ANY);
  } else if (o == ">" || o == "<" || o == "==") {
    t.kind = B;
    if (k[0].kind != S || k[1].kind != S) bad(ANY);
  } else if (o == ">=" || o == "<=") {
    t.kind = B;
    bad(REFUSE);
  } else if (o == "&&" || o == "||") {
    t.kind = B;
  } else if (o == "?:") {
    t.kind = k[1].kind;
    t.array = k[0].array || k[1].array || k[2].array;
    if (k[1].kind != k[2].kind) bad(ANY);
    else if (!t.array && t.kind != S) bad(ANY);  // declared unsupported
  } else {  // call
    auto it = w.vars.find(p->text);
    if (it != w.vars.end()) {
      t.kind = S;
      t.array = it->second.array;
      int need = it->second.kind == V ? 1 : 2;
      if (it->second.kind == S) bad(exact || !t.array ? REFUSE : ANY);
      if (int(k.size()) < need) bad(exact || k.empty() ? REFUSE : ANY);
      else if (int(k.size()) > need) bad(ANY);
      for (auto& x : p->kids) {
        int i;
        if (!integer(x, &i)) bad(ANY);
        else if (i < 0 || i >= w.d) bad(REFUSE);
      }
    } else if (p->text == "vector") {
      t.kind = V;
      if (k.empty() || int(k.size()) > w.d) bad(REFUSE);
      for (auto& x : k)
        if (x.kind != S) bad(exact ? REFUSE : ANY);
    } else if (p->text == "matrix" || p->text == "tensor") {
      t.kind = M;
      bool zero = k.size() == 1 && p->kids[0]->op == "c" && atof(p->kids[0]->text.c_str()) == 0;
      t.matrix0 = k.size() == 1;  // a uniform zero makes an array
      if (!zero && int(k.size()) != w.d * w.d) bad(t.matrix0 && p->kids[0]->op != "c" && !t.array ? ANY : REFUSE);
      for (auto& x : k)
        if (x.kind != S) bad(exact ? REFUSE : ANY);
    } else if (p->text == "symm") {
      t.kind = Y;
      t.matrix0 = true;
      if (k.size() != 1) bad(REFUSE);
      else if (k[0].kind != M) bad(exact ? REFUSE : ANY);
    } else if (p->text == "norm") {
      t.kind = S;
      if (k.size() != 1) bad(REFUSE);
      else if (k[0].kind != V) bad(exact ? REFUSE : ANY);
    } else if (p->text == "second") {
      if (k.size() == 2) t.kind = k[1].kind, t.array = k[1].array;
      else bad(REFUSE);
    } else if (p->text == "exp" || p->text == "sqrt" || p->text == "sin" || p->text == "cos" || p->text == "erf") {
      t.kind = S;
      if (k.size() != 1) bad(REFUSE);
      else if (k[0].kind != S) bad(exact ? REFUSE : ANY);
    } else bad(REFUSE);
  }
  for (auto& x : k) t.matrix0 = t.matrix0 || x.matrix0;
  return t;
}
// value at point i; meets something without a specified value -> *zero
static vector<double> value(World const& w, P const& p, int i, bool* zero) {
  vector<vector<double>> k;
  for (auto& x : p->kids) k.push_back(value(w, x, i, zero));
  auto& o = p->op;
  auto ty = [&](int j) { return type_of(w, p->kids[size_t(j)]).kind; };
  int d = w.d;
  if (o == "c") return {strtod(p->text.c_str(), nullptr)};
  if (o == "v") {
    auto& v = w.vars.at(p->text);
    int m = ncomps(v.kind, d);
    auto b = v.vals.begin() + (v.array ? i * m : 0);
    return vector<double>(b, b + m);
  }
  if (o == "neg") {
    for (auto& x : k[0]) x = -x;
    return k[0];
  }
  if (o == "+" || o == "-") {
    for (size_t j = 0; j < k[0].size(); ++j) k[0][j] = o == "+" ? k[0][j] + k[1][j] : k[0][j] - k[1][j];
    return k[0];
  }
  if (o == "*") {
    int a = ty(0), b = ty(1);
    if (a == S || b == S) {
      auto s = a == S ? k[0][0] : k[1][0];
      auto r = a == S ? k[1] : k[0];
      for (auto& x : r) x *= s;
      return r;
    }
    if (a == V) {
      double s = 0;
      for (int j = 0; j < d; ++j) s += k[0][size_t(j)] * k[1][size_t(j)];
      return {s};
    }
    int cols = b == V ? 1 : d;
    vector<double> r(size_t(d * cols), 0.);
    for (int x = 0; x < d; ++x)
      for (int y = 0; y < cols; ++y)
        for (int z = 0; z < d; ++z) r[size_t(x * cols + y)] += k[0][size_t(x * d + z)] * k[1][size_t(z * cols + y)];
    return r;
  }
  if (o == "/") {
    if (k[1][0] == 0) *zero = true;
    for (auto& x : k[0]) x /= k[1][0];
    return k[0];
  }
  if (o == "^") return {std::pow(k[0][0], k[1][0])};
  if (o == ">") return {double(k[0][0] > k[1][0])};
  if (o == "<") return {double(k[0][0] < k[1][0])};
  if (o == "==") return {double(k[0][0] == k[1][0])};
  if (o == "&&") return {double(k[0][0] != 0 && k[1][0] != 0)};
  if (o == "||") return {double(k[0][0] != 0 || k[1][0] != 0)};
  if (o == "?:") return k[0][0] != 0 ? k[1] : k[2];
  auto it = w.vars.find(p->text);
  if (it != w.vars.end()) {
    auto& v = it->second;
    int m = ncomps(v.kind, d);
    int at = v.kind == V ? int(k[0][0]) : int(k[0][0]) * d + int(k[1][0]);
    return {v.vals[size_t((v.array ? i * m : 0) + at)]};
  }
  if (p->text == "vector") {
    vector<double> r;
    for (auto& x : k) r.push_back(x[0]);
    while (int(r.size()) < d) r.push_back(r.back());
    return r;
  }
  if (p->text == "matrix" || p->text == "tensor") {
    vector<double> r;
    for (auto& x : k) r.push_back(x[0]);
    r.resize(size_t(d * d), 0.);
    return r;
  }
  if (p->text == "symm") {
    auto& m = k[0];
    for (int x = 0; x < d; ++x)
      for (int y = 0; y < x; ++y)
        if (m[size_t(x * d + y)] != m[size_t(y * d + x)]) *zero = true;  // which half is kept is unspecified
    if (d == 1) return m;
    if (d == 2) return {m[0], m[3], m[1]};
    return {m[0], m[4], m[8], m[1], m[5], m[2]};
  }
  if (p->text == "norm") {
    double s = 0;
    for (auto x : k[0]) s += x * x;
    return {std::sqrt(s)};
  }
  if (p->text == "second") return k[1];
  double x = k[0][0];
  if (p->text == "exp") return {std::exp(x)};
  if (p->text == "sqrt") return {std::sqrt(x)};
  if (p->text == "sin") return {std::sin(x)};
  if (p->text == "cos") return {std::cos(x)};
  return {std::erf(x)};
}

// ---- printing, with as few or as many parentheses as allowed
static string show(P const& p, int level, int style) {
  string sp = style ? " " : "";
  if (style == 2) sp = "\n\t ";
  auto& o = p->op;
  auto K = [&](int i, int l) { return show(p->kids[size_t(i)], l, style); };
  int mine;
  string s;
  bool cond = false;
  if (o == "c" || o == "v") mine = 5, s = p->text + sp;
  else if (o == "neg") mine = 3, s = "-" + sp + K(0, 3);
  else if (o == "+" || o == "-") mine = 1, s = K(0, 1) + o + sp + K(1, 2);
  else if (o == "*" || o == "/") mine = 2, s = K(0, 2) + o + sp + K(1, 4);
  else if (o == "^") mine = 4, s = K(0, 5) + o + sp + K(1, 4);
  else if (o == "?:") mine = 0, s = K(0, 10) + "?" + sp + K(1, 1) + ":" + sp + K(2, 1);
  else if (o == "call") {
    mine = 5, s = p->text + sp + "(" + sp;
    for (int i = 0; i < int(p->kids.size()); ++i) s += (i ? "," + sp : string()) + K(i, 0);
    s += ")" + sp;
  } else if (o == "||") cond = true, mine = 10, s = K(0, 10) + o + sp + K(1, 11);
  else if (o == "&&") cond = true, mine = 11, s = K(0, 11) + o + sp + K(1, 12);
  else cond = true, mine = 12, s = K(0, 1) + o + sp + K(1, 1);
  (void)cond;
  if (mine < level || (style && mine != 5 && level)) s = "(" + sp + s + ")" + sp;
  return s;
}

// ---- running both readers
struct Result {
  bool threw = false;
  string why;
  oh::any val;
};
static bool close_(double a, double b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return a == b || std::abs(a - b) <= 1e-12 * std::max({std::abs(a), std::abs(b), 1e-3});
}
static oh::any second(oh::ExprEnv::Args& a) {
  if (a.size() != 2) throw std::runtime_error("second() takes two");
  return a[1];
}
// value of the result at every point, after spreading it
static void judge(mc::Ctx& c, World const& w, P const& p, Result& r, string const& text, char const* who, int which, oh::ExprEnv& env) {
  auto t = type_of(w, p);
  bool zero = false;
  vector<vector<double>> want;
  if (t.status == FINE)
    for (int i = 0; i < w.n; ++i) want.push_back(value(w, p, i, &zero));
  if (t.status == ANY || zero) return;
  if (t.status == REFUSE) {
    c.require(r.threw, "accepted", "%s accepted \"%s\" (dimension %d, %d points, world %d)", who, text.c_str(), w.d, w.n, which);
    return;
  }
  c.require(!r.threw, "refused", "%s refused \"%s\" (dimension %d, %d points, world %d): %s", who, text.c_str(), w.d, w.n, which, r.why.c_str());
  if (!t.array && !t.matrix0) {
    bool ok = t.kind == S ? r.val.type() == typeid(oh::Real)
                          : t.kind == V ? (w.d == 1 ? r.val.type() == typeid(oh::Vector<1>) : w.d == 2 ? r.val.type() == typeid(oh::Vector<2>) : r.val.type() == typeid(oh::Vector<3>))
                                        : (w.d == 1 ? r.val.type() == typeid(oh::Matrix<1, 1>) : w.d == 2 ? r.val.type() == typeid(oh::Matrix<2, 2>) : r.val.type() == typeid(oh::Matrix<3, 3>));
    c.require(ok, "uniform", "%s: \"%s\" of uniform values did not give a uniform value (dimension %d)", who, text.c_str(), w.d);
  }
  env.repeat(r.val);
  c.require(r.val.type() == typeid(oh::Reals), "type", "%s: \"%s\" is not an array when repeated", who, text.c_str());
  auto a = oh::any_cast<oh::Reals>(r.val);
  int m = ncomps(t.kind, w.d);
  c.require(a.size() == m * w.n, "size", "%s: \"%s\" has %d values instead of %d (dimension %d, %d points)", who, text.c_str(), a.size(), m * w.n, w.d, w.n);
  for (int i = 0; i < w.n; ++i)
    for (int j = 0; j < m; ++j) {
      double x = want[size_t(i)][size_t(j)];
      c.require(close_(a[i * m + j], x), "value", "%s: \"%s\" is %.17g instead of %.17g at point %d, component %d (dimension %d, %d points, world %d)",
          who, text.c_str(), a[i * m + j], x, i, j, w.d, w.n, which);
    }
}
template <class F>
static Result run(F f) {
  Result r;
  try {
    r.val = f();
  } catch (mc::Failure&) {
    throw;
  } catch (std::exception& e) {
    r.threw = true;
    r.why = e.what();
  }
  return r;
}
static void put_all(World const& w, oh::ExprEnv& env) {
  for (auto& v : w.vars) env.register_variable(v.first, to_any(w, v.second));
}
static void check(mc::Ctx& c, P p, int style, vector<std::pair<int, int>> sizes) {
  auto text = show(p, 0, style);
  c.state(mc::Hash().add(text).h);
  if (c.describing()) c.note("%s", text.c_str());
  oh::OpPtr op;
  auto parsed = run([&]() -> oh::any {
    oh::ExprOpsReader reader;
    op = reader.read_ops(text);
    return oh::any();
  });
  for (auto dn : sizes) {
    std::unique_ptr<oh::ExprReader> reader(new oh::ExprReader(dn.second, dn.first));
    oh::ExprEnv env(dn.second, dn.first);
    reader->register_function("second", second);
    env.register_function("second", second);
    // worlds 0, 1, 0: the same operations and the same reader, over changing values
    for (int step = 0; step < 3; ++step) {
      auto w = world(dn.first, dn.second, step);
      put_all(w, env);
      for (auto& v : w.vars) reader->register_variable(v.first, to_any(w, v.second));
      auto r1 = run([&]() { return reader->read_string(text, "direct"); });
      judge(c, w, p, r1, text, "ExprReader", step, env);
      Result r2 = parsed;
      if (op) r2 = run([&]() { return op->eval(env); });
      judge(c, w, p, r2, text, "ExprOpsReader", step, env);
      c.require(r1.threw == r2.threw, "disagree", "the readers disagree about \"%s\" (dimension %d, %d points, world %d): %s%s", text.c_str(), w.d, w.n, step, r1.why.c_str(), r2.why.c_str());
      c.exec(2);
      // the inputs are untouched
      for (auto& v : w.vars) {
        if (!v.second.array) continue;
        auto a = oh::any_cast<oh::Reals>(env.variables.at(v.first));
        for (int i = 0; i < a.size(); ++i) c.require(a[i] == v.second.vals[size_t(i)], "input", "evaluating \"%s\" changed %s", text.c_str(), v.first.c_str());
      }
    }
  }
}
static vector<std::pair<int, int>> all_sizes(mc::Ctx& c) {
  vector<std::pair<int, int>> r;
  for (int d = 1; d <= 3; ++d)
    for (int n : {2, 0, 1, 3})
      if (n < 2 + (c.thorough() ? 2 : 1) && !(n == 1 && d == 3)) r.push_back({d, n});
  return r;
}

// ---- trees with exactly n operations
static P gen(mc::Ctx& c, int kind, int n, bool calls);
static vector<P> spread(mc::Ctx& c, vector<int> kinds, int n, bool calls) {
  vector<P> r;
  for (size_t i = 0; i < kinds.size(); ++i) {
    int mine = i + 1 < kinds.size() ? c.choose(n + 1) : n;
    if (kinds[i] == B && mine == 0) c.prune();
    n -= mine;
    r.push_back(gen(c, kinds[i], mine, calls));
  }
  return r;
}
static P bin(mc::Ctx& c, string op, int a, int b, int n, bool calls) { return mk(op, spread(c, {a, b}, n, calls)); }
static P gen(mc::Ctx& c, int kind, int n, bool calls) {
  if (n == 0) {
    if (kind == S) {
      int x = c.choose(3);
      return x == 0 ? var("a") : x == 1 ? var("s") : con("3");
    }
    if (kind == V) return var(c.flip() ? "v" : "w");
    int x = c.choose(3);
    return var(x == 0 ? "M" : x == 1 ? "N" : "I");
  }
  --n;
  if (kind == S) {
    int o = c.choose(calls ? 13 : 8);
    if (o < 5) return bin(c, string(1, "+-*/^"[o]), S, S, n, calls);
    if (o == 5) return mk("neg", spread(c, {S}, n, calls));
    if (o == 6) return mk("?:", spread(c, {B, S, S}, n, calls));
    if (o == 7) return bin(c, "*", V, V, n, calls);
    if (o == 8) return mk("call", spread(c, {V}, n, calls), "norm");
    if (o == 9) return mk("call", spread(c, {S}, n, calls), "sqrt");
    if (o == 10) return mk("call", spread(c, {S, S}, n, calls), "second");
    if (n) c.prune();
    if (o == 11) return mk("call", {con(std::to_string(c.choose(3)))}, c.flip() ? "v" : "w");
    auto i = c.choose(3), j = c.choose(3);
    return mk("call", {con(std::to_string(i)), con(std::to_string(j))}, c.flip() ? "M" : "N");
  }
  if (kind == V) {
    int o = c.choose(calls ? 11 : 8);
    if (o < 2) return bin(c, string(1, "+-"[o]), V, V, n, calls);
    if (o == 2) return bin(c, "*", S, V, n, calls);
    if (o == 3) return bin(c, "*", V, S, n, calls);
    if (o == 4) return bin(c, "/", V, S, n, calls);
    if (o == 5) return bin(c, "*", M, V, n, calls);
    if (o == 6) return mk("neg", spread(c, {V}, n, calls));
    if (o == 7) return mk("?:", spread(c, {B, V, V}, n, calls));
    return mk("call", spread(c, vector<int>(size_t(o - 7), S), n, calls), "vector");
  }
  if (kind == M) {
    int o = c.choose(calls ? 9 : 8);
    if (o < 2) return bin(c, string(1, "+-"[o]), M, M, n, calls);
    if (o == 2) return bin(c, "*", S, M, n, calls);
    if (o == 3) return bin(c, "*", M, S, n, calls);
    if (o == 4) return bin(c, "/", M, S, n, calls);
    if (o == 5) return bin(c, "*", M, M, n, calls);
    if (o == 6) return mk("neg", spread(c, {M}, n, calls));
    if (o == 7) return mk("?:", spread(c, {B, M, M}, n, calls));
    int sq = c.choose(3) + 1;
    auto k = spread(c, {S, S}, n, calls);
    vector<P> args;
    for (int i = 0; i < sq * sq; ++i) args.push_back(i % 3 == 0 ? k[0] : i % 3 == 1 ? k[1] : con(std::to_string(i)));
    return mk("call", args, c.flip() ? "matrix" : "tensor");
  }
  int o = c.choose(5);
  if (o < 3) {
    char const* ops[] = {">", "<", "=="};
    return bin(c, ops[o], S, S, n, calls);
  }
  if (n < 2) c.prune();
  int l = 1 + c.choose(n - 1);
  auto a = gen(c, B, l, calls);
  return mk(o == 3 ? "&&" : "||", {a, gen(c, B, n - l, calls)});
}
static void trees(mc::Ctx& c, vector<int> kinds, int max, bool calls) {
  int n = c.choose(max + 1);
  int kind = kinds[size_t(c.choose(int(kinds.size())))];
  int style = c.choose(n > 2 ? 1 : 3);
  if (n == 0) c.split();
  --n;
  // spread the work over the top operation
  if (n >= 0) {
    int piece = c.choose(16);
    c.split();
    (void)piece;
    // piece selects the top-level choice through a sieve on the tree's hash
    auto p = gen(c, kind, n + 1, calls);
    auto h = mc::Hash().add(show(p, 0, 1)).h;
    if (int((h >> 17) % 16) != piece) c.prune();
    check(c, p, style, all_sizes(c));
    return;
  }
  check(c, gen(c, kind, 0, calls), style, all_sizes(c));
}

// ---- conditions: every shape of and, or and parentheses
static void conditions(mc::Ctx& c) {
  int n = 1 + c.choose(c.thorough() ? 4 : 3);
  int b = c.choose(4), style = c.choose(2);
  c.split();
  std::function<P(int)> cond = [&](int m) -> P {
    if (m == 1) {
      int x = c.choose(4);
      return x == 0 ? mk(">", {var("a"), con("3")}) : x == 1 ? mk("<", {var("s"), var("a")}) : x == 2 ? mk("==", {con("1"), con("2")}) : mk("<", {con("1"), var("s")});
    }
    int o = c.choose(2);
    int l = 1 + c.choose(m - 1);
    auto a = cond(l);
    return mk(o ? "&&" : "||", {a, cond(m - l)});
  };
  auto p = cond(n);
  auto t = b == 0 ? con("1") : b == 1 ? var("w") : b == 2 ? var("N") : var("a");
  auto f = b == 0 ? con("2") : b == 1 ? mk("neg", {var("v")}) : b == 2 ? var("M") : con("7");
  check(c, mk("?:", {p, t, f}), style, all_sizes(c));
}

// ---- what must be refused, and every function with every kind and number of arguments
static void calls(mc::Ctx& c) {
  vector<string> names = {"exp", "sqrt", "sin", "cos", "erf", "norm", "vector", "matrix", "tensor", "symm", "second", "nosuch", "v", "w", "M", "N", "s", "a", "I", "pi"};
  auto name = names[size_t(c.choose(int(names.size())))];
  int n = c.choose(name == "matrix" || name == "tensor" ? 6 : 5);
  if (n == 4) n = 4;
  if (n == 5) n = 9;
  c.split();
  vector<P> pool = {con("0"), con("1"), con("2"), con("3"), var("a"), var("s"), var("w"), var("v"), var("M"), var("N"), mk("neg", {con("1")}), var("zz"), var("Q"), var("R"), mk("?:", {mk(">", {var("a"), con("3")}), con("1"), con("0")})};
  vector<P> args;
  int first = -1;
  for (int i = 0; i < n; ++i) {
    int k = i < 2 || (i < 3 && c.thorough()) ? c.choose(int(pool.size())) : i == 2 ? c.choose(5) * 2 : (first + i * 5) % 6;
    if (!i) first = k;
    args.push_back(pool[size_t(k)]);
  }
  check(c, mk("call", args, name), c.thorough() ? c.choose(2) : n & 1, all_sizes(c));
}
static void mixes(mc::Ctx& c) {
  vector<P> pool = {con("2"), var("a"), var("s"), var("w"), var("v"), var("M"), var("N"), var("I"), var("d"), var("pi"), var("zz"), mk("call", {con("0")}, "matrix"), mk("call", {var("M")}, "symm")};
  vector<string> ops = {"+", "-", "*", "/", "^", ">", "<", "==", ">=", "<="};
  auto x = pool[size_t(c.choose(int(pool.size())))], y = pool[size_t(c.choose(int(pool.size())))];
  c.split();
  auto o = ops[size_t(c.choose(int(ops.size())))];
  auto p = mk(o, {x, y});
  if (o.find_first_of("><=") != string::npos) p = mk("?:", {p, con("1"), con("2")});
  else if (c.flip()) {
    auto o2 = c.choose(c.thorough() ? 5 : 3);
    auto z = pool[size_t(c.choose(c.thorough() ? int(pool.size()) : 6))];
    p = mk(ops[size_t(o2)], c.flip() ? vector<P>{p, z} : vector<P>{z, p});
  }
  check(c, p, 0, all_sizes(c));
}

// ---- statements: assignments, in one program and across programs
static void statements(mc::Ctx& c) {
  int n = c.thorough() ? 4 : 3;
  int d = 1 + c.choose(3), pts = c.choose(2) * 2;
  auto w = world(d, pts, c.choose(2));
  vector<std::pair<string, std::function<P()>>> rhs;
  vector<P> exprs = {mk("+", {var("b"), con("1")}), mk("*", {var("s"), var("a")}), var("w"), mk("neg", {var("e")}), mk("call", {con("0")}, "b"), mk("*", {var("b"), var("e")}), con("4")};
  c.split();
  bool spaces = c.flip();
  oh::ExprReader reader(pts, d);
  oh::ExprEnv env(pts, d);
  put_all(w, env);
  for (auto& v : w.vars) reader.register_variable(v.first, to_any(w, v.second));
  // the model holds kinds and values of assigned names
  string program;
  bool refused = false;
  int programs = 0;
  string log;
  auto wr = w, we = w;  // what each evaluator knows (identical unless a refusal stops a program half way)
  auto assign = [&](World& q, string const& name, P const& e) -> Status {
    auto t = type_of(q, e);
    if (t.status != FINE) return t.status;
    bool zero = false;
    Var v{t.kind, t.array, {}};
    for (int i = 0; i < (t.array ? q.n : 1); ++i)
      for (auto x : value(q, e, i, &zero)) v.vals.push_back(x);
    q.vars[name] = v;
    return FINE;
  };
  vector<std::pair<string, P>> pending;
  for (int i = 0; i < n; ++i) {
    int what = c.choose(3);  // assign b, assign e, evaluate
    auto e = exprs[size_t(c.choose(int(exprs.size())))];
    if (what < 2) {
      program += string(what ? "e" : "b") + (spaces ? " = " : "=") + show(e, 0, spaces) + (spaces ? ";\n " : ";");
      pending.push_back({what ? "e" : "b", e});
      continue;
    }
    program += show(e, 0, spaces);
    log += "[" + program + "] ";
    ++programs;
    auto r1 = run([&]() { return reader.read_string(program, "direct"); });
    auto r2 = run([&]() {
      oh::ExprOpsReader ops;
      return ops.read_ops(program)->eval(env);
    });
    Status st = FINE;
    for (auto& s : pending) {
      st = assign(wr, s.first, s.second);
      if (st != FINE) break;
    }
    if (st == FINE) st = type_of(wr, e).status;
    if (st == ANY) return;
    if (st == REFUSE) {
      c.require(r1.threw && r2.threw, "accepted", "%saccepted in dimension %d, %d points (%d, %d)", log.c_str(), d, pts, r1.threw, r2.threw);
    } else {
      judge(c, wr, e, r1, log, "ExprReader", 0, env);
      judge(c, wr, e, r2, log, "ExprOpsReader", 0, env);
    }
    (void)refused;
    pending.clear();
    program.clear();
    c.exec(2);
  }
  (void)we;
  if (!programs) {
    // only assignments: nothing to evaluate
    auto r1 = run([&]() { return reader.read_string(program, "direct"); });
    auto r2 = run([&]() {
      oh::ExprOpsReader ops;
      return ops.read_ops(program)->eval(env);
    });
    c.require(r1.threw && r2.threw, "nothing", "a program without an expression was accepted: %s", program.c_str());
  }
  c.state(mc::Hash().add(log).add(d).add(pts).add(spaces).h);
}

// ---- constants, symbols used, spreading
static void constants(mc::Ctx& c) {
  vector<string> whole = {"0", "1", "10", "907", "123456789012345678"}, frac = {"", ".", ".5", ".0625", ".00"}, ex = {"", "e1", "E-3", "e+12", "E0", "e-320", "e400"};
  auto t = whole[size_t(c.choose(5))];
  c.split();
  t += frac[size_t(c.choose(5))];
  t += ex[size_t(c.choose(7))];
  if (c.flip()) check(c, mk("neg", {con(t)}), 0, {{2, 2}});
  else check(c, con(t), 0, {{2, 2}});
}
static void names_of(P const& p, std::set<string>* vars, std::set<string>* all) {
  if (p->op == "v") vars->insert(p->text), all->insert(p->text);
  if (p->op == "call") all->insert(p->text);
  for (auto& k : p->kids) names_of(k, vars, all);
}
static void symbols(mc::Ctx& c) {
  int n = c.choose(c.thorough() ? 4 : 3), kind = c.choose(3);
  c.split();
  auto p = gen(c, kind, n, true);
  std::set<string> v, s;
  names_of(p, &v, &s);
  auto text = show(p, 0, c.choose(2));
  if (c.flip()) {
    text = "q_1 = " + text + "; q_1 + pi";
    v.insert({"q_1", "pi"});
    s.insert({"q_1", "pi"});
  }
  c.require(oh::math_lang::get_variables_used(text) == v, "variables", "variables used in %s", text.c_str());
  c.require(oh::math_lang::get_symbols_used(text) == s, "symbols", "symbols used in %s", text.c_str());
  c.exec();
  c.state(mc::Hash().add(text).h);
}
template <int d>
static void repeat_(mc::Ctx& c, int n) {
  oh::ExprEnv env(n, d);
  oh::Vector<oh::symm_ncomps(d)> y;
  for (int i = 0; i < oh::symm_ncomps(d); ++i) y[i] = i + 1.5;
  oh::any x = y;
  if (d > 1) {
    env.repeat(x);
    auto a = oh::any_cast<oh::Reals>(x);
    c.require(a.size() == n * oh::symm_ncomps(d), "repeat", "size %d", a.size());
    for (int i = 0; i < a.size(); ++i) c.require(a[i] == i % oh::symm_ncomps(d) + 1.5, "repeat", "value %d", i);
  }
  x = true;
  env.repeat(x);
  auto b = oh::any_cast<oh::Bytes>(x);
  c.require(b.size() == n, "repeat", "bool size");
  for (int i = 0; i < n; ++i) c.require(b[i] == 1, "repeat", "bool value");
  x = string("no");
  auto r = run([&]() -> oh::any {
    env.repeat(x);
    return oh::any();
  });
  c.require(r.threw, "repeat", "repeated a string");
}
static void repeats(mc::Ctx& c) {
  int d = 1 + c.choose(3), n = c.choose(4);
  c.split();
  if (d == 1) repeat_<1>(c, n);
  if (d == 2) repeat_<2>(c, n);
  if (d == 3) repeat_<3>(c, n);
  c.exec();
  c.state(mc::Hash().add(d).add(n).h);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C23",
      {
          {"scalars", [](mc::Ctx& c) { trees(c, {S}, c.thorough() ? 3 : 2, false); }, 60, false, "every scalar expression of up to 2 (thorough 3) operations over uniform and varying values"},
          {"tensors", [](mc::Ctx& c) { trees(c, {V, M}, 2, false); }, 60, false, "every vector and matrix expression of up to 2 operations"},
          {"nested", [](mc::Ctx& c) { trees(c, {S, V, M}, 2, true); }, 60, false, "the same with functions and component access"},
          {"conditions", conditions, 60, false, "every condition of up to 3 (thorough 4) comparisons x branches of each kind"},
          {"calls", calls, 60, false, "every function and variable called with up to 3 of 15 arguments of every kind"},
          {"mixes", mixes, 60, false, "every operator, and pair of operators, on every combination of kinds"},
          {"statements", statements, 60, false, "every history of 3 (thorough 4) assignments and evaluations"},
          {"constants", constants, 60, false, "175 constants, also negated"},
          {"symbols", symbols, 60, false, "symbols used by expressions of up to 2 (thorough 3) operations"},
          {"repeats", repeats, 60, false, "spreading of uniform values"},
      });
}
