// C34: the ordered containers and `any` against plain models, over every
// sequence of operations of a bounded length.
#include <Omega_h_any.hpp>
#include <Omega_h_rbtree.hpp>
#include "osh.hpp"
using std::string;
using std::vector;

static mc::Ctx* C;
#define REQ(cond, key, ...) do { if (!(cond)) C->fail(key, __VA_ARGS__); } while (0)

// a value which knows whether it is alive, and counts the living
static long living = 0;
struct Item {
  int v;
  Item* self;
  string text;  // storage of its own
  Item(int v_) : v(v_), self(this), text(20, char('a' + (v_ & 15))) { ++living; }
  Item(Item const& o) : v(o.v), self(this), text(o.text) { ok(o); ++living; }
  Item(Item&& o) noexcept : v(o.v), self(this), text(std::move(o.text)) { ++living; }
  Item& operator=(Item const& o) { ok(o); ok(*this); v = o.v; text = o.text; return *this; }
  Item& operator=(Item&& o) noexcept { v = o.v; text = std::move(o.text); return *this; }
  ~Item() { self = nullptr; --living; }
  static void ok(Item const& o) { if (o.self != &o || o.text != string(20, char('a' + (o.v & 15)))) C->fail("dead", "a value that is not alive is used"); }
  bool operator==(Item const& o) const { return v == o.v; }
  bool operator<(Item const& o) const { return v < o.v; }
};
static long compares = 0;
struct Less {
  bool down = false;
  bool operator()(Item const& a, Item const& b) const {
    ++compares;
    Item::ok(a);
    Item::ok(b);
    return down ? b.v < a.v : a.v < b.v;
  }
};
using Tree = oh::rb_tree<Item, Item, oh::Rb_value_as_key<Item>, Less>;
using Model = std::set<int>;  // keys are negated for the descending order

// everything that can be asked of the tree
static void check(Tree& t, Model const& m, bool down, int maxkey, char const* w) {
  Tree const& ct = t;
  REQ(t.size() == m.size() && t.empty() == m.empty(), "size", "%s: %zu elements, expected %zu", w, t.size(), m.size());
  auto key = [&](int k) { return down ? -k : k; };
  auto i = t.begin();
  for (int k : m) {
    REQ(i != t.end(), "order", "%s: iteration ends before %d", w, key(k));
    Item::ok(*i);
    REQ(i->v == key(k), "order", "%s: iteration meets %d, expected %d", w, i->v, key(k));
    ++i;
  }
  REQ(i == t.end(), "order", "%s: iteration goes on past the last element", w);
  for (auto k = m.rbegin(); k != m.rend(); ++k) {
    --i;
    REQ(i->v == key(*k), "order", "%s: backwards iteration meets %d, expected %d", w, i->v, key(*k));
  }
  REQ(i == t.begin(), "order", "%s: backwards iteration does not end at the first element", w);
  auto ci = ct.begin();
  for (int k : m) REQ((ci++)->v == key(k), "order", "%s: iteration of the constant tree", w);
  REQ(ci == ct.end(), "order", "%s: iteration of the constant tree", w);
  for (int k = -1; k <= maxkey; ++k) {
    Item x(k);
    auto same = [&](Tree::iterator a, Model::const_iterator b, char const* f) {
      bool e = b == m.end();
      REQ((a == t.end()) == e && (e || a->v == key(*b)), f, "%s: %s of %d", w, f, k);
    };
    auto csame = [&](Tree::const_iterator a, Model::const_iterator b, char const* f) {
      bool e = b == m.end();
      REQ((a == ct.end()) == e && (e || a->v == key(*b)), f, "%s: %s of %d in the constant tree", w, f, k);
    };
    int q = key(k);
    same(t.find(x), m.find(q), "find");
    same(t.lower_bound(x), m.lower_bound(q), "lower_bound");
    same(t.upper_bound(x), m.upper_bound(q), "upper_bound");
    same(t.equal_range(x).first, m.lower_bound(q), "equal_range");
    same(t.equal_range(x).second, m.upper_bound(q), "equal_range");
    csame(ct.find(x), m.find(q), "find");
    csame(ct.lower_bound(x), m.lower_bound(q), "lower_bound");
    csame(ct.upper_bound(x), m.upper_bound(q), "upper_bound");
    csame(ct.equal_range(x).first, m.lower_bound(q), "equal_range");
    csame(ct.equal_range(x).second, m.upper_bound(q), "equal_range");
    REQ(t.count(x) == m.count(q), "count", "%s: count of %d", w, k);
  }
}
static void balanced(Tree& t, int maxkey, char const* w) {
  // no search is longer than twice the logarithm
  double bound = 2 * std::log2(double(t.size()) + 1) + 1 + 1e-9;
  for (int k = -1; k <= maxkey; ++k) {
    Item x(k);
    compares = 0;
    t.lower_bound(x);
    REQ(double(compares) <= bound, "balance", "%s: a search of %zu elements compares %ld times", w, t.size(), compares);
  }
}
static void no_leak(long before, char const* w) { REQ(living == before, "leak", "%s: %ld values are left alive", w, living - before); }

static vector<int> permutation(mc::Ctx& c, int n) {
  vector<int> left, r;
  for (int i = 0; i < n; ++i) left.push_back(i);
  while (!left.empty()) {
    int k = c.choose(int(left.size()));
    r.push_back(left[size_t(k)]);
    left.erase(left.begin() + k);
  }
  return r;
}

// every order of insertion, then every order of (some) removals
static void orders(mc::Ctx& c, int n, int removals) {
  C = &c;
  long before = living;
  c.note("%d keys", n);
  bool down = c.flip();
  auto ins = permutation(c, n);
  c.split();
  if (c.describing()) c.note("inserted as %s%s", str(ins).c_str(), down ? " in descending order" : "");
  mc::Hash h;
  for (int k : ins) h.add(k);
  c.state(h.add(down).h);
  {
    Tree t{Less{down}};
    Model m;
    auto key = [&](int k) { return down ? -2 * k : 2 * k; };  // room between the keys
    for (int k : ins) {
      auto r = t.insert(Item(2 * k));
      m.insert(key(k));
      REQ(r.second && r.first->v == 2 * k, "insert", "insertion of %d", 2 * k);
      balanced(t, 2 * n, "insertion");
    }
    check(t, m, down, 2 * n, "after the insertions");
    for (int k : ins) {
      auto r = t.insert(Item(2 * k));
      REQ(!r.second && r.first->v == 2 * k, "insert", "repeated insertion of %d", 2 * k);
    }
    check(t, m, down, 2 * n, "after repeated insertions");
    // removals, depth first
    std::function<void(Tree&, Model const&, int, string)> go = [&](Tree& a, Model const& am, int d, string w) {
      if (d == 0) return;
      for (int k = 0; k < n; ++k) {
        if (!am.count(key(k))) continue;
        Tree b(a);
        if (d == removals && k % 2) b = a;
        Model bm = am;
        bm.erase(key(k));
        string v = w + " " + std::to_string(2 * k);
        if ((k + d) % 2) {
          auto it = b.find(Item(2 * k));
          b.erase(it);
        } else {
          REQ(b.erase(Item(2 * k)) == 1, "erase", "removal of %d removes nothing", 2 * k);
          REQ(b.erase(Item(2 * k)) == 0, "erase", "removal of %d again removes something", 2 * k);
        }
        check(b, bm, down, 2 * n, v.c_str());
        balanced(b, 2 * n, v.c_str());
        c.exec();
        go(b, bm, d - 1, v);
      }
    };
    go(t, m, removals, "removed");
    check(t, m, down, 2 * n, "after its copies changed");
  }
  no_leak(before, "orders");
}

// every sequence of operations on two trees
static void mixed(mc::Ctx& c, int len, int nkeys) {
  C = &c;
  long before = living;
  {
    int start = c.choose(4);
    Tree t[2];
    Model m[2];
    for (int k = 0; k < start * 2; ++k) {
      int key = (k * 3 + 1) % nkeys;
      t[0].insert(Item(key));
      m[0].insert(key);
    }
    string w = "start " + std::to_string(start);
    for (int step = 0; step < len; ++step) {
      if (step == 2) c.split();
      int op = c.choose(9);
      char b[80];
      if (op == 0) {  // insert a reference
        int k = c.choose(nkeys);
        Item x(k);
        auto r = t[0].insert(x);
        auto s = m[0].insert(k);
        REQ(r.second == s.second && r.first->v == k, "insert", "%s: insert %d", w.c_str(), k);
        Item::ok(x);
        snprintf(b, sizeof b, " insert %d", k);
      } else if (op == 1) {  // insert with a hint
        int k = c.choose(nkeys), p = c.choose(int(m[0].size()) + 1);
        auto pos = t[0].begin();
        for (int i = 0; i < p; ++i) ++pos;
        auto r = c.flip() ? t[0].insert(pos, Item(k)) : [&] { Item x(k); return t[0].insert(pos, x); }();
        m[0].insert(k);
        REQ(r->v == k, "insert", "%s: insert %d before position %d", w.c_str(), k, p);
        snprintf(b, sizeof b, " insert %d at %d", k, p);
      } else if (op == 2) {
        int k = c.choose(nkeys);
        REQ(t[0].erase(Item(k)) == m[0].erase(k), "erase", "%s: erase %d", w.c_str(), k);
        snprintf(b, sizeof b, " erase %d", k);
      } else if (op == 3) {  // a range
        int n = int(m[0].size()), i = c.choose(n + 1), j = i + c.choose(n + 1 - i);
        auto a = t[0].begin();
        auto ma = m[0].begin();
        for (int k = 0; k < i; ++k) { ++a; ++ma; }
        auto e = a;
        auto me = ma;
        for (int k = i; k < j; ++k) { ++e; ++me; }
        t[0].erase(a, e);
        m[0].erase(ma, me);
        snprintf(b, sizeof b, " erase positions %d-%d", i, j);
      } else if (op == 4) {
        t[1] = t[0];
        m[1] = m[0];
        snprintf(b, sizeof b, " copy");
      } else if (op == 5) {
        t[0].swap(t[1]);
        std::swap(m[0], m[1]);
        snprintf(b, sizeof b, " swap");
      } else if (op == 6) {
        t[0].clear();
        m[0].clear();
        snprintf(b, sizeof b, " clear");
      } else if (op == 7) {
        Tree copy(t[1]);
        t[0].insert(copy.begin(), copy.end());
        m[0].insert(m[1].begin(), m[1].end());
        snprintf(b, sizeof b, " insert all of the other");
      } else {
        Tree const& self = t[0];
        t[0] = self;
        snprintf(b, sizeof b, " assign itself");
      }
      w += b;
      for (int i = 0; i < 2; ++i) check(t[i], m[i], false, nkeys, w.c_str());
      REQ((t[0] == t[1]) == (m[0] == m[1]) && (t[1] == t[0]) == (m[0] == m[1]), "equal", "%s: equality of the two trees", w.c_str());
      REQ((t[0] < t[1]) == (m[0] < m[1]) && (t[1] < t[0]) == (m[1] < m[0]), "less", "%s: order of the two trees", w.c_str());
    }
    c.note("%s", w.c_str());
  }
  no_leak(before, "mixed");
  c.exec();
}
// keys in long runs: searches stay short
static void runs(mc::Ctx& c) {
  C = &c;
  int n = 1 + c.choose(c.thorough() ? 300 : 120), how = c.choose(4);
  c.split();
  c.note("%d keys, pattern %d", n, how);
  long before = living;
  {
    Tree t;
    Model m;
    for (int i = 0; i < n; ++i) {
      int k = how == 0 ? i : how == 1 ? n - 1 - i : how == 2 ? (i % 2 ? i : n + (n % 2) - i) : i * 37 % 401;
      t.insert(Item(k));
      m.insert(k);
    }
    check(t, m, false, 2, "run");
    balanced(t, n + 1, "run");
    // remove from one side
    int rem = n / 2;
    for (int i = 0; i < rem; ++i) {
      int k = how % 2 ? *m.begin() : *m.rbegin();
      if (how == 2) k = *m.lower_bound(*m.rbegin() / 2);
      REQ(t.erase(Item(k)) == 1, "erase", "removal of %d", k);
      m.erase(k);
    }
    check(t, m, false, 2, "run with removals");
    balanced(t, n + 1, "run with removals");
  }
  no_leak(before, "runs");
  c.exec();
  c.state(mc::Hash().add(n).add(how).h);
}
// the map
static void maps(mc::Ctx& c, int len) {
  C = &c;
  oh::map<int, string> t;
  std::map<int, string> m;
  string w;
  for (int i = 0; i < len; ++i) {
    if (i == 2) c.split();
    int op = c.choose(4), k = c.choose(4);
    string v(size_t(20 + i), char('a' + i));
    if (op == 0) {
      t[k] = v;
      m[k] = v;
    } else if (op == 1) {
      REQ(t[k] == m[k], "subscript", "%s: [%d] is '%s', expected '%s'", w.c_str(), k, t[k].c_str(), m[k].c_str());
    } else if (op == 2) {
      REQ(t.erase(k) == m.erase(k), "erase", "%s: erase %d", w.c_str(), k);
    } else {
      auto r = t.insert(std::make_pair(k, v));
      auto s = m.insert(std::make_pair(k, v));
      REQ(r.second == s.second && r.first->second == s.first->second, "insert", "%s: insert %d", w.c_str(), k);
    }
    w += " " + std::to_string(op) + ":" + std::to_string(k);
    REQ(t.size() == m.size(), "size", "%s: %zu elements, expected %zu", w.c_str(), t.size(), m.size());
    auto a = t.begin();
    for (auto& p : m) {
      REQ(a != t.end() && a->first == p.first && a->second == p.second, "order", "%s: the element of key %d", w.c_str(), p.first);
      ++a;
    }
    REQ(a == t.end(), "order", "%s: one element too many", w.c_str());
    for (k = -1; k < 5; ++k) REQ((t.find(k) != t.end()) == (m.count(k) == 1) && t.count(k) == m.count(k), "find", "%s: find %d", w.c_str(), k);
  }
  c.note("%s", w.c_str());
  c.exec();
}

// ---- any
struct Small {  // kept in place
  Item* p;
  int v;
  explicit Small(int v_) : p(nullptr), v(v_) { ++living; }
  Small(Small const& o) : p(o.p), v(o.v) { ++living; }
  Small(Small&& o) noexcept : p(o.p), v(o.v) { o.v = -1; ++living; }
  Small& operator=(Small const&) = default;
  Small& operator=(Small&& o) noexcept { std::swap(v, o.v); return *this; }
  ~Small() { v = -2; --living; }
};
static bool copies_throw = false;
struct Thrower {  // copying may fail
  int v;
  string text;
  explicit Thrower(int v_) : v(v_), text(30, 't') { ++living; }
  Thrower(Thrower const& o) : v(o.v), text(o.text) {
    if (copies_throw) throw 17;
    ++living;
  }
  ~Thrower() { --living; }
};
enum { NONE, INT, STRING, ITEM, SMALL, THROWER, NTYPES };
struct Val {
  int type = NONE, v = 0;
};
static std::type_info const& type_of(int t) {
  switch (t) {
    case INT: return typeid(int);
    case STRING: return typeid(string);
    case ITEM: return typeid(Item);
    case SMALL: return typeid(Small);
    case THROWER: return typeid(Thrower);
  }
  return typeid(void);
}
static string text_of(int v) { return string(size_t(3 + v * 10), char('k' + v)); }
template <class T>
static bool refuses(oh::any& a) {
  bool t = false;
  try {
    oh::any_cast<T const&>(static_cast<oh::any const&>(a));
  } catch (oh::bad_any_cast const&) {
    t = true;
  }
  bool t2 = false;
  try {
    oh::any_cast<T&>(a);
  } catch (oh::bad_any_cast const&) {
    t2 = true;
  }
  return t && t2 && oh::any_cast<T>(&a) == nullptr && oh::any_cast<T>(static_cast<oh::any const*>(&a)) == nullptr;
}
static void check(oh::any& a, Val m, char const* w) {
  REQ(a.empty() == (m.type == NONE), "empty", "%s: empty", w);
  REQ(a.type() == type_of(m.type), "type", "%s: type", w);
  REQ((m.type == INT) != refuses<int>(a), "cast", "%s: cast to int", w);
  REQ((m.type == STRING) != refuses<string>(a), "cast", "%s: cast to string", w);
  REQ((m.type == ITEM) != refuses<Item>(a), "cast", "%s: cast to a large value", w);
  REQ((m.type == SMALL) != refuses<Small>(a), "cast", "%s: cast to a small value", w);
  REQ((m.type == THROWER) != refuses<Thrower>(a), "cast", "%s: cast to a throwing value", w);
  REQ(refuses<char>(a) && refuses<long>(a), "cast", "%s: cast to a type not held", w);
  bool ok = true;
  if (m.type == INT) ok = oh::any_cast<int>(a) == m.v && oh::any_cast<int const&>(a) == m.v;
  if (m.type == STRING) ok = oh::any_cast<string>(a) == text_of(m.v) && *oh::any_cast<string>(&a) == text_of(m.v);
  if (m.type == ITEM) {
    Item::ok(oh::any_cast<Item&>(a));
    ok = oh::any_cast<Item>(a).v == m.v;
  }
  if (m.type == SMALL) ok = oh::any_cast<Small>(a).v == m.v && oh::any_cast<Small&>(a).v == m.v;
  if (m.type == THROWER) ok = oh::any_cast<Thrower&>(a).v == m.v;
  REQ(ok, "value", "%s: the value held is not the one put in", w);
}
static oh::any make(int type, int v) {
  switch (type) {
    case INT: return oh::any(v);
    case STRING: return oh::any(text_of(v));
    case ITEM: return oh::any(Item(v));
    case SMALL: return oh::any(Small(v));
    case THROWER: return oh::any(Thrower(v));
  }
  return oh::any();
}
static void anys(mc::Ctx& c, int len) {
  C = &c;
  long before = living;
  {
    oh::any a[2];
    Val m[2];
    string w;
    for (int i = 0; i < len; ++i) {
      if (i == 1) c.split();
      int op = c.choose(11), x = c.choose(2), y = 1 - x;
      w += " " + std::to_string(op) + "." + std::to_string(x);
      if (op == 0) {  // a value
        int t = c.choose(NTYPES);
        a[x] = make(t, i);
        m[x].type = t;
        m[x].v = i;
        w += "." + std::to_string(t);
      } else if (op == 1) {
        a[x] = a[y];
        m[x] = m[y];
      } else if (op == 2) {  // moved from: whatever, but assignable
        a[x] = std::move(a[y]);
        m[x] = m[y];
        a[y].clear();
        m[y] = Val();
      } else if (op == 3) {
        using std::swap;
        if (i % 2) swap(a[x], a[y]);
        else a[x].swap(a[y]);
        std::swap(m[x], m[y]);
      } else if (op == 4) {
        a[x].clear();
        m[x] = Val();
      } else if (op == 5) {
        oh::any copy(a[x]);
        check(copy, m[x], "copy");
        oh::any moved(std::move(copy));
        check(moved, m[x], "moved");
      } else if (op == 6) {  // itself
        oh::any& self = a[x];
        a[x] = self;
        a[x].swap(self);
      } else if (op == 7) {  // change the value in place
        if (auto p = oh::any_cast<int>(&a[x])) *p = m[x].v = i + 3;
        if (auto p = oh::any_cast<string>(&a[x])) *p = text_of(m[x].v = i + 3);
        if (auto p = oh::any_cast<Small>(&a[x])) p->v = m[x].v = i + 3;
      } else if (op == 8) {  // a copy that fails changes nothing
        if (m[y].type != THROWER) c.prune();
        copies_throw = true;
        bool threw = false;
        try {
          a[x] = a[y];
        } catch (int e) {
          threw = e == 17;
        }
        copies_throw = false;
        REQ(threw, "throw", "%s: the exception of a copy is lost", w.c_str());
      } else if (op == 9) {  // taking the value out
        if (m[x].type == STRING) REQ(oh::any_cast<string>(std::move(a[x])) == text_of(m[x].v), "take", "%s: the value taken out", w.c_str());
        if (m[x].type == SMALL) REQ(oh::any_cast<Small>(std::move(a[x])).v == m[x].v, "take", "%s: the value taken out", w.c_str());
        if (m[x].type == ITEM) {
          Item it = oh::move_value<Item>(a[x]);
          Item::ok(it);
          REQ(it.v == m[x].v, "take", "%s: the value taken out", w.c_str());
        }
        if (m[x].type == STRING || m[x].type == SMALL || m[x].type == ITEM) {
          a[x].clear();
          m[x] = Val();
        }
      } else {  // from an lvalue
        Item it(i);
        string s = text_of(i);
        if (i % 2) a[x] = it;
        else a[x] = s;
        m[x].type = i % 2 ? ITEM : STRING;
        m[x].v = i;
        Item::ok(it);
        REQ(s == text_of(i), "value", "%s: the value assigned from is changed", w.c_str());
      }
      for (int k = 0; k < 2; ++k) check(a[k], m[k], w.c_str());
    }
    c.note("%s", w.c_str());
    mc::Hash h;
    for (auto& v : m) h.add(v.type).add(v.v);
    c.outcome(h.h);
  }
  no_leak(before, "any");
  c.exec();
}

int main(int argc, char** argv) {
  vector<mc::Suite> s;
  for (int n = 0; n <= 6; ++n)
    s.push_back({"orders" + std::to_string(n), [n](mc::Ctx& c) { orders(c, n, n); }, 60, n == 6, "every order of insertion of " + std::to_string(n) + " keys and every order of removal, ascending and descending"});
  s.push_back({"orders6s", [](mc::Ctx& c) { orders(c, 6, 2); }, 60, false, "every order of insertion of 6 keys, every order of 2 removals"});
  s.push_back({"orders7", [](mc::Ctx& c) { orders(c, 7, c.thorough() ? 3 : 1); }, 60, false, "every order of insertion of 7 keys, every removal (3 removals)"});
  s.push_back({"orders8", [](mc::Ctx& c) { orders(c, 8, 2); }, 60, true, "every order of insertion of 8 keys, every order of 2 removals"});
  s.push_back({"mixed2", [](mc::Ctx& c) { mixed(c, 2, 5); }, 60, false, "every sequence of 2 operations on two trees of 5 keys, from 4 starts"});
  s.push_back({"mixed3", [](mc::Ctx& c) { mixed(c, 3, c.thorough() ? 5 : 3); }, 60, false, "every sequence of 3 operations on two trees of 3 (5) keys, from 4 starts"});
  s.push_back({"runs", runs, 60, false, "1-120 (300) keys in 4 patterns, half of them removed"});
  s.push_back({"maps", [](mc::Ctx& c) { maps(c, c.thorough() ? 5 : 4); }, 60, false, "every sequence of 4 (5) operations on a map of 4 keys"});
  s.push_back({"any", [](mc::Ctx& c) { anys(c, c.thorough() ? 4 : 3); }, 60, false, "every sequence of 3 (4) operations on two objects and 5 types of values"});
  return mc::main(argc, argv, "C34", s);
}
