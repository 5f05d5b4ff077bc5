// C22: regular expressions, lexers, LALR(1) parsers and readers.  Oracles:
// set-of-positions matching on an independently parsed expression, maximal
// munch, bounded languages of grammars by fixpoint, an LALR(1) test by merging
// LR(1) closures, and Earley recognition for the built-in languages.
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <Omega_h_build_parser.hpp>
#include <Omega_h_chartab.hpp>
#include <Omega_h_language.hpp>
#include <Omega_h_math_lang.hpp>
#include <Omega_h_reader.hpp>
#include <Omega_h_regex.hpp>
#include <Omega_h_xml.hpp>
#include <Omega_h_yaml.hpp>
#include "../mc/mc.hpp"
namespace oh = Omega_h;
using std::map;
using std::set;
using std::string;
using std::vector;

// ---- refusals: the library ends the process on grammars it cannot handle.
// While armed, abort() returns to the check and memory comes from an arena
// that is dropped as a whole.
static bool armed = false;
static jmp_buf refusal;
static char* arena = nullptr;
static size_t arena_used = 0;
static const size_t ARENA = size_t(256) << 20;
#ifndef __SANITIZE_ADDRESS__
void* operator new(size_t n) {
  if (armed) {
    if (!arena) arena = static_cast<char*>(malloc(ARENA));
    n = (n + 31) & ~size_t(15);
    if (arena_used + n <= ARENA) {
      auto p = arena + arena_used;
      arena_used += n;
      return p;
    }
  }
  auto p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept {
  if (arena && p >= arena && p < arena + ARENA) return;
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
extern "C" void abort() noexcept {
  if (armed) longjmp(refusal, 1);
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _Exit(134);
}
#endif
struct Quiet : std::streambuf {
  int overflow(int c) override { return c; }
};
static Quiet quiet;
static void hush() { std::cerr.rdbuf(&quiet); }

// ---- regular expressions
struct Node {
  enum Kind { EMPTYSET, CHARS, CAT, ALT, STAR, PLUS, OPT } kind;
  set<char> chars;
  int a = -1, b = -1;
};
struct Re {
  vector<Node> n;
  int root = -1;
  int add(Node x) {
    n.push_back(x);
    return int(n.size()) - 1;
  }
};
static set<char> all_chars() {
  set<char> s;
  for (int i = 32; i < 127; ++i) s.insert(char(i));
  s.insert('\t');
  s.insert('\n');
  s.insert('\r');
  return s;
}
// recursive descent over the documented grammar; -1: not an expression,
// -2: unspecified (a lone backslash at the end)
struct ReParser {
  struct Tok {
    bool lit;
    char c;
  };
  vector<Tok> t;
  size_t p = 0;
  bool bad = false;
  Re re;
  bool meta(char c) { return p < t.size() && !t[p].lit && t[p].c == c; }
  int single() {
    if (p == t.size()) return bad = true, -1;
    if (t[p].lit) return re.add({Node::CHARS, {t[p++].c}, -1, -1});
    if (meta('.')) return ++p, re.add({Node::CHARS, all_chars(), -1, -1});
    if (meta('(')) {
      ++p;
      int u = uni();
      if (!meta(')')) bad = true;
      ++p;
      return u;
    }
    if (meta('[')) {
      ++p;
      bool neg = false;
      if (meta('^')) neg = true, ++p;
      set<char> s;
      int n = 0;
      while (p < t.size() && t[p].lit) {
        char lo = t[p++].c, hi = lo;
        if (meta('-')) {
          ++p;
          if (p == t.size() || !t[p].lit) return bad = true, -1;
          hi = t[p++].c;
        }
        for (int c = lo; c <= hi; ++c) s.insert(char(c));
        ++n;
      }
      if (!n || !meta(']')) return bad = true, -1;
      ++p;
      if (neg) {
        auto a = all_chars();
        for (auto c : s) a.erase(c);
        s = a;
      }
      return re.add({Node::CHARS, s, -1, -1});
    }
    return bad = true, -1;
  }
  int qual() {
    int x = single();
    while (!bad && (meta('*') || meta('+') || meta('?'))) {
      auto k = t[p].c == '*' ? Node::STAR : t[p].c == '+' ? Node::PLUS : Node::OPT;
      ++p;
      x = re.add({k, {}, x, -1});
    }
    return x;
  }
  int cat() {
    int x = qual();
    while (!bad && p < t.size() && !meta('|') && !meta(')')) {
      int y = qual();
      x = re.add({Node::CAT, {}, x, y});
    }
    return x;
  }
  int uni() {
    int x = cat();
    while (!bad && meta('|')) {
      ++p;
      int y = cat();
      x = re.add({Node::ALT, {}, x, y});
    }
    return x;
  }
  int parse(string const& s) {
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '\\') {
        if (i + 1 == s.size()) return -2;
        t.push_back({true, s[++i]});
      } else
        t.push_back({!strchr(".[]()|-^*+?", s[i]), s[i]});
    }
    re.root = uni();
    return bad || p != t.size() ? -1 : re.root;
  }
};
// end positions (bits) of matches of node x starting at the positions of `at`
static unsigned long ends(Re const& re, int x, string const& s, unsigned long at) {
  auto& n = re.n[size_t(x)];
  unsigned long r = 0;
  switch (n.kind) {
    case Node::CHARS:
      for (size_t i = 0; i < s.size(); ++i)
        if (((at >> i) & 1) && n.chars.count(s[i])) r |= 1ul << (i + 1);
      return r;
    case Node::CAT: return ends(re, n.b, s, ends(re, n.a, s, at));
    case Node::ALT: return ends(re, n.a, s, at) | ends(re, n.b, s, at);
    case Node::OPT: return at | ends(re, n.a, s, at);
    case Node::PLUS:
      at = ends(re, n.a, s, at);  // fall through
    case Node::STAR:
      while ((r = at | ends(re, n.a, s, at)) != at) at = r;
      return at;
    default: return 0;
  }
}
static bool matches(Re const& re, string const& s) { return (ends(re, re.root, s, 1) >> s.size()) & 1; }
static string show(string const& s) {
  string o;
  for (char c : s) o += c == '\n' ? string("\\n") : c == '\t' ? string("\\t") : string(1, c);
  return o;
}
static vector<string> words(string const& alpha, size_t max) {
  vector<string> w{""};
  for (size_t i = 0, e; (e = w.size()) && w[i].size() < max; ++i)
    for (char c : alpha) w.push_back(w[i] + c);
  return w;
}

static int accepted(oh::FiniteAutomaton const& fa, string const& s) {
  int st = 0;
  for (char c : s) {
    st = oh::step(fa, st, oh::get_symbol(c));
    if (st < 0) return -1;
  }
  return oh::accepts(fa, st);
}

static void regexes(mc::Ctx& c, string alpha, int maxlen, int splitlen) {
  static auto const in = words("abc", 4);
  static auto const in2 = words("ab", 6);
  string s;
  for (int i = 0; i < maxlen; ++i) {
    int k = c.choose(int(alpha.size()) + (i ? 1 : 0));
    if (k == int(alpha.size())) break;
    s += alpha[size_t(k)];
    if (i + 1 == splitlen) c.split();
  }
  c.note("regex %s", show(s).c_str());
  mc::Hash h;
  h.add(s);
  c.state(h.h);
  hush();
  ReParser p;
  int root = p.parse(s);
  if (root == -2) return;
  c.exec(0);
  bool threw = false;
  oh::FiniteAutomaton fa;
  try {
    fa = oh::regex::build_dfa("tok", s, 3);
  } catch (oh::ParserFail const&) {
    threw = true;
  }
  c.require(threw == (root < 0), "syntax", "\"%s\" is %s expression but was %s", show(s).c_str(), root < 0 ? "no" : "an", threw ? "refused" : "accepted");
  if (threw) return;
  c.require(oh::get_determinism(fa), "deterministic", "\"%s\"", s.c_str());
  auto check = [&](string const& w) {
    int t = accepted(fa, w);
    bool m = matches(p.re, w);
    c.require(t == (m ? 3 : -1), "match", "\"%s\" %s \"%s\" but the automaton %s it", show(s).c_str(), m ? "matches" : "does not match", show(w).c_str(),
        t < 0 ? "rejects" : t == 3 ? "accepts" : "misnames");
  };
  for (auto& w : in) check(w);
  for (auto& w : in2) check(w);
  for (char ch : all_chars()) check(string(1, ch)), check(string("a") + ch);
  c.step(in.size() + in2.size());
}

// ---- lexers: every token list against maximal munch
class Recorder : public oh::Reader {
 public:
  Recorder(oh::ReaderTablesPtr t) : oh::Reader(t) {}
  vector<std::pair<int, string>> shifts;
  vector<int> reds;
  vector<vector<int>> steps;  // tree check: -1-t shift of t, else production
  oh::any at_shift(int token, string& text) override {
    shifts.push_back({token, text});
    log.push_back(-1 - token);
    return oh::any(int(shifts.size()));
  }
  oh::any at_reduce(int prod, vector<oh::any>& rhs) override {
    log.push_back(prod);
    nrhs.push_back(int(rhs.size()));
    return oh::any(0);
  }
  vector<int> log, nrhs;
};
static void lexers(mc::Ctx& c, int ntok, size_t maxin) {
  static vector<string> pool{"a", "b", "ab", "abc", "a+", "[ab]", "aab", "(ab)+", "b+c", "c?a", "a.", "[^a]b", "ab*c"};
  vector<int> pick;
  for (int i = 0; i < ntok; ++i) {
    int k = c.choose(int(pool.size()));
    for (int o : pick)
      if (o == k) c.prune();
    pick.push_back(k);
    if (i == 1) c.split();
  }
  hush();
  oh::Language lang;
  vector<Re> res;
  string what;
  for (int k : pick) {
    auto name = "T" + std::to_string(lang.tokens.size());
    lang.tokens.push_back({name, pool[size_t(k)]});
    lang.productions.push_back({"item", {name}});
    ReParser p;
    p.parse(pool[size_t(k)]);
    res.push_back(p.re);
    what += " " + pool[size_t(k)];
  }
  lang.productions.push_back({"items", {}});
  lang.productions.push_back({"items", {"items", "item"}});
  lang.productions.push_back({"doc", {"items"}});
  c.note("tokens%s", what.c_str());
  mc::Hash h;
  h.add(what);
  c.state(h.h);
  auto tables = oh::build_reader_tables(lang);
  Recorder r(tables);
  auto in = words("abc", maxin);
  auto tall = words("ab\n", 4);
  in.insert(in.end(), tall.begin(), tall.end());
  for (auto& s : in) {
    // maximal munch, first token wins
    vector<std::pair<int, string>> want;
    size_t at = 0;
    bool ok = true;
    while (at < s.size() && ok) {
      size_t best = 0;
      int tok = -1;
      for (size_t n = 1; at + n <= s.size(); ++n)
        for (size_t t = 0; t < res.size(); ++t)
          if (matches(res[t], s.substr(at, n)) && n > best) best = n, tok = int(t);
      if (tok < 0) ok = false;
      else want.push_back({tok, s.substr(at, best)}), at += best;
    }
    bool threw = false;
    r.shifts.clear();
    try {
      r.read_string(s, "in");
    } catch (oh::ParserFail const&) {
      threw = true;
    }
    c.require(threw == !ok, "tokenize", "tokens%s: \"%s\" %s be split into tokens but was %s", what.c_str(), show(s).c_str(), ok ? "can" : "cannot", threw ? "refused" : "read");
    if (ok) {
      string got;
      for (auto& x : r.shifts) got += " T" + std::to_string(x.first) + ":" + show(x.second);
      c.require(r.shifts == want, "munch", "tokens%s: \"%s\" was split as%s", what.c_str(), show(s).c_str(), got.c_str());
    }
  }
  c.exec(in.size() - 1);
  c.step(in.size());
}

// a file is read like a string, wherever its tokens meet the stream's buffer
static void files(mc::Ctx& c) {
  oh::Language lang;
  for (auto r : {"a", "b", "ab+c", "\n"}) lang.tokens.push_back({"T" + std::to_string(lang.tokens.size()), r});
  for (auto& t : lang.tokens) lang.productions.push_back({"item", {t.name}});
  lang.productions.push_back({"items", {}});
  lang.productions.push_back({"items", {"items", "item"}});
  lang.productions.push_back({"doc", {"items"}});
  static vector<string> tails{"abbbbbb", "abbbbbbc", "aab", "abbbbabbbb\n\na", "d", "abbd"};
  int buf = c.flip() ? 8191 : 16382;
  int at = buf - 9 + c.choose(14);
  auto tail = tails[size_t(c.choose(int(tails.size())))];
  c.split();
  string s(size_t(at), 'b');
  s += tail;
  c.note("%d letters and %s", at, show(tail).c_str());
  hush();
  Recorder r1(oh::build_reader_tables(lang)), r2(oh::build_reader_tables(lang));
  auto f = c.scratch() + "/in.txt";
  if (auto* o = fopen(f.c_str(), "w")) {
    fwrite(s.data(), 1, s.size(), o);
    fclose(o);
  }
  bool t1 = false, t2 = false;
  try {
    r1.read_string(s, "s");
  } catch (oh::ParserFail const&) {
    t1 = true;
  }
  try {
    r2.read_file(f);
  } catch (oh::ParserFail const&) {
    t2 = true;
  }
  bool bad = tail.find('d') != string::npos;
  c.require(t1 == bad && t2 == bad, "file", "read: %d %d", t1, t2);
  c.require(r1.shifts == r2.shifts, "file", "a file is split into other tokens than a string");
}

// ---- grammars.  Terminals 0..nt-1, end = nt, nonterminals after it.
struct Gram {
  int nt, nn;
  vector<std::pair<int, vector<int>>> prods;  // nonterminal index, rhs: t or nt+n
};
static string text(Gram const& g) {
  string o;
  for (auto& p : g.prods) {
    o += string(1, "SABC"[p.first]) + ">";
    for (int x : p.second) o += x < g.nt ? char('a' + x) : "SABC"[x - g.nt];
    o += " ";
  }
  return o;
}
static bool reduced(Gram const& g) {
  vector<char> prod(size_t(g.nn), 0), reach(size_t(g.nn), 0);
  reach[0] = 1;
  for (bool grew = true; grew;) {
    grew = false;
    for (auto& p : g.prods) {
      bool ok = true;
      for (int x : p.second)
        if (x >= g.nt && !prod[size_t(x - g.nt)]) ok = false;
      if (ok && !prod[size_t(p.first)]) prod[size_t(p.first)] = 1, grew = true;
      if (reach[size_t(p.first)])
        for (int x : p.second)
          if (x >= g.nt && !reach[size_t(x - g.nt)]) reach[size_t(x - g.nt)] = 1, grew = true;
    }
  }
  for (int i = 0; i < g.nn; ++i)
    if (!prod[size_t(i)] || !reach[size_t(i)]) return false;
  return true;
}
// is it LALR(1)?  LR(1) closures, states merged by their LR(0) kernels
static bool is_lalr(Gram const& g) {
  auto prods = g.prods;
  prods.push_back({g.nn, {g.nt}});  // accept -> S
  unsigned const END = 1u << g.nt;
  vector<unsigned> first(size_t(g.nn) + 1, 0);
  vector<char> null(size_t(g.nn) + 1, 0);
  for (bool grew = true; grew;) {
    grew = false;
    for (auto& p : prods) {
      unsigned f = 0;
      bool n = true;
      for (int x : p.second) {
        if (x < g.nt) f |= 1u << x, n = false;
        else f |= first[size_t(x - g.nt)], n = null[size_t(x - g.nt)];
        if (!n) break;
      }
      auto P = size_t(p.first);
      if ((first[P] | f) != first[P] || (n && !null[P])) grew = true, first[P] |= f, null[P] = null[P] || n;
    }
  }
  using Item = std::pair<int, int>;
  using Kernel = map<Item, unsigned>;
  auto closure = [&](Kernel k) {
    vector<Item> q;
    for (auto& i : k) q.push_back(i.first);
    while (!q.empty()) {
      auto it = q.back();
      q.pop_back();
      auto la = k[it];
      auto& rhs = prods[size_t(it.first)].second;
      if (it.second == int(rhs.size()) || rhs[size_t(it.second)] < g.nt) continue;
      unsigned f = 0;
      bool n = true;
      for (size_t j = size_t(it.second) + 1; j < rhs.size() && n; ++j) {
        if (rhs[j] < g.nt) f |= 1u << rhs[j], n = false;
        else f |= first[size_t(rhs[j] - g.nt)], n = null[size_t(rhs[j] - g.nt)];
      }
      if (n) f |= la;
      for (size_t p = 0; p < prods.size(); ++p)
        if (prods[p].first == rhs[size_t(it.second)] - g.nt) {
          Item x{int(p), 0};
          bool isnew = !k.count(x);
          auto& l = k[x];
          if (isnew || (l | f) != l) l |= f, q.push_back(x);
        }
    }
    return k;
  };
  map<set<Item>, Kernel> states;
  vector<set<Item>> work;
  Item start{int(prods.size()) - 1, 0};
  states[{start}] = {{start, END}};
  work.push_back({start});
  while (!work.empty()) {
    auto key = work.back();
    work.pop_back();
    auto full = closure(states[key]);
    map<int, Kernel> next;
    for (auto& i : full) {
      auto& rhs = prods[size_t(i.first.first)].second;
      if (i.first.second < int(rhs.size())) next[rhs[size_t(i.first.second)]][{i.first.first, i.first.second + 1}] |= i.second;
    }
    for (auto& n : next) {
      set<Item> nk;
      for (auto& i : n.second) nk.insert(i.first);
      bool isnew = !states.count(nk);
      auto& st = states[nk];
      bool grew = isnew;
      for (auto& i : n.second) {
        auto& l = st[i.first];
        if ((l | i.second) != l) l |= i.second, grew = true;
      }
      if (grew) work.push_back(nk);
    }
  }
  for (auto& s : states) {
    auto full = closure(s.second);
    unsigned used = 0;
    for (auto& i : full) {
      auto& rhs = prods[size_t(i.first.first)].second;
      if (i.first.second < int(rhs.size()) && rhs[size_t(i.first.second)] < g.nt) used |= 1u << rhs[size_t(i.first.second)];
    }
    for (auto& i : full) {
      auto& rhs = prods[size_t(i.first.first)].second;
      if (i.first.second == int(rhs.size())) {
        if (used & i.second) return false;
        used |= i.second;
      }
    }
  }
  return true;
}
static vector<set<string>> language(Gram const& g, size_t max) {
  vector<set<string>> l(size_t(g.nn));
  for (bool grew = true; grew;) {
    grew = false;
    for (auto& p : g.prods) {
      set<string> cur{""};
      for (int x : p.second) {
        set<string> nx;
        for (auto& a : cur) {
          if (x < g.nt) {
            if (a.size() < max) nx.insert(a + char('a' + x));
          } else
            for (auto& b : l[size_t(x - g.nt)])
              if (a.size() + b.size() <= max) nx.insert(a + b);
        }
        cur = nx;
      }
      for (auto& s : cur) grew |= l[size_t(p.first)].insert(s).second;
    }
  }
  return l;
}

static oh::FiniteAutomaton const& letters(int nt) {
  static map<int, oh::FiniteAutomaton> m;
  auto it = m.find(nt);
  if (it == m.end()) {
    oh::Language l;
    for (int i = 0; i < nt; ++i) l.tokens.push_back({string(1, char('a' + i)), string(1, char('a' + i))});
    it = m.insert({nt, oh::build_lexer(l)}).first;
  }
  return it->second;
}

static void try_grammar(mc::Ctx& c, Gram const& g, size_t maxin) {
  auto what = text(g);
  c.note("grammar %s", what.c_str());
  mc::Hash h;
  h.add(what).add(g.nt);
  c.state(h.h);
  hush();
  auto& lexer = letters(g.nt);
  bool lalr = is_lalr(g);
  auto lang = language(g, maxin)[0];
  auto in = words(string("abc").substr(0, size_t(g.nt)), maxin);
  static bool warm = false;
  string dir = c.scratch();
  if (chdir(dir.c_str())) {}
  oh::Language l;
  for (int i = 0; i < g.nt; ++i) l.tokens.push_back({string(1, char('a' + i)), string(1, char('a' + i))});
  for (auto& p : g.prods) {
    vector<string> rhs;
    for (int x : p.second) rhs.push_back(x < g.nt ? string(1, char('a' + x)) : string(1, "SABC"[x - g.nt]));
    l.productions.push_back({string(1, "SABC"[p.first]), rhs});
  }
  struct Result {
    bool built = false;
    bool accepted[400];
    int why[400];
    char err[200];
  };
  static Result r;
  r.built = false;
  r.err[0] = 0;
  auto attempt = [&] {
    auto parser = oh::accept_parser(oh::build_lalr1_parser(oh::build_grammar(l)));
    oh::IndentInfo ii;
    ii.is_sensitive = false;
    ii.indent_token = ii.dedent_token = ii.newline_token = -1;
    oh::ReaderTablesPtr tables(new oh::ReaderTables{parser, lexer, ii});
    r.built = true;
    for (size_t i = 0; i < in.size(); ++i) {
      Recorder rd(tables);
      r.why[i] = 0;
      try {
        rd.read_string(in[i], "in");
        r.accepted[i] = true;
      } catch (oh::ParserFail const&) {
        r.accepted[i] = false;
      }
      if (!r.accepted[i]) continue;
      // the steps are a rightmost derivation backwards
      vector<int> st;
      size_t sh = 0, nr = 0;
      for (int e : rd.log) {
        if (e < 0) {
          if (sh >= in[i].size() || in[i][sh] != 'a' + (-1 - e)) r.why[i] = 1;
          ++sh;
          st.push_back(-1 - e);
        } else {
          if (e >= int(g.prods.size())) {
            r.why[i] = 2;
            break;
          }
          auto& p = g.prods[size_t(e)];
          if (rd.nrhs[nr++] != int(p.second.size()) || st.size() < p.second.size() || !std::equal(p.second.begin(), p.second.end(), st.end() - long(p.second.size()))) {
            r.why[i] = 3;
            break;
          }
          st.resize(st.size() - p.second.size());
          st.push_back(g.nt + p.first);
        }
      }
      if (!r.why[i] && (sh != in[i].size() || st.size() != 1 || st[0] != g.nt)) r.why[i] = 4;
    }
  };
  if (!warm) {
    // let lazily made statics live outside the arena
    warm = true;
    Gram t{1, 1, {{0, {0}}}};
    oh::Language tl;
    tl.tokens.push_back({"a", "a"});
    tl.productions.push_back({"S", {"a"}});
    oh::ReaderTablesPtr tb = oh::build_reader_tables(tl);
    Recorder rd(tb);
    try {
      rd.read_string("aa", "x");
    } catch (oh::ParserFail const&) {
    }
    letters(2), letters(3);
  }
  volatile bool other = false;
  arena_used = 0;
  if (setjmp(refusal) == 0) {
    armed = true;
    try {
      attempt();
    } catch (oh::ParserFail const& e) {
      snprintf(r.err, sizeof(r.err), "%s", e.what());
    } catch (std::exception const& e) {
      other = r.built;
      snprintf(r.err, sizeof(r.err), "%s", e.what());
    }
    armed = false;
  } else
    armed = false;
  c.require(!other, "exception", "%s: %s", what.c_str(), r.err);
  c.require(r.built == lalr, "lalr", "grammar %sis %sLALR(1) but was %s %s", what.c_str(), lalr ? "" : "not ", r.built ? "accepted" : "refused", r.err);
  if (!lalr) return;
  for (size_t i = 0; i < in.size(); ++i) {
    bool m = lang.count(in[i]) != 0;
    c.require(r.accepted[i] == m, "language", "grammar %s: \"%s\" is %sin the language but was %s", what.c_str(), in[i].c_str(), m ? "" : "not ", r.accepted[i] ? "read" : "refused");
    c.require(r.why[i] == 0, "derivation", "grammar %s: the steps for \"%s\" are no derivation of it (%d)", what.c_str(), in[i].c_str(), r.why[i]);
  }
  c.exec(in.size());
  c.step(in.size());
}
static vector<vector<int>> rhss(vector<int> syms, size_t max) {
  vector<vector<int>> w{{}};
  for (size_t i = 0; w[i].size() < max; ++i)
    for (int x : syms) {
      auto v = w[i];
      v.push_back(x);
      w.push_back(v);
    }
  return w;
}
// subsets of size 1..max of {0..n-1}, chosen in increasing order
static vector<int> subset(mc::Ctx& c, int n, int max) {
  vector<int> s{c.choose(n)};
  while (int(s.size()) < max && s.back() + 1 < n) {
    int k = c.choose(n - s.back());
    if (!k) break;
    s.push_back(s.back() + k);
  }
  return s;
}
// S -> rhs (ns alternatives), A -> up to na alternatives
static void grammars1(mc::Ctx& c, int nt, size_t slen, int ns, size_t alen, int na, size_t maxin) {
  Gram g{nt, 2, {}};
  vector<int> syms;
  for (int i = 0; i < nt; ++i) syms.push_back(i);
  syms.push_back(nt + 1);
  auto sr = rhss(syms, slen), ar = rhss(syms, alen);
  for (int k : subset(c, int(sr.size()), ns)) g.prods.push_back({0, sr[size_t(k)]});
  c.split();
  for (int k : subset(c, int(ar.size()), na)) g.prods.push_back({1, ar[size_t(k)]});
  if (!reduced(g)) c.prune();
  try_grammar(c, g, maxin);
}
static void grammars2(mc::Ctx& c, int nt, size_t slen, size_t len, int na, int nb, size_t maxin) {
  Gram g{nt, 3, {}};
  vector<int> syms;
  for (int i = 0; i < nt; ++i) syms.push_back(i);
  syms.push_back(nt + 1);
  syms.push_back(nt + 2);
  auto sr = rhss(syms, slen), r = rhss(syms, len);
  g.prods.push_back({0, sr[size_t(c.choose(int(sr.size())))]});
  for (int k : subset(c, int(r.size()), na)) g.prods.push_back({1, r[size_t(k)]});
  c.split();
  for (int k : subset(c, int(r.size()), nb)) g.prods.push_back({2, r[size_t(k)]});
  if (!reduced(g)) c.prune();
  try_grammar(c, g, maxin);
}

// ---- built-in languages: recognized exactly as their grammars say.
// Earley recognition on token strings.
struct Earley {
  struct P {
    string lhs;
    vector<string> rhs;
  };
  vector<P> prods;
  set<string> terms;
  map<string, vector<int>> by;
  string goal;
  explicit Earley(oh::Language const& l) {
    for (auto& t : l.tokens) terms.insert(t.name);
    set<string> used;
    for (auto& p : l.productions) {
      by[p.lhs].push_back(int(prods.size()));
      prods.push_back({p.lhs, p.rhs});
      for (auto& x : p.rhs) used.insert(x);
    }
    for (auto& p : prods)
      if (!used.count(p.lhs)) goal = p.lhs;
  }
  bool accepts(vector<string> const& in) const {
    struct It {
      int p, dot, from;
      bool operator<(It const& o) const { return std::tie(p, dot, from) < std::tie(o.p, o.dot, o.from); }
    };
    vector<set<It>> chart(in.size() + 1);
    for (int p : by.at(goal)) chart[0].insert({p, 0, 0});
    for (size_t i = 0; i <= in.size(); ++i) {
      for (bool grew = true; grew;) {
        grew = false;
        auto items = chart[i];
        for (auto& it : items) {
          auto& pr = prods[size_t(it.p)];
          if (it.dot < int(pr.rhs.size())) {
            auto& x = pr.rhs[size_t(it.dot)];
            if (!terms.count(x))
              for (int p : by.at(x)) grew |= chart[i].insert({p, 0, int(i)}).second;
          } else
            for (auto& up : set<It>(chart[size_t(it.from)])) {
              auto& q = prods[size_t(up.p)];
              if (up.dot < int(q.rhs.size()) && q.rhs[size_t(up.dot)] == pr.lhs) grew |= chart[i].insert({up.p, up.dot + 1, up.from}).second;
            }
        }
      }
      if (i < in.size())
        for (auto& it : chart[i]) {
          auto& pr = prods[size_t(it.p)];
          if (it.dot < int(pr.rhs.size()) && pr.rhs[size_t(it.dot)] == in[i]) chart[i + 1].insert({it.p, it.dot + 1, it.from});
        }
    }
    for (auto& it : chart[in.size()])
      if (it.from == 0 && prods[size_t(it.p)].lhs == goal && it.dot == int(prods[size_t(it.p)].rhs.size())) return true;
    return false;
  }
};
struct Builtin {
  oh::Language lang;
  oh::ReaderTablesPtr tables;
  vector<Re> res;
  Earley ear;
  bool indent;
  Builtin(oh::Language const& l, oh::ReaderTablesPtr t) : lang(l), tables(t), ear(l) {
    for (auto& k : l.tokens) {
      ReParser p;
      p.parse(k.regex);
      res.push_back(p.re);
    }
    indent = false;
    for (auto& k : l.tokens) indent = indent || k.name == "INDENT";
  }
  // 1 in the language, 0 not, -1 unspecified
  int in(string const& s) const {
    vector<string> toks;
    vector<size_t> open;  // widths of the enclosing indentations
    string cur;
    for (size_t at = 0; at < s.size();) {
      size_t best = 0;
      int tok = -1;
      for (size_t t = 0; t < res.size(); ++t) {
        auto rest = s.substr(at, 60);
        unsigned long e = ends(res[t], res[t].root, rest, 1);
        for (size_t n = rest.size(); n > best; --n)
          if ((e >> n) & 1) best = n, tok = int(t);
      }
      if (tok < 0) return 0;
      auto& name = lang.tokens[size_t(tok)].name;
      toks.push_back(name);
      if (indent && name == "NEWLINE") {
        auto t = s.substr(at, best);
        auto ind = t.substr(t.rfind('\n') + 1);
        size_t m = std::min(ind.size(), cur.size());
        if (ind.compare(0, m, cur, 0, m)) return 0;
        if (ind.size() > cur.size()) {
          toks.push_back("INDENT");
          open.push_back(cur.size());
        } else if (ind.size() < cur.size()) {
          while (!open.empty() && open.back() >= ind.size()) {
            if (open.back() == ind.size()) {
              toks.push_back("DEDENT");
              open.pop_back();
              break;
            }
            toks.push_back("DEDENT");
            open.pop_back();
          }
          size_t level = ind.size();
          (void)level;
          if (cur.size() > ind.size() && !(at_level(open, ind.size(), levels))) return -1;
        }
        cur = ind;
        levels.resize(open.size());
        if (!open.empty()) levels.back() = cur.size();
      }
      at += best;
    }
    return ear.accepts(toks) ? 1 : 0;
  }
  mutable vector<size_t> levels;  // width inside each open indentation
  static bool at_level(vector<size_t> const& open, size_t w, vector<size_t> const& lv) {
    return open.empty() ? w == 0 : lv[open.size() - 1] == w;
  }
};
static void member(mc::Ctx& c, Builtin const& b, string const& s) {
  c.note("%s", show(s).c_str());
  mc::Hash h;
  h.add(s);
  c.state(h.h);
  hush();
  b.levels.clear();
  int in = b.in(s);
  bool threw = false;
  Recorder r(b.tables);
  try {
    r.read_string(s, "in");
  } catch (oh::ParserFail const&) {
    threw = true;
  }
  if (in >= 0) c.require(threw == !in, "language", "\"%s\" is %sin the language but was %s", show(s).c_str(), in ? "" : "not ", threw ? "refused" : "read");
  c.step(s.size());
}
static Builtin const& builtin(int k) {
  static std::unique_ptr<Builtin> b[3];
  if (!b[k]) {
    if (k == 0) b[k].reset(new Builtin(*oh::xml::ask_language(), oh::xml::ask_reader_tables()));
    if (k == 1) b[k].reset(new Builtin(*oh::math_lang::ask_language(), oh::math_lang::ask_reader_tables()));
    if (k == 2) b[k].reset(new Builtin(*oh::yaml::ask_language(), oh::yaml::ask_reader_tables()));
  }
  return *b[k];
}
// all sequences of fragments
static void fragments(mc::Ctx& c, int k, vector<string> frags, int max, int sp) {
  string s;
  for (int i = 0; i < max; ++i) {
    int f = c.choose(int(frags.size()) + 1);
    if (!f) break;
    s += frags[size_t(f - 1)];
    if (i + 1 == sp) c.split();
  }
  member(c, builtin(k), s);
}
// all single-character edits of good documents
static void edits(mc::Ctx& c, int k, vector<string> docs) {
  auto s = docs[size_t(c.choose(int(docs.size())))];
  int kind = c.choose(4);
  int at = c.choose(int(s.size()) + 1);
  c.split();
  string repl = "a0 <>/=\"'-?!&#;:._[]{}|,%\\\n\t(*^";
  if (kind && at == int(s.size()) && kind != 2) c.prune();
  if (kind == 1) s.erase(size_t(at), 1);
  if (kind == 2) s.insert(size_t(at), 1, repl[size_t(c.choose(int(repl.size())))]);
  if (kind == 3) s[size_t(at)] = repl[size_t(c.choose(int(repl.size())))];
  if (kind == 0) s = s.substr(0, size_t(at));
  member(c, builtin(k), s);
}

int main(int argc, char** argv) {
  return mc::main(argc, argv, "C22",
      {
          {"regex", [](mc::Ctx& c) { regexes(c, "ab()|*+?.[]^-\\", c.thorough() ? 6 : 5, 3); }, 60, false, "every string of up to 5 (thorough 6) of 14 characters as an expression"},
          {"regexlong", [](mc::Ctx& c) { regexes(c, "ab()|*", c.thorough() ? 9 : 7, 3); }, 60, false, "every string of up to 7 (thorough 9) over a b ( ) | *"},
          {"sets", [](mc::Ctx& c) { regexes(c, c.thorough() ? "ac[]^-" : "a[]^-", 6, 3); }, 60, false, "every string of up to 6 over the set characters"},
          {"lexers", [](mc::Ctx& c) { lexers(c, c.thorough() ? 3 : 2, 5); }, 60, false, "lists of 2 (thorough 3) of 13 tokens x all inputs up to 5 letters"},
          {"files", files, 60, false, "files whose tokens straddle the stream's buffer"},
          {"lalr1", [](mc::Ctx& c) { c.thorough() ? grammars1(c, 2, 3, 2, 3, 2, 5) : grammars1(c, 2, 3, 1, 2, 3, 5); }, 60, false,
              "grammars with one nonterminal below the goal, right sides up to 2-3 symbols, x all inputs up to 5"},
          {"lalr1s", [](mc::Ctx& c) { grammars1(c, 2, 2, 2, 2, c.thorough() ? 3 : 2, 5); }, 60, false, "the same with two alternatives of the goal"},
          {"lalr2", [](mc::Ctx& c) { c.thorough() ? grammars2(c, 2, 2, 2, 2, 2, 5) : grammars2(c, 2, 1, 2, 2, 2, 4); }, 60, false, "grammars with two nonterminals below the goal"},
          {"lalr2w", [](mc::Ctx& c) { grammars2(c, 2, 1, 2, 3, 2, 4); }, 60, true, "with three alternatives"},
          {"lalr2d", [](mc::Ctx& c) { grammars2(c, 1, 1, 3, 2, 2, 5); }, 60, true, "right sides up to 3 symbols, one terminal"},
          {"lalr3t", [](mc::Ctx& c) { grammars1(c, 3, 3, 1, 2, 3, 4); }, 60, true, "three terminals"},
          {"xml", [](mc::Ctx& c) { fragments(c, 0, {"<", ">", "/", "a", " ", "=", "\"", "?", "&", ";", "!--", "--"}, c.thorough() ? 6 : 5, 2); }, 60, false, "every sequence of up to 5 (6) of 12 pieces of XML"},
          {"xmledit", [](mc::Ctx& c) {
             edits(c, 0, {"<?xml version=\"1.0\"?>\n<a b='c' d=\"e\">text &amp; <f/><!-- c -d --> t</a>\n", "<a x=\"&#12;\" ><b></b>-<c /></a>", "<_a.b-c:d/>"});
           }, 60, false, "every edit of one character, and every prefix, of XML documents"},
          {"math", [](mc::Ctx& c) { fragments(c, 1, {"x", "1", "+", "-", "*", "^", "(", ")", ",", "<", "?", ":", " ", "&&", "=="}, c.thorough() ? 6 : 5, 2); }, 60, false, "every sequence of up to 5 (6) of 15 pieces of expressions"},
          {"yaml", [](mc::Ctx& c) { fragments(c, 2, {"a", ": ", "\n", "  ", "- ", "[", "]", "{", "}", ", ", "\"", "|"}, c.thorough() ? 6 : 5, 2); }, 60, false, "every sequence of up to 5 (6) of 12 pieces of YAML"},
          {"yamlindent", [](mc::Ctx& c) { fragments(c, 2, {"a:\n", "b: c\n", "- d\n", "-\n", "  ", "    ", "\t"}, c.thorough() ? 8 : 6, 3); }, 60, false, "every sequence of up to 6 (8) of 7 pieces of indented YAML"},
          {"yamledit", [](mc::Ctx& c) {
             edits(c, 2, {"a: b\nc:\n  d: 1\n  e:\n    f: [1, {x: 2}]\n", "s:\n  - a\n  - 'b''c'\n  -\n    k: \"q\\\"r\" \n", "# c\n%Y\n---\nt: |\n   line\n     more\n   end\n...\n", "k: !!str v\nm: {a: 1, b: [c]}\n"});
           }, 60, false, "every edit of one character, and every prefix, of YAML documents"},
      });
}
