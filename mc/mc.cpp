#include "mc.hpp"
#include <csetjmp>
#include <exception>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

void Hash::bytes(void const* p, size_t n) {
  auto c = static_cast<unsigned char const*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 0x100000001b3ull;
  }
  h ^= h >> 29;
}

static constexpr int MAXPATH = 1 << 14;
static constexpr int MAXSUITES = 128;
struct Slot {  // one worker's shared state
  volatile int suite;
  volatile int npath;
  volatile int running;
  volatile double started;
  int path[MAXPATH];
  volatile uint64_t evals, steps, execs, states, outcomes, known;
  volatile uint64_t suite_evals[MAXSUITES];
  volatile uint64_t suite_states[MAXSUITES];
  volatile int suite_done[MAXSUITES];
  volatile int suite_failed[MAXSUITES];
  volatile double suite_wall[MAXSUITES];
  volatile int failed;  // failure recorded in text
  char fail_key[256];
  char fail_msg[8192];
};
struct Shared {
  volatile int stop;
  Slot slots[64];
};

struct Impl {
  int worker = 0, nworkers = 1;
  uint64_t split_counter = 0;
  std::vector<int> split_prefix;
  bool split_mine = false;
  std::unordered_set<uint64_t> states, outcomes;
  bool thorough = false;
  std::string scratch;
  Slot* slot = nullptr;
};

static std::string vfmt(char const* fmt, va_list ap) {
  char buf[8192];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}

int Ctx::choose(int n, char const*) {
  if (n <= 0) throw Prune();
  if (n == 1) return 0;
  auto im = static_cast<Impl*>(impl_);
  if (pos_ == path_.size()) {
    if (replaying_) throw Failure{"replay-divergence", "choice sequence too short"};
    path_.push_back({0, n, false});
  } else if (replaying_) {
    path_[pos_].n = n;
    if (path_[pos_].chosen >= n)
      throw Failure{"replay-divergence", "choice out of range while replaying"};
  } else if (path_[pos_].n != n) {
    throw Failure{"nondeterministic-harness",
        "the same choice prefix offered a different number of options"};
  }
  int c = path_[pos_].chosen;
  if (im && im->slot && pos_ < size_t(MAXPATH)) {
    im->slot->path[pos_] = c;
    im->slot->npath = int(pos_ + 1);
  }
  ++pos_;
  return c;
}

int Ctx::deviate(int n, char const* label) {
  if (n <= 1 || devs_ >= deviation_bound) return 0;
  if (devs_ == 0 && nstripes_ > 1 && dev_points_++ % nstripes_ != stripe_) return 0;
  int c = choose(n, label);
  if (c) ++devs_;
  return c;
}

void Ctx::stripes(int n) {
  stripe_ = choose(n);
  nstripes_ = n;
  split();
}

void Ctx::split() {
  if (did_split_) return;
  did_split_ = true;
  if (replaying_) return;
  auto im = static_cast<Impl*>(impl_);
  if (!im) return;
  // executions below the same prefix belong to the same worker
  bool same = im->split_prefix.size() == pos_ && im->split_counter > 0;
  for (size_t i = 0; same && i < pos_; ++i)
    same = im->split_prefix[i] == path_[i].chosen;
  if (!same) {
    im->split_prefix.clear();
    for (size_t i = 0; i < pos_; ++i) im->split_prefix.push_back(path_[i].chosen);
    im->split_mine = int(im->split_counter++ % uint64_t(im->nworkers)) == im->worker;
  }
  if (!im->split_mine) throw Prune();
}

void Ctx::state(uint64_t h) {
  auto im = static_cast<Impl*>(impl_);
  if (im && im->states.size() < 30000000) im->states.insert(h);
}
void Ctx::outcome(uint64_t h) {
  auto im = static_cast<Impl*>(impl_);
  if (im && im->outcomes.size() < 30000000) im->outcomes.insert(h);
}
bool Ctx::thorough() const { return static_cast<Impl*>(impl_)->thorough; }
std::string Ctx::scratch() const { return static_cast<Impl*>(impl_)->scratch; }

void Ctx::note(char const* fmt, ...) {
  if (!describing_) return;
  va_list ap;
  va_start(ap, fmt);
  notes_ += vfmt(fmt, ap);
  va_end(ap);
  notes_ += ' ';
}
void Ctx::fail(std::string const& key, char const* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  auto m = vfmt(fmt, ap);
  va_end(ap);
  throw Failure{key, m};
}
void Ctx::require(bool ok, std::string const& key, char const* fmt, ...) {
  if (ok) return;
  va_list ap;
  va_start(ap, fmt);
  auto m = vfmt(fmt, ap);
  va_end(ap);
  throw Failure{key, m};
}

static bool next_path(std::vector<Ctx::Point>& p, size_t used) {
  p.resize(used);
  while (!p.empty()) {
    if (p.back().chosen + 1 < p.back().n) {
      ++p.back().chosen;
      return true;
    }
    p.pop_back();
  }
  return false;
}

void (*before)(Ctx&) = nullptr;
static jmp_buf abandon_to;
static Failure abandoned_with;
static std::exception_ptr abandoned_by;
void abandon(Failure const* f, std::exception_ptr by) {
  if (f) abandoned_with = *f;
  abandoned_by = by;
  longjmp(abandon_to, 1);
}

enum Result { OK, PRUNED, FAILED };

static Result run_one(Suite const& s, Ctx& c, Failure* out) {
  c.pos_ = 0;
  c.devs_ = c.stripe_ = c.dev_points_ = 0;
  c.nstripes_ = 1;
  c.did_split_ = false;
  c.notes_.clear();
  c.deviation_bound = 0;
  c.steps_ = c.execs_ = 0;
  try {
    if (setjmp(abandon_to) == 0) {
      if (before) before(c);
      s.body(c);
    } else if (abandoned_by) {
      std::rethrow_exception(abandoned_by);
    } else {
      throw abandoned_with;
    }
  } catch (Prune const&) {
    return PRUNED;
  } catch (Failure const& f) {
    *out = f;
    return FAILED;
  } catch (std::exception const& e) {
    *out = Failure{"exception", std::string("uncaught exception: ") + e.what()};
    return FAILED;
  }
  return OK;
}

static std::string json_escape(std::string const& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += char(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += char(ch);
  }
  return o;
}

struct Options {
  std::string property, part = "main", out, replay_dir, replay_file, known_file, scratch;
  std::vector<std::string> only;
  bool thorough = false;
  int nworkers = 8;
  double budget = 600;
  bool verbose = false;
};

static void quiet(Options const& o) {
  if (o.verbose) return;
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
}

struct Known {
  std::string property, key, text;
};

static std::vector<Known> load_known(std::string const& f) {
  std::vector<Known> out;
  std::ifstream in(f);
  std::string line;
  while (std::getline(in, line)) {
    // finding: property=C01 key=<key> <text>
    if (line.compare(0, 8, "finding:") != 0) continue;
    std::istringstream ss(line.substr(8));
    Known k;
    std::string tok;
    while (ss >> tok) {
      if (tok.compare(0, 9, "property=") == 0)
        k.property = tok.substr(9);
      else if (tok.compare(0, 4, "key=") == 0)
        k.key = tok.substr(4);
      else
        k.text += (k.text.empty() ? "" : " ") + tok;
    }
    out.push_back(k);
  }
  return out;
}

static void worker_main(Options const& o, std::vector<Suite> const& suites,
    Shared* sh, int w, std::vector<Known> const& known, std::string tmp,
    std::vector<std::vector<int>> const& skip, int first_suite,
    double deadline) {
  quiet(o);
  Slot& slot = sh->slots[w];
  Impl im;
  im.worker = w;
  im.nworkers = o.nworkers;
  im.thorough = o.thorough;
  im.scratch = tmp + "/w" + std::to_string(w);
  mkdir(im.scratch.c_str(), 0700);
  im.slot = &slot;
  std::ofstream samples(tmp + "/samples." + std::to_string(w), std::ios::app);
  std::set<std::string> known_seen;
  for (size_t si = size_t(first_suite); si < suites.size(); ++si) {
    auto const& s = suites[si];
    if (s.thorough_only && !o.thorough) continue;
    if (!o.only.empty() &&
        std::find(o.only.begin(), o.only.end(), s.name) == o.only.end())
      continue;
    slot.suite = int(si);
    double t0 = now();
    size_t states0 = im.states.size();
    im.split_counter = 0;
    Ctx c;
    c.impl_ = &im;
    uint64_t evals = 0;
    bool more = true;
    int nsamples = 0;
    uint64_t next_sample = 0;
    while (more) {
      if (sh->stop) _exit(0);
      if (now() > deadline) {
        slot.suite_done[si] = 2;
        break;
      }
      slot.npath = 0;
      slot.started = now();
      slot.running = 1;
      c.describing_ = (evals == next_sample) && nsamples < 2;
      Failure f;
      auto r = run_one(s, c, &f);
      slot.running = 0;
      // executions that end before their distribution point belong to worker 0
      bool foreign = r != PRUNED && !c.did_split_ && w != 0;
      if (foreign) r = PRUNED;
      if (r == FAILED) {
        bool is_known = false;
        for (auto& k : known)
          if (k.property == o.property && k.key == f.key) is_known = true;
        if (is_known) {
          ++slot.known;
          if (known_seen.insert(f.key).second) {
            std::ofstream kf(tmp + "/known." + std::to_string(w), std::ios::app);
            kf << f.key << '\n';
          }
        } else {
          bool skipped = false;
          std::vector<int> p;
          for (size_t i = 0; i < c.pos_; ++i) p.push_back(c.path_[i].chosen);
          for (auto& k : skip)
            if (k == p) skipped = true;
          if (!skipped) {
            snprintf(slot.fail_key, sizeof slot.fail_key, "%s", f.key.c_str());
            snprintf(slot.fail_msg, sizeof slot.fail_msg, "%s", f.msg.c_str());
            slot.failed = 1;
            _exit(3);
          }
        }
      }
      if (r == OK) {
        ++evals;
        slot.suite_evals[si] = slot.suite_evals[si] + 1;
        slot.evals = slot.evals + 1;
        slot.steps = slot.steps + c.steps_;
        slot.execs = slot.execs + (c.execs_ ? c.execs_ : 1);
        if (c.describing_ && !c.notes_.empty()) {
          samples << s.name << ": " << c.notes_ << '\n';
          samples.flush();
          ++nsamples;
          next_sample = evals + 37 + evals * 3;
        } else if (c.describing_)
          ++next_sample;
      }
      more = next_path(c.path_, c.pos_);
    }
    if (!slot.suite_done[si]) slot.suite_done[si] = 1;
    slot.suite_wall[si] = now() - t0;
    slot.suite_states[si] = im.states.size() - states0;
  }
  {
    std::ofstream sf(tmp + "/states." + std::to_string(w), std::ios::binary);
    for (auto h : im.states) sf.write(reinterpret_cast<char*>(&h), 8);
    std::ofstream of(tmp + "/outcomes." + std::to_string(w), std::ios::binary);
    for (auto h : im.outcomes) of.write(reinterpret_cast<char*>(&h), 8);
  }
  slot.suite = -2;
  _exit(0);
}

// one execution alone in a fresh process; returns description of failure or ""
static std::string replay_child(Options const& o, Suite const& s,
    std::vector<int> const& path, double timeout, std::string const& tmp,
    std::string* notes) {
  auto f = tmp + "/replay.out";
  unlink(f.c_str());
  pid_t pid = fork();
  if (pid == 0) {
    quiet(o);
    Impl im;
    im.thorough = o.thorough;
    im.scratch = tmp + "/wr";
    mkdir(im.scratch.c_str(), 0700);
    Ctx c;
    c.impl_ = &im;
    c.replaying_ = true;
    c.describing_ = true;
    for (int x : path) c.path_.push_back({x, -1, false});
    Failure fl;
    auto r = run_one(s, c, &fl);
    std::ofstream out(f);
    out << (r == FAILED ? "F" : "O") << '\n'
        << fl.key << '\n'
        << c.notes_ << '\n'
        << fl.msg << '\n';
    out.close();
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  bool killed = false;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() - t0 > timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      killed = true;
      break;
    }
    usleep(2000);
  }
  if (killed) return "hang: no answer within " + std::to_string(timeout) + " s";
  if (WIFSIGNALED(st)) return "crash: signal " + std::to_string(WTERMSIG(st));
  std::ifstream in(f);
  std::string tag, key, nt, msg, rest;
  std::getline(in, tag);
  std::getline(in, key);
  std::getline(in, nt);
  while (std::getline(in, rest)) msg += rest + "\n";
  if (notes) *notes = nt;
  if (tag == "F") return "[" + key + "] " + msg;
  if (tag == "O") return "";
  return "crash: exited with status " + std::to_string(WEXITSTATUS(st));
}

int main(int argc, char** argv, char const* property, std::vector<Suite> suites) {
  if (suites.size() > size_t(MAXSUITES)) {
    fprintf(stderr, "too many suites\n");
    return 2;
  }
  Options o;
  o.property = property;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--thorough") o.thorough = true;
    else if (a == "--out") o.out = val();
    else if (a == "--part") o.part = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--replay") o.replay_file = val();
    else if (a == "--known") o.known_file = val();
    else if (a == "--only") o.only.push_back(val());
    else if (a == "--jobs") o.nworkers = atoi(val().c_str());
    else if (a == "--property") o.property = val();
    else if (a == "--budget") o.budget = atof(val().c_str());
    else if (a == "-v") o.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  char const* td = getenv("TMPDIR");
  std::string tmpl = std::string(td ? td : "/tmp") + "/mc.XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
  std::string tmp = tb.data();
  auto cleanup = [&]() {
    std::string cmd = "rm -rf '" + tmp + "'";
    if (tmp.find("/mc.") != std::string::npos) { if (system(cmd.c_str())) {} }
  };

  if (!o.replay_file.empty()) {
    std::ifstream in(o.replay_file);
    std::string line, suite;
    std::vector<int> path;
    while (std::getline(in, line)) {
      if (line.compare(0, 7, "suite: ") == 0) suite = line.substr(7);
      if (line.compare(0, 9, "choices: ") == 0) {
        std::istringstream ss(line.substr(9));
        int x;
        while (ss >> x) path.push_back(x);
      }
      if (line == "tier: thorough") o.thorough = true;
    }
    for (auto& s : suites)
      if (s.name == suite) {
        std::string notes;
        auto r = replay_child(o, s, path, 300, tmp, &notes);
        printf("replay %s: %s\ncase: %s\n", suite.c_str(),
            r.empty() ? "property holds" : r.c_str(), notes.c_str());
        cleanup();
        return r.empty() ? 0 : 1;
      }
    fprintf(stderr, "no such suite\n");
    cleanup();
    return 2;
  }

  auto known = load_known(o.known_file);
  auto sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
      PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(sh, 0, sizeof(Shared));
  double t0 = now(), deadline = t0 + o.budget;
  int W = o.nworkers;
  std::vector<pid_t> pids(size_t(W), -1);
  std::vector<std::vector<int>> none;
  fflush(stdout);
  for (int w = 0; w < W; ++w) {
    pid_t p = fork();
    if (p == 0) worker_main(o, suites, sh, w, known, tmp, none, 0, deadline);
    pids[size_t(w)] = p;
  }
  int live = W, violations = 0;
  std::string vio_line;
  std::vector<std::string> unrepro;
  auto confirm = [&](int w, std::string what) {
    Slot& sl = sh->slots[w];
    auto& s = suites[size_t(sl.suite)];
    std::vector<int> path(sl.path, sl.path + sl.npath);
    std::string first, notes;
    int hits = 0;
    for (int k = 0; k < 3; ++k) {
      auto r = replay_child(o, s, path, what == "hang" ? 4 * s.timeout : 2 * s.timeout, tmp, &notes);
      if (!r.empty()) {
        // A prefix that crashed mid-way replays to the same crash; running out
        // of recorded choices means it got past the point where it failed.
        if (r.find("[replay-divergence]") == 0 && what != "fail") continue;
        ++hits;
        if (first.empty()) first = r;
        if (what == "hang") break;
        if (hits >= 2) break;
      } else if (what == "hang")
        break;
    }
    if (hits == 0) {
      unrepro.push_back(s.name + ": " + what + " " + sl.fail_msg);
      return false;
    }
    ++violations;
    mkdir(o.replay_dir.c_str(), 0755);
    std::string rf = o.replay_dir + "/" + o.property + "." + o.part + "." + s.name + ".txt";
    std::ofstream out(rf);
    out << "property: " << o.property << "\nsuite: " << s.name << "\ntier: "
        << (o.thorough ? "thorough" : "quick") << "\nchoices:";
    for (int x : path) out << ' ' << x;
    out << "\ncase: " << notes << "\nobserved: " << first << "\n";
    out.close();
    printf("violated in suite %s: %s\n  case: %s\n", s.name.c_str(), first.c_str(), notes.c_str());
    printf("VIOLATION property=%s replay=%s\n", o.property.c_str(), rf.c_str());
    fflush(stdout);
    return true;
  };
  bool aborted = false;
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < W; ++w) {
      if (pids[size_t(w)] < 0) continue;
      int st;
      pid_t r = waitpid(pids[size_t(w)], &st, WNOHANG);
      Slot& sl = sh->slots[w];
      if (r == 0) {
        if (sl.running && sl.suite >= 0 &&
            now() - sl.started > suites[size_t(sl.suite)].timeout) {
          kill(pids[size_t(w)], SIGKILL);
          waitpid(pids[size_t(w)], &st, 0);
          pids[size_t(w)] = -1;
          --live;
          any = true;
          if (!aborted && confirm(w, "hang")) aborted = true, sh->stop = 1;
        }
        continue;
      }
      any = true;
      pids[size_t(w)] = -1;
      --live;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      if (aborted) continue;
      if (confirm(w, sl.failed ? "fail" : "crash")) aborted = true, sh->stop = 1;
    }
    if (aborted) {
      for (int w = 0; w < W; ++w)
        if (pids[size_t(w)] > 0) {
          kill(pids[size_t(w)], SIGKILL);
          int st;
          waitpid(pids[size_t(w)], &st, 0);
          pids[size_t(w)] = -1;
          --live;
        }
      break;
    }
    if (!any) usleep(3000);
  }
  // merge
  auto merge = [&](char const* what) {
    std::vector<uint64_t> all;
    for (int w = 0; w < W; ++w) {
      std::ifstream in(tmp + "/" + what + "." + std::to_string(w), std::ios::binary);
      uint64_t h;
      while (in.read(reinterpret_cast<char*>(&h), 8)) all.push_back(h);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    return all.size();
  };
  uint64_t states = merge("states"), outcomes = merge("outcomes");
  uint64_t evals = 0, steps = 0, execs = 0, knownhits = 0;
  for (int w = 0; w < W; ++w) {
    evals += sh->slots[w].evals;
    steps += sh->slots[w].steps;
    execs += sh->slots[w].execs;
    knownhits += sh->slots[w].known;
  }
  std::set<std::string> ks;
  for (int w = 0; w < W; ++w) {
    std::ifstream in(tmp + "/known." + std::to_string(w));
    std::string l;
    while (std::getline(in, l)) ks.insert(l);
  }
  for (auto& k : known)
    if (k.property == o.property && ks.count(k.key))
      printf("KNOWN-FINDING: property=%s %s: %s\n", o.property.c_str(), k.key.c_str(), k.text.c_str());
  bool exhaustive = !aborted && unrepro.empty();
  std::ostringstream js;
  js << "{\"part\":\"" << o.part << "\",\"property\":\"" << o.property << "\",\"suites\":[";
  bool firsts = true;
  for (size_t si = 0; si < suites.size(); ++si) {
    auto& s = suites[si];
    if (s.thorough_only && !o.thorough) continue;
    if (!o.only.empty() && std::find(o.only.begin(), o.only.end(), s.name) == o.only.end()) continue;
    uint64_t n = 0;
    bool done = true;
    double wall = 0;
    for (int w = 0; w < W; ++w) {
      n += sh->slots[w].suite_evals[si];
      if (sh->slots[w].suite_done[si] != 1) done = false;
      wall = std::max(wall, double(sh->slots[w].suite_wall[si]));
    }
    if (!done) exhaustive = false;
    printf("  %-34s %10llu executions  %s  %.1fs\n", s.name.c_str(), (unsigned long long)n, done ? "complete" : "INCOMPLETE", wall);
    js << (firsts ? "" : ",") << "{\"name\":\"" << json_escape(s.name) << "\",\"executions\":" << n
       << ",\"complete\":" << (done ? "true" : "false") << ",\"bounds\":\"" << json_escape(s.bounds) << "\"}";
    firsts = false;
  }
  js << "],\"samples\":[";
  firsts = true;
  int nsam = 0;
  std::map<std::string, int> per;
  for (int w = 0; w < W; ++w) {
    std::ifstream in(tmp + "/samples." + std::to_string(w));
    std::string l;
    while (std::getline(in, l) && nsam < 40) {
      auto nm = l.substr(0, l.find(':'));
      if (per[nm]++ >= 3) continue;
      if (l.size() > 1500) l = l.substr(0, 1500) + "...";
      js << (firsts ? "" : ",") << "\"" << json_escape(l) << "\"";
      firsts = false;
      ++nsam;
    }
  }
  js << "],\"executions\":" << evals << ",\"lib_executions\":" << execs << ",\"states\":" << states
     << ",\"outcomes\":" << outcomes << ",\"transitions\":" << steps << ",\"known_hits\":" << knownhits
     << ",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"violations\":" << violations
     << ",\"wall_s\":" << (now() - t0) << ",\"unreproduced\":[";
  for (size_t i = 0; i < unrepro.size(); ++i)
    js << (i ? "," : "") << "\"" << json_escape(unrepro[i]) << "\"";
  js << "]}";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str() << '\n';
  }
  for (auto& u : unrepro) printf("unreproduced: %s\n", u.c_str());
  printf("%s/%s: %llu executions, %llu distinct states, %llu distinct outcomes, %llu transitions, %s, %.1fs\n",
      o.property.c_str(), o.part.c_str(), (unsigned long long)evals, (unsigned long long)states,
      (unsigned long long)outcomes, (unsigned long long)steps, exhaustive ? "exhaustive" : "not exhaustive", now() - t0);
  cleanup();
  return violations ? 1 : 0;
}

}  // namespace mc
