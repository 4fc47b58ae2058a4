// A small property-based testing runtime with integrated (choice-stream) shrinking.
//
// Every random decision of a case is one recorded integer choice; a case is a pure function of its choice list.
// Cases run in a forked worker; the choices live in shared memory so a crash, an abort (assert, sanitizer,
// std::terminate) or a hang is attributed to the case that caused it.  A failing choice list is shrunk (chunk
// deletion, zeroing, binary lowering) and written out as the replay file.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define PBT_ALLOCATED() __sanitizer_get_current_allocated_bytes()
#else
#define PBT_ALLOCATED() size_t(0)
#endif

namespace pbt {

inline uint64_t splitmix(uint64_t &s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

struct Failure
{
  std::string key, msg;
};
struct Discard
{
};

constexpr size_t MAXC = 1 << 16;
struct Shm
{
  uint64_t caseIdx, nChoices, choices[MAXC];
  int state; // 0 running, 1 failed, 2 finished all
  char key[160];
  char msg[6000];
  char desc[12000];
  uint64_t evals, discards, nontrivial, distinct, steps, knownHits;
};

struct Overrun
{
};

class Case
{
  Shm *shm;
  bool replay;
  std::vector<uint64_t> in;
  size_t pos{ 0 };
  uint64_t rng{ 0 };
  size_t echo{ SIZE_MAX };

public:
  std::ostringstream desc;
  bool isNontrivial{ false };
  uint64_t nsteps{ 0 };
  std::map<std::string, uint64_t> labels;
  bool thorough{ false };

  Case(Shm *s, uint64_t seed) : shm(s), replay(false), rng(seed) { shm->nChoices = 0; }
  Case(Shm *s, std::vector<uint64_t> ch) : shm(s), replay(true), in(std::move(ch)) { shm->nChoices = 0; }

  // Runs fn again on the choices recorded since 'from' (nothing new is recorded): builds an identical second object.
  size_t mark() const { return shm->nChoices; }
  template <typename F>
  auto again(size_t from, F fn)
  {
    const size_t old = echo;
    echo = from;
    struct R
    {
      size_t &e, o;
      ~R() { e = o; }
    } restore{ echo, old };
    return fn();
  }

  uint64_t draw(uint64_t max) // a value in [0,max]; 0 is the simplest
  {
    if (echo != SIZE_MAX) return echo < shm->nChoices ? std::min(shm->choices[echo++], max) : 0;
    uint64_t v = 0;
    if (replay) {
      if (pos < in.size()) v = std::min(in[pos], max);
      pos++;
    } else if (max == 0)
      v = 0;
    else {
      uint64_t r = splitmix(rng);
      if (max >= 1024 && (r & 15) == 0) // edges
        v = (r & 16) ? 0 : ((r & 32) ? max : (r >> 8) % 64);
      else {
        r = splitmix(rng);
        v = (max == UINT64_MAX) ? r : r % (max + 1);
      }
    }
    if (shm->nChoices >= MAXC) throw Overrun{};
    shm->choices[shm->nChoices++] = v;
    return v;
  }

  long i(long lo, long hi) { return lo + (long)draw((uint64_t)(hi - lo)); }
  double r(double lo, double hi)
  {
    constexpr uint64_t M = 1ull << 30;
    return lo + (hi - lo) * ((double)draw(M) / (double)M);
  }
  double rlog(double lo, double hi) { return std::exp(r(std::log(lo), std::log(hi))); }
  bool b(int num = 1, int den = 2) { return (int)draw(den - 1) >= den - num; } // true with probability num/den; shrinks to false
  template <typename T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  template <typename V>
  const auto &choose(const V &v) { return v[draw(v.size() - 1)]; }
  int weighted(std::initializer_list<int> w)
  {
    int tot = 0;
    for (int x : w) tot += x;
    int k = (int)draw(tot - 1), idx = 0;
    for (int x : w) {
      if (k < x) return idx;
      k -= x;
      idx++;
    }
    return idx - 1;
  }

  void nontrivial(bool c = true) { isNontrivial |= c; }
  void label(const std::string &s, bool c = true)
  {
    if (c) labels[s]++;
  }
  void step() { nsteps++; }
  [[noreturn]] void discard() { throw Discard{}; }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure{ key, msg }; }
  void check(bool ok, const std::string &key, const std::string &msg)
  {
    if (!ok) fail(key, msg);
  }
};

inline std::string num(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string num6(double x)
{
  char b[64];
  snprintf(b, sizeof b, "%.6g", x);
  return b;
}

// |a-b| within abs + rel*max(|a|,|b|); NaN never close; equal infinities close.
inline bool near(double a, double b, double rel, double abs)
{
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

struct Sub
{
  std::string name;
  uint64_t quickN, thoroughN;
  std::function<void(Case &)> fn;
  std::string rule;
  bool unpinned{ false };
  int cpuLimit{ 20 }; // seconds of CPU time a single case may take
};
inline std::vector<Sub> &subs()
{
  static std::vector<Sub> s;
  return s;
}
struct Reg
{
  Reg(std::string n, uint64_t q, uint64_t t, std::string rule, std::function<void(Case &)> f, bool unp = false, int cpu = 20)
  {
    subs().push_back({ n, q, t, f, rule, unp, cpu });
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT_SUB("name", quick cases, thorough cases, "rule") { body using Case &c }
#define PBT_SUB(NAME, Q, T, RULE)                                                            \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case &);                                       \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(NAME, Q, T, RULE, PBT_CAT(pbt_fn_, __LINE__)); \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case & c)
#define PBT_SUB_UNPINNED(NAME, Q, T, RULE)                                                         \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case &);                                             \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(NAME, Q, T, RULE, PBT_CAT(pbt_fn_, __LINE__), true); \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case & c)
// for sub-checks whose cases simulate long procedures
#define PBT_SUB_SLOW(NAME, Q, T, RULE)                                                                        \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case &);                                                        \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(NAME, Q, T, RULE, PBT_CAT(pbt_fn_, __LINE__), false, 60);       \
  static void PBT_CAT(pbt_fn_, __LINE__)(pbt::Case & c)

inline std::string jstr(const std::string &s)
{
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\')
      o += '\\', o += ch;
    else if (ch == '\n')
      o += "\\n";
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

// Runs one case. Returns 0 pass, 1 fail, 2 discard. Fills shm key/msg/desc on failure.
inline int runOne(const Sub &s, Case &c, Shm *shm)
{
  auto put = [&](const std::string &k, const std::string &m) {
    snprintf(shm->key, sizeof shm->key, "%s", k.c_str());
    snprintf(shm->msg, sizeof shm->msg, "%s", m.c_str());
    snprintf(shm->desc, sizeof shm->desc, "%s", c.desc.str().c_str());
    return 1;
  };
  try {
    s.fn(c);
    return 0;
  } catch (const Failure &f) {
    return put(f.key, f.msg);
  } catch (const Discard &) {
    return 2;
  } catch (const Overrun &) {
    return 2;
  } catch (int e) {
    return put(s.name + ".exception-" + std::to_string(e), "unexpected exception (int) " + std::to_string(e));
  } catch (const std::exception &e) {
    return put(s.name + ".std-exception", std::string("unexpected std::exception ") + e.what());
  } catch (...) {
    return put(s.name + ".unknown-exception", "unexpected exception of another type");
  }
}

inline void silence()
{
  if (getenv("PBT_LOUD")) return;
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  if (!getenv("PBT_STDERR")) dup2(fd, 2);
  ::close(fd);
}
inline void armCpu(int sec)
{
  itimerval t{};
  t.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline std::string describeStatus(int st)
{
  if (WIFSIGNALED(st)) {
    int g = WTERMSIG(st);
    if (g == SIGPROF || g == SIGKILL) return "hang";
    return std::string("crash-signal-") + std::to_string(g);
  }
  return "crash-exit-" + std::to_string(WEXITSTATUS(st));
}

inline int waitTimeout(pid_t pid, double sec)
{ // wall-clock guard on top of the CPU limit
  auto t0 = std::chrono::steady_clock::now();
  int st = 0;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) return st;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > sec) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return st;
    }
    usleep(300);
  }
}

// When a replayed case ends the process, its description so far is still saved (no allocation in the handler).
struct CrashInfo
{
  static inline Case *c = nullptr;
  static inline Shm *shm = nullptr;
  static void save(int sig)
  {
    if (c && shm) {
      auto v = c->desc.view();
      const size_t n = std::min(v.size(), sizeof shm->desc - 1);
      memcpy(shm->desc, v.data(), n);
      shm->desc[n] = 0;
    }
    raise(sig); // with the default action: the handler was reset
  }
  static void install(Case *cc, Shm *s)
  {
    c = cc, shm = s;
    struct sigaction a{};
    a.sa_handler = save;
    a.sa_flags = SA_RESETHAND | SA_NODEFER;
    for (int g : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF }) sigaction(g, &a, nullptr);
  }
};

// Memory mode (PBT_MEM): only crashes, sanitizer reports, hangs and leaks count; a property that does not hold on a
// case is somebody else's check. Such cases are still written down, to be tried in another build (see run.py).
inline bool memMode()
{
  static const bool m = getenv("PBT_MEM") != nullptr;
  return m;
}
// The same choices once more: memory in use must come back to what it was (the first run may fill caches).
inline bool leaks(const Sub &s, Shm *shm, bool thorough, size_t &by)
{
#if defined(__SANITIZE_ADDRESS__)
  if (s.name.rfind("P21.", 0) == 0 || s.name == "P20.files") return false; // every case reads a file of a new name, whose contents the library keeps
  const std::vector<uint64_t> ch(shm->choices, shm->choices + shm->nChoices);
  auto once = [&] {
    Case c(shm, ch);
    c.thorough = thorough;
    runOne(s, c, shm);
  };
  once();
  size_t before = PBT_ALLOCATED();
  for (int k = 0; k < 3; k++) { // growth every single time
    once();
    const size_t now = PBT_ALLOCATED();
    if (now <= before) return false;
    by = now - before;
    before = now;
  }
  return true;
#else
  return false;
#endif
}

// Runs one choice list in a forked child: returns 0 pass,1 fail (key in shm), 2 discard
inline int tryChoices(const Sub &s, Shm *shm, const std::vector<uint64_t> &ch, bool thorough)
{
  shm->key[0] = shm->msg[0] = shm->desc[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    silence();
    armCpu(s.cpuLimit);
    Case c(shm, ch);
    c.thorough = thorough;
    CrashInfo::install(&c, shm);
    int r = runOne(s, c, shm);
    size_t by = 0;
    if (memMode() && r == 1 && !getenv("PBT_MEM_FAILS")) r = 0;
    if (memMode() && r == 0) {
      const std::string d = c.desc.str();
      armCpu(s.cpuLimit * 5);
      if (leaks(s, shm, thorough, by)) {
        snprintf(shm->key, sizeof shm->key, "%s.leak", s.name.c_str());
        snprintf(shm->msg, sizeof shm->msg, "repeating the case leaves %zu more bytes allocated each time", by);
        snprintf(shm->desc, sizeof shm->desc, "%s", d.c_str());
        r = 1;
      }
    }
    _exit(r == 0 ? 10 : (r == 1 ? 11 : 12));
  }
  int st = waitTimeout(p, s.cpuLimit * 8.0);
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 10) return 0;
    if (WEXITSTATUS(st) == 11) return 1;
    if (WEXITSTATUS(st) == 12) return 2;
  }
  snprintf(shm->key, sizeof shm->key, "%s.%s", s.name.c_str(), describeStatus(st).c_str());
  snprintf(shm->msg, sizeof shm->msg, "the case ended the process: %s", describeStatus(st).c_str());
  return 1;
}

inline std::vector<uint64_t> shrink(const Sub &s, Shm *shm, std::vector<uint64_t> best, const std::string &key, bool thorough, double budget)
{
  auto t0 = std::chrono::steady_clock::now();
  int attempts = 0;
  auto over = [&] { return attempts > 1500 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
  auto test = [&](const std::vector<uint64_t> &cand) {
    if (over()) return false;
    attempts++;
    if (tryChoices(s, shm, cand, thorough) == 1 && key == shm->key) {
      size_t n = std::min<size_t>(shm->nChoices, cand.size()); // trailing unused choices go away
      best.assign(cand.begin(), cand.begin() + n);
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && !over(); chunk /= 2) {
      for (size_t at = 0; at + chunk <= best.size() && !over();) {
        auto cand = best;
        cand.erase(cand.begin() + at, cand.begin() + at + chunk);
        if (test(cand))
          progress = true;
        else
          at += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t k = 0; k < best.size() && !over(); k++) {
      if (best[k] == 0) continue;
      auto cand = best;
      cand[k] = 0;
      if (test(cand)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0;
      while (k < best.size() && best[k] - lo > 1 && !over()) {
        auto c2 = best;
        c2[k] = lo + (best[k] - lo) / 2;
        uint64_t mid = c2[k];
        if (test(c2))
          progress = true;
        else
          lo = mid;
        if (best.size() <= k) break;
      }
    }
  }
  return best;
}

inline void writeReplay(const std::string &path, const Sub &s, const std::string &key, const std::string &msg, const std::string &desc, const std::vector<uint64_t> &ch)
{
  std::ofstream f(path);
  f << "sub " << s.name << "\nkey " << key << "\nchoices";
  for (auto x : ch) f << ' ' << x;
  f << "\nmsg\n"
    << msg << "\ncase\n"
    << desc << '\n';
}

inline int pbtMain(int argc, char **argv)
{
  std::map<std::string, std::string> a;
  for (int k = 1; k < argc; k++) {
    std::string s = argv[k];
    if (s.rfind("--", 0) == 0) a[s.substr(2)] = (k + 1 < argc && std::string(argv[k + 1]).rfind("--", 0) != 0) ? argv[++k] : "1";
  }
  std::set<std::string> known;
  if (const char *kn = getenv("PBT_KNOWN")) {
    std::stringstream ss(kn);
    std::string t;
    while (std::getline(ss, t, ',')) known.insert(t);
  }
  auto *shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (a.count("list")) {
    std::cout << "[";
    for (size_t k = 0; k < subs().size(); k++)
      std::cout << (k ? "," : "") << "{\"name\":" << jstr(subs()[k].name) << ",\"quick\":" << subs()[k].quickN << ",\"thorough\":" << subs()[k].thoroughN
                << ",\"unpinned\":" << (subs()[k].unpinned ? "true" : "false") << ",\"rule\":" << jstr(subs()[k].rule) << "}";
    std::cout << "]\n";
    return 0;
  }
  auto find = [&](const std::string &n) -> Sub * {
    for (auto &s : subs())
      if (s.name == n) return &s;
    return nullptr;
  };
  bool thorough = a["tier"] == "thorough";
  const bool instrumented = memMode() || getenv("PBT_SLOW");
  if (instrumented)
    for (auto &x : subs()) x.cpuLimit *= 3;
  if (a.count("replay")) {
    std::ifstream f(a["replay"]);
    std::string w, name, line;
    std::vector<uint64_t> ch;
    std::string key;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      ss >> w;
      if (w == "sub") ss >> name;
      if (w == "key") ss >> key;
      if (w == "choices") {
        uint64_t x;
        while (ss >> x) ch.push_back(x);
        break;
      }
    }
    Sub *s = find(name);
    if (!s) {
      std::cerr << "unknown sub " << name << '\n';
      return 4;
    }
    int r = tryChoices(*s, shm, ch, thorough);
    if (r == 1) {
      std::cout << "FAIL key=" << shm->key << "\n"
                << shm->msg << "\n--- case\n"
                << shm->desc << "\n";
      return std::string(shm->key) == key ? 1 : 3;
    }
    std::cout << "PASS\n";
    return 0;
  }
  Sub *s = find(a["run"]);
  if (!s) {
    std::cerr << "unknown sub\n";
    return 4;
  }
  uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10), shard = strtoull(a["shard"].c_str(), nullptr, 10),
           shards = std::max<uint64_t>(1, strtoull(a["shards"].c_str(), nullptr, 10)), N = strtoull(a["cases"].c_str(), nullptr, 10);
  double tlimit = a.count("time") ? atof(a["time"].c_str()) : 1e9;
  std::string out = a["out"];
  auto t0 = std::chrono::steady_clock::now();
  memset(shm, 0, sizeof(Shm));
  pid_t p = fork();
  if (p == 0) {
    silence();
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evals = 0;
    double slowest = 0;
    int code = 0, fails = 0;
    for (uint64_t idx = shard; idx < N; idx += shards) {
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tlimit) break;
      uint64_t sd = seed * 0x9e3779b97f4a7c15ull ^ hashStr(s->name) ^ (idx * 0xd1b54a32d192ed03ull);
      splitmix(sd);
      shm->caseIdx = idx;
      armCpu(s->cpuLimit);
      Case c(shm, sd);
      c.thorough = thorough;
      const clock_t cpu0 = clock();
      int r = runOne(*s, c, shm);
      armCpu(0);
      slowest = std::max(slowest, (double)(clock() - cpu0) / CLOCKS_PER_SEC);
      if (memMode() && r == 1 && fails < 3) {
        fails++;
        writeReplay(out + ".fail" + std::to_string(fails), *s, shm->key, shm->msg, shm->desc, std::vector<uint64_t>(shm->choices, shm->choices + shm->nChoices));
      }
      if (memMode() && r != 2 && (evals % 16 == 0 || r == 1)) {
        size_t by = 0;
        armCpu(s->cpuLimit * 5);
        if (leaks(*s, shm, c.thorough, by)) {
          code = 11;
          break;
        }
        armCpu(0);
      }
      if (memMode() && r == 1) {
        shm->evals = ++evals;
        shm->knownHits++;
        continue;
      }
      if (r == 1) {
        if (known.count(shm->key)) {
          shm->knownHits++;
          continue;
        }
        code = 11;
        break;
      }
      if (r == 2) {
        shm->discards++;
        continue;
      }
      shm->evals = ++evals;
      shm->steps += c.nsteps;
      for (auto &[k, v] : c.labels) labels[k]++;
      if (c.isNontrivial) {
        uint64_t h = 1469598103934665603ull;
        for (size_t k = 0; k < shm->nChoices; k++) h = (h ^ shm->choices[k]) * 1099511628211ull, h ^= h >> 29;
        shm->nontrivial++;
        if (distinct.insert(h).second && samples.size() < 2 && shard == 0) samples.push_back(c.desc.str().substr(0, 1500));
        shm->distinct = distinct.size();
      }
    }
    std::ofstream f(out + ".child");
    f << "{\"labels\":{";
    bool first = true;
    for (auto &[k, v] : labels) f << (first ? "" : ",") << jstr(k) << ":" << v, first = false;
    f << "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); k++) f << (k ? "," : "") << jstr(samples[k]);
    f << "],\"slowest\":" << slowest << "}";
    f.close();
    _exit(code == 11 ? 11 : 10);
  }
  int st = 0;
  { // wall-clock guard: no progress on one case for a long time
    uint64_t last = UINT64_MAX;
    auto tl = std::chrono::steady_clock::now();
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      uint64_t cur = *(volatile uint64_t *)&shm->caseIdx;
      auto now = std::chrono::steady_clock::now();
      if (cur != last) last = cur, tl = now;
      if (std::chrono::duration<double>(now - tl).count() > s->cpuLimit * 8.0) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        break;
      }
      usleep(2000);
    }
  }
  bool failed = false;
  std::string key, msg, desc, rp;
  std::vector<uint64_t> ch;
  uint64_t evals = shm->evals, disc = shm->discards, nontr = shm->nontrivial, dist = shm->distinct, steps = shm->steps, kh = shm->knownHits, fidx = shm->caseIdx;
  const bool slow = instrumented && WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGKILL); // a case that takes too long with instrumentation decides nothing; its shard ends here
  if (slow) {
    std::ofstream f(out + ".child");
    f << "{\"labels\":{\"ended at a case that took too long\":1},\"samples\":[],\"slowest\":" << s->cpuLimit << "}";
  }
  if (!slow && !(WIFEXITED(st) && WEXITSTATUS(st) == 10)) {
    failed = true;
    ch.assign(shm->choices, shm->choices + shm->nChoices);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11)
      key = shm->key;
    else
      key = s->name + "." + describeStatus(st);
    // confirm, then shrink
    int rr = tryChoices(*s, shm, ch, thorough);
    bool confirmed = rr == 1;
    if (confirmed) {
      key = shm->key;
      ch = shrink(*s, shm, ch, key, thorough, a.count("shrink") ? atof(a["shrink"].c_str()) : 40.0);
      for (int k = 0; k < 3 && confirmed; k++) confirmed = tryChoices(*s, shm, ch, thorough) == 1 && key == shm->key;
      msg = shm->msg;
      desc = shm->desc;
    } else
      msg = "did not reproduce";
    rp = out + ".replay";
    writeReplay(rp, *s, key, msg, desc, ch);
    std::ofstream f(out);
    f << "{\"failed\":true,\"confirmed\":" << (confirmed ? "true" : "false") << ",\"key\":" << jstr(key) << ",\"msg\":" << jstr(msg) << ",\"case\":" << jstr(desc)
      << ",\"index\":" << fidx << ",\"replay\":" << jstr(rp);
    f << ",\"evals\":" << evals << ",\"discards\":" << disc << ",\"nontrivial\":" << nontr << ",\"distinct\":" << dist << ",\"steps\":" << steps << ",\"known\":" << kh << "}\n";
    return 1;
  }
  std::ofstream f(out);
  f << "{\"failed\":false,\"evals\":" << evals << ",\"discards\":" << disc << ",\"nontrivial\":" << nontr << ",\"distinct\":" << dist << ",\"steps\":" << steps << ",\"known\":" << kh
    << ",\"wall\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}\n";
  return 0;
}
} // namespace pbt
