// Common parts of the conformance harnesses: a choice oracle (exhaustive
// depth-first enumeration of every environment choice, or seeded random), and
// an ndjson trace writer that also survives crashes of the code under test.
#ifndef VH_HPP
#define VH_HPP
#include <csignal>
#include <cstdint>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <random>
#include <set>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vh {

struct Choices {
  std::vector<int> val, width;
  std::size_t pos = 0;
  bool random = false;
  std::mt19937_64 rng{1};
  int operator()(int n) {
    if (n <= 1) return 0;
    if (pos == val.size()) {
      val.push_back(random ? static_cast<int>(rng() % static_cast<unsigned>(n)) : 0);
      width.push_back(n);
    }
    return val[pos++];
  }
  void restart() { pos = 0; if (random) { val.clear(); width.clear(); } }
  // next script in depth first order; false when the space is exhausted
  bool advance() {
    while (!val.empty() && val.back() + 1 >= width.back()) {
      val.pop_back();
      width.pop_back();
    }
    if (val.empty()) return false;
    ++val.back();
    pos = 0;
    return true;
  }
};

struct BudgetExceeded : std::exception {
  const char* what() const noexcept override { return "budget exceeded"; }
};

// JSON object under construction
struct J {
  std::string s = "{";
  bool first = true;
  void key(const char* k) {
    if (!first) s += ',';
    first = false;
    s += '"'; s += k; s += "\":";
  }
  J& i(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
  J& b(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& t(const char* k, const std::string& v) { key(k); s += '"' + v + '"'; return *this; }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  template <class V> J& l(const char* k, const V& v) {
    key(k); s += '[';
    bool f = true;
    for (auto x : v) { if (!f) s += ','; f = false; s += std::to_string(static_cast<long long>(x)); }
    s += ']';
    return *this;
  }
  std::string str() const { return s + "}"; }
};
template <class V> std::string List(const V& v) {
  std::string s = "[";
  bool f = true;
  for (auto& x : v) { if (!f) s += ','; f = false; s += x; }
  return s + "]";
}

inline bool thorough();
// A trace that takes this much processor time hangs.
inline void watch() {
  itimerval v{};
  v.it_value.tv_sec = thorough() ? 600 : 60;
  setitimer(ITIMER_PROF, &v, nullptr);
}

class Trace {
public:
  std::FILE* out = nullptr;
  std::string head, events;
  bool open = false;
  long long count = 0;
  std::string crash_event = "{\"a\":\"crash\"}";
  std::set<std::size_t>* dedup = nullptr;
  void start(const std::string& cfg) {
    head = "{\"cfg\":" + cfg + ",\"ev\":[";
    events.clear();
    open = true;
    watch();
  }
  void ev(const J& j) {
    if (!events.empty()) events += ',';
    events += j.str();
  }
  // returns true if written (i.e. not a repetition of an earlier trace)
  bool finish() {
    open = false;
    std::string line = head + events + "]}\n";
    if (dedup && !dedup->insert(std::hash<std::string>{}(line)).second) return false;
    ++count;
    std::fwrite(line.data(), 1, line.size(), out);
    return true;
  }
};

inline Trace*& current() { static Trace* t = nullptr; return t; }

inline void on_signal(int sig) {
  Trace* t = current();
  if (t && t->open && t->out) {
    std::fputs(t->head.c_str(), t->out);
    std::fputs(t->events.c_str(), t->out);
    if (!t->events.empty()) std::fputc(',', t->out);
    std::fputs(t->crash_event.c_str(), t->out);
    std::fputs("]}\n", t->out);
    std::fflush(t->out);
    std::fprintf(stderr, "crash: signal %d\n", sig);
    _exit(70);
  }
  _exit(71);
}

inline void install(Trace& t, const char* path, unsigned hang_seconds = 0) {
  t.out = std::fopen(path, "w");
  if (!t.out) { std::perror(path); std::exit(2); }
  current() = &t;
  // a stack of its own, so that the handler can run after a stack overflow
  static char stack[1 << 16];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF}) {
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
  if (hang_seconds) alarm(thorough() ? 3000 : hang_seconds < 300 ? hang_seconds : 300);
}

inline std::uint64_t seed() {
  const char* s = std::getenv("VERIF_SEED");
  return s ? std::strtoull(s, nullptr, 10) : 1;
}
inline bool thorough() {
  const char* s = std::getenv("VERIF_TIER");
  return s && std::string(s) == "thorough";
}

// Project a real number onto the integer grid of the specification.
// Off-grid values map to a sentinel, which no clause accepts.
constexpr long long kOffGrid = -99999999;
inline long long Grid(double x, double unit, double tol = 1e-3) {
  const double q = x / unit;
  if (!(std::abs(q) < 1e8)) return kOffGrid;
  const double r = std::nearbyint(q);
  return std::abs(q - r) <= tol ? static_cast<long long>(r) : kOffGrid;
}

} // namespace vh
#endif
