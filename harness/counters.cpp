// Conformance harness for counters, timers and their statistics.  Run on one
// process, or on several with the statistics gathered at a root.
#include "fub/core/type_traits.hpp"
#include "vg.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include <optional>
#include <sstream>
using namespace fub;
using vh::J; using vg::Rnd;
static vh::Trace g_trace;
static int ranks = 1, rank_ = 0;
using Clock = std::chrono::steady_clock;
static std::string L(long long v) { return '"' + std::to_string(v) + '"'; }
static std::string D(double x) { char b[40]; std::snprintf(b, sizeof b, "\"%.17g\"", x); return b; }
static const char* kNames[] = {"a", "PatchHierarchy::Advance", "b", "RunSimulation", "c1", "c2", "c3", "x::y::z", "Output", "Solver::GetStableDt", "k", "m"};
static constexpr int kN = 12;
static std::string NamesStr() { std::vector<std::string> v; for (auto n : kNames) v.push_back('"' + std::string(n) + '"'); return vh::List(v); }
static std::string Cfg(int slots) { return J().i("ranks", ranks).i("slots", slots).raw("names", NamesStr()).str(); }
static long long Val() {
  switch (Rnd(0, 5)) {
  case 0: return Rnd(-5, 5);
  case 1: return Rnd(1, 1000000000) * 1000000ll;
  case 2: return -Rnd(1, 1000);
  default: return Rnd(0, 100000);
  }
}
static void Spin(int us) { auto t = Clock::now() + std::chrono::microseconds(us); while (Clock::now() < t) {} }
static long long Ns(Clock::duration d) { return std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); }

static std::string Result(const CounterResult& r) {
  return J().t("name", r.name).i("count", r.count).raw("min", L(r.min)).raw("max", L(r.max)).raw("mean", D(r.mean)).raw("variance", D(r.variance)).raw("stddev", D(r.stddev)).str();
}
template <class Rs> std::string Results(const Rs& rs) { std::vector<std::string> v; for (auto& r : rs) v.push_back(Result(r)); return vh::List(v); }

static std::string Tok(const std::string& t) { // a number as it is printed
  char* end = nullptr; const double x = std::strtod(t.c_str(), &end);
  return *end == 0 && std::isfinite(x) ? '"' + t + '"' : "\"nan\"";
}
template <class Dur, class Rs> void Table(const Rs& rs, const std::vector<CounterResult>& given, const char* unit, long long ref, bool sorted) {
  std::istringstream in(print_statistics<Dur>(rs, ref));
  std::vector<std::string> rows; std::string line;
  while (std::getline(in, line)) {
    std::istringstream w(line); std::vector<std::string> t; std::string x;
    while (w >> x) t.push_back(x);
    if (t.size() != 7 || t[0].find("---") == 0 || t[0].find("===") == 0 || t[0] == "Table" || t[0] == "Counter") continue;
    rows.push_back(J().t("name", t[0]).raw("cells", vh::List(std::vector<std::string>{Tok(t[1]), Tok(t[2]), Tok(t[3]), Tok(t[4]), Tok(t[5])})).raw("last", Tok(t[6])).str());
  }
  g_trace.ev(J().t("a", "table").raw("given", Results(given)).raw("rows", vh::List(rows)).t("unit", unit).raw("reference", L(ref)).b("sorted", sorted));
}
static void Tables(const std::vector<CounterResult>& r) {
  for (auto& x : r) if (x.min < 0 || x.mean < 0) return; // times are not negative
  const long long ref = Rnd(0, 1) ? -1 : Rnd(1, 1000000) * 1000ll;
  switch (Rnd(0, 3)) {
  case 0: Table<std::chrono::nanoseconds>(r, r, "1", ref, true); break;
  case 1: Table<std::chrono::microseconds>(r, r, "1000", ref, true); break;
  case 2: Table<std::chrono::milliseconds>(r, r, "1000000", ref, true); break;
  default: Table<std::chrono::seconds>(r, r, "1000000000", ref, true);
  }
  std::unordered_map<std::string, CounterResult> m;
  for (auto& x : r) m.emplace(x.name, x);
  Table<std::chrono::microseconds>(m, r, "1000", ref, false);
}

struct Serial { std::vector<const void*> seen; int operator()(const void* p) { for (std::size_t i = 0; i < seen.size(); ++i) if (seen[i] == p) return (int)i + 1; seen.push_back(p); return (int)seen.size(); } };

static void Single(int traces) {
  for (int t = 0; t < traces; ++t) {
    constexpr int S = 3;
    g_trace.start(Cfg(S));
    CounterRegistry reg; Serial serial;
    auto get = [&](int n) {
      Counter* c = reg.get(kNames[n]);
      g_trace.ev(J().t("a", "get").t("name", kNames[n]).i("adr", serial(c)).t("as", c->get_name()));
      return c;
    };
    std::optional<Timer> timers[S]; int who[S]; Clock::time_point b0[S], b1[S];
    for (int& w : who) w = -1;
    long long lo = 0, hi = 0, got = 0;
    // measured around what ends the timer in d
    auto ended = [&](int d, auto op) {
      const int w = who[d]; long long before = 0;
      if (w >= 0) before = reg.get(kNames[w])->get_value();
      auto t0 = Clock::now(); op(); auto t1 = Clock::now();
      lo = hi = got = 0;
      if (w >= 0) { lo = Ns(t0 - b1[d]); hi = Ns(t1 - b0[d]); got = reg.get(kNames[w])->get_value() - before; }
    };
    auto note = [&](J j) {
      std::vector<std::string> seen;
      for (int n = 0; n < kN; ++n) if (n < 4) { Counter* c = reg.get(kNames[n]); seen.push_back(J().t("name", kNames[n]).i("count", c->get_count()).raw("value", L(c->get_value())).str()); }
      g_trace.ev(j.raw("lo", L(lo)).raw("hi", L(hi)).raw("got", L(got)).raw("seen", vh::List(seen)));
    };
    for (int n = 0; n < 4; ++n) get(n);
    const bool times_only = Rnd(0, 1);
    for (int i = 0; i < 50; ++i) {
      const int n = Rnd(0, kN - 1), d = Rnd(0, S - 1), s = Rnd(0, S - 1);
      switch (Rnd(0, 9)) {
      case 0: case 1: case 2: { Counter* c = get(n); for (int k = Rnd(1, 4); k > 0; --k) { long long v = times_only ? std::abs(Val()) : Val(); c->add(v); g_trace.ev(J().t("a", "add").i("p", 1).t("name", kNames[n]).raw("v", L(v))); } break; }
      case 3: { Counter* c = get(n);
        g_trace.ev(J().t("a", "query").t("name", kNames[n]).i("count", c->get_count()).raw("value", L(c->get_value())).raw("min", L(c->get_min())).raw("max", L(c->get_max())).raw("mean", D(c->get_mean())).raw("variance", D(c->get_variance())).raw("stddev", D(c->get_stddev())));
        break; }
      case 4: if (Rnd(0, 2) == 0) { get(n)->reset(); g_trace.ev(J().t("a", "reset").i("p", 1).t("name", kNames[n])); } break;
      case 5: case 6: { // begin a timer, perhaps in the place of another one
        const int m = Rnd(0, 3); Counter* c = get(m); Clock::time_point n0, n1;
        ended(d, [&] {
          n0 = Clock::now();
          if (timers[d]) { if (Rnd(0, 1)) *timers[d] = reg.get_timer(kNames[m]); else *timers[d] = Timer(*c); }
          else if (Rnd(0, 1)) timers[d].emplace(*c); else timers[d].emplace(reg.get_timer(kNames[m]));
          n1 = Clock::now();
        });
        who[d] = m; b0[d] = n0; b1[d] = n1;
        note(J().t("a", "start").i("d", d + 1).t("name", kNames[m])); Spin(Rnd(0, 30)); break; }
      case 7: if (d != s && timers[s]) {
        ended(d, [&] { if (timers[d]) *timers[d] = std::move(*timers[s]); else timers[d].emplace(std::move(*timers[s])); });
        who[d] = who[s]; b0[d] = b0[s]; b1[d] = b1[s]; who[s] = -1;
        note(J().t("a", "take").i("d", d + 1).i("s", s + 1)); Spin(Rnd(0, 30)); } break;
      case 8: if (timers[d] || Rnd(0, 3) == 0) { ended(d, [&] { timers[d].reset(); if (Rnd(0, 1)) timers[d].emplace(); }); who[d] = -1; note(J().t("a", "end").i("d", d + 1)); } break;
      default: if (Rnd(0, 3) == 0) {
        std::vector<CounterResult> r;
        if (Rnd(0, 1)) r = reg.gather_statistics(); else for (auto& x : reg.gather_statistics_map()) { r.push_back(x.second); if (x.first != x.second.name) r.back().name = "?"; }
        g_trace.ev(J().t("a", "gather").i("root", 1).raw("results", Results(r)).i("others", 0));
        for (auto& x : r) if (Rnd(0, 1)) { x.variance = Rnd(0, 1000000); x.stddev = std::sqrt(x.variance) * Rnd(0, 5000); } // as of several processes
        Tables(r);
      } }
    }
    for (int d = 0; d < S; ++d) { ended(d, [&] { timers[d].reset(); }); who[d] = -1; note(J().t("a", "end").i("d", d + 1)); }
    g_trace.finish();
  }
}
// The same random numbers on every process: each knows what the others do.
static void Parallel(int traces) {
  for (int t = 0; t < traces; ++t) {
    if (rank_ == 0) g_trace.start(Cfg(1));
    CounterRegistry reg; Serial serial;
    const int n = Rnd(1, kN); std::vector<int> mine;
    for (int p = 0; p < ranks; ++p) { // the counters are made in an order of its own on every process
      std::vector<int> perm(kN); for (int i = 0; i < kN; ++i) perm[i] = i;
      std::mt19937_64 shuffle(vg::rng()());
      std::shuffle(perm.begin(), perm.end(), std::mt19937_64(99 + t)); // which ones
      perm.resize(n); std::shuffle(perm.begin(), perm.end(), shuffle);
      if (p == rank_) mine = perm;
    }
    for (int m : mine) { Counter* c = reg.get(kNames[m]); if (rank_ == 0) g_trace.ev(J().t("a", "get").t("name", kNames[m]).i("adr", serial(c)).t("as", c->get_name())); }
    std::vector<int> all(mine); std::sort(all.begin(), all.end());
    for (int i = Rnd(0, 40); i > 0; --i) {
      const int p = Rnd(0, ranks - 1), m = all[Rnd(0, n - 1)]; const long long v = Val(); const bool reset = Rnd(0, 15) == 0;
      if (p == rank_) { if (reset) reg.get(kNames[m])->reset(); else reg.get(kNames[m])->add(v); }
      if (rank_ == 0) { if (reset) g_trace.ev(J().t("a", "reset").i("p", p + 1).t("name", kNames[m])); else g_trace.ev(J().t("a", "add").i("p", p + 1).t("name", kNames[m]).raw("v", L(v))); }
    }
    const bool map = Rnd(0, 1), whole = Rnd(0, 1);
    std::vector<CounterResult> r; int root = 0;
    if (whole) { if (map) for (auto& x : reg.gather_statistics_map()) r.push_back(x.second); else r = reg.gather_statistics(); }
    else { root = Rnd(0, ranks - 1); for (int m : all) { auto x = reg.get(kNames[m])->gather_statistics(MPI_COMM_WORLD, root); if (x) r.push_back(*x); } }
    int own = rank_ == root ? 0 : (int)r.size(), others = 0;
    MPI_Allreduce(&own, &others, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    std::string text = rank_ == root ? Results(r) : "";
    if (root != 0) { // send the text to process 0
      if (rank_ == root) { int len = (int)text.size(); MPI_Send(&len, 1, MPI_INT, 0, 7, MPI_COMM_WORLD); MPI_Send(text.data(), len, MPI_CHAR, 0, 8, MPI_COMM_WORLD); }
      if (rank_ == 0) { int len = 0; MPI_Recv(&len, 1, MPI_INT, root, 7, MPI_COMM_WORLD, MPI_STATUS_IGNORE); text.resize(len); MPI_Recv(&text[0], len, MPI_CHAR, root, 8, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }
    }
    if (rank_ == 0) { g_trace.ev(J().t("a", "gather").i("root", root + 1).raw("results", text).i("others", others)); g_trace.finish(); }
  }
}
int main(int, char** argv) {
  MPI_Init(nullptr, nullptr);
  MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  vg::rng().seed(vh::seed());
  const int n = vh::thorough() ? 3000 : 300;
  std::string path = argv[1];
  if (ranks > 1) path += "." + std::to_string(rank_);
  vh::install(g_trace, path.c_str(), 300);
  if (ranks == 1) Single(n); else Parallel(n);
  std::fclose(g_trace.out);
  if (rank_ == 0) std::printf("%lld traces\n", g_trace.count);
  MPI_Finalize();
}
