// Drives the real time integration stack - SubcycleFineFirstSolver and
// NoSubcycleSolver over DimensionalSplitLevelIntegrator with the real splitting
// methods, optionally inside SplitSystemSourceLevelIntegrator - over a context
// that records every operation, keeps the books of conserved mass, and chooses
// fluxes, regrids, stable steps and failures.
#include "vh.hpp"

#include "fub/core/type_traits.hpp"
#include "fub/Meta.hpp"
#include "fub/solver/DimensionalSplitLevelIntegrator.hpp"
#include "fub/solver/NoSubcycleSolver.hpp"
#include "fub/solver/SplitSystemSourceLevelIntegrator.hpp"
#include "fub/solver/SubcycleFineFirstSolver.hpp"
#include "fub/counter/CounterRegistry.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"

#include <boost/log/core.hpp>
#include <memory>
#include <optional>

using fub::Duration;
using fub::Direction;
template <class T> using Res = fub::Result<T, fub::TimeStepTooLarge>;
using Sub = std::pair<int, int>;

extern vh::Trace trace;
extern vh::Choices choose;        // failures, regrids: the branching choices
extern std::mt19937_64 noise;     // fluxes and stable steps: drawn
// Under mpirun every process follows the same script; only the stable steps
// differ between the processes, and their minimum is written down.
extern int ranks, rank_;
static int Noise(int n) { return static_cast<int>(noise() % static_cast<unsigned>(n)); }

struct Config {
  int L = 2, D = 1, n0 = 2, freq = 1;
  bool sub = true, source = false;
  std::vector<int> ratio{2, 2, 2};
  double unit = 1.0;
  int K = 576;
  int max_fails = 1;   // per run
  bool regrids = true, fails = true;
  int steps = 2;
  std::vector<long long> U{5, 7, 3}, C;
  std::string name;
  int total_fails = 0;
  int fail_odds = 2;
  std::string json() const {
    vh::J j;
    j.i("L", L).i("D", D).i("n0", n0).i("freq", freq).b("sub", sub).b("source", source)
        .l("ratio", ratio).l("U", U).l("C", C).t("name", name);
    return j.str();
  }
};
extern Config cfg;
static long long T(Duration t) { return vh::Grid(t.count(), cfg.unit); }

struct Book {  // the grid data
  int n = 0;
  std::vector<long long> U, C, reg;
  std::vector<Duration> t, regrid_t;
  std::vector<std::ptrdiff_t> cycles;
};

struct MockGridding { };
struct Opts { int regrid_frequency = 1; };
struct Ratio { int r; int max() const { return r; } };

static void EvState(vh::J& j, const Book& b) { j.i("n", b.n).l("U", b.U).l("C", b.C); }

struct MockContext {
  std::shared_ptr<Book> book = std::make_shared<Book>();
  std::shared_ptr<MockGridding> gridding = std::make_shared<MockGridding>();
  std::shared_ptr<fub::CounterRegistry> counters = std::make_shared<fub::CounterRegistry>();
  Opts opts;
  // of the sweep under way
  std::vector<Duration> split_dt, level_dt;
  std::vector<long long> f, g;
  bool in_step = false;
  long long* hooked = nullptr;
  Duration* hooked_dt = nullptr;
  std::vector<std::vector<int>>* table = nullptr;

  MockContext() {
    Book& b = *book;
    b.n = cfg.n0;
    b.U = cfg.U; b.C = cfg.C;
    const std::size_t L = static_cast<std::size_t>(cfg.L);
    b.reg.assign(L, 0);
    b.t.assign(L, Duration(0)); b.regrid_t.assign(L, Duration(-1)); b.cycles.assign(L, 0);
    split_dt.assign(L, Duration(0)); level_dt = split_dt; f.assign(L, 0); g = f;
    opts.regrid_frequency = cfg.freq;
  }
  MockContext(const MockContext& o) { *this = o; }
  MockContext(MockContext&&) = default;
  MockContext& operator=(MockContext&&) = default;
  MockContext& operator=(const MockContext& o) {
    if (this == &o) return *this;
    book = std::make_shared<Book>(*o.book);
    gridding = o.gridding; counters = o.counters; opts = o.opts;
    split_dt = o.split_dt; level_dt = o.level_dt; f = o.f; g = o.g;
    in_step = o.in_step; hooked = o.hooked; hooked_dt = o.hooked_dt; table = o.table;
    return *this;
  }
  static std::size_t Z(int i) { return static_cast<std::size_t>(i); }

  const Opts& GetOptions() const { return opts; }
  const std::shared_ptr<MockGridding>& GetGriddingAlgorithm() const { return gridding; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }
  MPI_Comm GetMpiCommunicator() const { return ranks > 1 ? MPI_COMM_WORLD : MPI_COMM_SELF; }
  std::ptrdiff_t GetCycles(int l = 0) const { return book->cycles.at(Z(l)); }
  Duration GetTimePoint(int l = 0) const { return book->t.at(Z(l)); }
  bool LevelExists(int l) const { return 0 <= l && l < book->n; }
  Ratio GetRatioToCoarserLevel(int l) const { return {l == 0 ? 1 : cfg.ratio.at(Z(l - 1))}; }
  void ResetHierarchyConfiguration(const std::shared_ptr<MockGridding>& o) { gridding = o; }
  void ResetHierarchyConfiguration(int = 0) {}

  void Count() { if (++ops > 20000) throw vh::BudgetExceeded(); }
  int ops = 0;
  vh::J E(const char* a, int lev) { Count(); vh::J j; j.t("a", a).i("lev", lev); return j; }

  void PreAdvanceHierarchy() { if (hooked) ++hooked[0]; }
  void PostAdvanceHierarchy(Duration dt) { if (hooked) { hooked[1] += 1; *hooked_dt = dt; } }

  int PreAdvanceLevel(int lev, Duration dt, Sub s) {
    Book& b = *book;
    int r = cfg.L;
    if (LevelExists(lev) && s.first == 0 && b.regrid_t[Z(lev)] != b.t[Z(lev)]) {
      int what = cfg.regrids && lev + 1 < cfg.L ? choose(lev == 0 ? 5 : 4) : 0;
      if (what == 1 && b.n < cfg.L && b.n > lev) { // a new finest level
        r = b.n;
        b.n += 1;
        const long long x = Noise(4);
        b.U[Z(r - 1)] -= x; b.C[Z(r - 1)] += x;
        b.U[Z(r)] = b.C[Z(r - 1)]; b.C[Z(r)] = 0;
      } else if (what == 2 && b.n > lev + 1) {     // finer levels vanish
        r = b.n - 1;
        b.U[Z(r)] = b.C[Z(r)] = 0;
        b.n = r;
      } else if (what == 3 && b.n > lev + 1) {     // finer level moves
        r = lev + 1;
        const long long x = Noise(5) - 2;
        b.U[Z(lev)] -= x; b.C[Z(lev)] += x; b.U[Z(r)] += x;
      } else if (what == 4) {                      // the coarsest level is distributed anew
        r = 0;
      }
      for (int k = lev; k < cfg.L; ++k) {
        b.regrid_t[Z(k)] = b.t[Z(k)];
      }
      for (int k = std::max(r, lev + 1); k < cfg.L; ++k) {
        b.t[Z(k)] = b.t[Z(lev)];
        b.cycles[Z(k)] = b.cycles[Z(lev)];
        b.regrid_t[Z(k)] = b.t[Z(lev)];
      }
    }
    if (LevelExists(lev)) level_dt[Z(lev)] = dt;
    vh::J j = E("pre", lev);
    j.i("dt", T(dt)).i("i", s.first).i("m", s.second).i("r", r);
    EvState(j, b);
    trace.ev(j);
    return r;
  }
  bool Fail() {
    if (!cfg.fails || cfg.total_fails >= cfg.max_fails) return false;
    if (choose(cfg.fail_odds) != 1) return false;
    ++cfg.total_fails;
    return true;
  }
  Res<void> PostAdvanceLevel(int lev, Duration dt, Sub s) {
    Book& b = *book;
    bool ok = !Fail();
    Duration err = 0.5 * dt;
    trace.ev(E("post", lev).i("dt", T(dt)).i("i", s.first).i("m", s.second).b("ok", ok).i("err", T(err)));
    if (!ok) return fub::TimeStepTooLarge{err, lev};
    b.t[Z(lev)] = b.t[Z(lev)] + dt;
    b.cycles[Z(lev)] += 1;
    return boost::outcome_v2::success();
  }
  void FillGhostLayerSingleLevel(int lev) { trace.ev(E("fill", lev).i("from", lev == 0 ? -1 : -2)); }
  void FillGhostLayerTwoLevels(int lev, int from) { trace.ev(E("fill", lev).i("from", from)); }
  void ApplyBoundaryCondition(int lev, Direction d) { trace.ev(E("bc", lev).i("dir", int(d))); }
  void PreSplitStep(int lev, Duration dt, Direction d, Sub s) {
    split_dt[Z(lev)] = dt;
    trace.ev(E("split", lev).i("dir", int(d)).i("dt", T(dt)).i("i", s.first));
  }
  Duration ComputeStableDt(int lev, Direction d) {
    if (table) return Duration((*table)[Z(lev)][Z(int(d))] * cfg.unit);
    const Duration dt = split_dt[Z(lev)];
    Duration val = Fail() ? Duration(dt - Duration(cfg.unit)) : Noise(2) ? dt : Duration(2 * dt);
    const int who = Noise(ranks); // has the smallest one
    trace.ev(E("stable", lev).i("dir", int(d)).i("val", T(val)));
    return rank_ == who ? val : Duration(val + Duration((1 + (rank_ + who) % 3) * dt));
  }
  void ComputeNumericFluxes(int lev, Duration dt, Direction d) {
    f[Z(lev)] = Noise(5) - 2;
    g[Z(lev)] = Noise(5) - 2;
    trace.ev(E("flux", lev).i("dir", int(d)).i("dt", T(dt)).i("f", f[Z(lev)]).i("g", g[Z(lev)]));
  }
  void UpdateConservatively(int lev, Duration dt, Direction d) {
    Book& b = *book;
    const long long x = LevelExists(lev + 1) ? T(dt) * f[Z(lev)] : 0;
    b.U[Z(lev)] += (lev > 0 ? T(dt) * g[Z(lev)] : 0) - x;
    b.C[Z(lev)] += x;
    trace.ev(E("update", lev).i("dir", int(d)).i("dt", T(dt)));
  }
  void CompleteFromCons(int lev, Duration dt) { trace.ev(E("complete", lev).i("dt", T(dt))); }
  void AccumulateCoarseFineFluxes(int lev, double scale, Direction d) {
    Book& b = *book;
    const long long w = vh::Grid(scale, cfg.unit);
    if (lev > 0) b.reg[Z(lev)] -= w * g[Z(lev)];
    if (LevelExists(lev + 1)) b.reg[Z(lev + 1)] += w * f[Z(lev)];
    trace.ev(E("accum", lev).i("dir", int(d)).i("dt", w));
  }
  void ResetCoarseFineFluxes(int fine, int coarse) {
    if (0 <= fine && fine < cfg.L) book->reg[Z(fine)] = 0;
    trace.ev(E("reset", fine).i("from", coarse));
  }
  void ApplyFluxCorrection(int fine, int coarse, Duration dt) {
    if (LevelExists(fine)) book->U.at(Z(coarse)) += book->reg[Z(fine)];
    trace.ev(E("correct", fine).i("from", coarse).i("dt", T(dt)));
  }
  void CoarsenConservatively(int fine, int coarse) {
    Book& b = *book;
    if (LevelExists(fine)) b.C.at(Z(coarse)) = b.U[Z(fine)] + b.C[Z(fine)];
    trace.ev(E("coarsen", fine).i("from", coarse));
  }
  void CopyDataToScratch(int) {}
  void CopyScratchToData(int lev) { trace.ev(E("copy", lev)); }
};

// A source term with all the hooks; Flavour selects the optional signatures.
template <int Flavour> struct MockSource {
  static constexpr int Rank = 1;
  long long* hooked = nullptr;
  Duration* hooked_dt = nullptr;
  std::vector<int>* table = nullptr;
  static vh::J E(const char* a, int lev) { vh::J j; j.t("a", a).i("lev", lev); return j; }
  Duration Stable(int lev) const {
    return Duration((*table)[static_cast<std::size_t>(lev)] * cfg.unit);
  }
  template <int F = Flavour, typename = std::enable_if_t<F == 0>>
  Duration ComputeStableDt(const MockContext&, int lev) { return Stable(lev); }
  template <int F = Flavour, typename = std::enable_if_t<F == 1>>
  Duration ComputeStableDt(int lev) { return Stable(lev); }
  void PreAdvanceHierarchy() { if (hooked) ++hooked[0]; }
  void PostAdvanceHierarchy(Duration dt) { if (hooked) { ++hooked[1]; *hooked_dt = dt; } }
  void PreAdvanceLevel(int lev, Duration dt, Sub s) {
    trace.ev(E("shook", lev).t("w", "pre").i("dt", T(dt)).i("i", s.first).i("m", s.second).b("ok", true).i("err", 0));
  }
  // flavour 1 has no result
  std::conditional_t<Flavour == 0, Res<void>, void> PostAdvanceLevel(int lev, Duration dt, Sub s) {
    bool ok = true;
    if (Flavour == 0 && cfg.fails && cfg.total_fails < cfg.max_fails && choose(cfg.fail_odds) == 1) { ok = false; ++cfg.total_fails; }
    Duration err = 0.25 * dt;
    trace.ev(E("shook", lev).t("w", "post").i("dt", T(dt)).i("i", s.first).i("m", s.second).b("ok", ok).i("err", T(err)));
    if constexpr (Flavour == 0) {
      if (!ok) return fub::TimeStepTooLarge{err, lev};
      return boost::outcome_v2::success();
    }
  }
  Res<void> AdvanceLevel(MockContext&, int lev, Duration dt) {
    bool ok = true;
    if (cfg.fails && cfg.total_fails < cfg.max_fails && choose(cfg.fail_odds) == 1) { ok = false; ++cfg.total_fails; }
    Duration err = 0.5 * dt;
    trace.ev(E("source", lev).i("dt", T(dt)).b("ok", ok).i("err", T(err)));
    if (!ok) return fub::TimeStepTooLarge{err, lev};
    return boost::outcome_v2::success();
  }
};

template <class Solver> MockContext& Ctx(Solver& s) { return s.GetContext(); }

template <class Solver, class GetSource>
void Run(Solver proto, GetSource&& get_source) {
  std::optional<Solver> cur(proto), backup;
  Duration dt(cfg.K * cfg.unit);
  for (int step = 0; step < cfg.steps; ++step) {
    backup.reset();
    backup.emplace(*cur);
    // the stable step of the hierarchy
    {
      std::vector<std::vector<int>> tab;
      std::vector<int> st;
      std::vector<std::string> txt;
      for (int k = 0; k < cfg.L; ++k) {
        tab.emplace_back();
        for (int d = 0; d < cfg.D; ++d) tab.back().push_back(1 + Noise(40));
        vh::J j; j.l("x", tab.back());
        txt.push_back(j.str().substr(5, j.str().size() - 6));
        st.push_back(1 + Noise(60));
      }
      Ctx(*cur).table = &tab;
      const auto st0 = st;
      const int owner = Noise(ranks); // of the smaller steps
      if (rank_ != owner) { for (auto& r : tab) for (int& x : r) x += 1 + rank_; for (int& x : st) x += 2; }
      if (auto* s = get_source(*cur)) s->table = &st;
      Duration val = cur->ComputeStableDt();
      Ctx(*cur).table = nullptr;
      vh::J j; j.t("a", "hsdt").i("val", T(val)).raw("tab", vh::List(txt)).l("src", st0);
      trace.ev(j);
    }
    long long hs[2] = {0, 0}, hc[2] = {0, 0};
    Duration ds{}, dc{};
    Ctx(*cur).hooked = hc; Ctx(*cur).hooked_dt = &dc;
    if (auto* s = get_source(*cur)) { s->hooked = hs; s->hooked_dt = &ds; }
    cur->PreAdvanceHierarchy();
    if (hc[0] != 1 || (get_source(*cur) && hs[0] != 1)) {
      vh::J j; j.t("a", "hooks").i("sys", hc[0]).i("src", hs[0]).i("dt", 0).i("want", 0);
      trace.ev(j);
    }
    vh::J b; b.t("a", "begin").i("dt", T(dt));
    trace.ev(b);
    cfg.total_fails = step == 0 ? 0 : cfg.total_fails;
    auto r = cur->AdvanceHierarchy(dt);
    vh::J e; e.t("a", "end").b("ok", bool(r));
    if (r) {
      e.i("err", 0).i("lev", 0);
      trace.ev(e);
      cur->PostAdvanceHierarchy(dt);
      if (get_source(*cur)) { if (T(ds) != T(dt)) dc = ds; } else hs[1] = 1;
      vh::J j; j.t("a", "hooks").i("sys", hc[1]).i("src", hs[1]).i("dt", T(dc)).i("want", T(dt));
      trace.ev(j);
    } else {
      e.i("err", T(r.error().dt)).i("lev", r.error().level);
      trace.ev(e);
      cur.reset();
      cur.emplace(*backup);
      const Book& k = *Ctx(*cur).book;
      std::vector<long long> ts;
      for (auto t : k.t) ts.push_back(T(t));
      vh::J j; j.t("a", "restore"); EvState(j, k); j.l("t", ts).i("cyc", k.cycles[0]);
      trace.ev(j);
      dt = Duration(0.5 * dt);
    }
    Ctx(*cur).hooked = nullptr;
    if (auto* s = get_source(*cur)) s->hooked = nullptr;
  }
}

struct NoSource { std::vector<int>* table; long long* hooked; Duration* hooked_dt; };

template <int R, class Split, class SrcSplit, int Flavour>
void Dispatch(Split split, SrcSplit ss) {
  using Sys = fub::DimensionalSplitLevelIntegrator<R, MockContext, Split>;
  using Src = MockSource<Flavour>;
  using Both = fub::SplitSystemSourceLevelIntegrator<Sys, Src, SrcSplit>;
  Sys sys(fub::int_c<R>, MockContext(), split);
  try {
    if (cfg.source) {
      Both both(sys, Src{}, ss);
      auto get = [](auto& s) -> Src* { return &s.GetLevelIntegrator().GetSource(); };
      if (cfg.sub) Run(fub::SubcycleFineFirstSolver<Both>(both), get);
      else Run(fub::NoSubcycleSolver<Both>(both), get);
    } else {
      auto get = [](auto&) -> NoSource* { return nullptr; };
      if (cfg.sub) Run(fub::SubcycleFineFirstSolver<Sys>(sys), get);
      else Run(fub::NoSubcycleSolver<Sys>(sys), get);
    }
  } catch (const vh::BudgetExceeded&) {
    vh::J j; j.t("a", "runaway"); trace.ev(j);
  } catch (const std::exception& e) {
    vh::J j; j.t("a", "exception"); trace.ev(j);
  }
}

static fub::AnySplitMethod Any(int k) {
  if (k == 0) return fub::GodunovSplitting();
  if (k == 1) return fub::StrangSplitting();
  return fub::StrangSplittingLumped();
}

template <int R> void ByRank(int split, int ssplit) {
  const bool fl = Noise(2);
  auto go = [&](auto s) {
    if (ssplit == 0) fl ? Dispatch<R, decltype(s), fub::GodunovSplitting, 0>(s, {}) : Dispatch<R, decltype(s), fub::GodunovSplitting, 1>(s, {});
    else if (ssplit == 1) fl ? Dispatch<R, decltype(s), fub::StrangSplitting, 0>(s, {}) : Dispatch<R, decltype(s), fub::StrangSplitting, 1>(s, {});
    else Dispatch<R, decltype(s), fub::AnySplitMethod, 0>(s, Any(ssplit - 2));
  };
  switch (split) {
  case 0: go(fub::GodunovSplitting()); break;
  case 1: go(fub::StrangSplitting()); break;
  case 2: go(fub::StrangSplittingLumped()); break;
  default:
    // AnySplitMethod only offers the two operator form
    if constexpr (R == 2) go(Any(split - 3)); else go(fub::StrangSplitting());
    break;
  }
}

// compiled in parts: the drivers for 1, 2 and 3 directions, and main
void ByRank1(int, int), ByRank2(int, int), ByRank3(int, int);
#if PART == 1
void ByRank1(int a, int b) { ByRank<1>(a, b); }
#elif PART == 2
void ByRank2(int a, int b) { ByRank<2>(a, b); }
#elif PART == 3
void ByRank3(int a, int b) { ByRank<3>(a, b); }
#else
vh::Trace trace;
vh::Choices choose;
std::mt19937_64 noise(1);
int ranks = 1, rank_ = 0;
Config cfg;
static void One(int split, int ssplit) {
  cfg.C.assign(static_cast<std::size_t>(cfg.L), 0);
  cfg.U.assign(static_cast<std::size_t>(cfg.L), 0);
  for (int k = cfg.n0 - 1; k >= 0; --k) {
    cfg.U[std::size_t(k)] = 5 + 2 * k;
    if (k + 1 < cfg.n0) cfg.C[std::size_t(k)] = cfg.U[std::size_t(k) + 1] + cfg.C[std::size_t(k) + 1];
  }
  cfg.total_fails = 0;
  cfg.name = std::to_string(split) + "/" + std::to_string(ssplit);
  trace.start(cfg.json());
  if (cfg.D == 1) ByRank1(split, ssplit);
  else if (cfg.D == 2) ByRank2(split, ssplit);
  else ByRank3(split, ssplit);
  trace.finish();
}

int main(int argc, char** argv) {
  if (argc < 2) return 2;
  boost::log::core::get()->set_logging_enabled(false);
  MPI_Init(nullptr, nullptr);
  MPI_Comm_size(MPI_COMM_WORLD, &ranks);
  MPI_Comm_rank(MPI_COMM_WORLD, &rank_);
  const std::string file = ranks > 1 ? argv[1] + ("." + std::to_string(rank_)) : std::string(argv[1]);
  std::set<std::size_t> seen;
  trace.dedup = &seen;
  vh::install(trace, file.c_str(), ranks > 1 ? 100 : vh::thorough() ? 3000 : 300);
  noise.seed(vh::seed() * 7919);
  const bool deep = vh::thorough();
  long long exhaustive = 0, random = 0, capped = 0;
  // every placement of one failure and one regrid in small hierarchies
  struct Small { int L, D, n0; bool sub, src; int split, ssplit, steps; };
  std::vector<Small> small;
  for (bool sub : {true, false})
    for (int split : {0, 1, 2, 4}) {
      small.push_back({2, 1, 2, sub, false, split, 0, 2});
      small.push_back({2, 2, 2, sub, false, split, 0, 1});
      small.push_back({3, 1, 3, sub, false, split, 0, 1});
      small.push_back({3, 1, 2, sub, false, split, 0, 1});
      small.push_back({1, 3, 1, sub, false, split, 0, 2});
      small.push_back({2, 1, 2, sub, true, split, split, 1});
    }
  if (ranks > 1) small.clear();
  for (auto& s : small) {
    choose = vh::Choices{};
    long long n = 0;
    do {
      choose.restart();
      cfg = Config{};
      cfg.L = s.L; cfg.D = s.D; cfg.n0 = s.n0; cfg.sub = s.sub; cfg.source = s.src; cfg.steps = s.steps;
      noise.seed(vh::seed() * 131 + static_cast<unsigned>(n));
      cfg.unit = Noise(2) ? 1.0 : 0.1;
      One(s.split, s.ssplit);
      ++n;
      if (n >= (deep ? 4000 : 150)) { ++capped; break; }
    } while (choose.advance());
    exhaustive += n;
    // spaces too large for enumeration are sampled in addition
    if (n >= (deep ? 4000 : 150)) {
      choose = vh::Choices{};
      choose.random = true;
      choose.rng.seed(vh::seed() + 77);
      for (int k = 0; k < (deep ? 2000 : 60); ++k, ++random) {
        choose.restart();
        cfg = Config{};
        cfg.L = s.L; cfg.D = s.D; cfg.n0 = s.n0; cfg.sub = s.sub; cfg.source = s.src; cfg.steps = s.steps;
        noise.seed(vh::seed() * 137 + static_cast<unsigned>(k));
        cfg.fail_odds = 6;
        One(s.split, s.ssplit);
      }
    }
  }
  choose = vh::Choices{};
  choose.random = true;
  choose.rng.seed(vh::seed() * 31 + 5);
  const int N = ranks > 1 ? (deep ? 1500 : 150) : deep ? 9000 : 600;
  for (int k = 0; k < N; ++k) {
    choose.restart();
    noise.seed(vh::seed() * 1000003 + static_cast<unsigned>(k));
    cfg = Config{};
    cfg.L = 1 + Noise(3); cfg.D = 1 + Noise(3); cfg.n0 = 1 + Noise(cfg.L);
    if (cfg.L == 3 && cfg.D == 3 && Noise(4)) cfg.D = 1 + Noise(2);
    cfg.sub = Noise(3) != 0; cfg.source = Noise(3) == 0; cfg.freq = Noise(3) ? 1 : 2;
    const double units[] = {1.0, 0.1, 1e-7, 1.0 / 3.0};
    cfg.unit = units[Noise(4)];
    cfg.ratio = {1 + Noise(3), 1 + Noise(3), 2};
    if (Noise(3)) cfg.ratio = {2, 2, 2};
    cfg.steps = 2 + Noise(2);
    // rare failures
    cfg.fails = Noise(3) == 0 || ranks > 1; cfg.fail_odds = 5 + Noise(25); cfg.max_fails = 1 + Noise(2);
    One(Noise(6), Noise(5));
    ++random;
  }
  std::printf("enumerated=%lld capped=%lld random=%lld written=%lld\n", exhaustive, capped, random, trace.count);
  std::fclose(trace.out);
  MPI_Finalize();
  return 0;
}
#endif
