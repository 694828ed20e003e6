// Runs the real fub::RunSimulation with real output classes over a mock solver
// whose behaviour (stable steps, failures, what a failed attempt leaves behind)
// is enumerated exhaustively or drawn at random; records one trace per run.
#include "vh.hpp"

#include "fub/core/type_traits.hpp"
#include "fub/RunSimulation.hpp"
#include "fub/output/AsOutput.hpp"
#include "fub/output/MultipleOutputs.hpp"
#include "fub/ext/outcome.hpp"

#include <boost/log/core.hpp>
#include <memory>

using fub::Duration;
static vh::Trace trace;
static vh::Choices choose;

struct Config {
  double unit = 1.0;
  long long final = 4, maxc = -1, num = 1, den = 1, t0 = 0, c0 = 0;
  bool backup = true, gated = true;
  struct Req { std::vector<std::ptrdiff_t> freqs; std::vector<int> ivals; };
  std::vector<Req> outs;
  double eps = 0; // smallest time step in units, 0: the default
  bool any_interval() const { for (auto& r : outs) for (int x : r.ivals) if (x > 0) return true; return false; }
  std::vector<int> ests{2, 4};
  int max_fails = 1, total_fails = 1000;
  std::string json() const {
    vh::J j;
    j.i("final", final).i("maxc", maxc).i("num", num).i("den", den).i("t0", t0).i("c0", c0)
        .b("backup", backup).b("gated", gated);
    std::vector<std::string> o;
    for (auto& r : outs) { vh::J q; q.l("freqs", r.freqs).l("ivals", r.ivals); o.push_back(q.str()); }
    j.raw("outs", vh::List(o));
    j.i("unit_inv", static_cast<long long>(std::llround(1.0 / unit)));
    return j.str();
  }
};
static Config cfg;
static int next_id, steps, fails_in_a_row, fails_total;

struct MockGrid {
  Duration time{};
  std::ptrdiff_t cycle = 0;
  int id = 0;
  int est = 0; // estimate for these contents, 0: not asked yet
  Duration GetTimePoint() const { return time; }
  std::ptrdiff_t GetCycles() const { return cycle; }
  void touch() { id = ++next_id; est = 0; }
  int estimate() {
    if (!est) est = cfg.ests[static_cast<std::size_t>(choose(static_cast<int>(cfg.ests.size())))];
    return est;
  }
};
static long long T(Duration t) { return vh::Grid(t.count(), cfg.unit); }

struct MockSolver {
  std::shared_ptr<MockGrid> grid = std::make_shared<MockGrid>();
  std::shared_ptr<fub::CounterRegistry> counters = std::make_shared<fub::CounterRegistry>();
  MockSolver() = default;
  MockSolver(const MockSolver& o) : grid(std::make_shared<MockGrid>(*o.grid)), counters(o.counters) {}
  MockSolver& operator=(const MockSolver& o) {
    grid = std::make_shared<MockGrid>(*o.grid);
    counters = o.counters;
    return *this;
  }
  MockSolver(MockSolver&&) = default;
  MockSolver& operator=(MockSolver&&) = default;
  const std::shared_ptr<MockGrid>& GetGriddingAlgorithm() const { return grid; }
  const std::shared_ptr<fub::CounterRegistry>& GetCounterRegistry() const { return counters; }
  Duration GetTimePoint() const { return grid->time; }
  std::ptrdiff_t GetCycles() const { return grid->cycle; }
  void PreAdvanceHierarchy() {
    vh::J j;
    j.t("a", "pre").i("i", grid->id);
    grid->touch();
    trace.ev(j.i("o", grid->id));
  }
  Duration ComputeStableDt() { return Duration(grid->estimate() * cfg.unit); }
  fub::Result<void, fub::TimeStepTooLarge> AdvanceHierarchy(Duration dt) {
    if (++steps > 300) throw vh::BudgetExceeded();
    vh::J j;
    j.t("a", "adv").i("i", grid->id).i("dt", T(dt)).i("est", grid->estimate());
    const int n = static_cast<int>(cfg.ests.size());
    const int outcome = fails_in_a_row < cfg.max_fails && fails_total < cfg.total_fails ? choose(1 + n) : 0;
    if (outcome == 0) {
      fails_in_a_row = 0;
      grid->time += dt;
      grid->cycle += 1;
      grid->touch();
      trace.ev(j.b("ok", true).i("err", 0).i("o", grid->id));
      return boost::outcome_v2::success();
    }
    // A failed attempt leaves a half-advanced grid behind.
    ++fails_in_a_row;
    ++fails_total;
    const int e = cfg.ests[static_cast<std::size_t>(outcome - 1)];
    if (outcome % 2) { grid->time += 0.5 * dt; } else { grid->time += dt; grid->cycle += 1; }
    grid->touch();
    trace.ev(j.b("ok", false).i("err", e).i("o", grid->id));
    return fub::TimeStepTooLarge{Duration(e * cfg.unit), 0};
  }
  void PostAdvanceHierarchy(Duration dt) {
    vh::J j;
    j.t("a", "post").i("i", grid->id).i("dt", T(dt));
    grid->touch();
    trace.ev(j.i("o", grid->id).i("t", T(grid->time)).i("c", grid->cycle));
  }
};

// one record of an output invocation
static void Record(int k, const MockGrid& g) {
  trace.ev(vh::J().t("a", "out").i("k", k).i("i", g.id).i("t", T(g.time)).i("c", g.cycle));
}

static bool RunOnce() {
  next_id = 0; steps = 0; fails_in_a_row = 0; fails_total = 0;
  choose.restart();
  trace.start(cfg.json());
  MockSolver solver;
  solver.grid->time = Duration(static_cast<double>(cfg.t0) * cfg.unit);
  solver.grid->cycle = cfg.c0;
  std::unique_ptr<fub::BasicOutput<MockGrid>> output;
  auto multiple = std::make_unique<fub::MultipleOutputs<MockGrid>>();
  int k = 0;
  for (auto& r : cfg.outs) {
    ++k;
    std::vector<Duration> iv;
    for (int x : r.ivals) iv.push_back(Duration(x * cfg.unit));
    auto fn = [k](const MockGrid& g) { Record(k, g); };
    auto one = std::make_unique<fub::AnyOutput<MockGrid>>(r.freqs, iv, fn);
    if (cfg.gated) multiple->AddOutput(std::move(one)); else output = std::move(one);
  }
  if (cfg.gated) output = std::move(multiple);
  fub::RunOptions options;
  options.final_time = Duration(static_cast<double>(cfg.final) * cfg.unit);
  options.max_cycles = cfg.maxc;
  options.cfl = static_cast<double>(cfg.num) / static_cast<double>(cfg.den);
  options.do_backup = cfg.backup;
  // output classes have a smallest step of their own; a large one of the driver
  // must not show in times that are integers
  if (cfg.eps > 0 && !cfg.any_interval()) options.smallest_time_step_size = Duration(cfg.eps * cfg.unit);
  try {
    (*output)(*solver.GetGriddingAlgorithm()); // as every application does
    fub::RunSimulation(solver, options, std::chrono::steady_clock::now(), *output);
    trace.ev(vh::J().t("a", "ret").i("i", solver.grid->id).i("t", T(solver.grid->time)).i("c", solver.grid->cycle));
  } catch (const std::exception& e) {
    trace.ev(vh::J().t("a", "exception"));
  }
  return trace.finish();
}

int main(int argc, char** argv) {
  if (argc < 2) return 2;
  boost::log::core::get()->set_logging_enabled(false);
  std::set<std::size_t> seen;
  vh::install(trace, argv[1], 600);
  const bool deep = vh::thorough();
  using Req = Config::Req;
  const std::vector<std::vector<Req>> gated{
      {}, {{{1}, {}}}, {{{2}, {}}}, {{{}, {2}}}, {{{}, {3}}}, {{{2}, {3}}}, {{{3, 2}, {}}}, {{{}, {3, 2}}},
      {{{0}, {0}}}, {{{1}, {}}, {{}, {2}}}, {{{2}, {}}, {{}, {3}}}, {{{}, {2}}, {{}, {3}}},
      {{{2}, {3}}, {{3}, {2}}, {{-1}, {}}}};
  long long configs = 0;
  for (bool backup : {true, false})
    for (int final : {0, 4, 5})
      for (int num : {1, 2})
        for (int maxc : {-1, 0, 2})
          for (int start : {0, 1}) {
            if (final == 0 && (start || num == 2)) continue;
            if (!deep && final == 5 && (num == 1 || maxc >= 0)) continue;
            if (maxc == 0 && num == 1) continue;
            for (int g = 0; g < 2; ++g)
              for (auto& o : gated) {
                if (!g && o.size() != 1) continue;
                cfg = Config{};
                cfg.backup = backup; cfg.final = final; cfg.num = num; cfg.den = 2; cfg.maxc = maxc;
                cfg.t0 = start; cfg.c0 = start; cfg.gated = g; cfg.outs = o;
                cfg.max_fails = 1; cfg.total_fails = 1;
                cfg.unit = (configs % 3 == 0) ? 1.0 : (configs % 3 == 1) ? 0.1 : 0.003;
                if (deep && configs % 4 == 0) { cfg.total_fails = 2; cfg.max_fails = 2; }
                if (configs % 2) cfg.eps = 0.375;
                ++configs;
                choose = vh::Choices{};
                do { RunOnce(); } while (choose.advance());
              }
          }
  const long long exhaustive = trace.count;
  // seeded random runs over a larger space
  trace.dedup = &seen;
  choose = vh::Choices{};
  choose.random = true;
  choose.rng.seed(vh::seed());
  auto rnd = [&](int n) { return static_cast<int>(choose.rng() % static_cast<unsigned>(n)); };
  const int runs = deep ? 20000 : 3000;
  for (int r = 0; r < runs; ++r) {
    cfg = Config{};
    cfg.backup = rnd(5) != 0;
    cfg.gated = rnd(4) != 0;
    cfg.t0 = rnd(2) ? 0 : rnd(12);
    cfg.c0 = cfg.t0 ? rnd(9) : 0;
    cfg.final = cfg.t0 + rnd(25);
    cfg.maxc = rnd(3) ? -1 : cfg.c0 + rnd(8);
    const int dens[] = {1, 2, 4};
    cfg.den = dens[rnd(3)];
    cfg.num = 1 + rnd(static_cast<int>(cfg.den));
    cfg.ests.clear();
    for (int i = 0, n = 1 + rnd(4); i < n; ++i) cfg.ests.push_back(static_cast<int>(cfg.den) * (1 + rnd(7)));
    cfg.max_fails = rnd(4); cfg.total_fails = rnd(12);
    const double units[] = {1.0, 0.1, 0.01, 1e-3, 0.25, 0.7, 3.0, 1e-5};
    cfg.unit = units[rnd(8)];
    if (rnd(2)) cfg.eps = 0.4;
    const int no = cfg.gated ? rnd(4) : 1;
    for (int i = 0; i < no; ++i) {
      Config::Req q;
      for (int f = rnd(3); f > 0; --f) q.freqs.push_back(rnd(6));
      for (int f = rnd(3); f > 0; --f) q.ivals.push_back(rnd(8));
      cfg.outs.push_back(q);
    }
    RunOnce();
  }
  std::fclose(trace.out);
  std::printf("{\"configs\":%lld,\"exhaustive\":%lld,\"random\":%lld}\n", configs, exhaustive, trace.count - exhaustive);
}
