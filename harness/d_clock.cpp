// Time limits: wherever inside a call the limit strikes, the call ends in good order.
#include "mon.hpp"
#include "clock.hpp"
#include "CglZeroHalf.hpp"
// the hook in Cgl012cut.cpp (CGL_VERIF_HOOKS); without it the clock is looked at every 1024th time
extern int cglVerifTimeCheckPollInterval __attribute__((weak));
namespace vm {
static void pollEvery(int n)
{
  if (&cglVerifTimeCheckPollInterval)
    cglVerifTimeCheckPollInterval = n;
}

// enough work for the clock to be looked at a few times
static Model busy(Rng &r, bool large)
{
  Model m;
  m.family = "busy";
  int n = large ? r.in(18, 30) : r.in(11, 20);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, r.p(0.8) ? -1 : -r.in(1, 3));
  double dens = r.pick(std::vector<double> { 0.3, 0.5, 0.8, 1.0 });
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      if (r.p(dens)) {
        double f = r.p(0.9) ? 1 : 3;
        m.addRow({ { i, f }, { j, f } }, -INF, f);
      }
  for (int k = r.below(n); k > 0; k--) { // rows that have to be weakened
    std::vector<std::pair<int, double>> q;
    std::vector<char> in(n, 0);
    int len = r.in(3, 5);
    double act = 0;
    for (int t = 0; t < len; t++) {
      int j = r.below(n);
      if (in[j])
        continue;
      in[j] = 1;
      double a = r.pick(std::vector<double> { 1, 1, 1, 2, -1, 3 });
      q.push_back({ j, a });
      act += a;
    }
    double half = 0.5 * act;
    if (half < 0)
      m.addRow(q, floor(half), INF);
    else
      m.addRow(q, -INF, ceil(half) + (r.p(0.2) ? 1 : 0));
  }
  return m;
}

// A limit that has struck long before the work is done does cut the call short.
static void honoured(Env &env, uint64_t salt)
{
  long cuts[2] = { 0, 0 }, looks[2] = { 0, 0 };
  int models = 0;
  if (!&cglVerifTimeCheckPollInterval) {
    env.stat("hook_missing");
    return;
  }
  pollEvery(1);
  Rng fixed(7717 + salt);
  for (int t = 0; t < 60; t++) {
    Model m = busy(fixed, true);
    OsiClpSolverInterface si;
    m.load(si);
    si.initialSolve();
    if (!si.isProvenOptimal())
      continue;
    models++;
    for (int k = 0; k < 2; k++) {
      CglZeroHalf z;
      z.setMaxSeconds(5.0);
      z.refreshSolver(&si);
      OsiCuts cs;
      CglTreeInfo info;
      ClockScope c(k ? 1 : 1L << 60);
      z.generateCuts(si, cs, info);
      cuts[k] += cs.sizeRowCuts();
      looks[k] += fakeClock.polls;
    }
  }
  pollEvery(1024);
  env.note(fmt("%d fixed models: %ld cuts, %ld looks at the clock; out of time at once: %ld cuts, %ld looks", models, cuts[0], looks[0], cuts[1], looks[1]));
  env.stat("limits_honoured_probes");
  env.hit(salt);
  env.sample(env.log);
  if (cuts[1] >= cuts[0])
    env.violation("zerohalf:ignored", "a limit that struck at once did not stop the calls: " + env.log);
}

static void fC23(Env &env, Rng &r)
{
  if (env.caseId < 3) {
    honoured(env, env.caseId);
    return;
  }
  const GenSpec &g = *findGen("zerohalf");
  Ctx c;
  PrepOpt po;
  po.pNode = 0.3;
  bool large = r.p(0.1);
  if (r.p(0.85)) {
    c.m = busy(r, large);
    c.family = "busy";
    po.given = true;
  }
  if (!prepare(r, g, c, po)) {
    env.stat("lp_not_optimal");
    return;
  }
  CglZeroHalf proto;
  if (r.p(0.4))
    proto.setSepGraphSparseThreshold(r.pick(std::vector<int> { 0, 1, 10, 1000 }));
  struct Restore {
    ~Restore() { pollEvery(1024); }
  } restore;
  int every = r.pick(std::vector<int> { 1, 1, 1, 2, 7, 1024 });
  pollEvery(every);
  double limit = r.pick(std::vector<double> { 0.5, 1, 10, 100, 3599 });
  env.note(fmt("zerohalf limit %g s, clock looked at every %d times", limit, every));
  env.note(ctxStr(c));
  auto fresh = [&](double lim) {
    CglZeroHalf *z = new CglZeroHalf(proto);
    z->setMaxSeconds(lim);
    z->refreshSolver(c.si.get());
    return std::unique_ptr<CglZeroHalf>(z);
  };
  auto call = [&](CglZeroHalf &z, long strike, long &polls) {
    OsiCuts cs;
    ClockScope k(strike);
    z.generateCuts(*c.si, cs, c.info);
    polls = fakeClock.polls;
    return linsOf(cs);
  };
  const long never = 1L << 60;
  long polls = 0, p0 = 0;
  auto full = call(*fresh(limit), never, polls);
  // no limit: the clock is of no concern
  auto none = call(*fresh(0.0), r.in(0, 2), p0);
  env.stat("calls", 2);
  if (canon(none) != canon(full))
    env.violation("zerohalf:nolimit", fmt("%d cuts without a limit, %d with a limit that never strikes", static_cast<int>(none.size()), static_cast<int>(full.size())));
  env.stat(polls > 1 ? "models_the_clock_is_polled_on" : "models_too_small_to_poll");
  if (polls < 2)
    return;
  Oracle o(c.m, c.nlb, c.nub);
  int tries = r.in(1, 3);
  for (int t = 0; t < tries; t++) {
    // the first look at the clock is the start of the call
    long at = 1 + r.below(static_cast<int>(polls - 1)), used = 0;
    auto z = fresh(limit);
    auto cut = call(*z, at, used);
    env.stat("calls");
    env.stat("limits_struck");
    env.note(fmt("limit strikes at look %ld of %ld: %d of %d cuts", at + 1, polls, static_cast<int>(cut.size()), static_cast<int>(full.size())));
    for (auto &l : cut) {
      bool bad = false;
      for (auto &e : l.a)
        bad = bad || e.first < 0 || e.first >= c.m.n;
      Witness w;
      int v = bad ? 1 : o.violated(l, w);
      env.stat(v < 0 ? "cuts_inconclusive" : "cuts_checked");
      if (v > 0)
        env.violation("zerohalf:cut", l.str() + fmt(" removes a feasible point by %.9g:", w.viol) + pointStr(w.x.data(), static_cast<int>(w.x.size())));
    }
    if (cut.size() < full.size())
      env.stat("calls_cut_short");
    else
      env.stat("calls_complete_anyway");
    // having found the time used up, the call ends instead of going on looking
    if (polls - at > 40 && used > at + (polls - at) / 2)
      env.violation("zerohalf:goeson", fmt("looked at the clock %ld times after the limit had struck (%ld without a limit)", used - at, polls - at));
    if (polls - at > 40)
      env.stat("stops_checked");
    // the object is as good as new
    std::unique_ptr<CglZeroHalf> y;
    int how = r.below(4);
    if (how == 0)
      y.reset(new CglZeroHalf(*z));
    else if (how == 1) {
      y = fresh(0.0);
      *y = *z;
    }
    if (how == 2)
      z->refreshSolver(c.si.get());
    CglZeroHalf &again = y ? *y : *z;
    if (y)
      y->refreshSolver(c.si.get());
    bool without = r.p(0.3);
    if (without)
      again.setMaxSeconds(0.0);
    long p2;
    auto next = call(again, without ? 1 : never, p2); // without a limit an hour does no harm
    env.stat("calls");
    env.stat("next_calls_compared");
    if (canon(next) != canon(full))
      env.violation("zerohalf:next", fmt("%d cuts from the call after the one that ran out of time (%d in a fresh object)", static_cast<int>(next.size()), static_cast<int>(full.size())));
  }
  env.hit(mix(hashModel(c.m), static_cast<uint64_t>(polls)));
  env.sample(env.log);
  leakCheck(env);
}
static Driver dC23("C23", fC23);
} // namespace vm
