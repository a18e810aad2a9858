// Probing: the generator for the common monitors and the C22 driver.
#include "gshim.hpp"
#include "../settings.hpp"
#include "../mon.hpp"
#include "../clock.hpp"
#include "CglProbing.hpp"
namespace vm {
static CglProbing *makeProbing(Rng &r, std::string &d)
{
  CglProbing *c = new CglProbing;
  int mode = r.in(1, 3), rows = r.pick(std::vector<int> { 0, 1, 2, 3, 3, 3, 4, -3 });
  c->setMode(mode);
  c->setRowCuts(rows);
  c->setLogLevel(0);
  d = fmt("probing mode=%d rowcuts=%d", mode, rows);
  if (r.p(0.5)) {
    int v = r.in(1, 5);
    c->setMaxPass(v);
    c->setMaxPassRoot(v);
    d += fmt(" pass=%d", v);
  }
  if (r.p(0.4)) {
    int v = r.pick(std::vector<int> { 0, 1, 3, 100 });
    c->setMaxProbe(v);
    c->setMaxProbeRoot(v);
    d += fmt(" probe=%d", v);
  }
  if (r.p(0.4)) {
    int v = r.pick(std::vector<int> { 1, 3, 10, 100 });
    c->setMaxLook(v);
    c->setMaxLookRoot(v);
    d += fmt(" look=%d", v);
  }
  if (r.p(0.3)) {
    int v = r.in(1, 6);
    c->setMaxElements(v);
    c->setMaxElementsRoot(v);
    d += fmt(" elements=%d", v);
  }
  return c;
}
static GenSpec probing()
{
  GenSpec g;
  g.name = "probing";
  g.families = { "knap", "mixed", "mixed01", "mixed01", "genint", "flow", "setpack", "setcover", "assign", "parity", "degenerate", "dup" };
  g.separates = false;
  GCOMMON(CglProbing)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglProbing *c = makeProbing(r, d);
    gbaseRand(r, *c);
    return c;
  };
  // what is tied to one model: on a copy of its own, used with that model only
  g.extra = [](Rng &r, CglCutGenerator &b, OsiClpSolverInterface &si) {
    CglProbing c(dynamic_cast<CglProbing &>(b));
    int n = si.getNumCols();
    int m = si.getNumRows();
    CglTreeInfo info;
    CoinThreadRandom random(static_cast<int>(r.below(1000000)) + 1);
    info.randomNumberGenerator = &random;
    int steps = 1 + static_cast<int>(r.below(4));
    for (int k = 0; k < steps; k++) {
      switch (r.below(6)) {
      case 0:
        c.snapshot(si, nullptr, r.p(0.5));
        break;
      case 1: {
        std::vector<char> possible(m + 1, 1);
        for (int i = 0; i < m; i++)
          possible[i] = r.p(0.7);
        c.snapshot(si, possible.data(), false);
        break;
      }
      case 2:
        c.deleteSnapshot();
        break;
      case 3:
        c.createCliques(si, 2, 1000);
        break;
      case 4:
        if (n) {
          std::vector<int> which;
          for (int j = 0; j < n; j++)
            if (r.p(0.5))
              which.push_back(j);
          if (!which.empty())
            c.tightenThese(si, static_cast<int>(which.size()), which.data());
        }
        break;
      case 5: {
        CglProbing d;
        d = c;
        CglProbing e(d);
        c = e;
        break;
      }
      }
      if (r.p(0.3))
        c.setMode(0);
      OsiCuts cs;
      c.generateCuts(si, cs, info);
      OsiClpSolverInterface copy(si);
      if (r.p(0.3))
        c.generateCutsAndModify(copy, cs, &info);
    }
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglProbing; };
  g.settings = [](const CglCutGenerator &b) {
    const CglProbing &c = dynamic_cast<const CglProbing &>(b);
    return gbase(b) + fmt("mode=%d rows=%d pass=%d,%d probe=%d,%d look=%d,%d el=%d,%d log=%d obj=%d", c.getMode(), c.rowCuts(), c.getMaxPass(), c.getMaxPassRoot(), c.getMaxProbe(), c.getMaxProbeRoot(), c.getMaxLook(), c.getMaxLookRoot(), c.getMaxElements(), c.getMaxElementsRoot(), c.getLogLevel(), c.getUsingObjective());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglProbing &c = dynamic_cast<CglProbing &>(b);
    c.setMaxPass(r.in(6, 9));
    c.setRowCuts(c.rowCuts() == 3 ? 0 : 3);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(probing());

// the caller of probing owns the rows it finds in the array, except those that are also in the
// cut collection (as CglPreProcess treats them)
struct Strengthen {
  std::vector<OsiRowCut *> p;
  OsiCuts &cs;
  Strengthen(int n, OsiCuts &c) : p(n + 1, nullptr), cs(c) {}
  ~Strengthen()
  {
    std::set<const OsiRowCut *> in;
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      in.insert(cs.rowCutPtr(i));
    for (auto q : p)
      if (!in.count(q))
        delete q;
  }
};

// Finding F02: cliques recorded by createCliques together with setMaxElements, which leaves the
// rows of the cliques out. x0 is fixed at 1 by the short row, x1 and x2 are then 0, but the cut
// x1+x2>=1 is returned.
static void probeF02(Env &env)
{
  Model m;
  for (int j = 0; j < 5; j++)
    m.addCol(0, 1, true, 1);
  m.ub[3] = 0;
  m.addRow({ { 0, 1 }, { 1, 1 }, { 2, 1 }, { 3, 1 } }, 1, 1);
  m.addRow({ { 0, 1 }, { 3, 1 } }, 1, INF);
  m.addRow({ { 4, 1 }, { 3, 1 } }, 1, INF);
  OsiClpSolverInterface si;
  m.load(si);
  si.initialSolve();
  CglProbing g;
  g.setMode(2);
  g.setRowCuts(3);
  g.setLogLevel(0);
  g.setMaxElements(2);
  g.setMaxElementsRoot(2);
  g.createCliques(si, 2, 100);
  g.refreshSolver(&si);
  OsiCuts cs;
  CglTreeInfo info;
  info.formulation_rows = m.m();
  g.generateCutsAndModify(si, cs, &info);
  Oracle o(m, m.lb, m.ub);
  for (auto &l : linsOf(cs)) {
    Witness w;
    if (o.violated(l, w) > 0)
      env.violation("probing:F02", l.str() + " removes " + pointStr(w.x.data(), m.n));
  }
}
static void fC22(Env &env, Rng &r)
{
  if (env.caseId == 0) {
    probeF02(env);
    return;
  }
  const GenSpec &g = *findGen("probing");
  Ctx c;
  PrepOpt po;
  if (!prepare(r, g, c, po)) {
    env.stat("lp_not_optimal");
    return;
  }
  // options that mean something to probing
  c.info.options = 0;
  for (int b : { 1, 4, 8, 32, 64, 128 })
    if (r.p(0.15))
      c.info.options |= b;
  if (r.p(0.15))
    c.info.options |= 16384;
  if (r.p(0.15))
    c.info.options |= 32768;
  std::string d;
  std::unique_ptr<CglProbing> gen(makeProbing(r, d));
  Model m = c.m; // what the answers are measured against
  // the objective as a constraint
  int uo = r.pick(std::vector<int> { 0, 0, 1, 1, -1 });
  gen->setUsingObjective(uo);
  double cutoff = INF;
  if (r.p(0.4)) {
    Oracle o(c.m, c.nlb, c.nub);
    double z;
    if (o.minimize(c.m.obj, z) == 1) {
      cutoff = z + r.pick(std::vector<double> { 0.25, 0.5, 1.25, 3.5, -0.5 });
      c.si->setDblParam(OsiDualObjectiveLimit, cutoff);
      if (uo >= 0) {
        std::vector<std::pair<int, double>> row;
        for (int j = 0; j < m.n; j++)
          if (m.obj[j] != 0)
            row.push_back({ j, m.obj[j] });
        m.addRow(row, -INF, cutoff - 1e-4); // a solution that only ties is not wanted
      }
    }
  }
  d += fmt(" objective=%d cutoff=%g", uo, cutoff);
  bool cl = r.p(0.15);
  if (cl) {
    int lo = r.in(2, 3);
    gen->setMaxElements(1000); // see F02
    gen->setMaxElementsRoot(1000);
    int k = gen->createCliques(*c.si, lo, 100);
    d += fmt(" cliques=%d", k);
  }
  if (r.p(0.2)) {
    std::unique_ptr<CglProbing> g2(dynamic_cast<CglProbing *>(gen->clone()));
    gen.swap(g2);
  }
  bool modify = r.p(0.5);
  bool strengthen = modify && r.p(0.5);
  d += fmt(" modify=%d strengthen=%d", modify, strengthen);
  env.note(d);
  env.note(ctxStr(c));
  OsiCuts cs;
  Strengthen st(c.m.m(), cs);
  if (strengthen) {
    c.info.strengthenRow = st.p.data();
    c.info.inTree = false;
  }
  int inf = 0;
  gen->refreshSolver(c.si.get());
  int rounds = modify ? 1 : r.in(1, 2);
  // a time limit may strike anywhere
  std::unique_ptr<ClockScope> clock;
  if (r.p(0.15)) {
    gen->setMaxSeconds(1.0);
    clock.reset(new ClockScope(r.below(9)));
    env.note(fmt("time limit strikes at look %ld", fakeClock.strikeAt + 1));
    env.stat("time_limits");
  }
  for (int t = 0; t < rounds; t++) {
    if (modify)
      inf = gen->generateCutsAndModify(*c.si, cs, &c.info);
    else
      gen->generateCuts(*c.si, cs, c.info);
    env.stat(modify ? "calls_modify" : "calls");
    c.info.pass++;
  }
  clock.reset();
  c.info.strengthenRow = nullptr;
  Oracle o(m, c.nlb, c.nub);
  env.stat(o.enumerated() ? "models_enumerated" : "models_bb");
  long seen = 0;
  std::vector<Lin> all;
  // With coefficient strengthening on, probing also moves a column that lies in one row only to the
  // end its objective prefers: then only the optimum is kept, not every feasible point.
  bool dual = false;
  if (gen->rowCuts() & 2 || gen->rowCuts() < 0) {
    std::vector<int> len(c.m.n, 0);
    for (auto &row : c.m.rows)
      for (auto &e : row)
        len[e.first]++;
    for (int j = 0; j < c.m.n; j++)
      dual = dual || (len[j] == 1 && c.m.obj[j] != 0 && c.nlb[j] < c.nub[j]);
  }
  bool verdict = inf != 0;
  for (auto &l : linsOf(cs)) {
    bool bad = false;
    for (auto &e : l.a)
      bad = bad || e.first < 0 || e.first >= m.n;
    if (bad) {
      env.violation("probing:index", "cut with an index out of range: " + l.str());
      return;
    }
    seen++;
    if (l.a.empty() && l.lo > l.up) {
      verdict = true;
      continue;
    }
    all.push_back(l);
    if (dual)
      continue;
    Witness w;
    int v = o.violated(l, w);
    env.stat(v < 0 ? "cuts_inconclusive" : l.fromCol ? "bounds_checked" : "cuts_checked");
    if (v > 0)
      env.violation(l.fromCol ? "probing:bound" : "probing:cut", d + ": " + l.str() + fmt(" removes a feasible point by %.9g:", w.viol) + pointStr(w.x.data(), m.n));
  }
  if (verdict) {
    seen++;
    std::vector<double> x;
    int f = o.feasible(&x);
    env.stat(f == 0 ? "infeasible_confirmed" : "infeasible_inconclusive", f != 1);
    if (f == 1)
      env.violation("probing:infeasible", d + ": declared infeasible, but this is feasible:" + pointStr(x.data(), m.n));
  } else {
    // bounds, cuts and rows together keep an optimal solution, and admit nothing new
    const double *lo = modify ? gen->tightLower() : nullptr, *up = modify ? gen->tightUpper() : nullptr;
    std::vector<double> l2 = c.nlb, u2 = c.nub;
    int changed = 0;
    for (int j = 0; lo && j < m.n; j++) {
      if (lo[j] > l2[j] + 1e-9)
        l2[j] = lo[j], changed++;
      if (up[j] < u2[j] - 1e-9)
        u2[j] = up[j], changed++;
    }
    for (int j = 0; j < m.n && !dual; j++)
      for (int k = 0; k < 2; k++) {
        if (k ? u2[j] == c.nub[j] : l2[j] == c.nlb[j])
          continue;
        Lin l;
        l.a = { { j, 1.0 } };
        (k ? l.up : l.lo) = k ? u2[j] : l2[j];
        Witness w;
        int q = o.violated(l, w);
        env.stat(q < 0 ? "tight_inconclusive" : "tight_checked");
        if (q > 0)
          env.violation("probing:tight", d + fmt(": %s bound of x%d tightened to %.12g removes a feasible point:", k ? "upper" : "lower", j, k ? u2[j] : l2[j]) + pointStr(w.x.data(), m.n));
      }
    Model n2 = m;
    for (int i = 0; i < c.m.m(); i++) {
      if (!st.p[i])
        continue;
      Lin l = linOf(*st.p[i]);
      changed++;
      env.stat("rows_strengthened");
      Witness w;
      int q = dual ? 0 : o.violated(l, w);
      if (q > 0)
        env.violation("probing:row", d + fmt(": row %d strengthened to ", i) + l.str() + fmt(" removes a feasible point by %.9g:", w.viol) + pointStr(w.x.data(), m.n));
      n2.rows[i] = l.a;
      n2.rlb[i] = l.lo;
      n2.rub[i] = l.up;
    }
    for (auto &l : all) {
      changed++;
      double t = 1e-6;
      for (auto &e : l.a)
        t += 2e-6 * std::fabs(e.second);
      n2.addRow(l.a, l.lo <= -1e20 ? l.lo : l.lo - t, l.up >= 1e20 ? l.up : l.up + t);
    }
    bool ok = true;
    for (int j = 0; j < m.n; j++)
      ok = ok && l2[j] <= u2[j] + 1e-9;
    for (int j = 0; j < m.n; j++)
      u2[j] = std::max(u2[j], l2[j]);
    if (changed) {
      seen++;
      double z = 0, z2 = 0;
      std::vector<double> x;
      int f = o.minimize(m.obj, z, &x);
      Oracle o2(n2, l2, u2);
      int f2 = ok ? o2.minimize(m.obj, z2) : 0;
      if (f == 1 && f2 >= 0) {
        env.stat("optimum_compared");
        if (f2 == 0 || z2 > z + 1e-5 * (1 + std::fabs(z))) {
          for (auto &l : all)
            env.note(l.str());
          env.note("lower" + pointStr(l2.data(), m.n));
          env.note("upper" + pointStr(u2.data(), m.n));
          env.violation("probing:optimum", d + fmt(": optimum %.9g becomes %s %.9g; lost:", z, f2 ? "" : "none", z2) + pointStr(x.data(), m.n));
        }
      } else
        env.stat("optimum_inconclusive");
      for (int i = 0; i < c.m.m() && f2 == 1; i++) {
        if (!st.p[i])
          continue;
        Lin l;
        l.a = c.m.rows[i];
        l.lo = c.m.rlb[i];
        l.up = c.m.rub[i];
        Witness w;
        int q = o2.violated(l, w);
        env.stat(q < 0 ? "replaced_inconclusive" : "replaced_checked");
        if (q > 0)
          env.violation("probing:newpoint", d + fmt(": with the strengthened rows in place of the old ones row %d (", i) + linOf(*st.p[i]).str() + ") no longer holds at" + pointStr(w.x.data(), m.n));
      }
    }
  }
  if (seen) {
    env.stat("cases_with_answers");
    env.hit(mix(hashModel(m), hashStr(d + pointStr(c.nlb.data(), c.m.n))));
    if (env.samples.size() < 3)
      env.sample(env.log);
  }
}
static Driver dC22("C22", fC22);
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglProbing T;
  Def<T> d("CglProbing");
  d.generator(true, false);
  d.assignable();
  // 3 to 7 are no modes
  d.add("setMode", ints(0, 2, true, true), INT(T, setMode), GET(T, getMode)).exported = true;
  d.add("setMaxPass", ints(1, 100000, false, true), INT(T, setMaxPass), GET(T, getMaxPass)).exported = true;
  d.add("setLogLevel", ints(0, 3, false, true), INT(T, setLogLevel), GET(T, getLogLevel)).exported = true;
  d.add("setMaxProbe", ints(0, 100000, false, true), INT(T, setMaxProbe), GET(T, getMaxProbe)).exported = true;
  d.add("setMaxLook", ints(0, 100000, false, true), INT(T, setMaxLook), GET(T, getMaxLook)).exported = true;
  d.add("setMaxElements", ints(1, 100000, false, true), INT(T, setMaxElements), GET(T, getMaxElements)).exported = true;
  d.add("setMaxPassRoot", ints(1, 100000, false, true), INT(T, setMaxPassRoot), GET(T, getMaxPassRoot)).exported = true;
  d.add("setMaxProbeRoot", ints(1, 100000, false, true), INT(T, setMaxProbeRoot), GET(T, getMaxProbeRoot)).exported = true;
  d.add("setMaxLookRoot", ints(1, 100000, false, true), INT(T, setMaxLookRoot), GET(T, getMaxLookRoot)).exported = true;
  d.add("setMaxElementsRoot", ints(1, 100000, false, true), INT(T, setMaxElementsRoot), GET(T, getMaxElementsRoot)).exported = true;
  d.add("setRowCuts", ints(-4, 4), INT(T, setRowCuts), GET(T, rowCuts)).exported = true;
  d.add("setUsingObjective", ints(-2, 3, true, true), INT(T, setUsingObjective), GET(T, getUsingObjective)).exported = true;
  return d.c;
}
static st::RegClass r2(settingsOf());
}
