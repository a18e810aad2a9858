// Monitors that apply to every generator: well-formed cuts (C10), user limits (C11), untouched
// solver and collection (C12), copies (C13), reuse (C14), silence (C19).
#include "mon.hpp"
#include "fill.hpp"
#include "CglClique.hpp"
#include "CglKnapsackCover.hpp"
#include "CglOddHole.hpp"
#include "CglRedSplit.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
namespace vm {

static const std::vector<std::string> ALL = { "clique", "oddhole", "knapsack", "mir", "simplerounding", "redsplit", "liftandproject", "zerohalf", "alldiff", "duprow", "stored" };

static CglTreeInfo seeded(const Ctx &c, CoinThreadRandom &rnd)
{
  CglTreeInfo i = c.info;
  i.randomNumberGenerator = &rnd;
  return i;
}
static std::vector<Lin> run(CglCutGenerator &g, Ctx &c)
{
  CoinThreadRandom rnd(1234567);
  OsiCuts cs;
  // every call sees the same solver state (OsiClp keeps factorizations between calls)
  std::unique_ptr<OsiClpSolverInterface> si = liveCopy(c);
  if (!si)
    return std::vector<Lin>();
  g.generateCuts(*si, cs, seeded(c, rnd));
  return canon(linsOf(cs));
}
static bool prep(Env &env, Rng &r, const GenSpec &g, Ctx &c, double pNode = 0.3)
{
  PrepOpt o;
  o.pNode = pNode;
  for (int t = 0; t < 4; t++) {
    if (prepare(r, g, c, o) && c.m.m() >= g.minRows)
      return true;
    c = Ctx();
  }
  env.stat("lp_not_optimal");
  return false;
}
static bool sameCuts(const std::vector<Lin> &a, const std::vector<Lin> &b)
{
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); i++)
    if (!(a[i] == b[i]) || a[i].global != b[i].global)
      return false;
  return true;
}

// ===================================================================== C10
static void fC10(Env &env, Rng &r)
{
  const GenSpec &g = pickGen(r, ALL);
  Ctx c;
  if (!prep(env, r, g, c))
    return;
  std::string d;
  std::unique_ptr<CglCutGenerator> gen(g.make(r, c.m, *c.si, d));
  env.note(d);
  env.note(ctxStr(c));
  gen->refreshSolver(c.si.get());
  OsiCuts cs;
  CoinThreadRandom rnd(r.below(100000));
  gen->generateCuts(*c.si, cs, seeded(c, rnd));
  env.stat("calls:" + g.name);
  const double *x = c.si->getColSolution();
  double minViol = g.minViolOf ? g.minViolOf(*gen, *c.si) : 0.0;
  for (int i = 0; i < cs.sizeRowCuts(); i++) {
    const OsiRowCut &rc = cs.rowCut(i);
    Lin l = linOf(rc);
    bool mark = l.a.empty() && l.lo > l.up;
    env.stat("row_cuts:" + g.name);
    std::set<int> seen;
    bool bad = false;
    for (auto &e : l.a) {
      if (e.first < 0 || e.first >= c.m.n)
        env.violation(g.name + ":index", "index out of range: " + l.str()), bad = true;
      else if (!seen.insert(e.first).second)
        env.violation(g.name + ":repeated", "column occurs twice: " + l.str()), bad = true;
      if (!std::isfinite(e.second) || fabs(e.second) > 1e20)
        env.violation(g.name + ":coefficient", "coefficient is not a number of sensible size: " + l.str()), bad = true;
    }
    if (std::isnan(l.lo) || std::isnan(l.up))
      env.violation(g.name + ":side", "side is not a number: " + l.str()), bad = true;
    if (l.lo > l.up && !mark)
      env.violation(g.name + ":crossed", "lower side above the upper: " + l.str()), bad = true;
    if (l.lo < -1e20 && l.up > 1e20)
      env.violation(g.name + ":free", "cut without any side: " + l.str()), bad = true;
    if (bad || mark)
      continue;
    if (g.separates) {
      double a = l.activity(x), s = 1;
      for (auto &e : l.a)
        s = std::max(s, fabs(e.second * x[e.first]));
      double v = std::max(l.lo - a, a - l.up);
      double tol = 1e-9 * s + 1e-7 * minViol;
      if (v < minViol - tol || (v <= 1e-12 && g.name != "knapsack"))
        env.violation(g.name + ":notviolated", fmt("violated by %.9g only (at least %.9g promised): ", v, minViol) + l.str());
    }
  }
  for (int i = 0; i < cs.sizeColCuts(); i++) {
    const OsiColCut &cc = cs.colCut(i);
    env.stat("col_cuts:" + g.name);
    for (int side = 0; side < 2; side++) {
      const CoinPackedVector &v = side ? cc.ubs() : cc.lbs();
      std::set<int> seen;
      for (int k = 0; k < v.getNumElements(); k++) {
        int j = v.getIndices()[k];
        double b = v.getElements()[k];
        if (j < 0 || j >= c.m.n) {
          env.violation(g.name + ":colindex", fmt("column cut on column %d", j));
          continue;
        }
        if (!seen.insert(j).second)
          env.violation(g.name + ":colrepeated", fmt("column %d twice in a column cut", j));
        if (!std::isfinite(b) || (side ? b > c.nub[j] : b < c.nlb[j]))
          env.violation(g.name + ":colloose", fmt("%s bound %.9g of column %d does not tighten [%g,%g]", side ? "upper" : "lower", b, j, c.nlb[j], c.nub[j]));
      }
    }
  }
  if (cs.sizeRowCuts() + cs.sizeColCuts()) {
    env.hit(mix(hashModel(c.m), hashStr(d + pointStr(x, c.m.n))));
    env.sample(env.log);
  }
}
static Driver dC10("C10", fC10);

// ===================================================================== C11
// the model without the rows the user excluded
static Model without(const Model &m, const std::vector<char> &drop)
{
  Model k = m;
  k.rows.clear();
  k.rlb.clear();
  k.rub.clear();
  for (int i = 0; i < m.m(); i++)
    if (!drop[i])
      k.addRow(m.rows[i], m.rlb[i], m.rub[i]);
  return k;
}
static void excluded(Env &env, const std::string &who, const Ctx &c, const std::vector<char> &drop, const std::vector<Lin> &cuts)
{
  if (cuts.empty())
    return;
  Model k = without(c.m, drop);
  Oracle o(k, c.nlb, c.nub);
  std::string t = "rows left:";
  for (int i = 0; i < c.m.m(); i++)
    if (!drop[i])
      t += fmt(" %d", i);
  for (auto &l : cuts) {
    Witness w;
    int v = o.violated(l, w);
    env.stat(v < 0 ? "cuts_inconclusive" : "row_restrictions_checked");
    if (v > 0)
      env.violation(who + ":excludedrow", "cut uses a row the user excluded: " + l.str() + " is violated where only the permitted rows hold:" + pointStr(w.x.data(), c.m.n) + "; " + t);
  }
}
static void fC11(Env &env, Rng &r)
{
  const GenSpec &g = pickGen(r, { "clique", "oddhole", "oddhole", "knapsack", "knapsack", "redsplit", "redsplit", "stored" });
  Ctx c;
  if (!prep(env, r, g, c))
    return;
  std::unique_ptr<CglCutGenerator> gen;
  std::string d;
  std::vector<char> drop(c.m.m(), 0);
  bool restricted = false;
  int maxEntries = 1 << 30;
  double minViol = 0, maxRatio = INF, maxRatioLub = INF, lub = INF, away = -1;
  bool none = false;
  if (g.name == "oddhole") {
    CglOddHole *o = new CglOddHole;
    gen.reset(o);
    minViol = 0.001;
    if (r.p(0.6))
      o->setMinimumViolation(minViol = r.pick(std::vector<double> { 1e-6, 1e-4, 0.05, 0.1, 0.2, 0.5 }));
    if (r.p(0.5))
      o->setMinimumViolationPer(r.pick(std::vector<double> { 1e-6, 0.01 }));
    maxEntries = 100;
    if (r.p(0.6))
      o->setMaximumEntries(maxEntries = r.in(3, 7));
    if (r.p(0.5)) {
      std::vector<int> which(c.m.m() + 1);
      for (int i = 0; i < c.m.m(); i++) {
        which[i] = r.p(0.6);
        drop[i] = !which[i];
      }
      restricted = true;
      o->createRowList(c.m.m(), which.data());
    }
    d = fmt("oddhole minviol=%g entries=%d rowlist=%d", minViol, maxEntries, restricted);
  } else if (g.name == "clique") {
    bool orig = r.p(0.5);
    CglClique *q = new CglClique(false, orig);
    gen.reset(q);
    if (orig && c.m.m() > 1 && r.p(0.7)) { // the last rows are cuts somebody added
      c.info.inTree = true;
      c.info.formulation_rows = r.in(1, c.m.m() - 1);
      for (int i = c.info.formulation_rows; i < c.m.m(); i++)
        drop[i] = 1;
      restricted = true;
    }
    q->setStarCliqueReport(false);
    q->setRowCliqueReport(false);
    q->setMinViolation(minViol = r.pick(std::vector<double> { 1e-6, 1e-3, 0.05, 0.1, 0.2, 0.4, 0.9 }));
    bool s = r.p(0.5), w = r.p(0.5);
    q->setDoStarClique(s);
    q->setDoRowClique(w);
    none = !s && !w;
    d = fmt("clique minviol=%g star=%d row=%d original=%d first=%d", minViol, s, w, orig, c.info.formulation_rows);
  } else if (g.name == "knapsack") {
    CglKnapsackCover *k = new CglKnapsackCover;
    gen.reset(k);
    if (r.p(0.5))
      k->switchOnExpensive();
    int mx = 50;
    if (r.p(0.5))
      k->setMaxInKnapsack(mx = r.in(2, 6));
    std::vector<int> which;
    bool list = r.p(0.6) && c.m.m() > 0;
    if (list) {
      for (int i = 0; i < c.m.m(); i++)
        if (r.p(0.5))
          which.push_back(i);
      if (which.empty())
        which.push_back(r.below(c.m.m()));
      k->setTestedRowIndices(static_cast<int>(which.size()), which.data());
    }
    for (int i = 0; i < c.m.m(); i++) {
      int loose = 0;
      bool clique = true;
      for (auto &e : c.m.rows[i]) {
        int j = e.first;
        if (c.nub[j] > c.nlb[j])
          loose++;
        if (fabs(e.second) != 1.0 || !c.m.isInt[j] || c.m.lb[j] < 0 || c.m.ub[j] > 1)
          clique = false;
      }
      // variable bounds and cliques of other rows may still serve to strengthen a cut
      bool helper = clique || c.m.rows[i].size() <= 2 || loose <= 2;
      bool tested = !list || std::find(which.begin(), which.end(), i) != which.end();
      if (!helper && (!tested || loose > mx)) {
        drop[i] = 1;
        restricted = true;
      }
    }
    d = fmt("knapsack max=%d list=%d", mx, list);
  } else if (g.name == "redsplit") {
    CglRedSplitParam p;
    if (r.p(0.5))
      p.setMINVIOL(r.pick(std::vector<double> { 1e-6, 1e-3, 0.02, 0.05, 0.1 }));
    if (r.p(0.5))
      p.setMAX_SUPPORT(r.in(1, 5));
    if (r.p(0.5))
      p.setMAXDYN(r.pick(std::vector<double> { 1.5, 2, 3, 5, 10, 100 }));
    if (r.p(0.4))
      p.setMAXDYN_LUB(r.pick(std::vector<double> { 2, 3, 20, 100 }));
    if (r.p(0.4))
      p.setLUB(r.pick(std::vector<double> { 2, 5, 100 }));
    if (r.p(0.4))
      p.setAway(r.pick(std::vector<double> { 0.001, 0.1, 0.3, 0.49 }));
    bool coarse = r.p(0.3); // small coefficients relaxed away: the ratio is no longer comparable
    if (coarse)
      p.setEPS_COEFF(r.pick(std::vector<double> { 0.1, 0.2, 0.5, 0.8 }));
    gen.reset(new CglRedSplit(p));
    minViol = p.getMINVIOL();
    maxEntries = p.getMAX_SUPPORT();
    maxRatio = p.getMAXDYN();
    maxRatioLub = p.getMAXDYN_LUB();
    if (coarse)
      maxRatio = maxRatioLub = INF;
    lub = p.getLUB();
    away = p.getAway();
    d = fmt("redsplit minviol=%g support=%d maxdyn=%g,%g lub=%g away=%g epscoeff=%g", minViol, maxEntries, maxRatio, maxRatioLub, lub, away, p.getEPS_COEFF());
    none = true;
    for (int j = 0; j < c.m.n; j++) {
      double v = c.si->getColSolution()[j], f = v - floor(v);
      if (c.m.isInt[j] && f > away - 1e-9 && f < 1 - away + 1e-9)
        none = false;
    }
  } else {
    gen.reset(g.make(r, c.m, *c.si, d));
    minViol = g.minViolOf(*gen, *c.si);
  }
  if (r.p(0.2))
    gen.reset(gen->clone());
  env.note(d);
  env.note(ctxStr(c));
  gen->refreshSolver(c.si.get());
  auto cuts = run(*gen, c);
  env.stat("calls:" + g.name);
  env.stat("cuts:" + g.name, static_cast<long>(cuts.size()));
  const double *x = c.si->getColSolution();
  bool anyLub = false;
  for (int j = 0; j < c.m.n; j++)
    anyLub |= fabs(c.nlb[j]) > lub || fabs(c.nub[j]) > lub;
  if (none && !cuts.empty())
    env.violation(g.name + ":none", "cuts although the settings rule out every source: " + cuts[0].str());
  for (auto &l : cuts) {
    if (l.fromCol)
      continue;
    double a = l.activity(x), v = std::max(l.lo - a, a - l.up), s = 1;
    for (auto &e : l.a)
      s = std::max(s, fabs(e.second * x[e.first]));
    double rhs = std::max(l.lo > -1e20 ? fabs(l.lo) : 0, l.up < 1e20 ? fabs(l.up) : 0);
    // RedSplit relaxes the right hand side by its (default) relaxation once the violation was tested
    double relax = g.name == "redsplit" ? 2e-8 * (1 + rhs) : 0;
    if (v < minViol * (1 - 1e-7) - 1e-9 * s - relax)
      env.violation(g.name + ":minviol", fmt("violated by %.9g, at least %.9g required: ", v, minViol) + l.str());
    if (static_cast<int>(l.a.size()) > maxEntries)
      env.violation(g.name + ":entries", fmt("%d entries, at most %d wanted: ", static_cast<int>(l.a.size()), maxEntries) + l.str());
    double mx = 0, mn = INF;
    bool hasLub = false;
    for (auto &e : l.a) {
      mx = std::max(mx, fabs(e.second));
      if (fabs(e.second) > 1e-6)
        mn = std::min(mn, fabs(e.second));
      hasLub |= fabs(c.nlb[e.first]) > lub || fabs(c.nub[e.first]) > lub;
    }
    double lim = hasLub ? maxRatioLub : anyLub ? std::max(maxRatio, maxRatioLub) : maxRatio;
    if (mn < 1e20 && mx > lim * mn * (1 + 1e-9))
      env.violation(g.name + ":ratio", fmt("coefficient ratio %.9g, at most %g wanted: ", mx / mn, lim) + l.str());
    env.stat("limits_checked");
  }
  if (restricted)
    excluded(env, g.name, c, drop, cuts);
  if (!cuts.empty()) {
    env.hit(mix(hashModel(c.m), hashStr(d + pointStr(x, c.m.n))));
    env.sample(env.log);
  }
}
static Driver dC11("C11", fC11);

// ===================================================================== C12
typedef std::vector<std::pair<std::string, std::string>> Snap;
static void addD(Snap &s, const char *k, const double *v, int n)
{
  std::string t;
  if (!v)
    t = "null";
  else
    t.assign(reinterpret_cast<const char *>(v), sizeof(double) * n);
  s.push_back({ k, t });
}
static Snap snap(const OsiClpSolverInterface &si)
{
  Snap s;
  int n = si.getNumCols(), m = si.getNumRows();
  s.push_back({ "size", fmt("%d %d %d", n, m, static_cast<int>(si.getNumElements())) });
  const CoinPackedMatrix *mat = si.getMatrixByRow();
  std::string t;
  for (int i = 0; i < m; i++)
    for (CoinBigIndex k = mat->getVectorStarts()[i]; k < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; k++)
      t += fmt("%d %d %.17g;", i, mat->getIndices()[k], mat->getElements()[k]);
  s.push_back({ "matrix by row", t });
  mat = si.getMatrixByCol();
  t.clear();
  for (int i = 0; i < n; i++)
    for (CoinBigIndex k = mat->getVectorStarts()[i]; k < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; k++)
      t += fmt("%d %d %.17g;", i, mat->getIndices()[k], mat->getElements()[k]);
  s.push_back({ "matrix by column", t });
  addD(s, "column lower", si.getColLower(), n);
  addD(s, "column upper", si.getColUpper(), n);
  addD(s, "row lower", si.getRowLower(), m);
  addD(s, "row upper", si.getRowUpper(), m);
  addD(s, "objective", si.getObjCoefficients(), n);
  s.push_back({ "sense", fmt("%g", si.getObjSense()) });
  t.clear();
  for (int j = 0; j < n; j++)
    t += si.isInteger(j) ? 'I' : 'C';
  s.push_back({ "integrality", t });
  addD(s, "solution", si.getColSolution(), n);
  addD(s, "row activity", si.getRowActivity(), m);
  addD(s, "duals", si.getRowPrice(), m);
  addD(s, "reduced costs", si.getReducedCost(), n);
  s.push_back({ "objective value", fmt("%.17g", si.getObjValue()) });
  s.push_back({ "status", fmt("%d %d %d %d", si.isProvenOptimal(), si.isProvenPrimalInfeasible(), si.isProvenDualInfeasible(), si.isAbandoned()) });
  std::vector<int> cs(n + 1), rs(m + 1);
  if (si.basisIsAvailable())
    si.getBasisStatus(cs.data(), rs.data());
  t.clear();
  for (int v : cs)
    t += fmt("%d ", v);
  for (int v : rs)
    t += fmt("%d ", v);
  s.push_back({ "basis", t });
  double dv;
  int iv;
  t.clear();
  for (int k = 0; k < OsiLastDblParam; k++)
    if (si.getDblParam(static_cast<OsiDblParam>(k), dv))
      t += fmt("%d=%.17g ", k, dv);
  for (int k = 0; k < OsiLastIntParam; k++)
    if (si.getIntParam(static_cast<OsiIntParam>(k), iv))
      t += fmt("i%d=%d ", k, iv);
  for (int k = 0; k < OsiLastHintParam; k++) {
    bool yes;
    OsiHintStrength st;
    if (si.getHintParam(static_cast<OsiHintParam>(k), yes, st))
      t += fmt("h%d=%d,%d ", k, yes, st);
  }
  s.push_back({ "parameters", t });
  return s;
}
// LP answers may be recomputed by the solver itself (OsiClp refactorizes when its tableau is
// enabled and disabled), so they are compared as numbers; everything else has to be identical.
static bool closeEnough(const std::pair<std::string, std::string> &a, const std::pair<std::string, std::string> &b)
{
  const std::string &k = a.first;
  if (k == "objective value")
    return fabs(atof(a.second.c_str()) - atof(b.second.c_str())) <= 1e-8 * (1 + fabs(atof(a.second.c_str())));
  if (k != "solution" && k != "row activity" && k != "duals" && k != "reduced costs")
    return false;
  if (a.second.size() != b.second.size())
    return false;
  size_t n = a.second.size() / sizeof(double);
  std::vector<double> x(n + 1), y(n + 1);
  memcpy(x.data(), a.second.data(), n * sizeof(double));
  memcpy(y.data(), b.second.data(), n * sizeof(double));
  for (size_t i = 0; i < n; i++)
    if (!(fabs(x[i] - y[i]) <= 1e-8 * (1 + fabs(x[i]))))
      return false;
  return true;
}
static void caseC12(Env &env, Rng &r, const std::vector<std::string> &names)
{
  const GenSpec &g = pickGen(r, names);
  Ctx c;
  if (!prep(env, r, g, c))
    return;
  std::string d;
  std::unique_ptr<CglCutGenerator> gen(g.make(r, c.m, *c.si, d));
  env.note(d);
  env.note(ctxStr(c));
  int rounds = r.in(1, 3);
  bool any = false;
  Snap s0 = snap(*c.si);
  // the LP answers the solver itself gives once its tableau was switched on and off: those it
  // kept from the last solve may be stale (seen after an optimum that needed cleaning up)
  std::unique_ptr<OsiClpSolverInterface> ref(new OsiClpSolverInterface(*c.si));
  Snap s0t;
  gen->refreshSolver(c.si.get());
  OsiCuts cs;
  int pre = r.in(0, 3);
  for (int t = 0; t < pre; t++) {
    OsiRowCut rc;
    std::vector<int> ix;
    std::vector<double> el;
    for (int j = 0; j < c.m.n; j++)
      if (r.p(0.5)) {
        ix.push_back(j);
        el.push_back(r.in(1, 3));
      }
    int cnt = static_cast<int>(ix.size());
    ix.push_back(0);
    el.push_back(0);
    rc.setRow(cnt, ix.data(), el.data(), false);
    rc.setUb(r.in(0, 5));
    rc.setLb(-INF);
    rc.setEffectiveness(r.u());
    rc.setGloballyValid(r.p(0.5));
    cs.insert(rc);
  }
  if (r.p(0.3) && c.m.n) {
    OsiColCut cc;
    int z = r.below(c.m.n);
    double v = 0.25;
    cc.setUbs(1, &z, &v);
    cc.setEffectiveness(0.75);
    cs.insert(cc);
  }
  for (int t = 0; t < rounds; t++) {
    struct Old {
      Lin l;
      double eff;
    };
    std::vector<Old> rows, cols;
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      rows.push_back({ linOf(cs.rowCut(i)), cs.rowCut(i).effectiveness() });
    for (int i = 0; i < cs.sizeColCuts(); i++)
      for (auto &l : linsOf(cs.colCut(i)))
        cols.push_back({ l, cs.colCut(i).effectiveness() });
    int nc = cs.sizeColCuts();
    CoinThreadRandom rnd(t);
    gen->generateCuts(*c.si, cs, seeded(c, rnd));
    env.stat("calls:" + g.name);
    env.stat("state_components_compared", static_cast<long>(s0.size()));
    Snap s1 = snap(*c.si);
    for (size_t i = 0; i < s0.size(); i++)
      if (s0[i] != s1[i] && !closeEnough(s0[i], s1[i])) {
        if (s0t.empty()) {
          ref->enableFactorization();
          ref->disableFactorization();
          s0t = snap(*ref);
        }
        if (i < s0t.size() && s0t[i].first == s1[i].first && closeEnough(s0t[i], s1[i])) {
          env.stat("stale_lp_answers_refreshed_by_the_solver");
          continue;
        }
        env.violation(g.name + ":solver", d + ": generateCuts changed the solver's " + s0[i].first + (s0[i].second.size() < 200 && s0[i].first != "solution" ? " from " + s0[i].second + " to " + s1[i].second : ""));
      }
    if (cs.sizeRowCuts() < static_cast<int>(rows.size()) || cs.sizeColCuts() < nc)
      env.violation(g.name + ":removed", d + ": earlier cuts were removed");
    else {
      for (size_t i = 0; i < rows.size(); i++) {
        const OsiRowCut &rc = cs.rowCut(static_cast<int>(i));
        Lin l = linOf(rc);
        if (!(l.a == rows[i].l.a && l.lo == rows[i].l.lo && l.up == rows[i].l.up && l.global == rows[i].l.global) || rc.effectiveness() != rows[i].eff)
          env.violation(g.name + ":altered", d + ": an earlier row cut was altered: " + rows[i].l.str() + " -> " + l.str());
      }
      std::vector<Old> c2;
      for (int i = 0; i < nc; i++)
        for (auto &l : linsOf(cs.colCut(i)))
          c2.push_back({ l, cs.colCut(i).effectiveness() });
      bool same = c2.size() == cols.size();
      for (size_t i = 0; same && i < cols.size(); i++)
        same = c2[i].l == cols[i].l && c2[i].eff == cols[i].eff;
      if (!same)
        env.violation(g.name + ":altered", d + ": an earlier column cut was altered");
    }
    any |= cs.sizeRowCuts() > static_cast<int>(rows.size()) || cs.sizeColCuts() > nc;
    if (env.violations > 10)
      return;
  }
  // solving goes on as if the generator had not been there
  if (any && r.p(0.5) && !c.combo) {
    std::unique_ptr<OsiClpSolverInterface> k = cloneSi(*c.si);
    k->resolve();
    if (!k->isProvenOptimal() || fabs(k->getObjValue() - c.si->getObjValue()) > 1e-6 * (1 + fabs(k->getObjValue())))
      env.violation(g.name + ":resolve", d + fmt(": solving again gives %g instead of %g", k->getObjValue(), c.si->getObjValue()));
  }
  if (any) {
    env.hit(mix(hashModel(c.m), hashStr(d + pointStr(c.nlb.data(), c.m.n))));
    env.sample(env.log);
  }
}
static void fC12(Env &env, Rng &r) { caseC12(env, r, ALL); }
static Driver dC12("C12", fC12);

// ===================================================================== C13
static void caseC13(Env &env, Rng &r, const std::vector<std::string> &names)
{
  const GenSpec &g = pickGen(r, names);
  Ctx c;
  if (!prep(env, r, g, c))
    return;
  std::string d, d2;
  std::unique_ptr<CglCutGenerator> src(g.make(r, c.m, *c.si, d));
  bool stateful = g.stateful(d); // the copy still has to continue exactly where the source is
  env.note(d);
  env.note(ctxStr(c));
  src->refreshSolver(c.si.get());
  bool used = r.p(0.5);
  std::vector<Lin> want, got;
  if (used)
    want = run(*src, c);
  std::string s0 = g.settings(*src);
  std::unique_ptr<CglCutGenerator> cp;
  int how = r.below(g.assignable && g.assign ? 4 : 2);
  std::string what;
  if (how == 0) {
    cp.reset(src->clone());
    what = "clone";
  } else if (how == 1) {
    std::unique_ptr<CglCutGenerator> t(src->clone());
    cp.reset(t->clone());
    what = "clone of a clone";
    if (r.p(0.5)) {
      g.perturb(r, *t);
      run(*t, c);
    }
  } else if (how == 2) {
    cp.reset(g.make(r, c.m, *c.si, d2));
    if (r.p(0.5)) {
      cp->refreshSolver(c.si.get());
      run(*cp, c);
    }
    g.assign(*cp, *src);
    what = "assignment over " + d2;
  } else {
    cp.reset(g.make(r, c.m, *c.si, d2));
    g.assign(*src, *src);
    g.assign(*cp, *src);
    g.assign(*cp, *cp);
    what = "self assignment";
  }
  env.note(what);
  env.stat("copy:" + what.substr(0, what.find(' ')));
  std::string s1 = g.settings(*cp);
  if (s0 != s1)
    env.violation(g.name + ":settings", what + ": settings " + s0 + " became " + s1);
  if (g.settings(*src) != s0)
    env.violation(g.name + ":source", what + ": settings of the source changed from " + s0 + " to " + g.settings(*src));
  // the caller refreshes what caches a model
  if (g.refresh || r.p(0.5)) {
    cp->refreshSolver(c.si.get());
    src->refreshSolver(c.si.get());
  }
  auto base = run(*src, c);
  if (used && !stateful && !sameCuts(base, want))
    env.violation(g.name + ":changed", what + ": the source returns other cuts after being copied:\n" + str(base) + "instead of\n" + str(want));
  got = run(*cp, c);
  env.stat("results_compared");
  if (!sameCuts(base, got))
    env.violation(g.name + ":cuts", what + ": the copy returns\n" + str(got) + "the source\n" + str(base));
  if (!base.empty()) {
    env.hit(mix(hashModel(c.m), hashStr(d + what)));
    env.sample(env.log);
  }
  if (stateful)
    return;
  // change and destroy one of the two
  int who = r.below(2);
  std::unique_ptr<CglCutGenerator> &a = who ? src : cp, &b = who ? cp : src;
  std::string keep = g.settings(*b);
  g.perturb(r, *a);
  if (g.settings(*b) != keep)
    env.violation(g.name + ":dependent", what + ": changing one object changed the other's settings from " + keep + " to " + g.settings(*b));
  run(*a, c);
  if (r.p(0.7)) {
    HeapFill f(0x5a);
    a.reset();
    std::vector<std::string> junk; // reuse the freed memory
    for (int i = 0; i < 50; i++)
      junk.push_back(std::string(8 << (i % 8), 'z'));
    got = run(*b, c);
  } else
    got = run(*b, c);
  env.stat("results_compared");
  if (!sameCuts(base, got))
    env.violation(g.name + ":independent", what + fmt(": after the %s was changed and destroyed the other returns\n", who ? "source" : "copy") + str(got) + "instead of\n" + str(base));
}
static void fC13(Env &env, Rng &r) { caseC13(env, r, ALL); }
static Driver dC13("C13", fC13);

// ===================================================================== C14
static void caseC14(Env &env, Rng &r, const std::vector<std::string> &names)
{
  const GenSpec &g = pickGen(r, names);
  Ctx first;
  if (!prep(env, r, g, first))
    return;
  Rng cfg = r;
  std::string d, d2;
  std::unique_ptr<CglCutGenerator> reused(g.make(r, first.m, *first.si, d));
  if (g.stateful(d))
    return;
  env.note(d);
  int calls = r.in(2, 4);
  bool any = false, free = g.modelFree(d);
  uint64_t h = hashStr(d);
  std::vector<std::unique_ptr<Ctx>> cs;
  for (int t = 0; t < calls; t++) {
    std::unique_ptr<Ctx> own;
    Ctx *c = &first;
    if (t && free && r.p(0.6)) {
      own.reset(new Ctx);
      if (!prep(env, r, g, *own))
        return;
      c = own.get();
      env.stat("other_model");
    } else if (t && r.p(0.5) && !g.needsBasis && (free || !g.shim)) {
      // same model at another point
      std::vector<double> x(c->m.n);
      for (int j = 0; j < c->m.n; j++) {
        double l = std::max(c->nlb[j], -10.0), u = std::min(c->nub[j], l + 10.0);
        x[j] = l + (u - l) * r.below(5) / 4.0;
      }
      c->si->setColSolution(x.data());
      c->combo = true;
      env.stat("other_point");
    } else
      env.stat("same_call");
    env.note(ctxStr(*c));
    h = mix(h, hashModel(c->m));
    std::vector<Lin> a, b, e;
    {
      HeapFill f(r.pick(std::vector<int> { 0x00, 0xff, 0x01 }));
      reused->refreshSolver(c->si.get());
      a = run(*reused, *c);
    }
    {
      HeapFill f(r.pick(std::vector<int> { 0x7f, 0xaa, 0x40 }));
      Rng again = cfg;
      std::unique_ptr<CglCutGenerator> fresh(g.make(again, first.m, *first.si, d2));
      fresh->refreshSolver(c->si.get());
      b = run(*fresh, *c);
      if (r.p(0.3)) { // a collection that already holds something else
        OsiCuts col;
        OsiRowCut rc;
        rc.setLb(-INF);
        rc.setUb(-123456.0);
        int z = 0;
        double one = 1.0;
        rc.setRow(c->m.n ? 1 : 0, &z, &one, false);
        col.insert(rc);
        CoinThreadRandom rnd(1234567);
        std::unique_ptr<CglCutGenerator> k(fresh->clone());
        k->refreshSolver(c->si.get());
        std::unique_ptr<OsiClpSolverInterface> si2 = liveCopy(*c);
        if (si2)
          k->generateCuts(*si2, col, seeded(*c, rnd));
        e = canon(linsOf(col, 1, 0));
        env.stat("prefilled_collections");
        if (!sameCuts(b, e))
          env.violation(g.name + ":collection", d + ": with an unrelated cut in the collection\n" + str(e) + "instead of\n" + str(b));
      }
    }
    env.stat("results_compared");
    env.stat("calls:" + g.name);
    if (!sameCuts(a, b))
      env.violation(g.name + ":history", d + fmt(": call %d of the reused object returns\n", t + 1) + str(a) + "a fresh one\n" + str(b));
    any |= !a.empty();
    if (env.violations > 10)
      return;
    if (own)
      cs.push_back(std::move(own)); // keep the models alive: stale pointers are C15's business
  }
  if (any) {
    env.hit(h);
    env.sample(env.log);
  }
}
static void fC14(Env &env, Rng &r) { caseC14(env, r, ALL); }
static Driver dC14("C14", fC14);

// ===================================================================== C19
static void caseC19(Env &env, Rng &r, const std::vector<std::string> &names)
{
  const GenSpec &g = pickGen(r, names);
  Ctx c;
  if (!prep(env, r, g, c))
    return;
  std::unique_ptr<CglCutGenerator> gen;
  std::string d = "default settings";
  if (g.shim && r.p(0.5)) // no setting of these asks for output
    gen.reset(g.make(r, c.m, *c.si, d));
  else
    gen.reset(g.makeQuiet(c.m, *c.si));
  env.note(g.name + " with " + d);
  env.note(ctxStr(c));
  gen->refreshSolver(c.si.get());
  static int fd = -1, so, se;
  if (fd < 0) {
    fd = memfd_create("out", 0);
    so = dup(1);
    se = dup(2);
  }
  OsiCuts cs;
  CoinThreadRandom rnd(5);
  fflush(stdout);
  fflush(stderr);
  (void)!ftruncate(fd, 0);
  lseek(fd, 0, SEEK_SET);
  dup2(fd, 1);
  dup2(fd, 2);
  gen->generateCuts(*c.si, cs, seeded(c, rnd));
  fflush(stdout);
  fflush(stderr);
  std::cout.flush();
  std::cerr.flush();
  dup2(so, 1);
  dup2(se, 2);
  env.stat("calls:" + g.name);
  off_t n = lseek(fd, 0, SEEK_END);
  if (n > 0) {
    char buf[200] = { 0 };
    (void)!pread(fd, buf, sizeof buf - 1, 0);
    env.violation(g.name + ":output", fmt("%ld bytes written: ", static_cast<long>(n)) + buf);
  }
  if (cs.sizeRowCuts() + cs.sizeColCuts()) {
    env.hit(mix(hashModel(c.m), hashStr(g.name + pointStr(c.nlb.data(), c.m.n))));
    env.sample(env.log);
  }
}
static void fC19(Env &env, Rng &r) { caseC19(env, r, ALL); }
static Driver dC19("C19", fC19);
// ===================================================================== C24
static const std::vector<std::string> SHIM = { "gomory", "gmi", "redsplit2", "twomir", "flowcover", "rescapacity", "mir2", "probing" };
static void fC24(Env &env, Rng &r)
{
  switch (r.below(3)) {
  case 0:
    caseC12(env, r, SHIM);
    break;
  case 1:
    caseC13(env, r, SHIM);
    break;
  default:
    caseC14(env, r, SHIM);
  }
}
static Driver dC24("C24", fC24);
static void fC27(Env &env, Rng &r) { caseC19(env, r, SHIM); }
static Driver dC27("C27", fC27);
} // namespace vm
