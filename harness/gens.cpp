#include "reg.hpp"
#include "CglAllDifferent.hpp"
#include "CglClique.hpp"
#include "CglDuplicateRow.hpp"
#include "CglKnapsackCover.hpp"
#include "CglLiftAndProject.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglOddHole.hpp"
#include "CglRedSplit.hpp"
#include "CglSimpleRounding.hpp"
#include "CglStored.hpp"
#include "CglZeroHalf.hpp"
#include <cstdarg>
namespace vm {

std::string fmt(const char *f, ...)
{
  char b[2000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
std::vector<GenSpec> &registry()
{
  static std::vector<GenSpec> r;
  return r;
}
const GenSpec *findGen(const std::string &name)
{
  for (auto &g : registry())
    if (g.name == name)
      return &g;
  return nullptr;
}

// all rows as a.x >= b, every finite column bound also as a row
Model canonical(const Model &m)
{
  Model c;
  c.family = m.family + "-canonical";
  c.n = m.n;
  c.obj = m.obj;
  c.lb = m.lb;
  c.ub = m.ub;
  c.isInt = m.isInt;
  for (int i = 0; i < m.m(); i++) {
    if (m.rows[i].empty())
      continue;
    if (m.rlb[i] > -1e20) {
      c.addRow(m.rows[i], m.rlb[i], INF);
    }
    if (m.rub[i] < 1e20) {
      auto r = m.rows[i];
      for (auto &e : r)
        e.second = -e.second;
      c.addRow(r, -m.rub[i], INF);
    }
  }
  for (int j = 0; j < m.n; j++) {
    if (m.lb[j] > -1e20)
      c.addRow({ { j, 1.0 } }, m.lb[j], INF);
    if (m.ub[j] < 1e20)
      c.addRow({ { j, -1.0 } }, -m.ub[j], INF);
  }
  return c;
}

#define COMMON(T)                                                                             \
  g.assign = [](CglCutGenerator &a, const CglCutGenerator &b) {                               \
    dynamic_cast<T &>(a) = dynamic_cast<const T &>(b);                                        \
  };
static std::string base(const CglCutGenerator &g)
{
  return fmt("aggr=%d global=%d secs=%g ", g.getAggressiveness(), g.canDoGlobalCuts() ? 1 : 0, g.getMaxSeconds());
}
static void baseRand(Rng &r, CglCutGenerator &g)
{
  if (r.p(0.3))
    g.setAggressiveness(r.pick(std::vector<int> { 0, 10, 100, 200 }));
  if (r.p(0.2))
    g.setGlobalCuts(r.p(0.5));
}

// ---------------------------------------------------------------- clique
static GenSpec clique()
{
  GenSpec g;
  g.name = "clique";
  g.families = { "setpack", "setpack", "setpackx", "setpackx", "assign", "setcover", "knap", "mixed", "degenerate", "dup", "setpackwide" };
  g.assignable = false; // the class declares operator= but does not define it
  g.make = [](Rng &r, const Model &m, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    // setPacking may be promised only for genuine set-packing models
    bool sp = true;
    for (int j = 0; j < m.n; j++)
      if (!m.isInt[j] || m.lb[j] < 0 || m.ub[j] > 1)
        sp = false;
    for (int i = 0; i < m.m(); i++) {
      if (m.rub[i] != 1.0 || (m.rlb[i] != 1.0 && m.rlb[i] > 0.0))
        sp = false;
      for (auto &e : m.rows[i])
        if (e.second != 1.0)
          sp = false;
    }
    bool promise = sp && r.p(0.4);
    bool orig = r.p(0.3);
    CglClique *c = new CglClique(promise, orig);
    c->setStarCliqueReport(false);
    c->setRowCliqueReport(false);
    int rule = r.below(3);
    c->setStarCliqueNextNodeMethod(static_cast<CglClique::scl_next_node_method>(rule));
    int t1 = r.pick(std::vector<int> { 0, 1, 2, 3, 12, 12 }), t2 = r.pick(std::vector<int> { 0, 1, 2, 3, 12, 12 });
    c->setStarCliqueCandidateLengthThreshold(t1);
    c->setRowCliqueCandidateLengthThreshold(t2);
    int w = r.below(4);
    if (w == 1)
      c->setDoStarClique(false);
    if (w == 2)
      c->setDoRowClique(false);
    double mv = -1;
    if (r.p(0.4)) {
      mv = r.pick(std::vector<double> { 1e-6, 1e-4, 0.01, 0.1, 0.3 });
      c->setMinViolation(mv);
    }
    if (r.p(0.1))
      c->setMaxNumber(r.in(0, 20));
    baseRand(r, *c);
    d = fmt("clique setPacking=%d orig=%d rule=%d thr=%d,%d do=%d minviol=%g", promise, orig, rule, t1, t2, w, mv);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * {
    CglClique *c = new CglClique;
    c->setStarCliqueReport(false);
    c->setRowCliqueReport(false);
    return c;
  };
  g.settings = [](const CglCutGenerator &b) {
    const CglClique &c = dynamic_cast<const CglClique &>(b);
    return base(b) + fmt("minviol=%.17g", c.getMinViolation());
  };
  g.minViolOf = [](const CglCutGenerator &b, OsiClpSolverInterface &si) {
    double t = dynamic_cast<const CglClique &>(b).getMinViolation();
    if (t == -1.0)
      si.getDblParam(OsiPrimalTolerance, t);
    return t;
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglClique &c = dynamic_cast<CglClique &>(b);
    c.setMinViolation(0.05 + 0.4 * r.u());
    c.setDoStarClique(r.p(0.5));
    c.setDoRowClique(r.p(0.5));
    c.setStarCliqueCandidateLengthThreshold(r.below(3));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(clique());

// ---------------------------------------------------------------- odd hole
static GenSpec oddhole()
{
  GenSpec g;
  g.name = "oddhole";
  g.families = { "setpack", "setpack", "setpackx", "setcover", "setcover", "assign", "parity", "degenerate", "setpackwide" };
  COMMON(CglOddHole)
  g.make = [](Rng &r, const Model &m, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglOddHole *c = new CglOddHole;
    double mv = 0.001, mp = 0.0003;
    int me = 100;
    if (r.p(0.4))
      c->setMinimumViolation(mv = r.pick(std::vector<double> { 1e-6, 1e-4, 0.05, 0.2, 0.5 }));
    if (r.p(0.4))
      c->setMinimumViolationPer(mp = r.pick(std::vector<double> { 1e-6, 0.01, 0.05, 0.1 }));
    if (r.p(0.4))
      c->setMaximumEntries(me = r.in(3, 7));
    std::string rows = "all";
    if (r.p(0.3)) {
      std::vector<int> which(m.m());
      rows = "";
      for (int i = 0; i < m.m(); i++) {
        which[i] = r.p(0.7);
        rows += which[i] ? '1' : '0';
      }
      c->createRowList(m.m(), which.data());
    }
    if (r.p(0.1)) { // extra clique list: documented, kept for copies
      int st[2] = { 0, std::min(2, m.n) };
      int mem[2] = { 0, 1 };
      c->createCliqueList(1, st, mem);
    }
    baseRand(r, *c);
    d = fmt("oddhole minviol=%g per=%g entries=%d rows=%s", mv, mp, me, rows.c_str());
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglOddHole; };
  g.settings = [](const CglCutGenerator &b) {
    const CglOddHole &c = dynamic_cast<const CglOddHole &>(b);
    return base(b) + fmt("minviol=%.17g per=%.17g entries=%d possible=%d", c.getMinimumViolation(), c.getMinimumViolationPer(), c.getMaximumEntries(), const_cast<CglOddHole &>(c).numberPossible());
  };
  g.minViolOf = [](const CglCutGenerator &b, OsiClpSolverInterface &) { return dynamic_cast<const CglOddHole &>(b).getMinimumViolation(); };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglOddHole &c = dynamic_cast<CglOddHole &>(b);
    c.setMinimumViolation(0.05 + 0.4 * r.u());
    c.setMinimumViolationPer(0.05 + 0.1 * r.u());
    c.setMaximumEntries(r.in(3, 5));
    c.setAggressiveness(r.below(50));
  };
  g.extra = [](Rng &r, CglCutGenerator &b, OsiClpSolverInterface &si) {
    CglOddHole &c = dynamic_cast<CglOddHole &>(b);
    if (r.p(0.5)) {
      std::vector<int> which(si.getNumRows() + 1);
      for (auto &w : which)
        w = r.p(0.7);
      c.createRowList(si, r.p(0.5) ? which.data() : nullptr);
    } else {
      int n = si.getNumCols(), k = r.below(4);
      std::vector<int> st(1, 0), mem;
      for (int q = 0; q < k && n; q++) {
        int len = r.in(0, 3);
        for (int t = 0; t < len; t++)
          mem.push_back(r.below(n));
        st.push_back(static_cast<int>(mem.size()));
      }
      mem.push_back(0);
      c.createCliqueList(static_cast<int>(st.size()) - 1, st.data(), mem.data());
    }
  };
  return g;
}
static Reg r2(oddhole());

// ---------------------------------------------------------------- knapsack cover
static GenSpec knapsack()
{
  GenSpec g;
  g.name = "knapsack";
  g.families = { "knap", "knap", "knap", "assign", "setpackx", "flow", "lotsize", "mixed", "degenerate", "setcover", "knapwide" };
  COMMON(CglKnapsackCover)
  g.refresh = true;
  g.make = [](Rng &r, const Model &m, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglKnapsackCover *c = new CglKnapsackCover;
    int mx = 50;
    if (r.p(0.3))
      c->setMaxInKnapsack(mx = r.in(2, 12));
    bool ex = r.p(0.6);
    if (ex)
      c->switchOnExpensive();
    else
      c->switchOffExpensive();
    std::string rows = "all";
    if (r.p(0.3)) {
      std::vector<int> which;
      rows = "";
      for (int i = 0; i < m.m(); i++)
        if (r.p(0.6)) {
          which.push_back(i);
          rows += fmt("%d,", i);
        }
      if (!which.empty())
        c->setTestedRowIndices(static_cast<int>(which.size()), which.data());
    }
    baseRand(r, *c);
    d = fmt("knapsack max=%d expensive=%d rows=%s", mx, ex, rows.c_str());
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglKnapsackCover; };
  g.settings = [](const CglCutGenerator &b) {
    const CglKnapsackCover &c = dynamic_cast<const CglKnapsackCover &>(b);
    return base(b) + fmt("max=%d", c.getMaxInKnapsack());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglKnapsackCover &c = dynamic_cast<CglKnapsackCover &>(b);
    c.setMaxInKnapsack(r.in(1, 3));
    if (r.p(0.5))
      c.switchOffExpensive();
    else
      c.switchOnExpensive();
    int z = 0;
    c.setTestedRowIndices(1, &z);
    c.setAggressiveness(r.below(50));
  };
  g.extra = [](Rng &r, CglCutGenerator &b, OsiClpSolverInterface &si) {
    CglKnapsackCover &c = dynamic_cast<CglKnapsackCover &>(b);
    if (r.p(0.3)) {
      c.setTestedRowIndices(0, nullptr);
    } else {
      std::unique_ptr<OsiClpSolverInterface> s2(dynamic_cast<OsiClpSolverInterface *>(si.clone()));
      c.createCliques(*s2, r.in(0, 3), r.pick(std::vector<int> { 3, 6, 100 }), r.p(0.5));
    }
  };
  return g;
}
static Reg r3(knapsack());

// ---------------------------------------------------------------- MIR
static GenSpec mir()
{
  GenSpec g;
  g.name = "mir";
  g.families = { "mixed", "mixed", "flow", "flow", "lotsize", "lotsize", "rescap", "genint", "knap", "degenerate" };
  COMMON(CglMixedIntegerRounding)
  g.refresh = true;
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    int ag = r.in(1, 4);
    bool mu = r.p(0.6);
    int cr = r.in(1, 3);
    int pp = r.pick(std::vector<int> { -1, -1, 0, 1 });
    CglMixedIntegerRounding *c;
    if (r.p(0.5))
      c = new CglMixedIntegerRounding(ag, mu, cr, pp);
    else {
      c = new CglMixedIntegerRounding;
      c->setMAXAGGR_(ag);
      c->setMULTIPLY_(mu);
      c->setCRITERION_(cr);
      if (pp >= 0)
        c->setDoPreproc(pp);
    }
    baseRand(r, *c);
    d = fmt("mir maxaggr=%d multiply=%d criterion=%d preproc=%d", ag, mu, cr, pp);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglMixedIntegerRounding; };
  g.settings = [](const CglCutGenerator &b) {
    const CglMixedIntegerRounding &c = dynamic_cast<const CglMixedIntegerRounding &>(b);
    return base(b) + fmt("aggr=%d mult=%d crit=%d pre=%d", c.getMAXAGGR_(), c.getMULTIPLY_(), c.getCRITERION_(), c.getDoPreproc());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglMixedIntegerRounding &c = dynamic_cast<CglMixedIntegerRounding &>(b);
    c.setMAXAGGR_(r.in(1, 6));
    c.setMULTIPLY_(r.p(0.5));
    c.setCRITERION_(r.in(1, 3));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r4(mir());

// ---------------------------------------------------------------- simple rounding
static GenSpec simplerounding()
{
  GenSpec g;
  g.name = "simplerounding";
  g.families = { "genint", "genint", "knap", "mixed", "parity", "rescap", "setcover", "degenerate", "decimal", "decimal" };
  COMMON(CglSimpleRounding)
  g.separates = false; // documented: "It may not be violated"
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglSimpleRounding *c = new CglSimpleRounding;
    baseRand(r, *c);
    d = "simplerounding";
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglSimpleRounding; };
  g.settings = [](const CglCutGenerator &b) { return base(b); };
  g.perturb = [](Rng &r, CglCutGenerator &b) { b.setAggressiveness(r.below(50)); };
  return g;
}
static Reg r5(simplerounding());

// ---------------------------------------------------------------- reduce and split
static GenSpec redsplit()
{
  GenSpec g;
  g.name = "redsplit";
  g.families = { "mixed", "mixed", "flow", "lotsize", "rescap", "genint", "knap", "degenerate" };
  COMMON(CglRedSplit)
  g.needsBasis = true;
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglRedSplitParam p;
    d = "redsplit";
    if (r.p(0.4)) {
      double v = r.pick(std::vector<double> { 0.001, 0.02, 0.1, 0.3, 0.5 });
      p.setAway(v);
      d += fmt(" away=%g", v);
    }
    if (r.p(0.3)) {
      p.setUSE_CG2(1);
      d += " cg2";
    }
    if (r.p(0.3)) {
      double v = r.pick(std::vector<double> { 1e-6, 1e-3, 0.05, 0.1 });
      p.setMINVIOL(v);
      d += fmt(" minviol=%g", v);
    }
    if (r.p(0.3)) {
      int v = r.in(1, 6);
      p.setMAX_SUPPORT(v);
      d += fmt(" support=%d", v);
    }
    if (r.p(0.3)) {
      double v = r.pick(std::vector<double> { 2, 10, 100 });
      p.setMAXDYN(v);
      d += fmt(" maxdyn=%g", v);
    }
    if (r.p(0.2)) {
      double v = r.pick(std::vector<double> { 3, 20, 100 });
      p.setMAXDYN_LUB(v);
      d += fmt(" maxdynlub=%g", v);
    }
    if (r.p(0.2)) {
      double v = r.pick(std::vector<double> { 2, 5, 100 });
      p.setLUB(v);
      d += fmt(" lub=%g", v);
    }
    if (r.p(0.2)) {
      double v = r.pick(std::vector<double> { 0.01, 0.3 });
      p.setMinReduc(v);
      d += fmt(" minreduc=%g", v);
    }
    if (r.p(0.2)) {
      double v = r.pick(std::vector<double> { 11, 28, 100, 1000 });
      p.setMaxTab(v);
      d += fmt(" maxtab=%g", v);
    }
    if (r.p(0.15)) {
      double v = r.pick(std::vector<double> { 1e-6, 1e-3, 0.05, 0.1, 0.4 });
      p.setEPS_COEFF(v);
      d += fmt(" epscoeff=%g", v);
    }
    CglRedSplit *c = new CglRedSplit(p);
    baseRand(r, *c);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglRedSplit; };
  g.settings = [](const CglCutGenerator &b) {
    const CglRedSplit &c = dynamic_cast<const CglRedSplit &>(b);
    CglRedSplitParam p = c.getParam();
    return base(b) + fmt("away=%.17g lub=%.17g elim=%g ra=%g rr=%g md=%g mdl=%g ecl=%g mv=%g is=%d cg2=%d nz=%g mr=%g mt=%g ms=%d eps=%g epsc=%g", p.getAway(), p.getLUB(), p.getEPS_ELIM(), p.getEPS_RELAX_ABS(), p.getEPS_RELAX_REL(), p.getMAXDYN(), p.getMAXDYN_LUB(), p.getEPS_COEFF_LUB(), p.getMINVIOL(), p.getUSE_INTSLACKS(), p.getUSE_CG2(), p.getNormIsZero(), p.getMinReduc(), p.getMaxTab(), p.getMAX_SUPPORT(), p.getEPS(), p.getEPS_COEFF());
  };
  g.minViolOf = [](const CglCutGenerator &b, OsiClpSolverInterface &) { return dynamic_cast<const CglRedSplit &>(b).getParam().getMINVIOL(); };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglRedSplit &c = dynamic_cast<CglRedSplit &>(b);
    CglRedSplitParam p = c.getParam();
    p.setAway(0.4 + 0.1 * r.u());
    p.setMINVIOL(0.09);
    p.setMAX_SUPPORT(2);
    c.setParam(p);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r6(redsplit());

// ---------------------------------------------------------------- lift and project
static GenSpec lap()
{
  GenSpec g;
  g.name = "liftandproject";
  g.families = { "knap", "mixed01", "mixed01", "setpack", "setcover", "flow" };
  COMMON(CglLiftAndProject)
  g.canonical = true;
  g.separates = false;
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglLiftAndProject *c = new CglLiftAndProject;
    int b = r.p(0.5) ? 1 : -1;
    c->setBeta(b);
    baseRand(r, *c);
    d = fmt("liftandproject beta=%d", b);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglLiftAndProject; };
  g.settings = [](const CglCutGenerator &b) { return base(b) + fmt("beta=%g", dynamic_cast<const CglLiftAndProject &>(b).getBeta()); };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglLiftAndProject &c = dynamic_cast<CglLiftAndProject &>(b);
    c.setBeta(c.getBeta() > 0 ? -1 : 1);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r7(lap());

// ---------------------------------------------------------------- zero half
static GenSpec zerohalf()
{
  GenSpec g;
  g.name = "zerohalf";
  g.families = { "parity", "parity", "genint", "setpack", "setpackx", "setcover", "knap", "dup", "degenerate", "paritywide" };
  COMMON(CglZeroHalf)
  g.refresh = true;
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglZeroHalf *c = new CglZeroHalf;
    int fl = r.p(0.25) ? 1 : 0;
    c->setFlags(fl);
    int th = 999999, pc = -2, fc = -2;
    if (r.p(0.5))
      c->setSepGraphSparseThreshold(th = r.pick(std::vector<int> { 0, 0, 1, 5, 1000 }));
    if (r.p(0.2))
      c->setRowMaxPairCount(pc = r.pick(std::vector<int> { -1, 1, 6, 20 }));
    if (r.p(0.2))
      c->setRowMaxFractionalCount(fc = r.pick(std::vector<int> { -1, 1, 3, 10 }));
    baseRand(r, *c);
    d = fmt("zerohalf flags=%d thr=%d pair=%d frac=%d", fl, th, pc, fc);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglZeroHalf; };
  g.settings = [](const CglCutGenerator &b) {
    const CglZeroHalf &c = dynamic_cast<const CglZeroHalf &>(b);
    return base(b) + fmt("flags=%d thr=%d pair=%d frac=%d", c.getFlags(), c.getSepGraphSparseThreshold(), c.getRowMaxPairCount(), c.getRowMaxFractionalCount());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglZeroHalf &c = dynamic_cast<CglZeroHalf &>(b);
    c.setFlags(1 - c.getFlags());
    c.setSepGraphSparseThreshold(r.below(4));
    c.setRowMaxPairCount(r.in(1, 3));
    c.setRowMaxFractionalCount(r.in(1, 2));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r8(zerohalf());

// ---------------------------------------------------------------- all different
static GenSpec alldiff()
{
  GenSpec g;
  g.name = "alldiff";
  g.families = { "genint", "assign", "dup", "parity", "knap" };
  COMMON(CglAllDifferent)
  g.separates = false;
  g.modelFree = [](const std::string &) { return false; };
  g.make = [](Rng &r, const Model &m, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    std::vector<int> cand;
    for (int j = 0; j < m.n; j++)
      if (m.isInt[j] && m.lb[j] > -100 && m.ub[j] < 100 && m.ub[j] - m.lb[j] < 12)
        cand.push_back(j);
    std::vector<int> starts(1, 0), which;
    int ns = cand.size() < 2 ? 0 : r.in(0, 3);
    d = "alldiff sets";
    for (int s = 0; s < ns; s++) {
      int k = std::min(static_cast<int>(cand.size()), r.in(2, 5));
      std::vector<int> c = cand;
      d += " {";
      for (int t = 0; t < k; t++) {
        int q = r.below(static_cast<int>(c.size()));
        which.push_back(c[q]);
        d += fmt("%d ", c[q]);
        c.erase(c.begin() + q);
      }
      d += "}";
      starts.push_back(static_cast<int>(which.size()));
    }
    which.push_back(0);
    CglAllDifferent *c = ns ? new CglAllDifferent(ns, starts.data(), which.data()) : new CglAllDifferent;
    if (r.p(0.3))
      c->setMaxLook(r.in(1, 3));
    baseRand(r, *c);
    return c;
  };
  g.makeQuiet = [](const Model &m, OsiClpSolverInterface &si) -> CglCutGenerator * {
    std::string d;
    Rng r(m.n * 1000 + m.m());
    GenSpec h = *findGen("alldiff");
    return h.make(r, m, si, d);
  };
  g.settings = [](const CglCutGenerator &b) {
    const CglAllDifferent &c = dynamic_cast<const CglAllDifferent &>(b);
    return base(b) + fmt("look=%d log=%d", c.getMaxLook(), c.getLogLevel());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglAllDifferent &c = dynamic_cast<CglAllDifferent &>(b);
    c.setMaxLook(r.in(5, 9));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r9(alldiff());

// ---------------------------------------------------------------- duplicate rows
static GenSpec duprow()
{
  GenSpec g;
  g.name = "duprow";
  g.families = { "dup", "dup", "setpack", "assign", "degenerate" };
  COMMON(CglDuplicateRow)
  g.refresh = true;
  g.separates = false;
  g.minRows = 1;
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglDuplicateRow *c = new CglDuplicateRow;
    int mode = r.pick(std::vector<int> { 1, 2, 3, 8, 8, 8 });
    c->setMode(mode);
    if (r.p(0.4))
      c->setMaximumRhs(r.in(1, 10));
    if (r.p(0.4))
      c->setMaximumDominated(r.in(0, 20));
    if (r.p(0.2))
      c->setLogLevel(0);
    baseRand(r, *c);
    d = fmt("duprow mode=%d rhs=%d dom=%d", mode, c->maximumRhs(), c->maximumDominated());
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglDuplicateRow; };
  g.settings = [](const CglCutGenerator &b) {
    const CglDuplicateRow &c = dynamic_cast<const CglDuplicateRow &>(b);
    return base(b) + fmt("mode=%d rhs=%d dom=%d log=%d", c.mode(), c.maximumRhs(), c.maximumDominated(), c.logLevel());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglDuplicateRow &c = dynamic_cast<CglDuplicateRow &>(b);
    c.setMode(c.mode() == 8 ? 3 : 8);
    c.setMaximumRhs(r.in(11, 20));
    c.setMaximumDominated(r.in(21, 30));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r10(duprow());

// ---------------------------------------------------------------- stored cuts
static GenSpec stored()
{
  GenSpec g;
  g.name = "stored";
  g.families = { "knap", "mixed", "genint", "setpack", "flow" };
  COMMON(CglStored)
  g.modelFree = [](const std::string &) { return false; };
  g.make = [](Rng &r, const Model &m, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglStored *c = new CglStored(r.p(0.5) ? m.n : 0);
    int k = r.below(6);
    for (int t = 0; t < k; t++) {
      std::vector<int> ix;
      std::vector<double> el;
      for (int j = 0; j < m.n; j++)
        if (r.p(0.4)) {
          ix.push_back(j);
          el.push_back(r.in(1, 6) * (r.p(0.3) ? -0.5 : 0.5));
        }
      int cnt = static_cast<int>(ix.size());
      ix.push_back(0);
      el.push_back(0);
      if (r.p(0.5))
        c->addCut(-INF, r.in(-2, 4), cnt, ix.data(), el.data());
      else {
        double lo = r.in(-2, 6);
        c->addCut(lo, lo + r.below(2), cnt, ix.data(), el.data());
      }
    }
    if (r.p(0.4))
      c->setRequiredViolation(r.pick(std::vector<double> { 1e-6, 0.1, 1.0 }));
    baseRand(r, *c);
    d = fmt("stored cuts=%d required=%g", k, c->getRequiredViolation());
    return c;
  };
  g.makeQuiet = [](const Model &m, OsiClpSolverInterface &si) -> CglCutGenerator * {
    std::string d;
    Rng r(m.n * 1000 + m.m());
    GenSpec h = *findGen("stored");
    return h.make(r, m, si, d);
  };
  g.settings = [](const CglCutGenerator &b) {
    const CglStored &c = dynamic_cast<const CglStored &>(b);
    return base(b) + fmt("req=%.17g cuts=%d", c.getRequiredViolation(), c.sizeRowCuts());
  };
  g.minViolOf = [](const CglCutGenerator &b, OsiClpSolverInterface &) { return dynamic_cast<const CglStored &>(b).getRequiredViolation(); };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglStored &c = dynamic_cast<CglStored &>(b);
    c.setRequiredViolation(2 + r.u());
    int z = 0;
    double one = 1;
    c.addCut(-INF, -1000, 1, &z, &one);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r11(stored());

} // namespace vm
