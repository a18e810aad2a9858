#include "gshim.hpp"
#include "../settings.hpp"
#include "CglGomory.hpp"
namespace vm {
static GenSpec gomory()
{
  GenSpec g;
  g.name = "gomory";
  g.families = FAM_BASIS;
  g.needsBasis = true;
  GCOMMON(CglGomory)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &si, std::string &d) -> CglCutGenerator * {
    CglGomory *c = new CglGomory;
    int lim = 50, limr = 0;
    double aw = 0.05, awr = 0.05;
    if (r.p(0.4))
      c->setLimit(lim = r.pick(std::vector<int> { 2, 3, 5, 10, 500 }));
    if (r.p(0.4))
      c->setLimitAtRoot(limr = r.pick(std::vector<int> { 0, 3, 5, 10, 500 }));
    if (r.p(0.4))
      c->setAway(aw = r.pick(std::vector<double> { 0.001, 0.01, 0.2, 0.4, 0.5 }));
    if (r.p(0.4))
      c->setAwayAtRoot(awr = r.pick(std::vector<double> { 0.001, 0.01, 0.2, 0.4, 0.5 }));
    bool alt = r.p(0.3);
    if (alt)
      c->useAlternativeFactorization(true);
    int type = 0;
    if (r.p(0.35)) {
      type = r.pick(std::vector<int> { 1, 2, 11, 12, 21, 22 });
      c->passInOriginalSolver(&si);
      c->setGomoryType(type);
    }
    gbaseRand(r, *c);
    d = fmt("gomory limit=%d,%d away=%g,%g alt=%d type=%d", lim, limr, aw, awr, alt, type);
    return c;
  };
  g.modelFree = [](const std::string &d) { return d.find("type=0") != std::string::npos; };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglGomory; };
  g.settings = [](const CglCutGenerator &b) {
    const CglGomory &c = dynamic_cast<const CglGomory &>(b);
    return gbase(b) + fmt("limit=%d,%d away=%.17g,%.17g alt=%d type=%d cond=%g fact=%g", c.getLimit(), c.getLimitAtRoot(), c.getAway(), c.getAwayAtRoot(), c.alternativeFactorization(), c.gomoryType(), c.getConditionNumberMultiplier(), c.getLargestFactorMultiplier());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglGomory &c = dynamic_cast<CglGomory &>(b);
    c.setLimit(r.in(1, 4));
    c.setAway(0.3 + 0.1 * r.u());
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(gomory());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglGomory T;
  Def<T> d("CglGomory");
  d.generator(true, false);
  d.assignable();
  d.add("setLimit", ints(0, 100000, false, true), INT(T, setLimit), GET(T, getLimit)).exported = true;
  d.add("setLimitAtRoot", ints(0, 100000, false, true), INT(T, setLimitAtRoot), GET(T, getLimitAtRoot)).exported = true;
  d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway)).exported = true;
  d.add("setAwayAtRoot", dbl(0, 0.5, true), NUM(T, setAwayAtRoot), GET(T, getAwayAtRoot)).exported = true;
  d.add("setConditionNumberMultiplier", dbl(0, 1, false, false, true), NUM(T, setConditionNumberMultiplier), GET(T, getConditionNumberMultiplier));
  d.add("setLargestFactorMultiplier", dbl(0, 1, false, false, true), NUM(T, setLargestFactorMultiplier), GET(T, getLargestFactorMultiplier));
  d.add("setGomoryType", ints(0, 30, true, true), INT(T, setGomoryType), GET(T, gomoryType));
  d.add("useAlternativeFactorization", boolean(), BOOL(T, useAlternativeFactorization), GET(T, alternativeFactorization));
  d.c.use = nullptr;
  return d.c;
}
static st::RegClass r2(settingsOf());
}
