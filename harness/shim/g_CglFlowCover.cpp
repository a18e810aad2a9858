#include "gshim.hpp"
#include "../settings.hpp"
#include "CglFlowCover.hpp"
namespace vm {
static GenSpec flowcover()
{
  GenSpec g;
  g.name = "flowcover";
  g.families = { "flow", "flow", "flow", "mixed01", "mixed01", "mixed", "knap", "degenerate" };
  GCOMMON(CglFlowCover)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglFlowCover *c = new CglFlowCover;
    int mx = 2000;
    if (r.p(0.2))
      c->setMaxNumCuts(mx = r.in(1, 3));
    gbaseRand(r, *c);
    d = fmt("flowcover max=%d", mx);
    return c;
  };
  g.stateful = [](const std::string &d) { return d.find("max=2000") == std::string::npos; }; // getNumFlowCuts() counts over all calls
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglFlowCover; };
  g.settings = [](const CglCutGenerator &b) { return gbase(b) + fmt("max=%d", dynamic_cast<const CglFlowCover &>(b).getMaxNumCuts()); };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglFlowCover &c = dynamic_cast<CglFlowCover &>(b);
    c.setMaxNumCuts(r.in(1, 3));
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(flowcover());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglFlowCover T;
  Def<T> d("CglFlowCover");
  d.generator(true, false);
  d.assignable();
  d.add("setMaxNumCuts", ints(0, 100000, true, true), INT(T, setMaxNumCuts), GET(T, getMaxNumCuts)).exported = true;
  return d.c;
}
static st::RegClass r2(settingsOf());
}
