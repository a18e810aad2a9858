#include "gshim.hpp"
#include "../settings.hpp"
#include "CglMixedIntegerRounding2.hpp"
namespace vm {
static GenSpec mir2()
{
  GenSpec g;
  g.name = "mir2";
  g.families = { "mixed", "mixed", "mixed01", "flow", "flow", "genint", "knap", "degenerate" };
  g.refresh = true;
  GCOMMON(CglMixedIntegerRounding2)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    int aggr = r.in(1, 4), crit = r.in(1, 3), pre = r.in(-1, 1);
    bool mult = r.p(0.5);
    CglMixedIntegerRounding2 *c = new CglMixedIntegerRounding2(aggr, mult, crit, pre);
    gbaseRand(r, *c);
    d = fmt("mir2 aggr=%d multiply=%d criterion=%d preproc=%d", aggr, mult, crit, pre);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglMixedIntegerRounding2; };
  g.settings = [](const CglCutGenerator &b) {
    const CglMixedIntegerRounding2 &c = dynamic_cast<const CglMixedIntegerRounding2 &>(b);
    return gbase(b) + fmt("a=%d m=%d c=%d p=%d", c.getMAXAGGR_(), c.getMULTIPLY_(), c.getCRITERION_(), c.getDoPreproc());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglMixedIntegerRounding2 &c = dynamic_cast<CglMixedIntegerRounding2 &>(b);
    c.setMAXAGGR_(c.getMAXAGGR_() == 1 ? 3 : 1);
    c.setMULTIPLY_(!c.getMULTIPLY_());
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(mir2());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglMixedIntegerRounding2 T;
  Def<T> d("CglMixedIntegerRounding2");
  d.generator(true, false);
  d.assignable();
  d.add("setMAXAGGR_", ints(1, 100, true, true), [](T &t, double v) { t.setMAXAGGR_(static_cast<int>(v)); }, GET(T, getMAXAGGR_)).exported = true;
  d.add("setMULTIPLY_", boolean(), BOOL(T, setMULTIPLY_), GET(T, getMULTIPLY_)).exported = true;
  d.add("setCRITERION_", ints(1, 3), INT(T, setCRITERION_), GET(T, getCRITERION_)).exported = true;
  auto &m = d.add("setDoPreproc", ints(-1, 1), INT(T, setDoPreproc), GET(T, getDoPreproc));
  m.view = [](double v) { return v != 0 ? 1.0 : 0.0; };
  m.exported = true;
  return d.c;
}
static st::RegClass r2(settingsOf());
}
