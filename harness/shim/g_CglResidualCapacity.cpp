#include "gshim.hpp"
#include "../settings.hpp"
#include "CglResidualCapacity.hpp"
namespace vm {
static GenSpec rescap()
{
  GenSpec g;
  g.name = "rescapacity";
  g.families = { "flow", "flow", "mixed", "mixed", "genint" };
  GCOMMON(CglResidualCapacity)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglResidualCapacity *c = new CglResidualCapacity;
    double eps = 0, tol = 0;
    int pre = -1;
    if (r.p(0.3))
      c->setEpsilon(eps = r.pick(std::vector<double> { 1e-6, 1e-4 }));
    if (r.p(0.3))
      c->setTolerance(tol = r.pick(std::vector<double> { 1e-6, 1e-4, 1e-2 }));
    if (r.p(0.5))
      c->setDoPreproc(pre = r.in(-1, 1));
    gbaseRand(r, *c);
    d = fmt("rescapacity eps=%g tol=%g preproc=%d", eps, tol, pre);
    return c;
  };
  // the preprocessing is kept unless it is asked for at every call
  g.modelFree = [](const std::string &d) { return d.find("preproc=1") != std::string::npos; };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglResidualCapacity; };
  g.settings = [](const CglCutGenerator &b) {
    const CglResidualCapacity &c = dynamic_cast<const CglResidualCapacity &>(b);
    return gbase(b) + fmt("eps=%.17g tol=%.17g pre=%d", c.getEpsilon(), c.getTolerance(), c.getDoPreproc());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglResidualCapacity &c = dynamic_cast<CglResidualCapacity &>(b);
    c.setTolerance(0.3 + 0.1 * r.u());
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(rescap());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglResidualCapacity T;
  Def<T> d("CglResidualCapacity");
  d.generator(false, false);
  d.assignable();
  d.add("setEpsilon", dbl(0, 1, true, true, true), NUM(T, setEpsilon), GET(T, getEpsilon));
  d.add("setTolerance", dbl(0, 1, true, true, true), NUM(T, setTolerance), GET(T, getTolerance));
  auto &m = d.add("setDoPreproc", ints(-1, 1), INT(T, setDoPreproc), GET(T, getDoPreproc));
  m.view = [](double v) { return v != 0 ? 1.0 : 0.0; };
  return d.c;
}
static st::RegClass r2(settingsOf());
}
