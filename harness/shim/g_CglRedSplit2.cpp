#include "gshim.hpp"
#include "../settings.hpp"
#include "CglRedSplit2.hpp"
namespace vm {
static GenSpec rs2()
{
  GenSpec g;
  g.name = "redsplit2";
  g.families = FAM_BASIS;
  g.needsBasis = true;
  GCOMMON(CglRedSplit2)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglRedSplit2Param p;
    d = "redsplit2";
    if (r.p(0.4)) {
      double v = r.pick(std::vector<double> { 0.001, 0.01, 0.1, 0.3 });
      p.setAway(v);
      d += fmt(" away=%g", v);
    }
    if (r.p(0.3)) {
      int v = r.in(1, 8);
      p.setMAX_SUPP_ABS(v);
      p.setMAX_SUPP_REL(0.0);
      d += fmt(" supp=%d", v);
    }
    if (r.p(0.5)) {
      p.setUSE_INTSLACKS(true);
      d += " intslacks";
    }
    if (r.p(0.3)) {
      p.setMaxNumCuts(r.in(1, 5));
      d += " maxcuts";
    }
    if (r.p(0.3)) {
      p.setNormalization(r.p(0.5) ? 1.0 : 0.0);
    }
    CglRedSplit2 *c = new CglRedSplit2(p);
    gbaseRand(r, *c);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglRedSplit2; };
  g.settings = [](const CglCutGenerator &b) {
    CglRedSplit2Param &p = const_cast<CglRedSplit2 &>(dynamic_cast<const CglRedSplit2 &>(b)).getParam();
    return gbase(b) + fmt("away=%.17g ms=%d msr=%g is=%d nc=%d", p.getAway(), p.getMAX_SUPP_ABS(), p.getMAX_SUPP_REL(), p.getUSE_INTSLACKS(), p.getMaxNumCuts());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglRedSplit2 &c = dynamic_cast<CglRedSplit2 &>(b);
    CglRedSplit2Param p = c.getParam();
    p.setAway(0.4 + 0.1 * r.u());
    c.setParam(p);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(rs2());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglRedSplit2 T;
  Def<T> d("CglRedSplit2");
  d.generator(false, false);
  d.assignable();
  d.c.use = nullptr;
  d.add("param.Away", dbl(0, 0.5, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setAway(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getAway(); });
  d.add("param.MINVIOL", dbl(0, 0.1, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setMINVIOL(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getMINVIOL(); });
  d.add("param.NormIsZero", dbl(0, 1, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setNormIsZero(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getNormIsZero(); });
  d.add("param.MinNormReduction", dbl(0, 1, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setMinNormReduction(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getMinNormReduction(); });
  d.add("param.MaxNumCuts", ints(0, 1000000, false, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setMaxNumCuts(static_cast<int>(v)); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getMaxNumCuts(); });
  d.add("param.MAX_SUPP_REL", dbl(0, 1, false), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setMAX_SUPP_REL(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getMAX_SUPP_REL(); });
  d.add("param.TimeLimit", dbl(0, 1e6, false, true, true), [](T &t, double v) { CglRedSplit2Param p = t.getParam(); p.setTimeLimit(v); t.setParam(p); }, [](const T &t) { return const_cast<T &>(t).getParam().getTimeLimit(); });
  return d.c;
}
static st::RegClass r2(settingsOf());
}
