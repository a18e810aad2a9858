#include "gshim.hpp"
#include "../settings.hpp"
#include "CglGMI.hpp"
namespace vm {
static GenSpec gmi()
{
  GenSpec g;
  g.name = "gmi";
  g.families = FAM_BASIS;
  g.needsBasis = true;
  GCOMMON(CglGMI)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &, std::string &d) -> CglCutGenerator * {
    CglGMIParam p;
    d = "gmi";
    if (r.p(0.4)) {
      double v = r.pick(std::vector<double> { 0.001, 0.01, 0.1, 0.3 });
      p.setAway(v);
      d += fmt(" away=%g", v);
    }
    if (r.p(0.4)) {
      int v = r.in(1, 8);
      p.setMAX_SUPPORT(v);
      p.setMAX_SUPPORT_REL(0.0);
      d += fmt(" supp=%d", v);
    }
    if (r.p(0.3)) {
      double v = r.pick(std::vector<double> { 1e-4, 0.01, 0.1 });
      p.setMINVIOL(v);
      d += fmt(" minviol=%g", v);
    }
    if (r.p(0.3)) {
      double v = r.pick(std::vector<double> { 1e2, 1e3, 1e8 });
      p.setMAXDYN(v);
      d += fmt(" maxdyn=%g", v);
    }
    if (r.p(0.5)) {
      p.setUSE_INTSLACKS(true);
      d += " intslacks";
    }
    if (r.p(0.3)) {
      p.setINTEGRAL_SCALE_CONT(true);
      d += " intscalecont";
    }
    if (r.p(0.3)) {
      CglGMIParam::CleaningProcedure c = r.pick(std::vector<CglGMIParam::CleaningProcedure> { CglGMIParam::CP_CGLLANDP1, CglGMIParam::CP_CGLLANDP2, CglGMIParam::CP_CGLREDSPLIT, CglGMIParam::CP_INTEGRAL_CUTS });
      p.setCLEAN_PROC(c);
      d += fmt(" clean=%d", static_cast<int>(c));
    }
    CglGMI *c = new CglGMI(p);
    gbaseRand(r, *c);
    return c;
  };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglGMI; };
  g.settings = [](const CglCutGenerator &b) {
    CglGMIParam p = dynamic_cast<const CglGMI &>(b).getParam();
    return gbase(b) + fmt("away=%.17g ms=%d msr=%g mv=%g md=%g is=%d isc=%d cl=%d eps=%g epsc=%g", p.getAway(), p.getMAX_SUPPORT(), p.getMAX_SUPPORT_REL(), p.getMINVIOL(), p.getMAXDYN(), p.getUSE_INTSLACKS(), p.getINTEGRAL_SCALE_CONT(), static_cast<int>(p.getCLEAN_PROC()), p.getEPS(), p.getEPS_COEFF());
  };
  g.minViolOf = [](const CglCutGenerator &b, OsiClpSolverInterface &) { return dynamic_cast<const CglGMI &>(b).getParam().getMINVIOL() * 0.0; };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglGMI &c = dynamic_cast<CglGMI &>(b);
    CglGMIParam p = c.getParam();
    p.setAway(0.4 + 0.1 * r.u());
    p.setMAX_SUPPORT(2);
    c.setParam(p);
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(gmi());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglGMI T;
  Def<T> d("CglGMI");
  d.generator(true, false);
  d.assignable();
  d.c.use = nullptr;
  d.add("getParam().setMAX_SUPPORT", ints(1, 2000000000, false, true), [](T &t, double v) { t.getParam().setMAX_SUPPORT(static_cast<int>(v)); }, [](const T &t) { return t.getParam().getMAX_SUPPORT(); }).exported = true;
  d.add("getParam().setAway", dbl(0, 0.5, true), [](T &t, double v) { t.getParam().setAway(v); }, [](const T &t) { return t.getParam().getAway(); }).exported = true;
  d.add("getParam().setEPS", dbl(0, 1, false, false, true), [](T &t, double v) { t.getParam().setEPS(v); }, [](const T &t) { return t.getParam().getEPS(); }).exported = true;
  d.add("getParam().setEPS_COEFF", dbl(0, 1, false, false, true), [](T &t, double v) { t.getParam().setEPS_COEFF(v); }, [](const T &t) { return t.getParam().getEPS_COEFF(); }).exported = true;
  d.add("getParam().setEPS_RELAX_ABS", dbl(0, 1, false, false, true), [](T &t, double v) { t.getParam().setEPS_RELAX_ABS(v); }, [](const T &t) { return t.getParam().getEPS_RELAX_ABS(); }).exported = true;
  d.add("param.MAXDYN", dbl(1, 1e9, false, false, true), [](T &t, double v) { CglGMIParam p = t.getParam(); p.setMAXDYN(v); t.setParam(p); }, [](const T &t) { return t.getParam().getMAXDYN(); });
  d.add("param.MINVIOL", dbl(0, 1, false, false, true), [](T &t, double v) { CglGMIParam p = t.getParam(); p.setMINVIOL(v); t.setParam(p); }, [](const T &t) { return t.getParam().getMINVIOL(); });
  d.add("param.EPS_ELIM", dbl(0, 1, false, false, true), [](T &t, double v) { CglGMIParam p = t.getParam(); p.setEPS_ELIM(v); t.setParam(p); }, [](const T &t) { return t.getParam().getEPS_ELIM(); });
  return d.c;
}
static st::RegClass r2(settingsOf());
}
