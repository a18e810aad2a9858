#include "gshim.hpp"
#include "../settings.hpp"
#include "CglTwomir.hpp"
namespace vm {
static GenSpec twomir()
{
  GenSpec g;
  g.name = "twomir";
  g.families = FAM_BASIS;
  g.needsBasis = true;
  GCOMMON(CglTwomir)
  g.make = [](Rng &r, const Model &, OsiClpSolverInterface &si, std::string &d) -> CglCutGenerator * {
    CglTwomir *c = new CglTwomir;
    d = "twomir";
    if (r.p(0.4)) {
      int a = r.in(1, 3), b = a + r.below(4);
      c->setMirScale(a, b);
      d += fmt(" t=%d,%d", a, b);
    }
    if (r.p(0.4)) {
      int a = r.in(1, 3), b = a + r.below(4);
      c->setTwomirScale(a, b);
      d += fmt(" q=%d,%d", a, b);
    }
    if (r.p(0.3)) {
      int a = r.in(1, 4);
      c->setAMax(a);
      d += fmt(" a=%d", a);
    }
    if (r.p(0.4)) {
      int n = r.in(2, 10);
      c->setMaxElements(n);
      d += fmt(" elements=%d", n);
    }
    if (r.p(0.4)) {
      int n = r.in(2, 10);
      c->setMaxElementsRoot(n);
      d += fmt(" rootelements=%d", n);
    }
    if (r.p(0.5)) {
      int k = r.in(1, 15);
      c->setCutTypes(k & 1, k & 2, k & 4, k & 8);
      d += fmt(" types=%d", k);
    }
    if (r.p(0.3)) {
      double v = r.pick(std::vector<double> { 0.001, 0.01, 0.1, 0.3 });
      c->setAway(v);
      double w = r.pick(std::vector<double> { 0.001, 0.01, 0.1, 0.3 });
      c->setAwayAtRoot(w);
      d += fmt(" away=%g,%g", v, w);
    }
    if (r.p(0.3)) {
      int type = r.pick(std::vector<int> { 1, 2, 11, 12, 21, 22 });
      c->passInOriginalSolver(&si);
      c->setTwomirType(type);
      d += fmt(" original=%d", type);
    }
    gbaseRand(r, *c);
    return c;
  };
  // rows of the formulation are chosen with the object's own random numbers; the private copy of
  // the original model is solved again from where it was left
  g.stateful = [](const std::string &d) {
    size_t t = d.find("types=");
    return d.find("original") != std::string::npos || t == std::string::npos || (atoi(d.c_str() + t + 6) & 8);
  };
  g.modelFree = [](const std::string &d) { return d.find("original") == std::string::npos; };
  g.makeQuiet = [](const Model &, OsiClpSolverInterface &) -> CglCutGenerator * { return new CglTwomir; };
  g.settings = [](const CglCutGenerator &b) {
    const CglTwomir &c = dynamic_cast<const CglTwomir &>(b);
    return gbase(b) + fmt("t=%d,%d q=%d,%d a=%d el=%d,%d if=%d%d%d%d away=%.17g,%.17g type=%d", c.getTmin(), c.getTmax(), c.getQmin(), c.getQmax(), c.getAmax(), c.getMaxElements(), c.getMaxElementsRoot(), c.getIfMir(), c.getIfTwomir(), c.getIfTableau(), c.getIfFormulation(), c.getAway(), c.getAwayAtRoot(), c.twomirType());
  };
  g.perturb = [](Rng &r, CglCutGenerator &b) {
    CglTwomir &c = dynamic_cast<CglTwomir &>(b);
    c.setMaxElements(r.in(1, 4));
    c.setAway(0.3 + 0.1 * r.u());
    c.setAggressiveness(r.below(50));
  };
  return g;
}
static Reg r1(twomir());
// settings
static st::Class settingsOf()
{
  using namespace st;
  typedef CglTwomir T;
  Def<T> d("CglTwomir");
  d.generator(true, false);
  d.assignable();
  // two arguments a, b as 100 a + b
  auto two = [](const std::string &arg) {
    int a = -1, b = -1, n = 0;
    return sscanf(arg.c_str(), "%d,%d%n", &a, &b, &n) == 2 && n == static_cast<int>(arg.size()) ? 100.0 * a + b : -1.0;
  };
  Setting &s1 = d.add("setMirScale", ints(0, 9999, true, true), [](T &t, double v) { t.setMirScale(static_cast<int>(v) / 100, static_cast<int>(v) % 100); }, [](const T &t) { return 100 * t.getTmin() + t.getTmax(); });
  s1.exported = true;
  s1.parse = two;
  Setting &s2 = d.add("setTwomirScale", ints(0, 9999, true, true), [](T &t, double v) { t.setTwomirScale(static_cast<int>(v) / 100, static_cast<int>(v) % 100); }, [](const T &t) { return 100 * t.getQmin() + t.getQmax(); });
  s2.exported = true;
  s2.parse = two;
  Setting &s3 = d.add("setCutTypes", ints(0, 15, true, true), [](T &t, double v) { int k = static_cast<int>(v); t.setCutTypes(k & 1, k & 2, k & 4, k & 8); }, [](const T &t) { return t.getIfMir() + 2 * t.getIfTwomir() + 4 * t.getIfTableau() + 8 * t.getIfFormulation(); });
  s3.exported = true;
  for (int k = 0; k < 16; k++)
    s3.words.push_back(std::string(k & 1 ? "true" : "false") + (k & 2 ? ",true" : ",false") + (k & 4 ? ",true" : ",false") + (k & 8 ? ",true" : ",false"));
  d.add("setAMax", ints(0, 100, true, true), INT(T, setAMax), GET(T, getAmax)).exported = true;
  d.add("setMaxElements", ints(0, 100000, true, true), INT(T, setMaxElements), GET(T, getMaxElements)).exported = true;
  d.add("setMaxElementsRoot", ints(0, 100000, true, true), INT(T, setMaxElementsRoot), GET(T, getMaxElementsRoot)).exported = true;
  d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway));
  d.add("setAwayAtRoot", dbl(0, 0.5, true), NUM(T, setAwayAtRoot), GET(T, getAwayAtRoot));
  d.add("setTwomirType", ints(0, 30, true, true), INT(T, setTwomirType), GET(T, twomirType));
  d.c.use = nullptr;
  return d.c;
}
static st::RegClass r2(settingsOf());
}
