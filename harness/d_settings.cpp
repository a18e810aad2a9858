// C18: settings. Every object is mirrored by a table of reference values; after every operation all
// getters are compared with it, and the code exported by generateCpp is interpreted.
#include "settings.hpp"
#include "CglAllDifferent.hpp"
#include "CglClique.hpp"
#include "CglDuplicateRow.hpp"
#include "CglGMIParam.hpp"
#include "CglKnapsackCover.hpp"
#include "CglLiftAndProject.hpp"
#include "CglMixedIntegerRounding.hpp"
#include "CglOddHole.hpp"
#include "CglParam.hpp"
#include "CglRedSplit.hpp"
#include "CglRedSplit2Param.hpp"
#include "CglSimpleRounding.hpp"
#include "CglStored.hpp"
#include "CglZeroHalf.hpp"
namespace vm {
namespace st {
std::vector<Class> &shimClasses()
{
  static std::vector<Class> c;
  return c;
}
}
namespace {
using namespace st;
std::vector<Class> &classes()
{
  static std::vector<Class> c;
  return c;
}

template <class T> void common(Def<T> &d) // CglParam
{
  d.add("setINFINIT", dbl(0, 1e300, true, false, true), NUM(T, setINFINIT), GET(T, getINFINIT));
  d.add("setEPS", dbl(0, 1, false, false, true), NUM(T, setEPS), GET(T, getEPS));
  d.add("setEPS_COEFF", dbl(0, 1, false, false, true), NUM(T, setEPS_COEFF), GET(T, getEPS_COEFF));
  d.add("setMAX_SUPPORT", ints(1, 2000000000, false, true), INT(T, setMAX_SUPPORT), GET(T, getMAX_SUPPORT));
  d.assignable();
}

void define()
{
  if (!classes().empty())
    return;
  {
    Def<CglParam> d("CglParam");
    common(d);
    classes().push_back(d.c);
  }
  {
    typedef CglRedSplitParam T;
    Def<T> d("CglRedSplitParam");
    common(d);
    d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway));
    d.add("setLUB", dbl(0, 1e9, true, false, true), NUM(T, setLUB), GET(T, getLUB));
    d.add("setEPS_ELIM", dbl(0, 1, false, false, true), NUM(T, setEPS_ELIM), GET(T, getEPS_ELIM));
    d.add("setEPS_RELAX_ABS", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_ABS), GET(T, getEPS_RELAX_ABS));
    d.add("setEPS_RELAX_REL", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_REL), GET(T, getEPS_RELAX_REL));
    d.add("setMAXDYN", dbl(1, 1e9, true, false, true), NUM(T, setMAXDYN), GET(T, getMAXDYN));
    d.add("setMAXDYN_LUB", dbl(1, 1e9, true, false, true), NUM(T, setMAXDYN_LUB), GET(T, getMAXDYN_LUB));
    d.add("setEPS_COEFF_LUB", dbl(0, 0.1, true), NUM(T, setEPS_COEFF_LUB), GET(T, getEPS_COEFF_LUB));
    d.add("setMINVIOL", dbl(0, 0.1, true), NUM(T, setMINVIOL), GET(T, getMINVIOL));
    d.add("setUSE_INTSLACKS", ints(0, 1, true, true), INT(T, setUSE_INTSLACKS), GET(T, getUSE_INTSLACKS));
    d.add("setUSE_CG2", ints(0, 1, true, true), INT(T, setUSE_CG2), GET(T, getUSE_CG2));
    d.add("setNormIsZero", dbl(0, 1, true), NUM(T, setNormIsZero), GET(T, getNormIsZero));
    d.add("setMinReduc", dbl(0, 1, true), NUM(T, setMinReduc), GET(T, getMinReduc));
    d.add("setMaxTab", dbl(10, 1e9, true, false, true), NUM(T, setMaxTab), GET(T, getMaxTab));
    classes().push_back(d.c);
  }
  {
    typedef CglGMIParam T;
    Def<T> d("CglGMIParam");
    common(d);
    d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway));
    d.add("setEPS_ELIM", dbl(0, 1, false, false, true), NUM(T, setEPS_ELIM), GET(T, getEPS_ELIM));
    d.add("setEPS_RELAX_ABS", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_ABS), GET(T, getEPS_RELAX_ABS));
    d.add("setEPS_RELAX_REL", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_REL), GET(T, getEPS_RELAX_REL));
    d.add("setMAXDYN", dbl(1, 1e9, false, false, true), NUM(T, setMAXDYN), GET(T, getMAXDYN));
    d.add("setMINVIOL", dbl(0, 1, false, false, true), NUM(T, setMINVIOL), GET(T, getMINVIOL));
    d.add("setMAX_SUPPORT_REL", dbl(0, 1, false), NUM(T, setMAX_SUPPORT_REL), GET(T, getMAX_SUPPORT_REL));
    d.add("setUSE_INTSLACKS", boolean(), BOOL(T, setUSE_INTSLACKS), GET(T, getUSE_INTSLACKS));
    d.add("setCHECK_DUPLICATES", boolean(), BOOL(T, setCHECK_DUPLICATES), GET(T, getCHECK_DUPLICATES));
    d.add("setINTEGRAL_SCALE_CONT", boolean(), BOOL(T, setINTEGRAL_SCALE_CONT), GET(T, getINTEGRAL_SCALE_CONT));
    d.add("setENFORCE_SCALING", boolean(), BOOL(T, setENFORCE_SCALING), GET(T, getENFORCE_SCALING));
    d.add("setCLEAN_PROC", ints(0, 6, true, true), [](T &t, double v) { t.setCLEAN_PROC(static_cast<T::CleaningProcedure>(static_cast<int>(v))); }, GET(T, getCLEAN_PROC));
    classes().push_back(d.c);
  }
  {
    typedef CglRedSplit2Param T;
    Def<T> d("CglRedSplit2Param");
    common(d);
    d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway));
    d.add("setEPS_ELIM", dbl(0, 1, false, false, true), NUM(T, setEPS_ELIM), GET(T, getEPS_ELIM));
    d.add("setEPS_RELAX_ABS", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_ABS), GET(T, getEPS_RELAX_ABS));
    d.add("setEPS_RELAX_REL", dbl(0, 1, false, false, true), NUM(T, setEPS_RELAX_REL), GET(T, getEPS_RELAX_REL));
    d.add("setMAXDYN", dbl(1, 1e9, true, false, true), NUM(T, setMAXDYN), GET(T, getMAXDYN));
    d.add("setMINVIOL", dbl(0, 0.1, true), NUM(T, setMINVIOL), GET(T, getMINVIOL));
    d.add("setMAX_SUPP_REL", dbl(0, 1, false), NUM(T, setMAX_SUPP_REL), GET(T, getMAX_SUPP_REL));
    d.add("setUSE_INTSLACKS", ints(0, 1, true, true), INT(T, setUSE_INTSLACKS), GET(T, getUSE_INTSLACKS));
    d.add("setNormIsZero", dbl(0, 1, true), NUM(T, setNormIsZero), GET(T, getNormIsZero));
    d.add("setMinNormReduction", dbl(0, 1, true), NUM(T, setMinNormReduction), GET(T, getMinNormReduction));
    d.add("setMaxSumMultipliers", ints(2, 1000000, false, true), INT(T, setMaxSumMultipliers), GET(T, getMaxSumMultipliers));
    d.add("setNormalization", dbl(0, 1, false, false, true), NUM(T, setNormalization), GET(T, getNormalization));
    d.add("setTimeLimit", dbl(0, 1e6, false, true, true), NUM(T, setTimeLimit), GET(T, getTimeLimit));
    d.add("setMaxNumCuts", ints(0, 1000000, false, true), INT(T, setMaxNumCuts), GET(T, getMaxNumCuts));
    d.add("setMaxNumComputedCuts", ints(0, 1000000, false, true), INT(T, setMaxNumComputedCuts), GET(T, getMaxNumComputedCuts));
    d.add("setMaxNonzeroesTab", ints(0, 1000000, false, true), INT(T, setMaxNonzeroesTab), GET(T, getMaxNonzeroesTab));
    d.add("setColumnScalingBoundLAP", dbl(0, 100, false, false, true), NUM(T, setColumnScalingBoundLAP), GET(T, getColumnScalingBoundLAP));
    d.add("setColumnScalingStrategyLAP", ints(0, 5, true, true), [](T &t, double v) { t.setColumnScalingStrategyLAP(static_cast<T::ColumnScalingStrategy>(static_cast<int>(v))); }, GET(T, getColumnScalingStrategyLAP));
    d.add("setSkipGomory", ints(0, 1), INT(T, setSkipGomory), GET(T, getSkipGomory));
    classes().push_back(d.c);
  }
  {
    typedef CglClique T;
    Def<T> d("CglClique");
    d.generator(true);
    auto &m = d.addBlind("setStarCliqueNextNodeMethod", ints(0, 2, true, true), [](T &t, double v) { t.setStarCliqueNextNodeMethod(static_cast<T::scl_next_node_method>(static_cast<int>(v))); });
    m.words = { "CglClique::SCL_MIN_DEGREE", "CglClique::SCL_MAX_DEGREE", "CglClique::SCL_MAX_XJ_MAX_DEG" };
    m.exported = true;
    d.addBlind("setStarCliqueCandidateLengthThreshold", ints(0, 100, true, true), INT(T, setStarCliqueCandidateLengthThreshold)).exported = true;
    d.addBlind("setRowCliqueCandidateLengthThreshold", ints(0, 100, true, true), INT(T, setRowCliqueCandidateLengthThreshold)).exported = true;
    for (int k = 0; k < 4; k++) {
      Setting &b = k == 0 ? d.addBlind("setStarCliqueReport", boolean(), BOOL(T, setStarCliqueReport)) : k == 1 ? d.addBlind("setRowCliqueReport", boolean(), BOOL(T, setRowCliqueReport))
        : k == 2                                                                                      ? d.addBlind("setDoStarClique", boolean(), BOOL(T, setDoStarClique))
                                                                                                      : d.addBlind("setDoRowClique", boolean(), BOOL(T, setDoRowClique));
      b.words = { "false", "true" };
      b.exported = true;
    }
    d.add("setMinViolation", dbl(0, 1, true, true, true), NUM(T, setMinViolation), GET(T, getMinViolation)).exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglAllDifferent T;
    Def<T> d("CglAllDifferent");
    d.generator(true);
    d.assignable();
    d.add("setLogLevel", ints(0, 3, true, true), INT(T, setLogLevel), GET(T, getLogLevel)).exported = true;
    d.add("setMaxLook", ints(0, 50, true, true), INT(T, setMaxLook), GET(T, getMaxLook)).exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglDuplicateRow T;
    Def<T> d("CglDuplicateRow");
    d.generator(true);
    d.c.use = nullptr; // needs a model with rows
    d.assignable();
    d.add("setLogLevel", ints(0, 3, true, true), INT(T, setLogLevel), GET(T, logLevel)).exported = true;
    d.add("setMaximumRhs", ints(0, 500, true, true), INT(T, setMaximumRhs), GET(T, maximumRhs)).exported = true;
    d.add("setMaximumDominated", ints(0, 500, true, true), INT(T, setMaximumDominated), GET(T, maximumDominated)).exported = true;
    d.add("setMode", ints(0, 8, true, true), INT(T, setMode), GET(T, mode)).exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglKnapsackCover T;
    Def<T> d("CglKnapsackCover");
    d.generator(true);
    d.assignable();
    d.add("setMaxInKnapsack", ints(1, 100000, false, true), INT(T, setMaxInKnapsack), GET(T, getMaxInKnapsack)).exported = true;
    auto &m = d.addBlind("expensive", boolean(), [](T &t, double v) { v != 0 ? t.switchOnExpensive() : t.switchOffExpensive(); });
    m.on = "switchOnExpensive";
    m.off = "switchOffExpensive";
    m.exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglLiftAndProject T;
    Def<T> d("CglLiftAndProject");
    d.generator(true);
    d.assignable();
    // admissible: -1 and 1, written as 2k-1
    auto &m = d.add("setBeta", ints(0, 1), INT(T, setBeta), GET(T, getBeta));
    m.exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglMixedIntegerRounding T;
    Def<T> d("CglMixedIntegerRounding");
    d.generator(true);
    d.assignable();
    d.add("setMAXAGGR_", ints(1, 100, false, true), INT(T, setMAXAGGR_), GET(T, getMAXAGGR_)).exported = true;
    d.add("setMULTIPLY_", boolean(), BOOL(T, setMULTIPLY_), GET(T, getMULTIPLY_)).exported = true;
    d.add("setCRITERION_", ints(1, 3), INT(T, setCRITERION_), GET(T, getCRITERION_)).exported = true;
    auto &m = d.add("setDoPreproc", ints(-1, 1), INT(T, setDoPreproc), GET(T, getDoPreproc));
    m.view = [](double v) { return v != 0 ? 1.0 : 0.0; };
    m.exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglOddHole T;
    Def<T> d("CglOddHole");
    d.generator(false);
    d.assignable();
    d.add("setMinimumViolation", dbl(1e-8, 0.5, true), NUM(T, setMinimumViolation), GET(T, getMinimumViolation));
    d.add("setMinimumViolationPer", dbl(1e-8, 0.25, true), NUM(T, setMinimumViolationPer), GET(T, getMinimumViolationPer));
    d.add("setMaximumEntries", ints(3, 100000, false, true), INT(T, setMaximumEntries), GET(T, getMaximumEntries));
    classes().push_back(d.c);
  }
  {
    typedef CglRedSplit T;
    Def<T> d("CglRedSplit");
    d.generator(true);
    d.assignable();
    d.add("setLimit", ints(1, 100000, false, true), INT(T, setLimit), GET(T, getLimit)).exported = true;
    d.add("setAway", dbl(0, 0.5, true), NUM(T, setAway), GET(T, getAway)).exported = true;
    d.add("setLUB", dbl(0, 1e9, true, false, true), NUM(T, setLUB), GET(T, getLUB)).exported = true;
    d.add("setEPS", dbl(0, 0.1, true), NUM(T, setEPS), GET(T, getEPS)).exported = true;
    d.add("setEPS_COEFF", dbl(0, 0.1, true), NUM(T, setEPS_COEFF), GET(T, getEPS_COEFF)).exported = true;
    d.add("setEPS_COEFF_LUB", dbl(0, 0.1, true), NUM(T, setEPS_COEFF_LUB), GET(T, getEPS_COEFF_LUB)).exported = true;
    d.add("setEPS_RELAX", dbl(0, 0.1, true), NUM(T, setEPS_RELAX), GET(T, getEPS_RELAX)).exported = true;
    d.add("setNormIsZero", dbl(0, 1, true), NUM(T, setNormIsZero), GET(T, getNormIsZero)).exported = true;
    d.add("setMinReduc", dbl(0, 1, true), NUM(T, setMinReduc), GET(T, getMinReduc)).exported = true;
    d.add("setMaxTab", dbl(10, 1e9, true, false, true), NUM(T, setMaxTab), GET(T, getMaxTab)).exported = true;
    // through the parameter object
    d.add("param.MINVIOL", dbl(0, 0.1, true), [](T &t, double v) { CglRedSplitParam p = t.getParam(); p.setMINVIOL(v); t.setParam(p); }, [](const T &t) { return t.getParam().getMINVIOL(); });
    d.add("param.MAXDYN", dbl(1, 1e9, true, false, true), [](T &t, double v) { CglRedSplitParam p = t.getParam(); p.setMAXDYN(v); t.setParam(p); }, [](const T &t) { return t.getParam().getMAXDYN(); });
    d.add("param.MAXDYN_LUB", dbl(1, 1e9, true, false, true), [](T &t, double v) { CglRedSplitParam p = t.getParam(); p.setMAXDYN_LUB(v); t.setParam(p); }, [](const T &t) { return t.getParam().getMAXDYN_LUB(); });
    d.add("param.USE_CG2", ints(0, 1, true, true), [](T &t, double v) { CglRedSplitParam p = t.getParam(); p.setUSE_CG2(static_cast<int>(v)); t.setParam(p); }, [](const T &t) { return t.getParam().getUSE_CG2(); });
    classes().push_back(d.c);
  }
  {
    typedef CglSimpleRounding T;
    Def<T> d("CglSimpleRounding");
    d.generator(true);
    d.assignable();
    classes().push_back(d.c);
  }
  {
    typedef CglZeroHalf T;
    Def<T> d("CglZeroHalf");
    d.generator(true);
    d.assignable();
    d.add("setFlags", ints(0, 3, true, true), INT(T, setFlags), GET(T, getFlags)).exported = true;
    d.add("setSepGraphSparseThreshold", ints(0, 100000, true, true), INT(T, setSepGraphSparseThreshold), GET(T, getSepGraphSparseThreshold)).exported = true;
    d.add("setRowMaxPairCount", ints(-1, 100000, true, true), INT(T, setRowMaxPairCount), GET(T, getRowMaxPairCount)).exported = true;
    d.add("setRowMaxFractionalCount", ints(-1, 100000, true, true), INT(T, setRowMaxFractionalCount), GET(T, getRowMaxFractionalCount)).exported = true;
    classes().push_back(d.c);
  }
  {
    typedef CglStored T;
    Def<T> d("CglStored");
    d.generator(false);
    d.assignable();
    d.add("setRequiredViolation", dbl(0, 10, false, true, true), NUM(T, setRequiredViolation), GET(T, getRequiredViolation));
    classes().push_back(d.c);
  }
}

struct Line {
  char key;
  std::string method, arg;
};
// "" or what is wrong with the text
std::string parse(const std::string &text, const std::string &cls, const std::string &var, std::vector<Line> &out)
{
  std::istringstream in(text);
  std::string l;
  bool inc = false, decl = false;
  while (std::getline(in, l)) {
    if (l.empty())
      continue;
    char key = l[0];
    std::string b = l.substr(1);
    size_t i = b.find_first_not_of(' ');
    b = i == std::string::npos ? "" : b.substr(i);
    if (key == '0') {
      if (b != "#include \"" + cls + ".hpp\"")
        return "unexpected line: " + l;
      inc = true;
    } else if (key == '3' && b == cls + " " + var + ";")
      decl = true;
    else if (key == '3' || key == '4') {
      size_t p = b.rfind('('), q = b.rfind(");");
      if (b.compare(0, var.size() + 1, var + ".") != 0 || p == std::string::npos || q == std::string::npos || q + 2 != b.size() || q < p)
        return "not a call on the declared object: " + l;
      if (!decl)
        return "call before the declaration: " + l;
      out.push_back(Line { key, b.substr(var.size() + 1, p - var.size() - 1), b.substr(p + 1, q - p - 1) });
    } else
      return "unexpected key: " + l;
  }
  if (!inc || !decl)
    return "no #include or no declaration";
  return "";
}
double toValue(const Setting &s, const Line &l, bool &ok)
{
  ok = true;
  if (!s.on.empty())
    return l.method == s.on ? 1 : 0;
  for (size_t k = 0; k < s.words.size(); k++)
    if (s.words[k] == l.arg)
      return static_cast<double>(k);
  if (!s.words.empty()) {
    ok = false;
    return 0;
  }
  if (s.parse)
    return s.parse(l.arg);
  char *e;
  double v = strtod(l.arg.c_str(), &e);
  ok = !l.arg.empty() && *e == 0;
  return v;
}
bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-5 * std::max(std::fabs(a), std::fabs(b)); }

struct Obj {
  Ptr p;
  std::vector<double> ref;
};

void settingsCase(Env &env, Rng &r, const Class &c)
{
  int ns = static_cast<int>(c.s.size());
  std::string trail = c.name + ":";
  bool beta = c.name == "CglLiftAndProject";
  // default values
  Ptr d0 = c.make();
  std::vector<double> def(ns, 0.0);
  std::vector<Line> dl;
  std::string var;
  if (c.exporter) {
    std::string t = c.exporter(d0.get(), var);
    std::string e = parse(t, c.name, var, dl);
    if (!e.empty()) {
      env.violation("export-form:" + c.name, e);
      return;
    }
  }
  for (int i = 0; i < ns; i++) {
    const Setting &s = c.s[i];
    bool found = false;
    if (s.exported)
      for (auto &l : dl)
        if (l.method == s.name || (!s.on.empty() && (l.method == s.on || l.method == s.off))) {
          bool ok;
          def[i] = toValue(s, l, ok);
          found = ok;
          if (l.key != '4')
            env.violation("export-default:" + c.name, "a default object exports as changed: " + l.method + "(" + l.arg + ")");
        }
    if (s.get)
      def[i] = s.get(d0.get());
    else if (!found) {
      env.violation("export-form:" + c.name, "default export has no usable line for " + s.name);
      return;
    }
  }
  // the getter of the preprocessing option only tells zero from nonzero; its default is -1
  std::vector<Obj> os(1);
  os[0].p = c.make();
  os[0].ref = def;
  for (int i = 0; i < ns; i++)
    if (c.s[i].view)
      os[0].ref[i] = def[i] = -1;
  std::unique_ptr<OsiClpSolverInterface> si;
  int steps = r.in(2, 24), sets = 0, bads = 0;
  for (int t = 0; t < steps; t++) {
    int k = r.below(static_cast<int>(os.size()));
    Obj &o = os[k];
    int op = r.below(20);
    if (op < 10) {
      int i = r.below(ns);
      double v = goodValue(r, c.s[i].r);
      if (r.p(0.1))
        v = def[i];
      if (beta && c.s[i].name == "setBeta")
        v = r.p(0.5) ? 1 : -1;
      trail += fmt(" %d.%s(%.17g)", k, c.s[i].name.c_str(), v);
      try {
        c.s[i].set(o.p.get(), v);
      } catch (CoinError &e) {
        env.note(trail);
        env.violation("rejected:" + c.name, "setting an admissible value failed: " + e.message());
        return;
      }
      o.ref[i] = v;
      if (c.s[i].name == "setGlobalCuts" || (c.s[i].r.integer && c.s[i].r.lo == 0 && c.s[i].r.hi == 1 && !beta && (c.s[i].words.size() == 2 || !c.s[i].on.empty())))
        o.ref[i] = v != 0;
      sets++;
    } else if (op < 14) {
      int i = r.below(ns);
      double v;
      if (!badValue(r, c.s[i].r, v))
        continue;
      if (beta && c.s[i].name == "setBeta")
        v = r.pick(std::vector<double> { 0, 2, -2, 7, -100 });
      trail += fmt(" %d.%s(%.17g)!", k, c.s[i].name.c_str(), v);
      try {
        c.s[i].set(o.p.get(), v);
      } catch (CoinError &) {
        env.stat("rejected_by_exception");
      }
      bads++;
    } else if (op < 15) {
      Obj n;
      n.p = c.copy(o.p.get());
      n.ref = o.ref;
      trail += fmt(" %d=copy(%d)", static_cast<int>(os.size()), k);
      os.push_back(n);
    } else if (op < 16) {
      Obj n;
      n.p = c.make();
      n.ref = def;
      trail += fmt(" %d=new", static_cast<int>(os.size()));
      os.push_back(n);
    } else if (op < 17) {
      int q = r.below(static_cast<int>(os.size()));
      if (!c.assign)
        continue;
      trail += fmt(" %d:=%d", q, k);
      c.assign(os[q].p.get(), o.p.get());
      os[q].ref = o.ref;
    } else if (op < 18 && c.use && t > 2) {
      if (!si) {
        Model m = makeModel(beta ? "mixed01" : "setpack", r);
        if (beta)
          m = canonical(m);
        si.reset(new OsiClpSolverInterface);
        m.load(*si);
        si->initialSolve();
      }
      if (!si->isProvenOptimal())
        continue;
      trail += fmt(" %d.generateCuts", k);
      // clique reports would go to stdout, which is fine here
      c.use(o.p.get(), *si);
      env.stat("uses");
    } else if (c.exporter) {
      trail += fmt(" export(%d)", k);
      std::string v2, text = c.exporter(o.p.get(), v2);
      std::vector<Line> ls;
      std::string e = parse(text, c.name, v2, ls);
      if (!e.empty()) {
        env.note(trail);
        env.violation("export-form:" + c.name, e);
        return;
      }
      Ptr again = c.make();
      std::set<int> changed;
      for (auto &l : ls) {
        int i = -1;
        for (int q = 0; q < ns; q++)
          if (c.s[q].exported && (c.s[q].name == l.method || (!c.s[q].on.empty() && (l.method == c.s[q].on || l.method == c.s[q].off))))
            i = q;
        bool ok = i >= 0;
        double val = ok ? toValue(c.s[i], l, ok) : 0;
        if (!ok) {
          env.note(trail);
          env.violation("export-form:" + c.name, "the class has no such setter or it does not take this argument: " + l.method + "(" + l.arg + ")");
          return;
        }
        if (!close(val, o.ref[i])) {
          env.note(trail);
          env.violation("export-value:" + c.name, fmt("exports %s(%s), the value is %.17g", l.method.c_str(), l.arg.c_str(), o.ref[i]));
          return;
        }
        if (l.key == '3') {
          changed.insert(i);
          if (o.ref[i] == def[i]) {
            env.note(trail);
            env.violation("export-unchanged:" + c.name, "exported as changed although it has its default value: " + l.method + "(" + l.arg + ")");
            return;
          }
          try {
            c.s[i].set(again.get(), val);
          } catch (CoinError &x) {
            env.note(trail);
            env.violation("export-value:" + c.name, "the exported call throws: " + l.method + "(" + l.arg + "): " + x.message());
            return;
          }
        }
      }
      for (int i = 0; i < ns; i++)
        if (c.s[i].exported && o.ref[i] != def[i] && !changed.count(i)) {
          env.note(trail);
          env.violation("export-missing:" + c.name, fmt("%s is %.17g, the default is %.17g, and the export does not set it", c.s[i].name.c_str(), o.ref[i], def[i]));
          return;
        }
      for (int i = 0; i < ns; i++)
        if (c.s[i].exported && c.s[i].get && !close(c.s[i].get(again.get()), c.s[i].get(o.p.get()))) {
          env.note(trail);
          env.violation("export-roundtrip:" + c.name, fmt("%s: %.17g in the object, %.17g after running the exported code", c.s[i].name.c_str(), c.s[i].get(o.p.get()), c.s[i].get(again.get())));
          return;
        }
      std::string v3, text2 = c.exporter(again.get(), v3);
      std::vector<Line> l2;
      parse(text2, c.name, v3, l2);
      env.stat("exports");
    }
    // all getters of all objects
    for (size_t q = 0; q < os.size(); q++)
      for (int i = 0; i < ns; i++)
        if (c.s[i].get) {
          double want = c.s[i].view ? c.s[i].view(os[q].ref[i]) : os[q].ref[i];
          double got = c.s[i].get(os[q].p.get());
          env.stats["getter_reads"]++;
          if (got != want) {
            env.note(trail);
            env.violation("getter:" + c.name, fmt("object %d: %s should show %.17g, shows %.17g", static_cast<int>(q), c.s[i].name.c_str(), want, got));
            return;
          }
        }
  }
  env.stat("class:" + c.name);
  env.stat("good_values", sets);
  env.stat("bad_values", bads);
  if (sets) {
    env.hit(hashStr(trail));
    env.sample(trail);
  }
}
void fC18(Env &env, Rng &r)
{
  define();
  settingsCase(env, r, r.pick(classes()));
}
Driver d18a("C18", fC18);
void fC28(Env &env, Rng &r) { settingsCase(env, r, r.pick(shimClasses())); }
Driver d28("C28", fC28);

// constructors that take settings
void fC18ctor(Env &env, Rng &r)
{
  auto u = [&] { return r.in(1, 999) / 1000.0; };
  auto want = [&](const char *cls, const char *what, double got, double exp) {
    env.stats["getter_reads"]++;
    if (got != exp)
      env.violation(std::string("constructor:") + cls, fmt("%s should be %.17g, is %.17g", what, exp, got));
  };
  double inf = 1e10 * u(), eps = u(), epsc = u();
  int ms = r.in(1, 1000);
  CglParam base(inf, eps, epsc, ms);
  want("CglParam", "INFINIT", base.getINFINIT(), inf);
  want("CglParam", "EPS", base.getEPS(), eps);
  want("CglParam", "EPS_COEFF", base.getEPS_COEFF(), epsc);
  want("CglParam", "MAX_SUPPORT", base.getMAX_SUPPORT(), ms);
  auto inherits = [&](const char *cls, const CglParam &p) {
    want(cls, "INFINIT", p.getINFINIT(), inf);
    want(cls, "EPS", p.getEPS(), eps);
    want(cls, "EPS_COEFF", p.getEPS_COEFF(), epsc);
    want(cls, "MAX_SUPPORT", p.getMAX_SUPPORT(), ms);
  };
  std::unique_ptr<CglParam> cl(base.clone());
  inherits("CglParam", *cl);
  double a[14];
  for (double &x : a)
    x = 1 + u();
  int i1 = r.below(2), i2 = r.below(2), i3 = r.in(1, 100), i4 = r.in(1, 100), i5 = r.in(1, 100), i6 = r.in(2, 30);
  bool b1 = r.p(0.5), b2 = r.p(0.5), b3 = r.p(0.5), b4 = r.p(0.5);
  int which = r.below(9);
  env.hit(mix(static_cast<uint64_t>(which), mix(static_cast<uint64_t>(a[0] * 1e6), static_cast<uint64_t>(a[1] * 1e6))));
  env.stat("constructors");
  if (which < 2) {
    CglRedSplitParam p = which ? CglRedSplitParam(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], i1, i2, a[8], a[9], a[10], a[11])
                               : CglRedSplitParam(base, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], i1, i2, a[8], a[9], a[10], a[11]);
    const char *n = "CglRedSplitParam";
    if (!which)
      inherits(n, p);
    std::unique_ptr<CglRedSplitParam> q(p.clone());
    CglRedSplit gen(p);
    CglRedSplitParam viaGen = gen.getParam();
    for (const CglRedSplitParam *z : { static_cast<const CglRedSplitParam *>(&p), static_cast<const CglRedSplitParam *>(q.get()), static_cast<const CglRedSplitParam *>(&viaGen) }) {
      want(n, "LUB", z->getLUB(), a[0]);
      want(n, "EPS_ELIM", z->getEPS_ELIM(), a[1]);
      want(n, "EPS_RELAX_ABS", z->getEPS_RELAX_ABS(), a[2]);
      want(n, "EPS_RELAX_REL", z->getEPS_RELAX_REL(), a[3]);
      want(n, "MAXDYN", z->getMAXDYN(), a[4]);
      want(n, "MAXDYN_LUB", z->getMAXDYN_LUB(), a[5]);
      want(n, "EPS_COEFF_LUB", z->getEPS_COEFF_LUB(), a[6]);
      want(n, "MINVIOL", z->getMINVIOL(), a[7]);
      want(n, "USE_INTSLACKS", z->getUSE_INTSLACKS(), i1);
      want(n, "USE_CG2", z->getUSE_CG2(), i2);
      want(n, "normIsZero", z->getNormIsZero(), a[8]);
      want(n, "minReduc", z->getMinReduc(), a[9]);
      want(n, "away", z->getAway(), a[10]);
      want(n, "maxTab", z->getMaxTab(), a[11]);
    }
  } else if (which < 4) {
    CglGMIParam::CleaningProcedure cp = static_cast<CglGMIParam::CleaningProcedure>(r.below(7));
    CglGMIParam p = which == 2 ? CglGMIParam(eps, a[0], epsc, a[1], a[2], a[3], a[4], a[5], ms, a[6], cp, b1, b2, b3, b4)
                               : CglGMIParam(base, a[0], a[1], a[2], a[3], a[4], a[5], a[6], cp, b1, b2, b3, b4);
    const char *n = "CglGMIParam";
    std::unique_ptr<CglGMIParam> q(p.clone());
    for (const CglGMIParam *z : { static_cast<const CglGMIParam *>(&p), static_cast<const CglGMIParam *>(q.get()) }) {
      want(n, "INFINIT", z->getINFINIT(), which == 3 ? inf : COIN_DBL_MAX);
      want(n, "EPS", z->getEPS(), eps);
      want(n, "EPS_COEFF", z->getEPS_COEFF(), epsc);
      want(n, "MAX_SUPPORT", z->getMAX_SUPPORT(), ms);
      want(n, "AWAY", z->getAWAY(), a[0]);
      want(n, "EPS_ELIM", z->getEPS_ELIM(), a[1]);
      want(n, "EPS_RELAX_ABS", z->getEPS_RELAX_ABS(), a[2]);
      want(n, "EPS_RELAX_REL", z->getEPS_RELAX_REL(), a[3]);
      want(n, "MAXDYN", z->getMAXDYN(), a[4]);
      want(n, "MINVIOL", z->getMINVIOL(), a[5]);
      want(n, "MAX_SUPPORT_REL", z->getMAX_SUPPORT_REL(), a[6]);
      want(n, "CLEAN_PROC", z->getCLEAN_PROC(), cp);
      want(n, "USE_INTSLACKS", z->getUSE_INTSLACKS(), b1);
      want(n, "CHECK_DUPLICATES", z->getCHECK_DUPLICATES(), b2);
      want(n, "INTEGRAL_SCALE_CONT", z->getINTEGRAL_SCALE_CONT(), b3);
      want(n, "ENFORCE_SCALING", z->getENFORCE_SCALING(), b4);
    }
  } else if (which < 6) {
    CglRedSplit2Param p = which == 4
      ? CglRedSplit2Param(true, eps, epsc, a[0], a[1], a[2], a[3], a[4], ms, a[5], i1, a[6], a[7], i6, a[8], a[9], a[10], i3, i4, i5, a[11], i2)
      : CglRedSplit2Param(base, true, a[0], a[1], a[2], a[3], a[4], a[5], i1, a[6], a[7], i6, a[8], a[9], a[10], i3, i4, i5, a[11], i2);
    const char *n = "CglRedSplit2Param";
    std::unique_ptr<CglRedSplit2Param> q(p.clone());
    CglRedSplit2Param e;
    e = p;
    for (const CglRedSplit2Param *z : { static_cast<const CglRedSplit2Param *>(&p), static_cast<const CglRedSplit2Param *>(q.get()), static_cast<const CglRedSplit2Param *>(&e) }) {
      want(n, "INFINIT", z->getINFINIT(), which == 5 ? inf : COIN_DBL_MAX);
      want(n, "EPS", z->getEPS(), eps);
      want(n, "EPS_COEFF", z->getEPS_COEFF(), epsc);
      want(n, "MAX_SUPPORT", z->getMAX_SUPPORT(), ms);
      want(n, "EPS_ELIM", z->getEPS_ELIM(), a[0]);
      want(n, "EPS_RELAX_ABS", z->getEPS_RELAX_ABS(), a[1]);
      want(n, "EPS_RELAX_REL", z->getEPS_RELAX_REL(), a[2]);
      want(n, "MAXDYN", z->getMAXDYN(), a[3]);
      want(n, "MINVIOL", z->getMINVIOL(), a[4]);
      want(n, "MAX_SUPP_REL", z->getMAX_SUPP_REL(), a[5]);
      want(n, "USE_INTSLACKS", z->getUSE_INTSLACKS(), i1);
      want(n, "normIsZero", z->getNormIsZero(), a[6]);
      want(n, "minNormReduction", z->getMinNormReduction(), a[7]);
      want(n, "maxSumMultipliers", z->getMaxSumMultipliers(), i6);
      want(n, "normalization", z->getNormalization(), a[8]);
      want(n, "away", z->getAway(), a[9]);
      want(n, "timeLimit", z->getTimeLimit(), a[10]);
      want(n, "maxNumCuts", z->getMaxNumCuts(), i3);
      want(n, "maxNumComputedCuts", z->getMaxNumComputedCuts(), i4);
      want(n, "maxNonzeroesTab", z->getMaxNonzeroesTab(), i5);
      want(n, "columnScalingBoundLAP", z->getColumnScalingBoundLAP(), a[11]);
      want(n, "skipGomory", z->getSkipGomory(), i2);
    }
    // strategy lists keep what was added, in order
    std::vector<int> nr = p.getNumRowsReduction();
    int v = r.in(1, 9);
    e.addNumRowsReduction(v);
    nr.push_back(v);
    e.addNumRowsReduction(-1 - v);
    if (e.getNumRowsReduction() != nr)
      env.violation("constructor:CglRedSplit2Param", "list of numbers of rows does not hold what was added");
    auto cs = e.getColumnSelectionStrategy();
    auto k = static_cast<CglRedSplit2Param::ColumnSelectionStrategy>(r.below(21));
    e.addColumnSelectionStrategy(k);
    cs.push_back(k);
    if (e.getColumnSelectionStrategy() != cs)
      env.violation("constructor:CglRedSplit2Param", "list of column strategies does not hold what was added");
    auto rs = e.getRowSelectionStrategy();
    auto k2 = static_cast<CglRedSplit2Param::RowSelectionStrategy>(r.below(8));
    e.addRowSelectionStrategy(k2);
    rs.push_back(k2);
    if (e.getRowSelectionStrategy() != rs)
      env.violation("constructor:CglRedSplit2Param", "list of row strategies does not hold what was added");
    if (p.getColumnSelectionStrategy() != q->getColumnSelectionStrategy() || p.getRowSelectionStrategy() != q->getRowSelectionStrategy() || p.getNumRowsReduction() != q->getNumRowsReduction()
      || p.getColumnSelectionStrategyLAP() != q->getColumnSelectionStrategyLAP() || p.getRowSelectionStrategyLAP() != q->getRowSelectionStrategyLAP() || p.getNumRowsReductionLAP() != q->getNumRowsReductionLAP()
      || p.getColumnScalingStrategyLAP() != q->getColumnScalingStrategyLAP())
      env.violation("constructor:CglRedSplit2Param", "a copy has other strategies");
  } else if (which < 8) {
    int ag = r.in(1, 9), cr = r.in(1, 3), pp = r.in(-1, 1);
    CglMixedIntegerRounding g(ag, b1, cr, pp), h(g);
    CglMixedIntegerRounding e;
    e = g;
    for (const CglMixedIntegerRounding *z : { &g, &h, &e }) {
      want("CglMixedIntegerRounding", "MAXAGGR_", z->getMAXAGGR_(), ag);
      want("CglMixedIntegerRounding", "MULTIPLY_", z->getMULTIPLY_(), b1);
      want("CglMixedIntegerRounding", "CRITERION_", z->getCRITERION_(), cr);
      want("CglMixedIntegerRounding", "doPreproc", z->getDoPreproc(), pp != 0);
    }
    for (int k = 0; k < 3; k++) {
      bool threw = false;
      try {
        CglMixedIntegerRounding bad(k == 0 ? -i1 : ag, b1, k == 1 ? (r.p(0.5) ? 0 : 4) : cr, k == 2 ? (r.p(0.5) ? 2 : -2) : pp);
        (void)bad;
      } catch (CoinError &) {
        threw = true;
      }
      if (!threw)
        env.violation("constructor:CglMixedIntegerRounding", fmt("inadmissible argument %d accepted", k));
    }
  } else {
    // aliases of the Gomory parameters show and set the same value
    CglGMIParam p;
    const char *n = "CglGMIParam";
    p.setAWAY(0.3 * u());
    want(n, "alias away", p.getAway(), p.getAWAY());
    p.setEpsElim(a[1]);
    want(n, "alias EPS_ELIM", p.getEPS_ELIM(), a[1]);
    p.setEpsRelaxAbs(a[2]);
    want(n, "alias EPS_RELAX_ABS", p.getEPS_RELAX_ABS(), a[2]);
    p.setEpsRelaxRel(a[3]);
    want(n, "alias EPS_RELAX_REL", p.getEPS_RELAX_REL(), a[3]);
    p.setMaxDyn(a[4]);
    want(n, "alias MAXDYN", p.getMAXDYN(), a[4]);
    p.setMinViol(a[5]);
    want(n, "alias MINVIOL", p.getMINVIOL(), a[5]);
    double s = u();
    p.setMaxSupportRel(s);
    want(n, "alias MAX_SUPPORT_REL", p.getMAX_SUPPORT_REL(), s);
    p.setMaxSupportAbs(i3);
    want(n, "alias MAX_SUPPORT", p.getMAX_SUPPORT(), i3);
    p.setEps(a[6]);
    want(n, "alias EPS", p.getEPS(), a[6]);
    p.setEpsCoeff(a[7]);
    want(n, "alias EPS_COEFF", p.getEPS_COEFF(), a[7]);
    p.setInfinity(a[8]);
    want(n, "alias INFINIT", p.getINFINIT(), a[8]);
    for (int k = 0; k < 2; k++) {
      want(n, "getEps", p.getEps(), a[6]);
      want(n, "getEpsCoeff", p.getEpsCoeff(), a[7]);
      want(n, "getInfinity", p.getInfinity(), a[8]);
      want(n, "getMaxDyn", p.getMaxDyn(), a[4]);
      want(n, "getMinViol", p.getMinViol(), a[5]);
      want(n, "getEpsElim", p.getEpsElim(), a[1]);
      want(n, "getMaxSupport", p.getMaxSupport(), i3);
    }
  }
}
Driver d18b("C18", fC18ctor);
} // namespace
} // namespace vm
