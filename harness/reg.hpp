// Registry of generators under monitoring. Every generator registers itself from its own
// translation unit, so that the drivers never name a class.
#ifndef VERIF_REG_HPP
#define VERIF_REG_HPP
#include "core.hpp"
#include "CglTreeInfo.hpp"
namespace vm {

enum PointKind { PT_VERTEX = 0, PT_COMBO = 1 };

struct GenSpec {
  std::string name;
  // model families this generator is interesting on (a trailing '*n' repeats an entry)
  std::vector<std::string> families;
  bool needsBasis = false; // only called at a vertex with an optimal basis
  bool refresh = false; // refreshSolver() has to be called when the model changes
  bool canonical = false; // model must be rewritten as >= rows with the bounds as rows
  bool separates = true; // every row cut returned is violated by the LP point
  bool shim = false; // built through the compatibility shim
  double minViol = 0.0; // least violation of a returned row cut (0: just "violated")
  double relTol = 0.0; // extra tolerance, see DESIGN.md (tableau based generators)
  // The random configuration; deterministic in the Rng. desc receives a readable form.
  std::function<CglCutGenerator *(Rng &, const Model &, OsiClpSolverInterface &, std::string &desc)> make;
  // default configuration but with reporting switched off (for the silence monitor)
  std::function<CglCutGenerator *(const Model &, OsiClpSolverInterface &)> makeQuiet;
  // dst = src with the static types restored
  std::function<void(CglCutGenerator &, const CglCutGenerator &)> assign;
  // every getter the class offers
  std::function<std::string(const CglCutGenerator &)> settings;
  // lower bound on the violation of each row cut for this configured object
  std::function<double(const CglCutGenerator &, OsiClpSolverInterface &)> minViolOf;
  // change some settings of the object (used to check independence of copies)
  std::function<void(Rng &, CglCutGenerator &)> perturb;
  // further public calls of the class that leave the object usable on the same model
  std::function<void(Rng &, CglCutGenerator &, OsiClpSolverInterface &)> extra;
  // settings survive assignment; assignment operator exists
  bool assignable = true;
  // row lists and sets in the configuration refer to one model: do not reuse on another one
  std::function<bool(const std::string &desc)> modelFree = [](const std::string &d) { return d.find("rows=") == std::string::npos || d.find("rows=all") != std::string::npos; };
  // configurations whose results depend on earlier calls by design (limits counted over all calls, a
  // private copy of the model solved again from where it was left)
  std::function<bool(const std::string &desc)> stateful = [](const std::string &) { return false; };
  // cuts it returns need the rows of the model (0: does not matter)
  int minRows = 0;
};
std::vector<GenSpec> &registry();
const GenSpec *findGen(const std::string &name);
struct Reg {
  Reg(const GenSpec &g) { registry().push_back(g); }
};
std::string fmt(const char *f, ...);

Model canonical(const Model &m);

} // namespace vm
#endif
