#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include "reg.hpp"
namespace vm {

// What a property driver may do during one case.
struct Env {
  std::string prop;
  uint64_t seed = 1;
  long caseId = 0;
  bool verbose = false;
  bool thorough = false;
  std::map<std::string, long> stats;
  std::set<uint64_t> nontrivial; // hashes of distinct non-trivial cases
  std::vector<std::string> samples;
  std::string log; // context of the running case, attached to a violation
  int violations = 0;
  bool mute = false; // ignore violations (the case is run for the sanitizers only)
  void stat(const std::string &k, long n = 1) { stats[k] += n; }
  void note(const std::string &s) { log += s + "\n"; }
  void violation(const std::string &key, const std::string &text);
  void hit(uint64_t h) { nontrivial.insert(h); }
  void sample(const std::string &s)
  {
    if (samples.size() < 3)
      samples.push_back(s.substr(0, 1500));
  }
};

typedef void (*CaseFn)(Env &, Rng &);
struct Driver {
  const char *prop;
  CaseFn fn;
  Driver(const char *p, CaseFn f);
};
std::map<std::string, std::vector<CaseFn>> &drivers();

// A prepared situation: model, node bounds, solved LP, tree information.
struct Ctx {
  Model m;
  std::vector<double> nlb, nub; // bounds of the node
  std::unique_ptr<OsiClpSolverInterface> si;
  CglTreeInfo info;
  CoinThreadRandom rnd;
  bool node = false;
  bool combo = false;
  bool needsBasis = false;
  std::string family;
};
struct PrepOpt {
  double pNode = 0.45;
  double pCombo = 0.3;
  bool plainInfo = false;
  bool given = false; // the model is in the context already
};
// false: LP not optimal (case is trivial)
bool prepare(Rng &r, const GenSpec &g, Ctx &c, const PrepOpt &o = PrepOpt());
void leakCheck(Env &env);
bool basisMatches(const OsiClpSolverInterface &si);
std::unique_ptr<OsiClpSolverInterface> cloneSi(const OsiClpSolverInterface &si);
// a copy of the context's solver that the generator can work from (a copy of an OsiClp solver has
// no optimal basis until it is solved again); null if solving it again leads elsewhere
std::unique_ptr<OsiClpSolverInterface> liveCopy(const Ctx &c);
std::string ctxStr(const Ctx &c);
uint64_t hashModel(const Model &m);
const GenSpec &pickGen(Rng &r, const std::vector<std::string> &names);
std::vector<std::string> liveGens(const std::vector<std::string> &names);
std::string pointStr(const double *x, int n);

} // namespace vm
#endif
