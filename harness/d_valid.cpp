// Soundness monitors: every cut a generator returns is checked against the exact
// feasible set of the model at the node (or at the root, for cuts marked global).
#include "mon.hpp"
#include "CglKnapsackCover.hpp"
namespace vm {

void checkCuts(Env &env, const GenSpec &g, const std::vector<Lin> &cuts, Oracle &node, Oracle *root, const std::string &what, bool onlyGlobal)
{
  for (auto &l : cuts) {
    if (onlyGlobal && !l.global)
      continue;
    bool useRoot = root && l.global;
    Oracle &o = useRoot ? *root : node;
    bool inRange = true;
    for (auto &e : l.a)
      if (e.first < 0)
        inRange = false;
    if (!inRange) {
      env.violation(g.name + ":index", "cut with an index out of range: " + l.str());
      continue;
    }
    Witness w;
    int v = o.violated(l, w);
    env.stat(v < 0 ? "cuts_inconclusive" : o.enumerated() ? "cuts_checked_exact" : "cuts_checked_bb");
    env.stat("cuts:" + g.name);
    if (v > 0)
      env.violation(g.name + (useRoot ? ":globalcut" : ":cut"), what + ": " + l.str() + fmt(" removes a feasible point%s by %.9g:", useRoot ? " of the root" : "", w.viol) + pointStr(w.x.data(), static_cast<int>(w.x.size())));
  }
}

// Another node of the same model, as the search visits it before (or between) those that are judged.
static void visit(Env &env, Rng &r, const GenSpec &g, const Ctx &c, CglCutGenerator &gen, const OsiClpSolverInterface &like, const std::string &d)
{
  std::unique_ptr<OsiClpSolverInterface> si = cloneSi(like);
  std::vector<double> l = c.m.lb, u = c.m.ub;
  for (int k = r.in(1, 3); k > 0; k--) {
    int j = r.below(c.m.n);
    if (!c.m.isInt[j] || u[j] - l[j] < 0.5)
      continue;
    double from = std::max(l[j], -20.0), to = std::min(u[j], from + 40.0);
    if (from > to)
      continue;
    double v = from + r.below(static_cast<int>(to - from) + 1);
    int how = r.below(3);
    if (how != 0)
      l[j] = v;
    if (how != 1)
      u[j] = v;
  }
  for (int j = 0; j < c.m.n; j++)
    si->setColBounds(j, l[j], u[j]);
  si->resolve();
  if (!si->isProvenOptimal() || (g.needsBasis && !basisMatches(*si)))
    return;
  CglTreeInfo info = c.info;
  info.inTree = true;
  info.level = r.in(1, 6);
  OsiCuts cs;
  gen.generateCuts(*si, cs, info);
  env.stat("visits");
  auto cuts = linsOf(cs);
  env.note(fmt("visited a node first, %d cuts; lower", static_cast<int>(cuts.size())) + pointStr(l.data(), c.m.n) + " upper" + pointStr(u.data(), c.m.n));
  for (auto &x : cuts)
    for (auto &e : x.a)
      if (e.first < 0 || e.first >= c.m.n)
        return;
  if (!cuts.empty() && r.p(0.5)) {
    Oracle node(c.m, l, u);
    checkCuts(env, g, cuts, node, nullptr, d, false);
  }
}

static void runValid(Env &env, Rng &r, const std::vector<std::string> &names, const PrepOpt &po, bool onlyGlobal, bool nodeOnly = false)
{
  const GenSpec &g = pickGen(r, names);
  env.stat("gen:" + g.name);
  Ctx c;
  if (!prepare(r, g, c, po)) {
    env.stat("lp_not_optimal");
    return;
  }
  if (onlyGlobal) {
    // the flag is requested through the tree information or the generator's own settings
    c.info.options |= r.pick(std::vector<int> { 4, 8, 16, 4 | 16 });
  }
  std::string d;
  std::unique_ptr<OsiClpSolverInterface> rootSi;
  if (c.node) {
    rootSi = cloneSi(*c.si);
    rootSi->setColLower(c.m.lb.data());
    rootSi->setColUpper(c.m.ub.data());
  }
  std::unique_ptr<CglCutGenerator> gen(g.make(r, c.m, *c.si, d));
  env.note(d);
  env.note(ctxStr(c));
  int visits = g.refresh && r.p(0.2) ? r.in(1, 2) : 0;
  bool refreshAtRoot = c.node && (onlyGlobal || visits || r.p(0.5));
  std::unique_ptr<Oracle> node, root;
  if (r.p(0.2)) { // through a clone, as every branch and cut code does
    std::unique_ptr<CglCutGenerator> g2(gen->clone());
    gen.swap(g2);
  }
  if (refreshAtRoot)
    gen->refreshSolver(rootSi.get());
  else
    gen->refreshSolver(c.si.get());
  // a cut marked global has to hold at the root only if the generator knows the root:
  // when it was given the node as its model the node is its root
  bool rootKnown = refreshAtRoot || !c.node || !g.refresh;
  int rounds = r.in(1, 3);
  long total = 0;
  for (int v = 0; v < visits; v++)
    visit(env, r, g, c, *gen, *c.si, d);
  for (int t = 0; t < rounds; t++) {
    OsiCuts cs;
    gen->generateCuts(*c.si, cs, c.info);
    env.stat("calls");
    auto cuts = linsOf(cs);
    // indices must exist before the oracle can look at them
    bool bad = false;
    for (auto &l : cuts)
      for (auto &e : l.a)
        if (e.first < 0 || e.first >= c.m.n) {
          env.violation(g.name + ":index", "cut with an index out of range: " + l.str());
          bad = true;
        }
    if (bad)
      return;
    if (cuts.empty())
      break;
    if (!node)
      node.reset(new Oracle(c.m, c.nlb, c.nub));
    if (c.node && !root)
      root.reset(new Oracle(c.m, c.m.lb, c.m.ub));
    total += static_cast<long>(cuts.size());
    for (auto &l : cuts)
      if (l.global)
        env.stat("global_cuts");
    env.note(fmt("round %d cuts:\n", t) + str(cuts));
    checkCuts(env, g, cuts, *node, c.node && rootKnown && !nodeOnly ? root.get() : nullptr, d, onlyGlobal);
    if (env.violations > 20)
      return;
    if (t + 1 < rounds) {
      // strengthen the relaxation with (some of) the cuts and go on, as a cut loop does
      OsiCuts some;
      for (int i = 0; i < cs.sizeRowCuts() && i < 30; i++)
        some.insert(cs.rowCut(i));
      for (int i = 0; i < cs.sizeColCuts(); i++)
        some.insert(cs.colCut(i));
      c.si->applyCuts(some);
      c.si->resolve();
      if (!c.si->isProvenOptimal()) {
        env.stat("closed_by_cuts");
        break;
      }
      if (g.needsBasis && !basisMatches(*c.si)) {
        env.stat("basis_mismatch");
        break;
      }
      c.info.pass++;
      if (r.p(0.5) || !g.refresh)
        gen->refreshSolver(c.si.get());
      if (g.refresh && c.node)
        rootKnown = false; // may have been refreshed with the node
      env.note("LP point:" + pointStr(c.si->getColSolution(), c.m.n));
    }
  }
  if (node) {
    env.stat("points_checked", node->pointsChecked);
    env.stat("oracle_lps", node->lpSolves);
  }
  if (total) {
    env.stat("cases_with_cuts");
    env.hit(mix(hashModel(c.m), hashStr(d + pointStr(c.nlb.data(), c.m.n))));
    if (env.samples.size() < 3)
      env.sample(env.log);
  }
}

// the flag is judged by C17
static void runNode(Env &env, Rng &r, const std::vector<std::string> &names)
{
  runValid(env, r, names, PrepOpt(), false, true);
}
#define VALID(ID, ...)                                                            \
  static void f##ID(Env &e, Rng &r) { runValid(e, r, { __VA_ARGS__ }, PrepOpt(), false); } \
  static Driver d##ID(#ID, f##ID);
VALID(C01, "clique", "oddhole")
// bounds CglKnapsackCover::createCliques() sets on the solver it is given are implied by the
// model, and it reports infeasibility only for a model without a feasible point
static void knapsackCliques(Env &env, Rng &r)
{
  const GenSpec &g = pickGen(r, { "knapsack" });
  Ctx c;
  PrepOpt po;
  po.pNode = 0.7;
  if (!prepare(r, g, c, po)) {
    env.stat("lp_not_optimal");
    return;
  }
  CglKnapsackCover gen;
  std::unique_ptr<OsiClpSolverInterface> si = cloneSi(*c.si);
  env.note(ctxStr(c));
  int k = gen.createCliques(*si, r.in(0, 3), r.pick(std::vector<int> { 3, 6, 100 }), r.p(0.5));
  env.stat("createCliques_calls");
  Oracle node(c.m, c.nlb, c.nub);
  if (k < 0) {
    env.stat("createCliques_infeasible");
    if (node.feasible() == 1)
      env.violation("knapsack:cliques", "createCliques says a feasible model is infeasible");
    return;
  }
  int fixed = 0;
  for (int j = 0; j < c.m.n; j++) {
    Lin l;
    l.a.push_back({ j, 1.0 });
    l.lo = si->getColLower()[j];
    l.up = si->getColUpper()[j];
    if (l.lo == c.nlb[j] && l.up == c.nub[j])
      continue;
    fixed++;
    Witness w;
    if (node.violated(l, w) > 0)
      env.violation("knapsack:cliques", fmt("createCliques sets column %d to [%g,%g], which removes a feasible point:", j, l.lo, l.up) + pointStr(w.x.data(), c.m.n));
  }
  env.stat("createCliques_bounds_checked", fixed);
  if (k || fixed)
    env.hit(mix(hashModel(c.m), k * 131 + fixed));
}
static void fC02(Env &e, Rng &r)
{
  if (r.p(0.02))
    knapsackCliques(e, r);
  else
    runValid(e, r, { "knapsack" }, PrepOpt(), false);
}
static Driver dC02("C02", fC02);
VALID(C03, "mir", "mir", "simplerounding")
VALID(C04, "redsplit", "redsplit", "liftandproject")
VALID(C05, "zerohalf")
static void fC20(Env &e, Rng &r) { runNode(e, r, { "gomory", "gmi", "redsplit2", "twomir" }); }
static Driver dC20("C20", fC20);
static void fC21(Env &e, Rng &r) { runNode(e, r, { "flowcover", "rescapacity", "mir2" }); }
static Driver dC21("C21", fC21);

static void fC17(Env &e, Rng &r)
{
  PrepOpt o;
  o.pNode = 0.8;
  o.pCombo = 0.2;
  runValid(e, r, { "clique", "oddhole", "knapsack", "mir", "simplerounding", "redsplit", "zerohalf", "liftandproject" }, o, true);
}
static Driver dC17("C17", fC17);
} // namespace vm
