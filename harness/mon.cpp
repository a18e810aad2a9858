// Main program of the monitors: runs a range of cases of one property.
#include "mon.hpp"
#include <fcntl.h>
#include <csignal>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
namespace vm {
std::map<std::string, std::vector<CaseFn>> &drivers()
{
  static std::map<std::string, std::vector<CaseFn>> d;
  return d;
}
Driver::Driver(const char *p, CaseFn f) { drivers()[p].push_back(f); }

static FILE *outF = nullptr;
static std::string replayDir = ".";
static std::string flavour = "plain";

void Env::violation(const std::string &key, const std::string &text)
{
  if (mute)
    return;
  violations++;
  std::string file = replayDir + fmt("/%s-%s-s%llu-c%ld.txt", prop.c_str(), flavour.c_str(), static_cast<unsigned long long>(seed), caseId);
  FILE *f = fopen(file.c_str(), "a");
  if (f) {
    fprintf(f, "property %s seed %llu case %ld flavour %s\nkey %s\n%s\n--- context\n%s\n", prop.c_str(), static_cast<unsigned long long>(seed), caseId, flavour.c_str(), key.c_str(), text.c_str(), log.c_str());
    fclose(f);
  }
  std::string one = text.substr(0, 300);
  for (auto &ch : one)
    if (ch == '\n')
      ch = ' ';
  fprintf(outF, "VIOL\t%s\t%ld\t%s\t%s\n", key.c_str(), caseId, file.c_str(), one.c_str());
  fflush(outF);
}

std::unique_ptr<OsiClpSolverInterface> cloneSi(const OsiClpSolverInterface &si)
{
  return std::unique_ptr<OsiClpSolverInterface>(dynamic_cast<OsiClpSolverInterface *>(si.clone()));
}
std::unique_ptr<OsiClpSolverInterface> liveCopy(const Ctx &c)
{
  std::unique_ptr<OsiClpSolverInterface> si = cloneSi(*c.si);
  if (!c.needsBasis || !c.si->optimalBasisIsAvailable())
    return si;
  si->resolve();
  bool same = si->isProvenOptimal() && basisMatches(*si);
  for (int j = 0; same && j < c.m.n; j++)
    same = fabs(si->getColSolution()[j] - c.si->getColSolution()[j]) <= 1e-9 * (1 + fabs(c.si->getColSolution()[j]));
  if (!same)
    si.reset();
  return si;
}
uint64_t hashModel(const Model &m) { return hashStr(m.dump()); }
std::string pointStr(const double *x, int n)
{
  std::string s;
  for (int j = 0; j < n; j++)
    s += fmt(" %.12g", x[j]);
  return s;
}
std::string ctxStr(const Ctx &c)
{
  std::string s = c.m.dump();
  s += fmt("node=%d combo=%d inTree=%d level=%d pass=%d options=%d rows=%d\n", c.node, c.combo, c.info.inTree, c.info.level, c.info.pass, c.info.options, c.info.formulation_rows);
  if (c.node)
    s += "node lower:" + pointStr(c.nlb.data(), c.m.n) + "\nnode upper:" + pointStr(c.nub.data(), c.m.n) + "\n";
  if (c.si)
    s += "LP point:" + pointStr(c.si->getColSolution(), c.m.n) + "\n";
  if (c.si && c.si->optimalBasisIsAvailable()) {
    std::vector<int> cs(c.m.n + 1), rs(c.si->getNumRows() + 1);
    c.si->getBasisStatus(cs.data(), rs.data());
    s += "basis (1 basic, 2 upper, 3 lower): columns";
    for (int j = 0; j < c.m.n; j++)
      s += fmt(" %d", cs[j]);
    s += " rows";
    for (int i = 0; i < c.si->getNumRows(); i++)
      s += fmt(" %d", rs[i]);
    s += "\n";
  }
  return s;
}
std::vector<std::string> liveGens(const std::vector<std::string> &names)
{
  std::vector<std::string> v;
  for (auto &n : names)
    if (findGen(n))
      v.push_back(n);
  return v;
}
const GenSpec &pickGen(Rng &r, const std::vector<std::string> &names)
{
  auto v = liveGens(names);
  if (v.empty()) {
    fprintf(stderr, "no generator available\n");
    exit(3);
  }
  return *findGen(r.pick(v));
}

// After presolve Clp can also report a singular basis, which its next factorisation repairs by
// exchanging columns for slacks.
static bool basisSingular(const OsiClpSolverInterface &si, const std::vector<int> &cs, const std::vector<int> &rs)
{
  int n = si.getNumCols(), m = si.getNumRows();
  std::vector<int> at(m, -1);
  int k = 0;
  for (int i = 0; i < m; i++)
    if (rs[i] != 1)
      at[i] = k++;
  if (!k || k > 300)
    return false;
  std::vector<std::vector<double> > a;
  const CoinPackedMatrix *mat = si.getMatrixByCol();
  for (int j = 0; j < n; j++) {
    if (cs[j] != 1)
      continue;
    std::vector<double> col(k, 0.0);
    double big = 0.0;
    for (CoinBigIndex p = mat->getVectorFirst(j); p < mat->getVectorFirst(j) + mat->getVectorSize(j); p++)
      if (at[mat->getIndices()[p]] >= 0) {
        double v = mat->getElements()[p];
        col[at[mat->getIndices()[p]]] += v;
        big = std::max(big, fabs(v));
      }
    if (big == 0.0)
      return true;
    for (double &v : col)
      v /= big;
    a.push_back(col);
  }
  if (static_cast<int>(a.size()) != k)
    return true;
  for (int c = 0; c < k; c++) {
    int pr = -1;
    double best = 1e-9;
    for (int q = 0; q < k; q++)
      if (fabs(a[c][q]) > best) {
        best = fabs(a[c][q]);
        pr = q;
      }
    if (pr < 0)
      return true;
    for (int d = c + 1; d < k; d++) {
      double f = a[d][pr] / a[c][pr];
      if (f == 0.0)
        continue;
      for (int q = 0; q < k; q++)
        a[d][q] -= f * a[c][q];
      a[d][pr] = 0.0;
    }
  }
  return false;
}

// Clp occasionally leaves a solution that does not belong to the basis it reports (a flat
// optimal face after presolve). Generators that read the tableau may rely on the match.
bool basisMatches(const OsiClpSolverInterface &si)
{
  if (!si.optimalBasisIsAvailable())
    return false;
  int n = si.getNumCols(), m = si.getNumRows();
  std::vector<int> cs(n + 1), rs(m + 1);
  si.getBasisStatus(cs.data(), rs.data());
  const double *x = si.getColSolution(), *a = si.getRowActivity();
  // superbasic variables (status 0) or a wrong number of basic ones: not a basis
  int basic = 0;
  for (int j = 0; j < n; j++) {
    if (cs[j] == 0)
      return false;
    basic += cs[j] == 1;
  }
  for (int i = 0; i < m; i++) {
    if (rs[i] == 0)
      return false;
    basic += rs[i] == 1;
  }
  if (basic != m)
    return false;
  for (int j = 0; j < n; j++) {
    double l = si.getColLower()[j], u = si.getColUpper()[j];
    double t = 1e-9 * std::max(1.0, fabs(x[j]));
    if ((cs[j] == 2 && fabs(x[j] - u) > t && fabs(x[j] - l) > t) || (cs[j] == 3 && fabs(x[j] - l) > t && fabs(x[j] - u) > t))
      return false;
    if (cs[j] == 2 && u - l > t && fabs(x[j] - u) > t)
      return false;
    if (cs[j] == 3 && u - l > t && fabs(x[j] - l) > t)
      return false;
  }
  for (int i = 0; i < m; i++) {
    double l = si.getRowLower()[i], u = si.getRowUpper()[i];
    double t = 1e-9 * std::max(1.0, fabs(a[i]));
    if ((rs[i] == 2 || rs[i] == 3) && fabs(a[i] - u) > t && fabs(a[i] - l) > t)
      return false;
  }
  return !basisSingular(si, cs, rs);
}

bool prepare(Rng &r, const GenSpec &g, Ctx &c, const PrepOpt &o)
{
  if (!o.given) {
    c.family = r.pick(g.families);
    c.m = makeModel(c.family, r);
  }
  if (g.canonical)
    c.m = canonical(c.m);
  c.needsBasis = g.needsBasis;
  c.nlb = c.m.lb;
  c.nub = c.m.ub;
  c.si.reset(new OsiClpSolverInterface);
  OsiClpSolverInterface &si = *c.si;
  c.m.load(si);
  c.info.formulation_rows = c.m.m();
  // without a single matrix element Clp has no factorization to ask (an Osi limitation)
  if (g.needsBasis && si.getNumElements() == 0)
    return false;
  if (o.given) // Clp's presolve has assertions of its own about huge numbers
    si.setHintParam(OsiDoPresolveInInitial, false, OsiHintDo);
  si.initialSolve();
  if (!si.isProvenOptimal())
    return false;
  if (r.p(o.pNode)) {
    std::vector<double> l = c.nlb, u = c.nub;
    int k = r.in(1, 3);
    bool any = false;
    for (int t = 0; t < k; t++) {
      std::vector<int> cand;
      for (int j = 0; j < c.m.n; j++)
        if (c.m.isInt[j] && u[j] - l[j] > 0.5)
          cand.push_back(j);
      if (cand.empty())
        break;
      int j = r.pick(cand);
      double x = si.getColSolution()[j];
      double f = floor(x + 1e-6);
      if (r.p(0.5)) {
        double nu = std::max(l[j], std::min(f, u[j] - 1));
        if (nu >= l[j] && nu < u[j]) {
          u[j] = nu;
          any = true;
        }
      } else {
        double nl = std::min(u[j], std::max(f + 1, l[j] + 1));
        if (nl <= u[j] && nl > l[j]) {
          l[j] = nl;
          any = true;
        }
      }
    }
    if (any) {
      for (int j = 0; j < c.m.n; j++)
        si.setColBounds(j, l[j], u[j]);
      si.resolve();
      if (si.isProvenOptimal()) {
        c.nlb = l;
        c.nub = u;
        c.node = true;
      } else {
        for (int j = 0; j < c.m.n; j++)
          si.setColBounds(j, c.nlb[j], c.nub[j]);
        si.initialSolve();
        if (!si.isProvenOptimal())
          return false;
      }
    }
  }
  if (g.needsBasis && !basisMatches(si))
    return false;
  if (r.p(0.04)) {
    // a basic continuous column fixed where it is: no solve needed, and it stays basic
    std::vector<int> cand;
    for (int j = 0; j < c.m.n; j++) {
      double x = si.getColSolution()[j];
      if (!c.m.isInt[j] && x > c.nlb[j] + 1e-6 && x < c.nub[j] - 1e-6 && fabs(x * 12 - floor(x * 12 + 0.5)) < 1e-9)
        cand.push_back(j);
    }
    if (!cand.empty()) {
      int j = r.pick(cand);
      double x = floor(si.getColSolution()[j] * 12 + 0.5) / 12;
      si.setColBounds(j, x, x);
      si.resolve();
      if (!si.isProvenOptimal() || (g.needsBasis && !basisMatches(si)))
        return false;
      c.nlb[j] = c.nub[j] = x;
      c.node = true;
    }
  }
  if (!g.needsBasis && r.p(o.pCombo)) {
    // convex combination of LP vertices for different objectives
    std::vector<double> x(si.getColSolution(), si.getColSolution() + c.m.n);
    std::unique_ptr<OsiClpSolverInterface> s2 = cloneSi(si);
    int k = r.in(1, 2);
    double w = 1.0;
    for (int t = 0; t < k; t++) {
      std::vector<double> ob(c.m.n);
      for (int j = 0; j < c.m.n; j++)
        ob[j] = r.in(-5, 5);
      s2->setObjective(ob.data());
      s2->resolve();
      if (!s2->isProvenOptimal())
        continue;
      double a = r.pick(std::vector<double> { 0.5, 0.25, 0.3, 0.1, 1.0 });
      for (int j = 0; j < c.m.n; j++)
        x[j] = (1 - a) * x[j] + a * s2->getColSolution()[j];
      w += a;
    }
    si.setColSolution(x.data());
    c.combo = true;
  }
  if (!o.plainInfo) {
    c.info.inTree = c.node;
    c.info.level = c.node ? r.in(1, 6) : 0;
    c.info.pass = r.pick(std::vector<int> { 0, 0, 1, 2, 5 });
    int op = 0;
    const int bits[] = { 1, 4, 8, 16, 32, 64, 128, 256, 512, 1024 };
    for (int b : bits)
      if (r.p(0.12))
        op |= b;
    c.info.options = op;
    if (r.p(0.5)) {
      c.rnd = CoinThreadRandom(987654 + r.below(1000));
      c.info.randomNumberGenerator = &c.rnd;
    }
  } else {
    c.info.inTree = c.node;
    c.info.level = c.node ? 1 : 0;
  }
  return true;
}

static int progressFd = -1;
// Is the process inside a linear program of Clp, called from wherever? That is no endless loop of Cgl's.
static bool insideClp()
{
  void *f[64];
  int n = backtrace(f, 64);
  Dl_info self, d;
  if (!dladdr(reinterpret_cast<void *>(&insideClp), &self))
    return false;
  bool clp = false, below = false;
  for (int i = 0; i < n; i++) {
    if (!dladdr(f[i], &d) || !d.dli_fname)
      continue;
    bool own = d.dli_fbase == self.dli_fbase;
    if (!below && own)
      continue; // the handler itself
    below = true;
    if (own)
      return clp;
    clp = clp || strstr(d.dli_fname, "libClp.so");
  }
  return clp;
}
static void onTimer(int)
{
  if (insideClp())
    _exit(78);
  const char msg[] = "HANG\n";
  if (progressFd >= 0)
    (void)!pwrite(progressFd, msg, sizeof msg - 1, 21);
  _exit(77);
}
} // namespace vm

int main(int argc, char **argv)
{
  using namespace vm;
  Env env;
  long from = 0, to = 1;
  std::string out = "/dev/stdout", progress;
  int cpu = 20;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--property")
      env.prop = v;
    else if (a == "--seed")
      env.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--from")
      from = atol(v.c_str());
    else if (a == "--to")
      to = atol(v.c_str());
    else if (a == "--out")
      out = v;
    else if (a == "--progress")
      progress = v;
    else if (a == "--replays")
      replayDir = v;
    else if (a == "--cpu")
      cpu = atoi(v.c_str());
    else if (a == "--flavour")
      flavour = v;
    else if (a == "--tier")
      env.thorough = v == "thorough";
    else if (a == "--verbose")
      env.verbose = v != "0";
  }
  outF = fopen(out.c_str(), "a");
  if (!outF)
    return 3;
  if (!progress.empty())
    progressFd = open(progress.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
  auto it = drivers().find(env.prop);
  if (it == drivers().end() || it->second.empty()) {
    fprintf(stderr, "no driver for %s\n", env.prop.c_str());
    return 3;
  }
  signal(SIGVTALRM, onTimer);
  for (long k = from; k < to; k++) {
    if (progressFd >= 0) {
      char b[32];
      int n = snprintf(b, sizeof b, "%-20ld\n", k);
      (void)!pwrite(progressFd, b, n, 0);
    }
    itimerval tv {};
    tv.it_value.tv_sec = cpu;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    env.caseId = k;
    env.log.clear();
    Rng r(mix(mix(env.seed, hashStr(env.prop)), static_cast<uint64_t>(k)));
    r.next();
    CaseFn fn = it->second[static_cast<size_t>(k) % it->second.size()];
    env.stat("cases");
    try {
      fn(env, r);
    } catch (CoinError &e) {
      env.violation("exception", "CoinError thrown: " + e.message() + " in " + e.className() + "::" + e.methodName());
    } catch (std::exception &e) {
      env.violation("exception", std::string("exception thrown: ") + e.what());
    }
    if (env.verbose)
      fprintf(stderr, "case %ld\n%s", k, env.log.c_str());
  }
  itimerval off {};
  setitimer(ITIMER_VIRTUAL, &off, nullptr);
  for (auto &s : env.stats)
    fprintf(outF, "STAT\t%s\t%ld\n", s.first.c_str(), s.second);
  for (auto h : env.nontrivial)
    fprintf(outF, "HIT\t%016llx\n", static_cast<unsigned long long>(h));
  for (auto &s : env.samples) {
    std::string q;
    for (char c : s)
      q += c == '\n' ? std::string("\\n") : c == '\t' ? std::string(" ") : std::string(1, c);
    fprintf(outF, "SAMPLE\t%s\n", q.c_str());
  }
  fprintf(outF, "DONE\t%ld\t%ld\n", from, to);
  fclose(outF);
  return env.violations ? 1 : 0;
}
