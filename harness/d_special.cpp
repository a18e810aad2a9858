// Monitors of the classes with their own input language: all-different sets (C06),
// duplicate rows (C07), the probing-implication store (C08), stored cuts (C09).
#include "mon.hpp"
#include "CglAllDifferent.hpp"
#include "CglDuplicateRow.hpp"
#include "CglStored.hpp"
#include "CglTreeInfo.hpp"
#include <unistd.h>
namespace vm {

static bool isInfeasibleMark(const OsiRowCut &rc) { return rc.row().getNumElements() == 0 && rc.lb() > rc.ub(); }

// ===================================================================== C06
struct Diff {
  int n;
  std::vector<int> lo, up;
  std::vector<std::vector<int>> sets;
  std::vector<std::vector<int>> nb; // must-differ neighbours
  long steps = 0;
  void graph()
  {
    nb.assign(n, {});
    for (auto &s : sets)
      for (int a : s)
        for (int b : s)
          if (a != b)
            nb[a].push_back(b);
    for (auto &v : nb) {
      std::sort(v.begin(), v.end());
      v.erase(std::unique(v.begin(), v.end()), v.end());
    }
  }
  // is there an assignment with lo2 <= x <= up2? 1/0/-1 (gave up)
  int solve(std::vector<int> l, std::vector<int> u, std::vector<int> &x)
  {
    std::vector<int> order;
    for (int j = 0; j < n; j++) {
      if (l[j] > u[j])
        return 0;
      order.push_back(j);
    }
    std::sort(order.begin(), order.end(), [&](int a, int b) { return u[a] - l[a] < u[b] - l[b]; });
    x.assign(n, 0);
    std::vector<char> done(n, 0);
    steps = 0;
    return rec(0, order, l, u, x, done);
  }
  int rec(size_t k, const std::vector<int> &order, const std::vector<int> &l, const std::vector<int> &u, std::vector<int> &x, std::vector<char> &done)
  {
    if (k == order.size())
      return 1;
    if (++steps > 300000)
      return -1;
    int j = order[k];
    for (int v = l[j]; v <= u[j]; v++) {
      bool ok = true;
      for (int b : nb[j])
        if (done[b] && x[b] == v) {
          ok = false;
          break;
        }
      if (!ok)
        continue;
      x[j] = v;
      done[j] = 1;
      int r = rec(k + 1, order, l, u, x, done);
      if (r)
        return r;
      done[j] = 0;
    }
    return 0;
  }
};

static void fC06(Env &env, Rng &r)
{
  Diff d;
  d.n = r.in(2, 9);
  int span = r.in(2, 7), base = r.in(-6, 6);
  bool wide = r.p(0.06); // more than 32 values
  if (wide) {
    d.n = r.in(2, 5);
    span = r.in(24, 38);
  }
  std::vector<int> plant(d.n);
  for (int j = 0; j < d.n; j++)
    plant[j] = base + r.below(span + 2);
  int ns = r.in(1, 4);
  for (int s = 0; s < ns; s++) {
    int sz = std::min(d.n, r.in(2, 6));
    std::vector<int> all(d.n), set;
    for (int j = 0; j < d.n; j++)
      all[j] = j;
    bool keep = r.p(0.6); // respect the planted values
    while (static_cast<int>(set.size()) < sz && !all.empty()) {
      int k = r.below(static_cast<int>(all.size()));
      int j = all[k];
      all.erase(all.begin() + k);
      bool clash = false;
      if (keep)
        for (int b : set)
          clash |= plant[b] == plant[j];
      if (!clash)
        set.push_back(j);
    }
    if (r.p(0.05))
      set.resize(1); // a set of one
    if (r.p(0.02))
      set.clear(); // an empty set
    d.sets.push_back(set);
  }
  d.lo.resize(d.n);
  d.up.resize(d.n);
  int tight = r.below(4);
  for (int j = 0; j < d.n; j++) {
    int a = plant[j], b = plant[j];
    int wid = tight == 0 ? 1 : tight == 1 ? 2 : tight == 2 ? 4 : 6;
    if (wide && tight == 3 && r.p(0.3))
      wid = 20;
    a -= r.below(wid);
    b += r.below(wid);
    if (r.p(0.15))
      a = b = plant[j];
    d.lo[j] = a;
    d.up[j] = b;
  }
  if (r.p(0.3)) { // common window: pigeon-hole situations
    int w = r.in(1, 5);
    for (int j = 0; j < d.n; j++)
      if (r.p(0.8)) {
        d.lo[j] = base;
        d.up[j] = base + w - (r.p(0.3) ? 1 : 0);
        if (d.up[j] < d.lo[j])
          d.up[j] = d.lo[j];
      }
  }
  d.graph();
  std::string txt = fmt("alldiff n=%d\n", d.n);
  for (int j = 0; j < d.n; j++)
    txt += fmt(" x%d in [%d,%d]", j, d.lo[j], d.up[j]);
  std::vector<int> starts(1, 0), which;
  for (auto &s : d.sets) {
    txt += "\n set";
    for (int j : s) {
      txt += fmt(" %d", j);
      which.push_back(j);
    }
    starts.push_back(static_cast<int>(which.size()));
  }
  env.note(txt);
  Model m;
  m.n = 0;
  for (int j = 0; j < d.n; j++)
    m.addCol(d.lo[j], d.up[j], true, 1);
  if (r.p(0.7)) {
    std::vector<std::pair<int, double>> row;
    for (int j = 0; j < d.n; j++)
      row.push_back({ j, 1.0 });
    m.addRow(row, -INF, 1000);
  }
  OsiClpSolverInterface si;
  m.load(si);
  which.push_back(0); // never an empty array
  std::unique_ptr<CglCutGenerator> g(new CglAllDifferent(static_cast<int>(d.sets.size()), starts.data(), which.data()));
  if (r.p(0.3))
    dynamic_cast<CglAllDifferent &>(*g).setMaxLook(r.in(1, 3));
  if (r.p(0.25))
    g.reset(g->clone());
  else if (r.p(0.2)) {
    int st[2] = { 0, 2 }, wh[2] = { 1, 0 };
    std::unique_ptr<CglAllDifferent> h(new CglAllDifferent(1, st, wh));
    *h = dynamic_cast<CglAllDifferent &>(*g);
    g.reset(h.release());
  }
  if (r.p(0.3))
    g->refreshSolver(&si);
  std::vector<int> l = d.lo, u = d.up, x;
  int rounds = r.in(1, 3);
  bool any = false;
  CglTreeInfo info;
  info.inTree = r.p(0.5);
  info.pass = 0;
  for (int t = 0; t < rounds; t++) {
    OsiCuts cs;
    g->generateCuts(si, cs, info);
    env.stat("calls");
    bool infeas = false;
    for (int i = 0; i < cs.sizeRowCuts(); i++) {
      if (isInfeasibleMark(cs.rowCut(i)))
        infeas = true;
      else
        env.violation("alldiff:rowcut", "unexpected row cut " + linOf(cs.rowCut(i)).str());
    }
    if (infeas) {
      env.stat("infeasible_verdicts");
      any = true;
      int f = d.solve(d.lo, d.up, x);
      if (f > 0) {
        std::string s;
        for (int v : x)
          s += fmt(" %d", v);
        env.violation("alldiff:infeasible", "infeasibility reported but this assignment is feasible:" + s);
      } else if (f < 0)
        env.stat("inconclusive");
      break;
    }
    bool changed = false;
    for (auto &c : linsOf(cs)) {
      if (c.a.size() != 1 || c.a[0].first < 0 || c.a[0].first >= d.n) {
        if (!c.a.empty())
          env.violation("alldiff:index", "column cut on a column that does not exist: " + c.str());
        continue;
      }
      int j = c.a[0].first;
      env.stat("bounds_checked");
      any = true;
      for (int side = 0; side < 2; side++) {
        double b = side ? c.up : c.lo;
        if (fabs(b) > 1e20)
          continue;
        std::vector<int> l2 = d.lo, u2 = d.up;
        if (side)
          l2[j] = std::max(l2[j], static_cast<int>(floor(b)) + 1);
        else
          u2[j] = std::min(u2[j], static_cast<int>(ceil(b)) - 1);
        int f = d.solve(l2, u2, x);
        if (f > 0) {
          std::string s;
          for (int v : x)
            s += fmt(" %d", v);
          env.violation("alldiff:bound", fmt("x%d %s %g excludes the assignment", j, side ? "<=" : ">=", b) + s);
        } else if (f < 0)
          env.stat("inconclusive");
        if (side && b < u[j]) {
          u[j] = static_cast<int>(floor(b));
          changed = true;
        }
        if (!side && b > l[j]) {
          l[j] = static_cast<int>(ceil(b));
          changed = true;
        }
      }
    }
    if (env.violations > 20 || !changed)
      break;
    for (int j = 0; j < d.n; j++) {
      if (l[j] > u[j])
        return;
      si.setColBounds(j, l[j], u[j]);
    }
    info.pass++;
  }
  if (any) {
    env.hit(hashStr(txt));
    env.sample(txt);
  }
}
static Driver dC06("C06", fC06);

// ===================================================================== C07
static Model dupModel(Rng &r)
{
  Model m;
  m.family = "duprow";
  int n = r.in(3, 8);
  int style = r.below(4); // 0 all binary, 1 mostly binary, 2 integers, 3 mixed
  std::vector<double> plant;
  for (int j = 0; j < n; j++) {
    double l = 0, u = 1;
    bool in = true;
    if (style >= 1 && r.p(style == 1 ? 0.15 : 0.4)) {
      l = r.in(-2, 2);
      u = l + r.in(0, 4);
      if (style == 3)
        in = r.p(0.5);
      if (!in && r.p(0.1))
        u = INF;
    } else if (r.p(0.08))
      l = u = r.below(2);
    m.addCol(l, u, in, u > 1e20 ? r.in(0, 6) : r.in(-6, 6));
    double v = l + (u > 1e20 ? r.below(3) : r.below(static_cast<int>(u - l) + 1));
    plant.push_back(v);
  }
  int rows = r.in(2, 7);
  bool honour = r.p(0.85);
  for (int i = 0; i < rows; i++) {
    std::vector<std::pair<int, double>> row;
    double lo = -INF, up = INF;
    int how = r.below(10);
    if (how < 5 || m.rows.empty()) {
      int k = std::min(n, r.p(0.7) ? r.in(2, 3) : r.in(1, 5));
      std::vector<int> c;
      while (static_cast<int>(c.size()) < k) {
        int j = r.below(n);
        if (std::find(c.begin(), c.end(), j) == c.end())
          c.push_back(j);
      }
      std::sort(c.begin(), c.end());
      int coef = r.below(4);
      double act = 0;
      for (int j : c) {
        double a = coef == 0 ? 1 : coef == 1 ? r.in(1, 3) : coef == 2 ? (r.p(0.5) ? 1 : -1) : r.in(-4, 4);
        if (a == 0)
          a = 1;
        row.push_back({ j, a });
        act += a * plant[j];
      }
      if (!honour)
        act += r.in(-2, 2);
      int t = r.below(8);
      if (t < 4)
        up = act + r.below(3);
      else if (t < 6)
        lo = up = act;
      else if (t == 6)
        lo = act - r.below(3);
      else {
        lo = act - r.below(2);
        up = act + r.below(2);
      }
      if (r.p(0.3) && coef == 0 && act <= 1)
        up = 1;
    } else {
      int s = r.below(m.m());
      row = m.rows[s];
      lo = m.rlb[s];
      up = m.rub[s];
      double f = 1;
      if (how == 6) {
        f = r.pick(std::vector<double> { 2, 3, -1, -2, 0.5 });
        for (auto &e : row)
          e.second *= f;
        if (f < 0)
          std::swap(lo, up);
        lo = fabs(lo) > 1e20 ? (lo > 0 ? -INF : lo) : lo * f;
        up = fabs(up) > 1e20 ? (up < 0 ? INF : up) : up * f;
        if (f < 0) {
          if (fabs(m.rub[s]) > 1e20)
            lo = -INF;
          if (fabs(m.rlb[s]) > 1e20)
            up = INF;
        }
      } else if (how == 7) { // looser copy
        if (up < 1e20)
          up += r.in(0, 2);
        if (lo > -1e20)
          lo -= r.in(0, 2);
      } else if (how == 8 && row.size() > 1) { // a subset of the row
        double a = row.back().second, v = plant[row.back().first];
        row.pop_back();
        if (up < 1e20 && lo > -1e20) {
          lo -= a * v;
          up -= a * v;
        } else if (r.p(0.5)) {
          if (up < 1e20)
            up -= a * v;
          if (lo > -1e20)
            lo -= a * v;
        }
      } else if (how == 9 && row.size() < static_cast<size_t>(n)) { // a superset
        for (int j = 0; j < n; j++) {
          bool has = false;
          for (auto &e : row)
            has |= e.first == j;
          if (!has) {
            row.push_back({ j, 1.0 });
            if (up < 1e20 && plant[j] != 0)
              up += plant[j];
            if (lo > -1e20 && plant[j] != 0)
              lo += plant[j];
            break;
          }
        }
      }
    }
    m.addRow(row, lo, up);
  }
  return m;
}

// rows sum of a few 0-1 columns <= or == 1, many of them equal to or inside one another
static Model cliqueModel(Rng &r)
{
  Model m;
  m.family = "cliques";
  int n = r.in(3, 9);
  std::vector<double> plant;
  for (int j = 0; j < n; j++) {
    int k = r.below(20);
    double l = 0, u = 1;
    if (k == 0)
      l = u = r.below(2);
    else if (k == 1)
      u = r.in(2, 3);
    m.addCol(l, u, k != 2, r.in(-6, 6));
    plant.push_back(l + (r.p(0.3) ? u - l : 0));
  }
  int rows = r.in(2, 9);
  for (int i = 0; i < rows; i++) {
    std::vector<int> c;
    if (m.rows.empty() || r.p(0.35)) {
      for (int j = 0; j < n; j++)
        if (r.p(0.45))
          c.push_back(j);
    } else {
      int s = r.below(m.m());
      for (auto &e : m.rows[s])
        c.push_back(e.first);
      int how = r.below(4);
      if (how == 1 && c.size() > 1)
        c.erase(c.begin() + r.below(static_cast<int>(c.size())));
      if (how >= 2) {
        int add = how - 1;
        for (int t = 0; t < add; t++) {
          int j = r.below(n);
          if (std::find(c.begin(), c.end(), j) == c.end())
            c.push_back(j);
        }
      }
    }
    if (c.empty())
      c.push_back(r.below(n));
    if (r.p(0.7))
      std::sort(c.begin(), c.end());
    else
      for (size_t k = c.size(); k > 1; k--)
        std::swap(c[k - 1], c[r.below(static_cast<int>(k))]);
    std::vector<std::pair<int, double>> row;
    double act = 0, fixed = 0;
    for (int j : c) {
      row.push_back({ j, 1.0 });
      act += plant[j];
      if (m.lb[j] == m.ub[j])
        fixed += m.lb[j];
    }
    if (r.p(0.05))
      row[r.below(static_cast<int>(row.size()))].second = r.p(0.5) ? -1 : 2;
    double up = 1 + fixed, lo = r.pick(std::vector<double> { -INF, -INF, 0, up, up, up, -1 });
    if (act > up && r.p(0.8)) // keep the planted point
      up = act, lo = lo > 0.5 ? act : lo;
    if (act < 1 && lo > 0.5 && r.p(0.7))
      lo = -INF;
    if (r.p(0.03))
      up = INF;
    if (r.p(0.03))
      up = lo > 0 ? up : r.in(-1, 2);
    if (lo > up)
      lo = up;
    m.addRow(row, lo, up);
  }
  return m;
}
static void fC07(Env &env, Rng &r)
{
  Model m = r.p(0.6) ? cliqueModel(r) : dupModel(r);
  bool probe = env.caseId == 0;
  if (probe) {
    m = Model();
    m.family = "mode4-probe";
    const double ob[5] = { -1, 6, -5, 0, 1 };
    for (double c : ob)
      m.addCol(0, 1, true, c);
    m.addRow({ { 0, -4 }, { 2, 4 }, { 3, -1 } }, -INF, 5);
    m.addRow({ { 0, 1 }, { 1, 1 } }, -INF, 1);
    m.addRow({ { 0, -4 }, { 2, 4 } }, -INF, 5);
    m.addRow({ { 0, -4 }, { 2, 4 }, { 3, -1 } }, -INF, 7);
  }
  OsiClpSolverInterface si;
  m.load(si);
  std::unique_ptr<CglDuplicateRow> g(r.p(0.5) ? new CglDuplicateRow(&si) : new CglDuplicateRow);
  g->refreshSolver(&si);
  // mode 4 is unfinished upstream (see DESIGN.md): only the listed input is run, as a known finding
  int mode = probe ? 4 : r.pick(std::vector<int> { 1, 2, 3, 3, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8 });
  g->setMode(mode);
  if (r.p(0.5))
    g->setMaximumRhs(r.in(1, 10));
  if (r.p(0.3))
    g->setMaximumDominated(r.in(0, 20));
  if (r.p(0.2))
    g.reset(dynamic_cast<CglDuplicateRow *>(g->clone()));
  env.note(fmt("mode %d maxrhs %d maxdom %d\n", mode, g->maximumRhs(), g->maximumDominated()) + m.dump());
  env.stat(fmt("mode%d", mode));
  std::unique_ptr<OsiClpSolverInterface> s2 = cloneSi(si);
  Oracle orig(m, m.lb, m.ub);
  OsiCuts cs;
  CglTreeInfo info;
  info.level = 0;
  info.pass = 0;
  info.formulation_rows = m.m();
  bool infeas = false;
  if (probe || r.p(0.5)) {
    g->generateCuts(*s2, cs, info);
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      infeas |= isInfeasibleMark(cs.rowCut(i));
    std::string d = "duplicate:";
    for (int i = 0; i < m.m(); i++)
      d += fmt(" %d", g->duplicate()[i]);
    env.note(d + "\n" + str(linsOf(cs)));
    for (int i = 0; i < m.m(); i++) {
      int k = g->duplicate()[i];
      if (k >= 0 && (k >= m.m() || k == i))
        env.violation(fmt("duprow:mark:%d", mode), fmt("row %d marked as duplicate of row %d, which is not another row", i, k));
    }
    if (infeas) {
      env.stat("infeasible_verdicts");
      if (orig.feasible() == 1)
        env.violation(fmt("duprow:infeasible:%d", mode), "infeasibility reported for a feasible model");
      env.hit(hashModel(m) + mode);
      return;
    }
  }
  // the same object may be asked again (marks must not go stale)
  CglStored *st = g->outDuplicates(s2.get());
  Model m2;
  m2.n = m.n;
  m2.obj = m.obj;
  m2.isInt = m.isInt;
  m2.lb.assign(s2->getColLower(), s2->getColLower() + m.n);
  m2.ub.assign(s2->getColUpper(), s2->getColUpper() + m.n);
  const CoinPackedMatrix *mat = s2->getMatrixByRow();
  for (int i = 0; i < s2->getNumRows(); i++) {
    std::vector<std::pair<int, double>> row;
    for (CoinBigIndex k = mat->getVectorStarts()[i]; k < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; k++)
      row.push_back({ mat->getIndices()[k], mat->getElements()[k] });
    m2.addRow(row, s2->getRowLower()[i], s2->getRowUpper()[i]);
  }
  if (st)
    for (int i = 0; i < st->sizeRowCuts(); i++) {
      Lin l = linOf(*st->rowCutPointer(i));
      m2.addRow(l.a, l.lo, l.up);
    }
  env.note("after outDuplicates:\n" + m2.dump());
  bool changed = s2->getNumRows() != m.m() || m2.lb != m.lb || m2.ub != m.ub;
  if (s2->getNumRows() != m.m())
    env.stat("rows_removed", m.m() - s2->getNumRows());
  for (int j = 0; j < m.n; j++)
    if (m2.lb[j] > m.lb[j] || m2.ub[j] < m.ub[j])
      env.stat("bounds_tightened");
  // removal side: every original row and bound still holds
  bool crossed = false;
  for (int j = 0; j < m.n; j++)
    crossed |= m2.lb[j] > m2.ub[j];
  if (crossed) {
    if (orig.feasible() == 1)
      env.violation(fmt("duprow:infeasible:%d", mode), "crossed bounds for a feasible model");
  } else {
    Oracle red(m2, m2.lb, m2.ub);
    Witness w;
    for (int i = 0; i < m.m(); i++) {
      Lin l;
      l.a = m.rows[i];
      l.lo = m.rlb[i];
      l.up = m.rub[i];
      if (red.violated(l, w) == 1)
        env.violation(fmt("duprow:lostrow:%s%d", probe ? "probe" : "", mode), fmt("row %d no longer holds at", i) + pointStr(w.x.data(), m.n));
    }
    for (int j = 0; j < m.n; j++) {
      Lin l;
      l.a = { { j, 1.0 } };
      l.lo = m2.lb[j];
      l.up = m2.ub[j];
      if ((m2.lb[j] > m.lb[j] || m2.ub[j] < m.ub[j]) && orig.violated(l, w) == 1) {
        if (mode == 2 || mode == 3)
          continue; // dominance may remove points; the optimum is compared below
        env.violation(fmt("duprow:bound:%d", mode), fmt("new bounds [%g,%g] of column %d exclude", l.lo, l.up, j) + pointStr(w.x.data(), m.n));
      }
      if (m2.lb[j] < m.lb[j] || m2.ub[j] > m.ub[j])
        env.violation(fmt("duprow:loosened:%d", mode), fmt("bounds of column %d loosened", j));
    }
    double z1 = 0, z2 = 0;
    int a = orig.minimize(m.obj, z1), b = red.minimize(m.obj, z2);
    if (a >= 0 && b >= 0) {
      env.stat("optima_compared");
      if (a != b || (a == 1 && fabs(z1 - z2) > 1e-6 * (1 + fabs(z1))))
        env.violation(fmt("duprow:optimum:%d", mode), fmt("optimum %s%g became %s%g", a ? "" : "infeasible ", z1, b ? "" : "infeasible ", z2));
    }
  }
  if (changed) {
    env.hit(hashModel(m) + mode);
    env.sample(env.log);
  }
}
static Driver dC07("C07", fC07);

// ===================================================================== C08
struct Imp {
  int var, to, fix, val; // var at to (0/1) => column fix at lower (0) / upper (1)
  bool operator<(const Imp &o) const { return std::tie(var, to, fix, val) < std::tie(o.var, o.to, o.fix, o.val); }
  bool operator==(const Imp &o) const { return std::tie(var, to, fix, val) == std::tie(o.var, o.to, o.fix, o.val); }
};
static std::set<Imp> readStore(CglTreeProbingInfo &t, std::string &bad, std::map<Imp, int> *count = nullptr)
{
  std::set<Imp> s;
  int n01 = t.numberIntegers();
  const CliqueEntry *e = t.fixEntries();
  const int *z = t.toZero(), *o = t.toOne(), *iv = t.integerVariable();
  for (int i = 0; i < n01; i++) {
    if (z[i] > o[i] || o[i] > z[i + 1]) {
      bad = fmt("starts out of order at %d: %d %d %d", i, z[i], o[i], z[i + 1]);
      return s;
    }
    for (int k = z[i]; k < z[i + 1]; k++) {
      int q = sequenceInCliqueEntry(e[k]);
      Imp p;
      p.var = iv[i];
      p.to = k >= o[i];
      p.fix = q < n01 ? iv[q] : q - n01;
      p.val = oneFixesInCliqueEntry(e[k]) ? 1 : 0;
      if (q >= n01 && (p.fix < 0 || p.fix >= t.numberVariables() || t.backward()[p.fix] >= 0)) {
        bad = fmt("entry %d of variable %d names sequence %d", k, i, q);
        return s;
      }
      s.insert(p);
      if (count)
        (*count)[p]++;
    }
  }
  return s;
}
static std::string impStr(const std::set<Imp> &s)
{
  std::string t;
  for (auto &p : s)
    t += fmt(" x%d=%d=>x%d@%s", p.var, p.to, p.fix, p.val ? "up" : "lo");
  return t;
}

static void fC08(Env &env, Rng &r)
{
  Model m;
  m.family = "implications";
  int n = r.in(2, 8);
  std::vector<int> bin;
  std::vector<double> plant;
  for (int j = 0; j < n; j++) {
    int k = r.below(10);
    if (k < 8 || (j == n - 1 && bin.empty())) {
      if (r.p(0.05)) {
        int v = r.below(2);
        m.addCol(v, v, true, r.in(-3, 3));
      } else
        m.addCol(0, 1, true, r.in(-3, 3));
      bin.push_back(j);
    } else {
      int l = r.in(-2, 1);
      m.addCol(l, l + r.in(1, 3), k == 8, r.in(-3, 3));
    }
    plant.push_back(m.lb[j] + r.below(static_cast<int>(m.ub[j] - m.lb[j]) + 1));
  }
  // rows: cliques over the 0-1 columns, sometimes anything else
  int rows = r.in(1, 5);
  for (int i = 0; i < rows; i++) {
    std::vector<std::pair<int, double>> row;
    double act = 0;
    int kind = r.below(5);
    for (int j = 0; j < n; j++) {
      if (!r.p(0.45))
        continue;
      bool b = m.isInt[j] && m.lb[j] >= 0 && m.ub[j] <= 1;
      if (kind < 4 && !b)
        continue;
      double a = kind == 0 ? 1 : kind == 4 ? r.in(1, 3) : r.p(0.6) ? 1 : -1;
      row.push_back({ j, a });
      act += a * plant[j];
    }
    if (row.empty())
      row.push_back({ bin[0], 1.0 });
    double neg = 0;
    for (auto &e : row)
      if (e.second < 0)
        neg++;
    double rhs = 1 - neg;
    act = 0;
    for (auto &e : row)
      act += e.second * plant[e.first];
    if (act <= rhs && r.p(0.8))
      m.addRow(row, act == rhs && r.p(0.3) ? rhs : -INF, rhs);
    else
      m.addRow(row, -INF, act + r.below(2));
  }
  OsiClpSolverInterface si;
  m.load(si);
  // the implication history
  std::unique_ptr<CglTreeProbingInfo> t;
  bool fromModel = r.p(0.5);
  if (fromModel)
    t.reset(new CglTreeProbingInfo(&si));
  else
    t.reset(new CglTreeProbingInfo);
  std::string hist;
  if (fromModel && r.p(0.1)) {
    t.reset(new CglTreeProbingInfo(*t));
    hist += "copy-before ";
  }
  int ret = t->initializeFixing(&si);
  if (ret != 1)
    env.violation("treeinfo:init", fmt("initializeFixing of a fresh store returned %d", ret));
  std::set<Imp> want;
  bool honour = r.p(0.8);
  int ops = r.pick(std::vector<int> { 0, 1, 3, 6, 10, 20, 40, 150 });
  std::vector<std::unique_ptr<CglTreeProbingInfo>> kept; // copies that must not change
  std::vector<std::set<Imp>> keptWant;
  auto isBin = [&](int j) { return t->backward()[j] >= 0; };
  // 0-1 columns are fixed at 0 or 1, others at a bound
  auto valueOf = [&](const Imp &p) -> double { return isBin(p.fix) ? p.val : p.val ? m.ub[p.fix] : m.lb[p.fix]; };
  for (int k = 0; k < ops; k++) {
    int w = r.below(20);
    if (w == 0) {
      std::unique_ptr<CglTreeProbingInfo> c(r.p(0.5) ? new CglTreeProbingInfo(*t) : dynamic_cast<CglTreeProbingInfo *>(t->clone()));
      hist += "copy ";
      if (r.p(0.5))
        c.swap(t);
      kept.push_back(std::move(c));
      keptWant.push_back(want);
    } else if (w == 1) {
      std::unique_ptr<CglTreeProbingInfo> c(r.p(0.5) ? new CglTreeProbingInfo : new CglTreeProbingInfo(&si));
      if (r.p(0.5)) {
        c->initializeFixing(&si);
        c->fixes(bin[0], 1, n - 1, true);
        if (r.p(0.5))
          c->packDown();
      }
      *c = *t;
      hist += "assign ";
      c.swap(t);
    } else if (w == 2) {
      int q = t->initializeFixing(&si);
      if (q != 2)
        env.violation("treeinfo:init", fmt("initializeFixing while collecting returned %d", q));
    } else {
      Imp p;
      p.var = r.below(n);
      p.to = r.below(2);
      p.fix = r.below(n);
      p.val = r.below(2);
      if (p.fix == p.var)
        continue;
      if (honour && isBin(p.var)) {
        // keep the planted point
        if (plant[p.var] == p.to) {
          if (plant[p.fix] != valueOf(p)) {
            p.val = 1 - p.val;
            if (plant[p.fix] != valueOf(p))
              p.to = 1 - p.to;
          }
        }
      }
      int rep = r.p(0.2) ? 2 : 1;
      for (int q = 0; q < rep; q++) {
        bool room = t->fixes(p.var, p.to ? 1 : -1, p.fix, p.val == 0);
        if (!room)
          env.violation("treeinfo:room", "a handful of implications reported as no more room");
      }
      if (isBin(p.var))
        want.insert(p);
    }
  }
  env.note(m.dump() + "history: " + hist + "\nimplications:" + impStr(want));
  env.stat("implications", static_cast<long>(want.size()));
  auto verify = [&](CglTreeProbingInfo &c, const std::set<Imp> &w, const char *when) {
    std::string bad;
    std::set<Imp> got = readStore(c, bad);
    env.stat("stores_compared");
    if (!bad.empty())
      env.violation("treeinfo:structure", std::string(when) + ": " + bad);
    else if (!(got == w))
      env.violation("treeinfo:content", std::string(when) + ": store holds" + impStr(got) + " instead of" + impStr(w));
  };
  bool converted = false;
  if (r.p(0.6)) {
    verify(*t, want, "after recording");
    converted = true;
    int q = t->initializeFixing(&si);
    if (q >= 0)
      env.violation("treeinfo:init", fmt("initializeFixing of an ordered store returned %d", q));
  }
  if (converted && r.p(0.3)) {
    std::unique_ptr<CglTreeProbingInfo> c(new CglTreeProbingInfo(*t));
    if (r.p(0.5)) {
      *c = *t;
    }
    c.swap(t);
    if (r.p(0.5))
      c->packDown();
    c.reset();
    verify(*t, want, "copy of an ordered store");
  }
  // exact set of points over the current bounds
  auto points = [&](const std::vector<double> &l, const std::vector<double> &u, bool withRows) {
    std::vector<std::vector<double>> pts;
    std::vector<std::vector<double>> dom(n);
    for (int j = 0; j < n; j++) {
      for (double v = l[j]; v <= u[j] + 1e-9; v += 1.0)
        dom[j].push_back(v);
    }
    std::vector<double> x(n);
    std::function<void(int)> rec = [&](int j) {
      if (j == n) {
        for (auto &p : want)
          if (x[p.var] == p.to && x[p.fix] != valueOf(p))
            return;
        if (withRows)
          for (int i = 0; i < m.m(); i++) {
            double a = 0;
            for (auto &e : m.rows[i])
              a += e.second * x[e.first];
            if (a < m.rlb[i] - 1e-9 || a > m.rub[i] + 1e-9)
              return;
          }
        pts.push_back(x);
        return;
      }
      for (double v : dom[j]) {
        x[j] = v;
        rec(j + 1);
      }
    };
    rec(0);
    return pts;
  };
  // node bounds on 0-1 columns
  std::vector<double> l = m.lb, u = m.ub;
  int nf = r.below(3);
  for (int k = 0; k < nf; k++) {
    int j = r.pick(bin);
    if (l[j] < u[j]) {
      if (r.p(0.5))
        l[j] = 1;
      else
        u[j] = 0;
    }
  }
  for (int j = 0; j < n; j++)
    si.setColBounds(j, l[j], u[j]);
  std::vector<double> x(n);
  for (int j = 0; j < n; j++)
    x[j] = l[j] + (u[j] - l[j]) * r.pick(std::vector<double> { 0, 1, 0.5, 0.25, 0.75, 0.3 });
  si.setColSolution(x.data());
  auto pts = points(l, u, false);
  std::string nb = "node lower:" + pointStr(l.data(), n) + "\nnode upper:" + pointStr(u.data(), n) + "\npoint:" + pointStr(x.data(), n);
  env.note(nb);
  auto checkAll = [&](const std::vector<Lin> &cuts, const std::vector<std::vector<double>> &ps, const char *who) {
    for (auto &c : cuts) {
      env.stat(std::string("derived:") + who);
      if (!c.a.empty())
        for (auto &e : c.a)
          if (e.first < 0 || e.first >= n) {
            env.violation(std::string("treeinfo:index:") + who, c.str());
            return;
          }
      for (auto &p : ps) {
        double a = c.activity(p);
        if (a > c.up + 1e-7 || a < c.lo - 1e-7) {
          env.violation(std::string("treeinfo:unsound:") + who, std::string(who) + " derived " + c.str() + " which excludes" + pointStr(p.data(), n));
          break;
        }
      }
    }
  };
  CglTreeInfo info;
  // cuts from a stored-cut generator using the store (any state)
  if (r.p(0.5)) {
    CglStored st;
    st.setRequiredViolation(r.pick(std::vector<double> { 1e-5, 1e-3, 0.2 }));
    st.setProbingInfo(new CglTreeProbingInfo(*t));
    CglStored st2;
    CglStored *use = &st;
    if (r.p(0.3)) {
      st2 = st;
      use = &st2;
    }
    OsiCuts cs;
    use->generateCuts(si, cs, info);
    auto cuts = linsOf(cs);
    checkAll(cuts, pts, "stored");
    for (auto &c : cuts) {
      double a = c.activity(x);
      double v = std::max(c.lo - a, a - c.up);
      if (v < use->getRequiredViolation() - 1e-9)
        env.violation("treeinfo:stored:violation", "stored implication cut not violated enough: " + c.str());
    }
  }
  // the clique model
  if (r.p(0.5) && t->numberIntegers()) {
    std::unique_ptr<CglTreeProbingInfo> c(new CglTreeProbingInfo(*t));
    if (r.p(0.5))
      c->packDown();
    OsiClpSolverInterface root;
    m.load(root);
    OsiSolverInterface *base = r.p(0.5) ? static_cast<OsiSolverInterface *>(&si) : &root;
    bool node = base == &si;
    std::vector<CoinBigIndex> est;
    std::vector<CliqueEntry> een;
    std::vector<char> ety;
    int extra = r.p(0.6) ? -1 : 0;
    auto ps = points(node ? l : m.lb, node ? u : m.ub, true);
    if (r.p(0.2)) {
      // extra cliques the caller knows: two columns that are never 1 together
      est.push_back(0);
      for (int a : bin)
        for (int b : bin)
          if (a < b) {
            bool ok = true;
            for (auto &p : ps)
              ok &= p[a] + p[b] <= 1;
            if (ok && ety.size() < 3 && r.p(0.5)) {
              CliqueEntry e;
              e.fixes = 0;
              setOneFixesInCliqueEntry(e, true);
              setSequenceInCliqueEntry(e, c->backward()[a]);
              een.push_back(e);
              setSequenceInCliqueEntry(e, c->backward()[b]);
              een.push_back(e);
              ety.push_back('S');
              est.push_back(static_cast<CoinBigIndex>(een.size()));
            }
          }
      if (!ety.empty())
        extra = static_cast<int>(ety.size());
    }
    OsiSolverInterface *ns = extra > 0 ? c->analyze(*base, 1, extra, est.data(), een.data(), ety.data()) : c->analyze(*base, 1, extra);
    std::unique_ptr<OsiSolverInterface> own(ns);
    if (ns) {
      env.stat("clique_models");
      const CoinPackedMatrix *mat = ns->getMatrixByRow();
      std::vector<Lin> ls;
      for (int i = 0; i < ns->getNumRows(); i++) {
        Lin q;
        for (CoinBigIndex k = mat->getVectorStarts()[i]; k < mat->getVectorStarts()[i] + mat->getVectorLengths()[i]; k++)
          q.a.push_back({ mat->getIndices()[k], mat->getElements()[k] });
        q.lo = ns->getRowLower()[i];
        q.up = ns->getRowUpper()[i];
        ls.push_back(q);
      }
      checkAll(ls, ps, "analyze");
      for (int j = 0; j < n; j++)
        if (ns->getColLower()[j] != base->getColLower()[j] || ns->getColUpper()[j] != base->getColUpper()[j])
          env.violation("treeinfo:analyze:bounds", fmt("column %d of the clique model has other bounds", j));
    }
  }
  // after packing only 0-1 consequences are left
  int left = t->packDown();
  std::set<Imp> packed;
  for (auto &p : want)
    if (isBin(p.fix))
      packed.insert(p);
  verify(*t, packed, "after packing");
  if (left < static_cast<int>(packed.size()))
    env.violation("treeinfo:packcount", fmt("packDown returned %d for %d implications", left, static_cast<int>(packed.size())));
  if (r.p(0.3)) {
    t.reset(new CglTreeProbingInfo(*t));
    verify(*t, packed, "copy of a packed store");
  }
  {
    OsiCuts cs;
    t->generateCuts(si, cs, info);
    bool inf = false;
    for (int i = 0; i < cs.sizeRowCuts(); i++)
      inf |= isInfeasibleMark(cs.rowCut(i));
    if (inf) {
      env.stat("infeasible_verdicts");
      if (!pts.empty())
        env.violation("treeinfo:infeasible", "generateCuts reports infeasibility but a point exists:" + pointStr(pts[0].data(), n));
    } else {
      auto cuts = linsOf(cs);
      checkAll(cuts, pts, "implication");
      for (auto &c : cuts)
        if (!c.fromCol) {
          double a = c.activity(x);
          if (std::max(c.lo - a, a - c.up) < 0.9e-5)
            env.violation("treeinfo:notviolated", "implication cut not violated: " + c.str());
        }
    }
  }
  for (int which = 0; which < 2; which++) {
    std::unique_ptr<OsiClpSolverInterface> s2 = cloneSi(si);
    int nfix;
    std::vector<std::vector<double>> ps;
    std::string who;
    if (which == 0) {
      nfix = t->fixColumns(*s2);
      ps = pts;
      who = "fixColumns(si)";
    } else {
      int j = r.pick(bin), v = r.below(2);
      nfix = t->fixColumns(j, v, *s2);
      for (auto &p : pts)
        if (p[j] == v)
          ps.push_back(p);
      who = fmt("fixColumns(%d,%d)", j, v);
      // exactly the recorded consequences
      if (nfix >= 0)
        for (auto &p : packed)
          if (p.var == j && p.to == v) {
            double b = p.val;
            if (s2->getColLower()[p.fix] != b || s2->getColUpper()[p.fix] != b)
              env.violation("treeinfo:fix:missed", who + fmt(" did not fix column %d", p.fix));
          }
    }
    env.stat("fix_calls");
    int changes = 0;
    for (int j = 0; j < n; j++) {
      double a = s2->getColLower()[j], b = s2->getColUpper()[j];
      if (a != l[j])
        changes++;
      if (b != u[j])
        changes++;
      if (nfix >= 0)
        for (auto &p : ps)
          if (p[j] < a - 1e-9 || p[j] > b + 1e-9) {
            env.violation("treeinfo:fix:unsound", who + fmt(" sets column %d to [%g,%g], excluding", j, a, b) + pointStr(p.data(), n));
            break;
          }
    }
    if (nfix < 0) {
      env.stat("infeasible_verdicts");
      if (!ps.empty())
        env.violation("treeinfo:fix:infeasible", who + " reports infeasibility but a point exists:" + pointStr(ps[0].data(), n));
    } else if (nfix != changes)
      env.violation("treeinfo:fix:count", who + fmt(" returned %d but %d bounds changed", nfix, changes));
  }
  for (size_t k = 0; k < kept.size(); k++)
    verify(*kept[k], keptWant[k], "copy taken earlier");
  if (!want.empty()) {
    env.hit(hashStr(impStr(want) + nb) ^ hashModel(m));
    env.sample(env.log);
  }
}
static Driver dC08("C08", fC08);

// ===================================================================== C09
struct StoredModel {
  std::vector<Lin> cuts;
  size_t fromFile = 0; // the first cuts came out of a file
  double req = 1e-5;
  int cols = 0;
  bool saved = false, hasSol = false;
  std::vector<double> sol, lo, up;
  double obj = 0;
};
static bool sameCut(const Lin &a, const Lin &b) { return a.a == b.a && a.lo == b.lo && a.up == b.up; }
static Lin randCut(Rng &r, int n)
{
  Lin c;
  int k = r.below(n + 1);
  if (k > n)
    k = n;
  std::vector<int> idx(n);
  for (int j = 0; j < n; j++)
    idx[j] = j;
  for (int j = n - 1; j > 0; j--)
    std::swap(idx[j], idx[r.below(j + 1)]);
  for (int j = 0; j < k; j++)
    c.a.push_back({ idx[j], r.in(-12, 12) / 4.0 });
  int t = r.below(4);
  double b = r.in(-16, 16) / 4.0;
  if (t == 0)
    c.up = b;
  else if (t == 1)
    c.lo = b;
  else if (t == 2)
    c.lo = c.up = b;
  else {
    c.lo = b;
    c.up = b + r.in(0, 6) / 2.0;
  }
  return c;
}
static OsiRowCut toOsi(const Lin &c)
{
  OsiRowCut rc;
  std::vector<int> i;
  std::vector<double> v;
  for (auto &e : c.a) {
    i.push_back(e.first);
    v.push_back(e.second);
  }
  i.push_back(0);
  v.push_back(0);
  rc.setRow(static_cast<int>(c.a.size()), i.data(), v.data(), false);
  rc.setLb(c.lo);
  rc.setUb(c.up);
  return rc;
}
static void fC09(Env &env, Rng &r)
{
  int n = r.in(1, 7);
  Model m;
  for (int j = 0; j < n; j++)
    m.addCol(-4, 4, r.p(0.5), 1);
  OsiClpSolverInterface si;
  m.load(si);
  struct Slot {
    std::unique_ptr<CglStored> g;
    StoredModel s;
  };
  std::vector<Slot> slots;
  auto fresh = [&]() {
    Slot k;
    k.s.cols = r.p(0.6) ? n : 0;
    k.g.reset(new CglStored(k.s.cols));
    return k;
  };
  auto fromFile = [&]() {
    Slot k;
    int nc = r.in(0, 5);
    std::string buf;
    std::vector<size_t> ends;
    std::vector<Lin> cuts;
    for (int i = 0; i < nc; i++) {
      Lin c = randCut(r, n);
      int sz = static_cast<int>(c.a.size());
      buf.append(reinterpret_cast<char *>(&sz), sizeof sz);
      buf.append(reinterpret_cast<char *>(&c.lo), sizeof(double));
      buf.append(reinterpret_cast<char *>(&c.up), sizeof(double));
      for (auto &e : c.a)
        buf.append(reinterpret_cast<char *>(&e.first), sizeof(int));
      for (auto &e : c.a)
        buf.append(reinterpret_cast<char *>(&e.second), sizeof(double));
      cuts.push_back(c);
      ends.push_back(buf.size());
    }
    int end = -1;
    buf.append(reinterpret_cast<char *>(&end), sizeof end);
    if (r.p(0.5)) // a prefix, as after a crash while writing
      buf.resize(r.below(static_cast<int>(buf.size()) + 1));
    for (int i = 0; i < nc; i++)
      if (ends[i] <= buf.size())
        k.s.cuts.push_back(cuts[i]);
    k.s.fromFile = k.s.cuts.size();
    std::string name = fmt("cuts-%d.bin", static_cast<int>(getpid()));
    FILE *f = fopen(name.c_str(), "wb");
    if (!f) {
      fprintf(stderr, "cannot write the scratch file\n");
      exit(4);
    }
    fwrite(buf.data(), 1, buf.size(), f);
    fclose(f);
    env.note(fmt("file of %d bytes, %d cuts, %d complete", static_cast<int>(buf.size()), nc, static_cast<int>(k.s.cuts.size())));
    env.stat("files_read");
    k.g.reset(new CglStored(name.c_str()));
    unlink(name.c_str());
    if (r.p(0.1)) {
      CglStored none("no-such-file");
      if (none.sizeRowCuts())
        env.violation("stored:nofile", "cuts from a file that does not exist");
    }
    return k;
  };
  slots.push_back(fresh());
  if (r.p(0.4))
    slots.push_back(fromFile());
  auto check = [&](Slot &k, const char *when) {
    StoredModel &s = k.s;
    CglStored &g = *k.g;
    env.stat("stores_compared");
    if (g.sizeRowCuts() != static_cast<int>(s.cuts.size())) {
      env.violation("stored:size", fmt("%s: %d cuts stored instead of %d", when, g.sizeRowCuts(), static_cast<int>(s.cuts.size())));
      return;
    }
    for (size_t i = 0; i < s.cuts.size(); i++) {
      Lin got = linOf(*g.rowCutPointer(static_cast<int>(i)));
      if (!sameCut(got, s.cuts[i]))
        env.violation("stored:content", fmt("%s: cut %d is ", when, static_cast<int>(i)) + got.str() + " instead of " + s.cuts[i].str());
      if (i >= s.fromFile && g.rowCutPointer(static_cast<int>(i))->effectiveness() != COIN_DBL_MAX)
        env.violation("stored:effectiveness", fmt("%s: cut %d was added but may be dropped when diving", when, static_cast<int>(i)));
    }
    if (g.getRequiredViolation() != s.req)
      env.violation("stored:required", fmt("%s: required violation %g instead of %g", when, g.getRequiredViolation(), s.req));
    if (s.saved) {
      if (g.bestObjective() != (s.hasSol ? s.obj : COIN_DBL_MAX))
        env.violation("stored:objective", fmt("%s: best objective %g instead of %g", when, g.bestObjective(), s.obj));
      if ((g.bestSolution() != nullptr) != s.hasSol)
        env.violation("stored:solution", fmt("%s: best solution %s", when, s.hasSol ? "lost" : "appeared"));
      else
        for (int j = 0; j < n; j++) {
          if (s.hasSol && g.bestSolution()[j] != s.sol[j])
            env.violation("stored:solution", fmt("%s: best solution changed", when));
          if (g.tightLower()[j] != s.lo[j] || g.tightUpper()[j] != s.up[j])
            env.violation("stored:bounds", fmt("%s: saved bounds changed", when));
        }
    } else if (g.bestSolution() || g.bestObjective() != COIN_DBL_MAX)
      env.violation("stored:solution", fmt("%s: a solution nobody saved", when));
  };
  std::string hist;
  int ops = r.in(2, 14);
  long returned = 0;
  for (int o = 0; o < ops && env.violations < 20; o++) {
    int k = r.below(static_cast<int>(slots.size()));
    StoredModel &s = slots[k].s;
    CglStored &g = *slots[k].g;
    int w = r.below(12);
    hist += fmt(" %d:%d", k, w);
    if (w <= 3) {
      Lin c = randCut(r, n);
      OsiRowCut rc = toOsi(c);
      std::vector<int> i;
      std::vector<double> v;
      for (auto &e : c.a) {
        i.push_back(e.first);
        v.push_back(e.second);
      }
      i.push_back(0);
      v.push_back(0);
      switch (w) {
      case 0:
        g.addCut(rc);
        s.cuts.push_back(c);
        break;
      case 1: {
        OsiCuts cs;
        int q = r.in(0, 3);
        for (int t = 0; t < q; t++) {
          Lin c2 = randCut(r, n);
          cs.insert(toOsi(c2));
          s.cuts.push_back(c2);
        }
        if (r.p(0.3)) {
          OsiColCut cc;
          int z = 0;
          double zero = 0;
          cc.setLbs(1, &z, &zero);
          cs.insert(cc);
        }
        g.addCut(cs);
        break;
      }
      case 2: {
        CoinPackedVector pv(static_cast<int>(c.a.size()), i.data(), v.data(), false);
        g.addCut(c.lo, c.up, pv);
        s.cuts.push_back(c);
        break;
      }
      case 3:
        g.addCut(c.lo, c.up, static_cast<int>(c.a.size()), i.data(), v.data());
        s.cuts.push_back(c);
        break;
      }
    } else if (w <= 7) {
      std::vector<double> x(n);
      for (int j = 0; j < n; j++)
        x[j] = r.in(-16, 16) / 4.0;
      si.setColSolution(x.data());
      OsiCuts cs;
      std::vector<Lin> before;
      int pre = r.in(0, 2);
      for (int t = 0; t < pre; t++) {
        Lin c = !s.cuts.empty() && r.p(0.5) ? s.cuts[r.below(static_cast<int>(s.cuts.size()))] : randCut(r, n);
        cs.insert(toOsi(c));
        before.push_back(c);
      }
      CglTreeInfo info;
      info.inTree = r.p(0.5);
      info.level = r.below(5);
      info.pass = r.below(3);
      g.generateCuts(si, cs, info);
      env.stat("calls");
      std::vector<Lin> got;
      for (int i = 0; i < cs.sizeRowCuts(); i++)
        got.push_back(linOf(cs.rowCut(i)));
      if (cs.sizeColCuts())
        env.violation("stored:colcut", "column cuts out of nowhere");
      if (got.size() < before.size())
        env.violation("stored:prefix", "earlier cuts removed");
      else {
        for (size_t i = 0; i < before.size(); i++)
          if (!sameCut(got[i], before[i]))
            env.violation("stored:prefix", "earlier cut altered");
        got.erase(got.begin(), got.begin() + before.size());
      }
      std::vector<Lin> want;
      for (auto &c : s.cuts) {
        double a = c.activity(x);
        double viol = std::max(0.0, std::max(c.lo - a, a - c.up));
        if (viol >= s.req)
          want.push_back(c);
      }
      returned += static_cast<long>(want.size());
      env.stat("cuts_returned", static_cast<long>(got.size()));
      env.stat("cuts_withheld", static_cast<long>(s.cuts.size() - want.size()));
      auto key = [](const Lin &p, const Lin &q) { return std::tie(p.a, p.lo, p.up) < std::tie(q.a, q.lo, q.up); };
      std::sort(want.begin(), want.end(), key);
      std::sort(got.begin(), got.end(), key);
      bool same = want.size() == got.size();
      for (size_t i = 0; same && i < want.size(); i++)
        same = sameCut(want[i], got[i]);
      if (!same)
        env.violation("stored:returned", fmt("required %g at", s.req) + pointStr(x.data(), n) + ": returned\n" + str(got) + "expected\n" + str(want));
    } else if (w == 8) {
      s.req = r.pick(std::vector<double> { 1e-5, 0.25, 0.5, 1.0, 2.25, 1e-9 });
      g.setRequiredViolation(s.req);
    } else if (w == 9 && slots.size() < 6) {
      Slot q;
      q.s = s;
      if (r.p(0.5))
        q.g.reset(new CglStored(g));
      else
        q.g.reset(dynamic_cast<CglStored *>(g.clone()));
      slots.push_back(std::move(q));
    } else if (w == 10) {
      int t = r.below(static_cast<int>(slots.size()));
      if (r.p(0.3) && slots.size() < 6) {
        slots.push_back(r.p(0.5) ? fresh() : fromFile());
        t = static_cast<int>(slots.size()) - 1;
      }
      *slots[t].g = *slots[k].g;
      if (t != k)
        slots[t].s = slots[k].s;
      check(slots[t], "after assignment");
      if (t != k && r.p(0.3)) {
        slots.erase(slots.begin() + k);
      }
    } else if (w == 11 && s.cols) {
      s.saved = true;
      s.hasSol = r.p(0.7);
      s.obj = r.in(-50, 50) / 2.0;
      s.sol.assign(n, 0);
      s.lo.assign(n, 0);
      s.up.assign(n, 0);
      for (int j = 0; j < n; j++) {
        s.sol[j] = r.in(-4, 4);
        s.lo[j] = r.in(-4, 0);
        s.up[j] = r.in(0, 4);
      }
      g.saveStuff(s.obj, s.hasSol ? s.sol.data() : nullptr, s.lo.data(), s.up.data());
    }
    int z = r.below(static_cast<int>(slots.size()));
    check(slots[z], "later");
  }
  for (auto &k : slots)
    check(k, "at the end");
  env.note("history (slot:op):" + hist);
  if (returned) {
    env.hit(mix(env.caseId, hashStr(hist)));
    env.sample(env.log);
  }
}
static Driver dC09("C09", fC09);

} // namespace vm
