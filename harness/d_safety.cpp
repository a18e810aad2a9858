// C15: everything the library offers, on ordinary and hostile models, for the benefit of the
// sanitizers (address, undefined, leak) and of memcheck.
#include "mon.hpp"
#include "CglOddHole.hpp"
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#define HAVE_LSAN 1
#endif
namespace vm {

static const std::vector<std::string> ALL = { "clique", "oddhole", "knapsack", "mir", "simplerounding", "redsplit", "liftandproject", "zerohalf", "alldiff", "duprow", "stored" };

// several small models side by side, linked by a few rows
static Model blocks(Rng &r, int k)
{
  Model m;
  auto fam = allFamilies();
  std::string one = r.p(0.5) ? r.pick(fam) : "";
  for (int t = 0; t < k; t++) {
    Model b = makeModel(one.empty() ? r.pick(fam) : one, r);
    int off = m.n;
    for (int j = 0; j < b.n; j++)
      m.addCol(b.lb[j], b.ub[j], b.isInt[j], b.obj[j]);
    for (int i = 0; i < b.m(); i++) {
      auto row = b.rows[i];
      for (auto &e : row)
        e.first += off;
      m.addRow(row, b.rlb[i], b.rub[i]);
    }
  }
  int links = r.below(4);
  for (int t = 0; t < links && m.n; t++) {
    std::vector<std::pair<int, double>> row;
    double mx = 0;
    for (int j = 0; j < m.n; j++)
      if (r.p(0.3)) {
        row.push_back({ j, static_cast<double>(r.in(1, 9)) });
        mx += fabs(m.ub[j]) < 1e20 ? fabs(m.ub[j]) : 10;
      }
    m.addRow(row, -INF, r.p(0.5) ? floor(mx) + 1 : INF);
  }
  m.family = "blocks";
  return m;
}
// long rows: more node pairs than the work arrays start with
static Model longRows(Rng &r)
{
  Model m;
  m.family = "long";
  int n = r.in(200, 320);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, -1 - r.below(3));
  // triangles make the LP fractional
  for (int t = 0; t + 2 < n; t += 3) {
    m.addRow({ { t, 1 }, { t + 1, 1 } }, -INF, 1);
    m.addRow({ { t + 1, 1 }, { t + 2, 1 } }, -INF, 1);
    m.addRow({ { t, 1 }, { t + 2, 1 } }, -INF, 1);
  }
  int kind = r.below(3);
  std::vector<std::pair<int, double>> row;
  if (kind == 0) { // set packing over all columns would make the LP integral: relax it a little
    for (int j = 0; j < n; j++)
      row.push_back({ j, 1 });
    m.addRow(row, -INF, 1);
    for (int j = 0; j < n; j++)
      m.obj[j] = r.p(0.5) ? -1 : 0;
  } else if (kind == 1) { // covering
    for (int j = 0; j < n; j++)
      row.push_back({ j, 1 });
    m.addRow(row, 1, INF);
  } else { // knapsack longer than the default limit
    for (int j = 0; j < n; j++)
      row.push_back({ j, static_cast<double>(r.in(3, 40)) });
    m.addRow(row, -INF, r.in(100, 2000));
  }
  return m;
}
static Model hostile(Rng &r)
{
  Model m;
  auto fam = allFamilies();
  int kind = r.below(16);
  switch (kind) {
  case 0: // nothing at all
    break;
  case 1: { // columns only
    int n = r.in(1, 5);
    for (int j = 0; j < n; j++)
      m.addCol(r.in(-2, 0), r.in(0, 2), r.p(0.6), r.in(-2, 2));
    break;
  }
  case 2: { // empty rows, with and without columns
    int n = r.below(3);
    for (int j = 0; j < n; j++)
      m.addCol(0, r.in(0, 2), r.p(0.6), r.in(-2, 2));
    int k = r.in(1, 3);
    for (int i = 0; i < k; i++)
      m.addRow({}, r.p(0.5) ? -INF : -r.below(2), r.p(0.5) ? INF : r.below(3));
    break;
  }
  case 3: // everything fixed
    m = makeModel(r.pick(fam), r);
    for (int j = 0; j < m.n; j++) {
      double v = m.lb[j] > -1e20 ? m.lb[j] : m.ub[j] < 1e20 ? m.ub[j] : 0;
      m.lb[j] = m.ub[j] = v;
    }
    for (int i = 0; i < m.m(); i++) {
      double a = 0;
      for (auto &e : m.rows[i])
        a += e.second * m.lb[e.first];
      m.rlb[i] = std::min(m.rlb[i], a);
      m.rub[i] = std::max(m.rub[i], a);
    }
    break;
  case 4: // all continuous
    m = makeModel(r.pick(fam), r);
    for (auto &c : m.isInt)
      c = 0;
    break;
  case 5: // integers without finite bounds
    m = makeModel(r.pick(fam), r);
    for (int j = 0; j < m.n; j++) {
      if (r.p(0.5))
        m.ub[j] = INF;
      if (r.p(0.5))
        m.lb[j] = -INF;
      m.obj[j] = 0;
    }
    break;
  case 6: // equalities
    m = makeModel(r.pick(fam), r);
    for (int i = 0; i < m.m(); i++) {
      std::vector<double> x(m.n);
      double a = 0;
      for (auto &e : m.rows[i]) {
        double v = m.lb[e.first] > -1e20 ? m.lb[e.first] : 0;
        if (m.ub[e.first] < 1e20 && r.p(0.0))
          v = m.ub[e.first];
        a += e.second * v;
      }
      m.rlb[i] = m.rub[i] = a;
    }
    break;
  case 7: { // one column, one row
    m.addCol(r.p(0.3) ? -INF : r.in(-3, 0), r.p(0.3) ? INF : r.in(0, 3), r.p(0.7), r.in(-1, 1));
    m.addRow({ { 0, r.in(1, 5) * (r.p(0.5) ? 1.0 : -1.0) } }, r.p(0.5) ? -INF : -r.in(0, 7) / 2.0, r.p(0.3) ? INF : r.in(0, 7) / 2.0);
    break;
  }
  case 8: // big numbers
    m = makeModel(r.pick(fam), r);
    for (int i = 0; i < m.m(); i++) {
      double f = r.pick(std::vector<double> { 1, 1e3, 1e6, 1e9, 1e-3, 1e-6 });
      for (auto &e : m.rows[i])
        e.second *= f;
      if (m.rlb[i] > -1e20)
        m.rlb[i] *= f;
      if (m.rub[i] < 1e20)
        m.rub[i] *= f;
    }
    for (int j = 0; j < m.n; j++)
      if (r.p(0.3) && m.ub[j] < 1e20)
        m.ub[j] = r.pick(std::vector<double> { 1e3, 1e6, 1e9, 2e9, 3e9, 1e10, 1e12, 1e15, 1e25 });
      else if (r.p(0.1) && m.lb[j] > -1e20)
        m.lb[j] = -r.pick(std::vector<double> { 1e3, 1e6, 1e9, 3e9, 1e10, 1e12, 1e15, 1e25 });
    break;
  case 9: // right-hand sides of any size
    m = makeModel(r.pick(fam), r);
    for (int i = 0; i < m.m(); i++)
      if (r.p(0.5)) {
        double f = r.pick(std::vector<double> { 1e3, 1e6, 1e9, 2147483647.0, 2147483648.0, 4e9, 1e10, 1e15, 1e19, 1e25 });
        if (m.rub[i] < 1e20)
          m.rub[i] = f;
        if (m.rlb[i] > -1e20 && m.rub[i] > 1e20)
          m.rlb[i] = -f;
      }
    break;
  case 10: { // the same row again and again
    m = makeModel(r.pick(fam), r);
    if (m.m()) {
      int i = r.below(m.m()), k = r.in(1, 8);
      for (int t = 0; t < k; t++) {
        double d = r.below(2);
        m.addRow(m.rows[i], m.rlb[i] > -1e20 ? m.rlb[i] - d : -INF, m.rub[i] < 1e20 ? m.rub[i] + d : INF);
      }
    }
    break;
  }
  case 11: // fractional bounds on integer columns
    m = makeModel(r.pick(fam), r);
    for (int j = 0; j < m.n; j++)
      if (r.p(0.5)) {
        if (m.ub[j] < 1e20)
          m.ub[j] += 0.5;
        if (m.lb[j] > -1e20)
          m.lb[j] -= 0.25;
      }
    break;
  case 12: // only free rows
    m = makeModel(r.pick(fam), r);
    for (int i = 0; i < m.m(); i++) {
      m.rlb[i] = -INF;
      m.rub[i] = INF;
    }
    break;
  case 13: // nothing but 0-1 equalities and packing rows with every column in most rows
    {
      int n = r.in(2, 14), k = r.in(1, 12);
      for (int j = 0; j < n; j++)
        m.addCol(0, 1, true, -r.below(4));
      for (int i = 0; i < k; i++) {
        std::vector<std::pair<int, double>> row;
        for (int j = 0; j < n; j++)
          if (r.p(0.7))
            row.push_back({ j, 1.0 });
        m.addRow(row, r.p(0.2) ? 1 : -INF, r.p(0.7) ? 1 : 2);
      }
      break;
    }
  default:
    m = blocks(r, r.in(2, 5));
  }
  m.family = fmt("hostile%d", kind);
  return m;
}

void leakCheck(Env &env)
{
#ifdef HAVE_LSAN
  if (__lsan_do_recoverable_leak_check()) {
    fflush(stderr);
    _exit(95); // the report is on stderr
  }
  env.stat("leak_checks");
#endif
}

static void useOne(Env &env, Rng &r, const std::vector<std::string> &names)
{
  const GenSpec &g = pickGen(r, names);
  Ctx c;
  PrepOpt o;
  int what = r.below(100);
  if (what >= 35) {
    o.given = true;
    c.m = what == 99 && r.p(0.3) ? longRows(r) : what >= 96 ? blocks(r, r.in(5, 12)) : hostile(r);
    c.family = c.m.family;
  }
  if (!prepare(r, g, c, o) || c.m.m() < g.minRows) {
    env.stat("lp_not_optimal");
    return;
  }
  env.note(g.name);
  env.note(ctxStr(c));
  env.stat("model:" + c.family.substr(0, 10));
  int steps = r.in(1, 5), cuts = 0;
  std::vector<std::unique_ptr<CglCutGenerator>> pool;
  std::string d;
  pool.emplace_back(g.make(r, c.m, *c.si, d));
  env.note(d);
  if (r.p(0.8))
    pool[0]->refreshSolver(c.si.get());
  else if (g.refresh)
    pool[0]->refreshSolver(c.si.get());
  std::unique_ptr<OsiClpSolverInterface> si = liveCopy(c);
  if (!si)
    return;
  OsiCuts keep;
  for (int t = 0; t < steps; t++) {
    CglCutGenerator &x = *pool[r.below(static_cast<int>(pool.size()))];
    int op = r.below(11);
    if (t == 0)
      op = 0;
    switch (op) {
    case 0:
    case 1:
    case 2:
    case 3: {
      OsiCuts cs;
      CglTreeInfo i = c.info;
      if (r.p(0.3))
        i.pass++;
      x.generateCuts(*si, r.p(0.2) ? keep : cs, i);
      cuts += cs.sizeCuts() + keep.sizeCuts();
      env.stat("calls:" + g.name);
      break;
    }
    case 4:
      pool.emplace_back(x.clone());
      if (g.refresh)
        pool.back()->refreshSolver(si.get());
      env.stat("clones");
      break;
    case 5:
      if (g.assignable) {
        CglCutGenerator &y = *pool[r.below(static_cast<int>(pool.size()))];
        g.assign(y, x);
        if (g.refresh)
          y.refreshSolver(si.get());
        env.stat("assignments");
      }
      break;
    case 6:
      x.refreshSolver(si.get());
      break;
    case 7: {
      if (g.settings)
        env.stat("settings_bytes", static_cast<long>(g.settings(x).size()));
      FILE *f = tmpfile();
      if (f) {
        x.generateCpp(f);
        fclose(f);
      }
      env.stat("exports");
      break;
    }
    case 8:
      if (pool.size() > 1)
        pool.erase(pool.begin() + r.below(static_cast<int>(pool.size())));
      break;
    case 9:
      if (g.perturb && c.m.n)
        g.perturb(r, x);
      break;
    case 10:
      if (g.extra) {
        g.extra(r, x, *si);
        env.stat("extra:" + g.name);
      }
      break;
    }
  }
  if (cuts) {
    env.hit(mix(hashModel(c.m), hashStr(d)));
    env.sample(d + "\n" + ctxStr(c));
  }
}

// An interior LP point with so many fractional columns that the odd hole generator needs more
// node pairs, or more cuts, than its work arrays start with.
static void bigOddHole(Env &env, Rng &r)
{
  Model m;
  std::vector<double> x;
  int kind = r.below(10);
  bool cover = r.p(0.5);
  if (kind == 0) { // one cut for each of many small cycles
    int k = r.in(1001, 1100);
    for (int t = 0; t < k; t++) {
      int j = m.n;
      for (int q = 0; q < 3; q++) {
        m.addCol(0, 1, true, cover ? 1 : -1);
        x.push_back(0.5);
      }
      for (int q = 0; q < 3; q++)
        m.addRow({ { j + q, 1.0 }, { j + (q + 1) % 3, 1.0 } }, cover ? 1.0 : -INF, cover ? INF : 1.0);
    }
  } else { // an odd cycle of blocks of columns: every column of two neighbouring blocks is adjacent
    int b = r.pick(std::vector<int> { 1, 3, 5 });
    int sz = b == 1 ? r.in(150, 330) : b == 3 ? r.in(50, 110) : r.in(40, 80);
    for (int t = 0; t < b; t++)
      for (int q = 0; q < sz; q++) {
        m.addCol(0, 1, true, cover ? 1 : -1);
        x.push_back(b == 1 ? 1.0 / sz : 0.5 / sz);
      }
    for (int t = 0; t < b; t++) {
      std::vector<std::pair<int, double>> row;
      for (int q = 0; q < sz; q++) {
        row.push_back({ t * sz + q, 1.0 });
        if (b > 1)
          row.push_back({ ((t + 1) % b) * sz + q, 1.0 });
      }
      m.addRow(row, cover ? 1.0 : -INF, cover ? INF : 1.0);
    }
    // columns the generator does not look at
    int idle = r.below(3) ? 0 : r.in(1, 200);
    for (int q = 0; q < idle; q++) {
      m.addCol(0, 1, true, 1);
      x.push_back(0.0);
    }
  }
  OsiClpSolverInterface si;
  m.load(si);
  si.initialSolve();
  si.setColSolution(x.data());
  env.note(fmt("big odd hole model: kind %d, %d columns, %d rows, %s", kind, m.n, m.m(), cover ? "covering" : "packing"));
  CglOddHole gen;
  if (r.p(0.7))
    gen.setMaximumEntries(2000);
  CglTreeInfo info;
  OsiCuts cs;
  gen.generateCuts(si, cs, info);
  env.stat("calls:oddhole_big");
  env.stat("cuts:oddhole_big", cs.sizeRowCuts());
  if (cs.sizeRowCuts() > 1000)
    env.stat("more_than_1000_cuts");
  env.hit(mix(hashModel(m), 77));
}

static void fC15(Env &env, Rng &r)
{
  if (r.p(0.004)) {
    bigOddHole(env, r);
    return;
  }
  static const char *others[] = { "C06", "C07", "C08", "C09", "C11", "C13", "C01", "C02", "C03", "C04", "C04", "C05" };
  int k = r.below(26);
  if (k < 12) {
    const char *p = others[k];
    auto it = drivers().find(p);
    if (it != drivers().end()) {
      Env sub;
      sub.prop = env.prop;
      sub.seed = env.seed;
      sub.caseId = 1 + r.below(1000000);
      sub.mute = true;
      it->second[r.below(static_cast<int>(it->second.size()))](sub, r);
      env.note(sub.log);
      env.stat(std::string("histories_of:") + p);
      for (uint64_t h : sub.nontrivial)
        env.hit(mix(h, k));
    }
  } else
    useOne(env, r, ALL);
  leakCheck(env);
}
static Driver d15("C15", fC15);

static const std::vector<std::string> SHIM = { "gomory", "gmi", "redsplit2", "twomir", "flowcover", "rescapacity", "mir2", "probing" };
static void fC25(Env &env, Rng &r)
{
  static const char *others[] = { "C20", "C21", "C22", "C24" };
  int k = r.below(10);
  if (k < 4) {
    const char *p = others[k];
    auto it = drivers().find(p);
    if (it != drivers().end()) {
      Env sub;
      sub.prop = env.prop;
      sub.seed = env.seed;
      sub.caseId = 1 + r.below(1000000);
      sub.mute = true;
      it->second[r.below(static_cast<int>(it->second.size()))](sub, r);
      env.note(sub.log);
      env.stat(std::string("histories_of:") + p);
      for (uint64_t h : sub.nontrivial)
        env.hit(mix(h, k));
    }
  } else
    useOne(env, r, SHIM);
  leakCheck(env);
}
static Driver d25("C25", fC25);
} // namespace vm
