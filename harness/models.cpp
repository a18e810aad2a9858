// Random model families. Each plants an integer point so that models are feasible and
// tight around it; mutate() then applies structure-preserving hostile edits.
#include "core.hpp"
namespace vm {
typedef std::vector<std::pair<int, double>> Row;

static std::vector<double> plant(const Model &m, Rng &r)
{
  std::vector<double> x(m.n);
  for (int j = 0; j < m.n; j++) {
    double l = std::max(m.lb[j], -5.0), u = std::min(m.ub[j], 8.0);
    if (l > u) {
      l = m.lb[j] > -1e20 ? m.lb[j] : m.ub[j];
      u = l;
    }
    if (m.isInt[j])
      x[j] = r.in(static_cast<int>(ceil(l)), static_cast<int>(floor(u)));
    else
      x[j] = r.p(0.3) ? l : (l + floor((u - l) * 4 * r.u()) / 4.0);
  }
  return x;
}
static double act(const Row &row, const std::vector<double> &x)
{
  double s = 0;
  for (auto &e : row)
    s += e.second * x[e.first];
  return s;
}
// sense: 0 L, 1 G, 2 E, 3 ranged, -1 random
static void tightRow(Model &m, const Row &row, const std::vector<double> &x, Rng &r, int sense, int maxSlack)
{
  if (row.empty())
    return;
  double a = act(row, x);
  if (sense < 0) {
    int k = r.below(20);
    sense = k < 9 ? 0 : k < 15 ? 1 : k < 18 ? 2 : 3;
  }
  double s1 = r.below(maxSlack + 1), s2 = r.below(maxSlack + 1);
  switch (sense) {
  case 0:
    m.addRow(row, -INF, a + s1);
    break;
  case 1:
    m.addRow(row, a - s1, INF);
    break;
  case 2:
    m.addRow(row, a, a);
    break;
  default:
    m.addRow(row, a - s1, a + s2);
  }
}
static std::vector<int> subset(int n, int k, Rng &r)
{
  std::vector<int> p(n);
  for (int i = 0; i < n; i++)
    p[i] = i;
  for (int i = 0; i < std::min(k, n); i++)
    std::swap(p[i], p[i + r.below(n - i)]);
  p.resize(std::min(k, n));
  return p;
}

static Model setpack(Rng &r)
{
  Model m;
  int n = r.in(5, 13);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, -r.in(1, 4));
  int shape = r.below(5);
  if (shape == 0) { // odd cycle plus chords / wheel
    int k = 5 + 2 * r.below(std::max(1, (n - 5) / 2 + 1));
    k = std::min(k, n % 2 ? n : n - 1);
    auto c = subset(n, k, r);
    for (int i = 0; i < k; i++)
      m.addRow({ { c[i], 1 }, { c[(i + 1) % k], 1 } }, -INF, 1);
    for (int j = 0; j < n; j++)
      if (r.p(0.4)) {
        auto s = subset(n, r.in(2, 3), r);
        Row q;
        for (int v : s)
          q.push_back({ v, 1 });
        m.addRow(q, -INF, 1);
      }
  } else if (shape == 1) { // clique given by its edges
    int k = r.in(3, std::min(n, 6));
    auto c = subset(n, k, r);
    for (int i = 0; i < k; i++)
      for (int j = i + 1; j < k; j++)
        m.addRow({ { c[i], 1 }, { c[j], 1 } }, -INF, 1);
    for (int t = 0; t < n / 2; t++) {
      auto s = subset(n, 2, r);
      m.addRow({ { s[0], 1 }, { s[1], 1 } }, -INF, 1);
    }
  } else { // random cliques
    int rows = r.in(n / 2 + 1, 2 * n);
    for (int i = 0; i < rows; i++) {
      auto s = subset(n, r.in(2, 4), r);
      Row q;
      for (int v : s)
        q.push_back({ v, 1 });
      m.addRow(q, -INF, 1);
    }
  }
  // some equality rows
  if (r.p(0.25) && m.m()) {
    int i = r.below(m.m());
    m.rlb[i] = 1;
  }
  if (r.p(0.15))
    for (int i = 0; i < m.m(); i++)
      if (r.p(0.3))
        m.rlb[i] = 0;
  return m;
}
static Model setpackx(Rng &r)
{
  Model m = setpack(r);
  int nb = m.n;
  int extra = r.in(1, 3);
  for (int k = 0; k < extra; k++) {
    int t = r.below(3);
    if (t == 0)
      m.addCol(0, r.in(1, 3), true, r.in(-3, 3));
    else if (t == 1)
      m.addCol(0, r.in(1, 4), false, r.in(-3, 3));
    else
      m.addCol(r.in(-2, 0), r.in(1, 3), r.p(0.5), r.in(-3, 3));
  }
  // put extra columns into some clique rows with varied coefficients
  for (int i = 0; i < m.m(); i++)
    if (r.p(0.35)) {
      int j = nb + r.below(extra);
      double c = r.pick(std::vector<double> { 1, 1, 2, 0.5, -1, -0.5 });
      m.rows[i].push_back({ j, c });
      if (r.p(0.3) && m.rows[i].size() > 1)
        std::swap(m.rows[i].back(), m.rows[i][0]);
    }
  for (int i = 0; i < m.m(); i++)
    if (r.p(0.1)) { // non-unit coefficient for a binary
      m.rows[i][0].second = r.pick(std::vector<double> { 2, 0.5, -1 });
    }
  for (int i = 0; i < m.m(); i++)
    if (r.p(0.1) && m.rlb[i] < -1e20)
      m.rub[i] = r.pick(std::vector<double> { 1, 2, 0.5, 1.5 });
  return m;
}
static Model setcover(Rng &r)
{
  Model m;
  int n = r.in(5, 12);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, r.in(1, 4));
  int shape = r.below(2);
  if (shape == 0) {
    int k = 3 + 2 * r.below((n - 3) / 2 + 1);
    k = std::min(k, n % 2 ? n : n - 1);
    auto c = subset(n, k, r);
    for (int i = 0; i < k; i++)
      m.addRow({ { c[i], 1 }, { c[(i + 1) % k], 1 } }, 1, INF);
  }
  int rows = r.in(n / 2, 3 * n / 2);
  for (int i = 0; i < rows; i++) {
    auto s = subset(n, r.in(2, 4), r);
    Row q;
    for (int v : s)
      q.push_back({ v, 1 });
    if (r.p(0.15))
      m.addRow(q, 1, r.in(1, 3));
    else
      m.addRow(q, 1, INF);
  }
  return m;
}
static Model knap(Rng &r)
{
  Model m;
  int n = r.in(4, 12);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, -r.in(1, 20));
  bool ext = r.p(0.4);
  int nx = 0;
  if (ext) {
    nx = r.in(1, 2);
    for (int k = 0; k < nx; k++) {
      if (r.p(0.5))
        m.addCol(r.in(-2, 1), r.in(2, 4), true, r.in(-5, 5));
      else
        m.addCol(r.in(-2, 1), r.in(2, 6), false, r.in(-5, 5));
    }
  }
  auto x0 = plant(m, r);
  int rows = r.in(1, 4);
  int scale = r.pick(std::vector<int> { 3, 6, 12, 30 });
  bool neg = r.p(0.4);
  for (int i = 0; i < rows; i++) {
    auto s = subset(n, r.in(std::min(3, n), n), r);
    Row q;
    double tot = 0;
    for (int v : s) {
      double a = r.in(1, scale);
      if (neg && r.p(0.3))
        a = -a;
      q.push_back({ v, a });
      tot += std::max(0.0, a);
    }
    for (int k = 0; k < nx; k++)
      if (r.p(0.5))
        q.push_back({ n + k, static_cast<double>(r.in(-4, 4)) });
    if (r.p(0.6) && !neg && nx == 0) {
      double b = floor(tot * (0.3 + 0.5 * r.u()));
      if (r.p(0.2)) { // ">=" version via complement
        for (auto &e : q)
          e.second = -e.second;
        m.addRow(q, -b, INF);
      } else
        m.addRow(q, -INF, b);
    } else
      tightRow(m, q, x0, r, -1, scale);
  }
  if (r.p(0.4)) { // GUB rows
    auto s = subset(n, r.in(2, 4), r);
    Row q;
    for (int v : s)
      q.push_back({ v, 1 });
    m.addRow(q, -INF, 1);
  }
  return m;
}
// rows longer than the thresholds that select another cover search
static Model knapwide(Rng &r)
{
  Model m;
  int n = r.in(19, 36);
  int classes = r.in(2, 9), top = r.pick(std::vector<int> { 5, 12, 40, 200 });
  std::vector<double> w;
  for (int k = 0; k < classes; k++)
    w.push_back(r.in(1, top));
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, -r.in(1, top));
  int rows = r.in(1, 3);
  for (int i = 0; i < rows; i++) {
    Row q;
    double sum = 0;
    for (int j = 0; j < n; j++)
      if (i == 0 || r.p(0.8)) {
        double v = r.p(0.6) ? r.pick(w) : r.in(1, top);
        q.push_back({ j, v });
        sum += v;
        if (i == 0 && r.p(0.7))
          m.obj[j] = -std::max(1.0, v + r.in(-2, 2));
      }
    m.addRow(q, -INF, floor(sum * r.in(5, 95) / 100.0) + (r.p(0.3) ? 0.5 : 0));
  }
  for (int t = r.below(4); t > 0; t--) {
    Row q;
    for (int v : subset(n, r.in(2, 5), r))
      q.push_back({ v, 1 });
    m.addRow(q, -INF, 1);
  }
  return m;
}
static Model setpackwide(Rng &r)
{
  Model m;
  int n = r.in(16, 40);
  for (int j = 0; j < n; j++)
    m.addCol(0, 1, true, -r.in(1, 3));
  int shape = r.below(3);
  if (shape == 0) { // several cycles sharing nodes
    for (int t = r.in(2, 4); t > 0; t--) {
      auto c = subset(n, 5 + 2 * r.below(5), r);
      int k = static_cast<int>(c.size());
      for (int i = 0; i < k; i++)
        m.addRow({ { c[i], 1 }, { c[(i + 1) % k], 1 } }, -INF, 1);
    }
  } else if (shape == 1) { // edges of large cliques
    for (int t = r.in(1, 3); t > 0; t--) {
      auto c = subset(n, r.in(5, 15), r);
      for (size_t i = 0; i < c.size(); i++)
        for (size_t j = i + 1; j < c.size(); j++)
          m.addRow({ { c[i], 1 }, { c[j], 1 } }, -INF, 1);
    }
    for (int t = 0; t < n; t++) {
      auto s = subset(n, 2, r);
      m.addRow({ { s[0], 1 }, { s[1], 1 } }, -INF, 1);
    }
  } else
    for (int i = r.in(n / 2, 2 * n); i > 0; i--) {
      Row q;
      for (int v : subset(n, r.in(2, 5), r))
        q.push_back({ v, 1 });
      m.addRow(q, -INF, 1);
    }
  return m;
}
static Model paritywide(Rng &r)
{
  Model m;
  int n = r.in(14, 30);
  for (int j = 0; j < n; j++)
    m.addCol(0, r.p(0.8) ? 1 : r.in(1, 4), true, -r.in(1, 3));
  auto x = plant(m, r);
  for (int i = r.in(n / 2, n + 4); i > 0; i--) {
    Row q;
    for (int v : subset(n, r.in(2, 4), r))
      q.push_back({ v, r.pick(std::vector<double> { 1, 1, 1, 2, 3, -1 }) });
    tightRow(m, q, x, r, r.p(0.7) ? 0 : -1, 1);
  }
  return m;
}
static Model genint(Rng &r)
{
  Model m;
  int n = r.in(2, 6);
  for (int j = 0; j < n; j++) {
    int l = r.in(-3, 2);
    m.addCol(l, l + r.in(1, 5), true, r.in(-9, 9));
  }
  auto x0 = plant(m, r);
  int rows = r.in(1, 5);
  int sc = r.pick(std::vector<int> { 2, 4, 9 });
  for (int i = 0; i < rows; i++) {
    auto s = subset(n, r.in(2, n), r);
    Row q;
    int g = r.p(0.25) ? r.in(2, 4) : 1;
    for (int v : s) {
      int a = r.in(-sc, sc);
      if (!a)
        a = 1;
      q.push_back({ v, static_cast<double>(a * g) });
    }
    tightRow(m, q, x0, r, -1, g * sc);
  }
  return m;
}
static Model mixedm(Rng &r)
{
  Model m;
  int ni = r.in(2, 6), nc = r.in(1, 4);
  for (int j = 0; j < ni; j++) {
    if (r.p(0.5))
      m.addCol(0, 1, true, r.in(-9, 9));
    else {
      int l = r.in(-2, 1);
      m.addCol(l, l + r.in(1, 4), true, r.in(-9, 9));
    }
  }
  for (int j = 0; j < nc; j++) {
    int t = r.below(6);
    double l = r.in(-3, 1), u = l + r.in(1, 8);
    if (t == 0)
      u = INF;
    if (t == 1 && r.p(0.4))
      l = -INF;
    m.addCol(l, u, false, r.in(-5, 5));
  }
  auto x0 = plant(m, r);
  int rows = r.in(2, 6);
  for (int i = 0; i < rows; i++) {
    auto s = subset(m.n, r.in(2, std::min(m.n, 5)), r);
    Row q;
    for (int v : s) {
      int a = r.in(-6, 6);
      if (!a)
        a = 1;
      q.push_back({ v, r.p(0.15) ? a + 0.5 : static_cast<double>(a) });
    }
    tightRow(m, q, x0, r, -1, 6);
  }
  // keep bounded in the objective direction most of the time
  for (int j = 0; j < m.n; j++) {
    if (m.ub[j] > 1e20 && m.obj[j] < 0)
      m.obj[j] = -m.obj[j];
    if (m.lb[j] < -1e20 && m.obj[j] > 0)
      m.obj[j] = -m.obj[j];
    if (m.ub[j] > 1e20 && m.lb[j] < -1e20)
      m.obj[j] = 0;
  }
  return m;
}
// fixed-charge single node flow / network
static Model flow(Rng &r)
{
  Model m;
  int k = r.in(2, 5);
  std::vector<int> y, x;
  std::vector<int> inflow;
  for (int i = 0; i < k; i++) {
    double u = r.in(2, 12);
    x.push_back(m.addCol(0, 1, true, r.in(1, 15)));
    y.push_back(m.addCol(0, r.p(0.3) ? INF : u + r.below(4), false, r.in(-4, 4)));
    inflow.push_back(r.p(0.6));
    double rhs = 0;
    int form = r.below(10);
    if (form == 9) // variable lower bound as well
      m.addRow({ { y.back(), 1 }, { x.back(), -static_cast<double>(r.in(1, 2)) } }, 0, INF);
    if (form == 8)
      m.addRow({ { x.back(), -u }, { y.back(), 1 } }, -INF, rhs);
    else if (form == 7)
      m.addRow({ { x.back(), u }, { y.back(), -1 } }, rhs, INF);
    else if (form == 6)
      m.addRow({ { y.back(), 2 }, { x.back(), -2 * u } }, -INF, rhs);
    else
      m.addRow({ { y.back(), 1 }, { x.back(), -u } }, -INF, rhs);
  }
  Row bal;
  double tot = 0;
  for (int i = 0; i < k; i++) {
    bal.push_back({ y[i], inflow[i] ? 1.0 : -1.0 });
    if (inflow[i])
      tot += 4;
  }
  int extra = -1;
  if (r.p(0.3)) {
    extra = m.addCol(0, r.in(1, 5), false, r.in(-2, 4));
    bal.push_back({ extra, r.p(0.5) ? 1.0 : -1.0 });
  }
  double b = r.in(1, std::max(2, static_cast<int>(tot)));
  int s = r.below(4);
  if (s == 0)
    m.addRow(bal, -INF, b);
  else if (s == 1)
    m.addRow(bal, b, INF);
  else if (s == 2)
    m.addRow(bal, b, b);
  else {
    m.addRow(bal, -INF, b);
    Row b2 = bal;
    for (auto &e : b2)
      e.second = r.p(0.5) ? 1 : e.second;
    m.addRow(b2, r.in(0, 4), INF);
  }
  for (int i = 0; i < k; i++)
    if (m.ub[y[i]] > 1e20 && m.obj[y[i]] < 0)
      m.obj[y[i]] = 1;
  return m;
}
static Model lotsize(Rng &r)
{
  Model m;
  int T = r.in(2, 4);
  std::vector<int> y, s, x;
  std::vector<double> d(T);
  double tot = 0;
  for (int t = 0; t < T; t++) {
    d[t] = r.in(1, 9);
    tot += d[t];
  }
  for (int t = 0; t < T; t++) {
    y.push_back(m.addCol(0, r.p(0.5) ? INF : tot, false, r.in(0, 3)));
    s.push_back(m.addCol(0, INF, false, r.in(1, 3)));
    x.push_back(m.addCol(0, r.p(0.8) ? 1 : 2, true, r.in(3, 20)));
  }
  for (int t = 0; t < T; t++) {
    Row q = { { y[t], 1 }, { s[t], -1 } };
    if (t)
      q.push_back({ s[t - 1], 1 });
    m.addRow(q, d[t], r.p(0.85) ? d[t] : INF);
    double cap = r.p(0.5) ? tot : d[t] + r.in(0, 6);
    if (t == 0)
      cap = std::max(cap, tot);
    m.addRow({ { y[t], 1 }, { x[t], -cap } }, -INF, 0);
  }
  return m;
}
static Model parity(Rng &r)
{
  Model m;
  int n = r.in(4, 9);
  bool bin = r.p(0.6);
  for (int j = 0; j < n; j++) {
    if (bin)
      m.addCol(0, 1, true, r.in(-9, 9));
    else {
      int l = r.in(-1, 1);
      m.addCol(l, l + r.in(1, 3), true, r.in(-9, 9));
    }
  }
  auto x0 = plant(m, r);
  int rows = r.in(2, 8);
  for (int i = 0; i < rows; i++) {
    auto s = subset(n, r.in(2, std::min(n, 4)), r);
    Row q;
    for (int v : s)
      q.push_back({ v, r.pick(std::vector<double> { 1, 1, 1, 2, -1, -1, 3, -2, -3 }) });
    tightRow(m, q, x0, r, -1, 1);
  }
  return m;
}
static Model dup(Rng &r)
{
  Model m;
  int n = r.in(3, 9);
  bool gi = r.p(0.3);
  for (int j = 0; j < n; j++) {
    if (gi && r.p(0.5)) {
      int l = r.below(2);
      m.addCol(l, l + r.in(1, 3), true, r.in(-6, 6));
    } else
      m.addCol(0, 1, r.p(0.95), r.in(-6, 6));
  }
  int rows = r.in(2, 6);
  for (int i = 0; i < rows; i++) {
    auto s = subset(n, r.in(1, n), r);
    Row q;
    for (int v : s)
      q.push_back({ v, r.p(0.75) ? 1.0 : static_cast<double>(r.in(1, 4)) });
    double b = r.in(1, 4);
    for (auto &e : q)
      b += e.second * std::max(0.0, m.lb[e.first]);
    m.addRow(q, r.p(0.45) ? b : (r.p(0.5) ? -INF : 0.0), b);
    if (r.p(0.45)) { // derived row: same / subset / superset
      Row q2 = q;
      int t = r.below(3);
      if (t == 1 && q2.size() > 1)
        q2.pop_back();
      if (t == 2)
        for (int v = 0; v < n; v++)
          if (r.p(0.25)) {
            bool has = false;
            for (auto &e : q2)
              has |= e.first == v;
            if (!has)
              q2.push_back({ v, 1 });
          }
      double b2 = r.p(0.7) ? b : b + r.in(-1, 2);
      m.addRow(q2, r.p(0.45) ? b2 : -INF, b2);
    }
  }
  if (r.p(0.3)) { // duplicate columns
    int j = r.below(n);
    int k = m.addCol(m.lb[j], m.ub[j], m.isInt[j], m.obj[j] + r.in(-1, 1));
    for (auto &row : m.rows)
      for (size_t t = 0; t < row.size(); t++)
        if (row[t].first == j) {
          row.push_back({ k, row[t].second });
          break;
        }
  }
  return m;
}
static Model rescap(Rng &r)
{
  Model m;
  int k = r.in(2, 5);
  std::vector<int> y;
  double tot = 0;
  for (int i = 0; i < k; i++) {
    double u = r.in(1, 6);
    tot += u;
    y.push_back(m.addCol(0, u, false, -r.in(1, 6)));
  }
  double C = r.in(2, 7);
  int nz = r.in(1, 2);
  std::vector<int> z;
  for (int i = 0; i < nz; i++)
    z.push_back(m.addCol(0, r.in(1, 4), true, r.in(2, 12)));
  Row q;
  for (int v : y)
    q.push_back({ v, 1 });
  for (int v : z)
    q.push_back({ v, -C });
  if (r.p(0.8))
    m.addRow(q, -INF, r.p(0.8) ? 0 : r.in(0, 2));
  else {
    for (auto &e : q)
      e.second = -e.second;
    m.addRow(q, 0, INF);
  }
  if (r.p(0.5)) {
    Row q2;
    for (int v : y)
      if (r.p(0.7))
        q2.push_back({ v, 1 });
    if (q2.size())
      m.addRow(q2, -INF, floor(tot * 0.7));
  }
  return m;
}
static Model assign(Rng &r)
{
  // small assignment / GUB + knapsacks (generalised assignment)
  Model m;
  int a = r.in(2, 3), b = r.in(2, 4);
  for (int i = 0; i < a * b; i++)
    m.addCol(0, 1, true, -r.in(1, 12));
  for (int j = 0; j < b; j++) {
    Row q;
    for (int i = 0; i < a; i++)
      q.push_back({ i * b + j, 1 });
    m.addRow(q, r.p(0.4) ? 1 : -INF, 1);
  }
  for (int i = 0; i < a; i++) {
    Row q;
    double t = 0;
    for (int j = 0; j < b; j++) {
      double c = r.in(2, 15);
      q.push_back({ i * b + j, c });
      t += c;
    }
    m.addRow(q, -INF, floor(t * (0.4 + 0.3 * r.u())));
  }
  return m;
}
static Model degenerate(Rng &r)
{
  Model m;
  int t = r.below(7);
  if (t == 0) { // no rows at all
    int n = r.in(1, 4);
    for (int j = 0; j < n; j++)
      m.addCol(0, r.in(1, 3), r.p(0.7), r.in(-3, 3));
    m.addRow({ { 0, 1 } }, -INF, INF);
    return m;
  }
  m = t < 3 ? genint(r) : t < 5 ? knap(r) : mixedm(r);
  if (t == 1 || t == 5)
    for (int j = 0; j < m.n; j++)
      m.isInt[j] = 0; // pure LP
  if (t == 2 || t == 6)
    for (int j = 0; j < m.n; j++)
      if (r.p(0.7)) {
        double v = std::max(m.lb[j], std::min(m.ub[j], 0.0));
        m.lb[j] = m.ub[j] = m.isInt[j] ? floor(v) : v;
      }
  if (t == 3)
    for (int i = 0; i < m.m(); i++)
      if (r.p(0.5)) {
        m.rlb[i] = -INF;
        m.rub[i] = INF;
      }
  if (t == 4)
    m.rows[r.below(m.m())].clear();
  for (int i = 0; i < m.m(); i++)
    if (m.rows[i].empty()) {
      m.rlb[i] = std::min(m.rlb[i], 0.0);
      m.rub[i] = std::max(m.rub[i], 0.0);
    }
  return m;
}

static Model mixed01(Rng &r)
{
  Model m = mixedm(r);
  for (int j = 0; j < m.n; j++)
    if (m.isInt[j]) {
      m.lb[j] = 0;
      m.ub[j] = 1;
    } else if (m.ub[j] > 1e20 && r.p(0.5))
      m.ub[j] = std::max(m.lb[j], 0.0) + 6;
  return m;
}
// rows with decimal data, as in hand-written models
static Model decimalm(Rng &r)
{
  Model m = r.p(0.5) ? genint(r) : mixedm(r);
  for (int i = 0; i < m.m(); i++) {
    double f = r.pick(std::vector<double> { 1, 10, 10, 100, 4 });
    bool frac = r.p(0.5);
    // data no power of ten makes integral
    bool odd = r.p(0.15);
    for (auto &e : m.rows[i]) {
      if (odd)
        e.second += r.u() - 0.5;
      if (frac)
        e.second += r.in(-9, 9) / 10.0;
      e.second /= f;
      if (e.second == 0)
        e.second = 1 / f;
    }
    if (m.rlb[i] > -1e20)
      m.rlb[i] = (m.rlb[i] + (r.p(0.7) ? r.in(-9, 0) / 10.0 : 0)) / f;
    if (m.rub[i] < 1e20)
      m.rub[i] = (m.rub[i] + (r.p(0.7) ? r.in(0, 9) / 10.0 : 0)) / f;
  }
  for (int j = 0; j < m.n; j++)
    if (!m.isInt[j]) {
      if (m.lb[j] > -1e20)
        m.lb[j] += r.in(0, 9) / 10.0;
      if (m.ub[j] < 1e20)
        m.ub[j] += r.in(0, 9) / 10.0;
    }
  return m;
}

// structure preserving edits -------------------------------------------------
static void mutate(Model &m, Rng &r)
{
  int k = r.below(4);
  for (int t = 0; t < k; t++) {
    int e = r.below(12);
    int j = m.n ? r.below(m.n) : 0;
    switch (e) {
    case 0: { // shift column: x := x' - s
      double s = r.in(-3, 3);
      m.lb[j] += m.lb[j] > -1e20 ? s : 0;
      m.ub[j] += m.ub[j] < 1e20 ? s : 0;
      for (int i = 0; i < m.m(); i++)
        for (auto &q : m.rows[i])
          if (q.first == j) {
            if (m.rlb[i] > -1e20)
              m.rlb[i] += q.second * s;
            if (m.rub[i] < 1e20)
              m.rub[i] += q.second * s;
          }
      break;
    }
    case 1: { // negate column
      double l = m.lb[j], u = m.ub[j];
      m.lb[j] = u < 1e20 ? -u : -INF;
      m.ub[j] = l > -1e20 ? -l : INF;
      m.obj[j] = -m.obj[j];
      for (auto &row : m.rows)
        for (auto &q : row)
          if (q.first == j)
            q.second = -q.second;
      break;
    }
    case 2: { // complement binary
      if (m.isInt[j] && m.lb[j] == 0 && m.ub[j] == 1) {
        m.obj[j] = -m.obj[j];
        for (int i = 0; i < m.m(); i++)
          for (auto &q : m.rows[i])
            if (q.first == j) {
              if (m.rlb[i] > -1e20)
                m.rlb[i] -= q.second;
              if (m.rub[i] < 1e20)
                m.rub[i] -= q.second;
              q.second = -q.second;
            }
      }
      break;
    }
    case 3: { // negate or scale a row
      if (!m.m())
        break;
      int i = r.below(m.m());
      double f = r.pick(std::vector<double> { -1, -1, 2, 3, 0.5, -2 });
      for (auto &q : m.rows[i])
        q.second *= f;
      double l = m.rlb[i], u = m.rub[i];
      double a = l > -1e20 ? l * f : (f > 0 ? -INF : INF);
      double b = u < 1e20 ? u * f : (f > 0 ? INF : -INF);
      m.rlb[i] = std::min(a, b);
      m.rub[i] = std::max(a, b);
      break;
    }
    case 4: // fix a column
      if (r.p(0.5)) {
        double v = m.lb[j] > -1e20 && r.p(0.5) ? m.lb[j] : m.ub[j];
        if (fabs(v) < 1e20)
          m.lb[j] = m.ub[j] = v;
      }
      break;
    case 5: // empty column
      m.addCol(0, r.in(1, 2), r.p(0.5), r.in(0, 2));
      break;
    case 10: { // one more variable bound on a continuous column
      if (m.isInt.empty() || m.isInt[j])
        break;
      std::vector<int> ys;
      for (int k = 0; k < m.n; k++)
        if (m.isInt[k] && m.lb[k] == 0 && m.ub[k] <= 3)
          ys.push_back(k);
      if (ys.empty())
        break;
      int y = r.pick(ys);
      double f = r.pick(std::vector<double> { 1, 1, 1, 2, -1, -3 }), u = r.in(3, 25);
      bool upper = r.p(0.75);
      if (!upper)
        u = r.in(0, 2) + 0.5;
      double off = r.p(0.85) ? 0 : r.pick(std::vector<double> { 1, 0.01, -0.01, 1e-3 });
      Row q = { { j, f }, { y, -u * f } };
      if (r.p(0.5))
        std::swap(q[0], q[1]);
      if (upper == (f > 0))
        m.addRow(q, -INF, off);
      else
        m.addRow(q, off, INF);
      break;
    }
    case 11: // a right hand side that is nearly, but not quite, what it was
      if (m.m() && r.p(0.3)) {
        int i = r.below(m.m());
        double d = r.pick(std::vector<double> { 0.01, -0.01, 0.004, 1e-3, -1e-3, 1e-4 });
        if (m.rlb[i] > -1e20)
          m.rlb[i] += d;
        if (m.rub[i] < 1e20)
          m.rub[i] += d;
      }
      break;
    case 6: // free row
      if (m.m()) {
        auto row = m.rows[r.below(m.m())];
        m.rows.push_back(row);
        m.rlb.push_back(-INF);
        m.rub.push_back(INF);
      }
      break;
    case 7: // duplicate row weaker
      if (m.m()) {
        int i = r.below(m.m());
        auto row = m.rows[i];
        double l = m.rlb[i], u = m.rub[i];
        m.rows.push_back(row);
        m.rlb.push_back(l > -1e20 ? l - r.below(2) : l);
        m.rub.push_back(u < 1e20 ? u + r.below(2) : u);
      }
      break;
    case 8: // shuffle the order inside a row
      if (m.m()) {
        auto &row = m.rows[r.below(m.m())];
        for (size_t a = 0; a + 1 < row.size(); a++)
          std::swap(row[a], row[a + r.below(static_cast<int>(row.size() - a))]);
      }
      break;
    case 9: // tighten / relax one side into a range
      if (m.m()) {
        int i = r.below(m.m());
        double mn = 0, mx = 0;
        for (auto &q : m.rows[i]) {
          double a = q.second * m.lb[q.first], b = q.second * m.ub[q.first];
          mn += std::min(a, b);
          mx += std::max(a, b);
        }
        if (m.rlb[i] < -1e20 && mn > -1e20)
          m.rlb[i] = floor(mn);
        else if (m.rub[i] > 1e20 && mx < 1e20)
          m.rub[i] = ceil(mx);
      }
      break;
    }
  }
}

std::vector<std::string> allFamilies()
{
  return { "setpack", "setpackx", "setcover", "knap", "genint", "mixed", "flow", "lotsize", "parity", "dup", "rescap", "assign", "degenerate" };
}
Model makeModel(const std::string &family, Rng &r)
{
  Model m;
  bool pure = family.size() > 1 && family.back() == '!';
  std::string f = pure ? family.substr(0, family.size() - 1) : family;
  if (f == "setpack")
    m = setpack(r);
  else if (f == "setpackx")
    m = setpackx(r);
  else if (f == "setcover")
    m = setcover(r);
  else if (f == "knap")
    m = knap(r);
  else if (f == "genint")
    m = genint(r);
  else if (f == "mixed")
    m = mixedm(r);
  else if (f == "flow")
    m = flow(r);
  else if (f == "lotsize")
    m = lotsize(r);
  else if (f == "parity")
    m = parity(r);
  else if (f == "dup")
    m = dup(r);
  else if (f == "rescap")
    m = rescap(r);
  else if (f == "assign")
    m = assign(r);
  else if (f == "mixed01")
    m = mixed01(r);
  else if (f == "knapwide")
    m = knapwide(r);
  else if (f == "setpackwide")
    m = setpackwide(r);
  else if (f == "paritywide")
    m = paritywide(r);
  else if (f == "decimal")
    m = decimalm(r);
  else
    m = degenerate(r);
  m.family = f;
  if (!pure)
    mutate(m, r);
  return m;
}
} // namespace vm
