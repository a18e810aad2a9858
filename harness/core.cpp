#include "core.hpp"
#include "CoinWarmStartBasis.hpp"
namespace vm {

uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x1234567));
  r.next();
  return r.next();
}
uint64_t hashStr(const std::string &s)
{
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ULL;
  return h;
}

int Model::addCol(double l, double u, bool integer, double c)
{
  lb.push_back(l);
  ub.push_back(u);
  isInt.push_back(integer);
  obj.push_back(c);
  return n++;
}
void Model::addRow(std::vector<std::pair<int, double>> r, double lo, double up)
{
  // merge duplicates, drop zeros, keep given order
  std::vector<std::pair<int, double>> out;
  for (auto &e : r) {
    bool seen = false;
    for (auto &o : out)
      if (o.first == e.first) {
        o.second += e.second;
        seen = true;
      }
    if (!seen)
      out.push_back(e);
  }
  std::vector<std::pair<int, double>> out2;
  for (auto &o : out)
    if (o.second != 0.0)
      out2.push_back(o);
  rows.push_back(out2);
  rlb.push_back(lo);
  rub.push_back(up);
}
bool Model::pureInt() const
{
  for (char c : isInt)
    if (!c)
      return false;
  return true;
}
void Model::load(OsiClpSolverInterface &si) const
{
  std::vector<CoinBigIndex> start(1, 0);
  std::vector<int> len, ind;
  std::vector<double> val;
  for (auto &r : rows) {
    for (auto &e : r) {
      ind.push_back(e.first);
      val.push_back(e.second);
    }
    start.push_back(static_cast<CoinBigIndex>(ind.size()));
    len.push_back(static_cast<int>(r.size()));
  }
  if (ind.empty()) {
    ind.push_back(0);
    val.push_back(0);
  }
  if (len.empty())
    len.push_back(0);
  CoinPackedMatrix mat(false, n, m(), start.back(), val.data(), ind.data(), start.data(), len.data());
  si.loadProblem(mat, lb.data(), ub.data(), obj.data(), rlb.data(), rub.data());
  for (int j = 0; j < n; j++)
    if (isInt[j])
      si.setInteger(j);
  si.messageHandler()->setLogLevel(0);
  si.getModelPtr()->setLogLevel(0);
}
static std::string num(double v)
{
  if (v >= 1e30)
    return "inf";
  if (v <= -1e30)
    return "-inf";
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
std::string Model::dump() const
{
  std::ostringstream o;
  o << "family " << family << " cols " << n << " rows " << m() << "\n";
  for (int j = 0; j < n; j++)
    o << " x" << j << (isInt[j] ? " int " : " cont ") << "[" << num(lb[j]) << "," << num(ub[j]) << "] obj " << num(obj[j]) << "\n";
  for (int i = 0; i < m(); i++) {
    o << " r" << i << ": " << num(rlb[i]) << " <=";
    for (auto &e : rows[i])
      o << " " << (e.second >= 0 ? "+" : "") << num(e.second) << "*x" << e.first;
    o << " <= " << num(rub[i]) << "\n";
  }
  return o.str();
}

double Lin::activity(const std::vector<double> &x) const { return activity(x.data()); }
double Lin::activity(const double *x) const
{
  double s = 0;
  for (auto &e : a)
    s += e.second * x[e.first];
  return s;
}
bool Lin::operator<(const Lin &o) const
{
  if (a != o.a)
    return a < o.a;
  if (lo != o.lo)
    return lo < o.lo;
  if (up != o.up)
    return up < o.up;
  if (fromCol != o.fromCol)
    return fromCol < o.fromCol;
  return global < o.global;
}
bool Lin::operator==(const Lin &o) const
{
  return a == o.a && lo == o.lo && up == o.up && fromCol == o.fromCol && global == o.global;
}
std::string Lin::str() const
{
  std::ostringstream o;
  o << (fromCol ? "bound " : "row ") << num(lo) << " <=";
  for (auto &e : a)
    o << " " << (e.second >= 0 ? "+" : "") << num(e.second) << "*x" << e.first;
  o << " <= " << num(up) << (global ? " (global)" : "");
  return o.str();
}
Lin linOf(const OsiRowCut &rc)
{
  Lin l;
  const CoinPackedVector &v = rc.row();
  for (int i = 0; i < v.getNumElements(); i++)
    l.a.push_back({ v.getIndices()[i], v.getElements()[i] });
  l.lo = rc.lb();
  l.up = rc.ub();
  l.global = rc.globallyValid();
  l.eff = rc.effectiveness();
  return l;
}
std::vector<Lin> linsOf(const OsiColCut &cc)
{
  std::vector<Lin> out;
  const CoinPackedVector &l = cc.lbs();
  for (int i = 0; i < l.getNumElements(); i++) {
    Lin c;
    c.fromCol = true;
    c.global = cc.globallyValid();
    c.a.push_back({ l.getIndices()[i], 1.0 });
    c.lo = l.getElements()[i];
    out.push_back(c);
  }
  const CoinPackedVector &u = cc.ubs();
  for (int i = 0; i < u.getNumElements(); i++) {
    Lin c;
    c.fromCol = true;
    c.global = cc.globallyValid();
    c.a.push_back({ u.getIndices()[i], 1.0 });
    c.up = u.getElements()[i];
    out.push_back(c);
  }
  return out;
}
std::vector<Lin> linsOf(const OsiCuts &cs, int r0, int c0)
{
  std::vector<Lin> out;
  for (int i = r0; i < cs.sizeRowCuts(); i++)
    out.push_back(linOf(*cs.rowCutPtr(i)));
  for (int i = c0; i < cs.sizeColCuts(); i++)
    for (auto &l : linsOf(*cs.colCutPtr(i)))
      out.push_back(l);
  return out;
}
std::vector<Lin> canon(std::vector<Lin> v)
{
  for (auto &l : v)
    std::sort(l.a.begin(), l.a.end());
  std::sort(v.begin(), v.end());
  return v;
}
std::string str(const std::vector<Lin> &v)
{
  std::string s;
  for (auto &l : v)
    s += "  " + l.str() + "\n";
  return s;
}
double cutTol(const Lin &c, const std::vector<double> &x)
{
  double s = 0;
  for (auto &e : c.a)
    s += fabs(e.second) * std::max(1.0, fabs(x[e.first]));
  return s;
}

Oracle::Oracle(const Model &m, const std::vector<double> &lb, const std::vector<double> &ub, long maxPoints)
  : m_(m), lb_(lb), ub_(ub)
{
  if (m_.pureInt())
    enumerate(maxPoints);
}

void Oracle::enumerate(long maxPoints)
{
  double box = 1;
  for (int j = 0; j < m_.n; j++) {
    if (lb_[j] < -1000 || ub_[j] > 1000)
      return;
    double w = floor(ub_[j] + 1e-9) - ceil(lb_[j] - 1e-9) + 1;
    if (w <= 0) {
      enumerated_ = true;
      return;
    }
    box *= w;
    if (box > 3e6)
      return;
  }
  int m = m_.m();
  // DFS with activity bounds
  std::vector<std::vector<std::pair<int, double>>> col(m_.n);
  for (int i = 0; i < m; i++)
    for (auto &e : m_.rows[i])
      col[e.first].push_back({ i, e.second });
  std::vector<double> lo(m, 0), hi(m, 0);
  std::vector<int> L(m_.n), U(m_.n);
  for (int j = 0; j < m_.n; j++) {
    L[j] = static_cast<int>(ceil(lb_[j] - 1e-9));
    U[j] = static_cast<int>(floor(ub_[j] + 1e-9));
    for (auto &e : col[j]) {
      lo[e.first] += std::min(e.second * L[j], e.second * U[j]);
      hi[e.first] += std::max(e.second * L[j], e.second * U[j]);
    }
  }
  for (int i = 0; i < m; i++)
    if (m_.rows[i].empty() && (m_.rlb[i] > 1e-9 || m_.rub[i] < -1e-9)) {
      enumerated_ = true;
      return;
    }
  std::vector<double> x(m_.n);
  bool over = false;
  long nodes = 0;
  std::function<void(int)> rec = [&](int j) {
    if (over)
      return;
    if (++nodes > 4000000) {
      over = true;
      return;
    }
    if (j == m_.n) {
      pts_.push_back(x);
      if (static_cast<long>(pts_.size()) > maxPoints)
        over = true;
      return;
    }
    for (int v = L[j]; v <= U[j]; v++) {
      bool ok = true;
      for (auto &e : col[j]) {
        int i = e.first;
        lo[i] += e.second * v - std::min(e.second * L[j], e.second * U[j]);
        hi[i] += e.second * v - std::max(e.second * L[j], e.second * U[j]);
        if (lo[i] > m_.rub[i] + 1e-9 || hi[i] < m_.rlb[i] - 1e-9)
          ok = false;
      }
      if (ok) {
        x[j] = v;
        rec(j + 1);
      }
      for (auto &e : col[j]) {
        int i = e.first;
        lo[i] -= e.second * v - std::min(e.second * L[j], e.second * U[j]);
        hi[i] -= e.second * v - std::max(e.second * L[j], e.second * U[j]);
      }
    }
  };
  rec(0);
  if (over) {
    pts_.clear();
    return;
  }
  enumerated_ = true;
}

bool Oracle::verifyPoint(const std::vector<double> &x, double tol) const
{
  for (int j = 0; j < m_.n; j++) {
    if (x[j] < lb_[j] - tol || x[j] > ub_[j] + tol)
      return false;
    if (m_.isInt[j] && fabs(x[j] - floor(x[j] + 0.5)) > 1e-9)
      return false;
  }
  for (int i = 0; i < m_.m(); i++) {
    double s = 0, sc = 1;
    for (auto &e : m_.rows[i]) {
      s += e.second * x[e.first];
      sc = std::max(sc, fabs(e.second * x[e.first]));
    }
    if (s < m_.rlb[i] - tol * sc || s > m_.rub[i] + tol * sc)
      return false;
  }
  return true;
}

int Oracle::search(const std::vector<double> &c, double thr, std::vector<double> &x, double &val)
{
  int n = m_.n, m = m_.m();
  std::vector<int> L(n), U(n), order(n);
  for (int j = 0; j < n; j++) {
    if (!m_.isInt[j] || lb_[j] < -1000 || ub_[j] > 1000)
      return -1;
    L[j] = static_cast<int>(ceil(lb_[j] - 1e-9));
    U[j] = static_cast<int>(floor(ub_[j] + 1e-9));
    if (L[j] > U[j])
      return 0;
    order[j] = j;
  }
  // large contributions first; columns the cut does not use last, dense ones before sparse ones
  std::vector<std::vector<std::pair<int, double>>> col(n);
  for (int i = 0; i < m; i++) {
    if (m_.rows[i].empty() && (m_.rlb[i] > 1e-9 || m_.rub[i] < -1e-9))
      return 0;
    for (auto &e : m_.rows[i])
      col[e.first].push_back({ i, e.second });
  }
  std::stable_sort(order.begin(), order.end(), [&](int a, int b) {
    double x1 = fabs(c[a]) * (U[a] - L[a]), x2 = fabs(c[b]) * (U[b] - L[b]);
    return x1 != x2 ? x1 > x2 : col[a].size() > col[b].size();
  });
  std::vector<double> lo(m, 0), hi(m, 0), rest(n + 1, 0);
  for (int j = 0; j < n; j++)
    for (auto &e : col[j]) {
      lo[e.first] += std::min(e.second * L[j], e.second * U[j]);
      hi[e.first] += std::max(e.second * L[j], e.second * U[j]);
    }
  for (int k = n - 1; k >= 0; k--)
    rest[k] = rest[k + 1] + std::max(c[order[k]] * L[order[k]], c[order[k]] * U[order[k]]);
  std::vector<double> y(n);
  long nodes = 0;
  int result = 0;
  std::function<bool(int, double)> rec = [&](int k, double z) { // true: stop
    if (z + rest[k] <= thr)
      return false;
    if (++nodes > 400000) {
      result = -1;
      return true;
    }
    if (k == n) {
      if (!verifyPoint(y, 1e-7))
        return false;
      x = y;
      val = z;
      result = 1;
      return true;
    }
    int j = order[k];
    bool up = c[j] > 0;
    for (int t = 0; t <= U[j] - L[j]; t++) {
      int v = up ? U[j] - t : L[j] + t;
      bool ok = true, stop = false;
      for (auto &e : col[j]) {
        int i = e.first;
        lo[i] += e.second * v - std::min(e.second * L[j], e.second * U[j]);
        hi[i] += e.second * v - std::max(e.second * L[j], e.second * U[j]);
        if (lo[i] > m_.rub[i] + 1e-9 || hi[i] < m_.rlb[i] - 1e-9)
          ok = false;
      }
      if (ok) {
        y[j] = v;
        stop = rec(k + 1, z + c[j] * v);
      }
      for (auto &e : col[j]) {
        int i = e.first;
        lo[i] -= e.second * v - std::min(e.second * L[j], e.second * U[j]);
        hi[i] -= e.second * v - std::max(e.second * L[j], e.second * U[j]);
      }
      if (stop)
        return true;
    }
    return false;
  };
  rec(0, 0.0);
  pointsChecked += nodes;
  return result;
}

int Oracle::bb(const std::vector<double> &c, double thr, std::vector<double> &x, double &val, bool best, int maxNodes)
{
  if (!si_) {
    si_.reset(new OsiClpSolverInterface());
    m_.load(*si_);
    si_->setColLower(lb_.data());
    si_->setColUpper(ub_.data());
    si_->setDblParam(OsiPrimalTolerance, 1e-9);
    si_->setDblParam(OsiDualTolerance, 1e-9);
  }
  OsiClpSolverInterface &s = *si_;
  std::vector<double> negc(c.size());
  for (size_t j = 0; j < c.size(); j++)
    negc[j] = -c[j];
  struct Node {
    std::vector<double> l, u;
  };
  std::vector<Node> st;
  st.push_back({ lb_, ub_ });
  int nodes = 0;
  bool found = false, unsure = false;
  double bestVal = thr;
  while (!st.empty()) {
    if (++nodes > maxNodes)
      return found ? 1 : -1;
    Node nd = st.back();
    st.pop_back();
    bool ok = true;
    for (int j = 0; j < m_.n; j++)
      if (nd.l[j] > nd.u[j])
        ok = false;
    if (!ok)
      continue;
    s.setColLower(nd.l.data());
    s.setColUpper(nd.u.data());
    s.setObjective(negc.data());
    s.setWarmStart(nullptr);
    s.initialSolve();
    lpSolves++;
    bool unb = s.isProvenDualInfeasible();
    if (unb) {
      // unbounded ray: put a big artificial box to get a finite witness
      unsure = true;
      for (int j = 0; j < m_.n; j++) {
        if (nd.l[j] < -1e5)
          nd.l[j] = std::min(-1e4, nd.u[j]);
        if (nd.u[j] > 1e5)
          nd.u[j] = std::max(1e4, nd.l[j]);
      }
      s.setColLower(nd.l.data());
      s.setColUpper(nd.u.data());
      s.setWarmStart(nullptr);
      s.initialSolve();
      lpSolves++;
    }
    if (s.isProvenPrimalInfeasible())
      continue;
    if (!s.isProvenOptimal()) {
      unsure = true;
      continue;
    }
    const double *sol = s.getColSolution();
    double z = 0;
    for (int j = 0; j < m_.n; j++)
      z += c[j] * sol[j];
    if (z <= bestVal + 1e-9)
      continue;
    int br = -1;
    double bf = 1e-6;
    for (int j = 0; j < m_.n; j++)
      if (m_.isInt[j]) {
        double f = fabs(sol[j] - floor(sol[j] + 0.5));
        if (f > bf) {
          bf = f;
          br = j;
        }
      }
    if (br < 0) {
      std::vector<double> fl = nd.l, fu = nd.u;
      for (int j = 0; j < m_.n; j++)
        if (m_.isInt[j]) {
          double v = floor(sol[j] + 0.5);
          fl[j] = fu[j] = v;
        }
      s.setColLower(fl.data());
      s.setColUpper(fu.data());
      s.setWarmStart(nullptr);
      s.initialSolve();
      lpSolves++;
      if (!s.isProvenOptimal())
        continue;
      std::vector<double> y(s.getColSolution(), s.getColSolution() + m_.n);
      for (int j = 0; j < m_.n; j++)
        if (m_.isInt[j])
          y[j] = fl[j];
      if (!verifyPoint(y, 1e-7))
        continue;
      double zz = 0;
      for (int j = 0; j < m_.n; j++)
        zz += c[j] * y[j];
      if (zz > bestVal) {
        bestVal = zz;
        x = y;
        val = zz;
        found = true;
        if (!best)
          return 1;
      }
      continue;
    }
    double v = floor(sol[br]);
    Node a = nd, b = nd;
    a.u[br] = v;
    b.l[br] = v + 1;
    st.push_back(a);
    st.push_back(b);
  }
  if (found)
    return 1;
  return unsure ? -1 : 0;
}

int Oracle::feasible(std::vector<double> *x)
{
  if (enumerated_) {
    if (!pts_.empty() && x)
      *x = pts_[0];
    return pts_.empty() ? 0 : 1;
  }
  if (feas_ == -2) {
    std::vector<double> c(m_.n, 0.0);
    double v;
    feas_ = bb(c, -1.0, feasX_, v, false);
  }
  if (x)
    *x = feasX_;
  return feas_;
}

int Oracle::minimize(const std::vector<double> &obj, double &z, std::vector<double> *x)
{
  if (enumerated_) {
    if (pts_.empty())
      return 0;
    z = INF;
    for (auto &p : pts_) {
      double s = 0;
      for (int j = 0; j < m_.n; j++)
        s += obj[j] * p[j];
      if (s < z) {
        z = s;
        if (x)
          *x = p;
      }
    }
    return 1;
  }
  std::vector<double> c(m_.n);
  for (int j = 0; j < m_.n; j++)
    c[j] = -obj[j];
  std::vector<double> y;
  double v = 0;
  int st = bb(c, -1e15, y, v, true);
  if (st == 1) {
    z = -v;
    if (x)
      *x = y;
  }
  return st;
}

int Oracle::violated(const Lin &c, Witness &w)
{
  if (c.lo > c.up + 1e-7 * std::max(1.0, fabs(c.up)) || c.lo >= 1e29 || c.up <= -1e29) {
    // infeasibility claim
    std::vector<double> x;
    int f = feasible(&x);
    if (f == 1) {
      w.x = x;
      w.viol = INF;
    }
    return f;
  }
  if (enumerated_) {
    double worst = 0;
    for (auto &p : pts_) {
      double s = c.activity(p);
      double v = std::max(s - c.up, c.lo - s);
      pointsChecked++;
      if (v > 1e-6) {
        double t = 1e-6 + 2e-6 * cutTol(c, p);
        if (v > t && v > worst) {
          worst = v;
          w.x = p;
          w.viol = v;
        }
      }
    }
    return worst > 0 ? 1 : 0;
  }
  double sa = 0;
  for (auto &e : c.a)
    sa += fabs(e.second);
  bool unsure = false;
  for (int side = 0; side < 2; side++) {
    double rhs = side ? -c.lo : c.up;
    if (rhs >= 1e29)
      continue;
    std::vector<double> cc(m_.n, 0.0);
    for (auto &e : c.a)
      cc[e.first] += side ? -e.second : e.second;
    std::vector<double> x;
    double v = 0;
    int st = m_.pureInt() ? search(cc, rhs + 1e-6 + 1e-5 * sa, x, v) : -1;
    if (st < 0)
      st = bb(cc, rhs + 1e-6 + 1e-5 * sa, x, v, true, m_.pureInt() && m_.n > 13 ? 200 : 4000);
    if (st == 1) {
      double t = 1e-6 + 1e-5 * cutTol(c, x);
      if (v - rhs > t) {
        w.x = x;
        w.viol = v - rhs;
        return 1;
      }
    } else if (st < 0)
      unsure = true;
  }
  return unsure ? -1 : 0;
}

} // namespace vm
