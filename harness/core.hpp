// Core of the runtime monitors: deterministic RNG, random MIP models, loading into
// OsiClp, and the feasible-set oracle that every soundness monitor consults.
#ifndef VERIF_CORE_HPP
#define VERIF_CORE_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "CoinPackedMatrix.hpp"
#include "CoinPackedVector.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiColCut.hpp"
#include "OsiCuts.hpp"
#include "OsiRowCut.hpp"
#include "CglCutGenerator.hpp"

namespace vm {

const double INF = COIN_DBL_MAX;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
  int in(int a, int b) { return a + below(b - a + 1); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double q) { return u() < q; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(static_cast<int>(v.size()))]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const std::string &s);

struct Model {
  std::string family;
  int n = 0;
  std::vector<double> obj, lb, ub;
  std::vector<char> isInt;
  std::vector<double> rlb, rub;
  std::vector<std::vector<std::pair<int, double>>> rows;
  int addCol(double l, double u, bool integer, double c = 0.0);
  void addRow(std::vector<std::pair<int, double>> r, double lo, double up);
  int m() const { return static_cast<int>(rows.size()); }
  bool pureInt() const;
  void load(OsiClpSolverInterface &si) const;
  std::string dump() const;
};

// families ------------------------------------------------------------------
// Every family takes the RNG and returns a model; names are used in evidence.
Model makeModel(const std::string &family, Rng &r);
std::vector<std::string> allFamilies();

// a cut as an interval constraint, independent of Osi classes
struct Lin {
  std::vector<std::pair<int, double>> a;
  double lo = -INF, up = INF;
  bool global = false;
  bool fromCol = false;
  double eff = 0.0;
  double activity(const std::vector<double> &x) const;
  double activity(const double *x) const;
  bool operator<(const Lin &o) const;
  bool operator==(const Lin &o) const;
  std::string str() const;
};
Lin linOf(const OsiRowCut &rc);
std::vector<Lin> linsOf(const OsiColCut &cc);
// all cuts appended after position (r0,c0)
std::vector<Lin> linsOf(const OsiCuts &cs, int r0 = 0, int c0 = 0);
std::vector<Lin> canon(std::vector<Lin> v); // sorted, with sorted terms
std::string str(const std::vector<Lin> &v);

struct Witness {
  std::vector<double> x;
  double viol = 0;
};

// The feasible set of (model rows, lb, ub, integrality).
class Oracle {
public:
  Oracle(const Model &m, const std::vector<double> &lb, const std::vector<double> &ub, long maxPoints = 40000);
  bool enumerated() const { return enumerated_; }
  const std::vector<std::vector<double>> &points() const { return pts_; }
  // 1 = some feasible point violates the constraint by more than the tolerance (w filled),
  // 0 = none does, -1 = inconclusive
  int violated(const Lin &c, Witness &w);
  // 1 feasible, 0 infeasible, -1 inconclusive
  int feasible(std::vector<double> *x = nullptr);
  // minimise obj: returns status as feasible(); value in z
  int minimize(const std::vector<double> &obj, double &z, std::vector<double> *x = nullptr);
  long lpSolves = 0;
  long pointsChecked = 0;

private:
  const Model m_;
  std::vector<double> lb_, ub_;
  bool enumerated_ = false;
  std::vector<std::vector<double>> pts_;
  std::unique_ptr<OsiClpSolverInterface> si_;
  int feas_ = -2;
  std::vector<double> feasX_;
  void enumerate(long maxPoints);
  // max c.x over the mixed-integer set; prune below threshold. returns 1 found > thr, 0 none, -1 limit
  int bb(const std::vector<double> &c, double thr, std::vector<double> &x, double &val, bool best, int maxNodes = 4000);
  // the same for pure integer boxes too large to enumerate: depth first over the columns of c
  int search(const std::vector<double> &c, double thr, std::vector<double> &x, double &val);
  bool verifyPoint(const std::vector<double> &x, double tol) const;
};
double cutTol(const Lin &c, const std::vector<double> &x);

} // namespace vm
#endif
