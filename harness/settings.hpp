// Tables of settings: how to set, how to read, which values are admissible, how they are exported.
#ifndef VERIF_SETTINGS_HPP
#define VERIF_SETTINGS_HPP
#include "mon.hpp"
namespace vm {
namespace st {
typedef std::shared_ptr<void> Ptr;
struct Range {
  bool integer = false;
  double lo = 0, hi = 1;
  bool loOpen = false; // the upper end is always included
  bool anyLo = false, anyHi = false; // not limited on that side
};
struct Setting {
  std::string name; // also the name of the exported method
  std::function<void(void *, double)> set;
  std::function<double(const void *)> get;
  Range r;
  std::function<double(double)> view; // what the getter shows of the value
  bool exported = false;
  std::vector<std::string> words; // the exported argument for values 0, 1, ...
  std::string on, off; // exported as one of two methods without argument
  std::function<double(const std::string &)> parse; // the value of an exported argument
};
struct Class {
  std::string name;
  std::function<Ptr()> make;
  std::function<Ptr(const void *)> copy;
  std::function<void(void *, const void *)> assign;
  std::function<std::string(void *, std::string &)> exporter; // text; name of the variable
  std::function<void(void *, OsiClpSolverInterface &)> use;
  std::vector<Setting> s;
};
inline Range ints(double lo, double hi, bool anyLo = false, bool anyHi = false)
{
  Range r;
  r.integer = true;
  r.lo = lo;
  r.hi = hi;
  r.anyLo = anyLo;
  r.anyHi = anyHi;
  return r;
}
inline Range anyInt() { return ints(-1000, 1000000, true, true); }
inline Range boolean() { return ints(0, 1, true, true); } // every value is a bool
inline Range dbl(double lo, double hi, bool loOpen, bool anyLo = false, bool anyHi = false)
{
  Range r;
  r.lo = lo;
  r.hi = hi;
  r.loOpen = loOpen;
  r.anyLo = anyLo;
  r.anyHi = anyHi;
  return r;
}
inline double goodValue(Rng &r, const Range &g)
{
  if (g.integer) {
    int k = r.below(6);
    if (k == 0)
      return g.lo;
    if (k == 1)
      return g.hi;
    if (k == 2)
      return std::min(g.hi, g.lo + r.below(4));
    return r.in(static_cast<int>(g.lo), static_cast<int>(std::min(g.hi, g.lo + 300.0)));
  }
  int k = r.below(6);
  double top = std::min(g.hi, g.lo + 1e6);
  if (k == 0 && !g.loOpen)
    return g.lo;
  if (k == 1)
    return g.hi;
  if (k == 2) // close to the lower end
    return g.lo + (top - g.lo) * std::pow(10.0, -r.in(2, 9)) * r.in(1, 9);
  if (k == 3 && !g.anyLo)
    return g.lo + (top - g.lo) * r.in(1, 8) / 8.0;
  return g.lo + (top - g.lo) * (r.in(1, 999) / 1000.0);
}
inline bool badValue(Rng &r, const Range &g, double &v)
{
  std::vector<double> c;
  if (!g.anyLo) {
    if (g.integer) {
      c.insert(c.end(), { g.lo - 1, g.lo - 2, g.lo - 100, -2000000000.0 });
    } else {
      c.insert(c.end(), { g.lo - 1e-9, g.lo - 0.5, g.lo - 1e30 });
      if (g.loOpen) {
        c.push_back(g.lo);
        c.push_back(g.lo);
      }
    }
  }
  if (!g.anyHi) {
    if (g.integer)
      c.insert(c.end(), { g.hi + 1, g.hi + 2, g.hi + 1000 });
    else
      c.insert(c.end(), { g.hi * (1 + 1e-9) + 1e-15, g.hi + 0.25, g.hi + 1e30 });
  }
  if (c.empty())
    return false;
  v = r.pick(c);
  return true;
}

template <class T> struct Def {
  Class c;
  Def(const std::string &n)
  {
    c.name = n;
    c.make = [] { return Ptr(new T, [](void *p) { delete static_cast<T *>(p); }); };
    c.copy = [](const void *p) { return Ptr(new T(*static_cast<const T *>(p)), [](void *q) { delete static_cast<T *>(q); }); };
  }
  template <class S, class G> Setting &add(const std::string &n, const Range &r, S set, G get)
  {
    Setting s;
    s.name = n;
    s.r = r;
    s.set = [set](void *p, double v) { set(*static_cast<T *>(p), v); };
    s.get = [get](const void *p) { return static_cast<double>(get(*static_cast<const T *>(p))); };
    c.s.push_back(s);
    return c.s.back();
  }
  template <class S> Setting &addBlind(const std::string &n, const Range &r, S set)
  {
    Setting s;
    s.name = n;
    s.r = r;
    s.set = [set](void *p, double v) { set(*static_cast<T *>(p), v); };
    c.s.push_back(s);
    return c.s.back();
  }
  void assignable()
  {
    c.assign = [](void *a, const void *b) { *static_cast<T *>(a) = *static_cast<const T *>(b); };
  }
  void generator(bool exports, bool refresh = true)
  {
    add("setAggressiveness", anyInt(), [](T &t, double v) { t.setAggressiveness(static_cast<int>(v)); }, [](const T &t) { return t.getAggressiveness(); }).exported = exports;
    add("setGlobalCuts", boolean(), [](T &t, double v) { t.setGlobalCuts(v != 0); }, [](const T &t) { return t.canDoGlobalCuts(); });
    add("setMaxSeconds", dbl(0, 1e6, false, true, true), [](T &t, double v) { t.setMaxSeconds(v); }, [](const T &t) { return t.getMaxSeconds(); });
    if (exports)
      c.exporter = [](void *p, std::string &var) {
        char *buf = nullptr;
        size_t len = 0;
        FILE *f = open_memstream(&buf, &len);
        var = static_cast<T *>(p)->generateCpp(f);
        fclose(f);
        std::string s(buf, len);
        free(buf);
        return s;
      };
    c.use = [refresh](void *p, OsiClpSolverInterface &si) {
      T &t = *static_cast<T *>(p);
      if (refresh)
        t.refreshSolver(&si);
      OsiCuts cs;
      t.generateCuts(si, cs, CglTreeInfo());
    };
  }
};
#define NUM(T, M) [](T &t, double v) { t.M(v); }
#define INT(T, M) [](T &t, double v) { t.M(static_cast<int>(v)); }
#define BOOL(T, M) [](T &t, double v) { t.M(v != 0); }
#define GET(T, M) [](const T &t) { return t.M(); }
// classes built through the compatibility shim register here
std::vector<Class> &shimClasses();
struct RegClass {
  RegClass(const Class &c) { shimClasses().push_back(c); }
};
}
}
#endif
