#ifndef VERIF_GSHIM_HPP
#define VERIF_GSHIM_HPP
#include "../reg.hpp"
namespace vm {
inline std::string gbase(const CglCutGenerator &g)
{
  return fmt("aggr=%d global=%d ", g.getAggressiveness(), g.canDoGlobalCuts() ? 1 : 0);
}
inline void gbaseRand(Rng &r, CglCutGenerator &g)
{
  if (r.p(0.3))
    g.setAggressiveness(r.pick(std::vector<int> { 0, 10, 100, 200 }));
  if (r.p(0.2))
    g.setGlobalCuts(r.p(0.5));
}
#define GCOMMON(T)                                                                            \
  g.shim = true;                                                                              \
  g.assign = [](CglCutGenerator &a, const CglCutGenerator &b) {                               \
    dynamic_cast<T &>(a) = dynamic_cast<const T &>(b);                                        \
  };
#define FAM_BASIS { "mixed", "mixed", "mixed01", "genint", "knap", "flow", "parity", "degenerate", "setcover" }
}
#endif
