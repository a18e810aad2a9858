// Compatibility with the installed CoinUtils/Osi for the generators the build leaves out: they
// call functions newer than the installed packages. Force-included before their sources.
#ifndef VERIF_SHIM_HPP
#define VERIF_SHIM_HPP
#define insertIfNotDuplicateAndClean(rc, where, ...) insertIfNotDuplicate(rc, ##__VA_ARGS__)
template <class C>
int hashCut(const C &c, int size)
{
  unsigned h = 17;
  const int n = c.row().getNumElements();
  for (int i = 0; i < n; i++)
    h = h * 31 + static_cast<unsigned>(c.row().getIndices()[i]);
  return static_cast<int>(h % static_cast<unsigned>(size));
}
template <class A, class B>
bool same(const A &a, const B &b)
{
  const int n = a.row().getNumElements();
  if (a.lb() != b.lb() || a.ub() != b.ub() || n != b.row().getNumElements())
    return false;
  for (int i = 0; i < n; i++)
    if (a.row().getIndices()[i] != b.row().getIndices()[i] || a.row().getElements()[i] != b.row().getElements()[i])
      return false;
  return true;
}
#endif
