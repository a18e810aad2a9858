#ifndef VERIF_FILL_HPP
#define VERIF_FILL_HPP
namespace vm {
// byte written into fresh heap blocks of the code under test (-1: leave them alone);
// effective in the plain flavour only
extern int heapFill;
struct HeapFill {
  int old;
  explicit HeapFill(int b) : old(heapFill) { heapFill = b; }
  ~HeapFill() { heapFill = old; }
};
}
#endif
