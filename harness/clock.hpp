// The clock the library sees. While on, time stands still until the library has asked for it
// `strikeAt` times, then an hour has passed.
#ifndef VERIF_CLOCK_HPP
#define VERIF_CLOCK_HPP
namespace vm {
struct FakeClock {
  bool on = false;
  long polls = 0;
  long strikeAt = 1L << 60;
};
extern FakeClock fakeClock;
struct ClockScope {
  explicit ClockScope(long strikeAt)
  {
    fakeClock.polls = 0;
    fakeClock.strikeAt = strikeAt;
    fakeClock.on = true;
  }
  ~ClockScope() { fakeClock.on = false; }
};
} // namespace vm
#endif
