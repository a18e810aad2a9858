#include "clock.hpp"
#include <sys/resource.h>
#include <sys/time.h>
namespace vm {
FakeClock fakeClock;
static double now()
{
  return 1.6e9 + (++fakeClock.polls > fakeClock.strikeAt ? 3600.0 : 0.0);
}
} // namespace vm
extern "C" {
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  if (!vm::fakeClock.on)
    return __real_gettimeofday(tv, tz);
  double t = vm::now();
  tv->tv_sec = static_cast<time_t>(t);
  tv->tv_usec = 0;
  return 0;
}
int __real_getrusage(int who, struct rusage *u);
int __wrap_getrusage(int who, struct rusage *u)
{
  int rc = __real_getrusage(who, u);
  if (vm::fakeClock.on) {
    double t = vm::now() - 1.6e9;
    u->ru_utime.tv_sec = static_cast<time_t>(t);
    u->ru_utime.tv_usec = 0;
  }
  return rc;
}
}
