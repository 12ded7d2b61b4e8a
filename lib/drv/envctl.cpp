#include "envctl.h"
#include <random>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
namespace envctl {
bool virt = true;
int64_t mono_ns = 123456789012345LL;          // about 1.4 days of uptime
int64_t real_ns = 1700000000123456789LL;
int64_t cpu_ns = 5000000;
uint64_t ent_state = 1, ent_calls = 0;
uint32_t next_entropy()
{
  ++ent_calls;
  uint64_t z = (ent_state += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return (uint32_t)((z ^ (z >> 31)) >> 16);
}
static void put(int64_t ns, struct timespec *ts)
{
  ts->tv_sec = ns / 1000000000LL;
  ts->tv_nsec = ns % 1000000000LL;
}
}
using namespace envctl;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
  if (!virt) return (int)syscall(SYS_clock_gettime, id, ts);
  switch (id) {
    case CLOCK_MONOTONIC:
    case CLOCK_MONOTONIC_RAW:
    case CLOCK_BOOTTIME: put(mono_ns, ts); return 0;
    case CLOCK_MONOTONIC_COARSE: put(mono_ns / 4000000 * 4000000, ts); return 0;
    case CLOCK_REALTIME: put(real_ns, ts); return 0;
    case CLOCK_REALTIME_COARSE: put(real_ns / 4000000 * 4000000, ts); return 0;
    case CLOCK_PROCESS_CPUTIME_ID:
    case CLOCK_THREAD_CPUTIME_ID: put(cpu_ns, ts); return 0;
    default: return (int)syscall(SYS_clock_gettime, id, ts);
  }
}
extern "C" int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept
{
  int64_t r = real_ns;
  if (!virt) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec * 1000000000LL + ts.tv_nsec; }
  tv->tv_sec = r / 1000000000LL;
  tv->tv_usec = (r % 1000000000LL) / 1000;
  return 0;
}
extern "C" time_t time(time_t *t) noexcept
{
  int64_t r = real_ns;
  if (!virt) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec * 1000000000LL; }
  time_t v = r / 1000000000LL;
  if (t) *t = v;
  return v;
}
extern "C" clock_t clock(void) noexcept
{
  if (!virt) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000L + ts.tv_nsec / 1000; }
  return cpu_ns / 1000;
}
std::random_device::result_type std::random_device::_M_getval() { return next_entropy(); }
