#pragma once
#include <errno.h>
#include "types.hpp"
namespace ecl {
inline TimeError symx_time_result(int r, int e) {
  if (r == 0) return TimeError(NoError);
  switch (e) {
  case EINTR: return TimeError(InterruptedError);
  case EFAULT: return TimeError(MemoryError);
  case EINVAL: return TimeError(InvalidArgError);
  default: return TimeError(UnknownError);
  }
}
inline TimeError epoch_time(TimeStructure &t) { return symx_time_result(clock_gettime(CLOCK_MONOTONIC, &t), errno); }
inline TimeError realtime_epoch_time(TimeStructure &t) { return symx_time_result(clock_gettime(CLOCK_REALTIME, &t), errno); }
inline TimeError sleep(const TimeStructure &t) { int r = clock_nanosleep(CLOCK_MONOTONIC, 0, &t, 0); return symx_time_result(r, r); }
inline TimeError sleep_until(const TimeStructure &t) { int r = clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, 0); return symx_time_result(r, r); }
}
