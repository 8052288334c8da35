#pragma once
#include "functions.hpp"
namespace ecl {
inline TimeError cpu_time(TimeStructure &t) { return symx_time_result(clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t), errno); }
}
