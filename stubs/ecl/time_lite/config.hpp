// Stand-in for the ecl_time_lite package (not part of this repository).
#pragma once
#define ecl_time_lite_PUBLIC
#define ecl_time_lite_LOCAL
#define ECL_HAS_RT_TIMERS
