#pragma once
#include "time_lite/functions.hpp"
#include "time_lite/cpu_time.hpp"
