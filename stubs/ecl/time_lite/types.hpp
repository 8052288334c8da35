#pragma once
#include <time.h>
#include "config.hpp"
#include "../errors/handlers.hpp"
namespace ecl {
typedef struct timespec TimeStructure;
class TimeError : public Error {
public:
  TimeError(const ErrorFlag &flag = UnknownError) : Error(flag) {}
  virtual ~TimeError() {}
};
}
