// Stand-in for the ecl_errors package (not part of this repository).
#pragma once
#include "../config/macros.hpp"
#include "macros.hpp"
namespace ecl {
enum ErrorFlag {
  NoError = 0, UnknownError, OutOfRangeError, ConversionError, ConstructorError, DestructorError,
  RaiiError, InvalidObjectError, InvalidArgError, InvalidInputError, OpenError, CloseError,
  ReadError, WriteError, NotFoundError, NotInitialisedError, BlockingError, BusyError,
  InterruptedError, IsLockedError, TimeOutError, MemoryError, OutOfResourcesError, PermissionsError,
  SystemFailureError, ConfigurationError, ConnectionError, ConnectionRefusedError, NotSupportedError,
  ArgNotSupportedError, UsageError, ClearCommError, PosixError, TimeErrorFlag
};
class Error {
public:
  Error(const ErrorFlag &f = NoError) : error_flag(f) {}
  virtual ~Error() {}
  virtual const char *what() const {
    return error_flag == NoError ? "No error." : "Error.";
  }
  const ErrorFlag &flag() const { return error_flag; }
  bool operator==(const Error &e) const { return error_flag == e.error_flag; }
protected:
  ErrorFlag error_flag;
};
}
