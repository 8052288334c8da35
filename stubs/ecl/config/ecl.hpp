// Stand-in for the ecl_config package (not part of this repository).
#pragma once
#define ECL_IS_POSIX
#ifndef ECL_CXX11_FOUND
  #define ECL_CXX11_FOUND
#endif
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#define ECL_HAS_POSIX_THREADS
#define ECL_HAS_POSIX_TIMERS
#define ECL_HAS_POSIX_SEMAPHORES
#define ECL_HAS_POSIX_SHARED_MEMORY
#define ECL_HAS_POSIX_PRIORITY_SCHEDULING
#define ECL_CHAR_IS_SIGNED
