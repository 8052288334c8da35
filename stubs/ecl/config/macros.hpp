// Stand-in for the ecl_config package (not part of this repository).
#pragma once
#define ECL_HELPER_IMPORT
#define ECL_HELPER_EXPORT
#define ECL_HELPER_LOCAL
#define ECL_HELPERS_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_DONT_INLINE
#define ECL_UNUSED __attribute__((unused))
