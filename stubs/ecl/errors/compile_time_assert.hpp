// Stand-in for the ecl_errors package (not part of this repository).
#pragma once
#define ecl_compile_time_assert(c) static_assert((c), "compile time assertion")
#define ecl_compile_time_concept_test(M) public: ~M()
#define ecl_compile_time_concept_check(...) static_assert(sizeof(__VA_ARGS__) > 0, "concept check")
