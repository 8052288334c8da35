// Stand-in for the ecl_errors package (not part of this repository).
#pragma once
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define LOC __FILE__ ":" SYMX_STR(__LINE__)
