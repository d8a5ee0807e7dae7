#define VF_LIFECYCLE
#include "c04_pool.cc"
