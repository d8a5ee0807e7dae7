#define PART 1
#include "c22_csv_range.cc"
