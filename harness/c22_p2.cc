#define PART 2
#include "c22_csv_range.cc"
