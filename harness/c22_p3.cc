#define PART 3
#include "c22_csv_range.cc"
