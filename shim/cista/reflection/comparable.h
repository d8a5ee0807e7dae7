#pragma once
#include "cista/reflection/to_tuple.h"
#define CISTA_COMPARABLE() \
  template <typename T> bool operator==(T const& o) const { return ::cista::to_tuple(*this) == ::cista::to_tuple(o); }
