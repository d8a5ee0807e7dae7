#pragma once
#include <ostream>
#include "cista/reflection/to_tuple.h"
#define CISTA_PRINTABLE(class_name, ...)                                  \
  friend std::ostream& operator<<(std::ostream& out, class_name const& o) { \
    bool first = true; out << "{";                                        \
    std::apply([&](auto const&... f) {                                    \
      ((out << (first ? "" : ", ") << f, first = false), ...);            \
    }, ::cista::to_tuple(o));                                             \
    return out << "}";                                                    \
  }
