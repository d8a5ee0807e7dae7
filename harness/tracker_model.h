// What a tracker shows, written from the definition: the proportional position
// of the input in the output bounds, rounded to the step, within the bounds.
#pragma once
#include <cmath>
#include <cstddef>
#include <algorithm>

struct tracker_cfg {
  float low = 0, high = 100, mod = 1;
  std::size_t in_high = 100;
};
// is `shown` a correctly rounded display for input `in`?
inline bool shows(tracker_cfg const& k, std::size_t in, float shown) {
  if (!(shown >= k.low && shown <= k.high)) return false;
  if (k.in_high == 0) return true;
  long double const pos = (static_cast<long double>(k.high) - k.low) * (static_cast<long double>(in) / static_cast<long double>(k.in_high)) / k.mod;
  long double const tol = 1e-4L + 4e-7L * std::abs(pos);
  long double const vtol = 1e-4L * std::max<long double>(k.mod, 0.01L) + 4e-7L * (std::abs(static_cast<long double>(k.low)) + std::abs(static_cast<long double>(k.high)) + std::min<long double>(std::abs(pos) * k.mod, 1e9L));
  for (int d = -1; d <= 2; ++d) {
    long double const s = std::floor(pos) + d;
    if (std::abs(pos - s) > 0.5L + tol) continue;
    long double const v = std::clamp(static_cast<long double>(k.low) + s * k.mod, static_cast<long double>(k.low), static_cast<long double>(k.high));
    if (std::abs(v - shown) <= vtol) return true;
  }
  return false;
}
