#define VF_NO_MAIN
#include "c33_pipes.h"
using namespace c33;
SCENARIO(all_vector_int, 1500, 60000) {
  auto const s = source_values(c, some_size(c));
  auto v = s;
  any<int>(c, [&] { return utl::all(v); }, s, "vector");
  CHECK_EQ(s, v, "source-modified");
}
SCENARIO(all_const_list_box, 1200, 50000) {
  auto const s = source_values(c, some_size(c));
  auto const b = box::live.load();
  {
    std::list<box> const v = [&] { std::list<box> r; for (auto x : s) r.emplace_back(x); return r; }();
    any<box>(c, [&] { return utl::all(v); }, s, "const-list");
    CHECK_EQ(s, vals(v), "source-modified");
  }
  CHECK_EQ(b, box::live.load(), "leak");
}
