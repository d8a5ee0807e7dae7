// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_1_0 {
  std::shared_ptr<T<0>> m0;
};
struct tgt_1_0_0 {
  T<0>* r0;
};
void run_1_0(vf::ctx& c) {
  store s{c}; src_1_0 src{s.sptr<0>()};
  auto const before = snapshot(src.m0.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_1_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "1_0");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "1_0 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get()), "init_from/source-changed", "1_0");
  c.count("inits"); c.distinct(vf::hcomb(4, s.pattern));
}
struct src_1_1 {
  T<0> m0;
};
struct tgt_1_1_0 {
  T<0>& r0;
};
void run_1_1(vf::ctx& c) {
  store s{c}; src_1_1 src{s.direct<0>()};
  auto const before = snapshot(&src.m0);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_1_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "1_1");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "1_1 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0), "init_from/source-changed", "1_1");
  c.count("inits"); c.distinct(vf::hcomb(5, s.pattern));
}
struct src_2_0 {
  T<1> m0;
  std::shared_ptr<T<0>> m1;
};
struct tgt_2_0_0 {
  T<0>* r0;
};
void run_2_0(vf::ctx& c) {
  store s{c}; src_2_0 src{s.direct<1>(), s.sptr<0>()};
  auto const before = snapshot(&src.m0, src.m1.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_2_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "2_0");
  if (t) {
    CHECK(t->r0 == src.m1.get(), "init_from/address", "2_0 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get()), "init_from/source-changed", "2_0");
  c.count("inits"); c.distinct(vf::hcomb(8, s.pattern));
}
struct src_2_1 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
};
struct tgt_2_1_0 {
  T<0>& r0;
};
void run_2_1(vf::ctx& c) {
  store s{c}; src_2_1 src{s.sptr<0>(), s.sptr<0>()};
  auto const before = snapshot(src.m0.get(), src.m1.get());
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_2_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "2_1");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "2_1 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get()), "init_from/source-changed", "2_1");
  c.count("inits"); c.distinct(vf::hcomb(9, s.pattern));
}
struct src_3_0 {
  T<1>* m0;
  T<2> m1;
  std::shared_ptr<T<0>> m2;
};
struct tgt_3_0_0 {
  T<1>& r0;
  T<1>& r1;
  T<0>* r2;
};
void run_3_0(vf::ctx& c) {
  store s{c}; src_3_0 src{s.ptr<1>(), s.direct<2>(), s.sptr<0>()};
  auto const before = snapshot(src.m0, &src.m1, src.m2.get());
  {
  bool const none = src.m0 == nullptr;
  auto t = utl::init_from<tgt_3_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_0");
  if (t) {
    CHECK(&t->r0 == src.m0, "init_from/address", "3_0 member 0");
    CHECK(&t->r1 == src.m0, "init_from/address", "3_0 member 1");
    CHECK(t->r2 == src.m2.get(), "init_from/address", "3_0 member 2");
    c.count("init-members", 3);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, src.m2.get()), "init_from/source-changed", "3_0");
  c.count("inits"); c.distinct(vf::hcomb(12, s.pattern));
}
struct src_3_1 {
  uniq<T<0>> m0;
  std::shared_ptr<T<0>> m1;
  T<0>* m2;
};
struct tgt_3_1_0 {
  T<0>& r0;
  T<0>& r1;
  T<0>& r2;
};
void run_3_1(vf::ctx& c) {
  store s{c}; src_3_1 src{s.uptr<0>(), s.sptr<0>(), s.ptr<0>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2);
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_3_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_1");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "3_1 member 0");
    CHECK(&t->r1 == src.m0.get(), "init_from/address", "3_1 member 1");
    CHECK(&t->r2 == src.m0.get(), "init_from/address", "3_1 member 2");
    c.count("init-members", 3);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2), "init_from/source-changed", "3_1");
  c.count("inits"); c.distinct(vf::hcomb(13, s.pattern));
}
struct src_4_0 {
  std::shared_ptr<T<1>> m0;
  uniq<T<2>> m1;
  T<3> m2;
  uniq<T<0>> m3;
};
struct tgt_4_0_0 {
  T<0>& r0;
  T<2>& r1;
  T<0>& r2;
  T<2>* r3;
};
void run_4_0(vf::ctx& c) {
  store s{c}; src_4_0 src{s.sptr<1>(), s.uptr<2>(), s.direct<3>(), s.uptr<0>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), &src.m2, src.m3.get());
  {
  bool const none = src.m1.get() == nullptr || src.m3.get() == nullptr;
  auto t = utl::init_from<tgt_4_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_0");
  if (t) {
    CHECK(&t->r0 == src.m3.get(), "init_from/address", "4_0 member 0");
    CHECK(&t->r1 == src.m1.get(), "init_from/address", "4_0 member 1");
    CHECK(&t->r2 == src.m3.get(), "init_from/address", "4_0 member 2");
    CHECK(t->r3 == src.m1.get(), "init_from/address", "4_0 member 3");
    c.count("init-members", 4);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), &src.m2, src.m3.get()), "init_from/source-changed", "4_0");
  c.count("inits"); c.distinct(vf::hcomb(16, s.pattern));
}
struct src_4_1 {
  T<1>* m0;
  T<1> m1;
  T<0> m2;
  T<0> m3;
};
struct tgt_4_1_0 {
  T<1>* r0;
  T<0>& r1;
  T<0>& r2;
  T<0>& r3;
};
void run_4_1(vf::ctx& c) {
  store s{c}; src_4_1 src{s.ptr<1>(), s.direct<1>(), s.direct<0>(), s.direct<0>()};
  auto const before = snapshot(src.m0, &src.m1, &src.m2, &src.m3);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_4_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_1");
  if (t) {
    CHECK(t->r0 == src.m0, "init_from/address", "4_1 member 0");
    CHECK(&t->r1 == &src.m2, "init_from/address", "4_1 member 1");
    CHECK(&t->r2 == &src.m2, "init_from/address", "4_1 member 2");
    CHECK(&t->r3 == &src.m2, "init_from/address", "4_1 member 3");
    c.count("init-members", 4);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, &src.m2, &src.m3), "init_from/source-changed", "4_1");
  c.count("inits"); c.distinct(vf::hcomb(17, s.pattern));
}
struct src_5_0 {
  T<3>* m0;
  T<4> m1;
  T<2>* m2;
  T<1>* m3;
  uniq<T<0>> m4;
};
struct tgt_5_0_0 {
  T<0>& r0;
  T<0>* r1;
  T<4>& r2;
  T<0>& r3;
};
void run_5_0(vf::ctx& c) {
  store s{c}; src_5_0 src{s.ptr<3>(), s.direct<4>(), s.ptr<2>(), s.ptr<1>(), s.uptr<0>()};
  auto const before = snapshot(src.m0, &src.m1, src.m2, src.m3, src.m4.get());
  {
  bool const none = src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_5_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_0");
  if (t) {
    CHECK(&t->r0 == src.m4.get(), "init_from/address", "5_0 member 0");
    CHECK(t->r1 == src.m4.get(), "init_from/address", "5_0 member 1");
    CHECK(&t->r2 == &src.m1, "init_from/address", "5_0 member 2");
    CHECK(&t->r3 == src.m4.get(), "init_from/address", "5_0 member 3");
    c.count("init-members", 4);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, src.m2, src.m3, src.m4.get()), "init_from/source-changed", "5_0");
  c.count("inits"); c.distinct(vf::hcomb(20, s.pattern));
}
struct src_5_1 {
  T<2> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<2>> m3;
  std::shared_ptr<T<0>> m4;
};
struct tgt_5_1_0 {
  T<2>* r0;
  T<1>& r1;
  T<2>* r2;
};
void run_5_1(vf::ctx& c) {
  store s{c}; src_5_1 src{s.direct<2>(), s.sptr<1>(), s.sptr<1>(), s.sptr<2>(), s.sptr<0>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get());
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_5_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_1");
  if (t) {
    CHECK(t->r0 == src.m3.get(), "init_from/address", "5_1 member 0");
    CHECK(&t->r1 == src.m1.get(), "init_from/address", "5_1 member 1");
    CHECK(t->r2 == src.m3.get(), "init_from/address", "5_1 member 2");
    c.count("init-members", 3);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get()), "init_from/source-changed", "5_1");
  c.count("inits"); c.distinct(vf::hcomb(21, s.pattern));
}
struct src_6_0 {
  uniq<T<2>> m0;
  T<4> m1;
  T<5> m2;
  uniq<T<1>> m3;
  uniq<T<0>> m4;
  T<3>* m5;
};
struct tgt_6_0_0 {
  T<3>& r0;
  T<1>* r1;
  T<1>& r2;
  T<3>& r3;
};
void run_6_0(vf::ctx& c) {
  store s{c}; src_6_0 src{s.uptr<2>(), s.direct<4>(), s.direct<5>(), s.uptr<1>(), s.uptr<0>(), s.ptr<3>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, src.m3.get(), src.m4.get(), src.m5);
  {
  bool const none = src.m3.get() == nullptr || src.m5 == nullptr;
  auto t = utl::init_from<tgt_6_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_0");
  if (t) {
    CHECK(&t->r0 == src.m5, "init_from/address", "6_0 member 0");
    CHECK(t->r1 == src.m3.get(), "init_from/address", "6_0 member 1");
    CHECK(&t->r2 == src.m3.get(), "init_from/address", "6_0 member 2");
    CHECK(&t->r3 == src.m5, "init_from/address", "6_0 member 3");
    c.count("init-members", 4);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, src.m3.get(), src.m4.get(), src.m5), "init_from/source-changed", "6_0");
  c.count("inits"); c.distinct(vf::hcomb(24, s.pattern));
}
struct src_6_1 {
  T<1> m0;
  T<1> m1;
  T<0> m2;
  std::shared_ptr<T<2>> m3;
  T<0>* m4;
  T<2> m5;
};
struct tgt_6_1_0 {
  T<0>& r0;
  T<1>& r1;
  T<1>& r2;
  T<0>& r3;
  T<1>& r4;
  T<1>& r5;
};
void run_6_1(vf::ctx& c) {
  store s{c}; src_6_1 src{s.direct<1>(), s.direct<1>(), s.direct<0>(), s.sptr<2>(), s.ptr<0>(), s.direct<2>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, src.m3.get(), src.m4, &src.m5);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_6_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_1");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "6_1 member 0");
    CHECK(&t->r1 == &src.m0, "init_from/address", "6_1 member 1");
    CHECK(&t->r2 == &src.m0, "init_from/address", "6_1 member 2");
    CHECK(&t->r3 == &src.m2, "init_from/address", "6_1 member 3");
    CHECK(&t->r4 == &src.m0, "init_from/address", "6_1 member 4");
    CHECK(&t->r5 == &src.m0, "init_from/address", "6_1 member 5");
    c.count("init-members", 6);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, src.m3.get(), src.m4, &src.m5), "init_from/source-changed", "6_1");
  c.count("inits"); c.distinct(vf::hcomb(25, s.pattern));
}
struct src_7_0 {
  T<6>* m0;
  T<2>* m1;
  T<4> m2;
  T<0> m3;
  uniq<T<5>> m4;
  T<3>* m5;
  std::shared_ptr<T<1>> m6;
};
struct tgt_7_0_0 {
  T<5>& r0;
  T<5>& r1;
  T<2>& r2;
  T<0>& r3;
  T<5>& r4;
  T<6>* r5;
  T<0>& r6;
};
void run_7_0(vf::ctx& c) {
  store s{c}; src_7_0 src{s.ptr<6>(), s.ptr<2>(), s.direct<4>(), s.direct<0>(), s.uptr<5>(), s.ptr<3>(), s.sptr<1>()};
  auto const before = snapshot(src.m0, src.m1, &src.m2, &src.m3, src.m4.get(), src.m5, src.m6.get());
  {
  bool const none = src.m1 == nullptr || src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_7_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_0");
  if (t) {
    CHECK(&t->r0 == src.m4.get(), "init_from/address", "7_0 member 0");
    CHECK(&t->r1 == src.m4.get(), "init_from/address", "7_0 member 1");
    CHECK(&t->r2 == src.m1, "init_from/address", "7_0 member 2");
    CHECK(&t->r3 == &src.m3, "init_from/address", "7_0 member 3");
    CHECK(&t->r4 == src.m4.get(), "init_from/address", "7_0 member 4");
    CHECK(t->r5 == src.m0, "init_from/address", "7_0 member 5");
    CHECK(&t->r6 == &src.m3, "init_from/address", "7_0 member 6");
    c.count("init-members", 7);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, &src.m2, &src.m3, src.m4.get(), src.m5, src.m6.get()), "init_from/source-changed", "7_0");
  c.count("inits"); c.distinct(vf::hcomb(28, s.pattern));
}
struct src_7_1 {
  T<3>* m0;
  uniq<T<1>> m1;
  T<3> m2;
  std::shared_ptr<T<1>> m3;
  T<2> m4;
  T<3> m5;
  T<3> m6;
};
struct tgt_7_1_0 {
  T<1>& r0;
  T<3>& r1;
  T<3>& r2;
  T<2>& r3;
  T<1>* r4;
  T<1>* r5;
  T<1>& r6;
};
void run_7_1(vf::ctx& c) {
  store s{c}; src_7_1 src{s.ptr<3>(), s.uptr<1>(), s.direct<3>(), s.sptr<1>(), s.direct<2>(), s.direct<3>(), s.direct<3>()};
  auto const before = snapshot(src.m0, src.m1.get(), &src.m2, src.m3.get(), &src.m4, &src.m5, &src.m6);
  {
  bool const none = src.m0 == nullptr || src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_7_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_1");
  if (t) {
    CHECK(&t->r0 == src.m1.get(), "init_from/address", "7_1 member 0");
    CHECK(&t->r1 == src.m0, "init_from/address", "7_1 member 1");
    CHECK(&t->r2 == src.m0, "init_from/address", "7_1 member 2");
    CHECK(&t->r3 == &src.m4, "init_from/address", "7_1 member 3");
    CHECK(t->r4 == src.m1.get(), "init_from/address", "7_1 member 4");
    CHECK(t->r5 == src.m1.get(), "init_from/address", "7_1 member 5");
    CHECK(&t->r6 == src.m1.get(), "init_from/address", "7_1 member 6");
    c.count("init-members", 7);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1.get(), &src.m2, src.m3.get(), &src.m4, &src.m5, &src.m6), "init_from/source-changed", "7_1");
  c.count("inits"); c.distinct(vf::hcomb(29, s.pattern));
}
}  // namespace
SCENARIO(init_from_a, 840, 21000) {
  static void (*const fns[])(vf::ctx&) = {run_1_0, run_1_1, run_2_0, run_2_1, run_3_0, run_3_1, run_4_0, run_4_1, run_5_0, run_5_1, run_6_0, run_6_1, run_7_0, run_7_1};
  fns[c.idx % 14](c);
}
