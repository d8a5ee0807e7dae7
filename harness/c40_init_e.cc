// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_2_2 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
};
struct tgt_2_2_0 {
  T<0>& r0;
};
void run_2_2(vf::ctx& c) {
  store s{c}; src_2_2 src{s.sptr<0>(), s.sptr<0>()};
  auto const before = snapshot(src.m0.get(), src.m1.get());
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_2_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "2_2");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "2_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get()), "init_from/source-changed", "2_2");
  c.count("inits"); c.distinct(vf::hcomb(10, s.pattern));
}
struct src_2_3 {
  uniq<T<0>> m0;
  std::shared_ptr<T<1>> m1;
};
struct tgt_2_3_0 {
  T<0>& r0;
};
struct tgt_2_3_1 {
  T<1>* r0;
};
void run_2_3(vf::ctx& c) {
  store s{c}; src_2_3 src{s.uptr<0>(), s.sptr<1>()};
  auto const before = snapshot(src.m0.get(), src.m1.get());
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_2_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "2_3");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "2_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_2_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "2_3");
  if (t) {
    CHECK(t->r0 == src.m1.get(), "init_from/address", "2_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get()), "init_from/source-changed", "2_3");
  c.count("inits"); c.distinct(vf::hcomb(11, s.pattern));
}
struct src_3_2 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
  uniq<T<1>> m2;
};
struct tgt_3_2_0 {
  T<0>* r0;
};
struct tgt_3_2_1 {
  T<1>* r0;
};
void run_3_2(vf::ctx& c) {
  store s{c}; src_3_2 src{s.sptr<0>(), s.sptr<0>(), s.uptr<1>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_3_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_2");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "3_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_3_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_2");
  if (t) {
    CHECK(t->r0 == src.m2.get(), "init_from/address", "3_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get()), "init_from/source-changed", "3_2");
  c.count("inits"); c.distinct(vf::hcomb(14, s.pattern));
}
struct src_3_3 {
  T<0> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
};
struct tgt_3_3_0 {
  T<0>& r0;
};
struct tgt_3_3_1 {
  T<1>* r0;
};
void run_3_3(vf::ctx& c) {
  store s{c}; src_3_3 src{s.direct<0>(), s.uptr<1>(), s.uptr<1>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_3_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "3_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_3_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "3_3");
  if (t) {
    CHECK(t->r0 == src.m1.get(), "init_from/address", "3_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get()), "init_from/source-changed", "3_3");
  c.count("inits"); c.distinct(vf::hcomb(15, s.pattern));
}
struct src_4_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
};
struct tgt_4_2_0 {
  T<1>& r0;
};
struct tgt_4_2_1 {
  T<0>& r0;
};
void run_4_2(vf::ctx& c) {
  store s{c}; src_4_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_4_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "4_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_4_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "4_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3), "init_from/source-changed", "4_2");
  c.count("inits"); c.distinct(vf::hcomb(18, s.pattern));
}
struct src_4_3 {
  T<0>* m0;
  T<1>* m1;
  T<1>* m2;
  T<2> m3;
};
struct tgt_4_3_0 {
  T<2>& r0;
};
struct tgt_4_3_1 {
  T<0>& r0;
};
struct tgt_4_3_2 {
  T<1>& r0;
};
void run_4_3(vf::ctx& c) {
  store s{c}; src_4_3 src{s.ptr<0>(), s.ptr<1>(), s.ptr<1>(), s.direct<2>()};
  auto const before = snapshot(src.m0, src.m1, src.m2, &src.m3);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_4_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "4_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0 == nullptr;
  auto t = utl::init_from<tgt_4_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_3");
  if (t) {
    CHECK(&t->r0 == src.m0, "init_from/address", "4_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m1 == nullptr;
  auto t = utl::init_from<tgt_4_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "4_3");
  if (t) {
    CHECK(&t->r0 == src.m1, "init_from/address", "4_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2, &src.m3), "init_from/source-changed", "4_3");
  c.count("inits"); c.distinct(vf::hcomb(19, s.pattern));
}
struct src_5_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  T<2>* m4;
};
struct tgt_5_2_0 {
  T<0>& r0;
};
struct tgt_5_2_1 {
  T<2>* r0;
};
struct tgt_5_2_2 {
  T<1>& r0;
};
void run_5_2(vf::ctx& c) {
  store s{c}; src_5_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "5_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_2");
  if (t) {
    CHECK(t->r0 == src.m4, "init_from/address", "5_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "5_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4), "init_from/source-changed", "5_2");
  c.count("inits"); c.distinct(vf::hcomb(22, s.pattern));
}
struct src_5_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
};
struct tgt_5_3_0 {
  T<2>& r0;
};
struct tgt_5_3_1 {
  T<1>& r0;
};
struct tgt_5_3_2 {
  T<0>& r0;
};
void run_5_3(vf::ctx& c) {
  store s{c}; src_5_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "5_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "5_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_5_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "5_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "5_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4), "init_from/source-changed", "5_3");
  c.count("inits"); c.distinct(vf::hcomb(23, s.pattern));
}
struct src_6_2 {
  T<0>* m0;
  T<0>* m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  T<2> m4;
  T<2> m5;
};
struct tgt_6_2_0 {
  T<1>* r0;
};
struct tgt_6_2_1 {
  T<2>& r0;
};
struct tgt_6_2_2 {
  T<0>& r0;
};
void run_6_2(vf::ctx& c) {
  store s{c}; src_6_2 src{s.ptr<0>(), s.ptr<0>(), s.sptr<1>(), s.sptr<1>(), s.direct<2>(), s.direct<2>()};
  auto const before = snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_6_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_2");
  if (t) {
    CHECK(t->r0 == src.m2.get(), "init_from/address", "6_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_6_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "6_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0 == nullptr;
  auto t = utl::init_from<tgt_6_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_2");
  if (t) {
    CHECK(&t->r0 == src.m0, "init_from/address", "6_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5), "init_from/source-changed", "6_2");
  c.count("inits"); c.distinct(vf::hcomb(26, s.pattern));
}
struct src_6_3 {
  T<0> m0;
  T<1>* m1;
  T<1>* m2;
  std::shared_ptr<T<2>> m3;
  std::shared_ptr<T<2>> m4;
  uniq<T<3>> m5;
};
struct tgt_6_3_0 {
  T<3>& r0;
};
struct tgt_6_3_1 {
  T<2>* r0;
};
struct tgt_6_3_2 {
  T<1>& r0;
};
struct tgt_6_3_3 {
  T<0>& r0;
};
void run_6_3(vf::ctx& c) {
  store s{c}; src_6_3 src{s.direct<0>(), s.ptr<1>(), s.ptr<1>(), s.sptr<2>(), s.sptr<2>(), s.uptr<3>()};
  auto const before = snapshot(&src.m0, src.m1, src.m2, src.m3.get(), src.m4.get(), src.m5.get());
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_6_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "6_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_6_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_3");
  if (t) {
    CHECK(t->r0 == src.m3.get(), "init_from/address", "6_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m1 == nullptr;
  auto t = utl::init_from<tgt_6_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_3");
  if (t) {
    CHECK(&t->r0 == src.m1, "init_from/address", "6_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_6_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "6_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "6_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1, src.m2, src.m3.get(), src.m4.get(), src.m5.get()), "init_from/source-changed", "6_3");
  c.count("inits"); c.distinct(vf::hcomb(27, s.pattern));
}
struct src_7_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3> m6;
};
struct tgt_7_2_0 {
  T<3>& r0;
};
struct tgt_7_2_1 {
  T<2>* r0;
};
struct tgt_7_2_2 {
  T<1>& r0;
};
struct tgt_7_2_3 {
  T<0>& r0;
};
void run_7_2(vf::ctx& c) {
  store s{c}; src_7_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.direct<3>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_7_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_2");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "7_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_7_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_2");
  if (t) {
    CHECK(t->r0 == src.m4.get(), "init_from/address", "7_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_7_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "7_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_7_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "7_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6), "init_from/source-changed", "7_2");
  c.count("inits"); c.distinct(vf::hcomb(30, s.pattern));
}
struct src_7_3 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  T<2>* m3;
  T<2>* m4;
  uniq<T<3>> m5;
  uniq<T<3>> m6;
};
struct tgt_7_3_0 {
  T<2>& r0;
};
struct tgt_7_3_1 {
  T<0>& r0;
};
struct tgt_7_3_2 {
  T<3>& r0;
};
struct tgt_7_3_3 {
  T<1>& r0;
};
void run_7_3(vf::ctx& c) {
  store s{c}; src_7_3 src{s.sptr<0>(), s.sptr<1>(), s.sptr<1>(), s.ptr<2>(), s.ptr<2>(), s.uptr<3>(), s.uptr<3>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3, src.m4, src.m5.get(), src.m6.get());
  {
  bool const none = src.m3 == nullptr;
  auto t = utl::init_from<tgt_7_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_3");
  if (t) {
    CHECK(&t->r0 == src.m3, "init_from/address", "7_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_7_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_3");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "7_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_7_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "7_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_7_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "7_3");
  if (t) {
    CHECK(&t->r0 == src.m1.get(), "init_from/address", "7_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3, src.m4, src.m5.get(), src.m6.get()), "init_from/source-changed", "7_3");
  c.count("inits"); c.distinct(vf::hcomb(31, s.pattern));
}
struct src_8_2 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3> m6;
  T<3> m7;
};
struct tgt_8_2_0 {
  T<2>& r0;
};
struct tgt_8_2_1 {
  T<0>* r0;
};
struct tgt_8_2_2 {
  T<3>& r0;
};
struct tgt_8_2_3 {
  T<1>& r0;
};
void run_8_2(vf::ctx& c) {
  store s{c}; src_8_2 src{s.sptr<0>(), s.sptr<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.direct<3>(), s.direct<3>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7);
  {
  bool const none = src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_8_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_2");
  if (t) {
    CHECK(&t->r0 == src.m4.get(), "init_from/address", "8_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_2");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "8_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_2");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "8_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "8_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7), "init_from/source-changed", "8_2");
  c.count("inits"); c.distinct(vf::hcomb(34, s.pattern));
}
struct src_8_3 {
  uniq<T<0>> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  T<3>* m5;
  T<3>* m6;
  T<4> m7;
};
struct tgt_8_3_0 {
  T<0>& r0;
};
struct tgt_8_3_1 {
  T<2>& r0;
};
struct tgt_8_3_2 {
  T<3>* r0;
};
struct tgt_8_3_3 {
  T<4>& r0;
};
struct tgt_8_3_4 {
  T<1>& r0;
};
void run_8_3(vf::ctx& c) {
  store s{c}; src_8_3 src{s.uptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.direct<4>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, &src.m7);
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_8_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_3");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "8_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "8_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_3");
  if (t) {
    CHECK(t->r0 == src.m5, "init_from/address", "8_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "8_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_8_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "8_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, &src.m7), "init_from/source-changed", "8_3");
  c.count("inits"); c.distinct(vf::hcomb(35, s.pattern));
}
struct src_9_2 {
  T<0> m0;
  T<0> m1;
  uniq<T<1>> m2;
  uniq<T<1>> m3;
  T<2> m4;
  T<2> m5;
  T<3>* m6;
  T<3>* m7;
  T<4> m8;
};
struct tgt_9_2_0 {
  T<2>& r0;
};
struct tgt_9_2_1 {
  T<1>& r0;
};
struct tgt_9_2_2 {
  T<4>& r0;
};
struct tgt_9_2_3 {
  T<0>& r0;
};
struct tgt_9_2_4 {
  T<3>* r0;
};
void run_9_2(vf::ctx& c) {
  store s{c}; src_9_2 src{s.direct<0>(), s.direct<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.direct<4>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6, src.m7, &src.m8);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "9_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m2.get() == nullptr;
  auto t = utl::init_from<tgt_9_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_2");
  if (t) {
    CHECK(&t->r0 == src.m2.get(), "init_from/address", "9_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "9_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "9_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_2");
  if (t) {
    CHECK(t->r0 == src.m6, "init_from/address", "9_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6, src.m7, &src.m8), "init_from/source-changed", "9_2");
  c.count("inits"); c.distinct(vf::hcomb(38, s.pattern));
}
struct src_9_3 {
  T<0>* m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  T<4>* m7;
  T<4>* m8;
};
struct tgt_9_3_0 {
  T<3>& r0;
};
struct tgt_9_3_1 {
  T<2>& r0;
};
struct tgt_9_3_2 {
  T<1>& r0;
};
struct tgt_9_3_3 {
  T<4>* r0;
};
struct tgt_9_3_4 {
  T<0>& r0;
};
void run_9_3(vf::ctx& c) {
  store s{c}; src_9_3 src{s.ptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.ptr<4>(), s.ptr<4>()};
  auto const before = snapshot(src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), src.m7, src.m8);
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_9_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "9_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "9_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "9_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_9_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_3");
  if (t) {
    CHECK(t->r0 == src.m7, "init_from/address", "9_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0 == nullptr;
  auto t = utl::init_from<tgt_9_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_3");
  if (t) {
    CHECK(&t->r0 == src.m0, "init_from/address", "9_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5.get(), src.m6.get(), src.m7, src.m8), "init_from/source-changed", "9_3");
  c.count("inits"); c.distinct(vf::hcomb(39, s.pattern));
}
struct src_10_2 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
  T<1> m2;
  T<1> m3;
  T<2> m4;
  T<2> m5;
  T<3>* m6;
  T<3>* m7;
  T<4> m8;
  T<4> m9;
};
struct tgt_10_2_0 {
  T<0>* r0;
};
struct tgt_10_2_1 {
  T<2>& r0;
};
struct tgt_10_2_2 {
  T<1>& r0;
};
struct tgt_10_2_3 {
  T<3>& r0;
};
struct tgt_10_2_4 {
  T<4>& r0;
};
void run_10_2(vf::ctx& c) {
  store s{c}; src_10_2 src{s.sptr<0>(), s.sptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.direct<4>(), s.direct<4>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, &src.m4, &src.m5, src.m6, src.m7, &src.m8, &src.m9);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_2");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "10_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "10_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "10_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m6 == nullptr;
  auto t = utl::init_from<tgt_10_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_2");
  if (t) {
    CHECK(&t->r0 == src.m6, "init_from/address", "10_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "10_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), &src.m2, &src.m3, &src.m4, &src.m5, src.m6, src.m7, &src.m8, &src.m9), "init_from/source-changed", "10_2");
  c.count("inits"); c.distinct(vf::hcomb(42, s.pattern));
}
struct src_10_3 {
  uniq<T<0>> m0;
  T<1> m1;
  T<1> m2;
  T<2>* m3;
  T<2>* m4;
  uniq<T<3>> m5;
  uniq<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
};
struct tgt_10_3_0 {
  T<5>& r0;
};
struct tgt_10_3_1 {
  T<4>& r0;
};
struct tgt_10_3_2 {
  T<3>& r0;
};
struct tgt_10_3_3 {
  T<0>* r0;
};
struct tgt_10_3_4 {
  T<2>& r0;
};
struct tgt_10_3_5 {
  T<1>& r0;
};
void run_10_3(vf::ctx& c) {
  store s{c}; src_10_3 src{s.uptr<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_10_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m3 == nullptr;
  auto t = utl::init_from<tgt_10_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(&t->r0 == src.m3, "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_10_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "10_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9), "init_from/source-changed", "10_3");
  c.count("inits"); c.distinct(vf::hcomb(43, s.pattern));
}
struct src_11_2 {
  T<0> m0;
  T<0> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  T<2> m4;
  T<2> m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  std::shared_ptr<T<4>> m8;
  std::shared_ptr<T<4>> m9;
  std::shared_ptr<T<5>> m10;
};
struct tgt_11_2_0 {
  T<2>& r0;
};
struct tgt_11_2_1 {
  T<4>* r0;
};
struct tgt_11_2_2 {
  T<0>& r0;
};
struct tgt_11_2_3 {
  T<1>& r0;
};
struct tgt_11_2_4 {
  T<5>& r0;
};
struct tgt_11_2_5 {
  T<3>& r0;
};
void run_11_2(vf::ctx& c) {
  store s{c}; src_11_2 src{s.direct<0>(), s.direct<0>(), s.sptr<1>(), s.sptr<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.sptr<4>(), s.sptr<4>(), s.sptr<5>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(t->r0 == src.m8.get(), "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m2.get() == nullptr;
  auto t = utl::init_from<tgt_11_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(&t->r0 == src.m2.get(), "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m10.get() == nullptr;
  auto t = utl::init_from<tgt_11_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(&t->r0 == src.m10.get(), "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_11_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_2");
  if (t) {
    CHECK(&t->r0 == src.m6.get(), "init_from/address", "11_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get()), "init_from/source-changed", "11_2");
  c.count("inits"); c.distinct(vf::hcomb(46, s.pattern));
}
struct src_11_3 {
  T<0> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  T<2>* m3;
  T<2>* m4;
  uniq<T<3>> m5;
  uniq<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
  T<5> m10;
};
struct tgt_11_3_0 {
  T<1>& r0;
};
struct tgt_11_3_1 {
  T<0>& r0;
};
struct tgt_11_3_2 {
  T<2>& r0;
};
struct tgt_11_3_3 {
  T<5>& r0;
};
struct tgt_11_3_4 {
  T<3>& r0;
};
struct tgt_11_3_5 {
  T<4>& r0;
};
void run_11_3(vf::ctx& c) {
  store s{c}; src_11_3 src{s.direct<0>(), s.sptr<1>(), s.sptr<1>(), s.ptr<2>(), s.ptr<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10);
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_11_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == src.m1.get(), "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m3 == nullptr;
  auto t = utl::init_from<tgt_11_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == src.m3, "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_11_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_11_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "11_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10), "init_from/source-changed", "11_3");
  c.count("inits"); c.distinct(vf::hcomb(47, s.pattern));
}
struct src_12_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  T<2>* m4;
  T<2>* m5;
  T<3> m6;
  T<3> m7;
  T<4> m8;
  T<4> m9;
  T<5> m10;
  T<5> m11;
};
struct tgt_12_2_0 {
  T<2>& r0;
};
struct tgt_12_2_1 {
  T<5>& r0;
};
struct tgt_12_2_2 {
  T<3>& r0;
};
struct tgt_12_2_3 {
  T<4>& r0;
};
struct tgt_12_2_4 {
  T<1>& r0;
};
struct tgt_12_2_5 {
  T<0>& r0;
};
void run_12_2(vf::ctx& c) {
  store s{c}; src_12_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4, src.m5, &src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11);
  {
  bool const none = src.m4 == nullptr;
  auto t = utl::init_from<tgt_12_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == src.m4, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "12_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4, src.m5, &src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11), "init_from/source-changed", "12_2");
  c.count("inits"); c.distinct(vf::hcomb(50, s.pattern));
}
struct src_12_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2>* m3;
  T<2>* m4;
  uniq<T<3>> m5;
  uniq<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
  T<5> m10;
  std::shared_ptr<T<6>> m11;
};
struct tgt_12_3_0 {
  T<3>* r0;
};
struct tgt_12_3_1 {
  T<2>& r0;
};
struct tgt_12_3_2 {
  T<4>& r0;
};
struct tgt_12_3_3 {
  T<0>& r0;
};
struct tgt_12_3_4 {
  T<5>& r0;
};
struct tgt_12_3_5 {
  T<6>* r0;
};
struct tgt_12_3_6 {
  T<1>& r0;
};
void run_12_3(vf::ctx& c) {
  store s{c}; src_12_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, src.m11.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(t->r0 == src.m5.get(), "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m3 == nullptr;
  auto t = utl::init_from<tgt_12_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(&t->r0 == src.m3, "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(t->r0 == src.m11.get(), "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_12_3_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "12_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, src.m11.get()), "init_from/source-changed", "12_3");
  c.count("inits"); c.distinct(vf::hcomb(51, s.pattern));
}
struct src_13_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  uniq<T<2>> m4;
  uniq<T<2>> m5;
  T<3> m6;
  T<3> m7;
  T<4> m8;
  T<4> m9;
  T<5>* m10;
  T<5>* m11;
  T<6> m12;
};
struct tgt_13_2_0 {
  T<5>* r0;
};
struct tgt_13_2_1 {
  T<6>& r0;
};
struct tgt_13_2_2 {
  T<1>& r0;
};
struct tgt_13_2_3 {
  T<3>& r0;
};
struct tgt_13_2_4 {
  T<0>& r0;
};
struct tgt_13_2_5 {
  T<2>& r0;
};
struct tgt_13_2_6 {
  T<4>& r0;
};
void run_13_2(vf::ctx& c) {
  store s{c}; src_13_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.uptr<2>(), s.uptr<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.ptr<5>(), s.ptr<5>(), s.direct<6>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, &src.m8, &src.m9, src.m10, src.m11, &src.m12);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(t->r0 == src.m10, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == &src.m12, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == &src.m2, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_13_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == src.m4.get(), "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_2_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "13_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, &src.m8, &src.m9, src.m10, src.m11, &src.m12), "init_from/source-changed", "13_2");
  c.count("inits"); c.distinct(vf::hcomb(54, s.pattern));
}
struct src_13_3 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<2>> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
  T<5> m10;
  T<6> m11;
  T<6> m12;
};
struct tgt_13_3_0 {
  T<1>& r0;
};
struct tgt_13_3_1 {
  T<6>& r0;
};
struct tgt_13_3_2 {
  T<2>& r0;
};
struct tgt_13_3_3 {
  T<4>& r0;
};
struct tgt_13_3_4 {
  T<3>* r0;
};
struct tgt_13_3_5 {
  T<5>& r0;
};
struct tgt_13_3_6 {
  T<0>& r0;
};
void run_13_3(vf::ctx& c) {
  store s{c}; src_13_3 src{s.sptr<0>(), s.sptr<1>(), s.sptr<1>(), s.sptr<2>(), s.sptr<2>(), s.sptr<3>(), s.sptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, &src.m12);
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_13_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == src.m1.get(), "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == &src.m11, "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m3.get() == nullptr;
  auto t = utl::init_from<tgt_13_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == src.m3.get(), "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(t->r0 == src.m5.get(), "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_13_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0.get() == nullptr;
  auto t = utl::init_from<tgt_13_3_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_3");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "13_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, &src.m12), "init_from/source-changed", "13_3");
  c.count("inits"); c.distinct(vf::hcomb(55, s.pattern));
}
struct src_14_2 {
  T<0> m0;
  T<0> m1;
  T<1>* m2;
  T<1>* m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  uniq<T<3>> m6;
  uniq<T<3>> m7;
  T<4>* m8;
  T<4>* m9;
  uniq<T<5>> m10;
  uniq<T<5>> m11;
  T<6>* m12;
  T<6>* m13;
};
struct tgt_14_2_0 {
  T<3>* r0;
};
struct tgt_14_2_1 {
  T<6>* r0;
};
struct tgt_14_2_2 {
  T<4>& r0;
};
struct tgt_14_2_3 {
  T<2>* r0;
};
struct tgt_14_2_4 {
  T<1>* r0;
};
struct tgt_14_2_5 {
  T<5>* r0;
};
struct tgt_14_2_6 {
  T<0>& r0;
};
void run_14_2(vf::ctx& c) {
  store s{c}; src_14_2 src{s.direct<0>(), s.direct<0>(), s.ptr<1>(), s.ptr<1>(), s.sptr<2>(), s.sptr<2>(), s.uptr<3>(), s.uptr<3>(), s.ptr<4>(), s.ptr<4>(), s.uptr<5>(), s.uptr<5>(), s.ptr<6>(), s.ptr<6>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), src.m8, src.m9, src.m10.get(), src.m11.get(), src.m12, src.m13);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(t->r0 == src.m6.get(), "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(t->r0 == src.m12, "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m8 == nullptr;
  auto t = utl::init_from<tgt_14_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(&t->r0 == src.m8, "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(t->r0 == src.m4.get(), "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(t->r0 == src.m2, "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(t->r0 == src.m10.get(), "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_2_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "14_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), src.m8, src.m9, src.m10.get(), src.m11.get(), src.m12, src.m13), "init_from/source-changed", "14_2");
  c.count("inits"); c.distinct(vf::hcomb(58, s.pattern));
}
struct src_14_3 {
  std::shared_ptr<T<0>> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
  T<2> m3;
  T<2> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  uniq<T<4>> m7;
  uniq<T<4>> m8;
  T<5>* m9;
  T<5>* m10;
  T<6>* m11;
  T<6>* m12;
  T<7> m13;
};
struct tgt_14_3_0 {
  T<7>& r0;
};
struct tgt_14_3_1 {
  T<6>& r0;
};
struct tgt_14_3_2 {
  T<1>& r0;
};
struct tgt_14_3_3 {
  T<4>* r0;
};
struct tgt_14_3_4 {
  T<2>& r0;
};
struct tgt_14_3_5 {
  T<3>& r0;
};
struct tgt_14_3_6 {
  T<0>* r0;
};
struct tgt_14_3_7 {
  T<5>& r0;
};
void run_14_3(vf::ctx& c) {
  store s{c}; src_14_3 src{s.sptr<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.ptr<5>(), s.ptr<5>(), s.ptr<6>(), s.ptr<6>(), s.direct<7>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9, src.m10, src.m11, src.m12, &src.m13);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == &src.m13, "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m11 == nullptr;
  auto t = utl::init_from<tgt_14_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == src.m11, "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_14_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == src.m1.get(), "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(t->r0 == src.m7.get(), "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_14_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_14_3_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(t->r0 == src.m0.get(), "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m9 == nullptr;
  auto t = utl::init_from<tgt_14_3_7>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_3");
  if (t) {
    CHECK(&t->r0 == src.m9, "init_from/address", "14_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9, src.m10, src.m11, src.m12, &src.m13), "init_from/source-changed", "14_3");
  c.count("inits"); c.distinct(vf::hcomb(59, s.pattern));
}
struct src_15_2 {
  T<0>* m0;
  T<0>* m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  T<2> m4;
  T<2> m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  T<4>* m8;
  T<4>* m9;
  T<5> m10;
  T<5> m11;
  T<6>* m12;
  T<6>* m13;
  uniq<T<7>> m14;
};
struct tgt_15_2_0 {
  T<3>& r0;
};
struct tgt_15_2_1 {
  T<6>* r0;
};
struct tgt_15_2_2 {
  T<2>& r0;
};
struct tgt_15_2_3 {
  T<0>& r0;
};
struct tgt_15_2_4 {
  T<4>* r0;
};
struct tgt_15_2_5 {
  T<5>& r0;
};
struct tgt_15_2_6 {
  T<1>& r0;
};
struct tgt_15_2_7 {
  T<7>& r0;
};
void run_15_2(vf::ctx& c) {
  store s{c}; src_15_2 src{s.ptr<0>(), s.ptr<0>(), s.sptr<1>(), s.sptr<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.ptr<4>(), s.ptr<4>(), s.direct<5>(), s.direct<5>(), s.ptr<6>(), s.ptr<6>(), s.uptr<7>()};
  auto const before = snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8, src.m9, &src.m10, &src.m11, src.m12, src.m13, src.m14.get());
  {
  bool const none = src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_15_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == src.m6.get(), "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(t->r0 == src.m12, "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m0 == nullptr;
  auto t = utl::init_from<tgt_15_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == src.m0, "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(t->r0 == src.m8, "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m2.get() == nullptr;
  auto t = utl::init_from<tgt_15_2_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == src.m2.get(), "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m14.get() == nullptr;
  auto t = utl::init_from<tgt_15_2_7>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_2");
  if (t) {
    CHECK(&t->r0 == src.m14.get(), "init_from/address", "15_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8, src.m9, &src.m10, &src.m11, src.m12, src.m13, src.m14.get()), "init_from/source-changed", "15_2");
  c.count("inits"); c.distinct(vf::hcomb(62, s.pattern));
}
struct src_15_3 {
  T<0>* m0;
  T<1> m1;
  T<1> m2;
  std::shared_ptr<T<2>> m3;
  std::shared_ptr<T<2>> m4;
  T<3> m5;
  T<3> m6;
  T<4>* m7;
  T<4>* m8;
  T<5> m9;
  T<5> m10;
  uniq<T<6>> m11;
  uniq<T<6>> m12;
  T<7> m13;
  T<7> m14;
};
struct tgt_15_3_0 {
  T<6>& r0;
};
struct tgt_15_3_1 {
  T<3>& r0;
};
struct tgt_15_3_2 {
  T<2>* r0;
};
struct tgt_15_3_3 {
  T<1>& r0;
};
struct tgt_15_3_4 {
  T<7>& r0;
};
struct tgt_15_3_5 {
  T<4>& r0;
};
struct tgt_15_3_6 {
  T<5>& r0;
};
struct tgt_15_3_7 {
  T<0>* r0;
};
void run_15_3(vf::ctx& c) {
  store s{c}; src_15_3 src{s.ptr<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.direct<3>(), s.direct<3>(), s.ptr<4>(), s.ptr<4>(), s.direct<5>(), s.direct<5>(), s.uptr<6>(), s.uptr<6>(), s.direct<7>(), s.direct<7>()};
  auto const before = snapshot(src.m0, &src.m1, &src.m2, src.m3.get(), src.m4.get(), &src.m5, &src.m6, src.m7, src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), &src.m13, &src.m14);
  {
  bool const none = src.m11.get() == nullptr;
  auto t = utl::init_from<tgt_15_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == src.m11.get(), "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == &src.m5, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(t->r0 == src.m3.get(), "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == &src.m13, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m7 == nullptr;
  auto t = utl::init_from<tgt_15_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == src.m7, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_15_3_7>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_3");
  if (t) {
    CHECK(t->r0 == src.m0, "init_from/address", "15_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, &src.m2, src.m3.get(), src.m4.get(), &src.m5, &src.m6, src.m7, src.m8, &src.m9, &src.m10, src.m11.get(), src.m12.get(), &src.m13, &src.m14), "init_from/source-changed", "15_3");
  c.count("inits"); c.distinct(vf::hcomb(63, s.pattern));
}
struct src_16_2 {
  T<0> m0;
  T<0> m1;
  T<1>* m2;
  T<1>* m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  T<4> m8;
  T<4> m9;
  T<5> m10;
  T<5> m11;
  uniq<T<6>> m12;
  uniq<T<6>> m13;
  uniq<T<7>> m14;
  uniq<T<7>> m15;
};
struct tgt_16_2_0 {
  T<4>& r0;
};
struct tgt_16_2_1 {
  T<0>& r0;
};
struct tgt_16_2_2 {
  T<1>* r0;
};
struct tgt_16_2_3 {
  T<3>& r0;
};
struct tgt_16_2_4 {
  T<7>& r0;
};
struct tgt_16_2_5 {
  T<2>& r0;
};
struct tgt_16_2_6 {
  T<6>& r0;
};
struct tgt_16_2_7 {
  T<5>& r0;
};
void run_16_2(vf::ctx& c) {
  store s{c}; src_16_2 src{s.direct<0>(), s.direct<0>(), s.ptr<1>(), s.ptr<1>(), s.sptr<2>(), s.sptr<2>(), s.sptr<3>(), s.sptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.uptr<6>(), s.uptr<6>(), s.uptr<7>(), s.uptr<7>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get());
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_2_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_2_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(t->r0 == src.m2, "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_16_2_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == src.m6.get(), "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m14.get() == nullptr;
  auto t = utl::init_from<tgt_16_2_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == src.m14.get(), "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_16_2_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == src.m4.get(), "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m12.get() == nullptr;
  auto t = utl::init_from<tgt_16_2_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == src.m12.get(), "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_2_7>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_2");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "16_2 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), &src.m8, &src.m9, &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get()), "init_from/source-changed", "16_2");
  c.count("inits"); c.distinct(vf::hcomb(66, s.pattern));
}
struct src_16_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  T<3>* m5;
  T<3>* m6;
  T<4> m7;
  T<4> m8;
  T<5> m9;
  T<5> m10;
  T<6> m11;
  T<6> m12;
  uniq<T<7>> m13;
  uniq<T<7>> m14;
  T<8>* m15;
};
struct tgt_16_3_0 {
  T<2>& r0;
};
struct tgt_16_3_1 {
  T<8>& r0;
};
struct tgt_16_3_2 {
  T<3>* r0;
};
struct tgt_16_3_3 {
  T<4>& r0;
};
struct tgt_16_3_4 {
  T<7>& r0;
};
struct tgt_16_3_5 {
  T<1>& r0;
};
struct tgt_16_3_6 {
  T<5>& r0;
};
struct tgt_16_3_7 {
  T<6>& r0;
};
struct tgt_16_3_8 {
  T<0>& r0;
};
void run_16_3(vf::ctx& c) {
  store s{c}; src_16_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.direct<4>(), s.direct<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>(), s.uptr<7>(), s.uptr<7>(), s.ptr<8>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15);
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m3, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m15 == nullptr;
  auto t = utl::init_from<tgt_16_3_1>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == src.m15, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_2>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(t->r0 == src.m5, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_3>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = src.m13.get() == nullptr;
  auto t = utl::init_from<tgt_16_3_4>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == src.m13.get(), "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_5>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m1, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_6>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m9, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_7>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m11, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  {
  bool const none = false;
  auto t = utl::init_from<tgt_16_3_8>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "16_3");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "16_3 member 0");
    c.count("init-members", 1);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, &src.m7, &src.m8, &src.m9, &src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15), "init_from/source-changed", "16_3");
  c.count("inits"); c.distinct(vf::hcomb(67, s.pattern));
}
}  // namespace
SCENARIO(init_from_e, 1800, 45000) {
  static void (*const fns[])(vf::ctx&) = {run_2_2, run_2_3, run_3_2, run_3_3, run_4_2, run_4_3, run_5_2, run_5_3, run_6_2, run_6_3, run_7_2, run_7_3, run_8_2, run_8_3, run_9_2, run_9_3, run_10_2, run_10_3, run_11_2, run_11_3, run_12_2, run_12_3, run_13_2, run_13_3, run_14_2, run_14_3, run_15_2, run_15_3, run_16_2, run_16_3};
  fns[c.idx % 30](c);
}
