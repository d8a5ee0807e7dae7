// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_8_0 {
  uniq<T<1>> m0;
  T<5> m1;
  T<0>* m2;
  T<7> m3;
  T<4> m4;
  T<6>* m5;
  T<2> m6;
  T<3> m7;
};
struct tgt_8_0_0 {
  T<3>& r0;
  T<3>& r1;
  T<6>& r2;
  T<7>& r3;
  T<3>& r4;
  T<7>& r5;
  T<6>& r6;
  T<6>& r7;
};
void run_8_0(vf::ctx& c) {
  store s{c}; src_8_0 src{s.uptr<1>(), s.direct<5>(), s.ptr<0>(), s.direct<7>(), s.direct<4>(), s.ptr<6>(), s.direct<2>(), s.direct<3>()};
  auto const before = snapshot(src.m0.get(), &src.m1, src.m2, &src.m3, &src.m4, src.m5, &src.m6, &src.m7);
  {
  bool const none = src.m5 == nullptr;
  auto t = utl::init_from<tgt_8_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_0");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "8_0 member 0");
    CHECK(&t->r1 == &src.m7, "init_from/address", "8_0 member 1");
    CHECK(&t->r2 == src.m5, "init_from/address", "8_0 member 2");
    CHECK(&t->r3 == &src.m3, "init_from/address", "8_0 member 3");
    CHECK(&t->r4 == &src.m7, "init_from/address", "8_0 member 4");
    CHECK(&t->r5 == &src.m3, "init_from/address", "8_0 member 5");
    CHECK(&t->r6 == src.m5, "init_from/address", "8_0 member 6");
    CHECK(&t->r7 == src.m5, "init_from/address", "8_0 member 7");
    c.count("init-members", 8);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, src.m2, &src.m3, &src.m4, src.m5, &src.m6, &src.m7), "init_from/source-changed", "8_0");
  c.count("inits"); c.distinct(vf::hcomb(32, s.pattern));
}
struct src_8_1 {
  std::shared_ptr<T<3>> m0;
  std::shared_ptr<T<1>> m1;
  uniq<T<0>> m2;
  std::shared_ptr<T<2>> m3;
  T<3>* m4;
  std::shared_ptr<T<1>> m5;
  uniq<T<0>> m6;
  T<1> m7;
};
struct tgt_8_1_0 {
  T<3>& r0;
  T<0>* r1;
  T<0>* r2;
  T<3>* r3;
  T<1>* r4;
  T<3>& r5;
  T<1>& r6;
  T<1>* r7;
};
void run_8_1(vf::ctx& c) {
  store s{c}; src_8_1 src{s.sptr<3>(), s.sptr<1>(), s.uptr<0>(), s.sptr<2>(), s.ptr<3>(), s.sptr<1>(), s.uptr<0>(), s.direct<1>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4, src.m5.get(), src.m6.get(), &src.m7);
  {
  bool const none = src.m0.get() == nullptr || src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_8_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "8_1");
  if (t) {
    CHECK(&t->r0 == src.m0.get(), "init_from/address", "8_1 member 0");
    CHECK(t->r1 == src.m2.get(), "init_from/address", "8_1 member 1");
    CHECK(t->r2 == src.m2.get(), "init_from/address", "8_1 member 2");
    CHECK(t->r3 == src.m0.get(), "init_from/address", "8_1 member 3");
    CHECK(t->r4 == src.m1.get(), "init_from/address", "8_1 member 4");
    CHECK(&t->r5 == src.m0.get(), "init_from/address", "8_1 member 5");
    CHECK(&t->r6 == src.m1.get(), "init_from/address", "8_1 member 6");
    CHECK(t->r7 == src.m1.get(), "init_from/address", "8_1 member 7");
    c.count("init-members", 8);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4, src.m5.get(), src.m6.get(), &src.m7), "init_from/source-changed", "8_1");
  c.count("inits"); c.distinct(vf::hcomb(33, s.pattern));
}
struct src_9_0 {
  T<4> m0;
  uniq<T<7>> m1;
  std::shared_ptr<T<8>> m2;
  uniq<T<3>> m3;
  uniq<T<5>> m4;
  std::shared_ptr<T<6>> m5;
  T<1>* m6;
  T<2> m7;
  T<0> m8;
};
struct tgt_9_0_0 {
  T<6>& r0;
  T<0>& r1;
  T<0>& r2;
  T<2>& r3;
  T<3>* r4;
  T<4>& r5;
  T<3>* r6;
  T<5>& r7;
  T<7>& r8;
};
void run_9_0(vf::ctx& c) {
  store s{c}; src_9_0 src{s.direct<4>(), s.uptr<7>(), s.sptr<8>(), s.uptr<3>(), s.uptr<5>(), s.sptr<6>(), s.ptr<1>(), s.direct<2>(), s.direct<0>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6, &src.m7, &src.m8);
  {
  bool const none = src.m1.get() == nullptr || src.m4.get() == nullptr || src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_9_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_0");
  if (t) {
    CHECK(&t->r0 == src.m5.get(), "init_from/address", "9_0 member 0");
    CHECK(&t->r1 == &src.m8, "init_from/address", "9_0 member 1");
    CHECK(&t->r2 == &src.m8, "init_from/address", "9_0 member 2");
    CHECK(&t->r3 == &src.m7, "init_from/address", "9_0 member 3");
    CHECK(t->r4 == src.m3.get(), "init_from/address", "9_0 member 4");
    CHECK(&t->r5 == &src.m0, "init_from/address", "9_0 member 5");
    CHECK(t->r6 == src.m3.get(), "init_from/address", "9_0 member 6");
    CHECK(&t->r7 == src.m4.get(), "init_from/address", "9_0 member 7");
    CHECK(&t->r8 == src.m1.get(), "init_from/address", "9_0 member 8");
    c.count("init-members", 9);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6, &src.m7, &src.m8), "init_from/source-changed", "9_0");
  c.count("inits"); c.distinct(vf::hcomb(36, s.pattern));
}
struct src_9_1 {
  T<1> m0;
  std::shared_ptr<T<4>> m1;
  uniq<T<4>> m2;
  std::shared_ptr<T<0>> m3;
  T<0> m4;
  std::shared_ptr<T<3>> m5;
  uniq<T<2>> m6;
  uniq<T<3>> m7;
  T<1> m8;
};
struct tgt_9_1_0 {
  T<3>* r0;
  T<0>& r1;
  T<3>& r2;
  T<0>& r3;
  T<2>* r4;
  T<4>* r5;
  T<1>& r6;
  T<2>* r7;
  T<3>& r8;
};
void run_9_1(vf::ctx& c) {
  store s{c}; src_9_1 src{s.direct<1>(), s.sptr<4>(), s.uptr<4>(), s.sptr<0>(), s.direct<0>(), s.sptr<3>(), s.uptr<2>(), s.uptr<3>(), s.direct<1>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), &src.m8);
  {
  bool const none = src.m3.get() == nullptr || src.m5.get() == nullptr;
  auto t = utl::init_from<tgt_9_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "9_1");
  if (t) {
    CHECK(t->r0 == src.m5.get(), "init_from/address", "9_1 member 0");
    CHECK(&t->r1 == src.m3.get(), "init_from/address", "9_1 member 1");
    CHECK(&t->r2 == src.m5.get(), "init_from/address", "9_1 member 2");
    CHECK(&t->r3 == src.m3.get(), "init_from/address", "9_1 member 3");
    CHECK(t->r4 == src.m6.get(), "init_from/address", "9_1 member 4");
    CHECK(t->r5 == src.m1.get(), "init_from/address", "9_1 member 5");
    CHECK(&t->r6 == &src.m0, "init_from/address", "9_1 member 6");
    CHECK(t->r7 == src.m6.get(), "init_from/address", "9_1 member 7");
    CHECK(&t->r8 == src.m5.get(), "init_from/address", "9_1 member 8");
    c.count("init-members", 9);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3.get(), &src.m4, src.m5.get(), src.m6.get(), src.m7.get(), &src.m8), "init_from/source-changed", "9_1");
  c.count("inits"); c.distinct(vf::hcomb(37, s.pattern));
}
struct src_10_0 {
  T<6>* m0;
  T<9> m1;
  uniq<T<2>> m2;
  T<3> m3;
  T<5>* m4;
  uniq<T<0>> m5;
  T<1>* m6;
  uniq<T<4>> m7;
  T<7>* m8;
  uniq<T<8>> m9;
};
struct tgt_10_0_0 {
  T<7>* r0;
  T<7>* r1;
  T<7>& r2;
  T<3>& r3;
  T<8>& r4;
  T<1>& r5;
  T<2>& r6;
  T<8>& r7;
  T<2>& r8;
  T<0>& r9;
};
void run_10_0(vf::ctx& c) {
  store s{c}; src_10_0 src{s.ptr<6>(), s.direct<9>(), s.uptr<2>(), s.direct<3>(), s.ptr<5>(), s.uptr<0>(), s.ptr<1>(), s.uptr<4>(), s.ptr<7>(), s.uptr<8>()};
  auto const before = snapshot(src.m0, &src.m1, src.m2.get(), &src.m3, src.m4, src.m5.get(), src.m6, src.m7.get(), src.m8, src.m9.get());
  {
  bool const none = src.m2.get() == nullptr || src.m5.get() == nullptr || src.m6 == nullptr || src.m8 == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_10_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_0");
  if (t) {
    CHECK(t->r0 == src.m8, "init_from/address", "10_0 member 0");
    CHECK(t->r1 == src.m8, "init_from/address", "10_0 member 1");
    CHECK(&t->r2 == src.m8, "init_from/address", "10_0 member 2");
    CHECK(&t->r3 == &src.m3, "init_from/address", "10_0 member 3");
    CHECK(&t->r4 == src.m9.get(), "init_from/address", "10_0 member 4");
    CHECK(&t->r5 == src.m6, "init_from/address", "10_0 member 5");
    CHECK(&t->r6 == src.m2.get(), "init_from/address", "10_0 member 6");
    CHECK(&t->r7 == src.m9.get(), "init_from/address", "10_0 member 7");
    CHECK(&t->r8 == src.m2.get(), "init_from/address", "10_0 member 8");
    CHECK(&t->r9 == src.m5.get(), "init_from/address", "10_0 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, &src.m1, src.m2.get(), &src.m3, src.m4, src.m5.get(), src.m6, src.m7.get(), src.m8, src.m9.get()), "init_from/source-changed", "10_0");
  c.count("inits"); c.distinct(vf::hcomb(40, s.pattern));
}
struct src_10_1 {
  T<1> m0;
  T<2> m1;
  std::shared_ptr<T<1>> m2;
  T<4>* m3;
  T<1>* m4;
  T<3> m5;
  T<4> m6;
  std::shared_ptr<T<4>> m7;
  T<2>* m8;
  T<3> m9;
};
struct tgt_10_1_0 {
  T<1>* r0;
  T<3>& r1;
  T<4>& r2;
  T<1>& r3;
  T<1>& r4;
  T<1>& r5;
  T<4>& r6;
  T<4>& r7;
};
void run_10_1(vf::ctx& c) {
  store s{c}; src_10_1 src{s.direct<1>(), s.direct<2>(), s.sptr<1>(), s.ptr<4>(), s.ptr<1>(), s.direct<3>(), s.direct<4>(), s.sptr<4>(), s.ptr<2>(), s.direct<3>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8, &src.m9);
  {
  bool const none = src.m3 == nullptr;
  auto t = utl::init_from<tgt_10_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "10_1");
  if (t) {
    CHECK(t->r0 == src.m2.get(), "init_from/address", "10_1 member 0");
    CHECK(&t->r1 == &src.m5, "init_from/address", "10_1 member 1");
    CHECK(&t->r2 == src.m3, "init_from/address", "10_1 member 2");
    CHECK(&t->r3 == &src.m0, "init_from/address", "10_1 member 3");
    CHECK(&t->r4 == &src.m0, "init_from/address", "10_1 member 4");
    CHECK(&t->r5 == &src.m0, "init_from/address", "10_1 member 5");
    CHECK(&t->r6 == src.m3, "init_from/address", "10_1 member 6");
    CHECK(&t->r7 == src.m3, "init_from/address", "10_1 member 7");
    c.count("init-members", 8);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8, &src.m9), "init_from/source-changed", "10_1");
  c.count("inits"); c.distinct(vf::hcomb(41, s.pattern));
}
struct src_11_0 {
  std::shared_ptr<T<3>> m0;
  T<8>* m1;
  T<10>* m2;
  T<6>* m3;
  std::shared_ptr<T<4>> m4;
  std::shared_ptr<T<5>> m5;
  T<7> m6;
  T<9> m7;
  uniq<T<2>> m8;
  std::shared_ptr<T<0>> m9;
  std::shared_ptr<T<1>> m10;
};
struct tgt_11_0_0 {
  T<6>& r0;
  T<0>& r1;
  T<2>* r2;
  T<1>& r3;
  T<10>& r4;
  T<6>* r5;
  T<4>& r6;
  T<9>& r7;
  T<4>& r8;
  T<4>& r9;
};
void run_11_0(vf::ctx& c) {
  store s{c}; src_11_0 src{s.sptr<3>(), s.ptr<8>(), s.ptr<10>(), s.ptr<6>(), s.sptr<4>(), s.sptr<5>(), s.direct<7>(), s.direct<9>(), s.uptr<2>(), s.sptr<0>(), s.sptr<1>()};
  auto const before = snapshot(src.m0.get(), src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), src.m10.get());
  {
  bool const none = src.m10.get() == nullptr || src.m2 == nullptr || src.m3 == nullptr || src.m4.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_11_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_0");
  if (t) {
    CHECK(&t->r0 == src.m3, "init_from/address", "11_0 member 0");
    CHECK(&t->r1 == src.m9.get(), "init_from/address", "11_0 member 1");
    CHECK(t->r2 == src.m8.get(), "init_from/address", "11_0 member 2");
    CHECK(&t->r3 == src.m10.get(), "init_from/address", "11_0 member 3");
    CHECK(&t->r4 == src.m2, "init_from/address", "11_0 member 4");
    CHECK(t->r5 == src.m3, "init_from/address", "11_0 member 5");
    CHECK(&t->r6 == src.m4.get(), "init_from/address", "11_0 member 6");
    CHECK(&t->r7 == &src.m7, "init_from/address", "11_0 member 7");
    CHECK(&t->r8 == src.m4.get(), "init_from/address", "11_0 member 8");
    CHECK(&t->r9 == src.m4.get(), "init_from/address", "11_0 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), src.m10.get()), "init_from/source-changed", "11_0");
  c.count("inits"); c.distinct(vf::hcomb(44, s.pattern));
}
struct src_11_1 {
  T<0>* m0;
  std::shared_ptr<T<1>> m1;
  T<5> m2;
  T<0> m3;
  uniq<T<3>> m4;
  uniq<T<0>> m5;
  std::shared_ptr<T<4>> m6;
  T<5> m7;
  T<5>* m8;
  T<3>* m9;
  T<4>* m10;
};
struct tgt_11_1_0 {
  T<1>* r0;
  T<5>& r1;
  T<4>& r2;
  T<5>* r3;
  T<1>* r4;
  T<1>* r5;
  T<4>* r6;
  T<4>* r7;
  T<0>& r8;
  T<0>& r9;
  T<4>* r10;
};
void run_11_1(vf::ctx& c) {
  store s{c}; src_11_1 src{s.ptr<0>(), s.sptr<1>(), s.direct<5>(), s.direct<0>(), s.uptr<3>(), s.uptr<0>(), s.sptr<4>(), s.direct<5>(), s.ptr<5>(), s.ptr<3>(), s.ptr<4>()};
  auto const before = snapshot(src.m0, src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, src.m8, src.m9, src.m10);
  {
  bool const none = src.m0 == nullptr || src.m6.get() == nullptr;
  auto t = utl::init_from<tgt_11_1_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "11_1");
  if (t) {
    CHECK(t->r0 == src.m1.get(), "init_from/address", "11_1 member 0");
    CHECK(&t->r1 == &src.m2, "init_from/address", "11_1 member 1");
    CHECK(&t->r2 == src.m6.get(), "init_from/address", "11_1 member 2");
    CHECK(t->r3 == src.m8, "init_from/address", "11_1 member 3");
    CHECK(t->r4 == src.m1.get(), "init_from/address", "11_1 member 4");
    CHECK(t->r5 == src.m1.get(), "init_from/address", "11_1 member 5");
    CHECK(t->r6 == src.m6.get(), "init_from/address", "11_1 member 6");
    CHECK(t->r7 == src.m6.get(), "init_from/address", "11_1 member 7");
    CHECK(&t->r8 == src.m0, "init_from/address", "11_1 member 8");
    CHECK(&t->r9 == src.m0, "init_from/address", "11_1 member 9");
    CHECK(t->r10 == src.m6.get(), "init_from/address", "11_1 member 10");
    c.count("init-members", 11);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1.get(), &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, src.m8, src.m9, src.m10), "init_from/source-changed", "11_1");
  c.count("inits"); c.distinct(vf::hcomb(45, s.pattern));
}
struct src_12_0 {
  T<4> m0;
  T<7> m1;
  std::shared_ptr<T<10>> m2;
  std::shared_ptr<T<0>> m3;
  std::shared_ptr<T<3>> m4;
  std::shared_ptr<T<8>> m5;
  uniq<T<9>> m6;
  T<1> m7;
  std::shared_ptr<T<2>> m8;
  T<11> m9;
  std::shared_ptr<T<5>> m10;
  uniq<T<6>> m11;
};
struct tgt_12_0_0 {
  T<1>& r0;
  T<2>& r1;
  T<6>& r2;
  T<4>& r3;
  T<9>& r4;
  T<9>& r5;
  T<11>& r6;
  T<7>& r7;
  T<9>* r8;
  T<10>* r9;
  T<9>& r10;
  T<6>& r11;
};
void run_12_0(vf::ctx& c) {
  store s{c}; src_12_0 src{s.direct<4>(), s.direct<7>(), s.sptr<10>(), s.sptr<0>(), s.sptr<3>(), s.sptr<8>(), s.uptr<9>(), s.direct<1>(), s.sptr<2>(), s.direct<11>(), s.sptr<5>(), s.uptr<6>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, src.m8.get(), &src.m9, src.m10.get(), src.m11.get());
  {
  bool const none = src.m11.get() == nullptr || src.m6.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_12_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "12_0");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "12_0 member 0");
    CHECK(&t->r1 == src.m8.get(), "init_from/address", "12_0 member 1");
    CHECK(&t->r2 == src.m11.get(), "init_from/address", "12_0 member 2");
    CHECK(&t->r3 == &src.m0, "init_from/address", "12_0 member 3");
    CHECK(&t->r4 == src.m6.get(), "init_from/address", "12_0 member 4");
    CHECK(&t->r5 == src.m6.get(), "init_from/address", "12_0 member 5");
    CHECK(&t->r6 == &src.m9, "init_from/address", "12_0 member 6");
    CHECK(&t->r7 == &src.m1, "init_from/address", "12_0 member 7");
    CHECK(t->r8 == src.m6.get(), "init_from/address", "12_0 member 8");
    CHECK(t->r9 == src.m2.get(), "init_from/address", "12_0 member 9");
    CHECK(&t->r10 == src.m6.get(), "init_from/address", "12_0 member 10");
    CHECK(&t->r11 == src.m11.get(), "init_from/address", "12_0 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), &src.m7, src.m8.get(), &src.m9, src.m10.get(), src.m11.get()), "init_from/source-changed", "12_0");
  c.count("inits"); c.distinct(vf::hcomb(48, s.pattern));
}
struct src_13_0 {
  uniq<T<3>> m0;
  T<1> m1;
  T<4> m2;
  T<2>* m3;
  T<10>* m4;
  T<12> m5;
  T<9> m6;
  std::shared_ptr<T<0>> m7;
  T<11> m8;
  T<6>* m9;
  T<7> m10;
  T<5>* m11;
  T<8> m12;
};
struct tgt_13_0_0 {
  T<9>& r0;
  T<8>& r1;
  T<3>* r2;
  T<5>& r3;
  T<10>* r4;
  T<2>& r5;
  T<4>& r6;
  T<7>& r7;
  T<10>& r8;
  T<11>& r9;
  T<8>& r10;
  T<3>& r11;
  T<6>* r12;
};
void run_13_0(vf::ctx& c) {
  store s{c}; src_13_0 src{s.uptr<3>(), s.direct<1>(), s.direct<4>(), s.ptr<2>(), s.ptr<10>(), s.direct<12>(), s.direct<9>(), s.sptr<0>(), s.direct<11>(), s.ptr<6>(), s.direct<7>(), s.ptr<5>(), s.direct<8>()};
  auto const before = snapshot(src.m0.get(), &src.m1, &src.m2, src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), &src.m8, src.m9, &src.m10, src.m11, &src.m12);
  {
  bool const none = src.m0.get() == nullptr || src.m11 == nullptr || src.m3 == nullptr || src.m4 == nullptr;
  auto t = utl::init_from<tgt_13_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "13_0");
  if (t) {
    CHECK(&t->r0 == &src.m6, "init_from/address", "13_0 member 0");
    CHECK(&t->r1 == &src.m12, "init_from/address", "13_0 member 1");
    CHECK(t->r2 == src.m0.get(), "init_from/address", "13_0 member 2");
    CHECK(&t->r3 == src.m11, "init_from/address", "13_0 member 3");
    CHECK(t->r4 == src.m4, "init_from/address", "13_0 member 4");
    CHECK(&t->r5 == src.m3, "init_from/address", "13_0 member 5");
    CHECK(&t->r6 == &src.m2, "init_from/address", "13_0 member 6");
    CHECK(&t->r7 == &src.m10, "init_from/address", "13_0 member 7");
    CHECK(&t->r8 == src.m4, "init_from/address", "13_0 member 8");
    CHECK(&t->r9 == &src.m8, "init_from/address", "13_0 member 9");
    CHECK(&t->r10 == &src.m12, "init_from/address", "13_0 member 10");
    CHECK(&t->r11 == src.m0.get(), "init_from/address", "13_0 member 11");
    CHECK(t->r12 == src.m9, "init_from/address", "13_0 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, &src.m2, src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), &src.m8, src.m9, &src.m10, src.m11, &src.m12), "init_from/source-changed", "13_0");
  c.count("inits"); c.distinct(vf::hcomb(52, s.pattern));
}
struct src_14_0 {
  std::shared_ptr<T<2>> m0;
  T<13> m1;
  T<1>* m2;
  T<10>* m3;
  std::shared_ptr<T<5>> m4;
  std::shared_ptr<T<3>> m5;
  T<0>* m6;
  T<12> m7;
  T<4> m8;
  T<6> m9;
  uniq<T<8>> m10;
  T<7> m11;
  T<9> m12;
  T<11> m13;
};
struct tgt_14_0_0 {
  T<7>& r0;
  T<10>& r1;
  T<6>& r2;
  T<5>& r3;
  T<7>& r4;
  T<2>& r5;
  T<12>& r6;
  T<6>& r7;
  T<7>& r8;
  T<7>& r9;
  T<12>& r10;
  T<8>& r11;
  T<2>& r12;
  T<5>& r13;
};
void run_14_0(vf::ctx& c) {
  store s{c}; src_14_0 src{s.sptr<2>(), s.direct<13>(), s.ptr<1>(), s.ptr<10>(), s.sptr<5>(), s.sptr<3>(), s.ptr<0>(), s.direct<12>(), s.direct<4>(), s.direct<6>(), s.uptr<8>(), s.direct<7>(), s.direct<9>(), s.direct<11>()};
  auto const before = snapshot(src.m0.get(), &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6, &src.m7, &src.m8, &src.m9, src.m10.get(), &src.m11, &src.m12, &src.m13);
  {
  bool const none = src.m0.get() == nullptr || src.m10.get() == nullptr || src.m3 == nullptr || src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_14_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "14_0");
  if (t) {
    CHECK(&t->r0 == &src.m11, "init_from/address", "14_0 member 0");
    CHECK(&t->r1 == src.m3, "init_from/address", "14_0 member 1");
    CHECK(&t->r2 == &src.m9, "init_from/address", "14_0 member 2");
    CHECK(&t->r3 == src.m4.get(), "init_from/address", "14_0 member 3");
    CHECK(&t->r4 == &src.m11, "init_from/address", "14_0 member 4");
    CHECK(&t->r5 == src.m0.get(), "init_from/address", "14_0 member 5");
    CHECK(&t->r6 == &src.m7, "init_from/address", "14_0 member 6");
    CHECK(&t->r7 == &src.m9, "init_from/address", "14_0 member 7");
    CHECK(&t->r8 == &src.m11, "init_from/address", "14_0 member 8");
    CHECK(&t->r9 == &src.m11, "init_from/address", "14_0 member 9");
    CHECK(&t->r10 == &src.m7, "init_from/address", "14_0 member 10");
    CHECK(&t->r11 == src.m10.get(), "init_from/address", "14_0 member 11");
    CHECK(&t->r12 == src.m0.get(), "init_from/address", "14_0 member 12");
    CHECK(&t->r13 == src.m4.get(), "init_from/address", "14_0 member 13");
    c.count("init-members", 14);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), &src.m1, src.m2, src.m3, src.m4.get(), src.m5.get(), src.m6, &src.m7, &src.m8, &src.m9, src.m10.get(), &src.m11, &src.m12, &src.m13), "init_from/source-changed", "14_0");
  c.count("inits"); c.distinct(vf::hcomb(56, s.pattern));
}
struct src_15_0 {
  T<0> m0;
  uniq<T<14>> m1;
  T<2>* m2;
  T<11> m3;
  T<3> m4;
  T<12>* m5;
  T<13> m6;
  std::shared_ptr<T<5>> m7;
  T<7> m8;
  T<4>* m9;
  T<9> m10;
  T<1>* m11;
  std::shared_ptr<T<8>> m12;
  T<6>* m13;
  T<10> m14;
};
struct tgt_15_0_0 {
  T<6>* r0;
  T<13>& r1;
  T<1>* r2;
  T<0>& r3;
  T<9>& r4;
  T<14>& r5;
};
void run_15_0(vf::ctx& c) {
  store s{c}; src_15_0 src{s.direct<0>(), s.uptr<14>(), s.ptr<2>(), s.direct<11>(), s.direct<3>(), s.ptr<12>(), s.direct<13>(), s.sptr<5>(), s.direct<7>(), s.ptr<4>(), s.direct<9>(), s.ptr<1>(), s.sptr<8>(), s.ptr<6>(), s.direct<10>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2, &src.m3, &src.m4, src.m5, &src.m6, src.m7.get(), &src.m8, src.m9, &src.m10, src.m11, src.m12.get(), src.m13, &src.m14);
  {
  bool const none = src.m1.get() == nullptr;
  auto t = utl::init_from<tgt_15_0_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "15_0");
  if (t) {
    CHECK(t->r0 == src.m13, "init_from/address", "15_0 member 0");
    CHECK(&t->r1 == &src.m6, "init_from/address", "15_0 member 1");
    CHECK(t->r2 == src.m11, "init_from/address", "15_0 member 2");
    CHECK(&t->r3 == &src.m0, "init_from/address", "15_0 member 3");
    CHECK(&t->r4 == &src.m10, "init_from/address", "15_0 member 4");
    CHECK(&t->r5 == src.m1.get(), "init_from/address", "15_0 member 5");
    c.count("init-members", 6);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2, &src.m3, &src.m4, src.m5, &src.m6, src.m7.get(), &src.m8, src.m9, &src.m10, src.m11, src.m12.get(), src.m13, &src.m14), "init_from/source-changed", "15_0");
  c.count("inits"); c.distinct(vf::hcomb(60, s.pattern));
}
}  // namespace
SCENARIO(init_from_b, 720, 18000) {
  static void (*const fns[])(vf::ctx&) = {run_8_0, run_8_1, run_9_0, run_9_1, run_10_0, run_10_1, run_11_0, run_11_1, run_12_0, run_13_0, run_14_0, run_15_0};
  fns[c.idx % 12](c);
}
