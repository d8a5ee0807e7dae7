// generated by tools/gen_c40.py - C40: init_from
#define VF_NO_MAIN
#include "vf.h"
#include "utl/init_from.h"
#include "c40_init.h"
namespace {
struct src_17_2 {
  T<0>* m0;
  T<0>* m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3> m6;
  T<3> m7;
  uniq<T<4>> m8;
  uniq<T<4>> m9;
  T<5> m10;
  T<5> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  T<7> m14;
  T<7> m15;
  T<8>* m16;
};
struct tgt_17_2_0 {
  T<6>* r0;
  T<8>& r1;
  T<3>& r2;
  T<7>& r3;
  T<5>& r4;
  T<2>* r5;
  T<4>* r6;
  T<0>& r7;
  T<1>* r8;
};
void run_17_2(vf::ctx& c) {
  store s{c}; src_17_2 src{s.ptr<0>(), s.ptr<0>(), s.sptr<1>(), s.sptr<1>(), s.sptr<2>(), s.sptr<2>(), s.direct<3>(), s.direct<3>(), s.uptr<4>(), s.uptr<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.direct<7>(), s.direct<7>(), s.ptr<8>()};
  auto const before = snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, src.m16);
  {
  bool const none = src.m0 == nullptr || src.m16 == nullptr;
  auto t = utl::init_from<tgt_17_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "17_2");
  if (t) {
    CHECK(t->r0 == src.m12.get(), "init_from/address", "17_2 member 0");
    CHECK(&t->r1 == src.m16, "init_from/address", "17_2 member 1");
    CHECK(&t->r2 == &src.m6, "init_from/address", "17_2 member 2");
    CHECK(&t->r3 == &src.m14, "init_from/address", "17_2 member 3");
    CHECK(&t->r4 == &src.m10, "init_from/address", "17_2 member 4");
    CHECK(t->r5 == src.m4.get(), "init_from/address", "17_2 member 5");
    CHECK(t->r6 == src.m8.get(), "init_from/address", "17_2 member 6");
    CHECK(&t->r7 == src.m0, "init_from/address", "17_2 member 7");
    CHECK(t->r8 == src.m2.get(), "init_from/address", "17_2 member 8");
    c.count("init-members", 9);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, src.m16), "init_from/source-changed", "17_2");
  c.count("inits"); c.distinct(vf::hcomb(70, s.pattern));
}
struct src_17_3 {
  T<0>* m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  T<2> m3;
  T<2> m4;
  T<3> m5;
  T<3> m6;
  T<4>* m7;
  T<4>* m8;
  T<5>* m9;
  T<5>* m10;
  T<6> m11;
  T<6> m12;
  std::shared_ptr<T<7>> m13;
  std::shared_ptr<T<7>> m14;
  std::shared_ptr<T<8>> m15;
  std::shared_ptr<T<8>> m16;
};
struct tgt_17_3_0 {
  T<5>& r0;
  T<4>* r1;
  T<8>* r2;
  T<3>& r3;
  T<2>& r4;
  T<0>& r5;
  T<7>* r6;
  T<6>& r7;
  T<1>& r8;
};
void run_17_3(vf::ctx& c) {
  store s{c}; src_17_3 src{s.ptr<0>(), s.sptr<1>(), s.sptr<1>(), s.direct<2>(), s.direct<2>(), s.direct<3>(), s.direct<3>(), s.ptr<4>(), s.ptr<4>(), s.ptr<5>(), s.ptr<5>(), s.direct<6>(), s.direct<6>(), s.sptr<7>(), s.sptr<7>(), s.sptr<8>(), s.sptr<8>()};
  auto const before = snapshot(src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, src.m7, src.m8, src.m9, src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get());
  {
  bool const none = src.m0 == nullptr || src.m1.get() == nullptr || src.m9 == nullptr;
  auto t = utl::init_from<tgt_17_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "17_3");
  if (t) {
    CHECK(&t->r0 == src.m9, "init_from/address", "17_3 member 0");
    CHECK(t->r1 == src.m7, "init_from/address", "17_3 member 1");
    CHECK(t->r2 == src.m15.get(), "init_from/address", "17_3 member 2");
    CHECK(&t->r3 == &src.m5, "init_from/address", "17_3 member 3");
    CHECK(&t->r4 == &src.m3, "init_from/address", "17_3 member 4");
    CHECK(&t->r5 == src.m0, "init_from/address", "17_3 member 5");
    CHECK(t->r6 == src.m13.get(), "init_from/address", "17_3 member 6");
    CHECK(&t->r7 == &src.m11, "init_from/address", "17_3 member 7");
    CHECK(&t->r8 == src.m1.get(), "init_from/address", "17_3 member 8");
    c.count("init-members", 9);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, src.m7, src.m8, src.m9, src.m10, &src.m11, &src.m12, src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get()), "init_from/source-changed", "17_3");
  c.count("inits"); c.distinct(vf::hcomb(71, s.pattern));
}
struct src_18_2 {
  T<0> m0;
  T<0> m1;
  T<1>* m2;
  T<1>* m3;
  T<2> m4;
  T<2> m5;
  T<3>* m6;
  T<3>* m7;
  std::shared_ptr<T<4>> m8;
  std::shared_ptr<T<4>> m9;
  T<5> m10;
  T<5> m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  T<7>* m14;
  T<7>* m15;
  uniq<T<8>> m16;
  uniq<T<8>> m17;
};
struct tgt_18_2_0 {
  T<5>& r0;
  T<1>* r1;
  T<0>& r2;
  T<8>& r3;
  T<2>& r4;
  T<3>* r5;
  T<4>& r6;
  T<7>& r7;
  T<6>& r8;
};
void run_18_2(vf::ctx& c) {
  store s{c}; src_18_2 src{s.direct<0>(), s.direct<0>(), s.ptr<1>(), s.ptr<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.sptr<4>(), s.sptr<4>(), s.direct<5>(), s.direct<5>(), s.sptr<6>(), s.sptr<6>(), s.ptr<7>(), s.ptr<7>(), s.uptr<8>(), s.uptr<8>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2, src.m3, &src.m4, &src.m5, src.m6, src.m7, src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14, src.m15, src.m16.get(), src.m17.get());
  {
  bool const none = src.m12.get() == nullptr || src.m14 == nullptr || src.m16.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_18_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "18_2");
  if (t) {
    CHECK(&t->r0 == &src.m10, "init_from/address", "18_2 member 0");
    CHECK(t->r1 == src.m2, "init_from/address", "18_2 member 1");
    CHECK(&t->r2 == &src.m0, "init_from/address", "18_2 member 2");
    CHECK(&t->r3 == src.m16.get(), "init_from/address", "18_2 member 3");
    CHECK(&t->r4 == &src.m4, "init_from/address", "18_2 member 4");
    CHECK(t->r5 == src.m6, "init_from/address", "18_2 member 5");
    CHECK(&t->r6 == src.m8.get(), "init_from/address", "18_2 member 6");
    CHECK(&t->r7 == src.m14, "init_from/address", "18_2 member 7");
    CHECK(&t->r8 == src.m12.get(), "init_from/address", "18_2 member 8");
    c.count("init-members", 9);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2, src.m3, &src.m4, &src.m5, src.m6, src.m7, src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), src.m14, src.m15, src.m16.get(), src.m17.get()), "init_from/source-changed", "18_2");
  c.count("inits"); c.distinct(vf::hcomb(74, s.pattern));
}
struct src_18_3 {
  T<0> m0;
  std::shared_ptr<T<1>> m1;
  std::shared_ptr<T<1>> m2;
  T<2>* m3;
  T<2>* m4;
  T<3> m5;
  T<3> m6;
  std::shared_ptr<T<4>> m7;
  std::shared_ptr<T<4>> m8;
  T<5> m9;
  T<5> m10;
  T<6>* m11;
  T<6>* m12;
  T<7> m13;
  T<7> m14;
  T<8> m15;
  T<8> m16;
  T<9>* m17;
};
struct tgt_18_3_0 {
  T<6>& r0;
  T<1>* r1;
  T<8>& r2;
  T<0>& r3;
  T<3>& r4;
  T<4>& r5;
  T<2>& r6;
  T<9>* r7;
  T<7>& r8;
  T<5>& r9;
};
void run_18_3(vf::ctx& c) {
  store s{c}; src_18_3 src{s.direct<0>(), s.sptr<1>(), s.sptr<1>(), s.ptr<2>(), s.ptr<2>(), s.direct<3>(), s.direct<3>(), s.sptr<4>(), s.sptr<4>(), s.direct<5>(), s.direct<5>(), s.ptr<6>(), s.ptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.ptr<9>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17);
  {
  bool const none = src.m11 == nullptr || src.m3 == nullptr || src.m7.get() == nullptr;
  auto t = utl::init_from<tgt_18_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "18_3");
  if (t) {
    CHECK(&t->r0 == src.m11, "init_from/address", "18_3 member 0");
    CHECK(t->r1 == src.m1.get(), "init_from/address", "18_3 member 1");
    CHECK(&t->r2 == &src.m15, "init_from/address", "18_3 member 2");
    CHECK(&t->r3 == &src.m0, "init_from/address", "18_3 member 3");
    CHECK(&t->r4 == &src.m5, "init_from/address", "18_3 member 4");
    CHECK(&t->r5 == src.m7.get(), "init_from/address", "18_3 member 5");
    CHECK(&t->r6 == src.m3, "init_from/address", "18_3 member 6");
    CHECK(t->r7 == src.m17, "init_from/address", "18_3 member 7");
    CHECK(&t->r8 == &src.m13, "init_from/address", "18_3 member 8");
    CHECK(&t->r9 == &src.m9, "init_from/address", "18_3 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), src.m3, src.m4, &src.m5, &src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17), "init_from/source-changed", "18_3");
  c.count("inits"); c.distinct(vf::hcomb(75, s.pattern));
}
struct src_19_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3>* m6;
  T<3>* m7;
  uniq<T<4>> m8;
  uniq<T<4>> m9;
  std::shared_ptr<T<5>> m10;
  std::shared_ptr<T<5>> m11;
  T<6> m12;
  T<6> m13;
  T<7> m14;
  T<7> m15;
  uniq<T<8>> m16;
  uniq<T<8>> m17;
  T<9> m18;
};
struct tgt_19_2_0 {
  T<0>& r0;
  T<1>& r1;
  T<3>* r2;
  T<2>* r3;
  T<7>& r4;
  T<4>& r5;
  T<8>& r6;
  T<5>& r7;
  T<9>& r8;
  T<6>& r9;
};
void run_19_2(vf::ctx& c) {
  store s{c}; src_19_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.ptr<3>(), s.ptr<3>(), s.uptr<4>(), s.uptr<4>(), s.sptr<5>(), s.sptr<5>(), s.direct<6>(), s.direct<6>(), s.direct<7>(), s.direct<7>(), s.uptr<8>(), s.uptr<8>(), s.direct<9>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), &src.m18);
  {
  bool const none = src.m10.get() == nullptr || src.m16.get() == nullptr || src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_19_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "19_2");
  if (t) {
    CHECK(&t->r0 == &src.m0, "init_from/address", "19_2 member 0");
    CHECK(&t->r1 == &src.m2, "init_from/address", "19_2 member 1");
    CHECK(t->r2 == src.m6, "init_from/address", "19_2 member 2");
    CHECK(t->r3 == src.m4.get(), "init_from/address", "19_2 member 3");
    CHECK(&t->r4 == &src.m14, "init_from/address", "19_2 member 4");
    CHECK(&t->r5 == src.m8.get(), "init_from/address", "19_2 member 5");
    CHECK(&t->r6 == src.m16.get(), "init_from/address", "19_2 member 6");
    CHECK(&t->r7 == src.m10.get(), "init_from/address", "19_2 member 7");
    CHECK(&t->r8 == &src.m18, "init_from/address", "19_2 member 8");
    CHECK(&t->r9 == &src.m12, "init_from/address", "19_2 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), &src.m12, &src.m13, &src.m14, &src.m15, src.m16.get(), src.m17.get(), &src.m18), "init_from/source-changed", "19_2");
  c.count("inits"); c.distinct(vf::hcomb(78, s.pattern));
}
struct src_19_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2>* m3;
  T<2>* m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  uniq<T<4>> m7;
  uniq<T<4>> m8;
  T<5>* m9;
  T<5>* m10;
  std::shared_ptr<T<6>> m11;
  std::shared_ptr<T<6>> m12;
  T<7> m13;
  T<7> m14;
  std::shared_ptr<T<8>> m15;
  std::shared_ptr<T<8>> m16;
  T<9> m17;
  T<9> m18;
};
struct tgt_19_3_0 {
  T<7>& r0;
  T<6>& r1;
  T<9>& r2;
  T<5>& r3;
  T<3>* r4;
  T<4>* r5;
  T<8>* r6;
  T<0>& r7;
  T<1>& r8;
  T<2>& r9;
};
void run_19_3(vf::ctx& c) {
  store s{c}; src_19_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.ptr<5>(), s.ptr<5>(), s.sptr<6>(), s.sptr<6>(), s.direct<7>(), s.direct<7>(), s.sptr<8>(), s.sptr<8>(), s.direct<9>(), s.direct<9>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9, src.m10, src.m11.get(), src.m12.get(), &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, &src.m18);
  {
  bool const none = src.m11.get() == nullptr || src.m3 == nullptr || src.m9 == nullptr;
  auto t = utl::init_from<tgt_19_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "19_3");
  if (t) {
    CHECK(&t->r0 == &src.m13, "init_from/address", "19_3 member 0");
    CHECK(&t->r1 == src.m11.get(), "init_from/address", "19_3 member 1");
    CHECK(&t->r2 == &src.m17, "init_from/address", "19_3 member 2");
    CHECK(&t->r3 == src.m9, "init_from/address", "19_3 member 3");
    CHECK(t->r4 == src.m5.get(), "init_from/address", "19_3 member 4");
    CHECK(t->r5 == src.m7.get(), "init_from/address", "19_3 member 5");
    CHECK(t->r6 == src.m15.get(), "init_from/address", "19_3 member 6");
    CHECK(&t->r7 == &src.m0, "init_from/address", "19_3 member 7");
    CHECK(&t->r8 == &src.m1, "init_from/address", "19_3 member 8");
    CHECK(&t->r9 == src.m3, "init_from/address", "19_3 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, src.m3, src.m4, src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9, src.m10, src.m11.get(), src.m12.get(), &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, &src.m18), "init_from/source-changed", "19_3");
  c.count("inits"); c.distinct(vf::hcomb(79, s.pattern));
}
struct src_20_2 {
  T<0>* m0;
  T<0>* m1;
  T<1> m2;
  T<1> m3;
  T<2> m4;
  T<2> m5;
  std::shared_ptr<T<3>> m6;
  std::shared_ptr<T<3>> m7;
  uniq<T<4>> m8;
  uniq<T<4>> m9;
  T<5> m10;
  T<5> m11;
  uniq<T<6>> m12;
  uniq<T<6>> m13;
  T<7> m14;
  T<7> m15;
  T<8>* m16;
  T<8>* m17;
  T<9> m18;
  T<9> m19;
};
struct tgt_20_2_0 {
  T<2>& r0;
  T<4>& r1;
  T<3>* r2;
  T<9>& r3;
  T<8>* r4;
  T<0>* r5;
  T<1>& r6;
  T<7>& r7;
  T<5>& r8;
  T<6>* r9;
};
void run_20_2(vf::ctx& c) {
  store s{c}; src_20_2 src{s.ptr<0>(), s.ptr<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.uptr<4>(), s.uptr<4>(), s.direct<5>(), s.direct<5>(), s.uptr<6>(), s.uptr<6>(), s.direct<7>(), s.direct<7>(), s.ptr<8>(), s.ptr<8>(), s.direct<9>(), s.direct<9>()};
  auto const before = snapshot(src.m0, src.m1, &src.m2, &src.m3, &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, src.m16, src.m17, &src.m18, &src.m19);
  {
  bool const none = src.m8.get() == nullptr;
  auto t = utl::init_from<tgt_20_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "20_2");
  if (t) {
    CHECK(&t->r0 == &src.m4, "init_from/address", "20_2 member 0");
    CHECK(&t->r1 == src.m8.get(), "init_from/address", "20_2 member 1");
    CHECK(t->r2 == src.m6.get(), "init_from/address", "20_2 member 2");
    CHECK(&t->r3 == &src.m18, "init_from/address", "20_2 member 3");
    CHECK(t->r4 == src.m16, "init_from/address", "20_2 member 4");
    CHECK(t->r5 == src.m0, "init_from/address", "20_2 member 5");
    CHECK(&t->r6 == &src.m2, "init_from/address", "20_2 member 6");
    CHECK(&t->r7 == &src.m14, "init_from/address", "20_2 member 7");
    CHECK(&t->r8 == &src.m10, "init_from/address", "20_2 member 8");
    CHECK(t->r9 == src.m12.get(), "init_from/address", "20_2 member 9");
    c.count("init-members", 10);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0, src.m1, &src.m2, &src.m3, &src.m4, &src.m5, src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), &src.m10, &src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, src.m16, src.m17, &src.m18, &src.m19), "init_from/source-changed", "20_2");
  c.count("inits"); c.distinct(vf::hcomb(82, s.pattern));
}
struct src_20_3 {
  uniq<T<0>> m0;
  T<1>* m1;
  T<1>* m2;
  uniq<T<2>> m3;
  uniq<T<2>> m4;
  uniq<T<3>> m5;
  uniq<T<3>> m6;
  std::shared_ptr<T<4>> m7;
  std::shared_ptr<T<4>> m8;
  std::shared_ptr<T<5>> m9;
  std::shared_ptr<T<5>> m10;
  T<6> m11;
  T<6> m12;
  uniq<T<7>> m13;
  uniq<T<7>> m14;
  T<8> m15;
  T<8> m16;
  T<9> m17;
  T<9> m18;
  T<10> m19;
};
struct tgt_20_3_0 {
  T<7>& r0;
  T<3>* r1;
  T<2>& r2;
  T<10>& r3;
  T<9>& r4;
  T<4>& r5;
  T<8>& r6;
  T<6>& r7;
  T<5>& r8;
  T<0>* r9;
  T<1>& r10;
};
void run_20_3(vf::ctx& c) {
  store s{c}; src_20_3 src{s.uptr<0>(), s.ptr<1>(), s.ptr<1>(), s.uptr<2>(), s.uptr<2>(), s.uptr<3>(), s.uptr<3>(), s.sptr<4>(), s.sptr<4>(), s.sptr<5>(), s.sptr<5>(), s.direct<6>(), s.direct<6>(), s.uptr<7>(), s.uptr<7>(), s.direct<8>(), s.direct<8>(), s.direct<9>(), s.direct<9>(), s.direct<10>()};
  auto const before = snapshot(src.m0.get(), src.m1, src.m2, src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13.get(), src.m14.get(), &src.m15, &src.m16, &src.m17, &src.m18, &src.m19);
  {
  bool const none = src.m1 == nullptr || src.m13.get() == nullptr || src.m3.get() == nullptr || src.m7.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_20_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "20_3");
  if (t) {
    CHECK(&t->r0 == src.m13.get(), "init_from/address", "20_3 member 0");
    CHECK(t->r1 == src.m5.get(), "init_from/address", "20_3 member 1");
    CHECK(&t->r2 == src.m3.get(), "init_from/address", "20_3 member 2");
    CHECK(&t->r3 == &src.m19, "init_from/address", "20_3 member 3");
    CHECK(&t->r4 == &src.m17, "init_from/address", "20_3 member 4");
    CHECK(&t->r5 == src.m7.get(), "init_from/address", "20_3 member 5");
    CHECK(&t->r6 == &src.m15, "init_from/address", "20_3 member 6");
    CHECK(&t->r7 == &src.m11, "init_from/address", "20_3 member 7");
    CHECK(&t->r8 == src.m9.get(), "init_from/address", "20_3 member 8");
    CHECK(t->r9 == src.m0.get(), "init_from/address", "20_3 member 9");
    CHECK(&t->r10 == src.m1, "init_from/address", "20_3 member 10");
    c.count("init-members", 11);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1, src.m2, src.m3.get(), src.m4.get(), src.m5.get(), src.m6.get(), src.m7.get(), src.m8.get(), src.m9.get(), src.m10.get(), &src.m11, &src.m12, src.m13.get(), src.m14.get(), &src.m15, &src.m16, &src.m17, &src.m18, &src.m19), "init_from/source-changed", "20_3");
  c.count("inits"); c.distinct(vf::hcomb(83, s.pattern));
}
struct src_21_2 {
  std::shared_ptr<T<0>> m0;
  std::shared_ptr<T<0>> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  uniq<T<2>> m4;
  uniq<T<2>> m5;
  T<3> m6;
  T<3> m7;
  std::shared_ptr<T<4>> m8;
  std::shared_ptr<T<4>> m9;
  std::shared_ptr<T<5>> m10;
  std::shared_ptr<T<5>> m11;
  T<6>* m12;
  T<6>* m13;
  T<7> m14;
  T<7> m15;
  T<8> m16;
  T<8> m17;
  T<9> m18;
  T<9> m19;
  T<10> m20;
};
struct tgt_21_2_0 {
  T<6>* r0;
  T<4>* r1;
  T<8>& r2;
  T<7>& r3;
  T<0>* r4;
  T<9>& r5;
  T<5>& r6;
  T<10>& r7;
  T<2>& r8;
  T<1>& r9;
  T<3>& r10;
};
void run_21_2(vf::ctx& c) {
  store s{c}; src_21_2 src{s.sptr<0>(), s.sptr<0>(), s.sptr<1>(), s.sptr<1>(), s.uptr<2>(), s.uptr<2>(), s.direct<3>(), s.direct<3>(), s.sptr<4>(), s.sptr<4>(), s.sptr<5>(), s.sptr<5>(), s.ptr<6>(), s.ptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.direct<9>(), s.direct<9>(), s.direct<10>()};
  auto const before = snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), src.m12, src.m13, &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, &src.m19, &src.m20);
  {
  bool const none = src.m10.get() == nullptr || src.m2.get() == nullptr || src.m4.get() == nullptr;
  auto t = utl::init_from<tgt_21_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "21_2");
  if (t) {
    CHECK(t->r0 == src.m12, "init_from/address", "21_2 member 0");
    CHECK(t->r1 == src.m8.get(), "init_from/address", "21_2 member 1");
    CHECK(&t->r2 == &src.m16, "init_from/address", "21_2 member 2");
    CHECK(&t->r3 == &src.m14, "init_from/address", "21_2 member 3");
    CHECK(t->r4 == src.m0.get(), "init_from/address", "21_2 member 4");
    CHECK(&t->r5 == &src.m18, "init_from/address", "21_2 member 5");
    CHECK(&t->r6 == src.m10.get(), "init_from/address", "21_2 member 6");
    CHECK(&t->r7 == &src.m20, "init_from/address", "21_2 member 7");
    CHECK(&t->r8 == src.m4.get(), "init_from/address", "21_2 member 8");
    CHECK(&t->r9 == src.m2.get(), "init_from/address", "21_2 member 9");
    CHECK(&t->r10 == &src.m6, "init_from/address", "21_2 member 10");
    c.count("init-members", 11);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(src.m0.get(), src.m1.get(), src.m2.get(), src.m3.get(), src.m4.get(), src.m5.get(), &src.m6, &src.m7, src.m8.get(), src.m9.get(), src.m10.get(), src.m11.get(), src.m12, src.m13, &src.m14, &src.m15, &src.m16, &src.m17, &src.m18, &src.m19, &src.m20), "init_from/source-changed", "21_2");
  c.count("inits"); c.distinct(vf::hcomb(86, s.pattern));
}
struct src_21_3 {
  T<0> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
  T<2> m3;
  T<2> m4;
  T<3> m5;
  T<3> m6;
  T<4> m7;
  T<4> m8;
  std::shared_ptr<T<5>> m9;
  std::shared_ptr<T<5>> m10;
  T<6>* m11;
  T<6>* m12;
  T<7> m13;
  T<7> m14;
  T<8> m15;
  T<8> m16;
  T<9>* m17;
  T<9>* m18;
  std::shared_ptr<T<10>> m19;
  std::shared_ptr<T<10>> m20;
};
struct tgt_21_3_0 {
  T<3>& r0;
  T<4>& r1;
  T<7>& r2;
  T<10>& r3;
  T<1>& r4;
  T<9>* r5;
  T<6>& r6;
  T<8>& r7;
  T<0>& r8;
  T<2>& r9;
  T<5>& r10;
};
void run_21_3(vf::ctx& c) {
  store s{c}; src_21_3 src{s.direct<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.sptr<5>(), s.sptr<5>(), s.ptr<6>(), s.ptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.ptr<9>(), s.ptr<9>(), s.sptr<10>(), s.sptr<10>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get());
  {
  bool const none = src.m1.get() == nullptr || src.m11 == nullptr || src.m19.get() == nullptr || src.m9.get() == nullptr;
  auto t = utl::init_from<tgt_21_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "21_3");
  if (t) {
    CHECK(&t->r0 == &src.m5, "init_from/address", "21_3 member 0");
    CHECK(&t->r1 == &src.m7, "init_from/address", "21_3 member 1");
    CHECK(&t->r2 == &src.m13, "init_from/address", "21_3 member 2");
    CHECK(&t->r3 == src.m19.get(), "init_from/address", "21_3 member 3");
    CHECK(&t->r4 == src.m1.get(), "init_from/address", "21_3 member 4");
    CHECK(t->r5 == src.m17, "init_from/address", "21_3 member 5");
    CHECK(&t->r6 == src.m11, "init_from/address", "21_3 member 6");
    CHECK(&t->r7 == &src.m15, "init_from/address", "21_3 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "21_3 member 8");
    CHECK(&t->r9 == &src.m3, "init_from/address", "21_3 member 9");
    CHECK(&t->r10 == src.m9.get(), "init_from/address", "21_3 member 10");
    c.count("init-members", 11);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9.get(), src.m10.get(), src.m11, src.m12, &src.m13, &src.m14, &src.m15, &src.m16, src.m17, src.m18, src.m19.get(), src.m20.get()), "init_from/source-changed", "21_3");
  c.count("inits"); c.distinct(vf::hcomb(87, s.pattern));
}
struct src_22_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  T<2>* m4;
  T<2>* m5;
  uniq<T<3>> m6;
  uniq<T<3>> m7;
  T<4> m8;
  T<4> m9;
  T<5>* m10;
  T<5>* m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  T<7> m14;
  T<7> m15;
  T<8> m16;
  T<8> m17;
  std::shared_ptr<T<9>> m18;
  std::shared_ptr<T<9>> m19;
  T<10>* m20;
  T<10>* m21;
};
struct tgt_22_2_0 {
  T<4>& r0;
  T<1>& r1;
  T<7>& r2;
  T<3>* r3;
  T<9>& r4;
  T<2>& r5;
  T<10>* r6;
  T<5>& r7;
  T<0>& r8;
  T<6>& r9;
  T<8>& r10;
};
void run_22_2(vf::ctx& c) {
  store s{c}; src_22_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.ptr<2>(), s.ptr<2>(), s.uptr<3>(), s.uptr<3>(), s.direct<4>(), s.direct<4>(), s.ptr<5>(), s.ptr<5>(), s.sptr<6>(), s.sptr<6>(), s.direct<7>(), s.direct<7>(), s.direct<8>(), s.direct<8>(), s.sptr<9>(), s.sptr<9>(), s.ptr<10>(), s.ptr<10>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4, src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, src.m10, src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, &src.m16, &src.m17, src.m18.get(), src.m19.get(), src.m20, src.m21);
  {
  bool const none = src.m10 == nullptr || src.m12.get() == nullptr || src.m18.get() == nullptr || src.m4 == nullptr;
  auto t = utl::init_from<tgt_22_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "22_2");
  if (t) {
    CHECK(&t->r0 == &src.m8, "init_from/address", "22_2 member 0");
    CHECK(&t->r1 == &src.m2, "init_from/address", "22_2 member 1");
    CHECK(&t->r2 == &src.m14, "init_from/address", "22_2 member 2");
    CHECK(t->r3 == src.m6.get(), "init_from/address", "22_2 member 3");
    CHECK(&t->r4 == src.m18.get(), "init_from/address", "22_2 member 4");
    CHECK(&t->r5 == src.m4, "init_from/address", "22_2 member 5");
    CHECK(t->r6 == src.m20, "init_from/address", "22_2 member 6");
    CHECK(&t->r7 == src.m10, "init_from/address", "22_2 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "22_2 member 8");
    CHECK(&t->r9 == src.m12.get(), "init_from/address", "22_2 member 9");
    CHECK(&t->r10 == &src.m16, "init_from/address", "22_2 member 10");
    c.count("init-members", 11);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4, src.m5, src.m6.get(), src.m7.get(), &src.m8, &src.m9, src.m10, src.m11, src.m12.get(), src.m13.get(), &src.m14, &src.m15, &src.m16, &src.m17, src.m18.get(), src.m19.get(), src.m20, src.m21), "init_from/source-changed", "22_2");
  c.count("inits"); c.distinct(vf::hcomb(90, s.pattern));
}
struct src_22_3 {
  T<0> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
  T<2> m3;
  T<2> m4;
  T<3> m5;
  T<3> m6;
  T<4> m7;
  T<4> m8;
  T<5>* m9;
  T<5>* m10;
  uniq<T<6>> m11;
  uniq<T<6>> m12;
  T<7>* m13;
  T<7>* m14;
  T<8> m15;
  T<8> m16;
  std::shared_ptr<T<9>> m17;
  std::shared_ptr<T<9>> m18;
  T<10>* m19;
  T<10>* m20;
  std::shared_ptr<T<11>> m21;
};
struct tgt_22_3_0 {
  T<10>& r0;
  T<1>& r1;
  T<8>& r2;
  T<5>* r3;
  T<6>& r4;
  T<7>& r5;
  T<3>& r6;
  T<4>& r7;
  T<0>& r8;
  T<2>& r9;
  T<11>& r10;
  T<9>* r11;
};
void run_22_3(vf::ctx& c) {
  store s{c}; src_22_3 src{s.direct<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.direct<3>(), s.direct<3>(), s.direct<4>(), s.direct<4>(), s.ptr<5>(), s.ptr<5>(), s.uptr<6>(), s.uptr<6>(), s.ptr<7>(), s.ptr<7>(), s.direct<8>(), s.direct<8>(), s.sptr<9>(), s.sptr<9>(), s.ptr<10>(), s.ptr<10>(), s.sptr<11>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9, src.m10, src.m11.get(), src.m12.get(), src.m13, src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), src.m19, src.m20, src.m21.get());
  {
  bool const none = src.m1.get() == nullptr || src.m11.get() == nullptr || src.m13 == nullptr || src.m19 == nullptr || src.m21.get() == nullptr;
  auto t = utl::init_from<tgt_22_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "22_3");
  if (t) {
    CHECK(&t->r0 == src.m19, "init_from/address", "22_3 member 0");
    CHECK(&t->r1 == src.m1.get(), "init_from/address", "22_3 member 1");
    CHECK(&t->r2 == &src.m15, "init_from/address", "22_3 member 2");
    CHECK(t->r3 == src.m9, "init_from/address", "22_3 member 3");
    CHECK(&t->r4 == src.m11.get(), "init_from/address", "22_3 member 4");
    CHECK(&t->r5 == src.m13, "init_from/address", "22_3 member 5");
    CHECK(&t->r6 == &src.m5, "init_from/address", "22_3 member 6");
    CHECK(&t->r7 == &src.m7, "init_from/address", "22_3 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "22_3 member 8");
    CHECK(&t->r9 == &src.m3, "init_from/address", "22_3 member 9");
    CHECK(&t->r10 == src.m21.get(), "init_from/address", "22_3 member 10");
    CHECK(t->r11 == src.m17.get(), "init_from/address", "22_3 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, &src.m5, &src.m6, &src.m7, &src.m8, src.m9, src.m10, src.m11.get(), src.m12.get(), src.m13, src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), src.m19, src.m20, src.m21.get()), "init_from/source-changed", "22_3");
  c.count("inits"); c.distinct(vf::hcomb(91, s.pattern));
}
struct src_23_2 {
  T<0> m0;
  T<0> m1;
  std::shared_ptr<T<1>> m2;
  std::shared_ptr<T<1>> m3;
  T<2>* m4;
  T<2>* m5;
  T<3> m6;
  T<3> m7;
  T<4>* m8;
  T<4>* m9;
  T<5> m10;
  T<5> m11;
  T<6> m12;
  T<6> m13;
  uniq<T<7>> m14;
  uniq<T<7>> m15;
  T<8>* m16;
  T<8>* m17;
  uniq<T<9>> m18;
  uniq<T<9>> m19;
  uniq<T<10>> m20;
  uniq<T<10>> m21;
  T<11> m22;
};
struct tgt_23_2_0 {
  T<7>& r0;
  T<9>* r1;
  T<2>& r2;
  T<3>& r3;
  T<6>& r4;
  T<10>& r5;
  T<8>* r6;
  T<4>* r7;
  T<0>& r8;
  T<11>& r9;
  T<5>& r10;
  T<1>& r11;
};
void run_23_2(vf::ctx& c) {
  store s{c}; src_23_2 src{s.direct<0>(), s.direct<0>(), s.sptr<1>(), s.sptr<1>(), s.ptr<2>(), s.ptr<2>(), s.direct<3>(), s.direct<3>(), s.ptr<4>(), s.ptr<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>(), s.uptr<7>(), s.uptr<7>(), s.ptr<8>(), s.ptr<8>(), s.uptr<9>(), s.uptr<9>(), s.uptr<10>(), s.uptr<10>(), s.direct<11>()};
  auto const before = snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), src.m4, src.m5, &src.m6, &src.m7, src.m8, src.m9, &src.m10, &src.m11, &src.m12, &src.m13, src.m14.get(), src.m15.get(), src.m16, src.m17, src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), &src.m22);
  {
  bool const none = src.m14.get() == nullptr || src.m2.get() == nullptr || src.m20.get() == nullptr || src.m4 == nullptr;
  auto t = utl::init_from<tgt_23_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "23_2");
  if (t) {
    CHECK(&t->r0 == src.m14.get(), "init_from/address", "23_2 member 0");
    CHECK(t->r1 == src.m18.get(), "init_from/address", "23_2 member 1");
    CHECK(&t->r2 == src.m4, "init_from/address", "23_2 member 2");
    CHECK(&t->r3 == &src.m6, "init_from/address", "23_2 member 3");
    CHECK(&t->r4 == &src.m12, "init_from/address", "23_2 member 4");
    CHECK(&t->r5 == src.m20.get(), "init_from/address", "23_2 member 5");
    CHECK(t->r6 == src.m16, "init_from/address", "23_2 member 6");
    CHECK(t->r7 == src.m8, "init_from/address", "23_2 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "23_2 member 8");
    CHECK(&t->r9 == &src.m22, "init_from/address", "23_2 member 9");
    CHECK(&t->r10 == &src.m10, "init_from/address", "23_2 member 10");
    CHECK(&t->r11 == src.m2.get(), "init_from/address", "23_2 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, src.m2.get(), src.m3.get(), src.m4, src.m5, &src.m6, &src.m7, src.m8, src.m9, &src.m10, &src.m11, &src.m12, &src.m13, src.m14.get(), src.m15.get(), src.m16, src.m17, src.m18.get(), src.m19.get(), src.m20.get(), src.m21.get(), &src.m22), "init_from/source-changed", "23_2");
  c.count("inits"); c.distinct(vf::hcomb(94, s.pattern));
}
struct src_23_3 {
  T<0> m0;
  uniq<T<1>> m1;
  uniq<T<1>> m2;
  T<2> m3;
  T<2> m4;
  std::shared_ptr<T<3>> m5;
  std::shared_ptr<T<3>> m6;
  T<4> m7;
  T<4> m8;
  T<5>* m9;
  T<5>* m10;
  uniq<T<6>> m11;
  uniq<T<6>> m12;
  T<7>* m13;
  T<7>* m14;
  T<8> m15;
  T<8> m16;
  std::shared_ptr<T<9>> m17;
  std::shared_ptr<T<9>> m18;
  T<10> m19;
  T<10> m20;
  std::shared_ptr<T<11>> m21;
  std::shared_ptr<T<11>> m22;
};
struct tgt_23_3_0 {
  T<4>& r0;
  T<8>& r1;
  T<10>& r2;
  T<3>* r3;
  T<2>& r4;
  T<0>& r5;
  T<11>& r6;
  T<9>& r7;
  T<6>& r8;
  T<7>* r9;
  T<1>& r10;
  T<5>* r11;
};
void run_23_3(vf::ctx& c) {
  store s{c}; src_23_3 src{s.direct<0>(), s.uptr<1>(), s.uptr<1>(), s.direct<2>(), s.direct<2>(), s.sptr<3>(), s.sptr<3>(), s.direct<4>(), s.direct<4>(), s.ptr<5>(), s.ptr<5>(), s.uptr<6>(), s.uptr<6>(), s.ptr<7>(), s.ptr<7>(), s.direct<8>(), s.direct<8>(), s.sptr<9>(), s.sptr<9>(), s.direct<10>(), s.direct<10>(), s.sptr<11>(), s.sptr<11>()};
  auto const before = snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, src.m9, src.m10, src.m11.get(), src.m12.get(), src.m13, src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), &src.m19, &src.m20, src.m21.get(), src.m22.get());
  {
  bool const none = src.m1.get() == nullptr || src.m11.get() == nullptr || src.m17.get() == nullptr || src.m21.get() == nullptr;
  auto t = utl::init_from<tgt_23_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "23_3");
  if (t) {
    CHECK(&t->r0 == &src.m7, "init_from/address", "23_3 member 0");
    CHECK(&t->r1 == &src.m15, "init_from/address", "23_3 member 1");
    CHECK(&t->r2 == &src.m19, "init_from/address", "23_3 member 2");
    CHECK(t->r3 == src.m5.get(), "init_from/address", "23_3 member 3");
    CHECK(&t->r4 == &src.m3, "init_from/address", "23_3 member 4");
    CHECK(&t->r5 == &src.m0, "init_from/address", "23_3 member 5");
    CHECK(&t->r6 == src.m21.get(), "init_from/address", "23_3 member 6");
    CHECK(&t->r7 == src.m17.get(), "init_from/address", "23_3 member 7");
    CHECK(&t->r8 == src.m11.get(), "init_from/address", "23_3 member 8");
    CHECK(t->r9 == src.m13, "init_from/address", "23_3 member 9");
    CHECK(&t->r10 == src.m1.get(), "init_from/address", "23_3 member 10");
    CHECK(t->r11 == src.m9, "init_from/address", "23_3 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, src.m1.get(), src.m2.get(), &src.m3, &src.m4, src.m5.get(), src.m6.get(), &src.m7, &src.m8, src.m9, src.m10, src.m11.get(), src.m12.get(), src.m13, src.m14, &src.m15, &src.m16, src.m17.get(), src.m18.get(), &src.m19, &src.m20, src.m21.get(), src.m22.get()), "init_from/source-changed", "23_3");
  c.count("inits"); c.distinct(vf::hcomb(95, s.pattern));
}
struct src_24_2 {
  T<0> m0;
  T<0> m1;
  T<1> m2;
  T<1> m3;
  std::shared_ptr<T<2>> m4;
  std::shared_ptr<T<2>> m5;
  T<3>* m6;
  T<3>* m7;
  T<4>* m8;
  T<4>* m9;
  T<5>* m10;
  T<5>* m11;
  std::shared_ptr<T<6>> m12;
  std::shared_ptr<T<6>> m13;
  std::shared_ptr<T<7>> m14;
  std::shared_ptr<T<7>> m15;
  std::shared_ptr<T<8>> m16;
  std::shared_ptr<T<8>> m17;
  T<9> m18;
  T<9> m19;
  uniq<T<10>> m20;
  uniq<T<10>> m21;
  T<11>* m22;
  T<11>* m23;
};
struct tgt_24_2_0 {
  T<5>* r0;
  T<8>& r1;
  T<6>& r2;
  T<3>& r3;
  T<11>& r4;
  T<7>& r5;
  T<9>& r6;
  T<10>& r7;
  T<0>& r8;
  T<2>* r9;
  T<1>& r10;
  T<4>* r11;
};
void run_24_2(vf::ctx& c) {
  store s{c}; src_24_2 src{s.direct<0>(), s.direct<0>(), s.direct<1>(), s.direct<1>(), s.sptr<2>(), s.sptr<2>(), s.ptr<3>(), s.ptr<3>(), s.ptr<4>(), s.ptr<4>(), s.ptr<5>(), s.ptr<5>(), s.sptr<6>(), s.sptr<6>(), s.sptr<7>(), s.sptr<7>(), s.sptr<8>(), s.sptr<8>(), s.direct<9>(), s.direct<9>(), s.uptr<10>(), s.uptr<10>(), s.ptr<11>(), s.ptr<11>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8, src.m9, src.m10, src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), &src.m18, &src.m19, src.m20.get(), src.m21.get(), src.m22, src.m23);
  {
  bool const none = src.m12.get() == nullptr || src.m14.get() == nullptr || src.m16.get() == nullptr || src.m20.get() == nullptr || src.m22 == nullptr || src.m6 == nullptr;
  auto t = utl::init_from<tgt_24_2_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "24_2");
  if (t) {
    CHECK(t->r0 == src.m10, "init_from/address", "24_2 member 0");
    CHECK(&t->r1 == src.m16.get(), "init_from/address", "24_2 member 1");
    CHECK(&t->r2 == src.m12.get(), "init_from/address", "24_2 member 2");
    CHECK(&t->r3 == src.m6, "init_from/address", "24_2 member 3");
    CHECK(&t->r4 == src.m22, "init_from/address", "24_2 member 4");
    CHECK(&t->r5 == src.m14.get(), "init_from/address", "24_2 member 5");
    CHECK(&t->r6 == &src.m18, "init_from/address", "24_2 member 6");
    CHECK(&t->r7 == src.m20.get(), "init_from/address", "24_2 member 7");
    CHECK(&t->r8 == &src.m0, "init_from/address", "24_2 member 8");
    CHECK(t->r9 == src.m4.get(), "init_from/address", "24_2 member 9");
    CHECK(&t->r10 == &src.m2, "init_from/address", "24_2 member 10");
    CHECK(t->r11 == src.m8, "init_from/address", "24_2 member 11");
    c.count("init-members", 12);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, src.m4.get(), src.m5.get(), src.m6, src.m7, src.m8, src.m9, src.m10, src.m11, src.m12.get(), src.m13.get(), src.m14.get(), src.m15.get(), src.m16.get(), src.m17.get(), &src.m18, &src.m19, src.m20.get(), src.m21.get(), src.m22, src.m23), "init_from/source-changed", "24_2");
  c.count("inits"); c.distinct(vf::hcomb(98, s.pattern));
}
struct src_24_3 {
  T<0> m0;
  T<1> m1;
  T<1> m2;
  T<2> m3;
  T<2> m4;
  T<3>* m5;
  T<3>* m6;
  uniq<T<4>> m7;
  uniq<T<4>> m8;
  T<5> m9;
  T<5> m10;
  T<6> m11;
  T<6> m12;
  T<7> m13;
  T<7> m14;
  std::shared_ptr<T<8>> m15;
  std::shared_ptr<T<8>> m16;
  T<9> m17;
  T<9> m18;
  T<10>* m19;
  T<10>* m20;
  T<11> m21;
  T<11> m22;
  T<12> m23;
};
struct tgt_24_3_0 {
  T<11>& r0;
  T<10>* r1;
  T<9>& r2;
  T<5>& r3;
  T<3>& r4;
  T<1>& r5;
  T<8>* r6;
  T<0>& r7;
  T<7>& r8;
  T<12>& r9;
  T<2>& r10;
  T<4>& r11;
  T<6>& r12;
};
void run_24_3(vf::ctx& c) {
  store s{c}; src_24_3 src{s.direct<0>(), s.direct<1>(), s.direct<1>(), s.direct<2>(), s.direct<2>(), s.ptr<3>(), s.ptr<3>(), s.uptr<4>(), s.uptr<4>(), s.direct<5>(), s.direct<5>(), s.direct<6>(), s.direct<6>(), s.direct<7>(), s.direct<7>(), s.sptr<8>(), s.sptr<8>(), s.direct<9>(), s.direct<9>(), s.ptr<10>(), s.ptr<10>(), s.direct<11>(), s.direct<11>(), s.direct<12>()};
  auto const before = snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, &src.m11, &src.m12, &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, &src.m18, src.m19, src.m20, &src.m21, &src.m22, &src.m23);
  {
  bool const none = src.m5 == nullptr || src.m7.get() == nullptr;
  auto t = utl::init_from<tgt_24_3_0>(src);
  CHECK_EQ(!none, t.has_value(), "init_from/engaged", "24_3");
  if (t) {
    CHECK(&t->r0 == &src.m21, "init_from/address", "24_3 member 0");
    CHECK(t->r1 == src.m19, "init_from/address", "24_3 member 1");
    CHECK(&t->r2 == &src.m17, "init_from/address", "24_3 member 2");
    CHECK(&t->r3 == &src.m9, "init_from/address", "24_3 member 3");
    CHECK(&t->r4 == src.m5, "init_from/address", "24_3 member 4");
    CHECK(&t->r5 == &src.m1, "init_from/address", "24_3 member 5");
    CHECK(t->r6 == src.m15.get(), "init_from/address", "24_3 member 6");
    CHECK(&t->r7 == &src.m0, "init_from/address", "24_3 member 7");
    CHECK(&t->r8 == &src.m13, "init_from/address", "24_3 member 8");
    CHECK(&t->r9 == &src.m23, "init_from/address", "24_3 member 9");
    CHECK(&t->r10 == &src.m3, "init_from/address", "24_3 member 10");
    CHECK(&t->r11 == src.m7.get(), "init_from/address", "24_3 member 11");
    CHECK(&t->r12 == &src.m11, "init_from/address", "24_3 member 12");
    c.count("init-members", 13);
  } else { c.count("init-none"); }
  }
  CHECK(before == snapshot(&src.m0, &src.m1, &src.m2, &src.m3, &src.m4, src.m5, src.m6, src.m7.get(), src.m8.get(), &src.m9, &src.m10, &src.m11, &src.m12, &src.m13, &src.m14, src.m15.get(), src.m16.get(), &src.m17, &src.m18, src.m19, src.m20, &src.m21, &src.m22, &src.m23), "init_from/source-changed", "24_3");
  c.count("inits"); c.distinct(vf::hcomb(99, s.pattern));
}
}  // namespace
SCENARIO(init_from_f, 960, 24000) {
  static void (*const fns[])(vf::ctx&) = {run_17_2, run_17_3, run_18_2, run_18_3, run_19_2, run_19_3, run_20_2, run_20_3, run_21_2, run_21_3, run_22_2, run_22_3, run_23_2, run_23_3, run_24_2, run_24_3};
  fns[c.idx % 16](c);
}
